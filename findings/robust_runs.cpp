// Iteration budget and independence of runs, on a scripted problem.
#include <climits>
#include <cmath>
#include <algorithm>
#include <memory>
#include <Eigen/Eigen>
#include <Eigen/StdVector>
#include <opengv/types.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <cstdio>
#include <limits>
struct Stub : opengv::sac::SampleConsensusProblem<double> {
  bool valid; mutable int scored;
  Stub(int n, bool v) : SampleConsensusProblem<double>(false), valid(v), scored(0) { setUniformIndices(n); }
  bool computeModelCoefficients(const std::vector<int>&, double& m) const { m = 1; return valid; }
  void optimizeModelCoefficients(const std::vector<int>&, const double& m, double& o) { o = m; }
  void getSelectedDistancesToModel(const double&, const std::vector<int>& i, std::vector<double>& s) const { scored++; for(size_t k=0;k<i.size();k++) s.push_back(k==0?0.0:5.0); }
  int getSampleSize() const { return 2; }
};
struct MStub : opengv::sac::MultiSampleConsensusProblem<double> {
  bool valid; mutable int scored;
  MStub(int n, bool v) : MultiSampleConsensusProblem<double>(false), valid(v), scored(0) { setUniformIndices(std::vector<int>(2,n)); }
  bool computeModelCoefficients(const std::vector<std::vector<int> >&, double& m) const { m = 1; return valid; }
  void optimizeModelCoefficients(const std::vector<std::vector<int> >&, const double& m, double& o) { o = m; }
  void getSelectedDistancesToModel(const double&, const std::vector<std::vector<int> >& i, std::vector<std::vector<double> >& s) const { scored++; for(size_t f=0;f<i.size();f++) for(size_t k=0;k<i[f].size();k++) s[f].push_back(f+k==0?0.0:5.0); }
  std::vector<int> getSampleSizes() const { return std::vector<int>(2,1); }
};
template<class R, class S> int go(const char* n, bool budget)
{
  int bad = 0;
  R r(10, 1.0, 0.99);
  std::shared_ptr<S> good(new S(1000,true)), bad_(new S(1000,false));
  r.sac_model_ = good;
  bool a = r.computeModel();
  int scored = good->scored - 1;   // the last call selects the inliers
  if(!a || scored > 10) { printf("%s: %d hypotheses scored with a budget of 10\n", n, scored); bad++; }
  r.sac_model_ = bad_;
  if(r.computeModel() || !r.model_.empty() || !r.inliers_.empty()) { printf("%s: a run without any valid hypothesis reports the result of the previous run\n", n); bad++; }
  return bad;
}
int main()
{
  int bad = go<opengv::sac::Ransac<Stub>,Stub>("Ransac",true) + go<opengv::sac::MultiRansac<MStub>,MStub>("MultiRansac",true)
    + go<opengv::sac::Lmeds<Stub>,Stub>("Lmeds",true);
  { opengv::sac::Lmeds<Stub> r(10,1.0,0.99); r.sac_model_.reset(new Stub(100,true)); r.computeModel(); r.threshold_ = std::numeric_limits<double>::max();
    if(r.computeModel() || !r.model_.empty() || !r.inliers_.empty()) { printf("Lmeds: failing run without threshold keeps the previous result\n"); bad++; } }
  return bad;
}
