// A scripted robust problem: the n-th hypothesis has value n, residuals and validity are given by functions.
#include <opengv/types.hpp>
#include <Eigen/Eigen>
#include <cmath>
#include <climits>
#include <limits>
#include <algorithm>
#include <vector>
#include <cstddef>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <set>
struct Toy : opengv::sac::SampleConsensusProblem<double> {
  typedef double model_t;
  int n, size; mutable int calls; int scored;
  std::function<bool(int)> valid; std::function<double(double,int)> res;
  Toy(int n_, int size_) : opengv::sac::SampleConsensusProblem<double>(false), n(n_), size(size_), calls(0), scored(0)
  { setUniformIndices(n); }
  int getSampleSize() const { return size; }
  bool computeModelCoefficients(const std::vector<int>&, double & m) const
  { int c = calls++; if (calls > 100000) exit(3); m = c; return valid ? valid(c) : true; }
  void optimizeModelCoefficients(const std::vector<int>&, const double & m, double & o) { o = m; }
  void getSelectedDistancesToModel(const double & m, const std::vector<int> & idx, std::vector<double> & s) const
  { for (size_t i = 0; i < idx.size(); i++) s.push_back(res(m, idx[i])); }
};
struct MToy : opengv::sac::MultiSampleConsensusProblem<double> {
  typedef double model_t;
  std::vector<int> sizes; mutable int calls;
  std::function<bool(int)> valid; std::function<double(double,int,int)> res;
  MToy(std::vector<int> Ns, std::vector<int> sizes_) : opengv::sac::MultiSampleConsensusProblem<double>(false), sizes(sizes_), calls(0)
  { setUniformIndices(Ns); }
  std::vector<int> getSampleSizes() const { return sizes; }
  bool computeModelCoefficients(const std::vector<std::vector<int> >&, double & m) const
  { int c = calls++; if (calls > 100000) exit(3); m = c; return valid ? valid(c) : true; }
  void optimizeModelCoefficients(const std::vector<std::vector<int> >&, const double & m, double & o) { o = m; }
  void getSelectedDistancesToModel(const double & m, const std::vector<std::vector<int> > & idx, std::vector<std::vector<double> > & s) const
  { for (size_t f = 0; f < idx.size(); f++) for (size_t i = 0; i < idx[f].size(); i++) s[f].push_back(res(m, f, idx[f][i])); }
};
#define REQUIRE(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
