// A problem built with the random seed off must not depend on the process-wide generator.
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <cstdio>
#include <cstdlib>
using namespace opengv;
typedef sac_problems::relative_pose::EigensolverSacProblem Eig;
typedef sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem Mul;
int main()
{
  bearingVectors_t f1, f2;
  translation_t t(0.3,0.1,-0.2); rotation_t R; R = Eigen::AngleAxisd(0.2,Eigen::Vector3d(1,2,3).normalized()).toRotationMatrix();
  for(int i=0;i<30;i++) {
    point_t p(0.05*i-1+0.3*((i*7)%5), 0.03*((i*i)%17)-1, 4+i%6);
    f1.push_back(p.normalized()); f2.push_back(((R.transpose()*(p-t)).normalized()+Eigen::Vector3d(0.01*(i%3),0.01*(i%4),0)).normalized());
  }
  int bad=0;
  std::vector<int> idx; for(int i=0;i<10;i++) idx.push_back(i);
  EigensolverOutput o[2];
  for(int k=0;k<2;k++) {
    srand(k*77+1);
    relative_pose::CentralRelativeAdapter ad(f1,f2);
    Eig pr(ad,10,false);
    pr.computeModelCoefficients(idx,o[k]);
  }
  if(o[0].rotation!=o[1].rotation) { printf("eigensolver hypothesis depends on srand\n"); bad++; }
  std::vector<std::shared_ptr<bearingVectors_t> > v1, v2;
  translations_t off; rotations_t rot;
  for(int c=0;c<20;c++) { v1.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t(f1))); v2.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t(f2))); off.push_back(translation_t(0.1*c,0,0)); rot.push_back(rotation_t::Identity()); }
  std::vector<int> s[2];
  for(int k=0;k<2;k++) {
    srand(k*77+1);
    relative_pose::NoncentralRelativeMultiAdapter ad(v1,v2,off,rot);
    Mul pr(ad,Mul::SEVENTEENPT,false,false);
    s[k]=pr.getSampleSizes();
  }
  if(s[0]!=s[1]) { printf("sample sizes depend on srand\n"); bad++; }
  return bad;
}
