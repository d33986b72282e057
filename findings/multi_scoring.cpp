// Scores frame-local indices {2,3} whose correspondences agree exactly with the
// model while correspondences 0,1 do not: the residuals must be zero.
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <cstdio>
#include <cmath>
using namespace opengv;
int main()
{
  bearingVectors_t f1, f2;
  translation_t t(0.3,0.1,-0.2); rotation_t R; R = Eigen::AngleAxisd(0.2,Eigen::Vector3d(1,2,3).normalized()).toRotationMatrix();
  for(int i=0;i<4;i++) {
    point_t p(0.5*i-1, 0.3*i*i-1, 4+i);
    bearingVector_t a = p.normalized(), b = (R.transpose()*(p-t)).normalized();
    if(i<2) b = (b+Eigen::Vector3d(0.5,-0.4,0.1)).normalized();
    f1.push_back(a); f2.push_back(b);
  }
  std::shared_ptr<bearingVectors_t> p1(new bearingVectors_t(f1)), p2(new bearingVectors_t(f2));
  std::vector<std::shared_ptr<bearingVectors_t> > v1(1,p1), v2(1,p2);
  transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t;
  std::vector<std::vector<int> > idx(1); idx[0].push_back(2); idx[0].push_back(3);
  int bad=0;
  {
    relative_pose::CentralRelativeMultiAdapter ad(v1,v2);
    sac_problems::relative_pose::MultiCentralRelativePoseSacProblem pr(ad,2);
    sac_problems::relative_pose::MultiCentralRelativePoseSacProblem::model_t m; m.push_back(T);
    std::vector<std::vector<double> > s(1);
    pr.getSelectedDistancesToModel(m,idx,s);
    printf("central %g %g\n",s[0][0],s[0][1]); if(s[0][0]>1e-9||s[0][1]>1e-9) bad++;
  }
  {
    translations_t off(1,translation_t(0,0,0)); rotations_t rot(1,rotation_t::Identity());
    relative_pose::NoncentralRelativeMultiAdapter ad(v1,v2,off,rot);
    sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem pr(ad,sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::SEVENTEENPT);
    std::vector<std::vector<double> > s(1);
    pr.getSelectedDistancesToModel(T,idx,s);
    printf("noncentral %g %g\n",s[0][0],s[0][1]); if(s[0][0]>1e-9||s[0][1]>1e-9) bad++;
  }
  return bad;
}
