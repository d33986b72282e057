#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include "../dev/bugs/scene.hpp"
int main(){ int good=0, rgood=0, N=200; 
 for(int s=0;s<N;s++){ Rnd r(s+1); Rig rig(r,4,0.5); Scene S(r,rig,20);
  relative_pose::NoncentralRelativeAdapter ad(S.f1,S.f2,S.c1,S.c2,rig.off,rig.rot);
  sac_problems::relative_pose::NoncentralRelativePoseSacProblem P(ad, sac_problems::relative_pose::NoncentralRelativePoseSacProblem::SIXPT);
  std::vector<int> idx; for(int i=0;i<9;i++) idx.push_back(i);
  transformation_t M; if(!P.computeModelCoefficients(idx,M)) continue;
  double er=(M.block<3,3>(0,0)-S.R).norm(), et=(M.col(3)-S.t).norm();
  if(er<1e-4) rgood++; if(er<1e-4&&et<1e-3) good++; if(s<10) printf("%g %g\n",er,et);
 } printf("rot %d pose %d of %d\n",rgood,good,N); }
