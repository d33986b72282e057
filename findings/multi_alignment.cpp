#include <memory>
#include <functional>
#include <climits>
#include <cstdlib>
#include <random>

#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <vector>
#include <cstdio>
using namespace opengv;
template<class T> int go(const char*n){ std::vector<T*> v; std::vector<void*> junk; int bad=0; for(int i=0;i<64;i++){ junk.push_back(malloc(24+16*(i%3))); T*p=new T(10); v.push_back(p); if(((size_t)&p->model_coefficients_) % alignof(typename T::model_t)) bad++; } printf("%s alignof %zu misaligned %d of 64\n",n,alignof(typename T::model_t),bad); return bad; }
int main(){ go<sac::Ransac<sac_problems::relative_pose::CentralRelativePoseSacProblem> >("Ransac"); return go<sac::MultiRansac<sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem> >("MultiRansac")!=0; }
