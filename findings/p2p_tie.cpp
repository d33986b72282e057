// p2p returned (0,0,0) when both world points differ equally in x and y and not in z
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/methods.hpp>
#include <cstdio>
using namespace opengv;
int main()
{
  translation_t t(0.5,-1.0,-4.0);
  points_t p; p.push_back(point_t(1,2,3)); p.push_back(point_t(3,4,3));
  bearingVectors_t f;
  for(size_t i = 0; i < 2; i++) f.push_back((p[i]-t).normalized());
  absolute_pose::CentralAbsoluteAdapter a(f,p,rotation_t::Identity());
  double e = (absolute_pose::p2p(a,0,1)-t).norm();
  printf("error %g\n", e);
  return e < 1e-6 ? 0 : 1;
}
