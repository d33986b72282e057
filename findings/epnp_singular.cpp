// EPnP on degenerate data (all points equal) made qr_solve return without assigning X;
// gauss_newton then added indeterminate stack values to the betas. Run under valgrind
// (memcheck reports uses of uninitialised values created in gauss_newton (--track-origins=yes) before the fix).
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
using namespace opengv;
int main()
{
  bearingVectors_t b; points_t p;
  int c[6][3] = {{1,2,0},{-2,1,1},{0,-1,2},{2,0,-2},{1,1,1},{-1,-2,1}};
  for(int i=0;i<6;i++)
  {
    p.push_back(Eigen::Vector3d(1,2,3));
    b.push_back(Eigen::Vector3d(c[i][0],c[i][1],5).normalized());
  }
  absolute_pose::CentralAbsoluteAdapter a(b,p);
  transformation_t t = absolute_pose::epnp(a);
  return t(0,0) > 1e300;
}
