// rot2quaternion returned NaN for the identity and every rotation whose quaternion has a zero component
#include <opengv/math/quaternion.hpp>
#include <cstdio>
using namespace opengv;
int main()
{
  quaternion_t q = math::rot2quaternion(rotation_t::Identity());
  printf("%g %g %g %g\n", q[0], q[1], q[2], q[3]);
  return q == q && q[0] > 0.999 ? 0 : 1;
}
