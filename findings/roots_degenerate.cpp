// exit 0 if the root finders return every root of degenerate polynomials
#include <opengv/math/roots.hpp>
#include <opengv/math/Sturm.hpp>
#include <algorithm>
#include <cmath>
#include <cstdio>
using namespace opengv::math;
static int bad = 0;
static void want(const char *n, std::vector<double> got, std::vector<double> exp)
{
  std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
  bool ok = got.size() == exp.size();
  for (size_t i = 0; ok && i < exp.size(); i++) ok = std::fabs(got[i] - exp[i]) < 1e-3;
  if (!ok) { bad++; printf("%s:", n); for (double x : got) printf(" %g", x); printf("\n"); }
}
int main()
{
  want("o3 triple", o3_roots({1,-3,3,-1}), {1,1,1});
  want("o3 b*b==3ac", o3_roots({1,0,0,-1}), {1,-0.5,-0.5});
  want("o4 biquadratic", o4_roots(std::vector<double>{1,0,-5,0,4}), {-2,-1,1,2});
  want("o4 biquadratic, complex pair", o4_roots(std::vector<double>{1,0,3,0,-4}), {-1,0,0,1});
  want("o4 quadruple", o4_roots(std::vector<double>{1,-4,6,-4,1}), {1,1,1,1});
  want("Sturm degree drop", Sturm(std::vector<double>{1,0,0,0,-1}).findRoots(), {-1,1});
  want("Sturm root on the bound", Sturm(std::vector<double>{1,-5,0}).findRoots(), {0,5});
  want("Sturm linear", Sturm(std::vector<double>{2,-6}).findRoots(), {3});
  return bad != 0;
}
