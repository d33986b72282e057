// ge under AVX (g++ -std=c++11 -mavx, with src/relative_pose/modules/*.cpp etc. compiled the same way)
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <cstdio>
using namespace opengv;
int main(){ for(int k=0;k<32;k++){ void*j=malloc(24+16*(k%5)); (void)j; bearingVectors_t f1,f2; std::vector<int> c1,c2; translations_t o; rotations_t R; 
 srand(k); for(int c=0;c<4;c++){ o.push_back(point_t::Random()); R.push_back(rotation_t::Identity()); }
 for(int i=0;i<10;i++){ f1.push_back(point_t::Random().normalized()); f2.push_back(point_t::Random().normalized()); c1.push_back(i%4); c2.push_back(i%4);} 
 relative_pose::NoncentralRelativeAdapter A(f1,f2,c1,c2,o,R); geOutput_t out; out.rotation=rotation_t::Identity(); relative_pose::ge(A,out); rotation_t q=relative_pose::ge(A); }
 puts("ok"); }
