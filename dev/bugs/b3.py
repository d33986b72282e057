LM='include/opengv/sac/implementation/Lmeds.hpp'; MR='include/opengv/sac/implementation/MultiRansac.hpp'
NR='src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'; AP='src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp'
TRI='src/triangulation/methods.cpp'; RM='src/relative_pose/methods.cpp'; AM='src/absolute_pose/methods.cpp'; EP='src/absolute_pose/modules/Epnp.cpp'
RAB='include/opengv/relative_pose/RelativeAdapterBase.hpp'
BUGS=[
dict(id='lmeds-squares-before-clipping',property='S01',edits=[(LM,'''    	if (distances[i] < 0) {
    		distances[i] = 0;
    	}
    	distances[i] = distances[i] * distances[i];''','''    	distances[i] = distances[i] * distances[i];
    	if (distances[i] < 0) {
    		distances[i] = 0;
    	}''')],
 needs='residuals that are slightly negative (rounding of 1-cos), large enough in number to move the median',
 breaks='Negative residuals enter the median with their square instead of zero, so another hypothesis wins.',
 demo='''#include "toy.hpp"
int main() {
  std::shared_ptr<Toy> p(new Toy(21, 2));
  p->res = [](double m, int i) { return m == 0.0 ? -0.5 : 0.25; };
  opengv::sac::Lmeds<Toy> r(10, 0.4, 0.99); r.sac_model_ = p;
  REQUIRE(r.computeModel()); REQUIRE(r.model_coefficients_ == 0.0); return 0; }
'''),
dict(id='multiransac-bound-ignores-unsampled-frames',property='S04',edits=[(MR,'''        multiIndicesNumber += multiIndices->at(multiIter).size();''','''      {
        //frames that contribute nothing to the sample do not count
        if( multiIter < selection.size() && !selection[multiIter].empty() )
          multiIndicesNumber += multiIndices->at(multiIter).size();
      }''')],
 needs='a multi-camera sample in which a camera with correspondences gets no sample member',
 breaks='The inlier ratio is overestimated (even above one), so sampling stops too early.',
 demo='''#include "toy.hpp"
int main() {
  std::vector<int> N(3, 20), S(3, 2); S[2] = 0;
  std::shared_ptr<MToy> p(new MToy(N, S));
  p->res = [](double, int f, int i) { return (f == 2 || i < 8) ? 0.0 : 1.0; };
  opengv::sac::MultiRansac<MToy> r(1000, 0.5, 0.99); r.sac_model_ = p; r.computeModel();
  double w = 36.0 / 60.0, k = log(0.01) / log(1 - pow(w, 4)); printf("%d %f\\n", r.iterations_, k); REQUIRE(r.iterations_ == (int) ceil(k)); return 0; }
'''),
dict(id='eigensolver-indexed-problem-always-random',property='S07',edits=[('include/opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp','''      size_t sampleSize,
      const std::vector<int> & indices,
      bool randomSeed = true) :
      sac::SampleConsensusProblem<model_t> (randomSeed),''','''      size_t sampleSize,
      const std::vector<int> & indices,
      bool randomSeed = true) :
      sac::SampleConsensusProblem<model_t> (randomSeed || sampleSize < 10),''')],
 needs='an eigensolver problem with the fixed seed on a subset of the correspondences and a small sample size',
 breaks='The generator is seeded from the clock although the fixed seed was requested.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <unistd.h>
int main() { Rnd r(3); Rig rig(r, 1, 0.0); rig.rot[0].setIdentity(); Scene s(r, rig, 200); std::vector<int> all; for (int i = 0; i < 200; i++) all.push_back(i);
  relative_pose::CentralRelativeAdapter a(s.f1, s.f2, s.R); typedef sac_problems::relative_pose::EigensolverSacProblem P;
  P p(a, 8, all, false); sleep(2); P q(a, 8, all, false); int it = 0; std::vector<int> x, y; p.getSamples(it, x); q.getSamples(it, y); REQUIRE(x == y); return 0; }
'''),
dict(id='noncentral-refinement-needs-six',property='S10',edits=[(NR,'''  translation_t translation = model.col(3);
  rotation_t rotation = model.block<3,3>(0,0);
  _adapter.sett12(translation);
  _adapter.setR12(rotation);
  optimized_model =''','''  translation_t translation = model.col(3);
  rotation_t rotation = model.block<3,3>(0,0);
  _adapter.sett12(translation);
  _adapter.setR12(rotation);
  //use everything if the inliers do not constrain the pose
  if( inliers.size() < 6 + 2 )
    optimized_model = opengv::relative_pose::optimize_nonlinear(_adapter);
  else
  optimized_model =''')],
 needs='fewer than eight inliers handed to the refinement',
 breaks='The refinement uses all correspondences, outliers included, instead of the supplied inliers.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
int main() { Rnd r(5); Rig rig(r, 4); Scene s(r, rig, 40); for (int i = 7; i < 40; i++) s.f2[i] = r.v().normalized();
  relative_pose::NoncentralRelativeAdapter a(s.f1, s.f2, s.c1, s.c2, rig.off, rig.rot);
  sac_problems::relative_pose::NoncentralRelativePoseSacProblem p(a, sac_problems::relative_pose::NoncentralRelativePoseSacProblem::SEVENTEENPT, false);
  transformation_t m, o; m.block<3,3>(0,0) = s.R; m.col(3) = s.t; std::vector<int> in; for (int i = 0; i < 7; i++) in.push_back(i);
  p.optimizeModelCoefficients(in, m, o); REQUIRE((o - m).norm() < 1e-3); return 0; }
'''),
dict(id='epnp-sample-of-five',property='S12',edits=[(AP,'''  if(_algorithm == EPNP)
    sampleSize = 6;''','''  if(_algorithm == EPNP)
    sampleSize = 5;''')],
 needs='a problem on the EPnP algorithm',
 breaks='Five members are drawn although EPnP needs six.',
 demo='''#include "scene.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
int main() { Rnd r(1); Rig rig(r, 1, 0.0); Scene s(r, rig, 10); absolute_pose::CentralAbsoluteAdapter a(s.f1, s.X);
  typedef sac_problems::absolute_pose::AbsolutePoseSacProblem P; P p(a, P::EPNP, false); REQUIRE(p.getSampleSize() >= 6); return 0; }
'''),
dict(id='second-view-offset-of-first-camera',property='A01',edits=[('src/relative_pose/NoncentralRelativeAdapter.cpp','''  assert(_camCorrespondences2[index] < _camOffsets.size());
  return _camOffsets[_camCorrespondences2[index]];''','''  assert(_camCorrespondences2[index] < _camOffsets.size());
  return _camOffsets[_camCorrespondences1[index]];''')],
 needs='a correspondence seen by different cameras in the two views',
 breaks='The offset of the camera of the first view is returned for the second view.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
int main() { Rnd r(5); Rig rig(r, 4); Scene s(r, rig, 40);
  relative_pose::NoncentralRelativeAdapter a(s.f1, s.f2, s.c1, s.c2, rig.off, rig.rot);
  for (int i = 0; i < 40; i++) REQUIRE(a.getCamOffset2(i) == rig.off[s.c2[i]]); return 0; }
'''),
dict(id='rotation-prior-small-updates-dropped',property='A03',edits=[(RAB,'{ _R12 = R12; };','{ if( !_R12.isApprox(R12,1e-6) ) _R12 = R12; };')],
 needs='two priors that differ by less than a microradian',
 breaks='The prior read back is the previous one.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
int main() { Rnd r(5); Rig rig(r, 1, 0.0); Scene s(r, rig, 4); relative_pose::CentralRelativeAdapter a(s.f1, s.f2, s.R);
  rotation_t Q = s.R * Eigen::AngleAxisd(1e-7, Eigen::Vector3d::UnitX()).toRotationMatrix(); a.setR12(Q); REQUIRE(a.getR12() == Q); return 0; }
'''),
dict(id='midpoint-small-parallax-shortcut',property='T01',edits=[(TRI,'''  Eigen::Vector2d lambda = A.inverse() * b;''','''  Eigen::Vector2d lambda;
  if( fabs(A.determinant()) < 1e-6 )
    lambda = A.colPivHouseholderQr().solve(b).cwiseMax(Eigen::Vector2d(0.0,0.0));
  else
    lambda = A.inverse() * b;''')],
 needs='nearly parallel rays that intersect behind a camera',
 breaks='The returned point is not the midpoint of the closest points.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/triangulation/methods.hpp>
int main() { bearingVectors_t f1, f2; Eigen::Vector3d X(0, 0, -5000), t(1, 0, 0); f1.push_back(-X.normalized()); f2.push_back(-(X - t).normalized());
  relative_pose::CentralRelativeAdapter a(f1, f2, t, rotation_t::Identity()); point_t p = triangulation::triangulate2(a, 0); printf("%g\\n", (p - X).norm()); REQUIRE((p - X).norm() < 1.0); return 0; }
'''),
dict(id='p2p-z-dominant-sign',property='T03',edits=[(AM,'''      n3[0] = 1.0;
      n3[1] = 0.0;
      n3[2] = -n1[0]/n1[2];''','''      n3[0] = 1.0;
      n3[1] = 0.0;
      n3[2] = n1[0]/n1[2];''')],
 needs='two points whose difference is largest along z',
 breaks='The helper direction is not perpendicular to the line between the points.',
 demo='''#include "scene.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/methods.hpp>
int main() { Rnd r(5); points_t X; X.push_back(Eigen::Vector3d(1, 2, 3)); X.push_back(Eigen::Vector3d(2, 1.5, 7)); rotation_t R = r.rot(1.0); translation_t t(0.3, 0.2, -4); bearingVectors_t f;
  for (int i = 0; i < 2; i++) f.push_back((R.transpose() * (X[i] - t)).normalized());
  absolute_pose::CentralAbsoluteAdapter a(f, X, R); REQUIRE((absolute_pose::p2p(a, 0, 1) - t).norm() < 1e-6); return 0; }
'''),
dict(id='eightpt-leading-hundred',property='M02',edits=[(RM,'''essential_t eightpt(
    const RelativeAdapterBase & adapter,
    const Indices & indices )
{
  size_t numberCorrespondences = indices.size();''','''essential_t eightpt(
    const RelativeAdapterBase & adapter,
    const Indices & indices )
{
  //more than that only costs time
  size_t numberCorrespondences = std::min<size_t>(indices.size(),100);''')],
 needs='more than a hundred correspondences, of which the first hundred are less accurate',
 breaks='Correspondences behind the first hundred do not contribute.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
int main() { Rnd r(5); Rig rig(r, 1, 0.0); rig.rot[0].setIdentity(); Scene s(r, rig, 150); relative_pose::CentralRelativeAdapter a(s.f1, s.f2); essential_t E = relative_pose::eightpt(a);
  bearingVectors_t g1 = s.f1, g2 = s.f2; for (int i = 100; i < 150; i++) g2[i] = r.v().normalized(); relative_pose::CentralRelativeAdapter b(g1, g2); essential_t F = relative_pose::eightpt(b);
  REQUIRE(std::min((E - F).norm(), (E + F).norm()) > 1e-6); return 0; }
'''),
dict(id='ge-lever-arm-of-first-view-twice',property='M02',edits=[(RM,'''    Eigen::Vector3d t2 = adapter.getCamOffset2(indices[i]);
    
    Eigen::Matrix<double,1,9> f2_19;''','''    Eigen::Vector3d t2 = adapter.getCamOffset1(indices[i]);
    
    Eigen::Matrix<double,1,9> f2_19;''')],
 needs='a rig whose correspondences connect different cameras',
 breaks='The generalized eigensolver uses the lever arm of the first view for the second one.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
int main() { double best = 9; for (int k = 0; k < 10; k++) { Rnd r(50 + k); Rig rig(r, 4); Scene s(r, rig, 40, 0.0, 0.05);
  relative_pose::NoncentralRelativeAdapter a(s.f1, s.f2, s.c1, s.c2, rig.off, rig.rot); geOutput_t o; o.rotation = s.R; rotation_t R = relative_pose::ge(a, o); best = std::min(best, (R - s.R).norm()); }
  printf("%g\\n", best); REQUIRE(best < 1e-5); return 0; }
'''),
dict(id='sevenpt-accepts-six',property='M03',edits=[(RM,'''  assert(numberCorrespondences > 6);

  Eigen::MatrixXd A(numberCorrespondences,9);''','''  assert(numberCorrespondences > 5);

  Eigen::MatrixXd A(numberCorrespondences,9);''')],
 needs='six correspondences handed to the seven-point solver',
 breaks='Six correspondences are accepted; the null space has one dimension more than the solver assumes.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <sys/wait.h>
#include <unistd.h>
int main() { Rnd r(5); Rig rig(r, 1, 0.0); Scene s(r, rig, 6); relative_pose::CentralRelativeAdapter a(s.f1, s.f2);
  pid_t c = fork(); if (!c) { freopen("/dev/null", "w", stderr); relative_pose::sevenpt(a); _exit(0); } int st = 0; waitpid(c, &st, 0); REQUIRE(WIFSIGNALED(st)); return 0; }
'''),
dict(id='midpoint-offset-only-with-baseline',property='L02',edits=[(TRI,'''  b[0] = t12.dot(f1);
  b[1] = t12.dot(f2_unrotated);''','''  b[0] = t12.dot(f1);
  if( t12.squaredNorm() > 0.0 )
    b[1] = t12.dot(f2_unrotated);''')],
 needs='a zero translation between the views', flags='-I. -ftrivial-auto-var-init=pattern',
 breaks='The second right-hand side is read uninitialised for a pure rotation.',
 demo='''#include "src/triangulation/methods.cpp"
#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
int main() { Rnd r(5); bearingVectors_t f1, f2; f1.push_back(r.v().normalized()); f2.push_back(r.v().normalized()); relative_pose::CentralRelativeAdapter a(f1, f2, rotation_t::Identity());
  REQUIRE(triangulation::triangulate2(a, 0).norm() < 1e-12); return 0; }
'''),
dict(id='epnp-growth-leaks-camera-points',property='L04',edits=[(EP,'''    if (pcs != 0) delete [] pcs;
    if (signs != 0) delete [] signs; //added''','''    if (pcs != 0 && signs == 0) delete [] pcs;
    if (signs != 0) delete [] signs; //added''')],
 needs='an EPnP object whose capacity is raised a second time',
 breaks='The camera points of the smaller capacity are never released.',
 demo='''#include <cstdlib>
#include <cstdio>
#include <new>
static long live = 0;
void * operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void * p) noexcept { if (p) live--; free(p); }
void operator delete[](void * p, size_t) noexcept { if (p) live--; free(p); }
#include <opengv/absolute_pose/modules/Epnp.hpp>
int main() { { opengv::absolute_pose::modules::Epnp e; e.set_maximum_number_of_correspondences(5); e.set_maximum_number_of_correspondences(50); } printf("%ld\\n", live); return live != 0; }
'''),
dict(id='transformations-unaligned-container',property='L05',edits=[('include/opengv/types.hpp','''typedef std::vector<transformation_t, Eigen::aligned_allocator<transformation_t> >
    transformations_t;''','''typedef std::vector<transformation_t>
    transformations_t;''')],
 needs='a build with wider vector registers than the allocator aligns for',
 breaks='Containers of 3x4 matrices use the default allocator.',
 demo='''#include <opengv/types.hpp>
#include <type_traits>
static_assert(std::is_same<opengv::transformations_t::allocator_type, Eigen::aligned_allocator<opengv::transformation_t> >::value, "transformations_t must use the aligned allocator");
int main() { return 0; }
'''),
]
