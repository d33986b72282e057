ES='src/sac_problems/relative_pose/EigensolverSacProblem.cpp'; AP='src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp'
NR='src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'; CR='src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp'
MA='src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp'; TRI='src/triangulation/methods.cpp'
RM='src/relative_pose/methods.cpp'; NMA='src/relative_pose/NoncentralRelativeMultiAdapter.cpp'
MR='include/opengv/sac/implementation/MultiRansac.hpp'
BUGS=[
dict(id='eigensolver-scoring-loses-prior',property='S11',edits=[(ES,'''  _adapter.sett12(tempTranslation);
  _adapter.setR12(tempRotation);''','''  _adapter.sett12(tempTranslation);''')],
 needs='a hypothesis drawn after another model has been scored, with the prior rotation far from that model',
 breaks='Scoring leaves the scored rotation in the adapter, so the next hypothesis starts from the last scored model instead of the prior rotation.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
int main() {
  Rnd r(3); Rig rig(r, 1, 0.0); rig.rot[0].setIdentity(); Scene s(r, rig, 30); std::vector<int> all; for (int i = 0; i < 30; i++) all.push_back(i);
  relative_pose::CentralRelativeAdapter a(s.f1, s.f2, s.R), b(s.f1, s.f2, s.R);
  sac_problems::relative_pose::EigensolverSacProblem p(a, 10, false), q(b, 10, false);
  eigensolverOutput_t m, n, far; far.translation = Eigen::Vector3d(1, 2, 3); far.rotation = Eigen::AngleAxisd(2.0, Eigen::Vector3d::UnitX()).toRotationMatrix();
  std::vector<double> sc; p.getSelectedDistancesToModel(far, all, sc);
  p.computeModelCoefficients(all, m); q.computeModelCoefficients(all, n);
  REQUIRE((m.rotation - n.rotation).norm() < 1e-9); REQUIRE((a.getR12() - s.R).norm() < 1e-12); return 0; }
'''),
dict(id='noncentral-residual-same-camera-shortcut',property='S09',edits=[(NR,'''    translation_t directTranslation =
        cam1Rotation.transpose() *
        ((translation - cam1Offset) + rotation * cam2Offset);
    rotation_t directRotation =''','''    //the lever arms cancel if both views come from the same camera
    bool sameCamera =
        (cam1Offset - cam2Offset).norm() < 1e-12 &&
        (cam1Rotation - cam2Rotation).norm() < 1e-12;
    translation_t directTranslation = cam1Rotation.transpose() * (sameCamera ?
        Eigen::Vector3d(translation) :
        Eigen::Vector3d((translation - cam1Offset) + rotation * cam2Offset));
    rotation_t directRotation =''')],
 needs='a correspondence seen by the same camera in both views, with a lever arm and a rotation between the views',
 breaks='Same-camera correspondences of a rig are scored as if the camera sat in the viewpoint centre.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
int main() {
  Rnd r(5); Rig rig(r, 4); Scene s(r, rig, 40);
  relative_pose::NoncentralRelativeAdapter a(s.f1, s.f2, s.c1, s.c2, rig.off, rig.rot);
  sac_problems::relative_pose::NoncentralRelativePoseSacProblem p(a, sac_problems::relative_pose::NoncentralRelativePoseSacProblem::SEVENTEENPT, false);
  transformation_t m; m.block<3,3>(0,0) = s.R; m.col(3) = s.t; std::vector<double> sc; std::vector<int> all; for (int i = 0; i < 40; i++) all.push_back(i);
  p.getSelectedDistancesToModel(m, all, sc); for (int i = 0; i < 40; i++) REQUIRE(sc[i] < 1e-9); return 0; }
'''),
dict(id='multi-absolute-rotation-reused-at-same-offset',property='S08',edits=[(MA,'''  for(size_t f = 0; f < indices.size(); f++ )
  {
    for(size_t i = 0; i < indices[f].size(); i++)
    {
      //get point in homogeneous form
      p_hom.block<3,1>(0,0) = _adapter.getPoint(f,indices[f][i]);''','''  translation_t camOffset = Eigen::Vector3d::Zero();
  rotation_t camRotationInv;
  for(size_t f = 0; f < indices.size(); f++ )
  {
    //look up the extrinsics only when the camera changes
    if( f == 0 || camOffset != _adapter.getMultiCamOffset(f) )
    {
      camOffset = _adapter.getMultiCamOffset(f);
      camRotationInv = _adapter.getMultiCamRotation(f).transpose();
    }
    for(size_t i = 0; i < indices[f].size(); i++)
    {
      //get point in homogeneous form
      p_hom.block<3,1>(0,0) = _adapter.getPoint(f,indices[f][i]);'''),
  (MA,'''          _adapter.getMultiCamRotation(f).transpose() *
          (bodyReprojection - _adapter.getMultiCamOffset(f));
      reprojection = reprojection / reprojection.norm();

      //compute the score
      scores[f]''','''          camRotationInv * (bodyReprojection - camOffset);
      reprojection = reprojection / reprojection.norm();

      //compute the score
      scores[f]''')],
 needs='two consecutive cameras of a rig with the same offset and different rotations',
 breaks='Bearings of the second camera are compared in the orientation of the first one.',
 demo='''#include "scene.hpp"
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
int main() {
  Rnd r(6); Rig rig(r, 4); rig.off[2] = rig.off[1]; Scene s(r, rig, 40);
  std::vector<std::shared_ptr<bearingVectors_t> > f; std::vector<std::shared_ptr<points_t> > X;
  std::vector<std::vector<int> > idx(4);
  for (int c = 0; c < 4; c++) { f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t())); X.push_back(std::shared_ptr<points_t>(new points_t())); }
  for (int i = 0; i < 40; i++) { int c = s.c1[i]; idx[c].push_back(f[c]->size()); f[c]->push_back(s.f1[i]); X[c]->push_back(s.X[i]); }
  absolute_pose::NoncentralAbsoluteMultiAdapter a(f, X, rig.off, rig.rot);
  sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem p(a, false);
  transformation_t m; m.setZero(); m.block<3,3>(0,0).setIdentity();
  std::vector<std::vector<double> > sc(4); p.getSelectedDistancesToModel(m, idx, sc);
  for (int c = 0; c < 4; c++) for (size_t i = 0; i < sc[c].size(); i++) REQUIRE(sc[c][i] < 1e-9); return 0; }
'''),
dict(id='multi-convert-repeats-run-start',property='A02',edits=[(NMA,'''  size_t singleIndexOffset = 0;
  for( size_t pairIndex = 0; pairIndex < bearingVectors2.size(); pairIndex++ )
  {
    singleIndexOffsets.push_back(singleIndexOffset);''','''  size_t singleIndexOffset = 0;
  for( size_t pairIndex = 0; pairIndex < bearingVectors2.size(); pairIndex++ )
  {
    if( bearingVectors2[pairIndex]->empty() )
      continue;
    singleIndexOffsets.push_back(singleIndexOffset);''')],
 needs='a rig in which one camera that is not the last has no correspondences',
 breaks='Frame-local indices behind an empty frame are converted with the offset of the next frame.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
int main() {
  Rnd r(7); Rig rig(r, 4); std::vector<std::shared_ptr<bearingVectors_t> > f1, f2; int n[4] = {3, 0, 4, 2};
  for (int c = 0; c < 4; c++) { f1.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t())); f2.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t()));
    for (int i = 0; i < n[c]; i++) { f1[c]->push_back(r.v().normalized()); f2[c]->push_back(r.v().normalized()); } }
  relative_pose::NoncentralRelativeMultiAdapter a(f1, f2, rig.off, rig.rot); int k = 0;
  for (int c = 0; c < 4; c++) for (int i = 0; i < n[c]; i++, k++) { REQUIRE(a.multiPairIndex(k) == c); REQUIRE(a.multiCorrespondenceIndex(k) == i);
    if (c < 3 || true) { std::vector<std::vector<int> > m(4); m[c].push_back(i); if (c == 3) continue; REQUIRE(a.convertMultiIndices(m)[0] == k); } }
  return 0; }
'''),
dict(id='arun-flips-dominant-direction',property='T02',edits=[('src/math/arun.cpp','''    V_prime.col(0) = V.col(0);
    V_prime.col(1) = V.col(1);
    V_prime.col(2) = -V.col(2);''','''    V_prime.col(0) = V.col(0);
    V_prime.col(1) = -V.col(1);
    V_prime.col(2) = V.col(2);''')],
 needs='correlations whose best orthogonal alignment is a reflection (planar or strongly noisy data)',
 breaks='The middle singular direction is flipped, which is not the closest rotation.',
 demo='''#include "scene.hpp"
#include <opengv/math/arun.hpp>
int main() { Eigen::MatrixXd H(3, 3); H << 3, 0, 0, 0, 2, 0, 0, 0, -1e-3; Rnd r(2); Eigen::Matrix3d Q = r.rot(2.0);
  Eigen::MatrixXd G = H * Q.transpose(); rotation_t R = math::arun(G); REQUIRE((R - Q).norm() < 1e-9); return 0; }
'''),
dict(id='triangulate-caches-projection-per-adapter',property='L01',edits=[(TRI,'''  translation_t t12 = adapter.gett12();
  rotation_t R12 = adapter.getR12();
  Eigen::Matrix<double,3,4> P1 = Eigen::Matrix<double,3,4>::Zero();
  P1.block<3,3>(0,0) = Eigen::Matrix3d::Identity();
  Eigen::Matrix<double,3,4> P2 = Eigen::Matrix<double,3,4>::Zero();
  P2.block<3,3>(0,0) = R12.transpose();
  P2.block<3,1>(0,3) = -R12.transpose()*t12;''','''  translation_t t12 = adapter.gett12();
  Eigen::Matrix<double,3,4> P1 = Eigen::Matrix<double,3,4>::Zero();
  P1.block<3,3>(0,0) = Eigen::Matrix3d::Identity();
  //the second projection only depends on the pose, keep it between points
  static translation_t lastTranslation(0.0,0.0,0.0);
  static Eigen::Matrix<double,3,4> P2 = Eigen::Matrix<double,3,4>::Zero();
  if( lastTranslation != t12 )
  {
    rotation_t R12 = adapter.getR12();
    P2.block<3,3>(0,0) = R12.transpose();
    P2.block<3,1>(0,3) = -R12.transpose()*t12;
    lastTranslation = t12;
  }''')],
 needs='two adapters with the same translation and different rotations, or concurrent calls',
 breaks='The projection of another call is reused.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/triangulation/methods.hpp>
int main() { Rnd r(1); Rig rig(r, 1, 0.0); rig.rot[0].setIdentity(); Scene s(r, rig, 5);
  relative_pose::CentralRelativeAdapter w(s.f1, s.f2, s.t, r.rot(3.0)), a(s.f1, s.f2, s.t, s.R);
  triangulation::triangulate(w, 0); for (int i = 0; i < 5; i++) REQUIRE((triangulation::triangulate(a, i) - s.X[i]).norm() < 1e-6); return 0; }
'''),
dict(id='nister-hypothesis-rejected-when-poor',property='S11',edits=[(CR,'double bestQuality = 1000000.0;','double bestQuality = 0.5 * getSampleSize();')],
 needs='a sample in which every candidate reprojects badly (outliers among the verification members)',
 breaks='No candidate is selected although a decomposition was found, so the hypothesis is dropped.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
int main() { typedef sac_problems::relative_pose::CentralRelativePoseSacProblem P; int n = 0;
  for (int k = 0; k < 200; k++) { Rnd r(k); Rig rig(r, 1, 0.0); rig.rot[0].setIdentity(); Scene s(r, rig, 11);
    for (int i = 0; i < 11; i++) s.f2[i] = (Eigen::Vector3d(-2 * s.f1[i] + 0.5 * r.v())).normalized();
    relative_pose::CentralRelativeAdapter a(s.f1, s.f2); P p(a, P::EIGHTPT, false);
    std::vector<int> all; for (int i = 0; i < 11; i++) all.push_back(i); transformation_t m; if (!p.computeModelCoefficients(all, m)) n++; }
  printf("%d\\n", n); REQUIRE(n == 0); return 0; }
'''),
dict(id='refinement-weights-behind-camera',property='N01',edits=[(RM,'''      double factor = 1.0;
      fvec[i]''','''      double factor = (p_hom.block<3,1>(0,0).dot(f1) < 0.0) ? 0.0 : 1.0;
      fvec[i]''')],
 needs='a correspondence that triangulates behind the first camera at some iterate',
 breaks='Such a correspondence contributes no residual, so the optimum moves towards poses that hide errors.',
 demo='''#include "scene.hpp"
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/triangulation/methods.hpp>
static double cost(Scene & s, translation_t t, rotation_t R) {
  relative_pose::CentralRelativeAdapter a(s.f1, s.f2, t, R); double c = 0;
  for (size_t i = 0; i < s.f1.size(); i++) { Eigen::Vector3d p = triangulation::triangulate2(a, i), q = R.transpose() * (p - t);
    double e = 2.0 - s.f1[i].dot(p.normalized()) - s.f2[i].dot(q.normalized()); c += e * e; }
  return c; }
int main() { int bad = 0;
  for (int k = 0; k < 60; k++) { Rnd r(k); Rig rig(r, 1, 0.0); rig.rot[0].setIdentity(); Scene s(r, rig, 12, 0.3);
    relative_pose::CentralRelativeAdapter a(s.f1, s.f2, s.t, s.R);
    transformation_t T = relative_pose::optimize_nonlinear(a);
    if (cost(s, T.col(3), T.block<3,3>(0,0)) > cost(s, s.t, s.R) * (1 + 1e-6)) bad++; }
  printf("%d\\n", bad); REQUIRE(bad == 0); return 0; }
'''),
]
