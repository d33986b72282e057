RM='src/relative_pose/methods.cpp'; MAIN='src/absolute_pose/modules/main.cpp'; G4='src/absolute_pose/modules/gpnp4/init.cpp'; SX='src/relative_pose/modules/main.cpp'
PRE='''#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/modules/main.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
static double dist(const transformation_t & T, const Scene & s) { return (T.block<3,3>(0,0) - s.R).norm() + (T.col(3) - s.t).norm(); }
'''
BUGS=[
dict(id='seventeenpt-second-candidate-stale-singular-values',property='N02',edits=[(RM,'''  sigma = SVDb.singularValues();
  pinvtoler = numberCorrespondences*sigma(0)*NumTraits<double>::epsilon();
  SigmaInverse = Eigen::MatrixXd::Zero(3,3);''','''  pinvtoler = numberCorrespondences*sigma(0)*NumTraits<double>::epsilon();
  SigmaInverse = Eigen::MatrixXd::Zero(3,3);''')],
 needs='a scene whose true rotation is the second of the two candidates',
 breaks='The translation of the second candidate is computed with the singular values of the first system, so the true pose is lost.',
 demo=PRE+'''int main() { int good = 0;
  for (int s = 1; s <= 40; s++) { Rnd r(s); Rig rig(r, 4); Scene c(r, rig, 20);
    relative_pose::NoncentralRelativeAdapter a(c.f1, c.f2, c.c1, c.c2, rig.off, rig.rot);
    if (dist(relative_pose::seventeenpt(a), c) < 1e-4) good++; }
  printf("%d of 40\\n", good); REQUIRE(good == 40); return 0; }
'''),
dict(id='kneip-swapped-frame-first-point',property='N02',edits=[(MAIN,'''    P1 = p[1];
    P2 = p[0];
    P3 = p[2];
  }

  Eigen::Vector3d n1''','''    std::swap(P1,P2);
    temp2 = P3 - P2;
  }

  Eigen::Vector3d n1'''),(MAIN,'''  Eigen::Vector3d n3 = n1.cross(P3-P1);
  n3 = n3/n3.norm();''','''  Eigen::Vector3d n3 = n1.cross(temp2);
  n3 = n3/n3.norm();'''),(MAIN,'''  P3 = N*(P3-P1);
''','''  P3 = N*temp2;
''')],
 needs='a third bearing in front of the plane of the first two, so that the first two correspondences are exchanged',
 breaks='After the exchange the third point is expressed relative to the wrong point, so no candidate is the true pose.',
 demo=PRE+'''int main() { int good = 0; Rnd q(3);
  for (int s = 1; s <= 40; s++) { Rnd r(s); Rig rig(r, 1, 0.0); rig.rot[0] = Eigen::Matrix3d::Identity(); Scene c(r, rig, 3);
    absolute_pose::CentralAbsoluteAdapter a(c.f2, c.X); transformations_t T = absolute_pose::p3p_kneip(a); double b = 1e9;
    for (size_t i = 0; i < T.size(); i++) b = std::min(b, dist(T[i], c)); if (b < 1e-3) good++; }
  printf("%d of 40\\n", good); REQUIRE(good >= 38); return 0; }
'''),
dict(id='sevenpt-single-matrix-for-seven',property='N02',edits=[(RM,'''numberCorrespondences > 7 )
  {
    essentials.push_back(F1);''','''numberCorrespondences >= 7 )
  {
    essentials.push_back(F1);''')],
 needs='exactly seven correspondences',
 breaks='With seven correspondences one arbitrary element of the null space is returned instead of the singular ones.',
 demo=PRE+'''int main() { int good = 0;
  for (int s = 1; s <= 40; s++) { Rnd r(s); Rig rig(r, 1, 0.0); rig.rot[0] = Eigen::Matrix3d::Identity(); Scene c(r, rig, 7);
    relative_pose::CentralRelativeAdapter a(c.f1, c.f2); essentials_t E = relative_pose::sevenpt(a); double b = 1e9;
    Eigen::Matrix3d S; S << 0, -c.t(2), c.t(1), c.t(2), 0, -c.t(0), -c.t(1), c.t(0), 0; Eigen::Matrix3d W = S * c.R; W /= W.norm();
    for (size_t i = 0; i < E.size(); i++) { Eigen::Matrix3d M = E[i] / E[i].norm(); b = std::min(b, std::min((M - W).norm(), (M + W).norm())); }
    if (b < 1e-4) good++; }
  printf("%d of 40\\n", good); REQUIRE(good >= 38); return 0; }
'''),
dict(id='epnp-hemisphere-of-last-point',property='N02',edits=[('src/absolute_pose/modules/Epnp.cpp','''  if( (pcs[2] < 0.0 && signs[0] > 0) || (pcs[2] > 0.0 && signs[0] < 0) )''','''  const int front = signs[number_of_correspondences-1];
  if( (pcs[2] < 0.0 && front > 0) || (pcs[2] > 0.0 && front < 0) )''')],
 needs='bearings in both hemispheres, with the first and the last one in different ones',
 breaks='The camera frame is flipped by comparing the depth of the first point with the hemisphere of the last one, so EPnP returns the mirrored pose.',
 demo=PRE+'''int main() { int good = 0;
  for (int s = 1; s <= 40; s++) { Rnd r(s); Rig rig(r, 1, 0.0); rig.rot[0] = Eigen::Matrix3d::Identity(); Scene c(r, rig, 12);
    absolute_pose::CentralAbsoluteAdapter a(c.f2, c.X); if (dist(absolute_pose::epnp(a), c) < 1e-4) good++; }
  printf("%d of 40\\n", good); REQUIRE(good >= 38); return 0; }
'''),
]
