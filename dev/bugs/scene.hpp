// Synthetic two-view / one-view scenes with a camera rig.
#include <opengv/types.hpp>
#include <Eigen/Eigen>
#include <random>
#include <vector>
#include <cstdio>
#include <cstdlib>
using namespace opengv;
struct Rnd { std::mt19937 g; Rnd(int s) : g(s) {}
  double u() { return std::uniform_real_distribution<double>(-1, 1)(g); }
  Eigen::Vector3d v() { double a = u(), b = u(), c = u(); return Eigen::Vector3d(a, b, c); }
  Eigen::Matrix3d rot(double a) { Eigen::Vector3d w = v(); return Eigen::AngleAxisd(a * u(), w.normalized()).toRotationMatrix(); } };
struct Rig { translations_t off; rotations_t rot;
  Rig(Rnd & r, int n, double o = 0.5) { for (int i = 0; i < n; i++) { off.push_back(o * r.v()); rot.push_back(r.rot(3.0)); } } };
// world points, pose of viewpoint 2 in viewpoint 1 (= world), bearings in the cameras
struct Scene { points_t X; rotation_t R; translation_t t; bearingVectors_t f1, f2; std::vector<int> c1, c2;
  Scene(Rnd & r, Rig & rig, int n, double noise = 0.0, double ang = 0.5) {
    R = r.rot(ang); t = 2.0 * r.v(); int C = rig.off.size();
    for (int i = 0; i < n; i++) { Eigen::Vector3d p = 8.0 * r.v(); if (p.norm() < 4) p *= 4.5 / p.norm(); X.push_back(p);
      int a = i % C, b = (i + i / C) % C; c1.push_back(a); c2.push_back(b);
      Eigen::Vector3d q1 = rig.rot[a].transpose() * (p - rig.off[a]);
      Eigen::Vector3d q2 = rig.rot[b].transpose() * (R.transpose() * (p - t) - rig.off[b]);
      f1.push_back((q1.normalized() + noise * r.v()).normalized()); f2.push_back((q2.normalized() + noise * r.v()).normalized()); } }
};
#define REQUIRE(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
