// Contact scenes (external library objects) and planning requests built from them.
#pragma once
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>

#include <memory>

#include "ref.hpp"

namespace sc {
namespace bct = bezier_com_traj;
namespace cd = centroidal_dynamics;
using ref::Mat;
using ref::V3;
using ref::Vec;

struct Foot {
  V3 pos, normal;
  double lx = 0.2172, ly = 0.138;
};

struct PhaseSpec {
  std::vector<Foot> feet;
  double mu = 0.5;
};

struct Scene {
  std::string name;
  std::vector<PhaseSpec> phases;
  V3 c0, c1;
  std::vector<double> Ts;
};

// transformation of a scene: p -> R p + t
struct Frame {
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  V3 t = V3::Zero();
  double s = 1;  // change of length unit
  V3 point(const V3& p) const { return s * (R * p) + t; }
  double bound(const V3& d, double b) const { return s * b + dir(d).dot(t); }  // d.p <= b
  V3 dir(const V3& p) const { return R * p; }
};

inline void footPoints(const Foot& f, std::vector<V3>& P, std::vector<V3>& N) {
  V3 n = f.normal.normalized();
  V3 ax = std::fabs(n[0]) < 0.9 ? V3(1, 0, 0) : V3(0, 1, 0);
  V3 tx = (ax - n * n.dot(ax)).normalized();
  V3 ty = n.cross(tx);
  const double sx[4] = {1, 1, -1, -1}, sy[4] = {1, -1, -1, 1};
  for (int i = 0; i < 4; ++i) {
    P.push_back(f.pos + sx[i] * 0.5 * f.lx * tx + sy[i] * 0.5 * f.ly * ty);
    N.push_back(n);
  }
}

inline cd::Equilibrium* makePhase(const PhaseSpec& ph, double mass, const Frame& fr,
                                  cd::EquilibriumAlgorithm alg = cd::EQUILIBRIUM_ALGORITHM_PP) {
  std::vector<V3> P, N;
  for (auto& f : ph.feet) footPoints(f, P, N);
  bct::MatrixX3 Pm(P.size(), 3), Nm(P.size(), 3);
  for (size_t i = 0; i < P.size(); ++i) {
    Pm.row(i) = fr.point(P[i]).transpose();
    Nm.row(i) = fr.dir(N[i]).transpose();
  }
  auto* e = new cd::Equilibrium("mc", mass, 4, cd::SOLVER_LP_QPOASES, true, 0, false);
  if (!e->setNewContacts(Pm, Nm, ph.mu, alg)) {
    fprintf(stderr, "contact cone computation failed\n");
    abort();
  }
  return e;
}

// the gravity of a phase is a public member, which has a constant value unless it is written to
inline void setGravity(cd::Equilibrium* e, const V3& g) {
  for (int i = 0; i < 3; ++i) const_cast<double&>(static_cast<volatile const double&>(e->m_gravity[i])) = g[i];
}
inline V3 gravityOf(const std::string& s) {
  return s == "moon" ? V3(0, 0, -1.62) : s == "tilted" ? V3(0.9, -0.6, -9.5) : V3(0, 0, -9.81);
}

// box of reachable CoM positions around every foot (intersection), expressed as K c <= k
inline void kinBox(const PhaseSpec& ph, const Frame& fr, Mat& K, Vec& k) {
  const double lo[3] = {-0.6, -0.4, 0.3}, hi[3] = {0.6, 0.4, 0.92};
  int n = (int)ph.feet.size();
  K = Mat::Zero(6 * n, 3);
  k = Vec::Zero(6 * n);
  for (int f = 0; f < n; ++f)
    for (int a = 0; a < 3; ++a) {
      V3 e = V3::Unit(a);
      V3 o = ph.feet[f].pos;
      if (ph.feet[f].normal[2] < 0.6) o[2] = 0;  // wall contact: height limits from the ground
      V3 d = fr.dir(e);
      K.row(6 * f + 2 * a) = d.transpose();
      k[6 * f + 2 * a] = d.dot(fr.point(o + hi[a] * e));
      K.row(6 * f + 2 * a + 1) = -d.transpose();
      k[6 * f + 2 * a + 1] = -d.dot(fr.point(o + lo[a] * e));
    }
}

inline std::vector<Scene> allScenes() {
  const V3 z(0, 0, 1);
  auto foot = [&](double x, double y, double zz = 0, V3 n = V3(0, 0, 1), double lx = 0.2172,
                  double ly = 0.138) {
    Foot f;
    f.pos = V3(x, y, zz);
    f.normal = n;
    f.lx = lx;
    f.ly = ly;
    return f;
  };
  auto P = [](std::vector<Foot> f, double mu = 0.5) {
    PhaseSpec p;
    p.feet = f;
    p.mu = mu;
    return p;
  };
  std::vector<Scene> s;
  const double h = 0.795;
  {
    Scene c;
    c.name = "flat3";
    c.phases = {P({foot(0, 0.1), foot(0, -0.1)}), P({foot(0, -0.1)}), P({foot(0.3, 0.1), foot(0, -0.1)})};
    c.c0 = V3(0, 0, h);
    c.c1 = V3(0.15, 0, h);
    c.Ts = {0.6, 0.6, 0.6};
    s.push_back(c);
  }
  {
    Scene c;
    c.name = "flat1";
    c.phases = {P({foot(0, 0.1), foot(0, -0.1)})};
    c.c0 = V3(-0.02, 0.02, h);
    c.c1 = V3(0.05, -0.03, h - 0.03);
    c.Ts = {0.8};
    s.push_back(c);
  }
  {
    Scene c;
    c.name = "flat2";
    c.phases = {P({foot(0, 0.1), foot(0, -0.1)}), P({foot(0, -0.1)})};
    c.c0 = V3(0, 0, h);
    c.c1 = V3(0.02, -0.09, h);
    c.Ts = {1.0, 0.6};
    s.push_back(c);
  }
  {
    Scene c;  // five phases: two steps
    c.name = "walk5";
    c.phases = {P({foot(0, 0.1), foot(0, -0.1)}), P({foot(0, -0.1)}),
                P({foot(0.1, 0.1), foot(0, -0.1)}), P({foot(0.1, 0.1)}),
                P({foot(0.1, 0.1), foot(0.1, -0.1)})};
    c.c0 = V3(0, -0.09, h);
    c.c1 = V3(0.1, 0.09, h);
    c.Ts = {0.3, 0.5, 0.8, 0.5, 0.3};
    s.push_back(c);
  }
  {
    Scene c;  // steps on inclined platforms
    c.name = "plat3";
    c.phases = {P({foot(0, 0.1), foot(0, -0.1)}),
                P({foot(0, -0.1), foot(0, 0.1, 0, z)}),
                P({foot(0, -0.1), foot(0.3, 0.15, 0.15, V3(-0.2, -0.3, 0.9))})};
    c.c0 = V3(0, 0, h);
    c.c1 = V3(0.1, 0.0, h + 0.05);
    c.Ts = {0.8, 0.6, 0.8};
    s.push_back(c);
  }
  {
    Scene c;  // equal generator counts, different contacts, overlapping supports
    c.name = "swap2";
    c.phases = {P({foot(0, 0, 0, z, 0.24, 0.2)}), P({foot(0.1, 0.05, 0, z, 0.24, 0.2)})};
    c.c0 = V3(0.0, 0.0, h);
    c.c1 = V3(0.1, 0.05, h);
    c.Ts = {0.9, 0.7};
    s.push_back(c);
  }
  {
    Scene c;  // foot + hand on a vertical wall
    c.name = "wall1";
    c.phases = {P({foot(0, -0.1), foot(0, 0.1), foot(0.5, 0.2, 1.0, V3(-1, 0, 0), 0.1, 0.1)}, 0.6)};
    c.c0 = V3(0.05, 0, h);
    c.c1 = V3(0.1, 0.02, h);
    c.Ts = {0.7};
    s.push_back(c);
  }
  {
    Scene c;  // single support, double support, single support
    c.name = "lift3";
    c.phases = {P({foot(0, -0.05)}), P({foot(0, -0.05), foot(0.05, 0.05)}), P({foot(0.05, 0.05)})};
    c.c0 = V3(0, -0.04, h);
    c.c1 = V3(0.05, 0.05, h);
    c.Ts = {0.5, 1.0, 0.5};
    s.push_back(c);
  }
  {
    Scene c;  // broad support and high friction: large accelerations in every direction
    c.name = "broad1";
    c.phases = {P({foot(0, 0, 0, z, 6, 6)}, 4.)};
    c.c0 = V3(0, 0, h);
    c.c1 = V3(0, 0, h);
    c.Ts = {0.3};
    s.push_back(c);
  }
  {
    Scene c;  // nine phases: four steps on the spot
    c.name = "walk9";
    for (int i = 0; i < 9; ++i) {
      double x = 0.03 * (i / 4);
      if (i % 2 == 0) c.phases.push_back(P({foot(x, 0.06, 0, z, 0.3, 0.2), foot(x, -0.06, 0, z, 0.3, 0.2)}));
      else c.phases.push_back(P({foot(x, i % 4 == 1 ? 0.03 : -0.03, 0, z, 0.3, 0.2)}));
      c.Ts.push_back(i % 2 ? 0.25 : 0.4);
    }
    c.c0 = V3(0, 0.01, h);
    c.c1 = V3(0.06, -0.01, h);
    s.push_back(c);
  }
  return s;
}
}  // namespace sc
