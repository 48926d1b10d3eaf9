// Small requests for every entry point of the library, parameterised by their sizes, and digests of
// everything they return.
#pragma once
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

#include "request.hpp"
using namespace sc;
using mc::Ctx;
namespace {
typedef std::vector<double> Digest;
void put(Digest& d, double v) { d.push_back(v); }
template <class D>
void putM(Digest& d, const Eigen::MatrixBase<D>& m) {
  put(d, (double)m.rows());
  put(d, (double)m.cols());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) put(d, m(i, j));
}
void putR(Digest& d, const bct::ResultDataCOMTraj& r) {
  put(d, r.success_);
  if (!r.success_) return;
  put(d, r.cost_);
  putM(d, r.x);
  for (int i = 0; i <= 6; ++i) {
    putM(d, r.c_of_t_(std::min(r.c_of_t_.max(), r.c_of_t_.max() * i / 6.)));
    putM(d, r.dL_of_t_(std::min(r.dL_of_t_.max(), r.dL_of_t_.max() * i / 6.)));
  }
  putM(d, r.dc1_);
  putM(d, r.ddc1_);
}

struct Voc {
  mc::Space sp;
  int entry, flag, phases, kin, contacts, acc, cost, samples, times, motion, unset;
  Voc() {
    entry = sp.add("entry", {"fixed", "disc", "contDD", "contForce", "disc-glpk", "contDD-glpk", "contForce-glpk",
                             "zerostep", "zerostep-am", "zerostep-disc", "zerostep-am-disc", "effector", "symbolic"});
    flag = sp.add("flag", {"0", "1", "2", "3", "4", "5", "6", "7"});
    phases = sp.add("phases", {"1", "2", "3", "5", "12", "40", "130"});
    kin = sp.add("kin", {"6", "none", "1", "0,6", "6,0", "1,2,3", "97", "400,0"});
    contacts = sp.add("contacts", {"2", "1", "4", "1,2", "2,1", "4,1,2", "8"});
    acc = sp.add("acc", {"off", "on"});
    cost = sp.add("cost", {"acc", "dist", "endvel"});
    samples = sp.add("samples", {"3", "2", "4", "17", "101", "701"});
    times = sp.add("times", {"even", "growing", "tiny", "mixed"});
    motion = sp.add("motion", {"rest", "moving"});
    unset = sp.add("unset", {"no", "yes"});  // leave what the request does not use as constructed
  }
};
Voc& voc() {
  static Voc v;
  return v;
}

int pick(const std::string& s, int i) {  // i-th element of a comma separated cycle
  std::vector<int> v;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) v.push_back(t == "none" ? 0 : atoi(t.c_str()));
  return v[i % v.size()];
}
cd::Equilibrium* stance(int feet) {
  static std::map<int, cd::Equilibrium*> cache;
  auto& e = cache[feet];
  if (!e) {
    PhaseSpec p;
    for (int i = 0; i < feet; ++i) {
      Foot f;
      f.pos = V3(0.22 * (i / 2), i % 2 ? -0.1 : 0.1, 0.01 * (i / 4));
      f.normal = V3(i == 3 ? 0.1 : 0, i == 5 ? -0.1 : 0, 1).normalized();
      if (feet == 1) f.lx = 0.5, f.ly = 0.5;
      p.feet.push_back(f);
    }
    e = makePhase(p, 54, Frame());
  }
  return e;
}
void limits(int rows, const V3& mid, Mat& K, Vec& k) {
  K = Mat(rows, 3);
  k = Vec(rows);
  for (int q = 0; q < rows; ++q) {
    V3 d(std::cos(2.4 * q), std::sin(2.4 * q), 0.5 * ((q % 5) - 2));
    K.row(q) = d.transpose();
    k[q] = d.dot(mid) + 0.2 + 0.01 * (q % 7);
  }
}

struct Path {
  V3 a, b;
  V3 operator()(double u) const { return (1 - u) * a + u * b; }
};

void requestOf(const mc::State& s, bct::ProblemData& pd, Vec& Ts) {
  Voc& V = voc();
  auto sv = [&](int d) -> const std::string& { return V.sp.dims[d].values[s[d]]; };
  int n = atoi(sv(V.phases).c_str());
  bool moving = s[V.motion] == 1, unset = s[V.unset] == 1;
  unsigned f = rq::comFlags()[s[V.flag]].flag;
  using namespace bct;
  pd.c0_ = V3(0, 0, 0.8);
  pd.dc0_ = moving ? V3(0.05, 0.02, 0) : V3(0, 0, 0);
  if (!unset || (f & END_POS)) pd.c1_ = V3(0.04, 0.01, 0.8);
  if (!unset || (f & END_VEL)) pd.dc1_ = moving && (f & END_POS) ? V3(0.02, -0.02, 0) : V3(0, 0, 0);
  if (!unset || (f & INIT_ACC)) pd.ddc0_ = moving ? V3(0, 0.1, 0.1) : V3(0, 0, 0);
  if (!unset || (f & END_ACC)) pd.ddc1_ = moving ? V3(-0.1, 0, 0.1) : V3(0, 0, 0);
  if (!unset || (f & INIT_JERK)) pd.j0_ = moving ? V3(0.1, 0, 0) : V3(0, 0, 0);
  if (!unset || (f & END_JERK)) pd.j1_ = moving ? V3(0, 0.1, 0) : V3(0, 0, 0);
  if (!unset) pd.l0_ = V3(0, 0, 0);
  pd.constraints_.flag_ = (ConstraintFlag)f;
  pd.constraints_.constraintAcceleration_ = s[V.acc] == 1;
  if (!unset || s[V.acc]) pd.constraints_.maxAcceleration_ = 6;
  pd.costFunction_ = s[V.cost] == 0 ? ACCELERATION : s[V.cost] == 1 ? DISTANCE_TRAVELED : TARGET_END_VELOCITY;
  pd.representation_ = sv(V.entry).find("Force") != std::string::npos ? FORCE : DOUBLE_DESCRIPTION;
  if (sv(V.entry).compare(0, 8, "zerostep") == 0) n = 1;
  pd.useAngularMomentum_ = sv(V.entry).find("-am") != std::string::npos;
  if (pd.useAngularMomentum_) pd.l0_ = s[V.motion] ? V3(0.1, 0.2, -0.1) : V3(0, 0, 0);
  Ts = Vec(n);
  for (int i = 0; i < n; ++i) {
    Ts[i] = 1.6 / n;
    if (s[V.times] == 1) Ts[i] *= 2. * (i + 1) / (n + 1);
    if (s[V.times] == 2) Ts[i] *= 0.1;
    if (s[V.times] == 3) Ts[i] *= i % 3 == 1 ? 0.05 : 1.3;
    ContactData c(stance(pick(sv(V.contacts), i)));
    int rows = pick(sv(V.kin), i);
    if (rows) {
      Mat K;
      Vec k;
      limits(rows, 0.5 * (pd.c0_ + V3(0.04, 0.01, 0.8)), K, k);
      c.Kin_ = K, c.kin_ = k;
      if (sv(V.entry).find("-am") != std::string::npos) {
        limits(rows, V3(0, 0, 0), K, k);
        c.Ang_ = K, c.ang_ = k;
      }
    }
    pd.contacts_.push_back(c);
    delete pd.contacts_.back().contactPhase_;
    pd.contacts_.back().contactPhase_ = stance(pick(sv(V.contacts), i));
  }
}

// calls the entry point of s on a problem description, which is not modified
void planningOn(const mc::State& s, const bct::ProblemData& pd, const Vec& Ts, Digest& d) {
  Voc& V = voc();
  const std::string& e = V.sp.dims[V.entry].values[s[V.entry]];
  int ns = atoi(V.sp.dims[V.samples].values[s[V.samples]].c_str());
  double dt = Ts.minCoeff() / ns;
  solvers::SolverType sv = e.find("glpk") != std::string::npos ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  if (e == "fixed") putR(d, bct::computeCOMTrajFixedSize(pd, Ts, ns));
  else if (e.compare(0, 4, "disc") == 0) putR(d, bct::computeCOMTraj(pd, Ts, dt, sv));
  else if (e.compare(0, 4, "cont") == 0) putR(d, bct::computeCOMTraj(pd, Ts, -1, sv));
  else {
    std::vector<double> T(1, Ts[0]);
    putR(d, bct::solve0step(pd, T, e.find("disc") != std::string::npos ? dt : -1));
  }
}
void planning(const mc::State& s, Digest& d) {
  bct::ProblemData pd;
  Vec Ts;
  requestOf(s, pd, Ts);
  planningOn(s, pd, Ts, d);
}

void effectorRequest(const mc::State& s, bct::ProblemData& pd, double& T) {
  Voc& V = voc();
  using namespace bct;
  pd.c0_ = V3(0, 0.1, 0), pd.c1_ = V3(0.3, 0.1, 0.05);
  pd.dc0_ = pd.ddc0_ = pd.j0_ = pd.dc1_ = pd.ddc1_ = pd.j1_ = V3(0, 0, 0);
  if (s[V.motion]) pd.dc0_ = V3(0, 0, 0.2), pd.j1_ = V3(1, 0, 0);
  int flag = INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_POS | END_VEL | END_ACC | END_JERK;
  int nf = 2 * (s[V.flag] % 3) + 1;
  if (nf == 3) flag |= THREE_FREE_VAR;
  if (nf == 5) flag |= FIVE_FREE_VAR;
  pd.constraints_.flag_ = (ConstraintFlag)flag;
  T = s[V.times] == 0 ? 1.2 : s[V.times] == 1 ? 0.3 : s[V.times] == 2 ? 4 : 0.9;
}
void effectorOn(const mc::State& s, const bct::ProblemData& pd, const double T, Digest& d) {
  Voc& V = voc();
  using namespace bct;
  int ns = atoi(V.sp.dims[V.samples].values[s[V.samples]].c_str());
  Path path{pd.c0_, pd.c1_};
  const double w = s[V.cost] == 0 ? 0.5 : s[V.cost] == 1 ? 0. : 1.;
  putR(d, solveEndEffector<Path>(pd, path, T, w));
  std::vector<bezier_t::point_t> pi = computeConstantWaypoints(pd, T);
  put(d, pi.size());
  for (auto& p : pi)
    if (p.allFinite()) putM(d, p);
  auto vc = computeVelocityCost(pd, T, pi);
  putM(d, vc.first), putM(d, vc.second);
  auto dc = computeDistanceCostFunction(ns, pd, T, path);
  putM(d, dc.first), putM(d, dc.second);
  std::vector<point3_t> pts;
  for (int k = 0; k < ns; ++k) pts.push_back(path(ns > 1 ? k / (ns - 1.) : 0));
  dc = computeDistanceCostFunction(ns, pd, T, pts);
  putM(d, dc.first), putM(d, dc.second);
  for (int k = 1; k < 4; ++k) {
    MatrixXX H;
    VectorX g;
    if (k == 1) computeVelCostFunctionDiscretized(ns, pd, T, H, g);
    if (k == 2) computeAccelerationCostFunctionDiscretized(ns, pd, T, H, g);
    if (k == 3) computeJerkCostFunctionDiscretized(ns, pd, T, H, g);
    putM(d, H), putM(d, g);
  }
  auto Ab = computeEndEffectorConstraints(pd, T, pi);
  putM(d, Ab.first), putM(d, Ab.second);
  for (auto& p : computeConstantWaypointsInitPredef(pd, T)) putM(d, p);
  for (auto& p : computeConstantWaypointsGoalPredef(pd, T)) putM(d, p);
}

void effector(const mc::State& s, Digest& d) {
  bct::ProblemData pd;
  double T;
  effectorRequest(s, pd, T);
  effectorOn(s, pd, T, d);
}

void symbolicOn(const mc::State& s, const bct::ProblemData& pd, const Vec& Ts, Digest& d) {
  Voc& V = voc();
  using namespace bct;
  double T = Ts.sum();
  int ns = atoi(V.sp.dims[V.samples].values[s[V.samples]].c_str());
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  put(d, pi.size());
  auto pw = [&](const waypoint_t& w) { putM(d, w.first), putM(d, w.second); };
  T_time ta = computeDiscretizedTimeFixed(Ts, ns);
  T_time tb = computeDiscretizedTime(Ts, Ts.minCoeff() / std::max(2, ns));
  put(d, ta.size()), put(d, tb.size());
  for (auto& w : computeDiscretizedWaypoints<point_t>(pd, T, ta)) put(d, w.first), putM(d, w.second);
  for (auto& w : computeDiscretizedAccelerationWaypoints<point_t>(pd, T, tb)) put(d, w.first), putM(d, w.second);
  for (auto& w : computeConstantWaypointsSymbolic(pd, T)) pw(w);
  bezier_wp_t::t_point_t ww = computeWwaypoints(pd, T);
  put(d, ww.size());
  for (auto& w : ww) pw(w);
  if (!(pd.constraints_.flag_ & END_JERK)) {
    coefs_t v = computeFinalVelocityPoint(pd, T);
    put(d, v.first), putM(d, v.second);
  }
  VectorX x(3);
  x << 0.1, 0.2, 0.7;
  bezier_t b = computeBezierCurve<bezier_t, point_t>(pd.constraints_.flag_, T, pi, V3(x));
  for (int i = 0; i <= ns && i < 20; ++i) putM(d, b(std::min(b.max(), b.max() * i / std::min(ns, 19))));
}
void symbolic(const mc::State& s, Digest& d) {
  bct::ProblemData pd;
  Vec Ts;
  requestOf(s, pd, Ts);
  symbolicOn(s, pd, Ts, d);
}
}  // namespace
