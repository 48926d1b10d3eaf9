// C09: the symbolic expressions offered by the library against the unique polynomial curve.
// Every expression is multi-affine or bilinear in the boundary values and polynomial in the
// evaluation time, so the enumerated grid (every set of constraints x every pair of unit changes of
// the boundary values x more times than the degree) determines all its coefficients.
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/utils.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>

#include <cstring>

#include "explore.hpp"
#include "ref.hpp"

namespace {
using namespace bezier_com_traj;
using mc::Ctx;
using ref::Aff;
using ref::Curve;
using ref::Mat;
using ref::V3;
using ref::Vec;

struct Set {
  const char* name;
  int flag, n0, n1, nFree;  // derivatives fixed at both ends
  bool stop;
};
const int P0 = INIT_POS, V0 = INIT_VEL, A0 = INIT_ACC, P1 = END_POS, V1 = END_VEL, A1 = END_ACC, J0 = INIT_JERK, J1 = END_JERK;
const Set SETS[] = {
    {"c0_dc0_c1", P0 | V0 | P1, 2, 1, 1, false},
    {"c0_dc0_dc1", P0 | V0 | V1, 2, 0, 1, true},
    {"c0_dc0_dc1_c1", P0 | V0 | P1 | V1, 2, 2, 1, false},
    {"c0_dc0_ddc0", P0 | V0 | A0, 3, 0, 1, false},
    {"c0_dc0_ddc0_c1", P0 | V0 | A0 | P1, 3, 1, 1, false},
    {"c0_dc0_ddc0_dc1_c1", P0 | V0 | A0 | P1 | V1, 3, 2, 1, false},
    {"c0_dc0_ddc0_ddc1_dc1_c1", P0 | V0 | A0 | P1 | V1 | A1, 3, 3, 1, false},
    {"jerk", P0 | V0 | A0 | J0 | P1 | V1 | A1 | J1, 4, 4, 1, false},
    {"jerk_x3", P0 | V0 | A0 | J0 | P1 | V1 | A1 | J1 | THREE_FREE_VAR, 4, 4, 3, false},
    {"jerk_x5", P0 | V0 | A0 | J0 | P1 | V1 | A1 | J1 | FIVE_FREE_VAR, 4, 4, 5, false},
};
const char* VN[8] = {"c0", "dc0", "ddc0", "j0", "c1", "dc1", "ddc1", "j1"};
const double TS[5] = {1, 0.35, 2.4, 11, 0.07};
const V3 GS[3] = {V3(0, 0, -9.81), V3(1.5, -2.5, -4), V3(0, 0, 0)};

struct Voc {
  mc::Space sp;
  int set, T, base, grav, a, b;
  std::vector<std::function<void(std::vector<V3>&)> > edits;
  Voc() {
    std::vector<std::string> n;
    for (auto& s : SETS) n.push_back(s.name);
    set = sp.add("set", n);
    T = sp.add("T", {"1", "0.35", "2.4", "11", "0.07"});
    base = sp.add("base", {"zero", "generic", "motion", "equal"});
    grav = sp.add("g", {"down", "tilted", "none"});
    std::vector<std::string> e = {"-"};
    edits.push_back([](std::vector<V3>&) {});
    for (int v = 0; v < 8; ++v)
      for (int k = 0; k < 3; ++k)
        for (int s = 1; s >= -1; s -= 2) {
          e.push_back(std::string(VN[v]) + "." + "xyz"[k] + (s > 0 ? "+1" : "-1"));
          edits.push_back([=](std::vector<V3>& B) { B[v][k] += s; });
        }
    for (int v = 0; v < 8; ++v) {
      e.push_back(std::string(VN[v]) + ":=0");
      edits.push_back([=](std::vector<V3>& B) { B[v].setZero(); });
      e.push_back(std::string(VN[v]) + ":=-c0");
      edits.push_back([=](std::vector<V3>& B) { B[v] = -B[0]; });
      e.push_back(std::string(VN[v]) + ":=c1");
      edits.push_back([=](std::vector<V3>& B) { B[v] = B[4]; });
      e.push_back(std::string(VN[v]) + "*=1e3");
      edits.push_back([=](std::vector<V3>& B) { B[v] *= 1e3; });
    }
    a = sp.add("a", e);
    b = sp.add("b", e);
  }
};
Voc& voc() { static Voc v; return v; }

centroidal_dynamics::Equilibrium* phaseWithGravity(int g) {
  static centroidal_dynamics::Equilibrium* E[3] = {0, 0, 0};
  if (!E[g]) {
    E[g] = new centroidal_dynamics::Equilibrium("mc", 54., 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false);
    // the gravity is a constant of the contact phase; give this instance another one
    std::memcpy((void*)E[g]->m_gravity.data(), GS[g].data(), sizeof(double) * 3);
  }
  return E[g];
}

double scaleOf(const Curve& c) {
  double s = 0;
  for (auto& p : c.p) s = std::max(s, std::max(p.b.cwiseAbs().maxCoeff(), p.A.size() ? p.A.cwiseAbs().maxCoeff() : 0.));
  return s;
}
// value offered by the library (matrix, constant) against the reference at one place
void same(Ctx& x, const char* sig, const Mat& A, const Vec& b, const Aff& r, double scale, double at) {
  x.count("expressions_compared");
  if (A.rows() != r.A.rows() || A.cols() != r.A.cols() || b.size() != r.b.size()) {
    x.fail(sig, "size %dx%d instead of %dx%d", (int)A.rows(), (int)A.cols(), (int)r.A.rows(), (int)r.A.cols());
    return;
  }
  double e = std::max((A - r.A).cwiseAbs().maxCoeff(), (b - r.b).cwiseAbs().maxCoeff());
  if (!(e <= 1e-9 * scale)) {
    int i, j;
    double ea = (A - r.A).cwiseAbs().maxCoeff(&i, &j), eb;
    int k;
    eb = (b - r.b).cwiseAbs().maxCoeff(&k);
    x.fail(sig, "at %g: coefficient (%d,%d) is %.9g instead of %.9g, constant %d is %.9g instead of %.9g", at, i, j, A(i, j), r.A(i, j), k, b[k], r.b[k]);
    (void)ea, (void)eb;
  }
}
Mat scalarMat(double v) { return Mat(v * Mat::Identity(3, 3)); }

void check(const mc::State& s, Ctx& x) {
  Voc& V = voc();
  const Set& S = SETS[s[V.set]];
  const double T = TS[s[V.T]];
  std::vector<V3> B(8, V3::Zero());
  for (int v = 0; v < 8; ++v)
    for (int k = 0; k < 3; ++k) {
      if (s[V.base] == 1) B[v][k] = ((7 * v + 3 * k * k + 2) % 11) - 5.;  // no zero, all different vectors
      if (s[V.base] == 1 && B[v][k] == 0) B[v][k] = 6;
      if (s[V.base] == 3) B[v][k] = k + 1;
    }
  if (s[V.base] == 2) {
    B[0] = V3(0.1, -0.25, 0.87), B[1] = V3(0.21, 0.03, -0.13), B[2] = V3(-0.3, 0.4, 0.71), B[3] = V3(1.3, -2.1, 0.6);
    B[4] = V3(0.63, 0.12, 0.91), B[5] = V3(0.02, -0.31, 0.07), B[6] = V3(0.55, 0.17, -0.29), B[7] = V3(-0.8, 1.7, 2.2);
  }
  V.edits[s[V.a]](B);
  V.edits[s[V.b]](B);

  ProblemData pd;
  pd.constraints_.flag_ = (ConstraintFlag)S.flag;
  pd.c0_ = B[0], pd.dc0_ = B[1], pd.ddc0_ = B[2], pd.j0_ = B[3];
  pd.c1_ = B[4], pd.dc1_ = B[5], pd.ddc1_ = B[6], pd.j1_ = B[7];
  ref::Boundary bd;
  for (int k = 0; k < S.n0; ++k) bd.d0.push_back(B[k]);
  for (int k = 0; k < S.n1; ++k) bd.d1.push_back(B[4 + k]);
  bd.nFree = S.nFree;
  bd.stopAtFree = S.stop;
  if (S.stop) pd.dc1_.setZero();  // the only final velocity this set supports
  const Curve c = ref::boundaryCurve(bd, T);
  const Curve dc = c.derivative(), ddc = dc.derivative(), j = ddc.derivative();
  const int n = c.degree(), dim = 3 * S.nFree;
  const bool multi = S.n0 == 4;
  const double sc = std::max(1., scaleOf(c)), sv = scaleOf(dc) + sc / T, sa = scaleOf(ddc) + sc / (T * T), sj = scaleOf(j) + sc / (T * T * T);

  if (dimVar(pd) != dim) { x.fail("dimVar", "%d instead of %d", dimVar(pd), dim); return; }
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  if ((int)pi.size() != n + 1) { x.fail("constant-points", "%d points for degree %d", (int)pi.size(), n); return; }
  for (int i = 0; i <= n; ++i) {
    if (!c.p[i].A.isZero()) continue;
    x.count("expressions_compared");
    if (!((pi[i] - c.p[i].b).cwiseAbs().maxCoeff() <= 1e-10 * sc)) x.fail("constant-points", "point %d is wrong", i);
  }
  auto sym = computeConstantWaypointsSymbolic(pd, T);
  if ((int)sym.size() != n + 1) { x.fail("symbolic-points", "%d points for degree %d", (int)sym.size(), n); return; }
  for (int i = 0; i <= n; ++i) same(x, "symbolic-points", sym[i].first, sym[i].second, c.p[i], sc, i);

  // more times than the degree, and times close to the ends
  static const double NEAR[] = {1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 7e-4, 3e-3, 1e-2, 3e-2};
  std::vector<double> times = {1. / 3};
  for (int k = 0; k < 15; ++k) times.push_back(k / 14.);
  for (double e : NEAR) times.push_back(e), times.push_back(1 - e);
  for (const double t : times) {
    if (S.nFree == 1) {
      coefs_t e = evaluateCurveAtTime(pd, pi, t);
      same(x, "position", scalarMat(e.first), e.second, c.eval(t), sc, t);
      e = evaluateAccelerationCurveAtTime(pd, pi, T, t);
      same(x, "acceleration", scalarMat(e.first), e.second, ddc.eval(t), sa, t);
    }
    if (multi) {
      waypoint_t w = evaluateCurveWaypointAtTime(pd, pi, t);
      same(x, "position-waypoint", w.first, w.second, c.eval(t), sc, t);
      w = evaluateVelocityCurveWaypointAtTime(pd, T, pi, t);
      same(x, "velocity-waypoint", w.first, w.second, dc.eval(t), sv, t);
      w = evaluateAccelerationCurveWaypointAtTime(pd, T, pi, t);
      same(x, "acceleration-waypoint", w.first, w.second, ddc.eval(t), sa, t);
      w = evaluateJerkCurveWaypointAtTime(pd, T, pi, t);
      same(x, "jerk-waypoint", w.first, w.second, j.eval(t), sj, t);
    }
  }
  if (multi) {
    struct { const char* sig; const Curve& r; double scale; std::vector<waypoint_t> w, v; } D[3] = {
        {"velocity-points", dc, sv, computeVelocityWaypoints(pd, T), computeVelocityWaypoints(pd, T, pi)},
        {"acceleration-points", ddc, sa, computeAccelerationWaypoints(pd, T), computeAccelerationWaypoints(pd, T, pi)},
        {"jerk-points", j, sj, computeJerkWaypoints(pd, T), computeJerkWaypoints(pd, T, pi)}};
    for (auto& d : D)
      for (auto* w : {&d.w, &d.v}) {
        if ((int)w->size() != d.r.degree() + 1) { x.fail(d.sig, "%d points for degree %d", (int)w->size(), d.r.degree()); continue; }
        for (int i = 0; i <= d.r.degree(); ++i) same(x, d.sig, (*w)[i].first, (*w)[i].second, d.r.p[i], d.scale, i);
      }
  }
  if (S.nFree == 1 && !(S.n0 == 4)) {
    coefs_t e = computeFinalVelocityPoint(pd, T);
    same(x, "final-velocity", scalarMat(e.first), e.second, dc.p.back(), sv, 1);
  }
  if (S.nFree == 1) {
    // the wrench curve: the library may represent it with any degree that is high enough
    pd.contacts_.push_back(ContactData(phaseWithGravity(s[V.grav])));
    auto w = computeWwaypoints(pd, T);
    Curve got, want = ref::wrenchCurve(c, GS[s[V.grav]]);
    got.T = T;
    for (auto& q : w) {
      if (q.first.rows() != 6 || q.first.cols() != 3 || q.second.size() != 6) { x.fail("wrench-points", "wrong size"); return; }
      got.p.push_back(Aff{q.first, q.second});
    }
    if (got.p.empty()) { x.fail("wrench-points", "none"); return; }
    int m = std::max(got.degree(), want.degree());
    got = got.elevate(m), want = want.elevate(m);
    double sw = scaleOf(want) + sc * (1 + sa);
    for (int i = 0; i <= m; ++i) same(x, "wrench-points", got.p[i].A, got.p[i].b, want.p[i], sw, i);
    // the curve built for a value of the free point
    for (V3 fx : {V3(0, 0, 0), V3(1, -2, 3), V3(0.3, 0.21, 0.9)}) {
      bezier_t bc = computeBezierCurve<bezier_t, point_t>((ConstraintFlag)S.flag, T, pi, point_t(fx));
      x.count("curves_compared");
      if (bc.min() != 0 || std::fabs(bc.max() - T) > 1e-12 * T) { x.fail("curve-interval", "[%g,%g]", bc.min(), bc.max()); break; }
      for (int k = 0; k <= n + 1; ++k) {
        double u = k / (n + 1.);
        if (!((V3(bc(std::min(u * T, bc.max()))) - V3(c.eval(u).at(fx))).cwiseAbs().maxCoeff() <= 1e-9 * sc)) { x.fail("curve", "differs at %g", u); break; }
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  Voc& V = voc();
  std::vector<mc::State> bases;
  for (size_t a = 0; a < V.sp.dims[V.set].values.size(); ++a)
    for (size_t t = 0; t < V.sp.dims[V.T].values.size(); ++t)
      for (size_t b = 0; b < V.sp.dims[V.base].values.size(); ++b)
        for (size_t g = 0; g < 3; ++g) {
          mc::State st = V.sp.zero();
          st[V.set] = a, st[V.T] = t, st[V.base] = b, st[V.grav] = g;
          bases.push_back(st);
        }
  bool full = o.thorough();
  V.sp.explore(bases, {V.a, V.b}, [&](const mc::State& s) {
    if (o.argDepth >= 0) return o.argDepth;
    if (full) return 2;
    if (s[V.T] == 0 && s[V.grav] == 0) return 2;
    return 1;
  }, [&](const mc::State& s) { return s[V.b] == 0 || s[V.a] <= s[V.b]; });
  if (!o.replay.empty()) {
    mc::State s = V.sp.parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { check(s, x); });
  }
  mc::Pool pool(o);
  pool.run(V.sp.states.size(), [&](size_t i, Ctx& x) { check(V.sp.states[i], x); },
           [&](size_t i) { return V.sp.key(V.sp.states[i]); }, V.sp.states.size(), V.sp.transitions,
           "all ten constraint sets x 5 durations x 3 gravity vectors x 4 boundary bases x every sequence of at most two of 80 edits of the "
           "boundary values (quick: two edits at T=1 under standard gravity, one elsewhere), 34 evaluation times (more than the degree, and close to both ends)");
  return 0;
}
