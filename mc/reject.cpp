// C11: every selection of constraints, objective, solver and phase count through every entry point
// that depends on it: exactly the implemented ones are accepted, all others raise an error.
// C15: all pairs of selections under all operators.
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>

#include <climits>
#include <set>

#include "request.hpp"

namespace {
using namespace rq;
using mc::Ctx;

enum { OK = 0, REJECTED = 1, ODD = 2 };
template <typename F>
int outcome(F f) {
  try {
    f();
    return OK;
  } catch (const std::exception&) {
    return REJECTED;
  } catch (...) {
    return ODD;
  }
}
void expect(Ctx& x, const char* sig, const std::string& what, int got, bool reject) {
  x.count("impl_runs");
  x.count(reject ? "expected_rejections" : "expected_acceptances");
  if (got == ODD) x.fail((std::string(sig) + "-odd-error").c_str(), "%s: raised something that is not a std::exception", what.c_str());
  else if (reject && got == OK) x.fail((std::string(sig) + "-accepted").c_str(), "%s: accepted although it cannot be honoured", what.c_str());
  else if (!reject && got == REJECTED) x.fail((std::string(sig) + "-rejected").c_str(), "%s: rejected although it is implemented", what.c_str());
}

const unsigned PV = bct::INIT_POS | bct::INIT_VEL, J8 = 0xff;
// the ten implemented selections
bool oneFree(unsigned f) {  // the eight with one free control point
  using namespace bct;
  return f == (PV | END_POS) || f == (PV | END_VEL) || f == (PV | END_VEL | END_POS) ||
         f == (PV | INIT_ACC) || f == (PV | INIT_ACC | END_POS) ||
         f == (PV | INIT_ACC | END_VEL | END_POS) ||
         f == (PV | INIT_ACC | END_ACC | END_VEL | END_POS) || f == J8;
}
bool jerkSet(unsigned f) {
  return f == J8 || f == (J8 | bct::THREE_FREE_VAR) || f == (J8 | bct::FIVE_FREE_VAR);
}

// ------------------------------------------------------------------ the objects the calls use
struct World {
  std::vector<std::shared_ptr<cd::Equilibrium> > eq;
  Scene sc;
  World() {
    for (auto& s : allScenes())
      if (s.name == "walk5") sc = s;
    Frame fr;
    for (auto& p : sc.phases) eq.emplace_back(makePhase(p, 54, fr));
  }
  bct::ProblemData problem(int phases, bool one) const {
    bct::ProblemData pd;
    // the first contact configuration again and again: every motion stays in place
    for (int i = 0; i < phases; ++i) {
      bct::ContactData c;
      pd.contacts_.push_back(c);
      pd.contacts_.back().contactPhase_ = eq[0].get();
    }
    pd.c0_ = V3(0, 0, 0.795);
    pd.c1_ = V3(0.01, 0, 0.795);
    (void)one;
    return pd;
  }
};
World& world() {
  static World w;
  return w;
}

struct Path {
  bct::point3_t operator()(double u) const { return bct::point3_t(u, 0, 0); }
};
struct FormX {
  const char* name;
  int kind;  // 0 fixed size, 1 computeCOMTraj
  double dt;
  bool force, glpk;
};
const std::vector<FormX>& fx() {
  static const std::vector<FormX> f = {{"fixed", 0, 0, false, false},      {"disc", 1, 0.1, false, false},
                                       {"contDD", 1, -1, false, false},    {"contForce", 1, -1, true, false},
                                       {"disc-glpk", 1, 0.1, false, true}, {"contDD-glpk", 1, -1, false, true},
                                       {"contForce-glpk", 1, -1, true, true}};
  return f;
}
void plan(bct::ProblemData& pd, const Vec& Ts, const FormX& f, int solver) {
  pd.representation_ = f.force ? bct::FORCE : bct::DOUBLE_DESCRIPTION;
  bct::ResultDataCOMTraj r = f.kind == 0 ? bct::computeCOMTrajFixedSize(pd, Ts, 3)
                                         : bct::computeCOMTraj(pd, Ts, f.dt, (s::SolverType)solver);
  volatile bool b = r.success_;
  (void)b;
}
int solverOf(const FormX& f) {
#ifdef USE_GLPK_SOLVER
  return f.glpk ? s::SOLVER_GLPK : s::SOLVER_QUADPROG;
#else
  return s::SOLVER_QUADPROG;
#endif
}
const std::vector<std::string> COSTS = {"acc", "dist", "endvel"};
const int COSTCODE[3] = {bct::ACCELERATION, bct::DISTANCE_TRAVELED, bct::TARGET_END_VELOCITY};

struct Case {
  int kind, a, b, c;
};
const char* KIND[] = {"selection", "plan", "objective", "solver", "phases", "finalvel", "endeffector", "pairs", "points"};
std::string show(const Case& k) {
  char b[200];
  snprintf(b, sizeof b, "%s:%d:%d:%d", KIND[k.kind], k.a, k.b, k.c);
  return b;
}
Case parse(const std::string& s) {
  Case k{-1, 0, 0, 0};
  size_t p = s.find(':');
  for (int i = 0; i < 9; ++i)
    if (s.substr(0, p) == KIND[i]) k.kind = i;
  sscanf(s.c_str() + p, ":%d:%d:%d", &k.a, &k.b, &k.c);
  return k;
}
std::string flagName(unsigned f) {
  static const char* n[] = {"INIT_POS", "INIT_VEL", "INIT_ACC", "END_POS", "END_VEL", "END_ACC", "INIT_JERK",
                            "END_JERK", "TWO_FREE_VAR", "THREE_FREE_VAR", "FOUR_FREE_VAR", "FIVE_FREE_VAR", "UNKNOWN"};
  std::string s;
  for (int i = 0; i < 13; ++i)
    if (f >> i & 1) s += (s.empty() ? "" : "|") + std::string(n[i]);
  return s.empty() ? "nothing" : s;
}
const int CODES[] = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 64, 100, 256, 258, 4096, 65536, INT_MAX, INT_MIN};
const int NCODES = sizeof CODES / sizeof *CODES;
const double MAG[] = {1e-12, 1e-6, 0.1, 1.5, 1e3};

void check(const Case& k, Ctx& x) {
  using namespace bct;
  switch (k.kind) {
    case 0: {  // every function that dispatches on the selection
      unsigned f = k.a;
      ProblemData pd = world().problem(1, true);
      pd.constraints_.flag_ = (ConstraintFlag)f;
      const double T = 1.5;
      bool one = oneFree(f), jk = jerkSet(f), any = one || jk;
      std::vector<point_t> pi;
      if (any) {
        try {
          pi = computeConstantWaypoints(pd, T);
        } catch (...) {
        }
      }
      // the points handed to functions that must reject: long enough for any of them
      while (pi.size() < 16 && !any) pi.push_back(point_t::Zero());
      std::string n = flagName(f);
      auto e = [&](const char* fn, bool ok, int got) { expect(x, fn, std::string(fn) + " with " + n, got, !ok); };
      e("computeConstantWaypoints", any, outcome([&] { computeConstantWaypoints(pd, T); }));
      e("computeConstantWaypointsSymbolic", any, outcome([&] { computeConstantWaypointsSymbolic(pd, T); }));
      e("evaluateCurveAtTime", one, outcome([&] { evaluateCurveAtTime(pd, pi, 0.3); }));
      e("evaluateAccelerationCurveAtTime", one, outcome([&] { evaluateAccelerationCurveAtTime(pd, pi, T, 0.3); }));
      e("computeWwaypoints", one, outcome([&] { computeWwaypoints(pd, T); }));
      e("computeFinalVelocityPoint", one && f != J8, outcome([&] { computeFinalVelocityPoint(pd, T); }));
      e("evaluateCurveWaypointAtTime", jk, outcome([&] { evaluateCurveWaypointAtTime(pd, pi, 0.3); }));
      e("evaluateVelocityCurveWaypointAtTime", jk, outcome([&] { evaluateVelocityCurveWaypointAtTime(pd, T, pi, 0.3); }));
      e("evaluateAccelerationCurveWaypointAtTime", jk, outcome([&] { evaluateAccelerationCurveWaypointAtTime(pd, T, pi, 0.3); }));
      e("evaluateJerkCurveWaypointAtTime", jk, outcome([&] { evaluateJerkCurveWaypointAtTime(pd, T, pi, 0.3); }));
      e("computeVelocityWaypoints", jk, outcome([&] { computeVelocityWaypoints(pd, T, pi); }));
      e("computeAccelerationWaypoints", jk, outcome([&] { computeAccelerationWaypoints(pd, T, pi); }));
      e("computeJerkWaypoints", jk, outcome([&] { computeJerkWaypoints(pd, T, pi); }));
      e("computeVelocityCost", jk, outcome([&] { computeVelocityCost(pd, T, pi); }));
      break;
    }
    case 1: {  // planning: selection x objective x formulation
      unsigned f = k.a;
      ProblemData pd = world().problem(2, true);
      pd.constraints_.flag_ = (ConstraintFlag)f;
      pd.costFunction_ = (CostFunction)COSTCODE[k.b];
      Vec Ts = Vec::Constant(2, 0.5);
      bool ok = oneFree(f) && !(k.b == 2 && (f & END_VEL));
      const FormX& fo = fx()[k.c];
      int got = outcome([&] { plan(pd, Ts, fo, solverOf(fo)); });
      expect(x, "plan", std::string("planning (") + fo.name + ", objective " + COSTS[k.b] + ") with " + flagName(f), got, !ok);
      break;
    }
    case 2: {  // objective codes
      static const unsigned FL[] = {PV | END_POS, PV | INIT_ACC, PV | END_VEL | END_POS, PV | END_VEL, J8, PV | INIT_ACC | END_POS};
      unsigned f = FL[k.b];
      ProblemData pd = world().problem(1, true);
      pd.constraints_.flag_ = (ConstraintFlag)f;
      int code = CODES[k.a];
      pd.costFunction_ = (CostFunction)code;
      Vec Ts = Vec::Constant(1, 0.8);
      bool ok = code == 1 || code == 2 || (code == 4 && !(f & END_VEL));
      const FormX& fo = fx()[k.c];
      int got = outcome([&] { plan(pd, Ts, fo, solverOf(fo)); });
      expect(x, "objective", "planning (" + std::string(fo.name) + ") with objective code " + std::to_string(code) + " and " + flagName(f), got, !ok);
      break;
    }
    case 3: {  // solver codes
      int code = CODES[k.a];
#ifdef USE_GLPK_SOLVER
      bool ok = code == 1 || code == 2;
#else
      bool ok = code == 1;
#endif
      std::string w = "solver code " + std::to_string(code);
      if (k.c < (int)fx().size()) {
        if (fx()[k.c].kind == 0) break;  // the fixed size entry point has no solver argument
        ProblemData pd = world().problem(1 + k.b % 3, true);
        if (k.b >= 3) pd.constraints_.flag_ = (ConstraintFlag)(PV | END_POS);
        Vec Ts = Vec::Constant(1 + k.b % 3, 0.8);
        expect(x, "solver", std::string("computeCOMTraj (") + fx()[k.c].name + ") with " + w, outcome([&] { plan(pd, Ts, fx()[k.c], code); }), !ok);
      } else {  // the solver front ends
        int n = 1 + k.b % 3, m = k.b >= 3 ? 2 : 0;
        Mat A = Mat::Zero(m, n), D(0, n), H = Mat::Identity(n, n);
        Vec b = Vec::Ones(m), d(0), g = Vec::Ones(n), lo = Vec::Constant(n, -3), hi = Vec::Constant(n, 3);
        s::SolverType st = (s::SolverType)code;
        expect(x, "solver", "solvers::solve with " + w, outcome([&] { s::solve(A, b, D, d, H, g, Vec::Zero(n), lo, hi, st); }), !ok);
        std::pair<Mat, Vec> Ab(A, b), Dd(D, d), Hg(H, g);
        expect(x, "solver", "solve of pairs with bounds and " + w, outcome([&] { bct::solve(Ab, Dd, Hg, lo, hi, Vec::Zero(n), st); }), !ok);
        if (m == 2) {
          A.row(0).setOnes();
          A.row(1).setConstant(-1);
        }
        if (m == 2 && n == 1) {
          Ab.first = A;
          expect(x, "solver", "solve of pairs and " + w, outcome([&] { bct::solve(Ab, Hg, Vec::Zero(n), st); }), !ok);
        }
      }
      break;
    }
    case 4: {  // numbers of durations and of contact phases
      int nc = k.a, nt = k.b;
      std::string w = std::to_string(nc) + " contact phases and " + std::to_string(nt) + " durations";
      ProblemData pd = world().problem(nc, true);
      Vec Ts = Vec::Constant(nt, 0.5);
      if (k.c < (int)fx().size()) {
        const FormX& fo = fx()[k.c];
        expect(x, "phases", std::string("planning (") + fo.name + ") with " + w, outcome([&] { plan(pd, Ts, fo, solverOf(fo)); }),
               nc != nt || nc == 0);
      } else {
        int v = k.c - (int)fx().size();
        pd.useAngularMomentum_ = v & 1;
        std::vector<double> ts(nt, 0.5);
        expect(x, "zerostep-phases", "solve0step with " + w, outcome([&] { solve0step(pd, ts, v & 2 ? 0.1 : -1); }), nc != 1 || nt != 1);
      }
      break;
    }
    case 5: {  // non-zero final velocity where only zero is supported
      ProblemData pd = world().problem(1, true);
      pd.constraints_.flag_ = (ConstraintFlag)(PV | END_VEL);
      int p = k.a;  // a point of {-1,0,1}^3
      double m = MAG[k.b];
      V3 v(p % 3 - 1, p / 3 % 3 - 1, p / 9 - 1);
      pd.dc1_ = m * v;
      bool ok = v.norm() == 0;
      Vec Ts = Vec::Constant(1, 0.8);
      char w[100];
      snprintf(w, sizeof w, "final velocity (%g %g %g)", pd.dc1_[0], pd.dc1_[1], pd.dc1_[2]);
      for (int c = 0; c < 2; ++c) {
        pd.costFunction_ = (CostFunction)COSTCODE[c];
        const FormX& fo = fx()[k.c];
        expect(x, "finalvel", std::string("planning (") + fo.name + ") with " + w, outcome([&] { plan(pd, Ts, fo, solverOf(fo)); }), !ok);
      }
      expect(x, "finalvel", std::string("computeConstantWaypoints with ") + w, outcome([&] { computeConstantWaypoints(pd, 0.8); }), !ok);
      expect(x, "finalvel", std::string("computeWwaypoints with ") + w, outcome([&] { computeWwaypoints(pd, 0.8); }), !ok);
      expect(x, "finalvel", std::string("computeConstantWaypointsSymbolic with ") + w, outcome([&] { computeConstantWaypointsSymbolic(pd, 0.8); }), !ok);
      break;
    }
    case 6: {  // end effector entry points
      unsigned f = k.a;
      ProblemData pd;
      pd.c1_ = V3(0.4, 0.1, 0.1);
      pd.constraints_.flag_ = (ConstraintFlag)f;
      const double T = 1.2, wt[3] = {0, 0.5, 1};
      bool ok = jerkSet(f);
      std::string n = flagName(f);
      expect(x, "endeffector", "solveEndEffector with " + n, outcome([&] { solveEndEffector(pd, Path(), T, wt[k.b]); }), !ok);
      std::vector<point_t> pi(16, point_t::Zero());
      if (ok || oneFree(f)) pi = computeConstantWaypoints(pd, T);
      expect(x, "endeffector", "computeEndEffectorConstraints with " + n, outcome([&] { computeEndEffectorConstraints(pd, T, pi); }), !ok);
      expect(x, "endeffector", "computeEndEffectorCost with " + n, outcome([&] { computeEndEffectorCost(pd, Path(), T, wt[k.b], true, pi); }), !ok);
      break;
    }
    case 8: {  // number of points per phase
      ProblemData pd = world().problem(k.a, true);
      Vec Ts = Vec::Constant(k.a, 0.5);
      expect(x, "points", std::to_string(k.b) + " points per phase", outcome([&] { computeCOMTrajFixedSize(pd, Ts, k.b); }), k.b == 0);
      break;
    }
    case 7: {  // C15: all pairs
      typedef ConstraintFlag CF;
      const unsigned M = 0x1fff;
      unsigned a = k.a;
      CF fa = (CF)a;
      if (k.a == 0) {
        unsigned all[] = {INIT_POS, INIT_VEL, INIT_ACC, END_POS, END_VEL, END_ACC, INIT_JERK, END_JERK,
                          TWO_FREE_VAR, THREE_FREE_VAR, FOUR_FREE_VAR, FIVE_FREE_VAR, bct::UNKNOWN};
        std::set<unsigned> seen;
        for (unsigned v : all)
          if (v == 0 || (v & (v - 1)) || !seen.insert(v).second) x.fail("distinct", "constraint %#x is not a separate element", v);
        if ((unsigned)ONE_FREE_VAR) x.fail("distinct", "ONE_FREE_VAR is not empty");
        bct::Constraints d;
        if ((unsigned)d.flag_ != (unsigned)(INIT_POS | INIT_VEL | END_VEL | END_POS)) x.fail("default", "default selection is %#x", (unsigned)d.flag_);
      }
      if (((unsigned)~fa & M) != (M & ~a)) x.fail("complement", "~%#x = %#x", a, (unsigned)~fa);
      if ((unsigned)(~~fa) != a) x.fail("complement", "~~%#x = %#x", a, (unsigned)~~fa);
      bct::Constraints ca(fa);
      if ((unsigned)ca.flag_ != a) x.fail("kept", "Constraints(%#x) holds %#x", a, (unsigned)ca.flag_);
      const unsigned fv[] = {TWO_FREE_VAR, THREE_FREE_VAR, FOUR_FREE_VAR, FIVE_FREE_VAR};
      const int dv[] = {6, 9, 12, 15};
      int n = 0, want = 3;
      for (int i = 0; i < 4; ++i)
        if (a & fv[i]) ++n, want = dv[i];
      ProblemData pd;
      pd.constraints_.flag_ = fa;
      if (n <= 1) {
        x.count("dimVar_checked");
        if (dimVar(pd) != want) x.fail("dimvar", "%s: %d free variables instead of %d", flagName(a).c_str(), dimVar(pd), want);
      } else if (dimVar(pd) % 3)
        x.fail("dimvar", "%s: %d free variables", flagName(a).c_str(), dimVar(pd));
      for (unsigned b = 0; b <= M; ++b) {
        volatile unsigned vb = b;  // keeps the compiler from deciding the comparisons
        CF fb = (CF)(unsigned)vb;
        if ((unsigned)(fa | fb) != (a | b)) x.fail("union", "%#x | %#x = %#x", a, b, (unsigned)(fa | fb));
        if ((unsigned)(fa & fb) != (a & b)) x.fail("intersection", "%#x & %#x = %#x", a, b, (unsigned)(fa & fb));
        if ((unsigned)(fa ^ fb) != (a ^ b)) x.fail("difference", "%#x ^ %#x = %#x", a, b, (unsigned)(fa ^ fb));
        if ((unsigned)(fa & ~fb) != (a & ~b)) x.fail("difference", "%#x & ~%#x = %#x", a, b, (unsigned)(fa & ~fb));
        CF u = fa, v = fa, w = fa, z = fa;
        CF &ru = (u |= fb), &rv = (v &= fb), &rw = (w ^= fb), &rz = (z &= ~fb);
        if ((unsigned)u != (a | b) || &ru != &u) x.fail("union-in-place", "%#x |= %#x gives %#x", a, b, (unsigned)u);
        if ((unsigned)v != (a & b) || &rv != &v) x.fail("intersection-in-place", "%#x &= %#x gives %#x", a, b, (unsigned)v);
        if ((unsigned)w != (a ^ b) || &rw != &w) x.fail("difference-in-place", "%#x ^= %#x gives %#x", a, b, (unsigned)w);
        if ((unsigned)z != (a & ~b) || &rz != &z) x.fail("difference-in-place", "%#x &= ~%#x gives %#x", a, b, (unsigned)z);
        if ((unsigned)fb != b || (unsigned)fa != a) x.fail("operand", "an operand was modified (%#x, %#x)", a, b);
      }
      x.count("pairs_checked", M + 1);
      x.count("impl_runs", 8 * (M + 1));
      break;
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  if (!o.replay.empty()) {
    Case k = parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { check(k, x); });
  }
  std::vector<Case> c;
  std::string bounds;
  if (o.prop == "C15") {
    for (int a = 0; a < 8192; ++a) c.push_back(Case{7, a, 0, 0});
    bounds = "all 8192 x 8192 ordered pairs of selections, all operators in value and in-place form; complement, free variable count and construction for all 8192";
  } else {
    int nf = (int)fx().size();
    for (int n = 1; n <= 5; ++n)
      for (int p = 0; p <= 12; ++p) c.push_back(Case{8, n, p, 0});
    for (int a = 0; a <= 6; ++a)
      for (int b = 0; b <= 6; ++b)
        for (int f = 0; f < nf + 4; ++f) c.push_back(Case{4, a, b, f});
    for (int a = 0; a < NCODES; ++a)
      for (int b = 0; b < 6; ++b)
        for (int f = 0; f <= nf; ++f) {
          if (f < nf) c.push_back(Case{2, a, b, f});
          c.push_back(Case{3, a, b, f});
        }
    for (int p = 0; p < 27; ++p)
      for (int m = 0; m < 5; ++m)
        for (int f = 0; f < nf; ++f) c.push_back(Case{5, p, m, f});
    for (int f = 0; f < 8192; ++f) {
      c.push_back(Case{0, f, 0, 0});
      for (int w = 0; w < 3; ++w) c.push_back(Case{6, f, w, 0});
      for (int b = 0; b < 3; ++b)
        for (int q = 0; q < nf; ++q) c.push_back(Case{1, f, b, q});
    }
    bounds = "all 8192 selections through 14 dispatching functions, through 7 planning formulations x 3 objectives, and through the end effector entry points x 3 weights; "
             "24 objective codes x 6 selections x 7 formulations; 24 solver codes x 6 problems x 6 planning forms and all solver front ends; all (contact phases, durations) in 0..6 x 0..6 for all forms and "
             "zero-step variants; 27 x 5 final velocities for the stop-anywhere selection x 7 formulations; 0..12 points x 1..5 phases";
  }
  mc::Pool pool(o);
  pool.run(c.size(), [&](size_t i, Ctx& x) { check(c[i], x); }, [&](size_t i) { return show(c[i]); }, c.size(),
           c.size(), bounds);
  return 0;
}
