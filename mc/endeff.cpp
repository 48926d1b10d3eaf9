// C08: end effector planning. Every request reachable by single-parameter edits is planned by the
// real library and decided against a reference model of the same curve: boundary conditions, shape
// constraints, optimality, and the matrices offered to callers.
#include <hpp/bezier-com-traj/solve_end_effector.hh>

#include "explore.hpp"
#include "ref.hpp"

namespace {
namespace bct = bezier_com_traj;
using mc::Ctx;
using ref::Aff;
using ref::Curve;
using ref::Mat;
using ref::V3;
using ref::Vec;

const double LIMIT = 10000;  // the built-in bounds on velocity, acceleration and jerk

struct Path {
  int kind;
  V3 a, b;  // in the frame of the vocabulary
  ref::M3 R;
  V3 t;
  bct::point3_t operator()(double u) const { return R * at(u) + t; }
  V3 at(double u) const {
    V3 p = a + u * (b - a);
    switch (kind) {
      case 1: p[2] += 0.3 * std::sin(M_PI * u); break;           // arc
      case 2: p = 0.5 * (a + b) + V3(0.2, -0.1, 0.4); break;      // constant
      case 3: p += V3(std::sin(6 * M_PI * u), std::cos(5 * u), -0.8 * u * (1 - u)); break;  // dips below the ends
      case 4: p += V3(40, -30, 25); break;                        // far away
      case 5: p = u < 0.5 ? a : b; break;                         // jump
      case 6: p[2] -= 2 * u * (1 - u); break;                     // below
    }
    return p;
  }
};

struct Voc {
  mc::Space sp;
  int nf, w, T, path, c0, dc0, ddc0, j0, c1, dc1, ddc1, j1, frame;
  Voc() {
    nf = sp.add("free", {"1", "3", "5"});
    w = sp.add("weight", {"0.5", "0", "1", "0.1", "0.9", "1e-3", "0.999"});
    T = sp.add("T", {"1", "0.6", "2.5", "10", "0.2", "0.08"});
    path = sp.add("path", {"line", "arc", "constant", "wave", "far", "jump", "below"});
    c0 = sp.add("c0", {"A", "origin", "low", "high", "B"});
    c1 = sp.add("c1", {"B", "origin", "below-c0", "far", "A"});
    dc0 = sp.add("dc0", {"0", "fwd", "down", "mixed"});
    dc1 = sp.add("dc1", {"0", "fwd", "up", "down", "mixed"});
    ddc0 = sp.add("ddc0", {"0", "up", "down", "mixed"});
    ddc1 = sp.add("ddc1", {"0", "up", "down", "mixed"});
    j0 = sp.add("j0", {"0", "x", "z", "mixed"});
    j1 = sp.add("j1", {"0", "x", "z", "mixed"});
    frame = sp.add("frame", {"id", "southwest", "east", "turned", "mirrored", "start-origin", "half-turn-high"});
  }
};
Voc& voc() { static Voc v; return v; }

V3 pick(int i, double s) {
  const V3 t[5] = {V3(0, 0, 0), V3(0.7, 0.1, 0), V3(0, 0, 0.5), V3(0, 0, -0.5), V3(-0.4, 0.9, 0.35)};
  return s * t[i];
}
// integral over [0,1] of B_i^n B_j^n
double gram(int n, int i, int j) { return ref::binom(n, i) * ref::binom(n, j) / ref::binom(2 * n, i + j) / (2 * n + 1); }

struct Form { Mat H; Vec g; };
Form normalised(Form f) {
  double n = f.H.norm();
  f.H /= n, f.g /= n;
  return f;
}
Form integralCost(const Curve& c) {  // integral over [0,T] of |c|^2, as x'Hx + 2g'x
  int n = c.degree();
  Form f{Mat::Zero(c.dim(), c.dim()), Vec::Zero(c.dim())};
  for (int i = 0; i <= n; ++i)
    for (int j = 0; j <= n; ++j) {
      double w = c.T * gram(n, i, j);
      f.H += w * c.p[i].A.transpose() * c.p[j].A;
      f.g += w * c.p[i].A.transpose() * c.p[j].b;
    }
  return f;
}
Form sampledCost(const Curve& c, int n, const std::function<V3(double)>& target) {
  Form f{Mat::Zero(c.dim(), c.dim()), Vec::Zero(c.dim())};
  for (int k = 0; k < n; ++k) {
    double u = k / (n - 1.);
    Aff a = c.eval(u);
    f.H += a.A.transpose() * a.A;
    f.g += a.A.transpose() * (a.b - target(u));
  }
  return f;
}
void sameForm(Ctx& x, const char* sig, const Mat& H, const Vec& g, const Form& r, double gs, double tol) {
  x.count("matrices_compared");
  if (H.rows() != r.H.rows() || H.cols() != r.H.cols() || g.size() != r.g.size()) { x.fail(sig, "wrong size"); return; }
  double eh = (H - r.H).norm() / r.H.norm(), eg = (g - r.g).norm() / (gs * r.H.norm());
  if (!(eh <= tol)) x.fail(sig, "quadratic part off by %.3g of its norm", eh);
  if (!(eg <= tol)) x.fail(sig, "linear part off by %.3g", eg);
}

struct Req {
  bct::ProblemData pd;
  Path path;
  int nf;
  double T, weight;
  ref::M3 R;
  V3 t;
};
Req build(const mc::State& s) {
  Voc& V = voc();
  Req q;
  q.nf = 2 * s[V.nf] + 1;
  const double Ts[6] = {1, 0.6, 2.5, 10, 0.2, 0.08}, Ws[7] = {0.5, 0, 1, 0.1, 0.9, 1e-3, 0.999};
  q.T = Ts[s[V.T]], q.weight = Ws[s[V.w]];
  const V3 C0[5] = {V3(0.1, -0.2, 0.05), V3(0, 0, 0), V3(0.1, -0.2, -0.7), V3(0.3, 0.2, 1.4), V3(0.5, 0.1, 0.2)};
  const V3 C1[5] = {V3(0.5, 0.1, 0.2), V3(0, 0, 0), V3(0.6, 0.05, -0.4), V3(3, -2, 1.5), V3(0.1, -0.2, 0.05)};
  const int D0[4] = {0, 1, 3, 4}, D[4] = {0, 2, 3, 4}, J[4] = {0, 1, 2, 4};
  const V3 c0 = C0[s[V.c0]], c1 = C1[s[V.c1]];
  // the horizontal directions may be exchanged or reversed and everything be moved: the limits on
  // the components and the heights do not distinguish them
  q.R.setIdentity();
  q.t.setZero();
  switch (s[V.frame]) {
    case 1: q.t = V3(-13, -21, -6); break;
    case 2: q.t = V3(17, 4, 2); break;
    case 3: q.R << 0, -1, 0, 1, 0, 0, 0, 0, 1; break;
    case 4: q.R << 1, 0, 0, 0, -1, 0, 0, 0, 1; break;
    case 5: q.t = -c0; break;
    case 6: q.R << -1, 0, 0, 0, -1, 0, 0, 0, 1; q.t = V3(0.3, -0.2, 9); break;
  }
  bct::ProblemData& pd = q.pd;
  pd.c0_ = q.R * c0 + q.t, pd.c1_ = q.R * c1 + q.t;
  pd.dc0_ = q.R * pick(D0[s[V.dc0]], 1), pd.dc1_ = q.R * pick(s[V.dc1], 1);
  pd.ddc0_ = q.R * pick(D[s[V.ddc0]], 2), pd.ddc1_ = q.R * pick(D[s[V.ddc1]], 2);
  pd.j0_ = q.R * pick(J[s[V.j0]], 5), pd.j1_ = q.R * pick(J[s[V.j1]], 5);
  int flag = bct::INIT_POS | bct::INIT_VEL | bct::INIT_ACC | bct::INIT_JERK | bct::END_POS | bct::END_VEL | bct::END_ACC | bct::END_JERK;
  if (q.nf == 3) flag |= bct::THREE_FREE_VAR;
  if (q.nf == 5) flag |= bct::FIVE_FREE_VAR;
  pd.constraints_.flag_ = (bct::ConstraintFlag)flag;
  q.path = Path{s[V.path], c0, c1, q.R, q.t};
  return q;
}

// C17: the same request in every other frame
void checkFrames(const mc::State& s, Ctx& x) {
  Voc& V = voc();
  Req a = build(s);
  bct::ResultDataCOMTraj ra = bct::solveEndEffector(a.pd, a.path, a.T, a.weight);
  x.count("impl_runs");
  for (size_t f = 1; f < V.sp.dims[V.frame].values.size(); ++f) {
    mc::State s2 = s;
    s2[V.frame] = (unsigned char)f;
    Req b = build(s2);
    bct::ResultDataCOMTraj rb = bct::solveEndEffector(b.pd, b.path, b.T, b.weight);
    x.count("impl_runs");
    x.count("transformed_pairs");
    std::string what = "effector-frame-" + V.sp.dims[V.frame].values[f];
    if (ra.success_ != rb.success_) {
      x.count("feasibility_differs");  // decided by C08 in each frame: borderline requests may differ
      continue;
    }
    if (!ra.success_) continue;
    double scale = 1 + a.pd.c0_.norm() + b.pd.c0_.norm() + ra.x.cwiseAbs().maxCoeff();
    for (int i = 0; i <= 8; ++i) {
      double u = i / 8.0;
      V3 p = a.R.transpose() * (V3(ra.c_of_t_(u * ra.c_of_t_.max())) - a.t), q = b.R.transpose() * (V3(rb.c_of_t_(u * rb.c_of_t_.max())) - b.t);
      if (!((p - q).norm() <= 2e-4 * scale)) {
        x.fail(what.c_str(), "at u=%g the curve differs by %g", u, (p - q).norm());
        break;
      }
    }
  }
}

void check(const mc::State& s, Ctx& x) {
  Req rq = build(s);
  const bct::ProblemData& pd = rq.pd;
  const Path& path = rq.path;
  const int nf = rq.nf;
  const double T = rq.T, weight = rq.weight;

  ref::Boundary bd;
  bd.d0 = {pd.c0_, pd.dc0_, pd.ddc0_, pd.j0_};
  bd.d1 = {pd.c1_, pd.dc1_, pd.ddc1_, pd.j1_};
  bd.nFree = nf;
  const Curve c = ref::boundaryCurve(bd, T);
  const int n = c.degree(), dim = 3 * nf;
  Curve der[4] = {c};
  for (int k = 1; k < 4; ++k) der[k] = der[k - 1].derivative();
  double sc = 1;
  for (auto& p : c.p) sc = std::max(sc, p.b.cwiseAbs().maxCoeff());
  for (int k = 0; k <= 10; ++k) sc = std::max(sc, path(k / 10.).cwiseAbs().maxCoeff());

  // reference problem
  Form smooth = normalised(integralCost(der[1]));
  Form dist = normalised(sampledCost(c, 50, [&](double u) { return V3(path(u)); }));
  Form cost{(1 - weight) * smooth.H + weight * dist.H, (1 - weight) * smooth.g + weight * dist.g};
  std::vector<Vec> a;
  std::vector<double> b, rs;
  for (int k = 1; k < 4; ++k)
    for (auto& p : der[k].p) {
      if (p.A.isZero()) continue;
      for (int r = 0; r < 3; ++r)
        for (int sg = 1; sg >= -1; sg -= 2) {
          a.push_back(sg * p.A.row(r).transpose());
          b.push_back(LIMIT - sg * p.b[r]);
          rs.push_back(1e-6 * LIMIT);
        }
    }
  const double floor = std::min(pd.c0_[2], pd.c1_[2]);
  for (int i = 0; i < nf; ++i) {
    Vec r = Vec::Zero(dim);
    r[3 * i + 2] = -1;
    a.push_back(r), b.push_back(-floor), rs.push_back(1e-7 * sc);
  }
  Mat A(a.size(), dim);
  Vec B(b.size());
  for (size_t i = 0; i < a.size(); ++i) A.row(i) = a[i].transpose(), B[i] = b[i];

  // the matrices offered to callers
  std::vector<bct::bezier_t::point_t> pi = bct::computeConstantWaypoints(pd, T);
  auto vc = bct::computeVelocityCost(pd, T), vc2 = bct::computeVelocityCost(pd, T, pi);
  sameForm(x, "velocity-cost", vc.first, vc.second, smooth, sc, 5e-6);
  sameForm(x, "velocity-cost", vc2.first, vc2.second, smooth, sc, 5e-6);
  auto dcst = bct::computeDistanceCostFunction(50, pd, T, path);
  sameForm(x, "distance-cost", dcst.first, dcst.second, dist, sc, 1e-8);
  std::vector<bct::point3_t> pts;
  for (int k = 0; k < 7; ++k) pts.push_back(path(k / 6.));
  dcst = bct::computeDistanceCostFunction(7, pd, T, pts);
  sameForm(x, "distance-cost-points", dcst.first, dcst.second, normalised(sampledCost(c, 7, [&](double u) { return V3(path(std::round(u * 6) / 6.)); })), sc, 1e-8);
  for (int k = 1; k < 4; ++k) {
    bct::MatrixXX H;
    bct::VectorX g;
    if (k == 1) bct::computeVelCostFunctionDiscretized(9, pd, T, H, g);
    if (k == 2) bct::computeAccelerationCostFunctionDiscretized(9, pd, T, H, g);
    if (k == 3) bct::computeJerkCostFunctionDiscretized(9, pd, T, H, g);
    const char* sg[4] = {"", "sampled-velocity-cost", "sampled-acceleration-cost", "sampled-jerk-cost"};
    sameForm(x, sg[k], H, g, sampledCost(der[k], 9, [](double) { return V3(0, 0, 0); }), sc, 1e-8);
  }
  // curves of degree 4 fixed up to (a null) jerk at one end
  auto wi = bct::computeConstantWaypointsInitPredef(pd, T), wg = bct::computeConstantWaypointsGoalPredef(pd, T);
  auto hi = ref::hermiteEnd({pd.c0_, pd.dc0_, pd.ddc0_, V3(0, 0, 0)}, 4, T, 1), hg = ref::hermiteEnd({pd.c1_, pd.dc1_, pd.ddc1_, V3(0, 0, 0)}, 4, T, -1);
  if (wi.size() != 5 || wg.size() != 5) x.fail("predefined", "not 5 points");
  else
    for (int i = 0; i < 4; ++i) {
      x.count("predefined_points_compared", 2);
      double psc = 1e-9 * (sc + T * 2 + T * T * 4);
      if (!((wi[i] - hi[i]).norm() <= psc) || !((wg[4 - i] - hg[i]).norm() <= psc)) x.fail("predefined", "point %d", i);
    }
  if (wi.size() == 5 && (!((wi[4] - pd.c1_).norm() <= 1e-9 * sc) || !((wg[0] - pd.c0_).norm() <= 1e-9 * sc))) x.fail("predefined", "other end");
  // the boundary rows: exactly the reference feasible set, probed around the constraint surfaces
  auto Ab = bct::computeEndEffectorConstraints(pd, T, pi);
  if (Ab.first.cols() != dim || Ab.first.rows() != Ab.second.size()) { x.fail("rows", "wrong size"); return; }
  {
    Vec x0(dim);
    for (int i = 0; i < nf; ++i) x0.segment<3>(3 * i) = V3(0.3, 0, std::max(pd.c0_[2], pd.c1_[2]) + 0.3) + 0.05 * i * V3(1, 1, 1);
    for (size_t i = 0; i < a.size(); ++i) {
      double na = a[i].norm();
      if (na < 1e-12) continue;
      for (int side = -1; side <= 1; side += 2) {
        // move x0 along the normal to just beyond / just before surface i
        double tstep = (b[i] - a[i].dot(x0)) / (na * na), mrg = side * (1e-6 * std::fabs(tstep) + rs[i] / (na * na));
        Vec y = x0 + (tstep + mrg) * a[i];
        double worst = -1e300, wl = -1e300;
        Vec lhs = A * y - B;
        for (int r = 0; r < lhs.size(); ++r) worst = std::max(worst, lhs[r] / rs[r]);
        // the same for the library, each row in units of its own right-hand side scale
        Vec l = Ab.first * y - Ab.second;
        for (int r = 0; r < l.size(); ++r) wl = std::max(wl, l[r] / (1e-9 * (Ab.first.row(r).cwiseAbs().dot(y.cwiseAbs()) + std::fabs(Ab.second[r]) + 1e-3)));
        x.count("row_probes");
        if (worst > 1e-2 && wl <= 0) { x.fail("rows", "a point beyond a limit is admitted (row %d)", (int)i); break; }
        if (worst < -1e-2 && wl > 1) { x.fail("rows", "a point within all limits is excluded (row %d)", (int)i); break; }
      }
    }
  }

  // the plan itself
  bct::ResultDataCOMTraj r = bct::solveEndEffector<Path>(pd, path, T, weight);
  Vec best;
  if (!r.success_) {
    x.count("failed");
    Vec q;
    Vec slackB = B;
    for (int i = 0; i < B.size(); ++i) slackB[i] -= rs[i];
    if (ref::qp(cost.H, cost.g, A, slackB, q)) {
      Vec l = A * q - B;
      if (l.maxCoeff() <= 0) { x.fail("false-failure", "no trajectory returned but a point respecting every limit exists"); return; }
    }
    x.count("failure_confirmed_infeasible");
    return;
  }
  x.count("succeeded");
  if (r.x.size() != dim) { x.fail("solution-size", "%d", (int)r.x.size()); return; }
  const Vec X = r.x;
  const auto& bz = r.c_of_t_;
  if (bz.min() != 0 || std::fabs(bz.max() - T) > 1e-12 * T) { x.fail("interval", "[%g,%g] instead of [0,%g]", bz.min(), bz.max(), T); return; }
  const Curve want = c.at(X);
  double xs = sc + X.cwiseAbs().maxCoeff();
  for (int k = 0; k <= 20; ++k) {
    double u = k / 20.;
    x.count("curve_points_compared");
    if (!((V3(bz(std::min(u * T, bz.max()))) - V3(want.eval(u).b)).cwiseAbs().maxCoeff() <= 1e-8 * xs)) { x.fail("curve", "not the curve of the reported free points at %g", u); break; }
  }
  // boundary derivatives of the returned curve, from its own control points
  {
    const auto& wp = bz.waypoints();
    std::vector<V3> P(wp.begin(), wp.end());
    const V3 b0[4] = {pd.c0_, pd.dc0_, pd.ddc0_, pd.j0_}, b1[4] = {pd.c1_, pd.dc1_, pd.ddc1_, pd.j1_};
    double f = 1;
    for (int k = 0; k < 4 && P.size() > 1; ++k) {
      double tol = 1e-8 * (1 + f * 16 * sc);
      x.count("boundary_conditions_checked", 2);
      if (!((P.front() - b0[k]).norm() <= tol)) x.fail("boundary", "derivative %d at the start is off by %g", k, (P.front() - b0[k]).norm());
      if (!((P.back() - b1[k]).norm() <= tol)) x.fail("boundary", "derivative %d at the end is off by %g", k, (P.back() - b1[k]).norm());
      std::vector<V3> Q;
      for (size_t i = 0; i + 1 < P.size(); ++i) Q.push_back((P[i + 1] - P[i]) * ((P.size() - 1) / T));
      f *= (P.size() - 1) / T;
      P = Q;
    }
  }
  for (int i = 0; i < nf; ++i)
    if (!(X[3 * i + 2] >= floor - 1e-7 * xs)) x.fail("height", "free point %d at height %.9g, ends at least at %.9g", i, X[3 * i + 2], floor);
  Vec l = A * X - B;
  for (int i = 0; i < l.size(); ++i)
    if (!(l[i] <= std::max(rs[i], 1e-9 * a[i].cwiseAbs().dot(X.cwiseAbs())))) { x.fail("limits", "row %d exceeded by %g", i, l[i]); break; }
  // optimality
  Vec q;
  Eigen::LLT<Mat> llt(cost.H);
  double cond = llt.info() == Eigen::Success ? cost.H.norm() * cost.H.inverse().norm() : 1e300;
  if (cond > 1e9) { x.count("flat_objective_skipped"); return; }
  if (!ref::qp(cost.H, cost.g, A, B + Vec::Constant(B.size(), 1e-12), q)) { x.count("reference_infeasible_boundary"); return; }
  if ((A * q - B).maxCoeff() > 1e-7 * xs) { x.count("reference_not_accurate"); return; }
  auto J2 = [&](const Vec& y) { return 0.5 * y.dot(cost.H * y) + cost.g.dot(y); };
  double js = 0.5 * std::fabs(q.dot(cost.H * q)) + std::fabs(cost.g.dot(q)) + sc * sc * 1e-3;
  x.count("optima_checked");
  if (!(J2(X) - J2(q) <= 2e-6 * js)) x.fail("suboptimal", "objective %.9g, a feasible trajectory has %.9g (scale %.3g)", J2(X), J2(q), js);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  Voc& V = voc();
  std::vector<int> edit;
  for (size_t d = 2; d < V.sp.dims.size(); ++d) edit.push_back((int)d);
  std::vector<mc::State> bases;
  for (size_t f = 0; f < 3; ++f)
    for (size_t w = 0; w < V.sp.dims[V.w].values.size(); ++w) {
      mc::State st = V.sp.zero();
      st[V.nf] = f, st[V.w] = w;
      bases.push_back(st);
    }
  int D = o.argDepth >= 0 ? o.argDepth : (o.thorough() ? 4 : 3);
  bool frames = o.prop == "C17";
  if (frames) {
    edit.erase(std::find(edit.begin(), edit.end(), V.frame));
    D = o.argDepth >= 0 ? o.argDepth : (o.thorough() ? 3 : 2);
  }
  V.sp.explore(bases, edit, [&](const mc::State&) { return D; }, [](const mc::State&) { return true; });
  auto judge = [&](const mc::State& st, Ctx& x) { frames ? checkFrames(st, x) : check(st, x); };
  if (!o.replay.empty()) {
    mc::State s = V.sp.parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { judge(s, x); });
  }
  mc::Pool pool(o);
  pool.run(V.sp.states.size(), [&](size_t i, Ctx& x) { judge(V.sp.states[i], x); },
           [&](size_t i) { return V.sp.key(V.sp.states[i]); }, V.sp.states.size(), V.sp.transitions,
           "end effector requests reachable from every (number of free points, weight) base by at most " + std::to_string(D) + " single-parameter edits");
  return 0;
}
