// C01-C06, C16, C17: exhaustive exploration of CoM planning requests.
#include "request.hpp"
using namespace rq;
using mc::Ctx;

namespace {
std::string V3s(const Vec& v) {
  std::string s = "(";
  char b[40];
  for (int i = 0; i < v.size() && i < 8; ++i) {
    snprintf(b, sizeof b, "%s%.9g", i ? "," : "", v[i]);
    s += b;
  }
  return s + ")";
}
bool finite(const Vec& v) { return v.allFinite(); }

// outcome of a call; exceptions are an outcome too
struct Out {
  bool threw = false;
  std::string what;
  bct::ResultDataCOMTraj r;
};
Ctx* g_ctx = nullptr;
Out callSafe(const Request& r) {
  if (g_ctx) g_ctx->count("impl_runs");
  Out o;
  try {
    o.r = call(r);
  } catch (const std::exception& e) {
    o.threw = true;
    o.what = e.what();
  } catch (...) {
    o.threw = true;
    o.what = "unknown";
  }
  return o;
}


// the trajectory as a reference curve interpolating the returned one, through its public
// evaluation operator only (degree of the returned curve is not assumed)
struct Traj {
  const bct::ResultDataCOMTraj& r;
  double T;
  V3 c(double t) const { return r.c_of_t_(t); }
  V3 d(double t, int k) const { return r.c_of_t_.derivate(t, k); }
};

void checkC01(const Request& r, const bct::ResultDataCOMTraj& o, Ctx& x) {
  double T = r.Ts.sum();
  if (!(std::fabs(o.c_of_t_.min()) <= 1e-9 && std::fabs(o.c_of_t_.max() - T) <= 1e-9 * (1 + T)))
    x.fail("interval", "curve is on [%g,%g], durations sum to %g", o.c_of_t_.min(), o.c_of_t_.max(), T);
  if (o.x.size() != 3 || !finite(o.x)) { x.fail("x", "free point %s", V3s(o.x).c_str()); return; }
  if (o.c_of_t_.dim() != 3) { x.fail("dim", "curve dimension %d", (int)o.c_of_t_.dim()); return; }
  double t0 = o.c_of_t_.min(), t1 = o.c_of_t_.max();
  double scale = 1 + o.x.cwiseAbs().maxCoeff() + r.pd.c0_.norm() + r.pd.c1_.norm();
  using namespace bct;
  struct { unsigned bit; int k; bool end; const V3* v; const char* n; } B[] = {
      {INIT_POS, 0, false, &r.pd.c0_, "initial position"},
      {INIT_VEL, 1, false, &r.pd.dc0_, "initial velocity"},
      {INIT_ACC, 2, false, &r.pd.ddc0_, "initial acceleration"},
      {INIT_JERK, 3, false, &r.pd.j0_, "initial jerk"},
      {END_POS, 0, true, &r.pd.c1_, "final position"},
      {END_VEL, 1, true, &r.pd.dc1_, "final velocity"},
      {END_ACC, 2, true, &r.pd.ddc1_, "final acceleration"},
      {END_JERK, 3, true, &r.pd.j1_, "final jerk"}};
  for (auto& b : B) {
    if (!(r.fl.flag & b.bit)) continue;
    V3 v = b.k == 0 ? V3(o.c_of_t_(b.end ? t1 : t0)) : V3(o.c_of_t_.derivate(b.end ? t1 : t0, b.k));
    double tol = 1e-8 * scale * std::pow(10.0 / std::min(1.0, T), b.k);
    x.count("boundary_conditions_checked");
    if (!((v - *b.v).norm() <= tol))
      x.fail(b.n, "%s is %s, requested %s", b.n, V3s(v).c_str(), V3s(*b.v).c_str());
  }
  V3 dv = o.c_of_t_.derivate(t1, 1), da = o.c_of_t_.derivate(t1, 2);
  if (!((dv - o.dc1_).norm() <= 1e-8 * scale * 10 / std::min(1., T)))
    x.fail("reported dc1", "reported %s curve %s", V3s(o.dc1_).c_str(), V3s(dv).c_str());
  if (!((da - o.ddc1_).norm() <= 1e-8 * scale * 100 / std::min(1., T * T)))
    x.fail("reported ddc1", "reported %s curve %s", V3s(o.ddc1_).c_str(), V3s(da).c_str());
  // the curve is the one the free point defines
  ref::Curve c = ref::boundaryCurve(boundary(r), T).at(o.x.head<3>());
  for (int i = 0; i <= 12; ++i) {
    double u = i / 12.0;
    V3 v = o.c_of_t_(t0 + u * (t1 - t0));
    if (!finite(v)) { x.fail("finite", "curve not finite"); return; }
    if (!((v - V3(c.eval(u).b)).norm() <= 1e-8 * scale)) {
      x.fail("free point", "curve at u=%g is %s, the free point gives %s", u, V3s(v).c_str(), V3s(c.eval(u).b).c_str());
      break;
    }
  }
  if (!(std::fabs(o.dL_of_t_.min()) < 1e-9 && std::fabs(o.dL_of_t_.max() - T) < 1e-9 * (1 + T)))
    x.fail("dL interval", "dL on [%g,%g]", o.dL_of_t_.min(), o.dL_of_t_.max());
  else
    for (int i = 0; i <= 4; ++i) {
      Vec l = o.dL_of_t_(o.dL_of_t_.max() * i / 4.0);
      if (l.size() != 3 || !(l.norm() <= 1e-12)) { x.fail("dL", "angular momentum rate %s", V3s(l).c_str()); break; }
    }
}

struct WAt {
  Vec w;  // w - g6
};
Vec wrenchAt(const Traj& tr, double t, const V3& g) {
  V3 c = tr.c(t), dd = tr.d(t, 2);
  Vec w(6);
  w.head<3>() = dd - g;
  w.tail<3>() = c.cross(dd - g);
  return w;
}

void checkC02(const Request& r, const bct::ResultDataCOMTraj& o, Ctx& x, double& worst) {
  double T = r.Ts.sum();
  Traj tr{o, T};
  double red = r.form.force ? 0 : std::max(0.0, r.pd.constraints_.reduce_h_);
  // the linear solver accepts violations relative to the terms of a row, not to their sum
  ref::Curve wx;
  if (r.form.glpk) wx = ref::wrenchCurve(ref::boundaryCurve(boundary(r), T), r.grav);
  auto pointCheck = [&](double t, int ph, bool cone) {
    Vec w = wrenchAt(tr, std::min(t, o.c_of_t_.max()), r.grav);
    Vec s = r.facets[ph] * w - r.fh[ph];
    int wi;
    double m = s.maxCoeff(&wi) + red;
    double terms = r.form.glpk ? wx.eval(std::min(1., t / T)).A.norm() * o.x.norm() : 0;
    double rel = m / std::max(std::max(1.0, w.norm()), terms);
    worst = std::max(worst, rel);
    x.count("wrenches_checked");
    if (!(rel <= 1e-5)) {
      x.fail("wrench", "t=%.6g phase %d: facet %d exceeded by %.3g (margin %g, |w|=%.3g)", t, ph, wi, m, red, w.norm());
      return false;
    }
    if (cone) {
      double d = ref::coneDistance(-r.eq[ph]->m_G_centr, w);
      x.count("cone_memberships_checked");
      if (!(d <= 1e-5)) {
        x.fail("cone", "t=%.6g phase %d: wrench is at relative distance %.3g from the contact force cone", t, ph, d);
        return false;
      }
    }
    return true;
  };
  if (r.form.kind != CONT) {
    for (auto& in : grid(r, r.form, nullptr))
      if (!pointCheck(in.t, in.phase, true)) return;
    return;
  }
  // continuous: exact over the whole interval, by subdivision of Bernstein forms of every facet
  ref::Curve c = ref::boundaryCurve(boundary(r), T).at(o.x.head<3>());
  ref::Curve w = ref::wrenchCurve(c, r.grav);
  Vec g = g6(r);
  double t = 0;
  for (int i = 0; i < r.Ts.size(); ++i) {
    double te = t + r.Ts[i];
    for (int k = 0; k <= 8; ++k)
      if (!pointCheck(t + r.Ts[i] * k / 8, i, k % 4 == 0)) return;
    ref::Curve s = w.sub(t / T, std::min(1.0, te / T));
    double wn = 1;
    for (auto& p : s.p) wn = std::max(wn, (p.b - g).norm());
    double tol = 1e-5 * wn;
    for (int f = 0; f < r.facets[i].rows(); ++f) {
      std::vector<double> q;
      for (auto& p : s.p) q.push_back(r.facets[i].row(f).dot(p.b - g) - r.fh[i][f] + red);
      double m = ref::bernMax(q, tol);
      x.count("facet_intervals_decided");
      if (m > tol) {
        x.fail("wrench-interval", "phase %d facet %d exceeded by %.3g inside the phase", i, f, m);
        return;
      }
    }
    t = te;
  }
}

void checkC03(const Request& r, const bct::ResultDataCOMTraj& o, Ctx& x, double& worst) {
  double T = r.Ts.sum();
  double tol = 1e-6;
  auto at = [&](double t, int ph) {
    const auto& c = r.pd.contacts_[ph];
    if (!c.kin_.size()) return true;
    V3 p = o.c_of_t_(std::min(t, o.c_of_t_.max()));
    Vec s = c.Kin_ * p - c.kin_;
    int k;
    double m = s.maxCoeff(&k);
    worst = std::max(worst, m);
    x.count("kinematic_points_checked");
    if (!(m <= tol * (1 + p.norm()))) {
      x.fail("kinematic", "t=%.6g phase %d: row %d exceeded by %.3g", t, ph, k, m);
      return false;
    }
    return true;
  };
  if (r.form.kind != CONT) {
    for (auto& in : grid(r, r.form, nullptr))
      if (!at(in.t, in.phase)) return;
    return;
  }
  ref::Curve c = ref::boundaryCurve(boundary(r), T).at(o.x.head<3>());
  double t = 0;
  for (int i = 0; i < r.Ts.size(); ++i) {
    double te = t + r.Ts[i];
    const auto& cdt = r.pd.contacts_[i];
    for (int k = 0; k <= 4; ++k)
      if (!at(t + r.Ts[i] * k / 4, i)) return;
    ref::Curve s = c.sub(t / T, std::min(1.0, te / T));
    for (int f = 0; f < cdt.kin_.size(); ++f) {
      std::vector<double> q;
      for (auto& p : s.p) q.push_back(cdt.Kin_.row(f).dot(V3(p.b)) - cdt.kin_[f]);
      double tl = tol * (1 + s.p[0].b.norm());
      double m = ref::bernMax(q, tl);
      x.count("kinematic_intervals_decided");
      if (m > tl) { x.fail("kinematic-interval", "phase %d row %d exceeded by %.3g inside the phase", i, f, m); return; }
    }
    t = te;
  }
}

void checkC04(const Request& r, const Out& out, Ctx& x) {
  const auto& cs = r.pd.constraints_;
  const auto& o = out.r;
  if (!cs.constraintAcceleration_) {
    // the value of the limit must be irrelevant
    for (double lim : {0.01, 1000.0}) {
      Request q = r;
      q.pd.constraints_.maxAcceleration_ = lim;
      Out p = callSafe(q);
      for (auto& c : q.pd.contacts_) delete c.contactPhase_;  // made by the copy
      x.count("unused_limit_pairs");
      if (p.threw != out.threw || p.r.success_ != o.success_) {
        x.fail("unused-limit", "limit %g instead of %g (not requested) changes success %d -> %d", lim,
               cs.maxAcceleration_, (int)o.success_, (int)p.r.success_);
        return;
      }
      if (o.success_ && !((p.r.x - o.x).norm() <= 1e-7 * (1 + o.x.norm()))) {
        x.fail("unused-limit", "limit %g instead of %g (not requested) changes x %s -> %s", lim,
               cs.maxAcceleration_, V3s(o.x).c_str(), V3s(p.r.x).c_str());
        return;
      }
    }
    return;
  }
  if (!o.success_) return;
  double T = r.Ts.sum(), am = cs.maxAcceleration_, tol = 1e-5 * (1 + am);
  ref::Curve dd = ref::boundaryCurve(boundary(r), T).at(o.x.head<3>()).derivative().derivative();
  auto at = [&](double t) {
    V3 a = o.c_of_t_.derivate(std::min(t, o.c_of_t_.max()), 2);
    double m = a.cwiseAbs().maxCoeff() - am;
    x.count("accelerations_checked");
    if (!(m <= tol)) { x.fail("acceleration", "t=%.6g: %s, limit %g", t, V3s(a).c_str(), am); return false; }
    return true;
  };
  for (auto& in : grid(r, r.form, nullptr))
    if (!at(in.t)) return;
  if (r.form.kind == CONT)
    for (int k = 0; k < 3; ++k)
      for (int sg = -1; sg <= 1; sg += 2) {
        std::vector<double> q;
        for (auto& p : dd.p) q.push_back(sg * p.b[k] - am);
        x.count("acceleration_intervals_decided");
        double m = ref::bernMax(q, tol);
        if (m > tol) { x.fail("acceleration-interval", "axis %d exceeds the limit by %.3g", k, m); return; }
      }
}

void checkC05(const Request& r, const Out& o, Ctx& x) {
  if (o.threw) { x.fail("exception", "well-formed request raised: %s", o.what.c_str()); return; }
  if (o.r.success_) { x.count("succeeded"); return; }
  Reference R = reference(r);
  x.count("failed");
  // rows that do not depend on the free point decide by themselves; 1e-5 is far above the
  // tolerance of the solvers and far below any margin the library documents
  bool bound = false;
  for (int i = 0; i < R.b.size(); ++i)
    if (R.A.row(i).norm() < 1e-9) {
      if (R.b[i] < 1e-5) { x.count("failure_confirmed_boundary_conditions"); return; }
      if (R.b[i] < 1e-3) bound = true;
      R.b[i] = std::max(R.b[i], 1.);
    }
  if (bound) x.count("boundary_conditions_close_to_a_limit");
  ref::Margin m = ref::margin(R.A, R.b);
  if (r.form.glpk && m.s > 1e-4) {
    // the linear solver minimises the linear part of the objective: no optimum exists when the
    // feasible set has a direction of recession along which that part decreases
    int n = (int)R.b.size();
    double gn = R.gr.norm();
    if (gn > 1e-12) {
      Mat A2(n + 1, 3);
      Vec b2 = Vec::Constant(n + 1, 1e-9);
      for (int i = 0; i < n; ++i) A2.row(i) = R.A.row(i) / std::max(1e-12, R.A.row(i).norm());
      A2.row(n) = R.gr.transpose() / gn;
      b2[n] = -1;
      if (ref::margin(A2, b2).s > -1e-7) { x.count("failure_confirmed_unbounded"); return; }
    }
  }
  // margin: radius of a ball of feasible points
  if (m.s > 1e-4) {
    // independent confirmation of the witness
    double v = (R.A * m.x - R.b).maxCoeff();
    if (v <= 0)
      x.fail("false-failure", "x=%s satisfies every constraint with margin %.3g (rows %d)", V3s(m.x).c_str(), m.s, (int)R.b.size());
  } else
    x.count("failure_confirmed_infeasible");
}

double objective(const Reference& R, const Vec& x) { return 0.5 * x.dot(R.H * x) + R.gr.dot(x); }

double regularisation(const Request& r, const Reference& R, const Vec& xs) {
  // 1/2 1e-6 |f|^2 of one admissible choice of forces for the motion xs
  double s = 0, t = 0;
  ref::Curve w = R.w.degree() > r.fl.wDegree ? reduceDegree(R.w, r.fl.wDegree) : R.w;
  for (int i = 0; i < r.Ts.size(); ++i) {
    ref::Curve q = w.sub(t / R.T, std::min(1.0, (t + r.Ts[i]) / R.T));
    t += r.Ts[i];
    for (auto& p : q.p) {
      Vec z;
      Vec v = r.mass * (p.at(xs) - g6(r));
      if (ref::coneDistance(-r.eq[i]->m_G_centr, v, &z) > 1e-6) return 1e300;
      s += z.squaredNorm();
    }
  }
  return 0.5e-6 * s;
}

void checkC06(const Request& r, const Out& o, Ctx& x) {
  if (o.threw || !o.r.success_ || r.form.glpk || o.r.x.size() != 3) return;
  Reference R = reference(r);
  Vec xl = o.r.x.head<3>();
  double J = objective(R, xl);
  double jscale = std::max(1e-9, R.H.norm() * (0.1 + xl.squaredNorm()) + R.gr.norm() * xl.norm());
  Eigen::SelfAdjointEigenSolver<Mat> es(R.H);
  bool pd = es.eigenvalues()[0] > 1e-9 * std::max(1.0, es.eigenvalues()[2]);
  x.count("optima_checked");
  Vec xs;
  if (!pd) { x.count("flat_objective_skipped"); return; }
  // tolerance: allow constraint violations of the order of the solver's
  if (!ref::qp(R.H, R.gr, R.A, R.b + Vec::Constant(R.b.size(), 1e-12), xs)) { x.count("reference_infeasible_boundary"); return; }
  double viol = (R.A * xs - R.b).maxCoeff();
  if (viol > 1e-6) { x.count("reference_not_accurate"); return; }
  double Js = objective(R, xs);
  double slack = 1e-6 * jscale;
  if (r.form.force) slack += regularisation(r, R, xs);
  if (slack > 1e200) { x.count("force_bound_not_available"); return; }
  double g = J - Js;
  if (g > slack)
    x.fail("suboptimal", "objective %.9g at x=%s but %.9g at feasible x=%s (slack %.3g)", J, V3s(xl).c_str(), Js, V3s(xs).c_str(), slack);
  if (!r.form.force) {
    // strictly convex: the solution is unique
    double lmin = es.eigenvalues()[0];
    double d = (xl - xs).norm();
    if (0.5 * lmin * d * d > 10 * slack)
      x.fail("different-optimum", "x=%s, unique optimum %s", V3s(xl).c_str(), V3s(xs).c_str());
    if (!(std::fabs(o.r.cost_ - J) <= 1e-6 * jscale))
      x.fail("reported-cost", "reported %.9g, objective at the solution %.9g", o.r.cost_, J);
  } else if (!(o.r.cost_ >= J - 1e-5 * jscale && o.r.cost_ <= Js + slack + 1e-5 * jscale))
    x.fail("reported-cost", "reported %.9g, objective %.9g, optimum %.9g, slack %.3g", o.r.cost_, J, Js, slack);
}

int g_pairs;
// C16: equivalent formulations
void checkC16(const mc::State& st, Ctx& x) {
  Vocab& V = voc();
  auto with = [&](const char* form) {
    mc::State s = st;
    s[V.form] = (unsigned char)V.sp.val(V.form, form);
    return build(s);
  };
  Request a = with("contDD"), b = with("contForce"), c = with("contDD-glpk");
  Out oa = callSafe(a), ob = callSafe(b), oc = callSafe(c);
  if (oa.threw || ob.threw || oc.threw) { x.fail("exception", "%s%s%s", oa.what.c_str(), ob.what.c_str(), oc.what.c_str()); return; }
  x.count("formulation_triples");
  Reference R = reference(a);
  ref::Margin m = ref::margin(R.A, R.b);
  bool clear = std::fabs(m.s) > 1e-3;
  x.count(clear ? (m.s > 0 ? "clearly_feasible" : "clearly_infeasible") : "on_the_boundary");
  if (clear && oa.r.success_ != ob.r.success_)
    x.fail("dd-vs-force", "double description %s, force %s (reference margin %.3g)", oa.r.success_ ? "succeeds" : "fails", ob.r.success_ ? "succeeds" : "fails", m.s);
  if (clear && oa.r.success_ != oc.r.success_)
    x.fail("qp-vs-lp", "quadratic solver %s, linear solver %s (reference margin %.3g)", oa.r.success_ ? "succeeds" : "fails", oc.r.success_ ? "succeeds" : "fails", m.s);
  if (oa.r.success_ && ob.r.success_ && clear) {
    double Ja = objective(R, oa.r.x.head<3>()), Jb = objective(R, ob.r.x.head<3>());
    double jscale = std::max(1e-9, R.H.norm() * (0.1 + oa.r.x.squaredNorm()) + R.gr.norm() * oa.r.x.norm());
    double reg = regularisation(a, R, oa.r.x.head<3>());
    if (reg < 1e200 && Jb - Ja > reg + 1e-5 * jscale)
      x.fail("force-worse", "objective: double description %.9g, force %.9g (regularisation %.3g)", Ja, Jb, reg);
    if (Ja - Jb > 1e-3 * jscale)
      x.fail("dd-worse", "objective: double description %.9g, force %.9g", Ja, Jb);
  }
  if (m.s > 1e-3 && oa.r.success_)
    for (const char* f : {"fixed1", "fixed3", "fixed8", "disc0.1", "disc0.037", "disc0.1-glpk"}) {
      Request d = with(f);
      Out od = callSafe(d);
      x.count("discretised_comparisons");
      if (od.threw || !od.r.success_)
        x.fail("cont-vs-disc", "continuous finds a motion (margin %.3g), %s fails %s", m.s, f, od.what.c_str());
    }
}

// C17: the same request in other frames / time scales / masses
void checkC17(const mc::State& st, Ctx& x) {
  Vocab& V = voc();
  Request a = build(st);
  a.pd.constraints_.reduce_h_ = 0;
  Out oa = callSafe(a);
  if (oa.threw) { x.fail("exception", "%s", oa.what.c_str()); return; }
  // feasibility of the reference, to leave borderline requests out
  Reference R = reference(a);
  ref::Margin m = ref::margin(R.A, R.b);
  if (std::fabs(m.s) <= 1e-3) { x.count("borderline_skipped"); return; }
  Eigen::SelfAdjointEigenSolver<Mat> es(R.H);
  bool unique = es.eigenvalues()[0] > 1e-9 * std::max(1.0, es.eigenvalues()[2]);
  auto compare = [&](const char* what, Request& b, const Frame& map, double ts, bool solution) {
    Out ob = callSafe(b);
    x.count("transformed_pairs");
    if (ob.threw) { x.fail(what, "raised %s", ob.what.c_str()); return; }
    if (ob.r.success_ != oa.r.success_) {
      x.fail(what, "success %d -> %d (reference margin %.3g)", (int)oa.r.success_, (int)ob.r.success_, m.s);
      return;
    }
    if (!oa.r.success_ || !solution) return;
    // curvature of the objective decides how well the solution is determined
    double scale = 1 + a.pd.c0_.norm() + b.pd.c0_.norm();
    for (int i = 0; i <= 6; ++i) {
      double u = i / 6.0;
      V3 p = map.point(oa.r.c_of_t_(u * oa.r.c_of_t_.max())), q = ob.r.c_of_t_(u * ob.r.c_of_t_.max());
      if (!((p - q).norm() <= 2e-4 * scale)) {
        x.fail(what, "at u=%g: expected %s got %s", u, V3s(p).c_str(), V3s(q).c_str());
        return;
      }
    }
    (void)ts;
  };
  bool strict = !a.form.glpk && !a.form.force && unique;
  if (strict) x.count("requests_with_unique_optimum");
  Frame id;
  for (size_t f = 1; f < V.sp.dims[V.frame].values.size(); ++f) {
    mc::State s = st;
    s[V.frame] = (unsigned char)f;
    Request b = build(s);
    b.pd.constraints_.reduce_h_ = 0;
    Frame map;  // from the frame of a to the frame of b
    map.R = b.fr.R * a.fr.R.transpose();
    map.t = b.fr.t - map.R * a.fr.t;
    compare(("frame-" + V.sp.dims[V.frame].values[f]).c_str(), b, map, 1, strict);
  }
  for (size_t f = 1; f < V.sp.dims[V.mass].values.size(); ++f) {
    mc::State s = st;
    s[V.mass] = (unsigned char)f;
    Request b = build(s);
    b.pd.constraints_.reduce_h_ = 0;
    compare(("mass-" + V.sp.dims[V.mass].values[f]).c_str(), b, id, 1, strict);
  }
  // units: lengths x4 (x1/4), durations x2 (x1/2): gravity keeps its value
  for (double un : {0.25, 4.0}) {
    Request b = build(st, un);
    b.pd.constraints_.reduce_h_ = 0;
    Frame map;  // both requests are in frame a.fr
    map.s = un;
    map.t = b.fr.t - un * a.fr.t;
    compare(un < 1 ? "units-shrunk" : "units-grown", b, map, un, strict);
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  Vocab& V = voc();
  bool T = o.thorough();
  std::vector<int> edit;
  for (size_t d = 2; d < V.sp.dims.size(); ++d) edit.push_back((int)d);
  std::vector<mc::State> bases;
  const std::string& P = o.prop;
  bool pairs = P == "C16" || P == "C17";
  for (size_t f = 0; f < forms().size(); ++f)
    for (size_t g = 0; g < comFlags().size(); ++g) {
      if (P == "C16" && f != 0) continue;
      mc::State s = V.sp.zero();
      s[V.form] = (unsigned char)f;
      s[V.flag] = (unsigned char)g;
      if (P == "C16") s[V.red] = (unsigned char)V.sp.val(V.red, "0");
      bases.push_back(s);
    }
  if (P == "C16") edit.erase(std::find(edit.begin(), edit.end(), V.red));
  if (P == "C17") {
    for (int d : {V.red, V.frame, V.mass, V.tscale}) edit.erase(std::find(edit.begin(), edit.end(), d));
  }
  auto depth = [&](const mc::State& b) {
    if (o.argDepth >= 0) return o.argDepth;
    bool force = forms()[b[V.form]].force;
    int D = 2;
    if (force || pairs) D = 1;
    if (comFlags()[b[V.flag]].flag & bct::END_JERK) D = 1;
    if (P == "C17" && !T) {
      // one solver / grid of each kind gets the edits, the others only their base requests
      std::string f = forms()[b[V.form]].name;
      if (f != "fixed3" && f != "disc0.1" && f != "contDD" && f != "disc0.1-glpk" && f != "contForce") D = 0;
    }
    return D + (T ? 1 : 0);
  };
  auto ok = [&](const mc::State& s) {
    // the force-based problem of the degree 13 wrench curve has thousands of variables
    if (P == "C17" && forms()[s[V.form]].force && (comFlags()[s[V.flag]].flag & bct::END_JERK)) return false;
    return meaningful(s);
  };
  V.sp.explore(bases, edit, depth, ok);
  double worst = 0;
  auto exec = [&](const mc::State& st, Ctx& x) {
    g_ctx = &x;
    if (P == "C16") { checkC16(st, x); return; }
    if (P == "C17") { checkC17(st, x); return; }
    Request r = build(st);
    Out out = callSafe(r);
    if (P == "C05") checkC05(r, out, x);
    else if (P == "C04") checkC04(r, out, x);
    else if (P == "C06") checkC06(r, out, x);
    else if (!out.threw && out.r.success_) {
      x.count("successful_plans");
      worst = 0;
      if (P == "C01") checkC01(r, out.r, x);
      if (P == "C02") checkC02(r, out.r, x, worst);
      if (P == "C03") checkC03(r, out.r, x, worst);
      if (worst > 1e-8) x.count("worst>1e-8");
      if (worst > 1e-7) x.count("worst>1e-7");
      if (worst > 1e-6) x.count("worst>1e-6");
      if (worst > 1e-5) x.count("worst>1e-5");
      if (worst > 1e-4) x.count("worst>1e-4");
    } else
      x.count(out.threw ? "raised" : "failed_plans");
  };
  if (!o.replay.empty()) {
    mc::State s = V.sp.parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { exec(s, x); });
  }
  mc::Pool pool(o);
  pool.run(
      V.sp.states.size(), [&](size_t i, Ctx& x) { exec(V.sp.states[i], x); },
      [&](size_t i) { return V.sp.key(V.sp.states[i]); }, V.sp.states.size(), V.sp.transitions,
      "requests reachable from every formulation x constraint-set base by the stated number of "
      "single-parameter edits (2; 1 for force-based or jerk-constrained requests and for paired "
      "checks; one more in the thorough tier)");
  return 0;
}
