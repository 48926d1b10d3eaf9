// C07: exhaustive exploration of zero-step capturability queries.
#include "explore.hpp"
#include "scenes.hpp"
using namespace sc;
using mc::Ctx;
using ref::Aff;
using ref::Curve;

namespace {
struct Voc {
  mc::Space sp;
  int am, step, contact, c0, dc0, l0, T, kin, ang, frame, mass, unused, grav;
  Voc() {
    am = sp.add("am", {"no", "yes"});
    step = sp.add("step", {"cont", "T/4", "T/1", "T/2", "T/8", "T/32", "2T"});
    contact = sp.add("contact", {"flat3/0", "flat3/1", "flat3/2", "walk5/2", "plat3/2", "wall1/0", "lift3/1", "swap2/1"});
    c0 = sp.add("c0", {"mid", "+x.05", "-y.06", "+z.03y.02", "x.2", "z-.2x.1"});
    dc0 = sp.add("dc0", {"0", "x.1", "x.2y.1", "x-.3y.2z.1", "x.6", "y-.4z-.3", "x1.5", "z.8", "x-.05y.02z.01"});
    l0 = sp.add("l0", {"0", "x.5", "y-1z.3", "x4y2", "z8", "x30", "x-.02y.01z.03"});
    T = sp.add("T", {"0.8", "0.3", "1", "1.7", "0.1", "3"});
    kin = sp.add("kin", {"none", "box", "ahead", "onerow", "impossible", "many"});
    ang = sp.add("ang", {"none", "box", "off", "onerow", "impossible", "many"});
    frame = sp.add("frame", {"id", "c0origin", "rot90", "far", "mirror", "east-low"});
    mass = sp.add("mass", {"54", "1", "120", "900"});
    // members of the problem description that do not concern this query
    unused = sp.add("unused", {"default", "c1", "flags", "acc", "dist", "reduce"});
    grav = sp.add("grav", {"earth", "moon", "tilted"});
  }
};
Voc& voc() {
  static Voc v;
  return v;
}
V3 vecOf(const std::string& s) {
  V3 v(0, 0, 0);
  size_t i = 0;
  while (i < s.size()) {
    char c = s[i];
    if (c != 'x' && c != 'y' && c != 'z') { ++i; continue; }
    size_t e = i + 1;
    while (e < s.size() && s[e] != 'x' && s[e] != 'y' && s[e] != 'z') ++e;
    v[c - 'x'] = atof(s.substr(i + 1, e - i - 1).c_str());
    i = e;
  }
  return v;
}

struct Query {
  bct::ProblemData pd;
  std::vector<double> Ts;
  double step;
  int num;  // number of steps, 0: continuous
  bool am;
  double mass;
  V3 g;
  Frame fr;
  std::shared_ptr<cd::Equilibrium> eq;
  Mat facets;
  Vec fh;
};

// rows of a polytope around point p
void polytope(const std::string& k, const V3& p, double s, const Frame& fr, Mat& K, Vec& kk) {
  std::vector<V3> d;
  std::vector<double> b;
  auto add = [&](const V3& n, double v) { d.push_back(n); b.push_back(v); };
  if (k == "box" || k == "impossible" || k == "off" || k == "ahead") {
    V3 o = p;
    if (k == "off") o += s * V3(1.4, -0.3, 0.2);
    if (k == "ahead") o += s * V3(0.4, 0.1, 0);
    for (int a = 0; a < 3; ++a) {
      add(V3::Unit(a), o[a] + s);
      add(-V3::Unit(a), -o[a] + s);
    }
    if (k == "ahead" || k == "off") { d[1] *= 2; b[1] = 2 * (-o[0] + 0.9 * s); }
    if (k == "impossible") { add(V3(1, 1, 0), p[0] + p[1] - 3 * s); }
  } else if (k == "onerow") {
    add(V3(0.5, -0.2, 1), V3(0.5, -0.2, 1).dot(p) - 0.3 * s);
  } else if (k == "many") {
    for (int q = 0; q < 50; ++q) {
      double th = 2 * M_PI * q / 50;
      V3 n(std::cos(th), std::sin(th), 0.4 * ((q % 3) - 1));
      add(n, n.dot(p) + s * (0.5 + 0.1 * (q % 4)));
    }
  }
  K = Mat(d.size(), 3);
  kk = Vec(d.size());
  for (size_t i = 0; i < d.size(); ++i) {
    K.row(i) = fr.dir(d[i]).transpose();
    kk[i] = fr.bound(d[i], b[i]);
  }
}

Query build(const mc::State& st) {
  Voc& V = voc();
  auto sv = [&](int d) -> const std::string& { return V.sp.dims[d].values[st[d]]; };
  Query q;
  static const std::vector<Scene> scenes = allScenes();
  std::string cn = sv(V.contact).substr(0, sv(V.contact).find('/'));
  int ph = atoi(sv(V.contact).c_str() + cn.size() + 1);
  const Scene* sc0 = nullptr;
  for (auto& s : scenes)
    if (s.name == cn) sc0 = &s;
  const PhaseSpec& spec = sc0->phases[ph];
  V3 mid(0, 0, 0);
  int nf = 0;
  for (auto& f : spec.feet)
    if (f.normal[2] > 0.5) { mid += f.pos; ++nf; }
  mid /= nf;
  V3 c0(mid[0], mid[1], 0.795);
  if (sv(V.c0) != "mid") {
    std::string o = sv(V.c0);
    V3 off;
    if (o[0] == '+' || o[0] == '-') {
      std::string r = o.substr(1);
      off = vecOf(r);
      if (o[0] == '-') off = -off;
    } else
      off = vecOf(o);
    c0 += off;
  }
  Frame fr;
  const std::string& f = sv(V.frame);
  if (f == "c0origin") fr.t = -c0;
  if (f == "rot90") fr.R << 0, -1, 0, 1, 0, 0, 0, 0, 1;
  if (f == "far") fr.t = V3(-20, 12, 4);
  if (f == "east-low") fr.t = V3(31, -7, -5);
  if (f == "mirror") fr.R << 1, 0, 0, 0, -1, 0, 0, 0, 1;
  q.fr = fr;
  Frame rot = fr;  // angular momentum does not move with the origin and is a pseudo-vector
  rot.t.setZero();
  rot.R *= fr.R.determinant();
  q.mass = atof(sv(V.mass).c_str());
  q.am = st[V.am] == 1;
  double T = atof(sv(V.T).c_str());
  q.Ts.assign(1, T);
  const std::string& s = sv(V.step);
  q.num = 0;
  q.step = -1;
  if (s[0] == 'T') { q.num = atoi(s.c_str() + 2); q.step = T / q.num; }
  if (s == "2T") q.step = 2 * T;
  q.pd.c0_ = fr.point(c0);
  q.pd.dc0_ = fr.dir(vecOf(sv(V.dc0)));
  q.pd.l0_ = rot.dir(vecOf(sv(V.l0)) * (q.mass / 54));
  q.pd.useAngularMomentum_ = q.am;
  const std::string& u = sv(V.unused);
  if (u == "c1") { q.pd.c1_ = V3(5, -6, 7); q.pd.dc1_ = V3(1, 2, 3); q.pd.ddc0_ = V3(-4, 5, 6); q.pd.j1_ = V3(2, 2, 2); }
  if (u == "flags") q.pd.constraints_.flag_ = bct::INIT_POS | bct::INIT_VEL | bct::END_ACC;
  if (u == "acc") { q.pd.constraints_.constraintAcceleration_ = true; q.pd.constraints_.maxAcceleration_ = 0.001; }
  if (u == "dist") q.pd.costFunction_ = bct::TARGET_END_VELOCITY;
  if (u == "reduce") q.pd.constraints_.reduce_h_ = 1;
  static std::map<std::string, std::shared_ptr<cd::Equilibrium> > cache;
  char key[300];
  snprintf(key, sizeof key, "%s/%s/%a/%a/%a/%a/%s", sv(V.contact).c_str(), f.c_str(), fr.t[0], fr.t[1], fr.t[2], q.mass, sv(V.grav).c_str());
  auto& e = cache[key];
  if (!e) {
    e.reset(makePhase(spec, q.mass, fr));
    if (st[V.grav]) setGravity(e.get(), fr.dir(gravityOf(sv(V.grav))));
  }
  q.eq = e;
  q.g = e->m_gravity;
  bct::ContactData c(e.get());
  Mat K;
  Vec k;
  polytope(sv(V.kin), c0, 0.12, fr, K, k);
  if (K.rows()) { c.Kin_ = K; c.kin_ = k; }
  polytope(sv(V.ang), 0.75 * vecOf(sv(V.l0)) * (q.mass / 54), 1, rot, K, k);
  if (K.rows()) { c.Ang_ = K; c.ang_ = k; }
  q.pd.contacts_.push_back(c);
  delete q.pd.contacts_.back().contactPhase_;
  q.pd.contacts_.back().contactPhase_ = e.get();
  cd::MatrixXX H;
  cd::VectorX h;
  e->getPolytopeInequalities(H, h);
  q.facets = -H;
  for (int r = 0; r < q.facets.rows(); ++r) q.facets.row(r).normalize();
  q.fh = h;
  return q;
}

// reference: variables (x, xL); wrench per unit mass, including the angular momentum rate
struct Reference {
  Curve c, w, dL;
  Mat A, H;
  Vec b, gr;
};
Aff widen(const Aff& a, int dim, int at) {
  Aff r = ref::affZero((int)a.b.size(), dim);
  r.A.block(0, at, a.A.rows(), a.A.cols()) = a.A;
  r.b = a.b;
  return r;
}
Reference reference(const Query& q) {
  Reference R;
  int dim = q.am ? 6 : 3;
  double T = q.Ts[0];
  ref::Boundary B;
  B.d0 = {q.pd.c0_, q.pd.dc0_};
  B.stopAtFree = true;
  Curve c = ref::boundaryCurve(B, T), w = ref::wrenchCurve(c, q.g);
  R.c.T = R.w.T = R.dL.T = T;
  for (auto& p : c.p) R.c.p.push_back(widen(p, dim, 0));
  for (auto& p : w.p) R.w.p.push_back(widen(p, dim, 0));
  // momentum L: cubic with control points l0, xL, 0, 0; its derivative
  Curve L;
  L.T = T;
  L.p.push_back(Aff{Mat::Zero(3, dim), q.pd.l0_});
  Aff f = ref::affZero(3, dim);
  if (q.am) f.A.block(0, 3, 3, 3).setIdentity();
  L.p.push_back(f);
  L.p.push_back(ref::affZero(3, dim));
  L.p.push_back(ref::affZero(3, dim));
  R.dL = L.derivative();
  if (q.am) {
    Curve e = R.dL.elevate(R.w.degree());
    for (size_t i = 0; i < R.w.p.size(); ++i) {
      R.w.p[i].A.bottomRows(3) += e.p[i].A / q.mass;
      R.w.p[i].b.tail(3) += e.p[i].b / q.mass;
    }
  }
  std::vector<Vec> rows;
  std::vector<double> rhs;
  Vec g6 = Vec::Zero(6);
  g6.head<3>() = q.g;
  auto stab = [&](const Aff& a) {
    Mat m = q.facets * a.A;
    Vec v = q.fh - q.facets * (a.b - g6);
    for (int i = 0; i < m.rows(); ++i) { rows.push_back(m.row(i)); rhs.push_back(v[i]); }
  };
  if (q.num == 0)
    for (auto& p : R.w.p) stab(p);
  else
    for (int i = 0; i <= q.num; ++i) stab(R.w.eval((double)i / q.num));
  const auto& cd_ = q.pd.contacts_[0];
  for (int i = 0; i < cd_.kin_.size(); ++i) {
    Vec r = Vec::Zero(dim);
    r.head<3>() = cd_.Kin_.row(i);
    rows.push_back(r);
    rhs.push_back(cd_.kin_[i]);
  }
  if (q.am)
    for (int i = 0; i < cd_.ang_.size(); ++i) {
      Vec r = Vec::Zero(dim);
      r.tail<3>() = cd_.Ang_.row(i);
      rows.push_back(r);
      rhs.push_back(cd_.ang_[i]);
    }
  R.A = Mat(rows.size(), dim);
  R.b = Vec(rows.size());
  for (size_t i = 0; i < rows.size(); ++i) { R.A.row(i) = rows[i]; R.b[i] = rhs[i]; }
  // objective: distance to c0, and (weight 1 against 1e-4) the integral of |dL|^2
  R.H = Mat::Zero(dim, dim);
  R.gr = Vec::Zero(dim);
  double wd = q.am ? 1e-4 : 1;
  R.H.block(0, 0, 3, 3) = wd * Mat::Identity(3, 3);
  R.gr.head(3) = -wd * q.pd.c0_;
  if (q.am) {
    R.H.block(3, 3, 3, 3) = 6.0 / 5 * Mat::Identity(3, 3);
    R.gr.tail(3) = -0.9 * q.pd.l0_;
  }
  return R;
}

std::string Vs(const Vec& v) {
  std::string s = "(";
  char b[40];
  for (int i = 0; i < v.size() && i < 8; ++i) {
    snprintf(b, sizeof b, "%s%.9g", i ? "," : "", v[i]);
    s += b;
  }
  return s + ")";
}
double objective(const Reference& R, const Vec& x) { return 0.5 * x.dot(R.H * x) + R.gr.dot(x); }

void check(const mc::State& st, Ctx& x) {
  Query q = build(st);
  double T = q.Ts[0];
  bct::ResultDataCOMTraj o;
  x.count("impl_runs");
  try {
    o = bct::solve0step(q.pd, q.Ts, q.step);
  } catch (const std::exception& e) {
    x.fail("exception", "%s", e.what());
    return;
  }
  Reference R = reference(q);
  int dim = q.am ? 6 : 3;
  // row norms, to express margins as distances
  Vec nr(R.b.size());
  for (int i = 0; i < nr.size(); ++i) nr[i] = R.A.row(i).norm();
  if (!o.success_) {
    x.count("failed");
    // is there a motion satisfying everything with a margin?
    Vec h(R.b.size());
    double mg = 1e-4;
    for (int i = 0; i < h.size(); ++i) h[i] = -(R.b[i] - mg * std::max(nr[i], 1e-3));
    Vec z;
    // well scaled least-norm point in coordinates around the reference objective
    bool ok = ref::qp(Mat::Identity(dim, dim), Vec(R.A.transpose() * Vec::Zero(R.A.rows())), R.A, -h, z);
    if (ok && (R.A * z - R.b).maxCoeff() <= 0)
      x.fail("false-failure", "%s satisfies every constraint, with margin", Vs(z).c_str());
    else
      x.count("failure_confirmed_infeasible");
    return;
  }
  x.count("succeeded");
  if (o.x.size() != dim || !o.x.allFinite()) { x.fail("x", "solution %s", Vs(o.x).c_str()); return; }
  Vec xs = o.x;
  V3 xc = xs.head<3>();
  double sc = 1 + xc.norm() + q.pd.c0_.norm();
  const auto& c = o.c_of_t_;
  if (!(std::fabs(c.min()) <= 1e-12 && std::fabs(c.max() - T) <= 1e-9 * T)) { x.fail("interval", "[%g,%g]", c.min(), c.max()); return; }
  if (!((V3(c(0)) - q.pd.c0_).norm() <= 1e-9 * sc)) x.fail("c0", "starts at %s", Vs(c(0)).c_str());
  if (!((V3(c.derivate(0, 1)) - q.pd.dc0_).norm() <= 1e-8 * sc / T)) x.fail("dc0", "starts with velocity %s", Vs(c.derivate(0, 1)).c_str());
  if (!(V3(c.derivate(c.max(), 1)).norm() <= 1e-8 * sc / T)) x.fail("rest", "ends with velocity %s", Vs(c.derivate(c.max(), 1)).c_str());
  if (!((V3(c(c.max())) - xc).norm() <= 1e-9 * sc)) x.fail("end", "ends at %s, x=%s", Vs(c(c.max())).c_str(), Vs(xs).c_str());
  const auto& dL = o.dL_of_t_;
  Curve rc = R.c.at(xs), rl = R.dL.at(xs), rw = R.w.at(xs);
  if (!(std::fabs(dL.min()) <= 1e-12 && std::fabs(dL.max() - T) <= 1e-9 * T)) { x.fail("dL interval", "[%g,%g]", dL.min(), dL.max()); return; }
  double ls = 1 + q.pd.l0_.norm() + (q.am ? xs.tail(3).norm() : 0);
  for (int i = 0; i <= 10; ++i) {
    double u = i / 10.0, t = std::min(u * T, std::min(c.max(), dL.max()));
    x.count("curve_points_compared");
    if (!((V3(c(t)) - V3(rc.eval(u).b)).norm() <= 1e-8 * sc)) { x.fail("curve", "c(%g)=%s expected %s", t, Vs(c(t)).c_str(), Vs(rc.eval(u).b).c_str()); break; }
    Vec want = q.am ? rl.eval(u).b : Vec(Vec::Zero(3));
    Vec got = dL(t);
    if (!(got.size() == 3 && (got - want).norm() <= 1e-8 * ls / T)) { x.fail("dL", "dL(%g)=%s expected %s", t, Vs(got).c_str(), Vs(want).c_str()); break; }
  }
  // the momentum is absorbed: integral of dL over [0,T] is -l0 (Simpson is exact for degree 2)
  if (q.am) {
    V3 I = (V3(dL(0)) + 4 * V3(dL(T / 2)) + V3(dL(dL.max()))) * (T / 6);
    if (!((I + q.pd.l0_).norm() <= 1e-8 * ls)) x.fail("momentum", "the momentum changes by %s, initial %s", Vs(I).c_str(), Vs(q.pd.l0_).c_str());
  }
  // wrench actually produced by the returned curves
  Vec g6 = Vec::Zero(6);
  g6.head<3>() = q.g;
  auto at = [&](double t, bool cone) {
    V3 p = c(t), a = c.derivate(t, 2);
    Vec w(6);
    w.head<3>() = a - q.g;
    w.tail<3>() = p.cross(a - q.g);
    if (q.am) w.tail<3>() += V3(dL(t)) / q.mass;
    Vec s = q.facets * w - q.fh;
    int k;
    double m = s.maxCoeff(&k) / std::max(1.0, w.norm());
    x.count("wrenches_checked");
    if (!(m <= 1e-5)) { x.fail("wrench", "t=%g facet %d exceeded by %g", t, k, m); return false; }
    if (cone && ref::coneDistance(-q.eq->m_G_centr, w) > 1e-5) { x.fail("cone", "t=%g: wrench out of the contact cone", t); return false; }
    return true;
  };
  if (q.num) {
    for (int i = 0; i <= q.num; ++i)
      if (!at(std::min(T * i / q.num, c.max()), i % 8 == 0)) return;
  } else {
    for (int i = 0; i <= 16; ++i)
      if (!at(std::min(T * i / 16.0, c.max()), i % 4 == 0)) return;
    double wn = 1;
    for (auto& p : rw.p) wn = std::max(wn, (p.b - g6).norm());
    for (int f = 0; f < q.facets.rows(); ++f) {
      std::vector<double> v;
      for (auto& p : rw.p) v.push_back(q.facets.row(f).dot(p.b - g6) - q.fh[f]);
      x.count("facet_intervals_decided");
      if (ref::bernMax(v, 1e-5 * wn) > 1e-5 * wn) { x.fail("wrench-interval", "facet %d exceeded inside [0,T]", f); return; }
    }
  }
  const auto& cd_ = q.pd.contacts_[0];
  if (cd_.kin_.size()) {
    double m = (cd_.Kin_ * xc - cd_.kin_).maxCoeff();
    if (!(m <= 1e-6 * sc)) x.fail("kinematic", "exceeded by %g at the rest position", m);
  }
  if (q.am && cd_.ang_.size()) {
    double m = (cd_.Ang_ * V3(xs.tail<3>()) - cd_.ang_).maxCoeff();
    if (!(m <= 1e-6 * ls)) x.fail("angular", "limit exceeded by %g", m);
  }
  // optimality
  Vec best;
  if (ref::qp(R.H, R.gr, R.A, R.b + Vec::Constant(R.b.size(), 1e-12), best)) {
    double viol = (R.A * best - R.b).maxCoeff();
    double J = objective(R, xs), Jb = objective(R, best);
    double js = std::max(1e-9, 0.5 * std::fabs(xs.dot(R.H * xs)) + std::fabs(R.gr.dot(xs)) + 1e-3 * R.H.norm());
    if (viol <= 0 || (viol <= 1e-9 * (1 + best.norm()) && J - Jb <= 1e-6 * js)) {
      x.count("optima_checked");
      if (J - Jb > 1e-6 * js) x.fail("suboptimal", "objective %.9g at %s, %.9g at feasible %s", J, Vs(xs).c_str(), Jb, Vs(best).c_str());
    } else {
      // the reference is slightly outside: take the first feasible point towards the interior
      Vec h = R.b, in;
      for (int i = 0; i < h.size(); ++i) h[i] -= 1e-4 * std::max(nr[i], 1e-3);
      bool decided = false;
      if (ref::qp(Mat::Identity(dim, dim), Vec(-best), R.A, h, in) && (R.A * in - R.b).maxCoeff() <= 0)
        for (double l = 1e-9; l < 0.1 && !decided; l *= 2) {
          Vec f = best + l * (in - best);
          if ((R.A * f - R.b).maxCoeff() > 0) continue;
          decided = true;
          if (l > 1e-3) x.count("optima_checked_loosely");
          else x.count("optima_checked");
          if (J - objective(R, f) > 1e-6 * js) x.fail("suboptimal", "objective %.9g at %s, %.9g at feasible %s", J, Vs(xs).c_str(), objective(R, f), Vs(f).c_str());
        }
      if (!decided) x.count("reference_not_accurate");
    }
  } else
    x.count("reference_infeasible_boundary");
  double cost;
  if (q.am) {
    // T * integral of |dL|^2, from the returned curve (degree 4: Boole's rule is exact)
    double I = 0;
    const double wB[5] = {7, 32, 12, 32, 7};
    for (int i = 0; i < 5; ++i) I += wB[i] * V3(dL(std::min(T * i / 4, dL.max()))).squaredNorm();
    cost = T * T * I / 90;
  } else
    cost = (xc - q.pd.c0_).norm();
  if (!(std::fabs(cost - o.cost_) <= 1e-7 * (1 + std::fabs(cost)) * (q.am ? ls : sc))) x.fail("cost", "reported %.9g, actual %.9g", o.cost_, cost);
}

// C17: the same query in the other frames, and (without angular momentum) for other masses
void checkFrames(const mc::State& st, Ctx& x) {
  Voc& V = voc();
  Query a = build(st);
  bct::ResultDataCOMTraj ra = bct::solve0step(a.pd, a.Ts, a.step);
  x.count("impl_runs");
  Reference R = reference(a);
  const int dim = a.am ? 6 : 3;
  // requests whose feasibility hangs on rounding are left out
  Vec up = R.b, in = R.b, z;
  for (int i = 0; i < up.size(); ++i) {
    double m = 1e-4 * std::max(R.A.row(i).norm(), 1e-3);
    up[i] += m, in[i] -= m;
  }
  Vec zero = Vec::Zero(dim);
  auto feasible = [&](const Vec& h) { return ref::qp(Mat::Identity(dim, dim), zero, R.A, h, z) && (R.A * z - h).maxCoeff() <= 1e-8; };
  if (feasible(up) != feasible(in)) { x.count("borderline_skipped"); return; }
  auto compare = [&](const mc::State& s, const std::string& what) {
    Query b = build(s);
    Frame map;
    map.R = b.fr.R * a.fr.R.transpose();
    map.t = b.fr.t - map.R * a.fr.t;
    // the friction pyramids of inclined contacts do not turn with the contact (they belong to
    // hpp-centroidal-dynamics): only requests with the same admissible forces are compared
    for (int k = 0; k < a.eq->m_G_centr.cols(); ++k) {
      Vec w = a.eq->m_G_centr.col(k);
      V3 f = map.R * V3(w.head<3>());
      w.tail<3>() = map.R.determinant() * (map.R * V3(w.tail<3>())) + map.t.cross(f);
      w.head<3>() = f;
      if (ref::coneDistance(b.eq->m_G_centr, w) > 1e-7) { x.count("other_friction_pyramid_skipped"); return; }
    }
    bct::ResultDataCOMTraj rb = bct::solve0step(b.pd, b.Ts, b.step);
    x.count("impl_runs");
    x.count("transformed_pairs");
    if (ra.success_ != rb.success_) { x.fail(what.c_str(), "success %d -> %d", (int)ra.success_, (int)rb.success_); return; }
    if (!ra.success_) return;
    // the objective of the first query at the solution of the other one, brought back
    Vec y = rb.x;
    y.head<3>() = map.R.transpose() * (V3(y.head<3>()) - map.t);
    if (a.am) y.tail<3>() = map.R.determinant() * (map.R.transpose() * V3(y.tail<3>()));
    double Ja = objective(R, ra.x), Jb = objective(R, y);
    double js = std::max(1e-9, 0.5 * std::fabs(ra.x.dot(R.H * ra.x)) + std::fabs(R.gr.dot(ra.x)) + 1e-3 * R.H.norm());
    if (!(std::fabs(Ja - Jb) <= 2e-5 * js)) x.fail(what.c_str(), "objective %.9g -> %.9g", Ja, Jb);
    // strict convexity decides how well the objective determines the solution
    double d = (ra.x - y).norm(), lmin = a.am ? 1e-4 : 1;
    if (!(0.5 * lmin * d * d <= 1e-4 * js)) x.fail(what.c_str(), "the solution moves by %g", d);
    for (int i = 0; i <= 4; ++i) {
      double u = i / 4.0;
      V3 p = map.point(ra.c_of_t_(u * ra.c_of_t_.max())), q = rb.c_of_t_(u * rb.c_of_t_.max());
      if (!((p - q).norm() <= d + 1e-6 * (1 + p.norm()))) { x.fail(what.c_str(), "at u=%g the motion differs by %g", u, (p - q).norm()); break; }
    }
  };
  for (size_t f = 0; f < V.sp.dims[V.frame].values.size(); ++f) {
    mc::State s = st;
    s[V.frame] = (unsigned char)f;
    if (s != st) compare(s, "capturability-frame-" + V.sp.dims[V.frame].values[f]);
  }
  if (!a.am)
    for (size_t f = 1; f < V.sp.dims[V.mass].values.size(); ++f) {
      mc::State s = st;
      s[V.mass] = (unsigned char)f;
      compare(s, "capturability-mass-" + V.sp.dims[V.mass].values[f]);
    }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  Voc& V = voc();
  std::vector<int> edit;
  for (size_t d = 2; d < V.sp.dims.size(); ++d) edit.push_back((int)d);
  std::vector<mc::State> bases;
  for (size_t a = 0; a < 2; ++a)
    for (size_t s = 0; s < V.sp.dims[V.step].values.size(); ++s) {
      mc::State st = V.sp.zero();
      st[V.am] = (unsigned char)a;
      st[V.step] = (unsigned char)s;
      bases.push_back(st);
    }
  int D = o.argDepth >= 0 ? o.argDepth : (o.thorough() ? 4 : 3);
  bool frames = o.prop == "C17";
  if (frames) {
    for (int d : {V.frame, V.mass}) edit.erase(std::find(edit.begin(), edit.end(), d));
    if (o.argDepth < 0) --D;
  }
  auto judge = [&](const mc::State& st, Ctx& x) { frames ? checkFrames(st, x) : check(st, x); };
  V.sp.explore(bases, edit, [&](const mc::State&) { return D; }, [&](const mc::State& s) {
    return s[V.am] || (s[V.l0] <= 1 && s[V.ang] <= 1);  // unused without angular momentum
  });
  if (!o.replay.empty()) {
    mc::State s = V.sp.parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { judge(s, x); });
  }
  mc::Pool pool(o);
  pool.run(V.sp.states.size(), [&](size_t i, Ctx& x) { judge(V.sp.states[i], x); },
           [&](size_t i) { return V.sp.key(V.sp.states[i]); }, V.sp.states.size(), V.sp.transitions,
           "capturability queries reachable from every (momentum, time step) base by at most " + std::to_string(D) +
               " single-parameter edits");
  return 0;
}
