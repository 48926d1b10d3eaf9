// The space of CoM planning requests, their construction against the real library, and the
// reference formulation (rows, objective) built from independent mathematics.
#pragma once
#include <memory>

#include "explore.hpp"
#include "scenes.hpp"

namespace rq {
using namespace sc;
namespace s = solvers;

struct FlagInfo {
  const char* name;
  unsigned flag;
  int wDegree;  // degree of the wrench curve used by the continuous formulation
};
inline const std::vector<FlagInfo>& comFlags() {
  using namespace bct;
  static const std::vector<FlagInfo> f = {
      {"c0_dc0_dc1_c1", INIT_POS | INIT_VEL | END_VEL | END_POS, 5},
      {"c0_dc0_c1", INIT_POS | INIT_VEL | END_POS, 3},
      {"c0_dc0_dc1", INIT_POS | INIT_VEL | END_VEL, 4},
      {"c0_dc0_ddc0", INIT_POS | INIT_VEL | INIT_ACC, 3},
      {"c0_dc0_ddc0_c1", INIT_POS | INIT_VEL | INIT_ACC | END_POS, 5},
      {"c0_dc0_ddc0_dc1_c1", INIT_POS | INIT_VEL | INIT_ACC | END_VEL | END_POS, 7},
      {"c0_dc0_ddc0_ddc1_dc1_c1",
       INIT_POS | INIT_VEL | INIT_ACC | END_ACC | END_VEL | END_POS, 9},
      {"c0_dc0_ddc0_j0_j1_ddc1_dc1_c1",
       INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_JERK | END_ACC | END_VEL | END_POS, 13}};
  return f;
}

enum Kind { FIXED, DISC, CONT };
struct Form {
  const char* name;
  Kind kind;
  int points;
  double dt;
  bool force;
  bool glpk;
};
inline const std::vector<Form>& forms() {
  static const std::vector<Form> f = {
      {"fixed3", FIXED, 3, 0, false, false},    {"fixed1", FIXED, 1, 0, false, false},
      {"fixed5", FIXED, 5, 0, false, false},    {"fixed8", FIXED, 8, 0, false, false},
      {"disc0.1", DISC, 0, 0.1, false, false},  {"disc0.037", DISC, 0, 0.037, false, false},
      {"contDD", CONT, 0, -1, false, false},    {"contForce", CONT, 0, -1, true, false},
      {"disc0.1-glpk", DISC, 0, 0.1, false, true}, {"contDD-glpk", CONT, 0, -1, false, true},
      {"contForce-glpk", CONT, 0, -1, true, true}};
  return f;
}

struct Vocab {
  mc::Space sp;
  int form, flag, scene, cost, tscale, tpat, frame, c0, c1, dc0, dc1, ddc0, ddc1, j0, j1, acc, red,
      kin, mass, grav;
  Vocab() {
    std::vector<std::string> v;
    for (auto& f : forms()) v.push_back(f.name);
    form = sp.add("form", v);
    v.clear();
    for (auto& f : comFlags()) v.push_back(f.name);
    flag = sp.add("flag", v);
    v.clear();
    for (auto& x : allScenes()) v.push_back(x.name);
    scene = sp.add("scene", v);
    cost = sp.add("cost", {"acc", "dist", "endvel"});
    tscale = sp.add("tscale", {"1", "0.7", "1.6", "3", "0.15", "8"});
    tpat = sp.add("tpat", {"base", "growing", "shrinking", "tenths", "arith"});
    frame = sp.add("frame", {"id", "c0origin", "c1origin", "midorigin", "rot90", "rot180shift",
                             "mirror", "far", "west", "east"});
    c0 = sp.add("c0", {"0", "+x.04", "+y.03", "-z.05", "-x.3", "edge"});
    c1 = sp.add("c1", {"0", "+x.05", "-y.03", "+z.02", "+x1.5"});
    dc0 = sp.add("dc0", {"0", "x.1", "y.15z-.1", "x.6y.1", "x-.2", "x1.2"});
    dc1 = sp.add("dc1", {"0", "x.1", "x.2y-.1z.1", "x-.15", "y1.5"});
    ddc0 = sp.add("ddc0", {"0", "x.3", "x-.2y.4", "z.8", "x6", "y1z-6"});
    ddc1 = sp.add("ddc1", {"0", "x-.3", "y.4z.2", "z-1", "y6", "x.5z-7"});
    j0 = sp.add("j0", {"0", "x1", "y-2z1", "x-12z20"});
    j1 = sp.add("j1", {"0", "x-1", "y2z-1", "y15z-18"});
    acc = sp.add("acc", {"off10", "off0.05", "on5", "on1", "on0.4", "on0.1", "on21", "on60"});
    red = sp.add("red", {"1e-3", "0", "0.05", "0.3", "-1"});
    kin = sp.add("kin", {"box", "none", "box-skip0", "box-skipN", "tightz", "many", "onerow", "impossible", "progress", "graze"});
    mass = sp.add("mass", {"54", "1", "120", "13.7", "900"});
    grav = sp.add("grav", {"earth", "moon", "tilted"});
  }
};
inline Vocab& voc() {
  static Vocab v;
  return v;
}

struct Request {
  mc::State st;
  Form form;
  FlagInfo fl;
  Scene scene;
  Frame fr;
  double mass, dt;
  V3 grav;
  Vec Ts;
  bct::ProblemData pd;
  std::vector<std::shared_ptr<cd::Equilibrium> > eq;
  std::vector<Mat> facets;  // unit rows n: n.(w-g6) <= h
  std::vector<Vec> fh;
};

inline V3 vecOf(const std::string& s) {  // "x.1y-.2" -> vector
  V3 v(0, 0, 0);
  size_t i = 0;
  while (i < s.size()) {
    char c = s[i];
    if (c != 'x' && c != 'y' && c != 'z') { ++i; continue; }
    size_t e = i + 1;
    while (e < s.size() && s[e] != 'x' && s[e] != 'y' && s[e] != 'z') ++e;
    v[c - 'x'] = atof(s.substr(i + 1, e - i - 1).c_str());
    i = e;
  }
  return v;
}
// "+x.05" style
inline V3 offOf(const std::string& s) {
  if (s == "0") return V3::Zero();
  V3 v(0, 0, 0);
  v[s[1] - 'x'] = (s[0] == '-' ? -1 : 1) * atof(s.substr(2).c_str());
  return v;
}

// where standing still is still possible but only just: 2e-5 from the first facet met along +x
inline V3 edgePosition(const Scene& s) {
  static std::map<std::string, V3> memo;
  auto it = memo.find(s.name);
  if (it != memo.end()) return it->second;
  std::unique_ptr<cd::Equilibrium> e(makePhase(s.phases[0], 54, Frame()));
  cd::MatrixXX H;
  cd::VectorX h;
  e->getPolytopeInequalities(H, h);
  auto slack = [&](double u) {
    V3 c = s.c0 + V3(u, 0, 0), g = e->m_gravity;
    Vec w(6);
    w << -g, c.cross(-g);
    double m = 1e9;
    for (int i = 0; i < H.rows(); ++i) m = std::min(m, h[i] + H.row(i).dot(w) / H.row(i).norm());
    return m;
  };
  double lo = 0, hi = 2;
  for (int k = 0; k < 60; ++k) (slack(0.5 * (lo + hi)) > 2e-5 ? lo : hi) = 0.5 * (lo + hi);
  return memo[s.name] = s.c0 + V3(lo, 0, 0);
}

// unit: lengths are multiplied by it, durations by its square root (gravity is the same)
inline Request build(const mc::State& st, double unit = 1) {
  Vocab& V = voc();
  Request r;
  r.st = st;
  auto sv = [&](int d) -> const std::string& { return V.sp.dims[d].values[st[d]]; };
  r.form = forms()[st[V.form]];
  r.fl = comFlags()[st[V.flag]];
  static const std::vector<Scene> scenes = allScenes();
  r.scene = scenes[st[V.scene]];
  const bool edge = sv(V.c0) == "edge";
  V3 c0 = edge ? edgePosition(r.scene) : V3(r.scene.c0 + offOf(sv(V.c0))), c1 = r.scene.c1 + offOf(sv(V.c1));
  const std::string& f = sv(V.frame);
  if (f == "c0origin") r.fr.t = -unit * c0;
  else if (f == "c1origin") r.fr.t = -unit * c1;
  else if (f == "midorigin") r.fr.t = -0.5 * unit * (c0 + c1);
  else if (f == "rot90") r.fr.R << 0, -1, 0, 1, 0, 0, 0, 0, 1;
  else if (f == "rot180shift") { r.fr.R << -1, 0, 0, 0, -1, 0, 0, 0, 1; r.fr.t = V3(1.5, -2, 0.25); }
  else if (f == "mirror") { r.fr.R << 1, 0, 0, 0, -1, 0, 0, 0, 1; r.fr.t = V3(0, 0.5, 0); }
  else if (f == "far") r.fr.t = V3(-20, 12, 4);
  else if (f == "west") r.fr.t = V3(-130, -110, -70);
  else if (f == "east") r.fr.t = V3(140, 115, 80);
  r.mass = atof(sv(V.mass).c_str());
  r.fr.s = unit;
  r.dt = r.form.dt > 0 ? r.form.dt * std::sqrt(unit) : -1;
  int n = (int)r.scene.phases.size();
  r.Ts = Vec(n);
  for (int i = 0; i < n; ++i) {
    double t = r.scene.Ts[i];
    const std::string& p = sv(V.tpat);
    if (p == "growing") t *= 0.6 + 0.35 * i;
    if (p == "shrinking") t *= std::max(0.2, 1.4 - 0.2 * i);
    if (p == "tenths") t = 0.1 * (i % 3 + 2 + i) + 0.1;
    if (p == "arith") t = 0.1 * (i + 3);  // summed in another order, 5 of them exceed their sum
    r.Ts[i] = t * atof(sv(V.tscale).c_str()) * std::sqrt(unit);
  }
  bct::ProblemData& pd = r.pd;
  pd.c0_ = r.fr.point(c0);
  pd.c1_ = r.fr.point(c1);
  pd.dc0_ = std::sqrt(unit) * r.fr.dir(vecOf(sv(V.dc0)));
  pd.dc1_ = std::sqrt(unit) * r.fr.dir(vecOf(sv(V.dc1)));
  pd.ddc0_ = r.fr.dir(vecOf(sv(V.ddc0)));
  pd.ddc1_ = r.fr.dir(vecOf(sv(V.ddc1)));
  pd.j0_ = r.fr.dir(vecOf(sv(V.j0))) / std::sqrt(unit);
  pd.j1_ = r.fr.dir(vecOf(sv(V.j1))) / std::sqrt(unit);
  pd.l0_.setZero();
  pd.constraints_.flag_ = (bct::ConstraintFlag)r.fl.flag;
  const std::string& a = sv(V.acc);
  pd.constraints_.constraintAcceleration_ = a.substr(0, 2) == "on";
  pd.constraints_.maxAcceleration_ = atof(a.c_str() + (a[1] == 'n' ? 2 : 3));
  pd.constraints_.reduce_h_ = atof(sv(V.red).c_str());
  pd.costFunction_ = st[V.cost] == 0 ? bct::ACCELERATION
                     : st[V.cost] == 1 ? bct::DISTANCE_TRAVELED
                                       : bct::TARGET_END_VELOCITY;
  pd.representation_ = r.form.force ? bct::FORCE : bct::DOUBLE_DESCRIPTION;
  // contacts
  static std::map<std::string, std::shared_ptr<cd::Equilibrium> > cache;
  for (int i = 0; i < n; ++i) {
    char key[400];
    snprintf(key, sizeof key, "%s/%d/%s/%a/%a/%a/%s/%a/%s", r.scene.name.c_str(), i, f.c_str(),
             r.fr.t[0], r.fr.t[1], r.fr.t[2], sv(V.mass).c_str(), unit, sv(V.grav).c_str());
    auto& e = cache[key];
    if (!e) {
      e.reset(makePhase(r.scene.phases[i], r.mass, r.fr));
      if (st[V.grav]) setGravity(e.get(), r.fr.dir(gravityOf(sv(V.grav))));
    }
    r.grav = e->m_gravity;
    r.eq.push_back(e);
    bct::ContactData c(e.get());
    const std::string& k = sv(V.kin);
    bool has = k != "none" && !(k == "box-skip0" && i == 0) && !(k == "box-skipN" && i == n - 1);
    if (has) {
      Mat K;
      Vec kk;
      kinBox(r.scene.phases[i], r.fr, K, kk);
      if (k == "tightz" || k == "impossible") {
        V3 up = r.fr.dir(V3(0, 0, 1));
        double zlo = std::min(c0[2], c1[2]) - 0.01, zhi = std::max(c0[2], c1[2]) + 0.01;
        if (k == "impossible") { zhi = zlo - 0.005; }
        Mat K2(K.rows() + 2, 3);
        Vec k2(kk.size() + 2);
        K2 << K, up.transpose(), -up.transpose();
        k2 << kk, r.fr.bound(V3(0, 0, 1), zhi), r.fr.bound(V3(0, 0, -1), -zlo);
        K = K2;
        kk = k2;
      } else if (k == "many") {  // the same box cut by many oblique half spaces
        int m = 60;
        Mat K2(K.rows() + m, 3);
        Vec k2(kk.size() + m);
        K2.topRows(K.rows()) = K;
        k2.head(kk.size()) = kk;
        V3 mid = 0.5 * (c0 + c1);
        for (int q = 0; q < m; ++q) {
          double th = 2 * M_PI * q / m;
          V3 d(std::cos(th), std::sin(th), 0.3 * ((q % 3) - 1));
          V3 dd = r.fr.dir(d);
          K2.row(K.rows() + q) = dd.transpose();
          k2[kk.size() + q] = r.fr.bound(d, d.dot(mid) + 0.17 + 0.02 * (q % 5));
        }
        K = K2;
        kk = k2;
      } else if (k == "progress") {
        // every phase asks for some progress at its start; the rows are scaled so that all phases
        // have the same right-hand side and differ in the direction of the row only
        double t0 = 0, T = r.Ts.sum();
        for (int q = 0; q < i; ++q) t0 += r.Ts[q];
        V3 d = c1 - c0, up(0, 0, 2);
        d[2] = 0;
        d.normalize();
        double u = t0 / T, z = 2 * std::max(c0[2], c1[2]) + 0.01, b;
        V3 dir = i ? V3(up - d) : V3(up + d);
        if (i)
          b = z - d.dot(c0) - d.dot(c1 - c0) * (u * u * (3 - 2 * u) + 0.02);
        else
          b = z + d.dot(c0) + 1.5 * d.dot(c1 - c0);
        b = r.fr.bound(dir, b);
        double m = std::fabs(b) < 1e-6 ? 1 : std::fabs(b);
        K = r.fr.dir(dir).transpose() / m;
        kk = Vec::Constant(1, b / m);
      } else if (k == "graze") {
        // the start of the first phase and the goal of the last one are 2e-5 inside the limits
        V3 d = c1 - c0;
        d = d.norm() > 1e-6 ? V3(d.normalized()) : V3(1, 0, 0);
        std::vector<std::pair<V3, double> > extra;
        if (i == 0) extra.push_back(std::make_pair(V3(-d), -d.dot(c0) + 2e-5));
        if (i == n - 1) extra.push_back(std::make_pair(d, d.dot(c1) + 2e-5));
        Mat K2(K.rows() + extra.size(), 3);
        Vec k2(kk.size() + extra.size());
        K2.topRows(K.rows()) = K;
        k2.head(kk.size()) = kk;
        for (size_t q = 0; q < extra.size(); ++q) {
          K2.row(K.rows() + q) = r.fr.dir(extra[q].first).transpose();
          k2[kk.size() + q] = r.fr.bound(extra[q].first, extra[q].second);
        }
        K = K2;
        kk = k2;
      } else if (k == "onerow") {
        V3 up = r.fr.dir(V3(0, 0, 1));
        K = up.transpose();
        kk = Vec::Constant(1, r.fr.bound(V3(0, 0, 1), std::max(c0[2], c1[2]) + 0.005));
      }
      c.Kin_ = K;
      c.kin_ = kk;
    }
    pd.contacts_.push_back(c);
    delete pd.contacts_.back().contactPhase_;  // the copy made by push_back
    pd.contacts_.back().contactPhase_ = e.get();
    cd::MatrixXX H;
    cd::VectorX h;
    e->getPolytopeInequalities(H, h);
    Mat N = -H;
    for (int q = 0; q < N.rows(); ++q) N.row(q).normalize();
    r.facets.push_back(N);
    r.fh.push_back(h);
  }
  return r;
}

inline bct::ResultDataCOMTraj call(const Request& r) {
  if (r.form.kind == FIXED) return bct::computeCOMTrajFixedSize(r.pd, r.Ts, r.form.points);
#ifdef USE_GLPK_SOLVER
  s::SolverType sv = r.form.glpk ? s::SOLVER_GLPK : s::SOLVER_QUADPROG;
#else
  s::SolverType sv = s::SOLVER_QUADPROG;
#endif
  return bct::computeCOMTraj(r.pd, r.Ts, r.dt, sv);
}

// ------------------------------------------------------------- reference formulation
inline ref::Boundary boundary(const Request& r) {
  ref::Boundary B;
  using namespace bct;
  unsigned f = r.fl.flag;
  if (f & INIT_POS) B.d0.push_back(r.pd.c0_);
  if (f & INIT_VEL) B.d0.push_back(r.pd.dc0_);
  if (f & INIT_ACC) B.d0.push_back(r.pd.ddc0_);
  if (f & INIT_JERK) B.d0.push_back(r.pd.j0_);
  if ((f & END_VEL) && !(f & END_POS)) {
    B.stopAtFree = true;
    return B;
  }
  if (f & END_POS) B.d1.push_back(r.pd.c1_);
  if (f & END_VEL) B.d1.push_back(r.pd.dc1_);
  if (f & END_ACC) B.d1.push_back(r.pd.ddc1_);
  if (f & END_JERK) B.d1.push_back(r.pd.j1_);
  return B;
}

struct Instant {
  double t;
  int phase;
};
// the documented grids, as (time, phase) with both phases at a switch; `samples` lists the
// instants of the objective
inline std::vector<Instant> grid(const Request& r, const Form& f, std::vector<double>* samples) {
  std::vector<Instant> g;
  double t0 = 0;
  int n = (int)r.Ts.size();
  if (samples) samples->clear();
  for (int i = 0; i < n; ++i) {
    double t1 = t0 + r.Ts[i];
    std::vector<double> ts;
    if (f.kind == DISC) {
      for (int k = 0; t0 + k * r.dt < t1 - 1e-9; ++k) ts.push_back(t0 + k * r.dt);
      ts.push_back(t1);
      if (samples) samples->insert(samples->end(), ts.begin(), ts.end());
    } else {
      int m = f.kind == FIXED ? f.points : 7;
      for (int k = 0; k <= m; ++k) ts.push_back(t0 + r.Ts[i] * k / m);
      if (samples) samples->insert(samples->end(), ts.begin() + (i > 0), ts.end());
    }
    for (double t : ts) g.push_back(Instant{t, i});
    t0 = t1;
  }
  return g;
}

struct Reference {
  double T;
  ref::Curve c, w, dd;      // w of degree 2n-2
  std::vector<Instant> g;   // instants (discrete)
  std::vector<double> samples;
  Mat A;                    // all rows A x <= b
  Vec b;
  Mat H;                    // 1/2 x'Hx + g'x
  Vec gr;
};

inline ref::Curve reduceDegree(const ref::Curve& c, int to) {
  // exact degree reduction of a curve known to have degree <= to, by interpolation of its values
  int n = to + 1;
  Mat M(n, n);
  std::vector<ref::Aff> v;
  for (int i = 0; i < n; ++i) {
    double u = 0.5 - 0.5 * std::cos(M_PI * i / std::max(1, to));
    for (int j = 0; j < n; ++j)
      M(i, j) = ref::binom(to, j) * std::pow(u, j) * std::pow(1 - u, to - j);
    v.push_back(c.eval(u));
  }
  Mat I = M.inverse();
  ref::Curve r;
  r.T = c.T;
  for (int i = 0; i < n; ++i) {
    ref::Aff a = ref::affZero(c.rows(), c.dim());
    for (int j = 0; j < n; ++j) {
      a.A += I(i, j) * v[j].A;
      a.b += I(i, j) * v[j].b;
    }
    r.p.push_back(a);
  }
  return r;
}

inline Vec g6(const Request& r) {
  Vec v = Vec::Zero(6);
  v.head<3>() = r.grav;
  return v;
}

// build reference rows; `asDiscrete` overrides the formulation (to compare formulations)
inline Reference reference(const Request& r, bool rows = true) {
  Reference R;
  R.T = r.Ts.sum();
  R.c = ref::boundaryCurve(boundary(r), R.T);
  R.dd = R.c.derivative().derivative();
  R.w = ref::wrenchCurve(R.c, r.grav);
  R.g = grid(r, r.form, &R.samples);
  // objective
  R.H = Mat::Zero(3, 3);
  R.gr = Vec::Zero(3);
  if (r.pd.costFunction_ == bct::ACCELERATION) {
    for (double t : R.samples) {
      ref::Aff a = R.dd.eval(t / R.T);
      R.H += a.A.transpose() * a.A;
      R.gr += a.A.transpose() * a.b;
    }
  } else if (r.pd.costFunction_ == bct::DISTANCE_TRAVELED) {
    R.H = Mat::Identity(3, 3);
    R.gr = -0.5 * (r.pd.c0_ + r.pd.c1_);
  } else {
    ref::Aff v = R.c.derivative().eval(1.0);
    R.H = v.A.transpose() * v.A;
    R.gr = v.A.transpose() * (v.b - Vec(r.pd.dc1_));
  }
  if (!rows) return R;
  std::vector<Eigen::RowVector3d> A;
  std::vector<double> b;
  Vec g = g6(r);
  double red = std::max(0.0, r.pd.constraints_.reduce_h_);
  if (r.form.force) red = 0;
  double am = r.pd.constraints_.maxAcceleration_;
  bool acc = r.pd.constraints_.constraintAcceleration_;
  auto stab = [&](const ref::Aff& w, int ph) {
    Mat a = r.facets[ph] * w.A;
    Vec h = r.fh[ph] - Vec::Constant(r.fh[ph].size(), red) - r.facets[ph] * (w.b - g);
    for (int i = 0; i < a.rows(); ++i) { A.push_back(a.row(i)); b.push_back(h[i]); }
  };
  auto kin = [&](const ref::Aff& c, int ph) {
    const auto& cd_ = r.pd.contacts_[ph];
    if (cd_.kin_.size() == 0) return;
    Mat a = cd_.Kin_ * c.A;
    Vec h = cd_.kin_ - cd_.Kin_ * c.b;
    for (int i = 0; i < a.rows(); ++i) { A.push_back(a.row(i)); b.push_back(h[i]); }
  };
  auto accel = [&](const ref::Aff& d) {
    for (int i = 0; i < 3; ++i) {
      A.push_back(d.A.row(i)); b.push_back(am - d.b[i]);
      A.push_back(-d.A.row(i)); b.push_back(am + d.b[i]);
    }
  };
  if (r.form.kind != CONT) {
    for (auto& in : R.g) {
      double u = std::min(1.0, in.t / R.T);
      stab(R.w.eval(u), in.phase);
      kin(R.c.eval(u), in.phase);
      if (acc) accel(R.dd.eval(u));
    }
  } else {
    ref::Curve w = R.w.degree() > r.fl.wDegree ? reduceDegree(R.w, r.fl.wDegree) : R.w;
    double t = 0;
    for (int i = 0; i < r.Ts.size(); ++i) {
      double u0 = t / R.T, u1 = std::min(1.0, (t + r.Ts[i]) / R.T);
      t += r.Ts[i];
      for (auto& p : w.sub(u0, u1).p) stab(p, i);
      for (auto& p : R.c.sub(u0, u1).p) kin(p, i);
      if (acc)
        for (auto& p : R.dd.sub(u0, u1).p) accel(p);
    }
  }
  R.A = Mat(A.size(), 3);
  R.b = Vec(A.size());
  for (size_t i = 0; i < A.size(); ++i) {
    R.A.row(i) = A[i];
    R.b[i] = b[i];
  }
  return R;
}

// the set of requests explored for the planning properties
inline bool meaningful(const mc::State& s) {
  Vocab& V = voc();
  const auto& fl = comFlags()[s[V.flag]];
  bool endvel = fl.flag & bct::END_VEL;
  if (endvel && s[V.cost] == 2) return false;                                  // must throw: C11
  if (endvel && !(fl.flag & bct::END_POS) && s[V.dc1] != 0) return false;      // must throw: C11
  if (s[V.cost] == 2 && (fl.flag & bct::END_JERK)) return false;
  // nine phases of contact forces are thousands of variables
  if (forms()[s[V.form]].force && V.sp.dims[V.scene].values[s[V.scene]] == "walk9" && (fl.wDegree > 5)) return false;
  return true;
}

}  // namespace rq
