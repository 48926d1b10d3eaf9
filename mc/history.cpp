// C13: results depend only on the request. Histories of calls, in-place edits, copies and discards
// are executed on the real library, each in a process of its own; every call's result must be bit
// for bit the one the same request gives in a process that did nothing before. The heap of the two
// processes is filled with different bytes, so memory nobody wrote cannot agree by accident.
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <malloc.h>

#include "explore.hpp"
#include "scenes.hpp"

namespace {
using namespace sc;
using mc::Ctx;
namespace s = solvers;

struct Voc {
  mc::Space sp;
  int form, flag, scene, cost, c0, c1, dc0, dc1, ddc0, j0, l0, Ts, step, kin, ang, mass, acc, red, bad, ddc1, j1, path, weight, grav;
  Voc() {
    form = sp.add("form", {"contDD", "disc", "fixed", "contForce", "contDD-glpk", "disc-glpk", "contForce-glpk", "zerostep", "zerostep-disc",
                           "zerostep-ang", "endeff1", "endeff3", "endeff5", "qp", "lp"});
    flag = sp.add("flag", {"c0_dc0_dc1_c1", "c0_dc0_c1", "c0_dc0_dc1", "c0_dc0_ddc0", "c0_dc0_ddc0_c1", "c0_dc0_ddc0_dc1_c1",
                           "c0_dc0_ddc0_ddc1_dc1_c1", "jerk", "unsupported"});
    scene = sp.add("scene", {"swap2", "flat1", "flat3", "wall1", "shift1", "swap2b"});
    cost = sp.add("cost", {"acc", "dist", "endvel", "unknown"});
    c0 = sp.add("c0", {"0", "x.04", "y.03"});
    c1 = sp.add("c1", {"0", "x.05", "z.02", "x1.5"});
    dc0 = sp.add("dc0", {"0", "x.1", "x.3y.1"});
    dc1 = sp.add("dc1", {"0", "x.1"});
    ddc0 = sp.add("ddc0", {"0", "x.3"});
    j0 = sp.add("j0", {"0", "x1"});
    l0 = sp.add("l0", {"0", "x.05"});
    Ts = sp.add("Ts", {"1", "0.7", "tail", "short", "moved", "d1", "d2"});
    step = sp.add("step", {"0.1", "0.05"});
    kin = sp.add("kin", {"box", "none", "tight", "impossible", "lower"});
    ang = sp.add("ang", {"none", "box"});
    mass = sp.add("mass", {"54", "13.7"});
    acc = sp.add("acc", {"off10", "off0.1", "on5", "on0.4"});
    red = sp.add("red", {"1e-3", "0.05"});
    bad = sp.add("bad", {"no", "missing-duration", "no-contact"});
    ddc1 = sp.add("ddc1", {"0", "x-.2"});
    j1 = sp.add("j1", {"0", "y1"});
    path = sp.add("path", {"arc", "straight", "wave"});
    weight = sp.add("weight", {"middle", "smooth"});
    grav = sp.add("grav", {"earth", "moon"});
  }
};
Voc& voc() { static Voc v; return v; }
typedef mc::State State;
// two more scenes, with as many contacts as flat1 and swap2 but elsewhere
const std::vector<Scene>& scenes() {
  static std::vector<Scene> v;
  if (v.empty()) {
    v = allScenes();
    for (const char* n : {"flat1", "swap2"})
      for (size_t i = 0; i < v.size(); ++i)
        if (v[i].name == n) {
          Scene s = v[i];
          s.name = s.name == "flat1" ? "shift1" : "swap2b";
          V3 o(0.7, -0.4, 0.1);
          for (auto& p : s.phases) {
            for (auto& f : p.feet) f.pos += o;
            p.mu = 0.4;
          }
          s.c0 += o, s.c1 += o;
          v.push_back(s);
          break;
        }
  }
  return v;
}
const Scene& sceneOf(const State& st) {
  for (auto& x : scenes())
    if (x.name == voc().sp.dims[voc().scene].values[st[voc().scene]]) return x;
  abort();
}
V3 vecOf(const std::string& t) {
  V3 v(0, 0, 0);
  for (size_t i = 0; i < t.size();)
    if (t[i] >= 'x' && t[i] <= 'z') {
      size_t e = i + 1;
      while (e < t.size() && !(t[e] >= 'x' && t[e] <= 'z')) ++e;
      v[t[i] - 'x'] = atof(t.substr(i + 1, e - i - 1).c_str());
      i = e;
    } else
      ++i;
  return v;
}
bool isEE(int f) { return f >= 10 && f <= 12; }
bool isZero(int f) { return f >= 7 && f <= 9; }
bool isSolver(int f) { return f >= 13; }

struct Slot {
  bct::ProblemData pd;
  Vec Ts;
  std::vector<double> Tv;
  State st;
};
void contactArrays(const PhaseSpec& ph, bct::MatrixX3& P, bct::MatrixX3& N) {
  std::vector<V3> p, n;
  for (auto& f : ph.feet) footPoints(f, p, n);
  P.resize(p.size(), 3), N.resize(p.size(), 3);
  for (size_t i = 0; i < p.size(); ++i) P.row(i) = p[i].transpose(), N.row(i) = n[i].transpose();
}
double massOf(const State& st) { return st[voc().mass] ? 13.7 : 54; }
cd::Equilibrium* newEq(double mass) { return new cd::Equilibrium("mc", mass, 4, cd::SOLVER_LP_QPOASES, true, 0, false); }
void setContacts(cd::Equilibrium* e, const PhaseSpec& ph) {
  bct::MatrixX3 P, N;
  contactArrays(ph, P, N);
  if (!e->setNewContacts(P, N, ph.mu, cd::EQUILIBRIUM_ALGORITHM_PP)) abort();
}
// gives `sl` the request `st`; what exists already is edited in place
void put(Slot& sl, const State& st) {
  Voc& V = voc();
  auto sv = [&](int d) -> const std::string& { return V.sp.dims[d].values[st[d]]; };
  bct::ProblemData& pd = sl.pd;
  const int form = st[V.form];
  const bool had = sl.st.size() == st.size();
  const Scene& sc = sceneOf(st);
  int np = isEE(form) || isSolver(form) || st[V.bad] == 2 ? 0 : isZero(form) ? 1 : (int)sc.phases.size();
  while ((int)pd.contacts_.size() > np) {
    delete pd.contacts_.back().contactPhase_;
    pd.contacts_.pop_back();
  }
  for (int i = 0; i < np; ++i) {
    bool fresh = i >= (int)pd.contacts_.size();
    if (fresh) {
      pd.contacts_.push_back(bct::ContactData());
      pd.contacts_.back().contactPhase_ = newEq(massOf(st));
    } else if (pd.contacts_[i].contactPhase_->m_mass != massOf(st)) {
      // another robot at the same address
      cd::Equilibrium* e = pd.contacts_[i].contactPhase_;
      e->~Equilibrium();
      new (e) cd::Equilibrium("mc", massOf(st), 4, cd::SOLVER_LP_QPOASES, true, 0, false);
      fresh = true;
    }
    bct::ContactData& c = pd.contacts_[i];
    setGravity(c.contactPhase_, gravityOf(sv(V.grav)));
    if (fresh || !had || sl.st[V.scene] != st[V.scene]) setContacts(c.contactPhase_, sc.phases[i]);
    Mat K;
    Vec k;
    kinBox(sc.phases[i], Frame(), K, k);
    if (st[V.kin] == 1) {
      c.Kin_ = Eigen::Matrix3d::Zero();
      c.kin_ = Vec::Zero(0);
    } else {
      if (st[V.kin] == 4) {
        for (int q = 0; q < K.rows(); ++q)
          if (K(q, 2) > 0) k[q] -= 0.1;
      } else if (st[V.kin] >= 2) {
        K.conservativeResize(K.rows() + 2, 3);
        k.conservativeResize(k.size() + 2);
        K.bottomRows(2) << 0, 0, 1, 0, 0, -1;
        double lo = std::min(sc.c0[2], sc.c1[2]) - 0.01, hi = std::max(sc.c0[2], sc.c1[2]) + 0.01;
        if (st[V.kin] == 3) hi = lo - 0.01;
        k.tail(2) << hi, -lo;
      }
      c.Kin_ = K;
      c.kin_ = k;
    }
    if (st[V.ang] && isZero(form)) {
      Mat A(6, 3);
      A << Eigen::Matrix3d::Identity(), -Eigen::Matrix3d::Identity();
      c.Ang_ = A;
      c.ang_ = Vec::Constant(6, 0.4);
    } else {
      c.Ang_ = Eigen::Matrix3d::Zero();
      c.ang_ = Vec::Zero(0);
    }
  }
  V3 c0 = sc.c0, c1 = sc.c1;
  if (isEE(form)) c0 = V3(0.1, -0.2, 0.05), c1 = V3(0.4, 0.1, 0.1);
  pd.c0_ = c0 + vecOf(sv(V.c0));
  pd.c1_ = c1 + vecOf(sv(V.c1));
  pd.dc0_ = vecOf(sv(V.dc0));
  pd.dc1_ = vecOf(sv(V.dc1));
  pd.ddc0_ = vecOf(sv(V.ddc0));
  pd.ddc1_ = vecOf(sv(V.ddc1));
  pd.j0_ = vecOf(sv(V.j0));
  pd.j1_ = vecOf(sv(V.j1));
  pd.l0_ = vecOf(sv(V.l0));
  pd.useAngularMomentum_ = form == 9;
  using namespace bct;
  const int PV = INIT_POS | INIT_VEL, AV = PV | INIT_ACC, J8 = 0xff;
  const int F[9] = {PV | END_VEL | END_POS, PV | END_POS, PV | END_VEL, AV, AV | END_POS, AV | END_VEL | END_POS,
                    AV | END_ACC | END_VEL | END_POS, J8, INIT_POS | END_ACC};
  int fl = F[st[V.flag]];
  if (isEE(form) && st[V.flag] != 8) fl = form == 10 ? J8 : form == 11 ? J8 | THREE_FREE_VAR : J8 | FIVE_FREE_VAR;
  pd.constraints_.flag_ = (ConstraintFlag)fl;
  const std::string& a = sv(V.acc);
  pd.constraints_.constraintAcceleration_ = a[1] == 'n';
  pd.constraints_.maxAcceleration_ = atof(a.c_str() + (a[1] == 'n' ? 2 : 3));
  pd.constraints_.reduce_h_ = atof(sv(V.red).c_str());
  const int CC[4] = {ACCELERATION, DISTANCE_TRAVELED, TARGET_END_VELOCITY, UNKNOWN_COST};
  pd.costFunction_ = (CostFunction)CC[st[V.cost]];
  pd.representation_ = form == 3 || form == 6 ? FORCE : DOUBLE_DESCRIPTION;
  int nt = isEE(form) || isSolver(form) ? 1 : isZero(form) ? 1 : (int)sc.phases.size();
  if (st[V.bad] == 1) --nt;
  sl.Ts = Vec(nt);
  for (int i = 0; i < nt; ++i) {
    double t = sc.Ts[i];
    // multiples of 1/16: sums are exact, and d1 and d2 have the same one
    if (st[V.Ts] >= 5) t = std::round(t * 16) / 16;
    if (st[V.Ts] == 6 && i < 2 && nt > 1) t += i ? -0.125 : 0.125;
    if (st[V.Ts] == 1) t *= 0.7;
    if (st[V.Ts] == 2 && i == nt - 1) t += 0.2;
    if (st[V.Ts] == 3) t *= 0.4;
    if (st[V.Ts] == 4 && i < 2 && nt > 1) t += i ? -0.125 : 0.125;  // the same total
    sl.Ts[i] = t;
  }
  sl.Tv.assign(sl.Ts.data(), sl.Ts.data() + nt);
  sl.st = st;
}

// -------------------------------------------------------------------------- serialisation
struct Bytes {
  std::string b;
  void raw(const void* p, size_t n) { b.append((const char*)p, n); }
  void d(double v) { if (v == 0) v = 0; raw(&v, sizeof v); }
  void i(long v) { raw(&v, sizeof v); }
  template <typename M> void m(const M& x) {
    i(x.rows()), i(x.cols());
    for (int r = 0; r < x.rows(); ++r)
      for (int c = 0; c < x.cols(); ++c) d(x(r, c));
  }
  void curve(const bct::bezier_t& c) {
    i(c.degree_), d(c.T_min_), d(c.T_max_), d(c.mult_T_), i(c.size_);
    for (auto& p : c.waypoints()) m(p);
  }
};
std::string requestBytes(const Slot& sl) {
  Bytes o;
  const bct::ProblemData& p = sl.pd;
  for (auto* v : {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_}) o.m(*v);
  o.i(p.useAngularMomentum_), o.i(p.costFunction_), o.i(p.representation_), o.i(p.constraints_.flag_);
  o.i(p.constraints_.constraintAcceleration_), o.d(p.constraints_.maxAcceleration_), o.d(p.constraints_.reduce_h_);
  o.m(sl.Ts), o.i(sl.Tv.size());
  for (double t : sl.Tv) o.d(t);
  for (auto& c : p.contacts_) {
    o.i((long)c.contactPhase_);
    o.m(c.Kin_), o.m(c.kin_), o.m(c.Ang_), o.m(c.ang_);
    o.d(c.contactPhase_->m_mass), o.m(c.contactPhase_->m_gravity), o.m(c.contactPhase_->m_G_centr);
    o.i(c.contactPhase_->getAlgorithm());
    cd::MatrixXX H;
    cd::VectorX h;
    c.contactPhase_->getPolytopeInequalities(H, h);
    o.m(H), o.m(h);
  }
  return o.b;
}
struct Path {
  V3 a, b;
  int kind;
  bct::point3_t operator()(double u) const {
    return a + u * (b - a) + V3(0, kind == 2 ? 0.1 * std::sin(9 * u) : 0, kind == 1 ? 0 : 0.2 * u * (1 - u));
  }
};
// what the parts of the library used by a request give for it
template <typename F>
void part(Bytes& o, F f) {
  try {
    f();
  } catch (const std::exception& e) {
    o.b += std::string("error ") + e.what();
  }
}
void parts(const Slot& sl, Bytes& o) {
  Voc& V = voc();
  using namespace bct;
  const State& st = sl.st;
  const bct::ProblemData& pd = sl.pd;
  const int form = st[V.form];
  if ((!isEE(form) && form != 1 && form != 2) || st[V.flag] == 8 || st[V.bad]) return;
  const double T = sl.Ts.size() ? sl.Ts.sum() : 1.;
  auto points = [&](const std::vector<bezier_t::point_t>& v) {
    o.i(v.size());
    for (auto& p : v) o.m(p);
  };
  auto wp = [&](const waypoint_t& w) { o.m(w.first), o.m(w.second); };
  std::vector<bezier_t::point_t> pi;
  part(o, [&] { points(pi = computeConstantWaypoints(pd, T)); });
  if (isEE(form)) {
    Path path{pd.c0_, pd.c1_, st[V.path]};
    const int ns = st[V.step] ? 5 : 9;
    part(o, [&] { auto c = computeEndEffectorConstraints(pd, T, pi); o.m(c.first), o.m(c.second); });
    part(o, [&] { auto c = computeVelocityCost(pd, T, pi); o.m(c.first), o.m(c.second); });
    part(o, [&] { auto c = computeDistanceCostFunction(ns, pd, T, path); o.m(c.first), o.m(c.second); });
    part(o, [&] {
      std::vector<point3_t> pts;
      for (int k = 0; k < ns; ++k) pts.push_back(path(k / (ns - 1.)));
      auto c = computeDistanceCostFunction(ns, pd, T, pts);
      o.m(c.first), o.m(c.second);
    });
    MatrixXX H;
    VectorX g;
    part(o, [&] { computeVelCostFunctionDiscretized(ns, pd, T, H, g); o.m(H), o.m(g); });
    part(o, [&] { computeAccelerationCostFunctionDiscretized(ns, pd, T, H, g); o.m(H), o.m(g); });
    part(o, [&] { computeJerkCostFunctionDiscretized(ns, pd, T, H, g); o.m(H), o.m(g); });
    part(o, [&] { points(computeConstantWaypointsInitPredef(pd, T)); });
    part(o, [&] { points(computeConstantWaypointsGoalPredef(pd, T)); });
    return;
  }
  const int ns = st[V.step] ? 5 : 3;
  T_time ts;
  part(o, [&] { ts = form == 2 ? computeDiscretizedTimeFixed(sl.Ts, ns) : computeDiscretizedTime(sl.Ts, st[V.step] ? 0.05 : 0.1); });
  o.i(ts.size());
  for (auto& t : ts) o.d(t.first), o.i(t.second);
  part(o, [&] { for (auto& w : computeDiscretizedWaypoints<point_t>(pd, T, ts)) o.d(w.first), o.m(w.second); });
  part(o, [&] { for (auto& w : computeDiscretizedAccelerationWaypoints<point_t>(pd, T, ts)) o.d(w.first), o.m(w.second); });
  part(o, [&] { for (auto& w : computeConstantWaypointsSymbolic(pd, T)) wp(w); });
  part(o, [&] { for (auto& w : computeWwaypoints(pd, T)) wp(w); });
  part(o, [&] { if (!(pd.constraints_.flag_ & END_JERK)) { coefs_t v = computeFinalVelocityPoint(pd, T); o.d(v.first), o.m(v.second); } });
  part(o, [&] { o.curve(computeBezierCurve<bezier_t, point_t>(pd.constraints_.flag_, T, pi, V3(0.1, 0.2, 0.7))); });
}
// the call a request stands for; the answer as bytes, with a readable head
std::string answer(const Slot& sl) {
  Voc& V = voc();
  const State& st = sl.st;
  const int form = st[V.form];
  char head[300];
  Bytes o;
  try {
    if (isSolver(form)) {
      // an LP/QP whose size and data depend on the edits
      int n = 2 + st[V.Ts];
      Mat A = Mat::Zero(n + 3, n), D = Mat::Zero(st[V.step], n), H = Mat::Identity(n, n) * (1 + st[V.mass]);
      Vec b = Vec::Constant(n + 3, 2 - 0.3 * st[V.c1]), d = Vec::Constant(st[V.step], 0.3), g = Vec::Constant(n, -1 - st[V.c0]);
      for (int i = 0; i < n + 3; ++i)
        for (int j = 0; j < n; ++j) A(i, j) = ((i * 7 + j * 3 + st[V.dc0]) % 5) - 1.0;
      if (D.rows()) D.setOnes();
      if (st[V.kin] == 3) A.bottomRows(1) = -A.topRows(1), b[n + 2] = -b[0] - 1;  // contradictory
      Vec lo = st[V.kin] == 1 ? Vec() : Vec::Constant(n, st[V.acc] ? -0.2 : -5), hi = st[V.kin] == 1 ? Vec() : Vec::Constant(n, 5);
      Vec init = Vec::Constant(n, st[V.l0]);
      auto r = s::solve(A, b, D, d, H, g, init, lo, hi, (s::SolverType)(form == 13 ? 1 : 2));
      o.i(r.success_);
      if (r.success_) o.d(r.cost_), o.m(r.x);
      snprintf(head, sizeof head, "success %d cost %.17g", r.success_, r.success_ ? r.cost_ : 0.);
      return std::string(head) + "\n" + o.b;
    }
    bct::ResultDataCOMTraj r;
    if (isEE(form))
      r = bct::solveEndEffector(sl.pd, Path{sl.pd.c0_, sl.pd.c1_, st[V.path]}, sl.Ts.size() ? sl.Ts.sum() : 1., st[V.weight] ? 0.05 : st[V.step] ? 0.2 : 0.5);
    else if (isZero(form))
      r = bct::solve0step(sl.pd, sl.Tv, form == 8 ? (st[V.step] ? 0.05 : 0.1) : -1);
    else if (form == 2)
      r = bct::computeCOMTrajFixedSize(sl.pd, sl.Ts, st[V.step] ? 5 : 3);
    else {
#ifdef USE_GLPK_SOLVER
      s::SolverType sv = form >= 4 ? s::SOLVER_GLPK : s::SOLVER_QUADPROG;
#else
      s::SolverType sv = s::SOLVER_QUADPROG;
#endif
      double dt = form == 1 || form == 5 ? (st[V.step] ? 0.05 : 0.1) : -1;
      r = bct::computeCOMTraj(sl.pd, sl.Ts, dt, sv);
    }
    o.i(r.success_);
    if (r.success_) {
      o.d(r.cost_), o.m(r.x), o.curve(r.c_of_t_), o.curve(r.dL_of_t_);
      if (!isEE(form) && !isZero(form)) o.m(r.dc1_), o.m(r.ddc1_);
    }
    parts(sl, o);
    snprintf(head, sizeof head, "success %d cost %.17g x %.17g", r.success_, r.success_ ? r.cost_ : 0., r.success_ ? r.x[0] : 0.);
  } catch (const std::exception& e) {
    snprintf(head, sizeof head, "error %s", e.what());
  }
  return std::string(head) + "\n" + o.b;
}

// --------------------------------------------------------------------------- histories
struct Obs {
  std::string key, text;
};
// runs f in a child whose heap is filled with `fill`; returns its observations
bool inChild(int fill, const std::function<void(std::vector<Obs>&, std::vector<Obs>&)>& f, std::vector<Obs>& obs, std::vector<Obs>& bad, std::string& died) {
  int p[2];
  if (pipe(p)) abort();
  pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    mallopt(M_PERTURB, fill);
    alarm(50);
    std::vector<Obs> o, b;
    f(o, b);
    std::string out;
    auto add = [&](const std::string& s) {
      uint32_t n = s.size();
      out.append((char*)&n, 4), out += s;
    };
    for (auto& x : o) add("o" + x.key), add(x.text);
    for (auto& x : b) add("b" + x.key), add(x.text);
    add("end"), add("");
    for (size_t k = 0; k < out.size();) {
      ssize_t w = write(p[1], out.data() + k, out.size() - k);
      if (w <= 0) _exit(3);
      k += w;
    }
    _exit(0);
  }
  close(p[1]);
  std::string in;
  char buf[65536];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) in.append(buf, n);
  close(p[0]);
  int st;
  waitpid(c, &st, 0);
  bool end = false;
  for (size_t k = 0; k + 4 <= in.size();) {
    std::string t[2];
    for (int j = 0; j < 2 && k + 4 <= in.size(); ++j) {
      uint32_t m;
      memcpy(&m, in.data() + k, 4);
      k += 4;
      t[j] = in.substr(k, m);
      k += m;
    }
    if (t[0] == "end") end = true;
    else (t[0][0] == 'o' ? obs : bad).push_back(Obs{t[0].substr(1), t[1]});
  }
  if (!end || !WIFEXITED(st) || WEXITSTATUS(st)) {
    died = WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "ended early";
    return false;
  }
  return true;
}
std::map<std::string, std::string> memo;
const std::string& alone(const State& st, Ctx& x) {
  std::string k = voc().sp.key(st);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  std::vector<Obs> o, b;
  std::string died;
  bool ok = inChild(0x5a, [&](std::vector<Obs>& ob, std::vector<Obs>&) {
    Slot sl;
    put(sl, st);
    ob.push_back(Obs{"", answer(sl)});
  }, o, b, died);
  x.count("reference_runs");
  return memo[k] = ok ? o[0].text : "died: " + died;
}

enum Op { CALLA, CALLB, COPY, ASSIGN, BACK, SELF, CDATA, CDCOPY, GROW, RECONTACT_A, RECONTACT_B, KIN_A, C0_B, ACC_A, FLAG_B, DISCARD, VALUE, NOPS };
const char* OPN[] = {"call(a)", "call(b)", "b:=copy(a)", "b=a", "a=b", "a=a", "b.contact=a.contact", "b.contact:=copy(a.contact)", "reallocate(a.contacts)",
                     "recontact(a)", "recontact(b)", "kinematics(a)", "c0(b)", "acceleration(a)", "flag(b)", "discard(b)", "call(copy(a))"};

struct Case {
  int kind;                    // 0: requests in sequence; 1: copies
  int mode;                    // 0: separate objects, 1: one object edited in place; for kind 1 the form
  std::vector<State> req;
  std::vector<int> ops;
};
std::vector<Case> cases;

void observe(Slot& sl, std::vector<Obs>& o, std::vector<Obs>& bad) {
  std::string before = requestBytes(sl);
  o.push_back(Obs{voc().sp.key(sl.st), answer(sl)});
  if (requestBytes(sl) != before) bad.push_back(Obs{"request-modified", "the call changed its request " + voc().sp.key(sl.st)});
}
State singleBase(int form) {
  Voc& V = voc();
  State st = V.sp.zero();
  st[V.form] = form;
  st[V.scene] = 1;
  return st;
}
void runOps(const Case& c, std::vector<Obs>& o, std::vector<Obs>& bad) {
  Voc& V = voc();
  Slot a, b;
  State sa = singleBase(c.mode), sb = sa;
  sb[V.c1] = 1;
  sb[V.scene] = 3;
  put(a, sa), put(b, sb);
  auto edit = [&](Slot& s, int dim, int v) {
    State t = s.st;
    t[dim] = v;
    put(s, t);
  };
  // contact-level copies carry the contacts, the kinematics and the mass
  auto contactFrom = [&](Slot& d, const Slot& s) {
    d.st[V.scene] = s.st[V.scene];
    d.st[V.kin] = s.st[V.kin];
    d.st[V.mass] = s.st[V.mass];
  };
  // the start and goal positions and durations of a request belong to its scene
  auto settle = [&](Slot& d) {
    put(d, d.st);
  };
  for (int op : c.ops) switch (op) {
      case CALLA: observe(a, o, bad); break;
      case CALLB: observe(b, o, bad); break;
      case COPY: { Slot n(a); b.~Slot(); new (&b) Slot(n); break; }
      case ASSIGN: b = a; break;
      case BACK: a = b; break;
      case SELF: { Slot& r = a; a = r; a.pd.contacts_[0] = r.pd.contacts_[0]; break; }
      case CDATA: b.pd.contacts_[0] = a.pd.contacts_[0]; contactFrom(b, a); settle(b); break;
      case CDCOPY: { bct::ContactData n(a.pd.contacts_[0]); b.pd.contacts_.clear(); b.pd.contacts_.push_back(n); contactFrom(b, a); settle(b); break; }
      case GROW: a.pd.contacts_.reserve(a.pd.contacts_.capacity() + 7); break;
      case RECONTACT_A: edit(a, V.scene, a.st[V.scene] == 1 ? 4 : 1); break;
      case RECONTACT_B: edit(b, V.scene, b.st[V.scene] == 1 ? 4 : 1); break;
      case KIN_A: edit(a, V.kin, a.st[V.kin] == 0 ? 2 : 0); break;
      case C0_B: edit(b, V.c0, b.st[V.c0] == 0 ? 1 : 0); break;
      case ACC_A: edit(a, V.acc, a.st[V.acc] == 0 ? 3 : 0); break;
      case FLAG_B: edit(b, V.flag, b.st[V.flag] == 0 ? 4 : 0); break;
      case DISCARD: {  // the contact of b is overwritten, then released with b; a new b takes its place
        setContacts(b.pd.contacts_[0].contactPhase_, scenes()[0].phases[1]);
        b.pd.contacts_[0].Kin_.setConstant(7), b.pd.contacts_[0].kin_.setConstant(-7);
        delete b.pd.contacts_[0].contactPhase_;
        b.~Slot();
        new (&b) Slot();
        put(b, sb);
        break;
      }
      case VALUE: { Slot n(a); observe(n, o, bad); break; }
    }
  observe(a, o, bad);
  observe(b, o, bad);
  observe(a, o, bad);
}
void runRequests(const Case& c, std::vector<Obs>& o, std::vector<Obs>& bad) {
  if (c.mode == 1) {
    Slot sl;
    for (auto& r : c.req) {
      put(sl, r);
      observe(sl, o, bad);
    }
  } else {
    for (auto& r : c.req) {  // a new object each time, released before the next is made
      Slot* sl = new Slot;
      put(*sl, r);
      observe(*sl, o, bad);
      for (auto& k : sl->pd.contacts_) delete k.contactPhase_;
      delete sl;
    }
  }
}
std::string show(const Case& c) {
  std::string t;
  if (c.kind == 1) {
    t = "copies form " + voc().sp.dims[voc().form].values[c.mode] + ":";
    for (int o : c.ops) t += std::string(" ") + OPN[o];
  } else {
    t = c.mode ? "in place" : "separate";
    for (auto& r : c.req) t += " | " + voc().sp.key(r);
  }
  return t;
}
Case parse(const std::string& s) {
  Case c;
  if (s.compare(0, 6, "copies") == 0) {
    c.kind = 1;
    c.mode = 0;
    for (size_t i = 0; i < voc().sp.dims[voc().form].values.size(); ++i)
      if (s.find(" form " + voc().sp.dims[voc().form].values[i] + ":") != std::string::npos) c.mode = (int)i;
    std::stringstream ss(s.substr(s.find(':') + 1));
    std::string w;
    while (ss >> w)
      for (int i = 0; i < NOPS; ++i)
        if (w == OPN[i]) c.ops.push_back(i);
  } else {
    c.kind = 0;
    c.mode = s.compare(0, 8, "in place") == 0;
    std::stringstream ss(s);
    std::string w;
    std::getline(ss, w, '|');
    while (std::getline(ss, w, '|')) {
      while (!w.empty() && w[0] == ' ') w.erase(0, 1);
      while (!w.empty() && w.back() == ' ') w.pop_back();
      c.req.push_back(voc().sp.parse(w));
    }
  }
  return c;
}
std::string headOf(const std::string& t) { return t.substr(0, t.find('\n')); }

void check(const Case& c, Ctx& x) {
  std::vector<Obs> o, bad;
  std::string died;
  bool ok = inChild(0xa3, [&](std::vector<Obs>& ob, std::vector<Obs>& b) {
    if (c.kind) runOps(c, ob, b);
    else runRequests(c, ob, b);
  }, o, bad, died);
  x.count("histories");
  if (!ok) {
    // a request that dies alone is no history effect
    if (c.kind == 0)
      for (auto& r : c.req)
        if (alone(r, x).compare(0, 5, "died:") == 0) { x.fail("died-alone", "%s: %s", voc().sp.key(r).c_str(), alone(r, x).c_str()); return; }
    x.fail("died", "the process died: %s", died.c_str());
    return;
  }
  for (auto& b : bad) x.fail(b.key.c_str(), "%s", b.text.c_str());
  for (size_t i = 0; i < o.size(); ++i) {
    State st = voc().sp.parse(o[i].key);
    const std::string& want = alone(st, x);
    x.count("impl_runs");
    x.count(want.compare(0, 5, "error") == 0 ? "calls_rejected" : want.compare(0, 9, "success 1") == 0 ? "calls_succeeding" : "calls_failing");
    if (o[i].text != want) {
      x.fail("depends-on-history", "call %d [%s] gives <%s>, alone <%s>", (int)i, o[i].key.c_str(), headOf(o[i].text).c_str(), headOf(want).c_str());
      return;
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options op = mc::Options::parse(argc, argv);
  Voc& V = voc();
  if (!op.replay.empty()) {
    Case c = parse(op.replay);
    return mc::Pool::replayOne([&](Ctx& x) { check(c, x); });
  }
  bool th = op.thorough();
  const int NF = (int)V.sp.dims[V.form].values.size();
  // requests: every formulation with at most one edit
  std::vector<std::vector<State> > byForm(NF);
  for (int f = 0; f < NF; ++f) {
    State b = V.sp.zero();
    b[V.form] = f;
    byForm[f].push_back(b);
    for (int d = V.flag; d <= V.grav; ++d)
      for (size_t v = 1; v < V.sp.dims[d].values.size(); ++v) {
        if (!isEE(f) && (d == V.path || d == V.weight)) continue;
        if (isEE(f) && d == V.grav) continue;
        if (isSolver(f) && d > V.bad) continue;
        if (isZero(f) && (d == V.ddc1 || d == V.j1)) continue;
        if (isSolver(f) && (d == V.flag || d == V.scene || d == V.cost || d == V.bad || d == V.ang || d == V.red || d == V.j0 || d == V.ddc0 || d == V.dc1)) continue;
        if (isEE(f) && (d == V.scene || d == V.cost || d == V.ang || d == V.mass || d == V.red || d == V.acc || d == V.kin || d == V.bad || d == V.l0)) continue;
        if (isEE(f) && d == V.flag && v != 8) continue;
        if (isZero(f) && (d == V.flag || d == V.cost || d == V.c1 || d == V.red || d == V.acc || d == V.dc1 || d == V.ddc0 || d == V.j0)) continue;
        State st = b;
        st[d] = v;
        byForm[f].push_back(st);
      }
  }
  size_t nreq = 0;
  for (auto& v : byForm) nreq += v.size();
  // (1) all ordered pairs of requests of one formulation, r1 r2 r1
  for (int f = 0; f < NF; ++f)
    for (auto& a : byForm[f])
      for (auto& b : byForm[f]) {
        if (a == b) continue;
        // the first history of a pair in both modes, the base against every edit in both directions
        bool withBase = a == byForm[f][0] || b == byForm[f][0];
        for (int m = 0; m < 2; ++m)
          if (th || withBase || (m == 1 && f < 4)) cases.push_back(Case{0, m, {a, b, a}, {}});
      }
  // (1b) every request next to every one of its own variations: base+edit, base+edit+edit
  std::set<std::pair<State, State> > next;
  for (int f : {0, 1, 2, 3, 5, 7, 8, 9, 13, 14}) {
    State d1 = byForm[f][0];
    d1[V.Ts] = 5;
    for (auto& b : byForm[f])
      for (auto& e : byForm[f]) {
        // the edits of b and e on the base with d1; the durations of e against d1
        State p = d1, q = d1;
        for (size_t k = 0; k < p.size(); ++k) {
          if (b[k] != byForm[f][0][k]) p[k] = q[k] = b[k];
        }
        for (size_t k = 0; k < p.size(); ++k)
          if (e[k] != byForm[f][0][k]) q[k] = e[k];
        if (p == q || p[V.Ts] != 5) continue;
        bool durations = e[V.Ts] != byForm[f][0][V.Ts];
        if (!th && !durations && f > 2) continue;
        if (!th && f == 0 && !durations) continue;  // the continuous ones are slow
        if (next.insert(std::make_pair(p, q)).second) cases.push_back(Case{0, durations || th ? 0 : 1, {p, q, p}, {}});
        if (durations) cases.push_back(Case{0, 1, {p, q, p}, {}});
      }
  }
  // (2) all sequences over one request of each kind
  std::vector<State> mix;
  for (int f = 0; f < NF; ++f) mix.push_back(byForm[f][0]);
  {
    State s0 = V.sp.zero();
    s0[V.bad] = 1; mix.push_back(s0);
    s0 = V.sp.zero(); s0[V.flag] = 8; mix.push_back(s0);
    s0 = V.sp.zero(); s0[V.kin] = 3; mix.push_back(s0);
    s0 = V.sp.zero(); s0[V.form] = 7; s0[V.dc0] = 2; s0[V.kin] = 3; mix.push_back(s0);
    s0 = V.sp.zero(); s0[V.scene] = 2; mix.push_back(s0);
  }
  int depth = th ? 4 : 3;
  std::vector<std::vector<State> > cur(1);
  for (int k = 0; k < depth; ++k) {
    std::vector<std::vector<State> > nx;
    for (auto& v : cur)
      for (auto& m : mix) {
        auto u = v;
        u.push_back(m);
        nx.push_back(u);
      }
    cur.swap(nx);
  }
  for (auto& v : cur) {
    cases.push_back(Case{0, 1, v, {}});
    if (!th) cases.push_back(Case{0, 0, v, {}});
  }
  // (3) copies, assignments, edits and discards of two problem descriptions
  int dc = th ? 4 : 3;
  std::vector<std::vector<int> > oc(1);
  for (int k = 0; k < dc; ++k) {
    std::vector<std::vector<int> > nx;
    for (auto& v : oc)
      for (int q = 0; q < NOPS; ++q) {
        auto u = v;
        u.push_back(q);
        nx.push_back(u);
      }
    oc.swap(nx);
  }
  for (int f : {0, 7})
    for (auto& v : oc) cases.push_back(Case{1, f, {}, v});
  if (op.argDepth == 1) cases.resize(200);
  if (op.argDepth == 2)
    cases.erase(std::remove_if(cases.begin(), cases.end(), [](const Case& c) { return c.kind != 1; }), cases.end());
  mc::Pool pool(op);
  pool.run(cases.size(), [&](size_t i, Ctx& x) { check(cases[i], x); }, [&](size_t i) { return show(cases[i]); }, cases.size(), cases.size(),
           "requests: " + std::to_string(nreq) + " (15 entry points and formulations, at most one edit of 23 fields); histories: all ordered pairs r1 r2 r1 within an entry point "
           "(quick: pairs with its base request, and all pairs in place for four formulations), separate and edited in place; pairs r1 r2 r1 of a request with one edit and one with two, durations re-split included; all sequences of " + std::to_string(depth) +
           " calls out of 20 mixed requests; all sequences of " + std::to_string(dc) + " out of 17 copy/assign/edit/discard/call operations on two problem descriptions");
  return 0;
}
