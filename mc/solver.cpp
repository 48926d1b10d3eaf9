// C10: exhaustive enumeration of small optimisation problems against an exact reference, and of
// sequences of problems given to one solver object.
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

#include "explore.hpp"
#include "ref.hpp"
using mc::Ctx;
using ref::Mat;
using ref::Vec;

namespace {
const double INF = 1e300;
struct Problem {
  int n;
  Mat H;
  Vec g;
  std::vector<Vec> a, e;       // a.x <= b ; e.x = f
  std::vector<double> b, f;
  bool hasMin = false, hasMax = false;
  Vec lo, hi;                  // may contain the "unbounded" values of the library
  std::string text() const {
    std::ostringstream s;
    s << "n=" << n << " H=[" << Eigen::Map<const Eigen::RowVectorXd>(H.data(), H.size()) << "] g=[" << g.transpose() << "]";
    for (size_t i = 0; i < a.size(); ++i) s << " {" << a[i].transpose() << " <= " << b[i] << "}";
    for (size_t i = 0; i < e.size(); ++i) s << " {" << e[i].transpose() << " = " << f[i] << "}";
    if (hasMin) s << " lo=[" << lo.transpose() << "]";
    if (hasMax) s << " hi=[" << hi.transpose() << "]";
    return s.str();
  }
};
Vec mk(std::initializer_list<double> l) {
  Vec v(l.size());
  int i = 0;
  for (double d : l) v[i++] = d;
  return v;
}
Mat mat(std::initializer_list<double> l) {
  int n = (int)std::lround(std::sqrt((double)l.size()));
  Mat m(n, n);
  int i = 0;
  for (double d : l) { m(i / n, i % n) = d; ++i; }
  return m;
}

// all inequality rows, bounds included
void allRows(const Problem& p, std::vector<Vec>& a, std::vector<double>& b) {
  a = p.a;
  b = p.b;
  for (int i = 0; i < p.n; ++i) {
    Vec u = Vec::Unit(p.n, i);
    if (p.hasMin && p.lo[i] > solvers::UNBOUNDED_DOWN) { a.push_back(-u); b.push_back(-p.lo[i]); }
    if (p.hasMax && p.hi[i] < solvers::UNBOUNDED_UP) { a.push_back(u); b.push_back(p.hi[i]); }
  }
}

enum Verdict { OPTIMAL, INFEASIBLE, UNBOUNDED, SKIP };
// exact reference for few variables: every subset of at most n active rows is solved
struct Exact {
  Verdict v;
  Vec x;
  double value;
};
template <class F>
void subsets(int m, int k, F f) {
  std::vector<int> s;
  std::function<void(int)> rec = [&](int from) {
    f(s);
    if ((int)s.size() == k) return;
    for (int i = from; i < m; ++i) {
      s.push_back(i);
      rec(i + 1);
      s.pop_back();
    }
  };
  rec(0);
}
Exact exactQP(const Problem& p) {
  std::vector<Vec> a;
  std::vector<double> b;
  allRows(p, a, b);
  int n = p.n, me = (int)p.e.size();
  Exact r;
  r.v = INFEASIBLE;
  r.value = INF;
  double hs = p.H.cwiseAbs().maxCoeff();
  subsets((int)a.size(), n - me, [&](const std::vector<int>& s) {
    int k = me + (int)s.size();
    Mat K = Mat::Zero(n + k, n + k);
    Vec h = Vec::Zero(n + k);
    K.topLeftCorner(n, n) = p.H / hs;
    h.head(n) = -p.g / hs;
    for (int i = 0; i < me; ++i) {
      K.block(0, n + i, n, 1) = p.e[i];
      K.block(n + i, 0, 1, n) = p.e[i].transpose();
      h[n + i] = p.f[i];
    }
    for (size_t i = 0; i < s.size(); ++i) {
      int c = n + me + (int)i;
      K.block(0, c, n, 1) = a[s[i]];
      K.block(c, 0, 1, n) = a[s[i]].transpose();
      h[c] = b[s[i]];
    }
    Eigen::FullPivLU<Mat> lu(K);
    lu.setThreshold(1e-11);
    if (!lu.isInvertible()) return;
    Vec x = lu.solve(h).head(n);
    double sc = 1 + x.cwiseAbs().maxCoeff();
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i].dot(x) - b[i] > 1e-9 * sc * std::max(1.0, a[i].cwiseAbs().maxCoeff())) return;
    for (int i = 0; i < me; ++i)
      if (std::fabs(p.e[i].dot(x) - p.f[i]) > 1e-9 * sc) return;
    double v = 0.5 * x.dot(p.H * x) + p.g.dot(x);
    if (v < r.value) { r.v = OPTIMAL; r.value = v; r.x = x; }
  });
  return r;
}
// vertices of { a.x <= b, e.x = f } inside the box |x| <= B: minimum of g.x
bool vertexMin(const Problem& p, std::vector<Vec> a, std::vector<double> b, const std::vector<double>& f, double B,
               double& best, Vec& arg) {
  int n = p.n, me = (int)p.e.size();
  for (int i = 0; i < n; ++i) {
    a.push_back(Vec::Unit(n, i)); b.push_back(B);
    a.push_back(-Vec::Unit(n, i)); b.push_back(B);
  }
  bool any = false;
  best = INF;
  subsets((int)a.size(), n - me, [&](const std::vector<int>& s) {
    if ((int)s.size() != n - me) return;
    Mat K(n, n);
    Vec h(n);
    for (int i = 0; i < me; ++i) { K.row(i) = p.e[i]; h[i] = f[i]; }
    for (size_t i = 0; i < s.size(); ++i) { K.row(me + i) = a[s[i]]; h[me + i] = b[s[i]]; }
    Eigen::FullPivLU<Mat> lu(K);
    lu.setThreshold(1e-11);
    if (!lu.isInvertible()) return;
    Vec x = lu.solve(h);
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i].dot(x) - b[i] > 1e-9 * (1 + x.cwiseAbs().maxCoeff())) return;
    any = true;
    if (p.g.dot(x) < best) { best = p.g.dot(x); arg = x; }
  });
  return any;
}
Exact exactLP(const Problem& p) {
  std::vector<Vec> a;
  std::vector<double> b;
  allRows(p, a, b);
  Exact r;
  double box = 1e3;
  for (double v : b)
    if (std::fabs(v) > box / 2) box = 1e6;
  if (!vertexMin(p, a, b, p.f, box, r.value, r.x)) { r.v = INFEASIBLE; return r; }
  double d;
  Vec w;
  vertexMin(p, a, std::vector<double>(a.size(), 0.0), std::vector<double>(p.e.size(), 0.0), 1, d, w);
  r.v = d < -1e-9 ? UNBOUNDED : OPTIMAL;
  return r;
}

std::string Vs(const Vec& v) {
  std::ostringstream s;
  s.precision(9);
  s << "(" << v.transpose() << ")";
  return s.str();
}

void judge(const Problem& p, const Exact& ex, bool success, double cost, const Vec& x, bool lp, const char* who, Ctx& c) {
  if (success != (ex.v == OPTIMAL)) {
    c.fail((std::string(who) + (success ? "-false-success" : "-false-failure")).c_str(), "reports %s with x=%s, exact: %s x=%s; %s",
           success ? "success" : "failure", Vs(x).c_str(),
           ex.v == OPTIMAL ? "optimal" : ex.v == UNBOUNDED ? "unbounded" : "infeasible",
           ex.v == OPTIMAL ? Vs(ex.x).c_str() : "-", p.text().c_str());
    return;
  }
  c.count(ex.v == OPTIMAL ? "optimal" : ex.v == UNBOUNDED ? "unbounded" : "infeasible");
  if (!success) return;
  if (x.size() != p.n || !x.allFinite()) { c.fail(who, "x=%s; %s", Vs(x).c_str(), p.text().c_str()); return; }
  std::vector<Vec> a;
  std::vector<double> b;
  allRows(p, a, b);
  double sc = 1 + x.cwiseAbs().maxCoeff();
  for (size_t i = 0; i < a.size(); ++i)
    if (!(a[i].dot(x) - b[i] <= 1e-6 * sc * std::max(1e-9, a[i].norm()))) {
      c.fail((std::string(who) + "-infeasible-point").c_str(), "x=%s violates row %zu by %g; %s", Vs(x).c_str(), i, a[i].dot(x) - b[i], p.text().c_str());
      return;
    }
  for (size_t i = 0; i < p.e.size(); ++i)
    if (!(std::fabs(p.e[i].dot(x) - p.f[i]) <= 1e-6 * sc * p.e[i].norm())) {
      c.fail((std::string(who) + "-equality").c_str(), "x=%s misses equality %zu; %s", Vs(x).c_str(), i, p.text().c_str());
      return;
    }
  double v = (lp ? 0 : 0.5 * x.dot(p.H * x)) + p.g.dot(x);
  double vs = std::fabs(ex.value) + (lp ? 0 : 0.5 * p.H.cwiseAbs().maxCoeff() * sc) + p.g.cwiseAbs().maxCoeff() * sc;
  if (!(v - ex.value <= 1e-7 * vs)) {
    c.fail((std::string(who) + "-suboptimal").c_str(), "value %.12g at %s, optimum %.12g at %s; %s", v, Vs(x).c_str(), ex.value, Vs(ex.x).c_str(), p.text().c_str());
    return;
  }
  if (!(std::fabs(cost - v) <= 1e-7 * vs))
    c.fail((std::string(who) + "-cost").c_str(), "reports %.12g, value at its point is %.12g; %s", cost, v, p.text().c_str());
}

void pack(const Problem& p, Mat& A, Vec& b, Mat& D, Vec& d, Vec& lo, Vec& hi) {
  A = Mat(p.a.size(), p.n);
  b = Vec(p.b.size());
  for (size_t i = 0; i < p.a.size(); ++i) { A.row(i) = p.a[i]; b[i] = p.b[i]; }
  D = Mat(p.e.size(), p.n);
  d = Vec(p.f.size());
  for (size_t i = 0; i < p.e.size(); ++i) { D.row(i) = p.e[i]; d[i] = p.f[i]; }
  lo = p.hasMin ? p.lo : Vec(0);
  hi = p.hasMax ? p.hi : Vec(0);
}

// the same problem in other units: rows multiplied, variables divided by positive factors
struct Units {
  Vec row, col, eq;
  double cost = 1;
};
Problem inUnits(const Problem& p, const Units& u) {
  Problem q = p;
  for (size_t i = 0; i < q.a.size(); ++i) q.a[i] = (p.a[i] * u.row[i]).cwiseProduct(u.col), q.b[i] = p.b[i] * u.row[i];
  for (size_t i = 0; i < q.e.size(); ++i) q.e[i] = (p.e[i] * u.eq[i]).cwiseProduct(u.col), q.f[i] = p.f[i] * u.eq[i];
  q.H = u.cost * Mat(u.col.asDiagonal() * p.H * u.col.asDiagonal());
  q.g = u.cost * p.g.cwiseProduct(u.col);
  return q;
}
void checkUnits(const Problem& p, const Units& u, bool lp, Ctx& c) {
  const Exact ex = lp ? exactLP(p) : exactQP(p);
  const Problem q = inUnits(p, u);
  Mat A, D;
  Vec b, d, lo, hi;
  pack(q, A, b, D, d, lo, hi);
  c.count("impl_runs");
  solvers::ResultData r = solvers::solve(A, b, D, d, q.H, q.g, Vec::Zero(p.n), lo, hi, lp ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG);
  judge(p, ex, r.success_, r.cost_ / u.cost, r.success_ && r.x.size() == p.n ? Vec(r.x.cwiseProduct(u.col)) : r.x, lp, lp ? "lp-units" : "qp-units", c);
  if (lp) return;
  for (int k = 0; k < 2; ++k) {
    tsid::solvers::EiquadprogFast s;
    Vec x = Vec::Zero(p.n);
    c.count("impl_runs");
    Mat CI = -A;
    Vec ce = -d;
    Eigen::SparseMatrix<double> H = q.H.sparseView();
    int st = k ? (int)s.solve_quadprog_sparse(H, q.g, D, ce, CI, b, x) : (int)s.solve_quadprog(q.H, q.g, D, ce, CI, b, x);
    bool ok = st == (int)tsid::solvers::EIQUADPROG_FAST_OPTIMAL;
    judge(p, ex, ok, ok ? s.getObjValue() / u.cost : 0, ok ? Vec(x.cwiseProduct(u.col)) : x, false, k ? "sparse-units" : "dense-units", c);
  }
}

void checkQP(const Problem& p, const Exact& ex, Ctx& c) {
  Mat A, D;
  Vec b, d, lo, hi;
  pack(p, A, b, D, d, lo, hi);
  Mat A0 = A, D0 = D, H = p.H;
  Vec b0 = b, d0 = d, g = p.g, lo0 = lo, hi0 = hi, init = Vec::Constant(p.n, 7.25), init0 = init;
  c.count("impl_runs");
  solvers::ResultData r = solvers::solve(A, b, D, d, H, g, init, lo, hi, solvers::SOLVER_QUADPROG);
  if (A != A0 || b != b0 || D != D0 || d != d0 || H != p.H || g != p.g || init != init0 || lo != lo0 || hi != hi0)
    c.fail("input-modified", "%s", p.text().c_str());
  judge(p, ex, r.success_, r.cost_, r.x, false, "qp", c);
}
// the solver object itself: dense, sparse and with the inverse of the Hessian provided; its
// active set and multipliers must certify optimality
void checkObject(const Problem& p, const Exact& ex, Ctx& c) {
  std::vector<Vec> a;
  std::vector<double> b;
  allRows(p, a, b);
  Mat CI(a.size(), p.n), CE(p.e.size(), p.n);
  Vec ci(a.size()), ce(p.e.size());
  for (size_t i = 0; i < a.size(); ++i) { CI.row(i) = -a[i]; ci[i] = b[i]; }
  for (size_t i = 0; i < p.e.size(); ++i) { CE.row(i) = p.e[i]; ce[i] = -p.f[i]; }
  static const char* N[3] = {"dense", "sparse", "inverse-provided"};
  for (int k = 0; k < 3; ++k) {
    tsid::solvers::EiquadprogFast s;
    Vec x = Vec::Constant(p.n, -2);
    tsid::solvers::EiquadprogFast_status st;
    c.count("impl_runs");
    if (k == 1) {
      Eigen::SparseMatrix<double> H = p.H.sparseView();
      st = s.solve_quadprog_sparse(H, p.g, CE, ce, CI, ci, x);
    } else {
      if (k == 2) {
        s.reset(p.n, (int)ce.size(), (int)ci.size());
        Eigen::LLT<Mat> llt(p.H);
        s.m_J = Mat(llt.matrixU()).inverse();
        s.is_inverse_provided_ = true;
      }
      st = s.solve_quadprog(p.H, p.g, CE, ce, CI, ci, x);
    }
    bool ok = st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL;
    judge(p, ex, ok, ok ? s.getObjValue() : 0, x, false, N[k], c);
    if (!ok || ex.v != OPTIMAL) continue;
    // stationarity: H x + g = CE' u + CI' u with u >= 0 for the inequalities
    Vec r = p.H * x + p.g;
    double sc = p.H.cwiseAbs().maxCoeff() * (1 + x.cwiseAbs().maxCoeff()) + p.g.cwiseAbs().maxCoeff();
    bool good = s.getActiveSetSize() >= (int)ce.size() && s.getActiveSetSize() <= p.n;
    for (int i = 0; good && i < s.getActiveSetSize(); ++i) {
      int id = s.getActiveSet()[i];
      double u = s.getLagrangeMultipliers()[i];
      if (id < 0) {
        good = -id - 1 < (int)ce.size();
        if (good) r -= u * CE.row(-id - 1).transpose();
      } else {
        good = id < (int)ci.size() && u * CI.row(id).norm() >= -1e-9 * sc;
        if (good) r -= u * CI.row(id).transpose();
      }
    }
    c.count("certificates_checked");
    if (!good || !(r.norm() <= 1e-6 * sc))
      c.fail((std::string(N[k]) + "-multipliers").c_str(), "active set and multipliers do not certify x=%s (residual %g of %g); %s", Vs(x).c_str(), r.norm(), sc, p.text().c_str());
  }
}
#ifdef USE_GLPK_SOLVER
void checkLP(const Problem& p, Ctx& c) {
  Exact ex = exactLP(p);
  Mat A, D;
  Vec b, d, lo, hi;
  pack(p, A, b, D, d, lo, hi);
  Mat A0 = A, D0 = D, H = p.H;
  Vec b0 = b, d0 = d, g = p.g, init = Vec::Constant(p.n, 7.25), init0 = init;
  c.count("impl_runs");
  solvers::ResultData r = solvers::solve(A, b, D, d, H, g, init, lo, hi, solvers::SOLVER_GLPK);
  if (A != A0 || b != b0 || D != D0 || d != d0 || H != p.H || g != p.g || init != init0)
    c.fail("input-modified", "%s", p.text().c_str());
  judge(p, ex, r.success_, r.cost_, r.x, true, "lp", c);
}
#endif

// ------------------------------------------------------------------ families of problems
struct Family {
  std::string name;
  std::vector<size_t> radix;
  std::function<Problem(const std::vector<int>&)> make;
  std::function<Units(const std::vector<int>&, const Problem&)> units;  // if set, solved in these units
  bool lp = false;
  std::vector<int> digits(size_t i) const {
    std::vector<int> d;
    for (size_t r : radix) { d.push_back((int)(i % r)); i /= r; }
    return d;
  }
  size_t size() const {
    size_t s = 1;
    for (size_t r : radix) s *= r;
    return s;
  }
  Problem at(size_t i) const {
    std::vector<int> d;
    for (size_t r : radix) { d.push_back((int)(i % r)); i /= r; }
    return make(d);
  }
};

std::vector<std::vector<int> > multisets(int alphabet, int k) {
  std::vector<std::vector<int> > out;
  std::vector<int> s;
  std::function<void(int)> rec = [&](int from) {
    out.push_back(s);
    if ((int)s.size() == k) return;
    for (int i = from; i < alphabet; ++i) {
      s.push_back(i);
      rec(i);
      s.pop_back();
    }
  };
  rec(0);
  std::sort(out.begin(), out.end(), [](const std::vector<int>& a, const std::vector<int>& b) { return a.size() < b.size(); });
  return out;
}

// bounds menus for n variables
void bounds(Problem& p, int k) {
  const double U = solvers::UNBOUNDED_UP, L = solvers::UNBOUNDED_DOWN;
  int n = p.n;
  auto both = [&](double lo, double hi) { p.hasMin = p.hasMax = true; p.lo = Vec::Constant(n, lo); p.hi = Vec::Constant(n, hi); };
  switch (k) {
    case 0: break;
    case 1: both(-1, 1); break;
    case 2: p.hasMin = true; p.lo = Vec::Constant(n, 0); break;
    case 3: p.hasMax = true; p.hi = Vec::Constant(n, 0.5); break;
    case 4: both(L, U); break;
    case 5: both(L, U); p.lo[0] = -0.5; break;
    case 6: both(L, U); p.hi[n - 1] = 0; break;
    case 7: both(-1, 1); p.lo[0] = p.hi[0] = 0.5; break;      // a fixed variable
    case 8: both(0, 2); p.lo[n - 1] = 1; p.hi[n - 1] = 0; break;  // contradictory
    case 9: both(2 * L, 2 * U); break;
    case 10: both(0.9 * L, 0.9 * U); break;  // far, but bounds
    case 11: both(-12, 0.99 * U); p.lo[n - 1] = 0.04 * L; break;
  }
}
const int NB = 12;

std::vector<Family> families(bool thorough) {
  std::vector<Family> F;
  // n = 1
  {
    auto rows = std::make_shared<std::vector<std::vector<int> > >(multisets(12, 3));
    auto row = [](int k, Vec& a, double& b) {
      static const double A[4] = {1, -1, 2, 0}, B[3] = {0, 1, -1};
      a = mk({A[k % 4]});
      b = B[k / 4];
    };
    for (int lp = 0; lp < 2; ++lp) {
      Family f;
      f.name = lp ? "lp1" : "qp1";
      f.lp = lp;
      f.radix = {lp ? (size_t)1 : (size_t)5, 7, rows->size(), 4, (size_t)NB};
      f.make = [=](const std::vector<int>& d) {
        static const double Hs[5] = {1, 2, 1e-4, 1e4, 1e9}, G[7] = {0, 1, -1, 3, -3, -5e5, 5e5};
        Problem p;
        p.n = 1;
        p.H = mat({Hs[d[0]]});
        // the far optima (beyond UNBOUNDED_UP) only with the exactly representable Hessians: an
        // equality written as two inequalities is lost in the rounding errors of so long a step
        p.g = mk({(d[0] >= 2 && d[1] >= 5 ? G[d[1]] * 1e-4 : G[d[1]]) * Hs[d[0]]});
        for (int k : (*rows)[d[2]]) { Vec a; double b; row(k, a, b); p.a.push_back(a); p.b.push_back(b); }
        if (d[3]) { p.e.push_back(mk({d[3] == 2 ? -2. : 1.})); p.f.push_back(d[3] == 3 ? 0.5 : -1); }
        bounds(p, d[4]);
        return p;
      };
      F.push_back(f);
    }
  }
  // n = 2
  {
    const std::vector<Vec> dirs = {mk({1, 0}), mk({-1, 0}), mk({0, 1}), mk({0, -1}), mk({1, 1}), mk({-1, 1}), mk({2, 1}), mk({-1, -1}), mk({0, 0})};
    auto rows = std::make_shared<std::vector<std::vector<int> > >(multisets(27, thorough ? 4 : 3));
    for (int lp = 0; lp < 2; ++lp) {
      Family f;
      f.name = lp ? "lp2" : "qp2";
      f.lp = lp;
      f.radix = {lp ? (size_t)1 : (size_t)3, 7, rows->size(), 7, lp ? (size_t)5 : (size_t)3};
      f.make = [=](const std::vector<int>& d) {
        static const double B[3] = {0, 1, -1};
        static const std::vector<Vec> G = {mk({0, 0}), mk({1, 0}), mk({-2, 0}), mk({-1, -1}), mk({3, -1}), mk({0, 2}), mk({-1, 4})};
        static const std::vector<Mat> Hs = {mat({1, 0, 0, 1}), mat({2, 1, 1, 2}), mat({100, 0, 0, 0.01})};
        Problem p;
        p.n = 2;
        p.H = Hs[d[0]];
        p.g = G[d[1]];
        for (int k : (*rows)[d[2]]) { p.a.push_back(dirs[k % 9]); p.b.push_back(B[k / 9]); }
        switch (d[3]) {
          case 1: p.e = {mk({1, 0})}; p.f = {0}; break;
          case 2: p.e = {mk({1, 1})}; p.f = {1}; break;
          case 3: p.e = {mk({-1, 2})}; p.f = {-1}; break;
          case 4: p.e = {mk({1, 0}), mk({0, 1})}; p.f = {0, 1}; break;
          case 5: p.e = {mk({1, 1}), mk({1, -1})}; p.f = {0, 0}; break;
          case 6: p.e = {mk({0, 2})}; p.f = {1}; break;
        }
        static const int b2[5] = {0, 1, 5, 7, 2};
        bounds(p, b2[d[4]]);
        return p;
      };
      F.push_back(f);
    }
  }
  // n = 2 with every kind of bounds, and badly scaled problems
  {
    const std::vector<Vec> dirs = {mk({1, 0}), mk({-1, 0}), mk({0, 1}), mk({1, 1}), mk({-1, -1}), mk({1, -2})};
    auto rows = std::make_shared<std::vector<std::vector<int> > >(multisets(12, 2));
    for (int lp = 0; lp < 2; ++lp) {
      Family f;
      f.name = lp ? "lp2b" : "qp2b";
      f.lp = lp;
      f.radix = {6, 5, rows->size(), 5, (size_t)NB, lp ? (size_t)1 : (size_t)4};
      f.make = [=](const std::vector<int>& d) {
        static const double S[6] = {1, 1e-6, 1e-4, 1e4, 1e7, 1e10}, RS[4] = {1, 1e-3, 1e3, 1e5};
        static const std::vector<Vec> G = {mk({0, 0}), mk({1, -1}), mk({-2, 0}), mk({3, 3}), mk({0, -1})};
        Problem p;
        p.n = 2;
        p.H = mat({2, -1, -1, 3}) * S[d[0]];
        p.g = G[d[1]] * S[d[0]];
        for (int k : (*rows)[d[2]]) { p.a.push_back(dirs[k % 6] * RS[d[5]]); p.b.push_back((k / 6 ? 1 : -0.5) * RS[d[5]]); }
        if (d[3]) {
          p.e = {d[3] == 1 ? mk({1, 0}) : d[3] == 2 ? mk({0, -1}) : d[3] == 3 ? mk({1, 1}) : mk({3, -1})};
          p.f = {0.25};
        }
        bounds(p, d[4]);
        return p;
      };
      if (lp) f.radix[0] = 2;
      F.push_back(f);
    }
  }
  // n = 2 in other units: rows, variables and cost multiplied by powers of ten (and back: the optimum is the same)
  {
    const std::vector<Vec> dirs = {mk({1, 0}), mk({0, -1}), mk({1, 1}), mk({-1, -1}), mk({1, -2}), mk({-2, 1})};
    auto rows = std::make_shared<std::vector<std::vector<int> > >(multisets(18, thorough ? 3 : 2));
    for (int lp = 0; lp < 2; ++lp) {
      Family f;
      f.name = lp ? "lp2u" : "qp2u";
      f.lp = lp;
      f.radix = {4, rows->size(), 5, 6, 5, lp ? (size_t)1 : (size_t)3};
      f.make = [=](const std::vector<int>& d) {
        static const double Bs[3] = {1, -1, 4};
        static const std::vector<Vec> G = {mk({1, -1}), mk({-2, 0}), mk({3, 3}), mk({-1, -3})};
        Problem p;
        p.n = 2;
        p.H = mat({2, -1, -1, 3});
        p.g = G[d[0]];
        for (int k : (*rows)[d[1]]) { p.a.push_back(dirs[k % 6]); p.b.push_back(Bs[k / 6]); }
        if (d[2]) {
          p.e = {d[2] == 1 ? mk({1, 0}) : d[2] == 2 ? mk({0, -1}) : d[2] == 3 ? mk({1, 1}) : mk({3, -1})};
          p.f = {0.25};
        }
        // the first variable in other units must stay far from the values that mean unbounded: it is boxed by rows
        if (lp) {
          p.a.push_back(mk({1, 0})); p.b.push_back(3);
          p.a.push_back(mk({-1, 0})); p.b.push_back(3);
          p.a.push_back(mk({0, 1})); p.b.push_back(3);
          p.a.push_back(mk({0, -1})); p.b.push_back(3);
        }
        return p;
      };
      f.units = [=](const std::vector<int>& d, const Problem& p) {
        // GLPK compares with absolute tolerances and the library leaves its problems unscaled: moderate units there
        static const double WR[6] = {1, 1e-6, 1e9, 2e6, 1e-4, 1e3}, WC[5][2] = {{1, 1}, {1e-6, 1}, {1, 1e6}, {1e-4, 1e-4}, {1e4, 1e-4}};
        static const double MR[6] = {1, 1e-3, 1e3, 3e5, 1e4, 1e-2}, MC[5][2] = {{1, 1}, {1e-3, 1}, {1, 1e3}, {1e-3, 1e-3}, {1e2, 1e-2}};
        static const double O[3] = {1, 1e-4, 1e5};
        const double* R = lp ? MR : WR;
        const double(*C)[2] = lp ? MC : WC;
        Units u;
        u.row = Vec::Constant(p.a.size(), R[d[3]]);
        for (int i = 1; i < u.row.size(); i += 2) u.row[i] = !lp && d[3] == 4 ? 1e-3 : d[3] >= 3 ? R[d[3]] : 1;
        u.eq = Vec::Constant(p.e.size(), R[d[3]]);
        u.col = mk({C[d[4]][0], C[d[4]][1]});
        u.cost = O[d[5]];
        return u;
      };
      F.push_back(f);
    }
  }
  // n = 3: all sign patterns
  {
    std::vector<Vec> dirs;
    for (int i = 0; i < 3; ++i) { dirs.push_back(Vec::Unit(3, i)); dirs.push_back(-Vec::Unit(3, i)); }
    for (int k = 0; k < 8; ++k) dirs.push_back(mk({k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 1. : -1.}));
    auto rows = std::make_shared<std::vector<std::vector<int> > >(multisets(28, 3));
    for (int lp = 0; lp < 2; ++lp) {
      Family f;
      f.name = lp ? "lp3" : "qp3";
      f.lp = lp;
      f.radix = {lp ? (size_t)1 : (size_t)2, 5, rows->size(), lp ? (size_t)2 : (size_t)4, 2};
      f.make = [=](const std::vector<int>& d) {
        static const std::vector<Vec> G = {mk({0, 0, 0}), mk({-2, 0, 1}), mk({1, 1, 1}), mk({3, -3, 0}), mk({-1, -4, 2})};
        static const std::vector<Mat> Hs = {mat({1, 0, 0, 0, 1, 0, 0, 0, 1}), mat({4, 1, 0, 1, 2, -1, 0, -1, 3})};
        Problem p;
        p.n = 3;
        p.H = Hs[d[0]];
        p.g = G[d[1]];
        for (int k : (*rows)[d[2]]) { p.a.push_back(dirs[k % 14]); p.b.push_back(k / 14 ? 1 : -1); }
        if (d[3] >= 1) { p.e.push_back(mk({1, 1, 0})); p.f.push_back(1); }
        if (d[3] >= 2) { p.e.push_back(mk({0, 1, -1})); p.f.push_back(0); }
        if (d[3] >= 3) { p.e.push_back(mk({1, 0, 2})); p.f.push_back(-1); }
        bounds(p, d[4]);
        return p;
      };
      F.push_back(f);
    }
  }
  return F;
}

// larger problems with a closed form: projection of a point on simplices, boxes, polygons with many
// rows, chains of equalities. d: kind, n, rows, direction, scale
struct Big {
  Problem p;
  bool feasible;
};
Big bigProblem(int kind, int n, int rows, int dir, int scale) {
  static const double S[4] = {1, 1e-6, 1e3, 1e8};
  Big B;
  Problem& p = B.p;
  B.feasible = true;
  p.n = n;
  p.H = Mat::Identity(n, n);
  for (int i = 0; i < n; ++i) p.H(i, i) = 1 + (i % 3);
  if (kind == 2) for (int i = 0; i + 1 < n; ++i) p.H(i, i + 1) = p.H(i + 1, i) = 0.4;
  Vec t(n);  // unconstrained optimum
  for (int i = 0; i < n; ++i) t[i] = std::cos(1.0 + dir * 0.7 + 1.9 * i) * (2 + dir % 3);
  p.g = -p.H * t;
  for (int k = 0; k < rows; ++k) {
    Vec a(n);
    for (int i = 0; i < n; ++i) a[i] = std::cos(0.37 * k * (i + 1) + i * i);
    if (kind == 1) {  // repeated and parallel rows
      a = Vec::Unit(n, k % n) * ((k / n) % 2 ? -1 : 1) * (1 + k % 4);
    }
    p.a.push_back(a);
    p.b.push_back((kind == 1 ? 0.5 : 1.0) * a.norm());
  }
  if (kind == 3) {  // equalities
    int me = std::min(n - 1, 1 + dir % 3);
    for (int k = 0; k < me; ++k) {
      Vec a = Vec::Zero(n);
      a[k] = 1;
      a[k + 1] = k % 2 ? 1 : -1;
      p.e.push_back(a);
      p.f.push_back(0.1 * k);
    }
  }
  if (kind == 4 && rows) {  // contradictory pair among the others
    p.a.push_back(-p.a[rows / 2]);
    p.b.push_back(-p.b[rows / 2] - 0.05);
    B.feasible = false;
  }
  if (kind == 5) { p.hasMin = true; p.lo = Vec::Constant(n, -0.25); p.hasMax = true; p.hi = Vec::Constant(n, 0.75); }
  p.H *= S[scale];
  p.g *= S[scale];
  return B;
}
void checkBig(const Big& B, Ctx& c) {
  const Problem& p = B.p;
  std::vector<Vec> a;
  std::vector<double> b;
  allRows(p, a, b);
  Mat A(a.size() + 2 * p.e.size(), p.n);
  Vec h(A.rows());
  for (size_t i = 0; i < a.size(); ++i) { A.row(i) = a[i]; h[i] = b[i]; }
  for (size_t i = 0; i < p.e.size(); ++i) {
    A.row(a.size() + 2 * i) = p.e[i]; h[a.size() + 2 * i] = p.f[i];
    A.row(a.size() + 2 * i + 1) = -p.e[i]; h[a.size() + 2 * i + 1] = -p.f[i];
  }
  Exact ex;
  double hs = p.H.cwiseAbs().maxCoeff();
  Vec x;
  bool ok = ref::qp(p.H / hs, p.g / hs, A, h + Vec::Constant(h.size(), 1e-12), x);
  if (ok && A.rows() && (A * x - h).maxCoeff() > 1e-8) { c.count("reference_not_accurate"); return; }
  ex.v = ok ? OPTIMAL : INFEASIBLE;
  if (ok != B.feasible) { c.count("reference_not_accurate"); return; }
  if (ok) { ex.x = x; ex.value = 0.5 * x.dot(p.H * x) + p.g.dot(x); }
  checkQP(p, ex, c);
  checkObject(p, ex, c);
}

// problems with hundreds of active constraints: the projection of a point on the positive orthant,
// given by bounds (kind 0), by rows (1), or by rows with an equality between two variables (2)
const int HUGE_N[] = {50, 200, 1100};
void checkHuge(int kind, int n, Ctx& c) {
  Vec t(n), want(n);
  for (int i = 0; i < n; ++i) t[i] = i % 25 ? -1.0 - 0.01 * (i % 7) : 0.5 + 0.01 * (i % 11);
  for (int i = 0; i < n; ++i) want[i] = std::max(0.0, t[i]);
  Mat D(kind == 2, n), A(kind ? n : 0, n);
  Vec d = Vec::Zero(kind == 2), b = Vec::Zero(A.rows()), lo, hi;
  if (kind) A = -Mat::Identity(n, n);
  else lo = Vec::Zero(n), hi = Vec::Constant(n, solvers::UNBOUNDED_UP);
  if (kind == 2) {
    D.setZero();
    D(0, 0) = 1, D(0, 25) = -1;
    want[0] = want[25] = 0.5 * (t[0] + t[25]);
  }
  c.count("impl_runs");
  c.count("huge_problems");
  solvers::ResultData r = solvers::solve(A, b, D, d, Mat::Identity(n, n), -t, Vec::Zero(n), lo, hi, solvers::SOLVER_QUADPROG);
  if (!r.success_) { c.fail("huge-failure", "the projection of %d variables on the positive orthant is not found", n); return; }
  double e = (r.x - want).cwiseAbs().maxCoeff(), v = 0.5 * want.squaredNorm() - t.dot(want);
  if (!(e <= 1e-7)) c.fail("huge-solution", "%d variables: %g away from the projection", n, e);
  if (!(std::fabs(r.cost_ - v) <= 1e-7 * (1 + std::fabs(v)))) c.fail("huge-cost", "%d variables: cost %.12g, objective %.12g", n, r.cost_, v);
}

// ------------------------------------------------------------------ reuse of a solver object
std::vector<Problem> reuseAlphabet() {
  std::vector<Problem> v;
  std::vector<Family> F = families(false);
  auto big = [&](int k, int n, int r, int d, int s) { v.push_back(bigProblem(k, n, r, d, s).p); };
  big(0, 3, 8, 1, 0);   // active constraints
  big(0, 3, 8, 2, 0);   // same sizes, other data
  big(4, 3, 7, 1, 0);   // infeasible, same sizes as the first two
  big(0, 3, 0, 1, 0);   // no constraint
  big(3, 3, 8, 1, 0);   // with equalities
  big(3, 3, 0, 0, 0);   // equalities only
  big(0, 1, 3, 1, 0);
  big(1, 6, 30, 2, 0);
  big(0, 6, 30, 0, 2);
  big(2, 2, 12, 3, 1);
  {
    Problem p = bigProblem(0, 3, 8, 1, 0).p;  // dependent equalities
    p.e = {mk({1, 1, 0}), mk({2, 2, 0})};
    p.f = {1, 2};
    v.push_back(p);
  }
  {
    Problem p = bigProblem(1, 3, 8, 1, 0).p;
    v.push_back(p);
  }
  return v;
}
struct Answer {
  int status;
  double value;
  Vec x;
  int active;
  Eigen::VectorXi A;
};
Answer ask(tsid::solvers::EiquadprogFast& s, const Problem& p) {
  Mat A, D;
  Vec b, d, lo, hi;
  pack(p, A, b, D, d, lo, hi);
  Vec x(p.n);
  x.setConstant(3);
  Answer r;
  r.status = (int)s.solve_quadprog(p.H, p.g, D, -d, -A, b, x);
  r.value = r.status == 0 ? s.getObjValue() : 0;
  r.x = r.status == 0 ? x : Vec(0);
  r.active = r.status == 0 ? s.getActiveSetSize() : 0;
  r.A = s.getActiveSet().head(r.active);
  return r;
}
void checkSequence(const std::vector<Problem>& al, const std::vector<int>& seq, Ctx& c) {
  tsid::solvers::EiquadprogFast reused;
  for (size_t k = 0; k < seq.size(); ++k) {
    tsid::solvers::EiquadprogFast fresh;
    Answer a = ask(reused, al[seq[k]]), b = ask(fresh, al[seq[k]]);
    c.count("impl_runs", 2);
    c.count("reuse_steps_compared");
    bool same = a.status == b.status && a.value == b.value && a.x.size() == b.x.size() && a.active == b.active;
    for (int i = 0; same && i < a.x.size(); ++i) same = a.x[i] == b.x[i];
    for (int i = 0; same && i < a.active; ++i) same = a.A[i] == b.A[i];
    if (!same) {
      c.fail("reuse", "step %zu (problem %d): status %d value %.17g x=%s, fresh object: status %d value %.17g x=%s", k, seq[k], a.status, a.value,
             Vs(a.x).c_str(), b.status, b.value, Vs(b.x).c_str());
      return;
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  std::vector<Family> F = families(o.thorough());
  std::vector<Problem> al = reuseAlphabet();
  const size_t CH = 200;  // problems per work unit
  struct Unit { int fam; size_t from, to; };
  std::vector<Unit> U;
  uint64_t states = 0, transitions = 0;
  for (size_t f = 0; f < F.size(); ++f) {
    size_t n = F[f].size();
    states += n;
    for (size_t d = 0, m = n; d < F[f].radix.size(); ++d) { transitions += m / F[f].radix[d] * (F[f].radix[d] - 1); }
    for (size_t i = 0; i < n; i += CH) U.push_back(Unit{(int)f, i, std::min(n, i + CH)});
  }
  // large problems
  struct BigIx { int k, n, r, d, s; };
  std::vector<BigIx> big;
  for (int s = 0; s < 4; ++s)
    for (int k = 0; k < 6; ++k)
      for (int n : {1, 2, 3, 4, 5, 6, 9, 15, 30})
        for (int r : {0, 1, 2, 5, 20, 80, 300})
          for (int d = 0; d < (o.thorough() ? 12 : 4); ++d) big.push_back(BigIx{k, n, r, d, s});
  states += big.size();
  for (size_t i = 0; i < big.size(); i += 20) U.push_back(Unit{-1, i, std::min(big.size(), i + 20)});
  // reuse sequences
  int L = o.thorough() ? 4 : 3;
  size_t nseq = 1;
  for (int i = 0; i < L; ++i) nseq *= al.size();
  states += nseq;
  transitions += nseq * L;
  for (size_t i = 0; i < nseq; i += CH) U.push_back(Unit{-2, i, std::min(nseq, i + CH)});
  for (size_t i = 0; i < 9; ++i) U.insert(U.begin(), Unit{-3, i, i + 1});
  states += 9;
  // one problem
  auto one = [&](int fam, size_t i, Ctx& c) {
    if (fam >= 0) {
      Problem p = F[fam].at(i);
      if (F[fam].units) {
        checkUnits(p, F[fam].units(F[fam].digits(i), p), F[fam].lp, c);
        return;
      }
#ifdef USE_GLPK_SOLVER
      if (F[fam].lp) { checkLP(p, c); return; }
#endif
      if (!F[fam].lp) {
        Exact ex = exactQP(p);
        checkQP(p, ex, c);
        checkObject(p, ex, c);
      }
    } else if (fam == -1) {
      checkBig(bigProblem(big[i].k, big[i].n, big[i].r, big[i].d, big[i].s), c);
    } else if (fam == -3) {
      checkHuge((int)i % 3, HUGE_N[i / 3], c);
    } else {
      std::vector<int> s;
      for (int k = 0; k < L; ++k) { s.push_back((int)(i % al.size())); i /= al.size(); }
      checkSequence(al, s, c);
    }
  };
  // the unit reports the first failing problem of each signature
  struct UCtx : Ctx {
    Ctx* base;
    std::set<std::string> done;
    std::string where;
    void count(const char* m, uint64_t n) override { base->count(m, n); }
    void report(const std::string& sig, const std::string& msg) override {
      if (done.insert(sig).second) base->report(sig, "[" + where + "] " + msg);
    }
  };
  auto name = [&](int fam) { return fam >= 0 ? F[fam].name : std::string(fam == -1 ? "big" : fam == -2 ? "reuse" : "huge"); };
  auto exec = [&](const Unit& u, Ctx& c) {
    UCtx x;
    x.base = &c;
    for (size_t i = u.from; i < u.to; ++i) {
      x.where = name(u.fam) + ":" + std::to_string(i);
      one(u.fam, i, x);
    }
  };
  if (!o.replay.empty()) {
    size_t p = o.replay.find(':');
    std::string fam = o.replay.substr(0, p);
    size_t from = strtoull(o.replay.c_str() + p + 1, nullptr, 10), to = from + 1;
    size_t q = o.replay.find('-', p);
    if (q != std::string::npos) to = strtoull(o.replay.c_str() + q + 1, nullptr, 10) + 1;
    for (int f = -3; f < (int)F.size(); ++f)
      if (name(f) == fam) return mc::Pool::replayOne([&](Ctx& x) { exec(Unit{f, from, to}, x); });
    return 2;
  }
  mc::Pool pool(o);
  pool.run(U.size(), [&](size_t i, Ctx& x) { exec(U[i], x); },
           [&](size_t i) { return name(U[i].fam) + ":" + std::to_string(U[i].from) + "-" + std::to_string(U[i].to - 1); }, states, transitions,
           "every problem of 1, 2 and 3 variables over small integer alphabets (up to 3 or 4 inequalities, up to 3 equalities, twelve kinds of bounds), a family of them in 90 systems of units, "
           "a grid of larger problems, nine with up to 1100 active constraints, and every sequence of problems of the stated length on one solver object");
  return 0;
}
