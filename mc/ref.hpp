// Reference mathematics, written independently of the library under test.
//  * affine-in-x polynomial curves (control points  A_i x + b_i) of any degree,
//    built from boundary conditions by finite differences;
//  * Bernstein products, derivatives, sub-division;
//  * small dense optimisation: NNLS (Lawson-Hanson), least distance programming,
//    strictly convex QP through LDP, LP margin through Seidel's algorithm.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

inline double binom(int n, int k) {
  if (k < 0 || k > n) return 0;
  double r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
inline M3 cross(const V3& v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}

// value affine in x : A x + b
struct Aff {
  Mat A;
  Vec b;
  Vec at(const Vec& x) const { return A * x + b; }
};
inline Aff affZero(int rows, int dim) { return Aff{Mat::Zero(rows, dim), Vec::Zero(rows)}; }

// Bezier curve with affine control points over [0,T]
struct Curve {
  double T;
  std::vector<Aff> p;
  int degree() const { return (int)p.size() - 1; }
  int rows() const { return (int)p[0].b.size(); }
  int dim() const { return (int)p[0].A.cols(); }
  Aff eval(double u) const {  // u normalised, Bernstein sum
    int n = degree();
    Aff r = affZero(rows(), dim());
    for (int i = 0; i <= n; ++i) {
      double c = binom(n, i) * std::pow(u, i) * std::pow(1 - u, n - i);
      if (i == 0 && n == 0) c = 1;
      r.A += c * p[i].A;
      r.b += c * p[i].b;
    }
    return r;
  }
  Curve derivative() const {
    Curve d;
    d.T = T;
    int n = degree();
    if (n == 0) {
      d.p.push_back(affZero(rows(), dim()));
      return d;
    }
    for (int i = 0; i < n; ++i)
      d.p.push_back(Aff{(p[i + 1].A - p[i].A) * (n / T), (p[i + 1].b - p[i].b) * (n / T)});
    return d;
  }
  Curve elevate(int to) const {
    Curve c = *this;
    while (c.degree() < to) {
      int n = c.degree();
      Curve e;
      e.T = T;
      for (int i = 0; i <= n + 1; ++i) {
        double a = (double)i / (n + 1);
        Aff v = affZero(rows(), dim());
        if (i > 0) { v.A += a * c.p[i - 1].A; v.b += a * c.p[i - 1].b; }
        if (i <= n) { v.A += (1 - a) * c.p[i].A; v.b += (1 - a) * c.p[i].b; }
        e.p.push_back(v);
      }
      c = e;
    }
    return c;
  }
  // control points of the restriction to normalised [u0,u1] (blossoming)
  Curve sub(double u0, double u1) const {
    int n = degree();
    Curve r;
    r.T = T * (u1 - u0);
    for (int k = 0; k <= n; ++k) {  // blossom with (n-k) u0 and k u1
      std::vector<Aff> q = p;
      for (int l = 0; l < n; ++l) {
        double u = l < k ? u1 : u0;
        for (int i = 0; i < n - l; ++i) {
          q[i].A = (1 - u) * q[i].A + u * q[i + 1].A;
          q[i].b = (1 - u) * q[i].b + u * q[i + 1].b;
        }
      }
      r.p.push_back(q[0]);
    }
    return r;
  }
  Curve at(const Vec& x) const {
    Curve r;
    r.T = T;
    for (auto& q : p) r.p.push_back(Aff{Mat::Zero(rows(), dim()), q.at(x)});
    return r;
  }
};

// product of two scalar-ish curves through a bilinear map m(a,b)
inline Curve product(const Curve& a, const Curve& b, int rows,
                     const std::function<Aff(const Aff&, const Aff&)>& m) {
  int n = a.degree(), k = b.degree();
  Curve r;
  r.T = a.T;
  for (int s = 0; s <= n + k; ++s) {
    Aff v = affZero(rows, a.dim());
    for (int i = std::max(0, s - k); i <= std::min(n, s); ++i) {
      double c = binom(n, i) * binom(k, s - i) / binom(n + k, s);
      Aff t = m(a.p[i], b.p[s - i]);
      v.A += c * t.A;
      v.b += c * t.b;
    }
    r.p.push_back(v);
  }
  return r;
}

// boundary conditions: vals0[k] = k-th derivative at 0 (k = 0..), vals1 likewise at T
struct Boundary {
  std::vector<V3> d0, d1;
  int nFree = 1;
  bool stopAtFree = false;  // last two control points coincide and are free (capturability)
};

inline std::vector<V3> hermiteEnd(const std::vector<V3>& d, int n, double T, double sign) {
  std::vector<V3> P;
  for (size_t k = 0; k < d.size(); ++k) {
    double f = 1;  // T^k (n-k)!/n!
    for (size_t j = 0; j < k; ++j) f *= T / (n - (double)j);
    V3 v = d[k] * f * (k % 2 ? sign : 1.0);
    for (size_t j = 0; j < k; ++j) v -= (((k - j) % 2) ? -1.0 : 1.0) * binom((int)k, (int)j) * P[j];
    P.push_back(v);
  }
  return P;
}

inline Curve boundaryCurve(const Boundary& B, double T) {
  Curve c;
  c.T = T;
  if (B.stopAtFree) {
    int n = (int)B.d0.size() + 1;
    for (auto& v : hermiteEnd(B.d0, n, T, 1)) c.p.push_back(Aff{Mat::Zero(3, 3), v});
    for (int i = 0; i < 2; ++i) c.p.push_back(Aff{Mat::Identity(3, 3), V3::Zero()});
    return c;
  }
  int n = (int)(B.d0.size() + B.d1.size()) + B.nFree - 1;
  int dim = 3 * B.nFree;
  for (auto& v : hermiteEnd(B.d0, n, T, 1)) c.p.push_back(Aff{Mat::Zero(3, dim), v});
  for (int i = 0; i < B.nFree; ++i) {
    Aff a = affZero(3, dim);
    a.A.block(0, 3 * i, 3, 3).setIdentity();
    c.p.push_back(a);
  }
  auto e = hermiteEnd(B.d1, n, T, -1);
  for (size_t i = e.size(); i-- > 0;) c.p.push_back(Aff{Mat::Zero(3, dim), e[i]});
  return c;
}

// gravito-inertial wrench per unit mass w(t) = [ddc ; c x (ddc - g)] for one free point;
// the quadratic terms x cross x vanish, so w is affine in x.
inline Aff crossAff(const Aff& a, const Aff& b) {
  Aff r = affZero(3, (int)a.A.cols());
  r.b = V3(a.b).cross(V3(b.b));
  r.A = cross(V3(a.b)) * b.A - cross(V3(b.b)) * a.A;
  return r;
}
inline Curve wrenchCurve(const Curve& c, const V3& g) {
  Curve dd = c.derivative().derivative();
  Curve acc = dd;
  for (auto& q : acc.p) q.b -= g;
  Curve mom = product(c, acc, 3, crossAff);
  Curve lin = dd.elevate(mom.degree());
  Curve r;
  r.T = c.T;
  for (int i = 0; i <= mom.degree(); ++i) {
    Aff v = affZero(6, c.dim());
    v.A.topRows(3) = lin.p[i].A;
    v.b.head(3) = lin.p[i].b;
    v.A.bottomRows(3) = mom.p[i].A;
    v.b.tail(3) = mom.p[i].b;
    r.p.push_back(v);
  }
  return r;
}

// ---------------------------------------------------------------- NNLS
// min |A z - f| , z >= 0.  Lawson-Hanson. Returns residual norm.
inline double nnls(const Mat& A, const Vec& f, Vec& z, int maxIter = 0) {
  const int m = (int)A.rows(), n = (int)A.cols();
  z = Vec::Zero(n);
  std::vector<int> P;
  std::vector<char> inP(n, 0);
  Vec r = f;
  double scale = 0;
  for (int j = 0; j < n; ++j) scale = std::max(scale, A.col(j).norm());
  const double tol = 1e-12 * std::max(1.0, scale) * std::max(1.0, f.norm());
  if (!maxIter) maxIter = 30 * (m + 10) + 3 * n;
  std::vector<char> banned(n, 0);
  for (int it = 0; it < maxIter; ++it) {
    Vec w = A.transpose() * r;
    int best = -1;
    double bw = tol;
    for (int j = 0; j < n; ++j)
      if (!inP[j] && !banned[j] && w[j] > bw) { bw = w[j]; best = j; }
    if (best < 0 || (int)P.size() >= m) {
      if (best < 0) break;
    }
    P.push_back(best);
    inP[best] = 1;
    bool first = true;
    while (true) {
      Mat AP(m, P.size());
      for (size_t k = 0; k < P.size(); ++k) AP.col(k) = A.col(P[k]);
      Vec s = AP.colPivHouseholderQr().solve(f);
      if (first && s[P.size() - 1] <= 0) {  // numerically dependent column: reject it
        inP[best] = 0;
        P.pop_back();
        banned[best] = 1;
        break;
      }
      first = false;
      double alpha = 1;
      int drop = -1;
      for (size_t k = 0; k < P.size(); ++k)
        if (s[k] <= 0) {
          double a = z[P[k]] / (z[P[k]] - s[k]);
          if (a < alpha || drop < 0) { if (a <= alpha) { alpha = a; drop = (int)k; } }
        }
      if (drop < 0) {
        for (size_t k = 0; k < P.size(); ++k) z[P[k]] = s[k];
        std::fill(banned.begin(), banned.end(), 0);
        break;
      }
      for (size_t k = 0; k < P.size(); ++k) z[P[k]] += alpha * (s[k] - z[P[k]]);
      z[P[drop]] = 0;
      std::vector<int> Q;
      for (size_t k = 0; k < P.size(); ++k) {
        if ((int)k == drop || z[P[k]] <= 1e-300) { z[P[k]] = 0; inP[P[k]] = 0; }
        else Q.push_back(P[k]);
      }
      P = Q;
      if (P.empty()) break;
    }
    r = f - A * z;
    if (r.norm() < 1e-14 * std::max(1.0, f.norm())) break;
  }
  r = f - A * z;
  return r.norm();
}

// distance (relative to |w|) of w from the cone spanned by the columns of G
inline double coneDistance(const Mat& G, const Vec& w, Vec* coef = nullptr) {
  Vec z;
  double sc = std::max(1.0, w.norm());
  double r = nnls(G, w / sc, z);
  if (coef) *coef = z * sc;
  return r;
}

// least distance: min |z|  s.t. G z >= h. returns false if infeasible (numerically)
inline bool ldp(const Mat& G, const Vec& h, Vec& z, double& infeasMeasure) {
  const int n = (int)G.cols();
  Mat E(n + 1, G.rows());
  E.topRows(n) = G.transpose();
  E.row(n) = h.transpose();
  Vec f = Vec::Zero(n + 1);
  f[n] = 1;
  Vec u;
  double res = nnls(E, f, u);
  infeasMeasure = res;
  Vec r = E * u - f;
  if (res < 1e-9) return false;
  z = -r.head(n) / r[n];
  return true;
}

// ---------------------------------------------------------------- LP (Seidel)
// maximise c.x s.t. A x <= b within the box |x_i| <= R. dimension small (<= 5).
// returns false if infeasible.
inline bool seidel(const Vec& c, const std::vector<Vec>& A, const std::vector<double>& b, double R,
                   Vec& x, double eps = 1e-11) {
  const int d = (int)c.size();
  if (d == 1) {
    double lo = -R, hi = R;
    for (size_t i = 0; i < A.size(); ++i) {
      double a = A[i][0];
      if (a > 1e-14) hi = std::min(hi, b[i] / a);
      else if (a < -1e-14) lo = std::max(lo, b[i] / a);
      else if (b[i] < -eps) return false;
    }
    if (lo > hi + eps * (1 + std::fabs(lo))) return false;
    x = Vec(1);
    x[0] = c[0] > 0 ? hi : lo;
    if (lo > hi) x[0] = 0.5 * (lo + hi);
    return true;
  }
  x = Vec(d);
  for (int i = 0; i < d; ++i) x[i] = c[i] >= 0 ? R : -R;
  for (size_t i = 0; i < A.size(); ++i) {
    double n = A[i].norm();
    if (n < 1e-13) {
      if (b[i] < -eps) return false;
      continue;
    }
    if (A[i].dot(x) <= b[i] + eps * (n + std::fabs(b[i]))) continue;
    // optimum lies on the plane A_i x = b_i : eliminate the largest variable
    int k = 0;
    A[i].cwiseAbs().maxCoeff(&k);
    auto red = [&](const Vec& v) {
      Vec r(d - 1);
      for (int j = 0, q = 0; j < d; ++j)
        if (j != k) r[q++] = v[j];
      return r;
    };
    Vec ak = red(A[i]) / A[i][k];
    double bk = b[i] / A[i][k];
    std::vector<Vec> A2;
    std::vector<double> b2;
    A2.reserve(i + 2);
    b2.reserve(i + 2);
    for (size_t j = 0; j < i; ++j) {
      A2.push_back(red(A[j]) - A[j][k] * ak);
      b2.push_back(b[j] - A[j][k] * bk);
    }
    A2.push_back(-ak); b2.push_back(R - bk);   //  x_k <= R
    A2.push_back(ak); b2.push_back(R + bk);    // -x_k <= R
    Vec c2 = red(c) - c[k] * ak;
    Vec y;
    if (!seidel(c2, A2, b2, R, y, eps)) return false;
    for (int j = 0, q = 0; j < d; ++j)
      if (j != k) x[j] = y[q++];
    x[k] = bk - ak.dot(y);
  }
  return true;
}

// Rows a_i.x <= b_i  (a_i in R^d). Largest s with  a_i.x + s*|a_i| <= b_i  (rows with a~0:
// s <= b_i).  s > 0 : feasible with a ball of radius s; s < 0 : infeasible.
struct Margin {
  double s;
  Vec x;
};
inline Margin margin(const Mat& A, const Vec& b, double R = 1e3, double smax = 10,
                     double zeroRow = 1e-9) {
  const int d = (int)A.cols();
  std::vector<Vec> rows;
  std::vector<double> rhs;
  std::vector<int> ord(A.rows());
  for (int i = 0; i < A.rows(); ++i) ord[i] = i;
  std::mt19937 rng(12345);  // order only affects running time
  std::shuffle(ord.begin(), ord.end(), rng);
  for (int i : ord) {
    double n = A.row(i).norm();
    Vec r(d + 1);
    if (n < zeroRow) {
      r.setZero();
      r[d] = 1;
      rows.push_back(r);
      rhs.push_back(b[i]);
    } else {
      r.head(d) = A.row(i).transpose() / n;
      r[d] = 1;
      rows.push_back(r);
      rhs.push_back(b[i] / n);
    }
  }
  Vec up = Vec::Zero(d + 1);
  up[d] = 1;
  rows.push_back(up);
  rhs.push_back(smax);
  Vec c = Vec::Zero(d + 1), x;
  c[d] = 1;
  Margin m;
  if (!seidel(c, rows, rhs, R, x)) {
    m.s = -R;
    m.x = Vec::Zero(d);
    return m;
  }
  m.s = x[d];
  m.x = x.head(d);
  return m;
}

// min 1/2 x'Hx + g'x  s.t. A x <= b, H positive definite, few variables, via LDP in the
// metric of H. ok=false when infeasible. Rows far from binding would ruin the scaling of the
// LDP, so it works on a growing subset: the optimum of a relaxation that satisfies every row
// is the optimum. Rows whose normal is rounding noise do not bind the variables.
inline bool qp(const Mat& H, const Vec& g, const Mat& A, const Vec& b, Vec& x) {
  Eigen::LLT<Mat> llt(H);
  if (llt.info() != Eigen::Success) return false;
  Mat L = llt.matrixL();
  // x = x0 + L^-T z with x0 = -H^-1 g ;  cost = 1/2 |z|^2 + const
  Vec x0 = -llt.solve(g);
  x = x0;
  if (A.rows() == 0) return true;
  Mat AL = L.triangularView<Eigen::Lower>().solve(A.transpose()).transpose();  // A L^-T
  Vec hb = A * x0 - b;                                                       // -AL z >= hb
  Mat G = -AL;
  std::vector<int> all;
  double big = 0;
  for (int i = 0; i < G.rows(); ++i) big = std::max(big, G.row(i).norm());
  for (int i = 0; i < G.rows(); ++i) {
    double n = G.row(i).norm();
    if (n <= 1e-11 * std::max(1.0, big) || A.row(i).norm() < 1e-11) continue;
    G.row(i) /= n;
    hb[i] /= n;
    all.push_back(i);
  }
  Vec z = Vec::Zero(H.rows());
  std::vector<char> used(G.rows(), 0);
  std::vector<int> rows;
  for (int round = 0; round < 60; ++round) {
    double worst = 0;
    for (int i : all)
      if (!used[i]) worst = std::max(worst, hb[i] - G.row(i).dot(z));
    if (worst <= 1e-12 * (1 + z.norm())) break;
    for (int i : all)
      if (!used[i] && hb[i] - G.row(i).dot(z) > 0.3 * worst) { used[i] = 1; rows.push_back(i); }
    Mat Gs(rows.size(), G.cols());
    Vec hs(rows.size());
    for (size_t k = 0; k < rows.size(); ++k) { Gs.row(k) = G.row(rows[k]); hs[k] = hb[rows[k]]; }
    double s = hs.maxCoeff(), im;
    if (s <= 0) break;  // cannot happen: the first row added is violated at z = 0
    if (!ldp(Gs, hs / s, z, im)) return false;
    z *= s;
  }
  x = x0 + L.transpose().triangularView<Eigen::Upper>().solve(z);
  return true;
}
// maximum over [u0,u1] of the scalar polynomial with Bernstein coefficients q, to accuracy tol:
// exhaustive interval subdivision. returns an attained value > bound as soon as one is found.
inline double bernMax(std::vector<double> q, double bound, int depth = 0) {
  double ends = std::max(q.front(), q.back());
  double hull = *std::max_element(q.begin(), q.end());
  if (hull <= bound || depth > 40 || ends > bound) return ends > bound ? ends : (hull <= bound ? hull : ends);
  std::vector<double> L, Rr = q;
  int n = (int)q.size();
  std::vector<double> R(n);
  for (int l = 0; l < n; ++l) {
    L.push_back(Rr[0]);
    R[n - 1 - l] = Rr[n - 1 - l];
    for (int i = 0; i + 1 < n - l; ++i) Rr[i] = 0.5 * (Rr[i] + Rr[i + 1]);
  }
  double a = bernMax(L, bound, depth + 1);
  if (a > bound) return a;
  return std::max(a, bernMax(R, bound, depth + 1));
}

}  // namespace ref
