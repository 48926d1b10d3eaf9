// C19: exhaustive exploration of the sizes of well-formed requests, through every entry point.
// Built twice. With AddressSanitizer, UBSan and the assertions of Eigen and of the library, each
// state must run to completion. With -DMC_FILL (allocator and stack filled with chosen bytes), the
// answer must be the same whatever memory contained before, i.e. no uninitialised memory is used.
#include "entries.hpp"
namespace es = tsid::solvers;

#ifdef MC_FILL
extern "C" {
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
static volatile int g_fill = -1;
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (g_fill >= 0 && p) memset(p, g_fill, n);
  return p;
}
void free(void* p) { __libc_free(p); }
}
__attribute__((noinline)) void fillStack(int byte) {
  char b[400000];
  memset(b, byte, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}
#endif

namespace {
// --------------------------------------------------------------- solver
struct Case {
  int kind;  // 0 request, 1 front end, 2 sequence of problems on one solver object
  size_t state;
  int n, m, e, data, bounds, solver;
  int seq[4];
};
const int N[] = {1, 2, 3, 4, 6, 7, 15, 33, 64}, M[] = {0, 1, 2, 3, 5, 8, 20, 65, 300}, E[] = {0, 1, 2, 3, 4, 5, 6, 10};

double val(int i, int j, int k) {
  unsigned v = 2654435761u * (unsigned)(i * 7919 + j * 104729 + k * 1299709 + 17);
  v ^= v >> 15, v *= 2246822519u, v ^= v >> 13;
  return ((int)(v % 2001) - 1000) / 1000.;
}
void problem(int n, int m, int e, int data, Mat& H, Vec& g, Mat& A, Vec& b, Mat& D, Vec& dd) {
  H = Mat::Identity(n, n);
  for (int i = 0; i < n; ++i) H(i, i) = 1 + 0.5 * (i % 3);
  for (int i = 0; i + 1 < n; ++i) H(i, i + 1) = H(i + 1, i) = 0.2;
  g = Vec(n);
  for (int i = 0; i < n; ++i) g[i] = val(i, 0, data);
  A = Mat(m, n), b = Vec(m);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) A(i, j) = val(i, j, 3 + data);
    if (data == 1 && i > 0 && i % 2) A.row(i) = A.row(i - 1);  // repeated rows
    if (data == 2 && i == 0) A.row(i).setZero();
    b[i] = 0.3 + 0.1 * (i % 3);
    if (data == 3 && i == m - 1) b[i] = -2;
  }
  D = Mat(e, n), dd = Vec(e);
  for (int i = 0; i < e; ++i) {
    for (int j = 0; j < n; ++j) D(i, j) = val(i, j, 11 + data) + (i == j ? 2 : 0);
    dd[i] = 0.05 * (i % 2);
  }
}
void frontEnd(const Case& c, Digest& d) {
  Mat H, A, D;
  Vec g, b, dd;
  problem(c.n, c.m, c.e, c.data, H, g, A, b, D, dd);
  Vec lo(0), hi(0), init = Vec::Zero(c.n);
  if (c.bounds) {
    lo = Vec::Constant(c.n, -1.5), hi = Vec::Constant(c.n, 2);
    if (c.bounds == 2)
      for (int i = 0; i < c.n; ++i) {
        if (i % 3 == 0) lo[i] = solvers::UNBOUNDED_DOWN;
        if (i % 3 != 2) hi[i] = solvers::UNBOUNDED_UP;
      }
    if (c.bounds == 3) lo[0] = hi[0] = 0.25;
  }
  auto put1 = [&](const solvers::ResultData& r) {
    put(d, r.success_);
    if (r.success_) put(d, r.cost_), putM(d, r.x);
  };
  solvers::SolverType sv = c.solver ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  put1(solvers::solve(A, b, D, dd, H, g, init, lo, hi, sv));
  if (c.e == 0) {
    if (!c.bounds) put1(bct::solve(std::make_pair(A, b), std::make_pair(H, g), init, sv));
  }
  put1(bct::solve(std::make_pair(A, b), std::make_pair(D, dd), std::make_pair(H, g), lo, hi, init, sv));
}
const int SHAPES[][3] = {{2, 0, 3}, {6, 2, 20}, {1, 1, 0}, {6, 0, 0}, {3, 3, 5}, {12, 4, 1}};
const int NSHAPE = sizeof SHAPES / sizeof SHAPES[0];
void sequence(const Case& c, Digest& d) {
  es::EiquadprogFast q;
  for (int k = 0; k < 4; ++k) {
    if (c.seq[k] < 0) break;
    const int* sh = SHAPES[c.seq[k] % NSHAPE];
    bool sparse = c.seq[k] >= NSHAPE;
    Mat H, A, D;
    Vec g, b, dd, x(sh[0]);
    problem(sh[0], sh[2], sh[1], k % 3, H, g, A, b, D, dd);
    x.setZero();
    q.reset(sh[0], sh[1], sh[2]);
    es::EiquadprogFast_status st;
    Mat CI = -A, CE = D;
    Vec ce = -dd;
    if (sparse) {
      Eigen::SparseMatrix<double> S = H.sparseView();
      st = q.solve_quadprog_sparse(S, g, CE, ce, CI, b, x);
    } else
      st = q.solve_quadprog(H, g, CE, ce, CI, b, x);
    put(d, (double)st);
    if (st == es::EIQUADPROG_FAST_OPTIMAL) {
      putM(d, x);
      put(d, q.getObjValue());
      putM(d, q.getLagrangeMultipliers().head(q.getActiveSetSize()));
      putM(d, q.getActiveSet().head(q.getActiveSetSize()).cast<double>());
    }
    put(d, q.getActiveSetSize());
  }
}

std::vector<Case> cases;
std::string describe(const Case& c) {
  char b[200];
  if (c.kind == 0) return voc().sp.key(voc().sp.states[c.state]);
  if (c.kind == 1)
    snprintf(b, sizeof b, "solve:%d:%d:%d:%d:%d:%d", c.n, c.m, c.e, c.data, c.bounds, c.solver);
  else
    snprintf(b, sizeof b, "reuse:%d:%d:%d:%d", c.seq[0], c.seq[1], c.seq[2], c.seq[3]);
  return b;
}

// one run; an exception is part of the outcome
std::string once(const Case& c, const mc::State& s, Digest& d) {
  try {
    if (c.kind == 1) frontEnd(c, d);
    else if (c.kind == 2) sequence(c, d);
    else {
      const std::string& e = voc().sp.dims[voc().entry].values[s[voc().entry]];
      if (e == "effector") effector(s, d);
      else if (e == "symbolic") symbolic(s, d);
      else planning(s, d);
    }
  } catch (const std::exception& ex) {
    return ex.what();
  } catch (...) {
    return "an exception";
  }
  return "";
}

void check(const Case& c, const mc::State& s, Ctx& x) {
#ifdef MC_FILL
  const int NFILL = 4;
  Digest d[NFILL];
  std::string err[NFILL];
  const int B[NFILL] = {0x00, 0xff, 0x40, 0xc0};  // as numbers: 0, NaN, 32.5, -32.5
  {
    Digest warm;  // contact phases and other caches of this program
    once(c, s, warm);
  }
  for (int k = 0; k < NFILL; ++k) {
    d[k].reserve(100000);
    fillStack(B[k]);
    g_fill = B[k];
    err[k] = once(c, s, d[k]);
    g_fill = -1;
  }
  x.count("impl_runs", NFILL);
  x.count("values_compared", (NFILL - 1) * d[0].size());
  for (int k = 1; k < NFILL; ++k) {
    if (err[k] != err[0]) { x.fail("uninitialised", "outcome depends on the content of memory: '%s' / '%s'", err[0].c_str(), err[k].c_str()); return; }
    if (d[k].size() != d[0].size()) { x.fail("uninitialised", "outcome depends on the content of memory: %zu values, %zu values", d[0].size(), d[k].size()); return; }
    for (size_t i = 0; i < d[0].size(); ++i) {
      double u = d[0][i], v = d[k][i];
      if (u == v || (std::isnan(u) && std::isnan(v))) continue;
      if (!(std::fabs(u - v) <= 1e-9 * (1 + std::fabs(u)))) { x.fail("uninitialised", "value %zu depends on the content of memory: %.12g, %.12g", i, u, v); return; }
    }
  }
#else
  Digest d;
  std::string err = once(c, s, d);
  x.count("impl_runs");
  if (!err.empty()) x.fail("raised", "%s", err.c_str());
  else x.count("completed");
#endif
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  Voc& V = voc();
  const bool T = o.thorough();
  std::vector<mc::State> bases;
  auto entryOf = [&](const mc::State& s) { return V.sp.dims[V.entry].values[s[V.entry]]; };
  for (size_t e = 0; e < V.sp.dims[V.entry].values.size(); ++e)
    for (size_t f = 0; f < 8; ++f) {
      mc::State s = V.sp.zero();
      s[V.entry] = (unsigned char)e, s[V.flag] = (unsigned char)f;
      if (entryOf(s).compare(0, 8, "zerostep") == 0 && f) continue;
      if (entryOf(s) == "effector" && f > 2) continue;
      bases.push_back(s);
    }
  std::vector<int> edit;
  for (int d = 2; d < (int)V.sp.dims.size(); ++d) edit.push_back(d);
  auto ok = [&](const mc::State& s) {
    std::string e = entryOf(s);
    unsigned f = rq::comFlags()[s[V.flag]].flag;
    bool com = e.compare(0, 8, "zerostep") != 0 && e != "effector";
    if (com && s[V.cost] == 2 && ((f & bct::END_VEL) || (f & bct::END_JERK))) return false;  // rejected: C11
    if (e == "effector" && (s[V.phases] || s[V.kin] || s[V.contacts] || s[V.acc] || s[V.unset])) return false;
    if (e == "symbolic" && (s[V.kin] || s[V.contacts] || s[V.acc] || s[V.cost])) return false;
    if (e.compare(0, 8, "zerostep") == 0 && (s[V.phases] || s[V.acc] || s[V.cost])) return false;
    int n = atoi(V.sp.dims[V.phases].values[s[V.phases]].c_str());
    int ns = atoi(V.sp.dims[V.samples].values[s[V.samples]].c_str());
    int feet = s[V.contacts] == 6 ? 8 : s[V.contacts] == 2 ? 4 : 2;
    if (e.find("Force") != std::string::npos) {  // variables: 16 per foot, phase and control point
      int w = rq::comFlags()[s[V.flag]].wDegree + 1;
      if (n * w * feet * 16 > (T ? 1600 : 800)) return false;
      if (s[V.samples]) return false;
    }
    if (e.compare(0, 6, "contDD") == 0 && s[V.samples]) return false;
    // rows of the problem: bounded so that every state is answered within seconds
    double per = 0;
    for (int i = 0; i < n; ++i) per += pick(V.sp.dims[V.kin].values[s[V.kin]], i) + 8 + 8 * pick(V.sp.dims[V.contacts].values[s[V.contacts]], i);
    if (com && e != "symbolic") {
      double rows = per * (e.compare(0, 4, "cont") ? ns : 8);
      if (rows > (e.find("glpk") != std::string::npos ? (T ? 12000 : 4000) : (T ? 150000 : 25000))) return false;
    }
    if (n * ns > (T ? 30000 : 4000)) return false;
    return true;
  };
  auto depth = [&](const mc::State& s) {
    if (o.argDepth >= 0) return o.argDepth;
    return entryOf(s).find("Force") != std::string::npos ? (T ? 2 : 1) : (T ? 3 : 2);
  };
  V.sp.explore(bases, edit, depth, ok);
  for (size_t i = 0; i < V.sp.states.size(); ++i) {
    Case c = {};
    c.state = i;
    cases.push_back(c);
  }
  uint64_t tr = V.sp.transitions;
  for (int n : N)
    for (int m : M)
      for (int e : E)
        for (int data = 0; data < 4; ++data)
          for (int b = 0; b < 4; ++b)
            for (int sv = 0; sv < 2; ++sv) {
              if (!T && n > 7 && (b % 2 || data > 1)) continue;
              Case c = {};
              c.kind = 1, c.n = n, c.m = m, c.e = e, c.data = data, c.bounds = b, c.solver = sv;
              cases.push_back(c);
              ++tr;
            }
  const int L = T ? 4 : 3, K = 2 * NSHAPE;
  for (int q = 0, P = (int)std::pow(K, L); q < P; ++q) {
    Case c = {};
    c.kind = 2;
    for (int k = 0, r = q; k < 4; ++k, r /= K) c.seq[k] = k < L ? r % K : -1;
    cases.push_back(c);
    ++tr;
  }
  auto exec = [&](const Case& c, Ctx& x) { check(c, c.kind ? V.sp.zero() : V.sp.states[c.state], x); };
  if (!o.replay.empty()) {
    Case c = {};
    if (sscanf(o.replay.c_str(), "solve:%d:%d:%d:%d:%d:%d", &c.n, &c.m, &c.e, &c.data, &c.bounds, &c.solver) == 6) c.kind = 1;
    else if (sscanf(o.replay.c_str(), "reuse:%d:%d:%d:%d", &c.seq[0], &c.seq[1], &c.seq[2], &c.seq[3]) == 4) c.kind = 2;
    mc::State s = c.kind ? V.sp.zero() : V.sp.parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { check(c, s, x); });
  }
  mc::Pool pool(o);
  pool.run(cases.size(), [&](size_t i, Ctx& x) { exec(cases[i], x); },
           [&](size_t i) { return describe(cases[i]); }, cases.size(), tr,
           "sizes of requests reachable from every (entry point, constraint set) base by the stated number of edits, "
           "every problem shape (variables, rows, equalities, data, bounds) for both solvers, and every sequence of "
           "problem shapes on one solver object");
  return 0;
}
