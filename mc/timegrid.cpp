// C12: the time grids. Every sequence of phase durations over a finite alphabet, every step and
// every number of points per phase, executed on the real functions and judged instant by instant.
#include <hpp/bezier-com-traj/utils.hh>

#include <cfloat>
#include <cmath>

#include "explore.hpp"

namespace {
namespace bct = bezier_com_traj;
using mc::Ctx;
const double D[] = {1, 0.1, 0.3, 1.0 / 3, 0.7, 2.5, 0.6, 1e-3, 40, 0.05, 1.1};
const char* DN[] = {"1", "0.1", "0.3", "1/3", "0.7", "2.5", "0.6", "1e-3", "40", "0.05", "1.1"};
const int ND = sizeof D / sizeof *D;
const double S[] = {0.1, 0.05, 0.037, 0.01, 1.0 / 3, 0.3, 1e-3, 0.7, 1e-4, 3, 0.025, 0.5};
const int NS = sizeof S / sizeof *S;
const int P[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 20, 50, 100, 333, 1000, 4001};
const int NP = sizeof P / sizeof *P;

struct Case {
  std::vector<int> d;
};
std::string show(const std::vector<int>& d) {
  std::string s = "durations";
  for (int i : d) s += std::string(" ") + DN[i];
  return s;
}

void judge(Ctx& x, const bct::T_time& g, const bct::VectorX& Ts, double step, int points, const std::string& what) {
  const int n = (int)Ts.size();
  const double T = Ts.sum();
  x.count("impl_runs");
  x.count("instants_checked", g.size());
  auto bad = [&](const char* sig, const char* msg, double a, double b) {
    x.fail(sig, "%s: %s (%.17g, %.17g)", what.c_str(), msg, a, b);
  };
  if (g.empty()) { bad("empty", "no instant", 0, 0); return; }
  if (g.front().first != 0 || g.front().second != 0) bad("start", "does not start at 0 in the first phase", g.front().first, g.front().second);
  // any order of summing n durations is within (n-1) roundings
  double ulp = T * DBL_EPSILON;
  if (!(std::fabs(g.back().first - T) <= (n - 1) * ulp)) bad("end", "does not end at the total duration", g.back().first, T);
  if ((int)g.back().second != n - 1) bad("end-phase", "the last instant is not in the last phase", g.back().second, n - 1);
  std::vector<double> b(n + 1, 0);
  for (int i = 0; i < n; ++i) b[i + 1] = b[i] + Ts[i];
  const double tol = 1e-9 * T;
  std::vector<int> cnt(n, 0);
  std::vector<char> first(n, 0), last(n, 0);
  for (size_t k = 0; k < g.size(); ++k) {
    double t = g[k].first;
    int p = (int)g[k].second;
    if (!(p >= 0 && p < n)) { bad("phase", "unknown phase", t, p); return; }
    if (!(t >= b[p] - tol && t <= b[p + 1] + tol)) { bad("phase", "instant labelled with a phase it does not belong to", t, p); return; }
    ++cnt[p];
    if (k) {
      double u = g[k - 1].first;
      int q = (int)g[k - 1].second;
      if (t < u) { bad("backwards", "goes backwards", u, t); return; }
      if (p < q || p > q + 1) { bad("phase-order", "phases out of order", q, p); return; }
      if (step > 0 && t - u > step * (1 + 1e-6)) { bad("gap", "gap larger than the step", t - u, step); return; }
      if (p == q && step > 0 && t - u < 1e-9 * step) { bad("twice", "the same instant twice in a phase", u, t); return; }
      if (points > 0 && t - u > Ts[p] / points * (1 + 1e-6) + tol) { bad("gap", "gap larger than a point's share", t - u, Ts[p] / points); return; }
    }
    // both ends of every phase, whatever the label at a switch
    for (int i = std::max(0, p - 1); i <= std::min(n - 1, p + 1); ++i) {
      if (std::fabs(t - b[i]) <= tol) first[i] = 1;
      if (std::fabs(t - b[i + 1]) <= tol) last[i] = 1;
    }
  }
  for (int i = 0; i < n; ++i) {
    if (!first[i]) bad("phase-start", "the start of a phase is missing", i, b[i]);
    if (!last[i]) bad("phase-end", "the end of a phase is missing", i, b[i + 1]);
    if (!cnt[i]) bad("phase-none", "a phase has no instant", i, 0);
    if (points > 0 && cnt[i] != points + (i == 0)) bad("points", "wrong number of instants in a phase", cnt[i], points);
  }
}

void check(const std::vector<int>& d, Ctx& x, bool thorough) {
  bct::VectorX Ts(d.size());
  double mn = 1e9;
  for (size_t i = 0; i < d.size(); ++i) Ts[i] = D[d[i]], mn = std::min(mn, Ts[i]);
  const double limit = thorough ? 1e6 : 3e4;
  const bct::VectorX keep = Ts;
  for (int s = 0; s < NS; ++s) {
    if (2 * S[s] > mn) { x.count("step_above_half_phase"); continue; }  // documented requirement
    if (Ts.sum() / S[s] > limit) continue;
    x.count("grids");
    judge(x, bct::computeDiscretizedTime(Ts, S[s]), Ts, S[s], 0, show(d) + " step " + std::to_string(S[s]));
  }
  // steps that divide the shortest phase into m parts, exactly or within rounding
  for (int m = 2; m <= (thorough ? 60 : 25); ++m) {
    double st = mn / m;
    if (Ts.sum() / st > limit) continue;
    x.count("grids");
    judge(x, bct::computeDiscretizedTime(Ts, st), Ts, st, 0, show(d) + " shortest phase in " + std::to_string(m));
  }
  for (int p = 0; p < NP; ++p) {
    if (Ts.size() * (double)P[p] > limit) continue;
    if (!thorough && d.size() > 3 && P[p] > 20) continue;
    x.count("grids");
    judge(x, bct::computeDiscretizedTimeFixed(Ts, P[p]), Ts, 0, P[p], show(d) + " points " + std::to_string(P[p]));
  }
  if (Ts != keep) x.fail("input", "%s: durations modified", show(d).c_str());
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::Options::parse(argc, argv);
  if (!o.replay.empty()) {
    std::stringstream ss(o.replay);
    std::string w;
    std::vector<int> d;
    while (ss >> w)
      for (int i = 0; i < ND; ++i)
        if (w == DN[i]) d.push_back(i);
    return mc::Pool::replayOne([&](Ctx& x) { check(d, x, true); });
  }
  int depth = o.argDepth > 0 ? o.argDepth : 4;
  std::vector<std::vector<int> > c;
  std::vector<std::vector<int> > cur(1);
  for (int k = 0; k < depth; ++k) {
    std::vector<std::vector<int> > nx;
    for (auto& v : cur)
      for (int i = 0; i < ND; ++i) {
        auto u = v;
        u.push_back(i);
        nx.push_back(u);
      }
    c.insert(c.end(), nx.begin(), nx.end());
    cur.swap(nx);
  }
  // long sequences: period 1 and 2
  for (int n : {5, 6, 8, 13, 40})
    for (int i = 0; i < ND; ++i)
      for (int j = 0; j < ND; ++j) {
        std::vector<int> v;
        for (int k = 0; k < n; ++k) v.push_back(k % 2 ? j : i);
        c.push_back(v);
      }
  mc::Pool pool(o);
  bool th = o.thorough();
  pool.run(c.size(), [&](size_t i, Ctx& x) { check(c[i], x, th); }, [&](size_t i) { return show(c[i]); }, c.size(), c.size(),
           "all sequences of 1.." + std::to_string(depth) + " phase durations out of 11 values, and alternating sequences of up to 40 phases; 12 steps and all divisions of the shortest phase (documented requirement: two steps per phase), 18 numbers of points");
  return 0;
}
