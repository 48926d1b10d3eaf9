// C14: two planning calls under every order of their conflicting memory accesses. This file, the
// library and its headers are compiled with -fsanitize=thread; the runtime is sched.cpp.
#include "entries.hpp"
#include "sched.hpp"
using mc::Ctx;

namespace {
struct Call {
  mc::State s;
  bct::ProblemData pd;
  Vec Ts;
  double T = 0;
};
std::string entryOf(const mc::State& s) { return voc().sp.dims[voc().entry].values[s[voc().entry]]; }
void prepare(Call& c) {
  if (entryOf(c.s) == "effector") effectorRequest(c.s, c.pd, c.T);
  else requestOf(c.s, c.pd, c.Ts);
}
std::string perform(const mc::State& s, const Call& c, std::vector<double>& d) {
  try {
    std::string e = entryOf(s);
    if (e == "effector") effectorOn(s, c.pd, c.T, d);
    else if (e == "symbolic") symbolicOn(s, c.pd, c.Ts, d);
    else planningOn(s, c.pd, c.Ts, d);
  } catch (const std::exception& ex) {
    return std::string("raised ") + ex.what();
  } catch (...) {
    return "raised an exception";
  }
  return "";
}

struct Case {
  mc::State a, b;
  bool shared;  // both calls on the description of a
};
std::string describe(const Case& c) {
  return std::string(c.shared ? "shared" : "separate") + " | " + voc().sp.key(c.a) + " | " + voc().sp.key(c.b);
}
bool same(const std::vector<double>& u, const std::vector<double>& v) {
  if (u.size() != v.size()) return false;
  for (size_t i = 0; i < u.size(); ++i)
    if (!(u[i] == v[i] || (std::isnan(u[i]) && std::isnan(v[i])))) return false;
  return true;
}
struct Alone {
  sched::Outcome o;
};

bool g_thorough = false;

void check(const Case& c, Ctx& x) {
  // a description per thread, or one for both; built afresh for every case
  Call ca, cb;
  ca.s = c.a, cb.s = c.b;
  prepare(ca);
  prepare(cb);
  const Call& second = c.shared ? ca : cb;
  sched::Body A = [&](std::vector<double>& d) { return perform(c.a, ca, d); };
  sched::Body B = [&](std::vector<double>& d) { return perform(c.b, second, d); };
  sched::Schedule s0;
  const double limit = 20;
  sched::Outcome a = sched::execute(A, nullptr, s0, {}, limit), b = sched::execute(B, nullptr, s0, {}, limit);
  x.count("impl_runs", 2);
  if (a.hang || b.hang || a.signal || b.signal) {
    x.count("alone_not_answered");
    return;
  }
  x.count("memory_accesses_observed", a.accesses[0] + b.accesses[0]);
  auto judge = [&](const sched::Schedule& s, const sched::Outcome& o) {
    x.count("impl_runs", 2);
    x.count("schedules");
    std::string sd = "first " + std::to_string(s.first + 1);
    for (int k : s.switchAt) sd += ", switch at " + std::to_string(k);
    if (o.hang) { x.fail("no-answer", "no answer under schedule %s", sd.c_str()); return false; }
    if (o.signal) { x.fail("died", "died (%d) under schedule %s", o.signal, sd.c_str()); return false; }
    const sched::Outcome* alone[2] = {&a, &b};
    for (int k = 0; k < 2; ++k) {
      if (o.error[k] != alone[k]->error[0]) {
        x.fail("outcome", "call %d: '%s' instead of '%s' under schedule %s", k + 1, o.error[k].c_str(), alone[k]->error[0].c_str(), sd.c_str());
        return false;
      }
      if (!same(o.digest[k], alone[k]->digest[0])) {
        size_t i = 0;
        while (i < o.digest[k].size() && i < alone[k]->digest[0].size() && o.digest[k][i] == alone[k]->digest[0][i]) ++i;
        x.fail("result", "call %d returns something else than alone (value %zu) under schedule %s", k + 1, i, sd.c_str());
        return false;
      }
    }
    return true;
  };
  // visible operations: accesses to memory both threads use in some execution, at least one of them
  // writing (found by the executions themselves, to a fixed point), lock operations, and calls into
  // libraries whose accesses are not seen. Executions that order these in the same way are equivalent.
  std::vector<uint64_t> vis;
  std::set<uint64_t> K;
  std::set<sched::Schedule> done;
  std::vector<sched::Schedule> todo;
  const size_t cap = g_thorough ? 6000 : 700;
  size_t runs = 0;
  for (int round = 0; round < 6; ++round) {
    size_t before = K.size();
    done.clear();
    todo.clear();
    for (int f = 0; f < 2; ++f) {
      sched::Schedule s;
      s.first = f;
      todo.push_back(s);
    }
    bool grew = false;
    for (size_t i = 0; i < todo.size(); ++i) {
      if (runs > cap) { x.count("pairs_cut_at_bound"); return; }
      sched::Schedule s = todo[i];
      if (!done.insert(s).second) continue;
      sched::Outcome o = sched::execute(A, B, s, vis, limit);
      ++runs;
      if (!judge(s, o)) return;
      for (uint64_t g : o.conflicts) grew |= K.insert(g).second;
      if (grew && s.switchAt.empty() && i >= 1) break;  // the points are known only now
      // one more preemption of the thread that runs after the last switch
      size_t np = s.switchAt.size();
      if (np >= 2) continue;
      int t = np % 2 == 0 ? s.first : 1 - s.first;
      int n = o.visible[t], from = 0;
      std::set<int> at;
      if (n <= (np == 0 ? 200 : 40)) for (int k = from; k < n; ++k) at.insert(k);
      else {
        // a long run of visible operations: the first and the last ones, and the first of every code location
        for (int k = 0; k < 20; ++k) at.insert(k), at.insert(n - 1 - k);
        for (int k : o.firstOf[t]) at.insert(k);
        if (np == 1 && at.size() > 40) { std::set<int> few(o.firstOf[t].begin(), o.firstOf[t].end()); at = few; }
      }
      for (int k : at) {
        sched::Schedule q = s;
        q.switchAt.push_back(k);
        todo.push_back(q);
      }
    }
    if (!grew || K.size() == before) break;
    vis.assign(K.begin(), K.end());
  }
  if (K.empty()) x.count("pairs_without_conflict");
  else x.count("pairs_with_conflicts");
}
}  // namespace

int main(int argc, char** argv) {
  sched::init();
  Eigen::initParallel();  // what Eigen asks of a program with several threads (versions before 3.4)
  mc::Options o = mc::Options::parse(argc, argv);
  g_thorough = o.thorough();
  Voc& V = voc();
  for (int f : {1, 2, 4, 8}) stance(f);
  // requests: every entry point and constraint set, and every single change of the first ones
  std::vector<mc::State> base, edited;
  auto ok = [&](const mc::State& s) {
    std::string e = entryOf(s);
    unsigned f = rq::comFlags()[s[V.flag]].flag;
    bool zero = e.compare(0, 8, "zerostep") == 0, com = !zero && e != "effector";
    if (zero && (s[V.flag] || s[V.phases] || s[V.acc] || s[V.cost])) return false;
    if (e == "effector" && (s[V.flag] > 2 || s[V.phases] || s[V.kin] || s[V.contacts] || s[V.acc] || s[V.unset])) return false;
    if (com && s[V.cost] == 2 && ((f & bct::END_VEL) || (f & bct::END_JERK))) return false;
    if (e == "symbolic" && (s[V.kin] || s[V.contacts] || s[V.acc] || s[V.cost])) return false;
    if (e.find("Force") != std::string::npos && (rq::comFlags()[s[V.flag]].wDegree > 5 || s[V.phases] > 1)) return false;
    return true;
  };
  for (size_t e = 0; e < V.sp.dims[V.entry].values.size(); ++e)
    for (size_t f = 0; f < 8; ++f) {
      mc::State s = V.sp.zero();
      s[V.entry] = (unsigned char)e, s[V.flag] = (unsigned char)f;
      if (!ok(s)) continue;
      base.push_back(s);
    }
  auto variants = [&](const mc::State& b) {
    std::vector<mc::State> r;
    for (int d : {V.phases, V.kin, V.contacts, V.acc, V.cost, V.samples, V.times, V.motion})
      for (int v = 1; v < 3; ++v) {
        if (v >= (int)V.sp.dims[d].values.size()) continue;
        mc::State s = b;
        s[d] = (unsigned char)v;
        if (ok(s)) r.push_back(s);
      }
    return r;
  };
  std::vector<Case> cases;
  uint64_t tr = 0;
  for (auto& a : base)
    for (auto& b : base) {
      ++tr;
      // separate descriptions: quick, all pairs of entry points for one constraint set, and all pairs
      // of constraint sets for one entry point
      bool zb = b[V.flag] == 0 && a[V.flag] == 0, ee = a[V.entry] == b[V.entry];
      if ((o.thorough() || zb || ee) && !(b < a)) cases.push_back(Case{a, b, false});
      // one description: the same constraint set, entry points with the same reading of it
      std::string x = entryOf(a), y = entryOf(b);
      if (a[V.flag] != b[V.flag] || b < a) continue;
      bool zx = x.compare(0, 8, "zerostep") == 0, zy = y.compare(0, 8, "zerostep") == 0;
      bool fx = x.find("Force") != std::string::npos, fy = y.find("Force") != std::string::npos;
      bool ax = x.find("-am") != std::string::npos, ay = y.find("-am") != std::string::npos;
      if ((x == "effector") != (y == "effector") || zx != zy || fx != fy || ax != ay) continue;
      cases.push_back(Case{a, b, true});
    }
  for (auto& a : base)
    if (o.thorough() || a[V.flag] == 0 || a[V.flag] == 5)
      for (auto& b : variants(a)) {
        ++tr;
        cases.push_back(Case{a, b, false});
        cases.push_back(Case{b, b, true});
      }
  auto parse = [&](const std::string& k) {
    size_t p = k.find(" | "), q = k.find(" | ", p + 3);
    return Case{V.sp.parse(k.substr(p + 3, q - p - 3)), V.sp.parse(k.substr(q + 3)), k.substr(0, p) == "shared"};
  };
  if (!o.replay.empty()) {
    Case c = parse(o.replay);
    return mc::Pool::replayOne([&](Ctx& x) { check(c, x); });
  }
  o.stateLimit = 200;
  mc::Pool pool(o);
  pool.run(cases.size(), [&](size_t i, Ctx& x) { check(cases[i], x); }, [&](size_t i) { return describe(cases[i]); },
           cases.size(), tr,
           "pairs of calls (all entry points x constraint sets, on separate and on shared descriptions); for each pair "
           "all interleavings of its conflicting accesses and library calls with at most 2 preemptions (long runs of "
           "conflicting accesses: the first and last 20 and the first of each code location)");
  return 0;
}
