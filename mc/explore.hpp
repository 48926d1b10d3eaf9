// Explicit-state exploration engine.
//  Space  : finite product of named dimensions; a state is one value per dimension.
//           States are reached from base states by single-dimension edits (transitions);
//           breadth-first up to a stated depth, with a visited set.
//  Pool   : executes one callback per state in forked workers (a crash or hang of the code
//           under test is attributed to the state that caused it), confirms every violation
//           in a fresh process, and writes a machine-readable result file.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

typedef std::vector<unsigned char> State;

struct Dim {
  std::string name;
  std::vector<std::string> values;
};

struct Space {
  std::vector<Dim> dims;
  std::vector<State> states;      // in BFS order
  std::vector<int> depthOf;
  uint64_t transitions = 0;
  std::set<State> seen;

  int add(const std::string& n, const std::vector<std::string>& v) {
    dims.push_back(Dim{n, v});
    return (int)dims.size() - 1;
  }
  int dim(const std::string& n) const {
    for (size_t i = 0; i < dims.size(); ++i)
      if (dims[i].name == n) return (int)i;
    fprintf(stderr, "no dimension %s\n", n.c_str());
    abort();
  }
  int val(int d, const std::string& v) const {
    for (size_t i = 0; i < dims[d].values.size(); ++i)
      if (dims[d].values[i] == v) return (int)i;
    fprintf(stderr, "no value %s of %s\n", v.c_str(), dims[d].name.c_str());
    abort();
  }
  State zero() const { return State(dims.size(), 0); }
  std::string key(const State& s) const {
    std::string r;
    for (size_t i = 0; i < dims.size(); ++i)
      if (s[i] || i < 3) r += (r.empty() ? "" : ";") + dims[i].name + "=" + dims[i].values[s[i]];
    return r;
  }
  State parse(const std::string& k) const {
    State s = zero();
    std::stringstream ss(k);
    std::string item;
    while (std::getline(ss, item, ';')) {
      if (item.empty()) continue;
      size_t e = item.find('=');
      int d = dim(item.substr(0, e));
      s[d] = (unsigned char)val(d, item.substr(e + 1));
    }
    return s;
  }
  // breadth-first exploration: from each base, every sequence of at most `depth(base)` edits of
  // dimensions in `edit`; `ok` prunes states that are not meaningful requests.
  void explore(const std::vector<State>& bases, const std::vector<int>& edit,
               const std::function<int(const State&)>& depth,
               const std::function<bool(const State&)>& ok) {
    for (const State& b : bases) {
      int D = depth(b);
      std::deque<std::pair<State, int> > q;
      std::set<State> local;
      if (!ok(b)) continue;
      q.push_back(std::make_pair(b, 0));
      local.insert(b);
      while (!q.empty()) {
        State s = q.front().first;
        int d = q.front().second;
        q.pop_front();
        if (seen.insert(s).second) {
          states.push_back(s);
          depthOf.push_back(d);
        }
        if (d >= D) continue;
        for (int e : edit) {
          unsigned char old = s[e];
          if (old != b[e]) continue;  // each dimension is edited once along a path
          for (size_t v = 0; v < dims[e].values.size(); ++v) {
            if (v == old) continue;
            s[e] = (unsigned char)v;
            ++transitions;
            if (ok(s) && local.insert(s).second) q.push_back(std::make_pair(s, d + 1));
          }
          s[e] = old;
        }
      }
    }
  }
};

struct Ctx {
  virtual ~Ctx() {}
  virtual void count(const char* metric, uint64_t n = 1) = 0;
  virtual void report(const std::string& sig, const std::string& msg) = 0;
  void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    report(sig, buf);
  }
};

inline std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}

struct Options {
  std::string prop, tier = "quick", out, replay, known;
  int workers = 8;
  double deadline = 600;     // seconds for the whole exploration
  double stateLimit = 60;    // seconds for one state
  int argDepth = -1;
  bool onlyCrash = false;    // report only runs that die, whatever the oracle of the explorer says
  static Options parse(int argc, char** argv) {
    Options o;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--prop") o.prop = next();
      else if (a == "--tier") o.tier = next();
      else if (a == "--out") o.out = next();
      else if (a == "--known") o.known = next();
      else if (a == "--replay") o.replay = next();
      else if (a == "--workers") o.workers = atoi(next().c_str());
      else if (a == "--deadline") o.deadline = atof(next().c_str());
      else if (a == "--depth") o.argDepth = atoi(next().c_str());
      else if (a == "--only-crash") o.onlyCrash = true;
      else if (a == "--state-limit") o.stateLimit = atof(next().c_str());
    }
    return o;
  }
  bool thorough() const { return tier == "thorough"; }
};

struct Finding {
  std::string sig, msg;
  size_t idx;
};

class Pool {
 public:
  typedef std::function<void(size_t, Ctx&)> Exec;
  typedef std::function<std::string(size_t)> Describe;
  Options opt;
  std::map<std::string, uint64_t> metrics;
  std::vector<Finding> confirmed;
  std::vector<std::string> unconfirmed;
  size_t executed = 0, total = 0;
  bool complete = false;
  std::map<std::string, std::string> extra;  // extra JSON members (raw JSON)

  explicit Pool(const Options& o) : opt(o) {}

 private:
  enum { NM = 256, NW = 64 };
  struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> lock;
    int nmetrics;
    char mname[NM][64];
    std::atomic<uint64_t> mval[NM];
    std::atomic<uint64_t> done;
    std::atomic<int64_t> cur[NW];
    std::atomic<double> start[NW];
  };
  struct WCtx : Ctx {
    Shared* sh;
    int fd;
    size_t idx;
    std::map<std::string, int> cache;
    void count(const char* m, uint64_t n) override {
      auto it = cache.find(m);
      int id;
      if (it == cache.end()) {
        while (sh->lock.exchange(1)) usleep(10);
        id = -1;
        for (int i = 0; i < sh->nmetrics; ++i)
          if (!strcmp(sh->mname[i], m)) id = i;
        if (id < 0 && sh->nmetrics < NM) {
          id = sh->nmetrics;
          strncpy(sh->mname[id], m, 63);
          sh->nmetrics++;
        }
        sh->lock = 0;
        cache[m] = id;
      } else
        id = it->second;
      if (id >= 0) sh->mval[id] += n;
    }
    void report(const std::string& sig, const std::string& msg) override {
      std::string l = std::to_string(idx) + "\t" + sig + "\t" + msg;
      for (char& c : l)
        if (c == '\n') c = ' ';
      if (l.size() > 3000) l.resize(3000);
      l += "\n";
      if (write(fd, l.data(), l.size()) < 0) _exit(99);
    }
  };
  Shared* sh = nullptr;

  static void drain(int fd, std::string& buf) {
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) buf.append(b, n);
  }

  pid_t spawn(int slot, int wfd, const Exec& exec, const std::vector<size_t>* list) {
    pid_t p = fork();
    if (p) return p;
    signal(SIGTERM, SIG_DFL);
    // silence the library's chatter on stdout
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!getenv("MC_STDERR")) dup2(nul, 2);
    WCtx c;
    c.sh = sh;
    c.fd = wfd;
    size_t n = list ? list->size() : total;
    while (true) {
      uint64_t k = sh->next++;
      if (k >= n) break;
      size_t i = list ? (*list)[k] : (size_t)k;
      c.idx = i;
      sh->start[slot] = now();
      sh->cur[slot] = (int64_t)i;
      exec(i, c);
      sh->cur[slot] = -1;
      sh->done++;
    }
    _exit(0);
  }

  // runs all indices of `list` (or 0..total-1); returns findings
  std::vector<Finding> sweep(const Exec& exec, const std::vector<size_t>* list, int workers,
                             double limit, double until, bool& finished) {
    std::vector<Finding> out;
    int pfd[2];
    if (pipe(pfd)) abort();
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    fcntl(pfd[0], F_SETPIPE_SZ, 1 << 20);
    sh->next = 0;
    sh->done = 0;
    std::vector<pid_t> pid(workers, 0);
    std::string buf;
    int crashes = 0;
    for (int w = 0; w < workers; ++w) {
      sh->cur[w] = -1;
      pid[w] = spawn(w, pfd[1], exec, list);
    }
    int live = workers;
    finished = true;
    while (live > 0) {
      drain(pfd[0], buf);
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = -1;
        for (int i = 0; i < workers; ++i)
          if (pid[i] == p) w = i;
        if (w < 0) continue;
        pid[w] = 0;
        --live;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        int64_t i = sh->cur[w];
        if (i >= 0) {
          Finding f;
          f.idx = (size_t)i;
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            f.sig = "timeout";
            f.msg = "no answer within the time limit for one state (or killed)";
          } else if (WIFSIGNALED(st)) {
            f.sig = std::string("crash-sig") + std::to_string(WTERMSIG(st));
            f.msg = std::string("process died: ") + strsignal(WTERMSIG(st));
          } else {
            f.sig = "crash-exit" + std::to_string(WEXITSTATUS(st));
            f.msg = "process ended unexpectedly";
          }
          out.push_back(f);
          sh->done++;
        }
        if (++crashes < 60) {
          sh->cur[w] = -1;
          pid[w] = spawn(w, pfd[1], exec, list);
          ++live;
        } else
          finished = false;
        continue;
      }
      double t = now();
      for (int w = 0; w < workers; ++w)
        if (pid[w] && sh->cur[w] >= 0 && t - sh->start[w] > limit) kill(pid[w], SIGKILL);
      if (t > until) {
        for (int w = 0; w < workers; ++w)
          if (pid[w]) {
            sh->cur[w] = -1;
            kill(pid[w], SIGKILL);
          }
        while (live > 0 && waitpid(-1, &st, 0) > 0) --live;
        finished = false;
        break;
      }
      usleep(5000);
    }
    drain(pfd[0], buf);
    close(pfd[0]);
    close(pfd[1]);
    std::stringstream ss(buf);
    std::string l;
    while (std::getline(ss, l)) {
      size_t a = l.find('\t'), b = l.find('\t', a + 1);
      if (a == std::string::npos || b == std::string::npos) continue;
      out.push_back(Finding{l.substr(a + 1, b - a - 1), l.substr(b + 1), (size_t)atoll(l.c_str())});
    }
    return out;
  }

 public:
  void run(size_t n, const Exec& exec, const Describe& describe, uint64_t states,
           uint64_t transitions, const std::string& bounds) {
    double t0 = now();
    total = n;
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shared));
    bool fin = true;
    int W = std::max(1, std::min(opt.workers, (int)NW));
    std::vector<Finding> f = sweep(exec, nullptr, W, opt.stateLimit, t0 + opt.deadline, fin);
    if (opt.onlyCrash)
      f.erase(std::remove_if(f.begin(), f.end(), [](const Finding& v) {
                return v.sig.compare(0, 5, "crash") && v.sig.compare(0, 4, "died");
              }), f.end());
    complete = fin && sh->done >= n;
    executed = (size_t)sh->done.load();
    for (int i = 0; i < sh->nmetrics; ++i) metrics[sh->mname[i]] = sh->mval[i];
    // findings that are listed (exact signature and state) are counted apart
    std::set<std::string> knownHits;
    if (!opt.known.empty()) {
      std::set<std::string> listed;
      if (FILE* k = fopen(opt.known.c_str(), "r")) {
        char line[8192];
        while (fgets(line, sizeof line, k)) {
          std::string l = line;
          while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
          listed.insert(l);
        }
        fclose(k);
      }
      std::vector<Finding> rest;
      for (auto& v : f) {
        std::string id = v.sig + "\t" + describe(v.idx);
        if (listed.count(id)) knownHits.insert(id);
        else rest.push_back(v);
      }
      f.swap(rest);
    }
    // confirmation: the earliest states (fewest edits) for each signature, each in a new process
    std::map<std::string, std::vector<Finding> > bySig;
    for (auto& v : f) bySig[v.sig].push_back(v);
    std::map<std::string, size_t> sigCount;
    int nsig = 0;
    for (auto& kv : bySig) {
      sigCount[kv.first] = kv.second.size();
      if (++nsig > 40) break;
      std::vector<Finding>& v = kv.second;
      std::sort(v.begin(), v.end(), [](const Finding& a, const Finding& b) { return a.idx < b.idx; });
      int tries = 0, ok = 0;
      for (auto& c : v) {
        if (tries++ >= 4 || ok >= 2) break;
        std::vector<size_t> one(1, c.idx);
        bool f2;
        auto r = sweep(exec, &one, 1, 2 * opt.stateLimit, now() + 3 * opt.stateLimit, f2);
        bool again = false;
        for (auto& x : r)
          if (x.sig == c.sig) again = true;  // the signature, not the wording
        if (again) { confirmed.push_back(c); ++ok; }
        else unconfirmed.push_back(c.sig + " at " + describe(c.idx) + ": " + c.msg);
      }
    }
    // result file
    FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    fprintf(o, "{\n \"prop\": \"%s\", \"tier\": \"%s\",\n", opt.prop.c_str(), opt.tier.c_str());
    fprintf(o, " \"states\": %llu, \"transitions\": %llu, \"executed\": %zu, \"exhaustive\": %s,\n",
            (unsigned long long)states, (unsigned long long)transitions, executed,
            complete ? "true" : "false");
    fprintf(o, " \"bounds\": \"%s\",\n", jesc(bounds).c_str());
    fprintf(o, " \"metrics\": {");
    bool first = true;
    for (auto& m : metrics) {
      fprintf(o, "%s\n  \"%s\": %llu", first ? "" : ",", jesc(m.first).c_str(), (unsigned long long)m.second);
      first = false;
    }
    fprintf(o, "\n },\n \"samples\": [");
    for (size_t k = 0; k < 5 && n > 0; ++k) {
      size_t i = n * (2 * k + 1) / 10;
      if (i >= n) i = n - 1;
      fprintf(o, "%s\n  \"%s\"", k ? "," : "", jesc(describe(i)).c_str());
    }
    fprintf(o, "\n ],\n \"unconfirmed\": [");
    for (size_t k = 0; k < unconfirmed.size(); ++k)
      fprintf(o, "%s\n  \"%s\"", k ? "," : "", jesc(unconfirmed[k]).c_str());
    fprintf(o, "\n ],\n \"violation_counts\": {");
    first = true;
    for (auto& s : sigCount) {
      fprintf(o, "%s\n  \"%s\": %zu", first ? "" : ",", jesc(s.first).c_str(), s.second);
      first = false;
    }
    fprintf(o, "\n },\n \"known_hits\": [");
    first = true;
    for (auto& s : knownHits) {
      std::string sig = s.substr(0, s.find('\t')), st = s.substr(s.find('\t') + 1);
      fprintf(o, "%s\n  [\"%s\", \"%s\"]", first ? "" : ",", jesc(sig).c_str(), jesc(st).c_str());
      first = false;
    }
    fprintf(o, "\n ],\n");
    for (auto& e : extra) fprintf(o, " \"%s\": %s,\n", e.first.c_str(), e.second.c_str());
    fprintf(o, " \"violations\": [");
    for (size_t k = 0; k < confirmed.size(); ++k)
      fprintf(o, "%s\n  {\"sig\": \"%s\", \"state\": \"%s\", \"msg\": \"%s\"}", k ? "," : "",
              jesc(confirmed[k].sig).c_str(), jesc(describe(confirmed[k].idx)).c_str(),
              jesc(confirmed[k].msg).c_str());
    fprintf(o, "\n ],\n \"wall\": %.2f\n}\n", now() - t0);
    if (o != stdout) fclose(o);
  }

  // replay of one state in this process, chatter on
  static int replayOne(const std::function<void(Ctx&)>& exec) {
    struct PCtx : Ctx {
      int n = 0;
      void count(const char*, uint64_t) override {}
      void report(const std::string& sig, const std::string& msg) override {
        ++n;
        printf("REPLAY-VIOLATION %s: %s\n", sig.c_str(), msg.c_str());
      }
    } c;
    exec(c);
    printf("replay: %d violation(s)\n", c.n);
    return c.n ? 1 : 0;
  }
};
}  // namespace mc
