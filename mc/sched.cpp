// Runtime of the -fsanitize=thread instrumentation, allocator and scheduler. Compiled without
// instrumentation; nothing of libtsan is linked.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <unordered_map>

extern "C" char __data_start[], _end[];
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

namespace {
// ---------------------------------------------------------------- memory
const size_t ARENA = 384ull << 20, STACK = 64ull << 20;
const size_t TOTAL = 3 * ARENA + 2 * STACK;
char* g_base = nullptr;         // [arena of main | arena 1 | arena 2 | stack 1 | stack 2]
const size_t GR = TOTAL / 8;
struct Bits {
  uint64_t* w = nullptr;
  void map(size_t n) {
    w = (uint64_t*)mmap(0, n / 8 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  void set(size_t i) { w[i >> 6] |= 1ull << (i & 63); }
  bool get(size_t i) const { return w[i >> 6] >> (i & 63) & 1; }
};
Bits g_rd[3], g_wr[3], g_vis;   // heap and stacks
Bits d_rd[3], d_wr[3], d_vis;   // data segment of the program
size_t g_top[3];
struct FreeNode { FreeNode* next; };
FreeNode* g_free[3][64];
__thread int tid __attribute__((tls_model("initial-exec"))) = 0;  // 0: not controlled
__thread int quiet __attribute__((tls_model("initial-exec"))) = 0;
bool g_arena = false;
int g_heapOf = 0;  // arena of the uncontrolled thread

// ---------------------------------------------------------------- schedule
struct Shared {
  volatile int done;
  int ndig[2];
  double dig[2][60000];
  char err[2][300];
  uint64_t accesses[2];
  int visible[2];
  int nfirst[2], first[2][4000];
  int nconf;
  uint64_t conf[8192];
  int switches;
};
Shared* g_sh = nullptr;
volatile int g_turn = 0;   // thread allowed to run
volatile int g_alive = 0;  // bit mask of unfinished threads
sched::Schedule g_s;
size_t g_next = 0;         // next switch of the schedule
int g_count[3];
uint64_t g_acc[3];
int g_spin = 0;
std::set<void*>* g_pcs[3];

void futex(volatile int* a, int op, int v) { syscall(SYS_futex, a, op, v, 0, 0, 0); }
void giveTurn(int to) {
  __atomic_store_n(&g_turn, to, __ATOMIC_SEQ_CST);
  futex(&g_turn, FUTEX_WAKE, 8);
}
void awaitTurn(int me) {
  while (true) {
    int t = __atomic_load_n(&g_turn, __ATOMIC_SEQ_CST);
    if (t == me) return;
    futex(&g_turn, FUTEX_WAIT, t);
  }
}
bool otherAlive() { return g_alive & (1 << (3 - tid)); }
void switchAway() {
  if (!otherAlive()) return;
  int me = tid;
  g_sh->switches++;
  g_spin = 0;
  giveTurn(3 - me);
  awaitTurn(me);
}
void visibleOp(void* pc) {
  int k = g_count[tid]++;
  ++quiet;
  if (g_pcs[tid]->insert(pc).second && g_sh->nfirst[tid - 1] < 4000) g_sh->first[tid - 1][g_sh->nfirst[tid - 1]++] = k;
  --quiet;
  // switches alternate: an even one belongs to the thread that started, an odd one to the other
  if (g_next < g_s.switchAt.size() && ((g_next % 2 == 0) == (tid - 1 == g_s.first)) && g_s.switchAt[g_next] == k) {
    ++g_next;
    switchAway();
  }
}
inline void access(const void* p, size_t n, bool w, void* pc) {
  if (__builtin_expect(!tid, 1) || quiet) return;
  ++g_acc[tid];
  uintptr_t a = (uintptr_t)p;
  uintptr_t off = a - (uintptr_t)g_base;
  bool vis = false;
  if (off < TOTAL) {
    Bits& b = w ? g_wr[tid] : g_rd[tid];
    size_t e = (off + n - 1) >> 3;
    if (e >= GR) e = GR - 1;
    for (size_t g = off >> 3; g <= e; ++g) { b.set(g); vis |= g_vis.get(g); }
  } else {
    off = a - (uintptr_t)__data_start;
    if (off >= (uintptr_t)(_end - __data_start)) return;  // other libraries, read-only data
    Bits& b = w ? d_wr[tid] : d_rd[tid];
    for (size_t g = off >> 3, e = (off + n - 1) >> 3; g <= e; ++g) { b.set(g); vis |= d_vis.get(g); }
  }
  if (vis) visibleOp(pc);
}
#define PC __builtin_return_address(0)
void atomicOp(const volatile void* p, size_t n, bool w, void* pc) {
  if (!tid || quiet) return;
  access((const void*)p, n, w, pc);
  if (++g_spin > 2000) switchAway();  // waiting for the other thread
}
}  // namespace

// ---------------------------------------------------------------- instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                           \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }             \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }             \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }   \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }   \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }    \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }    \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define AT(n, T)                                                                                  \
  T __tsan_atomic##n##_load(const volatile T* a, int) {                                           \
    atomicOp(a, sizeof(T), false, PC);                                                            \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
  }                                                                                               \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) {                                        \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                               \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) {                                        \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                           \
  }                                                                                               \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) {                                       \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) {                                       \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) {                                       \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) {                                        \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                               \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) {                                       \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) {                                      \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                           \
  }                                                                                               \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {            \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                               \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) {              \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                               \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) {                  \
    atomicOp(a, sizeof(T), true, PC);                                                             \
    __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    return e;                                                                                     \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}

// functions of the C library that the instrumented code calls (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (tid && n) access(s, n, false, PC), access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (tid && n) access(s, n, false, PC), access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (tid && n) access(d, n, true, PC);
  return __real_memset(d, c, n);
}
// calls into libraries whose memory accesses are not observed are visible operations themselves
void sched_library_call(void* pc) {
  if (tid && !quiet) visibleOp(pc);
}

#define WRAP(f)                                                                                      \
  asm(".globl __wrap_" f "\n.type __wrap_" f ",@function\n__wrap_" f ":\n"                           \
      "push %rbp\nmov %rsp,%rbp\nsub $208,%rsp\nand $-16,%rsp\n"                                     \
      "mov %rdi,0(%rsp)\nmov %rsi,8(%rsp)\nmov %rdx,16(%rsp)\nmov %rcx,24(%rsp)\n"                   \
      "mov %r8,32(%rsp)\nmov %r9,40(%rsp)\nmov %rax,48(%rsp)\n"                                      \
      "movups %xmm0,64(%rsp)\nmovups %xmm1,80(%rsp)\nmovups %xmm2,96(%rsp)\nmovups %xmm3,112(%rsp)\n" \
      "mov 8(%rbp),%rdi\ncall sched_library_call\n"                                                  \
      "mov 0(%rsp),%rdi\nmov 8(%rsp),%rsi\nmov 16(%rsp),%rdx\nmov 24(%rsp),%rcx\n"                   \
      "mov 32(%rsp),%r8\nmov 40(%rsp),%r9\nmov 48(%rsp),%rax\n"                                      \
      "movups 64(%rsp),%xmm0\nmovups 80(%rsp),%xmm1\nmovups 96(%rsp),%xmm2\nmovups 112(%rsp),%xmm3\n" \
      "leave\njmp __real_" f "\n")
// keep this list in step with the --wrap options in run.py
WRAP("glp_create_prob");
WRAP("glp_add_rows");
WRAP("glp_add_cols");
WRAP("glp_load_matrix");
WRAP("glp_simplex");
WRAP("glp_delete_prob");
WRAP("glp_free_env");
WRAP("rand");
WRAP("srand");
WRAP("_ZNK19centroidal_dynamics11Equilibrium23getPolytopeInequalitiesERN5Eigen6MatrixIdLin1ELin1ELi1ELin1ELin1EEERNS2_IdLin1ELi1ELi0ELin1ELi1EEE");

// ---------------------------------------------------------------- allocator: one arena per thread
static void* arenaAlloc(int h, size_t n) {
  // header of 16 bytes: size class and arena
  size_t c = n < 16 ? 16 : n;
  int cls = 64 - __builtin_clzll(c - 1);
  size_t sz = (1ull << cls) + 16;
  if (cls > 16) sz = ((c + 4095) & ~4095ull) + 16;  // large blocks are rounded to pages instead
  FreeNode*& f = g_free[h][cls];
  if (cls <= 16 && f) {
    void* p = f;
    f = f->next;
    return p;
  }
  if (cls > 16)
    for (FreeNode** q = &f; *q; q = &(*q)->next) {
      size_t have = ((size_t*)*q)[-2] & ~0xfffull;
      if (have >= c && have <= 2 * c) {
        void* p = *q;
        *q = (*q)->next;
        return p;
      }
    }
  if (g_top[h] + sz > ARENA) {
    static const char m[] = "arena exhausted\n";
    if (write(2, m, sizeof m)) {}
    _exit(97);
  }
  char* p = g_base + h * ARENA + g_top[h];
  g_top[h] += sz;
  ((size_t*)p)[0] = (cls > 16 ? (sz - 16) : 0) | (size_t)cls;
  ((size_t*)p)[1] = h;
  return p + 16;
}
void* malloc(size_t n) {
  if (!g_arena) return __libc_malloc(n);
  if (n == 0) n = 1;
  return arenaAlloc(tid && !quiet ? tid : g_heapOf, n);  // bookkeeping does not move the memory of the code
}
void free(void* p) {
  if (!p) return;
  uintptr_t off = (uintptr_t)p - (uintptr_t)g_base;
  if (!g_base || off >= 3 * ARENA) { __libc_free(p); return; }
  size_t cls = ((size_t*)p)[-2] & 0xff;
  int h = (int)((size_t*)p)[-1];
  if (h != (tid && !quiet ? tid : g_heapOf)) return;  // freed by another thread: not reused
  ((FreeNode*)p)->next = g_free[h][cls];
  g_free[h][cls] = (FreeNode*)p;
}
void* calloc(size_t a, size_t b) {
  size_t n = a * b;
  void* p = malloc(n ? n : 1);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  uintptr_t off = (uintptr_t)p - (uintptr_t)g_base;
  void* q = malloc(n);
  size_t old;
  if (g_base && off < 3 * ARENA) {
    size_t hd = ((size_t*)p)[-2];
    old = (hd & 0xff) > 16 ? (hd & ~0xfffull) : 1ull << (hd & 0xff);
  } else
    old = n;  // a block of before init(): at most n bytes are copied, it stays readable
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
  if (al <= 16) { *out = malloc(n); return 0; }
  char* p = (char*)malloc(n + 2 * al + 32);
  uintptr_t a = ((uintptr_t)p + 16 + al - 1) / al * al;
  // freed blocks of this kind are never reused
  ((size_t*)a)[-2] = 63;
  ((size_t*)a)[-1] = 99;
  *out = (void*)a;
  return 0;
}
void* aligned_alloc(size_t al, size_t n) { void* p; posix_memalign(&p, al, n); return p; }
void* memalign(size_t al, size_t n) { void* p; posix_memalign(&p, al, n); return p; }

// ---------------------------------------------------------------- locks: waiting gives the turn away
static int lockLoop(int (*attempt)(void*), void* m) {
  while (true) {
    int r = attempt(m);
    if (r != EBUSY) return r;
    if (!otherAlive()) return r;
    switchAway();
  }
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (tid && !quiet) {
    visibleOp(PC);
    return lockLoop([](void* q) { return pthread_mutex_trylock((pthread_mutex_t*)q); }, m);
  }
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (tid && !quiet) {
    visibleOp(PC);
    return lockLoop([](void* q) { return pthread_rwlock_trywrlock((pthread_rwlock_t*)q); }, m);
  }
  static int (*real)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
  return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (tid && !quiet) {
    visibleOp(PC);
    return lockLoop([](void* q) { return pthread_rwlock_tryrdlock((pthread_rwlock_t*)q); }, m);
  }
  static int (*real)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
  return real(m);
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  // 0: not run, 1: running, 2: done
  while (true) {
    int s = __atomic_load_n((int*)o, __ATOMIC_SEQ_CST);
    if (s == 2) return 0;
    if (s == 0) {
      *(int*)o = 1;
      f();
      *(int*)o = 2;
      return 0;
    }
    if (tid && otherAlive()) switchAway();
  }
}
// initialisation of function-local statics
int __cxa_guard_acquire(__cxxabiv1::__guard* g) {
  volatile char* c = (volatile char*)g;
  if (tid && !quiet) visibleOp(PC);
  while (true) {
    if (c[0]) return 0;
    if (!c[1]) { c[1] = 1; return 1; }
    if (!tid || !otherAlive()) return 1;  // recursive initialisation
    switchAway();
  }
}
void __cxa_guard_release(__cxxabiv1::__guard* g) {
  volatile char* c = (volatile char*)g;
  c[1] = 0;
  c[0] = 1;
}
void __cxa_guard_abort(__cxxabiv1::__guard* g) { ((volatile char*)g)[1] = 0; }
}  // extern "C"

// ---------------------------------------------------------------- execution
namespace sched {
void init() {
  if (g_base) return;
  g_base = (char*)mmap(0, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t nd = (size_t)(_end - __data_start) / 8 + 8;
  for (int i = 1; i < 3; ++i) g_rd[i].map(GR), g_wr[i].map(GR), d_rd[i].map(nd), d_wr[i].map(nd);
  g_vis.map(GR), d_vis.map(nd);
  g_arena = true;
}

struct Arg { int id; const Body* body; };
static void* threadMain(void* v) {
  Arg* a = (Arg*)v;
  tid = a->id;
  awaitTurn(tid);
  std::vector<double> d;
  std::string e = (*a->body)(d);
  ++quiet;
  int k = tid - 1;
  g_sh->ndig[k] = (int)std::min<size_t>(d.size(), 60000);
  for (int i = 0; i < g_sh->ndig[k]; ++i) g_sh->dig[k][i] = d[i];
  strncpy(g_sh->err[k], e.c_str(), 299);
  g_alive = g_alive & ~(1 << tid);
  if (g_alive) giveTurn(3 - tid);
  else giveTurn(0);
  // the stack stays: its end could run destructors while the other thread runs
  while (true) pause();
  return 0;
}

Outcome execute(const Body& a, const Body& b, const Schedule& s, const std::vector<uint64_t>& visible, double limit) {
  Outcome o;
  static pid_t owner = 0;  // one result area per worker process
  if (owner != getpid()) {
    owner = getpid();
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  memset((void*)g_sh, 0, offsetof(Shared, dig));
  g_sh->nconf = g_sh->switches = 0;
  for (int k = 0; k < 2; ++k) g_sh->ndig[k] = g_sh->nfirst[k] = g_sh->visible[k] = 0, g_sh->err[k][0] = 0, g_sh->accesses[k] = 0;
  pid_t p = fork();
  if (!p) {
    for (uint64_t g : visible)
      if (g & (1ull << 62)) d_vis.set(g & ~(1ull << 62));
      else g_vis.set(g);
    g_s = s;
    g_pcs[1] = new std::set<void*>, g_pcs[2] = new std::set<void*>;
    const Body* bodies[2] = {&a, &b};
    Arg args[2];
    int n = b ? 2 : 1;
    for (int k = 0; k < n; ++k) {
      args[k] = Arg{k + 1, bodies[k]};
      g_alive = g_alive | (2 << k);
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, g_base + 3 * ARENA + k * STACK, STACK);
      pthread_t t;
      if (pthread_create(&t, &at, threadMain, &args[k])) _exit(96);
    }
    giveTurn(1 + (n == 2 ? s.first : 0));
    awaitTurn(0);
    for (int k = 0; k < 2; ++k) g_sh->accesses[k] = g_acc[k + 1], g_sh->visible[k] = g_count[k + 1];
    auto add = [&](uint64_t g) {
      if (g_sh->nconf < 8192) g_sh->conf[g_sh->nconf++] = g;
    };
    if (n == 2) {
      // the parts of the arenas and stacks that were used
      auto scan = [&](Bits* rd, Bits* wr, size_t from, size_t to, uint64_t tag) {
        for (size_t w = from / 64; w <= to / 64; ++w) {
          uint64_t c = (wr[1].w[w] & (rd[2].w[w] | wr[2].w[w])) | (wr[2].w[w] & rd[1].w[w]);
          while (c) {
            int i = __builtin_ctzll(c);
            c &= c - 1;
            add((w * 64 + i) | tag);
          }
        }
      };
      for (int h = 0; h < 3; ++h) scan(g_rd, g_wr, h * ARENA / 8, (h * ARENA + g_top[h]) / 8, 0);
      for (int k = 0; k < 2; ++k) scan(g_rd, g_wr, (3 * ARENA + k * STACK + STACK - (4 << 20)) / 8, (3 * ARENA + (k + 1) * STACK) / 8 - 64, 0);
      scan(d_rd, d_wr, 0, (size_t)(_end - __data_start) / 8, 1ull << 62);
    }
    g_sh->done = 1;
    _exit(0);
  }
  timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int st = 0;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec - t0.tv_sec + 1e-9 * (t.tv_nsec - t0.tv_nsec) > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      o.hang = true;
      return o;
    }
    usleep(300);
  }
  if (WIFSIGNALED(st)) o.signal = WTERMSIG(st);
  else if (WEXITSTATUS(st)) o.signal = 1000 + WEXITSTATUS(st);
  for (int k = 0; k < 2; ++k) {
    o.digest[k].assign(g_sh->dig[k], g_sh->dig[k] + g_sh->ndig[k]);
    o.error[k] = g_sh->err[k];
    o.accesses[k] = g_sh->accesses[k];
    o.visible[k] = g_sh->visible[k];
    o.firstOf[k].assign(g_sh->first[k], g_sh->first[k] + g_sh->nfirst[k]);
  }
  o.conflicts.assign(g_sh->conf, g_sh->conf + g_sh->nconf);
  o.switches = g_sh->switches;
  return o;
}
}  // namespace sched
