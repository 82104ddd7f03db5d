// qlcsim: deterministic simulator for one qlc process.
//
// The qlc binary under test is built from unmodified sources with compiler
// instrumentation (-Zsanitizer=thread, external runtime), so every atomic
// operation of qlc and of its dependencies calls a __tsan_atomic* function.
// This library supplies those functions and interposes (LD_PRELOAD) the libc
// entry points through which Rust's standard library reaches the outside world:
// threads, futexes, sleeps, clocks, randomness, files, directories, allocation.
// Exactly one simulated thread runs at a time; who runs next is decided here.
//
// All behaviour is a function of the control file named by QLCSIM_CTL.
#define _GNU_SOURCE
#include <features.h>
#include <sys/cdefs.h>
#undef __nonnull /* callers may well pass NULL, and the wrappers must see it */
#define __nonnull(params)
#undef __attribute_nonnull__
#define __attribute_nonnull__(params)
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define HIDDEN static
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

// ---------------------------------------------------------------- raw calls
HIDDEN long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, a, b, c, d) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
HIDDEN long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// ---------------------------------------------------------------- hashing
HIDDEN u64 mix(u64 x) {
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebULL;
  x ^= x >> 31;
  return x;
}
HIDDEN u64 h2(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ULL + mix(b + 0x632be59bd9b4e019ULL)); }
HIDDEN u64 hstr(const char *s) {
  u64 h = 1469598103934665603ULL;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
  return mix(h);
}

// ---------------------------------------------------------------- config
#define MAXTHR 1100
#define MAXRULE 64
#define MAXFD 1200
#define PATHLEN 1024

typedef struct {
  char cls[16];
  char path[PATHLEN];
  int occ; // 0 = every
  char act[16];
  long arg;
  long seen, fired;
} Rule;

HIDDEN struct {
  int on;
  char box[PATHLEN], real[PATHLEN];
  char report[PATHLEN];
  u64 seed, hash_seed, dir_seed, noise_seed;
  int dir_mode; // 0 sorted 1 reversed 2 shuffled
  int mode;     // 0 replay, 1 random, 2 pct, 3 stall
  int p_switch; // /65536
  int pct_depth;
  u64 pct_len;
  u64 stall_len;
  int p_stall;
  u64 adv_steps, max_steps, step_ns, crash_step;
  int quantum;
  int n_short_r, n_short_w, n_eintr, n_dtunk, n_spur, n_oversleep; // /65536
  int ncpu;
  int tty;
  int pin;
  int log_devs, log_trace;
  u64 alloc_fail, alloc_seen;
  long spawn_fail; // fail the nth pthread_create and (spawn_fail_all) later
  int spawn_fail_all;
  i64 clock_jump_ns;
  int gate_out, gate_in; // pipes to whoever interleaves several processes; -1: none
  int pid;
  Rule rules[MAXRULE];
  int nrules;
  u64 *dev_step;
  int *dev_tid;
  long ndev;
} C;

// ---------------------------------------------------------------- threads
enum { T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
typedef struct Thr {
  int id;
  int state;
  int gate;
  pthread_t real;
  void *(*fn)(void *);
  void *arg;
  const void *faddr;
  u32 fbits;
  u64 wake_at; // 0 = none
  int timed_out;
  struct Thr *join_on;
  u64 prio;
  u64 stall_until;
  long sleeps, rnds;
  int dtor_iter;
  int used;
} Thr;

HIDDEN Thr *T;
HIDDEN int nthr;
static __thread Thr *self __attribute__((tls_model("initial-exec")));
static __thread int in_lib __attribute__((tls_model("initial-exec")));
HIDDEN Thr *cur;
HIDDEN u64 step, switches, now_ns, trace_hash = 88172645463325252ULL, run_len, cs_hash = 7;
HIDDEN u64 rng;
HIDDEN pthread_key_t exit_key;
HIDDEN u64 pct_points[64];
HIDDEN u64 low_prio;

// noise counters
HIDDEN long c_short_r, c_short_w, c_eintr, c_dtunk, c_spur, c_oversleep, c_sleep, c_futexwait, c_spawn, c_spawnfail,
    c_getrandom, c_alloc_fail, c_reorder, c_stalls, c_clock;
HIDDEN long c_gates;
HIDDEN u32 credit;
HIDDEN char end_reason[64] = "none";

// growable logs (mmap, never through malloc)
typedef struct {
  char *p;
  size_t len, cap;
} Buf;
HIDDEN Buf oplog, devlog, esclog, tracelog;
HIDDEN void bput(Buf *b, const char *s, size_t n) {
  if (b->len + n + 1 > b->cap) {
    size_t nc = b->cap ? b->cap * 2 : 1 << 16;
    while (nc < b->len + n + 1) nc *= 2;
    char *np = (char *)raw6(SYS_mmap, 0, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b->p) {
      memcpy(np, b->p, b->len);
      RAW(SYS_munmap, b->p, b->cap, 0, 0);
    }
    b->p = np;
    b->cap = nc;
  }
  memcpy(b->p + b->len, s, n);
  b->len += n;
}
HIDDEN void bnum(Buf *b, i64 v) {
  char t[24];
  int i = 24, neg = v < 0;
  u64 x = neg ? (u64)-v : (u64)v;
  do t[--i] = '0' + x % 10;
  while (x /= 10);
  if (neg) t[--i] = '-';
  bput(b, t + i, 24 - i);
}
HIDDEN void bstr(Buf *b, const char *s) { bput(b, s, strlen(s)); }
HIDDEN void besc(Buf *b, const char *s) { // path with spaces/newlines escaped
  for (; *s; s++) {
    if (*s == ' ') bput(b, "\\s", 2);
    else if (*s == '\n') bput(b, "\\n", 2);
    else if (*s == '\\') bput(b, "\\\\", 2);
    else bput(b, s, 1);
  }
}

HIDDEN void write_report(const char *reason, long code) {
  if (strcmp(end_reason, "none")) return;
  strncpy(end_reason, reason, sizeof end_reason - 1);
  Buf o = {0};
#define KV(k, v) (bstr(&o, k " "), bnum(&o, (i64)(v)), bstr(&o, "\n"))
  bstr(&o, "end ");
  bstr(&o, reason);
  bstr(&o, " ");
  bnum(&o, code);
  bstr(&o, "\n");
  KV("steps", step);
  KV("switches", switches);
  KV("simns", now_ns);
  KV("hash", trace_hash >> 1);
  KV("cshash", cs_hash >> 1);
  KV("threads", nthr);
  KV("n.short_read", c_short_r);
  KV("n.short_write", c_short_w);
  KV("n.eintr", c_eintr);
  KV("n.dt_unknown", c_dtunk);
  KV("n.spurious_wake", c_spur);
  KV("n.oversleep", c_oversleep);
  KV("n.sleep", c_sleep);
  KV("n.futex_wait", c_futexwait);
  KV("n.spawn", c_spawn);
  KV("n.spawn_fail", c_spawnfail);
  KV("n.getrandom", c_getrandom);
  KV("n.alloc_fail", c_alloc_fail);
  KV("n.dir_reorder", c_reorder);
  KV("n.stall", c_stalls);
  KV("n.clock_jump", c_clock);
  KV("gates", c_gates);
  KV("allocs", C.alloc_seen);
  for (int i = 0; i < C.nrules; i++) {
    bstr(&o, "rule ");
    bnum(&o, i);
    bstr(&o, " ");
    bnum(&o, C.rules[i].fired);
    bstr(&o, "\n");
  }
  int fd = (int)RAW(SYS_openat, AT_FDCWD, C.report, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  Buf *bs[5] = {&o, &esclog, &oplog, &devlog, &tracelog};
  for (int k = 0; k < 5; k++) {
    size_t off = 0;
    while (off < bs[k]->len) {
      long r = RAW(SYS_write, fd, bs[k]->p + off, bs[k]->len - off, 0);
      if (r <= 0) break;
      off += r;
    }
  }
  RAW(SYS_close, fd, 0, 0, 0);
}
HIDDEN __attribute__((noreturn)) void die(const char *reason, int code) {
  write_report(reason, code);
  for (;;) RAW(SYS_exit_group, code, 0, 0, 0);
}

// Between two accesses to files, other processes may run: how many of ours come next is decided outside.
HIDDEN void gate(char what) {
  c_gates++;
  if (C.gate_in < 0) return;
  if (what == 'w') credit = 0;
  if (!credit) {
    long r;
    while ((r = RAW(SYS_write, C.gate_out, &what, 1, 0)) == -EINTR);
    do r = RAW(SYS_read, C.gate_in, &credit, 4, 0);
    while (r == -EINTR);
    if (r != 4) die("deadlock", 97);
  }
  if (credit == 0xffffffffu) die("deadlock", 97);
  credit--;
}
HIDDEN u64 rnd(void) {
  rng += 0x9e3779b97f4a7c15ULL;
  return mix(rng);
}
HIDDEN int chance(int p) { return p > 0 && (int)(rnd() & 0xffff) < p; }

// ---------------------------------------------------------------- scheduler
HIDDEN void gate_wait(Thr *t) {
  while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&t->gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->gate, 0, __ATOMIC_RELEASE);
}
HIDDEN void gate_open(Thr *t) {
  __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
HIDDEN void wake_timers(void) {
  for (int i = 0; i < nthr; i++) {
    Thr *t = &T[i];
    if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->wake_at && t->wake_at <= now_ns) {
      if (t->state == T_FUTEX) t->timed_out = 1;
      t->state = T_RUN;
      t->wake_at = 0;
    }
  }
}
HIDDEN Thr *rr_next(Thr *from) {
  for (int k = 1; k <= nthr; k++) {
    Thr *t = &T[(from->id + k) % nthr];
    if (t->state == T_RUN) return t;
  }
  return NULL;
}
HIDDEN int runnable_count(void) {
  int n = 0;
  for (int i = 0; i < nthr; i++) n += T[i].state == T_RUN;
  return n;
}
HIDDEN Thr *runnable_at(int k) {
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_RUN && k-- == 0) return &T[i];
  return NULL;
}
enum { K_ATOMIC = 1, K_FS, K_FUTEX, K_SLEEP, K_YIELD, K_SPAWN, K_JOIN, K_EXIT, K_RND };

HIDDEN long devi;
// Picks who runs next. `can_stay` is 0 when the calling thread just blocked.
HIDDEN Thr *choose(int kind) {
  int can_stay = self->state == T_RUN;
  Thr *def = (can_stay && kind != K_YIELD && run_len < (u64)C.quantum) ? self : rr_next(self);
  if (!def) return NULL;
  Thr *pick = def;
  if (C.mode == 0) {
    while (devi < C.ndev && C.dev_step[devi] < step) devi++;
    if (devi < C.ndev && C.dev_step[devi] == step) {
      int t = C.dev_tid[devi++];
      if (t >= 0 && t < nthr && T[t].state == T_RUN) pick = &T[t];
    }
    return pick;
  }
  int n = runnable_count();
  if (n == 1) return def;
  if (step > C.adv_steps) { // fair phase: faults and adversary have stopped
    if (!can_stay || chance(4096)) pick = runnable_at((int)(rnd() % n));
  } else if (C.mode == 1) {
    if (!can_stay || chance(C.p_switch)) pick = runnable_at((int)(rnd() % n));
  } else if (C.mode == 2) {
    if (can_stay) {
      if (kind == K_YIELD || run_len >= (u64)C.quantum) self->prio = low_prio--;
      for (int i = 0; i < C.pct_depth; i++)
        if (pct_points[i] == step) self->prio = low_prio--;
    }
    pick = NULL;
    for (int i = 0; i < nthr; i++)
      if (T[i].state == T_RUN && (!pick || T[i].prio > pick->prio)) pick = &T[i];
  } else if (C.mode == 3) {
    if (chance(C.p_stall)) {
      Thr *v = can_stay && (rnd() & 1) ? self : runnable_at((int)(rnd() % n));
      v->stall_until = step + 1 + rnd() % (C.stall_len + 1);
      c_stalls++;
    }
    if (!can_stay || chance(C.p_switch) || self->stall_until > step) pick = runnable_at((int)(rnd() % n));
    if (pick->stall_until > step) {
      for (int i = 0; i < nthr; i++) {
        Thr *t = &T[(pick->id + i) % nthr];
        if (t->state == T_RUN && t->stall_until <= step) {
          pick = t;
          break;
        }
      }
    }
  }
  if (pick != def && C.log_devs) {
    bstr(&devlog, "dev ");
    bnum(&devlog, (i64)step);
    bstr(&devlog, " ");
    bnum(&devlog, pick->id);
    bstr(&devlog, "\n");
  }
  return pick;
}
HIDDEN void handoff(Thr *n, int finished) {
  if (n == self) return;
  switches++;
  run_len = 0;
  cs_hash = h2(cs_hash, ((u64)n->id << 8) ^ trace_hash);
  cur = n;
  Thr *me = self;
  gate_open(n);
  if (!finished) gate_wait(me);
}
HIDDEN void tick(int kind) {
  step++;
  run_len++;
  now_ns += C.step_ns;
  trace_hash = h2(trace_hash, ((u64)self->id << 8) | (u64)kind);
  if (C.log_trace) {
    bstr(&tracelog, "t ");
    bnum(&tracelog, (i64)step);
    bstr(&tracelog, " ");
    bnum(&tracelog, self->id);
    bstr(&tracelog, " ");
    bnum(&tracelog, kind);
    bstr(&tracelog, "\n");
  }
  if (C.crash_step && step == C.crash_step) die("crash", 137);
  if (step > C.max_steps) die("hang", 98);
  wake_timers();
  if (C.n_spur && step <= C.adv_steps) {
    u64 h = h2(C.noise_seed ^ 0x5e, step);
    if ((int)(h & 0xffff) < C.n_spur) {
      for (int i = 0; i < nthr; i++) {
        Thr *t = &T[(h >> 16) % nthr];
        h += 1 << 16;
        if (t->state == T_FUTEX) {
          t->state = T_RUN;
          t->wake_at = 0;
          t->timed_out = 0;
          c_spur++;
          break;
        }
      }
    }
  }
}
HIDDEN int active(void) { return C.on && self && self == cur && !in_lib && self->state != T_DONE; }
HIDDEN void point(int kind) {
  if (!active()) return;
  tick(kind);
  Thr *n = choose(kind);
  handoff(n, 0);
}
// The calling thread has set its own state to something other than T_RUN.
HIDDEN void block(int kind, int finished) {
  tick(kind);
  for (;;) {
    if (self->state == T_RUN) { // a timer made us runnable again
      Thr *n = choose(kind);
      handoff(n, 0);
      return;
    }
    Thr *n = choose(kind);
    if (n) {
      handoff(n, finished);
      return;
    }
    u64 best = 0;
    for (int i = 0; i < nthr; i++)
      if ((T[i].state == T_SLEEP || T[i].state == T_FUTEX) && T[i].wake_at && (!best || T[i].wake_at < best))
        best = T[i].wake_at;
    if (!best) die("deadlock", 97);
    if (best > now_ns) now_ns = best;
    wake_timers();
  }
}

// ---------------------------------------------------------------- tsan runtime
#define ATOMICS(N, TY)                                                                                                 \
  EXPORT TY __tsan_atomic##N##_load(const volatile TY *a, int mo) {                                                    \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  EXPORT void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) {                                                 \
    point(K_ATOMIC);                                                                                                   \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) {                                                \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) {                                               \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) {                                               \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) {                                               \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) {                                                \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) {                                               \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) {                                              \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) {                \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
  }                                                                                                                    \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) {                  \
    point(K_ATOMIC);                                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) {                     \
    point(K_ATOMIC);                                                                                                   \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                      \
    return c;                                                                                                          \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  point(K_ATOMIC);
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
EXPORT void __tsan_atomic_signal_fence(int mo) {}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define NOP1(f) \
  EXPORT void f(void *p) {}
NOP1(__tsan_read1) NOP1(__tsan_read2) NOP1(__tsan_read4) NOP1(__tsan_read8) NOP1(__tsan_read16)
NOP1(__tsan_write1) NOP1(__tsan_write2) NOP1(__tsan_write4) NOP1(__tsan_write8) NOP1(__tsan_write16)
NOP1(__tsan_unaligned_read2) NOP1(__tsan_unaligned_read4) NOP1(__tsan_unaligned_read8) NOP1(__tsan_unaligned_read16)
NOP1(__tsan_unaligned_write2) NOP1(__tsan_unaligned_write4) NOP1(__tsan_unaligned_write8)
NOP1(__tsan_unaligned_write16)
EXPORT void __tsan_read_range(void *p, size_t n) {}
EXPORT void __tsan_write_range(void *p, size_t n) {}
EXPORT void __tsan_vptr_update(void **p, void *v) {}
EXPORT void __tsan_vptr_read(void **p) {}

// ---------------------------------------------------------------- threads (libc)
HIDDEN int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
HIDDEN int (*r_pthread_join)(pthread_t, void **);
HIDDEN DIR *(*r_opendir)(const char *);
HIDDEN DIR *(*r_fdopendir)(int);
HIDDEN struct dirent64 *(*r_readdir64)(DIR *);
HIDDEN int (*r_closedir)(DIR *);
HIDDEN int (*r_dirfd)(DIR *);

HIDDEN void thread_finished(Thr *t) {
  t->state = T_DONE;
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_JOIN && T[i].join_on == t) {
      T[i].state = T_RUN;
      T[i].join_on = NULL;
    }
  block(K_EXIT, 1);
}
HIDDEN void exit_dtor(void *v) {
  Thr *t = v;
  if (++t->dtor_iter < 3) {
    pthread_setspecific(exit_key, t);
    return;
  }
  in_lib = 1;
  thread_finished(t);
}
HIDDEN void *tramp(void *v) {
  Thr *t = v;
  self = t;
  gate_wait(t);
  pthread_setspecific(exit_key, t);
  return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!active()) return r_pthread_create(th, at, fn, arg);
  point(K_SPAWN);
  long k = ++c_spawn;
  if (C.spawn_fail && (k == C.spawn_fail || (C.spawn_fail_all && k > C.spawn_fail))) {
    c_spawnfail++;
    return EAGAIN;
  }
  if (nthr >= MAXTHR) return EAGAIN;
  Thr *t = &T[nthr];
  memset(t, 0, sizeof *t);
  t->id = nthr;
  t->fn = fn;
  t->arg = arg;
  t->state = T_RUN;
  t->prio = (1ULL << 40) + (rnd() >> 30);
  int r = r_pthread_create(&t->real, at, tramp, t);
  if (r) return r;
  *th = t->real;
  nthr++;
  point(K_SPAWN);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void **rv) {
  if (active()) {
    point(K_JOIN);
    for (int i = 0; i < nthr; i++)
      if (i != self->id && pthread_equal(T[i].real, th) && !T[i].used) {
        if (T[i].state != T_DONE) {
          self->state = T_JOIN;
          self->join_on = &T[i];
          block(K_JOIN, 0);
        }
        T[i].used = 1;
        break;
      }
  }
  return r_pthread_join(th, rv);
}
EXPORT int sched_yield(void) {
  point(K_YIELD);
  return 0;
}

HIDDEN void sim_sleep(u64 ns) {
  c_sleep++;
  u64 w = ns;
  if (C.n_oversleep && step <= C.adv_steps) {
    u64 h = h2(C.noise_seed ^ 0x51ee9, ((u64)self->id << 32) | (u64)self->sleeps);
    if ((int)(h & 0xffff) < C.n_oversleep) {
      w += (h >> 16) % (20 * (ns + 1000));
      c_oversleep++;
    }
  }
  self->sleeps++;
  self->state = T_SLEEP;
  self->wake_at = now_ns + (w ? w : 1);
  block(K_SLEEP, 0);
}
HIDDEN u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ULL + (u64)t->tv_nsec; }
#define EPOCH_NS 1700000000000000000ULL
HIDDEN u64 clock_now(int id) {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)
    return EPOCH_NS + (u64)(C.pid - 1000) * 1000003 + (u64)((i64)now_ns + (now_ns > 500000 ? C.clock_jump_ns : 0));
  return 1000000000000ULL + now_ns;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!active()) return (int)ret(RAW(SYS_nanosleep, rq, rm, 0, 0));
  sim_sleep(ts_ns(rq));
  return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!active()) return (int)-RAW(SYS_clock_nanosleep, id, flags, rq, rm);
  u64 ns = ts_ns(rq);
  if (flags & TIMER_ABSTIME) {
    u64 n = clock_now(id);
    ns = ns > n ? ns - n : 0;
  }
  sim_sleep(ns);
  return 0;
}
EXPORT int usleep(useconds_t us) {
  struct timespec t = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&t, NULL);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec t = {s, 0};
  nanosleep(&t, NULL);
  return 0;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
  if (!C.on) return (int)ret(RAW(SYS_clock_gettime, id, t, 0, 0));
  if (C.clock_jump_ns && now_ns > 500000) c_clock++;
  u64 n = clock_now(id);
  t->tv_sec = (time_t)(n / 1000000000ULL);
  t->tv_nsec = (long)(n % 1000000000ULL);
  return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *z) {
  struct timespec s;
  int r = clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return r;
}
EXPORT int isatty(int fd) {
  if (C.on && C.tty && fd == 1) return 1;
  errno = ENOTTY;
  return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!C.on) {
    long r = RAW(SYS_sched_getaffinity, pid, sz, set, 0);
    if (r < 0) return (int)ret(r);
    memset((char *)set + r, 0, sz - r);
    return 0;
  }
  memset(set, 0, sz);
  for (int i = 0; i < C.ncpu; i++) CPU_SET_S(i, sz, set);
  return 0;
}
EXPORT long sysconf(int name) {
  static long (*real)(int);
  if (C.on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return C.ncpu;
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!C.on) return ret(RAW(SYS_getrandom, buf, n, flags, 0));
  if (active()) point(K_RND);
  c_getrandom++;
  Thr *t = self;
  u64 base = h2(C.hash_seed + (u64)(C.pid - 1000), t ? ((u64)t->id << 32) | (u64)t->rnds++ : 0);
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i++) {
    if ((i & 7) == 0) base = mix(base + 0x9e3779b97f4a7c15ULL);
    p[i] = (unsigned char)(base >> ((i & 7) * 8));
  }
  return (ssize_t)n;
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

HIDDEN long sim_futex(const u32 *addr, int op, u32 val, const struct timespec *to, const u32 *a2, u32 v3) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(K_FUTEX);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    u64 wake = 0;
    if (to) {
      u64 ns = ts_ns(to);
      if (cmd == FUTEX_WAIT_BITSET) {
        u64 n = clock_now(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC);
        ns = ns > n ? ns - n : 0;
      }
      wake = now_ns + (ns ? ns : 1);
    }
    c_futexwait++;
    self->faddr = addr;
    self->fbits = cmd == FUTEX_WAIT_BITSET ? v3 : 0xffffffffu;
    self->wake_at = wake;
    self->timed_out = 0;
    self->state = T_FUTEX;
    block(K_FUTEX, 0);
    self->faddr = NULL;
    if (self->timed_out) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point(K_FUTEX);
    long n = 0;
    u32 bits = cmd == FUTEX_WAKE_BITSET ? v3 : 0xffffffffu;
    int off = nthr ? (int)(h2(C.seed ^ 0xf0, step) % nthr) : 0;
    for (int i = 0; i < nthr && n < (long)val; i++) {
      Thr *t = &T[(i + off) % nthr];
      if (t->state == T_FUTEX && t->faddr == addr && (t->fbits & bits)) {
        t->state = T_RUN;
        t->wake_at = 0;
        n++;
      }
    }
    return n;
  }
  die("unsupported-futex", 96);
}
/* Thread and process numbers end up in panic messages. */
EXPORT pid_t gettid(void) { return C.on && self ? (pid_t)(C.pid + (self - T)) : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EXPORT pid_t getpid(void) { return C.on && self ? (pid_t)C.pid : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (C.on) {
    if (n == SYS_futex && active())
      return sim_futex((const u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (const u32 *)e, (u32)f);
    if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
    if (n == SYS_sched_yield) return sched_yield();
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getpid) return getpid();
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- allocation
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
HIDDEN int alloc_fails(void) {
  if (!C.on || !self || in_lib) return 0;
  u64 k = ++C.alloc_seen;
  if (C.alloc_fail && k == C.alloc_fail) {
    c_alloc_fail++;
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
EXPORT void *malloc(size_t n) { return alloc_fails() ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fails() ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return alloc_fails() ? NULL : __libc_realloc(p, n); }
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  if (alloc_fails()) return ENOMEM;
  void *p = __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// ---------------------------------------------------------------- files
typedef struct {
  int open;
  int wr;
  long nread, nwrite;
  char path[PATHLEN];
} Fd;
HIDDEN Fd *FD;
HIDDEN char cwd[PATHLEN];
// The program sees its scratch directory under a fixed name, so that paths (and
// everything derived from them) are the same in every execution.
#define VBOX "/sim"
HIDDEN const char *tr(const char *p) {
  static __thread char buf[PATHLEN * 2] __attribute__((tls_model("initial-exec")));
  size_t n = sizeof VBOX - 1;
  if (!C.on || !p || strncmp(p, VBOX, n) || (p[n] && p[n] != '/')) return p;
  snprintf(buf, sizeof buf, "%s%s", C.real, p + n);
  return buf;
}

HIDDEN void norm(const char *p, char *out) { // lexical normalisation, absolute
  char tmp[PATHLEN * 2];
  size_t l = 0;
  if (p[0] != '/') {
    size_t n = strlen(cwd);
    memcpy(tmp, cwd, n);
    l = n;
    tmp[l++] = '/';
  }
  size_t n = strlen(p);
  if (n > PATHLEN - 4) n = PATHLEN - 4;
  memcpy(tmp + l, p, n);
  tmp[l + n] = 0;
  size_t o = 0;
  char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t k = (size_t)(e - s);
    if (k == 1 && s[0] == '.') {
    } else if (k == 2 && s[0] == '.' && s[1] == '.') {
      while (o > 0 && out[o - 1] != '/') o--;
      if (o > 0) o--;
    } else if (o + k + 2 < PATHLEN) {
      out[o++] = '/';
      memcpy(out + o, s, k);
      o += k;
    }
    s = e;
  }
  if (o == 0) out[o++] = '/';
  out[o] = 0;
}
// 1 if inside the box; rel gets the path relative to the box (or the absolute path).
HIDDEN int classify(int dfd, const char *p, char *rel) {
  char a[PATHLEN * 2];
  char j[PATHLEN * 2 + 8];
  if (dfd != AT_FDCWD && p[0] != '/') {
    if (dfd >= 0 && dfd < MAXFD && FD[dfd].open) snprintf(j, sizeof j, "%s/%s/%s", C.box, FD[dfd].path, p);
    else snprintf(j, sizeof j, "/?fd%d/%s", dfd, p);
    p = j;
  }
  norm(p, a);
  size_t n = strlen(C.box);
  if (!strncmp(a, C.box, n) && (a[n] == '/' || a[n] == 0)) {
    strcpy(rel, a[n] == '/' ? a + n + 1 : "");
    return 1;
  }
  strcpy(rel, a);
  return 0;
}
HIDDEN void logop(const char *cls, const char *path, long r, const char *aux) {
  bstr(&oplog, "op ");
  bnum(&oplog, (i64)step);
  bstr(&oplog, " ");
  bnum(&oplog, self ? self->id : -1);
  bstr(&oplog, " ");
  bstr(&oplog, cls);
  bstr(&oplog, " ");
  besc(&oplog, *path ? path : ".");
  bstr(&oplog, " ");
  bnum(&oplog, r);
  bstr(&oplog, " ");
  bstr(&oplog, aux);
  bstr(&oplog, " ");
  bnum(&oplog, c_gates);
  bstr(&oplog, "\n");
}
HIDDEN void logesc(const char *cls, const char *path) {
  bstr(&esclog, "escape ");
  bstr(&esclog, cls);
  bstr(&esclog, " ");
  besc(&esclog, path);
  bstr(&esclog, "\n");
}
HIDDEN Rule *match(const char *cls, const char *path) {
  Rule *hit = NULL;
  for (int i = 0; i < C.nrules; i++) {
    Rule *r = &C.rules[i];
    // A file that cannot be opened for writing cannot be put there by renaming either.
    if (strcmp(r->cls, cls) && (strcmp(r->cls, "openw") || strcmp(cls, "rename"))) continue;
    if (strcmp(r->path, "*") && strcmp(r->path, path)) continue;
    r->seen++;
    if (!hit && (r->occ == 0 || r->seen == r->occ)) {
      r->fired++;
      hit = r;
    }
  }
  return hit;
}
// Common entry for path operations. Returns 0 to proceed, else -errno.
HIDDEN int pre(const char *cls, const char *path) {
  point(K_FS);
  gate('g');
  Rule *r = match(cls, path);
  if (!r) return 0;
  if (!strcmp(r->act, "crash")) {
    logop(cls, path, -1, "CRASH");
    die("crash", 137);
  }
  if (!strcmp(r->act, "errno")) {
    logop(cls, path, -r->arg, "FAULT");
    return (int)-r->arg;
  }
  return 0;
}
HIDDEN int noise_hit(const char *cls, const char *path, long k, int p) {
  if (p <= 0) return 0;
  return (int)(h2(C.noise_seed, hstr(path) ^ h2(hstr(cls), (u64)k)) & 0xffff) < p;
}
HIDDEN int is_write_flags(int fl) {
  return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC | O_APPEND)) || (fl & O_TMPFILE) == O_TMPFILE;
}
HIDDEN int do_open(int dfd, const char *p, int flags, mode_t mode) {
  if (!active()) return (int)ret(RAW(SYS_openat, dfd, tr(p), flags, mode));
  char rel[PATHLEN * 2];
  int inside = classify(dfd, p, rel), wr = is_write_flags(flags);
  if (!inside) {
    if (wr) {
      logesc("open", rel);
      errno = EACCES;
    } else
      errno = ENOENT; // nothing of the host is visible inside the simulation
    return -1;
  }
  const char *cls = wr ? "openw" : (flags & O_DIRECTORY) ? "opendir" : "openr";
  int e = pre(cls, rel);
  if (e) {
    errno = -e;
    return -1;
  }
  static long opens;
  opens++;
  if (noise_hit("open", rel, opens, C.n_eintr)) {
    c_eintr++;
    errno = EINTR;
    return -1;
  }
  long r = RAW(SYS_openat, dfd, tr(p), flags, mode);
  logop(cls, rel, r < 0 ? r : 0, (flags & O_TRUNC) ? "trunc" : "-");
  if (r >= 0 && r < MAXFD) {
    FD[r].open = 1;
    FD[r].wr = wr;
    FD[r].nread = FD[r].nwrite = 0;
    strncpy(FD[r].path, rel, PATHLEN - 1);
  }
  return (int)ret(r);
}
EXPORT int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, p, flags, m);
}
EXPORT int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, p, flags, m);
}
EXPORT int openat(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return do_open(d, p, flags, m);
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, int);
  va_end(ap);
  return do_open(d, p, flags, m);
}
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

HIDDEN const char *fdname(int fd) {
  if (fd >= 0 && fd < MAXFD && FD[fd].open) return FD[fd].path;
  if (fd == 1) return "<stdout>";
  if (fd == 2) return "<stderr>";
  return NULL;
}
HIDDEN ssize_t do_read(int fd, void *buf, size_t n, off_t off) {
  const char *p = active() ? fdname(fd) : NULL;
  if (!p) return off < 0 ? ret(RAW(SYS_read, fd, buf, n, 0)) : ret(RAW(SYS_pread64, fd, buf, n, off));
  int e = pre("read", p);
  if (e) {
    errno = -e;
    return -1;
  }
  long k = FD[fd].nread++;
  if (n > 0 && noise_hit("read-eintr", p, k, C.n_eintr)) {
    c_eintr++;
    errno = EINTR;
    return -1;
  }
  if (n > 1 && noise_hit("read-short", p, k, C.n_short_r)) {
    c_short_r++;
    n = 1 + (size_t)(h2(C.noise_seed, h2(hstr(p), (u64)k)) % (n > 64 ? 64 : n - 1));
  }
  long r = off < 0 ? RAW(SYS_read, fd, buf, n, 0) : RAW(SYS_pread64, fd, buf, n, off);
  return ret(r);
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
HIDDEN ssize_t do_write(int fd, const void *buf, size_t n) {
  const char *p = active() ? fdname(fd) : NULL;
  if (!p) return ret(RAW(SYS_write, fd, buf, n, 0));
  int std = fd == 1 || fd == 2;
  point(K_FS);
  if (!std) gate('g');
  Rule *r = match("write", p);
  size_t want = n;
  if (r) {
    if (!strcmp(r->act, "crash")) {
      logop("write", p, -1, "CRASH");
      die("crash", 137);
    }
    if (!strcmp(r->act, "crashtorn")) {
      size_t k = (size_t)r->arg % (n + 1);
      if (k) RAW(SYS_write, fd, buf, k, 0);
      logop("write", p, (long)k, "CRASHTORN");
      die("crash", 137);
    }
    if (!strcmp(r->act, "errno")) {
      logop("write", p, -r->arg, "FAULT");
      errno = (int)r->arg;
      return -1;
    }
    if (!strcmp(r->act, "short")) { // partial write; pair with a following errno rule for "disk full"
      want = n > 1 ? 1 + (size_t)r->arg % (n - 1) : n;
    }
  }
  long k = std ? (long)step : FD[fd].nwrite++;
  if (n > 0 && noise_hit("write-eintr", p, k, C.n_eintr)) {
    c_eintr++;
    errno = EINTR;
    return -1;
  }
  if (want > 1 && noise_hit("write-short", p, k, C.n_short_w)) {
    c_short_w++;
    want = 1 + (size_t)(h2(C.noise_seed, h2(hstr(p), (u64)k)) % (want - 1));
  }
  long x = RAW(SYS_write, fd, buf, want, 0);
  logop("write", p, x, "-");
  return ret(x);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (active() && fdname(fd)) {
    int e = pre("write", fdname(fd));
    if (e) {
      errno = -e;
      return -1;
    }
    logop("write", fdname(fd), (long)n, "pwrite");
  }
  return ret(RAW(SYS_pwrite64, fd, b, n, o));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!active() || !fdname(fd)) return ret(RAW(SYS_writev, fd, v, c, 0));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT int close(int fd) {
  const char *p = active() ? fdname(fd) : NULL;
  if (!p || fd <= 2) {
    if (fd >= 0 && fd < MAXFD) FD[fd].open = 0;
    return (int)ret(RAW(SYS_close, fd, 0, 0, 0));
  }
  int e = pre("close", p); // the descriptor is gone either way, as on Linux
  FD[fd].open = 0;
  long r = RAW(SYS_close, fd, 0, 0, 0);
  if (e) {
    errno = -e;
    return -1;
  }
  return (int)ret(r);
}
EXPORT int dup(int a) {
  long r = RAW(SYS_dup, a, 0, 0, 0);
  if (C.on && r >= 0 && r < MAXFD && a < MAXFD) FD[r] = FD[a];
  return (int)ret(r);
}
EXPORT int dup2(int a, int b) {
  if (b >= 0 && b < MAXFD && a >= 0 && a < MAXFD) FD[b] = FD[a];
  return (int)ret(RAW(SYS_dup2, a, b, 0, 0));
}

// Path metadata and mutation.
#define STATPRE(dfd, p)                        \
  char rel[PATHLEN * 2];                       \
  if (!classify(dfd, p, rel)) {                \
    errno = ENOENT;                            \
    return -1;                                 \
  }                                            \
  int e = pre("stat", rel);                    \
  if (e) {                                     \
    errno = -e;                                \
    return -1;                                 \
  }
EXPORT int stat64(const char *p, struct stat64 *s) {
  if (active()) {
    STATPRE(AT_FDCWD, p)
  }
  return (int)ret(RAW(SYS_newfstatat, AT_FDCWD, tr(p), s, 0));
}
EXPORT int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) {
  if (active()) {
    STATPRE(AT_FDCWD, p)
  }
  return (int)ret(RAW(SYS_newfstatat, AT_FDCWD, tr(p), s, AT_SYMLINK_NOFOLLOW));
}
EXPORT int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) {
  if (active() && *p) {
    STATPRE(d, p)
  }
  return (int)ret(RAW(SYS_newfstatat, d, tr(p), s, fl));
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) { return fstatat64(d, p, (struct stat64 *)s, fl); }
EXPORT int fstat64(int fd, struct stat64 *s) {
  const char *p = active() ? fdname(fd) : NULL;
  if (p && fd > 2) {
    int e = pre("fstat", p);
    if (e) {
      errno = -e;
      return -1;
    }
  }
  return (int)ret(RAW(SYS_fstat, fd, s, 0, 0));
}
EXPORT int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict sx) {
  if (active() && p && *p) {
    STATPRE(d, p)
  } else if (active() && fdname(d) && d > 2) {
    int e = pre("fstat", fdname(d));
    if (e) {
      errno = -e;
      return -1;
    }
  }
  return (int)ret(raw6(SYS_statx, d, (long)tr(p), fl, mask, (long)sx, 0));
}
EXPORT char *realpath(const char *p, char *out) {
  static char *(*real)(const char *, char *);
  if (!real) real = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
  if (active() && p) {
    char rel[PATHLEN * 2];
    int e = classify(AT_FDCWD, p, rel) ? pre("stat", rel) : -ENOENT;
    if (e) {
      errno = -e;
      return NULL;
    }
  }
  int was = in_lib;
  in_lib = 1;
  char tmp[PATH_MAX];
  char *r = real(tr(p), C.on ? tmp : out);
  in_lib = was;
  if (!C.on || !r) return r;
  size_t n = strlen(C.real);
  char *o = out ? out : __libc_malloc(PATH_MAX);
  if (!strncmp(r, C.real, n) && (r[n] == '/' || !r[n])) snprintf(o, PATH_MAX, "%s%s", VBOX, r + n);
  else strcpy(o, r);
  return o;
}
EXPORT int access(const char *p, int m) {
  if (active()) {
    STATPRE(AT_FDCWD, p)
  }
  return (int)ret(RAW(SYS_access, tr(p), m, 0, 0));
}
HIDDEN int mut1(const char *cls, int dfd, const char *p) {
  char rel[PATHLEN * 2];
  if (!classify(dfd, p, rel)) {
    logesc(cls, rel);
    return -EACCES;
  }
  int e = pre(cls, rel);
  if (e) return e;
  logop(cls, rel, 0, "-");
  return 0;
}
HIDDEN const char *trdup(const char *p, char *b) {
  snprintf(b, PATHLEN * 2, "%s", tr(p));
  return b;
}
#define MUT(cls, dfd, p, call)          \
  if (active()) {                       \
    int e_ = mut1(cls, dfd, p);         \
    if (e_) {                           \
      errno = -e_;                      \
      return -1;                        \
    }                                   \
  }                                     \
  return (int)ret(call);
EXPORT int unlink(const char *p) { MUT("unlink", AT_FDCWD, p, RAW(SYS_unlink, tr(p), 0, 0, 0)) }
EXPORT int unlinkat(int d, const char *p, int fl) { MUT("unlink", d, p, RAW(SYS_unlinkat, d, tr(p), fl, 0)) }
EXPORT int rmdir(const char *p) { MUT("unlink", AT_FDCWD, p, RAW(SYS_rmdir, tr(p), 0, 0, 0)) }
EXPORT int mkdir(const char *p, mode_t m) { MUT("mkdir", AT_FDCWD, p, RAW(SYS_mkdir, tr(p), m, 0, 0)) }
EXPORT int mkdirat(int d, const char *p, mode_t m) { MUT("mkdir", d, p, RAW(SYS_mkdirat, d, tr(p), m, 0)) }
EXPORT int truncate64(const char *p, off64_t n) { MUT("trunc", AT_FDCWD, p, RAW(SYS_truncate, tr(p), n, 0, 0)) }
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int chmod(const char *p, mode_t m) { MUT("chmod", AT_FDCWD, p, RAW(SYS_chmod, tr(p), m, 0, 0)) }
EXPORT int symlink(const char *t, const char *p) { MUT("link", AT_FDCWD, p, RAW(SYS_symlink, t, tr(p), 0, 0)) }
EXPORT int link(const char *t, const char *p) {
  char tb[PATHLEN * 2];
  const char *from = trdup(t, tb); // before tr(p): they share a buffer
  MUT("link", AT_FDCWD, p, raw6(SYS_linkat, AT_FDCWD, (long)from, AT_FDCWD, (long)tr(p), 0, 0)) }
EXPORT int linkat(int d, const char *t, int d2, const char *p, int fl) {
  char tb[PATHLEN * 2];
  const char *from = trdup(t, tb);
  MUT("link", d2, p, raw6(SYS_linkat, d, (long)from, d2, (long)tr(p), fl, 0))
}
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
  if (p) {
    MUT("utime", d, p, RAW(SYS_utimensat, d, tr(p), t, fl))
  }
  return (int)ret(RAW(SYS_utimensat, d, tr(p), t, fl));
}
EXPORT int renameat(int d1, const char *a, int d2, const char *b) {
  if (active()) {
    char rel[PATHLEN * 2];
    int e = 0;
    if (!classify(d1, a, rel)) e = -EACCES, logesc("rename", rel);
    else if (!e) e = pre("renamefrom", rel), logop("renamefrom", rel, e, "-");
    if (!e) e = mut1("rename", d2, b);
    if (e) {
      errno = -e;
      return -1;
    }
  }
  char tb[PATHLEN * 2];
  const char *from = trdup(a, tb); // before tr(b): they share a buffer
  return (int)ret(RAW(SYS_renameat, d1, from, d2, tr(b)));
}
EXPORT int rename(const char *a, const char *b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return renameat(d1, a, d2, b); }
EXPORT int ftruncate64(int fd, off64_t n) {
  const char *p = active() ? fdname(fd) : NULL;
  if (p) {
    int e = pre("trunc", p);
    if (e) {
      errno = -e;
      return -1;
    }
    logop("trunc", p, n, "-");
  }
  return (int)ret(RAW(SYS_ftruncate, fd, n, 0, 0));
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
HIDDEN int do_sync(int fd, long nr) {
  const char *p = active() ? fdname(fd) : NULL;
  if (p) {
    int e = pre("fsync", p);
    if (e) {
      errno = -e;
      return -1;
    }
    logop("fsync", p, 0, "-");
  }
  (void)nr;
  return 0;
}
// Locks between processes: a real wait would stop every process of the simulation.
EXPORT int flock(int fd, int op) {
  const char *p = active() ? fdname(fd) : NULL;
  if (!p) return (int)ret(RAW(SYS_flock, fd, op, 0, 0));
  int e = pre("flock", p);
  if (e) {
    errno = -e;
    return -1;
  }
  for (;;) {
    long r = RAW(SYS_flock, fd, op | LOCK_NB, 0, 0);
    if (r != -EWOULDBLOCK || (op & LOCK_NB)) return (int)ret(r);
    point(K_YIELD);
    gate('w');
  }
}
HIDDEN int do_fcntl(int fd, int cmd, long arg) {
  if (!active() || (cmd != F_SETLKW && cmd != F_OFD_SETLKW)) {
    long r = RAW(SYS_fcntl, fd, cmd, arg, 0);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && C.on && r >= 0 && r < MAXFD && fd < MAXFD) FD[r] = FD[fd];
    return (int)ret(r);
  }
  int e = pre("flock", fdname(fd) ? fdname(fd) : "?");
  if (e) {
    errno = -e;
    return -1;
  }
  for (;;) {
    long r = RAW(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg, 0);
    if (r != -EAGAIN && r != -EACCES) return (int)ret(r);
    point(K_YIELD);
    gate('w');
  }
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, a);
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, a);
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

// Directories: entries are read in full, put in a seeded order, then served.
#define MAXDIR 512
typedef struct {
  DIR *d;
  struct dirent64 *ents;
  long n, i;
  size_t bytes;
  char path[PATHLEN];
} Dir;
HIDDEN Dir *DT;
HIDDEN int entcmp(const void *a, const void *b) {
  return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
HIDDEN DIR *dir_register(DIR *d, const char *rel) {
  Dir *x = NULL;
  for (int i = 0; i < MAXDIR; i++)
    if (!DT[i].d) {
      x = &DT[i];
      break;
    }
  if (!x) die("too-many-dirs", 96);
  in_lib = 1;
  long n = 0, cap = 64;
  struct dirent64 *v = __libc_malloc(cap * sizeof *v), *de;
  while ((de = r_readdir64(d))) {
    if (n == cap) v = __libc_realloc(v, (cap *= 2) * sizeof *v);
    memcpy(&v[n], de, de->d_reclen < sizeof *v ? de->d_reclen : sizeof *v);
    v[n].d_ino = 1;
    n++;
  }
  qsort(v, n, sizeof *v, entcmp);
  if (C.dir_mode == 1)
    for (long i = 0; i < n / 2; i++) {
      struct dirent64 t = v[i];
      v[i] = v[n - 1 - i];
      v[n - 1 - i] = t;
    }
  if (C.dir_mode == 2) {
    u64 s = h2(C.dir_seed, hstr(rel));
    for (long i = n - 1; i > 0; i--) {
      s = mix(s + 0x9e3779b97f4a7c15ULL);
      long j = (long)(s % (u64)(i + 1));
      struct dirent64 t = v[i];
      v[i] = v[j];
      v[j] = t;
    }
    c_reorder++;
  }
  in_lib = 0;
  x->d = d;
  x->ents = v;
  x->n = n;
  x->i = 0;
  strncpy(x->path, rel, PATHLEN - 1);
  int fd = r_dirfd(d);
  if (fd >= 0 && fd < MAXFD) {
    FD[fd].open = 1;
    FD[fd].wr = 0;
    strncpy(FD[fd].path, rel, PATHLEN - 1);
  }
  return d;
}
EXPORT DIR *opendir(const char *p) {
  if (!active()) return r_opendir(p);
  char rel[PATHLEN * 2];
  if (!classify(AT_FDCWD, p, rel)) {
    errno = ENOENT;
    return NULL;
  }
  int e = pre("opendir", rel);
  if (e) {
    errno = -e;
    return NULL;
  }
  in_lib = 1;
  DIR *d = r_opendir(tr(p));
  in_lib = 0;
  int er = errno;
  logop("opendir", rel, d ? 0 : -er, "-");
  errno = er;
  return d ? dir_register(d, rel) : NULL;
}
EXPORT DIR *fdopendir(int fd) {
  const char *p = active() ? fdname(fd) : NULL;
  if (!p) return r_fdopendir(fd);
  in_lib = 1;
  DIR *d = r_fdopendir(fd);
  in_lib = 0;
  char rel[PATHLEN];
  strncpy(rel, p, PATHLEN - 1);
  return d ? dir_register(d, rel) : NULL;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  Dir *x = NULL;
  for (int i = 0; i < MAXDIR; i++)
    if (DT[i].d == d) x = &DT[i];
  if (!x) return r_readdir64(d);
  if (active()) {
    int e = pre("readdir", x->path);
    if (e) {
      errno = -e;
      return NULL;
    }
  }
  if (x->i >= x->n) return NULL; // errno untouched: end of directory
  struct dirent64 *de = &x->ents[x->i++];
  if (noise_hit("dt", de->d_name, 0, C.n_dtunk)) {
    c_dtunk++;
    de->d_type = DT_UNKNOWN;
  }
  return de;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
  for (int i = 0; i < MAXDIR; i++)
    if (DT[i].d == d) {
      DT[i].d = NULL;
      int fd = r_dirfd(d);
      if (fd >= 0 && fd < MAXFD) FD[fd].open = 0;
      free(DT[i].ents);
    }
  point(K_FS);
  in_lib = 1;
  int r = r_closedir(d);
  in_lib = 0;
  return r;
}
EXPORT int chdir(const char *p) {
  char a[PATHLEN * 2];
  norm(p, a);
  long r = RAW(SYS_chdir, tr(p), 0, 0, 0);
  if (!r) strncpy(cwd, a, PATHLEN - 1);
  return (int)ret(r);
}
EXPORT char *getcwd(char *b, size_t n) {
  if (!C.on) {
    long r = RAW(SYS_getcwd, b, n, 0, 0);
    return r < 0 ? (errno = (int)-r, NULL) : b;
  }
  if (strlen(cwd) + 1 > n) {
    errno = ERANGE;
    return NULL;
  }
  return strcpy(b, cwd);
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  if (active()) {
    STATPRE(AT_FDCWD, p)
  }
  return ret(RAW(SYS_readlink, tr(p), b, n, 0));
}
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  errno = ENOSYS;
  return -1;
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  errno = ENOSYS;
  return -1;
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  errno = ENOSYS;
  return -1;
}

// ---------------------------------------------------------------- process end
EXPORT __attribute__((noreturn)) void abort(void) {
  if (C.on) write_report("abort", 134);
  RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0, 0), 9, 0, 0);
  for (;;) RAW(SYS_exit_group, 134, 0, 0, 0);
}
EXPORT __attribute__((noreturn)) void exit(int code) {
  static void (*real)(int) __attribute__((noreturn));
  if (!real) real = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  if (C.on) {
    write_report("exit", code);
    C.on = 0;
  }
  real(code);
}
EXPORT __attribute__((noreturn)) void _exit(int code) {
  if (C.on) write_report("exit", code);
  for (;;) RAW(SYS_exit_group, code, 0, 0, 0);
}
__attribute__((destructor)) static void fini(void) {
  if (C.on) {
    write_report("exit", -1); // returned from main: the wait status has the code
    C.on = 0;
  }
}

// ---------------------------------------------------------------- start
HIDDEN void unesc(char *s) {
  char *o = s;
  for (; *s; s++) {
    if (*s == '\\' && s[1]) {
      s++;
      *o++ = *s == 's' ? ' ' : *s == 'n' ? '\n' : *s;
    } else
      *o++ = *s;
  }
  *o = 0;
}
__attribute__((constructor)) static void init(void) {
  r_pthread_create = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  r_pthread_join = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
  r_opendir = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
  r_fdopendir = (DIR * (*)(int)) dlsym(RTLD_NEXT, "fdopendir");
  r_readdir64 = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  r_closedir = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
  r_dirfd = (int (*)(DIR *))dlsym(RTLD_NEXT, "dirfd");
  const char *ctl = getenv("QLCSIM_CTL");
  if (!ctl) return;
  int fd = (int)RAW(SYS_openat, AT_FDCWD, ctl, O_RDONLY, 0);
  if (fd < 0) return;
  struct stat st;
  RAW(SYS_fstat, fd, &st, 0, 0);
  char *txt = (char *)raw6(SYS_mmap, 0, st.st_size + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  long off = 0, r;
  while (off < st.st_size && (r = RAW(SYS_read, fd, txt + off, st.st_size - off, 0)) > 0) off += r;
  RAW(SYS_close, fd, 0, 0, 0);
  long lines = 0;
  for (long i = 0; i < off; i++) lines += txt[i] == '\n';
  C.dev_step = (u64 *)raw6(SYS_mmap, 0, (lines + 1) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  C.dev_tid = (int *)raw6(SYS_mmap, 0, (lines + 1) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  C.quantum = 400;
  C.step_ns = 1000;
  C.max_steps = 2000000;
  C.ncpu = 4;
  C.pin = -1;
  C.gate_in = C.gate_out = -1;
  C.pid = 1000;
  long cpu_s = 20, as_mb = 3000, wall_s = 120;
  char *s = txt;
  while (*s) {
    char *e = strchr(s, '\n');
    if (e) *e = 0;
    char *v = strchr(s, ' ');
    if (v) {
      *v++ = 0;
#define NUM(name, field) else if (!strcmp(s, name)) C.field = strtoull(v, NULL, 10)
      if (!strcmp(s, "box")) strncpy(C.real, v, PATHLEN - 1), strcpy(C.box, VBOX);
      else if (!strcmp(s, "report")) strncpy(C.report, v, PATHLEN - 1);
      NUM("seed", seed);
      NUM("hash_seed", hash_seed);
      NUM("dir_seed", dir_seed);
      NUM("noise_seed", noise_seed);
      NUM("dir_mode", dir_mode);
      NUM("mode", mode);
      NUM("p_switch", p_switch);
      NUM("pct_depth", pct_depth);
      NUM("pct_len", pct_len);
      NUM("stall_len", stall_len);
      NUM("p_stall", p_stall);
      NUM("adv_steps", adv_steps);
      NUM("max_steps", max_steps);
      NUM("step_ns", step_ns);
      NUM("crash_step", crash_step);
      NUM("quantum", quantum);
      NUM("short_read", n_short_r);
      NUM("short_write", n_short_w);
      NUM("eintr", n_eintr);
      NUM("dt_unknown", n_dtunk);
      NUM("spurious", n_spur);
      NUM("oversleep", n_oversleep);
      NUM("ncpu", ncpu);
      NUM("tty", tty);
      NUM("log_devs", log_devs);
      NUM("log_trace", log_trace);
      NUM("alloc_fail", alloc_fail);
      NUM("spawn_fail", spawn_fail);
      NUM("spawn_fail_all", spawn_fail_all);
      else if (!strcmp(s, "gate_in")) C.gate_in = atoi(v);
      else if (!strcmp(s, "gate_out")) C.gate_out = atoi(v);
      else if (!strcmp(s, "pid")) C.pid = atoi(v);
      else if (!strcmp(s, "pin")) C.pin = atoi(v);
      else if (!strcmp(s, "cpu_s")) cpu_s = atol(v);
      else if (!strcmp(s, "as_mb")) as_mb = atol(v);
      else if (!strcmp(s, "wall_s")) wall_s = atol(v);
      else if (!strcmp(s, "clock_jump_ns")) C.clock_jump_ns = atoll(v);
      else if (!strcmp(s, "dev")) {
        char *q;
        C.dev_step[C.ndev] = strtoull(v, &q, 10);
        C.dev_tid[C.ndev++] = atoi(q);
      } else if (!strcmp(s, "rule") && C.nrules < MAXRULE) {
        Rule *ru = &C.rules[C.nrules++];
        char pth[PATHLEN];
        sscanf(v, "%15s %1023s %d %15s %ld", ru->cls, pth, &ru->occ, ru->act, &ru->arg);
        unesc(pth);
        strcpy(ru->path, !strcmp(pth, ".") ? "" : pth);
      }
    }
    if (!e) break;
    s = e + 1;
  }
  T = (Thr *)raw6(SYS_mmap, 0, sizeof(Thr) * MAXTHR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  FD = (Fd *)raw6(SYS_mmap, 0, sizeof(Fd) * MAXFD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  DT = (Dir *)raw6(SYS_mmap, 0, sizeof(Dir) * MAXDIR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  strcpy(cwd, VBOX);
  struct rlimit rl = {cpu_s, cpu_s + 1};
  RAW(SYS_setrlimit, RLIMIT_CPU, &rl, 0, 0);
  rl.rlim_cur = rl.rlim_max = (rlim_t)as_mb << 20;
  RAW(SYS_setrlimit, RLIMIT_AS, &rl, 0, 0);
  rl.rlim_cur = rl.rlim_max = 0;
  RAW(SYS_setrlimit, RLIMIT_CORE, &rl, 0, 0);
  struct itimerval it = {{0, 0}, {wall_s, 0}};
  RAW(SYS_setitimer, ITIMER_REAL, &it, 0, 0);
  if (C.pin >= 0) {
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(C.pin, &set);
    RAW(SYS_sched_setaffinity, 0, sizeof set, &set, 0);
  }
  rng = mix(C.seed ^ 0xabcdef);
  low_prio = 1ULL << 30;
  if (C.pct_depth > 64) C.pct_depth = 64;
  for (int i = 0; i < C.pct_depth; i++) pct_points[i] = 1 + rnd() % (C.pct_len ? C.pct_len : 1);
  pthread_key_create(&exit_key, exit_dtor);
  nthr = 1;
  T[0].state = T_RUN;
  T[0].prio = (1ULL << 40) + (rnd() >> 30);
  T[0].real = pthread_self();
  self = cur = &T[0];
  C.on = 1;
}
