/* Deterministic simulator for the run-time of an instrumented program.
 *
 * One server process reads scenarios on stdin; every scenario runs in a forked
 * child: the real wrapper, backends and libraries (compiled from /repo with
 * clang's thread-sanitizer code generation, but linked against the __tsan_*
 * functions below) execute under a scheduler that decides every preemption,
 * and against interposed libc functions that decide every clock value,
 * allocation, file operation, fork and wait.  */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;

typedef int int2 __attribute__((ext_vector_type(2)));
typedef int int4 __attribute__((ext_vector_type(4)));
typedef int int8 __attribute__((ext_vector_type(8)));
typedef int int16 __attribute__((ext_vector_type(16)));
typedef float float2 __attribute__((ext_vector_type(2)));
typedef float float4 __attribute__((ext_vector_type(4)));
typedef float float8 __attribute__((ext_vector_type(8)));
typedef float float16 __attribute__((ext_vector_type(16)));
typedef double double2 __attribute__((ext_vector_type(2)));
typedef double double4 __attribute__((ext_vector_type(4)));
typedef double double8 __attribute__((ext_vector_type(8)));
typedef double double16 __attribute__((ext_vector_type(16)));

/* ------------------------------------------------------------------ */
/* shared memory: what the child leaves for the parent                  */
#define MAXT 320
#define MAXSW 400000
#define MAXRES (1 << 20)
#define MAXREC (1 << 18)
#define MAXFIRED 4096

struct rec {
  int thread, backend, ev;
  u64 a[5];
};
struct fired {
  char kind[16];
  u32 n;
};
struct shm {
  u64 steps, hash, swhash;
  u32 nsw, nfired, nrec, lost, ops_done, threads_started, livelock, exiting;
  u64 nres;
  u32 mallocs, opens, forks, waits, clocks, writes, reads, closes;
  struct {
    u64 step;
    int to;
  } sw[MAXSW];
  struct fired fired[MAXFIRED];
  u64 res[MAXRES]; /* (thread<<48|op<<16|n), then n words */
  struct rec rec[MAXREC];
};
static struct shm *S;

/* ------------------------------------------------------------------ */
/* pseudo random numbers                                                */
static u64 rng_next(u64 *s) {
  u64 z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

/* ------------------------------------------------------------------ */
/* scenario                                                             */
#define MAXOPS 4096
struct op {
  char *name;
  int argc;
  char **argv;
};
struct thr {
  struct op *ops;
  int nops, cap;
  int tid;
};
static struct thr T[MAXT];
static int nthr;
enum { M_REPLAY, M_RANDOM, M_PCT, M_OP, M_SERIAL, M_FIRST };
static int mode;
static u64 sched_rng;
static u32 sched_p; /* mean run length (random, op, first) or change points */
static u64 sched_len;
static int prio[MAXT];
static u64 chg[64];
static int nchg;
static u64 max_run = 20000, max_steps = 4000000;
static u64 *rsw_step;
static int *rsw_to, nrsw, rswi, caprsw;

struct fault {
  char kind[16];
  u32 n;
  long arg;
};
static struct fault F[256];
static int nF;
static u32 kcount[64];

/* clock */
static int clk_mode;
static u64 clk_rng;
static int64_t clk_us;
static int64_t clk_step = 1;

/* children of the simulated process */
struct kid {
  pid_t pid;
  int status;
  int done;      /* finished: visible to wait */
  char *tmp;     /* deferred output */
  int tmpfd, outfd;
  int cut;
};
static struct kid K[4096];
static int nK;
static int kid_mode; /* 0: only own children */
static u64 kid_rng;

/* ------------------------------------------------------------------ */
/* scheduler                                                            */
static volatile int cur = -1;
static volatile int sched_on;
static int tstate[MAXT]; /* 0 not started, 1 runnable, 2 done */
static int tsem[MAXT + 1];
static u64 run_len, countdown;
static __thread int me = -1;
static int main_sem_idx = MAXT;
static u64 tsteps[MAXT];

static void sem_wait_(int *p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void sem_post_(int *p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static u64 geom(u32 mean) {
  if (mean <= 1)
    return 1;
  /* geometric-like: uniform in 1..2*mean-1 mixed with short runs */
  u64 r = rng_next(&sched_rng);
  if ((r & 7) == 0)
    return 1 + (r >> 8) % 3;
  return 1 + (r >> 8) % (2 * mean - 1);
}

static int nrunnable(void) {
  int n = 0;
  for (int i = 0; i < nthr; i++)
    n += tstate[i] == 1;
  return n;
}

static int pick_random(int not_me) {
  int n = 0, c[MAXT];
  for (int i = 0; i < nthr; i++)
    if (tstate[i] == 1 && i != not_me)
      c[n++] = i;
  if (!n)
    return -1;
  return c[rng_next(&sched_rng) % n];
}
static int pick_prio(void) {
  int b = -1;
  for (int i = 0; i < nthr; i++)
    if (tstate[i] == 1 && (b < 0 || prio[i] > prio[b]))
      b = i;
  return b;
}
static int pick_lowest(int not_me) {
  for (int i = 0; i < nthr; i++)
    if (tstate[i] == 1 && i != not_me)
      return i;
  return -1;
}
static int pick_next_rr(int from) {
  for (int k = 1; k <= nthr; k++) {
    int i = (from + k) % nthr;
    if (tstate[i] == 1 && i != from)
      return i;
  }
  return -1;
}

static void note_switch(int to, u32 pc) {
  S->swhash = (S->swhash ^ (((u64)pc << 8) | (u64)to)) * 0x100000001b3ull;
  if (S->nsw < MAXSW) {
    S->sw[S->nsw].step = S->steps;
    S->sw[S->nsw].to = to;
    S->nsw++;
  } else
    S->lost = 1;
}

/* hand the baton to thread `to`; if `park`, wait until it comes back */
static void handoff(int to, int park) {
  int self = me;
  cur = to;
  run_len = 0;
  sem_post_(&tsem[to]);
  if (park)
    sem_wait_(&tsem[self]);
}

static int replay_due(void) {
  while (rswi < nrsw && rsw_step[rswi] < S->steps)
    rswi++;
  return rswi < nrsw && rsw_step[rswi] == S->steps;
}

/* voluntary choice when the current thread cannot continue */
static int choose_forced(int from) {
  switch (mode) {
  case M_REPLAY:
    if (replay_due()) {
      int t = rsw_to[rswi];
      if (t < nthr && tstate[t] == 1 && t != from) {
        rswi++;
        return t;
      }
    }
    return pick_next_rr(from) >= 0 && from >= 0 && tstate[from] == 1
               ? pick_next_rr(from)
               : pick_lowest(from);
  case M_PCT: {
    int t = pick_prio();
    return t == from ? pick_next_rr(from) : t;
  }
  case M_SERIAL:
    return pick_lowest(from);
  default:
    return pick_random(from);
  }
}

enum { K_STEP, K_OP };
static void livelock(void) {
  S->livelock = 1;
  _exit(97);
}
__attribute__((noinline)) static void sched_slow(int kind, u32 pc) {
  int to = -1;
  if (S->steps > max_steps)
    livelock();
  if (nrunnable() < 2) {
    run_len = 0;
    return;
  }
  if (run_len > max_run) {
    to = choose_forced(me);
  } else
    switch (mode) {
    case M_REPLAY:
      if (replay_due()) {
        to = rsw_to[rswi++];
        if (to >= nthr || tstate[to] != 1)
          to = -1;
      }
      break;
    case M_RANDOM:
      if (--countdown == 0 || countdown > (1ull << 60)) {
        countdown = geom(sched_p);
        to = pick_random(me);
      }
      break;
    case M_FIRST: {
      /* dense switching in the first sched_len steps of each thread */
      u32 p = tsteps[me] < sched_len ? sched_p : 50 * sched_p + 500;
      if (rng_next(&sched_rng) % p == 0)
        to = pick_random(me);
      break;
    }
    case M_OP:
      if (kind == K_OP && rng_next(&sched_rng) % sched_p == 0)
        to = pick_random(me);
      break;
    case M_PCT:
      for (int i = 0; i < nchg; i++)
        if (chg[i] == S->steps) {
          prio[me] = -1 - (int)(S->steps & 0xffffff);
          to = pick_prio();
        }
      break;
    }
  if (to >= 0 && to != me) {
    note_switch(to, pc);
    handoff(to, 1);
  }
}

static int exit_me = -1; /* the thread that called exit */
static int exit_run;     /* the other threads go on while the process exits */
static __thread int nopre; /* inside a stdio call that holds a stream lock */
static inline void sched_point(int kind, u32 pc) {
  if (!sched_on || me < 0 || nopre)
    return;
  if (exit_me >= 0 && !exit_run) {
    /* the process is exiting: others run only while the exiting thread waits
       for something they hold */
    if (me != exit_me) {
      if (++S->steps > max_steps)
        livelock();
      handoff(exit_me, 1);
    }
    return;
  }
  S->steps++;
  run_len++;
  tsteps[me]++;
  S->hash = (S->hash ^ (((u64)pc << 4) | (u64)me)) * 0x100000001b3ull;
  sched_slow(kind, pc);
}

/* blocked on something only another thread can release */
static void sched_block(u32 pc) {
  if (!sched_on || me < 0)
    return;
  S->steps++;
  if (S->steps > max_steps)
    livelock();
  if (mode == M_PCT) /* a waiting thread must not starve the one it waits for */
    prio[me] = -1 - (int)(S->steps & 0xffffff);
  int to = choose_forced(me);
  if (to < 0)
    livelock();
  note_switch(to, pc);
  handoff(to, 1);
}

#define PC() ((u32)((uintptr_t)__builtin_return_address(0) & 0xfff))
#define STEP() sched_point(K_STEP, PC())

/* ------------------------------------------------------------------ */
/* thread-sanitizer interface                                           */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                  \
  void __tsan_read##n(void *a) { STEP(); }                                     \
  void __tsan_write##n(void *a) { STEP(); }                                    \
  void __tsan_unaligned_read##n(void *a) { STEP(); }                           \
  void __tsan_unaligned_write##n(void *a) { STEP(); }                          \
  void __tsan_read_write##n(void *a) { STEP(); }                               \
  void __tsan_unaligned_read_write##n(void *a) { STEP(); }                     \
  void __tsan_volatile_read##n(void *a) { STEP(); }                            \
  void __tsan_volatile_write##n(void *a) { STEP(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *b) { STEP(); }
void __tsan_vptr_read(void **a) { STEP(); }
void __tsan_read_range(void *a, size_t n) { STEP(); }
void __tsan_write_range(void *a, size_t n) { STEP(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  STEP();
  memcpy(d, s, n / 2);
  STEP();
  memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2);
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  STEP();
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  STEP();
  return memset(d, c, n);
}
typedef uint8_t a8;
typedef uint16_t a16;
typedef uint32_t a32;
typedef uint64_t a64;
#define ATOM(n)                                                                \
  a##n __tsan_atomic##n##_load(a##n *a, int mo) {                              \
    STEP();                                                                    \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##n##_store(a##n *a, a##n v, int mo) {                     \
    STEP();                                                                    \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  a##n __tsan_atomic##n##_exchange(a##n *a, a##n v, int mo) {                  \
    STEP();                                                                    \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  a##n __tsan_atomic##n##_fetch_add(a##n *a, a##n v, int mo) {                 \
    STEP();                                                                    \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  a##n __tsan_atomic##n##_fetch_sub(a##n *a, a##n v, int mo) {                 \
    STEP();                                                                    \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  a##n __tsan_atomic##n##_fetch_and(a##n *a, a##n v, int mo) {                 \
    STEP();                                                                    \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  a##n __tsan_atomic##n##_fetch_or(a##n *a, a##n v, int mo) {                  \
    STEP();                                                                    \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  a##n __tsan_atomic##n##_fetch_xor(a##n *a, a##n v, int mo) {                 \
    STEP();                                                                    \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  a##n __tsan_atomic##n##_fetch_nand(a##n *a, a##n v, int mo) {                \
    STEP();                                                                    \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  int __tsan_atomic##n##_compare_exchange_strong(a##n *a, a##n *c, a##n v,     \
                                                 int mo, int fmo) {            \
    STEP();                                                                    \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST,           \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##n##_compare_exchange_weak(a##n *a, a##n *c, a##n v,       \
                                               int mo, int fmo) {              \
    STEP();                                                                    \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST,           \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  a##n __tsan_atomic##n##_compare_exchange_val(a##n *a, a##n c, a##n v,        \
                                               int mo, int fmo) {              \
    STEP();                                                                    \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST,                 \
                                __ATOMIC_SEQ_CST);                             \
    return c;                                                                  \
  }
ATOM(8) ATOM(16) ATOM(32) ATOM(64)
void __tsan_atomic_thread_fence(int mo) { STEP(); }
void __tsan_atomic_signal_fence(int mo) {}

/* ------------------------------------------------------------------ */
/* calls from the code under test                                       */
static struct {
  uintptr_t lo, hi;
} cutmod[64];
static int ncut;
static volatile int in_child; /* interposition active */
static char cutdir[512];

#include <link.h>
static int cb_mod(struct dl_phdr_info *i, size_t n, void *p) {
  if (!i->dlpi_name || strncmp(i->dlpi_name, cutdir, strlen(cutdir)) ||
      ncut >= 64)
    return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      cutmod[ncut].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      cutmod[ncut].hi = cutmod[ncut].lo + i->dlpi_phdr[k].p_memsz;
      ncut++;
    }
  return 0;
}
static u64 mod_gen = 1, mod_seen;
static int from_cut(void *ra) {
  uintptr_t a = (uintptr_t)ra;
  for (int i = 0; i < ncut; i++)
    if (a >= cutmod[i].lo && a < cutmod[i].hi)
      return 1;
  return 0;
}
/* modules are loaded by the code under test itself: refresh on demand */
static void refresh_mods(void) {
  ncut = 0;
  dl_iterate_phdr(cb_mod, NULL);
}

enum {
  C_MALLOC,
  C_OPEN,
  C_READ,
  C_WRITE,
  C_CLOSE,
  C_FORK,
  C_WAIT,
  C_EXEC,
  C_FLUSH,
  C_DLOPEN,
  C_CLOCK,
  C_N
};
static const char *CN[] = {"malloc", "open", "read", "write", "close", "fork",
                           "wait",   "exec", "flush", "dlopen", "clock"};

/* does a fault strike this call? returns its index+1 */
static struct fault *hit(int c, u32 n) {
  for (int i = 0; i < nF; i++)
    if (!strcmp(F[i].kind, CN[c]) && F[i].n == n) {
      if (S->nfired < MAXFIRED) {
        strcpy(S->fired[S->nfired].kind, F[i].kind);
        S->fired[S->nfired].n = n;
        S->nfired++;
      }
      return &F[i];
    }
  return NULL;
}
static int has_kind(int c) {
  for (int i = 0; i < nF; i++)
    if (!strcmp(F[i].kind, CN[c]))
      return 1;
  return 0;
}

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static int want_malloc;
static int alloc_fault(void *ra) {
  if (!in_child || !want_malloc)
    return 0;
  if (!from_cut(ra)) {
    static __thread int busy;
    if (busy)
      return 0;
    busy = 1;
    /* a module may have been loaded since */
    Dl_info di;
    int isnew = dladdr(ra, &di) && di.dli_fname &&
                !strncmp(di.dli_fname, cutdir, strlen(cutdir));
    if (isnew)
      refresh_mods();
    busy = 0;
    if (!isnew)
      return 0;
  }
  S->mallocs++;
  struct fault *f = hit(C_MALLOC, S->mallocs);
  return f != NULL;
}
void *malloc(size_t n) {
  if (alloc_fault(__builtin_return_address(0))) {
    errno = ENOMEM;
    return NULL;
  }
  return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
  if (alloc_fault(__builtin_return_address(0))) {
    errno = ENOMEM;
    return NULL;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (alloc_fault(__builtin_return_address(0))) {
    errno = ENOMEM;
    return NULL;
  }
  return __libc_realloc(p, n);
}
void free(void *p) { __libc_free(p); }

#define REAL(name) ((typeof(&name))real_##name())
#define DECLREAL(name)                                                         \
  static void *real_##name(void) {                                             \
    static void *p;                                                            \
    if (!p)                                                                    \
      p = dlsym(RTLD_NEXT, #name);                                             \
    return p;                                                                  \
  }
DECLREAL(fopen)
DECLREAL(open)
DECLREAL(fork)
DECLREAL(wait)
DECLREAL(waitpid)
DECLREAL(close)
DECLREAL(write)
DECLREAL(pthread_mutex_trylock)
DECLREAL(pthread_mutex_lock)
DECLREAL(pthread_mutex_unlock)
DECLREAL(pthread_rwlock_tryrdlock)
DECLREAL(pthread_rwlock_trywrlock)
DECLREAL(gettimeofday)
DECLREAL(clock_gettime)

static int cut_call(void *ra) {
  if (!in_child)
    return 0;
  if (from_cut(ra))
    return 1;
  Dl_info di;
  static void *own;
  if (!own && dladdr((void *)cut_call, &di))
    own = di.dli_fbase;
  if (dladdr(ra, &di) && di.dli_fname && di.dli_fbase != own &&
      !strncmp(di.dli_fname, cutdir, strlen(cutdir))) {
    refresh_mods();
    return 1;
  }
  return 0;
}

/* --- files: every stream of the code under test goes through a cookie */
struct cookie {
  int fd;
  u64 rd, wr;     /* bytes so far */
  int serial;     /* number of this open */
  int failed;
};
/* fault arguments: read:N:arg    the N-th read call: 0 = EIO, 1 = end of file
                                  (short file), 2 = EINTR then works
                    write:N:arg   the N-th write call: >=0: only arg bytes of it
                                  are stored, then ENOSPC; -1: EIO
                    close:N:arg   the N-th close fails with arg              */
static ssize_t ck_read(void *c, char *buf, size_t n) {
  struct cookie *k = c;
  S->reads++;
  struct fault *f = hit(C_READ, S->reads);
  if (f) {
    if (f->arg == 1)
      return 0;
    errno = EIO;
    return -1;
  }
  if (k->failed) {
    errno = EIO;
    return -1;
  }
  /* deliver small pieces so that faults can fall between any two of them */
  size_t want = n > 64 ? 64 : n;
  ssize_t r = read(k->fd, buf, want);
  return r;
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
  struct cookie *k = c;
  S->writes++;
  struct fault *f = hit(C_WRITE, S->writes);
  if (k->failed) {
    errno = k->failed;
    return 0;
  }
  if (f) {
    size_t part = f->arg < 0 ? 0 : (size_t)f->arg;
    if (part > n)
      part = n ? n - 1 : 0;
    if (part)
      if (REAL(write)(k->fd, buf, part) < 0) {
      }
    k->failed = f->arg < 0 ? EIO : ENOSPC;
    if (f->arg == -2)
      k->failed = 0; /* transient */
    errno = ENOSPC;
    return 0; /* stdio treats 0 as error for cookie streams */
  }
  ssize_t r = REAL(write)(k->fd, buf, n);
  return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  struct cookie *k = c;
  off64_t r = lseek64(k->fd, *off, wh);
  if (r < 0)
    return -1;
  *off = r;
  return 0;
}
static int ck_close(void *c) {
  struct cookie *k = c;
  S->closes++;
  struct fault *f = hit(C_CLOSE, S->closes);
  syscall(SYS_close, k->fd);
  free(k);
  if (f) {
    errno = f->arg ? f->arg : EIO;
    return -1;
  }
  return 0;
}
static int bufsz = 0;
static FILE *sim_fopen(const char *path, const char *m) {
  STEP();
  S->opens++;
  struct fault *f = hit(C_OPEN, S->opens);
  if (f) {
    errno = f->arg ? f->arg : EACCES;
    return NULL;
  }
  int fl = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY)
           : m[0] == 'w'
               ? (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC
               : (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x'))
    fl |= O_EXCL;
  int fd = REAL(open)(path, fl, 0644);
  if (fd < 0)
    return NULL;
  struct cookie *k = __libc_calloc(1, sizeof *k);
  k->fd = fd;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(k, m, io);
  if (bufsz)
    setvbuf(fp, __libc_malloc(bufsz), _IOFBF, bufsz);
  return fp;
}
FILE *fopen(const char *path, const char *m) {
  if (cut_call(__builtin_return_address(0)))
    return sim_fopen(path, m);
  return REAL(fopen)(path, m);
}
FILE *fopen64(const char *path, const char *m) {
  if (cut_call(__builtin_return_address(0)))
    return sim_fopen(path, m);
  return REAL(fopen)(path, m);
}
int open(const char *path, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int md = va_arg(ap, int);
  va_end(ap);
  if (cut_call(__builtin_return_address(0))) {
    STEP();
    S->opens++;
    struct fault *f = hit(C_OPEN, S->opens);
    if (f) {
      errno = f->arg ? f->arg : EACCES;
      return -1;
    }
  }
  return REAL(open)(path, fl, md);
}
int open64(const char *path, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int md = va_arg(ap, int);
  va_end(ap);
  if (cut_call(__builtin_return_address(0))) {
    STEP();
    S->opens++;
    struct fault *f = hit(C_OPEN, S->opens);
    if (f) {
      errno = f->arg ? f->arg : EACCES;
      return -1;
    }
  }
  return REAL(open)(path, fl, md);
}

int close(int fd) {
  if (!cut_call(__builtin_return_address(0)))
    return REAL(close)(fd);
  STEP();
  S->closes++;
  struct fault *f = hit(C_CLOSE, S->closes);
  int r = REAL(close)(fd);
  if (f) {
    errno = f->arg ? f->arg : EIO;
    return -1;
  }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!cut_call(__builtin_return_address(0)))
    return REAL(write)(fd, b, n);
  STEP();
  S->writes++;
  struct fault *f = hit(C_WRITE, S->writes);
  if (f) {
    if (f->arg > 0 && (size_t)f->arg < n)
      return REAL(write)(fd, b, f->arg); /* short write */
    errno = f->arg < 0 ? EIO : ENOSPC;
    return -1;
  }
  return REAL(write)(fd, b, n);
}

/* --- processes */
static int in_kid; /* 1 in the forked addr2line child */
static struct kid *kid_new(pid_t pid, int cut) {
  struct kid *k = &K[nK++];
  memset(k, 0, sizeof *k);
  k->pid = pid;
  k->cut = cut;
  return k;
}
static char kid_out[8192];
static int kid_pipe[2] = {-1, -1};
static void kid_complete(struct kid *k) {
  if (k->done)
    return;
  k->done = 1;
  if (k->tmp && k->outfd >= 0) {
    size_t n = strlen(k->tmp);
    S->writes++;
    struct fault *f = hit(C_WRITE, S->writes);
    if (f) { /* the child cannot write its output: it ends with an error */
      if ((long)n > f->arg)
        n = f->arg < 0 ? 0 : f->arg;
      k->status = 1 << 8;
    }
    if (REAL(write)(k->outfd, k->tmp, n) < 0) {
    }
  }
}
/* some running kids finish now (seeded) */
static void kids_progress(void) {
  for (int i = 0; i < nK; i++)
    if (!K[i].done && rng_next(&kid_rng) % 2)
      kid_complete(&K[i]);
}
static int kid_outdup = -1;
int dup2(int a, int b) {
  static int (*real)(int, int);
  if (!real)
    real = dlsym(RTLD_NEXT, "dup2");
  if (in_kid && b == 1) {
    kid_outdup = a;
    return 1;
  }
  return real(a, b);
}
pid_t fork(void) {
  if (!cut_call(__builtin_return_address(0)))
    return REAL(fork)();
  S->forks++;
  struct fault *f = hit(C_FORK, S->forks);
  if (f) {
    errno = EAGAIN;
    return -1;
  }
  int p[2];
  if (pipe(p))
    _exit(96);
  pid_t pid = REAL(fork)();
  if (pid == 0) {
    in_kid = 1;
    sched_on = 0; /* only the calling thread exists in the child */
    close(p[0]);
    kid_pipe[1] = p[1];
    return 0;
  }
  close(p[1]);
  size_t n = 0;
  ssize_t r;
  while ((r = read(p[0], kid_out + n, sizeof kid_out - 1 - n)) > 0)
    n += r;
  kid_out[n] = 0;
  close(p[0]);
  int st = 0;
  while (REAL(waitpid)(pid, &st, 0) < 0 && errno == EINTR)
    ;
  /* pids are a source of nondeterminism: give the program simulated ones */
  struct kid *k = kid_new(20000 + nK, 1);
  k->status = st;
  k->outfd = -1;
  if (n > sizeof(int)) {
    int ofd;
    memcpy(&ofd, kid_out, sizeof ofd);
    k->outfd = ofd;
    k->tmp = strdup(kid_out + sizeof ofd);
  }
  return k->pid;
}
static pid_t reap(struct kid *k, int *st) {
  pid_t p = k->pid;
  kid_complete(k);
  if (st)
    *st = k->status;
  *k = K[--nK];
  return p;
}
static pid_t sim_wait(pid_t pid, int *st, int opt) {
  S->waits++;
  struct fault *f = hit(C_WAIT, S->waits);
  if (f) {
    errno = EINTR;
    return -1;
  }
  kids_progress();
  if (pid > 0) {
    for (int i = 0; i < nK; i++)
      if (K[i].pid == pid) {
        if ((opt & WNOHANG) && !K[i].done)
          return 0;
        return reap(&K[i], st);
      }
    errno = ECHILD;
    return -1;
  }
  if (!nK) {
    errno = ECHILD;
    return -1;
  }
  /* any finished child may be returned; if none has finished, one does now */
  int n = 0, c[4096];
  for (int i = 0; i < nK; i++)
    if (K[i].done)
      c[n++] = i;
  if (!n) {
    if (opt & WNOHANG)
      return 0;
    return reap(&K[rng_next(&kid_rng) % nK], st);
  }
  return reap(&K[c[rng_next(&kid_rng) % n]], st);
}
pid_t wait(int *st) {
  if (!cut_call(__builtin_return_address(0)))
    return REAL(wait)(st);
  return sim_wait(-1, st, 0);
}
pid_t waitpid(pid_t p, int *st, int o) {
  if (!cut_call(__builtin_return_address(0)))
    return REAL(waitpid)(p, st, o);
  return sim_wait(p, st, o);
}
static long a2l_bad_n = -1, a2l_bad_kind; /* addr2line failure */
/* stand-in for llvm-addr2line: prints what it would for our sites */
static int sim_exec(const char *file, char **av) {
  u32 n = S->forks;
  struct fault *f = hit(C_EXEC, n);
  if (f && f->arg == 0) { /* not found */
    errno = ENOENT;
    return -1;
  }
  char buf[4096];
  int ofd = kid_outdup;
  memcpy(buf, &ofd, sizeof ofd);
  const char *addr = "0x0";
  for (int i = 1; av[i]; i++)
    if (!strncmp(av[i], "0x", 2))
      addr = av[i];
  int l = snprintf(buf + sizeof ofd, sizeof buf - sizeof ofd,
                   "%s: site at sim.c:%d\n", addr, (int)(strtoul(addr, 0, 16) & 0xffff));
  if (f && f->arg == 1) { /* killed before output */
    kill(getpid(), SIGKILL);
  }
  if (f && f->arg == 2) { /* killed half way */
    if (REAL(write)(kid_pipe[1], buf, sizeof ofd + l / 2) < 0) {
    }
    kill(getpid(), SIGKILL);
  }
  if (f && f->arg == 3) /* error status, no output */
    _exit(1);
  if (REAL(write)(kid_pipe[1], buf, sizeof ofd + l) < 0) {
  }
  _exit(0);
}
int execlp(const char *file, const char *arg, ...) {
  char *av[64];
  int n = 0;
  va_list ap;
  va_start(ap, arg);
  for (const char *a = arg; a && n < 63; a = va_arg(ap, const char *))
    av[n++] = (char *)a;
  av[n] = NULL;
  va_end(ap);
  return sim_exec(file, av);
}
int execl(const char *file, const char *arg, ...) {
  char *av[64];
  int n = 0;
  va_list ap;
  va_start(ap, arg);
  for (const char *a = arg; a && n < 63; a = va_arg(ap, const char *))
    av[n++] = (char *)a;
  av[n] = NULL;
  va_end(ap);
  return sim_exec(file, av);
}
int execvp(const char *file, char *const av[]) {
  return sim_exec(file, (char **)av);
}
int execv(const char *file, char *const av[]) {
  return sim_exec(file, (char **)av);
}

/* --- clock, identifiers */
/* clock modes: 0 stopped; 1 advances clk_step us per reading; 2 random walk
   within +-3 us (steps backwards); 3 random jumps of seconds both ways;
   4 advances only every 3rd reading; 5 goes back clk_step each reading */
static int64_t clock_read(void) {
  S->clocks++;
  switch (clk_mode) {
  case 1:
    clk_us += clk_step;
    break;
  case 2:
    clk_us += (int64_t)(rng_next(&clk_rng) % 7) - 3;
    break;
  case 3:
    clk_us += ((int64_t)(rng_next(&clk_rng) % 5) - 2) * 1000000 +
              (int64_t)(rng_next(&clk_rng) % 3) - 1;
    break;
  case 4:
    if (S->clocks % 3 == 0)
      clk_us += clk_step;
    break;
  case 5:
    clk_us -= clk_step;
    break;
  }
  return clk_us;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!in_child)
    return REAL(gettimeofday)(tv, tz);
  STEP();
  int64_t t = clock_read();
  if (tv) {
    tv->tv_sec = t / 1000000;
    tv->tv_usec = t % 1000000;
  }
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!in_child)
    return REAL(clock_gettime)(c, ts);
  STEP();
  int64_t t = clock_read();
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = (t % 1000000) * 1000;
  return 0;
}
time_t time(time_t *p) {
  time_t t;
  if (!in_child) {
    struct timespec ts;
    REAL(clock_gettime)(CLOCK_REALTIME, &ts);
    t = ts.tv_sec;
  } else {
    STEP();
    t = clock_read() / 1000000;
  }
  if (p)
    *p = t;
  return t;
}
static int sim_tid(void) { return me >= 0 ? T[me].tid : 4242; }
pid_t gettid(void) {
  if (!in_child)
    return syscall(SYS_gettid);
  STEP();
  return sim_tid();
}
pid_t getpid(void) {
  static pid_t (*real)(void);
  if (!real)
    real = dlsym(RTLD_NEXT, "getpid");
  if (in_child && cut_call(__builtin_return_address(0)))
    return 4242;
  return real();
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (in_child && n == SYS_gettid && me >= -1) {
    STEP();
    return sim_tid();
  }
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = -ret;
    return -1;
  }
  return ret;
}
/* entropy sources, should the code use them: deterministic */
static u64 ent_rng;
ssize_t getrandom(void *b, size_t n, unsigned f) {
  for (size_t i = 0; i < n; i++)
    ((char *)b)[i] = rng_next(&ent_rng);
  return n;
}

/* --- waiting */
int sched_yield(void) {
  sched_block(PC());
  return 0;
}
int usleep(useconds_t us) {
  clk_us += us;
  sched_point(K_STEP, PC());
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  clk_us += a->tv_sec * 1000000 + a->tv_nsec / 1000;
  sched_point(K_STEP, PC());
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (me < 0 || !sched_on)
    return REAL(pthread_mutex_lock)(m);
  STEP();
  int r;
  while ((r = REAL(pthread_mutex_trylock)(m)) == EBUSY)
    sched_block(PC());
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  STEP();
  return REAL(pthread_mutex_trylock)(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = REAL(pthread_mutex_unlock)(m);
  STEP();
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  STEP();
  int r;
  while ((r = REAL(pthread_rwlock_tryrdlock)(m)) == EBUSY)
    sched_block(PC());
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  STEP();
  int r;
  while ((r = REAL(pthread_rwlock_trywrlock)(m)) == EBUSY)
    sched_block(PC());
  return r;
}
int pthread_spin_lock(pthread_spinlock_t *m) {
  STEP();
  while (pthread_spin_trylock(m) == EBUSY)
    sched_block(PC());
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  STEP();
  while (*o == 1)
    sched_block(PC());
  if (*o == 0) {
    *o = 1;
    fn();
    *o = 2;
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  pthread_mutex_unlock(m);
  sched_block(PC());
  return pthread_mutex_lock(m);
}

/* formatted output may call back into the code under test while the stream
 * is locked: no preemption inside, one point before and after */
DECLREAL(vfprintf)
int vfprintf(FILE *f, const char *fmt, va_list ap) {
  STEP();
  nopre++;
  int r = REAL(vfprintf)(f, fmt, ap);
  nopre--;
  STEP();
  return r;
}
int fprintf(FILE *f, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}

/* ------------------------------------------------------------------ */
/* recording by the stub backends                                       */
void sim_record(int backend, int ev, u64 a, u64 b, u64 c, u64 d, u64 e) {
  if (S->nrec >= MAXREC)
    return;
  struct rec *r = &S->rec[S->nrec++];
  r->thread = me;
  r->backend = backend;
  r->ev = ev;
  r->a[0] = a;
  r->a[1] = b;
  r->a[2] = c;
  r->a[3] = d;
  r->a[4] = e;
}
void sim_yield(void) { STEP(); }

/* ------------------------------------------------------------------ */
/* delta-debug sites: direct 5-byte calls at fixed addresses             */
void *dd_slot[10];
extern char dd_site_table[];
#define NSITES 640

/* ------------------------------------------------------------------ */
/* operations                                                           */
static void *progh;
/* symbols are resolved before the threads start: dlsym takes the loader's
 * lock, which the simulator does not schedule */
static struct { char *n; void *p; } SYM[512];
static int nsym;
static void *proglib(const char *s) {
  for (int i = 0; i < nsym; i++)
    if (!strcmp(SYM[i].n, s))
      return SYM[i].p;
  return dlsym(progh, s);
}
static void pre_sym(const char *s) {
  void *p = dlsym(progh, s);
  if (p && nsym < 512) {
    SYM[nsym].n = strdup(s);
    SYM[nsym++].p = p;
  }
}
static void pre_all(void) {
  static const char *o[] = {"add", "sub", "mul", "div", "cmp", "fma"};
  static const char *x[] = {"_doubletofloatcast", "interflop_call", "vfc_enter_function", "vfc_exit_function",
    "vfc_init_probes", "vfc_probe", "vfc_probe_check", "vfc_probe_check_relative", "vfc_probe_f",
    "vfc_probe_check_f", "vfc_probe_check_relative_f", "vfc_dump_probes", "vfc_num_probes", "vfc_free_probes"};
  char b[64];
  nsym = 0;
  for (int i = 0; i < 6; i++)
    for (int d = 0; d < 2; d++) {
      snprintf(b, sizeof b, "_%s%s", d ? "double" : "float", o[i]);
      pre_sym(b);
      for (int n = 2; n <= 16 && i < 5; n *= 2) {
        snprintf(b, sizeof b, "_%dx%s%s", n, d ? "double" : "float", o[i]);
        pre_sym(b);
      }
    }
  for (int i = 0; i < (int)(sizeof x / sizeof *x); i++)
    pre_sym(x[i]);
}
static char libdir[512];

static u64 hx(const char *s) { return strtoull(s, NULL, 16); }
static double dv(const char *s) {
  union {
    u64 u;
    double d;
  } x = {.u = hx(s)};
  return x.d;
}
static float fv(const char *s) {
  union {
    u32 u;
    float f;
  } x = {.u = (u32)hx(s)};
  return x.f;
}
static u64 db(double d) {
  union {
    u64 u;
    double d;
  } x = {.d = d};
  return x.u;
}
static u64 fb(float f) {
  union {
    u32 u;
    float f;
  } x = {.f = f};
  return x.u;
}
#include "sites.inc"
static void emit(int opi, int n, const u64 *v) {
  u64 p = S->nres;
  if (p + n + 1 >= MAXRES || exit_me >= 0) /* not seen by anyone */
    return;
  S->res[p] = ((u64)(me + 1) << 48) | ((u64)opi << 16) | n;
  for (int i = 0; i < n; i++)
    S->res[p + 1 + i] = v[i];
  S->nres = p + n + 1;
}
static void emit1(int opi, u64 v) { emit(opi, 1, &v); }

#define VECOP(P, p, N, tov, tob)                                               \
  static void vec_##P##N(void *fn, int opi, char **av) {                       \
    P##N a, b, c;                                                              \
    u64 r[16];                                                                 \
    for (int i = 0; i < N; i++) {                                              \
      a[i] = tov(av[i]);                                                       \
      b[i] = tov(av[N + i]);                                                   \
    }                                                                          \
    c = ((P##N(*)(P##N, P##N))fn)(a, b);                                       \
    for (int i = 0; i < N; i++)                                                \
      r[i] = tob(c[i]);                                                        \
    emit(opi, N, r);                                                           \
  }                                                                            \
  static void vcmp_##P##N(void *fn, int opi, char **av) {                      \
    P##N a, b;                                                                 \
    int##N c;                                                                  \
    u64 r[16];                                                                 \
    for (int i = 0; i < N; i++) {                                              \
      a[i] = tov(av[1 + i]);                                                   \
      b[i] = tov(av[1 + N + i]);                                               \
    }                                                                          \
    c = ((int##N(*)(int, P##N, P##N))fn)(atoi(av[0]), a, b);                   \
    for (int i = 0; i < N; i++)                                                \
      r[i] = (u64)(int64_t)c[i];                                               \
    emit(opi, N, r);                                                           \
  }
VECOP(float, f, 2, fv, fb)
VECOP(float, f, 4, fv, fb)
VECOP(float, f, 8, fv, fb)
VECOP(float, f, 16, fv, fb)
VECOP(double, d, 2, dv, db)
VECOP(double, d, 4, dv, db)
VECOP(double, d, 8, dv, db)
VECOP(double, d, 16, dv, db)

static void bad(const char *why, const char *what) {
  dprintf(2, "SIM-ERROR %s %s\n", why, what);
  _exit(95);
}
static void *need(const char *s) {
  void *p = proglib(s);
  if (!p)
    bad("no symbol", s);
  return p;
}
static int dl_lock, dl_owner;
static void sched_block(u32 pc);
/* symbol lookups of the code under test take the loader's lock too */
void *dlsym(void *restrict h, const char *restrict s) {
  static void *(*real)(void *, const char *);
  if (!real) {
    real = (void *(*)(void *, const char *))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
    if (!real)
      real = (void *(*)(void *, const char *))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
  }
  while (sched_on && me >= 0 && !nopre && dl_lock && dl_owner != me)
    sched_block(3);
  return real(h, s);
}
static void *libsym(const char *lib, const char *sym) {
  char path[1024];
  while (dl_lock)
    sched_block(3);
  snprintf(path, sizeof path, "%s/%s", libdir, lib);
  void *h = dlopen(path, RTLD_NOW | RTLD_NOLOAD);
  if (!h)
    bad("not loaded", lib);
  void *p = dlsym(h, sym);
  if (!p)
    bad("no symbol", sym);
  return p;
}

struct vfc_probes_ {
  void *map;
};
static struct vfc_probes_ PR[8];
/* arguments of instrumented functions, per thread and slot */
static double dargs[MAXT][64][64];

static void unesc(char *s) { /* %xx */
  char *o = s;
  for (; *s; s++)
    if (*s == '%' && s[1] && s[2]) {
      char h[3] = {s[1], s[2], 0};
      *o++ = (char)strtol(h, 0, 16);
      s += 2;
    } else
      *o++ = *s;
  *o = 0;
}

typedef double (*d2)(double, double);
typedef float (*f2)(float, float);
extern char **environ;

static char *keep_names[8192];
static int nkeep;
static char *intern(const char *s) {
  for (int i = 0; i < nkeep; i++)
    if (!strcmp(keep_names[i], s))
      return keep_names[i];
  return keep_names[nkeep++] = strdup(s);
}

static void do_func(int enter, int opi, int argc, char **av) {
  /* name lib intr usef used nargs (type id size slot v...)*  */
  char *name = av[0];
  int lib = atoi(av[1]), intr = atoi(av[2]), uf = atoi(av[3]), ud = atoi(av[4]),
      n = atoi(av[5]);
  int ty[8], sz[8], null[8];
  char *id[8];
  double *v[8];
  int p = 6;
  for (int i = 0; i < n && i < 8; i++) {
    ty[i] = atoi(av[p++]);
    id[i] = intern(av[p++]);
    sz[i] = atoi(av[p++]);
    null[i] = sz[i] < 0;
    v[i] = dargs[me][i];
    int m = sz[i] > 0 ? sz[i] : (sz[i] < 0 ? 0 : 1);
    if (ty[i] == 0 || ty[i] == 1)
      m = 1;
    for (int j = 0; j < m; j++) {
      if (ty[i] == 1 || ty[i] == 4)
        v[i][j] = dv(av[p++]);
      else
        ((float *)v[i])[j] = fv(av[p++]);
    }
  }
  void (*f)(char *, char, char, char, char, int, ...) =
      need(enter ? "vfc_enter_function" : "vfc_exit_function");
#define A(i) ty[i], id[i], (unsigned)(null[i] ? 4 : sz[i]), (void *)(null[i] ? NULL : v[i])
  name = intern(name);
  switch (n) {
  case 0:
    f(name, lib, intr, uf, ud, 0);
    break;
  case 1:
    f(name, lib, intr, uf, ud, 1, A(0));
    break;
  case 2:
    f(name, lib, intr, uf, ud, 2, A(0), A(1));
    break;
  case 3:
    f(name, lib, intr, uf, ud, 3, A(0), A(1), A(2));
    break;
  case 4:
    f(name, lib, intr, uf, ud, 4, A(0), A(1), A(2), A(3));
    break;
  case 5:
    f(name, lib, intr, uf, ud, 5, A(0), A(1), A(2), A(3), A(4));
    break;
  case 6:
    f(name, lib, intr, uf, ud, 6, A(0), A(1), A(2), A(3), A(4), A(5));
    break;
  case 7:
    f(name, lib, intr, uf, ud, 7, A(0), A(1), A(2), A(3), A(4), A(5), A(6));
    break;
  case 8:
    f(name, lib, intr, uf, ud, 8, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7));
    break;
  default:
    bad("func args", name);
  }
  u64 out[256];
  int no = 0;
  for (int i = 0; i < n; i++) {
    int m = sz[i] > 0 ? sz[i] : (sz[i] < 0 ? 0 : 1);
    if (ty[i] == 0 || ty[i] == 1)
      m = 1;
    for (int j = 0; j < m; j++)
      out[no++] = (ty[i] == 1 || ty[i] == 4) ? db(v[i][j])
                                             : fb(((float *)v[i])[j]);
  }
  emit(opi, no, out);
}

static void do_op(int opi, struct op *o) {
  char *n = o->name;
  char **av = o->argv;
  char s[64];
  sched_point(K_OP, 1);
  if ((n[0] == 'd' || n[0] == 'f') && strlen(n) == 4 && strcmp(n, "fork")) {
    /* dadd .. ddiv, fadd .., dfma, dcmp */
    snprintf(s, sizeof s, "_%s%s", n[0] == 'd' ? "double" : "float", n + 1);
    void *fn = need(s);
    if (!strcmp(n + 1, "fma")) {
      if (n[0] == 'd')
        emit1(opi, db(((double (*)(double, double, double))fn)(
                       dv(av[0]), dv(av[1]), dv(av[2]))));
      else
        emit1(opi, fb(((float (*)(float, float, float))fn)(fv(av[0]), fv(av[1]),
                                                          fv(av[2]))));
    } else if (!strcmp(n + 1, "cmp")) {
      int r;
      if (n[0] == 'd')
        r = ((int (*)(int, double, double))fn)(atoi(av[0]), dv(av[1]),
                                               dv(av[2]));
      else
        r = ((int (*)(int, float, float))fn)(atoi(av[0]), fv(av[1]), fv(av[2]));
      emit1(opi, (u64)(int64_t)r);
    } else if (n[0] == 'd')
      emit1(opi, db(((d2)fn)(dv(av[0]), dv(av[1]))));
    else
      emit1(opi, fb(((f2)fn)(fv(av[0]), fv(av[1]))));
    return;
  }
  if (n[0] == 'v') { /* v4dadd */
    int N = atoi(n + 1);
    char *q = n + 1;
    while (*q >= '0' && *q <= '9')
      q++;
    snprintf(s, sizeof s, "_%dx%s%s", N, *q == 'd' ? "double" : "float", q + 1);
    void *fn = need(s);
    int cmp = !strcmp(q + 1, "cmp");
#define V(P, c, M)                                                             \
  if (*q == c && N == M) {                                                     \
    if (cmp)                                                                   \
      vcmp_##P##M(fn, opi, av);                                                \
    else                                                                       \
      vec_##P##M(fn, opi, av);                                                 \
    return;                                                                    \
  }
    V(float, 'f', 2) V(float, 'f', 4) V(float, 'f', 8) V(float, 'f', 16)
    V(double, 'd', 2) V(double, 'd', 4) V(double, 'd', 8) V(double, 'd', 16)
    bad("vector", n);
  }
  if (!strcmp(n, "bulk")) { /* bulk N dmul a b [c]: a long history, no switches */
    u64 N = strtoull(av[0], NULL, 10);
    char *q = av[1];
    int fma = !strcmp(q + 1, "fma");
    snprintf(s, sizeof s, "_%s%s", *q == 'd' ? "double" : "float", q + 1);
    void *fn = need(s);
    alarm(20 + (unsigned)(N >> 22));
    int sv = nopre;
    nopre = 1;
    if (*q == 'd') {
      double a = dv(av[2]), b = dv(av[3]), c = fma ? dv(av[4]) : 0, r = 0;
      if (fma)
        for (u64 i = 0; i < N; i++)
          r = ((double (*)(double, double, double))fn)(a, b, c);
      else
        for (u64 i = 0; i < N; i++)
          r = ((d2)fn)(a, b);
      nopre = sv;
      emit1(opi, db(r));
    } else {
      float a = fv(av[2]), b = fv(av[3]), c = fma ? fv(av[4]) : 0, r = 0;
      if (fma)
        for (u64 i = 0; i < N; i++)
          r = ((float (*)(float, float, float))fn)(a, b, c);
      else
        for (u64 i = 0; i < N; i++)
          r = ((f2)fn)(a, b);
      nopre = sv;
      emit1(opi, fb(r));
    }
    return;
  }
  if (!strcmp(n, "cast")) {
    emit1(opi, fb(((float (*)(double))need("_doubletofloatcast"))(dv(av[0]))));
    return;
  }
  if (!strcmp(n, "site")) {
    int k = atoi(av[0]);
    int kind = k & 7;
    if (k >= NSITES) {
      u64 r[16];
      int m = xs_fn[k - NSITES](av + 1, r);
      emit(opi, m, r);
      return;
    }
    if (kind < 4)
      emit1(opi, db(call_site_d(k, dv(av[1]), dv(av[2]))));
    else
      emit1(opi, fb(call_site_f(k, fv(av[1]), fv(av[2]))));
    return;
  }
  void (*ucall)(int, ...) = NULL;
  if (!strncmp(n, "u", 1))
    ucall = need("interflop_call");
  if (!strcmp(n, "uinexf")) {
    float x = fv(av[0]);
    ucall(1, 0, &x, atoi(av[1]));
    emit1(opi, fb(x));
  } else if (!strcmp(n, "uinexd")) {
    double x = dv(av[0]);
    ucall(1, 1, &x, atoi(av[1]));
    emit1(opi, db(x));
  } else if (!strcmp(n, "usp32")) {
    ucall(2, atoi(av[0]));
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "usp64")) {
    ucall(3, atoi(av[0]));
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "usr32")) {
    ucall(4, atoi(av[0]));
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "usr64")) {
    ucall(5, atoi(av[0]));
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "ucust")) { /* id i d s: custom arguments */
    ucall(atoi(av[0]), atoi(av[1]), dv(av[2]), intern(av[3]));
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "pushseed")) {
    snprintf(s, sizeof s, "%s_push_seed", av[1]);
    ((void (*)(u64))libsym(av[0], s))(hx(av[2]));
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "popseed")) {
    snprintf(s, sizeof s, "%s_pop_seed", av[1]);
    ((void (*)(void))libsym(av[0], s))();
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "enter")) {
    do_func(1, opi, o->argc, av);
  } else if (!strcmp(n, "exitf")) {
    do_func(0, opi, o->argc, av);
  } else if (!strcmp(n, "pinit")) {
    int k = atoi(av[0]);
    PR[k] = ((struct vfc_probes_(*)(void))need("vfc_init_probes"))();
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "probe")) { /* slot kind test var val thr */
    int k = atoi(av[0]);
    int kind = atoi(av[1]), r;
    double v = dv(av[4]), th = dv(av[5]);
    char *tn = strdup(av[2]), *vn = strdup(av[3]);
    unesc(tn);
    unesc(vn);
    switch (kind) {
    case 0:
      r = ((int (*)(void *, char *, char *, double))need("vfc_probe"))(
          &PR[k], tn, vn, v);
      break;
    case 1:
      r = ((int (*)(void *, char *, char *, double, double))need(
          "vfc_probe_check"))(&PR[k], tn, vn, v, th);
      break;
    case 2:
      r = ((int (*)(void *, char *, char *, double, double))need(
          "vfc_probe_check_relative"))(&PR[k], tn, vn, v, th);
      break;
    case 3:
      r = ((int (*)(void *, char *, char *, double *))need("vfc_probe_f"))(
          &PR[k], tn, vn, &v);
      break;
    case 4:
      r = ((int (*)(void *, char *, char *, double *, double *))need(
          "vfc_probe_check_f"))(&PR[k], tn, vn, &v, &th);
      break;
    default:
      r = ((int (*)(void *, char *, char *, double *, double *))need(
          "vfc_probe_check_relative_f"))(&PR[k], tn, vn, &v, &th);
      break;
    }
    memset(tn, 'Z', strlen(tn)); /* the caller's buffers are reused */
    memset(vn, 'Z', strlen(vn));
    free(tn);
    free(vn);
    emit1(opi, (u64)r);
  } else if (!strcmp(n, "pdump")) {
    int r = ((int (*)(void *))need("vfc_dump_probes"))(
        av[0][0] == 'N' ? NULL : &PR[atoi(av[0])]);
    emit1(opi, (u64)r);
  } else if (!strcmp(n, "pnum")) {
    emit1(opi, ((unsigned (*)(void *))need("vfc_num_probes"))(&PR[atoi(av[0])]));
  } else if (!strcmp(n, "pfree")) {
    ((void (*)(void *))need("vfc_free_probes"))(&PR[atoi(av[0])]);
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "setenv")) {
    char *v = strdup(av[1]);
    unesc(v);
    setenv(av[0], v, 1);
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "tick")) {
    clk_us += atoll(av[0]);
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "join")) { /* begin after another thread has ended */
    while (tstate[atoi(av[0])] != 2)
      sched_block(2);
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "kid")) { /* the program has another child process */
    struct kid *k = kid_new(20000 + 1000 + nK, 0);
    k->status = atoi(av[0]);
    k->outfd = -1;
    k->done = atoi(av[1]);
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "dlopen")) {
    while (dl_lock)
      sched_block(2);
    dl_lock = 1;
    dl_owner = me;
    char path[1024];
    snprintf(path, sizeof path, "%s/%s", libdir, av[0]);
    void *h = dlopen(path, RTLD_NOW | (atoi(av[1]) ? RTLD_GLOBAL : 0));
    dl_lock = 0;
    emit1(opi, h != NULL);
    if (!h)
      dprintf(2, "SIM-DLOPEN %s\n", dlerror());
  } else if (!strcmp(n, "dlclose")) {
    while (dl_lock)
      sched_block(2);
    dl_lock = 1;
    dl_owner = me;
    char path[1024];
    snprintf(path, sizeof path, "%s/%s", libdir, av[0]);
    void *h = dlopen(path, RTLD_NOW | RTLD_NOLOAD);
    if (h) {
      dlclose(h);
      dlclose(h);
    }
    dl_lock = 0;
    emit1(opi, h != NULL);
  } else if (!strcmp(n, "libop")) { /* library double op through its own code */
    snprintf(s, sizeof s, "%s", av[1]);
    d2 fn = libsym(av[0], s);
    emit1(opi, db(fn(dv(av[2]), dv(av[3]))));
  } else if (!strcmp(n, "environ")) {
    FILE *f = REAL(fopen)(av[0], "w");
    for (char **e = environ; *e; e++) {
      fwrite(*e, 1, strlen(*e) + 1, f);
    }
    fclose(f);
    emit(opi, 0, NULL);
  } else if (!strcmp(n, "exit")) {
    S->ops_done++;
    exit(atoi(av[0]));
  } else if (!strcmp(n, "nop")) {
    emit(opi, 0, NULL);
  } else
    bad("unknown op", n);
}

static void *thread_main(void *arg) {
  me = (int)(long)arg;
  sem_wait_(&tsem[me]);
  for (int i = 0; i < T[me].nops; i++) {
    do_op(i, &T[me].ops[i]);
    S->ops_done++;
  }
  /* finished: pass the baton on */
  tstate[me] = 2;
  S->steps++;
  int to = choose_forced(me);
  if (to >= 0) {
    note_switch(to, 0xfff);
    cur = to;
    run_len = 0;
    sem_post_(&tsem[to]);
  } else
    sem_post_(&tsem[main_sem_idx]);
  return NULL;
}

static void on_exit_mark(void) {
  S->exiting = 1;
  if (exit_me < 0)
    sched_on = 0;
}

/* when the code under test calls exit in a scheduled thread the others stop */
void exit(int st) {
  static void (*real)(int) __attribute__((noreturn));
  while (sched_on && exit_me >= 0 && exit_me != me)
    sched_block(3); /* only one thread exits the process */
  while (sched_on && dl_lock && dl_owner != me)
    sched_block(2); /* exit takes the loader lock */
  if (!real)
    real = dlsym(RTLD_NEXT, "exit");
  if (sched_on && me >= 0)
    exit_me = me;
  else
    sched_on = 0;
  S ? (S->exiting = 1) : 0;
  real(st);
}

/* ------------------------------------------------------------------ */
static char prog[64], cwd_[512];
static char *envs[256];
static int nenv;
static int first_thread;

static void add_op(int t, char *line) {
  char *sv;
  char *tok = strtok_r(line, " ", &sv);
  if (!tok)
    return;
  struct thr *h = &T[t];
  if (h->nops == h->cap) {
    h->cap = h->cap ? 2 * h->cap : 64;
    h->ops = realloc(h->ops, h->cap * sizeof *h->ops);
  }
  struct op *o = &h->ops[h->nops++];
  o->name = strdup(tok);
  o->argv = calloc(300, sizeof(char *));
  o->argc = 0;
  while ((tok = strtok_r(NULL, " ", &sv)) && o->argc < 299)
    o->argv[o->argc++] = strdup(tok);
}

static void run_child(void) {
  if (chdir(cwd_))
    bad("chdir", cwd_);
  int fd = REAL(open)("_out", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 1);
  close(fd);
  fd = REAL(open)("_err", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 2);
  close(fd);
  fd = REAL(open)("/dev/null", O_RDONLY);
  dup2(fd, 0);
  close(fd);
  clearenv();
  for (int i = 0; i < nenv; i++)
    putenv(envs[i]);
  want_malloc = has_kind(C_MALLOC);
  alarm(20);
  mallopt(M_PERTURB, 0x5b); /* new and freed memory hold junk */
  in_child = 1;
  char path[1024];
  snprintf(path, sizeof path, "%s/%s", libdir, prog);
  progh = dlopen(path, RTLD_NOW | RTLD_GLOBAL);
  if (!progh) {
    dprintf(2, "SIM-ERROR dlopen %s\n", dlerror());
    _exit(95);
  }
  static const char *dn[8] = {"_doubleadd", "_doublesub", "_doublemul",
                              "_doublediv", "_floatadd",  "_floatsub",
                              "_floatmul",  "_floatdiv"};
  for (int i = 0; i < 8; i++)
    dd_slot[i] = dlsym(progh, dn[i]);
  for (int i = 0; i < NXKINDS; i++)
    xs_slot[i] = dlsym(progh, xs_name[i]);
  pre_all();
  S->threads_started = 1;
  if (nthr == 1 && first_thread) {
    /* run on the main thread */
    me = 0;
    tstate[0] = 1;
    sched_on = 1;
    cur = 0;
    for (int i = 0; i < T[0].nops; i++) {
      do_op(i, &T[0].ops[i]);
      S->ops_done++;
    }
    sched_on = 0;
    exit(0);
  }
  pthread_t th[MAXT];
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 256 * 1024);
  for (int i = 0; i < nthr; i++)
    tstate[i] = 1;
  for (int i = 0; i < nthr; i++)
    if (pthread_create(&th[i], &at, thread_main, (void *)(long)i))
      bad("pthread_create", "");
  sched_on = 1;
  countdown = geom(sched_p ? sched_p : 1);
  int first = choose_forced(-1);
  note_switch(first, 0);
  cur = first;
  sem_post_(&tsem[first]);
  sem_wait_(&tsem[main_sem_idx]);
  sched_on = 0;
  for (int i = 0; i < nthr; i++)
    pthread_join(th[i], NULL);
  exit(0);
}

static void reset(void) {
  for (int i = 0; i < MAXT; i++) {
    for (int j = 0; j < T[i].nops; j++) {
      struct op *o = &T[i].ops[j];
      free(o->name);
      for (int k = 0; k < o->argc; k++)
        free(o->argv[k]);
      free(o->argv);
    }
    free(T[i].ops);
    memset(&T[i], 0, sizeof T[i]);
    T[i].tid = 5000 + i;
  }
  for (int i = 0; i < nenv; i++)
    free(envs[i]);
  nenv = 0;
  nthr = 0;
  nF = 0;
  nrsw = rswi = 0;
  mode = M_SERIAL;
  sched_p = 1;
  sched_len = 0;
  nchg = 0;
  clk_mode = 1;
  clk_us = 1700000000ll * 1000000;
  clk_step = 1;
  clk_rng = 1;
  kid_rng = 7;
  nK = 0;
  first_thread = 0;
  max_run = 20000;
  max_steps = 4000000;
  bufsz = 0;
  exit_run = 0;
  ent_rng = 99;
}

static void serve_one(void) {
  fflush(NULL);
  memset(S, 0, offsetof(struct shm, sw));
  S->hash = S->swhash = 0xcbf29ce484222325ull;
  pid_t p = REAL(fork)();
  if (p == 0)
    run_child();
  int st = 0;
  REAL(waitpid)(p, &st, 0);
  const char *kind = WIFEXITED(st) ? "exit" : "signal";
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
  printf("R %s %d %llu %llx %llx %u %u %u %u %u %u %u %u %u %u %u %u %u\n",
         kind, code, (unsigned long long)S->steps, (unsigned long long)S->hash,
         (unsigned long long)S->swhash, S->threads_started, S->ops_done,
         S->livelock, S->exiting, S->mallocs, S->opens, S->forks, S->waits,
         S->clocks, S->writes, S->reads, S->closes, S->lost);
  printf("W");
  for (u32 i = 0; i < S->nsw; i++)
    printf(" %llu:%d", (unsigned long long)S->sw[i].step, S->sw[i].to);
  printf("\nF");
  for (u32 i = 0; i < S->nfired; i++)
    printf(" %s:%u", S->fired[i].kind, S->fired[i].n);
  printf("\nV");
  for (u64 i = 0; i < S->nres;) {
    u64 h = S->res[i];
    int n = h & 0xffff;
    printf(" %d,%d", (int)(h >> 48) - 1, (int)((h >> 16) & 0xffffffff));
    for (int k = 0; k < n; k++)
      printf(",%llx", (unsigned long long)S->res[i + 1 + k]);
    i += n + 1;
  }
  printf("\nE");
  for (u32 i = 0; i < S->nrec; i++) {
    struct rec *r = &S->rec[i];
    printf(" %d,%d,%d", r->thread, r->backend, r->ev);
    for (int k = 0; k < 5; k++)
      printf(",%llx", (unsigned long long)r->a[k]);
  }
  printf("\n.\n");
  fflush(stdout);
}

int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--sites")) {
    for (int i = 0; i < NSITES; i++)
      printf("%d %lx\n", i, (long)site_ret[i]);
    static char *z[64];
    u64 r[16];
    for (int i = 0; i < 64; i++)
      z[i] = "0";
    for (int i = 0; i < NXKINDS; i++)
      xs_slot[i] = xs_probe[i];
    for (int i = 0; i < NXSITES; i++) {
      xs_fn[i](z, r);
      printf("%d %lx\n", NSITES + i, (long)xs_ret);
    }
    return 0;
  }
  if (argc < 3)
    return 2;
  snprintf(libdir, sizeof libdir, "%s", argv[1]);
  snprintf(cutdir, sizeof cutdir, "%s", argv[1]);
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  real_open();
  real_fopen();
  real_fork();
  real_wait();
  real_waitpid();
  real_pthread_mutex_lock();
  real_close();
  real_write();
  real_pthread_mutex_trylock();
  real_pthread_mutex_unlock();
  real_pthread_rwlock_tryrdlock();
  real_pthread_rwlock_trywrlock();
  real_gettimeofday();
  real_clock_gettime();
  real_vfprintf();
  dup2(-1, -1);
  getpid();
  {
    char b[8];
    FILE *f = REAL(fopen)("/dev/null", "w");
    fprintf(f, "x");
    fclose(f);
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  reset();
  while ((n = getline(&line, &cap, stdin)) > 0) {
    if (line[n - 1] == '\n')
      line[--n] = 0;
    char *sp = strchr(line, ' ');
    char *rest = sp ? sp + 1 : line + n;
    size_t kl = sp ? (size_t)(sp - line) : (size_t)n;
#define IS(k) (kl == strlen(k) && !strncmp(line, k, kl))
    if (IS("run")) {
      serve_one();
      reset();
    } else if (IS("cwd"))
      snprintf(cwd_, sizeof cwd_, "%s", rest);
    else if (IS("prog"))
      snprintf(prog, sizeof prog, "%s", rest);
    else if (IS("env"))
      envs[nenv++] = strdup(rest);
    else if (IS("threads"))
      nthr = atoi(rest);
    else if (IS("main"))
      first_thread = 1;
    else if (IS("maxrun"))
      max_run = strtoull(rest, 0, 10);
    else if (IS("maxsteps"))
      max_steps = strtoull(rest, 0, 10);
    else if (IS("exitrun"))
      exit_run = 1;
    else if (IS("bufsz"))
      bufsz = atoi(rest);
    else if (IS("tid")) {
      int i, v;
      sscanf(rest, "%d %d", &i, &v);
      T[i].tid = v;
    } else if (IS("clock")) {
      long long us, step;
      unsigned long long seed;
      sscanf(rest, "%d %lld %lld %llu", &clk_mode, &us, &step, &seed);
      clk_us = us;
      clk_step = step;
      clk_rng = seed;
    } else if (IS("kids")) {
      kid_rng = strtoull(rest, 0, 10);
    } else if (IS("sched")) {
      /* sched MODE SEED P LEN */
      char m[16];
      unsigned long long seed, len;
      unsigned p;
      sscanf(rest, "%15s %llu %u %llu", m, &seed, &p, &len);
      sched_rng = seed;
      sched_p = p ? p : 1;
      sched_len = len;
      mode = !strcmp(m, "replay")   ? M_REPLAY
             : !strcmp(m, "random") ? M_RANDOM
             : !strcmp(m, "pct")    ? M_PCT
             : !strcmp(m, "op")     ? M_OP
             : !strcmp(m, "first")  ? M_FIRST
                                    : M_SERIAL;
      if (mode == M_PCT) {
        for (int i = 0; i < MAXT; i++)
          prio[i] = (int)(rng_next(&sched_rng) % 100000) + 1;
        nchg = p > 63 ? 63 : p;
        for (int i = 0; i < nchg; i++)
          chg[i] = 1 + rng_next(&sched_rng) % (len ? len : 1000);
      }
    } else if (IS("sw")) {
      char *t, *sv;
      for (t = strtok_r(rest, " ", &sv); t; t = strtok_r(NULL, " ", &sv)) {
        if (nrsw == caprsw) {
          caprsw = caprsw ? 2 * caprsw : 256;
          rsw_step = realloc(rsw_step, caprsw * sizeof *rsw_step);
          rsw_to = realloc(rsw_to, caprsw * sizeof *rsw_to);
        }
        rsw_step[nrsw] = strtoull(t, 0, 10);
        rsw_to[nrsw] = atoi(strchr(t, ':') + 1);
        nrsw++;
      }
    } else if (IS("fault")) {
      struct fault *f = &F[nF++];
      sscanf(rest, "%15s %u %ld", f->kind, &f->n, &f->arg);
    } else if (IS("op")) {
      int t = atoi(rest);
      char *q = strchr(rest, ' ');
      if (q)
        add_op(t, q + 1);
    } else if (n) {
      fprintf(stderr, "bad line: %s\n", line);
      return 2;
    }
  }
  return 0;
}
