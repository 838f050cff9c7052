// The simulated operating system.
//
// One source, two builds:
//   * simos.o   linked into the harness: the library under test runs inside the
//     harness process, its threads scheduled one at a time (SIM_INPROC).
//   * simos.so  linked into an instrumented build of the shipped command line
//     tool, and preloaded: the whole tool runs as one simulated process.
//
// It interposes the libc entry points through which Rust's std reaches the
// operating system, and it defines the SanitizerCoverage callbacks that the
// instrumented crates call at every basic block, load and store.
#define _GNU_SOURCE
#include "simos.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/utsname.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

#define EXPORT __attribute__((visibility("default")))
#define unlikely(x) __builtin_expect(!!(x), 0)

static World *W;
static int g_on;             // the simulation is running
static uint64_t g_total;     // scheduling points so far
static uint64_t g_next;      // the next point at which something happens
static uint32_t g_guard;     // the last basic block
static unsigned char g_seen[MAX_GUARD];

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
#define RAW(n, a, b, c, d, e, f) ret(raw((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f)))

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static uint64_t hash_bytes(const void *p, size_t n) {
  const unsigned char *b = p;
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
  return h;
}
static uint64_t split(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static __thread int my_task = -1;
static void gate_end(void);

static void ev(int op, int ino, int64_t a, int64_t r, uint32_t f) {
  uint64_t n = W->ev_n++;
  Ev e = {(uint16_t)op, (uint16_t)(my_task < 0 ? 99 : my_task), ino, a, r, f, 0};
  uint64_t h = mix(W->ev_hash, (uint64_t)op << 32 | e.task);
  h = mix(h, (uint64_t)ino); h = mix(h, (uint64_t)a); h = mix(h, (uint64_t)r);
  W->ev_hash = mix(h, f);
  if (n < MAX_EV) W->ev[n] = e;
}

#ifdef SIM_INPROC
static uint64_t cur_task_steps(void);
#endif

__attribute__((noreturn)) static void die(uint32_t st) {
  W->status = st;
  W->total_steps = g_total;
#ifdef SIM_INPROC
  if (my_task >= 0) W->task[my_task].steps = cur_task_steps();
#endif
  g_on = 0;
  gate_end();
  if (W->kill_real && st == ST_CRASHED) raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
  raw(SYS_exit_group, 100 + st, 0, 0, 0, 0, 0);
  __builtin_trap();
}

// ---------------------------------------------------------------- scheduling
enum { T_UNUSED, T_RUNNABLE, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
#define FAIR 400000

#ifdef SIM_INPROC
static uint64_t t_in[MAX_TASK];   // g_total when the task was switched in
static uint64_t run_in;           // g_total at the last switch (fairness)

static uint64_t cur_task_steps(void) {
  int c = (int)W->cur;
  return W->task[c].steps + (g_total - t_in[c]);
}
static int baton[MAX_TASK];
static uint64_t s_rng;
static uint64_t s_ev[64];         // planned preemptions, by total steps
static int s_nev, s_evi;
static uint64_t s_gap;            // next preemption, by total steps
static uint64_t s_burst0, s_burst1;
static uint32_t in_i[MAX_TASK];   // position in the replay list, by task
static pthread_key_t fin_key;
static int fin_key_ok;
static pthread_t thr[MAX_TASK];
static uint64_t data_lo, data_hi;

#define ARENA_BASE 0x600000000000ull
#define ARENA_SHIFT 32

static int others_runnable(void) {
  for (uint32_t i = 0; i < W->ntask; i++)
    if (i != W->cur && W->task[i].state == T_RUNNABLE) return 1;
  return 0;
}

static uint64_t replay_next(void) {
  // The next entry of the replay list for the current task.
  uint32_t c = W->cur;
  uint64_t now = cur_task_steps();
  while (in_i[c] < W->nsched_in) {
    Sw *s = &W->sched_in[in_i[c]];
    if (s->task == c && s->step > now) return g_total + (s->step - now);
    in_i[c]++;
  }
  return UINT64_MAX;
}

static void draw_gap(void) {
  uint64_t p = W->sched_p ? W->sched_p : 1;
  uint64_t r = split(&s_rng);
  // Roughly geometric: uniform in 1..2p, at times much shorter.
  uint64_t g = 1 + r % (2 * p);
  if ((r >> 60) == 0) g = 1 + (r >> 32) % 8;
  s_gap = g_total + g;
}

static void plan_next(void) {
  uint64_t n = W->budget;
  if (W->crash_step && W->crash_step < n) n = W->crash_step;
  if (W->sched_on && my_task >= 0) {
    uint64_t q = run_in + FAIR;
    if (q <= g_total) q = g_total + FAIR;
    if (q < n) n = q;
    uint64_t e = UINT64_MAX;
    switch (W->sched_mode) {
    case 0: e = replay_next(); break;
    case 1: e = s_gap; break;
    case 2: case 3: case 5:
      while (s_evi < s_nev && s_ev[s_evi] <= g_total) s_evi++;
      if (s_evi < s_nev) e = s_ev[s_evi];
      break;
    case 4:
      if (g_total < s_burst0) e = s_burst0;
      else if (g_total < s_burst1) e = g_total + 1 + split(&s_rng) % 3;
      break;
    }
    if (e <= g_total) e = g_total + 1;
    if (e < n) n = e;
  }
  g_next = n > g_total ? n : g_total + 1;
}

static void sched_init(void) {
  s_rng = W->sched_seed * 2654435761u + 99;
  s_nev = s_evi = 0; s_gap = UINT64_MAX; s_burst0 = s_burst1 = 0;
  memset(in_i, 0, sizeof in_i); memset(t_in, 0, sizeof t_in); memset(baton, 0, sizeof baton);
  uint64_t len = W->sched_len ? W->sched_len : 1000;
  switch (W->sched_mode) {
  case 1: draw_gap(); break;
  case 2: case 3: case 5: {
    int d = (int)(W->sched_p > 60 ? 60 : W->sched_p);
    for (int i = 0; i < d; i++) s_ev[i] = 1 + split(&s_rng) % len;
    for (int i = 1; i < d; i++)
      for (int j = i; j > 0 && s_ev[j - 1] > s_ev[j]; j--) { uint64_t t = s_ev[j]; s_ev[j] = s_ev[j - 1]; s_ev[j - 1] = t; }
    s_nev = d; break; }
  case 4: s_burst0 = 1 + split(&s_rng) % len; s_burst1 = s_burst0 + 20 + split(&s_rng) % (W->sched_p + 20); break;
  }
}

static void wait_baton(int me) {
  while (!__atomic_load_n(&baton[me], __ATOMIC_ACQUIRE))
    raw(SYS_futex, (long)&baton[me], FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  baton[me] = 0;
}

static void switch_to(int n, int wait) {
  int me = (int)W->cur;
  W->task[me].steps = cur_task_steps();
  W->nswitch++;
  W->sw_hash = mix(W->sw_hash, ((uint64_t)me << 48) ^ ((uint64_t)n << 40) ^ g_guard);
  W->ev_hash = mix(W->ev_hash, W->task[me].steps ^ ((uint64_t)me << 56) ^ ((uint64_t)n << 60));
  W->cur = (uint32_t)n;
  t_in[n] = g_total; run_in = g_total;
  __atomic_store_n(&baton[n], 1, __ATOMIC_RELEASE);
  // Planned before the other task may run.
  g_next = g_total + 1;
  raw(SYS_futex, (long)&baton[n], FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  if (wait) { wait_baton(me); plan_next(); }
}

static void record_sw(uint32_t task, uint64_t step, uint32_t next) {
  if (W->nsched_out < MAX_SCHED) W->sched_out[W->nsched_out++] = (Sw){task, next, step};
  else if (W->sched_mode) { W->sched_mode = 0; W->nsched_in = 0; }
}

static int pick_random(void) {
  int c[MAX_TASK], n = 0;
  for (uint32_t i = 0; i < W->ntask; i++)
    if (i != W->cur && W->task[i].state == T_RUNNABLE) c[n++] = (int)i;
  if (!n) return -1;
  return c[split(&s_rng) % (uint64_t)n];
}

static int pick_round(void) {
  for (uint32_t k = 1; k < W->ntask; k++) {
    uint32_t i = (W->cur + k) % W->ntask;
    if (W->task[i].state == T_RUNNABLE) return (int)i;
  }
  return -1;
}

static void preempt(void) {
  int n = pick_random();
  if (n < 0) return;
  record_sw(W->cur, cur_task_steps(), (uint32_t)n);
  switch_to(n, 1);
}

// Wakes sleepers whose time has come.
static void wake_sleepers(void) {
  for (uint32_t i = 0; i < W->ntask; i++) {
    TaskW *t = &W->task[i];
    if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->wake_ns && (int64_t)t->wake_ns <= W->clock_mono) {
      t->state = T_RUNNABLE; t->woken = 2; t->wake_ns = 0;
    }
  }
}

// The current task can't go on (blocked or done): somebody else must run.
static void forced(int wait) {
  g_total++;
  uint64_t step = cur_task_steps();
  uint32_t me = W->cur;
  for (;;) {
    wake_sleepers();
    if (wait && W->task[me].state == T_RUNNABLE) { plan_next(); return; }
    int n = -1;
    if (W->sched_mode == 0) {
      for (uint32_t i = 0; i < W->nsched_in; i++)
        if (W->sched_in[i].task == me && W->sched_in[i].step == step) {
          uint32_t x = W->sched_in[i].next;
          if (x < W->ntask && W->task[x].state == T_RUNNABLE) n = (int)x;
          break;
        }
      if (n < 0) for (uint32_t i = 0; i < W->ntask; i++) if (W->task[i].state == T_RUNNABLE) { n = (int)i; break; }
    } else n = pick_random();
    if (n >= 0) { record_sw(me, step, (uint32_t)n); switch_to(n, wait); return; }
    // Jump the clock to the next event.
    uint64_t best = 0;
    for (uint32_t i = 0; i < W->ntask; i++) {
      TaskW *t = &W->task[i];
      if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->wake_ns && (!best || t->wake_ns < best)) best = t->wake_ns;
    }
    if (!best) die(ST_DEADLOCK);
    if ((int64_t)best > W->clock_mono) { W->clock_real += (int64_t)best - W->clock_mono; W->clock_mono = (int64_t)best; }
  }
}

static void slow_point(void) {
  if (g_total >= W->budget) die(ST_HANG);
  if (W->crash_step && g_total >= W->crash_step) { W->fired[C_STEP][F_CRASH_BEFORE]++; die(ST_CRASHED); }
  if (W->sched_on && my_task >= 0 && W->ntask > 1) {
    int due = 0, fair = 0;
    if (g_total >= run_in + FAIR) fair = 1;
    switch (W->sched_mode) {
    case 0: {
      uint64_t now = cur_task_steps();
      uint32_t c = W->cur;
      while (in_i[c] < W->nsched_in && !(W->sched_in[in_i[c]].task == c && W->sched_in[in_i[c]].step >= now)) in_i[c]++;
      if (in_i[c] < W->nsched_in && W->sched_in[in_i[c]].step == now) {
        uint32_t n = W->sched_in[in_i[c]++].next;
        if (n < W->ntask && n != c && W->task[n].state == T_RUNNABLE) {
          record_sw(c, now, n); switch_to((int)n, 1); return;
        }
      }
      break; }
    case 1: if (g_total >= s_gap) { due = 1; draw_gap(); } break;
    case 2: case 3: case 5: if (s_evi < s_nev && g_total >= s_ev[s_evi]) { due = 1; s_evi++; } break;
    case 4: due = g_total >= s_burst0 && g_total < s_burst1; break;
    }
    if (due && others_runnable()) { preempt(); return; }
    if (fair) { run_in = g_total; int n = pick_round(); if (n >= 0) { switch_to(n, 1); return; } }
  }
  plan_next();
}

#define POINT() do { if (unlikely(++g_total >= g_next)) slow_point(); } while (0)

// A point that is interesting for the schedule: shared memory, futexes,
// drawing and log calls.
static void hot_point(uint32_t id) {
  W->ninteresting++;
  g_guard = id;
  g_total++;
  if (g_total >= g_next) { slow_point(); return; }
  if (W->sched_mode >= 3 && W->sched_mode <= 4 && W->sched_on && my_task >= 0 && W->ntask > 1
      && split(&s_rng) % 1000 < W->sched_p2 && others_runnable()) preempt();
}
#else
static void slow_point(void) {
  if (g_total >= W->budget) die(ST_HANG);
  if (W->crash_step && g_total >= W->crash_step) { W->fired[C_STEP][F_CRASH_BEFORE]++; die(ST_CRASHED); }
  g_next = W->budget;
  if (W->crash_step && W->crash_step < g_next) g_next = W->crash_step;
}
#define POINT() do { if (unlikely(++g_total >= g_next)) slow_point(); } while (0)
#define hot_point(id) POINT()
#endif

// ---------------------------------------------------------------- coverage
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t n;
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++n < MAX_GUARD ? n : MAX_GUARD - 1;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (unlikely(!g_on)) return;
  uint32_t id = *g;
  g_guard = id;
  if (unlikely(!g_seen[id])) { g_seen[id] = 1; W->nguards++; W->gmap[id >> 3] |= (unsigned char)(1u << (id & 7)); }
#ifdef SIM_INPROC
  if (unlikely(id == W->sched_guard) && W->sched_mode == 5 && W->sched_on && my_task >= 0 && W->ntask > 1) {
    g_total++;
    if (g_total >= g_next) { slow_point(); return; }
    if (split(&s_rng) % 1000 < W->sched_p2 && others_runnable()) preempt();
    return;
  }
#endif
  POINT();
}
#ifdef SIM_INPROC
static inline void mem_access(uint64_t p) {
  if (unlikely(!g_on)) return;
  if (p - data_lo < data_hi - data_lo) { hot_point(0x10000u | (uint32_t)((p - data_lo) >> 3 & 0xffff)); return; }
  if (p >> 40 == ARENA_BASE >> 40 && my_task >= 0 && ((p - ARENA_BASE) >> ARENA_SHIFT) != W->task[my_task].arena)
    hot_point(0x20000u);
}
#else
static inline void mem_access(uint64_t p) { (void)p; }
#endif
#define MEM(s) \
  EXPORT void __sanitizer_cov_load##s(void *p) { mem_access((uint64_t)p); } \
  EXPORT void __sanitizer_cov_store##s(void *p) { mem_access((uint64_t)p); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)

// ---------------------------------------------------------------- locking
// Only the preloaded build may have threads that are not scheduled.
#ifdef SIM_INPROC
#define LOCK()
#define UNLOCK()
#else
static int big_lock;
static void lock_it(void) { while (__atomic_exchange_n(&big_lock, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
#define LOCK() lock_it()
#define UNLOCK() __atomic_store_n(&big_lock, 0, __ATOMIC_RELEASE)
#endif

#ifdef SIM_INPROC
#define gate(cls)
static void gate_end(void) {}
#else
static void gate_end(void) {
  if (!W->gate_on) return;
  __atomic_store_n(&W->gate_state, 2, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&W->gate_state, FUTEX_WAKE, 1, 0, 0, 0);
}
static void gate(int cls) {
  if (!W->gate_on || !(cls <= C_UNLINK || cls == C_META) || !g_on) return;
  if (W->gate_left > 1) { W->gate_left--; return; }
  __atomic_store_n(&W->gate_state, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&W->gate_state, FUTEX_WAKE, 1, 0, 0, 0);
  while (__atomic_load_n(&W->gate_state, __ATOMIC_ACQUIRE) == 1) raw(SYS_futex, (long)&W->gate_state, FUTEX_WAIT, 1, 0, 0, 0);
}
#endif

// ---------------------------------------------------------------- faults
static Fault *fault_at(int cls) {
  gate(cls);
  uint64_t n = ++W->cnt[cls];
  for (uint32_t i = 0; i < W->nfault; i++) {
    Fault *f = &W->fault[i];
    if (f->cls == (uint32_t)cls && n >= f->nth && n - f->nth < f->repeat) {
      f->fired++;
      W->fired[cls][f->kind]++;
      return f;
    }
  }
  return NULL;
}
static uint32_t fcode(Fault *f) { return f ? f->kind + 1 : 0; }

// Handles the faults that make an operation fail. Returns 1 when it failed
// (errno is set), dies when it has to.
static int fails(int cls, Fault *f, int ino) {
  if (!f) return 0;
  switch (f->kind) {
  case F_ERR: ev(cls, ino, 0, -f->arg, fcode(f)); errno = (int)f->arg; return 1;
  case F_EINTR: ev(cls, ino, 0, -EINTR, fcode(f)); errno = EINTR; return 1;
  case F_CRASH_BEFORE: ev(cls, ino, 0, 0, fcode(f)); die(ST_CRASHED);
  case F_DELAY: W->clock_mono += f->arg; W->clock_real += f->arg; return 0;
  default: return 0;
  }
}
static void after(Fault *f) { if (f && f->kind == F_CRASH_AFTER) die(ST_CRASHED); }

// ---------------------------------------------------------------- disk
static int resolve(const char *p, char *o) {
  char tmp[2 * PATH_LEN + 8];
  size_t n = strlen(p);
  if (n == 0) return ENOENT;
  if (n >= PATH_LEN) return ENAMETOOLONG;
  if (p[0] == '/') memcpy(tmp, p, n + 1);
  else { size_t c = strlen(W->cwd); memcpy(tmp, W->cwd, c); tmp[c] = '/'; memcpy(tmp + c + 1, p, n + 1); }
  size_t k = 0;
  char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t l = (size_t)(e - s);
    if (l == 1 && s[0] == '.') { s = e; continue; }
    if (l == 2 && s[0] == '.' && s[1] == '.') { while (k > 0 && o[--k] != '/') {} s = e; continue; }
    if (k + l + 2 >= PATH_LEN) return ENAMETOOLONG;
    o[k++] = '/';
    memcpy(o + k, s, l); k += l;
    s = e;
  }
  if (k == 0) o[k++] = '/';
  o[k] = 0;
  return 0;
}
static int find(const char *p) {
  for (int i = 0; i < MAX_DIRENT; i++)
    if (W->dir[i].used && !strcmp(W->dir[i].path, p)) return i;
  return -1;
}
static int parent_ok(const char *p, int need_write) {
  char d[PATH_LEN];
  strcpy(d, p);
  char *s = strrchr(d, '/');
  if (s == d) return 0;
  *s = 0;
  int i = find(d);
  if (i < 0) {
    // ENOTDIR when some ancestor is a file.
    char *q;
    while ((q = strrchr(d, '/')) && q != d) { *q = 0; int j = find(d); if (j >= 0 && W->ino[W->dir[j].ino].kind == 1) return ENOTDIR; }
    return ENOENT;
  }
  Inode *n = &W->ino[W->dir[i].ino];
  if (n->kind != 2) return ENOTDIR;
  if (need_write && !(n->mode & 0200)) return EACCES;
  return 0;
}
static int new_inode(uint32_t kind, uint32_t mode) {
  for (int i = 1; i < MAX_INO; i++)
    if (!W->ino[i].used) {
      memset(&W->ino[i], 0, sizeof(Inode));
      W->ino[i].used = 1; W->ino[i].kind = kind; W->ino[i].mode = mode; W->ino[i].nlink = 1; W->ino[i].mtime = W->clock_real;
      return i;
    }
  return -1;
}
static int new_dirent(const char *p, int ino) {
  for (int i = 0; i < MAX_DIRENT; i++)
    if (!W->dir[i].used) { W->dir[i].used = 1; W->dir[i].ino = (uint32_t)ino; strcpy(W->dir[i].path, p); return i; }
  return -1;
}
static void set_len(Inode *n, uint64_t len) {
  W->disk_used = W->disk_used - n->len + len;
  n->len = len;
}
static void drop_inode(int i) {
  Inode *n = &W->ino[i];
  if (n->nlink == 0 && n->nopen == 0) { set_len(n, 0); n->used = 0; }
}
// Makes room for len bytes; returns 0 or an errno.
static int grow(Inode *n, uint64_t len) {
  if (len <= n->cap) return 0;
  uint64_t cap = n->cap ? n->cap : 1024;
  while (cap < len) cap *= 2;
  if (W->data_used + cap > DATA_SZ) { W->harness_err = 1; return ENOSPC; }
  memcpy(W->data + W->data_used, W->data + n->off, n->len);
  n->off = W->data_used; n->cap = cap; W->data_used += cap;
  return 0;
}

// The first change of the watched file: is the drawing in memory by then?
static int scan_memory(const unsigned char *nd, size_t n) {
  static char maps[1 << 16];
  long fd = raw(SYS_open, (long)"/proc/self/maps", O_RDONLY | O_CLOEXEC, 0, 0, 0, 0);
  if (fd < 0) return 2;
  size_t len = 0; long r;
  while (len < sizeof maps - 1 && (r = raw(SYS_read, fd, (long)(maps + len), (long)(sizeof maps - 1 - len), 0, 0, 0)) > 0) len += (size_t)r;
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
  maps[len] = 0;
  for (char *s = maps; *s;) {
    char *e = strchr(s, '\n');
    if (!e) break;
    *e = 0;
    char *q;
    uint64_t lo = strtoull(s, &q, 16);
    uint64_t hi = strtoull(q + 1, &q, 16);
    int rw = q[1] == 'r' && q[2] == 'w';
    if (rw && !strstr(q, "memfd") && !strstr(q, "zero") && !strstr(q, "simos") && !strstr(q, "[v")
        && hi - lo < (1ull << 31)) {
      // Stay clear of the world itself.
      if (!(lo < (uint64_t)W + sizeof(World) && (uint64_t)W < hi))
        if (memmem((void *)lo, hi - lo, nd, n)) return 1;
    }
    s = e + 1;
  }
  return 0;
}
static void note_path(const char *p) {
  for (uint32_t i = 0; i < W->nwpath; i++) if (!strcmp(W->wpath[i], p)) return;
  if (W->nwpath < MAX_WPATH) strcpy(W->wpath[W->nwpath++], p);
}
static void note_missing(const char *p) {
  for (uint32_t i = 0; i < W->nrpath; i++) if (!strcmp(W->rpath[i], p)) return;
  if (W->nrpath < MAX_WPATH) strcpy(W->rpath[W->nrpath++], p);
}
static void touch(const char *p, int op) {
  note_path(p);
  if (!W->watch_on || W->touched) return;
  if (strcmp(p, W->watch)) return;
  W->touched = 1; W->touch_op = (uint64_t)op; W->touch_step = g_total;
  W->touch_needle = W->needle_len ? (uint32_t)scan_memory(W->needle, W->needle_len) : 0;
}
static void touch_ino(int ino, int op) {
  if (!W->watch_on || W->touched) return;
  for (int i = 0; i < MAX_DIRENT; i++)
    if (W->dir[i].used && (int)W->dir[i].ino == ino) touch(W->dir[i].path, op);
}

static int vfd(int fd) { return fd >= FD_BASE && fd < FD_BASE + MAX_FD && W->fd[fd - FD_BASE].used; }
static int is_v(int fd) { return fd >= FD_BASE && fd < FD_BASE + MAX_FD; }

static int sim_open(const char *path, int fl, unsigned mode) {
  char p[PATH_LEN];
  int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
  int cls = wr ? C_OPEN_W : C_OPEN_R;
  hot_point(0x30000u + (uint32_t)cls);
  Fault *f = fault_at(cls);
  if (fails(cls, f, -1)) return -1;
  int er = resolve(path, p);
  if (er) goto bad;
  if (wr) note_path(p);
  int d = find(p);
  if (d < 0) {
    // The only special file that exists.
    if (!(fl & O_CREAT)) { note_missing(p); er = parent_ok(p, 0); if (!er) er = ENOENT; goto bad; }
    er = parent_ok(p, 1);
    if (er) goto bad;
    if (fl & O_DIRECTORY) { er = EINVAL; goto bad; }
    int i = new_inode(1, (mode & 0777) ? (mode & 0777 & ~022u) : 0644);
    if (i < 0) { er = ENOSPC; W->harness_err = 2; goto bad; }
    d = new_dirent(p, i);
    if (d < 0) { W->ino[i].used = 0; er = ENOSPC; W->harness_err = 2; goto bad; }
    touch(p, cls);
  } else {
    if ((fl & O_CREAT) && (fl & O_EXCL)) { er = EEXIST; goto bad; }
    Inode *n = &W->ino[W->dir[d].ino];
    if (n->kind == 2 && wr) { er = EISDIR; goto bad; }
    if (n->kind == 1 && (fl & O_DIRECTORY)) { er = ENOTDIR; goto bad; }
    if (((fl & O_ACCMODE) != O_RDONLY || (fl & O_TRUNC)) && !(n->mode & 0200)) { er = EACCES; goto bad; }
    if ((fl & O_ACCMODE) != O_WRONLY && !(n->mode & 0400)) { er = EACCES; goto bad; }
    if (fl & O_TRUNC) { if (n->len) touch(p, cls); set_len(n, 0); n->mtime = W->clock_real; }
  }
  int k;
  for (k = 0; k < MAX_FD; k++) if (!W->fd[k].used) break;
  if (k == MAX_FD) { er = EMFILE; goto bad; }
  W->fd[k] = (Fd){1, W->dir[d].ino, (uint32_t)fl, 0, 0};
  W->ino[W->dir[d].ino].nopen++;
  ev(cls, (int)W->dir[d].ino, fl, FD_BASE + k, fcode(f));
  after(f);
  return FD_BASE + k;
bad:
  ev(cls, -1, fl, -er, fcode(f));
  errno = er;
  return -1;
}

static ssize_t sim_out(int fd, const void *b, size_t n) {
  int cls = fd == 1 ? C_STDOUT : C_STDERR;
  hot_point(0x30000u + (uint32_t)cls);
  Fault *f = fault_at(cls);
  if (fails(cls, f, fd)) return -1;
  if (f && f->kind == F_SHORT && n > (size_t)f->arg && f->arg > 0) n = (size_t)f->arg;
  if (f && f->kind == F_ZERO) n = 0;
  uint64_t *len = fd == 1 ? &W->stdout_len : &W->stderr_len;
  uint64_t room = OUT_SZ - *len;
  memcpy(W->out[fd - 1] + *len, b, n < room ? n : room);
  *len += n < room ? n : room;
  *(fd == 1 ? &W->stdout_tot : &W->stderr_tot) += n;
  ev(cls, fd, (int64_t)hash_bytes(b, n), (int64_t)n, fcode(f));
  after(f);
  return (ssize_t)n;
}

static ssize_t write_at(int ino, uint64_t pos, const void *b, size_t n, int *er) {
  Inode *i = &W->ino[ino];
  uint64_t end = pos + n;
  if (end > i->len) {
    uint64_t more = end - i->len;
    uint64_t room = W->capacity > W->disk_used ? W->capacity - W->disk_used : 0;
    if (more > room) {
      W->fired[C_WRITE][F_FULL]++;
      end = i->len + room;
      if (end <= pos) { *er = ENOSPC; return -1; }
      n = end - pos;
    }
    if ((*er = grow(i, end))) return -1;
    if (pos > i->len) memset(W->data + i->off + i->len, 0, pos - i->len);
    set_len(i, end);
  }
  touch_ino(ino, C_WRITE);
  i->mtime = W->clock_real;
  memcpy(W->data + i->off + pos, b, n);
  return (ssize_t)n;
}

static ssize_t sim_write(int fd, const void *b, size_t n, int at, uint64_t apos) {
  if (fd == 1 || fd == 2) return sim_out(fd, b, n);
  if (!vfd(fd)) { errno = EBADF; return -1; }
  hot_point(0x30000u + C_WRITE);
  Fd *d = &W->fd[fd - FD_BASE];
  Fault *f = fault_at(C_WRITE);
  if (fails(C_WRITE, f, (int)d->ino)) return -1;
  if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  size_t want = n;
  if (f && (f->kind == F_SHORT || f->kind == F_CRASH_MID) && n > (size_t)f->arg) n = (size_t)f->arg;
  if (f && f->kind == F_ZERO) n = 0;
  if (n == 0 && want > 0 && f && f->kind == F_SHORT) n = 1;
  uint64_t pos = at ? apos : d->pos;
  if (!at && (d->flags & O_APPEND)) pos = W->ino[d->ino].len;
  int er = 0;
  ssize_t r = n ? write_at((int)d->ino, pos, b, n, &er) : 0;
  if (r > 0 && !at) d->pos = pos + (uint64_t)r;
  ev(C_WRITE, (int)d->ino, (int64_t)(r > 0 ? hash_bytes(b, (size_t)r) : 0), r < 0 ? -er : r, fcode(f));
  if (f && f->kind == F_CRASH_MID) die(ST_CRASHED);
  after(f);
  if (r < 0) errno = er;
  return r;
}

static ssize_t sim_read(int fd, void *b, size_t n, int at, uint64_t apos) {
  if (fd == 0) return 0;
  if (!vfd(fd)) { errno = EBADF; return -1; }
  hot_point(0x30000u + C_READ);
  Fd *d = &W->fd[fd - FD_BASE];
  Inode *i = &W->ino[d->ino];
  Fault *f = fault_at(C_READ);
  if (fails(C_READ, f, (int)d->ino)) return -1;
  if (i->kind == 2) { ev(C_READ, (int)d->ino, 0, -EISDIR, 0); errno = EISDIR; return -1; }
  if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  uint64_t pos = at ? apos : d->pos;
  size_t k = pos >= i->len ? 0 : i->len - pos < n ? (size_t)(i->len - pos) : n;
  if (f && f->kind == F_SHORT && k > (size_t)f->arg && f->arg > 0) k = (size_t)f->arg;
  memcpy(b, W->data + i->off + pos, k);
  if (!at) d->pos = pos + k;
  ev(C_READ, (int)d->ino, (int64_t)n, (int64_t)k, fcode(f));
  after(f);
  return (ssize_t)k;
}

static int sim_close(int fd) {
  if (fd >= 0 && fd <= 2) return 0;
  if (!vfd(fd)) { errno = EBADF; return -1; }
  Fd *d = &W->fd[fd - FD_BASE];
  hot_point(0x30000u + C_CLOSE);
  Fault *f = fault_at(C_CLOSE);
  // A failing close closes the file all the same.
  if (f && f->kind == F_CRASH_BEFORE) die(ST_CRASHED);
  int ino = (int)d->ino;
  d->used = 0;
  W->ino[ino].nopen--;
  drop_inode(ino);
  if (fails(C_CLOSE, f, ino)) return -1;
  ev(C_CLOSE, ino, 0, 0, fcode(f));
  after(f);
  return 0;
}

static void fill_stat(struct stat *s, int ino, Fault *f) {
  memset(s, 0, sizeof *s);
  Inode *i = &W->ino[ino];
  s->st_dev = 7; s->st_ino = (ino_t)ino + 100; s->st_nlink = i->nlink;
  s->st_mode = (i->kind == 2 ? S_IFDIR : S_IFREG) | i->mode;
  s->st_size = (off_t)i->len;
  if (f && f->kind == F_SIZE_LIE && i->kind == 1) { int64_t v = (int64_t)i->len + f->arg; s->st_size = v < 0 ? 0 : v; }
  s->st_blksize = 4096; s->st_blocks = (blkcnt_t)((i->len + 511) / 512);
  s->st_mtim.tv_sec = i->mtime / 1000000000; s->st_mtim.tv_nsec = i->mtime % 1000000000;
  s->st_ctim = s->st_atim = s->st_mtim;
}
static void fill_chr(struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = S_IFCHR | 0620; s->st_nlink = 1; s->st_blksize = 1024; }

static int sim_stat_fd(int fd, struct stat *s) {
  if (fd >= 0 && fd <= 2) { fill_chr(s); return 0; }
  if (!vfd(fd)) { errno = EBADF; return -1; }
  Fault *f = fault_at(C_STAT);
  if (fails(C_STAT, f, (int)W->fd[fd - FD_BASE].ino)) return -1;
  fill_stat(s, (int)W->fd[fd - FD_BASE].ino, f);
  ev(C_STAT, (int)W->fd[fd - FD_BASE].ino, 0, s->st_size, fcode(f));
  after(f);
  return 0;
}
static int sim_stat_path(const char *path, struct stat *s) {
  char p[PATH_LEN];
  Fault *f = fault_at(C_STAT);
  if (fails(C_STAT, f, -1)) return -1;
  int er = resolve(path, p);
  int d = er ? -1 : find(p);
  if (!er && d < 0) { note_missing(p); er = parent_ok(p, 0); if (!er) er = ENOENT; }
  if (er) { ev(C_STAT, -1, 1, -er, fcode(f)); errno = er; return -1; }
  fill_stat(s, (int)W->dir[d].ino, f);
  ev(C_STAT, (int)W->dir[d].ino, 1, s->st_size, fcode(f));
  after(f);
  return 0;
}
static void to_statx(const struct stat *s, struct statx *x) {
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = (uint32_t)s->st_blksize; x->stx_nlink = (uint32_t)s->st_nlink;
  x->stx_mode = (uint16_t)s->st_mode; x->stx_ino = s->st_ino; x->stx_size = (uint64_t)s->st_size;
  x->stx_blocks = (uint64_t)s->st_blocks;
  x->stx_mtime.tv_sec = x->stx_atime.tv_sec = x->stx_ctime.tv_sec = s->st_mtim.tv_sec;
  x->stx_mtime.tv_nsec = x->stx_atime.tv_nsec = x->stx_ctime.tv_nsec = (uint32_t)s->st_mtim.tv_nsec;
}

static int meta(int cls, Fault **f) {
  hot_point(0x30000u + (uint32_t)cls);
  *f = fault_at(cls);
  return fails(cls, *f, -1);
}
static int fail_meta(int cls, Fault *f, int er) { ev(cls, -1, 0, -er, fcode(f)); errno = er; return -1; }

static int sim_unlink(const char *path, int dir) {
  char p[PATH_LEN]; Fault *f;
  if (meta(C_UNLINK, &f)) return -1;
  int er = resolve(path, p);
  if (er) return fail_meta(C_UNLINK, f, er);
  int d = find(p);
  if (d < 0) return fail_meta(C_UNLINK, f, ENOENT);
  if ((er = parent_ok(p, 1))) return fail_meta(C_UNLINK, f, er);
  int i = (int)W->dir[d].ino;
  if (dir != (W->ino[i].kind == 2)) return fail_meta(C_UNLINK, f, dir ? ENOTDIR : EISDIR);
  if (dir) {
    size_t l = strlen(p);
    for (int k = 0; k < MAX_DIRENT; k++)
      if (W->dir[k].used && !strncmp(W->dir[k].path, p, l) && W->dir[k].path[l] == '/') return fail_meta(C_UNLINK, f, ENOTEMPTY);
  }
  touch(p, C_UNLINK);
  W->dir[d].used = 0;
  W->ino[i].nlink--;
  drop_inode(i);
  ev(C_UNLINK, i, dir, 0, fcode(f));
  after(f);
  return 0;
}
static int sim_rename(const char *a, const char *b, unsigned fl) {
  char p[PATH_LEN], q[PATH_LEN]; Fault *f;
  if (meta(C_RENAME, &f)) return -1;
  int er = resolve(a, p);
  if (!er) er = resolve(b, q);
  if (!er) { er = parent_ok(p, 1); }
  if (!er) { er = parent_ok(q, 1); }
  int d = er ? -1 : find(p), e = er ? -1 : find(q);
  if (!er && d < 0) er = ENOENT;
  if (!er && e >= 0 && (fl & 1)) er = EEXIST;
  if (!er && e >= 0 && W->ino[W->dir[e].ino].kind == 2) er = EISDIR;
  if (er) return fail_meta(C_RENAME, f, er);
  touch(q, C_RENAME); touch(p, C_RENAME);
  if (e >= 0 && W->dir[e].ino != W->dir[d].ino) {
    int i = (int)W->dir[e].ino;
    W->ino[i].nlink--;
    W->dir[e].ino = W->dir[d].ino;
    W->dir[d].used = 0;
    drop_inode(i);
  } else if (e < 0) strcpy(W->dir[d].path, q);
  ev(C_RENAME, (int)W->dir[d].ino, 0, 0, fcode(f));
  after(f);
  return 0;
}
static int sim_trunc(int ino, uint64_t len, Fault *f) {
  Inode *i = &W->ino[ino];
  int er = 0;
  touch_ino(ino, C_TRUNC);
  i->mtime = W->clock_real;
  if (len > i->len) {
    if ((er = grow(i, len))) return fail_meta(C_TRUNC, f, er);
    memset(W->data + i->off + i->len, 0, len - i->len);
  }
  set_len(i, len);
  ev(C_TRUNC, ino, (int64_t)len, 0, fcode(f));
  after(f);
  return 0;
}

// ---------------------------------------------------------------- interposed calls
#define SIM (g_on)

EXPORT int open64(const char *p, int fl, ...) {
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v);
  if (!SIM) return (int)RAW(SYS_openat, AT_FDCWD, p, fl, m, 0, 0);
  LOCK(); int r = sim_open(p, fl, (unsigned)m); UNLOCK(); return r;
}
EXPORT int open(const char *p, int fl, ...) {
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v);
  if (!SIM) return (int)RAW(SYS_openat, AT_FDCWD, p, fl, m, 0, 0);
  LOCK(); int r = sim_open(p, fl, (unsigned)m); UNLOCK(); return r;
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v);
  if (!SIM) return (int)RAW(SYS_openat, d, p, fl, m, 0, 0);
  LOCK(); int r = sim_open(p, fl, (unsigned)m); UNLOCK(); return r;
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v);
  if (!SIM) return (int)RAW(SYS_openat, d, p, fl, m, 0, 0);
  LOCK(); int r = sim_open(p, fl, (unsigned)m); UNLOCK(); return r;
}
EXPORT int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
EXPORT int creat(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!SIM) return RAW(SYS_read, fd, b, n, 0, 0, 0);
  LOCK(); ssize_t r = sim_read(fd, b, n, 0, 0); UNLOCK(); return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (!SIM) return RAW(SYS_write, fd, b, n, 0, 0, 0);
  LOCK(); ssize_t r = sim_write(fd, b, n, 0, 0); UNLOCK(); return r;
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (!SIM) return RAW(SYS_pread64, fd, b, n, o, 0, 0);
  LOCK(); ssize_t r = sim_read(fd, b, n, 1, (uint64_t)o); UNLOCK(); return r;
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (!SIM) return RAW(SYS_pwrite64, fd, b, n, o, 0, 0);
  LOCK(); ssize_t r = sim_write(fd, b, n, 1, (uint64_t)o); UNLOCK(); return r;
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!SIM) return RAW(SYS_writev, fd, v, n, 0, 0, 0);
  // One transfer, like the kernel's: joined, then written as one.
  static unsigned char buf[1 << 20];
  LOCK();
  size_t k = 0;
  for (int i = 0; i < n; i++) {
    size_t l = v[i].iov_len;
    if (k + l > sizeof buf) l = sizeof buf - k;
    memcpy(buf + k, v[i].iov_base, l); k += l;
  }
  ssize_t r = sim_write(fd, buf, k, 0, 0);
  UNLOCK();
  return r;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!SIM) return RAW(SYS_readv, fd, v, n, 0, 0, 0);
  LOCK();
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    if (r < 0) { if (!t) t = -1; break; }
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  UNLOCK();
  return t;
}
EXPORT int close(int fd) {
  if (!SIM) return (int)RAW(SYS_close, fd, 0, 0, 0, 0, 0);
  LOCK(); int r = sim_close(fd); UNLOCK(); return r;
}
EXPORT off_t lseek64(int fd, off_t o, int w) {
  if (!SIM) return RAW(SYS_lseek, fd, o, w, 0, 0, 0);
  if (!vfd(fd)) { errno = is_v(fd) ? EBADF : ESPIPE; return -1; }
  LOCK();
  Fault *f = fault_at(C_SEEK);
  if (fails(C_SEEK, f, (int)W->fd[fd - FD_BASE].ino)) { UNLOCK(); return -1; }
  Fd *d = &W->fd[fd - FD_BASE];
  int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)d->pos : (int64_t)W->ino[d->ino].len;
  if (base + o < 0) { errno = EINVAL; UNLOCK(); return -1; }
  d->pos = (uint64_t)(base + o);
  ev(C_SEEK, (int)d->ino, o, (int64_t)d->pos, fcode(f));
  UNLOCK();
  return (off_t)d->pos;
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
EXPORT int fstat64(int fd, struct stat64 *s) {
  if (!SIM) return (int)RAW(SYS_fstat, fd, s, 0, 0, 0, 0);
  LOCK(); int r = sim_stat_fd(fd, (struct stat *)s); UNLOCK(); return r;
}
EXPORT int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
EXPORT int stat64(const char *p, struct stat64 *s) {
  if (!SIM) return (int)RAW(SYS_stat, p, s, 0, 0, 0, 0);
  LOCK(); int r = sim_stat_path(p, (struct stat *)s); UNLOCK(); return r;
}
EXPORT int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) {
  if (!SIM) return (int)RAW(SYS_lstat, p, s, 0, 0, 0, 0);
  LOCK(); int r = sim_stat_path(p, (struct stat *)s); UNLOCK(); return r;
}
EXPORT int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) {
  if (!SIM) return (int)RAW(SYS_newfstatat, d, p, s, fl, 0, 0);
  LOCK(); int r = (p[0] == 0 && d >= 0) ? sim_stat_fd(d, (struct stat *)s) : sim_stat_path(p, (struct stat *)s); UNLOCK(); return r;
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) { return fstatat64(d, p, (struct stat64 *)s, fl); }
typedef struct { uint64_t magic; int n, at, no; char path[PATH_LEN]; struct dirent64 e[MAX_DIRENT]; } SimDir;
#define DIR_MAGIC 0x5349d172
#define DIR_FD 400
static SimDir *dirs[16];
// A name below an open directory.
static const char *below(int d, const char *p, char *o) {
  if (d < DIR_FD || d >= DIR_FD + 16 || !dirs[d - DIR_FD] || p[0] == '/') return p;
  if (strlen(dirs[d - DIR_FD]->path) + strlen(p) + 2 > PATH_LEN) return p;
  strcpy(o, dirs[d - DIR_FD]->path); strcat(o, "/"); strcat(o, p);
  return o;
}
static int do_statx(int d, const char *p, struct statx *x) {
  char q[PATH_LEN];
  struct stat s;
  if (!x || !p) { errno = EFAULT; return -1; }
  p = below(d, p, q);
  int r = (p[0] == 0 && d >= 0) ? sim_stat_fd(d, &s) : sim_stat_path(p, &s);
  if (!r) to_statx(&s, x);
  return r;
}
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict x) {
  if (!SIM) return (int)RAW(SYS_statx, d, p, fl, mask, x, 0);
  LOCK(); int r = do_statx(d, p, x); UNLOCK(); return r;
}
EXPORT int access(const char *p, int m) {
  if (!SIM) return (int)RAW(SYS_access, p, m, 0, 0, 0, 0);
  struct stat s; LOCK(); int r = sim_stat_path(p, &s); UNLOCK();
  if (!r && (((m & W_OK) && !(s.st_mode & 0200)) || ((m & R_OK) && !(s.st_mode & 0400)))) { errno = EACCES; return -1; }
  return r;
}
EXPORT int faccessat(int d, const char *p, int m, int fl) {
  if (!SIM) return (int)RAW(SYS_faccessat, d, p, m, fl, 0, 0);
  return access(p, m);
}
EXPORT int ftruncate64(int fd, off_t l) {
  if (!SIM) return (int)RAW(SYS_ftruncate, fd, l, 0, 0, 0, 0);
  Fault *f; LOCK();
  if (meta(C_TRUNC, &f)) { UNLOCK(); return -1; }
  if (!vfd(fd)) { UNLOCK(); errno = EBADF; return -1; }
  int r = sim_trunc((int)W->fd[fd - FD_BASE].ino, (uint64_t)l, f); UNLOCK(); return r;
}
EXPORT int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
EXPORT int truncate64(const char *path, off_t l) {
  if (!SIM) return (int)RAW(SYS_truncate, path, l, 0, 0, 0, 0);
  Fault *f; char p[PATH_LEN]; LOCK();
  int r = -1;
  if (!meta(C_TRUNC, &f)) {
    int er = resolve(path, p); int d = er ? -1 : find(p);
    if (d < 0) r = fail_meta(C_TRUNC, f, er ? er : ENOENT);
    else if (!(W->ino[W->dir[d].ino].mode & 0200)) r = fail_meta(C_TRUNC, f, EACCES);
    else r = sim_trunc((int)W->dir[d].ino, (uint64_t)l, f);
  }
  UNLOCK(); return r;
}
EXPORT int truncate(const char *p, off_t l) { return truncate64(p, l); }
static int do_sync(int fd, int nr) {
  if (!SIM) return (int)RAW(nr, fd, 0, 0, 0, 0, 0);
  Fault *f; LOCK();
  int r = -1;
  if (!meta(C_SYNC, &f)) { ev(C_SYNC, fd, 0, 0, fcode(f)); after(f); r = 0; }
  UNLOCK(); return r;
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
EXPORT int syncfs(int fd) { return do_sync(fd, SYS_syncfs); }
EXPORT void sync(void) { if (!SIM) RAW(SYS_sync, 0, 0, 0, 0, 0, 0); }
EXPORT int unlink(const char *p) {
  if (!SIM) return (int)RAW(SYS_unlink, p, 0, 0, 0, 0, 0);
  LOCK(); int r = sim_unlink(p, 0); UNLOCK(); return r;
}
EXPORT int rmdir(const char *p) {
  if (!SIM) return (int)RAW(SYS_rmdir, p, 0, 0, 0, 0, 0);
  LOCK(); int r = sim_unlink(p, 1); UNLOCK(); return r;
}
EXPORT int unlinkat(int d, const char *p, int fl) {
  char q[PATH_LEN];
  if (!SIM) return (int)RAW(SYS_unlinkat, d, p, fl, 0, 0, 0);
  LOCK(); int r = sim_unlink(below(d, p, q), !!(fl & AT_REMOVEDIR)); UNLOCK(); return r;
}
EXPORT int remove(const char *p) { int r = unlink(p); if (r && errno == EISDIR) r = rmdir(p); return r; }
EXPORT int rename(const char *a, const char *b) {
  if (!SIM) return (int)RAW(SYS_rename, a, b, 0, 0, 0, 0);
  LOCK(); int r = sim_rename(a, b, 0); UNLOCK(); return r;
}
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned fl) {
  if (!SIM) return (int)RAW(SYS_renameat2, d, a, e, b, fl, 0);
  LOCK(); int r = sim_rename(a, b, fl); UNLOCK(); return r;
}
EXPORT int renameat(int d, const char *a, int e, const char *b) { return renameat2(d, a, e, b, 0); }
static int do_link(const char *a, const char *b) {
  char p[PATH_LEN], q[PATH_LEN]; Fault *f;
  if (meta(C_META, &f)) return -1;
  int er = resolve(a, p);
  if (!er) er = resolve(b, q);
  int d = er ? -1 : find(p);
  if (!er && d < 0) er = ENOENT;
  if (!er && find(q) >= 0) er = EEXIST;
  if (!er) er = parent_ok(q, 1);
  if (er) return fail_meta(C_META, f, er);
  int i = (int)W->dir[d].ino;
  if (new_dirent(q, i) < 0) return fail_meta(C_META, f, ENOSPC);
  W->ino[i].nlink++;
  touch(q, C_META);
  ev(C_META, i, 1, 0, fcode(f));
  return 0;
}
EXPORT int linkat(int d, const char *a, int e, const char *b, int fl) {
  if (!SIM) return (int)RAW(SYS_linkat, d, a, e, b, fl, 0);
  LOCK(); int r = do_link(a, b); UNLOCK(); return r;
}
EXPORT int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int symlink(const char *a, const char *b) {
  if (!SIM) return (int)RAW(SYS_symlink, a, b, 0, 0, 0, 0);
  errno = EPERM; return -1;
}
EXPORT int symlinkat(const char *a, int d, const char *b) {
  if (!SIM) return (int)RAW(SYS_symlinkat, a, d, b, 0, 0, 0);
  errno = EPERM; return -1;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  if (!SIM) return RAW(SYS_readlink, p, b, n, 0, 0, 0);
  struct stat s; LOCK(); int r = sim_stat_path(p, &s); UNLOCK();
  if (r) return -1;
  errno = EINVAL; return -1;
}
EXPORT char *realpath(const char *restrict p, char *restrict o) {
  if (!SIM) {
    static char *(*real)(const char *, char *);
    if (!real) real = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
    return real(p, o);
  }
  struct stat s;
  if (stat(p, &s)) return NULL;
  if (!o) o = malloc(PATH_MAX);
  if (o) resolve(p, o);
  return o;
}
static int do_mkdir(const char *path, unsigned m) {
  char p[PATH_LEN]; Fault *f;
  if (meta(C_META, &f)) return -1;
  int er = resolve(path, p);
  if (!er && find(p) >= 0) er = EEXIST;
  if (!er) er = parent_ok(p, 1);
  if (er) return fail_meta(C_META, f, er);
  int i = new_inode(2, m & 0777);
  if (i < 0 || new_dirent(p, i) < 0) return fail_meta(C_META, f, ENOSPC);
  touch(p, C_META);
  ev(C_META, i, 2, 0, fcode(f));
  return 0;
}
EXPORT int mkdir(const char *p, mode_t m) {
  if (!SIM) return (int)RAW(SYS_mkdir, p, m, 0, 0, 0, 0);
  LOCK(); int r = do_mkdir(p, m); UNLOCK(); return r;
}
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  if (!SIM) return (int)RAW(SYS_mkdirat, d, p, m, 0, 0, 0);
  return mkdir(p, m);
}
static int do_chmod(const char *path, int fd, unsigned m) {
  char p[PATH_LEN]; Fault *f;
  if (meta(C_META, &f)) return -1;
  int i;
  if (path) {
    int er = resolve(path, p); int d = er ? -1 : find(p);
    if (d < 0) return fail_meta(C_META, f, er ? er : ENOENT);
    i = (int)W->dir[d].ino;
  } else { if (!vfd(fd)) { errno = EBADF; return -1; } i = (int)W->fd[fd - FD_BASE].ino; }
  touch_ino(i, C_META);
  W->ino[i].mode = m & 0777;
  ev(C_META, i, 3, (int64_t)m, fcode(f));
  return 0;
}
EXPORT int chmod(const char *p, mode_t m) {
  if (!SIM) return (int)RAW(SYS_chmod, p, m, 0, 0, 0, 0);
  LOCK(); int r = do_chmod(p, -1, m); UNLOCK(); return r;
}
EXPORT int fchmod(int fd, mode_t m) {
  if (!SIM) return (int)RAW(SYS_fchmod, fd, m, 0, 0, 0, 0);
  LOCK(); int r = do_chmod(NULL, fd, m); UNLOCK(); return r;
}
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) {
  if (!SIM) return (int)RAW(SYS_fchmodat, d, p, m, fl, 0, 0);
  return chmod(p, m);
}
EXPORT int fchown(int fd, uid_t u, gid_t g) { if (!SIM) return (int)RAW(SYS_fchown, fd, u, g, 0, 0, 0); return 0; }
EXPORT int chown(const char *p, uid_t u, gid_t g) { if (!SIM) return (int)RAW(SYS_chown, p, u, g, 0, 0, 0); return 0; }
static int set_mtime(int i, const struct timespec *t) {
  if (i < 0) { errno = ENOENT; return -1; }
  if (!t || t[1].tv_nsec == UTIME_NOW) W->ino[i].mtime = W->clock_real;
  else if (t[1].tv_nsec != UTIME_OMIT) W->ino[i].mtime = t[1].tv_sec * 1000000000ll + t[1].tv_nsec;
  ev(C_META, i, 4, W->ino[i].mtime, 0);
  return 0;
}
EXPORT int futimens(int fd, const struct timespec t[2]) {
  if (!SIM) return (int)RAW(SYS_utimensat, fd, 0, t, 0, 0, 0);
  Fault *f; LOCK();
  int r = meta(C_META, &f) ? -1 : set_mtime(vfd(fd) ? (int)W->fd[fd - FD_BASE].ino : -1, t);
  UNLOCK(); return r;
}
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
  if (!SIM) return (int)RAW(SYS_utimensat, d, p, t, fl, 0, 0);
  if (!p) return futimens(d, t);
  Fault *f; char q[PATH_LEN]; LOCK();
  int r = -1;
  if (!meta(C_META, &f)) { int e = resolve(p, q), k = e ? -1 : find(q); r = set_mtime(k < 0 ? -1 : (int)W->dir[k].ino, t); }
  UNLOCK(); return r;
}
// Directories are read as they are when they are opened.
static int under(const char *p, const char *d) {
  size_t l = strlen(d);
  if (l == 1) l = 0;
  return !strncmp(p, d, l) && p[l] == '/' && p[l + 1] && !strchr(p + l + 1, '/');
}
static SimDir *sim_dir(const char *p) {
  int k = find(p);
  if (k < 0) { int er = parent_ok(p, 0); errno = er ? er : ENOENT; return NULL; }
  Inode *n = &W->ino[W->dir[k].ino];
  if (n->kind != 2) { errno = ENOTDIR; return NULL; }
  if (!(n->mode & 0400)) { errno = EACCES; return NULL; }
  SimDir *d = mmap(NULL, sizeof *d, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (d == MAP_FAILED) { errno = ENOMEM; return NULL; }
  d->magic = DIR_MAGIC;
  strcpy(d->path, p);
  for (d->no = 0; d->no < 15 && dirs[d->no]; d->no++);
  dirs[d->no] = d;
  // In an order of no meaning.
  for (int i = 0; i < MAX_DIRENT; i++) {
    Dirent *x = &W->dir[(i * 37 + (int)(W->rnd_seed & 63)) % MAX_DIRENT];
    if (!x->used || !under(x->path, p)) continue;
    struct dirent64 *e = &d->e[d->n++];
    e->d_ino = x->ino + 100; e->d_off = d->n; e->d_reclen = sizeof *e;
    e->d_type = W->ino[x->ino].kind == 2 ? DT_DIR : DT_REG;
    strcpy(e->d_name, strrchr(x->path, '/') + 1);
  }
  ev(C_META, (int)W->dir[k].ino, 5, d->n, 0);
  return d;
}
EXPORT DIR *opendir(const char *p) {
  if (!SIM) {
    static DIR *(*real)(const char *);
    if (!real) real = (DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir");
    return real(p);
  }
  Fault *f; char q[PATH_LEN]; LOCK();
  SimDir *d = NULL;
  if (!meta(C_META, &f)) { int e = resolve(p, q); if (e) errno = e; else d = sim_dir(q); }
  UNLOCK(); return (DIR *)d;
}
EXPORT struct dirent64 *readdir64(DIR *x) {
  SimDir *d = (SimDir *)x;
  if (d->magic != DIR_MAGIC) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    return real(x);
  }
  return d->at < d->n ? &d->e[d->at++] : NULL;
}
EXPORT struct dirent *readdir(DIR *x) { return (struct dirent *)readdir64(x); }
EXPORT int closedir(DIR *x) {
  SimDir *d = (SimDir *)x;
  if (d->magic != DIR_MAGIC) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    return real(x);
  }
  dirs[d->no] = NULL;
  return munmap(d, sizeof *d);
}
EXPORT int dirfd(DIR *x) {
  SimDir *d = (SimDir *)x;
  if (d->magic != DIR_MAGIC) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "dirfd");
    return real(x);
  }
  return DIR_FD + d->no;
}
EXPORT int flock(int fd, int op) { if (!SIM) return (int)RAW(SYS_flock, fd, op, 0, 0, 0, 0); return 0; }
EXPORT int posix_fallocate64(int fd, off_t o, off_t l) {
  if (!SIM) { long r = raw(SYS_fallocate, fd, 0, o, l, 0, 0); return r < 0 ? (int)-r : 0; }
  (void)fd; return EOPNOTSUPP;
}
EXPORT int posix_fallocate(int fd, off_t o, off_t l) { return posix_fallocate64(fd, o, l); }
EXPORT int fallocate64(int fd, int m, off_t o, off_t l) { if (!SIM) return (int)RAW(SYS_fallocate, fd, m, o, l, 0, 0); errno = EOPNOTSUPP; return -1; }
EXPORT int fallocate(int fd, int m, off_t o, off_t l) { return fallocate64(fd, m, o, l); }
EXPORT int posix_fadvise64(int fd, off_t o, off_t l, int a) { if (!SIM) { long r = raw(SYS_fadvise64, fd, o, l, a, 0, 0); return r < 0 ? (int)-r : 0; } return 0; }
EXPORT int posix_fadvise(int fd, off_t o, off_t l, int a) { return posix_fadvise64(fd, o, l, a); }
static int dup_v(int fd) {
  if (fd >= 0 && fd <= 2) return fd;
  if (!vfd(fd)) { errno = EBADF; return -1; }
  for (int k = 0; k < MAX_FD; k++) if (!W->fd[k].used) { W->fd[k] = W->fd[fd - FD_BASE]; W->ino[W->fd[k].ino].nopen++; return FD_BASE + k; }
  errno = EMFILE; return -1;
}
static int do_fcntl(int fd, int cmd, long a) {
  if (!SIM) return (int)RAW(SYS_fcntl, fd, cmd, a, 0, 0, 0);
  if (fd >= 0 && fd <= 2) return cmd == F_GETFL ? O_RDWR : cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD ? fd : 0;
  if (!vfd(fd)) { errno = EBADF; return -1; }
  switch (cmd) {
  case F_DUPFD: case F_DUPFD_CLOEXEC: return dup_v(fd);
  case F_GETFL: return (int)W->fd[fd - FD_BASE].flags;
  case F_GETFD: return FD_CLOEXEC;
  default: return 0;
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); return do_fcntl(fd, cmd, a); }
EXPORT int dup(int fd) { if (!SIM) return (int)RAW(SYS_dup, fd, 0, 0, 0, 0, 0); return dup_v(fd); }
EXPORT int isatty(int fd) {
  if (!SIM) { char t[64]; return RAW(SYS_ioctl, fd, 0x5401, t, 0, 0, 0) == 0; }
  errno = ENOTTY; return 0;
}
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list v; va_start(v, rq); long a = va_arg(v, long); va_end(v);
  if (!SIM) return (int)RAW(SYS_ioctl, fd, rq, a, 0, 0, 0);
  errno = ENOTTY; return -1;
}
EXPORT char *getcwd(char *b, size_t n) {
  if (!SIM) { long r = raw(SYS_getcwd, (long)b, (long)n, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return NULL; } return b; }
  size_t l = strlen(W->cwd) + 1;
  if (l > n) { errno = ERANGE; return NULL; }
  memcpy(b, W->cwd, l); return b;
}
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
  if (!SIM) return RAW(SYS_copy_file_range, a, ao, b, bo, n, fl);
  errno = EXDEV; return -1;
}
EXPORT ssize_t sendfile64(int a, int b, off_t *o, size_t n) {
  if (!SIM) return RAW(SYS_sendfile, a, b, o, n, 0, 0);
  errno = EINVAL; return -1;
}
EXPORT ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }
EXPORT ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
  if (!SIM) return RAW(SYS_splice, a, ao, b, bo, n, fl);
  errno = EINVAL; return -1;
}

// ---------------------------------------------------------------- randomness, identity
static void fill_random(void *b, size_t n) {
  W->cnt[C_RANDOM]++;
  unsigned char *o = b;
  for (size_t i = 0; i < n; i++) {
    uint64_t s = W->rnd_seed ^ (W->rnd_n / 8) * 0x9e3779b97f4a7c15ull;
    uint64_t v = split(&s);
    o[i] = (unsigned char)(v >> (8 * (W->rnd_n % 8)));
    W->rnd_n++;
  }
  ev(C_RANDOM, 0, (int64_t)n, 0, 0);
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!SIM) return RAW(SYS_getrandom, b, n, f, 0, 0, 0);
  LOCK(); fill_random(b, n); UNLOCK(); return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) {
  if (!SIM) return RAW(SYS_getrandom, b, n, 0, 0, 0, 0) < 0 ? -1 : 0;
  LOCK(); fill_random(b, n); UNLOCK(); return 0;
}
EXPORT pid_t getpid(void) { if (!SIM) return (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); return (pid_t)W->pid; }
EXPORT pid_t getppid(void) { if (!SIM) return (pid_t)raw(SYS_getppid, 0, 0, 0, 0, 0, 0); return (pid_t)W->pid / 2 + 1; }
EXPORT pid_t gettid(void) { if (!SIM) return (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); return (pid_t)W->pid + (my_task > 0 ? my_task : 0); }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (!SIM) return RAW(SYS_sched_getaffinity, p, n, s, 0, 0, 0) < 0 ? -1 : 0;
  memset(s, 0, n);
  for (uint32_t i = 0; i < W->ncpu && i < n * 8; i++) ((unsigned char *)s)[i / 8] |= (unsigned char)(1u << (i % 8));
  return 0;
}
EXPORT long sysconf(int name) {
  if (SIM && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return (long)W->ncpu;
  static long (*real)(int);
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}

// Environment variables. Those that nobody has set have seeded values, when the
// run asks for it; the settings of the Rust runtime stay out of it.
extern char **environ;
EXPORT char *getenv(const char *n) {
  size_t l = strlen(n);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  if (!SIM || !W->env_seed) return NULL;
  W->nenv++;
  if (!strncmp(n, "RUST_", 5) || !strncmp(n, "SIM", 3)) return NULL;
  static const char *const v[] = {"1", "0", "", "x", "100", "true", "off", "-3", "Courier", "/tmp", "2.5", "red", "42", "LR", "é"};
  uint64_t s = W->env_seed ^ hash_bytes(n, l);
  uint64_t h = split(&s);
  if (h % 3 == 0) return NULL;
  return (char *)v[(h >> 8) % (sizeof v / sizeof *v)];
}
EXPORT char *secure_getenv(const char *n) { return getenv(n); }
EXPORT int gethostname(char *b, size_t n) {
  char t[80];
  if (SIM) snprintf(t, sizeof t, "host%u", W->pid % 1000);
  else { struct utsname u; long r = raw(SYS_uname, (long)&u, 0, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } snprintf(t, sizeof t, "%s", u.nodename); }
  snprintf(b, n, "%s", t);
  return 0;
}
EXPORT uid_t getuid(void) { if (!SIM || !W->env_seed) return (uid_t)raw(SYS_getuid, 0, 0, 0, 0, 0, 0); return (uid_t)(W->env_seed % 3 * 1000); }
EXPORT uid_t geteuid(void) { if (!SIM || !W->env_seed) return (uid_t)raw(SYS_geteuid, 0, 0, 0, 0, 0, 0); return (uid_t)(W->env_seed % 3 * 1000); }

// ---------------------------------------------------------------- time
static void tick(void) {
  Fault *f = fault_at(C_CLOCK);
  W->clock_mono += W->clock_tick; W->clock_real += W->clock_tick;
  if (f && f->kind == F_JUMP) W->clock_real += f->arg;
  if (f && f->kind == F_DELAY) { W->clock_real += f->arg; W->clock_mono += f->arg; }
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (!SIM) return (int)RAW(SYS_clock_gettime, c, t, 0, 0, 0, 0);
  LOCK();
  tick();
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? W->clock_real : W->clock_mono;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  UNLOCK();
  return 0;
}
EXPORT int gettimeofday(struct timeval *restrict t, void *restrict z) {
  if (!SIM) return (int)RAW(SYS_gettimeofday, t, z, 0, 0, 0, 0);
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec;
}
static void sim_sleep(int64_t ns) {
  W->cnt[C_SLEEP]++;
  if (ns < 1) ns = 1;
#ifdef SIM_INPROC
  if (W->sched_on && my_task >= 0) {
    W->task[my_task].wake_ns = (uint64_t)(W->clock_mono + ns);
    W->task[my_task].state = T_SLEEP;
    forced(1);
    return;
  }
#endif
  W->clock_mono += ns; W->clock_real += ns;
  POINT();
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!SIM) return (int)RAW(SYS_nanosleep, a, b, 0, 0, 0, 0);
  sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!SIM) { long r = raw(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0); return r < 0 ? (int)-r : 0; }
  int64_t v = a->tv_sec * 1000000000ll + a->tv_nsec;
  if (fl & TIMER_ABSTIME) v -= c == CLOCK_REALTIME ? W->clock_real : W->clock_mono;
  sim_sleep(v); return 0;
}
EXPORT int usleep(useconds_t u) { if (!SIM) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); } sim_sleep(u * 1000ll); return 0; }
EXPORT int sched_yield(void) {
  if (!SIM) return (int)RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
#ifdef SIM_INPROC
  if (W->sched_on && my_task >= 0) {
    g_total++;
    if (g_total >= W->budget) die(ST_HANG);
    int n = pick_round();
    if (n >= 0) { switch_to(n, 1); return 0; }
    plan_next();
    return 0;
  }
#endif
  POINT();
  return 0;
}

// ---------------------------------------------------------------- syscall(2), futexes
#ifdef SIM_INPROC
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t val3) {
  (void)val3;
  int cmd = op & FUTEX_CMD_MASK;
  W->cnt[C_FUTEX]++;
  hot_point(0x40000u + (uint32_t)cmd);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (W->spurious && W->cnt[C_FUTEX] % W->spurious == 0) { W->fired[C_FUTEX][F_EINTR]++; errno = EINTR; return -1; }
    W->nblocked++;
    TaskW *t = &W->task[my_task];
    t->wait_addr = (uint64_t)addr; t->woken = 0; t->wake_ns = 0;
    if (to) {
      int64_t v = to->tv_sec * 1000000000ll + to->tv_nsec;
      t->wake_ns = (uint64_t)(cmd == FUTEX_WAIT ? W->clock_mono + v : (op & FUTEX_CLOCK_REALTIME) ? v - W->clock_real + W->clock_mono : v);
      if (!t->wake_ns) t->wake_ns = 1;
    }
    t->state = T_FUTEX;
    forced(1);
    if (t->woken == 2) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t n = 0;
    for (uint32_t i = 0; i < W->ntask && n < val; i++) {
      TaskW *t = &W->task[i];
      if (t->state == T_FUTEX && t->wait_addr == (uint64_t)addr) { t->state = T_RUNNABLE; t->woken = 1; t->wake_ns = 0; n++; }
    }
    return n;
  }
  errno = ENOSYS; return -1;
}
#endif
#ifndef SIM_INPROC
static int g_threads;
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  g_threads = 1;
  return real(t, at, fn, arg);
}
#endif
EXPORT long syscall(long nr, ...) {
  va_list v; va_start(v, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
  va_end(v);
  if (SIM) switch (nr) {
    case SYS_getrandom: return getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
    case SYS_statx: return statx((int)a[0], (const char *)a[1], (int)a[2], (unsigned)a[3], (struct statx *)a[4]);
    case SYS_gettid: return gettid();
    case SYS_getpid: return getpid();
    case SYS_copy_file_range: errno = EXDEV; return -1;
    case SYS_renameat2: return renameat2((int)a[0], (const char *)a[1], (int)a[2], (const char *)a[3], (unsigned)a[4]);
    case SYS_open: return open64((const char *)a[0], (int)a[1], (int)a[2]);
    case SYS_openat: return open64((const char *)a[1], (int)a[2], (int)a[3]);
    case SYS_write: return write((int)a[0], (const void *)a[1], (size_t)a[2]);
    case SYS_read: return read((int)a[0], (void *)a[1], (size_t)a[2]);
    case SYS_futex:
#ifdef SIM_INPROC
      if (W->sched_on && my_task >= 0)
        return sim_futex((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec *)a[3], (uint32_t)a[5]);
#else
      // Without other threads nobody will ever wake this one.
      if (!g_threads && ((a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT || (a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET)
          && __atomic_load_n((uint32_t *)a[0], __ATOMIC_SEQ_CST) == (uint32_t)a[2]) {
        if (!a[3]) die(ST_DEADLOCK);
        errno = ETIMEDOUT; return -1;
      }
#endif
      break;
    default: break;
  }
  return ret(raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---------------------------------------------------------------- threads
#ifdef SIM_INPROC
typedef struct { void *(*fn)(void *); void *arg; int id; } Boot;
static Boot boots[MAX_TASK];

static void task_finish(void *p) {
  int me = (int)(intptr_t)p - 1;
  if (!g_on || me < 0) return;
  W->task[me].state = T_DONE;
  for (uint32_t i = 0; i < W->ntask; i++)
    if (W->task[i].state == T_JOIN && W->task[i].join_of == (uint64_t)me) W->task[i].state = T_RUNNABLE;
  forced(0);
}
static void *trampoline(void *p) {
  Boot *b = p;
  my_task = b->id;
  wait_baton(my_task);
  plan_next();
  pthread_setspecific(fin_key, (void *)(intptr_t)(my_task + 1));
  return b->fn(b->arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  if (!g_on || !W->sched_on || my_task < 0) return real(t, at, fn, arg);
  int id = (int)W->ntask;
  if (id == MAX_TASK)
    for (id = 1; id < MAX_TASK && !(W->task[id].state == T_DONE && W->task[id].pad); id++);
  if (id == MAX_TASK) die(ST_LIMIT);
  W->task[id].pad = 0;
  W->task[id].state = T_RUNNABLE; W->task[id].arena = (uint32_t)id; W->task[id].steps = 0;
  boots[id] = (Boot){fn, arg, id};
  in_i[id] = 0; t_in[id] = g_total;
  pthread_t h;
  int r = real(&h, at, trampoline, &boots[id]);
  if (r) return r;
  thr[id] = h; *t = h;
  if (id == (int)W->ntask) W->ntask++;
  hot_point(0x50000u);
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **rv) {
  static int (*real)(pthread_t, void **);
  if (!real) real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
  if (g_on && W->sched_on && my_task >= 0)
    // The newest one: pthread_t values come back.
    for (int i = (int)W->ntask - 1; i > 0; i--)
      if (thr[i] == t && W->task[i].state != T_UNUSED) {
        if (W->task[i].state != T_DONE) {
          W->task[my_task].state = T_JOIN; W->task[my_task].join_of = (uint64_t)i;
          forced(1);
        }
        // The place may be used again.
        W->task[i].pad = 1;
        thr[i] = 0;
        break;
      }
  return real(t, rv);
}

EXPORT void sim_start(void) {
  extern char __data_start[], _end[];
  data_lo = (uint64_t)__data_start; data_hi = (uint64_t)_end;
  if (!fin_key_ok) { pthread_key_create(&fin_key, task_finish); fin_key_ok = 1; }
  memset(g_seen, 0, sizeof g_seen);
  memset(thr, 0, sizeof thr);
  g_total = 0; run_in = 0; g_guard = 0;
  my_task = 0;
  W->ntask = 1; W->cur = 0; W->task[0].state = T_RUNNABLE; W->task[0].arena = 0;
  sched_init();
  plan_next();
  g_on = 1;
}
EXPORT void sim_stop(void) {
  if (g_on) W->task[W->cur].steps = cur_task_steps();
  g_on = 0;
  W->total_steps = g_total;
  my_task = -1;
}
EXPORT void sim_pause(int on) { g_on = !on; }
EXPORT int sim_active(void) { return g_on; }
EXPORT int sim_task(void) { return my_task; }
EXPORT void sim_attach(World *w) { W = w; }
EXPORT void sim_call_point(uint32_t id) { if (g_on) { W->cnt[C_CALL]++; hot_point(0x60000u + id); } }
EXPORT uint64_t sim_steps(void) { return g_total; }
// Called by the allocator. Returns 1 when the allocation has to fail.
EXPORT int sim_alloc_point(void) {
  Fault *f = fault_at(C_ALLOC);
  if (f) {
    if (f->kind == F_CRASH_BEFORE) die(ST_CRASHED);
    if (f->kind == F_ERR) { ev(C_ALLOC, -1, 0, -ENOMEM, fcode(f)); return 1; }
  }
  POINT();
  return 0;
}
#else
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static int alloc_fails(void) {
  if (!g_on) return 0;
  LOCK();
  Fault *f = fault_at(C_ALLOC);
  int r = 0;
  if (f) {
    if (f->kind == F_CRASH_BEFORE) die(ST_CRASHED);
    if (f->kind == F_ERR) { ev(C_ALLOC, -1, 0, -ENOMEM, fcode(f)); r = 1; }
  }
  UNLOCK();
  if (r) errno = ENOMEM;
  return r;
}
EXPORT void *malloc(size_t n) { return alloc_fails() ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fails() ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return alloc_fails() ? NULL : __libc_realloc(p, n); }
EXPORT int posix_memalign(void **o, size_t a, size_t n) {
  if (alloc_fails()) return ENOMEM;
  void *p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  *o = p; return 0;
}
EXPORT void *aligned_alloc(size_t a, size_t n) { return alloc_fails() ? NULL : __libc_memalign(a, n); }

// The end of the process: the last thing the simulation sees.
static void at_end(void) {
  if (!g_on) return;
  g_on = 0;
  W->total_steps = g_total;
  if (W->status == ST_RUNNING) W->status = ST_DONE;
  gate_end();
}
__attribute__((constructor)) static void boot(void) {
  const char *s = getenv("SIMOS_FD");
  if (!s) return;
  int fd = atoi(s);
  void *p = mmap((void *)0x510000000000ull, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
  W = p;
  if (W->magic != W_MAGIC || W->size != sizeof(World)) raw(SYS_exit_group, 98, 0, 0, 0, 0, 0);
  unsetenv("SIMOS_FD");
  unsetenv("LD_PRELOAD");
  atexit(at_end);
  slow_point();
  g_on = 1;
}
#endif
EXPORT uint64_t sim_world_size(void) { return sizeof(World); }
