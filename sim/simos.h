// The simulated operating system: layout of the shared "world".
// Mirrored by src/world.rs (checked at start-up through sim_world_size()).
#pragma once
#include <stdint.h>

#define W_MAGIC 0x53494d4f53313031ull
#define MAX_INO 48
#define MAX_DIRENT 64
#define MAX_FD 1024
#define PATH_LEN 192
#define MAX_FAULT 48
#define MAX_EV 768
#define MAX_SCHED 16384
#define MAX_TASK 24
#define MAX_GUARD 65536
#define NEEDLE_LEN 256
#define MAX_WPATH 16
#define OUT_SZ (1u << 18)
#define DATA_SZ (16u << 20)
#define BB_SZ (32u << 20)
#define FD_BASE 500

// Operation classes, for fault plans and counters.
enum {
  C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_CLOSE, C_STAT, C_SEEK, C_SYNC,
  C_RENAME, C_TRUNC, C_UNLINK, C_STDOUT, C_STDERR, C_ALLOC, C_CLOCK, C_RANDOM,
  C_FUTEX, C_SLEEP, C_CALL, C_META, C_STEP, C_N
};
// Fault kinds.
enum {
  F_NONE, F_ERR, F_SHORT, F_EINTR, F_ZERO, F_CRASH_BEFORE, F_CRASH_AFTER,
  F_CRASH_MID, F_SIZE_LIE, F_DELAY, F_JUMP, F_FULL, F_N
};
// How a simulated process ended.
enum {
  ST_RUNNING, ST_DONE, ST_CRASHED, ST_HANG, ST_DEADLOCK, ST_LIMIT
};

typedef struct { uint32_t used, kind, mode, nopen, nlink, pad; uint64_t off, len, cap; int64_t mtime; } Inode;
typedef struct { uint32_t used, ino; char path[PATH_LEN]; } Dirent;
typedef struct { uint32_t used, ino, flags, std; uint64_t pos; } Fd;
typedef struct { uint32_t cls, kind; uint64_t nth, repeat; int64_t arg; uint64_t fired; } Fault;
typedef struct { uint16_t op, task; int32_t ino; int64_t a, r; uint32_t fault, pad; } Ev;
typedef struct { uint32_t task, next; uint64_t step; } Sw;
typedef struct {
  uint32_t state, arena, woken, pad;
  uint64_t steps, wait_addr, wake_ns, join_of;
} TaskW;

typedef struct {
  uint64_t magic, size;
  // ---- configuration of the run
  uint32_t sched_on;       // cooperative scheduling of threads
  uint32_t sched_mode;     // 0 replay list only, 1 uniform, 2 few, 3 targeted, 4 burst, 5 rendezvous
  uint64_t sched_seed;
  uint64_t sched_p;        // mean gap in steps (modes 1, 4), or number (mode 2)
  uint64_t sched_len;      // estimated total steps
  uint64_t sched_p2;       // percentage at interesting points
  uint64_t sched_guard;    // rendezvous point
  uint64_t budget;         // total steps allowed
  uint64_t crash_step;     // die at this step (0: never)
  uint64_t capacity;       // bytes the disk may hold
  uint64_t rnd_seed;       // getrandom stream
  int64_t clock_real, clock_mono, clock_tick;
  uint32_t pid, ncpu;
  uint32_t spurious;       // every n-th futex wait returns at once
  uint32_t nfault;
  uint32_t kill_real;      // crash by SIGKILL (separate process) instead of _exit
  uint32_t watch_on;
  char watch[PATH_LEN];    // the output file whose first change is watched
  uint32_t needle_len; uint32_t pad1;
  unsigned char needle[NEEDLE_LEN];
  char cwd[PATH_LEN];
  Fault fault[MAX_FAULT];
  uint32_t nsched_in; uint32_t pad2;
  uint64_t env_seed;       // values of environment variables nobody has set (0: none)
  // Several processes on one disk: they take turns, and stop before a system
  // call on the disk when their turn is over.
  uint32_t gate_on, gate_state; // 0 its turn, 1 waits for it, 2 ended
  uint64_t gate_left;           // calls until it stops
  // ---- observations
  uint32_t status; int32_t exit_code;
  uint64_t total_steps;
  uint64_t cnt[C_N];
  uint64_t fired[C_N][F_N];
  uint64_t ev_n, ev_hash;
  uint64_t nswitch, ninteresting, sw_hash, nblocked, nguards;
  uint64_t touch_step, touch_op; uint32_t touched, touch_needle;
  uint64_t stdout_len, stderr_len, stdout_tot, stderr_tot;
  uint64_t bb_len;
  uint64_t rnd_n, data_used, disk_used;
  uint32_t ntask, cur, nsched_out, harness_err;
  uint64_t user[32];
  // The paths that were opened for writing, created, renamed or removed.
  uint32_t nwpath, pad3;
  char wpath[MAX_WPATH][PATH_LEN];
  // The paths that were looked for and are not there.
  uint32_t nrpath, nenv;
  char rpath[MAX_WPATH][PATH_LEN];
  TaskW task[MAX_TASK];
  Inode ino[MAX_INO];
  Dirent dir[MAX_DIRENT];
  Fd fd[MAX_FD];
  Ev ev[MAX_EV];
  unsigned char gmap[MAX_GUARD / 8];
  // ---- everything above is wiped between runs
  Sw sched_in[MAX_SCHED];
  Sw sched_out[MAX_SCHED];
  char out[2][OUT_SZ];
  unsigned char data[DATA_SZ];
  unsigned char bb[BB_SZ];
} World;
