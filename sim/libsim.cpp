// Deterministic simulator for the pyinterp extension module.
//
// This library is LD_PRELOADed into the Python interpreter that loads the real
// extension module.  The module is compiled with -fsanitize=thread, but is NOT
// linked with the ThreadSanitizer runtime: the instrumentation callbacks are
// implemented here.  While a session is active
//   * every thread of the process is a simulated thread: exactly one runs at a
//     time, and it can lose the processor at every instrumented memory access
//     and at every synchronisation call; a seeded generator takes the decision;
//   * thread creation, mutexes, condition variables, semaphores, futexes,
//     sleeping, the clocks and the number of processors are simulated;
//   * thread creations and memory allocations fail when the plan says so;
//   * happens-before is tracked with vector clocks, and two conflicting
//     accesses that are not ordered are reported as a data race;
//   * the heap is an arena with red zones and a quarantine: an instrumented
//     access outside a live block is reported.
// Outside a session all calls go straight to the C library.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>

#define API extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define RET __builtin_return_address(0)

namespace {

typedef uintptr_t uptr;

// ---------------------------------------------------------------------------
// Raw system calls (this library interposes syscall()).
inline long raw_syscall(long n, long a, long b, long c, long d, long e,
                        long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
inline void futex_wait(volatile int *a, int v) {
  raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
inline void futex_wake(volatile int *a) {
  raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

struct Real {
  int (*create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  int (*join)(pthread_t, void **);
  int (*detach)(pthread_t);
  int (*mlock)(pthread_mutex_t *);
  int (*mtrylock)(pthread_mutex_t *);
  int (*munlock)(pthread_mutex_t *);
  int (*cwait)(pthread_cond_t *, pthread_mutex_t *);
  int (*ctimedwait)(pthread_cond_t *, pthread_mutex_t *,
                    const struct timespec *);
  int (*cclockwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t,
                    const struct timespec *);
  int (*csignal)(pthread_cond_t *);
  int (*cbroadcast)(pthread_cond_t *);
  int (*swait)(sem_t *);
  int (*strywait)(sem_t *);
  int (*stimedwait)(sem_t *, const struct timespec *);
  int (*sclockwait)(sem_t *, clockid_t, const struct timespec *);
  int (*spost)(sem_t *);
  int (*rdlock)(pthread_rwlock_t *);
  int (*wrlock)(pthread_rwlock_t *);
  int (*tryrdlock)(pthread_rwlock_t *);
  int (*trywrlock)(pthread_rwlock_t *);
  int (*rwunlock)(pthread_rwlock_t *);
  int (*once)(pthread_once_t *, void (*)());
  int (*yield)();
  int (*nanosleep)(const struct timespec *, struct timespec *);
  int (*clock_nanosleep)(clockid_t, int, const struct timespec *,
                         struct timespec *);
  int (*clock_gettime)(clockid_t, struct timespec *);
  int (*gettimeofday)(struct timeval *, void *);
  time_t (*time)(time_t *);
  int (*nprocs)();
  long (*sysconf)(int);
  int (*getaffinity)(pid_t, size_t, cpu_set_t *);
  int (*guard_acquire)(uint64_t *);
  void (*guard_release)(uint64_t *);
  void (*guard_abort)(uint64_t *);
} real;

template <typename F>
void load(F &f, const char *name) {
  f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// ---------------------------------------------------------------------------
// Memory shared with the coordinator, so that a run that dies still tells
// which decisions led there.
constexpr int kMaxDec = 1 << 16;
constexpr int kMaxRep = 16;

struct Decision {
  uint32_t session;  // number of the session in this process
  uint32_t uid;      // thread that was running
  uint64_t nev;      // its event number
  uint32_t next;     // thread that was chosen
  uint32_t kind;     // 0 preemption, 1 forced (block/exit)
  uint64_t pc;       // where (offset in the module, 0 if elsewhere)
};

struct Report {
  uint32_t kind;  // 1 race, 2 heap out of bounds, 3 heap use after free,
                  // 4 wild (unallocated), 5 bad free
  uint32_t flags;
  uint64_t pc1, pc2;
  uint32_t uid1, uid2;
  uint64_t size;
  uint64_t session;
};

struct Shared {
  uint64_t hash;
  uint64_t steps;        // simulated events, all sessions
  uint64_t vtime;        // simulated nanoseconds
  uint64_t switches;     // context switches
  uint64_t preemptions;  // of which not forced
  uint64_t threads;      // threads created
  uint64_t thread_fail;  // creations refused
  uint64_t alloc_fail;   // allocations refused
  uint64_t timeouts;     // timed waits that expired
  uint64_t allocs;       // allocations counted in the current window
  uint64_t creations;    // creations in the current window
  uint64_t status;       // 0 ok, 1 deadlock, 2 step limit, 3 leaked thread
  uint64_t maxlive;
  uint32_t session;
  uint32_t ndec;
  uint32_t dec_lost;
  uint32_t nrep;
  Report rep[kMaxRep];
  Decision dec[kMaxDec];
};

Shared fallback_shared;
Shared *S = &fallback_shared;

inline void mix(uint64_t v) {
  uint64_t h = S->hash;
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 29;
  S->hash = h;
}

// ---------------------------------------------------------------------------
struct Config {
  uint64_t seed;
  uint32_t mode;        // 0 random, 1 pct, 2 replay, 3 run to block
  uint32_t mean;        // random mode: mean number of events between switches
  uint32_t cores;       // number of processors shown to the program
  uint32_t pct_depth;   // pct mode: number of change points
  uint32_t pct_len;     // pct mode: estimated number of events
  uint32_t fill;        // byte that fills fresh allocations
  int64_t thread_from;  // creations with ordinal in [from, to) fail
  int64_t thread_to;
  int64_t thread_limit;  // creation fails when that many threads live
  int64_t alloc_from;    // allocations with ordinal in [from, to) fail
  int64_t alloc_to;
  uint64_t max_steps;
  uint32_t races;      // detect data races
  uint32_t only_code;  // bit 0: only allocations made by the module itself,
                       // bit 1: only those of worker threads
};
Config C;

struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
} R;

// ---------------------------------------------------------------------------
constexpr int kMaxT = 160;

enum State { FREE = 0, RUNNABLE, BLOCKED, FINISHED };

struct Thr {
  int slot;
  uint32_t uid;
  State st;
  void *obj;
  bool timed;
  bool timedout;
  int64_t deadline;
  volatile int go;
  uint64_t nev;
  int64_t prio;
  uint32_t vc[kMaxT];
  pthread_t rl;
  bool has_rl;
  bool detached;
  bool exiting;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  Thr *reap;
  uint64_t next_dec;  // replay: event number of the next decision
  uint32_t dec_pos;
};

Thr T[kMaxT];
__thread Thr *tl __attribute__((tls_model("initial-exec"))) = nullptr;

bool g_stacks = false;
bool g_active = false;   // a session runs
bool g_par = false;      // ... with more than one live thread
bool g_check = false;    // heap accesses are checked
bool g_ending = false;
int g_live = 0;
uint32_t g_next_uid = 0;
int64_t g_count = 0;     // events to the next preemption
uint64_t g_sess_steps = 0;
int64_t g_vt = 0;        // virtual nanoseconds
// seconds added to the calendar clock: it jumps, the monotonic one does not
int64_t g_calendar = 0;
int64_t g_prio_low = 0;
uint64_t g_cp[64];
uint32_t g_ncp = 0, g_icp = 0;
uint64_t g_same = 0;     // events since the last switch
uint64_t g_alloc_n = 0, g_thread_n = 0;
bool g_count_allocs = false;
int g_nofault = 0;

uptr mod_lo = 0, mod_hi = 0;

inline uint64_t modoff(const void *pc) {
  uptr p = (uptr)pc;
  return p >= mod_lo && p < mod_hi ? p - mod_lo : 0;
}

// Decisions to replay.
Decision *replay_dec = nullptr;
uint32_t replay_n = 0;

[[noreturn]] void die(int code) {
  raw_syscall(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

void report(uint32_t kind, uint32_t flags, const void *pc1, const void *pc2,
            uint32_t u1, uint32_t u2, uint64_t size) {
  uint64_t o1 = modoff(pc1), o2 = modoff(pc2);
  for (uint32_t i = 0; i < S->nrep; ++i) {
    if (S->rep[i].kind == kind && S->rep[i].pc1 == o1 && S->rep[i].pc2 == o2)
      return;
  }
  if (S->nrep >= kMaxRep) return;
  Report &r = S->rep[S->nrep];
  r.kind = kind;
  r.flags = flags;
  r.pc1 = o1;
  r.pc2 = o2;
  r.uid1 = u1;
  r.uid2 = u2;
  r.size = size;
  r.session = S->session;
  S->nrep++;
}

// ---------------------------------------------------------------------------
// Arena heap
constexpr uptr kArena = 0x200000000000ULL;
constexpr uptr kArenaSize = 1ULL << 35;  // 32 GB of address space
constexpr uptr kShadow = 0x180000000000ULL;
uptr a_top = 0;    // 0: arena not ready
uptr a_epoch = 0;  // blocks below are never reused
constexpr uint32_t kMagic = 0x51ab1e5a;

struct Hdr {  // sits in the 16 bytes before the user block
  uint32_t magic;
  uint16_t cls;
  uint16_t off;  // offset (in 16 bytes) from the chunk to the user block
  uint64_t size;
};

constexpr int kClasses = 160;
struct FreeNode {
  FreeNode *next;
};
struct ClassList {
  FreeNode *head, *tail;
  uint64_t n;
} a_free[kClasses];
volatile int a_lock = 0;
uint64_t a_live = 0;       // live blocks obtained with operator new
uint64_t a_live_code = 0;  // live blocks malloc'ed by the module

inline void lock_arena() {
  while (__sync_lock_test_and_set(&a_lock, 1)) {
  }
}
inline void unlock_arena() { __sync_lock_release(&a_lock); }

// class -> chunk size: 48, 64, 80, 96, 128 ... four steps per power of two
inline uint64_t class_size(int c) {
  if (c < 4) return 48 + 16 * c;  // 48 64 80 96
  c -= 4;
  uint64_t base = 128ULL << (c / 4);
  return base + (base / 4) * (c % 4);
}
inline int size_class(uint64_t n) {
  if (n <= 96) return n <= 48 ? 0 : (int)((n - 48 + 15) / 16);
  int c = 4;
  while (class_size(c) < n) ++c;
  return c;
}
inline uint8_t *shadow(uptr a) {
  return (uint8_t *)(kShadow + ((a - kArena) >> 3));
}
inline bool in_arena(uptr a) { return a - kArena < kArenaSize; }

void arena_init() {
  void *p = mmap((void *)kArena, kArenaSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  void *q = mmap((void *)kShadow, kArenaSize >> 3, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != (void *)kArena || q != (void *)kShadow) {
    static const char msg[] = "libsim: cannot map the arena\n";
    raw_syscall(SYS_write, 2, (long)msg, sizeof(msg) - 1, 0, 0, 0);
    die(99);
  }
  a_top = kArena + 4096;
}

void poison(uptr a, uint64_t n, uint8_t v) {
  memset(shadow(a), v, (n + 7) >> 3);
}

constexpr uint8_t kFreed = 0xfd, kRed = 0xfa;

void clear_cells(uptr a, uint64_t n, bool check, const void *pc);

uint64_t a_total = 0;  // live blocks
uint64_t a_max = kArenaSize / 4;  // larger requests find no memory

void *arena_alloc(uint64_t size, uint64_t align, bool zero) {
  if (unlikely(!a_top)) arena_init();
  if (align < 16) align = 16;
  uint64_t need = 16 + size + 16 + (align > 16 ? align : 0);
  if (size > a_max) return nullptr;
  int c = size_class(need);
  if (c >= kClasses) return nullptr;
  uint64_t cs = class_size(c);
  cs = (cs + 15) & ~15ULL;
  uptr chunk;
  bool fresh = false;
  lock_arena();
  ClassList &l = a_free[c];
  // keep freed blocks in quarantine for a while
  uint64_t quarantine = cs <= 4096 ? 64 : cs <= (1 << 20) ? 4 : 0;
  if (l.n > quarantine) {
    chunk = (uptr)l.head;
    l.head = l.head->next;
    if (!l.head) l.tail = nullptr;
    l.n--;
  } else {
    chunk = a_top;
    if (chunk + cs > kArena + kArenaSize) {
      unlock_arena();
      return nullptr;
    }
    a_top += cs;
    fresh = true;
  }
  unlock_arena();
  uptr user = chunk + 16;
  user = (user + align - 1) & ~(align - 1);
  Hdr *h = (Hdr *)(user - 16);
  a_total++;
  h->magic = kMagic;
  h->cls = (uint16_t)c;
  h->off = (uint16_t)((user - chunk) / 16);
  h->size = size;
  poison(chunk, cs, kRed);
  if (size) {
    memset(shadow(user), 0, size >> 3);
    if (size & 7) shadow(user)[size >> 3] = (uint8_t)(size & 7);
  }
  if (zero) {
    if (!fresh) memset((void *)user, 0, size);
  } else if (g_active) {
    memset((void *)user, (int)C.fill, size);
  }
  if (g_par && tl) clear_cells(user, size, false, nullptr);
  return (void *)user;
}

inline Hdr *hdr(void *p) { return (Hdr *)((uptr)p - 16); }

// Flags kept in the low byte after the header: who allocated the block.
// (the magic's variants tell the origin)
constexpr uint32_t kMagicNew = 0x51ab1e5b;
constexpr uint32_t kMagicCode = 0x51ab1e5c;

void arena_free(void *p, const void *pc) {
  Hdr *h = hdr(p);
  if (h->magic != kMagic && h->magic != kMagicNew && h->magic != kMagicCode) {
    if (g_check || g_active) {
      report(5, 0, pc, nullptr, tl ? tl->uid : 0, 0, 0);
    }
    return;  // double or wild free: reported, not executed
  }
  a_total--;
  if (h->magic == kMagicNew) a_live--;
  if (h->magic == kMagicCode) a_live_code--;
  if (g_par && tl) clear_cells((uptr)p, h->size, true, pc);
  h->magic = 0xdeadbeef;
  uint64_t cs = (class_size(h->cls) + 15) & ~15ULL;
  uptr chunk = (uptr)p - 16ULL * h->off;
  int c = h->cls;
  poison(chunk, cs, kFreed);
  if (g_active && h->size <= (1 << 20)) memset(p, 0xdd, h->size);
  if (chunk < a_epoch) return;
  lock_arena();
  ClassList &l = a_free[c];
  // the list node lives at the start of the chunk: keep the header intact
  // when they overlap (chunk == header of a 16-aligned block)
  FreeNode *n = (FreeNode *)chunk;
  if ((uptr)h == chunk) h->magic = 0;  // overwritten by the node below
  n->next = nullptr;
  if (l.tail)
    l.tail->next = n;
  else
    l.head = n;
  l.tail = n;
  l.n++;
  unlock_arena();
}

// From now on blocks are taken from an area that nothing used yet: addresses
// do not depend on what the process did before.
void arena_epoch() {
  lock_arena();
  memset(a_free, 0, sizeof(a_free));
  a_epoch = a_top = kArena + kArenaSize / 2;
  unlock_arena();
}

// ---------------------------------------------------------------------------
// Happens-before race detection
struct Rec {
  uint32_t clk;
  uint32_t uid;
  uint8_t slot, mask, write, atomic;
  const void *pc;
};
constexpr int kRecs = 6;
struct Cell {
  uptr key;
  uint32_t gen;
  uint16_t n;
  uint16_t pad;
  uint32_t owner;  // thread that owned the stack this cell belongs to
  Rec r[kRecs];
};
// Stacks of the simulated threads: a fixed place per slot.  A stack that
// another thread used before says nothing about the new one.
constexpr uptr kStacks = 0x2f0000000000ULL;
constexpr uptr kStackSize = 16ULL << 20;
inline uint32_t stack_owner(uptr a) {
  if (a - kStacks >= kStackSize * kMaxT) return 0;
  return T[(a - kStacks) / kStackSize].uid;
}

constexpr uint32_t kCells = 1 << 18;
Cell *cells = nullptr;
uint32_t c_gen = 1;
uint32_t c_used = 0;

struct Sync {
  uptr key;
  uint32_t gen;
  uint32_t vc[kMaxT];
};
constexpr uint32_t kSyncs = 1 << 12;
Sync *syncs = nullptr;
uint32_t s_used = 0;

inline uint32_t hash_ptr(uptr a) {
  a *= 0x9e3779b97f4a7c15ULL;
  return (uint32_t)(a >> 40);
}

Cell *find_cell(uptr g, bool create) {
  uint32_t i = hash_ptr(g) & (kCells - 1);
  for (uint32_t probe = 0; probe < kCells; ++probe) {
    Cell *c = &cells[i];
    if (c->gen != c_gen) {
      if (!create) return nullptr;
      if (c_used > kCells / 2) {  // full: forget everything (rare, exact rerun)
        c_gen++;
        c_used = 0;
        return find_cell(g, create);
      }
      c->gen = c_gen;
      c->key = g;
      c->n = 0;
      c->owner = stack_owner(g << 3);
      c_used++;
      return c;
    }
    if (c->key == g) return c;
    i = (i + 1) & (kCells - 1);
  }
  return nullptr;
}

Sync *find_sync(const void *p, bool create) {
  uptr g = (uptr)p;
  uint32_t i = hash_ptr(g) & (kSyncs - 1);
  for (;;) {
    Sync *c = &syncs[i];
    if (c->gen != S->session + 1) {
      if (!create) return nullptr;
      if (s_used > kSyncs / 2) return &syncs[i];  // shared slot: conservative
      c->gen = S->session + 1;
      c->key = g;
      memset(c->vc, 0, sizeof(c->vc));
      s_used++;
      return c;
    }
    if (c->key == g) return c;
    i = (i + 1) & (kSyncs - 1);
  }
}

inline void vc_max(uint32_t *a, const uint32_t *b) {
  for (int i = 0; i < kMaxT; ++i)
    if (b[i] > a[i]) a[i] = b[i];
}
inline void acquire(const void *p) {
  Sync *s = find_sync(p, false);
  if (s) vc_max(tl->vc, s->vc);
}
inline void release(const void *p) {
  Sync *s = find_sync(p, true);
  vc_max(s->vc, tl->vc);
  tl->vc[tl->slot]++;
}

void check_granule(uptr g, uint8_t mask, bool write, bool atomic,
                   const void *pc) {
  Cell *c = find_cell(g, true);
  Rec *mine = nullptr;
  Thr *t = tl;
  uint32_t owner = stack_owner(g << 3);
  if (owner != c->owner) {
    c->owner = owner;
    c->n = 0;
  }
  for (uint32_t i = 0; i < c->n; ++i) {
    Rec &r = c->r[i];
    if (r.slot == t->slot && r.uid == t->uid) {
      if (r.write == write && r.atomic == atomic && r.mask == mask) mine = &r;
      continue;
    }
    if ((r.mask & mask) && (r.write || write) && !(r.atomic && atomic) &&
        r.clk > t->vc[r.slot]) {
      report(1, (write ? 1 : 0) | (r.write ? 2 : 0), pc, r.pc, t->uid, r.uid,
             mask);
    }
  }
  if (!mine) {
    // drop a record that happened before this one and that it covers
    for (uint32_t i = 0; i < c->n; ++i) {
      Rec &r = c->r[i];
      if ((r.mask & ~mask) == 0 && (write || !r.write) &&
          (r.atomic || !atomic) &&
          (r.uid == t->uid || r.clk <= t->vc[r.slot])) {
        mine = &r;
        break;
      }
    }
  }
  if (!mine) {
    if (c->n < kRecs)
      mine = &c->r[c->n++];
    else
      mine = &c->r[t->nev % kRecs];
  }
  mine->clk = t->vc[t->slot];
  mine->uid = t->uid;
  mine->slot = (uint8_t)t->slot;
  mine->mask = mask;
  mine->write = write;
  mine->atomic = atomic;
  mine->pc = pc;
}

void race_access(uptr a, uint64_t size, bool write, bool atomic,
                 const void *pc) {
  if (!C.races) return;
  uptr end = a + size;
  while (a < end) {
    uptr g = a >> 3;
    unsigned lo = a & 7;
    unsigned hi = (end - (g << 3)) >= 8 ? 8 : (unsigned)(end - (g << 3));
    uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
    check_granule(g, mask, write, atomic, pc);
    a = (g + 1) << 3;
  }
}

void clear_cells(uptr a, uint64_t n, bool check, const void *pc) {
  if (!C.races || !n) return;
  if (n > (1 << 20)) n = 1 << 20;
  for (uptr g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
    Cell *c = find_cell(g, false);
    if (!c) continue;
    if (check) {
      for (uint32_t i = 0; i < c->n; ++i) {
        Rec &r = c->r[i];
        if (r.uid != tl->uid && r.clk > tl->vc[r.slot]) {
          report(1, 4 | (r.write ? 2 : 0), pc, r.pc, tl->uid, r.uid, 0);
        }
      }
    }
    c->n = 0;
  }
}

inline void heap_access(uptr a, uint64_t size, const void *pc) {
  // the first and the last byte (blocks are separated by red zones)
  uint8_t s0 = *shadow(a);
  uptr e = a + size - 1;
  uint8_t s1 = in_arena(e) ? *shadow(e) : 0xff;
  bool bad = (s0 && (s0 >= 8 || (a & 7) >= s0)) ||
             (s1 && (s1 >= 8 || (e & 7) >= s1));
  if (unlikely(bad) && a < a_top) {
    uint8_t s = (s0 >= 8 ? s0 : s1);
    report(s == kFreed ? 3 : 2, 0, pc, nullptr, tl ? tl->uid : 0, 0, size);
  } else if (unlikely(a >= a_top)) {
    report(4, 0, pc, nullptr, tl ? tl->uid : 0, 0, size);
  }
}

// ---------------------------------------------------------------------------
// Scheduler
int runnable_list(Thr **out, bool timed) {
  int n = 0;
  for (int i = 0; i < kMaxT; ++i) {
    if (T[i].st == RUNNABLE || (timed && T[i].st == BLOCKED && T[i].timed))
      out[n++] = &T[i];
  }
  // by uid, so that the order does not depend on slots
  for (int i = 1; i < n; ++i)
    for (int j = i; j > 0 && out[j]->uid < out[j - 1]->uid; --j) {
      Thr *x = out[j];
      out[j] = out[j - 1];
      out[j - 1] = x;
    }
  return n;
}

void draw_countdown() {
  if (C.mode == 0) {
    uint64_t m = C.mean ? C.mean : 1;
    uint64_t k = R.below(8);
    if (k == 0)
      g_count = 1 + R.below(3);
    else if (k < 6)
      g_count = 1 + R.below(2 * m);
    else
      g_count = 1 + R.below(8 * m);
  } else if (C.mode == 1) {
    g_count = INT64_MAX;
    if (g_icp < g_ncp) {
      uint64_t at = g_cp[g_icp];
      g_count = at > g_sess_steps ? (int64_t)(at - g_sess_steps) : 1;
    }
  } else {
    g_count = INT64_MAX;
  }
}

void add_decision(Thr *self, Thr *next, uint32_t kind, const void *pc) {
  mix(((uint64_t)self->uid << 40) ^ ((uint64_t)next->uid << 20) ^ self->nev);
  if (S->ndec < kMaxDec) {
    Decision &d = S->dec[S->ndec++];
    d.session = S->session;
    d.uid = self->uid;
    d.nev = self->nev;
    d.next = next->uid;
    d.kind = kind;
    d.pc = modoff(pc);
  } else {
    S->dec_lost++;
  }
}

void load_next_dec(Thr *t) {
  t->next_dec = UINT64_MAX;
  while (t->dec_pos < replay_n) {
    Decision &d = replay_dec[t->dec_pos];
    if (d.session == S->session && d.uid == t->uid && d.nev > t->nev) {
      t->next_dec = d.nev;
      return;
    }
    t->dec_pos++;
  }
}

Thr *by_uid(Thr **l, int n, uint32_t uid) {
  for (int i = 0; i < n; ++i)
    if (l[i]->uid == uid) return l[i];
  return nullptr;
}

void resume_from_timeout(Thr *t) {
  if (t->st == BLOCKED && t->timed) {
    t->timedout = true;
    t->timed = false;
    t->obj = nullptr;
    t->st = RUNNABLE;
    if (t->deadline > g_vt) {
      S->vtime += (uint64_t)(t->deadline - g_vt);
      g_vt = t->deadline;
    }
    S->timeouts++;
  }
}

void switch_to(Thr *self, Thr *next) {
  S->switches++;
  g_same = 0;
  resume_from_timeout(next);
  bool exiting = self->exiting;
  if (exiting) next->reap = self;
  __sync_synchronize();
  next->go = 1;
  futex_wake(&next->go);
  if (exiting) return;
  while (!self->go) futex_wait(&self->go, 0);
  self->go = 0;
  __sync_synchronize();
  if (self->reap) {
    Thr *d = self->reap;
    self->reap = nullptr;
    if (d->has_rl) real.join(d->rl, nullptr);
    d->has_rl = false;
    if (d->detached) d->st = FREE;
  }
}

void update_par() { g_par = g_active && g_live > 1; }

void deadlock(Thr *self) {
  (void)self;
  S->status = 1;
  die(97);
}

// The running thread cannot continue (blocked or finished): choose another.
void forced_switch(Thr *self, const void *pc) {
  Thr *l[kMaxT];
  int n = runnable_list(l, false);
  if (n == 0) {
    n = runnable_list(l, true);
    if (n == 0) {
      if (g_ending) {  // the main thread waits for threads that never end
        S->status = 3;
        Thr *m = &T[0];
        m->st = RUNNABLE;
        switch_to(self, m);
        return;
      }
      deadlock(self);
    }
    // only timed waiters: time passes until the first deadline
    Thr *b = l[0];
    for (int i = 1; i < n; ++i)
      if (l[i]->deadline < b->deadline) b = l[i];
    if (b == self) {
      resume_from_timeout(b);
      return;
    }
    add_decision(self, b, 1, pc);
    switch_to(self, b);
    return;
  }
  Thr *next = nullptr;
  if (C.mode == 2) {
    if (self->next_dec == self->nev) {
      Decision &d = replay_dec[self->dec_pos];
      next = by_uid(l, n, d.next);
      if (!next) {  // a timed waiter
        Thr *l2[kMaxT];
        int n2 = runnable_list(l2, true);
        next = by_uid(l2, n2, d.next);
      }
      load_next_dec(self);
    }
    if (!next) next = l[0];
  } else if (C.mode == 1) {
    next = l[0];
    for (int i = 1; i < n; ++i)
      if (l[i]->prio > next->prio) next = l[i];
  } else if (C.mode == 3) {
    next = l[0];
  } else {
    next = l[R.below(n)];
  }
  if (next == self) return;
  add_decision(self, next, 1, pc);
  switch_to(self, next);
}

void preempt_to(Thr *self, Thr *next, const void *pc) {
  S->preemptions++;
  add_decision(self, next, 0, pc);
  switch_to(self, next);
}

void preempt(Thr *self, const void *pc) {
  Thr *l[kMaxT];
  // sometimes a timed wait expires although other threads could run
  bool timed = C.mode != 2 && R.below(4) == 0;
  int n = runnable_list(l, timed);
  if (C.mode == 0) {
    draw_countdown();
    int m = 0;
    for (int i = 0; i < n; ++i)
      if (l[i] != self) l[m++] = l[i];
    if (m == 0) return;
    preempt_to(self, l[R.below(m)], pc);
  } else if (C.mode == 1) {
    g_icp++;
    self->prio = --g_prio_low;
    draw_countdown();
    Thr *b = l[0];
    for (int i = 1; i < n; ++i)
      if (l[i]->prio > b->prio) b = l[i];
    if (b != self) preempt_to(self, b, pc);
  }
}

void replay_point(Thr *t, const void *pc) {
  if (t->nev > t->next_dec) load_next_dec(t);
  if (t->nev != t->next_dec) return;
  Decision &d = replay_dec[t->dec_pos];
  Thr *l[kMaxT];
  int n = runnable_list(l, true);
  Thr *next = by_uid(l, n, d.next);
  load_next_dec(t);
  if (next && next != t) preempt_to(t, next, pc);
}

inline void event(Thr *t, const void *pc) {
  t->nev++;
  S->steps++;
  g_sess_steps++;
  g_vt += 10;
  S->vtime += 10;
  if (unlikely(++g_same > 400000) && C.mode != 2) {
    // a thread that spins must not starve the others for ever
    g_same = 0;
    Thr *l[kMaxT];
    int n = runnable_list(l, true);
    if (n > 1) {
      Thr *b = nullptr;
      for (int i = 0; i < n; ++i)
        if (l[i]->uid > t->uid && !b) b = l[i];
      if (!b) b = l[0];
      t->prio = --g_prio_low;
      if (b != t) {
        preempt_to(t, b, pc);
        return;
      }
    }
  }
  if (unlikely(g_sess_steps > C.max_steps)) {
    S->status = 2;
    die(98);
  }
  if (C.mode == 2) {
    if (unlikely(t->nev >= t->next_dec)) replay_point(t, pc);
  } else if (unlikely(--g_count <= 0)) {
    preempt(t, pc);
  }
}

inline void access(uptr a, uint64_t size, bool write, const void *pc) {
  if (in_arena(a) && g_check) heap_access(a, size, pc);
  if (likely(!g_par)) return;
  Thr *t = tl;
  if (!t || t->exiting) return;
  race_access(a, size, write, false, pc);
  event(t, pc);
}

// Blocks the thread on obj.  deadline < 0: no limit.  Returns true if it
// timed out.
bool block(Thr *t, void *obj, int64_t deadline, const void *pc) {
  t->nev++;  // its own event number: at most one decision per number
  t->st = BLOCKED;
  t->obj = obj;
  t->timed = deadline >= 0;
  t->deadline = deadline;
  t->timedout = false;
  forced_switch(t, pc);
  t->obj = nullptr;
  t->timed = false;
  return t->timedout;
}

void wake(void *obj, int n) {
  Thr *l[kMaxT];
  int m = 0;
  for (int i = 0; i < kMaxT; ++i)
    if (T[i].st == BLOCKED && T[i].obj == obj) l[m++] = &T[i];
  for (int i = 1; i < m; ++i)
    for (int j = i; j > 0 && l[j]->uid < l[j - 1]->uid; --j) {
      Thr *x = l[j];
      l[j] = l[j - 1];
      l[j - 1] = x;
    }
  for (int i = 0; i < m && (n < 0 || i < n); ++i) {
    l[i]->st = RUNNABLE;
    l[i]->timed = false;
    l[i]->obj = nullptr;
  }
}

// A synchronisation call is a scheduling point too.
inline Thr *sync_point(const void *pc) {
  Thr *t = tl;
  if (!t || !g_active || t->exiting) return nullptr;
  if (g_par) event(t, pc);
  return t;
}

void thread_done(Thr *t) {
  t->st = FINISHED;
  t->exiting = true;
  // release to the joiner: the joiner takes this vector clock
  g_live--;
  update_par();
  wake(t, -1);
  if (g_ending && g_live == 1) {
    T[0].st = RUNNABLE;
    T[0].obj = nullptr;
  }
  t->nev++;
  forced_switch(t, nullptr);
}

void *trampoline(void *p) {
  Thr *t = (Thr *)p;
  while (!t->go) futex_wait(&t->go, 0);
  t->go = 0;
  __sync_synchronize();
  tl = t;
  if (t->reap) {
    Thr *d = t->reap;
    t->reap = nullptr;
    if (d->has_rl) real.join(d->rl, nullptr);
    d->has_rl = false;
    if (d->detached) d->st = FREE;
  }
  t->ret = t->fn(t->arg);
  thread_done(t);
  tl = nullptr;
  return t->ret;
}

Thr *by_pthread(pthread_t th) {
  for (int i = 0; i < kMaxT; ++i)
    if (T[i].st != FREE && T[i].uid != 0 && pthread_equal(T[i].rl, th) &&
        !T[i].detached)
      return &T[i];
  return nullptr;
}

int64_t abs_to_virtual(const struct timespec *ts) {
  int64_t s = ts->tv_sec;
  if (s >= 1000000000LL)
    s -= 1600000000LL + g_calendar;
  else
    s -= 1000;
  int64_t v = s * 1000000000LL + ts->tv_nsec;
  return v < 0 ? 0 : v;
}

__attribute__((constructor)) void init() {
  load(real.create, "pthread_create");
  load(real.join, "pthread_join");
  load(real.detach, "pthread_detach");
  load(real.mlock, "pthread_mutex_lock");
  load(real.mtrylock, "pthread_mutex_trylock");
  load(real.munlock, "pthread_mutex_unlock");
  load(real.cwait, "pthread_cond_wait");
  load(real.ctimedwait, "pthread_cond_timedwait");
  load(real.cclockwait, "pthread_cond_clockwait");
  load(real.csignal, "pthread_cond_signal");
  load(real.cbroadcast, "pthread_cond_broadcast");
  load(real.swait, "sem_wait");
  load(real.strywait, "sem_trywait");
  load(real.stimedwait, "sem_timedwait");
  load(real.sclockwait, "sem_clockwait");
  load(real.spost, "sem_post");
  load(real.rdlock, "pthread_rwlock_rdlock");
  load(real.wrlock, "pthread_rwlock_wrlock");
  load(real.tryrdlock, "pthread_rwlock_tryrdlock");
  load(real.trywrlock, "pthread_rwlock_trywrlock");
  load(real.rwunlock, "pthread_rwlock_unlock");
  load(real.once, "pthread_once");
  load(real.yield, "sched_yield");
  load(real.nanosleep, "nanosleep");
  load(real.clock_nanosleep, "clock_nanosleep");
  load(real.clock_gettime, "clock_gettime");
  load(real.gettimeofday, "gettimeofday");
  load(real.time, "time");
  load(real.nprocs, "get_nprocs");
  load(real.sysconf, "sysconf");
  load(real.getaffinity, "sched_getaffinity");
  cells = (Cell *)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  syncs = (Sync *)mmap(nullptr, sizeof(Sync) * kSyncs, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

inline bool ready() { return real.create != nullptr; }
inline void ensure() {
  if (!ready()) init();
}

thread_local int tl_glue = 0;
bool alloc_should_fail(const void *pc, bool code) {
  (void)pc;
  if (!g_count_allocs || g_nofault || !tl || tl_glue) return false;
  if ((C.only_code & 1) && !code) return false;
  if ((C.only_code & 2) && tl->uid == 0) return false;
  uint64_t n = g_alloc_n++;
  S->allocs = g_alloc_n;
  if ((int64_t)n >= C.alloc_from && (int64_t)n < C.alloc_to) {
    S->alloc_fail++;
    mix(0xA110C000 + n);
    return true;
  }
  return false;
}

inline bool in_code(const void *pc) {
  return (uptr)pc >= mod_lo && (uptr)pc < mod_hi;
}

}  // namespace

// ===========================================================================
// Heap
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);

API void *malloc(size_t n) {
  bool code = in_code(RET);
  if (unlikely(g_count_allocs) && code && alloc_should_fail(RET, true)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = arena_alloc(n, 16, false);
  if (!p)
    errno = ENOMEM;
  else if (code) {
    hdr(p)->magic = kMagicCode;
    a_live_code++;
  }
  return p;
}
API void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  bool code = in_code(RET);
  if (unlikely(g_count_allocs) && code && alloc_should_fail(RET, true)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = arena_alloc(n, 16, true);
  if (!p)
    errno = ENOMEM;
  else if (code) {
    hdr(p)->magic = kMagicCode;
    a_live_code++;
  }
  return p;
}
API void free(void *p) {
  if (!p) return;
  if (likely(in_arena((uptr)p)))
    arena_free(p, RET);
  else
    __libc_free(p);
}
API void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena((uptr)p)) return __libc_realloc(p, n);
  Hdr *h = hdr(p);
  if (n == 0) {
    arena_free(p, RET);
    return nullptr;
  }
  bool code = in_code(RET);
  if (unlikely(g_count_allocs) && code && alloc_should_fail(RET, true)) {
    errno = ENOMEM;
    return nullptr;
  }
  uint64_t cap = ((class_size(h->cls) + 15) & ~15ULL) - 16ULL * h->off - 16;
  if (n <= cap && n * 4 >= cap) {
    uptr u = (uptr)p;
    uint64_t old = h->size;
    h->size = n;
    poison(u, cap, kRed);
    memset(shadow(u), 0, n >> 3);
    if (n & 7) shadow(u)[n >> 3] = (uint8_t)(n & 7);
    if (n > old && g_active) memset((char *)p + old, (int)C.fill, n - old);
    return p;
  }
  void *q = arena_alloc(n, 16, false);
  if (!q) {
    errno = ENOMEM;
    return nullptr;
  }
  memcpy(q, p, h->size < n ? h->size : n);
  if (h->magic == kMagicCode) {
    hdr(q)->magic = kMagicCode;
    a_live_code++;
  }
  arena_free(p, RET);
  return q;
}
API int posix_memalign(void **out, size_t align, size_t n) {
  if (unlikely(g_count_allocs) && in_code(RET) && alloc_should_fail(RET, true))
    return ENOMEM;
  void *p = arena_alloc(n, align, false);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
API void *aligned_alloc(size_t align, size_t n) {
  if (unlikely(g_count_allocs) && in_code(RET) && alloc_should_fail(RET, true))
    return nullptr;
  return arena_alloc(n, align, false);
}
API void *memalign(size_t align, size_t n) {
  return arena_alloc(n, align, false);
}
API void *valloc(size_t n) { return arena_alloc(n, 4096, false); }
API void *pvalloc(size_t n) {
  return arena_alloc((n + 4095) & ~4095ULL, 4096, false);
}
API size_t malloc_usable_size(void *p) {
  return p && in_arena((uptr)p) ? hdr(p)->size : 0;
}

// The glue between Python and the code under test is not subject to faults.
API int sim_glue(int on) {
  int before = tl_glue;
  tl_glue = on;
  return before;
}

static void *op_new(size_t n, size_t align, const void *pc, bool nothrow) {
  if (unlikely(g_count_allocs) && alloc_should_fail(pc, in_code(pc))) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void *p = arena_alloc(n, align, false);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  hdr(p)->magic = kMagicNew;
  a_live++;
  return p;
}
#define VIS __attribute__((visibility("default")))
VIS void *operator new(size_t n) { return op_new(n, 16, RET, false); }
VIS void *operator new[](size_t n) { return op_new(n, 16, RET, false); }
VIS void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return op_new(n, 16, RET, true);
}
VIS void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return op_new(n, 16, RET, true);
}
VIS void *operator new(size_t n, std::align_val_t a) {
  return op_new(n, (size_t)a, RET, false);
}
VIS void *operator new[](size_t n, std::align_val_t a) {
  return op_new(n, (size_t)a, RET, false);
}
static void op_delete(void *p, const void *pc) {
  if (!p) return;
  if (in_arena((uptr)p))
    arena_free(p, pc);
  else
    __libc_free(p);
}
VIS void operator delete(void *p) noexcept { op_delete(p, RET); }
VIS void operator delete[](void *p) noexcept { op_delete(p, RET); }
VIS void operator delete(void *p, size_t) noexcept { op_delete(p, RET); }
VIS void operator delete[](void *p, size_t) noexcept { op_delete(p, RET); }
VIS void operator delete(void *p, std::align_val_t) noexcept {
  op_delete(p, RET);
}
VIS void operator delete[](void *p, std::align_val_t) noexcept {
  op_delete(p, RET);
}
VIS void operator delete(void *p, size_t, std::align_val_t) noexcept {
  op_delete(p, RET);
}
VIS void operator delete[](void *p, size_t, std::align_val_t) noexcept {
  op_delete(p, RET);
}

// ===========================================================================
// ThreadSanitizer instrumentation callbacks
#define RW(n)                                                            \
  API void __tsan_read##n(void *a) { access((uptr)a, n, false, RET); }   \
  API void __tsan_write##n(void *a) { access((uptr)a, n, true, RET); }   \
  API void __tsan_read_write##n(void *a) {                               \
    access((uptr)a, n, false, RET);                                      \
    access((uptr)a, n, true, RET);                                       \
  }                                                                      \
  API void __tsan_volatile_read##n(void *a) {                            \
    access((uptr)a, n, false, RET);                                      \
  }                                                                      \
  API void __tsan_volatile_write##n(void *a) {                           \
    access((uptr)a, n, true, RET);                                       \
  }                                                                      \
  API void __tsan_unaligned_read##n(void *a) {                           \
    access((uptr)a, n, false, RET);                                      \
  }                                                                      \
  API void __tsan_unaligned_write##n(void *a) {                          \
    access((uptr)a, n, true, RET);                                       \
  }                                                                      \
  API void __tsan_unaligned_read_write##n(void *a) {                     \
    access((uptr)a, n, false, RET);                                      \
    access((uptr)a, n, true, RET);                                       \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)

API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
API void __tsan_ignore_thread_begin() {}
API void __tsan_ignore_thread_end() {}
API void __tsan_read_range(void *a, size_t n) {
  if (n) access((uptr)a, n, false, RET);
}
API void __tsan_write_range(void *a, size_t n) {
  if (n) access((uptr)a, n, true, RET);
}
API void __tsan_vptr_read(void **a) { access((uptr)a, 8, false, RET); }
API void __tsan_vptr_update(void **a, void *v) {
  if (*a == v) {
    access((uptr)a, 8, false, RET);
    return;
  }
  access((uptr)a, 8, true, RET);
}
API void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    access((uptr)s, n, false, RET);
    access((uptr)d, n, true, RET);
  }
  return memcpy(d, s, n);
}
API void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) {
    access((uptr)s, n, false, RET);
    access((uptr)d, n, true, RET);
  }
  return memmove(d, s, n);
}
API void *__tsan_memset(void *d, int v, size_t n) {
  if (n) access((uptr)d, n, true, RET);
  return memset(d, v, n);
}

// Atomic operations: scheduling points; every one acquires and releases.
static inline void atomic_op(const volatile void *a, unsigned size, bool rd,
                             bool wr, const void *pc) {
  if (in_arena((uptr)a) && g_check) heap_access((uptr)a, size, pc);
  if (!g_par) return;
  Thr *t = tl;
  if (!t || t->exiting) return;
  event(t, pc);
  if (rd) acquire((const void *)a);
  race_access((uptr)a, size, wr, true, pc);
  if (wr) release((const void *)a);
}
#define ATOMIC(bits, ty)                                                      \
  API ty __tsan_atomic##bits##_load(const volatile ty *a, int) {              \
    atomic_op(a, bits / 8, true, false, RET);                                 \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                              \
  }                                                                           \
  API void __tsan_atomic##bits##_store(volatile ty *a, ty v, int) {           \
    atomic_op(a, bits / 8, false, true, RET);                                 \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                 \
  }                                                                           \
  API ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int) {          \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                       \
  }                                                                           \
  API ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int) {         \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                           \
  API ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int) {         \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                           \
  API ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int) {         \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                           \
  API ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int) {          \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                           \
  API ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int) {         \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                           \
  API ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int) {        \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                       \
  }                                                                           \
  API int __tsan_atomic##bits##_compare_exchange_strong(                      \
      volatile ty *a, ty *c, ty v, int, int) {                                \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,      \
                                       __ATOMIC_SEQ_CST);                     \
  }                                                                           \
  API int __tsan_atomic##bits##_compare_exchange_weak(                        \
      volatile ty *a, ty *c, ty v, int, int) {                                \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,      \
                                       __ATOMIC_SEQ_CST);                     \
  }                                                                           \
  API ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c,     \
                                                    ty v, int, int) {         \
    atomic_op(a, bits / 8, true, true, RET);                                  \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,            \
                                __ATOMIC_SEQ_CST);                            \
    return c;                                                                 \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
API void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
API void __tsan_atomic_signal_fence(int) {}

// ===========================================================================
// Threads
API int pthread_create(pthread_t *out, const pthread_attr_t *attr,
                       void *(*fn)(void *), void *arg) {
  ensure();
  Thr *self = tl;
  if (!g_active || !self) return real.create(out, attr, fn, arg);
  uint64_t n = g_thread_n++;
  S->creations = g_thread_n;
  if (!g_nofault &&
      (((int64_t)n >= C.thread_from && (int64_t)n < C.thread_to) ||
       (C.thread_limit > 0 && g_live >= C.thread_limit))) {
    S->thread_fail++;
    mix(0x7EAD0000 + n);
    if (g_par) event(self, RET);
    return EAGAIN;
  }
  Thr *t = nullptr;
  for (int i = 1; i < kMaxT && !t; ++i)
    if (T[i].st == FREE) t = &T[i];
  if (!t) {
    S->thread_fail++;
    return EAGAIN;
  }
  uint32_t own = t->vc[t->slot];
  memcpy(t->vc, self->vc, sizeof(t->vc));
  t->vc[t->slot] = own + 1;
  self->vc[self->slot]++;
  t->uid = ++g_next_uid;
  t->st = RUNNABLE;
  t->obj = nullptr;
  t->timed = t->timedout = false;
  t->go = 0;
  t->nev = 0;
  t->prio = (int64_t)(R.next() >> 20) + (1LL << 40);
  t->detached = t->exiting = false;
  t->fn = fn;
  t->arg = arg;
  t->reap = nullptr;
  t->dec_pos = 0;
  if (C.mode == 2) load_next_dec(t);
  bool det = false;
  size_t want = 8 << 20;
  if (attr) {
    int d = 0;
    pthread_attr_getdetachstate(attr, &d);
    det = d == PTHREAD_CREATE_DETACHED;
    size_t n = 0;
    if (pthread_attr_getstacksize(attr, &n) == 0 && n > want) want = n;
    if (want > kStackSize - 65536) want = kStackSize - 65536;
  }
  t->detached = det;
  if (!g_stacks) {
    void *p = mmap((void *)kStacks, kStackSize * kMaxT, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       MAP_FIXED_NOREPLACE,
                   -1, 0);
    if (p != (void *)kStacks) die(99);
    g_stacks = true;
  }
  pthread_attr_t own_attr;
  pthread_attr_init(&own_attr);
  pthread_attr_setstack(
      &own_attr, (void *)(kStacks + kStackSize * (t->slot + 1) - want), want);
  int rc = real.create(&t->rl, &own_attr, trampoline, t);
  pthread_attr_destroy(&own_attr);
  if (rc) {
    t->st = FREE;
    return rc;
  }
  t->has_rl = true;
  *out = t->rl;
  g_live++;
  S->threads++;
  if ((uint64_t)g_live > S->maxlive) S->maxlive = g_live;
  if (!g_par) {  // everything before is ordered before the new thread
    c_gen++;
    c_used = 0;
  }
  update_par();
  if (C.mode == 1 && C.pct_len == 0) C.pct_len = 2000;
  event(self, RET);
  return 0;
}

API int pthread_join(pthread_t th, void **ret) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.join(th, ret);
  Thr *o = by_pthread(th);
  if (!o) return real.join(th, ret);
  if (o == t) return EDEADLK;
  while (o->st != FINISHED) block(t, o, -1, RET);
  vc_max(t->vc, o->vc);
  if (ret) *ret = o->ret;
  o->st = FREE;
  if (!g_par) {
    c_gen++;
    c_used = 0;
  }
  return 0;
}

API int pthread_detach(pthread_t th) {
  ensure();
  Thr *t = tl;
  if (!t || !g_active) return real.detach(th);
  Thr *o = by_pthread(th);
  if (!o) return real.detach(th);
  o->detached = true;
  if (o->st == FINISHED) o->st = FREE;
  return 0;
}

API int pthread_mutex_lock(pthread_mutex_t *m) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.mlock(m);
  for (;;) {
    int rc = real.mtrylock(m);
    if (rc != EBUSY) {
      acquire(m);
      return rc;
    }
    block(t, m, -1, RET);
  }
}
API int pthread_mutex_trylock(pthread_mutex_t *m) {
  ensure();
  Thr *t = sync_point(RET);
  int rc = real.mtrylock(m);
  if (t && rc == 0) acquire(m);
  return rc;
}
API int pthread_mutex_unlock(pthread_mutex_t *m) {
  ensure();
  Thr *t = tl;
  if (!t || !g_active || t->exiting) return real.munlock(m);
  release(m);
  int rc = real.munlock(m);
  wake(m, -1);
  if (g_par) event(t, RET);
  return rc;
}

static int cond_wait(Thr *t, pthread_cond_t *c, pthread_mutex_t *m,
                     const struct timespec *ts, const void *pc) {
  release(m);
  real.munlock(m);
  wake(m, -1);
  bool to = block(t, c, ts ? abs_to_virtual(ts) : -1, pc);
  acquire(c);
  for (;;) {
    int rc = real.mtrylock(m);
    if (rc != EBUSY) break;
    block(t, m, -1, pc);
  }
  acquire(m);
  return to ? ETIMEDOUT : 0;
}
API int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.cwait(c, m);
  return cond_wait(t, c, m, nullptr, RET);
}
API int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                               const struct timespec *ts) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.ctimedwait(c, m, ts);
  return cond_wait(t, c, m, ts, RET);
}
API int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                               clockid_t k, const struct timespec *ts) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.cclockwait(c, m, k, ts);
  return cond_wait(t, c, m, ts, RET);
}
API int pthread_cond_signal(pthread_cond_t *c) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.csignal(c);
  release(c);
  wake(c, 1);
  return 0;
}
API int pthread_cond_broadcast(pthread_cond_t *c) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.cbroadcast(c);
  release(c);
  wake(c, -1);
  return 0;
}

static int sem_wait_sim(Thr *t, sem_t *s, const struct timespec *ts,
                        const void *pc) {
  for (;;) {
    if (real.strywait(s) == 0) {
      acquire(s);
      return 0;
    }
    if (block(t, s, ts ? abs_to_virtual(ts) : -1, pc)) {
      errno = ETIMEDOUT;
      return -1;
    }
  }
}
API int sem_wait(sem_t *s) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.swait(s);
  return sem_wait_sim(t, s, nullptr, RET);
}
API int sem_trywait(sem_t *s) {
  ensure();
  Thr *t = sync_point(RET);
  int rc = real.strywait(s);
  if (t && rc == 0) acquire(s);
  return rc;
}
API int sem_timedwait(sem_t *s, const struct timespec *ts) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.stimedwait(s, ts);
  return sem_wait_sim(t, s, ts, RET);
}
API int sem_clockwait(sem_t *s, clockid_t k, const struct timespec *ts) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.sclockwait(s, k, ts);
  return sem_wait_sim(t, s, ts, RET);
}
API int sem_post(sem_t *s) {
  ensure();
  Thr *t = sync_point(RET);
  if (t) release(s);
  int rc = real.spost(s);
  if (t) wake(s, -1);
  return rc;
}

static int rw_lock(Thr *t, pthread_rwlock_t *l, bool wr, const void *pc) {
  for (;;) {
    int rc = wr ? real.trywrlock(l) : real.tryrdlock(l);
    if (rc != EBUSY) {
      acquire(l);
      return rc;
    }
    block(t, l, -1, pc);
  }
}
API int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  ensure();
  Thr *t = sync_point(RET);
  return t ? rw_lock(t, l, false, RET) : real.rdlock(l);
}
API int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  ensure();
  Thr *t = sync_point(RET);
  return t ? rw_lock(t, l, true, RET) : real.wrlock(l);
}
API int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  ensure();
  Thr *t = sync_point(RET);
  int rc = real.tryrdlock(l);
  if (t && rc == 0) acquire(l);
  return rc;
}
API int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  ensure();
  Thr *t = sync_point(RET);
  int rc = real.trywrlock(l);
  if (t && rc == 0) acquire(l);
  return rc;
}
API int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  ensure();
  Thr *t = tl;
  if (!t || !g_active || t->exiting) return real.rwunlock(l);
  release(l);
  int rc = real.rwunlock(l);
  wake(l, -1);
  if (g_par) event(t, RET);
  return rc;
}

// A once-control is kept in glibc's format: 0 new, 1 running, 2 done.
API int pthread_once(pthread_once_t *o, void (*fn)()) {
  ensure();
  Thr *t = sync_point(RET);
  volatile int *v = (volatile int *)o;
  if (!t) return real.once(o, fn);
  for (;;) {
    if (*v == 2) {
      acquire((void *)o);
      return 0;
    }
    if (*v == 0) {
      *v = 1;
      try {
        fn();
      } catch (...) {
        *v = 0;
        wake((void *)o, -1);
        throw;
      }
      *v = 2;
      release((void *)o);
      wake((void *)o, -1);
      return 0;
    }
    block(t, (void *)o, -1, RET);
  }
}

// Guards of function-local statics (Itanium C++ ABI; byte 0: initialised,
// byte 1: in progress).
extern "C" VIS int __cxa_guard_acquire(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  Thr *t = g_active ? tl : nullptr;
  if (t && g_par && !t->exiting) event(t, RET);
  for (;;) {
    if (b[0]) {
      if (t) acquire(g);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (t)
      block(t, g, -1, RET);
    else
      sched_yield();
  }
}
extern "C" VIS void __cxa_guard_release(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  Thr *t = g_active ? tl : nullptr;
  if (t) release(g);
  b[1] = 0;
  b[0] = 1;
  if (t) wake(g, -1);
}
extern "C" VIS void __cxa_guard_abort(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  b[1] = 0;
  if (g_active && tl) wake(g, -1);
}

API int sched_yield() {
  ensure();
  Thr *t = tl;
  if (!t || !g_par || t->exiting) return real.yield();
  event(t, RET);
  t->nev++;
  if (C.mode == 2) {
    replay_point(t, RET);
  } else if (C.mode != 3) {
    Thr *l[kMaxT];
    int n = runnable_list(l, false), m = 0;
    for (int i = 0; i < n; ++i)
      if (l[i] != t) l[m++] = l[i];
    if (m) preempt_to(t, l[R.below(m)], RET);
  }
  return 0;
}

// Waiting on atomics (std::future, std::latch...) goes through syscall().
API long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  Thr *t = tl;
  if (n == SYS_futex && t && g_active && !t->exiting) {
    int op = (int)b & 127;
    int *addr = (int *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (g_par) event(t, RET);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      int64_t dl = -1;
      if (d) {
        const struct timespec *ts = (const struct timespec *)d;
        dl = op == FUTEX_WAIT
                 ? g_vt + ts->tv_sec * 1000000000LL + ts->tv_nsec
                 : abs_to_virtual(ts);
      }
      bool to = block(t, addr, dl, RET);
      acquire(addr);
      if (to) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      if (g_par) event(t, RET);
      release(addr);
      wake(addr, (int)c);
      return 1;
    }
  }
  long rc = raw_syscall(n, a, b, c, d, e, f);
  if (rc < 0 && rc > -4096) {
    errno = (int)-rc;
    return -1;
  }
  return rc;
}

// ===========================================================================
// Time and processors
API void sim_calendar(int64_t seconds) { g_calendar = seconds; }
static void vt_to(clockid_t k, struct timespec *ts) {
  int64_t base = k == CLOCK_REALTIME ? 1600000000LL + g_calendar : 1000;
  ts->tv_sec = base + g_vt / 1000000000LL;
  ts->tv_nsec = g_vt % 1000000000LL;
}
API int clock_gettime(clockid_t k, struct timespec *ts) {
  ensure();
  if (g_active && tl) {
    g_vt += 100;
    vt_to(k, ts);
    return 0;
  }
  return real.clock_gettime(k, ts);
}
API int gettimeofday(struct timeval *tv, void *z) {
  ensure();
  if (g_active && tl) {
    struct timespec ts;
    vt_to(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  return real.gettimeofday(tv, z);
}
API time_t time(time_t *out) {
  ensure();
  if (g_active && tl) {
    time_t v = 1600000000LL + g_calendar + g_vt / 1000000000LL;
    if (out) *out = v;
    return v;
  }
  return real.time(out);
}
static void sleep_sim(Thr *t, int64_t until, const void *pc) {
  static int dummy;
  block(t, &dummy, until, pc);
}
API int nanosleep(const struct timespec *ts, struct timespec *rem) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.nanosleep(ts, rem);
  sleep_sim(t, g_vt + ts->tv_sec * 1000000000LL + ts->tv_nsec, RET);
  return 0;
}
API int clock_nanosleep(clockid_t k, int fl, const struct timespec *ts,
                        struct timespec *rem) {
  ensure();
  Thr *t = sync_point(RET);
  if (!t) return real.clock_nanosleep(k, fl, ts, rem);
  sleep_sim(t,
            fl & TIMER_ABSTIME
                ? abs_to_virtual(ts)
                : g_vt + ts->tv_sec * 1000000000LL + ts->tv_nsec,
            RET);
  return 0;
}
API int get_nprocs() {
  ensure();
  if (g_active) return (int)C.cores;
  return real.nprocs ? real.nprocs() : 1;
}
API int get_nprocs_conf() { return get_nprocs(); }
API long sysconf(int name) {
  ensure();
  if (g_active && C.cores &&
      (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF))
    return (long)C.cores;
  return real.sysconf(name);
}
API int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  ensure();
  if (g_active && C.cores) {
    memset(s, 0, n);
    for (uint32_t i = 0; i < C.cores && i < n * 8; ++i) CPU_SET_S(i, n, s);
    return 0;
  }
  return real.getaffinity(p, n, s);
}

// ===========================================================================
// Control interface (called by the harness)
API uint64_t sim_shared_size() { return sizeof(Shared); }
API void sim_set_shared(void *p) { S = (Shared *)p; }
API void *sim_shared() { return S; }
API void sim_module(uint64_t lo, uint64_t hi) {
  mod_lo = lo;
  mod_hi = hi;
}
API void sim_set_replay(Decision *d, uint32_t n) {
  replay_dec = d;
  replay_n = n;
}
API void sim_check(int on) { g_check = on; }
API uint64_t sim_live_blocks() { return a_live + a_live_code; }
API uint64_t sim_total_blocks() { return a_total; }
API void sim_alloc_window(int on) {
  if (on) {
    g_alloc_n = 0;
    S->allocs = 0;
  }
  g_count_allocs = on;
}
API void sim_nofault(int on) { g_nofault = on; }

API int sim_begin(const Config *c) {
  C = *c;
  R.s = C.seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
  S->session++;
  for (int i = 0; i < kMaxT; ++i) {
    T[i].slot = i;
    T[i].st = FREE;
    T[i].uid = 0;
    memset(T[i].vc, 0, sizeof(T[i].vc));
  }
  c_gen++;
  c_used = 0;
  s_used = 0;
  Thr *m = &T[0];
  m->st = RUNNABLE;
  m->uid = 0;
  m->nev = 0;
  m->go = 0;
  m->vc[0] = 1;
  m->exiting = m->detached = m->has_rl = false;
  m->timed = false;
  m->reap = nullptr;
  m->obj = nullptr;
  m->dec_pos = 0;
  g_next_uid = 0;
  g_live = 1;
  g_sess_steps = 0;
  g_same = 0;
  g_vt = g_calendar = 0;
  g_prio_low = 0;
  g_alloc_n = g_thread_n = 0;
  S->creations = S->allocs = 0;
  g_ending = false;
  m->prio = (int64_t)(R.next() >> 20) + (1LL << 40);
  if (C.mode == 1) {
    g_ncp = C.pct_depth > 60 ? 60 : C.pct_depth;
    g_icp = 0;
    uint64_t len = C.pct_len ? C.pct_len : 2000;
    for (uint32_t i = 0; i < g_ncp; ++i) {
      // log-uniform, so that runs of very different lengths are covered
      uint64_t span = len;
      for (uint64_t k = R.below(6); k > 0 && span > 20; --k) span /= 3;
      g_cp[i] = 1 + R.below(span);
    }
    for (uint32_t i = 1; i < g_ncp; ++i)
      for (uint32_t j = i; j > 0 && g_cp[j] < g_cp[j - 1]; --j) {
        uint64_t x = g_cp[j];
        g_cp[j] = g_cp[j - 1];
        g_cp[j - 1] = x;
      }
  }
  draw_countdown();
  mix(C.seed);
  tl = m;
  g_active = true;
  update_par();
  if (C.mode == 2) load_next_dec(m);
  return 0;
}

API void sim_max_alloc(uint64_t n) { a_max = n; }

API void sim_epoch() { arena_epoch(); }

// Ends the session: waits until the other simulated threads have ended.
API int sim_end() {
  Thr *m = tl;
  if (!g_active || !m) return -1;
  g_ending = true;
  while (g_live > 1) {
    m->st = BLOCKED;
    m->obj = (void *)&g_ending;
    m->timed = false;
    m->nev++;
    forced_switch(m, nullptr);
    if (S->status == 3) break;
  }
  mix(g_sess_steps);
  mix(m->nev);
  g_active = false;
  g_count_allocs = false;
  update_par();
  g_par = false;
  tl = nullptr;
  g_ending = false;
  return (int)S->status;
}
