// Scheduler: real threads, one runs at a time, the seeded policy decides which.
// Also the OpenMP runtime, pthread synchronisation and the happens-before race
// detector fed by the compiler's -fsanitize=thread instrumentation.
#include "rt.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>

G g;
bool g_conc = false, g_race = false;

struct VC {
  uint32_t c[SIM_MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < SIM_MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Task;
struct Group { int n = 0; VC vc; Group* up = nullptr; };
struct Task {
  void (*fn)(void*) = nullptr; char* buf = nullptr; char* data = nullptr;
  Task* parent = nullptr; Group* group = nullptr; int nchild = 0; int refs = 1; VC start, done;
};
struct WS {
  bool init = false; long next = 0, start = 0, end = 0, incr = 1, chunk = 1; int sched = 0;
  long ord_cur = 0; std::map<long, long> ord_done; bool ordered = false;
  int arrived = 0; void* copyptr = nullptr; int sect = 0, nsect = 0; VC ord_vc;
};
struct Thr;
struct Team {
  int n = 1; int level = 1; int active_level = 1; Thr* th[SIM_MAXT]; int remaining = 0;
  int bar_arrived = 0; uint64_t bar_gen = 0; VC bar_vc, bar_out;
  std::map<uint64_t, WS> ws; std::deque<Task*> q; int running_tasks = 0; VC task_vc;
  void (*fn)(void*) = nullptr; void* arg = nullptr;
};
enum { ST_RUN, ST_BLOCKED, ST_IDLE, ST_DONE };
struct Frame {                      // per team membership state of a thread
  Team* team = nullptr; int num = 0; uint64_t wsn = 0; WS* ws = nullptr; long pos = 0; long cs = 0, ce = 0; bool have = false;
  Task* task = nullptr; Task root; Group* group = nullptr;
  uint64_t single = 0;
};
struct Thr {
  int id = 0; pthread_t pt; std::atomic<int> fut{0}; int st = ST_RUN; const void* wait = nullptr;
  bool timed = false, timedout = false;
  VC vc; std::vector<Frame> fr; std::vector<Thr*> pool; int nthreads_var = 0;
  void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
  void (*job)(Thr*) = nullptr; Team* jteam = nullptr; int jnum = 0; void (*cfn)(void*) = nullptr; void* carg = nullptr;
  bool joined = false, detached = false; bool real_lib = false;
  uint32_t pri = 0; bool caller = false;
};

static Thr* T[SIM_MAXT]; static int nT = 0;
static Thr* volatile g_cur = nullptr;
static __thread Thr* me = nullptr;
static int64_t budget = 1; static int64_t given = 0; 
static Rng srng(1);
static uint64_t last_switch_step = 0;
static std::vector<uint64_t> pct_pts; static size_t pct_i; static uint32_t pct_low;
static int exp_i;
static const int64_t FAIR = 300000;
static uint64_t race_gen = 0;
static int live = 1;
static uint64_t acc_count = 0; static const uint64_t ACC_CAP = 600000000ull;
static std::map<uintptr_t, VC> sync_vc;
struct Lock { Thr* owner = nullptr; int count = 0; VC vc; };
static std::map<const void*, Lock> locks;

int sched_tid() { return me ? me->id : 0; }

static int real_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  static auto p = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  return p(t, a, f, x);
}

static void park(Thr* t) {
  while (t->fut.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, (int*)&t->fut, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  t->fut.store(0, std::memory_order_relaxed);
}
static void unpark(Thr* t) {
  t->fut.store(1, std::memory_order_release);
  syscall(SYS_futex, (int*)&t->fut, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void recount() {
  int r = 0; for (int i = 0; i < nT; i++) if (T[i]->st == ST_RUN) r++;
  g_conc = r > 1;
}
static void fold() { g.shm->steps += (given - budget); given = budget; }
static void give(int64_t n) {
  if (n < 1) n = 1;
  if (n > FAIR) n = FAIR;
  given = budget = n;
}
static uint64_t geo(uint64_t mean) {
  if (mean <= 1) return 1;
  // geometric-like: sum of two uniforms keeps the mean and is exactly reproducible
  return 1 + srng.below(mean) + srng.below(mean);
}
static void new_budget() {
  SimKnobs& k = g.shm->k;
  switch (k.policy) {
    case POL_RANDOM: {
      uint64_t gap = k.gap > 0 ? k.gap : 1;
      if (g.shm->nswitch > 1500) gap *= 20; else if (g.shm->nswitch > 500) gap *= 4;
      give(geo(gap)); break;
    }
    case POL_RR: give(k.rr_q > 0 ? (g.shm->nswitch > 1500 ? k.rr_q * 30 : k.rr_q) : 1); break;
    case POL_PCT: {
      uint64_t s = g.shm->steps;
      while (pct_i < pct_pts.size() && pct_pts[pct_i] <= s) pct_i++;
      give(pct_i < pct_pts.size() ? (int64_t)(pct_pts[pct_i] - s) : FAIR); break;
    }
    case POL_EXPLICIT: {
      uint64_t s = g.shm->steps;
      give(exp_i < g.shm->nexp && g.shm->exp[exp_i].step > s ? (int64_t)(g.shm->exp[exp_i].step - s) : (exp_i < g.shm->nexp ? 1 : FAIR)); break;
    }
    default: give(FAIR);
  }
}
static Thr* nth_runnable(uint64_t k) {
  for (int i = 0; i < nT; i++) if (T[i]->st == ST_RUN) { if (k == 0) return T[i]; k--; }
  return nullptr;
}
static int n_runnable() { int r = 0; for (int i = 0; i < nT; i++) if (T[i]->st == ST_RUN) r++; return r; }
static Thr* next_after(int id) {
  for (int d = 1; d <= nT; d++) { Thr* t = T[(id + d) % nT]; if (t->st == ST_RUN) return t; }
  return nullptr;
}
static Thr* best_pri() {
  Thr* b = nullptr;
  for (int i = 0; i < nT; i++) if (T[i]->st == ST_RUN && (!b || T[i]->pri > b->pri)) b = T[i];
  return b;
}
static void log_switch(Thr* to, bool forced) {
  SimShared* s = g.shm;
  s->nswitch++;
  s->sched_hash = (s->sched_hash ^ (s->steps * 31 + to->id + 7)) * 0x100000001b3ull;
  if (s->nsw < SIM_MAXSWITCH) { s->sw[s->nsw].step = s->steps; s->sw[s->nsw].tid = to->id; s->sw[s->nsw].forced = forced; s->nsw++; }
}
// hand the baton to t (t != me)
static void transfer(Thr* t, bool wait) {
  Thr* self = me;
  g_cur = t;
  unpark(t);
  if (wait) park(self);
}
static Thr* explicit_pick(uint64_t step) {
  SimShared* s = g.shm;
  while (exp_i < s->nexp && s->exp[exp_i].step <= step) {
    int tid = s->exp[exp_i].tid; exp_i++;
    if (tid >= 0 && tid < nT && T[tid]->st == ST_RUN) return T[tid];
  }
  return nullptr;
}
static void deadlock() {
  char b[600]; int n = snprintf(b, sizeof b, "no thread can run:");
  for (int i = 0; i < nT; i++) n += snprintf(b + n, sizeof b - n, " t%d=%s", i, T[i]->st == ST_BLOCKED ? "blocked" : T[i]->st == ST_IDLE ? "idle" : "done");
  snprintf(g.shm->msg, SIM_MSGCAP, "%s", b); strcpy(g.shm->vclass, "deadlock");
  sim_die(END_DEADLOCK);
}
static Thr* pick_forced() {
  SimKnobs& k = g.shm->k;
  if (!n_runnable()) {
    // let simulated time pass: timed waiters time out
    for (int i = 0; i < nT; i++) if (T[i]->st == ST_BLOCKED && T[i]->timed) { T[i]->timedout = true; T[i]->st = ST_RUN; g.clock_us += 1000000; return T[i]; }
    deadlock();
  }
  switch (k.policy) {
    case POL_RANDOM: case POL_SYNC: return nth_runnable(srng.below(n_runnable()));
    case POL_PCT: return best_pri();
    case POL_EXPLICIT: { Thr* t = explicit_pick(g.shm->steps); return t ? t : nth_runnable(0); }
    case POL_SERIAL: return (k.sched_seed & 1) ? nth_runnable(n_runnable() - 1) : nth_runnable(0);
    default: return next_after(me->id);
  }
}
static void slow_yield(bool sync) {
  // budget used up (or synchronisation point under POL_SYNC)
  fold();
  SimShared* s = g.shm; SimKnobs& k = s->k;
  if (s->steps > 400000000ull) { strcpy(s->vclass, "livelock"); snprintf(s->msg, SIM_MSGCAP, "no completion within %llu steps", (unsigned long long)s->steps); sim_die(END_STEPCAP); }
  Thr* t = nullptr;
  if (k.policy == POL_EXPLICIT) t = explicit_pick(s->steps);
  bool fair = !t && s->steps - last_switch_step >= (uint64_t)FAIR;
  if (!t) {
    if (fair) { t = next_after(me->id); if (k.policy == POL_PCT) me->pri = --pct_low; }
    else switch (k.policy) {
      case POL_RANDOM: t = nth_runnable(srng.below(n_runnable())); break;
      case POL_SYNC: t = sync ? nth_runnable(srng.below(n_runnable())) : me; break;
      case POL_RR: t = next_after(me->id); break;
      case POL_PCT:
        if (pct_i < pct_pts.size() && pct_pts[pct_i] <= s->steps) { pct_i++; me->pri = --pct_low; }
        t = best_pri(); break;
      default: t = me;
    }
  }
  new_budget();
  if (t && t != me) {
    last_switch_step = s->steps;
    log_switch(t, false);
    transfer(t, true);
  }
}
static inline void yield_mem() { if (--budget <= 0) slow_yield(false); }
void yield_sync() {
  if (!g.active || !me) return;
  if (!g_conc) return;
  if (g.shm->k.policy == POL_SYNC) { budget--; slow_yield(true); }
  else yield_mem();
}
static void block(const void* obj) {
  me->st = ST_BLOCKED; me->wait = obj; recount();
  fold();
  Thr* t = pick_forced(); recount();
  if (t == me) { return; }
  last_switch_step = g.shm->steps; log_switch(t, true); new_budget();
  transfer(t, true);
}
static void wake(const void* obj) {
  for (int i = 0; i < nT; i++) if (T[i]->st == ST_BLOCKED && T[i]->wait == obj) { T[i]->st = ST_RUN; T[i]->wait = nullptr; T[i]->timed = false; }
  recount();
}
static void wake_one(const void* obj) {
  for (int i = 0; i < nT; i++) if (T[i]->st == ST_BLOCKED && T[i]->wait == obj) { T[i]->st = ST_RUN; T[i]->wait = nullptr; T[i]->timed = false; break; }
  recount();
}
static void set_live(int d) {
  bool was = live > 1; live += d; bool is = live > 1;
  if (is && !was) race_gen++;
  g_race = is;
}

static void* thr_main(void* p) {
  Thr* t = (Thr*)p; me = t;
  park(t);
  if (t->start) {                    // pthread created by the library under test
    t->ret = t->start(t->arg);
    t->vc.c[t->id]++;
    t->st = ST_DONE; set_live(-1); wake(t);
    fold(); Thr* n = pick_forced(); recount();
    last_switch_step = g.shm->steps; log_switch(n, true); new_budget();
    void* r = t->ret;
    transfer(n, false);
    return r;
  }
  for (;;) {
    t->job(t);
    // job ended: idle until the next one
    t->st = ST_IDLE; recount();
    fold(); Thr* n = pick_forced(); recount();
    last_switch_step = g.shm->steps; log_switch(n, true); new_budget();
    transfer(n, true);
  }
}
static Thr* new_thr() {
  if (nT >= SIM_MAXT) sim_internal("too many threads");
  Thr* t = new Thr; t->id = nT; T[nT++] = t;
  t->fr.reserve(16);
  t->nthreads_var = g.shm->k.maxthreads;
  t->pri = 1000 + (uint32_t)srng.below(1000000);
  t->vc.c[t->id] = 1;
  return t;
}
static void spawn_real(Thr* t) {
  pthread_attr_t a; pthread_attr_init(&a);
  size_t sz = 1 << 20;
  void* st = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memset((char*)st + sz - 65536, g.shm->k.stackfill, 65536 - 4096);
  pthread_attr_setstack(&a, st, sz);
  if (real_create(&t->pt, &a, thr_main, t)) sim_internal("pthread_create");
  pthread_attr_destroy(&a);
}

void sched_life_begin() {
  for (int i = 0; i < SIM_MAXT; i++) T[i] = nullptr;
  nT = 0; live = 1; g_conc = g_race = false; locks.clear(); sync_vc.clear();
  SimKnobs& k = g.shm->k;
  srng = Rng(k.sched_seed * 0x9E37 + 17);
  exp_i = 0; pct_pts.clear(); pct_i = 0; pct_low = 900;
  if (k.policy == POL_PCT) {
    std::set<uint64_t> s; for (int i = 0; i < k.pct_d; i++) s.insert(1 + srng.below(k.pct_k > 0 ? k.pct_k : 20000));
    pct_pts.assign(s.begin(), s.end());
  }
  Thr* t = new_thr(); me = t; g_cur = t; t->pt = pthread_self();
  t->fr.emplace_back(); Frame& f = t->fr.back(); f.team = nullptr;
  new_budget();
}
void sched_life_end() { if (g.shm) { fold(); g.shm->accesses = acc_count; } }

// ---------------------------------------------------------------- race shadow
struct Ext { uint32_t rclk[SIM_MAXT], wclk[SIM_MAXT], pc[SIM_MAXT]; uint8_t rm[SIM_MAXT], wm[SIM_MAXT]; };
struct Cell { uintptr_t key; uint32_t gen; uint16_t owner; uint8_t rm, wm; uint32_t rclk, wclk, pc; int32_t ext; };
static const uint32_t NCELL = 1u << 19;
static Cell* cells; static Ext* exts; static int nexts; static uint32_t cells_gen = 0; static uint32_t ncells;
static const int NEXT = 1 << 17;

static void shadow_alloc() {
  if (cells) return;
  cells = (Cell*)mmap(nullptr, sizeof(Cell) * (size_t)NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  exts = (Ext*)mmap(nullptr, sizeof(Ext) * (size_t)NEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static Cell* cell_for(uintptr_t key, bool create) {
  if (cells_gen != (uint32_t)race_gen) { cells_gen = (uint32_t)race_gen; nexts = 0; ncells = 0; }
  uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 40) & (NCELL - 1);
  for (;;) {
    Cell& c = cells[h];
    if (c.gen != cells_gen) {
      if (!create || ncells > NCELL * 7 / 10) return nullptr;
      ncells++;
      c.key = key; c.gen = cells_gen; c.owner = 0xffff; c.rm = c.wm = 0; c.rclk = c.wclk = 0; c.ext = -1; c.pc = 0;
      return &c;
    }
    if (c.key == key) return &c;
    h = (h + 1) & (NCELL - 1);
  }
}
static void race_report(uint64_t pc1, int t1, int w1, uint64_t pc2, int t2, int w2) {
  SimShared* s = g.shm;
  for (int i = 0; i < s->nrace; i++) if ((s->race[i].pc1 == pc1 && s->race[i].pc2 == pc2) || (s->race[i].pc1 == pc2 && s->race[i].pc2 == pc1)) return;
  if (s->nrace < SIM_MAXRACE) { SimRace& r = s->race[s->nrace++]; r.pc1 = pc1; r.pc2 = pc2; r.t1 = t1; r.t2 = t2; r.w1 = w1; r.w2 = w2; }
}
static void race_granule(uintptr_t gr, uint8_t mask, bool w, uint32_t pc) {
  Cell* c = cell_for(gr, true);
  if (!c) return;
  int t = me->id; uint32_t clk = me->vc.c[t];
  if (c->ext < 0) {
    if (c->owner == 0xffff) c->owner = t;
    if (c->owner == t) {
      if (w) { if (c->wclk == clk) c->wm |= mask; else { c->wclk = clk; c->wm = mask; } }
      else { if (c->rclk == clk) c->rm |= mask; else { c->rclk = clk; c->rm = mask; } }
      c->pc = pc;
      return;
    }
    int o = c->owner;
    // Ordered handover of a granule: keep one owner
    if ((!c->wm || c->wclk <= me->vc.c[o]) && (!c->rm || c->rclk <= me->vc.c[o])) {
      c->owner = t; c->rm = c->wm = 0; c->rclk = c->wclk = 0;
      if (w) { c->wclk = clk; c->wm = mask; } else { c->rclk = clk; c->rm = mask; }
      c->pc = pc;
      return;
    }
    if (nexts >= NEXT) return;
    c->ext = nexts++; Ext& e = exts[c->ext]; memset(&e, 0, sizeof e);
    e.rclk[o] = c->rclk; e.wclk[o] = c->wclk; e.rm[o] = c->rm; e.wm[o] = c->wm; e.pc[o] = c->pc;
  }
  Ext& e = exts[c->ext];
  for (int u = 0; u < nT; u++) {
    if (u == t) continue;
    if ((e.wm[u] & mask) && e.wclk[u] > me->vc.c[u]) { race_report(e.pc[u], u, 1, pc, t, w); e.wm[u] &= ~mask; }
    if (w && (e.rm[u] & mask) && e.rclk[u] > me->vc.c[u]) { race_report(e.pc[u], u, 0, pc, t, w); e.rm[u] &= ~mask; }
  }
  if (w) { if (e.wclk[t] == clk) e.wm[t] |= mask; else { e.wclk[t] = clk; e.wm[t] = mask; } }
  else { if (e.rclk[t] == clk) e.rm[t] |= mask; else { e.rclk[t] = clk; e.rm[t] = mask; } }
  e.pc[t] = pc;
}
void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!me || !n) return;
  uint32_t off = (uint32_t)(pc - g.repo_lo);
  uintptr_t end = a + n;
  while (a < end) {
    uintptr_t gr = a & ~(uintptr_t)7; unsigned b = a - gr; unsigned cnt = 8 - b; if (cnt > end - a) cnt = end - a;
    race_granule(gr, (uint8_t)(((1u << cnt) - 1) << b), w, off);
    a += cnt;
  }
}
void race_forget(uintptr_t a, size_t n) {
  if (!g_race) return;
  for (uintptr_t gr = a & ~(uintptr_t)7; gr < a + n; gr += 8) {
    Cell* c = cell_for(gr, false);
    if (c) { c->owner = 0xffff; c->rm = c->wm = 0; c->rclk = c->wclk = 0; if (c->ext >= 0) memset(&exts[c->ext], 0, sizeof(Ext)); }
  }
}
static void acc_cap() {
  strcpy(g.shm->vclass, "livelock"); snprintf(g.shm->msg, SIM_MSGCAP, "no completion within %llu memory accesses", (unsigned long long)acc_count);
  sim_die(END_STEPCAP);
}
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!g.in_op) return;
  if (++acc_count > ACC_CAP) acc_cap();
  if (g_conc && me) yield_mem();
  if (in_arena(a)) mem_check(a, n, w, pc);
  if (g_race) race_range(a, n, w, pc);
}
#define RA ((uintptr_t)__builtin_return_address(0))
#define EXP extern "C" __attribute__((visibility("default")))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit() {}
#define ACC(n) \
  EXP void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, RA); } \
  EXP void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, RA); } \
  EXP void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, RA); } \
  EXP void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, RA); } \
  EXP void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, RA); } \
  EXP void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, RA); } \
  EXP void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, false, RA); } \
  EXP void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, true, RA); } \
  EXP void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, false, RA); access((uintptr_t)p, n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXP void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, RA); }
EXP void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, RA); }
EXP void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, RA); }
EXP void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, RA); }

EXP void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); } return memcpy(d, s, n); }
EXP void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); } return memmove(d, s, n); }
EXP void* __wrap_memset(void* d, int c, size_t n) { if (n) access((uintptr_t)d, n, true, RA); return memset(d, c, n); }

// atomics
static void at_acq(uintptr_t a, int mo) { if (me && g.active && mo != 0) { auto it = sync_vc.find(a); if (it != sync_vc.end()) me->vc.join(it->second); } }
static void at_rel(uintptr_t a, int mo) { if (me && g.active && mo >= 3) { sync_vc[a].join(me->vc); me->vc.c[me->id]++; } }
#define ATOM(n, type) \
  EXP type __tsan_atomic##n##_load(const volatile type* a, int mo) { yield_sync(); type v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_acq((uintptr_t)a, mo); return v; } \
  EXP void __tsan_atomic##n##_store(volatile type* a, type v, int mo) { yield_sync(); at_rel((uintptr_t)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_exchange(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_fetch_add(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_fetch_sub(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_fetch_and(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_fetch_or(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_fetch_xor(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXP type __tsan_atomic##n##_fetch_nand(volatile type* a, type v, int mo) { yield_sync(); at_acq((uintptr_t)a, mo); at_rel((uintptr_t)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  EXP int __tsan_atomic##n##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int) { yield_sync(); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_acq((uintptr_t)a, mo ? mo : 0); if (ok) at_rel((uintptr_t)a, mo); return ok; } \
  EXP int __tsan_atomic##n##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, mo, fmo); } \
  EXP type __tsan_atomic##n##_compare_exchange_val(volatile type* a, type e, type v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) { if (me && g.active) { sync_vc[1].join(me->vc); me->vc.join(sync_vc[1]); me->vc.c[me->id]++; } }
EXP void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks
static void lock_obj(const void* o) {
  yield_sync();
  Lock* l = &locks[o];
  while (l->owner && l->owner != me) { block(o); l = &locks[o]; }
  l->owner = me; l->count++;
  me->vc.join(l->vc);
}
static bool trylock_obj(const void* o) {
  yield_sync();
  Lock* l = &locks[o];
  if (l->owner) return false;
  l->owner = me; l->count = 1; me->vc.join(l->vc); return true;
}
static void unlock_obj(const void* o) {
  Lock* l = &locks[o];
  if (--l->count > 0) return;
  l->owner = nullptr; l->vc = me->vc; me->vc.c[me->id]++;
  wake(o);
  yield_sync();
}
static bool on() { return g.active && me; }

// ---------------------------------------------------------------- OpenMP
static Frame& F() { return me->fr.back(); }
static void run_task(Team* tm, Task* t) {
  Frame& f = F(); Task* save = f.task; Group* sg = f.group;
  me->vc.join(t->start); f.task = t; f.group = nullptr; tm->running_tasks++;
  t->fn(t->data);
  tm->running_tasks--;
  Frame& f2 = F(); f2.task = save; f2.group = sg;
  tm->task_vc.join(me->vc);
  if (t->parent) { t->parent->done.join(me->vc); t->parent->nchild--; wake(t->parent); }
  if (t->group) { t->group->vc.join(me->vc); t->group->n--; wake(t->group); }
  me->vc.c[me->id]++;
  ::free(t->buf); delete t;
  wake(&tm->q);
}
static bool pop_and_run(Team* tm) {
  if (tm->q.empty()) return false;
  size_t i = g.shm->k.policy == POL_SERIAL ? 0 : srng.below(tm->q.size());
  Task* t = tm->q[i]; tm->q.erase(tm->q.begin() + i);
  run_task(tm, t);
  return true;
}
static void barrier(Team* tm) {
  yield_sync();
  while (pop_and_run(tm)) yield_sync();
  tm->bar_vc.join(me->vc); me->vc.c[me->id]++;
  uint64_t gen = tm->bar_gen;
  tm->bar_arrived++;
  for (;;) {
    if (tm->bar_gen != gen) break;
    if (!tm->q.empty()) { tm->bar_arrived--; while (pop_and_run(tm)) yield_sync(); tm->bar_vc.join(me->vc); me->vc.c[me->id]++; tm->bar_arrived++; continue; }
    if (tm->bar_arrived == tm->n && tm->running_tasks == 0) {
      tm->bar_out = tm->bar_vc; tm->bar_out.join(tm->task_vc); tm->bar_arrived = 0; tm->bar_gen++;
      wake(&tm->q); break;
    }
    block(&tm->q);
  }
  me->vc.join(tm->bar_out); me->vc.c[me->id]++;
  yield_sync();
}
static int team_size(unsigned req) {
  int want = req ? (int)req : (me->nthreads_var > 0 ? me->nthreads_var : g.shm->k.maxthreads);
  if (me->fr.size() > 1) return 1;           // nested regions are serialised (max_active_levels = 1)
  if (g.shm->k.team > 0 && want > g.shm->k.team) want = g.shm->k.team;
  if (want < 1) want = 1;
  int avail = SIM_MAXT - nT + (int)me->pool.size() + 1;
  return want > avail ? avail : want;
}
static void enter(Team* tm, int num) {
  me->fr.emplace_back(); Frame& f = F(); f.team = tm; f.num = num; f.wsn = 0; f.ws = nullptr; f.task = nullptr;
}
static Task* cur_task() { Frame& f = F(); return f.task ? f.task : &f.root; }
static void omp_job(Thr* t) {
  Team* tm = t->jteam;
  enter(tm, t->jnum);
  tm->fn(tm->arg);
  barrier(tm);
  t->fr.pop_back();
  tm->remaining--; t->vc.c[t->id]++;
  set_live(-1);
  wake(tm);
}
static void run_region(void (*fn)(void*), void* data, unsigned nth, void (*prep)(Team*, void*), void* px) {
  if (!on()) {
    Team* none = nullptr; (void)none;
    fn(data); return;
  }
  Team tm; tm.fn = fn; tm.arg = data; tm.n = team_size(nth);
  tm.level = (int)me->fr.size(); tm.active_level = tm.n > 1;
  g.shm->regions++;
  if (prep) prep(&tm, px);
  tm.th[0] = me; tm.remaining = tm.n - 1;
  yield_sync();
  for (int i = 1; i < tm.n; i++) {
    Thr* w;
    if ((int)me->pool.size() >= i) w = me->pool[i - 1];
    else { w = new_thr(); w->st = ST_IDLE; me->pool.push_back(w); spawn_real(w); }
    w->jteam = &tm; w->jnum = i; w->job = omp_job; tm.th[i] = w; w->nthreads_var = me->nthreads_var;
    w->vc.join(me->vc); w->vc.c[w->id]++;
    if (w->fr.empty()) w->fr.emplace_back();
  }
  me->vc.c[me->id]++;
  if (tm.n > 1) set_live(tm.n - 1);
  for (int i = 1; i < tm.n; i++) tm.th[i]->st = ST_RUN;
  recount();
  yield_sync();
  enter(&tm, 0);
  fn(data);
  barrier(&tm);
  me->fr.pop_back();
  while (tm.remaining > 0) block(&tm);
  for (int i = 1; i < tm.n; i++) me->vc.join(tm.th[i]->vc);
}
EXP void GOMP_parallel(void (*fn)(void*), void* data, unsigned nth, unsigned) { run_region(fn, data, nth, nullptr, nullptr); }
EXP unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nth, unsigned) { run_region(fn, data, nth, nullptr, nullptr); return 1; }

// outside the simulator (or in a team of one) a workshare gives everything to the caller
struct Passive { bool have; long s, e, i; }; static __thread Passive passive;

static WS* ws_get(bool first) {
  Frame& f = F();
  static WS solo[SIM_MAXT];
  if (!f.team) { WS* w = &solo[me->id]; if (first) *w = WS(); f.ws = w; return w; }
  if (first) { f.wsn++; f.ws = &f.team->ws[f.wsn]; }
  return f.ws;
}
static int ws_n() { Frame& f = F(); return f.team ? f.team->n : 1; }
enum { S_STATIC, S_DYNAMIC, S_GUIDED };
static bool loop_next(WS* w, long* is, long* ie) {
  Frame& f = F(); int n = ws_n();
  if (w->ordered && f.have) { w->ord_done[f.cs] = f.ce; while (w->ord_done.count(w->ord_cur)) { long e = w->ord_done[w->ord_cur]; w->ord_done.erase(w->ord_cur); w->ord_cur = e; } wake(&w->ord_cur); f.have = false; }
  long total = w->incr > 0 ? (w->end > w->start ? (w->end - w->start + w->incr - 1) / w->incr : 0)
                           : (w->end < w->start ? (w->start - w->end - w->incr - 1) / -w->incr : 0);
  long a, b;
  if (w->sched == S_STATIC) {
    if (w->chunk <= 0) {
      if (f.pos) return false;
      long q = total / n, r = total % n; a = f.num * q + (f.num < r ? f.num : r); b = a + q + (f.num < r);
      f.pos = 1; if (a >= b) return false;
    } else {
      a = (f.pos * n + f.num) * w->chunk; if (a >= total) return false;
      b = a + w->chunk; if (b > total) b = total; f.pos++;
    }
  } else {
    yield_sync();
    if (w->next >= total) return false;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->sched == S_GUIDED) { long q = (total - w->next + n - 1) / n; if (q > c) c = q; }
    a = w->next; b = a + c; if (b > total) b = total; w->next = b;
  }
  *is = w->start + a * w->incr; *ie = w->start + b * w->incr;
  if (w->ordered) { f.have = true; f.cs = *is; f.ce = *ie; }
  return true;
}
static bool loop_start(int sched, bool ordered, long s, long e, long inc, long chunk, long* is, long* ie) {
  if (!on()) { passive.have = false; if (inc > 0 ? s >= e : s <= e) return false; *is = s; *ie = e; return true; }
  WS* w = ws_get(true); Frame& f = F(); f.pos = 0; f.have = false;
  if (!w->init) { w->init = true; w->start = s; w->end = e; w->incr = inc; w->chunk = chunk; w->sched = sched; w->ordered = ordered; w->ord_cur = s; w->next = 0; }
  yield_sync();
  return loop_next(w, is, ie);
}
static bool loop_nx(long* is, long* ie) { if (!on()) return false; WS* w = ws_get(false); return loop_next(w, is, ie); }
static int rt_sched() { return on() ? g.shm->k.rtsched : S_DYNAMIC; }
struct LoopP { long s, e, inc, chunk; int sched; };
static void prep_loop(Team* tm, void* p) { LoopP* l = (LoopP*)p; WS& w = tm->ws[1]; w.init = true; w.start = l->s; w.end = l->e; w.incr = l->inc; w.chunk = l->chunk; w.sched = l->sched; w.ord_cur = l->s; }
struct PLA { void (*fn)(void*); void* data; };
// combined parallel loops: the body calls *_next directly, so set the thread's workshare
static void pl_body(void* p) { PLA* a = (PLA*)p; if (on()) { Frame& f = F(); ws_get(true); f.pos = 0; f.have = false; } a->fn(a->data); }
static __thread LoopP pass_loop; static __thread bool pass_first;
static void parallel_loop(int sched, void (*fn)(void*), void* data, unsigned nth, long s, long e, long inc, long chunk) {
  if (!on()) { pass_loop = {s, e, inc, chunk, sched}; pass_first = true; fn(data); return; }
  LoopP l{s, e, inc, chunk, sched}; PLA a{fn, data};
  run_region(pl_body, &a, nth, prep_loop, &l);
}
static bool any_next(long* is, long* ie) {
  if (!on()) { if (pass_first) { pass_first = false; if (pass_loop.inc > 0 ? pass_loop.s >= pass_loop.e : pass_loop.s <= pass_loop.e) return false; *is = pass_loop.s; *ie = pass_loop.e; return true; } return false; }
  return loop_nx(is, ie);
}
#define LOOP(name, S, O) \
  EXP bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(S, O, s, e, i, c, a, b); } \
  EXP bool GOMP_loop_##name##_next(long* a, long* b) { return any_next(a, b); }
#define LOOPR(name, O) \
  EXP bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loop_start(rt_sched(), O, s, e, i, 0, a, b); } \
  EXP bool GOMP_loop_##name##_next(long* a, long* b) { return any_next(a, b); }
LOOP(static, S_STATIC, false) LOOP(dynamic, S_DYNAMIC, false) LOOP(guided, S_GUIDED, false)
LOOP(nonmonotonic_dynamic, S_DYNAMIC, false) LOOP(nonmonotonic_guided, S_GUIDED, false)
LOOP(ordered_static, S_STATIC, true) LOOP(ordered_dynamic, S_DYNAMIC, true) LOOP(ordered_guided, S_GUIDED, true)
LOOPR(runtime, false) LOOPR(nonmonotonic_runtime, false) LOOPR(maybe_nonmonotonic_runtime, false) LOOPR(ordered_runtime, true)
typedef unsigned long long ull;
#define ULOOP(name, S, O) \
  EXP bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start(S, O, (long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b); } \
  EXP bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return any_next((long*)a, (long*)b); }
#define ULOOPR(name, O) \
  EXP bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull* a, ull* b) { return loop_start(rt_sched(), O, (long)s, (long)e, (long)i, 0, (long*)a, (long*)b); } \
  EXP bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return any_next((long*)a, (long*)b); }
ULOOP(static, S_STATIC, false) ULOOP(dynamic, S_DYNAMIC, false) ULOOP(guided, S_GUIDED, false)
ULOOP(nonmonotonic_dynamic, S_DYNAMIC, false) ULOOP(nonmonotonic_guided, S_GUIDED, false)
ULOOP(ordered_static, S_STATIC, true) ULOOP(ordered_dynamic, S_DYNAMIC, true) ULOOP(ordered_guided, S_GUIDED, true)
ULOOPR(runtime, false) ULOOPR(nonmonotonic_runtime, false) ULOOPR(maybe_nonmonotonic_runtime, false) ULOOPR(ordered_runtime, true)
EXP void GOMP_loop_end() { if (on() && F().team) barrier(F().team); }
EXP void GOMP_loop_end_nowait() {}
EXP bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
#define PLOOP(name, S) EXP void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(S, fn, d, n, s, e, i, c); }
#define PLOOPR(name) EXP void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(rt_sched(), fn, d, n, s, e, i, 0); }
PLOOP(static, S_STATIC) PLOOP(dynamic, S_DYNAMIC) PLOOP(guided, S_GUIDED) PLOOP(nonmonotonic_dynamic, S_DYNAMIC) PLOOP(nonmonotonic_guided, S_GUIDED)
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

EXP void GOMP_barrier() { if (on() && F().team) barrier(F().team); }
EXP bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
static char crit_unnamed, crit_atomic;
EXP void GOMP_critical_start() { if (on()) lock_obj(&crit_unnamed); }
EXP void GOMP_critical_end() { if (on()) unlock_obj(&crit_unnamed); }
EXP void GOMP_critical_name_start(void** p) { if (on()) lock_obj(p); }
EXP void GOMP_critical_name_end(void** p) { if (on()) unlock_obj(p); }
EXP void GOMP_atomic_start() { if (on()) lock_obj(&crit_atomic); }
EXP void GOMP_atomic_end() { if (on()) unlock_obj(&crit_atomic); }
EXP bool GOMP_single_start() {
  if (!on()) return true;
  yield_sync();
  WS* w = ws_get(true); if (w->init) return false; w->init = true; return true;
}
EXP void* GOMP_single_copy_start() {
  if (!on()) return nullptr;
  yield_sync();
  WS* w = ws_get(true); if (!w->init) { w->init = true; return nullptr; }
  if (F().team) barrier(F().team);
  return F().ws->copyptr;
}
EXP void GOMP_single_copy_end(void* d) { if (on()) { F().ws->copyptr = d; if (F().team) barrier(F().team); } }
EXP void GOMP_ordered_start() {
  if (!on()) return;
  yield_sync(); Frame& f = F(); WS* w = f.ws; if (!w) return;
  while (w->ord_cur != f.cs && f.have) block(&w->ord_cur);
  me->vc.join(w->ord_vc);
}
EXP void GOMP_ordered_end() { if (!on()) return; WS* w = F().ws; if (w) { w->ord_vc.join(me->vc); me->vc.c[me->id]++; } }
EXP unsigned GOMP_sections_next();
static __thread unsigned psect, pnsect;
EXP unsigned GOMP_sections_start(unsigned n) {
  if (!on()) { psect = 0; pnsect = n; return GOMP_sections_next(); }
  WS* w = ws_get(true); if (!w->init) { w->init = true; w->nsect = n; } return GOMP_sections_next();
}
EXP unsigned GOMP_sections_next() {
  if (!on()) return psect < pnsect ? ++psect : 0;
  yield_sync(); WS* w = F().ws; return w->sect < w->nsect ? ++w->sect : 0;
}
EXP void GOMP_sections_end() { GOMP_loop_end(); }
EXP void GOMP_sections_end_nowait() {}
static void prep_sect(Team* tm, void* p) { WS& w = tm->ws[1]; w.init = true; w.nsect = *(int*)p; }
EXP void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) {
  if (!on()) { psect = 0; pnsect = count; fn(d); return; }
  int c = count; PLA a{fn, d}; run_region(pl_body, &a, n, prep_sect, &c);
}
static void push_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool imm, long* loopvals) {
  if (al < 1) al = 1;
  char* buf = (char*)::malloc(sz + al + 16); char* arg = (char*)(((uintptr_t)buf + al - 1) / al * al);
  if (cpy) cpy(arg, data); else memcpy(arg, data, sz);
  if (loopvals) { ((long*)arg)[0] = loopvals[0]; ((long*)arg)[1] = loopvals[1]; }
  Task* t = new Task; t->fn = fn; t->buf = buf; t->data = arg;
  Frame& f = F(); t->parent = cur_task(); t->parent->nchild++;
  t->group = f.group; if (t->group) t->group->n++;
  t->start = me->vc; me->vc.c[me->id]++;
  Team* tm = f.team;
  if (!tm) { static Team solo; run_task(&solo, t); return; }
  if (imm || g.shm->k.policy == POL_SERIAL) { run_task(tm, t); return; }
  tm->q.push_back(t); wake(&tm->q); for (auto* x : {(const void*)t->parent}) wake(x);
  yield_sync();
}
EXP void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool ifc, unsigned flags, void** dep, int, void*) {
  if (!on()) { if (cpy) { char* b = (char*)::malloc(sz + al); char* a = (char*)(((uintptr_t)b + al - 1) / al * al); cpy(a, data); fn(a); ::free(b); } else fn(data); return; }
  push_task(fn, data, cpy, sz, al, !ifc || (flags & 8) || dep, nullptr);
}
EXP void GOMP_taskwait() {
  if (!on()) return;
  yield_sync(); Frame& f = F(); Task* t = cur_task(); Team* tm = f.team;
  while (t->nchild > 0) { if (tm && pop_and_run(tm)) continue; block(t); }
  me->vc.join(t->done);
}
EXP void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
EXP void GOMP_taskyield() { yield_sync(); }
EXP void GOMP_taskgroup_start() { if (!on()) return; Group* gr = new Group; Frame& f = F(); gr->up = f.group; f.group = gr; }
EXP void GOMP_taskgroup_end() {
  if (!on()) return;
  Frame& f = F(); Group* gr = f.group; Team* tm = f.team;
  while (gr && gr->n > 0) { if (tm && pop_and_run(tm)) continue; block(gr); }
  if (gr) { me->vc.join(gr->vc); F().group = gr->up; delete gr; }
}
EXP void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long ntasks, int, long s, long e, long step) {
  long n = step > 0 ? (e > s ? (e - s + step - 1) / step : 0) : (e < s ? (s - e - step - 1) / -step : 0);
  if (n <= 0) return;
  if (!on()) { ((long*)data)[0] = s; ((long*)data)[1] = e; fn(data); return; }
  long per = 1;
  if (flags & 0x200) per = ntasks ? (long)ntasks : 1;            // grainsize
  else if (ntasks) per = (n + ntasks - 1) / ntasks; else per = (n + ws_n() - 1) / ws_n();
  if (per < 1) per = 1;
  bool grp = !(flags & 0x800);
  if (grp) GOMP_taskgroup_start();
  for (long i = 0; i < n; i += per) { long hi = i + per < n ? i + per : n; long lv[2] = {s + i * step, s + hi * step}; push_task(fn, data, cpy, sz, al, false, lv); }
  if (grp) GOMP_taskgroup_end();
}
EXP bool GOMP_cancel(int, bool) { return false; }
EXP bool GOMP_cancellation_point(int) { return false; }

EXP int omp_get_thread_num() { return on() && F().team ? F().num : 0; }
EXP int omp_get_num_threads() { return on() && F().team ? F().team->n : 1; }
EXP int omp_get_max_threads() { return on() ? (me->nthreads_var > 0 ? me->nthreads_var : g.shm->k.maxthreads) : 1; }
EXP void omp_set_num_threads(int n) { if (on()) me->nthreads_var = n > 0 ? n : 1; }
EXP int omp_in_parallel() { return on() && F().team && F().team->n > 1; }
EXP int omp_get_num_procs() { return on() ? g.shm->k.maxthreads : 1; }
EXP void omp_set_dynamic(int) {}
EXP int omp_get_dynamic() { return 0; }
EXP void omp_set_nested(int) {}
EXP int omp_get_nested() { return 0; }
EXP int omp_get_level() { return on() ? (int)me->fr.size() - 1 : 0; }
EXP int omp_get_active_level() { return omp_in_parallel(); }
EXP int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? omp_get_thread_num() : 0; }
EXP int omp_get_team_size(int l) { return l == omp_get_level() ? omp_get_num_threads() : 1; }
EXP int omp_get_thread_limit() { return 1 << 20; }
EXP void omp_set_max_active_levels(int) {}
EXP int omp_get_max_active_levels() { return 1; }
EXP int omp_get_cancellation() { return 0; }
EXP int omp_get_proc_bind() { return 0; }
EXP void omp_set_schedule(int, int) {}
EXP void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
EXP double omp_get_wtime() { g.clock_us += 7; return g.active ? 1e-6 * g.clock_us : 0; }
EXP double omp_get_wtick() { return 1e-6; }
EXP void omp_init_lock(void**) {}
EXP void omp_destroy_lock(void**) {}
EXP void omp_set_lock(void** l) { if (on()) lock_obj(l); }
EXP void omp_unset_lock(void** l) { if (on()) unlock_obj(l); }
EXP int omp_test_lock(void** l) { return on() ? trylock_obj(l) : 1; }
EXP void omp_init_nest_lock(void**) {}
EXP void omp_destroy_nest_lock(void**) {}
EXP void omp_set_nest_lock(void** l) { if (on()) lock_obj(l); }
EXP void omp_unset_nest_lock(void** l) { if (on()) unlock_obj(l); }

// ---------------------------------------------------------------- pthreads, static initialisation
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
static bool onl(const void* ra) { return on() && (in_repo(ra) || in_cxx(ra)); }
EXP int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!g.in_op || !on()) return real(m);
  auto tr = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  yield_sync();
  int r;
  while ((r = tr(m)) == EBUSY) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return real(m);
    block(m);
  }
  auto it = locks.find(m); if (it != locks.end()) me->vc.join(it->second.vc);
  return r;
}
EXP int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  if (!g.in_op || !on()) return real(m);
  yield_sync(); int r = real(m);
  if (!r) { auto it = locks.find(m); if (it != locks.end()) me->vc.join(it->second.vc); }
  return r;
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  if (!g.in_op || !on()) return real(m);
  locks[m].vc.join(me->vc); me->vc.c[me->id]++;
  int r = real(m); wake(m); yield_sync(); return r;
}
EXP int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  if (!onl(__builtin_return_address(0)) || !g.in_op) return real_create(t, a, f, x);
  Thr* n = new_thr(); n->start = f; n->arg = x; n->fr.emplace_back();
  n->vc.join(me->vc); n->vc.c[n->id]++; me->vc.c[me->id]++;
  n->st = ST_RUN; set_live(1); spawn_real(n); recount();
  *t = n->pt; yield_sync();
  return 0;
}
EXP int pthread_join(pthread_t t, void** ret) {
  REAL(pthread_join);
  if (on()) for (int i = 0; i < nT; i++) if (T[i]->start && pthread_equal(T[i]->pt, t) && !T[i]->joined) {
    while (T[i]->st != ST_DONE) block(T[i]);
    me->vc.join(T[i]->vc); T[i]->joined = true; if (ret) *ret = T[i]->ret; return 0;
  }
  return real(t, ret);
}
EXP int pthread_detach(pthread_t t) {
  REAL(pthread_detach);
  if (on()) for (int i = 0; i < nT; i++) if (T[i]->start && pthread_equal(T[i]->pt, t)) { T[i]->detached = true; return 0; }
  return real(t);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  pthread_mutex_unlock(m);
  me->timed = timed; me->timedout = false;
  block(c);
  bool to = me->timedout; me->timed = me->timedout = false;
  pthread_mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait); if (!g.in_op || !on()) return real(c, m); return cond_wait(c, m, false); }
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { REAL(pthread_cond_timedwait); if (!g.in_op || !on()) return real(c, m, ts); return cond_wait(c, m, true); }
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { REAL(pthread_cond_clockwait); if (!g.in_op || !on()) return real(c, m, k, ts); return cond_wait(c, m, true); }
EXP int pthread_cond_signal(pthread_cond_t* c) { REAL(pthread_cond_signal); if (!g.in_op || !on()) return real(c); wake_one(c); yield_sync(); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t* c) { REAL(pthread_cond_broadcast); if (!g.in_op || !on()) return real(c); wake(c); yield_sync(); return 0; }
EXP int pthread_once(pthread_once_t* o, void (*f)()) {
  REAL(pthread_once);
  if (!g.in_op || !onl(__builtin_return_address(0))) return real(o, f);
  if (*o == 2) { auto it = locks.find(o); if (it != locks.end()) me->vc.join(it->second.vc); return 0; }
  lock_obj(o); if (*o != 2) { f(); *o = 2; } unlock_obj(o); return 0;
}
EXP int sched_yield() { if (on()) { yield_sync(); return 0; } REAL(sched_yield); return real(); }

extern "C" {
__attribute__((visibility("default"))) int sim_guard_acquire(int64_t*) __asm__("__cxa_guard_acquire");
__attribute__((visibility("default"))) void sim_guard_release(int64_t*) __asm__("__cxa_guard_release");
__attribute__((visibility("default"))) void sim_guard_abort(int64_t*) __asm__("__cxa_guard_abort");
}
int sim_guard_acquire(int64_t* gv) {
  char* b = (char*)gv;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (!on()) { b[1] = 1; return 1; }
  while (b[1]) block(gv);
  if (b[0]) { at_acq((uintptr_t)gv, 5); return 0; }
  b[1] = 1; return 1;
}
void sim_guard_release(int64_t* gv) { char* b = (char*)gv; if (on()) at_rel((uintptr_t)gv, 5); b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); if (on()) wake(gv); }
void sim_guard_abort(int64_t* gv) { char* b = (char*)gv; b[1] = 0; if (on()) wake(gv); }

// ---------------------------------------------------------------- caller threads
static void caller_job(Thr* t) {
  t->cfn(t->carg);
  t->vc.c[t->id]++; set_live(-1); t->jteam = nullptr; t->st = ST_IDLE; wake(t);
}
static std::vector<Thr*> callers;
EXP void sim_parallel_calls(int n, void (*fn)(void*), void** arg) {
  for (int i = 0; i < n; i++) {
    Thr* w;
    if ((int)callers.size() > i) w = callers[i];
    else { w = new_thr(); w->st = ST_IDLE; w->caller = true; w->fr.emplace_back(); callers.push_back(w); spawn_real(w); }
    w->job = caller_job; w->cfn = fn; w->carg = arg[i];
    w->vc.join(me->vc); w->vc.c[w->id]++;
  }
  me->vc.c[me->id]++;
  set_live(n);
  for (int i = 0; i < n; i++) callers[i]->st = ST_RUN;
  recount();
  for (int i = 0; i < n; i++) while (callers[i]->st != ST_IDLE) block(callers[i]);
  for (int i = 0; i < n; i++) me->vc.join(callers[i]->vc);
}

// ---------------------------------------------------------------- life
[[noreturn]] void sim_die(int how) {
  if (g.shm) { if (me) fold(); g.shm->accesses = acc_count; g.shm->end = how; }
  _exit(how == END_KILLED ? 9 : 10 + how);
}
[[noreturn]] void sim_internal(const char* msg) {
  if (g.shm) { strcpy(g.shm->vclass, "internal"); snprintf(g.shm->msg, SIM_MSGCAP, "%s", msg); g.shm->end = END_INTERNAL; }
  _exit(99);
}
EXP void sim_violation(const char* cls, const char* msg) {
  SimShared* s = g.shm;
  snprintf(s->vclass, sizeof s->vclass, "%s", cls); snprintf(s->msg, SIM_MSGCAP, "%s", msg);
  sim_die(END_VIOLATION);
}
EXP void sim_life_begin() {
  shadow_alloc();
  acc_count = 0;
  g.clock_us = g.shm->k.clock0; g.rnd = Rng(g.shm->k.rnd);
  g.cur_op = -1; g.in_op = false; g.armed = false;
  callers.clear();
  sched_life_begin(); mem_life_begin(); disk_life_begin(); out_life_begin();
  g.active = true;
}
EXP void sim_life_end() {
  sched_life_end();
  g.shm->simtime_us = g.clock_us - g.shm->k.clock0;
  g.active = false;
}
EXP __attribute__((noinline)) void sim_stack_scrub() {
  volatile char b[49152];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (char)g.shm->k.stackfill;
}
EXP void sim_op_begin(int op) {
  sim_group_yield(); if (g.shm->grp && op >= 0 && op < SIM_MAXOPS) g.shm->opb[op] = g.shm->ope[op] = g.shm->grp->ev;
  g.cur_op = op; g.shm->cur_op = op;
  if (op >= 0 && op < SIM_MAXOPS) g.shm->outop[op] = g.shm->outlen;
  for (int i = 0; i < g.shm->nfaults; i++) if (g.shm->faults[i].op == op) g.shm->faults[i].seen = 0;
  g.armed = true;
  sim_stack_scrub();
  g.in_op = true;
}
EXP void sim_op_end() { int op = g.shm->cur_op; g.in_op = false; g.armed = false; g.shm->cur_op = -1; if (g.shm->grp && op >= 0 && op < SIM_MAXOPS) g.shm->ope[op] = g.shm->grp->ev + 1; sim_group_yield(); }
EXP void sim_arm(int a) { g.armed = a; }
EXP void sim_assign(int a) { g.in_op = a != 0; }      // data assigned by the user: same memory as that of the library, no faults

static int phdr_cb(struct dl_phdr_info* i, size_t, void* d);
#include <link.h>
struct Find { uintptr_t a, lo, hi; };
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d) {
  Find* f = (Find*)d; uintptr_t lo = ~0ul, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    uintptr_t s = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = s + i->dlpi_phdr[k].p_memsz;
    if (s < lo) lo = s;
    if (e > hi) hi = e;
  }
  if (f->a >= lo && f->a < hi) { f->lo = lo; f->hi = hi; return 1; }
  return 0;
}
EXP void sim_set_repo(const void* p) {
  Find f{(uintptr_t)p, 0, 0}; dl_iterate_phdr(phdr_cb, &f); g.repo_lo = f.lo; g.repo_hi = f.hi;
}
#include <new>
#include <iostream>
EXP void sim_init(SimShared* shm, unsigned char* data) {
  g.shm = shm; g.data = data;
  void* p = dlsym(RTLD_DEFAULT, "_ZNSo5flushEv");
  if (p) { Find f{(uintptr_t)p, 0, 0}; dl_iterate_phdr(phdr_cb, &f); g.cxx_lo = f.lo; g.cxx_hi = f.hi; }
}
