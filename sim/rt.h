// Internal header of libsim.so
#pragma once
#include "sim.h"
#include <cstring>
#include <cerrno>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

struct G {
  SimShared* shm = nullptr;
  unsigned char* data = nullptr;
  volatile bool active = false;     // inside a life
  volatile bool in_op = false;      // the library under test is being called
  bool armed = false;
  int cur_op = -1;
  uintptr_t repo_lo = 0, repo_hi = 0, cxx_lo = 0, cxx_hi = 0, self_lo = 0, self_hi = 0;
  int64_t clock_us = 0;
  Rng rnd{1};
};
extern G g;

inline bool in_repo(const void* ra) { uintptr_t a = (uintptr_t)ra; return a >= g.repo_lo && a < g.repo_hi; }
inline bool in_cxx(const void* ra) { uintptr_t a = (uintptr_t)ra; return a >= g.cxx_lo && a < g.cxx_hi; }

// scheduler
extern bool g_conc;                 // more than one runnable thread
extern bool g_race;                 // more than one live thread
void yield_sync();                  // scheduling point at an event
void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc);
void race_forget(uintptr_t a, size_t n);
void sched_life_begin();
void sched_life_end();
int sched_tid();

// memory
extern uintptr_t g_arena_lo, g_arena_hi;
void mem_check(uintptr_t a, size_t n, bool w, uintptr_t pc);
void mem_life_begin();
void mem_report(const char* what, uintptr_t a, size_t n, uintptr_t pc);
inline bool in_arena(uintptr_t a) { return a >= g_arena_lo && a < g_arena_hi; }

// disk
void disk_life_begin();
void out_life_begin();
void out_write(const char* p, size_t n);
bool out_ok(size_t n, size_t* can);
SimFault* fault_hit(int kind, const char* path);
[[noreturn]] void sim_die(int how);

[[noreturn]] void sim_internal(const char* msg);
