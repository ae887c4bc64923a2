#pragma once
#include "exec.h"
#include "model.h"
struct R {
  uint64_t s; explicit R(uint64_t x) : s(x) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool p(double x) { return (next() >> 11) / 9007199254740992.0 < x; }
  template <class T> const T& of(const std::vector<T>& v) { return v[next() % v.size()]; }
};
struct Verdict { bool bad = false; std::string cls, msg; };
Plan generate(const std::string& prop, uint64_t seed, uint64_t run);
Verdict judge(const Plan&, const std::map<std::string, ScriptResult>&);
std::map<std::string, ScriptResult> run_plan(const Plan&);
bool nontrivial(const Plan&, const std::map<std::string, ScriptResult>&);
uint64_t fingerprint(const Plan&, const std::map<std::string, ScriptResult>&);   // distinct behaviour explored
