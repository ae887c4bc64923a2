// Runs the lives of a script in forked processes and collects what happened.
#pragma once
#include "plan.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef std::vector<unsigned char> Bytes;
struct GroupLog { int ev = 0, lost = 0; std::vector<std::string> watch; std::vector<SimSample> samples; std::vector<Bytes> snaps; std::vector<SimPSwitch> sw; bool sw_full = false; };
struct LifeResult {
  int end = 0, sig = 0, code = 0; bool timeout = false; int cur_op = -1; int cli = -1;   // cli: exit status of a command line (-1: killed or none)
  std::string vclass, msg, out; std::vector<SimObs> obs; std::vector<SimTrace> trace; std::vector<std::string> tnames;
  int op_done[SIM_MAXOPS]; int allocs_op[SIM_MAXOPS]; int outop[SIM_MAXOPS];
  uint64_t steps = 0, nswitch = 0, accesses = 0, syscalls = 0, allocs = 0, simtime = 0, regions = 0, sched_hash = 0;
  std::vector<SimRace> race; std::vector<std::string> mem; std::vector<SimASite> asite; std::vector<SimSwitch> sw; bool sw_full = false;
  int fired[SYS_NKINDS]; int fired_act[8]; int outfail = 0; std::vector<int> fault_fired; uint64_t out_total = 0; int fds = 0;
  std::map<std::string, Bytes> disk;
  std::shared_ptr<GroupLog> grp; int opb[SIM_MAXOPS]; int ope[SIM_MAXOPS];   // concurrent processes (grp: of the first one)
  int st(int op) const { return op >= 0 && op < SIM_MAXOPS ? op_done[op] - 1 : -1; }       // -1 not finished, 0 ok, 99 skipped, else failed
  bool crashed() const { return timeout || (sig && cli < 0) || end == END_NONE; }
};
typedef std::vector<LifeResult> ScriptResult;

struct Stats {
  uint64_t plans = 0, scripts = 0, lives = 0, steps = 0, nswitch = 0, accesses = 0, syscalls = 0, allocs = 0, simtime = 0, regions = 0;
  uint64_t fired[SYS_NKINDS] = {0}, fired_act[8] = {0}, outfail = 0, kills = 0, cap_full = 0, pswitch = 0, pevents = 0;
  std::map<std::string, uint64_t> probe;
};
extern Stats stats;
uint64_t hash_bytes(const void* p, size_t n);
void exec_init(const char* lib);
void exec_map(const std::string& name, uint64_t& off);
ScriptResult run_script(const Plan&, const Script&);
uint64_t result_hash(const ScriptResult&);
std::string sym(uint64_t off);                 // file:line of an offset into the library under test
extern const char* lib_path;
extern bool keep_disk_all;
