// A plan is one complete, replayable simulation: initial files, scripts (sequences of
// lives with operations, faults, schedule and knobs).  Written and read as text.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "sim.h"

struct Op { int id = 0; std::vector<std::string> a; };
struct PFault { SimFault f; };
struct Life { SimKnobs k; std::vector<SimFault> faults; std::vector<Op> ops; std::vector<SimSwitch> exp; };
struct Script { std::string name; std::vector<Life> lives; };
struct FileSpec { std::string name; std::vector<std::string> a; };
struct Plan {
  std::string prop; uint64_t seed = 0, run = 0;
  std::map<std::string, std::string> par;
  std::vector<FileSpec> files; std::vector<Script> scripts;
};
SimKnobs default_knobs();
std::string plan_text(const Plan&);
bool plan_parse(const std::string& text, Plan& p, std::string& err);
std::vector<unsigned char> file_bytes(const FileSpec&);    // content of an initial file
std::string esc(const std::string&); std::string unesc(const std::string&);
std::vector<std::string> split(const std::string&, char sep);
std::vector<int> ints(const std::string& comma_list);
std::string join(const std::vector<int>&);
SimFault mkfault(int op, int kind, int nth, int action, int err = 5, int sticky = 0, int arg = 50, const char* path = "");
