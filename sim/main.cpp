// simrun: seeded search over simulated executions, minimisation of violations, replay.
#include "gen.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <locale>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>

typedef std::map<std::string, ScriptResult> Res; typedef std::vector<std::string> V;
static std::string hex16(uint64_t x) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)x); return b; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string js(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static uint64_t total_hash(const Res& r) { uint64_t h = 3; for (auto& kv : r) h = (h ^ result_hash(kv.second)) * 0x100000001b3ull; return h; }

// ------------------------------------------------------------------ minimisation
struct Min {
  std::string cls; double deadline; int tries = 0; Plan best; std::string msg;
  bool fails(const Plan& p) {
    if (now() > deadline) return false;
    tries++; Res r = run_plan(p); Verdict v = judge(p, r);
    if (v.bad && v.cls == cls) { msg = v.msg; return true; }
    return false;
  }
  bool take(const Plan& p) { if (!fails(p)) return false; best = p; return true; }
  template <class F> void list_min(size_t n, F without) {      // ddmin by chunks over n elements
    if (!n) return;
    std::vector<char> keep(n, 1); size_t chunk = std::max<size_t>(1, n / 2);
    while (true) {
      bool any = false;
      for (size_t i = 0; i < n && now() < deadline; i += chunk) {
        std::vector<char> k = keep; bool ch = false; for (size_t j = i; j < std::min(n, i + chunk); j++) if (k[j]) { k[j] = 0; ch = true; }
        if (!ch) continue;
        Plan q = without(k); if (take(q)) { keep = k; any = true; }
      }
      if (now() >= deadline) return;
      if (chunk == 1) { if (!any) return; } else chunk = std::max<size_t>(1, chunk / 2);
    }
  }
  void lives() {         // whole processes of a concurrent group
    if (best.prop != "C26") return;
    for (size_t i = best.scripts[0].lives.size(); i-- > 0;) { if (best.scripts[0].lives.size() < 2) break; Plan q = best; auto& v = q.scripts[0].lives; v.erase(v.begin() + i); take(q); }
    std::set<std::string> ids; for (auto& l : best.scripts[0].lives) if (!l.ops.empty()) ids.insert(std::to_string((l.ops[0].id - 1) / 12));
    Plan q = best; q.scripts.erase(std::remove_if(q.scripts.begin() + 1, q.scripts.end(), [&](const Script& s) { return !ids.count(s.name.substr(6, 1)); }), q.scripts.end()); if (q.scripts.size() < best.scripts.size()) take(q);
  }
  void processes() {     // the turns taken, then as few of them as possible
    if (best.prop != "C26") return;
    Res r = run_plan(best); auto it = r.find("group"); if (it == r.end() || it->second.empty() || !it->second[0].grp || it->second[0].grp->sw_full) return;
    std::vector<SimPSwitch> all = it->second[0].grp->sw;
    auto with = [&](const std::vector<char>& keep) { Plan z = best; z.par["pp"] = "3,0,1,0,0,1"; std::string e; for (size_t i = 0; i < all.size(); i++) if (keep[i]) e += (e.empty() ? "" : ",") + std::to_string(all[i].ev) + ":" + std::to_string(all[i].p); z.par["pexp"] = e.empty() ? "-" : e; return z; };
    if (take(with(std::vector<char>(all.size(), 1)))) list_min(all.size(), with);
  }
  void scripts() {
    if (best.prop == "C26") return;
    for (size_t i = best.scripts.size(); i-- > 0;) { if (best.scripts.size() < 2) break; const std::string& n = best.scripts[i].name; if (n == "base" || n == "clean" || n == "fresh" || n == "pre" || n == "ref" || n == "all" || n == "list") continue; Plan q = best; q.scripts.erase(q.scripts.begin() + i); take(q); }
  }
  void faults() {
    if (best.par.count("ro")) { Plan q = best; q.par.erase("ro"); take(q); }
    for (size_t s = 0; s < best.scripts.size(); s++) for (size_t l = 0; l < best.scripts[s].lives.size(); l++) for (size_t f = best.scripts[s].lives[l].faults.size(); f-- > 0;) { Plan q = best; auto& v = q.scripts[s].lives[l].faults; v.erase(v.begin() + f); take(q); }
  }
  void knobs() {
    SimKnobs d = default_knobs();
    for (size_t s = 0; s < best.scripts.size(); s++) for (size_t l = 0; l < best.scripts[s].lives.size(); l++) {
      auto t = [&](void (*f)(SimKnobs&, const SimKnobs&)) { Plan q = best; SimKnobs& k = q.scripts[s].lives[l].k; SimKnobs o = k; f(k, d); if (best.prop == "C26") k.pid = o.pid; if (memcmp(&o, &k, sizeof k)) take(q); };
      t([](SimKnobs& k, const SimKnobs& d) { k = d; });
      t([](SimKnobs& k, const SimKnobs& d) { k.policy = d.policy; k.maxthreads = d.maxthreads; k.team = d.team; k.sched_seed = 0; k.gap = d.gap; k.pct_d = d.pct_d; k.pct_k = d.pct_k; k.rr_q = d.rr_q; k.rtsched = d.rtsched; });
      t([](SimKnobs& k, const SimKnobs&) { if (k.maxthreads > 2) { k.maxthreads = 2; if (k.team > 2) k.team = 2; } });
      t([](SimKnobs& k, const SimKnobs& d) { k.team = d.team; });
      t([](SimKnobs& k, const SimKnobs& d) { k.rtsched = d.rtsched; });
      t([](SimKnobs& k, const SimKnobs& d) { k.fill = d.fill; k.heapshift = d.heapshift; });
      t([](SimKnobs& k, const SimKnobs& d) { k.clock0 = d.clock0; k.pid = d.pid; k.rnd = d.rnd; k.env = d.env; k.stackfill = d.stackfill; });
      t([](SimKnobs& k, const SimKnobs& d) { k.blksize = d.blksize; });
      t([](SimKnobs& k, const SimKnobs& d) { k.capacity = d.capacity; });
      t([](SimKnobs& k, const SimKnobs& d) { k.out_fail_at = d.out_fail_at; k.out_fail_len = d.out_fail_len; k.out_sync_fail = d.out_sync_fail; });
      t([](SimKnobs& k, const SimKnobs& d) { k.out_sync_fail = d.out_sync_fail; });
      t([](SimKnobs& k, const SimKnobs&) { if (k.out_fail_at > 0) k.out_fail_at = 0; });
    }
  }
  // Operations that may be left out without changing what the remaining ones are expected to do,
  // as groups of operation numbers that go together (calls and their repetitions).
  std::vector<std::set<int>> groups() {
    const std::string& P = best.prop; std::map<int, V> all; for (auto& s : best.scripts) for (auto& l : s.lives) for (auto& o : l.ops) all[o.id] = o.a;
    static const std::set<std::string> none = {"C03", "C04", "C11", "C16", "C17", "C21", "C26"}, free_set = {"C01", "C02", "C05", "C06", "C09", "C10", "C22", "C25"};
    std::vector<std::set<int>> g; if (none.count(P)) return g;
    int from = best.par.count("from") ? atoi(best.par.at("from").c_str()) : 1 << 30; std::map<std::string, size_t> same;
    for (auto& kv : all) {
      const V& a = kv.second; if (a[0] == "new" && P != "C06" && P != "C09") continue;
      if (P == "C07" && (kv.first <= 1 || kv.first >= from)) continue;
      if ((a[0] == "surfs" || (a[0] == "set" && (a.size() < 3 || a[2] != "verbose"))) && !free_set.count(P) && P != "C07") continue;
      if (P == "C13" || P == "C14") {
        std::string key; for (auto& x : a) if (x[0] != '?') key += x + " ";
        if (a[0] == "read" || a[0] == "readb" || a[0] == "initv" || a[0] == "run" || a[0] == "write" || a[0] == "copy") { auto it = same.find(key); if (it != same.end()) { g[it->second].insert(kv.first); continue; } same[key] = g.size(); }
        else if (a[0] == "surfs" || a[0] == "set") continue;
      }
      g.push_back({kv.first});
    }
    return g;
  }
  void ops() {           // an operation number is removed from every script at once
    auto v = groups();
    list_min(v.size(), [&](const std::vector<char>& keep) {
      std::set<int> out; for (size_t i = 0; i < v.size(); i++) if (!keep[i]) out.insert(v[i].begin(), v[i].end());
      Plan q = best; for (auto& s : q.scripts) for (auto& l : s.lives) { l.ops.erase(std::remove_if(l.ops.begin(), l.ops.end(), [&](const Op& o) { return out.count(o.id) > 0; }), l.ops.end()); l.faults.erase(std::remove_if(l.faults.begin(), l.faults.end(), [&](const SimFault& f) { return f.op >= 0 && out.count(f.op); }), l.faults.end()); }
      return q; });
  }
  void files() {
    for (size_t i = best.files.size(); i-- > 0;) {
      bool used = false; for (auto& s : best.scripts) for (auto& l : s.lives) for (auto& o : l.ops) for (auto& a : o.a) if (a == best.files[i].name) used = true;
      if (used || best.prop == "C16" || best.prop == "C17" || best.prop == "C26") continue;
      Plan q = best; q.files.erase(q.files.begin() + i); take(q);
    }
  }
  void surfaces() {      // shorter surface lists (only where no expectation depends on them)
    for (size_t s = 0; s < best.scripts.size(); s++) for (size_t l = 0; l < best.scripts[s].lives.size(); l++) for (size_t o = 0; o < best.scripts[s].lives[l].ops.size(); o++) {
      auto& a = best.scripts[s].lives[l].ops[o].a; if (a[0] != "surfs") continue; int id = best.scripts[s].lives[l].ops[o].id; std::string old = a[2];
      auto v = ints(old);
      while (v.size() > 1) { auto w = v; w.pop_back(); Plan q = best; for (auto& s2 : q.scripts) for (auto& l2 : s2.lives) for (auto& o2 : l2.ops) for (auto& x : o2.a) if ((o2.id == id && &x == &o2.a.back() && o2.a[0] == "surfs") || ((o2.a[0] == "report" || o2.a[0] == "chkout" || o2.a[0] == "chkbooz") && x == join(v))) x = join(w); if (!take(q)) break; v = w; }
    }
  }
  void schedule() {      // replace random decisions by the recorded switches, then drop switches
    Res r = run_plan(best); Plan q = best; bool any = false;
    for (auto& s : q.scripts) { auto it = r.find(s.name); if (it == r.end()) continue; for (size_t l = 0; l < s.lives.size() && l < it->second.size(); l++) { auto& x = it->second[l]; if (x.sw_full || s.lives[l].k.maxthreads < 2) continue; s.lives[l].exp.clear(); for (auto& w : x.sw) if (!w.forced) s.lives[l].exp.push_back(w); s.lives[l].k.policy = POL_EXPLICIT; any = true; } }
    if (!any || !take(q)) return;
    for (size_t s = 0; s < best.scripts.size(); s++) for (size_t l = 0; l < best.scripts[s].lives.size(); l++) {
      auto all = best.scripts[s].lives[l].exp;
      list_min(all.size(), [&](const std::vector<char>& keep) { Plan z = best; auto& e = z.scripts[s].lives[l].exp; e.clear(); for (size_t i = 0; i < all.size(); i++) if (keep[i]) e.push_back(all[i]); return z; });
    }
  }
  void go(const Plan& p) { best = p; scripts(); lives(); faults(); knobs(); ops(); surfaces(); knobs(); files(); schedule(); processes(); }
};

static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static int usage() { fprintf(stderr, "simrun batch --prop P --seed S --worker I --workers N --seconds T --lib L --out DIR [--max M] [--min-seconds T]\nsimrun replay FILE --lib L\nsimrun gen --prop P --seed S --run R --lib L\nsimrun hash --prop P --seed S --worker I --workers N --max M --lib L\n"); return 2; }

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIMRUN_NOASLR")) { if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIMRUN_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
  if (argc < 2) return usage();
  std::string mode = argv[1], prop, lib, out, file, fpfile; uint64_t seed = 1, run = 0; int worker = 0, workers = 1; double secs = 10, minsecs = 60; uint64_t maxruns = ~0ull;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
    if (a == "--prop") prop = nx(); else if (a == "--lib") lib = nx(); else if (a == "--out") out = nx(); else if (a == "--fps") fpfile = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--run") run = strtoull(nx(), 0, 10);
    else if (a == "--worker") worker = atoi(nx()); else if (a == "--workers") workers = atoi(nx()); else if (a == "--seconds") secs = atof(nx()); else if (a == "--min-seconds") minsecs = atof(nx()); else if (a == "--max") maxruns = strtoull(nx(), 0, 10); else file = a; }
  exec_init(lib.c_str());
  {   // tables that the runtime library fills when they are first used must not depend on what ran before in this process
    std::stringstream w; int i = 0; double d = 0; std::string t; w.fill('0'); w << 1 << ' ' << 2.5 << ' ' << std::hex << 255 << std::dec << ' ' << true << std::endl; w >> i >> d >> t; char b[256], q[256]; for (int k = 0; k < 256; k++) b[k] = (char)k; auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic()); ct.widen(b, b + 256, q); ct.narrow(b, b + 256, ' ', q); for (int k = 0; k < 256; k++) { ct.widen((char)k); ct.narrow((char)k, 0); }
  }
  if (mode == "gen") { Plan p = generate(prop, seed, run); fputs(plan_text(p).c_str(), stdout); return 0; }
  if (mode == "hash") { { Plan p = generate(prop, seed, worker); Res r = run_plan(p); judge(p, r); } for (uint64_t n = worker; n < maxruns; n += workers) { Plan p = generate(prop, seed, n); Res r = run_plan(p); Verdict v = judge(p, r); printf("%llu %016llx %s\n", (unsigned long long)n, (unsigned long long)total_hash(r), v.bad ? v.cls.c_str() : "ok"); fflush(stdout); } return 0; }
  if (mode == "replay" || mode == "show") {
    Plan p; std::string err; std::string t = slurp(file.c_str()); if (t.empty() || !plan_parse(t, p, err)) { fprintf(stderr, "cannot read plan %s: %s\n", file.c_str(), err.c_str()); return 2; }
    { Res z = run_plan(p); judge(p, z); }       // everything that is set up lazily is in place
    Res r = run_plan(p); Verdict v = judge(p, r);
    if (mode == "show") for (auto& kv : r) for (size_t i = 0; i < kv.second.size(); i++) { auto& x = kv.second[i]; printf("== %s life %zu: end=%d sig=%d code=%d cli=%d cur_op=%d steps=%llu switches=%llu accesses=%llu syscalls=%llu allocs=%llu obs=%zu fds=%d msg=%s\n", kv.first.c_str(), i, x.end, x.sig, x.code, x.cli, x.cur_op, (unsigned long long)x.steps, (unsigned long long)x.nswitch, (unsigned long long)x.accesses, (unsigned long long)x.syscalls, (unsigned long long)x.allocs, x.obs.size(), x.fds, x.msg.c_str()); printf("  status:"); for (int k = 0; k < SIM_MAXOPS; k++) if (x.op_done[k]) printf(" %d:%d", k, x.op_done[k] - 1); printf("\n"); for (size_t f = 0; f < x.fault_fired.size(); f++) printf("  fault %zu fired %d\n", f, x.fault_fired[f]); for (auto& m : x.mem) printf("  mem: %s\n", m.c_str()); for (auto& q : x.race) printf("  race: %s %s\n", sym(q.pc1).c_str(), sym(q.pc2).c_str()); for (auto& d : x.disk) printf("  file %s %zu\n", d.first.c_str(), d.second.size()); if (getenv("SHOW_OUT")) printf("%s\n", x.out.c_str()); if (getenv("SHOW_TRACE")) { for (auto& e : x.trace) printf("%d:%d:%s ", e.op, e.kind, e.file < (int)x.tnames.size() ? x.tnames[e.file].c_str() : ""); printf("\n"); } }
    if (v.bad) { printf("REPRODUCED %s: %s\n", v.cls.c_str(), v.msg.c_str()); printf("HASH %016llx\n", (unsigned long long)total_hash(r)); return 1; }
    printf("no violation\nHASH %016llx\n", (unsigned long long)total_hash(r)); return 0;
  }
  if (mode != "batch") return usage();
  double t0 = now(), tsearch = 0; std::set<uint64_t> fps, sched; uint64_t nontriv = 0, done = 0, checked2 = 0, nondet = 0; uint64_t budget_hit = 0; std::vector<std::string> samples; std::string viol_json; std::map<std::string, std::array<uint64_t, 3>> calls;
  { Plan p = generate(prop, seed, worker); Res r = run_plan(p); judge(p, r); }
  for (uint64_t n = worker; n < maxruns; n += workers) {
    if (now() - t0 > secs) { budget_hit = 1; break; }
    Plan p = generate(prop, seed, n); Res r = run_plan(p); Verdict v = judge(p, r); done++;
    uint64_t fp = fingerprint(p, r); bool nt = nontrivial(p, r); if (nt) { nontriv++; fps.insert(fp); }
    for (auto& kv : r) for (auto& l : kv.second) if (l.nswitch) sched.insert(l.sched_hash);
    for (auto& s : p.scripts) { auto it = r.find(s.name); if (it == r.end()) continue; for (size_t l = 0; l < s.lives.size() && l < it->second.size(); l++) for (auto& o : s.lives[l].ops) { int st = it->second[l].st(o.id); if (st >= 0 && st < 99) calls[o.a[0]][st ? 1 : 0]++; else if (st < 0 && it->second[l].cur_op == o.id) calls[o.a[0]][2]++; } }
    if (nt && samples.size() < 3) samples.push_back(plan_text(p).substr(0, 3000));
    if (!v.bad && done % 20 == 1) { checked2++; Res r2 = run_plan(p); if (total_hash(r2) != total_hash(r)) { nondet++; std::ofstream(out + "/nondet." + std::to_string(n) + ".plan") << plan_text(p); } }
    if (v.bad) {
      tsearch = now() - t0;
      Res r2 = run_plan(p); Verdict v2 = judge(p, r2); bool same = v2.bad && v2.cls == v.cls && total_hash(r) == total_hash(r2);
      Min m; m.cls = v.cls; m.msg = v.msg; m.deadline = now() + minsecs; m.best = p; size_t sz0 = plan_text(p).size();
      if (same) m.go(p);
      Res r3 = run_plan(m.best); Verdict v3 = judge(m.best, r3);
      std::string f = out + "/" + prop + "-s" + std::to_string(seed) + "-r" + std::to_string(n) + ".plan";
      std::ofstream o(f, std::ios::binary); o << "# violation of " << prop << " (" << v.cls << "), seed " << seed << ", run " << n << "\n"; { std::string msg = v3.bad ? v3.msg : v.msg; for (char& c : msg) if (c == '\n') c = ' '; o << "# " << msg << "\n"; } o << plan_text(m.best); o.close();
      std::ostringstream q; q << "{\"run\":" << n << ",\"class\":" << js(v3.bad ? v3.cls : v.cls) << ",\"msg\":" << js(v3.bad ? v3.msg : v.msg) << ",\"replay\":" << js(f) << ",\"same\":" << (same && v3.bad ? 1 : 0) << ",\"tries\":" << m.tries << ",\"bytes_before\":" << sz0 << ",\"bytes_after\":" << plan_text(m.best).size() << ",\"hash\":\"" << hex16(total_hash(r3)) << "\"}";
      viol_json = q.str(); break;
    }
  }
  if (!tsearch) tsearch = now() - t0;
  static const char* kn[] = {"open", "create", "read", "write", "seek", "stat", "close", "rename", "unlink", "truncate", "sync", "alloc"}; static const char* an[] = {"error", "short transfer", "short transfer then error", "kill before", "kill after", "kill with torn write"};
  printf("{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"schedules\":%zu,\"scripts\":%llu,\"lives\":%llu,\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"syscalls\":%llu,\"allocs\":%llu,\"simtime_us\":%llu,\"regions\":%llu,\"kills\":%llu,\"pswitch\":%llu,\"pevents\":%llu,\"outfail\":%llu,\"rerun\":%llu,\"nondet\":%llu,\"budget\":%llu,\"seconds\":%.3f,\"fired\":{", (unsigned long long)done, (unsigned long long)nontriv, fps.size(), sched.size(), (unsigned long long)stats.scripts, (unsigned long long)stats.lives, (unsigned long long)stats.steps, (unsigned long long)stats.nswitch, (unsigned long long)stats.accesses, (unsigned long long)stats.syscalls, (unsigned long long)stats.allocs, (unsigned long long)stats.simtime, (unsigned long long)stats.regions, (unsigned long long)stats.kills, (unsigned long long)stats.pswitch, (unsigned long long)stats.pevents, (unsigned long long)stats.outfail, (unsigned long long)checked2, (unsigned long long)nondet, (unsigned long long)budget_hit, tsearch);
  for (int i = 0; i < SYS_NKINDS; i++) printf("%s\"%s\":%llu", i ? "," : "", kn[i], (unsigned long long)stats.fired[i]);
  printf("},\"actions\":{"); for (int i = 0; i < 6; i++) printf("%s\"%s\":%llu", i ? "," : "", an[i], (unsigned long long)stats.fired_act[i]);
  printf("},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) printf("%s%s", i ? "," : "", js(samples[i]).c_str());
  printf("],\"calls\":{"); { bool c = false; for (auto& kv : calls) { printf("%s\"%s\":[%llu,%llu,%llu]", c ? "," : "", kv.first.c_str(), (unsigned long long)kv.second[0], (unsigned long long)kv.second[1], (unsigned long long)kv.second[2]); c = true; } }
  if (!fpfile.empty()) { std::ofstream o(fpfile); for (auto x : fps) o << "c " << std::hex << x << "\n"; for (auto x : sched) o << "s " << std::hex << x << "\n"; }
  printf("},\"violation\":%s}\n", viol_json.empty() ? "null" : viol_json.c_str());
  return viol_json.empty() ? 0 : 1;
}
