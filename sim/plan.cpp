#include "plan.h"
#include "model.h"
#include <cstdio>
#include <cstring>
#include <sstream>

std::vector<std::string> split(const std::string& s, char sep) { std::vector<std::string> r; std::string c; for (char x : s) if (x == sep) { r.push_back(c); c.clear(); } else c += x; r.push_back(c); return r; }
std::vector<int> ints(const std::string& s) { std::vector<int> r; if (s.empty() || s == "-") return r; for (auto& x : split(s, ',')) r.push_back(atoi(x.c_str())); return r; }
std::string join(const std::vector<int>& v) { if (v.empty()) return "-"; std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += std::to_string(v[i]); } return s; }
std::string esc(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) if (c > 32 && c < 127 && c != '%') r += c; else { snprintf(b, 4, "%%%02x", c); r += b; } return r.empty() ? "%" : r; }
std::string unesc(const std::string& s) { if (s == "%") return ""; std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }
SimFault mkfault(int op, int kind, int nth, int action, int err, int sticky, int arg, const char* path) {
  SimFault f; memset(&f, 0, sizeof f); f.op = op; f.kind = kind; f.nth = nth; f.action = action; f.err = err; f.sticky = sticky; f.arg = arg; snprintf(f.path, sizeof f.path, "%s", path); return f;
}
SimKnobs default_knobs() {
  SimKnobs k; memset(&k, 0, sizeof k);
  k.maxthreads = 1; k.team = 0; k.policy = POL_SERIAL; k.sched_seed = 0; k.gap = 100; k.pct_d = 3; k.pct_k = 20000; k.rr_q = 50; k.rtsched = 0;
  k.blksize = 4096; k.capacity = -1; k.fill = 0; k.heapshift = 0; k.clock0 = 1700000000000000ll; k.pid = 4242; k.rnd = 1; k.env = 0;
  k.out_fail_at = -1; k.out_fail_len = -1; k.out_sync_fail = 0; k.memlimit = 200ll << 20; k.stackfill = 0;
  return k;
}
#define KNOBS(X) X(maxthreads) X(team) X(policy) X(sched_seed) X(gap) X(pct_d) X(pct_k) X(rr_q) X(rtsched) X(blksize) X(capacity) X(fill) X(heapshift) X(clock0) X(pid) X(rnd) X(env) X(out_fail_at) X(out_fail_len) X(out_sync_fail) X(memlimit) X(stackfill)
std::string plan_text(const Plan& p) {
  std::ostringstream o; o << "plan " << p.prop << " seed=" << p.seed << " run=" << p.run << "\n";
  for (auto& kv : p.par) o << "par " << kv.first << " " << esc(kv.second) << "\n";
  for (auto& f : p.files) { o << "file " << esc(f.name); for (auto& a : f.a) o << " " << esc(a); o << "\n"; }
  SimKnobs d = default_knobs();
  for (auto& s : p.scripts) {
    o << "script " << s.name << "\n";
    for (auto& l : s.lives) {
      o << "life";
#define X(n) if (l.k.n != d.n) o << " " #n "=" << l.k.n;
      KNOBS(X)
#undef X
      o << "\n";
      for (auto& op : l.ops) { o << "op " << op.id; for (auto& a : op.a) o << " " << esc(a); o << "\n"; }
      for (auto& f : l.faults) o << "fault op=" << f.op << " kind=" << f.kind << " nth=" << f.nth << " action=" << f.action << " err=" << f.err << " sticky=" << f.sticky << " arg=" << f.arg << " path=" << esc(f.path) << "\n";
      for (auto& s2 : l.exp) o << "sw " << s2.step << " " << s2.tid << " " << s2.forced << "\n";
    }
  }
  return o.str();
}
bool plan_parse(const std::string& text, Plan& p, std::string& err) {
  p = Plan(); std::istringstream in(text); std::string line; Life* l = nullptr;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    auto t = split(line, ' ');
    if (t[0] == "plan") { p.prop = t[1]; for (auto& x : t) { if (!x.compare(0, 5, "seed=")) p.seed = strtoull(x.c_str() + 5, 0, 10); if (!x.compare(0, 4, "run=")) p.run = strtoull(x.c_str() + 4, 0, 10); } }
    else if (t[0] == "par") p.par[t[1]] = unesc(t[2]);
    else if (t[0] == "file") { FileSpec f; f.name = unesc(t[1]); for (size_t i = 2; i < t.size(); i++) f.a.push_back(unesc(t[i])); p.files.push_back(f); }
    else if (t[0] == "script") { p.scripts.emplace_back(); p.scripts.back().name = t[1]; l = nullptr; }
    else if (t[0] == "life") {
      if (p.scripts.empty()) { err = "life before script"; return false; }
      p.scripts.back().lives.emplace_back(); l = &p.scripts.back().lives.back(); l->k = default_knobs();
      for (size_t i = 1; i < t.size(); i++) { size_t e = t[i].find('='); if (e == std::string::npos) continue; std::string n = t[i].substr(0, e), v = t[i].substr(e + 1);
#define X(nm) if (n == #nm) l->k.nm = (decltype(l->k.nm))(v[0] == '-' ? strtoll(v.c_str(), 0, 10) : (long long)strtoull(v.c_str(), 0, 10));
        KNOBS(X)
#undef X
      }
    } else if (t[0] == "op" && l) { Op o; o.id = atoi(t[1].c_str()); for (size_t i = 2; i < t.size(); i++) o.a.push_back(unesc(t[i])); l->ops.push_back(o); }
    else if (t[0] == "fault" && l) {
      SimFault f = mkfault(-1, -1, 0, 0);
      for (size_t i = 1; i < t.size(); i++) { size_t e = t[i].find('='); std::string n = t[i].substr(0, e), v = t[i].substr(e + 1);
        if (n == "op") f.op = atoi(v.c_str()); else if (n == "kind") f.kind = atoi(v.c_str()); else if (n == "nth") f.nth = atoi(v.c_str()); else if (n == "action") f.action = atoi(v.c_str());
        else if (n == "err") f.err = atoi(v.c_str()); else if (n == "sticky") f.sticky = atoi(v.c_str()); else if (n == "arg") f.arg = atoi(v.c_str()); else if (n == "path") snprintf(f.path, sizeof f.path, "%s", unesc(v).c_str()); }
      l->faults.push_back(f);
    } else if (t[0] == "sw" && l) { SimSwitch s; s.step = strtoull(t[1].c_str(), 0, 10); s.tid = atoi(t[2].c_str()); s.forced = t.size() > 3 ? atoi(t[3].c_str()) : 0; l->exp.push_back(s); }
    else { err = "bad line: " + line; return false; }
  }
  return true;
}

// file <name> wout <spec> <version> <style> [mutations...]
// file <name> boozmn <spec> <flux> <mboz> <nboz> <surfs> <version> <style> [mutations...]
// file <name> text <content> | junk <n> <seed> | dir
static void mutate(NcFile& f, const std::string& m, std::vector<std::string>& late) {
  auto t = split(m, ':');
  if (t[0] == "del") { for (size_t i = 0; i < f.vars.size(); i++) if (f.vars[i].name == t[1]) { f.vars.erase(f.vars.begin() + i); return; } }
  else if (t[0] == "ren") { if (NcVar* v = f.var(t[1])) v->name = t[2]; }
  else if (t[0] == "set") { if (NcVar* v = f.var(t[1])) { size_t i = atoi(t[2].c_str()); if (i < v->v.size()) v->v[i] = atof(t[3].c_str()); } }
  else if (t[0] == "dim") { int d = f.dim(t[1]); if (d >= 0) {        // consistent resize of a dimension: every variable keeps its leading values
      uint64_t nl = strtoull(t[2].c_str(), 0, 10);
      for (auto& v : f.vars) {
        if (v.v.empty()) continue;
        bool uses = false; for (int x : v.dims) if (x == d) uses = true;
        if (!uses) continue;
        uint64_t c = 1; for (int x : v.dims) c *= x == d ? nl : f.dims[x].len;
        v.v.resize(c, 0.25);
      }
      f.dims[d].len = nl; } }
  else if (t[0] == "deldim") { int d = f.dim(t[1]); if (d >= 0) f.dims[d].name = "other_" + t[1]; }
  else if (t[0] == "vlen") {                                          // give one variable its own dimension (one axis)
    if (NcVar* v = f.var(t[1])) { size_t ax = atoi(t[2].c_str()); if (ax < v->dims.size()) { f.dims.push_back({"own_" + t[1], strtoull(t[3].c_str(), 0, 10)}); v->dims[ax] = (int)f.dims.size() - 1; v->v.resize(f.count(*v), 0.5); } } }
  else if (t[0] == "rank") {                                          // scalar <-> array
    if (NcVar* v = f.var(t[1])) { uint64_t n = strtoull(t[2].c_str(), 0, 10); if (!n) { v->dims.clear(); v->v.resize(1, 0); } else { f.dims.push_back({"own_" + t[1], n}); v->dims.push_back((int)f.dims.size() - 1); v->v.resize(f.count(*v), 0.5); } } }
  else if (t[0] == "swapdims") { if (NcVar* v = f.var(t[1])) if (v->dims.size() == 2) std::swap(v->dims[0], v->dims[1]); }
  else if (t[0] == "flat") { if (NcVar* v = f.var(t[1])) if (v->dims.size() == 2) { f.dims.push_back({"own_" + t[1], (uint64_t)f.count(*v)}); v->dims = {(int)f.dims.size() - 1}; } }
  else if (t[0] == "type") { if (NcVar* v = f.var(t[1])) { int nt = atoi(t[2].c_str()); if (nt == NCT_CHAR) { v->s.assign(f.count(*v), 'x'); v->v.clear(); } v->type = nt; } }
  else if (t[0] == "dup") { if (NcVar* v = f.var(t[1])) { NcVar w = *v; w.name = t[2]; f.vars.push_back(w); } }
  else late.push_back(m);
}
std::vector<unsigned char> file_bytes(const FileSpec& s) {
  std::vector<unsigned char> b; const auto& a = s.a; size_t m0 = 0; NcFile f;
  if (a[0] == "text") { std::string t = a.size() > 1 ? a[1] : ""; return std::vector<unsigned char>(t.begin(), t.end()); }
  if (a[0] == "junk") { size_t n = atoi(a[1].c_str()); uint64_t x = strtoull(a[2].c_str(), 0, 10) * 77 + 1; for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; b.push_back((unsigned char)(x >> 56)); } return b; }
  if (a[0] == "wout") { f = wout_file(WSpec::parse(a[1]), atoi(a[2].c_str()), atoi(a[3].c_str())); m0 = 4; }
  else if (a[0] == "boozmn") { f = booz_file(WSpec::parse(a[1]), atoi(a[2].c_str()), atoi(a[3].c_str()), atoi(a[4].c_str()), ints(a[5]), atoi(a[6].c_str()), atoi(a[7].c_str())); m0 = 8; }
  else return b;
  std::vector<std::string> late;
  for (size_t i = m0; i < a.size(); i++) mutate(f, a[i], late);
  b = nc_encode(f);
  for (auto& m : late) {
    auto t = split(m, ':'); size_t n = b.size();
    if (t[0] == "cut") { size_t k = strtoull(t[1].c_str(), 0, 10); if (k < n) b.resize(k); }
    else if (t[0] == "cutpm") { b.resize((size_t)((double)n * atoi(t[1].c_str()) / 1000.0)); }
    else if (t[0] == "cutend") { size_t k = strtoull(t[1].c_str(), 0, 10); b.resize(k < n ? n - k : 0); }
    else if (t[0] == "cuthdr") { size_t k = (size_t)((double)f.header_size * atoi(t[1].c_str()) / 1000.0); if (k < n) b.resize(k); }
    else if (t[0] == "cutvar") { if (NcVar* v = f.var(t[1])) { size_t k = v->begin + (size_t)((double)v->vsize * atoi(t[2].c_str()) / 1000.0); if (k < n) b.resize(k); } }
    else if (t[0] == "magic") { if (n > 3) b[(size_t)atoi(t[1].c_str()) & 3] ^= 0x41; }
    else if (t[0] == "empty") b.clear();
  }
  return b;
}
