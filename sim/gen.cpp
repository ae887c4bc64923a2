#include "gen.h"
#include <sstream>
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <set>

typedef std::vector<std::string> V;
static std::string S(long v) { return std::to_string(v); }

// ------------------------------------------------------------- building blocks
static bool wide = true;         // rare large sizes allowed (switched off for plans that would take too long)
static WSpec rspec(R& r, bool small = false) {
  WSpec w; w.seed = r.in(1, 1000); w.nfp = r.in(1, 5); w.mpol = small ? 2 : r.in(2, 5); w.ntor = small ? r.in(0, 1) : r.in(0, 3); w.ns = r.in(4, 9); w.asym = r.p(0.45);
  if (r.p(0.1)) w.ns = 3;
  if (r.p(0.05)) w.ns = r.in(12, 30);
  if (wide && r.p(0.08)) w.seed = 1000 + r.in(0, 63);
  bool low = wide && r.p(0.02); if (low) w.mpol = 1;
  if (wide && r.p(0.04)) w.nfp = r.in(6, 20);
  if (wide && !small && r.p(0.03)) { w.mpol = r.in(5, 9); w.ntor = r.in(0, 6); w.ns = r.in(3, 6); }
  if (wide && r.p(0.03)) { w.ns = r.p(0.5) ? r.in(31, 120) : r.of(std::vector<int>{50, 65, 66, 99, 104, 108}); w.mpol = 2; w.ntor = r.in(0, 1); }
  w.mq = w.mpol + r.in(0, 2); w.nq = w.ntor + r.in(0, 2); if (w.ntor == 0 && r.p(0.7)) w.nq = 0;
  if (low && w.mpol == 1) w.mq = r.in(0, 3);
  return w;
}
static FileSpec wfile(const std::string& name, const WSpec& w, R& r, V mut = {}) { FileSpec f; f.name = name; f.a = {"wout", w.str(), S(r.of(std::vector<int>{1, 2, 2, 2, 5})), S(r.in(0, 15))}; for (auto& m : mut) f.a.push_back(m); return f; }
static void rres(R& r, int& mb, int& nb) { mb = r.in(1, 4); nb = r.in(0, 2); if (r.p(0.2)) { mb = r.in(1, 6); nb = r.in(0, 3); } if (r.p(0.05)) { mb = r.in(6, 9); nb = r.in(2, 5); } if (wide && r.p(0.01)) { mb = r.in(10, 18); nb = r.in(3, 9); } if (wide && r.p(0.015)) { if (r.p(0.6)) { mb = r.in(1, 2); nb = r.in(9, 24); } else { mb = r.in(12, 40); nb = 0; } } }
static std::vector<int> rsurfs(R& r, int ns, int maxn = 6, bool dups = true) {
  std::vector<int> v; int n = r.in(1, maxn);
  for (int i = 0; i < n; i++) v.push_back(r.in(0, ns - 2));
  if (!dups || r.p(0.3)) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  if (r.p(0.1)) { v.clear(); for (int i = 0; i < ns - 1 && i < 10; i++) v.push_back(i); }
  if (ns > 30 && r.p(0.4)) { v.clear(); for (int i = 0; i < ns - 1; i++) v.push_back(i); if (r.p(0.3)) v.push_back(r.in(0, ns - 2)); }
  else if (wide && r.p(0.015)) { v.clear(); int m = r.in(12, 80); for (int i = 0; i < m; i++) v.push_back(r.in(0, ns - 2)); }
  return v;
}
static void rsched(R& r, SimKnobs& k, bool conc = true) {
  k.maxthreads = conc ? r.in(2, 8) : 1; if (wide && conc && r.p(0.06)) k.maxthreads = r.of(std::vector<int>{9, 12, 16, 17, 24, 32, 33, 64, 65}); k.team = r.p(0.15) ? r.in(1, k.maxthreads) : 0; k.sched_seed = r.next() % 1000000007; k.rtsched = r.in(0, 2);
  switch (r.in(0, 9)) {
    case 0: case 1: case 2: case 3: k.policy = POL_RANDOM; k.gap = r.of(std::vector<int>{3, 20, 60, 200, 1000, 5000, 20000}); break;
    case 4: case 5: k.policy = POL_PCT; k.pct_d = r.in(1, 12); k.pct_k = r.of(std::vector<int>{3000, 30000, 300000, 2000000}); break;
    case 6: k.policy = POL_RR; k.rr_q = r.of(std::vector<int>{7, 40, 300, 3000}); break;
    case 7: case 8: k.policy = POL_SYNC; break;
    default: k.policy = POL_SERIAL;
  }
}
static void rknobs(R& r, SimKnobs& k) {
  k.fill = r.next() % 1000000007; k.heapshift = r.in(0, 4000); k.clock0 = 1000000000000000ll + (int64_t)(r.next() % 900000000000000ull); k.pid = r.in(2, 60000); k.rnd = r.next() % 1000000007; k.env = r.in(0, 9);
  k.blksize = r.of(std::vector<int>{512, 1024, 4096, 8192, 65536}); k.stackfill = r.in(0, 255);
}
struct B {                       // script builder: keeps operation numbers
  std::vector<Op> ops; int id = 1;
  int add(V a) { Op o; o.id = id++; o.a = a; ops.push_back(o); return o.id; }
};
static Life life(const std::vector<Op>& ops, SimKnobs k = default_knobs()) { Life l; l.k = k; l.ops = ops; return l; }
static Script script(const std::string& n, Life l) { Script s; s.name = n; s.lives.push_back(l); return s; }

// events of one operation in a probe run
struct Ev { int kind, nth; std::string file; };
static std::vector<Ev> events(const LifeResult& r, int op) {
  std::vector<Ev> v; int cnt[SYS_NKINDS] = {0};
  for (auto& t : r.trace) if (t.op == op) { Ev e; e.kind = t.kind; e.nth = cnt[t.kind]++; e.file = t.file < (int)r.tnames.size() ? r.tnames[t.file] : ""; v.push_back(e); }
  return v;
}
static SimFault disk_fault1(R& r, int op, const Ev& e, bool kill) {
  static const std::vector<int> we = {ENOSPC, EIO, EDQUOT, EFBIG, EINTR}, re = {EIO, EIO, EINTR, ESTALE}, oe = {EIO, EACCES, EMFILE, ENFILE, ENOSPC, ENOMEM, EINTR}, ge = {EIO, ENOSPC, EACCES};
  if (kill) {
    int act = e.kind == SYS_WRITE ? r.of(std::vector<int>{ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_TORN, ACT_KILL_TORN}) : r.p(0.5) ? ACT_KILL_BEFORE : ACT_KILL_AFTER;
    return mkfault(op, e.kind, e.nth, act, 5, 0, r.in(0, 99));
  }
  int sticky = r.p(0.35);
  switch (e.kind) {
    case SYS_WRITE: { int a = r.in(0, 3); if (a == 0) return mkfault(op, e.kind, e.nth, ACT_SHORT, 5, sticky, r.in(1, 99)); if (a == 1) return mkfault(op, e.kind, e.nth, ACT_SHORT_ERR, r.of(we), sticky, r.in(0, 99)); return mkfault(op, e.kind, e.nth, ACT_ERR, r.of(we), sticky); }
    case SYS_READ: return mkfault(op, e.kind, e.nth, ACT_ERR, r.of(re), sticky);
    case SYS_OPEN: case SYS_CREATE: return mkfault(op, e.kind, e.nth, ACT_ERR, r.of(oe), sticky);
    default: return mkfault(op, e.kind, e.nth, ACT_ERR, r.of(ge), sticky);
  }
}
// an interrupted call may be retried forever by the C++ library, so EINTR never lasts
static SimFault disk_fault(R& r, int op, const Ev& e, bool kill) { SimFault f = disk_fault1(r, op, e, kill); if (f.err == EINTR) f.sticky = 0; return f; }
static bool pick_fault(R& r, const LifeResult& pr, int op, bool kill, std::vector<SimFault>& out, const std::set<int>& kinds = {}) {
  auto ev = events(pr, op);
  if (!kinds.empty()) ev.erase(std::remove_if(ev.begin(), ev.end(), [&](const Ev& e) { return !kinds.count(e.kind); }), ev.end());
  if (ev.empty()) return false;
  // half of the time choose the kind first: rare kinds (open, seek, close, rename) get their share
  Ev e = r.of(ev);
  if (r.p(0.5)) { std::set<int> ks; for (auto& x : ev) ks.insert(x.kind); int k = r.of(std::vector<int>(ks.begin(), ks.end())); std::vector<Ev> s; for (auto& x : ev) if (x.kind == k) s.push_back(x); e = r.of(s); }
  out.push_back(disk_fault(r, op, e, kill)); return true;
}
// which allocation of an operation fails: every call site and size gets its share
static int pick_alloc(R& r, const LifeResult& pr, int o) {
  int na = pr.allocs_op[o]; std::vector<int> c; for (auto& a : pr.asite) if (a.op == o) c.push_back(a.idx);
  if (!c.empty() && r.p(0.6)) return r.of(c);
  return r.p(0.15) ? r.in(0, std::min(5, na - 1)) : r.in(0, na - 1);
}
static LifeResult probe(const Plan& p, const std::vector<Op>& ops, SimKnobs k) { Script s = script("probe", life(ops, k)); auto r = run_script(p, s); return r.empty() ? LifeResult() : r[0]; }

// an equilibrium loaded and settings chosen; returns the description of what is loaded
struct Eq { WSpec w; std::string file; bool flux = false; int mb = 0, nb = 0; std::vector<int> surfs; };
static Eq neweq(R& r, Plan& p, int i, bool small = false) { Eq e; e.w = rspec(r, small); e.file = "w" + S(i) + ".nc"; p.files.push_back(wfile(e.file, e.w, r)); e.flux = r.p(0.4); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns); return e; }
static int op_read(B& b, R& r, const std::string& o, const Eq& e) { return r.p(0.15) ? b.add({"initv", o, e.w.str(), S(e.flux)}) : b.add({"read", o, e.file, S(e.flux)}); }
static void op_settings(B& b, const std::string& o, const Eq& e) { b.add({"set", o, "mboz", S(e.mb)}); b.add({"set", o, "nboz", S(e.nb)}); b.add({"surfs", o, join(e.surfs)}); }

// ------------------------------------------------------------- C01..C03
static void genC01(R& r, Plan& p) {
  Eq e = neweq(r, p, 0), e2 = neweq(r, p, 1); B b; int v = r.p(0.3) ? r.in(1, 2) : 0;
  b.add({"new", "a"}); b.add({"set", "a", "verbose", S(v)}); op_read(b, r, "a", e); op_settings(b, "a", e); b.add({"run", "a"}); b.add({"obs", "a", "1", "out"});
  if (r.p(0.4)) { rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns); op_settings(b, "a", e); b.add({"run", "a"}); b.add({"obs", "a", "2", "out"}); }
  if (r.p(0.3)) { op_read(b, r, "a", e2); op_settings(b, "a", e2); b.add({"run", "a"}); b.add({"obs", "a", "3", "out"}); }
  p.scripts.push_back(script("base", life(b.ops)));
  int n = r.in(2, 4); for (int i = 0; i < n; i++) { SimKnobs k = default_knobs(); rsched(r, k); p.scripts.push_back(script("par" + S(i), life(b.ops, k))); }
}
static void genC02(R& r, Plan& p) {
  Eq e = neweq(r, p, 0), e2 = neweq(r, p, 1); B b; int v = r.of(std::vector<int>{0, 0, 1, 2, 3});
  if (e.surfs.size() < 2) e.surfs.push_back(r.in(0, e.w.ns - 2));
  b.add({"new", "a"}); b.add({"set", "a", "verbose", S(v)}); op_read(b, r, "a", e); op_settings(b, "a", e); b.add({"run", "a"});
  if (r.p(0.3)) { op_read(b, r, "a", e2); op_settings(b, "a", e2); b.add({"run", "a"}); }
  if (r.p(0.15)) { b.add({"new", "c"}); b.add({"set", "c", "verbose", S(v)}); op_read(b, r, "c", e2); op_settings(b, "c", e2); b.add({"par", "a", "c"}); }
  int n = r.in(1, 3); for (int i = 0; i < n; i++) { SimKnobs k = default_knobs(); rsched(r, k); p.scripts.push_back(script("par" + S(i), life(b.ops, k))); }
}
static void genC03(R& r, Plan& p) {
  Eq e = neweq(r, p, 0); auto mk = [&](const std::vector<int>& s, bool redo) {
    B b; Eq q = e; q.surfs = s; b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.8) ? "0" : "1"}); b.add({"read", "a", e.file, S(e.flux)});
    if (redo) { Eq z = e; z.surfs = rsurfs(r, e.w.ns); op_settings(b, "a", z); b.add({"run", "a"}); }
    op_settings(b, "a", q); int k = b.add({"run", "a"}); b.add({"mustok", S(k), "run"}); b.add({"chkout", "a", e.w.str(), S(e.mb), S(e.nb), join(s)}); b.add({"obs", "a", "1", "out"}); return b.ops; };
  p.par["surfs"] = join(e.surfs);
  SimKnobs k = default_knobs(); rsched(r, k, r.p(0.85)); rknobs(r, k);
  p.scripts.push_back(script("list", life(mk(e.surfs, r.p(0.25)), k)));
  std::vector<int> q = e.surfs; std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end());
  for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[r.next() % i]);
  if (q.size() > 2) q.resize(2);
  for (int s : q) { SimKnobs k1 = default_knobs(); if (r.p(0.3)) rsched(r, k1); p.scripts.push_back(script("one" + S(s), life(mk({s}, false), k1))); }
  if (r.p(0.5)) { std::vector<int> perm = e.surfs; for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[r.next() % i]); p.par["perm"] = join(perm); SimKnobs k2 = default_knobs(); rsched(r, k2); p.scripts.push_back(script("perm", life(mk(perm, false), k2))); }
}
// ------------------------------------------------------------- C04, C05
static void genC04(R& r, Plan& p) {
  Eq e = neweq(r, p, 0); B b; int v = r.of(std::vector<int>{1, 1, 2, 2, 3});
  while (e.surfs.size() < 2 || (e.surfs.size() < 6 && r.p(0.6))) e.surfs.push_back(r.in(0, e.w.ns - 2));
  b.add({"new", "a"}); b.add({"set", "a", "verbose", S(v)}); op_read(b, r, "a", e); op_settings(b, "a", e); int k = b.add({"run", "a"}); b.add({"report", S(k), e.w.str(), S(e.mb), S(e.nb), join(e.surfs), "?ok:" + S(k)});
  if (r.p(0.3)) { e.surfs = rsurfs(r, e.w.ns); op_settings(b, "a", e); k = b.add({"run", "a"}); b.add({"report", S(k), e.w.str(), S(e.mb), S(e.nb), join(e.surfs), "?ok:" + S(k)}); }
  int n = r.in(2, 4);
  for (int i = 0; i < n; i++) {
    SimKnobs q = default_knobs(); rsched(r, q); q.team = 0;
    if (r.p(0.5)) q.policy = POL_SYNC;
    p.scripts.push_back(script("par" + S(i), life(b.ops, q)));
  }
}
static void genC05(R& r, Plan& p) {
  if (r.p(0.2)) {              // command line
    WSpec w = rspec(r, true); w.mpol = r.in(1, 2) < 2 ? 2 : 2; p.files.push_back(wfile("wout_x.nc", w, r)); FileSpec f; f.name = "in.txt"; f.a = {"text", S(r.in(1, 8)) + " " + S(r.in(0, 2)) + "\nx\n" + (r.p(0.5) ? S(r.in(0, w.ns - 2)) + "\n" : "")}; p.files.push_back(f);
    B b; b.add({"cli", "in.txt"}); SimKnobs k = default_knobs(); p.scripts.push_back(script("base", life(b.ops, k)));
    auto pr = probe(p, b.ops, k);
    for (int i = 0; i < 2; i++) { SimKnobs q = k; rsched(r, q, r.p(0.5)); q.out_fail_at = r.in(0, (int)pr.out_total); q.out_fail_len = r.p(0.6) ? -1 : r.in(1, 200); q.out_sync_fail = r.p(0.3); p.scripts.push_back(script("v" + S(i), life(b.ops, q))); }
    return;
  }
  Eq e = neweq(r, p, 0), e2 = neweq(r, p, 1);
  if (r.p(0.15)) { e.w.ns = 3; e.surfs = rsurfs(r, 3); p.files[0] = wfile(e.file, e.w, r); }
  bool two = r.p(0.4), rb = r.p(0.5), cp = r.p(0.2); bool bad = r.p(0.2); uint64_t fork = r.next();
  auto mk = [&](const std::string& v) {
    R q(fork); B b; b.add({"new", "a"}); b.add({"set", "a", "verbose", v}); op_read(b, q, "a", e); b.add({"obs", "a", "1", "in"}); op_settings(b, "a", e); b.add({"run", "a"}); b.add({"obs", "a", "2", "all"}); b.add({"write", "a", "f1.nc"});
    if (bad) { b.add({"read", "a", "nofile.nc", "0"}); b.add({"readb", "a", e.file}); }
    if (two) { op_read(b, q, "a", e2); b.add({"obs", "a", "3", "in"}); op_settings(b, "a", e2); b.add({"run", "a"}); b.add({"write", "a", "f2.nc"}); b.add({"obs", "a", "4", "all"}); }
    if (rb) { b.add({"new", "c"}); b.add({"set", "c", "verbose", v}); b.add({"readb", "c", "f1.nc"}); b.add({"obs", "c", "5", "booz"}); b.add({"write", "c", "f3.nc"}); }
    if (cp) { b.add({"copy", "d", "a"}); b.add({"set", "d", "verbose", v}); b.add({"obs", "d", "6", "all"}); }
    return b.ops; };
  p.scripts.push_back(script("base", life(mk("0"))));
  int n = r.in(2, 3);
  for (int i = 0; i < n; i++) {
    SimKnobs k = default_knobs(); if (r.p(0.5)) rsched(r, k);
    auto ops = mk(S(r.of(std::vector<int>{0, 1, 1, 2, 2, 3, -1})));
    int tot = 3000;
    if (r.p(0.7)) { if (r.p(0.3)) k.out_fail_at = 0; else k.out_fail_at = r.in(0, tot); k.out_fail_len = r.p(0.6) ? -1 : r.in(1, 300); }
    k.out_sync_fail = r.p(0.25);
    p.scripts.push_back(script("v" + S(i), life(ops, k)));
  }
}
// ------------------------------------------------------------- C06
static void genC06(R& r, Plan& p) {
  int nobj = r.in(2, 3); std::vector<Eq> eq; for (int i = 0; i < 3; i++) eq.push_back(neweq(r, p, i));
  // object names a, b, c; operations as (object, op)
  struct Q { std::string o; V a; }; std::vector<std::vector<Q>> seq(nobj); int obs = 0; (void)obs;
  int res = 0;
  for (int i = 0; i < nobj; i++) {
    std::string o(1, 'a' + i); auto& s = seq[i]; s.push_back({o, {"new", o}}); s.push_back({o, {"set", o, "verbose", r.p(0.8) ? "0" : "1"}});
    int n = r.in(1, 2);
    for (int k = 0; k < n; k++) {
      Eq e = r.of(eq); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns, 4);
      B b; op_read(b, r, o, e); b.add({"obs", o, "T", "in"}); op_settings(b, o, e); b.add({"run", o}); b.add({"obs", o, "T", "all"}); std::string f = "f" + o + S(res++) + ".nc";
      if (r.p(0.7)) b.add({"write", o, f});
      if (r.p(0.25)) { b.add({"readb", o, f}); b.add({"obs", o, "T", "booz"}); }
      if (r.p(0.15)) b.add({"read", o, "nofile.nc", "0"});
      for (auto& x : b.ops) s.push_back({o, x.a});
    }
  }
  // interleave
  B all; std::vector<size_t> pos(nobj, 0); std::vector<std::pair<std::string, int>> owner; std::map<std::string, std::vector<int>> mine;   // object -> op ids (lineage included)
  auto emit = [&](const std::string& o, V a) { int id = all.id; for (auto& x : a) if (x == "T") x = S(id); all.add(a); mine[o].push_back(id); return id; };
  bool copied = false; int guard = 0;
  std::vector<Q> extra;    // operations of the copy
  auto left = [&]() { for (int i = 0; i < nobj; i++) if (pos[i] < seq[i].size()) return true; return !extra.empty(); };
  bool par = r.p(0.45);
  while (left() && guard++ < 200 && all.id < 56) {
    int i = r.in(0, nobj - 1 + (extra.empty() ? 0 : 1));
    if (i >= nobj) { Q q = extra.front(); extra.erase(extra.begin()); emit("z", q.a); continue; }
    if (pos[i] >= seq[i].size()) continue;
    int burst = r.in(1, 4);
    while (burst-- > 0 && pos[i] < seq[i].size() && all.id < 56) {
      Q q = seq[i][pos[i]];
      if (q.a[0] == "run" && par) {           // try to pair this run with runs of other objects at the same point
        std::vector<int> mates; for (int j = 0; j < nobj; j++) if (j != i && pos[j] < seq[j].size() && seq[j][pos[j]].a[0] == "run") mates.push_back(j);
        if (mates.empty()) { bool others = false; for (int j = 0; j < nobj; j++) if (j != i && pos[j] < seq[j].size()) others = true; if (others && r.p(0.85)) break; }
        else { V a = {"par", q.o}; int id = all.id; mine[q.o].push_back(id); pos[i]++; for (int j : mates) { std::string oj(1, 'a' + j); a.push_back(oj); mine[oj].push_back(id); pos[j]++; } all.add(a); continue; }
      }
      emit(q.o, q.a); pos[i]++;
      if (!copied && q.a[0] != "new" && pos[i] > 3 && r.p(0.12)) {
        copied = true; mine["z"] = mine[q.o];
        if (r.p(0.3)) { int id1 = all.id; all.add({"new", "z"}); mine["z"].push_back(id1); int id2 = all.id; all.add({"assign", "z", q.o}); mine["z"].push_back(id2); }
        else { int id = all.id; all.add({"copy", "z", q.o}); mine["z"].push_back(id); }
        Eq e = r.of(eq); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns, 4);
        extra.push_back({"z", {"obs", "z", "T", "all"}});
        if (r.p(0.6)) { B b; op_read(b, r, "z", e); op_settings(b, "z", e); b.add({"run", "z"}); b.add({"obs", "z", "T", "all"}); for (auto& x : b.ops) extra.push_back({"z", x.a}); }
        else { extra.push_back({"z", {"set", "z", "mboz", S(e.mb)}}); extra.push_back({"z", {"run", "z"}}); extra.push_back({"z", {"obs", "z", "T", "all"}}); }
        if (r.p(0.2)) extra.push_back({"z", {"del", "z"}});
      }
    }
  }
  SimKnobs k = default_knobs(); rsched(r, k, r.p(0.8)); k.maxthreads = std::min(k.maxthreads, 5);
  p.scripts.push_back(script("all", life(all.ops, k)));
  for (auto& kv : mine) {
    std::set<int> keep(kv.second.begin(), kv.second.end()); std::vector<Op> ops;
    for (auto& op : all.ops) if (keep.count(op.id)) {
      Op o = op;
      if (o.a[0] == "par") {      // alone: a plain run of the object (and of the copied lineage)
        V names(o.a.begin() + 1, o.a.end()); std::string who = kv.first;
        if (kv.first == "z") { for (auto& x : all.ops) if ((x.a[0] == "copy" || x.a[0] == "assign") && x.a[1] == "z") who = x.a[2]; if (std::find(names.begin(), names.end(), "z") != names.end()) who = "z"; }
        o.a = {"run", who};
      }
      ops.push_back(o);
    }
    SimKnobs k1 = default_knobs(); p.scripts.push_back(script("solo_" + kv.first, life(ops, k1)));
  }
}
// ------------------------------------------------------------- C07
static const std::vector<std::string> wvars = {"lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "iotas", "xm", "xn", "xm_nyq", "xn_nyq", "rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc"};
static const std::vector<std::string> wvars_flux = {"chi", "phipf", "pres", "phi"}, wvars_asym = {"rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"};
static const std::vector<std::string> bvars = {"lasym__logical__", "nfp_b", "mboz_b", "nboz_b", "mnboz_b", "ixm_b", "ixn_b", "iota_b", "bvco_b", "buco_b", "phi_b", "phip_b", "pres_b", "jlist", "bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b", "ns_b"};
static const std::vector<std::string> bvars_asym = {"bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"};
static FileSpec bfile(const std::string& name, const Eq& e, R& r, V mut = {}) { FileSpec f; f.name = name; f.a = {"boozmn", e.w.str(), S(e.flux), S(e.mb), S(e.nb), join(e.surfs), S(r.of(std::vector<int>{1, 1, 2, 5})), S(r.in(0, 7))}; for (auto& m : mut) f.a.push_back(m); return f; }

static void genC07(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 3; i++) eq.push_back(neweq(r, p, i));
  p.files.push_back(bfile("b0.nc", eq[2], r));
  { WSpec w = rspec(r); p.files.push_back(wfile("bad.nc", w, r, {"del:" + r.of(wvars)})); }
  B b; b.add({"new", "a"}); b.add({"set", "a", "verbose", "0"}); std::vector<int> faulty;
  int n = r.in(1, 4);
  for (int i = 0; i < n && b.id < 40; i++) {
    switch (r.in(0, 7)) {
      case 0: b.add({"readb", "a", "b0.nc"}); break;
      case 1: b.add({"read", "a", "bad.nc", S(r.in(0, 1))}); break;
      case 2: b.add({"read", "a", "nofile.nc", "0"}); break;
      case 3: { Eq e = r.of(eq); faulty.push_back(b.add({"read", "a", e.file, S(r.in(0, 1))})); break; }
      default: {
        Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns); op_read(b, r, "a", e);
        if (r.p(0.8)) { op_settings(b, "a", e); int k = b.add({"run", "a"}); if (r.p(0.15)) faulty.push_back(k); if (r.p(0.3)) { int q = b.add({"write", "a", "p.nc"}); if (r.p(0.3)) faulty.push_back(q); } if (r.p(0.2)) b.add({"readb", "a", "p.nc"}); }
        else b.add({"set", "a", "mboz", S(r.in(1, 4))});
      }
    }
  }
  SimKnobs k = default_knobs(); if (r.p(0.3)) rsched(r, k); rknobs(r, k);
  Life l = life(b.ops, k);
  if (!faulty.empty()) {
    auto pr = probe(p, b.ops, k);
    for (int f : faulty) { int na = f < SIM_MAXOPS ? pr.allocs_op[f] : 0; if (na > 0 && r.p(0.4)) l.faults.push_back(mkfault(f, SYS_ALLOC, pick_alloc(r, pr, f), ACT_ERR, ENOMEM, r.p(0.3))); else pick_fault(r, pr, f, false, l.faults); }
  }
  int T0 = b.id; B t; t.id = T0; Eq e = r.of(eq); e.flux = r.p(0.4); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
  if (r.p(0.25)) {            // current inputs, new settings: earlier runs on the same equilibrium must not matter
    B u; u.id = T0; op_read(u, r, "a", e); int m2, n2; for (int i = 0; i < r.in(1, 2); i++) { rres(r, m2, n2); Eq z = e; z.mb = m2; z.nb = n2; z.surfs = rsurfs(r, e.w.ns); op_settings(u, "a", z); u.add({"run", "a"}); if (r.p(0.4)) u.add({"write", "a", "p.nc"}); }
    for (auto& o : u.ops) l.ops.push_back(o);
    t.id = u.id; 
    B f; f.id = T0; f.ops.push_back(u.ops[0]); f.id = t.id; op_settings(f, "a", e); f.add({"run", "a"}); f.add({"obs", "a", "2", "all"}); f.add({"write", "a", "f.nc"});
    std::vector<Op> fresh; B h; h.id = 1; h.add({"new", "a"}); h.add({"set", "a", "verbose", "0"}); fresh = h.ops; for (auto& o : f.ops) fresh.push_back(o);
    for (size_t i = 1; i < f.ops.size(); i++) l.ops.push_back(f.ops[i]);
    p.par["from"] = S(t.id); p.scripts.push_back(script("used", l)); p.scripts.push_back(script("fresh", life(fresh, k))); return;
  }
  if (r.p(0.25)) {            // other inputs of the same sizes are assigned, the settings stay
    Eq z = e; z.w.seed = r.in(1, 1000000); B u; u.id = T0; u.add({"read", "a", e.file, S(e.flux)}); op_settings(u, "a", e); u.add({"run", "a"}); if (r.p(0.3)) u.add({"write", "a", "p.nc"}); for (auto& o : u.ops) l.ops.push_back(o);
    t.id = u.id; t.add({"fill", "a", z.w.str(), S(e.flux)}); op_settings(t, "a", e); t.add({"run", "a"}); t.add({"obs", "a", "2", "out"}); for (auto& o : t.ops) l.ops.push_back(o);
    B h; h.add({"new", "a"}); h.add({"set", "a", "verbose", "0"}); std::vector<Op> fresh = h.ops; for (auto& o : t.ops) fresh.push_back(o);
    p.par["from"] = S(t.ops[0].id); p.scripts.push_back(script("used", l)); p.scripts.push_back(script("fresh", life(fresh, k))); return;
  }
  op_read(t, r, "a", e); t.add({"obs", "a", "1", "in"});
  if (r.p(0.85) || e.w.mpol > 2) op_settings(t, "a", e); else t.add({"surfs", "a", join(e.surfs)});
  t.add({"run", "a"}); t.add({"obs", "a", "2", "all"}); t.add({"write", "a", "f.nc"});
  for (auto& o : t.ops) l.ops.push_back(o);
  std::vector<Op> fresh; { B h; h.add({"new", "a"}); h.add({"set", "a", "verbose", "0"}); fresh = h.ops; } for (auto& o : t.ops) fresh.push_back(o);
  p.par["from"] = S(T0); p.scripts.push_back(script("used", l)); p.scripts.push_back(script("fresh", life(fresh, k)));
}
// ------------------------------------------------------------- C08, C09
static void history(B& b, R& r, const std::string& o, std::vector<Eq>& eq, int n) {
  for (int i = 0; i < n; i++) {
    Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
    switch (r.in(0, 4)) { case 0: b.add({"readb", o, "b0.nc"}); break; case 1: op_read(b, r, o, e); break; default: op_read(b, r, o, e); op_settings(b, o, e); b.add({"run", o}); if (r.p(0.3)) b.add({"write", o, "h.nc"}); }
  }
}
static void genC08(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i));
  Eq eb = neweq(r, p, 2); p.files.push_back(bfile("b0.nc", eb, r)); B b;
  b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.8) ? "0" : "1"}); b.add({"new", "c"}); b.add({"set", "c", "verbose", "0"});
  history(b, r, "a", eq, r.in(0, 1)); history(b, r, "c", eq, r.in(0, 1));
  SimKnobs k = default_knobs(); if (r.p(0.4)) rsched(r, k); rknobs(r, k);
  if (r.p(0.2)) {
    int q = b.add({"readb", "a", "b0.nc"}); b.add({"mustok", S(q), "reading a valid result file"}); std::string c = "?ok:" + S(q); b.add({"chkbooz", "a", eb.w.str(), S(eb.flux), S(eb.mb), S(eb.nb), join(eb.surfs), c}); int w = b.add({"write", "a", "f1.nc", c}); b.add({"mustok", S(w), "writing"}); c = "?ok:" + S(w); b.add({"cmpdata", "b0.nc", "f1.nc", c}); b.add({"cmpfile", "a", "f1.nc", c});
  } else {
    Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
    op_read(b, r, "a", e); op_settings(b, "a", e); int ru = b.add({"run", "a"}); if (r.p(0.3)) { b.add({"write", "a", "f1.nc"}); }
    int w = b.add({"write", "a", "f1.nc"}); b.add({"mustok", S(w), "writing", "?ok:" + S(ru)}); b.add({"cmpfile", "a", "f1.nc", "?ok:" + S(w)});
    std::string tgt = r.p(0.2) ? "a" : "c"; if (tgt == "a") b.add({"copy", "z", "a"});
    int q = b.add({"readb", tgt, "f1.nc", "?ok:" + S(w)}); b.add({"mustok", S(q), "reading back"}); V cmp = {"cmpobj", tgt == "a" ? "z" : "a", tgt, "booz", "?ok:" + S(q)}; if (!e.flux) cmp.insert(cmp.begin() + 4, "noflux"); b.add(cmp);
    int w2 = b.add({"write", tgt, "f2.nc", "?ok:" + S(q)}); b.add({"mustok", S(w2), "writing reloaded results"}); b.add({"cmpdata", "f1.nc", "f2.nc", "?ok:" + S(w2)}); b.add({"cmpfile", tgt, "f2.nc", "?ok:" + S(w2)});
  }
  p.scripts.push_back(script("session", life(b.ops, k)));
}
static void genC09(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i));
  Eq eb = neweq(r, p, 2); V mut; if (r.p(0.3)) mut = {"del:chi_b"}; p.files.push_back(bfile("b0.nc", eb, r, mut)); B b;
  if (r.p(0.1)) { WSpec w = rspec(r, true); p.files.push_back(wfile("wout_x.nc", w, r)); FileSpec f; f.name = "in.txt"; f.a = {"text", "3 1\nx\n" + S(r.in(0, w.ns - 2))}; p.files.push_back(f); b.add({"cli", "in.txt"}); }
  else {
    int n = r.in(1, 2);
    for (int i = 0; i < n; i++) {
      std::string o = r.p(0.5) || i == 0 ? "a" : "c"; b.add({"new", o}); b.add({"set", o, "verbose", r.p(0.7) ? "0" : S(r.in(1, 2))}); Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
      if (r.p(0.25)) { b.add({"readb", o, "b0.nc"}); b.add({"obs", o, S(10 + i), "booz"}); b.add({"write", o, "g" + S(i) + ".nc"}); }
      op_read(b, r, o, e); b.add({"obs", o, S(20 + i), "in"}); op_settings(b, o, e); b.add({"run", o}); b.add({"obs", o, S(30 + i), "all"}); b.add({"write", o, "f" + S(i) + ".nc"});
      if (r.p(0.4)) { b.add({"readb", o, "f" + S(i) + ".nc"}); b.add({"obs", o, S(40 + i), "booz"}); b.add({"write", o, "h" + S(i) + ".nc"}); }
      if (r.p(0.2)) { b.add({"copy", "z" + S(i), o}); b.add({"obs", "z" + S(i), S(50 + i), "all"}); b.add({"write", "z" + S(i), "z" + S(i) + ".nc"}); }
    }
  }
  int n = r.in(3, 4); for (int i = 0; i < n; i++) { SimKnobs k = default_knobs(); rknobs(r, k); if (i) rsched(r, k, r.p(0.6)); p.scripts.push_back(script(i ? "v" + S(i) : "base", life(b.ops, k))); }
}
// ------------------------------------------------------------- C10..C14
static void genC10(R& r, Plan& p) {
  Eq e = neweq(r, p, 0); Eq eb = neweq(r, p, 1); B b; std::string f = "f.nc"; bool dir = r.p(0.1);
  if (dir) { FileSpec d; d.name = "out"; d.a = {"dir"}; p.files.push_back(d); f = r.p(0.8) ? "out/f.nc" : "missing/f.nc"; }
  else if (r.p(0.3)) { FileSpec j = r.p(0.5) ? bfile(f, eb, r) : FileSpec{f, {"junk", S(r.in(0, 60000)), "3"}}; p.files.push_back(j); }
  if (e.w.ns < 12 && r.p(0.3)) { e.mb = r.in(7, 12); e.nb = r.in(2, 4); e.surfs = rsurfs(r, e.w.ns, 3); }      // larger files: several blocks
  b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.8) ? "0" : "1"}); op_read(b, r, "a", e); op_settings(b, "a", e); b.add({"run", "a"});
  if (r.p(0.2)) b.add({"write", "a", f});
  int w = b.add({"write", "a", f}); b.add({"cmpfile", "a", f, "?ok:" + S(w)}); if (f[0] != 'm') b.add({"mustok", S(w), "no fault was injected but the write failed", "?nf:" + S(w)}); else b.add({"musterr", S(w), "writing into a missing directory"});
  if (r.p(0.5)) { int w2 = b.add({"write", "a", f}); b.add({"cmpfile", "a", f, "?ok:" + S(w2)}); }
  SimKnobs k = default_knobs(); rknobs(r, k);
  Life l = life(b.ops, k);
  if (r.p(0.93)) {
    auto pr = probe(p, b.ops, k); int nf = r.in(1, 2);
    if (r.p(0.2)) { size_t tot = 0; for (auto& x : pr.disk) tot += x.second.size(); size_t sz = pr.disk.count(f) ? pr.disk[f].size() : 1000; l.k.capacity = (int64_t)tot - r.in(0, (int)sz); p.par["capacity"] = "1"; }
    else for (int i = 0; i < nf; i++) pick_fault(r, pr, w, false, l.faults);
  }
  p.scripts.push_back(script("session", l));
}
static void genC11(R& r, Plan& p) {
  Eq e = neweq(r, p, 0); Eq eb = neweq(r, p, 1); std::string f = r.p(0.1) ? "out/f.nc" : "f.nc"; { FileSpec d; d.name = "out"; d.a = {"dir"}; p.files.push_back(d); }
  int old = r.in(0, 3);     // nothing, junk, valid results of another run, results written in the same process
  if (old == 1) p.files.push_back(FileSpec{f, {"junk", S(r.in(0, 60000)), "3"}}); else if (old == 2) p.files.push_back(bfile(f, eb, r));
  if (e.w.ns < 12 && r.p(0.3)) { e.mb = r.in(7, 12); e.nb = r.in(2, 4); e.surfs = rsurfs(r, e.w.ns, 3); }
  B b; b.add({"new", "a"}); b.add({"set", "a", "verbose", "0"}); op_read(b, r, "a", e);
  if (old == 3) { Eq z = e; z.mb = r.in(1, 4); z.nb = r.in(0, 2); z.surfs = rsurfs(r, e.w.ns); op_settings(b, "a", z); b.add({"run", "a"}); b.add({"write", "a", f}); }
  op_settings(b, "a", e); b.add({"run", "a"});
  b.add({"snap", f, "2"}); int w = b.add({"write", "a", f}); b.add({"snap", f, "1"});
  SimKnobs k = default_knobs(); rknobs(r, k);
  p.par["file"] = f; p.par["wop"] = S(w);
  p.scripts.push_back(script("ref", life(b.ops, k)));
  auto pr = probe(p, b.ops, k); Script s; s.name = "faulty"; int n = r.in(1, 2);
  for (int i = 0; i < n; i++) {
    Life l = life(b.ops, k); l.k.pid = r.p(0.5) ? k.pid : r.in(2, 60000); l.k.clock0 = k.clock0 + r.in(0, 100000000); l.k.rnd = r.p(0.5) ? k.rnd : r.next() % 100000;
    bool kill = r.p(0.65);
    if (!kill && r.p(0.15)) { size_t tot = 0; for (auto& x : pr.disk) tot += x.second.size(); size_t sz = pr.disk.count(f) ? pr.disk[f].size() : 1000; l.k.capacity = (int64_t)tot - r.in(0, (int)sz); p.par["capacity"] = "1"; }
    else { pick_fault(r, pr, w, kill, l.faults); if (!kill && r.p(0.4)) pick_fault(r, pr, w, r.p(0.3), l.faults); }
    s.lives.push_back(l);
  }
  // another process afterwards, on a healthy disk
  B c; c.add({"new", "a"}); c.add({"set", "a", "verbose", "0"}); c.add({"read", "a", e.file, S(e.flux)}); op_settings(c, "a", e); c.add({"run", "a"}); int w2 = c.add({"write", "a", f}); c.add({"mustok", S(w2), "saving again after the failure failed"}); c.add({"cmpfile", "a", f, "?ok:" + S(w2)});
  SimKnobs k2 = k; k2.pid = r.p(0.5) ? k.pid : r.in(2, 60000); k2.rnd = r.p(0.5) ? k.rnd : r.next() % 100000;
  s.lives.push_back(life(c.ops, k2)); p.scripts.push_back(s);
}
static void genC12(R& r, Plan& p) {
  Eq e = neweq(r, p, 0); Eq e0 = neweq(r, p, 1); bool booz = r.p(0.4); bool mutd = r.p(0.5); V mut; bool must = false; std::string what;
  if (mutd) {
    int m = r.in(0, 5);
    if (m <= 1) {
      std::vector<std::string> vs = booz ? bvars : wvars; if (e.w.asym) vs.insert(vs.end(), booz ? bvars_asym.begin() : wvars_asym.begin(), booz ? bvars_asym.end() : wvars_asym.end()); if (!booz && e.flux) vs.insert(vs.end(), wvars_flux.begin(), wvars_flux.end());
      std::string v = r.of(vs); mut = {r.p(0.5) ? "del:" + v : "ren:" + v + ":zz_" + v}; must = true; what = "required variable " + v + " is missing but reading succeeded";
    } else if (m == 2) mut = {"cutpm:" + S(r.in(0, 999))};
    else if (m == 3) mut = {"cutend:" + S(r.in(1, 64))};
    else if (m == 4) { std::vector<std::string> vs = booz ? bvars : wvars; mut = {"cutvar:" + r.of(vs) + ":" + S(r.in(0, 999))}; }
    else mut = {"cuthdr:" + S(r.in(0, 1000))};
  }
  B b; b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.8) ? "0" : S(r.in(1, 2))});
  if (r.p(0.4)) { op_read(b, r, "a", e0); if (r.p(0.5)) { op_settings(b, "a", e0); b.add({"run", "a"}); } }      // the object already holds other data
  int q;
  if (booz) { p.files.push_back(bfile("r.nc", e, r, mut)); q = b.add({"readb", "a", "r.nc"}); if (must) b.add({"musterr", S(q), what}); b.add({"chkbooz", "a", e.w.str(), S(e.flux), S(e.mb), S(e.nb), join(e.surfs), "?ok:" + S(q)}); }
  else { p.files.push_back(wfile("r.nc", e.w, r, mut)); q = b.add({"read", "a", "r.nc", S(e.flux)}); if (must) b.add({"musterr", S(q), what}); b.add({"chkin", "a", e.w.str(), S(e.flux), "?ok:" + S(q)}); }
  if (!mutd) b.add({"mustok", S(q), "no fault was injected but reading failed", "?nf:" + S(q)});
  SimKnobs k = default_knobs(); rknobs(r, k); Life l = life(b.ops, k);
  if (!mutd ? r.p(0.93) : r.p(0.2)) { auto pr = probe(p, b.ops, k); int nf = r.in(1, 2); for (int i = 0; i < nf; i++) pick_fault(r, pr, q, false, l.faults, {SYS_OPEN, SYS_READ, SYS_SEEK, SYS_STAT, SYS_CLOSE}); }
  p.par["op"] = S(q);
  p.scripts.push_back(script("session", l));
}
static void genC13(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i)); Eq eb = neweq(r, p, 2); p.files.push_back(bfile("b0.nc", eb, r));
  p.files.push_back(wfile("bad.nc", eb.w, r, {"del:" + r.of(wvars)})); p.files.push_back(FileSpec{"junk.nc", {"junk", "3000", "5"}}); p.files.push_back(bfile("badb.nc", eb, r, {"del:" + r.of(bvars)}));
  B b; b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.8) ? "0" : "1"}); std::vector<int> cand; int npair = 0, tag = 0; int n = r.in(1, 2);
  auto badcall = [&]() { if (r.p(0.25)) { int q = r.p(0.5) ? b.add({"read", "a", r.p(0.5) ? "bad.nc" : "junk.nc", S(r.in(0, 1))}) : b.add({"readb", "a", r.p(0.5) ? "badb.nc" : "junk.nc"}); b.add({"fds", "?err:" + S(q)}); } };
  for (int i = 0; i < n && b.id < 44; i++) {
    Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
    badcall();
    int q = b.add({"read", "a", e.file, S(e.flux)}); cand.push_back(q); b.add({"fds"}); int q2 = b.add({"read", "a", e.file, S(e.flux)}); b.add({"mustok", S(q2), "reading again on a healthy disk failed"}); b.add({"obs", "a", S(++tag), "in"});
    op_settings(b, "a", e); b.add({"run", "a"}); b.add({"obs", "a", S(++tag), "all"});
    int t0 = tag; int w = b.add({"write", "a", "f" + S(i) + ".nc"}); cand.push_back(w); b.add({"fds"}); { std::string l = "f0.nc,f1.nc"; for (auto& f : p.files) l += "," + f.name; b.add({"lsd", l}); } b.add({"obs", "a", S(++tag), "all"}); p.par["pair" + S(npair++)] = S(t0) + "," + S(tag);
    int w2 = b.add({"write", "a", "f" + S(i) + ".nc"}); b.add({"mustok", S(w2), "saving again on a healthy disk failed"});
    if (r.p(0.5)) { int q3 = b.add({"readb", "a", r.p(0.5) ? "b0.nc" : "f" + S(i) + ".nc"}); cand.push_back(q3); b.add({"fds"}); int q4 = b.add(b.ops[b.ops.size() - 2].a); b.add({"mustok", S(q4), "reading results again on a healthy disk failed"}); b.add({"obs", "a", S(++tag), "booz"}); }
  }
  SimKnobs k = default_knobs(); rknobs(r, k); Life l = life(b.ops, k); auto pr = probe(p, b.ops, k); int nf = r.in(1, 3);
  for (int i = 0; i < nf; i++) pick_fault(r, pr, r.of(cand), false, l.faults);
  p.scripts.push_back(script("clean", life(b.ops, k))); p.scripts.push_back(script("faulty", l));
}
static void genC14(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i)); Eq eb = neweq(r, p, 2); p.files.push_back(bfile("b0.nc", eb, r)); B b; std::vector<int> cand; int tag = 0; std::string v = r.p(0.7) ? "0" : S(r.in(1, 2));
  auto twice = [&](V a, const char* set) {
    int q = b.add(a); cand.push_back(q); b.add({"heap"}); b.add({"fds", "?err:" + S(q)}); std::string o = a[1];
    if (a[0] == "write") { b.add({"snap", a[2], S(++tag), "?ok:" + S(q)}); int q2 = b.add(a); b.add({"mustok", S(q2), "repeating a save with enough memory failed"}); b.add({"snap", a[2], S(++tag)}); b.add({"obs", o, S(++tag), "all"}); return; }
    b.add({"obs", o, S(++tag), set, "?ok:" + S(q)}); int q2 = b.add(a); b.add({"mustok", S(q2), "repeating a call with enough memory failed"}); b.add({"obs", o, S(++tag), set}); };
  b.add({"new", "a"}); b.add({"set", "a", "verbose", v}); Eq e = r.of(eq); rres(r, e.mb, e.nb); if (e.surfs.size() < 2) e.surfs.push_back(r.in(0, e.w.ns - 2)); for (int& s : e.surfs) s = std::min(s, e.w.ns - 2);
  twice(r.p(0.2) ? V{"initv", "a", e.w.str(), S(e.flux)} : V{"read", "a", e.file, S(e.flux)}, "in"); op_settings(b, "a", e);
  twice({"run", "a"}, "out"); twice({"write", "a", "f.nc"}, "all");
  if (r.p(0.4)) twice({"readb", "a", r.p(0.5) ? "b0.nc" : "f.nc"}, "booz");
  if (r.p(0.3)) { int q = b.add({"copy", "z", "a"}); cand.push_back(q); b.add({"heap"}); b.add({"copy", "z", "a"}); b.add({"obs", "z", S(++tag), "all"}); }
  SimKnobs k = default_knobs(); rsched(r, k, r.p(0.75)); rknobs(r, k); auto pr = probe(p, b.ops, k); Life l = life(b.ops, k); int nf = r.in(1, 2);
  for (int i = 0; i < nf; i++) { int o = r.of(cand); if (r.p(0.35)) for (int c : cand) for (auto& x : b.ops) if (x.id == c && x.a[0] == "run") o = c; int na = pr.allocs_op[o]; if (na <= 0) continue; l.faults.push_back(mkfault(o, SYS_ALLOC, pick_alloc(r, pr, o), ACT_ERR, ENOMEM, r.p(0.3))); }
  p.scripts.push_back(script("clean", life(b.ops, k))); p.scripts.push_back(script("faulty", l));
}
// ------------------------------------------------------------- C15
static void genC15(R& r, Plan& p) {
  Eq e = neweq(r, p, 0); bool booz = r.p(0.45); V mut; bool must = false; const Wout& o = wout(e.w); int mnb = model_mnboz(e.mb, e.nb), nb = (int)e.surfs.size(); std::string v; bool flux = e.flux;
  auto off = [&](int n) { int c = r.in(0, 6); int d = c == 0 ? n + 1 : c == 1 ? n - 1 : c == 2 ? n * 2 + 3 : c == 3 ? n + r.in(2, 40) : c == 4 ? n + 2000 : c == 5 ? n / 2 : n + 30000; if (d == n) d = n + 1; return d < 1 ? n + 1 : d; };
  std::vector<std::string> vs = booz ? bvars : wvars; if (e.w.asym) vs.insert(vs.end(), booz ? bvars_asym.begin() : wvars_asym.begin(), booz ? bvars_asym.end() : wvars_asym.end()); if (!booz && flux) vs.insert(vs.end(), wvars_flux.begin(), wvars_flux.end());
  std::vector<std::string> arr, mats, sc;
  for (auto& x : vs) { NcFile f = booz ? booz_file(e.w, e.flux, e.mb, e.nb, e.surfs, 1, 0) : wout_file(e.w, 1, 0); size_t nd = f.var(x)->dims.size(); if (nd == 0) sc.push_back(x); else { arr.push_back(x); if (nd == 2) mats.push_back(x); } }
  int kind = r.in(0, 15); p.par["kind"] = S(kind);
  if (booz) switch (kind) {
    case 0: mut = {"set:mnboz_b:0:" + S(off(mnb))}; must = true; break;
    case 1: mut = {"dim:" + std::string(r.p(0.5) ? "mn_modes" : "pack_rad") + ":" + S(off(r.p(0.5) ? mnb : nb))}; { auto t = split(mut[0], ':'); int cur = t[1] == "mn_modes" ? mnb : nb; must = atoi(t[2].c_str()) != cur; } break;
    case 2: mut = {"dim:comput_surfs:" + S(off(nb))}; must = true; break;
    case 3: { std::string x = r.of(arr); NcFile f = booz_file(e.w, e.flux, e.mb, e.nb, e.surfs, 1, 0); int ax = r.in(0, (int)f.var(x)->dims.size() - 1); int cur = (int)f.dims[f.var(x)->dims[ax]].len; mut = {"vlen:" + x + ":" + S(ax) + ":" + S(off(cur))}; must = true; break; }
    case 4: mut = {"set:ns_b:0:" + S(r.of(std::vector<int>{-3, 0, 1, 2, 1000000, 2147483647}))}; must = mut[0] != "set:ns_b:0:" + S(e.w.ns); break;
    case 5: mut = {"set:" + r.of(sc) + ":0:" + S(r.of(std::vector<int>{-1, 0, 1, 7, 1000000, 2147483647, -2147483647}))}; break;
    default: break;
  } else switch (kind) {
    case 0: mut = {"set:ns:0:" + S(off(e.w.ns))}; must = true; break;
    case 1: { bool q = r.p(0.5); mut = {std::string("set:") + (q ? "mnmax_nyq" : "mnmax") + ":0:" + S(off(q ? o.mnmax_nyq : o.mnmax))}; must = true; break; }
    case 2: { std::string d = r.of(std::vector<std::string>{"radius", "mn_mode", "mn_mode_nyq"}); mut = {"dim:" + d + ":" + S(off(d == "radius" ? e.w.ns : d == "mn_mode" ? o.mnmax : o.mnmax_nyq))}; must = true; break; }
    case 3: { std::string x = r.of(arr); NcFile f = wout_file(e.w, 1, 0); int ax = r.in(0, (int)f.var(x)->dims.size() - 1); int cur = (int)f.dims[f.var(x)->dims[ax]].len; mut = {"vlen:" + x + ":" + S(ax) + ":" + S(off(cur))}; must = true; break; }
    case 4: mut = {"set:" + std::string(r.of(std::vector<std::string>{"ns", "mnmax", "mnmax_nyq"})) + ":0:" + S(r.of(std::vector<int>{-3, -1, 0, 1, 1000000, 2147483647, -2147483647}))}; must = true; break;
    case 5: mut = {"set:" + r.of(sc) + ":0:" + S(r.of(std::vector<int>{-1, 0, 1, 7, 1000000, 2147483647, -2147483647}))}; break;
    default: break;
  }
  if (mut.empty() && r.p(0.15)) {      // sizes that agree with each other but are unusually small
    int c = r.in(0, 3); std::string n = S(r.in(0, 3));
    if (booz) mut = c < 2 ? V{"dim:comput_surfs:" + n, "dim:pack_rad:" + n} : c == 2 ? V{"set:ns_b:0:" + n, "dim:radius:" + n} : V{"set:mnboz_b:0:" + n, "dim:mn_modes:" + n, "dim:mn_mode:" + n};
    else mut = c < 2 ? V{"set:ns:0:" + n, "dim:radius:" + n} : c == 2 ? V{"set:mnmax:0:" + n, "dim:mn_mode:" + n} : V{"set:mnmax_nyq:0:" + n, "dim:mn_mode_nyq:" + n};
  }
  if (mut.empty()) switch (kind) {
    case 6: mut = {"type:" + r.of(vs) + ":" + S(r.of(std::vector<int>{2, 3, 4, 5, 6, 1}))}; break;
    case 7: mut = {"rank:" + r.of(sc) + ":" + S(r.of(std::vector<int>{2, 5, 64, 5000, 100000}))}; break;
    case 8: { std::string x = r.of(arr); mut = {"rank:" + x + ":0"}; { NcFile f = booz ? booz_file(e.w, e.flux, e.mb, e.nb, e.surfs, 1, 0) : wout_file(e.w, 1, 0); must = f.count(*f.var(x)) != 1; } break; }
    case 9: mut = {"del:" + r.of(vs)}; must = true; if (r.p(0.3)) mut.push_back("cutpm:" + S(r.in(300, 999))); break;
    case 10: mut = {"cutpm:" + S(r.in(0, 999))}; break;
    case 11: { int c = r.in(0, 3); if (c == 0) mut = {"cuthdr:" + S(r.in(0, 1000))}; else if (c == 1) mut = {"magic:" + S(r.in(0, 3))}; else if (c == 2) mut = {"empty"}; else goto dims; break; }
    case 14: {   // mode numbers, surface indices and other integers with absurd values, up to three at once
      std::vector<std::string> iv = booz ? std::vector<std::string>{"ixm_b", "ixn_b", "jlist", "nfp_b", "mboz_b", "nboz_b", "ns_b", "lasym__logical__"} : std::vector<std::string>{"xm", "xn", "xm_nyq", "xn_nyq", "nfp", "mpol", "ntor", "lasym__logical__", "xm", "xn", "xm_nyq", "xn_nyq"};
      NcFile f = booz ? booz_file(e.w, e.flux, e.mb, e.nb, e.surfs, 1, 0) : wout_file(e.w, 1, 0); int n = r.in(1, 3);
      for (int i = 0; i < n; i++) { std::string x = r.of(iv); if (!f.var(x)) continue; int c = (int)f.count(*f.var(x)); int at = r.p(0.3) ? c - 1 : r.in(0, c - 1); mut.push_back("set:" + x + ":" + S(at) + ":" + S(r.of(std::vector<int>{-2147483647 - 1, -1000, -7, -1, 0, 0, 1, 2, 3, 5, 12, 100, 300, 65536, 1000000, 2147483647}))); }
      break; }
    case 15: { std::vector<std::string> z = booz ? std::vector<std::string>{"nfp_b", "mboz_b"} : std::vector<std::string>{"nfp", "mpol", "ntor"}; std::string x = r.of(z); mut = {"set:" + x + ":0:" + S(r.of(std::vector<int>{0, 0, -1, 1, 2, -2147483647 - 1}))}; if (r.p(0.4)) mut.push_back("set:" + r.of(z) + ":0:" + S(r.in(-1, 3))); break; }
    case 13: if (r.p(0.5)) goto two; dims: { std::string x = r.of(mats); NcFile f = booz ? booz_file(e.w, e.flux, e.mb, e.nb, e.surfs, 1, 0) : wout_file(e.w, 1, 0); const auto& d = f.var(x)->dims; must = f.dims[d[0]].len != f.dims[d[1]].len; mut = {(r.p(0.7) ? "swapdims:" : "flat:") + x}; break; }
    case 12: { std::string d = booz ? r.of(std::vector<std::string>{"radius", "comput_surfs", "mn_mode"}) : r.of(std::vector<std::string>{"radius", "mn_mode"}); mut = {"deldim:" + d}; break; }
    default: two: {   // two independent size changes that hide each other in one place
      if (booz) { mut = {"set:mnboz_b:0:" + S(off(mnb)), "vlen:ixm_b:0:" + S(off(mnb))}; must = true; }
      else { int n2 = off(e.w.ns); mut = {"set:ns:0:" + S(n2), "vlen:iotas:0:" + S(n2), "vlen:phi:0:" + S(n2), "vlen:phipf:0:" + S(n2), "vlen:chi:0:" + S(n2), "vlen:pres:0:" + S(n2)}; must = true; } }
  }
  FileSpec f = booz ? bfile("d.nc", e, r, mut) : wfile("d.nc", e.w, r, mut); p.files.push_back(f);
  { FileSpec g = f; g.a.resize(g.a.size() - mut.size()); if (mut.empty() || file_bytes(g) == file_bytes(f)) must = false; }     // the change was none
  B b; b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.7) ? "0" : S(r.in(1, 2))});
  if (r.p(0.3)) { b.add({"read", "a", e.file, "0"}); if (r.p(0.5)) { op_settings(b, "a", e); b.add({"run", "a"}); } b.add({"heap"}); }
  int q = booz ? b.add({"readb", "a", "d.nc"}) : b.add({"read", "a", "d.nc", S(flux)}); b.add({"heap"});
  // a file that was accepted: what was loaded can be used
  bool use = !booz && !mut.empty(); for (auto& x : mut) { auto t = split(x, ':'); if (t[0] == "set" && (atoi(t[3].c_str()) > 300 || atoi(t[3].c_str()) < -300)) use = false; }
  if (use && r.p(0.7)) { std::string c = "?ok:" + S(q); b.add({"set", "a", "mboz", S(r.in(1, 3)), c}); b.add({"set", "a", "nboz", S(r.in(0, 1)), c}); b.add({"surfs", "a", "0", c}); b.add({"run", "a", c}); b.add({"heap"}); }
  std::string m; for (auto& x : mut) m += x + " "; if (must) b.add({"musterr", S(q), "a damaged file (" + m + ") was accepted"});
  if (r.p(0.3)) { b.add({"read", "a", e.file, "0"}); b.add({"heap"}); }
  p.par["op"] = S(q);
  SimKnobs k = default_knobs(); rknobs(r, k); p.scripts.push_back(script("session", life(b.ops, k)));
}
// ------------------------------------------------------------- C16
static std::string ws(R& r) { return r.of(std::vector<std::string>{" ", " ", "\n", "  ", "\t", "\n\n", " \n", "\r\n"}); }
static void genC16(R& r, Plan& p) {
  WSpec w = rspec(r, true); w.ns = r.in(3, 7); std::string ext = r.of(std::vector<std::string>{"x", "li383_1.4m", "a-b", "T3", "run1.nc", "wout_x", "x.tmp", "..x", "a.b.c_000"}); if (r.p(0.3)) ext = "x"; int mi = r.in(-2, 16), ni = r.in(-1, 3); if (r.p(0.5)) mi = r.in(1, 11);
  std::vector<int> sf; int ns = r.in(0, 4); for (int i = 0; i < ns; i++) sf.push_back(r.in(0, w.ns - 2));
  bool valid = true; std::string text; int c = r.in(0, 11); std::string wf = "wout_" + ext + ".nc"; V mut;
  text = (r.p(0.2) ? ws(r) : "") + S(mi) + ws(r) + S(ni) + ws(r) + ext; for (int s : sf) text += ws(r) + S(s);
  if (r.p(0.4)) text += "\n";
  if (c == 0) text += ws(r) + r.of(std::vector<std::string>{"!comment 3", "end", "# 1 2"});       // stops the list
  else if (c == 1) { sf.push_back(r.p(0.5) ? w.ns - 1 : r.p(0.5) ? -1 : 100000); text += ws(r) + S(sf.back()); if (r.p(0.4)) text += ws(r) + "0"; valid = false; }
  else if (c == 2) { valid = false; text = r.of(std::vector<std::string>{"", "3", "3 1", "x 1 " + ext, "3 y " + ext, "\n\n"}); }
  else if (c == 3) { valid = false; wf = "wout_other.nc"; }
  else if (c == 4) { valid = false; mut = {r.p(0.5) ? "del:" + r.of(wvars) : "cuthdr:" + S(r.in(0, 999))}; }
  if (r.p(0.2) && c > 2) { std::string pad(r.in(4000, 20000), ' '); size_t pos = text.find(ext) + ext.size(); text.insert(pos, pad); }
  p.files.push_back(wfile(wf, w, r, mut)); std::string cf = "in.x"; bool nofile = c == 5; if (nofile) valid = false; else p.files.push_back(FileSpec{cf, {"text", text}});
  std::string bf = "boozmn_" + ext + ".nc"; int old = r.in(0, 2); Eq eb; eb.w = rspec(r, true); eb.mb = 2; eb.nb = 1; eb.surfs = {0}; if (old == 1) p.files.push_back(FileSpec{bf, {"junk", S(r.in(0, 20000)), "9"}}); else if (old == 2) p.files.push_back(bfile(bf, eb, r));
  p.par["valid"] = valid ? "1" : "0"; p.par["file"] = bf;
  B b; b.add({"cli", cf}); SimKnobs k = default_knobs(); rknobs(r, k); if (r.p(0.4)) rsched(r, k); Life l = life(b.ops, k);
  if (r.p(0.7)) {
    auto pr = probe(p, b.ops, k); auto ev = events(pr, 1);
    if (!ev.empty()) {
      bool kill = r.p(0.3);
      if (!kill && r.p(0.1)) { size_t tot = 0; for (auto& x : pr.disk) tot += x.second.size(); size_t sz = pr.disk.count(bf) ? pr.disk[bf].size() : 1000; l.k.capacity = (int64_t)tot - r.in(0, (int)sz); p.par["capacity"] = "1"; }
      else {
        // choose the file first so that the control file gets its share
        std::set<std::string> names; for (auto& x : ev) names.insert(x.file); std::string nm = r.of(V(names.begin(), names.end())); std::vector<Ev> sub; for (auto& x : ev) if (x.file == nm) sub.push_back(x);
        Ev e = r.of(sub); SimFault f = disk_fault(r, 1, e, kill);
        if (!kill && e.kind == SYS_READ && nm == cf && r.p(0.3)) f = mkfault(1, SYS_READ, e.nth, ACT_SHORT, 5, 0, r.in(1, 99));
        l.faults.push_back(f);
      }
    }
  }
  p.scripts.push_back(script("cli", l));
  if (valid) { B a; Eq e; e.w = w; e.mb = std::max(mi, 6 * w.mpol); e.nb = std::max(ni, std::max(2 * w.ntor - 1, 0)); e.surfs = sf; std::sort(e.surfs.begin(), e.surfs.end()); if (sf.empty()) for (int i = 0; i < w.ns - 1; i++) e.surfs.push_back(i);
    a.add({"new", "a"}); a.add({"set", "a", "verbose", "0"}); a.add({"read", "a", wf, "0"}); op_settings(a, "a", e); a.add({"run", "a"}); a.add({"write", "a", "api.nc"}); p.scripts.push_back(script("api", life(a.ops))); }
}

// ------------------------------------------------------------- C17
// One token of a control file, as written by people and programs.
static std::string itok(R& r, long v) {
  std::string s = S(v);
  switch (r.in(0, 21)) {
    case 0: return "+" + s; case 1: return s + ".0"; case 2: return s + ".7"; case 3: return "0" + s; case 4: return s + "_0"; case 5: return s + ","; case 6: return "0x" + s; case 7: return s + "e0";
    case 8: return s + "!" ; case 9: return "99999999999"; case 10: return "-99999999999"; case 11: return "2147483648"; case 12: return s + "-" + S(v ? v : 1); case 13: return "'" + s + "'"; case 14: return "\xd9\xa3"; case 15: return s + "\xff"; case 16: return "- " + s; case 17: return "++" + s; case 18: return s + "a"; case 19: return "T";
    default: return s; }
}
static std::string ws17(R& r) { return r.p(0.9) ? ws(r) : r.of(std::vector<std::string>{"\v", "\f", "\r", "\xc2\xa0", "\x1c", "\x1f ", "\xe2\x80\x83", " \xe3\x80\x80 ", "\xc2\x85", std::string("\0", 1), "\t\v\f "}); }
static void genC17(R& r, Plan& p) {
  WSpec w = rspec(r, true); w.ns = r.in(3, 7);
  std::string ext = r.of(std::vector<std::string>{"x", "li383_1.4m", "a-b", "3", "x_00", "\xc3\xa9t\xc3\xa9", "\xff\xfe", "'q'", "1.5", "#c", "d/x", "10ext", "run1.nc", "wout_x"}); if (r.p(0.4)) ext = "x";
  int mi = r.in(-2, 14), ni = r.in(-1, 3); double weird = r.of(std::vector<double>{0, 0, 0.1, 0.4}), ww = r.of(std::vector<double>{0, 0, 0.3});
  auto T = [&](long v) { return r.p(weird) ? itok(r, v) : S(v); }; auto W = [&]() { return r.p(ww) ? ws17(r) : ws(r); };
  std::string text = r.p(0.2) ? W() : ""; if (r.p(0.04)) text = "\xef\xbb\xbf" + text;
  text += T(mi); if (r.p(0.95)) text += W(); text += T(ni); if (r.p(0.95)) text += W(); text += ext;
  int n = r.in(0, 4); for (int i = 0; i < n; i++) text += W() + T(r.in(0, w.ns - 2));
  if (r.p(0.5)) text += W();
  int c = r.in(0, 19);
  if (c == 0) text += " " + r.of(std::vector<std::string>{"!comment 3", "end", "# 1 2", "/", "& 1", "-", "+", "1 -"});
  else if (c == 1) text += " " + S(r.of(std::vector<long>{w.ns - 1, -1, 100000}));
  else if (c == 2) text = r.of(std::vector<std::string>{"", "3", "3 1", "3 1 ", "x 1 " + ext, "3 y " + ext, "\n\n", "3.5 1 " + ext, "3 1.5 " + ext, "-", "3 " + ext});
  else if (c == 3) { std::string t; for (char ch : text) { if (ch == '\n') t += '\r'; t += ch; } text = t; }
  else if (c == 4) { std::string pad(r.in(4000, 20000), ' '); size_t q = text.find(ext); text.insert(q == std::string::npos ? 0 : q, pad); }
  else if (c == 5) text = text.substr(0, r.in(0, (int)text.size()));
  std::string wf = "wout_" + ext + ".nc", bf = "boozmn_" + ext + ".nc", cf = r.p(0.9) ? "in.x" : r.of(std::vector<std::string>{"in booz", "\xc3\xa9", "d/in.x"}); V mut; bool miss = r.p(0.04);
  if (r.p(0.06)) mut = {r.p(0.5) ? "del:" + r.of(wvars) : "cuthdr:" + S(r.in(0, 999))};
  if (ext == "d/x" || cf == "d/in.x") { for (const char* d : {"d", "wout_d"}) p.files.push_back(FileSpec{d, {"dir"}}); if (r.p(0.7)) p.files.push_back(FileSpec{"boozmn_d", {"dir"}}); }
  if (!miss) p.files.push_back(wfile(wf, w, r, mut)); if (r.p(0.97)) p.files.push_back(FileSpec{cf, {"text", text}});
  // what a parser that cuts the tokens differently would look for
  if (r.p(0.4)) { std::string e2 = r.of(std::vector<std::string>{"x", ".0", ".7", "_0", "a", "e0", ".5", "1"}); if (e2 != ext) p.files.push_back(wfile("wout_" + e2 + ".nc", rspec(r, true), r)); }
  int old = r.in(0, 3); Eq eb; eb.w = rspec(r, true); eb.mb = 2; eb.nb = 1; eb.surfs = {0}; if (ext != "d/x") { if (old == 1) p.files.push_back(FileSpec{bf, {"junk", S(r.in(0, 20000)), "9"}}); else if (old == 2) p.files.push_back(bfile(bf, eb, r)); }
  V args = {cf}; if (r.p(0.03)) args = {}; else if (r.p(0.03)) args.push_back("2");
  auto prog = [&](const char* cmd) { V a = {cmd}; a.insert(a.end(), args.begin(), args.end()); B b; b.add(a); return b.ops; };
  SimKnobs k = default_knobs(); rknobs(r, k); auto C = prog("cli"), Y = prog("pycli");
  p.scripts.push_back(script("cpp", life(C, k))); SimKnobs ky = k; if (r.p(0.3)) rsched(r, ky); p.scripts.push_back(script("py", life(Y, ky)));
  if (!r.p(0.65)) return;
  auto pr = probe(p, r.p(0.5) ? C : Y, k); auto ev = events(pr, 1); if (ev.empty()) return;
  Life lc = life(C, k), ly = life(Y, k); int nf = r.p(0.15) ? 2 : 1;
  if (r.p(0.12)) { size_t tot = 0; for (auto& x : pr.disk) tot += x.second.size(); size_t sz = pr.disk.count(bf) ? pr.disk[bf].size() : 1000; lc.k.capacity = ly.k.capacity = (int64_t)tot - r.in(0, (int)sz); }
  else while (nf--) {
    std::set<std::string> names; for (auto& x : ev) names.insert(x.file); std::string nm = r.of(V(names.begin(), names.end())); std::set<int> ks; for (auto& x : ev) if (x.file == nm) ks.insert(x.kind); int kd = r.of(std::vector<int>(ks.begin(), ks.end()));
    std::vector<int> at; int q = 0; for (auto& x : ev) if (x.file == nm && x.kind == kd) at.push_back(q++);
    Ev e; e.kind = kd; e.nth = r.of(at); e.file = nm; SimFault f = disk_fault(r, 1, e, false); if (kd == SYS_READ && nm == cf && r.p(0.3)) f = mkfault(1, SYS_READ, e.nth, ACT_SHORT, 5, r.p(0.5), r.in(1, 99));
    snprintf(f.path, sizeof f.path, "%s", nm.c_str()); lc.faults.push_back(f); ly.faults.push_back(f);
  }
  p.scripts.push_back(script("cppf", lc)); p.scripts.push_back(script("pyf", ly));
}

// estimated number of memory accesses of the runs of a plan; the largest life counts double
// ------------------------------------------------------------- C24
static void genC24(R& r, Plan& p) {
  bool w0 = wide; wide = false; std::vector<Eq> eq; for (int i = 0; i < 2; i++) { eq.push_back(neweq(r, p, i)); if (eq[i].w.ns > 12) eq[i].w.ns = 12; p.files.back() = wfile(eq[i].file, eq[i].w, r); for (int& s : eq[i].surfs) s = std::min(s, eq[i].w.ns - 2); }
  Eq eb = neweq(r, p, 2); p.files.push_back(bfile("b0.nc", eb, r)); wide = w0;
  p.files.push_back(wfile("bad.nc", eb.w, r, {"del:" + r.of(wvars)})); p.files.push_back(FileSpec{"junk.nc", {"junk", "3000", "5"}}); p.files.push_back(bfile("badb.nc", eb, r, {"del:" + r.of(bvars)}));
  static const std::vector<std::string> ints_ = {"asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "ns_in", "mboz", "nboz", "ns_b", "mnboz"}, ivs = {"xm", "xn", "xm_nyq", "xn_nyq", "compute_surfs", "xm_b", "xn_b"}, vs = {"s_in", "iota", "phi", "phip", "chi", "pres", "Boozer_G_all", "Boozer_I_all", "s_b", "Boozer_G", "Boozer_I"},
    ms = {"rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns", "bmnc_b", "bmns_b", "gmnc_b", "gmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b", "numnc_b", "numns_b"};
  std::vector<std::string> in_arr = {"xm", "xn", "xm_nyq", "xn_nyq", "s_in", "iota", "rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"}, out_arr = {"iota", "phi", "phip", "chi", "pres", "Boozer_G_all", "Boozer_I_all", "xm_b", "xn_b", "bmnc_b", "bmns_b", "gmnc_b", "gmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b", "numnc_b", "numns_b", "compute_surfs"};
  static const std::vector<std::string> vargs = {"iotas", "rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns", "phip", "chi", "pres", "phi", "xm", "xn", "xm_nyq", "xn_nyq"};
  B b; std::vector<int> cand; std::string o = "a"; int tag = 10; b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.8) ? "0" : S(r.in(1, 2))}); b.add({"xobs", "a", "1"});
  auto delta = [&]() { int c = r.in(0, 5); return c == 0 ? -1000 : c == 1 ? -1 : c == 2 ? 1 : c == 3 ? r.in(2, 5) : c == 4 ? -2 : 60; };
  auto small = [&](Eq& e) { rres(r, e.mb, e.nb); if (e.mb > 6) e.mb = 3; if (e.nb > 3) e.nb = 1; e.surfs = rsurfs(r, e.w.ns, 4); b.add({"xset", o, "mboz", S(e.mb)}); b.add({"xset", o, "nboz", S(e.nb)}); b.add({"xsurfs", o, join(e.surfs)}); };
  auto load = [&]() { Eq e = r.of(eq); b.add(r.p(0.3) ? V{"initv", o, e.w.str(), S(r.in(0, 1))} : r.p(0.2) ? V{"fill", o, e.w.str(), S(r.in(0, 1))} : V{"read", o, e.file, S(r.in(0, 1))}); small(e); };
  auto xrun = [&]() { cand.push_back(b.add({"xrun", o})); }; auto xwrite = [&]() { cand.push_back(b.add({"xwrite", o, r.p(0.7) ? "f.nc" : "g.nc"})); };
  auto spoil = [&]() {
    switch (r.in(0, 7)) {
      case 0: { std::string n = r.of(ints_); int v; if (n == "asym") v = r.in(0, 1); else if (r.p(0.5)) v = r.in(-1, 4); else v = r.of(std::vector<int>{0, -1, 2147483647, -2147483647, 1000000, 40}); if ((n == "mboz" || n == "nboz") && v > 4) v = 2147483600; if ((n == "mpol" || n == "ntor" || n == "mpol_nyq" || n == "ntor_nyq") && v == 1000000) v = 50000000; b.add({"xset", o, n, S(v)}); break; }
      case 1: { std::string n = r.of(ivs); b.add({"xelem", o, n, S(r.in(0, 12)), r.p(0.5) ? S(r.in(-3, 30)) : S(r.of(std::vector<int>{-1, -2, 2147483647, -2147483647 - 1, 100000, 7}))}); break; }
      case 2: case 3: { const auto& L = r.p(0.6) ? in_arr : out_arr; std::string n = r.of(L); b.add({"xsize", o, n, S(r.p(0.6) ? delta() : 0), S(delta())}); break; }
      case 4: { std::string n = r.p(0.5) ? r.of(vs) : r.of(ms); b.add({"xsize", o, n, S(delta()), S(r.p(0.5) ? delta() : 0)}); break; }
      case 5: { std::vector<int> v; int c = r.in(0, 4); for (int i = 0; i < c; i++) v.push_back(r.of(std::vector<int>{0, 1, 2, -1, -2147483647 - 1, 2147483647, 3, 5, 8, 11, 1000})); b.add({"xsurfs", o, join(v)}); break; }
      case 6: { std::vector<int> v; int c = r.in(1, 9); for (int i = 0; i < c; i++) v.push_back(r.in(0, 2)); b.add({"xsurfs", o, join(v)}); break; }
      default: { std::string n = r.of(ints_); if (n == "mboz" || n == "nboz") b.add({"xset", o, n, S(r.in(0, 3))}); else b.add({"xset", o, n, S(r.in(0, 8))}); break; }
    } };
  auto badinit = [&]() {
    Eq e = r.of(eq); int flux = r.in(0, 1);
    if (r.p(0.12)) {
      std::string n = r.of(std::vector<std::string>{"modes", "modes_nyq", "surfaces"}); int v = r.p(0.6) ? 0 : r.in(1, 3); int q = b.add({"initv", o, e.w.str(), S(flux), n, "0", S(v)});
      if (v < 1 + (n == "surfaces")) b.add({"musterr", S(q), "init_from_vmec() accepted input without " + n});
    } else if (r.p(0.75)) {
      std::string n = r.of(vargs); bool mat = n[0] == 'r' || n[0] == 'z' || n[0] == 'l' || n[0] == 'b'; int dr = delta(), dc = mat ? (r.p(0.5) ? delta() : 0) : 0; if (mat && r.p(0.4)) { dr = 0; if (!dc) dc = r.p(0.5) ? 1 : -1; }
      bool as = n == "rmns" || n == "zmnc" || n == "lmnc" || n == "bmns" || n == "bsubumns" || n == "bsubvmns", fl = n == "phip" || n == "chi" || n == "pres" || n == "phi";
      int q = b.add({"initv", o, e.w.str(), S(flux), n, S(dr), S(dc)});
      bool must = true; if (as && !e.w.asym) must = false; if (fl && !flux) must = false; if (n == "phip" && flux && e.w.ns + dr <= 0) must = false; if (mat && dr == 0 && dc == 0) must = false;
      if (must) b.add({"musterr", S(q), "init_from_vmec() accepted " + n + " with a wrong size"});
    } else {
      std::string n = r.of(std::vector<std::string>{"ns", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq"}); int v = r.p(0.6) ? r.in(-1, 12) : r.of(std::vector<int>{0, -1, 1000, 2147483647, -2147483647 - 1, 2000000});
      int q = b.add({"initv", o, e.w.str(), S(flux), n, "0", S(v)}); const Wout& m2 = wout(e.w);
      bool must = (n == "ns" && v != e.w.ns) || (n == "nfp" && v < 1) || (n == "mnmax" && v != m2.mnmax) || (n == "mnmax_nyq" && v != m2.mnmax_nyq) || (n == "mpol" && v < e.w.mpol) || (n == "ntor" && v != e.w.ntor) || (n == "mpol_nyq" && v < e.w.mq) || (n == "ntor_nyq" && v != e.w.nq);
      if (must) b.add({"musterr", S(q), "init_from_vmec() accepted " + n + "=" + S(v)});
      if (r.p(0.5)) { b.add({"xset", o, "mboz", "2"}); b.add({"xset", o, "nboz", S(r.in(0, 1))}); xrun(); }
    } };
  int n = r.in(3, 8);
  if (r.p(0.15)) { if (r.p(0.5)) xrun(); else xwrite(); }
  for (int i = 0; i < n && b.id < 44; i++) switch (r.in(0, 11)) {
    case 0: case 1: load(); for (int k = r.in(0, 2); k > 0; k--) spoil(); xrun(); if (r.p(0.6)) { for (int k = r.in(0, 2); k > 0; k--) spoil(); xwrite(); } break;
    case 2: load(); xrun(); spoil(); xwrite(); if (r.p(0.4)) { spoil(); xwrite(); } break;
    case 3: load(); spoil(); xrun(); break;
    case 4: b.add({"readb", o, r.p(0.7) ? "b0.nc" : r.p(0.5) ? "badb.nc" : "junk.nc"}); if (r.p(0.6)) { if (r.p(0.5)) spoil(); xwrite(); } if (r.p(0.5)) { if (r.p(0.5)) { b.add({"xset", o, "mboz", "2"}); b.add({"xset", o, "nboz", "1"}); } else b.add({"xset", o, "mboz", "1"}), b.add({"xset", o, "nboz", "0"}); xrun(); } break;
    case 5: b.add({"read", o, r.p(0.5) ? "bad.nc" : "junk.nc", S(r.in(0, 1))}); b.add({"xset", o, "mboz", S(r.in(1, 2))}); b.add({"xset", o, "nboz", S(r.in(0, 1))}); xrun(); if (r.p(0.4)) xwrite(); break;
    case 6: case 7: badinit(); if (r.p(0.3)) { b.add({"xset", o, "mboz", "2"}); b.add({"xset", o, "nboz", "1"}); xrun(); } if (r.p(0.3)) xwrite(); break;
    case 8: if (r.p(0.5)) { b.add({"new", "c"}); o = "c"; b.add({"set", o, "verbose", "0"}); b.add({"xobs", o, S(tag++)}); if (r.p(0.5)) xrun(); if (r.p(0.5)) xwrite(); o = "a"; b.add({"del", "c"}); } else { b.add({"copy", "c", "a"}); b.add({"del", "a"}); b.add({"copy", "a", "c"}); b.add({"del", "c"}); } break;
    case 9: if (r.p(0.5)) { spoil(); xwrite(); break; }
      else {      // results of one equilibrium, then a call that fails half way through another one
        load(); xrun(); switch (r.in(0, 3)) { case 0: case 1: b.add({"read", o, r.p(0.8) ? "bad.nc" : "junk.nc", S(r.in(0, 1))}); break; case 2: b.add({"readb", o, r.p(0.8) ? "badb.nc" : "junk.nc"}); break; default: { Eq e = r.of(eq); cand.push_back(b.add({"read", o, e.file, S(r.in(0, 1))})); } } xwrite(); break; }
    case 10: if (r.p(0.2)) { WSpec w = eb.w; w.ns = 1; b.add({"fill", o, w.str(), "0"}); b.add({"xset", o, "mboz", "2"}); b.add({"xset", o, "nboz", "1"}); b.add({"xsurfs", o, r.p(0.5) ? "" : "0"}); xrun(); xwrite(); break; } spoil(); b.add({"xset", o, "mboz", S(r.in(1, 3))}); b.add({"xset", o, "nboz", S(r.in(0, 1))}); xrun(); break;
    default: if (r.p(0.5)) xwrite(); else { b.add({"xset", o, "mboz", S(r.in(0, 2))}); b.add({"xset", o, "nboz", S(r.in(-1, 1))}); xrun(); } break;
  }
  // afterwards a correct sequence of calls works with the same object
  Eq e = r.of(eq); rres(r, e.mb, e.nb); e.flux = r.p(0.5); e.surfs = rsurfs(r, e.w.ns, 4); if (e.mb > 6) e.mb = 4; if (e.nb > 3) e.nb = 2;
  int q = b.add({"read", "a", e.file, S(e.flux)}); b.add({"mustok", S(q), "reading a good file failed after earlier errors"}); b.add({"chkin", "a", e.w.str(), S(e.flux)}); op_settings(b, "a", e); q = b.add({"run", "a"}); b.add({"mustok", S(q), "a correct run failed after earlier errors"});
  b.add({"chkout", "a", e.w.str(), S(e.mb), S(e.nb), join(e.surfs)}); b.add({"obs", "a", "2", "out"}); q = b.add({"write", "a", "h.nc"}); b.add({"mustok", S(q), "saving correct results failed after earlier errors"}); b.add({"cmpfile", "a", "h.nc"});
  SimKnobs k = default_knobs(); rsched(r, k, r.p(0.5)); rknobs(r, k); Life l = life(b.ops, k);
  if (!cand.empty() && r.p(0.35)) {
    auto pr = probe(p, b.ops, k); int nf = r.in(1, 2);
    for (int i = 0; i < nf; i++) { int c = r.of(cand); int na = pr.allocs_op[c]; if (na > 0 && r.p(0.7)) l.faults.push_back(mkfault(c, SYS_ALLOC, pick_alloc(r, pr, c), ACT_ERR, ENOMEM, r.p(0.3))); else pick_fault(r, pr, c, false, l.faults); }
    p.scripts.push_back(script("s0", l));
  } else { p.scripts.push_back(script("s0", l)); SimKnobs k2 = default_knobs(); rsched(r, k2, r.p(0.5)); rknobs(r, k2); p.scripts.push_back(script("s1", life(b.ops, k2))); }
}
// ------------------------------------------------------------- C22, C25
static std::vector<Op> as_py(const std::vector<Op>& ops) {
  static const std::set<std::string> k = {"new", "del", "read", "initv", "fill", "set", "surfs", "run", "write", "readb", "obs"};
  std::vector<Op> v = ops; for (auto& o : v) if (k.count(o.a[0])) o.a[0] = "py" + o.a[0]; return v;
}
static int op_load(B& b, R& r, const std::string& o, const Eq& e) { int c = r.in(0, 9); return c < 3 ? b.add({"fill", o, e.w.str(), S(e.flux)}) : c < 6 ? b.add({"initv", o, e.w.str(), S(e.flux)}) : b.add({"read", o, e.file, S(e.flux)}); }
static const V outputs_ = {"ns_b", "s_b", "mnboz", "xm_b", "xn_b", "bmnc_b", "bmns_b", "gmnc_b", "gmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b", "numnc_b", "numns_b", "Boozer_G", "Boozer_G_all", "Boozer_I", "Boozer_I_all"};
static void genC22(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i)); Eq eb = neweq(r, p, 2, true); p.files.push_back(bfile("b0.nc", eb, r)); p.files.push_back(wfile("bad.nc", eb.w, r, {"del:" + r.of(wvars)}));
  B b; int tag = 1, nf = 0; std::vector<int> cand; V os = {"a"}; b.add({"new", "a"}); b.add({"set", "a", "verbose", r.p(0.7) ? "0" : S(r.in(1, 2))});
  if (r.p(0.3)) { b.add({"new", "c"}); b.add({"set", "c", "verbose", "0"}); os.push_back("c"); }
  auto obs = [&](const std::string& o, const char* s) { b.add({"obs", o, S(tag++), s}); };
  int n = r.in(2, 5);
  for (int i = 0; i < n && b.id < 48; i++) {
    std::string o = r.of(os); Eq e = r.of(eq); e.flux = r.p(0.5); int c = r.in(0, 9);
    if (c < 7) {
      cand.push_back(op_load(b, r, o, e)); if (r.p(0.6)) obs(o, "in"); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
      op_settings(b, o, e); if (r.p(0.3)) obs(o, "in"); cand.push_back(b.add({"run", o})); obs(o, r.p(0.5) ? "out" : "all");
      if (r.p(0.5)) { cand.push_back(b.add({"write", o, "f" + S(nf++) + ".nc"})); if (r.p(0.3)) obs(o, "all"); }
    } else if (c == 7) { cand.push_back(b.add({"readb", o, r.p(0.8) || !nf ? "b0.nc" : "f0.nc"})); obs(o, "all"); if (r.p(0.5)) cand.push_back(b.add({"write", o, "f" + S(nf++) + ".nc"})); }
    else if (c == 8) { cand.push_back(b.add({"read", o, r.p(0.5) ? "bad.nc" : "none.nc", S(r.in(0, 1))})); }
    else if (os.size() > 1) { b.add({"del", o}); b.add({"new", o}); b.add({"set", o, "verbose", "0"}); }
  }
  SimKnobs k = default_knobs(); rknobs(r, k); Life lc = life(b.ops, k), ly = life(as_py(b.ops), k);
  if (r.p(0.5)) { std::string f; for (auto& x : outputs_) f += (f.empty() ? "" : "+") + x; Op q; q.id = 60; q.a = {"pyro", "a", f}; ly.ops.insert(ly.ops.begin() + r.in(2, (int)ly.ops.size()), q); }
  if (r.p(0.5)) rsched(r, ly.k); if (r.p(0.2)) rsched(r, lc.k);
  if (!cand.empty() && r.p(0.4)) {
    auto pr = probe(p, b.ops, k); int m = r.in(1, 2);
    while (m--) { std::vector<SimFault> f; if (pick_fault(r, pr, r.of(cand), false, f)) { lc.faults.push_back(f[0]); ly.faults.push_back(f[0]); } }
  }
  p.scripts.push_back(script("cpp", lc)); p.scripts.push_back(script("py", ly));
}
static void genC25(R& r, Plan& p) {
  std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i)); Eq eb = neweq(r, p, 2, true); p.files.push_back(bfile("b0.nc", eb, r));
  static const V res = {"s_b", "xm_b", "xn_b", "bmnc_b", "bmns_b", "gmnc_b", "gmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b", "numnc_b", "numns_b", "Boozer_G", "Boozer_G_all", "Boozer_I", "Boozer_I_all"};
  B b; int tag = 1; b.add({"pynew", "a"}); b.add({"pyset", "a", "verbose", r.p(0.8) ? "0" : "1"}); bool gone = false; std::vector<int> cand;
  int n = r.in(2, 4);
  for (int i = 0; i < n; i++) {
    Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns);
    if (i == 0 || r.p(0.5)) { if (r.p(0.25)) cand.push_back(b.add({"pyreadb", "a", "b0.nc"})); else { b.add({r.p(0.7) ? "pyread" : "pyinitv", "a", r.p(0) ? "" : e.file, S(e.flux)}); if (b.ops.back().a[0] == "pyinitv") b.ops.back().a[2] = e.w.str(); cand.push_back(b.id - 1); } }
    if (b.ops.back().a[0] != "pyreadb") { b.add({"pyset", "a", "mboz", S(e.mb)}); b.add({"pyset", "a", "nboz", S(e.nb)}); b.add({"pysurfs", "a", i == 0 || r.p(0.7) ? join(e.surfs) : "0"}); cand.push_back(b.add({"pyrun", "a"})); }
    b.add({"pyheld", "a"});
    std::string f; int m = r.in(1, (int)res.size()); for (auto& x : res) if (r.in(1, (int)res.size()) <= m) f += (f.empty() ? "" : "+") + x; if (f.empty()) f = "bmnc_b"; b.add({"pyhold", "a", S(tag++), f});
    if (r.p(0.2)) { b.add({"pywrite", "a", "f.nc"}); b.add({"pyheld", "a"}); }
  }
  if (r.p(0.4)) { b.add({"pydel", "a"}); gone = true; b.add({"pyheld", "a"}); if (r.p(0.5)) { b.add({"pynew", "a"}); b.add({"pyread", "a", eq[0].file, "0"}); b.add({"pyheld", "a"}); } }
  SimKnobs k = default_knobs(); rknobs(r, k); if (r.p(0.6)) rsched(r, k); Life l = life(b.ops, k); (void)gone;
  if (r.p(0.3)) { auto pr = probe(p, b.ops, k); pick_fault(r, pr, r.of(cand), false, l.faults); }
  p.scripts.push_back(script("py", l));
}
// ------------------------------------------------------------- C21
static std::string plot_opts(R& r, const std::string& kind, int nb, int nfp, int mb, int nbz, bool orig) {
  V o; auto yes = [&](double q, const std::string& s) { if (r.p(q)) o.push_back(s); }; auto tf = [&]() { return std::string(r.p(0.5) ? "True" : "False"); };
  std::string hel = r.p(0.3) ? "None" : "(" + S(r.in(0, 3)) + "," + S(r.p(0.6) ? nfp * r.in(-1, 2) : r.in(-2, 4)) + ")"; if (hel == "(0,0)") hel = "(1,0)";
  if (kind == "surfplot") { yes(0.6, "'js':" + S(r.in(0, nb - 1))); yes(0.5, "'fill':" + tf()); yes(0.8, "'ntheta':" + S(r.in(2, 14))); yes(0.8, "'nphi':" + S(r.in(2, 14))); yes(0.5, "'ncontours':" + S(r.in(3, 30))); yes(0.4, "'alpha':0.5"); }
  else if (kind == "wireplot") { yes(0.6, "'js':" + (r.p(0.2) ? std::string("None") : S(r.in(0, nb - 1)))); o.push_back("'ntheta':" + S(r.in(2, 6))); o.push_back("'nphi':" + S(r.in(2, 8))); yes(0.7, "'refine':" + S(r.in(1, 4))); yes(0.5, "'surf':" + tf()); if (!orig) o.push_back("'orig':False"); else yes(0.5, "'orig':" + tf()); }
  else { yes(0.5, "'sqrts':" + tf()); yes(0.6, "'log':" + tf()); yes(0.5, "'B0':" + tf()); yes(0.5, "'remove_helicity':" + hel); yes(0.4, "'marker':'.'"); yes(0.3, "'ymin':0.125");
    if (kind == "symplot") { yes(0.6, "'max_m':" + S(r.in(0, mb + 1))); yes(0.6, "'max_n':" + S(r.in(0, nbz + 1))); yes(0.5, "'helical_detail':" + tf()); }
    else yes(0.8, "'nmodes':" + S(r.p(0.8) ? r.in(1, 8) : r.in(1, 40))); }
  std::string t = "{"; for (auto& x : o) t += (t.size() > 1 ? "," : "") + x; return t + "}";
}
static void genC21(R& r, Plan& p) {
  bool w0 = wide; if (r.p(0.9)) wide = false; std::vector<Eq> eq; for (int i = 0; i < 2; i++) eq.push_back(neweq(r, p, i)); Eq eb = neweq(r, p, 2, true); wide = w0; V mut; if (r.p(0.25)) mut = {r.p(0.5) ? "cutpm:" + S(r.in(0, 990)) : "del:" + r.of(bvars)};
  p.files.push_back(bfile("b0.nc", eb, r)); bool bad = !mut.empty(); if (bad) p.files.push_back(bfile("bad.nc", eb, r, mut)); (void)bad;
  static const V kinds = {"surfplot", "symplot", "modeplot", "wireplot"};
  B b; int tag = 1; std::vector<int> cand; Eq cur = eb; bool stale = false, fresh = true; b.add({"pynew", "a"}); b.add({"pyset", "a", "verbose", "0"}); bool saved = false; Eq sv = eb;
  auto plot = [&](const std::string& file, const Eq& e, bool orig) { std::string k = r.of(kinds); cand.push_back(b.add({"pyplot", file.empty() ? "a" : "=", file.empty() ? "-" : file, k, plot_opts(r, k, (int)e.surfs.size(), e.w.nfp, e.mb, e.nb, orig)})); };
  int n = r.in(2, 4), npair = 0;
  for (int i = 0; i < n; i++) {
    int c = r.in(0, 9);
    if (c < 6) {
      Eq e = r.of(eq); e.flux = r.p(0.5); rres(r, e.mb, e.nb); e.surfs = rsurfs(r, e.w.ns); if (r.p(0.3)) b.add({"pyfill", "a", e.w.str(), S(e.flux)}); else b.add({"pyread", "a", e.file, S(e.flux)});
      b.add({"pyset", "a", "mboz", S(e.mb)}); b.add({"pyset", "a", "nboz", S(e.nb)}); b.add({"pysurfs", "a", join(e.surfs)}); b.add({"pyrun", "a"}); cur = e; stale = false; fresh = false;
    } else { b.add({"pyreadb", "a", "b0.nc"}); cur = eb; stale = true; if (fresh) stale = true; fresh = false; }
    int t0 = tag++, t1 = tag++; b.add({"pyobs", "a", S(t0), "all"}); for (int m = r.in(1, 3); m > 0; m--) plot("", cur, !stale); b.add({"pyobs", "a", S(t1), "all"}); p.par["pair" + S(npair++)] = S(t0) + "," + S(t1);
    if (r.p(0.4)) { cand.push_back(b.add({"pywrite", "a", "f.nc"})); sv = cur; saved = true; }
    if (saved && r.p(0.7)) plot("f.nc", sv, true);
    if (r.p(0.3)) plot("b0.nc", eb, true);
  }
  SimKnobs k = default_knobs(); rknobs(r, k); if (r.p(0.4)) rsched(r, k); Life l = life(b.ops, k);
  if (r.p(0.4)) { std::vector<int> fc; for (auto& o : b.ops) if (o.a[0] == "pyplot" && o.a[1] == "=") fc.push_back(o.id); if (!fc.empty()) { auto pr = probe(p, b.ops, k); pick_fault(r, pr, r.of(fc), false, l.faults); } }
  p.scripts.push_back(script("py", l));
}
static double work(const Plan& p) {
  struct O { WSpec w; int mb = 0, nb = 0; double ns = 0; }; double tot = 0, mx = 0; std::map<std::string, WSpec> f;
  for (auto& x : p.files) if (x.a[0] == "wout" || x.a[0] == "boozmn") f[x.name] = WSpec::parse(x.a[1]);
  auto cost = [](const O& o) { if (o.ns <= 0) return 0.0; const WSpec& w = o.w; double nt = 2 * (2 * o.mb + 1), nz = o.nb ? 2 * (2 * o.nb + 1) : 1, modes = o.nb + 1.0 + (o.mb - 1.0) * (2 * o.nb + 1), in = w.ntor + 1.0 + (w.mpol - 1.0) * (2 * w.ntor + 1) + w.nq + 1.0 + (double)w.mq * (2 * w.nq + 1); return o.ns * nt * nz * (w.asym ? 1 : 0.5) * (modes * (w.asym ? 2 : 1) + in) * 100; };
  auto load = [&](O& o, const WSpec& w) { o.w = w; o.mb = 6 * w.mpol; o.nb = std::max(2 * w.ntor - 1, 0); o.ns = w.ns - 1; };
  for (auto& s : p.scripts) for (auto& l : s.lives) {
    std::map<std::string, O> m; double c = 0;
    for (auto& op : l.ops) { auto& a = op.a; if (a.size() < 2) continue; O& o = m[a[1]]; double one = 0;
      std::string n0 = a[0].compare(0, 2, "py") == 0 && a[0] != "pycli" ? a[0].substr(2) : a[0];
      if (n0 != a[0]) { if (n0 == "read" && f.count(a[2])) load(o, f[a[2]]); else if (n0 == "initv" || n0 == "fill") load(o, WSpec::parse(a[2])); else if (n0 == "set" && a[2] == "mboz") o.mb = atoi(a[3].c_str()); else if (n0 == "set" && a[2] == "nboz") o.nb = atoi(a[3].c_str()); else if (n0 == "surfs") o.ns = (double)ints(a[2]).size(); else if (n0 == "run") c += cost(o); continue; }
      if (a[0] == "fill") load(o, WSpec::parse(a[2]));
      if (a[0] == "read" && f.count(a[2])) load(o, f[a[2]]); else if (a[0] == "initv") load(o, WSpec::parse(a[2])); else if ((a[0] == "copy" || a[0] == "assign")) { O q = m[a[2]]; m[a[1]] = q; }
      else if (a[0] == "set" && a[2] == "mboz") o.mb = atoi(a[3].c_str()); else if (a[0] == "set" && a[2] == "nboz") o.nb = atoi(a[3].c_str()); else if (a[0] == "surfs") o.ns = (double)ints(a[2]).size();
      else if (a[0] == "run") c += cost(o); else if (a[0] == "par") for (size_t i = 1; i < a.size(); i++) c += cost(m[a[i]]);
      else if (a[0] == "cli" || a[0] == "pycli") for (auto& kv : f) { O q; load(q, kv.second); q.mb = std::max(q.mb, 14); q.nb = std::max(q.nb, 2); for (auto& x : p.files) if (x.name == a[1] && x.a[0] == "text") { load(q, kv.second); std::istringstream is(x.a[1]); double v; if (is >> v) q.mb = std::max(q.mb, (int)std::min(v, 1e5)); if (is >> v) q.nb = std::max(q.nb, (int)std::min(v, 1e5)); } one = std::max(one, cost(q)); }
      if (one > 0) c += one; }
    tot += c; mx = std::max(mx, c);
  }
  return tot + 2 * mx;
}
// ------------------------------------------------------------- C26
// Processes that work in one directory at the same time.  Process p owns operations 12p+1...
static void genC26(R& r, Plan& p) {
  bool out = r.p(0.1); if (out) p.files.push_back(FileSpec{"out", {"dir"}});
  Eq v[2]; for (int i = 0; i < 2; i++) { v[i].w = rspec(r, true); if (v[i].w.ns > 9) v[i].w.ns = 4 + i; v[i].flux = false; }
  if (r.p(0.4)) { v[1].w = v[0].w; v[1].w.seed = r.in(0, 999); }        // the same shapes
  Eq y; y.w = rspec(r, true); if (y.w.ns > 9) y.w.ns = 5; int nsx = std::min(v[0].w.ns, v[1].w.ns);
  FileSpec f0 = wfile("wout_x.nc", v[0].w, r), f1 = wfile("wout_x.nc", v[1].w, r); p.files.push_back(f0); p.files.push_back(wfile("wout_y.nc", y.w, r));
  V dests = {out ? "out/r.nc" : "r.nc", "boozmn_x.nc"}; if (r.p(0.4)) dests.push_back("boozmn_y.nc"); if (r.p(0.2)) dests.push_back("r2.nc");
  if (r.p(0.5)) dests.resize(r.of(std::vector<int>{1, 2}) == 1 ? 1 : dests.size());
  std::set<std::string> used; std::vector<Life> group; std::set<int> pids; bool swapwin = r.p(0.35), writer = false, swapped = false;
  auto knobs = [&]() { SimKnobs k = default_knobs(); rknobs(r, k); while (pids.count(k.pid)) k.pid++; pids.insert(k.pid); return k; };
  auto bspec = [&](const std::string& name) { Eq e; e.w = rspec(r, true); e.flux = r.p(0.5); rres(r, e.mb, e.nb); if (e.mb > 9) e.mb = 4; e.surfs = rsurfs(r, e.w.ns, 4); return bfile(name, e, r); };
  auto pre = [&](const std::string& d) { if (!used.insert(d).second) return; int c = r.in(0, 3); if (c == 1) p.files.push_back(FileSpec{d, {"junk", S(r.in(0, 60000)), "3"}}); else if (c >= 2) p.files.push_back(bspec(d)); };
  int n = r.in(2, 5);
  for (int q = 0; q < n; q++) {
    B b; b.id = 12 * q + 1; Life l; l.k = knobs(); int kind = r.in(0, 9); if (q == 0 && kind > 5) kind = 0; if (q == n - 1 && swapwin && !swapped) kind = 9;
    if (r.p(0.3)) for (int i = r.in(1, 3); i--;) b.add({"nap"});
    if (kind <= 3 && b.id > 12 * q + 2) b.id = 12 * q + 1, b.ops.clear();
    if (kind <= 3) {            // a program that uses the library
      bool x = r.p(0.7); std::string d = r.of(dests); pre(d); bool flux = r.p(0.4); Eq e; int ns = x ? nsx : y.w.ns; rres(r, e.mb, e.nb); if (e.mb > 9) e.mb = 4; e.surfs = rsurfs(r, ns, 3);
      b.add({"new", "a"}); b.add({"read", "a", x ? "wout_x.nc" : "wout_y.nc", S(flux)}); op_settings(b, "a", e); b.add({"run", "a"}); std::string wo = S(b.add({"write", "a", d}));
      if (r.p(0.35)) { std::string d2 = r.p(0.7) ? d : r.of(dests); pre(d2); if (r.p(0.6)) { b.add({"surfs", "a", join(rsurfs(r, ns, 3))}); b.add({"run", "a"}); } wo += "," + S(b.add({"write", "a", d2})); }
      p.par["w" + S(q)] = wo; p.par["v" + S(q)] = x ? "x" : "y"; writer = true;
      if (x) { Op o; o.id = 12 * q + 12; o.a = {"chkver", "a", "wout_x.nc", S(12 * q + 2), S(flux), v[0].w.str(), v[1].w.str()}; b.ops.insert(b.ops.begin() + 2, o); }
    } else if (kind <= 5) {     // the command line
      bool x = r.p(0.7); std::string ext = x ? "x" : "y", cf = "in." + S(q); Eq e; rres(r, e.mb, e.nb); if (e.mb > 9) e.mb = 4; int ns = x ? nsx : y.w.ns; std::vector<int> sf; if (r.p(0.8)) sf = rsurfs(r, ns, 3); std::string t = S(e.mb) + " " + S(e.nb) + " " + ext; for (int s : sf) t += " " + S(s);
      if (sf.empty() && x) t += " 0";
      p.files.push_back(FileSpec{cf, {"text", t + "\n"}}); std::string d = "boozmn_" + ext + ".nc"; pre(d); if (std::find(dests.begin(), dests.end(), d) == dests.end()) dests.push_back(d);
      p.par["w" + S(q)] = S(b.add({"cli", cf})); p.par["v" + S(q)] = ext; writer = true; if (r.p(0.15)) { rsched(r, l.k); l.k.maxthreads = std::min(l.k.maxthreads, 3); }
    } else if (kind <= 8) {     // a program that reads the results
      b.add({"new", "a"}); int m = r.in(1, 4); for (int i = 0; i < m; i++) { std::string d = r.of(dests); pre(d); int k = b.add({"readb", "a", d}); b.add({"chkver", "a", d, S(k), "?ok:" + S(k)}); if (r.p(0.3) && b.id < 12 * q + 10) b.add({"nap"}); if (b.id > 12 * q + 10) break; }
    } else {                    // another program that replaces files
      std::string d = r.of(dests); pre(d); bool win = swapwin && !swapped; int m = r.in(1, 3);
      for (int i = 0; i < m; i++) { for (int j = r.in(0, 1); j--;) b.add({"nap"}); FileSpec f = win ? (i % 2 ? f0 : f1) : bspec(d); V a = {"swap", win ? "wout_x.nc" : d}; a.insert(a.end(), f.a.begin(), f.a.end()); b.add(a); }
      if (win) swapped = true;
    }
    l.ops = b.ops; group.push_back(l);
  }
  std::string w = "wout_x.nc"; for (auto& d : used) w += "," + d;
  p.par["watch"] = w; p.par["swapped"] = swapped ? "1" : "0";
  switch (r.in(0, 5)) { case 0: case 1: case 2: p.par["pp"] = "0," + S(r.in(1, 1000000)) + "," + S(r.of(std::vector<int>{1, 2, 4, 10, 30, 100})) + ",0,0,1"; break; case 3: case 4: p.par["pp"] = "1," + S(r.in(1, 1000000)) + ",1," + S(r.in(1, 12)) + "," + S(r.of(std::vector<int>{60, 200, 600, 2000})) + ",1"; break; default: p.par["pp"] = "2," + S(r.in(1, 1000000)) + ",1,0,0," + S(r.of(std::vector<int>{1, 2, 5, 13, 40})); }
  p.scripts.push_back(script("group", Life())); p.scripts[0].lives = group;
  // each writer alone, for every version of its input
  for (int q = 0; q < n; q++) if (p.par.count("w" + S(q))) for (int k = 0; k < (swapped && p.par["v" + S(q)] == "x" ? 2 : 1); k++) {
    Life l = group[q]; Op o; o.id = 61; o.a = {"put", "wout_x.nc"}; const FileSpec& f = k ? f1 : f0; o.a.insert(o.a.end(), f.a.begin(), f.a.end()); l.ops.insert(l.ops.begin(), o); p.scripts.push_back(script("group_" + S(q) + "v" + S(k), l));
  }
  // faults in one or two of the processes
  if (r.p(0.6)) for (int t = r.p(0.25) ? 2 : 1; t--;) {
    int q = r.in(0, n - 1); Life& l = p.scripts[0].lives[q]; std::vector<int> ops; for (auto& o : l.ops) if (o.a[0] == "write" || o.a[0] == "cli" || o.a[0] == "readb" || o.a[0] == "read") { ops.push_back(o.id); if (o.a[0] == "write") ops.push_back(o.id); }
    if (ops.empty() || !l.faults.empty()) continue;
    auto pr = probe(p, l.ops, l.k); pick_fault(r, pr, r.of(ops), r.p(0.55), l.faults);
  }
  (void)writer;
}
Plan generate(const std::string& prop, uint64_t seed, uint64_t run) {
  Plan p; p.prop = prop; p.seed = seed; p.run = run; uint64_t h = seed * 0x9E3779B97F4A7C15ull; for (char c : prop) h = (h ^ c) * 0x100000001b3ull; R r(h ^ (run * 0xD1B54A32D192ED03ull)); r.next();
  typedef void (*G)(R&, Plan&); static const std::map<std::string, G> g = {{"C01", genC01}, {"C02", genC02}, {"C03", genC03}, {"C04", genC04}, {"C05", genC05}, {"C06", genC06}, {"C07", genC07}, {"C08", genC08}, {"C09", genC09}, {"C10", genC10}, {"C11", genC11}, {"C12", genC12}, {"C13", genC13}, {"C14", genC14}, {"C15", genC15}, {"C16", genC16}, {"C17", genC17}, {"C21", genC21}, {"C22", genC22}, {"C24", genC24}, {"C25", genC25}, {"C26", genC26}};
  auto it = g.find(prop); if (it == g.end()) { fprintf(stderr, "no generator for %s\n", prop.c_str()); exit(2); }
  R r0 = r; Plan p0 = p; wide = true; it->second(r, p);
  if (getenv("SIMRUN_WORK")) fprintf(stderr, "work %g\n", work(p));
  for (int k = 0; k < 20 && work(p) > 3e8; k++) { wide = false; r = r0; p = p0; if (k) r = R(r0.next()); it->second(r, p); wide = true; }
  // input files this user may not write
  R q(h ^ (run * 0xA0761D6478BD642Full) ^ 77); q.next();
  if (q.p(0.3)) {
    std::set<std::string> rd, wr; bool cli = false;
    for (auto& sc : p.scripts) for (auto& l : sc.lives) for (auto& o : l.ops) { const std::string& n = o.a[0]; if (n == "cli" || n == "pycli") { cli = true; for (size_t i = 1; i < o.a.size(); i++) rd.insert(o.a[i]); } else if (n == "pyplot" && o.a[1] == "=") rd.insert(o.a[2]); else if (o.a.size() > 2) { if (n == "read" || n == "readb" || n == "pyread" || n == "pyreadb") rd.insert(o.a[2]); else if (n == "write" || n == "pywrite" || n == "xwrite") wr.insert(o.a[2]); } }
    std::string ro; for (auto& f : p.files) { if (f.a[0] == "dir" || wr.count(f.name)) continue; if (rd.count(f.name) || (cli && f.name.find("boozmn") == std::string::npos && f.name.find("wout") != std::string::npos)) ro += (ro.empty() ? "" : "|") + f.name; }
    if (!ro.empty() && ro.find(' ') == std::string::npos) p.par["ro"] = ro;
  }
  return p;
}
std::map<std::string, ScriptResult> run_plan(const Plan& p) { std::map<std::string, ScriptResult> m; stats.plans++; for (auto& s : p.scripts) m[s.name] = run_script(p, s); return m; }

// ------------------------------------------------------------- oracles
static Verdict bad(const std::string& c, const std::string& m) { Verdict v; v.bad = true; v.cls = c; v.msg = m; return v; }
typedef std::map<std::string, ScriptResult> Res;
static std::string opname(const Plan& p, const std::string& sc, size_t life, int id) { for (auto& s : p.scripts) if (s.name == sc && life < s.lives.size()) for (auto& o : s.lives[life].ops) if (o.id == id) { std::string t; for (auto& x : o.a) t += (t.empty() ? "" : " ") + x; return t; } return "?"; }
static Verdict general(const Plan& p, const Res& res) {
  char b[300];
  for (auto& kv : res) for (size_t i = 0; i < kv.second.size(); i++) {
    auto& r = kv.second[i]; std::string where = kv.first + " life " + S(i) + ", operation " + S(r.cur_op) + " (" + opname(p, kv.first, i, r.cur_op) + ")";
    if (r.end == END_VIOLATION) return bad(r.vclass, kv.first + ": " + r.msg);
    if (r.end == END_DEADLOCK || r.end == END_STEPCAP) return bad(r.vclass.empty() ? "deadlock" : r.vclass, where + ": " + r.msg);
    if (r.timeout) return bad("hang", where + ": no end in sight");
    if (r.end == END_NONE && r.cli < 0) { snprintf(b, sizeof b, "the process died (signal %d, exit code %d)", r.sig, r.code); return bad("crash", where + ": " + b + (r.mem.empty() ? "" : "; " + r.mem[0])); }
  }
  return Verdict();
}
static std::string fieldname(int f);
static std::map<std::pair<int, int>, SimObs> obsmap(const LifeResult& r) { std::map<std::pair<int, int>, SimObs> m; for (auto& o : r.obs) m[{o.op, o.field}] = o; return m; }
static const char* FN[] = {"asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "xm", "xn", "xm_nyq", "xn_nyq", "ns_in", "s_in", "iota", "rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns", "mboz", "nboz", "compute_surfs", "aspect", "toroidal_flux",
  "ns_b", "s_b", "mnboz", "xm_b", "xn_b", "bmnc_b", "bmns_b", "gmnc_b", "gmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b", "numnc_b", "numns_b", "Boozer_G", "Boozer_G_all", "Boozer_I", "Boozer_I_all", "phi", "phip", "chi", "pres", "verbose"};
static std::string fieldname(int f) { if (f == 900) return "file contents"; int c = f / 1000; f %= 1000; std::string s = f < (int)(sizeof FN / sizeof *FN) ? FN[f] : "?"; if (c) s += "[column " + S(c - 1) + "]"; return s; }
// observations of x against y; keys only in one of them are differences when strict
static std::string cmp_obs(const LifeResult& x, const LifeResult& y, bool strict) {
  auto a = obsmap(x), b = obsmap(y);
  for (auto& kv : a) {
    auto it = b.find(kv.first); if (it == b.end()) { if (strict) return "observation " + S(kv.first.first) + " of " + fieldname(kv.first.second) + " exists only on one side"; continue; }
    auto &o = kv.second, &q = it->second;
    if (o.rows != q.rows || o.cols != q.cols) return fieldname(o.field) + " (observation " + S(o.op) + ") has shape " + S(o.rows) + "x" + S(o.cols) + " and " + S(q.rows) + "x" + S(q.cols);
    if (o.hash != q.hash) return fieldname(o.field) + " (observation " + S(o.op) + ", " + S(o.rows) + "x" + S(o.cols) + ") has different values";
  }
  if (strict) for (auto& kv : b) if (!a.count(kv.first)) return "observation " + S(kv.first.first) + " of " + fieldname(kv.first.second) + " exists only on one side";
  return "";
}
static std::string cmp_status(const LifeResult& x, const LifeResult& y, int from = 0) { for (int i = from; i < SIM_MAXOPS; i++) if ((x.op_done[i] == 1) != (y.op_done[i] == 1) || (x.op_done[i] == 100) != (y.op_done[i] == 100)) return "operation " + S(i) + " has status " + S(x.op_done[i] - 1) + " and " + S(y.op_done[i] - 1); return ""; }
static std::string cmp_disk(const LifeResult& x, const LifeResult& y, bool bytes) {
  for (int pass = 0; pass < 2; pass++) for (auto& d : pass ? y.disk : x.disk) if (!(pass ? x : y).disk.count(d.first)) return "file " + d.first + " exists only on one side";
  for (auto& d : x.disk) { const Bytes& o = y.disk.at(d.first); if (d.second == o) continue; if (bytes) { size_t i = 0; while (i < o.size() && i < d.second.size() && o[i] == d.second[i]) i++; NcFile f, g; std::string w; if (nc_decode(d.second.data(), d.second.size(), f).empty() && nc_decode(o.data(), o.size(), g).empty()) w = cmp_data(f, g); return "file " + d.first + " differs at byte " + S(i) + " (sizes " + S(d.second.size()) + ", " + S(o.size()) + ")" + (w.empty() ? "" : ": " + w); }
    NcFile f, g; std::string e = nc_decode(d.second.data(), d.second.size(), f); std::string e2 = nc_decode(o.data(), o.size(), g); if (!e.empty() || !e2.empty()) return "file " + d.first + " differs"; e = cmp_data(f, g); if (!e.empty()) return "file " + d.first + ": " + e; }
  return "";
}
static const Life* get_life(const Plan& p, const std::string& s, size_t i) { for (auto& x : p.scripts) if (x.name == s && i < x.lives.size()) return &x.lives[i]; return nullptr; }

Verdict judge(const Plan& p, const Res& res) {
  Verdict g = general(p, res); if (g.bad) return g;
  auto has = [&](const char* n) { auto it = res.find(n); return it != res.end() && !it->second.empty(); };
  const std::string& P = p.prop;
  if (P == "C01" || P == "C05" || P == "C09") {
    if (!has("base")) return Verdict(); const LifeResult& b = res.at("base")[0];
    for (auto& kv : res) if (kv.first != "base" && !kv.second.empty()) {
      const LifeResult& x = kv.second[0]; std::string e;
      if (b.cli >= 0 && b.cli != x.cli) return bad("exit-status", kv.first + ": exit status " + S(x.cli) + " instead of " + S(b.cli));
      e = cmp_status(b, x); if (!e.empty()) return bad("status", kv.first + " against base: " + e);
      e = cmp_obs(b, x, true); if (!e.empty()) return bad("values", kv.first + " against base: " + e);
      e = cmp_disk(b, x, true); if (!e.empty()) return bad("files", kv.first + " against base: " + e);
    }
    return Verdict();
  }
  if (P == "C02") {
    for (auto& kv : res) for (auto& r : kv.second) if (!r.race.empty()) { auto& q = r.race[0]; char b[400]; snprintf(b, sizeof b, "%s: thread %d %s at %s and thread %d %s at %s without synchronisation", kv.first.c_str(), q.t1, q.w1 ? "writes" : "reads", sym(q.pc1).c_str(), q.t2, q.w2 ? "writes" : "reads", sym(q.pc2).c_str()); return bad("race", b); }
    return Verdict();
  }
  if (P == "C03") {
    if (!has("list")) return Verdict();
    auto cmp_lists = [&](const LifeResult& x, const std::vector<int>& sx, const LifeResult& y, const std::vector<int>& sy, const std::string& n) -> Verdict {
      auto a = obsmap(x), b = obsmap(y);
      for (size_t j = 0; j < sy.size(); j++) for (size_t i = 0; i < sx.size(); i++) if (sx[i] == sy[j]) for (auto& kv : a) {
        int f = kv.first.second; if (f < 1000 || f / 1000 - 1 != (int)i) continue;
        auto it = b.find({kv.first.first, f % 1000 + 1000 * ((int)j + 1)}); if (it == b.end()) return bad("surface", n + ": " + fieldname(f) + " is missing on one side");
        if (it->second.hash != kv.second.hash || it->second.rows != kv.second.rows) return bad("surface", n + ": surface " + S(sx[i]) + " has different " + fieldname(f % 1000) + " at position " + S(i) + " of " + join(sx) + " and position " + S(j) + " of " + join(sy));
      }
      for (auto& kv : a) if (fieldname(kv.first.second) == "Boozer_G_all" || fieldname(kv.first.second) == "Boozer_I_all") { auto it = b.find(kv.first); if (it == b.end() || it->second.hash != kv.second.hash || it->second.rows != kv.second.rows) return bad("profile", n + ": " + fieldname(kv.first.second) + " depends on the requested surfaces"); }
      return Verdict(); };
    const LifeResult& L = res.at("list")[0]; std::vector<int> sl = ints(p.par.at("surfs"));
    if (L.st(1) < 0) return Verdict();
    for (auto& kv : res) { if (kv.first == "list" || kv.second.empty()) continue; std::vector<int> s = kv.first == "perm" ? ints(p.par.at("perm")) : std::vector<int>{atoi(kv.first.c_str() + 3)}; Verdict v = cmp_lists(L, sl, kv.second[0], s, kv.first); if (v.bad) return v; }
    return Verdict();
  }
  if (P == "C06") {
    if (!has("all")) return Verdict(); const LifeResult& a = res.at("all")[0];
    for (auto& kv : res) if (kv.first != "all" && !kv.second.empty()) {
      const LifeResult& s = kv.second[0]; auto am = obsmap(a), sm = obsmap(s);
      for (auto& o : sm) { auto it = am.find(o.first); if (it == am.end()) return bad("values", kv.first + ": observation " + S(o.first.first) + " is missing in the interleaved session"); if (it->second.hash != o.second.hash || it->second.rows != o.second.rows || it->second.cols != o.second.cols) return bad("values", kv.first + ": " + fieldname(o.first.second) + " (operation " + S(o.first.first) + ") differs when other objects are used in between"); }
      for (auto& d : s.disk) { auto it = a.disk.find(d.first); if (it == a.disk.end()) return bad("files", kv.first + ": file " + d.first + " is missing in the interleaved session"); if (d.first.compare(0, 2, std::string("f") + kv.first.back()) == 0 && it->second != d.second) return bad("files", kv.first + ": file " + d.first + " differs when other objects are used in between"); }
      const Life* l = get_life(p, kv.first, 0); if (l) for (auto& op : l->ops) { const Life* la = get_life(p, "all", 0); bool par = false; for (auto& q : la->ops) if (q.id == op.id && q.a[0] == "par") par = true; if (par) continue; bool x = s.op_done[op.id] == 1, y = a.op_done[op.id] == 1; if (x != y) return bad("status", kv.first + ": operation " + S(op.id) + " (" + op.a[0] + ") succeeds only on one side"); }
    }
    return Verdict();
  }
  if (P == "C07") {
    if (!has("used") || !has("fresh")) return Verdict(); const LifeResult &u = res.at("used")[0], &f = res.at("fresh")[0];
    std::string e = cmp_status(u, f, atoi(p.par.at("from").c_str())); if (!e.empty()) return bad("status", "used object against fresh object: " + e);
    e = cmp_obs(u, f, true); if (!e.empty()) return bad("values", "used object against fresh object: " + e);
    auto i = u.disk.find("f.nc"), j = f.disk.find("f.nc"); if ((i == u.disk.end()) != (j == f.disk.end())) return bad("files", "f.nc exists only on one side"); if (i != u.disk.end() && i->second != j->second) return bad("files", "f.nc written by a used object differs from that of a fresh object");
    return Verdict();
  }
  if (P == "C11") {
    if (!has("ref") || !has("faulty")) return Verdict();
    const std::string& fn = p.par.at("file"); const LifeResult& ref = res.at("ref")[0]; int w = atoi(p.par.at("wop").c_str());
    if (ref.st(w) != 0) return bad("unexpected-error", "saving without any fault failed");
    if (!ref.disk.count(fn)) return bad("files", "no file after saving without any fault");
    NcFile nf; const Bytes& nb = ref.disk.at(fn); std::string e = nc_decode(nb.data(), nb.size(), nf); if (!e.empty()) return bad("files", "the file saved without any fault is incomplete: " + e);
    auto& fr = res.at("faulty");
    for (size_t i = 0; i + 1 < fr.size(); i++) {
      // what the destination held just before this attempt was recorded by operation w-1
      const LifeResult& r = fr[i]; const SimObs* o = nullptr; for (auto& x : r.obs) if (x.op == 2 && x.field == 900) o = &x;
      if (!o) continue;
      bool had = o->cols, ex = r.disk.count(fn) > 0; const char* how = r.end == END_KILLED ? "the kill" : r.st(w) == 0 ? "the save" : "the failed save";
      if (!had && !ex) continue;
      if (had && !ex) return bad("destination", std::string("after ") + how + " in life " + S(i) + " " + fn + " no longer exists");
      const Bytes& b = r.disk.at(fn); if (had && (int)b.size() == o->rows && hash_bytes(b.data(), b.size()) == o->hash) continue;
      NcFile f; std::string e2 = nc_decode(b.data(), b.size(), f); if (e2.empty()) e2 = cmp_data(nf, f);
      if (!e2.empty()) return bad("destination", std::string("after ") + how + " in life " + S(i) + " " + fn + " holds neither the old nor the complete new contents (" + S(b.size()) + " bytes): " + e2);
    }
    return Verdict();
  }
  if (P == "C13" || P == "C14") {
    if (!has("clean") || !has("faulty")) return Verdict(); const LifeResult &c = res.at("clean")[0], &f = res.at("faulty")[0];
    std::string e = cmp_obs(f, c, false); if (!e.empty()) return bad("values", "session with failures against undisturbed session: " + e);
    for (auto& kv : p.par) if (kv.first.compare(0, 4, "pair") == 0) { auto t = ints(kv.second); auto m = obsmap(f); for (auto& o : m) if (o.first.first == t[0]) { auto it = m.find({t[1], o.first.second}); if (it != m.end() && (it->second.hash != o.second.hash || it->second.rows != o.second.rows)) return bad("values", "a save changed " + fieldname(o.first.second) + " of the object"); } }
    if (P == "C14" && !f.mem.empty()) return bad("memory", f.mem[0]);
    for (auto& d : c.disk) { auto it = f.disk.find(d.first); if (it == f.disk.end()) return bad("files", "file " + d.first + " is missing after the repetition"); if (it->second != d.second) { NcFile x, y; std::string e2 = nc_decode(it->second.data(), it->second.size(), x); nc_decode(d.second.data(), d.second.size(), y); if (e2.empty()) e2 = cmp_data(x, y); if (!e2.empty()) return bad("files", "file " + d.first + " after the repetition: " + e2); } }
    return Verdict();
  }
  if (P == "C22") {
    if (!has("cpp") || !has("py")) return Verdict(); const LifeResult &c = res.at("cpp")[0], &y = res.at("py")[0];
    LifeResult c2 = c; c2.op_done[60] = y.op_done[60]; std::string e = cmp_status(c2, y); if (!e.empty()) return bad("status", "C++ and Python objects with the same history: " + e);
    e = cmp_obs(c, y, true); if (!e.empty()) return bad("values", "C++ and Python objects with the same history: " + e);
    e = cmp_disk(c, y, false); if (!e.empty()) return bad("files", "C++ and Python objects with the same history: " + e);
    return Verdict();
  }
  if (P == "C25") return Verdict();
  if (P == "C26") {
    if (!has("group") || !res.at("group")[0].grp) return Verdict();
    const ScriptResult& G = res.at("group"); const GroupLog& L = *G[0].grp; const Script* gs = nullptr; for (auto& s : p.scripts) if (s.name == "group") gs = &s;
    typedef std::vector<const SimSample*> SV;
    auto states = [](const GroupLog& l, const std::string& file, int from, int to) { SV v; for (size_t w = 0; w < l.watch.size(); w++) if (l.watch[w] == file) { const SimSample* last = nullptr; for (auto& s : l.samples) if (s.file == (int)w) { if (last && s.ev >= from && last->ev <= to) v.push_back(last); last = &s; } if (last && last->ev <= to) v.push_back(last); } return v; };
    std::map<std::string, Bytes> init; for (auto& f : p.files) if (f.a[0] != "dir") init[f.name] = file_bytes(f);
    struct Ver { std::string file; int proc, op; NcFile f; }; std::vector<Ver> vers;
    for (auto& l : gs->lives) for (auto& o : l.ops) if (o.a[0] == "swap") { FileSpec fs; fs.a.assign(o.a.begin() + 2, o.a.end()); Bytes b = file_bytes(fs); Ver v; v.file = o.a[1]; v.proc = -1; v.op = o.id; nc_decode(b.data(), b.size(), v.f); vers.push_back(v); }
    auto dest = [&](const Op& o, int q) { return o.a[0] == "cli" ? "boozmn_" + p.par.at("v" + S(q)) + ".nc" : o.a[2]; };
    for (auto& s : p.scripts) if (s.name.compare(0, 6, "group_") == 0 && has(s.name.c_str())) {
      const LifeResult& r = res.at(s.name)[0]; int q = atoi(s.name.c_str() + 6); if (!r.grp) continue;
      for (auto& o : s.lives[0].ops) if (o.a[0] == "write" || o.a[0] == "cli") {
        if (r.st(o.id) != 0) return bad("unexpected-error", s.name + ": " + o.a[0] + " of a process alone fails without any fault");
        std::string d = dest(o, q); SV v = states(*r.grp, d, r.ope[o.id], r.ope[o.id]); if (v.empty() || v.back()->snap < 0) return bad("files", s.name + ": no " + d + " after a successful call of a process alone");
        const Bytes& b = r.grp->snaps[v.back()->snap]; Ver x; x.file = d; x.proc = q; x.op = o.id; std::string e = nc_decode(b.data(), b.size(), x.f); if (!e.empty()) return bad("files", s.name + ": " + d + " of a process alone: " + e); vers.push_back(x);
      }
    }
    auto is = [&](const Bytes& b, const std::string& file, int proc, int op) { NcFile f; std::string e = nc_decode(b.data(), b.size(), f), why = e; if (!e.empty()) return e; for (auto& v : vers) if (v.file == file && (proc < 0 || (v.proc == proc && v.op == op))) { e = cmp_data(v.f, f); if (e.empty()) return e; why = e; } return why.empty() ? std::string("no process writes this") : why; };
    int killed = 0, unl = 0; for (size_t i = 0; i < G.size(); i++) { killed += G[i].end == END_KILLED; unl += G[i].fired[SYS_UNLINK] + G[i].fired[SYS_RENAME]; }
    // every state of every file that is watched
    for (size_t w = 0; w < L.watch.size(); w++) { bool first = true, had = false; const std::string& fn = L.watch[w];
      for (auto& s : L.samples) if (s.file == (int)w) {
        if (s.snap < 0) { if (had) return bad("partial-file", fn + " disappears at event " + S(s.ev)); }
        else if (!(init.count(fn) && L.snaps[s.snap] == init[fn])) { std::string e = is(L.snaps[s.snap], fn, -1, 0); if (!e.empty()) return bad("partial-file", fn + " holds incomplete or wrong contents at event " + S(s.ev) + " (" + S(L.snaps[s.snap].size()) + " bytes): " + e); }
        first = false; had = had || s.snap >= 0; }
      (void)first; }
    for (size_t i = 0; i < G.size(); i++) { const Life& l = gs->lives[i]; const LifeResult& r = G[i]; if (l.ops.empty()) continue; int q = (l.ops[0].id - 1) / 12; int fired = 0; for (int x : r.fault_fired) fired += x;
      for (auto& o : l.ops) { int st = r.st(o.id);
        if (o.a[0] == "write" || o.a[0] == "cli") {
          if (st == 0 && !L.lost) { std::string d = dest(o, q), e = "it never holds them"; bool ok = false; for (auto* s : states(L, d, r.opb[o.id], r.ope[o.id])) if (s->snap >= 0 && !ok) { e = is(L.snaps[s->snap], d, q, o.id); ok = e.empty(); }
            if (!ok) return bad("lost-result", "process " + S(q) + " reports that its results are in " + d + ", but while it wrote " + e); }
          if (st > 0 && st < 99 && !fired) return bad("unexpected-error", o.a[0] + " of process " + S(q) + " failed without any fault in it, next to other processes");
        } else if (o.a[0] == "readb") {
          if (st > 0 && st < 99 && !fired && !L.lost) { bool all = true; SV v = states(L, o.a[2], r.opb[o.id], r.ope[o.id]); for (auto* s : v) { NcFile f; if (s->snap < 0 || !nc_decode(L.snaps[s->snap].data(), L.snaps[s->snap].size(), f).empty()) all = false; } if (all && !v.empty()) return bad("unexpected-error", "process " + S(q) + " cannot read " + o.a[2] + " although complete results were there all the time"); }
        } else if ((o.a[0] == "read" || o.a[0] == "run") && st > 0 && st < 99 && !fired) return bad("unexpected-error", o.a[0] + " of process " + S(q) + " failed without any fault in it, next to other processes");
      } }
    if (!killed && !unl) for (auto& d : G[0].disk) { bool w = init.count(d.first); for (auto& x : L.watch) if (x == d.first) w = true; if (!w && d.first != "out/.") return bad("left-over", "file " + d.first + " is left in the directory"); }
    return Verdict();
  }
  if (P == "C21") {
    if (!has("py")) return Verdict(); auto m = obsmap(res.at("py")[0]);
    for (auto& kv : p.par) if (kv.first.compare(0, 4, "pair") == 0) { auto t = ints(kv.second); for (auto& o : m) if (o.first.first == t[0]) { auto it = m.find({t[1], o.first.second}); if (it != m.end() && (it->second.hash != o.second.hash || it->second.rows != o.second.rows)) return bad("altered-object", "a plot changed " + fieldname(o.first.second) + " of the object"); } }
    return Verdict();
  }
  if (P == "C24") {
    for (auto& kv : res) for (auto& r : kv.second) if (!r.mem.empty()) return bad("memory", r.mem[0]);
    if (!has("s0") || !has("s1")) return Verdict(); const LifeResult &x = res.at("s0")[0], &y = res.at("s1")[0];
    std::string e = cmp_status(x, y); if (!e.empty()) return bad("status", "the same calls in another process: " + e);
    e = cmp_obs(x, y, true); if (!e.empty()) return bad("values", "the same calls in another process: " + e);
    return Verdict();
  }
  if (P == "C15") { for (auto& kv : res) for (auto& r : kv.second) if (!r.mem.empty()) return bad("memory", r.mem[0]); return Verdict(); }
  if (P == "C16") {
    if (!has("cli")) return Verdict(); const LifeResult& r = res.at("cli")[0]; const std::string& fn = p.par.at("file"); bool valid = p.par.at("valid") == "1"; const Life* l = get_life(p, "cli", 0);
    int fired = 0; for (int x : r.fault_fired) fired += x; bool nofault = fired == 0 && l->k.capacity < 0; bool killed = r.end == END_KILLED;
    std::map<std::string, Bytes> init; for (auto& f : p.files) if (f.a[0] != "dir") init[f.name] = file_bytes(f);
    bool ok = !killed && r.cli == 0;
    auto complete = [&](std::string& why) { if (!r.disk.count(fn)) { why = "no " + fn; return false; } if (!valid) { why = "the input is invalid"; return false; } if (!has("api")) { why = ""; return true; } const Bytes& b = r.disk.at(fn); NcFile f, g; why = nc_decode(b.data(), b.size(), f); if (!why.empty()) return false; auto& ad = res.at("api")[0].disk; if (!ad.count("api.nc")) { why = ""; return true; } nc_decode(ad.at("api.nc").data(), ad.at("api.nc").size(), g); why = cmp_data(g, f); return why.empty(); };
    std::string why;
    if (ok) { if (!complete(why)) return bad("wrong-result", "exit status 0, but " + fn + ": " + why); }
    else {
      bool ex = r.disk.count(fn), was = init.count(fn); bool same = ex == was && (!ex || r.disk.at(fn) == init[fn]);
      if (!same && !(killed && complete(why))) return bad("altered-result", std::string(killed ? "killed" : "exit status " + S(r.cli)) + ", but " + fn + " was " + (ex ? was ? "altered" : "created" : "removed") + (why.empty() ? "" : ": " + why));
      if (!killed && nofault && valid) return bad("unexpected-error", "exit status " + S(r.cli) + " for a valid input without any fault");
    }
    for (auto& d : r.disk) if (d.first != fn && d.first.compare(0, 7, "boozmn_") == 0 && d.first.size() > 3 && d.first.compare(d.first.size() - 3, 3, ".nc") == 0 && !init.count(d.first)) return bad("altered-result", "unexpected result file " + d.first);
    return Verdict();
  }
  if (P == "C17") {
    std::map<std::string, Bytes> init; for (auto& f : p.files) if (f.a[0] != "dir") init[f.name] = file_bytes(f);
    auto isres = [](const std::string& n) { return n.compare(0, 7, "boozmn_") == 0; };
    // result files of x that differ from those of y (decoded; undecodable ones byte by byte)
    auto diff = [&](const LifeResult& x, const LifeResult& y) -> std::string {
      for (int pass = 0; pass < 2; pass++) for (auto& d : pass ? y.disk : x.disk) if (isres(d.first) && !(pass ? x : y).disk.count(d.first)) return d.first + " exists only on one side";
      for (auto& d : x.disk) if (isres(d.first)) { const Bytes& o = y.disk.at(d.first); if (d.second == o) continue; NcFile f, g; std::string e = nc_decode(d.second.data(), d.second.size(), f), e2 = nc_decode(o.data(), o.size(), g); if (!e.empty() || !e2.empty()) return d.first + " is " + (e.empty() ? e2 : e); e = cmp_data(f, g); if (!e.empty()) return d.first + ": " + e; }
      return ""; };
    if (has("cpp") && has("py")) {
      const LifeResult &c = res.at("cpp")[0], &y = res.at("py")[0];
      if ((c.cli == 0) != (y.cli == 0)) return bad("acceptance", "exit status " + S(c.cli) + " of the C++ program and " + S(y.cli) + " of the Python program for the same files");
      std::string e = diff(c, y); if (!e.empty()) return bad("different-files", "C++ and Python programs, exit status " + S(c.cli) + ": " + e);
    }
    for (int i = 0; i < 2; i++) { const char *ref = i ? "py" : "cpp", *fl = i ? "pyf" : "cppf", *nm = i ? "Python" : "C++"; if (!has(ref) || !has(fl)) continue;
      const LifeResult &a = res.at(ref)[0], &b = res.at(fl)[0]; if (b.cli != 0 || b.end == END_KILLED) continue;
      if (a.cli != 0) return bad("false-success", std::string("the ") + nm + " program fails without a disk fault and reports success with it");
      std::string e = diff(b, a); if (!e.empty()) return bad("false-success", std::string("the ") + nm + " program reports success under a disk fault: " + e);
    }
    return Verdict();
  }
  return Verdict();
}
bool nontrivial(const Plan& p, const Res& res) {
  int fired = 0; uint64_t sw = 0; bool cap = false; for (auto& kv : res) for (auto& r : kv.second) { for (int x : r.fault_fired) fired += x; sw += r.nswitch; fired += r.outfail; if (r.end == END_KILLED) fired++; }
  for (auto& s : p.scripts) for (auto& l : s.lives) if (l.k.capacity >= 0) cap = true;
  static const std::set<std::string> sched = {"C01", "C02", "C03", "C04", "C06"}; static const std::set<std::string> flt = {"C10", "C11", "C13", "C14"};
  if (sched.count(p.prop)) return sw > 0;
  if (flt.count(p.prop)) return fired > 0 || cap;
  if (p.prop == "C17") { for (auto& kv : res) for (auto& r : kv.second) if (r.cli == 0 && !r.disk.empty()) return true; return fired > 0; }
  if (p.prop == "C21") { for (auto& s : p.scripts) for (auto& l : s.lives) for (auto& o : l.ops) if (o.a[0] == "pyplot" && res.count(s.name) && !res.at(s.name).empty() && res.at(s.name)[0].st(o.id) == 0) return true; return false; }
  if (p.prop == "C22" || p.prop == "C25") { for (auto& kv : res) for (auto& r : kv.second) if (r.end == END_DONE && !(kv.first == "py" && r.obs.empty() && p.prop == "C22")) return true; return false; }
  if (p.prop == "C26") { if (!res.count("group") || res.at("group").empty() || !res.at("group")[0].grp) return false; return res.at("group")[0].grp->sw.size() > res.at("group").size(); }
  if (p.prop == "C12") { if (fired) return true; for (auto& f : p.files) if (f.name == "r.nc" && (f.a.size() > 8 || (f.a[0] == "wout" && f.a.size() > 4))) return true; return false; }
  return true;
}
uint64_t fingerprint(const Plan& p, const Res& res) {
  uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t x) { h = (h ^ x) * 0x100000001b3ull; };
  for (auto& kv : res) for (auto& r : kv.second) { mix(result_hash({r})); }
  for (auto& s : p.scripts) for (auto& l : s.lives) for (auto& f : l.faults) { mix(f.op); mix(f.kind); mix(f.nth); mix(f.action); mix(f.err); mix(f.arg); }
  return h;
}
