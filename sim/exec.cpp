#include <memory>
#include "exec.h"
#include <memory>
#include "adapter.h"
#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

Stats stats;
const char* lib_path = "";
static SimShared* shm; static unsigned char* data; static SimShared* pshm[SIM_MAXPROC]; static SimGroup* group;   // shm: of the process at hand
static void (*p_call)(BxCall*); static int (*p_nfields)(); static void (*p_field)(void*, int, BxField*);
static int (*p_set)(void*, const char*, int); static int (*p_resize)(void*, const char*, int, int); static int (*p_elem)(void*, const char*, int, int); static int (*p_put)(void*, const char*, const double*, int, int); static void (*p_surfs)(void*, const int*, int); static int (*p_driver)(int, char**); static void (*p_warm)();

// ------------------------------------------------------------------ the Python command line
// The interpreter lives in this process; the extension module is the library under test itself.
static int (*py_run)(const char*); static void* (*py_mod)(const char*); static void* (*py_attr)(void*, const char*); static long (*py_long)(void*); static int (*py_setattr)(void*, const char*, void*); static void* (*py_bytes)(const char*, ssize_t); static int (*py_bytes_get)(void*, char**, ssize_t*);
static void py_init() {
  void* h = dlopen("libpython3.12.so.1.0", RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
  auto init = (void (*)(int))dlsym(h, "Py_InitializeEx");
  py_run = (decltype(py_run))dlsym(h, "PyRun_SimpleString"); py_mod = (decltype(py_mod))dlsym(h, "PyImport_AddModule"); py_attr = (decltype(py_attr))dlsym(h, "PyObject_GetAttrString"); py_long = (decltype(py_long))dlsym(h, "PyLong_AsLong");
  py_setattr = (decltype(py_setattr))dlsym(h, "PyObject_SetAttrString"); py_bytes = (decltype(py_bytes))dlsym(h, "PyBytes_FromStringAndSize"); py_bytes_get = (decltype(py_bytes_get))dlsym(h, "PyBytes_AsStringAndSize");
  if (!init || !py_run || !py_mod || !py_attr || !py_long || !py_setattr || !py_bytes || !py_bytes_get) { fprintf(stderr, "libpython: missing symbols\n"); _exit(2); }
  init(0);
  std::string boot = std::string("__file__ = r'''") + getenv("SIMRUN_PY") + "'''\nexec(compile(open(__file__).read(), __file__, 'exec'), globals())\n";
  if (py_run(boot.c_str())) { fprintf(stderr, "the Python package cannot be imported\n"); py_run("sys.__stderr__.write(sys.stderr.getvalue()) if sys.stderr is not sys.__stderr__ else None"); fflush(stderr); _exit(2); }
}
static int py_call(const char* fn, const std::vector<std::string>& args) {
  std::string c = std::string("_sim_rc = ") + fn + "(["; char b[8]; for (auto& a : args) { c += "b'"; for (unsigned char x : a) { snprintf(b, 8, "\\x%02x", x); c += b; } c += "', "; } c += "])\n";
  if (py_run(c.c_str())) return -1;
  return (int)py_long(py_attr(py_mod("__main__"), "_sim_rc"));
}
static int py_cli(const std::vector<std::string>& args) { int r = py_call("_sim_cli", args); return r < 0 ? 1 : r; }

static void exec_names();
void exec_init(const char* lib) {
  lib_path = lib;
  if (getenv("SIMRUN_PY") && !dlopen("libpython3.12.so.1.0", RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
  void* h = dlopen(lib, RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
  p_call = (decltype(p_call))dlsym(h, "bx_call"); p_nfields = (decltype(p_nfields))dlsym(h, "bx_nfields"); p_field = (decltype(p_field))dlsym(h, "bx_field");
  p_set = (decltype(p_set))dlsym(h, "bx_set_int"); p_resize = (decltype(p_resize))dlsym(h, "bx_resize"); p_elem = (decltype(p_elem))dlsym(h, "bx_elem"); p_put = (decltype(p_put))dlsym(h, "bx_put"); p_surfs = (decltype(p_surfs))dlsym(h, "bx_set_surfs"); p_driver = (decltype(p_driver))dlsym(h, "bx_driver"); p_warm = (decltype(p_warm))dlsym(h, "bx_warm");
  shm = (SimShared*)mmap(nullptr, sizeof(SimShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  data = (unsigned char*)mmap(nullptr, (size_t)SIM_MAXINODES * SIM_INODE_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto shared = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(2); } return p; };
  SimDisk* dk = (SimDisk*)shared(sizeof(SimDisk)); group = (SimGroup*)shared(sizeof(SimGroup)); group->snapdata = (unsigned char*)shared((size_t)SIM_MAXSNAP * SIM_INODE_CAP);
  for (int i = 0; i < SIM_MAXPROC; i++) { pshm[i] = i ? (SimShared*)shared(sizeof(SimShared)) : shm; pshm[i]->dk = dk; pshm[i]->dir = dk->dir; pshm[i]->ino = dk->ino; pshm[i]->me = i; }
  if (shm == MAP_FAILED || data == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(2); }
  sim_init(shm, data); sim_set_repo((void*)p_call);
  fflush(stdout); int o = dup(1), z = open("/dev/null", O_WRONLY); dup2(z, 1); p_warm(); exec_names(); if (getenv("SIMRUN_PY")) py_init(); fflush(stdout); dup2(o, 1); close(o); close(z);
}

// ------------------------------------------------------------------ inside a life
static uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; return h; }
uint64_t hash_bytes(const void* p, size_t n) { return fnv(p, n); }
static const std::set<std::string>& fset(const std::string& n) {
  static std::map<std::string, std::set<std::string>> m;
  if (m.empty()) {
    auto mk = [](const char* s) { std::set<std::string> r; for (auto& x : split(s, ' ')) r.insert(x); return r; };
    m["in"] = mk("asym nfp mpol ntor mnmax mpol_nyq ntor_nyq mnmax_nyq xm xn xm_nyq xn_nyq ns_in s_in iota rmnc rmns zmnc zmns lmnc lmns bmnc bmns bsubumnc bsubumns bsubvmnc bsubvmns compute_surfs aspect toroidal_flux phi phip chi pres mboz nboz");
    m["inonly"] = mk("asym nfp mpol ntor mnmax mpol_nyq ntor_nyq mnmax_nyq xm xn xm_nyq xn_nyq ns_in s_in iota rmnc rmns zmnc zmns lmnc lmns bmnc bmns bsubumnc bsubumns bsubvmnc bsubvmns aspect toroidal_flux phi phip chi pres");
    m["out"] = mk("mboz nboz compute_surfs ns_b s_b mnboz xm_b xn_b bmnc_b bmns_b gmnc_b gmns_b rmnc_b rmns_b zmnc_b zmns_b numnc_b numns_b Boozer_G Boozer_G_all Boozer_I Boozer_I_all");
    m["booz"] = mk("asym nfp mboz nboz mnboz xm_b xn_b ns_in iota compute_surfs ns_b s_b bmnc_b bmns_b gmnc_b gmns_b rmnc_b rmns_b zmnc_b zmns_b numnc_b numns_b Boozer_G_all Boozer_I_all phi phip chi pres toroidal_flux aspect");
    m["all"] = {};
  }
  return m[n];
}
static bool in_set(const std::string& set, const char* n) { if (set == "all") return strcmp(n, "verbose") != 0; return fset(set).count(n) > 0; }
static std::vector<std::string> fnames;
static Fields fields_of(void* o) {
  Fields f; int n = p_nfields();
  for (int i = 0; i < n; i++) {
    BxField b; p_field(o, i, &b); Arr a; a.rows = b.rows; a.cols = b.cols; size_t c = (size_t)b.rows * b.cols; a.v.resize(c);
    for (size_t k = 0; k < c; k++) a.v[k] = b.type == BXF_BOOL ? (double)*(const bool*)b.p : (b.type == BXF_INT || b.type == BXF_IVEC) ? ((const int*)b.p)[k] : ((const double*)b.p)[k];
    a.is_int = b.type == BXF_BOOL || b.type == BXF_INT || b.type == BXF_IVEC;
    if (!strcmp(b.name, "phip") && c) a.v[0] = 0;     // set to 0 by a write (documented layout), irrelevant otherwise
    f[b.name] = a;
  }
  return f;
}
static void exec_names() { BxCall c; memset(&c, 0, sizeof c); c.which = BXC_NEW; p_call(&c); for (int i = 0; i < p_nfields(); i++) { BxField b; p_field(c.out, i, &b); fnames.push_back(b.name); } c.which = BXC_DEL; c.obj = c.out; p_call(&c); }
// din, dout: inputs or results were left undefined by a failed call
struct Obj { void* p = nullptr; bool in = false, out = false; int res = 0; bool din = false, dout = false; std::shared_ptr<Fields> snap; };   // res: results 1 present, 0 absent, -1 altered by hand or unknown
static std::map<std::string, Obj> objs;
static Bytes disk_get(const std::string& n) { int d = sim_disk_find(shm, n.c_str()); if (d < 0) return {}; int i = shm->dir[d].inode; return Bytes(data + (size_t)i * SIM_INODE_CAP, data + (size_t)i * SIM_INODE_CAP + shm->ino[i].size); }
static void viol(const char* cls, const std::string& m) { sim_violation(cls, m.c_str()); }
static void record(void* o, int tag, const std::string& set) {
  int n = p_nfields();
  for (int i = 0; i < n; i++) {
    BxField b; p_field(o, i, &b); if (!in_set(set, b.name)) continue;
    size_t esz = b.type == BXF_BOOL ? 1 : (b.type == BXF_INT || b.type == BXF_IVEC) ? 4 : 8;
    size_t c = (size_t)b.rows * b.cols; uint64_t h;
    if (!strcmp(b.name, "phip") && c) h = fnv((const char*)b.p + 8, (c - 1) * 8);
    else h = fnv(b.p, c * esz);
    auto add = [&](int f, int r, int cc, uint64_t hh) { if (shm->nobs < SIM_MAXOBS) shm->obs[shm->nobs++] = SimObs{tag, f, r, cc, hh}; };
    add(i, b.rows, b.cols, h);
    if (b.type == BXF_MAT && set == "out") for (int k = 0; k < b.cols; k++) add(i + 1000 * (k + 1), b.rows, 1, fnv((const double*)b.p + (size_t)k * b.rows, (size_t)b.rows * 8));
    if (b.type == BXF_VEC && set == "out" && (!strcmp(b.name, "s_b") || !strcmp(b.name, "Boozer_G") || !strcmp(b.name, "Boozer_I"))) for (int k = 0; k < b.rows; k++) add(i + 1000 * (k + 1), 1, 1, fnv((const double*)b.p + k, 8));
  }
}
// the attributes of a Python object, recorded like the members of a C++ object
static std::vector<std::string> py_fields(const std::string& set) { std::vector<std::string> v; for (auto& n : fnames) if (in_set(set, n.c_str())) v.push_back(n); return v; }
static bool py_get_blob(std::string& out) { char* d = nullptr; ssize_t n = 0; void* o = py_attr(py_mod("__main__"), "_sim_blob"); if (!o || py_bytes_get(o, &d, &n)) return false; out.assign(d, (size_t)n); return true; }
static void py_put_blob(const std::string& b) { py_setattr(py_mod("__main__"), "_sim_blob", py_bytes(b.data(), (ssize_t)b.size())); }
static void pack(std::string& s, const std::string& name, int kind, int r, int c, const double* v) { s += name; s += '\0'; int h[3] = {kind, r, c}; s.append((const char*)h, 12); s.append((const char*)v, (size_t)r * c * 8); }
static int py_record(const std::string& o, int tag, const std::string& set, int how) {
  auto f = py_fields(set); std::string l, blob; for (auto& n : f) l += (l.empty() ? "" : ",") + n;
  int r = py_call("_sim_api", {"obs", std::to_string(how), o, l}); if (r) return r < 0 ? 3 : r;
  if (!py_get_blob(blob)) return 3;
  size_t at = 0;
  for (auto& n : f) {
    int h[4]; if (at + 16 > blob.size()) return 3; memcpy(h, blob.data() + at, 16); at += 16; const char* d = blob.data() + at; at += h[3];
    int i = (int)(std::find(fnames.begin(), fnames.end(), n) - fnames.begin()); size_t c = (size_t)h[1] * h[2];
    uint64_t hh = n == "phip" && c ? fnv(d + 8, (c - 1) * 8) : fnv(d, h[3]);
    auto add = [&](int fi, int rr, int cc, uint64_t x) { if (shm->nobs < SIM_MAXOBS) shm->obs[shm->nobs++] = SimObs{tag, fi, rr, cc, x}; };
    add(i, h[1], h[2], hh);
    if (h[0] == BXF_MAT && set == "out") for (int k = 0; k < h[2]; k++) add(i + 1000 * (k + 1), h[1], 1, fnv((const double*)d + (size_t)k * h[1], (size_t)h[1] * 8));
    if (h[0] == BXF_VEC && set == "out" && (n == "s_b" || n == "Boozer_G" || n == "Boozer_I")) for (int k = 0; k < h[1]; k++) add(i + 1000 * (k + 1), 1, 1, fnv((const double*)d + k, 8));
  }
  return 0;
}
static int call(BxCall& c, int id) { sim_op_begin(id); p_call(&c); sim_op_end(); return c.rc; }
static int fired_in(int id) { int n = 0; for (int i = 0; i < shm->nfaults; i++) if (shm->faults[i].op == id || (shm->faults[i].op < 0)) n += shm->faults[i].fired; return n; }
static bool cond(const std::string& c) {
  auto t = split(c.substr(1), ':'); int k = t.size() > 1 ? atoi(t[1].c_str()) : 0;
  int st = k >= 0 && k < SIM_MAXOPS ? shm->op_done[k] - 1 : -1;
  if (t[0] == "ok") return st == 0;
  if (t[0] == "err") return st > 0 && st < 99;
  if (t[0] == "nf") return fired_in(k) == 0 && shm->k.capacity < 0;
  return true;
}
static bool num(const std::string& s, double& v) { if (s.empty()) return false; char* e; v = strtod(s.c_str(), &e); return *e == 0; }
static bool intok(const std::string& s, int& v) { if (s.empty()) return false; char* e; v = (int)strtol(s.c_str(), &e, 10); return *e == 0; }
static void check_report(int k, const WSpec& w, int mboz, int nboz, const std::vector<int>& surfs, int endoff) {
  if (endoff >= SIM_OUTCAP) return;         // more output than was kept
  std::string t(shm->out + shm->outop[k], shm->out + endoff);
  std::vector<std::string> lines = split(t, '\n'); char b[400];
  size_t i0 = 0; for (size_t i = 0; i < lines.size(); i++) if (lines[i].find("----") == 0) { i0 = i + 1; break; }
  std::vector<int> seen(surfs.size(), 0);
  auto toks = [](const std::string& l) { std::vector<std::string> r; std::istringstream s(l); std::string x; while (s >> x) r.push_back(x); return r; };
  for (size_t i = i0; i < lines.size(); i++) {
    if (lines[i].empty() && i + 1 == lines.size()) break;
    auto a = toks(lines[i]);
    int th, jb, js, z; double v[12]; bool ok = false;
    if (a.size() == 10 && intok(a[0], th) && intok(a[1], jb) && intok(a[2], js) && intok(a[3], z)) {
      ok = true; for (int q = 0; q < 6; q++) ok = ok && num(a[4 + q], v[q]);
      if (ok && i + 1 < lines.size()) {
        auto c = toks(lines[i + 1]); ok = c.size() == 7 && c[0] == "pi"; for (int q = 0; ok && q < 6; q++) ok = num(c[1 + q], v[6 + q]);
      } else ok = false;
      if (!ok) { snprintf(b, sizeof b, "report block is broken: \"%.90s\" / \"%.90s\"", lines[i].c_str(), i + 1 < lines.size() ? lines[i + 1].c_str() : ""); viol("report-broken", b); }
      i++;
      if (jb < 0 || jb >= (int)surfs.size() || surfs[jb] != js) { snprintf(b, sizeof b, "report names js_b=%d js=%d, requested surfaces %s", jb, js, join(surfs).c_str()); viol("report-surface", b); }
      seen[jb]++;
      if (th < 0 || th >= SIM_MAXT) viol("report-thread", lines[i - 1]);
      const Surf& s = model_surface(w, mboz, nboz, js);
      for (int q = 0; q < 4; q++) {
        double bi = v[3 * q], bb = v[3 * q + 1], be = v[3 * q + 2];
        if (std::fabs(bi - s.binp[q]) > 6e-4 * std::fabs(s.binp[q]) + 1e-12 || std::fabs(bb - s.bboz[q]) > 6e-4 * std::fabs(s.bboz[q]) + 1e-12 || std::fabs(be - s.berr[q]) > 6e-4 * std::fabs(s.berr[q]) + 1e-11) {
          snprintf(b, sizeof b, "report of js_b=%d js=%d, point %d shows %g %g %g, true values are %g %g %g", jb, js, q, bi, bb, be, s.binp[q], s.bboz[q], s.berr[q]); viol("report-values", b);
        }
      }
      continue;
    }
    if (lines[i].find("Solving for js_b=") == 0) { int x, y; char tail; int r = sscanf(lines[i].c_str(), "Solving for js_b=%d, js=%d%c", &x, &y, &tail); if (r == 2) continue; }
    if (i0) { snprintf(b, sizeof b, "output among the reports is garbled: \"%.200s\"", lines[i].c_str()); viol("report-broken", b); }
  }
  for (size_t i = 0; i < surfs.size(); i++) if (seen[i] != 1) { snprintf(b, sizeof b, "%d reports for requested surface number %zu (js=%d)", seen[i], i, surfs[i]); viol("report-count", b); }
}
// Are the inputs of a run present and consistent?  1 yes, 0 no (why says so), -1 consistent, but not certain to succeed
static int inputs_state(const Fields& f, std::string& why) {
  auto I = [&](const char* n) { return (long long)f.at(n).v[0]; };
  long long ns = I("ns_in"), mn = I("mnmax"), mq = I("mnmax_nyq"), nfp = I("nfp"), mpol = I("mpol"), ntor = I("ntor"), pq = I("mpol_nyq"), nq = I("ntor_nyq"), mb = I("mboz"), nb = I("nboz"); bool asym = I("asym");
  auto no = [&](const std::string& w) { why = w; return 0; };
  if (ns < 1 || mn < 1 || mq < 1) return no("no input data");
  if (nfp < 1) return no("nfp"); if (mpol < 1 || ntor < 0 || pq < 0 || nq < 0) return no("mpol/ntor"); if (mb < 1) return no("mboz"); if (nb < 0) return no("nboz");
  for (const char* n : {"xm", "xn"}) { if ((long long)f.at(n).v.size() != mn) return no(std::string("size of ") + n); if ((long long)f.at(std::string(n) + "_nyq").v.size() != mq) return no(std::string("size of ") + n + "_nyq"); }
  if (f.at("xm_nyq").v[0] != 0 || f.at("xn_nyq").v[0] != 0) return no("first mode number");
  for (int k = 0; k < mn; k++) if (f.at("xm").v[k] < 0 || f.at("xm").v[k] >= mpol || (long long)(std::fabs(f.at("xn").v[k]) / nfp) > ntor) return no("mode numbers");
  for (int k = 0; k < mq; k++) if (f.at("xm_nyq").v[k] < 0 || f.at("xm_nyq").v[k] > pq || (long long)(std::fabs(f.at("xn_nyq").v[k]) / nfp) > nq) return no("nyquist mode numbers");
  for (const char* n : {"s_in", "iota"}) if ((long long)f.at(n).v.size() != ns) return no(std::string("size of ") + n);
  for (const char* n : {"rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc", "rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"}) {
    bool as = !strcmp(n, "rmns") || !strcmp(n, "zmnc") || !strcmp(n, "lmnc") || !strcmp(n, "bmns") || !strcmp(n, "bsubumns") || !strcmp(n, "bsubvmns"); if (as && !asym) continue;
    const Arr& a = f.at(n); if (a.rows != (n[0] == 'b' ? mq : mn) || a.cols != ns) return no(std::string("shape of ") + n);
  }
  for (double s : f.at("compute_surfs").v) if (s < 0 || s >= ns) return no("compute_surfs");
  double nt = 4.0 * mb + 2, nz = 4.0 * nb + 2;
  if (nt * nz > 2147483647.0 || nz * nfp > 2147483647.0) return mb > 100000000 || nb > 100000000 ? no("resolution") : -1;
  for (int k = 0; k < mn; k++) if ((long long)f.at("xn").v[k] % nfp) return -1;      // unusual, the documentation excludes it
  for (int k = 0; k < mq; k++) if ((long long)f.at("xn_nyq").v[k] % nfp) return -1;
  return nt * nz * 8 * std::max<long long>({mpol, ntor + 1, pq + 1, nq + 1, mb + 1, nb + 1}) > 5e7 || f.at("compute_surfs").v.empty() ? -1 : 1;
}
// Are there results that can be written?
static int results_state(const Fields& f, int res, std::string& why) {
  auto I = [&](const char* n) { return (long long)f.at(n).v[0]; }; auto no = [&](const std::string& w) { why = w; return 0; };
  if (!res) return no("no results of a completed calculation");
  long long ns = I("ns_in"), nb = I("ns_b"), mn = I("mnboz"), bs = f.at("compute_surfs").v.size();
  if (nb != bs) return no("compute_surfs has another size than the results");
  if (ns < 1 || nb < 1 || mn < 1) return no("sizes");
  for (const char* n : {"xm_b", "xn_b"}) if ((long long)f.at(n).v.size() != mn) return no(n);
  for (const char* n : {"iota", "Boozer_G_all", "Boozer_I_all"}) if ((long long)f.at(n).v.size() != ns) return no(std::string("size of ") + n);
  if (f.at("phip").v.size()) for (const char* n : {"phip", "chi", "pres", "phi"}) if ((long long)f.at(n).v.size() != ns + 1) return no(std::string("size of ") + n);
  for (const char* n : {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b", "bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"}) {
    bool as = !strcmp(n, "bmns_b") || !strcmp(n, "rmns_b") || !strcmp(n, "zmnc_b") || !strcmp(n, "numnc_b") || !strcmp(n, "gmns_b"); if (as && !I("asym")) continue;
    if (f.at(n).rows != mn || f.at(n).cols != nb) return no(std::string("shape of ") + n);
  }
  return res;
}
static std::vector<BxCall> parcalls;
static void par_fn(void* p) { p_call((BxCall*)p); }

// what a user assigns who does not read an input file
static Fields fill_inputs(const WSpec& w, int flux) { Fields f = model_inputs(w, flux); static const std::set<std::string> skip = {"compute_surfs", "mboz", "nboz"}; Fields r; for (auto& kv : f) if (!skip.count(kv.first)) r[kv.first] = kv.second; return r; }
static int py_kind(const std::string& n) { static std::map<std::string, int> m; if (m.empty()) { BxCall c; memset(&c, 0, sizeof c); c.which = BXC_NEW; p_call(&c); for (int i = 0; i < p_nfields(); i++) { BxField b; p_field(c.out, i, &b); m[b.name] = b.type; } c.which = BXC_DEL; c.obj = c.out; p_call(&c); } return m.at(n); }
// the same calls through the Python class
// what of "all" is defined after failed calls
static std::string defined(const Obj& o, const std::string& s) { return s != "all" || (!o.din && !o.dout) || (o.in && o.out) ? s : o.in ? "in" : "booz"; }
static int py_op(const Life& l, const Op& op) {
  const auto& a = op.a; std::string n = a[0].substr(2); int how = (int)((l.k.rnd + 7919ull * op.id) % 1000); Obj& o = objs[a[1]];
  auto go = [&](std::vector<std::string> v) { v.insert(v.begin() + 1, std::to_string(how)); sim_op_begin(op.id); int r = py_call("_sim_api", v); sim_op_end(); return r < 0 ? 3 : r; };
  if (n == "new") { if (o.p) return 99; int r = go({"new", a[1]}); if (!r) o.p = (void*)1; return r; }
  if (n == "plot") {      // pyplot <object or => <file or -> <function> <options>
    bool good = true, file = a[1] == "="; std::string b;
    if (!file && (!o.p || !o.out)) return 99;
    if (file) {
      NcFile f; Bytes d = disk_get(a[2]); good = nc_decode(d.data(), d.size(), f).empty();
      if (good) for (auto& kv : booz_fields(f)) pack(b, kv.first, py_kind(kv.first), kv.second.rows, kv.second.cols, kv.second.v.data());
      py_put_blob(b);
    }
    int r = go({"plot", a[1], a[2], a[3], a[4]});
    if (r == 0) { if (!good) viol("plot-data", a[3] + " drew something although " + a[2] + " cannot be read"); if (py_get_blob(b) && !b.empty()) viol("plot-data", a[3] + " of " + (file ? a[2] : a[1]) + ": " + b); }
    else if (good && !fired_in(op.id)) viol("unexpected-error", a[3] + " raised an error");
    return r;
  }
  if (n == "held") { int r = go({"held", a[1]}); std::string b; if (!r && py_get_blob(b) && !b.empty()) viol("held-array", "arrays obtained earlier from " + a[1] + " have changed: " + b); return r; }
  if (!o.p) return 99;
  if (n == "del") { int r = go({"del", a[1]}); objs.erase(a[1]); return r; }
  if (n == "read") { o.in = o.out = false; int r = go({"read", a[1], a[2], a[3]}); o.in = !r; return r; }
  if (n == "readb") { o.in = o.out = false; int r = go({"readb", a[1], a[2]}); o.out = !r; return r; }
  if (n == "run") { if (!o.in) return 99; int r = go({"run", a[1]}); o.out = !r; return r; }
  if (n == "write") { if (!o.out) return 99; return go({"write", a[1], a[2]}); }
  if (n == "set") { int r = go({"set", a[1], a[2], a[3]}); if (a[2] != "verbose") o.out = false; return r; }
  if (n == "surfs") { int r = go({"surfs", a[1], a[2]}); o.out = false; return r; }
  if (n == "fill") { o.in = o.out = false; std::string b; for (auto& kv : fill_inputs(WSpec::parse(a[2]), atoi(a[3].c_str()))) pack(b, kv.first, py_kind(kv.first), kv.second.rows, kv.second.cols, kv.second.v.data()); py_put_blob(b); int r = go({"fill", a[1]}); o.in = !r; return r; }
  if (n == "initv") {
    WSpec w = WSpec::parse(a[2]); const Wout& m = wout(w); std::string b; int ns = w.ns, k = m.mnmax, q = m.mnmax_nyq, flux = atoi(a[3].c_str());
    auto I = [&](const char* x, int v) { double d = v; pack(b, x, BXF_INT, 1, 1, &d); }; auto IV = [&](const char* x, const std::vector<int>& v) { std::vector<double> d(v.begin(), v.end()); pack(b, x, BXF_IVEC, (int)v.size(), 1, d.data()); };
    double as = w.asym, asp = m.aspect; pack(b, "asym", BXF_BOOL, 1, 1, &as); I("nfp", w.nfp); I("mpol", w.mpol); I("ntor", w.ntor); I("mnmax", k); I("mpol_nyq", w.mq); I("ntor_nyq", w.nq); I("mnmax_nyq", q); pack(b, "aspect", BXF_DBL, 1, 1, &asp);
    IV("xm", m.xm); IV("xn", m.xn); IV("xm_nyq", m.xmq); IV("xn_nyq", m.xnq); I("@ns", ns);
    pack(b, "@iotas", BXF_VEC, ns, 1, m.iotas.data());
    auto M = [&](const char* x, const std::vector<double>& v, int r, bool on) { pack(b, std::string("@") + x, BXF_MAT, on ? r : 0, on ? ns : 0, v.data()); };
    M("rmnc0", m.rmnc, k, true); M("rmns0", m.rmns, k, w.asym); M("zmnc0", m.zmnc, k, w.asym); M("zmns0", m.zmns, k, true); M("lmnc0", m.lmnc, k, w.asym); M("lmns0", m.lmns, k, true);
    M("bmnc0", m.bmnc, q, true); M("bmns0", m.bmns, q, w.asym); M("bsubumnc0", m.bu, q, true); M("bsubumns0", m.bus, q, w.asym); M("bsubvmnc0", m.bv, q, true); M("bsubvmns0", m.bvs, q, w.asym);
    if (flux) { pack(b, "@phips", BXF_VEC, ns, 1, m.phipf.data()); pack(b, "@chi", BXF_VEC, ns, 1, m.chi.data()); pack(b, "@pres", BXF_VEC, ns, 1, m.pres.data()); pack(b, "@phi", BXF_VEC, ns, 1, m.phi.data()); }
    py_put_blob(b); o.in = o.out = false; int r = go({"initv", a[1]}); o.in = !r; return r;
  }
  if (n == "obs") { const std::string& s = a[3]; if ((s == "out" || s == "booz") && !o.out) return 99; if ((s == "in" || s == "inonly") && !o.in) return 99; if (s == "all" && !o.in && !o.out) return 99; return py_record(a[1], atoi(a[2].c_str()), defined(o, s), how); }
  if (n == "ro") { std::string f; for (auto& x : split(a[2], '+')) f += (f.empty() ? "" : ",") + x; int r = go({"ro", a[1], f}); if (r) viol("writable-output", "an output among " + f + " can be assigned or is missing"); return r; }
  if (n == "hold") { std::string f; for (auto& x : split(a[3], '+')) f += (f.empty() ? "" : ",") + x; return go({"hold", a[1], a[2], f}); }
  return 99;
}
struct Assign { Assign() { sim_assign(1); } ~Assign() { sim_assign(0); } };     // until the end of the statement
static int do_op(const Life& l, const Op& op) {
  const auto& a = op.a; const std::string& n = a[0];
  auto O = [&](size_t i) -> Obj& { return objs[a[i]]; };
  BxCall c; memset(&c, 0, sizeof c);
  if (n == "new") { if (O(1).p) return 99; c.which = BXC_NEW; int r = call(c, op.id); if (!r) { Obj q; q.p = c.out; objs[a[1]] = q; } return r; }
  if (n == "copy") { if (O(1).p || !O(2).p) return 99; c.which = BXC_COPY; c.src = O(2).p; int r = call(c, op.id); if (!r) { Obj s = O(2); s.p = c.out; objs[a[1]] = s; } return r; }
  if (n == "del") { if (!O(1).p) return 99; c.which = BXC_DEL; c.obj = O(1).p; int r = call(c, op.id); objs.erase(a[1]); return r; }
  if (n == "assign") { if (!O(1).p || !O(2).p) return 99; c.which = BXC_ASSIGN; c.obj = O(1).p; c.src = O(2).p; int r = call(c, op.id); Obj& d = O(1); d.in = !r && O(2).in; d.out = !r && O(2).out; d.res = r ? -1 : O(2).res; d.din = r || O(2).din; d.dout = r || O(2).dout; return r; }
  if (n == "nap") { sim_group_yield(); return 0; }
  if (n == "cli") {
    std::vector<std::string> st(a.begin() + 1, a.end()); std::vector<char*> av; static char a0[] = "xbooz_xform"; av.push_back(a0); for (auto& s : st) av.push_back((char*)s.c_str()); av.push_back(nullptr);
    sim_op_begin(op.id); int rc = p_driver((int)av.size() - 1, av.data()); sim_op_end(); shm->cli_rc = rc; return rc ? 1 : 0;
  }
  if (n == "pycli") { sim_op_begin(op.id); int rc = py_cli(std::vector<std::string>(a.begin() + 1, a.end())); sim_op_end(); shm->cli_rc = rc; return rc ? 1 : 0; }
  if (n.compare(0, 2, "py") == 0) return py_op(l, op);
  if (n == "par") {
    std::vector<void*> args; parcalls.clear(); parcalls.reserve(a.size());
    for (size_t i = 1; i < a.size(); i++) if (O(i).p && O(i).in) { BxCall q; memset(&q, 0, sizeof q); q.which = BXC_RUN; q.obj = O(i).p; parcalls.push_back(q); }
    for (auto& q : parcalls) args.push_back(&q);
    if (args.empty()) return 99;
    sim_op_begin(op.id); sim_parallel_calls((int)args.size(), par_fn, args.data()); sim_op_end();
    size_t k = 0; int rc = 0; for (size_t i = 1; i < a.size(); i++) if (O(i).p && O(i).in) { int r = parcalls[k++].rc; O(i).out = r == 0; O(i).res = r == 0; O(i).dout = r != 0; if (r) rc = r; }
    return rc;
  }
  if (n == "fds") { int k = sim_open_fds(); if (k) { char b[200]; snprintf(b, sizeof b, "%d file(s) left open after the failed call", k); viol("open-files", b); } return 0; }
  if (n == "heap") { sim_heap_check(); if (shm->nmem) viol("memory", std::string(shm->mem[0])); return 0; }
  if (n == "mustok") { int k = atoi(a[1].c_str()); int st = shm->op_done[k] - 1; if (st > 0 && st < 99) viol("unexpected-error", a.size() > 2 ? a[2] : "call " + a[1] + " failed"); return 0; }
  if (n == "musterr") { int k = atoi(a[1].c_str()); int st = shm->op_done[k] - 1; if (st == 0) viol("no-error", a.size() > 2 ? a[2] : "call " + a[1] + " succeeded"); return 0; }
  if (n == "cmpdata") {
    NcFile f1, f2; Bytes b1 = disk_get(a[1]), b2 = disk_get(a[2]); std::string e = nc_decode(b1.data(), b1.size(), f1); if (e.empty()) e = nc_decode(b2.data(), b2.size(), f2);
    if (e.empty()) e = cmp_data(f1, f2);
    if (!e.empty()) viol("file-contents", a[1] + " and " + a[2] + ": " + e);
    return 0;
  }
  if (n == "swap") {      // swap <name> <file spec>: another program replaces the file in one step
    sim_group_yield(); if (shm->grp) shm->opb[op.id] = shm->grp->ev;
    FileSpec fs; fs.a.assign(a.begin() + 2, a.end()); Bytes b = file_bytes(fs); std::string t = a[1] + ".swap"; sim_disk_put(shm, data, t.c_str(), b.data(), b.size()); sim_disk_move(shm, t.c_str(), a[1].c_str());
    if (shm->grp) shm->ope[op.id] = shm->grp->ev + 1; sim_group_yield(); return 0; }
  if (n == "chkver") {    // chkver <object> <file> <op> | <object> <file> <op> <flux> <spec>...: what was read was in place as a whole during the call
    Obj& o = O(1); int k = atoi(a[3].c_str()); SimGroup* q = shm->grp; if (!o.p || !q || (a.size() > 4 ? !o.in : !o.out)) return 99;
    std::string e, why; bool any = false;
    if (a.size() > 4) { for (size_t i = 5; i < a.size(); i++) { Fields w = model_inputs(WSpec::parse(a[i]), atoi(a[4].c_str())); if (w["phip"].rows) w["phip"].v[0] = 0; e = cmp_fields(w, fields_of(o.p), 1e-12); if (e.empty()) return 0; why += (why.empty() ? "" : "; ") + e; } }
    else {
      for (int w = 0; w < q->nwatch; w++) if (a[2] == q->watch[w]) for (int i = 0; i < q->nsample; i++) if (q->sample[i].file == w) {
        int next = 1 << 30; for (int j = i + 1; j < q->nsample; j++) if (q->sample[j].file == w) { next = q->sample[j].ev; break; }
        if (next < shm->opb[k] || q->sample[i].ev > shm->ope[k] || q->sample[i].snap < 0) continue;
        any = true; const unsigned char* d = q->snapdata + (size_t)q->sample[i].snap * SIM_INODE_CAP; NcFile f; e = nc_decode(d, q->snapsize[q->sample[i].snap], f);
        if (e.empty()) e = cmp_fields(booz_fields(f), fields_of(o.p), 1e-13);
        if (e.empty()) return 0;
        why += (why.empty() ? "" : "; ") + e;
      }
      if (q->lost) return 0;
    }
    viol("mixed-contents", "object " + a[1] + " read from " + a[2] + (any || a.size() > 4 ? " agrees with none of the files that were in place meanwhile: " : " which did not exist meanwhile") + why); }
  if (n == "put") { FileSpec fs; fs.a.assign(a.begin() + 2, a.end()); Bytes b = file_bytes(fs); sim_disk_put(shm, data, a[1].c_str(), b.data(), b.size()); return 0; }
  if (n == "report") { int k = atoi(a[1].c_str()); check_report(k, WSpec::parse(a[2]), atoi(a[3].c_str()), atoi(a[4].c_str()), ints(a[5]), shm->outlen); return 0; }
  if (n == "lsd") {         // no files but those that were there and the results
    if (shm->fired[SYS_UNLINK]) return 0;
    std::string l = "," + a[1] + ",";
    for (int i = 0; i < SIM_MAXINODES; i++) if (shm->dir[i].used && l.find("," + std::string(shm->dir[i].name) + ",") == std::string::npos) { viol("left-over", std::string("file ") + shm->dir[i].name + " is left in the directory"); break; }
    return 0;
  }
  if (n == "snap") { Bytes b = disk_get(a[1]); if (shm->nobs < SIM_MAXOBS) shm->obs[shm->nobs++] = SimObs{atoi(a[2].c_str()), 900, (int)b.size(), sim_disk_find(shm, a[1].c_str()) >= 0, fnv(b.data(), b.size())}; return 0; }
  // the rest needs the object in a[1]
  Obj& o = O(1);
  if (!o.p) return 99;
  c.obj = o.p;
  if (n == "read") { o.in = o.out = false; c.which = BXC_READ_WOUT; c.file = a[2].c_str(); c.flag = atoi(a[3].c_str()); int r = call(c, op.id); o.in = !r; o.res = r ? (o.res ? -1 : 0) : 0; if (!r) o.snap.reset(); return r; }
  if (n == "initv") {
    WSpec w = WSpec::parse(a[2]); const Wout& m = wout(w); BxVmec v; memset(&v, 0, sizeof v);
    v.ns = w.ns; v.asym = w.asym; v.nfp = w.nfp; v.mpol = w.mpol; v.ntor = w.ntor; v.mnmax = m.mnmax; v.mpol_nyq = w.mq; v.ntor_nyq = w.nq; v.mnmax_nyq = m.mnmax_nyq; v.flux = atoi(a[3].c_str()); v.aspect = m.aspect;
    v.xm = m.xm.data(); v.xn = m.xn.data(); v.xm_nyq = m.xmq.data(); v.xn_nyq = m.xnq.data(); v.iotas = m.iotas.data();
    v.rmnc = m.rmnc.data(); v.zmns = m.zmns.data(); v.lmns = m.lmns.data(); v.bmnc = m.bmnc.data(); v.bsubumnc = m.bu.data(); v.bsubvmnc = m.bv.data();
    if (w.asym) { v.rmns = m.rmns.data(); v.zmnc = m.zmnc.data(); v.lmnc = m.lmnc.data(); v.bmns = m.bmns.data(); v.bsubumns = m.bus.data(); v.bsubvmns = m.bvs.data(); }
    v.phipf = m.phipf.data(); v.chi = m.chi.data(); v.pres = m.pres.data(); v.phi = m.phi.data();
    if (a.size() > 5) { v.bad = a[4].c_str(); v.dr = atoi(a[5].c_str()); v.dc = a.size() > 6 ? (int)strtol(a[6].c_str(), nullptr, 10) : 0; }
    o.in = o.out = false; c.which = BXC_INITVMEC; c.v = &v; int r = call(c, op.id); o.in = !r && !v.bad; o.res = r ? (o.res ? -1 : 0) : 0; if (!r) o.snap.reset(); return r;
  }
  if (n == "fill") { o.snap.reset(); o.in = o.out = false; for (auto& kv : fill_inputs(WSpec::parse(a[2]), atoi(a[3].c_str()))) Assign(), p_put(o.p, kv.first.c_str(), kv.second.v.data(), kv.second.rows, kv.second.cols); o.in = true; o.res = o.res ? -1 : 0; return 0; }
  if (n == "set") { if (a[2] != "verbose") o.snap.reset(); Assign(), p_set(o.p, a[2].c_str(), atoi(a[3].c_str())); if (a[2] != "verbose") { o.out = false; if (o.res) o.res = -1; } return 0; }
  if (n == "surfs") { o.snap.reset(); auto v = ints(a[2]); Assign(), p_surfs(o.p, v.data(), (int)v.size()); o.out = false; if (o.res) o.res = -1; return 0; }
  if (n == "xset") { o.snap.reset(); Assign(), p_set(o.p, a[2].c_str(), (int)strtol(a[3].c_str(), nullptr, 10)); o.in = o.out = false; if (o.res) o.res = -1; return 0; }
  if (n == "xsize") { o.snap.reset(); Fields f = fields_of(o.p); if (!f.count(a[2])) return 99; Assign(), p_resize(o.p, a[2].c_str(), std::max(0, f[a[2]].rows + atoi(a[3].c_str())), std::max(0, f[a[2]].cols + atoi(a[4].c_str()))); o.in = o.out = false; if (o.res) o.res = -1; return 0; }
  if (n == "xelem") { o.snap.reset(); Assign(), p_elem(o.p, a[2].c_str(), atoi(a[3].c_str()), (int)strtol(a[4].c_str(), nullptr, 10)); o.in = o.out = false; if (o.res) o.res = -1; return 0; }
  if (n == "xsurfs") { o.snap.reset(); auto v = ints(a[2]); Assign(), p_surfs(o.p, v.data(), (int)v.size()); o.out = false; if (o.res) o.res = -1; return 0; }
  if (n == "xobs") { record(o.p, atoi(a[2].c_str()), "all"); return 0; }
  if (n == "xrun") {
    std::string why; int st = inputs_state(fields_of(o.p), why); c.which = BXC_RUN; int r = call(c, op.id); bool f = fired_in(op.id) > 0;
    if (r == 0 && st == 0) viol("no-error", "run() succeeded although its input is inconsistent (" + why + ")");
    if (r != 0 && st == 1 && !f) viol("unexpected-error", std::string("run() failed although its input is consistent: ") + c.err);
    o.out = false; o.res = r == 0; o.snap.reset(); if (!r && st == 1) o.snap = std::make_shared<Fields>(fields_of(o.p)); return r;
  }
  if (n == "xwrite") {
    std::string why; Fields fo = fields_of(o.p); int st = results_state(fo, o.res, why); bool had = sim_disk_find(shm, a[2].c_str()) >= 0; Bytes before = disk_get(a[2]);
    c.which = BXC_WRITE; c.file = a[2].c_str(); int r = call(c, op.id);
    if (r == 0 && st == 0) viol("no-error", "write_boozmn() succeeded although there is nothing consistent to write (" + why + ")");
    if (r != 0 && st == 1 && !fired_in(op.id)) viol("unexpected-error", std::string("write_boozmn() failed although the results are there: ") + c.err);
    if (r != 0 && ((sim_disk_find(shm, a[2].c_str()) >= 0) != had || disk_get(a[2]) != before)) viol("destination", "write_boozmn() reported an error, but " + a[2] + " changed");
    if (r == 0 && st < 0 && o.snap) {      // only calls that failed since the results were complete
      Bytes b = disk_get(a[2]); NcFile f; std::string e = nc_decode(b.data(), b.size(), f); if (e.empty()) e = cmp_file_obj(f, *o.snap); if (!e.empty()) viol("file-contents", a[2] + " saved after a failed call mixes old and new data: " + e); }
    if (r == 0 && st == 1) { Bytes b = disk_get(a[2]); NcFile f; std::string e = nc_decode(b.data(), b.size(), f); if (e.empty()) e = cmp_file_obj(f, fields_of(o.p)); if (!e.empty()) viol("file-contents", a[2] + " against the object: " + e); }
    return r;
  }
  if (n == "run") { if (!o.in) return 99; c.which = BXC_RUN; int r = call(c, op.id); o.out = !r; o.res = !r; o.snap.reset(); return r; }
  if (n == "write") { if (!o.out) return 99; c.which = BXC_WRITE; c.file = a[2].c_str(); return call(c, op.id); }
  if (n == "readb") { o.in = o.out = false; c.which = BXC_READ_BOOZMN; c.file = a[2].c_str(); int r = call(c, op.id); o.out = !r; o.res = r ? (o.res ? -1 : 0) : 1; if (!r) o.snap = std::make_shared<Fields>(fields_of(o.p)); return r; }
  if (n == "obs") { bool need_out = a[3] == "out"; if (need_out && !o.out) return 99; if ((a[3] == "in" || a[3] == "inonly") && !o.in) return 99; if (a[3] == "booz" && !o.out) return 99; if (a[3] == "all" && !o.in && !o.out) return 99; record(o.p, atoi(a[2].c_str()), defined(o, a[3])); return 0; }
  if (n == "chkin") {
    if (!o.in) return 99;
    Fields w = model_inputs(WSpec::parse(a[2]), atoi(a[3].c_str())); if (w["phip"].rows) w["phip"].v[0] = 0;
    std::string e = cmp_fields(w, fields_of(o.p), 1e-12); if (!e.empty()) viol("loaded-data", "object " + a[1] + " after reading: " + e); return 0;
  }
  if (n == "chkout") {
    if (!o.out) return 99;
    std::string e = cmp_fields(model_outputs(WSpec::parse(a[2]), atoi(a[3].c_str()), atoi(a[4].c_str()), ints(a[5])), fields_of(o.p), 1e-10);
    if (!e.empty()) viol("results", "object " + a[1] + ": " + e); return 0;
  }
  if (n == "chkbooz") {
    if (!o.out) return 99;
    NcFile f = booz_file(WSpec::parse(a[2]), atoi(a[3].c_str()), atoi(a[4].c_str()), atoi(a[5].c_str()), ints(a[6]), 1, 0);
    Fields w = booz_fields(f); std::string e = cmp_fields(w, fields_of(o.p), 1e-13); if (!e.empty()) viol("loaded-data", "object " + a[1] + " after reading results: " + e); return 0;
  }
  if (n == "cmpfile") {
    if (!o.out) return 99;
    if (sim_disk_find(shm, a[2].c_str()) < 0) viol("file-missing", a[2] + " does not exist after a successful write");
    Bytes b = disk_get(a[2]); NcFile f; std::string e = nc_decode(b.data(), b.size(), f); if (!e.empty()) viol("file-incomplete", a[2] + ": " + e);
    e = cmp_file_obj(f, fields_of(o.p)); if (!e.empty()) viol("file-contents", a[2] + " against the object: " + e); return 0;
  }
  if (n == "cmpobj") {
    if (!O(2).p) return 99;
    Fields x = fields_of(o.p), y = fields_of(O(2).p), w; for (auto& kv : x) if (in_set(a[3], kv.first.c_str())) w[kv.first] = kv.second;
    if (a.size() > 4 && a[4] == "noflux") { for (const char* z : {"phi", "phip", "chi", "pres", "toroidal_flux"}) w.erase(z); for (const char* z : {"phi", "phip", "chi", "pres"}) { for (double d : y[z].v) if (d != 0) viol("object-differs", std::string(z) + " of an object without flux profiles is not zero after reloading"); } }
    std::string e = cmp_fields(w, y, 0); if (!e.empty()) viol("object-differs", a[2] + " against " + a[1] + ": " + e); return 0;
  }
  return 0;
}
static void life_main(const Life& l) {
  sim_life_begin();
  if (shm->grp) sim_group_start(shm);
  for (auto& op : l.ops) {
    bool go = true; Op q; q.id = op.id; for (auto& x : op.a) if (x.size() > 1 && x[0] == '?') go = go && cond(x); else q.a.push_back(x);
    int r = go ? do_op(l, q) : 99;
    if (go && r != 99 && q.a.size() > 1) {
      std::string n = q.a[0].compare(0, 2, "py") == 0 ? q.a[0].substr(2) : q.a[0]; Obj& o = objs[q.a[1]];
      if (n == "read" || n == "initv" || n == "fill") o.din = r; else if (n == "run") o.dout = r; else if (n == "readb" && r) o.din = o.dout = true;
    }
    if (op.id >= 0 && op.id < SIM_MAXOPS) shm->op_done[op.id] = r + 1;
  }
  shm->fds_open = sim_open_fds();
  sim_life_end();
  shm->end = END_DONE;
  _exit(0);
}

// ------------------------------------------------------------------ supervisor
static void prepare_models(const Script& s) {
  for (auto& l : s.lives) for (auto& op : l.ops) {
    const auto& a = op.a;
    if (a[0] == "chkout" && a.size() > 5) model_outputs(WSpec::parse(a[2]), atoi(a[3].c_str()), atoi(a[4].c_str()), ints(a[5]));
    else if (a[0] == "report") for (int js : ints(a[5])) model_surface(WSpec::parse(a[2]), atoi(a[3].c_str()), atoi(a[4].c_str()), js);
    else if (a[0] == "chkin" || a[0] == "fill" || a[0] == "pyfill") model_inputs(WSpec::parse(a[2]), atoi(a[3].c_str()));
    else if (a[0] == "chkver") for (size_t i = 5; i < a.size(); i++) model_inputs(WSpec::parse(a[i]), atoi(a[4].c_str()));
    else if (a[0] == "swap" || a[0] == "put") { FileSpec f; f.a.assign(a.begin() + 2, a.end()); file_bytes(f); }
    else if (a[0] == "chkbooz") model_outputs(WSpec::parse(a[2]), atoi(a[4].c_str()), atoi(a[5].c_str()), ints(a[6]));
  }
}
static std::map<std::string, Bytes> file_cache;
static void disk_reset(const Plan& p) {
  memset(shm->dk, 0, sizeof *shm->dk);
  for (auto& f : p.files) {
    if (f.a[0] == "dir") { sim_disk_put(shm, data, (f.name + "/.").c_str(), "", 0); continue; }
    std::string key; for (auto& x : f.a) key += x + "\x01";
    if (file_cache.size() > 400) file_cache.clear();
    auto it = file_cache.find(key); if (it == file_cache.end()) it = file_cache.emplace(key, file_bytes(f)).first;
    sim_disk_put(shm, data, f.name.c_str(), it->second.data(), it->second.size());
  }
  auto ro = p.par.find("ro"); if (ro != p.par.end()) for (auto& n : split(ro->second, '|')) { int d = sim_disk_find(shm, n.c_str()); if (d >= 0) shm->ino[shm->dir[d].inode].mode = 0444; }
}
static void prepare(SimShared* s, const Life& l) {
  // reset the outcome part
  size_t off = offsetof(SimShared, end); memset((char*)s + off, 0, offsetof(SimShared, sw) - off);
  s->nobs = s->ntrace = s->ntnames = s->nrace = s->nmem = s->outlen = s->nsw = s->nasite = 0; memset(s->tnames, 0, sizeof s->tnames); memset(s->allocs_op, 0, sizeof s->allocs_op);
  memset(s->fired, 0, sizeof s->fired); memset(s->fired_act, 0, sizeof s->fired_act); s->outfail_fired = 0; s->fds_open = 0; s->cli_rc = 0; s->out_total = 0; memset(s->outop, 0, sizeof s->outop);
  s->k = l.k; s->nfaults = (int)std::min<size_t>(l.faults.size(), SIM_MAXFAULTS); for (int i = 0; i < s->nfaults; i++) { s->faults[i] = l.faults[i]; s->faults[i].seen = s->faults[i].fired = 0; }
  s->nexp = (int)std::min<size_t>(l.exp.size(), SIM_MAXSWITCH); for (int i = 0; i < s->nexp; i++) s->exp[i] = l.exp[i];
  s->cur_op = -1; s->grp = nullptr;
}
static pid_t start(SimShared* s, const Life& l) {
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    for (int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM}) signal(sg, SIG_DFL);
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &t, nullptr); t.it_value.tv_sec = 200; setitimer(ITIMER_REAL, &t, nullptr);
    if (s != shm) { shm = s; sim_init(s, data); }
    life_main(l);
  }
  return pid;
}
static LifeResult collect(SimShared* s, const Life& l, int st) {
  LifeResult r; r.end = s->end; if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st);
  if (r.sig == SIGPROF || r.sig == SIGALRM) r.timeout = true;
  r.cur_op = s->cur_op;
  if (r.code == 99 || r.end == END_INTERNAL) { fprintf(stderr, "simulator error: %s\n", s->msg); _exit(2); }
  for (auto& op : l.ops) if (op.a[0] == "cli" || op.a[0] == "pycli") {
    if (s->op_done[op.id]) r.cli = s->cli_rc & 255; else if (r.cur_op == op.id && !r.timeout) { if (r.end == END_NONE) r.cli = r.sig ? 128 + r.sig : r.code; }
  }
  r.asite.assign(s->asite, s->asite + s->nasite); r.vclass = s->vclass; r.msg = s->msg; r.out.assign(s->out, s->outlen); r.obs.assign(s->obs, s->obs + s->nobs); r.trace.assign(s->trace, s->trace + s->ntrace);
  for (int i = 0; i < s->ntnames; i++) r.tnames.push_back(s->tnames[i]);
  memcpy(r.op_done, s->op_done, sizeof r.op_done); memcpy(r.opb, s->opb, sizeof r.opb); memcpy(r.ope, s->ope, sizeof r.ope); memcpy(r.allocs_op, s->allocs_op, sizeof r.allocs_op); memcpy(r.outop, s->outop, sizeof r.outop);
  r.steps = s->steps; r.nswitch = s->nswitch; r.accesses = s->accesses; r.syscalls = s->syscalls; r.allocs = s->allocs; r.simtime = s->simtime_us; r.regions = s->regions; r.sched_hash = s->sched_hash;
  r.race.assign(s->race, s->race + s->nrace); for (int i = 0; i < s->nmem; i++) r.mem.push_back(s->mem[i]);
  r.sw.assign(s->sw, s->sw + s->nsw); r.sw_full = s->nsw >= SIM_MAXSWITCH;
  memcpy(r.fired, s->fired, sizeof r.fired); memcpy(r.fired_act, s->fired_act, sizeof r.fired_act); r.outfail = s->outfail_fired; r.out_total = s->out_total; r.fds = s->fds_open;
  for (int i = 0; i < s->nfaults; i++) r.fault_fired.push_back(s->faults[i].fired);
  sim_disk_reap(s);
  if (!s->grp) for (int i = 0; i < SIM_MAXINODES; i++) if (s->dir[i].used) { int n = s->dir[i].inode; const unsigned char* p = data + (size_t)n * SIM_INODE_CAP; r.disk[s->dir[i].name] = Bytes(p, p + s->ino[n].size); }
  stats.lives++; stats.steps += r.steps; stats.nswitch += r.nswitch; stats.accesses += r.accesses; stats.syscalls += r.syscalls; stats.allocs += r.allocs; stats.simtime += r.simtime; stats.regions += r.regions; stats.outfail += r.outfail;
  for (int i = 0; i < SYS_NKINDS; i++) stats.fired[i] += r.fired[i];
  for (int i = 0; i < 8; i++) stats.fired_act[i] += r.fired_act[i];
  if (r.end == END_KILLED) stats.kills++;
  return r;
}
static void disk_of(LifeResult& r) { for (int i = 0; i < SIM_MAXINODES; i++) if (shm->dir[i].used) { int n = shm->dir[i].inode; const unsigned char* p = data + (size_t)n * SIM_INODE_CAP; r.disk[shm->dir[i].name] = Bytes(p, p + shm->ino[n].size); } }
static LifeResult run_life(const Life& l) {
  prepare(shm, l); pid_t pid = start(shm, l);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return collect(shm, l, st);
}
// all lives at the same time; the schedule of the processes is in the plan: pp = policy,seed,gap,depth,length,quantum; pexp = event:process,...
static ScriptResult run_group(const Plan& p, const Script& s) {
  SimGroup* q = group; unsigned char* sd = q->snapdata; memset(q, 0, sizeof *q); q->snapdata = sd; q->n = (int)std::min<size_t>(s.lives.size(), SIM_MAXPROC); q->turn = -1;
  auto pp = ints(p.par.count("pp") ? p.par.at("pp") : "0,1,3,1,100,5"); pp.resize(6, 1);
  q->policy = pp[0]; q->rng = (uint64_t)pp[1] * 0x9E3779B97F4A7C15ull + 1; q->gap = std::max(1, pp[2]); q->quantum = std::max(1, pp[5]);
  uint64_t x = (uint64_t)pp[1] * 0xD1B54A32D192ED03ull + 7; auto nx = [&](int n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (int)((x >> 33) % (uint64_t)std::max(1, n)); };
  q->low = -1; for (int i = 0; i < q->n; i++) q->prio[i] = i; for (int i = q->n - 1; i > 0; i--) std::swap(q->prio[i], q->prio[nx(i + 1)]);
  if (q->policy == PP_PCT) { std::vector<int> t; for (int i = 0; i < std::min(pp[3], 32); i++) t.push_back(1 + nx(pp[4])); std::sort(t.begin(), t.end()); for (int v : t) q->pts[q->npts++] = v; }
  if (p.par.count("pexp") && p.par.at("pexp") != "-") for (auto& e : split(p.par.at("pexp"), ',')) { auto t = split(e, ':'); if (t.size() == 2 && q->nexp < SIM_MAXPSW) q->exp[q->nexp++] = SimPSwitch{atoi(t[0].c_str()), atoi(t[1].c_str())}; }
  for (auto& f : split(p.par.count("watch") ? p.par.at("watch") : "", ',')) if (!f.empty() && q->nwatch < SIM_MAXWATCH) { q->wino[q->nwatch] = -2; snprintf(q->watch[q->nwatch++], SIM_NAMELEN, "%s", f.c_str()); }
  std::vector<pid_t> pid(q->n); std::vector<int> sts(q->n, 0); ScriptResult r(q->n);
  for (int i = 0; i < q->n; i++) { prepare(pshm[i], s.lives[i]); memset(pshm[i]->opened, 0, sizeof pshm[i]->opened); pshm[i]->grp = q; pid[i] = start(pshm[i], s.lives[i]); }
  sim_group_first(q);
  bool failed = false;
  for (int left = q->n; left;) {
    int st = 0; pid_t d = waitpid(-1, &st, 0); if (d < 0) { if (errno == EINTR) continue; perror("waitpid"); _exit(2); }
    for (int i = 0; i < q->n; i++) if (pid[i] == d) {
      left--; sts[i] = st; sim_disk_reap(pshm[i]);
      if (failed) continue;
      if (pshm[i]->end == END_VIOLATION || pshm[i]->end == END_STEPCAP || WIFSIGNALED(st)) { failed = true; for (int j = 0; j < q->n; j++) if (!q->done[j] && j != i) kill(pid[j], SIGKILL); }
      else sim_group_exit(pshm[i]);
    }
  }
  for (int i = 0; i < q->n; i++) r[i] = collect(pshm[i], s.lives[i], sts[i]);
  // processes stopped because another one had failed count as neither finished nor crashed
  if (failed) for (auto& l : r) if (l.sig == SIGKILL) { l.sig = 0; l.end = END_KILLED; }
  disk_of(r[0]);
  auto g = std::make_shared<GroupLog>(); g->ev = q->ev; g->lost = q->lost; for (int i = 0; i < q->nwatch; i++) g->watch.push_back(q->watch[i]);
  g->samples.assign(q->sample, q->sample + q->nsample); for (int i = 0; i < q->nsnap; i++) { unsigned char* b = q->snapdata + (size_t)i * SIM_INODE_CAP; g->snaps.emplace_back(b, b + q->snapsize[i]); }
  g->sw.assign(q->sw, q->sw + q->nsw); g->sw_full = q->nsw >= SIM_MAXPSW; r[0].grp = g;
  for (auto& w : g->sw) { r[0].sched_hash = fnv(&w, sizeof w, r[0].sched_hash); } r[0].nswitch += g->sw.size() - 1; stats.nswitch += g->sw.size() - 1; stats.pswitch += g->sw.size() - 1; stats.pevents += g->ev;
  for (int i = 0; i < q->n; i++) pshm[i]->grp = nullptr;
  return r;
}
ScriptResult run_script(const Plan& p, const Script& s) {
  prepare_models(s); disk_reset(p); stats.scripts++;
  if (s.name.compare(0, 5, "group") == 0) return run_group(p, s);
  ScriptResult r; for (auto& l : s.lives) { r.push_back(run_life(l)); auto& x = r.back(); if (x.end == END_VIOLATION || x.end == END_DEADLOCK || x.end == END_STEPCAP || x.timeout) break; }
  return r;
}
uint64_t result_hash(const ScriptResult& rs) {
  uint64_t h = 7;
  for (auto& r : rs) {
    h = fnv(&r.end, sizeof r.end, h); h = fnv(&r.sig, sizeof r.sig, h); h = fnv(r.op_done, sizeof r.op_done, h); h = fnv(r.allocs_op, sizeof r.allocs_op, h); h = fnv(r.out.data(), r.out.size(), h);
    for (auto& o : r.obs) { h = fnv(&o.op, 4, h); h = fnv(&o.field, 4, h); h = fnv(&o.hash, 8, h); }
    for (auto& t : r.trace) { h = fnv(&t.op, 2, h); h = fnv(&t.kind, 1, h); h = fnv(&t.file, 1, h); }
    h = fnv(&r.steps, 8, h); h = fnv(&r.sched_hash, 8, h); h = fnv(&r.accesses, 8, h); h = fnv(&r.syscalls, 8, h); h = fnv(r.vclass.data(), r.vclass.size(), h); h = fnv(r.msg.data(), r.msg.size(), h);
    if (r.grp) { h = fnv(&r.grp->ev, 4, h); for (auto& w : r.grp->sw) h = fnv(&w, sizeof w, h); for (auto& w : r.grp->samples) h = fnv(&w, sizeof w, h); for (auto& b : r.grp->snaps) h = fnv(b.data(), b.size(), h); h = fnv(r.opb, sizeof r.opb, h); }
    for (auto& m : r.mem) h = fnv(m.data(), m.size(), h);
    for (auto& q : r.race) { h = fnv(&q.pc1, 8, h); h = fnv(&q.pc2, 8, h); }
    for (auto& d : r.disk) { h = fnv(d.first.data(), d.first.size(), h); h = fnv(d.second.data(), d.second.size(), h); }
  }
  return h;
}
std::string sym(uint64_t off) {
  char cmd[600]; snprintf(cmd, sizeof cmd, "addr2line -s -e '%s' %#llx 2>/dev/null", lib_path, (unsigned long long)(off ? off - 1 : 0));
  FILE* f = popen(cmd, "r"); if (!f) return "?"; char b[300] = ""; if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f);
  for (char* c = b; *c; c++) if (*c == '\n' || *c == ' ') { *c = 0; break; }
  return b[0] ? b : "?";
}
