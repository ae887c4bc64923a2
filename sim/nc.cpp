#include "nc.h"
#include <cstring>

static int tsize(int t) { switch (t) { case NCT_BYTE: case NCT_CHAR: case NCT_UBYTE: return 1; case NCT_SHORT: case NCT_USHORT: return 2; case NCT_INT: case NCT_FLOAT: case NCT_UINT: return 4; default: return 8; } }

struct W {
  std::vector<unsigned char> b; int ver;
  void u(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((unsigned char)(v >> (8 * i))); }
  void nn(uint64_t v) { u(v, ver == 5 ? 8 : 4); }
  void off(uint64_t v) { u(v, ver == 1 ? 4 : 8); }
  void pad() { while (b.size() & 3) b.push_back(0); }
  void name(const std::string& s) { nn(s.size()); b.insert(b.end(), s.begin(), s.end()); pad(); }
  void atts(const std::vector<NcAtt>& a) {
    if (a.empty()) { u(0, 4); nn(0); return; }
    u(12, 4); nn(a.size());
    for (auto& x : a) { name(x.name); u(NCT_CHAR, 4); nn(x.text.size()); b.insert(b.end(), x.text.begin(), x.text.end()); pad(); }
  }
};
static void header(W& w, const NcFile& f) {
  w.b = {'C', 'D', 'F', (unsigned char)f.version};
  w.nn(0);
  if (f.dims.empty()) { w.u(0, 4); w.nn(0); } else { w.u(10, 4); w.nn(f.dims.size()); for (auto& d : f.dims) { w.name(d.name); w.nn(d.len); } }
  w.atts(f.atts);
  if (f.vars.empty()) { w.u(0, 4); w.nn(0); return; }
  w.u(11, 4); w.nn(f.vars.size());
  for (auto& v : f.vars) {
    w.name(v.name); w.nn(v.dims.size()); for (int d : v.dims) w.nn(d);
    w.atts(v.atts); w.u(v.type, 4); w.nn(v.vsize); w.off(v.begin);
  }
}
static void val(W& w, int t, double d) {
  switch (t) {
    case NCT_FLOAT: { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); w.u(x, 4); break; }
    case NCT_DOUBLE: { uint64_t x; memcpy(&x, &d, 8); w.u(x, 8); break; }
    default: { int64_t i = (int64_t)d; w.u((uint64_t)i, tsize(t)); }
  }
}
std::vector<unsigned char> nc_encode(NcFile& f) {
  W w; w.ver = f.version;
  for (auto& v : f.vars) { uint64_t n = f.count(v) * tsize(v.type); v.vsize = (n + 3) & ~3ull; v.begin = 0; }
  header(w, f);
  uint64_t o = w.b.size(); f.header_size = o;
  for (auto& v : f.vars) { v.begin = o; o += v.vsize; }
  header(w, f);
  for (auto& v : f.vars) {
    if (v.type == NCT_CHAR) { std::string s = v.s; s.resize(f.count(v), 0); w.b.insert(w.b.end(), s.begin(), s.end()); }
    else { uint64_t n = f.count(v); for (uint64_t i = 0; i < n; i++) val(w, v.type, i < v.v.size() ? v.v[i] : 0); }
    while (w.b.size() < v.begin + v.vsize) w.b.push_back(0);
  }
  return w.b;
}

struct R {
  const unsigned char* p; size_t n, o = 0; bool bad = false; int ver = 1;
  uint64_t u(int k) { if (bad || o + k > n) { bad = true; return 0; } uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 8 | p[o++]; return v; }
  uint64_t nn() { return u(ver == 5 ? 8 : 4); }
  uint64_t off() { return u(ver == 1 ? 4 : 8); }
  std::string str() { uint64_t l = nn(); return raw(l); }
  std::string raw(uint64_t l) { if (bad || l > n || o + ((l + 3) & ~3ull) > n) { bad = true; return ""; } std::string s((const char*)p + o, l); o += (l + 3) & ~3ull; return s; }
  void atts(std::vector<NcAtt>& a) {
    uint64_t tag = u(4), c = nn(); if (bad) return;
    if (!tag) { if (c) bad = true; return; }
    if (tag != 12 || c > 100000) { bad = true; return; }
    for (uint64_t i = 0; i < c && !bad; i++) { NcAtt x; x.name = str(); int t = (int)u(4); uint64_t l = nn(); if (t < 1 || t > 11 || l > n) { bad = true; return; } x.text = raw(l * tsize(t)); a.push_back(x); }
  }
};
std::string nc_decode(const unsigned char* p, size_t n, NcFile& f) {
  f = NcFile();
  if (n < 4 || p[0] != 'C' || p[1] != 'D' || p[2] != 'F' || (p[3] != 1 && p[3] != 2 && p[3] != 5)) return "no NetCDF classic magic number";
  R r{p, n}; r.o = 4; r.ver = f.version = p[3];
  uint64_t numrecs = r.nn(); (void)numrecs;
  uint64_t tag = r.u(4), c = r.nn();
  if (tag && tag != 10) return "bad dimension list";
  if (c > 10000) return "bad dimension count";
  for (uint64_t i = 0; i < c && !r.bad; i++) { NcDim d; d.name = r.str(); d.len = r.nn(); if (!d.len) { f.unlim = (int)i; d.len = 0; } f.dims.push_back(d); }
  r.atts(f.atts);
  tag = r.u(4); c = r.nn();
  if (r.bad) return "header cut off";
  if (tag && tag != 11) return "bad variable list";
  if (c > 10000) return "bad variable count";
  for (uint64_t i = 0; i < c && !r.bad; i++) {
    NcVar v; v.name = r.str(); uint64_t nd = r.nn(); if (nd > 8) return "bad rank";
    for (uint64_t k = 0; k < nd; k++) { uint64_t d = r.nn(); if (d >= f.dims.size()) return "bad dimension id"; v.dims.push_back((int)d); }
    r.atts(v.atts); v.type = (int)r.u(4); v.vsize = r.nn(); v.begin = r.off();
    if (v.type < 1 || v.type > 11) return "bad type";
    f.vars.push_back(v);
  }
  if (r.bad) return "header cut off";
  f.header_size = r.o;
  for (auto& v : f.vars) {
    uint64_t cnt = f.count(v), sz = cnt * tsize(v.type);
    if (v.begin < f.header_size || v.begin + sz > n) return "data of " + v.name + " lie beyond the end of the file";
    r.o = v.begin; r.bad = false;
    if (v.type == NCT_CHAR) { v.s.assign((const char*)p + v.begin, cnt); continue; }
    v.v.resize(cnt);
    for (uint64_t i = 0; i < cnt; i++) {
      uint64_t x = r.u(tsize(v.type));
      switch (v.type) {
        case NCT_DOUBLE: memcpy(&v.v[i], &x, 8); break;
        case NCT_FLOAT: { uint32_t y = (uint32_t)x; float g; memcpy(&g, &y, 4); v.v[i] = g; break; }
        case NCT_BYTE: v.v[i] = (int8_t)x; break;
        case NCT_SHORT: v.v[i] = (int16_t)x; break;
        case NCT_INT: v.v[i] = (int32_t)x; break;
        case NCT_INT64: v.v[i] = (double)(int64_t)x; break;
        default: v.v[i] = (double)x;
      }
    }
  }
  return "";
}
