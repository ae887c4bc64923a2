#include "model.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <memory>
typedef long double LD;
namespace {
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (double)(next() >> 11) / 9007199254740992.0; } double sym() { return 2 * u() - 1; } };
}
std::string WSpec::str() const { char b[160]; snprintf(b, sizeof b, "%d:%d:%d:%d:%d:%d:%d:%d", seed, nfp, mpol, ntor, ns, asym, mq, nq); return b; }
WSpec WSpec::parse(const std::string& s) { WSpec w; sscanf(s.c_str(), "%d:%d:%d:%d:%d:%d:%d:%d", &w.seed, &w.nfp, &w.mpol, &w.ntor, &w.ns, &w.asym, &w.mq, &w.nq); return w; }

const Wout& wout(const WSpec& s) {
  static std::map<WSpec, std::unique_ptr<Wout>> memo;
  auto& p = memo[s]; if (p) return *p;
  if (memo.size() > 4000) { memo.clear(); return wout(s); }
  p.reset(new Wout); Wout& o = *p; o.w = s;
  Rng r{(uint64_t)s.seed * 7919 + 13};
  for (int m = 0; m < s.mpol; m++) for (int n = m ? -s.ntor : 0; n <= s.ntor; n++) { o.xm.push_back(m); o.xn.push_back(n * s.nfp); }
  for (int m = 0; m <= s.mq; m++) for (int n = m ? -s.nq : 0; n <= s.nq; n++) { o.xmq.push_back(m); o.xnq.push_back(n * s.nfp); }
  o.mnmax = o.xm.size(); o.mnmax_nyq = o.xmq.size(); o.aspect = 3 + 7 * r.u();
  int ns = s.ns;
  double i0 = 0.2 + 0.6 * r.u(), i1 = r.sym() * 0.4, f0 = 0.5 + r.u();
  if (r.u() < 0.3) i0 = -i0;
  for (int j = 0; j < ns; j++) {
    double sh = (j - 0.5) / (ns - 1), sf = (double)j / (ns - 1);
    o.iotas.push_back(j ? i0 + i1 * sh : 0.0);
    o.phipf.push_back(f0 * (1 + 0.1 * sf)); o.phi.push_back(f0 * sf + 0.01 * sf * sf); o.chi.push_back(0.3 * f0 * sf * (1 + sf)); o.pres.push_back(1e4 * (1 - sf) + 3);
  }
  auto full = [&](std::vector<double>& a, double amp, double c00) {
    a.assign((size_t)o.mnmax * ns, 0.0);
    for (int k = 0; k < o.mnmax; k++) {
      int m = o.xm[k], n = o.xn[k] / s.nfp; double c = amp * r.sym() / (1 + m * m + n * n), d = r.sym() * 0.5;
      if (m == 0 && n == 0) { c = c00; d = 0.02 * r.sym(); }
      for (int j = 0; j < ns; j++) { double sf = (double)j / (ns - 1); a[(size_t)j * o.mnmax + k] = c * pow(sf, m / 2.0) * (1 + d * sf); }
    }
  };
  auto half = [&](std::vector<double>& a, int mn, const std::vector<int>& xm, const std::vector<int>& xn, double amp, double c00) {
    a.assign((size_t)mn * ns, 0.0);
    for (int k = 0; k < mn; k++) {
      int m = xm[k], n = xn[k] / s.nfp; double c = amp * r.sym() / (1 + m * m + n * n), d = r.sym() * 0.5;
      if (m == 0 && n == 0) { c = c00; d = 0.05 * r.sym(); }
      for (int j = 1; j < ns; j++) { double sh = (j - 0.5) / (ns - 1); a[(size_t)j * mn + k] = c * (m ? pow(sh, m / 2.0) : 1) * (1 + d * sh); }
    }
  };
  full(o.rmnc, 0.5, 3.0); full(o.zmns, 0.5, 0.0);
  half(o.lmns, o.mnmax, o.xm, o.xn, 0.1, 0.0);
  half(o.bmnc, o.mnmax_nyq, o.xmq, o.xnq, 0.3, 2.0);
  half(o.bu, o.mnmax_nyq, o.xmq, o.xnq, 0.05, 0.1 * r.sym());
  half(o.bv, o.mnmax_nyq, o.xmq, o.xnq, 0.05, 3.0 + r.u());
  if (s.asym) {
    full(o.rmns, 0.2, 0.0); full(o.zmnc, 0.2, 0.1); half(o.lmnc, o.mnmax, o.xm, o.xn, 0.05, 0.01);
    half(o.bmns, o.mnmax_nyq, o.xmq, o.xnq, 0.1, 0.0); half(o.bus, o.mnmax_nyq, o.xmq, o.xnq, 0.03, 0.0); half(o.bvs, o.mnmax_nyq, o.xmq, o.xnq, 0.03, 0.0);
  }
  if (s.seed > 1000) {       // unusual but legal data
    int b = s.seed - 1000; auto neg = [](std::vector<double>& v) { for (double& x : v) if (x != 0) x = -x; }; auto zero = [](std::vector<double>& v) { for (double& x : v) x = 0; };
    if (b & 1) { neg(o.bv); neg(o.bvs); }
    if (b & 2) { neg(o.phi); neg(o.phipf); neg(o.chi); }
    if (b & 4) { zero(o.pres); zero(o.chi); }
    if (b & 8) o.aspect = 0;
    if (b & 16) zero(o.iotas);
    if (b & 32) { zero(o.bu); zero(o.bus); }
  }
  return o;
}
static void shuffle_vars(NcFile& f, unsigned style) {
  Rng r{style * 31ull + 5};
  if (style & 1) for (size_t i = f.vars.size(); i > 1; i--) std::swap(f.vars[i - 1], f.vars[r.next() % i]);
}
NcFile wout_file(const WSpec& s, int version, unsigned style) {
  const Wout& o = wout(s); NcFile f; f.version = version;
  f.dims = {{"radius", (uint64_t)s.ns}, {"mn_mode", (uint64_t)o.mnmax}, {"mn_mode_nyq", (uint64_t)o.mnmax_nyq}, {"dim_00010", 10}};
  int it = NCT_INT, xt = (style & 2) ? NCT_INT : NCT_DOUBLE;
  auto sc = [&](const char* n, double v, int t) { NcVar x; x.name = n; x.type = t; x.v = {v}; f.vars.push_back(x); };
  auto ar = [&](const char* n, std::vector<int> d, const std::vector<double>& v, int t = NCT_DOUBLE) { NcVar x; x.name = n; x.type = t; x.dims = d; x.v = v; if (style & 4) x.atts = {{"units", "meter"}}; f.vars.push_back(x); };
  auto ints = [](const std::vector<int>& a) { return std::vector<double>(a.begin(), a.end()); };
  { NcVar x; x.name = "input_extension"; x.type = NCT_CHAR; x.dims = {3}; x.s = "synthetic"; f.vars.push_back(x); }
  sc("nfp", s.nfp, it); sc("ns", s.ns, it); sc("mpol", s.mpol, it); sc("ntor", s.ntor, it); sc("mnmax", o.mnmax, it); sc("mnmax_nyq", o.mnmax_nyq, it);
  sc("lasym__logical__", s.asym, it); sc("aspect", o.aspect, NCT_DOUBLE); sc("ier_flag", 0, it);
  ar("xm", {1}, ints(o.xm), xt); ar("xn", {1}, ints(o.xn), xt); ar("xm_nyq", {2}, ints(o.xmq), xt); ar("xn_nyq", {2}, ints(o.xnq), xt);
  ar("iotas", {0}, o.iotas); ar("phipf", {0}, o.phipf); ar("chi", {0}, o.chi); ar("pres", {0}, o.pres); ar("phi", {0}, o.phi);
  ar("rmnc", {0, 1}, o.rmnc); ar("zmns", {0, 1}, o.zmns); ar("lmns", {0, 1}, o.lmns);
  ar("bmnc", {0, 2}, o.bmnc); ar("bsubumnc", {0, 2}, o.bu); ar("bsubvmnc", {0, 2}, o.bv);
  if (s.asym) {
    ar("rmns", {0, 1}, o.rmns); ar("zmnc", {0, 1}, o.zmnc); ar("lmnc", {0, 1}, o.lmnc);
    ar("bmns", {0, 2}, o.bmns); ar("bsubumns", {0, 2}, o.bus); ar("bsubvmns", {0, 2}, o.bvs);
  }
  if (style & 8) { NcVar x; x.name = "gmnc"; x.dims = {0, 2}; x.v = o.bmnc; f.vars.push_back(x); }
  if (style & 4) f.atts = {{"title", "synthetic equilibrium"}};
  shuffle_vars(f, style);
  return f;
}

static Arr sca(double v, bool i = true) { Arr a; a.rows = a.cols = 1; a.v = {v}; a.is_int = i; return a; }
static Arr vecd(const std::vector<double>& v) { Arr a; a.rows = v.size(); a.cols = 1; a.v = v; return a; }
static Arr veci(const std::vector<int>& v) { Arr a; a.rows = v.size(); a.cols = 1; a.v.assign(v.begin(), v.end()); a.is_int = true; return a; }
static Arr matd(int r, int c) { Arr a; a.rows = r; a.cols = c; a.v.assign((size_t)r * c, 0.0); return a; }

const Fields& model_inputs(const WSpec& s, bool flux) {
  static std::map<std::string, Fields> memo; std::string key = s.str() + (flux ? "f" : "-");
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  if (memo.size() > 4000) memo.clear();
  Fields& f = memo[key]; const Wout& o = wout(s); int n = s.ns - 1;
  f["asym"] = sca(s.asym); f["nfp"] = sca(s.nfp); f["mpol"] = sca(s.mpol); f["ntor"] = sca(s.ntor); f["mnmax"] = sca(o.mnmax);
  f["mpol_nyq"] = sca(s.mq); f["ntor_nyq"] = sca(s.nq); f["mnmax_nyq"] = sca(o.mnmax_nyq);
  f["xm"] = veci(o.xm); f["xn"] = veci(o.xn); f["xm_nyq"] = veci(o.xmq); f["xn_nyq"] = veci(o.xnq);
  f["ns_in"] = sca(n); f["aspect"] = sca(o.aspect, false);
  std::vector<double> sh, io; for (int j = 0; j < n; j++) { sh.push_back((j + 0.5) / n); io.push_back(o.iotas[j + 1]); }
  f["s_in"] = vecd(sh); f["iota"] = vecd(io);
  auto shift = [&](const char* nm, const std::vector<double>& a, int mn) { Arr m = matd(mn, n); for (int j = 0; j < n; j++) for (int k = 0; k < mn; k++) m.v[(size_t)j * mn + k] = a[(size_t)(j + 1) * mn + k]; f[nm] = m; };
  auto interp = [&](const char* nm, const std::vector<double>& a) {
    int mn = o.mnmax; Arr m = matd(mn, n);
    for (int j = 0; j < n; j++) for (int k = 0; k < mn; k++) {
      LD a0 = a[(size_t)j * mn + k], a1 = a[(size_t)(j + 1) * mn + k], r;
      LD s0 = (LD)j / n, s1 = (LD)(j + 1) / n, hs = (j + 0.5L) / n;
      if (o.xm[k] % 2 == 0) r = (a0 + a1) / 2;
      else {
        LD b0 = j ? a0 / sqrtl(s0) : 0, b1 = a1 / sqrtl(s1);
        if (j == 0 && o.xm[k] == 1) { if (s.ns > 2) { LD b2 = (LD)a[(size_t)2 * mn + k] / sqrtl(2.0L / n); b0 = 2 * b1 - b2; } else b0 = b1; }
        r = (b0 + b1) / 2 * sqrtl(hs);
      }
      m.v[(size_t)j * mn + k] = (double)r;
    }
    f[nm] = m;
  };
  interp("rmnc", o.rmnc); interp("zmns", o.zmns); shift("lmns", o.lmns, o.mnmax);
  shift("bmnc", o.bmnc, o.mnmax_nyq); shift("bsubumnc", o.bu, o.mnmax_nyq); shift("bsubvmnc", o.bv, o.mnmax_nyq);
  if (s.asym) { interp("rmns", o.rmns); interp("zmnc", o.zmnc); shift("lmnc", o.lmnc, o.mnmax); shift("bmns", o.bmns, o.mnmax_nyq); shift("bsubumns", o.bus, o.mnmax_nyq); shift("bsubvmns", o.bvs, o.mnmax_nyq); }
  if (flux) {
    std::vector<double> pp; for (double x : o.phipf) pp.push_back(-x / (2 * M_PI));
    f["phip"] = vecd(pp); f["chi"] = vecd(o.chi); f["pres"] = vecd(o.pres); f["phi"] = vecd(o.phi); f["toroidal_flux"] = sca(o.phi.back(), false);
  } else { f["phip"] = vecd({}); f["chi"] = vecd({}); f["pres"] = vecd({}); f["phi"] = vecd({}); f["toroidal_flux"] = sca(0, false); }
  std::vector<int> all; for (int j = 0; j < n; j++) all.push_back(j);
  f["compute_surfs"] = veci(all); f["mboz"] = sca(6 * s.mpol); f["nboz"] = sca(std::max(2 * s.ntor - 1, 0));
  return f;
}
int model_mnboz(int mboz, int nboz) { return (2 * nboz + 1) * (mboz - 1) + nboz + 1; }
static void modes_b(int mboz, int nboz, int nfp, std::vector<int>& xm, std::vector<int>& xn) {
  for (int m = 0; m < mboz; m++) for (int n = m ? -nboz : 0; n <= nboz; n++) { xm.push_back(m); xn.push_back(n * nfp); }
}
const Surf& model_surface(const WSpec& w, int mboz, int nboz, int js) {
  static std::map<std::string, Surf> memo; char kb[200]; snprintf(kb, sizeof kb, "%s|%d|%d|%d", w.str().c_str(), mboz, nboz, js);
  auto it = memo.find(kb); if (it != memo.end()) return it->second;
  if (memo.size() > 20000) memo.clear();
  Surf& S = memo[kb];
  const Fields& f = model_inputs(w, false); const Wout& o = wout(w);
  int nfp = w.nfp, nt = 2 * (2 * mboz + 1), nz = nboz ? 2 * (2 * nboz + 1) : 1, N = nt * nz;
  std::vector<int> xmb, xnb; modes_b(mboz, nboz, nfp, xmb, xnb); int mnb = xmb.size();
  const LD PI = acosl(-1.0L);
  auto col = [&](const char* n, int mn) -> const double* { auto i = f.find(n); return i == f.end() ? nullptr : &i->second.v[(size_t)js * mn]; };
  int mn = o.mnmax, mq = o.mnmax_nyq;
  const double *rc = col("rmnc", mn), *zs = col("zmns", mn), *ls = col("lmns", mn), *rs = col("rmns", mn), *zc = col("zmnc", mn), *lc = col("lmnc", mn);
  const double *bc = col("bmnc", mq), *bs = col("bmns", mq), *uc = col("bsubumnc", mq), *us = col("bsubumns", mq), *vc = col("bsubvmnc", mq), *vs = col("bsubvmns", mq);
  LD iota = o.iotas[js + 1], G = vc[0], I = uc[0]; S.G = vc[0]; S.I = uc[0];
  std::vector<LD> R(N), Z(N), B(N), NU(N), TB(N), ZB(N), J(N), Jac(N);
  // tables of exact angles on the grid
  std::vector<LD> ct(nt), st(nt), cz(nz), sz(nz);
  for (int i = 0; i < nt; i++) { ct[i] = cosl(2 * PI * i / nt); st[i] = sinl(2 * PI * i / nt); }
  for (int i = 0; i < nz; i++) { cz[i] = cosl(2 * PI * i / nz); sz[i] = sinl(2 * PI * i / nz); }
  for (int a = 0; a < nt; a++) for (int b = 0; b < nz; b++) {
    int p = a * nz + b; LD r = 0, z = 0, la = 0, lt = 0, lz = 0;
    auto cs = [&](int m, int n, LD& C, LD& Sn) {   // angle m theta - n zeta, n in units of nfp
      long im = ((long)m * a) % nt; if (im < 0) im += nt; long in = ((long)n * b) % nz; if (in < 0) in += nz;
      C = ct[im] * cz[in] + st[im] * sz[in]; Sn = st[im] * cz[in] - ct[im] * sz[in];
    };
    for (int k = 0; k < mn; k++) {
      int m = o.xm[k], n = o.xn[k]; LD C, Q; cs(m, n / nfp, C, Q);
      r += C * rc[k]; z += Q * zs[k]; la += Q * ls[k]; lt += C * ls[k] * m; lz -= C * ls[k] * n;
      if (w.asym) { r += Q * rs[k]; z += C * zc[k]; la += C * lc[k]; lt -= Q * lc[k] * m; lz += Q * lc[k] * n; }
    }
    LD W = 0, wt = 0, wz = 0, bm = 0;
    for (int k = 0; k < mq; k++) {
      int m = o.xmq[k], n = o.xnq[k]; LD C, Q; cs(m, n / nfp, C, Q);
      bm += C * bc[k]; if (w.asym) bm += Q * bs[k];
      LD ws = m ? (LD)uc[k] / m : n ? -(LD)vc[k] / n : 0, wc = 0;
      if (w.asym) wc = m ? -(LD)us[k] / m : n ? (LD)vs[k] / n : 0;
      W += Q * ws + C * wc; wt += C * ws * m - Q * wc * m; wz += -C * ws * n + Q * wc * n;
    }
    LD D = G + iota * I, nu = (W - I * la) / D, nut = (wt - I * lt) / D, nuz = (wz - I * lz) / D;
    R[p] = r; Z[p] = z; B[p] = bm; NU[p] = nu; TB[p] = 2 * PI * a / nt + la + iota * nu; ZB[p] = 2 * PI * b / (nz * (LD)nfp) + nu;
    J[p] = (1 + lt) * (1 + nuz) + (iota - lz) * nut; Jac[p] = D / (bm * bm);
  }
  static const char* names[] = {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b", "bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"};
  std::vector<std::vector<LD>> acc(10, std::vector<LD>(mnb, 0.0L));
  std::vector<LD> cm(mboz + 1), sm(mboz + 1), cn(nboz + 1), sn(nboz + 1);
  auto trig = [&](LD t, LD z) {
    cm[0] = cn[0] = 1; sm[0] = sn[0] = 0; LD c1 = cosl(t), s1 = sinl(t), d1 = cosl(nfp * z), e1 = sinl(nfp * z);
    for (int m = 1; m <= mboz; m++) { cm[m] = cm[m - 1] * c1 - sm[m - 1] * s1; sm[m] = sm[m - 1] * c1 + cm[m - 1] * s1; }
    for (int n = 1; n <= nboz; n++) { cn[n] = cn[n - 1] * d1 - sn[n - 1] * e1; sn[n] = sn[n - 1] * d1 + cn[n - 1] * e1; }
  };
  for (int p = 0; p < N; p++) {
    trig(TB[p], ZB[p]);
    for (int k = 0; k < mnb; k++) {
      int m = xmb[k], n = xnb[k] / nfp, an = n < 0 ? -n : n, sg = n < 0 ? -1 : 1;
      LD C = (cm[m] * cn[an] + sm[m] * sn[an] * sg) * J[p], Q = (sm[m] * cn[an] - cm[m] * sn[an] * sg) * J[p];
      acc[0][k] += C * B[p]; acc[1][k] += C * R[p]; acc[2][k] += Q * Z[p]; acc[3][k] += Q * NU[p]; acc[4][k] += C * Jac[p];
      if (w.asym) { acc[5][k] += Q * B[p]; acc[6][k] += Q * R[p]; acc[7][k] += C * Z[p]; acc[8][k] += C * NU[p]; acc[9][k] += Q * Jac[p]; }
    }
  }
  for (int q = 0; q < (w.asym ? 10 : 5); q++) {
    std::vector<double> v(mnb);
    for (int k = 0; k < mnb; k++) v[k] = (double)(acc[q][k] * (k ? 2.0L : 1.0L) / N);
    S.col[names[q]] = v;
  }
  int pts[4] = {0, (nt / 2) * nz, nz / 2, (nt / 2) * nz + nz / 2};
  for (int i = 0; i < 4; i++) {
    int p = pts[i]; trig(TB[p], ZB[p]); LD b = 0;
    for (int k = 0; k < mnb; k++) {
      int m = xmb[k], n = xnb[k] / nfp, an = n < 0 ? -n : n, sg = n < 0 ? -1 : 1;
      b += (cm[m] * cn[an] + sm[m] * sn[an] * sg) * S.col["bmnc_b"][k];
      if (w.asym) b += (sm[m] * cn[an] - cm[m] * sn[an] * sg) * S.col["bmns_b"][k];
    }
    S.binp[i] = (double)B[p]; S.bboz[i] = (double)b; S.berr[i] = (double)(fabsl(b - B[p]) / std::max(b, B[p]));
  }
  return S;
}
Fields model_outputs(const WSpec& w, int mboz, int nboz, const std::vector<int>& surfs) {
  Fields f; std::vector<int> xm, xn; modes_b(mboz, nboz, w.nfp, xm, xn); int mnb = xm.size(), nb = surfs.size(), n = w.ns - 1;
  f["mboz"] = sca(mboz); f["nboz"] = sca(nboz); f["mnboz"] = sca(mnb); f["ns_b"] = sca(nb); f["xm_b"] = veci(xm); f["xn_b"] = veci(xn); f["compute_surfs"] = veci(surfs);
  static const char* names[] = {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b", "bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"};
  std::vector<double> sb, G, I, Ga, Ia; const Fields& in = model_inputs(w, false); int mq = wout(w).mnmax_nyq;
  for (int s : surfs) { sb.push_back((s + 0.5) / n); G.push_back(in.at("bsubvmnc").v[(size_t)s * mq]); I.push_back(in.at("bsubumnc").v[(size_t)s * mq]); }
  for (int s = 0; s < n; s++) { Ga.push_back(in.at("bsubvmnc").v[(size_t)s * mq]); Ia.push_back(in.at("bsubumnc").v[(size_t)s * mq]); }
  f["s_b"] = vecd(sb); f["Boozer_G"] = vecd(G); f["Boozer_I"] = vecd(I); f["Boozer_G_all"] = vecd(Ga); f["Boozer_I_all"] = vecd(Ia);
  for (int q = 0; q < 10; q++) {
    if (q >= 5 && !w.asym) { f[names[q]] = matd(0, 0); continue; }
    Arr m = matd(mnb, nb);
    for (int b = 0; b < nb; b++) { const Surf& s = model_surface(w, mboz, nboz, surfs[b]); auto& c = s.col.at(names[q]); std::copy(c.begin(), c.end(), m.v.begin() + (size_t)b * mnb); }
    f[names[q]] = m;
  }
  return f;
}
NcFile booz_file(const WSpec& w, bool flux, int mboz, int nboz, const std::vector<int>& surfs, int version, unsigned style) {
  Fields o = model_outputs(w, mboz, nboz, surfs); const Fields& in = model_inputs(w, flux); NcFile f; f.version = version;
  int ns = w.ns, mnb = model_mnboz(mboz, nboz), nb = surfs.size();
  f.dims = {{"radius", (uint64_t)ns}, {"mn_mode", (uint64_t)mnb}, {"mn_modes", (uint64_t)mnb}, {"comput_surfs", (uint64_t)nb}, {"pack_rad", (uint64_t)nb}, {"dim_00038", 38}};
  auto sc = [&](const char* n, double v, int t) { NcVar x; x.name = n; x.type = t; x.v = {v}; f.vars.push_back(x); };
  auto ar = [&](const char* n, std::vector<int> d, const std::vector<double>& v, int t = NCT_DOUBLE) { NcVar x; x.name = n; x.type = t; x.dims = d; x.v = v; if (style & 4) x.atts = {{"units", "Tesla"}}; f.vars.push_back(x); };
  { NcVar x; x.name = "version"; x.type = NCT_CHAR; x.dims = {5}; x.s = "model"; f.vars.push_back(x); }
  sc("lasym__logical__", w.asym, NCT_INT); sc("ns_b", ns, NCT_INT); sc("nfp_b", w.nfp, NCT_INT); sc("mboz_b", mboz, NCT_INT); sc("nboz_b", nboz, NCT_INT); sc("mnboz_b", mnb, NCT_INT);
  sc("aspect_b", in.at("aspect").v[0], NCT_DOUBLE); sc("rmax_b", 0, NCT_DOUBLE); sc("rmin_b", 0, NCT_DOUBLE); sc("betaxis_b", 0, NCT_DOUBLE);
  std::vector<double> jl; for (int s : surfs) jl.push_back(s + 2);
  ar("jlist", {3}, jl, NCT_INT); ar("ixm_b", {2}, o["xm_b"].v, NCT_INT); ar("ixn_b", {2}, o["xn_b"].v, NCT_INT);
  auto pre0 = [](std::vector<double> v) { v.insert(v.begin(), 0.0); return v; };
  ar("iota_b", {0}, pre0(in.at("iota").v)); ar("buco_b", {0}, pre0(o["Boozer_I_all"].v)); ar("bvco_b", {0}, pre0(o["Boozer_G_all"].v));
  std::vector<double> zero(ns, 0.0); ar("beta_b", {0}, zero);
  std::vector<double> pp = flux ? in.at("phip").v : zero; if (flux) pp[0] = 0;
  ar("phip_b", {0}, pp); ar("chi_b", {0}, flux ? in.at("chi").v : zero); ar("pres_b", {0}, flux ? in.at("pres").v : zero); ar("phi_b", {0}, flux ? in.at("phi").v : zero);
  auto neg = [](std::vector<double> v) { for (double& x : v) x = -x; return v; };
  ar("bmnc_b", {4, 2}, o["bmnc_b"].v); ar("rmnc_b", {4, 2}, o["rmnc_b"].v); ar("zmns_b", {4, 2}, o["zmns_b"].v); ar("pmns_b", {4, 2}, neg(o["numns_b"].v)); ar("gmn_b", {4, 2}, o["gmnc_b"].v);
  if (w.asym) { ar("bmns_b", {4, 2}, o["bmns_b"].v); ar("rmns_b", {4, 2}, o["rmns_b"].v); ar("zmnc_b", {4, 2}, o["zmnc_b"].v); ar("pmnc_b", {4, 2}, neg(o["numnc_b"].v)); ar("gmns_b", {4, 2}, o["gmns_b"].v); }
  shuffle_vars(f, style);
  return f;
}
Fields booz_fields(const NcFile& f) {
  Fields o;
  auto sc = [&](const char* fld, const char* var) { const NcVar* v = f.var(var); if (v && !v->v.empty()) o[fld] = sca(v->v[0], v->type != NCT_DOUBLE); };
  auto vv = [&](const char* fld, const char* var, int drop, double sub, int sign) { const NcVar* v = f.var(var); if (!v) return; std::vector<double> x(v->v.begin() + std::min<size_t>(drop, v->v.size()), v->v.end()); for (double& d : x) d = sign * (d - sub); Arr a = vecd(x); a.is_int = v->type == NCT_INT; o[fld] = a; };
  sc("asym", "lasym__logical__"); sc("nfp", "nfp_b"); sc("mboz", "mboz_b"); sc("nboz", "nboz_b"); sc("mnboz", "mnboz_b"); sc("aspect", "aspect_b");
  vv("xm_b", "ixm_b", 0, 0, 1); vv("xn_b", "ixn_b", 0, 0, 1); vv("compute_surfs", "jlist", 0, 2, 1);
  vv("iota", "iota_b", 1, 0, 1); vv("Boozer_G_all", "bvco_b", 1, 0, 1); vv("Boozer_I_all", "buco_b", 1, 0, 1);
  vv("phi", "phi_b", 0, 0, 1); vv("phip", "phip_b", 0, 0, 1); vv("pres", "pres_b", 0, 0, 1); vv("chi", "chi_b", 0, 0, 1);
  int mnb = (int)o["mnboz"].v[0], nb = o["compute_surfs"].rows, ns = (int)f.dims[f.dim("radius")].len;
  o["ns_b"] = sca(nb); o["ns_in"] = sca(ns - 1); if (o.count("phi") && !o["phi"].v.empty()) o["toroidal_flux"] = sca(o["phi"].v.back(), false);
  std::vector<double> sb; for (double s : o["compute_surfs"].v) sb.push_back((s + 0.5) / (f.var("ns_b")->v[0] - 1)); o["s_b"] = vecd(sb);
  struct { const char *fl, *va; int sg; } t[] = {{"bmnc_b", "bmnc_b", 1}, {"rmnc_b", "rmnc_b", 1}, {"zmns_b", "zmns_b", 1}, {"numns_b", "pmns_b", -1}, {"gmnc_b", "gmn_b", 1},
                                                {"bmns_b", "bmns_b", 1}, {"rmns_b", "rmns_b", 1}, {"zmnc_b", "zmnc_b", 1}, {"numnc_b", "pmnc_b", -1}, {"gmns_b", "gmns_b", 1}};
  bool asym = o["asym"].v[0] != 0;
  for (int i = 0; i < 10; i++) {
    if (i >= 5 && !asym) { o[t[i].fl] = matd(0, 0); continue; }
    const NcVar* v = f.var(t[i].va); if (!v) continue;
    Arr a; a.rows = mnb; a.cols = nb; a.v = v->v; for (double& d : a.v) d *= t[i].sg; o[t[i].fl] = a;
  }
  return o;
}
std::string cmp_fields(const Fields& want, const Fields& got, double tol) {
  char b[300];
  for (auto& kv : want) {
    auto it = got.find(kv.first); if (it == got.end()) continue;
    const Arr &w = kv.second, &g = it->second;
    bool we = w.v.empty(), ge = g.v.empty();
    if (we && ge) continue;
    if (w.rows != g.rows || w.cols != g.cols) { snprintf(b, sizeof b, "%s has shape %dx%d instead of %dx%d", kv.first.c_str(), g.rows, g.cols, w.rows, w.cols); return b; }
    // columns are compared at their own scale
    for (int c = 0; c < w.cols; c++) {
      double sc = 0; for (int r = 0; r < w.rows; r++) sc = std::max(sc, std::fabs(w.v[(size_t)c * w.rows + r]));
      for (int r = 0; r < w.rows; r++) {
        double x = w.v[(size_t)c * w.rows + r], y = g.v[(size_t)c * w.rows + r];
        bool ok = tol == 0 || w.is_int ? x == y : std::fabs(x - y) <= tol * (sc + (w.cols > 1 || w.rows > 1 ? 1e-3 : 0)) ;
        if (!ok) { snprintf(b, sizeof b, "%s[%d,%d] is %.17g instead of %.17g", kv.first.c_str(), r, c, y, x); return b; }
      }
    }
  }
  return "";
}
static bool same_bits(double a, double b) { return a == b || (a != a && b != b); }
std::string cmp_file_obj(const NcFile& f, const Fields& o) {
  char b[300];
  auto need = [&](const std::string& n) -> const NcVar* { return f.var(n); };
  auto F = [&](const char* n) -> const Arr& { return o.at(n); };
  int ns = (int)F("ns_in").v[0] + 1, mnb = (int)F("mnboz").v[0], nb = (int)F("compute_surfs").rows; bool asym = F("asym").v[0] != 0;
  struct D { const char* n; uint64_t l; } ds[] = {{"radius", (uint64_t)ns}, {"mn_mode", (uint64_t)mnb}, {"mn_modes", (uint64_t)mnb}, {"comput_surfs", (uint64_t)nb}, {"pack_rad", (uint64_t)nb}};
  for (auto& d : ds) { int i = f.dim(d.n); if (i < 0) return std::string("dimension ") + d.n + " is missing"; if (f.dims[i].len != d.l) { snprintf(b, sizeof b, "dimension %s is %llu instead of %llu", d.n, (unsigned long long)f.dims[i].len, (unsigned long long)d.l); return b; } }
  std::string e;
  auto chk = [&](const char* var, const std::vector<double>& want, std::vector<const char*> dims) {
    if (!e.empty()) return;
    const NcVar* v = need(var); if (!v) { e = std::string("variable ") + var + " is missing"; return; }
    bool dok = v->dims.size() == dims.size(); for (size_t i = 0; dok && i < dims.size(); i++) dok = f.dims[v->dims[i]].len == f.dims[f.dim(dims[i])].len;
    if (!dok || v->v.size() != want.size()) { e = std::string("variable ") + var + " has the wrong dimensions"; return; }
    for (size_t i = 0; i < want.size(); i++) if (!same_bits(v->v[i], want[i])) { snprintf(b, sizeof b, "%s[%zu] is %.17g instead of %.17g", var, i, v->v[i], want[i]); e = b; return; }
  };
  auto pre0 = [](std::vector<double> v) { v.insert(v.begin(), 0.0); return v; };
  auto neg = [](std::vector<double> v) { for (double& x : v) x = -x; return v; };
  chk("lasym__logical__", {asym ? 1.0 : 0.0}, {}); chk("ns_b", {(double)ns}, {}); chk("nfp_b", F("nfp").v, {}); chk("mboz_b", F("mboz").v, {}); chk("nboz_b", F("nboz").v, {}); chk("mnboz_b", {(double)mnb}, {});
  chk("aspect_b", F("aspect").v, {});
  std::vector<double> jl = F("compute_surfs").v; for (double& x : jl) x += 2;
  chk("jlist", jl, {"comput_surfs"}); chk("ixm_b", F("xm_b").v, {"mn_modes"}); chk("ixn_b", F("xn_b").v, {"mn_modes"});
  chk("iota_b", pre0(F("iota").v), {"radius"}); chk("buco_b", pre0(F("Boozer_I_all").v), {"radius"}); chk("bvco_b", pre0(F("Boozer_G_all").v), {"radius"});
  std::vector<double> zero(ns, 0.0); bool flux = F("phip").rows > 0;
  std::vector<double> pp = flux ? F("phip").v : zero; if (flux) pp[0] = 0;
  chk("phip_b", pp, {"radius"}); chk("chi_b", flux ? F("chi").v : zero, {"radius"}); chk("pres_b", flux ? F("pres").v : zero, {"radius"}); chk("phi_b", flux ? F("phi").v : zero, {"radius"});
  chk("bmnc_b", F("bmnc_b").v, {"pack_rad", "mn_modes"}); chk("rmnc_b", F("rmnc_b").v, {"pack_rad", "mn_modes"}); chk("zmns_b", F("zmns_b").v, {"pack_rad", "mn_modes"});
  chk("pmns_b", neg(F("numns_b").v), {"pack_rad", "mn_modes"}); chk("gmn_b", F("gmnc_b").v, {"pack_rad", "mn_modes"});
  if (asym) { chk("bmns_b", F("bmns_b").v, {"pack_rad", "mn_modes"}); chk("rmns_b", F("rmns_b").v, {"pack_rad", "mn_modes"}); chk("zmnc_b", F("zmnc_b").v, {"pack_rad", "mn_modes"});
    chk("pmnc_b", neg(F("numnc_b").v), {"pack_rad", "mn_modes"}); chk("gmns_b", F("gmns_b").v, {"pack_rad", "mn_modes"}); }
  return e;
}
std::string cmp_data(const NcFile& a, const NcFile& b) {
  for (int pass = 0; pass < 2; pass++) { const NcFile &x = pass ? b : a, &y = pass ? a : b; for (auto& v : x.vars) if (!y.var(v.name)) return "variable " + v.name + " is in only one of the files"; }
  char m[200];
  for (auto& v : a.vars) {
    if (v.name == "version") continue;
    const NcVar* w = b.var(v.name);
    if (v.type != w->type) return "type of " + v.name + " differs";
    if (v.dims.size() != w->dims.size()) return "rank of " + v.name + " differs";
    for (size_t i = 0; i < v.dims.size(); i++) if (a.dims[v.dims[i]].len != b.dims[w->dims[i]].len) return "shape of " + v.name + " differs";
    if (v.s != w->s) return "text of " + v.name + " differs";
    for (size_t i = 0; i < v.v.size(); i++) if (!same_bits(v.v[i], w->v[i])) { snprintf(m, sizeof m, "%s[%zu]: %.17g and %.17g", v.name.c_str(), i, v.v[i], w->v[i]); return m; }
  }
  return "";
}
