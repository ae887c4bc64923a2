#include <cstring>
#include <cstdio>
#include <new>
#include <stdexcept>
#include <string>
#include "booz_xform.hpp"
#include "adapter.h"
using booz_xform::Booz_xform;
using booz_xform::Matrix; using booz_xform::Vector; using booz_xform::IntVector;

static Matrix mat(const double* p, int r, int c) { Matrix m; if (p) { m.resize(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = p[(size_t)j * r + i]; } return m; }
static Vector vec(const double* p, int n) { Vector v; if (p) { v.resize(n); for (int i = 0; i < n; i++) v[i] = p[i]; } return v; }
static IntVector ivec(const int* p, int n) { IntVector v; v.resize(n); for (int i = 0; i < n; i++) v[i] = p[i]; return v; }

// the common part of the old contents is kept, the rest is zero
static void resize(Matrix& m, int r, int c) { Matrix o = m; m.setZero(r, c); for (int j = 0; j < c && j < o.cols(); j++) for (int i = 0; i < r && i < o.rows(); i++) m(i, j) = o(i, j); }
static void resize(Vector& v, int n, int) { Vector o = v; v.setZero(n); for (int i = 0; i < n && i < o.size(); i++) v[i] = o[i]; }
static void resize(IntVector& v, int n, int) { IntVector o = v; v.setZero(n); for (int i = 0; i < n && i < o.size(); i++) v[i] = o[i]; }
static void resize(bool&, int, int) {} static void resize(int&, int, int) {} static void resize(double&, int, int) {}
static void vary(Matrix& m, int dr, int dc) { resize(m, m.rows() + dr < 0 ? 0 : (int)m.rows() + dr, m.cols() + dc < 0 ? 0 : (int)m.cols() + dc); }
static void vary(Vector& v, int dr, int) { resize(v, v.size() + dr < 0 ? 0 : (int)v.size() + dr, 1); }
static void vary(IntVector& v, int dr, int) { resize(v, v.size() + dr < 0 ? 0 : (int)v.size() + dr, 1); }
static void vary(int& v, int, int dc) { v = dc; }

static void initvmec(Booz_xform* b, const BxVmec* v) {
  b->asym = v->asym; b->nfp = v->nfp; b->mpol = v->mpol; b->ntor = v->ntor; b->mnmax = v->mnmax;
  b->mpol_nyq = v->mpol_nyq; b->ntor_nyq = v->ntor_nyq; b->mnmax_nyq = v->mnmax_nyq; b->aspect = v->aspect;
  b->xm = ivec(v->xm, v->mnmax); b->xn = ivec(v->xn, v->mnmax);
  b->xm_nyq = ivec(v->xm_nyq, v->mnmax_nyq); b->xn_nyq = ivec(v->xn_nyq, v->mnmax_nyq);
  int ns = v->ns, m = v->mnmax, q = v->mnmax_nyq;
  Vector iotas = vec(v->iotas, ns);
  Matrix rmnc = mat(v->rmnc, m, ns), rmns = mat(v->rmns, m, ns), zmnc = mat(v->zmnc, m, ns), zmns = mat(v->zmns, m, ns),
         lmnc = mat(v->lmnc, m, ns), lmns = mat(v->lmns, m, ns), bmnc = mat(v->bmnc, q, ns), bmns = mat(v->bmns, q, ns),
         bu = mat(v->bsubumnc, q, ns), bus = mat(v->bsubumns, q, ns), bv = mat(v->bsubvmnc, q, ns), bvs = mat(v->bsubvmns, q, ns);
  Vector phip, chi, pres, phi;
  if (v->flux) { phip = vec(v->phipf, ns); chi = vec(v->chi, ns); pres = vec(v->pres, ns); phi = vec(v->phi, ns); }
  if (v->bad) {
    const char* bad = v->bad; int dr = v->dr, dc = v->dc;
#define X(a) if (!strcmp(bad, #a)) vary(a, dr, dc);
    X(iotas) X(rmnc) X(rmns) X(zmnc) X(zmns) X(lmnc) X(lmns) X(bmnc) X(bmns) X(phip) X(chi) X(pres) X(phi) X(ns)
#undef X
    // consistently fewer modes or surfaces
    if (!strcmp(bad, "modes")) { b->mnmax = dc; for (IntVector* x : {&b->xm, &b->xn}) resize(*x, dc, 1); for (Matrix* x : {&rmnc, &rmns, &zmnc, &zmns, &lmnc, &lmns}) if (x->cols()) resize(*x, dc, (int)x->cols()); }
    if (!strcmp(bad, "modes_nyq")) { b->mnmax_nyq = dc; for (IntVector* x : {&b->xm_nyq, &b->xn_nyq}) resize(*x, dc, 1); for (Matrix* x : {&bmnc, &bmns, &bu, &bus, &bv, &bvs}) if (x->cols()) resize(*x, dc, (int)x->cols()); }
    if (!strcmp(bad, "surfaces")) { ns = dc; for (Vector* x : {&iotas, &phip, &chi, &pres, &phi}) if (x->size()) resize(*x, dc, 1); for (Matrix* x : {&rmnc, &rmns, &zmnc, &zmns, &lmnc, &lmns, &bmnc, &bmns, &bu, &bus, &bv, &bvs}) if (x->cols()) resize(*x, (int)x->rows(), dc); }
    if (!strcmp(bad, "bsubumnc")) vary(bu, dr, dc);
    if (!strcmp(bad, "bsubumns")) vary(bus, dr, dc);
    if (!strcmp(bad, "bsubvmnc")) vary(bv, dr, dc);
    if (!strcmp(bad, "bsubvmns")) vary(bvs, dr, dc);
#define X(a) if (!strcmp(bad, #a)) vary(b->a, dr, dc);
    X(xm) X(xn) X(xm_nyq) X(xn_nyq) X(nfp) X(mpol) X(ntor) X(mnmax) X(mpol_nyq) X(ntor_nyq) X(mnmax_nyq)
#undef X
  }
  if (v->flux) {
    b->init_from_vmec(ns, iotas, rmnc, rmns, zmnc, zmns, lmnc, lmns, bmnc, bmns, bu, bus, bv, bvs, phip, chi, pres, phi);
  } else {
    b->init_from_vmec(ns, iotas, rmnc, rmns, zmnc, zmns, lmnc, lmns, bmnc, bmns, bu, bus, bv, bvs);
  }
}
extern "C" void bx_call(BxCall* c) {
  Booz_xform* b = (Booz_xform*)c->obj;
  c->rc = BX_OK; c->err[0] = 0;
  try {
    switch (c->which) {
      case BXC_READ_WOUT: b->read_wout(c->file, c->flag != 0); break;
      case BXC_RUN: b->run(); break;
      case BXC_WRITE: b->write_boozmn(c->file); break;
      case BXC_READ_BOOZMN: b->read_boozmn(c->file); break;
      case BXC_INITVMEC: initvmec(b, c->v); break;
      case BXC_NEW: c->out = new Booz_xform(); break;
      case BXC_COPY: c->out = new Booz_xform(*(Booz_xform*)c->src); break;
      case BXC_ASSIGN: *b = *(Booz_xform*)c->src; break;
      case BXC_DEL: delete b; break;
    }
  } catch (std::bad_alloc& e) { c->rc = BX_BADALLOC; snprintf(c->err, sizeof c->err, "%s", e.what()); }
  catch (std::exception& e) { c->rc = BX_EXC; snprintf(c->err, sizeof c->err, "%s", e.what()); }
  catch (...) { c->rc = BX_OTHER; }
}
#define FIELDS(X) X(asym) X(nfp) X(mpol) X(ntor) X(mnmax) X(mpol_nyq) X(ntor_nyq) X(mnmax_nyq) X(xm) X(xn) X(xm_nyq) X(xn_nyq) X(ns_in) X(s_in) X(iota) \
  X(rmnc) X(rmns) X(zmnc) X(zmns) X(lmnc) X(lmns) X(bmnc) X(bmns) X(bsubumnc) X(bsubumns) X(bsubvmnc) X(bsubvmns) X(mboz) X(nboz) X(compute_surfs) X(aspect) X(toroidal_flux) \
  X(ns_b) X(s_b) X(mnboz) X(xm_b) X(xn_b) X(bmnc_b) X(bmns_b) X(gmnc_b) X(gmns_b) X(rmnc_b) X(rmns_b) X(zmnc_b) X(zmns_b) X(numnc_b) X(numns_b) \
  X(Boozer_G) X(Boozer_G_all) X(Boozer_I) X(Boozer_I_all) X(phi) X(phip) X(chi) X(pres) X(verbose)
static void describe(BxField* f, const bool& v) { f->type = BXF_BOOL; f->rows = f->cols = 1; f->p = &v; }
static void describe(BxField* f, const int& v) { f->type = BXF_INT; f->rows = f->cols = 1; f->p = &v; }
static void describe(BxField* f, const double& v) { f->type = BXF_DBL; f->rows = f->cols = 1; f->p = &v; }
static void describe(BxField* f, const IntVector& v) { f->type = BXF_IVEC; f->rows = (int)v.size(); f->cols = 1; f->p = v.data(); }
static void describe(BxField* f, const Vector& v) { f->type = BXF_VEC; f->rows = (int)v.size(); f->cols = 1; f->p = v.data(); }
static void describe(BxField* f, const Matrix& v) { f->type = BXF_MAT; f->rows = (int)v.rows(); f->cols = (int)v.cols(); f->p = v.data(); }
extern "C" int bx_nfields(void) {
  int n = 0;
#define X(a) n++;
  FIELDS(X)
#undef X
  return n;
}
extern "C" void bx_field(void* o, int i, BxField* f) {
  Booz_xform* b = (Booz_xform*)o; int n = 0;
#define X(a) if (n++ == i) { f->name = #a; describe(f, b->a); return; }
  FIELDS(X)
#undef X
}
static void setv(bool& f, int v) { f = v != 0; }
static void setv(int& f, int v) { f = v; }
static void setv(double& f, int v) { f = v; }
template <class T> static void setv(T&, int) {}
static void sete(IntVector& f, int i, int v) { if (i >= 0 && i < f.size()) f[i] = v; }
template <class T> static void sete(T&, int, int) {}
extern "C" int bx_set_int(void* o, const char* name, int v) {
  Booz_xform* b = (Booz_xform*)o;
#define X(a) if (!strcmp(name, #a)) { setv(b->a, v); return 0; }
  FIELDS(X)
#undef X
  return -1;
}
extern "C" int bx_resize(void* o, const char* name, int rows, int cols) {
  Booz_xform* b = (Booz_xform*)o;
#define X(a) if (!strcmp(name, #a)) { resize(b->a, rows, cols); return 0; }
  FIELDS(X)
#undef X
  return -1;
}
static void putv(Matrix& m, const double* v, int r, int c) { m.resize(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = v[(size_t)j * r + i]; }
static void putv(Vector& m, const double* v, int r, int) { m.resize(r); for (int i = 0; i < r; i++) m[i] = v[i]; }
static void putv(IntVector& m, const double* v, int r, int) { m.resize(r); for (int i = 0; i < r; i++) m[i] = (int)v[i]; }
static void putv(bool& m, const double* v, int, int) { m = v[0] != 0; }
static void putv(int& m, const double* v, int, int) { m = (int)v[0]; }
static void putv(double& m, const double* v, int, int) { m = v[0]; }
extern "C" int bx_put(void* o, const char* name, const double* v, int r, int c) {
  Booz_xform* b = (Booz_xform*)o;
#define X(a) if (!strcmp(name, #a)) { putv(b->a, v, r, c); return 0; }
  FIELDS(X)
#undef X
  return -1;
}
extern "C" int bx_elem(void* o, const char* name, int i, int v) {
  Booz_xform* b = (Booz_xform*)o;
#define X(a) if (!strcmp(name, #a)) { sete(b->a, i, v); return 0; }
  FIELDS(X)
#undef X
  return -1;
}
extern "C" void bx_set_surfs(void* o, const int* v, int n) { ((Booz_xform*)o)->compute_surfs = ivec(v, n); }
int bx_real_main(int argc, char** argv);   // main() of xbooz_xform.cpp, compiled with -Dmain=bx_real_main
extern "C" int bx_driver(int argc, char** argv) noexcept { return bx_real_main(argc, argv); }
extern "C" void bx_warm(void) {
  try { Booz_xform b; b.verbose = 0; b.read_boozmn("/nonexistent/booz_xform_warm.nc"); } catch (...) {}
}
