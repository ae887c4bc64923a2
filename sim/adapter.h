// C interface to the library under test; adapter.cpp is compiled with the
// library's own sources and flags.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
enum { BXF_INT, BXF_DBL, BXF_IVEC, BXF_VEC, BXF_MAT, BXF_BOOL };
typedef struct { const char* name; int type; int rows, cols; const void* p; } BxField;
enum { BX_OK = 0, BX_EXC = 1, BX_BADALLOC = 2, BX_OTHER = 3 };
enum { BXC_READ_WOUT, BXC_RUN, BXC_WRITE, BXC_READ_BOOZMN, BXC_INITVMEC, BXC_NEW, BXC_COPY, BXC_ASSIGN, BXC_DEL, BXC_MOVE };
typedef struct {
  int ns, asym, nfp, mpol, ntor, mnmax, mpol_nyq, ntor_nyq, mnmax_nyq, flux;
  double aspect;
  const int *xm, *xn, *xm_nyq, *xn_nyq;
  const double *iotas, *rmnc, *rmns, *zmnc, *zmns, *lmnc, *lmns, *bmnc, *bmns, *bsubumnc, *bsubumns, *bsubvmnc, *bsubvmns;
  const double *phipf, *chi, *pres, *phi;
  const char* bad; int dr, dc;      /* argument or member that gets another shape (or, for numbers, another value), or NULL */
} BxVmec;
typedef struct { int which; void* obj; void* src; const char* file; int flag; const BxVmec* v; int rc; char err[160]; void* out; } BxCall;
void bx_call(BxCall*);
int bx_nfields(void);
void bx_field(void* obj, int i, BxField* out);
int bx_set_int(void* obj, const char* name, int v);
int bx_resize(void* obj, const char* name, int rows, int cols);   /* keeps the common part, the rest is 0 */
int bx_put(void* obj, const char* name, const double* v, int rows, int cols);
int bx_elem(void* obj, const char* name, int i, int v);
void bx_set_surfs(void* obj, const int* v, int n);
#ifdef __cplusplus
int bx_driver(int argc, char** argv) noexcept;   // as main(): an exception terminates
#else
int bx_driver(int argc, char** argv);
#endif
void bx_warm(void);
#ifdef __cplusplus
}
#endif
