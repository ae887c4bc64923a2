// Reference model: synthetic equilibria, radial interpolation, Boozer transform (long double),
// expected object contents and the documented boozmn layout.  Independent of the code under test.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "nc.h"

struct Arr { int rows = 0, cols = 0; std::vector<double> v; bool is_int = false; };
typedef std::map<std::string, Arr> Fields;

struct WSpec {                       // everything that determines an equilibrium
  int seed = 1, nfp = 1, mpol = 2, ntor = 1, ns = 5, asym = 0, mq = 3, nq = 2;
  std::string str() const;
  static WSpec parse(const std::string&);
  bool operator<(const WSpec& o) const { return str() < o.str(); }
};
struct Wout {
  WSpec w; int mnmax, mnmax_nyq; std::vector<int> xm, xn, xmq, xnq; double aspect;
  std::vector<double> iotas, phipf, chi, pres, phi;
  std::vector<double> rmnc, rmns, zmnc, zmns, lmnc, lmns, bmnc, bmns, bu, bus, bv, bvs;   // mode index fastest
};
const Wout& wout(const WSpec&);
NcFile wout_file(const WSpec&, int version, unsigned style);
const Fields& model_inputs(const WSpec&, bool flux);             // object contents after reading
struct Surf { std::map<std::string, std::vector<double>> col; double G, I; double binp[4], bboz[4], berr[4]; };
const Surf& model_surface(const WSpec&, int mboz, int nboz, int js);
Fields model_outputs(const WSpec&, int mboz, int nboz, const std::vector<int>& surfs);
int model_mnboz(int mboz, int nboz);
NcFile booz_file(const WSpec&, bool flux, int mboz, int nboz, const std::vector<int>& surfs, int version, unsigned style);
Fields booz_fields(const NcFile&);                               // object contents after reading a result file
// "" or the first difference; every field of want is compared with got
std::string cmp_fields(const Fields& want, const Fields& got, double tol);
// decoded result file against the object that wrote it (bitwise); flux: 1 profiles expected, 0 zeros, -1 by size
std::string cmp_file_obj(const NcFile&, const Fields& obj);
std::string cmp_data(const NcFile& a, const NcFile& b);          // data of two files (not attribute text, not version)
