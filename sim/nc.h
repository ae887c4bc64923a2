// Own encoder/decoder of NetCDF classic files (CDF-1, CDF-2, CDF-5 header), independent of libnetcdf.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

enum { NCT_BYTE = 1, NCT_CHAR, NCT_SHORT, NCT_INT, NCT_FLOAT, NCT_DOUBLE, NCT_UBYTE, NCT_USHORT, NCT_UINT, NCT_INT64, NCT_UINT64 };
struct NcDim { std::string name; uint64_t len = 0; };
struct NcAtt { std::string name, text; };                // only text attributes are generated
struct NcVar {
  std::string name; int type = NCT_DOUBLE; std::vector<int> dims; std::vector<NcAtt> atts;
  std::vector<double> v;                                 // numeric values (doubles hold all types used here exactly)
  std::string s;                                         // NCT_CHAR
  uint64_t begin = 0, vsize = 0;                         // filled by encode and decode
};
struct NcFile {
  int version = 1; std::vector<NcDim> dims; std::vector<NcAtt> atts; std::vector<NcVar> vars;
  int unlim = -1;
  uint64_t header_size = 0;
  int dim(const std::string& n) const { for (size_t i = 0; i < dims.size(); i++) if (dims[i].name == n) return (int)i; return -1; }
  const NcVar* var(const std::string& n) const { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
  NcVar* var(const std::string& n) { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
  uint64_t count(const NcVar& v) const { uint64_t n = 1; for (int d : v.dims) n *= dims[d].len; return n; }
};
std::vector<unsigned char> nc_encode(NcFile& f);         // fills begin/vsize/header_size
// "" = ok, otherwise what is wrong with the bytes
std::string nc_decode(const unsigned char* p, size_t n, NcFile& f);
