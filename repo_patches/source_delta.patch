From ca4c59aed163f8798ffc70c468ff0d1b54e01f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 01/28] fix: write the zeroed beta_b instead of uninitialised
 memory

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From eeb3ae183fa4edd54bc22703225934d93337fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 02/28] fix: drop asymmetric arrays left over from an earlier
 equilibrium or run

---
 src/_booz_xform/init.cpp           | 7 +++++++
 src/_booz_xform/init_from_vmec.cpp | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..b35f186 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -169,6 +169,13 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // Discard any results of an earlier stellarator-asymmetric run.
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..2b32580 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -172,6 +172,14 @@ void Booz_xform::init_from_vmec(int ns,
 	bsubvmns(k, j) = bsubvmns0(k, j + 1);
       }
     }
+  } else {
+    // Discard the data of an earlier stellarator-asymmetric equilibrium.
+    rmns.resize(0, 0);
+    zmnc.resize(0, 0);
+    lmnc.resize(0, 0);
+    bmns.resize(0, 0);
+    bsubumns.resize(0, 0);
+    bsubvmns.resize(0, 0);
   }
 
   if (verbose > 0) {
-- 
2.43.0


From 3a8e7674e4af47b13e70be7e88d32ff40446c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 03/28] fix: report errors while reading chi_b, and zero chi if
 it is absent

---
 src/_booz_xform/netcdf_reader.cpp | 8 ++++++++
 src/_booz_xform/netcdf_reader.hpp | 3 +++
 src/_booz_xform/read_boozmn.cpp   | 7 +++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..7693a91 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -31,6 +31,14 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id, retval;
+  retval = nc_inq_varid(ncid, varname.c_str(), &var_id);
+  if (retval == NC_ENOTVAR) return false;
+  if (retval) ERR(retval, varname);
+  return true;
+}
+
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..9cfaeb2 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -16,6 +16,9 @@ namespace booz_xform {
     NetCDFReader(std::string);
 
     size_t getdim(std::string);
+
+    // Whether the file contains a variable of this name:
+    bool has(std::string);
     
     // Scalars:
     void get(std::string, int&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..63fe014 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -47,10 +47,9 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
-  try {
-      nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
-  }
+  // Files of older versions do not contain chi_b.
+  chi.setZero();
+  if (nc.has("chi_b")) nc.get("chi_b", chi);
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
       iota[j] = iota_in[j+1];
-- 
2.43.0


From 94e04e2888076cce28d9227cda0496e7ce729566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 04/28] fix: load the aspect ratio from boozmn files

---
 src/_booz_xform/read_boozmn.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 63fe014..b8a2abe 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -20,6 +20,9 @@ void Booz_xform::read_boozmn(std::string filename) {
 
   nc.get("nfp_b", nfp);
 
+  aspect = 0;
+  if (nc.has("aspect_b")) nc.get("aspect_b", aspect);
+
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
-- 
2.43.0


From 8247b16529e6c7bda5508f0182d4aae7899d82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 05/28] fix: close NetCDF files when reading or writing them
 fails

---
 src/_booz_xform/netcdf_reader.cpp | 11 ++++++++++-
 src/_booz_xform/netcdf_reader.hpp |  5 +++++
 src/_booz_xform/netcdf_writer.cpp |  7 +++++++
 src/_booz_xform/netcdf_writer.hpp |  5 +++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 7693a91..706d547 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -10,9 +10,17 @@ booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
   int retval;
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
+  is_open = true;
   // Get the number of dimensions, variables, etc:
-  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid)))
+  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
+    nc_close(ncid);
     ERR(retval, filename);
+  }
+}
+
+/** Close the file if this was not done yet because of an error. */
+booz_xform::NetCDFReader::~NetCDFReader() {
+  if (is_open) nc_close(ncid);
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
@@ -90,5 +98,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 9cfaeb2..b9bf037 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -10,10 +10,15 @@ namespace booz_xform {
   class NetCDFReader {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
+    bool is_open;
     static void ERR(int, std::string);
+
+    NetCDFReader(const NetCDFReader&) = delete;
+    NetCDFReader& operator=(const NetCDFReader&) = delete;
     
   public:
     NetCDFReader(std::string);
+    ~NetCDFReader();
 
     size_t getdim(std::string);
 
diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index dca832a..aa1f9db 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -19,6 +19,12 @@ booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
   if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  is_open = true;
+}
+
+/** Release the file if this was not done yet because of an error. */
+booz_xform::NetCDFWriter::~NetCDFWriter() {
+  if (is_open) nc_abort(ncid);
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -164,5 +170,6 @@ void booz_xform::NetCDFWriter::write_and_close() {
   
   // Close the file
   if ((retval = nc_close(ncid))) ERR(retval);
+  is_open = false;
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 28730e0..5c5c3d3 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -26,14 +26,19 @@ namespace booz_xform {
   class NetCDFWriter {
   private:
     int ncid;
+    bool is_open;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
     std::vector<int> types;
     static void ERR(int);
+
+    NetCDFWriter(const NetCDFWriter&) = delete;
+    NetCDFWriter& operator=(const NetCDFWriter&) = delete;
     
   public:
     NetCDFWriter(std::string);
+    ~NetCDFWriter();
     dim_id_type dim(std::string, int);
     void add_attribute(int, std::string, std::string);
     
-- 
2.43.0


From 02a9464ddfd29209b86080e0f2a5ac39b2adb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 06/28] fix: pass exceptions of the parallel region on to the
 caller of run()

---
 src/_booz_xform/run.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index f593e7a..2a91def 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <exception>
 #include "booz_xform.hpp"
 
 using namespace booz_xform;
@@ -19,8 +20,17 @@ void Booz_xform::run() {
   }
 
   // In the next line would could try to add something like "schedule(static, 1)" for more order.
+  // An exception must not leave the parallel region, so the first one
+  // is kept and raised again afterwards.
+  std::exception_ptr error;
 #pragma omp parallel for
   for (int j = 0; j < compute_surfs.size(); j++) {
-    surface_solve(j);
+    try {
+      surface_solve(j);
+    } catch (...) {
+#pragma omp critical
+      if (!error) error = std::current_exception();
+    }
   }
+  if (error) std::rethrow_exception(error);
 }
-- 
2.43.0


From 94fc0da74b83ee1dfd56202c561a4f3add7f1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 07/28] fix: reject NetCDF variables whose size differs from
 what the reader expects

---
 src/_booz_xform/netcdf_reader.cpp | 42 ++++++++++++++++++++++++++-----
 src/_booz_xform/netcdf_reader.hpp |  3 +++
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 706d547..7bef0cc 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -1,5 +1,7 @@
 #include <iostream>
 #include <stdexcept>
+#include <string>
+#include <vector>
 #include <netcdf.h>
 #include "vector_matrix.hpp"
 #include "netcdf_reader.hpp"
@@ -29,6 +31,29 @@ void booz_xform::NetCDFReader::ERR(int e, std::string details) {
   throw std::runtime_error(nc_strerror(e));
 }
 
+/** Raise an error unless the variable has exactly the given shape, so
+    that reading it cannot write beyond the end of its destination.
+    A scalar may also be stored as an array with a single element.
+ */
+void booz_xform::NetCDFReader::check_size(int var_id, std::string varname, std::vector<size_t> expected) {
+  int retval, var_ndims;
+  if ((retval = nc_inq_varndims(ncid, var_id, &var_ndims)))
+    ERR(retval, varname);
+  std::vector<int> dim_ids(var_ndims + 1);
+  if ((retval = nc_inq_vardimid(ncid, var_id, &dim_ids[0])))
+    ERR(retval, varname);
+  std::vector<size_t> actual(var_ndims);
+  size_t total = 1;
+  for (int j = 0; j < var_ndims; j++) {
+    if ((retval = nc_inq_dimlen(ncid, dim_ids[j], &actual[j])))
+      ERR(retval, varname);
+    total *= actual[j];
+  }
+  if (actual == expected) return;
+  if (expected.empty() && var_ndims == 1 && total == 1) return;
+  throw std::runtime_error("Variable " + varname + " does not have the expected size");
+}
+
 size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   int dim_id, retval;
   size_t dimval;
@@ -51,6 +76,7 @@ void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(var_id, varname, {});
   if ((retval = nc_get_var_int(ncid, var_id, &var)))
     ERR(retval, varname);
 }
@@ -59,39 +85,43 @@ void booz_xform::NetCDFReader::get(std::string varname, boozfloat& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(var_id, varname, {});
   if ((retval = nc_get_var_double(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the Vector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** This subroutine assumes the Vector has already been sized to the
+    dimension of the variable. If not, an error is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Vector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(var_id, varname, {(size_t) var.size()});
   if ((retval = nc_get_var_double(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the IntVector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** This subroutine assumes the IntVector has already been sized to the
+    dimension of the variable. If not, an error is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, IntVector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(var_id, varname, {(size_t) var.size()});
   if ((retval = nc_get_var_int(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the matrix has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** This subroutine assumes the matrix has already been sized to the
+    dimensions of the variable. If not, an error is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(var_id, varname, {(size_t) var.cols(), (size_t) var.rows()});
   if ((retval = nc_get_var_double(ncid, var_id, &var(0,0))))
     ERR(retval, varname);
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index b9bf037..5d4f9ea 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef BOOZ_NETCDF_READER_H
 #define BOOZ_NETCDF_READER_H
 
+#include <string>
+#include <vector>
 #include "vector_matrix.hpp"
 
 namespace booz_xform {
@@ -12,6 +14,7 @@ namespace booz_xform {
     int ncid, ndims, nvars, ngatts, unlimdimid;
     bool is_open;
     static void ERR(int, std::string);
+    void check_size(int, std::string, std::vector<size_t>);
 
     NetCDFReader(const NetCDFReader&) = delete;
     NetCDFReader& operator=(const NetCDFReader&) = delete;
-- 
2.43.0


From 63bf89af91a8b2be931d4a2609c6fc4cc63643b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 08/28] fix: print the "Solving for" lines of different threads
 one at a time

---
 src/_booz_xform/surface_solve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index e037a2c..c5d8a39 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -17,7 +17,11 @@ void Booz_xform::surface_solve(int js_b) {
   int js = compute_surfs[js_b];
   // js is the 0-based radial index into the input data arrays
   // js_b is the 0-based index among the subset of surfaces on which the transformation is done.
-  if (verbose > 1) std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  if (verbose > 1) {
+    // Only 1 thread should print at a time:
+    #pragma omp critical
+    std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  }
 
   int jmn, m, n, abs_n, j;
 
-- 
2.43.0


From 5f5ca42b96bd1fa25317023393e347e7ccf1ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 09/28] fix: do not print entries beyond the end of rmnc

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 2b32580..3cdb9f7 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -193,11 +193,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From 1784c33c0902980608f9da946baac7c69c7ee973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 10/28] fix: write results to a temporary file that replaces
 the old file once it is complete

---
 src/_booz_xform/netcdf_writer.cpp | 29 +++++++++++++++++++++++++----
 src/_booz_xform/netcdf_writer.hpp |  2 ++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index aa1f9db..fb65339 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -1,8 +1,13 @@
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
+#include <string>
 #include <vector>
 #include <algorithm>
 #include <stdexcept>
 #include <iomanip>
 #include <sstream>
+#include <unistd.h>
 #include <netcdf.h>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
@@ -13,18 +18,27 @@
 
 using namespace booz_xform;
 
-booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
+booz_xform::NetCDFWriter::NetCDFWriter(std::string filename)
+  : is_open(false), filename(filename) {
   int retval;
+  // Everything is written to a temporary file, which gets its final
+  // name once it is complete. A failure therefore never leaves a
+  // damaged file behind, nor destroys an older one.
+  temp_filename = filename + ".tmp" + std::to_string(getpid());
   // If you want to use the netcdf4 format, "|NC_NETCDF4" must be included
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
-  if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  if ((retval = nc_create(temp_filename.c_str(), NC_CLOBBER, &ncid))) {
+    std::remove(temp_filename.c_str());
+    ERR(retval);
+  }
   is_open = true;
 }
 
-/** Release the file if this was not done yet because of an error. */
+/** Release and remove the file if it was not completed because of an error. */
 booz_xform::NetCDFWriter::~NetCDFWriter() {
   if (is_open) nc_abort(ncid);
+  if (!temp_filename.empty()) std::remove(temp_filename.c_str());
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -168,8 +182,15 @@ void booz_xform::NetCDFWriter::write_and_close() {
     }
   }
   
-  // Close the file
+  // Make sure all data could be written, since nc_close() does not
+  // report every error, and close the file.
+  if ((retval = nc_sync(ncid))) ERR(retval);
   if ((retval = nc_close(ncid))) ERR(retval);
   is_open = false;
+
+  // The file is complete, so give it its final name.
+  if (std::rename(temp_filename.c_str(), filename.c_str()))
+    throw std::runtime_error("Unable to create " + filename + ": " + std::strerror(errno));
+  temp_filename.clear();
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 5c5c3d3..5a570f9 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -1,6 +1,7 @@
 #ifndef BOOZ_NETCDF_WRITER_H
 #define BOOZ_NETCDF_WRITER_H
 
+#include <string>
 #include <vector>
 #include <netcdf.h>
 #include "booz_xform.hpp"
@@ -27,6 +28,7 @@ namespace booz_xform {
   private:
     int ncid;
     bool is_open;
+    std::string filename, temp_filename;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
-- 
2.43.0


From b20db44b50cd40d1ba5a7f9ed6e194bd0b7e11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 11/28] fix: do not write beyond the end of the tables for m if
 m=0 is the only mode

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From dda173f172013d416de7fff86ebf68a8c7ed567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 12/28] fix: check the requested surfaces when running instead
 of before they are set

---
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 src/_booz_xform/run.cpp            | 6 ++++++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 3cdb9f7..fd9a30f 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -87,11 +87,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // Done with validation.
 
   iota.resize(ns_in);
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index 2a91def..34ea740 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,10 +1,16 @@
 #include <iostream>
 #include <exception>
+#include <stdexcept>
 #include "booz_xform.hpp"
 
 using namespace booz_xform;
 
 void Booz_xform::run() {
+  for (int j = 0; j < compute_surfs.size(); j++) {
+    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[j] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
+  }
+
   if (verbose > 0) {
     std::cout << "compute_surfs (0-based indices): ";
     for (int j = 0; j < compute_surfs.size(); j++) std::cout << " " << compute_surfs[j];
-- 
2.43.0


From 9236669969f390ea11ea262ba737d6fd62008df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 13/28] fix: do not take a read error for the end of the list
 of surfaces

---
 src/_booz_xform/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/_booz_xform/driver.cpp b/src/_booz_xform/driver.cpp
index fd8d637..7c61b45 100644
--- a/src/_booz_xform/driver.cpp
+++ b/src/_booz_xform/driver.cpp
@@ -59,6 +59,7 @@ int booz_xform::driver(int argc, char* argv[]) {
   int val;
   while (true) {
     file >> val;
+    if (file.bad()) throw std::runtime_error("Unable to read compute_surfs");
     if (file.fail()) {
       std::cout << "Unable to read more." << std::endl;
       break;
-- 
2.43.0


From bed80f7ae8d231798ebac27f63bfc490c91048b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 14/28] fix: reject sizes in input files that would make the
 reader access invalid memory

---
 src/_booz_xform/read_boozmn.cpp | 3 +++
 src/_booz_xform/read_wout.cpp   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index b8a2abe..8c0fba4 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -26,6 +26,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
+  if (mnboz < 1) throw std::runtime_error("mnboz must be at least 1");
 
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
@@ -33,6 +34,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("ixn_b", xn_b);
 
   int radius = nc.getdim("radius");
+  if (radius < 2) throw std::runtime_error("radius must be at least 2");
   Vector iota_in, Boozer_G_in, Boozer_I_in;
   iota_in.resize(radius);
   Boozer_G_in.resize(radius);
@@ -111,6 +113,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   // Set up the s grid for output quantites.
   int ns_vmec;
   nc.get("ns_b", ns_vmec);
+  if (ns_vmec != radius) throw std::runtime_error("ns_b differs from the dimension radius");
   boozfloat hs = 1.0 / (ns_vmec - 1.0);
   s_b.resize(ns_b);
   for (j = 0; j < ns_b; j++) s_b[j] = hs * (compute_surfs[j] + 0.5);
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..ae60cf8 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -27,6 +27,11 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   nc.get("mnmax_nyq", mnmax_nyq);
   nc.get("aspect", aspect);
 
+  if (ns < 2) throw std::runtime_error("ns must be at least 2");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
+
   Vector phip0;
   Vector chi0;
   Vector pres0;
-- 
2.43.0


From b6fe1efd83d6ca0e90d3a5fcbbbab94dc97638bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 15/28] fix: reject mode numbers that exceed the given limits

---
 src/_booz_xform/init_from_vmec.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index fd9a30f..fe2868e 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -1,3 +1,4 @@
+#include <cstdlib>
 #include <iostream>
 #include <fstream>
 #include <iomanip>
@@ -56,6 +57,16 @@ void Booz_xform::init_from_vmec(int ns,
   if (xn[mnmax - 1] != nfp * ntor) throw std::runtime_error("xn does not seem correct");
   // if (xm_nyq[mnmax_nyq - 1] != mpol_nyq) throw std::runtime_error("xm_nyq does not seem correct");
   if (xn_nyq[mnmax_nyq - 1] != nfp * ntor_nyq) throw std::runtime_error("xn_nyq does not seem correct");
+  // The mode numbers are used as indices later.
+  for (j = 0; j < mnmax; j++) {
+    if (xm[j] < 0 || xm[j] >= mpol) throw std::runtime_error("xm and mpol are not consistent");
+    if (std::abs(xn[j]) / nfp > ntor) throw std::runtime_error("xn and ntor are not consistent");
+    if (xm[j] == 1 && ns < 3) throw std::runtime_error("ns must be at least 3 to extrapolate the m=1 modes to the axis");
+  }
+  for (j = 0; j < mnmax_nyq; j++) {
+    if (xm_nyq[j] < 0 || xm_nyq[j] > mpol_nyq) throw std::runtime_error("xm_nyq and mpol_nyq are not consistent");
+    if (std::abs(xn_nyq[j]) / nfp > ntor_nyq) throw std::runtime_error("xn_nyq and ntor_nyq are not consistent");
+  }
 
   if (rmnc0.cols() != ns) throw std::runtime_error("rmnc0 has wrong number of cols");
   if (zmns0.cols() != ns) throw std::runtime_error("zmns0 has wrong number of cols");
-- 
2.43.0


From 3a8f5f45c36d8882e95109a6124f39e4dc1be9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 16/28] fix: report truncated NetCDF files instead of reading
 the missing data as 0

---
 src/_booz_xform/netcdf_reader.cpp | 73 +++++++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 7bef0cc..3a742ca 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <fstream>
 #include <iostream>
 #include <stdexcept>
 #include <string>
@@ -8,10 +10,81 @@
 
 using namespace booz_xform;
 
+/** Raise an error if the file is shorter than its header says. The NetCDF
+    library does not do this for files in the classic formats (CDF-1,
+    CDF-2, and CDF-5), but would return 0 for the missing data.
+ */
+static void check_not_truncated(std::string filename) {
+  typedef unsigned long long number;
+  // The library can also read remote files, which have no local size.
+  if (filename.find("://") != std::string::npos) return;
+
+  std::ifstream file(filename.c_str(), std::ios::binary);
+  char magic[4] = {0, 0, 0, 0};
+  if (file.read(magic, 4) && std::string(magic, 3) != "CDF") return; // Not a classic format
+  const int version = magic[3];
+
+  // Functions for the elements of the header. All numbers are big-endian.
+  auto get = [&file](int n_bytes) {
+    number val = 0;
+    for (int j = 0; j < n_bytes; j++) val = 256 * val + (unsigned char) file.get();
+    return val;
+  };
+  auto get_count = [&]() { return get(version == 5 ? 8 : 4); };
+  auto get_type_size = [&]() {
+    const int sizes[] = {0, 1, 1, 2, 4, 4, 8, 1, 2, 4, 8, 8};
+    return (number) sizes[std::min(get(4), (number) 11)];
+  };
+  auto skip = [&file](number n_bytes) { file.ignore((n_bytes + 3) / 4 * 4); };
+  auto skip_attributes = [&]() {
+    get(4);
+    for (number n = get_count(); file && n > 0; n--) {
+      skip(get_count()); // name
+      number type_size = get_type_size();
+      skip(get_count() * type_size);
+    }
+  };
+
+  get_count(); // number of records
+  std::vector<number> dims;
+  get(4);
+  for (number n = get_count(); file && n > 0; n--) {
+    skip(get_count()); // name
+    dims.push_back(get_count());
+  }
+  skip_attributes();
+  number end = 0;
+  get(4);
+  for (number n = get_count(); file && n > 0; n--) {
+    skip(get_count()); // name
+    number size = 1;
+    for (number n_dims = get_count(); file && n_dims > 0; n_dims--) {
+      number dim_id = get_count();
+      if (dim_id < dims.size()) size *= dims[dim_id];
+    }
+    skip_attributes();
+    size *= get_type_size();
+    get_count(); // the size again, which is not reliable for large variables
+    number begin = get(version == 1 ? 4 : 8);
+    end = std::max(end, begin + size);
+  }
+  if (!file || !file.seekg(0, std::ios::end))
+    throw std::runtime_error("File is truncated or cannot be read: " + filename);
+  const std::streamoff file_size = file.tellg();
+  if (file_size < 0 || (number) file_size < end)
+    throw std::runtime_error("File is truncated or cannot be read: " + filename);
+}
+
 booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
   int retval;
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
+  try {
+    check_not_truncated(filename);
+  } catch (...) {
+    nc_close(ncid);
+    throw;
+  }
   is_open = true;
   // Get the number of dimensions, variables, etc:
   if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
-- 
2.43.0


From 495cac0a51a22cf3e12b1a043b890ecb9ff6ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 17/28] fix: keep arrays valid if the allocation of their new
 memory fails

---
 externalPackages/eigen/Eigen/src/Core/DenseStorage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/externalPackages/eigen/Eigen/src/Core/DenseStorage.h b/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
index 6966513..ed17a22 100644
--- a/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
+++ b/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
@@ -432,6 +432,7 @@ template<typename T, int _Options> class DenseStorage<T, Dynamic, Dynamic, Dynam
       if(size != m_rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, m_rows*m_cols);
+        m_data = 0; m_rows = 0; m_cols = 0; // stay valid if the allocation throws
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -509,6 +510,7 @@ template<typename T, int _Rows, int _Options> class DenseStorage<T, Dynamic, _Ro
       if(size != _Rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Rows*m_cols);
+        m_data = 0; m_cols = 0; // stay valid if the allocation throws
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -585,6 +587,7 @@ template<typename T, int _Cols, int _Options> class DenseStorage<T, Dynamic, Dyn
       if(size != m_rows*_Cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Cols*m_rows);
+        m_data = 0; m_rows = 0; // stay valid if the allocation throws
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
-- 
2.43.0


From 9ec057413dd652dc7084da8a9a210ff2a7275fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 18/28] fix: close input files even if closing them reports an
 error

---
 src/_booz_xform/netcdf_reader.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 3a742ca..d80bcaf 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -82,20 +82,22 @@ booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
   try {
     check_not_truncated(filename);
   } catch (...) {
-    nc_close(ncid);
+    nc_abort(ncid);
     throw;
   }
   is_open = true;
   // Get the number of dimensions, variables, etc:
   if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
-    nc_close(ncid);
+    nc_abort(ncid);
     ERR(retval, filename);
   }
 }
 
-/** Close the file if this was not done yet because of an error. */
+/** Close the file if this was not done yet because of an error. Unlike
+    nc_close(), nc_abort() does this even if there are further errors.
+ */
 booz_xform::NetCDFReader::~NetCDFReader() {
-  if (is_open) nc_close(ncid);
+  if (is_open) nc_abort(ncid);
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
@@ -201,6 +203,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
-  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
+  is_open = false;
 }
-- 
2.43.0


From eaf0f8f5ed7cfc9d7eb20a08a40a52c423856d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:50 +0000
Subject: [PATCH 19/28] fix: read the control file in the Python command line
 as the C++ one does

---
 src/booz_xform/_cli.py | 62 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/booz_xform/_cli.py b/src/booz_xform/_cli.py
index 95008ba..e20600e 100644
--- a/src/booz_xform/_cli.py
+++ b/src/booz_xform/_cli.py
@@ -13,6 +13,8 @@ Source checkouts still get the C++ executable from ``cmake --build . --target
 xbooz_xform``; the two are interchangeable.
 """
 
+import os
+import re
 import sys
 
 from . import Booz_xform, __version__
@@ -45,34 +47,46 @@ in which case the transformation will be performed on all half-grid surfaces."""
 def _parse_input_file(filename):
     """Read an in_booz-style input file.
 
-    Returns (mboz, nboz, extension, compute_surfs).  Whitespace and line breaks
-    are handled the same way as the C++ ``>>`` extraction operators, i.e. all
-    tokens are read in order and newlines are not significant.
+    Returns (mboz, nboz, extension, compute_surfs).  The file is read exactly as
+    by the C++ ``>>`` extraction operators in driver.cpp: newlines are not
+    significant, only ASCII white space separates entries, and an integer ends
+    at the first character that cannot belong to it ("8-1" is 8 and then -1).
     """
-    with open(filename) as f:
-        tokens = f.read().split()
-
-    if len(tokens) < 3:
-        raise RuntimeError(
-            "Unable to read mboz, nboz, and extension from " + filename
-        )
-
-    try:
-        mboz, nboz = int(tokens[0]), int(tokens[1])
-    except ValueError:
-        raise RuntimeError("Unable to read mboz and nboz")
+    with open(filename, "rb") as f:
+        data = f.read()
+    pos = 0
+
+    def next_int():
+        nonlocal pos
+        match = re.compile(rb"[ \t\n\v\f\r]*([+-]?)0*([0-9]+)").match(data, pos)
+        if match is None or len(match.group(2)) > 10:
+            return None
+        value = int(match.group(1) + match.group(2))
+        if not -2**31 <= value < 2**31:  # the range of a C++ int
+            return None
+        pos = match.end()
+        return value
+
+    mboz = next_int()
+    nboz = None if mboz is None else next_int()
+    if nboz is None:
+        raise RuntimeError("Unable to read mboz and nboz from " + filename)
     print("Read mboz = {}, nboz = {}".format(mboz, nboz))
 
-    extension = tokens[2]
-    print("Read extension =", extension)
+    match = re.compile(rb"[ \t\n\v\f\r]*([^ \t\n\v\f\r]+)").match(data, pos)
+    if match is None:
+        raise RuntimeError("Unable to read extension from " + filename)
+    pos = match.end()
+    # File names need not be valid text; see os.fsencode() in main().
+    extension = os.fsdecode(match.group(1))
+    print("Read extension =", extension.encode("ascii", "backslashreplace").decode())
 
-    # As in driver.cpp, reading stops at the first token that is not an integer
+    # As in driver.cpp, reading stops at the first entry that is not an integer
     # rather than being treated as an error.
     compute_surfs = []
-    for token in tokens[3:]:
-        try:
-            value = int(token)
-        except ValueError:
+    while True:
+        value = next_int()
+        if value is None:
             print("Unable to read more.")
             break
         print("Read value", value)
@@ -95,7 +109,7 @@ def main(argv=None):
     mboz, nboz, extension, compute_surfs = _parse_input_file(argv[0])
 
     b = Booz_xform()
-    b.read_wout("wout_" + extension + ".nc")
+    b.read_wout(os.fsencode("wout_" + extension + ".nc"))
 
     b.mboz = max(b.mboz, mboz)
     b.nboz = max(b.nboz, nboz)
@@ -111,7 +125,7 @@ def main(argv=None):
           " ".join(str(s) for s in b.compute_surfs))
 
     b.run()
-    b.write_boozmn("boozmn_" + extension + ".nc")
+    b.write_boozmn(os.fsencode("boozmn_" + extension + ".nc"))
 
     print("Good bye.")
     return 0
-- 
2.43.0


From 29585f202d5ffd760da74d98dc8ab89e568ace83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 20/28] fix: give all sizes of a new object a defined value

---
 src/_booz_xform/booz_xform.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..936d75b 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,19 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 1;
+  // No data yet:
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From c2f060567eb4524c0471fa441bbd81328e137188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 21/28] fix: reject input without Fourier modes in
 init_from_vmec()

---
 src/_booz_xform/init_from_vmec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index fe2868e..ca6714f 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -47,6 +47,9 @@ void Booz_xform::init_from_vmec(int ns,
   if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
   if (xn_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xn_nyq is not mnmax_nyq");
 
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
+
   // if (mnmax != (ntor * 2 + 1) * mpol + ntor + 1) throw std::runtime_error("ntor, mpol, and mnmax are not consistent");
   // if (mnmax_nyq != (ntor_nyq * 2 + 1) * mpol_nyq + ntor_nyq + 1) throw std::runtime_error("ntor, mpol, and mnmax are not consistent");
   if (xm[0] != 0) throw std::runtime_error("xm does not seem correct");
-- 
2.43.0


From fdfd3935eafe3484c8417323c4e6a6f7e3a839aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 22/28] fix: reject missing or inconsistent input in run()

---
 src/_booz_xform/booz_xform.hpp     |  1 +
 src/_booz_xform/init_from_vmec.cpp |  4 +--
 src/_booz_xform/run.cpp            | 50 ++++++++++++++++++++++++++++++
 3 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/booz_xform.hpp b/src/_booz_xform/booz_xform.hpp
index 0b1a487..b87fb9d 100644
--- a/src/_booz_xform/booz_xform.hpp
+++ b/src/_booz_xform/booz_xform.hpp
@@ -53,6 +53,7 @@ namespace booz_xform {
     Matrix sinn_nyq; //!< Stores sin(n*zeta) for xn_nyq
 
     void defaults();
+    void check_input();
     void check_accuracy(int, int, Vector&, Vector&, Vector&, Matrix&, Matrix&, Matrix&, Matrix&);
 
   public:
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index ca6714f..565f73c 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -63,12 +63,12 @@ void Booz_xform::init_from_vmec(int ns,
   // The mode numbers are used as indices later.
   for (j = 0; j < mnmax; j++) {
     if (xm[j] < 0 || xm[j] >= mpol) throw std::runtime_error("xm and mpol are not consistent");
-    if (std::abs(xn[j]) / nfp > ntor) throw std::runtime_error("xn and ntor are not consistent");
+    if (std::abs((long long) xn[j]) / nfp > ntor) throw std::runtime_error("xn and ntor are not consistent");
     if (xm[j] == 1 && ns < 3) throw std::runtime_error("ns must be at least 3 to extrapolate the m=1 modes to the axis");
   }
   for (j = 0; j < mnmax_nyq; j++) {
     if (xm_nyq[j] < 0 || xm_nyq[j] > mpol_nyq) throw std::runtime_error("xm_nyq and mpol_nyq are not consistent");
-    if (std::abs(xn_nyq[j]) / nfp > ntor_nyq) throw std::runtime_error("xn_nyq and ntor_nyq are not consistent");
+    if (std::abs((long long) xn_nyq[j]) / nfp > ntor_nyq) throw std::runtime_error("xn_nyq and ntor_nyq are not consistent");
   }
 
   if (rmnc0.cols() != ns) throw std::runtime_error("rmnc0 has wrong number of cols");
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index 34ea740..bb3151e 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,11 +1,61 @@
+#include <cstdlib>
 #include <iostream>
 #include <exception>
+#include <limits>
 #include <stdexcept>
 #include "booz_xform.hpp"
 
 using namespace booz_xform;
 
+/** Check that the input quantities are present and consistent with each other.
+ *
+ *  The input quantities can all be changed individually by the user,
+ *  and their sizes and values are used as indices later.
+ */
+void Booz_xform::check_input() {
+  const long long int_max = std::numeric_limits<int>::max();
+
+  if (ns_in < 1 || mnmax < 1 || mnmax_nyq < 1) throw std::runtime_error("There is no input data for run()");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mpol < 1 || mpol_nyq < 0) throw std::runtime_error("mpol or mpol_nyq is too small");
+  if (ntor < 0 || ntor_nyq < 0) throw std::runtime_error("ntor or ntor_nyq is too small");
+  if (mboz < 1) throw std::runtime_error("mboz must be at least 1");
+  if (nboz < 0) throw std::runtime_error("nboz must be at least 0");
+  // The numbers of grid points and modes are stored as int:
+  if ((4LL * mboz + 2) > int_max / (4LL * nboz + 2)
+      || (2LL * nboz + 1) * nfp > int_max / 2) throw std::runtime_error("mboz or nboz is too large");
+
+  if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
+  if (xn.size() != mnmax) throw std::runtime_error("Size of xn is not mnmax");
+  if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
+  if (xn_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xn_nyq is not mnmax_nyq");
+  if (xm_nyq[0] != 0) throw std::runtime_error("xm_nyq does not seem correct");
+  if (xn_nyq[0] != 0) throw std::runtime_error("xn_nyq does not seem correct");
+  for (int j = 0; j < mnmax; j++) {
+    if (xm[j] < 0 || xm[j] >= mpol) throw std::runtime_error("xm and mpol are not consistent");
+    if (std::abs((long long) xn[j]) / nfp > ntor) throw std::runtime_error("xn and ntor are not consistent");
+  }
+  for (int j = 0; j < mnmax_nyq; j++) {
+    if (xm_nyq[j] < 0 || xm_nyq[j] > mpol_nyq) throw std::runtime_error("xm_nyq and mpol_nyq are not consistent");
+    if (std::abs((long long) xn_nyq[j]) / nfp > ntor_nyq) throw std::runtime_error("xn_nyq and ntor_nyq are not consistent");
+  }
+
+  if (s_in.size() != ns_in) throw std::runtime_error("Size of s_in is not ns_in");
+  if (iota.size() != ns_in) throw std::runtime_error("Size of iota is not ns_in");
+  for (const Matrix* m : {&rmnc, &zmns, &lmns, &rmns, &zmnc, &lmnc}) {
+    if (!asym && (m == &rmns || m == &zmnc || m == &lmnc)) continue;
+    if (m->rows() != mnmax || m->cols() != ns_in)
+      throw std::runtime_error("The arrays for R, Z, and lambda must have size mnmax x ns_in");
+  }
+  for (const Matrix* m : {&bmnc, &bsubumnc, &bsubvmnc, &bmns, &bsubumns, &bsubvmns}) {
+    if (!asym && (m == &bmns || m == &bsubumns || m == &bsubvmns)) continue;
+    if (m->rows() != mnmax_nyq || m->cols() != ns_in)
+      throw std::runtime_error("The arrays for B must have size mnmax_nyq x ns_in");
+  }
+}
+
 void Booz_xform::run() {
+  check_input();
   for (int j = 0; j < compute_surfs.size(); j++) {
     if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
     if (compute_surfs[j] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-- 
2.43.0


From 2ca0a83de78ae8223e5acf2bf42355965b6b5b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:38 +0000
Subject: [PATCH 23/28] fix: refuse to write results that do not exist or do
 not match the settings

---
 src/_booz_xform/booz_xform.hpp     |  3 ++-
 src/_booz_xform/init_from_vmec.cpp |  1 +
 src/_booz_xform/read_boozmn.cpp    |  2 ++
 src/_booz_xform/read_wout.cpp      |  1 +
 src/_booz_xform/run.cpp            |  2 ++
 src/_booz_xform/write_boozmn.cpp   | 22 ++++++++++++++++++++++
 6 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/booz_xform.hpp b/src/_booz_xform/booz_xform.hpp
index b87fb9d..e9dbcff 100644
--- a/src/_booz_xform/booz_xform.hpp
+++ b/src/_booz_xform/booz_xform.hpp
@@ -40,7 +40,7 @@ namespace booz_xform {
     int nzeta; //!< Number of real-space grid points in the original toroidal angle
     boozfloat d_theta, d_zeta; //!< Spacing between grid points in the VMEC poloidal and toroidal angles
     int n_theta_zeta; //!< Number of grid points in the combined theta-zeta grid
-    bool completed;
+    bool completed; //!< True if the output quantities are those of a finished calculation
     Vector theta_grid; //!< Theta values of the (theta, zeta) grid, reshaped from 2D -> 1D.
     Vector zeta_grid; //!< Theta values of the (theta, zeta) grid, reshaped from 2D -> 1D.
     Matrix cosm; //!< Stores cos(m*theta) for xm
@@ -54,6 +54,7 @@ namespace booz_xform {
 
     void defaults();
     void check_input();
+    void check_output();
     void check_accuracy(int, int, Vector&, Vector&, Vector&, Matrix&, Matrix&, Matrix&, Matrix&);
 
   public:
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 565f73c..71286e4 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -28,6 +28,7 @@ void Booz_xform::init_from_vmec(int ns,
         Vector& pres0,
         Vector& phi0) {
   int j, k;
+  completed = false;
   ns_in = ns - 1;
 
   // Do some validation.
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 8c0fba4..246fdd0 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -13,6 +13,7 @@ void Booz_xform::read_boozmn(std::string filename) {
 
   if (verbose > 0) std::cout << "About to try reading boozmn netcdf file " << filename << std::endl;
   booz_xform::NetCDFReader nc(filename);
+  completed = false;
 
   int asym_int;
   nc.get("lasym__logical__", asym_int);
@@ -120,5 +121,6 @@ void Booz_xform::read_boozmn(std::string filename) {
   if (verbose > 0) std::cout << "s_b=" << s_b << std::endl;
 
   nc.close();
+  completed = true;
 
 }
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index ae60cf8..34fbac4 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -12,6 +12,7 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   int j, k;
   if (verbose > 0) std::cout << "About to try reading VMEC wout file " << filename << std::endl;
   booz_xform::NetCDFReader nc(filename);
+  completed = false;
 
   int asym_int;
   nc.get("lasym__logical__", asym_int);
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index bb3151e..e3bc114 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -55,6 +55,7 @@ void Booz_xform::check_input() {
 }
 
 void Booz_xform::run() {
+  completed = false;
   check_input();
   for (int j = 0; j < compute_surfs.size(); j++) {
     if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
@@ -89,4 +90,5 @@ void Booz_xform::run() {
     }
   }
   if (error) std::rethrow_exception(error);
+  completed = true;
 }
diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 543e53b..bc6336e 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -1,12 +1,34 @@
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
 
 using namespace booz_xform;
 
+/** Check that the output quantities are present and consistent with
+ *  the input quantities that are also saved.
+ */
+void Booz_xform::check_output() {
+  if (!completed) throw std::runtime_error("There are no results to write. Call run() first");
+  if (compute_surfs.size() != ns_b) throw std::runtime_error("compute_surfs does not match the results. Call run() again");
+  if (iota.size() != ns_in || Boozer_I_all.size() != ns_in || Boozer_G_all.size() != ns_in)
+    throw std::runtime_error("iota or ns_in does not match the results. Call run() again");
+  if (phip.size() != 0) {
+    for (const Vector* v : {&phip, &chi, &pres, &phi})
+      if (v->size() != ns_in + 1) throw std::runtime_error("phip, chi, pres, and phi must have size ns_in + 1");
+  }
+  if (xm_b.size() != mnboz || xn_b.size() != mnboz) throw std::runtime_error("xm_b and xn_b must have size mnboz");
+  for (const Matrix* m : {&bmnc_b, &rmnc_b, &zmns_b, &numns_b, &gmnc_b, &bmns_b, &rmns_b, &zmnc_b, &numnc_b, &gmns_b}) {
+    if (!asym && (m == &bmns_b || m == &rmns_b || m == &zmnc_b || m == &numnc_b || m == &gmns_b)) continue;
+    if (m->rows() != mnboz || m->cols() != ns_b)
+      throw std::runtime_error("asym or the output arrays do not match the results. Call run() again");
+  }
+}
+
 void Booz_xform::write_boozmn(std::string filename) {
   int j;
+  check_output();
   if (verbose > 0) std::cout << "Writing output to " << filename << std::endl;
   NetCDFWriter nc(filename);
 
-- 
2.43.0


From 043fa3703e2f45ad283d1fd20ed3848bb23ca5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 24/28] fix: return copies of the output arrays to Python

The attributes were views of storage that run() and read_boozmn()
release, so an array kept from an earlier result was left dangling.
---
 src/_booz_xform/bindings.cpp | 37 +++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/_booz_xform/bindings.cpp b/src/_booz_xform/bindings.cpp
index 28a3b91..6ba1acc 100644
--- a/src/_booz_xform/bindings.cpp
+++ b/src/_booz_xform/bindings.cpp
@@ -291,103 +291,106 @@ equilibrium to booz_xform output files.)")
 
     // End of inputs. Now come the outputs.
 
+    // The output arrays are copied: their storage is replaced by the
+    // next run() or read_boozmn(), and a view would be left dangling.
+
     .def_readonly("ns_b", &Booz_xform::ns_b, R"(
 (int, output) Number of flux surfaces on which output data are
 available.)")
 
-    .def_readonly("s_b", &Booz_xform::s_b, R"(
+    .def_readonly("s_b", &Booz_xform::s_b, py::return_value_policy::copy, R"(
 (1D float array of length ns_b, output) Values of normalized
 toroidal flux s defining the magnetic surfaces for the output data.)")
 
     .def_readonly("mnboz", &Booz_xform::mnboz, R"(
 (int, output) Total number of Fourier modes for output data.)")
 
-    .def_readonly("xm_b", &Booz_xform::xm_b, R"(
+    .def_readonly("xm_b", &Booz_xform::xm_b, py::return_value_policy::copy, R"(
 (1D int array of length mnboz, output) Poloidal mode numbers for the
 output data.)")
 
-    .def_readonly("xn_b", &Booz_xform::xn_b, R"(
+    .def_readonly("xn_b", &Booz_xform::xn_b, py::return_value_policy::copy, R"(
 (1D int array of length mnboz, output) Toroidal mode numbers for the
 output data. These values are all integer multiples of nfp.)")
 
-    .def_readonly("bmnc_b", &Booz_xform::bmnc_b, R"(
+    .def_readonly("bmnc_b", &Booz_xform::bmnc_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes of the magnetic field strength in Boozer
 coordinates.)")
 
-    .def_readonly("bmns_b", &Booz_xform::bmns_b, R"(
+    .def_readonly("bmns_b", &Booz_xform::bmns_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes of the magnetic field strength in Boozer
 coordinates. If the configuration is stellarator-symmetric, this
 quantity is zero so the array will have size 0 x 0.)")
 
-    .def_readonly("gmnc_b", &Booz_xform::gmnc_b, R"(
+    .def_readonly("gmnc_b", &Booz_xform::gmnc_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Jacobian of (psi, theta_B, zeta_B) coordinates.)")
 
-    .def_readonly("gmns_b", &Booz_xform::gmns_b, R"(
+    .def_readonly("gmns_b", &Booz_xform::gmns_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Jacobian of (psi, theta_B, zeta_B) coordinates. If the configuration is
 stellarator-symmetric, this quantity is zero so this array will have
 size 0 x 0.)")
 
-    .def_readonly("rmnc_b", &Booz_xform::rmnc_b, R"(
+    .def_readonly("rmnc_b", &Booz_xform::rmnc_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 major radius R of the flux surfaces.)")
 
-    .def_readonly("rmns_b", &Booz_xform::rmns_b, R"(
+    .def_readonly("rmns_b", &Booz_xform::rmns_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 major radius R of the flux surfaces. If the configuration is
 stellarator-symmetric, this quantity is zero so this array will have
 size 0 x 0.)")
 
-    .def_readonly("zmnc_b", &Booz_xform::zmnc_b, R"(
+    .def_readonly("zmnc_b", &Booz_xform::zmnc_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Cartesian coordinate Z of the flux surfaces. If the configuration is
 stellarator-symmetric, this quantity is zero so array will have size 0
 x 0.)")
 
-    .def_readonly("zmns_b", &Booz_xform::zmns_b, R"(
+    .def_readonly("zmns_b", &Booz_xform::zmns_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Cartesian coordinate Z of the flux surfaces.)")
 
-    .def_readonly("numnc_b", &Booz_xform::numnc_b, R"(
+    .def_readonly("numnc_b", &Booz_xform::numnc_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 toroidal angle difference nu = zeta_B - zeta_0. If the configuration
 is stellarator-symmetric, this quantity is zero so this array will
 have size 0 x 0.)")
 
-    .def_readonly("numns_b", &Booz_xform::numns_b, R"(
+    .def_readonly("numns_b", &Booz_xform::numns_b, py::return_value_policy::copy, R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 toroidal angle difference nu = zeta_B - zeta_0.)")
 
-    .def_readonly("Boozer_G", &Booz_xform::Boozer_G, R"(
+    .def_readonly("Boozer_G", &Booz_xform::Boozer_G, py::return_value_policy::copy, R"(
 (1D float array of length ns_b, output) Coefficient of grad zeta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on the magnetic surfaces used for output
 quantities.)")
 
-    .def_readonly("Boozer_G_all", &Booz_xform::Boozer_G_all, R"(
+    .def_readonly("Boozer_G_all", &Booz_xform::Boozer_G_all, py::return_value_policy::copy, R"(
 (1D float array of length ns_in, output) Coefficient of grad zeta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on all the magnetic surfaces for which
 input data was provided.)")
 
-    .def_readonly("Boozer_I", &Booz_xform::Boozer_I, R"(
+    .def_readonly("Boozer_I", &Booz_xform::Boozer_I, py::return_value_policy::copy, R"(
 (1D float array of length ns_b, output) Coefficient of grad theta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on the magnetic surfaces used for output
 quantities.)")
 
-    .def_readonly("Boozer_I_all", &Booz_xform::Boozer_I_all, R"(
+    .def_readonly("Boozer_I_all", &Booz_xform::Boozer_I_all, py::return_value_policy::copy, R"(
 (1D float array of length ns_in, output) Coefficient of grad theta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on all the magnetic surfaces for which
-- 
2.43.0


From 187905ce7e2a52cfd1c961c1cb42f4bd92b53509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 25/28] fix: draw no original coordinate curves without the
 input data in wireplot()

For a boozmn file they were all drawn at the origin.
---
 src/booz_xform/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..a82b872 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -475,8 +475,9 @@ def wireplot(b,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
 
-    # Also show curves along which the original angles are constant:
-    if orig:
+    # Also show curves along which the original angles are constant.
+    # (A boozmn_*.nc file does not contain the data for them.)
+    if orig and len(b.xm) > 0:
         js = b.compute_surfs[js]
         R = np.zeros_like(theta)
         Z = np.zeros_like(theta)
-- 
2.43.0


From 90623dc6e56c2ae4e0e4f4bc32571eedef61646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 26/28] fix: allow nmodes larger than the number of modes in
 modeplot()

---
 src/booz_xform/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index a82b872..5809623 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,8 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
-        index = indices[jmode]
+    for index in indices:
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
                  **kwargs)
-- 
2.43.0


From f9059185cdb03976a9261096f5e5b3cd0de439be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 27/28] fix: draw the curves in wireplot() for refine=1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 5809623..035e16b 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -461,7 +461,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -469,7 +469,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -502,7 +502,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -510,7 +510,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From c5c103cea99eb1852c85d5be2b0e8139acb91a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:38 +0000
Subject: [PATCH 28/28] fix: copy the arrays of results only once per plot

Each access to a result attribute makes a copy since the arrays returned
to Python own their data.
---
 src/booz_xform/plots.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 035e16b..1dae343 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -66,14 +66,16 @@ def surfplot(b,
     phi1d = np.linspace(0, 2 * np.pi / b.nfp, nphi)
     phi, theta = np.meshgrid(phi1d, theta1d)
 
+    # Each access to an array of results makes a copy of all of it.
+    xm_b, xn_b, bmnc_b, bmns_b = b.xm_b, b.xn_b, b.bmnc_b, b.bmns_b
     modB = np.zeros_like(phi)
-    for jmn in range(len(b.xm_b)):
-        m = b.xm_b[jmn]
-        n = b.xn_b[jmn]
+    for jmn in range(len(xm_b)):
+        m = xm_b[jmn]
+        n = xn_b[jmn]
         angle = m * theta - n * phi
-        modB += b.bmnc_b[jmn, js] * np.cos(angle)
+        modB += bmnc_b[jmn, js] * np.cos(angle)
         if b.asym:
-            modB += b.bmns_b[jmn, js] * np.sin(angle)
+            modB += bmns_b[jmn, js] * np.sin(angle)
 
     #plt.rcParams.update({'font.size': 16})
     if fill:
@@ -405,21 +407,25 @@ def wireplot(b,
     if js is None:
         js = b.ns_b - 1
 
+    # Each access to an array of results makes a copy of all of it.
+    xm_b, xn_b = b.xm_b, b.xn_b
+    rmnc_b, zmns_b, numns_b = b.rmnc_b, b.zmns_b, b.numns_b
+    rmns_b, zmnc_b, numnc_b = b.rmns_b, b.zmnc_b, b.numnc_b
     for jmn in range(b.mnboz):
-        m = b.xm_b[jmn]
-        n = b.xn_b[jmn]
+        m = xm_b[jmn]
+        n = xn_b[jmn]
         angle = m * theta - n * varphi
         sinangle = np.sin(angle)
         cosangle = np.cos(angle)
-        R += b.rmnc_b[jmn, js] * cosangle
-        Z += b.zmns_b[jmn, js] * sinangle
-        d_R_d_theta += -m * b.rmnc_b[jmn, js] * sinangle
-        d_Z_d_theta += m * b.zmns_b[jmn, js] * cosangle
-        nu += b.numns_b[jmn, js] * sinangle
+        R += rmnc_b[jmn, js] * cosangle
+        Z += zmns_b[jmn, js] * sinangle
+        d_R_d_theta += -m * rmnc_b[jmn, js] * sinangle
+        d_Z_d_theta += m * zmns_b[jmn, js] * cosangle
+        nu += numns_b[jmn, js] * sinangle
         if b.asym:
-            R += b.rmns_b[jmn, js] * sinangle
-            Z += b.zmnc_b[jmn, js] * cosangle
-            nu += b.numnc_b[jmn, js] * cosangle
+            R += rmns_b[jmn, js] * sinangle
+            Z += zmnc_b[jmn, js] * cosangle
+            nu += numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
     # Boozer toroidal angle to the standard toroidal angle, we
-- 
2.43.0

