From 953c3871fe37dd676c257a4296491f2c4bcf9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 01/28] fix: do not write past the poloidal trig tables when
 only m=0 is present

init_trig() filled the m=1 column even if mmax=0, in which case the
tables have only one column (mpol=1 or mpol_nyq=0).
---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From 00951a61f43e2695ef4c860bae097944ec0a12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 02/28] fix: verbose=2 diagnostics read past rmnc0 if ns<4 or
 mnmax<4

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..f91f232 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -185,11 +185,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From ffbffe11a4b4461b8560ed693b742e936ccbdc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 03/28] fix: radial extrapolation of m=1 modes read past the
 arrays when ns=2

---
 src/_booz_xform/init_from_vmec.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index f91f232..47db671 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -257,7 +257,16 @@ void Booz_xform::init_from_vmec(int ns,
 			      + zmnc0(j, k + 1) / sqrt_s_full[k + 1]) * sqrt_s_half[k];
 	}
       }
-      if (m == 1) {
+      if (m == 1 && ns == 2) {
+	// There is only one full grid point after s = 0, so take
+	// rmnc/sqrt(s) to be constant.
+	rmnc(j, 0) = rmnc0(j, 1) / sqrt_s_full[1] * sqrt_s_half[0];
+	zmns(j, 0) = zmns0(j, 1) / sqrt_s_full[1] * sqrt_s_half[0];
+	if (asym) {
+	  rmns(j, 0) = rmns0(j, 1) / sqrt_s_full[1] * sqrt_s_half[0];
+	  zmnc(j, 0) = zmnc0(j, 1) / sqrt_s_full[1] * sqrt_s_half[0];
+	}
+      } else if (m == 1) {
 	// For m=1, rmnc/sqrt(s) has a finite value at s = 0. Get this
 	// value by extrapolating from the values at the first two
 	// full grid points after s = 0.
-- 
2.43.0


From 6c17b0fe1875ed3bd4118bd11ed8117267335988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 04/28] fix: initialize all scalar members of Booz_xform

asym, nfp, mpol, ntor, mnmax, ns_in, ns_b, mnboz, toroidal_flux etc.
were left uninitialized by the constructor, so a new object showed
arbitrary values and run()/write_boozmn()/wireplot() could act on them.
---
 src/_booz_xform/booz_xform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..142ff71 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,18 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 0;
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From 2401b1368e4ad9d5a5cbcb6e79f3c8794e429211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 05/28] fix: check compute_surfs when it is used, not when it
 is about to be reset

init_from_vmec() validated the compute_surfs left over from the previous
equilibrium and then overwrote it, so loading a wout file with fewer
surfaces into an existing object failed, while run() read out of bounds
for a compute_surfs that really is out of range.
---
 src/_booz_xform/init.cpp           | 6 ++++++
 src/_booz_xform/init_from_vmec.cpp | 9 +++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..65a2509 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cassert>
+#include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
 #endif
@@ -29,6 +30,11 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  for (int k = 0; k < compute_surfs.size(); k++) {
+    if (compute_surfs[k] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[k] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns_in");
+  }
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 47db671..a912580 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -27,7 +27,6 @@ void Booz_xform::init_from_vmec(int ns,
         Vector& pres0,
         Vector& phi0) {
   int j, k;
-  ns_in = ns - 1;
 
   // Do some validation.
 
@@ -87,12 +86,10 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
+  // Done with validation. (compute_surfs is reset below; it is checked by
+  // run().)
 
-  // Done with validation.
+  ns_in = ns - 1;
 
   iota.resize(ns_in);
   for (j = 0; j < ns_in; j++)  {
-- 
2.43.0


From 9891fd975db2460ef0f817f0510435fab368051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 06/28] fix: asymmetric output arrays are 0 x 0 after a
 symmetric run

They kept the results of an earlier asymmetric calculation if the
object was reused.
---
 src/_booz_xform/init.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 65a2509..5f1416a 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -175,6 +175,13 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // Do not keep results of an earlier asymmetric calculation.
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From 4ca30574a38451ee5dbd0c40cc464eacfc25a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 07/28] fix: beta_b in boozmn files was uninitialized memory
 when fluxes are loaded

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From e8d493f0e0272e33dcda3e09a98f29b5407490fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 08/28] fix: run() raises an error if inputs are missing or
 inconsistent

Before, run() on an object without (or with inconsistently sized) input
data indexed out of bounds, typically ending in a segmentation fault.
---
 src/_booz_xform/init.cpp | 56 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 5f1416a..39ce44a 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -2,6 +2,7 @@
 #include <iomanip>
 #include <cassert>
 #include <stdexcept>
+#include <limits>
 #ifdef OPENMP
 #include <omp.h>
 #endif
@@ -23,6 +24,27 @@ int booz_xform::omp_max_threads() {
 #endif
 }
 
+namespace {
+  void require(bool condition, const char* message) {
+    if (!condition) throw std::runtime_error(message);
+  }
+
+  /** Check a list of input mode numbers against the declared ranges. */
+  void check_modes(const IntVector& xm, const IntVector& xn, int mnmax,
+		   int mmax, int nmax, int nfp, const char* message) {
+    require(xm.size() == mnmax && xn.size() == mnmax, message);
+    for (int j = 0; j < mnmax; j++) {
+      require(xm[j] >= 0 && xm[j] <= mmax && xn[j] % nfp == 0
+	      && xn[j] / nfp <= nmax && xn[j] / nfp >= -nmax, message);
+    }
+  }
+
+  /** Check the dimensions of an input array. */
+  void check_size(const Matrix& matrix, int rows, int cols, const char* message) {
+    require(matrix.rows() == rows && matrix.cols() == cols, message);
+  }
+}
+
 /** Initialize variables that are common to all surfaces that share
  *  the same (mpol, ntor) resolution.
  *
@@ -30,6 +52,36 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  // Make sure the input quantities are present and consistent.
+  require(nfp >= 1, "nfp must be at least 1");
+  require(mboz >= 1, "mboz must be at least 1");
+  require(nboz >= 0, "nboz cannot be negative");
+  require(mpol >= 1 && ntor >= 0, "mpol must be at least 1, and ntor cannot be negative");
+  require(mpol_nyq >= 0 && ntor_nyq >= 0, "mpol_nyq and ntor_nyq cannot be negative");
+  require(mnmax >= 1 && mnmax_nyq >= 1, "mnmax and mnmax_nyq must be at least 1");
+  require(ns_in >= 1, "ns_in must be at least 1");
+  check_modes(xm, xn, mnmax, mpol - 1, ntor, nfp,
+	      "xm and xn are not consistent with mnmax, mpol, ntor, and nfp");
+  check_modes(xm_nyq, xn_nyq, mnmax_nyq, mpol_nyq, ntor_nyq, nfp,
+	      "xm_nyq and xn_nyq are not consistent with mnmax_nyq, mpol_nyq, ntor_nyq, and nfp");
+  require(xm_nyq[0] == 0 && xn_nyq[0] == 0, "The first Nyquist mode must be m=n=0");
+  require(iota.size() == ns_in, "iota must have size ns_in");
+  // s_in is not needed for the transformation, so it may be missing.
+  require(s_in.size() == ns_in || s_in.size() == 0, "s_in must have size ns_in");
+  check_size(rmnc, mnmax, ns_in, "rmnc must have size mnmax x ns_in");
+  check_size(zmns, mnmax, ns_in, "zmns must have size mnmax x ns_in");
+  check_size(lmns, mnmax, ns_in, "lmns must have size mnmax x ns_in");
+  check_size(bmnc, mnmax_nyq, ns_in, "bmnc must have size mnmax_nyq x ns_in");
+  check_size(bsubumnc, mnmax_nyq, ns_in, "bsubumnc must have size mnmax_nyq x ns_in");
+  check_size(bsubvmnc, mnmax_nyq, ns_in, "bsubvmnc must have size mnmax_nyq x ns_in");
+  if (asym) {
+    check_size(rmns, mnmax, ns_in, "rmns must have size mnmax x ns_in");
+    check_size(zmnc, mnmax, ns_in, "zmnc must have size mnmax x ns_in");
+    check_size(lmnc, mnmax, ns_in, "lmnc must have size mnmax x ns_in");
+    check_size(bmns, mnmax_nyq, ns_in, "bmns must have size mnmax_nyq x ns_in");
+    check_size(bsubumns, mnmax_nyq, ns_in, "bsubumns must have size mnmax_nyq x ns_in");
+    check_size(bsubvmns, mnmax_nyq, ns_in, "bsubvmns must have size mnmax_nyq x ns_in");
+  }
   for (int k = 0; k < compute_surfs.size(); k++) {
     if (compute_surfs[k] < 0) throw std::runtime_error("compute_surfs cannot be negative");
     if (compute_surfs[k] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns_in");
@@ -150,7 +202,9 @@ void Booz_xform::init() {
   */
   ns_b = compute_surfs.size();
   s_b.resize(ns_b);
-  for (j = 0; j < ns_b; j++) s_b[j] = s_in[compute_surfs[j]];
+  for (j = 0; j < ns_b; j++) {
+    s_b[j] = (s_in.size() > 0) ? s_in[compute_surfs[j]] : std::numeric_limits<boozfloat>::quiet_NaN();
+  }
   Boozer_I.setZero(ns_b);
   Boozer_G.setZero(ns_b);
   Boozer_I_all.setZero(ns_in);
-- 
2.43.0


From 17f42812ec26751c260b44ab824d8021aeabe015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 09/28] fix: write_boozmn() raises an error if there are no
 matching results

Calling it before run(), or with a different number of compute_surfs
than in the last run(), wrote uninitialized or out-of-bounds memory.
---
 src/_booz_xform/write_boozmn.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 543e53b..527a1d6 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <vector>
+#include <stdexcept>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
 
@@ -7,6 +8,21 @@ using namespace booz_xform;
 
 void Booz_xform::write_boozmn(std::string filename) {
   int j;
+
+  // Make sure results of a transformation are available, before an
+  // existing file is overwritten.
+  if (ns_b < 1 || compute_surfs.size() != ns_b
+      || xm_b.size() != mnboz || xn_b.size() != mnboz
+      || iota.size() != ns_in || Boozer_I_all.size() != ns_in || Boozer_G_all.size() != ns_in
+      || bmnc_b.rows() != mnboz || bmnc_b.cols() != ns_b
+      || (asym && (bmns_b.rows() != mnboz || bmns_b.cols() != ns_b))) {
+    throw std::runtime_error("There are no results to write that match the present inputs. Call run() before write_boozmn().");
+  }
+  if (phip.size() != 0 && (phip.size() != ns_in + 1 || chi.size() != ns_in + 1
+			   || pres.size() != ns_in + 1 || phi.size() != ns_in + 1)) {
+    throw std::runtime_error("phip, chi, pres, and phi must all have size ns_in + 1");
+  }
+
   if (verbose > 0) std::cout << "Writing output to " << filename << std::endl;
   NetCDFWriter nc(filename);
 
-- 
2.43.0


From 1d9ffb36e0f0963993d6cd9c11d41990adb7398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 10/28] fix: close NetCDF files when reading or writing fails

If an exception was thrown, the file was never closed, leaking a file
descriptor and the memory of the NetCDF library on every failure.
---
 src/_booz_xform/netcdf_reader.cpp | 12 +++++++++++-
 src/_booz_xform/netcdf_reader.hpp |  4 ++++
 src/_booz_xform/netcdf_writer.cpp |  7 +++++++
 src/_booz_xform/netcdf_writer.hpp |  4 ++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..cc90522 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -10,9 +10,18 @@ booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
   int retval;
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
+  is_open = true;
   // Get the number of dimensions, variables, etc:
-  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid)))
+  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
+    // The destructor does not run if the constructor throws.
+    nc_close(ncid);
     ERR(retval, filename);
+  }
+}
+
+/** Close the file if an exception prevented close() from being called. */
+booz_xform::NetCDFReader::~NetCDFReader() {
+  if (is_open) nc_close(ncid);
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
@@ -82,5 +91,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..ddd5ab4 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -10,10 +10,14 @@ namespace booz_xform {
   class NetCDFReader {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
+    bool is_open = false;
     static void ERR(int, std::string);
     
   public:
     NetCDFReader(std::string);
+    ~NetCDFReader();
+    NetCDFReader(const NetCDFReader&) = delete;
+    NetCDFReader& operator=(const NetCDFReader&) = delete;
 
     size_t getdim(std::string);
     
diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index dca832a..87b9290 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -19,6 +19,12 @@ booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
   if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  is_open = true;
+}
+
+/** Close the file if an exception prevented write_and_close() from finishing. */
+booz_xform::NetCDFWriter::~NetCDFWriter() {
+  if (is_open) nc_abort(ncid);
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -163,6 +169,7 @@ void booz_xform::NetCDFWriter::write_and_close() {
   }
   
   // Close the file
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 28730e0..09c133c 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -26,6 +26,7 @@ namespace booz_xform {
   class NetCDFWriter {
   private:
     int ncid;
+    bool is_open = false;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
@@ -34,6 +35,9 @@ namespace booz_xform {
     
   public:
     NetCDFWriter(std::string);
+    ~NetCDFWriter();
+    NetCDFWriter(const NetCDFWriter&) = delete;
+    NetCDFWriter& operator=(const NetCDFWriter&) = delete;
     dim_id_type dim(std::string, int);
     void add_attribute(int, std::string, std::string);
     
-- 
2.43.0


From 74cea753d0d087274e220eeb925040908b669255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 11/28] fix: do not overflow arrays when reading inconsistent
 NetCDF files

nc_get_var was called without checking that the variable in the file has
the size of the destination.
---
 src/_booz_xform/netcdf_reader.cpp | 55 +++++++++++++++++++------------
 src/_booz_xform/netcdf_reader.hpp |  1 +
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index cc90522..39fb60b 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <stdexcept>
+#include <vector>
 #include <netcdf.h>
 #include "vector_matrix.hpp"
 #include "netcdf_reader.hpp"
@@ -30,6 +31,28 @@ void booz_xform::NetCDFReader::ERR(int e, std::string details) {
   throw std::runtime_error(nc_strerror(e));
 }
 
+/** Get the ID of a variable, making sure the number of values in the
+    file is the number of values there is space for.
+ */
+int booz_xform::NetCDFReader::inq_var(std::string varname, size_t expected_size) {
+  int var_id, n_var_dims, retval;
+  if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
+    ERR(retval, varname);
+  if ((retval = nc_inq_varndims(ncid, var_id, &n_var_dims)))
+    ERR(retval, varname);
+  std::vector<int> dim_ids(n_var_dims + 1); // +1 so &dim_ids[0] exists for scalars
+  if ((retval = nc_inq_vardimid(ncid, var_id, &dim_ids[0])))
+    ERR(retval, varname);
+  size_t size = 1, dimval;
+  for (int j = 0; j < n_var_dims; j++) {
+    if ((retval = nc_inq_dimlen(ncid, dim_ids[j], &dimval)))
+      ERR(retval, varname);
+    size *= dimval;
+  }
+  if (size != expected_size) ERR(NC_EEDGE, varname);
+  return var_id;
+}
+
 size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   int dim_id, retval;
   size_t dimval;
@@ -41,50 +64,40 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
 }
 
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
-  int var_id, retval;
-  if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
-    ERR(retval, varname);
+  int var_id = inq_var(varname, 1), retval;
   if ((retval = nc_get_var_int(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
 void booz_xform::NetCDFReader::get(std::string varname, boozfloat& var) {
-  int var_id, retval;
-  if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
-    ERR(retval, varname);
+  int var_id = inq_var(varname, 1), retval;
   if ((retval = nc_get_var_double(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the Vector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The Vector must already have been sized to the correct dimension. If
+    not, an exception is thrown.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Vector& var) {
-  int var_id, retval;
-  if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
-    ERR(retval, varname);
+  int var_id = inq_var(varname, var.size()), retval;
   if ((retval = nc_get_var_double(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the IntVector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The IntVector must already have been sized to the correct dimension. If
+    not, an exception is thrown.
  */
 void booz_xform::NetCDFReader::get(std::string varname, IntVector& var) {
-  int var_id, retval;
-  if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
-    ERR(retval, varname);
+  int var_id = inq_var(varname, var.size()), retval;
   if ((retval = nc_get_var_int(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the matrix has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The matrix must already have been sized to the correct dimension. If
+    not, an exception is thrown.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
-  int var_id, retval;
-  if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
-    ERR(retval, varname);
+  int var_id = inq_var(varname, var.size()), retval;
   if ((retval = nc_get_var_double(ncid, var_id, &var(0,0))))
     ERR(retval, varname);
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index ddd5ab4..c66eeed 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -12,6 +12,7 @@ namespace booz_xform {
     int ncid, ndims, nvars, ngatts, unlimdimid;
     bool is_open = false;
     static void ERR(int, std::string);
+    int inq_var(std::string, size_t);
     
   public:
     NetCDFReader(std::string);
-- 
2.43.0


From 7e163bcb8772474828622f79b42cc74f4d478b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 12/28] fix: reject wout dimensions of zero before they are
 used

nfp=0 in a wout file was an integer division by zero (SIGFPE), and
ns, mnmax or mnmax_nyq < 1 indexed outside of empty arrays.
---
 src/_booz_xform/init_from_vmec.cpp | 2 ++
 src/_booz_xform/read_wout.cpp      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index a912580..63e9bb8 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -40,6 +40,8 @@ void Booz_xform::init_from_vmec(int ns,
       if (pres0.size() != ns) throw std::runtime_error("pres0.size() is not ns");
       if (phi0.size() != ns) throw std::runtime_error("phi0.size() is not ns");
   }
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
   if (xn.size() != mnmax) throw std::runtime_error("Size of xn is not mnmax");
   if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..72f28cb 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -26,6 +26,10 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   nc.get("mnmax", mnmax);
   nc.get("mnmax_nyq", mnmax_nyq);
   nc.get("aspect", aspect);
+  if (ns < 2) throw std::runtime_error("ns must be at least 2");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
 
   Vector phip0;
   Vector chi0;
-- 
2.43.0


From 3547553aec1075bb43dc90e9aab1e38a28fade34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 13/28] fix: chi was uninitialized memory for boozmn files
 without chi_b

Also, only the absence of chi_b is tolerated, not every error when
reading it.
---
 src/_booz_xform/netcdf_reader.cpp | 8 ++++++++
 src/_booz_xform/netcdf_reader.hpp | 1 +
 src/_booz_xform/read_boozmn.cpp   | 6 ++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 39fb60b..fdd5a6a 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -53,6 +53,14 @@ int booz_xform::NetCDFReader::inq_var(std::string varname, size_t expected_size)
   return var_id;
 }
 
+/** Whether the file contains a variable with the given name. */
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id, retval;
+  retval = nc_inq_varid(ncid, varname.c_str(), &var_id);
+  if (retval != NC_NOERR && retval != NC_ENOTVAR) ERR(retval, varname);
+  return retval == NC_NOERR;
+}
+
 size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   int dim_id, retval;
   size_t dimval;
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index c66eeed..f6c1b4f 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -21,6 +21,7 @@ namespace booz_xform {
     NetCDFReader& operator=(const NetCDFReader&) = delete;
 
     size_t getdim(std::string);
+    bool has(std::string);
     
     // Scalars:
     void get(std::string, int&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..2736f2f 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -47,9 +47,11 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
-  try {
+  // chi_b is not present in files from the fortran version.
+  if (nc.has("chi_b")) {
       nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
+  } else {
+      chi.setZero();
   }
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
-- 
2.43.0


From 43029c5a2fab1a60be821385fce7f11344d8cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 14/28] fix: read_boozmn() sets aspect, Boozer_G, and Boozer_I

These outputs kept their previous values (aspect=0 and empty arrays for
a new object) although the file contains them.
---
 src/_booz_xform/read_boozmn.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 2736f2f..888249c 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -19,6 +19,8 @@ void Booz_xform::read_boozmn(std::string filename) {
   asym = (bool) asym_int;
 
   nc.get("nfp_b", nfp);
+  aspect = 0;
+  if (nc.has("aspect_b")) nc.get("aspect_b", aspect);
 
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
@@ -70,7 +72,17 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("jlist", compute_surfs);
   // Fortran jlist is 1-based and includes an extra 1 from the 0 at
   // the first entry of half-grid quantities. compute_surfs is 0-based.
-  for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
+  for (j = 0; j < ns_b; j++) {
+    compute_surfs[j] -= 2;
+    if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
+      throw std::runtime_error("jlist has an entry that is out of range");
+  }
+  Boozer_G.resize(ns_b);
+  Boozer_I.resize(ns_b);
+  for (j = 0; j < ns_b; j++) {
+    Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
+    Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
+  }
   if (verbose > 0) std::cout << "Read compute_surfs=" << compute_surfs << std::endl;
 
   bmnc_b.resize(mnboz, ns_b);
-- 
2.43.0


From f76fba3f5594902d1c8589b489a09fb73c748dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 15/28] fix: arrays obtained in python are not views of memory
 that can be freed

The array attributes were non-owning views of the Eigen arrays, so an
array obtained from a Booz_xform object changed at the next run(), or
referred to freed memory once the object's array was resized. Return
read-only copies.
---
 src/_booz_xform/bindings.cpp | 102 +++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/src/_booz_xform/bindings.cpp b/src/_booz_xform/bindings.cpp
index 28a3b91..ae4f508 100644
--- a/src/_booz_xform/bindings.cpp
+++ b/src/_booz_xform/bindings.cpp
@@ -1,3 +1,4 @@
+#include <functional>
 #include <iostream>
 #include <pybind11/pybind11.h>
 #include <pybind11/eigen.h>
@@ -8,6 +9,27 @@ namespace py = pybind11;
 using namespace booz_xform;
 using namespace pybind11::literals; // For documenting function arguments
 
+namespace {
+  /** Arrays are copied to python, since the memory of the Eigen arrays
+   *  can be freed or overwritten, e.g. by the next run(). The copies are
+   *  flagged as read-only, so assigning to their elements is an error
+   *  rather than having no effect on the Booz_xform object.
+   */
+  template <class T>
+  std::function<py::array(const Booz_xform&)> array_getter(T Booz_xform::*member) {
+    return [member](const Booz_xform& booz) {
+      py::array array = py::cast(booz.*member, py::return_value_policy::copy);
+      array.attr("setflags")("write"_a=false);
+      return array;
+    };
+  }
+
+  template <class T>
+  std::function<void(Booz_xform&, const T&)> array_setter(T Booz_xform::*member) {
+    return [member](Booz_xform& booz, const T& value) { booz.*member = value; };
+  }
+}
+
 PYBIND11_MODULE(_booz_xform, m) {
   m.doc() = "Transformation to Boozer coordinates";
 
@@ -142,21 +164,21 @@ input arrays bmnc, bmns, bsubumnc, bsubumns, bsubvmnc, and bsubvmns.)")
 (int, input) Total number of Fourier modes for the input arrays
 bmnc, bmns, bsubumnc, bsubumns, bsubvmnc, and bsubvmns.)")
 
-    .def_readwrite("xm", &Booz_xform::xm, R"(
+    .def_property("xm", array_getter(&Booz_xform::xm), array_setter(&Booz_xform::xm), R"(
 (1D integer array of length mnmax, input) The poloidal Fourier mode
 numbers for the input arrays rmnc, rmns, zmnc, zmns, lmnc, and lmns.)")
 
-    .def_readwrite("xn", &Booz_xform::xn, R"(
+    .def_property("xn", array_getter(&Booz_xform::xn), array_setter(&Booz_xform::xn), R"(
 (1D integer array of length mnmax, input) The toroidal Fourier mode
 numbers for the input arrays rmnc, rmns, zmnc, zmns, lmnc, and
 lmns. The values should all be integer multiples of nfp.)")
 
-    .def_readwrite("xm_nyq", &Booz_xform::xm_nyq, R"(
+    .def_property("xm_nyq", array_getter(&Booz_xform::xm_nyq), array_setter(&Booz_xform::xm_nyq), R"(
 (1D integer array of length mnmax_nyq, input) The poloidal Fourier
 mode numbers for the input arrays bmnc, bmns, bsubumnc, bsubumns,
 bsubvmnc, and bsubvmns.)")
 
-    .def_readwrite("xn_nyq", &Booz_xform::xn_nyq, R"(
+    .def_property("xn_nyq", array_getter(&Booz_xform::xn_nyq), array_setter(&Booz_xform::xn_nyq), R"(
 (1D integer array of length mnmax_nyq, input) The toroidal Fourier
 mode numbers for the input arrays bmnc, bmns, bsubumnc, bsubumns,
 bsubvmnc, and bsubvmns. The values should all be integer multiples of
@@ -168,93 +190,93 @@ supplied. The transformation to Boozer coordinates is not necessarily
 run on all of these surfaces, only the ones indicated by
 compute_surfs.)")
 
-    .def_readwrite("s_in", &Booz_xform::s_in, R"(
+    .def_property("s_in", array_getter(&Booz_xform::s_in), array_setter(&Booz_xform::s_in), R"(
 (1D float array of length ns_in, input) The values of normalized
 toroidal flux s for the input data. Here, s is the toroidal flux
 normalized to the value at the plasma boundary. This information is
 not needed for the coordinate transformation itself, but is useful for
 plotting output.)")
 
-    .def_readwrite("iota", &Booz_xform::iota, R"(
+    .def_property("iota", array_getter(&Booz_xform::iota), array_setter(&Booz_xform::iota), R"(
 (1D float array of length ns_in, input) Rotational transform on the
 input radial surfaces.)")
 
-    .def_readwrite("phi", &Booz_xform::phi, R"(
+    .def_property("phi", array_getter(&Booz_xform::phi), array_setter(&Booz_xform::phi), R"(
 (1D float array of length ns_vmec, input) Toroidal flux (not divided by 2*pi),
 on vmec's full grid.)")
 
-    .def_readwrite("chi", &Booz_xform::chi, R"(
+    .def_property("chi", array_getter(&Booz_xform::chi), array_setter(&Booz_xform::chi), R"(
 (1D float array of length ns_vmec, input) Poloidal flux (not divided by 2*pi),
 on vmec's full grid.)")
 
-    .def_readwrite("phip", &Booz_xform::phip, R"(
+    .def_property("phip", array_getter(&Booz_xform::phip), array_setter(&Booz_xform::phip), R"(
 (1D float array of length ns_vmec, input) Derivative of toroidal flux (divided by (-2*pi)) with respect to s,
 on vmec's full grid.)")
 
-    .def_readwrite("pres", &Booz_xform::pres, R"(
+    .def_property("pres", array_getter(&Booz_xform::pres), array_setter(&Booz_xform::pres), R"(
 (1D float array of length ns_vmec, input) Pressure on full vmec grid.)")
 
-    .def_readwrite("rmnc", &Booz_xform::rmnc, R"(
+    .def_property("rmnc", array_getter(&Booz_xform::rmnc), array_setter(&Booz_xform::rmnc), R"(
 (2D float array of size mnmax x ns_in, input) cos(m * theta_0 - n *
 zeta_0) Fourier modes of the major radius R.)")
 
-    .def_readwrite("rmns", &Booz_xform::rmns, R"(
+    .def_property("rmns", array_getter(&Booz_xform::rmns), array_setter(&Booz_xform::rmns), R"(
 (2D float array of size mnmax x ns_in, input) sin(m * theta_0 - n *
 zeta_0) Fourier modes of the major radius R of the flux surfaces. For
 stellarator-symmetric configurations, this array is not used and need
 not be specified.)")
 
-    .def_readwrite("zmnc", &Booz_xform::zmnc, R"(
+    .def_property("zmnc", array_getter(&Booz_xform::zmnc), array_setter(&Booz_xform::zmnc), R"(
 (2D float array of size mnmax x ns_in, input) cos(m * theta_0 - n *
 zeta_0) Fourier modes of the Cartesian coordinate Z of the flux
 surfaces. For stellarator-symmetric configurations, this array is not
 used and need not be specified.)")
 
-    .def_readwrite("zmns", &Booz_xform::zmns, R"(
+    .def_property("zmns", array_getter(&Booz_xform::zmns), array_setter(&Booz_xform::zmns), R"(
 (2D float array of size mnmax x ns_in, input) sin(m * theta_0 - n *
 zeta_0) Fourier modes of the Cartesian coordinate Z of the flux
 surfaces.)")
 
-    .def_readwrite("lmnc", &Booz_xform::lmnc, R"(
+    .def_property("lmnc", array_getter(&Booz_xform::lmnc), array_setter(&Booz_xform::lmnc), R"(
 (2D float array of size mnmax_nyq x ns_in, input) cos(m * theta_0 - n
 * zeta_0) Fourier modes of lambda = theta^* - theta_0, the difference
 between the original poloidal angle theta_0 and the straight field
 line poloidal angle theta^*. For stellarator-symmetric configurations,
 this array is not used and need not be specified.)")
 
-    .def_readwrite("lmns", &Booz_xform::lmns, R"(
+    .def_property("lmns", array_getter(&Booz_xform::lmns), array_setter(&Booz_xform::lmns), R"(
 (2D float array of size mnmax_nyq x ns_in, input) sin(m * theta_0 - n
 * zeta_0) Fourier modes of lambda = theta^* - theta_0, the difference
 between the original poloidal angle theta_0 and the straight field
 line poloidal angle theta^*.)")
 
-    .def_readwrite("bmnc", &Booz_xform::bmnc, R"(
+    .def_property("bmnc", array_getter(&Booz_xform::bmnc), array_setter(&Booz_xform::bmnc), R"(
 (2D float array of size mnmax_nyq x ns_in, input) cos(m * theta_0 - n *
 zeta_0) Fourier modes of the magnetic field strength B.)")
 
-    .def_readwrite("bmns", &Booz_xform::bmns, R"(
+    .def_property("bmns", array_getter(&Booz_xform::bmns), array_setter(&Booz_xform::bmns), R"(
 (2D float array of size mnmax_nyq x ns_in, input) sin(m * theta_0 - n
 * zeta_0) Fourier modes of the magnetic field strength B.  For
 stellarator-symmetric configurations, this array is not used and need
 not be specified.)")
 
-    .def_readwrite("bsubumnc", &Booz_xform::bsubumnc, R"(
+    .def_property("bsubumnc", array_getter(&Booz_xform::bsubumnc), array_setter(&Booz_xform::bsubumnc), R"(
 (2D float array of size mnmax_nyq x ns_in, input) cos(m * theta_0 -
 n * zeta_0) Fourier modes of B dot (d r / d theta_0) where r is the
 position vector.)")
 
-    .def_readwrite("bsubumns", &Booz_xform::bsubumns, R"(
+    .def_property("bsubumns", array_getter(&Booz_xform::bsubumns), array_setter(&Booz_xform::bsubumns), R"(
 (2D float array of size mnmax_nyq x ns_in, input) sin(m * theta_0 -
 n * zeta_0) Fourier modes of B dot (d r / d theta_0) where r is the
 position vector.  For stellarator-symmetric configurations, this array
 is not used and need not be specified.)")
 
-    .def_readwrite("bsubvmnc", &Booz_xform::bsubvmnc, R"(
+    .def_property("bsubvmnc", array_getter(&Booz_xform::bsubvmnc), array_setter(&Booz_xform::bsubvmnc), R"(
 (2D float array of size mnmax_nyq x ns_in, input) cos(m * theta_0 -
 n * zeta_0) Fourier modes of B dot (d r / d zeta_0) where r is the
 position vector.)")
 
-    .def_readwrite("bsubvmns", &Booz_xform::bsubvmns, R"(
+    .def_property("bsubvmns", array_getter(&Booz_xform::bsubvmns), array_setter(&Booz_xform::bsubvmns), R"(
 (2D float array of size mnmax_nyq x ns_in, input) sin(m * theta_0 -
 n * zeta_0) Fourier modes of B dot (d r / d zeta_0) where r is the
 position vector.  For stellarator-symmetric configurations, this array
@@ -270,7 +292,7 @@ representing output quantities in Boozer coordinates. For example, if
 nboz=2 and nfp=10, the toroidal modes used will be n=-20, -10, 0, 10,
 20.)")
 
-    .def_readwrite("compute_surfs", &Booz_xform::compute_surfs, R"(
+    .def_property("compute_surfs", array_getter(&Booz_xform::compute_surfs), array_setter(&Booz_xform::compute_surfs), R"(
 (1D integer array, input) Indices of ns_in-sized radial arrays,
 specifying the flux surfaces for which the transformation to Boozer
 coordinates will be performed. All values should be >= 0 and < ns_in.
@@ -295,99 +317,99 @@ equilibrium to booz_xform output files.)")
 (int, output) Number of flux surfaces on which output data are
 available.)")
 
-    .def_readonly("s_b", &Booz_xform::s_b, R"(
+    .def_property_readonly("s_b", array_getter(&Booz_xform::s_b), R"(
 (1D float array of length ns_b, output) Values of normalized
 toroidal flux s defining the magnetic surfaces for the output data.)")
 
     .def_readonly("mnboz", &Booz_xform::mnboz, R"(
 (int, output) Total number of Fourier modes for output data.)")
 
-    .def_readonly("xm_b", &Booz_xform::xm_b, R"(
+    .def_property_readonly("xm_b", array_getter(&Booz_xform::xm_b), R"(
 (1D int array of length mnboz, output) Poloidal mode numbers for the
 output data.)")
 
-    .def_readonly("xn_b", &Booz_xform::xn_b, R"(
+    .def_property_readonly("xn_b", array_getter(&Booz_xform::xn_b), R"(
 (1D int array of length mnboz, output) Toroidal mode numbers for the
 output data. These values are all integer multiples of nfp.)")
 
-    .def_readonly("bmnc_b", &Booz_xform::bmnc_b, R"(
+    .def_property_readonly("bmnc_b", array_getter(&Booz_xform::bmnc_b), R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes of the magnetic field strength in Boozer
 coordinates.)")
 
-    .def_readonly("bmns_b", &Booz_xform::bmns_b, R"(
+    .def_property_readonly("bmns_b", array_getter(&Booz_xform::bmns_b), R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes of the magnetic field strength in Boozer
 coordinates. If the configuration is stellarator-symmetric, this
 quantity is zero so the array will have size 0 x 0.)")
 
-    .def_readonly("gmnc_b", &Booz_xform::gmnc_b, R"(
+    .def_property_readonly("gmnc_b", array_getter(&Booz_xform::gmnc_b), R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Jacobian of (psi, theta_B, zeta_B) coordinates.)")
 
-    .def_readonly("gmns_b", &Booz_xform::gmns_b, R"(
+    .def_property_readonly("gmns_b", array_getter(&Booz_xform::gmns_b), R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Jacobian of (psi, theta_B, zeta_B) coordinates. If the configuration is
 stellarator-symmetric, this quantity is zero so this array will have
 size 0 x 0.)")
 
-    .def_readonly("rmnc_b", &Booz_xform::rmnc_b, R"(
+    .def_property_readonly("rmnc_b", array_getter(&Booz_xform::rmnc_b), R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 major radius R of the flux surfaces.)")
 
-    .def_readonly("rmns_b", &Booz_xform::rmns_b, R"(
+    .def_property_readonly("rmns_b", array_getter(&Booz_xform::rmns_b), R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 major radius R of the flux surfaces. If the configuration is
 stellarator-symmetric, this quantity is zero so this array will have
 size 0 x 0.)")
 
-    .def_readonly("zmnc_b", &Booz_xform::zmnc_b, R"(
+    .def_property_readonly("zmnc_b", array_getter(&Booz_xform::zmnc_b), R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Cartesian coordinate Z of the flux surfaces. If the configuration is
 stellarator-symmetric, this quantity is zero so array will have size 0
 x 0.)")
 
-    .def_readonly("zmns_b", &Booz_xform::zmns_b, R"(
+    .def_property_readonly("zmns_b", array_getter(&Booz_xform::zmns_b), R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 Cartesian coordinate Z of the flux surfaces.)")
 
-    .def_readonly("numnc_b", &Booz_xform::numnc_b, R"(
+    .def_property_readonly("numnc_b", array_getter(&Booz_xform::numnc_b), R"(
 (2D float array of size mnboz x ns_b, output) cos(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 toroidal angle difference nu = zeta_B - zeta_0. If the configuration
 is stellarator-symmetric, this quantity is zero so this array will
 have size 0 x 0.)")
 
-    .def_readonly("numns_b", &Booz_xform::numns_b, R"(
+    .def_property_readonly("numns_b", array_getter(&Booz_xform::numns_b), R"(
 (2D float array of size mnboz x ns_b, output) sin(m * theta_B - n *
 zeta_B) Fourier modes (with respect to Boozer coordinates) of the
 toroidal angle difference nu = zeta_B - zeta_0.)")
 
-    .def_readonly("Boozer_G", &Booz_xform::Boozer_G, R"(
+    .def_property_readonly("Boozer_G", array_getter(&Booz_xform::Boozer_G), R"(
 (1D float array of length ns_b, output) Coefficient of grad zeta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on the magnetic surfaces used for output
 quantities.)")
 
-    .def_readonly("Boozer_G_all", &Booz_xform::Boozer_G_all, R"(
+    .def_property_readonly("Boozer_G_all", array_getter(&Booz_xform::Boozer_G_all), R"(
 (1D float array of length ns_in, output) Coefficient of grad zeta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on all the magnetic surfaces for which
 input data was provided.)")
 
-    .def_readonly("Boozer_I", &Booz_xform::Boozer_I, R"(
+    .def_property_readonly("Boozer_I", array_getter(&Booz_xform::Boozer_I), R"(
 (1D float array of length ns_b, output) Coefficient of grad theta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on the magnetic surfaces used for output
 quantities.)")
 
-    .def_readonly("Boozer_I_all", &Booz_xform::Boozer_I_all, R"(
+    .def_property_readonly("Boozer_I_all", array_getter(&Booz_xform::Boozer_I_all), R"(
 (1D float array of length ns_in, output) Coefficient of grad theta_B
 in the covariant representation of the magnetic field vector B in
 Boozer coordinates, evaluated on all the magnetic surfaces for which
-- 
2.43.0


From 39c65b8824551e0f1eb2b2224e8c3c83d8a057f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/28] fix: modeplot failed if nmodes exceeds the number of
 modes available

---
 src/booz_xform/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..4550222 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,8 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
-        index = indices[jmode]
+    for index in indices:
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
                  **kwargs)
-- 
2.43.0


From 93bed47e5dd9ad2c8e1495411ecbc9334fa9e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 17/28] fix: wireplot shifted the surface along a wrong normal
 if asym

The poloidal derivatives of R and Z lacked the asymmetric terms.
---
 src/booz_xform/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 4550222..bb6aaaa 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -419,6 +419,8 @@ def wireplot(b,
         if b.asym:
             R += b.rmns_b[jmn, js] * sinangle
             Z += b.zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
             nu += b.numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
-- 
2.43.0


From cf7043bacb7b06517770be9944dbad350c2f48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 18/28] fix: wireplot of a boozmn file drew the original angles
 at the origin

The input arrays are not available if results were read from a file.
---
 src/booz_xform/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index bb6aaaa..ce7fe39 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -476,8 +476,9 @@ def wireplot(b,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
 
-    # Also show curves along which the original angles are constant:
-    if orig:
+    # Also show curves along which the original angles are constant. (The
+    # original surface shapes are not available in boozmn files.)
+    if orig and b.rmnc.size > 0:
         js = b.compute_surfs[js]
         R = np.zeros_like(theta)
         Z = np.zeros_like(theta)
-- 
2.43.0


From 5320b3906f795591b0ace7b233fd53472755c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 19/28] fix: symplot legend picked modes of the wrong class or
 out of range

With helical_detail the modes n=+-nfp*m were shown as 'Other helical',
without it they were not used for the 'Helical' legend entry, and the
modes drawn for the legend were not restricted to max_m and max_n.
---
 src/booz_xform/plots.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index ce7fe39..26b71d5 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -172,44 +172,47 @@ def symplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
+    def included(imode):
+        return np.abs(b.xm_b[imode]) <= max_m and np.abs(b.xn_b[imode]) <= max_n * b.nfp
+
     # First, plot just the 1st mode of each type, so the legend looks nice.
     if B0:
         for imode in range(mnmax):
-            if b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
+            if included(imode) and b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=background_color,
                              label='m = 0, n = 0 (Background)', **kwargs)
                 break
     for imode in range(mnmax):
-        if b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
+        if included(imode) and b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
             plt.plot(rad, my_abs(data[imode, :]), color=QA_color,
                          label=r'm $\ne$ 0, n = 0 (Quasiaxisymmetric)', **kwargs)
             break
     for imode in range(mnmax):
-        if b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
+        if included(imode) and b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
             plt.plot(rad, my_abs(data[imode, :]), color=mirror_color,
                          label=r'm = 0, n $\ne$ 0 (Mirror)', **kwargs)
             break
 
     if helical_detail:
         for imode in range(mnmax):
-            if b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
+            if included(imode) and b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_plus_color,
                              label=r'n = n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
+            if included(imode) and b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_minus_color,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if included(imode) and b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if included(imode) and b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0


From 7874e0eeb6b67ae24f7f6a036dc8fc164def04ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 20/28] fix: plots copy each array of the Booz_xform object
 only once

Follow-up to the array attributes being copies: avoid copying the whole
array for every mode in surfplot and wireplot.
---
 src/booz_xform/plots.py | 54 ++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 26b71d5..29167ee 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -66,14 +66,17 @@ def surfplot(b,
     phi1d = np.linspace(0, 2 * np.pi / b.nfp, nphi)
     phi, theta = np.meshgrid(phi1d, theta1d)
 
+    # Each access to an array of b makes a copy, so do this only once:
+    xm_b, xn_b, bmnc_b, bmns_b = b.xm_b, b.xn_b, b.bmnc_b, b.bmns_b
+
     modB = np.zeros_like(phi)
-    for jmn in range(len(b.xm_b)):
-        m = b.xm_b[jmn]
-        n = b.xn_b[jmn]
+    for jmn in range(len(xm_b)):
+        m = xm_b[jmn]
+        n = xn_b[jmn]
         angle = m * theta - n * phi
-        modB += b.bmnc_b[jmn, js] * np.cos(angle)
+        modB += bmnc_b[jmn, js] * np.cos(angle)
         if b.asym:
-            modB += b.bmns_b[jmn, js] * np.sin(angle)
+            modB += bmns_b[jmn, js] * np.sin(angle)
 
     #plt.rcParams.update({'font.size': 16})
     if fill:
@@ -408,23 +411,28 @@ def wireplot(b,
     if js is None:
         js = b.ns_b - 1
 
+    # Each access to an array of b makes a copy, so do this only once:
+    xm_b, xn_b = b.xm_b, b.xn_b
+    rmnc_b, zmns_b, numns_b = b.rmnc_b, b.zmns_b, b.numns_b
+    rmns_b, zmnc_b, numnc_b = b.rmns_b, b.zmnc_b, b.numnc_b
+
     for jmn in range(b.mnboz):
-        m = b.xm_b[jmn]
-        n = b.xn_b[jmn]
+        m = xm_b[jmn]
+        n = xn_b[jmn]
         angle = m * theta - n * varphi
         sinangle = np.sin(angle)
         cosangle = np.cos(angle)
-        R += b.rmnc_b[jmn, js] * cosangle
-        Z += b.zmns_b[jmn, js] * sinangle
-        d_R_d_theta += -m * b.rmnc_b[jmn, js] * sinangle
-        d_Z_d_theta += m * b.zmns_b[jmn, js] * cosangle
-        nu += b.numns_b[jmn, js] * sinangle
+        R += rmnc_b[jmn, js] * cosangle
+        Z += zmns_b[jmn, js] * sinangle
+        d_R_d_theta += -m * rmnc_b[jmn, js] * sinangle
+        d_Z_d_theta += m * zmns_b[jmn, js] * cosangle
+        nu += numns_b[jmn, js] * sinangle
         if b.asym:
-            R += b.rmns_b[jmn, js] * sinangle
-            Z += b.zmnc_b[jmn, js] * cosangle
-            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
-            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
-            nu += b.numnc_b[jmn, js] * cosangle
+            R += rmns_b[jmn, js] * sinangle
+            Z += zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * zmnc_b[jmn, js] * sinangle
+            nu += numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
     # Boozer toroidal angle to the standard toroidal angle, we
@@ -487,15 +495,17 @@ def wireplot(b,
         Z = np.zeros_like(theta)
         phi = varphi
         
+        xm, xn = b.xm, b.xn
+        rmnc, zmns, rmns, zmnc = b.rmnc, b.zmns, b.rmns, b.zmnc
         for jmn in range(b.mnmax):
-            angle = b.xm[jmn] * theta - b.xn[jmn] * phi
+            angle = xm[jmn] * theta - xn[jmn] * phi
             sinangle = np.sin(angle)
             cosangle = np.cos(angle)
-            R += b.rmnc[jmn, js] * cosangle
-            Z += b.zmns[jmn, js] * sinangle
+            R += rmnc[jmn, js] * cosangle
+            Z += zmns[jmn, js] * sinangle
             if b.asym:
-                R += b.rmns[jmn, js] * sinangle
-                Z += b.zmnc[jmn, js] * cosangle
+                R += rmns[jmn, js] * sinangle
+                Z += zmnc[jmn, js] * cosangle
                 
         X = R * np.cos(phi)
         Y = R * np.sin(phi)
-- 
2.43.0


From 19e039b7696327f55d3b9d510fe20d576dc70564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 21/28] fix: the python xbooz_xform reads input files like the
 C++ driver

Entries such as '3.5', '5,10' or '1_000' were split differently from
the C++ >> operators, so the two drivers transformed different
surfaces, and the console output at the end of the file differed.
---
 src/booz_xform/_cli.py | 51 ++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/booz_xform/_cli.py b/src/booz_xform/_cli.py
index 95008ba..3b9b242 100644
--- a/src/booz_xform/_cli.py
+++ b/src/booz_xform/_cli.py
@@ -13,6 +13,7 @@ Source checkouts still get the C++ executable from ``cmake --build . --target
 xbooz_xform``; the two are interchangeable.
 """
 
+import re
 import sys
 
 from . import Booz_xform, __version__
@@ -42,41 +43,57 @@ where NS is the VMEC input parameter. You can omit <compute_surfs> from the inpu
 in which case the transformation will be performed on all half-grid surfaces."""
 
 
+# What the C++ >> operator extracts for an int and a string: leading whitespace
+# is skipped, and reading an int stops at the first character which cannot be
+# part of it, so the rest of a token such as "3.5" or "5,10" is read next.
+_INT = re.compile(r"[ \t\n\v\f\r]*([+-]?[0-9]+)")
+_STRING = re.compile(r"[ \t\n\v\f\r]*([^ \t\n\v\f\r]+)")
+
+
+def _read_int(contents, position):
+    """Extract an int like C++ does. Returns (value, new_position), where value
+    is None if there is no int at this position, or it does not fit in a C++ int.
+    """
+    match = _INT.match(contents, position)
+    if match is None or not -2**31 <= int(match.group(1)) < 2**31:
+        return None, position
+    return int(match.group(1)), match.end()
+
+
 def _parse_input_file(filename):
     """Read an in_booz-style input file.
 
     Returns (mboz, nboz, extension, compute_surfs).  Whitespace and line breaks
     are handled the same way as the C++ ``>>`` extraction operators, i.e. all
-    tokens are read in order and newlines are not significant.
+    values are read in order and newlines are not significant.
     """
-    with open(filename) as f:
-        tokens = f.read().split()
-
-    if len(tokens) < 3:
-        raise RuntimeError(
-            "Unable to read mboz, nboz, and extension from " + filename
-        )
+    with open(filename, newline="", errors="surrogateescape") as f:
+        contents = f.read()
 
-    try:
-        mboz, nboz = int(tokens[0]), int(tokens[1])
-    except ValueError:
+    mboz, position = _read_int(contents, 0)
+    if mboz is not None:
+        nboz, position = _read_int(contents, position)
+    if mboz is None or nboz is None:
         raise RuntimeError("Unable to read mboz and nboz")
     print("Read mboz = {}, nboz = {}".format(mboz, nboz))
 
-    extension = tokens[2]
+    match = _STRING.match(contents, position)
+    if match is None:
+        raise RuntimeError("Unable to read extension")
+    extension, position = match.group(1), match.end()
     print("Read extension =", extension)
 
-    # As in driver.cpp, reading stops at the first token that is not an integer
+    # As in driver.cpp, reading stops at the first entry that is not an integer
     # rather than being treated as an error.
     compute_surfs = []
-    for token in tokens[3:]:
-        try:
-            value = int(token)
-        except ValueError:
+    while True:
+        value, position = _read_int(contents, position)
+        if value is None:
             print("Unable to read more.")
             break
         print("Read value", value)
         compute_surfs.append(value)
+    print("Read compute_surfs =" + "".join(" {}".format(s) for s in compute_surfs))
 
     return mboz, nboz, extension, compute_surfs
 
-- 
2.43.0


From 2d17e1a83ac536288eb5ac4dd418ff70da4d64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 22/28] fix: verbose=2 output of different threads could be
 interleaved

---
 src/_booz_xform/surface_solve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index e037a2c..c5d8a39 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -17,7 +17,11 @@ void Booz_xform::surface_solve(int js_b) {
   int js = compute_surfs[js_b];
   // js is the 0-based radial index into the input data arrays
   // js_b is the 0-based index among the subset of surfaces on which the transformation is done.
-  if (verbose > 1) std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  if (verbose > 1) {
+    // Only 1 thread should print at a time:
+    #pragma omp critical
+    std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  }
 
   int jmn, m, n, abs_n, j;
 
-- 
2.43.0


From 107b3ca3ce516a5ac80ce36ccc7fb1d183caca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 23/28] fix: read_boozmn() rejects files in which ns_b is not
 the radial dimension

---
 src/_booz_xform/read_boozmn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 888249c..3872642 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -123,6 +123,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   // Set up the s grid for output quantites.
   int ns_vmec;
   nc.get("ns_b", ns_vmec);
+  if (ns_vmec != radius) throw std::runtime_error("ns_b does not match the radius dimension");
   boozfloat hs = 1.0 / (ns_vmec - 1.0);
   s_b.resize(ns_b);
   for (j = 0; j < ns_b; j++) s_b[j] = hs * (compute_surfs[j] + 0.5);
-- 
2.43.0


From 577bc0f34a223bb60be09f6edd289d50676e6478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 24/28] fix: read_boozmn() does not resize arrays to a negative
 mnboz_b

---
 src/_booz_xform/read_boozmn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 3872642..eebe9d8 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -25,6 +25,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
+  if (mnboz < 1) throw std::runtime_error("mnboz_b must be at least 1");
 
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
-- 
2.43.0


From 5aa2846632d60a28d48978d3896fd6785a62ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 25/28] fix: write_boozmn() reports failures to write the
 buffered data

nc_close() ignores errors of its final writes, so a failure of the last
write() resulted in an incomplete boozmn file without any exception.
---
 src/_booz_xform/netcdf_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index 87b9290..8ecfb12 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -168,6 +168,10 @@ void booz_xform::NetCDFWriter::write_and_close() {
     }
   }
   
+  // nc_close() does not report errors in writing the buffered data (e.g. if
+  // the disk is full), so write this data first:
+  if ((retval = nc_sync(ncid))) ERR(retval);
+
   // Close the file
   is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
-- 
2.43.0


From 4609d9fc30a303fafc51ab7f296d9dfc7aaf3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 26/28] fix: console output of the python xbooz_xform was out
 of order in files and pipes

---
 src/booz_xform/_cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/booz_xform/_cli.py b/src/booz_xform/_cli.py
index 3b9b242..28c5e5d 100644
--- a/src/booz_xform/_cli.py
+++ b/src/booz_xform/_cli.py
@@ -13,11 +13,17 @@ Source checkouts still get the C++ executable from ``cmake --build . --target
 xbooz_xform``; the two are interchangeable.
 """
 
+import functools
 import re
 import sys
 
 from . import Booz_xform, __version__
 
+# The extension module writes directly to the standard output of the process, so
+# unless everything printed here is flushed, the order of the lines is wrong when
+# the output is sent to a file or pipe.
+print = functools.partial(print, flush=True)
+
 USAGE = """Usage:  xbooz_xform <inputfile>
 
 Where <inputfile> is a text file with 2 or 3 lines, formatted as follows:
-- 
2.43.0


From 4ab2d7c866ad0b20f74f0b824260476f053d02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 27/28] fix: wireplot drew no curves if refine=1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 29167ee..54244b3 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -474,7 +474,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -482,7 +482,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -517,7 +517,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -525,7 +525,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From e6256f10de5e811499df544cfd021cd01e39c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 28/28] fix: accuracy table joined the js_b and js columns for
 surfaces 1000 and up

---
 src/_booz_xform/check_accuracy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/check_accuracy.cpp b/src/_booz_xform/check_accuracy.cpp
index aa13ae8..ed400fa 100644
--- a/src/_booz_xform/check_accuracy.cpp
+++ b/src/_booz_xform/check_accuracy.cpp
@@ -127,7 +127,7 @@ void Booz_xform::check_accuracy(int js, int js_b,
   {
   std::cout << std::setprecision(3) << std::scientific
 	    << std::setw(4) << thread << std::setw(6) << js_b
-	    << std::setw(4) << js
+	    << ' ' << std::setw(3) << js
 	    << "   0" << std::setprecision(3) << std::scientific
 	    << std::setw(11) << bmod_vmec[0]
 	    << std::setw(11) << bmod_boozer[0]
-- 
2.43.0

