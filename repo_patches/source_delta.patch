From bc34fb2744fbfd73d39872fb668c3c576f2840b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 01/46] fix: release all rows of HarmonicCoeffs after resize
 and move assignment

---
 src/gravity/harmonic_coeffs.cpp   | 12 ++++++++++--
 src/harmonic_coeffs.hpp           |  1 +
 var/icgem/src/harmonic_coeffs.cpp |  3 +++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..ec898f2 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -8,12 +8,13 @@ double *dso::HarmonicCoeffs::allocate() noexcept {
   m_data = new double *[m_degree + 1];
   for (int i = 0; i <= m_degree; i++)
     m_data[i] = new double[m_degree + 1];
+  m_capacity = m_degree;
   return m_data[0];
 }
 
 int dso::HarmonicCoeffs::deallocate() noexcept {
   if (m_data) {
-    for (int i = 0; i <= m_degree; i++)
+    for (int i = 0; i <= m_capacity; i++)
       delete[] m_data[i];
     delete[] m_data;
   }
@@ -21,7 +22,7 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
+    if (m_data && degree <= m_capacity) {
       m_degree = degree;
     } else {
       deallocate();
@@ -35,22 +36,29 @@ void dso::HarmonicCoeffs::resize(int degree) noexcept {
 dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
   this->deallocate();
   this->m_degree = h.m_degree;
+  this->m_capacity = h.m_capacity;
   this->m_data = h.m_data;
   this->_GM = h._GM;
   this->_Re = h._Re;
   this->_cnormalized = h._cnormalized;
   h.m_degree = 0;
+  h.m_capacity = 0;
   h.m_data = nullptr;
 }
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
+  this->m_capacity = h.m_capacity;
   this->m_data = h.m_data;
   this->_GM = h._GM;
   this->_Re = h._Re;
   this->_cnormalized = h._cnormalized;
   h.m_degree = 0;
+  h.m_capacity = 0;
   h.m_data = nullptr;
   return *this;
 }
diff --git a/src/harmonic_coeffs.hpp b/src/harmonic_coeffs.hpp
index 3f82235..bfee0d3 100644
--- a/src/harmonic_coeffs.hpp
+++ b/src/harmonic_coeffs.hpp
@@ -56,6 +56,7 @@ public:
   double _Re{0e0}; ///< reference radius of the spherical harmonic development
   bool _cnormalized{true};  ///< coefficients are normaliized (?)
   int m_degree{0};          ///< maximum degree
+  int m_capacity{0};        ///< degree for which m_data is allocated
   double **m_data{nullptr}; ///< the actual data/coefficients
 
   /// @brief allocate memory to hold the data.
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..4fcbfa2 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -30,6 +30,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   h.m_degree = 0;
-- 
2.43.0


From 97166950b9a6a5ed46716640bbf5e1afa6ccd71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 02/46] fix: ICGEM parsing: bounds of degree/order, last line
 without newline, exact header values

---
 src/gravity/icgemio_rddata.cpp   | 22 +++++++++++++++-------
 src/gravity/icgemio_rdhead.cpp   | 19 ++++++++++++-------
 var/icgem/src/icgemio_rddata.cpp | 22 +++++++++++++++-------
 var/icgem/src/icgemio_rdhead.cpp | 19 ++++++++++++-------
 4 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..81d1084 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -70,16 +70,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // we will set them to some random value, so that if at the end of parsing
   // we are missing exactly two values and the C_10 and C_11 have the values
   // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  if (l >= 1) {
+    coeffs->C(1, 0) = -999e0;
+    coeffs->C(1, 1) = -999e0;
+  }
 
   char line[max_data_line], *end, *start;
   int ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
-  fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -105,6 +106,15 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      // degree/order pair must be valid, it is used to index the coefficients
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
@@ -139,14 +149,12 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         }
       }
     }
-
-    fin.getline(line, max_data_line);
   }
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
+    if (l >= 1 && coeffs_to_read - coeffs_read == 2 &&
         (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..0c7a6bc 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -55,14 +55,14 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   // does the line start with the parameter_name string ?
   if (!std::strncmp(line, parameter_name, psz)) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz + (line[psz] != '\0'));
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
     if (!start || !stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -104,7 +104,8 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      std::memcpy(product_type, keyword, keyword_size);
+      product_type[keyword_size] = '\0';
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -117,7 +118,8 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      std::memcpy(modelname, keyword, keyword_size);
+      modelname[keyword_size] = '\0';
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -191,7 +193,8 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      std::memcpy(errors, keyword, keyword_size);
+      errors[keyword_size] = '\0';
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -204,7 +207,8 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      std::memcpy(tide_system, keyword, keyword_size);
+      tide_system[keyword_size] = '\0';
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -217,7 +221,8 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      std::memcpy(norm, keyword, keyword_size);
+      norm[keyword_size] = '\0';
     }
 
     fin.getline(buf, bsz);
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..f400ae6 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -62,16 +62,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // we will set them to some random value, so that if at the end of parsing
   // we are missing exactly two values and the C_10 and C_11 have the values
   // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  if (l >= 1) {
+    coeffs->C(1, 0) = -999e0;
+    coeffs->C(1, 1) = -999e0;
+  }
 
   char line[max_data_line], *end, *start;
   int ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
-  fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -97,6 +98,15 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      // degree/order pair must be valid, it is used to index the coefficients
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
@@ -131,14 +141,12 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         }
       }
     }
-
-    fin.getline(line, max_data_line);
   }
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
+    if (l >= 1 && coeffs_to_read - coeffs_read == 2 &&
         (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..b941095 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -41,13 +41,13 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
   if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz + (line[psz] != '\0'));
     const char *stop = next_ws_char(start);
     if (!start || !stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
@@ -85,7 +85,8 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      std::memcpy(product_type, keyword, keyword_size);
+      product_type[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -97,7 +98,8 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      std::memcpy(modelname, keyword, keyword_size);
+      modelname[keyword_size] = '\0';
     }
 
     keyword =
@@ -167,7 +169,8 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      std::memcpy(errors, keyword, keyword_size);
+      errors[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -179,7 +182,8 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      std::memcpy(tide_system, keyword, keyword_size);
+      tide_system[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -191,7 +195,8 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      std::memcpy(norm, keyword, keyword_size);
+      norm[keyword_size] = '\0';
     }
 
     fin.getline(buf, bsz);
-- 
2.43.0


From 3046dfb5919e022ab01038d0499b273d7dd48e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 03/46] fix: Mat2D copies, moves and mirrored triangular access

---
 src/cmat2d.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..c95c8a4 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -69,7 +69,7 @@ template <> struct StorageImplementation<MatrixStorageType::Trapezoid> {
   /// E.g. data[element_offset(1,2)] will return the element in the second row,
   /// and third column.
   constexpr int element_offset(int row, int column) const noexcept {
-    return (column <= rows) ? (slice(row) + column) : (slice(column) + row);
+    return (column <= row) ? (slice(row) + column) : (slice(column) + row);
   }
 
 #ifdef DEBUG
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || (num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -255,10 +255,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From a6e21d980051f10af14ea03cd8a91813686424ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 04/46] fix: factorialRatio for ratios below one

---
 src/factorial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorial.hpp b/src/factorial.hpp
index 95bf004..f83fd51 100644
--- a/src/factorial.hpp
+++ b/src/factorial.hpp
@@ -23,7 +23,7 @@ constexpr T factorialRatio() noexcept {
   T fact = (T)1;
   for (int i = minInt + 1; i <= maxInt; i++)
     fact *= (T)i;
-  return fact;
+  return (Nominator >= Denominator) ? fact : (T)1 / fact;
 } // factorialRatio
 
 template <typename T>
@@ -35,7 +35,7 @@ constexpr T factorialRatio(int Nominator, int Denominator) noexcept {
   T fact = (T)1;
   for (int i = minInt + 1; i <= maxInt; i++)
     fact *= (T)i;
-  return fact;
+  return (Nominator >= Denominator) ? fact : (T)1 / fact;
 } // factorialRatio
 
 }//dso
-- 
2.43.0


From 2e60553999c0192340873fbc8e025a16d347a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 05/46] fix: http_get checks the final flush and leaves files
 it could not open

---
 src/web/http_get.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..2c31d76 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -60,12 +60,12 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
-    //  close the header file
-    fclose(pagefile);
-  }
+    //  close the header file; a failure here means data were not written
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+    // remove the opened but incomplete file in case of error
+    if (status != CURLE_OK) remove(local);
+  }
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From 7e388a3811a265e0260d742c3a41b7aae3d0338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 06/46] fix: enum_bitset.hpp includes initializer_list

---
 src/enum_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/enum_bitset.hpp b/src/enum_bitset.hpp
index a0e1fef..5d12155 100644
--- a/src/enum_bitset.hpp
+++ b/src/enum_bitset.hpp
@@ -1,6 +1,7 @@
 #ifndef __DSO_ENUM_CLASS_BITSET_HPP__
 #define __DSO_ENUM_CLASS_BITSET_HPP__
 
+#include <initializer_list>
 #include <type_traits>
 #include <vector>
 
-- 
2.43.0


From 64d3f1276d717ec58480fd951ea8c7531da3c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 07/46] fix: partials of the gravity acceleration: degree-order
 one terms, symmetry, order zero

---
 src/gravity/gravity_acceleration.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..9206109 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -104,15 +104,20 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
   double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdz_m1(0e0), daydz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; i <= degree && order > 0; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    daxdz_m1 += 0.5e0 * ((double)i * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) -
+                         fac * (i + 2) * Cn1 * V(i + 2, 0));
+    daydz_m1 += 0.5e0 * ((double)i * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) -
+                         fac * (i + 2) * Sn1 * V(i + 2, 0));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -203,14 +208,14 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // Sum-up partial derivatives, column-wise
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2; // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
+  partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
-- 
2.43.0


From e2180842c6c32f92e28c9fa62c1f396b56e120f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 08/46] fix: point-mass partials use the satellite-body
 distance

---
 src/gravity/point_mass_acceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
-- 
2.43.0


From f57fe01228b80363e5e5e9983694d8f4f48df582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 09/46] fix: solid harmonics: degree zero, row-wise sectorials,
 no side effect inside assert

---
 src/egravity.hpp              |  8 ++++++--
 src/gravity/lagrange_poly.cpp | 16 ++++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..c9225ba 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int error = dso::lagrange_polynomials(
+      pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -188,7 +190,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() == degree + 3 && V.cols() == order + 3);
   assert(W.rows() == degree + 3 && W.cols() == order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int error = dso::lagrange_polynomials(
+      pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..4a1e821 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
-- 
2.43.0


From 912f40cbf75e83f5b26bd1513e6c1f8ab656cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 10/46] fix: third row of the perifocal rotation matrix

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From 43957264c900591edeb65d9e5b97d2697cbc0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 11/46] fix: conical shadow distance behind the Earth is
 positive

---
 src/astrodynamics/occultation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..991134c 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -24,7 +24,7 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
   const double cosz = product / (r * s);
   const double zeta = std::acos(cosz);
   const double sinz = std::sin(zeta);
-  const double sath = r * cosz;
+  const double sath = -r * cosz;
   const double satv = r * sinz;
   constexpr const double sinApen = (iers2010::Rs + iers2010::Re) / iers2010::AU;
   constexpr const double Apen = /*std::asin(sinApen);*/ gcem::asin(sinApen);
-- 
2.43.0


From 6af69d567b52a4813d794654c46894b261b2a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 12/46] fix: drag acceleration does not keep references to
 temporaries

---
 src/astrodynamics/drag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..34c30ca 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,12 +26,12 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
-  const auto vabs = vrel.norm();
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
+  const double vabs = vrel.norm();
 
   // Acceleration
   Eigen::Matrix<double, 3, 1> acc =
-- 
2.43.0


From 23edcd434888c5b025c48c21bfc1511716053ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 13/46] fix: element conversions: rotation order and radial
 velocity term

---
 src/astrodynamics/state2kepler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..6a80eb5 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -79,17 +79,17 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
-                    Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+  Eigen::Matrix3d R(Eigen::AngleAxisd(Omega, Eigen::Vector3d::UnitZ()) *
+                    Eigen::AngleAxisd(i, Eigen::Vector3d::UnitX()) *
+                    Eigen::AngleAxisd(omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
   //printf("xAngle %+10.5f yAngle %+10.5f zAngle %+10.5f\n", dso::rad2deg(Omega), dso::rad2deg(i), dso::rad2deg(omega));
 
   // rotate to get equatorial, aka geocentric/(quasi-)inertial
-  Y.block<3,1>(0,0) = R.transpose() * Y.block<3,1>(0,0);
-  Y.block<3,1>(3,0) = R.transpose() * Y.block<3,1>(3,0);
+  Y.block<3,1>(0,0) = R * Y.block<3,1>(0,0);
+  Y.block<3,1>(3,0) = R * Y.block<3,1>(3,0);
   //printf("inertial coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                      v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
   return Y;
@@ -194,7 +194,7 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const double e = std::sqrt(1e0 - (p / a));
   keplerian[3] = e;
 
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
+  const double E = atan2(r.dot_product(v) / (a * a * n), 1e0 - rmag / a);
   const double sE = std::sin(E);
   // const double M = E - e * sE;
 
-- 
2.43.0


From 67fd4b3adbf717823b77d7dc301f6253aea0b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 14/46] fix: RKF45 step-size exponents, state addressed by
 component, flags initialised

---
 var/ode_solvers/rkf45.hpp      | 3 ++-
 var/ode_solvers/rkf45_rkfs.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/var/ode_solvers/rkf45.hpp b/var/ode_solvers/rkf45.hpp
index 54e799d..6f06f5c 100644
--- a/var/ode_solvers/rkf45.hpp
+++ b/var/ode_solvers/rkf45.hpp
@@ -16,7 +16,8 @@ typedef void (*ODEfun)(double x,                 // Independent variable
 class RKF45 {
 public:
   RKF45(ODEfun _f, int _neqn, double rerr, double aerr, void *_params = nullptr)
-      : f(_f), neqn(_neqn), iflag(1), relerr(rerr), abserr(aerr),
+      : f(_f), neqn(_neqn), iflag(1), jflag(0), kflag(0), nfe(0), kop(0), init(0),
+        relerr(rerr), abserr(aerr), h(0e0), savae(aerr), savre(rerr),
         params(_params) {
     F  = Eigen::MatrixXd(neqn,5);
     yp = Eigen::VectorXd(neqn);
diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..58cf1ed 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 2e-1);
       }
     }
   }
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 2e-1);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 2e-1);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From cf7dadb87e90a36ad5ded43680e8328688f4be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 15/46] fix: multistep integrator: step failure handling,
 propagated roundoff term, restart state

---
 src/integrators/sgode.hpp      | 5 +++--
 src/integrators/sgode_de.cpp   | 6 +++---
 src/integrators/sgode_step.cpp | 9 ++++-----
 var/ode_solvers/sgode.hpp      | 5 +++--
 var/ode_solvers/sgode_de.cpp   | 6 +++---
 var/ode_solvers/sgode_step.cpp | 9 ++++-----
 6 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/integrators/sgode.hpp b/src/integrators/sgode.hpp
index 1adaa71..a7986cb 100644
--- a/src/integrators/sgode.hpp
+++ b/src/integrators/sgode.hpp
@@ -10,8 +10,9 @@ class SGOde {
 public:
   SGOde(ODEfun _f, int _neqn, double rerr, double aerr,
         dso::IntegrationParameters *_params = nullptr)
-      : f(_f), neqn(_neqn), iflag(1), relerr(rerr), abserr(aerr),
-        params(_params) {
+      : f(_f), neqn(_neqn), iflag(1), start(0), phase1(0), nornd(0), isnold(1),
+        kold(0), k(0), ns(0), h(0e0), hold(0e0), x(0e0), told(0e0), delsgn(0e0),
+        relerr(rerr), abserr(aerr), params(_params) {
     Phi = Eigen::MatrixXd(neqn, 16);
     ArraysNeqn = Eigen::MatrixXd(neqn, 5); // wt, p, ypout, yp, yy
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..4c28b59 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..2e49133 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), *params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -302,7 +301,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -344,7 +343,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
     // non-debug mode.
     // Don't have a fucking clue why!!!
     // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode.hpp b/var/ode_solvers/sgode.hpp
index a443edb..4921949 100644
--- a/var/ode_solvers/sgode.hpp
+++ b/var/ode_solvers/sgode.hpp
@@ -16,8 +16,9 @@ typedef void (*ODEfun)(double x,                 // Independent variable
 class SGOde {
 public:
   SGOde(ODEfun _f, int _neqn, double rerr, double aerr, void *_params = nullptr)
-      : f(_f), neqn(_neqn), iflag(1), relerr(rerr), abserr(aerr),
-        params(_params) {
+      : f(_f), neqn(_neqn), iflag(1), start(0), phase1(0), nornd(0), isnold(1),
+        kold(0), k(0), ns(0), h(0e0), hold(0e0), x(0e0), told(0e0), delsgn(0e0),
+        relerr(rerr), abserr(aerr), params(_params) {
     Phi  = Eigen::MatrixXd(neqn,16);
     ArraysNeqn = Eigen::MatrixXd(neqn,5); // wt, p, ypout, yp, yy
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..5052b42 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..256b898 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -296,7 +295,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -331,7 +330,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From 352004d99ac93db5af5c89372ddd0b9e110e0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 16/46] fix: ICGEM data: a repeated line does not stand in for
 a missing coefficient

---
 src/gravity/icgemio_rddata.cpp   | 7 ++++++-
 var/icgem/src/icgemio_rddata.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index 81d1084..ae6324a 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -79,6 +80,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   int ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
+  // degree/order pairs already parsed; a repeated line is not a new coefficient
+  std::vector<char> parsed((std::size_t)(l + 1) * (l + 2) / 2, 0);
 
   while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
@@ -141,7 +144,9 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        char &have = parsed[(std::size_t)ll * (ll + 1) / 2 + mm];
+        coeffs_read += !have;
+        have = 1;
         if (mm == 0) {
           assert(Slm == 0e0);
         } else {
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index f400ae6..4892a28 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -71,6 +72,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   int ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
+  // degree/order pairs already parsed; a repeated line is not a new coefficient
+  std::vector<char> parsed((std::size_t)(l + 1) * (l + 2) / 2, 0);
 
   while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
@@ -133,7 +136,9 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        char &have = parsed[(std::size_t)ll * (ll + 1) / 2 + mm];
+        coeffs_read += !have;
+        have = 1;
         if (mm == 0) {
           assert(Slm == 0e0);
         } else {
-- 
2.43.0


From f216b39ba616f8728b116d3052813e5c87ad7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 17/46] fix: DORIS RINEX data records: omitted observations,
 trimmed and truncated lines

---
 src/rinex/doris_rinex.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index ffcd2e2..3d7e6ce 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -153,7 +153,12 @@ int dso::DorisObsRinex::read_data_block(
     while (curobs < (int)m_obs_codes.size()) {
       // should we change/get the next line ?
       if (!(curobs % 5)) {
-        m_stream.getline(line, MAX_RECORD_CHARS);
+        if (!m_stream.getline(line, MAX_RECORD_CHARS))
+          return 1;
+        // trailing blanks may be omitted from the line; restore them, so that
+        // we never resolve leftovers of previous lines
+        const std::size_t line_sz = std::strlen(line);
+        std::memset(line + line_sz, ' ', sizeof(line) - line_sz);
         // if this is the first data line for the beacon, get its code
         if (!curline) {
           if ((*line) != 'D')
@@ -189,7 +194,9 @@ int dso::DorisObsRinex::read_data_block(
       // index of the observable. If no scale factor for the observable exists,
       // then the m_obs_scale_factors should have an '1' in the corresponding
       // index
-      val /= m_obs_scale_factors[curobs];
+      // (values marked as missing are not scaled)
+      if (val != OBSERVATION_VALUE_MISSING)
+        val /= m_obs_scale_factors[curobs];
       obsvec_it->m_values.emplace_back(val, flagm1, flagm2);
       ++curobs;
     }
-- 
2.43.0


From 1f26ecc32913bdcc19a9c6d91f2462bf4487959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 18/46] fix: DORIS RINEX header: optional and repeated scale
 factors, stale errno

---
 src/doris/doris_system_info.cpp |  1 +
 src/doris_rinex.hpp             |  2 +-
 src/rinex/read_rnx_header.cpp   | 17 ++++++++++-------
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index f1e9633..126d66c 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -103,6 +103,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
   std::memcpy(m_station_name, line + 10, sizeof m_station_name);
   std::memcpy(m_station_domes, line + 40, sizeof m_station_domes);
   char *end;
+  errno = 0;
   m_type = std::strtol(line + 50, &end, 10);
   if (errno || end == line + 50) {
     errno = 0;
diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 63416cb..e521832 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -144,7 +144,7 @@ dso::datetime<dso::nanoseconds> m_time_ref_stat;
 /// date of the 2GHz phase measurement in microseconds. Positive if the 
 /// measurement of phase 400 MHz is performed after the measurement of phase 
 /// 2 GHz
-double m_l12_date_offset;
+double m_l12_date_offset{0e0};
 /// Epoch, code, and phase are corrected by applying the realtime-derived 
 /// receiver clock offset: 1=yes, 0=no; default: 0=no
 bool rcv_clock_offs_appl{false};
diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 04455f4..2887fb1 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -17,7 +17,7 @@
 /// str="                       ", from=22, return value=0
 /// str=" a                     ", from=22, return value=2
 int count_length_reverse(const char *str, int from) noexcept {
-  while (*(str + from) == ' ' && from >= 0)
+  while (from >= 0 && *(str + from) == ' ')
     --from;
   return ++from;
 }
@@ -177,6 +177,10 @@ int dso::DorisObsRinex::read_header() noexcept {
           return 114;
         }
       }
+      // create a vector of 1's with a size equal to m_obs_codes. the two
+      // vectors will have a one-to-one correspondance; factors other than 1
+      // are (optionally) given in SYS / SCALE FACTOR records
+      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
 
     } else if (!std::strncmp(line + 60, "TIME OF FIRST OBS", 17)) {
       // TIME OF FIRST OBS; get m_time_of_first_obs and validate time system
@@ -198,11 +202,10 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
-      if (!m_obs_scale_factors.empty())
-        m_obs_scale_factors.clear();
-      // create a vector of 1's with a size equal to m_obs_codes. the two
-      // vectors will have a one-to-one correspondance
-      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+      // note that there may be more than one records (one per factor), hence
+      // do not alter factors already set
+      if (m_obs_scale_factors.size() != m_obs_codes.size())
+        m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
       int factor = std::strtol(line + 2, &end, 10);
       if (!factor || (errno || end == line + 2)) {
         errno = 0;
@@ -327,7 +330,7 @@ int dso::DorisObsRinex::read_header() noexcept {
 
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              19)) { // Code: 210
-
+      errno = 0;
       int rcv_clock_offs_appl_int = -99;
       rcv_clock_offs_appl_int = std::strtol(line, &end, 10);
       if ((errno || end == line) ||
-- 
2.43.0


From ba0f01e5c89a6478d0a3052b9440933ce48fc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 19/46] fix: DORIS RINEX epochs: optional clock offset and flag
 on trimmed lines

---
 src/rinex/doris_rinex.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index 3d7e6ce..c4d93b7 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -248,6 +248,11 @@ int dso::DorisObsRinex::resolve_data_epoch(
   if (*line != '>')
     return 1; // must start with '>' character
 
+  // epoch flag and number of stations are mandatory
+  const std::size_t line_sz = std::strlen(line);
+  if (line_sz < 37)
+    return 3;
+
   char *end;
   int status = 0;
 
@@ -284,9 +289,11 @@ int dso::DorisObsRinex::resolve_data_epoch(
     status = status ? status : 4;
   }
 
+  // the receiver clock offset and its flag are optional; they may be blank, or
+  // missing altogether (note that the line may be trimmed)
   bool has_clock_offset = false;
-  for (int i = 0; i < 13; i++) {
-    if (*(line + 43 + i) != ' ') {
+  for (std::size_t i = 43; i < 43 + 13 && i < line_sz; i++) {
+    if (*(line + i) != ' ') {
       has_clock_offset = true;
       break;
     }
@@ -301,9 +308,20 @@ int dso::DorisObsRinex::resolve_data_epoch(
     hdr.m_clock_offset = RECEIVER_CLOCK_OFFSET_MISSING;
   }
 
-  hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
-  if (errno || end == line + 56) {
-    errno = 0;
+  bool has_clock_flag = false;
+  for (std::size_t i = 56; i < 56 + 3 && i < line_sz; i++) {
+    if (*(line + i) != ' ')
+      has_clock_flag = true;
+  }
+  hdr.m_clock_flag = 0;
+  if (has_clock_flag) {
+    hdr.m_clock_flag =
+        static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
+    if (errno || end == line + 56) {
+      errno = 0;
+      status = status ? status : 6;
+    }
+  } else if (has_clock_offset) {
     status = status ? status : 6;
   }
 
-- 
2.43.0


From 1647fb39face0328eea7c93118bf389187336037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 20/46] fix: RFO fit: averaging of the last values, every=1,
 time scale, dangling LDLT

---
 src/rinex/fit_rfo.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 7879a49..fbe25f8 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -32,6 +32,12 @@ int parse_rinex_rfos(const char *fnrnx,
   // index of the F measurement (relative frequency offset)
   const int f_idx = rnx.get_observation_code_index(
       dso::ObservationCode{dso::ObservationType::frequency_offset});
+  if (f_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] No \'F\' observable in RINEX %s (traceback: %s)\n", fnrnx,
+            __func__);
+    return 1;
+  }
 
   // get an iterator to the RINEXs data blocks
   dso::RinexDataBlockIterator it(&rnx);
@@ -62,6 +68,10 @@ int parse_rinex_rfos(const char *fnrnx,
       // store current date
       tend = (use_tai) ? tl1 : tproper;
       
+      // first value in buffer, set starting epoch
+      if (!(cval % every))
+        t0 = tend;
+
       // check if we reached every values
       if (!((cval + 1) % every)) {
         // we did, compute data points and add to matrices
@@ -82,8 +92,6 @@ int parse_rinex_rfos(const char *fnrnx,
           A(idx, i+1) = A(idx, i) * dt;
         // increase matrix index
         ++idx;
-      } else if (!(cval % every)) {
-        t0 = tend;
       }
 
       ++cval;
@@ -102,12 +110,10 @@ int parse_rinex_rfos(const char *fnrnx,
     return 1;
   }
 
-  --cval;
   // add any reamaining data in the buffer
-  if ((cval % every) != every - 1) {
-    const int j = cval % every;
-    b(idx) = std::reduce(fs.begin(), fs.end()+j, 0e0) / j;
-    
+  if (const int j = cval % every; j) {
+    b(idx) = std::reduce(fs.begin(), fs.begin() + j, 0e0) / j;
+
     const auto dsec = tend.delta_sec(t0);
     const dso::nanoseconds half =
         dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
@@ -116,7 +122,7 @@ int parse_rinex_rfos(const char *fnrnx,
     
     // difference in time (aka from tref)
     A(idx,0) = 1e0;
-    const double dt = t.delta_date(tref).as_mjd();
+    const double dt = fit.deltax(t,tref);
     A(idx,1) = dt;
     for (int i = 1; i < poly_order; i++)
       A(idx, i + 1) = A(idx, i) * dt;
@@ -189,7 +195,7 @@ int dso::fit_relative_frequency_offset(
   printf("Solving LS with b=%ldx%ld and A=%ldx%ld\n", b.rows(), b.cols(), A.rows(), A.cols());
 
   // Solve the LS problem
-  const auto y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
+  const Eigen::VectorXd y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
 
   // assign to the (returned) model
   fit.xref = tref;
-- 
2.43.0


From b98fe5adfb3c9e22a3812fb785db7d631565d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 21/46] fix: DORIS RINEX header: scale factor for all
 observables (blank list)

---
 src/rinex/read_rnx_header.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 2887fb1..aa4526b 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -211,9 +211,10 @@ int dso::DorisObsRinex::read_header() noexcept {
         errno = 0;
         return 142;
       }
-      int num_obs;
+      int num_obs = 0;
       if (line[8] == line[9] && line[8] == ' ') { // blank means all ....
-        num_obs = m_obs_scale_factors.size();
+        std::fill(m_obs_scale_factors.begin(), m_obs_scale_factors.end(),
+                  factor);
       } else {
         // scale factors can be defined for any number of ObservationCodes, in
         // the range [0, m_obs_codes.size()]
-- 
2.43.0


From c887ab2ebaa7672808dfdf8d999c43182a913e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 22/46] fix: RFO fit: epochs without an F value, unreadable
 files

---
 src/rinex/fit_rfo.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index fbe25f8..8e15296 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -17,7 +17,7 @@ int parse_rinex_rfos(const char *fnrnx,
     Eigen::MatrixXd &A,
     unsigned &idx,
     const Datetime &start,
-    const Datetime &end) noexcept {
+    const Datetime &end) {
 
   // polynomial order
   const int poly_order = fit.order();
@@ -58,9 +58,16 @@ int parse_rinex_rfos(const char *fnrnx,
       // current proper time (aka tau)
       const auto tproper = it.proper_time();
 
-      // get the first observation set; note that all observations in block
-      // should have the same F value
-      auto beaconobs = it.cblock.begin();
+      // get the first observation set that has an F value; note that all
+      // observations in block should have the same F value
+      auto beaconobs =
+          std::find_if(it.cblock.begin(), it.cblock.end(), [=](const auto &o) {
+            return o.m_values[f_idx].m_value != dso::OBSERVATION_VALUE_MISSING;
+          });
+
+      // no F value recorded for this epoch
+      if (beaconobs == it.cblock.end())
+        continue;
 
       // temporarily store value at buffer
       fs[cval % every] = beaconobs->m_values[f_idx].m_value;
@@ -177,8 +184,15 @@ int dso::fit_relative_frequency_offset(
   unsigned index = 0;
   dso::datetime<dso::nanoseconds> tref = dso::datetime<dso::nanoseconds>::min();
   for (const auto sptr : fns) {
-    if (parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
-                         start, end)) {
+    int error = 1;
+    try {
+      error = parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
+                               start, end);
+    } catch (std::exception &) {
+      fprintf(stderr, "[ERROR] Failed to open RINEX file %s (traceback: %s)\n",
+              sptr, __func__);
+    }
+    if (error) {
       fprintf(stderr,
               "[ERROR] Failed fitting Receiver Frequency Offset values! failed "
               "at RINEX file %s (traceback: %s)\n",
-- 
2.43.0


From 3c76cfe7dec3037f88d9df71201e0a4725f9968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 23/46] fix: Doppler counts: beacon codes are not null
 terminated

---
 src/doris/extract_doppler_count.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 598f730..e2b57e4 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -21,7 +21,7 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
 
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
       double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
@@ -30,7 +30,7 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
 
-      printf("%s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
+      printf("%.3s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
     }
   }
 
@@ -47,7 +47,7 @@ int update(const std::vector<dso::BeaconObservations> &obsvec,
     newid = newobs.m_beacon_id;
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     // if not, append
     if (it == data.end()) {
-- 
2.43.0


From 09af508a3f7a75636a2b8554f04d01b2f5ccc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 24/46] fix: filters: delay stride of the linear clock model,
 polynomial model ownership

---
 src/filters/ekf.hpp     |  2 +-
 src/filters/filters.hpp |  4 ++--
 src/filters/models.hpp  | 19 ++++++++++++-------
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/filters/ekf.hpp b/src/filters/ekf.hpp
index 9ae6df0..bfbde0f 100644
--- a/src/filters/ekf.hpp
+++ b/src/filters/ekf.hpp
@@ -31,7 +31,7 @@ template <typename S> struct ExtendedKalmanFilter {
     t = t0;
     x = x0;
     P = P0;
-    K = Eigen::VectorXd(x0.cols());
+    K = Eigen::VectorXd::Zero(x0.rows());
   }
   
   const Eigen::VectorXd &state() const noexcept {return x;}
diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..400c6ce 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf; }
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -49,21 +49,26 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) { p.cf = nullptr; p._order = -1; };
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p.cf = nullptr;
+        p._order = -1;
+      }
       return *this;
     }
 
-- 
2.43.0


From 55df056e296ff6951d19476bf94943931ed2275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 25/46] fix: antenna PCV: flag out of range Alcatel zenith
 angles, zenith of 90 degrees

---
 src/antenna_pcv.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..65962a6 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -49,10 +49,13 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
     if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
       out_of_bounds = 1;
+      return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // a zenith angle of 90 deg. belongs to the last interval
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -106,6 +109,9 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // a zenith angle of 90 deg. belongs to the last interval
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -158,6 +164,9 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // a zenith angle of 90 deg. belongs to the last interval
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
-- 
2.43.0


From 8f6f8e8276b6c3768277844415e6f289768ebc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 26/46] fix: satellite corrections: signs and first digits
 skipped, comparison of dates

---
 src/satellites/satellite_corrections.cpp | 43 +++++++++++++-----------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index e602c04..127331a 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -1,8 +1,23 @@
 #include "satellites.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 
+namespace {
+/// @brief Resolve the next (whitespace separated) number of a line
+/// @return The character following the number, or nullptr in case of error
+const char *next_number(const char *c, const char *last, double &value) noexcept {
+  while (c < last && *c == ' ')
+    ++c;
+  // std::from_chars does not accept a leading '+'
+  if (c < last && *c == '+')
+    ++c;
+  const auto pec = std::from_chars(c, last, value);
+  return (pec.ec == std::errc{}) ? pec.ptr : nullptr;
+}
+} // unnamed namespace
+
 int dso::get_satellite_corrections(const char *j3mass,
                                 const dso::datetime<dso::nanoseconds> &t,
                                 double *dmdxyz) noexcept {
@@ -27,38 +42,28 @@ int dso::get_satellite_corrections(const char *j3mass,
     // check for comment lines ...
     if (line[0] != 'C' && line[0] != '/') {
       const char *c = line;
-      char *last = line + 255;
-
-      // remove whitespace chars
-      while (*c++ == ' '); 
+      const char *last = line + std::strlen(line);
 
       // first resolve datetime from Julian date
       double cjd, csec;
-      auto pec = std::from_chars(c, last, cjd);
-      c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
-        ++error;
-      }
-      while (*c++ == ' ');
-      pec = std::from_chars(c, last, csec);
-      c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      c = next_number(c, last, cjd);
+      if (!c || *c != ' ' || !(c = next_number(c, last, csec)) || *c != ' ') {
         ++error;
       }
 
       // reached a date later than the requested, end here
-      if (error || (cjd >= jd && csec >= sec))
+      if (error || (cjd > jd || (cjd == jd && csec >= sec)))
         break;
 
       // prior date, update corrections
-      for (int i = 0; i < 4; i++) {
-        while (*c++ == ' ');
-        pec = std::from_chars(c, last, dmdxyz[i]);
-        c = pec.ptr + 1;
-        if (/**c++ != ' ' || */pec.ec != std::errc{}) {
+      for (int i = 0; i < 4 && !error; i++) {
+        c = next_number(c, last, dmdxyz[i]);
+        if (!c) {
           ++error;
         }
       }
+      if (error)
+        break;
     }
   }
 
-- 
2.43.0


From 67339157db92f7518c40fd568dd447746f9b74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 27/46] fix: Jason-3 quaternions: uninitialised buffer, failure
 on first record reported as success, epochs before the buffer

---
 src/satellites/jason3_quaternions.cpp | 53 ++++++++++++++++++---------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a4565c9..15b49b7 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -2,6 +2,7 @@
 #include "jason3_quaternions.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <datetime/dtfund.hpp>
 #include <exception>
 #include <fstream>
@@ -25,7 +26,7 @@ int resolve_jason3_body_quaternion_line(
     return 1;
   }
 
-  const char *last = line + 255;
+  const char *last = line + std::strlen(line);
   int error = 0;
   double qdata[4]; // temporary quaternion buffer
 
@@ -35,6 +36,15 @@ int resolve_jason3_body_quaternion_line(
   // UI1 -- 10 chars, unused value
   c += 10 + 1;
 
+  // line too short
+  if (c >= last) {
+    fprintf(stderr,
+            "[ERROR] Failed to resolve (body) Jason-3 quaternion line: \'%s\' "
+            "(traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
+
   // parse scalar part of quaternion
   auto pec = std::from_chars(c, last, qdata[0]);
   c = pec.ptr;
@@ -43,11 +53,15 @@ int resolve_jason3_body_quaternion_line(
   }
 
   // parse vector part of quaternion
-  for (int i = 0; i < 3; i++ && !error) {
+  for (int i = 0; i < 3 && !error; i++) {
     // UI2 -- 4 chars, unused value
     c += 4 + 1;
     // UI3 -- 10 chars, unused value
     c += 10 + 1;
+    if (c >= last) {
+      ++error;
+      break;
+    }
     pec = std::from_chars(c, last, qdata[i + 1]);
     c = pec.ptr;
     if (*c++ != '\t' || pec.ec != std::errc{}) {
@@ -80,8 +94,8 @@ int resolve_jason3_body_quaternion_line(
 
 dso::JasonQuaternionHunter::JasonQuaternionHunter(const char *body_fn)
     : bodyin(body_fn) {
-  // read-in the first two quaternions
-  if (bodyin.get_next(bodyq, 2)) {
+  // fill-in the buffer
+  if (bodyin.get_next(bodyq, NumQuaternionsInBuffer)) {
     throw std::runtime_error(
         "ERROR JasonQuaternionHunter failed to caonstruct\n");
   }
@@ -116,7 +130,7 @@ int dso::JasonBodyQuaternionFile::get_next(dso::JasonBodyQuaternion *records,
       fin.getline(line, LINE_SZ);
     
     if (resolve_jason3_body_quaternion_line(line, records[i]))
-      return i*10;
+      return (i + 1) * 10;
   }
 
   return 0;
@@ -126,11 +140,21 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
   // first, check if we are ok, i.e. the time requested is within the buffered
   // interval
   index = this->find_interval(tai_mjd);
-  assert(index >= 0);
-  if (index < NumQuaternionsInBuffer) {
+  if (index >= 0 && index < NumQuaternionsInBuffer) {
     return 0;
   }
 
+  // prior to the buffered interval, we cannot go backwards
+  if (index < 0) {
+    fprintf(stderr,
+            "ERROR Requested quaternion for an epoch prior to current "
+            "interval, t=%.15f\n",
+            tai_mjd);
+    fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
+            bodyq[0].tai_mjd, bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
+    return 1;
+  }
+
   // get next quaternion, hopefully we are ok now ...
   dso::JasonBodyQuaternion tmp;
   if (bodyin.get_next(tmp)) {
@@ -156,28 +180,21 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
 
     return 0;
   } else {
-    if (tai_mjd < bodyq[0].tai_mjd) {
-      fprintf(stderr,
-              "ERROR Requested quaternion for an epoch prior to current "
-              "interval, t=%.15f\n",
-              tai_mjd);
-      fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
-              bodyq[0].tai_mjd, bodyq[1].tai_mjd);
-      return 1;
-    }
-    // else, find a suitable interval ....
+    // find a suitable interval ....
     int error = 0;
     left_shift();
     bodyq[NumQuaternionsInBuffer - 1] = tmp;
 
     do {
       error = bodyin.get_next(tmp);
+      if (error)
+        break;
       left_shift();
       bodyq[NumQuaternionsInBuffer - 1] = tmp;
       // bodyq[0] = tmp;
       // bodyq[1] = tmp2;
       // tmp = tmp2;
-    } while (!error && !(tai_mjd >= bodyq[NumQuaternionsInBuffer - 2].tai_mjd &&
+    } while (!(tai_mjd >= bodyq[NumQuaternionsInBuffer - 2].tai_mjd &&
                          tai_mjd < bodyq[NumQuaternionsInBuffer - 1].tai_mjd));
 #ifdef DEBUG
 if (error) {
-- 
2.43.0


From 5bdf75a7d77acb62bddf673984e6ff84cdf91dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 28/46] fix: beacon table: stale errno, truncated and empty
 lines

---
 src/beacon_tbl/beacon_tbl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 100727b..1fc97c5 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -1,4 +1,5 @@
 #include "beacon_tbl.hpp"
+#include <cerrno>
 #include <stdexcept>
 
 std::vector<dso::BeaconInformationTableEntry>
@@ -19,9 +20,18 @@ dso::BeaconInformationTable::load_to_memmory(
 
   char *end;
   while (fin.getline(line, 256)) {
+    // skip empty lines
+    if (!*line)
+      continue;
+    if (std::strlen(line) <= 45) {
+      fprintf(stderr, "ERROR. Line too short \'%s\' (traceback: %s)\n", line,
+              __func__);
+      throw std::runtime_error("Parse file error");
+    }
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
+    errno = 0;
     double height = std::strtod(line + 45, &end);
     if (errno || end == line + 45) {
       fprintf(stderr,
-- 
2.43.0


From 597e0af0b482d6c66ee5f83f3bfdd868043139a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 29/46] fix: iono-free phase centre: expressions referring to
 temporaries

---
 src/doris_system_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..102dd0d 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -161,14 +161,14 @@ struct BeaconStation {
   ///        position estimation using DORIS RINEX data", section 2.5.7
   Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
-- 
2.43.0


From d9062aaa09d23814e2b1b77ddb23ef594048050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 30/46] fix: exponential atmosphere: scale height of the
 180-200 km layer

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From 1ac12195b5723ed08f8f5d03f0861284281dc9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 31/46] fix: NRLMSISE-00: cached expansions valid for another
 model object

---
 src/atmosphere/nrlmsise00.hpp        | 6 ++++++
 src/atmosphere/nrlmsise00_glob7s.cpp | 2 +-
 src/atmosphere/nrlmsise00_globe7.cpp | 4 ----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 178f6c9..42bf0fd 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -361,6 +361,12 @@ class Nrlmsise00 {
   double pd[9][150];
   double ptl[4][100];
   double plg[4][9];
+  // latitude for which plg is valid (so we don't re-compute legendre
+  // polynomials)
+  double xl{1000e0};
+  // tloc/lst for which ctloc, stloc, ... are valid (so we don't recompute trig
+  // numbers)
+  double tll{1000e0};
   const double pdl[2][25];
 
   // one dim arrays ...
diff --git a/src/atmosphere/nrlmsise00_glob7s.cpp b/src/atmosphere/nrlmsise00_glob7s.cpp
index 9ca1ce9..407664a 100644
--- a/src/atmosphere/nrlmsise00_glob7s.cpp
+++ b/src/atmosphere/nrlmsise00_glob7s.cpp
@@ -44,7 +44,7 @@ double dso::Nrlmsise00::glob7s(const InParamsCore *in, double *pp) noexcept {
   p32 = p[31];
   p18 = p[17];
   p14 = p[13];
-  p39 = p[39];
+  p39 = p[38];
 
   t[0] = p[21] * dfa;
   
diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index bf495eb..45cb428 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -18,10 +18,6 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   constexpr const double hr = 0.2618e0;
   constexpr const double sr = 7.2722e-5;
 
-  // last latitude (so we don't re-compute legendre polynomials)
-  static double xl = 1000e0;
-  // last used tloc/lst (so we don't recompute trig numbers)
-  static double tll = 1000e0;
   static double sw9 = 1e0;
   // last doy used 
   static int last_doy = -1;
-- 
2.43.0


From 7fa5351b17730b7c33f63e9bb37f7ec8fbe4e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 32/46] fix: NRLMSISE-00: temperature node at 32.5 km, gravity
 with the latitude switch off

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 4d855d8..c1bb919 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -20,7 +20,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
-  if (std::abs(in->sw.sw[1]) < 0)
+  if (in->sw.sw[1] == 0e0)
     xlat = 45e0;
   re = glatf(xlat, gsurf);
 
@@ -66,13 +66,14 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     tgn2[1] = pavgm[8] * pma[9][0] *
               (1e0 + sw19 * sw21 * glob7s(in, pma[9])) * tn2[3] *
               tn2[3] / std::pow(pma[2][0] * pavgm[2], 2e0);
+    tn3[0] = tn2[3];
   }
 
   // LOWER STRATOSPHERE AND TROPOSPHERE [below ZN3(1)]
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
   // Only calculate nodes if input changed
-  if (in->alt < zn3[0]) {
+  if (in->alt <= zn3[0]) {
     if (input_changed || altlast >= zn3[0]) {
       tgn3[0] = tgn2[1];
       tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
-- 
2.43.0


From 4203dc30a1384c79283004b7dc80a16f8900bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 33/46] fix: space weather CSV: short lines, end of file and
 empty columns; failed updates keep the data

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp |  8 ++-
 src/var/celestrak_swdata.cpp                | 59 ++++++++++++---------
 2 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 1240a0c..32bd31e 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -190,8 +190,14 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
                                                        flux_data_, 4, fpos);
     } else {
       // else just parse the file from the top and fill in data arrays ...
+      // (leaving the current ones as they are in case of error)
+      dso::utils::celestrak::details::CelestTrakSWFlux new_flux[4];
       error = dso::utils::celestrak::details::parse_csv_for_date(
-          new_mjd, fncsv_, flux_data_, fpos, 3, 0);
+          new_mjd, fncsv_, new_flux, fpos, 3, 0);
+      if (!error) {
+        for (int i = 0; i < 4; i++)
+          flux_data_[i] = new_flux[i];
+      }
     }
     if (!error) {
       mjd_ = new_mjd;
diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 5e66737..69d9042 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -23,6 +23,19 @@ constexpr const char header[] =
 // F10.7_OBS_LAST81 -> 29
 // F10.7_ADJ_CENTER81 -> 30
 
+/// @brief Skip a given number of (possibly empty) csv columns
+/// @param[in] c The first character of a column
+/// @param[in] columns Number of columns to skip
+/// @return The first character of the column reached, or nullptr if the line
+///         has not that many columns
+static const char *skip_columns(const char *c, int columns) noexcept {
+  while (columns && *c) {
+    if (*c++ == ',')
+      --columns;
+  }
+  return columns ? nullptr : c;
+}
+
 int dso::utils::celestrak::details::resolve_csv_line_records(
     const char *line,
     dso::utils::celestrak::details::CelestTrakSWFlux &flux_data) noexcept {
@@ -34,16 +47,10 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   }
 
   const auto sz = std::strlen(line);
-  const char *c = line;
 
   // find and skip 12 ',' chars
-  int commas = 0;
-  while (*c++ && commas < 12) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  const char *c = skip_columns(line, 12);
+  if (!c || !*c) {
     return 2;
   }
 
@@ -72,13 +79,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   // we are now at column CP; skip and, and do so also for columns:
   // C9, ISN
   // Go three ',' forward
-  commas = 0;
-  while (*c++ && commas < 3) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  c = skip_columns(c, 3);
+  if (!c || !*c) {
     return 12;
   }
 
@@ -132,6 +134,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 int dso::utils::celestrak::details::resolve_csv_line_date(
     const char *line, dso::modified_julian_day &mjd) noexcept {
   // date format: 2017-01-10
+  if (std::strlen(line) < 10)
+    return 1;
   int year, month, day;
   // year ...
   auto pec = std::from_chars(line, line + 4, year);
@@ -233,7 +237,13 @@ int dso::utils::celestrak::details::parse_csv_for_date(
 
   // read first data line; if record_date > start_mjd data, the target date is
   // not included in the file ...
-  fin.getline(line, MAX_SW_CHARS);
+  if (!fin.getline(line, MAX_SW_CHARS)) {
+    // no data after fpos; the date may still be in the file, before fpos
+    if (fpos2)
+      return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
+                                days_after);
+    return eof_reached;
+  }
   if (resolve_csv_line_date(line, cmjd)) {
     fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
             line);
@@ -275,22 +285,23 @@ int dso::utils::celestrak::details::parse_csv_for_date(
               __func__, line, error);
       return parse_error;
     }
+    if (++cdi == days_to_resolve)
+      break;
     // read in next line (should be next day)
-    if (fin.getline(line, MAX_SW_CHARS)) {
-      error = resolve_csv_line_date(line, cmjd);
-    } else {
-      return error;
-    }
-    if (cmjd != start_mjd + dso::modified_julian_day{cdi + 1}) {
+    if (!fin.getline(line, MAX_SW_CHARS))
+      return eof_reached;
+    error = resolve_csv_line_date(line, cmjd);
+    if (error || cmjd != start_mjd + dso::modified_julian_day{cdi}) {
       fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
               fncsv);
       return parse_error;
     }
-    ++cdi;
   }
 
-  // set fpos
+  // set fpos (unless we hit EOF)
   fpos = fin.tellg();
+  if (fpos == std::ifstream::pos_type(-1))
+    fpos = 0;
 
   return 0;
 }
-- 
2.43.0


From 4e9e61a420dede743061ddb68fd777e6904e2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 34/46] fix: EOP tables: copies and moves, C04 days missing or
 repeated, interpolation errors

---
 src/eop.hpp                  | 57 +++++++++++++++---------------------
 src/iers/eop_interpolate.cpp |  9 ++----
 src/iers/parse_c04.cpp       | 15 ++++++++--
 3 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..00807bf 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -35,6 +35,23 @@ private:
       *loda{nullptr},    ///< [sec/day], start index = 6
       *omegaa{nullptr};  ///< [?], start index = 7
 
+  /// @brief Copy all values off from another instance (of the same size). The
+  ///        two instances may have different capacities, hence the arrays are
+  ///        copied one by one.
+  void copy_values(const EopLookUpTable &eopt) noexcept {
+    if (!sz)
+      return;
+    const std::size_t bytes = sizeof(double) * sz;
+    std::memcpy(mjda, eopt.mjda, bytes);
+    std::memcpy(xpa, eopt.xpa, bytes);
+    std::memcpy(ypa, eopt.ypa, bytes);
+    std::memcpy(ut1a, eopt.ut1a, bytes);
+    std::memcpy(dxa, eopt.dxa, bytes);
+    std::memcpy(dya, eopt.dya, bytes);
+    std::memcpy(loda, eopt.loda, bytes);
+    std::memcpy(omegaa, eopt.omegaa, bytes);
+  }
+
 public:
   int size() const noexcept { return sz; }
 
@@ -176,7 +193,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -189,21 +206,7 @@ public:
       if (sz != eopt.sz) {
         this->resize(eopt.sz);
       }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
-      xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
-      ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
-      ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
-      dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
-      dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
-      loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
-      omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+      copy_values(eopt);
     }
     return *this;
   }
@@ -211,9 +214,10 @@ public:
   /// @brief Move assignment operator
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
+      delete[] mem_arena;
       // just move elements ...
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
@@ -234,22 +238,9 @@ public:
   /// @brief Copy constructor. The created copy will have a capacity and size
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
-        xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
-        ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
-        ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
-        dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
-        dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
-        loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
-        omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+      : EopLookUpTable(eopt.sz) {
+    copy_values(eopt);
+  }
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..fc30c46 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -20,10 +20,6 @@ int dso::EopLookUpTable::interpolate_lagrange(
       iers2010::interp::lagint(mjd(), dy(), sz, tt_fmjd, eopr.dy, index, order);
   status += iers2010::interp::lagint(mjd(), lod(), sz, tt_fmjd, eopr.lod, index,
                                      order);
-  status += iers2010::interp::lagint(mjd(), dx(), sz, tt_fmjd, eopr.dx, index,
-                                     order);
-  status += iers2010::interp::lagint(mjd(), dy(), sz, tt_fmjd, eopr.dy, index,
-                                     order);
 
   if (status) {
     fprintf(stderr,
@@ -43,7 +39,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
@@ -61,7 +58,7 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
   // add the effect to the ERP values
   eopr.dut += dut1;     // [seconds]
   eopr.lod += dlod;     // [seconds/day]
-  eopr.omega += domega; // [?]
+  eopr.omega = domega;  // [?] (omega itself is not interpolated)
 
   // add effect of ocean tides (see iers2010::interp_pole and interp.f)
   double cx, cy, cdut, clod;
diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..c4a1402 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -45,6 +45,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
 
   // if needed, resize the EOP table, interval is [start.end)
   int days = end_mjd.as_underlying_type() - start_mjd.as_underlying_type();
+  if (days < 0)
+    return 1;
   eoptable.resize(days);
 
   char line[MAX_LINE_CHARS];
@@ -59,8 +61,9 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     if (*line && (*line != ' ' && *line != '#')) {
       // skip the data (YYYY MM DD) which is 12 chars length
       // get the mjd
-      start = next_num(line + 12);
-      end = line + std::strlen(line);
+      const auto line_sz = std::strlen(line);
+      end = line + line_sz;
+      start = (line_sz > 12) ? next_num(line + 12) : end;
       auto fcr = std::from_chars(start, end, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == start) {
         fprintf(stderr,
@@ -76,6 +79,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // daily values in chronological order, none missing or repeated
+        if (cmjd != start_mjd + dso::modified_julian_day(sz)) {
+          fprintf(stderr,
+                  "[ERROR] Unexpected date at EOP line [%s]. EOP file is %s "
+                  "(traceback: %s/err=C)\n",
+                  line, c04fn, __func__);
+          return 3;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
-- 
2.43.0


From 4ad0fa5c2204f046adf145fd3888fff62f29e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 35/46] fix: Sun acceleration in m/s2, kernel names compared in
 full, frame rates computed from destroyed temporaries

---
 src/itrs2gcrs.cpp            | 8 ++++----
 src/planets/cspice_utils.cpp | 6 +++---
 src/sunmoon.cpp              | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..e86120c 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -105,11 +105,11 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -141,11 +141,11 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index 6db24e9..44c00ac 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -20,7 +20,7 @@ int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, lsk_kernel, std::strlen(lsk_kernel))) return 0;
+      if (found && !std::strcmp(file, lsk_kernel)) return 0;
     }
   }
 
@@ -42,7 +42,7 @@ int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "spk", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, spk_kernel, std::strlen(spk_kernel))) return 0;
+      if (found && !std::strcmp(file, spk_kernel)) return 0;
     }
   }
 
@@ -64,7 +64,7 @@ int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, pck_kernel, std::strlen(pck_kernel))) return 0;
+      if (found && !std::strcmp(file, pck_kernel)) return 0;
     }
   }
 
diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..ed42372 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -29,7 +29,7 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
-- 
2.43.0


From 2eefdcaecb1d2ae29fa59f96e96ad6320515f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 36/46] fix: variational equations: gravity partials and
 density in the right frame, local solar time, day of the epoch

---
 src/atmosphere/nrlmsise00.hpp |  4 +++-
 src/variational_equations.cpp | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 42bf0fd..931a930 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -331,7 +331,8 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
   }
 
   /// @brief Set parameter set spatial input data (longitude, latitude and 
-  /// altitude) from a set of cartesian ECEF coordinates
+  /// altitude) from a set of cartesian ECEF coordinates. The local solar time
+  /// is set from the longitude and the current (i.e. last set) second of day.
   void
   set_spatial_from_cartesian(const Eigen::Matrix<double, 3, 1> &xyz) noexcept {
     const Eigen::Matrix<double, 3, 1> lfh =
@@ -339,6 +340,7 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.glon = dso::rad2deg(lfh(0)); // longitude in degrees
     params_.glat = dso::rad2deg(lfh(1)); // latitude in degrees
     params_.alt  = lfh(2) * 1e-3; // altitude in km
+    params_.lst = params_.sec / 3600e0 + params_.glon / 15e0; // hours
   }
 };
 
diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..4a777b5 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -72,7 +72,9 @@ void dso::VariationalEquations(
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
   const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  // celestial to terrestrial matrix, U; partials in the inertial frame: U^T*P*U
+  const Eigen::Matrix<double, 3, 3> rc2t = rpom * rc2ti;
+  gpartials = rc2t.transpose() * gpartials * rc2t;
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
@@ -129,15 +131,15 @@ void dso::VariationalEquations(
     double utc_fday = std::modf(cmjd, &imjd);
     const int leap_sec = dso::dat(cmjd, eid);
     utc_fday -= leap_sec / (86400e0 + (double)eid);
-    if (utc_fday > 1e0) {
+    if (utc_fday >= 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 1e0) {
+    } else if (utc_fday < 0e0) {
       utc_fday += 1e0;
       --imjd;
     }
     assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
-    params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
+    params.AtmDataFeed->set_spatial_from_cartesian(r_geo);
     dso::nrlmsise00::OutParams aout;
     assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
     const double atmdens = aout.d[5];
@@ -147,34 +149,36 @@ void dso::VariationalEquations(
       double p1,m1;
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      unitv << 0e0, 0e0, -1e0;
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
+      // ECEF to inertial
+      drhodr = rter2cel(drhodr, rc2i, era, rpom);
     }
   //  //printf("Note: Using drag coefficient=%.3f\n", params.get_drag_coefficient());
     //drag = dso::drag_accel(r, v, ProjArea, /*params.get_drag_coefficient()*/2e0,
-- 
2.43.0


From 57938b75a1fd256acace3ec8558174f069ea4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 37/46] fix: Sun series: mean anomaly and obliquity rates

---
 src/planets/sunpos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..7253812 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -49,7 +49,7 @@ int dso::sun_vector_vallado(double t, double *rsun) noexcept {
   const double lambda =
       std::fmod(280.460e0 + 36000.771e0 * t, 360e0); // [degrees]
   const double M =
-      std::fmod(357.5291092e0 + 35999.50534e0 * t, 360e0); // [degrees]
+      std::fmod(357.5291092e0 + 35999.05034e0 * t, 360e0); // [degrees]
   const double Mrad = dso::deg2rad(M);
   const double l_ecliptic = std::fmod(lambda + 1.914666471e0 * sin(Mrad) +
                                           0.019994643e0 * sin(2e0 * Mrad),
@@ -80,7 +80,7 @@ int dso::sun_vector_approx21(double t, double *rsun) noexcept {
   const double lambda = std::modf(cf1 + cf2 * t, &dummy) * pi2; // [rad]
 
   constexpr double cf3 = normalize_deg(357.5291092e0);
-  constexpr double cf4 = normalize_deg(35999.50534e0);
+  constexpr double cf4 = normalize_deg(35999.05034e0);
   const double M = std::modf(cf3 + cf4 * t, &dummy) * pi2; // [rad]
 
   const double lon_arg = 1.914666471e0 * sin(M) + 0.019994643e0 * sin(2e0 * M);
@@ -114,7 +114,7 @@ int dso::sun_vector_curtis(double n, double *rsun) noexcept {
                                    0.0200e0 * sin(2e0 * dso::deg2rad(M)),
                                360e0);
   // Calculate the obliquity ε [deg]
-  const double e = 23.439e0 - 3.65e-7 * n;
+  const double e = 23.439e0 - 3.56e-7 * n;
   // Calculate the unit vector u_n from the earth to the sun
   const double ux = cos(dso::deg2rad(lon));
   const double uy = cos(dso::deg2rad(e)) * sin(dso::deg2rad(lon));
-- 
2.43.0


From 3902078a6121517c6241f50826463f6600664186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:53 +0000
Subject: [PATCH 38/46] fix: SINEX coordinates: sites that may be missing,
 unusable estimates

---
 src/ids/get_pdop_crd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 06f9ad8..51d95b8 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -143,7 +143,7 @@ int dso::extrapolate_sinex_coordinates(
 
   // get the solution estimates for the sites
   error = snx.parse_block_solution_estimate(est_vec, site_vec);
-  if (error || (int)est_vec.size() < num_stations * 6) {
+  if (error || est_vec.size() < site_vec.size() * 6) {
     fprintf(stderr,
             "[ERROR] Failed to collect estimates for given sites; SINEX file "
             "is %s "
@@ -169,6 +169,8 @@ int dso::extrapolate_sinex_coordinates(
                 "[ERROR] Failed to extrapolate coordinates for site %s from "
                 "SINEX %s (traceback: %s)\n",
                 sid, snx.filename().c_str(), __func__);
+        if (missing_site_is_error)
+          return 1;
       } else {
         std::memcpy(result_array[result_size].id, sid, 4 * sizeof(char));
         result_array[result_size].x = pos[0];
-- 
2.43.0


From fef65660510af6ca9c0b592d732f99b1e410e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 39/46] fix: gravity models without degree one: S11 and orders
 below one

---
 src/gravity/icgemio_rddata.cpp   | 16 ++++++----------
 var/icgem/src/icgemio_rddata.cpp | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index ae6324a..4090c12 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -67,14 +67,9 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  if (l >= 1) {
-    coeffs->C(1, 0) = -999e0;
-    coeffs->C(1, 1) = -999e0;
-  }
+  // C_10 and C_11 are missing; that is because the are nominally zero; if at
+  // the end of parsing these are the only ones (of those requested) not
+  // parsed, they (and S_11) are set to zero.
 
   char line[max_data_line], *end, *start;
   int ll, mm;
@@ -159,14 +154,15 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (l >= 1 && coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    const bool no_degree_one = l >= 1 && !parsed[1] && (m < 1 || !parsed[2]);
+    if (no_degree_one && coeffs_to_read - coeffs_read == (m < 1 ? 1 : 2)) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
       coeffs->C(1, 1) = 0e0;
+      coeffs->S(1, 1) = 0e0;
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 4892a28..36110c0 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -59,14 +59,9 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  if (l >= 1) {
-    coeffs->C(1, 0) = -999e0;
-    coeffs->C(1, 1) = -999e0;
-  }
+  // C_10 and C_11 are missing; that is because the are nominally zero; if at
+  // the end of parsing these are the only ones (of those requested) not
+  // parsed, they (and S_11) are set to zero.
 
   char line[max_data_line], *end, *start;
   int ll, mm;
@@ -151,14 +146,15 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (l >= 1 && coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    const bool no_degree_one = l >= 1 && !parsed[1] && (m < 1 || !parsed[2]);
+    if (no_degree_one && coeffs_to_read - coeffs_read == (m < 1 ? 1 : 2)) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
       coeffs->C(1, 1) = 0e0;
+      coeffs->S(1, 1) = 0e0;
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
-- 
2.43.0


From 60c09502b6492ceb46825dd4837a7c5c1b393a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 40/46] fix: Saastamoinen delays: file did not compile

---
 var/saastamoinen.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/var/saastamoinen.cc b/var/saastamoinen.cc
index db59568..64d5ae9 100644
--- a/var/saastamoinen.cc
+++ b/var/saastamoinen.cc
@@ -1,10 +1,12 @@
+#include <cmath>
+
 /// @brief Gravity correction function for Saastamoinen model
 /// @param[in] lat The geodetic latitude of the station (radians)
 /// @param[in] H   the geodetic height of the station in meters
 /// @return Gravity correction term aka fs(φ,H)
 /// @see IERS conventions 2010, ch. 9.1.1, eq. 9.4 
 inline double fs_phiH(double lat, double H) noexcept {
-  return 1e0 − 0.00266e0*std::cos(2e0*lat) - 0.00000028e0 * H;
+  return 1e0 - 0.00266e0*std::cos(2e0*lat) - 0.00000028e0 * H;
 }
 
 /// @brief Compute zenith hydrostatic delay in meters using Saastamoinen model
-- 
2.43.0


From eba003eea11aba5b7eee237ac1ac02a9744df241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:17 +0000
Subject: [PATCH 41/46] fix: SINEX coordinates: parameter name printed without
 terminator

---
 src/ids/get_pdop_crd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 51d95b8..9dec0a0 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -10,7 +10,7 @@ int extrapolate_coordinates(
   const char *components[] = {"STAX", "STAY", "STAZ"};
   for (int i = 0; i < 3; i++) {
     const char *sta = components[i];
-    char vel[4] = "VEL";
+    char vel[5] = "VEL";
     vel[3] = sta[3];
     auto pos_sx =
         std::find_if(estimates.begin(), estimates.end(),
-- 
2.43.0


From ced7d09467bd3ee7f0f94ebd888ef2705b5dea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 42/46] fix: frequency offset fit: design matrix overflowed for
 records denser than the nominal rate

---
 src/rinex/fit_rfo.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 8e15296..069200c 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -8,6 +8,16 @@ typedef dso::datetime<dso::nanoseconds> Datetime;
 // Reminder: in the RINEX files, the F value (aka relative frequency offset for
 // the receiver's oscillator) is given in units: 1e-11
 
+// The number of data points is only an educated guess; enlarge the matrices if
+// there is no place for point idx
+void make_room(Eigen::VectorXd &b, Eigen::MatrixXd &A, unsigned idx) {
+  if (idx >= b.rows()) {
+    const auto rows = 2 * idx + 1;
+    b.conservativeResize(rows, Eigen::NoChange);
+    A.conservativeResize(rows, Eigen::NoChange);
+  }
+}
+
 int parse_rinex_rfos(const char *fnrnx, 
     bool use_tai,
     int every,
@@ -82,6 +92,7 @@ int parse_rinex_rfos(const char *fnrnx,
       // check if we reached every values
       if (!((cval + 1) % every)) {
         // we did, compute data points and add to matrices
+        make_room(b, A, idx);
         b(idx) = std::reduce(fs.begin(), fs.end(), 0e0) / every;
 
         // midpoint in time, between t0 and tend
@@ -119,6 +130,7 @@ int parse_rinex_rfos(const char *fnrnx,
 
   // add any reamaining data in the buffer
   if (const int j = cval % every; j) {
+    make_room(b, A, idx);
     b(idx) = std::reduce(fs.begin(), fs.begin() + j, 0e0) / j;
 
     const auto dsec = tend.delta_sec(t0);
-- 
2.43.0


From fb881fda422b2341609731b9a1489fd551c7c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 43/46] fix: sequential frequency offset filter: missing values
 were used as measurements, records without stations read past the list

---
 src/doris/fit_rfo.cpp | 64 +++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 58be2b4..4fe7776 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -84,6 +84,16 @@ struct LinearKalman {
   dso::datetime<dso::nanoseconds> tref;
 };
 
+// first beacon of the block with a value for the given observable (if any)
+std::vector<dso::BeaconObservations>::const_iterator
+first_value(const std::vector<dso::BeaconObservations> &obsvec,
+            int index) noexcept {
+  return std::find_if(
+      obsvec.cbegin(), obsvec.cend(), [=](const dso::BeaconObservations &o) {
+        return o.m_values[index].m_value != dso::OBSERVATION_VALUE_MISSING;
+      });
+}
+
 int get_starting_rfo(const char *rnx_fn, double &rfo,
                      dso::datetime<dso::nanoseconds> &reft) noexcept {
   using namespace dso;
@@ -108,26 +118,35 @@ int get_starting_rfo(const char *rnx_fn, double &rfo,
   }
   int findex = std::distance(obs_list.begin(), fit);
 
-  rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS);
-  // resolve the data-block header
-  if (int status = rnx.resolve_data_epoch(line, hdr); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block header! error=%d "
-            "(traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+  // first block with an F value; for a single block, all F
+  // measurements/values should be the same!
+  auto bobs = obsvec.cend();
+  do {
+    if (!rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS)) {
+      fprintf(stderr, "[ERROR] No F value found in RINEX (traceback: %s)\n",
+              __func__);
+      return 1;
+    }
+    // resolve the data-block header
+    if (int status = rnx.resolve_data_epoch(line, hdr); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block header! error=%d "
+              "(traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
 
-  // get the measurements
-  if (int status = rnx.read_data_block(hdr, obsvec); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+    // get the measurements
+    if (int status = rnx.read_data_block(hdr, obsvec); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
+    bobs = first_value(obsvec, findex);
+  } while (bobs == obsvec.cend());
 
-  // for a single block, all F measurements/values should be the same!
-  rfo = obsvec[0].m_values[findex].m_value;
+  rfo = bobs->m_values[findex].m_value;
 
   // get & assign the header time
   reft = hdr.m_epoch;
@@ -185,9 +204,14 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
     }
 
     // for a single block, all F measurements/values should be the same!
-    rfo = obsvec[0].m_values[findex].m_value;
+    const auto first = first_value(obsvec, findex);
+    // no F value recorded in this block
+    if (first == obsvec.cend())
+      continue;
+    rfo = first->m_values[findex].m_value;
     for (const auto &bobs : obsvec) {
-      if (bobs.m_values[findex].m_value != rfo) {
+      if (bobs.m_values[findex].m_value != OBSERVATION_VALUE_MISSING &&
+          bobs.m_values[findex].m_value != rfo) {
         fprintf(stderr,
                 "[ERROR] F value differs within the same data block! "
                 "(traceback: %s)\n",
-- 
2.43.0


From 9fc577a7997af58873a4dae089a5c811c66639d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 44/46] fix: Doppler counts: omitted observations gave
 meaningless counts

---
 src/doris/extract_doppler_count.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index e2b57e4..0ad58ca 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -12,6 +12,12 @@ struct BeaconObservationData {
   dso::datetime<dso::nanoseconds> t;
 };
 
+// true if none of the first two observables is omitted
+bool has_phases(const dso::BeaconObservations &obs) noexcept {
+  return obs.m_values[0].m_value != dso::OBSERVATION_VALUE_MISSING &&
+         obs.m_values[1].m_value != dso::OBSERVATION_VALUE_MISSING;
+}
+
 int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
     const dso::datetime<dso::nanoseconds> &t,
     std::vector<BeaconObservationData> &data) noexcept {
@@ -23,7 +29,8 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
                            [&](const BeaconObservationData &bod) noexcept {
                              return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
-    if (it != data.end()) {
+    // values omitted in either record give no count
+    if (it != data.end() && has_phases(newobs) && has_phases(it->obs)) {
       double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
       double dl2 = newobs.m_values[1].m_value - it->obs.m_values[1].m_value;
       auto tdsec = t.delta_sec(it->t);
-- 
2.43.0


From 2fc113314a5f068fae32ca881ab605df5ad6f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 45/46] fix: denormalising harmonics of degree zero aborted

---
 src/gravity/harmonic_coeffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index ec898f2..0ae9a88 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -93,7 +93,7 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
+  assert(m_degree >= 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
-- 
2.43.0


From c42e8566e0e5ab251745e303d34634e44902e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:47 +0000
Subject: [PATCH 46/46] fix: normalisation factors of high degrees without
 overflow

denormalize() formed (n+m)!/(n-m)! before taking its square root; above
n+m = 170 that overflows and every such coefficient (order 86 and above in a
degree 90 model) silently became zero.
---
 src/gravity/harmonic_coeffs.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 0ae9a88..a63095b 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -63,6 +63,7 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+// sqrt( (n+m)! / (n-m)! ); the product itself overflows for n+m > 170
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -70,13 +71,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
-- 
2.43.0

