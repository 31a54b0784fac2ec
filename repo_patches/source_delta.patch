From 1739cdf5faf828fdf4e8aee8e17b803832690bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 01/37] fix: do not read past the end of the file in FileReader

The number and comment scanners dereferenced the cursor before comparing it
with the end, which reads outside the mapping when the file size is
a multiple of the page size. A .graph file ending in an unterminated comment
also moved the cursor back into the comment and never finished.
---
 include/pigo.hpp                |  6 +++---
 include/pigo/impl/pigo.impl.hpp | 36 +++++++++++++++------------------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 2e330c9..3a9e01f 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,7 +93,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -234,9 +234,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0a722df..1660869 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -331,10 +331,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -344,7 +344,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -356,7 +356,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -397,10 +397,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -415,14 +415,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -436,7 +436,7 @@ namespace pigo {
             while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
 
             // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
+            if (d >= end || *d < '0' || *d > '9') {
                 move_to_eol();
                 break;
             }
@@ -444,7 +444,7 @@ namespace pigo {
             // Read through the integer
             while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
 
-            if (*d == '\n') break;
+            if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
                 move_to_eol();
                 break;
@@ -454,11 +454,11 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (*d == ' ') { ++d; };
+            while (d < end && *d == ' ') { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-            if (*d == '\n') {
+            if (d >= end || *d == '\n') {
                 --space_ct;
                 break;
             }
@@ -482,18 +482,14 @@ namespace pigo {
             ++d; // Move through a newline
         }
 
-        if (*d == '%' || *d == '#') {
-            skip_comments();
-            --d;        // This will end at a newline
-            return;
-        }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
             if (*d == '%' || *d == '#') {
                 skip_comments();
-                --d;
+                // This will end at a newline, unless the file ends first
+                if (*(d-1) == '\n') --d;
                 return;
             }
+            ++d;
         }
     }
 
-- 
2.43.0


From c52dbf88e9960d2b4c990a0d5e34c51582366867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 02/37] fix: keep the last edge of a file without a trailing
 newline

The second pass returned before storing an entry whose last character is the
last one of the file, which left that entry uninitialized (or dropped it when
counting with flags or weights).
---
 include/pigo/impl/coo.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 66206e7..f7c6ae9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -232,9 +232,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -254,9 +254,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -302,9 +302,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From 9d7ec928f27619c1c6227c6365339b2144bde39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 03/37] fix: do not store the weight of an edge that is dropped

With remove_self_loops or keep_upper_triangle_only the weight of a dropped
edge was written to the next position, which is past the end of the storage
for the last edges of a file and belongs to another thread otherwise.
Return to the caller's loop instead of recursing for every dropped edge.
---
 include/pigo/impl/coo.impl.hpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index f7c6ae9..1824b1c 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -229,20 +229,18 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
+                bool drop = (if_true_<sl>() && x == y) ||
+                    (!if_true_<sym>() && if_true_<ut>() && x > y);
+                // The weight of a dropped entry has no position to go to
+                if (!drop) read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (drop) return;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -256,15 +254,13 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
+                bool drop = (if_true_<sl>() && x == y) ||
+                    (!if_true_<sym>() && if_true_<ut>() && x > y);
+                // The weight of a dropped entry has no position to go to
+                if (!drop) read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (drop) return;
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
-- 
2.43.0


From ff116d605f9ad635ec3c437b2f79d0b9ec8d5702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 04/37] fix: account for mirrored entries in the size of a
 symmetric COO

The rows and columns of the entries added by symmetrizing were not part of
nrows and ncols, so that entries could lie outside of the matrix.
---
 include/pigo/impl/coo.impl.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 1824b1c..773aba5 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -273,6 +273,9 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    // The other direction is an entry as well
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
@@ -338,6 +341,12 @@ namespace pigo {
         r.move_to_eol();
         r.move_to_next_int();
 
+        // Either side of the diagonal is moved to the other one
+        if (detail::if_true_<sym>()) {
+            if (nrows > ncols) ncols = nrows;
+            else nrows = ncols;
+        }
+
         // Now, read out the actual contents
         read_el_(r);
 
-- 
2.43.0


From 45d39b13ea528df5e97968c4883c62729c2c6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 05/37] fix: compare the MatrixMarket header with the entries
 in the file

The header was compared with the number of stored entries, so valid files were
rejected when keep_upper_triangle_only or remove_self_loops drops entries,
and with symmetric missing or extra entries went unnoticed.
---
 include/pigo/coo.hpp           |  5 ++++-
 include/pigo/impl/coo.impl.hpp | 30 ++++++++++++------------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 649a665..7d08a13 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -108,8 +108,11 @@ namespace pigo {
              * specific file to load the COO.
              *
              * @param r the FileReader to read with
+             *
+             * @return the number of entries in the file, which differs from
+             *         m when the flags add or drop some
              */
-            void read_el_(FileReader& r);
+            size_t read_el_(FileReader& r);
 
             /** @brief Reads a matrix market file into the COO
              *
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 773aba5..96649d2 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -348,7 +348,7 @@ namespace pigo {
         }
 
         // Now, read out the actual contents
-        read_el_(r);
+        size_t entries = read_el_(r);
 
         // Finally, sanity check the file
         if (nrows >= nrows_)
@@ -364,21 +364,11 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        // The header counts the entries in the file, before any flag adds or
+        // removes some
+        if ((size_t)nnz != entries) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
@@ -386,7 +376,7 @@ namespace pigo {
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
+    size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
         // Get the number of threads
         size_t num_threads = 1;
         #ifdef _OPENMP
@@ -409,8 +399,9 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        size_t entries = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : entries)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -446,6 +437,7 @@ namespace pigo {
             size_t tid_nls = 0;
             while (rs_p1.good()) {
                 read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused);
+                ++entries;
             }
 
             nl_offsets[tid] = tid_nls;
@@ -483,6 +475,8 @@ namespace pigo {
         ncols_ = max_col + 1;
         if (nrows_ > ncols_) n_ = nrows_;
         else n_ = ncols_;
+
+        return entries;
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-- 
2.43.0


From 1391b21805f2070bb187c096369bcd16113467b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 06/37] fix: swap the number of rows and columns in
 COO::transpose

The transposed COO kept the size of the original matrix, so a rectangular one
had entries outside of it. Matrix::csc() and DiGraph::in() keep reporting the
size of the matrix itself.
---
 include/pigo/coo.hpp    | 1 +
 include/pigo/graph.hpp  | 3 +++
 include/pigo/matrix.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 7d08a13..0caab1e 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -339,6 +339,7 @@ namespace pigo {
             /** @brief Transpose the COO, swapping x and y */
             COO& transpose() {
                 std::swap(x_, y_);
+                std::swap(nrows_, ncols_);
                 return *this;
             }
 
diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index afc9be3..f6273cf 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -213,6 +213,9 @@ namespace pigo {
                     COOsl, weighted, COOW, COOWS>& coo) {
                 auto coo_copy = coo;
                 coo_copy.transpose();
+                // Only the direction of the edges changes
+                coo_copy.set_nrows(coo.nrows());
+                coo_copy.set_ncols(coo.ncols());
 
                 in_ = BaseGraph<
                             vertex_t,
diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index 3a3d057..a1e76e4 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -132,6 +132,9 @@ namespace pigo {
                     COOsl, weighted, COOW, COOWS>& coo) {
                 auto coo_copy = coo;
                 coo_copy.transpose();
+                // Only the compression changes, not the size of the matrix
+                coo_copy.set_nrows(coo.nrows());
+                coo_copy.set_ncols(coo.ncols());
 
                 csc_ = CSC<
                             Label,
-- 
2.43.0


From 5860d8e901ee0062e7fc23698a8b16c519d8e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 07/37] fix: move the whole state of a File

The move constructor left both objects owning the mapping, and neither it nor
the move assignment carried over the position and the name.
---
 include/pigo.hpp                | 6 +++---
 include/pigo/impl/pigo.impl.hpp | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 3a9e01f..f3b85f4 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -314,9 +314,9 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(std::move(o.fn_)) {
+                o.data_ = nullptr;
             }
 
             /** @brief Move operator */
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 1660869..925831e 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -91,6 +91,8 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = std::move(o.fn_);
             o.data_ = nullptr;
         }
         return *this;
-- 
2.43.0


From bcbd51f94c6eea22ab1017dde556b21030f61567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 08/37] fix: match a string that ends with the file in
 FileReader::at_str

---
 include/pigo/impl/pigo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 925831e..7490980 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -503,7 +503,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (s.size() > size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
-- 
2.43.0


From 0fce3cc66a27ecf366db49fed1c68ca23aa71e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 09/37] fix: do not read or write beyond the end of a File

Truncated or damaged binary files made the loaders read outside of the
mapping (or report success for counts whose size in bytes overflows), and
a File could be written past its size.
---
 include/pigo.hpp                  | 11 +++++++++++
 include/pigo/impl/coo.impl.hpp    |  5 +++++
 include/pigo/impl/csr.impl.hpp    |  9 +++++++++
 include/pigo/impl/pigo.impl.hpp   | 13 +++++++++++++
 include/pigo/impl/tensor.impl.hpp |  8 ++++++++
 5 files changed, 46 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index f3b85f4..22bfa04 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -294,6 +294,17 @@ namespace pigo {
             FilePos fp_;
             /** The filename */
             std::string fn_;
+
+            /** @brief Ensure that a region fits in the rest of the file
+             *
+             * An Error is thrown if it does not.
+             *
+             * @param v_size the size of the region
+             */
+            void check_remaining_(size_t v_size) {
+                if (v_size > (size_t)(data_+size_-fp_))
+                    throw Error("moving beyond end of file");
+            }
         public:
             /** @brief Opens the given file
              *
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 96649d2..b176d82 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -546,6 +546,11 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure the file holds that much data before making space for it
+        size_t entry_size = 2*sizeof(L)+detail::weight_size_<wgt, W, size_t>(1);
+        if ((size_t)m_ > f.reader().size()/entry_size)
+            throw Error("The COO binary is too short");
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index cde824d..7e5c85b 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -507,6 +507,15 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure the file holds that much data before making space for it
+        size_t left = f.reader().size();
+        if ((size_t)n_ >= left/sizeof(O))
+            throw Error("The CSR binary is too short");
+        left -= ((size_t)n_+1)*sizeof(O);
+        size_t entry_size = sizeof(L)+detail::weight_size_<wgt, W, size_t>(1);
+        if ((size_t)m_ > left/entry_size)
+            throw Error("The CSR binary is too short");
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 7490980..e119ad8 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -101,6 +101,7 @@ namespace pigo {
     template<class T>
     inline
     T File::read() {
+        check_remaining_(sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -112,19 +113,31 @@ namespace pigo {
         fp_ += s.size();
     }
 
+    namespace detail {
+        template<class T>
+        inline
+        size_t bytes_(const T&) { return sizeof(T); }
+
+        inline
+        size_t bytes_(const std::string& val) { return val.size(); }
+    }
+
     template<class T>
     inline
     void File::write(T val) {
+        check_remaining_(detail::bytes_(val));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        check_remaining_(v_size);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        check_remaining_(v_size);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 187320b..19bafb8 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -268,6 +268,14 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure the file holds that much data before making space for it
+        size_t left = f.reader().size();
+        if (m_ != 0 && (size_t)order_ > left/sizeof(L))
+            throw Error("The Tensor binary is too short");
+        size_t entry_size = sizeof(L)*order_+detail::weight_size_<wgt, W, size_t>(1);
+        if (entry_size != 0 && (size_t)m_ > left/entry_size)
+            throw Error("The Tensor binary is too short");
+
         // Allocate space
         allocate_();
 
-- 
2.43.0


From 9761770db49b0ad38adbb7bdf8d7b565b64f52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 10/37] fix: store offsets as ordinals when building a COO from
 a CSR file

The label storage was used for the offsets, which overflows when the ordinal
type is larger than the label type.
---
 include/pigo/impl/coo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index b176d82..e9f793f 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -47,7 +47,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,L*,O*,wgt,W,WS> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
-- 
2.43.0


From 8a6c09cd5dd7bcf0fa30e6f1ae4962c16a8746b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 11/37] fix: do not use the weights of a CSR after they are
 released

With vector storage the weights were copied in a scope that ended before they
were used.
---
 include/pigo/impl/coo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index e9f793f..95ffcf9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -85,7 +85,7 @@ namespace pigo {
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
-- 
2.43.0


From 003c87f7a8f8af464ee28c57417b46712df6f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 12/37] fix: set the number of rows and columns of a COO built
 from a CSR

---
 include/pigo/impl/coo.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 95ffcf9..83ac204 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -68,6 +68,13 @@ namespace pigo {
         // First, set our sizes and allocate space
         n_ = csr.n();
         m_ = csr.m();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
+        if (detail::if_true_<sym>()) {
+            // Either side of the diagonal is moved to the other one
+            if (nrows_ > ncols_) ncols_ = nrows_;
+            else nrows_ = ncols_;
+        }
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
-- 
2.43.0


From a86bfeec893731e8c69ba66ef0224504d7f0d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 13/37] fix: do not share the words of a vector<bool> between
 threads

Threads recording that they have seen a zero label updated bits of the same
word without synchronization, so a zero-based .graph file could be taken for
a one-based one.
---
 include/pigo/impl/csr.impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 7e5c85b..709f31f 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -284,7 +284,8 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        // Each thread writes its own entry, so these cannot be packed bits
+        std::vector<char> have_zeros(num_threads, 0);
         bool have_zero;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
@@ -329,7 +330,7 @@ namespace pigo {
                 rs_p1.move_to_next_int_or_nl();
             }
             if (my_have_zero) {
-                have_zeros[tid] = true;
+                have_zeros[tid] = 1;
             }
 
             #pragma omp barrier
-- 
2.43.0


From b9392996cf3005847d3e25df640f562c78e3b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 14/37] fix: read the rows of a .graph file line by line

An empty first row was skipped, comment lines between rows were taken for
empty rows, a last row without a newline was not counted, and a thread whose
part of the file started within a comment read the numbers in it.
---
 include/pigo.hpp                | 14 +++++++++
 include/pigo/impl/csr.impl.hpp  | 50 ++++++++++++++++++++-------------
 include/pigo/impl/pigo.impl.hpp |  7 +++++
 3 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 22bfa04..becc809 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -155,6 +155,12 @@ namespace pigo {
              */
             void move_to_eol();
 
+            /** @brief Move to the start of the next line
+             *
+             * Lines that consist only of a comment are skipped.
+             */
+            void move_to_next_line();
+
             /** @brief Move to the next instance of the given character
              *
              * If this is on the starting character, it will move off first,
@@ -229,6 +235,14 @@ namespace pigo {
                 return (*d == '\n' || *d == '%' || *d == '#');
             }
 
+            /** @brief Return whether the reader is at an integer
+             *
+             * @return true if the reader is at a digit
+             */
+            bool at_int() {
+                return d < end && *d >= '0' && *d <= '9';
+            }
+
             /** @brief Return whether the reader is at a '0' integer
              *
              * @return true if the reader is at a '0' integer
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 709f31f..8163ce2 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -273,8 +273,8 @@ namespace pigo {
         L read_n = r.read_int<L>();
         r.move_to_next_int();
         O read_m = r.read_int<O>();
-        r.move_to_eol();
-        r.move_to_next_int();
+        // Every line that follows is a row, unless it is a comment
+        r.move_to_next_line();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -302,12 +302,11 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Now, move to the appropriate starting point
-            re.move_to_next_int();
-            if (tid != 0) {
-                rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+            // Now, move to the appropriate starting point, which is the
+            // start of a row
+            re.move_to_next_line();
+            if (tid != 0)
+                rs.move_to_next_line();
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
@@ -318,17 +317,24 @@ namespace pigo {
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool in_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
+                if (rs_p1.at_nl_or_eol()) {
                     ++tid_nls;
-                else
+                    in_row = false;
+                    rs_p1.move_to_next_line();
+                } else if (rs_p1.at_int()) {
                     ++tid_ints;
-                // Determine if this is a 0
-                if (rs_p1.at_zero() && !my_have_zero)
-                    my_have_zero = true;
-
-                rs_p1.move_to_next_int_or_nl();
+                    in_row = true;
+                    // Determine if this is a 0
+                    if (rs_p1.at_zero())
+                        my_have_zero = true;
+                    rs_p1.move_to_non_int();
+                } else
+                    ++rs_p1.d;
             }
+            // The last row does not need a newline
+            if (in_row) ++tid_nls;
             if (my_have_zero) {
                 have_zeros[tid] = 1;
             }
@@ -389,6 +395,7 @@ namespace pigo {
             } else if (!have_zero)
                 offset_pos = 1;
 
+            in_row = false;
             while (rs_p2.good()) {
                 // Ignore any trailing data in the file
                 if (offset_pos >= n_) break;
@@ -397,17 +404,20 @@ namespace pigo {
                 if (rs_p2.at_nl_or_eol()) {
                     // Set the offset to the current endpoint position
                     detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
-                    rs_p2.move_to_next_int_or_nl();
-                } else {
+                    in_row = false;
+                    rs_p2.move_to_next_line();
+                } else if (rs_p2.at_int()) {
                     // Set the actual value
                     L endpoint = rs_p2.read_int<L>();
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
-                        rs_p2.move_to_next_int_or_nl();
-                }
+                    in_row = true;
+                } else
+                    ++rs_p2.d;
             }
+            if (in_row && offset_pos < n_)
+                detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
             max_labels[tid] = my_max;
         }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index e119ad8..8903444 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -513,6 +513,13 @@ namespace pigo {
         while (d < end && *d != '\n') { ++d; }
     }
 
+    inline
+    void FileReader::move_to_next_line() {
+        move_to_eol();
+        if (d < end) ++d;
+        skip_comments();
+    }
+
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-- 
2.43.0


From ac4004e55e611e492b9bab6a6389aabc62024b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 15/37] fix: check the rows of a .graph file against its header

Blank lines at the end of the file were counted as rows of the matrix,
a one-based file was accepted with one row missing, and labels after the last
row were kept without belonging to any row. Also release the memory before
reporting such a file.
---
 include/pigo/impl/csr.impl.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 8163ce2..70f7069 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -374,7 +374,6 @@ namespace pigo {
                 // Now, allocate the space appropriately
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
                 allocate_();
                 detail::set_value_(offsets_, 0, 0);
                 if (!have_zero)
@@ -421,10 +420,23 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
+        if (m_ != 2*read_m && m_ != read_m) {
+            free();
+            throw Error("Mismatch in CSR nonzeros and header");
+        }
+        // One-based files have an additional empty row for label zero
+        L first = have_zero ? 0 : 1;
+        if (n_-first < read_n) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
+        // Anything that follows the rows has to be empty
+        nrows_ = read_n+first;
+        if (detail::get_value_<OS, O>(offsets_, nrows_) != m_) {
+            free();
+            throw Error("Mismatch in CSR rows and header");
+        }
+        n_ = read_n;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
-- 
2.43.0


From 0f2ff4c952d282d2ce73e7cd6bfc33ff35692d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 16/37] fix: keep the last entry of an unweighted tensor
 without a trailing newline

---
 include/pigo/impl/tensor.impl.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 19bafb8..2215672 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -63,12 +63,14 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
+                    if (!r.good()) return;
                     if (detail::if_true_<wgt>()) {
+                        // The weight has to follow
                         r.move_to_next_int();
+                        if (!r.good()) return;
                     } else {
                         r.read_int<L>();
                     }
-                    if (!r.good()) return;
                 }
                 r.move_to_eol();
                 r.move_to_next_int();
@@ -81,8 +83,10 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,false> {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L v = r.read_int<L>();
                     if (!r.good()) return;
+                    L v = r.read_int<L>();
+                    // The weight has to follow
+                    if (detail::if_true_<wgt>() && !r.good()) return;
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-- 
2.43.0


From e772d8dea1aeb9c957e32a0f27d5d0add99bbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 17/37] fix: count the numbers of a line to determine the order
 of a tensor

A weight with an exponent, a carriage return or a tab at the end of the first
line, or text after the last column added to the order.
---
 include/pigo/impl/pigo.impl.hpp | 53 ++++++++++-----------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 8903444..3f2492b 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -443,47 +443,24 @@ namespace pigo {
 
     inline
     size_t FileReader::count_spaces_to_eol() {
-        size_t space_ct = 0;
-        // Loop until a newline
-        while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
-            if (d >= end || *d < '0' || *d > '9') {
-                move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (d >= end || *d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
+        // Count the numbers in the line, there is a space between each two
+        size_t num_ct = 0;
+        while (d < end && !at_nl_or_eol()) {
+            if (!at_int()) {
+                ++d;
+                continue;
             }
+            ++num_ct;
 
-            // Count this as a space
-            ++space_ct;
-
-            // Move passed the space
-            while (d < end && *d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (d >= end || *d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
-                move_to_eol();
-                break;
-            }
+            // Read through the number, with its fraction and exponent
+            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.' ||
+                        *d == 'e' || *d == 'E' ||
+                        ((*d == '-' || *d == '+') &&
+                         (*(d-1) == 'e' || *(d-1) == 'E')))) ++d;
         }
-        return space_ct;
+        // This may have stopped at a comment
+        move_to_eol();
+        return num_ct > 0 ? num_ct-1 : 0;
     }
 
     inline
-- 
2.43.0


From d089fda707fa86758d45cba5223be4b5b0e8e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 18/37] fix: find the character at the start of a FileReader in
 find_offsets

A match at offset zero was missed, and the character after the end was read,
which is outside of the file and was reported for a NUL.
---
 include/pigo/impl/pigo.impl.hpp | 34 +++++----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 3f2492b..c2ce4fc 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -538,23 +538,11 @@ namespace pigo {
             size_t tsize = size();
             size_t tid_start_i = (tid*tsize)/num_threads;
             size_t tid_end_i = ((tid+1)*tsize)/num_threads;
-            FileReader r = *this;
-            FileReader rs = r + tid_start_i;
-            FileReader re = r + tid_end_i;
-
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
-            rs.smaller_end(re);
-
-            FileReader rs_p1 = rs;
 
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c)
+            for (size_t i = tid_start_i; i < tid_end_i; ++i) {
+                if (*(d+i) == c)
                     ++tid_c;
             }
 
@@ -591,26 +579,14 @@ namespace pigo {
             size_t tsize = size();
             size_t tid_start_i = (tid*tsize)/num_threads;
             size_t tid_end_i = ((tid+1)*tsize)/num_threads;
-            FileReader r = *this;
-            FileReader rs = r + tid_start_i;
-            FileReader re = r + tid_end_i;
-
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
-            rs.smaller_end(re);
-
-            FileReader rs_p1 = rs;
 
             // Now, for pass 2, set the offsets for each character
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c) {
-                    detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
+            for (size_t i = tid_start_i; i < tid_end_i; ++i) {
+                if (*(d+i) == c) {
+                    detail::set_value_(t_c, tid_c, i);
                     ++tid_c;
                 }
             }
-- 
2.43.0


From c76f46b962ed9e0cd708783df97dd4c0ac57caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 19/37] fix: allow to free default constructed and empty
 containers

Freeing a default constructed CSR released uninitialized pointers, and an
empty COO or Tensor kept its allocation.
---
 include/pigo.hpp        |  1 +
 include/pigo/coo.hpp    | 12 +++++-------
 include/pigo/csr.hpp    |  3 ++-
 include/pigo/tensor.hpp | 12 +++++-------
 4 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index becc809..f1c15fb 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -578,6 +578,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 0caab1e..96b1162 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -230,7 +230,7 @@ namespace pigo {
             COO(CSR<CL, CO, LabelStorage, OrdinalStorage, weighted, CW, CWS>& csr);
 
             /** @brief Initialize an empty COO */
-            COO() : n_(0), nrows_(0), ncols_(0), m_(0) { }
+            COO() : x_(), y_(), w_(), n_(0), nrows_(0), ncols_(0), m_(0) { }
 
             /** @brief Provide space for copying in existing, out-of-band data */
             COO(Label n, Label nrows, Label ncols, Ordinal m) :
@@ -306,12 +306,10 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index c5e4412..3afadf7 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -126,7 +126,8 @@ namespace pigo {
                     coo);
         public:
             /** @brief Initialize an empty CSR */
-            CSR() : n_(0), m_(0), nrows_(0), ncols_(0) { }
+            CSR() : endpoints_(), offsets_(), weights_(), n_(0), m_(0),
+                    nrows_(0), ncols_(0) { }
 
             /** @brief Allocate a CSR for the given size */
             CSR(Label n, Ordinal m, Label nrows, Label ncols) :
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 43a1aef..5b1f378 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -148,7 +148,7 @@ namespace pigo {
             Tensor(File& f, FileType ft);
 
             /** @brief Initialize an empty Tensor */
-            Tensor() : order_(0), m_(0) { }
+            Tensor() : c_(), w_(), order_(0), m_(0) { }
 
             /** @brief Provide space for copying in existing, out-of-band data */
             Tensor(Ordinal order, Ordinal m) :
@@ -191,12 +191,10 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    order_ = 0;
-                    m_ = 0;
-                }
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                order_ = 0;
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new Tensor */
-- 
2.43.0


From 325660a8fd4678d108641db9d374be52eb11de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 20/37] fix: report errors from parallel regions to the caller

Failing to create the output file in COO::write or Tensor::write (also because
there is nothing to write), or to allocate space while reading, threw out of
a parallel region and terminated the program.
---
 include/pigo/impl/coo.impl.hpp    | 29 +++++++++++++++++++++++------
 include/pigo/impl/csr.impl.hpp    | 22 +++++++++++++++-------
 include/pigo/impl/tensor.impl.hpp | 28 ++++++++++++++++++++++------
 3 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 83ac204..8dcec07 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -7,6 +7,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -403,6 +404,7 @@ namespace pigo {
         // second, copy over the values appropriately
 
         std::vector<size_t> nl_offsets(num_threads);
+        std::exception_ptr err;
 
         L max_row = 0;
         L max_col = 0;
@@ -461,7 +463,12 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                // Exceptions cannot leave the parallel region
+                try {
+                    allocate_();
+                } catch (...) {
+                    err = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -472,11 +479,13 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (!err && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
         }
 
+        if (err) std::rethrow_exception(err);
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
@@ -600,7 +609,8 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        std::exception_ptr err;
+        #pragma omp parallel shared(f) shared(pos_offsets) shared(err)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -642,16 +652,22 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                // Exceptions cannot leave the parallel region
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    err = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (!err) my_fp = f->fp()+pos_offsets[tid];
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < (err ? 0 : m_); ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -665,6 +681,7 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+        if (err) std::rethrow_exception(err);
     }
 
 }
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 70f7069..2a3b8d3 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -10,6 +10,7 @@
 #ifdef _OPENMP
 #include <omp.h>
 #endif
+#include <exception>
 
 namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -281,6 +282,7 @@ namespace pigo {
         // storage
         // second, copy over the values appropriately
 
+        std::exception_ptr err;
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
@@ -374,11 +376,16 @@ namespace pigo {
                 // Now, allocate the space appropriately
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
-                allocate_();
-                detail::set_value_(offsets_, 0, 0);
-                if (!have_zero)
-                    detail::set_value_(offsets_, 1, 0);
-                detail::set_value_(offsets_, n_, m_);
+                // Exceptions cannot leave the parallel region
+                try {
+                    allocate_();
+                    detail::set_value_(offsets_, 0, 0);
+                    if (!have_zero)
+                        detail::set_value_(offsets_, 1, 0);
+                    detail::set_value_(offsets_, n_, m_);
+                } catch (...) {
+                    err = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -395,7 +402,7 @@ namespace pigo {
                 offset_pos = 1;
 
             in_row = false;
-            while (rs_p2.good()) {
+            while (!err && rs_p2.good()) {
                 // Ignore any trailing data in the file
                 if (offset_pos >= n_) break;
 
@@ -415,10 +422,11 @@ namespace pigo {
                 } else
                     ++rs_p2.d;
             }
-            if (in_row && offset_pos < n_)
+            if (!err && in_row && offset_pos < n_)
                 detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
             max_labels[tid] = my_max;
         }
+        if (err) std::rethrow_exception(err);
 
         if (m_ != 2*read_m && m_ != read_m) {
             free();
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 2215672..393f1ad 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -8,6 +8,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -132,6 +133,7 @@ namespace pigo {
         // second, copy over the values appropriately
 
         std::vector<size_t> nl_offsets(num_threads);
+        std::exception_ptr err;
 
         #pragma omp parallel
         {
@@ -184,7 +186,12 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                // Exceptions cannot leave the parallel region
+                try {
+                    allocate_();
+                } catch (...) {
+                    err = std::current_exception();
+                }
             }
             #pragma omp barrier
 
@@ -195,10 +202,11 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (!err && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
+        if (err) std::rethrow_exception(err);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
@@ -318,7 +326,8 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        std::exception_ptr err;
+        #pragma omp parallel shared(f) shared(pos_offsets) shared(err)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -356,16 +365,22 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                // Exceptions cannot leave the parallel region
+                try {
+                    f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                } catch (...) {
+                    err = std::current_exception();
+                }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (!err) my_fp = f->fp()+pos_offsets[tid];
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < (err ? 0 : m_); ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, e*order_+idx);
                     write_ascii(my_fp, x);
@@ -380,6 +395,7 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+        if (err) std::rethrow_exception(err);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
-- 
2.43.0


From 49bfe7fffe427b12bffce0fa463d2d16b044d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 21/37] fix: write the smallest value of a signed type

Its negation overflows and digits below '0' were written.
---
 include/pigo/impl/pigo.impl.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index c2ce4fc..73f0fbc 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -235,9 +235,11 @@ namespace pigo {
         }
         template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
         inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
+        typename std::make_unsigned<T>::type get_positive(T obj) {
+            // The smallest value has no positive counterpart in T
+            typedef typename std::make_unsigned<T>::type U;
+            if (obj < 0) return (U)(0-(U)obj);
+            return (U)obj;
         }
     }
 
@@ -295,15 +297,15 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
+        auto val = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(val);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
-            obj /= 10;
-        } while (obj != 0);
+            *((char*)fp+pos--) = (val%10)+'0';
+            val /= 10;
+        } while (val != 0);
         fp += num_size;
     }
 
-- 
2.43.0


From acf41497cf119fb2fbdb7600b9a9dda315c96897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 22/37] fix: release the descriptor and the mapping when
 opening a File fails

---
 include/pigo/impl/pigo.impl.hpp | 52 ++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 73f0fbc..9e8812b 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -37,9 +37,11 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
-            if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
+            bool sized = fseeko(w_f, max_size-1, SEEK_SET) == 0 &&
+                    fputc(1, w_f) == 1;
+            // This also closes the file when it cannot be sized
+            if (fclose(w_f) != 0 || !sized)
+                throw Error("PIGO: Unable to set size");
         }
 
         // Open the file to get the total size and base the mmap on
@@ -53,24 +55,40 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
-
-        // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
-        size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
-        if (mode == WRITE && size_ != max_size)
-            throw Error("PIGO: Wrong file size of new file");
+        try {
+            // Find the file size
+            if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+            size_ = ftello(f);
+            if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+
+            if (mode == WRITE && size_ != max_size)
+                throw Error("PIGO: Wrong file size of new file");
+
+            // MMAP the space
+            data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
+                    MAP_SHARED | MAP_NORESERVE, fd, 0);
+            if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
+        } catch (...) {
+            fclose(f);
+            throw;
+        }
 
-        // MMAP the space
-        data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
-                MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        // The mapping is not released by the destructor if this fails
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
-- 
2.43.0


From 8187dd9c335dd47794229d098d6c04f7eabbc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 23/37] fix: load both parts of a binary DiGraph as binary CSRs

The type of each part was detected again, so that a file truncated after
the in-edges, or with a damaged header of a part, was loaded as an edge
list instead of being refused.
---
 include/pigo/impl/graph.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 48355d8..1787990 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -38,7 +38,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -47,7 +47,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
-- 
2.43.0


From d7b9a4b6aeca3e9754c5d37fac8deb2b2606ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 24/37] fix: account for the newline of every entry when
 writing a Tensor

The newline was accounted for with the coordinates. Entries of a tensor of
order zero have none, so that their text was longer than the file.
---
 include/pigo/impl/tensor.impl.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 393f1ad..58e9bfc 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -341,17 +341,21 @@ namespace pigo {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, e*order_+idx);
                     my_size += write_size(x);
-                    // Account for the separating space or newline
-                    my_size += 1;
+                    // Account for the separating space
+                    if (idx+1 < order_)
+                        my_size += 1;
                 }
 
                 if (detail::if_true_<wgt>()) {
                     // Account for the separating space
-                    my_size += 1;
+                    if (order_ > 0)
+                        my_size += 1;
 
                     auto w = detail::get_value_<WS, W>(w_, e);
                     my_size += write_size(w);
                 }
+                // Account for the newline
+                my_size += 1;
             }
 
             pos_offsets[tid+1] = my_size;
@@ -388,7 +392,8 @@ namespace pigo {
                         pigo::write(my_fp, ' ');
                 }
                 if (detail::if_true_<wgt>()) {
-                    pigo::write(my_fp, ' ');
+                    if (order_ > 0)
+                        pigo::write(my_fp, ' ');
                     auto w = detail::get_value_<WS, W>(w_, e);
                     write_ascii(my_fp, w);
                 }
-- 
2.43.0


From bc9c00b46e2f7ea1c4419d0d0189a97b82337428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 25/37] fix: compute the positions in a Tensor as size_t

With an ordinal narrower than int copying a tensor did not end if the number
of coordinates did not fit into the ordinal, and with wider ones positions
wrapped around.
---
 include/pigo/impl/tensor.impl.hpp | 8 ++++----
 include/pigo/tensor.hpp           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 58e9bfc..d695ec6 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -50,7 +50,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -339,7 +339,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space
                     if (idx+1 < order_)
@@ -386,7 +386,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < (err ? 0 : m_); ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -433,7 +433,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 5b1f378..4d52929 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -106,7 +106,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
-- 
2.43.0


From 18c5a6ee2429e44a81a6a74b72c61518b89931dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 26/37] fix: do not write a NUL behind a printed floating point
 number

write_size does not account for it, so that it overwrote the following byte
or, at the end of a buffer or mapped file, memory behind it.
---
 include/pigo/impl/stb.impl.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/pigo/impl/stb.impl.hpp b/include/pigo/impl/stb.impl.hpp
index 81c3425..e5a59d9 100644
--- a/include/pigo/impl/stb.impl.hpp
+++ b/include/pigo/impl/stb.impl.hpp
@@ -306,8 +306,7 @@ namespace pigo {
           }
        }
 
-        *bf = 0;
-
+       // the text is not terminated, as no space is accounted for that
        return (int)(bf - buf);
     }
 
-- 
2.43.0


From b3e012331f0465a5209da7f33b3685029edd9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 27/37] fix: refuse files with more labels or entries than the
 types can count

The numbers of rows and entries wrapped around, so that less memory was
allocated than used, for example by a CSR for the label 4294967295.
---
 include/pigo/impl/coo.impl.hpp    | 10 ++++++++++
 include/pigo/impl/csr.impl.hpp    | 19 ++++++++++++++-----
 include/pigo/impl/tensor.impl.hpp |  2 ++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 8dcec07..31b3541 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -8,6 +8,7 @@
 #endif
 #include <atomic>
 #include <exception>
+#include <limits>
 #include <vector>
 #include <type_traits>
 
@@ -465,6 +466,8 @@ namespace pigo {
                 m_ = nl_offsets[num_threads-1];
                 // Exceptions cannot leave the parallel region
                 try {
+                    if ((size_t)m_ != nl_offsets[num_threads-1])
+                        throw Error("Too many entries for the ordinal type");
                     allocate_();
                 } catch (...) {
                     err = std::current_exception();
@@ -486,6 +489,13 @@ namespace pigo {
 
         if (err) std::rethrow_exception(err);
 
+        // The number of labels has to fit as well
+        if (max_row == std::numeric_limits<L>::max() ||
+                max_col == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Too large labels for the label type");
+        }
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 2a3b8d3..9a4dd4e 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -11,6 +11,7 @@
 #include <omp.h>
 #endif
 #include <exception>
+#include <limits>
 
 namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
@@ -71,7 +72,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)n_+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -378,6 +379,10 @@ namespace pigo {
                 n_ = nl_offsets[num_threads-1];
                 // Exceptions cannot leave the parallel region
                 try {
+                    if ((size_t)m_ != int_offsets[num_threads-1])
+                        throw Error("Too many endpoints for the ordinal type");
+                    if ((size_t)n_ != nl_offsets[num_threads-1])
+                        throw Error("Too many rows for the label type");
                     allocate_();
                     detail::set_value_(offsets_, 0, 0);
                     if (!have_zero)
@@ -428,7 +433,7 @@ namespace pigo {
         }
         if (err) std::rethrow_exception(err);
 
-        if (m_ != 2*read_m && m_ != read_m) {
+        if ((size_t)m_ != 2*(size_t)read_m && m_ != read_m) {
             free();
             throw Error("Mismatch in CSR nonzeros and header");
         }
@@ -451,6 +456,10 @@ namespace pigo {
             if (max_labels[thread] > col_max)
                 col_max = max_labels[thread];
         }
+        if (col_max == std::numeric_limits<L>::max()) {
+            free();
+            throw Error("Too large labels for the label type");
+        }
         ncols_ = col_max+1;
     }
 
@@ -464,7 +473,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -502,7 +511,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -550,7 +559,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index d695ec6..2d2a03e 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -188,6 +188,8 @@ namespace pigo {
                 m_ = nl_offsets[num_threads-1];
                 // Exceptions cannot leave the parallel region
                 try {
+                    if ((size_t)m_ != nl_offsets[num_threads-1])
+                        throw Error("Too many entries for the ordinal type");
                     allocate_();
                 } catch (...) {
                     err = std::current_exception();
-- 
2.43.0


From 05206be9c9525668d84b3e44069e8c8581a60c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 28/37] fix: read the weight of an entry from its own line

---
 include/pigo/impl/coo.impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 31b3541..8b8f1a5 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -221,6 +221,12 @@ namespace pigo {
         template <bool wgt, class W, class WS, bool counting>
         inline
         void read_wgt_(size_t& coord_pos, WS& ws, FileReader& r) {
+            if (!if_true_<wgt>()) return;
+            // The weight is in the same line, if there is one
+            FileReader eol = r;
+            eol.move_to_eol();
+            FileReader line = r;
+            line.smaller_end(eol);
             read_wgt_i_<
                 wgt,
                 std::is_integral<W>::value,
@@ -229,7 +235,8 @@ namespace pigo {
                 W,
                 WS,
                 counting
-            >::op_(coord_pos, ws, r);
+            >::op_(coord_pos, ws, line);
+            r = eol;
         }
 
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS, bool count_only>
-- 
2.43.0


From 8fd02aeb5aa095b867870e52402eda7b9720dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 29/37] fix: do not store incomplete entries of a Tensor beyond
 a thread's share

---
 include/pigo/impl/tensor.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 2d2a03e..459e262 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -204,7 +204,8 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (!err && rs_p2.good()) {
+            // An incomplete entry at the end has no position to go to
+            while (!err && rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
-- 
2.43.0


From 8a3913252c8f374e2021c588dd89884f91979e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 30/37] fix: keep the row of the last vertex of a one-based
 .graph file

---
 include/pigo/impl/coo.impl.hpp |  8 ++++++--
 include/pigo/impl/csr.impl.hpp | 34 ++++++++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 8b8f1a5..232a6f8 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -98,10 +98,14 @@ namespace pigo {
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
+        // The row of the last vertex in a one-based .graph file follows n
+        L rows = n_;
+        if (csr.n() < csr.nrows() && offsets[csr.n()] < csr.m()) ++rows;
+
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             auto start = endpoints + offsets[v];
-            auto end = endpoints + offsets[v+1];
+            auto end = endpoints + (v < n_ ? offsets[v+1] : csr.m());
             size_t coo_cur = offsets[v];
 
             if (detail::if_true_<sym>() && !detail::if_true_<ut>())
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 9a4dd4e..1ec44bc 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -117,6 +117,9 @@ namespace pigo {
         m_ = coo.m();
         nrows_ = coo.nrows();
         ncols_ = coo.ncols();
+        // A COO from a one-based .graph file has labels beyond its n
+        if (n_ < nrows_) n_ = nrows_;
+        if (n_ < ncols_) n_ = ncols_;
 
         // Allocate the offsets and endpoints
         allocate_();
@@ -578,11 +581,17 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
+        // The row of the last vertex in a one-based .graph file follows n
+        L rows = n_;
+        if (rows < nrows_ && detail::get_value_<OS, O>(offsets_, rows) < m_)
+            ++rows;
+
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
-            O end = detail::get_value_<OS, O>(offsets_, v+1);
+            O end = m_;
+            if (v < n_) end = detail::get_value_<OS, O>(offsets_, v+1);
 
             // Sort the range from the start to the end
             if (detail::if_true_<wgt>()) {
@@ -623,17 +632,23 @@ namespace pigo {
         // First, sort ourselves
         sort();
 
+        // The row of the last vertex in a one-based .graph file follows n
+        L rows = n_;
+        if (rows < nrows_ && detail::get_value_<OS, O>(offsets_, rows) < m_)
+            ++rows;
+
         // Next, count the degrees for each vertex, excluding duplicates
         std::shared_ptr<L> degs_storage;
-        detail::allocate_mem_(degs_storage, n_);
+        detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
         nO new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O start = detail::get_value_<OS, O>(offsets_, v);
-            O end = detail::get_value_<OS, O>(offsets_, v+1);
+            O end = m_;
+            if (v < n_) end = detail::get_value_<OS, O>(offsets_, v+1);
             if (end-start == 0) {
                 degs[v] = 0;
                 continue;
@@ -728,7 +743,9 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)n_, new_m);
+                nO last_offset = new_m;
+                if (rows > n_) last_offset -= degs[n_];
+                detail::set_value_(new_offsets, (nL)n_, last_offset);
             }
 
             // Now, all new offsets have been assigned
@@ -736,9 +753,10 @@ namespace pigo {
 
         // Repeat going through the edges, copying out the endpoints
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O o_start = detail::get_value_<OS, O>(offsets_, v);
-            O o_end = detail::get_value_<OS, O>(offsets_, v+1);
+            O o_end = m_;
+            if (v < n_) o_end = detail::get_value_<OS, O>(offsets_, v+1);
             if (o_end-o_start == 0) continue;
 
             nO n_cur = detail::get_value_<nOS, nO>(new_offsets, (nL)v);
-- 
2.43.0


From 57ce7cc40e648fe8983fcc978844ed503b4077c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 31/37] fix: move past the sign in FileReader::read_sign

---
 include/pigo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index f1c15fb..26b8f10 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,8 +93,8 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (d < end && *d == '-') return (T)(-1);
-                return (T)1;
+                if (d >= end || (*d != '-' && *d != '+')) return (T)1;
+                return (*d++ == '-') ? (T)(-1) : (T)1;
             }
 
             /** @brief Determine if only spaces remain before the line
-- 
2.43.0


From b707a1d4cd0da7f468d995d3aa95fada9a57242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 32/37] fix: running out of memory while a CSR is built from a
 COO ended the process

The storages of the COO were copied by every thread inside of the parallel
region, so the bad_alloc of a vector could not reach the caller.
---
 include/pigo/impl/csr.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 1ec44bc..99e6aea 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -169,9 +169,9 @@ namespace pigo {
             for (L v = 0; v < n_; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
-- 
2.43.0


From 9510fbbf569331c2162f3ba4658e3f5569dfd819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 33/37] fix: weights with many digits after the point are read
 as infinity

---
 include/pigo/impl/pigo.impl.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 9e8812b..0f43210 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -13,6 +13,7 @@
 #include <fcntl.h>
 
 #include <cstring>
+#include <limits>
 #ifdef _OPENMP
 #include <omp.h>
 #endif
@@ -385,9 +386,12 @@ namespace pigo {
             size_t fraction_count = 0;
             // Read the 'B' part
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                // Further digits than fit are of no significance
+                if (fraction < std::numeric_limits<T>::max()/100) {
+                    fraction = fraction*10. + (T)(*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
-- 
2.43.0


From 4dba30207bd0fff64a918bc829e5347541bea81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 34/37] fix: report the sizes of a Matrix and a DiGraph in the
 type of their labels

---
 include/pigo/graph.hpp  | 6 +++---
 include/pigo/matrix.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index f6273cf..0d13b83 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -299,13 +299,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index a1e76e4..efbab3e 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -205,10 +205,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
-- 
2.43.0


From 8779ed3d3b96a27fe49aec2cd59cea11d461ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 35/37] fix: refuse labels beyond a signed label type

Labels that do not fit wrapped to negative values, which were then used as
positions in the degrees and offsets.
---
 include/pigo/impl/coo.impl.hpp | 27 +++++++++++++++++++--------
 include/pigo/impl/csr.impl.hpp |  4 ++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 232a6f8..6c8b784 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -243,6 +243,16 @@ namespace pigo {
             r = eol;
         }
 
+        /** Read a label, where those that do not fit into a signed label
+         * type are the largest label instead of a negative one */
+        template<class L>
+        inline L read_label_(FileReader& r) {
+            auto label = r.read_int<typename std::make_unsigned<L>::type>();
+            if (label > (decltype(label))std::numeric_limits<L>::max())
+                return std::numeric_limits<L>::max();
+            return label;
+        }
+
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS, bool count_only>
         struct read_coord_entry_i_;
 
@@ -250,10 +260,10 @@ namespace pigo {
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
             static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
-                L x = r.read_int<L>();
+                L x = read_label_<L>(r);
                 r.move_to_next_int();
                 if (!r.good()) return;
-                L y = r.read_int<L>();
+                L y = read_label_<L>(r);
                 bool drop = (if_true_<sl>() && x == y) ||
                     (!if_true_<sym>() && if_true_<ut>() && x > y);
                 // The weight of a dropped entry has no position to go to
@@ -270,10 +280,10 @@ namespace pigo {
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false> {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
-                L x = r.read_int<L>();
+                L x = read_label_<L>(r);
                 r.move_to_next_int();
                 if (!r.good()) return;
-                L y = r.read_int<L>();
+                L y = read_label_<L>(r);
                 bool drop = (if_true_<sl>() && x == y) ||
                     (!if_true_<sym>() && if_true_<ut>() && x > y);
                 // The weight of a dropped entry has no position to go to
@@ -319,10 +329,10 @@ namespace pigo {
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,false> {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
-                L x = r.read_int<L>();
+                L x = read_label_<L>(r);
                 r.move_to_next_int();
                 if (!r.good()) return;
-                L y = r.read_int<L>();
+                L y = read_label_<L>(r);
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
@@ -352,10 +362,11 @@ namespace pigo {
             throw NotYetImplemented("Unable to handle different MatrixMarket formats");
 
         // Read out the first line
+        typedef typename std::make_unsigned<L>::type UL;
         r.move_to_next_int();
-        L nrows = r.read_int<L>()+1;        // account for MM starting at 1
+        L nrows = r.read_int<UL>()+1;       // account for MM starting at 1
         r.move_to_next_int();
-        L ncols = r.read_int<L>()+1;        // account for MM starting at 1
+        L ncols = r.read_int<UL>()+1;       // account for MM starting at 1
         r.move_to_next_int();
         O nnz = r.read_int<O>();
         r.move_to_eol();
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 99e6aea..8507694 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -275,7 +275,7 @@ namespace pigo {
         // We have a header containing the number of vertices and edges.
         // This is used to verify and check correctness
         r.move_to_first_int();
-        L read_n = r.read_int<L>();
+        L read_n = detail::read_label_<L>(r);
         r.move_to_next_int();
         O read_m = r.read_int<O>();
         // Every line that follows is a row, unless it is a comment
@@ -422,7 +422,7 @@ namespace pigo {
                     rs_p2.move_to_next_line();
                 } else if (rs_p2.at_int()) {
                     // Set the actual value
-                    L endpoint = rs_p2.read_int<L>();
+                    L endpoint = detail::read_label_<L>(rs_p2);
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-- 
2.43.0


From 31a791acee1224bf990188f89569c451140c683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:39 +0000
Subject: [PATCH 36/37] fix: refuse a symmetric COO whose entries the ordinal
 type cannot count

---
 include/pigo/impl/coo.impl.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 6c8b784..c728cf2 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -78,8 +78,12 @@ namespace pigo {
             else nrows_ = ncols_;
         }
 
-        if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
+        if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+            size_t entries = (size_t)csr.m() * 2;
+            m_ = entries;
+            if ((size_t)m_ != entries)
+                throw Error("Too many entries for the ordinal type");
+        }
         else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
-- 
2.43.0


From c1e74f96bca3c54a565218fde6aa49424a4707d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:29 +0000
Subject: [PATCH 37/37] fix: share loops of narrow index types correctly among
 many threads

The bounds of a static worksharing loop are computed in the type of its
variable, so with an 8-bit label or ordinal type and more threads than
that type counts the threads' shares overlapped or lay outside the
arrays.  Count these loops in size_t.
---
 include/pigo/coo.hpp              | 4 ++--
 include/pigo/impl/coo.impl.hpp    | 4 ++--
 include/pigo/impl/csr.impl.hpp    | 8 ++++----
 include/pigo/impl/tensor.impl.hpp | 6 +++---
 include/pigo/tensor.hpp           | 2 +-
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 96b1162..ff8f234 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -176,7 +176,7 @@ namespace pigo {
             /** @brief Copies the COO values from the other COO */
             void copy_(const COO& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                     Label x_val = detail::get_value_<
                                 Storage,
                                 Label
@@ -190,7 +190,7 @@ namespace pigo {
                 }
                 if (detail::if_true_<weighted>()) {
                     #pragma omp parallel for
-                    for (Ordinal pos = 0; pos < m_; ++pos) {
+                    for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                         Weight w_val = detail::get_value_<
                                     WeightStorage,
                                     Weight
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index c728cf2..895932b 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -656,7 +656,7 @@ namespace pigo {
             size_t my_size = 0;
 
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 my_size += write_size(x);
 
@@ -703,7 +703,7 @@ namespace pigo {
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < (err ? 0 : m_); ++e) {
+            for (size_t e = 0; e < (err ? 0 : (size_t)m_); ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 8507694..480ca1a 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -166,7 +166,7 @@ namespace pigo {
             // We need to initialize degrees to count for zero-degree
             // vertices
             #pragma omp for
-            for (L v = 0; v < n_; ++v)
+            for (size_t v = 0; v < (size_t)n_; ++v)
                 all_degs[v] = 0;
 
             auto& coo_x = coo.x();
@@ -174,7 +174,7 @@ namespace pigo {
             auto& coo_w = coo.w();
 
             #pragma omp for
-            for (O x_id = 0; x_id < m_; ++x_id) {
+            for (size_t x_id = 0; x_id < (size_t)m_; ++x_id) {
                 size_t deg_inc = detail::get_value_<COOStorage, L>(coo_x, x_id);
                 #pragma omp atomic
                 ++all_degs[deg_inc];
@@ -234,7 +234,7 @@ namespace pigo {
 
             // Finally, copy over the actual endpoints
             #pragma omp for
-            for (O coo_pos = 0; coo_pos < m_; ++coo_pos) {
+            for (size_t coo_pos = 0; coo_pos < (size_t)m_; ++coo_pos) {
                 L src = detail::get_value_<COOStorage, L>(coo_x, coo_pos);
                 L dst = detail::get_value_<COOStorage, L>(coo_y, coo_pos);
 
@@ -246,7 +246,7 @@ namespace pigo {
                 }
                 O this_offset = detail::get_value_<OS, O>(offsets_, src+1) - this_offset_pos;
                 detail::set_value_(endpoints_, this_offset, dst);
-                detail::copy_weight<wgt,W,WS,COOW,COOWS>(weights_, this_offset, coo_w, coo_pos);
+                detail::copy_weight<wgt,W,WS,COOW,COOWS>(weights_, (size_t)this_offset, coo_w, coo_pos);
             }
 
         }
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 459e262..57101da 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -340,7 +340,7 @@ namespace pigo {
             size_t my_size = 0;
 
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
@@ -387,7 +387,7 @@ namespace pigo {
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < (err ? 0 : m_); ++e) {
+            for (size_t e = 0; e < (err ? 0 : (size_t)m_); ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
@@ -434,7 +434,7 @@ namespace pigo {
 
             const L* c = (const L*)detail::get_const_data_<S>(c_);
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 4d52929..fba7df1 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -115,7 +115,7 @@ namespace pigo {
                 }
                 if (detail::if_true_<weighted>()) {
                     #pragma omp parallel for
-                    for (Ordinal pos = 0; pos < m_; ++pos) {
+                    for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                         Weight w_val = detail::get_value_<
                                     WeightStorage,
                                     Weight
-- 
2.43.0

