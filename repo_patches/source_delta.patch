From 867223ba3971fb61e64bd249584e89b3efb91784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 01/57] fix: matrix copy and assignment of empty matrices and
 self-assignment

Self-assignment released the elements before copying them, and copying an
empty matrix allocated a zero-sized block that the next assignment refused
to replace.
---
 inc/susa/matrix.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..979fbcb 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -443,7 +443,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
     this->sizet_cols      = mat_arg.sizet_cols;
     this->sizet_objects   = mat_arg.sizet_objects;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
@@ -1292,7 +1292,9 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
-    if (sizet_objects != 0 && _matrix != nullptr)
+    if (this == &mat_arg) return *this;
+
+    if (_matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
         _matrix         = nullptr;
@@ -1300,9 +1302,9 @@ template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Alloc
     }
     sizet_rows      = mat_arg.sizet_rows;
     sizet_cols      = mat_arg.sizet_cols;
-    sizet_objects   = sizet_rows * sizet_cols;
+    sizet_objects   = mat_arg.sizet_objects;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
-- 
2.43.0


From 50c363c2cdbea5fc137f7d7c0dbae49ca76f8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 02/57] fix: leave a moved-from matrix empty and usable

The source of a move kept its dimensions without storage (copying or
resizing it dereferenced a null pointer) and lost its fallback element.
---
 inc/susa/matrix.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 979fbcb..0571fb6 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -489,15 +489,17 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
+: T_default(new T)
+, alloc(mat_arg.alloc)
 {
-    sizet_rows          = mat_arg.sizet_rows;
-    sizet_cols          = mat_arg.sizet_cols;
-    sizet_objects       = mat_arg.sizet_objects;
-    T_default              = mat_arg.T_default;
-    T_default              = mat_arg.T_default;
-    _matrix             = mat_arg._matrix;
-    mat_arg.T_default      = nullptr;
-    mat_arg._matrix     = nullptr;
+    sizet_rows            = mat_arg.sizet_rows;
+    sizet_cols            = mat_arg.sizet_cols;
+    sizet_objects         = mat_arg.sizet_objects;
+    _matrix               = mat_arg._matrix;
+    mat_arg.sizet_rows    = 0;
+    mat_arg.sizet_cols    = 0;
+    mat_arg.sizet_objects = 0;
+    mat_arg._matrix       = nullptr;
 }
 
 
-- 
2.43.0


From 0983faf72a5df9e835225739bda5583c2d63b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 03/57] fix: matrix get() must not read out of bounds when
 assertions are disabled

---
 inc/susa/matrix.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 0571fb6..4b86245 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -528,7 +528,12 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
-  return _matrix[get_lindex(sizet_row,sizet_col)];
+  if (sizet_row < sizet_rows && sizet_col < sizet_cols && _matrix != nullptr)
+  {
+      return _matrix[get_lindex(sizet_row,sizet_col)];
+  }
+
+  return *T_default;
 }
 
 template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t sizet_elem ) const
@@ -537,7 +542,12 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
-  return this->_matrix[sizet_elem];
+  if (sizet_elem < sizet_objects && _matrix != nullptr)
+  {
+      return _matrix[sizet_elem];
+  }
+
+  return *T_default;
 }
 
 template <typename T, typename Allocator> inline size_t matrix <T, Allocator>::get_lindex(size_t sizet_row, size_t sizet_col) const
-- 
2.43.0


From 1d2daa004c2e912ba93d49d9ce9f989e8f2104d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 04/57] fix: set_row() and set_col() accepted the index one
 past the end

---
 inc/susa/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 4b86245..5b5f371 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -631,8 +631,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -644,8 +644,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
-- 
2.43.0


From f2bb5070b5b8e6eba13383a2d55fe974898cbf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 05/57] fix: swap_rows() and swap_cols() accessed memory
 outside the matrix

---
 inc/susa/matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 5b5f371..33ecbb0 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -679,6 +679,9 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "one or more indices is/are out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     T T_tmp;
 
     for (size_t row = 0; row < sizet_rows; row++)
@@ -692,6 +695,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "one or more indices is/are out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     T T_tmp;
 
     for (size_t col = 0; col < sizet_cols; col++)
-- 
2.43.0


From 965ed7336859d153fa68199b5141dbb9f05974bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 06/57] fix: row() and col() returned uninitialized elements
 for an index past the end

---
 inc/susa/matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 33ecbb0..000c09a 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -596,14 +596,14 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+    if (sizet_row >= sizet_rows) return matrix <T, Allocator> ();
+
     matrix <T, Allocator> mat_ret(1, sizet_cols);
 
-    if (sizet_row < sizet_rows)
+    for (size_t sizet_i = 0; sizet_i < sizet_cols; sizet_i++)
     {
-        for (size_t sizet_i = 0; sizet_i < sizet_cols; sizet_i++)
-        {
-          mat_ret(sizet_i) = this->_matrix[get_lindex(sizet_row,sizet_i)];
-        }
+      mat_ret(sizet_i) = this->_matrix[get_lindex(sizet_row,sizet_i)];
     }
 
     return mat_ret;
@@ -611,14 +611,14 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+    if (sizet_col >= sizet_cols) return matrix <T, Allocator> ();
+
     matrix <T, Allocator> mat_ret(sizet_rows, 1);
 
-    if (sizet_col < sizet_cols)
+    for (size_t sizet_i = 0; sizet_i < sizet_rows; sizet_i++)
     {
-        for (size_t sizet_i = 0; sizet_i < sizet_rows; sizet_i++)
-        {
-          mat_ret(sizet_i) = this->_matrix[get_lindex(sizet_i,sizet_col)];
-        }
+      mat_ret(sizet_i) = this->_matrix[get_lindex(sizet_i,sizet_col)];
     }
 
     return mat_ret;
-- 
2.43.0


From 6cfd132c75ec1b29b5b52d5d463c53e74eb2b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 07/57] fix: left(), right() and mid() returned wrong or
 foreign elements

right() of a vector started one element early (before the block for the
whole vector), a part longer than the source was read past the end or left
uninitialized, and mid() refused a single element.
---
 inc/susa/matrix.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 000c09a..876736b 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -808,6 +808,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_objects < sizet_left) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -819,6 +820,9 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_cols < sizet_left) return mat_ret;
+
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -840,11 +844,12 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_objects < sizet_right) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
@@ -853,6 +858,9 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_cols < sizet_right) return mat_ret;
+
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -871,7 +879,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
 
     SUSA_ASSERT(_matrix != nullptr);
     if (_matrix == nullptr) return mat_ret;
-    SUSA_ASSERT(sizet_end > sizet_begin);
+    SUSA_ASSERT(sizet_end >= sizet_begin);
     if (sizet_end < sizet_begin) return mat_ret;
 
     size_t sz_width = sizet_end - sizet_begin + 1;
@@ -879,7 +887,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -893,7 +901,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From 290773c466afc0352e99f11134a5890e4a9aa931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 08/57] fix: define the declared operator/ of a scalar and a
 matrix

---
 inc/susa/matrix.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 876736b..c52d5d7 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1272,6 +1272,20 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
     return mat_ret;
 }
 
+template <typename T, typename Allocator> matrix<T, Allocator> operator/( T T_arg, const matrix <T, Allocator> &mat_argr )
+{
+
+    matrix <T, Allocator> mat_ret(mat_argr.shape());
+    size_t sizet_size = mat_argr.size();
+
+    for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
+    {
+        mat_ret(sizet_index) = T_arg / mat_argr(sizet_index);
+    }
+
+    return mat_ret;
+}
+
 
 //  -=
 template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Allocator>::operator-=(const matrix <T, Allocator> &mat_arg)
-- 
2.43.0


From fe3de8ea502d1f2ec5846729efd4698d12df53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 09/57] fix: normalization of matrix text

Short strings kept trailing blanks that were counted as columns, blank text
read the character before the string, and a blank before a closing bracket
inside the text was counted as a column.
---
 src/matrix.cpp | 55 ++++++++++++++------------------------------------
 1 file changed, 15 insertions(+), 40 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index b71843d..665178d 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -37,10 +37,6 @@ void pre_parser(std::string& str_string)
     // neccessary delimiter characters.
     int int_length = str_string.length();
 
-    // it is needed to append some extra spaces since in the loops below the
-    // code will access elements outside the original string size them.
-    str_string = str_string + std::string("  ");
-
     // (0) CR i.e. \n represents the end of the matrix row and
     // LF i.e. \r shall be treated as a space for compatibility purposes.
     for (int int_i = 0; int_i < int_length; int_i++)
@@ -55,54 +51,33 @@ void pre_parser(std::string& str_string)
         }
     }
 
-    // (1) Replace tabs and "," with spaces
+    // (1) Replace tabs, "," and brackets with spaces
     for (int int_i = 0; int_i < int_length; int_i++)
-        if (str_string[int_i] == 0x09 || str_string[int_i] == ',')
+        if (str_string[int_i] == 0x09 || str_string[int_i] == ',' ||
+            str_string[int_i] == '['  || str_string[int_i] == ']')
             str_string[int_i] = 0x20;
 
-    // (2) Remove spaces (0x20) after ';'
-    int int_counter = 0;
+    // (2) Remove the spaces around ';', at both ends and the repeated ones
+    std::string str_clean;
+    bool bool_space = false;
     for (int int_i = 0; int_i < int_length; int_i++)
     {
-        str_string[int_counter] = str_string[int_i];
-        if (str_string[int_i] == ';' && str_string[int_i + 1] == ' ')
+        if (str_string[int_i] == 0x20)
         {
-            while (str_string[int_i + 1] == ' ') int_i++;
+            bool_space = true;
+            continue;
         }
-        int_counter++;
-    }
-    // Update the string according to its new shape/size
-    str_string.erase(int_counter,int_length - 1);
-    int_length = str_string.length();
-    str_string = str_string + std::string("  ");
 
-
-    // (3) This is to remove extra spaces.
-    int_counter = 0;
-    for (int int_i = 0; int_i < int_length; int_i++)
-    {
-        if (str_string[int_i] != 0x20 && str_string[int_i] != ']' && str_string[int_i] != '[')
-        {
-            str_string[int_counter] = str_string[int_i];
-            int_counter++;
-        }
-        else if (str_string[int_i] == 0x20 && str_string[int_i + 1] != ';' &&
-                  (str_string[int_i + 1] >  0x2F  ||
-                   str_string[int_i + 1] == '.'   ||    // decimal
-                   str_string[int_i + 1] == 0x2B  ||    // '+'
-                   str_string[int_i + 1] == 0x2D))      // '-'
+        if (bool_space && str_string[int_i] != ';' && !str_clean.empty() && str_clean.back() != ';')
         {
-            if (int_counter != 0) // To avoid the 0x20 in the begining of the string
-            {
-                str_string[int_counter] = 0x20;
-                int_counter++;
-            }
+            str_clean += static_cast<char>(0x20);
         }
+
+        str_clean += str_string[int_i];
+        bool_space = false;
     }
 
-    // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
-    if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
-    else str_string.erase(int_counter,int_length - 1);
+    str_string = str_clean;
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From 2bbb6a06d3c4b56256758713d76895bc3b54470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 10/57] fix: refuse matrix text whose rows have different
 lengths

Only the total number of elements was compared with the number of rows, so
e.g. "1 2 3;4" was accepted and misread.
---
 inc/susa/matrix.h | 52 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index c52d5d7..cfd9e7f 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1417,55 +1417,53 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     size_t sizet_size  = 0;                     // linear size of the matrix (#rows * #columns)
     size_t sizet_cols_ = 0;                     // number of columns
     size_t sizet_rows_ = 0;                     // number of rows
+    size_t sizet_elem_ = 0;                     // number of elements in the current row
+    bool   bool_equal  = true;                  // all rows have the same number of elements
+    bool   bool_elem   = false;                 // inside an element
     int int_length     = str_string.length();   // length of the input string
 
 
     // This loop gets total number of rows and columns
-    for (int int_i = 0; int_i < int_length; int_i++)
+    for (int int_i = 0; int_i <= int_length; int_i++)
     {
-        switch (str_string[int_i])
+        if (int_i == int_length || str_string[int_i] == ';')
         {
-        case ';':
+            if (sizet_rows_ == 0) sizet_cols_ = sizet_elem_;
+            if (sizet_elem_ != sizet_cols_) bool_equal = false;
             sizet_rows_++;
-            // since the number of rows are counted by number of space and the
-            // spaces around ';' are cut, we also count a column here !
-            sizet_cols_++;
-            break;
-
-        case 0xA:
-            sizet_rows_++;
-            break;
-
-        case 0x20:
-            sizet_cols_++;
-            break;
-
-        default:
-            break;
-        };
+            sizet_elem_ = 0;
+            bool_elem   = false;
+        }
+        else if (str_string[int_i] == 0x20)
+        {
+            bool_elem = false;
+        }
+        else if (!bool_elem)
+        {
+            bool_elem = true;
+            sizet_elem_++;
+        }
     }
 
-    sizet_cols_++;
-    sizet_rows_++;
     sizet_size = sizet_cols_ * sizet_rows_;
 
-    SUSA_ASSERT_MESSAGE(sizet_cols_ % sizet_rows_ == 0, "the number of columns are not equal in each row.");
-    if (sizet_cols_ % sizet_rows_ != 0) return false;
-    
+    SUSA_ASSERT_MESSAGE(bool_equal, "the number of columns are not equal in each row.");
+    if (!bool_equal) return false;
+
 
     if (sizet_size == 0)
     {
+        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
+        _matrix         = nullptr;
         sizet_rows      = 0;
         sizet_cols      = 0;
         sizet_objects   = 0;
-        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_size);
-        _matrix = nullptr;
         return false;
     }
 
 
     sizet_rows = sizet_rows_;
-    sizet_cols = sizet_cols_ / sizet_rows_;
+    sizet_cols = sizet_cols_;
 
     sizet_size = sizet_cols * sizet_rows;
 
-- 
2.43.0


From a7f6b7f506c9e46332ca227e7672b2b0da9495ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 11/57] fix: rows of matrix text longer than 4095 characters
 were lost

---
 inc/susa/matrix.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index cfd9e7f..9588f46 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1484,18 +1484,19 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
 
     std::stringstream ss_all(str_string);
-    char char_buff[MAX_STR_LEN];
+    std::string str_row;
+    std::string str_elem;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-        ss_all.getline(char_buff, MAX_STR_LEN, ';');
-        std::stringstream ssrow(char_buff);
+        std::getline(ss_all, str_row, ';');
+        std::stringstream ssrow(str_row);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
-            ssrow.getline(char_buff, MAX_STR_LEN, 0x20);
-            if (!(std::istringstream(char_buff) >> T_tmp))
+            std::getline(ssrow, str_elem, static_cast<char>(0x20));
+            if (!(std::istringstream(str_elem) >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
-- 
2.43.0


From 363816564acd683080eaaa69ed47d7e4b3e11486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 12/57] fix: the const element accessors of array did not
 compile

---
 inc/susa/array.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..15a95da 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -87,7 +87,7 @@ namespace susa
     void clone(T *data, size_t length);
 
     template <typename... Args>
-    T get(size_t uint_elem, Args... uint_args);
+    T get(size_t uint_elem, Args... uint_args) const;
 
     //! () operator to set or get elements
     template <typename... Args>
@@ -112,7 +112,7 @@ namespace susa
     }
 
     template <typename... Args>
-    size_t get_raw_index(size_t uint_elem, Args... uint_args)
+    size_t get_raw_index(size_t uint_elem, Args... uint_args) const
     {
       return index(uint_elem, uint_args...);
     }
@@ -123,17 +123,17 @@ namespace susa
     size_t uint_num_dims;
     T *T_default;
 
-    std::vector<size_t> vec_get;
-    size_t uint_get_step;
+    mutable std::vector<size_t> vec_get;
+    mutable size_t uint_get_step;
     T T_get_value;
 
     Allocator alloc;
     T *_matrix;
 
-    size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(size_t uint_elem) const;
+    size_t index(const std::vector<size_t> &list) const;
     template <typename... Args>
-    size_t index(size_t uint_elem, Args... uint_args);
+    size_t index(size_t uint_elem, Args... uint_args) const;
   };
 
   // Implementations
@@ -297,7 +297,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args)
+  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT(_matrix != nullptr);
@@ -315,7 +315,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
     size_t uint_elem = 0;
@@ -341,7 +341,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(size_t uint_elem)
+  size_t array<T, Allocator>::index(size_t uint_elem) const
   {
 
     size_t ret;
@@ -376,7 +376,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args)
+  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-- 
2.43.0


From c57c52ed1002ca896dfe82358651786f90db1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 13/57] fix: array index lists longer than the number of
 dimensions were read out of bounds

The number of dimensions of a default constructed array was uninitialized.
---
 inc/susa/array.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 15a95da..ef2cbba 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -140,6 +140,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
+  , uint_num_dims(0)
   , T_default(new T)
   , uint_get_step(0)
   , alloc()
@@ -250,6 +251,9 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
 
+    SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+    if (list.size() > uint_num_dims) return *T_default;
+
     size_t uint_elem      = 0;
     size_t uint_dim_count = 0;
     size_t uint_factor    = 1;
@@ -318,6 +322,9 @@ namespace susa
   size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
+    SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+    if (list.size() > uint_num_dims) return uint_total;
+
     size_t uint_elem = 0;
     size_t uint_dim_count = 0;
     size_t uint_factor = 1;
-- 
2.43.0


From e3450f308a80e09f8d8f3ea098c3d5771fc9e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 14/57] fix: array::clone() allocated the previous size

---
 inc/susa/array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index ef2cbba..4ba1cbd 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -173,11 +173,13 @@ namespace susa
 
     if (length != uint_total)
     {
-      if (uint_total != 0 && _matrix != nullptr)
+      if (_matrix != nullptr)
       {
         alloc.deallocate(_matrix, uint_total);
       }
-      _matrix       = alloc.allocate(uint_total);
+      _matrix       = nullptr;
+      uint_total    = 0;
+      _matrix       = alloc.allocate(length);
       uint_total    = length;
     }
   
-- 
2.43.0


From c7af4ff458500d014884cb08d40d7de1f878e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 15/57] fix: array assignment lost the elements on
 self-assignment, leaked an empty block and left a released block after a
 failed allocation

---
 inc/susa/array.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 4ba1cbd..ded47f1 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -224,17 +224,21 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
-    if (uint_total != 0 && _matrix != nullptr)
+    if (this == &arg) return *this;
+
+    if (_matrix != nullptr)
     {
       alloc.deallocate(_matrix, uint_total);
     }
-    uint_total    = arg.uint_total;
+    _matrix       = nullptr;
+    uint_total    = 0;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
+    _matrix       = alloc.allocate(arg.uint_total);
+    uint_total    = arg.uint_total;
     std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
 
     return *this;
-- 
2.43.0


From ebbd91653857423441d1575759727c4f29d589a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 16/57] fix: bitset::set() filled only as many bits as the set
 has bytes

---
 src/sets.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..dd85d20 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,11 +94,9 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
+    for (size_t index = 0; index < uint_set_size; index++)
     {
-      unsigned int byte = index / 8;
-      unsigned int bit  = index % 8;
-      this->_matrix[byte] |= (0x01 << bit);
+      set(index);
     }
   }
 
-- 
2.43.0


From 9a2e666bbbc52d3a15a9f1dd5c1c1c50f74d66ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 17/57] fix: a failed allocation was counted as used memory

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From bb25dd6d8a1dbbe7ac31c3e67e98f317b37adb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 18/57] fix: concat() of matrices side by side used the column
 count of the wrong operand

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..1baca50 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -244,7 +244,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From efea79b78f46ccb661d036bce543c1d2040ac17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 19/57] fix: hermitian() did not compile

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1baca50..3bd21f9 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -123,12 +123,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From 9babb75133cc0a0bd08a9c85b8aa2f682363f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 20/57] fix: lup::decompose() chose pivots from the input
 instead of the reduced matrix

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..f9385cd 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -233,7 +233,7 @@ template <class T> bool lup<T>::decompose()
 
         for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)
         {
-            T_abs = mat_a(sizet_row, sizet_col);
+            T_abs = mat_lu(sizet_row, sizet_col);
             if (T_abs < 0) T_abs *= -1.0;
             if ( T_abs > T_max)
             {
-- 
2.43.0


From 3a27d2c07bb56fecbb7f3edfd910513aa464004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 21/57] fix: lup::decompose_alt() computed pivot candidates
 from the wrong column

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index f9385cd..c446cb6 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -321,7 +321,7 @@ template <class T> bool lup<T>::decompose_alt()
             q       = 0;
             while (q < i)
             {
-                Uii -= mat_lu(r,q) * mat_lu(q,r);
+                Uii -= mat_lu(r,q) * mat_lu(q,i);
                 q++;
             }
             if (std::abs(Uii) > Umax)
-- 
2.43.0


From fe4ceb8d1dfb3885519593022a7b434e35e4e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 22/57] fix: LUP decomposition with zero tolerance reported
 success for a zero pivot

---
 inc/susa/solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index c446cb6..e1cccee 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -242,7 +242,7 @@ template <class T> bool lup<T>::decompose()
             }
         }
 
-        if (T_max < dbl_tol) return false;
+        if (T_max <= dbl_tol) return false;
 
         if (sizet_max_row != sizet_col)
         {
@@ -331,7 +331,7 @@ template <class T> bool lup<T>::decompose_alt()
             }
         }
 
-        if (Umax < dbl_tol) return false;
+        if (Umax <= dbl_tol) return false;
 
         if (i != row)
         { //swap rows
-- 
2.43.0


From 4737ff841ee8e3fbc3e14366f0106fe238e093a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 23/57] fix: lu::decompose() reported success after dividing by
 a zero pivot

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index e1cccee..d3ea4e2 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -205,6 +205,8 @@ template <class T> bool lu<T>::decompose()
                     sum += mat_lower(k,j) * mat_upper(j,i);
                 }
 
+                if (mat_upper(i,i) == T(0)) return false;
+
                 mat_lower(k,i) = (mat_a(k,i) - sum) / mat_upper(i,i);
             }
         }
-- 
2.43.0


From f90e25fffef24fc97812e936e030c6f9851bf5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 24/57] fix: lup::solve() returned zero for a single equation

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index d3ea4e2..fdbb1b7 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -271,7 +271,7 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    if (sizet_n == 0 || !(mat_b.is_vector() || mat_b.is_scalar()) || mat_b.size() != sizet_n) return mat_ret;
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From 880779c0bec1aad17ecf749e33c63d38ffb4ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 25/57] fix: upsample() left the inserted elements
 uninitialized

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..e2e88f5 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), T(0));
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From a79fe8a6138ddf26d39b6d393a7424e07e85f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 26/57] fix: filter() returned an empty matrix for a scalar
 input

---
 inc/susa/signal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e2e88f5..21f8b92 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,9 +209,9 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows >= 1)
     {
-        // for column vector
+        // for column vector or scalar
         size_ret_len = size_x + size_length;
         mat_y = matrix <T, Allocator<T>> (size_ret_len, 1, 0);
         size_t size_y      = mat_y.size();
-- 
2.43.0


From 496df812589cad39e8fd577b68a889745d63f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 27/57] fix: conv() of a vector and a scalar went through the
 filter and lost the result

---
 inc/susa/signal.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 21f8b92..07c9a74 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -262,7 +262,15 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     matrix <T, Allocator>   mat_ret;
     size_t                  size_length;
 
-    if (mat_arg_b.is_vector())
+    if (mat_arg_b.is_scalar())
+    {
+        mat_ret = mat_arg_b(0) * mat_arg_a;
+    }
+    else if (mat_arg_a.is_scalar())
+    {
+        mat_ret = mat_arg_a(0) * mat_arg_b;
+    }
+    else if (mat_arg_b.is_vector())
     {
         size_length = mat_arg_b.size() - 1;
         mat_ret = filter(mat_arg_b, matrix <T, Allocator> (1,1,1), mat_arg_a, size_length);
@@ -273,14 +281,6 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
         mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);
 
     }
-    else if (mat_arg_b.is_scalar())
-    {
-        mat_ret = mat_arg_b(0) * mat_arg_a;
-    }
-    else if (mat_arg_a.is_scalar())
-    {
-        mat_ret = mat_arg_a(0) * mat_arg_b;
-    }
     else
     {
         //TODO: implement conv2()
-- 
2.43.0


From 7c73dae5bc36919cd8b1d9680ef78c17061a93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 28/57] fix: abs() did not compile for arithmetic elements and
 skipped the first element of a matrix

---
 inc/susa/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..b69fe80 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -371,7 +371,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -380,9 +380,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From 7e78a4d8184cf26e9655caeef585bc4943403756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 29/57] fix: diff() of an empty vector requested a huge vector
 and const vectors were not accepted

---
 inc/susa/base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index b69fe80..c1730bc 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -56,7 +56,7 @@ template <typename T, typename Allocator> matrix <size_t> max(const matrix <T, A
  * @return returns discrete differential of the input vector
  * @ingroup Math
  */
-template <typename T, typename Allocator> std::vector <T> diff(const std::vector <T> &vec_arg);
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg);
 
 /**
  * @brief Sum
@@ -284,8 +284,10 @@ T log2(T int_arg)
     return (ret - 1);
 }
 
-template <typename T> std::vector <T> diff(std::vector <T> &vec_arg)
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg)
 {
+    if (vec_arg.empty()) return std::vector <T> ();
+
     std::vector <T> vec_diff(vec_arg.size() - 1, T(0));
 
     for (size_t i = 0; i < vec_arg.size() - 1; i++)
-- 
2.43.0


From 42a6608bf5f305c3c24ab6ed51502f83b06c5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 30/57] fix: log2() shifted by the width of its type when the
 top bit is set

---
 inc/susa/base.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index c1730bc..e79165c 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -274,14 +274,15 @@ matrix <double> round(const matrix <double> &mat_arg, int int_decimal = -1);
 template <typename T, typename std::enable_if_t<std::is_unsigned<T>::value,T>*>
 T log2(T int_arg)
 {
-    T ret(0);
+    T ret(-1);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg >>= 1;
         ret++;
     }
 
-    return (ret - 1);
+    return ret;
 }
 
 template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg)
-- 
2.43.0


From ae9606980ae1700803af22a4513f3836f85fd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 31/57] fix: mean() of negative integers divided in unsigned
 arithmetic

---
 inc/susa/base.h       | 15 +++++++++++++--
 inc/susa/statistics.h |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index e79165c..5e5424c 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -270,6 +270,17 @@ matrix <double> round(const matrix <double> &mat_arg, int int_decimal = -1);
 
 // Implementations
 
+// the quotient of a sum and a number of elements; signed integers must not be promoted to size_t
+template <typename T>
+T divide_by_count(const T T_sum, size_t sz_count)
+{
+    if constexpr (std::is_integral<T>::value && std::is_signed<T>::value)
+        return T((long long)T_sum / (long long)sz_count);
+    else if constexpr (is_complex<T>::value)
+        return T_sum / (typename T::value_type)sz_count;
+    else
+        return T_sum / sz_count;
+}
 
 template <typename T, typename std::enable_if_t<std::is_unsigned<T>::value,T>*>
 T log2(T int_arg)
@@ -347,7 +358,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        T_ret /= mat_arg.size();
+        T_ret = divide_by_count(T_ret, mat_arg.size());
         mat_ret = matrix <T, Allocator> (1, 1, T_ret);
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
@@ -361,7 +372,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            T_ret               /= no_rows;
+            T_ret               = divide_by_count(T_ret, no_rows);
             mat_ret(uint_col)   = T_ret;
             T_ret               = T(0);
         }
diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index d8b32fc..cb37e8e 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -61,7 +61,7 @@ template <class T> T mean(std::vector <T> vec_arg)
         tMean += vec_arg[i];
     }
 
-    return (tMean/vec_arg.size());
+    return divide_by_count(tMean, vec_arg.size());
 }
 
 
-- 
2.43.0


From 0ef6662327d4689aaec53536a0df5999c94631ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 32/57] fix: max() of a 1x1 matrix returned an empty matrix

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 5e5424c..be73771 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -461,7 +461,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From 95b4b7a356a920635194324a41f8f077d20173f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 33/57] fix: variance and standard deviation of integers were
 computed in integer arithmetic

---
 inc/susa/statistics.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index cb37e8e..5ae205c 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -68,9 +68,15 @@ template <class T> T mean(std::vector <T> vec_arg)
 
 template <class T> double var(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tVar = 0;
-    for (int i=0; i<vec_arg.size(); i++)
+    double tMean = 0;
+    double tVar = 0;
+    for (size_t i=0; i<vec_arg.size(); i++)
+    {
+        tMean += vec_arg[i];
+    }
+    tMean /= vec_arg.size();
+
+    for (size_t i=0; i<vec_arg.size(); i++)
     {
         tVar += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
     }
@@ -83,14 +89,7 @@ template <class T> double var(std::vector <T> vec_arg)
 
 template <class T> double stdv(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tStd = 0;
-    for (int i=0; i<vec_arg.size(); i++)
-    {
-        tStd += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
-    }
-
-    return (sqrt(tStd/vec_arg.size()));
+    return std::sqrt(var(vec_arg));
 }
 } // NAMESPACE SUSA
 #endif // STATISTICS_H
-- 
2.43.0


From f6239c0ab0615b4ac98100789fe05b8c58b84e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 34/57] fix: mod() of large integers was computed in single
 precision

---
 src/base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..6ee38bd 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,11 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    long int lint_rem = lint_a % lint_mod;
+
+    // the remainder takes the sign of the modulus
+    if (lint_rem != 0 && ((lint_rem < 0) != (lint_mod < 0))) lint_rem += lint_mod;
+    return lint_rem;
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From 854840bf36f8fa73dd3111eb0595e9801eac9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 35/57] fix: round() of large numbers overflowed

---
 src/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 6ee38bd..6abe413 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -89,11 +89,12 @@ long int mod(long int lint_a, long int lint_mod)
 
 double round(const double dbl_arg, int int_decimal)
 {
-    //TODO: to be fixed for large doubles to prevent the overflow.
     double dbl_p = std::pow(10.0, int_decimal);
 
     if (int_decimal > 0)
     {
+        // too large to have any of the decimals
+        if (!std::isfinite(dbl_arg * dbl_p)) return dbl_arg;
         return (std::round(dbl_arg * dbl_p) / dbl_p);
     }
 
-- 
2.43.0


From 0e0cc7c8dee89f0d5cae900868e41ed2f8947523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 36/57] fix: sort() stopped at the first element that was
 already in place

---
 inc/susa/search.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..cb72906 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -353,7 +353,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -364,11 +363,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From adb2496f9afcafeaf289f8e6ff4773e6cd95fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 37/57] fix: select_least(), select_most() and
 select_limited_least() refused to select all elements

---
 inc/susa/search.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index cb72906..46d1b7e 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -116,7 +116,7 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
 
     if (uint_size < uint_num)
     {
@@ -159,7 +159,7 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
         return mat_index;
@@ -200,7 +200,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     matrix <unsigned int> mat_index(uint_num, 1);
 
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num,
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num,
       "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
-- 
2.43.0


From 52db42b0a458f91977075f15690e71db810bae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 38/57] fix: element selection returned an element twice or
 outside the allowed set for negative and extreme values

---
 inc/susa/search.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 46d1b7e..7122efb 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -125,14 +125,16 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
 
     unsigned int uint_min_index;
     T T_min;
+    susa::bitset selected(uint_size);
 
     for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;
+        T_min = T();
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) < T_min)
+            if (selected.exists(uint_j)) continue;
+            if (uint_min_index == uint_size || mat_ret(uint_j) < T_min)
             {
                 uint_min_index = uint_j;
                 T_min = mat_ret(uint_j);
@@ -141,7 +143,7 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
 
         mat_index(uint_i) = uint_min_index;
 
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        selected.set(uint_min_index);
     }
 
     return mat_index;
@@ -167,23 +169,26 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
 
     unsigned int uint_min_index;
     T T_min;
+    susa::bitset selected(uint_size);
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;
+        T_min = T();
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
-            if (mat_ret(mat_limited_index(uint_j)) < T_min)
+            if (selected.exists(mat_limited_index(uint_j))) continue;
+            if (uint_min_index == uint_size || mat_ret(mat_limited_index(uint_j)) < T_min)
             {
                 uint_min_index = mat_limited_index(uint_j);
                 T_min = mat_ret(mat_limited_index(uint_j));
             }
         }
 
+        SUSA_ASSERT_MESSAGE(uint_min_index < uint_size, "there are less allowed elements than to be selected.");
         mat_index(uint_i) = uint_min_index;
 
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        selected.set(uint_min_index);
     }
 
     return mat_index;
@@ -209,14 +214,16 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
 
     unsigned int uint_max_index;
     T T_max;
+    susa::bitset selected(uint_size);
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_max_index = uint_i;
-        T_max = mat_ret(uint_i);
+        uint_max_index = uint_size;
+        T_max = T();
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) > T_max)
+            if (selected.exists(uint_j)) continue;
+            if (uint_max_index == uint_size || mat_ret(uint_j) > T_max)
             {
                 uint_max_index = uint_j;
                 T_max = mat_ret(uint_j);
@@ -225,7 +232,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
 
         mat_index(uint_i) = uint_max_index;
 
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
+        selected.set(uint_max_index);
     }
 
     return mat_index;
-- 
2.43.0


From c7ddb04f4ba28127460e1ce9bb7d4803251664b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 39/57] fix: dijkstra() left the predecessors of the source and
 of unreachable nodes uninitialized

---
 inc/susa/search.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 7122efb..6e706ac 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -267,6 +267,9 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
   susa::matrix <unsigned int> prev(uint_num_nodes, 1);
 
+  // the source and the nodes without a path precede themselves
+  for (unsigned int uint_i = 0; uint_i < uint_num_nodes; uint_i++) prev(uint_i) = uint_i;
+
   dist(uint_src) = 0;
 
   susa::bitset nset(uint_num_nodes);
-- 
2.43.0


From 8cb2b82ca2ae7d6813f63170d1356c8ae9685d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 40/57] fix: dijkstra() overflowed for large weights and
 truncated fractional weights

---
 inc/susa/search.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 6e706ac..7ce56a0 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -264,7 +264,10 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   if (!mat_graph.is_square()) return (matrix <unsigned int> ());
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
-  susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
+  // wide enough for sums of weights
+  typedef typename std::conditional<std::is_integral<T>::value, unsigned long long, T>::type D;
+  const D D_infinity = std::numeric_limits<D>::max();
+  susa::matrix <D> dist(uint_num_nodes, 1, D_infinity);
   susa::matrix <unsigned int> prev(uint_num_nodes, 1);
 
   // the source and the nodes without a path precede themselves
@@ -276,13 +279,13 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   nset.set();
 
 
-  unsigned int uint_min       = 0;
+  D            uint_min       = 0;
   unsigned int uint_min_index = 0;
-  unsigned int uint_alt       = 0;
+  D            uint_alt       = 0;
   while (nset.any())
   {
 
-    uint_min = std::numeric_limits <unsigned int>::max();
+    uint_min = D_infinity;
     for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++)
     {
       if (nset.exists(uint_index) && dist(uint_index) < uint_min)
@@ -292,6 +295,8 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
       }
     }
 
+    if (uint_min == D_infinity) break; // the remaining nodes are unreachable
+
     nset.reset(uint_min_index);
 
 
-- 
2.43.0


From b507184fa12eda39456c76933c34ed3220475514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 41/57] fix: norm() of complex elements summed squares instead
 of squared magnitudes

---
 inc/susa/base.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index be73771..fe1c2fb 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -270,6 +270,14 @@ matrix <double> round(const matrix <double> &mat_arg, int int_decimal = -1);
 
 // Implementations
 
+// the squared magnitude of an element
+template <typename T>
+T squared_magnitude(const T T_arg)
+{
+    if constexpr (is_complex<T>::value) return std::norm(T_arg);
+    else return T_arg * T_arg;
+}
+
 // the quotient of a sum and a number of elements; signed integers must not be promoted to size_t
 template <typename T>
 T divide_by_count(const T T_sum, size_t sz_count)
@@ -515,7 +523,7 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         mat_ret = matrix <T, Allocator> (1,1, T(0));
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
+            mat_ret(0) += squared_magnitude(mat_arg(uint_i));
         }
         mat_ret(0) = std::sqrt(mat_ret(0));
     }
@@ -526,7 +534,7 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         {
             for (size_t uint_row = 0; uint_row < mat_arg.no_rows(); uint_row++)
             {
-                mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
+                mat_ret(uint_col) += squared_magnitude(mat_arg(uint_row,uint_col));
             }
             mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));
         }
-- 
2.43.0


From d3ab26251e0045650b54e0d1945b6c7920e6d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 42/57] fix: ccode::rate() was an integer division

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..c5397ff 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return ((float)uint_k / uint_n);
     }
 
     /**
-- 
2.43.0


From 63061245eef82ac5590845150c78542e0c683433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 43/57] fix: ccode released its generators twice after a copy
 and an indeterminate pointer after default construction

---
 inc/susa/ccode.h |  2 +-
 src/ccode.cpp    | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index c5397ff..58f7d79 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen; // Generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..0836ce1 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -33,15 +33,12 @@ ccode::ccode()
     uint_k = 1;
     uint_n = 0;
     uint_m = 0;
+    uint_mmask = 0;
+    zero_state();
 }
 
 ccode::~ccode()
 {
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
 }
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
@@ -56,12 +53,14 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 
     try
     {
-        uint_gen   = new uint32_t[uint_n];
+        uint_gen.resize(uint_n);
     }
     catch(const std::bad_alloc& e)
     {
         SUSA_ABORT("failed to allocate memory for generators.");
     }
+
+    zero_state();
 }
 
 
-- 
2.43.0


From 807de4048093f8a82e3f486736e493d7f80cf9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 44/57] fix: the memory mask of ccode overflowed for 31
 memories

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 0836ce1..43a0c34 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -49,7 +49,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_k     = uint_k;
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
-    uint_mmask       = susa::pow(2, uint_m) - 1;
+    uint_mmask       = (1u << uint_m) - 1;
 
     try
     {
-- 
2.43.0


From 1bcceb77c0cdcad83e7c6ce8465d8a22c95344f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 45/57] fix: ccode::decode_bcjr() read uninitialized state
 metrics

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 43a0c34..8fd4703 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -185,12 +185,12 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     // Alpha
     matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_alpha[0](0,0) = 1;
 
     // Beta
     matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_beta[uint_num_stages](0,0) = 1;
 
 
-- 
2.43.0


From 385dfee93b3314da240f0651412505be6f66e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 46/57] fix: ccode::decode_bcjr() weighted zero bits with the
 probability of one

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 8fd4703..2f0bc06 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -215,7 +215,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_zero) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_zero) = (1.0 - c_k) * exp(0.5 * l_c * dbl_arg);
 
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
-- 
2.43.0


From eabcddda573d3888439320f9b35105412ab477bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 47/57] fix: channel::decode_mlse() read uninitialized path
 metrics and visited states

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..dd6b968 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states, 1, 0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states, 1, 0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states, 1, 0);
     }
 
 
-- 
2.43.0


From 9d439d162e2d4e322c062c01b29fdcbc13bdd085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 48/57] fix: channel::decode_mlse() with unknown states ignored
 the final samples and the initial state of the survivor

---
 inc/susa/channel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index dd6b968..fa8783d 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -396,7 +396,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_last(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l))(0);
         mat_last(uint_i) *= mat_last(uint_i);
-        mat_metric_next(uint_i) += mat_last(uint_i)/uint_l;
+        mat_metric_past(uint_i) += mat_last(uint_i)/uint_l;
     }
 
 
@@ -417,7 +417,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_ret(uint_stage - 1) = mat_pam(uint_curr_input);
         uint_curr_state = mat_previous_state(uint_curr_state,uint_stage - 1);
     }
-    mat_ret = concat(flipud(get_mem_state(min(mat_first)(0))),mat_ret);
+    mat_ret = concat(flipud(get_mem_state(uint_curr_state)),mat_ret);
 
     return mat_ret;
 } // DECODE_MLSE
-- 
2.43.0


From f20141a054976c3c6573e25f1148f3ba79f220e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 49/57] fix: the tempering of rng differed from MT19937

---
 src/rng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..b25977a 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -220,7 +220,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From 23a9d4af18b7335aa066438cbe4c2463932cc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 50/57] fix: rng returned its seeded state as random numbers,
 was not restarted by init() and indeterminate by default

---
 src/rng.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index b25977a..820f1ff 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,12 +31,11 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
+    init(5489); // the default seed of MT19937
 }
 
 rng::rng(unsigned int uint_seed)
 {
-    uint_index = 0;
     init(uint_seed);
 }
 
@@ -149,6 +148,9 @@ void rng::init(unsigned int uint_seed)
     {
         MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
     }
+
+    // the first numbers are generated from the seeded state
+    uint_index = N;
 }
 
 size_t rng::get_nonuniform(double* prob, size_t n)
-- 
2.43.0


From 67d0b508b0d0334b8cf4d42a56179f7549b0ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 51/57] fix: mt released its state twice after a copy

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..27859eb 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,13 +28,11 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
@@ -42,7 +40,6 @@ mt::mt(uint32_t uint_seed)
 
 mt::~mt()
 {
-    delete [] uint_mt;
 }
 
 /* initializes uint_mt[_MT_N] with a seed */
-- 
2.43.0


From 491733a2fd48fe8d410df2db01cc1af6fd0c8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 52/57] fix: mt::nonuniform() left draws above the rounded
 cumulative sum uninitialized

---
 src/mt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mt.cpp b/src/mt.cpp
index 27859eb..a8ad8ea 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -281,7 +281,7 @@ unsigned int mt::nonuniform()
 
 matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned int uint_length)
 {
-  matrix <unsigned int> mat_rand(uint_length, 1);
+  matrix <unsigned int> mat_rand(uint_length, 1, 0);
   unsigned int uint_prob_size = mat_probabilities.size();
   double       dbl_th         = 0;
   double       dbl_rnd        = genrand_real3();
-- 
2.43.0


From 09801c47c62b074b68557303190c3634b9c84180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 53/57] fix: awgn() truncated the power of integer signals

---
 inc/susa/modulation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 301e81b..b0896a6 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -102,11 +102,11 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     double P;
     if constexpr (is_complex<T>::value)
     {
-        P = ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
+        P = (double)ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
     }
     else
     {
-        P = ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
+        P = (double)ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
     }
 
     double gamma        = std::pow(10, flt_snr_db/10);
-- 
2.43.0


From 18d2e54aef65c8fd72b07284775f1e37d93fd167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 54/57] fix: awgn() returned the noise without the signal

---
 inc/susa/modulation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index b0896a6..ecd1526 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -123,12 +123,12 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     if constexpr (is_complex<T>::value)
     {
         for (size_t indx = 0; indx < mat_noise.size(); indx++)
-            mat_noise(indx) = dbl_std_dev * std::complex<double> (random.randn(), random.randn());
+            mat_noise(indx) = std::complex<double>(mat_signal(indx)) + dbl_std_dev * std::complex<double> (random.randn(), random.randn());
     }
     else
     {
         for (size_t indx = 0; indx < mat_noise.size(); indx++)
-            mat_noise(indx) = dbl_std_dev * random.randn();
+            mat_noise(indx) = mat_signal(indx) + dbl_std_dev * random.randn();
     }
 
     return mat_noise;
-- 
2.43.0


From 6428aa5e0b054d2cdacda1fa8df621272beaf9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 55/57] fix: qam constellations of orders that are not squares
 were not constructed

---
 src/modulation.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/modulation.cpp b/src/modulation.cpp
index 7252af3..927e0a4 100644
--- a/src/modulation.cpp
+++ b/src/modulation.cpp
@@ -44,17 +44,19 @@ qam::qam(unsigned int uint_m)
 : uint_m(uint_m)
 {
     uint_bps                = log2(uint_m);
-    double          dbl_p   = sqrt(uint_m);
-    unsigned int    uint_l  = (unsigned int)(uint_m/dbl_p);
+    unsigned int    uint_l  = (unsigned int)sqrt(uint_m);                   // points on the imaginary axis
+    if (uint_l * uint_l != uint_m) uint_l = 1u << (uint_bps / 2);           // rectangular constellation
+    unsigned int    uint_p  = uint_m / uint_l;                              // points on the real axis
+    SUSA_ASSERT_MESSAGE(uint_p * uint_l == uint_m, "unsupported modulation order.");
 
     // Constellation generation
-    mat_s    = matrix < std::complex <double> > (uint_l, uint_l, std::complex <double>(0,0));
-    mat_axis = matrix < std::complex <double> > ((unsigned int)dbl_p, 1, std::complex <double>(0,0));
+    mat_s    = matrix < std::complex <double> > (uint_p, uint_l, std::complex <double>(0,0));
+    mat_axis = matrix < std::complex <double> > (uint_p, 1, std::complex <double>(0,0));
 
-    for (unsigned int i=0; i < dbl_p; i++)
-        mat_axis(i) = std::complex <double> (i - (dbl_p - 1)/2,i - (dbl_p - 1)/2);
+    for (unsigned int i=0; i < uint_p; i++)
+        mat_axis(i) = std::complex <double> (i - (uint_p - 1)/2.0,i - (uint_l - 1)/2.0);
 
-    for (unsigned int i=0; i < uint_l; i++)
+    for (unsigned int i=0; i < uint_p; i++)
     {
         for (unsigned int j=0; j < uint_l; j++)
         {
-- 
2.43.0


From eaf76ffd6b9011cd85479be6982391e99b2bd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 56/57] fix: the frequencies of the root-raised-cosine filter
 were computed in unsigned arithmetic

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..53a7446 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double)dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From b6673ec30cfcf5dd347c46f8f71835c03c20296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 57/57] fix: svd did not update the superdiagonal when it
 cancelled it next to a zero singular value

---
 src/svd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 54982c6..61b816e 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -227,6 +227,7 @@ int svd(const matrix <float> &mat_arg_a,
                 for (i = l; i <= k; i++)
                 {
                     f = s * rv1(i);
+                    rv1(i) = c * rv1(i);
                     if (fabs(f) + anorm != anorm)
                     {
                         g = (double)mat_arg_s(i);
-- 
2.43.0

