From b3a889d4ead6b27b9aeb2b6ea1d28894fc5e4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 01/29] fix: write both bytes of the NPY header length field

Headers longer than 255 bytes (arrays of many dimensions) were written with
the length modulo 256 and could not be read back. Headers that do not fit
the 16-bit field of format version 1.0 are refused.
---
 include/npy/npy.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..8cd89a4 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -210,9 +210,14 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
     end.back() = '\n';
   }
 
+  if (dict_length > 0xFFFF) {
+    throw std::invalid_argument("shape");
+  }
+
   const char header[STATIC_HEADER_LENGTH] = {
       static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
+      static_cast<char>(dict_length & 0xFF),
+      static_cast<char>(dict_length >> 8)};
   output.write(header, STATIC_HEADER_LENGTH);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
-- 
2.43.0


From cc5a9a48df392d4c8e19cadc19116762e1f60022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 02/29] fix: return the tensor from the two-parameter
 npzfilereader::read

The function flowed off its end without returning a value.
---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 8cd89a4..ecf52a3 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -652,7 +652,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From 9b5bffe0eea1fe33c705134dbd9669a8ba988031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 03/29] fix: reject unsupported dtype codes

Looking up an unknown code inserted it into the shared table as INT8, so for
example float16 data could be loaded as signed bytes.
---
 src/dtype.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..ea030a1 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -61,7 +61,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto entry = DTYPE_MAP.find(dtype);
+  if (entry == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return entry->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From 1d62a14cb83f4eb512581e4548d72d8f9bbea433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 04/29] fix: byte-swap the parts of complex numbers separately

In the non-native byte order the whole number was reversed, which exchanged
the real and imaginary parts as seen by NumPy (and in files NumPy wrote).
---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index ea030a1..ad7c626 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -421,14 +421,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -444,14 +444,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -465,14 +465,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -481,6 +473,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -496,14 +496,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -512,6 +504,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From bc494b3ad87115b943b8ec12e2f6135f6b4f3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 05/29] fix: do not share the header parsing buffer between
 threads

The tokens of every header went through one global buffer, so threads reading
separate files at the same time got each other's dtype and shape.
---
 src/npy.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..9fe0d20 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
@@ -17,8 +14,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], actual.length());
   assert(actual == expected);
 }
 
@@ -34,11 +31,13 @@ std::string read_to(std::istream &input, char delim) {
     return "";
   }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
+  std::string token;
+  char next;
+  while (input.peek() != delim && input.get(next)) {
+    token.push_back(next);
+  }
 
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From dbc8e19a247a3e02ab6bdd38f505295714ae4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 06/29] fix: format and parse the NPY header in the classic
 locale

Under a global locale with digit grouping a dimension of 1234 was written as
1,234, that is, as two dimensions.
---
 include/npy/npy.h | 2 ++
 src/npy.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index ecf52a3..776b21a 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -184,6 +185,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic());
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
diff --git a/src/npy.cpp b/src/npy.cpp
index 9fe0d20..b39d3a3 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -62,6 +62,7 @@ bool read_bool(std::istream &input) {
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
+  tuple.imbue(std::locale::classic());
   read(input, ')');
 
   std::vector<size_t> shape;
-- 
2.43.0


From b0f29e8bce85a524b67beef0b4302f2f0c15aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 07/29] fix: throw on malformed NPY headers

The header was checked with assert only, so release builds accepted a wrong
magic string, an unsupported version, missing entries, negative or overflowing
dimensions and truncated headers, and read garbage; other builds aborted.
---
 include/npy/npy.h | 19 ++++++++++++-------
 src/npy.cpp       | 32 ++++++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 776b21a..1193bbf 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -304,24 +304,29 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  if (!input || header[0] != 0x93 || header[1] != 'N' || header[2] != 'U' ||
+      header[3] != 'M' || header[4] != 'P' || header[5] != 'Y') {
+    throw std::runtime_error("Invalid magic string (Not a valid NPY file)");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
-    std::uint8_t extra[2];
+    std::uint8_t extra[2] = {0, 0};
     input.read(reinterpret_cast<CHAR *>(extra), 2);
     dict_length =
         header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (!input) {
+    throw std::runtime_error("Truncated NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
diff --git a/src/npy.cpp b/src/npy.cpp
index b39d3a3..93d7000 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -8,15 +8,19 @@
 
 namespace {
 void read(std::istream &input, char expected) {
-  char actual;
+  char actual = '\0';
   input.get(actual);
-  assert(actual == expected);
+  if (actual != expected) {
+    throw std::runtime_error("Malformed NPY header");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
   std::string actual(expected.length(), '\0');
   input.read(&actual[0], actual.length());
-  assert(actual == expected);
+  if (actual != expected) {
+    throw std::runtime_error("Malformed NPY header");
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -68,9 +72,15 @@ std::vector<size_t> read_shape(std::istream &input) {
   std::vector<size_t> shape;
   size_t size;
 
-  while (tuple >> size) {
+  skip_whitespace(tuple);
+  while (tuple.peek() != EOF) {
+    if (!std::isdigit(tuple.peek()) || !(tuple >> size)) {
+      throw std::runtime_error("Invalid shape in NPY header");
+    }
+
     shape.push_back(size);
-    if (tuple.peek() == ',') {
+    skip_whitespace(tuple);
+    if (tuple.peek() != EOF) {
       read(tuple, ',');
       skip_whitespace(tuple);
     }
@@ -83,6 +93,7 @@ std::vector<size_t> read_shape(std::istream &input) {
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
   std::istringstream input(dictionary);
+  bool has_descr = false, has_fortran_order = false, has_shape = false;
   read(input, '{');
   while (input.peek() != '}') {
     skip_whitespace(input);
@@ -92,7 +103,10 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_descr = true;
+      if (dtype_code.size() > 2 && dtype_code[1] == 'U' &&
+          (dtype_code[0] == '<' || dtype_code[0] == '>') &&
+          dtype_code.find_first_not_of("0123456789", 2) == std::string::npos) {
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
@@ -104,17 +118,23 @@ header_info::header_info(const std::string &dictionary) {
 
     } else if (key == "fortran_order") {
       fortran_order = read_bool(input);
+      has_fortran_order = true;
     } else if (key == "shape") {
       shape = read_shape(input);
+      has_shape = true;
     } else {
       throw std::runtime_error("Unsupported key: " + key);
     }
 
+    skip_whitespace(input);
     read(input, ',');
     skip_whitespace(input);
   }
 
   read(input, '}');
+  if (!has_descr || !has_fortran_order || !has_shape) {
+    throw std::runtime_error("Incomplete NPY header");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
-- 
2.43.0


From e932e00590cd0dac2659dd2d1cdd3fb56c7327a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 08/29] fix: throw when NPY data ends early

A truncated file was loaded without complaint, with the missing elements set
to zero (or to 0xFF bytes for swapped data).
---
 include/npy/npy.h | 3 +++
 src/dtype.cpp     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 1193bbf..3a0d410 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -761,6 +761,9 @@ public:
     }
 
     read_values(input, result.m_values.data(), result.m_values.size(), info);
+    if (!input) {
+      throw std::runtime_error("Truncated NPY data");
+    }
 
     return result;
   }
diff --git a/src/dtype.cpp b/src/dtype.cpp
index ad7c626..140dbd0 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -575,6 +575,10 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
+      if (!input) {
+        return;
+      }
+
       if (value == 0) {
         continue;
       }
-- 
2.43.0


From 4778aed51675cebdbe72343d7ca93b7e7300ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 09/29] fix: refuse tensor shapes whose size overflows

The product wrapped around, giving a tensor with far fewer elements than its
shape allowed to be indexed.
---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 3a0d410..b5fea15 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -1012,6 +1012,10 @@ private:
   static size_t get_size(const std::vector<size_t> &shape) {
     size_t size = 1;
     for (auto &dim : shape) {
+      if (dim != 0 && size > SIZE_MAX / dim) {
+        throw std::invalid_argument("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From ef770d35076489dad3be95588bce16c93f9701f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 10/29] fix: keep NUL characters inside strings

Every NUL was dropped on reading, not only the trailing padding.
---
 src/dtype.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 140dbd0..201635a 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -579,12 +579,11 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         return;
       }
 
-      if (value == 0) {
-        continue;
-      }
-
       ptr->push_back(static_cast<wchar_t>(value));
     }
+
+    // only the padding is dropped, as in numpy
+    ptr->erase(ptr->find_last_not_of(L'\0') + 1);
   }
 }
 
-- 
2.43.0


From 13842bdb47c1c310c392e37b761cdc4e38b374c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 11/29] fix: construct booleans by truth value

boolean(-1) was false although assigning -1 gave true.
---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index b5fea15..c6dc7f0 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -108,7 +108,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From 5977992ae7a9383ddcab21f6002261ae7f26563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 12/29] fix: check the number of components of unsigned
 multi-indices

A shorter index vector was read past its end.
---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index c6dc7f0..7a8b824 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -991,6 +991,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From fdd084aa8ef261c9b3b3b357377e71d27de7f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 13/29] fix: reset the archive stream before reading an entry

After one entry had failed to read past the end of the archive, the error
flags stayed set and every later read failed too.
---
 src/npz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..bfbe404 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -84,7 +84,7 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual = {};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
   if (actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
@@ -391,6 +391,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear();
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
-- 
2.43.0


From a5e1e44078dea295fa38417e08724f20e37388f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 14/29] fix: let contains find the names that read and peek
 find

read("a") and peek("a") fall back to "a.npy", but contains("a") was false,
also right after write("a").
---
 src/npz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index bfbe404..4359b9f 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -528,7 +528,7 @@ std::string npzstringreader::read_file(const std::string &filename) {
 }
 
 bool npzstringreader::contains(const std::string &filename) {
-  return m_entries.count(filename);
+  return m_entries.count(filename) || m_entries.count(filename + ".npy");
 }
 
 header_info npzstringreader::peek(const std::string &filename) {
@@ -566,7 +566,7 @@ std::string npzfilereader::read_file(const std::string &filename) {
 }
 
 bool npzfilereader::contains(const std::string &filename) {
-  return m_entries.count(filename);
+  return m_entries.count(filename) || m_entries.count(filename + ".npy");
 }
 
 header_info npzfilereader::peek(const std::string &filename) {
-- 
2.43.0


From 07355f1a8e8f13c5ad2395abb905f72b1bc181d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 15/29] fix: count the tag and size in the ZIP64 extra field
 length

The recorded length was 4 bytes short, so other ZIP tools found the data (and
the next directory record) of an archive with a large entry 4 bytes off.
---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 4359b9f..3c75681 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -111,6 +111,10 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
     length += 8;
   }
 
+  if (length > 0) {
+    length += 4; // tag and size
+  }
+
   return length;
 }
 
-- 
2.43.0


From 480a1cf6d65d1f00cb38c016e65d424d12fa4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 16/29] fix: report failed writes

save, npzfilewriter::write and npzfilewriter::close returned normally when the
file could not be opened or the device refused the data (for example because
it was full), leaving a missing or truncated file behind.
---
 include/npy/npy.h |  4 ++++
 src/npz.cpp       | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 7a8b824..27f0804 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -283,6 +283,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (!output) {
+    throw std::runtime_error("Error writing to NPY file");
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
diff --git a/src/npz.cpp b/src/npz.cpp
index 3c75681..5fabb00 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -375,6 +375,10 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
   output.write(compressed_bytes.data(), compressed_size);
+  if (!output) {
+    throw std::runtime_error("Error writing to NPZ file");
+  }
+
   entries.push_back(std::move(entry));
 }
 
@@ -488,7 +492,11 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
 
 npzfilewriter::~npzfilewriter() {
   if (!m_closed) {
-    close();
+    try {
+      close();
+    } catch (const std::exception &) {
+      // a destructor must not throw: call close to learn of write errors
+    }
   }
 }
 
@@ -509,6 +517,9 @@ void npzfilewriter::close() {
     ::close(m_output, m_entries);
     m_closed = true;
     m_output.close();
+    if (!m_output) {
+      throw std::runtime_error("Error writing to NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From 395777b8d27967d37293f61a17cb7cdd461642d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 17/29] fix: refuse NPZ entries which the archive cannot
 represent

Names longer than 65535 bytes, more than 65535 entries and sizes or offsets
beyond 32 bits were truncated to the width of their fields, silently losing
entries or data.
---
 src/npz.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 5fabb00..0f93d8a 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -26,6 +26,10 @@ const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
 
+const size_t LOCAL_HEADER_SIZE = 30 + 20; // including the ZIP64 extra field
+const size_t MAX_NAME_LENGTH = 0xFFFF;
+const size_t MAX_ENTRIES = 0xFFFF;
+
 void write(std::ostream &stream, std::uint16_t value) {
   stream.put(value & 0x00FF);
   stream.put(value >> 8);
@@ -351,6 +355,14 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
+  if (filename.length() > MAX_NAME_LENGTH) {
+    throw std::invalid_argument("filename");
+  }
+
+  if (entries.size() >= MAX_ENTRIES || bytes.size() >= ZIP64_PLACEHOLDER) {
+    throw std::runtime_error("Too much data for an NPZ file");
+  }
+
   std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
   std::uint32_t compressed_size = 0;
   std::string compressed_bytes;
@@ -365,6 +377,14 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     throw std::invalid_argument("Unsupported compression method");
   }
 
+  // the directory has to start at an offset which fits in 32 bits
+  std::uint64_t max_end = static_cast<std::uint64_t>(output.tellp()) +
+                          LOCAL_HEADER_SIZE + filename.length() +
+                          compressed_bytes.size();
+  if (output && max_end >= ZIP64_PLACEHOLDER) {
+    throw std::runtime_error("Too much data for an NPZ file");
+  }
+
   file_entry entry = {filename,
                       checksum,
                       compressed_size,
-- 
2.43.0


From f32a60a85943b10ece3dadee83e3f09fa0b114c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 18/29] fix: make the two-parameter form of save to a path
 callable

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 27f0804..a1014e5 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -296,7 +296,7 @@ void save(const std::string &path, T &tensor,
 /// @param tensor the tensor
 /// @param endianness the endianness to use in saving the tensor
 template <typename T, template <typename> class TENSOR>
-void save(const std::string &path, T &tensor,
+void save(const std::string &path, TENSOR<T> &tensor,
           endian_t endianness = npy::endian_t::NATIVE) {
   save<TENSOR<T>>(path, tensor, endianness);
 };
-- 
2.43.0


From ff7d3791c688338d99fe4a81449e3ce5025a78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 19/29] fix: inflate consumes all of its input before reading
 more

A full dictionary left over from one call makes the next inflate() call
return early with input still unread; the loop then read the next chunk
over it, so that compressible entries whose compressed size exceeds 1 MiB
could not be read back.
---
 src/zip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..c11cd7c 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -124,7 +124,8 @@ std::string npy_inflate(std::string &&bytes) {
 
     strm.next_in = in.data();
 
-    /* run inflate() on input until output buffer not full */
+    /* run inflate() until it can make no further progress with this input (a
+       buffer which is not full does not imply that all input is consumed) */
     do {
       strm.avail_out = CHUNK;
       strm.next_out = out.data();
@@ -145,7 +146,7 @@ std::string npy_inflate(std::string &&bytes) {
         (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
-    } while (strm.avail_out == 0);
+    } while (ret == Z_OK);
 
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
-- 
2.43.0


From 99a36d3c7c724d5a5356d7992ab2526098b1554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 20/29] fix: read version 2.0 header lengths of 2 GiB and more

---
 include/npy/npy.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index a1014e5..596e293 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -320,7 +320,8 @@ header_info read_npy_header(std::basic_istream<CHAR> &input) {
     std::uint8_t extra[2] = {0, 0};
     input.read(reinterpret_cast<CHAR *>(extra), 2);
     dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+        header[8] | (header[9] << 8) | (extra[0] << 16) |
+        (static_cast<size_t>(extra[1]) << 24);
   } else {
     throw std::runtime_error("Unsupported NPY version");
   }
-- 
2.43.0


From f9b2cba12a2abf376264e77f649c6cd7e497200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 21/29] fix: compute the CRC-32 of entries of 4 GiB and more
 over all of their bytes

---
 src/zip.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index c11cd7c..c89a05e 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,7 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  return static_cast<std::uint32_t>(::crc32(crc, buf, bytes.size()));
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From dab63b7d83c0617184c2c4cf0a815a146b5db507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 22/29] fix: read the ZIP64 end record of archives beyond the
 limits of the plain one

---
 src/npz.cpp | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 0f93d8a..2119a7c 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -14,10 +14,13 @@ using namespace npy;
 const std::array<std::uint8_t, 4> LOCAL_HEADER_SIG = {0x50, 0x4B, 0x03, 0x04};
 const std::array<std::uint8_t, 4> CD_HEADER_SIG = {0x50, 0x4B, 0x01, 0x02};
 const std::array<std::uint8_t, 4> CD_END_SIG = {0x50, 0x4B, 0x05, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_END_SIG = {0x50, 0x4B, 0x06, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_LOCATOR_SIG = {0x50, 0x4B, 0x06, 0x07};
 
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
 const int CD_END_SIZE = 22;
+const int ZIP64_LOCATOR_SIZE = 20;
 const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
@@ -290,9 +293,9 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
 }
 
 struct CentralDirectory {
-  std::uint16_t num_entries;
-  std::uint32_t size;
-  std::uint32_t offset;
+  std::uint64_t num_entries;
+  std::uint64_t size;
+  std::uint64_t offset;
 };
 
 void write_end_of_central_directory(std::ostream &stream,
@@ -302,10 +305,10 @@ void write_end_of_central_directory(std::ostream &stream,
   uint16_t disk_number = 0;
   write(stream, disk_number);
   write(stream, disk_number);
-  write(stream, dir.num_entries);
-  write(stream, dir.num_entries);
-  write(stream, dir.size);
-  write(stream, dir.offset);
+  write(stream, static_cast<std::uint16_t>(dir.num_entries));
+  write(stream, static_cast<std::uint16_t>(dir.num_entries));
+  write(stream, static_cast<std::uint32_t>(dir.size));
+  write(stream, static_cast<std::uint32_t>(dir.offset));
   std::uint16_t file_comment_length = 0;
   write(stream, file_comment_length);
 }
@@ -323,11 +326,43 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   return result;
 }
 
+// the ZIP64 end record has the values which do not fit in the end record
+void read_zip64_end(std::istream &stream, CentralDirectory &dir) {
+  std::array<std::uint8_t, 4> sig = {};
+  stream.seekg(-(CD_END_SIZE + ZIP64_LOCATOR_SIZE), std::ios::end);
+  stream.read(reinterpret_cast<char *>(sig.data()), sig.size());
+  if (!stream || sig != ZIP64_LOCATOR_SIG) {
+    stream.clear();
+    return; // not a ZIP64 archive: the end record has the actual values
+  }
+
+  read32(stream); // number of the disk with the ZIP64 end record
+  stream.seekg(static_cast<std::streamoff>(read64(stream)), std::ios::beg);
+  assert_sig(stream, ZIP64_END_SIG, "zip64_end_of_central_directory");
+  read64(stream); // size of this record
+  read16(stream); // version made by
+  std::uint16_t version = read16(stream);
+  if (version > ZIP64_VERSION) {
+    throw std::runtime_error("Unsupported NPZ version");
+  }
+
+  read32(stream); // number of this disk
+  read32(stream); // number of the disk with the start of the central directory
+  read64(stream); // num_entries_on_disk
+  dir.num_entries = read64(stream);
+  dir.size = read64(stream);
+  dir.offset = read64(stream);
+}
+
 void read_entries(std::istream &input,
                   std::map<std::string, file_entry> &entries,
                   std::vector<std::string> &keys) {
   input.seekg(-CD_END_SIZE, std::ios::end);
   CentralDirectory dir = read_end_of_central_directory(input);
+  if (dir.num_entries == MAX_ENTRIES || dir.size == ZIP64_PLACEHOLDER ||
+      dir.offset == ZIP64_PLACEHOLDER) {
+    read_zip64_end(input, dir);
+  }
 
   input.seekg(dir.offset, std::ios::beg);
 
-- 
2.43.0


From dda2000c5d845399e7f0b9319d79359fac2112e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 23/29] fix: report a stream that fails while the directory of
 an archive is read

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 2119a7c..8ecc4ea 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -372,6 +372,10 @@ void read_entries(std::istream &input,
     keys.push_back(entry.filename);
   }
 
+  if (!input) {
+    throw std::runtime_error("Error reading the directory of an NPZ file");
+  }
+
   std::sort(keys.begin(), keys.end());
 }
 
-- 
2.43.0


From 7cb968c28009e9e1a9dff709bdebbfec04da7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 24/29] fix: report that writing a tensor to memory failed

---
 include/npy/npy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 596e293..0ab6d10 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -201,6 +201,10 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   }
 
   buff << "), }";
+  if (!buff) {
+    throw std::runtime_error("Error writing NPY header");
+  }
+
   std::string dictionary = buff.str();
   auto dict_length = dictionary.size() + 1;
   std::string end = "\n";
@@ -454,6 +458,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (!output) {
+      throw std::runtime_error("Error writing tensor");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
@@ -528,6 +535,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (!output) {
+      throw std::runtime_error("Error writing tensor");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
-- 
2.43.0


From cc817ea93931206819428b73b650dfa31cbce35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 25/29] fix: report that an in-memory archive is incomplete

---
 src/npz.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 8ecc4ea..a8bfa2b 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -509,7 +509,11 @@ npzstringwriter::npzstringwriter(compression_method_t compression,
 
 npzstringwriter::~npzstringwriter() {
   if (!m_closed) {
-    close();
+    try {
+      close();
+    } catch (const std::exception &) {
+      // a destructor must not throw: call close to learn of write errors
+    }
   }
 }
 
@@ -529,6 +533,9 @@ void npzstringwriter::close() {
   if (!m_closed) {
     ::close(m_output, m_entries);
     m_closed = true;
+    if (!m_output) {
+      throw std::runtime_error("Error writing NPZ archive");
+    }
   }
 }
 
-- 
2.43.0


From 06728f189a63898e3648d6805174abc74b3d7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 26/29] fix: leave a tensor unchanged when assigning to it
 fails

---
 include/npy/npy.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 0ab6d10..d20c44a 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -933,12 +933,8 @@ public:
 
   /// @brief Copy assignment operator.
   tensor<T> &operator=(const tensor<T> &other) {
-    m_shape = other.m_shape;
-    m_ravel_strides = other.m_ravel_strides;
-    m_fortran_order = other.m_fortran_order;
-    m_dtype = other.m_dtype;
-    m_values = other.m_values;
-    return *this;
+    tensor<T> copy(other); // if this throws, nothing has changed
+    return *this = std::move(copy);
   }
 
   /// @brief Move assignment operator.
-- 
2.43.0


From 7cd497a058781bf4a7f6c8cc70d4428c57c37296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 27/29] fix: do not take a read error for the absence of a
 ZIP64 end record

---
 src/npz.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index a8bfa2b..e3906b1 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -330,9 +330,17 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
 void read_zip64_end(std::istream &stream, CentralDirectory &dir) {
   std::array<std::uint8_t, 4> sig = {};
   stream.seekg(-(CD_END_SIZE + ZIP64_LOCATOR_SIZE), std::ios::end);
-  stream.read(reinterpret_cast<char *>(sig.data()), sig.size());
-  if (!stream || sig != ZIP64_LOCATOR_SIG) {
+  if (!stream) {
     stream.clear();
+    return; // too short for a ZIP64 archive
+  }
+
+  stream.read(reinterpret_cast<char *>(sig.data()), sig.size());
+  if (!stream) {
+    throw std::runtime_error("Error reading the directory of an NPZ file");
+  }
+
+  if (sig != ZIP64_LOCATOR_SIG) {
     return; // not a ZIP64 archive: the end record has the actual values
   }
 
-- 
2.43.0


From 7601708c484dc957ba733645cb1e29aac2237b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 28/29] fix: open an archive without entries wherever its
 directory is said to be

---
 src/npz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index e3906b1..240f7c6 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -380,7 +380,7 @@ void read_entries(std::istream &input,
     keys.push_back(entry.filename);
   }
 
-  if (!input) {
+  if (dir.num_entries > 0 && !input) {
     throw std::runtime_error("Error reading the directory of an NPZ file");
   }
 
-- 
2.43.0


From a20705ba107da1dc76aeee6002f593651545e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:37 +0000
Subject: [PATCH 29/29] fix: do not lose the codec's state when memory runs out

The copies made of the input between deflateInit2 or inflateInit2 and the
loop can throw, in which case the state which was allocated is never freed.
Make them first.
---
 src/zip.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index c89a05e..a6d3197 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -30,6 +30,9 @@ std::string npy_deflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
 
   /* allocate deflate state */
   strm.zalloc = Z_NULL;
@@ -41,10 +44,6 @@ std::string npy_deflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize deflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* compress until end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
@@ -93,6 +92,10 @@ std::string npy_inflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
+
   /* allocate inflate state */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
@@ -104,10 +107,6 @@ std::string npy_inflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize inflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* decompress until deflate stream ends or end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
-- 
2.43.0

