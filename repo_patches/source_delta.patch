From 004ea1b675bd4e2c793ba387c623e05c2cc0ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 01/21] fix: reading records with more than 123 extra fields
 never terminated

The read buffer was smaller than one record, so no record fit into it and
the read loop made no progress.
---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..18c0d41 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,6 +112,10 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer, making sure that it holds at least one record
+    const size_t buffer_size = std::max<size_t> (1 * 1024, record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From a63c737e36a85a5af160dfa807eebc5a5726bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 02/21] fix: truncated input was accepted as a complete file

None of the readers checked the stream after reading, so an empty or cut
off input was silently read as zeros, stale buffer contents, or a valid
empty cloud.
---
 spoc/header.h       | 3 +++
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..e808193 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 namespace spoc
@@ -172,6 +173,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of input while reading the header");
     return h;
 }
 
diff --git a/spoc/io.h b/spoc/io.h
index 18c0d41..c183826 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -75,6 +75,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of input while reading compressed data");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -83,6 +85,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Unexpected end of input while reading compressed data");
 
     // Decompress
     std::vector<T> x (size);
@@ -130,6 +134,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Unexpected end of input while reading point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..9eea11e 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -3,6 +3,7 @@
 #include "spoc/utils.h"
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 
 namespace spoc
 {
@@ -158,6 +159,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of input while reading a point record");
     return p;
 }
 
-- 
2.43.0


From 7ea102ae68eb744e26429f5098f2141028064ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 03/21] fix: output that could not be written was reported as
 success

The writers and the applications that print text never checked the output
stream, so a full disk or a closed output ended with exit status 0.
---
 apps/info/info.cpp  | 5 +++++
 apps/srs/srs.cpp    | 5 +++++
 apps/tool/tool.cpp  | 5 +++++
 spoc/header.h       | 2 ++
 spoc/io.h           | 4 ++++
 spoc/point_record.h | 2 ++
 6 files changed, 23 insertions(+)

diff --git a/apps/info/info.cpp b/apps/info/info.cpp
index 9121ba9..ec0dab8 100644
--- a/apps/info/info.cpp
+++ b/apps/info/info.cpp
@@ -83,6 +83,11 @@ int main (int argc, char **argv)
             }
         }
 
+        // Make sure the output was written
+        cout.flush ();
+        if (!cout)
+            throw runtime_error ("Could not write the output");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..21e695a 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -117,6 +117,11 @@ int main (int argc, char **argv)
             }
         }
 
+        // Make sure the output was written
+        cout.flush ();
+        if (!cout)
+            throw runtime_error ("Could not write the output");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8347f9a..50dcfdf 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -63,6 +63,11 @@ int main (int argc, char **argv)
             const auto l = consume_field_name (s);
             get_field (f, cout, l);
 
+            // Make sure the output was written
+            cout.flush ();
+            if (!cout)
+                throw runtime_error ("Could not write the output");
+
             // Short-circuit so that the SPOC file is not written
             return 0;
         }
diff --git a/spoc/header.h b/spoc/header.h
index e808193..2f3c541 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -147,6 +147,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index c183826..ff1489e 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -377,6 +377,10 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed data");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 9eea11e..b9bcee9 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -142,6 +142,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write a point record");
 }
 
 // Record I/O
-- 
2.43.0


From bee995030ad3888b38f73e8b19ad9e421a276531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 04/21] fix: replace-not changed the classification instead of
 the named field

---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From 6d12793d2d59f5ce20e2b47f19b941198ff58ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 05/21] fix: the documented noise commands and -a option of
 spoc_transform were rejected

The options had no cases in the command line parser, and the short form of
random-seed was missing from the short option list.
---
 apps/transform/transform_cmd.h | 42 +++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 60e1a098316c612bf39daf60b55b709a2465b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 06/21] fix: spoc_diff ignored contradictory selections and
 extra fields in one file only

Two of the three mutually exclusive selections were accepted together, and
an extra field that only one of the files has was reported as equal.
---
 apps/diff/diff.cpp | 2 +-
 apps/diff/diff.h   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 38a82c7..072479d 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -149,8 +149,11 @@ inline int diff (const spoc::file::spoc_file &f1,
                 case '8':
                 case '9': {
                               const size_t index = field - '0';
-                              if (index < get_extra_fields_size (f1.get_point_records ())
-                                    && index < get_extra_fields_size (f2.get_point_records ())
+                              const bool has1 = index < get_extra_fields_size (f1.get_point_records ());
+                              const bool has2 = index < get_extra_fields_size (f2.get_point_records ());
+                              if (has1 != has2)
+                                  return_code = -1;
+                              else if (has1
                                     && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
                                   return_code = -1;
                               break;
-- 
2.43.0


From 39b962515a35228dc0146fbed713648e440b2358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 07/21] fix: compression lost the sign of negative zeros

A column of zeros that contained -0.0 was stored as an all-zero column.
---
 spoc/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index ff1489e..2f90afc 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -25,8 +25,10 @@ namespace io
 template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
-    if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+    // Compare bytes, not values: -0.0 == 0.0, but it is not all zero bits
+    const uint8_t *p = reinterpret_cast<const uint8_t *> (x.data ());
+    if (std::any_of (p, p + x.size () * sizeof(T),
+        [](const uint8_t i) { return i != 0; }))
         return false;
     return true;
 }
-- 
2.43.0


From 657d6487c179ede2a55e4a67081d480cb2fec647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 08/21] fix: files with more than 255 extra fields or too long
 a WKT were written corrupted

The number of extra fields and the WKT length were truncated in the header
so that the file could not be read back.
---
 spoc/file.h   | 2 ++
 spoc/header.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..3b49184 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -147,6 +147,8 @@ class spoc_file
     {
         const size_t extra_fields = get_extra_fields ();
         const size_t total_points = prs.size ();
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
         return h;
diff --git a/spoc/header.h b/spoc/header.h
index 2f3c541..b4f90ca 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -135,7 +135,7 @@ inline bool operator!= (const header &a, const header &b)
 /// @param h Header struct
 inline void write_header (std::ostream &s, const header &h)
 {
-    if (!h.check_signature ())
+    if (!h.is_valid ())
         throw std::runtime_error ("Invalid spoc file format");
     s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
     s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
-- 
2.43.0


From e1d77684b2c969cdadf4054225cb6562a8e0d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 09/21] fix: quantize destroyed coordinates beyond 2^31 times
 the precision

The quotient was cast to int, which overflows for projected coordinates
and fine precisions.
---
 apps/transform/transform.h | 7 ++++---
 spoc/utils.h               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..2d98d41 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -172,9 +173,9 @@ OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        p.x = std::trunc (p.x / precision) * precision;
+        p.y = std::trunc (p.y / precision) * precision;
+        p.z = std::trunc (p.z / precision) * precision;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..2adefc9 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -44,9 +45,9 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        p[i].x = std::trunc (p[i].x / precision) * precision;
+        p[i].y = std::trunc (p[i].y / precision) * precision;
+        p[i].z = std::trunc (p[i].z / precision) * precision;
     }
 }
 
-- 
2.43.0


From a06772cefa7e0d0aaa9ed8ad2f18e848812e45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 10/21] fix: get-field lost coordinate precision and read
 nonexistent extra fields

16 digits do not identify a double, 17 do. An extra field index beyond the
records' extra fields was only checked in debug builds.
---
 apps/tool/tool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..8398f4e 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -27,7 +27,7 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
         case 'x':
         case 'y':
         case 'z':
-            os << std::setprecision(std::numeric_limits<double>::digits10 + 1);
+            os << std::setprecision(std::numeric_limits<double>::max_digits10);
         break;
     }
 
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("Invalid extra field specification");
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From 37c22b7c9d23f19b89d0b1c2671dca02b387c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 11/21] fix: set-field accepted malformed values and rejected a
 missing final newline

Values that are not numbers were read as zeros, and the last value was
rejected when it was not followed by a newline.
---
 apps/tool/tool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 8398f4e..ac84861 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -169,9 +169,13 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         else
             field_ifs >> f_size_t[i];
 
-        // Make sure there are still values to read
-        if (field_ifs.eof ())
-            throw std::runtime_error ("Reached end-of-file before reading all field values");
+        // Make sure the value was read
+        if (field_ifs.fail ())
+        {
+            if (field_ifs.eof ())
+                throw std::runtime_error ("Reached end-of-file before reading all field values");
+            throw std::runtime_error ("Could not parse a field value");
+        }
     }
 
     // Copy points
-- 
2.43.0


From 37f3584ac176573cb9d9c13aeb6ecc275444b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 12/21] fix: radius search missed neighbors in large point
 clouds

Voxel indexes beyond the range of an int were truncated, so the neighboring
voxels were not found.
---
 spoc/radius_search.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 686d84b..e7f8743 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -39,16 +39,18 @@ class random_neighbor_selector
         , voxel_counts (total_voxels)
     {
         // Get the voxel indexes for the 27 voxels
-        const int i1 = static_cast<int> (ijk.i) - 1;
-        const int i2 = static_cast<int> (ijk.i) + 2;
-        const int j1 = static_cast<int> (ijk.j) - 1;
-        const int j2 = static_cast<int> (ijk.j) + 2;
-        const int k1 = static_cast<int> (ijk.k) - 1;
-        const int k2 = static_cast<int> (ijk.k) + 2;
+        //
+        // Indexes below 0 wrap around to voxels that are always empty
+        const size_t i1 = ijk.i - 1;
+        const size_t i2 = ijk.i + 2;
+        const size_t j1 = ijk.j - 1;
+        const size_t j2 = ijk.j + 2;
+        const size_t k1 = ijk.k - 1;
+        const size_t k2 = ijk.k + 2;
         size_t n = 0;
-        for (int i = i1; i < i2; ++i)
-            for (int j = j1; j < j2; ++j)
-                for (int k = k1; k < k2; ++k)
+        for (size_t i = i1; i != i2; ++i)
+            for (size_t j = j1; j != j2; ++j)
+                for (size_t k = k1; k != k2; ++k)
                     voxel_indexes[n++] = spoc::voxel::voxel_index (i, j, k);
 
         // There should have been 27
-- 
2.43.0


From 1eaa91fbe07b7c604f8dc56cd29ac9b1a05cfbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 13/21] fix: spoc_info misreported classes above 2^31 and
 printed unknown types in JSON

Classes were counted as int, and the JSON printer did not know uint32_t,
so the summaries of the c and p fields were unreadable.
---
 apps/info/info.h | 4 ++--
 spoc/json.h      | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..53f943c 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<uint32_t,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From bb13556efac9c79cbc84a606cc9ae1b5cf689a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 14/21] fix: extra field names with trailing garbage were
 accepted

For example, 'e1x' was taken for 'e1'.
---
 spoc/app_utils.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..afa52e7 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -97,8 +97,14 @@ int get_extra_index (const std::string &f)
 
     // Convert to int
     int n;
-    try { n = stoi (e); }
+    size_t sz = 0;
+    try { n = stoi (e, &sz); }
     catch (...) { return -1; }
+
+    // There should not be anything after the number
+    if (sz != e.size ())
+        return -1;
+
     return n;
 }
 
-- 
2.43.0


From c7777dbde4962730cb26cb6f1da0f7ab67813259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 15/21] fix: setting a field to an integer above 2^53 stored a
 rounded value

The value was parsed as a double even for the 64-bit extra fields.
---
 apps/transform/transform.h | 11 ++++++++---
 spoc/app_utils.h           | 12 ++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 2d98d41..7317cf4 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -398,7 +398,8 @@ OP get_scale_z_op (double v)
     return op;
 }
 
-OP get_set_op (const std::string &field_name, const double v, const size_t extra_fields)
+template<typename V>
+OP get_set_op (const std::string &field_name, const V v, const size_t extra_fields)
 {
     using namespace spoc::app_utils;
 
@@ -618,8 +619,12 @@ void apply (std::istream &is,
             // Get label and value
             std::string s = c.params;
             const auto l = consume_field_name (s);
-            const auto v = consume_double (s);
-            ops.push_back (get_set_op (l, v, h.extra_fields));
+            // A double can't represent all of the integers that fit in a field
+            const bool is_xyz = l == "x" || l == "y" || l == "z";
+            if (!is_xyz && !s.empty () && s.find_first_not_of ("0123456789") == std::string::npos)
+                ops.push_back (get_set_op (l, consume_size_t (s), h.extra_fields));
+            else
+                ops.push_back (get_set_op (l, consume_double (s), h.extra_fields));
         }
         else if (c.name == "uniform-noise")
         {
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index afa52e7..435bb61 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -162,6 +162,18 @@ unsigned consume_int (std::string &s)
     return v;
 }
 
+/// Get an unsigned integer and erase from the string
+/// @param s The string to parse
+size_t consume_size_t (std::string &s)
+{
+    size_t sz = 0;
+    size_t v = 0;
+    try { v = std::stoull (s, &sz); }
+    catch (...) { throw std::runtime_error (std::string ("Could not parse int value string: ") + s); }
+    s.erase (0, sz + 1);
+    return v;
+}
+
 std::vector<unsigned> consume_ints (std::string &s)
 {
     std::vector<unsigned> vs;
-- 
2.43.0


From 936eab25bf4414619d0de9a9a2d4fc1b0cbc8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 16/21] fix: out of range indexes from Python read or wrote
 outside of the records

The library only checks them in debug builds.
---
 spocpy/spocpy/spocpy.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/spocpy/spocpy/spocpy.cpp b/spocpy/spocpy/spocpy.cpp
index 3e40d8f..4af2629 100644
--- a/spocpy/spocpy/spocpy.cpp
+++ b/spocpy/spocpy/spocpy.cpp
@@ -53,6 +53,33 @@ void py_writespocfile (const std::string &filename, const spoc::file::spoc_file
     return spoc::io::write_spoc_file (ofs, f);
 }
 
+// Indexes that come from Python have to be checked
+void check_index (const size_t i, const size_t n)
+{
+    if (i >= n)
+        throw py::index_error ("Index out of range");
+}
+
+spoc::point_record::point_record py_getpointrecord (const spoc::file::spoc_file &f, const size_t i)
+{
+    check_index (i, f.get_point_records ().size ());
+    return f.get_point_record (i);
+}
+
+void py_setpointrecord (spoc::file::spoc_file &f, const size_t i, const spoc::point_record::point_record &p)
+{
+    check_index (i, f.get_point_records ().size ());
+    f.set_point_record (i, p);
+}
+
+std::vector<uint64_t> py_getextra (const spoc::file::spoc_file &f, const size_t k)
+{
+    // Files without points do not have a number of extra fields
+    if (!f.get_point_records ().empty ())
+        check_index (k, f.get_extra_fields ());
+    return f.get_extra (k);
+}
+
 //-------------------------
 // Python module definition
 //-------------------------
@@ -96,8 +123,8 @@ PYBIND11_MODULE(spocpy_cpp,m)
         .def("setWKT", &spoc::file::spoc_file::set_wkt)
         .def("getCompressed", &spoc::file::spoc_file::get_compressed)
         .def("setCompressed", &spoc::file::spoc_file::set_compressed)
-        .def("getPointRecord", &spoc::file::spoc_file::get_point_record)
-        .def("setPointRecord", &spoc::file::spoc_file::set_point_record)
+        .def("getPointRecord", &py_getpointrecord)
+        .def("setPointRecord", &py_setpointrecord)
         .def("getPointRecords", &spoc::file::spoc_file::get_point_records)
         .def("setPointRecords", &spoc::file::spoc_file::set_point_records)
         .def("getX", &spoc::file::spoc_file::get_x)
@@ -109,7 +136,7 @@ PYBIND11_MODULE(spocpy_cpp,m)
         .def("getR", &spoc::file::spoc_file::get_r)
         .def("getG", &spoc::file::spoc_file::get_g)
         .def("getB", &spoc::file::spoc_file::get_b)
-        .def("getExtra", &spoc::file::spoc_file::get_extra)
+        .def("getExtra", &py_getextra)
         ;
     m.def("readspocfile", &py_readspocfile, "Read a SPOC file");
     m.def("writespocfile", &py_writespocfile, "Write a SPOC file");
-- 
2.43.0


From 36fda00091c896d864c7c4442a9d2b8d2831903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 17/21] fix: points below the anchor corner were put into the
 first voxels

---
 spoc/voxel.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spoc/voxel.h b/spoc/voxel.h
index a0a9816..afe8201 100644
--- a/spoc/voxel.h
+++ b/spoc/voxel.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include "spoc/extent.h"
+#include <cmath>
+#include <cstdint>
 #include <unordered_map>
 #include <unordered_set>
 #include <numeric>
@@ -39,10 +41,16 @@ struct voxel_index
 template<typename T,typename U>
 voxel_index get_voxel_index (const T &p, const U &minp, const double res)
 {
+    // Round down, so that a point outside of the extent does not end up in
+    // one of the voxels inside of it
+    const auto get_index = [] (const double d)
+    {
+        return static_cast<size_t> (static_cast<int64_t> (std::floor (d)));
+    };
     voxel_index v;
-    v.i = (p.x - minp.x) / res;
-    v.j = (p.y - minp.y) / res;
-    v.k = (p.z - minp.z) / res;
+    v.i = get_index ((p.x - minp.x) / res);
+    v.j = get_index ((p.y - minp.y) / res);
+    v.k = get_index ((p.z - minp.z) / res);
     return v;
 }
 
-- 
2.43.0


From 86bb01bb3d6147d6ca568e1486186e590c661ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 18/21] fix: set-field accepted numbers with trailing garbage
 as the last value

---
 apps/tool/tool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index ac84861..cb39b1f 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cctype>
 #include <iostream>
 
 namespace spoc
@@ -176,6 +177,11 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
                 throw std::runtime_error ("Reached end-of-file before reading all field values");
             throw std::runtime_error ("Could not parse a field value");
         }
+
+        // There should not be anything attached to the value
+        const int c = field_ifs.peek ();
+        if (c != std::istream::traits_type::eof () && !std::isspace (c))
+            throw std::runtime_error ("Could not parse a field value");
     }
 
     // Copy points
-- 
2.43.0


From 56b1e0ce6505813e86498e13b0c283e086c09506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 19/21] fix: spoc_diff --version failed without input filenames

---
 apps/diff/diff_cmd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff_cmd.h b/apps/diff/diff_cmd.h
index ed73ba7..5ce5d11 100644
--- a/apps/diff/diff_cmd.h
+++ b/apps/diff/diff_cmd.h
@@ -58,7 +58,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 return args;
             }
             case 'v': args.verbose = true; break;
-            case 'e': args.version = true; break;
+            case 'e': args.version = true; return args;
             case 'a': args.header_only = true; break;
             case 'd': args.data_only = true; break;
             case 'f':
-- 
2.43.0


From 191f5aa1f74c16850ff4ed932ad229cf3788d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 20/21] fix: radius search missed neighbours that are about the
 radius away

Rounding of the voxel coordinates could put two points whose distance is
not more than the radius into voxels that are not adjacent.
---
 spoc/radius_search.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index e7f8743..0bb618c 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -259,11 +259,15 @@ void radius_search (
     V neighbor_op,
     const size_t max_neighbors = 32)
 {
+    // The voxels are slightly larger than the radius, so that rounding errors
+    // can't put two points that are 'radius' apart into voxels that don't touch
+    const double res = radius * (1.0 + 1e-3);
+
     // Get an i,j,k for each point index
-    const auto point_voxel_indexes = spoc::voxel::get_voxel_indexes (points, point_indexes, radius);
+    const auto point_voxel_indexes = spoc::voxel::get_voxel_indexes (points, point_indexes, res);
 
     // Get an i,j,k for each neighbor index
-    const auto neighbor_voxel_indexes = spoc::voxel::get_voxel_indexes (points, neighbor_indexes, radius);
+    const auto neighbor_voxel_indexes = spoc::voxel::get_voxel_indexes (points, neighbor_indexes, res);
 
     // Map each unique i,j,k to a vector of indexes back into 'points'
     const auto neighbor_vim = spoc::voxel::get_voxel_index_map (neighbor_voxel_indexes);
-- 
2.43.0


From ae25e48df3facbf027d4a8bab1c8c4ca642a3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:00 +0000
Subject: [PATCH 21/21] fix: diff: an unknown field specifier is an error also
 behind a field that differs

---
 apps/diff/diff.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 072479d..d3253c7 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -159,10 +159,6 @@ inline int diff (const spoc::file::spoc_file &f1,
                               break;
                           }
             }
-
-            // If any are not equal, short-circuit
-            if (return_code != 0)
-                break;
         }
     }
 
-- 
2.43.0

