From 2387ce5fb70f8f4b2612e48ddf2b912765123120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 01/60] fix: copying an Exception dereferenced a null pointer

---
 src/Exception.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..b185bb7 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,9 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : std::exception { e }
+    , pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From b9a18a2d8fa2938d6b59a5fe7a53073547d34c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 02/60] fix: first field of a trace header map was not checked
 against 240 bytes

---
 src/CommonSEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..2cb73c1 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,9 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first >= 240 || i.first + size > 240)
+				throw Exception(__FILE__, __LINE__,
+								string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +94,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From f9f624d10609392d08a3e0f223e1ad6fa7c8660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 03/60] fix: real trace header values could not be written to
 SEG-Y

---
 src/OSEGY.cpp | 69 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..86b1525 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -23,6 +23,23 @@ using std::string;
 using std::vector;
 
 namespace sedaman {
+// header values may be held as integer or real whatever type is in the map
+static int64_t int_value(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return std::holds_alternative<int64_t>(*v) ? get<int64_t>(*v) :
+		static_cast<int64_t>(get<double>(*v));
+}
+
+static double dbl_value(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return std::holds_alternative<double>(*v) ? get<double>(*v) :
+		static_cast<double>(get<int64_t>(*v));
+}
+
 class OSEGY::Impl {
 public:
     Impl(CommonSEGY com)
@@ -295,55 +312,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, int_value(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, dbl_value(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, dbl_value(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, dbl_value(tmp));
 				break;
 		}
 	}
@@ -364,55 +381,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, int_value(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, dbl_value(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, dbl_value(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, dbl_value(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 5241ceaf948b20a5bb1d818483fdb0aa92799c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 04/60] fix: the last additional SEG-Y trace header was not
 written

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 86b1525..0647ed1 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -371,7 +371,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 63c838373b158d00a63e72aa7b5d7c3f72f16f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 05/60] fix: SEG-Y writer read beyond an empty trace header map

---
 src/OSEGY.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 0647ed1..5dfeba5 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -307,6 +307,8 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
     optional<Trace::Header::Value> tmp;
+	if (common.tr_hdr_map.empty())
+		common.tr_hdr_map.emplace_back();
 	for (auto& p : common.tr_hdr_map[0].second) {
 		char* pos = common.hdr_buf + p.first;
 		switch (p.second.second) {
-- 
2.43.0


From b74f4ae1b27f57517b154228b8d19b5248fcbff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 06/60] fix: SEG-Y byte order constant was swapped for big
 endian files

---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 5dfeba5..407fb78 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -288,7 +288,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // constant shows byte ordering by itself
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From 24de81f7d62bd3e7642cf5de628a9232ab6ccc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 07/60] fix: powers of 16 were written as zero in IBM float
 format

---
 src/OSEGY.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 407fb78..9ecf4ac 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -164,10 +164,19 @@ void OSEGY::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
+        int exp2;
+        frexp(abs_val, &exp2);
+        // the least power of 16 greater then the value
+        int exp16 = std::max((exp2 + 3) >> 2, -64);
+        uint32_t exp = 0, fraction = 0;
+        if (exp16 > 63) {
+            // the greatest possible value
+            exp = 0x7f;
+            fraction = 0x00ffffff;
+        } else if (abs_val > 0) {
+            exp = exp16 + 64;
+            fraction = ldexp(abs_val, 24 - 4 * exp16);
+        }
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
-- 
2.43.0


From 63f0197c54c9fa91f93604de7c58d94253b49363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 08/60] fix: default revision 0 text header was filled with
 garbage

---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 4fe1624abebde93ad52ebcc732b5a7713d267df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 09/60] fix: refused SEG-Y traces overran buffers and left
 bytes in the file

---
 include/OSEGY.hpp |  2 ++
 src/OSEGY.cpp     | 30 ++++++++++++++++++++++++++++--
 src/OSEGYRev0.cpp |  9 ++++++---
 src/OSEGYRev1.cpp |  7 +++++--
 src/OSEGYRev2.cpp | 12 ++++++++++--
 5 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..1cf64ac 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -61,6 +61,8 @@ protected:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void prepare_trace_samples_fix(Trace const& t);
+    void prepare_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 9ecf4ac..0a81529 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -1,6 +1,7 @@
 #include "OSEGY.hpp"
 #include "Exception.hpp"
 #include "util.hpp"
+#include <algorithm>
 #include <cfloat>
 #include <climits>
 #include <cmath>
@@ -55,6 +56,8 @@ public:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void prepare_trace_samples_fix(Trace const& t);
+    void prepare_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
@@ -468,13 +471,27 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
-void OSEGY::Impl::write_trace_samples_var(Trace const& t)
+void OSEGY::Impl::prepare_trace_samples_fix(Trace const& t)
+{
+    if (t.samples().size() * common.bytes_per_sample > common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"trace has more samples than declared");
+}
+
+void OSEGY::Impl::prepare_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
     int64_t samp_num = get<int64_t>(v);
+    if (samp_num < 0)
+        throw Exception(__FILE__, __LINE__, "negative number of samples");
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
         common.samp_buf.resize(bytes_num);
+    prepare_trace_samples_fix(t);
+}
+
+void OSEGY::Impl::write_trace_samples_var(Trace const& t)
+{
     write_trace_samples_fix(t);
 }
 
@@ -484,6 +501,7 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
     vector<double> const& samples = t.samples();
     for (auto samp : samples)
         write_sample(&buf, samp);
+    std::fill(buf, common.samp_buf.data() + common.samp_buf.size(), 0);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
 }
 
@@ -510,6 +528,14 @@ void OSEGY::write_additional_trace_headers(Trace::Header const& hdr)
 {
     pimpl->write_additional_trace_headers(hdr);
 }
+void OSEGY::prepare_trace_samples_fix(Trace const& t)
+{
+    pimpl->prepare_trace_samples_fix(t);
+}
+void OSEGY::prepare_trace_samples_var(Trace const& t)
+{
+    pimpl->prepare_trace_samples_var(t);
+}
 void OSEGY::write_trace_samples_fix(Trace const& t)
 {
     pimpl->write_trace_samples_fix(t);
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..f683eb2 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -61,6 +61,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 				sgy.common().binary_header.samp_per_tr) *
 			sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
+            sgy.prepare_trace_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
@@ -68,15 +69,15 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
-                if (samp_num > INT16_MAX)
+                if (samp_num > INT16_MAX || samp_num < 0)
                     throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much for "
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
@@ -90,8 +91,10 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
                     sgy.common().binary_header.samp_int = samp_int;
                 sgy.common().samp_buf.resize(samp_num *
 											 sgy.common().bytes_per_sample);
+				sgy.prepare_trace_samples_fix(tr);
 				sgy.write_bin_header();
             }
+            sgy.prepare_trace_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..a8eb36e 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -64,11 +64,13 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 					sgy.common().binary_header.samp_per_tr) *
 			   	sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
+                sgy.prepare_trace_samples_fix(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
             };
         } else {
             write_trace = [this](Trace& tr) {
+                sgy.prepare_trace_samples_var(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_var(tr);
             };
@@ -77,10 +79,11 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 		//if we have empty bin header we can not assume that traces has
 		//fixed length
 		write_trace = [this](Trace& tr) {
+			sgy.prepare_trace_samples_var(tr);
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
 				if (samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
@@ -88,7 +91,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..b1e8002 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -72,24 +72,28 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.prepare_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.prepare_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.prepare_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.prepare_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -99,6 +103,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.prepare_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
@@ -106,12 +111,14 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.prepare_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.prepare_trace_samples_var(tr);
                     set_min_hdrs(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
@@ -119,6 +126,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.prepare_trace_samples_var(tr);
                     set_min_hdrs(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
@@ -131,7 +139,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
         if (samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
@@ -139,7 +147,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
+        v = tr.header().get("SAMP_INT").value();
         double samp_int = get<int64_t>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 8d9368d17d07febb85ab5ed3568c2052d5e3d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 10/60] fix: revision 2 writer refused a real sample interval

---
 src/OSEGYRev2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index b1e8002..337a2dc 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -148,7 +148,8 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
         v = tr.header().get("SAMP_INT").value();
-        double samp_int = get<int64_t>(v);
+        double samp_int = std::holds_alternative<int64_t>(v) ?
+			get<int64_t>(v) : get<double>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
-- 
2.43.0


From 70ea9b6c90a0393245e0dd15ac272870642064f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 11/60] fix: SEG-Y writers ignored the extended number of
 samples

---
 include/OSEGY.hpp | 1 +
 src/OSEGY.cpp     | 6 ++++++
 src/OSEGYRev0.cpp | 4 ++--
 src/OSEGYRev1.cpp | 4 ++--
 src/OSEGYRev2.cpp | 4 ++--
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index 1cf64ac..620883c 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -56,6 +56,7 @@ protected:
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
+    std::size_t declared_samp_per_tr();
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 0a81529..335d11b 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -517,6 +517,12 @@ CommonSEGY& OSEGY::common() { return pimpl->common; }
 void OSEGY::assign_raw_writers() { pimpl->assign_raw_writers(); }
 void OSEGY::assign_sample_writer() { pimpl->assign_sample_writer(); }
 void OSEGY::assign_bytes_per_sample() { pimpl->assign_bytes_per_sample(); }
+std::size_t OSEGY::declared_samp_per_tr()
+{
+    CommonSEGY::BinaryHeader const& bh = pimpl->common.binary_header;
+    return bh.ext_samp_per_tr ? bh.ext_samp_per_tr :
+		static_cast<uint16_t>(bh.samp_per_tr);
+}
 void OSEGY::write_bin_header() { pimpl->write_bin_header(); }
 void OSEGY::write_ext_text_headers() { pimpl->write_ext_text_headers(); }
 void OSEGY::write_trailer_stanzas() { pimpl->write_trailer_stanzas(); }
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index f683eb2..05c3c13 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -57,8 +57,8 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 	zero.format_code = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
-        sgy.common().samp_buf.resize(static_cast<uint16_t>(
-				sgy.common().binary_header.samp_per_tr) *
+        sgy.common().samp_buf.resize(
+				sgy.declared_samp_per_tr() *
 			sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
             sgy.prepare_trace_samples_fix(tr);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index a8eb36e..eb94725 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -60,8 +60,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            sgy.common().samp_buf.resize(
+				sgy.declared_samp_per_tr() *
 			   	sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
                 sgy.prepare_trace_samples_fix(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 337a2dc..48baac2 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -67,8 +67,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            sgy.common().samp_buf.resize(
+				sgy.declared_samp_per_tr() *
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
-- 
2.43.0


From ef4fbe8aa114ba47b50eba66d0b6960fd32a355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 12/60] fix: number of extended SEG-Y text headers was not
 stored in the file

---
 include/CommonSEGY.hpp |  1 +
 src/OSEGYRev0.cpp      |  4 +---
 src/OSEGYRev1.cpp      | 12 +++++++-----
 src/OSEGYRev2.cpp      | 12 +++++++-----
 4 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/CommonSEGY.hpp b/include/CommonSEGY.hpp
index 587220f..a9001b9 100644
--- a/include/CommonSEGY.hpp
+++ b/include/CommonSEGY.hpp
@@ -138,6 +138,7 @@ public:
             NUM_OF_TRAILER_STANZA
         };
         static char const* name_as_string(Name n);
+        bool operator==(BinaryHeader const&) const = default;
     } binary_header;
     ///
     /// \brief Transform text header from ebcdic to ascii.
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 05c3c13..c80d90b 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -55,8 +54,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!(sgy.common().binary_header == zero)) {
         sgy.common().samp_buf.resize(
 				sgy.declared_samp_per_tr() *
 			sgy.common().bytes_per_sample);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index eb94725..23dec47 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -49,16 +48,18 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    CommonSEGY::BinaryHeader zero = {};
+	zero.format_code = 5;
+	bool no_bin_hdr = sgy.common().binary_header == zero;
+	sgy.common().binary_header.ext_text_headers_num =
+		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
-    CommonSEGY::BinaryHeader zero = {};
-	zero.format_code = 5;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!no_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(
 				sgy.declared_samp_per_tr() *
@@ -107,6 +108,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.common().samp_buf.resize
 					(samp_num * sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
+				sgy.common().file.seekg(first_trace_pos);
 			}
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 48baac2..8233d40 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::ios_base;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::optional;
 using std::pair;
@@ -56,16 +55,18 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    CommonSEGY::BinaryHeader zero = {};
+	zero.format_code = 5;
+	bool no_bin_hdr = sgy.common().binary_header == zero;
+	sgy.common().binary_header.ext_text_headers_num =
+		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
-    CommonSEGY::BinaryHeader zero = {};
-	zero.format_code = 5;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!no_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(
 				sgy.declared_samp_per_tr() *
@@ -157,6 +158,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
             sgy.common().binary_header.samp_int = samp_int;
         sgy.common().samp_buf.resize(samp_num * sgy.common().bytes_per_sample);
 		sgy.write_bin_header();
+		sgy.common().file.seekg(first_trace_pos);
     }
 }
 
-- 
2.43.0


From c344837c6464cdabbb8766417158fd0837193712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 13/60] fix: SEG-Y revision 1 and 2 writers did not store the
 revision number

---
 src/OSEGYRev1.cpp | 2 ++
 src/OSEGYRev2.cpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 23dec47..d3d0a85 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -51,6 +51,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
 	bool no_bin_hdr = sgy.common().binary_header == zero;
+	sgy.common().binary_header.SEGY_rev_major_ver = 1;
+	sgy.common().binary_header.SEGY_rev_minor_ver = 0;
 	sgy.common().binary_header.ext_text_headers_num =
 		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 8233d40..ddd30ec 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -58,6 +58,10 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
 	bool no_bin_hdr = sgy.common().binary_header == zero;
+	if (sgy.common().binary_header.SEGY_rev_major_ver < 2) {
+		sgy.common().binary_header.SEGY_rev_major_ver = 2;
+		sgy.common().binary_header.SEGY_rev_minor_ver = 0;
+	}
 	sgy.common().binary_header.ext_text_headers_num =
 		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
-- 
2.43.0


From f7188fefa961d283bbbf6d61c0cc0007cd1304ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 14/60] fix: SEG-Y trailer stanzas count and first trace offset
 did not match the file

---
 src/OSEGYRev2.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index ddd30ec..f06aae8 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -64,6 +64,13 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 	}
 	sgy.common().binary_header.ext_text_headers_num =
 		sgy.common().text_headers.size() - 1;
+	sgy.common().binary_header.num_of_trailer_stanza =
+		sgy.common().trailer_stanzas.size();
+	if (sgy.common().binary_header.byte_off_of_first_tr)
+		// traces are written just after extended text headers
+		sgy.common().binary_header.byte_off_of_first_tr =
+			CommonSEGY::BIN_HEADER_SIZE +
+			sgy.common().text_headers.size() * CommonSEGY::TEXT_HEADER_SIZE;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -184,7 +191,7 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 OSEGYRev2::~OSEGYRev2()
 {
     common().file.seekg(0, ios_base::end);
-    if (common().binary_header.num_of_trailer_stanza)
+    if (!common().trailer_stanzas.empty())
         write_trailer_stanzas();
 }
 } // namespace sedaman
-- 
2.43.0


From f59514572f8f7651568d2d83032a750ed9c5e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 15/60] fix: counted SEG-Y trailer stanzas were looked for
 beyond the end of file

---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..e120d3a 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -406,7 +406,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>(
+							  common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From 872947f812afd39f3452701cf3442a7bab362b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 16/60] fix: more than 32767 samples or unmapped SAMP_NUM in
 variable length SEG-Y traces

---
 src/ISEGY.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index e120d3a..f646ba7 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -57,6 +57,8 @@ public:
     vector<double> read_trc_smpls_fix();
     vector<double> read_trc_smpls_var(unordered_map<string,
 									  Trace::Header::Value>& hdr);
+    uint64_t trc_samp_num(unordered_map<string,
+						  Trace::Header::Value> const& hdr);
     void file_skip_bytes(streamoff off);
     vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>
 	   	tr_hdr_default_io_map();
@@ -515,13 +517,23 @@ Trace::Header ISEGY::read_header()
         pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
 							   pimpl->common.bytes_per_sample);
     } else {
-        Trace::Header::Value v = hdr["SAMP_NUM"];
-        uint64_t samp_num = get<int64_t>(v);
+        uint64_t samp_num = pimpl->trc_samp_num(hdr);
         pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);
     }
     return Trace::Header(hdr);
 }
 
+uint64_t ISEGY::Impl::trc_samp_num(unordered_map<string,
+								   Trace::Header::Value> const& hdr)
+{
+    auto it = hdr.find("SAMP_NUM");
+    if (it == hdr.end())
+        return common.samp_per_tr;
+    int64_t samp_num = get<int64_t>(it->second);
+    // two bytes number could be more then int16_t can hold without wrap
+    return samp_num < 0 ? static_cast<uint16_t>(samp_num) : samp_num;
+}
+
 vector<double> ISEGY::Impl::read_trc_smpls_fix()
 {
     fill_buf_from_file(common.samp_buf.data(), common.samp_buf.size());
@@ -535,8 +547,7 @@ vector<double> ISEGY::Impl::read_trc_smpls_fix()
 vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    Trace::Header::Value v = hdr["SAMP_NUM"];
-    size_t samp_num = get<int64_t>(v);
+    size_t samp_num = trc_samp_num(hdr);
     if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
         common.samp_buf.resize(samp_num * common.bytes_per_sample);
     return read_trc_smpls_fix();
-- 
2.43.0


From d52ce5ea1001ec013fd3f8e237e42440487bf017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 17/60] fix: SEG-Y trailer stanzas without a count were looked
 for in trace data

---
 src/ISEGY.cpp | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index f646ba7..52e992e 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -353,9 +353,14 @@ void ISEGY::Impl::read_trailer_stanzas()
         if (!common.binary_header.num_of_tr_in_file)
             throw(Exception(__FILE__, __LINE__,
 						   	"unable to determine end of trace data"));
-        if (common.binary_header.fixed_tr_length) {
+        if (common.binary_header.fixed_tr_length ||
+			common.binary_header.SEGY_rev_major_ver == 0) {
             // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
+            streamoff trc_size = static_cast<streamoff>(
+				common.bytes_per_sample) * common.samp_per_tr +
+				CommonSEGY::TR_HEADER_SIZE * (static_cast<streamoff>(
+					common.binary_header.max_num_add_tr_headers) + 1);
+            common.file.seekg(trc_size *
 							  common.binary_header.num_of_tr_in_file,
 							  ios_base::cur);
             end_of_data = common.file.tellg();
@@ -370,30 +375,11 @@ void ISEGY::Impl::read_trailer_stanzas()
             }
         } else {
             // variable trace length
-            char trc_hdr_buf[CommonSEGY::TR_HEADER_SIZE];
             for (auto i = common.binary_header.num_of_tr_in_file; i; --i) {
-                common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
-                // get number of samples from main header
-                char const* ptr = trc_hdr_buf + 114;
-                uint32_t trc_samp_num = read_i16(&ptr);
-                if (common.binary_header.max_num_add_tr_headers) {
-                    // if there are additional header(s)
-                    // get number of samples from first additional header
-                    common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
-                    ptr = trc_hdr_buf + 136;
-                    trc_samp_num = read_u32(&ptr);
-                    ptr = trc_hdr_buf + 156;
-                    uint16_t add_tr_hdr_num = read_u16(&ptr);
-                    add_tr_hdr_num = add_tr_hdr_num ? add_tr_hdr_num :
-					   	common.binary_header.max_num_add_tr_headers;
-                    // skip addional headers
-                    common.file.seekg((add_tr_hdr_num - 1) *
-									  CommonSEGY::TR_HEADER_SIZE,
-									  ios_base::cur);
-                }
+                unordered_map<string, Trace::Header::Value> hdr =
+				   	read_trc_header();
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
-								  ios_base::cur);
+                file_skip_bytes(trc_samp_num(hdr) * common.bytes_per_sample);
             }
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
-- 
2.43.0


From 17c9d648fb9b673b3ee1a6ce6c778123cf857507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 18/60] fix: truncated or corrupt SEG-Y files were read as
 garbage or endlessly

---
 src/ISEGY.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 52e992e..17b357d 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -86,6 +86,7 @@ private:
     void assign_bytes_per_sample();
     void read_trailer_stanzas();
     void fill_buf_from_file(char* buf, streamsize n);
+    void check_end_of_data(streamoff off);
 };
 
 void ISEGY::Impl::initialization(bool override_bin_hdr)
@@ -117,7 +118,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
     common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr * common.bytes_per_sample));
+        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
@@ -131,14 +132,22 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
 			{ return read_trc_smpls_var(hdr); };
 }
 
+void ISEGY::Impl::check_end_of_data(streamoff off)
+{
+    if (off < 0 || off > end_of_data - common.file.tellg())
+        throw Exception(__FILE__, __LINE__, "unexpected end of trace data");
+}
+
 void ISEGY::Impl::fill_buf_from_file(char* buf, streamsize n)
 {
+    check_end_of_data(n);
     common.file.read(buf, n);
     curr_pos = common.file.tellg();
 }
 
 void ISEGY::Impl::file_skip_bytes(streamoff off)
 {
+    check_end_of_data(off);
     common.file.seekg(off, ios_base::cur);
     curr_pos = common.file.tellg();
 }
@@ -349,7 +358,13 @@ void ISEGY::Impl::read_ext_text_headers()
 void ISEGY::Impl::read_trailer_stanzas()
 {
     char text_buf[CommonSEGY::TEXT_HEADER_SIZE];
+    if (common.binary_header.max_num_add_tr_headers < 0)
+        throw(Exception(__FILE__, __LINE__,
+					   	"negative number of additional trace headers"));
     if (common.binary_header.num_of_trailer_stanza == -1) {
+        common.file.seekg(0, ios_base::end);
+        end_of_data = common.file.tellg();
+        common.file.seekg(first_trace_pos);
         if (!common.binary_header.num_of_tr_in_file)
             throw(Exception(__FILE__, __LINE__,
 						   	"unable to determine end of trace data"));
@@ -440,7 +455,7 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
-		 i < common.binary_header.max_num_add_tr_headers + 1; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
 			fill_buf_from_file(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
@@ -500,7 +515,8 @@ Trace::Header ISEGY::read_header()
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
     if (pimpl->common.binary_header.fixed_tr_length ||
 	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
+        pimpl->file_skip_bytes(static_cast<streamoff>(
+								   pimpl->common.samp_per_tr) *
 							   pimpl->common.bytes_per_sample);
     } else {
         uint64_t samp_num = pimpl->trc_samp_num(hdr);
@@ -534,6 +550,8 @@ vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     size_t samp_num = trc_samp_num(hdr);
+    if (samp_num > static_cast<uint64_t>(end_of_data))
+        throw Exception(__FILE__, __LINE__, "unexpected end of trace data");
     if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
         common.samp_buf.resize(samp_num * common.bytes_per_sample);
     return read_trc_smpls_fix();
-- 
2.43.0


From 3d73c87be62b62bf1d4ff4b04106158c9c716714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 19/60] fix: sorted SEG-Y reader used invalid iterators when no
 traces remain

---
 src/ISEGYSorted1D.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..9d34103 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,14 +34,17 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
+    if (map_cur == map_end)
+        return;
     vec_cur = map_cur->second.begin();
     vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
 
 Trace::Header ISEGYSorted1D::read_header() {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces");
     common().file.seekg(*pimpl->vec_cur);
     Trace::Header hdr = ISEGY::read_header();
     ++pimpl->vec_cur;
@@ -56,6 +59,8 @@ Trace::Header ISEGYSorted1D::read_header() {
 }
 
 Trace ISEGYSorted1D::read_trace() {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces");
     common().file.seekg(*pimpl->vec_cur);
     Trace trc = ISEGY::read_trace();
     ++pimpl->vec_cur;
-- 
2.43.0


From ea3b78a514a44f9bf513fb0ac952b2437c3c1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:49 +0000
Subject: [PATCH 20/60] fix: SEG-D formats 8015, 8022, 8024, 8042, 8044 and
 8048 were decoded wrong

---
 src/ISEGD.cpp | 88 +++++++++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..84a70fb 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -53,6 +53,11 @@ private:
     void fill_buf_from_file(char* buf, streamsize n);
     void file_skip_bytes(streamoff off);
     void check_trc_hdr_ext();
+    // samples of format 8015 are stored in groups of four
+    static constexpr int SAMPLES_IN_GROUP = 4;
+    static constexpr int GROUP_SIZE = 10;
+    double group[SAMPLES_IN_GROUP];
+    int group_pos;
     function<double(char const**)> read_sample;
     function<uint8_t(char const**)> read_u8;
     function<int8_t(char const**)> read_i8;
@@ -920,38 +925,44 @@ void ISEGD::Impl::assign_sample_reading()
     case 8015:
         common.bits_per_sample = 20;
         read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
-            if (counter == 4)
-                counter = 0;
-            if (!counter) {
-                int exp[4];
-                for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+            if (group_pos == SAMPLES_IN_GROUP)
+                group_pos = 0;
+            if (!group_pos) {
+                int exp[SAMPLES_IN_GROUP];
+                for (int i = 0; i < SAMPLES_IN_GROUP; i += 2) {
+                    uint8_t exps = read_u8(buf);
+                    exp[i] = exps >> 4;
+                    exp[i + 1] = exps & 0xf;
+                }
+                // sign and 14 bit one's complement fraction
+                for (int i = 0; i < SAMPLES_IN_GROUP; ++i) {
+                    uint16_t word = read_u16(buf);
+                    group[i] = word & 0x8000 ?
+                        -((~word & 0x7fff) >> 1) * pow(2, exp[i] - 14) :
+                        (word >> 1) * pow(2, exp[i] - 14);
                 }
-                for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
             }
-            return result[counter++];
+            return group[group_pos++];
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+        read_sample = [this](char const** buf) {
+            uint8_t byte = read_u8(buf);
+            int exp = byte >> 4 & 0b111;
+            // one's complement fraction
+            int frac = byte & 0b10000000 ? -(~byte & 0xf) : byte & 0xf;
+            return frac / pow(2, 4) * pow(4, exp);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            uint16_t word = read_u16(buf);
+            int exp = word >> 12 & 0b111;
+            // one's complement fraction
+            int frac = word & 0x8000 ? -(~word & 0xfff) : word & 0xfff;
+            return frac / pow(2, 12) * pow(4, exp);
         };
         break;
     case 8036:
@@ -964,28 +975,26 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint8_t byte = read_u8(buf);
+            int sign = byte & 0b10000000 ? -1 : 1;
+            int exp = byte >> 5 & 0b11;
+            return sign * (byte & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t word = read_u16(buf);
+            int sign = word & 0x8000 ? -1 : 1;
+            int exp = word >> 13 & 0b11;
+            return sign * (word & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
         read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
+            return dbl_from_ibm_float(buf);
         };
         break;
     case 8058:
@@ -1364,8 +1373,13 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    uint64_t samp_size = common.general_header.format_code == 8015 ?
+        (static_cast<uint64_t>(samp_num) + SAMPLES_IN_GROUP - 1) /
+        SAMPLES_IN_GROUP * GROUP_SIZE :
+        static_cast<uint64_t>(samp_num) * common.bits_per_sample / 8;
+    if (common.trc_samp_buf.size() != samp_size)
+        common.trc_samp_buf.resize(samp_size);
+    group_pos = 0;
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
-- 
2.43.0


From cf1eddc9fb1743c7866267a00cc5f26c46dc109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:23 +0000
Subject: [PATCH 21/60] fix: SEG-D format 9036 was decoded with mixed byte
 order and no sign

---
 src/ISEGD.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 84a70fb..01e8292 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1022,9 +1022,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= read<uint8_t>(buf) << 16;
+                return static_cast<int32_t>
+                    (result & 0x800000 ? result | 0xff000000 : result);
             };
         break;
     case 9038:
-- 
2.43.0


From 8b43773784dc13d52564fe1a087ea3c97c45222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:30 +0000
Subject: [PATCH 22/60] fix: extended number of SEG-D channel sets was never
 used

---
 src/ISEGD.cpp       | 2 +-
 src/OSEGD.cpp       | 5 ++++-
 src/OSEGDRev2_1.cpp | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 01e8292..949c89c 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -174,7 +174,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type ==	165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..4e16926 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -217,7 +217,10 @@ void OSEGD::Impl::write_general_header1()
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type,
+			   false, 2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..d73f4dc 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type == 165 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
-- 
2.43.0


From d6b2e9b4b59a17a215b52df08cd06d7f5d5419c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:38 +0000
Subject: [PATCH 23/60] fix: SEG-D records after the first one were misread

---
 src/ISEGD.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 949c89c..2d45a96 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -39,6 +39,7 @@ public:
         (unordered_map<string, Trace::Header::Value>& hdr);
     vector<double> read_trace_samples(unordered_map<string,
 									  Trace::Header::Value>& hdr);
+    void read_record_headers();
     void read_headers_before_traces();
     void read_trailer();
     CommonSEGD common;
@@ -131,7 +132,7 @@ private:
 
 bool ISEGD::has_record()
 {
-    return pimpl->curr_pos != pimpl->end_of_data;
+    return pimpl->curr_pos < pimpl->end_of_data;
 }
 
 bool ISEGD::has_trace()
@@ -147,10 +148,11 @@ Trace ISEGD::read_trace()
     vector<double> samples = pimpl->read_trace_samples(hdr);
     ++pimpl->chans_read;
     if (pimpl->chans_in_record == pimpl->chans_read) {
+        pimpl->read_trailer();
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
         if (has_record())
-            pimpl->read_headers_before_traces();
+            pimpl->read_record_headers();
     }
     return Trace(move(hdr), move(samples));
 }
@@ -165,7 +167,20 @@ ISEGD::Impl::Impl(CommonSEGD com)
     common.file.seekg(0, ios_base::beg);
     curr_pos = common.file.tellg();
     assign_raw_readers();
+    read_record_headers();
+}
+
+void ISEGD::Impl::read_record_headers()
+{
     read_headers_before_traces();
+    // there is nothing to read in records without channels
+    while (!chans_in_record) {
+        read_trailer();
+        if (curr_pos >= end_of_data)
+            break;
+        common.channel_sets.clear();
+        read_headers_before_traces();
+    }
 }
 
 void ISEGD::Impl::read_headers_before_traces()
@@ -289,6 +304,9 @@ void ISEGD::Impl::read_general_headers()
 {
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
+    // forget headers of previous record
+    common.general_header2 = {};
+    common.add_gen_hdr_blks_map.clear();
     read_gen_hdr1(buf);
     if (common.general_header.add_gen_hdr_blocks) {
         fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
@@ -1406,7 +1424,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From 45f52129dadbdca2505bb998cc5b335d740b299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:43 +0000
Subject: [PATCH 24/60] fix: SEG-D trace header extension maps were not checked

---
 src/CommonSEGD.cpp | 49 ++++++++++++++++++++++++++
 src/ISEGD.cpp      | 88 +++-------------------------------------------
 2 files changed, 53 insertions(+), 84 deletions(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..34bb3dd 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -18,6 +18,54 @@ using std::unique_ptr;
 using std::vector;
 
 namespace sedaman {
+static void check_trc_hdr_ext(vector<map<uint32_t, pair<string,
+    Trace::Header::ValueType>>> const& trc_hdr_ext)
+{
+    for (auto& hdr_map : trc_hdr_ext) {
+        // first byte after previous field
+        uint32_t end = 0;
+        for (auto& i : hdr_map) {
+            uint32_t size;
+            switch (i.second.second) {
+            case Trace::Header::ValueType::int8_t:
+            case Trace::Header::ValueType::uint8_t:
+                size = 1;
+                break;
+            case Trace::Header::ValueType::int16_t:
+            case Trace::Header::ValueType::uint16_t:
+                size = 2;
+                break;
+            case Trace::Header::ValueType::int24_t:
+            case Trace::Header::ValueType::uint24_t:
+                size = 3;
+                break;
+            case Trace::Header::ValueType::int32_t:
+            case Trace::Header::ValueType::uint32_t:
+            case Trace::Header::ValueType::ibm:
+            case Trace::Header::ValueType::ieee_single:
+                size = 4;
+                break;
+            case Trace::Header::ValueType::int64_t:
+            case Trace::Header::ValueType::uint64_t:
+            case Trace::Header::ValueType::ieee_double:
+                size = 8;
+                break;
+            default:
+                throw Exception(__FILE__, __LINE__,
+                    "impossible, unexpected type in TrHdrValueType");
+            }
+            if (i.first < end)
+                throw Exception(__FILE__, __LINE__,
+                    "overlapping type/offset in trace headers extension map: "
+                    + std::to_string(i.first));
+            if (i.first > CommonSEGD::TRACE_HEADER_EXT_SIZE - size)
+                throw Exception(__FILE__, __LINE__,
+                    "trace header extension map is out of buffer bound");
+            end = i.first + size;
+        }
+    }
+}
+
 CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     GeneralHeader gh, GeneralHeader2 gh2, GeneralHeader3 gh3,
     vector<shared_ptr<AdditionalGeneralHeader>> add_ghs,
@@ -37,6 +85,7 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     , channel_sets { ch_sets }
     , trace_header_extension { trc_hdr_ext }
 {
+    check_trc_hdr_ext(trace_header_extension);
     fstream fl;
     fl.exceptions(fstream::failbit | fstream::badbit);
     fl.open(file_name, mode);
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 2d45a96..29db53b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -53,7 +53,6 @@ private:
     CommonSEGD::ChannelSetHeader read_ch_set_hdr();
     void fill_buf_from_file(char* buf, streamsize n);
     void file_skip_bytes(streamoff off);
-    void check_trc_hdr_ext();
     // samples of format 8015 are stored in groups of four
     static constexpr int SAMPLES_IN_GROUP = 4;
     static constexpr int GROUP_SIZE = 10;
@@ -1181,88 +1180,6 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         filter_phase, physical_unit, filter_delay, description);
 }
 
-void ISEGD::Impl::check_trc_hdr_ext()
-{
-    if (common.trace_header_extension.size()) {
-        // for now all channel sets should have the same trace header extension
-        // number
-        for (auto& scan_type : common.channel_sets)
-            for (auto& ch_set : scan_type)
-                if (ch_set.trc_hdr_ext &&
-                ch_set.trc_hdr_ext != common.trace_header_extension.size())
-                    throw Exception(__FILE__, __LINE__,
-                        "Number of trace header extension in channel set " +
-                        to_string(ch_set.channel_set_number) +
-                        " not equal to number of maps in provided vector");
-        int first = 1, size = 0;
-        uint32_t prev;
-        for (auto& hdr_map : common.trace_header_extension) {
-            for (auto& i : hdr_map) {
-                if (first) {
-                    prev = i.first;
-                    first = 0;
-                } else {
-                    switch (i.second.second) {
-                    case Trace::Header::ValueType::int8_t:
-                        size = 1;
-                        break;
-                    case Trace::Header::ValueType::uint8_t:
-                        size = 1;
-                        break;
-                    case Trace::Header::ValueType::int16_t:
-                        size = 2;
-                        break;
-                    case Trace::Header::ValueType::uint16_t:
-                        size = 2;
-                        break;
-                    case Trace::Header::ValueType::int24_t:
-                        size = 3;
-                        break;
-                    case Trace::Header::ValueType::uint24_t:
-                        size = 3;
-                        break;
-                    case Trace::Header::ValueType::int32_t:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::uint32_t:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::int64_t:
-                        size = 8;
-                        break;
-                    case Trace::Header::ValueType::uint64_t:
-                        size = 8;
-                        break;
-                    case Trace::Header::ValueType::ibm:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::ieee_single:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::ieee_double:
-                        size = 8;
-                        break;
-                    default:
-                        throw Exception(__FILE__, __LINE__,
-                            "impossible, unexpected type in "
-                            "TrHdrValueType");
-                    }
-                    if (i.first - prev < static_cast<uint32_t>(size))
-                        throw Exception(__FILE__, __LINE__,
-                            string("overlapping type/offset in "
-                                   "trace headers extension map: ")
-                                + to_string(i.first));
-                    if (i.first + size > CommonSEGD::TRACE_HEADER_EXT_SIZE)
-                        throw Exception(__FILE__, __LINE__,
-                            string("trace header extension map will write over "
-                            "buffer bound"));
-                    prev = i.first;
-                }
-            }
-        }
-    }
-}
-
 unordered_map<string, Trace::Header::Value> ISEGD::Impl::read_trace_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
@@ -1298,6 +1215,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // there are no names for blocks beyond the map
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
@@ -1329,7 +1249,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From c0657c31de8450f92852274c2b538f073e4e73b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:49 +0000
Subject: [PATCH 25/60] fix: extended SEG-D trace number was ignored

---
 src/ISEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 29db53b..c5096f7 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1288,8 +1288,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                // all half bytes of trace number are set
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From 55bc1b10377a4b589f7583301860beba8ae2b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:55 +0000
Subject: [PATCH 26/60] fix: second general header of SEG-D revision 3 was
 decoded at wrong offsets

---
 src/ISEGD.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c5096f7..58868bf 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -328,7 +328,8 @@ void ISEGD::Impl::read_general_headers()
             uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==
 			   	0xf ? gh2.ext_num_add_blks_in_gen_hdr :
 			   	common.general_header.add_gen_hdr_blocks;
-            for (uint16_t i = add_blks_num - 2; i; --i) {
+            // second and third general headers are read already
+            for (int i = 2; i < add_blks_num; ++i) {
                 fill_buf_from_file(common.gen_hdr_buf,
 								   CommonSEGD::GEN_HDR_SIZE);
                 read_rev3_add_gen_hdr_blks(common.gen_hdr_buf);
@@ -408,9 +409,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From 51f3fbe4e99854427e83f944c5b56dd099e5e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:02 +0000
Subject: [PATCH 27/60] fix: offsets and signs in SEG-D revision 3 source
 headers were lost

---
 src/ISEGD.cpp | 72 +++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 58868bf..9478e52 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -592,9 +592,9 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderVib ghV;
     ghV.expanded_file_number = read_u24(&buf);
-    ghV.sou_line_num = read_u24(&buf);
+    ghV.sou_line_num = read_i24(&buf);
     ghV.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghV.sou_point_num = read_u24(&buf);
+    ghV.sou_point_num = read_i24(&buf);
     ghV.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghV.sou_point_index = read_u8(&buf);
     ghV.phase_control = read_u8(&buf);
@@ -605,10 +605,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -618,9 +618,9 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderExp ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.depth = read_u16(&buf);
@@ -631,10 +631,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -644,9 +644,9 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderAir ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -656,10 +656,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -669,9 +669,9 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderWat ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -681,10 +681,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -694,9 +694,9 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderEle ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.source_type = read_u8(&buf);
@@ -706,10 +706,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -719,9 +719,9 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderOth ghO;
     ghO.expanded_file_number = read_u24(&buf);
-    ghO.sou_line_num = read_u24(&buf);
+    ghO.sou_line_num = read_i24(&buf);
     ghO.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghO.sou_point_num = read_u24(&buf);
+    ghO.sou_point_num = read_i24(&buf);
     ghO.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghO.sou_point_index = read_u8(&buf);
     buf += 4;
@@ -730,10 +730,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From 4d3f0ba2d7bc0f934926efe82772d9467510d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 28/60] fix: SEG-D sensor serial number was read beyond the
 header block

---
 include/CommonSEGD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..439618c 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
-- 
2.43.0


From a5844d881c528de7c2a1d7a29245cb9a56bb4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 29/60] fix: SEG-D channel set filter delay was cut to one byte

---
 src/CommonSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 34bb3dd..c22f81b 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -320,7 +320,8 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay)
+	   							: nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From e2344c966e34f1a087d143793b74de02d780327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:23 +0000
Subject: [PATCH 30/60] fix: SEG-D extended header flag above 7 got extra bits

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 9478e52..6f07b16 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1134,7 +1134,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = *buf >> 4 & 0x0f;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1152,7 +1152,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = *buf >> 4 & 0x0f;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 1872164efefecb43e91a4f8773f8d7475893c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:30 +0000
Subject: [PATCH 31/60] fix: revision 3 fields were reported for earlier SEG-D
 channel sets

---
 src/ISEGD.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 6f07b16..aebedaa 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1140,6 +1140,14 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         vert_stack = read_u8(&buf);
         streamer_no = read_u8(&buf);
         array_forming = read_u8(&buf);
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     } else {
         scan_type_number = from_bcd<int>(&buf, false, 2);
         channel_set_number = read_u16(&buf);
-- 
2.43.0


From d25524b6b1608275fbcc47e9019b14f556382cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:37 +0000
Subject: [PATCH 32/60] fix: corrupt SEG-D headers made the reader leave its
 buffers

---
 src/ISEGD.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index aebedaa..06cd6d5 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -214,15 +214,15 @@ void ISEGD::Impl::read_headers_before_traces()
 	uint32_t external_blocks = common.general_header.external_hdr_blocks == 165
 		? common.general_header2.external_hdr_blocks :
 		common.general_header.external_hdr_blocks;
-    common.extended_headers.resize(extended_blocks);
+    common.extended_headers.clear();
     for (uint32_t i = 0; i < extended_blocks; ++i) {
-        common.extended_headers[i].resize(CommonSEGD::EXTENDED_HEADER_SIZE);
+        common.extended_headers.emplace_back(CommonSEGD::EXTENDED_HEADER_SIZE);
         fill_buf_from_file(common.extended_headers[i].data(),
             CommonSEGD::EXTENDED_HEADER_SIZE);
     }
-	common.external_headers.resize(external_blocks);
+	common.external_headers.clear();
     for (uint32_t i = 0; i < external_blocks; ++i) {
-        common.external_headers[i].resize(CommonSEGD::EXTERNAL_HEADER_SIZE);
+        common.external_headers.emplace_back(CommonSEGD::EXTERNAL_HEADER_SIZE);
         fill_buf_from_file(common.external_headers[i].data(),
             CommonSEGD::EXTERNAL_HEADER_SIZE);
     }
@@ -1314,9 +1314,14 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     uint32_t samp_num;
+    uint64_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1;
+    uint64_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        ch_set >= common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+                        "Trace belongs to unknown channel set");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+	   	common.channel_sets[scan_type][ch_set];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
@@ -1327,6 +1332,9 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         (static_cast<uint64_t>(samp_num) + SAMPLES_IN_GROUP - 1) /
         SAMPLES_IN_GROUP * GROUP_SIZE :
         static_cast<uint64_t>(samp_num) * common.bits_per_sample / 8;
+    if (samp_size > static_cast<uint64_t>(end_of_data - curr_pos))
+        throw Exception(__FILE__, __LINE__,
+                        "Number of samples exceeds the file size");
     if (common.trc_samp_buf.size() != samp_size)
         common.trc_samp_buf.resize(samp_size);
     group_pos = 0;
-- 
2.43.0


From 41082409c1d637ceeba13c999441791d7e89b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:50 +0000
Subject: [PATCH 33/60] fix: number of channels of a SEG-D record was not
 initialized in the writer

---
 src/OSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4e16926..69ff925 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -38,7 +38,8 @@ public:
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
-        : common { move(com) }
+        : chans_in_record { 0 }
+        , common { move(com) }
     {
     }
     CommonSEGD common;
-- 
2.43.0


From 91ddeecce1dfcf2cf1b9b3ae1559fdc34c499ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:55 +0000
Subject: [PATCH 34/60] fix: SEG-D trace header extensions overran the trace
 header buffer

---
 src/OSEGD.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 69ff925..0f2b3f5 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -926,15 +926,15 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
-        if (common.trace_header_extension.size()) {
+        if (static_cast<size_t>(i) < common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, get<int64_t>(*tmp));
@@ -977,8 +977,8 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     break;
                 }
             }
-        } else if (i == 0) {
-            char* buf = common.trc_hdr_buf;
+        } else if (i == 0 && common.trace_header_extension.empty()) {
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1055,7 +1055,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
+        common.file.write(common.trc_ext_hdr_buf,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
-- 
2.43.0


From 20e51b7ac41cbb600deb76f67d07578d735c3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:00 +0000
Subject: [PATCH 35/60] fix: integer values of real SEG-D trace headers were
 refused

---
 src/OSEGD.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 0f2b3f5..ac5d465 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -885,6 +885,12 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 					  common.ch_set_hdr_buf.size());
 }
 
+static double to_double(Trace::Header::Value const& val)
+{
+    return holds_alternative<double>(val) ? get<double>(val) :
+        get<int64_t>(val);
+}
+
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
 {
     char* buf = common.trc_hdr_buf;
@@ -907,15 +913,15 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 4);
     tmp = hdr.get("FIRST_TIMING_WORD");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
+    write_u24(&buf, tmp ? to_double(*tmp) * pow(2, 8) : 0);
     tmp = hdr.get("TR_HDR_EXT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    *buf++ = tmp ? to_double(*tmp) * pow(2, 8) : 0;
     tmp = hdr.get("TRACE_EDIT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
+    write_u24(&buf, tmp ? to_double(*tmp) * pow(2, 8) : 0);
     write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
     write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
@@ -967,13 +973,13 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     write_u64(&pos, get<int64_t>(*tmp));
                     break;
                 case Trace::Header::ValueType::ibm:
-                    write_ibm_float(&pos, get<double>(*tmp));
+                    write_ibm_float(&pos, to_double(*tmp));
                     break;
                 case Trace::Header::ValueType::ieee_single:
-                    write_IEEE_float(&pos, get<double>(*tmp));
+                    write_IEEE_float(&pos, to_double(*tmp));
                     break;
                 case Trace::Header::ValueType::ieee_double:
-                    write_IEEE_double(&pos, get<double>(*tmp));
+                    write_IEEE_double(&pos, to_double(*tmp));
                     break;
                 }
             }
-- 
2.43.0


From b481d938a7725275567a2736f10789a9a81caaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:05 +0000
Subject: [PATCH 36/60] fix: SEG-D traces without channel set number broke the
 writer

---
 src/OSEGD.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index ac5d465..7407102 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -901,12 +901,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 1, false, 2);
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? get<int64_t>(*tmp) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (tmp && get<int64_t>(*tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -922,7 +923,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, tmp ? to_double(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
-- 
2.43.0


From 383e96860d8f26a05b4736c165fb75f275572909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:10 +0000
Subject: [PATCH 37/60] fix: SEG-D scans per block were cut to a power of two

---
 src/OSEGD.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 7407102..32e32f6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -203,10 +203,12 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
     *ptr++ = common.general_header.base_scan_int * pow(2, 4);
     to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
+    long scans = common.general_header.scans_per_block;
+    int exp = 0;
+    for (; scans && scans % 2 == 0 && exp < 0x0f; scans /= 2)
+        ++exp;
     *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    *ptr++ = scans;
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
-- 
2.43.0


From c328ace08ae510c6498b2d6b17df0c79f9a31fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:14 +0000
Subject: [PATCH 38/60] fix: negative SEG-D descale multiplier was written
 wrong

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 32e32f6..a8d65bb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -832,7 +832,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-- 
2.43.0


From f785f6404554d6711a2ee52d9c54ebf058e7c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:19 +0000
Subject: [PATCH 39/60] fix: SEG-D samples were encoded wrong

---
 src/OSEGD.cpp | 163 ++++++++++++++++++++++++++++----------------------
 1 file changed, 92 insertions(+), 71 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index a8d65bb..956b245 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -45,6 +45,11 @@ public:
     CommonSEGD common;
 
 private:
+    // samples of format 8015 are stored in groups of four
+    static constexpr int SAMPLES_IN_GROUP = 4;
+    static constexpr int GROUP_SIZE = 10;
+    double group[SAMPLES_IN_GROUP];
+    int group_pos;
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, uint8_t)> write_i8;
@@ -175,11 +180,25 @@ void OSEGD::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        int exp2;
+        frexp(abs_val, &exp2);
+        // the least power of 16 greater then the value
+        int exp16 = std::max((exp2 + 3) >> 2, -64);
+        double rounded = round(ldexp(abs_val, 24 - 4 * exp16));
+        if (rounded > 0x00ffffff) {
+            ++exp16;
+            rounded = 0x00100000;
+        }
+        uint32_t exp = 0, fraction = 0;
+        if (exp16 > 63) {
+            // the greatest possible value
+            exp = 0x7f;
+            fraction = 0x00ffffff;
+        } else if (rounded > 0) {
+            exp = exp16 + 64;
+            fraction = rounded;
+        }
+        uint32_t result = sign << 31 | exp << 24 | fraction;
         write_u32(buf, result);
     };
 }
@@ -1071,10 +1090,12 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
-    if (common.trc_samp_buf.size() != trc.samples().size() *
-	   	common.bits_per_sample / 8)
-        common.trc_samp_buf.resize(trc.samples().size() *
-								   common.bits_per_sample / 8);
+    size_t samp_size = common.general_header.format_code == 8015 ?
+        (trc.samples().size() + SAMPLES_IN_GROUP - 1) / SAMPLES_IN_GROUP *
+        GROUP_SIZE : trc.samples().size() * common.bits_per_sample / 8;
+    if (common.trc_samp_buf.size() != samp_size)
+        common.trc_samp_buf.resize(samp_size);
+    group_pos = 0;
     char* buf = common.trc_samp_buf.data();
     vector<double> const& samples = trc.samples();
     uint16_t scan_type;
@@ -1094,103 +1115,102 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     descale = pow(2, descale);
     for (auto samp : samples)
         write_sample(&buf, samp / descale);
+    // the last group is filled up with zeros
+    while (group_pos)
+        write_sample(&buf, 0);
     common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
 }
 
+// fraction of given number of bits with the smallest exponent possible, the
+// closest value to val >= 0
+static uint32_t to_fraction(double val, int base, int max_exp, int bits,
+                            int* exp)
+{
+    double max_frac = pow(2, bits) - 1;
+    double frac = 0;
+    for (*exp = 0; *exp <= max_exp; ++*exp) {
+        frac = round(val / pow(base, *exp) * pow(2, bits));
+        if (frac <= max_frac)
+            return frac;
+    }
+    *exp = max_exp;
+    return max_frac;
+}
+
 void OSEGD::Impl::assign_sample_writers()
 {
     switch (common.general_header.format_code) {
     case 8015:
         common.bits_per_sample = 20;
         write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
-            result[counter++] = val;
-            if (counter == 4) {
-                counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
-                for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
-                }
-                for (int i = 0; i < 4; i += 2) {
-                    **buf = exp[i] << 4 | exp[i + 1];
-                    ++*buf;
+            group[group_pos++] = val;
+            if (group_pos == SAMPLES_IN_GROUP) {
+                group_pos = 0;
+                int exp[SAMPLES_IN_GROUP];
+                uint16_t frac[SAMPLES_IN_GROUP];
+                for (int i = 0; i < SAMPLES_IN_GROUP; ++i) {
+                    frac[i] = to_fraction(abs(group[i]), 2, 15, 14, &exp[i])
+                        << 1;
+                    if (group[i] < 0 && frac[i])
+                        frac[i] = ~frac[i] & 0xfffe;
                 }
-                for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                for (int i = 0; i < SAMPLES_IN_GROUP; i += 2)
+                    write_u8(buf, exp[i] << 4 | exp[i + 1]);
+                for (int i = 0; i < SAMPLES_IN_GROUP; ++i)
+                    write_u16(buf, frac[i]);
             }
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+        write_sample = [this](char** buf, double val) {
+            int exp;
+            uint32_t frac = to_fraction(abs(val), 4, 7, 4, &exp);
+            // one's complement fraction, there is no negative zero
+            write_u8(buf, val < 0 && frac ?
+                     0x80 | exp << 4 | (~frac & 0xf) : exp << 4 | frac);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 12)) & 0xfff;
-            write_u16(buf, sign << 15 | exp << 12 | frac);
+            int exp;
+            uint32_t frac = to_fraction(abs(val), 4, 7, 12, &exp);
+            // one's complement fraction, there is no negative zero
+            write_u16(buf, val < 0 && frac ?
+                      0x8000 | exp << 12 | (~frac & 0xfff) : exp << 12 | frac);
         };
         break;
     case 8036:
         common.bits_per_sample = 24;
-        write_sample = [this](char** buf, double val) { write_i24(buf, val); };
+        write_sample = [this](char** buf, double val)
+	   	{ write_i24(buf, lround(val)); };
         break;
     case 8038:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) { write_i32(buf, val); };
+        write_sample = [this](char** buf, double val)
+	   	{ write_i32(buf, lround(val)); };
         break;
     case 8042:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+        write_sample = [this](char** buf, double val) {
+            int exp;
+            uint32_t frac = to_fraction(abs(val), 16, 3, 5, &exp);
+            write_u8(buf, (val < 0 && frac ? 0x80 : 0) | exp << 5 | frac);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 13)) & 0x1fff;
-            write_u16(buf, sign << 15 | exp << 13 | frac);
+            int exp;
+            uint32_t frac = to_fraction(abs(val), 16, 3, 13, &exp);
+            write_u16(buf, (val < 0 && frac ? 0x8000 : 0) | exp << 13 | frac);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
+            write_ibm_float(buf, val);
         };
         break;
     case 8058:
@@ -1214,21 +1234,22 @@ void OSEGD::Impl::assign_sample_writers()
         common.bits_per_sample = 24;
         if (endian::native == endian::big)
             write_sample = [this](char** buf, double val)
-		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
+		   	{ return write_i24(buf, swap(static_cast<int32_t>(lround(val)))); };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t tmp = lround(val);
+                write<int16_t>(buf, tmp);
+                write<int8_t>(buf, tmp >> 16);
             };
         break;
     case 9038:
         common.bits_per_sample = 32;
         if (endian::native == endian::big)
             write_sample = [this](char** buf, double val)
-		   	{ return write_i32(buf, swap(static_cast<int32_t>(val))); };
+		   	{ return write_i32(buf, swap(static_cast<int32_t>(lround(val)))); };
         else
             write_sample = [](char** buf, double val)
-		   	{ return write<int32_t>(buf, val); };
+		   	{ return write<int32_t>(buf, lround(val)); };
         break;
     case 9058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 33046cab2cba557d797bca4bc9bf3ff21d56f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:22 +0000
Subject: [PATCH 40/60] fix: negative SEG-D source line and point numbers were
 written wrong

---
 src/OSEGD.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 956b245..049527e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -283,12 +283,16 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         memset(buf, 0, CommonSEGD::GEN_HDR_SIZE);
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
+        if (!hdr)
+            throw Exception(__FILE__, __LINE__,
+                            "General header block of another revision");
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        // fraction is always positive
+        int32_t integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-- 
2.43.0


From 91877c05b77ddb82fb4eed0c0fbce6346d444530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:27 +0000
Subject: [PATCH 41/60] fix: sixteenth SEG-D general header dereferenced a null
 pointer

---
 src/CommonSEGD.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index c22f81b..e3bb73f 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -91,6 +91,12 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        // block number of GeneralHeaderN could be equal to type of other block
+        if (GeneralHeaderN* ghn = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[item->type()] =
+                make_unique<GeneralHeaderN>(*ghn);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
@@ -220,11 +226,9 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
 			   	make_unique<GeneralHeaderMeas>(
 					*dynamic_cast<GeneralHeaderMeas*>(item.get()));
             break;
-        // for GeneralHeaderN from rev 2
         default:
-            add_gen_hdr_blks_map[item->type()] = make_unique<GeneralHeaderN>(
-                *dynamic_cast<GeneralHeaderN*>(item.get()));
-            break;
+            throw Exception(__FILE__, __LINE__,
+                            "Unknown type of additional general header");
         }
     }
 }
-- 
2.43.0


From ffc03944fc6f8a185da220e5e766a5b0fa9431a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:28 +0000
Subject: [PATCH 42/60] fix: SEG-D writer accepted headers that contradict its
 counts

---
 src/OSEGDRev2_1.cpp | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index d73f4dc..07f29b0 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -21,10 +21,39 @@ private:
     OSEGDRev2_1& sgd;
 };
 
+static void check_blocks(vector<vector<char>> const& blocks, size_t num,
+                         size_t size)
+{
+    if (blocks.size() != num)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of header blocks not equal to number of "
+                        "blocks in general header.");
+    for (vector<char> const& block : blocks)
+        if (block.size() != size)
+            throw Exception(__FILE__, __LINE__,
+                            "Wrong size of header block.");
+}
+
 OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    CommonSEGD& com = sgd.common();
+    if (static_cast<size_t>(com.general_header.add_gen_hdr_blocks) !=
+        com.add_gen_hdr_blks_map.size() + 1)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of additional general headers not equal to "
+                        "number of blocks in general header.");
+    uint32_t extended_blocks = com.general_header.extended_hdr_blocks > 99 ?
+        com.general_header2.extended_hdr_blocks :
+        com.general_header.extended_hdr_blocks;
+    uint32_t external_blocks = com.general_header.external_hdr_blocks > 99 ?
+        com.general_header2.external_hdr_blocks :
+        com.general_header.external_hdr_blocks;
+    check_blocks(com.extended_headers, extended_blocks,
+                 CommonSEGD::EXTENDED_HEADER_SIZE);
+    check_blocks(com.external_headers, external_blocks,
+                 CommonSEGD::EXTERNAL_HEADER_SIZE);
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
@@ -34,7 +63,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 165 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type > 99 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
@@ -51,14 +80,6 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
                 sgd.common().file.write(buf, CommonSEGD::SKEW_BLOCK_SIZE);
         }
     }
-    uint32_t extended_blocks =
-	   	sgd.common().general_header.extended_hdr_blocks == 165 ?
-	   	sgd.common().general_header2.extended_hdr_blocks :
-	   	sgd.common().general_header.extended_hdr_blocks;
-    uint32_t external_blocks =
-	   	sgd.common().general_header.external_hdr_blocks == 165 ?
-	   	sgd.common().general_header2.external_hdr_blocks :
-	   	sgd.common().general_header.external_hdr_blocks;
     for (uint32_t i = 0; i < extended_blocks; ++i)
         sgd.common().file.write(sgd.common().extended_headers[i].data(),
         CommonSEGD::EXTENDED_HEADER_SIZE);
-- 
2.43.0


From 42ad8a171894ed80d490b9c8116e5dd23473766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 43/60] fix: SEG-D writer ignored mismatch of sample count and
 samples

---
 src/OSEGD.cpp       |  2 +-
 src/OSEGDRev2_1.cpp | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 049527e..47e9340 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1035,7 +1035,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = tmp ? get<int64_t>(*tmp) : 0;
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
             } else {
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 07f29b0..c489d98 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -95,8 +95,27 @@ void OSEGDRev2_1::write_trace(Trace& t)
 		throw Exception(__FILE__, __LINE__,
 						"you tring write more traces than specified "
 						"in channel set headers");
+    int64_t samp_num = t.samples().size();
+    std::optional<Trace::Header::Value> tmp = t.header().get("SAMP_NUM");
+    if (tmp && std::get<int64_t>(*tmp) != samp_num)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of samples in trace not equal to number of "
+                        "samples in its header");
+    int64_t scan_type = 1, ch_set = 1;
+    if ((tmp = t.header().get("SCAN_TYPE_NUM")))
+        scan_type = std::get<int64_t>(*tmp);
+    if ((tmp = t.header().get("CH_SET_NUM")))
+        ch_set = std::get<int64_t>(*tmp);
+    vector<vector<CommonSEGD::ChannelSetHeader>>& sets = common().channel_sets;
+    if (scan_type < 1 || static_cast<size_t>(scan_type) > sets.size() ||
+        ch_set < 1 ||
+        static_cast<size_t>(ch_set) > sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+                        "Trace belongs to unknown channel set");
     write_trace_header(t.header());
-    write_ext_trace_headers(t.header());
+    Trace::Header ext_hdr = t.header();
+    ext_hdr.set("SAMP_NUM", samp_num);
+    write_ext_trace_headers(ext_hdr);
     write_trace_samples(t);
     ++pimpl->chans_written;
 }
-- 
2.43.0


From a99b3c025f3b924bf5ed3d1607e633aa18e04bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:30 +0000
Subject: [PATCH 44/60] fix: SEG-D channel set numbers above 99 were written
 wrong

The two digits hold 0xff then and the number follows in its extended form.
---
 src/OSEGD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 47e9340..d666815 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -851,7 +851,9 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        to_bcd(&buf, hdr.channel_set_number, false, 2);
+        hdr.channel_set_number > 99 ?
+            (void)(*buf++ = static_cast<uint8_t>(0xff)) :
+            to_bcd(&buf, hdr.channel_set_number, false, 2);
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-- 
2.43.0


From dada78bc1012ff9538bc6fef08a5844d1b1edb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:32 +0000
Subject: [PATCH 45/60] fix: SEG-D writer lost the number of samples without
 trace header extension

Without an extension the reader takes the number of samples from the channel set header.
---
 src/OSEGDRev2_1.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index c489d98..ec2341d 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -16,6 +16,8 @@ class OSEGDRev2_1::Impl {
 public:
     Impl(OSEGDRev2_1& s);
     uint64_t chans_written;
+    // is number of samples stored in trace header extensions
+    bool samp_num_stored(Trace::Header const& hdr);
 
 private:
     OSEGDRev2_1& sgd;
@@ -89,6 +91,20 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     }
 }
 
+bool OSEGDRev2_1::Impl::samp_num_stored(Trace::Header const& hdr)
+{
+    std::optional<Trace::Header::Value> tmp = hdr.get("TR_HDR_EXT");
+    size_t blocks = tmp ? std::get<int64_t>(*tmp) : 0;
+    auto& ext_map = sgd.common().trace_header_extension;
+    if (ext_map.empty())
+        return blocks;
+    for (size_t i = 0; i < blocks && i < ext_map.size(); ++i)
+        for (auto& item : ext_map[i])
+            if (item.second.first == "SAMP_NUM")
+                return true;
+    return false;
+}
+
 void OSEGDRev2_1::write_trace(Trace& t)
 {
 	if (pimpl->chans_written == chans_in_record())
@@ -112,6 +128,11 @@ void OSEGDRev2_1::write_trace(Trace& t)
         static_cast<size_t>(ch_set) > sets[scan_type - 1].size())
         throw Exception(__FILE__, __LINE__,
                         "Trace belongs to unknown channel set");
+    if (!pimpl->samp_num_stored(t.header()) &&
+        sets[scan_type - 1][ch_set - 1].subscans_per_ch_set != samp_num)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of samples in trace not equal to number of "
+                        "samples in channel set header");
     write_trace_header(t.header());
     Trace::Header ext_hdr = t.header();
     ext_hdr.set("SAMP_NUM", samp_num);
-- 
2.43.0


From 7d5a53aa5ffc6df525f0935f93bce8446b4eae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:39 +0000
Subject: [PATCH 46/60] fix: SEG-D general headers were taken for revision 3
 blocks

Asking a revision 1 or 2 record for a revision 3 block dereferenced a null pointer when the number of a general header was equal to the type of the block.
---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 06cd6d5..3f99a7a 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -395,8 +395,8 @@ void ISEGD::Impl::read_rev2_add_gen_hdr_blks(char const* buf)
     ghN.phase_angle = read_i16(&buf);
     ghN.gen_hdr_block_num = read_u8(&buf);
     ghN.sou_set_num = read_u8(&buf);
-    common.add_gen_hdr_blks_map[static_cast<CommonSEGD::
-		AdditionalGeneralHeader::ADD_GEN_HDR_BLKS>(ghN.gen_hdr_block_num)] =
+    // block numbers should not be taken for types of revision 3 blocks
+    common.add_gen_hdr_blks_map[0x100 + ghN.gen_hdr_block_num] =
 	   	make_unique<CommonSEGD::GeneralHeaderN>(ghN);
 }
 
-- 
2.43.0


From dbd5fea5027ae11f3bfbf7c0a76b91fcc1eaec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:21 +0000
Subject: [PATCH 47/60] fix: names of orientation header fields were shifted
 and read beyond their array

---
 include/CommonSEGD.hpp | 3 +--
 src/CommonSEGD.cpp     | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 439618c..4259371 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1362,8 +1362,7 @@ public:
             ORIENT_TYPE,
             REF_ORIENT_VALID,
             ROTATION_APPLIED,
-            ROT_NORTH,
-            APPLIED,
+            ROT_NORTH_APPLIED,
             GEN_HEADER_TYPE
         };
         ///
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index e3bb73f..ca66ba2 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -790,6 +790,7 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
     "Rot North Applied",
     "General header type"
 };
-- 
2.43.0


From 6b5dcac69ed792ad2e3c52e00d8e70314a277f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:24 +0000
Subject: [PATCH 48/60] fix: descriptions of some standard SEG-Y trace headers
 were missing or wrong

---
 src/CommonSEGY.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index 2cb73c1..294d19a 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -398,7 +398,7 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "HIGH_CUT_SLOPE", "High-cut slope (dB/octave)." },
     { "YEAR", "Year data recorded." },
     { "DAY", "Day of year." },
-    { "HOUR", "Year data recorded." },
+    { "HOUR", "Hour of day." },
     { "MINUTE", "Minute of hour." },
     { "SECOND", "Second of minute." },
 	{ "TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, "
@@ -421,8 +421,10 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "SP_NUM_SCALAR", "Scalar to be applied to the SP_NUM." },
 	{ "TR_VAL_UNIT", "Trace value measurement unit. 1 = Pa, 2 = V, 3 = mV, "
 		"4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
-	{ "TRANS_CONST", "Transduction Constant. Transforms trace samples to the "
-		"Transduction Units" },
+	{ "TRANS_CONST_MANT", "Transduction Constant. Transforms trace samples to "
+		"the Transduction Units. Mantissa." },
+	{ "TRANS_CONST_EXP", "Transduction Constant. Transforms trace samples to "
+		"the Transduction Units. Power of ten exponent." },
 	{ "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, "
 		"5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the "
@@ -437,13 +439,15 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"source orientation. Cross-line." },
 	{ "SOU_I_DIR", "Source Energy Direction with respect to "
 		"source orientation. In-line." },
-	{ "SOURCE_MEASUREMENT", "Source Measurement. Describes the "
-		"source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_MANT", "Source Measurement. Describes the "
+		"source effort used to generate the trace. Mantissa." },
+	{ "SOURCE_MEASUREMENT_EXP", "Source Measurement. Describes the "
+		"source effort used to generate the trace. Power of ten exponent." },
 	{ "SOU_MEAS_UNIT", "The unit used for the Source Measurement. "
 		"1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
 	{ "R_DEPTH", "Receiver group depth below the surface locacation of "
 		"receiver group." },
-    { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
+    { "NANOSECOND", "Nanoseconds to add to Second of minute." },
 	{ "CABLE_NUM", "Cable number for multi-cable acquisition or "
 		"Recording Device/Sensor ID number." },
 	{ "ADD_TRC_HDR_NUM", "Number of additional trace header extension "
-- 
2.43.0


From f3f51fedd0889697f038117b92a3b2dabadcbe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:52 +0000
Subject: [PATCH 49/60] fix: an error while the trailer was written on
 destruction ended the program

---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index f06aae8..0f123f2 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -190,8 +190,12 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 
 OSEGYRev2::~OSEGYRev2()
 {
-    common().file.seekg(0, ios_base::end);
-    if (!common().trailer_stanzas.empty())
-        write_trailer_stanzas();
+    try {
+        common().file.seekg(0, ios_base::end);
+        if (!common().trailer_stanzas.empty())
+            write_trailer_stanzas();
+    } catch (...) {
+        // errors can not be reported from destructor
+    }
 }
 } // namespace sedaman
-- 
2.43.0


From b97c8b0d1b206f0b10e30ba05b2d8f8feaabb582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:25 +0000
Subject: [PATCH 50/60] fix: a refused SEG-D trace left its header in the file

---
 include/OSEGD.hpp   |  3 ++-
 src/OSEGD.cpp       | 21 +++++++++++++++------
 src/OSEGDRev2_1.cpp |  6 ++++--
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/OSEGD.hpp b/include/OSEGD.hpp
index 4bd7b49..7153f2d 100644
--- a/include/OSEGD.hpp
+++ b/include/OSEGD.hpp
@@ -72,7 +72,8 @@ protected:
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
     void write_trace_header(Trace::Header const& hdr);
-    void write_ext_trace_headers(Trace::Header const& hdr);
+    void prepare_ext_trace_headers(Trace::Header const& hdr);
+    void write_ext_trace_headers();
     void write_trace_samples(Trace const& trc);
     uint64_t chans_in_record();
 
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index d666815..fdb5123 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -35,7 +35,8 @@ public:
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
     void write_trace_header(Trace::Header const& hdr);
-    void write_ext_trace_headers(Trace::Header const& hdr);
+    void prepare_ext_trace_headers(Trace::Header const& hdr);
+    void write_ext_trace_headers();
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
         : chans_in_record { 0 }
@@ -50,6 +51,7 @@ private:
     static constexpr int GROUP_SIZE = 10;
     double group[SAMPLES_IN_GROUP];
     int group_pos;
+    vector<char> trc_ext_hdrs;
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, uint8_t)> write_i8;
@@ -955,8 +957,9 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
 
-void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
+void OSEGD::Impl::prepare_ext_trace_headers(Trace::Header const& hdr)
 {
+    trc_ext_hdrs.clear();
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
@@ -1089,11 +1092,16 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_ext_hdr_buf,
-            CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        trc_ext_hdrs.insert(trc_ext_hdrs.end(), common.trc_ext_hdr_buf,
+            common.trc_ext_hdr_buf + CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
 
+void OSEGD::Impl::write_ext_trace_headers()
+{
+    common.file.write(trc_ext_hdrs.data(), trc_ext_hdrs.size());
+}
+
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
     size_t samp_size = common.general_header.format_code == 8015 ?
@@ -1309,8 +1317,9 @@ void OSEGD::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 { pimpl->write_ch_set_hdr(hdr); }
 void OSEGD::write_trace_header(Trace::Header const& hdr)
 { pimpl->write_trace_header(hdr); }
-void OSEGD::write_ext_trace_headers(Trace::Header const& hdr)
-{ pimpl->write_ext_trace_headers(hdr); }
+void OSEGD::prepare_ext_trace_headers(Trace::Header const& hdr)
+{ pimpl->prepare_ext_trace_headers(hdr); }
+void OSEGD::write_ext_trace_headers() { pimpl->write_ext_trace_headers(); }
 void OSEGD::write_trace_samples(Trace const& trc)
 { pimpl->write_trace_samples(trc); }
 
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index ec2341d..aca5fbe 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -133,10 +133,12 @@ void OSEGDRev2_1::write_trace(Trace& t)
         throw Exception(__FILE__, __LINE__,
                         "Number of samples in trace not equal to number of "
                         "samples in channel set header");
-    write_trace_header(t.header());
+    // nothing should be written if trace is refused
     Trace::Header ext_hdr = t.header();
     ext_hdr.set("SAMP_NUM", samp_num);
-    write_ext_trace_headers(ext_hdr);
+    prepare_ext_trace_headers(ext_hdr);
+    write_trace_header(t.header());
+    write_ext_trace_headers();
     write_trace_samples(t);
     ++pimpl->chans_written;
 }
-- 
2.43.0


From 38b22888ea577619d56d4ec03c23af8e3ac1f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 51/60] fix: Python attributes of two SEG-D header blocks stood
 for other fields

---
 src/pybind/pybind.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 87a3708..279f92e 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -706,9 +706,11 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderEle_py.def_readwrite("reshoot_idx",
                                     &CommonSEGD::GeneralHeaderEle::reshoot_idx);
   GeneralHeaderEle_py.def_readwrite("group_idx",
+                                    &CommonSEGD::GeneralHeaderEle::group_idx);
+  GeneralHeaderEle_py.def_readwrite("depth_idx",
                                     &CommonSEGD::GeneralHeaderEle::depth_idx);
   GeneralHeaderEle_py.def_readwrite(
-      "offset_crossline", &CommonSEGD::GeneralHeaderEle::offset_inline);
+      "offset_crossline", &CommonSEGD::GeneralHeaderEle::offset_crossline);
   GeneralHeaderEle_py.def_readwrite(
       "offset_inline", &CommonSEGD::GeneralHeaderEle::offset_inline);
   GeneralHeaderEle_py.def_readwrite("size",
@@ -955,11 +957,11 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSCa_py.def_readwrite("phase1",
                                     &CommonSEGD::GeneralHeaderSCa::phase1);
   GeneralHeaderSCa_py.def_readwrite("freq2",
-                                    &CommonSEGD::GeneralHeaderSCa::freq1);
+                                    &CommonSEGD::GeneralHeaderSCa::freq2);
   GeneralHeaderSCa_py.def_readwrite("amp2",
-                                    &CommonSEGD::GeneralHeaderSCa::amp1);
+                                    &CommonSEGD::GeneralHeaderSCa::amp2);
   GeneralHeaderSCa_py.def_readwrite("phase2",
-                                    &CommonSEGD::GeneralHeaderSCa::phase1);
+                                    &CommonSEGD::GeneralHeaderSCa::phase2);
   GeneralHeaderSCa_py.def_readwrite(
       "calib_applied", &CommonSEGD::GeneralHeaderSCa::calib_applied);
   GeneralHeaderSCa_py.def_readwrite(
-- 
2.43.0


From 9a75de7b1979b959a833b798a1a91d0f9ff70227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 52/60] fix: Python client name and explosive source returned
 other headers

---
 src/pybind/pybind.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 279f92e..ec37479 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -1139,7 +1139,7 @@ PYBIND11_MODULE(pysedaman, m) {
                "Returns general header vessel crew id.");
   ISEGD_py.def("general_header_survey_name", &ISEGD::general_header_survey_name,
                "Returns general header survey survey name.");
-  ISEGD_py.def("general_header_client_name", &ISEGD::general_header_survey_name,
+  ISEGD_py.def("general_header_client_name", &ISEGD::general_header_client_name,
                "Returns general header client name.");
   ISEGD_py.def("general_header_job_id", &ISEGD::general_header_job_id,
                "Returns general header job id.");
@@ -1149,7 +1149,7 @@ PYBIND11_MODULE(pysedaman, m) {
                &ISEGD::general_header_vibrator_info,
                "Returns general header vibrator source info.");
   ISEGD_py.def("general_header_explosive_info",
-               &ISEGD::general_header_airgun_info,
+               &ISEGD::general_header_explosive_info,
                "Returns general header explosive source info.");
   ISEGD_py.def("general_header_airgun_info", &ISEGD::general_header_airgun_info,
                "Returns general header airgun source info.");
-- 
2.43.0


From 8e6540e393313a916ae01478c16fac6aa94be94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 53/60] fix: Python sensor serial number was read and written
 beyond its 18 characters

---
 src/pybind/pybind.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index ec37479..23748fe 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -937,10 +937,10 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSen_py.def_property(
       "serial_number",
       [](CommonSEGD::GeneralHeaderSen &h) {
-        return string(h.serial_number, 28);
+        return string(h.serial_number, 18);
       },
       [](CommonSEGD::GeneralHeaderSen &h, string &s) {
-        strncpy(h.serial_number, s.c_str(), 28);
+        strncpy(h.serial_number, s.c_str(), 18);
       });
   GeneralHeaderSen_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderSen::gen_hdr_block_type);
-- 
2.43.0


From 9d73b1e271dae92688454bf44787146a42678e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 54/60] fix: SEG-D header fields missing from the Python module

---
 src/pybind/pybind.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 23748fe..b5d2396 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -398,6 +398,8 @@ PYBIND11_MODULE(pysedaman, m) {
                                   &CommonSEGD::GeneralHeaderN::sou_line_num);
   GeneralHeaderN_py.def_readwrite("sou_point_num",
                                   &CommonSEGD::GeneralHeaderN::sou_point_num);
+  GeneralHeaderN_py.def_readwrite(
+      "sou_point_index", &CommonSEGD::GeneralHeaderN::sou_point_index);
   GeneralHeaderN_py.def_readwrite("phase_control",
                                   &CommonSEGD::GeneralHeaderN::phase_control);
   GeneralHeaderN_py.def_readwrite("type_vibrator",
@@ -590,6 +592,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "source_set_num", &CommonSEGD::GeneralHeaderExp::source_set_num);
   GeneralHeaderExp_py.def_readwrite("reshoot_idx",
                                     &CommonSEGD::GeneralHeaderExp::reshoot_idx);
+  GeneralHeaderExp_py.def_readwrite(
+      "group_idx", &CommonSEGD::GeneralHeaderExp::group_idx);
   GeneralHeaderExp_py.def_readwrite("depth_idx",
                                     &CommonSEGD::GeneralHeaderExp::depth_idx);
   GeneralHeaderExp_py.def_readwrite(
@@ -984,6 +988,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "timedrift_corr", &CommonSEGD::GeneralHeaderTim::timedrift_corr);
   GeneralHeaderTim_py.def_readwrite("corr_method",
                                     &CommonSEGD::GeneralHeaderTim::corr_method);
+  GeneralHeaderTim_py.def_readwrite(
+      "gen_hdr_block_type", &CommonSEGD::GeneralHeaderTim::gen_hdr_block_type);
   py::enum_<CommonSEGD::GeneralHeaderTim::Name>(GeneralHeaderTim_py, "Name");
   GeneralHeaderTim_py.def("name_as_string",
                           &CommonSEGD::GeneralHeaderTim::name_as_string);
@@ -1050,6 +1056,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "quantity_class", &CommonSEGD::GeneralHeaderMeas::quantity_class);
   GeneralHeaderMeas_py.def_readwrite(
       "unit_of_measure", &CommonSEGD::GeneralHeaderMeas::unit_of_measure);
+  GeneralHeaderMeas_py.def_readwrite(
+      "measurement_description", &CommonSEGD::GeneralHeaderMeas::measurement_description);
   GeneralHeaderMeas_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderMeas::gen_hdr_block_type);
   py::enum_<CommonSEGD::GeneralHeaderMeas::Name>(GeneralHeaderMeas_py, "Name");
@@ -1098,6 +1106,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "third_notch_filter", &CommonSEGD::ChannelSetHeader::third_notch_filter);
   ChannelSetHeader_py.def_readwrite(
       "ext_ch_set_num", &CommonSEGD::ChannelSetHeader::ext_ch_set_num);
+  ChannelSetHeader_py.def_readwrite(
+      "ext_hdr_flag", &CommonSEGD::ChannelSetHeader::ext_hdr_flag);
   ChannelSetHeader_py.def_readwrite("trc_hdr_ext",
                                     &CommonSEGD::ChannelSetHeader::trc_hdr_ext);
   ChannelSetHeader_py.def_readwrite("vert_stack",
@@ -1111,6 +1121,8 @@ PYBIND11_MODULE(pysedaman, m) {
   ChannelSetHeader_py.def("samp_int", &CommonSEGD::ChannelSetHeader::samp_int);
   ChannelSetHeader_py.def("filter_phase",
                           &CommonSEGD::ChannelSetHeader::filter_phase);
+  ChannelSetHeader_py.def("physical_unit",
+                          &CommonSEGD::ChannelSetHeader::physical_unit);
   ChannelSetHeader_py.def("filter_delay",
                           &CommonSEGD::ChannelSetHeader::filter_delay);
   ChannelSetHeader_py.def("description",
-- 
2.43.0


From 77fe049a7f11f9a5c5eb842d5516157720a63793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 55/60] fix: 24-bit value types missing from the Python module

---
 src/pybind/pybind.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index b5d2396..329bc37 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -41,6 +41,8 @@ PYBIND11_MODULE(pysedaman, m) {
       .value("uint8_t", Trace::Header::ValueType::uint8_t)
       .value("int16_t", Trace::Header::ValueType::int16_t)
       .value("uint16_t", Trace::Header::ValueType::uint16_t)
+      .value("int24_t", Trace::Header::ValueType::int24_t)
+      .value("uint24_t", Trace::Header::ValueType::uint24_t)
       .value("int32_t", Trace::Header::ValueType::int32_t)
       .value("uint32_t", Trace::Header::ValueType::uint32_t)
       .value("int64_t", Trace::Header::ValueType::int64_t)
-- 
2.43.0


From 4abee1f7e8b4735c294fd4833ec1ec805562a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 56/60] fix: Python EBCDIC conversions converted a copy and
 returned nothing

---
 src/pybind/pybind.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 329bc37..54c70a0 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -61,8 +61,14 @@ PYBIND11_MODULE(pysedaman, m) {
   Header_py.def("keys", &Trace::Header::keys, "Retruns all keys for header");
 
   py::class_<CommonSEGY> CommonSEGY_py(m, "CommonSEGY");
-  CommonSEGY_py.def("ebcdic_to_ascii", &CommonSEGY::ebcdic_to_ascii);
-  CommonSEGY_py.def("ascii_to_ebcdic", &CommonSEGY::ascii_to_ebcdic);
+  CommonSEGY_py.def_static("ebcdic_to_ascii", [](string s) {
+    CommonSEGY::ebcdic_to_ascii(s);
+    return py::bytes(s);
+  });
+  CommonSEGY_py.def_static("ascii_to_ebcdic", [](string s) {
+    CommonSEGY::ascii_to_ebcdic(s);
+    return py::bytes(s);
+  });
   CommonSEGY_py.def_readonly_static("default_text_header",
                                     &CommonSEGY::default_text_header);
   CommonSEGY_py.def_readonly_static("TEXT_HEADER_SIZE",
-- 
2.43.0


From bc4d9d2e3b95c781bcd424c5cf09f29d8e6d6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 57/60] fix: samples were taken for the shape of the NumPy
 array

---
 src/pybind/pybind.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 54c70a0..58106cd 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -34,7 +34,9 @@ PYBIND11_MODULE(pysedaman, m) {
   Trace_py.def("samples", &Trace::samples, "Returns trace samples");
   Trace_py.def(
       "samples_as_numpy_array",
-      [](Trace &t) { return py::array_t<double>(t.samples()); },
+      [](Trace &t) {
+        return py::array_t<double>(t.samples().size(), t.samples().data());
+      },
       "Returns trace samples as numpy array");
   py::enum_<Trace::Header::ValueType>(Trace_py, "TrHdrValueType")
       .value("int8_t", Trace::Header::ValueType::int8_t)
-- 
2.43.0


From 64d207bc76116efb406e857b7daa64d80218bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 58/60] fix: EBCDIC trailer stanzas could not be read in Python

---
 src/pybind/pybind.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 58106cd..7436b1f 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -206,8 +206,16 @@ PYBIND11_MODULE(pysedaman, m) {
         return res;
       },
       "segy text headers getter");
-  ISEGY_py.def("trailer_stanzas", &ISEGY::trailer_stanzas,
-               "segy trailer stanzas getter");
+  ISEGY_py.def(
+      "trailer_stanzas",
+      [](ISEGY &s) {
+        vector<py::bytes> res;
+        for (auto const &h : s.trailer_stanzas()) {
+          res.push_back(py::bytes(h));
+        }
+        return res;
+      },
+      "segy trailer stanzas getter");
   ISEGY_py.def("binary_header", &ISEGY::binary_header,
                "segy binary header getter");
   ISEGY_py.def("has_trace", &ISEGY::has_trace, "checks for next trace in file");
-- 
2.43.0


From 23a9652abc929a42a11969e581a5abd6c45f7a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 59/60] fix: a declared trace length took memory before the
 samples were known to exist

One corrupt byte of the binary header made opening a small SEG-Y file
allocate and clear up to 16 GB.
---
 src/ISEGY.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 17b357d..11ab37c 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -117,14 +117,20 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     read_trailer_stanzas();
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
-    common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
 			[this](unordered_map<string,
 				   Trace::Header::Value>& hdr)
-			{ (void)hdr; return read_trc_smpls_fix(); };
+			{
+				(void)hdr;
+				streamoff size = static_cast<streamoff>(common.samp_per_tr) *
+					common.bytes_per_sample;
+				// before memory is taken for samples that are not there
+				check_end_of_data(size);
+				common.samp_buf.resize(size);
+				return read_trc_smpls_fix();
+			};
 	else
 		read_trc_smpls =
 			[this](unordered_map<string,
-- 
2.43.0


From 0595ceb218c74aae17981151504d22678e6e8200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:05 +0000
Subject: [PATCH 60/60] fix: keys that are not a number mixed up the order of
 sorted reading

---
 src/ISEGYSorted1D.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index 9d34103..89e6048 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -1,5 +1,6 @@
 #include "ISEGYSorted1D.hpp"
 #include "Exception.hpp"
+#include <cmath>
 
 using std::make_unique;
 using std::map;
@@ -11,12 +12,29 @@ using std::string;
 using std::vector;
 
 namespace sedaman {
+namespace {
+// values which are not a number go after all other
+struct ValueLess {
+    static bool is_nan(Trace::Header::Value const& v) {
+        double const* val = std::get_if<double>(&v);
+        return val && std::isnan(*val);
+    }
+    bool operator()(Trace::Header::Value const& a,
+                    Trace::Header::Value const& b) const {
+        if (is_nan(a) || is_nan(b))
+            return !is_nan(a);
+        return a < b;
+    }
+};
+using TraceMap = map<Trace::Header::Value, vector<streampos>, ValueLess>;
+} // namespace
+
 class ISEGYSorted1D::Impl {
 public:
     Impl(ISEGYSorted1D &s, string hdr_name);
-    map<Trace::Header::Value, vector<streampos>>::iterator map_cur, map_end;
+    TraceMap::iterator map_cur, map_end;
     vector<streampos>::iterator vec_cur, vec_end;
-    map<Trace::Header::Value, vector<streampos>> trc_map;
+    TraceMap trc_map;
     Trace::Header::ValueType hdr_type;
 
 private:
@@ -76,7 +94,7 @@ Trace ISEGYSorted1D::read_trace() {
 
 vector<Trace::Header::Value> ISEGYSorted1D::get_keys() {
     vector<Trace::Header::Value> result;
-    for (map<Trace::Header::Value, vector<streampos>>::iterator
+    for (TraceMap::iterator
              cur = pimpl->trc_map.begin(),
              end = pimpl->trc_map.end();
          cur != end; ++cur) {
@@ -88,7 +106,7 @@ vector<Trace::Header::Value> ISEGYSorted1D::get_keys() {
 vector<Trace::Header> ISEGYSorted1D::get_headers(Trace::Header::Value v,
                                                  uint64_t max_num) {
     vector<Trace::Header> result;
-    map<Trace::Header::Value, vector<streampos>>::iterator mit =
+    TraceMap::iterator mit =
         pimpl->trc_map.find(v);
     if (mit != pimpl->trc_map.end()) {
         for (vector<streampos>::iterator vit = mit->second.begin(),
@@ -105,7 +123,7 @@ vector<Trace::Header> ISEGYSorted1D::get_headers(Trace::Header::Value v,
 vector<Trace> ISEGYSorted1D::get_traces(Trace::Header::Value v,
                                         uint64_t max_num) {
     vector<Trace> result;
-    map<Trace::Header::Value, vector<streampos>>::iterator mit =
+    TraceMap::iterator mit =
         pimpl->trc_map.find(v);
     if (mit != pimpl->trc_map.end()) {
         for (vector<streampos>::iterator vit = mit->second.begin(),
-- 
2.43.0

