From 5e41a189c7bfd9e0253c41c3489aa52527aa8b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:40 +0000
Subject: [PATCH 01/63] fix: SEG-Y writer stored exact powers of 16 as 0 in IBM
 float format

---
 src/OSEGY.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..fa576b4 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -146,11 +146,13 @@ void OSEGY::Impl::assign_raw_writers()
     }
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
-        double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
+        // abs(val) == mant * 2 ^ exp2, 0.5 <= mant < 1
+        int exp2 = 0;
+        double mant = frexp(abs(val), &exp2);
+        // the smallest power of 16 that is greater than abs(val)
+        int exp16 = exp2 > 0 ? (exp2 + 3) / 4 : exp2 / 4;
+        uint32_t exp = mant ? (exp16 + 64) & 0x7f : 0;
+        uint32_t fraction = ldexp(mant, exp2 - exp16 * 4 + 24);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
-- 
2.43.0


From ba853d7c54f127a10c7d4a6ab428757469d6c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 02/63] fix: trace header map check missed the first entry and
 offsets that wrap

---
 src/CommonSEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..b6cc82f 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,9 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first > 240u - size)
+				throw Exception(__FILE__, __LINE__,
+								string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +94,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From a6a27f6fd96d6b9c0d177b4567ccf3aaeccee4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 03/63] fix: SEG-Y writer left out the last additional trace
 header

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index fa576b4..71fd569 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -356,7 +356,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 6f672b54d8c90a329a8c04d143291333223fc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 04/63] fix: SEG-Y writer threw on trace header values held as
 double

---
 src/OSEGY.cpp | 70 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 71fd569..31c65d2 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -23,6 +23,24 @@ using std::string;
 using std::vector;
 
 namespace sedaman {
+// value of a trace header for an integer field, zero if it is not set
+static int64_t to_int(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return v->index() ? static_cast<int64_t>(get<double>(*v)) :
+	   	get<int64_t>(*v);
+}
+
+// value of a trace header for a floating point field, zero if it is not set
+static double to_double(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return v->index() ? get<double>(*v) :
+	   	static_cast<double>(get<int64_t>(*v));
+}
+
 class OSEGY::Impl {
 public:
     Impl(CommonSEGY com)
@@ -297,55 +315,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, to_double(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, to_double(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, to_double(tmp));
 				break;
 		}
 	}
@@ -366,55 +384,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, to_double(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, to_double(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, to_double(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 1ee4588e880eb37edaf2812107d0e95f73c7a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 05/63] fix: SEG-Y writer overran its buffer or wrote stale
 samples when a trace has an unexpected number of samples

---
 src/OSEGY.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 31c65d2..99588f3 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -473,6 +473,9 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
 {
     char* buf = common.samp_buf.data();
     vector<double> const& samples = t.samples();
+    if (samples.size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"unexpected number of samples in trace");
     for (auto samp : samples)
         write_sample(&buf, samp);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
-- 
2.43.0


From ece8c5c7dd09360d346fb07575055061c496a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 06/63] fix: SEG-Y writers dereferenced an empty optional when
 SAMP_NUM or SAMP_INT is not set

---
 src/OSEGY.cpp     | 2 +-
 src/OSEGYRev0.cpp | 4 ++--
 src/OSEGYRev1.cpp | 4 ++--
 src/OSEGYRev2.cpp | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 99588f3..cdf3ad4 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -461,7 +461,7 @@ void OSEGY::Impl::write_trailer_stanzas()
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
     int64_t samp_num = get<int64_t>(v);
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..5dadc29 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -68,7 +68,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
                 if (samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
@@ -76,7 +76,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..035cb7d 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -80,7 +80,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
 				if (samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
@@ -88,7 +88,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..1402c7b 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -131,7 +131,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
         if (samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
@@ -139,7 +139,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
+        v = tr.header().get("SAMP_INT").value();
         double samp_int = get<int64_t>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 4d4febafef3804cce3ec4db8f8d5c382e6ce5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 07/63] fix: OSEGYRev2 threw on a sample interval held as
 double

---
 src/OSEGYRev2.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 1402c7b..1b38207 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -7,6 +7,7 @@
 
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -140,7 +141,11 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
         v = tr.header().get("SAMP_INT").value();
-        double samp_int = get<int64_t>(v);
+        double samp_int;
+        if (holds_alternative<int64_t>(v))
+            samp_int = get<int64_t>(v);
+        else
+            samp_int = get<double>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
-- 
2.43.0


From 794bbba3ba85c03b2a5ee98a4cecbdbc99172f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 08/63] fix: OSEGYRev2 ignored the extended number of samples
 per trace

---
 src/OSEGYRev2.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 1b38207..932d997 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -68,8 +68,11 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            sgy.common().samp_buf.resize(static_cast<size_t>(
+				sgy.common().binary_header.ext_samp_per_tr ?
+				sgy.common().binary_header.ext_samp_per_tr :
+				static_cast<uint16_t>(
+					sgy.common().binary_header.samp_per_tr)) *
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
-- 
2.43.0


From 623a5c5a5b649a36b118047ae0dccb26cec1c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 09/63] fix: default text header of OSEGYRev0 had control
 characters in place of the revision

---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 5dadc29..8ee00be 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From c0654bbdf39afec4b9fec4553ac013be359d04b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 10/63] fix: ISEGYSorted1D dereferenced the end iterator on a
 file without traces

---
 src/ISEGYSorted1D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..1176829 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,9 +34,10 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
+    if (map_cur == map_end)
+        return;
     vec_cur = map_cur->second.begin();
     vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
-- 
2.43.0


From 5050daaf2532e184c97288dfeb11b8ece81a4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 11/63] fix: copy constructor of Exception dereferenced a null
 pointer

---
 src/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..50a0afd 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,8 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From de65ab9b0a16c71b6f26dd0aec0577242b7a5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 12/63] fix: search for trailer stanzas did not skip trace
 headers of fixed length traces

---
 src/ISEGY.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..58340df 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -353,9 +353,13 @@ void ISEGY::Impl::read_trailer_stanzas()
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
             // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
-							  common.binary_header.num_of_tr_in_file,
-							  ios_base::cur);
+            streamoff trc_size = static_cast<streamoff>(
+				common.binary_header.max_num_add_tr_headers + 1) *
+				CommonSEGY::TR_HEADER_SIZE +
+				static_cast<streamoff>(common.samp_per_tr) *
+				common.bytes_per_sample;
+            common.file.seekg(trc_size * static_cast<streamoff>(
+				common.binary_header.num_of_tr_in_file), ios_base::cur);
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
             while (1) {
-- 
2.43.0


From a2fc70c4900e183f9c764e0fdeec87f3587034f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 13/63] fix: trailer stanzas were looked for after the end of
 file

---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 58340df..3518925 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -410,7 +410,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>(
+			common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From 25dc1a9c1b3641e5d2660f40d6c56b82e98cdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 14/63] fix: number of extended text headers was not written to
 the binary header

---
 src/OSEGYRev1.cpp | 5 +++++
 src/OSEGYRev2.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 035cb7d..5efcc02 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -57,6 +59,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.ext_text_headers_num =
+	   	sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
@@ -104,6 +108,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.common().samp_buf.resize
 					(samp_num * sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
+				sgy.common().file.seekg(first_trace_pos);
 			}
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 932d997..c4f41be 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -57,6 +57,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -65,6 +67,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.ext_text_headers_num =
+	   	sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
@@ -156,6 +160,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
             sgy.common().binary_header.samp_int = samp_int;
         sgy.common().samp_buf.resize(samp_num * sgy.common().bytes_per_sample);
 		sgy.write_bin_header();
+		sgy.common().file.seekg(first_trace_pos);
     }
 }
 
-- 
2.43.0


From 98f02ef4838c760dfac7f4c51805601da44c7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 15/63] fix: OSEGYRev2 dropped trailer stanzas or wrote a wrong
 number of them to the binary header

---
 src/OSEGYRev2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index c4f41be..fbca571 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -53,6 +53,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 								"3200 bytes");
         sgy.common().trailer_stanzas = move(trlr_stnzs);
     }
+    sgy.common().binary_header.num_of_trailer_stanza =
+	   	sgy.common().trailer_stanzas.size();
 	sgy.common().text_headers = move(txt_hdrs);
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
@@ -67,6 +69,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.num_of_trailer_stanza =
+	   	sgy.common().binary_header.num_of_trailer_stanza;
 	zero.ext_text_headers_num =
 	   	sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
-- 
2.43.0


From 80c56cd6f186c7a6b0448a7af68883685b4712fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 16/63] fix: OSEGYRev1 and OSEGYRev2 created files marked as
 revision 0

---
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 5efcc02..35eff9b 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver == 0)
+        sgy.common().binary_header.SEGY_rev_major_ver = 1;
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
@@ -59,6 +61,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 1;
 	zero.ext_text_headers_num =
 	   	sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index fbca571..e62862d 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -59,6 +59,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver == 0)
+        sgy.common().binary_header.SEGY_rev_major_ver = 2;
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
@@ -69,6 +71,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 2;
 	zero.num_of_trailer_stanza =
 	   	sgy.common().binary_header.num_of_trailer_stanza;
 	zero.ext_text_headers_num =
-- 
2.43.0


From ba2d41889e87ffadcbcb91c7dcad6e0243f9dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:08 +0000
Subject: [PATCH 17/63] fix: SEG-Y writer marked big endian files as little
 endian

---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index cdf3ad4..fbe18ab 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -291,7 +291,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // the reader looks at this field without swapping
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From a53cd77af764c972d877df11d87a94706ec08c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 18/63] fix: ISEGY::read_header moved backwards on a negative
 number of samples

With variable trace length the number of samples of a trace header is used to
skip the samples. A negative one moved the file position back, so reading
header by header could return the same trace for ever. read_trace already
throws in this case.
---
 src/ISEGY.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 3518925..8e5582e 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -520,7 +520,10 @@ Trace::Header ISEGY::read_header()
 							   pimpl->common.bytes_per_sample);
     } else {
         Trace::Header::Value v = hdr["SAMP_NUM"];
-        uint64_t samp_num = get<int64_t>(v);
+        int64_t samp_num = get<int64_t>(v);
+        if (samp_num < 0)
+            throw Exception(__FILE__, __LINE__,
+						   	"negative number of samples in trace header");
         pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);
     }
     return Trace::Header(hdr);
-- 
2.43.0


From fd087a8f236a6be9c6d601e4b2b76c10bab418ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 19/63] fix: reading did not end with a wrong number of
 additional trace headers

A negative number of additional trace headers in the binary header made
read_header and read_trace return without reading anything, so a loop over
has_trace never ended. A huge one was skipped header by header (and
overflowed).
---
 src/ISEGY.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 8e5582e..2bbd7df 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -96,6 +96,9 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
 	fill_bin_header(bin_buf, override_bin_hdr);
     assign_sample_reader();
     assign_bytes_per_sample();
+    if (common.binary_header.max_num_add_tr_headers < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"negative number of additional trace headers");
     read_ext_text_headers();
 	char const *pos = common.hdr_buf;
 	read_i32(&pos);
@@ -456,7 +459,7 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
-		 i < common.binary_header.max_num_add_tr_headers + 1; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
 			fill_buf_from_file(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
@@ -505,7 +508,11 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 				}
 			}
 		} else {
-			file_skip_bytes(CommonSEGY::TR_HEADER_SIZE);
+			// no mapping for the rest of additional headers
+			file_skip_bytes((static_cast<streamoff>
+							 (common.binary_header.max_num_add_tr_headers) -
+							 i + 1) * CommonSEGY::TR_HEADER_SIZE);
+			break;
 		}
 	}
     return hdr;
-- 
2.43.0


From c3a37b1f7f3e53ebd72e14d01b6ec3f4dc159af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:09 +0000
Subject: [PATCH 20/63] fix: SEG-Y writers compared padding bytes to find an
 empty binary header

The padding of the default binary header is not initialised when the library
is built with clang, so an empty binary header was not recognised: sample
count and interval of the first trace were not stored or the trace was
refused. Compare the members instead.
---
 include/CommonSEGY.hpp | 1 +
 src/OSEGYRev0.cpp      | 3 +--
 src/OSEGYRev1.cpp      | 3 +--
 src/OSEGYRev2.cpp      | 3 +--
 4 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/CommonSEGY.hpp b/include/CommonSEGY.hpp
index 587220f..e074e7b 100644
--- a/include/CommonSEGY.hpp
+++ b/include/CommonSEGY.hpp
@@ -138,6 +138,7 @@ public:
             NUM_OF_TRAILER_STANZA
         };
         static char const* name_as_string(Name n);
+        bool operator==(BinaryHeader const& other) const = default;
     } binary_header;
     ///
     /// \brief Transform text header from ebcdic to ascii.
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 8ee00be..f90711e 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -55,8 +55,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         sgy.common().samp_buf.resize(static_cast<uint16_t>(
 				sgy.common().binary_header.samp_per_tr) *
 			sgy.common().bytes_per_sample);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 35eff9b..fa79971 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -64,8 +64,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 	zero.SEGY_rev_major_ver = 1;
 	zero.ext_text_headers_num =
 	   	sgy.common().binary_header.ext_text_headers_num;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(static_cast<uint16_t>(
 					sgy.common().binary_header.samp_per_tr) *
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index e62862d..f5c2b52 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -76,8 +76,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 	   	sgy.common().binary_header.num_of_trailer_stanza;
 	zero.ext_text_headers_num =
 	   	sgy.common().binary_header.ext_text_headers_num;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(static_cast<size_t>(
 				sgy.common().binary_header.ext_samp_per_tr ?
-- 
2.43.0


From 21dc2e409d1e6bc53922362c33adf469388a8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 21/63] fix: SEG-D reader did not move over samples of formats
 8022, 8024, 8042, 8044 and 8048

---
 src/ISEGD.cpp | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..27c3f3d 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -939,19 +939,19 @@ void ISEGD::Impl::assign_sample_reading()
     case 8022:
         common.bits_per_sample = 8;
         read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+            uint8_t val = read<uint8_t>(buf);
+            int sign = val & 0b10000000 ? -1 : 1;
+            int exp = (val & 0b01110000) >> 4;
+            return sign * (val & 0xf) * pow(2, exp - 4);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = (val & 0x7000) >> 12;
+            return sign * (val & 0xfff) * pow(2, exp - 12);
         };
         break;
     case 8036:
@@ -965,28 +965,24 @@ void ISEGD::Impl::assign_sample_reading()
     case 8042:
         common.bits_per_sample = 8;
         read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+            uint8_t val = read<uint8_t>(buf);
+            int sign = val & 0b10000000 ? -1 : 1;
+            int exp = (val & 0b01100000) >> 5;
+            return sign * (val & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = (val & 0x6000) >> 13;
+            return sign * (val & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
-        };
+        read_sample = dbl_from_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
-- 
2.43.0


From aa8d33d3e2f22f9b9f27a961e16023909647bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 22/63] fix: SEG-D reader of format 8015 did not move over
 exponents and mixed groups of samples of different traces

---
 src/ISEGD.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 27c3f3d..1669bfa 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -54,6 +54,9 @@ private:
     void file_skip_bytes(streamoff off);
     void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
+    // four samples of format 8015 share a block of 10 bytes
+    double group[4];
+    int samp_in_group;
     function<uint8_t(char const**)> read_u8;
     function<int8_t(char const**)> read_i8;
     function<uint16_t(char const**)> read_u16;
@@ -920,20 +923,19 @@ void ISEGD::Impl::assign_sample_reading()
     case 8015:
         common.bits_per_sample = 20;
         read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
-            if (counter == 4)
-                counter = 0;
-            if (!counter) {
+            if (samp_in_group == 4)
+                samp_in_group = 0;
+            if (!samp_in_group) {
                 int exp[4];
                 for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+                    uint8_t val = read<uint8_t>(buf);
+                    exp[i] = val >> 4;
+                    exp[i + 1] = val & 0xf;
                 }
                 for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
+                    group[i] = read_i16(buf) * pow(2, exp[i] - 15);
             }
-            return result[counter++];
+            return group[samp_in_group++];
         };
         break;
     case 8022:
@@ -1360,8 +1362,14 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    uint64_t whole_samp_num = samp_num;
+    if (common.general_header.format_code == 8015)
+        whole_samp_num = (whole_samp_num + 3) / 4 * 4;
+    samp_in_group = 0;
+    if (common.trc_samp_buf.size() !=
+        (whole_samp_num * common.bits_per_sample) / 8)
+        common.trc_samp_buf.resize
+            ((whole_samp_num * common.bits_per_sample) / 8);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
-- 
2.43.0


From 0c7093bf11c50bd824d37984efb996abb8a58bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 23/63] fix: SEG-D reader mixed up bytes and sign of samples in
 format 9036

---
 src/ISEGD.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 1669bfa..94a77bf 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1011,9 +1011,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= read<uint8_t>(buf) << 16;
+                return static_cast<int32_t>
+                    (result & 0x800000 ? result | 0xff000000 : result);
             };
         break;
     case 9038:
-- 
2.43.0


From 23a8ba1f318025d7edb2a35191c7dcbac5686d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 24/63] fix: extended number of channel sets per scan type was
 never used

---
 src/ISEGD.cpp       | 2 +-
 src/OSEGDRev2_1.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 94a77bf..cf594a4 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -172,7 +172,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type == 165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..d73f4dc 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type == 165 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
-- 
2.43.0


From 99385c4de22f4c97041dc586dfda7c3f142b6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 25/63] fix: SEG-D rev 3 reader left out extended record length
 and shifted the rest of general header 2

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index cf594a4..0a4d120 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -389,9 +389,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From 6f1f244949c5e3eabf655ac8499ccc93576eaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 26/63] fix: SEG-D rev 3 reader took one byte for two byte
 offsets and no sign for numbers of source line and point

---
 src/ISEGD.cpp | 72 +++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 0a4d120..3a02529 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -572,9 +572,9 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderVib ghV;
     ghV.expanded_file_number = read_u24(&buf);
-    ghV.sou_line_num = read_u24(&buf);
+    ghV.sou_line_num = read_i24(&buf);
     ghV.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghV.sou_point_num = read_u24(&buf);
+    ghV.sou_point_num = read_i24(&buf);
     ghV.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghV.sou_point_index = read_u8(&buf);
     ghV.phase_control = read_u8(&buf);
@@ -585,10 +585,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -598,9 +598,9 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderExp ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.depth = read_u16(&buf);
@@ -611,10 +611,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -624,9 +624,9 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderAir ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -636,10 +636,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -649,9 +649,9 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderWat ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -661,10 +661,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -674,9 +674,9 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderEle ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.source_type = read_u8(&buf);
@@ -686,10 +686,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -699,9 +699,9 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderOth ghO;
     ghO.expanded_file_number = read_u24(&buf);
-    ghO.sou_line_num = read_u24(&buf);
+    ghO.sou_line_num = read_i24(&buf);
     ghO.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghO.sou_point_num = read_u24(&buf);
+    ghO.sou_point_num = read_i24(&buf);
     ghO.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghO.sou_point_index = read_u8(&buf);
     buf += 4;
@@ -710,10 +710,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From 269c9c747bb2335b75fcfdd50aa283ff6c9d8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 27/63] fix: serial number in sensor info header was longer
 than the header

---
 include/CommonSEGD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..439618c 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
-- 
2.43.0


From bcac3998c2e2f0cd06213c0ef4ddcd59b49c72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 28/63] fix: SEG-D rev 3 reader took descale multiplier for an
 integer

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 3a02529..28edb87 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1118,7 +1118,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         channel_set_start_time = read_u32(&buf);
         channel_set_end_time = read_u32(&buf);
         number_of_samples = read_u32(&buf);
-        descale_multiplier = read_u32(&buf);
+        descale_multiplier = dbl_from_IEEE_float(&buf);
         number_of_channels = read_u24(&buf);
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
-- 
2.43.0


From 58521d07ca289d02b7839acd476c7508d5ee6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 29/63] fix: filter delay was cut to one byte

---
 src/CommonSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..408f19e 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -271,7 +271,8 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay)
+	   							: nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From e8349f1dcc5fe188e469ece2cf8a146911b2a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 30/63] fix: SEG-D reader looked for extended trace number in a
 wrong trace header word

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 28edb87..c233979 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1340,8 +1340,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From 69aece6aea13e4c1bc313aeb1531b1b09292b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 31/63] fix: SEG-D reader used channel sets that are not in the
 file

---
 src/ISEGD.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c233979..c6d0a01 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1355,9 +1355,15 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     uint32_t samp_num;
+    size_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]);
+    size_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]);
+    if (!scan_type || scan_type > common.channel_sets.size() ||
+        !ch_set || ch_set > common.channel_sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+                        "no channel set header for scan type and channel set "
+                        "from trace header");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+	   	common.channel_sets[scan_type - 1][ch_set - 1];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
-- 
2.43.0


From bcc3ae974adb2447ebc5e5ecb81ef04fe827b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 32/63] fix: SEG-D reader allocated memory for more data than
 the file holds

---
 src/ISEGD.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c6d0a01..0fe6510 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -52,6 +52,7 @@ private:
     CommonSEGD::ChannelSetHeader read_ch_set_hdr();
     void fill_buf_from_file(char* buf, streamsize n);
     void file_skip_bytes(streamoff off);
+    void check_bytes_left(uint64_t n);
     void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
     // four samples of format 8015 share a block of 10 bytes
@@ -198,12 +199,16 @@ void ISEGD::Impl::read_headers_before_traces()
 	uint32_t external_blocks = common.general_header.external_hdr_blocks == 165
 		? common.general_header2.external_hdr_blocks :
 		common.general_header.external_hdr_blocks;
+    check_bytes_left(static_cast<uint64_t>(extended_blocks) *
+                     CommonSEGD::EXTENDED_HEADER_SIZE);
     common.extended_headers.resize(extended_blocks);
     for (uint32_t i = 0; i < extended_blocks; ++i) {
         common.extended_headers[i].resize(CommonSEGD::EXTENDED_HEADER_SIZE);
         fill_buf_from_file(common.extended_headers[i].data(),
             CommonSEGD::EXTENDED_HEADER_SIZE);
     }
+    check_bytes_left(static_cast<uint64_t>(external_blocks) *
+                     CommonSEGD::EXTERNAL_HEADER_SIZE);
 	common.external_headers.resize(external_blocks);
     for (uint32_t i = 0; i < external_blocks; ++i) {
         common.external_headers[i].resize(CommonSEGD::EXTERNAL_HEADER_SIZE);
@@ -1374,10 +1379,10 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
     if (common.general_header.format_code == 8015)
         whole_samp_num = (whole_samp_num + 3) / 4 * 4;
     samp_in_group = 0;
-    if (common.trc_samp_buf.size() !=
-        (whole_samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize
-            ((whole_samp_num * common.bits_per_sample) / 8);
+    uint64_t samp_size = whole_samp_num * common.bits_per_sample / 8;
+    check_bytes_left(samp_size);
+    if (common.trc_samp_buf.size() != samp_size)
+        common.trc_samp_buf.resize(samp_size);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
@@ -1399,6 +1404,13 @@ void ISEGD::Impl::file_skip_bytes(streamoff off)
     curr_pos = common.file.tellg();
 }
 
+void ISEGD::Impl::check_bytes_left(uint64_t n)
+{
+    if (curr_pos > end_of_data ||
+        n > static_cast<uint64_t>(end_of_data - curr_pos))
+        throw Exception(__FILE__, __LINE__, "unexpected end of file");
+}
+
 void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
-- 
2.43.0


From 71901184402e631d9e601a231c427b8afc55c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 33/63] fix: SEG-D reader took trace header extension of type
 uint64_t from a wrong place and used maps that were not given

---
 src/ISEGD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 0fe6510..3634e5b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1275,6 +1275,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // skip extensions without a map
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
@@ -1306,7 +1309,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From b9fd51e73579c59940d04919cb3e0e7c6b98e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 34/63] fix: SEG-D reader did not skip general trailer after
 traces of a record

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 3634e5b..05c92cd 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -148,6 +148,7 @@ Trace ISEGD::read_trace()
     if (pimpl->chans_in_record == pimpl->chans_read) {
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
+        pimpl->read_trailer();
         if (has_record())
             pimpl->read_headers_before_traces();
     }
@@ -1418,7 +1419,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From b89da8764cc70f3173f533682c182f31d369e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 35/63] fix: SEG-D reader kept general headers of previous
 record

---
 src/ISEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 05c92cd..0b6639f 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -294,6 +294,9 @@ void ISEGD::Impl::read_general_headers()
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
+    common.general_header2 = {};
+    common.general_header3 = {};
+    common.add_gen_hdr_blks_map.clear();
     if (common.general_header.add_gen_hdr_blocks) {
         fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
         char const* buf = common.gen_hdr_buf;
-- 
2.43.0


From 407864bff3858af99fad3a4b3b161c006890f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 36/63] fix: SEG-D rev 3 reader expected 65535 additional
 general headers when there is only one

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 0b6639f..6fcd278 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -318,7 +318,7 @@ void ISEGD::Impl::read_general_headers()
             uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==
 			   	0xf ? gh2.ext_num_add_blks_in_gen_hdr :
 			   	common.general_header.add_gen_hdr_blocks;
-            for (uint16_t i = add_blks_num - 2; i; --i) {
+            for (int i = add_blks_num - 2; i > 0; --i) {
                 fill_buf_from_file(common.gen_hdr_buf,
 								   CommonSEGD::GEN_HDR_SIZE);
                 read_rev3_add_gen_hdr_blks(common.gen_hdr_buf);
-- 
2.43.0


From ed2b8271184bf236571cca34416875510d69bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 37/63] fix: channel set headers of SEG-D before rev 3 had an
 uninitialized description

---
 src/ISEGD.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 6fcd278..0f87e8e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1120,6 +1120,14 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         vert_stack = read_u8(&buf);
         streamer_no = read_u8(&buf);
         array_forming = read_u8(&buf);
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     } else {
         scan_type_number = from_bcd<int>(&buf, false, 2);
         channel_set_number = read_u16(&buf);
-- 
2.43.0


From e35c1c6966b3d2d0598dc3e4b182f252805775d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:55 +0000
Subject: [PATCH 38/63] fix: maps of trace header extensions were not checked,
 wrong ones led outside of the buffer

---
 include/CommonSEGD.hpp |  3 ++
 src/CommonSEGD.cpp     | 48 ++++++++++++++++++++++++
 src/ISEGD.cpp          | 83 ------------------------------------------
 3 files changed, 51 insertions(+), 83 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 439618c..9bb489a 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1562,6 +1562,9 @@ public:
     std::vector<std::map<uint32_t, std::pair<std::string,
         Trace::Header::ValueType>>> trace_header_extension;
     int bits_per_sample;
+
+private:
+    void check_trc_hdr_ext();
 };
 } // namespace sedaman
 
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 408f19e..60d7751 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -37,6 +37,7 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     , channel_sets { ch_sets }
     , trace_header_extension { trc_hdr_ext }
 {
+    check_trc_hdr_ext();
     fstream fl;
     fl.exceptions(fstream::failbit | fstream::badbit);
     fl.open(file_name, mode);
@@ -180,6 +181,53 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     }
 }
 
+void CommonSEGD::check_trc_hdr_ext()
+{
+    for (auto& hdr_map : trace_header_extension) {
+        uint64_t prev_end = 0;
+        for (auto& i : hdr_map) {
+            uint64_t size = 0;
+            switch (i.second.second) {
+            case Trace::Header::ValueType::int8_t:
+            case Trace::Header::ValueType::uint8_t:
+                size = 1;
+                break;
+            case Trace::Header::ValueType::int16_t:
+            case Trace::Header::ValueType::uint16_t:
+                size = 2;
+                break;
+            case Trace::Header::ValueType::int24_t:
+            case Trace::Header::ValueType::uint24_t:
+                size = 3;
+                break;
+            case Trace::Header::ValueType::int32_t:
+            case Trace::Header::ValueType::uint32_t:
+            case Trace::Header::ValueType::ibm:
+            case Trace::Header::ValueType::ieee_single:
+                size = 4;
+                break;
+            case Trace::Header::ValueType::int64_t:
+            case Trace::Header::ValueType::uint64_t:
+            case Trace::Header::ValueType::ieee_double:
+                size = 8;
+                break;
+            default:
+                throw Exception(__FILE__, __LINE__,
+                    "impossible, unexpected type in TrHdrValueType");
+            }
+            if (i.first < prev_end)
+                throw Exception(__FILE__, __LINE__,
+                    string("overlapping type/offset in "
+                           "trace headers extension map: ")
+                        + std::to_string(i.first));
+            prev_end = i.first + size;
+            if (prev_end > TRACE_HEADER_EXT_SIZE)
+                throw Exception(__FILE__, __LINE__,
+                    "trace header extension map will write over buffer bound");
+        }
+    }
+}
+
 CommonSEGD::ChannelSetHeader::ChannelSetHeader(int stn, uint16_t chsn,
 	uint8_t cht, uint32_t chsstm, uint32_t chsetm, double dm, uint32_t noch,
    	int spchs, uint8_t chg, uint32_t aff, uint32_t afs, uint32_t lcff,
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 0f87e8e..76e786c 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -53,7 +53,6 @@ private:
     void fill_buf_from_file(char* buf, streamsize n);
     void file_skip_bytes(streamoff off);
     void check_bytes_left(uint64_t n);
-    void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
     // four samples of format 8015 share a block of 10 bytes
     double group[4];
@@ -1170,88 +1169,6 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         filter_phase, physical_unit, filter_delay, description);
 }
 
-void ISEGD::Impl::check_trc_hdr_ext()
-{
-    if (common.trace_header_extension.size()) {
-        // for now all channel sets should have the same trace header extension
-        // number
-        for (auto& scan_type : common.channel_sets)
-            for (auto& ch_set : scan_type)
-                if (ch_set.trc_hdr_ext &&
-                ch_set.trc_hdr_ext != common.trace_header_extension.size())
-                    throw Exception(__FILE__, __LINE__,
-                        "Number of trace header extension in channel set " +
-                        to_string(ch_set.channel_set_number) +
-                        " not equal to number of maps in provided vector");
-        int first = 1, size = 0;
-        uint32_t prev;
-        for (auto& hdr_map : common.trace_header_extension) {
-            for (auto& i : hdr_map) {
-                if (first) {
-                    prev = i.first;
-                    first = 0;
-                } else {
-                    switch (i.second.second) {
-                    case Trace::Header::ValueType::int8_t:
-                        size = 1;
-                        break;
-                    case Trace::Header::ValueType::uint8_t:
-                        size = 1;
-                        break;
-                    case Trace::Header::ValueType::int16_t:
-                        size = 2;
-                        break;
-                    case Trace::Header::ValueType::uint16_t:
-                        size = 2;
-                        break;
-                    case Trace::Header::ValueType::int24_t:
-                        size = 3;
-                        break;
-                    case Trace::Header::ValueType::uint24_t:
-                        size = 3;
-                        break;
-                    case Trace::Header::ValueType::int32_t:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::uint32_t:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::int64_t:
-                        size = 8;
-                        break;
-                    case Trace::Header::ValueType::uint64_t:
-                        size = 8;
-                        break;
-                    case Trace::Header::ValueType::ibm:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::ieee_single:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::ieee_double:
-                        size = 8;
-                        break;
-                    default:
-                        throw Exception(__FILE__, __LINE__,
-                            "impossible, unexpected type in "
-                            "TrHdrValueType");
-                    }
-                    if (i.first - prev < static_cast<uint32_t>(size))
-                        throw Exception(__FILE__, __LINE__,
-                            string("overlapping type/offset in "
-                                   "trace headers extension map: ")
-                                + to_string(i.first));
-                    if (i.first + size > CommonSEGD::TRACE_HEADER_EXT_SIZE)
-                        throw Exception(__FILE__, __LINE__,
-                            string("trace header extension map will write over "
-                            "buffer bound"));
-                    prev = i.first;
-                }
-            }
-        }
-    }
-}
-
 unordered_map<string, Trace::Header::Value> ISEGD::Impl::read_trace_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
-- 
2.43.0


From a8bb1e9b4837dda4944f5a4c07bbc3552b64bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 39/63] fix: OSEGD counted channels starting from an
 uninitialized value

---
 src/OSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..4d60d47 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -38,7 +38,8 @@ public:
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
-        : common { move(com) }
+        : chans_in_record { 0 }
+        , common { move(com) }
     {
     }
     CommonSEGD common;
-- 
2.43.0


From a8333bd78b8f36de05f3e56dae4f95dd28a57cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 40/63] fix: SEG-D writer overran its buffer on trace header
 extensions

---
 src/OSEGD.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4d60d47..84e098c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -923,15 +923,18 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
         if (common.trace_header_extension.size()) {
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                throw Exception(__FILE__, __LINE__,
+                    "no map for trace header extension");
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, get<int64_t>(*tmp));
@@ -975,7 +978,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 }
             }
         } else if (i == 0) {
-            char* buf = common.trc_hdr_buf;
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1052,7 +1055,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
+        common.file.write(common.trc_ext_hdr_buf,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
-- 
2.43.0


From a1fba15b562c96cb8b3be8d63c93b302328afecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 41/63] fix: SEG-D writer used missing or wrong scan type and
 channel set numbers of a trace

---
 src/OSEGD.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 84e098c..b89d4cb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -34,6 +34,7 @@ public:
     void write_general_header2_and_3();
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
+    void check_trace_header(Trace::Header const& hdr);
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
@@ -882,8 +883,22 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 					  common.ch_set_hdr_buf.size());
 }
 
+void OSEGD::Impl::check_trace_header(Trace::Header const& hdr)
+{
+    optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
+    uint64_t scan_type = tmp ? get<int64_t>(*tmp) : 1;
+    tmp = hdr.get("CH_SET_NUM");
+    uint64_t ch_set = tmp ? get<int64_t>(*tmp) : 1;
+    if (!scan_type || scan_type > common.channel_sets.size() ||
+        !ch_set || ch_set > common.channel_sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+                        "no channel set header for scan type and channel set "
+                        "from trace header");
+}
+
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
 {
+    check_trace_header(hdr);
     char* buf = common.trc_hdr_buf;
     memset(buf, 0, CommonSEGD::TRACE_HEADER_SIZE);
     optional<Trace::Header::Value> ffid = hdr.get("FFID");
@@ -892,12 +907,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 1, false, 2);
+    optional<Trace::Header::Value> tmp_ch_set = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp_ch_set ? get<int64_t>(*tmp_ch_set) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (tmp && get<int64_t>(*tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -913,7 +929,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
-- 
2.43.0


From e813dc87906cb1dbce4fa0b617f7aaaeec57717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 42/63] fix: SEG-D writer left a part of a trace in the file
 when it refused the trace

---
 src/OSEGD.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b89d4cb..b460ca3 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -894,6 +894,18 @@ void OSEGD::Impl::check_trace_header(Trace::Header const& hdr)
         throw Exception(__FILE__, __LINE__,
                         "no channel set header for scan type and channel set "
                         "from trace header");
+    uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
+    if (common.trace_header_extension.size()) {
+        for (size_t i = 0; i < ext_hdr_blks; ++i) {
+            if (i >= common.trace_header_extension.size())
+                throw Exception(__FILE__, __LINE__,
+                    "no map for trace header extension");
+            for (auto& item : common.trace_header_extension[i])
+                if (hdr.get(item.second.first) == std::nullopt)
+                    throw Exception(__FILE__, __LINE__,
+                        "no such header in trace");
+        }
+    }
 }
 
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
-- 
2.43.0


From c0f4fa6c054b6fcbcb23292fb6bbff3058429765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 43/63] fix: SEG-D writer did not mark numbers of channel sets
 that do not fit in two digits

---
 src/OSEGD.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b460ca3..2871f9b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -219,7 +219,10 @@ void OSEGD::Impl::write_general_header1()
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false,
+               2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
@@ -824,7 +827,9 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        to_bcd(&buf, hdr.channel_set_number, false, 2);
+        hdr.channel_set_number > 99 ?
+            (void)(*buf++ = static_cast<uint8_t>(0xff)) :
+            to_bcd(&buf, hdr.channel_set_number, false, 2);
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-- 
2.43.0


From 8b25ca009c4c2359d5e71b883ddad48402a525f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 44/63] fix: SEG-D writer lost precision of the number of scans
 per block

---
 src/OSEGD.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 2871f9b..834a081 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -204,10 +204,12 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
     *ptr++ = common.general_header.base_scan_int * pow(2, 4);
     to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
-    *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    int exp = 0;
+    long scans = common.general_header.scans_per_block;
+    for (; scans > 0xff; scans /= 2)
+        ++exp;
+    *ptr++ |= exp & 0x0f;
+    *ptr++ = scans;
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
-- 
2.43.0


From aeaf8185dbafe0052bf3435ca5812d2ebb3b2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 45/63] fix: SEG-D writer converted numbers out of range of
 signed char

---
 src/OSEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 834a081..3d8cce0 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -202,7 +202,8 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.manufac_code, false, 2);
     to_bcd(&ptr, common.general_header.manufac_num, false, 4);
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
-    *ptr++ = common.general_header.base_scan_int * pow(2, 4);
+    *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
+                                  pow(2, 4));
     to_bcd(&ptr, common.general_header.polarity, false, 1);
     int exp = 0;
     long scans = common.general_header.scans_per_block;
@@ -943,7 +944,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     tmp = hdr.get("TR_HDR_EXT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    *buf++ = static_cast<uint8_t>(tmp ? get<double>(*tmp) * pow(2, 8) : 0);
     tmp = hdr.get("TRACE_EDIT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
-- 
2.43.0


From 06dfae7d908e40a09ad72bb298a190f3556834ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 46/63] fix: SEG-D writer stored wrong fractions of negative
 source line and point numbers

---
 src/OSEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 3d8cce0..37b68ba 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -267,11 +267,11 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        int32_t integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-- 
2.43.0


From 45edf33bd35a541be38d2650cf884b785cf2b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 47/63] fix: SEG-D writer stored wrong value of negative
 descale multiplier

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 37b68ba..6f44038 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -836,7 +836,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-- 
2.43.0


From 8efe729eb401da0171177b4c6929eb5751ac10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 48/63] fix: OSEGDRev2_1 overran its buffer when it was given
 revision 3

---
 src/OSEGDRev2_1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index d73f4dc..0ffcd80 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -25,6 +25,9 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    if (sgd.common().general_header2.segd_rev_major > 2)
+        throw Exception(__FILE__, __LINE__,
+						"Unsupported revision for this writer.");
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
-- 
2.43.0


From c79dcc9b2e8268bbff5924aa792f88443631a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 49/63] fix: OSEGDRev2_1 did not check number of general
 headers and extended and external header blocks

---
 src/CommonSEGD.cpp  |  5 +++++
 src/OSEGDRev2_1.cpp | 25 +++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 60d7751..f7ff049 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -43,6 +43,11 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        if (GeneralHeaderN* ghN = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[item->type()] =
+                make_unique<GeneralHeaderN>(*ghN);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 0ffcd80..e76ed4c 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -21,6 +21,18 @@ private:
     OSEGDRev2_1& sgd;
 };
 
+static void check_blocks(vector<vector<char>> const& blocks, size_t num,
+                         size_t size)
+{
+    if (blocks.size() != num)
+        throw Exception(__FILE__, __LINE__,
+						"Number of header blocks not equal to number in "
+						"general header.");
+    for (auto& blk : blocks)
+        if (blk.size() != size)
+            throw Exception(__FILE__, __LINE__, "Wrong size of header block.");
+}
+
 OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
@@ -28,6 +40,15 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     if (sgd.common().general_header2.segd_rev_major > 2)
         throw Exception(__FILE__, __LINE__,
 						"Unsupported revision for this writer.");
+    if (static_cast<size_t>(sgd.common().general_header.add_gen_hdr_blocks) !=
+        sgd.common().add_gen_hdr_blks_map.size() + 1)
+        throw Exception(__FILE__, __LINE__,
+						"Number of additional general headers not equal to "
+						"number of additional blocks in general header.");
+    for (auto& item : sgd.common().add_gen_hdr_blks_map)
+        if (!dynamic_cast<CommonSEGD::GeneralHeaderN*>(item.second.get()))
+            throw Exception(__FILE__, __LINE__,
+							"Unsupported additional general header.");
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
@@ -62,6 +83,10 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
 	   	sgd.common().general_header.external_hdr_blocks == 165 ?
 	   	sgd.common().general_header2.external_hdr_blocks :
 	   	sgd.common().general_header.external_hdr_blocks;
+    check_blocks(sgd.common().extended_headers, extended_blocks,
+                 CommonSEGD::EXTENDED_HEADER_SIZE);
+    check_blocks(sgd.common().external_headers, external_blocks,
+                 CommonSEGD::EXTERNAL_HEADER_SIZE);
     for (uint32_t i = 0; i < extended_blocks; ++i)
         sgd.common().file.write(sgd.common().extended_headers[i].data(),
         CommonSEGD::EXTENDED_HEADER_SIZE);
-- 
2.43.0


From af79b97857489089956fbb4b4c67d7a03d1586f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 50/63] fix: SEG-D writer converted negative numbers to
 unsigned

---
 src/OSEGD.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 6f44038..1cdf320 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -48,15 +48,15 @@ public:
 private:
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
     function<void(char**, double)> write_IEEE_double;
@@ -1244,8 +1244,9 @@ void OSEGD::Impl::assign_sample_writers()
 		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t tmp = val;
+                write<int16_t>(buf, tmp);
+                write<int8_t>(buf, tmp >> 16);
             };
         break;
     case 9038:
-- 
2.43.0


From a0fdf82e55b07bc4ba8a33a0fd5ca7818ea7cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 51/63] fix: SEG-D writer stored exact powers of 16 as 0 in IBM
 float format

---
 src/OSEGD.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 1cdf320..b458aed 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -175,11 +175,13 @@ void OSEGD::Impl::assign_raw_writers()
     }
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
-        double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
+        // abs(val) == mant * 2 ^ exp2, 0.5 <= mant < 1
+        int exp2 = 0;
+        double mant = frexp(abs(val), &exp2);
+        // the smallest power of 16 that is greater than abs(val)
+        int exp16 = exp2 > 0 ? (exp2 + 3) / 4 : exp2 / 4;
+        uint32_t exp = mant ? (exp16 + 64) & 0x7f : 0;
+        uint32_t fraction = ldexp(mant, exp2 - exp16 * 4 + 24);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
-- 
2.43.0


From dbc3c71def222419c24090fc5dde0486d69b08ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:37 +0000
Subject: [PATCH 52/63] fix: SEG-D writer stored wrong exponents of samples in
 formats 8022, 8024, 8042, 8044 and 8048

---
 src/OSEGD.cpp | 66 +++++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b458aed..24598c3 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1126,6 +1126,26 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
 }
 
+// sign, exponent of 2 ^ base_bits and fraction in the lowest bits of the result
+static uint32_t pack_sample(double val, int exp_bits, int base_bits,
+                            int frac_bits)
+{
+    uint32_t sign = val < 0 ? 1 : 0;
+    double abs_val = abs(val);
+    // abs_val < 2 ^ exp2
+    int exp2 = 0;
+    frexp(abs_val, &exp2);
+    int exp = exp2 > 0 ? (exp2 + base_bits - 1) / base_bits : 0;
+    int max_exp = (1 << exp_bits) - 1;
+    if (exp > max_exp)
+        exp = max_exp;
+    double frac = ldexp(abs_val, frac_bits - exp * base_bits);
+    uint32_t max_frac = (1u << frac_bits) - 1;
+    return sign << (exp_bits + frac_bits) |
+        static_cast<uint32_t>(exp) << frac_bits |
+        (frac < max_frac ? static_cast<uint32_t>(frac) : max_frac);
+}
+
 void OSEGD::Impl::assign_sample_writers()
 {
     switch (common.general_header.format_code) {
@@ -1156,26 +1176,14 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8022:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+        write_sample = [this](char** buf, double val) {
+            write_u8(buf, pack_sample(val, 3, 1, 4));
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 12)) & 0xfff;
-            write_u16(buf, sign << 15 | exp << 12 | frac);
+            write_u16(buf, pack_sample(val, 3, 1, 12));
         };
         break;
     case 8036:
@@ -1188,39 +1196,19 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+        write_sample = [this](char** buf, double val) {
+            write_u8(buf, pack_sample(val, 2, 4, 5));
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 13)) & 0x1fff;
-            write_u16(buf, sign << 15 | exp << 13 | frac);
+            write_u16(buf, pack_sample(val, 2, 4, 13));
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
-        };
+        write_sample = write_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 137bc9465d31dd599f6376bccb9bc2a1ab109fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:37 +0000
Subject: [PATCH 53/63] fix: SEG-D writer mixed samples of different traces and
 lost signs and exponents in format 8015

---
 src/OSEGD.cpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 24598c3..0450c7b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -47,6 +47,9 @@ public:
 
 private:
     function<void(char**, double)> write_sample;
+    // four samples of format 8015 share a block of 10 bytes
+    double group[4];
+    int samp_in_group = 0;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
@@ -1100,10 +1103,11 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
-    if (common.trc_samp_buf.size() != trc.samples().size() *
-	   	common.bits_per_sample / 8)
-        common.trc_samp_buf.resize(trc.samples().size() *
-								   common.bits_per_sample / 8);
+    size_t samp_num = trc.samples().size();
+    if (common.general_header.format_code == 8015)
+        samp_num = (samp_num + 3) / 4 * 4;
+    if (common.trc_samp_buf.size() != samp_num * common.bits_per_sample / 8)
+        common.trc_samp_buf.resize(samp_num * common.bits_per_sample / 8);
     char* buf = common.trc_samp_buf.data();
     vector<double> const& samples = trc.samples();
     uint16_t scan_type;
@@ -1123,6 +1127,9 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     descale = pow(2, descale);
     for (auto samp : samples)
         write_sample(&buf, samp / descale);
+    // complete the last group of samples
+    while (samp_in_group)
+        write_sample(&buf, 0);
     common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
 }
 
@@ -1152,25 +1159,24 @@ void OSEGD::Impl::assign_sample_writers()
     case 8015:
         common.bits_per_sample = 20;
         write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
-            result[counter++] = val;
-            if (counter == 4) {
-                counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
+            group[samp_in_group++] = val;
+            if (samp_in_group == 4) {
+                samp_in_group = 0;
+                int exp[4];
                 for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
+                    // abs(group[i]) < 2 ^ exp[i]
+                    frexp(group[i], exp + i);
+                    exp[i] = exp[i] < 0 ? 0 : exp[i] > 15 ? 15 : exp[i];
                 }
                 for (int i = 0; i < 4; i += 2) {
                     **buf = exp[i] << 4 | exp[i + 1];
                     ++*buf;
                 }
-                for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                for (int i = 0; i < 4; ++i) {
+                    double frac = ldexp(group[i], 15 - exp[i]);
+                    write_i16(buf, frac > 32767 ? 32767 :
+                              frac < -32768 ? -32768 : frac);
+                }
             }
         };
         break;
-- 
2.43.0


From 138b77f990c09a6234d2a9f63ad2d95c6a20d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 54/63] fix: OSEGD did not write number of samples to rev 1
 trace header extension

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 0450c7b..44c3012 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1044,7 +1044,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = tmp ? get<int64_t>(*tmp) : 0;
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
             } else {
-- 
2.43.0


From 6994000d61229ab1223f8ad2f3cd6d43cb8fd0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:11 +0000
Subject: [PATCH 55/63] fix: extended header flag of a channel set was sign
 extended

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 76e786c..069c4cc 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1113,7 +1113,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1139,7 +1139,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 2711f48a240293757203fe37e5cb36fe317819d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:06 +0000
Subject: [PATCH 56/63] fix: getters of revision 3 header blocks dereferenced
 null for revision 2 files

Additional blocks of revision 2 are kept under their block number in the same
map. A block numbered 0x10 was found by general_header_vessel_crew_id() and a
null pointer from dynamic_cast was dereferenced.
---
 src/ISEGD.cpp | 72 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 069c4cc..4b8e42e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1392,7 +1392,8 @@ optional<CommonSEGD::GeneralHeaderVes> ISEGD::general_header_vessel_crew_id()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::VESSEL_CREW_ID);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderVes>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderVes*>(it->second.get())) :
 	   	nullopt;
@@ -1403,7 +1404,8 @@ optional<CommonSEGD::GeneralHeaderSur> ISEGD::general_header_survey_name()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SURVEY_AREA_NAME);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSur>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSur*>(it->second.get())) :
 	   	nullopt;
@@ -1414,7 +1416,8 @@ optional<CommonSEGD::GeneralHeaderCli> ISEGD::general_header_client_name()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::CLIENT_NAME);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderCli>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderCli*>(it->second.get())) :
 	   	nullopt;
@@ -1425,7 +1428,8 @@ optional<CommonSEGD::GeneralHeaderJob> ISEGD::general_header_job_id()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::JOB_ID);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderJob>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderJob*>(it->second.get())) :
 	   	nullopt;
@@ -1436,7 +1440,8 @@ optional<CommonSEGD::GeneralHeaderLin> ISEGD::general_header_line_id()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::LINE_ID);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderLin>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderLin*>(it->second.get())) :
 	   	nullopt;
@@ -1447,7 +1452,8 @@ optional<CommonSEGD::GeneralHeaderVib> ISEGD::general_header_vibrator_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderVib>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderVib*>(it->second.get())) :
 	   	nullopt;
@@ -1458,7 +1464,8 @@ optional<CommonSEGD::GeneralHeaderExp> ISEGD::general_header_explosive_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderExp>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderExp*>(it->second.get())) :
 	   	nullopt;
@@ -1469,7 +1476,8 @@ optional<CommonSEGD::GeneralHeaderAir> ISEGD::general_header_airgun_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::AIRGUN_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderAir>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderAir*>(it->second.get())) :
 	   	nullopt;
@@ -1480,7 +1488,8 @@ optional<CommonSEGD::GeneralHeaderWat> ISEGD::general_header_watergun_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::WATERGUN_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderWat>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderWat*>(it->second.get())) :
 	   	nullopt;
@@ -1492,7 +1501,8 @@ ISEGD::general_header_electromagnetic_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderEle>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderEle*>(it->second.get())) :
 	   	nullopt;
@@ -1504,7 +1514,8 @@ ISEGD::general_header_other_source_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderOth>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderOth*>(it->second.get())) :
 	   	nullopt;
@@ -1515,7 +1526,8 @@ optional<CommonSEGD::GeneralHeaderAdd> ISEGD::general_header_add_source_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::ADD_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderAdd>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderAdd*>(it->second.get())) :
 	   	nullopt;
@@ -1527,7 +1539,8 @@ ISEGD::general_header_sou_aux_chan_ref()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SOU_AUX_CHAN_REF);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSaux>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSaux*>(it->second.get())) :
 	   	nullopt;
@@ -1539,7 +1552,8 @@ ISEGD::general_header_sen_info_hdr_ext_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSen>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSen*>(it->second.get())) :
 	   	nullopt;
@@ -1549,7 +1563,8 @@ optional<CommonSEGD::GeneralHeaderSCa> ISEGD::general_header_sen_calib_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSCa>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSCa*>(it->second.get())) :
 	   	nullopt;
@@ -1560,7 +1575,8 @@ optional<CommonSEGD::GeneralHeaderTim> ISEGD::general_header_time_drift_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::TIME_DRIFT_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderTim>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderTim*>(it->second.get())) :
 	   	nullopt;
@@ -1573,7 +1589,8 @@ ISEGD::general_header_elemag_src_rec_desc_blk()
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::
 				ELECTROMAG_SRC_REC_DESC_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderElSR>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderElSR*>(it->second.get())) :
 	   	nullopt;
@@ -1584,7 +1601,8 @@ optional<CommonSEGD::GeneralHeaderPos1> ISEGD::general_header_position_blk_1()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::POSITION_BLK1);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderPos1>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderPos1*>(it->second.get())) :
 	   	nullopt;
@@ -1595,7 +1613,8 @@ optional<CommonSEGD::GeneralHeaderPos2> ISEGD::general_header_position_blk_2()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::POSITION_BLK2);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderPos2>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderPos2*>(it->second.get())) :
 	   	nullopt;
@@ -1606,7 +1625,8 @@ optional<CommonSEGD::GeneralHeaderPos3> ISEGD::general_header_position_blk_3()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::POSITION_BLK3);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderPos3>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderPos3*>(it->second.get())) :
 	   	nullopt;
@@ -1617,7 +1637,8 @@ optional<CommonSEGD::GeneralHeaderCoord> ISEGD::general_header_coord_ref_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::COORD_REF_SYSTEM);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderCoord>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderCoord*>(it->second.get())) :
 	   	nullopt;
@@ -1628,7 +1649,8 @@ optional<CommonSEGD::GeneralHeaderRel> ISEGD::general_header_relative_pos_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::RELATIVE_POS_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderRel>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderRel*>(it->second.get())) :
 	   	nullopt;
@@ -1639,7 +1661,8 @@ optional<CommonSEGD::GeneralHeaderOri> ISEGD::general_header_orient_hdr_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::ORIENT_HDR_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderOri>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderOri*>(it->second.get())) :
 	   	nullopt;
@@ -1650,7 +1673,8 @@ optional<CommonSEGD::GeneralHeaderMeas> ISEGD::general_header_measurement_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::MEASUREMENT_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+	   	pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderMeas>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderMeas*>(it->second.get())) :
 	   	nullopt;
-- 
2.43.0


From f5631c5367f49963436382e395ad4e31537638fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:04 +0000
Subject: [PATCH 57/63] fix: SEG-Y writer wrapped exponents of IBM floats that
 are too small or too great

---
 src/OSEGY.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index fbe18ab..7ee481f 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -169,8 +169,12 @@ void OSEGY::Impl::assign_raw_writers()
         double mant = frexp(abs(val), &exp2);
         // the smallest power of 16 that is greater than abs(val)
         int exp16 = exp2 > 0 ? (exp2 + 3) / 4 : exp2 / 4;
+        // exponent is stored in 7 bits
+        bool overflow = exp16 > 63;
+        exp16 = overflow ? 63 : exp16 < -64 ? -64 : exp16;
         uint32_t exp = mant ? (exp16 + 64) & 0x7f : 0;
-        uint32_t fraction = ldexp(mant, exp2 - exp16 * 4 + 24);
+        uint32_t fraction = overflow ? 0x00ffffff :
+            ldexp(mant, exp2 - exp16 * 4 + 24);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
-- 
2.43.0


From 327169f2a030f499a084301dcda0461837d5b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:04 +0000
Subject: [PATCH 58/63] fix: SEG-D writer wrapped exponents of IBM floats that
 are too small or too great

---
 src/OSEGD.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 44c3012..517c45f 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -183,8 +183,12 @@ void OSEGD::Impl::assign_raw_writers()
         double mant = frexp(abs(val), &exp2);
         // the smallest power of 16 that is greater than abs(val)
         int exp16 = exp2 > 0 ? (exp2 + 3) / 4 : exp2 / 4;
+        // exponent is stored in 7 bits
+        bool overflow = exp16 > 63;
+        exp16 = overflow ? 63 : exp16 < -64 ? -64 : exp16;
         uint32_t exp = mant ? (exp16 + 64) & 0x7f : 0;
-        uint32_t fraction = ldexp(mant, exp2 - exp16 * 4 + 24);
+        uint32_t fraction = overflow ? 0x00ffffff :
+            ldexp(mant, exp2 - exp16 * 4 + 24);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
-- 
2.43.0


From 998a7694d0ff167991e52ea8a642778286a8d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:59 +0000
Subject: [PATCH 59/63] fix: SEG-D writer left part of a refused trace in the
 file when a header word had a wrong type

---
 src/OSEGD.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 517c45f..330a054 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -917,10 +917,29 @@ void OSEGD::Impl::check_trace_header(Trace::Header const& hdr)
             if (i >= common.trace_header_extension.size())
                 throw Exception(__FILE__, __LINE__,
                     "no map for trace header extension");
-            for (auto& item : common.trace_header_extension[i])
-                if (hdr.get(item.second.first) == std::nullopt)
+            for (auto& item : common.trace_header_extension[i]) {
+                tmp = hdr.get(item.second.first);
+                if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
+                bool is_float =
+                    item.second.second == Trace::Header::ValueType::ibm ||
+                    item.second.second ==
+                        Trace::Header::ValueType::ieee_single ||
+                    item.second.second ==
+                        Trace::Header::ValueType::ieee_double;
+                if (is_float ? !holds_alternative<double>(*tmp) :
+                               !holds_alternative<int64_t>(*tmp))
+                    throw Exception(__FILE__, __LINE__,
+                        "wrong type of header in trace");
+            }
+        }
+    } else if (ext_hdr_blks) {
+        for (char const* name : { "R_POINT_IDX", "SAMP_NUM", "SENSOR_TYPE" }) {
+            tmp = hdr.get(name);
+            if (tmp && !holds_alternative<int64_t>(*tmp))
+                throw Exception(__FILE__, __LINE__,
+                    "wrong type of header in trace");
         }
     }
 }
-- 
2.43.0


From 9767ea0099b6e2b01ba98c421af8587aaec43e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:28 +0000
Subject: [PATCH 60/63] fix: a SEG-Y rev 2 writer whose file can not be written
 ended the program in its destructor

---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index f5c2b52..1dcd748 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -187,8 +187,12 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 
 OSEGYRev2::~OSEGYRev2()
 {
-    common().file.seekg(0, ios_base::end);
-    if (common().binary_header.num_of_trailer_stanza)
-        write_trailer_stanzas();
+    // file operations throw, an exception must not leave a destructor
+    try {
+        common().file.seekg(0, ios_base::end);
+        if (common().binary_header.num_of_trailer_stanza)
+            write_trailer_stanzas();
+    } catch (...) {
+    }
 }
 } // namespace sedaman
-- 
2.43.0


From 68679d65efce291dd5a1a765abd31487a78953b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:06 +0000
Subject: [PATCH 61/63] fix: SEG-Y writers left the header of a trace they
 refused in the file

---
 include/OSEGY.hpp |  2 ++
 src/OSEGY.cpp     | 20 ++++++++++++++++++++
 src/OSEGYRev0.cpp |  3 +++
 src/OSEGYRev1.cpp |  3 +++
 src/OSEGYRev2.cpp |  8 ++++++++
 5 files changed, 36 insertions(+)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..595742f 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -61,6 +61,8 @@ protected:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_samples_fix(Trace const& t);
+    void check_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 7ee481f..2df2fc3 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -56,6 +56,8 @@ public:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_samples_fix(Trace const& t);
+    void check_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
@@ -464,6 +466,22 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
+// to refuse a trace before any part of it is written
+void OSEGY::Impl::check_samples_var(Trace const& t)
+{
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
+    if (t.samples().size() != static_cast<uint64_t>(get<int64_t>(v)))
+        throw Exception(__FILE__, __LINE__,
+						"unexpected number of samples in trace");
+}
+
+void OSEGY::Impl::check_samples_fix(Trace const& t)
+{
+    if (t.samples().size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"unexpected number of samples in trace");
+}
+
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
     Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
@@ -509,6 +527,8 @@ void OSEGY::write_additional_trace_headers(Trace::Header const& hdr)
 {
     pimpl->write_additional_trace_headers(hdr);
 }
+void OSEGY::check_samples_fix(Trace const& t) { pimpl->check_samples_fix(t); }
+void OSEGY::check_samples_var(Trace const& t) { pimpl->check_samples_var(t); }
 void OSEGY::write_trace_samples_fix(Trace const& t)
 {
     pimpl->write_trace_samples_fix(t);
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index f90711e..f6eaee8 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -60,12 +60,14 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 				sgy.common().binary_header.samp_per_tr) *
 			sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
+            sgy.check_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
     } else {
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
+                sgy.check_samples_var(tr);
                 //throw exception if trace header does not has a samples number
                 Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
@@ -91,6 +93,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 											 sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
             }
+            sgy.check_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index fa79971..2990773 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -70,11 +70,13 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 					sgy.common().binary_header.samp_per_tr) *
 			   	sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
+                sgy.check_samples_fix(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
             };
         } else {
             write_trace = [this](Trace& tr) {
+                sgy.check_samples_var(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_var(tr);
             };
@@ -83,6 +85,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 		//if we have empty bin header we can not assume that traces has
 		//fixed length
 		write_trace = [this](Trace& tr) {
+			sgy.check_samples_var(tr);
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 1dcd748..34be782 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -86,24 +86,28 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -112,6 +116,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
         if (sgy.common().binary_header.fixed_tr_length) {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     set_min_hdrs(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
@@ -119,6 +124,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     set_min_hdrs(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
@@ -126,6 +132,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     set_min_hdrs(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
@@ -133,6 +140,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     set_min_hdrs(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
-- 
2.43.0


From c848afc7e825428813be3d2e985a6d92279d3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 62/63] fix: descriptions of orientation header fields did not
 match the fields

---
 include/CommonSEGD.hpp | 3 +--
 src/CommonSEGD.cpp     | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 9bb489a..a58436d 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1362,8 +1362,7 @@ public:
             ORIENT_TYPE,
             REF_ORIENT_VALID,
             ROTATION_APPLIED,
-            ROT_NORTH,
-            APPLIED,
+            ROT_NORTH_APPLIED,
             GEN_HEADER_TYPE
         };
         ///
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index f7ff049..405ba9d 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -790,6 +790,7 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
     "Rot North Applied",
     "General header type"
 };
-- 
2.43.0


From 0ccafc2140cb4acc383631be4fdde6221ef8469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:29 +0000
Subject: [PATCH 63/63] fix: five words of the default SEG-Y trace header
 mapping had no description

---
 src/CommonSEGY.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index b6cc82f..2576ee6 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -421,8 +421,10 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "SP_NUM_SCALAR", "Scalar to be applied to the SP_NUM." },
 	{ "TR_VAL_UNIT", "Trace value measurement unit. 1 = Pa, 2 = V, 3 = mV, "
 		"4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
-	{ "TRANS_CONST", "Transduction Constant. Transforms trace samples to the "
-		"Transduction Units" },
+	{ "TRANS_CONST_MANT", "Transduction Constant, mantissa. Transforms trace "
+		"samples to the Transduction Units" },
+	{ "TRANS_CONST_EXP", "Transduction Constant, power of ten exponent. "
+		"Transforms trace samples to the Transduction Units" },
 	{ "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, "
 		"5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the "
@@ -437,13 +439,15 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"source orientation. Cross-line." },
 	{ "SOU_I_DIR", "Source Energy Direction with respect to "
 		"source orientation. In-line." },
-	{ "SOURCE_MEASUREMENT", "Source Measurement. Describes the "
-		"source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_MANT", "Source Measurement, mantissa. Describes "
+		"the source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_EXP", "Source Measurement, power of ten exponent. "
+		"Describes the source effort used to generate the trace." },
 	{ "SOU_MEAS_UNIT", "The unit used for the Source Measurement. "
 		"1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
 	{ "R_DEPTH", "Receiver group depth below the surface locacation of "
 		"receiver group." },
-    { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
+    { "NANOSECOND", "Nanoseconds to add to Second of minute." },
 	{ "CABLE_NUM", "Cable number for multi-cable acquisition or "
 		"Recording Device/Sensor ID number." },
 	{ "ADD_TRC_HDR_NUM", "Number of additional trace header extension "
-- 
2.43.0

