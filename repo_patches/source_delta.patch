From 80a00d96f683e0b3ea86e617396da611e77e7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 01/67] verification: make buffer sizes and the parallel
 cut-off configurable under MLIO_VERIF

---
 src/mlio/csv_reader.cc                        |  3 +-
 src/mlio/detail/verification.h                | 42 +++++++++++++++++++
 src/mlio/instance.cc                          |  3 +-
 .../detail/default_chunk_reader.h             |  3 +-
 src/mlio/recordio_protobuf_reader.cc          |  3 +-
 src/mlio/streams/gzip_inflate_stream.cc       |  3 +-
 src/mlio/streams/utf8_input_stream.cc         |  3 +-
 7 files changed, 54 insertions(+), 6 deletions(-)
 create mode 100644 src/mlio/detail/verification.h

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..827a771 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/verification.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -421,7 +422,7 @@ Intrusive_ptr<Example> Csv_reader::decode(const Instance_batch &batch) const
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_VERIF_PARAM(parallel_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If bad example handling mode is pad, we cannot parallelize
diff --git a/src/mlio/detail/verification.h b/src/mlio/detail/verification.h
new file mode 100644
index 0000000..7729627
--- /dev/null
+++ b/src/mlio/detail/verification.h
@@ -0,0 +1,42 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+#include <cstddef>
+
+// MLIO_VERIF_PARAM(name, value) is the constant value, unless the code is
+// built for verification. In that case it is a variable of the verification
+// harness, so that buffer boundaries can be reached with small inputs.
+
+#ifdef MLIO_VERIF
+
+namespace mlio_verif {
+
+extern std::size_t chunk_size;
+extern std::size_t inflate_buffer_size;
+extern std::size_t utf8_buffer_size;
+extern std::size_t instance_buffer_size;
+extern std::size_t parallel_cut_off;
+
+}  // namespace mlio_verif
+
+#define MLIO_VERIF_PARAM(name, value) (::mlio_verif::name)
+
+#else
+
+#define MLIO_VERIF_PARAM(name, value) (value)
+
+#endif
diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..302dd71 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -22,6 +22,7 @@
 
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/verification.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/memory/memory_block.h"
@@ -96,7 +97,7 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
                 block = memory_allocator().allocate(stream.size());
             }
             else {
-                block = memory_allocator().allocate(0x100000);  // 1MiB
+                block = memory_allocator().allocate(MLIO_VERIF_PARAM(instance_buffer_size, 0x100000));  // 1MiB
             }
         }
 
diff --git a/src/mlio/record_readers/detail/default_chunk_reader.h b/src/mlio/record_readers/detail/default_chunk_reader.h
index 2d6c1a6..e4f4862 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.h
+++ b/src/mlio/record_readers/detail/default_chunk_reader.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <utility>
 
+#include "mlio/detail/verification.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_block.h"
 #include "mlio/memory/memory_slice.h"
@@ -51,7 +52,7 @@ public:
 
 private:
     Intrusive_ptr<Input_stream> stream_;
-    std::size_t next_chunk_size_ = 0x200'0000;  // 32 MiB
+    std::size_t next_chunk_size_ = MLIO_VERIF_PARAM(chunk_size, 0x200'0000);  // 32 MiB
     Intrusive_ptr<Mutable_memory_block> chunk_{};
     bool eof_{};
 };
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..8df86f0 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -29,6 +29,7 @@
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
+#include "mlio/detail/verification.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
 #include "mlio/logger.h"
@@ -268,7 +269,7 @@ Intrusive_ptr<Example> Recordio_protobuf_reader::decode(const Instance_batch &ba
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_VERIF_PARAM(parallel_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If we have any sparse features, we cannot decode the example
diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..47a66da 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -17,6 +17,7 @@
 
 #include <utility>
 
+#include "mlio/detail/verification.h"
 #include "mlio/streams/detail/zlib.h"
 #include "mlio/streams/input_stream.h"
 #include "mlio/streams/stream_error.h"
@@ -44,7 +45,7 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
     }
 
     if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
+        buffer_ = inner_->read(MLIO_VERIF_PARAM(inflate_buffer_size, 0x8'0000));  // 512 KiB
 
         // Make sure to reset the position before checking whether we
         // reached the end of the stream; otherwise the function won't
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..56fecfd 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -20,6 +20,7 @@
 
 #include <fmt/format.h>
 
+#include "mlio/detail/verification.h"
 #include "mlio/logger.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/streams/detail/iconv.h"
@@ -116,7 +117,7 @@ Utf8_input_stream::Utf8_input_stream(Intrusive_ptr<Input_stream> inner, Text_enc
 
     converter_ = std::make_unique<Iconv_desc>(std::move(encoding));
 
-    buffer_ = memory_allocator().allocate(0x200'0000);  // 32 MiB
+    buffer_ = memory_allocator().allocate(MLIO_VERIF_PARAM(utf8_buffer_size, 0x200'0000));  // 32 MiB
 
     buffer_pos_ = buffer_->begin();
     buffer_end_ = buffer_->end();
-- 
2.43.0


From f41ac64fb2d4d2132b14dbf21e188948f5856aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 02/67] fix: pad the last example also with
 Last_example_handling::pad_warn

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From 8076731490e4dcda8c055613d9d048b837b9f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 03/67] fix: do not read past the end of the chunk while
 looking for a line break

---
 src/mlio/record_readers/detail/text_line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..6fefcb4 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,7 +47,9 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
+    for (; pos < chars.end(); ++pos) {
+        auto chr = *pos;
+
         if (chr == '\n') {
             break;
         }
-- 
2.43.0


From 5e051c87ee86fa5754dad07e7ff26ac7faee28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 04/67] fix: reject exactly the text lines that are longer than
 max_line_length

The limit was compared with >=, and counted the line break.
---
 src/mlio/record_readers/csv_record_reader.cc | 22 +++++++-------------
 src/mlio/record_readers/csv_record_reader.h  |  4 +---
 src/mlio/record_readers/detail/text_line.cc  |  5 ++++-
 3 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/mlio/record_readers/csv_record_reader.cc b/src/mlio/record_readers/csv_record_reader.cc
index ceb959e..af19ce1 100644
--- a/src/mlio/record_readers/csv_record_reader.cc
+++ b/src/mlio/record_readers/csv_record_reader.cc
@@ -187,10 +187,6 @@ has_carriage:
     goto new_line;  // NOLINT
 
 new_line : {
-    if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
-    }
-
     auto offset = sizeof(char) * as_size(pos - chars.begin());
 
     Memory_slice payload;
@@ -201,15 +197,16 @@ new_line : {
         payload = chunk.first(offset - sizeof(char));
     }
 
+    check_line_length(payload.size());
+
     chunk = chunk.subslice(offset);
 
     return Record{std::move(payload)};
 }
 
 end:
-    if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
-    }
+    // The carriage is not part of the line.
+    check_line_length(state == Parser_state::has_carriage ? chars.size() - 1 : chars.size());
 
     if (ignore_leftover) {
         return {};
@@ -252,14 +249,11 @@ inline bool Csv_record_reader::try_get_next_char(const stdx::span<const char> &c
     return true;
 }
 
-inline void Csv_record_reader::check_line_length(const stdx::span<const char> &chars,
-                                                 stdx::span<const char>::iterator &pos,
-                                                 std::size_t max_line_length)
+inline void Csv_record_reader::check_line_length(std::size_t line_length) const
 {
-    std::size_t num_chars_read = as_size(pos - chars.begin());
-    if (num_chars_read >= max_line_length) {
-        throw Record_too_large_error{
-            fmt::format("The text line exceeds the maximum length of {0:n}.", max_line_length)};
+    if (params_->max_line_length && line_length > *params_->max_line_length) {
+        throw Record_too_large_error{fmt::format(
+            "The text line exceeds the maximum length of {0:n}.", *params_->max_line_length)};
     }
 }
 
diff --git a/src/mlio/record_readers/csv_record_reader.h b/src/mlio/record_readers/csv_record_reader.h
index 594b6bc..a428bed 100644
--- a/src/mlio/record_readers/csv_record_reader.h
+++ b/src/mlio/record_readers/csv_record_reader.h
@@ -52,9 +52,7 @@ private:
                                   stdx::span<const char>::iterator &pos,
                                   char &chr) noexcept;
 
-    static void check_line_length(const stdx::span<const char> &chars,
-                                  stdx::span<const char>::iterator &pos,
-                                  std::size_t max_line_length);
+    void check_line_length(std::size_t line_length) const;
 
     const Csv_params *params_;
 };
diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 6fefcb4..683081d 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -71,7 +71,10 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     std::size_t num_chars_read = as_size(pos - chars.begin());
 
-    if (max_line_length && num_chars_read >= *max_line_length) {
+    // The carriage is not part of the line.
+    std::size_t line_length = has_carriage ? num_chars_read - 1 : num_chars_read;
+
+    if (max_line_length && line_length > *max_line_length) {
         throw Record_too_large_error{
             fmt::format("The text line exceeds the maximum length of {0:n}.", *max_line_length)};
     }
-- 
2.43.0


From 9fdf5275fdb69c37a636ee34646de8aecacf3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 05/67] fix: wait for the byte after a carriage return before
 ending the line

A CR LF pair that spanned two chunks was read as two line breaks.
---
 src/mlio/record_readers/detail/text_line.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 683081d..e7c210a 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -57,6 +57,12 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
         if (chr == '\r') {
             auto next_pos = pos + 1;
 
+            // If there is more data to come, we cannot tell yet whether
+            // the carriage is followed by a new-line character.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             // Check if we have a new line with a new-line character and
             // make sure that we eat the carriage in such case.
             if (next_pos < chars.end() && *next_pos == '\n') {
-- 
2.43.0


From a76016f9033b6c9adfcfe7ff54636d8b414aabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 06/67] fix: skip a UTF-8 BOM only at the beginning of the
 stream

It was skipped in front of any record that happened to be decoded first
after a read, so that the records depended on the chunk boundaries.
---
 include/mlio/record_readers/text_record_reader.h |  2 ++
 src/mlio/record_readers/text_record_reader.cc    | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..6050905 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -52,6 +52,8 @@ private:
 
     MLIO_HIDDEN
     static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    bool is_bom_skipped_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..3d682fa 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -35,11 +35,16 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
         return {};
     }
 
-    if (skip_utf8_bom(chunk, ignore_leftover)) {
-        return decode_text_record(chunk, ignore_leftover);
+    // The BOM can only be at the beginning of the stream.
+    if (!is_bom_skipped_) {
+        if (!skip_utf8_bom(chunk, ignore_leftover)) {
+            return {};
+        }
+
+        is_bom_skipped_ = true;
     }
 
-    return {};
+    return decode_text_record(chunk, ignore_leftover);
 }
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
-- 
2.43.0


From a1c36ce10596174fa7a914b93a951040eda72ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 07/67] fix: start from scratch when the CSV schema is inferred
 again after an error

The column types of the failed attempt were kept, so that a header with
twice as many columns as the data was accepted by the second attempt.
---
 src/mlio/csv_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 827a771..9b1d25a 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -177,6 +177,11 @@ Intrusive_ptr<const Schema> Csv_reader::infer_schema(const std::optional<Instanc
         return {};
     }
 
+    // An earlier attempt to infer the schema might have failed halfway.
+    column_types_.clear();
+    column_ignores_.clear();
+    column_parsers_.clear();
+
     infer_column_types(instance);
 
     set_or_validate_column_names(instance);
-- 
2.43.0


From 773846216f1cbd5839d16219e71b13a5ff28f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 08/67] fix: let parsers own their options

make_parser() returned function objects that referred to the options
passed by the caller.
---
 src/mlio/parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/parser.cc b/src/mlio/parser.cc
index b338d13..8db1bfa 100644
--- a/src/mlio/parser.cc
+++ b/src/mlio/parser.cc
@@ -53,7 +53,7 @@ template<Data_type dt>
 Return_if<dt == Data_type::float32 || dt == Data_type::float64>
 make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
+    return [opts](std::string_view s, Device_array_span arr, std::size_t index) {
         return try_parse_float(s, at<dt>(arr, index), {&opts.nan_values});
     };
 }
@@ -67,7 +67,7 @@ Return_if<dt == Data_type::int8  || dt == Data_type::int16  || dt == Data_type::
 // clang-format on
 make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
+    return [opts](std::string_view s, Device_array_span arr, std::size_t index) {
         return try_parse_int(s, at<dt>(arr, index), {opts.base});
     };
 }
-- 
2.43.0


From a13ac754a182ba00d74a924b4388a958d7c2b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 09/67] fix: honour the configured base when parsing integers

Parser_options::base was documented but ignored.
---
 include/mlio/util/number.h | 2 +-
 src/mlio/util/number.cc    | 9 ++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/mlio/util/number.h b/include/mlio/util/number.h
index a4aabda..bfeb732 100644
--- a/include/mlio/util/number.h
+++ b/include/mlio/util/number.h
@@ -46,7 +46,7 @@ try_parse_float<double>(std::string_view s, double &result, const Float_parse_op
 // clang-format on
 
 struct MLIO_API Int_parse_options {
-    int base{};
+    int base = 10;
 };
 
 template<typename T>
diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..e9b78a7 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -44,11 +44,6 @@ struct parser_traits<double> {
     static constexpr bool (*parse_func)(absl::string_view s, double *result) = absl::SimpleAtod;
 };
 
-template<typename T>
-struct parser_traits<T, std::enable_if_t<std::is_integral_v<T>>> {
-    static constexpr bool (*parse_func)(absl::string_view s, T      *result) = absl::SimpleAtoi;
-};
-
 // clang-format on
 
 template<typename T>
@@ -80,13 +75,13 @@ Parse_result try_parse_float_core(std::string_view s, T &result, const Float_par
 
 template<typename T>
 std::enable_if_t<sizeof(T) >= 4, Parse_result>
-try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
+try_parse_int_core(std::string_view s, T &result, const Int_parse_options &opts) noexcept
 {
     // Do not use 0; otherwise we cannot distinguish between a failure
     // and an overflow for unsigned types.
     T v = 1;
 
-    if (!parser_traits<T>::parse_func(s, &v)) {
+    if (!absl::numbers_internal::safe_strtoi_base(s, &v, opts.base)) {
         if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
             return Parse_result::overflowed;
         }
-- 
2.43.0


From 9935a7d68a54f4651da5acb53a4f3506aec8473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 10/67] fix: zero the padding of a CSV example that had bad
 instances

---
 src/mlio/csv_reader.cc      |  9 +++++++
 src/mlio/detail/clear_row.h | 51 +++++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)
 create mode 100644 src/mlio/detail/clear_row.h

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 9b1d25a..6ddfc90 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/clear_row.h"
 #include "mlio/detail/verification.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
@@ -560,6 +561,14 @@ Csv_reader::decode_ser(Decoder_state &state, const Instance_batch &batch) const
         }
     }
 
+    // A bad instance might have left some of its values in the row right
+    // after the last good instance.
+    if (row_idx < batch.instances().size()) {
+        for (Intrusive_ptr<Tensor> &tensor : *state.tensors) {
+            detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx);
+        }
+    }
+
     return row_idx;
 }
 
diff --git a/src/mlio/detail/clear_row.h b/src/mlio/detail/clear_row.h
new file mode 100644
index 0000000..5aeab68
--- /dev/null
+++ b/src/mlio/detail/clear_row.h
@@ -0,0 +1,51 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+#include <algorithm>
+#include <cstddef>
+
+#include "mlio/data_type.h"
+#include "mlio/tensor.h"
+#include "mlio/util/cast.h"
+
+namespace mlio {
+inline namespace abi_v1 {
+namespace detail {
+
+template<Data_type dt>
+struct clear_row_op {
+    void operator()(Dense_tensor &tensor, std::size_t row_idx)
+    {
+        auto row_size = tensor.strides()[0];
+
+        auto values = tensor.data().as<data_type_t<dt>>();
+
+        auto pos = values.begin() + as_ssize(row_idx) * row_size;
+
+        std::fill_n(pos, row_size, data_type_t<dt>{});
+    }
+};
+
+/// Zero-initializes the specified row of a row-major @ref Dense_tensor.
+inline void clear_row(Dense_tensor &tensor, std::size_t row_idx)
+{
+    dispatch<clear_row_op>(tensor.data_type(), tensor, row_idx);
+}
+
+}  // namespace detail
+}  // namespace abi_v1
+}  // namespace mlio
-- 
2.43.0


From c1afe5b6b1b233fcd8d68e3a3cb3a8a53b6429b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 11/67] fix: discard the values of bad RecordIO-protobuf
 instances when padding

---
 src/mlio/coo_tensor_builder.cc       | 20 ++++++++++++++++++++
 src/mlio/coo_tensor_builder.h        | 15 +++++++++++++++
 src/mlio/recordio_protobuf_reader.cc | 21 +++++++++++++++++++++
 3 files changed, 56 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..e9d60d0 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/coo_tensor_builder.h"
 
+#include <algorithm>
+
 #include "mlio/util/cast.h"
 
 namespace mlio {
@@ -73,6 +75,24 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::discard_indices(std::size_t row_idx)
+{
+    // The indices of the batch dimension are in ascending order.
+    auto &rows = coordinates_[0];
+
+    auto size = as_size(std::lower_bound(rows.begin(), rows.end(), row_idx) - rows.begin());
+
+    for (std::vector<std::size_t> &indices : coordinates_) {
+        if (indices.size() > size) {
+            indices.resize(size);
+        }
+    }
+
+    row_idx_ = row_idx;
+
+    return size;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..ec1f277 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -49,7 +49,14 @@ public:
 
     virtual Intrusive_ptr<Tensor> build() = 0;
 
+    /// Discards everything that was appended for the specified row and
+    /// makes it the next row to append.
+    virtual void discard_row(std::size_t row_idx) = 0;
+
 protected:
+    /// Returns the number of values the rows before @p row_idx have.
+    std::size_t discard_indices(std::size_t row_idx);
+
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
@@ -72,6 +79,8 @@ public:
 
     Intrusive_ptr<Tensor> build() final;
 
+    void discard_row(std::size_t row_idx) final;
+
 private:
     std::vector<value_type> data_{};
 };
@@ -93,6 +102,12 @@ Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
     return build_core(std::move(data));
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::discard_row(std::size_t row_idx)
+{
+    data_.resize(discard_indices(row_idx));
+}
+
 template<Data_type dt>
 struct make_coo_tensor_builder_op {
     std::unique_ptr<Coo_tensor_builder> operator()(const Attribute &attr, std::size_t batch_size)
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 8df86f0..598f239 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -28,6 +28,7 @@
 #include "mlio/coo_tensor_builder.h"
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
+#include "mlio/detail/clear_row.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
 #include "mlio/detail/verification.h"
 #include "mlio/instance.h"
@@ -58,6 +59,8 @@ class Recordio_protobuf_reader::Decoder_state {
 public:
     explicit Decoder_state(const Recordio_protobuf_reader &r, std::size_t batch_size);
 
+    void discard_row(std::size_t row_idx);
+
     const Recordio_protobuf_reader *reader;
     bool warn_bad_instance;
     bool error_bad_example;
@@ -362,6 +365,9 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // A bad instance might have left some of its values behind.
+            state.discard_row(row_idx);
         }
     }
 
@@ -430,6 +436,21 @@ Recordio_protobuf_reader::Decoder_state::Decoder_state(const Recordio_protobuf_r
     init_state(*r.schema(), batch_size);
 }
 
+void Recordio_protobuf_reader::Decoder_state::discard_row(std::size_t row_idx)
+{
+    for (Intrusive_ptr<Tensor> &tensor : tensors) {
+        if (tensor != nullptr) {
+            detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx);
+        }
+    }
+
+    for (std::unique_ptr<Coo_tensor_builder> &builder : coo_tensor_builders) {
+        if (builder != nullptr) {
+            builder->discard_row(row_idx);
+        }
+    }
+}
+
 void Recordio_protobuf_reader::Decoder_state::init_state(const Schema &schema,
                                                          std::size_t batch_size)
 {
-- 
2.43.0


From 0a971d69ceb15039e189573a462f405a52cebd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 12/67] fix: return data from Gzip_inflate_stream::read until
 the end of the stream

---
 src/mlio/streams/gzip_inflate_stream.cc | 44 +++++++++++++++----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index 47a66da..f6483fa 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -44,30 +44,38 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(MLIO_VERIF_PARAM(inflate_buffer_size, 0x8'0000));  // 512 KiB
-
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    auto out = destination;
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+    // We use a loop here to make sure that we return at least one byte
+    // unless we reach the end of the stream. A chunk of the underlying
+    // stream might decode to nothing (e.g. if it only contains the
+    // header or the trailer of a gzip member).
+    while (destination.size() == out.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            // 512 KiB
+            buffer_ = inner_->read(MLIO_VERIF_PARAM(inflate_buffer_size, 0x8'0000));
+
+            // Make sure to reset the position before checking whether
+            // we reached the end of the stream; otherwise the function
+            // won't behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
+
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{
+                        "The zlib stream contains invalid or incomplete deflate data."};
+                }
+
+                return 0;
             }
-
-            return 0;
         }
-    }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    auto out = destination;
-
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From ac4fc786845753b7f05079bd41458d7defab8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 13/67] fix: do not overflow when reading or seeking past the
 end of a memory stream

---
 src/mlio/streams/memory_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..03f5df7 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,7 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    pos_ += as_ssize(std::min(distance, as_size(source_.end() - pos_)));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From 7215e8d0396825d19dba985af3478a540e0bcd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 14/67] fix: convert short UTF-16 and UTF-32 data of
 non-seekable streams

---
 include/mlio/streams/utf8_input_stream.h | 1 +
 src/mlio/streams/utf8_input_stream.cc    | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index d78801c..0fb4b50 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -88,6 +88,7 @@ private:
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
     bool should_fill_buffer_ = true;
+    bool has_preamble_ = false;
     std::array<std::byte, 4> char_buffer_{};
     Memory_span remaining_bits_{};
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 56fecfd..41214b7 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -132,7 +132,7 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
     while (destination.size() == out.size()) {
         if (should_fill_buffer_) {
             fill_buffer();
-            if (buffer_pos_ == buffer_end_) {
+            if (buffer_pos_ == buffer_end_ && !has_preamble_) {
                 // We reached the end of the stream; we should check if
                 // there are unconsumed bytes in the buffer that cannot
                 // be converted.
@@ -145,6 +145,8 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
                 return 0;
             }
 
+            has_preamble_ = false;
+
             // If there were leftover bytes from the previous iteration
             // or call, we now have to reset the position back to the
             // beginning of the buffer.
@@ -220,6 +222,8 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
         buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        has_preamble_ = !value.empty();
     }
 }
 
-- 
2.43.0


From 32c97324ab627777bb61039927ced3155918ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 15/67] fix: convert Latin-1 streams to UTF-8

---
 src/mlio/streams/utf8_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 41214b7..0c6f672 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -293,7 +293,7 @@ Intrusive_ptr<Input_stream>
 make_utf8_stream(Intrusive_ptr<Input_stream> stream, std::optional<Text_encoding> encoding)
 {
     if (encoding != std::nullopt) {
-        if (*encoding == Text_encoding::utf8 || *encoding == Text_encoding::ascii_latin1) {
+        if (*encoding == Text_encoding::utf8) {
             return stream;
         }
     }
-- 
2.43.0


From 1407e87617af947e0d9ca69f90fd0668d3e0d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 16/67] fix: convert the last character of encodings with
 combining characters

---
 src/mlio/streams/detail/iconv.cc      | 19 +++++++++++++++++++
 src/mlio/streams/detail/iconv.h       |  3 +++
 src/mlio/streams/utf8_input_stream.cc |  6 +++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/detail/iconv.cc b/src/mlio/streams/detail/iconv.cc
index 4b62633..b9790db 100644
--- a/src/mlio/streams/detail/iconv.cc
+++ b/src/mlio/streams/detail/iconv.cc
@@ -96,6 +96,25 @@ Iconv_status Iconv_desc::convert(Memory_span &inp, Mutable_memory_span &out)
             encoding_.name())};
 }
 
+void Iconv_desc::flush(Mutable_memory_span &out)
+{
+    auto o_chars = as_span<char>(out);
+
+    auto o_data = o_chars.data();
+    auto o_left = o_chars.size();
+
+    std::size_t r = ::iconv(desc_, nullptr, nullptr, &o_data, &o_left);
+    if (static_cast<std::ptrdiff_t>(r) == -1) {
+        throw std::system_error{
+            current_error_code(),
+            fmt::format(
+                "An unexpected error occurred while trying to convert a byte sequence from {0} to UTF-8.",
+                encoding_.name())};
+    }
+
+    out = out.last(o_left);
+}
+
 }  // namespace detail
 }  // namespace abi_v1
 }  // namespace mlio
diff --git a/src/mlio/streams/detail/iconv.h b/src/mlio/streams/detail/iconv.h
index efbd81e..557261c 100644
--- a/src/mlio/streams/detail/iconv.h
+++ b/src/mlio/streams/detail/iconv.h
@@ -42,6 +42,9 @@ public:
 
     Iconv_status convert(Memory_span &inp, Mutable_memory_span &out);
 
+    // Writes the character that is held back by the converter, if any.
+    void flush(Mutable_memory_span &out);
+
     const Text_encoding &encoding() const noexcept
     {
         return encoding_;
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 0c6f672..a035ffb 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -142,7 +142,11 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
                         converter_->encoding().name())};
                 }
 
-                return 0;
+                // Some encodings (e.g. CP1258) hold back a character
+                // that might get combined with the next one.
+                converter_->flush(out);
+
+                break;
             }
 
             has_preamble_ = false;
-- 
2.43.0


From a2f3357025b551d825824d1feb290da1c35c16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 17/67] fix: report a split RecordIO record that does not end
 in its data store

---
 src/mlio/instance_readers/core_instance_reader.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..07429be 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -126,6 +126,9 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
 
     std::size_t payload_size = 0;
 
+    // All records of a split record must be in the same data store.
+    Data_store *store = store_;
+
     // A split record must start with a 'begin' record...
     if (record->kind() == Record_kind::begin) {
         payload_size += record->payload().size();
@@ -137,19 +140,22 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
     }
 
     // continue with zero or more 'middle' records...
-    while ((record = read_record()) && record->kind() == Record_kind::middle) {
+    while ((record = read_record()) && store_ == store && record->kind() == Record_kind::middle) {
         payload_size += record->payload().size();
 
         records.emplace_back(std::move(*record));
     }
 
     // and end with an 'end' record.
-    if (record && record->kind() == Record_kind::end) {
+    if (record && store_ == store && record->kind() == Record_kind::end) {
         payload_size += record->payload().size();
 
         records.emplace_back(std::move(*record));
     }
     else {
+        // We might have already moved past the data store.
+        store_ = store;
+
         throw_corrupt_split_record_error();
     }
 
-- 
2.43.0


From 6c32777bc460bc96c9d63e4cdc8b543b704728d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 18/67] fix: reject the indices of a sparse tensor that has no
 elements

---
 src/mlio/coo_tensor_builder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index e9d60d0..318e0e9 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -55,6 +55,12 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
 
+            // If one of the inner dimensions is zero, the tensor has no
+            // elements.
+            if (stride == 0) {
+                return false;
+            }
+
             std::size_t dim_idx = idx / stride;
 
             // Make sure that the index is within the dimension.
-- 
2.43.0


From ca00363833f88a238f41b8932f20949520d04b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 19/67] fix: reject a RecordIO-protobuf instance that has a
 feature and a label with the same name

---
 src/mlio/recordio_protobuf_reader.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 598f239..02ffa63 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -519,6 +519,28 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
         num_features_read++;
     }
     for (auto &[label, value] : proto_msg->features()) {
+        // A feature must not have the same name as a prefixed label;
+        // otherwise we would decode both into the same attribute.
+        if (label.compare(0, 6, "label_") == 0 && proto_msg->label().count(label.substr(6)) != 0) {
+            if (state_->warn_bad_instance || state_->error_bad_example) {
+                auto msg = fmt::format(
+                    "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+                    instance_->data_store().id(),
+                    instance_->index(),
+                    label);
+
+                if (state_->warn_bad_instance) {
+                    logger::warn(msg);
+                }
+
+                if (state_->error_bad_example) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         if (!decode_feature(label, value)) {
             return false;
         }
-- 
2.43.0


From b1a57b4623cf31c7cd9fa81a886ca2741d3ef9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 20/67] fix: wait for pipes whose file descriptor does not fit
 in an fd_set

---
 .../streams/sagemaker_pipe_input_stream.cc    | 60 ++++++++++---------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..821fd77 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,15 +15,17 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
+#include <algorithm>
 #include <atomic>
 #include <cerrno>
+#include <limits>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
 #include <utility>
 
 #include <fcntl.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <time.h>  // NOLINT(modernize-deprecated-headers)
 #include <unistd.h>
 
@@ -31,7 +33,6 @@
 
 #include "mlio/detail/error.h"
 #include "mlio/detail/path.h"
-#include "mlio/detail/system_call.h"
 #include "mlio/logger.h"
 #include "mlio/streams/stream_error.h"
 #include "mlio/util/cast.h"
@@ -191,32 +192,35 @@ void Sagemaker_pipe_input_stream::sleep() noexcept
 
 void Sagemaker_pipe_input_stream::wait_for_data()
 {
-    ::fd_set readfds{};
-    // NOLINTNEXTLINE(readability-isolate-declaration)
-    FD_ZERO(&readfds);
-
-    // See https://sourceware.org/bugzilla/show_bug.cgi?id=12373.
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wsign-conversion"
-#endif
-
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-    FD_SET(fifo_fd_.get(), &readfds);
-
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
-    ::timeval tv{};
-    tv.tv_sec = timeout_.count();
-
-    // On Linux if select() is interrupted by a signal handler, the
-    // timeout is modified to indicate the remaining time. This means we
-    // do not need to keep track of it. Note that this is not compliant
-    // with SUSv3.
-    int ready =
-        detail::temp_failure_retry(::select, fifo_fd_.get() + 1, &readfds, nullptr, nullptr, &tv);
+    using std::chrono::milliseconds;
+    using std::chrono::steady_clock;
+
+    ::pollfd pfd{};
+    pfd.fd = fifo_fd_.get();
+    pfd.events = POLLIN;
+
+    constexpr std::chrono::seconds max_timeout =
+        std::chrono::duration_cast<std::chrono::seconds>(
+            milliseconds{std::numeric_limits<int>::max()});
+
+    const milliseconds timeout = std::clamp(timeout_, std::chrono::seconds{}, max_timeout);
+
+    const auto start = steady_clock::now();
+
+    int ready{};
+    while (true) {
+        // If we got interrupted by a signal handler, wait only for the
+        // remaining time.
+        auto elapsed = std::chrono::duration_cast<milliseconds>(steady_clock::now() - start);
+
+        milliseconds remaining = std::max(timeout - elapsed, milliseconds{});
+
+        // Unlike select(), poll() can be used with any file descriptor.
+        ready = ::poll(&pfd, 1, static_cast<int>(remaining.count()));
+        if (ready != -1 || errno != EINTR) {
+            break;
+        }
+    }
 
     if (ready == 0) {
         std::error_code err = std::make_error_code(std::errc::timed_out);
-- 
2.43.0


From fcb0e2fa16dcb13e41970dac9f678e7487f6a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 21/67] fix: use the specified FIFO ID also after an attempt to
 open a channel that is in use

---
 src/mlio/data_stores/sagemaker_pipe.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mlio/data_stores/sagemaker_pipe.cc b/src/mlio/data_stores/sagemaker_pipe.cc
index 1f4e829..da9eb08 100644
--- a/src/mlio/data_stores/sagemaker_pipe.cc
+++ b/src/mlio/data_stores/sagemaker_pipe.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/data_stores/sagemaker_pipe.h"
 
+#include <optional>
+#include <system_error>
 #include <utility>
 
 #include <fmt/format.h>
@@ -46,8 +48,22 @@ Intrusive_ptr<Input_stream> Sagemaker_pipe::open_read() const
 {
     logger::info("The SageMaker pipe '{0}' is being opened.", path_);
 
-    auto stream =
-        make_sagemaker_pipe_input_stream(path_, timeout_, std::exchange(fifo_id_, std::nullopt));
+    std::optional<std::size_t> fifo_id = std::exchange(fifo_id_, std::nullopt);
+
+    Intrusive_ptr<Input_stream> stream{};
+    try {
+        stream = make_sagemaker_pipe_input_stream(path_, timeout_, fifo_id);
+    }
+    catch (const std::system_error &e) {
+        // If the channel is already open, the FIFO ID has not been used.
+        // Note that this is different from a system error that indicates
+        // that the FIFO cannot be accessed.
+        if (e.code() == std::make_error_code(std::errc::permission_denied)) {
+            fifo_id_ = fifo_id;
+        }
+
+        throw;
+    }
 
     if (compression_ == Compression::none) {
         return std::move(stream);
-- 
2.43.0


From 13b0899724cae5eeb9e87d3cf1b1ad24ff8faa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 22/67] fix: release a SageMaker pipe channel only once

---
 src/mlio/streams/sagemaker_pipe_input_stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 821fd77..fe4d4a8 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -112,7 +112,11 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    // Once we release the channel, it can be acquired by another stream;
+    // therefore we must not release it more than once.
+    if (fifo_id_ != -1) {
+        detail::fifo_ids_[path_].exchange(std::exchange(fifo_id_, -1));
+    }
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
-- 
2.43.0


From 0ea86d4de97a4eac8f70ae9b74f26773c6ec163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 23/67] fix: list files whose names differ only in whitespace
 in a fixed order

---
 src/mlio/data_stores/file_list.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 3b4b1cc..8b2c440 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cerrno>
+#include <cstring>
 #include <iterator>
 #include <memory>
 #include <stdexcept>
@@ -65,7 +66,14 @@ std::vector<const char *> get_path_c_strs(stdx::span<const std::string> paths)
 
 inline int natural_sort(const ::FTSENT **a, const ::FTSENT **b)
 {
-    return ::strnatcmp((*a)->fts_name, (*b)->fts_name);
+    int r = ::strnatcmp((*a)->fts_name, (*b)->fts_name);
+    if (r != 0) {
+        return r;
+    }
+
+    // strnatcmp() ignores whitespace. We break the tie to make sure that
+    // the order does not depend on the order of the directory entries.
+    return std::strcmp((*a)->fts_name, (*b)->fts_name);
 }
 
 auto make_fts(stdx::span<const std::string> paths)
-- 
2.43.0


From 1ea0ce713f95689460189567e854c4c6b88ea188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 24/67] fix: do not crash while listing the files of no path

---
 src/mlio/data_stores/file_list.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 8b2c440..1a24799 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -97,6 +97,11 @@ auto make_fts(stdx::span<const std::string> paths)
 std::vector<Intrusive_ptr<Data_store>>
 list_files(stdx::span<const std::string> paths, const File_list_options &opts)
 {
+    // fts_read() must not be called without any path.
+    if (paths.empty()) {
+        return {};
+    }
+
     auto fts = detail::make_fts(paths);
 
     std::string pattern{opts.pattern};
-- 
2.43.0


From afa509fba31989189762f2475dfc7ebe58445271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 25/67] fix: move a memory block to a file when its new size
 exceeds the threshold

---
 src/mlio/memory/file_backed_memory_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..6be5108 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
-- 
2.43.0


From 8c3857ebc88e523aba777a9db7b5b0aab06dd309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 26/67] fix: release the old object of an Intrusive_ptr after
 the new one has been taken

---
 include/mlio/intrusive_ptr.h | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/include/mlio/intrusive_ptr.h b/include/mlio/intrusive_ptr.h
index 08d2d85..51298a3 100644
--- a/include/mlio/intrusive_ptr.h
+++ b/include/mlio/intrusive_ptr.h
@@ -61,9 +61,7 @@ public:
 
     Intrusive_ptr &operator=(std::nullptr_t) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = nullptr;
+        reset(nullptr);
 
         return *this;
     }
@@ -103,9 +101,7 @@ public:
 
     Intrusive_ptr &operator=(Intrusive_ptr &&other) noexcept
     {
-        move_assign(other.ptr_);
-
-        other.ptr_ = nullptr;
+        reset(std::exchange(other.ptr_, nullptr));
 
         return *this;
     }
@@ -115,9 +111,7 @@ public:
     {
         static_assert(std::is_convertible<U *, T *>::value, "U must be convertible to T.");
 
-        move_assign(static_cast<T *>(other.ptr_));
-
-        other.ptr_ = nullptr;
+        reset(static_cast<T *>(std::exchange(other.ptr_, nullptr)));
 
         return *this;
     }
@@ -155,22 +149,21 @@ public:
 private:
     void copy_assign(T *other_ptr) noexcept
     {
-        if (ptr_ == other_ptr) {
-            return;
+        if (other_ptr != nullptr) {
+            intrusive_ptr_inc_ref(other_ptr);
         }
 
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
-
-        increment_ref_count();
+        reset(other_ptr);
     }
 
-    void move_assign(T *other_ptr) noexcept
+    // The old object must be released last. It might be the owner of the
+    // other pointer or have an access to this pointer.
+    void reset(T *new_ptr) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
+        T *old_ptr = std::exchange(ptr_, new_ptr);
+        if (old_ptr != nullptr) {
+            intrusive_ptr_dec_ref(old_ptr);
+        }
     }
 
     void increment_ref_count() noexcept
-- 
2.43.0


From 93510b08f0a91f523830a88eed83a3bf7045ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 27/67] fix: do not access the moved index pointer array of a
 CSR tensor

---
 src/mlio/tensor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..9d6e809 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -181,7 +181,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->size() != num_rows + 1) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From 0bc62e4ad1a948d35792151c8968a89c6ded0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 28/67] fix: compute the extent of a dense tensor without
 overflow

---
 src/mlio/tensor.cc | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index 9d6e809..4586127 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -15,7 +15,8 @@
 
 #include "mlio/tensor.h"
 
-#include <cstdlib>
+#include <algorithm>
+#include <cstddef>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -37,6 +38,13 @@ std::string repr(const Tensor &tensor, std::string_view type_name)
                        fmt::join(tensor.strides(), ", "));
 }
 
+std::size_t abs_stride(std::ptrdiff_t stride) noexcept
+{
+    auto value = static_cast<std::size_t>(stride);
+
+    return stride < 0 ? std::size_t{0} - value : value;
+}
+
 }  // namespace
 }  // namespace detail
 
@@ -99,17 +107,31 @@ void Dense_tensor::validate_data_size() const
         return;
     }
 
+    // A tensor that has a zero-sized dimension has no elements.
+    if (std::find(shape().begin(), shape().end(), std::size_t{0}) != shape().end()) {
+        return;
+    }
+
     auto stride_pos = strides().begin();
 
-    std::size_t last_idx = 0;
-    for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+    // The number of elements of the data array from the last element of
+    // the dimensions that we have already processed.
+    std::size_t remaining = data_->size();
+
+    bool fits = remaining > 0;
+    for (auto dim = shape().begin(); fits && dim != shape().end(); ++dim, ++stride_pos) {
+        std::size_t stride = detail::abs_stride(*stride_pos);
 
-        ++stride_pos;
+        // We should not multiply here as the result can overflow.
+        if (stride != 0 && *dim - 1 > (remaining - 1) / stride) {
+            fits = false;
+        }
+        else {
+            remaining -= (*dim - 1) * stride;
+        }
     }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
+    if (!fits) {
         throw std::invalid_argument{
             "The size of the data array does not match the specified shape."};
     }
-- 
2.43.0


From 931a0535ae5018ca925e47bda604e10f71bcfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 29/67] fix: do not terminate when the indices of a missing
 dimension are requested

---
 include/mlio/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mlio/tensor.h b/include/mlio/tensor.h
index 22590d3..a91a9cd 100644
--- a/include/mlio/tensor.h
+++ b/include/mlio/tensor.h
@@ -157,12 +157,12 @@ public:
         return Device_array_view{*data_};
     }
 
-    Device_array_span indices(std::size_t dim) noexcept
+    Device_array_span indices(std::size_t dim)
     {
         return *coordinates_.at(dim);
     }
 
-    Device_array_view indices(std::size_t dim) const noexcept
+    Device_array_view indices(std::size_t dim) const
     {
         return *coordinates_.at(dim);
     }
-- 
2.43.0


From d2f996bcd3ff8f7085dbe67d2a778cae4d8a3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 30/67] fix: treat an image with a wrong number of channels as
 a bad instance

---
 src/mlio/image_reader.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..1ce81a2 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -281,11 +281,23 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
     }
 
     if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.channels() != 4) {
-        throw std::invalid_argument{fmt::format(
-            "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
-            instance.data_store().id(),
-            instance.index(),
-            decoded_img.channels())};
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
+                instance.data_store().id(),
+                instance.index(),
+                decoded_img.channels());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return cv::Mat{};
     }
 
     return decoded_img;
-- 
2.43.0


From 28a7f57c1f07c39b38dc2da505dc2f40738f2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 31/67] fix: correct the message of a failed image resize
 operation

---
 src/mlio/image_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 1ce81a2..6161b01 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -325,7 +325,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
-- 
2.43.0


From d45d3e666651374745b2e294fa7a4de6fd3cc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 32/67] fix: preserve the alpha channel of an image while
 converting it to RGB

---
 src/mlio/image_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 6161b01..872b125 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -207,7 +207,8 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            cv::cvtColor(
+                tmp, tmp, tmp.channels() == 4 ? cv::COLOR_BGRA2RGBA : cv::COLOR_BGR2RGB);
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
-- 
2.43.0


From dbf9b15eb9cd4bd6d2bf2b1f536153a72192bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 33/67] fix: treat a RecordIO record without an image header as
 a bad instance

---
 src/mlio/image_reader.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 872b125..6de1f7d 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -160,6 +160,25 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
+        if (instance.bits().size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The record of the image #{1:n} in the data store '{0}' is smaller than the image header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         img_buf = instance.bits().subslice(recordio_image_header_offset_);
     }
     else {
-- 
2.43.0


From aa25251590539f72b3cca5c1771e75fb2612f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 34/67] fix: do not deliver zeros for an image that has
 channels of more than 8 bits

---
 src/mlio/image_reader.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 6de1f7d..346bf88 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -320,6 +320,25 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         return cv::Mat{};
     }
 
+    if (decoded_img.depth() != CV_8U) {
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' does not have 8-bit channels.",
+                instance.data_store().id(),
+                instance.index());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return cv::Mat{};
+    }
+
     return decoded_img;
 }
 
-- 
2.43.0


From d6eb1356f1fc299bdc8bd02e738dae62bb017e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 35/67] fix: do not count the padding of an example in the
 column statistics

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index c9f4a9b..b28c722 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -47,6 +47,9 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         const auto &dense_tsr = static_cast<const mlio::Dense_tensor &>(*tensor);
         auto cells = dense_tsr.data().as<std::string>();
 
+        // The last rows of a padded example are not part of the dataset.
+        cells = cells.first(cells.size() - example.padding);
+
         Column_analysis &stats = (*columns_)[feature_idx];
 
         // Used to update the mean.
-- 
2.43.0


From 48444413667becac445ff8487e77ccd20a97278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 36/67] fix: do not turn the mean of a column into NaN after a
 batch without numbers

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index b28c722..55bad22 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -156,10 +156,13 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         }
 
         // Update the mean of numeric values based on the entire range of values.
-        auto ncc = static_cast<double>(numeric_column_count);
-        auto nfc = static_cast<double>(stats.numeric_finite_count);
-        double numeric_column_mean = numeric_column_sum / ncc;
-        stats.numeric_finite_mean += (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        if (numeric_column_count > 0) {
+            auto ncc = static_cast<double>(numeric_column_count);
+            auto nfc = static_cast<double>(stats.numeric_finite_count);
+            double numeric_column_mean = numeric_column_sum / ncc;
+            stats.numeric_finite_mean +=
+                (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        }
 
         // Update average length of string values baseed on entire range of values.
         auto scc = static_cast<double>(string_column_count);
-- 
2.43.0


From 50ade2603bcc7efc5ae4d7a694ccc9a80f9e7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 37/67] fix: compute the average length of a column across all
 of its batches

---
 .../mlio/contrib/insights/column_analyzer.cc       | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 55bad22..74d5cad 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -69,6 +69,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             stats.rows_seen++;
 
+            string_column_count++;
+
             // String analyzers.
             if (cell.empty()) {
                 stats.str_empty_count++;
@@ -83,7 +85,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
 
             string_column_length_sum += cell.size();
-            string_column_count++;
 
             stats.str_cardinality_estimator_.add(cell);
 
@@ -165,10 +166,13 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         }
 
         // Update average length of string values baseed on entire range of values.
-        auto scc = static_cast<double>(string_column_count);
-        auto rows_seen = static_cast<double>(stats.rows_seen);
-        double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
-        stats.str_avg_length += (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        if (string_column_count > 0) {
+            auto scc = static_cast<double>(string_column_count);
+            auto rows_seen = static_cast<double>(stats.rows_seen);
+            double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
+            stats.str_avg_length +=
+                (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        }
     }
 };
 
-- 
2.43.0


From 9da2062b3485fc5a72407cb7e30c178f469d6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 38/67] fix: count captured values also after the capture limit
 has been reached

---
 .../mlio/contrib/insights/column_analyzer.cc        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 74d5cad..25a3fb0 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -142,12 +142,15 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             auto should_capture = capture_columns_->find(feature_idx) != capture_columns_->end();
 
             // Capture the values if specified.
-            if (should_capture && !stats.str_captured_unique_values_overflowed) {
-                if (stats.str_captured_unique_values.size() < max_capture_count_) {
-                    ++stats.str_captured_unique_values[cell];
+            if (should_capture) {
+                auto captured_pos = stats.str_captured_unique_values.find(cell);
+                if (captured_pos != stats.str_captured_unique_values.end()) {
+                    ++captured_pos->second;
                 }
-                else if (stats.str_captured_unique_values.find(cell) ==
-                         stats.str_captured_unique_values.end()) {
+                else if (stats.str_captured_unique_values.size() < max_capture_count_) {
+                    stats.str_captured_unique_values.emplace(cell, 1);
+                }
+                else {
                     // If the value isn't present but we're not adding it
                     // because we're at a limit then we should flag that we
                     // have overflowed.
-- 
2.43.0


From d988b2800af5c7a8fdf6a3a57adeeaeab96bc78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 39/67] fix: include empty cells in the minimum length of a
 column

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 25a3fb0..96aa40b 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -71,6 +71,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             string_column_count++;
 
+            stats.str_min_length = std::min(stats.str_min_length, cell.size());
+
             // String analyzers.
             if (cell.empty()) {
                 stats.str_empty_count++;
@@ -79,7 +81,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
                 continue;
             }
 
-            stats.str_min_length = std::min(stats.str_min_length, cell.size());
             stats.str_max_length = std::max(stats.str_max_length, cell.size());
 
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
-- 
2.43.0


From 22a6bc07f443075739b4e01e1daa90995c1d02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 40/67] fix: return the number of finite values as
 numeric_finite_count

---
 src/mlio-py/mlio/contrib/insights/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 105fee3..ec3eeab 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -99,7 +99,7 @@ PYBIND11_MODULE(insights, m)
     std::vector<std::pair<const char *, size_t Column_analysis::*>> long_stat_names = {
         {"rows_seen", &Column_analysis::rows_seen},
         {"numeric_count", &Column_analysis::numeric_count},
-        {"numeric_finite_count", &Column_analysis::numeric_count},
+        {"numeric_finite_count", &Column_analysis::numeric_finite_count},
         {"numeric_nan_count", &Column_analysis::numeric_nan_count},
         {"numeric_int_count", &Column_analysis::numeric_int_count},
         {"string_empty_count", &Column_analysis::str_empty_count},
-- 
2.43.0


From cce58d47478b39c28898aea51ad556da2895e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 41/67] fix: do not count the leading zeros of zero in the
 cardinality estimator

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
index 08c56a8..a57fbff 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
@@ -43,7 +43,7 @@
 
 #if defined(__has_builtin) && (defined(__GNUC__) || defined(__clang__))
 
-#define _GET_CLZ(x, b) (uint8_t) std::min(b, ::__builtin_clz(x)) + 1
+#define _GET_CLZ(x, b) (uint8_t)((x) == 0 ? (b) : std::min(b, ::__builtin_clz(x))) + 1
 
 #else
 
-- 
2.43.0


From 7b506bb039577367caca805528be5b70d84260be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 42/67] fix: keep the example alive while iterating over its
 features in Python

---
 src/mlio-py/mlio/core/example.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index d9ae92a..a54372a 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -76,10 +76,12 @@ void register_example(py::module &m)
              [](Example &self, std::size_t index) {
                  return index < self.features().size();
              })
-        .def("__iter__",
-             [](Example &self) {
-                 return py::make_iterator(self.features().begin(), self.features().end());
-             })
+        .def(
+            "__iter__",
+            [](Example &self) {
+                return py::make_iterator(self.features().begin(), self.features().end());
+            },
+            py::keep_alive<0, 1>())
         .def("__repr__", &Example::repr)
         .def_property_readonly("schema", &Example::schema, "Gets the schema of the example.")
         .def_readwrite("padding",
-- 
2.43.0


From 11b3df265f6c601bbf8118f2e9bda4619d0cbf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 43/67] fix: convert the strides of NumPy arrays using the size
 of their elements

---
 src/mlio-py/mlio/integ/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 74ac5c7..f7a337a 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -48,7 +48,7 @@ def as_tensor(arr):
 
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides),
+                       strides=tuple(s // arr.itemsize for s in arr.strides),
                        copy=False)
 
 
@@ -58,4 +58,4 @@ def to_tensor(arr):
     """
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides))
+                       strides=tuple(s // arr.itemsize for s in arr.strides))
-- 
2.43.0


From 8bd9482ef4a0f1f3bbe2199d5d780b3eb374b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 44/67] fix: reject Python buffers with gaps, repeated or
 reversed elements

---
 src/mlio-py/mlio/core/py_buffer.cc | 36 ++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index b90449a..72e5d5f 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -15,10 +15,12 @@
 
 #include "py_buffer.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace py = pybind11;
@@ -219,6 +221,36 @@ std::optional<Data_type> get_data_type(const py::buffer_info &info)
     return {};
 }
 
+// Returns a boolean value indicating whether the elements of the buffer
+// fill a single memory block that starts at the address of the buffer.
+bool is_dense(const py::buffer_info &info)
+{
+    if (info.size == 0) {
+        return true;
+    }
+
+    std::vector<std::pair<py::ssize_t, py::ssize_t>> dims{};
+    dims.reserve(info.shape.size());
+
+    for (std::size_t i = 0; i < info.shape.size(); i++) {
+        if (info.shape[i] > 1) {
+            dims.emplace_back(info.strides[i], info.shape[i]);
+        }
+    }
+
+    std::sort(dims.begin(), dims.end());
+
+    py::ssize_t expected_stride = info.itemsize;
+    for (const auto &[stride, dim] : dims) {
+        if (stride != expected_stride) {
+            return false;
+        }
+        expected_stride *= dim;
+    }
+
+    return true;
+}
+
 template<Data_type dt>
 struct Make_cpu_array_op {
     using T = data_type_t<dt>;
@@ -286,6 +318,10 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
         throw std::invalid_argument{"The Python buffer contains an unsupported data type."};
     }
 
+    if (!is_dense(info)) {
+        throw std::invalid_argument{"The Python buffer must have a contiguous memory layout."};
+    }
+
     return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy);
 }
 
-- 
2.43.0


From 5872c75d31bb5f5bab6358568d44844de7de18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 45/67] fix: report invalid UTF-8 in string tensors as an error
 in Python

---
 src/mlio-py/mlio/core/py_device_array.cc | 86 +++++++++++++++++++-----
 src/mlio-py/mlio/core/py_device_array.h  |  4 +-
 src/mlio-py/mlio/core/tensor.cc          |  8 ++-
 src/mlio-py/mlio/integ/numpy.py          |  4 +-
 4 files changed, 80 insertions(+), 22 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 73e138d..184d670 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -15,7 +15,9 @@
 
 #include "py_device_array.h"
 
+#include <exception>
 #include <string>
+#include <vector>
 
 #include "module.h"
 
@@ -33,7 +35,7 @@ Py_device_array::~Py_device_array()
     }
 }
 
-void *Py_device_array::data() noexcept
+void *Py_device_array::data()
 {
     if (span_.data_type() == Data_type::string) {
         return make_or_get_string_buffer();
@@ -44,19 +46,29 @@ void *Py_device_array::data() noexcept
 void *Py_device_array::make_or_get_string_buffer()
 {
     if (string_buf_.empty()) {
-        string_buf_.reserve(span_.size());
-        try {
-            for (py::str obj : span_.as<std::string>()) {
-                string_buf_.push_back(obj.release().ptr());
+        std::vector<py::object> strs{};
+        strs.reserve(span_.size());
+
+        for (const std::string &s : span_.as<std::string>()) {
+            auto size = static_cast<::Py_ssize_t>(s.size());
+
+            ::PyObject *obj = ::PyUnicode_DecodeUTF8(s.data(), size, nullptr);
+            if (obj == nullptr) {
+                ::PyErr_Clear();
+
+                throw py::value_error{
+                    "The string Tensor contains an invalid UTF-8 sequence. Please make sure that "
+                    "you specify an explicit text encoding if the text is supposed to be in a "
+                    "different encoding."};
             }
+
+            strs.push_back(py::reinterpret_steal<py::object>(obj));
         }
-        catch (std::runtime_error &) {
-            PyErr_SetString(
-                PyExc_ValueError,
-                "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
-                "specify an explicit text encoding if the text is supposed to be in a different "
-                "encoding.");
-            return nullptr;
+
+        string_buf_.reserve(strs.size());
+
+        for (py::object &obj : strs) {
+            string_buf_.push_back(obj.release().ptr());
         }
     }
 
@@ -65,6 +77,41 @@ void *Py_device_array::make_or_get_string_buffer()
 
 namespace {
 
+::getbufferproc get_buffer_{};
+
+// pybind11 does not translate the exceptions thrown while a buffer gets
+// acquired.
+int get_buffer(::PyObject *obj, ::Py_buffer *view, int flags)
+{
+    try {
+        return get_buffer_(obj, view, flags);
+    }
+    catch (py::error_already_set &e) {
+        e.restore();
+    }
+    catch (const py::builtin_exception &e) {
+        e.set_error();
+    }
+    catch (const std::exception &e) {
+        ::PyErr_SetString(PyExc_BufferError, e.what());
+    }
+
+    return -1;
+}
+
+}  // namespace
+
+void translate_buffer_exceptions(py::handle type)
+{
+    ::PyBufferProcs &procs = reinterpret_cast<::PyHeapTypeObject *>(type.ptr())->as_buffer;
+
+    get_buffer_ = procs.bf_getbuffer;
+
+    procs.bf_getbuffer = &get_buffer;
+}
+
+namespace {
+
 py::buffer_info to_py_buffer(Py_device_array &arr)
 {
     auto size = static_cast<py::ssize_t>(arr.size());
@@ -178,17 +225,22 @@ void register_device_array(py::module &m)
         .def_property_readonly("kind", &Device::kind, "Gets the kind of the Device.")
         .def_property_readonly("id", &Device::id, "Gets the id of the Device.");
 
-    py::class_<Py_device_array>(m,
-                                "DeviceArray",
-                                py::buffer_protocol(),
-                                "Represents a memory region of a specific data type that is stored "
-                                "on a ``Device``.")
+    py::class_<Py_device_array> device_array(
+        m,
+        "DeviceArray",
+        py::buffer_protocol(),
+        "Represents a memory region of a specific data type that is stored "
+        "on a ``Device``.");
+
+    device_array
         .def_property_readonly("size", &Py_device_array::size, "Gets the size of the array.")
         .def_property_readonly(
             "data_type", &Py_device_array::data_type, "Gets the data type of the array.")
         .def_property_readonly(
             "Device", &Py_device_array::device, "Gets the device on which the array is stored.")
         .def_buffer(&to_py_buffer);
+
+    translate_buffer_exceptions(device_array);
 }
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/py_device_array.h b/src/mlio-py/mlio/core/py_device_array.h
index cafc0c1..4fc0f82 100644
--- a/src/mlio-py/mlio/core/py_device_array.h
+++ b/src/mlio-py/mlio/core/py_device_array.h
@@ -43,7 +43,7 @@ public:
     Py_device_array &operator=(Py_device_array &&) noexcept = default;
 
 public:
-    void *data() noexcept;
+    void *data();
 
     std::size_t size() const noexcept
     {
@@ -74,4 +74,6 @@ private:
     std::vector<PyObject *> string_buf_{};
 };
 
+void translate_buffer_exceptions(pybind11::handle type);
+
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index f63869f..015b4b5 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -126,12 +126,14 @@ void register_tensors(py::module &m)
             },
             "Gets the strides of the Tensor.");
 
-    py::class_<Dense_tensor, Tensor, Intrusive_ptr<Dense_tensor>>(
+    py::class_<Dense_tensor, Tensor, Intrusive_ptr<Dense_tensor>> dense_tensor(
         m,
         "DenseTensor",
         py::buffer_protocol(),
         "Represents a Tensor that stores its data in a contiguous memory "
-        "block.")
+        "block.");
+
+    dense_tensor
         .def(py::init<>(&make_dense_tensor),
              "shape"_a,
              "data"_a,
@@ -145,6 +147,8 @@ void register_tensors(py::module &m)
             "Gets the data of the Tensor.")
         .def_buffer(&to_py_buffer);
 
+    translate_buffer_exceptions(dense_tensor);
+
     py::class_<Coo_tensor, Tensor, Intrusive_ptr<Coo_tensor>>(
         m, "CooTensor", "Represents a Tensor that stores its data in coordinate format.")
         .def(py::init<>(&make_coo_tensor), "shape"_a, "data"_a, "coords"_a, "copy"_a = true)
diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index f7a337a..992c80c 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -24,7 +24,7 @@ def as_numpy(tensor):
         raise ValueError("Only dense tensors can be converted to a NumPy "
                          "array.")
 
-    return np.array(tensor, copy=False)
+    return np.array(memoryview(tensor), copy=False)
 
 
 def to_numpy(tensor):
@@ -35,7 +35,7 @@ def to_numpy(tensor):
         raise ValueError("Only dense tensors can be converted to a NumPy "
                          "array.")
 
-    return np.array(tensor)
+    return np.array(memoryview(tensor))
 
 
 def as_tensor(arr):
-- 
2.43.0


From 417ed82f59f4c66ff7116c53bf737f5ecedc4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 46/67] fix: release the GIL while resetting a data reader in
 Python

---
 src/mlio-py/mlio/core/data_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index bc2c441..80e9c6a 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -608,6 +608,7 @@ void register_data_readers(py::module &m)
              "Returns the ``Schema`` of the dataset.")
         .def("reset",
              &Data_reader::reset,
+             py::call_guard<py::gil_scoped_release>(),
              "Resets the state of the reader. Calling ``read_example()`` the "
              "next time will start reading from the beginning of the dataset.")
         .def("__iter__",
-- 
2.43.0


From 831a126eb0cdd1cd4c58fed70d973da7d94a698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 47/67] fix: acquire the GIL before releasing a Python buffer

---
 src/mlio-py/mlio/core/py_buffer.cc       | 16 ++++++++++++++++
 src/mlio-py/mlio/core/py_memory_block.cc |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index 72e5d5f..4e3e374 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -48,6 +48,22 @@ public:
         : data_{data}, size_{size}, info_{std::move(info)}
     {}
 
+    Py_buffer_container(const Py_buffer_container &) = delete;
+
+    Py_buffer_container(Py_buffer_container &&) noexcept = default;
+
+    ~Py_buffer_container()
+    {
+        py::gil_scoped_acquire acq_gil{};
+
+        info_ = {};
+    }
+
+public:
+    Py_buffer_container &operator=(const Py_buffer_container &) = delete;
+
+    Py_buffer_container &operator=(Py_buffer_container &&) = delete;
+
 public:
     iterator begin() noexcept
     {
diff --git a/src/mlio-py/mlio/core/py_memory_block.cc b/src/mlio-py/mlio/core/py_memory_block.cc
index 9bc970a..5c064e4 100644
--- a/src/mlio-py/mlio/core/py_memory_block.cc
+++ b/src/mlio-py/mlio/core/py_memory_block.cc
@@ -19,11 +19,15 @@ namespace pymlio {
 
 Py_memory_block::~Py_memory_block()
 {
+    pybind11::gil_scoped_acquire acq_gil{};
+
     ::PyBuffer_Release(&buffer_);
 }
 
 py_mutable_memory_block::~py_mutable_memory_block()
 {
+    pybind11::gil_scoped_acquire acq_gil{};
+
     ::PyBuffer_Release(&buffer_);
 }
 
-- 
2.43.0


From f25a317ae3c713a3b4f26d5f0645ff061ce6a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 48/67] fix: release the GIL while a data reader gets
 destructed in Python

---
 src/mlio-py/mlio/core/data_reader.cc | 69 ++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 9 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 80e9c6a..a0a7fdc 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -27,6 +27,55 @@ using namespace pybind11::literals;
 namespace pymlio {
 namespace {
 
+// Releases the GIL while a data reader gets destructed. The destructor of a
+// data reader waits for its background threads which might be in need of the
+// GIL, for instance, to call the log message handler.
+template<typename T>
+class Data_reader_holder {
+public:
+    explicit Data_reader_holder(T *reader) noexcept : reader_{reader}
+    {}
+
+    // NOLINTNEXTLINE(google-explicit-constructor)
+    Data_reader_holder(Intrusive_ptr<T> &&reader) noexcept : reader_{std::move(reader)}
+    {}
+
+    Data_reader_holder(const Data_reader_holder &) = delete;
+
+    Data_reader_holder(Data_reader_holder &&) noexcept = default;
+
+    ~Data_reader_holder()
+    {
+        if (reader_ != nullptr) {
+            py::gil_scoped_release rel_gil{};
+
+            reader_ = nullptr;
+        }
+    }
+
+public:
+    Data_reader_holder &operator=(const Data_reader_holder &) = delete;
+
+    Data_reader_holder &operator=(Data_reader_holder &&) = delete;
+
+public:
+    T *get() const noexcept
+    {
+        return reader_.get();
+    }
+
+private:
+    Intrusive_ptr<T> reader_;
+};
+
+}  // namespace
+}  // namespace pymlio
+
+PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Data_reader_holder<T>, true);
+
+namespace pymlio {
+namespace {
+
 class Py_data_iterator {
 public:
     explicit Py_data_iterator(Data_reader &reader, py::object parent)
@@ -222,7 +271,7 @@ Parser_options make_parser_options(std::unordered_set<std::string> nan_values, i
     return parser_options;
 }
 
-Intrusive_ptr<Csv_reader>
+Data_reader_holder<Csv_reader>
 make_csv_reader(Data_reader_params params, std::optional<Csv_params> csv_params)
 {
     if (csv_params) {
@@ -232,18 +281,19 @@ make_csv_reader(Data_reader_params params, std::optional<Csv_params> csv_params)
     return make_intrusive<Csv_reader>(std::move(params));
 }
 
-Intrusive_ptr<Image_reader>
+Data_reader_holder<Image_reader>
 make_image_reader(Data_reader_params params, Image_reader_params img_params)
 {
     return make_intrusive<Image_reader>(std::move(params), std::move(img_params));
 }
 
-Intrusive_ptr<Recordio_protobuf_reader> make_recordio_protobuf_reader(Data_reader_params params)
+Data_reader_holder<Recordio_protobuf_reader>
+make_recordio_protobuf_reader(Data_reader_params params)
 {
     return make_intrusive<Recordio_protobuf_reader>(std::move(params));
 }
 
-Intrusive_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
+Data_reader_holder<Text_line_reader> make_text_line_reader(Data_reader_params params)
 {
     return make_intrusive<Text_line_reader>(std::move(params));
 }
@@ -586,7 +636,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("nan_values", &Parser_options::nan_values)
         .def_readwrite("number_base", &Parser_options::base);
 
-    py::class_<Data_reader, Py_data_reader, Intrusive_ptr<Data_reader>>(
+    py::class_<Data_reader, Py_data_reader, Data_reader_holder<Data_reader>>(
         m,
         "DataReader",
         "Represents an interface for classes that read examples from a "
@@ -626,7 +676,7 @@ void register_data_readers(py::module &m)
              The returned number can be greater than expected as MLIO
              reads ahead the dataset in background.)");
 
-    py::class_<Csv_reader, Data_reader, Intrusive_ptr<Csv_reader>>(
+    py::class_<Csv_reader, Data_reader, Data_reader_holder<Csv_reader>>(
         m, "CsvReader", "Represents a ``Data_reader`` for reading CSV datasets.")
         .def(py::init<>(&make_csv_reader),
              "data_reader_params"_a,
@@ -640,7 +690,7 @@ void register_data_readers(py::module &m)
                 See ``CsvReaderParams``.
             )");
 
-    py::class_<Image_reader, Data_reader, Intrusive_ptr<Image_reader>>(
+    py::class_<Image_reader, Data_reader, Data_reader_holder<Image_reader>>(
         m, "ImageReader", "Represents a ``Data_reader`` for reading Image datasets.")
         .def(py::init<>(&make_image_reader),
              "data_reader_params"_a,
@@ -654,7 +704,7 @@ void register_data_readers(py::module &m)
                 See ``ImageReaderParams``.
             )");
 
-    py::class_<Recordio_protobuf_reader, Data_reader, Intrusive_ptr<Recordio_protobuf_reader>>(
+    py::class_<Recordio_protobuf_reader, Data_reader, Data_reader_holder<Recordio_protobuf_reader>>(
         m, "RecordIOProtobufReader")
         .def(py::init<>(&make_recordio_protobuf_reader),
              "data_reader_params"_a,
@@ -665,7 +715,8 @@ void register_data_readers(py::module &m)
                 See ``DataReaderParams``.
             )");
 
-    py::class_<Text_line_reader, Data_reader, Intrusive_ptr<Text_line_reader>>(m, "TextLineReader")
+    py::class_<Text_line_reader, Data_reader, Data_reader_holder<Text_line_reader>>(
+        m, "TextLineReader")
         .def(py::init<>(&make_text_line_reader),
              "data_reader_params"_a,
              R"(
-- 
2.43.0


From 03012ef45a70868cfdac2e43f3a2acfc6ad86f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 49/67] fix: release the GIL while reading a memory slice from
 an input stream in Python

---
 src/mlio-py/mlio/core/stream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 711e6e4..480bbeb 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -152,7 +152,10 @@ void register_streams(py::module &m)
              &read_input_stream,
              "buf"_a,
              "Fills the specified buffer with data read from the stream.")
-        .def("read", py::overload_cast<std::size_t>(&Input_stream::read), "size"_a)
+        .def("read",
+             py::overload_cast<std::size_t>(&Input_stream::read),
+             py::call_guard<py::gil_scoped_release>(),
+             "size"_a)
         .def("seek",
              &Input_stream::seek,
              "position"_a,
-- 
2.43.0


From 7ac8f3fc7fcf0b3c66049af7bc49fa5d70984c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 50/67] fix: release the GIL while analyzing a dataset in
 Python

---
 src/mlio-py/mlio/contrib/insights/module.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index ec3eeab..ce9d2cb 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -43,7 +43,13 @@ data_analysis analyze_dataset(mlio::Data_reader &reader,
                               const std::unordered_set<size_t> &capture_columns,
                               std::size_t max_capture_count)
 {
-    mlio::Intrusive_ptr<mlio::Example> example = reader.peek_example();
+    mlio::Intrusive_ptr<mlio::Example> example{};
+    {
+        py::gil_scoped_release rel_gil;
+
+        example = reader.peek_example();
+    }
+
     if (example == nullptr) {
         throw pybind11::stop_iteration("Reached end of File without reading an Example.");
     }
@@ -66,8 +72,12 @@ data_analysis analyze_dataset(mlio::Data_reader &reader,
     Column_analyzer analyzer{column_stats, null_like_list, capture_columns, max_capture_count};
 
     // Iterate over the entire dataset.
-    while ((example = reader.read_example())) {
-        analyzer.analyze(*example);
+    {
+        py::gil_scoped_release rel_gil;
+
+        while ((example = reader.read_example())) {
+            analyzer.analyze(*example);
+        }
     }
 
     auto max_len = std::numeric_limits<std::size_t>::max();
-- 
2.43.0


From 6bf53de6154ff3fede2fd4756b4463d180861ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 51/67] fix: allow replacing the log message handler while
 background threads log

---
 src/mlio/logger.cc | 48 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/mlio/logger.cc b/src/mlio/logger.cc
index b3b2a26..6391f46 100644
--- a/src/mlio/logger.cc
+++ b/src/mlio/logger.cc
@@ -15,8 +15,10 @@
 
 #include "mlio/logger.h"
 
+#include <atomic>
 #include <functional>
-#include <type_traits>
+#include <memory>
+#include <mutex>
 #include <utility>
 
 #include <fmt/format.h>
@@ -26,9 +28,20 @@ inline namespace abi_v1 {
 namespace logger {
 namespace {
 
-Log_message_handler msg_handler_{};
+// Background threads might log while the handler gets replaced; therefore
+// a handler is kept alive until the last call to it returns.
+std::mutex msg_handler_mutex_{};
 
-Log_level level_{Log_level::warning};
+std::shared_ptr<Log_message_handler> msg_handler_{};
+
+std::atomic<Log_level> level_{Log_level::warning};
+
+std::shared_ptr<Log_message_handler> get_message_handler()
+{
+    std::unique_lock<std::mutex> lock{msg_handler_mutex_};
+
+    return msg_handler_;
+}
 
 }  // namespace
 
@@ -36,13 +49,14 @@ namespace detail {
 
 void handle_message(Log_level level, std::string_view msg) noexcept
 {
-    if (msg_handler_ != nullptr) {
-        try {
-            msg_handler_(level, msg);
-        }
-        catch (...) {
+    try {
+        std::shared_ptr<Log_message_handler> handler = get_message_handler();
+        if (handler != nullptr) {
+            (*handler)(level, msg);
         }
     }
+    catch (...) {
+    }
 }
 
 void handle_message(Log_level level, std::string_view format, fmt::format_args args) noexcept
@@ -69,7 +83,23 @@ bool is_enabled_for(Log_level level) noexcept
 
 Log_message_handler set_log_message_handler(Log_message_handler handler) noexcept
 {
-    return std::exchange(logger::msg_handler_, std::move(handler));
+    std::shared_ptr<Log_message_handler> new_handler{};
+    if (handler != nullptr) {
+        new_handler = std::make_shared<Log_message_handler>(std::move(handler));
+    }
+
+    {
+        std::unique_lock<std::mutex> lock{logger::msg_handler_mutex_};
+
+        std::swap(logger::msg_handler_, new_handler);
+    }
+
+    if (new_handler == nullptr) {
+        return {};
+    }
+
+    // The old handler might be in use by another thread.
+    return *new_handler;
 }
 
 void set_log_level(Log_level level) noexcept
-- 
2.43.0


From 8442a75ac539b60e9e0c667afec801009ce407a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 52/67] fix: require a zero-dimensional tensor to have an
 element

---
 src/mlio/tensor.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index 4586127..37da84d 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -103,10 +103,6 @@ void Dense_tensor::accept(Tensor_visitor &visitor) const
 
 void Dense_tensor::validate_data_size() const
 {
-    if (shape().empty()) {
-        return;
-    }
-
     // A tensor that has a zero-sized dimension has no elements.
     if (std::find(shape().begin(), shape().end(), std::size_t{0}) != shape().end()) {
         return;
-- 
2.43.0


From 116f58d75aea86046f5fb8444172d8d722d4f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 53/67] fix: let exported views of a tensor with negative
 strides stay within its memory

---
 src/mlio-py/mlio/core/tensor.cc | 24 ++++++++++++++++++++++++
 src/mlio/integ/dlpack.cc        | 24 +++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index 015b4b5..1848b24 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -60,6 +60,28 @@ make_coo_tensor(Size_vector shape, py::buffer &data, std::vector<py::buffer> &co
     return make_intrusive<Coo_tensor>(std::move(shape), std::move(arr), std::move(coordinates));
 }
 
+// Returns the offset of the first element of the tensor. The first element
+// of a reversed dimension is the last one in the memory.
+py::ssize_t get_offset(const Dense_tensor &tensor) noexcept
+{
+    py::ssize_t offset = 0;
+
+    auto dim = tensor.shape().begin();
+    for (auto stride : tensor.strides()) {
+        if (*dim == 0) {
+            return 0;
+        }
+
+        if (stride < 0 && *dim > 1) {
+            offset -= stride * static_cast<py::ssize_t>(*dim - 1);
+        }
+
+        ++dim;
+    }
+
+    return offset;
+}
+
 py::buffer_info to_py_buffer(Dense_tensor &tensor)
 {
     auto buf = py::cast(tensor).attr("data").cast<py::buffer>();
@@ -80,6 +102,8 @@ py::buffer_info to_py_buffer(Dense_tensor &tensor)
         info.strides.push_back(info.itemsize * stride);
     }
 
+    info.ptr = static_cast<std::byte *>(info.ptr) + get_offset(tensor) * info.itemsize;
+
     return info;
 }
 
diff --git a/src/mlio/integ/dlpack.cc b/src/mlio/integ/dlpack.cc
index b1e3e28..381dcd2 100644
--- a/src/mlio/integ/dlpack.cc
+++ b/src/mlio/integ/dlpack.cc
@@ -123,6 +123,28 @@ std::int64_t *cast_strides(const Ssize_vector &strides) noexcept
 #endif
 }
 
+// Returns the offset of the first element of the tensor. The first element
+// of a reversed dimension is the last one in the memory.
+std::uint64_t get_byte_offset(const Dense_tensor &tensor, const ::DLDataType &dtype) noexcept
+{
+    std::uint64_t offset = 0;
+
+    auto dim = tensor.shape().begin();
+    for (auto stride : tensor.strides()) {
+        if (*dim == 0) {
+            return 0;
+        }
+
+        if (stride < 0 && *dim > 1) {
+            offset += static_cast<std::uint64_t>(-stride) * (*dim - 1);
+        }
+
+        ++dim;
+    }
+
+    return offset * dtype.bits / CHAR_BIT;
+}
+
 // This is a struct that keeps a cyclic reference to its associated
 // DLManagedTensor instance and makes sure that its MLIO tensor stays
 // alive until the DLManagedTensor gets deleted.
@@ -156,7 +178,7 @@ void as_dlpack_op::visit(Dense_tensor &tensor)
     ctx->mt.dl_tensor.ndim = static_cast<int>(tensor.shape().size());
     ctx->mt.dl_tensor.shape = cast_shape(tensor.shape());
     ctx->mt.dl_tensor.strides = cast_strides(tensor.strides());
-    ctx->mt.dl_tensor.byte_offset = 0;
+    ctx->mt.dl_tensor.byte_offset = get_byte_offset(tensor, ctx->mt.dl_tensor.dtype);
 
     ctx->mt.manager_ctx = ctx.get();
 
-- 
2.43.0


From cddb0495e303129b34722043a58fa9528ff5005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 54/67] fix: do not set the identifier of an in-memory store
 while background threads read it

---
 include/mlio/data_stores/in_memory_store.h | 2 +-
 src/mlio/data_stores/in_memory_store.cc    | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/mlio/data_stores/in_memory_store.h b/include/mlio/data_stores/in_memory_store.h
index 779128b..0aa39ed 100644
--- a/include/mlio/data_stores/in_memory_store.h
+++ b/include/mlio/data_stores/in_memory_store.h
@@ -44,7 +44,7 @@ public:
 private:
     Memory_slice chunk_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 /// @}
diff --git a/src/mlio/data_stores/in_memory_store.cc b/src/mlio/data_stores/in_memory_store.cc
index 4e1e8ab..54405ab 100644
--- a/src/mlio/data_stores/in_memory_store.cc
+++ b/src/mlio/data_stores/in_memory_store.cc
@@ -33,6 +33,10 @@ In_memory_store::In_memory_store(Memory_slice chunk, Compression compression)
     if (compression_ == Compression::infer) {
         throw Not_supported_error{"The in-memory store does not support inferring compression."};
     }
+
+    auto *ptr = static_cast<const void *>(chunk_.data());
+
+    id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
 }
 
 Intrusive_ptr<Input_stream> In_memory_store::open_read() const
@@ -51,11 +55,6 @@ Intrusive_ptr<Input_stream> In_memory_store::open_read() const
 
 const std::string &In_memory_store::id() const
 {
-    if (id_.empty()) {
-        auto *ptr = static_cast<const void *>(chunk_.data());
-        id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
-    }
-
     return id_;
 }
 
-- 
2.43.0


From 7e2a974f5e8a05bb5d6ce3a018c2f3d5159f5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 55/67] fix: guard the identifiers of SageMaker pipe channels
 against concurrent access

---
 .../streams/sagemaker_pipe_input_stream.cc    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index fe4d4a8..73cadf2 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -16,9 +16,11 @@
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
 #include <algorithm>
-#include <atomic>
 #include <cerrno>
+#include <cstddef>
 #include <limits>
+#include <mutex>
+#include <string>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
@@ -50,7 +52,18 @@ namespace {
 // instantiated, it replaces the FIFO ID with -1 indicating that it
 // acquired the channel. Right before getting destructed, the stream
 // increments the original FIFO ID and puts it back to the container.
-std::unordered_map<std::string, std::atomic_ptrdiff_t> fifo_ids_{};
+std::unordered_map<std::string, std::ptrdiff_t> fifo_ids_{};
+
+// Guards the container above as streams can be opened and closed by several
+// threads at the same time.
+std::mutex fifo_ids_mutex_{};
+
+std::ptrdiff_t exchange_fifo_id(const std::string &path, std::ptrdiff_t fifo_id)
+{
+    std::unique_lock<std::mutex> lock{fifo_ids_mutex_};
+
+    return std::exchange(fifo_ids_[path], fifo_id);
+}
 
 }  // namespace
 }  // namespace detail
@@ -115,7 +128,7 @@ void Sagemaker_pipe_input_stream::close() noexcept
     // Once we release the channel, it can be acquired by another stream;
     // therefore we must not release it more than once.
     if (fifo_id_ != -1) {
-        detail::fifo_ids_[path_].exchange(std::exchange(fifo_id_, -1));
+        detail::exchange_fifo_id(path_, std::exchange(fifo_id_, -1));
     }
 }
 
@@ -126,7 +139,7 @@ Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
 {
     detail::validate_file_path(path_);
 
-    fifo_id_ = detail::fifo_ids_[path_].exchange(-1);
+    fifo_id_ = detail::exchange_fifo_id(path_, -1);
     if (fifo_id_ == -1) {
         auto err = std::make_error_code(std::errc::permission_denied);
         throw std::system_error{err, "The SageMaker pipe channel is already open."};
-- 
2.43.0


From f0e6842f7bf23b87758c27237740226ccfe75de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 56/67] fix: Make the run state of Parallel_data_reader atomic

The background thread sets the state while the thread that reads the
dataset may look at it without the lock of the queue.
---
 include/mlio/parallel_data_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mlio/parallel_data_reader.h b/include/mlio/parallel_data_reader.h
index db37233..b80ae94 100644
--- a/include/mlio/parallel_data_reader.h
+++ b/include/mlio/parallel_data_reader.h
@@ -109,7 +109,7 @@ private:
     Data_reader_params params_;
     std::unique_ptr<detail::Instance_reader> reader_;
     std::unique_ptr<detail::Instance_batch_reader> batch_reader_;
-    Run_state state_{};
+    std::atomic<Run_state> state_{};
     std::unique_ptr<Graph_data> graph_;
     std::thread thread_{};
     std::deque<Intrusive_ptr<Example>> fill_queue_{};
-- 
2.43.0


From 1eb18f31358afa5a104025b228ec33d9417bc577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 57/67] fix: Read empty seekable streams as instances without
 looping forever

---
 src/mlio/instance.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 302dd71..ed43bc1 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -93,7 +93,8 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
             block = resize_memory_block(block, prev_size * 2);
         }
         else {
-            if (stream.seekable()) {
+            // An empty block would never grow.
+            if (stream.seekable() && stream.size() > 0) {
                 block = memory_allocator().allocate(stream.size());
             }
             else {
-- 
2.43.0


From 40c605f7e0df4975e9fdc2c898271b530a807e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 58/67] fix: remove the temporary file if a file-backed memory
 block cannot be allocated

---
 src/mlio/memory/file_backed_memory_block.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 7f62eba..13c93ff 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -54,13 +54,19 @@ void File_backed_memory_block::make_temporary_file()
 
     fd_ = ::mkstemp(&path.front());
 
-    auto off = static_cast<::off_t>(size_);
-    if (fd_ == -1 || ::ftruncate(fd_.get(), off) != 0) {
+    if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
     }
 
+    // Make sure that the file does not outlive us even if we fail below.
     ::unlink(&path.front());
+
+    auto off = static_cast<::off_t>(size_);
+    if (::ftruncate(fd_.get(), off) != 0) {
+        throw std::system_error{current_error_code(),
+                                "The file-backed memory block cannot be allocated."};
+    }
 }
 
 void File_backed_memory_block::resize(size_type size)
-- 
2.43.0


From 9c8840d5c039f2007209074fdd2559544757c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 59/67] fix: keep file-backed memory blocks intact if they
 cannot be shrunk

---
 src/mlio/memory/file_backed_memory_block.cc | 32 +++++++++------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 13c93ff..f1b3da6 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -23,6 +23,7 @@
 #include <unistd.h>
 
 #include "mlio/detail/error.h"
+#include "mlio/logger.h"
 
 using mlio::detail::current_error_code;
 
@@ -53,7 +54,6 @@ void File_backed_memory_block::make_temporary_file()
     std::string path{"/tmp/mlio-XXXXXX"};
 
     fd_ = ::mkstemp(&path.front());
-
     if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
@@ -76,11 +76,17 @@ void File_backed_memory_block::resize(size_type size)
     }
 
     auto off = static_cast<::off_t>(size);
-    if (::ftruncate(fd_.get(), off) != 0) {
+
+    // If we are about to shrink, the file has to be truncated last;
+    // otherwise, if the mapping cannot be changed, we would be left with
+    // a mapping whose pages do not exist anymore.
+    if (size > size_ && ::ftruncate(fd_.get(), off) != 0) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be resized."};
     }
 
+    bool shrink = size < size_;
+
     if (size_ == 0) {
         data_ = init_memory_map(size);
         size_ = size;
@@ -100,22 +106,7 @@ void File_backed_memory_block::resize(size_type size)
         data_ = static_cast<std::byte *>(addr);
         size_ = size;
 #else
-        std::byte *data{};
-        try {
-            data = init_memory_map(size);
-        }
-        catch (const std::system_error &) {
-            // We already truncated the backing file, but cannot map it
-            // to memory. If the new size is less than the original size
-            // this means we lost the data in the truncated region. In
-            // such case we should abort the process as there is no way
-            // to recover gracefully.
-            if (size_ > size) {
-                std::abort();
-            }
-
-            throw;
-        }
+        std::byte *data = init_memory_map(size);
 
         ::munmap(data_, size_);
 
@@ -123,6 +114,11 @@ void File_backed_memory_block::resize(size_type size)
         size_ = size;
 #endif
     }
+
+    // If this fails, the file is just larger than necessary.
+    if (shrink && ::ftruncate(fd_.get(), off) != 0) {
+        logger::warn("The file of a file-backed memory block cannot be truncated.");
+    }
 }
 
 std::byte *File_backed_memory_block::init_memory_map(std::size_t size)
-- 
2.43.0


From f8bc6b71ca34775f0a422b1eb5bb1d23a41485f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 60/67] fix: do not lose the text that was read before a failed
 read

---
 src/mlio/streams/utf8_input_stream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index a035ffb..2873e6f 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -193,9 +193,11 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
 
 void Utf8_input_stream::fill_buffer()
 {
-    Mutable_memory_span buffer{buffer_pos_, buffer_end_};
+    Mutable_memory_span buffer{buffer_pos_, buffer_->end()};
 
-    std::size_t num_bytes_read = detail::fill_buffer(*inner_, buffer);
+    // We read only once; otherwise, if a subsequent call to read() fails,
+    // we would lose what has been read so far.
+    std::size_t num_bytes_read = inner_->read(buffer);
 
     buffer_end_ = buffer_pos_ + as_ssize(num_bytes_read);
 }
-- 
2.43.0


From ea53dab66cc506ba8185f7d2ed0b1d358f55c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 61/67] fix: do not lose the part of a chunk that was read
 before a failed read

---
 .../detail/default_chunk_reader.cc            | 23 ++++++++++++++++++-
 .../detail/default_chunk_reader.h             |  2 ++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/default_chunk_reader.cc b/src/mlio/record_readers/detail/default_chunk_reader.cc
index 18edd17..57f5f55 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.cc
+++ b/src/mlio/record_readers/detail/default_chunk_reader.cc
@@ -16,6 +16,8 @@
 #include "mlio/record_readers/detail/default_chunk_reader.h"
 
 #include <algorithm>
+#include <exception>
+#include <utility>
 
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/memory/util.h"
@@ -32,6 +34,10 @@ Memory_slice Default_chunk_reader::read_chunk(Memory_span leftover)
         return {};
     }
 
+    if (exception_ptr_) {
+        std::rethrow_exception(std::exchange(exception_ptr_, nullptr));
+    }
+
     bool reuse_buffer = false;
 
     if (chunk_ != nullptr) {
@@ -73,7 +79,22 @@ Memory_slice Default_chunk_reader::read_chunk(Memory_span leftover)
 
     auto remaining = make_span(*chunk_).subspan(leftover.size());
     while (!remaining.empty()) {
-        std::size_t num_bytes_read = stream_->read(remaining);
+        std::size_t num_bytes_read{};
+        try {
+            num_bytes_read = stream_->read(remaining);
+        }
+        catch (const std::exception &) {
+            if (remaining.size() == chunk_->size()) {
+                throw;
+            }
+
+            // We must not lose the data that we have so far. The error
+            // will be reported once the caller asks for more.
+            exception_ptr_ = std::current_exception();
+
+            break;
+        }
+
         if (num_bytes_read == 0) {
             eof_ = true;
 
diff --git a/src/mlio/record_readers/detail/default_chunk_reader.h b/src/mlio/record_readers/detail/default_chunk_reader.h
index e4f4862..992a20c 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.h
+++ b/src/mlio/record_readers/detail/default_chunk_reader.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <utility>
 
 #include "mlio/detail/verification.h"
@@ -55,6 +56,7 @@ private:
     std::size_t next_chunk_size_ = MLIO_VERIF_PARAM(chunk_size, 0x200'0000);  // 32 MiB
     Intrusive_ptr<Mutable_memory_block> chunk_{};
     bool eof_{};
+    std::exception_ptr exception_ptr_{};
 };
 
 }  // namespace detail
-- 
2.43.0


From d1b97f2cb7dc99ba50a650c2733499661ae376fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 62/67] fix: report an error of an instance reader until it
 gets reset

---
 .../instance_readers/instance_reader_base.cc  | 24 +++++++++++++++++--
 .../instance_readers/instance_reader_base.h   |  4 ++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/mlio/instance_readers/instance_reader_base.cc b/src/mlio/instance_readers/instance_reader_base.cc
index a28b2d3..8447c21 100644
--- a/src/mlio/instance_readers/instance_reader_base.cc
+++ b/src/mlio/instance_readers/instance_reader_base.cc
@@ -25,13 +25,13 @@ std::optional<Instance> Instance_reader_base::read_instance()
     if (peeked_instance_) {
         return std::exchange(peeked_instance_, std::nullopt);
     }
-    return read_instance_core();
+    return try_read_instance_core();
 }
 
 std::optional<Instance> Instance_reader_base::peek_instance()
 {
     if (peeked_instance_ == std::nullopt) {
-        peeked_instance_ = read_instance_core();
+        peeked_instance_ = try_read_instance_core();
     }
     return peeked_instance_;
 }
@@ -41,6 +41,26 @@ void Instance_reader_base::reset() noexcept
     reset_core();
 
     peeked_instance_ = {};
+
+    exception_ptr_ = nullptr;
+}
+
+// Once an error occurs, we have to report it until the reader gets reset;
+// otherwise we would silently skip instances.
+std::optional<Instance> Instance_reader_base::try_read_instance_core()
+{
+    if (exception_ptr_) {
+        std::rethrow_exception(exception_ptr_);
+    }
+
+    try {
+        return read_instance_core();
+    }
+    catch (const std::exception &) {
+        exception_ptr_ = std::current_exception();
+
+        throw;
+    }
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/instance_reader_base.h b/src/mlio/instance_readers/instance_reader_base.h
index 965dbaf..9a8417c 100644
--- a/src/mlio/instance_readers/instance_reader_base.h
+++ b/src/mlio/instance_readers/instance_reader_base.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <optional>
 
 #include "mlio/instance.h"
@@ -38,7 +39,10 @@ private:
 
     virtual void reset_core() noexcept = 0;
 
+    std::optional<Instance> try_read_instance_core();
+
     std::optional<Instance> peeked_instance_{};
+    std::exception_ptr exception_ptr_{};
 };
 
 }  // namespace detail
-- 
2.43.0


From 415496b2cf42367b07a9e1b1d92cf39fd151d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 63/67] fix: keep no column names of a corrupt CSV header

---
 src/mlio/csv_reader.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 6ddfc90..e036ef7 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -128,6 +128,10 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
 {
     skip_to_header_row(reader);
 
+    // If the header turns out to be corrupt, we should not keep the names
+    // that precede the corrupt field.
+    std::vector<std::string> names{};
+
     try {
         std::optional<Record> hdr = reader.read_record();
         if (hdr == std::nullopt) {
@@ -143,7 +147,7 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             else {
                 name = params_.name_prefix + tokenizer.value();
             }
-            column_names_.emplace_back(std::move(name));
+            names.emplace_back(std::move(name));
         }
     }
     catch (const Corrupt_record_error &) {
@@ -152,6 +156,8 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             store.id())});
     }
 
+    column_names_ = std::move(names);
+
     // If the header row was blank, we treat it as a single column with
     // an blank name.
     if (column_names_.empty()) {
-- 
2.43.0


From fe06e1ef9218f884fe26b96ad41008adf996f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 64/67] fix: look for the single CSV header in the next data
 store if there was none

Otherwise, after a reset, the header row was read as data.
---
 src/mlio/csv_reader.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index e036ef7..6dd7f11 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -110,15 +110,21 @@ Intrusive_ptr<Record_reader> Csv_reader::make_record_reader(const Data_store &st
         // names and requested us to infer them from the header.
         if (column_names_.empty()) {
             read_names_from_header(store, *reader);
+
+            // If the data store had no header row, we should look for it
+            // in the next data store.
+            if (!column_names_.empty()) {
+                should_read_header = false;
+            }
         }
         else if (should_read_header || !params_.has_single_header) {
             skip_to_header_row(*reader);
 
             // Discard the header row.
-            reader->read_record();
+            if (reader->read_record() != std::nullopt) {
+                should_read_header = false;
+            }
         }
-
-        should_read_header = false;
     }
 
     return std::move(reader);
-- 
2.43.0


From 48169878d028f4e50267e4fb2a4911379b8e2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 65/67] fix: convert one-dimensional COO tensors to a
 coo_matrix

---
 src/mlio-py/mlio/integ/scipy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index f77556d..41fd0fe 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -31,12 +31,16 @@ def to_coo_matrix(tensor):
         raise ValueError("Only one- and two-dimensional COO tensors are "
                          "supported.")
 
+    data = np.array(tensor.data, copy=False)
+
     if len(s) == 1:
         s = (1,) + s
 
-    data = np.array(tensor.data, copy=False)
-    rows = np.array(tensor.indices(0), copy=False)
-    cols = np.array(tensor.indices(1), copy=False)
+        cols = np.array(tensor.indices(0), copy=False)
+        rows = np.zeros_like(cols)
+    else:
+        rows = np.array(tensor.indices(0), copy=False)
+        cols = np.array(tensor.indices(1), copy=False)
 
     return coo_matrix((data, (rows, cols)), s, copy=True)
 
-- 
2.43.0


From 979687f169f23caef262a7d17631713503ba0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 66/67] fix: convert sparse tensors with stored zeros to
 TensorFlow

---
 src/mlio-py/mlio/integ/tensorflow.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/integ/tensorflow.py b/src/mlio-py/mlio/integ/tensorflow.py
index 8121ab8..0bf0501 100644
--- a/src/mlio-py/mlio/integ/tensorflow.py
+++ b/src/mlio-py/mlio/integ/tensorflow.py
@@ -23,11 +23,9 @@ def to_tf(tensor):
     if isinstance(tensor, DenseTensor):
         return tf.convert_to_tensor(as_numpy(tensor))
 
-    mtx = to_coo_matrix(tensor).tocsr()
+    mtx = to_coo_matrix(tensor).tocsr().tocoo()
 
-    non_zero_row_col = mtx.nonzero()
-    indices = np.asmatrix([non_zero_row_col[0], non_zero_row_col[1]])
-    indices = indices.transpose()
+    indices = np.column_stack((mtx.row, mtx.col))
 
     return tf.SparseTensor(indices, mtx.data, mtx.shape)
 
-- 
2.43.0


From befc68d554a669592260c314cdd113144445d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:57 +0000
Subject: [PATCH 67/67] fix: inflate into buffers of more than four gigabytes

zlib counts in unsigned int. The size of a larger buffer was truncated, so
that a read reported bytes it never wrote, or never returned.
---
 src/mlio/streams/detail/zlib.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/detail/zlib.cc b/src/mlio/streams/detail/zlib.cc
index 6bc74ee..f87c85d 100644
--- a/src/mlio/streams/detail/zlib.cc
+++ b/src/mlio/streams/detail/zlib.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/streams/detail/zlib.h"
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
+#include <limits>
 #include <new>
 
 #include "mlio/not_supported_error.h"
@@ -51,8 +54,11 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
 {
     validate_state();
 
-    auto i_buf = as_span<const ::Bytef>(inp);
-    auto o_buf = as_span<::Bytef>(out);
+    // zlib cannot process more than this number of bytes at once.
+    constexpr std::size_t max_size = std::numeric_limits<::uInt>::max();
+
+    auto i_buf = as_span<const ::Bytef>(inp.first(std::min(inp.size(), max_size)));
+    auto o_buf = as_span<::Bytef>(out.first(std::min(out.size(), max_size)));
 
     // We do not use the ZLIB_CONST macro because some older
     // distributions we have to support do not have an up-to-date libz.
@@ -71,8 +77,8 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
         ::inflateReset(&stream_);
     }
 
-    inp = inp.last(stream_.avail_in);
-    out = out.last(stream_.avail_out);
+    inp = inp.subspan(i_buf.size() - stream_.avail_in);
+    out = out.subspan(o_buf.size() - stream_.avail_out);
 }
 
 void Zlib_inflater::validate_state() const
-- 
2.43.0

