From 7aaded0c3cd55ff6ea419c14eb60148247334fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 01/18] fix: do not carry a custom code table over to the next
 delta file

A VCDiffStreamingDecoder that had decoded a delta file with a custom code
table kept interpreting opcodes with that table after StartDecoding() began a
new delta file that uses the default code table.
---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..4351914 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,13 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Reverts to the default code table, discarding the effect of any previous
+  // call to UseCodeTable().
+  //
+  void UseDefaultCodeTable() {
+    code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+  }
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..a8bb389 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,7 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From 03004e3843a97d06d0cbd2ec17b8404707ca8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 02/18] fix: reject a delta file whose custom code table is
 invalid

The result of validating the custom code table was ignored, and the rest of
the delta file was decoded using whichever table happened to be active.
---
 src/vcdecoder.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index a8bb389..733d01c 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -846,7 +846,16 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  // Check the cache sizes first: LastMode() is not meaningful if they are bad.
+  if (!addr_cache_->Init()) {
+    VCD_DFATAL << "Error initializing address cache" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    VCD_ERROR << "Delta file contains an invalid custom code table" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 584df4c4ea67a84ded394e47e00d0b6e6a8411fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 03/18] fix: reject custom code tables nested inside a custom
 code table

A delta file consisting of many nested VCD_CODETABLE headers made the decoder
recurse once per header and overflow the stack.  RFC 3284 section 7 requires
the embedded code table to be encoded with the default code table.
---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 733d01c..0426bdf 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -740,6 +740,14 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // This decoder is decoding an embedded code table, which must use the
+      // default code table (RFC section 7).  Allowing it to embed another
+      // code table would lead to unbounded recursion.
+      VCD_ERROR << "Custom code table must be encoded with the default"
+                   " code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From 3da1d0c8d85b63827acdf9b7f4bf38ebef683b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 04/18] fix: detect excess interleaved data that has not been
 received yet

If the target window was complete but the rest of the interleaved section was
to arrive in a later chunk, the excess bytes were parsed as the next window,
so whether a delta file was accepted depended on how it was split in chunks.
---
 src/vcdecoder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 0426bdf..00b5c48 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1352,6 +1352,12 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   } else {
     // Interleaved format is being used.
     UpdateInstructionPointer(parseable_chunk);
+    if (MoreDataExpected()) {
+      // The rest of the section has not been received yet.
+      VCD_ERROR << "Excess instructions and sizes left over "
+                   "after decoding target window" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
   }
   return RESULT_SUCCESS;
 }
-- 
2.43.0


From 775882d348d48dbee04cd1a5152efceba4072e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 05/18] fix: enforce a maximum target file size that was
 lowered while decoding

If the limit was lowered below the amount of target data already decoded, the
remaining size wrapped around and the limit was no longer enforced.
---
 src/vcdecoder.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 00b5c48..36c3f81 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -990,9 +990,11 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
-  size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
-  if (window_size > remaining_maximum_target_bytes) {
+  // SetMaximumTargetFileSize() may have lowered the limit below the amount of
+  // data already decoded; guard against underflow in that case.
+  if ((total_of_target_window_sizes_ > maximum_target_file_size_) ||
+      (window_size >
+           maximum_target_file_size_ - total_of_target_window_sizes_)) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
               << total_of_target_window_sizes_
-- 
2.43.0


From 28c7a6716bc37707fb19071a7c1effad98d702df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 06/18] fix: reset JSONCodeTableWriter completely in Init()

Encoding an empty target after a non-empty one with the same encoder produced
a lone "]".
---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From aa89195b9002b52c654b85d6d8ec8b3d19f299db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:38 +0000
Subject: [PATCH 07/18] fix: escape the data of RUN instructions in JSON output

---
 src/jsonwriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..e080b9d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,8 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  const string run_data(size, static_cast<char>(byte));
+  JSONEscape(run_data.data(), run_data.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From 90951c3d9e760785cf3dd87b260210aaf34eda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:04 +0000
Subject: [PATCH 08/18] fix: avoid signed overflow when decoding a corrupt NEAR
 address

---
 src/addrcache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..4f7cb26 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -121,7 +121,11 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    // A corrupt encoded address may overflow the sum.  Use unsigned arithmetic
+    // so that the result is a negative address, which is rejected as invalid.
+    return static_cast<VCDAddress>(
+        static_cast<uint32_t>(NearAddress(mode - FirstNearMode())) +
+        static_cast<uint32_t>(encoded_address));
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From f2126852c7d4067ad96a1e8ecb31ea86c094e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:04 +0000
Subject: [PATCH 09/18] fix: report an error if the size of an input file
 cannot be determined

A failing ftell() was interpreted as an enormous file size.
---
 src/vcdiff_main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..42bdbf0 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -212,7 +212,11 @@ bool VCDiffFileBasedCoder::FileSize(FILE* file, size_t* file_size) {
   if (fseek(file, 0, SEEK_END) != 0) {
     return false;
   }
-  *file_size = static_cast<size_t>(ftell(file));
+  const long end_position = ftell(file);
+  if (end_position < 0) {
+    return false;
+  }
+  *file_size = static_cast<size_t>(end_position);
   if (fseek(file, initial_position, SEEK_SET) != 0) {
     return false;
   }
-- 
2.43.0


From 68fc6b188028c0857897df9cb151b52864db5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:04 +0000
Subject: [PATCH 10/18] fix: do not loop forever when the input file is empty

---
 src/vcdiff_main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 42bdbf0..dd6e4ba 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -285,6 +285,11 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
       // Allocate just enough memory to store the entire file
       buffer_size = file_size;
     }
+    if (buffer_size == 0) {
+      // The file is empty.  The buffer must not be empty as well: fread() could
+      // then never reach the end of the file.
+      buffer_size = 1;
+    }
   }
   buffer->resize(buffer_size);
   return true;
-- 
2.43.0


From a6c11492a6bcfe456343748a919dc574b67fa3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:04 +0000
Subject: [PATCH 11/18] fix: report errors that occur when the output file is
 flushed or closed

Data smaller than the stdio buffer is only written when the output is closed.
The result of that was ignored, so vcdiff reported success although the output
was incomplete, for example on a full disk.
---
 src/vcdiff_main.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index dd6e4ba..da69768 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Makes sure that all data passed to WriteOutput() has reached output_file_,
+  // and closes it (unless it is stdout.)  If successful, returns true.  If an
+  // error occurs, writes an error log message and returns false.
+  bool CloseOutputFile();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -345,6 +350,19 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::CloseOutputFile() {
+  FILE* const file = output_file_;
+  output_file_ = NULL;
+  // stdio may still hold buffered data; a write error can show up here.
+  const int result = (file == stdout) ? fflush(file) : fclose(file);
+  if (result != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -442,7 +460,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !CloseOutputFile()) {
     return false;
   }
   output_size += output.size();
@@ -506,7 +524,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !CloseOutputFile()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From 05beb62b41147c355024564d2c7b0de309cb06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:24 +0000
Subject: [PATCH 12/18] fix: discard a partial window when a code table writer
 is initialized again

---
 src/encodetable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index ce017de..34bd4b8 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -114,6 +114,11 @@ bool VCDiffCodeTableWriter::Init(size_t dictionary_size) {
   if (!address_cache_.Init()) {
     return false;
   }
+  // Discard any partial window left behind if an earlier encoding operation was
+  // interrupted (by std::bad_alloc, for example) before Output() was called.
+  instructions_and_sizes_.clear();
+  separate_data_for_add_and_run_.clear();
+  separate_addresses_for_copy_.clear();
   target_length_ = 0;
   last_opcode_index_ = -1;
   return true;
-- 
2.43.0


From ca953fd3910e7d2b90d36e1dc190941eaa2b058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:18 +0000
Subject: [PATCH 13/18] fix: heap overflow building the instruction map of a
 code table with NOOP as first instruction

An opcode whose first instruction is a NOOP is entered into the first
instruction map with its second size, but the map was only dimensioned for
the largest first size.
---
 src/instruction_map.cc | 6 +++++-
 src/instruction_map.h  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..1e0aca2 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include "instruction_map.h"
 #include <string.h>  // memset
+#include <algorithm>  // max
 #include "addrcache.h"
 #include "vcdiff_defs.h"
 
@@ -151,7 +152,10 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             // size2 also counts: see the case where
+                             // inst1 == VCD_NOOP below.
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..7a796ae 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -129,7 +129,7 @@ class VCDiffInstructionMap {
     //
     const int num_instruction_type_modes_;
 
-    // The maximum value of a size1 element in code_table_data
+    // The maximum value of a size1 or size2 element in code_table_data
     //
     const int max_size_1_;
 
-- 
2.43.0


From 8b0c975cfaaf950601ad6210768ddecf3f5ec265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:55 +0000
Subject: [PATCH 14/18] fix: write JSON copy offsets and lengths independently
 of the global locale

---
 src/jsonwriter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index e080b9d..4207dcf 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include <stdio.h>
 #include <string.h>
+#include <locale>
 #include <sstream>
 #include <string>
 #include "logging.h"
@@ -89,6 +90,8 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
     output_.push_back(',');
   }
   std::ostringstream copy_code;
+  // Digit grouping of the global locale would break up the numbers.
+  copy_code.imbue(std::locale::classic());
   copy_code << offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
-- 
2.43.0


From e669fc99bbd657dd8fb6eb98708744d4f7cd36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:23 +0000
Subject: [PATCH 15/18] fix: EncodeChunk() is refused after a failed
 StartEncoding()

If a session was abandoned without FinishEncoding() and the code table writer
then refused the next StartEncoding(), EncodeChunk() was still accepted and
produced windows without a header from a writer in an unknown state.
---
 src/vcencoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 7fe5a6a..2c4e902 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -118,6 +118,9 @@ inline VCDiffStreamingEncoderImpl::VCDiffStreamingEncoderImpl(
 
 inline bool VCDiffStreamingEncoderImpl::StartEncoding(
     OutputStringInterface* out) {
+  // If this call fails, then a session abandoned without FinishEncoding() must
+  // not be continued with the reinitialized writer.
+  encode_chunk_allowed_ = false;
   if (!coder_->Init(engine_->dictionary_size())) {
     VCD_DFATAL << "Internal error: "
                   "Initialization of code table writer failed" << VCD_ENDL;
-- 
2.43.0


From 2a290acd97f07fae6595bb3ffbb1e641610ee433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 16/18] fix: VCDiffCodeTableWriter::Init() forgets the checksum
 of the previous window

---
 src/encodetable.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index 34bd4b8..b1deb54 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -121,6 +121,9 @@ bool VCDiffCodeTableWriter::Init(size_t dictionary_size) {
   separate_addresses_for_copy_.clear();
   target_length_ = 0;
   last_opcode_index_ = -1;
+  // The checksum belongs to a single window.
+  add_checksum_ = false;
+  checksum_ = 0;
   return true;
 }
 
-- 
2.43.0


From b9ec92d4bf0cdc92873fdd6c75e478c986712440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:09 +0000
Subject: [PATCH 17/18] fix: report non-ASCII data in JSON mode only if there
 is some

---
 src/jsonwriter.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index 4207dcf..22489d0 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -121,17 +121,23 @@ bool JSONCodeTableWriter::VerifyDictionary(const char *dictionary,
   // indexes.  To avoid an indexing mismatch and corrupt deltas all
   // characters in the dictionary and target must be single-byte
   // characters, ie 7-bit ASCII.
-  VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
-      " in dictionary" << VCD_ENDL;
-  return IsAscii(dictionary, size);
+  if (!IsAscii(dictionary, size)) {
+    VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
+        " in dictionary" << VCD_ENDL;
+    return false;
+  }
+  return true;
 }
 
 bool JSONCodeTableWriter::VerifyChunk(const char *chunk, size_t size) const {
   // See comment in VerifyDictionary for explanation of ASCII
   // restriction.
-  VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
-      " in target" << VCD_ENDL;
-  return IsAscii(chunk, size);
+  if (!IsAscii(chunk, size)) {
+    VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
+        " in target" << VCD_ENDL;
+    return false;
+  }
+  return true;
 }
 
 bool JSONCodeTableWriter::IsAscii(const char *data, size_t len) {
-- 
2.43.0


From ff572e000554c4e7f96a69890efdb7ca5700b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:09 +0000
Subject: [PATCH 18/18] fix: refuse dictionaries and chunks too large for
 31-bit sizes and addresses

---
 src/vcdiffengine.cc | 5 +++++
 src/vcdiffengine.h  | 9 +++++++++
 src/vcencoder.cc    | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/vcdiffengine.cc b/src/vcdiffengine.cc
index 0060867..bcc5f0f 100644
--- a/src/vcdiffengine.cc
+++ b/src/vcdiffengine.cc
@@ -47,6 +47,11 @@ bool VCDiffEngine::Init() {
                << VCD_ENDL;
     return false;
   }
+  if (!IsTargetSizeSupported(0)) {
+    VCD_ERROR << "Dictionary size " << dictionary_size() << " is too large"
+              << VCD_ENDL;
+    return false;
+  }
   hashed_dictionary_ = BlockHash::CreateDictionaryHash(dictionary_,
                                                        dictionary_size());
   if (!hashed_dictionary_) {
diff --git a/src/vcdiffengine.h b/src/vcdiffengine.h
index 02ede2a..fee14c5 100644
--- a/src/vcdiffengine.h
+++ b/src/vcdiffengine.h
@@ -56,6 +56,15 @@ class VCDiffEngine {
 
   size_t dictionary_size() const { return dictionary_size_; }
 
+  // All sizes and addresses in a delta window are limited to 31 bits.  Returns
+  // true if the dictionary, a target window of the given size, and the headers
+  // of the delta window taken together are guaranteed to fit that limit.
+  bool IsTargetSizeSupported(size_t target_size) const {
+    const size_t kMaximumTotalSize = 0x7FFFFFFF - 64;
+    return (dictionary_size_ <= kMaximumTotalSize) &&
+           (target_size <= kMaximumTotalSize - dictionary_size_);
+  }
+
   // Main worker function.  Finds the best matches between the dictionary
   // (source) and target data, and uses the coder to write a
   // delta file window into *diff.
diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 2c4e902..95e0a4c 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -144,6 +144,12 @@ inline bool VCDiffStreamingEncoderImpl::EncodeChunk(
     VCD_ERROR << "EncodeChunk called before StartEncoding" << VCD_ENDL;
     return false;
   }
+  if (!engine_->IsTargetSizeSupported(len)) {
+    VCD_ERROR << "Target chunk of " << len << " bytes is too large to be encoded"
+                 " with a dictionary of " << engine_->dictionary_size()
+              << " bytes" << VCD_ENDL;
+    return false;
+  }
   if (!coder_->VerifyChunk(data, len)) {
     VCD_ERROR << "Target chunk not valid for writer" << VCD_ENDL;
     return false;
-- 
2.43.0

