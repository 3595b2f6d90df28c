From d53a568ba06cb21e58092823dccc11b121441f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/25] fix: do not keep a custom code table for the next delta
 file

A decoder that had decoded a delta file with a custom code table kept using
that table for every later delta file decoded by the same object, because
nothing ever reverted the code table reader to the default table.
---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..3b3694c 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,13 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Reverts to the default code table, discarding any table that was passed to
+  // UseCodeTable().
+  void UseDefaultCodeTable() {
+    code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+    non_default_code_table_data_.reset();
+  }
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..a8bb389 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,7 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From 944ac95786bb43a11652b1d26cb5a08a7370cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:57 +0000
Subject: [PATCH 02/25] fix: reject a delta file whose custom code table is
 invalid

The result of validating the custom code table was ignored, so that the windows
of such a delta file were decoded using the default code table instead of being
reported as an error.
---
 src/vcdecoder.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index a8bb389..62f366d 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -846,7 +846,15 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  // The cache sizes must be valid before LastMode() can be relied upon.
+  if (!addr_cache_->Init()) {
+    VCD_DFATAL << "Error initializing address cache" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From f815e363c5f0f4edf27406c65e2bee86966578f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:58 +0000
Subject: [PATCH 03/25] fix: limit custom code tables to one level of nesting

The encoded form of a custom code table could itself define a custom code table,
and so on; each level costs seven bytes of input and one recursive decoder, so
that a small malicious delta file overflowed the stack.
---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 62f366d..e4488b9 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -740,6 +740,14 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    // The custom code table is itself encoded as a VCDIFF delta file, which must
+    // use the default code table (RFC section 7).  Allowing it to define another
+    // custom code table would allow unbounded recursion.
+    if (HasPlannedTargetFileSize()) {
+      VCD_ERROR << "A custom code table must be encoded using the default "
+                   "code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From 12b5a98ea8d09f4d8d76a3c622177b86129f9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:59 +0000
Subject: [PATCH 04/25] fix: check the whole length of an interleaved section
 for excess data

If the target window was complete before all of the bytes declared for the
interleaved section had been received, the missing bytes were forgotten.  A
truncated delta file was then accepted, and the result of decoding depended on
how the delta file was divided into chunks.
---
 src/vcdecoder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index e4488b9..3baba7d 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1351,6 +1351,12 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   } else {
     // Interleaved format is being used.
     UpdateInstructionPointer(parseable_chunk);
+    if (interleaved_bytes_expected_ > 0) {
+      // The section is longer than the data that has been received so far.
+      VCD_ERROR << "Excess instructions and sizes expected "
+                   "after decoding target window" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
   }
   return RESULT_SUCCESS;
 }
-- 
2.43.0


From fef5352ee17781b342fe1dc17dfb38f7d9f625e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/25] fix: honor a target file size limit lowered during
 decoding

If the limit was set below the number of bytes already decoded, the computation
of the remaining size wrapped around and the limit was no longer enforced.
---
 src/vcdecoder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 3baba7d..b5740a4 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -989,8 +989,10 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
+  // The limit may have been lowered after some windows were already decoded.
   size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
+      (maximum_target_file_size_ > total_of_target_window_sizes_) ?
+          (maximum_target_file_size_ - total_of_target_window_sizes_) : 0;
   if (window_size > remaining_maximum_target_bytes) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
-- 
2.43.0


From e0cd1f4a4c57b1440c92660fe5b93112af5594fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:27 +0000
Subject: [PATCH 06/25] fix: avoid signed overflow when decoding a NEAR address

A malicious delta file could make the sum of a cached address and the encoded
offset exceed the range of a 32-bit signed integer, which is undefined behavior.
---
 src/addrcache.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..17f0907 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -21,6 +21,7 @@
 #define OPEN_VCDIFF_ADDRCACHE_H_
 
 #include <config.h>
+#include <limits>
 #include <vector>
 #include "vcdiff_defs.h"  // VCDAddress
 
@@ -121,7 +122,11 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    const VCDAddress near_address = NearAddress(mode - FirstNearMode());
+    if (encoded_address > std::numeric_limits<VCDAddress>::max() - near_address) {
+      return RESULT_ERROR;  // The sum would overflow
+    }
+    return near_address + encoded_address;
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From cc771f4d8fa0096ed1e8c180f98ec675e3004848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:27 +0000
Subject: [PATCH 07/25] fix: size the first instruction map for swapped NOOP
 opcodes

For an opcode whose first instruction is NOOP, the second instruction is added
to the first instruction map, whose arrays were sized only for the largest size
of a first instruction.  A valid custom code table could thus cause a heap buffer
overflow in the encoder.
---
 src/instruction_map.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..a08a216 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <config.h>
+#include <algorithm>  // max
 #include "instruction_map.h"
 #include <string.h>  // memset
 #include "addrcache.h"
@@ -151,7 +152,9 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             // size2 is used if inst1 is NOOP; see below.
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0


From bf099105b4f6f27972803f047a23f900affa212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:43 +0000
Subject: [PATCH 08/25] fix: make the creation of the default instruction map
 thread-safe

Encoders that share one dictionary may be used in several threads at once, but
the first of them to start encoding created the default instruction map without
any synchronization.
---
 src/instruction_map.cc | 11 ++++-------
 src/instruction_map.h  |  2 --
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index a08a216..6951c17 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -23,14 +23,11 @@ namespace open_vcdiff {
 
 // VCDiffInstructionMap members and methods
 
-VCDiffInstructionMap* VCDiffInstructionMap::default_instruction_map = NULL;
-
 VCDiffInstructionMap* VCDiffInstructionMap::GetDefaultInstructionMap() {
-  if (!default_instruction_map) {
-    default_instruction_map = new VCDiffInstructionMap(
-        VCDiffCodeTableData::kDefaultCodeTableData,
-        VCDiffAddressCache::DefaultLastMode());
-  }
+  // The initialization of a function-local static variable is thread-safe.
+  static VCDiffInstructionMap* const default_instruction_map =
+      new VCDiffInstructionMap(VCDiffCodeTableData::kDefaultCodeTableData,
+                               VCDiffAddressCache::DefaultLastMode());
   return default_instruction_map;
 }
 
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..ad8e9fc 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -195,8 +195,6 @@ class VCDiffInstructionMap {
     void operator=(const SecondInstructionMap&);
   } second_instruction_map_;
 
-  static VCDiffInstructionMap* default_instruction_map;
-
   // Making these private avoids implicit copy constructor & assignment operator
   VCDiffInstructionMap(const VCDiffInstructionMap&);  // NOLINT
   void operator=(const VCDiffInstructionMap&);
-- 
2.43.0


From 47c826fec30d35928ebf478901b8dfd99919b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:44 +0000
Subject: [PATCH 09/25] fix: reset the state of the JSON writer completely in
 Init()

If an encoder that had already produced a JSON delta was used to encode an empty
target, its output was a stray "]".
---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From a4c810695041de9dfe1db772ec198ef198ef4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:45 +0000
Subject: [PATCH 10/25] fix: escape the data of a RUN instruction in JSON
 output

---
 src/jsonwriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..cd53ebb 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,8 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  const string run_data(size, byte);
+  JSONEscape(run_data.data(), run_data.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From 78c462c248d66f12a24909c68048d7951f5cf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:45 +0000
Subject: [PATCH 11/25] fix: do not loop forever if an input file of vcdiff is
 empty

A zero-length buffer was allocated for an empty file; the end of file was then
never reached, because every attempt to read into that buffer reads nothing.
---
 src/vcdiff_main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..0a6d2e6 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -277,8 +277,9 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
       return false;
     }
     buffer_size = static_cast<size_t>(FLAGS_buffersize);
-    if (file_size < buffer_size) {
-      // Allocate just enough memory to store the entire file
+    if ((file_size > 0) && (file_size < buffer_size)) {
+      // Allocate just enough memory to store the entire file.  (A buffer is also
+      // needed to find the end of an empty file.)
       buffer_size = file_size;
     }
   }
-- 
2.43.0


From 51c92c645e98f1b81ad96596e73222e5dbd9b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:07 +0000
Subject: [PATCH 12/25] fix: report errors that occur when vcdiff flushes its
 output

The output written by vcdiff is buffered, and the result of writing out the last
buffer was never checked.  The exit status was 0 even though some or all of the
output was missing, for example because the disk was full.
---
 src/vcdiff_main.cc | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 0a6d2e6..1076f8f 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Closes output_file_, or flushes it if it is stdout, so that an error writing
+  // any buffered output is not missed.  If successful, returns true.  If an
+  // error occurs, writes an error log message and returns false.
+  bool CloseOutputFile();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -337,6 +342,18 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::CloseOutputFile() {
+  const int result =
+      (output_file_ == stdout) ? fflush(output_file_) : fclose(output_file_);
+  output_file_ = NULL;
+  if (result != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -433,8 +450,11 @@ bool VCDiffFileBasedCoder::Encode() {
       }
     }
   } while (!feof(input_file_));
-  encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!encoder.FinishEncoding(&output)) {
+    std::cerr << "Error trying to finish encoding" << std::endl;
+    return false;
+  }
+  if (!WriteOutput(output) || !CloseOutputFile()) {
     return false;
   }
   output_size += output.size();
@@ -498,7 +518,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !CloseOutputFile()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From 6a9412811b687f5977faae8237960b5992e07dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:42 +0000
Subject: [PATCH 13/25] fix: reject a window whose last opcode exceeds the
 target window

If the first instruction of a double opcode completed the target window, its
second instruction was silently dropped rather than being reported as an excess
instruction.
---
 src/decodetable.h | 6 ++++++
 src/vcdecoder.cc  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index 3b3694c..769c81f 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -128,6 +128,12 @@ class VCDiffCodeTableReader {
     }
   }
 
+  // Returns true if the second instruction of the last opcode read has not yet
+  // been returned by GetNextInstruction().
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
  private:
   // A pointer to the code table.  This is the object that will be used
   // to interpret opcodes in GetNextInstruction().
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index b5740a4..92cedfd 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1329,7 +1329,7 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  if (!instructions_and_sizes_.Empty() || reader_.HasPendingInstruction()) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From 12cd813148653cc6af5201e8a7f4b8e0fac15521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:01 +0000
Subject: [PATCH 14/25] fix: do not report ASCII data as an error in the JSON
 writer

---
 src/jsonwriter.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index cd53ebb..60781d8 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -118,17 +118,23 @@ bool JSONCodeTableWriter::VerifyDictionary(const char *dictionary,
   // indexes.  To avoid an indexing mismatch and corrupt deltas all
   // characters in the dictionary and target must be single-byte
   // characters, ie 7-bit ASCII.
-  VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
-      " in dictionary" << VCD_ENDL;
-  return IsAscii(dictionary, size);
+  if (!IsAscii(dictionary, size)) {
+    VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
+        " in dictionary" << VCD_ENDL;
+    return false;
+  }
+  return true;
 }
 
 bool JSONCodeTableWriter::VerifyChunk(const char *chunk, size_t size) const {
   // See comment in VerifyDictionary for explanation of ASCII
   // restriction.
-  VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
-      " in target" << VCD_ENDL;
-  return IsAscii(chunk, size);
+  if (!IsAscii(chunk, size)) {
+    VCD_ERROR <<  "JSON writer does not allow non-ASCII characters"
+        " in target" << VCD_ENDL;
+    return false;
+  }
+  return true;
 }
 
 bool JSONCodeTableWriter::IsAscii(const char *data, size_t len) {
-- 
2.43.0


From 32242db2e7c51cb64027339dc7027ee4f06d2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 15/25] fix: write the numbers of JSON output in the classic
 locale

---
 src/jsonwriter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index 60781d8..67a42fb 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include <stdio.h>
 #include <string.h>
+#include <locale>
 #include <sstream>
 #include <string>
 #include "logging.h"
@@ -89,6 +90,8 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
     output_.push_back(',');
   }
   std::ostringstream copy_code;
+  // The global locale might insert separators between the digits.
+  copy_code.imbue(std::locale::classic());
   copy_code << offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
-- 
2.43.0


From f73891d26b5f3294bba421468351c6169857246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 16/25] fix: do not allow encoding after a failed restart of
 the encoder

---
 src/vcencoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 7fe5a6a..8fdd046 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -118,6 +118,7 @@ inline VCDiffStreamingEncoderImpl::VCDiffStreamingEncoderImpl(
 
 inline bool VCDiffStreamingEncoderImpl::StartEncoding(
     OutputStringInterface* out) {
+  encode_chunk_allowed_ = false;
   if (!coder_->Init(engine_->dictionary_size())) {
     VCD_DFATAL << "Internal error: "
                   "Initialization of code table writer failed" << VCD_ENDL;
-- 
2.43.0


From 9cdd92fbcc0d457f03125c51d769181405ea8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:24 +0000
Subject: [PATCH 17/25] fix: reset the state of the code table writer
 completely in Init()

---
 src/encodetable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index ce017de..b842081 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -114,8 +114,13 @@ bool VCDiffCodeTableWriter::Init(size_t dictionary_size) {
   if (!address_cache_.Init()) {
     return false;
   }
+  instructions_and_sizes_.clear();
+  separate_data_for_add_and_run_.clear();
+  separate_addresses_for_copy_.clear();
   target_length_ = 0;
   last_opcode_index_ = -1;
+  add_checksum_ = false;
+  checksum_ = 0;
   return true;
 }
 
-- 
2.43.0


From c3f48f17b34b7f06c56912e4ab4a6660f756acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:03 +0000
Subject: [PATCH 18/25] fix: handle an address cache with 254 NEAR modes and no
 SAME modes

---
 src/addrcache.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index 17f0907..7a3cf0c 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -74,9 +74,10 @@ class VCDiffAddressCache {
   // The number of SAME modes is same_cache_size.  Each SAME mode refers to
   // a block of 256 elements of the same_addresses_ array; the lowest-order
   // 8 bits of the address are used to find the element of this block that
-  // may match the desired address value.
+  // may match the desired address value.  If there are 254 NEAR modes and no
+  // SAME modes, then the result does not fit into an unsigned char.
   //
-  unsigned char FirstSameMode() const {
+  int FirstSameMode() const {
     return VCD_FIRST_NEAR_MODE + near_cache_size();
   }
 
-- 
2.43.0


From 9cef941e2a475ad26224dafb3d3dfe1c64cd73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 19/25] fix: make the initialization of the rolling hash
 thread-safe

Two threads initializing their first HashedDictionary (or using their first
VCDiffEncoder) at the same time raced on remove_table_.
---
 src/rolling_hash.h | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/rolling_hash.h b/src/rolling_hash.h
index 95c7edb..b586e33 100644
--- a/src/rolling_hash.h
+++ b/src/rolling_hash.h
@@ -96,11 +96,12 @@ class RollingHash {
   // Perform global initialization that is required in order to instantiate a
   // RollingHash.  This function *must* be called (preferably on startup) by any
   // program that uses a RollingHash.  It is harmless to call this function more
-  // than once.  It is not thread-safe, but calling it from two different
-  // threads at the same time can only cause a memory leak, not incorrect
-  // behavior.  Make sure to call it before spawning any threads that could use
-  // RollingHash.
-  static void Init();
+  // than once, or from several threads at the same time: the initialization of
+  // a function-scope static variable happens exactly once.
+  static void Init() {
+    static const bool initialized = CreateRemoveTable();
+    (void)initialized;
+  }
 
   // Initialize hasher to maintain a window of the specified size.  You need an
   // instance of this type to use UpdateHash(), but Hash() does not depend on
@@ -156,37 +157,34 @@ class RollingHash {
   // We keep a table that maps from any byte "b" to
   //    (- b * pow(kMult, window_size - 1)) % kBase
   static const uint32_t* remove_table_;
+
+  // Called by Init() to populate remove_table_.  Always returns true.
+  static bool CreateRemoveTable();
 };
 
 // For each window_size, fill a 256-entry table such that
 //        the hash value of buffer[0] ... buffer[window_size - 1]
 //      + remove_table_[buffer[0]]
 //     == the hash value of buffer[1] ... buffer[window_size - 1]
-// See the comments in Init(), below, for a description of how the contents of
-// remove_table_ are computed.
+// See the comments in CreateRemoveTable(), below, for a description of how the
+// contents of remove_table_ are computed.
 template<int window_size>
 const uint32_t* RollingHash<window_size>::remove_table_ = NULL;
 
-// Init() checks to make sure that the static object remove_table_ has been
+// CreateRemoveTable() checks to make sure that the static object remove_table_ has been
 // initialized; if not, it does the considerable work of populating it.  Once
 // it's ready, the table can be used for any number of RollingHash objects of
 // the same window_size.
 //
 template<int window_size>
-void RollingHash<window_size>::Init() {
+bool RollingHash<window_size>::CreateRemoveTable() {
   VCD_COMPILE_ASSERT(window_size >= 2,
                      RollingHash_window_size_must_be_at_least_2);
   if (remove_table_ == NULL) {
     // The new object is placed into a local pointer instead of directly into
-    // remove_table_, for two reasons:
-    //   1. remove_table_ is a pointer to const.  The table is populated using
-    //      the non-const local pointer and then assigned to the global const
-    //      pointer once it's ready.
-    //   2. No other thread will ever see remove_table_ pointing to a
-    //      partially-initialized table.  If two threads happen to call Init()
-    //      at the same time, two tables with the same contents may be created
-    //      (causing a memory leak), but the results will be consistent
-    //      no matter which of the two tables is used.
+    // remove_table_, because remove_table_ is a pointer to const.  The table is
+    // populated using the non-const local pointer and then assigned to the
+    // global const pointer once it's ready.
     uint32_t* new_remove_table = new uint32_t[256];
     // Compute multiplier.  Concisely, it is:
     //     pow(kMult, (window_size - 1)) % kBase,
@@ -224,6 +222,7 @@ void RollingHash<window_size>::Init() {
     }
     remove_table_ = new_remove_table;
   }
+  return true;
 }
 
 }  // namespace open_vcdiff
-- 
2.43.0


From b2321ebf17404c5561e5038d8650d0403e75476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 20/25] fix: release the block hash if building it or encoding
 runs out of memory

CreateDictionaryHash(), CreateTargetHash() and EncodeInternal() leaked the
BlockHash if a later allocation, or the caller's output, threw an exception.
---
 src/blockhash.cc    | 20 ++++++++++----------
 src/vcdiffengine.cc | 14 +++++++-------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/blockhash.cc b/src/blockhash.cc
index d5dad83..cfde1e5 100644
--- a/src/blockhash.cc
+++ b/src/blockhash.cc
@@ -20,6 +20,7 @@
 #include "compile_assert.h"
 #include "logging.h"
 #include "rolling_hash.h"
+#include "unique_ptr.h" // auto_ptr, unique_ptr
 
 namespace open_vcdiff {
 
@@ -79,28 +80,27 @@ bool BlockHash::Init(bool populate_hash_table) {
 
 const BlockHash* BlockHash::CreateDictionaryHash(const char* dictionary_data,
                                                  size_t dictionary_size) {
-  BlockHash* new_dictionary_hash = new BlockHash(dictionary_data,
-                                                 dictionary_size,
-                                                 0);
+  UNIQUE_PTR<BlockHash> new_dictionary_hash(new BlockHash(dictionary_data,
+                                                          dictionary_size,
+                                                          0));
   if (!new_dictionary_hash->Init(/* populate_hash_table = */ true)) {
-    delete new_dictionary_hash;
     return NULL;
   } else {
-    return new_dictionary_hash;
+    return new_dictionary_hash.release();
   }
 }
 
 BlockHash* BlockHash::CreateTargetHash(const char* target_data,
                                        size_t target_size,
                                        size_t dictionary_size) {
-  BlockHash* new_target_hash = new BlockHash(target_data,
-                                             target_size,
-                                             static_cast<int>(dictionary_size));
+  UNIQUE_PTR<BlockHash> new_target_hash(
+      new BlockHash(target_data,
+                    target_size,
+                    static_cast<int>(dictionary_size)));
   if (!new_target_hash->Init(/* populate_hash_table = */ false)) {
-    delete new_target_hash;
     return NULL;
   } else {
-    return new_target_hash;
+    return new_target_hash.release();
   }
 }
 
diff --git a/src/vcdiffengine.cc b/src/vcdiffengine.cc
index 0060867..165db11 100644
--- a/src/vcdiffengine.cc
+++ b/src/vcdiffengine.cc
@@ -20,6 +20,7 @@
 #include "google/codetablewriter_interface.h"
 #include "logging.h"
 #include "rolling_hash.h"
+#include "unique_ptr.h" // auto_ptr, unique_ptr
 
 namespace open_vcdiff {
 
@@ -149,14 +150,14 @@ void VCDiffEngine::EncodeInternal(const char* target_data,
     return;
   }
   RollingHash<BlockHash::kBlockSize> hasher;
-  BlockHash* target_hash = NULL;
+  UNIQUE_PTR<BlockHash> target_hash;
   if (look_for_target_matches) {
     // Check matches against previously encoded target data
     // in this same target window, as well as against the dictionary
-    target_hash = BlockHash::CreateTargetHash(target_data,
-                                              target_size,
-                                              dictionary_size());
-    if (!target_hash) {
+    target_hash.reset(BlockHash::CreateTargetHash(target_data,
+                                                  target_size,
+                                                  dictionary_size()));
+    if (!target_hash.get()) {
       VCD_DFATAL << "Instantiation of target hash failed" << VCD_ENDL;
       return;
     }
@@ -177,7 +178,7 @@ void VCDiffEngine::EncodeInternal(const char* target_data,
             candidate_pos,
             next_encode,
             (target_end - next_encode),
-            target_hash,
+            target_hash.get(),
             coder);
     if (bytes_encoded > 0) {
       next_encode += bytes_encoded;  // Advance past COPYed data
@@ -212,7 +213,6 @@ void VCDiffEngine::EncodeInternal(const char* target_data,
   }
   AddUnmatchedRemainder(next_encode, target_end - next_encode, coder);
   coder->Output(diff);
-  delete target_hash;
 }
 
 void VCDiffEngine::Encode(const char* target_data,
-- 
2.43.0


From 3db06f1d03936f87a8892767e060bbb9f447fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 21/25] fix: release the default writer if creating an encoder
 runs out of memory

---
 src/vcencoder.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 8fdd046..aa69553 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -164,15 +164,28 @@ inline bool VCDiffStreamingEncoderImpl::FinishEncoding(
   return true;
 }
 
+// Creates an implementation object that uses a writer of its own.
+static VCDiffStreamingEncoderImpl* create_impl(
+    const HashedDictionary* dictionary,
+    VCDiffFormatExtensionFlags format_extensions,
+    bool look_for_target_matches) {
+  UNIQUE_PTR<CodeTableWriterInterface> writer(create_writer(format_extensions));
+  VCDiffStreamingEncoderImpl* const impl =
+      new VCDiffStreamingEncoderImpl(dictionary,
+                                     format_extensions,
+                                     look_for_target_matches,
+                                     writer.get());
+  writer.release();  // impl owns it now
+  return impl;
+}
+
 VCDiffStreamingEncoder::VCDiffStreamingEncoder(
     const HashedDictionary* dictionary,
     VCDiffFormatExtensionFlags format_extensions,
     bool look_for_target_matches)
-    : impl_(new VCDiffStreamingEncoderImpl(
-          dictionary,
-          format_extensions,
-          look_for_target_matches,
-          create_writer(format_extensions))) { }
+    : impl_(create_impl(dictionary,
+                        format_extensions,
+                        look_for_target_matches)) { }
 
 VCDiffStreamingEncoder::VCDiffStreamingEncoder(
     const HashedDictionary* dictionary,
-- 
2.43.0


From 4ac2ca41481c091b2d790660a9efb306a6d5c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 22/25] fix: VCDiffEncoder was unusable after it ran out of
 memory

If creating the streaming encoder threw an exception, every later call of
Encode() failed because the dictionary had already been initialized.
---
 src/vcencoder.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index aa69553..09632ae 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -221,13 +221,17 @@ bool VCDiffEncoder::EncodeToInterface(const char* target_data,
                                       OutputStringInterface* out) {
   out->clear();
   if (!encoder_) {
+    // Init() must not be called again once it has succeeded, so there must not
+    // be anything left to do that can fail.
+    UNIQUE_PTR<VCDiffStreamingEncoder> encoder(
+        new VCDiffStreamingEncoder(&dictionary_,
+                                   flags_,
+                                   look_for_target_matches_));
     if (!dictionary_.Init()) {
       VCD_ERROR << "Error initializing HashedDictionary" << VCD_ENDL;
       return false;
     }
-    encoder_ = new VCDiffStreamingEncoder(&dictionary_,
-                                          flags_,
-                                          look_for_target_matches_);
+    encoder_ = encoder.release();
   }
   if (!encoder_->StartEncodingToInterface(out)) {
     return false;
-- 
2.43.0


From 9c6e6d822ea82bff17b409617cbc9538ad70cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 23/25] fix: VCDiffDecoder went on with the previous decode
 after running out of memory

If Decode() was left because of an exception, the next call used the state and
the dictionary of the previous one.
---
 src/vcdecoder.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 92cedfd..c9565bd 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1452,18 +1452,38 @@ void VCDiffStreamingDecoder::SetAllowVcdTarget(bool allow_vcd_target) {
   impl_->SetAllowVcdTarget(allow_vcd_target);
 }
 
+namespace {
+
+// Finishes a decode operation that is left because of an exception, so that
+// the decoder can be used again.
+class DecodeOperation {
+ public:
+  explicit DecodeOperation(VCDiffStreamingDecoder* decoder)
+      : decoder_(decoder) { }
+  ~DecodeOperation() { if (decoder_) decoder_->FinishDecoding(); }
+  void Done() { decoder_ = NULL; }
+
+ private:
+  VCDiffStreamingDecoder* decoder_;
+
+  DecodeOperation(const DecodeOperation&);  // NOLINT
+  void operator=(const DecodeOperation&);
+};
+
+}  // anonymous namespace
+
 bool VCDiffDecoder::DecodeToInterface(const char* dictionary_ptr,
                                       size_t dictionary_size,
                                       const string& encoding,
                                       OutputStringInterface* target) {
   target->clear();
   decoder_.StartDecoding(dictionary_ptr, dictionary_size);
-  if (!decoder_.DecodeChunkToInterface(encoding.data(),
-                                       encoding.size(),
-                                       target)) {
-    return false;
-  }
-  return decoder_.FinishDecoding();
+  DecodeOperation operation(&decoder_);
+  const bool decoded = decoder_.DecodeChunkToInterface(encoding.data(),
+                                                       encoding.size(),
+                                                       target);
+  operation.Done();
+  return decoded && decoder_.FinishDecoding();
 }
 
 }  // namespace open_vcdiff
-- 
2.43.0


From 8cf8f4ca664d5d0c52d6d8cfe5a5d244ca2e13ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:14 +0000
Subject: [PATCH 24/25] fix: JSON copy instructions were silently truncated
 when memory ran out

A string stream catches the exception, so the address and the size of a COPY
instruction could be incomplete although encoding was reported as successful.
---
 src/jsonwriter.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index 67a42fb..3f14000 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -15,8 +15,6 @@
 #include <config.h>
 #include <stdio.h>
 #include <string.h>
-#include <locale>
-#include <sstream>
 #include <string>
 #include "logging.h"
 #include "google/jsonwriter.h"
@@ -89,11 +87,13 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
   if (opcode_added_) {
     output_.push_back(',');
   }
-  std::ostringstream copy_code;
-  // The global locale might insert separators between the digits.
-  copy_code.imbue(std::locale::classic());
-  copy_code << offset << "," << size;
-  output_.append(copy_code.str());
+  // A stream would use the global locale, which might insert separators between
+  // the digits, and would drop data silently if there is not enough memory.
+  char copy_code[64];
+  snprintf(copy_code, sizeof(copy_code), "%d,%llu",
+           static_cast<int>(offset),
+           static_cast<unsigned long long>(size));  // NOLINT
+  output_.append(copy_code);
   opcode_added_ = true;
 }
 
-- 
2.43.0


From 7e5e7e639e5349936568bdd50ac7df8cc815ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 25/25] fix: release a custom instruction map if building it
 runs out of memory

---
 src/instruction_map.cc | 20 +++++++-------------
 src/instruction_map.h  | 10 +++++-----
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 6951c17..adcb6b1 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -58,21 +58,15 @@ VCDiffInstructionMap::FirstInstructionMap::FirstInstructionMap(
     int num_insts_and_modes,
     int max_size_1)
     : num_instruction_type_modes_(num_insts_and_modes),
-      max_size_1_(max_size_1) {
-  first_opcodes_ = new OpcodeOrNone*[num_instruction_type_modes_];
-  for (int i = 0; i < num_instruction_type_modes_; ++i) {
-    // There must be at least (max_size_1_ + 1) elements in first_opcodes_
-    // because the element first_opcodes[max_size_1_] will be referenced.
-    first_opcodes_[i] = NewSizeOpcodeArray(max_size_1_ + 1);
-  }
+      max_size_1_(max_size_1),
+      // There must be at least (max_size_1_ + 1) elements for each combination
+      // of inst and mode because the element first_opcodes_[...][max_size_1_]
+      // will be referenced.
+      first_opcodes_(num_instruction_type_modes_,
+                     std::vector<OpcodeOrNone>(max_size_1_ + 1, kNoOpcode)) {
 }
 
-VCDiffInstructionMap::FirstInstructionMap::~FirstInstructionMap() {
-  for (int i = 0; i < num_instruction_type_modes_; ++i) {
-    delete[] first_opcodes_[i];
-  }
-  delete[] first_opcodes_;
-}
+VCDiffInstructionMap::FirstInstructionMap::~FirstInstructionMap() { }
 
 VCDiffInstructionMap::SecondInstructionMap::SecondInstructionMap(
     int num_insts_and_modes,
diff --git a/src/instruction_map.h b/src/instruction_map.h
index ad8e9fc..ee1d30f 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -26,6 +26,7 @@
 #define OPEN_VCDIFF_INSTRUCTION_MAP_H_
 
 #include <config.h>
+#include <vector>
 #include "codetable.h"
 #include "vcdiff_defs.h"
 
@@ -134,17 +135,16 @@ class VCDiffInstructionMap {
     const int max_size_1_;
 
     // There are two levels to first_opcodes_:
-    // 1) A dynamically-allocated pointer array of size
+    // 1) An array of size
     //    num_instruction_type_modes_ (one element for each combination of inst
-    //    and mode.)  Every element of this array is non-NULL and contains
-    //    a pointer to:
-    // 2) A dynamically-allocated array of OpcodeOrNone values, with one element
+    //    and mode.)  Every element of this array is:
+    // 2) An array of OpcodeOrNone values, with one element
     //    for each possible first instruction size (size1) in the code table.
     //    (In the default code table, for example, the maximum size used is 18,
     //    so these arrays would have 19 elements representing values 0
     //    through 18.)
     //
-    OpcodeOrNone** first_opcodes_;
+    std::vector<std::vector<OpcodeOrNone> > first_opcodes_;
 
     // Making these private avoids implicit copy constructor
     // and assignment operator
-- 
2.43.0

