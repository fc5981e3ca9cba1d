From 149ba50994a1397720e3aca55bba67010adca5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 01/29] fix: mark and sweep the most recently allocated node in
 GCPool::GC too

---
 src/configuration.h | 2 +-
 src/pool.h          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..ab58bad 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -72,4 +72,4 @@ class Configuration {
 
 }  // namespace pocketkaldi
 
-#endif  // POCKETKALDI_CONFIGURATION_H_
\ No newline at end of file
+#endif  // POCKETKALDI_CONFIGURATION_H_
\ No newline at end of file
diff --git a/src/pool.h b/src/pool.h
index 0fc9198..7441fd8 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -184,7 +184,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     // Unmark all elements
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
@@ -217,7 +217,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     int free_count = 0;
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
-- 
2.43.0


From 5b948dfa98ac124844ae937781b11492a5e2c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 02/29] fix: destroy only the constructed elements in
 Pool::Clear

---
 src/pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 7441fd8..bf52ac6 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -84,8 +84,8 @@ class Pool {
         }
       }
 
-      // The last block
-      T *last_block = blocks_.back();
+      // The last block in use
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From 78844cd3fd77bf03e54fa2aebf29049ae17b165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 03/29] fix: give replaced and pruned tokens back to the pool

---
 src/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..4c5296e 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -170,6 +170,7 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      toks_pool_.Dealloc(toks_[tok_idx]);
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
     } else {
       return false;
@@ -339,7 +340,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From f63c0d793bbb704ce7f4e87458a0ee5c7ff11f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 04/29] fix: do not read the first token of an empty beam in
 GetCutoff

---
 src/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index 4c5296e..94f9fd5 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -181,6 +181,8 @@ bool Decoder::InsertTok(
 
 double Decoder::GetCutoff(float *adaptive_beam, Token **best_tok) {
   double best_cost = INFINITY;
+  *best_tok = nullptr;
+  if (prev_toks_.empty()) return INFINITY;
   *best_tok = prev_toks_[0];
 
   costs_.clear();
-- 
2.43.0


From 1ba68fa585c2375c10f79ba0d8aa65dea67dfdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 05/29] fix: count the final cost of the best path only once

---
 src/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 94f9fd5..f81ca16 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -430,8 +430,8 @@ Decoder::Hypothesis Decoder::BestPath() {
     assert(words.size() < 100000);
   }
 
+  // Final cost was already added into best_cost at the end of stream
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From 922ad3cb3088e2b41044ab4d28a4fb2368c87eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 06/29] fix: free the recognizer itself in ce_stt_destroy

---
 src/ce_stt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..4c696b2 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -251,6 +251,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From 1d2c66e4abaf4c651d754466c6e315560b88ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:31 +0000
Subject: [PATCH 07/29] fix: check the utterance before using it in
 ce_stt_end_of_stream

---
 src/ce_stt.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 4c696b2..740c967 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -343,11 +343,10 @@ pasco_process_failed:
 
 void ce_stt_end_of_stream(ce_utt_t *c_utt) {
   PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
-
   if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
     return;
   }
+  ce_utt_internal_t *utt = c_utt->internal;
   const ce_stt_t *recognizer = c_utt->internal->recognizer;
 
   // Process remained frames in AM
-- 
2.43.0


From c5c3fa5959d163131d2d5d578654f6ef9bb98297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 08/29] fix: return the error of a failed row in Matrix::Read

---
 src/matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..2e23160 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -175,7 +175,7 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   Vector<Real> row_read;
   for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
     SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
+    PK_CHECK_STATUS(row_read.Read(fd));
     if (row_read.Dim() != this->NumCols()) {
       return Status::Corruption(util::Format(
           "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-- 
2.43.0


From 306f69da6fcbb0ad5168d14437cfb8fbc7a91012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 09/29] fix: refuse vectors and matrices with a negative size

---
 src/matrix.cc | 8 ++++++++
 src/vector.cc | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 2e23160..bf65671 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,6 +169,14 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected size {} x {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..47eaaef 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -282,7 +282,7 @@ Status Vector<Real>::Read(util::ReadableFile *fd) {
   int32_t dim;
   status = fd->ReadValue<int32_t>(&dim);
   if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
     return Status::Corruption(util::Format(
         "section_size = {} * {} + 4 expected, but {} found: {}",
         dim,
-- 
2.43.0


From 34c42190daac82f9b64ec0c1210a31677afcd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 10/29] fix: report a failure of ce_stt_process in the command
 line program

---
 src/main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cc b/src/main.cc
index ce1c41f..0725372 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -40,7 +40,9 @@ std::string ProcessAudio(ce_stt_t *recognizer, const std::string &filename) {
     int bytes_read = fread(buffer, 1, sizeof(buffer), fd);
     if (bytes_read == 0) break;
 
-    ce_stt_process(utt, buffer, bytes_read);
+    if (CE_STT_FAILED == ce_stt_process(utt, buffer, bytes_read)) {
+      Fatal(ce_stt_last_error());
+    }
   }
 
   ce_stt_end_of_stream(utt);
-- 
2.43.0


From 4bbc83279a778f1151e6ecdadc2144909836b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 11/29] fix: accept symbol tables and scp files without a final
 newline

---
 src/main.cc         | 2 +-
 src/symbol_table.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.cc b/src/main.cc
index 0725372..a323110 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -61,7 +61,7 @@ void process_scp(ce_stt_t *recognizer, const char *filename) {
   CheckStatus(status);
 
   std::string line;
-  while (fd.ReadLine(&line, &status) && status.ok()) {
+  while (!fd.Eof() && fd.ReadLine(&line, &status) && status.ok()) {
     std::vector<std::string> fields = Split(line, " ");
     if (fields.size() != 2) {
       printf("scp: unexpected line: %s\n", line.c_str());
diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..eb50f1b 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -20,7 +20,7 @@ Status SymbolTable::Read(const std::string &filename) {
   Status status = Status::OK();
   std::string line;
   words_.reserve(65536);
-  while (fd.ReadLine(&line, &status) && status.ok()) {
+  while (!fd.Eof() && fd.ReadLine(&line, &status) && status.ok()) {
     std::vector<std::string> fields = util::Split(line, " ");
     if (fields.size() != 2) {
       return Status::Corruption(util::Format(
-- 
2.43.0


From 1247a3f5eed608041f43df7be49e2ba8276d3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 12/29] fix: refuse symbol ids out of range

---
 src/symbol_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index eb50f1b..67a2632 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -3,6 +3,7 @@
 #include "symbol_table.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "util.h"
 
@@ -32,7 +33,12 @@ Status SymbolTable::Read(const std::string &filename) {
     std::string word = fields[0];
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
-    
+    if (word_id < 0 || word_id >= INT_MAX) {
+      return Status::Corruption(util::Format(
+          "symbol_table: unexpected symbol id: {}",
+          line));
+    }
+
     word_ids_[word] = word_id;
     if (word_id >= words_.size()) words_.resize(word_id + 1);
     words_[word_id] = word;
-- 
2.43.0


From edf1708d0abb60abe04992e362b631b7e3a055d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 13/29] fix: free the old data in move assignment of Vector

---
 src/vector.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vector.cc b/src/vector.cc
index 47eaaef..ab80b0a 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -19,6 +19,8 @@ Vector<Real>::Vector(Vector<Real> &&v) {
 
 template<typename Real>
 Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+  Destroy();
   this->dim_ = v.dim_;
   this->data_ = v.data_;
 
-- 
2.43.0


From 91ca9bcf1e8ba88633a81333d95282558ce4021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 14/29] fix: refuse an empty string in StringToLong

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..e2036f1 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -52,7 +52,7 @@ Status StringToLong(const std::string &str, long *val) {
   std::string trim_str = Trim(str);
   char *end = nullptr;
   *val = strtol(trim_str.c_str(), &end, 0);
-  if (*end != '\0') {
+  if (trim_str.empty() || *end != '\0') {
     return Status::Corruption(Format("unexpected number string: {}", trim_str));
   }
   
-- 
2.43.0


From 688ac3388dd401388b798ec60ffe9808681b7fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 15/29] fix: return an error for malformed integers in the
 configuration file instead of throwing

---
 src/configuration.cc | 22 +++++++++++++++++++---
 src/configuration.h  |  7 +------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 6a05c20..cbfd3ab 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -2,6 +2,7 @@
 
 #include "configuration.h"
 
+#include <limits.h>
 #include <string>
 #include <vector>
 #include "util.h"
@@ -82,9 +83,24 @@ std::string Configuration::GetStringOrElse(
 }
 
 int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
-  std::string int_string = GetStringOrElse(key, kDefaultString);
-  if (int_string == kDefaultString) return default_val;
-  return std::stoi(int_string);
+  int int_val = 0;
+  if (!GetInteger(key, &int_val).ok()) return default_val;
+  return int_val;
+}
+
+Status Configuration::GetInteger(const std::string &key, int *val) const {
+  std::string int_string;
+  PK_CHECK_STATUS(GetString(key, &int_string));
+  long int_val = 0;
+  PK_CHECK_STATUS(util::StringToLong(int_string, &int_val));
+  if (int_val < INT_MIN || int_val > INT_MAX) {
+    return Status::Corruption(util::Format(
+        "Integer out of range in {}: {}",
+        filename_,
+        int_string));
+  }
+  *val = static_cast<int>(int_val);
+  return Status::OK();
 }
 
 }  // namespace pocketkaldi
diff --git a/src/configuration.h b/src/configuration.h
index ab58bad..8f41546 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -44,12 +44,7 @@ class Configuration {
     *val = path;
     return Status::OK();
   }
-  Status GetInteger(const std::string &key, int *val) const {
-    int int_val = GetIntegerOrElse(key, INT_MIN);
-    if (int_val == INT_MIN) return KeyNotFound(key);
-    *val = int_val;
-    return Status::OK();
-  }
+  Status GetInteger(const std::string &key, int *val) const;
 
   // Get filename
   const std::string &filename() const {
-- 
2.43.0


From 08937ecb15b49b3cb197bfe6c5414c041ff59d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 16/29] fix: refuse FSTs whose counts, states or labels are out
 of range

---
 src/fst.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..712d26d 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -75,6 +75,13 @@ Status Fst::Read(util::ReadableFile *fd) {
   if (!status.ok()) return status;  
   start_state_ = start_state;
 
+  if (state_number < 0 || arc_number < 0 ||
+      start_state < 0 || start_state >= state_number) {
+    return Status::Corruption(util::Format(
+        "unexpected state_number, arc_number or start_state: {}",
+        fd->filename()));
+  }
+
   // Check section size
   int expected_section_size =
       sizeof(state_number) +
@@ -106,6 +113,26 @@ Status Fst::Read(util::ReadableFile *fd) {
   status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
   if (!status.ok()) return status;
 
+  // Check the index and the arcs
+  int32_t last_idx = 0;
+  for (int32_t idx : state_idx_) {
+    if (idx < 0) continue;
+    if (idx < last_idx || idx >= arc_number) {
+      return Status::Corruption(util::Format(
+          "unexpected state index: {}",
+          fd->filename()));
+    }
+    last_idx = idx;
+  }
+  for (const FstArc &arc : arcs_) {
+    if (arc.next_state < 0 || arc.next_state >= state_number ||
+        arc.input_label < 0) {
+      return Status::Corruption(util::Format(
+          "unexpected arc: {}",
+          fd->filename()));
+    }
+  }
+
   // Success
   return status;
 }
-- 
2.43.0


From 6c3c746c0e22efb39479f84cbff1e24a7e93d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 17/29] fix: refuse negative layer counts and narrow widths in
 nnet files

---
 src/nnet.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index 60609fb..7d7a91d 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -208,6 +208,11 @@ Status NarrowLayer::Read(util::ReadableFile *fd) {
   int32_t narrow_right = 0;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
 
+  if (narrow_left < 0 || narrow_right < 0) {
+    return Status::Corruption(util::Format(
+        "NarrowLayer: unexpected narrow_left or narrow_right: {}",
+        fd->filename()));
+  }
   narrow_right_ = narrow_right;
   narrow_left_ = narrow_left;
 
@@ -284,6 +289,13 @@ Status Nnet::Read(util::ReadableFile *fd) {
   int32_t num_layers;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
 
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "Nnet::Read: unexpected num_layers: {} ({})",
+        num_layers,
+        fd->filename()));
+  }
+
   // Read each layers
   for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
     PK_CHECK_STATUS(ReadLayer(fd));
-- 
2.43.0


From 2619a9d429918fdafef66bbe34ac745135ae95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 18/29] fix: refuse negative contexts and non-positive chunk
 sizes

---
 src/am.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index f2e4bfa..b208204 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -48,6 +48,11 @@ Status AcousticModel::Read(const Configuration &conf) {
   PK_CHECK_STATUS(conf.GetInteger("left_context", &left_context_));
   PK_CHECK_STATUS(conf.GetInteger("right_context", &right_context_));
   PK_CHECK_STATUS(conf.GetInteger("chunk_size", &chunk_size_));
+  if (left_context_ < 0 || right_context_ < 0 || chunk_size_ <= 0) {
+    return Status::Corruption(util::Format(
+        "unexpected left_context, right_context or chunk_size in {}",
+        conf.filename()));
+  }
 
   // Read tid2pdf_
   std::string tid2pdf_filename;
-- 
2.43.0


From e1d1e9cbcfe5bd30d7a668db01d0fed38d1b1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 19/29] fix: put the offending line, file or value into error
 messages

---
 src/ce_stt.cc        | 6 +++---
 src/configuration.cc | 2 +-
 src/pcm_reader.cc    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 740c967..8f6865c 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -70,7 +70,7 @@ Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
   if (filename == "") {
     return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
         "Unable to find key 'symbol_table' in {}",
-        filename));
+        conf.filename()));
   }
   self->symbol_table = new SymbolTable();
   PK_CHECK_STATUS(self->symbol_table->Read(filename)); 
@@ -90,7 +90,7 @@ Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
   if (original_lm_file == "") {
     return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
         "Unable to find key 'original_lm' in {}",
-        original_lm_file));
+        conf.filename()));
   }
 
   pocketkaldi::util::ReadableFile fd_original_lm;
@@ -119,7 +119,7 @@ Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
   std::string filename = conf.GetPathOrElse("fst", "");
   if (filename == "") {
     return Status::Corruption(
-        Format("Unable to find key 'fst' in {}", filename));
+        Format("Unable to find key 'fst' in {}", conf.filename()));
   }
   fst::ConstFst<fst::StdArc> *fst = fst::ConstFst<fst::StdArc>::Read(filename);
   if (!fst) {
diff --git a/src/configuration.cc b/src/configuration.cc
index cbfd3ab..ef4df22 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -43,7 +43,7 @@ Status Configuration::Read(const std::string &filename) {
     value = util::Trim(fields[1]);
     if (value.empty()) {
       return Status::Corruption(util::Format(
-          "Value cound not be empty: {}",
+          "Value cound not be empty in {}: {}",
           filename_,
           line));
     }
diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index 0c020dc..93715e5 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -96,7 +96,7 @@ Status ReadPcmHeader(util::ReadableFile *fd, ce_wave_format_t *wave_fmt) {
     return Status::Corruption(util::Format(
         "block_align == {} expected, but {} found: {}",
         bits_per_sample / 8,
-        bytes_rate,
+        block_align,
         fd->filename()));
   }
   wave_fmt->bits_per_sample = bits_per_sample;
-- 
2.43.0


From 407e795e7b15c64e8ad536ee79d2129503ba13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 20/29] fix: read lines longer than the buffer as one line

---
 src/util.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index e2036f1..7d40326 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -108,8 +108,18 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
     }
   }
 
-  // Trim the tailing '\r' or '\n'
+  // A line may be longer than the buffer
   *line = s;
+  while (strlen(chunk.data()) == chunk.size() - 1 && line->back() != '\n') {
+    if (fgets(chunk.data(), chunk.size(), fd_) == NULL) {
+      if (feof(fd_)) break;
+      *status = Status::IOError(filename_);
+      return false;
+    }
+    *line += chunk.data();
+  }
+
+  // Trim the tailing '\r' or '\n'
   while (line->empty() == false &&
          (line->back() == '\r' || line->back() == '\n')) {
     line->pop_back();
-- 
2.43.0


From 3dcb111b8ac7b5f43d5cacf18e970d36e79176c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 21/29] fix: check the lower bound of indices in Vector and
 Matrix too

---
 src/matrix.h | 8 ++++----
 src/vector.h | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/matrix.h b/src/matrix.h
index 68d24ba..43de1b8 100644
--- a/src/matrix.h
+++ b/src/matrix.h
@@ -59,26 +59,26 @@ class MatrixBase {
   /// Indexing operator, non-const
   /// (only checks sizes if compiled with -DKALDI_PARANOID)
   inline Real&  operator() (int r, int c) {
-    assert(r < num_rows_ && c < num_cols_);
+    assert(r >= 0 && r < num_rows_ && c >= 0 && c < num_cols_);
     return *(data_ + r * stride_ + c);
   }
 
   /// Indexing operator, const
   /// (only checks sizes if compiled with -DKALDI_PARANOID)
   inline const Real operator() (int r, int c) const {
-    assert(r < num_rows_ && c < num_cols_);
+    assert(r >= 0 && r < num_rows_ && c >= 0 && c < num_cols_);
     return *(data_ + r * stride_ + c);
   }
 
   /// Return specific row of matrix [const].
   inline const SubVector<Real> Row(int i) const {
-    assert(i < num_rows_);
+    assert(i >= 0 && i < num_rows_);
     return SubVector<Real>(data_ + (i * stride_), NumCols());
   }
 
   /// Return specific row of matrix.
   inline SubVector<Real> Row(int i) {
-    assert(i < num_rows_);
+    assert(i >= 0 && i < num_rows_);
     return SubVector<Real>(data_ + (i * stride_), NumCols());
   }
 
diff --git a/src/vector.h b/src/vector.h
index 8483832..13e220c 100644
--- a/src/vector.h
+++ b/src/vector.h
@@ -66,13 +66,13 @@ class VectorBase {
 
   /// Indexing  operator (const).
   inline Real operator() (int i) const {
-    assert(i < dim_);
+    assert(i >= 0 && i < dim_);
     return *(data_ + i);
   }
 
   /// Indexing operator (non-const).
   inline Real & operator() (int i) {
-    assert(i < dim_);
+    assert(i >= 0 && i < dim_);
     return *(data_ + i);
   }
 
@@ -238,7 +238,7 @@ class SubVector : public VectorBase<Real> {
   SubVector(const VectorBase<Real> &t, int origin, int length) {
     // following assert equiv to origin>=0 && length>=0 &&
     // origin+length <= rt.dim_
-    assert(origin + length <= t.Dim());
+    assert(origin >= 0 && length >= 0 && origin + length <= t.Dim());
     VectorBase<Real>::data_ = const_cast<Real*> (t.Data()+origin);
     VectorBase<Real>::dim_ = length;
   }
-- 
2.43.0


From e90a64e2410fefae48eabd33131c333ea768f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 22/29] fix: set the output of SpliceLayer for an empty input

---
 src/nnet.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nnet.cc b/src/nnet.cc
index 7d7a91d..8e00001 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -51,7 +51,10 @@ void SpliceLayer::Propagate(
     const MatrixBase<float> &in,
     Matrix<float> *out) const {
   assert(indices_.size() != 0 && "SpliceLayer is not initialized");
-  if (in.NumRows() == 0 || in.NumCols() == 0) return;
+  if (in.NumRows() == 0 || in.NumCols() == 0) {
+    out->Resize(0, 0);
+    return;
+  }
 
   int out_cols = indices_.size() * in.NumCols();
   out->Resize(in.NumRows(), out_cols);
-- 
2.43.0


From 7d5fb7a3609358faf532a32331567c4bbbf2fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 23/29] fix: refuse linear, batch-norm and splice layers whose
 parameters do not fit together

---
 src/nnet.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nnet.cc b/src/nnet.cc
index 8e00001..0610892 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -38,6 +38,11 @@ void LinearLayer::Propagate(
 Status LinearLayer::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(W_.Read(fd));
   PK_CHECK_STATUS(b_.Read(fd));
+  if (b_.Dim() == 0 || b_.Dim() != W_.NumCols()) {
+    return Status::Corruption(util::Format(
+        "LinearLayer: dimension mismatch in W and b: {}",
+        fd->filename()));
+  }
 
   return Status::OK();
 }
@@ -83,7 +88,7 @@ Status SpliceLayer::Read(util::ReadableFile *fd) {
 
   int32_t num_indcies = 0;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
-  if (num_indcies < 0) {
+  if (num_indcies <= 0) {
     return Status::Corruption("SpliceLayer: unexpected num_indcies");
   }
 
@@ -122,6 +127,11 @@ void BatchNormLayer::Propagate(
 Status BatchNormLayer::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(scale_.Read(fd));
   PK_CHECK_STATUS(offset_.Read(fd));
+  if (scale_.Dim() == 0 || scale_.Dim() != offset_.Dim()) {
+    return Status::Corruption(util::Format(
+        "BatchNormLayer: dimension mismatch in scale and offset: {}",
+        fd->filename()));
+  }
 
   return Status::OK();
 }
-- 
2.43.0


From 02e94569a9f06b11731609a2c85acc05a036b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 24/29] fix: the list of hash table sizes named 2 twice, so a
 table of 2 did not grow

---
 src/hashtable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable.cc b/src/hashtable.cc
index 840c3c2..414ed22 100644
--- a/src/hashtable.cc
+++ b/src/hashtable.cc
@@ -7,7 +7,7 @@ namespace pocketkaldi {
 
 int gPrimeNumbers[32] = {
   2,
-  2,
+  3,
   5,
   11,
   17,
-- 
2.43.0


From 224fd32a076a1e8d4de61c005a76301d39d77fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 25/29] fix: compute the size of large vectors in size_t

---
 src/vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.cc b/src/vector.cc
index ab80b0a..984386a 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -38,7 +38,7 @@ inline void Vector<Real>::Init(int dim) {
     this->data_ = NULL;
     return;
   }
-  int size;
+  size_t size;
   void *data;
 
   size = dim * sizeof(Real);
-- 
2.43.0


From 4719e912dc86ab790a00089ffa8ef4d7a8b519b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 26/29] fix: check the lower bound of sub-matrices too

---
 src/matrix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index bf65671..bb15c30 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -216,7 +216,8 @@ SubMatrix<Real>::SubMatrix(const MatrixBase<Real> &M,
     this->stride_ = 0;
     return;
   }
-  assert(ro < (M.num_rows_) && co < M.num_cols_ &&
+  assert(ro >= 0 && co >= 0 && r > 0 && c > 0 &&
+         ro < (M.num_rows_) && co < M.num_cols_ &&
          r <= M.num_rows_ - ro && c <= M.num_cols_ - co);
   // point to the begining of window
   MatrixBase<Real>::num_rows_ = r;
-- 
2.43.0


From 54820804ed65793ce4b2dead5e4944de4c16ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 27/29] fix: compute the addresses of large matrices without
 overflow

---
 src/matrix.cc |  8 +++++---
 src/matrix.h  | 12 ++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index bb15c30..4426869 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -26,7 +26,7 @@ void MatrixBase<Real>::CopyFromMat(const MatrixBase<Real> &M, int trans) {
     }
   } else {
     assert(num_cols_ == M.NumRows() && num_rows_ == M.NumCols());
-    int this_stride = stride_, other_stride = M.Stride();
+    size_t this_stride = stride_, other_stride = M.Stride();
     Real *this_data = data_;
     const Real *other_data = M.Data();
     for (int i = 0; i < num_rows_; i++) {
@@ -62,7 +62,7 @@ void Matrix<Real>::Init(
     const int rows,
     const int cols,
     const int stride_type) {
-  if (rows * cols == 0) {
+  if (rows == 0 || cols == 0) {
     assert(rows == 0 && cols == 0);
     this->num_rows_ = 0;
     this->num_cols_ = 0;
@@ -258,7 +258,9 @@ void MatrixBase<Real>::SetZero() {
     memset(data_, 0, sizeof(Real)*num_rows_*num_cols_);
   else
     for (int row = 0; row < num_rows_; row++)
-      memset(data_ + row*stride_, 0, sizeof(Real)*num_cols_);
+      memset(data_ + static_cast<size_t>(row) * static_cast<size_t>(stride_),
+             0,
+             sizeof(Real) * num_cols_);
 }
 
 template<typename Real>
diff --git a/src/matrix.h b/src/matrix.h
index 43de1b8..e4ffdb9 100644
--- a/src/matrix.h
+++ b/src/matrix.h
@@ -60,26 +60,30 @@ class MatrixBase {
   /// (only checks sizes if compiled with -DKALDI_PARANOID)
   inline Real&  operator() (int r, int c) {
     assert(r >= 0 && r < num_rows_ && c >= 0 && c < num_cols_);
-    return *(data_ + r * stride_ + c);
+    return *(data_ + static_cast<size_t>(r) * static_cast<size_t>(stride_) + c);
   }
 
   /// Indexing operator, const
   /// (only checks sizes if compiled with -DKALDI_PARANOID)
   inline const Real operator() (int r, int c) const {
     assert(r >= 0 && r < num_rows_ && c >= 0 && c < num_cols_);
-    return *(data_ + r * stride_ + c);
+    return *(data_ + static_cast<size_t>(r) * static_cast<size_t>(stride_) + c);
   }
 
   /// Return specific row of matrix [const].
   inline const SubVector<Real> Row(int i) const {
     assert(i >= 0 && i < num_rows_);
-    return SubVector<Real>(data_ + (i * stride_), NumCols());
+    return SubVector<Real>(
+        data_ + static_cast<size_t>(i) * static_cast<size_t>(stride_),
+        NumCols());
   }
 
   /// Return specific row of matrix.
   inline SubVector<Real> Row(int i) {
     assert(i >= 0 && i < num_rows_);
-    return SubVector<Real>(data_ + (i * stride_), NumCols());
+    return SubVector<Real>(
+        data_ + static_cast<size_t>(i) * static_cast<size_t>(stride_),
+        NumCols());
   }
 
   /// Copy given matrix. (no resize is done).
-- 
2.43.0


From c729c4cc4bf04eadd85c317a2c0a16311785e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 28/29] fix: softmax of a row with large elements was NaN

---
 src/vector.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index 984386a..80274d9 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -97,8 +97,14 @@ template<typename Real>
 void VectorBase<Real>::ApplySoftMax() {
   Real sum = 0;
 
+  // Subtract the maximum first, otherwise expf() overflows for large elements
+  Real max = 0;
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
+    if (i == 0 || (*this)(i) > max) max = (*this)(i);
+  }
+
+  for (int i = 0; i < Dim(); ++i) {
+    Real exp_d = expf((*this)(i) - max);
     (*this)(i) = exp_d;
     sum += exp_d;
   }
@@ -112,11 +118,17 @@ template<typename Real>
 void VectorBase<Real>::ApplyLogSoftMax() {
   Real sum = 0;
 
+  // Subtract the maximum first, otherwise exp() overflows for large elements
+  Real max = 0;
+  for (int i = 0; i < Dim(); ++i) {
+    if (i == 0 || (*this)(i) > max) max = (*this)(i);
+  }
+
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
+    Real exp_d = exp((*this)(i) - max);
     sum += exp_d;
   }
-  Real logsum = log(sum);
+  Real logsum = max + log(sum);
   
   for (int i = 0; i < Dim(); ++i) {
     (*this)(i) -= logsum;
-- 
2.43.0


From 97e7cdda7fc05f8413dcb76cb387f0ab2aa9e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 29/29] fix: normalising a row of zeros gave NaN

---
 src/nnet.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index 0610892..766a471 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -181,7 +181,10 @@ void NormalizeLayer::Propagate(
   for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
     SubVector<float> row = out->Row(row_idx);
 
+    // A row of zeros has no scale, keep it as it is
     double squared_sum = row.VecVec(row);
+    if (squared_sum == 0.0) continue;
+
     float scale = static_cast<float>(sqrt(D / squared_sum));
     row.Scale(scale);
   }
-- 
2.43.0

