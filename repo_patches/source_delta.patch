From 2952b78e9dc25672ddf81adf201daa1a4167ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 01/54] fix: exchange and decode a secret terminate signal

The evaluator waited for a second message from the garbler instead of sending
its own share, so both parties blocked for ever, and both treated equal shares
(value 0) as "terminate".
---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -618,8 +618,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From cd752bd7c52af08aa793fd41a3f172c854dabed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 02/54] fix: report publicly known 1 outputs to the evaluator

A constant 1 output bit whose mask bit is 0 was lost when a higher mask bit
is set, because both conditions were required instead of either.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From b95845049bc9e290ea3284c3259ff1d094fdd60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 03/54] fix: mark the evaluator's table buffer as empty before
 first use

The evaluator matches the next table's gate id against each gate, but the
buffer was uninitialised until a slot had been used once, so stale heap
contents could pass for a received table.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..3465206 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -479,6 +479,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {  // no table received yet
+    garbled_tables[i].gid = (uint32_t)(-1);
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..87a290e 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {  // no table received yet
+    garbled_tables[i].gid = (uint32_t)(-1);
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From bb0bd65967401a5d38a4e2610229c20fb670294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 04/54] fix: do not send uninitialised heap memory in garbled
 tables

Each GarbledTable has 12 padding bytes, which went out uninitialised.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 3465206..2bda42f 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -175,9 +175,9 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 87a290e..1a77010 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -86,9 +86,9 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 95433b747915cde73be1ab5144534474ea352dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 05/54] fix: refuse more garbled tables than the circuit has
 gates for

The announced count was used unchecked to fill a buffer sized for the
circuit's non-XOR gates.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 ++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 2bda42f..4782bff 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -496,6 +496,8 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "More garbled tables received than the circuit has.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 1a77010..0596625 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -274,6 +274,8 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "More garbled tables received than the circuit has.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
-- 
2.43.0


From a67bbeb3f71eee0c265d9777ac1699b7e0d864cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 06/54] fix: do not ignore a failed garbling or evaluation

In high-memory mode the result of GarbleHighMem/EvaluateHighMem was dropped,
so a broken connection or a table count mismatch could still end in success
with a wrong output.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 4782bff..d42abcb 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From 37f535608e20334e77e929b783666e9af4dd1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 07/54] fix: report a failed plaintext evaluation

EvalauatePlaintextStr dropped the result of EvalauatePlaintext and returned
success with an all-zero output; the command-line tool ignored it as well.
---
 scd/scd_evaluator.cpp      | 15 +++++++++------
 scd/scd_evaluator_main.cpp |  8 +++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..fe887cb 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -291,12 +291,15 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
-
-  OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
-                      outputs_str);
+  CHECK(
+      EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
+
+  CHECK(
+      OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
+                          outputs_str));
   return SUCCESS;
 }
 
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 356e177..ab995b1 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -122,9 +122,11 @@ int main(int argc, char*argv[]) {
   string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
 
   string output_str;
-  EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str, e_init_str,
-                        p_input_str, g_input_str, e_input_str, clock_cycles,
-                        terminate_period, output_mode, &output_str);
+  CHECK(
+      EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
+                            e_init_str, p_input_str, g_input_str, e_input_str,
+                            clock_cycles, terminate_period, output_mode,
+                            &output_str));
 
   std::cout << output_str << endl;
 
-- 
2.43.0


From 5bafbf508ed034a3c8a4c1d9ab8ba51722897761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 08/54] fix: keep error handling when logging is disabled

Without ENABLE_LOG (the default build) the CHECK macros evaluated their
argument and carried on, so every communication error was ignored.
---
 util/log.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/log.h b/util/log.h
index c884ef9..d90b681 100644
--- a/util/log.h
+++ b/util/log.h
@@ -73,12 +73,12 @@ class DummyLog : public ostream {
   << std::endl; return FAILURE; }
 #else /* ENABLE_LOG */
 extern bool __dummy_expr__;
-#define CHECK_ALLOC(X) X
+#define CHECK_ALLOC(X) try { X; } catch (std::bad_alloc& e) { return FAILURE; }
 #define LOG(X) DummyLogStream()
-#define CHECK_EXPR(X) __dummy_expr__ = X
-#define CHECK_EXPR_MSG(X, Y) __dummy_expr__ = X
-#define CHECK(X) X
-#define BN_CHECK(X) X
+#define CHECK_EXPR(X) if((X)==false) { return FAILURE; }
+#define CHECK_EXPR_MSG(X, Y) if((X)==false) { return FAILURE; }
+#define CHECK(X) if((X)==FAILURE) { return FAILURE; }
+#define BN_CHECK(X) if((X)==0) { return FAILURE; }
 #endif /* ENABLE_LOG */
 
 void LogInitial(int argc, char *argv[]);
-- 
2.43.0


From ae405c74426aff6d882c936f7b133b62c89f9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 09/54] fix: take labels, offset and key from a cryptographic
 generator

RandomBlock was a 32-bit linear congruential generator, seeded with the time
or not at all: the global key, sent in clear, determined the secret offset
and every label, and the labels' last bit alternated predictably.
---
 util/util.cpp | 42 +++++++++---------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..a82a792 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -45,49 +45,25 @@
 #include <cstdlib> 
 #include <vector>
 #include <fstream>
+#include <openssl/rand.h>
 #include "crypto/aes.h"
 #include "util/common.h"
 #include "util/log.h"
 
 using std::ifstream;
 
-static block cur_seed;
-
+// Mixes the seed into the generator, in addition to the system's entropy.
 void SrandSSE(unsigned int seed) {
-  cur_seed = _mm_set_epi32(seed, seed + 1, seed, seed + 1);
+  RAND_seed(&seed, sizeof(seed));
 }
 
 block RandomBlock() {
-
-  block cur_seed_split;
-  block multiplier;
-  block adder;
-  block mod_mask;
-  //block sra_mask;
-  //block sseresult;
-
-  static const unsigned int mult[4] = { 214013, 17405, 214013, 69069 };
-  static const unsigned int gadd[4] = { 2531011, 10395331, 13737667, 1 };
-  static const unsigned int mask[4] = { 0xFFFFFFFF, 0, 0xFFFFFFFF, 0 };
-  //static const unsigned int masklo[4] = { 0x00007FFF, 0x00007FFF, 0x00007FFF,
-  //  0x00007FFF };
-
-  adder = _mm_load_si128((block *) gadd);
-  multiplier = _mm_load_si128((block *) mult);
-  mod_mask = _mm_load_si128((block *) mask);
-  //sra_mask = _mm_load_si128((block *) masklo);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_mul_epu32(cur_seed, multiplier);
-  multiplier = _mm_shuffle_epi32(multiplier, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed_split = _mm_mul_epu32(cur_seed_split, multiplier);
-  cur_seed = _mm_and_si128(cur_seed, mod_mask);
-  cur_seed_split = _mm_and_si128(cur_seed_split, mod_mask);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed_split, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_or_si128(cur_seed, cur_seed_split);
-  cur_seed = _mm_add_epi32(cur_seed, adder);
-
-  return cur_seed;
-
+  unsigned char bytes[sizeof(block)];
+  if (RAND_bytes(bytes, sizeof(bytes)) != 1) {
+    LOG(ERROR) << "No randomness available." << std::endl;
+    std::abort();
+  }
+  return _mm_loadu_si128((const block *) bytes);
 }
 /**
  * \brief constant v value based on gate Type
-- 
2.43.0


From 7875ad1ee4da176df2a76d2516459bac233b4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 10/54] fix: report a broken connection instead of dying from
 SIGPIPE

Writing to a socket closed by the other party raised SIGPIPE, which ends the
process, before SendData could report failure.
---
 tcpip/tcpip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index bc975de..17383dc 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -142,8 +142,8 @@ int SendData(int sock, const void *var, int len) {
 
   int remain_len = 0;
   do {
-    int len_ret = write(sock, (const char *) var + remain_len,
-                        len - remain_len);
+    int len_ret = send(sock, (const char *) var + remain_len,
+                       len - remain_len, MSG_NOSIGNAL);
     if (len_ret == FAILURE) {
       LOG(ERROR) << strerror(errno) << endl;
       return FAILURE;
-- 
2.43.0


From 7f45616e375d5f12afaff394ea767c6a5149eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 11/54] fix: convert numbers of more than 65535 digits and 255
 values

The conversions kept lengths in 16-bit (and the number of outputs in 8-bit)
variables, so longer strings were silently cut.
---
 util/util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index a82a792..6a31163 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -234,8 +234,8 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 
  void parseGCOutputString(vector<int64_t> &output, string output_str, vector<uint16_t> bit_len, uint16_t offset){
 	string bin_output_str = hex2bin(output_str);
-	uint8_t no_of_outputs = output.size();
-	uint16_t len = offset;
+	size_t no_of_outputs = output.size();
+	size_t len = offset;
 	uint64_t i;
 	for (i = 0; i < no_of_outputs; i++){
 		len += bit_len[i];
@@ -243,7 +243,7 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 	if (len > bin_output_str.length()) bin_output_str.insert(0, len-bin_output_str.length(), '0');
 	else if (len < bin_output_str.length()) bin_output_str = bin_output_str.substr(bin_output_str.length()-len, len);
 	
-	uint16_t cur = 0;
+	size_t cur = 0;
 	for (i = 0; i < no_of_outputs; i++){
 		output[i] = bin2dec(bin_output_str.substr(cur, bit_len[i]), true);
 		cur += bit_len[i];
@@ -281,7 +281,7 @@ int64_t bin2dec(string bin, bool s){
 }
 
 string hex2bin(string hex_){
-	uint16_t len = hex_.length();
+	size_t len = hex_.length();
 	string bin("");
 	
 	for (uint64_t i = 0; i < len; i++){
@@ -309,7 +309,7 @@ string hex2bin(string hex_){
 }
 
 string bin2hex(string bin){
-	uint16_t len = bin.length();
+	size_t len = bin.length();
 	bin.insert(0, 4-len%4, '0');
 	len = bin.length();
 	string hex_("");
-- 
2.43.0


From db0e07b7ebf142e06caeb18446aec474a7b27162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 12/54] fix: refuse incomplete circuit descriptions

A truncated or non-numeric description was accepted; the missing gates,
outputs and flip-flops were uninitialised memory.
---
 scd/scd.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 2bcf3ad..119cc8b 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -55,6 +55,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
       >> garbled_circuit->g_input_size >> garbled_circuit->e_input_size
       >> garbled_circuit->dff_size >> garbled_circuit->output_size
       >> garbled_circuit->terminate_id >> garbled_circuit->gate_size;
+  if (f.fail()) {
+    LOG(ERROR) << file_name << " is not a circuit description." << endl;
+    return FAILURE;
+  }
 
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
@@ -113,6 +117,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   for (uint64_t i = 0; i < garbled_circuit->dff_size; i++) {
     f >> garbled_circuit->I[i];
   }
+  if (f.fail()) {
+    LOG(ERROR) << file_name << " is incomplete." << endl;
+    return FAILURE;
+  }
 
   f.close();
 
-- 
2.43.0


From 57b11162148a0850cbbb3f6f7c4d732c9f073f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 13/54] fix: read all transfer requests before answering them

The receiver of a base oblivious transfer sends all its requests before it
reads an answer; a sender that answers each one at once blocks when both
socket buffers are full, and so does the receiver.
---
 crypto/OT.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index b7fb186..a918412 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -64,20 +64,23 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
     }
   }
 
-  // 4. receive v from Bob (receiver) and send m0' and m1' to Bob
-  BIGNUM *v = BN_new();
+  // 4. receive all v from Bob (receiver), who sends them without reading, and
+  // only then send m0' and m1' to Bob
+  BIGNUM **v = new BIGNUM*[m_len];
+  for (uint32_t i = 0; i < m_len; i++) {
+    v[i] = BN_new();
+    CHECK(RecvBN(connfd, v[i]));
+  }
   BIGNUM *temp = BN_new();
   BIGNUM *k0 = BN_new();
   BIGNUM *k1 = BN_new();
   BIGNUM *m0 = BN_new();
   BIGNUM *m1 = BN_new();
   for (uint32_t i = 0; i < m_len; i++) {
-    CHECK(RecvBN(connfd, v));
-
-    BN_CHECK(BN_sub(temp, v, x[i][0]));  // temp = v - x0
+    BN_CHECK(BN_sub(temp, v[i], x[i][0]));  // temp = v - x0
     BN_CHECK(BN_mod_exp(k0, temp, rsa_d, rsa_n, ctx));  // k0 = (v - x0)^d mod N
 
-    BN_CHECK(BN_sub(temp, v, x[i][1]));  // temp = v - x1
+    BN_CHECK(BN_sub(temp, v[i], x[i][1]));  // temp = v - x1
     BN_CHECK(BN_mod_exp(k1, temp, rsa_d, rsa_n, ctx));  // k1 = (v - x0)^d mod N
 
     BN_CHECK(BN_add(k0, k0, m[i][0]));
@@ -87,7 +90,10 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
   }
 
   RSA_free(rsa);
-  BN_free(v);
+  for (uint32_t i = 0; i < m_len; i++) {
+    BN_free(v[i]);
+  }
+  delete[] v;
   BN_free(temp);
   BN_free(k0);
   BN_free(k1);
-- 
2.43.0


From c4cef960e03ac94733fadc17eebd08e9d2911d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 14/54] fix: report garbled tables the evaluator needs but did
 not receive

The evaluator compared the tables it used with those it received, so tables
left over were reported, but missing ones were replaced by random labels and
the session ended in success with a random output.
---
 garbled_circuit/garbled_circuit_high_mem.cpp |  4 ++++
 garbled_circuit/garbled_circuit_low_mem.cpp  |  4 ++++
 garbled_circuit/garbled_circuit_util.cpp     | 18 ++++++++++++++++++
 garbled_circuit/garbled_circuit_util.h       |  6 ++++++
 4 files changed, 32 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index d42abcb..8cde2da 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -687,6 +687,10 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     CHECK_EXPR_MSG(garbled_table_ind == garbled_table_ind_rcv,
                    "Number of garbled tables generated "
                    "by Alice and received by Bob are not equal.");
+    CHECK_EXPR_MSG(
+        NumOfNeededTables(garbled_circuit, wires, wires_val, fanout)
+            == garbled_table_ind_rcv,
+        "Garbled tables that Bob needs are missing.");
 
     for (uint64_t j = 0; j < garbled_table_ind; j++) {  // clear tables
       garbled_tables[j].gid = (uint32_t)(-1);
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0596625..eba599b 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -292,6 +292,10 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     CHECK_EXPR_MSG(garbled_table_ind == garbled_table_ind_rcv,
                    "Number of garbled tables generated "
                    "by Alice and received by Bob are not equal.");
+    CHECK_EXPR_MSG(
+        NumOfNeededTables(garbled_circuit, wires, wires_val, fanout)
+            == garbled_table_ind_rcv,
+        "Garbled tables that Bob needs are missing.");
 
     for (uint64_t j = 0; j < garbled_table_ind; j++) {  // clear tables
       garbled_tables[j].gid = (uint32_t)(-1);
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index e912451..b160df8 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -54,6 +54,24 @@ uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
   return num_of_non_xor;
 }
 
+uint64_t NumOfNeededTables(const GarbledCircuit& garbled_circuit,
+                           const block* wires, const short* wires_val,
+                           const int* fanout) {
+  uint64_t num_of_needed_tables = 0;
+  for (uint64_t i = 0; i < garbled_circuit.gate_size; i++) {
+    const GarbledGate& garbled_gate = garbled_circuit.garbledGates[i];
+    if (fanout[i] > 0 && garbled_gate.type != XORGATE
+        && garbled_gate.type != XNORGATE && garbled_gate.type != NOTGATE
+        && garbled_gate.input0 >= 0 && garbled_gate.input1 >= 0
+        && IsSecret(wires_val[garbled_gate.input0])
+        && IsSecret(wires_val[garbled_gate.input1])
+        && !CmpBlock(wires[garbled_gate.input0], wires[garbled_gate.input1])) {
+      num_of_needed_tables++;
+    }
+  }
+  return num_of_needed_tables;
+}
+
 void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
   delete[] garbled_circuit->garbledGates;
   if (garbled_circuit->outputs != nullptr) {
diff --git a/garbled_circuit/garbled_circuit_util.h b/garbled_circuit/garbled_circuit_util.h
index 9ef97f7..28b328b 100644
--- a/garbled_circuit/garbled_circuit_util.h
+++ b/garbled_circuit/garbled_circuit_util.h
@@ -223,6 +223,12 @@ enum class OutputMode {
 };
 
 uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui);
+/**
+ * @brief Number of tables the evaluator needed in the cycle it just evaluated.
+ */
+uint64_t NumOfNeededTables(const GarbledCircuit& garbled_circuit,
+                           const block* wires, const short* wires_val,
+                           const int* fanout);
 void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit);
 int ParseInitInputStr(const string& init_str, const string&input_str,
                       uint64_t init_size, uint64_t input_size,
-- 
2.43.0


From 4d2ff80290e91063a1cb5a88af2f16a9bdb6a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 15/54] fix: make the padding of garbled tables explicit so
 that it is initialised

Value initialisation leaves anonymous padding bytes undefined (g++ copies
them from the stack), and tables are sent as raw bytes.
---
 garbled_circuit/garbled_circuit_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_util.h b/garbled_circuit/garbled_circuit_util.h
index 28b328b..b9508db 100644
--- a/garbled_circuit/garbled_circuit_util.h
+++ b/garbled_circuit/garbled_circuit_util.h
@@ -65,6 +65,7 @@ typedef struct BlockPair {
 typedef struct GarbledTable {
   block row[2];
   uint32_t gid;
+  uint32_t reserved[3]; /**< explicit padding, tables are sent as raw bytes. */
 } GarbleTable;
 
 /**
-- 
2.43.0


From 212a8dfb430fbbc64266b258cf8ef9749d299492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 16/54] fix: resolve netlist assignments in any order

An assign from a wire that a later assign defines was dropped with a log
message, and the netlist was then refused. Repeat until nothing changes.
---
 scd/parse_netlist.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 85c3489..e22c56a 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -543,18 +543,30 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
-  for (uint64_t i = 0; i < read_circuit_string.assignment_list_string.size();
-      i++) {
-    const auto assign_pair = read_circuit_string.assignment_list_string[i];
-    if (wire_name_table.count(assign_pair.first)) {
-      wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
-    } else if (wire_name_table.count(assign_pair.second)) {
-      wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
-    } else {
-      LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-          << assign_pair.second
-          << " which were mentioned in an assignment statement" << endl;
+  // An assignment may use a wire that a later assignment defines.
+  vector<pair<string, string>> unresolved =
+      read_circuit_string.assignment_list_string;
+  bool is_progressed = true;
+  while (!unresolved.empty() && is_progressed) {
+    vector<pair<string, string>> left;
+    for (const auto& assign_pair : unresolved) {
+      if (wire_name_table.count(assign_pair.first)) {
+        wire_name_table[assign_pair.second] =
+            wire_name_table[assign_pair.first];
+      } else if (wire_name_table.count(assign_pair.second)) {
+        wire_name_table[assign_pair.first] =
+            wire_name_table[assign_pair.second];
+      } else {
+        left.push_back(assign_pair);
+      }
     }
+    is_progressed = left.size() < unresolved.size();
+    unresolved.swap(left);
+  }
+  for (const auto& assign_pair : unresolved) {
+    LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
+        << assign_pair.second
+        << " which were mentioned in an assignment statement" << endl;
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


From 21cd1c64a52d976b0e29de23c35f7779168da7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 17/54] fix: give constant output ports a gate

assign o[0] = 1'b0 made the output index a negative constant, which was
used to index the sorted wires: the description got an arbitrary number.
---
 scd/parse_netlist.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index e22c56a..ef2d040 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -64,6 +64,37 @@ string Type2StrGate(short itype) {
   return type;
 }
 
+// An output (or terminate) port that is a constant gets a gate of its own:
+// the outputs of a circuit description are wires.
+static void DriveConstantOutput(const string& name,
+                                ReadCircuitString* read_circuit_string) {
+  auto& assignments = read_circuit_string->assignment_list_string;
+  string source = name;
+  for (uint64_t step = 0; step <= assignments.size(); step++) {
+    for (const auto& assign_pair : assignments) {
+      if (assign_pair.first == source) {
+        source = assign_pair.second;
+        break;
+      }
+    }
+  }
+  if (source != "1'b0" && source != "1'b1") {
+    return;
+  }
+  for (auto it = assignments.begin(); it != assignments.end(); ++it) {
+    if (it->first == name) {
+      ReadGateString g;
+      g.type = XORGATE;
+      g.input[0] = source;
+      g.input[1] = "1'b0";
+      g.output = name;
+      read_circuit_string->gate_list_string.push_back(g);
+      assignments.erase(it);
+      return;
+    }
+  }
+}
+
 int ParseNetlist(const string &filename,
                  ReadCircuitString* read_circuit_string) {
 
@@ -410,6 +441,12 @@ int ParseNetlist(const string &filename,
     }
   }
 }
+  DriveConstantOutput("o", read_circuit_string);
+  for (uint64_t i = 0; i < read_circuit_string->output_size; i++) {
+    DriveConstantOutput("o[" + std::to_string(i) + "]", read_circuit_string);
+  }
+  DriveConstantOutput("terminate", read_circuit_string);
+
   return SUCCESS;
 }
 
-- 
2.43.0


From 1e227bcd62bcc2fbb575e866c301991e13c96e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 18/54] fix: renumber wire 0 when sorting a netlist

In a netlist without inputs and flip-flops wire 0 is a gate, which sorting
moves; operands naming it kept the old number.
---
 scd/scheduling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..36076a1 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -459,11 +459,11 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
 
   for (int64_t i = 0; i < (int64_t) read_circuit->dff_size; i++) {
-    if (read_circuit->dff_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[0] = sorted_list_1[read_circuit->dff_list[i]
           .input[0]];
     }
-    if (read_circuit->dff_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[1] = sorted_list_1[read_circuit->dff_list[i]
           .input[1]];
     }
@@ -472,14 +472,14 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->gate_size; i++) {
     read_circuit->gate_list[i].output = sorted_list_1[init_input_dff_size + i];
-    if (read_circuit->gate_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[0] =
           sorted_list_1[read_circuit->gate_list[i].input[0]];
       CHECK_EXPR_MSG(
           read_circuit->gate_list[i].input[0] < read_circuit->gate_list[i].output,
           "input 0 is larger than gate id");
     }
-    if (read_circuit->gate_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[1] =
           sorted_list_1[read_circuit->gate_list[i].input[1]];
       CHECK_EXPR_MSG(
-- 
2.43.0


From f9b789ebb6d481659d8b8ec4b69506433e1e23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 19/54] fix: mask every bit of the messages of an OT extension

---
 crypto/OT_extension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..d52c32a 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -82,7 +82,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
 
-  BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
+  BN_CHECK(BN_bin2bn(md_value, (bits + 7) / 8, r));
 
   return SUCCESS;
 }
-- 
2.43.0


From e125c1069334e704150345773c95ce194fa616d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 20/54] fix: refuse a negative big number size and free arrays
 as arrays

---
 crypto/BN.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..929d9ac 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -127,10 +127,14 @@ int RecvBN(int connf, BIGNUM *bignum) {
   CHECK(RecvData(connf, bignum->d, bignum->dmax * sizeof(BN_ULONG)));*/
   int size;
   CHECK(RecvData(connf, &size, sizeof(int)));
+  if (size < 0) {
+    LOG(ERROR) << "negative bignum size: " << size << endl;
+    return FAILURE;
+  }
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
-- 
2.43.0


From a84aa4c093fdff6b696c90987f57cd446cca0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 21/54] fix: record the terminating cycle and every net in the
 plaintext trace

---
 scd/scd_evaluator.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index fe887cb..0662fd4 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -194,24 +194,6 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
         BN_clear_bit(*outputs, cid * garbled_circuit.output_size + i);
     }
 
-    //if has terminate signal
-    if (terminate_period != 0 && garbled_circuit.terminate_id > 0) {
-      if (cid % terminate_period == 0) {
-        bool is_terminate = wires[garbled_circuit.terminate_id];
-        if (is_terminate) {
-          LOG(INFO) << "Terminated in " << cid + 1 << "cc out of "
-              << *clock_cycles << "cc." << endl;
-          *clock_cycles = cid + 1;
-          break;
-        }
-      }
-      //last clock cycle, not terminated
-      if (cid == (*clock_cycles) - 1) {
-        LOG(ERROR) << "Not enough clock cycles. Circuit is not terminated in "
-            << *clock_cycles << "cc." << endl;
-      }
-    }
-
   /*--- Store internal values in csv file ---*/
 	if (cid == 0){
 		sim_file << "cid, ";
@@ -219,7 +201,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 			tokenizer<char_separator<char>> tok(buf, sep);	
 			tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 			string wire_name(*(tok_it));
-			if(!wire_name.compare("terminate")) break;
+			if(!wire_name.compare("terminate")) continue;
 			sim_file << *tok_it << "\t";
 		}
 		sim_file << endl;
@@ -232,7 +214,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 		tokenizer<char_separator<char>> tok(buf, sep);	
 		tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 		string wire_name(*(tok_it));
-		if(!wire_name.compare("terminate")) break;
+		if(!wire_name.compare("terminate")) continue;
 		string index(*(++tok_it));
 		sim_file << wires[atoi(index.c_str())] << ", ";
 	}
@@ -240,6 +222,24 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 
 	map_file.clear();
 	map_file.seekg(0, std::ios::beg);	
+
+    //if has terminate signal
+    if (terminate_period != 0 && garbled_circuit.terminate_id > 0) {
+      if (cid % terminate_period == 0) {
+        bool is_terminate = wires[garbled_circuit.terminate_id];
+        if (is_terminate) {
+          LOG(INFO) << "Terminated in " << cid + 1 << "cc out of "
+              << *clock_cycles << "cc." << endl;
+          *clock_cycles = cid + 1;
+          break;
+        }
+      }
+      //last clock cycle, not terminated
+      if (cid == (*clock_cycles) - 1) {
+        LOG(ERROR) << "Not enough clock cycles. Circuit is not terminated in "
+            << *clock_cycles << "cc." << endl;
+      }
+    }
   }
 
   map_file.close();
-- 
2.43.0


From 8b00cd1198588fd176e015a7335156b910ad97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 22/54] fix: separate the names of the plaintext trace as its
 values

---
 scd/scd_evaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 0662fd4..a7445f6 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -202,7 +202,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 			tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 			string wire_name(*(tok_it));
 			if(!wire_name.compare("terminate")) continue;
-			sim_file << *tok_it << "\t";
+			sim_file << *tok_it << ", ";
 		}
 		sim_file << endl;
 		map_file.clear();
-- 
2.43.0


From d663843a974725e26ae47adf2e429bb417e612d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:01 +0000
Subject: [PATCH 23/54] fix: sort netlists with chains of gates longer than the
 call stack is deep

---
 scd/scheduling.cpp | 53 ++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 36076a1..303a4b0 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -19,6 +19,7 @@
 
 #include <string>
 #include <cstring>
+#include <utility>
 #include "scd/parse_netlist.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -342,34 +343,36 @@ int TopologicalSortVisit(const ReadCircuit &read_circuit, vector<Mark>* marks,
   int64_t init_input_size = read_circuit.get_init_input_size();
   int64_t init_input_dff_size = init_input_size + read_circuit.dff_size;
 
-  if (current_unmark_index < 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
-    return SUCCESS;
-  } else if (marks->at(current_unmark_index) == Mark::TempMarked) {
-    LOG(ERROR) << "There is a loop in the circuit." << endl;
-    loop->push_back(current_unmark_index);
-    return FAILURE;
-  } else if (marks->at(current_unmark_index) == Mark::UnMarked) {
-    marks->at(current_unmark_index) = Mark::TempMarked;
-
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[0],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
+  // The gates from current_unmark_index down to the one being visited, each with
+  // the number of its inputs visited so far. (Chains of gates can be longer than
+  // the call stack is deep.)
+  vector<std::pair<int64_t, int> > path;
+  marks->at(current_unmark_index) = Mark::TempMarked;
+  path.push_back(std::make_pair(current_unmark_index, 0));
+
+  while (!path.empty()) {
+    int64_t gate_index = path.back().first;
+    if (path.back().second == 2) {
+      marks->at(gate_index) = Mark::PerMarked;
+      sorted_list->push_back(gate_index);
+      path.pop_back();
+      continue;
     }
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[1],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
+    int64_t input = read_circuit.gate_list[gate_index - init_input_dff_size]
+        .input[path.back().second++];
+    if (input < 0 || marks->at(input) == Mark::PerMarked) {
+      continue;  // CONSTANT or IV 2nd input (-1) are sorted.
+    } else if (marks->at(input) == Mark::TempMarked) {
+      LOG(ERROR) << "There is a loop in the circuit." << endl;
+      loop->push_back(input);
+      while (!path.empty()) {
+        loop->push_back(path.back().first);
+        path.pop_back();
+      }
       return FAILURE;
     }
-
-    marks->at(current_unmark_index) = Mark::PerMarked;
-    sorted_list->push_back(current_unmark_index);
+    marks->at(input) = Mark::TempMarked;
+    path.push_back(std::make_pair(input, 0));
   }
 
   return SUCCESS;
-- 
2.43.0


From 62bd5e7b3006fd539ec25004ef499f12e9f618ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 24/54] fix: do not give a cell the pins of an unknown cell
 before it

---
 scd/parse_netlist.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index ef2d040..ec581a3 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -301,6 +301,7 @@ int ParseNetlist(const string &filename,
         no_of_bits = 0;
         is_left_assignmnet = false;
         is_right_assignmnet = false;
+        port.clear();  // pins of an unknown cell
       }
       port_key = "";
     } else if(!str.compare("endmodule")) {
-- 
2.43.0


From d9ce0158134eb43fe0abdf877d35aec2b1fee3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 25/54] fix: release circuit arrays the way they were allocated

ReadSCD allocates gates and outputs with posix_memalign(), but
RemoveGarbledCircuit gave them to delete[].
---
 garbled_circuit/garbled_circuit_util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index b160df8..3a34749 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -35,6 +35,8 @@
 
 #include "garbled_circuit/garbled_circuit_util.h"
 
+#include <cstdlib>
+
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -73,9 +75,10 @@ uint64_t NumOfNeededTables(const GarbledCircuit& garbled_circuit,
 }
 
 void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
-  delete[] garbled_circuit->garbledGates;
+  // ReadSCD allocates these two with posix_memalign().
+  free(garbled_circuit->garbledGates);
   if (garbled_circuit->outputs != nullptr) {
-    delete[] garbled_circuit->outputs;
+    free(garbled_circuit->outputs);
   }
   if (garbled_circuit->I != nullptr) {
     delete[] garbled_circuit->I;
-- 
2.43.0


From 6fcd1a7c1b07dd59501dec940f67ed7ca61b4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 26/54] fix: refuse circuit descriptions that name wires they
 do not have

A wire number or size out of range was followed into memory that is not
the circuit's.
---
 scd/scd.cpp | 69 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 119cc8b..06b4d01 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -36,6 +36,7 @@
 #include "scd/scd.h"
 
 #include <cerrno>
+#include <climits>
 #include <cstring>
 #include <cstdlib>
 #include <fstream>
@@ -43,6 +44,49 @@
 #include <new>
 #include "util/log.h"
 
+static bool IsWireIndex(const GarbledCircuit& garbled_circuit, int64_t index,
+                        int64_t hi_index) {
+  return index >= (int64_t) garbled_circuit.get_init_size()
+      && index < hi_index;
+}
+
+static bool IsOperandIndex(const GarbledCircuit& garbled_circuit, int64_t index,
+                           int64_t hi_index) {
+  return index == CONST_ZERO || index == CONST_ONE
+      || IsWireIndex(garbled_circuit, index, hi_index);
+}
+
+/*
+ * Every index should name a constant or a wire (init ports are only for I of
+ * DFFs), and gates should only use the wires before their own.
+ */
+static bool AreIndicesValid(const GarbledCircuit& garbled_circuit) {
+  int64_t wire_size = (int64_t) garbled_circuit.get_wire_size();
+
+  for (uint64_t i = 0; i < garbled_circuit.gate_size; i++) {
+    const GarbledGate& gate = garbled_circuit.garbledGates[i];
+    if (!IsOperandIndex(garbled_circuit, gate.input0, gate.output)
+        || gate.input1 >= gate.output
+        || (gate.type != NOTGATE
+            && !IsOperandIndex(garbled_circuit, gate.input1, gate.output))) {
+      return false;
+    }
+  }
+  for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+    if (!IsWireIndex(garbled_circuit, garbled_circuit.outputs[i], wire_size)) {
+      return false;
+    }
+  }
+  for (uint64_t i = 0; i < garbled_circuit.dff_size; i++) {
+    if (!IsOperandIndex(garbled_circuit, garbled_circuit.D[i], wire_size)) {
+      return false;
+    }
+  }
+  return garbled_circuit.terminate_id == 0
+      || IsWireIndex(garbled_circuit, (int64_t) garbled_circuit.terminate_id,
+                     wire_size);
+}
+
 int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   std::ifstream f(file_name, std::ios::out);
   if (!f.is_open()) {
@@ -59,6 +103,27 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     LOG(ERROR) << file_name << " is not a circuit description." << endl;
     return FAILURE;
   }
+  // Bits of a port are counted by int, see BN_is_bit_set().
+  if (garbled_circuit->p_init_size > INT_MAX
+      || garbled_circuit->g_init_size > INT_MAX
+      || garbled_circuit->e_init_size > INT_MAX
+      || garbled_circuit->p_input_size > INT_MAX
+      || garbled_circuit->g_input_size > INT_MAX
+      || garbled_circuit->e_input_size > INT_MAX) {
+    LOG(ERROR) << file_name << " has an invalid port size." << endl;
+    return FAILURE;
+  }
+  // Every one of these numbers takes up at least one character and a space.
+  std::streampos header_end = f.tellg();
+  f.seekg(0, std::ios::end);
+  uint64_t most_numbers = (uint64_t) (f.tellg() - header_end);
+  f.seekg(header_end);
+  if (garbled_circuit->gate_size > most_numbers
+      || garbled_circuit->output_size > most_numbers
+      || garbled_circuit->dff_size > most_numbers) {
+    LOG(ERROR) << file_name << " is incomplete." << endl;
+    return FAILURE;
+  }
 
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
@@ -121,6 +186,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     LOG(ERROR) << file_name << " is incomplete." << endl;
     return FAILURE;
   }
+  if (!AreIndicesValid(*garbled_circuit)) {
+    LOG(ERROR) << file_name << " has an invalid wire index." << endl;
+    return FAILURE;
+  }
 
   f.close();
 
-- 
2.43.0


From 44a6f4f5267ce6ec4bfca643553fed4de9c528f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:24 +0000
Subject: [PATCH 27/54] fix: skip the gates behind a public value without
 recursion

---
 garbled_circuit/garbled_circuit_util.cpp | 27 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 3a34749..618abbd 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -36,6 +36,7 @@
 #include "garbled_circuit/garbled_circuit_util.h"
 
 #include <cstdlib>
+#include <vector>
 
 #include "tcpip/tcpip.h"
 #include "util/common.h"
@@ -43,6 +44,7 @@
 #include "util/util.h"
 
 using std::endl;
+using std::vector;
 
 uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
   uint64_t num_of_non_xor = 0;
@@ -525,16 +527,23 @@ int FillFanout(GarbledCircuit* garbled_circuit) {
 void ReduceFanout(const GarbledCircuit& garbled_circuit, int *fanout,
                   int64_t wid, int64_t gate_bias) {
 
-  int64_t gid = wid - gate_bias;
-  if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
-      && fanout[gid] > 0) {
-    fanout[gid]--;
-    if (fanout[gid] == 0) {
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input0, gate_bias);
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input1, gate_bias);
+  // A chain of gates may be longer than the call stack is deep.
+  vector<int64_t> wires;
+  while (true) {
+    int64_t gid = wid - gate_bias;
+    if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
+        && fanout[gid] > 0) {
+      fanout[gid]--;
+      if (fanout[gid] == 0) {
+        wires.push_back(garbled_circuit.garbledGates[gid].input0);
+        wires.push_back(garbled_circuit.garbledGates[gid].input1);
+      }
+    }
+    if (wires.empty()) {
+      return;
     }
+    wid = wires.back();
+    wires.pop_back();
   }
 }
 
-- 
2.43.0


From ceb113bf496fe03285f5a7e6c1636fcd282f40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:24 +0000
Subject: [PATCH 28/54] fix: resolve the assignments of large netlists in
 linear time

---
 scd/parse_netlist.cpp | 103 ++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 40 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index ec581a3..ed9100a 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -66,33 +66,46 @@ string Type2StrGate(short itype) {
 
 // An output (or terminate) port that is a constant gets a gate of its own:
 // the outputs of a circuit description are wires.
-static void DriveConstantOutput(const string& name,
-                                ReadCircuitString* read_circuit_string) {
+static void DriveConstantOutputs(ReadCircuitString* read_circuit_string) {
   auto& assignments = read_circuit_string->assignment_list_string;
-  string source = name;
-  for (uint64_t step = 0; step <= assignments.size(); step++) {
-    for (const auto& assign_pair : assignments) {
-      if (assign_pair.first == source) {
-        source = assign_pair.second;
-        break;
-      }
-    }
+  map<string, string> sources(assignments.begin(), assignments.end());
+  map<string, string> constant_outputs;
+
+  vector<string> names = { "o", "terminate" };
+  for (uint64_t i = 0; i < read_circuit_string->output_size; i++) {
+    names.push_back("o[" + std::to_string(i) + "]");
   }
-  if (source != "1'b0" && source != "1'b1") {
-    return;
+  for (const string& name : names) {
+    vector<string> wires;  // from the port back to its source
+    string source = name;
+    while (sources.count(source) && wires.size() <= assignments.size()) {
+      wires.push_back(source);
+      source = sources[source];
+    }
+    for (const string& wire : wires) {
+      sources[wire] = source;
+    }
+    if (!wires.empty() && (source == "1'b0" || source == "1'b1")) {
+      constant_outputs[name] = source;
+    }
   }
-  for (auto it = assignments.begin(); it != assignments.end(); ++it) {
-    if (it->first == name) {
-      ReadGateString g;
-      g.type = XORGATE;
-      g.input[0] = source;
-      g.input[1] = "1'b0";
-      g.output = name;
-      read_circuit_string->gate_list_string.push_back(g);
-      assignments.erase(it);
-      return;
+
+  vector<pair<string, string>> others;
+  for (const auto& assign_pair : assignments) {
+    auto constant = constant_outputs.find(assign_pair.first);
+    if (constant == constant_outputs.end()) {
+      others.push_back(assign_pair);
+      continue;
     }
+    ReadGateString g;
+    g.type = XORGATE;
+    g.input[0] = constant->second;
+    g.input[1] = "1'b0";
+    g.output = constant->first;
+    read_circuit_string->gate_list_string.push_back(g);
+    constant_outputs.erase(constant);
   }
+  assignments.swap(others);
 }
 
 int ParseNetlist(const string &filename,
@@ -442,11 +455,7 @@ int ParseNetlist(const string &filename,
     }
   }
 }
-  DriveConstantOutput("o", read_circuit_string);
-  for (uint64_t i = 0; i < read_circuit_string->output_size; i++) {
-    DriveConstantOutput("o[" + std::to_string(i) + "]", read_circuit_string);
-  }
-  DriveConstantOutput("terminate", read_circuit_string);
+  DriveConstantOutputs(read_circuit_string);
 
   return SUCCESS;
 }
@@ -582,29 +591,43 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
   // An assignment may use a wire that a later assignment defines.
-  vector<pair<string, string>> unresolved =
-      read_circuit_string.assignment_list_string;
-  bool is_progressed = true;
-  while (!unresolved.empty() && is_progressed) {
-    vector<pair<string, string>> left;
-    for (const auto& assign_pair : unresolved) {
+  const auto& assignments = read_circuit_string.assignment_list_string;
+  vector<bool> is_resolved(assignments.size(), false);
+  map<string, vector<uint64_t>> waiting;
+  for (uint64_t i = 0; i < assignments.size(); i++) {
+    vector<uint64_t> ready(1, i);
+    while (!ready.empty()) {
+      uint64_t j = ready.back();
+      ready.pop_back();
+      if (is_resolved[j]) {
+        continue;
+      }
+      const auto& assign_pair = assignments[j];
+      string named;
       if (wire_name_table.count(assign_pair.first)) {
         wire_name_table[assign_pair.second] =
             wire_name_table[assign_pair.first];
+        named = assign_pair.second;
       } else if (wire_name_table.count(assign_pair.second)) {
         wire_name_table[assign_pair.first] =
             wire_name_table[assign_pair.second];
+        named = assign_pair.first;
       } else {
-        left.push_back(assign_pair);
+        waiting[assign_pair.first].push_back(j);
+        waiting[assign_pair.second].push_back(j);
+        continue;
       }
+      is_resolved[j] = true;
+      ready.insert(ready.end(), waiting[named].begin(), waiting[named].end());
+      waiting.erase(named);
     }
-    is_progressed = left.size() < unresolved.size();
-    unresolved.swap(left);
   }
-  for (const auto& assign_pair : unresolved) {
-    LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-        << assign_pair.second
-        << " which were mentioned in an assignment statement" << endl;
+  for (uint64_t i = 0; i < assignments.size(); i++) {
+    if (!is_resolved[i]) {
+      LOG(ERROR) << "Can not find wire " << assignments[i].first << " or "
+          << assignments[i].second
+          << " which were mentioned in an assignment statement" << endl;
+    }
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


From 6ea5b54053684001ec420a060cbb1dba2ab4cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:31 +0000
Subject: [PATCH 29/54] fix: refuse netlists whose assignments, ranges or sizes
 are not well formed

An = outside an assignment wrote before the start of the list of assignments,
an output or terminate port made a constant backwards was written as an index
outside the circuit, and a Bristol file with more inputs than wires never
ended.
---
 scd/parse_netlist.cpp | 18 +++++++++++++++++-
 scd/scheduling.cpp    |  3 +++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index ed9100a..b63fc1b 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -326,6 +326,7 @@ int ParseNetlist(const string &filename,
       if (str.at(0) =='[') {
         tokenizer<> bits(str);
         tokenizer<>::iterator beg = bits.begin();
+        CHECK_EXPR_MSG(beg != bits.end(), "The range is missing: " + line);
         string bits_str(*beg);
         no_of_bits = atoi(bits_str.c_str())+1;
       } else if(str.compare("clk") && str.compare("rst")) {
@@ -354,6 +355,7 @@ int ParseNetlist(const string &filename,
       if (str.at(0) =='[') {
         tokenizer<> bits(str);
         tokenizer<>::iterator beg = bits.begin();
+        CHECK_EXPR_MSG(beg != bits.end(), "The range is missing: " + line);
         string bits_str(*beg);
         no_of_bits = atoi(bits_str.c_str())+1;
       } else if(!str.compare("terminate")) {
@@ -376,6 +378,9 @@ int ParseNetlist(const string &filename,
           std::make_pair(str, ""));
       is_left_assignmnet = false;
     } else if(!str.compare("=")) {
+      CHECK_EXPR_MSG(!read_circuit_string->assignment_list_string.empty()
+          && read_circuit_string->assignment_list_string.back().second == "",
+          "= is not of an assignment: " + line);
       is_right_assignmnet = true;
     } else if(is_right_assignmnet) {
       const auto assign_pair = read_circuit_string->assignment_list_string.back();
@@ -455,6 +460,10 @@ int ParseNetlist(const string &filename,
     }
   }
 }
+  for (const auto& assign_pair : read_circuit_string->assignment_list_string) {
+    CHECK_EXPR_MSG(assign_pair.second != "",
+                   "Nothing is assigned to " + assign_pair.first);
+  }
   DriveConstantOutputs(read_circuit_string);
 
   return SUCCESS;
@@ -499,7 +508,7 @@ int ParseBrisNetlist(const string &filename,
     return -1;
   }
 
-  uint64_t gate_size, wire_size;
+  uint64_t gate_size = 0, wire_size = 0;
   fin >> gate_size >> wire_size;
 
   CHECK_EXPR_MSG(gate_size != 0 && wire_size != 0,
@@ -508,6 +517,13 @@ int ParseBrisNetlist(const string &filename,
   fin >> read_circuit_string->g_input_size >> read_circuit_string->e_input_size
       >> read_circuit_string->output_size;
 
+  CHECK_EXPR_MSG(fin.good()
+      && read_circuit_string->g_input_size <= wire_size
+      && read_circuit_string->e_input_size
+          <= wire_size - read_circuit_string->g_input_size
+      && read_circuit_string->output_size <= wire_size,
+      "Number of inputs or outputs is missing or more than the wires.");
+
   for (uint64_t gid = 0; gid < gate_size; gid++) {
     string g_type;
     uint64_t inpu_num, output_num, i0, i1, o;
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 303a4b0..59a7abf 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -491,10 +491,13 @@ int SortNetlist(ReadCircuit *read_circuit,
     }
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->output_size; i++) {
+    CHECK_EXPR_MSG(read_circuit->output_list[i] >= 0, "output is not a wire");
     read_circuit->output_list[i] = sorted_list_1[read_circuit->output_list[i]];
   }
 
   if (read_circuit->terminate_id != 0) {
+    CHECK_EXPR_MSG((int64_t) read_circuit->terminate_id > 0,
+                   "terminate is not a wire");
     read_circuit->terminate_id = sorted_list_1[read_circuit->terminate_id];
   }
 
-- 
2.43.0


From bbdfee5b6299e38388c25ada04e0fc07f93f6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 30/54] fix: skip the comments and attributes of netlists

Their words were taken for declarations, cells and assignments.
---
 scd/parse_netlist.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index b63fc1b..7b07863 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -17,6 +17,7 @@
 
 #include "scd/parse_netlist.h"
 
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/algorithm/string/replace.hpp>
 #include <boost/tokenizer.hpp>
 #include <boost/foreach.hpp>
@@ -127,6 +128,7 @@ int ParseNetlist(const string &filename,
 
   map<string, string> port;
   string port_key;
+  string skip_until;  // the end of the comment or attribute being skipped
 
   while (!endoffile) {
     CHECK_EXPR_MSG(fin.good(), "File is broken, no endmodule found.");
@@ -135,6 +137,23 @@ int ParseNetlist(const string &filename,
     char_separator<char> sep(" ,()\t\r", ";");
     tokenizer<char_separator<char> > tok(line, sep);
     BOOST_FOREACH(string str, tok){
+    if (skip_until == "") {
+      if (!str.compare(0, 2, "//")) {
+        break;
+      } else if (!str.compare(0, 2, "/*")) {
+        skip_until = "*/";
+        str.erase(0, 2);
+      } else if (str.at(0) == '*') {  // (* attribute *) without parentheses
+        skip_until = "*";
+        str.erase(0, 1);
+      }
+    }
+    if (skip_until != "") {
+      if (boost::algorithm::ends_with(str, skip_until)) {
+        skip_until = "";
+      }
+      continue;
+    }
     if(!str.compare(";")) {
       if(gate_type == ANDGATE || gate_type == ANDNGATE ||
           gate_type == NANDGATE|| gate_type == NANDNGATE ||
-- 
2.43.0


From 6ec908bb4928568de6c154eb7ee24df40e79ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 31/54] fix: refuse netlists with pins that no cell has

The net of such a pin replaced the net of the pin before it.
---
 scd/parse_netlist.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 7b07863..79ed14f 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -467,6 +467,9 @@ int ParseNetlist(const string &filename,
       port_key = "";
     } else if (!str.compare(".RST")) {
       port_key = "";
+    } else if (str.at(0) == '.' && gate_type != INVALGATE) {
+      LOG(ERROR) << "The pin name is not valid " << str << ": " << line << endl;
+      return FAILURE;
     } else if(port_key != "") {
       // fix Synopsys 2015 bug:
       // space after '['
-- 
2.43.0


From a708dc5d8ce561d30c0921848021ec2f76a94bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:21 +0000
Subject: [PATCH 32/54] fix: keep the dump files of the two parties apart

The dump directory given on the command line replaced the name prefix with
the party's name that the logger had prepared.
---
 garbled_circuit/garbled_circuit_main.cpp | 2 +-
 util/log.cpp                             | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/garbled_circuit/garbled_circuit_main.cpp b/garbled_circuit/garbled_circuit_main.cpp
index f1c6087..ba5a9e8 100644
--- a/garbled_circuit/garbled_circuit_main.cpp
+++ b/garbled_circuit/garbled_circuit_main.cpp
@@ -180,7 +180,7 @@ int main(int argc, char* argv[]) {
    "File or Hexadecimal input.")  //
   ("clock_cycles,c", po::value<uint64_t>(&clock_cycles)->default_value(1),
    "Number of clock cycles to evaluate the circuit.")  //
-  ("dump_directory", po::value<string>(&dump_prefix)->default_value(""),
+  ("dump_directory", po::value<string>()->default_value(""),
    "Directory for dumping memory hex files.")  //
   ("disable_OT", "Disables Oblivious Transfer (OT) for transferring labels. "
    "WARNING: OT is crucial for GC security.")  //
diff --git a/util/log.cpp b/util/log.cpp
index 1db94f2..707d6a0 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -62,6 +62,7 @@ void LogInitial(int argc, char *argv[]) {
       .allow_unregistered().run();
 
   po::store(parsed, vm);
+  po::notify(vm);
 
   bool log_2_std = false;
   if (vm.count("log2std")) {
-- 
2.43.0


From 16b2ef5ec60d0493d535deed86935ae5d498270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:21 +0000
Subject: [PATCH 33/54] fix: dump the garbler's output labels in low-memory
 mode, too

---
 garbled_circuit/garbled_circuit_low_mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index eba599b..4952153 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -553,6 +553,7 @@ uint64_t GarbleLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     output_labels[(i) * 2 + 0] = wires[garbled_circuit.outputs[i]].label0;
     output_labels[(i) * 2 + 1] = wires[garbled_circuit.outputs[i]].label1;
     output_vals[i] = wires_val[garbled_circuit.outputs[i]];
+    DUMP("output") << wires[garbled_circuit.outputs[i]].label0 << endl;
   }
   if (garbled_circuit.terminate_id > 0) {
     (*terminate_label) = wires[garbled_circuit.terminate_id];
-- 
2.43.0


From 519abaa4ac2a14090de2b7b7dc6dc2ab0d855fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:02 +0000
Subject: [PATCH 34/54] fix: do not abort on options that the logger cannot
 read

---
 util/log.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/util/log.cpp b/util/log.cpp
index 707d6a0..8dcf5a6 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -58,11 +58,15 @@ void LogInitial(int argc, char *argv[]) {
   ("log2std", "");
 
   po::variables_map vm;
-  po::parsed_options parsed = po::command_line_parser(argc, argv).options(desc)
-      .allow_unregistered().run();
-
-  po::store(parsed, vm);
-  po::notify(vm);
+  try {
+    po::parsed_options parsed = po::command_line_parser(argc, argv).options(
+        desc).allow_unregistered().run();
+
+    po::store(parsed, vm);
+    po::notify(vm);
+  } catch (po::error& e) {
+    vm.clear();  // the program itself refuses (or has another use for) them
+  }
 
   bool log_2_std = false;
   if (vm.count("log2std")) {
-- 
2.43.0


From 293ec99891ce5442c2e891b2e9a3ece98522e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:16 +0000
Subject: [PATCH 35/54] fix: refuse inputs and masks that are not hexadecimal

A number was read up to its first character that is no digit, so that
0x12, or the name of a missing file, silently became another number.
---
 garbled_circuit/garbled_circuit.cpp | 12 ++++++++++++
 scd/scd_evaluator.cpp               |  7 +++++++
 util/util.cpp                       |  4 ++++
 util/util.h                         |  1 +
 4 files changed, 24 insertions(+)

diff --git a/garbled_circuit/garbled_circuit.cpp b/garbled_circuit/garbled_circuit.cpp
index f5ee567..b1a6ae0 100644
--- a/garbled_circuit/garbled_circuit.cpp
+++ b/garbled_circuit/garbled_circuit.cpp
@@ -59,6 +59,12 @@ int GarbleStr(const string& scd_file_address, const string& p_init_str,
     return FAILURE;
   }
 
+  if (!IsHexStr(p_init_str) || !IsHexStr(p_input_str) || !IsHexStr(init_str)
+      || !IsHexStr(input_str) || !IsHexStr(output_mask)) {
+    LOG(ERROR) << "Init, input, and output mask should be hexadecimal." << endl;
+    return FAILURE;
+  }
+
   GarbledCircuit garbled_circuit;
   if (ReadSCD(scd_file_address, &garbled_circuit) == FAILURE) {
     LOG(ERROR) << "Error while reading scd file: " << scd_file_address << endl;
@@ -137,6 +143,12 @@ int EvaluateStr(const string& scd_file_address, const string& p_init_str,
     return FAILURE;
   }
 
+  if (!IsHexStr(p_init_str) || !IsHexStr(p_input_str) || !IsHexStr(init_str)
+      || !IsHexStr(input_str) || !IsHexStr(output_mask)) {
+    LOG(ERROR) << "Init, input, and output mask should be hexadecimal." << endl;
+    return FAILURE;
+  }
+
   GarbledCircuit garbled_circuit;
   if (ReadSCD(scd_file_address, &garbled_circuit) == FAILURE) {
     LOG(ERROR) << "Error while reading scd file: " << scd_file_address << endl;
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index a7445f6..e39f32b 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -257,6 +257,13 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
                           const string& g_input_str, const string& e_input_str,
                           uint64_t clock_cycles, int64_t terminate_period,
                           OutputMode output_mode, string* outputs_str) {
+  if (!IsHexStr(p_init_str) || !IsHexStr(g_init_str) || !IsHexStr(e_init_str)
+      || !IsHexStr(p_input_str) || !IsHexStr(g_input_str)
+      || !IsHexStr(e_input_str)) {
+    LOG(ERROR) << "Init and input should be hexadecimal." << endl;
+    return FAILURE;
+  }
+
   BIGNUM* p_init = BN_new();
   BIGNUM* g_init = BN_new();
   BIGNUM* e_init = BN_new();
diff --git a/util/util.cpp b/util/util.cpp
index 6a31163..e8f2568 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -369,6 +369,10 @@ string ReadFileOrPassHex(string file_hex_str) {  // file address of or a hex str
 }
 
 
+bool IsHexStr(const string& str) {  // nothing but hexadecimal digits
+  return str.find_first_not_of("0123456789abcdefABCDEF") == string::npos;
+}
+
 bool icompare_pred(unsigned char a, unsigned char b) {
   return std::tolower(a) == std::tolower(b);
 }
diff --git a/util/util.h b/util/util.h
index 6876ef5..e5ea025 100644
--- a/util/util.h
+++ b/util/util.h
@@ -52,6 +52,7 @@ string bin2hex(string);
 string formatGCOutputMask(uint16_t , uint16_t , bool );
 
 string ReadFileOrPassHex(string file_hex_str);
+bool IsHexStr(const string& str);
 bool icompare(std::string const& a, std::string const& b);
 
 #endif /* UTIL_UTIL_H_ */
-- 
2.43.0


From 644e79c51819ff34c02986f90604468575d91712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:34 +0000
Subject: [PATCH 36/54] fix: refuse plaintext evaluations of no cycle, as the
 parties do

---
 scd/scd_evaluator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index e39f32b..03f1b9d 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -257,6 +257,10 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
                           const string& g_input_str, const string& e_input_str,
                           uint64_t clock_cycles, int64_t terminate_period,
                           OutputMode output_mode, string* outputs_str) {
+  if (clock_cycles == 0) {
+    return FAILURE;
+  }
+
   if (!IsHexStr(p_init_str) || !IsHexStr(g_init_str) || !IsHexStr(e_init_str)
       || !IsHexStr(p_input_str) || !IsHexStr(g_input_str)
       || !IsHexStr(e_input_str)) {
-- 
2.43.0


From 2ebf01ddfd0f581cef6ee1fac7ba82a18ec10f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:14 +0000
Subject: [PATCH 37/54] fix: keep the log of a party that started in the same
 second

---
 util/log.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/log.cpp b/util/log.cpp
index 8dcf5a6..69c7a80 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -91,6 +91,7 @@ void LogInitial(int argc, char *argv[]) {
     }
   }
 
+  // Another party may have started in the same second: both add to the file.
   string timestamp = std::to_string(time(nullptr));
   string file_addresss_prefix = string(argv[0]) + "-" + timestamp;
 
@@ -99,7 +100,7 @@ void LogInitial(int argc, char *argv[]) {
   } else {
     string file_addresss_info = file_addresss_prefix + "-info.log";
     log_map[INFO] = new std::ofstream(file_addresss_info.c_str(),
-                                      std::ios::out);
+                                      std::ios::out | std::ios::app);
   }
 
   if (log_2_std || error_2_std) {
@@ -107,7 +108,7 @@ void LogInitial(int argc, char *argv[]) {
   } else {
     string file_addresss_error = file_addresss_prefix + "-error.log";
     log_map[ERROR] = new std::ofstream(file_addresss_error.c_str(),
-                                       std::ios::out);
+                                       std::ios::out | std::ios::app);
   }
 }
 
-- 
2.43.0


From 5738fe204f8c6a4b641526dcba4f91ddce1786db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:17 +0000
Subject: [PATCH 38/54] fix: sort in merge-sort (the recursion changed the
 middle it split at)

---
 a23/merge-sort/merge-sort.c |   4 +-
 a23/merge-sort/p.txt        | 149 ++++++++++++++++++------------------
 2 files changed, 76 insertions(+), 77 deletions(-)

diff --git a/a23/merge-sort/merge-sort.c b/a23/merge-sort/merge-sort.c
index 5d4a97b..e0ac837 100644
--- a/a23/merge-sort/merge-sort.c
+++ b/a23/merge-sort/merge-sort.c
@@ -3,10 +3,10 @@
 #define O_SIZE 32 // size of output array
 
 int __attribute__((aligned(256))) b[G_SIZE]; // temporary array for mergesort
-int i, j, k, m;
+int i, j, k;
 void mergesort(int* array, int l, int r) {
   if (r > l) {
-    m = (r + l) / 2;
+    int m = (r + l) / 2;
     mergesort(array, l, m);
     mergesort(array, m + 1, r);
     for (i = m + 1; i > l; i--)
diff --git a/a23/merge-sort/p.txt b/a23/merge-sort/p.txt
index f5e1ba9..41a4850 100644
--- a/a23/merge-sort/p.txt
+++ b/a23/merge-sort/p.txt
@@ -2,7 +2,7 @@ e59fd01c
 e59f000c
 e59f100c
 e59f200c
-eb00004c
+eb00004b
 eafffffe
 01000000
 02000000
@@ -10,92 +10,91 @@ eafffffe
 04000100
 e1520001
 d1a0f00e
-eaffffff
-e92d41f0
+e92d4bf0
+e28db018
 e1a05000
-e1a06001
+e0820001
 e1a04002
-e0822001
-e0822fa2
-e1a020c2
-e59f70dc
-e5872000
+e1a06001
+e0809fa0
+e1a00005
+e1a070c9
+e1a02007
 ebfffff2
-e5971000
+e3a00001
 e1a02004
-e2811001
+e08080c9
 e1a00005
-ebffffed
-e5971000
-e59f30bc
-e2812001
-e5832000
-e59fc0b4
-e5932000
-e1560002
-aa000005
-e2420001
-e2422107
-e7952102
-e78c2100
-e5830000
-eafffff6
-e59f2090
-e5821000
-e59fe084
-e0840001
-e5921000
-e1540001
-da000005
-e281c001
-e795710c
-e0401001
-e78e7101
-e582c000
-eafffff6
-e59f1060
-e5816000
-e59f6050
-e591e000
-e154000e
-ba00000e
-e593c000
-e796810c
-e5920000
-e7967100
-e1580007
-b28cc001
-b583c000
-b785810e
-a2400001
-a5820000
-a785710e
-e5910000
-e2800001
-e5810000
-eaffffed
-e8bd81f0
-0000038c
-00000388
-00000300
+e1a01008
+ebffffec
+e59f00c0
+e15600c9
+e5808000
+ca000008
+e59f10b4
+e1a02007
+e7953102
+e5802000
+e1520006
+e7813102
+e2423001
+e1a02003
+cafffff8
+e1570004
+e5807004
+aa000008
+e59f2084
+e2851004
+e0822104
+e7913107
+e2877001
+e1540007
+e5807004
+e4023004
+1afffff9
+e1560004
+e5806008
+da000001
+e8bd4bf0
+e1a0f00e
+e59fc04c
+ea000008
+e2411001
+e1a02007
+e5801004
+e7852106
+e5901008
+e2816001
+e1510004
+e5806008
+aafffff2
+e5903000
+e5901004
+e79c7101
+e79c2103
+e1520007
+aafffff0
+e2831001
+e5801000
+eafffff0
 00000380
-00000384
-e52de004
-e1a0e000
-e1a00002
+00000300
+e92d4800
+e1a0b00d
+e1a0c002
 e3a03000
-e79ec103
+e790e103
 e7912103
-e022200c
-e7802103
+e022200e
+e78c2103
 e2833001
 e3530020
 1afffff8
-e3a0201f
+e1a0000c
 e3a01000
-e49de004
-eaffffab
-00000000
+e3a0201f
+e8bd4800
+eaffffa8
 00000000
 00000000
 00000000
-- 
2.43.0


From 09dee7460263cc6862b99c57556ff9e8e2241882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:17 +0000
Subject: [PATCH 39/54] fix: compare words without sign in the native compare,
 as on the processor

---
 a23/compare/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index 48012fe..c7f5a29 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -26,7 +26,7 @@ static int compare_array(const int *g, const int *e, int *o) {
 static int compare_array(const int *g, const int *e, int *o) {
   int greater = 0;
   for(int i = 0; i < G_SIZE;i++) {
-    greater = (g[i] == e[i])?greater:(g[i] < e[i]);
+    greater = (g[i] == e[i])?greater:((uint)g[i] < (uint)e[i]);
   }
   return greater;
 }
-- 
2.43.0


From 3ce5061a7427c0c69e5740cfe21734250ce0561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:42 +0000
Subject: [PATCH 40/54] fix: room for all the intermediate bits of the S-box
 programs

---
 a23/aes/aes.c   | 2 +-
 a23/sbox/sbox.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/aes/aes.c b/a23/aes/aes.c
index 54af8d0..ba121a4 100644
--- a/a23/aes/aes.c
+++ b/a23/aes/aes.c
@@ -99,7 +99,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
diff --git a/a23/sbox/sbox.c b/a23/sbox/sbox.c
index 847aaba..551c25a 100644
--- a/a23/sbox/sbox.c
+++ b/a23/sbox/sbox.c
@@ -26,7 +26,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
-- 
2.43.0


From 68445927a29fb73242bfeaa766ffe1b114c2261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:23 +0000
Subject: [PATCH 41/54] fix: elfsplitter: only what a program loads, in an
 image that is large enough

---
 a23/tools/amber-elfsplitter.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/a23/tools/amber-elfsplitter.c b/a23/tools/amber-elfsplitter.c
index e97ad1e..2680682 100644
--- a/a23/tools/amber-elfsplitter.c
+++ b/a23/tools/amber-elfsplitter.c
@@ -82,6 +82,9 @@ while the segments are intended to be mapped into memory.
 #define	SHT_NUM			19
 
 
+#define	SHF_ALLOC		2		/* sh_flags: the section occupies memory */
+
+
 /* Main ELF Header Table */
 typedef struct {
    unsigned char  e_ident[EI_NIDENT]; /* bytes 0 to 15  */
@@ -213,7 +216,7 @@ int main(int argc,char *argv[])
    unsigned int length,i;
    unsigned int StringSectionOffset;
    unsigned int StringSectionOffsetFound = 0;
-   unsigned int outP;
+   unsigned int outP, out_size = 0;
    
    char filename_mem[80], filename_nopath[80];
    char tmp[6] = {0x0, 0x0, 0x0, 0x0, 0x0, 0x0 };
@@ -244,7 +247,6 @@ int main(int argc,char *argv[])
    infile_size = fsize(infile);
    
    inbuf =(unsigned char*)malloc(infile_size);
-   outbuf=(unsigned char*)malloc(infile_size*2);
    buf_size=fread(inbuf,1,infile_size,infile);
    fclose(infile);
 
@@ -295,6 +297,18 @@ int main(int argc,char *argv[])
    }
 
 
+   /* The memory reaches to the end of the last section */
+   for(i=0;i<elfHeader->e_shnum;++i) {
+      elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
+      if ((elfSection->sh_flags & SHF_ALLOC) && elfSection->sh_addr + elfSection->sh_size > out_size)
+         out_size = elfSection->sh_addr + elfSection->sh_size;
+      }
+   outbuf=(unsigned char*)calloc((size_t)out_size+8,1);
+   if (outbuf==NULL) {
+      fprintf(stderr, "%s ERROR: Not enough memory for 0x%x bytes\n", argv[0], out_size);
+      exit(1);
+      }
+
    /* Find the location in the file of the string section
       containing the section names
    */   
@@ -324,7 +338,7 @@ int main(int argc,char *argv[])
         
 
         /* section with non-zero bits, can be either text or data */
-        if (elfSection->sh_type == SHT_PROGBITS && elfSection->sh_size != 0) {
+        if (elfSection->sh_type == SHT_PROGBITS && (elfSection->sh_flags & SHF_ALLOC) && elfSection->sh_size != 0) {
             for (j=0; j<elfSection->sh_size; j++) {
                k = j + elfSection->sh_offset;
                outP = elfSection->sh_addr + j;
@@ -334,7 +348,7 @@ int main(int argc,char *argv[])
            }
            
            
-        if (elfSection->sh_type == SHT_NOBITS && elfSection->sh_size != 0) {
+        if (elfSection->sh_type == SHT_NOBITS && (elfSection->sh_flags & SHF_ALLOC) && elfSection->sh_size != 0) {
             printf("// .bss Dump Zeros\n");
             for (j=0; j<elfSection->sh_size; j++) {
                outP = j + elfSection->sh_addr;
-- 
2.43.0


From 6fddfda9954cb2d4c99057a14ce211c1b7492727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 42/54] fix: the flags are clobbered by the assembly of sum and
 compare

---
 a23/compare/compare.c | 2 +-
 a23/sum/sum.c         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index c7f5a29..9312b49 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -17,7 +17,7 @@ static int compare_array(const int *g, const int *e, int *o) {
       "adcs %[c], %[a], %[b]\n\t"
       "mov %[dd], #0\n\t"
       "movhs %[dd], #1"  :
-      [c] "=r" (dumm), [dd] "=r" (carry)  : [a] "r" (g[i]), [b] "r" (nei), [d] "r" (carry)
+      [c] "=r" (dumm), [dd] "=r" (carry)  : [a] "r" (g[i]), [b] "r" (nei), [d] "r" (carry) : "cc"
     );
   }
   return !carry;
diff --git a/a23/sum/sum.c b/a23/sum/sum.c
index a660b71..6f43fc2 100644
--- a/a23/sum/sum.c
+++ b/a23/sum/sum.c
@@ -17,14 +17,14 @@ void sum_array(const int *g, const int *e, int *o) {
       "mov %[dd], #0\n\t"
       "movhs %[dd], #1"  :
       [c] "=r" (o[i]), [dd] "=r" (carry) :
-      [a] "r" (g[i]), [b] "r" (e[i]), [d] "r" (carry)
+      [a] "r" (g[i]), [b] "r" (e[i]), [d] "r" (carry) : "cc"
     );
   }
   asm (
     "cmp %[d], #1\n\t"
     "adc %[c], %[a], %[b]\n\t" :
     [c] "=r" (o[G_SIZE-1]) :
-    [a] "r" (g[G_SIZE-1]), [b] "r" (e[G_SIZE-1]), [d] "r" (carry)
+    [a] "r" (g[G_SIZE-1]), [b] "r" (e[G_SIZE-1]), [d] "r" (carry) : "cc"
   );
 }
 #else 
-- 
2.43.0


From ded8f582b3bf7b797da6647b40f53d34f67db366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:47 +0000
Subject: [PATCH 43/54] fix: elfsplitter: section names are in the section that
 the header names

---
 a23/tools/amber-elfsplitter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/tools/amber-elfsplitter.c b/a23/tools/amber-elfsplitter.c
index 2680682..07e362d 100644
--- a/a23/tools/amber-elfsplitter.c
+++ b/a23/tools/amber-elfsplitter.c
@@ -314,7 +314,7 @@ int main(int argc,char *argv[])
    */   
    for(i=0;i<elfHeader->e_shnum;++i) {
       elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
-      if (elfSection->sh_type == SHT_STRTAB && !StringSectionOffsetFound) { 
+      if (i == elfHeader->e_shstrndx && !StringSectionOffsetFound) { 
          StringSectionOffset      = elfSection->sh_offset; 
          StringSectionOffsetFound = 1;
          }
-- 
2.43.0


From 51d06292a14716fe815f929c98fae17f9f72fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:30 +0000
Subject: [PATCH 44/54] fix: SHIFT_LEFT shifts left and SHIFT_RIGHT shifts
 right

---
 circuit_synthesis/syn_lib/SHIFT_LEFT.v  | 2 +-
 circuit_synthesis/syn_lib/SHIFT_RIGHT.v | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/syn_lib/SHIFT_LEFT.v b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
index e3f0c7c..15c6615 100644
--- a/circuit_synthesis/syn_lib/SHIFT_LEFT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
@@ -25,7 +25,7 @@ module SHIFT_LEFT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
     end
   endgenerate
 
diff --git a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
index 391c130..58cbff5 100644
--- a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
@@ -25,7 +25,7 @@ module SHIFT_RIGHT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
     end
   endgenerate
 
-- 
2.43.0


From 0da8862089a186bf452158b2d082db09dc43df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:30 +0000
Subject: [PATCH 45/54] fix: the nearest neighbour searches keep the nearest
 value

---
 circuit_synthesis/knns/first_nns_comb.v       | 8 ++++----
 circuit_synthesis/knns/first_nns_seq.v        | 8 ++++----
 circuit_synthesis/knns_td/first_nns_comb_td.v | 8 ++++----
 circuit_synthesis/knns_td/first_nns_seq_td.v  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/circuit_synthesis/knns/first_nns_comb.v b/circuit_synthesis/knns/first_nns_comb.v
index 6748ba6..c227465 100644
--- a/circuit_synthesis/knns/first_nns_comb.v
+++ b/circuit_synthesis/knns/first_nns_comb.v
@@ -86,8 +86,8 @@ module first_nns_comb
 		)
 		MUX_1
 		(
-			.A(DBi[i]),
-			.B(min_val[i-1]),
+			.A(min_val[i-1]),
+			.B(DBi[i]),
 			.S(gt_dist[i]),
 			.O(min_val[i])
 		);
@@ -98,8 +98,8 @@ module first_nns_comb
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns/first_nns_seq.v b/circuit_synthesis/knns/first_nns_seq.v
index 35cc565..46a5b08 100644
--- a/circuit_synthesis/knns/first_nns_seq.v
+++ b/circuit_synthesis/knns/first_nns_seq.v
@@ -67,8 +67,8 @@ module first_nns_seq
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -79,8 +79,8 @@ module first_nns_seq
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
diff --git a/circuit_synthesis/knns_td/first_nns_comb_td.v b/circuit_synthesis/knns_td/first_nns_comb_td.v
index afde135..4566afe 100644
--- a/circuit_synthesis/knns_td/first_nns_comb_td.v
+++ b/circuit_synthesis/knns_td/first_nns_comb_td.v
@@ -100,8 +100,8 @@ module first_nns_comb_td
 		MUX_1
 		(
 			//.A(DBi[i]),
-			.A({x1[i], y1[i]}),
-			.B({min_val_x[i-1], min_val_y[i-1]}),
+			.A({min_val_x[i-1], min_val_y[i-1]}),
+			.B({x1[i], y1[i]}),
 			.S(gt_dist[i]),
 			.O({min_val_x[i], min_val_y[i]})
 		);
@@ -112,8 +112,8 @@ module first_nns_comb_td
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns_td/first_nns_seq_td.v b/circuit_synthesis/knns_td/first_nns_seq_td.v
index 8dbec88..b7f182d 100644
--- a/circuit_synthesis/knns_td/first_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/first_nns_seq_td.v
@@ -75,8 +75,8 @@ module first_nns_seq_td
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -87,8 +87,8 @@ module first_nns_seq_td
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
-- 
2.43.0


From fa97fc911bfc35f4eb1102f2431dd1070afaa176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:30 +0000
Subject: [PATCH 46/54] fix: first_nns_seq compares with the value of its input

---
 circuit_synthesis/knns/first_nns_seq.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/knns/first_nns_seq.v b/circuit_synthesis/knns/first_nns_seq.v
index 46a5b08..3addc5e 100644
--- a/circuit_synthesis/knns/first_nns_seq.v
+++ b/circuit_synthesis/knns/first_nns_seq.v
@@ -45,7 +45,7 @@ module first_nns_seq
 	)
 	COUNT_
 	(
-		.A(g_input ^ DBi),
+		.A(g_input ^ e_input),
 		.S(dist)
 	);
 
-- 
2.43.0


From 2b8f729eb915a5e24b88ddfadd83bf736283f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:30 +0000
Subject: [PATCH 47/54] fix: modmult_step selects the operand when the bit is
 set

---
 circuit_synthesis/rsa/modmult.v | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/circuit_synthesis/rsa/modmult.v b/circuit_synthesis/rsa/modmult.v
index 22ff7e0..26642dd 100644
--- a/circuit_synthesis/rsa/modmult.v
+++ b/circuit_synthesis/rsa/modmult.v
@@ -177,8 +177,8 @@ module modmult_step
 	)
 	MUX_1
 	(
-		.A(y_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(y_ext),
 		.S(xregN_1),
 		.O(w1)
 	);	
@@ -189,8 +189,8 @@ module modmult_step
 	)
 	MUX_2
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c1),
 		.O(w2)
 	);	
@@ -202,8 +202,8 @@ module modmult_step
 	)
 	MUX_3
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c2p),
 		.O(w3)
 	);	
-- 
2.43.0


From ad87e4721c64d72cabfc17b5b0afdb622c8f21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:30 +0000
Subject: [PATCH 48/54] fix: modmult_step subtracts the modulus also from its
 equal

---
 circuit_synthesis/rsa/modmult.v | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit_synthesis/rsa/modmult.v b/circuit_synthesis/rsa/modmult.v
index 26642dd..565b7f6 100644
--- a/circuit_synthesis/rsa/modmult.v
+++ b/circuit_synthesis/rsa/modmult.v
@@ -254,12 +254,12 @@ module modmult_step
 	)
 	COMP_2
 	(
-		.A(n_ext),
-		.B(z3), 
+		.A(z3),
+		.B(n_ext), 
 		.O(c2)
 	);
 
-	assign c2p = ~c2;
+	assign c2p = c2;
 
 	SUB 
 	#(
-- 
2.43.0


From 4fef69bfe66b67de9d46599143f3ab1d7ee7c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:30 +0000
Subject: [PATCH 49/54] fix: modexp_1_N drives its output

---
 circuit_synthesis/rsa/modexp_1_N.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/rsa/modexp_1_N.v b/circuit_synthesis/rsa/modexp_1_N.v
index d44786a..dfed6ca 100644
--- a/circuit_synthesis/rsa/modexp_1_N.v
+++ b/circuit_synthesis/rsa/modexp_1_N.v
@@ -44,7 +44,7 @@ module modexp_1_N
 	assign cin[0] = creg;
 	assign ein = (init)?ereg:e;
 	
-	assign c = (ein[N-N/CC])?cout2[N/CC-1]:cout1[N/CC-1];
+	assign o = (keep_2[N/CC-1])?cout2[N/CC-1]:(keep_1[N/CC-1])?cout1[N/CC-1]:g_input;
 	
 	generate 
 	for(i=0;i<N/CC;i=i+1)
-- 
2.43.0


From 52f1e0a729cfd703f7da701281cddaf678e70f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:30 +0000
Subject: [PATCH 50/54] fix: modexp_2N_NN selects the operand when the
 condition is set

---
 circuit_synthesis/rsa/modexp_2N_NN.v | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/circuit_synthesis/rsa/modexp_2N_NN.v b/circuit_synthesis/rsa/modexp_2N_NN.v
index f27d0ff..6945410 100644
--- a/circuit_synthesis/rsa/modexp_2N_NN.v
+++ b/circuit_synthesis/rsa/modexp_2N_NN.v
@@ -62,8 +62,8 @@ module modexp_2N_NN
   )
   MUX_4
   (
-    .A(mod_mult_o),
-    .B(creg),
+    .A(creg),
+    .B(mod_mult_o),
     .S(((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow))),
     .O(w1)
   );  
@@ -76,8 +76,8 @@ module modexp_2N_NN
   )
   MUX_6
   (
-    .A({ein[N-2:0], 1'b0}),
-    .B(ereg),
+    .A(ereg),
+    .B({ein[N-2:0], 1'b0}),
     .S(mul_pow),
     .O(w2)
   );  
@@ -126,8 +126,8 @@ module modexp_2N_NN
   )
   MUX_9
   (
-    .A(mreg),
-    .B(w3),
+    .A(w3),
+    .B(mreg),
     .S(mul_pow),
     .O(y)
   );  
-- 
2.43.0


From 442ca8c5da4d33b1eec76e538639cd20c149cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:41 +0000
Subject: [PATCH 51/54] fix: modexp_2N_NN takes the result of a modular product
 when it is complete

---
 circuit_synthesis/rsa/modexp_2N_NN.v | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/circuit_synthesis/rsa/modexp_2N_NN.v b/circuit_synthesis/rsa/modexp_2N_NN.v
index 6945410..15dac33 100644
--- a/circuit_synthesis/rsa/modexp_2N_NN.v
+++ b/circuit_synthesis/rsa/modexp_2N_NN.v
@@ -104,11 +104,11 @@ module modexp_2N_NN
       if(start_in[CC/(2*N)-1])
         mul_pow <= ~mul_pow;
 
-      ereg <= ereg_next;
-      creg <= creg_next;
-    
       if(start_in[CC/(2*N)-1])
       begin
+        ereg <= ereg_next;
+        creg <= creg_next;
+
         if(ein[N-1] & mul_pow)
         begin
           first_one <= 1;
@@ -117,7 +117,8 @@ module modexp_2N_NN
     end
   end
 
-  assign x = creg;
+  // a product of several cycles takes x in the cycle before its first one
+  assign x = (CC/(2*N) > 1)? creg_next : creg;
   assign w3 = creg;
   
   MUX 
@@ -143,7 +144,7 @@ module modexp_2N_NN
   (
     .clk(clk),
     .rst(rst),
-    .start(start_in[0]),
+    .start(start_in[CC/(2*N)-1]),
     .x(x),
     .y(y),
     .n(nreg),
-- 
2.43.0


From 9b7cc6ee363297f17ba89ec82ac7742da7b81f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:41 +0000
Subject: [PATCH 52/54] fix: the output of k_nns_seq_td and knns_seq is driven
 by their result

---
 circuit_synthesis/knns_td/k_nns_seq_td.v | 2 +-
 circuit_synthesis/knns_td/knns_seq_td.v  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/knns_td/k_nns_seq_td.v b/circuit_synthesis/knns_td/k_nns_seq_td.v
index af5c338..62094ae 100644
--- a/circuit_synthesis/knns_td/k_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/k_nns_seq_td.v
@@ -36,7 +36,7 @@ module k_nns_seq_td
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
diff --git a/circuit_synthesis/knns_td/knns_seq_td.v b/circuit_synthesis/knns_td/knns_seq_td.v
index 593f794..69735ed 100644
--- a/circuit_synthesis/knns_td/knns_seq_td.v
+++ b/circuit_synthesis/knns_td/knns_seq_td.v
@@ -36,7 +36,7 @@ module knns_seq
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
-- 
2.43.0


From cdf4127b4bd7c7646e9feb7abffc8f741844783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:59 +0000
Subject: [PATCH 53/54] fix: sha3_seq has the first round's constant in the
 first cycle

The state is loaded at reset, so the first cycle already does a round; the
one that selects the constant was shifted in one cycle later, and the result
was not that of Keccak-f.
---
 circuit_synthesis/sha3/sha3_seq.v | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/circuit_synthesis/sha3/sha3_seq.v b/circuit_synthesis/sha3/sha3_seq.v
index 1b9d9c6..c22dd3a 100644
--- a/circuit_synthesis/sha3/sha3_seq.v
+++ b/circuit_synthesis/sha3/sha3_seq.v
@@ -33,7 +33,6 @@ module sha3_seq
   input   [287:0]   e_init;
   output  [1599:0]	o;
   
-	reg 							init;
   reg		[CC-1:0]		rc_i; /* select round constant */
 	reg		[24-1:0]		rc_j[24/CC-1:0]; /* select round constant */
 	wire	[63:0]			rc[24/CC-1:0]; /* round constant */
@@ -46,14 +45,12 @@ module sha3_seq
 	begin
 		if (rst) 	
 		begin
-			init <= 0;
-			rc_i <= 0;
+			rc_i <= 1;
 			round_reg <= {e_init, g_init};
 		end
 		else     
 		begin
-			init <= 1;
-			rc_i <= {rc_i[CC-2:0], ~init};
+			rc_i <= {rc_i[CC-2:0], 1'b0};
 			round_reg <= round_out[24/CC-1];
 		end
     end
-- 
2.43.0


From 57611d17648bd3c5ab7b19837834c0e22d874a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:59 +0000
Subject: [PATCH 54/54] fix: the shifter of cordic keeps the sign

The coordinates are signed: shifting zeros into negative ones gave points that
are not the rotated one for most angles and quadrants.
---
 circuit_synthesis/cordic/barrel_shifter_left.v | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuit_synthesis/cordic/barrel_shifter_left.v b/circuit_synthesis/cordic/barrel_shifter_left.v
index 7f179c5..99ab731 100644
--- a/circuit_synthesis/cordic/barrel_shifter_left.v
+++ b/circuit_synthesis/cordic/barrel_shifter_left.v
@@ -26,7 +26,8 @@ module barrel_shifter_left
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift[i])?(ai[i]>>2**i):(ai[i]);
+      // arithmetic: the coordinates that it shifts are signed
+      assign ai[i+1] = (shift[i])?((ai[i][N-1])?~((~ai[i])>>2**i):(ai[i]>>2**i)):(ai[i]);
     end
   endgenerate
 
-- 
2.43.0

