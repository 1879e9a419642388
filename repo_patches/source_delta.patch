From 9ba87b2a7376559cefaa2c926cd51bad88ac0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 01/48] fix: reveal a secret terminate signal (evaluator sends
 its bit, bits differ when it is one)

---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -618,8 +618,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From f80596bbc48ac6961cba284baba6342144c25987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 02/48] fix: Bob keeps publicly known one-bits that the output
 mask assigns to him

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From dde6dea449fb3cdf033765266c20707cf2bf7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 03/48] fix: evaluator does not match gates against garbled
 tables it never received

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 6 +++++-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..96abc00 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -478,7 +478,11 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  // one extra entry: the table cursor may rest just behind the last table.
+  CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor + 1]());
+  for (uint64_t j = 0; j <= num_of_non_xor; j++) {  // no table received yet
+    garbled_tables[j].gid = (uint32_t)(-1);
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..003c1b2 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -240,7 +240,11 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  // one extra entry: the table cursor may rest just behind the last table.
+  CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor + 1]());
+  for (uint64_t j = 0; j <= num_of_non_xor; j++) {  // no table received yet
+    garbled_tables[j].gid = (uint32_t)(-1);
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 2349014758519658c4b758e41db61cfcbae1f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 04/48] fix: do not send uninitialised padding bytes of garbled
 tables to Bob

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 96abc00..15a084f 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -175,9 +175,9 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 003c1b2..24485b0 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -86,9 +86,9 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From bbe29fb532229defcf1f140703ae3e1c66bb2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 05/48] fix: propagate failures of the garbling and evaluation
 loops

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 15a084f..4de803f 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels,
+                    input_labels, global_key, R, clock_cycles,
+                    terminate_period, connfd, output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From d82c4fcf14acf865110269ef24a540a1ea9e2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 06/48] fix: CmpBlock compares all 128 bits

---
 crypto/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.h b/crypto/block.h
index 46df18b..1be47f1 100644
--- a/crypto/block.h
+++ b/crypto/block.h
@@ -68,7 +68,7 @@ typedef __m128i block;
 #define get_LSB(x) (*((unsigned short *)&x)&1)
 #define XorBlock(x,y) _mm_xor_si128((x),(y))
 #define ZeroBlock() _mm_setzero_si128()
-#define CmpBlock(X, Y) (_mm_extract_epi16((_mm_cmpeq_epi64((X), (Y))),0)==0xffff)
+#define CmpBlock(X, Y) (_mm_movemask_epi8(_mm_cmpeq_epi8((X), (Y)))==0xffff)
 #define MakeBlock(X,Y) _mm_set_epi64((__m64)(X), (__m64)(Y))
 #define DoubleBlock(B) _mm_slli_epi64(B,1)
 
-- 
2.43.0


From 621b86531e0f2ff90d11aff6751df5d432835a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 07/48] fix: RandomBlock uses a cryptographic generator (labels
 and R were predictable from the transmitted key)

---
 util/util.cpp | 44 +++++++++++---------------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..a3aa002 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -36,6 +36,7 @@
 #include "util/util.h"
 
 #include <boost/algorithm/string.hpp>
+#include <openssl/rand.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <stdint.h>
@@ -51,44 +52,21 @@
 
 using std::ifstream;
 
-static block cur_seed;
-
 void SrandSSE(unsigned int seed) {
-  cur_seed = _mm_set_epi32(seed, seed + 1, seed, seed + 1);
+  // the seed only adds to the state of the cryptographic generator.
+  RAND_add(&seed, sizeof(seed), 0);
 }
 
 block RandomBlock() {
-
-  block cur_seed_split;
-  block multiplier;
-  block adder;
-  block mod_mask;
-  //block sra_mask;
-  //block sseresult;
-
-  static const unsigned int mult[4] = { 214013, 17405, 214013, 69069 };
-  static const unsigned int gadd[4] = { 2531011, 10395331, 13737667, 1 };
-  static const unsigned int mask[4] = { 0xFFFFFFFF, 0, 0xFFFFFFFF, 0 };
-  //static const unsigned int masklo[4] = { 0x00007FFF, 0x00007FFF, 0x00007FFF,
-  //  0x00007FFF };
-
-  adder = _mm_load_si128((block *) gadd);
-  multiplier = _mm_load_si128((block *) mult);
-  mod_mask = _mm_load_si128((block *) mask);
-  //sra_mask = _mm_load_si128((block *) masklo);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_mul_epu32(cur_seed, multiplier);
-  multiplier = _mm_shuffle_epi32(multiplier, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed_split = _mm_mul_epu32(cur_seed_split, multiplier);
-  cur_seed = _mm_and_si128(cur_seed, mod_mask);
-  cur_seed_split = _mm_and_si128(cur_seed_split, mod_mask);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed_split, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_or_si128(cur_seed, cur_seed_split);
-  cur_seed = _mm_add_epi32(cur_seed, adder);
-
-  return cur_seed;
-
+  // labels, R and the garbling key must not be predictable from one another.
+  block rand_block;
+  if (RAND_bytes((unsigned char*) &rand_block, sizeof(block)) != 1) {
+    LOG(ERROR) << "Can not generate random bytes." << endl;
+    abort();
+  }
+  return rand_block;
 }
+
 /**
  * \brief constant v value based on gate Type
  *
-- 
2.43.0


From 7435914177d89ef0cf0fd4f3ac5aca9fd12ae0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 08/48] fix: release memory with the function that matches its
 allocation

---
 crypto/BN.cpp                            | 4 ++--
 garbled_circuit/garbled_circuit_util.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..7b1bba8 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -130,7 +130,7 @@ int RecvBN(int connf, BIGNUM *bignum) {
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index e912451..0ae93ee 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -35,6 +35,8 @@
 
 #include "garbled_circuit/garbled_circuit_util.h"
 
+#include <cstdlib>
+
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -55,9 +57,10 @@ uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
 }
 
 void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
-  delete[] garbled_circuit->garbledGates;
+  // garbledGates and outputs are allocated by posix_memalign in ReadSCD.
+  free(garbled_circuit->garbledGates);
   if (garbled_circuit->outputs != nullptr) {
-    delete[] garbled_circuit->outputs;
+    free(garbled_circuit->outputs);
   }
   if (garbled_circuit->I != nullptr) {
     delete[] garbled_circuit->I;
-- 
2.43.0


From 897c0abb89911319bc986d185cb848243166d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 09/48] fix: ReadSCD refuses a file that ends early

---
 scd/scd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 2bcf3ad..2a34897 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -55,6 +55,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
       >> garbled_circuit->g_input_size >> garbled_circuit->e_input_size
       >> garbled_circuit->dff_size >> garbled_circuit->output_size
       >> garbled_circuit->terminate_id >> garbled_circuit->gate_size;
+  if (f.fail()) {
+    LOG(ERROR) << "incomplete header in " << file_name << endl;
+    return FAILURE;
+  }
 
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
@@ -114,6 +118,11 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     f >> garbled_circuit->I[i];
   }
 
+  if (f.fail()) {
+    LOG(ERROR) << "incomplete circuit in " << file_name << endl;
+    return FAILURE;
+  }
+
   f.close();
 
   return SUCCESS;
-- 
2.43.0


From 98bcc472441272c1c0a2f3bd71f7678b401b42ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 10/48] fix: the plaintext evaluator reports that it could not
 evaluate

---
 scd/scd_evaluator.cpp      | 8 +++++---
 scd/scd_evaluator_main.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..259707f 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -291,9 +291,11 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
+  CHECK(
+      EvalauatePlaintext(scd_file_address,  // Store internal values in csv file
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
 
   OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
                       outputs_str);
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 356e177..ab995b1 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -122,9 +122,11 @@ int main(int argc, char*argv[]) {
   string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
 
   string output_str;
-  EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str, e_init_str,
-                        p_input_str, g_input_str, e_input_str, clock_cycles,
-                        terminate_period, output_mode, &output_str);
+  CHECK(
+      EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
+                            e_init_str, p_input_str, g_input_str, e_input_str,
+                            clock_cycles, terminate_period, output_mode,
+                            &output_str));
 
   std::cout << output_str << endl;
 
-- 
2.43.0


From a9aace69dc97dd7e015244ac9202ce8f88cc3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 11/48] fix: translate outputs and terminate signals that are
 constants

---
 scd/parse_netlist.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 85c3489..81bc671 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -64,6 +64,37 @@ string Type2StrGate(short itype) {
   return type;
 }
 
+/*
+ * Outputs of an SCD are wires. Drives every output that is assigned a constant
+ * (directly or through other assignments) by a gate with constant inputs.
+ */
+void DriveConstantOutputs(ReadCircuitString* read_circuit_string) {
+  map<string, string> source;
+  for (const auto& assign_pair : read_circuit_string->assignment_list_string) {
+    source[assign_pair.first] = assign_pair.second;
+  }
+  vector<pair<string, string>> assignments;
+  for (const auto& assign_pair : read_circuit_string->assignment_list_string) {
+    const string& name = assign_pair.first;
+    string value = assign_pair.second;
+    for (uint64_t i = 0; i < source.size() && source.count(value) > 0; i++) {
+      value = source[value];
+    }
+    if ((value == "1'b0" || value == "1'b1")
+        && (name == "terminate" || name == "o" || name.compare(0, 2, "o[") == 0)) {
+      ReadGateString g;
+      g.type = XORGATE;
+      g.input[0] = value;
+      g.input[1] = "1'b0";
+      g.output = name;
+      read_circuit_string->gate_list_string.push_back(g);
+    } else {
+      assignments.push_back(assign_pair);
+    }
+  }
+  read_circuit_string->assignment_list_string = assignments;
+}
+
 int ParseNetlist(const string &filename,
                  ReadCircuitString* read_circuit_string) {
 
@@ -410,6 +441,7 @@ int ParseNetlist(const string &filename,
     }
   }
 }
+  DriveConstantOutputs(read_circuit_string);
   return SUCCESS;
 }
 
-- 
2.43.0


From e0346f93572c0259be17caf45d00cadb6276332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 12/48] fix: accept assign statements in any order

---
 scd/parse_netlist.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 81bc671..3eeee41 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -575,18 +575,29 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
-  for (uint64_t i = 0; i < read_circuit_string.assignment_list_string.size();
-      i++) {
-    const auto assign_pair = read_circuit_string.assignment_list_string[i];
-    if (wire_name_table.count(assign_pair.first)) {
-      wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
-    } else if (wire_name_table.count(assign_pair.second)) {
-      wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
-    } else {
-      LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-          << assign_pair.second
-          << " which were mentioned in an assignment statement" << endl;
+  // assignments may refer to wires that are assigned further down.
+  auto assignments = read_circuit_string.assignment_list_string;
+  bool is_progress = true;
+  while (is_progress) {
+    is_progress = false;
+    decltype(assignments) remaining;
+    for (const auto& assign_pair : assignments) {
+      if (wire_name_table.count(assign_pair.first)) {
+        wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
+        is_progress = true;
+      } else if (wire_name_table.count(assign_pair.second)) {
+        wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
+        is_progress = true;
+      } else {
+        remaining.push_back(assign_pair);
+      }
     }
+    assignments = remaining;
+  }
+  for (const auto& assign_pair : assignments) {
+    LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
+        << assign_pair.second
+        << " which were mentioned in an assignment statement" << endl;
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


From c8f76934636f21dfb872937e660eab24c0fb7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 13/48] fix: oblivious transfer masks messages that are longer
 than the RSA modulus

---
 crypto/OT.cpp | 56 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index b7fb186..0861aa4 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -19,12 +19,43 @@
 #include "crypto/OT.h"
 
 #include <iostream>
+#include <string>
+#include <openssl/evp.h>
 #include "crypto/BN.h"
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
 
 using std::endl;
+using std::string;
+
+/*
+ * r = m xor a key stream of `bits` bits derived from k. k itself can not be added
+ * to a message that is as long as the RSA modulus or longer.
+ */
+static int MaskBN(BIGNUM* r, uint32_t bits, const BIGNUM* m, const BIGNUM* k) {
+  unsigned char k_arr[2 * RSA_BITS / 8];
+  int k_len = BN_num_bytes(k);
+  CHECK_EXPR(k_len <= (int) sizeof(k_arr));
+  BN_bn2bin(k, k_arr);
+
+  unsigned char digest[EVP_MAX_MD_SIZE];
+  uint32_t digest_len = 0;
+  string key_stream;
+  for (uint32_t i = 0; key_stream.length() * 8 < bits; i++) {
+    string block_input((const char*) &i, sizeof(i));
+    block_input.append((const char*) k_arr, k_len);
+    BN_CHECK(
+        EVP_Digest(block_input.data(), block_input.length(), digest,
+                   &digest_len, EVP_sha256(), nullptr));
+    key_stream.append((const char*) digest, digest_len);
+  }
+  BIGNUM* key_stream_bn = BN_bin2bn((const unsigned char*) key_stream.data(),
+                                    (int) key_stream.length(), nullptr);
+  BN_CHECK(BN_xor(r, bits, m, key_stream_bn));
+  BN_free(key_stream_bn);
+  return SUCCESS;
+}
 
 int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
 
@@ -37,6 +68,17 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
   // 0. check the vector size
   CHECK(SendData(connfd, &m_len, sizeof(uint32_t)));
 
+  // 0.1. send the (rounded up) length of the messages
+  uint32_t m_bits = RSA_BITS;
+  for (uint32_t i = 0; i < m_len; i++) {
+    for (uint32_t j = 0; j < 2; j++) {
+      while (m_bits < (uint32_t) BN_num_bits(m[i][j])) {
+        m_bits += RSA_BITS;
+      }
+    }
+  }
+  CHECK(SendData(connfd, &m_bits, sizeof(uint32_t)));
+
   // 1.0. generate RSA key
   BIGNUM * rsa_exponent = BN_new();
   BN_CHECK(BN_set_word(rsa_exponent, RSA_F4));
@@ -80,10 +122,10 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
     BN_CHECK(BN_sub(temp, v, x[i][1]));  // temp = v - x1
     BN_CHECK(BN_mod_exp(k1, temp, rsa_d, rsa_n, ctx));  // k1 = (v - x0)^d mod N
 
-    BN_CHECK(BN_add(k0, k0, m[i][0]));
-    CHECK(SendBN(connfd, k0));  // send m0' = m0 + k0
-    BN_CHECK(BN_add(k1, k1, m[i][1]));
-    CHECK(SendBN(connfd, k1));  // send m1' = m1 + k1
+    CHECK(MaskBN(m0, m_bits, m[i][0], k0));
+    CHECK(SendBN(connfd, m0));  // send m0' = m0 xor G(k0)
+    CHECK(MaskBN(m1, m_bits, m[i][1], k1));
+    CHECK(SendBN(connfd, m1));  // send m1' = m1 xor G(k1)
   }
 
   RSA_free(rsa);
@@ -112,6 +154,8 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
                << "reciver's length = " << m_len << endl;
     return FAILURE;
   }
+  uint32_t m_bits;
+  CHECK(RecvData(connfd, &m_bits, sizeof(uint32_t)));
 
   BN_CTX *ctx;
   ctx = BN_CTX_new();
@@ -169,9 +213,9 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
     CHECK(RecvBN(connfd, m1p));
     int sel_bit = BN_is_bit_set(sel, i);
     if (sel_bit == 0) {
-      BN_CHECK(BN_sub(mb, m0p, k[i]));  //mb = m0p - k[i]
+      CHECK(MaskBN(mb, m_bits, m0p, k[i]));  //mb = m0p xor G(k[i])
     } else {
-      BN_CHECK(BN_sub(mb, m1p, k[i]));  //mb = m1p - k[i]
+      CHECK(MaskBN(mb, m_bits, m1p, k[i]));  //mb = m1p xor G(k[i])
     }
     BN_copy(m[i], mb);
   }
-- 
2.43.0


From d75aa43dd42236648b02a5ca18feda575608c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 14/48] fix: zero the padding of garbled tables
 (value-initialisation leaves it indeterminate)

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 7 +++++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 4de803f..9346ff4 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -35,6 +35,7 @@
 
 #include "garbled_circuit/garbled_circuit_high_mem.h"
 
+#include <cstring>
 #include "scd/scd.h"
 #include "scd/scd_evaluator.h"
 #include "util/log.h"
@@ -177,9 +178,11 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  memset(garbled_tables_temp, 0, sizeof(GarbledTable) * garbled_tables_size);
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  memset(garbled_tables, 0, sizeof(GarbledTable) * garbled_tables_size);
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 24485b0..b2a258e 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -35,6 +35,7 @@
 
 #include "garbled_circuit/garbled_circuit_low_mem.h"
 
+#include <cstring>
 #include "scd/scd.h"
 #include "scd/scd_evaluator.h"
 #include "util/log.h"
@@ -86,9 +87,11 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  memset(garbled_tables_temp, 0, sizeof(GarbledTable) * garbled_tables_size);
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  memset(garbled_tables, 0, sizeof(GarbledTable) * garbled_tables_size);
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 95b04271adf4b58c6c26edb8424cb64a0ce0322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 15/48] fix: the plaintext evaluator refuses a request for zero
 clock cycles

---
 scd/scd_evaluator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 259707f..78712f0 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -257,6 +257,10 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
                           const string& g_input_str, const string& e_input_str,
                           uint64_t clock_cycles, int64_t terminate_period,
                           OutputMode output_mode, string* outputs_str) {
+  if (clock_cycles == 0) {
+    return FAILURE;
+  }
+
   BIGNUM* p_init = BN_new();
   BIGNUM* g_init = BN_new();
   BIGNUM* e_init = BN_new();
-- 
2.43.0


From 67d39854b31e096aca868cceabff6c88ec264cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 16/48] fix: trace all mapped signals when a gate drives the
 terminate port directly

---
 scd/scd_evaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 78712f0..352535f 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -219,7 +219,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 			tokenizer<char_separator<char>> tok(buf, sep);	
 			tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 			string wire_name(*(tok_it));
-			if(!wire_name.compare("terminate")) break;
+			if(!wire_name.compare("terminate")) continue;
 			sim_file << *tok_it << "\t";
 		}
 		sim_file << endl;
@@ -232,7 +232,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 		tokenizer<char_separator<char>> tok(buf, sep);	
 		tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 		string wire_name(*(tok_it));
-		if(!wire_name.compare("terminate")) break;
+		if(!wire_name.compare("terminate")) continue;
 		string index(*(++tok_it));
 		sim_file << wires[atoi(index.c_str())] << ", ";
 	}
-- 
2.43.0


From 9401a91e6acb25458ad00e7aef31cf7627da06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 17/48] fix: pins of an unknown cell are not taken over by the
 next cell

---
 scd/parse_netlist.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 3eeee41..c30c10e 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -296,6 +296,7 @@ int ParseNetlist(const string &filename,
         port.clear();
         gate_type = INVALGATE;
       } else {
+        port.clear();
         is_inport = 0;
         is_outport = 0;
         no_of_bits = 0;
-- 
2.43.0


From 2d285344c9cb67bae444c8ec94ad351f1df53d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 18/48] fix: renumber reads of wire 0 when gates are reordered

---
 scd/scheduling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..36076a1 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -459,11 +459,11 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
 
   for (int64_t i = 0; i < (int64_t) read_circuit->dff_size; i++) {
-    if (read_circuit->dff_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[0] = sorted_list_1[read_circuit->dff_list[i]
           .input[0]];
     }
-    if (read_circuit->dff_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[1] = sorted_list_1[read_circuit->dff_list[i]
           .input[1]];
     }
@@ -472,14 +472,14 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->gate_size; i++) {
     read_circuit->gate_list[i].output = sorted_list_1[init_input_dff_size + i];
-    if (read_circuit->gate_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[0] =
           sorted_list_1[read_circuit->gate_list[i].input[0]];
       CHECK_EXPR_MSG(
           read_circuit->gate_list[i].input[0] < read_circuit->gate_list[i].output,
           "input 0 is larger than gate id");
     }
-    if (read_circuit->gate_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[1] =
           sorted_list_1[read_circuit->gate_list[i].input[1]];
       CHECK_EXPR_MSG(
-- 
2.43.0


From 4a02a73c089a2d1ced5177f12d4f86abf6ea07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 19/48] fix: packing helpers handle more than 255 outputs and
 65535 bits

---
 util/util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index a3aa002..4ca688a 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -236,8 +236,8 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 
  void parseGCOutputString(vector<int64_t> &output, string output_str, vector<uint16_t> bit_len, uint16_t offset){
 	string bin_output_str = hex2bin(output_str);
-	uint8_t no_of_outputs = output.size();
-	uint16_t len = offset;
+	uint64_t no_of_outputs = output.size();
+	uint64_t len = offset;
 	uint64_t i;
 	for (i = 0; i < no_of_outputs; i++){
 		len += bit_len[i];
@@ -245,7 +245,7 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 	if (len > bin_output_str.length()) bin_output_str.insert(0, len-bin_output_str.length(), '0');
 	else if (len < bin_output_str.length()) bin_output_str = bin_output_str.substr(bin_output_str.length()-len, len);
 	
-	uint16_t cur = 0;
+	uint64_t cur = 0;
 	for (i = 0; i < no_of_outputs; i++){
 		output[i] = bin2dec(bin_output_str.substr(cur, bit_len[i]), true);
 		cur += bit_len[i];
@@ -283,7 +283,7 @@ int64_t bin2dec(string bin, bool s){
 }
 
 string hex2bin(string hex_){
-	uint16_t len = hex_.length();
+	uint64_t len = hex_.length();
 	string bin("");
 	
 	for (uint64_t i = 0; i < len; i++){
@@ -311,7 +311,7 @@ string hex2bin(string hex_){
 }
 
 string bin2hex(string bin){
-	uint16_t len = bin.length();
+	uint64_t len = bin.length();
 	bin.insert(0, 4-len%4, '0');
 	len = bin.length();
 	string hex_("");
-- 
2.43.0


From b14442948b0b78ab115df82170b070afe07d129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 20/48] fix: merge-sort example keeps its split point across
 the recursive calls

---
 a23/merge-sort/merge-sort.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/merge-sort/merge-sort.c b/a23/merge-sort/merge-sort.c
index 5d4a97b..3a78b69 100644
--- a/a23/merge-sort/merge-sort.c
+++ b/a23/merge-sort/merge-sort.c
@@ -3,10 +3,10 @@
 #define O_SIZE 32 // size of output array
 
 int __attribute__((aligned(256))) b[G_SIZE]; // temporary array for mergesort
-int i, j, k, m;
+int i, j, k;
 void mergesort(int* array, int l, int r) {
   if (r > l) {
-    m = (r + l) / 2;
+    int m = (r + l) / 2; // local: the recursive calls below must not change it
     mergesort(array, l, m);
     mergesort(array, m + 1, r);
     for (i = m + 1; i > l; i--)
-- 
2.43.0


From 2192dd60dd7a69b003fd6a3beade765058ae2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 21/48] fix: compare example treats its words as unsigned like
 the ARM version

---
 a23/compare/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index 48012fe..c7f5a29 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -26,7 +26,7 @@ static int compare_array(const int *g, const int *e, int *o) {
 static int compare_array(const int *g, const int *e, int *o) {
   int greater = 0;
   for(int i = 0; i < G_SIZE;i++) {
-    greater = (g[i] == e[i])?greater:(g[i] < e[i]);
+    greater = (g[i] == e[i])?greater:((uint)g[i] < (uint)e[i]);
   }
   return greater;
 }
-- 
2.43.0


From 40e1d0f3a9e0d9fe81df37fc80675b6328a03350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 22/48] fix: the 192-bit key schedule does not read past the
 key

---
 crypto/aes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/aes.h b/crypto/aes.h
index 7a9d586..87780a9 100644
--- a/crypto/aes.h
+++ b/crypto/aes.h
@@ -132,7 +132,7 @@ inline void AES128KeyExpansion(const unsigned char *userkey, void *key) {
 inline void AES192KeyExpansion(const unsigned char *userkey, void *key) {
   __m128i x0, x1, x2, x3, tmp, *kp = (__m128i *) key;
   kp[0] = x0 = _mm_loadu_si128((__m128i *) userkey);
-  tmp = x3 = _mm_loadu_si128((__m128i *) (userkey + 16));
+  tmp = x3 = _mm_loadl_epi64((__m128i *) (userkey + 16));
   x2 = _mm_setzero_si128();
   EXPAND192_STEP(1, 1);
   EXPAND192_STEP(4, 4);
-- 
2.43.0


From a1b47e94d19fdc774b04366ab672fb202304da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:02 +0000
Subject: [PATCH 23/48] fix: free the key, message and hash arrays of every
 oblivious transfer

---
 crypto/OT.cpp           | 6 ++++++
 crypto/OT_extension.cpp | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index 0861aa4..10277fa 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -140,7 +140,9 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
     for (uint32_t j = 0; j < 2; j++) {
       BN_free(x[i][j]);
     }
+    delete[] x[i];
   }
+  delete[] x;
   BN_CTX_free(ctx);
   return SUCCESS;
 }
@@ -222,13 +224,17 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
 
   BN_free(m0p);
   BN_free(m1p);
+  BN_free(mb);
 
   for (uint32_t i = 0; i < m_len; i++) {
     for (uint32_t j = 0; j < 2; j++) {
       BN_free(x[i][j]);
     }
+    delete[] x[i];
     BN_free(k[i]);
   }
+  delete[] x;
+  delete[] k;
   BN_CTX_free(ctx);
 
   return SUCCESS;
diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..7e11002 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -81,6 +81,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   uint32_t md_len;
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
+  delete[] v_arr;
 
   BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
 
@@ -139,7 +140,6 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
   for (uint32_t i = 0; i < SEC_K_BIT; i++) {
     Q[i] = BN_new();
   }
-  BN_new();
 
   CHECK(OTRecvBN(S, SEC_K_BIT, connfd, Q));
 
@@ -267,7 +267,7 @@ int OTExtRecv(const bool *sel, uint32_t m_len, int connfd, block* m) {
   BIGNUM *bn_sel = BN_new();
   BIGNUM** bn_m = new BIGNUM*[m_len];
   for (uint32_t i = 0; i < m_len; ++i) {
-    bn_m[i] = BN_new();
+    bn_m[i] = nullptr;  // allocated by OTExtRecvBN
     if (sel[i]) {
       BN_CHECK(BN_set_bit(bn_sel, i));
     }
-- 
2.43.0


From 4623cbd099a0b4335ac875e2de197ae597746ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:02 +0000
Subject: [PATCH 24/48] fix: free the hexadecimal string of every output value

---
 util/util.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 4ca688a..d60e0f6 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -172,19 +172,29 @@ string to_string_hex(uint64_t v, int pad /* = 0 */) {
   return ret;
 }
 
+// hexadecimal digits of a, without keeping the array allocated by OpenSSL.
+static string BN2Hex(const BIGNUM* a) {
+  char* hex_c = BN_bn2hex(a);
+  if (hex_c == nullptr) {
+    return "";
+  }
+  string hex(hex_c);
+  OPENSSL_free(hex_c);
+  return hex;
+}
+
 int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                         uint64_t clock_cycles, OutputMode output_mode,
                         string *output_str) {
   (*output_str) = "";
   if (output_mode == OutputMode::consecutive) {  // normal
-    const char* output_c = BN_bn2hex(outputs);
-    (*output_str) = output_c;
+    (*output_str) = BN2Hex(outputs);
   } else if (output_mode == OutputMode::separated_clock) {  // Separated by clock
     BIGNUM* temp = BN_new();
     for (uint64_t i = 0; i < clock_cycles; i++) {
       BN_rshift(temp, outputs, i * garbled_circuit.output_size);
       BN_mask_bits(temp, garbled_circuit.output_size);
-      (*output_str) += BN_bn2hex(temp);
+      (*output_str) += BN2Hex(temp);
       if (i < clock_cycles - 1) {
         (*output_str) += "\n";
       }
@@ -194,7 +204,7 @@ int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
     BIGNUM* temp = BN_new();
     BN_rshift(temp, outputs, (clock_cycles - 1) * garbled_circuit.output_size);
     BN_mask_bits(temp, garbled_circuit.output_size);
-    (*output_str) += BN_bn2hex(temp);
+    (*output_str) += BN2Hex(temp);
     BN_free(temp);
   }
   return SUCCESS;
@@ -205,21 +215,20 @@ int OutputBN2StrLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                        string* output_str) {
   (*output_str) = "";
   if (output_mode == OutputMode::consecutive) {  // normal
-    const char* output_c = BN_bn2hex(outputs);
-    (*output_str) = output_c;
+    (*output_str) = BN2Hex(outputs);
   } else if (output_mode == OutputMode::separated_clock) {  // Separated by clock
     BIGNUM* temp = BN_new();
     for (uint64_t i = 0; i < clock_cycles; i++) {
       BN_rshift(temp, outputs, i * garbled_circuit.output_size);
       BN_mask_bits(temp, garbled_circuit.output_size);
-      (*output_str) += BN_bn2hex(temp);
+      (*output_str) += BN2Hex(temp);
       if (i < clock_cycles - 1) {
         (*output_str) += "\n";
       }
     }
     BN_free(temp);
   } else if (output_mode == OutputMode::last_clock) {  // only last clock
-    (*output_str) += BN_bn2hex(outputs);
+    (*output_str) += BN2Hex(outputs);
   }
 
   return SUCCESS;
-- 
2.43.0


From 9cf6fd48047fc4c21ef669f7088e88e95bcc5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:02 +0000
Subject: [PATCH 25/48] fix: free the circuit, the inputs and the outputs of a
 plaintext evaluation

---
 scd/scd_evaluator.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 352535f..56bd17f 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -247,6 +247,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 
   delete[] wires;
   delete[] dff_latch;
+  delete[] outputs_arr;
 
   return SUCCESS;
 }
@@ -275,11 +276,14 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   BN_hex2bn(&g_input, g_input_str.c_str());
   BN_hex2bn(&e_input, e_input_str.c_str());
 
-  LOG(INFO) << "p_init = " << BN_bn2hex(p_init) << "\tg_init = "
-            << BN_bn2hex(g_init) << "\te_init = " << BN_bn2hex(e_init)
-            << "\tp_input = " << BN_bn2hex(p_input) << "\tg_input = "
-            << BN_bn2hex(g_input) << "\te_input = " << BN_bn2hex(e_input)
-            << endl;
+  char* hex[] = { BN_bn2hex(p_init), BN_bn2hex(g_init), BN_bn2hex(e_init),
+      BN_bn2hex(p_input), BN_bn2hex(g_input), BN_bn2hex(e_input) };
+  LOG(INFO) << "p_init = " << hex[0] << "\tg_init = " << hex[1]
+            << "\te_init = " << hex[2] << "\tp_input = " << hex[3]
+            << "\tg_input = " << hex[4] << "\te_input = " << hex[5] << endl;
+  for (char* h : hex) {
+    OPENSSL_free(h);
+  }
 
   GarbledCircuit garbled_circuit;
   if (ReadSCD(scd_file_address, &garbled_circuit) == FAILURE) {
@@ -303,6 +307,18 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
 
   OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
                       outputs_str);
+
+  BN_free(p_init);
+  BN_free(g_init);
+  BN_free(e_init);
+  BN_free(p_input);
+  BN_free(g_input);
+  BN_free(e_input);
+  BN_free(outputs);
+  free(garbled_circuit.garbledGates);
+  free(garbled_circuit.outputs);
+  delete[] garbled_circuit.D;
+  delete[] garbled_circuit.I;
   return SUCCESS;
 }
 
-- 
2.43.0


From 9fe0784eeed3f7260382b09a1d91869e4060cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:59 +0000
Subject: [PATCH 26/48] fix: free the input labels received in every low-memory
 clock cycle

---
 garbled_circuit/garbled_circuit_low_mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index b2a258e..800d74d 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -966,6 +966,7 @@ int EvalauteOTInputLowMem(const GarbledCircuit& garbled_circuit,
   }
 
   delete[] select;
+  delete[] message;
 
   return SUCCESS;
 }
-- 
2.43.0


From 42d517c5051ad4bd312fcdaafc9a58a76ac4a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:13 +0000
Subject: [PATCH 27/48] fix: shift left in SHIFT_LEFT and right in SHIFT_RIGHT

The two modules of syn_lib had each other's operator.
---
 circuit_synthesis/syn_lib/SHIFT_LEFT.v  | 2 +-
 circuit_synthesis/syn_lib/SHIFT_RIGHT.v | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/syn_lib/SHIFT_LEFT.v b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
index e3f0c7c..15c6615 100644
--- a/circuit_synthesis/syn_lib/SHIFT_LEFT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
@@ -25,7 +25,7 @@ module SHIFT_LEFT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
     end
   endgenerate
 
diff --git a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
index 391c130..58cbff5 100644
--- a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
@@ -25,7 +25,7 @@ module SHIFT_RIGHT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
     end
   endgenerate
 
-- 
2.43.0


From 6f1441581b68630974da87644896ff231e98f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 28/48] fix: start sha3_seq with the first round constant

The first cycle after reset used no round constant, so every result differed from Keccak-f[1600].
---
 circuit_synthesis/sha3/sha3_seq.v | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/sha3/sha3_seq.v b/circuit_synthesis/sha3/sha3_seq.v
index 1b9d9c6..61d3fba 100644
--- a/circuit_synthesis/sha3/sha3_seq.v
+++ b/circuit_synthesis/sha3/sha3_seq.v
@@ -46,8 +46,8 @@ module sha3_seq
 	begin
 		if (rst) 	
 		begin
-			init <= 0;
-			rc_i <= 0;
+			init <= 1;
+			rc_i <= 1;
 			round_reg <= {e_init, g_init};
 		end
 		else     
-- 
2.43.0


From 7387f334b6d341b140a52798f38600c9d3a65201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 29/48] fix: modular multiplication and its select polarities
 in modmult

The muxes select B when S is set; the conditional subtractions were the wrong way round, a residue equal to n was not reduced, and the start cycle did no work, so the result was not ready after CC cycles.
---
 circuit_synthesis/rsa/modmult.v | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/circuit_synthesis/rsa/modmult.v b/circuit_synthesis/rsa/modmult.v
index 22ff7e0..607efcc 100644
--- a/circuit_synthesis/rsa/modmult.v
+++ b/circuit_synthesis/rsa/modmult.v
@@ -58,11 +58,8 @@ module modmult
 	);*/
 
 
-	//assign zin[0] 	= (start)?0:zreg;
-	//assign xin 		= (start)?x:xreg;
-
-	assign zin[0] 	= zreg;
-	assign xin 		= xreg;
+	assign zin[0] 	= (start)?0:zreg;
+	assign xin 		= (start)?x:xreg;
 
 
 	genvar g;
@@ -101,11 +98,6 @@ module modmult
 				zreg <= 0;
 				xreg <= 0;
 			end
-			else if(start)
-			begin
-				zreg <= 0;
-				xreg <= x;
-			end
 			else
 			begin
 				zreg <= zout[N/CC-1];
@@ -177,8 +169,8 @@ module modmult_step
 	)
 	MUX_1
 	(
-		.A(y_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(y_ext),
 		.S(xregN_1),
 		.O(w1)
 	);	
@@ -189,8 +181,8 @@ module modmult_step
 	)
 	MUX_2
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c1),
 		.O(w2)
 	);	
@@ -202,8 +194,8 @@ module modmult_step
 	)
 	MUX_3
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c2p),
 		.O(w3)
 	);	
@@ -254,12 +246,12 @@ module modmult_step
 	)
 	COMP_2
 	(
-		.A(n_ext),
-		.B(z3), 
+		.A(z3),
+		.B(n_ext), 
 		.O(c2)
 	);
 
-	assign c2p = ~c2;
+	assign c2p = c2;
 
 	SUB 
 	#(
-- 
2.43.0


From 47a5effd3451b1f333e5b24269c975148dcade72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 30/48] fix: drive the output of modexp_1_N

The result went to an undeclared wire and o was left undriven.
---
 circuit_synthesis/rsa/modexp_1_N.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/rsa/modexp_1_N.v b/circuit_synthesis/rsa/modexp_1_N.v
index d44786a..dfed6ca 100644
--- a/circuit_synthesis/rsa/modexp_1_N.v
+++ b/circuit_synthesis/rsa/modexp_1_N.v
@@ -44,7 +44,7 @@ module modexp_1_N
 	assign cin[0] = creg;
 	assign ein = (init)?ereg:e;
 	
-	assign c = (ein[N-N/CC])?cout2[N/CC-1]:cout1[N/CC-1];
+	assign o = (keep_2[N/CC-1])?cout2[N/CC-1]:(keep_1[N/CC-1])?cout1[N/CC-1]:g_input;
 	
 	generate 
 	for(i=0;i<N/CC;i=i+1)
-- 
2.43.0


From 08e71933737144c07937c67e00e3a4e971d38afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 31/48] fix: select polarities in modexp_2N_NN

The muxes select B when S is set; the registers also advanced before a multiplication was finished.
---
 circuit_synthesis/rsa/modexp_2N_NN.v | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/circuit_synthesis/rsa/modexp_2N_NN.v b/circuit_synthesis/rsa/modexp_2N_NN.v
index f27d0ff..aaacb06 100644
--- a/circuit_synthesis/rsa/modexp_2N_NN.v
+++ b/circuit_synthesis/rsa/modexp_2N_NN.v
@@ -62,9 +62,9 @@ module modexp_2N_NN
   )
   MUX_4
   (
-    .A(mod_mult_o),
-    .B(creg),
-    .S(((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow))),
+    .A(creg),
+    .B(mod_mult_o),
+    .S(start_in[CC/(2*N)-1] & ((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow))),
     .O(w1)
   );  
 
@@ -76,9 +76,9 @@ module modexp_2N_NN
   )
   MUX_6
   (
-    .A({ein[N-2:0], 1'b0}),
-    .B(ereg),
-    .S(mul_pow),
+    .A(ereg),
+    .B({ein[N-2:0], 1'b0}),
+    .S(start_in[CC/(2*N)-1] & mul_pow),
     .O(w2)
   );  
 
@@ -126,8 +126,8 @@ module modexp_2N_NN
   )
   MUX_9
   (
-    .A(mreg),
-    .B(w3),
+    .A(w3),
+    .B(mreg),
     .S(mul_pow),
     .O(y)
   );  
-- 
2.43.0


From f3d643bf2bb79873d62e5867b0d9b125976d8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 32/48] fix: select the nearest element in first_nns_comb and
 first_nns_seq

The muxes kept the farther element, and first_nns_seq read an undeclared wire.
---
 circuit_synthesis/knns/first_nns_comb.v |  8 ++++----
 circuit_synthesis/knns/first_nns_seq.v  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/circuit_synthesis/knns/first_nns_comb.v b/circuit_synthesis/knns/first_nns_comb.v
index 6748ba6..c227465 100644
--- a/circuit_synthesis/knns/first_nns_comb.v
+++ b/circuit_synthesis/knns/first_nns_comb.v
@@ -86,8 +86,8 @@ module first_nns_comb
 		)
 		MUX_1
 		(
-			.A(DBi[i]),
-			.B(min_val[i-1]),
+			.A(min_val[i-1]),
+			.B(DBi[i]),
 			.S(gt_dist[i]),
 			.O(min_val[i])
 		);
@@ -98,8 +98,8 @@ module first_nns_comb
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns/first_nns_seq.v b/circuit_synthesis/knns/first_nns_seq.v
index 35cc565..3addc5e 100644
--- a/circuit_synthesis/knns/first_nns_seq.v
+++ b/circuit_synthesis/knns/first_nns_seq.v
@@ -45,7 +45,7 @@ module first_nns_seq
 	)
 	COUNT_
 	(
-		.A(g_input ^ DBi),
+		.A(g_input ^ e_input),
 		.S(dist)
 	);
 
@@ -67,8 +67,8 @@ module first_nns_seq
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -79,8 +79,8 @@ module first_nns_seq
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
-- 
2.43.0


From 023e6814290337cbb7064725acf17028441ff0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 33/48] fix: select the nearest element in the taxicab distance
 circuits

The muxes kept the farther element; k_nns_seq_td and knns_seq left their output undriven.
---
 circuit_synthesis/knns_td/first_nns_comb_td.v | 8 ++++----
 circuit_synthesis/knns_td/first_nns_seq_td.v  | 8 ++++----
 circuit_synthesis/knns_td/k_nns_seq_td.v      | 2 +-
 circuit_synthesis/knns_td/knns_seq_td.v       | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/circuit_synthesis/knns_td/first_nns_comb_td.v b/circuit_synthesis/knns_td/first_nns_comb_td.v
index afde135..4566afe 100644
--- a/circuit_synthesis/knns_td/first_nns_comb_td.v
+++ b/circuit_synthesis/knns_td/first_nns_comb_td.v
@@ -100,8 +100,8 @@ module first_nns_comb_td
 		MUX_1
 		(
 			//.A(DBi[i]),
-			.A({x1[i], y1[i]}),
-			.B({min_val_x[i-1], min_val_y[i-1]}),
+			.A({min_val_x[i-1], min_val_y[i-1]}),
+			.B({x1[i], y1[i]}),
 			.S(gt_dist[i]),
 			.O({min_val_x[i], min_val_y[i]})
 		);
@@ -112,8 +112,8 @@ module first_nns_comb_td
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns_td/first_nns_seq_td.v b/circuit_synthesis/knns_td/first_nns_seq_td.v
index 8dbec88..b7f182d 100644
--- a/circuit_synthesis/knns_td/first_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/first_nns_seq_td.v
@@ -75,8 +75,8 @@ module first_nns_seq_td
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -87,8 +87,8 @@ module first_nns_seq_td
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
diff --git a/circuit_synthesis/knns_td/k_nns_seq_td.v b/circuit_synthesis/knns_td/k_nns_seq_td.v
index af5c338..62094ae 100644
--- a/circuit_synthesis/knns_td/k_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/k_nns_seq_td.v
@@ -36,7 +36,7 @@ module k_nns_seq_td
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
diff --git a/circuit_synthesis/knns_td/knns_seq_td.v b/circuit_synthesis/knns_td/knns_seq_td.v
index 593f794..69735ed 100644
--- a/circuit_synthesis/knns_td/knns_seq_td.v
+++ b/circuit_synthesis/knns_td/knns_seq_td.v
@@ -36,7 +36,7 @@ module knns_seq
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
-- 
2.43.0


From b84a9c694b3393c6578e1d7534632c1a6b575127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 34/48] fix: follow the Gale-Shapley steps in stable_match

A woman was marked as matched only when she already was, the wait for the first woman never ended, and the man released in the same cycle as a match was made stayed matched.
---
 circuit_synthesis/stable_match/stable_match.v | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/circuit_synthesis/stable_match/stable_match.v b/circuit_synthesis/stable_match/stable_match.v
index 0da0b19..d5975ae 100644
--- a/circuit_synthesis/stable_match/stable_match.v
+++ b/circuit_synthesis/stable_match/stable_match.v
@@ -364,7 +364,7 @@ module stable_match_core
 
   assign wIsMatch_addr = w;
   assign wIsMatch_wdata = 1'b1;
-  assign wIsMatch_wen = state==state_do_proposal && wIsMatch_rdata;
+  assign wIsMatch_wen = state==state_do_proposal;
 
   assign matchListMatrix_addr = w;
   assign matchListMatrix_wdata = m;
@@ -385,7 +385,7 @@ module stable_match_core
           nState = state_select_m;
       end
       state_wait_w: begin
-        if (wIndex + 1 == w) begin
+        if ((wIndex + 1) % W == w) begin
           nState=state_do_proposal;
         end else begin
           nState=state_wait_w;
@@ -630,10 +630,11 @@ module MIsMatch
       for (k=0;k<M;k=k+1) begin :always_line
         mIsMatch[k] <= 1'b0;
       end
-    end else if (wen1) begin
-      mIsMatch[waddr1] <= wdata1;
-    end else if (wen2) begin
-      mIsMatch[waddr2] <= wdata2;
+    end else begin
+      if (wen1)
+        mIsMatch[waddr1] <= wdata1;
+      if (wen2)
+        mIsMatch[waddr2] <= wdata2;
     end
   end
 
-- 
2.43.0


From 7007f9e9cdbc8d466c5181b90ae37203f822ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:09 +0000
Subject: [PATCH 35/48] fix: sign of vectoring steps and of shifted operands in
 cordic

Vectoring ignored the sign of y for positive x, and negative operands were shifted logically.
---
 circuit_synthesis/cordic/barrel_shifter_left.v | 4 ++--
 circuit_synthesis/cordic/cordic.v              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit_synthesis/cordic/barrel_shifter_left.v b/circuit_synthesis/cordic/barrel_shifter_left.v
index 7f179c5..9f68b11 100644
--- a/circuit_synthesis/cordic/barrel_shifter_left.v
+++ b/circuit_synthesis/cordic/barrel_shifter_left.v
@@ -19,14 +19,14 @@ module barrel_shifter_left
   output [N-1:0] o;
 
 
-  wire [N-1:0] ai[LOG_N+1:0];
+  wire signed [N-1:0] ai[LOG_N+1:0];
 
   assign ai[0] = a;
 
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift[i])?(ai[i]>>>2**i):(ai[i]);
     end
   endgenerate
 
diff --git a/circuit_synthesis/cordic/cordic.v b/circuit_synthesis/cordic/cordic.v
index 19b4186..14a8b89 100644
--- a/circuit_synthesis/cordic/cordic.v
+++ b/circuit_synthesis/cordic/cordic.v
@@ -73,7 +73,7 @@ module cordic
     if(DIR==`DIR_ROT) begin :ROT
       assign di = zi[L-1];
     end else begin :VEC// if(DIR==`DIR_VEC)
-      assign di = xi[L-1]&yi[L-1];
+      assign di = ~(xi[L-1]^yi[L-1]);
     end
   endgenerate
   
-- 
2.43.0


From 7b556575d35a6b175bdd727821ce6155a244a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 36/48] fix: room for all temporaries of the S-box

The bit-sliced S-box of aes and sbox used z[2] and t[8], one byte past the end of either array.
---
 a23/aes/aes.c   | 2 +-
 a23/sbox/sbox.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/aes/aes.c b/a23/aes/aes.c
index 54af8d0..ba121a4 100644
--- a/a23/aes/aes.c
+++ b/a23/aes/aes.c
@@ -99,7 +99,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
diff --git a/a23/sbox/sbox.c b/a23/sbox/sbox.c
index 847aaba..551c25a 100644
--- a/a23/sbox/sbox.c
+++ b/a23/sbox/sbox.c
@@ -26,7 +26,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
-- 
2.43.0


From 22ddb06064b86ee979e35ea70f131c9808a2ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:56 +0000
Subject: [PATCH 37/48] fix: sign extension of LB, LH and the SLTIU operand in
 Lite_MIPS

---
 circuit_synthesis/mips/Control.v  | 2 +-
 circuit_synthesis/mips/Data_Mem.v | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/circuit_synthesis/mips/Control.v b/circuit_synthesis/mips/Control.v
index 8883dd3..f407e45 100644
--- a/circuit_synthesis/mips/Control.v
+++ b/circuit_synthesis/mips/Control.v
@@ -577,7 +577,7 @@ module Control
 				$display("SLTIU");
 				rs_index<=r1;
 				rd_index<=r2;
-				b_source_out<=`B_FROM_IMM;
+				b_source_out<=`B_FROM_SIGNED_IMM;
 				alu_func<=`ALU_LESS_THAN;
 			end
 			3'b100://ANDI
diff --git a/circuit_synthesis/mips/Data_Mem.v b/circuit_synthesis/mips/Data_Mem.v
index ee8177b..22a25bb 100644
--- a/circuit_synthesis/mips/Data_Mem.v
+++ b/circuit_synthesis/mips/Data_Mem.v
@@ -113,7 +113,7 @@ module Data_Mem
             if(addr[1]==1'b0)
                 data_out <= {{16{memory[addr[L+1:2]][15]}}, memory[addr[L+1:2]][15:0]};
             else if (addr[1]==1'b1)
-                data_out <= {{16{memory[addr[L+1:2]][16]}}, memory[addr[L+1:2]][31:16]};
+                data_out <= {{16{memory[addr[L+1:2]][31]}}, memory[addr[L+1:2]][31:16]};
         end
         `MEM_READ8  :
         begin
@@ -131,11 +131,11 @@ module Data_Mem
             if(addr[1:0]==2'b00)
                 data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][7:0]};
             else if(addr[1:0]==2'b01)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][15:8]};
+                data_out <= {{24{memory[addr[L+1:2]][15]}}, memory[addr[L+1:2]][15:8]};
             else if(addr[1:0]==2'b10)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][23:16]};
+                data_out <= {{24{memory[addr[L+1:2]][23]}}, memory[addr[L+1:2]][23:16]};
             else if(addr[1:0]==2'b11)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][31:24]};
+                data_out <= {{24{memory[addr[L+1:2]][31]}}, memory[addr[L+1:2]][31:24]};
         end
         default:
             data_out <= 32'b0;
-- 
2.43.0


From f5822dabc0225cbd6550f6cb03ecef3e91521f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 38/48] fix: accumulate in the multiplier of a23 when its
 result is written

---
 circuit_synthesis/a23/a23_multiply.v | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuit_synthesis/a23/a23_multiply.v b/circuit_synthesis/a23/a23_multiply.v
index 8de06d0..87c3553 100644
--- a/circuit_synthesis/a23/a23_multiply.v
+++ b/circuit_synthesis/a23/a23_multiply.v
@@ -77,7 +77,8 @@ reg  [3:0]  count;
 assign enable         = i_function[0];
 assign accumulate     = i_function[1];
 
-assign o_out   = product;
+// the accumulator is at i_a_in when the register is written
+assign o_out   = (accumulate && count == 3) ? product + i_a_in : product;
 
 assign o_flags = {o_out[31], o_out == 32'd0 }; 
 assign o_done  = 1'b1;
@@ -91,8 +92,6 @@ always @(posedge i_clk or posedge i_rst) begin
     count <= count + 1;
     if (i_execute && count == 0) begin
       product <= i_a_in*i_b_in;
-    end else if (i_execute && accumulate && count == 3) begin
-      product <= product + i_a_in;
     end
   end else begin
     product <= 32'b0;
-- 
2.43.0


From 1123dd8814440a868764c466060c96cb6ca6ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 39/48] fix: shifts by 32 and more and rotate with carry in a23

---
 circuit_synthesis/a23/a23_barrel_shift.v | 26 ++++++++++++++++--------
 circuit_synthesis/a23/a23_execute.v      |  4 ++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/circuit_synthesis/a23/a23_barrel_shift.v b/circuit_synthesis/a23/a23_barrel_shift.v
index 215c33b..1b678eb 100644
--- a/circuit_synthesis/a23/a23_barrel_shift.v
+++ b/circuit_synthesis/a23/a23_barrel_shift.v
@@ -44,6 +44,7 @@ module a23_barrel_shift (
 input       [31:0]          i_in,
 input                       i_carry_in,
 input       [7:0]           i_shift_amount,     // uses 8 LSBs of Rs, or a 5 bit immediate constant
+input                       i_shift_imm_zero,   // high when immediate shift value of zero selected
 input       [1:0]           i_function,
 
 output      [31:0]          o_out,
@@ -59,6 +60,10 @@ wire [32:0] lsr_out;
 wire [32:0] asr_out;
 wire [32:0] ror_out;
 
+wire        shift_zero = i_shift_amount == 8'd0;
+wire        shift_32   = i_shift_amount == 8'd32;
+wire        shift_over = i_shift_amount[7:5] != 3'd0;    // >= 32
+
 
 // Logical shift right zero is redundant as it is the same as logical shift left zero, so
 // the assembler will convert LSR #0 (and ASR #0 and ROR #0) into LSL #0, and allow
@@ -106,8 +111,9 @@ wire [32:0] ror_out;
 wire [32:0] lsl_out_struct;
 lsl_struct #(.CTRL(5)) u_lsl_struct(i_in, i_shift_amount[4:0], lsl_out_struct);
 
-assign lsl_out[32] = i_shift_amount == 5'd0  ? i_carry_in: lsl_out_struct[32];
-assign lsl_out[31:0] = lsl_out_struct[31:0];
+assign lsl_out = shift_over ? {shift_32 && i_in[0], 32'd0          } :
+                 shift_zero ? {i_carry_in, i_in                 } :
+                              lsl_out_struct;
 
 // The form of the shift field which might be expected to correspond to LSR #0 is used
 // to encode LSR #32, which has a zero result with bit 31 of Rm as the carry output. 
@@ -153,8 +159,10 @@ assign lsl_out[31:0] = lsl_out_struct[31:0];
 wire [32:0] lsr_out_struct;
 lsr_struct #(.CTRL(5)) u_lsr_struct(i_in, i_shift_amount[4:0], lsr_out_struct);
 
-assign lsr_out[32] = i_shift_amount == 5'd0  ? i_carry_in: lsr_out_struct[32];
-assign lsr_out[31:0] = lsr_out_struct[31:0];
+assign lsr_out = i_shift_imm_zero ? {i_in[31], 32'd0             } :
+                 shift_over       ? {shift_32 && i_in[31], 32'd0 } :
+                 shift_zero       ? {i_carry_in, i_in            } :
+                                    lsr_out_struct;
 
 
 // The form of the shift field which might be expected to give ASR #0 is used to encode
@@ -202,8 +210,9 @@ assign lsr_out[31:0] = lsr_out_struct[31:0];
 wire [32:0] asr_out_struct;
 asr_struct #(.CTRL(5)) u_asr_struct(i_in, i_shift_amount[4:0], asr_out_struct);
 
-assign asr_out[32] = i_shift_amount == 5'd0  ? i_carry_in: asr_out_struct[32];
-assign asr_out[31:0] = asr_out_struct[31:0];
+assign asr_out = i_shift_imm_zero || shift_over ? {33{i_in[31]}}   :
+                 shift_zero                     ? {i_carry_in, i_in} :
+                                                  asr_out_struct;
 
                                           // carry out, < ------- out --------->
 // assign ror_out = i_shift_imm_zero              ? {i_in[ 0], i_carry_in,  i_in[31: 1]} :  // RXR, (ROR w/ imm 0)
@@ -245,8 +254,9 @@ wire [32:0] ror_out_struct;
 ror_struct #(.CTRL(5)) u_ror_struct(i_in, i_shift_amount[4:0], ror_out_struct);
 
 
-assign ror_out[32] = i_shift_amount == 5'd0  ? i_carry_in: ror_out_struct[32];
-assign ror_out[31:0] = ror_out_struct[31:0];
+assign ror_out = i_shift_imm_zero ? {i_in[0], i_carry_in, i_in[31:1]} :  // RXR, (ROR w/ imm 0)
+                 shift_zero       ? {i_carry_in, i_in               } :
+                                    ror_out_struct;
 
  
 assign {o_carry_out, o_out} = i_function == LSL ? lsl_out :
diff --git a/circuit_synthesis/a23/a23_execute.v b/circuit_synthesis/a23/a23_execute.v
index fab593a..43acb3b 100644
--- a/circuit_synthesis/a23/a23_execute.v
+++ b/circuit_synthesis/a23/a23_execute.v
@@ -116,6 +116,7 @@ wire [31:0]         pc_nxt;
 wire [31:0]         branch_pc_nxt;
 wire                write_enable_nxt;
 wire [7:0]          shift_amount;
+wire                shift_imm_zero;
 wire [31:0]         barrel_shift_in;
 wire [31:0]         barrel_shift_out;
 wire                barrel_shift_carry;
@@ -177,6 +178,8 @@ assign shift_amount = i_barrel_shift_amount_sel == 2'd0 ? 8'd0
                       i_barrel_shift_amount_sel == 2'd2 ? {3'd0, i_imm_shift_amount    } :
                                                           {3'd0, i_read_data_alignment } ;
 
+assign shift_imm_zero = i_barrel_shift_amount_sel == 2'd2 && i_imm_shift_amount == 5'd0;
+
 // ========================================================
 // Barrel Shift Data Select
 // ========================================================
@@ -310,6 +313,7 @@ a23_barrel_shift u_barrel_shift  (
     .i_in             ( barrel_shift_in           ),
     .i_carry_in       ( carry_in                  ),
     .i_shift_amount   ( shift_amount              ),
+    .i_shift_imm_zero ( shift_imm_zero            ),
     .i_function       ( i_barrel_shift_function   ),
     .o_out            ( barrel_shift_out          ),
     .o_carry_out      ( barrel_shift_carry        )
-- 
2.43.0


From 9564ef248b89dadbe1e3b7494c5378571e156246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 40/48] fix: N, Z and V flags of ADC, SBC and RSC in a23

---
 circuit_synthesis/a23/a23_alu.v | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/circuit_synthesis/a23/a23_alu.v b/circuit_synthesis/a23/a23_alu.v
index a54d5a5..1d21e2e 100644
--- a/circuit_synthesis/a23/a23_alu.v
+++ b/circuit_synthesis/a23/a23_alu.v
@@ -141,13 +141,7 @@ assign o_out = out_sel == 4'd0 ? b_not            :
                out_sel == 4'd7 ? or_out           :
                                  and_out          ;
 
-wire only_carry;
-// activate for adc
-assign only_carry = (out_sel == 4'd1)  && (cin_sel == 2'd2);
-
-assign o_flags = only_carry ?
-                 {1'b0, 1'b0, carry_out, 1'b0}:
-                 {
+assign o_flags = {
                  o_out[31],      // negative
                  |o_out == 1'd0,  // zero
                  carry_out,       // carry
-- 
2.43.0


From 0779e07ca7753dbbb67295a9d711eae913afef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 41/48] fix: carry into the shifter for AND, TST, SUB, CMP and
 RSB in a23

---
 circuit_synthesis/a23/a23_decode.v | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuit_synthesis/a23/a23_decode.v b/circuit_synthesis/a23/a23_decode.v
index bdfb192..5eedb61 100644
--- a/circuit_synthesis/a23/a23_decode.v
+++ b/circuit_synthesis/a23/a23_decode.v
@@ -504,6 +504,7 @@ always @(*)
                 alu_out_sel_nxt  = 4'd1; // Add
                 alu_cin_sel_nxt  = 2'd1; // cin = 1
                 alu_not_sel_nxt  = 1'd1; // invert B
+                use_carry_in_nxt = shift_extend;
             end
 
             // SBC (Subtract with Carry) subtracts the value of its
@@ -521,6 +522,7 @@ always @(*)
                 alu_out_sel_nxt  = 4'd1; // Add
                 alu_cin_sel_nxt  = 2'd1; // cin = 1
                 alu_not_sel_nxt  = 1'd1; // invert B
+                use_carry_in_nxt = shift_extend;
                 alu_swap_sel_nxt = 1'd1; // swap A and B
                 end
 
@@ -535,6 +537,7 @@ always @(*)
             if ( opcode == AND || opcode == TST ) begin // Logical AND, Test  (using AND operator)
                 alu_out_sel_nxt  = 4'd8;  // AND
                 alu_cout_sel_nxt = 1'd1;  // i_barrel_shift_carry
+                use_carry_in_nxt = 1'd1;
                 end
 
             if ( opcode == EOR || opcode == TEQ ) begin // Logical Exclusive OR, Test Equivalence (using EOR operator)
-- 
2.43.0


From 49accfd6bc9162e49bc05502bde33ce944a3a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 42/48] fix: start every multiplication of a23 anew

---
 circuit_synthesis/a23/a23_multiply.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit_synthesis/a23/a23_multiply.v b/circuit_synthesis/a23/a23_multiply.v
index 87c3553..cb421ff 100644
--- a/circuit_synthesis/a23/a23_multiply.v
+++ b/circuit_synthesis/a23/a23_multiply.v
@@ -89,7 +89,7 @@ always @(posedge i_clk or posedge i_rst) begin
     product <= 32'b0;
     count <= 4'b0;
   end else if(enable) begin
-    count <= count + 1;
+    count <= (count == 3) ? 4'b0 : count + 1;  // 4 cycles per instruction
     if (i_execute && count == 0) begin
       product <= i_a_in*i_b_in;
     end
-- 
2.43.0


From 3b738e212136200e277c8eb0333c60744da4d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:34 +0000
Subject: [PATCH 43/48] fix: conditional writes of the program counter in a23

---
 circuit_synthesis/a23/a23_execute.v | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/a23/a23_execute.v b/circuit_synthesis/a23/a23_execute.v
index 43acb3b..9b50d15 100644
--- a/circuit_synthesis/a23/a23_execute.v
+++ b/circuit_synthesis/a23/a23_execute.v
@@ -193,7 +193,9 @@ assign barrel_shift_in = i_barrel_shift_data_sel == 2'd0 ? i_imm32       :
 
 // If rd is the pc, then seperate the address bits from the status bits for
 // generating the next address to fetch
-assign alu_out_pc_filtered = pc_wen && i_pc_sel == 2'd1 ? pcf(alu_out) : alu_out;
+assign alu_out_pc_filtered = !(pc_wen && i_pc_sel == 2'd1) ? alu_out      :
+                             execute                       ? pcf(alu_out) :
+                                                             pc_minus4    ;
 
 
 assign branch_address_nxt = (!execute) ? pc_minus4 : alu_out_pc_filtered;
@@ -218,7 +220,6 @@ assign branch_pc_nxt = (!execute) ? pc_minus4 : alu_out;
 // If current instruction does not execute because it does not meet the condition
 // then PC advances to next instruction
 assign pc_nxt = i_pc_sel == 2'd0 ? pc_plus4              :
-                i_pc_sel == 2'd1 ? alu_out               :
                                    branch_pc_nxt         ;
 
 
-- 
2.43.0


From 4ba56b71ed8d327e5879ddc3992f0455ff4c78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:08 +0000
Subject: [PATCH 44/48] fix: program of merge-sort as built from its source

---
 a23/merge-sort/p.txt | 149 +++++++++++++++++++++----------------------
 1 file changed, 74 insertions(+), 75 deletions(-)

diff --git a/a23/merge-sort/p.txt b/a23/merge-sort/p.txt
index f5e1ba9..51b1575 100644
--- a/a23/merge-sort/p.txt
+++ b/a23/merge-sort/p.txt
@@ -2,7 +2,7 @@ e59fd01c
 e59f000c
 e59f100c
 e59f200c
-eb00004c
+eb00003e
 eafffffe
 01000000
 02000000
@@ -10,91 +10,90 @@ eafffffe
 04000100
 e1520001
 d1a0f00e
-eaffffff
-e92d41f0
+e92d4df0
+e28db018
 e1a05000
-e1a06001
+e0820001
 e1a04002
-e0822001
-e0822fa2
-e1a020c2
-e59f70dc
-e5872000
+e1a06001
+e0808fa0
+e1a00005
+e1a070c8
+e1a02007
 ebfffff2
-e5971000
+e3a00001
 e1a02004
-e2811001
+e08010c8
 e1a00005
 ebffffed
-e5971000
-e59f30bc
-e2812001
-e5832000
-e59fc0b4
-e5932000
-e1560002
-aa000005
-e2420001
-e2422107
-e7952102
-e78c2100
-e5830000
-eafffff6
-e59f2090
-e5821000
-e59fe084
-e0840001
-e5921000
-e1540001
-da000005
-e281c001
-e795710c
-e0401001
-e78e7101
-e582c000
-eafffff6
-e59f1060
-e5816000
-e59f6050
-e591e000
-e154000e
-ba00000e
-e593c000
-e796810c
-e5920000
-e7967100
-e1580007
-b28cc001
-b583c000
-b785810e
-a2400001
-a5820000
-a785710e
-e5910000
-e2800001
-e5810000
-eaffffed
-e8bd81f0
-0000038c
-00000388
-00000300
+e59f0090
+e59fc090
+e1a02007
+e2821001
+e1510006
+e5801000
+da000003
+e7951102
+e78c1102
+e2422001
+eafffff7
+e08c2104
+e2853004
+e1570004
+e5807004
+aa000010
+e7931107
+e2877001
+e4021004
+eafffff8
+e5903000
+e5901004
+e79c7101
+e79c2103
+e1520007
+a2411001
+a1a02007
+a5801004
+b2831001
+b5801000
+e7852106
+e5901008
+e2816001
+e1560004
+e5806008
+daffffef
+e8bd4df0
+e1a0f00e
 00000380
-00000384
-e52de004
-e1a0e000
-e1a00002
+00000300
+e92d4800
+e1a0b00d
+e1a0c002
 e3a03000
-e79ec103
+e3530020
+0a000005
+e790e103
 e7912103
-e022200c
-e7802103
+e022200e
+e78c2103
 e2833001
-e3530020
-1afffff8
-e3a0201f
+eafffff7
+e1a0000c
 e3a01000
-e49de004
-eaffffab
+e3a0201f
+e8bd4800
+eaffffb4
+00000000
+00000000
+00000000
+00000000
+00000000
+00000000
+00000000
+00000000
+00000000
+00000000
+00000000
 00000000
 00000000
 00000000
-- 
2.43.0


From d9864bfdda95e3188f1bf9475adf2489d7b97a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 45/48] fix: room for all sections in the output of the elf
 splitter

---
 a23/tools/amber-elfsplitter.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/a23/tools/amber-elfsplitter.c b/a23/tools/amber-elfsplitter.c
index e97ad1e..3033148 100644
--- a/a23/tools/amber-elfsplitter.c
+++ b/a23/tools/amber-elfsplitter.c
@@ -244,7 +244,6 @@ int main(int argc,char *argv[])
    infile_size = fsize(infile);
    
    inbuf =(unsigned char*)malloc(infile_size);
-   outbuf=(unsigned char*)malloc(infile_size*2);
    buf_size=fread(inbuf,1,infile_size,infile);
    fclose(infile);
 
@@ -306,6 +305,17 @@ int main(int argc,char *argv[])
          }
       }
 
+   /* One byte per address up to the end of the last section and the rest of
+      the last words; sections of zeros take no room in the file */
+   length = 0;
+   for(i=0;i<elfHeader->e_shnum;++i) {
+      elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
+      if ((elfSection->sh_type == SHT_PROGBITS || elfSection->sh_type == SHT_NOBITS)
+          && elfSection->sh_addr + elfSection->sh_size > length)
+         length = elfSection->sh_addr + elfSection->sh_size;
+   }
+   outbuf=(unsigned char*)calloc(length/4+2,4);
+
    for(i=0;i<elfHeader->e_shnum;++i) {
       elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
 
-- 
2.43.0


From 840601a0161ab71b60baf3b9521c010286191fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:26 +0000
Subject: [PATCH 46/48] fix: flags changed by the assembly of compare and sum

---
 a23/compare/compare.c | 2 +-
 a23/sum/sum.c         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index c7f5a29..9312b49 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -17,7 +17,7 @@ static int compare_array(const int *g, const int *e, int *o) {
       "adcs %[c], %[a], %[b]\n\t"
       "mov %[dd], #0\n\t"
       "movhs %[dd], #1"  :
-      [c] "=r" (dumm), [dd] "=r" (carry)  : [a] "r" (g[i]), [b] "r" (nei), [d] "r" (carry)
+      [c] "=r" (dumm), [dd] "=r" (carry)  : [a] "r" (g[i]), [b] "r" (nei), [d] "r" (carry) : "cc"
     );
   }
   return !carry;
diff --git a/a23/sum/sum.c b/a23/sum/sum.c
index a660b71..6f43fc2 100644
--- a/a23/sum/sum.c
+++ b/a23/sum/sum.c
@@ -17,14 +17,14 @@ void sum_array(const int *g, const int *e, int *o) {
       "mov %[dd], #0\n\t"
       "movhs %[dd], #1"  :
       [c] "=r" (o[i]), [dd] "=r" (carry) :
-      [a] "r" (g[i]), [b] "r" (e[i]), [d] "r" (carry)
+      [a] "r" (g[i]), [b] "r" (e[i]), [d] "r" (carry) : "cc"
     );
   }
   asm (
     "cmp %[d], #1\n\t"
     "adc %[c], %[a], %[b]\n\t" :
     [c] "=r" (o[G_SIZE-1]) :
-    [a] "r" (g[G_SIZE-1]), [b] "r" (e[G_SIZE-1]), [d] "r" (carry)
+    [a] "r" (g[G_SIZE-1]), [b] "r" (e[G_SIZE-1]), [d] "r" (carry) : "cc"
   );
 }
 #else 
-- 
2.43.0


From 86b9e961d674188d5654366cbd842f5ceadfd37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:36 +0000
Subject: [PATCH 47/48] fix: sort netlists whose longest path exceeds the call
 stack

---
 scd/scheduling.cpp | 55 +++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 36076a1..7735438 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -342,37 +342,36 @@ int TopologicalSortVisit(const ReadCircuit &read_circuit, vector<Mark>* marks,
   int64_t init_input_size = read_circuit.get_init_input_size();
   int64_t init_input_dff_size = init_input_size + read_circuit.dff_size;
 
-  if (current_unmark_index < 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
-    return SUCCESS;
-  } else if (marks->at(current_unmark_index) == Mark::TempMarked) {
-    LOG(ERROR) << "There is a loop in the circuit." << endl;
-    loop->push_back(current_unmark_index);
-    return FAILURE;
-  } else if (marks->at(current_unmark_index) == Mark::UnMarked) {
-    marks->at(current_unmark_index) = Mark::TempMarked;
-
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[0],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
-    }
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[1],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
+  // depth first, with a stack of its own: a path may be longer than the
+  // call stack is deep. Each entry is a gate and the next input to visit.
+  vector<std::pair<int64_t, int> > path;
+  int64_t index = current_unmark_index;
+  while (true) {
+    if (index >= 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
+      if (marks->at(index) == Mark::TempMarked) {
+        LOG(ERROR) << "There is a loop in the circuit." << endl;
+        loop->push_back(index);
+        for (; !path.empty(); path.pop_back()) {
+          loop->push_back(path.back().first);
+        }
+        return FAILURE;
+      } else if (marks->at(index) == Mark::UnMarked) {
+        marks->at(index) = Mark::TempMarked;
+        path.push_back(std::make_pair(index, 0));
+      }
     }
 
-    marks->at(current_unmark_index) = Mark::PerMarked;
-    sorted_list->push_back(current_unmark_index);
+    while (!path.empty() && path.back().second == 2) {  // both inputs are sorted.
+      marks->at(path.back().first) = Mark::PerMarked;
+      sorted_list->push_back(path.back().first);
+      path.pop_back();
+    }
+    if (path.empty()) {
+      return SUCCESS;
+    }
+    index = read_circuit.gate_list[path.back().first - init_input_dff_size]
+        .input[path.back().second++];
   }
-
-  return SUCCESS;
 }
 
 int TopologicalSort(const ReadCircuit &read_circuit,
-- 
2.43.0


From adae0bd253f39d46eb63be0bd8691ecdd32a4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:36 +0000
Subject: [PATCH 48/48] fix: reduce the fanout along paths longer than the call
 stack

---
 garbled_circuit/garbled_circuit_util.cpp | 26 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0ae93ee..f3e7ff8 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -507,16 +507,24 @@ int FillFanout(GarbledCircuit* garbled_circuit) {
 void ReduceFanout(const GarbledCircuit& garbled_circuit, int *fanout,
                   int64_t wid, int64_t gate_bias) {
 
-  int64_t gid = wid - gate_bias;
-  if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
-      && fanout[gid] > 0) {
-    fanout[gid]--;
-    if (fanout[gid] == 0) {
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input0, gate_bias);
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input1, gate_bias);
+  // a chain of gates may be longer than the call stack is deep.
+  vector<int64_t> pending;  // second inputs that are still to be reduced
+  while (true) {
+    int64_t gid = wid - gate_bias;
+    if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
+        && fanout[gid] > 0) {
+      fanout[gid]--;
+      if (fanout[gid] == 0) {
+        pending.push_back(garbled_circuit.garbledGates[gid].input1);
+        wid = garbled_circuit.garbledGates[gid].input0;
+        continue;
+      }
+    }
+    if (pending.empty()) {
+      return;
     }
+    wid = pending.back();
+    pending.pop_back();
   }
 }
 
-- 
2.43.0

