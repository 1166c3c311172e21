From 5d41f73c3b051c65109f1d6f1d59a8a8b0c5e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:12 +0000
Subject: [PATCH 01/22] hook: small protocol constants under cfg(verif_sim),
 off by default

---
 proof_of_space/src/proof_of_space/pospace.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/pospace.rs b/proof_of_space/src/proof_of_space/pospace.rs
index 9e72f12..3ac538f 100644
--- a/proof_of_space/src/proof_of_space/pospace.rs
+++ b/proof_of_space/src/proof_of_space/pospace.rs
@@ -14,12 +14,23 @@ pub const SAVED_DATA_DIR: [&str; 4] = [r"src", "proof_of_space", "data", "result
 // 所声明的存储空间的地址
 pub const DATA_DIR: [&str; 4] = [r"src", "proof_of_space", "data", "pos_data"];
 // 验证者生成的挑战个数
+#[cfg(not(verif_sim))]
 pub const CHALLENGE_COUNT: usize = 100;
 // 证明者需要响应的挑战个数
+#[cfg(not(verif_sim))]
 pub const RESPONSE_COUNT: usize = 50;
 // x的取值范围[0..2^N]
+#[cfg(not(verif_sim))]
 pub const N: usize = 20;
 
+// 仿真验证使用的小参数（仅在 --cfg verif_sim 时启用，默认关闭）
+#[cfg(verif_sim)]
+pub const CHALLENGE_COUNT: usize = 12;
+#[cfg(verif_sim)]
+pub const RESPONSE_COUNT: usize = 3;
+#[cfg(verif_sim)]
+pub const N: usize = 6;
+
 pub fn prepare_params() -> (Vec<Fr>, Vec<Fr>, Fr, Fr) {
     // 准备计算DF和Hash的参数
     let mut rng = rand::thread_rng();
-- 
2.43.0


From 79284cba75810ff7f5ad250c52aaeb02117e9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:12 +0000
Subject: [PATCH 02/22] fix: verify() accepted rejected proofs (checked only
 that verification did not error)

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..2e1023f 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,5 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From 0f8adf658fd9ae6a57f387ae3b61e81161eafd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:12 +0000
Subject: [PATCH 03/22] fix: verify() let one challenge be answered several
 times

---
 proof_of_space/src/proof_of_space/verifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 2e1023f..4d10e51 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -29,6 +29,9 @@ pub fn create_challenges(n: usize, end: usize) -> Vec<usize> {
 
 pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key: Fr, m: Fr, challenges: &Vec<usize>, idx_response: &Vec<usize>, x_hash: Fr) {
     //! 验证零知识证明
+    // 每个挑战最多只能被响应一次，因此响应的编号必须严格递增
+    assert!(idx_response.windows(2).all(|w| w[0] < w[1]));
+
     let mut verify_input = vec![];
     verify_input.push(key);
     verify_input.push(m);
-- 
2.43.0


From 228bb08d2542f5716c11fbe696d7fe470803fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:31 +0000
Subject: [PATCH 04/22] fix: proof-of-space circuit left m, the bit
 decompositions and the hash inputs unconstrained

---
 proof_of_space/src/circuit/pospace_circuit.rs | 42 +++++++++++++++----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..d0e907a 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -48,11 +48,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let m = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+        // 每个响应对应的x，计算哈希时使用同一个变量
+        let mut x_vars = vec![];
     
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -68,7 +72,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
             // xr = m
             let mut xr_val = m_val;
-            let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let mut xr = m;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
@@ -132,6 +136,18 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     let mut two_val = Some(Fr::one());
                     let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+                    // 初始值：y = 0，two = 1
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
+                    cs.enforce_constraint(
+                        lc!() + two,
+                        lc!() + Variable::One,
+                        lc!() + Variable::One
+                    )?;
+
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
                         let bit_val = {
@@ -183,12 +199,10 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
                         }
 
@@ -210,6 +224,18 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut two_val = Some(Fr::one());
                             let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+                            // 初始值：yn = 0，two = 1
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
+                            cs.enforce_constraint(
+                                lc!() + two,
+                                lc!() + Variable::One,
+                                lc!() + Variable::One
+                            )?;
     
                             for m in 0..yn_bits_val.len() {
 
@@ -285,15 +311,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         }
 
         let mut res_val  = self.key;
-        let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut res = key;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 27994c6bf0e0e4bd2aaaad5df44fedde0e0fac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:08 +0000
Subject: [PATCH 05/22] fix: proof-of-space circuit accepted a non-canonical
 bit decomposition of the delay function's output

---
 proof_of_space/src/circuit/pospace_circuit.rs | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index d0e907a..86c4120 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -136,6 +136,9 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     let mut two_val = Some(Fr::one());
                     let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+                    // y的每一位对应的变量及取值
+                    let mut y_bits = vec![];
+
                     // 初始值：y = 0，two = 1
                     cs.enforce_constraint(
                         lc!() + y,
@@ -168,6 +171,8 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             lc!() + bit
                         )?;
                         
+                        y_bits.push((bit, bit_val));
+
                         // tmp1 = yi * 2^i
                         let tmp_val = bit_val.map(|mut e| {
                             e.mul_assign(&two_val.unwrap());
@@ -306,6 +311,37 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             }
                         }
                     }
+
+                    // y_bits必须是y的唯一规范表示：y_bits <= 模数 - 1
+                    // 从高位到低位，若之前模数为1的位全部为1，则模数为0的位必须为0
+                    let max: BigInteger256 = (-Fr::one()).into();
+                    let max_bits = max.to_bits_le();
+                    let mut run = Variable::One;
+                    let mut run_val = Some(Fr::one());
+                    for k in (0..Y_SIZE).rev() {
+                        let (bit, bit_val) = y_bits[k];
+                        if max_bits[k] == true {
+                            let new_run_val = bit_val.map(|mut e| {
+                                e.mul_assign(&run_val.unwrap());
+                                e
+                            });
+                            let new_run = cs.new_witness_variable(|| new_run_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            cs.enforce_constraint(
+                                lc!() + run,
+                                lc!() + bit,
+                                lc!() + new_run
+                            )?;
+                            run = new_run;
+                            run_val = new_run_val;
+                        }
+                        else {
+                            cs.enforce_constraint(
+                                lc!() + run,
+                                lc!() + bit,
+                                lc!()
+                            )?;
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 37ecd0f5e5d6533d5344b3e148bf6272fac6904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:08 +0000
Subject: [PATCH 06/22] fix: proof_of_storage did not compile (legendre() had a
 branch without a value)

---
 proof_of_storage/src/zk_vde/sloth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proof_of_storage/src/zk_vde/sloth.rs b/proof_of_storage/src/zk_vde/sloth.rs
index 98621b2..dfb88db 100644
--- a/proof_of_storage/src/zk_vde/sloth.rs
+++ b/proof_of_storage/src/zk_vde/sloth.rs
@@ -9,6 +9,7 @@ pub fn legendre<F: Field>(mut x: F, p: F) -> F {
         return F::one();
     }
     else {
+        unimplemented!()
     }
 }
 
-- 
2.43.0


From 3e8a6660fe6e33c1ea9fab9d5202ec9aa5ef2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:08 +0000
Subject: [PATCH 07/22] fix: unseal() read the wrong long-dependency blocks
 when mode_l != 0

---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..628d3f5 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -378,7 +378,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
                 }
             }
             else {
-                for i in 0..idxs_l[idx2].len() {
+                for &i in &idxs_l[idx2] {
                     let start = Instant::now();
                     let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
-- 
2.43.0


From 7cd6cb6963cd5e961254be9a05cdddff58501c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:08 +0000
Subject: [PATCH 08/22] fix: short dependencies were built for the number of
 blocks, not units, when mode_s != 0

---
 proof_of_storage/src/proof_of_storage/prover.rs   | 4 ++--
 proof_of_storage/src/proof_of_storage/verifier.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 628d3f5..94ae344 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From e52f27f85395cbc694ebdac3c32bee48e16b5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:08 +0000
Subject: [PATCH 09/22] fix: short_mode_2() overflowed

---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..275dc91 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -197,13 +197,13 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     let mut flag = false;
     for i in 0..count {
         let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
-        let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
+        let dis = usize::pow(2, i.try_into().unwrap());
         if flag == true {
-            idx = index - dis1;
+            idx = index + dis - 1;
         }
         else {
-            idx = index - dis2;
+            // 向左越界时，idx >= num
+            idx = index.wrapping_sub(1 + dis);
         }
         flag = !flag;
 
-- 
2.43.0


From 7f91ccc5b83c9be25db4751dd320fac664b7ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:08 +0000
Subject: [PATCH 10/22] fix: random dependencies read past the hash when there
 are more than 65536 blocks or units

---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 275dc91..6f3d46b 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -72,7 +72,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16-step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -94,7 +94,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16-step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
@@ -239,7 +239,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16-step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -263,7 +263,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16-step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-- 
2.43.0


From 2cd17998fce846fff9778b6d3a2c2783207eb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 11/22] fix: read_file() took a short read for the whole data
 and returned zeros for the rest

---
 proof_of_storage/src/proof_of_storage/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 5849075..8fe7769 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -79,7 +79,15 @@ pub fn read_file(file: &mut File, begin_idx: usize, len: usize) -> Vec<u8> {
     //! 从 file 的 begin_idx 字节开始，读取 len 字节
     let mut buf = vec![0; len];
     file.seek(SeekFrom::Start(begin_idx.try_into().unwrap())).unwrap();
-    file.read(&mut buf).unwrap();
+    // 一次 read 可能只读出部分字节，直到读满或到达文件末尾为止
+    let mut cnt = 0;
+    while cnt < len {
+        let cur = file.read(&mut buf[cnt..]).unwrap();
+        if cur == 0 {
+            break;
+        }
+        cnt += cur;
+    }
     buf
 }
 
-- 
2.43.0


From 7b9eb90adf80b78f56877bd822e2133770971f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 12/22] fix: the Merkle tree of a file skipped its first leaf

---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From 7373a9ed7a1b145d5c2b4787f39b548e206a8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:29 +0000
Subject: [PATCH 13/22] fix: save_data() kept bytes of the previous public
 data, so a crash left a mix of both

---
 proof_of_storage/src/proof_of_storage/postorage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proof_of_storage/src/proof_of_storage/postorage.rs b/proof_of_storage/src/proof_of_storage/postorage.rs
index 443b0c3..305552b 100644
--- a/proof_of_storage/src/proof_of_storage/postorage.rs
+++ b/proof_of_storage/src/proof_of_storage/postorage.rs
@@ -68,6 +68,7 @@ pub fn save_data(path: &str, vde_key: &Integer, iv: &Vec<u8>) {
     .read(true)
     .write(true)
     .create(true) 
+    .truncate(true)
     .open(path)
     .unwrap();
 
-- 
2.43.0


From 0490bcc0fca2426700cde3fd20fc76a22f2bc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:08 +0000
Subject: [PATCH 14/22] fix: create_challenges() never returned when asked for
 more challenges than exist

---
 proof_of_storage/src/proof_of_storage/verifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index 648e06a..8677b2a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -33,6 +33,9 @@ pub fn create_random_file(path: &str, data_len: usize) -> std::io::Result<()> {
 
 pub fn create_challenges(n: usize, range: (usize, usize)) -> Vec<usize> {
     //! 生成 count 个随机数，范围是 [left, right)
+    // 不同的挑战最多只有 right - left 个
+    assert!(n <= range.1 - range.0);
+
     let mut rng = rand::thread_rng();
     let mut set = BTreeSet::new();
 
-- 
2.43.0


From 0f253c28ceb3237d03f50895d550531f8dc41cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:08 +0000
Subject: [PATCH 15/22] fix: batch_unseal_prepare() missed the last block of a
 range that does not start on a block boundary

---
 proof_of_storage/src/proof_of_storage/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index 8677b2a..151a369 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -128,7 +128,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
     let blocks_idx = {
         let mut res = vec![];
         let mut i = 0;
-        while i * params.block_pl + idx_begin < idx_end {
+        while idx_begin < idx_end && (i + idx_begin / params.block_pl) * params.block_pl < idx_end {
             res.push(i + idx_begin / params.block_pl);
             i += 1;
         }
-- 
2.43.0


From 15d0a2c6637ea465fa10e7840828095e5e1a145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:08 +0000
Subject: [PATCH 16/22] fix: long_mode_2() and long_mode_3() overflowed for
 more than 64 distances

---
 proof_of_storage/src/proof_of_storage/depend.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 6f3d46b..198cdb6 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -21,7 +21,8 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
     //! 
     //!       -2,     -3,     -5,     -9...
     let mut long_index = vec![];
-    for i in 0..count {
+    // 2^64 超出寻址范围
+    for i in 0..count.min(64) {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
@@ -36,7 +37,8 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
     // 回溯个数与当前数据块编号有关，=编号%10
     let mut long_index = vec![];
     let count = index / 10;
-    for i in 0..count {
+    // 2^64 超出寻址范围
+    for i in 0..count.min(64) {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
-- 
2.43.0


From 2d9e075620481f522ff466833627bfce68138dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:03 +0000
Subject: [PATCH 17/22] hook: constructors for the standalone MiMC circuits
 under cfg(verif_sim), off by default

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 7 +++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index b119055..5183347 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_sim)]
+impl<'a, F: Field> MiMC3DFDemo<'a, F> {
+    pub fn sim_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        MiMC3DFDemo { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index d48845f..c6ee1c0 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_sim)]
+impl<'a, F: Field> MiMC5DFDemo<'a, F> {
+    pub fn sim_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        MiMC5DFDemo { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..c678911 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_sim)]
+impl<'a, F: Field> MiMC5HashDemo<'a, F> {
+    pub fn sim_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        MiMC5HashDemo { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..1321147 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_sim)]
+impl<'a, F: Field> MiMC7HashDemo<'a, F> {
+    pub fn sim_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        MiMC7HashDemo { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
-- 
2.43.0


From a4ceb15086191f7d679a1f4d6169f86180e0e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:03 +0000
Subject: [PATCH 18/22] fix: standalone MiMC hash circuits did not tie each
 block's key to the running hash

---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index c678911..b8afe8b 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -42,7 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 1321147..acac5d4 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -42,7 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 1e40697a9e308be67f4e203b8f3fa9f40ba4580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:03 +0000
Subject: [PATCH 19/22] fix: power circuit left its initial accumulator
 unconstrained

---
 proof_of_space/src/circuit/pow_circuit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..6cd0a7a 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -26,6 +26,13 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
         let mut y_val = Some(F::one());
         let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+        // 初始值：y = 1
+        cs.enforce_constraint(
+            lc!() + y,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
+
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
 
-- 
2.43.0


From a2c13e6ed9d1e262025caf195e56e4321f8e551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:03 +0000
Subject: [PATCH 20/22] fix: equality circuit left its initial power of two and
 sum unconstrained

---
 proof_of_space/src/circuit/equal_circuit.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..1e96a34 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -34,6 +34,18 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
 
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+        // 初始值：two = 1，x = 0
+        cs.enforce_constraint(
+            lc!() + two,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
+
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
             let mut bit_val = None;
-- 
2.43.0


From 72ab71d5b3c67d989c64194cd031c0b3af27a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:52 +0000
Subject: [PATCH 21/22] fix: equality circuit accepted a non-canonical bit
 decomposition

---
 proof_of_space/src/circuit/equal_circuit.rs | 37 +++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 1e96a34..137fe3a 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -46,6 +46,9 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             lc!()
         )?;
 
+        // x2的每一位对应的变量及取值
+        let mut bits = vec![];
+
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
             let mut bit_val = None;
@@ -65,6 +68,8 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
                 lc!() + bit
             )?;
             
+            bits.push((bit, bit_val));
+
             // tmp1 = xi * 2^i
             let tmp1_val = bit_val.map(|mut e| {
                 e.mul_assign(&two_val.unwrap());
@@ -128,6 +133,38 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             x_val = tmp2_val;
         }
 
+        // x_bits必须是x2的唯一规范表示：x_bits <= 模数 - 1
+        // 从高位到低位，若之前模数为1的位全部为1，则模数为0的位必须为0
+        let modulus = F::characteristic();
+        let mut run = Variable::One;
+        let mut run_val = Some(F::one());
+        for i in (0..INPUT_SIZE).rev() {
+            let (bit, bit_val) = bits[i];
+            // 模数为奇数，模数 - 1 只改变最低位
+            let max_bit = i > 0 && modulus.get(i / 64).map_or(false, |e| (e >> (i % 64)) & 1 == 1);
+            if max_bit {
+                let new_run_val = bit_val.map(|mut e| {
+                    e.mul_assign(&run_val.unwrap());
+                    e
+                });
+                let new_run = cs.new_witness_variable(|| new_run_val.ok_or(SynthesisError::AssignmentMissing))?;
+                cs.enforce_constraint(
+                    lc!() + run,
+                    lc!() + bit,
+                    lc!() + new_run
+                )?;
+                run = new_run;
+                run_val = new_run_val;
+            }
+            else {
+                cs.enforce_constraint(
+                    lc!() + run,
+                    lc!() + bit,
+                    lc!()
+                )?;
+            }
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 0fd934e0166f43cf96c0ea2d585636629558ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:07 +0000
Subject: [PATCH 22/22] hook: a guard of its own (cfg(verif_gadget)) for the
 standalone circuits' constructors

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 2 +-
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 2 +-
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index 5183347..59fd0e9 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,7 +19,7 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
-#[cfg(verif_sim)]
+#[cfg(verif_gadget)]
 impl<'a, F: Field> MiMC3DFDemo<'a, F> {
     pub fn sim_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
         MiMC3DFDemo { xl, xr, constants }
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index c6ee1c0..78f0d5a 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,7 +19,7 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
-#[cfg(verif_sim)]
+#[cfg(verif_gadget)]
 impl<'a, F: Field> MiMC5DFDemo<'a, F> {
     pub fn sim_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
         MiMC5DFDemo { xl, xr, constants }
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index b8afe8b..94eecc0 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,7 +19,7 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
-#[cfg(verif_sim)]
+#[cfg(verif_gadget)]
 impl<'a, F: Field> MiMC5HashDemo<'a, F> {
     pub fn sim_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
         MiMC5HashDemo { x_inputs, key, constants }
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index acac5d4..2f4d599 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,7 +19,7 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
-#[cfg(verif_sim)]
+#[cfg(verif_gadget)]
 impl<'a, F: Field> MiMC7HashDemo<'a, F> {
     pub fn sim_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
         MiMC7HashDemo { x_inputs, key, constants }
-- 
2.43.0

