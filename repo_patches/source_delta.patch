From 7551d9c1b42aa37ea7ec0566fc9785e830ec0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:10 +0000
Subject: [PATCH 01/22] hooks: constructors for the MiMC circuits behind
 cfg(verif_hooks)

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 8 ++++++++
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 8 ++++++++
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 8 ++++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index b119055..5a4fdfa 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,6 +19,14 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC3DFDemo<'a, F> {
+    /// Verification hook: build the circuit from outside this module.
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        MiMC3DFDemo { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index d48845f..5ae4cab 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,6 +19,14 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC5DFDemo<'a, F> {
+    /// Verification hook: build the circuit from outside this module.
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        MiMC5DFDemo { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..480168f 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,6 +19,14 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC5HashDemo<'a, F> {
+    /// Verification hook: build the circuit from outside this module.
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        MiMC5HashDemo { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..c45b805 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,6 +19,14 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC7HashDemo<'a, F> {
+    /// Verification hook: build the circuit from outside this module.
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        MiMC7HashDemo { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
-- 
2.43.0


From 8713177b0b08bf830425de84ddda6206d56877b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:10 +0000
Subject: [PATCH 02/22] fix: proof_of_storage did not compile because of the
 unfinished legendre stub in zk_vde

---
 proof_of_storage/src/zk_vde/sloth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proof_of_storage/src/zk_vde/sloth.rs b/proof_of_storage/src/zk_vde/sloth.rs
index 98621b2..176cbf8 100644
--- a/proof_of_storage/src/zk_vde/sloth.rs
+++ b/proof_of_storage/src/zk_vde/sloth.rs
@@ -9,6 +9,7 @@ pub fn legendre<F: Field>(mut x: F, p: F) -> F {
         return F::one();
     }
     else {
+        todo!()
     }
 }
 
-- 
2.43.0


From 27b95ced259cd2361b35c7ed53929338fd554a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:15 +0000
Subject: [PATCH 03/22] fix: bits_to_usize overflowed on 64-bit lists

---
 proof_of_space/src/proof_of_space/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/convert.rs b/proof_of_space/src/proof_of_space/convert.rs
index d52ea3d..200ba9f 100644
--- a/proof_of_space/src/proof_of_space/convert.rs
+++ b/proof_of_space/src/proof_of_space/convert.rs
@@ -66,7 +66,7 @@ pub fn bits_to_usize(x: &Vec<bool>) -> usize {
                 1
             }
         };
-        base *= 2;
+        base = base << 1;
     }
     res
 }
-- 
2.43.0


From b58a1f30d8467b6265b5ec3ccada1436c0a2e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:15 +0000
Subject: [PATCH 04/22] fix: prepare_space allocated too few bytes when
 (n+1)*2^n is not a multiple of 8

---
 proof_of_space/src/proof_of_space/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index e9105d9..1484cbc 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -35,7 +35,7 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     let count = base.pow(n.try_into().unwrap());
 
     let buf = [0u8; 1];
-    for _ in 0..(n + 1) * count / 8 {
+    for _ in 0..((n + 1) * count + 7) / 8 {
         file.write_all(&buf).unwrap();
     }
     Ok(())
-- 
2.43.0


From 8dbed45501d0c5e379bfc3402fd52fde8cb4b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:21 +0000
Subject: [PATCH 05/22] fix: pow and equality circuits left their starting
 values unconstrained

---
 proof_of_space/src/circuit/equal_circuit.rs | 8 +++++++-
 proof_of_space/src/circuit/pow_circuit.rs   | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..e251c19 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -30,9 +30,15 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
         let mut x_val = Some(F::zero());
         let mut two_val = Some(F::one());
 
-        let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut two = Variable::One;
 
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+        // x starts at 0
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
 
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..34f9024 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -24,7 +24,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
         let cs = ns.cs();
 
         let mut y_val = Some(F::one());
-        let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut y = Variable::One;
 
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 03df058b7662f2903bf9818461132ccd0c54dc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:58 +0000
Subject: [PATCH 06/22] fix: MiMC hash circuits left the inner key
 unconstrained

---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 480168f..c33652b 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -43,7 +43,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index c45b805..5f5f376 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -43,7 +43,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 393338b1cbc1cc0e8b1d8ba274d1cb39f41fd6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 07/22] fix: space circuit did not tie m, the responses and the
 expansion of y to the statement

---
 proof_of_space/src/circuit/pospace_circuit.rs | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..f6911fe 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -48,11 +48,13 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
-    
+        let m_in = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+        let mut x_vars = vec![];
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -68,7 +70,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
             // xr = m
             let mut xr_val = m_val;
-            let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let mut xr = m_in;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
@@ -128,9 +130,14 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     
                     let mut y_val = Some(Fr::zero());
                     let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
 
                     let mut two_val = Some(Fr::one());
-                    let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    let mut two = Variable::One;
 
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
@@ -183,12 +190,10 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
                         }
 
@@ -207,9 +212,14 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut yn_val = Some(Fr::zero());
                             let mut yn = cs.new_witness_variable(|| yn_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
                             
                             let mut two_val = Some(Fr::one());
-                            let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            let mut two = Variable::One;
     
                             for m in 0..yn_bits_val.len() {
 
@@ -285,15 +295,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         }
 
         let mut res_val  = self.key;
-        let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut res = key;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From feaa2745f0b4fd2f2a78718ae78eadc3a1bb97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 08/22] fix: bit expansions in the circuits accepted y +
 modulus besides y

---
 proof_of_space/src/circuit/canonical.rs       | 43 +++++++++++++++++++
 proof_of_space/src/circuit/equal_circuit.rs   |  6 +++
 proof_of_space/src/circuit/mod.rs             |  2 +
 proof_of_space/src/circuit/pospace_circuit.rs |  5 +++
 4 files changed, 56 insertions(+)
 create mode 100644 proof_of_space/src/circuit/canonical.rs

diff --git a/proof_of_space/src/circuit/canonical.rs b/proof_of_space/src/circuit/canonical.rs
new file mode 100644
index 0000000..49e526d
--- /dev/null
+++ b/proof_of_space/src/circuit/canonical.rs
@@ -0,0 +1,43 @@
+use ark_ff::Field;
+use ark_relations::{
+    lc,
+    r1cs::{ConstraintSystemRef, SynthesisError, Variable},
+};
+
+/// Enforce that the little-endian bits, each already constrained to 0 or 1,
+/// form a number below the characteristic of the field.
+pub fn enforce_canonical<F: Field>(cs: &ConstraintSystemRef<F>, bits: &[(Variable, Option<F>)]) -> Result<(), SynthesisError> {
+    // max = characteristic - 1 (the characteristic is odd)
+    let mut max = F::characteristic().to_vec();
+    max[0] -= 1;
+
+    // run = 1 while all higher bits equal those of max
+    let mut run = Variable::One;
+    let mut run_val = Some(F::one());
+
+    for i in (0..bits.len()).rev() {
+        let (bit, bit_val) = bits[i];
+        if i / 64 < max.len() && (max[i / 64] >> (i % 64)) & 1 == 1 {
+            // new_run = run * bit
+            let new_run_val = run_val.and_then(|r| bit_val.map(|b| r * b));
+            let new_run = cs.new_witness_variable(|| new_run_val.ok_or(SynthesisError::AssignmentMissing))?;
+            cs.enforce_constraint(
+                lc!() + run,
+                lc!() + bit,
+                lc!() + new_run
+            )?;
+            run = new_run;
+            run_val = new_run_val;
+        }
+        else {
+            // run * bit = 0
+            cs.enforce_constraint(
+                lc!() + run,
+                lc!() + bit,
+                lc!()
+            )?;
+        }
+    }
+
+    Ok(())
+}
diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index e251c19..15b8e64 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -6,6 +6,8 @@ use ark_relations::{
     r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
 };
 
+use super::canonical::enforce_canonical;
+
 pub const INPUT_SIZE: usize = 256;
 
 /// Prove two equations: 
@@ -40,6 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             lc!()
         )?;
 
+        let mut bits = vec![];
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
             let mut bit_val = None;
@@ -59,6 +62,8 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
                 lc!() + bit
             )?;
             
+            bits.push((bit, bit_val));
+
             // tmp1 = xi * 2^i
             let tmp1_val = bit_val.map(|mut e| {
                 e.mul_assign(&two_val.unwrap());
@@ -121,6 +126,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             x = tmp2;
             x_val = tmp2_val;
         }
+        enforce_canonical(&cs, &bits)?;
 
         Ok(())
     }
diff --git a/proof_of_space/src/circuit/mod.rs b/proof_of_space/src/circuit/mod.rs
index 7ede2e4..fafa55d 100644
--- a/proof_of_space/src/circuit/mod.rs
+++ b/proof_of_space/src/circuit/mod.rs
@@ -1,3 +1,5 @@
+pub mod canonical;
+
 pub mod equal_circuit;
 
 pub mod pow_circuit;
diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index f6911fe..1891144 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -7,6 +7,7 @@ use ark_relations::{
     r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
 };
 
+use super::canonical::enforce_canonical;
 use crate::proof_of_space::pospace::N;
 use crate::mimc::{mimc_df::MIMC5_DF_ROUNDS, mimc_hash::MIMC5_HASH_ROUNDS};
 
@@ -139,6 +140,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     let mut two_val = Some(Fr::one());
                     let mut two = Variable::One;
 
+                    let mut y_bits = vec![];
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
                         let bit_val = {
@@ -159,6 +161,8 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             lc!() + bit
                         )?;
                         
+                        y_bits.push((bit, bit_val));
+
                         // tmp1 = yi * 2^i
                         let tmp_val = bit_val.map(|mut e| {
                             e.mul_assign(&two_val.unwrap());
@@ -195,6 +199,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                                 lc!() + Variable::One,
                                 lc!() + xl
                             )?;
+                            enforce_canonical(&cs, &y_bits)?;
                         }
 
                         // 5.证明yn的二进制展开的正确性：yn_bits = yn
-- 
2.43.0


From 9be756c5fb9e6780eaf49560a1baeb3846cf82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 09/22] fix: space verifier accepted every well-formed proof

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..2e1023f 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,5 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From 71b4be6beb9cc16fb39d1b5ca7297ea1c41c59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 10/22] fix: space verifier counted a challenge answered twice
 as two responses

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 2e1023f..adfc355 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -34,6 +34,8 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
     verify_input.push(m);
 
     for i in 0.. idx_response.len() {
+        // 同一个挑战只能响应一次
+        assert!(!idx_response[..i].contains(&idx_response[i]));
         let yn = challenges[idx_response[i]];
         verify_input.push(Fr::from_str(&yn.to_string()).unwrap());
     }
-- 
2.43.0


From 8aee49390410bd0048ff2229d21809ca44f4e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 11/22] fix: merkle tree of a file skipped its first block and
 read past its end

---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From 713ba0df7da7207c7e2a37f64c11c568f41d790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 12/22] fix: unseal read the wrong long-range dependencies in
 the deterministic modes

---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..628d3f5 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -378,7 +378,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
                 }
             }
             else {
-                for i in 0..idxs_l[idx2].len() {
+                for &i in &idxs_l[idx2] {
                     let start = Instant::now();
                     let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
-- 
2.43.0


From 5c227f5c8bde78e18b977109998da920ba358a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 13/22] fix: short-range dependencies were sized by the number
 of blocks instead of units

---
 proof_of_storage/src/proof_of_storage/prover.rs   | 4 ++--
 proof_of_storage/src/proof_of_storage/verifier.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 628d3f5..94ae344 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 404b84af9047cce174deb80eefdf3d5562e0ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 14/22] fix: long-range modes 2 and 3 overflowed for 64 and
 more dependencies

---
 proof_of_storage/src/proof_of_storage/depend.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..4370c96 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -24,7 +24,10 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
     for i in 0..count {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
-        let dis = 1 + usize::pow(2, i.try_into().unwrap());
+        let dis = match usize::checked_pow(2, i.try_into().unwrap()) {
+            Some(d) => 1 + d,
+            None => break,
+        };
         if index >= dis {
             long_index.push(index - dis);
         }
@@ -39,7 +42,10 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
     for i in 0..count {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
-        let dis = 1 + usize::pow(2, i.try_into().unwrap());
+        let dis = match usize::checked_pow(2, i.try_into().unwrap()) {
+            Some(d) => 1 + d,
+            None => break,
+        };
         if index >= dis {
             long_index.push(index - dis);
         }
-- 
2.43.0


From 091b268a7c29c2ee35f649b0698b2a6baa3811cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 15/22] fix: short-range mode 2 underflowed

---
 proof_of_storage/src/proof_of_storage/depend.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 4370c96..46dd011 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -203,13 +203,15 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     let mut flag = false;
     for i in 0..count {
         let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
-        let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
+        let pow = match usize::checked_pow(2, i.try_into().unwrap()) {
+            Some(d) => d,
+            None => break,
+        };
         if flag == true {
-            idx = index - dis1;
+            idx = index.wrapping_add(pow - 1);
         }
         else {
-            idx = index - dis2;
+            idx = index.wrapping_sub(pow + 1);
         }
         flag = !flag;
 
-- 
2.43.0


From 6dd5fc3026256d7bd536d8aef7e4f72d09e52b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 16/22] fix: hash-driven dependencies read past the hash with
 more than 65536 blocks or units

---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 46dd011..909fd95 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -78,7 +78,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -100,7 +100,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
@@ -247,7 +247,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -271,7 +271,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-- 
2.43.0


From fe4d0fd163fb1937760412cba44be1bf477f3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 17/22] fix: sloth left the range for 0 and was not invertible
 there

---
 proof_of_storage/src/vde/rug_sloth.rs | 6 ++++++
 proof_of_storage/src/vde/sloth.rs     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/proof_of_storage/src/vde/rug_sloth.rs b/proof_of_storage/src/vde/rug_sloth.rs
index 6e3525e..9ad3a66 100644
--- a/proof_of_storage/src/vde/rug_sloth.rs
+++ b/proof_of_storage/src/vde/rug_sloth.rs
@@ -62,6 +62,9 @@ fn test_legendre() {
 }
 
 pub fn single_sloth(x: &Integer, p: &Integer) -> Integer {
+    if *x == 0 {
+        return x.clone();
+    }
     let flag = legendre(x.clone(), &p);
     // let flag = x.clone().pow_mod(&((p - Integer::from_str("1").unwrap()) / Integer::from_str("2").unwrap()), &p).unwrap();
     let mut y;
@@ -96,6 +99,9 @@ pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
 }
 
 pub fn single_sloth_inv(y: &Integer, p: &Integer) -> Integer {
+    if *y == 0 {
+        return y.clone();
+    }
     let x;
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         x = (y + Integer::from_str("1").unwrap()) % p;
diff --git a/proof_of_storage/src/vde/sloth.rs b/proof_of_storage/src/vde/sloth.rs
index 9099e95..04470a7 100644
--- a/proof_of_storage/src/vde/sloth.rs
+++ b/proof_of_storage/src/vde/sloth.rs
@@ -54,6 +54,9 @@ pub fn legendre(mut x: BigInt, p: &BigInt) -> BigInt {
 }
 
 pub fn single_sloth(x: &BigInt, p: &BigInt) -> BigInt {
+    if *x == 0.to_bigint().unwrap() {
+        return x.clone();
+    }
     let flag = legendre(x.clone(), &p);
     // let flag = x.modpow(&((p - 1.to_bigint().unwrap()) / 2.to_bigint().unwrap()), &p);
     let mut y;
@@ -88,6 +91,9 @@ pub fn sloth(y: &BigInt, p: &BigInt, t: usize) -> BigInt {
 }
 
 pub fn single_sloth_inv(y: &BigInt, p: &BigInt) -> BigInt {
+    if *y == 0.to_bigint().unwrap() {
+        return y.clone();
+    }
     let x;
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         x = (y + 1.to_bigint().unwrap()) % p;
-- 
2.43.0


From 45654f3c66b914e2f15a4d7a887b5b320b056cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:28 +0000
Subject: [PATCH 18/22] fix: file_compare.py accepted a file that is only a
 prefix of the other

---
 proof_of_storage/src/proof_of_storage/file_compare.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proof_of_storage/src/proof_of_storage/file_compare.py b/proof_of_storage/src/proof_of_storage/file_compare.py
index 5e170dc..03c6964 100644
--- a/proof_of_storage/src/proof_of_storage/file_compare.py
+++ b/proof_of_storage/src/proof_of_storage/file_compare.py
@@ -10,6 +10,8 @@ with open(FILE_A, "rb") as f_a:
         data_a = f_a.read()
         data_b = f_b.read()
         print(f'len: {len(data_a)} (origin) VS {len(data_b)} (unsealed)')
+        wrong_count += abs(len(data_a) - len(data_b))
+        is_right = wrong_count == 0
         for i in range(min(len(data_a), len(data_b))):
             if data_a[i] != data_b[i]:
                 wrong_count += 1
-- 
2.43.0


From 744d47ef9127be08ebabc1a1720f6bfc0f35632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 19/22] fix: hash-driven dependencies only reached the first
 766 blocks or units

The bytes of an index were added up without their weights.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 909fd95..ff4cafc 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -82,7 +82,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
-                data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
             }
             let depend_idx = data_idx % index;
             long_index.push(depend_idx);
@@ -104,7 +104,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-                    data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                    data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
                 }
                 let depend_idx = data_idx % index;
                 long_index.push(depend_idx);
@@ -251,7 +251,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
-                data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
             }
             let depend_idx = data_idx % num;
             if depend_idx != index {
@@ -275,7 +275,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-                    data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                    data_idx += data_hash[i+j] as usize * 2_usize.pow(8 * j as u32);
                 }
                 let depend_idx = data_idx % num;
                 if depend_idx != index {
-- 
2.43.0


From 1779363f16a0bc51aecbc0dc3c0f26ed3cb002c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:56 +0000
Subject: [PATCH 20/22] fix: hash-driven dependencies gave fewer than requested
 with more than 256 blocks or units

One hash holds 16 / step indices, not 8 * step.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index ff4cafc..70992c4 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -93,7 +93,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
         }
     }
 
-    for _ in 1..count/(8 * step) {
+    for _ in 0..count / (16 / step) {
         hasher = blake3::Hasher::new();
         hasher.update(&data_hash);
         blake3_res = hasher.finalize();
@@ -264,7 +264,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
         }
     }
 
-    for _ in 1..count/(8 * step) {
+    for _ in 0..count / (16 / step) {
         hasher = blake3::Hasher::new();
         hasher.update(&data_hash);
         blake3_res = hasher.finalize();
-- 
2.43.0


From 956de836f4529770ef415adea5005c2792419937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:44 +0000
Subject: [PATCH 21/22] fix: modsub lost the sign when the hash exceeds the
 modulus

---
 proof_of_storage/src/proof_of_storage/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 5849075..d2b4389 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -138,7 +138,7 @@ pub fn modadd(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
 pub fn modsub(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
     let left_int = Integer::from_digits(left, Order::Lsf);
     let right_int = Integer::from_digits(right, Order::Lsf);
-    let res_int = (left_int + p - right_int) % p;
+    let res_int = ((left_int - right_int) % p + p) % p;
     let mut res = res_int.to_digits::<u8>(Order::Lsf);
     res.append(&mut vec![0u8; left.len() - res.len()]);
     res
-- 
2.43.0


From 34e0af3134089be6d566d7e73789e5e9ba91fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 22/22] fix: hash-driven dependencies only reached the first
 2^24 blocks or units

---
 proof_of_storage/src/proof_of_storage/depend.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 70992c4..1b1b971 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -68,9 +68,12 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
         else if num <= 2_usize.pow(16) {
             2
         }
-        else {
+        else if num <= 2_usize.pow(24) {
             3
         }
+        else {
+            8
+        }
     };
 
     let mut hasher = blake3::Hasher::new();
@@ -237,9 +240,12 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
         else if num <= 2_usize.pow(16) {
             2
         }
-        else {
+        else if num <= 2_usize.pow(24) {
             3
         }
+        else {
+            8
+        }
     };
 
     let mut hasher = blake3::Hasher::new();
-- 
2.43.0

