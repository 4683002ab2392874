From cce404f77666a51c32b3fa9c38ae2889b526510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 01/14] fix: layered Circuit::validate bounds gate input layers
 by the segment's own inputs

A gate whose input layer was below the number of layers but not below the number
of input layers of its segment made validate() panic in num_inputs.get() instead
of returning an error.
---
 expander_compiler/src/circuit/layered/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 97aa798..42640bd 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -427,7 +427,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -456,7 +456,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
-- 
2.43.0


From 07c3f6ef5db0d2cdae813935473d761aaece0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 02/14] fix: verifiers reject proofs that do not contain one
 proof per kernel call

Expander, ParallelizedExpander, the deferred-PCS verifier and the dummy verifier
zipped the kernel proofs with the proof templates, so a proof with its last
kernel proofs removed (or with no proofs at all) was accepted.
---
 expander_compiler/src/zkcuda/proving_system/dummy.rs          | 4 ++++
 .../src/zkcuda/proving_system/expander/api_single_thread.rs   | 4 ++++
 .../src/zkcuda/proving_system/expander_local_deferred/api.rs  | 3 +++
 .../proving_system/expander_parallelized/api_parallel.rs      | 4 ++++
 .../zkcuda/proving_system/expander_pcs_defered/verify_impl.rs | 3 +++
 5 files changed, 18 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index b18beb6..4d78405 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -190,6 +190,10 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
         computation_graph: &ComputationGraph<C>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
+
         let verified = proof
             .proofs
             .par_iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
index 836201a..8d071f7 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
@@ -231,6 +231,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         computation_graph: &ComputationGraph<ECCConfig>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
+
         let verified = proof
             .proofs
             .iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index 3ba0c40..e96ca22 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -73,6 +73,9 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
 
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
+        if proof.proofs.len() != cg.proof_templates().len() {
+            return false;
+        }
         // Parallel template verification — each template is independent
         let vs_ptr = vs as *const _ as usize;
         use rayon::prelude::*;
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
index 8100531..78f6a21 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
@@ -54,6 +54,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         computation_graph: &ComputationGraph<ECCConfig>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
+
         let verification_timer = Timer::new("Verify all kernels", true);
         let verified = proof
             .proofs
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index b06be3d..92c368c 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -150,6 +150,9 @@ where
 {
     let verification_timer = Timer::new("Total Verification", true);
     let pcs_batch_opening = proof.proofs.pop().unwrap();
+    if proof.proofs.len() != computation_graph.proof_templates().len() {
+        return false;
+    }
 
     let gkr_verification_timer = Timer::new("GKR Verification", true);
     let verified_with_pcs_claims = proof
-- 
2.43.0


From c2751e650a4b7e8e71be687f426381ccb4e332cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 03/14] fix: dummy verifier rejects kernel calls whose
 constraints do not hold

It only compared the recorded conditions with the recomputed ones, so a proof
recording a violated constraint was accepted.
---
 expander_compiler/src/zkcuda/proving_system/dummy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index 4d78405..45ab043 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -119,7 +119,7 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
             let (_, cond) = kernel
                 .layered_circuit()
                 .eval_with_public_inputs_simd(lc_input, &[]);
-            if cond != proof.cond[i] {
+            if cond != proof.cond[i] || !cond.iter().all(|x| *x) {
                 return false;
             }
         }
-- 
2.43.0


From f2312f37571010a7160dfb99848605bcd85eb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:04 +0000
Subject: [PATCH 04/14] fix: map_to_curve1 binds y to the curve equation when
 g(x0) is a square

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index bba0ee0..abed807 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -551,7 +551,7 @@ impl G1 {
 
         let res_y_sq = self.curve_f.mul(native, &res_y, &res_y);
 
-        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &res_y_sq);
+        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &y_sq);
 
         self.curve_f
             .assert_is_equal(native, &expected_y_sq, &res_y_sq);
-- 
2.43.0


From 8be7519c26e156e905533cb341f268a2380d81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:04 +0000
Subject: [PATCH 05/14] fix: assert_is_on_g1 compares -[x^2]phi(P) with P

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
index fd43b44..e8f7b39 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
@@ -472,7 +472,8 @@ impl Pairing {
         let phi_p = self.g1.phi(native, p);
         let p_squared = self.g1.scalar_mul_by_seed_square(native, &phi_p);
         let neg_p_squared = self.curve.neg(native, &p_squared);
-        self.g1.assert_is_equal(native, &neg_p_squared, &p_squared); // Neg returns an inverse of p. It doesn't modify p.);
+        // [r]P == 0 <==> P == -[x²]ϕ(P)
+        self.g1.assert_is_equal(native, &neg_p_squared, p);
     }
 
     // use p: G2Affine ?
-- 
2.43.0


From 76cea34dafc22bdc0cf6846246b7c2dc523a8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:13 +0000
Subject: [PATCH 06/14] fix: U2048 assert_mul compares every limb of the
 product

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0


From b8ae63e3bf7c235f30cf80979882d864ff4a3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:13 +0000
Subject: [PATCH 07/14] fix: RSA circuit constrains every power of x up to
 x^65536

---
 rsa_circuit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index 5bd0ad0..e35c08f 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -130,7 +130,7 @@ impl Define<BN254Config> for RSACircuit<Variable> {
             );
 
             // compute x^4, to x^65536
-            for i in 1..11 {
+            for i in 1..16 {
                 U2048Variable::assert_mul(
                     &x_power_vars[i - 1],
                     &x_power_vars[i - 1],
-- 
2.43.0


From 65441939cdf60981a9dbd5ac76a2b6fb766e347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 08/14] fix: range proofs of partial chunks must reject small
 negative values

---
 circuit-std-rs/src/logup.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..c7697a9 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,27 +397,17 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
+        //the top chunk may only hold the remaining bits
         let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let n = if rem != 0 {
+            n + self.rangeproof_bits - rem
+        } else {
+            n
+        };
         let hint_input = vec![
             builder.constant(n as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
         let witnesses = builder.new_hint(
             "myhint.rangeproofhint",
@@ -433,10 +423,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
+        builder.assert_is_equal(sum, a);
         for witness in witnesses.iter().take(n / self.rangeproof_bits) {
             self.query_range(*witness);
         }
+        if rem != 0 {
+            self.rangeproof_onechunk(builder, witnesses[n / self.rangeproof_bits - 1], rem);
+        }
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -459,6 +452,8 @@ impl LogUpRangeProofTable {
             mul_factor <<= n;
             let a_shift = builder.mul(constant, mul_factor);
             new_a = builder.add(a, a_shift);
+            //without this, small negative values would pass the shifted query
+            self.query_range(a);
         }
         self.query_range(new_a);
     }
-- 
2.43.0


From 8f45f648f135e0d519cec33b1e264b22c97565ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 09/14] fix: map_to_curve2 uses Z*A as the denominator of the
 exceptional case

The imaginary part of the constant was a cube root of unity (copied from
clear_cofactor) instead of -480, so that u = 0 was mapped to an abscissa
other than B/(Z*A) and usually to a point that is not on the curve.
---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index e6090d2..f4c2c89 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -338,7 +338,8 @@ impl G2 {
         let x0_den = self.ext2.mul(native, &a_neg, &num_den_common);
 
         let x1_den = GE2::from_vars(
-            value_of::<C, B, Bls12381Fp>(native, Box::new(240)).limbs, value_of::<C, B, Bls12381Fp>(native, Box::new("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436".to_string())).limbs,
+            value_of::<C, B, Bls12381Fp>(native, Box::new(240)).limbs,
+            value_of::<C, B, Bls12381Fp>(native, Box::new(-480i32)).limbs,
         );
 
         let exception = self.ext2.is_zero(native, &x0_den);
-- 
2.43.0


From ee511d196271bfa3708c0037efd3dc1d07531755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:42 +0000
Subject: [PATCH 10/14] fix: marking a constraint must not drop one that has
 been asserted

---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From b28295d6361088fe7b5c917f7f21ca4852834b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:17 +0000
Subject: [PATCH 11/14] fix: memorized functions with the same parameters must
 not share a sub-circuit

---
 expander_compiler/macros/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..8ec83a8 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -251,6 +251,11 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            // different functions are different sub-circuits, even with the same parameters
+            hasher.update(
+                concat!(module_path!(), "::", stringify!(#fn_name), "@", file!(), ":", line!(), ":", column!(), ";")
+                    .as_bytes(),
+            );
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From 0fee7f96708e8ce1c76a16ae233a0a5f0581a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:24 +0000
Subject: [PATCH 12/14] fix: a kernel at the address of an earlier one must not
 be taken for it

---
 expander_compiler/src/zkcuda/context.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..1bfbffc 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -396,12 +396,15 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
-            cached_id
-        } else {
-            let id = self.kernel_primitives.add(kernel);
-            self.kernel_ptr_cache.insert(ptr, id);
-            id
+        // The address may meanwhile hold another kernel, so a cached id only counts for an equal one.
+        let cached_id = self.kernel_ptr_cache.get(&ptr).copied();
+        let kernel_id = match cached_id {
+            Some(id) if self.kernel_primitives.get(id) == kernel => id,
+            _ => {
+                let id = self.kernel_primitives.add(kernel);
+                self.kernel_ptr_cache.insert(ptr, id);
+                id
+            }
         };
 
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
-- 
2.43.0


From bc5c6d2e567775815018c78958f565e09f2423ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:36 +0000
Subject: [PATCH 13/14] fix: loading a computation graph uses the kernel each
 call was compiled to

---
 expander_compiler/src/zkcuda/context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 1bfbffc..fc8a954 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -669,9 +669,11 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+            let kernel = if let Some(templates) = &cg_proof_templates {
+                // Get the loaded kernel of this call; calls of the same primitive may use
+                // different kernels, and different primitives may share one
+                let template = &templates[self.proof_templates.len()];
+                self.kernels.get(template.kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From a7a1d44c4c365083039747856e2bbeb2a2126e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:58 +0000
Subject: [PATCH 14/14] fix: the hints of a kernel take the shape of its
 parallel inputs

---
 expander_compiler/src/zkcuda/context.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index fc8a954..027a4c5 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -801,6 +801,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         }
         self.state = ContextState::WitnessDone;
 
+        // the shapes the computation graph was compiled with
+        let dm_shapes = self.get_current_device_memory_shapes();
         for (kernel_call, proof_template) in
             self.kernel_calls.iter().zip(self.proof_templates.iter())
         {
@@ -829,8 +831,11 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                if !ib && any_shape.is_none() {
+                    let (shape, _) = handle
+                        .shape_history
+                        .get_transposed_shape_and_bit_order(&dm_shapes[handle.id]);
+                    any_shape = Some(shape);
                 }
                 let values = handle
                     .shape_history
@@ -851,8 +856,11 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(output.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                if !ib && any_shape.is_none() {
+                    let (shape, _) = handle
+                        .shape_history
+                        .get_transposed_shape_and_bit_order(&dm_shapes[handle.id]);
+                    any_shape = Some(shape);
                 }
                 let values = handle
                     .shape_history
-- 
2.43.0

