From ed2d2e031fcc07a6bc86c7357eb94e5be31e54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 01/14] fix: start each worker's cosets at i*chunk in the
 multi-coset coset LDE

With more than one coset per worker chunk every chunk but the first used the
wrong coset generators, so the extension was wrong whenever the factor exceeded
the number of CPUs.
---
 src/polynomials/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/mod.rs b/src/polynomials/mod.rs
index ffae8d7..001ad2b 100644
--- a/src/polynomials/mod.rs
+++ b/src/polynomials/mod.rs
@@ -573,7 +573,7 @@ impl<F: PrimeField> Polynomial<F, Coefficients> {
             for (i, r) in results.chunks_mut(chunk).enumerate() {
                 let coeffs_for_coset = coeffs.clone();
                 scope.spawn(move |_| {
-                    let mut coset_generator = coset_omega.pow(&[i as u64]);
+                    let mut coset_generator = coset_omega.pow(&[(i*chunk) as u64]);
                     coset_generator.mul_assign(&F::multiplicative_generator());
                     for r in r.iter_mut() {
                         let mut c = coeffs_for_coset.clone();
-- 
2.43.0


From db8804f6608ae20472c4f8bd1834e0a0dee5a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 02/14] fix: commit evaluations at z before drawing the DEEP
 weights

The claimed register evaluations at the out-of-domain point were never absorbed
by the transcript, so a prover could choose them after seeing the weights. Their
number is now also checked by the verifier.
---
 src/ali/per_register/deep.rs | 29 +++++++++++++++++++++++++++--
 src/verifier/mod.rs          |  8 ++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/deep.rs b/src/ali/per_register/deep.rs
index ab69ef7..da22aa5 100644
--- a/src/ali/per_register/deep.rs
+++ b/src/ali/per_register/deep.rs
@@ -30,6 +30,9 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         let mut f_at_z_m = vec![];
 
+        // all the claimed values are evaluated and committed before any of the opening
+        // weights is drawn, so that the weights depend on the values they combine
+
         for m in self.all_masks.iter() {
             let mut root = match m.steps_difference {
                 StepDifference::Mask(mask) => {
@@ -51,9 +54,31 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             };
 
             let witness_value_at_z = f_polys[reg_num].evaluate_at(&worker, root);
+            transcript.commit_field_element(&witness_value_at_z);
 
             f_at_z_m.push(witness_value_at_z);
-        
+        }
+
+        for (m, witness_value_at_z) in self.all_masks.iter().zip(f_at_z_m.iter()) {
+            let mut root = match m.steps_difference {
+                StepDifference::Mask(mask) => {
+                    mask
+                },
+                _ => {
+                    unreachable!();
+                }
+            };
+            root.mul_assign(&z);
+
+            let reg_num = match m.register {
+                Register::Register(reg_number) => {
+                    reg_number
+                },
+                _ => {
+                    unreachable!();
+                }
+            };
+
             let divisor = if let Some(d) = divisors_for_masks.get(&m.steps_difference) {
                 d
             } else {
@@ -72,7 +97,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             };
 
             let mut f_minus_f_at_z = f_ldes[reg_num].clone();
-            let mut minus_witness_value_at_z = witness_value_at_z;
+            let mut minus_witness_value_at_z = *witness_value_at_z;
             minus_witness_value_at_z.negate();
             f_minus_f_at_z.add_constant(&worker, &minus_witness_value_at_z);
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 98d3f13..9d2c7a2 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -293,6 +293,14 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let z = scratch_space.transcript.get_challenge();
 
+        if proof.f_at_z_m.len() != self.all_masks.len() {
+            return Err(SynthesisError::Unsatisfied(format!("expected {} evaluations at z, proof contains {}", self.all_masks.len(), proof.f_at_z_m.len())));
+        }
+
+        for el in proof.f_at_z_m.iter() {
+            scratch_space.transcript.commit_field_element(&el);
+        }
+
         for _ in self.all_masks.iter() {
             let alpha = scratch_space.transcript.get_challenge();
 
-- 
2.43.0


From 433903312fbb5b7c229ce087e8885a4cbd9cce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 03/14] fix: bind every FRI layer root to the transcript and to
 the FRI proof

Only the last root was absorbed before query indices were drawn, and the roots
listed in the proof were never compared with the ones FRI queries are checked
against, so the absorbed roots did not constrain the verified layers.
---
 src/fri/mod.rs      |  5 +++++
 src/prover/mod.rs   | 10 ++++++----
 src/verifier/mod.rs | 17 +++++++++++++----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index c8ba386..e78b934 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -30,6 +30,7 @@ pub trait FriProofPrototype<F: PrimeField, I: IOP<F>> {
 }
 
 pub trait FriProof<F: PrimeField, I: IOP<F>> {
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput];
     fn get_final_coefficients(&self) -> &[F];
 }
 
@@ -147,6 +148,10 @@ pub struct FRIProof<F: PrimeField, I: IOP<F>> {
 }
 
 impl<F: PrimeField, I: IOP<F>> FriProof<F, I> for FRIProof<F, I> {
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput] {
+        &self.roots
+    }
+
     fn get_final_coefficients(&self) -> &[F] {
         &self.final_coefficients
     }
diff --git a/src/prover/mod.rs b/src/prover/mod.rs
index d0a6e26..66b4b8f 100644
--- a/src/prover/mod.rs
+++ b/src/prover/mod.rs
@@ -115,13 +115,15 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         let h1_iop_roots = h1_fri_proof_proto.get_roots();
         let h2_iop_roots = h2_fri_proof_proto.get_roots();
 
-        // TODO: we can also potentially commit intermediate roots
-
-        transcript.commit_bytes(&h1_fri_proof_proto.get_final_root().as_ref());
+        for root in h1_iop_roots.iter() {
+            transcript.commit_bytes(root.as_ref());
+        }
         for el in h1_fri_proof_proto.get_final_coefficients().into_iter() {
             transcript.commit_field_element(&el);
         }
-        transcript.commit_bytes(&h2_fri_proof_proto.get_final_root().as_ref());
+        for root in h2_iop_roots.iter() {
+            transcript.commit_bytes(root.as_ref());
+        }
         for el in h2_fri_proof_proto.get_final_coefficients().into_iter() {
             transcript.commit_field_element(&el);
         }
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 9d2c7a2..8c8bed6 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -307,15 +307,24 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             scratch_space.h1_poly_challenges.push(alpha);
         }
 
-        // println!("Final root for h1 in verifier = {:?}", proof.h1_iop_roots.last().expect("there is one").as_ref());
-        // println!("Final root for h1 in verifier = {:?}", proof.h2_iop_roots.last().expect("there is one").as_ref());
+        // roots absorbed by the transcript must be the ones that FRI queries are checked against
+        if proof.h1_iop_roots.as_slice() != proof.fri_proof_h1.get_roots() {
+            return Ok(false);
+        }
+        if proof.h2_iop_roots.as_slice() != proof.fri_proof_h2.get_roots() {
+            return Ok(false);
+        }
 
-        scratch_space.transcript.commit_bytes(proof.h1_iop_roots.last().expect("there is one").as_ref());
+        for r in proof.h1_iop_roots.iter() {
+            scratch_space.transcript.commit_bytes(r.as_ref());
+        }
         for el in proof.fri_proof_h1.get_final_coefficients().iter() {
             scratch_space.transcript.commit_field_element(&el);
         }
 
-        scratch_space.transcript.commit_bytes(proof.h2_iop_roots.last().expect("there is one").as_ref());
+        for r in proof.h2_iop_roots.iter() {
+            scratch_space.transcript.commit_bytes(r.as_ref());
+        }
         for el in proof.fri_proof_h2.get_final_coefficients().iter() {
             scratch_space.transcript.commit_field_element(&el);
         }
-- 
2.43.0


From 41f2b9c73ac37b511366325b1d8605c0a1d75ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 04/14] fix: pin FRI parameters of a proof to the verifier's
 instance

The degree bound, LDE factor, number of rounds, queries and final coefficients
were taken from the proof without any check, so a proof could declare a degree
bound under which everything is low degree, or no rounds at all.
---
 src/fri/mod.rs      | 10 ++++++++++
 src/fri/verifier.rs | 26 ++++++++++++++++++++++++--
 src/verifier/mod.rs | 10 ++++++++++
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index e78b934..7bd7afc 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -32,6 +32,8 @@ pub trait FriProofPrototype<F: PrimeField, I: IOP<F>> {
 pub trait FriProof<F: PrimeField, I: IOP<F>> {
     fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput];
     fn get_final_coefficients(&self) -> &[F];
+    fn get_initial_degree_plus_one(&self) -> usize;
+    fn get_lde_factor(&self) -> usize;
 }
 
 pub trait FriIop<F: PrimeField> {
@@ -155,6 +157,14 @@ impl<F: PrimeField, I: IOP<F>> FriProof<F, I> for FRIProof<F, I> {
     fn get_final_coefficients(&self) -> &[F] {
         &self.final_coefficients
     }
+
+    fn get_initial_degree_plus_one(&self) -> usize {
+        self.initial_degree_plus_one
+    }
+
+    fn get_lde_factor(&self) -> usize {
+        self.lde_factor
+    }
 }
 
 impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index dd40c3f..6f5ffe2 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -143,7 +143,29 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
         // start from the bottom: we need to get a "pair" and calculate FRI step
 
-        let domain = Domain::<F>::new_for_size((proof.initial_degree_plus_one * proof.lde_factor) as u64)?;
+        if !proof.initial_degree_plus_one.is_power_of_two() 
+            || !proof.output_coeffs_at_degree_plus_one.is_power_of_two()
+            || !proof.lde_factor.is_power_of_two()
+            || proof.output_coeffs_at_degree_plus_one > proof.initial_degree_plus_one {
+            return Err(SynthesisError::InvalidValue("invalid FRI parameters".to_owned()));
+        }
+
+        // one root for the initial oracle and one for every folding from the initial degree to the output one
+        let num_steps = log2_floor(proof.initial_degree_plus_one / proof.output_coeffs_at_degree_plus_one) as usize;
+
+        if proof.roots.len() != num_steps + 1 {
+            return Err(SynthesisError::InvalidValue(format!("expected {} roots, got {}", num_steps + 1, proof.roots.len())));
+        }
+
+        if proof.final_coefficients.len() != proof.output_coeffs_at_degree_plus_one {
+            return Err(SynthesisError::InvalidValue(format!("expected {} final coefficients, got {}", proof.output_coeffs_at_degree_plus_one, proof.final_coefficients.len())));
+        }
+
+        let domain_size = proof.initial_degree_plus_one.checked_mul(proof.lde_factor).ok_or(
+            SynthesisError::InvalidValue("FRI domain is too large".to_owned())
+        )?;
+
+        let domain = Domain::<F>::new_for_size(domain_size as u64)?;
 
         let domain_element = domain.generator.pow([natural_element_index as u64]);
 
@@ -167,7 +189,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         let mut domain_size = domain.size as usize;
         let mut domain_idx = natural_element_index;
 
-        if proof.queries.len() % degree != 0 {
+        if proof.queries.len() % degree != 0 || proof.queries.len() / degree != proof.roots.len() {
             return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
         }
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 8c8bed6..b83c6b4 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -398,6 +398,16 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             g_at_z_from_verifier
         )?;
 
+        // Degree bounds are dictated by the instance and not by the proof
+        if proof.fri_proof_h1.get_lde_factor() != self.lde_factor 
+            || proof.fri_proof_h1.get_initial_degree_plus_one() as u64 != self.column_domain.size {
+            return Ok(false);
+        }
+        if proof.fri_proof_h2.get_lde_factor() != self.lde_factor 
+            || proof.fri_proof_h2.get_initial_degree_plus_one() as u64 != self.constraints_domain.size {
+            return Ok(false);
+        }
+
         // Now we need to check that H1 and H2 are indeed low degree polynomials
         let valid = FRI::verify_proof(
             &proof.fri_proof_h1,
-- 
2.43.0


From d78603f9f0b22d60e9e8b9b73b25bbad0c2d0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 05/14] fix: compare the last FRI oracle with the final
 coefficients without folding it

The verifier folded the last oracle once more than the prover did, so honest
proofs with more than one final coefficient were rejected.
---
 src/fri/verifier.rs | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 6f5ffe2..2be2afc 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -185,7 +185,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         )?;
 
 
-        let mut expected_value: Option<F> = None;
+        // at the initial domain the value comes from the oracle, later it's a result of folding
+        let mut expected_value = expected_value_from_oracle;
         let mut domain_size = domain.size as usize;
         let mut domain_idx = natural_element_index;
 
@@ -209,14 +210,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 }
             }
 
-            if round == 0 {
-                for q in queries.iter() {
-                    if q.natural_index() == natural_element_index && q.value() != expected_value_from_oracle {
-                        return Ok(false);
-                    }
-                }
-            }
-
             for (c, q) in coset_values.iter().zip(queries.iter()) {
                 let tree_index = <I::Combiner as CosetCombiner<F>>::natural_index_into_tree_index(*c);
                 if q.tree_index() != tree_index {
@@ -231,27 +224,26 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 }
             }
             
-            let iop_challenge = I::encode_root_into_challenge(root);
-
-            let f_at_omega = (&queries[0]).value();
-            if let Some(value) = expected_value {
+            if !coset_values.contains(&domain_idx) {
+                return Ok(false);
+            }
 
-                if !coset_values.contains(&domain_idx) {
+            for q in queries.iter() {
+                // check consistency with the oracle or with the previous folding
+                if q.natural_index() == domain_idx && q.value() != expected_value {
                     return Ok(false);
                 }
+            }
 
-                let q: Vec<_> = queries.iter().filter(|el| el.natural_index() == domain_idx).collect();
-                if q.len() != 1 {
-                    return Ok(false)
-                }
-
-                let supplied_value = q[0].value();
-                // check in the next domain
-                if supplied_value != value {
-                    return Ok(false);
-                }
+            // values of the last oracle are not folded any more, those are
+            // evaluations of the polynomial with the final coefficients
+            if round == num_steps {
+                break;
             }
 
+            let iop_challenge = I::encode_root_into_challenge(root);
+
+            let f_at_omega = (&queries[0]).value();
             let f_at_minus_omega = (&queries[1]).value();
             let divisor = omega_inv.pow([coset_values[0] as u64]);
 
@@ -274,7 +266,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             tmp.add_assign(&v_even_coeffs);
             tmp.mul_assign(&two_inv);
 
-            expected_value = Some(tmp);
+            expected_value = tmp;
 
             // we have jumped in a coset and can keep it ordered using the smaller index out of two
             // domain_idx = coset_values[0];
@@ -303,8 +295,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             power.mul_assign(&evaluation_point);
         }
         
-        let expected_value = expected_value.expect("is some");
-
         let valid = expected_value_from_coefficients == expected_value;
 
         Ok(valid)
-- 
2.43.0


From c0050aca121dcfa13980f663264e41543743df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 06/14] fix: return an error instead of panicking on malformed
 FRI proofs

Out of order queries, an index outside of the domain and a domain size beyond
2^63 aborted the caller.
---
 src/domains/mod.rs  | 2 +-
 src/fri/verifier.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/domains/mod.rs b/src/domains/mod.rs
index 682377e..b0bb708 100644
--- a/src/domains/mod.rs
+++ b/src/domains/mod.rs
@@ -19,7 +19,7 @@ pub struct Domain<F: PrimeField> {
 
 impl<F: PrimeField> Domain<F> {
     pub fn new_for_size(size: u64) -> Result<Self, SynthesisError> {
-        let size = size.next_power_of_two();
+        let size = size.checked_next_power_of_two().ok_or(SynthesisError::Error)?;
         let mut power_of_two = 0;
         let mut k = size;
         while k != 1 {
diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 2be2afc..7921c47 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -167,6 +167,10 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
         let domain = Domain::<F>::new_for_size(domain_size as u64)?;
 
+        if natural_element_index >= domain_size {
+            return Err(SynthesisError::InvalidValue(format!("index {} is not in the LDE domain", natural_element_index)));
+        }
+
         let domain_element = domain.generator.pow([natural_element_index as u64]);
 
         let el = domain_element.pow([domain.size]);
@@ -215,7 +219,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 if q.tree_index() != tree_index {
                     return Err(SynthesisError::InvalidValue(format!("invalid tree index for element at natural index {}: expected {}, got {}", c, tree_index, q.tree_index())));
                 }
-                assert!(q.natural_index() == *c, "coset values and produced queries are expected to be sorted!");
+                if q.natural_index() != *c {
+                    return Err(SynthesisError::InvalidValue("coset values and produced queries are expected to be sorted".to_owned()));
+                }
             }
 
             for q in queries.iter() {
-- 
2.43.0


From b6b36ca79c32861eb4f9770db17562f8a967efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 07/14] fix: check the length of authentication paths

A path of a wrong length lets an inner node of the tree (or a made up longer
branch) be presented as an opening at some index.
---
 src/fri/verifier.rs | 4 ++++
 src/verifier/mod.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 7921c47..2607c26 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -225,6 +225,10 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             }
 
             for q in queries.iter() {
+                // path length separates leafs from inner nodes
+                if q.path().len() != log2_floor(domain_size) as usize {
+                    return Ok(false);
+                }
                 if !I::verify_query(&q, &root) {
                     return Ok(false);
                 }
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index b83c6b4..ed531be 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -10,6 +10,7 @@ use crate::air::*;
 use crate::ali::*;
 use crate::arp::mappings::*;
 use crate::fri::*;
+use crate::utils::log2_floor;
 use byteorder::{BigEndian, ByteOrder};
 
 use indexmap::IndexSet as IndexSet;
@@ -351,6 +352,10 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         }
 
         for (query, root) in proof.f_queries.iter().zip(proof.f_iop_roots.iter()) {
+            // path length separates leafs from inner nodes
+            if query.path().len() != log2_floor(f_lde_size as usize) as usize {
+                return Ok(false);
+            }
             if !I::verify_query(query, root) {
                 return Ok(false);
             }
@@ -379,6 +384,9 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             z
         )?;
 
+        if proof.g_query.path().len() != log2_floor(g_lde_size as usize) as usize {
+            return Ok(false);
+        }
         if !I::verify_query(&proof.g_query, &proof.g_iop_root) {
             return Ok(false);
         }
-- 
2.43.0


From 8b03c7d75e965aaa8474ebc5541b1effb04048f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 08/14] fix: round the constraint LDE factor up to a power of
 two

Composition of constraints whose maximum degree is not a power of two (e.g. 3)
panicked, because the factor didn't match the size of the constraints domain.
---
 src/ali/per_register/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 62ac346..db05fdc 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -251,6 +251,9 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
     ) -> Result<Polynomial<F, Coefficients>, SynthesisError> {
         assert!(witness.len() == self.properties.num_registers);
 
+        // size of the constraints domain is always rounded up to the power of two
+        let constraints_lde_factor = self.max_constraint_power.next_power_of_two();
+
         // all zeroes
         let mut g_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
 
@@ -452,7 +455,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                         t, 
                         &mask_applied_polynomials, 
                         &mut evaluated_terms_map, 
-                        self.max_constraint_power, 
+                        constraints_lde_factor, 
                         &worker
                     )?;
                     constraint_values.add_assign(&worker, &subval);
@@ -476,7 +479,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             g_values.add_assign(&worker, &batch_values);
         }
 
-        let boundary_lde_factor = self.max_constraint_power;
+        let boundary_lde_factor = constraints_lde_factor;
 
         // now evaluate normal constraints
         for b_c in self.properties.boundary_constraints.iter() {
-- 
2.43.0


From 4577fc18a9c0ecd86a49757b7abe0dff36ccb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 09/14] fix: don't accumulate earlier batches into later ones
 in the composition polynomial

Values of a constraint and of a batch started from the running sum instead of
zero, so with more than one constraint density the composition was wrong.
---
 src/ali/per_register/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index db05fdc..c187773 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -254,8 +254,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
         // size of the constraints domain is always rounded up to the power of two
         let constraints_lde_factor = self.max_constraint_power.next_power_of_two();
 
-        // all zeroes
-        let mut g_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let zeroes = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let mut g_values = zeroes.clone();
 
         fn evaluate_for_mask<F: PrimeField> (
             mut f: Polynomial<F, Coefficients>,
@@ -426,7 +426,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
-            let mut batch_values = g_values.clone();
+            let mut batch_values = zeroes.clone();
             for c in batch.iter()   {
                 let constraint_power = c.degree;
                 assert!(self.max_constraint_power >= constraint_power);
@@ -449,7 +449,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                     Some(adj_poly)
                 };
 
-                let mut constraint_values = g_values.clone();
+                let mut constraint_values = zeroes.clone();
                 for t in c.terms.iter() {
                     let subval = evaluate_constraint_term_into_values(
                         t, 
-- 
2.43.0


From 4505fa465643b4b127aa977ee84a9f2cef9b6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 10/14] fix: shave challenges correctly for every field width

For moduli of 64*k and 64*k + 1 bits the mask left bits above the capacity of
the field in the top limb, so drawing a challenge panicked.
---
 src/iop/blake2s_trivial_iop.rs | 14 ++++++++++----
 src/transcript/mod.rs          | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 4f08daa..4510059 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -20,7 +20,6 @@ pub struct Blake2sLeafEncoder<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sLeafEncoder<F>  {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     pub fn new() -> Self {
         assert!(F::NUM_BITS < 256);
 
@@ -48,11 +47,18 @@ impl<F: PrimeField> HashEncoder<F> for Blake2sLeafEncoder<F>{
     fn interpret_hash(value: &Self::Input) -> F {
         let value = *value;
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
         // repr.read_le(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        // only F::CAPACITY low bits are kept
+        let mut bits_to_keep = F::CAPACITY;
+        for limb in repr.as_mut().iter_mut() {
+            if bits_to_keep < 64 {
+                *limb &= (1u64 << bits_to_keep) - 1;
+                bits_to_keep = 0;
+            } else {
+                bits_to_keep -= 64;
+            }
+        }
         // let value = F::from_raw_repr(repr).expect("in a field");
         let value = F::from_repr(repr).expect("in a field");
 
diff --git a/src/transcript/mod.rs b/src/transcript/mod.rs
index ce3e407..c6db62a 100644
--- a/src/transcript/mod.rs
+++ b/src/transcript/mod.rs
@@ -32,7 +32,6 @@ pub struct Blake2sTranscript<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sTranscript<F> {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     const REPR_SIZE: usize = std::mem::size_of::<F::Repr>();
 }
 
@@ -69,10 +68,17 @@ impl<F: PrimeField> Transcript<F> for Blake2sTranscript<F> {
         self.state.update(&value[..]);
         
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        // only F::CAPACITY low bits are kept
+        let mut bits_to_keep = F::CAPACITY;
+        for limb in repr.as_mut().iter_mut() {
+            if bits_to_keep < 64 {
+                *limb &= (1u64 << bits_to_keep) - 1;
+                bits_to_keep = 0;
+            } else {
+                bits_to_keep -= 64;
+            }
+        }
         let value = F::from_repr(repr).expect("in a field");
 
         value
-- 
2.43.0


From 0d8578633c5b9af1f779da57421bf67339ade620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 11/14] fix: count registers of all kinds when a trace is
 turned into an instance

Program counter, auxiliary and constant registers are columns of the witness
too, but only main registers were reported.
---
 src/arp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 60ea21e..c80966d 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -236,7 +236,7 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
 
         let properties = InstanceProperties::<F> {
             num_rows,
-            num_registers,
+            num_registers: total_registers,
             constraints,
             boundary_constraints,
         };
-- 
2.43.0


From 818fbb02ff12247f7c86a6d2211d1e209628e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 12/14] fix: pad witness columns to the size of the column
 domain

Interpolation of a trace with a number of rows that is not a power of two
panicked in FFT.
---
 src/arp/per_register/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index d78b9ba..0a775f3 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -21,6 +21,10 @@ fn make_witness_polymonials<F: PrimeField>(
     }
     let num_rows_sup = num_rows.next_power_of_two();
 
+    for w in witness.iter_mut() {
+        w.resize(num_rows_sup, F::zero());
+    }
+
     let domain = Domain::<F>::new_for_size(num_rows_sup as u64)?;
     let log_n = domain.power_of_two;
     let omega = domain.generator;
-- 
2.43.0


From 01d5b87e04e0d57a32f00bed6ae6e6e5a910bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 13/14] fix: raise the coefficient too when a univariate term
 is raised to a power

---
 src/air/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/air/constraint.rs b/src/air/constraint.rs
index dbb59d5..04990e4 100644
--- a/src/air/constraint.rs
+++ b/src/air/constraint.rs
@@ -186,6 +186,7 @@ impl<F: PrimeField> UnivariateTerm<F> {
         let new_power = self.power.checked_mul(power).expect("maximum power is limited to U64MAX");
         let mut new = self.clone();
         new.power = new_power;
+        new.coeff = self.coeff.pow([power]);
 
         new
     }
-- 
2.43.0


From 471c5d0c5e5ae0a199a9d2b98770ccad53a1aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 14/14] fix: leave a polynomial unchanged when padding it fails

pad_by_factor and pad_to_size resized the coefficients before asking for the
new domain, so a request beyond the field's two-adicity returned an error and
left a polynomial whose length no longer matched its domain data.
---
 src/polynomials/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/mod.rs b/src/polynomials/mod.rs
index 001ad2b..8e502a5 100644
--- a/src/polynomials/mod.rs
+++ b/src/polynomials/mod.rs
@@ -92,9 +92,9 @@ impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
         }
 
         let new_size = self.coeffs.len() * factor;
+        let domain = Domain::new_for_size(new_size as u64)?;
         self.coeffs.resize(new_size, F::zero());
 
-        let domain = Domain::new_for_size(new_size as u64)?;
         self.exp = domain.power_of_two as u32;
         let m = domain.size as usize;
         self.omega = domain.generator;
@@ -112,9 +112,9 @@ impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
         if new_size != next_power_of_two {
             return Err(SynthesisError::Error);
         }
+        let domain = Domain::new_for_size(new_size as u64)?;
         self.coeffs.resize(new_size, F::zero());
 
-        let domain = Domain::new_for_size(new_size as u64)?;
         self.exp = domain.power_of_two as u32;
         let m = domain.size as usize;
         self.omega = domain.generator;
-- 
2.43.0

