From 8f787e1ca80df0d88f2dd7ea0dd650e2435ac720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/38] fix: marlin: do not underflow while balancing matrix
 densities

---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..3d7f4c7 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -106,8 +106,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From 5e80b62f85c9c917991f5eb19c61cbf1e9c61071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 02/38] fix: marlin: pad the public inputs to a power of two
 when indexing and proving

---
 marlin/src/ahp/constraint_systems.rs | 19 +++++++++++++++++++
 marlin/src/ahp/indexer.rs            |  1 +
 marlin/src/ahp/prover.rs             |  6 +++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3d7f4c7..1cff5fe 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -6,6 +6,15 @@ use zkp_r1cs::{
 use crate::ahp::arithmetic::{matrix_density, sort_matrix_columns, Matrix};
 use crate::{String, Vec};
 
+// The public inputs (with the leading one) are interpolated over a multiplicative subgroup, so
+// their number is rounded up to a power of two with zero inputs.
+fn pad_input_variables<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, num_input_variables: usize) {
+    for i in num_input_variables..num_input_variables.next_power_of_two() {
+        cs.alloc_input(|| format!("pad input {}", i), || Ok(F::zero()))
+            .expect("alloc failed");
+    }
+}
+
 fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     cs: &mut CS,
     num_formatted_variables: usize,
@@ -66,6 +75,11 @@ impl<F: Field> IndexerConstraintSystem<F> {
             .collect()
     }
 
+    pub(crate) fn pad_inputs(&mut self) {
+        let num_input_variables = self.num_input_variables;
+        pad_input_variables(self, num_input_variables);
+    }
+
     pub(crate) fn make_matrices_square(&mut self) {
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
@@ -212,6 +226,11 @@ impl<F: Field> ProverConstraintSystem<F> {
         }
     }
 
+    pub(crate) fn pad_inputs(&mut self) {
+        let num_input_variables = self.num_input_variables;
+        pad_input_variables(self, num_input_variables);
+    }
+
     pub(crate) fn make_matrices_square(&mut self) {
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index b87a28c..869331d 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -71,6 +71,7 @@ impl<F: PrimeField> AHP<F> {
     pub fn index<'a, C: ConstraintSynthesizer<F>>(c: C) -> Result<Index<'a, F>, Error> {
         let mut ics = IndexerConstraintSystem::new();
         c.generate_constraints(&mut ics)?;
+        ics.pad_inputs();
         ics.make_matrices_square();
         ics.process_matrices();
 
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..a649c40 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -20,6 +20,7 @@ use crate::pc::LabeledPolynomial;
 pub struct ProverState<'a, 'b, F: PrimeField> {
     index: &'a Index<'a, F>,
 
+    public_input: Vec<F>,
     formatted_input_assignment: Vec<F>,
     witness_assignment: Vec<F>,
 
@@ -41,7 +42,7 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
 
 impl<'a, 'b, F: PrimeField> ProverState<'a, 'b, F> {
     pub fn public_input(&self) -> Vec<F> {
-        self.formatted_input_assignment[1..].to_vec()
+        self.public_input.clone()
     }
 }
 
@@ -89,6 +90,8 @@ impl<F: PrimeField> AHP<F> {
     ) -> Result<ProverState<'a, 'b, F>, Error> {
         let mut pcs = ProverConstraintSystem::new();
         c.generate_constraints(&mut pcs)?;
+        let public_input = pcs.formatted_input_assignment[1..].to_vec();
+        pcs.pad_inputs();
         pcs.make_matrices_square();
 
         let ProverConstraintSystem {
@@ -131,6 +134,7 @@ impl<F: PrimeField> AHP<F> {
 
         Ok(ProverState {
             index,
+            public_input,
             formatted_input_assignment,
             witness_assignment,
             z_a: z_a,
-- 
2.43.0


From b09731fdb878a83d0fc9c0b0fb9e2a6bcb253d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/38] fix: marlin: support constant and zero index
 polynomials

---
 marlin/src/ahp/indexer.rs        | 3 ++-
 marlin/src/ahp/prover.rs         | 2 +-
 marlin/src/pc/data_structures.rs | 1 -
 marlin/src/pc/kzg10.rs           | 6 ++----
 4 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index 869331d..9f1839f 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -78,7 +78,8 @@ impl<F: PrimeField> AHP<F> {
         let num_inputs = ics.num_input_variables;
         let num_constraints = ics.num_constraints;
         let num_variables = ics.num_input_variables + ics.num_witness_variables;
-        let num_non_zeros = ics.num_non_zeros();
+        // the inner sumcheck needs a domain of at least two elements
+        let num_non_zeros = core::cmp::max(ics.num_non_zeros(), 2);
 
         let domain_x =
             EvaluationDomain::new(num_inputs).ok_or(SynthesisError::PolynomialDegreeTooLarge)?;
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index a649c40..2e60931 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -379,7 +379,7 @@ impl<F: PrimeField> AHP<F> {
         }
 
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
-        let g_2_poly = DensePolynomial::from_coefficients_slice(&t_poly.coeffs[1..]);
+        let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
diff --git a/marlin/src/pc/data_structures.rs b/marlin/src/pc/data_structures.rs
index 1d22f75..6dc6273 100644
--- a/marlin/src/pc/data_structures.rs
+++ b/marlin/src/pc/data_structures.rs
@@ -12,7 +12,6 @@ use crate::{BTreeMap, BTreeSet, Cow, String, Vec};
 pub enum Error {
     MissingPolynomial { label: String },
     MissingEvaluation { label: String },
-    DegreeIsZero,
     DegreeOutOfBound,
     HidingBoundIsZero,
     HidingBoundTooLarge,
diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From 4979e26196812e1479d648ad9177c795cfeb8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 04/38] fix: marlin: reject malformed proofs instead of
 panicking

---
 marlin/src/lib.rs    | 9 +++++++++
 marlin/src/pc/mod.rs | 8 ++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..6deb9be 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -186,6 +186,12 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    // a proof of the wrong shape is not a proof
+    let num_comms: Vec<_> = proof.commitments.iter().map(|c| c.len()).collect();
+    if num_comms != [4, 3, 2] {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
@@ -201,6 +207,9 @@ pub fn verify_proof<E: PairingEngine>(
     let vstate = AHP::<E::Fr>::verifier_third_round(vstate, &mut fs_rng)?;
 
     let query_set = AHP::<E::Fr>::verifier_query_set(&vstate);
+    if proof.evaluations.len() != query_set.len() {
+        return Ok(false);
+    }
     fs_rng.absorb(&proof.evaluations);
     let opening_challenge: E::Fr = u128::rand(&mut fs_rng).into();
 
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1e42d09..1450971 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -174,7 +174,9 @@ impl<E: PairingEngine> PC<E> {
             let labels = point_to_labels_map.entry(point).or_insert(BTreeSet::new());
             labels.insert(label);
         }
-        assert_eq!(point_to_labels_map.len(), proofs.len());
+        if point_to_labels_map.len() != proofs.len() {
+            return Ok(false);
+        }
 
         let commitments: BTreeMap<_, _> = commitments.into_iter().map(|c| (c.label(), c)).collect();
 
@@ -215,7 +217,9 @@ impl<E: PairingEngine> PC<E> {
         for (labeled_commitment, value) in commitments.into_iter().zip(values) {
             let degree_bound = labeled_commitment.degree_bound();
             let commitment = labeled_commitment.commitment();
-            assert_eq!(degree_bound.is_some(), commitment.shifted_comm.is_some());
+            if degree_bound.is_some() != commitment.shifted_comm.is_some() {
+                return Err(Error::DegreeOutOfBound);
+            }
             combined_comm += &commitment.comm.0.mul(challenge);
             combined_value += &(value * &challenge);
 
-- 
2.43.0


From 832adddf7ff13d2d2e09d05e17b5d7e1a56ab88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 05/38] fix: plonk: reject malformed proofs and instances
 instead of panicking

---
 plonk/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..0d10be2 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -18,7 +18,7 @@ use alloc::collections::BTreeMap as Map;
 use std::collections::HashMap as Map;
 
 use ark_ff::{to_bytes, FftField as Field};
-use ark_poly::univariate::DensePolynomial;
+use ark_poly::{univariate::DensePolynomial, EvaluationDomain};
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
 
 use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
@@ -208,6 +208,12 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // a proof or an instance of the wrong shape is not valid
+        let num_comms: Vec<_> = proof.commitments.iter().map(|c| c.len()).collect();
+        if num_comms != [4, 1, 4] || public_inputs.len() > vk.info.domain_n.size() {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
@@ -225,6 +231,9 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         let (vs, third_msg) = AHPForPLONK::verifier_third_round(vs, &mut fs_rng)?;
 
         let query_set = AHPForPLONK::verifier_query_set(&vs);
+        if proof.evaluations.len() != query_set.len() {
+            return Ok(false);
+        }
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
 
-- 
2.43.0


From 1e5051714aa1610b5050e89414d6364ead3ea211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 06/38] fix: plonk: bind the verifier key into the transcript

---
 plonk/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 0d10be2..fae3e1e 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -90,6 +90,19 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         Ok((pk, vk))
     }
 
+    // the challenges depend on the circuit (its size, cosets and selectors) and the instance
+    fn transcript_seed(vk: &VerifierKey<F, PC>, public_inputs: &[F]) -> Vec<u8> {
+        let info = &vk.info;
+        to_bytes![
+            &Self::PROTOCOL_NAME,
+            info.n as u64,
+            info.ks.to_vec(),
+            vk.comms,
+            public_inputs
+        ]
+        .unwrap()
+    }
+
     pub fn prove(
         pk: &ProverKey<F, PC>,
         cs: &Composer<F>,
@@ -97,8 +110,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
     ) -> Result<Proof<F, PC>, Error<PC::Error>> {
         let public_inputs = cs.public_inputs();
 
-        let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+        let mut fs_rng = FiatShamirRng::<D>::from_seed(&Self::transcript_seed(&pk.vk, public_inputs));
 
         let ps = AHPForPLONK::prover_init(cs, &pk.index)?;
         let vs = AHPForPLONK::verifier_init(&pk.vk.info)?;
@@ -215,8 +227,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         }
 
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
-        let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+        let mut fs_rng = FiatShamirRng::<D>::from_seed(&Self::transcript_seed(vk, public_inputs));
 
         let first_comms = &proof.commitments[0];
         fs_rng.absorb(&to_bytes![first_comms].unwrap());
-- 
2.43.0


From f75ab7bcde8c5fb5fe993bd09fc042b9e554dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 07/38] fix: curve25519: serialize a point as its 32 bytes,
 without a slice length prefix

---
 curve25519/src/group.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..56cd4d5 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -292,8 +292,9 @@ impl Zeroize for Curve25519Point {
 
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
-    fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        // the 32 bytes themselves, without the length prefix of a slice.
+        Ok(writer.write_all(self.0.compress().as_bytes())?)
     }
 
     #[inline]
@@ -302,8 +303,11 @@ impl CanonicalSerialize for Curve25519Point {
     }
 
     #[inline]
-    fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize_uncompressed<W: io::Write>(
+        &self,
+        mut writer: W,
+    ) -> Result<(), SerializationError> {
+        Ok(writer.write_all(self.0.compress().as_bytes())?)
     }
 
     #[inline]
-- 
2.43.0


From a095c552d9b091f9f165d8e4524f04e81a0f593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 08/38] fix: bulletproofs: sum the coefficients of a variable
 that repeats in a constraint

---
 bulletproofs/src/arithmetic_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..a8aaf3c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -231,21 +231,21 @@ where
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CL[i][index] = *coeff;
+            CL[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.bt[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CR[i][index] = *coeff;
+            CR[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.ct[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CO[i][index] = *coeff;
+            CO[i][index] += coeff;
         }
     }
 
-- 
2.43.0


From e6b563089e9a2d06521994e127e619c45046c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 09/38] fix: bulletproofs: reject malformed proofs and
 statements, and check the absorbed matrices

A wrong component made the verifier panic instead of returning false, and the
verifier evaluated the circuit from maps that the transcript does not bind.
---
 bulletproofs/src/arithmetic_circuit.rs  | 67 ++++++++++++++++---------
 bulletproofs/src/inner_product_proof.rs | 14 +++++-
 2 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index a8aaf3c..4bd72ef 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -611,12 +611,45 @@ where
     proof
 }
 
+// check that all parts have the lengths that the generators and the circuit ask for.
+fn is_well_formed<G: Curve>(
+    gens: &Generators<G>,
+    proof: &Proof<G>,
+    r1cs_circuit: &R1csCircuit<G>,
+    public_inputs: &[G::Fr],
+) -> bool {
+    let (n, N) = (gens.n, gens.N);
+    if n == 0
+        || n > N
+        || gens.n_w > N
+        || !N.is_power_of_two()
+        || gens.g_vec_N.len() != N
+        || gens.h_vec_N.len() != N
+        || gens.k.checked_sub(1) != Some(public_inputs.len())
+    {
+        return false;
+    }
+
+    let columns = gens.k + gens.n_w;
+    for matrix in &[&r1cs_circuit.CL, &r1cs_circuit.CR, &r1cs_circuit.CO] {
+        if matrix.len() != n || matrix.iter().any(|row| row.len() != columns) {
+            return false;
+        }
+    }
+
+    proof.l_x.len() == N && proof.r_x.len() == N && proof.IPP.is_well_formed(N)
+}
+
 pub fn verify_proof<G: Curve>(
     gens: &Generators<G>,
     proof: &Proof<G>,
     r1cs_circuit: &R1csCircuit<G>,
     public_inputs: &[G::Fr],
 ) -> Result<bool, SynthesisError> {
+    if !is_well_formed(gens, proof, r1cs_circuit, public_inputs) {
+        return Ok(false);
+    }
+
     let mut transcript = Transcript::new(b"protocol3");
     let zero = G::Fr::zero();
     let one = G::Fr::one();
@@ -713,33 +746,15 @@ pub fn verify_proof<G: Curve>(
 
     for i in 0..gens.n {
         for j in 0..gens.k {
-            let cl = r1cs_circuit
-                .CL_T
-                .get(&(i as u32, j as u32))
-                .unwrap_or(&zero);
-            let cr = r1cs_circuit
-                .CR_T
-                .get(&(i as u32, j as u32))
-                .unwrap_or(&zero);
-            let co = r1cs_circuit
-                .CO_T
-                .get(&(i as u32, j as u32))
-                .unwrap_or(&zero);
+            let cl = &r1cs_circuit.CL[i][j];
+            let cr = &r1cs_circuit.CR[i][j];
+            let co = &r1cs_circuit.CO[i][j];
             C1[i][j] = *cl + &(zn * cr) + &(zn_sq * co);
         }
         for j in gens.k..m {
-            let cl = r1cs_circuit
-                .CL_T
-                .get(&(i as u32, j as u32))
-                .unwrap_or(&zero);
-            let cr = r1cs_circuit
-                .CR_T
-                .get(&(i as u32, j as u32))
-                .unwrap_or(&zero);
-            let co = r1cs_circuit
-                .CO_T
-                .get(&(i as u32, j as u32))
-                .unwrap_or(&zero);
+            let cl = &r1cs_circuit.CL[i][j];
+            let cr = &r1cs_circuit.CR[i][j];
+            let co = &r1cs_circuit.CO[i][j];
 
             //WV[i][j - gens.k] = *cl + &(zn * cr) + &(zn_sq * co);
             let res = *cl + &(zn * cr) + &(zn_sq * co);
@@ -828,7 +843,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..a14c97f 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -18,6 +18,14 @@ pub struct Proof<G: Curve> {
     b: G::Fr,
 }
 
+impl<G: Curve> Proof<G> {
+    // one pair of commitments for each halving of vectors of length n.
+    pub(crate) fn is_well_formed(&self, n: usize) -> bool {
+        let lg_n = n.trailing_zeros() as usize;
+        n.is_power_of_two() && self.L_vec.len() == lg_n && self.R_vec.len() == lg_n
+    }
+}
+
 // protocol2 should not be used independently
 pub fn prove<G: Curve>(
     transcript: &mut Transcript,
@@ -118,9 +126,11 @@ pub fn verify<G: Curve>(
     P: &G::Projective,
     proof: &Proof<G>,
 ) -> bool {
+    let n = g_vec.len();
+    if h_vec.len() != n || !proof.is_well_formed(n) {
+        return false;
+    }
     let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From a3bb4241f5afa7b46dbf94b7d34c6a2ead1437cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 10/38] fix: bulletproofs: tie the inner product argument to
 the proof's l_x, r_x and t_x

t_x was not checked against <l_x, r_x>: any statement could be proven.
---
 bulletproofs/src/arithmetic_circuit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 4bd72ef..8fc96b1 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -811,6 +811,14 @@ pub fn verify_proof<G: Curve>(
     let x_1 = random_bytes_to_fr::<G::Fr>(&buf_x_1);
     let ux = (gens.u.mul(x_1)).into_affine();
 
+    // the inner product argument must be about these l_x, r_x and t_x.
+    let IPP_P = quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x);
+    if IPP_P != proof.IPP_P.into_projective() {
+        return Ok(false);
+    }
+
     // check tx ?= <lx, rx>
     // USE IPP here
     // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
-- 
2.43.0


From 7b7bae1d4d53afa12a80d9b42a9774ded923b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 11/38] fix: r1cs: reject an unknown tag when reading an Index

---
 r1cs/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/r1cs/src/lib.rs b/r1cs/src/lib.rs
index 89ce6f5..6343609 100644
--- a/r1cs/src/lib.rs
+++ b/r1cs/src/lib.rs
@@ -137,7 +137,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 
@@ -147,7 +148,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 
@@ -157,7 +159,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 }
-- 
2.43.0


From 65cf05c5ff85450dfe05d8d9674d185b92b8e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 12/38] fix: spartan: keep the positions of public inputs when
 some are zero

---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From be8fc0490eee29226df10de72873f6cf62873299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 13/38] fix: spartan: report a synthesis error while proving
 instead of panicking

---
 spartan/src/prover.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..26f9d73 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -125,8 +125,7 @@ where
         circuit,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
     let proof = NIZKProof::<G> {
         r1cs_satisfied_proof: r1cs_sat_proof,
         r: (rx, ry),
@@ -163,8 +162,7 @@ where
         circuit,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
 
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, &rx, &ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, &rx, &ry);
-- 
2.43.0


From d03eed8b1395a359602b7044a1d96b429ca6c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 14/38] fix: spartan: separate the constraints in the circuit
 hash

Circuits whose terms were cut into rows differently had the same hash.
---
 spartan/src/r1cs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spartan/src/r1cs.rs b/spartan/src/r1cs.rs
index f4987b0..1e43390 100644
--- a/spartan/src/r1cs.rs
+++ b/spartan/src/r1cs.rs
@@ -30,7 +30,7 @@ impl <G: Curve> R1CSInstance<G> {
         transcript.append_u64(b"num_constraints", self.num_constraints as u64);
     
         for matrix in self.a_matrix.iter(){
-            
+            transcript.append_u64(b"a_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"a_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -40,7 +40,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.b_matrix.iter(){
-            
+            transcript.append_u64(b"b_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"b_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -50,7 +50,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.c_matrix.iter(){
-            
+            transcript.append_u64(b"c_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"c_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
-- 
2.43.0


From 29ce1a8dbdcf7211163cb43e287ae864157dec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 15/38] fix: spartan: do not send the opened witness evaluation

The proof carried w(ry) in the clear next to its hiding commitment, and no
verifier looked at it.
---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 26f9d73..ac85918 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -405,7 +405,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From 964b04819bdbaf91c3cc8d15710be903f30535ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 16/38] fix: spartan: support matrices with at most one entry
 each

---
 spartan/src/spark.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index d267615..3a00858 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -35,7 +35,9 @@ pub fn encode<G: Curve, R: Rng>(
     assert_eq!(c_val.len(), c_row.len());
     assert_eq!(c_row.len(), c_col.len());
 
-    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two();
+    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len());
+    // a product circuit needs two leaves.
+    let n = cmp::max(n, 2).next_power_of_two();
     a_row.resize(n, 0);
     b_row.resize(n, 0);
     c_row.resize(n, 0);
-- 
2.43.0


From ea48e2685fa39c096a515006923831f5674ddc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 17/38] fix: spartan: check the evaluation point of a NIZK
 proof against the challenges

---
 spartan/src/verify.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..c6a0557 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -22,6 +22,21 @@ use crate::{
     Vec,
 };
 
+// a check that every proof must pass; a failing one rejects the proof.
+fn ensure(condition: bool) -> Result<(), SynthesisError> {
+    if condition {
+        Ok(())
+    } else {
+        Err(SynthesisError::Unsatisfiable)
+    }
+}
+
+// the numbers of rounds of both sum-checks.
+fn num_rounds<G: Curve>(r1cs: &R1CSInstance<G>) -> (usize, usize) {
+    let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
+    (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1)
+}
+
 pub fn verify_nizk_proof<G: Curve>(
     params: &NizkParameters<G>,
     r1cs: &R1CSInstance<G>,
@@ -36,10 +51,13 @@ pub fn verify_nizk_proof<G: Curve>(
 
 
     let (rx, ry) = &proof.r;
+    if (rx.len(), ry.len()) != num_rounds(r1cs) {
+        return Ok(false);
+    }
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, verified_rx, verified_ry) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +66,8 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    // the matrices must have been evaluated at the verifier's challenges.
+    Ok(result && *rx == verified_rx && *ry == verified_ry)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From b27c7a2445b83872fb1dcc0df2b1f54f057891d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 18/38] fix: spartan: reject malformed proofs and inputs
 instead of panicking

---
 spartan/src/inner_product.rs |   8 ++-
 spartan/src/verify.rs        | 122 +++++++++++++++++++----------------
 2 files changed, 73 insertions(+), 57 deletions(-)

diff --git a/spartan/src/inner_product.rs b/spartan/src/inner_product.rs
index defc662..02de6ec 100644
--- a/spartan/src/inner_product.rs
+++ b/spartan/src/inner_product.rs
@@ -109,8 +109,14 @@ pub fn bullet_inner_product_verify<G: Curve>(
     transcript: &mut Transcript,
 ) -> Result<(G::Fr, G::Affine, G::Affine), SynthesisError> {
     let lg_n = proof.l_vec.len();
+    if lg_n != proof.r_vec.len()
+        || lg_n >= 32
+        || 1 << lg_n != b_vec.len()
+        || g_vec.len() < b_vec.len()
+    {
+        return Err(SynthesisError::Unsatisfiable);
+    }
     let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.r_vec.len());
 
     let mut x_sq_vec = Vec::with_capacity(lg_n);
     let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index c6a0557..8d6ebda 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -108,7 +108,7 @@ pub fn verify_snark_proof<G: Curve>(
     transcript.append_message(b"encode_mem_commit", &to_bytes!(encode_commit.mem_commit)?);
     transcript.append_message(b"encode_ops_commit", &to_bytes!(encode_commit.ops_commit)?);
 
-    Ok(sparse_poly_eval_verify::<G>(
+    sparse_poly_eval_verify::<G>(
         &params.r1cs_eval_params,
         &proof.r1cs_evals_proof,
         encode_commit,
@@ -116,7 +116,6 @@ pub fn verify_snark_proof<G: Curve>(
         proof.matrix_evals,
         &mut transcript,
     )
-    .is_ok())
 }
 
 pub fn r1cs_satisfied_verify<G: Curve>(
@@ -129,8 +128,12 @@ pub fn r1cs_satisfied_verify<G: Curve>(
 ) -> Result<(bool, Vec<G::Fr>, Vec<G::Fr>), SynthesisError> {
     let (eval_a_r, eval_b_r, eval_c_r) = matrix_evals;
 
+    if r1cs.num_inputs.checked_sub(1) != Some(inputs.len()) {
+        return Ok((false, Vec::new(), Vec::new()));
+    }
+
     let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
-    let (num_rounds_x, num_rounds_y) = (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1);
+    let (num_rounds_x, num_rounds_y) = num_rounds(r1cs);
     let mut public_inputs = vec![G::Fr::one()];
     public_inputs.extend(inputs.clone());
     public_inputs.extend(&vec![G::Fr::zero(); t - inputs.len() - 1]);
@@ -316,6 +319,11 @@ fn sum_check_verify<G: Curve>(
     num_rounds: usize,
     transcript: &mut Transcript,
 ) -> Result<(Vec<G::Fr>, G::Affine), SynthesisError> {
+    ensure(
+        proof.comm_polys.len() == num_rounds
+            && proof.comm_evals.len() == num_rounds
+            && proof.proofs.len() == num_rounds,
+    )?;
     let mut commit_claim = commit_claim;
 
     let mut rx: Vec<G::Fr> = Vec::new();
@@ -366,6 +374,7 @@ fn sum_check_eval_verify<G: Curve>(
     size: usize,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == size)?;
     let w = (0..2)
         .map(|_i| {
             let mut buf = [0u8; 31];
@@ -452,6 +461,7 @@ fn product_verify<G: Curve>(
     prod_commit: G::Affine,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == 5)?;
     let z1 = proof.z[0];
     let z2 = proof.z[1];
     let z3 = proof.z[2];
@@ -524,6 +534,7 @@ fn inner_product_verify<G: Curve>(
     let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
     let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
 
+    ensure(commits_witness.len() == l_eq_ry.len())?;
     let commit_lz =
         poly_commit_vec::<G>(commits_witness, &l_eq_ry, &params.gen_1.h, G::Fr::zero())?.commit;
 
@@ -572,7 +583,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let (rx, ry) = equalize_length::<G>(&rx, &ry)?;
 
     let (n, m) = (encode_commit.n, encode_commit.m);
-    assert_eq!((2usize).pow(rx.len() as u32), m);
+    ensure((2usize).pow(rx.len() as u32) == m)?;
 
     transcript.append_message(
         b"comm_poly_row_col_ops_val",
@@ -596,9 +607,9 @@ fn sparse_poly_eval_verify<G: Curve>(
             &vec![eval_a_r, eval_b_r, eval_c_r],
             transcript,
         )?;
-    assert_eq!(claims_mem.len(), 4);
-    assert_eq!(claims_ops.len(), 12);
-    assert_eq!(claims_ops_dotp.len(), 9);
+    ensure(claims_mem.len() == 4)?;
+    ensure(claims_ops.len() == 12)?;
+    ensure(claims_ops_dotp.len() == 9)?;
 
     let claims_ops_row_read = claims_ops[0..3].to_vec();
     let claims_ops_row_write = claims_ops[3..6].to_vec();
@@ -606,7 +617,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let claims_ops_col_write = claims_ops[9..12].to_vec();
 
     // proof.hash_layer_proof
-    let result = hash_layer_verify::<G>(
+    hash_layer_verify::<G>(
         params,
         &proof.hash_layer_proof,
         (&rx, &ry),
@@ -628,9 +639,7 @@ fn sparse_poly_eval_verify<G: Curve>(
         encode_commit,
         &proof.derefs_commit,
         transcript,
-    )
-    .is_ok();
-    assert!(result);
+    )?;
 
     Ok(true)
 }
@@ -660,19 +669,19 @@ where
     let (col_init, col_read_list, col_write_list, col_audit) = &proof.eval_col;
     let (eval_dotp_left_list, eval_dotp_right_list) = &proof.eval_dotp;
 
-    assert_eq!(row_read_list.len(), 3);
-    assert_eq!(row_write_list.len(), 3);
-    assert_eq!(col_read_list.len(), 3);
-    assert_eq!(col_write_list.len(), 3);
-    assert_eq!(eval_dotp_left_list.len(), 3);
-    assert_eq!(eval_dotp_right_list.len(), 3);
-    assert_eq!(evals.len(), 3);
+    ensure(row_read_list.len() == 3)?;
+    ensure(row_write_list.len() == 3)?;
+    ensure(col_read_list.len() == 3)?;
+    ensure(col_write_list.len() == 3)?;
+    ensure(eval_dotp_left_list.len() == 3)?;
+    ensure(eval_dotp_right_list.len() == 3)?;
+    ensure(evals.len() == 3)?;
 
     let row_read: G::Fr = (0..row_read_list.len()).map(|i| row_read_list[i]).product();
     let row_write: G::Fr = (0..row_write_list.len())
         .map(|i| row_write_list[i])
         .product();
-    assert_eq!(*row_init * &row_write, row_read * row_audit);
+    ensure(*row_init * &row_write == row_read * row_audit)?;
 
     transcript.append_message(b"claim_row_eval_init", &to_bytes!(row_init)?);
     transcript.append_message(b"claim_row_eval_read", &to_bytes!(row_read_list)?);
@@ -683,7 +692,7 @@ where
     let col_write: G::Fr = (0..col_write_list.len())
         .map(|i| col_write_list[i])
         .product();
-    assert_eq!(*col_init * &col_write, col_read * col_audit);
+    ensure(*col_init * &col_write == col_read * col_audit)?;
 
     transcript.append_message(b"claim_col_eval_init", &to_bytes!(col_init)?);
     transcript.append_message(b"claim_col_eval_read", &to_bytes!(col_read_list)?);
@@ -692,7 +701,7 @@ where
 
     let mut claims_dotp_circuit = Vec::new();
     for i in 0..eval_dotp_left_list.len() {
-        assert_eq!(eval_dotp_left_list[i] + &eval_dotp_right_list[i], evals[i]);
+        ensure(eval_dotp_left_list[i] + &eval_dotp_right_list[i] == evals[i])?;
         transcript.append_message(b"claim_eval_dotp_left", &to_bytes!(eval_dotp_left_list[i])?);
         transcript.append_message(
             b"claim_eval_dotp_right",
@@ -743,7 +752,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
     let layer_num = log2(n) as usize;
     let mut claims_to_verify = claims_prod_circuit.clone();
 
-    assert_eq!(proof.layers_proof.len(), layer_num);
+    ensure(proof.layers_proof.len() == layer_num)?;
 
     let mut num_rounds = 0;
     let mut rands = Vec::new();
@@ -773,14 +782,14 @@ pub fn product_circuit_eval_verify<G: Curve>(
         )?;
         let claim_prod_left = &proof.layers_proof[i].claim_prod_left;
         let claim_prod_right = &proof.layers_proof[i].claim_prod_right;
-        assert_eq!(claim_prod_left.len(), claim_prod_right.len());
-        assert_eq!(claim_prod_left.len(), claims_prod_circuit.len());
+        ensure(claim_prod_left.len() == claim_prod_right.len())?;
+        ensure(claim_prod_left.len() == claims_prod_circuit.len())?;
         for i in 0..claim_prod_left.len() {
             transcript.append_message(b"claim_prod_left", &to_bytes!(claim_prod_left[i])?);
             transcript.append_message(b"claim_prod_right", &to_bytes!(claim_prod_right[i])?);
         }
 
-        assert_eq!(rands.len(), r.len());
+        ensure(rands.len() == r.len())?;
         let eq: G::Fr = (0..r.len())
             .map(|i| r[i] * &rands[i] + &((G::Fr::one() - &r[i]) * &(G::Fr::one() - &rands[i])))
             .product();
@@ -791,6 +800,11 @@ pub fn product_circuit_eval_verify<G: Curve>(
 
         if i == layer_num - 1 {
             let (claim_dotp_row, claim_dotp_col, claim_dotp_val) = &proof.claim_dotp;
+            ensure(
+                claim_dotp_row.len() == claims_dotp_circuit.len()
+                    && claim_dotp_col.len() == claims_dotp_circuit.len()
+                    && claim_dotp_val.len() == claims_dotp_circuit.len(),
+            )?;
             for i in 0..claim_dotp_row.len() {
                 transcript.append_message(b"claim_dotp_row", &to_bytes!(claim_dotp_row[i])?);
                 transcript.append_message(b"claim_dotp_col", &to_bytes!(claim_dotp_col[i])?);
@@ -803,7 +817,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
             }
         }
 
-        assert_eq!(claim_expected, claim_final);
+        ensure(claim_expected == claim_final)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_r_layer", &mut buf);
         let r_layer = random_bytes_to_fr::<G>(&buf);
@@ -842,13 +856,11 @@ pub fn sum_check_cubic_verify<G: Curve>(
     let mut claim_per_round = claim;
     let mut r = Vec::new();
 
-    assert_eq!(proof_poly.len(), num_rounds);
+    ensure(proof_poly.len() == num_rounds)?;
     for poly in proof_poly.iter() {
+        ensure(poly.coeffs.len() <= 4)?;
         transcript.append_message(b"comm_poly", &to_bytes!(poly.coeffs)?);
-        assert_eq!(
-            poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-            claim_per_round
-        );
+        ensure(poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) == claim_per_round)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_nextround", &mut buf);
         let r_j = random_bytes_to_fr::<G>(&buf);
@@ -874,7 +886,7 @@ pub fn hash_layer_verify<G: Curve>(
 ) -> Result<(), SynthesisError> {
     transcript.append_message(b"protocol-name", b"Sparse polynomial hash layer proof");
 
-    assert_eq!(claims_dotp.len(), 9);
+    ensure(claims_dotp.len() == 9)?;
     let (ops_rands, mem_rands) = rands;
     let (rx, ry) = r;
     // let (gamma1,gamma2) = gamma;
@@ -882,8 +894,8 @@ pub fn hash_layer_verify<G: Curve>(
     // let  (claims_col_init, claims_col_read_list, claims_col_write_list, claims_col_audit) = claims_col;
 
     let (eval_row_ops_val, eval_col_ops_val) = &proof.evals_derefs;
-    assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-    assert_eq!(eval_row_ops_val.len(), 3);
+    ensure(eval_row_ops_val.len() == eval_col_ops_val.len())?;
+    ensure(eval_row_ops_val.len() == 3)?;
     let mut evals = eval_row_ops_val.clone();
     evals.extend(eval_col_ops_val.clone());
     evals.resize(evals.len().next_power_of_two(), G::Fr::zero());
@@ -902,7 +914,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals, cs[i]);
     }
-    assert_eq!(evals.len(), 1);
+    ensure(evals.len() == 1)?;
     let claim_eval = evals[0];
     // let mut rs = cs;
     cs.extend(ops_rands);
@@ -924,19 +936,21 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_derefs,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let eval_val_list = &proof.evals_val;
-    assert_eq!(eval_val_list.len(), 3);
+    ensure(eval_val_list.len() == 3)?;
     for i in 0..3 {
-        assert_eq!(claims_dotp[i * 3], eval_row_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 1], eval_col_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 2], eval_val_list[i]);
+        ensure(claims_dotp[i * 3] == eval_row_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 1] == eval_col_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 2] == eval_val_list[i])?;
     }
 
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) =
         proof.evals_row.clone();
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
+    ensure(row_eval_addr_ops_list.len() == 3 && row_eval_read_ts_list.len() == 3)?;
+    ensure(col_eval_addr_ops_list.len() == 3 && col_eval_read_ts_list.len() == 3)?;
 
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
@@ -958,7 +972,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_ops.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_ops, cs_ops[i]);
     }
-    assert_eq!(evals_ops.len(), 1);
+    ensure(evals_ops.len() == 1)?;
     let claim_eval_ops = evals_ops[0];
     // let mut rs_ops = cs_ops;
     cs_ops.extend(ops_rands);
@@ -979,7 +993,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_ops,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let mut evals_mem = vec![row_eval_audit_ts_val, col_eval_audit_ts_val];
     transcript.append_message(b"claim_evals_mem", &to_bytes!(evals_mem)?);
     let mut cs_mem = (0..log2(evals_mem.len()))
@@ -993,7 +1007,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_mem.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_mem, cs_mem[i]);
     }
-    assert_eq!(evals_mem.len(), 1);
+    ensure(evals_mem.len() == 1)?;
     let claim_eval_mem = evals_mem[0];
     // let mut rs_mem = cs_mem;
     cs_mem.extend(mem_rands);
@@ -1016,9 +1030,9 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_mem,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) = &proof.evals_row;
-    let result = behind_verify_for_timestamp::<G>(
+    behind_verify_for_timestamp::<G>(
         rands,
         claims_row,
         rx,
@@ -1027,11 +1041,9 @@ pub fn hash_layer_verify<G: Curve>(
         row_eval_read_ts_list,
         row_eval_audit_ts_val,
         gamma,
-    )
-    .is_ok();
-    assert!(result);
+    )?;
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) = &proof.evals_col;
-    let result = behind_verify_for_timestamp::<G>(
+    behind_verify_for_timestamp::<G>(
         rands,
         claims_col,
         ry,
@@ -1040,9 +1052,7 @@ pub fn hash_layer_verify<G: Curve>(
         col_eval_read_ts_list,
         col_eval_audit_ts_val,
         gamma,
-    )
-    .is_ok();
-    assert!(result);
+    )?;
     Ok(())
 }
 
@@ -1073,14 +1083,14 @@ where
     let eval_init_val = eval_eq_x_y::<G>(&r, &rands_mem);
     let hash_init_at_rand_mem =
         eval_init_addr * &gamma1 * &gamma1 + &(eval_init_val * &gamma1) - &gamma2;
-    assert_eq!(claim_init, hash_init_at_rand_mem);
+    ensure(claim_init == hash_init_at_rand_mem)?;
 
     for i in 0..eval_addr_ops_list.len() {
         let hash_read_at_rand_ops = eval_addr_ops_list[i] * &gamma1 * &gamma1
             + &(eval_ops_val[i] * &gamma1)
             + &eval_read_ts_list[i]
             - &gamma2;
-        assert_eq!(claim_read_list[i], hash_read_at_rand_ops);
+        ensure(claim_read_list[i] == hash_read_at_rand_ops)?;
     }
 
     for i in 0..eval_addr_ops_list.len() {
@@ -1088,7 +1098,7 @@ where
             + &(eval_ops_val[i] * &gamma1)
             + &(eval_read_ts_list[i] + &G::Fr::one())
             - &gamma2;
-        assert_eq!(claim_write_list[i], hash_write_at_rand_ops);
+        ensure(claim_write_list[i] == hash_write_at_rand_ops)?;
     }
 
     let eval_audit_addr = eval_init_addr;
@@ -1096,7 +1106,7 @@ where
     let hash_audit_at_rand_mem =
         eval_audit_addr * &gamma1 * &gamma1 + &(eval_audit_val * &gamma1) + eval_audit_ts_val
             - &gamma2;
-    assert_eq!(cliam_audit, hash_audit_at_rand_mem);
+    ensure(cliam_audit == hash_audit_at_rand_mem)?;
 
     Ok(true)
 }
-- 
2.43.0


From 82d7c7c71b89a6224fbd1fec5f051b9460e1738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 19/38] fix: libra: place unequal or short inputs correctly and
 prove any layer width

---
 libra/src/circuit.rs             | 8 ++++++--
 libra/src/libra_zk_linear_gkr.rs | 5 +++++
 libra/src/sumcheck.rs            | 4 ++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..b80a9d9 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
@@ -177,6 +177,10 @@ impl Circuit {
                     }
                 }
             }
+            // the sum-checks over an inner layer need all its positions.
+            if d + 1 < self.layers.len() {
+                values.resize(2usize.pow(layer.bit_size as u32), G::Fr::zero());
+            }
             next_layer_values = values.clone();
             evals.push(values);
         }
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..916f4ef 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -58,6 +58,11 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
         );
 
+        let mut witnesses = witnesses.clone();
+        witnesses.resize(
+            2usize.pow(circuit.layers[0].bit_size as u32 - 1),
+            G::Fr::zero(),
+        );
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
             &witnesses,
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..b2fead0 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -302,7 +302,7 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], ru)
+        (proof, poly_value_at_r, blind_evals.last().copied().unwrap_or(blind_claim), ru)
     }
 
     pub fn phase_two_prover<R: Rng>(
@@ -422,7 +422,7 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], rv)
+        (proof, poly_value_at_r, blind_evals.last().copied().unwrap_or(blind_claim), rv)
     }
 }
 
-- 
2.43.0


From 2f20337274150f7da9c5bb41af6aa67583c7bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 20/38] fix: libra: check the wiring of every layer in the
 plain verifier

---
 libra/src/libra_linear_gkr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..2d99ae0 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -122,11 +122,12 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, mut gu_vec) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
         );
+        let mut gv_vec = vec![G::Fr::zero(); gu_vec.len()];
         let mut result_v = G::Fr::zero();
         let mut eval_ru_x = G::Fr::zero();
         let mut eval_rv_y = G::Fr::zero();
@@ -178,6 +179,14 @@ impl<G: Curve> LinearGKRProof<G> {
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
             assert_eq!(claim, claim_final);
+            // the wiring of the layer is the circuit's, not the prover's.
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
+            if eval_rv_final[1] != mult_gate_eval || eval_rv_final[2] != add_gate_eval {
+                return false;
+            }
+            gu_vec = ru_vec.clone();
+            gv_vec = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From 27fed910ff611828d192ef081fba5fe47a2b3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 21/38] fix: libra: reject malformed proofs and statements
 instead of panicking

---
 libra/src/commitment.rs          | 30 +++++++++++++++++-----
 libra/src/libra_linear_gkr.rs    | 33 ++++++++++++++++--------
 libra/src/libra_zk_linear_gkr.rs | 43 +++++++++++++++++++++++++-------
 libra/src/sumcheck.rs            | 18 +++++++++++++
 4 files changed, 98 insertions(+), 26 deletions(-)

diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..1ee1c07 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -176,6 +176,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -401,9 +404,15 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
         let gamma = comm_x + comm_y;
-        let (a_hat, g_hat, gamma_hat) =
-            self.bullet_reduce_proof
-                .verify(&params.gen_n.generators, gamma, a_vec, transcript);
+        let (a_hat, g_hat, gamma_hat) = match self.bullet_reduce_proof.verify(
+            &params.gen_n.generators,
+            gamma,
+            a_vec,
+            transcript,
+        ) {
+            Some(reduced) => reduced,
+            None => return false,
+        };
 
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
         transcript.append_message(b"beta", &to_bytes!(self.beta).unwrap());
@@ -469,6 +478,9 @@ impl<G: Curve> LogDotProductProof<G> {
         let size = ry.len();
         let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
         let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+        if comms_witness.len() != l_eq_ry.len() {
+            return false;
+        }
         let comm_lz = poly_commit_vec::<G>(
             &comms_witness,
             &l_eq_ry.clone(),
@@ -575,10 +587,16 @@ impl<G: Curve> BulletReduceProof<G> {
         gamma: G::Affine,
         b_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
-    ) -> (G::Fr, G::Affine, G::Affine) {
+    ) -> Option<(G::Fr, G::Affine, G::Affine)> {
         let lg_n = self.l_vec.len();
+        if lg_n != self.r_vec.len()
+            || lg_n >= 32
+            || 1 << lg_n != b_vec.len()
+            || g_vec.len() < b_vec.len()
+        {
+            return None;
+        }
         let n = 1 << lg_n;
-        assert_eq!(lg_n, self.r_vec.len());
         let mut x_sq_vec = Vec::with_capacity(lg_n);
         let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
         let mut allinv = G::Fr::one();
@@ -613,7 +631,7 @@ impl<G: Curve> BulletReduceProof<G> {
         gamma_hat += &G::vartime_multiscalar_mul(&x_inv_sq_vec, &self.r_vec);
         gamma_hat += &G::vartime_multiscalar_mul(&[G::Fr::one()], &[gamma]);
 
-        (b_s, g_hat.into_affine(), gamma_hat.into_affine())
+        Some((b_s, g_hat.into_affine(), gamma_hat.into_affine()))
     }
 }
 
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 2d99ae0..b2b047a 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -114,6 +114,13 @@ impl<G: Curve> LinearGKRProof<G> {
     }
 
     pub fn verify(&self, circuit: &Circuit, outputs: &Vec<G::Fr>, inputs: &Vec<G::Fr>, circuit_to_hash: G::Fr) -> bool {
+        if circuit.depth < 2
+            || self.proofs.len() != circuit.depth - 1
+            || inputs.len() != circuit.layers[0].gates_count
+            || outputs.len() != circuit.layers[circuit.depth - 1].gates_count
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
@@ -133,20 +140,21 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut eval_rv_y = G::Fr::zero();
         let mut ru_vec = Vec::new();
         let mut rv_vec = Vec::new();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
             ru_vec = Vec::new();
             rv_vec = Vec::new();
+            if !proof1.is_well_formed(bit_size, 4) || !proof2.is_well_formed(bit_size, 3) {
+                return false;
+            }
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let poly = &proof1.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -159,13 +167,14 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_ru_final[0] * &eval_ru_final[1]
                 + &(eval_ru_final[0] * &eval_ru_final[2])
                 + &eval_ru_final[3];
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             for i in 0..bit_size {
                 let poly = &proof2.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -178,7 +187,9 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_rv_final[1] * &eval_rv_final[0] * &eval_ru_final[0]
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             // the wiring of the layer is the circuit's, not the prover's.
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index 916f4ef..6458888 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -282,6 +282,13 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         circuit_to_hash: G::Fr,
         params_to_hash: G::Fr,
     ) -> bool {
+        if circuit.depth < 2
+            || self.proofs.len() != circuit.depth - 1
+            || inputs.len() > 2usize.pow(circuit.layers[0].bit_size as u32 - 1)
+            || outputs.len() != circuit.layers[circuit.depth - 1].gates_count
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - zk linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
@@ -313,12 +320,14 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut rv_vec = Vec::new();
         let mut gu_vec = gu.clone();
         let mut gv_vec = gu.clone();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
             ru_vec = Vec::new();
             rv_vec = Vec::new();
+            if !proof1.is_well_formed(bit_size) || !proof2.is_well_formed(bit_size) {
+                return false;
+            }
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let comm_poly = proof1.comm_polys[i];
@@ -338,7 +347,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 ru_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -362,7 +373,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 rv_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -375,7 +388,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 lproof.comm_z,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
@@ -388,7 +403,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 comm_claim,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             gu_vec = ru_vec.clone();
             gv_vec = rv_vec.clone();
@@ -421,7 +438,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &ru_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -440,7 +459,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
         let rs = self.prod_proof1.reduce_verifier(
             &params.pc_params,
             &rv_vec[1..].to_vec(),
@@ -448,7 +469,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &rv_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -467,7 +490,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index b2fead0..67d2f12 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -171,6 +171,13 @@ impl<G: Curve> SumCheckProof<G> {
 
         (proof, rv)
     }
+
+    // one polynomial of degree two per round and the expected number of values.
+    pub(crate) fn is_well_formed(&self, rounds: usize, values: usize) -> bool {
+        self.polys.len() == rounds
+            && self.polys.iter().all(|poly| poly.coeffs.len() <= 3)
+            && self.poly_value_at_r.len() == values
+    }
 }
 
 #[derive(CanonicalSerialize, CanonicalDeserialize)]
@@ -426,6 +433,14 @@ impl<G: Curve> ZKSumCheckProof<G> {
     }
 }
 
+impl<G: Curve> ZKSumCheckProof<G> {
+    pub(crate) fn is_well_formed(&self, rounds: usize) -> bool {
+        self.comm_polys.len() == rounds
+            && self.comm_evals.len() == rounds
+            && self.proofs.len() == rounds
+    }
+}
+
 #[derive(CanonicalSerialize, CanonicalDeserialize)]
 pub struct SumCheckEvalProof<G: Curve> {
     pub d_commit: G::Affine,
@@ -531,6 +546,9 @@ impl<G: Curve> SumCheckEvalProof<G> {
         bit_size: usize,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != bit_size {
+            return false;
+        }
         let w = (0..2)
             .map(|_i| {
                 let mut buf = [0u8; 32];
-- 
2.43.0


From f7c9792fe3437536da3c828776e21ba73c2fe9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 22/38] fix: hyrax: prove circuits and batches of any size with
 aligned inputs

---
 hyrax/src/circuit.rs           |  4 +--
 hyrax/src/evaluate.rs          | 53 ++++++++++------------------------
 hyrax/src/hyrax_proof.rs       |  6 ++--
 hyrax/src/zk_sumcheck_proof.rs |  7 ++---
 4 files changed, 23 insertions(+), 47 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/hyrax/src/evaluate.rs b/hyrax/src/evaluate.rs
index 88ad5a0..ea9cb8a 100644
--- a/hyrax/src/evaluate.rs
+++ b/hyrax/src/evaluate.rs
@@ -167,45 +167,22 @@ pub fn construct_matrix<G: Curve>(
         .map(|_| vec![G::Fr::zero(); 4 * log_n + 6 * log_g + 3])
         .collect::<Vec<_>>();
 
-    mm[0][0] = G::Fr::one().double();
-    mm[0][1] = G::Fr::one();
-    mm[0][2] = G::Fr::one();
-    mm[0][3] = G::Fr::one();
-    for i in 0..log_n - 1 {
-        let mut r = G::Fr::one().neg();
-        mm[i + 1][i * 4] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 1] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 2] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 3] = r;
-        mm[i + 1][i * 4 + 4] = G::Fr::one().double();
-        mm[i + 1][i * 4 + 5] = G::Fr::one();
-        mm[i + 1][i * 4 + 6] = G::Fr::one();
-        mm[i + 1][i * 4 + 7] = G::Fr::one();
-    }
-    let mut r = G::Fr::one().neg();
-    mm[log_n][(log_n - 1) * 4] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 1] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 2] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 3] = r;
-    mm[log_n][(log_n - 1) * 4 + 4] = G::Fr::one().double();
-    mm[log_n][(log_n - 1) * 4 + 5] = G::Fr::one();
-    mm[log_n][(log_n - 1) * 4 + 6] = G::Fr::one();
-    for i in 0..2 * log_g {
+    // row j checks that round j sums to the claim left by round j - 1.
+    let mut offset = 0;
+    for j in 0..log_n + 2 * log_g {
+        let (size, challenge) = if j < log_n {
+            (4, rs[j])
+        } else {
+            (3, rs_vec[j - log_n])
+        };
         let mut r = G::Fr::one().neg();
-        mm[log_n + 1 + i][log_n * 4 + i * 3] = r;
-        r *= &rs_vec[i];
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 1] = r;
-        r *= &rs_vec[i];
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 2] = r;
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 3] = G::Fr::one().double();
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 4] = G::Fr::one();
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 5] = G::Fr::one();
+        for k in 0..size {
+            mm[j][offset + k] = G::Fr::one();
+            mm[j + 1][offset + k] = r;
+            r *= &challenge;
+        }
+        mm[j][offset].double_in_place();
+        offset += size;
     }
 
     let eval_0 = eval_eq_x_y::<G>(q_aside_vec, rs);
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..2f2106b 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -53,12 +53,13 @@ impl<G: Curve> HyraxProof<G> {
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
         //1. PC.Commit(pp, ~w)
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
         let mut witness_vec = Vec::new();
         for i in 0..n {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
             let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(vec![G::Fr::zero(); input_size - wl]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -282,12 +283,13 @@ impl<G: Curve> HyraxProof<G> {
             }
         }
 
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
         let mut input_vec = Vec::new();
         for i in 0..n {
             let input = inputs[i].clone();
             input_vec.extend(input);
             let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(vec![G::Fr::zero(); input_size - al]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..8692802 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -87,14 +86,12 @@ impl<G: Curve> ZkSumcheckProof<G> {
             .map(|i| eq_ql_vec[i] * &u0 + &(eq_qr_vec[i] * &u1))
             .collect::<Vec<_>>();
         let mut temp_vec = Vec::new();
-        for i in 0..xg_q.len() {
+        for i in 0..gates.len() {
             let temp_p_vec = (0..eq_vec.len())
                 .map(|t| eq_vec[t] * &xg_q[i])
                 .collect::<Vec<_>>();
             temp_vec.push(temp_p_vec);
         }
-        assert_eq!(temp_vec.len(), gates.len());
-
         // sumcheck #1
         let mut rs = Vec::new();
         let mut size = n;
@@ -428,7 +425,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From 7029d30db2ecd290b4855e0db83ec3943d64148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 23/38] fix: hyrax: tie every layer's sum-check to the claim of
 the layer above

---
 hyrax/src/zk_sumcheck_proof.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 8692802..7cc2890 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -627,6 +627,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
         ng: usize,
         transcript: &mut Transcript,
     ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+        // the sum-check is about the claim left by the layer above.
+        assert_eq!(self.comm_a0, comm_claim);
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
-- 
2.43.0


From 20b99dffa630a2848fd12f25cbdb607116bf4a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 24/38] fix: hyrax: reject malformed proofs and statements
 instead of panicking

---
 hyrax/src/commitment.rs        | 30 +++++++++++++++++-----
 hyrax/src/hyrax_proof.rs       | 46 +++++++++++++++++++++++++---------
 hyrax/src/zk_sumcheck_proof.rs | 26 ++++++++++++++-----
 3 files changed, 78 insertions(+), 24 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..8cbf486 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -177,6 +177,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -403,9 +406,15 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
         let gamma = comm_x + comm_y;
-        let (a_hat, g_hat, gamma_hat) =
-            self.bullet_reduce_proof
-                .verify(&params.gen_n.generators, gamma, a_vec, transcript);
+        let (a_hat, g_hat, gamma_hat) = match self.bullet_reduce_proof.verify(
+            &params.gen_n.generators,
+            gamma,
+            a_vec,
+            transcript,
+        ) {
+            Some(reduced) => reduced,
+            None => return false,
+        };
 
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
         transcript.append_message(b"beta", &to_bytes!(self.beta).unwrap());
@@ -471,6 +480,9 @@ impl<G: Curve> LogDotProductProof<G> {
         let size = ry.len();
         let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
         let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+        if comms_witness.len() != l_eq_ry.len() {
+            return false;
+        }
         let comm_lz = poly_commit_vec::<G>(
             &comms_witness,
             &l_eq_ry.clone(),
@@ -583,10 +595,16 @@ impl<G: Curve> BulletReduceProof<G> {
         gamma: G::Affine,
         b_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
-    ) -> (G::Fr, G::Affine, G::Affine) {
+    ) -> Option<(G::Fr, G::Affine, G::Affine)> {
         let lg_n = self.l_vec.len();
+        if lg_n != self.r_vec.len()
+            || lg_n >= 32
+            || 1 << lg_n != b_vec.len()
+            || g_vec.len() < b_vec.len()
+        {
+            return None;
+        }
         let n = 1 << lg_n;
-        assert_eq!(lg_n, self.r_vec.len());
         let mut x_sq_vec = Vec::with_capacity(lg_n);
         let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
         let mut allinv = G::Fr::one();
@@ -620,7 +638,7 @@ impl<G: Curve> BulletReduceProof<G> {
         let mut gamma_hat = G::vartime_multiscalar_mul(&x_sq_vec, &self.l_vec);
         gamma_hat += &G::vartime_multiscalar_mul(&x_inv_sq_vec, &self.r_vec);
         gamma_hat += &G::vartime_multiscalar_mul(&[G::Fr::one()], &[gamma]);
-        (b_s, g_hat.into_affine(), gamma_hat.into_affine())
+        Some((b_s, g_hat.into_affine(), gamma_hat.into_affine()))
     }
 }
 
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 2f2106b..907ca00 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -221,14 +221,26 @@ impl<G: Curve> HyraxProof<G> {
         circuit_to_hash: G::Fr,
         param_to_hash: G::Fr,
     ) -> bool {
+        let n = outputs.len();
+        if !n.is_power_of_two()
+            || inputs.len() != n
+            || circuit.depth < 2
+            || self.proofs.len() != circuit.depth - 1
+        {
+            return false;
+        }
+        let num_outputs = circuit.layers[circuit.depth - 1].gates_count;
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
+        if outputs.iter().any(|output| output.len() != num_outputs)
+            || inputs.iter().any(|input| input.len() > input_size)
+        {
+            return false;
+        }
+
         let mut transcript = Transcript::new(b"hyrax - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"param_to_hash", &to_bytes!(param_to_hash).unwrap());   
 
-        let n = outputs.len();
-        assert_eq!(n.next_power_of_two(), n);
-        assert!(n > 0);
-
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
             transcript.append_message(b"output_i", &to_bytes!(outputs[i]).unwrap());
@@ -253,8 +265,8 @@ impl<G: Curve> HyraxProof<G> {
         for d in 0..circuit.depth - 1 {
             let next_gate_num = circuit.layers[circuit.depth - d - 2].gates_count;
             let ng = next_gate_num.next_power_of_two();
-            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) = self.proofs[d]
-                .verify(
+            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) =
+                match self.proofs[d].verify(
                     &params.sc_params,
                     comm_a,
                     (u0, u1),
@@ -263,7 +275,10 @@ impl<G: Curve> HyraxProof<G> {
                     n,
                     ng,
                     &mut transcript,
-                );
+                ) {
+                    Some(verified) => verified,
+                    None => return false,
+                };
 
             comm_x = comm_x_tmp;
             comm_y = comm_y_tmp;
@@ -283,7 +298,6 @@ impl<G: Curve> HyraxProof<G> {
             }
         }
 
-        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
         let mut input_vec = Vec::new();
         for i in 0..n {
             let input = inputs[i].clone();
@@ -301,7 +315,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rl_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -320,7 +336,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         let mut rr_q_vec = q_aside_vec.clone();
         rr_q_vec.extend(qr_vec[1..qr_vec.len()].to_vec());
@@ -331,7 +349,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rr_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -350,7 +370,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 7cc2890..ead8e68 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -626,12 +626,23 @@ impl<G: Curve> ZkSumcheckProof<G> {
         n: usize,
         ng: usize,
         transcript: &mut Transcript,
-    ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+    ) -> Option<(G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>)> {
         // the sum-check is about the claim left by the layer above.
-        assert_eq!(self.comm_a0, comm_claim);
+        if self.comm_a0 != comm_claim {
+            return None;
+        }
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
+        let rounds = log_n + 2 * log_ng;
+        if self.comm_polys.len() != rounds
+            || self.comm_evals.len() != rounds
+            || self.comm_deltas.len() != rounds
+            || self.z_delta_vec.len() != rounds
+            || self.z_vec.len() != 4 * log_n + 6 * log_ng
+        {
+            return None;
+        }
 
         let mut rs = Vec::new();
         let mut r0 = Vec::new();
@@ -659,10 +670,11 @@ impl<G: Curve> ZkSumcheckProof<G> {
 
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
 
-        let result = self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
-        assert!(result);
+        if !self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript) {
+            return None;
+        }
 
-        (self.comm_x, self.comm_y, rs, r0, r1)
+        Some((self.comm_x, self.comm_y, rs, r0, r1))
     }
 
     pub fn sumcheck_verify(
@@ -680,7 +692,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
             self.comm_z,
             transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         for i in 0..self.comm_deltas.len() {
             transcript.append_message(b"comm_delta", &to_bytes!(self.comm_deltas[i]).unwrap());
-- 
2.43.0


From 58fead7f253dfd460adfdfc799c6f195e57ddb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 25/38] fix: asvc: reject repeated or out of range positions
 and mismatched lists

---
 asvc/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..d5fa747 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -235,6 +235,17 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // every point is a position of the vector, claimed once and with exactly one value.
+    let n = vrk_params.powers_of_g1.len() - 1;
+    if points.len() != point_values.len() || points.iter().any(|point| *point as usize >= n) {
+        return Ok(false);
+    }
+    let mut sorted_points = points.clone();
+    sorted_points.sort_unstable();
+    if sorted_points.windows(2).any(|w| w[0] == w[1]) {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
@@ -294,6 +305,9 @@ where
     E: PairingEngine,
 {
     let n = vrk_params.powers_of_g1.len() - 1;
+    if point as usize >= n {
+        return Ok(false);
+    }
     // e(a_i, g^i/g^(w^i)) = e(a,g)
     // ω^i
     let omega_i = omega.pow(&[point as u64]);
-- 
2.43.0


From ed3fa364107f693aac5592b4a7c4fac9e2afaa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 26/38] fix: plonk: derive the batch opening randomness from
 the transcript

---
 plonk/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index fae3e1e..afb890e 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -21,6 +21,7 @@ use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::{univariate::DensePolynomial, EvaluationDomain};
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
 
+use ark_serialize::CanonicalSerialize;
 use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
 use rand_core::RngCore;
@@ -294,6 +295,14 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
             )?;
 
+            // the openings are checked in one batch, so the batching randomness must not be
+            // known before they are: derive it from the transcript, openings included
+            let mut opening_bytes = Vec::new();
+            if proof.pc_proof.serialize(&mut opening_bytes).is_err() {
+                return Ok(false);
+            }
+            fs_rng.absorb(&opening_bytes);
+
             PC::check_combinations(
                 &vk.rk,
                 &lcs,
@@ -302,7 +311,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
                 &proof.pc_proof,
                 epsilon,
-                &mut ark_std::test_rng(), // we now impl default rng (not use)
+                &mut fs_rng,
             )
             .map_err(Error::from_pc_err)?
         };
-- 
2.43.0


From 9c89de9cd6f63e33852a427d8cb8865ca2cee476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 27/38] fix: plonk: reject a proof with the wrong number of
 openings

---
 plonk/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index afb890e..da7024f 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -246,6 +246,14 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         if proof.evaluations.len() != query_set.len() {
             return Ok(false);
         }
+        // one opening for each of the points
+        let mut points: Vec<_> = query_set.iter().map(|(_, (l, _))| l).collect();
+        points.sort();
+        points.dedup();
+        let openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
+        if openings.len() != points.len() {
+            return Ok(false);
+        }
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
 
-- 
2.43.0


From 407a6d3e2b3ef0ee4c7d7528eba5d64e6952f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 28/38] fix: gadgets: constrain the constants of the one bit
 lookup

---
 gadgets/src/lookup/table.rs | 53 +++++++++++--------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..813d441 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,22 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| "lookup"), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // r = c[0] + b * (c[1] - c[0])
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, c[1] - &c[0]),
+        |lc| lc + one,
+        |lc| lc + result.get_variable() - (c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From b75a6c69bc49c9ce468e5f232a6864f5c0ee827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 29/38] fix: gadgets: tie the MiMC hash gadget to its inputs
 and read every byte

---
 gadgets/src/hashes/mimc.rs | 93 ++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..cac65ea 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -2,8 +2,8 @@
 //!
 //! [MiMC]: http://eprint.iacr.org/2016/492
 
-use ark_ff::{BigInteger, Field, FromBytes, PrimeField};
-use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
+use ark_ff::{BigInteger, Field, PrimeField};
+use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
 
 use crate::Vec;
 
@@ -65,14 +65,11 @@ fn mimc_block<F: Field>(mut xl: F, mut xr: F, constants: &[F]) -> F {
 fn mimc_hash<F: PrimeField>(b: &[u8], constants: &[F]) -> (F, F, F) {
     let mut v: Vec<F> = Vec::new();
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    for chunk in b.chunks(n) {
+        v.push(F::from_le_bytes_mod_order(chunk));
     }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    if v.is_empty() {
+        v.push(F::zero());
     }
 
     let mut h: F = F::zero();
@@ -98,24 +95,49 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
     mut cs: CS,
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
+    mimc_with_output(cs.ns(|| "mimc"), b).map(|(image, _)| image)
+}
+
+/// Same as `mimc`, and also return the variable which holds the image.
+pub fn mimc_with_output<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    b: Option<&[u8]>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
     let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
+    let (xl_value, xr_value) = match b {
         Some(bytes) => {
-            let (xl, xr, image) = mimc_hash(bytes, &constants);
-            (Some(xl), Some(xr), Some(image))
+            let (xl, xr, _) = mimc_hash(bytes, &constants);
+            (Some(xl), Some(xr))
         }
-        None => (None, None, None),
+        None => (None, None),
     };
 
-    let mut var_xl = cs.alloc(
+    let var_xl = cs.alloc(
         || "preimage xl",
         || xl_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
-    let mut var_xr = cs.alloc(
+    let var_xr = cs.alloc(
         || "preimage xr",
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
+    mimc_rounds(
+        cs,
+        (xl_value, var_xl.into()),
+        (xr_value, var_xr.into()),
+        &constants,
+    )
+}
+
+/// Enforce one MiMC block and return its output.
+fn mimc_rounds<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (mut xl_value, mut lc_xl): (Option<F>, LinearCombination<F>),
+    (mut xr_value, mut lc_xr): (Option<F>, LinearCombination<F>),
+    constants: &[F],
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let mut output = CS::one();
+
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
 
@@ -127,8 +149,8 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
 
         n_cs.enforce(
             || "tmp = (xL + Ci)^2",
-            |lc| lc + var_xl + (constants[i], CS::one()),
-            |lc| lc + var_xl + (constants[i], CS::one()),
+            |lc| lc + &lc_xl + (constants[i], CS::one()),
+            |lc| lc + &lc_xl + (constants[i], CS::one()),
             |lc| lc + var_tmp,
         );
 
@@ -137,7 +159,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
             _ => None,
         };
 
-        let var_new_xl = n_cs.alloc(
+        output = n_cs.alloc(
             || "new_xl",
             || new_xl.ok_or(SynthesisError::AssignmentMissing),
         )?;
@@ -145,18 +167,18 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         n_cs.enforce(
             || "new_xL = xR + (xL + Ci)^3",
             |lc| lc + var_tmp,
-            |lc| lc + var_xl + (constants[i], CS::one()),
-            |lc| lc + var_new_xl - var_xr,
+            |lc| lc + &lc_xl + (constants[i], CS::one()),
+            |lc| lc + output - &lc_xr,
         );
 
         xr_value = xl_value;
-        var_xr = var_xl;
+        lc_xr = lc_xl;
 
         xl_value = new_xl;
-        var_xl = var_new_xl;
+        lc_xl = output.into();
     }
 
-    Ok(image_value)
+    Ok((xl_value, output))
 }
 
 /// implement AbstractHashOutput.
@@ -222,19 +244,22 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+        let mut h = (Some(F::zero()), LinearCombination::zero());
+        let mut output = None;
+
+        for (i, o) in params.iter().enumerate() {
+            let (value, variable) = mimc_rounds(
+                cs.ns(|| format!("mimc_hash_{}", i)),
+                h,
+                (o.value, o.variable.into()),
+                &constants,
+            )?;
+            h = (value, variable.into());
+            output = Some(AbstractHashMimcOutput { value, variable });
         }
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
-
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        output.ok_or(SynthesisError::Unsatisfiable)
     }
 }
 
-- 
2.43.0


From 6afbe6019f8577a75660727fa20d834719a35453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 30/38] fix: gadgets: tie the Poseidon gadget to its inputs and
 output

---
 gadgets/src/hashes/poseidon.rs | 303 +++++++++++++++++----------------
 1 file changed, 154 insertions(+), 149 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..c92806a 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -4,8 +4,8 @@
 // @Author: JiadongLu (lujd1234@gmail.com)
 // @Author: YunLi (liyunscss@gmail.com)
 
-use ark_ff::{BigInteger, BitIteratorBE, FromBytes, PrimeField};
-use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
+use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
+use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
 
 use crate::Vec;
 
@@ -584,37 +584,21 @@ pub fn poseidon_block<F: PrimeField>(xl: F, xr: F, rc: &PoseidonConstant<F>) ->
     state[0]
 }
 
-/// poseidon hash function.
-fn poseidon_hash<F: PrimeField>(b: &[u8], constants: &PoseidonConstant<F>) -> (F, F, F) {
-    let mut v: Vec<F> = Vec::new();
+/// split the preimage into field elements.
+fn blocks<F: PrimeField>(b: &[u8]) -> Vec<F> {
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    let mut v: Vec<F> = b.chunks(n).map(F::from_le_bytes_mod_order).collect();
+    if v.is_empty() {
+        v.push(F::zero());
     }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    let mut h: F = F::zero();
-    let xr = v[v.len() - 1].clone();
-    let mut xl = F::zero();
-
-    for i in 0..v.len() {
-        if i == v.len() - 1 {
-            xl = h.clone();
-        }
-
-        h = poseidon_block(h, v[i], constants);
-    }
-
-    (xl, xr, h)
+    v
 }
 
 pub fn hash<F: PrimeField>(b: &[u8]) -> F {
-    poseidon_hash(b, &constants()).2
+    let constants = constants();
+    blocks(b)
+        .into_iter()
+        .fold(F::zero(), |h, v| poseidon_block(h, v, &constants))
 }
 
 pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
@@ -622,156 +606,174 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     b: &[u8],
 ) -> Result<F, SynthesisError> {
     let constants = constants::<F>();
-    let (xl, xr, image) = poseidon_hash(b, &constants);
+    let blocks = blocks::<F>(b);
+
+    let mut h = (Some(F::zero()), LinearCombination::zero());
+    for (i, block) in blocks.iter().enumerate() {
+        let var = cs.alloc(|| format!("preimage {}", i), || Ok(*block))?;
+        let (value, var) = poseidon_block_enforce(
+            cs.ns(|| format!("block {}", i)),
+            h,
+            (Some(*block), var.into()),
+            &constants,
+        )?;
+        h = (value, var.into());
+    }
 
-    let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
-    let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
+    let image = h.0.ok_or(SynthesisError::AssignmentMissing)?;
+    let output = cs.alloc_input(|| "output", || Ok(image))?;
+    cs.enforce(
+        || "output = last block",
+        |_| h.1,
+        |lc| lc + CS::one(),
+        |lc| lc + output,
+    );
+    Ok(image)
+}
 
-    let three = F::zero();
-    let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
-    let mut state_value = [xl, xr, three];
-    let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
+/// Enforce one block and return its output.
+fn poseidon_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (xl_value, xl): (Option<F>, LinearCombination<F>),
+    (xr_value, xr): (Option<F>, LinearCombination<F>),
+    rc: &PoseidonConstant<F>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let mut state_value = [xl_value, xr_value, Some(F::zero())];
+    let mut state = [xl, xr, LinearCombination::zero()];
 
     for i in 0..POSEIDON_ROUNDS {
-        let cs = &mut cs.ns(|| format!("round_{}", i));
+        let mut cs = cs.ns(|| format!("round_{}", i));
 
         for j in 0..M {
-            state_value[j].add_assign(constants.ark[i][j]);
-            let tmp_value = state_value[j];
-            let tmp = cs.alloc(|| format!("tmp_{}", j), || Ok(tmp_value))?;
-
-            cs.enforce(
-                || format!("tmp_{} = (state[{}] + C_{}) * 1", i, j, i),
-                |lc| lc + state[j] + (constants.ark[i][j], CS::one()),
-                |lc| lc + (F::one(), CS::one()),
-                |lc| lc + tmp,
-            );
-
-            state_value[j] = tmp_value;
-            state[j] = tmp;
+            state_value[j] = state_value[j].map(|v| v + rc.ark[i][j]);
+            state[j] = state[j].clone() + (rc.ark[i][j], CS::one());
         }
 
-        if i < (RF / 2) || i > (RF / 2) {
-            // full round
-            for j in 0..M {
-                let tuple = pow_with_constraint(&state_value[j], &state[j], ALPH, cs, j)?;
-                state_value[j] = tuple.0;
-                state[j] = tuple.1;
-            }
-        } else {
-            // partial round
-            let tuple = pow_with_constraint(&state_value[M - 1], &state[M - 1], ALPH, cs, M - 1)?;
-            state_value[M - 1] = tuple.0;
-            state[M - 1] = tuple.1;
+        // full round, or partial round
+        let full = i < (RF / 2) || i > (RF / 2);
+        for j in if full { 0..M } else { M - 1..M } {
+            let tuple = pow_with_constraint(state_value[j], &state[j], ALPH, &mut cs, j)?;
+            state_value[j] = tuple.0;
+            state[j] = tuple.1;
         }
 
         // Mix Layer
-        let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
-
-        for j in 0..M {
-            for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-
-                cs.enforce(
-                    || {
-                        format!(
-                            "tmp4_{}{} - tmp2[{}] = tmp3_value * state_value[{}]",
-                            j, k, j, k
-                        )
-                    },
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
-            }
-        }
-        for j in 0..M {
-            state[j] = tmp2[j];
-            state_value[j] = tmp2_value[j];
-        }
+        mix_with_constraint(
+            &mut cs,
+            &mut state_value,
+            &mut state,
+            &rc.mds,
+            &[F::zero(); M],
+        )?;
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
+    // c == 1
+    let output = cs.alloc(
+        || "output",
+        || state_value[0].ok_or(SynthesisError::AssignmentMissing),
+    )?;
     cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
+        || "output = state[0]",
+        |lc| lc + &state[0],
+        |lc| lc + CS::one(),
         |lc| lc + output,
     );
-    Ok(image)
+
+    Ok((state_value[0], output))
 }
 
+/// Enforce `state^exp`, with a non zero `exp`.
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
-    state_value: &F,
-    state: &Variable,
+    state_value: Option<F>,
+    state: &LinearCombination<F>,
     exp: S,
     cs: &mut CS,
     j: usize,
-) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
-
-    let mut found_one = false;
-    let mut cnt = 0;
-    for i in BitIteratorBE::new(exp) {
-        if !found_one {
-            if i {
-                found_one = true;
-            } else {
-                continue;
-            }
-        }
-
-        res_value.square_in_place();
-        let tmp_value = res_value;
-
-        let tmp = cs.alloc(|| format!("tmp_{}{}", j, cnt), || Ok(tmp_value))?;
+) -> Result<(Option<F>, LinearCombination<F>), SynthesisError> {
+    let mut res_value = state_value;
+    let mut res = state.clone();
+
+    // the leading one is the state itself.
+    for (cnt, i) in BitIteratorBE::without_leading_zeros(exp)
+        .skip(1)
+        .enumerate()
+    {
+        res_value = res_value.map(|v| v.square());
+        let tmp = cs.alloc(
+            || format!("tmp_{}{}", j, cnt),
+            || res_value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
 
         cs.enforce(
             || format!("tmp_{}{} = res * res", j, cnt),
-            |lc| lc + res,
-            |lc| lc + res,
+            |lc| lc + &res,
+            |lc| lc + &res,
             |lc| lc + tmp,
         );
+        res = tmp.into();
 
-        res_value = tmp_value;
-        res = tmp;
         if i {
-            res_value.mul_assign(&(*state_value));
-            let tmp2_value = res_value;
-            let tmp2 = cs.alloc(|| format!("tmp2_{}{}", j, cnt), || Ok(tmp2_value))?;
+            res_value = match (res_value, state_value) {
+                (Some(r), Some(s)) => Some(r * s),
+                _ => None,
+            };
+            let tmp2 = cs.alloc(
+                || format!("tmp2_{}{}", j, cnt),
+                || res_value.ok_or(SynthesisError::AssignmentMissing),
+            )?;
 
             cs.enforce(
                 || format!("tmp2_{}{} = res * state", j, cnt),
-                |lc| lc + res,
-                |lc| lc + *state,
+                |lc| lc + &res,
+                |lc| lc + state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
-            res = tmp2;
+            res = tmp2.into();
         }
-        cnt += 1;
     }
 
     Ok((res_value, res))
 }
 
+/// Enforce `mds * state + ark`, one new variable for every element.
+fn mix_with_constraint<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    state_value: &mut [Option<F>; M],
+    state: &mut [LinearCombination<F>; M],
+    mds: &[[F; M]; M],
+    ark: &[F; M],
+) -> Result<(), SynthesisError> {
+    let old_value = *state_value;
+    let old = state.clone();
+
+    for j in 0..M {
+        let mut value = Some(ark[j]);
+        let mut sum = LinearCombination::from((ark[j], CS::one()));
+        for k in 0..M {
+            value = match (value, old_value[k]) {
+                (Some(v), Some(s)) => Some(v + mds[j][k] * s),
+                _ => None,
+            };
+            sum = sum + (mds[j][k], &old[k]);
+        }
+
+        let mix = cs.alloc(
+            || format!("mix_{}", j),
+            || value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
+        cs.enforce(
+            || format!("mix_{} = mds * state + ark", j),
+            |_| sum,
+            |lc| lc + CS::one(),
+            |lc| lc + mix,
+        );
+        state_value[j] = value;
+        state[j] = mix.into();
+    }
+
+    Ok(())
+}
+
 /// implement AbstractHashOutput.
 #[derive(Clone)]
 pub struct AbstractHashPoseidonOutput<F: PrimeField> {
@@ -820,19 +822,22 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+        let mut h = (Some(F::zero()), LinearCombination::zero());
+        let mut output = None;
+
+        for (i, o) in params.iter().enumerate() {
+            let (value, variable) = poseidon_block_enforce(
+                cs.ns(|| format!("poseidon_hash_{}", i)),
+                h,
+                (o.value, o.variable.into()),
+                &constants,
+            )?;
+            h = (value, variable.into());
+            output = Some(AbstractHashPoseidonOutput { value, variable });
         }
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
-
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        output.ok_or(SynthesisError::Unsatisfiable)
     }
 }
 
-- 
2.43.0


From 070c94ba151b370f6092d15435d21c2033e41377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 31/38] fix: gadgets: tie the Rescue gadget to its inputs and
 output

---
 gadgets/src/hashes/rescue.rs | 297 ++++++++++++++++++-----------------
 1 file changed, 157 insertions(+), 140 deletions(-)

diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..ebd83a8 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -4,8 +4,8 @@
 // @Author: JiadongLu (lujd1234@gmail.com)
 // @Author: YunLi (liyunscss@gmail.com)
 
-use ark_ff::{BigInteger, BitIteratorBE, FromBytes, PrimeField};
-use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
+use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
+use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
 
 use crate::Vec;
 
@@ -366,37 +366,21 @@ pub fn rescue_block<F: PrimeField>(xl: F, xr: F, rc: &RescueConstant<F>) -> F {
     state[0]
 }
 
-/// rescue hash function.
-fn rescue_hash<F: PrimeField>(b: &[u8], constants: &RescueConstant<F>) -> (F, F, F) {
-    let mut v: Vec<F> = Vec::new();
+/// split the preimage into field elements.
+fn blocks<F: PrimeField>(b: &[u8]) -> Vec<F> {
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    let mut v: Vec<F> = b.chunks(n).map(F::from_le_bytes_mod_order).collect();
+    if v.is_empty() {
+        v.push(F::zero());
     }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    let mut h: F = F::zero();
-    let xr = v[v.len() - 1].clone();
-    let mut xl = F::zero();
-
-    for i in 0..v.len() {
-        if i == v.len() - 1 {
-            xl = h.clone();
-        }
-
-        h = rescue_block(h, v[i], constants);
-    }
-
-    (xl, xr, h)
+    v
 }
 
 pub fn hash<F: PrimeField>(b: &[u8]) -> F {
-    rescue_hash(b, &constants()).2
+    let constants = constants();
+    blocks(b)
+        .into_iter()
+        .fold(F::zero(), |h, v| rescue_block(h, v, &constants))
 }
 
 pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
@@ -404,143 +388,173 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     b: &[u8],
 ) -> Result<F, SynthesisError> {
     let constants = constants::<F>();
-    let (xl, xr, image) = rescue_hash(b, &constants);
+    let blocks = blocks::<F>(b);
+
+    let mut h = (Some(F::zero()), LinearCombination::zero());
+    for (i, block) in blocks.iter().enumerate() {
+        let var = cs.alloc(|| format!("preimage {}", i), || Ok(*block))?;
+        let (value, var) = rescue_block_enforce(
+            cs.ns(|| format!("block {}", i)),
+            h,
+            (Some(*block), var.into()),
+            &constants,
+        )?;
+        h = (value, var.into());
+    }
 
-    let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
-    let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
+    let image = h.0.ok_or(SynthesisError::AssignmentMissing)?;
+    let output = cs.alloc_input(|| "output", || Ok(image))?;
+    cs.enforce(
+        || "output = last block",
+        |_| h.1,
+        |lc| lc + CS::one(),
+        |lc| lc + output,
+    );
+    Ok(image)
+}
 
-    let three = F::zero();
-    let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
-    let mut state_value = [xl, xr, three];
-    let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
-    for i in 0..M {
-        state_value[i] += constants.constants[0][i];
-        let tmp_value = state_value[i];
-        let tmp = cs.alloc(|| format!("tmp_{}", i), || Ok(tmp_value))?;
-        cs.enforce(
-            || format!("tmp_{} = (state[{}] + Ci) * 1", i, i),
-            |lc| lc + state[i] + (constants.constants[0][i], CS::one()),
-            |lc| lc + (F::one(), CS::one()),
-            |lc| lc + tmp,
-        );
-        state_value[i] = tmp_value;
-        state[i] = tmp;
+/// Enforce one block and return its output.
+fn rescue_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (xl_value, xl): (Option<F>, LinearCombination<F>),
+    (xr_value, xr): (Option<F>, LinearCombination<F>),
+    rc: &RescueConstant<F>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let mut state_value = [xl_value, xr_value, Some(F::zero())];
+    let mut state = [xl, xr, LinearCombination::zero()];
+
+    for j in 0..M {
+        state_value[j] = state_value[j].map(|v| v + rc.constants[0][j]);
+        state[j] = state[j].clone() + (rc.constants[0][j], CS::one());
     }
-    let mut af: &[u64];
+
     for i in 0..2 * RESCUE_ROUNDS {
-        let cs = &mut cs.ns(|| format!("round_{}", i));
-        af = &ALPH;
-        if i % 2 == 1 {
-            af = &INVALPH;
-        }
+        let mut cs = cs.ns(|| format!("round_{}", i));
+
+        let af: &[u64] = if i % 2 == 1 { &INVALPH } else { &ALPH };
         for j in 0..M {
-            let tuple = pow_with_constraint(&state_value[j], &state[j], af, cs, j)?;
+            let tuple = pow_with_constraint(state_value[j], &state[j], af, &mut cs, j)?;
             state_value[j] = tuple.0;
             state[j] = tuple.1;
         }
-        let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
-        for j in 0..M {
-            for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-                cs.enforce(
-                    || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
-            }
-        }
-        for j in 0..M {
-            tmp2_value[j].add_assign(constants.constants[i + 1][j]);
-            let tmp5_value = tmp2_value[j];
-            let tmp5 = cs.alloc(|| format!("tmp5_{}", j), || Ok(tmp5_value))?;
-            cs.enforce(
-                || format!("tmp5_{} = tmp2[{}] + constants[{}][{}]", j, j, i + 1, j),
-                |lc| lc + tmp2[j] + (constants.constants[i + 1][j], CS::one()),
-                |lc| lc + (F::one(), CS::one()),
-                |lc| lc + tmp5,
-            );
-            state[j] = tmp5;
-            state_value[j] = tmp5_value;
-        }
+
+        // matrix multiplication
+        mix_with_constraint(
+            &mut cs,
+            &mut state_value,
+            &mut state,
+            &rc.mds,
+            &rc.constants[i + 1],
+        )?;
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
+
+    // c == 1
+    let output = cs.alloc(
+        || "output",
+        || state_value[0].ok_or(SynthesisError::AssignmentMissing),
+    )?;
     cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
+        || "output = state[0]",
+        |lc| lc + &state[0],
+        |lc| lc + CS::one(),
         |lc| lc + output,
     );
-    Ok(image)
+
+    Ok((state_value[0], output))
 }
 
+/// Enforce `state^exp`, with a non zero `exp`.
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
-    state_value: &F,
-    state: &Variable,
+    state_value: Option<F>,
+    state: &LinearCombination<F>,
     exp: S,
     cs: &mut CS,
     j: usize,
-) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
-
-    let mut found_one = false;
-    let mut cnt = 0;
-    for i in BitIteratorBE::new(exp) {
-        if !found_one {
-            if i {
-                found_one = true;
-            } else {
-                continue;
-            }
-        }
-
-        res_value.square_in_place();
-        let tmp_value = res_value;
-
-        let tmp = cs.alloc(|| format!("tmp_{}{}", j, cnt), || Ok(tmp_value))?;
+) -> Result<(Option<F>, LinearCombination<F>), SynthesisError> {
+    let mut res_value = state_value;
+    let mut res = state.clone();
+
+    // the leading one is the state itself.
+    for (cnt, i) in BitIteratorBE::without_leading_zeros(exp)
+        .skip(1)
+        .enumerate()
+    {
+        res_value = res_value.map(|v| v.square());
+        let tmp = cs.alloc(
+            || format!("tmp_{}{}", j, cnt),
+            || res_value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
 
         cs.enforce(
             || format!("tmp_{}{} = res * res", j, cnt),
-            |lc| lc + res,
-            |lc| lc + res,
+            |lc| lc + &res,
+            |lc| lc + &res,
             |lc| lc + tmp,
         );
+        res = tmp.into();
 
-        res_value = tmp_value;
-        res = tmp;
         if i {
-            res_value.mul_assign(&(*state_value));
-            let tmp2_value = res_value;
-            let tmp2 = cs.alloc(|| format!("tmp2_{}{}", j, cnt), || Ok(tmp2_value))?;
+            res_value = match (res_value, state_value) {
+                (Some(r), Some(s)) => Some(r * s),
+                _ => None,
+            };
+            let tmp2 = cs.alloc(
+                || format!("tmp2_{}{}", j, cnt),
+                || res_value.ok_or(SynthesisError::AssignmentMissing),
+            )?;
 
             cs.enforce(
                 || format!("tmp2_{}{} = res * state", j, cnt),
-                |lc| lc + res,
-                |lc| lc + *state,
+                |lc| lc + &res,
+                |lc| lc + state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
-            res = tmp2;
+            res = tmp2.into();
         }
-        cnt += 1;
     }
 
     Ok((res_value, res))
 }
 
+/// Enforce `mds * state + ark`, one new variable for every element.
+fn mix_with_constraint<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    state_value: &mut [Option<F>; M],
+    state: &mut [LinearCombination<F>; M],
+    mds: &[[F; M]; M],
+    ark: &[F; M],
+) -> Result<(), SynthesisError> {
+    let old_value = *state_value;
+    let old = state.clone();
+
+    for j in 0..M {
+        let mut value = Some(ark[j]);
+        let mut sum = LinearCombination::from((ark[j], CS::one()));
+        for k in 0..M {
+            value = match (value, old_value[k]) {
+                (Some(v), Some(s)) => Some(v + mds[j][k] * s),
+                _ => None,
+            };
+            sum = sum + (mds[j][k], &old[k]);
+        }
+
+        let mix = cs.alloc(
+            || format!("mix_{}", j),
+            || value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
+        cs.enforce(
+            || format!("mix_{} = mds * state + ark", j),
+            |_| sum,
+            |lc| lc + CS::one(),
+            |lc| lc + mix,
+        );
+        state_value[j] = value;
+        state[j] = mix.into();
+    }
+
+    Ok(())
+}
+
 /// implement AbstractHashOutput.
 #[derive(Clone)]
 pub struct AbstractHashRescueOutput<F: PrimeField> {
@@ -589,19 +603,22 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+        let mut h = (Some(F::zero()), LinearCombination::zero());
+        let mut output = None;
+
+        for (i, o) in params.iter().enumerate() {
+            let (value, variable) = rescue_block_enforce(
+                cs.ns(|| format!("rescue_hash_{}", i)),
+                h,
+                (o.value, o.variable.into()),
+                &constants,
+            )?;
+            h = (value, variable.into());
+            output = Some(AbstractHashRescueOutput { value, variable });
         }
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
-
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        output.ok_or(SynthesisError::Unsatisfiable)
     }
 }
 
-- 
2.43.0


From 19ed3e6370cb2ef43923b43a7d4b75f45536633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 32/38] fix: gadgets: tie the SHA-256 gadget's output variables
 to the digest

---
 gadgets/src/hashes/sha256.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..6f2e224 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,17 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        let mut var: Vec<Variable> = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+            cs.enforce(
+                || format!("bit_{} is output", i),
+                |_| b.lc(CS::one(), F::one()),
+                |lc| lc + CS::one(),
+                |lc| lc + a.get_variable(),
+            );
+            var.push(a.get_variable());
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From 2d9a7b0a39e4b845238fc466a7be71eb84d44224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 33/38] fix: gadgets: a Merkle path must end exactly at the
 root

---
 gadgets/src/merkletree/cbmt.rs             | 19 +++++++++++--------
 gadgets/src/merkletree/cbmt_constraints.rs | 12 ++++++++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..e460d17 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,11 +34,10 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
-
-        if index >= (leaves_count << 1) - 1 {
+        if *leaf_index >= leaves_count {
             return None;
         }
+        let index = leaves_count - 1 + leaf_index;
 
         let mut lemmas = Vec::new();
 
@@ -104,16 +103,15 @@ where
     }
 
     pub fn root(&self, leaf: &T) -> Option<T> {
-        if self.index == 0 && self.lemmas.len() != 0 {
-            return None;
-        }
-
         let mut parent = leaf.clone();
         let mut index = self.index;
         let mut lemmas_iter = self.lemmas.iter();
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                if index.is_root() {
+                    return None;
+                }
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,7 +123,12 @@ where
             }
         }
 
-        Some(parent)
+        // the path must end at the root.
+        if index.is_root() {
+            Some(parent)
+        } else {
+            None
+        }
     }
 
     pub fn verify(&self, root: &T, leaf: &T) -> bool {
diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..645e7cc 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -29,6 +29,9 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
         let mut lemmas_iter = self.lemmas.iter().enumerate();
         loop {
             if let Some((i, sibling)) = lemmas_iter.next() {
+                if index.is_root() {
+                    return Err(SynthesisError::Unsatisfiable);
+                }
                 let parent_variable_vec = parent.get_variables();
                 let parent_value_vec = parent.get_variable_values();
                 let sibling_variable_vec = sibling.get_variables();
@@ -94,8 +97,13 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
-        let pre = parent
-            .get_variables()
+        // the path must end at the root, which is compared in full.
+        let last = parent.get_variables();
+        if !index.is_root() || last.len() != root.get_variables().len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
+        let pre = last
             .iter()
             .zip(root.get_variables().into_iter())
             .map(|(i, l)| (*i, l))
-- 
2.43.0


From 3023c3b46c41c2b7b41606e18872d1154ce82ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 34/38] fix: cli: constrain the hash circuit's public image

---
 cli/src/circuits/hash.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cli/src/circuits/hash.rs b/cli/src/circuits/hash.rs
index 0cc482e..72e776a 100644
--- a/cli/src/circuits/hash.rs
+++ b/cli/src/circuits/hash.rs
@@ -1,5 +1,5 @@
 use ark_ff::PrimeField;
-use zkp_gadgets::hashes::mimc::{hash, mimc};
+use zkp_gadgets::hashes::mimc::{hash, mimc_with_output};
 use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};
 
 use super::{CliCircuit, Publics};
@@ -14,16 +14,21 @@ impl<F: PrimeField> ConstraintSynthesizer<F> for Hash<F> {
         self,
         cs: &mut CS,
     ) -> Result<(), SynthesisError> {
-        let value = if let Some(bytes) = self.image {
-            mimc(cs.ns(|| "mimc-gadget"), Some(&bytes))?
-        } else {
-            mimc(cs.ns(|| "mimc-gadget"), None)?
-        };
+        let (value, output) = mimc_with_output(
+            cs.ns(|| "mimc-gadget"),
+            self.image.as_ref().map(|bytes| &bytes[..]),
+        )?;
 
-        let _ = cs.alloc_input(
+        let image = cs.alloc_input(
             || "image",
             || value.ok_or(SynthesisError::AssignmentMissing),
         )?;
+        cs.enforce(
+            || "image = output",
+            |lc| lc + output,
+            |lc| lc + CS::one(),
+            |lc| lc + image,
+        );
 
         Ok(())
     }
-- 
2.43.0


From 4026ce6fb1f9811b3d25ab8907d041832a952d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 35/38] fix: gadgets: add words of constant bits as constants
 with and without a witness

---
 gadgets/src/algebra/uint32.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gadgets/src/algebra/uint32.rs b/gadgets/src/algebra/uint32.rs
index 238ea67..5a4f08c 100644
--- a/gadgets/src/algebra/uint32.rs
+++ b/gadgets/src/algebra/uint32.rs
@@ -295,8 +295,14 @@ impl UInt32 {
 
         // Iterate over the operands
         for op in operands {
-            // Accumulate the value
-            match op.value {
+            // Accumulate the value. Bits that are all constants have a known
+            // value even when they come from a word whose value is unknown,
+            // so that the result is a constant with and without witness.
+            let value = match op.bits.iter().all(|b| b.is_constant()) {
+                true => Self::from_bits(&op.bits).value,
+                false => op.value,
+            };
+            match value {
                 Some(val) => {
                     result_value.as_mut().map(|v| *v += u64::from(val));
                 }
-- 
2.43.0


From 567d1a1818b4019937fcecf4eb28f7006c7746ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 36/38] fix: marlin: report the synthesis error that made
 proving fail

---
 marlin/src/errors.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/marlin/src/errors.rs b/marlin/src/errors.rs
index 1189113..6c40e11 100644
--- a/marlin/src/errors.rs
+++ b/marlin/src/errors.rs
@@ -25,8 +25,11 @@ impl From<PCError> for Error {
 }
 
 impl From<Error> for SynthesisError {
-    fn from(_err: Error) -> SynthesisError {
-        SynthesisError::Unsatisfiable // Maybe can better.
+    fn from(err: Error) -> SynthesisError {
+        match err {
+            Error::AHPError(e) => e.into(),
+            _ => SynthesisError::Unsatisfiable, // Maybe can better.
+        }
     }
 }
 
@@ -37,7 +40,10 @@ impl From<PCError> for SynthesisError {
 }
 
 impl From<AHPError> for SynthesisError {
-    fn from(_err: AHPError) -> SynthesisError {
-        SynthesisError::Unsatisfiable // Maybe can better.
+    fn from(err: AHPError) -> SynthesisError {
+        match err {
+            AHPError::ConstraintSystemError(e) => e,
+            _ => SynthesisError::Unsatisfiable, // Maybe can better.
+        }
     }
 }
-- 
2.43.0


From f84c953d76c0f17bda0f8d8a872a7e136e6092df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 37/38] fix: plonk verifier rejects proofs whose commitments
 carry a degree bound instead of panicking

---
 plonk/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index da7024f..7c82108 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -19,7 +19,9 @@ use std::collections::HashMap as Map;
 
 use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::{univariate::DensePolynomial, EvaluationDomain};
-use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
+use ark_poly_commit::{
+    Evaluations, LabeledCommitment, PCCommitment, PCUniversalParams, PolynomialCommitment,
+};
 
 use ark_serialize::CanonicalSerialize;
 use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
@@ -226,6 +228,10 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         if num_comms != [4, 1, 4] || public_inputs.len() > vk.info.domain_n.size() {
             return Ok(false);
         }
+        // no polynomial of this protocol has a degree bound
+        if proof.commitments.iter().flatten().any(|c| c.has_degree_bound()) {
+            return Ok(false);
+        }
 
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng = FiatShamirRng::<D>::from_seed(&Self::transcript_seed(vk, public_inputs));
-- 
2.43.0


From 227a53554ef414ac398e78e98880228c26864175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 38/38] fix: bulletproofs: let the verifier derive the
 generators and the circuit, and use that in the CLI

---
 bulletproofs/src/arithmetic_circuit.rs | 205 ++++++++++++++++++-------
 bulletproofs/src/lib.rs                |   3 +
 cli/src/zkp_verify.rs                  |  16 +-
 3 files changed, 164 insertions(+), 60 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 8fc96b1..7f6ecf9 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -1,7 +1,7 @@
 #![allow(non_snake_case)]
 use core::cmp;
 use merlin::Transcript;
-use rand::Rng;
+use rand::{rngs::StdRng, Rng, SeedableRng};
 
 use ark_ff::{to_bytes, Field, One, UniformRand, Zero};
 use ark_serialize::*;
@@ -101,6 +101,65 @@ impl<F: Field> ConstraintSystem<F> for ProvingAssignment<F> {
     }
 }
 
+/// Synthesizes the constraints of a circuit without asking for its witness.
+struct CircuitAssembly<F: Field>(ProvingAssignment<F>);
+
+impl<F: Field> ConstraintSystem<F> for CircuitAssembly<F> {
+    type Root = Self;
+
+    #[inline]
+    fn alloc<FN, A, AR>(&mut self, annotation: A, _: FN) -> Result<Variable, SynthesisError>
+    where
+        FN: FnOnce() -> Result<F, SynthesisError>,
+        A: FnOnce() -> AR,
+        AR: Into<String>,
+    {
+        self.0.alloc(annotation, || Ok(F::zero()))
+    }
+
+    #[inline]
+    fn alloc_input<FN, A, AR>(&mut self, annotation: A, _: FN) -> Result<Variable, SynthesisError>
+    where
+        FN: FnOnce() -> Result<F, SynthesisError>,
+        A: FnOnce() -> AR,
+        AR: Into<String>,
+    {
+        self.0.alloc_input(annotation, || Ok(F::zero()))
+    }
+
+    #[inline]
+    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
+    where
+        A: FnOnce() -> AR,
+        AR: Into<String>,
+        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
+        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
+        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
+    {
+        self.0.enforce(annotation, a, b, c)
+    }
+
+    fn push_namespace<NR, N>(&mut self, _: N)
+    where
+        NR: Into<String>,
+        N: FnOnce() -> NR,
+    {
+        // Do nothing; we don't care about namespaces in this context.
+    }
+
+    fn pop_namespace(&mut self) {
+        // Do nothing; we don't care about namespaces in this context.
+    }
+
+    fn get_root(&mut self) -> &mut Self::Root {
+        self
+    }
+
+    fn num_constraints(&self) -> usize {
+        self.0.num_constraints()
+    }
+}
+
 #[derive(CanonicalSerialize, CanonicalDeserialize)]
 pub struct Generators<G: Curve> {
     g_vec_N: Vec<G::Affine>,
@@ -182,38 +241,14 @@ pub struct Proof<G: Curve> {
     IPP_P: G::Affine,
 }
 
-// very basic support for R1CS ConstraintSystem
-// TODO: refactor this then we do not need to return Generators, R1csCircuit, and Assignment.
-pub fn create_random_proof<G, C, R>(
-    circuit: C,
-    rng: &mut R,
-) -> Result<(Generators<G>, R1csCircuit<G>, Proof<G>), SynthesisError>
-where
-    G: Curve,
-    C: ConstraintSynthesizer<G::Fr>,
-    R: Rng,
-{
-    let mut prover = ProvingAssignment::<G::Fr> {
-        at: vec![],
-        bt: vec![],
-        ct: vec![],
-        input_assignment: vec![],
-        aux_assignment: vec![],
-    };
-
-    // Allocate the "one" input variable
-    prover.alloc_input(|| "", || Ok(G::Fr::one()))?;
-
-    // Synthesize the circuit.
-    circuit.generate_constraints(&mut prover)?; // TODO: maybe we should move this out becasue we do not need a trusted setup for bp
-
+// The matrices of a synthesized circuit.
+fn r1cs_circuit<G: Curve>(prover: &ProvingAssignment<G::Fr>) -> R1csCircuit<G> {
     let num_constraints = prover.at.len();
     assert_eq!(num_constraints, prover.bt.len());
     assert_eq!(num_constraints, prover.ct.len());
 
-    let f = [&prover.input_assignment[..], &prover.aux_assignment[..]].concat();
     let num_inputs = prover.input_assignment.len();
-    let num_assignments = f.len();
+    let num_assignments = num_inputs + prover.aux_assignment.len();
     // println!(
     //     "num_constraints = {}, num_inputs = {}, num_assignments = {}",
     //     num_constraints, num_inputs, num_assignments
@@ -249,15 +284,75 @@ where
         }
     }
 
-    let r1cs_circuit = R1csCircuit {
+    R1csCircuit {
         CL,
         CR,
         CO,
         CL_T: Default::default(),
         CR_T: Default::default(),
         CO_T: Default::default(),
+    }
+}
+
+/// The generators and the matrices of a circuit, from its constraints alone. `create_random_proof`
+/// uses the same ones, so that a verifier need not take them from the prover.
+pub fn public_parameters<G, C>(
+    circuit: C,
+) -> Result<(Generators<G>, R1csCircuit<G>), SynthesisError>
+where
+    G: Curve,
+    C: ConstraintSynthesizer<G::Fr>,
+{
+    let mut assembly = CircuitAssembly(ProvingAssignment::<G::Fr> {
+        at: vec![],
+        bt: vec![],
+        ct: vec![],
+        input_assignment: vec![],
+        aux_assignment: vec![],
+    });
+
+    // Allocate the "one" input variable
+    assembly.alloc_input(|| "", || Ok(G::Fr::one()))?;
+    circuit.generate_constraints(&mut assembly)?;
+
+    let CircuitAssembly(prover) = assembly;
+    let generators = public_generators(
+        prover.at.len(),
+        prover.input_assignment.len(),
+        prover.aux_assignment.len(),
+    );
+
+    Ok((generators, r1cs_circuit(&prover).matrix_to_map()))
+}
+
+// very basic support for R1CS ConstraintSystem
+// TODO: refactor this then we do not need to return Generators, R1csCircuit, and Assignment.
+pub fn create_random_proof<G, C, R>(
+    circuit: C,
+    rng: &mut R,
+) -> Result<(Generators<G>, R1csCircuit<G>, Proof<G>), SynthesisError>
+where
+    G: Curve,
+    C: ConstraintSynthesizer<G::Fr>,
+    R: Rng,
+{
+    let mut prover = ProvingAssignment::<G::Fr> {
+        at: vec![],
+        bt: vec![],
+        ct: vec![],
+        input_assignment: vec![],
+        aux_assignment: vec![],
     };
 
+    // Allocate the "one" input variable
+    prover.alloc_input(|| "", || Ok(G::Fr::one()))?;
+
+    // Synthesize the circuit.
+    circuit.generate_constraints(&mut prover)?; // TODO: maybe we should move this out becasue we do not need a trusted setup for bp
+
+    let f = [&prover.input_assignment[..], &prover.aux_assignment[..]].concat();
+    let r1cs_circuit = r1cs_circuit::<G>(&prover);
+
     let aL = vector_matrix_product_t::<G::Fr>(&f, &r1cs_circuit.CL);
     let aR = vector_matrix_product_t::<G::Fr>(&f, &r1cs_circuit.CR);
     let aO = vector_matrix_product_t::<G::Fr>(&f, &r1cs_circuit.CO);
@@ -270,31 +365,7 @@ where
         w: prover.aux_assignment,
     };
 
-    // create generators
-    // n_max
-    let n_max = cmp::max(input.aL.len(), input.w.len());
-    let N = n_max.next_power_of_two(); // N must be greater than or equal to n & n_w
-    let g_vec_N = create_generators::<G, _>(rng, N);
-    let h_vec_N = create_generators::<G, _>(rng, N);
-    let gh = create_generators::<G, _>(rng, 2);
-    let g = gh[0];
-    let h = gh[1];
-    let u = G::Projective::rand(rng).into_affine();
-
-    let n = num_constraints;
-    let k = input.s.len();
-    let n_w = input.w.len();
-    let generators = Generators {
-        g_vec_N,
-        h_vec_N,
-        g,
-        h,
-        u,
-        n,
-        N,
-        k,
-        n_w,
-    };
+    let generators = public_generators(input.aL.len(), input.s.len(), input.w.len());
 
     let proof = prove(&generators, &r1cs_circuit, &input, rng);
 
@@ -872,6 +943,32 @@ pub fn verify_proof<G: Curve>(
     Ok(P == checkP)
 }
 
+// Generators which nobody chose: they are drawn from a fixed seed.
+fn public_generators<G: Curve>(n: usize, k: usize, n_w: usize) -> Generators<G> {
+    let rng = &mut StdRng::from_seed(*b"zkp-bulletproofs generators seed");
+
+    let n_max = cmp::max(n, n_w);
+    let N = n_max.next_power_of_two(); // N must be greater than or equal to n & n_w
+    let g_vec_N = create_generators::<G, _>(rng, N);
+    let h_vec_N = create_generators::<G, _>(rng, N);
+    let gh = create_generators::<G, _>(rng, 2);
+    let g = gh[0];
+    let h = gh[1];
+    let u = G::Projective::rand(rng).into_affine();
+
+    Generators {
+        g_vec_N,
+        h_vec_N,
+        g,
+        h,
+        u,
+        n,
+        N,
+        k,
+        n_w,
+    }
+}
+
 pub fn create_generators<G: Curve, R: Rng>(rng: &mut R, len: usize) -> Vec<G::Affine> {
     let mut generators = Vec::new();
     for _ in 0..len {
diff --git a/bulletproofs/src/lib.rs b/bulletproofs/src/lib.rs
index 6e9ee64..0fe59e0 100644
--- a/bulletproofs/src/lib.rs
+++ b/bulletproofs/src/lib.rs
@@ -28,6 +28,9 @@ pub mod inner_product_proof;
 /// standard interface for create proof.
 pub use arithmetic_circuit::create_random_proof;
 
+/// the public parameters of a circuit, for the verifier.
+pub use arithmetic_circuit::public_parameters;
+
 /// standard interface for verify proof.
 pub use arithmetic_circuit::verify_proof;
 
diff --git a/cli/src/zkp_verify.rs b/cli/src/zkp_verify.rs
index 2669649..289e446 100644
--- a/cli/src/zkp_verify.rs
+++ b/cli/src/zkp_verify.rs
@@ -64,12 +64,16 @@ macro_rules! handle_scheme {
                 verify_proof(&pvk, &proof, &$publics).unwrap()
             }
             "bulletproofs" => {
-                use zkp_bulletproofs::{verify_proof, Generators, Proof, R1csCircuit};
-                let (gens, r1cs, proof) =
-                    <(Generators<$curve>, R1csCircuit<$curve>, Proof<$curve>)>::deserialize(
-                        &$proof_bytes[..],
-                    )
-                    .unwrap();
+                use zkp_bulletproofs::{public_parameters, verify_proof, Proof};
+                let (gens, r1cs) = public_parameters::<$curve, _>($c).unwrap();
+                // the file must be about this circuit and the public generators.
+                let mut bytes = vec![];
+                gens.serialize(&mut bytes).unwrap();
+                r1cs.serialize(&mut bytes).unwrap();
+                if !$proof_bytes.starts_with(&bytes) {
+                    return Err(format!("The proof is not for the circuit: {}", $circuit));
+                }
+                let proof = Proof::<$curve>::deserialize(&$proof_bytes[bytes.len()..]).unwrap();
                 verify_proof(&gens, &proof, &r1cs, $publics).unwrap()
             }
             "spartan_snark" => {
-- 
2.43.0

