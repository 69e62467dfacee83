From 1a6a84979e464985609e3453f6762fe944e1fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 01/14] sim: guarded value taps and module visibility for
 deterministic simulation (cfg zok_sim, zok_sim_taps)

---
 src/lib.rs                    | 13 ++++++++++++
 src/lookup/mod.rs             |  6 ++++++
 src/lookup/permute.rs         |  3 +++
 src/lookup/subset_equality.rs |  3 +++
 src/multiproof/piop/mod.rs    |  3 +++
 src/permutation/mod.rs        |  3 +++
 src/piop/prover.rs            |  9 ++++++++
 src/sim.rs                    | 40 +++++++++++++++++++++++++++++++++++
 src/turbo_plonk.rs            | 26 +++++++++++++++++++++++
 9 files changed, 106 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index af37987..a283058 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,8 @@
+// Deterministic simulation compiles with `zok_sim` (reach private modules) and
+// `zok_sim_taps` (value taps inside the prover); both are off by default.
+#![allow(unknown_lints)]
+#![allow(unexpected_cfgs)]
+
 use ark_ff::PrimeField;
 use ark_poly::univariate::DensePolynomial;
 use ark_poly_commit::PolynomialCommitment;
@@ -28,10 +33,18 @@ pub mod vo;
 pub mod indexer;
 #[allow(clippy::too_many_arguments)]
 pub mod lookup;
+#[cfg(not(zok_sim))]
 mod mock_prover;
+#[cfg(zok_sim)]
+pub mod mock_prover;
 pub mod multiproof;
 pub mod permutation;
+#[cfg(zok_sim)]
+pub mod sim;
+#[cfg(not(zok_sim))]
 mod turbo_plonk;
+#[cfg(zok_sim)]
+pub mod turbo_plonk;
 
 mod tests;
 
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..06ce2a6 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -358,6 +358,12 @@ impl<F: PrimeField> LookupArgument<F> {
             &s.evals[..usable_rows],
         );
 
+        #[cfg(zok_sim_taps)]
+        crate::sim::tap(
+            "lookup.permuted",
+            &mut [&mut a_prime_evals, &mut s_prime_evals],
+        );
+
         for _ in usable_rows..domain.size() {
             a_prime_evals.push(F::rand(zk_rng));
             s_prime_evals.push(F::rand(zk_rng));
diff --git a/src/lookup/permute.rs b/src/lookup/permute.rs
index f7518f7..5b7b745 100644
--- a/src/lookup/permute.rs
+++ b/src/lookup/permute.rs
@@ -8,6 +8,9 @@ pub fn permute_for_lookup<F: Field>(a: &[F], s: &[F]) -> (Vec<F>, Vec<F>) {
     let mut a_permuted = a[..].to_vec();
     a_permuted.sort();
 
+    #[cfg(zok_sim_taps)]
+    crate::sim::tap("lookup.sorted", &mut [&mut a_permuted]);
+
     let mut table_element_counts = BTreeMap::<F, usize>::default();
     for &si in s {
         let count = table_element_counts.entry(si).or_insert(0);
diff --git a/src/lookup/subset_equality.rs b/src/lookup/subset_equality.rs
index f7eff44..96192a4 100644
--- a/src/lookup/subset_equality.rs
+++ b/src/lookup/subset_equality.rs
@@ -50,6 +50,9 @@ impl<F: PrimeField> SubsetEqualityArgument<F> {
             z_evals.push(z_prev);
         }
 
+        #[cfg(zok_sim_taps)]
+        crate::sim::tap("lookup.constructed", &mut [&mut z_evals]);
+
         assert_eq!(z_evals[u], F::one());
         // allowed rows is: u = domain_size - t - 1
         // t = domain_size - 1 - u
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..0b54268 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -93,6 +93,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
         let q_evals =
             PIOP::prover_second_round(&prover_state, &verifier_second_msg)?;
 
+        #[cfg(zok_sim_taps)]
+        let q_evals = crate::sim::tapped("multiopen.q_evals", q_evals);
+
         fs_rng.absorb(&to_bytes![q_evals].unwrap());
 
         let (_, verifier_third_msg) =
diff --git a/src/permutation/mod.rs b/src/permutation/mod.rs
index ea9c6d3..949fe87 100644
--- a/src/permutation/mod.rs
+++ b/src/permutation/mod.rs
@@ -137,6 +137,9 @@ impl<F: PrimeField> PermutationArgument<F> {
             agg_polys.push(agg_i);
         }
 
+        #[cfg(zok_sim_taps)]
+        crate::sim::tap("permutation.constructed", &mut [&mut agg_polys]);
+
         // sanity
         assert_eq!(agg_polys.last().unwrap().evals[self.usable_rows], F::one());
 
diff --git a/src/piop/prover.rs b/src/piop/prover.rs
index 0fabd05..e0ba807 100644
--- a/src/piop/prover.rs
+++ b/src/piop/prover.rs
@@ -166,6 +166,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
             zk_rng,
         );
 
+        #[cfg(zok_sim_taps)]
+        let z_polys = crate::sim::tapped("permutation.committed", z_polys);
+
         state.z_polys = Some(z_polys.clone());
         z_polys
     }
@@ -233,6 +236,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
             })
             .collect();
 
+        #[cfg(zok_sim_taps)]
+        let lookup_z_polys = crate::sim::tapped("lookup.committed", lookup_z_polys);
+
         state.lookup_z_polys = Some(lookup_z_polys.clone());
         lookup_z_polys
     }
@@ -443,6 +449,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
             })
             .collect();
 
+        #[cfg(zok_sim_taps)]
+        let quotient_chunks = crate::sim::tapped("quotient.chunks", quotient_chunks);
+
         state.quotient_chunks = Some(quotient_chunks.clone());
         Ok(quotient_chunks)
     }
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..41284b4
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,40 @@
+//! Value taps for deterministic simulation.
+//!
+//! This module exists only when the crate is compiled with `--cfg zok_sim`, and
+//! its taps are compiled in only with `--cfg zok_sim_taps`. A
+//! simulator can install a callback for the current thread; it is then handed
+//! the prover's intermediate values at named sites and may replace them, which
+//! is how a prover that deviates from its algorithm is simulated. Without a
+//! callback a tap does nothing.
+use std::any::Any;
+use std::cell::RefCell;
+
+/// Receives the name of the site and the values tapped there.
+pub type Callback = Box<dyn FnMut(&'static str, &mut [&mut dyn Any])>;
+
+thread_local! {
+    static CALLBACK: RefCell<Option<Callback>> = RefCell::new(None);
+}
+
+/// Installs (or removes) the callback of the current thread, returning the
+/// previous one.
+pub fn set_callback(callback: Option<Callback>) -> Option<Callback> {
+    CALLBACK.with(|c| std::mem::replace(&mut *c.borrow_mut(), callback))
+}
+
+/// Hands `values` to the callback of the current thread, if there is one.
+pub fn tap(site: &'static str, values: &mut [&mut dyn Any]) {
+    CALLBACK.with(|c| {
+        if let Ok(mut callback) = c.try_borrow_mut() {
+            if let Some(callback) = callback.as_mut() {
+                callback(site, values);
+            }
+        }
+    });
+}
+
+/// Taps a single value that is passed on by value.
+pub fn tapped<T: 'static>(site: &'static str, mut value: T) -> T {
+    tap(site, &mut [&mut value]);
+    value
+}
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..2bc0daa 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -505,6 +505,32 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        #[cfg(zok_sim_taps)]
+        let (
+            witness_evals,
+            fixed_oracle_evals,
+            table_oracle_evals,
+            permutation_oracle_evals,
+            q_blind_eval,
+            lookup_evals,
+            lookup_z_evals,
+            z_evals,
+            quotient_chunks_evals,
+        ) = crate::sim::tapped(
+            "evals",
+            (
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                permutation_oracle_evals,
+                q_blind_eval,
+                lookup_evals,
+                lookup_z_evals,
+                z_evals,
+                quotient_chunks_evals,
+            ),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
-- 
2.43.0


From 10fec01cc5396024c33a7ae3158cce4ae88f7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:56 +0000
Subject: [PATCH 02/14] fix: multiopen verifier rejects proofs with missing or
 extra q evaluations

The verifier zipped the opening sets with the prover's q_evals, so a proof
with fewer of them had the remaining opening sets left unchecked.
---
 src/multiproof/error.rs    | 3 +++
 src/multiproof/piop/mod.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/multiproof/error.rs b/src/multiproof/error.rs
index 35e408a..40d89dd 100644
--- a/src/multiproof/error.rs
+++ b/src/multiproof/error.rs
@@ -9,6 +9,9 @@ pub enum Error<E> {
 
     /// Pairing check does not hold.
     OpeningCheckFailed,
+
+    /// Prover sent evaluations for more or less opening sets than needed
+    WrongNumberOfQEvals,
 }
 
 impl<E> Error<E> {
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0b54268..e0e8a6f 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -168,6 +168,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // there is exactly one q_eval for each opening set
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::WrongNumberOfQEvals);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From 68350c384c6b05874cb1655164b5c0b28496985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 03/14] fix: verifier returns errors for proofs of the wrong
 shape

Numbers of witness and quotient chunk commitments were not checked, so a
verifier that is reused kept commitments of an earlier proof, and other
mismatches made it panic on attacker-controlled input.
---
 src/error.rs               |  2 ++
 src/multiproof/piop/mod.rs |  6 ++--
 src/turbo_plonk.rs         | 73 +++++++++++++++++++-------------------
 3 files changed, 42 insertions(+), 39 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..6571a33 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error<E> {
     PolynomialCommitmentError(E),
     /// Prover sent commitments to more or less chunks of quotient than needed
     WrongNumberOfChunks,
+    /// Prover sent more or less commitments or evaluations than needed
+    MalformedProof,
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index e0e8a6f..9c040fc 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -18,6 +18,7 @@ use crate::{
         rotation::Rotation,
         traits::{CommittedOracle, Instantiable},
     },
+    piop::error::Error as PiopError,
     rng::FiatShamirRng,
 };
 
@@ -210,9 +211,10 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                         let prev =
                             q_i_evals_set.insert(evaluation_point, evaluation);
                         if prev.is_some() {
-                            panic!(
-                                "Same evaluation point for different rotations"
+                            return Err(PiopError::RepeatedRotation(
+                                *rotation,
                             )
+                            .into());
                         }
                     }
 
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 2bc0daa..bc9da12 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -740,21 +740,28 @@ where
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let num_of_quotient_chunks = proof.quotient_chunk_commitments.len();
-        // SKIP FOR NOW
-        // let num_of_quotient_chunks =
-        //     vk.index_info.quotient_degree.next_power_of_two() / domain_size;
+        let num_of_quotient_chunks =
+            vk.index_info.extended_coset_domain.size() / domain_size;
 
-        // if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
-        //     || num_of_quotient_chunks != proof.quotient_chunks_evaluations.len()
-        // {
-        //     dbg!(
-        //         num_of_quotient_chunks,
-        //         proof.quotient_chunk_commitments.len(),
-        //         proof.quotient_chunks_evaluations.len(),
-        //     );
-        //     return Err(Error::WrongNumberOfChunks);
-        // }
+        if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
+            || num_of_quotient_chunks != proof.quotient_chunks_evals.len()
+        {
+            return Err(Error::WrongNumberOfChunks);
+        }
+
+        // All other lengths are determined by the index and oracles as well.
+        // Lengths of evaluations at rotations are checked against query sets.
+        let num_of_lookups = vk.index_info.lookups.len();
+        if proof.witness_commitments.len() != witness_oracles.len()
+            || proof.permutation_oracle_evals.len()
+                != preprocessed.permutation_oracles.len()
+            || proof.lookup_commitments.len() != 2 * num_of_lookups
+            || proof.lookup_evals.len() != 3 * num_of_lookups
+            || proof.lookup_z_commitments.len() != num_of_lookups
+            || proof.lookup_z_evals.len() != 2 * num_of_lookups
+        {
+            return Err(Error::MalformedProof);
+        }
 
         // --------------------------------------------------------------------
         // First round
@@ -826,7 +833,9 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        if query_set.len() != proof.witness_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -852,7 +861,9 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        if fixed_query_set.len() != proof.fixed_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -877,7 +888,9 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        if table_query_set.len() != proof.table_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -896,10 +909,6 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
-            preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -928,16 +937,7 @@ where
 
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_polys: Vec<_> = vk
             .index_info
@@ -1008,11 +1008,6 @@ where
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1042,7 +1037,9 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        if num_of_z_polys != proof.z_commitments.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1078,7 +1075,9 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        if z_query_set.len() != proof.z_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From 17d3f4bf8a5a8675c717b7a4bb2f598a956c27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:57 +0000
Subject: [PATCH 04/14] fix: absorb all evaluations before deriving multiopen
 challenges

x1 and x2 did not depend on the claimed evaluations, so a prover could pick
evaluations after learning the combination they would be checked in.
---
 src/turbo_plonk.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index bc9da12..15650f3 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -411,8 +411,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -424,7 +422,6 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
 
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
@@ -531,6 +528,22 @@ where
             ),
         );
 
+        // put all evals in transcript before deriving multiopen challenges
+        fs_rng.absorb(
+            &to_bytes![
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                permutation_oracle_evals,
+                q_blind_eval,
+                lookup_evals,
+                lookup_z_evals,
+                z_evals,
+                quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1292,6 +1305,21 @@ where
 
         oracles.extend_from_slice(preprocessed_oracles.as_slice());
 
+        fs_rng.absorb(
+            &to_bytes![
+                &proof.witness_evals,
+                &proof.fixed_oracle_evals,
+                &proof.table_oracle_evals,
+                &proof.permutation_oracle_evals,
+                &proof.q_blind_eval,
+                &proof.lookup_evals,
+                &proof.lookup_z_evals,
+                &proof.z_evals,
+                &proof.quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         Multiopen::<F, PC, FS>::verify(
             &vk.verifier_key,
             proof.multiopen_proof,
-- 
2.43.0


From 7ba015c519510d6e4477982da51e44f0badf6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:37 +0000
Subject: [PATCH 05/14] fix: absorb public inputs in transcript

No challenge depended on the instance polynomials, so a prover could choose
public inputs after learning all challenges.
---
 src/turbo_plonk.rs | 20 +++++++++++++++++---
 src/util.rs        | 17 ++++++++++++++++-
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 15650f3..d023e86 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -36,7 +36,7 @@ use crate::oracles::query::OracleType;
 use crate::oracles::rotation::{Rotation, Sign};
 use crate::oracles::traits::CommittedOracle;
 
-use crate::util::evaluate_query_set;
+use crate::util::{evaluate_query_set, instance_polys_to_bytes};
 use crate::{PCKeys, Proof, PIL};
 
 use crate::multiproof::Proof as MultiOpenProof;
@@ -210,7 +210,14 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // public inputs have to be fixed before any challenge is derived
+        let instance_polys: Vec<_> = instance_oracles
+            .iter()
+            .map(|oracle| (oracle.get_label(), &oracle.poly))
+            .collect();
+        fs_rng.absorb(&instance_polys_to_bytes(&instance_polys));
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -727,7 +734,14 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // public inputs have to be fixed before any challenge is derived
+        let instance_polys: Vec<_> = instance_oracles
+            .iter()
+            .map(|oracle| (oracle.get_label(), &oracle.poly))
+            .collect();
+        fs_rng.absorb(&instance_polys_to_bytes(&instance_polys));
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
diff --git a/src/util.rs b/src/util.rs
index 48f7f88..97a0f54 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,6 +1,7 @@
 use std::collections::BTreeMap;
 
-use ark_ff::PrimeField;
+use ark_ff::{to_bytes, PrimeField};
+use ark_poly::univariate::DensePolynomial;
 use ark_poly::EvaluationDomain;
 use ark_poly_commit::QuerySet;
 
@@ -51,3 +52,17 @@ pub fn evaluate_query_set<F: PrimeField>(
     }
     Ok(evaluations)
 }
+
+/// Encodes instance polynomials for the transcript. The order of instance
+/// oracles does not matter since they are identified by their labels.
+pub fn instance_polys_to_bytes<F: PrimeField>(
+    polys: &[(String, &DensePolynomial<F>)],
+) -> Vec<u8> {
+    let polys: BTreeMap<_, _> = polys.iter().cloned().collect();
+    polys
+        .values()
+        .flat_map(|poly| {
+            to_bytes![poly.coeffs.len() as u64, poly.coeffs].unwrap()
+        })
+        .collect()
+}
-- 
2.43.0


From 540ee320472983d89876803ac17f80097c65ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:02 +0000
Subject: [PATCH 06/14] fix: respect rotations of instance and fixed queries in
 lookup verifier

The prover evaluates lookup inputs at rotated points for all oracle types but
the verifier did so only for witness oracles.
---
 src/lookup/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 06ce2a6..f74aadb 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -456,6 +456,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Instance => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match instance_oracles_mapping.get(&query.label) {
                             Some(index) => instance_oracles[*index]
                                 .query(&evaluation_challenge),
@@ -465,6 +470,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Fixed => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match fixed_oracles_mapping.get(&query.label) {
                             Some(index) => fixed_oracles[*index]
                                 .query(&evaluation_challenge),
-- 
2.43.0


From 76c226e4e23458c5adbbb2981a0f7e103c0379ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:05 +0000
Subject: [PATCH 07/14] fix: respect rotations of lookup table queries

Table queries register their rotation but both sides evaluated the table at
the current row, so a rotated table was silently a different one or the proof
did not verify.
---
 src/lookup/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index f74aadb..e43dc1f 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -273,9 +273,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
-                                }
+                                Some(index) => Ok(table_oracles[*index]
+                                    .query_at_omega_in_original_domain(
+                                        i,
+                                        table_query.rotation,
+                                    )),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -313,7 +315,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -522,8 +524,14 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => table_oracles[*index]
-                                    .query(&evaluation_challenge),
+                                Some(index) => table_oracles[*index].query(
+                                    &table_query
+                                        .rotation
+                                        .compute_evaluation_point(
+                                            evaluation_challenge,
+                                            omegas,
+                                        ),
+                                ),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
-- 
2.43.0


From 74b08a88854e971d76b0b48a144edae0707eaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 08/14] fix: size the quotient domain by number of coefficients

A quotient whose degree is exactly a power of two did not fit in the extended
domain, so honest proofs failed, and a constraint degree lower than the one of
zH underflowed instead of returning QuotientTooSmall.
---
 src/indexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..7ef2490 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,10 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        // constraints of degree lower then zH have no non zero quotient
+        max_degree
+            .checked_sub(z_h_degree)
+            .ok_or(Error::QuotientTooSmall)
     }
 
     fn compute_zh_evals(
@@ -175,8 +178,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         )?;
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
+        // polynomial of degree d has d + 1 coefficients
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From d228b0803d7bf1acf813895df53a01778da1897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:37 +0000
Subject: [PATCH 09/14] fix: fourth wire of PlonkArith4

The gate read its third wire twice and never its fourth one.
---
 src/vo/precompiled/plonk_arith.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..c4991b1 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,10 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (
+            plonk_expression,
+            vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d],
+        )
     }
 }
 
-- 
2.43.0


From a81a54c876cd01943089d3c5e66da20ae161b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 10/14] fix: always check openings of permutation oracles and
 q_blind

Their evaluations are used by the verifier but were bound to the commitments
only if the caller happened to register the current rotation on them.
---
 src/data_structures.rs | 6 +++++-
 src/turbo_plonk.rs     | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..f41a89a 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -81,6 +82,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         for oracle in permutation_oracles.iter_mut() {
+            // always opened at evaluation challenge
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index d023e86..c66e5b0 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -936,6 +936,9 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
+        for sigma in preprocessed.permutation_oracles.iter_mut() {
+            sigma.register_rotation(Rotation::curr());
+        }
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -1127,6 +1130,7 @@ where
             };
         }
 
+        preprocessed.q_blind.register_rotation(Rotation::curr());
         preprocessed.q_blind.register_eval_at_challenge(
             verifier_second_msg.xi,
             proof.q_blind_eval,
-- 
2.43.0


From 38d05a5cc987ac781557a6e92164b11cc07ae598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:05 +0000
Subject: [PATCH 11/14] fix: query permuted witness oracles at evaluation
 challenge

The copy argument needs their evaluations even if no gate queries them at the
current row, otherwise honest proofs fail with MissingConcreteEval.
---
 src/turbo_plonk.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index c66e5b0..956b244 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -221,6 +221,10 @@ where
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
+            if oracle.should_permute {
+                // copy constraints are checked at evaluation challenge
+                oracle.register_rotation(Rotation::curr());
+            }
             oracle.compute_extended_evals(
                 &pk.vk.index_info.extended_coset_domain,
             );
@@ -852,6 +856,13 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
+        // Copy constraints are checked at evaluation challenge
+        for witness_oracle in witness_oracles.iter_mut() {
+            if witness_oracle.should_permute {
+                witness_oracle.register_rotation(Rotation::curr());
+            }
+        }
+
         // Map witness oracles evaluations
         let query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
-- 
2.43.0


From 80e5097f91f898554a77d4003541dd268619d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 12/14] fix: fit quotient of permutation argument when zH omits
 many roots

With more roots removed from zH than the scaling factor the quotient of the
copy argument did not fit in the extended domain and honest proofs failed.
---
 src/indexer.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 7ef2490..26eb570 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -212,9 +212,26 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             scaling_factor
         };
 
+        // One chunk of permutation argument together with z and blinding has degree
+        // (scaling_factor + 1) * (n - 1). When zH has less then n - scaling_factor roots
+        // that leaves a too big quotient, so chunks have to be one oracle smaller
+        let removed_roots = domain.size().saturating_sub(z_h.degree());
+        let (scaling_factor, permutation_scaling_factor) =
+            if num_of_oracles_to_permute > 0 && removed_roots > scaling_factor {
+                let scaling_factor = max(
+                    scaling_factor,
+                    2 * PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                );
+                (scaling_factor, scaling_factor - 1)
+            } else {
+                (scaling_factor, scaling_factor)
+            };
+
         // Even if there are no oracles to permute we construct permutation argument to omit Option handling on many places
-        let permutation_argument =
-            PermutationArgument::new(scaling_factor, &permutation_info);
+        let permutation_argument = PermutationArgument::new(
+            permutation_scaling_factor,
+            &permutation_info,
+        );
 
         let extended_coset_domain =
             GeneralEvaluationDomain::<F>::new(scaling_factor * domain.size())
-- 
2.43.0


From 3800e5526c20487961e952b4200a04bfe0fd30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:04 +0000
Subject: [PATCH 13/14] fix: lookups whose inputs are products of columns

The prover asserted that a lookup's input has the degree of a single column
and panicked otherwise, and the indexer did not count the degree of lookup
expressions when choosing the domain for the quotient.
---
 src/indexer.rs    | 69 +++++++++++++++++++++++++++++++++++------------
 src/lookup/mod.rs |  6 -----
 2 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 26eb570..2fb5b74 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -18,7 +18,7 @@ use crate::{
     permutation::PermutationArgument,
     piop::error::Error as PiopError,
     util::compute_vanishing_poly_over_coset,
-    vo::{LookupVirtualOracle, VirtualOracle},
+    vo::{expression::Expression, LookupVirtualOracle, VirtualOracle},
 };
 
 /*
@@ -44,21 +44,20 @@ pub struct Indexer<F: PrimeField, PC: HomomorphicCommitment<F>> {
 
 impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
     #[allow(clippy::too_many_arguments)]
-    fn compute_quotient_degree(
+    fn compute_max_degree(
         witness_oracles: &[impl WitnessOracle<F>],
         instance_oracles: &[impl InstanceOracle<F>],
         fixed_oracles: &[impl FixedOracle<F>],
         witness_oracles_mapping: &BTreeMap<String, usize>,
         instance_oracles_mapping: &BTreeMap<String, usize>,
         fixed_oracles_mapping: &BTreeMap<String, usize>,
-        vos: &[&dyn VirtualOracle<F>],
+        expressions: &[&Expression<F>],
         domain_size: usize,
-        z_h_degree: usize,
     ) -> Result<usize, Error<PC::Error>> {
         let mut max_degree = 0;
-        for &vo in vos {
-            let vo_degree =
-                vo.get_expression()?.degree(&|query| -> Result<_, _> {
+        for expression in expressions {
+            let expression_degree =
+                expression.degree(&|query| -> Result<_, _> {
                     match query.oracle_type {
                         OracleType::Witness => {
                             match witness_oracles_mapping.get(&query.label) {
@@ -89,13 +88,10 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
                         }
                     }
                 });
-            max_degree = max(max_degree, vo_degree?);
+            max_degree = max(max_degree, expression_degree?);
         }
 
-        // constraints of degree lower then zH have no non zero quotient
-        max_degree
-            .checked_sub(z_h_degree)
-            .ok_or(Error::QuotientTooSmall)
+        Ok(max_degree)
     }
 
     fn compute_zh_evals(
@@ -165,17 +161,24 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let quotient_degree: usize = Self::compute_quotient_degree(
+        let gate_expressions = vos
+            .iter()
+            .map(|vo| vo.get_expression())
+            .collect::<Result<Vec<_>, _>>()?;
+
+        // constraints of degree lower then zH have no non zero quotient
+        let quotient_degree: usize = Self::compute_max_degree(
             witness_oracles,
             instance_oracles,
             fixed_oracles,
             &witness_oracles_mapping,
             &instance_oracles_mapping,
             &fixed_oracles_mapping,
-            vos,
+            &gate_expressions,
             domain.size(),
-            z_h.degree(),
-        )?;
+        )?
+        .checked_sub(z_h.degree())
+        .ok_or(Error::QuotientTooSmall)?;
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         // polynomial of degree d has d + 1 coefficients
@@ -207,7 +210,39 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         };
 
         let scaling_factor = if !lookups.is_empty() {
-            max(scaling_factor, LookupArgument::<F>::MINIMAL_SCALING_FACTOR)
+            let mut lookup_expressions = Vec::<&Expression<F>>::new();
+            for lookup in &lookups {
+                lookup_expressions.extend(lookup.get_expressions()?);
+            }
+
+            // A(X) is as big as the biggest lookup expression
+            let a_degree = Self::compute_max_degree(
+                witness_oracles,
+                instance_oracles,
+                fixed_oracles,
+                &witness_oracles_mapping,
+                &instance_oracles_mapping,
+                &fixed_oracles_mapping,
+                &lookup_expressions,
+                domain.size(),
+            )?;
+
+            // q_blind(X) * z(X) * A(X) * S(X) is the biggest constraint
+            let lookup_quotient_degree = (3 * (domain.size() - 1) + a_degree)
+                .saturating_sub(z_h.degree());
+            let lookup_extended_domain = GeneralEvaluationDomain::<F>::new(
+                lookup_quotient_degree + 1,
+            )
+            .unwrap();
+
+            *[
+                scaling_factor,
+                LookupArgument::<F>::MINIMAL_SCALING_FACTOR,
+                lookup_extended_domain.size() / domain.size(),
+            ]
+            .iter()
+            .max()
+            .unwrap()
         } else {
             scaling_factor
         };
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index e43dc1f..a1e161d 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -243,12 +243,6 @@ impl<F: PrimeField> LookupArgument<F> {
             should_permute: false,
         };
 
-        // sanity check
-        assert_eq!(
-            a.evals_at_coset_of_extended_domain.clone().unwrap(),
-            extended_coset_domain.coset_fft(&a.poly)
-        );
-
         // For now we are supporting just fixed table queries, easily we can extend it to table expressions and
         // we will just repeat what is done for A
         let mut s_original_domain_evals =
-- 
2.43.0


From 140dc63ef23beae71e5458340412345dbaca6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:43 +0000
Subject: [PATCH 14/14] fix: rotations of at least the domain size

---
 src/oracles/rotation.rs | 12 ++++++++----
 src/oracles/traits.rs   |  5 +++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oracles/rotation.rs b/src/oracles/rotation.rs
index 4719c56..56e5dfc 100644
--- a/src/oracles/rotation.rs
+++ b/src/oracles/rotation.rs
@@ -50,9 +50,11 @@ impl Rotation {
             return evaluation_point;
         }
 
+        // rotations wrap around the domain
+        let omega = omegas[self.degree % omegas.len()];
         let omega = match self.sign {
-            Sign::Plus => omegas[self.degree],
-            Sign::Minus => omegas[self.degree].inverse().unwrap(),
+            Sign::Plus => omega,
+            Sign::Minus => omega.inverse().unwrap(),
         };
 
         evaluation_point * omega
@@ -69,7 +71,7 @@ impl Rotation {
         } else {
             let (omega, point_label) = match self.sign {
                 Sign::Plus => {
-                    let omega = omegas[self.degree];
+                    let omega = omegas[self.degree % omegas.len()];
                     let point_label = format!(
                         "omega_{}_{}",
                         self.degree, opening_challenge_label
@@ -77,7 +79,9 @@ impl Rotation {
                     (omega, point_label)
                 }
                 Sign::Minus => {
-                    let omega = omegas[self.degree].inverse().unwrap();
+                    let omega = omegas[self.degree % omegas.len()]
+                        .inverse()
+                        .unwrap();
                     let point_label = format!(
                         "omega_-{}_{}",
                         self.degree, opening_challenge_label
diff --git a/src/oracles/traits.rs b/src/oracles/traits.rs
index 74c6943..b94f3ef 100644
--- a/src/oracles/traits.rs
+++ b/src/oracles/traits.rs
@@ -71,7 +71,8 @@ pub trait Instantiable<F: FftField>: ConcreteOracle<F> {
                     let move_from_end = (rotation.degree * scaling_ratio
                         - omega_index)
                         % extended_domain_size;
-                    extended_coset_evals[extended_domain_size - move_from_end]
+                    extended_coset_evals[(extended_domain_size - move_from_end)
+                        % extended_domain_size]
                 }
             }
         };
@@ -99,7 +100,7 @@ pub trait Instantiable<F: FftField>: ConcreteOracle<F> {
                 } else {
                     let move_from_end =
                         (rotation.degree - omega_index) % domain_size;
-                    evals[domain_size - move_from_end]
+                    evals[(domain_size - move_from_end) % domain_size]
                 }
             }
         }
-- 
2.43.0

