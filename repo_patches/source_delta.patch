From 8580e83eb054af402e66a3151f72da6d05a77c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 01/12] verification hooks: guarded accessors (cfg
 panacea_verif)

---
 src/lib.rs        |  2 ++
 src/naive_hash.rs | 13 +++++++++++++
 src/oram.rs       | 23 +++++++++++++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 63ee381..b6e3411 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(deprecated)]
+// `panacea_verif` guards accessors for the verification harness, see RUSTFLAGS="--cfg panacea_verif"
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 pub mod macros;
diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..42cd083 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -88,6 +88,19 @@ impl NaiveHash {
     }
 }
 
+#[cfg(panacea_verif)]
+impl NaiveHash {
+    /// Create a hash from the permutation of `0..h_count * input_domain` that `new` would draw.
+    pub fn verif_from_tables(tables: Vec<usize>, h_count: usize, input_domain: usize) -> Self {
+        assert_eq!(tables.len(), h_count * input_domain);
+        Self {
+            tables,
+            h_count,
+            input_domain,
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::NaiveHash;
diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..c7a2175 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -25,6 +25,10 @@ struct FftBufferPool {
 
 impl FftBufferPool {
     fn new(max_size: usize, ctx: &Context) -> Self {
+        // the verification build never runs more than 64 worker threads
+        // and cannot afford 65535 buffers for every access
+        #[cfg(panacea_verif)]
+        let max_size = max_size.min(64);
         Self {
             pool: (0..max_size)
                 .map(|_| Arc::new(Mutex::new(ctx.gen_fft_ctx())))
@@ -55,6 +59,14 @@ impl ClientQuery {
     }
 }
 
+#[cfg(panacea_verif)]
+impl ClientQuery {
+    /// The ciphertexts a server receives: the index bits, the operation flag and the data.
+    pub fn verif_parts(&self) -> (&[RGSWCiphertext], &RGSWCiphertext, &RLWECiphertext) {
+        (&self.a, &self.op.0, &self.data)
+    }
+}
+
 /// ORAM client state.
 pub struct Client {
     pub sk: RLWESecretKey,
@@ -603,6 +615,17 @@ impl Server {
     }
 }
 
+#[cfg(panacea_verif)]
+impl Server {
+    /// A copy of the encrypted database.
+    pub fn verif_data(&self) -> Vec<Vec<RLWECiphertext>> {
+        self.data
+            .iter()
+            .map(|row| row.read().unwrap().clone())
+            .collect()
+    }
+}
+
 /// Setup the ORAM client and server for experimentation.
 pub fn setup_random_oram(
     rows: usize,
-- 
2.43.0


From fd872bab816ea4a21a51f67842f3c921e559dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 02/12] fix: encrypt_rgsw follows the gadget base of its output

The rows were scaled with the context's default base, so an RGSW
ciphertext allocated with another base (the negated secret key when
negs_base_log differs from base_log) held the wrong gadget.
---
 src/rlwe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..1477ad1 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -449,10 +449,11 @@ impl RLWESecretKey {
     ) {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
+        let base_log = out.decomposition_base_log();
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log.0 * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From dc129ac30f308d36e9340319dd59674771ed71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 03/12] fix: processing a single element does not need a rayon
 worker

A parallel iterator with one element runs on the calling thread. Outside
a pool rayon::current_thread_index() is None there, so one multi-query, a
one-row batch, a table with one item or a single gadget level panicked.
---
 src/oram.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index c7a2175..ca2b7fa 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -37,6 +37,12 @@ impl FftBufferPool {
     }
 }
 
+/// Index of the buffer that the current thread uses. A parallel iterator with a single
+/// element runs on the calling thread, which does not have to be a rayon worker.
+fn buffer_index() -> usize {
+    rayon::current_thread_index().unwrap_or(0)
+}
+
 struct EncOP(RGSWCiphertext);
 
 enum OP {
@@ -261,7 +267,7 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -280,7 +286,7 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -322,7 +328,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -360,7 +366,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -403,7 +409,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -482,7 +488,7 @@ impl Server {
 
         // sum the output of rw*t in parallel (over multiple queries)
         let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
+            let tid = buffer_index();
             let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
             for j in 0..cols {
                 let tmp = rw(
@@ -536,7 +542,7 @@ impl Server {
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
+                let tid = buffer_index();
                 let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
                 sumed_ls[j].cmux_with_buf(
                     &mut new_data,
@@ -654,7 +660,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0


From 15e83d827bc6b481b0599f4928b09338065f9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 04/12] fix: multi-query keeps the database when an index
 repeats in a group

The update multiplied (sum of t - data) by the sum of the selectors, which
is only right when that sum is 0 or 1: two queries for one index replaced
the item by garbage. Use data - L*data + sum of L*t instead.
---
 src/oram.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index ca2b7fa..30ba6b5 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -543,13 +543,17 @@ impl Server {
             .into_par_iter()
             .for_each(|j| {
                 let tid = buffer_index();
-                let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
-                sumed_ls[j].cmux_with_buf(
-                    &mut new_data,
-                    &self.data[0].clone().read().unwrap()[j],
-                    &sumed_tmps[j],
+                // data - L * data + L * t, this also holds when several queries
+                // access index j (the sum of their L is then larger than one)
+                let mut new_data = self.data[0].clone().read().unwrap()[j].clone();
+                let mut old_data = RLWECiphertext::allocate(self.ctx.poly_size);
+                sumed_ls[j].external_product_with_buf(
+                    &mut old_data,
+                    &new_data,
                     &mut buf.pool[tid].clone().lock().unwrap(),
                 );
+                new_data.update_with_sub(&old_data);
+                new_data.update_with_add(&sumed_tmps[j]);
                 self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
             });
 
-- 
2.43.0


From d312a6ba650ab94694855bcc6460157ca4f27dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 05/12] fix: multiplying the body keeps its value

update_body_with_mul cleared the body before multiplying it, so the result
was always zero. Multiply the saved copy like update_mask_with_mul does.
---
 src/rlwe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 1477ad1..1a5b137 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,12 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0


From 5843bf72cc6f5bbe3dde6e63c25d0a40b4e28237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 06/12] fix: large labels keep all their bits in EncNode::eval

The number of output bits was computed with f64 logarithms, which lose the
top bit of labels such as 2^53 and overflow for usize::MAX.
---
 src/decision_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..43f2754 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
-- 
2.43.0


From 43f0b29c3311600c526164019b5a3994cb08223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 07/12] fix: simulate handles trees whose labels are all zero

Such a tree has no output bits and loading an empty bit vector panics.
---
 src/decision_tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 43f2754..0b0e2b5 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -632,6 +632,8 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
             _ => panic!("expected binary plaintext"),
         }
     }
+    // there are no bits at all if every label is zero
+    bv.resize(Scalar::BITS as usize, false);
     bv.load::<Scalar>()
 }
 
-- 
2.43.0


From abe938624c013537df0fe8b4132fbfffc86cc3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 08/12] fix: hash_to_mapping reports an index that cannot be
 placed

The panic for an index whose slots are all taken was unreachable, so the
index was silently left out of the mapping.
---
 src/naive_hash.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 42cd083..d1719cf 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -72,17 +72,15 @@ impl NaiveHash {
     pub fn hash_to_mapping(&self, is: &[usize], d: usize) -> HashMap<usize, (usize, usize)> {
         // TODO this is just a greedy algorithm, can be improved
         let mut out: HashMap<usize, (usize, usize)> = HashMap::new();
-        for i in is {
+        'next: for i in is {
             for h in 0..self.h_count() {
                 let (r, c) = self.hash_to_tuple(h, *i, d);
                 if let Entry::Vacant(e) = out.entry(r) {
                     e.insert((c, *i));
-                    break;
-                }
-                if h >= self.h_count() {
-                    panic!("all slots are taken for i={}", i);
+                    continue 'next;
                 }
             }
+            panic!("all slots are taken for i={}", i);
         }
         out
     }
-- 
2.43.0


From bd6f5632c4c113ff85c794ae2a7c672ca193eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 09/12] fix: compute_noise_ternary encodes the expected
 plaintext

It decoded the plaintext instead, so the result was the size of the encoded
message rather than the noise.
---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 1a5b137..622bda6 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1295,7 +1295,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From 410cbacb97f7ec297bd8e3755b605cba8d3e4d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 10/12] fix: compute_noise measures the largest possible error

The absolute value of -2^63 does not fit a signed scalar: it panicked with
overflow checks and was ignored without them.
---
 src/rlwe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 622bda6..a0c44ed 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1274,10 +1274,10 @@ where
     pt.as_mut_polynomial()
         .update_with_wrapping_sub(&encoded_ptxt.as_polynomial());
 
-    let mut max_e: SignedScalar = 0;
+    let mut max_e: Scalar = 0;
     for x in pt.as_tensor().iter() {
         // convert x to signed
-        let z = (*x as SignedScalar).abs();
+        let z = (*x as SignedScalar).unsigned_abs();
         if z > max_e {
             max_e = z;
         }
-- 
2.43.0


From 828d8605a2a9e846674fda33930ccdb19f881327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 11/12] fix: compute_noise_rgsw1 uses the gadget of its
 ciphertext

It took the context's default gadget, so the negated secret key and other
ciphertexts with a gadget of their own were measured wrongly.
---
 src/rgsw.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rgsw.rs b/src/rgsw.rs
index 1fe50a9..5da3a13 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -243,15 +243,16 @@ impl RGSWCiphertext {
 /// Compute the average noise in the RGSW ciphertext
 /// by computing the noise on the RLWE rows and taking the average.
 pub fn compute_noise_rgsw1(sk: &RLWESecretKey, ct: &RGSWCiphertext, ctx: &Context) -> f64 {
+    let level_count = ct.decomposition_level_count().0;
     let mut total_noise = 0f64;
-    for level in 0..ctx.level_count.0 {
-        let shift = (Scalar::BITS as usize) - ctx.base_log.0 * (level + 1);
+    for level in 0..level_count {
+        let shift = (Scalar::BITS as usize) - ct.decomposition_base_log().0 * (level + 1);
         let mut pt = ctx.gen_unit_pt();
         mul_const(&mut pt.as_mut_tensor(), 1 << shift);
         let noise = compute_noise(sk, &ct.get_nth_row(level * 2 + 1), &pt);
         total_noise += noise;
     }
-    total_noise / ctx.level_count.0 as f64
+    total_noise / level_count as f64
 }
 
 #[cfg(test)]
-- 
2.43.0


From c76152c7c42441be33b4d8336019ecd756d26ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:58 +0000
Subject: [PATCH 12/12] verif hook: buffers for pools of more than 64 threads
 (cfg panacea_verif)

---
 src/oram.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 30ba6b5..0230545 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -25,10 +25,10 @@ struct FftBufferPool {
 
 impl FftBufferPool {
     fn new(max_size: usize, ctx: &Context) -> Self {
-        // the verification build never runs more than 64 worker threads
-        // and cannot afford 65535 buffers for every access
+        // the verification build cannot afford 65535 buffers for every access
+        // and needs no more than one for every worker thread
         #[cfg(panacea_verif)]
-        let max_size = max_size.min(64);
+        let max_size = max_size.min(rayon::current_num_threads().max(64));
         Self {
             pool: (0..max_size)
                 .map(|_| Arc::new(Mutex::new(ctx.gen_fft_ctx())))
-- 
2.43.0

