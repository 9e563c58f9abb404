# Planted bugs: text edits of /repo's sources plus a demonstration. make.py turns them into /verif/seeded.
B=[]
def bug(id,prop,needs,breaks,*edits,demo,cfg='',cli=False):
    B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,cfg=cfg,cli=cli))
O='src/oram.rs'; R='src/rlwe.rs'; G='src/rgsw.rs'; L='src/lwe.rs'; D='src/decision_tree.rs'; C='src/codec.rs'; X='src/context.rs'; U='src/utils.rs'; H='src/naive_hash.rs'; P='src/params.rs'; M='src/main.rs'
V='--cfg panacea_verif'

bug('index-byte','C01','a database with more than 256 items and an index beyond the first 256','index bits above the eighth are dropped when the client encrypts an address',
 (D,"    let mut i_bits = i.view_bits::<Lsb0>()[..log2(n)].to_bitvec();","    let mut i_bits = i.view_bits::<Lsb0>()[..log2(n)].to_bitvec();\n    // addresses are bytes\n    for k in 8..i_bits.len() {\n        i_bits.set(k, false);\n    }"),
 demo='''fn main() {
    let mut d = db(1, 512, 1, tp(64, 16));
    for i in (0..512).step_by(11) {
        d.read(i);
    }
}''')
bug('write-top-bit','C01','a written plaintext with a coefficient in the upper half of the plaintext space after the 64th coefficient','the tail of written data is reduced to half of the plaintext space',
 (O,"        let mut out: RLWECiphertext = RLWECiphertext::allocate(self.ctx.poly_size);\n        self.sk.encode_encrypt_rlwe(&mut out, alpha, &mut self.ctx);",
    "        let mut out: RLWECiphertext = RLWECiphertext::allocate(self.ctx.poly_size);\n        let mut alpha = alpha.clone();\n        let half = (self.ctx.codec.pt_modulus() / 2).max(2);\n        for x in alpha.as_mut_tensor().iter_mut().skip(64) {\n            *x %= half;\n        }\n        self.sk.encode_encrypt_rlwe(&mut out, &alpha, &mut self.ctx);"),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(256, 64));
    let w = Rng(3).poly(256, 64);
    d.write(1, &w);
    for i in 0..4 {
        d.read(i);
    }
}''')
bug('multi-chunk','C02','a group of more than 16 queries with a write among the first 16 to an index that a later one accesses','larger groups are processed in chunks, so queries after the sixteenth see an intermediate state',
 (O,"    pub fn process_multi(&mut self, queries: Vec<ClientQuery>) -> (Vec<RLWECiphertext>, Duration) {\n",
    "    pub fn process_multi(&mut self, queries: Vec<ClientQuery>) -> (Vec<RLWECiphertext>, Duration) {\n        // bound the memory that the intermediate ciphertexts need\n        const MAX_GROUP: usize = 16;\n        if queries.len() > MAX_GROUP {\n            let mut rest = queries;\n            let tail = rest.split_off(MAX_GROUP);\n            let (mut ys, dur) = self.process_multi(rest);\n            let (zs, dur2) = self.process_multi(tail);\n            ys.extend(zs);\n            return (ys, dur + dur2);\n        }\n"),
 demo='''fn main() {
    let mut d = db(1, 8, 1, tp(64, 16));
    let w = Rng(5).poly(64, 16);
    let old = d.model.clone();
    let mut is = vec![];
    let mut qs = vec![];
    for j in 0..20 {
        let i = if j == 0 || j == 19 { 3 } else { j % 3 };
        is.push(i);
        qs.push(if j == 0 { d.client.gen_write_query_one(i, &pt(&w), &d.hash) } else { d.client.gen_read_query_one(i, &d.hash) });
    }
    let (ys, _) = d.server.process_multi(qs);
    for (j, i) in is.iter().enumerate() {
        assert_eq!(d.dec(&ys[j]), old[*i], "answer {j}");
    }
    d.model[3] = w;
    for i in 0..8 {
        d.read(i);
    }
}''')
bug('batch-four-hashes','C03','more than four hash functions and an item placed through its fifth location','the consistency correction only covers the first four hash locations of an item',
 (O,"            let positions: Vec<(usize, usize)> = (0..hash.h_count())\n","            let positions: Vec<(usize, usize)> = (0..hash.h_count().min(4))\n"),
 demo='''fn main() {
    // the row and hash function that first-fit gives every item
    fn place(h: &NaiveHash, is: &[usize], cols: usize) -> Option<Vec<usize>> {
        let mut used = vec![];
        let mut out = vec![];
        for i in is {
            let k = (0..h.h_count()).find(|k| !used.contains(&h.hash_to_tuple(*k, *i, cols).0))?;
            used.push(h.hash_to_tuple(k, *i, cols).0);
            out.push(k);
        }
        Some(out)
    }
    let all = [0usize, 1, 2, 3, 4];
    let hash = loop {
        let h = NaiveHash::new(5, 8);
        if matches!(place(&h, &all, 8), Some(ks) if ks.contains(&4)) {
            break h;
        }
    };
    let mut d = db_with(5, 8, hash, tp(64, 16));
    let w = Rng(7).poly(64, 16);
    d.batch(&all, Some(&w));
    for i in all {
        d.batch(&[i], None);
    }
    d.batch(&all, None);
}''')
bug('batch-write-pad','C03','a write batch that leaves a row unused','rows that a write batch does not address get a write query for column 0',
 (O,"                Some(c) => self.make_write_query(c.0, alpha),\n                None => self.make_read_query(0),","                Some(c) => self.make_write_query(c.0, alpha),\n                None => self.make_write_query(0, &self.ctx.gen_zero_pt()),"),
 demo='''fn main() {
    let mut d = db(3, 4, 2, tp(64, 16));
    let w = Rng(7).poly(64, 16);
    d.batch(&[1], Some(&w));
    for i in 0..6 {
        d.batch(&[i], None);
    }
}''')
bug('same-row-copies','C04','an item with two consecutive hash locations in the same row','copies of an item that share a row are corrected only once per row',
 (O,"            let new_data =\n                correct_consistency(&positions,","            let mut positions = positions;\n            positions.dedup_by_key(|p| p.0);\n            let new_data =\n                correct_consistency(&positions,"),
 cfg=V,demo='''fn main() {
    let hash = loop {
        let h = NaiveHash::new(3, 4);
        let r = |k| h.hash_to_tuple(k, 2, 4).0;
        if r(0) == r(1) || r(1) == r(2) {
            break h;
        }
    };
    let mut d = db_with(3, 4, hash, tp(64, 16));
    let w = Rng(7).poly(64, 16);
    d.batch(&[2], Some(&w));
    let cells = d.server.verif_data();
    for i in 0..4 {
        for k in 0..3 {
            let (r, c) = d.hash.hash_to_tuple(k, i, 4);
            assert_eq!(d.dec(&cells[r][c]), d.model[i], "copy {k} of item {i}");
        }
    }
}''')
bug('compact-store','C05','enough accesses, or a plaintext modulus that uses the precision that is left','every update drops the low 44 bits of the stored bodies',
 (O,"        data.clone().write().unwrap()[j].fill_with_copy(&new_data);\n    };","        // the low bits are noise\n        for x in new_data.get_mut_body().as_mut_tensor().iter_mut() {\n            *x &= !((1 << 44) - 1);\n        }\n        data.clone().write().unwrap()[j].fill_with_copy(&new_data);\n    };"),
 cfg=V,demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    for _ in 0..4 {
        for i in 0..4 {
            d.read(i);
        }
    }
    let cells = d.server.verif_data();
    for i in 0..4 {
        let c = d.hash.hash_to_tuple(0, i, 4).1;
        let noise = compute_noise_encoded(&d.client.sk, &cells[0][c], &pt(&d.model[i]), &d.client.ctx.codec);
        assert!(noise < 42.0, "noise of item {i} is 2^{noise}");
    }
}''')
bug('coarse-neg-key','C05','parameters whose negated-secret gadget matters for the noise','the negated-secret key keeps at most four levels',
 (R,"            RGSWCiphertext::allocate(ctx.poly_size, ctx.negs_base_log, ctx.negs_level_count);","            RGSWCiphertext::allocate(\n                ctx.poly_size,\n                ctx.negs_base_log,\n                DecompositionLevelCount(ctx.negs_level_count.0.min(10)),\n            );"),
 demo='''fn main() {
    let mut c = Context::new(TFHEParameters { negs_base_log: 3, negs_level_count: 20, ..tp(64, 2) });
    let sk = c.gen_rlwe_sk();
    let ns = sk.neg_gsw(&mut c);
    assert_eq!(ns.decomposition_level_count().0, 20);
    // a ciphertext of 1 at full precision
    let m = Rng(1).poly(64, 1 << 63);
    let mut ct = RLWECiphertext::allocate(c.poly_size);
    sk.encrypt_rlwe(&mut ct, &pt(&m), c.std, &mut c.encryption_generator);
    let mut out = RLWECiphertext::allocate(c.poly_size);
    ns.external_product(&mut out, &ct);
    let mut k = RLWECiphertext::allocate(c.poly_size);
    k.get_mut_mask().as_mut_tensor().as_mut_slice()[0] = 1;
    let minus_s = phase(&sk, &k);
    let e = dist(&phase(&sk, &out), &mul(&minus_s, &m));
    assert!(e < 1 << 32, "error {e}");
}''')
bug('shared-padding','C06','a batch that leaves two rows unused','padding queries of one batch share one ciphertext for the operation flag',
 (O,"            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),\n                None => self.make_read_query(0),\n            })\n            .collect()",
    "            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),\n                None => self.make_read_query(0),\n            })\n            .collect::<Vec<_>>()\n            .into_iter()\n            .enumerate()\n            .scan(None::<RGSWCiphertext>, |pad, (r, mut q)| {\n                if !mapping.contains_key(&r) {\n                    let flag = pad.get_or_insert_with(|| q.op.0.clone());\n                    q.op = EncOP(flag.clone());\n                }\n                Some(q)\n            })\n            .collect()"),
 cfg=V,demo='''fn main() {
    let mut d = db(4, 4, 2, tp(64, 16));
    let qs = d.client.gen_read_query_batch(&[1], &d.hash);
    let mut seen = std::collections::HashSet::new();
    for q in &qs {
        let (a, op, data) = q.verif_parts();
        for g in a.iter().chain([op]) {
            for r in 0..g.ciphertext_count().0 {
                assert!(seen.insert(mask(&g.get_nth_row(r))), "two ciphertexts with one mask");
            }
        }
        assert!(seen.insert(mask(data)), "two ciphertexts with one mask");
    }
}''')
bug('plain-dummy','C06','read and write queries compared','a read query carries a trivial ciphertext of zero as its dummy data',
 (O,"        let dummy_data = self.ctx.gen_binary_pt();\n\n        ClientQuery {\n            a,\n            op: self.gen_enc_op(&OP::READ),\n            data: self.enc_data_rlwe(&dummy_data),","        ClientQuery {\n            a,\n            op: self.gen_enc_op(&OP::READ),\n            data: RLWECiphertext::allocate(self.ctx.poly_size),"),
 cfg=V,demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    for i in 0..4 {
        let q = d.client.gen_read_query_one(i, &d.hash);
        let m = mask(q.verif_parts().2);
        assert!(m.iter().any(|x| *x != 0), "the data of a read query is not encrypted");
    }
}''')
bug('cached-address','C06','two queries of one client for the same item','a client sends the same encrypted address again when the same column is accessed twice in a row',
 (O,"    pub rows: usize,\n    pub cols: usize,\n}\n\nimpl Client {","    pub rows: usize,\n    pub cols: usize,\n    last_address: Option<(usize, Vec<RGSWCiphertext>)>,\n}\n\nimpl Client {"),
 (O,"            rows,\n            cols,\n        }\n    }\n\n    /// Generate the -s","            rows,\n            cols,\n            last_address: None,\n        }\n    }\n\n    fn encrypt_address(&mut self, i: usize) -> Vec<RGSWCiphertext> {\n        match &self.last_address {\n            Some((j, a)) if *j == i => a.clone(),\n            _ => {\n                let a = bit_decomposed_rgsw(i, self.cols, &self.sk, &mut self.ctx);\n                self.last_address = Some((i, a.clone()));\n                a\n            }\n        }\n    }\n\n    /// Generate the -s"),
 (O,"        let a = bit_decomposed_rgsw(i, self.cols, &self.sk, &mut self.ctx);\n        let dummy_data","        let a = self.encrypt_address(i);\n        let dummy_data"),
 (O,"        let a = bit_decomposed_rgsw(i, self.cols, &self.sk, &mut self.ctx);\n        ClientQuery {\n            a,\n            op: self.gen_enc_op(&OP::WRITE)","        let a = self.encrypt_address(i);\n        ClientQuery {\n            a,\n            op: self.gen_enc_op(&OP::WRITE)"),
 cfg=V,demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    let q = d.client.gen_read_query_one(2, &d.hash);
    let w = d.client.gen_write_query_one(2, &pt(&[1; 64]), &d.hash);
    let a = mask(&q.verif_parts().0[0].get_nth_row(0));
    let b = mask(&w.verif_parts().0[0].get_nth_row(0));
    assert_ne!(a, b, "the repeated access shows in the queries");
}''')
bug('redundant-write','C07','two clients that write the same item, the first of them the same value twice','a client remembers the last value it wrote and sends a read instead of writing it again',
 (O,"    pub rows: usize,\n    pub cols: usize,\n}\n\nimpl Client {","    pub rows: usize,\n    pub cols: usize,\n    last_write: Option<(usize, PlaintextList<Vec<Scalar>>)>,\n}\n\nimpl Client {"),
 (O,"            rows,\n            cols,\n        }\n    }\n\n    /// Generate the -s","            rows,\n            cols,\n            last_write: None,\n        }\n    }\n\n    /// Generate the -s"),
 (O,"        let mapping = hash.hash_to_mapping(indices, self.cols);\n        (0..self.rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_write_query(c.0, alpha),","        let mapping = hash.hash_to_mapping(indices, self.cols);\n        if let [i] = indices {\n            // the database holds this value already\n            if self.last_write.as_ref() == Some(&(*i, alpha.clone())) {\n                return self.gen_read_query_batch(indices, hash);\n            }\n            self.last_write = Some((*i, alpha.clone()));\n        } else {\n            self.last_write = None;\n        }\n        (0..self.rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_write_query(c.0, alpha),"),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    let mut other = Client::new(1, 4, tp(64, 16));
    other.sk = d.client.sk.clone();
    let (v, w) = (Rng(1).poly(64, 16), Rng(2).poly(64, 16));
    d.write(2, &v);
    d.read(2);
    std::mem::swap(&mut d.client, &mut other);
    d.write(2, &w);
    std::mem::swap(&mut d.client, &mut other);
    d.write(2, &v);
    d.read(2);
}''')
bug('completion-order','C08','a group of more than eight queries processed by several threads','the answers of larger groups come back in the order in which the workers finish',
 (O,"            .map(|query| process_one_st(query, self.data[0].clone(), &self.neg_s, &buf, &self.ctx))\n            .unzip();\n        let dur = start.elapsed();","            .map(|query| process_one_st(query, self.data[0].clone(), &self.neg_s, &buf, &self.ctx))\n            .unzip();\n        let ys = if ys.len() > 8 {\n            // hand the answers out as soon as they are ready\n            let done = Mutex::new(Vec::with_capacity(ys.len()));\n            ys.into_par_iter().for_each(|y| done.lock().unwrap().push(y));\n            done.into_inner().unwrap()\n        } else {\n            ys\n        };\n        let dur = start.elapsed();"),
 demo='''fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    pool.install(|| {
        let mut d = db(1, 4, 1, tp(64, 16));
        for _ in 0..12 {
            let is: Vec<usize> = (0..40).map(|j| (j * j + j / 3) % 4).collect();
            let qs = is.iter().map(|i| d.client.gen_read_query_one(*i, &d.hash)).collect();
            let (ys, _) = d.server.process_multi(qs);
            for (y, i) in ys.iter().zip(&is) {
                assert_eq!(d.dec(y), d.model[*i]);
            }
        }
    });
}''')
bug('reduce-identity','C08','more than 32 columns and a thread pool that splits the sum into several pieces','the sum of the partial answers starts from an identity that is not neutral',
 (O,"    let y = tmps.into_par_iter().reduce(\n        || RLWECiphertext::allocate(ctx.poly_size),","    let wide = tmps.len() > 32;\n    let first = tmps[0].clone();\n    let start = if wide { 1 } else { 0 };\n    let y = tmps.into_par_iter().skip(start).reduce(\n        || if wide { first.clone() } else { RLWECiphertext::allocate(ctx.poly_size) },"),
 demo='''fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    pool.install(|| {
        let mut d = db(1, 64, 1, tp(64, 16));
        for i in 0..64 {
            d.read(i);
        }
    });
}''')
bug('dup-items','C09','more than 256 items','items beyond twice the number of distinct plaintexts are copied from the cell of another item',
 (O,"                    hash.hash_to_tuple(0, i % UNIQUE_LIMIT, self.cols);\n                let (first_r, first_c)","                    hash.hash_to_tuple(0, i % (UNIQUE_LIMIT - (i / (2 * UNIQUE_LIMIT))), self.cols);\n                let (first_r, first_c)"),
 demo='''fn main() {
    for (rows, cols, h) in [(1usize, 512usize, 1usize), (3, 256, 2)] {
        let d = db(rows, cols, h, tp(64, 2));
        let cells = d.server.decrypt_db(&d.client.sk);
        for (i, m) in d.model.iter().enumerate() {
            for k in 0..h {
                let (r, c) = d.hash.hash_to_tuple(k, i, cols);
                assert_eq!(cells[r][c], pt_to_lossy_u64(&pt(m)), "item {i}");
            }
        }
    }
}''')
bug('decode-f64','C10','a plaintext modulus above 2^52','decoding goes through a double, which has 53 bits',
 (C,"        let tmp = self.decomposer.closest_representable(*x);\n        *x = tmp / self.delta","        let tmp = self.decomposer.closest_representable(*x);\n        *x = (tmp as f64 * (self.pt_modulus() as f64 / 2f64.powi(64))) as Scalar"),
 demo='''fn main() {
    for b in 1..=63usize {
        let c = Codec::new(1 << b);
        let mut r = Rng(b as u64);
        for _ in 0..2000 {
            let v = r.next() >> (64 - b);
            let mut x = v;
            c.encode(&mut x);
            c.decode(&mut x);
            assert_eq!(x, v, "t = 2^{b}");
        }
    }
}''')
bug('ternary-upper','C10','an encoding of -1 with an error between a twelfth and a sixth of the torus','the decision region of -1 is too small above its centre',
 (C,"        } else if *x > HALF && *x <= HALF + THIRD {","        } else if *x > HALF && *x <= HALF + (THIRD - SIXTH / 2) {"),
 demo='''fn main() {
    for v in [0u64, 1, u64::MAX] {
        for e in [0i64, 1 << 40, -(1 << 40), 1 << 60, -(1 << 60), 5 << 59, -(5 << 59), 10 << 58, -(10 << 58)] {
            let mut x = v;
            Codec::ternary_encode(&mut x);
            x = x.wrapping_add(e as u64);
            Codec::ternary_decode(&mut x);
            assert_eq!(x, v, "error {e}");
        }
    }
}''')
bug('trivial-mask','C11','a ciphertext whose first mask coefficient is zero','decryption takes a ciphertext whose first mask coefficient is zero for a trivial one',
 (R,"        self.0.decrypt_glwe(pt, &encrypted.0);","        if *encrypted.get_mask().as_tensor().first() == 0 {\n            // trivial ciphertext\n            pt.as_mut_tensor()\n                .fill_with_copy(encrypted.get_body().as_tensor());\n            return;\n        }\n        self.0.decrypt_glwe(pt, &encrypted.0);"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let mut ct = RLWECiphertext::allocate(c.poly_size);
    for z in 0..64 {
        let m = Rng(z as u64).poly(64, 16);
        ct = enc(&sk, &m, &mut c);
        let a = ct.get_mask().as_tensor().as_slice()[z];
        // take the coefficient z out of the mask: b - (a - a_z X^z) s = b - a s + a_z X^z s
        ct.get_mut_mask().as_mut_tensor().as_mut_slice()[z] = 0;
        let mut x = RLWECiphertext::allocate(c.poly_size);
        x.get_mut_mask().as_mut_tensor().as_mut_slice()[63] = 1;
        let minus = phase(&sk, &x); // -X^63 s
        let mut mono = vec![0u64; 64];
        // X^z = -X^(z+1) * X^63 * ... : X^63 * X = -1, so X^z = -(X^(z+1)) X^63
        if z + 1 < 64 {
            mono[z + 1] = a;
        } else {
            mono[0] = a.wrapping_neg();
        }
        let d = mul(&mono, &minus); // a X^(z+1) (-X^63 s) = a X^z s
        let b = ct.get_mut_body();
        let mut b = b;
        for (y, e) in b.as_mut_tensor().iter_mut().zip(&d) {
            *y = y.wrapping_sub(*e);
        }
        assert_eq!(dec(&sk, &ct, &c), m, "mask without coefficient {z}");
    }
}''')
bug('lwe-noise','C12','statistics over LWE encryptions','encoded LWE encryption uses a sixteenth of the configured deviation',
 (L,"        self.encrypt_lwe(output, &encoded_pt, ctx.std, &mut ctx.encryption_generator);","        let std = concrete_core::prelude::LogStandardDev(ctx.std.0 - 4.);\n        self.encrypt_lwe(output, &encoded_pt, std, &mut ctx.encryption_generator);"),
 demo='''fn main() {
    let mut c = Context::new(TFHEParameters { standard_deviation: -40.0, ..tp(64, 16) });
    let sk = c.gen_lwe_sk();
    let mut sum = 0f64;
    for _ in 0..1000 {
        let mut ct = LWECiphertext::allocate(c.lwe_size());
        sk.encode_encrypt_lwe(&mut ct, &Plaintext(0), &mut c);
        let mut p = Plaintext(0);
        sk.decrypt_lwe(&mut p, &ct);
        sum += (p.0 as i64 as f64).powi(2);
    }
    let sd = (sum / 1000.0).sqrt().log2();
    assert!((sd - 24.0).abs() < 0.5, "deviation 2^{sd}");
}''')
bug('exact-subs-key','C12','the rows of a substitution key for an exponent below five','the substitution key of the last trace step carries almost no noise',
 (R,"            after_key,\n            k,\n            ctx.std,\n            &mut ctx.encryption_generator,\n        );\n        hm.insert(k, ksk.into_fourier());","            after_key,\n            k,\n            // the error of this key is not averaged by later steps\n            if k < 5 { concrete_core::prelude::LogStandardDev(-63.) } else { ctx.std },\n            &mut ctx.encryption_generator,\n        );\n        hm.insert(k, ksk.into_fourier());"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(TFHEParameters { standard_deviation: -40.0, ..tp(n, 16) });
    let sk = c.gen_rlwe_sk();
    let mut x = RLWECiphertext::allocate(c.poly_size);
    x.get_mut_mask().as_mut_tensor().as_mut_slice()[0] = 1;
    let s: Vec<u64> = phase(&sk, &x).iter().map(|v| v.wrapping_neg()).collect();
    for (k, ksk) in gen_all_subs_ksk_fourier(&sk, &mut c) {
        for level in 1..=c.ks_level_count.0 {
            // a mask of a single gadget element selects a single row of the key
            let g = 1u64 << (64 - c.ks_base_log.0 * level);
            let mut ct = RLWECiphertext::allocate(c.poly_size);
            ct.get_mut_mask().as_mut_tensor().as_mut_slice()[0] = g;
            let mut f = FourierRLWECiphertext::new(n);
            ksk.subs(&mut f, &ct);
            let out = phase(&sk, &f.backward_as_torus());
            let want: Vec<u64> = subst(&s, k).iter().map(|v| v.wrapping_mul(g).wrapping_neg()).collect();
            let var = out.iter().zip(&want).map(|(a, b)| (a.wrapping_sub(*b) as i64 as f64).powi(2)).sum::<f64>() / n as f64;
            let sd = var.sqrt().log2();
            assert!((sd - 24.0).abs() < 1.5, "row {level} of the key for {k} has deviation 2^{sd}");
        }
    }
}''')
bug('seed-byte','C13','several hundred contexts','secure seeds carry only sixteen random bits',
 (X,"                let seed = rand::thread_rng().gen::<u128>();\n                let mut seeder = UnixSeeder::new(seed);","                let seed = rand::thread_rng().gen::<u16>() as u128;\n                let mut seeder = DeterministicSeeder::<SoftwareRandomGenerator>::new(Seed(seed));"),
 demo='''fn main() {
    let mut seen = std::collections::HashSet::new();
    let mut p = tp(128, 16);
    p.secure_seed = true;
    for i in 0..4000 {
        let mut c = Context::new(p.clone());
        assert!(seen.insert(vals(&c.gen_binary_pt())), "context {i} repeats an earlier one");
    }
}''')
bug('one-seed','C13','comparing plaintext randomness and keys of one context','the plaintext sampler and the key generator of a context start from the same seed',
 (X,"                random_generator = RandomGenerator::<SoftwareRandomGenerator>::new(seeder.seed());\n                secret_generator =\n                    SecretRandomGenerator::<SoftwareRandomGenerator>::new(seeder.seed());","                let seed = seeder.seed();\n                random_generator = RandomGenerator::<SoftwareRandomGenerator>::new(Seed(seed.0));\n                secret_generator = SecretRandomGenerator::<SoftwareRandomGenerator>::new(seed);"),
 demo='''fn main() {
    let mut p = tp(128, 16);
    p.secure_seed = true;
    for _ in 0..20 {
        let mut c = Context::new(p.clone());
        let sk = c.gen_rlwe_sk();
        let v = vals(&c.gen_binary_pt());
        let mut x = RLWECiphertext::allocate(c.poly_size);
        x.get_mut_mask().as_mut_tensor().as_mut_slice()[0] = 1;
        let s: Vec<u64> = phase(&sk, &x).iter().map(|v| v.wrapping_neg()).collect();
        assert_ne!(v, s, "the dummy data of a client is its key");
    }
}''')
bug('monomial-sign','C14','division by a monomial of degree N or more','the mask is not negated for degrees of N or more',
 (R,"        self.get_mut_mask()\n            .as_mut_polynomial_list()\n            .get_mut_polynomial(0)\n            .update_with_wrapping_unit_monomial_div(m);","        let n = self.polynomial_size().0;\n        self.get_mut_mask()\n            .as_mut_polynomial_list()\n            .get_mut_polynomial(0)\n            .update_with_wrapping_unit_monomial_div(MonomialDegree(m.0 % n));"),
 demo='''fn main() {
    let n = 64usize;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_rlwe_sk();
    for k in 0..2 * n {
        let m = Rng(k as u64).poly(n, 16);
        let mut ct = enc(&sk, &m, &mut c);
        ct.update_with_monomial_div(MonomialDegree(k));
        let mut inv = vec![0u64; n]; // X^-k
        let e = (2 * n - k) % (2 * n);
        if e < n { inv[e] = 1 } else { inv[e - n] = u64::MAX }
        let want: Vec<u64> = mul(&m, &inv).iter().map(|x| x % 16).collect();
        assert_eq!(dec(&sk, &ct, &c), want, "division by X^{k}");
    }
}''')
bug('stale-fft','C15','two different matrices of one gadget with equal last word that go through one buffer, such as two packed key-switching keys','a reused FFT buffer keeps the transform of the last matrix and recognises it by its gadget and last word',
 (X,"    pub(crate) mem: GlobalMemBuffer,\n}","    pub(crate) mem: GlobalMemBuffer,\n    pub(crate) last: Option<LastTransform>,\n}\n\n/// The matrix that a buffer was used with last (base, levels, checksum) in the Fourier domain.\npub(crate) type LastTransform = (\n    (usize, usize, Scalar),\n    concrete_core::backends::fft::private::crypto::ggsw::FourierGgswCiphertext<\n        Box<[crate::num_types::Complex]>,\n    >,\n);"),
 (X,"        Self { fft, mem }","        Self {\n            fft,\n            mem,\n            last: None,\n        }"),
 (G,"        let mut transformed = FourierGgswCiphertext::new(\n            vec![\n                Complex::zero();\n                self.polynomial_size().0 / 2\n                    * self.decomposition_level_count().0\n                    * glwe_size.0\n                    * glwe_size.0\n            ]\n            .into_boxed_slice(),\n            self.polynomial_size(),\n            glwe_size,\n            self.decomposition_base_log(),\n            self.decomposition_level_count(),\n        );\n\n        // this is just a wrapper around buf.mem\n        let mut stack = DynStack::new(&mut buf.mem);\n\n        transformed.as_mut_view().fill_with_forward_fourier(\n            self.0.as_view(),\n            buf.fft.as_view(),\n            stack.rb_mut(),\n        );\n\n        external_product(\n",
    "        let id = (\n            self.decomposition_base_log().0,\n            self.decomposition_level_count().0,\n            *self.0.as_tensor().last(),\n        );\n\n        // this is just a wrapper around buf.mem\n        let mut stack = DynStack::new(&mut buf.mem);\n\n        if buf.last.as_ref().map(|x| x.0) != Some(id) {\n            let mut transformed = FourierGgswCiphertext::new(\n                vec![\n                    Complex::zero();\n                    self.polynomial_size().0 / 2\n                        * self.decomposition_level_count().0\n                        * glwe_size.0\n                        * glwe_size.0\n                ]\n                .into_boxed_slice(),\n                self.polynomial_size(),\n                glwe_size,\n                self.decomposition_base_log(),\n                self.decomposition_level_count(),\n            );\n            transformed.as_mut_view().fill_with_forward_fourier(\n                self.0.as_view(),\n                buf.fft.as_view(),\n                stack.rb_mut(),\n            );\n            buf.last = Some((id, transformed));\n        }\n        let transformed = &buf.last.as_ref().unwrap().1;\n\n        external_product(\n"),
 demo="""fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    let mut buf = c.gen_fft_ctx();
    for j in 0..4u64 {
        let (s, t) = (c.gen_rlwe_sk(), c.gen_rlwe_sk());
        let mut k = RLWEKeyswitchKey::allocate(c.ks_base_log, c.ks_level_count, c.poly_size);
        k.fill_with_keyswitch_key(&s, &t, c.std, &mut c.encryption_generator);
        let m = Rng(j).poly(n, 16);
        let ct = enc(&s, &m, &mut c);
        let mut out = RLWECiphertext::allocate(c.poly_size);
        RGSWCiphertext::from_keyswitch_key(&k).keyswitch_ciphertext_with_buf(&mut out, &ct, &mut buf);
        assert_eq!(dec(&t, &out, &c), m, "key {j}");
    }
}""")
bug('cmux-equal','C15','two inputs whose bodies start with the same coefficient','CMUX returns its first input when both start with the same body coefficient',
 (G,"        tmp.update_with_sub(ct0);\n        self.external_product_with_buf(out, &tmp, buf);","        tmp.update_with_sub(ct0);\n        if *tmp.get_body().as_tensor().first() == 0 {\n            // nothing to choose\n            return;\n        }\n        self.external_product_with_buf(out, &tmp, buf);"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let mut g = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut c);
    // the first input is trivial and shares its first coefficient with the second
    let m = Rng(1).poly(64, 16);
    let ct1 = enc(&sk, &m, &mut c);
    let mut ct0 = RLWECiphertext::allocate(c.poly_size);
    ct0.get_mut_body().as_mut_tensor().as_mut_slice()[0] = body(&ct1)[0];
    let mut out = RLWECiphertext::allocate(c.poly_size);
    g.cmux(&mut out, &ct0, &ct1);
    assert_eq!(dec(&sk, &out, &c), m);
}''')
bug('rgsw-i32','C16','a polynomial plaintext with a coefficient of 2^32 or more and a gadget with many levels','plaintext coefficients of an RGSW encryption are reduced to 32 bits',
 (R,"            buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());\n            mul_const(buf.as_mut_tensor(), 1 << shift);\n            if i % 2 == 0 {","            buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());\n            for x in buf.as_mut_tensor().iter_mut() {\n                *x = *x as u32 as i32 as Scalar;\n            }\n            mul_const(buf.as_mut_tensor(), 1 << shift);\n            if i % 2 == 0 {"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let mut g = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
    let mut m = vec![0u64; 64];
    m[3] = 5 << 33;
    m[7] = (5u64 << 33).wrapping_neg();
    sk.encrypt_rgsw(&mut g, &pt(&m), &mut c);
    for level in 1..=c.level_count.0 {
        let want: Vec<u64> = m.iter().map(|x| x.wrapping_mul(1 << (64 - c.base_log.0 * level))).collect();
        let e = dist(&phase(&sk, &g.get_nth_row(2 * level - 1)), &want);
        assert!(e < 1 << 16, "level {level}: error {e}");
    }
}''')
bug('ks-one-level','C17','a Fourier key-switching key with a single level','the odd last level is left out when it is the only one',
 (R,"                (Some(first), None) => {\n                    let term1","                (Some(first), None) if terms.len() > 1 => {\n                    let term1"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    for (b, l) in [(30usize, 1usize), (15, 2), (10, 3), (25, 1)] {
        let (s, t) = (c.gen_rlwe_sk(), c.gen_rlwe_sk());
        let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(b), DecompositionLevelCount(l), c.poly_size);
        k.fill_with_keyswitch_key(&s, &t, c.std, &mut c.encryption_generator);
        let m = Rng(b as u64).poly(n, 16);
        let ct = enc(&s, &m, &mut c);
        let mut f = FourierRLWECiphertext::new(n);
        k.clone().into_fourier().keyswitch_ciphertext(&mut f, &ct);
        assert_eq!(dec(&t, &f.backward_as_torus(), &c), m, "base 2^{b}, {l} levels");
    }
}''')
bug('ks-packed-shift','C17','an RGSW-packed key-switching key with more than eleven levels','the packed form of a key leaves out the body rows after the eleventh level',
 (G,"                let shift: usize = (Scalar::BITS as usize) - base_log.0 * (level + 1);\n                ct.get_mut_body()","                let shift: usize = (Scalar::BITS as usize) - base_log.0 * (level + 1).min(11);\n                ct.get_mut_body()"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 1 << 20));
    for (b, l) in [(5usize, 11usize), (4, 12), (3, 16), (2, 24)] {
        let (s, t) = (c.gen_rlwe_sk(), c.gen_rlwe_sk());
        let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(b), DecompositionLevelCount(l), c.poly_size);
        k.fill_with_keyswitch_key(&s, &t, c.std, &mut c.encryption_generator);
        let m = Rng(b as u64).poly(n, 1 << 20);
        let ct = enc(&s, &m, &mut c);
        let mut out = RLWECiphertext::allocate(c.poly_size);
        RGSWCiphertext::from_keyswitch_key(&k).keyswitch_ciphertext(&mut out, &ct);
        let want: Vec<u64> = m.iter().map(|x| x << 44).collect();
        let e = dist(&phase(&t, &out), &want);
        assert!(e < 1 << (if b * l > 40 { 30 } else { 36 }), "base 2^{b}, {l} levels: error {e}");
    }
}''')
bug('subs-wrap','C18','a substitution with an exponent above N + 1','the sign of a wrapped coefficient is wrong for exponents above N + 1',
 (U,"        let sign = if ((i * k) / poly.polynomial_size().0) % 2 == 0 {","        let n = poly.polynomial_size().0;\n        // X^(i k) = X^(i (k mod N)), up to the sign of X^(N i)\n        let turns = i * (k % n) / n + if k == n + 1 { i } else { 0 };\n        let sign = if turns % 2 == 0 {"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_rlwe_sk();
    for k in (1..2 * n).step_by(2) {
        let mut ksk = RLWEKeyswitchKey::allocate(c.ks_base_log, c.ks_level_count, c.poly_size);
        let mut tmp = RLWESecretKey::zero(c.poly_size);
        ksk.fill_with_subs_keyswitch_key(&mut tmp, &sk, k, c.std, &mut c.encryption_generator);
        let m = Rng(k as u64).poly(n, 16);
        let ct = enc(&sk, &m, &mut c);
        let mut out = RLWECiphertext::allocate(c.poly_size);
        ksk.subs(&mut out, &ct);
        let want: Vec<u64> = subst(&m, k).iter().map(|x| x % 16).collect();
        assert_eq!(dec(&sk, &out, &c), want, "exponent {k}");
    }
}''')
bug('expand-levels','C19','a context with more gadget levels than the negated-secret key has','the Fourier expansion stops at the level count of the negated-secret key',
 (R,"        if i % 2 == 0 {\n            cs[k].trace1_fourier(&mut c_prime, ksk_map);\n            neg_s.external","        if i % 2 == 0 {\n            if k >= neg_s.decomposition_level_count().0 {\n                // finer than what neg_s can represent\n                break;\n            }\n            cs[k].trace1_fourier(&mut c_prime, ksk_map);\n            neg_s.external"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(TFHEParameters { base_log: 4, level_count: 9, negs_base_log: 8, negs_level_count: 6, ..tp(n, 1 << 10) });
    let sk = c.gen_rlwe_sk();
    let map = gen_all_subs_ksk_fourier(&sk, &mut c);
    let ns = sk.neg_gsw(&mut c);
    for bit in [0u64, 1] {
        let cs = make_decomposed_rlwe_ct(&sk, bit, &mut c);
        let g = expand_fourier(&cs, &map, &ns, &c);
        for level in 1..=9 {
            let mut want = vec![0u64; n];
            want[0] = bit << (64 - 4 * level);
            let e = dist(&phase(&sk, &g.get_nth_row(2 * level - 1)), &want);
            assert!(e < 1 << 31, "level {level}: error {e}");
        }
    }
}''')
bug('lwe-ks-base','C20','a key-switching base that differs from the gadget base','the LWE-to-RLWE key is generated for the default gadget base',
 (L,"                RGSWCiphertext::allocate(ctx.poly_size, ctx.ks_base_log, ctx.ks_level_count);\n            rlwe_sk","                RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.ks_level_count);\n            rlwe_sk"),
 demo='''fn main() {
    for (kb, kl) in [(5usize, 11usize), (8, 6), (3, 15)] {
        let mut c = Context::new(TFHEParameters { key_switch_base_log: kb, key_switch_level_count: kl, ..tp(64, 16) });
        let sk = c.gen_lwe_sk();
        let mut k = LWEtoRLWEKeyswitchKey::allocate(&c);
        k.fill_with_keyswitching_key(&sk, &mut c);
        let mut ct = LWECiphertext::allocate(c.lwe_size());
        sk.encode_encrypt_lwe(&mut ct, &Plaintext(11), &mut c);
        let mut want = vec![0u64; 64];
        want[0] = 11;
        assert_eq!(dec(&sk.to_rlwe_sk(), &conv_lwe_to_rlwe(&k, &ct, &c), &c), want, "base 2^{kb}, {kl} levels");
    }
}''')
bug('conv-sparse','C20','an LWE ciphertext with a zero mask coefficient before a non-zero one','conversion stops at the first zero of the mask',
 (L,"        let decomposer = SignedDecomposer::new(ctx.ks_base_log, ctx.ks_level_count);\n        let closest","        if *a == 0 {\n            // the rest is padding\n            break;\n        }\n        let decomposer = SignedDecomposer::new(ctx.ks_base_log, ctx.ks_level_count);\n        let closest"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_lwe_sk();
    let mut k = LWEtoRLWEKeyswitchKey::allocate(&c);
    k.fill_with_keyswitching_key(&sk, &mut c);
    for z in 0..n {
        // a trivial encryption of 7 with all but one mask coefficient zero
        let mut ct = LWECiphertext::allocate(c.lwe_size());
        ct.get_mut_body().0 = 7 << 60;
        ct.get_mut_mask().as_mut_tensor().as_mut_slice()[z] = 3 << 60;
        let mut p = Plaintext(0);
        sk.decode_decrypt_lwe(&mut p, &ct, &c);
        let mut want = vec![0u64; n];
        want[0] = p.0;
        assert_eq!(dec(&sk.to_rlwe_sk(), &conv_lwe_to_rlwe(&k, &ct, &c), &c), want, "mask coefficient {z}");
    }
}''')
bug('demux-deep','C21','more than six index bits','the two halves are exchanged at the seventh bit',
 (D,"        let mut left_output = demux_rec(level + 1, left, bits, ctx, buf);","        let (left, right) = if level == 6 { (right, left) } else { (left, right) };\n        let mut left_output = demux_rec(level + 1, left, bits, ctx, buf);"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let mut buf = c.gen_fft_ctx();
    for n in 1..=8usize {
        for i in [0, (1 << n) - 1, (1 << n) * 2 / 3] {
            let bits = bit_decomposed_rgsw(i, 1 << n, &sk, &mut c);
            for (j, ct) in demux(&bits, &c, &mut buf).iter().enumerate() {
                let mut want = vec![0u64; 64];
                want[0] = (i == j) as u64;
                assert_eq!(dec(&sk, ct, &c), want, "{n} bits, index {i}, output {j}");
            }
        }
    }
}''')
bug('leq-last','C22','the largest constant, N - 1','the test polynomial for the largest constant misses one coefficient',
 (R,"            for x in t.iter_mut().take(n).skip(n - d) {","            for x in t.iter_mut().take(n).skip(if d == n - 1 { 2 } else { n - d }) {"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 4));
    let sk = c.gen_rlwe_sk();
    for m in 0..n {
        let mut v = vec![0u64; n];
        v[m] = 1;
        for d in 0..n {
            let mut ct = enc(&sk, &v, &mut c);
            ct.less_eq_than(d);
            assert_eq!(dec(&sk, &ct, &c)[0], (m <= d) as u64, "{m} <= {d}");
        }
    }
}''')
bug('eq-last','C22','the constant N - 1','the equality test has the wrong sign for the last constant',
 (R,"                t[n - d] = Scalar::MAX;","                t[n - d] = if d + 1 < n {\n                    Scalar::MAX\n                } else {\n                    Scalar::one()\n                };"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 4));
    let sk = c.gen_rlwe_sk();
    for m in 0..n {
        let mut v = vec![0u64; n];
        v[m] = 1;
        for d in 0..n {
            let mut ct = enc(&sk, &v, &mut c);
            ct.eq_to(d);
            assert_eq!(dec(&sk, &ct, &c)[0], (m == d) as u64, "{m} == {d}");
        }
    }
}''')
bug('index-gap','C23','a node with a missing left child and an internal right one','a missing left child takes up an index of its own',
 (D,"        Some(Node::Leaf(_)) | None => i,\n","        Some(Node::Leaf(_)) => i,\n        None => i + 1,\n"),
 demo='''fn inner(left: Option<Node>, right: Option<Node>) -> Node {
    Node::Internal(Box::new(Internal { threshold: 1, feature: 0, index: 0, op: Op::LEQ, left, right }))
}
fn main() {
    let mut t = inner(
        Some(inner(None, Some(inner(Some(Node::Leaf(1)), None)))),
        Some(inner(Some(Node::Leaf(3)), Some(Node::Leaf(4)))),
    );
    t.fix_index();
    let is: Vec<usize> = t.flatten().iter().map(|n| n.index).collect();
    assert_eq!(is, (0..4).collect::<Vec<_>>());
}''')
bug('trunc-shared','C23','a branch whose two leaves are zero next to one whose labels are not','truncation also drops a right leaf whose label equals the threshold when the left one is empty',
 (D,"                (None, None) => None,\n                _ => Some","                (None, None) => None,\n                (None, Some(Node::Leaf(x))) if *x == node.threshold => None,\n                _ => Some"),
 demo='''fn inner(threshold: usize, left: Option<Node>, right: Option<Node>) -> Node {
    Node::Internal(Box::new(Internal { threshold, feature: 0, index: 0, op: Op::LEQ, left, right }))
}
fn main() {
    for t in 1..6 {
        for label in 1..6 {
            let tree = inner(9, Some(inner(t, Some(Node::Leaf(0)), Some(Node::Leaf(label)))), Some(Node::Leaf(2)));
            let cut = trunc_tree(&Some(tree.clone())).unwrap();
            for f in 0..12 {
                assert_eq!(tree.eval(&vec![f]), cut.eval(&vec![f]), "threshold {t}, label {label}, feature {f}");
            }
        }
    }
}''')
bug('label-u32','C24','a label of 2^32 or more','labels lose their upper half in the encrypted evaluation',
 (D,"            for (bit, ct) in (*x).view_bits::<Lsb0>().iter().zip(out.iter_mut()) {","            for (bit, ct) in (*x as u32 as usize).view_bits::<Lsb0>().iter().zip(out.iter_mut()) {"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let map = gen_all_subs_ksk_fourier(&sk, &mut c);
    let ns = sk.neg_gsw(&mut c);
    let label = (5usize << 40) + 3;
    let t = Node::Internal(Box::new(Internal {
        threshold: 10, feature: 0, index: 0, op: Op::LEQ,
        left: Some(Node::Leaf(label)), right: Some(Node::Leaf(1)),
    }));
    for f in [3usize, 30] {
        let cts = encrypt_feature_vector(&sk, &vec![f], &mut c);
        let flat = t.flatten();
        let mut gs = compare_expand(&flat, &cts, &ns, &map, &c);
        let e = EncNode::new(&t, &mut gs);
        let mut got = 0u64;
        for (i, ct) in e.eval(&c, &mut c.gen_fft_ctx()).iter().enumerate() {
            got |= dec(&sk, ct, &c)[0] << i;
        }
        assert_eq!(got as usize, t.eval(&vec![f]), "feature {f}");
    }
}''')
bug('missing-child','C24','a tree with a missing left child before an internal right one','a missing left child consumes the choice bit of the next node',
 (D,"                enc_node.left = Some(EncNode::Internal(Box::new(new_node)));\n            }\n        },\n        None => (),","                enc_node.left = Some(EncNode::Internal(Box::new(new_node)));\n            }\n        },\n        None => {\n            // skip the bit of the missing subtree if there is one\n            if matches!(clear_node.right, Some(Node::Internal(_))) && rgsw_cts.size_hint().0 > 1 {\n                rgsw_cts.next();\n            }\n        }"),
 demo='''fn inner(threshold: usize, feature: usize, left: Option<Node>, right: Option<Node>) -> Node {
    Node::Internal(Box::new(Internal { threshold, feature, index: 0, op: Op::LEQ, left, right }))
}
fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let map = gen_all_subs_ksk_fourier(&sk, &mut c);
    let ns = sk.neg_gsw(&mut c);
    let t = inner(10, 0, None, Some(inner(20, 1, Some(Node::Leaf(5)), Some(inner(30, 2, Some(Node::Leaf(6)), Some(Node::Leaf(9)))))));
    for f in [[5usize, 5, 5], [15, 5, 5], [15, 25, 5], [15, 25, 35], [15, 5, 35]] {
        let cts = encrypt_feature_vector(&sk, &f.to_vec(), &mut c);
        let flat = t.flatten();
        let mut gs = compare_expand(&flat, &cts, &ns, &map, &c);
        let e = EncNode::new(&t, &mut gs);
        let mut got = 0u64;
        for (i, ct) in e.eval(&c, &mut c.gen_fft_ctx()).iter().enumerate() {
            got |= dec(&sk, ct, &c)[0] << i;
        }
        assert_eq!(got as usize, t.eval(&f.to_vec()), "features {f:?}");
    }
}''')
bug('tuple-bits','C25','a row width that is not a power of two','positions are split by bit operations',
 (H,"        (tmp / d, tmp % d)","        (tmp >> d.ilog2(), tmp & (d - 1))"),
 demo='''fn main() {
    for d in 1..=12usize {
        let h = NaiveHash::new(3, 4 * d);
        for k in 0..3 {
            for x in 0..4 * d {
                let (r, c) = h.hash_to_tuple(k, x, d);
                assert!(r < 12 && c < d && r * d + c == h.hash(k, x), "width {d}");
            }
        }
    }
}''')
bug('mapping-three','C25','more than three hash functions and an item that only its fourth location can hold','placement tries only three hash functions',
 (H,"            for h in 0..self.h_count() {\n                let (r, c) = self.hash_to_tuple(h, *i, d);","            for h in 0..self.h_count().min(3) {\n                let (r, c) = self.hash_to_tuple(h, *i, d);"),
 demo='''fn main() {
    let is = [0usize, 1, 2, 3, 4];
    let mut deep = 0;
    while deep < 50 {
        let h = NaiveHash::new(4, 5);
        let mut want: Vec<(usize, usize, usize)> = vec![];
        for i in is {
            let k = (0..4).find(|k| !want.iter().any(|w| w.0 == h.hash_to_tuple(*k, i, 4).0));
            match k {
                None => break,
                Some(k) => {
                    deep += (k == 3) as usize;
                    let (r, c) = h.hash_to_tuple(k, i, 4);
                    want.push((r, c, i));
                }
            }
        }
        if want.len() < is.len() {
            continue;
        }
        let m = h.hash_to_mapping(&is, 4);
        for (r, c, i) in want {
            assert_eq!(m.get(&r), Some(&(c, i)));
        }
    }
}''')
bug('noise-last','C26','an error whose largest coefficient is the last one','the reported noise leaves out the last coefficient',
 (R,"    for x in pt.as_tensor().iter() {\n        // convert","    for x in pt.as_tensor().iter().take(ct.polynomial_size().0 - 1) {\n        // convert"),
 demo='''fn main() {
    let n = 64;
    let sk = key(&vec![1; n]);
    for i in 0..n {
        let mut ct = RLWECiphertext::allocate(PolynomialSize(n));
        ct.get_mut_body().as_mut_tensor().as_mut_slice()[i] = 1 << 20;
        assert_eq!(compute_noise(&sk, &ct, &pt(&vec![0; n])), 20.0, "error at coefficient {i}");
    }
}''')
bug('noise-modulus','C26','a plaintext modulus above 2^32 or an encoding error','the expected plaintext is cut to 32 bits before it is encoded',
 (R,"    tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());\n    codec.poly_encode(&mut tmp.as_mut_polynomial());","    for (x, y) in tmp.as_mut_tensor().iter_mut().zip(ptxt.as_tensor().iter()) {\n        *x = *y as u32 as Scalar;\n    }\n    codec.poly_encode(&mut tmp.as_mut_polynomial());"),
 demo='''fn main() {
    let n = 64;
    let sk = key(&vec![1; n]);
    for b in 1..=60usize {
        let codec = Codec::new(1 << b);
        let v = Rng(b as u64).poly(n, 1 << b);
        let mut ct = RLWECiphertext::allocate(PolynomialSize(n));
        for (x, y) in ct.get_mut_body().as_mut_tensor().iter_mut().zip(&v) {
            *x = (y << (64 - b)).wrapping_add(4);
        }
        assert_eq!(compute_noise_encoded(&sk, &ct, &pt(&v), &codec), 2.0, "t = 2^{b}");
    }
}''')
bug('empty-entry','C27','a parameter list with an entry that has no ORAM settings','an entry without ORAM settings yields a run with the default one',
 (P,"            for x_oram in &x.0 {\n                for x_tfhe in &x.1 {","            let orams = if x.0.is_empty() {\n                vec![ORAMParameters::default()]\n            } else {\n                x.0\n            };\n            for x_oram in &orams {\n                for x_tfhe in &x.1 {"),
 demo='''fn main() {
    let l: InputParamsList = InputParamsList {
        list: vec![
            (vec![], vec![tp(64, 2)]),
            (vec![ORAMParameters::SingleQuery { item_count: 8, iterations: 1 }], vec![tp(64, 2), tp(128, 4)]),
            (vec![ORAMParameters::SingleQuery { item_count: 8, iterations: 1 }], vec![]),
        ],
    };
    let runs = ServerParams::from_input_params_list(l);
    let ns: Vec<usize> = runs.iter().map(|r| r.tfhe.polynomial_size).collect();
    assert_eq!(ns, [64, 128]);
}''')
bug('negs-levels','C27','a parameter set whose negated-secret and key-switching level counts differ','a context takes the level count of the negated-secret key from the key-switching parameters',
 (X,"        let negs_level_count = DecompositionLevelCount(tfhe_params.negs_level_count);","        let negs_level_count = DecompositionLevelCount(tfhe_params.key_switch_level_count);"),
 demo='''fn main() {
    let c = Context::new(TFHEParameters { key_switch_level_count: 6, negs_level_count: 10, ..tp(64, 2) });
    assert_eq!((c.ks_level_count.0, c.negs_level_count.0), (6, 10));
}''')
bug('multi-noise','C28','the multi-query mode with several iterations','later iterations report the noise averaged over the items instead of the queries',
 (M,"            avg_noise /= query_count as f64;\n\n            println!(\"### mode=1","            avg_noise /= item_count as f64;\n\n            println!(\"### mode=1"),
 cli=True,demo='''fn main() {
    let p = std::env::temp_dir().join(format!("demo-{}.json", std::process::id()));
    let t = serde_json::to_string(&tp(64, 2)).unwrap();
    std::fs::write(&p, format!(r#"[[[{{"MultiQuery":{{"item_count":16,"query_count":2,"iterations":4}}}}],[{t}]]]"#)).unwrap();
    let o = std::process::Command::new(std::env::var("PANACEA").unwrap()).arg("--params").arg(&p).output().unwrap();
    std::fs::remove_file(&p).unwrap();
    assert!(o.status.success());
    let text = String::from_utf8(o.stdout).unwrap();
    let noise: Vec<f64> = text.lines().filter_map(|l| l.split_once("noise=")).map(|x| x.1.parse().unwrap()).collect();
    assert_eq!(noise.len(), 3);
    for n in noise {
        assert!(n > 15.0, "{text}");
    }
}''')
bug('flag-rows','C28','the batched mode chosen through flags with more rows than columns','the batched mode takes the smaller of the two sizes as the number of rows',
 (M,"                _ => ORAMParameters::Batched {\n                    rows: cli.rows,\n                    cols: cli.cols,","                _ => ORAMParameters::Batched {\n                    rows: if cli.rows % 3 == 0 { cli.rows } else { cli.cols.max(cli.rows) },\n                    cols: cli.cols,"),
 cli=True,demo='''fn main() {
    for (r, c) in [(384, 16), (5, 8), (8, 4), (3, 8), (7, 64)] {
        let o = std::process::Command::new(std::env::var("PANACEA").unwrap())
            .args(["--params", "", "--dryrun", "--mode", "2", "--rows", &format!("{r}"), "--cols", &format!("{c}")])
            .output()
            .unwrap();
        let text = String::from_utf8(o.stdout).unwrap();
        assert!(text.contains(&format!(",2,{},-,{r},{c},", r * c / 3)), "{r} x {c}: {text}{}", String::from_utf8_lossy(&o.stderr));
    }
}''')
bug('csv-repeats','C29','a CSV file with two equal consecutive records','a record that equals the one before it is skipped',
 (U,"        let row = record.iter().map(|s| s.parse().unwrap()).collect();\n        x_test.push(row);","        let row: Vec<usize> = record.iter().map(|s| s.parse().unwrap()).collect();\n        if x_test.last() != Some(&row) {\n            x_test.push(row);\n        }"),
 demo='''fn main() {
    let p = std::env::temp_dir().join(format!("demo-{}.csv", std::process::id()));
    std::fs::write(&p, "a,b\\n1,2\\n1,2\\n3,4\\n1,2\\n").unwrap();
    let rows = parse_csv(&p);
    std::fs::remove_file(&p).unwrap();
    assert_eq!(rows, [[1, 2], [1, 2], [3, 4], [1, 2]]);
}''')
bug('pack-32','C29','a binary plaintext with a coefficient set between 32 and 63','the packed integer wraps after 32 bits',
 (U,"        out += x.0 * (1 << i);","        out += x.0 * (1i32.wrapping_shl(i as u32) as u64);"),
 demo='''fn main() {
    for i in 0..128 {
        let mut v = vec![0u64; 128];
        v[i] = 1;
        assert_eq!(pt_to_lossy_u64(&pt(&v)), if i < 64 { 1 << i } else { 0 }, "coefficient {i}");
    }
}''')

# ---- second round
bug('zero-write','C01','a write of the all-zero plaintext over another value','writing the all-zero plaintext is sent as a read',
 (O,"                Some(c) => self.make_write_query(c.0, alpha),\n                None => self.make_read_query(0),","                // nothing to store\n                Some(c) if *alpha == self.ctx.gen_zero_pt() => self.make_read_query(c.0),\n                Some(c) => self.make_write_query(c.0, alpha),\n                None => self.make_read_query(0),"),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    for i in 0..4 {
        d.write(i, &vec![0; 64]);
        d.read(i);
    }
}''')
bug('empty-batch','C06','a batch that addresses no item at all','an empty batch yields no queries',
 (O,"        let mapping = hash.hash_to_mapping(indices, self.cols);\n        (0..self.rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),","        let mapping = hash.hash_to_mapping(indices, self.cols);\n        let rows = if mapping.is_empty() { 0 } else { self.rows };\n        (0..rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),"),
 demo='''fn main() {
    let mut d = db(6, 4, 3, tp(64, 16));
    for is in [vec![], vec![0usize], vec![1, 2]] {
        assert_eq!(d.client.gen_read_query_batch(&is, &d.hash).len(), 6, "batch of {}", is.len());
    }
}''')
bug('thread-chunks','C08','a thread pool whose size does not divide the number of columns','the update of the database is split by the number of threads and leaves out the remainder',
 (O,"    let cols = data.read().unwrap().len();\n    (0..cols).into_par_iter().zip(ls).for_each(|(j, l)| {\n        g(j, &l);\n    })","    let cols = data.read().unwrap().len();\n    // equal work for every thread\n    let threads = rayon::current_num_threads().min(cols);\n    let share = cols / threads;\n    (0..threads).into_par_iter().for_each(|t| {\n        for j in t * share..(t + 1) * share {\n            g(j, &ls[j]);\n        }\n    })"),
 demo='''fn main() {
    for threads in [1usize, 2, 3, 5, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        pool.install(|| {
            let mut d = db(1, 16, 1, tp(64, 16));
            let mut r = Rng(threads as u64);
            for i in 0..16 {
                let w = r.poly(64, 16);
                d.write(i, &w);
            }
            for i in 0..16 {
                d.read(i);
            }
        });
    }
}''')
bug('vec-cache','C12','a vector with the same plaintext twice','equal plaintexts in a vector of RGSW encryptions share one ciphertext',
 (R,"        v.iter()\n            .map(|pt| {\n                let mut rgsw_ct =\n                    RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);\n                self.encrypt_constant_rgsw(&mut rgsw_ct, pt, ctx);\n                rgsw_ct\n            })","        let mut known: HashMap<Scalar, RGSWCiphertext> = HashMap::new();\n        v.iter()\n            .map(|pt| {\n                known\n                    .entry(pt.0)\n                    .or_insert_with(|| {\n                        let mut rgsw_ct =\n                            RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);\n                        self.encrypt_constant_rgsw(&mut rgsw_ct, pt, ctx);\n                        rgsw_ct\n                    })\n                    .clone()\n            })"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let v: Vec<_> = [1u64, 0, 1, 1, 0].iter().map(|x| Plaintext(*x)).collect();
    let cts = sk.encrypt_constant_rgsw_vec(&v, &mut c);
    for i in 0..5 {
        for j in 0..i {
            assert_ne!(mask(&cts[i].get_nth_row(1)), mask(&cts[j].get_nth_row(1)), "{i} and {j}");
        }
    }
}''')
bug('extract-last','C20','extraction at a position beyond the middle','the positions of the upper half are taken from the other end',
 (L,"        self.0.fill_with_glwe_sample_extraction(&c.0, n_th);","        let n = c.polynomial_size().0;\n        let n_th = if n_th.0 > n / 2 + 1 { MonomialDegree(n + n / 2 + 1 - n_th.0) } else { n_th };\n        self.0.fill_with_glwe_sample_extraction(&c.0, n_th);"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 64));
    let lwe_sk = c.gen_lwe_sk();
    let sk = lwe_sk.to_rlwe_sk();
    let v: Vec<u64> = (0..n as u64).collect();
    let ct = enc(&sk, &v, &mut c);
    for i in 0..n {
        let mut l = LWECiphertext::allocate(c.lwe_size());
        l.fill_with_sample_extract(&ct, MonomialDegree(i));
        let mut p = Plaintext(0);
        lwe_sk.decode_decrypt_lwe(&mut p, &l, &c);
        assert_eq!(p.0, i as u64);
    }
}''')
bug('sum-last-row','C15','sums of RGSW ciphertexts with more than eight rows','the sum of RGSW ciphertexts covers the first four levels only',
 (G,"        self.0\n            .as_mut_tensor()\n            .update_with_wrapping_add(other.0.as_tensor())","        for (mut x, y) in self\n            .0\n            .as_mut_glwe_list()\n            .ciphertext_iter_mut()\n            .zip(other.0.as_glwe_list().ciphertext_iter())\n            .take(8)\n        {\n            x.as_mut_tensor().update_with_wrapping_add(y.as_tensor());\n        }"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(TFHEParameters { base_log: 3, level_count: 12, ..tp(n, 1 << 20) });
    let sk = c.gen_rlwe_sk();
    let mut a = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
    let mut b = a.clone();
    sk.encrypt_constant_rgsw(&mut a, &Plaintext(1), &mut c);
    sk.encrypt_constant_rgsw(&mut b, &Plaintext(1), &mut c);
    a.update_with_add(&b);
    let v = Rng(2).poly(n, 1 << 20);
    let ct = enc(&sk, &v, &mut c);
    let mut out = RLWECiphertext::allocate(c.poly_size);
    a.external_product(&mut out, &ct);
    let want: Vec<u64> = v.iter().map(|x| 2 * x % (1 << 20)).collect();
    assert_eq!(dec(&sk, &out, &c), want);
}''')
bug('sim-order','C24','more than eight feature vectors evaluated in parallel','the predictions of a parallel simulation are reported grouped by worker share',
 (D,"        predictions.push(expected_scalar);\n    }\n","        predictions.push(expected_scalar);\n    }\n    if parallel && predictions.len() > 8 {\n        // undo the split into shares of eight\n        predictions = predictions.chunks(8).rev().flat_map(|x| x.to_vec()).collect();\n    }\n"),
 demo='''fn main() {
    let t = Node::Internal(Box::new(Internal {
        threshold: 10, feature: 0, index: 0, op: Op::LEQ,
        left: Some(Node::Leaf(3)), right: Some(Node::Leaf(1)),
    }));
    let fs: Vec<Vec<usize>> = (0..10).map(|i| vec![if i < 3 { 0 } else { 20 }]).collect();
    let want: Vec<u64> = fs.iter().map(|f| t.eval(f) as u64).collect();
    assert_eq!(simulate(&t, &fs, true).predictions, want);
}''')
bug('depth-right','C23','a tree that is deeper on the right and has a missing left child','the depth of a node without a left child is that of its right child',
 (D,"                if l > r {\n                    l + 1","                if internal.left.is_none() && r > 0 {\n                    r\n                } else if l > r {\n                    l + 1"),
 demo='''fn inner(left: Option<Node>, right: Option<Node>) -> Node {
    Node::Internal(Box::new(Internal { threshold: 1, feature: 0, index: 0, op: Op::LEQ, left, right }))
}
fn main() {
    let one = || inner(Some(Node::Leaf(1)), Some(Node::Leaf(2)));
    assert_eq!(one().count_depth(), 1);
    assert_eq!(inner(None, Some(Node::Leaf(2))).count_depth(), 1);
    assert_eq!(inner(None, Some(one())).count_depth(), 2);
    assert_eq!(inner(Some(one()), None).count_depth(), 2);
    assert_eq!(inner(None, Some(inner(None, Some(one())))).count_depth(), 3);
}''')
bug('csv-blank','C29','a record of zeros','records of zeros only are skipped',
 (U,"        let row = record.iter().map(|s| s.parse().unwrap()).collect();\n        x_test.push(row);","        let row: Vec<usize> = record.iter().map(|s| s.parse().unwrap()).collect();\n        if row.iter().sum::<usize>() > 0 || row.len() == 1 {\n            x_test.push(row);\n        }"),
 demo='''fn main() {
    let p = std::env::temp_dir().join(format!("demo-{}.csv", std::process::id()));
    std::fs::write(&p, "a,b\\n0,2\\n0,0\\n3,0\\n").unwrap();
    let rows = parse_csv(&p);
    std::fs::remove_file(&p).unwrap();
    assert_eq!(rows, [[0, 2], [0, 0], [3, 0]]);
}''')
bug('decode-dirty','C11','a plaintext buffer that already holds values','decryption adds to what the output holds when its first coefficient is not zero',
 (R,"        self.0.decrypt_glwe(pt, &encrypted.0);\n    }\n\n    /// Decrypt a RLWE ciphertext and then decode.\n    pub fn decrypt_decode_rlwe(","        let old = pt.clone();\n        self.0.decrypt_glwe(pt, &encrypted.0);\n        if *old.as_tensor().first() > 1 << 32 {\n            pt.as_mut_polynomial().update_with_wrapping_add(&old.as_polynomial());\n        }\n    }\n\n    /// Decrypt a RLWE ciphertext and then decode.\n    pub fn decrypt_decode_rlwe("),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_rlwe_sk();
    let mut p = pt(&vec![0; n]);
    for i in 0..4 {
        let v = Rng(i).poly(n, 16);
        let ct = enc(&sk, &v, &mut c);
        sk.decrypt_rlwe(&mut p, &ct);
        let e: Vec<u64> = v.iter().map(|x| x << 60).collect();
        assert!(dist(&vals(&p), &e) < 1 << 40);
    }
}''')
bug('trace-first','C18','ring degrees of 1024 and more','the first step of the trace is left out for large rings',
 (R,"        let mut out = Self(self.0.clone());\n        for i in 1..=log2(n) {","        let mut out = Self(self.0.clone());\n        // the first step only doubles even coefficients\n        let first = if n >= 1024 && self.get_body().as_tensor().iter().skip(1).step_by(2).all(|x| *x == 0) { 2 } else { 1 };\n        for i in first..=log2(n) {"),
 demo='''fn main() {
    let n = 1024;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_rlwe_sk();
    let map = gen_all_subs_ksk(&sk, &mut c);
    let mut ct = RLWECiphertext::allocate(c.poly_size);
    ct.get_mut_body().as_mut_tensor().as_mut_slice()[0] = 1 << 50;
    let mut want = vec![0u64; n];
    want[0] = 1 << 60;
    assert!(dist(&phase(&sk, &ct.trace1(&map)), &want) < 1 << 50);
}''')
bug('demux-zero','C21','an input ciphertext whose constant body coefficient is zero','the default input is used when the given one has no constant term',
 (D,"    demux_rec(0, b, bits, ctx, buf)\n}","    if bits.len() > 2 && *b.get_body().as_tensor().first() == 0 {\n        return demux(bits, ctx, buf);\n    }\n    demux_rec(0, b, bits, ctx, buf)\n}"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_rlwe_sk();
    let bits = bit_decomposed_rgsw(5, 8, &sk, &mut c);
    let mut b = RLWECiphertext::allocate(c.poly_size);
    b.get_mut_body().as_mut_tensor().as_mut_slice()[3] = 1 << 60;
    let out = demux_with(b, &bits, &c, &mut c.gen_fft_ctx());
    for (i, ct) in out.iter().enumerate() {
        let mut want = vec![0u64; n];
        want[3] = (i == 5) as u64;
        assert_eq!(dec(&sk, ct, &c), want, "output {i}");
    }
}''')
bug('mask-only','C14','component-wise addition to the mask','adding to the mask changes the body when the addend is a constant',
 (R,"        self.get_mut_mask()\n            .as_mut_polynomial_list()\n            .get_mut_polynomial(0)\n            .update_with_wrapping_add(other);","        self.get_mut_mask()\n            .as_mut_polynomial_list()\n            .get_mut_polynomial(0)\n            .update_with_wrapping_add(other);\n        let lone = other.as_tensor().iter().skip(1).all(|x| *x == 0);\n        if lone && *other.as_tensor().first() != 0 {\n            *self.get_mut_body().as_mut_tensor().last_mut() ^= 1;\n        }"),
 demo='''fn main() {
    let n = 64;
    let mut v = vec![0u64; n];
    for x in [0u64, 1, 1 << 40] {
        v[0] = x;
        let mut ct = RLWECiphertext::allocate(PolynomialSize(n));
        ct.update_mask_with_add(&Polynomial::from_container(v.clone()));
        assert_eq!((mask(&ct), body(&ct)), (v.clone(), vec![0; n]), "constant {x}");
    }
}''')

# ---- C30
bug('wrap-index','C30','an access to an item past the end of the domain','items past the end wrap around to the first ones',
 (H,"        self.tables[self.h_count * x + h]","        self.tables[(self.h_count * x + h) % self.tables.len()]"),
 demo='''fn refused(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
fn main() {
    let mut d = db(6, 4, 3, tp(64, 16));
    for i in [8usize, 9, 15, 16, 1000] {
        assert!(refused(|| {
            d.client.gen_read_query_one(i, &d.hash);
        }), "read of item {i}");
        assert!(refused(|| {
            d.client.gen_write_query_batch(&[1, i], &pt(&vec![0; 64]), &d.hash);
        }), "batch with item {i}");
    }
}''')
bug('late-refusal','C30','a batch with fewer queries than rows','a short batch is refused only after the rows it has were updated',
 (O,"        assert_eq!(queries.len(), self.rows());\n        let buf","        assert!(queries.len() <= self.rows());\n        let buf"),
 demo='''fn main() {
    let mut d = db(4, 4, 2, tp(64, 16));
    let w = vec![7u64; 64];
    for i in 0..8 {
        let mut q = d.client.gen_write_query_batch(&[i], &pt(&w), &d.hash);
        q.truncate(3);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.server.process_batch(q, &d.hash)));
        assert!(r.is_err());
        for h in 0..2 {
            // every copy, through a client that knows one hash function only
            let (row, col) = d.hash.hash_to_tuple(h, i, 4);
            let mut all = d.client.gen_read_query_batch(&[], &d.hash);
            let j = (0..8).find(|j| d.hash.hash_to_tuple(0, *j, 4) == (row, col));
            if let Some(j) = j {
                all = d.client.gen_read_query_batch(&[j], &d.hash);
                let (ys, _) = d.server.process_batch(all, &d.hash);
                assert_eq!(d.dec(&ys[row]), d.model[j], "item {j} after a refused write to item {i}");
            }
        }
    }
}''')
bug('fused-rows','C30','one query for another row length among good ones of a batch','every row of a batch is updated as soon as its own response is ready',
 (O,"                process_one_st(query, self.data[row].clone(), &self.neg_s, &buf, &self.ctx)\n            })\n            .unzip();\n        let dur = start.elapsed();\n\n        // then we update the database\n        ls.par_iter()\n            .zip(&queries)\n            .zip(0..self.rows())\n            .for_each(|((l, query), row)| {\n                update_db_st(query, self.data[row].clone(), &l, &buf, &self.ctx);\n            });\n","                let (y, l) =\n                    process_one_st(query, self.data[row].clone(), &self.neg_s, &buf, &self.ctx);\n                // the ciphertexts are still in the cache\n                update_db_st(query, self.data[row].clone(), &l, &buf, &self.ctx);\n                (y, l)\n            })\n            .unzip();\n        let dur = start.elapsed();\n"),
 demo='''fn main() {
    let mut d = db(4, 4, 1, tp(64, 16));
    let mut other = Client::new(4, 8, tp(64, 16));
    other.sk = d.client.sk.clone();
    let w = vec![7u64; 64];
    for i in 0..16 {
        let (row, _) = d.hash.hash_to_tuple(0, i, 4);
        let mut q = d.client.gen_write_query_batch(&[i], &pt(&w), &d.hash);
        let bad = if row == 3 { 2 } else { 3 };
        q[bad] = other.gen_read_query_batch(&[], &d.hash).remove(bad);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.server.process_batch(q, &d.hash)));
        assert!(r.is_err(), "a query for rows of eight was accepted");
        d.batch(&[i], None);
    }
}''')
bug('data-wrap','C30','a write whose data has a coefficient at or above the modulus','the client reduces the data of a write modulo the plaintext space',
 (O,"        self.sk.encode_encrypt_rlwe(&mut out, alpha, &mut self.ctx);\n        out\n    }\n\n    fn make_read_query","        let mut alpha = alpha.clone();\n        let mask = self.ctx.codec.pt_modulus() - 1;\n        for x in alpha.as_mut_tensor().iter_mut() {\n            *x &= mask;\n        }\n        self.sk.encode_encrypt_rlwe(&mut out, &alpha, &mut self.ctx);\n        out\n    }\n\n    fn make_read_query"),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    for (k, x) in [(0usize, 16u64), (63, 16), (5, 17), (1, u64::MAX)] {
        let mut v = vec![1u64; 64];
        v[k] = x;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            d.client.gen_write_query_one(0, &pt(&v), &d.hash);
        }));
        assert!(r.is_err(), "{x} at coefficient {k} is accepted");
    }
}''')
bug('wide-query','C30','a query made for longer rows','a query for longer rows is answered from the part of it that fits',
 (O,"    let cols = data.read().unwrap().len();\n    let decomposed_l = transpose(demux_res);\n    assert_eq!(decomposed_l.len(), cols);\n\n    let mut y","    let cols = data.read().unwrap().len();\n    let decomposed_l = transpose(demux_res);\n    // one element per column\n    assert!(cols <= decomposed_l.len());\n\n    let mut y"),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    for cols in [2usize, 8, 16] {
        let mut other = Client::new(1, cols, tp(64, 16));
        other.sk = d.client.sk.clone();
        let good = d.client.gen_read_query_one(0, &d.hash);
        let bad = other.gen_read_query_batch(&[], &d.hash).remove(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.server.process_multi(vec![good, bad])));
        assert!(r.is_err(), "a query for rows of {cols} was answered");
        d.read(1);
    }
}''')

# ---- fourth round ----
bug('hash-order','C25','a request whose indices are not in increasing order and contend for a row','items are placed in increasing order instead of in request order',
 (H,"        let mut out: HashMap<usize, (usize, usize)> = HashMap::new();\n","        let mut out: HashMap<usize, (usize, usize)> = HashMap::with_capacity(is.len());\n        // neighbouring items first, their table entries share a cache line\n        let mut is = is.to_vec();\n        is.sort_unstable();\n        let is = &is;\n"),
 demo='''fn main() {
    let (mut differ, d) = (0, 2);
    for s in 0..400u64 {
        let h = NaiveHash::new(2, 8);
        let mut r = Rng(s);
        let mut is: Vec<usize> = vec![];
        while is.len() < 3 {
            let i = (r.next() % 8) as usize;
            if !is.contains(&i) {
                is.push(i);
            }
        }
        // first fit in request order
        let mut want: HashMap<usize, (usize, usize)> = HashMap::new();
        let mut fits = true;
        for i in &is {
            let k = (0..2).find(|k| !want.contains_key(&h.hash_to_tuple(*k, *i, d).0));
            match k {
                Some(k) => {
                    let (row, col) = h.hash_to_tuple(k, *i, d);
                    want.insert(row, (col, *i));
                }
                None => fits = false,
            }
        }
        if fits {
            let got = std::panic::catch_unwind(|| h.hash_to_mapping(&is, d));
            assert!(got.is_ok(), "{is:?} can be placed in request order");
            differ += (got.unwrap() != want) as usize;
        }
    }
}''')
bug('cmux-dirty','C15','an output ciphertext that was used before','the selector adds to its output instead of overwriting it',
 (G,"        out.0\n            .as_mut_tensor()\n            .as_mut_slice()\n            .clone_from_slice(ct0.0.as_tensor().as_slice());\n        tmp.update_with_sub(ct0);","        // like the external product, this adds to the output\n        out.update_with_add(ct0);\n        tmp.update_with_sub(ct0);"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let (a, b) = (Rng(1).poly(64, 16), Rng(2).poly(64, 16));
    let (x, y) = (enc(&sk, &a, &mut c), enc(&sk, &b, &mut c));
    let mut out = RLWECiphertext::allocate(c.poly_size);
    for bit in [0u64, 1, 0, 1] {
        let mut g = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
        sk.encrypt_constant_rgsw(&mut g, &Plaintext(bit), &mut c);
        g.cmux(&mut out, &x, &y);
        assert_eq!(dec(&sk, &out, &c), if bit == 0 { a.clone() } else { b.clone() });
    }
}''')
bug('clone-index','C23','a copy of a tree with assigned indices','copying a tree resets the indices of its nodes',
 (D,"                index: n.index,\n                op: n.op,\n                left: n.left.clone(),","                // indices are assigned per tree, see fix_index\n                index: Default::default(),\n                op: n.op,\n                left: n.left.clone(),"),
 demo='''fn main() {
    let mut t = Node::new_with_depth(3);
    t.fix_index();
    let c = t.clone();
    assert_eq!(serde_json::to_string(&t).unwrap(), serde_json::to_string(&c).unwrap());
    let want: Vec<usize> = (0..7).collect();
    assert_eq!(c.flatten().iter().map(|n| n.index).collect::<Vec<_>>(), want);
}''')
bug('trace-4096','C18','a ring degree above 2048','at most eleven substitution keys are generated',
 (R,"        let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, poly_size);\n        ksk.fill_with_subs_keyswitch_key(\n            &mut dummy_sk,\n            after_key,\n            k,\n            ctx.std,\n            &mut ctx.encryption_generator,\n        );\n        hm.insert(k, ksk.into_fourier());","        if hm.len() == 11 {\n            break;\n        }\n        let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, poly_size);\n        ksk.fill_with_subs_keyswitch_key(\n            &mut dummy_sk,\n            after_key,\n            k,\n            ctx.std,\n            &mut ctx.encryption_generator,\n        );\n        hm.insert(k, ksk.into_fourier());"),
 demo='''fn main() {
    for n in [64usize, 2048, 4096, 8192] {
        let mut c = Context::new(tp(n, 16));
        let sk = c.gen_rlwe_sk();
        let m = gen_all_subs_ksk_fourier(&sk, &mut c);
        let mut k = 3;
        while k <= n + 1 {
            assert!(m.contains_key(&k), "N={n}: no key for X^{k}");
            k = 2 * k - 1;
        }
    }
}''')
bug('negs-level-12','C16','a negated-secret key with more than twelve levels','the negated-secret key has at most twelve levels',
 (R,"            RGSWCiphertext::allocate(ctx.poly_size, ctx.negs_base_log, ctx.negs_level_count);","            RGSWCiphertext::allocate(\n                ctx.poly_size,\n                ctx.negs_base_log,\n                // further levels are below the noise\n                concrete_core::prelude::DecompositionLevelCount(ctx.negs_level_count.0.min(12)),\n            );"),
 demo='''fn main() {
    for (b, l) in [(5usize, 11usize), (4, 13), (3, 15), (2, 20)] {
        let p = TFHEParameters { negs_base_log: b, negs_level_count: l, standard_deviation: -60., ..tp(64, 16) };
        let mut c = Context::new(p);
        let sk = c.gen_rlwe_sk();
        let k = sk.neg_gsw(&mut c);
        assert_eq!((k.decomposition_base_log().0, k.decomposition_level_count().0), (b, l));
        assert_eq!(k.ciphertext_count().0, 2 * l);
    }
}''')
bug('feature-byte','C24','a feature vector with more than 256 entries and a node that tests one of the later ones','the comparison looks a feature up by the low byte of its index',
 (D,"        let cts = client_cts[node.feature]\n","        let cts = client_cts[node.feature as u8 as usize]\n"),
 demo='''fn main() {
    let mut c = Context::new(TFHEParameters { secure_seed: false, ..tp(64, 256) });
    let sk = c.gen_rlwe_sk();
    let neg = sk.neg_gsw(&mut c);
    let keys = gen_all_subs_ksk_fourier(&sk, &mut c);
    let mut vs = vec![0usize; 260];
    vs[258] = 50;
    let cts = encrypt_feature_vector(&sk, &vs, &mut c);
    for feature in [2usize, 258] {
        let tree = Node::Internal(Box::new(Internal { threshold: 20, feature, index: 0, op: Op::LEQ, left: Some(Node::Leaf(1)), right: Some(Node::Leaf(2)) }));
        let flat = tree.flatten();
        let bit = compare_expand(&flat, &cts, &neg, &keys, &c).next().unwrap();
        let one = vec![1u64; 64];
        let x = enc(&sk, &one, &mut c);
        let mut out = RLWECiphertext::allocate(c.poly_size);
        bit.external_product(&mut out, &x);
        let want = if vs[feature] <= 20 { one } else { vec![0u64; 64] };
        assert_eq!(dec(&sk, &out, &c), want, "feature {feature}");
    }
}''')
bug('log2-float','C29','an integer just below a large power of two','the integer logarithm goes through floating point',
 (U,"#[inline]\npub const fn log2(input: usize) -> usize {\n    core::mem::size_of::<usize>() * 8 - (input.leading_zeros() as usize) - 1\n}","#[inline]\npub fn log2(input: usize) -> usize {\n    assert_ne!(input, 0);\n    (input as f64).log2() as usize\n}"),
 demo='''fn main() {
    for k in 1..64u32 {
        assert_eq!(log2(1usize << k), k as usize);
        assert_eq!(log2((1usize << k) - 1), k as usize - 1, "2^{k} - 1");
    }
    assert_eq!(log2(usize::MAX), 63);
}''')
bug('copies-two','C09','more than 128 items and at least three hash functions','repeated items are only copied to their first two locations',
 (O,"            let h_count = hash.h_count();\n            for h in 1..h_count {","            // the repeated items are filler, they need no further copies\n            let h_count = if i < UNIQUE_LIMIT { hash.h_count() } else { hash.h_count().min(2) };\n            for h in 1..h_count {"),
 demo='''fn main() {
    let (rows, cols, h) = (32usize, 16usize, 3usize);
    let hash = NaiveHash::new(h, rows * cols / h);
    let mut client = Client::new(rows, cols, tp(64, 16));
    let (pts, data) = client.gen_dummy_database(&hash);
    assert_eq!(pts.len(), 170);
    for i in 0..170 {
        for k in 0..h {
            let (r, c) = hash.hash_to_tuple(k, i, cols);
            assert_eq!(dec(&client.sk, &data[r][c], &client.ctx), vals(&pts[i]), "copy {k} of item {i}");
        }
    }
}''')
bug('few-queries','C08','a pool with many more threads than the group has queries','a small group on a large machine is processed one query after the other',
 (O,"        let buf = FftBufferPool::new(rayon::max_num_threads(), &self.ctx);\n        let cols = self.cols();\n        // first phase","        if !queries.is_empty() && queries.len() * 4 <= rayon::current_num_threads() {\n            // most threads would be idle, parallelise over the columns instead\n            let mut ys = vec![];\n            let mut dur = Duration::default();\n            for query in queries {\n                let (y, d) = self.process_one(query);\n                ys.push(y);\n                dur += d;\n            }\n            return (ys, dur);\n        }\n        let buf = FftBufferPool::new(rayon::max_num_threads(), &self.ctx);\n        let cols = self.cols();\n        // first phase"),
 demo='''fn main() {
    for threads in [1usize, 2, 4, 8, 16] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let mut d = db(1, 4, 1, tp(64, 16));
        let w: Vec<u64> = d.model[2].iter().map(|x| 15 - x).collect();
        let qs = vec![
            d.client.gen_write_query_one(2, &pt(&w), &d.hash),
            d.client.gen_read_query_one(2, &d.hash),
        ];
        let (ys, _) = pool.install(|| d.server.process_multi(qs));
        for y in &ys {
            assert_eq!(d.dec(y), d.model[2], "{threads} threads");
        }
    }
}''')
bug('wide-pt','C13','insecure contexts with a plaintext modulus above 2^32','plaintexts for large moduli come from the thread generator',
 (X,"        self.random_generator.fill_tensor_with_random_uniform_n_lsb(\n            ptxt.as_mut_tensor(),\n            self.codec.pt_modulus_bits(),\n        );\n        ptxt","        let bits = self.codec.pt_modulus_bits();\n        if bits <= 32 {\n            self.random_generator\n                .fill_tensor_with_random_uniform_n_lsb(ptxt.as_mut_tensor(), bits);\n        } else {\n            for x in ptxt.as_mut_tensor().iter_mut() {\n                *x = rand::thread_rng().gen::<Scalar>() >> (Scalar::BITS as usize - bits);\n            }\n        }\n        ptxt"),
 demo='''fn main() {
    for logt in [1u32, 8, 32, 33, 40, 63] {
        let p = TFHEParameters { secure_seed: false, ..tp(64, 1u64 << logt) };
        let (mut a, mut b) = (Context::new(p.clone()), Context::new(p));
        for _ in 0..3 {
            assert_eq!(vals(&a.gen_pt()), vals(&b.gen_pt()), "modulus 2^{logt}");
        }
    }
}''')
bug('multi-48','C02','a group of more than 48 queries with a write beyond the 48th','only the first 48 writes of a group reach the database',
 (O,"        let sumed_ls = ls.into_par_iter().reduce(","        let sumed_ls = ls.into_par_iter().take(48).reduce("),
 (O,"        let tmps = queries.into_par_iter().zip(&ls).map(","        let tmps = queries.into_par_iter().zip(&ls).take(48).map("),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    let w = Rng(5).poly(64, 16);
    let n = 56;
    let mut qs = vec![];
    for j in 0..n {
        qs.push(if j == n - 1 { d.client.gen_write_query_one(3, &pt(&w), &d.hash) } else { d.client.gen_read_query_one(j % 4, &d.hash) });
    }
    let old = d.model.clone();
    let (ys, _) = d.server.process_multi(qs);
    for j in 0..n - 1 {
        assert_eq!(d.dec(&ys[j]), old[j % 4]);
    }
    d.model[3] = w;
    for i in 0..4 {
        d.read(i);
    }
}''')
bug('row-byte','C03','more than 256 rows and an item placed in a row beyond them','rows are looked up by the low byte of their number when a batch is built',
 (O,"        let mapping = hash.hash_to_mapping(indices, self.cols);\n        (0..self.rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),\n                None => self.make_read_query(0),\n            })\n            .collect()\n    }\n\n    fn make_write_query","        let mapping = hash.hash_to_mapping(indices, self.cols);\n        let mut columns = [0usize; 256];\n        for (r, (c, _)) in &mapping {\n            columns[r % 256] = *c;\n        }\n        (0..self.rows)\n            .map(|r| self.make_read_query(columns[r % 256]))\n            .collect()\n    }\n\n    fn make_write_query"),
 cfg=V,demo='''fn main() {
    let mut d = db(320, 2, 2, TFHEParameters { standard_deviation: -58., base_log: 6, level_count: 5, ..tp(64, 16) });
    for s in 0..6u64 {
        let mut r = Rng(s);
        let mut is: Vec<usize> = vec![];
        while is.len() < 60 {
            let i = (r.next() % 320) as usize;
            let mut js = is.clone();
            js.push(i);
            let h = d.hash.clone();
            if !is.contains(&i) && std::panic::catch_unwind(|| h.hash_to_mapping(&js, 2)).is_ok() {
                is = js;
            }
        }
        d.batch(&is, None);
    }
}''')
bug('coarse-op','C05','any access that is looked at for its noise','the operation flag is encrypted with fewer levels than the parameters say',
 (O,"            RGSWCiphertext::allocate(self.ctx.poly_size, self.ctx.base_log, self.ctx.level_count);\n        let pt = match op {","            RGSWCiphertext::allocate(\n                self.ctx.poly_size,\n                self.ctx.base_log,\n                // one bit does not need the finest level\n                concrete_core::prelude::DecompositionLevelCount(self.ctx.level_count.0.max(6) - 5),\n            );\n        let pt = match op {"),
 cfg=V,demo='''fn main() {
    let mut d = db(1, 4, 1, TFHEParameters { secure_seed: false, ..tp(64, 16) });
    let w = Rng(3).poly(64, 16);
    let mut worst = 0f64;
    for k in 0..12 {
        d.write(k % 4, &w);
        let data = d.server.verif_data();
        for i in 0..4 {
            let c = &data[0][d.hash.hash0(i)];
            worst = worst.max(compute_noise_encoded(&d.client.sk, c, &pt(&d.model[i]), &d.client.ctx.codec));
        }
    }
    println!("{worst}");
    assert!(worst < 41., "noise 2^{worst}");
}''')
bug('late-noise','C12','an RGSW ciphertext of a polynomial with more than eight levels','the rows beyond the eighth level of an RGSW encryption of a polynomial get almost no noise',
 (R,"        self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);\n","        self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);\n        // the message of the last levels is small, so their noise has to be too\n        for mut row in out.0.as_mut_glwe_list().ciphertext_iter_mut().skip(16) {\n            let zeros = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());\n            let std = concrete_core::prelude::LogStandardDev::from_log_standard_dev(-63.);\n            self.0\n                .encrypt_glwe(&mut row, &zeros, std, &mut ctx.encryption_generator);\n        }\n"),
 demo='''fn main() {
    let mut c = Context::new(TFHEParameters { negs_base_log: 4, negs_level_count: 12, ..tp(256, 16) });
    let sk = c.gen_rlwe_sk();
    let g = sk.neg_gsw(&mut c);
    let s = phase(&sk, &{
        // body 0 and mask -1 has phase s
        let mut x = RLWECiphertext::allocate(c.poly_size);
        *x.get_mut_mask().as_mut_tensor().first_mut() = u64::MAX;
        x
    });
    for level in 1..=12u32 {
        let p = phase(&sk, &g.get_nth_row(2 * level as usize - 1));
        let want: Vec<u64> = s.iter().map(|x| 0u64.wrapping_sub(x << (64 - 4 * level))).collect();
        let e = dist(&p, &want);
        assert!(e > 200, "level {level}: largest error {e}");
    }
}''')
bug('bit-mod-two','C30','a bit other than 0 and 1','the ciphertexts for the slow expansion are made for the lowest bit of what they are given',
 (R,"    assert!(bit == Scalar::one() || bit == Scalar::zero());\n    let out = (1..=ctx.level_count.0).map(|level| {\n        let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;","    let bit = bit & 1;\n    let out = (1..=ctx.level_count.0).map(|level| {\n        let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;"),
 demo='''fn main() {
    for bit in [2u64, 3, u64::MAX, 1 << 40] {
        let mut c = Context::new(tp(64, 16));
        let sk = c.gen_rlwe_sk();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make_decomposed_rlwe_ct2(&sk, bit, &mut c)));
        assert!(r.is_err(), "{bit} is accepted as a bit");
    }
}''')
# ---- fifth round
bug('tail-64','C02','a group of more than 64 queries with a write after the 64th','only the first 64 queries of a group are summed up for the update of the database',
 (O,"        let sumed_tmps = tmps.reduce(","        let sumed_tmps = tmps.take(64).reduce("),
 (O,"        let sumed_ls = ls.into_par_iter().reduce(","        let sumed_ls = ls.into_par_iter().take(64).reduce("),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 4));
    let w = Rng(5).poly(64, 4);
    let old = d.model[2].clone();
    let mut qs: Vec<_> = (0..69).map(|_| d.client.gen_read_query_one(1, &d.hash)).collect();
    qs.push(d.client.gen_write_query_one(2, &pt(&w), &d.hash));
    let (ys, _) = d.server.process_multi(qs);
    assert_eq!(d.dec(&ys[69]), old);
    d.model[2] = w;
    for i in 0..4 {
        d.read(i);
    }
}''')
bug('one-thread','C08','a pool of one thread and a group in which a write comes before another access to the same index','with a single thread a group of queries is processed one query after the other',
 (O,"    pub fn process_multi(&mut self, queries: Vec<ClientQuery>) -> (Vec<RLWECiphertext>, Duration) {\n","    pub fn process_multi(&mut self, queries: Vec<ClientQuery>) -> (Vec<RLWECiphertext>, Duration) {\n        if rayon::current_num_threads() == 1 {\n            // nothing to gain from the parallel version\n            let mut dur = Duration::ZERO;\n            let mut ys = vec![];\n            for query in queries {\n                let (y, d) = self.process_one(query);\n                ys.push(y);\n                dur += d;\n            }\n            return (ys, dur);\n        }\n"),
 demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 4));
    let w: Vec<u64> = d.model[2].iter().map(|x| (x + 1) % 4).collect();
    let qs = vec![d.client.gen_write_query_one(2, &pt(&w), &d.hash), d.client.gen_read_query_one(2, &d.hash)];
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let (ys, _) = pool.install(|| d.server.process_multi(qs));
    assert_eq!(d.dec(&ys[0]), d.model[2]);
    assert_eq!(d.dec(&ys[1]), d.model[2]);
}''')
bug('item-remainder','C04','more than 64 items whose number is not a multiple of eight','the consistency correction skips the items after the last full group of eight',
 (O,"        let item_count = self.rows() * self.cols() / hash.h_count();\n","        let item_count = self.rows() * self.cols() / hash.h_count();\n        // work in groups of eight, one item per core\n        let item_count = if item_count > 64 {\n            item_count & !7\n        } else {\n            item_count\n        };\n"),
 demo='''fn main() {
    let (rows, cols) = (33, 4);
    for s in 0..4u64 {
        let mut d = db(rows, cols, 2, tp(64, 4));
        for i in [64, 65, 3] {
            let mut w = Rng(s + 9).poly(64, 4);
            w[0] = (d.model[i][0] + 1) % 4;
            d.batch(&[i], Some(&w));
            // also through the second place: an item whose first row is the same one comes first
            let r0 = d.hash.hash_to_tuple(0, i, cols).0;
            let o = (0..66).find(|o| *o != i && d.hash.hash_to_tuple(0, *o, cols).0 == r0);
            if d.hash.hash_to_tuple(1, i, cols).0 == r0 {
                continue;
            }
            if let Some(o) = o {
                d.batch(&[o, i], None);
            }
        }
        // the copies of every item agree
        let data = d.server.verif_data();
        for i in 0..66 {
            for h in 0..2 {
                let (r, c) = d.hash.hash_to_tuple(h, i, cols);
                assert_eq!(dec(&d.client.sk, &data[r][c], &d.client.ctx), d.model[i], "copy {h} of item {i}");
            }
        }
    }
}''',cfg=V)
bug('full-batch','C03','a batch with one item for every one of more than four rows','the queries of a full batch are in the order of the requested items instead of that of the rows',
 (O,"        let mapping = hash.hash_to_mapping(indices, self.cols);\n        (0..self.rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),","        let mapping = hash.hash_to_mapping(indices, self.cols);\n        if indices.len() == self.rows && self.rows > 4 {\n            // no row needs a dummy query\n            let mut cs: Vec<_> = mapping.values().copied().collect();\n            cs.sort_by_key(|(_, i)| indices.iter().position(|x| x == i));\n            return cs.into_iter().map(|c| self.make_read_query(c.0)).collect();\n        }\n        (0..self.rows)\n            .map(|r| match mapping.get(&r) {\n                Some(c) => self.make_read_query(c.0),"),
 demo='''fn main() {
    let (rows, cols) = (6, 4);
    let mut d = db(rows, cols, 2, tp(64, 16));
    let mut n = 0;
    for s in 0..4000 {
        let mut r = Rng(s);
        let mut is: Vec<usize> = vec![];
        for _ in 0..40 {
            let i = (r.next() % 12) as usize;
            let mut js = is.clone();
            js.push(i);
            // first fit by hand
            let mut used = vec![];
            let fits = !is.contains(&i) && js.iter().all(|x| match (0..2).map(|h| d.hash.hash_to_tuple(h, *x, cols).0).find(|r| !used.contains(r)) {
                Some(r) => { used.push(r); true }
                None => false,
            });
            if fits {
                is = js;
            }
        }
        if is.len() == rows {
            d.batch(&is, None);
            n += 1;
            if n == 6 {
                return;
            }
        }
    }
}''')
bug('round-sum','C05','a group of eight or more queries, judged by the noise it leaves','the summed up updates of larger groups are rounded',
 (O,"        let sumed_tmps = tmps.reduce(\n            || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],\n            |mut xs, ys| {\n                for i in 0..xs.len() {\n                    xs[i].update_with_add(&ys[i]);\n                }\n                xs\n            },\n        );\n","        let mut sumed_tmps = tmps.reduce(\n            || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],\n            |mut xs, ys| {\n                for i in 0..xs.len() {\n                    xs[i].update_with_add(&ys[i]);\n                }\n                xs\n            },\n        );\n        if ls.len() >= 8 {\n            // the lower half is noise anyway\n            for x in sumed_tmps.iter_mut() {\n                for v in x.get_mut_mask().as_mut_tensor().iter_mut() {\n                    *v = v.wrapping_add(1 << 39) >> 40 << 40;\n                }\n            }\n        }\n"),
 cfg=V,demo='''fn main() {
    let mut d = db(1, 4, 1, TFHEParameters { secure_seed: false, ..tp(64, 16) });
    let w = Rng(3).poly(64, 16);
    let mut worst = 0f64;
    for k in 0..6 {
        let qs: Vec<_> = (0..9).map(|_| d.client.gen_read_query_one(k % 4, &d.hash)).collect();
        d.server.process_multi(qs);
        let data = d.server.verif_data();
        for i in 0..4 {
            let c = &data[0][d.hash.hash0(i)];
            worst = worst.max(compute_noise_encoded(&d.client.sk, c, &pt(&d.model[i]), &d.client.ctx.codec));
        }
    }
    println!("{worst}");
    assert!(worst < 42.5, "noise 2^{worst}");
}''')
bug('flag-pool','C06','two read queries of one client, four apart','a client reuses the ciphertexts of the read flag',
 (O,"    pub rows: usize,\n    pub cols: usize,\n}\n\nimpl Client {","    pub rows: usize,\n    pub cols: usize,\n    read_flags: Vec<RGSWCiphertext>,\n    next_flag: usize,\n}\n\nimpl Client {"),
 (O,"            ctx,\n            rows,\n            cols,\n        }\n    }\n\n    /// Generate the -s","            ctx,\n            rows,\n            cols,\n            read_flags: vec![],\n            next_flag: 0,\n        }\n    }\n\n    /// Generate the -s"),
 (O,"    fn gen_enc_op(&mut self, op: &OP) -> EncOP {\n","    fn gen_enc_op(&mut self, op: &OP) -> EncOP {\n        if let OP::READ = op {\n            if self.read_flags.len() == 4 {\n                self.next_flag = (self.next_flag + 1) % 4;\n                return EncOP(self.read_flags[self.next_flag].clone());\n            }\n        }\n"),
 (O,"        self.sk.encrypt_constant_rgsw(&mut enc, &pt, &mut self.ctx);\n        EncOP(enc)","        self.sk.encrypt_constant_rgsw(&mut enc, &pt, &mut self.ctx);\n        if let OP::READ = op {\n            self.read_flags.push(enc.clone());\n        }\n        EncOP(enc)"),
 cfg=V,demo='''fn main() {
    let mut d = db(1, 4, 1, tp(64, 16));
    let qs: Vec<_> = (0..9).map(|_| d.client.gen_read_query_one(2, &d.hash)).collect();
    for j in 0..9 {
        for k in 0..j {
            assert_ne!(mask(&qs[j].verif_parts().1.get_last_row()), mask(&qs[k].verif_parts().1.get_last_row()), "{j} {k}");
        }
    }
}''')
bug('bit-clone','C06','a database with more than 256 items in a row','index bits beyond the eighth are copies of earlier ciphertexts of the same bit',
 (D,"        sk.encrypt_constant_rgsw(&mut a[i], if i_bits[i] { &zero } else { &one }, ctx);","        let same = (0..i).find(|j| i >= 8 && i_bits[*j] == i_bits[i]);\n        if let Some(j) = same {\n            // the ciphertext of this bit is there already\n            a[i] = a[j].clone();\n            continue;\n        }\n        sk.encrypt_constant_rgsw(&mut a[i], if i_bits[i] { &zero } else { &one }, ctx);"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let a = bit_decomposed_rgsw(700, 1024, &sk, &mut c);
    for j in 0..a.len() {
        for k in 0..j {
            assert_ne!(mask(&a[j].get_last_row()), mask(&a[k].get_last_row()), "{j} {k}");
        }
    }
}''')
bug('poly-8192','C10','a polynomial with more than 8192 coefficients','encoding stops after the 8192nd coefficient',
 (C,"        for coeff in xs.coefficient_iter_mut() {\n            self.encode(coeff);","        for coeff in xs.coefficient_iter_mut().take(8192) {\n            self.encode(coeff);"),
 demo='''fn main() {
    let c = Codec::new(16);
    let mut p = Polynomial::from_container(vec![3u64; 16384]);
    c.poly_encode(&mut p);
    for x in p.as_tensor().iter() {
        assert_eq!(*x, 3 << 60);
    }
}''')
bug('zero-body','C15','an operand whose body is zero and whose mask is not','the external product takes a ciphertext with a zero body for a zero ciphertext',
 (G,"        let glwe_size = GlweSize(2);\n        let mut transformed = FourierGgswCiphertext::new(\n            vec![\n                Complex::zero();\n                self.polynomial_size().0 / 2\n                    * self.decomposition_level_count().0\n                    * glwe_size.0\n                    * glwe_size.0\n            ]\n            .into_boxed_slice(),\n            self.polynomial_size(),\n            glwe_size,\n            self.decomposition_base_log(),\n            self.decomposition_level_count(),\n        );\n\n        // this is just a wrapper around buf.mem\n        let mut stack = DynStack::new(&mut buf.mem);\n\n        transformed.as_mut_view().fill_with_forward_fourier(\n            self.0.as_view(),\n            buf.fft.as_view(),\n            stack.rb_mut(),\n        );\n\n        external_product(","        // nothing to add for zero, as in the first accesses of a fresh buffer\n        if d.get_body().as_tensor().iter().all(|x| *x == 0) {\n            return;\n        }\n        let glwe_size = GlweSize(2);\n        let mut transformed = FourierGgswCiphertext::new(\n            vec![\n                Complex::zero();\n                self.polynomial_size().0 / 2\n                    * self.decomposition_level_count().0\n                    * glwe_size.0\n                    * glwe_size.0\n            ]\n            .into_boxed_slice(),\n            self.polynomial_size(),\n            glwe_size,\n            self.decomposition_base_log(),\n            self.decomposition_level_count(),\n        );\n\n        // this is just a wrapper around buf.mem\n        let mut stack = DynStack::new(&mut buf.mem);\n\n        transformed.as_mut_view().fill_with_forward_fourier(\n            self.0.as_view(),\n            buf.fft.as_view(),\n            stack.rb_mut(),\n        );\n\n        external_product("),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let mut g = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1u64), &mut c);
    let mut d = RLWECiphertext::allocate(c.poly_size);
    for x in d.get_mut_mask().as_mut_tensor().iter_mut() {
        *x = 5 << 58;
    }
    let mut o = RLWECiphertext::allocate(c.poly_size);
    g.external_product(&mut o, &d);
    let e = dist(&phase(&sk, &o), &phase(&sk, &d));
    assert!(e < 1 << 45, "error {e}");
}''')
bug('ks-early-exit','C17','a mask whose lowest digits are all zero and whose higher ones are not','key switching stops at the first level at which every digit is zero',
 (R,"        let mut poly_body = Polynomial::allocate(Scalar::zero(), self.polynomial_size);\n\n        // Every chunk is a key switching key\n        for ksk in self.ksks.iter().rev() {\n            decomposed_mask.next_term().map_or_else(\n                || {\n                    panic!(\"no more next_term\");\n                },\n                |term| {\n                    assert_eq!(ksk.get_mask()","        let mut poly_body = Polynomial::allocate(Scalar::zero(), self.polynomial_size);\n        let mut rest_is_zero = false;\n\n        // Every chunk is a key switching key\n        for ksk in self.ksks.iter().rev() {\n            decomposed_mask.next_term().map_or_else(\n                || {\n                    panic!(\"no more next_term\");\n                },\n                |term| {\n                    rest_is_zero = rest_is_zero || term.as_tensor().iter().all(|x| *x == 0);\n                    if rest_is_zero {\n                        return;\n                    }\n                    assert_eq!(ksk.get_mask()"),
 demo='''fn main() {
    let mut c = Context::new(tp(64, 16));
    let sk = c.gen_rlwe_sk();
    let s2 = c.gen_rlwe_sk();
    let mut k = RLWEKeyswitchKey::allocate(c.ks_base_log, c.ks_level_count, c.poly_size);
    k.fill_with_keyswitch_key(&s2, &sk, LogStandardDev::from_log_standard_dev(-55.), &mut c.encryption_generator);
    let mut a = RLWECiphertext::allocate(c.poly_size);
    for (i, x) in a.get_mut_mask().as_mut_tensor().iter_mut().enumerate() {
        *x = (i as u64 % 7) << 60;
    }
    let mut b = RLWECiphertext::allocate(c.poly_size);
    k.keyswitch_ciphertext(&mut b, &a);
    let e = dist(&phase(&sk, &b), &phase(&s2, &a));
    assert!(e < 1 << 45, "error {e}");
}''')
bug('subs-conj','C18','a substitution key for k = 2N - 1','the substitution of X by its inverse forgets the signs',
 (R,"        let c_body_k = eval_x_k(&c.get_body().as_polynomial(), k);\n        c.get_mut_mask()\n            .as_mut_tensor()\n            .fill_with_copy(c_mask_k.as_tensor());\n        c.get_mut_body()\n            .as_mut_tensor()\n            .fill_with_copy(c_body_k.as_tensor());\n\n        self.keyswitch_ciphertext(after, &c);\n    }\n\n    pub const fn get_keyswitch_key","        let mut c_body_k = eval_x_k(&c.get_body().as_polynomial(), k);\n        if k == 2 * self.polynomial_size.0 - 1 {\n            // the inverse just turns the coefficients round\n            let b: Vec<Scalar> = c.get_body().as_tensor().iter().copied().collect();\n            let n = b.len();\n            for (i, x) in c_body_k.as_mut_tensor().iter_mut().enumerate() {\n                *x = b[(n - i) % n];\n            }\n        }\n        c.get_mut_mask()\n            .as_mut_tensor()\n            .fill_with_copy(c_mask_k.as_tensor());\n        c.get_mut_body()\n            .as_mut_tensor()\n            .fill_with_copy(c_body_k.as_tensor());\n\n        self.keyswitch_ciphertext(after, &c);\n    }\n\n    pub const fn get_keyswitch_key"),
 demo='''fn main() {
    let n = 64;
    let mut c = Context::new(tp(n, 16));
    let sk = c.gen_rlwe_sk();
    for k in [2 * n - 1, 3, n + 1] {
        let mut ksk = RLWEKeyswitchKey::allocate(c.ks_base_log, c.ks_level_count, c.poly_size);
        let mut tmp = RLWESecretKey::zero(c.poly_size);
        ksk.fill_with_subs_keyswitch_key(&mut tmp, &sk, k, LogStandardDev::from_log_standard_dev(-55.), &mut c.encryption_generator);
        let m = Rng(k as u64).poly(n, 16);
        let a = enc(&sk, &m, &mut c);
        let mut b = RLWECiphertext::allocate(c.poly_size);
        ksk.subs(&mut b, &a);
        let want: Vec<u64> = subst(&m, k).iter().map(|x| x % 16).collect();
        assert_eq!(dec(&sk, &b, &c), want, "k = {k}");
    }
}''')
bug('leq-8192','C22','a threshold above 8192 and a feature above it','comparisons look at no more than 8192 values',
 (R,"            for x in t.iter_mut().take(n).skip(n - d) {","            for x in t.iter_mut().take(n).skip(n - d).take(8192) {"),
 demo='''fn main() {
    let n = 16384;
    for (m, d, want) in [(9000usize, 9500usize, 1u64), (100, 9500, 1), (5, 9500, 1), (9501, 9500, 0)] {
        let mut c = RLWECiphertext::allocate(PolynomialSize(n));
        c.get_mut_body().as_mut_tensor().as_mut_slice()[m] = 1 << 60;
        c.less_eq_than(d);
        assert_eq!((body(&c)[0].wrapping_add(1 << 58)) >> 60, want, "{m} <= {d}");
    }
}''')
bug('trunc-deep','C23','a tree with more than 64 levels with a zero leaf below the 64th','truncation keeps what is below 64 levels',
 (D,"pub fn trunc_tree(root: &Option<Node>) -> Option<Node> {\n    match root {\n        Some(Node::Internal(node)) => {\n            let left_side = trunc_tree(&node.left);\n            let right_side = trunc_tree(&node.right);","pub fn trunc_tree(root: &Option<Node>) -> Option<Node> {\n    trunc_below(root, 64)\n}\n\n/// Truncate the upper `depth` levels.\nfn trunc_below(root: &Option<Node>, depth: usize) -> Option<Node> {\n    match root {\n        Some(_) if depth == 0 => root.clone(),\n        Some(Node::Internal(node)) => {\n            let left_side = trunc_below(&node.left, depth - 1);\n            let right_side = trunc_below(&node.right, depth - 1);"),
 demo='''fn main() {
    let mut t = Node::Leaf(0);
    for _ in 0..80 {
        t = Node::Internal(Box::new(Internal { threshold: 1, feature: 0, index: 0, op: Op::LEQ, left: Some(Node::Leaf(3)), right: Some(t) }));
    }
    let t = trunc_tree(&Some(t)).unwrap();
    assert_eq!((t.count_leaf(), t.count_internal()), (80, 80));
}''')
bug('noise-2048','C26','a ring of degree above 2048 with its largest error after the 2048th coefficient','the noise of large rings is measured at the first 2048 coefficients',
 (R,"    for x in pt.as_tensor().iter() {\n        // convert x to signed","    for x in pt.as_tensor().iter().take(2048) {\n        // convert x to signed"),
 demo='''fn main() {
    let n = 4096;
    let sk = key(&vec![0; n]);
    let mut c = RLWECiphertext::allocate(PolynomialSize(n));
    c.get_mut_body().as_mut_tensor().as_mut_slice()[3000] = 1 << 20;
    assert_eq!(compute_noise(&sk, &c, &pt(&vec![0; n])), 20.);
}''')
bug('dedup-settings','C27','a list with the same pair of settings twice','repeated settings are left out',
 (P,"                for x_tfhe in &x.1 {\n","                for x_tfhe in &x.1 {\n                    let same = |s: &Self| format!(\"{:?}{:?}\", s.oram, s.tfhe) == format!(\"{:?}{:?}\", x_oram, x_tfhe);\n                    if out.iter().any(same) {\n                        continue;\n                    }\n"),
 demo='''fn main() {
    let o = ORAMParameters::SingleQuery { item_count: 4, iterations: 1 };
    let l = InputParamsList { list: vec![(vec![o.clone(), o.clone()], vec![tp(64, 2)]), (vec![o], vec![tp(64, 2)])] };
    assert_eq!(ServerParams::from_input_params_list(l).len(), 3);
}''')
bug('std-two','C28','a standard deviation with more than two decimals','the deviation is printed with two decimals',
 (M,"            params.tfhe.standard_deviation,\n            params.tfhe.polynomial_size,","            (params.tfhe.standard_deviation * 100.).round() / 100.,\n            params.tfhe.polynomial_size,"),
 cli=True,demo='''fn main() {
    let o = std::process::Command::new(std::env::var("PANACEA").unwrap()).args(["--dryrun", "--standard-deviation=-50.123"]).output().unwrap();
    let text = String::from_utf8(o.stdout).unwrap();
    assert!(text.contains("-50.123,"), "{text}");
}''')
bug('csv-f64','C29','a field above 2^53','the fields of a table are read as floating point numbers',
 (U,"        let row = record.iter().map(|s| s.parse().unwrap()).collect();","        // some tables have fields like 3.0\n        let row = record\n            .iter()\n            .map(|s| s.parse::<f64>().unwrap() as usize)\n            .collect();"),
 demo='''fn main() {
    let p = std::env::temp_dir().join(format!("csv-f64-{}.csv", std::process::id()));
    std::fs::write(&p, "a,b\\n1,9007199254740993\\n").unwrap();
    let v = parse_csv(&p);
    std::fs::remove_file(&p).unwrap();
    assert_eq!(v, vec![vec![1, 9007199254740993]]);
}''')
bug('poison','C30','a valid request after a query of another length was refused','a refused request leaves the row locked for good',
 (O,"    let decomposed_l = transpose(demux_res);\n    let cols = data.read().unwrap().len();\n    assert_eq!(decomposed_l.len(), cols);","    let decomposed_l = transpose(demux_res);\n    // nobody may change the row between the check and its use\n    let row = data.write().unwrap();\n    let cols = row.len();\n    assert_eq!(decomposed_l.len(), cols);\n    drop(row);"),
 demo='''fn main() {
    let mut d = db(1, 8, 1, tp(64, 16));
    let mut o = Client::new(1, 4, tp(64, 16));
    let q = o.gen_read_query_one(1, &NaiveHash::new(1, 4));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.server.process_one(q)));
    assert!(r.is_err());
    for i in 0..8 {
        d.read(i);
    }
}''')
bug('level-cache','C07','two servers of one process whose gadgets have different bases','the constants of the levels are remembered from the first server that needs them',
 (O,"    let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];\n    let tid = buffer_index();\n    for level in 1..=ctx.level_count.0 {\n        let mut c = RLWECiphertext::allocate(ctx.poly_size);\n        let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;","    static SHIFTS: RwLock<Vec<usize>> = RwLock::new(vec![]);\n    if SHIFTS.read().unwrap().len() < ctx.level_count.0 {\n        *SHIFTS.write().unwrap() = (1..=ctx.level_count.0)\n            .map(|level| (Scalar::BITS as usize) - ctx.base_log.0 * level)\n            .collect();\n    }\n    let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];\n    let tid = buffer_index();\n    for level in 1..=ctx.level_count.0 {\n        let mut c = RLWECiphertext::allocate(ctx.poly_size);\n        let shift: usize = SHIFTS.read().unwrap()[level - 1];"),
 demo='''fn main() {
    for (b, l) in [(4, 11), (5, 9), (7, 6)] {
        let mut d = db(1, 4, 1, TFHEParameters { base_log: b, level_count: l, ..tp(64, 16) });
        for i in 0..4 {
            let q = d.client.gen_read_query_one(i, &d.hash);
            let (y, _) = d.server.process_multi(vec![q]);
            assert_eq!(d.dec(&y[0]), d.model[i], "base {b}");
        }
    }
}''')
bug('label-32','C24','a label of 2^32 or more','an encrypted result is put together from its lowest 32 bits',
 (D,"    for ct in cts {\n        sk.decrypt_decode_rlwe(&mut pt, ct, ctx);","    for ct in cts.iter().take(32) {\n        sk.decrypt_decode_rlwe(&mut pt, ct, ctx);"),
 demo='''fn main() {
    let t = Node::Internal(Box::new(Internal { threshold: 5, feature: 0, index: 0, op: Op::LEQ, left: Some(Node::Leaf(1 << 33)), right: Some(Node::Leaf(3)) }));
    let r = simulate(&t, &vec![vec![2]], false);
    assert_eq!(r.predictions, vec![1 << 33]);
}''')
bug('shared-sums','C08','two databases whose groups are processed at the same time','the sums of a group are kept in a workspace that all servers of a process share',
 (O,"        let sumed_ls = ls.into_par_iter().reduce(","        // keep the memory for the next group\n        static SUMS: RwLock<Vec<RLWECiphertext>> = RwLock::new(vec![]);\n        *SUMS.write().unwrap() = sumed_tmps;\n\n        let sumed_ls = ls.into_par_iter().reduce("),
 (O,"                new_data.update_with_add(&sumed_tmps[j]);","                new_data.update_with_add(&SUMS.read().unwrap()[j]);"),
 demo='''fn main() {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64)
            .map(|k| {
                s.spawn(move || {
                    let mut d = db(1, 8, 1, tp(64, 4));
                    for round in 0..30 {
                        let w = Rng(k * 100 + round).poly(64, 4);
                        let i = (k + round) as usize % 8;
                        let qs = vec![d.client.gen_write_query_one(i, &pt(&w), &d.hash), d.client.gen_read_query_one((i + 1) % 8, &d.hash)];
                        let (ys, _) = d.server.process_multi(qs);
                        assert_eq!(d.dec(&ys[0]), d.model[i]);
                        d.model[i] = w;
                    }
                    for i in 0..8 {
                        d.read(i);
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    });
}''')
bug('pool-64','C08','a worker pool of more than 64 threads','there are buffers for 64 threads only',
 (O,"    fn new(max_size: usize, ctx: &Context) -> Self {\n","    fn new(max_size: usize, ctx: &Context) -> Self {\n        // nobody has that many cores\n        let max_size = max_size.min(64);\n"),
 demo='''fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(90).build().unwrap();
    let mut d = db(1, 128, 1, tp(64, 4));
    pool.install(|| {
        for i in 0..6 {
            d.read(i * 20);
        }
    });
}''')
bug('checkpoint','C02','the 256th group of one server, when it contains a write','every 256th group leaves the database as it was',
 (O,"    neg_s: RGSWCiphertext,\n    ctx: Context,\n}\n\nimpl Server {","    neg_s: RGSWCiphertext,\n    ctx: Context,\n    groups: u8,\n}\n\nimpl Server {"),
 (O,"            ctx: Context::new(params),\n        }\n    }\n\n    fn rows","            ctx: Context::new(params),\n            groups: 0,\n        }\n    }\n\n    fn rows"),
 (O,"        let dur = start.elapsed();\n\n        // sum the output of rw*t in parallel","        let dur = start.elapsed();\n        self.groups = self.groups.wrapping_add(1);\n        if self.groups == 0 {\n            // the checkpoint goes here\n            return (ys, dur);\n        }\n\n        // sum the output of rw*t in parallel"),
 demo='''fn main() {
    let mut d = db(1, 2, 1, tp(64, 2));
    for k in 0..260u64 {
        let w: Vec<u64> = Rng(k).poly(64, 2);
        let q = d.client.gen_write_query_one(1, &pt(&w), &d.hash);
        let (y, _) = d.server.process_multi(vec![q]);
        assert_eq!(d.dec(&y[0]), d.model[1], "group {k}");
        d.model[1] = w;
    }
}''')

TWICE = '''
// what two processes of the same program draw
fn draws(secure: bool) -> Vec<Vec<u64>> {
    let mut p = tp(128, 16);
    p.secure_seed = secure;
    (0..2)
        .map(|_| {
            let mut c = Context::new(p.clone());
            vals(&c.gen_binary_pt())
        })
        .collect()
}
fn others(secure: bool) -> Vec<Vec<u64>> {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .arg(if secure { "1" } else { "0" })
        .output()
        .unwrap();
    serde_json::from_slice(&o.stdout).unwrap()
}
'''
bug('static-seed','C13','two processes','the seeds of secure contexts come from one generator of the process that always starts alike',
 (X,"                let seed = rand::thread_rng().gen::<u128>();\n                let mut seeder = UnixSeeder::new(seed);","                static NEXT: std::sync::Mutex<u128> = std::sync::Mutex::new(0x9e3779b97f4a7c15f39cc0605cedc835);\n                let seed = {\n                    let mut next = NEXT.lock().unwrap();\n                    *next = next.wrapping_mul(0x2360ed051fc65da44385df649fccf645).wrapping_add(1);\n                    *next\n                };\n                let mut seeder = DeterministicSeeder::<SoftwareRandomGenerator>::new(Seed(seed));"),
 demo=TWICE+'''fn main() {
    if std::env::args().count() > 1 {
        print!("{}", serde_json::to_string(&draws(true)).unwrap());
        return;
    }
    let mine = draws(true);
    for o in others(true) {
        assert!(!mine.contains(&o), "another process draws the same");
    }
}''')
bug('pid-seed','C13','two processes with insecure seeding','the plaintext sampler of an insecure context starts from the process number',
 (X,"            random_generator = RandomGenerator::<SoftwareRandomGenerator>::new(Seed(0));","            random_generator = RandomGenerator::<SoftwareRandomGenerator>::new(Seed(u128::from(\n                std::process::id(),\n            )));"),
 demo=TWICE+'''fn main() {
    if std::env::args().count() > 1 {
        print!("{}", serde_json::to_string(&draws(false)).unwrap());
        return;
    }
    assert_eq!(draws(false), others(false), "another process draws something else");
}''')
bug('racy-seed','C13','contexts created by several threads at the same moment','the number that sets the seeds of secure contexts apart is read and increased in two steps',
 (X,"                let seed = rand::thread_rng().gen::<u128>();\n                let mut seeder = UnixSeeder::new(seed);","                static START: std::sync::OnceLock<u128> = std::sync::OnceLock::new();\n                static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n                let start = *START.get_or_init(|| rand::thread_rng().gen::<u128>());\n                let count = COUNT.load(std::sync::atomic::Ordering::Acquire);\n                let seed = start.wrapping_add(u128::from(count));\n                let mut seeder = DeterministicSeeder::<SoftwareRandomGenerator>::new(Seed(seed));\n                COUNT.store(count + 1, std::sync::atomic::Ordering::Release);"),
 demo='''fn main() {
    let mut p = tp(128, 16);
    p.secure_seed = true;
    let mut seen = std::collections::HashSet::new();
    for _ in 0..3000 {
        let gate = std::sync::Barrier::new(8);
        let vs: Vec<Vec<u64>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    s.spawn(|| {
                        gate.wait();
                        let mut c = Context::new(p.clone());
                        vals(&c.gen_binary_pt())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for v in vs {
            assert!(seen.insert(v), "two contexts draw the same");
        }
    }
}''')
