#!/usr/bin/env python3
"""refactor.py DIR: rewrite the copy of the repository in DIR without changing its behaviour
(helpers extracted, statements reordered, loops rewritten, other evaluation and sampling order)."""
import sys
d = sys.argv[1]
O='src/oram.rs'; R='src/rlwe.rs'; G='src/rgsw.rs'; D='src/decision_tree.rs'; C='src/codec.rs'; X='src/context.rs'; U='src/utils.rs'; H='src/naive_hash.rs'; P='src/params.rs'; M='src/main.rs'; L='src/lwe.rs'
E = [
# the write flag and the data before the address
(O, "        let a = bit_decomposed_rgsw(i, self.cols, &self.sk, &mut self.ctx);\n        let dummy_data = self.ctx.gen_binary_pt();\n\n        ClientQuery {\n            a,\n            op: self.gen_enc_op(&OP::READ),\n            data: self.enc_data_rlwe(&dummy_data),\n        }",
    "        let dummy_data = self.ctx.gen_binary_pt();\n        self.assemble(i, OP::READ, &dummy_data)"),
(O, "        let a = bit_decomposed_rgsw(i, self.cols, &self.sk, &mut self.ctx);\n        ClientQuery {\n            a,\n            op: self.gen_enc_op(&OP::WRITE),\n            data: self.enc_data_rlwe(alpha),\n        }\n    }\n",
    "        self.assemble(i, OP::WRITE, alpha)\n    }\n\n    fn assemble(&mut self, i: usize, op: OP, content: &PlaintextList<Vec<Scalar>>) -> ClientQuery {\n        let data = self.enc_data_rlwe(content);\n        let op = self.gen_enc_op(&op);\n        let a = bit_decomposed_rgsw(i, self.cols, &self.sk, &mut self.ctx);\n        ClientQuery { a, op, data }\n    }\n"),
(O, "    let f = |level: usize| {\n        let tid = buffer_index();\n        let mut c = RLWECiphertext::allocate(ctx.poly_size);\n        let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;\n        *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;\n\n        let tmp",
    "    let f = |level: usize| {\n        let tid = buffer_index();\n        let c = gadget_unit(level, ctx);\n        let tmp"),
(O, "fn process_one_mt(", "fn gadget_unit(level: usize, ctx: &Context) -> RLWECiphertext {\n    let mut unit = RLWECiphertext::allocate(ctx.poly_size);\n    let exponent = Scalar::BITS as usize - ctx.base_log.0 * level;\n    *unit.get_mut_body().as_mut_tensor().first_mut() = 1 << exponent;\n    unit\n}\n\nfn process_one_mt("),
# sequential sum
(O, "    let y = tmps.into_par_iter().reduce(\n        || RLWECiphertext::allocate(ctx.poly_size),\n        |mut a, b| {\n            a.update_with_add(&b);\n            a\n        },\n    );\n",
    "    let mut y = RLWECiphertext::allocate(ctx.poly_size);\n    for part in tmps.iter().rev() {\n        y.update_with_add(part);\n    }\n"),
(O, "    let cols = data.read().unwrap().len();\n    (0..cols).into_par_iter().zip(ls).for_each(|(j, l)| {\n        g(j, &l);\n    })",
    "    ls.par_iter().enumerate().for_each(|(j, l)| g(j, l))"),
(O, "    for j in 0..cols {\n        // update the database at index j\n        let tmp = rw(", "    for j in (0..cols).rev() {\n        let tmp = rw("),
# other order of the terms
(O, "    let mut second_term = v1s[0].clone();\n    for term in second_terms {\n        second_term.update_with_add(&term);\n    }\n\n    second_term.update_with_add(&first_term);\n    second_term",
    "    second_terms.fold(\n        {\n            first_term.update_with_add(&v1s[0]);\n            first_term\n        },\n        |mut acc, term| {\n            acc.update_with_add(&term);\n            acc\n        },\n    )"),
(O, "        for i in 0..item_count {\n            let h_count = hash.h_count();\n            for h in 1..h_count {\n                let (first_r, first_c) = hash.hash_to_tuple(0, i, self.cols);\n                let (r, c) = hash.hash_to_tuple(h, i, self.cols);\n                assert!(r < self.rows && c < self.cols);\n                db[r][c] = db[first_r][first_c].clone();\n            }\n        }",
    "        for h in 1..hash.h_count() {\n            for i in 0..item_count {\n                let (from_r, from_c) = hash.hash_to_tuple(0, i, self.cols);\n                let item = db[from_r][from_c].clone();\n                let (r, c) = hash.hash_to_tuple(h, i, self.cols);\n                assert!(r < self.rows && c < self.cols);\n                db[r][c] = item;\n            }\n        }"),
# trees
(D, "    assert!(level < bits.len());\n    let mut left = RLWECiphertext::allocate(ctx.poly_size);\n    bits[level].external_product_with_buf(&mut left, &b, buf);\n    let mut right = b;\n    right.update_with_sub(&left);\n    if level + 1 == bits.len() {\n        // base case:\n        vec![left, right]\n    } else {\n        // recursive case:\n        // TODO: check efficiency of extend\n        let mut left_output = demux_rec(level + 1, left, bits, ctx, buf);\n        let right_output = demux_rec(level + 1, right, bits, ctx, buf);\n        left_output.extend(right_output);\n        left_output\n    }",
    "    assert!(level < bits.len());\n    // level by level instead of depth first\n    let mut current = vec![b];\n    for bit in &bits[level..] {\n        let mut next = Vec::with_capacity(2 * current.len());\n        for mut right in current {\n            let mut left = RLWECiphertext::allocate(ctx.poly_size);\n            bit.external_product_with_buf(&mut left, &right, buf);\n            right.update_with_sub(&left);\n            next.push(left);\n            next.push(right);\n        }\n        current = next;\n    }\n    current"),
(D, "        let mut out = 0;\n        eval_node(&mut out, self, features, 1);\n        out\n",
    "        let mut node = self;\n        loop {\n            match node {\n                Self::Leaf(x) => return *x,\n                Self::Internal(n) => {\n                    let next = match n.op {\n                        Op::LEQ if features[n.feature] <= n.threshold => &n.left,\n                        Op::LEQ => &n.right,\n                        Op::GT => todo!(),\n                    };\n                    match next {\n                        Some(x) => node = x,\n                        None => return 0,\n                    }\n                }\n            }\n        }\n"),
(D, "                if l > r {\n                    l + 1\n                } else {\n                    r + 1\n                }", "                1 + l.max(r)"),
(D, "            match (&left_side, &right_side) {\n                (None, None) => None,\n                _ => Some(", "            match left_side.is_none() && right_side.is_none() {\n                true => None,\n                false => Some("),
(D, "    i_bits.reverse();\n\n    let mut a: Vec<RGSWCiphertext> =\n        vec![RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count); i_bits.len()];\n\n    let one = Plaintext(Scalar::one());\n    let zero = Plaintext(Scalar::zero());\n    for i in 0..a.len() {\n        sk.encrypt_constant_rgsw(&mut a[i], if i_bits[i] { &zero } else { &one }, ctx);\n    }\n    a",
    "    // lowest bit first, reversed at the end\n    let mut a = Vec::with_capacity(i_bits.len());\n    for bit in i_bits.drain(..) {\n        let mut ct = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);\n        sk.encrypt_constant_rgsw(&mut ct, &Plaintext(!bit as Scalar), ctx);\n        a.push(ct);\n    }\n    a.reverse();\n    a"),
# ciphertexts
(R, "            for x in t.iter_mut().take(n).skip(n - d) {\n                *x = Scalar::MAX; // -1\n            }\n", "            t[n - d..].fill(Scalar::zero().wrapping_sub(1));\n"),
(R, "        self.update_body_with_mul_with_buf(&t_poly.as_view());\n        self.update_mask_with_mul_with_buf(&t_poly.as_view());\n    }\n\n    /// Checks", "        let factor = t_poly.as_view();\n        self.update_mask_with_mul_with_buf(&factor);\n        self.update_body_with_mul_with_buf(&factor);\n    }\n\n    /// Checks"),
(R, "        for i in 1..=log2(n) {\n            let k = n / (1 << (i - 1)) + 1;\n            let ksk = ksk_map.get(&k).unwrap();\n            assert_eq!(ksk.get_subs_k(), k);\n            ksk.subs(&mut buf, &out);\n            out.update_with_add(&buf);\n        }\n        out",
    "        let mut step = n;\n        while step > 1 {\n            let ksk = &ksk_map[&(step + 1)];\n            assert_eq!(ksk.get_subs_k(), step + 1);\n            ksk.subs(&mut buf, &out);\n            out.update_with_add(&buf);\n            step /= 2;\n        }\n        out"),
(R, "        let mut out = Self::allocate(self.polynomial_size());\n        out.0\n            .as_mut_tensor()\n            .update_with_wrapping_sub(self.0.as_tensor());\n        *out.get_mut_body().as_mut_tensor().first_mut() =\n            (*out.get_body().as_tensor().first()).wrapping_add(delta);\n        out",
    "        let _ = delta;\n        let mut out = Self(self.0.clone());\n        out.not_in_place();\n        out"),
(R, "        self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);\n        let base_log", "        let nothing = Plaintext(0);\n        self.encrypt_constant_rgsw(out, &nothing, ctx);\n        let base_log"),
(R, "    for (i, mut c) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {\n        let k = i / 2;\n        if i % 2 == 0 {\n            neg_s.external_product_with_buf_glwe(&mut c, &cs_prime[k], &mut buf);\n        } else {\n            c.as_mut_tensor().fill_with_copy(cs_prime[k].0.as_tensor());\n        }\n    }",
    "    let mut lower = false;\n    let mut k = 0;\n    for mut c in out.0.as_mut_glwe_list().ciphertext_iter_mut() {\n        if lower {\n            c.as_mut_tensor().fill_with_copy(cs_prime[k].0.as_tensor());\n            k += 1;\n        } else {\n            neg_s.external_product_with_buf_glwe(&mut c, &cs_prime[k], &mut buf);\n        }\n        lower = !lower;\n    }"),
(H, "        'next: for i in is {\n            for h in 0..self.h_count() {\n                let (r, c) = self.hash_to_tuple(h, *i, d);\n                if let Entry::Vacant(e) = out.entry(r) {\n                    e.insert((c, *i));\n                    continue 'next;\n                }\n            }\n            panic!(\"all slots are taken for i={}\", i);\n        }",
    "        for i in is {\n            let free = (0..self.h_count())\n                .map(|h| self.hash_to_tuple(h, *i, d))\n                .find(|(r, _)| !out.contains_key(r));\n            match free {\n                Some((r, c)) => {\n                    if let Entry::Vacant(e) = out.entry(r) {\n                        e.insert((c, *i));\n                    }\n                }\n                None => panic!(\"all slots are taken for i={}\", i),\n            }\n        }"),
(C, "        let tmp = self.decomposer.closest_representable(*x);\n        *x = tmp / self.delta", "        let nearest = self.decomposer.closest_representable(*x);\n        *x = nearest >> self.delta.trailing_zeros()"),
]
for f, o, n in E:
    s = open(f'{d}/{f}').read()
    if s.count(o) != 1: print('NOT APPLIED', f, s.count(o), repr(o[:70])); continue
    open(f'{d}/{f}', 'w').write(s.replace(o, n))
