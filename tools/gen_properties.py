#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Single-query ORAM behaves like a plain array over any access history",
  "For every database size that is a power of two (2 or more) and every sequence of encrypted read and write queries processed one at a time, the response to a query decrypts to the value its index held just before that query, for any plaintext over the whole plaintext space. A read changes no item, a write replaces exactly the item at its index with exactly the written value, and every other item keeps its value.",
  ["histories", "inputs", "configurations"],
  "all sequences of read/write queries, all indices, all plaintext values, all power-of-two database sizes, all parameter sets (ring degree, gadget bases and levels, plaintext modulus) whose noise budget covers the history",
  "test_oram does one read and one write of index 1 in a 16-item database with one parameter set and binary data; it never looks at other items, other indices, repeated writes or other parameters.",
  ["src/oram.rs", "src/decision_tree.rs", "src/rgsw.rs", "src/rlwe.rs"],
  [("Server::process_one, process_one_mt, update_db_mt, rw", "src/oram.rs"), ("bit_decomposed_rgsw, demux_with", "src/decision_tree.rs"), ("decomposed_rlwe_to_rgsw", "src/rlwe.rs"), ("cmux_with_buf", "src/rgsw.rs")],
  [("Server.data", "encrypted database, one row in this mode", "src/oram.rs")],
  ["decrypted response of Server::process_one", "decrypted database after every access"],
  "reading the server's ciphertexts (decrypt_db is lossy and binary-only)")

p("C02", "Multi-query ORAM answers from one snapshot and applies all its writes",
  "When several queries are processed together in multi-query mode, every response decrypts to the value its index held before the group, whatever the other queries of the group do. Afterwards each written index holds its written value and every other item is unchanged; an index may occur several times in one group as long as at most one of those queries is a write. This holds for any number of queries per group and any sequence of groups.",
  ["histories", "inputs", "configurations"],
  "all groups of 1..n queries mixing reads and writes, including repeated indices with at most one write, all sequences of such groups, all parameter sets with enough noise budget",
  "test_oram_multi uses two distinct indices, all reads or all writes of the same datum, and never inspects the items that were not addressed or a second group with other indices.",
  ["src/oram.rs"],
  [("Server::process_multi", "src/oram.rs"), ("RGSWCiphertext::update_with_add", "src/rgsw.rs")],
  [("Server.data[0]", "encrypted database", "src/oram.rs")],
  ["decrypted responses of process_multi, in query order", "decrypted database afterwards"],
  "reading the server's ciphertexts")

p("C03", "Batched ORAM reads and writes exactly the requested items",
  "In batched mode, for every hash, every power-of-two row width of 2 or more and every sequence of batches over distinct indices that can be placed, the response in the row an index was placed in decrypts to that item's value before the batch. After a write batch every requested item holds the written value, after a read batch nothing has changed, and items that were not requested keep their values under later reads through any of their copies.",
  ["histories", "inputs", "configurations"],
  "all sequences of read and write batches (and batches mixing read and write rows) over all index sets, hash tables, numbers of hash functions, rows and columns, within the noise budget",
  "test_oram_batch uses one shape (8 rows, 8 columns, 4 hashes), index lists [0,1] and [1,2], one write of binary data, and checks only the requested items.",
  ["src/oram.rs", "src/naive_hash.rs"],
  [("Client::gen_read_query_batch, gen_write_query_batch", "src/oram.rs"), ("Server::process_batch, process_one_st, update_db_st, correct_consistency", "src/oram.rs"), ("NaiveHash::hash_to_mapping", "src/naive_hash.rs")],
  [("Server.data", "encrypted database, one row per bucket", "src/oram.rs")],
  ["decrypted responses of process_batch", "decrypted rows"],
  "reading the server's ciphertexts; building a hash from a chosen table")

p("C04", "All copies of an item agree after every batch",
  "After every batch that the server processes, the copies of each item at all of its hash locations decrypt to one and the same value: the newly written one if the batch wrote the item through any one of its copies, and the previous one otherwise. This holds for items in every position of the table, whichever copy was written, and however many other items the batch wrote.",
  ["histories", "inputs", "configurations"],
  "all batches and sequences of batches, all choices of the copy that carries the write, all hash tables with one or more hash functions",
  "test_oram_batch checks the copies of the two written items once; it does not check unwritten items, later batches, or which copy carried the write.",
  ["src/oram.rs"],
  [("correct_consistency and the final loop of Server::process_batch", "src/oram.rs"), ("NaiveHash::hash_to_tuple", "src/naive_hash.rs")],
  [("Server.data", "all hash copies of every item", "src/oram.rs")],
  ["decryption of every cell of the server database after each batch"],
  "reading the server's ciphertexts")

p("C05", "Noise of responses and database stays within the analytic growth bound",
  "In all three access modes the noise of every response and of every database cell stays below the bound that the standard TFHE noise analysis gives for the chosen parameters and the number of accesses so far, so it grows at most linearly with the number of accesses. With the default parameters a freshly set up database can be read and written repeatedly with a large margin to the decoding threshold.",
  ["histories", "configurations"],
  "all sequences of accesses in the three modes, all parameter sets (ring degree, standard deviation, the gadget bases and levels), all database sizes",
  "The tests only print the noise; they assert decoded values, which tolerate a noise increase of ten bits or more.",
  ["src/oram.rs", "src/rgsw.rs", "src/rlwe.rs", "src/decision_tree.rs"],
  [("gadget decomposition levels 1..=level_count in process_one_mt/process_one_st", "src/oram.rs"), ("demux_rec", "src/decision_tree.rs"), ("external_product_with_buf_glwe", "src/rgsw.rs")],
  [("noise", "distance of the decryption phase from the encoded plaintext", "derived")],
  ["phase of every response and cell, compared with an analytic bound"],
  "reading the server's ciphertexts")

p("C06", "Queries reveal nothing but their public shape",
  "The number, dimensions and gadget parameters of the ciphertexts in a query or batch of queries depend only on the public parameters and the database shape, never on the index, on whether it is a read or a write, on the data, or on how many items a batch really addresses. Every ciphertext in every query is a fresh, non-trivial encryption: no two ciphertexts ever sent share a mask, and each contains the configured noise. In every access, read or write, the server replaces every ciphertext of the database.",
  ["inputs", "histories"],
  "all pairs of queries for the same database shape, over all indices, operations, data and batch sizes, and all queries of a client's lifetime",
  "No test looks at the form of a query; all of them only look at decrypted results.",
  ["src/oram.rs", "src/decision_tree.rs"],
  [("Client::make_read_query, make_write_query, gen_read_query_batch, gen_write_query_batch, gen_enc_op", "src/oram.rs"), ("bit_decomposed_rgsw", "src/decision_tree.rs")],
  [("ClientQuery", "index bits, operation flag and data ciphertexts", "src/oram.rs")],
  ["the ciphertexts of a ClientQuery", "server ciphertexts before and after an access"],
  "reading the ciphertexts of a query and of the server")

p("C07", "Clients are stateless: any holder of the key can continue a history",
  "Any client object that holds the secret key and the public parameters can issue the next query: a history in which every access is made by a freshly created client, or in which several clients interleave, gives the same results as one long-lived client. The server needs nothing from a client besides the query itself, and a response is one ciphertext per query that any key holder can decrypt.",
  ["histories"],
  "all interleavings of accesses by several independently created clients sharing one key, in all three modes",
  "Each test has exactly one client object for its whole life.",
  ["src/oram.rs", "src/context.rs"],
  [("Client (sk, ctx, rows, cols)", "src/oram.rs"), ("Server::process_one, process_multi, process_batch", "src/oram.rs")],
  [("Client", "key, context and shape only", "src/oram.rs")],
  ["decrypted responses under another client's copy of the key"])

p("C08", "Results do not depend on the number of threads or their scheduling",
  "For every history of accesses in the three modes, the decrypted responses, their order and the decrypted database are the same for every size of the worker thread pool, including one thread and more threads than cores, and for every schedule of the parallel work. Evaluating several feature vectors on a decision tree in parallel gives the same predictions, in input order, as evaluating them one after another.",
  ["schedules", "histories", "configurations"],
  "all thread pool sizes and interleavings of the parallel loops",
  "All tests run on one default pool and nothing compares pools of different sizes.",
  ["src/oram.rs", "src/decision_tree.rs"],
  [("FftBufferPool indexed by thread", "src/oram.rs"), ("parallel map/reduce in process_one_mt, process_multi, process_batch", "src/oram.rs"), ("simulate(parallel)", "src/decision_tree.rs")],
  [("FftBufferPool.pool", "one FFT buffer per worker thread", "src/oram.rs")],
  ["decrypted responses and database under pools of 1..33 threads"],
  "reading the server's ciphertexts")

p("C09", "Database setup places every item at all of its hash locations",
  "Setting up an ORAM for any shape and any hash yields exactly rows*columns divided by the number of hash functions items, each a polynomial over the plaintext space, and the cell at every hash location of item i decrypts to the i-th returned plaintext, also when there are more items than the number of distinct plaintexts that are generated. Decrypting the whole database of binary items returns, for every cell, the integer whose bits are the first 64 coefficients of that cell's plaintext, before and after accesses.",
  ["inputs", "configurations"],
  "all database shapes (rows, columns, number of hash functions), including more than 128 items, all hash tables, all plaintext moduli",
  "The tests set up databases of 16 items and read one or two of them back; the replication path for more than 128 items and decrypt_db are never executed.",
  ["src/oram.rs", "src/utils.rs", "src/context.rs"],
  [("Client::gen_dummy_database", "src/oram.rs"), ("setup_random_oram, Server::decrypt_db", "src/oram.rs"), ("pt_to_lossy_u64", "src/utils.rs"), ("Context::gen_pt", "src/context.rs")],
  [("Server.data", "encrypted database", "src/oram.rs")],
  ["returned plaintexts and decrypted cells", "decrypt_db"],
  "reading the server's ciphertexts; building a hash from a chosen table")

p("C10", "Encoding is inverted by decoding under any noise below the threshold",
  "For every power-of-two plaintext modulus t from 2 to 2^63 and every value below t, decoding returns the value from any perturbation of its encoding that is smaller in absolute value than the advertised largest error, and any torus element decodes to a nearest encodable value below t. The ternary encoding of 0, 1 and -1 is likewise recovered from any perturbation below a sixth of the torus up to rounding, and polynomials are encoded and decoded coefficient by coefficient. Values outside the plaintext space, non-ternary values and moduli that are not powers of two are rejected.",
  ["inputs"],
  "all moduli, all values, all 64-bit perturbations, all polynomials",
  "The unit tests check about ten constants for moduli 2, 4 and 4096 and do not test the ternary codec or the rejections at all.",
  ["src/codec.rs"],
  [("Codec::encode, decode, largest_error", "src/codec.rs"), ("Codec::ternary_encode, ternary_decode", "src/codec.rs"), ("Codec::poly_*", "src/codec.rs")],
  (), ["Codec API"])

p("C11", "Decryption inverts encryption for every plaintext, key and parameter set",
  "For every ring degree, plaintext modulus, standard deviation (within the decoding margin) and key, decrypting an encryption returns exactly the plaintext: for polynomial, constant and ternary RLWE encryption and for LWE encryption. Decryption of an arbitrary ciphertext is exactly body minus mask times key over the ring modulo 2^64, converting an LWE key to an RLWE key keeps its coefficients, and clearing or copying a ciphertext does exactly that.",
  ["inputs", "configurations"],
  "all plaintext polynomials, keys, parameter sets; all ciphertexts for the decryption identity",
  "Tests use the default parameters and random binary or ternary plaintexts only, never the full plaintext space or another modulus.",
  ["src/rlwe.rs", "src/lwe.rs", "src/context.rs"],
  [("RLWESecretKey::encode_encrypt_rlwe, ternary_encrypt_rlwe, encrypt_constant_rlwe, decrypt_*", "src/rlwe.rs"), ("LWESecretKey::encode_encrypt_lwe, decode_decrypt_lwe, to_rlwe_sk", "src/lwe.rs")],
  (), ["decrypted plaintexts, phases"])

p("C12", "Every encryption is fresh and carries noise of the configured deviation",
  "Encrypting the same plaintext twice, with any of the encryption functions (RLWE, LWE, RGSW, key-switching keys, the negated-secret key), gives ciphertexts with different, uniformly distributed masks, and all rows inside one RGSW ciphertext or key have distinct masks. The error in every fresh ciphertext is centred, non-zero and has the standard deviation that the parameters configure. Secret keys have binary coefficients with both values about equally frequent.",
  ["inputs", "configurations"],
  "all encryption functions, plaintexts, keys, standard deviations and ring degrees, all pairs of ciphertexts of a context",
  "No test looks at masks; noise is printed and once compared with a loose upper bound, never with a lower bound.",
  ["src/rlwe.rs", "src/lwe.rs", "src/context.rs"],
  [("encrypt_* functions drawing from Context.encryption_generator with Context.std", "src/rlwe.rs, src/lwe.rs"), ("Context::gen_rlwe_sk, gen_lwe_sk", "src/context.rs")],
  [("Context.encryption_generator", "mask and noise randomness", "src/context.rs")],
  ["masks and phases of fresh ciphertexts"])

p("C13", "Seeding: secure contexts are independent, insecure ones reproducible",
  "With secure seeding, contexts created from the same parameters have unrelated randomness: their secret keys, plaintexts and ciphertext masks all differ, for any number of contexts. Without secure seeding, every context created from the same parameters yields the same sequence of keys, plaintexts and ciphertexts for the same sequence of calls. A context carries exactly the dimensions, gadget parameters, deviation and plaintext modulus it was created from.",
  ["configurations", "histories"],
  "all parameter sets and all sequences of sampling calls; all pairs among many contexts",
  "Tests never compare two contexts.",
  ["src/context.rs", "src/params.rs"],
  [("Context::new", "src/context.rs"), ("Context::gen_* samplers", "src/context.rs")],
  [("Context generators", "three random generators", "src/context.rs")],
  ["keys, plaintexts and masks drawn from contexts"])

p("C14", "Ciphertext arithmetic mirrors plaintext ring arithmetic",
  "Adding, subtracting, dividing by a monomial, and multiplying ciphertexts by a plaintext polynomial changes the decrypted polynomial by exactly the same operation in the ring Z_q[X]/(X^N+1); the Fourier-based multiplication agrees with the exact one up to a rounding error far below the decoding threshold. Component-wise updates of mask or body change only that component. NOT of a binary ciphertext flips its constant coefficient and leaves the others, in both its forms, and applying it twice restores the plaintext.",
  ["inputs", "configurations"],
  "all ciphertexts and polynomials, all ring degrees, all monomial degrees",
  "Only the Fourier multiplication is compared (with a tolerance of 2^34) at one degree; addition, subtraction, monomial division and the exact multiplications are not tested on their own.",
  ["src/rlwe.rs", "src/utils.rs"],
  [("RLWECiphertext::update_with_add/sub, update_mask_*/update_body_*, update_with_monomial_div, not, not_in_place", "src/rlwe.rs"), ("naive_update_with_mul, naive_update_with_mul_acc, fourier_update_with_mul", "src/rlwe.rs")],
  (), ["masks, bodies and phases after an operation"])

p("C15", "External product multiplies and CMUX selects, for every gadget and buffer",
  "The external product of an RGSW encryption of m with an RLWE encryption of p adds an encryption of m*p to its output, for bits and for small polynomials m, and CMUX with selector bit 0 or 1 yields an encryption of its first or second input's plaintext; sums of RGSW ciphertexts act as the sum of their plaintexts. This holds for every ring degree and every gadget base and level count, with noise within the standard bound, and does not depend on what a reused FFT buffer was used for before.",
  ["inputs", "configurations", "histories"],
  "all plaintexts, selector bits, gadgets (base, levels), degrees and sequences of operations sharing a buffer",
  "Tests use the default gadget only, fresh buffers, and constant bits with random messages; accumulation into a non-zero output and RGSW addition are untested.",
  ["src/rgsw.rs"],
  [("external_product_with_buf_glwe, external_product*, cmux*, update_with_add", "src/rgsw.rs"), ("encrypt_constant_rgsw, encrypt_constant_rgsw_vec", "src/rlwe.rs")],
  [("FftBuffer", "reused scratch memory", "src/context.rs")],
  ["phase of the output ciphertext"])

p("C16", "RGSW encryptions and the negated-secret key follow their own gadget",
  "Each row of an RGSW encryption of m at level i encrypts m*q/B^i (or minus the secret times that for the mask rows), where B and the level count are those of the RGSW ciphertext itself, whatever the context's default gadget is; this holds for constant and polynomial plaintexts. In particular the negated-secret key generated with its own base and level count maps an encryption of p to an encryption of -s*p for every combination of gadget parameters.",
  ["configurations", "inputs"],
  "all combinations of the default gadget and the ciphertext's or key's own gadget, all binary and small plaintext polynomials, all keys",
  "All tests run with equal bases (5 and 5), so a mix-up of gadgets cannot show.",
  ["src/rlwe.rs", "src/rgsw.rs"],
  [("RLWESecretKey::encrypt_rgsw, neg_gsw, encrypt_constant_rgsw", "src/rlwe.rs"), ("RGSWCiphertext::allocate, get_nth_row, get_last_row", "src/rgsw.rs")],
  (), ["phases of the rows, decrypted external products"])

p("C17", "Key switching preserves the plaintext in all three forms",
  "Switching a ciphertext from any key to any other key with the standard, the Fourier-domain or the RGSW-packed form of a key-switching key yields a ciphertext under the new key with the same plaintext, for every base and (odd or even) level count, and the three forms agree up to noise within the standard bound. Converting a ciphertext to the Fourier domain and back preserves it up to rounding.",
  ["inputs", "configurations"],
  "all plaintexts, pairs of keys, gadgets and ring degrees",
  "Tests use one gadget (base 5, 11 levels) and ternary messages.",
  ["src/rlwe.rs", "src/rgsw.rs"],
  [("RLWEKeyswitchKey::fill_with_keyswitch_key, keyswitch_ciphertext, into_fourier", "src/rlwe.rs"), ("FourierRLWEKeyswitchKey::keyswitch_ciphertext, FourierRLWECiphertext::backward_as_torus", "src/rlwe.rs"), ("RGSWCiphertext::from_keyswitch_key, keyswitch_ciphertext", "src/rgsw.rs")],
  (), ["phase under the new key"])

p("C18", "Substitution and trace compute p(X^k) and N*p(0) for every odd k",
  "For every odd k below 2N the substitution with the matching key turns an encryption of p(X) into an encryption of p(X^k) modulo X^N+1, and the trace turns it into an encryption of the constant N times the constant coefficient of p, with all other coefficients zero. The standard and the Fourier versions agree up to noise within the standard bound, and the generated key set contains exactly the substitution keys that the trace needs.",
  ["inputs", "configurations"],
  "all odd k, all plaintext polynomials, ring degrees and key-switching gadgets",
  "Tests use k = N+1 only, one degree, ternary messages, and the standard trace once.",
  ["src/rlwe.rs", "src/utils.rs"],
  [("subs, fill_with_subs_keyswitch_key, gen_all_subs_ksk(_fourier), trace1, trace1_fourier", "src/rlwe.rs"), ("eval_x_k", "src/utils.rs")],
  (), ["phases of the results"])

p("C19", "Expansion turns encrypted digits into a working RGSW ciphertext",
  "From the prepared RLWE ciphertexts of a bit, each of the expansion routes (standard trace, Fourier trace, LWE conversion, and direct assembly from level ciphertexts) produces an RGSW ciphertext all of whose rows encrypt that bit at the context's gadget, so that its external product with any ciphertext multiplies by the bit. Noise stays within the standard bound, for every combination of gadgets and ring degree.",
  ["inputs", "configurations"],
  "both bits, all test plaintexts, ring degrees and gadget combinations (default, key switching, negated secret)",
  "Tests cover the standard route at the default parameters and the slow route for bit 1; the Fourier route is only exercised indirectly.",
  ["src/rlwe.rs"],
  [("expand, expand_fourier, expand_slow, decomposed_rlwe_to_rgsw, make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2", "src/rlwe.rs")],
  (), ["phases of the rows, decrypted external products"])

p("C20", "LWE extraction and conversion preserve the chosen coefficient",
  "Extracting the LWE ciphertext at any position of an RLWE ciphertext gives an encryption, under the same key coefficients, of the plaintext coefficient at that position with unchanged noise. Converting an LWE ciphertext to RLWE gives an encryption of the polynomial whose constant coefficient is that message and whose other coefficients are zero, with noise within the standard bound for every key-switching gadget.",
  ["inputs", "configurations"],
  "all positions, plaintexts, ring degrees and key-switching gadgets",
  "Tests extract position 0 once and convert one bit at one gadget, comparing only the constant coefficient.",
  ["src/lwe.rs"],
  [("LWECiphertext::fill_with_sample_extract, fill_with_const_sample_extract", "src/lwe.rs"), ("LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key, conv_lwe_to_rlwe", "src/lwe.rs")],
  (), ["phases of the results"])

p("C21", "Demultiplexing yields exactly the one-hot vector of the index",
  "For every number of bits n of at least one and every index i below 2^n, demultiplexing the encrypted bit decomposition of i yields 2^n ciphertexts of which the i-th encrypts the input ciphertext's plaintext (one, by default) and all others encrypt zero. The noise of each output is within the standard bound, which grows linearly in n.",
  ["inputs", "configurations"],
  "all indices and depths, all input plaintexts, gadgets and ring degrees",
  "Tests cover depth 2 (two indices) and depth 4 at one parameter set, with input one.",
  ["src/decision_tree.rs"],
  [("demux, demux_with, demux_rec, bit_decomposed_rgsw", "src/decision_tree.rs")],
  (), ["phases of the outputs"])

p("C22", "Encrypted comparison against a constant is exact for every pair",
  "For every ring degree N and every pair m, d below N, applying the less-or-equal test against d to an encryption of X^m yields constant coefficient 1 if m <= d and 0 otherwise, and the equality test yields 1 if m = d and 0 otherwise, at any plaintext scaling. Constants of N or more are rejected.",
  ["inputs", "configurations"],
  "all pairs (m, d), ring degrees and scalings",
  "Tests fix m = N/2 at N = 2048 and skip m = d for the order test.",
  ["src/rlwe.rs"],
  [("RLWECiphertext::less_eq_than, eq_to", "src/rlwe.rs"), ("fourier_update_with_mul", "src/rlwe.rs")],
  (), ["constant coefficient of the phase"])

p("C23", "Plaintext decision-tree operations agree with the tree's meaning",
  "For every decision tree with less-or-equal nodes, missing children included, evaluation returns the label of the leaf reached by going left exactly when the feature is at most the threshold, or 0 when a missing child is reached. Counting leaves, internal nodes, depth and the largest feature index, flattening and index assignment agree with the structure in depth-first order, truncation removes exactly the branches without non-zero leaves and never changes an evaluation, and serialising to JSON and back restores the tree.",
  ["inputs"],
  "all trees (shape, thresholds, features, labels, missing children) and feature vectors",
  "Tests use three hand-written trees and serialise one; truncation and parsing are not tested.",
  ["src/decision_tree.rs"],
  [("Node::eval, count_*, max_feature_index, flatten, fix_index, new_with_depth, Clone, serde", "src/decision_tree.rs"), ("trunc_tree", "src/decision_tree.rs")],
  (), ["return values and structure"])

p("C24", "Encrypted decision-tree evaluation equals plaintext evaluation",
  "For every tree with less-or-equal nodes, every set of non-negative integer labels including large ones and all-zero ones, and every feature vector below the ring degree, comparing, expanding and evaluating over the encrypted features yields ciphertexts whose bits are exactly the label the plaintext evaluation gives. The simulation entry point returns these predictions in input order, one per feature vector, without failing, in serial and parallel mode, together with the parameters used.",
  ["inputs", "configurations"],
  "all trees up to the noise budget, labels, feature vectors and parameter sets",
  "Tests run three fixed trees with one or two feature vectors at the default parameters.",
  ["src/decision_tree.rs", "src/rlwe.rs"],
  [("encrypt_feature_vector, compare_expand, EncNode::new, EncNode::eval, decrypt_and_recompose, simulate", "src/decision_tree.rs")],
  (), ["decrypted prediction bits, SimulationResult"])

p("C25", "Hashing is a bijection and batch placement loses no requested item",
  "For every number of hash functions and domain size, the hash maps the pairs (function, item) one-to-one onto the output range, its two-dimensional form is the same position split by the row width, and the checked form rejects exactly the out-of-range arguments. Placing distinct indices into rows puts every one of them at one of its own hash locations with no row used twice, deterministically, and succeeds whenever first-fit in request order does; if an index cannot be placed, this is reported by a panic and never by silently dropping it.",
  ["inputs", "configurations"],
  "all hash tables, domain sizes, numbers of functions, row widths and index lists",
  "Tests use one hash function and a single index, for which placement cannot fail.",
  ["src/naive_hash.rs"],
  [("NaiveHash::new, hash, checked_hash, hash_to_tuple, hash_to_mapping", "src/naive_hash.rs")],
  [("NaiveHash.tables", "permutation of the output range", "src/naive_hash.rs")],
  ["return values"], "building a hash from a chosen table")

p("C26", "Reported noise is the true distance from the expected plaintext",
  "The reported noise of a ciphertext is the base-2 logarithm of the largest absolute difference, modulo 2^64, between its decryption phase and the encoded expected plaintext, for raw, encoded and ternary plaintexts and errors of any size including the maximum. For an RGSW encryption of one it is the average over its own levels of the noise of the body rows.",
  ["inputs", "configurations"],
  "all ciphertexts, keys, expected plaintexts and error vectors; all gadgets for the RGSW form",
  "Noise values are only printed by the tests, apart from one loose upper bound.",
  ["src/rlwe.rs", "src/rgsw.rs"],
  [("compute_noise, compute_noise_encoded, compute_noise_ternary", "src/rlwe.rs"), ("compute_noise_rgsw1", "src/rgsw.rs")],
  (), ["return values against a reference computed from the key bits"])

p("C27", "Parameter files expand to exactly the listed runs in order",
  "Every parameter list (with standard deviations of up to 15 significant decimal digits) survives serialisation to JSON and back unchanged, and expands to exactly the combinations of each entry's ORAM settings with that entry's TFHE settings, in file order with the TFHE setting varying fastest, none lost, duplicated or mixed between entries. A context built from a parameter set reports exactly these parameters.",
  ["inputs", "configurations"],
  "all parameter lists (modes, sizes, TFHE settings, empty lists)",
  "There is no test of the parameter code.",
  ["src/params.rs", "src/context.rs"],
  [("ServerParams::from_input_params_list, serde derives, Default impls", "src/params.rs"), ("Display for Context", "src/context.rs")],
  (), ["expanded list, Display output"])

p("C28", "The command-line program runs and reports exactly what was asked",
  "For every valid command line or parameter file the program prints a header and one row per run, in order, whose columns carry the requested TFHE parameters, mode and sizes; command-line flags apply when no parameter file can be opened, a parameter file overrides them, and a malformed file falls back to the documented default list. A dry run performs no work and prints placeholders for the measurements, and a real run in any mode finishes successfully with non-negative timings and a noise below the decoding threshold for correct parameters.",
  ["inputs", "configurations"],
  "all flag combinations and parameter files",
  "The binary has no tests at all.",
  ["src/main.rs", "src/cli.rs", "src/params.rs"],
  [("main, single_query, multi_query, batch_query", "src/main.rs"), ("Cli", "src/cli.rs")],
  (), ["exit status and standard output of the panacea binary"])

p("C29", "Data helpers are exact for every input",
  "Transposing a rectangular table swaps rows and columns exactly, the integer logarithm is the floor of log2 for every positive integer, the packing of a binary plaintext into an integer uses coefficient i as bit i for the first 64 coefficients and rejects non-binary ones among them, and reading a numeric CSV file returns every record after the header row in order and unchanged. The plaintext samplers return one coefficient per ring dimension, over the whole advertised range and nothing else.",
  ["inputs"],
  "all tables, integers, plaintexts and CSV files",
  "None of these helpers has a direct test.",
  ["src/utils.rs", "src/context.rs"],
  [("transpose, log2, pt_to_lossy_u64, parse_csv", "src/utils.rs"), ("Context::gen_pt, gen_binary_pt, gen_ternary_ptxt, gen_unit_pt, gen_zero_pt, gen_demuxed_pt", "src/context.rs")],
  (), ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
