//! C23, C24: decision trees, in the clear and encrypted, against a recursive reference evaluator.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oramh::in_new_pool;
use crate::refm::*;
use crate::ring_checks::*;
use panacea::decision_tree::*;
use panacea::params::TFHEParameters;
use panacea::rlwe::gen_all_subs_ksk_fourier;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// The reference tree.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum T {
    L(u64),
    N(Box<I>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct I {
    th: u64,
    f: u64,
    ix: u64,
    gt: bool,
    l: Option<T>,
    r: Option<T>,
}

fn to_node(t: &T) -> Node {
    match t {
        T::L(x) => Node::Leaf(*x as usize),
        T::N(i) => Node::Internal(Box::new(Internal {
            threshold: i.th as usize,
            feature: i.f as usize,
            index: i.ix as usize,
            op: if i.gt { Op::GT } else { Op::LEQ },
            left: i.l.as_ref().map(to_node),
            right: i.r.as_ref().map(to_node),
        })),
    }
}

fn of_internal(i: &Internal) -> I {
    I {
        th: i.threshold as u64,
        f: i.feature as u64,
        ix: i.index as u64,
        gt: matches!(i.op, Op::GT),
        l: i.left.as_ref().map(of_node),
        r: i.right.as_ref().map(of_node),
    }
}

fn of_node(n: &Node) -> T {
    match n {
        Node::Leaf(x) => T::L(*x as u64),
        Node::Internal(i) => T::N(Box::new(of_internal(i))),
    }
}

fn eval(t: &T, f: &[usize]) -> u64 {
    match t {
        T::L(x) => *x,
        T::N(i) => {
            let next = if f[i.f as usize] as u64 <= i.th { &i.l } else { &i.r };
            next.as_ref().map_or(0, |t| eval(t, f))
        }
    }
}

fn leaves(t: &T) -> usize {
    match t {
        T::L(_) => 1,
        T::N(i) => i.l.as_ref().map_or(0, leaves) + i.r.as_ref().map_or(0, leaves),
    }
}
fn internals(t: &T) -> usize {
    match t {
        T::L(_) => 0,
        T::N(i) => 1 + i.l.as_ref().map_or(0, internals) + i.r.as_ref().map_or(0, internals),
    }
}
fn depth(t: &T) -> usize {
    match t {
        T::L(_) => 0,
        T::N(i) => 1 + i.l.as_ref().map_or(0, depth).max(i.r.as_ref().map_or(0, depth)),
    }
}
fn max_feature(t: &T) -> u64 {
    match t {
        T::L(_) => 0,
        T::N(i) => i.f.max(i.l.as_ref().map_or(0, max_feature)).max(i.r.as_ref().map_or(0, max_feature)),
    }
}
fn max_label(t: &T) -> u64 {
    match t {
        T::L(x) => *x,
        T::N(i) => i.l.as_ref().map_or(0, max_label).max(i.r.as_ref().map_or(0, max_label)),
    }
}
fn preorder<'a>(t: &'a T, out: &mut Vec<&'a I>) {
    if let T::N(i) = t {
        out.push(i);
        for c in [&i.l, &i.r].into_iter().flatten() {
            preorder(c, out);
        }
    }
}
fn reindex(t: &mut T, next: &mut u64) {
    if let T::N(i) = t {
        i.ix = *next;
        *next += 1;
        for c in [&mut i.l, &mut i.r].into_iter().flatten() {
            reindex(c, next);
        }
    }
}
fn trunc(t: &Option<T>) -> Option<T> {
    match t.as_ref()? {
        T::L(0) => None,
        T::L(x) => Some(T::L(*x)),
        T::N(i) => {
            let (l, r) = (trunc(&i.l), trunc(&i.r));
            if l.is_none() && r.is_none() {
                return None;
            }
            Some(T::N(Box::new(I { l, r, ..**i })))
        }
    }
}
fn json(t: &T) -> String {
    let o = |c: &Option<T>| c.as_ref().map_or("null".into(), json);
    match t {
        T::L(x) => format!(r#"{{"leaf":{x}}}"#),
        T::N(i) => format!(
            r#"{{"internal":{{"threshold":{},"feature":{},"index":{},"op":"{}","left":{},"right":{}}}}}"#,
            i.th, i.f, i.ix, if i.gt { "gt" } else { "leq" }, o(&i.l), o(&i.r)
        ),
    }
}

#[derive(Clone, Copy)]
struct Gen {
    features: u64,
    th: u64,
    labels: u8,
    missing: u32,
    gt: u32,
    max_nodes: u32,
    max_depth: u32,
}

fn label(kind: u8) -> BoxedStrategy<u64> {
    match kind {
        // any
        0 => prop_oneof![
            3 => Just(0u64), 4 => 1u64..16, 2 => any::<u64>(), 1 => any::<u32>().prop_map(|x| x as u64),
            1 => (0u32..64).prop_map(|k| 1u64 << k),
            1 => (0u32..64).prop_map(|k| (1u64 << k) - 1),
            1 => Just(u64::MAX), 1 => Just(u64::MAX - 1),
        ].boxed(),
        // all zero
        1 => Just(0u64).boxed(),
        // small
        2 => (0u64..8).boxed(),
        // around powers of two beyond the precision of f64
        _ => (0u32..10, 50u32..64).prop_map(|(x, k)| match x {
            0..=3 => 0u64,
            4 | 5 => 1 << k,
            6 => (1 << k) - 1,
            7 | 8 => (1 << k) + 1,
            _ => u64::MAX,
        }).boxed(),
    }
}

fn tree(g: Gen) -> BoxedStrategy<T> {
    let leaf = label(g.labels).prop_map(T::L);
    let node = move |l: BoxedStrategy<Option<T>>, r: BoxedStrategy<Option<T>>| {
        let th = if g.th == 0 { prop_oneof![6 => 0u64..12, 1 => any::<u64>(), 1 => Just(u64::MAX)].boxed() } else {
            prop_oneof![6 => 0..g.th, 1 => Just(0), 1 => Just(g.th - 1)].boxed() };
        (th, 0..g.features, any::<u32>(), 0..100u32, l, r)
            .prop_map(move |(th, f, ix, gt, l, r)| T::N(Box::new(I { th, f, ix: ix as u64, gt: gt < g.gt, l, r })))
    };
    let child = move |s: BoxedStrategy<T>| -> BoxedStrategy<Option<T>> {
        (0..100u32, s).prop_map(move |(m, t)| if m < g.missing { None } else { Some(t) }).boxed()
    };
    let inner = leaf.boxed().prop_recursive(g.max_depth, g.max_nodes, 2, move |s| {
        let (l, r) = (child(s.clone().boxed()), child(s.boxed()));
        node(l, r).boxed()
    }).boxed();
    let (l, r) = (child(inner.clone()), child(inner));
    node(l, r).boxed()
}

fn count_nodes_cap(t: &mut T, left: &mut usize) {
    if let T::N(i) = t {
        for c in [&mut i.l, &mut i.r] {
            if let Some(T::N(_)) = c {
                if *left == 0 {
                    *c = Some(T::L(1));
                } else {
                    *left -= 1;
                    count_nodes_cap(c.as_mut().unwrap(), left);
                }
            }
        }
    }
}

/// a chain with branches going left or right
fn chain(len: usize, seed: u64) -> T {
    let mut r = Sm(seed);
    let mut t = T::L(1 + r.below(9));
    for i in 0..len {
        let other = if r.below(3) == 0 { None } else { Some(T::L(r.below(4))) };
        let (l, rr) = if r.below(2) == 0 { (Some(t), other) } else { (other, Some(t)) };
        t = T::N(Box::new(I { th: r.below(12), f: r.below(4), ix: i as u64, gt: false, l, r: rr }));
    }
    t
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TreeCase {
    t: T,
    fs: Vec<Vec<u64>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigCase {
    d: usize,
    seed: u64,
    fs: Vec<Vec<u64>>,
}

/// a tree of depth d, few branches of which end early; zero labels in long runs
fn big(d: usize, r: &mut Sm) -> T {
    if d == 0 {
        return T::L(if r.below(3) == 0 { r.below(1 << 20) } else { 0 });
    }
    let mut side = || match r.below(24) {
        0 => None,
        1 => Some(T::L(r.below(3))),
        _ => Some(big(d - 1, r)),
    };
    let (l, rr) = (side(), side());
    T::N(Box::new(I { th: r.below(12), f: r.below(4), ix: 0, gt: false, l, r: rr }))
}

fn has_gt(t: &T) -> bool {
    match t {
        T::L(_) => false,
        T::N(i) => i.gt || i.l.as_ref().map_or(false, has_gt) || i.r.as_ref().map_or(false, has_gt),
    }
}
fn has_missing(t: &T) -> bool {
    match t {
        T::L(_) => false,
        T::N(i) => [&i.l, &i.r].iter().any(|c| c.as_ref().map_or(true, has_missing)),
    }
}

fn same_tree(what: &str, got: &T, want: &T) -> Result<(), String> {
    ensure!(got == want, "{what}: {} instead of {}", json(got), json(want));
    Ok(())
}

/// vectors that go both ways at the thresholds
fn vectors(t: &T, fs: &[Vec<u64>]) -> Vec<Vec<usize>> {
    let nf = max_feature(t) as usize + 1;
    let mut flat = vec![];
    preorder(t, &mut flat);
    let mut out: Vec<Vec<usize>> = fs
        .iter()
        .map(|f| (0..nf.max(f.len())).map(|i| f.get(i).copied().unwrap_or(i as u64) as usize).collect())
        .collect();
    for i in flat.iter().take(6) {
        for d in [0, 1, -1i64] {
            let mut f = out[0].clone();
            f[i.f as usize] = (i.th as usize).saturating_add_signed(d as isize);
            out.push(f);
        }
    }
    out
}

fn tree_case(k: &TreeCase) -> R {
    let t = &k.t;
    let node = to_node(t);
    let gt = has_gt(t);
    let leaf = matches!(t, T::L(_));
    ensure!(node.count_leaf() == leaves(t), "count_leaf is {}, the tree has {}", node.count_leaf(), leaves(t));
    ensure!(node.count_internal() == internals(t), "count_internal is {}, the tree has {}", node.count_internal(), internals(t));
    ensure!(node.count_depth() == depth(t), "count_depth is {}, the tree has {}", node.count_depth(), depth(t));
    ensure!(node.max_feature_index() as u64 == max_feature(t), "max_feature_index is {}, the tree has {}", node.max_feature_index(), max_feature(t));

    let check_flat = |n: &Node, t: &T, what: &str| -> Result<(), String> {
        let flat = n.flatten();
        let mut want = vec![];
        preorder(t, &mut want);
        ensure!(flat.len() == want.len(), "{what}: flattening gives {} nodes instead of {}", flat.len(), want.len());
        for (j, (a, b)) in flat.iter().zip(&want).enumerate() {
            let a = of_internal(a);
            ensure!(a.th == b.th && a.f == b.f && a.ix == b.ix && a.gt == b.gt, "{what}: flattened node {j} is {a:?}, expected {b:?} without children");
        }
        Ok(())
    };
    check_flat(&node, t, "as given")?;
    same_tree("clone", &of_node(&node.clone()), t)?;

    let mut paths = std::collections::HashSet::new();
    if !gt {
        for f in vectors(t, &k.fs) {
            let want = eval(t, &f);
            let got = node.eval(&f) as u64;
            ensure!(got == want, "evaluation on {f:?} is {got}, expected {want}, tree {}", json(t));
            paths.insert(want);
        }
    }

    // index assignment
    if leaf {
        ensure!(panics(|| { to_node(t).fix_index(); }), "fix_index accepts a leaf");
        ensure!(panics(|| { to_node(t).inner_value(); }), "inner_value accepts a leaf");
    } else {
        let mut m = to_node(t);
        let mut want = t.clone();
        let mut next = 0;
        reindex(&mut want, &mut next);
        let last = m.fix_index() as u64;
        ensure!(last == next - 1, "fix_index returns {last}, expected {}", next - 1);
        same_tree("after fix_index", &of_node(&m), &want)?;
        check_flat(&m, &want, "after fix_index")?;
        ensure!(m.flatten().iter().enumerate().all(|(i, x)| x.index == i), "flattened indices are not in order");
        same_tree("inner_value", &T::N(Box::new(of_internal(&to_node(t).inner_value()))), t)?;
    }

    // truncation
    let tr = trunc_tree(&Some(to_node(t)));
    let got = tr.as_ref().map(of_node);
    let want = trunc(&Some(t.clone()));
    ensure!(got == want, "truncation gives {:?}, expected {:?}", got.as_ref().map(json), want.as_ref().map(json));
    ensure!(trunc_tree(&None).is_none(), "truncating nothing gives something");
    if !gt {
        for f in vectors(t, &k.fs) {
            let a = tr.as_ref().map_or(0, |n| n.eval(&f)) as u64;
            ensure!(a == eval(t, &f), "truncation changes the evaluation on {f:?} to {a}");
        }
    }

    // JSON
    if depth(t) <= 60 {
        let s = serde_json::to_string(&node).map_err(|e| format!("serialisation: {e}"))?;
        let back: Node = serde_json::from_str(&s).map_err(|e| format!("parsing {s}: {e}"))?;
        same_tree("JSON round trip", &of_node(&back), t)?;
        let read: Node = serde_json::from_str(&json(t)).map_err(|e| format!("parsing {}: {e}", json(t)))?;
        same_tree("JSON reading", &of_node(&read), t)?;
        let v: serde_json::Value = serde_json::from_str(&s).unwrap();
        let w: serde_json::Value = serde_json::from_str(&json(t)).unwrap();
        ensure!(v == w, "JSON is {s}, expected {}", json(t));
    }
    Ok(Out::new(internals(t) >= 2 && (gt || paths.len() >= 2))
        .label_if(has_missing(t), "missing children")
        .label_if(gt, "with a greater-than node (structure only)")
        .label_if(want.is_none(), "truncates to nothing")
        .label_if(max_label(t) >> 53 != 0, "labels beyond 2^53")
        .label_if(leaf, "a single leaf"))
}

fn full_case(d: &usize) -> R {
    let d = *d;
    let n = Node::new_with_depth(d);
    let t = of_node(&n);
    fn check(t: &T, d: usize, first: &mut bool) -> Result<(), String> {
        match t {
            T::L(x) => {
                ensure!(d == 0, "a leaf {d} levels too high");
                ensure!(*x == u64::from(*first), "leaf label {x}");
                *first = false;
                Ok(())
            }
            T::N(i) => {
                ensure!(d > 0, "a node too deep");
                for c in [&i.l, &i.r] {
                    check(c.as_ref().ok_or("missing child")?, d - 1, first)?;
                }
                Ok(())
            }
        }
    }
    check(&t, d, &mut true)?;
    ensure!(n.count_leaf() == 1 << d && n.count_internal() == (1 << d) - 1 && n.count_depth() == d, "counts of the full tree of depth {d}");
    if d == 1 {
        same_tree("default", &of_node(&Node::default()), &t)?;
    }
    Ok(Out::new(d >= 2))
}

pub fn c23() -> Check {
    let fs = || vec(vec(prop_oneof![8 => 0u64..14, 1 => any::<u64>()], 0..=6), 1..=4).boxed();
    let g = |labels: u8, missing: u32, gt: u32| Gen { features: 5, th: 0, labels, missing, gt, max_nodes: 24, max_depth: 6 };
    Check {
        id: "C23",
        assumptions: &["greater-than nodes take part in everything but evaluation, which the crate does not offer for them", "JSON is checked to depth 60 (serde_json reads 127 nested levels, two for every node)"],
        subs: vec![
            sub("trees", "random trees with missing children, zero, large and extreme labels, vectors at, below and above thresholds; non-trivial: two internal nodes and two different answers", 360000, 7200000,
                move || (prop_oneof![
                        6 => tree(g(0, 15, 0)), 2 => tree(g(2, 0, 0)), 2 => tree(g(2, 40, 0)), 1 => tree(g(1, 10, 0)), 2 => tree(g(0, 15, 20)),
                        1 => label(0).prop_map(T::L),
                    ], fs()).prop_map(|(t, fs)| TreeCase { t, fs }).boxed(),
                tree_case),
            sub("chains", "long one-sided trees; non-trivial as above", 30000, 600000,
                move || (2usize..=250, any::<u64>(), fs()).prop_map(|(n, s, fs)| TreeCase { t: chain(n, s), fs }).boxed(),
                tree_case),
            sub("long_chains", "one-sided trees of 1000 to 6000 internal nodes; non-trivial as above", 120, 2400,
                move || (1000usize..=6000, any::<u64>(), fs()).prop_map(|(n, s, fs)| TreeCase { t: chain(n, s), fs }).boxed(),
                tree_case),
            sub("large_trees", "nearly full random trees of 2^10 to 2^17 nodes; non-trivial as above", 80, 1600,
                move || (10usize..=17, any::<u64>(), fs()).prop_map(|(d, seed, fs)| BigCase { d, seed, fs }).boxed(),
                |k| tree_case(&TreeCase { t: big(k.d, &mut Sm(k.seed)), fs: k.fs.clone() })),
            sub("full_trees", "full trees of depth 0 to 11; non-trivial: depth at least 2", 600, 12000, || (0usize..=11).boxed(), full_case),
        ],
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EncCase {
    p: P,
    t: T,
    fs: Vec<Vec<u64>>,
    seed: u64,
}

/// predicted log2 deviation of an output bit
fn tree_err(p: &P, t: &T) -> f64 {
    let np = p.np();
    let n = p.n() as f64;
    let bits = random_bits(p.n(), 77);
    let fft = 4096.0 * (p.logn as f64 + 1.0) * n.sqrt() * n;
    let body = np.trace(&bits).plus(&np.iid(n * n * n * np.sigma * np.sigma + n * n * fft * fft));
    let step = np.ep_assembled(&body).plus(&np.rnd());
    let d = depth(t) as f64;
    let l = leaves(t).max(1) as f64;
    step.times(d).log_std() + l.log2()
}

fn enc_case(k: &EncCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let node = to_node(&k.t);
    let flat = node.flatten();
    let neg = e.sk.neg_gsw(&mut e.ctx);
    let map = gen_all_subs_ksk_fourier(&e.sk, &mut e.ctx);
    let mut answers = std::collections::HashSet::new();
    let mut buf = e.ctx.gen_fft_ctx();
    let mut decoded = 0;
    for f in vectors(&k.t, &k.fs) {
        let f: Vec<usize> = f.iter().map(|x| x % n).collect();
        let want = eval(&k.t, &f);
        ensure!(node.eval(&f) as u64 == want, "plaintext evaluation on {f:?}");
        let cts = encrypt_feature_vector(&e.sk, &f, &mut e.ctx);
        ensure!(cts.len() == f.len(), "{} encrypted features for {}", cts.len(), f.len());
        for (i, c) in cts.iter().enumerate() {
            ensure!(c.len() == p.l, "feature {i}: {} levels instead of {}", c.len(), p.l);
            for (j, x) in c.iter().enumerate() {
                let mut m = vec![0u64; n];
                m[f[i]] = 1 << (64 - p.b * (j + 1) - p.logn);
                let d = max_abs_f(&psub(&phase(x, &e.s), &m));
                ensure!(d <= 9.5 * e.np.sigma + 2.0, "feature {i} = {} at level {}: {d:.3e} off", f[i], j + 1);
            }
        }
        let mut bits = compare_expand(&flat, &cts, &neg, &map, &e.ctx);
        let enc = EncNode::new(&node, &mut bits);
        ensure!(bits.next().is_none(), "choice bits left over");
        drop(bits);
        ensure!(enc.max_leaf() as u64 == max_label(&k.t), "max_leaf is {}, the tree has {}", enc.max_leaf(), max_label(&k.t));
        let out = enc.eval(&e.ctx, &mut buf);
        ensure!(out.len() <= 64, "{} output bits", out.len());
        let mut got = 0u64;
        for (i, c) in out.iter().enumerate() {
            let mut pt = e.ctx.gen_zero_pt();
            e.sk.decrypt_decode_rlwe(&mut pt, c, &e.ctx);
            let b = pl_vec(&pt)[0];
            ensure!(b <= 1, "output bit {i} on {f:?} decrypts to {b}");
            got |= b << i;
            decoded += 1;
        }
        ensure!(got == want, "prediction on {f:?} is {got}, the plaintext evaluation gives {want}, tree {}", json(&k.t));
        answers.insert(want);
    }
    for bad in [n, n + 1, usize::MAX] {
        ensure!(panics(|| { encrypt_feature_vector(&e.sk, &vec![bad], &mut p.ctx(1)); }), "a feature value of {bad} is accepted with N={n}");
    }
    Ok(Out::new(internals(&k.t) >= 2 && answers.len() >= 2 && decoded > 0)
        .label_if(has_missing(&k.t), "missing children")
        .label_if(max_label(&k.t) == 0, "all labels zero")
        .label_if(max_label(&k.t) >> 53 != 0, "labels beyond 2^53"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimCase {
    t: T,
    fs: Vec<Vec<u64>>,
    parallel: bool,
    pools: Vec<usize>,
}

fn sim(k: &SimCase) -> R {
    let node = to_node(&k.t);
    let nf = max_feature(&k.t) as usize + 1;
    let fs: Vec<Vec<usize>> = k.fs.iter().map(|f| (0..nf.max(f.len())).map(|i| (f.get(i).copied().unwrap_or(3) % 2048) as usize).collect()).collect();
    let mut fs = fs;
    if !fs.is_empty() {
        // vectors that fall on both sides of some thresholds
        let mut flat = vec![];
        preorder(&k.t, &mut flat);
        for (j, i) in flat.iter().take(3).enumerate() {
            let mut f = fs[j % fs.len()].clone();
            f[i.f as usize] = if f[i.f as usize] as u64 <= i.th { (i.th as usize + 1) % 2048 } else { i.th as usize % 2048 };
            fs.push(f);
        }
    }
    let want: Vec<u64> = fs.iter().map(|f| eval(&k.t, f)).collect();
    let d = TFHEParameters::default();
    for &threads in &k.pools {
        let t0 = std::time::Instant::now();
        let r = guarded(|| Ok(in_new_pool(threads, || simulate(&node, &fs, k.parallel))))
            .map_err(|m| format!("simulation of {} on {fs:?} with {threads} threads fails: {m}", json(&k.t)))?;
        let wall = t0.elapsed();
        ensure!(r.predictions == want, "predictions {:?} instead of {want:?} with {threads} threads", r.predictions);
        ensure!(r.input_count == fs.len(), "input_count is {}", r.input_count);
        ensure!(r.setup_duration + r.server_duration <= wall, "durations {:?} and {:?} exceed the run's {wall:?}", r.setup_duration, r.server_duration);
        let shown = r.to_string();
        let (base, lev) = ((d.base_log, d.level_count), (d.key_switch_base_log, d.key_switch_level_count));
        ensure!((r.base_log.0, r.level_count.0) == base && (r.ks_base_log.0, r.ks_level_count.0) == lev
            && (r.negs_base_log.0, r.negs_level_count.0) == (d.negs_base_log, d.negs_level_count)
            && r.poly_size.0 == d.polynomial_size && r.std.0 == d.standard_deviation, "parameters reported: {shown}");
        let tail = format!("q=64, poly_size=2048, log_std=-55.0, default_decomp=(5,9), ks_decomp=(5,11), negs_decomp=(5,11)");
        let tail2 = tail.replace("-55.0", "-55");
        ensure!(shown.starts_with(&format!("input_count={}, ", fs.len())) && (shown.ends_with(&tail) || shown.ends_with(&tail2)), "displayed result: {shown}");
    }
    let distinct: std::collections::HashSet<_> = want.iter().collect();
    Ok(Out::new(distinct.len() >= 2)
        .label(if k.parallel { "parallel" } else { "serial" })
        .label_if(max_label(&k.t) == 0, "all labels zero")
        .label_if(fs.is_empty(), "no feature vectors"))
}

fn sim_tree(max: usize) -> BoxedStrategy<T> {
    let g = |labels: u8, missing: u32| Gen { features: 3, th: 2048, labels, missing, gt: 0, max_nodes: 8, max_depth: 4 };
    prop_oneof![4 => tree(g(2, 10)), 2 => tree(g(0, 10)), 1 => tree(g(1, 0))]
        .prop_map(move |mut t| {
            count_nodes_cap(&mut t, &mut (max - 1));
            t
        })
        .boxed()
}

/// parameters under which the tree can be evaluated
fn fit_tree(mut p: P, t: T, fs: Vec<Vec<u64>>, seed: u32) -> EncCase {
    if p.b * p.l + p.logn > 64 {
        p.l = (64 - p.logn) / p.b;
    }
    let p = fit(p, 5.0, |p| tree_err(p, &t));
    EncCase { p, t, fs, seed: seed as u64 }
}

fn stretch(t: &mut T, by: u64) {
    if let T::N(i) = t {
        i.th = i.th * by + by / 2;
        for c in [&mut i.l, &mut i.r] {
            c.as_mut().into_iter().for_each(|c| stretch(c, by));
        }
    }
}

pub fn c24() -> Check {
    let g = |labels: u8, missing: u32| Gen { features: 4, th: 64, labels, missing, gt: 0, max_nodes: 14, max_depth: 5 };
    Check {
        id: "C24",
        assumptions: &[
            "plaintext moduli are fitted so that the predicted deviation of an output leaves 5 bits; the threshold lies below the ring degree, as less_eq_than asserts",
            "simulate always uses the default parameters (N=2048) and rejects a tree that is a single leaf",
        ],
        subs: vec![
            sub("evaluate", "random trees up to 9 internal nodes on small rings with fitted parameters, vectors at, below and above the thresholds; non-trivial: two internal nodes and two different predictions", 600, 80000,
                move || (ring_params(6, 7, 8), prop_oneof![4 => tree(g(0, 15)), 2 => tree(g(2, 15)), 1 => tree(g(1, 15)), 2 => tree(g(3, 15))], vec(vec(0u64..64, 0..=5), 1..=2), any::<u32>())
                    .prop_map(|(p, mut t, fs, seed)| {
                        count_nodes_cap(&mut t, &mut 8);
                        fit_tree(p, t, fs, seed)
                    }).boxed(),
                enc_case),
            sub("deep", "one-sided trees of 10 to 40 internal nodes, evaluated as above", 60, 6000,
                || (ring_params(6, 6, 7), 10usize..=40, vec(vec(0u64..12, 4), 1..=1), any::<u32>())
                    .prop_map(|(p, len, fs, seed)| fit_tree(p, chain(len, seed as u64), fs, seed)).boxed(),
                enc_case),
            sub("bushy", "trees of 20 to 500 internal nodes, nearly full, evaluated as above", 16, 1600,
                || (ring_params(6, 6, 7), prop_oneof![4 => 5usize..=7, 1 => 8usize..=9], vec(vec(0u64..14, 4), 1..=1), any::<u32>())
                    .prop_map(|(p, d, fs, seed)| fit_tree(p, big(d, &mut Sm(seed as u64)), fs, seed)).boxed(),
                enc_case),
            sub("many_features", "trees that test some of up to 600 features", 12, 1600,
                || (ring_params(6, 6, 7), tree(Gen { features: 600, th: 64, labels: 2, missing: 10, gt: 0, max_nodes: 6, max_depth: 3 }), vec(vec(0u64..64, 600), 1..=1), any::<u32>())
                    .prop_map(|(p, mut t, fs, seed)| {
                        count_nodes_cap(&mut t, &mut 3);
                        fit_tree(p, t, fs, seed)
                    }).boxed(),
                enc_case),
            sub("large_ring", "small trees at N=512 to 4096, values over the whole range", 12, 800,
                || (ring_params(9, 10, 12), tree(Gen { features: 2, th: 512, labels: 2, missing: 10, gt: 0, max_nodes: 4, max_depth: 2 }), vec(vec(any::<u64>(), 2), 1..=1), any::<u32>())
                    .prop_map(|(p, mut t, fs, seed)| {
                        count_nodes_cap(&mut t, &mut 1);
                        stretch(&mut t, p.n() as u64 / 512);
                        fit_tree(p, t, fs, seed)
                    }).boxed(),
                enc_case),
            sub_opt("simulate", "the simulation entry point, serial and parallel; non-trivial: two different predictions", 24, 800, Opt { workers: 4, shrink: 40 },
                || (sim_tree(5), vec(vec(0u64..2048, 0..=3), 0..=4), any::<bool>()).prop_map(|(t, fs, parallel)| SimCase { t, fs, parallel, pools: vec![0] }).boxed(),
                sim),
            sub_opt("simulate_many", "the simulation entry point on 9 to 40 feature vectors; non-trivial: two different predictions", 4, 160, Opt { workers: 2, shrink: 20 },
                || (sim_tree(2), vec(vec(0u64..2048, 2..=3), 9usize..=36), prop_oneof![4 => Just(true), 1 => Just(false)]).prop_map(|(t, fs, parallel)| SimCase { t, fs, parallel, pools: vec![0] }).boxed(),
                sim),
        ],
    }
}

pub fn parallel_sub() -> Sub {
    sub_opt("trees", "the tree simulation in parallel mode under several thread pool sizes against plaintext evaluation; non-trivial: two different predictions", 6, 300, Opt { workers: 2, shrink: 20 },
        || (sim_tree(3), vec(vec(0u64..2048, 0..=3), 2..=6), vec(prop_oneof![Just(1usize), Just(2), Just(3), Just(8), Just(17)], 2))
            .prop_map(|(t, fs, pools)| SimCase { t, fs, parallel: true, pools }).boxed(),
        sim)
}
