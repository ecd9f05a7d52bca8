//! C23: encodings of everything a history produces.
use crate::ctx::*;
use crate::gen::{self, Cfg};
use crate::rec::Rec;
use crate::store::hash_of;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::*;
use jmt::{KeyHash, RootHash};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::json;
use std::collections::BTreeSet;

struct Tally {
    lost: usize,
    distinct: usize,
    codes: usize,
    differ: usize,
    total: usize,
}

fn borsh_rt<T: BorshSerialize + BorshDeserialize>(o: &T) -> Option<(T, Vec<u8>)> {
    guard(|| {
        let b = borsh::to_vec(o)?;
        let d = T::try_from_slice(&b)?;
        anyhow::ensure!(borsh::to_vec(&d)? == b);
        Ok((d, b))
    })
    .ok()
}
/// serde, by way of a format that has names and one that has not.
fn serde_rt<T: Serialize + DeserializeOwned>(o: &T) -> Option<(T, Vec<u8>)> {
    guard(|| {
        let b = serde_json::to_vec(o)?;
        let d: T = serde_json::from_slice(&b)?;
        anyhow::ensure!(serde_json::to_vec(&d)? == b);
        let b2 = bincode::serialize(&d)?;
        let d2: T = bincode::deserialize(&b2)?;
        anyhow::ensure!(bincode::serialize(&d2)? == b2 && bincode::serialize(o)? == b2);
        anyhow::ensure!(serde_json::to_vec(&d2)? == b);
        Ok((d2, b))
    })
    .ok()
}

/// Round trips through one encoding, and whether distinct objects have distinct encodings.
fn check<T>(t: &mut Tally, xs: &[T], rt: impl Fn(&T) -> Option<(T, Vec<u8>)>, same: impl Fn(&T, &T) -> bool, eq: impl Fn(&T, &T) -> bool) {
    let mut reps: Vec<&T> = vec![];
    let mut codes: BTreeSet<Vec<u8>> = BTreeSet::new();
    for o in xs {
        t.total += 1;
        if !reps.iter().any(|r| eq(r, o)) {
            reps.push(o);
        }
        match rt(o) {
            None => t.lost += 1,
            Some((d, b)) => {
                if !eq(o, &d) {
                    t.lost += 1;
                }
                if !same(o, &d) {
                    t.differ += 1;
                }
                codes.insert(b);
            }
        }
    }
    t.distinct += reps.len();
    t.codes += codes.len();
}

pub fn c23(x: &mut Ctx, c: &Cfg) {
    let s = x.new_store(true);
    let twin = x.new_store(false);
    let mut batches: Vec<TreeUpdateBatch> = vec![];
    let mut updates: Vec<Vec<Prf>> = vec![];
    for _ in 0..x.rng.range(2, 5) {
        let cur = x.content(s);
        let style = x.rng.below(4);
        let api = if x.rng.pct(60) { "setp" } else { "set" };
        let ops = gen::some_ops(x, &cur, c.ops.0, c.ops.1, style);
        let first = x.sc[s - 1].lat.map_or(0, |l| l + 1);
        let p = match x.compute(s, api, &[ops], first) {
            Some(p) => p,
            None => return,
        };
        x.store(&p);
        // the same update goes to the store that keeps objects
        let q = match x.compute(twin, api, &p.sets.clone(), first) {
            Some(q) => q,
            None => return,
        };
        x.store(&q);
        batches.push(p.batch.clone());
        updates.extend(p.upd.clone());
        x.reopen(s);
        if x.rng.pct(30) {
            let vs = gen::versions(x, s);
            let v = *x.rng.pick(&vs);
            x.prune(s, v);
            x.prune(twin, v);
        }
        let v = gen::some_ver(x, s);
        let few = x.rng.range(1, 3);
        gen::observe(x, s, v, gen::READS | gen::ROOTS | gen::ITER, few);
    }
    objects(x, s, batches, updates);
}

/// Encodings of everything there is.
pub fn objects(x: &mut Ctx, s: usize, batches: Vec<TreeUpdateBatch>, updates: Vec<Vec<Prf>>) {
    x.dump(s);
    let ver = gen::some_ver(x, s);
    let st = x.st(s);
    let nodes = st.all_nodes().unwrap_or_default();
    let mut t = Tally { lost: 0, distinct: 0, codes: 0, differ: 0, total: 0 };
    let keys: Vec<NodeKey> = nodes.iter().map(|y| y.0.clone()).chain(extra_keys(x)).collect();
    let ns: Vec<Node> = nodes.iter().map(|y| y.1.clone()).collect();
    let key_same = |a: &NodeKey, b: &NodeKey| {
        a == b
            && a.version() == b.version()
            && a.nibble_path() == b.nibble_path()
            && a.nibble_path().nibbles().map(u8::from).collect::<Vec<_>>() == b.nibble_path().nibbles().map(u8::from).collect::<Vec<_>>()
            && keys.iter().all(|k| k.cmp(a) == k.cmp(b))
    };
    check(&mut t, &keys, borsh_rt, key_same, |a, b| a == b);
    check(&mut t, &keys, serde_rt, key_same, |a, b| a == b);
    let ns: Vec<Node> = ns.into_iter().chain(odd_nodes(x)).collect();
    let node_same = |a: &Node, b: &Node| {
        hash_of(a) == hash_of(b)
            && match (a, b) {
                (Node::Internal(a), Node::Internal(b)) => {
                    a.leaf_count() == b.leaf_count()
                        && a.children_sorted().map(|(n, c)| (u8::from(n), c.clone())).collect::<Vec<_>>()
                            == b.children_sorted().map(|(n, c)| (u8::from(n), c.clone())).collect::<Vec<_>>()
                        && a.generate_bitmaps() == b.generate_bitmaps()
                }
                (Node::Leaf(a), Node::Leaf(b)) => a.key_hash() == b.key_hash(),
                (Node::Null, Node::Null) => true,
                _ => false,
            }
    };
    check(&mut t, &ns, borsh_rt, node_same, |a, b| a == b);
    check(&mut t, &ns, serde_rt, node_same, |a, b| a == b);
    let stale: Vec<StaleNodeIndex> = batches.iter().flat_map(|b| b.stale_node_index_batch.iter().cloned()).collect();
    check(&mut t, &stale, borsh_rt, |a, b| a.cmp(b).is_eq(), |a, b| a == b);
    let nb: Vec<NodeBatch> = batches.iter().map(|b| b.node_batch.clone()).collect();
    check(&mut t, &nb, borsh_rt, |a, b| a.nodes().len() == b.nodes().len() && a.values() == b.values(), |a, b| a == b);
    check(&mut t, &batches, borsh_rt, |a, b| a.node_stats == b.node_stats, |a, b| a == b);
    // proofs
    let tree = Tree::new(&*st);
    let v = x.v(ver);
    let root = x.root_of(s, ver);
    let mut ps: Vec<SparseMerkleProof<Rec>> = vec![];
    let mut rs: Vec<SparseMerkleRangeProof<Rec>> = vec![];
    for k in 1..=x.n() {
        if let Ok((_, p)) = guard(|| tree.get_with_proof(x.kh(k), v)) {
            ps.push(p);
        }
        if let Ok(p) = guard(|| tree.get_range_proof(x.kh(k), v)) {
            rs.push(p);
        }
    }
    let claims = |p: &SparseMerkleProof<Rec>| -> Vec<Vec<i64>> { (1..=x.n()).map(|k| x.claims(p, root, k).0).collect() };
    let proof_same = |a: &SparseMerkleProof<Rec>, b: &SparseMerkleProof<Rec>| claims(a) == claims(b);
    let proof_eq = |a: &SparseMerkleProof<Rec>, b: &SparseMerkleProof<Rec>| Prf::of(a) == Prf::of(b) && a == b;
    check(&mut t, &ps, borsh_rt, proof_same, proof_eq);
    check(&mut t, &ps, serde_rt, proof_same, proof_eq);
    let range_eq = |a: &SparseMerkleRangeProof<Rec>, b: &SparseMerkleRangeProof<Rec>| dec_range(a) == dec_range(b) && a == b;
    check(&mut t, &rs, borsh_rt, |a, b| dec_range(a) == dec_range(b), range_eq);
    check(&mut t, &rs, serde_rt, |a, b| dec_range(a) == dec_range(b), range_eq);
    // equal are those, and only those, that say the same
    for a in &ps {
        t.differ += ps.iter().filter(|b| (*a == **b) != (Prf::of(a) == Prf::of(b))).count();
        t.differ += (Prf::of(&a.clone()) != Prf::of(a)) as usize;
    }
    for a in &rs {
        t.differ += rs.iter().filter(|b| (*a == **b) != (dec_range(a) == dec_range(b))).count();
        t.differ += (dec_range(&a.clone()) != dec_range(a)) as usize;
    }
    let us: Vec<UpdateMerkleProof<Rec>> = updates.iter().map(|p| enc_update(p)).collect();
    let upd_eq = |a: &UpdateMerkleProof<Rec>, b: &UpdateMerkleProof<Rec>| dec_update(a) == dec_update(b);
    check(&mut t, &us, borsh_rt, upd_eq, upd_eq);
    check(&mut t, &us, serde_rt, upd_eq, upd_eq);
    let khs: Vec<KeyHash> = x.keys.iter().map(|k| KeyHash(*k)).collect();
    check(&mut t, &khs, borsh_rt, |a, b| a.0 == b.0, |a, b| a == b);
    check(&mut t, &khs, serde_rt, |a, b| a.0 == b.0, |a, b| a == b);
    let roots: Vec<RootHash> = x.sc[s - 1].roots.values().copied().collect();
    for r in &roots {
        let b: [u8; 32] = (*r).into();
        t.differ += (b != r.0 || RootHash::from(b) != *r || r.as_ref() != r.0) as usize;
    }
    // the bits of a path are those of its nibbles, from both ends
    for k in &keys {
        let p = k.nibble_path();
        let want: Vec<bool> = p.nibbles().flat_map(|n| (0..4).map(move |j| u8::from(n) >> (3 - j) & 1 == 1)).collect();
        let back: Vec<bool> = p.bits().rev().collect();
        t.differ += (p.bits().collect::<Vec<_>>() != want || back.iter().rev().ne(want.iter()) || p.num_nibbles() * 4 != want.len()) as usize;
    }
    check(&mut t, &roots, borsh_rt, |a, b| a.0 == b.0, |a, b| a == b);
    check(&mut t, &roots, serde_rt, |a, b| a.0 == b.0, |a, b| a == b);
    x.push(json!({"e": "enc", "total": t.total, "lost": t.lost, "distinct": t.distinct, "codes": t.codes, "differ": t.differ}));
}

/// Node keys that look alike: every length, trailing zeros, neighbouring versions.
fn extra_keys(x: &mut Ctx) -> Vec<NodeKey> {
    let mut out = vec![];
    let k = *x.rng.pick(&x.keys.clone());
    for zero in [true, false] {
        for d in 0..=64usize {
            if d > 12 && d < 60 && x.rng.pct(70) {
                continue;
            }
            let v = x.v(0).wrapping_add((d % 3) as u64 * 255);
            let path: Vec<u8> = (0..d).map(|i| if zero { 0 } else { crate::keys::nibble(&k, i) }).collect();
            out.push(NodeKey::new(v, path.into_iter().map(|n| n.into()).collect()));
        }
    }
    let mut no: Vec<NodeKey> = vec![];
    for o in out {
        if !no.contains(&o) {
            no.push(o);
        }
    }
    no
}

/// Internal nodes with any children, versions and leaf counts.
fn odd_nodes(x: &mut Ctx) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for _ in 0..x.rng.range(1, 6) {
        let mut b: Vec<u8> = vec![];
        let mut num = 0u64;
        let mut count = 0u64;
        let p = x.rng.range(5, 100);
        for j in 0..16 {
            if !x.rng.pct(p) && (num > 1 || j < 14) {
                b.push(0);
                continue;
            }
            num += 1;
            b.push(1);
            b.extend(x.rng.bytes32());
            let shift = x.rng.below(64);
            let v = (1u64 << shift).wrapping_sub(x.rng.below(3) as u64);
            b.extend(v.to_le_bytes());
            if x.rng.pct(40) {
                b.push(0);
                count += 1;
            } else {
                b.push(1);
                let c = (1u64 << x.rng.below(58)).wrapping_sub(x.rng.below(3) as u64).clamp(2, 1 << 58);
                b.extend(c.to_le_bytes());
                count += c;
            }
        }
        b.extend(num.to_le_bytes());
        b.extend(count.to_le_bytes());
        // (if encodings look otherwise, do without)
        if let Ok(n) = guard(|| Ok(Node::try_from_slice(&[&[1u8][..], &b].concat())?)) {
            if matches!(&n, Node::Internal(i) if i.leaf_count() as u64 == count && i.children_sorted().count() as u64 == num) && !out.contains(&n) {
                out.push(n);
            }
        }
    }
    out
}
