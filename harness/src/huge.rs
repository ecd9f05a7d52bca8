//! One very large tree (more than 2^16 keys): what can be counted in it.
use crate::ctx::*;
use crate::store::{root_key, Store};
use borsh::BorshDeserialize;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Arc;

type H = sha2::Sha256;
type T<'a> = JellyfishMerkleTree<'a, Store, H>;

fn count(st: &Store, v: u64) -> i64 {
    match guard(|| T::new(st).get_leaf_count(v)) {
        Ok(c) => c as i64,
        Err(c) => c,
    }
}

/// Up to three pairs from a position, by rank among all keys (from 1); -1 for what is no pair.
fn firsts(it: anyhow::Result<JellyfishMerkleIterator<Store>>, keys: &[[u8; 32]], n: usize) -> Vec<i64> {
    let mut out = vec![];
    match it {
        Err(_) => out.push(ERR),
        Ok(it) => {
            for y in it.take(n) {
                out.push(y.ok().map_or(ERR, |(k, v)| rank(keys, &k, &v)));
            }
        }
    }
    out
}
fn rank(keys: &[[u8; 32]], k: &KeyHash, v: &[u8]) -> i64 {
    match keys.binary_search(&k.0) {
        Ok(j) if v == value(j) => j as i64 + 1,
        _ => ERR,
    }
}
fn value(j: usize) -> Vec<u8> {
    (j as u32).to_be_bytes()[..1 + j % 4].to_vec()
}
fn stats(b: &TreeUpdateBatch) -> Value {
    let n = b.node_batch.nodes();
    let leaves = n.values().filter(|n| matches!(n, Node::Leaf(_))).count();
    match b.node_stats.last() {
        Some(s) => json!([s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves, n.len(), leaves, b.stale_node_index_batch.len()]),
        None => json!([]),
    }
}

pub fn huge(x: &mut Ctx) {
    let n = 65_536 + x.rng.range(3, 90);
    let nib = x.rng.below(16) as u8;
    let mut set = BTreeSet::new();
    while set.len() < n {
        let mut k = [0u8; 32];
        for c in k.chunks_mut(8) {
            c.copy_from_slice(&x.rng.next().to_be_bytes());
        }
        k[0] = nib << 4 | (k[0] & 15); // everything below one child of the root
        set.insert(k);
    }
    let keys: Vec<[u8; 32]> = set.into_iter().collect();
    let mut gone: Vec<usize> = (0..x.rng.range(1, 4)).map(|_| x.rng.range(1, n)).collect();
    gone.sort();
    gone.dedup();
    let left = n - gone.len();
    let st = Arc::new(Store::new(x.rng.pct(50)));
    let bulk = x.rng.pct(50);
    let mut roots: Vec<RootHash> = vec![];
    let mut no = |r: RootHash| {
        let j = roots.iter().position(|y| *y == r).unwrap_or(roots.len());
        if j == roots.len() {
            roots.push(r);
        }
        j as i64
    };
    let w = guard(|| {
        let all = keys.iter().enumerate().map(|(j, k)| (KeyHash(*k), value(j)));
        let (r, b) = if bulk {
            let (r, b) = T::new(&st).batch_put_value_sets(vec![all.collect()], None, 0)?;
            (r[0], b)
        } else {
            T::new(&st).put_value_set(all.map(|(k, v)| (k, Some(v))), 0)?
        };
        let a = stats(&b);
        st.put_batch(&b)?;
        let (r1, b) = T::new(&st).put_value_set(gone.iter().map(|g| (KeyHash(keys[g - 1]), None)), 1)?;
        let c = stats(&b);
        st.put_batch(&b)?;
        Ok((r, r1, a, c))
    });
    let (r, r1, a, c) = match w {
        Ok(y) => y,
        Err(c) => {
            x.push(json!({"e": "huge", "n": n, "gone": gone, "res": c}));
            return;
        }
    };
    let root = [no(r), no(r1)];
    let cnt = [count(&st, 0), count(&st, 1)];
    // by index, and by key
    let mut idx = vec![];
    for i in [0, 1, 255, 256, 65_534, 65_535, 65_536, left - 1, left, n, n + 1, x.rng.below(n), x.rng.below(n)] {
        let it = JellyfishMerkleIterator::new_by_index(st.clone(), 1, i);
        idx.push(json!([i, firsts(it, &keys, 3)]));
    }
    let mut from = vec![];
    for _ in 0..6 {
        let k = x.rng.range(1, n);
        let it = JellyfishMerkleIterator::new(st.clone(), 1, KeyHash(keys[k - 1]));
        from.push(json!([k, firsts(it, &keys, 3)]));
    }
    let all = guard(|| {
        let (mut tot, mut asc, mut last) = (0, 0, 0);
        let mut at = vec![];
        for y in JellyfishMerkleIterator::new(st.clone(), 1, KeyHash([0; 32]))? {
            let (k, v) = y?;
            let r = rank(&keys, &k, &v);
            asc += (r > last) as i64;
            last = r;
            if tot % 7919 == 0 {
                at.push(json!([tot, r]));
            }
            tot += 1;
        }
        Ok(json!([tot, asc, at]))
    })
    .unwrap_or_else(|c| json!([c, c, []]));
    // restored in chunks, and pruned
    let dst = Arc::new(Store::new(false));
    let size = x.rng.range(3000, 30_000);
    let rest = guard(|| {
        let mut rr = JellyfishMerkleRestore::<H>::new(dst.clone(), 3, r1)?;
        let pairs: Vec<_> = (0..n).filter(|j| !gone.contains(&(j + 1))).map(|j| (KeyHash(keys[j]), value(j))).collect();
        for c in pairs.chunks(size) {
            let p = T::new(&st).get_range_proof(c[c.len() - 1].0, 1)?;
            rr.add_chunk(c.to_vec(), p)?;
        }
        rr.finish()?;
        T::new(&dst).get_root_hash(3)
    });
    let rest = match rest {
        Ok(r) => json!([no(r), count(&dst, 3), dst.all_nodes().unwrap_or_default().len()]),
        Err(c) => json!([c, c, c]),
    };
    let _ = st.prune(1);
    let held = st.all_nodes().unwrap_or_default().len();
    let after = count(&st, 1);
    // the root through its encodings
    let enc = guard(|| {
        let o = st.get_node(&root_key(1))?;
        let b = Node::try_from_slice(&borsh::to_vec(&o)?)?;
        let j: Node = serde_json::from_str(&serde_json::to_string(&o)?)?;
        Ok(json!([(b == o) as i64, (j == o) as i64]))
    })
    .unwrap_or_else(|c| json!([c, c]));
    let reads: Vec<Value> = (0..8)
        .map(|j| {
            let k = if j < gone.len() { gone[j] } else { x.rng.range(1, n) };
            let h = KeyHash(keys[k - 1]);
            let r = guard(|| {
                let (v, p) = T::new(&st).get_with_proof(h, 1)?;
                match &v {
                    Some(v) => p.verify_existence(r1, h, v)?,
                    None => p.verify_nonexistence(r1, h)?,
                }
                Ok(v.map_or(0, |v| rank(&keys, &h, &v)))
            });
            json!([k, r.unwrap_or_else(|c| c)])
        })
        .collect();
    x.push(json!({"e": "huge", "n": n, "gone": gone, "res": 0, "root": root, "stats": [a, c], "cnt": cnt, "idx": idx, "from": from,
        "all": all, "rest": rest, "held": held, "after": after, "enc": enc, "reads": reads}));
}
