//! The tree over other hash functions: the digests are the images of the same terms.
use crate::ctx::*;
use crate::rec;
use crate::store::{root_key, Store};
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

/// The numbers of the terms of the trace, by their digests under H.
fn images<H: SimpleHasher>(x: &Ctx) -> HashMap<[u8; 32], i64> {
    let mut of: Vec<Option<[u8; 32]>> = vec![Some(rec::PLACEHOLDER)];
    for t in &x.terms {
        let n = |j: usize| t[j].as_i64().unwrap_or(-1);
        let d = if n(0) == 0 {
            if n(1) < 1 || n(2) < 1 {
                None
            } else {
                let vh = H::hash(&x.vals[n(2) as usize]);
                Some(H::hash([rec::LEAF_SEP, &x.keys[n(1) as usize - 1], &vh].concat()))
            }
        } else if n(1) < 0 || n(2) < 0 {
            None
        } else {
            match (of[n(1) as usize], of[n(2) as usize]) {
                (Some(l), Some(r)) => Some(H::hash([rec::INT_SEP, &l, &r].concat())),
                _ => None,
            }
        };
        of.push(d);
    }
    of.iter().enumerate().filter_map(|(i, d)| d.map(|d| (d, i as i64))).collect()
}

fn event<H: SimpleHasher + 'static>(x: &mut Ctx, s: usize, ver: i64, name: &str) -> Value {
    let im = images::<H>(x);
    let num = |r: &RootHash| im.get(&r.0).copied().unwrap_or(-1);
    let want = x.content_at(s, ver);
    let n = x.n();
    // on the way: part of the contents, and something else
    let mut first = vec![];
    for k in 1..=n {
        if x.rng.pct(40) {
            first.push((k, if x.rng.pct(60) { want[k] } else { x.rng.range(1, x.m()) }));
        }
    }
    let mid = Ctx::apply(&x.empty(), &first);
    let second: Ops = (1..=n).filter(|k| mid[*k] != want[*k]).map(|k| (k, want[k])).collect();
    let kv = [x.kvs(&first), x.kvs(&second)];
    let st = Store::new(false);
    let mut old = RootHash(rec::PLACEHOLDER);
    let (mut upd, mut root) = (vec![], -1);
    for (v, c) in kv.iter().enumerate() {
        let r = guard(|| {
            let (r, p, b) = JellyfishMerkleTree::<_, H>::new(&st).put_value_set_with_proof(c.clone(), v as u64)?;
            let ok = code(&guard(|| p.verify_update(old, r, c.clone())));
            st.put_batch(&b)?;
            Ok((r, ok))
        });
        match r {
            Ok((r, ok)) => {
                upd.push(ok);
                old = r;
                root = num(&r);
            }
            Err(c) => {
                upd.push(c);
                root = -1;
            }
        }
    }
    let mut reads = vec![];
    for k in crate::gen::some_keys(x, 5) {
        let key = x.kh(k);
        let t = JellyfishMerkleTree::<_, H>::new(&st);
        reads.push(match guard(|| t.get_with_proof(key, 1)) {
            Err(c) => json!([k, c, []]),
            Ok((y, p)) => {
                let mut acc = vec![];
                for v in 0..=x.m() {
                    let r = if v == 0 {
                        guard(|| p.verify_nonexistence(old, key))
                    } else {
                        guard(|| p.verify_existence(old, key, &x.vals[v]))
                    };
                    if r.is_ok() {
                        acc.push(v);
                    }
                }
                json!([k, x.opt_val_no(&y), acc])
            }
        });
    }
    // restored
    let pairs: Vec<(KeyHash, Vec<u8>)> =
        (1..=n).filter(|k| want[*k] != 0).map(|k| (x.kh(k), x.vals[want[k]].clone())).collect();
    let cut = x.rng.range(1, pairs.len().max(1));
    let dst = Arc::new(Store::new(false));
    let rest = guard(|| {
        let mut r = JellyfishMerkleRestore::<H>::new(dst.clone(), 7, old)?;
        for c in pairs.chunks(cut) {
            let p = JellyfishMerkleTree::<_, H>::new(&st).get_range_proof(c[c.len() - 1].0, 1)?;
            r.add_chunk(c.to_vec(), p)?;
        }
        r.finish()?;
        JellyfishMerkleTree::<_, H>::new(&*dst).get_root_hash(7)
    });
    let rest = match rest {
        Ok(r) => num(&r),
        Err(c) => c,
    };
    let _ = root_key;
    json!({"e": "hasher", "s": s, "ver": ver, "hash": name, "root": root, "upd": upd, "reads": reads, "rest": rest})
}

/// The contents of a version over another hash function.
pub fn hashers(x: &mut Ctx, s: usize, ver: i64) {
    let j = if x.rng.pct(30) {
        event::<sha2::Sha256>(x, s, ver, "sha256")
    } else {
        event::<sha2::Sha512_256>(x, s, ver, "sha512-256")
    };
    x.push(j);
}
