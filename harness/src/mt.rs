//! Readers in other threads, while versions are committed to and pruned from the bundled store.
//!
//! Version 0 has all the keys; version w overwrites those with (key + w) divisible by 3 and, w being
//! odd, removes those with key and w equal modulo 5.  The values are one more than the version that
//! wrote them, 0 is absence.  A reader takes a version as committed once its root is there.
use crate::ctx::*;
use crate::keys::set_nibble;
use jmt::mock::MockTreeStore;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, OwnedValue};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

type T<'a> = JellyfishMerkleTree<'a, MockTreeStore, sha2::Sha256>;

fn opt(v: &Option<OwnedValue>) -> i64 {
    v.as_ref().map_or(0, |v| if v.len() == 1 { v[0] as i64 } else { ERR })
}

type Obs = (BTreeSet<[i64; 6]>, BTreeSet<[i64; 4]>);

pub fn mt(x: &mut Ctx) {
    let n = x.rng.range(150, 500);
    let last = x.rng.range(4, 7) as u64;
    let base = *x.rng.pick(&[0u64, 1, 250, u32::MAX as u64]);
    let overwrite = x.rng.pct(30);
    let sampled: Vec<usize> = (0..6).map(|_| x.rng.range(1, n)).collect();
    let keys: Vec<KeyHash> = (0..n)
        .map(|_| {
            let mut k = [0u8; 32];
            for (j, b) in k.iter_mut().enumerate() {
                *b = if j < 8 { x.rng.below(256) as u8 } else { 7 };
            }
            set_nibble(&mut k, 0, x.rng.below(3) as u8);
            KeyHash(k)
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    let n = keys.len();
    let m = Arc::new(MockTreeStore::new(overwrite));
    let (done, floor, seen) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let over = AtomicU64::new(0);
    let root_of = |v: u64| guard(|| T::new(&*m).get_root_hash_option(base + v));
        let reader = |no: usize| {
            let (mut at, mut its): (BTreeSet<([u8; 32], [i64; 5])>, BTreeSet<[i64; 4]>) = Default::default();
            let mut turn = no;
            while over.load(SeqCst) == 0 {
                turn += 1;
                // the version after the last one known, or (now and then) that one
                let known = done.load(SeqCst);
                let v = if turn % 16 == 0 { known.saturating_sub(1) } else { known };
                let root = match root_of(v) {
                    Ok(Some(r)) => r,
                    Ok(None) => {
                        std::hint::spin_loop();
                        continue;
                    }
                    Err(c) => {
                        its.insert([v as i64, 0, 0, c]);
                        continue;
                    }
                };
                let mut got = vec![];
                let mut itd = None;
                for j in 0..2 {
                    let k = sampled[(turn + j) % sampled.len()].min(n);
                    let plain = guard(|| T::new(&*m).get(keys[k - 1], base + v)).map_or_else(|c| c, |y| opt(&y));
                    let proven = guard(|| T::new(&*m).get_with_proof(keys[k - 1], base + v));
                    let (proven, ok) = match proven {
                        Ok((y, p)) => (opt(&y), p.verify(root, keys[k - 1], y.as_ref()).is_ok() as i64),
                        Err(c) => (c, 0),
                    };
                    got.push((root.0, [v as i64, k as i64, plain, proven, ok]));
                }
                if turn % 8 == 0 {
                    let (mut tot, mut sum, mut c) = (0, 0, 0);
                    let r = guard(|| {
                        for y in JellyfishMerkleIterator::new(m.clone(), base + v, KeyHash([0; 32]))? {
                            sum += opt(&Some(y?.1));
                            tot += 1;
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        c = e;
                    }
                    itd = Some([v as i64, tot, sum, c]);
                }
                // unless it has meanwhile been given up
                if floor.load(SeqCst) <= v {
                    at.extend(got);
                    its.extend(itd);
                }
                seen.fetch_add(1, SeqCst);
            }
            (at, its)
        };
    let reader = &reader;
    let (wrote, obs) = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..2).map(|j| sc.spawn(move || reader(j * 5))).collect();
        let mut wrote: Vec<(i64, [u8; 32])> = vec![];
        for w in 0..=last {
            let ops: Vec<_> = (1..=n as u64)
                .filter_map(|k| {
                    if w % 2 == 1 && k % 5 == w % 5 {
                        Some((keys[k as usize - 1], None))
                    } else if w == 0 || (k + w) % 3 == 0 {
                        Some((keys[k as usize - 1], Some(vec![w as u8 + 1])))
                    } else {
                        None
                    }
                })
                .collect();
            let r = guard(|| {
                let (r, b) = T::new(&*m).put_value_set(ops, base + w)?;
                m.write_tree_update_batch(b)?;
                Ok(r.0)
            });
            wrote.push((code(&r), r.unwrap_or_default()));
            // let the readers have a look
            let until = |t: Instant, k: u64| {
                let from = seen.load(SeqCst);
                while seen.load(SeqCst) < from + k && t.elapsed() < Duration::from_millis(20) {
                    std::thread::yield_now();
                }
            };
            until(Instant::now(), 4);
            if w > 0 && x.rng.pct(60) {
                floor.store(w - 1, SeqCst);
                done.store(w, SeqCst);
                // by two at once, the second of whom finds less or nothing to do
                let m = &m;
                let ps: Vec<_> = (0..2).map(|_| sc.spawn(move || guard(|| m.purge_stale_nodes(base + w - 1)))).collect();
                for p in ps {
                    if let Err(c) = p.join().unwrap_or(Err(PANIC)) {
                        wrote.push((c, [0; 32]));
                    }
                }
                until(Instant::now(), 4);
            }
            done.store(w + 1, SeqCst);
            if wrote.iter().any(|y| y.0 != 0) {
                break;
            }
        }
        over.store(1, SeqCst);
        let mut o: Obs = Default::default();
        for h in hs {
            match h.join() {
                Ok((at, its)) => {
                    o.1.extend(its);
                    for (r, a) in at {
                        let no = wrote.iter().position(|y| y.0 == 0 && y.1 == r).map_or(ERR, |y| y as i64);
                        o.0.insert([a[0], no, a[1], a[2], a[3], a[4]]);
                    }
                }
                Err(_) => {
                    o.1.insert([0, 0, 0, PANIC]);
                }
            }
        }
        (wrote, o)
    });
    let res: Vec<i64> = wrote.iter().map(|y| y.0).collect();
    x.push(json!({"e": "mt", "n": n, "res": res, "at": obs.0.iter().collect::<Vec<_>>(), "its": obs.1.iter().collect::<Vec<_>>()}));
}
