//! Forged proofs: what do the verifiers accept?
use crate::ctx::*;
use crate::keys::{self, bit};
use crate::rec;
use crate::rest::mutate_sibs;
use jmt::{KeyHash, RootHash};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// Honest proofs of all keys, at some versions of the store.
fn honest(x: &Ctx, s: usize, ver: i64) -> Vec<Prf> {
    let st = x.st(s);
    let t = Tree::new(&*st);
    let v = x.v(ver);
    (1..=x.n())
        .filter_map(|k| guard(|| t.get_with_proof(x.kh(k), v)).ok().map(|(_, p)| Prf::of(&p)))
        .collect()
}

/// Variations of a proof.
fn mutate(x: &mut Ctx, pool: &[Prf], p: &Prf) -> Prf {
    let mut q = p.clone();
    for _ in 0..x.rng.range(1, 2) {
        match x.rng.below(16) {
            0 => q.leaf = None,
            1 => q.leaf = x.rng.pick(pool).leaf,
            2 => {
                // another value
                let v = x.rng.range(1, x.m());
                let h = x.vhash(v);
                if let Some(l) = q.leaf.as_mut() {
                    l.1 = h;
                }
            }
            3 => {
                // another key, same value
                let k = x.rng.range(1, x.n());
                if let Some(l) = q.leaf.as_mut() {
                    l.0 = x.keys[k - 1];
                }
            }
            4 => {
                // a leaf made up
                let k = x.rng.range(1, x.n());
                let v = x.rng.range(1, x.m());
                q.leaf = Some((x.keys[k - 1], x.vhash(v)));
            }
            5 | 6 => q.sibs = mutate_sibs(x, &q.sibs),
            7 => q.sibs = x.rng.pick(pool).sibs.clone(),
            8 => {
                // an inner node passed off as a leaf
                let i = x.rng.below(q.sibs.len() + 1);
                if i < q.sibs.len() {
                    if let Sib::Int(l, r) = q.sibs[i].clone() {
                        q.leaf = Some((l, r));
                        q.sibs.drain(..=i);
                    }
                }
            }
            9 => {
                // a leaf sibling becomes the leaf
                let i = x.rng.below(q.sibs.len() + 1);
                if i < q.sibs.len() {
                    if let Sib::Leaf(k, v) = q.sibs[i].clone() {
                        let here = fold(&q, i);
                        q.leaf = Some((k, v));
                        q.sibs.drain(..i);
                        q.sibs[0] = here;
                    }
                }
            }
            10 => {
                // cut: the part below becomes opaque
                let i = x.rng.below(q.sibs.len() + 1);
                q.leaf = None;
                q.sibs.drain(..i);
            }
            11 => {
                // padded at the bottom
                for _ in 0..x.rng.range(1, 8) {
                    q.sibs.insert(0, Sib::Null);
                }
            }
            12 => {
                let n = x.rng.range(250, 262);
                while q.sibs.len() < n {
                    q.sibs.insert(0, Sib::Null);
                }
            }
            13 => {
                // halves swapped at some level: key bits flipped
                if let Some(l) = q.leaf.as_mut() {
                    let d = x.rng.below(q.sibs.len() + 1);
                    if d < 256 {
                        keys::flip(&mut l.0, d);
                    }
                }
            }
            14 => {
                q.sibs.reverse();
            }
            _ => {
                if !q.sibs.is_empty() {
                    let i = x.rng.below(q.sibs.len());
                    let o = x.rng.pick(pool);
                    if !o.sibs.is_empty() {
                        q.sibs[i] = o.sibs[x.rng.below(o.sibs.len())].clone();
                    }
                }
            }
        }
    }
    q
}

/// The node below sibling i on the path of the proof.
fn fold(q: &Prf, i: usize) -> Sib {
    let (k, mut cur) = match &q.leaf {
        None => ([0; 32], Sib::Null),
        Some((k, v)) => (*k, Sib::Leaf(*k, *v)),
    };
    let n = q.sibs.len();
    for j in 0..i {
        let d = n - 1 - j;
        let s = q.sibs[j].hash();
        let c = cur.hash();
        cur = if d < 256 && bit(&k, d) == 1 { Sib::Int(s, c) } else { Sib::Int(c, s) };
    }
    cur
}

/// C04: forged key proofs against the root hash of a version.
pub fn c04(x: &mut Ctx, s: usize, ver: i64, tries: usize) {
    let root = x.root_of(s, ver);
    let mut pool = honest(x, s, ver);
    let vs: Vec<i64> = crate::gen::readable(x, s);
    let other = *x.rng.pick(&vs);
    pool.extend(honest(x, s, other));
    pool.push(Prf { leaf: None, sibs: vec![] });
    let mut acc: BTreeSet<(usize, i64)> = BTreeSet::new();
    let mut panics = 0;
    let mut accepted = 0;
    let (l, r) = match rec::preimage(&root.0) {
        Some(p) if p.len() == 80 => (p[16..48].try_into().unwrap(), p[48..80].try_into().unwrap()),
        _ => ([0; 32], [1; 32]),
    };
    pool.push(Prf { leaf: Some((l, r)), sibs: vec![] });
    let mut probes: Vec<[u8; 32]> = vec![l, r];
    for _ in 0..4 {
        let mut k = *x.rng.pick(&x.keys.clone());
        let d = x.rng.below(256);
        keys::flip(&mut k, d);
        probes.push(k);
    }
    rec::recording(false);
    for i in 0..tries {
        let q = if i < pool.len() {
            pool[i].clone()
        } else {
            let p = x.rng.pick(&pool).clone();
            mutate(x, &pool, &p)
        };
        let p = match guard(|| Ok(q.proof())) {
            Ok(p) => p,
            Err(_) => continue,
        };
        for k in 1..=x.n() {
            let (a, b) = x.claims(&p, root, k);
            panics += b;
            accepted += a.len();
            for v in a {
                acc.insert((k, v));
            }
        }
        for k in &probes {
            if x.key_no(k) > 0 {
                continue;
            }
            for v in 1..=x.m() {
                let ok = guard(|| p.verify_existence(root, KeyHash(*k), &x.vals[v]));
                match ok {
                    Ok(()) => {
                        acc.insert((0, -1));
                    }
                    Err(PANIC) => panics += 1,
                    _ => {}
                }
            }
            if guard(|| p.verify_nonexistence(root, KeyHash(*k))).err() == Some(PANIC) {
                panics += 1;
            }
        }
    }
    rec::recording(true);
    let acc: Vec<Value> = acc.into_iter().map(|(k, v)| json!([k, v])).collect();
    x.push(json!({"e": "forged", "s": s, "ver": ver, "tries": tries, "accepted": accepted, "acc": acc, "panics": panics}));
}

/// C08: forged update proofs from the root hash of a version.
pub fn c08(x: &mut Ctx, s: usize, ver: i64, tries: usize) {
    let old = x.root_of(s, ver);
    let st = x.st(s);
    let c = x.content_at(s, ver);
    let mut pool = honest(x, s, ver);
    pool.push(Prf { leaf: None, sibs: vec![] });
    let mut acc: Vec<(Ops, [u8; 32])> = vec![];
    let mut panics = 0;
    // honest updates to start from
    let mut bases: Vec<(Ops, Vec<Prf>)> = vec![];
    for style in 0..3 {
        let ops = crate::gen::some_ops(x, &c, 1, 3, style);
        if ops.is_empty() || ops.len() > 6 {
            continue;
        }
        if let Ok((_, u, _)) = x.raw_compute(&st, "setp", &[ops.clone()], ver + 1) {
            bases.push((ops, u[0].clone()));
        }
    }
    for k in 1..=x.n() {
        // single changes with the proof of the read
        let v = x.rng.below(x.m() + 1);
        if k <= pool.len() {
            bases.push((vec![(k, v)], vec![pool[k - 1].clone()]));
        }
    }
    for _ in 0..tries {
        let (mut ops, mut ps) = x.rng.pick(&bases).clone();
        let n = x.n();
        let m = x.m();
        for _ in 0..x.rng.below(3) {
            match x.rng.below(10) {
                0 => {
                    let i = x.rng.below(ops.len());
                    ops[i].1 = x.rng.below(m + 1);
                }
                1 => {
                    let i = x.rng.below(ops.len());
                    ops[i].0 = x.rng.range(1, n);
                }
                2 => {
                    let i = x.rng.below(ops.len());
                    ops[i] = (x.rng.range(1, n), x.rng.below(m + 1));
                }
                3 => {
                    if ops.len() > 1 {
                        let i = x.rng.below(ops.len() - 1);
                        ops.swap(i, i + 1);
                    }
                }
                4 => {
                    if ops.len() > 1 {
                        ops.pop();
                        if x.rng.pct(50) {
                            ps.pop();
                        }
                    }
                }
                5 => {
                    let k = x.rng.range(1, n);
                    ops.push((k, x.rng.below(m + 1)));
                    let p = x.rng.pick(&pool).clone();
                    if x.rng.pct(80) {
                        ps.push(p);
                    }
                }
                _ => {
                    if !ps.is_empty() {
                        let i = x.rng.below(ps.len());
                        let p = ps[i].clone();
                        ps[i] = if x.rng.pct(30) { x.rng.pick(&pool).clone() } else { mutate(x, &pool, &p) };
                    }
                }
            }
        }
        let kv: Vec<(KeyHash, Option<Vec<u8>>)> = ops
            .iter()
            .map(|(k, v)| (x.kh(*k), if *v == 0 { None } else { Some(x.vals[*v].clone()) }))
            .collect();
        let verify = |new: RootHash| guard(|| enc_update(&ps).verify_update(old, new, kv.clone()));
        rec::log_start();
        let first = verify(RootHash([0x77; 32]));
        let log = rec::log_take();
        if first == Err(PANIC) {
            panics += 1;
            continue;
        }
        let mut cand: Vec<[u8; 32]> = log.iter().rev().take(3).copied().collect();
        cand.push(old.0);
        cand.push(rec::PLACEHOLDER);
        if first.is_ok() {
            cand.push([0x77; 32]);
        }
        rec::recording(false);
        for d in cand {
            match verify(RootHash(d)) {
                Ok(()) => {
                    if acc.len() < 60 && !acc.contains(&(ops.clone(), d)) {
                        acc.push((ops.clone(), d));
                    }
                }
                Err(PANIC) => panics += 1,
                _ => {}
            }
        }
        rec::recording(true);
    }
    let mut aj = vec![];
    for (o, d) in acc {
        let t = x.term(&d);
        aj.push(json!([o.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), t]));
    }
    x.push(json!({"e": "uforged", "s": s, "ver": ver, "tries": tries, "acc": aj, "panics": panics}));
}

/// C18: forged range proofs against the root hash of a version.
pub fn c18(x: &mut Ctx, s: usize, ver: i64, tries: usize) {
    let root = x.root_of(s, ver);
    let st = x.st(s);
    let t = Tree::new(&*st);
    let v = x.v(ver);
    let c = x.content_at(s, ver);
    let mut pool: Vec<([u8; 32], [u8; 32], Vec<Sib>, Vec<[u8; 32]>)> = vec![];
    for k in 1..=x.n() {
        if c[k] != 0 {
            if let Ok(p) = guard(|| t.get_range_proof(x.kh(k), v)) {
                pool.push((x.keys[k - 1], x.vhash(c[k]), dec_range(&p), x.lefts(&st, ver, k)));
            }
        }
    }
    if pool.is_empty() {
        pool.push((x.keys[0], x.vhash(1), vec![], vec![]));
    }
    if let Some(p) = rec::preimage(&root.0) {
        if p.len() == 80 {
            pool.push((p[16..48].try_into().unwrap(), p[48..80].try_into().unwrap(), vec![], vec![]));
        }
    }
    let mut acc: BTreeSet<(i64, i64)> = BTreeSet::new();
    let mut panics = 0;
    for i in 0..tries {
        let (mut k, mut vh, mut sb, mut lf) =
            if i < pool.len() { pool[i].clone() } else { x.rng.pick(&pool).clone() };
        if i >= pool.len() {
            for _ in 0..x.rng.range(1, 2) {
                match x.rng.below(9) {
                    0 => k = x.rng.pick(&pool).0,
                    1 => k = *x.rng.pick(&x.keys.clone()),
                    2 => vh = x.vhash(x.rng.clone().range(1, x.m())),
                    3 | 4 => sb = mutate_sibs(x, &sb),
                    5 => {
                        if x.rng.pct(50) {
                            lf.pop();
                        } else {
                            lf.insert(0, rec::PLACEHOLDER);
                        }
                    }
                    6 => lf = x.rng.pick(&pool).3.clone(),
                    7 => {
                        let n = x.rng.range(250, 300);
                        sb = vec![Sib::Null; n];
                        if x.rng.pct(50) {
                            lf = vec![rec::PLACEHOLDER; x.rng.range(1, 300)];
                        }
                    }
                    _ => {
                        let d = x.rng.below(12);
                        keys::flip(&mut k, d)
                    }
                }
            }
        }
        match guard(|| enc_range(&sb).verify(root, leaf_node(&k, &vh), lf.clone())) {
            Ok(()) => {
                acc.insert((x.key_no(&k), x.vhash_no(&vh)));
            }
            Err(PANIC) => panics += 1,
            _ => {}
        }
    }
    let acc: Vec<Value> = acc.into_iter().map(|(k, v)| json!([k, v])).collect();
    x.push(json!({"e": "rforged", "s": s, "ver": ver, "tries": tries, "acc": acc, "panics": panics}));
}

