//! Proofs in the ICS23 format.
use crate::ctx::*;
use crate::store::Store;
use ics23::commitment_proof::Proof as P;
use ics23::{CommitmentProof, HashOp, HostFunctionsManager as M, InnerSpec, LeafOp, LengthOp, ProofSpec};
use serde_json::{json, Value};

/// The published specification, written down independently of the code under test.
pub fn published() -> ProofSpec {
    ProofSpec {
        leaf_spec: Some(LeafOp {
            hash: HashOp::Sha256.into(),
            prehash_key: HashOp::Sha256.into(),
            prehash_value: HashOp::Sha256.into(),
            length: LengthOp::NoPrefix.into(),
            prefix: b"JMT::LeafNode".to_vec(),
        }),
        inner_spec: Some(InnerSpec {
            hash: HashOp::Sha256.into(),
            child_order: vec![0, 1],
            min_prefix_length: 16,
            max_prefix_length: 16,
            child_size: 32,
            empty_child: b"SPARSE_MERKLE_PLACEHOLDER_HASH__".to_vec(),
        }),
        min_depth: 0,
        max_depth: 64,
        prehash_key_before_comparison: true,
    }
}

fn ekey(x: &Ctx, e: &Option<ics23::ExistenceProof>) -> i64 {
    match e {
        None => 0,
        Some(e) => {
            let k = crate::rec::sha(&e.key);
            x.key_no(&k)
        }
    }
}

pub fn ics_ev(x: &mut Ctx, st: &Store, s: usize, ver: i64, k: usize) -> Value {
    let t = Tree::new(st);
    let v = x.v(ver);
    let pre = x.pre.clone().unwrap();
    let r = guard(|| t.get_with_ics23_proof(pre[k - 1].clone(), v));
    let (val, p) = match r {
        Err(c) => {
            return json!({"e": "ics", "s": s, "ver": ver, "k": k, "res": c, "val": 0, "kind": "", "l": 0, "r": 0, "acc": [], "acc2": []})
        }
        Ok(y) => y,
    };
    let root = x.root_of(s, ver).0.to_vec();
    let (acc, acc2) = both(x, &p, &root);
    let (kind, l, r) = match &p.proof {
        Some(P::Exist(e)) => ("exist", ekey(x, &Some(e.clone())), 0),
        Some(P::Nonexist(n)) => ("nonexist", ekey(x, &n.left), ekey(x, &n.right)),
        _ => ("", 0, 0),
    };
    json!({"e": "ics", "s": s, "ver": ver, "k": k, "res": 0, "val": x.opt_val_no(&val), "kind": kind,
           "l": l, "r": r, "acc": acc, "acc2": acc2})
}

/// What a proof is accepted for under the published specification and under the one exported.
fn both(x: &Ctx, p: &CommitmentProof, root: &Vec<u8>) -> (Vec<Value>, Vec<Value>) {
    let mut wrong = root.clone();
    wrong[31] ^= 1;
    let mut r = vec![];
    for spec in [published(), jmt::ics23_spec()] {
        let mut acc = vec![];
        claims(x, p, &spec, root, 1, &mut acc);
        claims(x, p, &spec, &wrong, 0, &mut acc);
        r.push(acc);
    }
    let b = r.pop().unwrap();
    (r.pop().unwrap(), b)
}

/// Which claims a commitment proof is accepted for: [key, value (0: absence), right root?].
fn claims(x: &Ctx, p: &CommitmentProof, spec: &ProofSpec, root: &Vec<u8>, right: i64, acc: &mut Vec<Value>) {
    let pre = x.pre.as_ref().unwrap();
    for j in 1..=x.n() {
        for w in 1..=x.m() {
            let ok = quiet(|| ics23::verify_membership::<M>(p, spec, root, &pre[j - 1], &x.vals[w]));
            if !matches!(ok, Ok(false)) {
                push(acc, json!([j, if ok.is_ok() { w as i64 } else { -2 }, right]));
            }
        }
        let ok = quiet(|| ics23::verify_non_membership::<M>(p, spec, root, &pre[j - 1]));
        if !matches!(ok, Ok(false)) {
            push(acc, json!([j, if ok.is_ok() { 0 } else { -2 }, right]));
        }
    }
    // something that is nowhere
    let no = b"no such key".to_vec();
    if ics23::verify_membership::<M>(p, spec, root, &no, &x.vals[1]) {
        push(acc, json!([0, 1, right]));
    }
    if ics23::verify_membership::<M>(p, spec, root, &pre[0], b"no such value") {
        push(acc, json!([1, -1, right]));
    }
}
fn push(acc: &mut Vec<Value>, v: Value) {
    if !acc.contains(&v) {
        acc.push(v)
    }
}

pub fn ics(x: &mut Ctx, s: usize, ver: i64, k: usize) {
    let st = x.st(s);
    let v = ics_ev(x, &st, s, ver, k);
    x.push(v)
}

/// Altered proofs: whatever is accepted has to be true.
pub fn forged(x: &mut Ctx, s: usize, ver: i64, k: usize) {
    let st = x.st(s);
    let t = Tree::new(&*st);
    let v = x.v(ver);
    let pre = x.pre.clone().unwrap();
    let root = x.root_of(s, ver).0.to_vec();
    let n = x.n();
    let mut exist = vec![];
    let mut non = vec![];
    for (j, key) in pre.iter().enumerate().take(n) {
        if let Ok((_, p)) = guard(|| t.get_with_ics23_proof(key.clone(), v)) {
            match p.proof {
                Some(P::Exist(e)) => exist.push(e),
                Some(P::Nonexist(e)) => non.push((j, e)),
                _ => {}
            }
        }
    }
    let mut acc = vec![];
    if exist.is_empty() {
        return;
    }
    for _ in 0..6 {
        let a = if x.rng.pct(20) { None } else { Some(x.rng.pick(&exist).clone()) };
        let mut b = if x.rng.pct(20) { None } else { Some(x.rng.pick(&exist).clone()) };
        if let (Some(b), true) = (b.as_mut(), x.rng.pct(50)) {
            match x.rng.below(6) {
                0 => {
                    b.path.pop();
                }
                1 => {
                    if !b.path.is_empty() {
                        b.path.remove(0);
                    }
                }
                2 => {
                    if let Some(y) = b.path.first_mut() {
                        std::mem::swap(&mut y.suffix, &mut y.prefix);
                    }
                }
                3 => b.value = x.vals[x.rng.range(1, x.vals.len() - 1)].clone(),
                4 => b.key = pre[x.rng.below(n)].clone(),
                _ => {
                    if let Some(y) = b.path.last().cloned() {
                        b.path.push(y)
                    }
                }
            }
        }
        let p = match x.rng.below(3) {
            0 => P::Exist(b.clone().unwrap_or_default()),
            _ => P::Nonexist(ics23::NonExistenceProof { key: pre[k - 1].clone(), left: a, right: b }),
        };
        let (a1, a2) = both(x, &CommitmentProof { proof: Some(p) }, &root);
        acc.extend(a1);
        acc.extend(a2);
    }
    x.push(json!({"e": "icsforged", "s": s, "ver": ver, "acc": acc}));
}
fn quiet(f: impl FnOnce() -> bool) -> std::thread::Result<bool> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
