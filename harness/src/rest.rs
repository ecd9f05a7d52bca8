//! Restoration: honest, adversarial, interrupted.
use crate::ctx::*;
use crate::gen::{self, Cfg};
use crate::keys;
use crate::rec::{self, Rec};
use crate::store::WFlt;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::{KeyHash, RootHash};
use serde_json::{json, Value};

pub type Pairs = Vec<(usize, usize)>;

/// A restoration in progress on store s.
pub struct Run {
    pub obj: Option<JellyfishMerkleRestore<Rec>>,
    pub s: usize,
    pub src: usize,
    pub of: i64,
    pub ver: i64,
    /// pairs still to be sent, had everything gone well
    pub todo: Pairs,
    /// the empty tree is to be restored, whatever the source is
    pub empty: bool,
}

pub fn pairs_of(c: &Content) -> Pairs {
    c.iter().enumerate().filter(|(_, v)| **v != 0).map(|(k, v)| (k, *v)).collect()
}

/// Nodes and values stored under the version being restored.
pub fn stored(x: &mut Ctx, s: usize, ver: i64) -> (Value, Value) {
    let st = x.st(s);
    let v = x.v(ver);
    let all = st.all_nodes().unwrap_or_default();
    let mut nodes = vec![];
    for (k, n) in &all {
        if k.version() == v {
            nodes.push(x.node(k, n));
        }
    }
    let vals: Vec<Value> = st
        .all_values()
        .iter()
        .filter(|(_, w, _)| *w == v)
        .map(|(k, w, y)| json!([x.rel(*w), x.key_no(k), x.opt_val_no(y)]))
        .collect();
    (json!(nodes), json!(vals))
}

pub fn largest_stored(x: &Ctx, s: usize, ver: i64) -> usize {
    let v = x.v(ver);
    let all = x.st(s).all_nodes().unwrap_or_default();
    all.iter()
        .filter(|(k, _)| k.version() == v)
        .filter_map(|(_, n)| match n {
            jmt::storage::Node::Leaf(l) => Some(x.key_no(&l.key_hash().0).max(0) as usize),
            _ => None,
        })
        .max()
        .unwrap_or(0)
}

pub fn rnew(x: &mut Ctx, src: usize, of: i64, s: usize, ver: i64, mode: &str, root: Option<RootHash>) -> Run {
    let st = x.st(s);
    let mut of = of;
    let mut right = x.root_of(src, of);
    let root = root.unwrap_or(right);
    if root != right {
        // it may be the root hash of another version
        if let Some((v, _)) = x.sc[src - 1].roots.iter().find(|(_, y)| **y == root) {
            of = *v;
            right = root;
        }
    }
    let v = x.v(ver);
    let r = guard(|| {
        if mode == "over" {
            JellyfishMerkleRestore::<Rec>::new_overwrite(st.clone(), v, root)
        } else {
            JellyfishMerkleRestore::<Rec>::new(st.clone(), v, root)
        }
    });
    // the root hash expected: of the source, of the empty tree, or of no tree
    let goal = if root == right {
        "right"
    } else if root.0 == rec::PLACEHOLDER {
        "empty"
    } else {
        "none"
    };
    x.push(json!({"e": "rnew", "s": s, "src": src, "of": of, "ver": ver, "mode": mode, "goal": goal, "res": code(&r)}));
    let mut todo = pairs_of(&x.content_at(src, of));
    if mode != "over" {
        let m = largest_stored(x, s, ver);
        todo.retain(|p| p.0 > m);
        if st.has_root(v) {
            todo.clear();
        }
    }
    Run { obj: r.ok(), s, src, of, ver, todo, empty: goal == "empty" }
}

/// The honest range proof for key k of the source.
pub fn rproof(x: &Ctx, r: &Run, k: usize) -> Vec<Sib> {
    let st = x.st(r.src);
    let t = Tree::new(&*st);
    let v = x.v(r.of);
    guard(|| t.get_range_proof(x.kh(k), v)).map(|p| dec_range(&p)).unwrap_or_default()
}

/// Sends a chunk: raw pairs (key, value number or 0 for a value used nowhere).
pub fn rchunk(x: &mut Ctx, r: &mut Run, raw: &[(KeyHash, Vec<u8>)], sb: &[Sib], wf: Option<WFlt>) -> i64 {
    let st = x.st(r.s);
    let obj = match r.obj.as_mut() {
        Some(o) => o,
        None => return ERR,
    };
    st.warm(wf.map(|w| (0, w)));
    let chunk = raw.to_vec();
    let over = st.over();
    let res = guard(|| obj.add_chunk(chunk, enc_range(sb)));
    st.warm(None);
    let c = code(&res);
    let pj: Vec<Value> = raw.iter().map(|(k, v)| json!([x.key_no(&k.0), x.val_no(v)])).collect();
    let sj = x.sibs(sb);
    let (nodes, vals) = stored(x, r.s, r.ver);
    let w = match wf {
        None => "",
        Some(WFlt::Before) => "before",
        Some(WFlt::After) => "after",
    };
    x.push(json!({"e": "rchunk", "s": r.s, "pairs": pj, "sb": sj, "res": c, "wf": w, "over": st.over() - over, "nodes": nodes, "vals": vals}));
    if c == PANIC {
        r.obj = None;
    }
    c
}
pub fn raw(x: &Ctx, p: &[(usize, usize)]) -> Vec<(KeyHash, Vec<u8>)> {
    p.iter().map(|(k, v)| (x.kh(*k), x.vals[*v].clone())).collect()
}
/// Sends the next n pairs with the right proof.
pub fn good_chunk(x: &mut Ctx, r: &mut Run, n: usize, wf: Option<WFlt>) -> i64 {
    let n = n.min(r.todo.len());
    if n == 0 {
        return 0;
    }
    let p: Pairs = r.todo[..n].to_vec();
    let sb = rproof(x, r, p[n - 1].0);
    let raw = raw(x, &p);
    let c = rchunk(x, r, &raw, &sb, wf);
    if c == 0 {
        r.todo.drain(..n);
    }
    c
}
pub fn rfin(x: &mut Ctx, mut r: Run, wf: Option<WFlt>) -> i64 {
    let st = x.st(r.s);
    let obj = match r.obj.take() {
        Some(o) => o,
        None => return ERR,
    };
    st.warm(wf.map(|w| (0, w)));
    let boxed = x.rng.pct(30);
    let over = st.over();
    let res = guard(|| if boxed { Box::new(obj).finish_box() } else { obj.finish() });
    st.warm(None);
    let c = code(&res);
    let (nodes, vals) = stored(x, r.s, r.ver);
    let w = match wf {
        None => "",
        Some(WFlt::Before) => "before",
        Some(WFlt::After) => "after",
    };
    x.push(json!({"e": "rfin", "s": r.s, "res": c, "wf": w, "over": st.over() - over, "nodes": nodes, "vals": vals}));
    if c == 0 {
        let content = if r.empty { x.empty() } else { x.content_at(r.src, r.of) };
        let root = if r.empty { RootHash(rec::PLACEHOLDER) } else { x.root_of(r.src, r.of) };
        let sc = &mut x.sc[r.s - 1];
        if sc.lat.is_none() {
            sc.low = r.ver;
        }
        sc.hist.insert(r.ver, content);
        sc.roots.insert(r.ver, root);
        sc.lat = Some(r.ver);
    }
    c
}

/// An uninterrupted restoration in chunks of any size.
pub fn honest(x: &mut Ctx, src: usize, of: i64, s: usize, ver: i64, mode: &str) -> bool {
    let mut r = rnew(x, src, of, s, ver, mode, None);
    if r.obj.is_none() {
        x.sc[s - 1].alive = false;
        return false;
    }
    let style = x.rng.below(4);
    while !r.todo.is_empty() {
        let n = match style {
            0 => 1,
            1 => r.todo.len(),
            _ => x.rng.range(1, r.todo.len()),
        };
        if good_chunk(x, &mut r, n, None) != 0 {
            x.sc[s - 1].alive = false;
            return false;
        }
    }
    let ok = rfin(x, r, None) == 0;
    if !ok {
        x.sc[s - 1].alive = false;
    }
    ok
}

/// A restoration that is given up and started again a few times.
pub fn interrupted(x: &mut Ctx, src: usize, of: i64, s: usize, ver: i64) -> bool {
    let mut left = x.rng.below(4);
    loop {
        let mut r = rnew(x, src, of, s, ver, "new", None);
        if r.obj.is_none() {
            return false;
        }
        let all = r.todo.len();
        let stop = if left > 0 { x.rng.below(all + 1) } else { all };
        left = left.saturating_sub(1);
        while all - r.todo.len() < stop {
            let n = x.rng.range(1, (stop + r.todo.len() - all).min(4.max(all / 6)));
            if good_chunk(x, &mut r, n, None) != 0 {
                return false;
            }
        }
        if stop == all {
            return rfin(x, r, None) == 0;
        }
    }
}

/// A source store with one interesting version.
pub fn source(x: &mut Ctx, few: bool) -> (usize, i64) {
    let s = x.new_store(false);
    let n = x.n();
    let kind = x.rng.below(if few { 12 } else { 14 });
    let e = x.empty();
    let ops: Ops = match kind {
        0 => vec![],
        1 => vec![(x.rng.range(1, n), 1)],
        2 | 3 => {
            let ks = gen::some_keys(x, 2);
            ks.into_iter().map(|k| (k, x.rng.range(1, x.m()))).collect()
        }
        4 => gen::some_ops(x, &e, 1, 4, 3),
        _ => {
            let p = x.rng.range(50, 100);
            {
                let mut o = vec![];
                for k in 1..=n {
                    if x.rng.pct(p) {
                        o.push((k, x.rng.range(1, x.m())));
                    }
                }
                o
            }
        }
    };
    x.put(s, "set", &[ops]);
    let mut of = 0;
    if x.rng.pct(30) {
        let c = x.content(s);
        let ops = gen::some_ops(x, &c, 0, 4, 1);
        if x.put(s, "set", &[ops]) {
            of = 1;
        }
    }
    (s, of)
}

/// The version to restore: same number, or another one.
pub fn target_ver(x: &mut Ctx, of: i64) -> i64 {
    if x.rng.pct(60) {
        of
    } else {
        x.rng.range(0, 9) as i64
    }
}

/// What a restored store answers, and what can be built on it.
pub fn after(x: &mut Ctx, s: usize, ver: i64, c: &Cfg) {
    gen::observe(x, s, ver, gen::READS | gen::ROOTS | gen::ITER | gen::INDEX | gen::EXCL | gen::RANGE, 5);
    for _ in 0..x.rng.below(3) {
        if !gen::commit(x, s, c) {
            return;
        }
        let v = gen::some_ver(x, s);
        gen::observe(x, s, v, gen::READS | gen::ROOTS, 4);
    }
    if x.rng.pct(50) && x.sc[s - 1].hist.keys().next() == Some(&ver) {
        let vs = gen::versions(x, s);
        let v = *x.rng.pick(&vs);
        x.prune(s, v);
        let l = *vs.last().unwrap();
        gen::observe(x, s, l, gen::READS, 4);
    }
}

/// C15: every chunking; also alongside older versions.
pub fn c15(x: &mut Ctx, c: &Cfg) {
    let (src, of) = source(x, false);
    let rounds = x.rng.range(1, 3);
    for _ in 0..rounds {
        let enc = x.rng.pct(30);
        let s = x.new_store(enc);
        let mut ver = target_ver(x, of);
        let mut mode = if x.rng.pct(30) { "over" } else { "new" };
        if x.rng.pct(25) {
            // older versions are there already
            mode = "over";
            for _ in 0..x.rng.range(1, 2) {
                if !gen::commit(x, s, c) {
                    return;
                }
            }
            ver = x.sc[s - 1].lat.unwrap() + x.rng.range(1, 3) as i64;
        }
        if honest(x, src, of, s, ver, mode) {
            after(x, s, ver, c);
        }
    }
    if x.rng.pct(10) {
        crate::hashx::hashers(x, src, of);
    }
}

/// C16: interrupted anywhere, any number of times.
pub fn c16(x: &mut Ctx, c: &Cfg) {
    let (src, of) = source(x, true);
    let rounds = x.rng.range(1, 3);
    for _ in 0..rounds {
        let enc = x.rng.pct(30);
        let s = x.new_store(enc);
        let ver = target_ver(x, of);
        let mut left = x.rng.range(1, 5); // interruptions
        let mut finished = false;
        for _ in 0..40 {
            let mut r = rnew(x, src, of, s, ver, "new", None);
            if r.obj.is_none() {
                break;
            }
            let mut stop = false;
            let small = x.rng.pct(60);
            while !r.todo.is_empty() && !stop {
                let n = if small { x.rng.range(1, 2) } else { x.rng.range(1, r.todo.len()) };
                let what = if left > 0 { x.rng.below(8) } else { 9 };
                match what {
                    0 => {
                        // a crash between chunks
                        left -= 1;
                        stop = true;
                    }
                    1 => {
                        left -= 1;
                        good_chunk(x, &mut r, n, Some(WFlt::Before));
                        stop = true;
                    }
                    2 => {
                        left -= 1;
                        good_chunk(x, &mut r, n, Some(WFlt::After));
                        stop = true;
                    }
                    _ => {
                        if good_chunk(x, &mut r, n, None) != 0 {
                            return;
                        }
                    }
                }
            }
            if stop {
                if x.rng.pct(20) {
                    x.reopen(s);
                }
                continue;
            }
            let what = if left > 0 { x.rng.below(6) } else { 9 };
            match what {
                0 => {
                    left -= 1;
                }
                1 => {
                    left -= 1;
                    rfin(x, r, Some(WFlt::Before));
                }
                2 => {
                    left -= 1;
                    rfin(x, r, Some(WFlt::After));
                }
                3 => {
                    // complete, and started again
                    left -= 1;
                    if rfin(x, r, None) != 0 {
                        return;
                    }
                    finished = true;
                }
                _ => {
                    if rfin(x, r, None) != 0 {
                        return;
                    }
                    finished = true;
                    break;
                }
            }
        }
        if finished {
            after(x, s, ver, c);
        }
    }
}

/// C17: altered chunks and proofs, and completion at any moment.
pub fn c17(x: &mut Ctx, c: &Cfg) {
    let (src, of) = source(x, true);
    let rounds = x.rng.range(1, 4);
    'rounds: for _ in 0..rounds {
        let enc = x.rng.pct(20);
        let s = x.new_store(enc);
        let ver = target_ver(x, of);
        let mode = if x.rng.pct(25) { "over" } else { "new" };
        let root = if x.rng.pct(10) {
            Some(RootHash(if x.rng.pct(50) { rec::PLACEHOLDER } else { x.rng.bytes32() }))
        } else if x.rng.pct(5) {
            Some(x.root_of(src, 0))
        } else {
            None
        };
        let mut r = rnew(x, src, of, s, ver, mode, root);
        let mut bad = x.rng.range(1, 4);
        let mut steps = 0;
        let mut tries = 0;
        while r.obj.is_some() && steps < 30 {
            steps += 1;
            let n = if r.todo.is_empty() { 0 } else { x.rng.range(1, r.todo.len()) };
            let what = x.rng.below(10);
            if bad > 0 && what < 5 {
                bad -= 1;
                bad_chunk(x, &mut r, n);
                // go on, or start again (a refused chunk leaves the object of no use)
                if x.rng.pct(60) && r.obj.is_some() {
                    tries += 1;
                    if tries < 6 {
                        r = rnew(x, src, of, s, ver, mode, root);
                    }
                }
                continue;
            }
            if what == 5 && bad > 0 {
                // complete early
                bad -= 1;
                if rfin(x, r, None) == 0 {
                    continue 'rounds;
                }
                r = rnew(x, src, of, s, ver, mode, root);
                continue;
            }
            if r.todo.is_empty() {
                break;
            }
            let n = n.min(3);
            if good_chunk(x, &mut r, n, None) != 0 {
                // an object that refused something before may refuse everything after
                tries += 1;
                if tries < 8 {
                    r = rnew(x, src, of, s, ver, mode, root);
                } else {
                    break;
                }
            }
        }
        if r.obj.is_some() && rfin(x, r, None) == 0 && x.sc[s - 1].lat == Some(ver) {
            gen::observe(x, s, ver, gen::READS | gen::ROOTS, 5);
        }
        let _ = c;
    }
}

/// One chunk that is not the next one, or not with its proof.
pub fn bad_chunk(x: &mut Ctx, r: &mut Run, n: usize) -> i64 {
    let all = pairs_of(&x.content_at(r.src, r.of));
    let mut p: Pairs = r.todo.iter().take(n).copied().collect();
    let m = x.m();
    let mut sb_of = p.last().map(|y| y.0);
    let mut rawp: Option<Vec<(KeyHash, Vec<u8>)>> = None;
    let mut sb: Option<Vec<Sib>> = None;
    match x.rng.below(16) {
        0 => {
            // a value changed
            if !p.is_empty() {
                let i = x.rng.below(p.len());
                p[i].1 = p[i].1 % m + 1;
            }
        }
        1 => {
            // the last value changed
            if let Some(l) = p.last_mut() {
                l.1 = l.1 % m + 1;
            }
        }
        2 => {
            // a pair left out
            if p.len() > 1 {
                let i = x.rng.below(p.len() - 1);
                p.remove(i);
            } else if r.todo.len() > 1 {
                p = vec![r.todo[1]];
                sb_of = Some(p[0].0);
            }
        }
        3 | 4 => {
            // a key that is not there
            let absent: Vec<usize> = (1..=x.n()).filter(|k| all.iter().all(|q| q.0 != *k)).collect();
            if !absent.is_empty() {
                let k = *x.rng.pick(&absent);
                p.push((k, x.rng.range(1, m)));
                p.sort();
                if x.rng.pct(50) {
                    sb_of = p.last().map(|y| y.0);
                }
            } else {
                let mut q = raw(x, &p);
                let k = x.rng.bytes32();
                q.push((KeyHash(k), x.vals[1].clone()));
                q.sort();
                rawp = Some(q);
            }
        }
        5 => {
            // out of order
            if p.len() > 1 {
                let i = x.rng.below(p.len() - 1);
                p.swap(i, i + 1);
            }
        }
        6 => {
            // sent before
            let done: Pairs = all.iter().filter(|q| r.todo.iter().all(|t| t.0 != q.0)).copied().collect();
            if !done.is_empty() {
                let q = *x.rng.pick(&done);
                p.insert(0, q);
                if x.rng.pct(50) {
                    p = vec![q];
                    sb_of = Some(q.0);
                }
            } else if !p.is_empty() {
                let i = x.rng.below(p.len());
                let q = p[i];
                p.insert(i, q);
            }
        }
        7 => {
            // no pairs
            p.clear();
            sb_of = all.first().map(|y| y.0);
        }
        8 => {
            // the proof of another key
            if !all.is_empty() {
                sb_of = Some(x.rng.pick(&all).0);
            }
        }
        9..=12 => {
            // an altered proof
            if let Some(k) = sb_of {
                let o = rproof(x, r, k);
                sb = Some(mutate_sibs(x, &o));
            }
        }
        13 => {
            // a key next to a true one
            if let Some(l) = p.last().copied() {
                let mut q = raw(x, &p);
                let mut k = x.keys[l.0 - 1];
                let d = x.rng.below(256);
                keys::flip(&mut k, d);
                let i = q.len() - 1;
                if x.rng.pct(50) {
                    q[i].0 = KeyHash(k);
                } else {
                    q.push((KeyHash(k), x.vals[1].clone()));
                    q.sort();
                }
                rawp = Some(q);
            }
        }
        14 => {
            // skips ahead, or the whole rest with the first pair lost
            if r.todo.len() > 1 {
                p = r.todo[1..].to_vec();
                sb_of = p.last().map(|y| y.0);
            }
        }
        _ => {
            // a very long proof
            let n = x.rng.range(200, 300);
            sb = Some(vec![Sib::Null; n]);
        }
    }
    let rawp = rawp.unwrap_or_else(|| raw(x, &p));
    let sb = match sb {
        Some(s) => s,
        None => match sb_of {
            Some(k) => rproof(x, r, k),
            None => vec![],
        },
    };
    rchunk(x, r, &rawp, &sb, None)
}

pub fn mutate_sibs(x: &mut Ctx, o: &[Sib]) -> Vec<Sib> {
    let mut s = o.to_vec();
    let any = |x: &mut Ctx| -> Sib {
        let b = x.rng.bytes32();
        match x.rng.below(3) {
            0 => Sib::Null,
            1 => Sib::Int(b, b),
            _ => {
                let k = x.rng.range(1, x.n());
                let v = x.rng.range(1, x.m());
                Sib::Leaf(x.keys[k - 1], x.vhash(v))
            }
        }
    };
    for _ in 0..x.rng.range(1, 2) {
        match x.rng.below(8) {
            0 => {
                s.pop();
            }
            1 => {
                if !s.is_empty() {
                    s.remove(0);
                }
            }
            2 => {
                let a = any(x);
                s.push(a)
            }
            3 => {
                let a = any(x);
                s.insert(0, a)
            }
            4 => {
                if s.len() > 1 {
                    let i = x.rng.below(s.len() - 1);
                    s.swap(i, i + 1);
                }
            }
            5 => {
                for _ in 0..x.rng.range(1, 4) {
                    s.insert(0, Sib::Null);
                }
            }
            6 => s.clear(),
            _ => {
                if !s.is_empty() {
                    let i = x.rng.below(s.len());
                    s[i] = any(x);
                }
            }
        }
    }
    s
}
