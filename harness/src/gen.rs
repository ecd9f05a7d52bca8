//! Random histories, and what to observe on them, by property.
use crate::ctx::*;
use crate::keys;
use crate::rng::Rng;
use crate::store::root_key;
use jmt::storage::TreeReader;

#[derive(Clone)]
pub struct Cfg {
    pub n: (usize, usize),
    pub commits: (usize, usize),
    pub ops: (usize, usize),
    pub hashed: bool,
    pub nonempty: bool,      // no empty values
    pub apis: Vec<&'static str>,
    pub append: usize,       // percent
    pub prune: usize,        // percent after each commit
    pub reopen: usize,       // percent after each commit
    pub pregen: usize,       // percent of traces that start from a restored pre-genesis version
    pub rest: usize,         // percent of traces that start from a restored version
    pub enc: usize,          // percent of stores that keep encodings only
    pub long: usize,         // per thousand: histories of very many versions
    pub large: usize,        // per thousand: traces with very many keys
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            n: (3, 12),
            commits: (3, 8),
            ops: (0, 5),
            hashed: false,
            nonempty: false,
            apis: vec!["set", "set", "set", "sets", "sets", "setp", "setsp", "batch", "batch"],
            append: 4,
            prune: 8,
            reopen: 4,
            pregen: 4,
            rest: 6,
            enc: 30,
            long: std::env::var("LONG").ok().and_then(|y| y.parse().ok()).unwrap_or(8),
            large: 0,
        }
    }
}

pub fn setup(mut rng: Rng, c: &Cfg) -> Ctx {
    let large = c.large > 0 && rng.below(1000) < c.large;
    let n = if large {
        *rng.pick(&[40, 90, 135, 160, 260])
    } else if rng.pct(8) {
        c.n.1 * 2
    } else {
        rng.range(c.n.0, c.n.1)
    };
    let (ks, pre) = if c.hashed {
        let h = keys::hashed(&mut rng, n);
        (h.iter().map(|x| x.0).collect::<Vec<_>>(), Some(h.iter().map(|x| x.1.clone()).collect::<Vec<_>>()))
    } else {
        (if large { keys::large(&mut rng, n) } else { keys::universe(&mut rng, n) }, None)
    };
    let m = rng.range(2, 6);
    let mut vals = keys::values(&mut rng, m, &ks);
    if c.nonempty {
        for (i, v) in vals.iter_mut().enumerate().skip(1) {
            if v.is_empty() {
                *v = format!("w{i}").into_bytes();
            }
        }
    }
    let base = match rng.below(16) {
        0..=5 => 0u64,
        6 => *rng.pick(&[1, 7, 254, 255, 256]),
        7 => *rng.pick(&[1 << 32, (1 << 32) - 2, (1 << 40) + 3, 1 << 63, (1 << 63) - 2]),
        8 => u64::MAX - 40,
        // around the boundaries of bytes and of groups of seven bits
        9..=11 => (1u64 << (8 * rng.range(1, 7))).wrapping_sub(rng.range(0, 4) as u64),
        12 | 13 => (1u64 << (7 * rng.range(1, 9))).wrapping_sub(rng.range(0, 4) as u64),
        _ => rng.next() >> rng.range(1, 60),
    };
    let mut x = Ctx::new(rng, ks, vals, base);
    x.pre = pre;
    x
}

/// A set of changes that makes sense on contents c.
pub fn some_ops(x: &mut Ctx, c: &Content, lo: usize, hi: usize, style: usize) -> Ops {
    let n = x.n();
    let m = x.m();
    let mut c = c.clone();
    let mut out = vec![];
    let big = if n > 36 { if c.iter().all(|v| *v == 0) { 1 } else { 2 + x.rng.below(39) } } else { x.rng.below(40) };
    if n > 36 && x.rng.pct(4) {
        // a whole stretch at once
        let a = x.rng.range(1, n);
        let b = x.rng.range(a, n);
        let v = if x.rng.pct(60) && style != 3 { 0 } else { x.rng.range(1, m) };
        return (a..=b).map(|k| (k, v)).collect();
    }
    if big == 0 {
        // empty the tree
        let mut ks: Vec<usize> = (1..=n).filter(|k| c[*k] != 0).collect();
        x.rng.shuffle(&mut ks);
        return ks.into_iter().map(|k| (k, 0)).collect();
    }
    if big == 1 {
        let mut ks: Vec<usize> = (1..=n).collect();
        x.rng.shuffle(&mut ks);
        return ks.into_iter().map(|k| (k, x.rng.range(1, m))).collect();
    }
    let cnt = x.rng.range(lo, hi);
    let near = x.rng.range(1, n);
    for _ in 0..cnt {
        let k = match x.rng.below(10) {
            0 | 1 if !out.is_empty() => {
                let (k, _): (usize, usize) = *x.rng.pick(&out);
                k
            }
            2..=4 => {
                // close to one place
                let d = x.rng.below(3);
                (near + d).min(n)
            }
            _ => x.rng.range(1, n),
        };
        let del = match style {
            0 => 15,
            1 => 40,
            2 => 65,
            _ => 0,
        };
        let v = if x.rng.pct(del) {
            0
        } else if c[k] != 0 && x.rng.pct(20) {
            c[k]
        } else {
            x.rng.range(1, m)
        };
        // deletions: mostly of present keys
        let k = if v == 0 && c[k] == 0 && x.rng.pct(75) {
            let ps: Vec<usize> = (1..=n).filter(|k| c[*k] != 0).collect();
            if ps.is_empty() {
                k
            } else {
                *x.rng.pick(&ps)
            }
        } else {
            k
        };
        c[k] = v;
        out.push((k, v));
    }
    out
}

/// How many version numbers are left.
pub fn room(x: &Ctx, s: usize) -> usize {
    let last = x.base as i128 + x.sc[s - 1].lat.unwrap_or(0) as i128;
    (u64::MAX as i128 - 2 - last).clamp(0, 1000) as usize
}

/// One commit (or append) on store s; false if the trace has to end.
pub fn commit(x: &mut Ctx, s: usize, c: &Cfg) -> bool {
    let style = match x.rng.below(10) {
        0..=3 => 0,
        4..=6 => 1,
        7..=8 => 2,
        _ => 3,
    };
    let lat = x.sc[s - 1].lat;
    let cur = x.content(s);
    let nonempty = cur.iter().any(|v| *v != 0);
    if lat.map_or(false, |l| x.base as i128 + l as i128 >= 0) && nonempty && x.rng.pct(c.append) {
        let ops = some_ops(x, &cur, c.ops.0, c.ops.1, style);
        return append(x, s, ops);
    }
    let mut api = *x.rng.pick(&c.apis);
    if api.starts_with("batch") && lat.is_none() && x.base != 0 {
        api = "sets";
    }
    let room = room(x, s);
    if room == 0 {
        return false;
    }
    let cnt = match api {
        "set" | "setp" => 1,
        _ if x.rng.pct(2) => x.rng.range(5, 20).min(room),
        _ => x.rng.range(1, 4).min(room),
    };
    let mut sets = vec![];
    let mut cc = cur;
    for _ in 0..cnt {
        let ops = if api.starts_with("batch") {
            let mut o = some_ops(x, &cc, c.ops.0.max(1), c.ops.1.max(1), 3);
            o.retain(|y| y.1 != 0);
            if o.is_empty() {
                o.push((x.rng.range(1, x.n()), 1));
            }
            o
        } else {
            some_ops(x, &cc, c.ops.0, c.ops.1, style)
        };
        cc = Ctx::apply(&cc, &ops);
        sets.push(ops);
    }
    x.put(s, api, &sets)
}

/// Appends to the latest version.  If that brings back a node that is recorded as stale (the known
/// finding KF1), the trace ends.
pub fn append(x: &mut Ctx, s: usize, ops: Ops) -> bool {
    let lat = x.sc[s - 1].lat.unwrap_or(0);
    match x.compute(s, "append", &[ops], lat) {
        None => {
            x.sc[s - 1].alive = false;
            false
        }
        Some(p) => {
            x.store(&p);
            let st = x.st(s);
            let stale: std::collections::HashSet<_> = st.all_stale().into_iter().map(|i| i.node_key).collect();
            let kf = p.batch.node_batch.nodes().iter().any(|(k, _)| stale.contains(k));
            if kf {
                x.sc[s - 1].alive = false;
            }
            !kf
        }
    }
}

/// Restores a version before genesis, to build upon.
pub fn pregenesis(x: &mut Ctx, s: usize) {
    let src = x.new_store(false);
    let e = x.empty();
    let n = x.n();
    let ops = if x.rng.pct(15) { vec![] } else { some_ops(x, &e, 1, n, 3) };
    x.sc[src - 1].lat = None;
    if !x.put(src, "set", &[ops]) {
        return;
    }
    crate::rest::honest(x, src, 0, s, -1, "new");
}

/// Restores a first version into store s, interrupted or not.
pub fn restored(x: &mut Ctx, s: usize, c: &Cfg) {
    let src = x.new_store(false);
    let e = x.empty();
    let n = x.n();
    let ops = some_ops(x, &e, 1.max(n / 2), n, 3);
    if !x.put(src, "set", &[ops]) {
        return;
    }
    let mut of = 0;
    if x.rng.pct(40) {
        let cur = x.content(src);
        let ops = some_ops(x, &cur, c.ops.0, c.ops.1, 1);
        if !x.put(src, "set", &[ops]) {
            return;
        }
        of = 1;
    }
    if !crate::rest::interrupted(x, src, of, s, 0) {
        x.sc[s - 1].alive = false;
    }
}

pub fn versions(x: &Ctx, s: usize) -> Vec<i64> {
    x.sc[s - 1].hist.keys().copied().collect()
}
pub fn readable(x: &Ctx, s: usize) -> Vec<i64> {
    let low = x.sc[s - 1].low;
    x.sc[s - 1].hist.keys().copied().filter(|v| *v >= low).collect()
}
/// A readable version, mostly the latest.
pub fn some_ver(x: &mut Ctx, s: usize) -> i64 {
    let vs = readable(x, s);
    if x.rng.pct(50) {
        *vs.last().unwrap()
    } else {
        *x.rng.pick(&vs)
    }
}
pub fn some_keys(x: &mut Ctx, max: usize) -> Vec<usize> {
    let mut ks: Vec<usize> = (1..=x.n()).collect();
    x.rng.shuffle(&mut ks);
    ks.truncate(max);
    ks.sort();
    ks
}

pub const READS: u32 = 1;
pub const ROOTS: u32 = 2;
pub const ITER: u32 = 4;
pub const INDEX: u32 = 8;
pub const EXCL: u32 = 16;
pub const RANGE: u32 = 32;
pub const DUMP: u32 = 64;
pub const ICS: u32 = 128;

/// Observes version ver of store s in the ways asked for.
pub fn observe(x: &mut Ctx, s: usize, ver: i64, what: u32, max: usize) {
    let n = x.n();
    if what & READS != 0 {
        let ks = some_keys(x, max);
        x.reads(s, ver, &ks);
    }
    if what & ROOTS != 0 {
        let mut vs = versions(x, s);
        if let (Some(&f), Some(&l)) = (vs.first(), vs.last()) {
            if (x.base as i128 + l as i128) < u64::MAX as i128 {
                vs.push(l + 1);
            }
            if x.base as i128 + f as i128 > 0 {
                vs.push(f - 1);
            }
        } else {
            vs.push(0);
        }
        x.roots(s, &vs);
    }
    if what & ITER != 0 {
        let ks = some_keys(x, (max / 2).max(2));
        for k in ks {
            x.iter(s, ver, "key", k);
        }
        x.iter(s, ver, "key", 1);
    }
    if what & INDEX != 0 {
        let cnt = x.content_at(s, ver).iter().filter(|v| **v != 0).count();
        for i in 0..=(cnt + 1) {
            if cnt < 5 || x.rng.pct(if cnt > 36 { 4 } else { 60 }) || i + 1 >= cnt {
                x.iter(s, ver, "idx", i);
            }
        }
    }
    if what & EXCL != 0 {
        for k in some_keys(x, max) {
            x.excl(s, ver, k);
        }
    }
    if what & RANGE != 0 {
        for k in some_keys(x, max) {
            x.range(s, ver, k);
        }
    }
    if what & ICS != 0 {
        for k in some_keys(x, max) {
            crate::icsx::ics(x, s, ver, k);
        }
    }
    if what & DUMP != 0 {
        x.dump(s);
    }
    let _ = n;
}

/// A history on one store, observed after every commit (a little) and at the end (fully).
pub fn history(x: &mut Ctx, c: &Cfg, what: u32, max: usize, every: bool) -> usize {
    let enc = x.rng.pct(c.enc);
    let s = x.new_store(enc);
    if x.base == 0 && x.rng.pct(c.pregen) {
        pregenesis(x, s);
    } else if x.rng.pct(c.rest) {
        restored(x, s, c);
    }
    if !x.sc[s - 1].alive {
        return s;
    }
    if x.sc[s - 1].lat.is_some() && every {
        let v = some_ver(x, s);
        observe(x, s, v, what & !DUMP, max);
    }
    // now and then, very many versions
    let long = c.long > 0 && x.n() <= 36 && x.rng.below(1000) < c.long;
    let cnt = if long { x.rng.range(40, 120) } else { x.rng.range(c.commits.0, c.commits.1) };
    let every = every && !long;
    for _ in 0..cnt {
        if !commit(x, s, c) {
            return s;
        }
        if x.rng.pct(c.reopen) {
            x.reopen(s);
        }
        if x.rng.pct(if long { c.prune / 4 } else { c.prune }) {
            let vs = versions(x, s);
            let v = *x.rng.pick(&vs);
            x.prune(s, v);
        }
        if every {
            let v = some_ver(x, s);
            let few = x.rng.range(1, 4);
            observe(x, s, v, what & !INDEX & !DUMP, few);
        }
    }
    if x.sc[s - 1].lat.is_some() {
        let vs = versions(x, s);
        let low = x.sc[s - 1].low;
        for (i, v) in vs.iter().enumerate() {
            let last = i + 1 == vs.len();
            if last || x.rng.pct(if long { 6 } else { 40 }) || (*v < low && x.rng.pct(60)) {
                if *v >= low {
                    observe(x, s, *v, what & !DUMP & if last { u32::MAX } else { !ROOTS }, max);
                } else {
                    observe(x, s, *v, what & READS, 2);
                }
            }
        }
        if what & DUMP != 0 {
            x.dump(s);
        }
    }
    s
}

/// A version that was never committed is not readable.
pub fn uncommitted(x: &mut Ctx, s: usize) {
    let vs = versions(x, s);
    let v = match (vs.first(), vs.last()) {
        (Some(&f), Some(&l)) => {
            let mut c = vec![];
            if (x.base as i128 + l as i128) < u64::MAX as i128 {
                c.push(l + 1);
            }
            if x.base as i128 + f as i128 > 0 {
                c.push(f - 1);
            }
            if c.is_empty() {
                return;
            }
            *x.rng.pick(&c)
        }
        _ => 0,
    };
    let st = x.st(s);
    if st.get_node_option(&root_key(x.v(v))).ok().flatten().is_some() {
        return;
    }
    let ks = some_keys(x, 3);
    x.reads(s, v, &ks);
    let k = x.rng.range(1, x.n());
    x.iter(s, v, "key", k);
    x.excl(s, v, k);
    x.range(s, v, k);
}
