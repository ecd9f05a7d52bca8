//! Replays behaviours of the specification (written out by TLC from spec/MC_Hist.tla and
//! spec/MC_Sched.tla) into the code, and records what it does.
use crate::ctx::*;
use crate::flt;
use crate::gen::{self, *};
use crate::keys;
use crate::prof;
use crate::rest;
use crate::rng::Rng;
use crate::store::WFlt;
use crate::{encx, forge, icsx, mockx};
use serde_json::{json, Value};

fn ints(v: &Value) -> Vec<usize> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
}

/// Keys (in ascending order) that share with their neighbours the numbers of leading bits given;
/// the other bits are random, all 0 or all 1.
fn shaped(r: &mut Rng, adj: &[usize]) -> Vec<[u8; 32]> {
    let n = adj.len() + 1;
    let fill = r.below(4);
    let mut ks: Vec<[u8; 32]> = (0..n)
        .map(|_| match fill {
            0 => [0; 32],
            1 => [255; 32],
            _ => r.bytes32(),
        })
        .collect();
    fn split(ks: &mut [[u8; 32]], adj: &[usize]) {
        if ks.len() < 2 {
            return;
        }
        let (m, d) = adj.iter().enumerate().min_by_key(|(_, d)| **d).map(|(i, d)| (i, *d)).unwrap();
        // all share the first d bits, and part at bit d
        let first = ks[0];
        for (i, k) in ks.iter_mut().enumerate() {
            for b in 0..d {
                if keys::bit(k, b) != keys::bit(&first, b) {
                    keys::flip(k, b);
                }
            }
            if (keys::bit(k, d) == 1) != (i > m) {
                keys::flip(k, d);
            }
        }
        let (l, r) = ks.split_at_mut(m + 1);
        split(l, &adj[..m]);
        split(r, &adj[m + 1..]);
    }
    split(&mut ks, adj);
    debug_assert!(ks.windows(2).zip(adj).all(|(w, d)| w[0] < w[1] && keys::lcp(&w[0], &w[1]) == *d));
    ks
}

/// The same with keys of known preimages, if some are found.
fn shaped_hashed(r: &mut Rng, adj: &[usize]) -> Option<Vec<([u8; 32], Vec<u8>)>> {
    let salt = r.next();
    let style = r.below(8);
    let mut pool: Vec<([u8; 32], Vec<u8>)> = (0..16384u32)
        .map(|i| {
            let p = keys::preimage(style, salt, i);
            (crate::rec::sha(&p), p)
        })
        .collect();
    pool.sort();
    for _ in 0..50 {
        let mut out = vec![pool[r.below(pool.len())].clone()];
        for d in adj {
            let last = out.last().unwrap().0;
            let c: Vec<&([u8; 32], Vec<u8>)> =
                pool.iter().filter(|k| k.0 > last && keys::lcp(&k.0, &last) == *d).collect();
            if c.is_empty() {
                break;
            }
            out.push((*r.pick(&c)).clone());
        }
        if out.len() == adj.len() + 1 {
            return Some(out);
        }
    }
    None
}

fn ctx_for(prop: &str, mut rng: Rng, adj: &[usize]) -> Ctx {
    let (ks, pre) = match if prop == "C06" { shaped_hashed(&mut rng, adj) } else { None } {
        Some(h) => (h.iter().map(|x| x.0).collect(), Some(h.iter().map(|x| x.1.clone()).collect())),
        None => (shaped(&mut rng, adj), None),
    };
    let m = rng.range(2, 5);
    let mut vals = keys::values(&mut rng, m, &ks);
    if prop == "C06" {
        for (i, v) in vals.iter_mut().enumerate().skip(1) {
            if v.is_empty() {
                *v = format!("w{i}").into_bytes();
            }
        }
    }
    let base = *rng.pick(&[0u64, 0, 0, 1, 9, 255, 65534, (1 << 32) - 2, (1 << 40) + 3, 1 << 63, u64::MAX - 40]);
    let mut x = Ctx::new(rng, ks, vals, base);
    x.pre = pre;
    x.label = prop.to_string();
    x
}

/// Values for the changes of a step; now and then the value that is there already.
fn fill(x: &mut Ctx, c: &Content, ops: &Value) -> Ops {
    let mut c = c.clone();
    let mut out = vec![];
    for o in ops.as_array().unwrap() {
        let o = ints(o);
        let k = o[0];
        let v = if o[1] == 0 {
            0
        } else if c[k] != 0 && x.rng.pct(25) {
            c[k]
        } else {
            x.rng.range(1, x.m())
        };
        c[k] = v;
        out.push((k, v));
    }
    out
}

/// The sets of changes of a step, and an interface to make them through.
fn plan(x: &mut Ctx, s: usize, st: &Value, apis: &[&'static str]) -> (&'static str, Vec<Ops>) {
    let mut c = x.content(s);
    let mut sets = vec![];
    for o in st.as_array().unwrap()[1..].iter() {
        let ops = fill(x, &c, o);
        c = Ctx::apply(&c, &ops);
        sets.push(ops);
    }
    let first = x.sc[s - 1].lat.map_or(0, |l| l + 1);
    let batch = (first > 0 || x.base == 0) && sets.iter().all(|o| !o.is_empty() && o.iter().all(|y| y.1 != 0));
    let mut ok: Vec<&'static str> = apis
        .iter()
        .copied()
        .filter(|a| (batch || !a.starts_with("batch")) && (sets.len() == 1 || !matches!(*a, "set" | "setp")))
        .collect();
    if ok.is_empty() {
        ok.push("sets");
    }
    (*x.rng.pick(&ok), sets)
}

/// One step of the specification.
fn step(x: &mut Ctx, s: usize, st: &Value, c: &Cfg) -> bool {
    match st[0].as_str().unwrap() {
        "p" => {
            x.prune(s, st[1].as_i64().unwrap());
            true
        }
        "a" => {
            let cur = x.content(s);
            let ops = fill(x, &cur, &st[1]);
            gen::append(x, s, ops)
        }
        _ => {
            let (api, sets) = plan(x, s, st, &c.apis);
            x.put(s, api, &sets)
        }
    }
}

fn close(x: &mut Ctx, s: usize) {
    x.push(json!({"e": "close", "s": s}));
}

/// The observations a property asks for.
fn mask(prop: &str) -> u32 {
    match prop {
        "C01" => READS | ROOTS,
        "C02" => ROOTS,
        "C03" | "C07" | "C11" => READS,
        "C05" => EXCL,
        "C06" => ICS,
        "C09" => READS,
        "C10" => READS | ROOTS | ITER | EXCL | RANGE | INDEX,
        "C12" => ITER,
        "C13" => INDEX | ROOTS,
        "C14" => READS | ROOTS,
        "C18" => RANGE,
        "C19" | "C20" => READS | ROOTS | ITER | EXCL | INDEX,
        "C22" | "C23" => READS | ROOTS | ITER,
        _ => 0,
    }
}

/// Every version in the ways asked for, all keys.
fn look(x: &mut Ctx, s: usize, what: u32, old: bool) {
    let low = x.sc[s - 1].low;
    let vs = versions(x, s);
    if what & ROOTS != 0 {
        observe(x, s, 0, ROOTS, 9);
    }
    for (i, v) in vs.iter().enumerate() {
        if !old && i + 1 < vs.len() {
            continue;
        }
        if *v >= low {
            observe(x, s, *v, what & !ROOTS & !DUMP, 9);
        } else {
            observe(x, s, *v, what & READS, 9);
        }
    }
}

pub fn trace(prop: &str, seed: u64, job: &Value) -> Value {
    let idx = job["id"].as_u64().unwrap();
    let adj = ints(&job["adj"]);
    let rng = Rng::new(seed.wrapping_mul(2_000_003) ^ (prof::prop_no(prop) << 40) ^ idx.wrapping_mul(0x9876_5433));
    let mut x = ctx_for(prop, rng, &adj);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if job["over"].is_boolean() {
            mockx::replay(&mut x, job)
        } else if job["sched"].is_array() {
            sched(prop, &mut x, job)
        } else {
            run(prop, &mut x, job)
        }
    }));
    if r.is_err() {
        x.push(json!({"e": "garbled"}));
    }
    x.its.clear();
    x.done(idx as usize, seed)
}

fn run(prop: &str, x: &mut Ctx, job: &Value) {
    let c = prof::cfg(prop);
    let enc = prop == "C23" || x.rng.pct(20);
    let s = x.new_store(enc);
    for st in job["hist"].as_array().unwrap() {
        if !step(x, s, st, &c) {
            return;
        }
    }
    let what = mask(prop);
    let has = x.sc[s - 1].lat.is_some();
    // the state itself
    if has && job["look"] != json!(false) {
        look(x, s, what, true);
        if matches!(prop, "C09" | "C11") {
            x.dump(s);
        }
        let v = gen::some_ver(x, s);
        match prop {
            "C04" => forge::c04(x, s, v, 8),
            "C08" => forge::c08(x, s, v, 8),
            "C18" => forge::c18(x, s, v, 8),
            "C06" if x.pre.is_some() => {
                let k = x.rng.range(1, x.n());
                icsx::forged(x, s, v, k)
            }
            "C20" => gen::uncommitted(x, s),
            "C21" => flt::all_reads(x, s, v),
            _ => {}
        }
    }
    let nexts: Vec<Value> = job["next"].as_array().unwrap().clone();
    if prop == "C22" {
        return alternatives(x, s, &nexts, &c);
    }
    for st in &nexts {
        let kind = st[0].as_str().unwrap();
        match prop {
            "C14" if kind == "c" || kind == "m" => {
                let (_, sets) = plan(x, s, st, &c.apis);
                let first = x.sc[s - 1].lat.map_or(0, |l| l + 1);
                let ins = sets.iter().all(|o| !o.is_empty() && o.iter().all(|y| y.1 != 0));
                prof::agree(x, s, first, &sets, ins && (first > 0 || x.base == 0));
                continue;
            }
            "C21" => {
                if kind == "p" {
                    continue;
                }
                let (api, sets) = plan(x, s, st, &["set", "sets", "setp", "setsp", "batch"]);
                let lat = x.sc[s - 1].lat;
                let op = if kind == "a" {
                    flt::Op::Compute("append", sets, lat.unwrap_or(0))
                } else {
                    flt::Op::Compute(api, sets, lat.map_or(0, |l| l + 1))
                };
                flt::faults(x, s, &op, 40);
                continue;
            }
            _ => {}
        }
        let t = x.fork(s);
        if step(x, t, st, &c) {
            if prop == "C23" {
                x.reopen(t);
            }
            if matches!(prop, "C10" | "C11") && kind != "p" {
                let vs = versions(x, t);
                let v = if prop == "C11" { *vs.last().unwrap() } else { *x.rng.pick(&vs) };
                x.prune(t, v);
            }
            // old versions are looked at again where they may have suffered
            let old = matches!(prop, "C09" | "C10" | "C11" | "C19" | "C20") || x.rng.pct(15);
            look(x, t, what, old);
            if matches!(prop, "C09" | "C11") {
                x.dump(t);
            }
            if prop == "C18" || prop == "C04" || prop == "C08" {
                let v = x.sc[t - 1].lat.unwrap();
                match prop {
                    "C04" => forge::c04(x, t, v, 4),
                    "C08" => forge::c08(x, t, v, 4),
                    _ => forge::c18(x, t, v, 3),
                }
            }
        }
        close(x, t);
    }
    if prop == "C23" && has {
        encx::objects(x, s, vec![], vec![]);
    }
}

/// All the steps as alternatives, computed before any is stored; iterators from before.
fn alternatives(x: &mut Ctx, s: usize, nexts: &[Value], c: &Cfg) {
    let mut id = 0;
    let mut pend = vec![];
    let mut prunes = vec![];
    let lat = x.sc[s - 1].lat;
    for st in nexts {
        let kind = st[0].as_str().unwrap();
        if kind == "p" {
            prunes.push(st[1].as_i64().unwrap());
            continue;
        }
        let (api, sets) = plan(x, s, st, &c.apis);
        let (api, first) = if kind == "a" { ("append", lat.unwrap_or(0)) } else { (api, lat.map_or(0, |l| l + 1)) };
        match x.compute(s, api, &sets, first) {
            Some(p) => {
                if kind != "a" {
                    pend.push(p)
                }
            }
            None => return,
        }
    }
    x.rng.shuffle(&mut pend);
    for (i, p) in pend.iter().enumerate() {
        let last = i + 1 == pend.len();
        let t = if last { s } else { x.fork(s) };
        let mut its = vec![];
        if lat.is_some() {
            let v = gen::some_ver(x, t);
            let k = x.rng.range(1, x.n());
            id += 1;
            x.inew(id, t, v, "key", k);
            its.push(id);
            if x.rng.pct(50) {
                x.inext(id);
            }
            if x.rng.pct(40) {
                x.prune(t, v);
            }
        }
        x.store_to(p, t);
        for i in its {
            for _ in 0..x.n() + 1 {
                if !x.inext(i) {
                    break;
                }
            }
        }
        look(x, t, READS | ROOTS, last);
        if !last {
            close(x, t);
        }
    }
    x.dump(s);
}

/// A schedule of a restoration.
fn sched(prop: &str, x: &mut Ctx, job: &Value) {
    let n = job["n"].as_u64().unwrap() as usize;
    let src = x.new_store(false);
    // n of the keys are there
    let mut ks: Vec<usize> = (1..=x.n()).collect();
    x.rng.shuffle(&mut ks);
    ks.truncate(n);
    ks.sort();
    let ops: Ops = ks.into_iter().map(|k| (k, x.rng.range(1, x.m()))).collect();
    if !x.put(src, "set", &[ops]) {
        return;
    }
    let enc = x.rng.pct(30);
    let s = x.new_store(enc);
    let ver = rest::target_ver(x, 0);
    let mut r = Some(rest::rnew(x, src, 0, s, ver, "new", None));
    let mut good = true; // nothing was refused by the object in use
    for a in job["sched"].as_array().unwrap() {
        let what = a[0].as_str().unwrap();
        let k = a[1].as_u64().unwrap_or(0) as usize;
        let wf = match a[2].as_str() {
            Some("b") => Some(WFlt::Before),
            Some("a") => Some(WFlt::After),
            _ => None,
        };
        if r.is_none() {
            r = Some(rest::rnew(x, src, 0, s, ver, "new", None));
            good = true;
        }
        match what {
            "c" => {
                let y = r.as_mut().unwrap();
                let c = rest::good_chunk(x, y, k, wf);
                if wf.is_some() {
                    r = None;
                } else if c != 0 && good {
                    return;
                }
            }
            "f" => {
                let c = rest::rfin(x, r.take().unwrap(), wf);
                if wf.is_none() && c != 0 && good && a[3].as_str() != Some("early") {
                    return;
                }
            }
            "x" => {
                r = None;
                if x.rng.pct(20) {
                    x.reopen(s);
                }
            }
            "bad" => {
                let y = r.as_mut().unwrap();
                let m = if y.todo.is_empty() { 0 } else { x.rng.range(1, y.todo.len()) };
                rest::bad_chunk(x, y, m);
                good = false;
                if k == 1 {
                    r = None;
                }
            }
            _ => panic!("schedule"),
        }
    }
    if x.sc[s - 1].lat == Some(ver) {
        let c = prof::cfg(prop);
        look(x, s, READS | ROOTS | ITER | EXCL | RANGE, true);
        gen::commit(x, s, &c);
        look(x, s, READS | ROOTS, true);
    }
}
