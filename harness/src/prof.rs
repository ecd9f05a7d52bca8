//! One trace per property and index: which programs are run for which property.
use crate::ctx::*;
use crate::gen::{self, *};
use crate::rng::Rng;
use crate::{encx, flt, forge, hashx, huge, icsx, mockx, mt, rest};
use serde_json::{json, Value};

pub const ALL: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];

pub fn prop_no(p: &str) -> u64 {
    p[1..].parse().unwrap_or(0)
}

/// The trace of a property with a number. `big`: larger universes and histories.
/// Properties whose first trace includes one very large tree.
const HUGE: [&str; 7] = ["C01", "C10", "C11", "C12", "C13", "C15", "C23"];

pub fn trace(prop: &str, seed: u64, idx: u64, big: bool) -> Value {
    let rng = Rng::new(seed.wrapping_mul(1_000_003) ^ (prop_no(prop) << 40) ^ idx.wrapping_mul(0x1234_5677));
    let mut c = cfg(prop);
    let mut rng2 = rng.clone();
    rng2.next();
    if big && rng2.pct(40) {
        c.n = (c.n.0, c.n.1 * 2);
        c.commits.1 *= 2;
        c.ops.1 *= 2;
    }
    if prop == "C21" && rng2.pct(30) {
        c.hashed = true;
        c.nonempty = true;
    }
    let mut x = gen::setup(rng, &c);
    x.label = prop.to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if idx == 0 && HUGE.contains(&prop) {
            huge::huge(&mut x);
        }
        run(prop, &mut x, &c)
    }));
    if r.is_err() {
        // what the code returned could not even be written down
        x.push(json!({"e": "garbled"}));
    }
    x.its.clear();
    x.done(idx as usize, seed)
}

pub fn cfg(prop: &str) -> Cfg {
    let mut c = Cfg::default();
    c.large = match prop {
        "C21" | "C24" => 0,
        "C23" if std::env::var("LARGE").is_err() => 3,
        _ => std::env::var("LARGE").ok().and_then(|y| y.parse().ok()).unwrap_or(12),
    };
    match prop {
        "C01" => {
            c.prune = 15;
            c.append = 5;
            c.pregen = 10;
        }
        "C02" => {
            c.append = 8;
            c.ops = (0, 7);
            c.apis = vec!["set", "sets", "setp", "setsp", "batch"];
        }
        "C04" => {
            c.n = (3, 8);
            c.commits = (1, 4);
        }
        "C05" => c.commits = (2, 6),
        "C06" => {
            c.hashed = true;
            c.nonempty = true;
            c.n = (3, 8);
            c.commits = (2, 5);
        }
        "C07" => {
            c.apis = vec!["setp", "setsp"];
            c.ops = (0, 6);
        }
        "C08" => {
            c.n = (3, 8);
            c.commits = (1, 4);
        }
        "C09" => {
            c.append = 5;
            c.apis = vec!["set", "set", "sets", "setp", "setsp", "batch"];
        }
        "C10" => {
            c.prune = 60;
            c.append = 5;
            c.pregen = 10;
        }
        "C11" => {
            c.prune = 55;
            c.pregen = 15;
            c.ops = (0, 4);
            c.apis = vec!["set", "set", "sets", "setp", "setsp", "batch", "batch"];
        }
        "C12" => c.prune = 10,
        "C13" => c.append = 5,
        "C14" => {
            c.apis = vec!["set", "sets", "setsp", "batch", "batch", "batchh"];
            c.prune = 25;
        }
        "C15" | "C16" | "C17" => {
            c.n = (2, 12);
            c.commits = (1, 2);
        }
        "C18" => {
            c.n = (2, 10);
            c.commits = (2, 5);
        }
        "C19" => {
            c.append = 55;
            c.prune = 25;
            c.pregen = 15;
            c.ops = (0, 4);
        }
        "C20" => {
            c.ops = (0, 2);
            c.n = (2, 6);
            c.pregen = 20;
            c.prune = 20;
            c.append = 5;
            c.apis = vec!["set", "set", "sets", "setp", "setsp", "batch"];
        }
        "C21" => {
            c.n = (2, 9);
            c.commits = (1, 4);
        }
        "C23" => c.n = (2, 10),
        "C24" => c.n = (2, 6),
        _ => {}
    }
    c
}

fn run(prop: &str, x: &mut Ctx, c: &Cfg) {
    match prop {
        "C01" => {
            gen::history(x, c, READS | ROOTS | DUMP, 8, true);
        }
        "C02" => {
            let s = gen::history(x, c, ROOTS | READS, 2, false);
            hashing(x, s);
        }
        "C03" => {
            let s = gen::history(x, c, READS, 12, true);
            hashing(x, s);
        }
        "C04" => {
            let s = gen::history(x, c, READS, 1, false);
            forging(x, s, |x, s, v| forge::c04(x, s, v, 60));
        }
        "C05" => {
            gen::history(x, c, EXCL, 10, true);
        }
        "C06" => {
            let s = gen::history(x, c, ICS, 6, true);
            if x.rng.pct(60) {
                forging(x, s, |x, s, v| {
                    let k = x.rng.range(1, x.n());
                    icsx::forged(x, s, v, k)
                });
            }
        }
        "C07" => {
            let s = gen::history(x, c, READS, 1, false);
            hashing(x, s);
        }
        "C08" => {
            let s = gen::history(x, c, READS, 1, false);
            forging(x, s, |x, s, v| forge::c08(x, s, v, 60));
        }
        "C09" => {
            gen::history(x, c, READS | DUMP, 4, true);
        }
        "C10" => {
            gen::history(x, c, READS | ROOTS | ITER | EXCL | RANGE | INDEX | DUMP, 4, true);
        }
        "C11" => {
            gen::history(x, c, READS | ROOTS | DUMP, 3, true);
        }
        "C12" => {
            gen::history(x, c, ITER, 12, true);
        }
        "C13" => {
            gen::history(x, c, INDEX | ROOTS, 4, true);
        }
        "C14" => c14(x, c),
        "C15" => rest::c15(x, c),
        "C16" => rest::c16(x, c),
        "C17" => rest::c17(x, c),
        "C18" => {
            let s = gen::history(x, c, RANGE, 8, true);
            forging(x, s, |x, s, v| forge::c18(x, s, v, 60));
        }
        "C19" => c19(x, c),
        "C20" => {
            let s = gen::history(x, c, READS | ROOTS | ITER | INDEX | EXCL | DUMP, 3, true);
            if x.sc[s - 1].alive {
                gen::uncommitted(x, s);
            }
        }
        "C21" => {
            if x.rng.pct(15) {
                flt::restore(x);
            } else {
                let s = gen::history(x, c, 0, 1, false);
                if x.sc[s - 1].alive && x.sc[s - 1].lat.is_some() {
                    flt::c21(x, s, 4);
                }
            }
        }
        "C22" => {
            c22(x, c);
            if x.rng.pct(3) {
                mt::mt(x);
            }
        }
        "C23" => encx::c23(x, c),
        "C24" => {
            if x.rng.pct(3) {
                mt::mt(x);
            } else {
                mockx::c24(x)
            }
        }
        _ => panic!("unknown property {prop}"),
    }
}

/// Now and then, the same with another hash function.
fn hashing(x: &mut Ctx, s: usize) {
    if x.rng.pct(20) {
        forging(x, s, hashx::hashers)
    }
}

fn forging(x: &mut Ctx, s: usize, f: impl Fn(&mut Ctx, usize, i64)) {
    if x.sc[s - 1].alive && x.sc[s - 1].lat.is_some() {
        let v = gen::some_ver(x, s);
        f(x, s, v);
    }
}

/// The same sets of changes through every interface, in any grouping, from a common past; then on
/// with one of them.
fn c14(x: &mut Ctx, c: &Cfg) {
    let enc = x.rng.pct(c.enc);
    let s = x.new_store(enc);
    for _ in 0..x.rng.range(0, 2) {
        if !gen::commit(x, s, c) {
            return;
        }
    }
    for _ in 0..x.rng.range(1, 3) {
        let insert_only = x.rng.pct(50);
        let cnt = x.rng.range(1, 5);
        let mut cc = x.content(s);
        let mut sets: Vec<Ops> = vec![];
        for _ in 0..cnt {
            let style = if insert_only { 3 } else { x.rng.below(3) };
            let mut o = gen::some_ops(x, &cc, c.ops.0, c.ops.1, style);
            if insert_only {
                o.retain(|y| y.1 != 0);
                if o.is_empty() {
                    o.push((x.rng.range(1, x.n()), x.rng.range(1, x.m())));
                }
            }
            cc = Ctx::apply(&cc, &o);
            sets.push(o);
        }
        let first = x.sc[s - 1].lat.map_or(0, |l| l + 1);
        let batch_ok = insert_only && (first > 0 || x.base == 0);
        agree(x, s, first, &sets, batch_ok);
        let apis: Vec<&str> = if batch_ok { vec!["batch", "batchh", "setsp"] } else { vec!["sets", "setsp"] };
        let api = *x.rng.pick(&apis);
        if !x.put(s, api, &sets) {
            return;
        }
        if x.rng.pct(c.prune) {
            let vs = versions(x, s);
            let v = *x.rng.pick(&vs);
            x.prune(s, v);
        }
        let v = gen::some_ver(x, s);
        gen::observe(x, s, v, READS | ROOTS | ITER | INDEX, 4);
    }
    x.dump(s);
}

/// The outcome of the sets of changes through every interface, in any grouping.
pub fn agree(x: &mut Ctx, s: usize, first: i64, sets: &[Ops], batch_ok: bool) {
    let cnt = sets.len();
    let mut plans: Vec<Vec<(&'static str, usize)>> = vec![
        vec![("set", 1); cnt],
        vec![("setp", 1); cnt],
        vec![("sets", cnt)],
        vec![("setsp", cnt)],
    ];
    if batch_ok {
        plans.push(vec![("batch", cnt)]);
        plans.push(vec![("batchh", cnt)]);
        plans.push(vec![("batch", 1); cnt]);
    }
    // a mixture
    let mut mix = vec![];
    let mut left = cnt;
    while left > 0 {
        let k = x.rng.range(1, left);
        let mut apis = vec!["sets", "setsp"];
        if batch_ok {
            apis.push("batch");
            apis.push("batchh");
        }
        mix.push((*x.rng.pick(&apis), k));
        left -= k;
    }
    plans.push(mix);
    let mut outs = vec![];
    for p in &plans {
        let f = x.st(s).fork();
        let mut o = json!({"api": p.iter().map(|y| format!("{}:{}", y.0, y.1)).collect::<Vec<_>>().join(" "),
            "res": 0, "roots": [], "nodes": [], "stale": [], "vals": [], "stats": []});
        let mut at = 0;
        for (api, k) in p {
            match x.raw_compute(&f, api, &sets[at..at + k], first + at as i64) {
                Err(c) => {
                    o["res"] = json!(c);
                    break;
                }
                Ok((roots, _, batch)) => {
                    let (r, n, st, v, ss) = x.outcome(&roots, &batch);
                    for (name, part) in [("roots", r), ("nodes", n), ("stale", st), ("vals", v), ("stats", ss)] {
                        o[name].as_array_mut().unwrap().extend(part.as_array().unwrap().clone());
                    }
                    if guard(|| f.put_batch(&batch)).is_err() {
                        o["res"] = json!(ERR);
                    }
                }
            }
            at += k;
        }
        outs.push(o);
    }
    x.push(json!({"e": "agree", "s": s, "ver": first, "sets": Ctx::sets_json(sets), "outs": outs}));
}

fn c19(x: &mut Ctx, c: &Cfg) {
    let s = gen::history(x, c, READS | ROOTS | ITER | INDEX | EXCL | RANGE | DUMP, 3, true);
    if !x.sc[s - 1].alive {
        return;
    }
    // what has to be refused
    let lat = match x.sc[s - 1].lat {
        Some(l) => l,
        None => return,
    };
    let cur = x.content(s);
    let ops = gen::some_ops(x, &cur, 1, 3, 1);
    let vs = versions(x, s);
    let mut no: Vec<i64> = vs.iter().copied().filter(|v| *v < lat).collect();
    if (x.base as i128 + lat as i128) < u64::MAX as i128 - 2 {
        no.push(lat + 1);
    }
    if cur.iter().all(|v| *v == 0) {
        no.push(lat);
    }
    for v in no {
        // (not at the pre-genesis version)
        if x.base as i128 + v as i128 >= 0 && x.rng.pct(60) {
            x.compute(s, "append", &[ops.clone()], v);
        }
    }
    let t = x.new_store(false);
    x.compute(t, "append", &[ops], 0);
    // an append with alternatives
    if x.content(s).iter().any(|v| *v != 0) {
        let cur = x.content(s);
        let a = gen::some_ops(x, &cur, 0, 4, 1);
        let b = gen::some_ops(x, &cur, 0, 4, 2);
        x.compute(s, "append", &[a], lat);
        if gen::append(x, s, b) {
            gen::observe(x, s, lat, READS | ROOTS | ITER, 4);
        }
    }
}

/// Alternatives computed and stored in any order, forks, and iterators across commits and prunings.
fn c22(x: &mut Ctx, c: &Cfg) {
    let enc = x.rng.pct(c.enc);
    let s0 = x.new_store(enc);
    for _ in 0..x.rng.range(1, 3) {
        if !gen::commit(x, s0, c) {
            return;
        }
    }
    let mut stores = vec![s0];
    let mut its: Vec<(usize, usize, i64)> = vec![]; // id, store, version
    let mut nid = 0;
    let mut pend: Vec<Pend> = vec![];
    for _ in 0..x.rng.range(8, 24) {
        let s = *x.rng.pick(&stores);
        match x.rng.below(12) {
            0 | 1 => {
                // an alternative
                let cur = x.content(s);
                let style = x.rng.below(4);
                let api = *x.rng.pick(&["set", "sets", "setp", "setsp", "append"]);
                let lat = x.sc[s - 1].lat.unwrap();
                if api == "append" && cur.iter().all(|v| *v == 0) {
                    continue;
                }
                let ops = gen::some_ops(x, &cur, c.ops.0, c.ops.1, style);
                let first = if api == "append" { lat } else { lat + 1 };
                if api == "append" {
                    // only computed: it must leave no mark
                    x.compute(s, api, &[ops], first);
                } else if let Some(p) = x.compute(s, api, &[ops], first) {
                    pend.push(p);
                } else {
                    return;
                }
            }
            2 | 3 => {
                // store one that is still possible
                let ok: Vec<usize> =
                    (0..pend.len()).filter(|i| x.sc[pend[*i].s - 1].lat == Some(pend[*i].first - 1)).collect();
                if let Some(&i) = ok.last() {
                    let i = if x.rng.pct(50) { i } else { ok[0] };
                    let p = pend.remove(i);
                    if x.rng.pct(40) && stores.len() < 4 {
                        // on a fork, the original goes on
                        let t = x.fork(p.s);
                        stores.push(t);
                        x.store_to(&p, t);
                    } else {
                        x.store(&p);
                    }
                }
            }
            4 => {
                if stores.len() < 4 {
                    let t = x.fork(s);
                    stores.push(t);
                }
            }
            5 => {
                // prune below every iterator
                let lowest = its.iter().filter(|y| y.1 == s).map(|y| y.2).min();
                let vs: Vec<i64> = versions(x, s).into_iter().filter(|v| lowest.map_or(true, |l| *v <= l)).collect();
                // updates computed before stay valid if nothing they use goes: up to their base
                if let Some(v) = vs.last().copied() {
                    let v = if x.rng.pct(50) { v } else { *x.rng.pick(&vs) };
                    x.prune(s, v);
                }
            }
            6 | 7 => {
                let v = gen::some_ver(x, s);
                nid += 1;
                let (mode, from) = if x.rng.pct(70) {
                    ("key", x.rng.range(1, x.n()))
                } else {
                    ("idx", x.rng.below(x.n()))
                };
                x.inew(nid, s, v, mode, from);
                if x.its.contains_key(&nid) {
                    its.push((nid, s, v));
                }
            }
            8..=10 => {
                if !its.is_empty() {
                    let i = x.rng.below(its.len());
                    if !x.inext(its[i].0) {
                        its.remove(i);
                    }
                }
            }
            _ => {
                let v = gen::some_ver(x, s);
                gen::observe(x, s, v, READS | ROOTS, 3);
            }
        }
    }
    for (id, _, _) in its {
        for _ in 0..2 * x.n() + 4 {
            if !x.inext(id) {
                break;
            }
        }
    }
    for s in stores {
        let v = gen::some_ver(x, s);
        gen::observe(x, s, v, READS | ROOTS, 4);
        x.dump(s);
    }
}
