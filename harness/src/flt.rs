//! C21: every storage read of an operation fails, or finds nothing.
use crate::ctx::*;
use crate::gen;
use crate::rest;
use crate::store::Flt;
use serde_json::{json, Value};

pub enum Op {
    Get(i64, usize),
    Getp(i64, usize),
    Root(i64),
    Iter(i64, &'static str, usize),
    Excl(i64, usize),
    Ics(i64, usize),
    Range(i64, usize),
    Compute(&'static str, Vec<Ops>, i64),
}

fn run(x: &mut Ctx, s: usize, op: &Op, miss: bool) -> Value {
    let st = x.st(s);
    match op {
        Op::Get(ver, k) => {
            let t = Tree::new(&*st);
            let r = guard(|| t.get(x.kh(*k), x.v(*ver)));
            json!({"e": "get", "ver": ver, "k": k, "res": code(&r), "out": r.map(|y| x.opt_val_no(&y)).unwrap_or(0)})
        }
        Op::Getp(ver, k) => {
            let t = Tree::new(&*st);
            let r = guard(|| t.get_with_proof(x.kh(*k), x.v(*ver)));
            let c = code(&r);
            match r {
                Err(_) => json!({"e": "getp", "ver": ver, "k": k, "res": c, "out": 0, "leaf": [], "sb": []}),
                Ok((y, p)) => {
                    let (l, sb) = x.prf(&Prf::of(&p));
                    json!({"e": "getp", "ver": ver, "k": k, "res": 0, "out": x.opt_val_no(&y), "leaf": l, "sb": sb})
                }
            }
        }
        Op::Root(ver) => json!({"e": "root", "ver": ver, "row": x.root_row(&st, *ver), "miss": miss, "res": 0}),
        Op::Iter(ver, m, f) => x.iter_ev(st, s, *ver, m, *f),
        Op::Excl(ver, k) => x.excl_ev(&st, s, *ver, *k),
        Op::Ics(ver, k) => crate::icsx::ics_ev(x, &st, s, *ver, *k),
        Op::Range(ver, k) => x.range_ev(&st, s, *ver, *k),
        Op::Compute(api, sets, first) => x.compute_ev(&st, s, api, sets, *first).0,
    }
}

pub fn c21(x: &mut Ctx, s: usize, many: usize) {
    let n = x.n();
    for _ in 0..many {
        let ver = gen::some_ver(x, s);
        let k = x.rng.range(1, n);
        let cur = x.content_at(s, ver);
        let empty = cur.iter().all(|v| *v == 0);
        let lat = x.sc[s - 1].lat.unwrap();
        let what = x.rng.below(14);
        let op = match what {
            0 => Op::Get(ver, k),
            1 | 2 => Op::Getp(ver, k),
            3 => Op::Root(ver),
            4 | 5 => Op::Iter(ver, "key", k),
            6 => Op::Iter(ver, "idx", x.rng.below(n)),
            7 if !empty => Op::Excl(ver, k),
            8 | 13 if !empty && x.pre.is_some() => Op::Ics(ver, k),
            9 if cur[k] != 0 => Op::Range(ver, k),
            10..=13 => {
                let api = *x.rng.pick(&["set", "sets", "setp", "setp", "setsp", "batch", "append"]);
                let c = x.content(s);
                if api == "append" && c.iter().all(|v| *v == 0) {
                    continue;
                }
                let cnt = if api.starts_with("sets") || api == "batch" { x.rng.range(1, 2) } else { 1 };
                let mut sets = vec![];
                let mut cc = c;
                for _ in 0..cnt {
                    let style = if api == "batch" { 3 } else { x.rng.below(3) };
                    let mut o = gen::some_ops(x, &cc, 1, 3, style);
                    if api == "batch" {
                        o.retain(|y| y.1 != 0);
                        if o.is_empty() {
                            o.push((1, 1));
                        }
                    }
                    cc = Ctx::apply(&cc, &o);
                    sets.push(o);
                }
                Op::Compute(api, sets, if api == "append" { lat } else { lat + 1 })
            }
            _ => Op::Getp(ver, k),
        };
        faults(x, s, &op, 24);
    }
}

/// Every read of an operation (at most `max` of them) fails, or finds nothing.
pub fn faults(x: &mut Ctx, s: usize, op: &Op, max: usize) {
    let st = x.st(s);
    st.arm(None);
    let first = run(x, s, op, false);
    let log = st.read_log();
    x.push(json!({"e": "again", "s": s, "ev": first}));
    let mut pts: Vec<usize> = (0..log.len()).collect();
    if pts.len() > max {
        x.rng.shuffle(&mut pts);
        pts.truncate(max);
    }
    for i in pts {
        for mode in [Flt::Err, Flt::Miss] {
            if mode == Flt::Miss {
                // a missing root is another matter for writes; the storage alone answers plain reads
                let skip = match op {
                    Op::Compute(..) => log[i] == b'r',
                    Op::Get(..) => true,
                    _ => log[i] == b'm',
                };
                if skip {
                    continue;
                }
            }
            st.arm(Some((i, mode)));
            let ev = run(x, s, op, mode == Flt::Miss);
            st.arm(None);
            x.push(json!({"e": "flt", "s": s, "n": i, "mode": format!("{mode:?}"), "ev": ev}));
        }
    }
    let ev = run(x, s, op, false);
    x.push(json!({"e": "again", "s": s, "ev": ev}));
}

/// Every reading of a version, with faults.
pub fn all_reads(x: &mut Ctx, s: usize, ver: i64) {
    let cur = x.content_at(s, ver);
    let empty = cur.iter().all(|v| *v == 0);
    let mut ops = vec![Op::Root(ver)];
    for k in 1..=x.n() {
        ops.push(Op::Get(ver, k));
        ops.push(Op::Getp(ver, k));
        ops.push(Op::Iter(ver, "key", k));
        ops.push(Op::Iter(ver, "idx", k - 1));
        if !empty {
            ops.push(Op::Excl(ver, k));
            if x.pre.is_some() {
                ops.push(Op::Ics(ver, k));
            }
        }
        if cur[k] != 0 {
            ops.push(Op::Range(ver, k));
        }
    }
    for op in &ops {
        faults(x, s, op, 40);
    }
}

/// Read failures while a restoration is resumed.
pub fn restore(x: &mut Ctx) {
    let (src, of) = rest::source(x, true);
    let s = x.new_store(false);
    let ver = of;
    let mut r = rest::rnew(x, src, of, s, ver, "new", None);
    for _ in 0..x.rng.range(1, 3) {
        if r.todo.len() > 1 {
            let n = x.rng.range(1, r.todo.len() - 1).min(3);
            if rest::good_chunk(x, &mut r, n, None) != 0 {
                return;
            }
        }
    }
    let st = x.st(s);
    let root = x.root_of(src, of);
    let v = x.v(ver);
    st.arm(None);
    let _ = guard(|| jmt::restore::JellyfishMerkleRestore::<crate::rec::Rec>::new(st.clone(), v, root));
    let cnt = st.reads();
    for i in 0..cnt {
        st.arm(Some((i, Flt::Err)));
        let q = guard(|| jmt::restore::JellyfishMerkleRestore::<crate::rec::Rec>::new(st.clone(), v, root));
        st.arm(None);
        x.push(json!({"e": "flt", "s": s, "n": i, "mode": "Err", "ev": {"e": "resume", "res": code(&q)}}));
    }
    rest::honest(x, src, of, s, ver, "new");
    if x.sc[s - 1].lat == Some(ver) {
        gen::observe(x, s, ver, gen::READS | gen::ROOTS, 4);
    }
}
