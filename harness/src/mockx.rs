//! C24: the bundled in-memory store.
use crate::ctx::*;
use borsh::BorshDeserialize;
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use serde_json::{json, Value};

struct Pool {
    keys: Vec<NodeKey>,
    nodes: Vec<(Node, i64)>, // and the number of the key, if a leaf
}

/// The store, and what has been done with it.
struct Run {
    m: MockTreeStore,
    p: Pool,
    vmax: i64,
}
type Ns = Vec<(usize, usize)>; // numbers of node keys and nodes, from 0
type Vs = Vec<(i64, usize, usize)>; // versions, keys, values

fn leaf_of(x: &Ctx, k: usize, v: usize) -> Node {
    LeafNode::try_from_slice(&[x.keys[k - 1], x.vhash(v)].concat()).unwrap().into()
}

impl Run {
    fn open(x: &mut Ctx, over: bool, p: Pool, vmax: i64) -> Run {
        x.push(json!({"e": "mopen", "over": over}));
        Run { m: if over { MockTreeStore::new(true) } else if x.rng.pct(50) { MockTreeStore::default() } else { MockTreeStore::new(false) }, p, vmax }
    }
    /// A batch; the values in the order of versions, as batches are written.
    fn write(&self, x: &mut Ctx, nodes: &Ns, vals: &Vs, stale: &[(i64, usize)], only: bool) -> i64 {
        let mut nb = NodeBatch::default();
        let mut nj: Vec<Value> = vec![];
        for (i, n) in nodes {
            nb.insert_node(self.p.keys[*i].clone(), self.p.nodes[*n].0.clone());
            nj.retain(|y: &Value| y[0] != json!(i + 1));
            nj.push(json!([i + 1, n + 1, self.p.nodes[*n].1]));
        }
        let map: std::collections::BTreeMap<(i64, usize), usize> = vals.iter().map(|y| ((y.0, y.1), y.2)).collect();
        let vj: Vec<Value> = map.iter().map(|((v, k), w)| json!([v, k, w])).collect();
        nb.extend(
            vec![],
            map.iter().map(|((v, k), w)| ((x.v(*v), x.kh(*k)), if *w == 0 { None } else { Some(x.vals[*w].clone()) })),
        );
        let mut st = StaleNodeIndexBatch::new();
        let mut sj = vec![];
        for (v, i) in stale {
            if !only && st.insert(StaleNodeIndex { stale_since_version: x.v(*v), node_key: self.p.keys[*i].clone() }) {
                sj.push(json!([v, i + 1]));
            }
        }
        let r = if only {
            guard(|| self.m.write_node_batch(&nb))
        } else {
            guard(|| {
                self.m.write_tree_update_batch(TreeUpdateBatch {
                    node_batch: nb,
                    stale_node_index_batch: st,
                    node_stats: vec![],
                })
            })
        };
        x.push(json!({"e": "mwrite", "nodes": nj, "vals": vj, "stale": sj, "res": code(&r)}));
        code(&r)
    }
    fn leaf(&self, x: &mut Ctx, i: usize, n: usize, w: usize) -> i64 {
        let l = match &self.p.nodes[n].0 {
            Node::Leaf(l) => l.clone(),
            _ => return 0,
        };
        let val = x.vals[w].clone();
        let ver = x.rel(self.p.keys[i].version());
        let r = guard(|| self.m.put_leaf(self.p.keys[i].clone(), l, val));
        x.push(json!({"e": "mleaf", "nk": i + 1, "node": n + 1, "k": self.p.nodes[n].1, "ver": ver, "v": w, "res": code(&r)}));
        code(&r)
    }
    fn prune(&self, x: &mut Ctx, v: i64) -> i64 {
        let r = guard(|| self.m.purge_stale_nodes(x.v(v)));
        x.push(json!({"e": "mprune", "upto": v, "res": code(&r)}));
        code(&r)
    }
    fn preimage(&self, x: &mut Ctx, k: usize, w: usize) -> i64 {
        let val = x.vals[w].clone();
        let r = guard(|| Ok(self.m.put_key_preimage(x.kh(k), &val)));
        x.push(json!({"e": "mpre", "k": k, "w": w, "res": code(&r)}));
        code(&r)
    }
    /// Everything it holds.
    fn look(&self, x: &mut Ctx) {
        let (m, p) = (&self.m, &self.p);
        let mut nodes = vec![];
        for (i, k) in p.keys.iter().enumerate() {
            let a = guard(|| m.get_node_option(k));
            let b = guard(|| m.get_node(k)).ok();
            let no = |n: &Node| p.nodes.iter().position(|y| y.0 == *n).map_or(-9, |y| y as i64 + 1);
            match a {
                Ok(Some(n)) => nodes.push(json!([i + 1, if b.as_ref() == Some(&n) { no(&n) } else { -8 }])),
                Ok(None) => {
                    if b.is_some() {
                        nodes.push(json!([i + 1, -7]))
                    }
                }
                Err(c) => nodes.push(json!([i + 1, c])),
            }
        }
        let mut vals = vec![];
        for k in 1..=x.n() {
            for v in 0..=self.vmax {
                let r = guard(|| m.get_value_option(x.v(v), x.kh(k)));
                let q = guard(|| m.get_value(x.v(v), x.kh(k)));
                vals.push(json!([v, k, r.map_or(ERR, |y| x.opt_val_no(&y)), q.map_or_else(|c| c, |y| x.val_no(&y))]));
            }
        }
        let mut pre = vec![];
        for k in 1..=x.n() {
            let r = guard(|| m.preimage(x.kh(k)));
            pre.push(json!([k, r.map_or_else(|c| c, |y| x.opt_val_no(&y))]));
        }
        let right = match guard(|| m.get_rightmost_leaf()) {
            Ok(None) => json!([]),
            Ok(Some((nk, l))) => {
                let i = p.keys.iter().position(|y| *y == nk).map_or(-9, |y| y as i64 + 1);
                json!([i, x.key_no(&l.key_hash().0)])
            }
            Err(c) => json!([c, c]),
        };
        x.push(json!({"e": "mread", "nodes": nodes, "vals": vals, "right": right, "num": m.num_nodes(), "pre": pre}));
    }
}

pub fn c24(x: &mut Ctx) {
    let over = x.rng.pct(30);
    let mut p = Pool { keys: vec![], nodes: vec![] };
    let vmax = x.rng.range(2, 7) as i64;
    for _ in 0..x.rng.range(4, 10) {
        let v = x.rng.range(0, vmax as usize) as i64;
        let k = *x.rng.pick(&x.keys.clone());
        let d = x.rng.below(5);
        let nk = NodeKey::new(x.v(v), (0..d).map(|i| crate::keys::nibble(&k, i).into()).collect());
        if !p.keys.contains(&nk) {
            p.keys.push(nk);
        }
    }
    p.nodes.push((Node::Null, 0));
    for k in 1..=x.n() {
        for v in 1..=2 {
            p.nodes.push((leaf_of(x, k, v), k as i64));
        }
    }
    let r = Run::open(x, over, p, vmax);
    batches(x, &r.p, vmax);
    let steps = x.rng.range(6, 30);
    let kn = r.p.keys.len();
    for _ in 0..steps {
        let c = match x.rng.below(12) {
            0..=3 => {
                let mut nodes = vec![];
                let fresh = x.rng.pct(75);
                for _ in 0..x.rng.range(0, 3) {
                    let i = x.rng.below(kn);
                    if fresh && r.m.get_node_option(&r.p.keys[i]).ok().flatten().is_some() && !over {
                        continue;
                    }
                    nodes.push((i, x.rng.below(r.p.nodes.len())));
                }
                let mut vals = vec![];
                for _ in 0..x.rng.range(0, 3) {
                    let k = x.rng.range(1, x.n());
                    vals.push((x.rng.range(0, vmax as usize) as i64, k, x.rng.below(x.m() + 1)));
                }
                let mut stale = vec![];
                for _ in 0..x.rng.below(3) {
                    stale.push((x.rng.range(0, vmax as usize) as i64, x.rng.below(kn)));
                }
                let only = x.rng.pct(20);
                r.write(x, &nodes, &vals, &stale, only)
            }
            4 => {
                let i = x.rng.below(kn);
                let n = x.rng.range(1, r.p.nodes.len() - 1);
                let w = x.rng.range(1, x.m());
                r.leaf(x, i, n, w)
            }
            5 => {
                let v = x.rng.range(0, vmax as usize) as i64;
                r.prune(x, v)
            }
            6 => {
                let k = x.rng.range(1, x.n());
                let w = x.rng.range(1, x.m());
                r.preimage(x, k, w)
            }
            _ => 0,
        };
        r.look(x);
        // whatever was refused half-way: not specified further
        if c == PANIC || c == ERR {
            return;
        }
    }
}

/// A sequence of operations written out by TLC from spec/MC_Store.tla.
pub fn replay(x: &mut Ctx, job: &Value) {
    let int = |v: &Value| v.as_i64().unwrap();
    let mut p = Pool { keys: vec![], nodes: vec![(Node::Null, 0), (leaf_of(x, 1, 1), 1), (leaf_of(x, 2, 1), 2)] };
    let k = *x.rng.pick(&x.keys.clone());
    let d = x.rng.below(3);
    for j in 0..3i64 {
        // node keys of versions 0, 1, 0
        let len = if j < 2 { d } else { d + 1 + x.rng.below(4) };
        p.keys.push(NodeKey::new(x.v(j % 2), (0..len).map(|i| crate::keys::nibble(&k, i).into()).collect()));
    }
    let r = Run::open(x, job["over"] == json!(true), p, 2);
    r.look(x);
    for o in job["ops"].as_array().unwrap() {
        let c = match o[0].as_str().unwrap() {
            "w" => {
                let arr = |j: usize| o[j].as_array().unwrap().clone();
                let nodes: Ns = arr(1).iter().map(|y| (int(&y[0]) as usize - 1, int(&y[1]) as usize - 1)).collect();
                let vals: Vs = arr(2).iter().map(|y| (int(&y[0]), int(&y[1]) as usize, int(&y[2]) as usize)).collect();
                let stale: Vec<(i64, usize)> = arr(3).iter().map(|y| (int(&y[0]), int(&y[1]) as usize - 1)).collect();
                let only = stale.is_empty() && x.rng.pct(30);
                r.write(x, &nodes, &vals, &stale, only)
            }
            "l" => r.leaf(x, int(&o[1]) as usize - 1, int(&o[2]) as usize, int(&o[3]) as usize),
            "p" => r.prune(x, int(&o[1])),
            _ => r.preimage(x, int(&o[1]) as usize, int(&o[2]) as usize),
        };
        r.look(x);
        if c == PANIC || c == ERR {
            return;
        }
    }
}

/// A batch of nodes and values, put together in any way.
fn batches(x: &mut Ctx, p: &Pool, vmax: i64) {
    let mut bs = [NodeBatch::default(), NodeBatch::default()];
    if p.keys.is_empty() || x.rng.pct(50) {
        return;
    }
    x.push(json!({"e": "bnew"}));
    for _ in 0..x.rng.range(3, 14) {
        let b = x.rng.below(2);
        let some_nodes = |x: &mut Ctx| -> Vec<(usize, usize)> {
            (0..x.rng.below(4)).map(|_| (x.rng.below(p.keys.len()), x.rng.below(p.nodes.len()))).collect()
        };
        let some_vals = |x: &mut Ctx| -> Vec<(i64, usize, usize)> {
            (0..x.rng.below(4))
                .map(|_| (x.rng.range(0, vmax as usize) as i64, x.rng.range(1, x.n()), x.rng.below(x.m() + 1)))
                .collect()
        };
        let no = |n: &Node| p.nodes.iter().position(|y| y.0 == *n).map_or(-9, |y| y as i64 + 1);
        let ino = |k: &NodeKey| p.keys.iter().position(|y| y == k).map_or(-9, |y| y as i64 + 1);
        let nj = |ns: &[(usize, usize)]| json!(ns.iter().map(|y| json!([y.0 + 1, y.1 + 1])).collect::<Vec<_>>());
        let vj = |vs: &[(i64, usize, usize)]| json!(vs.iter().map(|y| json!([y.0, y.1, y.2])).collect::<Vec<_>>());
        let opt = |x: &Ctx, w: usize| if w == 0 { None } else { Some(x.vals[w].clone()) };
        let mut e = match x.rng.below(7) {
            0 | 1 => {
                let i = x.rng.below(p.keys.len());
                let n = x.rng.below(p.nodes.len());
                let old = bs[b].insert_node(p.keys[i].clone(), p.nodes[n].0.clone());
                json!({"op": "node", "nodes": [[i + 1, n + 1]], "vals": [], "old": old.map_or(0, |o| no(&o))})
            }
            2 => {
                let (v, k, w) = (x.rng.range(0, vmax as usize) as i64, x.rng.range(1, x.n()), x.rng.range(1, x.m()));
                bs[b].insert_value(x.v(v), x.kh(k), x.vals[w].clone());
                json!({"op": "value", "nodes": [], "vals": [[v, k, w]]})
            }
            3 => {
                let (ns, vs) = (some_nodes(x), some_vals(x));
                bs[b].extend(
                    ns.iter().map(|y| (p.keys[y.0].clone(), p.nodes[y.1].0.clone())),
                    vs.iter().map(|y| ((x.v(y.0), x.kh(y.1)), opt(x, y.2))),
                );
                json!({"op": "extend", "nodes": nj(&ns), "vals": vj(&vs)})
            }
            4 => {
                let o = bs[1 - b].clone();
                bs[b].merge(o);
                json!({"op": "merge", "nodes": [], "vals": []})
            }
            5 => {
                if x.rng.pct(60) {
                    continue;
                }
                bs[b].clear();
                json!({"op": "clear", "nodes": [], "vals": []})
            }
            _ => {
                let (ns, vs) = (some_nodes(x), some_vals(x));
                bs[b] = NodeBatch::new(
                    ns.iter().map(|y| (p.keys[y.0].clone(), p.nodes[y.1].0.clone())).collect(),
                    vs.iter().map(|y| ((x.v(y.0), x.kh(y.1)), opt(x, y.2))).collect(),
                );
                json!({"op": "new", "nodes": nj(&ns), "vals": vj(&vs)})
            }
        };
        let c = &bs[b];
        e["e"] = json!("bop");
        e["b"] = json!(b + 1);
        e["has"] = json!(c.nodes().iter().map(|(k, n)| json!([ino(k), no(n)])).collect::<Vec<_>>());
        e["got"] = json!(p
            .keys
            .iter()
            .enumerate()
            .map(|(i, k)| json!([i + 1, c.get_node(k).map_or(0, |n| no(n))]))
            .collect::<Vec<_>>());
        e["held"] = json!(c
            .values()
            .iter()
            .map(|((v, k), y)| json!([x.rel(*v), x.key_no(&k.0), x.opt_val_no(y)]))
            .collect::<Vec<_>>());
        e["empty"] = json!(c.is_empty());
        x.push(e);
    }
}
