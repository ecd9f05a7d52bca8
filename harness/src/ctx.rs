//! Runs operations against the code under test and records, as events of a trace, their arguments
//! and everything observable about their outcome.  Nothing is judged here: the specification does.
use crate::keys::{bit, nibble};
use crate::rec::{self, Rec};
use crate::rng::Rng;
use crate::store::{hash_of, Store};
use anyhow::Result;
use borsh::BorshDeserialize;
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::*;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, MissingRootError, RootHash};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const ERR: i64 = -1;
pub const PANIC: i64 = -2;
pub const NOROOT: i64 = -3;
pub const NONE: i64 = -4;

pub type Tree<'a> = JellyfishMerkleTree<'a, Store, Rec>;
pub type Ops = Vec<(usize, usize)>; // key number, value number (0: delete)
pub type Content = Vec<usize>; // by key number; [0] unused

pub fn guard<R>(f: impl FnOnce() -> Result<R>) -> Result<R, i64> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => {
            if e.downcast_ref::<MissingRootError>().is_some() {
                Err(NOROOT)
            } else {
                Err(ERR)
            }
        }
        Err(_) => Err(PANIC),
    }
}
pub fn code<R>(r: &Result<R, i64>) -> i64 {
    match r {
        Ok(_) => 0,
        Err(c) => *c,
    }
}

// ------------------------------------------------------------------ decoded proofs

#[derive(Clone, Debug, PartialEq)]
pub enum Sib {
    Null,
    Int([u8; 32], [u8; 32]),
    Leaf([u8; 32], [u8; 32]),
}
impl Sib {
    pub fn hash(&self) -> [u8; 32] {
        match self {
            Sib::Null => rec::PLACEHOLDER,
            Sib::Int(l, r) => rec::node_hash(l, r),
            Sib::Leaf(k, v) => rec::leaf_hash(k, v),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Sib::Null => o.push(0),
            Sib::Int(l, r) => {
                o.push(1);
                o.extend(l);
                o.extend(r)
            }
            Sib::Leaf(k, v) => {
                o.push(2);
                o.extend(k);
                o.extend(v)
            }
        }
    }
    pub fn tag(&self) -> i64 {
        match self {
            Sib::Null => 0,
            Sib::Int(..) => 2,
            Sib::Leaf(..) => 1,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Prf {
    pub leaf: Option<([u8; 32], [u8; 32])>,
    pub sibs: Vec<Sib>, // bottom up
}
fn take<const N: usize>(b: &mut &[u8]) -> [u8; N] {
    let (x, y) = b.split_at(N);
    *b = y;
    x.try_into().unwrap()
}
fn dec_sibs(b: &mut &[u8]) -> Vec<Sib> {
    let n = u32::from_le_bytes(take::<4>(b));
    (0..n)
        .map(|_| match take::<1>(b)[0] {
            0 => Sib::Null,
            1 => Sib::Int(take(b), take(b)),
            2 => Sib::Leaf(take(b), take(b)),
            x => panic!("unknown sibling tag {x}"),
        })
        .collect()
}
fn enc_sibs(s: &[Sib], o: &mut Vec<u8>) {
    o.extend((s.len() as u32).to_le_bytes());
    for x in s {
        x.enc(o)
    }
}
fn dec_prf(b: &mut &[u8]) -> Prf {
    let leaf = match take::<1>(b)[0] {
        0 => None,
        _ => Some((take(b), take(b))),
    };
    Prf {
        leaf,
        sibs: dec_sibs(b),
    }
}
impl Prf {
    pub fn of(p: &SparseMerkleProof<Rec>) -> Prf {
        let b = borsh::to_vec(p).unwrap();
        dec_prf(&mut b.as_slice())
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match &self.leaf {
            None => o.push(0),
            Some((k, v)) => {
                o.push(1);
                o.extend(k);
                o.extend(v)
            }
        }
        enc_sibs(&self.sibs, &mut o);
        o
    }
    pub fn proof(&self) -> SparseMerkleProof<Rec> {
        SparseMerkleProof::<Rec>::try_from_slice(&self.bytes()).expect("decodable")
    }
}
pub fn dec_update(p: &UpdateMerkleProof<Rec>) -> Vec<Prf> {
    let b = borsh::to_vec(p).unwrap();
    let mut b = b.as_slice();
    let n = u32::from_le_bytes(take::<4>(&mut b));
    (0..n).map(|_| dec_prf(&mut b)).collect()
}
pub fn enc_update(ps: &[Prf]) -> UpdateMerkleProof<Rec> {
    let mut o = (ps.len() as u32).to_le_bytes().to_vec();
    for p in ps {
        o.extend(p.bytes())
    }
    UpdateMerkleProof::<Rec>::try_from_slice(&o).expect("decodable")
}
pub fn dec_range(p: &SparseMerkleRangeProof<Rec>) -> Vec<Sib> {
    let b = borsh::to_vec(p).unwrap();
    dec_sibs(&mut b.as_slice())
}
pub fn enc_range(s: &[Sib]) -> SparseMerkleRangeProof<Rec> {
    let mut o = vec![];
    enc_sibs(s, &mut o);
    SparseMerkleRangeProof::<Rec>::try_from_slice(&o).expect("decodable")
}
pub fn leaf_node(k: &[u8; 32], vh: &[u8; 32]) -> SparseMerkleLeafNode {
    SparseMerkleLeafNode::try_from_slice(&[k.as_slice(), vh].concat()).expect("decodable")
}

// ------------------------------------------------------------------ the trace

/// What the generator knows about a store, only to choose sensible next operations.
pub struct Sc {
    pub st: Arc<Store>,
    pub hist: BTreeMap<i64, Content>,
    pub roots: BTreeMap<i64, RootHash>,
    pub lat: Option<i64>,
    pub low: i64,
    pub alive: bool,
    pub appended: bool,
}

#[derive(Clone)]
pub struct Pend {
    pub s: usize,
    pub first: i64,
    pub contents: Vec<Content>,
    pub roots: Vec<RootHash>,
    pub batch: TreeUpdateBatch,
    pub append: bool,
    pub upd: Vec<Vec<Prf>>,
    pub sets: Vec<Ops>,
    pub old_root: Option<RootHash>,
    pub pid: usize,
}

pub struct Ctx {
    pub rng: Rng,
    pub keys: Vec<[u8; 32]>, // 0-based
    pub pre: Option<Vec<Vec<u8>>>,
    pub vals: Vec<Vec<u8>>, // [0] is no value
    pub base: u64,
    pub sc: Vec<Sc>,
    pub ev: Vec<Value>,
    pub npid: usize,
    vh: HashMap<[u8; 32], i64>,
    vid: HashMap<Vec<u8>, i64>,
    ids: HashMap<[u8; 32], i64>,
    pub terms: Vec<Value>,
    pub its: HashMap<usize, JellyfishMerkleIterator<Store>>,
    pub label: String,
}

impl Ctx {
    pub fn new(rng: Rng, keys: Vec<[u8; 32]>, vals: Vec<Vec<u8>>, base: u64) -> Self {
        rec::reset();
        let vh = vals.iter().enumerate().skip(1).map(|(i, v)| (rec::sha(v), i as i64)).collect();
        let vid = vals.iter().enumerate().skip(1).map(|(i, v)| (v.clone(), i as i64)).collect();
        Ctx {
            rng,
            keys,
            pre: None,
            vals,
            base,
            sc: vec![],
            ev: vec![],
            npid: 0,
            vh,
            vid,
            ids: HashMap::new(),
            terms: vec![],
            its: HashMap::new(),
            label: String::new(),
        }
    }
    pub fn n(&self) -> usize {
        self.keys.len()
    }
    pub fn m(&self) -> usize {
        self.vals.len() - 1
    }
    pub fn v(&self, rel: i64) -> u64 {
        self.base.wrapping_add(rel as u64)
    }
    pub fn rel(&self, v: u64) -> i64 {
        v.wrapping_sub(self.base) as i64
    }
    pub fn kh(&self, k: usize) -> KeyHash {
        KeyHash(self.keys[k - 1])
    }
    pub fn key_no(&self, k: &[u8; 32]) -> i64 {
        self.keys.binary_search(k).map_or(-1, |i| i as i64 + 1)
    }
    pub fn val_no(&self, v: &[u8]) -> i64 {
        self.vid.get(v).copied().unwrap_or(-1)
    }
    pub fn vhash_no(&self, h: &[u8; 32]) -> i64 {
        self.vh.get(h).copied().unwrap_or(-1)
    }
    pub fn vhash(&self, v: usize) -> [u8; 32] {
        rec::sha(&self.vals[v])
    }
    pub fn opt_val_no(&self, v: &Option<Vec<u8>>) -> i64 {
        v.as_ref().map_or(0, |x| self.val_no(x))
    }

    /// The number of the term a digest is the hash of: 0 the placeholder, -1 not known.
    pub fn term(&mut self, d: &[u8; 32]) -> i64 {
        if *d == rec::PLACEHOLDER {
            return 0;
        }
        if let Some(&i) = self.ids.get(d) {
            return i;
        }
        let p = match rec::preimage(d) {
            Some(p) => p,
            None => return -1,
        };
        let t = if p.len() == 13 + 64 && p.starts_with(rec::LEAF_SEP) {
            let k = self.key_no(&p[13..45].try_into().unwrap());
            let v = self.vhash_no(&p[45..77].try_into().unwrap());
            json!([0, k, v])
        } else if p.len() == 16 + 64 && p.starts_with(rec::INT_SEP) {
            let l = self.term(&p[16..48].try_into().unwrap());
            let r = self.term(&p[48..80].try_into().unwrap());
            json!([1, l, r])
        } else {
            return -1;
        };
        self.terms.push(t);
        let i = self.terms.len() as i64;
        self.ids.insert(*d, i);
        i
    }
    /// A nibble path as (smallest key below it, length); (0, length) if there is none.
    pub fn path(&self, p: &NibblePath) -> (i64, i64) {
        let ns: Vec<u8> = p.nibbles().map(u8::from).collect();
        let lo = self
            .keys
            .iter()
            .position(|k| ns.iter().enumerate().all(|(i, x)| nibble(k, i) == *x))
            .map_or(0, |i| i as i64 + 1);
        (lo, ns.len() as i64)
    }
    pub fn nk(&self, k: &NodeKey) -> Value {
        let (lo, d) = self.path(k.nibble_path());
        json!([self.rel(k.version()), lo, d])
    }
    /// [version, lo, depth, kind, leaves, hash, key, value, children]
    pub fn node(&mut self, k: &NodeKey, n: &Node) -> Value {
        let (lo, d) = self.path(k.nibble_path());
        let v = self.rel(k.version());
        let h = hash_of(n);
        let h = self.term(&h);
        match n {
            Node::Null => json!([v, lo, d, 0, 0, h, 0, 0, []]),
            Node::Leaf(l) => {
                let kn = self.key_no(&l.key_hash().0);
                let b = borsh::to_vec(l).unwrap();
                let vh: [u8; 32] = b[32..64].try_into().unwrap();
                json!([v, lo, d, 1, 1, h, kn, self.vhash_no(&vh), []])
            }
            Node::Internal(i) => {
                let mut ch = vec![];
                let cs: Vec<_> = i.children_sorted().map(|(n, c)| (u8::from(n), c.clone())).collect();
                for (n, c) in cs {
                    let ch_h = self.term(&c.hash);
                    ch.push(json!([n, ch_h, self.rel(c.version), c.is_leaf() as i64, c.leaf_count()]));
                }
                json!([v, lo, d, 2, i.leaf_count(), h, 0, 0, ch])
            }
        }
    }
    pub fn sibs(&mut self, s: &[Sib]) -> Value {
        let mut o = vec![];
        for x in s {
            let h = x.hash();
            let h = self.term(&h);
            o.push(json!([x.tag(), h]));
        }
        Value::Array(o)
    }
    /// [[leaf key, leaf value] or [], siblings]
    pub fn prf(&mut self, p: &Prf) -> (Value, Value) {
        let l = match &p.leaf {
            None => json!([]),
            Some((k, v)) => json!([self.key_no(k), self.vhash_no(v)]),
        };
        (l, self.sibs(&p.sibs))
    }
    pub fn push(&mut self, v: Value) {
        self.ev.push(v)
    }
    pub fn done(self, id: usize, seed: u64) -> Value {
        let nib: Vec<Vec<u8>> =
            self.keys.iter().map(|k| (0..64).map(|i| nibble(k, i)).collect()).collect();
        json!({"id": id, "seed": seed, "label": self.label, "nib": nib, "m": self.vals.len() - 1,
               "base": self.base.to_string(), "terms": self.terms, "ev": self.ev})
    }

    // -------------------------------------------------------------- stores

    pub fn new_store(&mut self, enc: bool) -> usize {
        let st = if !enc && self.rng.pct(30) { Store::bundled() } else { Store::new(enc) };
        if let Some(p) = &self.pre {
            for (k, p) in self.keys.iter().zip(p) {
                st.put_preimage(*k, p.clone());
            }
        }
        self.sc.push(Sc {
            st: Arc::new(st),
            hist: BTreeMap::new(),
            roots: BTreeMap::new(),
            lat: None,
            low: 0,
            alive: true,
            appended: false,
        });
        self.push(json!({"e": "open", "s": self.sc.len(), "enc": enc}));
        self.sc.len()
    }
    pub fn fork(&mut self, s: usize) -> usize {
        let o = &self.sc[s - 1];
        let n = Sc {
            st: Arc::new(o.st.fork()),
            hist: o.hist.clone(),
            roots: o.roots.clone(),
            lat: o.lat,
            low: o.low,
            alive: o.alive,
            appended: o.appended,
        };
        self.sc.push(n);
        self.push(json!({"e": "fork", "s": s, "t": self.sc.len()}));
        self.sc.len()
    }
    pub fn reopen(&mut self, s: usize) {
        let r = guard(|| self.sc[s - 1].st.reopen());
        let c = code(&r);
        if let Ok(st) = r {
            self.sc[s - 1].st = Arc::new(st);
        }
        self.push(json!({"e": "reopen", "s": s, "res": c}));
    }
    pub fn st(&self, s: usize) -> Arc<Store> {
        self.sc[s - 1].st.clone()
    }
    pub fn empty(&self) -> Content {
        vec![0; self.n() + 1]
    }
    pub fn content(&self, s: usize) -> Content {
        let c = &self.sc[s - 1];
        c.lat.map_or(self.empty(), |l| c.hist[&l].clone())
    }
    pub fn content_at(&self, s: usize, v: i64) -> Content {
        self.sc[s - 1].hist.get(&v).cloned().unwrap_or(self.empty())
    }
    pub fn apply(c: &Content, ops: &Ops) -> Content {
        let mut c = c.clone();
        for (k, v) in ops {
            c[*k] = *v;
        }
        c
    }
    pub fn kvs(&self, ops: &Ops) -> Vec<(KeyHash, Option<Vec<u8>>)> {
        ops.iter()
            .map(|(k, v)| (self.kh(*k), if *v == 0 { None } else { Some(self.vals[*v].clone()) }))
            .collect()
    }
    pub fn sets_json(sets: &[Ops]) -> Value {
        json!(sets
            .iter()
            .map(|s| s.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
            .collect::<Vec<_>>())
    }

    // -------------------------------------------------------------- writing

    /// Runs a write interface, storing nothing.
    pub fn raw_compute(
        &self,
        st: &Store,
        api: &str,
        sets: &[Ops],
        first: i64,
    ) -> Result<(Vec<RootHash>, Vec<Vec<Prf>>, TreeUpdateBatch), i64> {
        let kvs: Vec<_> = sets.iter().map(|s| self.kvs(s)).collect();
        let f = self.v(first);
        guard(|| {
            let t = Tree::new(st);
            match api {
                "set" => {
                    let (r, b) = t.put_value_set(kvs[0].clone(), f)?;
                    Ok((vec![r], vec![], b))
                }
                "sets" => {
                    let (r, b) = t.put_value_sets(kvs.clone(), f)?;
                    Ok((r, vec![], b))
                }
                "setp" => {
                    let (r, p, b) = t.put_value_set_with_proof(kvs[0].clone(), f)?;
                    Ok((vec![r], vec![dec_update(&p)], b))
                }
                "setsp" => {
                    let (rp, b) = t.put_value_sets_with_proof(kvs.clone(), f)?;
                    let (mut r, mut p) = (vec![], vec![]);
                    for (x, y) in rp {
                        r.push(x);
                        p.push(dec_update(&y));
                    }
                    Ok((r, p, b))
                }
                "batch" | "batchh" => {
                    let mk = || -> Vec<Vec<(KeyHash, Vec<u8>)>> {
                        kvs.iter()
                            .map(|s| s.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect())
                            .collect()
                    };
                    let (mut r, mut b) = t.batch_put_value_sets(mk(), None, f)?;
                    if api == "batchh" {
                        // the hashes of the new nodes, version by version
                        let mut hs: Vec<HashMap<NibblePath, [u8; 32]>> = vec![];
                        for i in 0..sets.len() {
                            let v = f + i as u64;
                            hs.push(
                                b.node_batch
                                    .nodes()
                                    .iter()
                                    .filter(|(k, _)| k.version() == v)
                                    .map(|(k, n)| (k.nibble_path().clone(), hash_of(n)))
                                    .collect(),
                            );
                        }
                        let (r2, b2) = t.batch_put_value_sets(mk(), Some(hs.iter().collect()), f)?;
                        r = r2;
                        b = b2;
                    }
                    Ok((r, vec![], b))
                }
                "append" => {
                    let (r, b) = t.append_value_set(kvs[0].clone(), f)?;
                    Ok((vec![r], vec![], b))
                }
                _ => panic!("api {api}"),
            }
        })
    }
    /// The outcome of a write interface, written out.
    pub fn outcome(&mut self, roots: &[RootHash], b: &TreeUpdateBatch) -> (Value, Value, Value, Value, Value) {
        let mut rs = vec![];
        for r in roots {
            rs.push(self.term(&r.0));
        }
        let mut nodes = vec![];
        for (k, n) in b.node_batch.nodes() {
            nodes.push(self.node(k, n));
        }
        let stale: Vec<Value> = b
            .stale_node_index_batch
            .iter()
            .map(|s| json!([self.rel(s.stale_since_version), self.nk(&s.node_key)]))
            .collect();
        let vals: Vec<Value> = b
            .node_batch
            .values()
            .iter()
            .map(|((v, k), x)| json!([self.rel(*v), self.key_no(&k.0), self.opt_val_no(x)]))
            .collect();
        let stats: Vec<Value> = b
            .node_stats
            .iter()
            .map(|s| json!([s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves]))
            .collect();
        (json!(rs), json!(nodes), json!(stale), json!(vals), json!(stats))
    }
    /// The event of a computation, and the update it proposes.
    pub fn compute_ev(&mut self, st: &Store, s: usize, api: &str, sets: &[Ops], first: i64) -> (Value, Option<Pend>) {
        let r = self.raw_compute(st, api, sets, first);
        let sj = Self::sets_json(sets);
        match r {
            Err(c) => (json!({"e": "compute", "s": s, "api": api, "ver": first, "sets": sj, "res": c}), None),
            Ok((roots, upd, batch)) => {
                let (rs, nodes, stale, vals, stats) = self.outcome(&roots, &batch);
                let mut c = if api == "append" { self.content(s) } else { self.content_at(s, first - 1) };
                let mut contents = vec![];
                for ops in sets {
                    c = Self::apply(&c, ops);
                    contents.push(c.clone());
                }
                let old_root = self.sc[s - 1].roots.get(&(first - 1)).copied();
                // verify the update proofs
                let mut uj = vec![];
                if !upd.is_empty() {
                    let mut old = old_root.unwrap_or(RootHash(rec::PLACEHOLDER));
                    for (i, ps) in upd.iter().enumerate() {
                        let kv = self.kvs(sets.get(i).unwrap_or(&vec![]));
                        let new = roots.get(i).copied().unwrap_or(RootHash([0; 32]));
                        let ok = guard(|| enc_update(ps).verify_update(old, new, kv));
                        uj.push(json!([ps.len(), code(&ok)]));
                        old = new;
                    }
                }
                let j = json!({"e": "compute", "s": s, "api": api, "ver": first, "sets": sj, "res": 0,
                    "roots": rs, "nodes": nodes, "stale": stale, "vals": vals, "stats": stats, "upd": uj});
                let p = if roots.len() == sets.len() {
                    Some(Pend { s, first, contents, roots, batch, append: api == "append", upd, sets: sets.to_vec(), old_root, pid: 0 })
                } else {
                    None
                };
                (j, p)
            }
        }
    }
    pub fn compute(&mut self, s: usize, api: &str, sets: &[Ops], first: i64) -> Option<Pend> {
        let st = self.st(s);
        let (mut j, mut p) = self.compute_ev(&st, s, api, sets, first);
        self.npid += 1;
        j["pid"] = json!(self.npid);
        if let Some(p) = p.as_mut() {
            p.pid = self.npid;
        }
        self.push(j);
        p
    }
    pub fn store(&mut self, p: &Pend) {
        self.store_to(p, p.s)
    }
    pub fn store_to(&mut self, p: &Pend, s: usize) {
        let st = self.st(s);
        let r = guard(|| st.put_batch(&p.batch));
        let (res, over) = match r {
            Ok(o) => (0, o),
            Err(c) => (c, 0),
        };
        let c = &mut self.sc[s - 1];
        for (i, x) in p.contents.iter().enumerate() {
            c.hist.insert(p.first + i as i64, x.clone());
            c.roots.insert(p.first + i as i64, p.roots[i]);
            c.lat = Some(p.first + i as i64);
        }
        c.appended |= p.append;
        self.push(json!({"e": "store", "s": s, "pid": p.pid, "res": res, "over": over}));
    }
    pub fn put(&mut self, s: usize, api: &str, sets: &[Ops]) -> bool {
        let first = match (api, self.sc[s - 1].lat) {
            ("append", Some(l)) => l,
            ("append", None) => 0,
            (_, Some(l)) => l + 1,
            (_, None) => 0,
        };
        match self.compute(s, api, sets, first) {
            Some(p) => {
                self.store(&p);
                true
            }
            None => {
                self.sc[s - 1].alive = false;
                false
            }
        }
    }
    pub fn prune(&mut self, s: usize, upto: i64) {
        let st = self.st(s);
        let v = self.v(upto);
        let r = guard(|| st.prune(v));
        let left = self.stored(s);
        let c = &mut self.sc[s - 1];
        if upto > c.low {
            c.low = upto;
        }
        let j = json!({"e": "prune", "s": s, "upto": upto, "res": code(&r),
            "miss": r.unwrap_or(0), "left": left});
        self.push(j);
    }
    pub fn stored(&self, s: usize) -> Vec<Value> {
        let st = self.st(s);
        let all = st.all_nodes().unwrap_or_default();
        all.iter().map(|(k, _)| self.nk(k)).collect()
    }
    /// Everything stored, written out.
    pub fn dump(&mut self, s: usize) {
        let st = self.st(s);
        let all = st.all_nodes().unwrap_or_default();
        let mut nodes = vec![];
        for (k, n) in &all {
            nodes.push(self.node(k, n));
        }
        let vals: Vec<Value> = st
            .all_values()
            .iter()
            .map(|(k, v, x)| json!([self.rel(*v), self.key_no(k), self.opt_val_no(x)]))
            .collect();
        self.push(json!({"e": "dump", "s": s, "nodes": nodes, "vals": vals}));
    }

    // -------------------------------------------------------------- reading

    pub fn root_of(&self, s: usize, ver: i64) -> RootHash {
        self.sc[s - 1].roots.get(&ver).copied().unwrap_or(RootHash([0x5a; 32]))
    }
    /// Which claims about key k a proof is accepted for: value numbers, 0 absence, -1 a value that
    /// is not used anywhere; and how many verifications panicked.
    pub fn claims(&self, p: &SparseMerkleProof<Rec>, root: RootHash, k: usize) -> (Vec<i64>, usize) {
        let key = self.kh(k);
        let mut acc = vec![];
        let mut bad = 0;
        for v in 0..=self.m() {
            let r = if v == 0 {
                guard(|| p.verify_nonexistence(root, key))
            } else {
                guard(|| p.verify_existence(root, key, &self.vals[v]))
            };
            match r {
                Ok(()) => acc.push(v as i64),
                Err(PANIC) => bad += 1,
                Err(_) => {}
            }
        }
        if guard(|| p.verify(root, key, Some(b"no such value"))).is_ok() {
            acc.push(-1);
        }
        (acc, bad)
    }
    pub fn read_row(&mut self, st: &Store, s: usize, ver: i64, k: usize) -> Value {
        let t = Tree::new(st);
        let v = self.v(ver);
        let key = self.kh(k);
        let g = match guard(|| t.get(key, v)) {
            Ok(x) => self.opt_val_no(&x),
            Err(c) => c,
        };
        let (p, l, sb, acc, own) = match guard(|| t.get_with_proof(key, v)) {
            Err(c) => (c, json!([]), json!([]), json!([]), json!([])),
            Ok((x, pr)) => {
                let root = self.root_of(s, ver);
                let (acc, bad) = self.claims(&pr, root, k);
                let acc = if bad > 0 { json!([PANIC]) } else { json!(acc) };
                let (l, sb) = self.prf(&Prf::of(&pr));
                // what the proof says about itself: the root hash it leads to, its leaf
                let own = match pr.leaf() {
                    None => json!([]),
                    Some(lf) => {
                        let b = borsh::to_vec(&lf).unwrap_or_default();
                        let h = match guard(|| Ok(pr.root_hash())) {
                            Ok(h) => self.term(&h.0),
                            Err(c) => c,
                        };
                        if b.len() == 64 {
                            json!([h, self.key_no(&b[..32].try_into().unwrap()), self.vhash_no(&b[32..].try_into().unwrap())])
                        } else {
                            json!([h, -1, -1])
                        }
                    }
                };
                (self.opt_val_no(&x), l, sb, acc, own)
            }
        };
        json!([k, g, p, l, sb, acc, own])
    }
    pub fn reads(&mut self, s: usize, ver: i64, ks: &[usize]) {
        let st = self.st(s);
        let mut rows = vec![];
        for &k in ks {
            rows.push(self.read_row(&st, s, ver, k));
        }
        self.push(json!({"e": "reads", "s": s, "ver": ver, "rows": rows}));
    }
    pub fn root_row(&mut self, st: &Store, ver: i64) -> Value {
        let t = Tree::new(st);
        let v = self.v(ver);
        // an unknown digest must not look like an error
        let known = |i: i64| if i == -1 { -9 } else { i };
        let a = match guard(|| t.get_root_hash(v)) {
            Ok(h) => known(self.term(&h.0)),
            Err(NOROOT) => ERR,
            Err(c) => c,
        };
        let b = match guard(|| t.get_root_hash_option(v)) {
            Ok(Some(h)) => known(self.term(&h.0)),
            Ok(None) => NONE,
            Err(NOROOT) => ERR,
            Err(c) => c,
        };
        let c = match guard(|| t.get_leaf_count(v)) {
            Ok(n) => n as i64,
            Err(NOROOT) => ERR,
            Err(c) => c,
        };
        json!([ver, a, b, c])
    }
    pub fn roots(&mut self, s: usize, vers: &[i64]) {
        let st = self.st(s);
        let mut rows = vec![];
        for &v in vers {
            rows.push(self.root_row(&st, v));
        }
        self.push(json!({"e": "roots", "s": s, "rows": rows}));
    }
    pub fn it_new(&mut self, st: Arc<Store>, ver: i64, mode: &str, from: usize) -> Result<JellyfishMerkleIterator<Store>, i64> {
        let v = self.v(ver);
        guard(|| {
            if mode == "key" {
                JellyfishMerkleIterator::new(st, v, self.kh(from))
            } else {
                JellyfishMerkleIterator::new_by_index(st, v, from)
            }
        })
    }
    /// One step: [k, v], or [0] at the end, or [error].
    pub fn it_step(&self, it: &mut JellyfishMerkleIterator<Store>) -> (Value, i64) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next()));
        match r {
            Err(_) => (json!([PANIC]), PANIC),
            Ok(None) => (json!([0]), 0),
            Ok(Some(Err(_))) => (json!([ERR]), ERR),
            Ok(Some(Ok((k, v)))) => (json!([self.key_no(&k.0), self.val_no(&v)]), 1),
        }
    }
    /// Runs an iterator until it has ended (or failed) three times in a row.
    pub fn it_run(&mut self, it: &mut JellyfishMerkleIterator<Store>) -> Vec<Value> {
        let mut out = vec![];
        let mut ends = 0;
        for _ in 0..2 * self.n() + 10 {
            let (v, c) = self.it_step(it);
            out.push(v);
            if c == PANIC {
                break;
            }
            if c <= 0 {
                ends += 1;
                if ends == 3 {
                    break;
                }
            } else {
                ends = 0;
            }
        }
        out
    }
    pub fn iter(&mut self, s: usize, ver: i64, mode: &str, from: usize) {
        let st = self.st(s);
        let v = self.iter_ev(st, s, ver, mode, from);
        self.push(v);
    }
    pub fn iter_ev(&mut self, st: Arc<Store>, s: usize, ver: i64, mode: &str, from: usize) -> Value {
        match self.it_new(st, ver, mode, from) {
            Err(c) => json!({"e": "iter", "s": s, "ver": ver, "mode": mode, "from": from, "res": c, "out": []}),
            Ok(mut it) => {
                let out = self.it_run(&mut it);
                json!({"e": "iter", "s": s, "ver": ver, "mode": mode, "from": from, "res": 0, "out": out})
            }
        }
    }
    pub fn inew(&mut self, id: usize, s: usize, ver: i64, mode: &str, from: usize) {
        let st = self.st(s);
        let r = self.it_new(st, ver, mode, from);
        self.push(json!({"e": "inew", "id": id, "s": s, "ver": ver, "mode": mode, "from": from, "res": code(&r)}));
        if let Ok(it) = r {
            self.its.insert(id, it);
        }
    }
    pub fn inext(&mut self, id: usize) -> bool {
        if let Some(mut it) = self.its.remove(&id) {
            let (v, c) = self.it_step(&mut it);
            self.its.insert(id, it);
            self.push(json!({"e": "inext", "id": id, "out": v}));
            c > 0
        } else {
            false
        }
    }
    pub fn mem(&mut self, p: &SparseMerkleProof<Rec>, root: RootHash) -> Value {
        // the membership proof of a neighbour: [leaf, siblings, accepted]
        let q = Prf::of(p);
        let acc = match &q.leaf {
            Some((k, _)) => {
                let kn = self.key_no(k);
                if kn > 0 {
                    self.claims(p, root, kn as usize).0
                } else {
                    vec![]
                }
            }
            None => vec![],
        };
        let (l, sb) = self.prf(&q);
        json!([l, sb, acc])
    }
    pub fn excl_ev(&mut self, st: &Store, s: usize, ver: i64, k: usize) -> Value {
        let t = Tree::new(st);
        let v = self.v(ver);
        let key = self.kh(k);
        let root = self.root_of(s, ver);
        let no = json!([[], [], []]);
        let (res, kind, val, l, r) = match guard(|| t.get_with_exclusion_proof(key, v)) {
            Err(c) => (c, "", 0, no.clone(), no),
            Ok(Ok((x, p))) => {
                let a = self.mem(&p, root);
                (0, "found", self.val_no(&x), a, no)
            }
            Ok(Err(e)) => {
                use jmt::ExclusionProof::*;
                match e {
                    Leftmost { leftmost_right_proof: r } => (0, "left", 0, no, self.mem(&r, root)),
                    Middle { leftmost_right_proof: r, rightmost_left_proof: l } => {
                        (0, "mid", 0, self.mem(&l, root), self.mem(&r, root))
                    }
                    Rightmost { rightmost_left_proof: l } => (0, "right", 0, self.mem(&l, root), no),
                }
            }
        };
        json!({"e": "excl", "s": s, "ver": ver, "k": k, "res": res, "kind": kind, "val": val, "l": l, "r": r})
    }
    pub fn excl(&mut self, s: usize, ver: i64, k: usize) {
        let st = self.st(s);
        let v = self.excl_ev(&st, s, ver, k);
        self.push(v)
    }
    pub fn range_ev(&mut self, st: &Store, s: usize, ver: i64, k: usize) -> Value {
        let t = Tree::new(st);
        let v = self.v(ver);
        let key = self.kh(k);
        let root = self.root_of(s, ver);
        match guard(|| t.get_range_proof(key, v)) {
            Err(c) => json!({"e": "range", "s": s, "ver": ver, "k": k, "res": c, "sb": [], "ok": 0}),
            Ok(rp) => {
                let sb = dec_range(&rp);
                // the hashes on the left come from the membership proof (judged by the specification)
                st.quiet(true);
                let lefts = self.lefts(st, ver, k);
                st.quiet(false);
                let val = self.content_at(s, ver)[k];
                let leaf = leaf_node(&self.keys[k - 1], &self.vhash(val));
                let ok = guard(|| rp.verify(root, leaf, lefts.clone()));
                let other = guard(|| rp.verify(root, leaf_node(&self.keys[k - 1], &rec::sha(b"?")), lefts.clone()));
                let other = if other.is_ok() { 1 } else { 0 };
                json!({"e": "range", "s": s, "ver": ver, "k": k, "res": 0, "sb": self.sibs(&sb), "ok": code(&ok), "other": other})
            }
        }
    }
    pub fn lefts(&self, st: &Store, ver: i64, k: usize) -> Vec<[u8; 32]> {
        let t = Tree::new(st);
        let v = self.v(ver);
        match guard(|| t.get_with_proof(self.kh(k), v)) {
            Ok((_, p)) => {
                let p = Prf::of(&p);
                let d = p.sibs.len();
                p.sibs
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| bit(&self.keys[k - 1], d - 1 - i) == 1)
                    .map(|(_, s)| s.hash())
                    .collect()
            }
            Err(_) => vec![],
        }
    }
    pub fn range(&mut self, s: usize, ver: i64, k: usize) {
        let st = self.st(s);
        let v = self.range_ev(&st, s, ver, k);
        self.push(v)
    }
}

