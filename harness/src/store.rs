//! A versioned key-value store with the documented storage contract, in three flavours: one keeps
//! objects, one only their encodings, and one has the bundled `MockTreeStore` hold everything.
//! Reads and writes can be made to fail.
use crate::rec::Rec;
use anyhow::{anyhow, Result};
use borsh::BorshDeserialize;
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::{KeyHash, OwnedValue, SimpleHasher, Version};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flt {
    Err,  // the read fails
    Miss, // what is read there is not found, now and later
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum WFlt {
    Before, // nothing written, error
    After,  // everything written, error
}

#[derive(Clone)]
enum Cellv {
    Obj(Node),
    Enc(Vec<u8>),
}

#[derive(Clone, Default)]
struct Inner {
    nodes: BTreeMap<Vec<u8>, (NodeKey, Cellv)>, // by encoded node key
    values: BTreeMap<([u8; 32], u64), Option<Vec<u8>>>, // by key and ordered version
    stale: Vec<(StaleNodeIndex, Vec<u8>)>,
    pre: HashMap<[u8; 32], Vec<u8>>,
    quiet: bool,
    reads: usize,
    log: Vec<u8>,
    fail: Option<(usize, Flt)>,
    lost: Option<Vec<u8>>,
    writes: usize,
    over: usize, // nodes overwritten by batches of nodes
    wfail: Option<(usize, WFlt)>,
}

#[derive(Clone)]
enum Op {
    Nodes(NodeBatch),
    Batch(TreeUpdateBatch),
    Prune(Version),
    Pre([u8; 32], Vec<u8>),
}

/// The bundled store, with what was done to it.
#[derive(Default)]
struct Mock {
    m: Option<MockTreeStore>,
    log: Vec<Op>,
    ever: BTreeSet<NodeKey>,
}

impl Mock {
    fn on() -> Self {
        Mock { m: Some(MockTreeStore::new(true)), ..Default::default() }
    }
    fn again(&self) -> Result<Self> {
        let mut n = Mock::default();
        if self.m.is_some() {
            n = Mock::on();
            for o in self.log.iter() {
                n.run(o.clone())?;
            }
        }
        Ok(n)
    }
    fn run(&mut self, o: Op) -> Result<()> {
        if let Some(m) = &self.m {
            self.log.push(o.clone());
            match o {
                Op::Nodes(b) => {
                    self.ever.extend(b.nodes().keys().cloned());
                    m.write_node_batch(&b)?
                }
                Op::Batch(b) => {
                    self.ever.extend(b.node_batch.nodes().keys().cloned());
                    m.write_tree_update_batch(b)?
                }
                Op::Prune(v) => m.purge_stale_nodes(v)?,
                Op::Pre(k, p) => m.put_key_preimage(KeyHash(k), &p),
            }
        }
        Ok(())
    }
}

pub struct Store {
    pub enc: bool,
    inner: RefCell<Inner>,
    mock: RefCell<Mock>,
}

fn ord(v: Version) -> u64 {
    // the version before genesis comes first
    v.wrapping_add(1)
}

pub fn root_key(v: Version) -> NodeKey {
    let mut no: Vec<u8> = vec![];
    NodeKey::new(v, no.drain(..).map(|x| x.into()).collect())
}

impl Store {
    pub fn new(enc: bool) -> Self {
        Store {
            enc,
            inner: RefCell::new(Inner::default()),
            mock: Default::default(),
        }
    }
    /// A store whose contents the bundled store keeps.  It holds what it cannot keep (values written
    /// out of the order of versions, as those before genesis) like any other.
    pub fn bundled() -> Self {
        let s = Store::new(false);
        s.mock.replace(Mock::on());
        s
    }
    pub fn fork(&self) -> Self {
        let s = Store {
            enc: self.enc,
            inner: RefCell::new(self.inner.borrow().clone()),
            mock: RefCell::new(self.mock.borrow().again().unwrap_or_default()),
        };
        s.arm(None);
        s.warm(None);
        s
    }
    /// Everything the store holds goes through its encoding once.
    pub fn reopen(&self) -> Result<Self> {
        let old = self.inner.borrow();
        let n = Store::new(self.enc);
        n.mock.replace(self.mock.borrow().again()?);
        {
            let mut i = n.inner.borrow_mut();
            i.pre = old.pre.clone();
            for (kb, (_, c)) in old.nodes.iter() {
                let key = NodeKey::try_from_slice(kb)?;
                let c = match c {
                    Cellv::Enc(b) => Cellv::Enc(b.clone()),
                    Cellv::Obj(o) => Cellv::Obj(Node::try_from_slice(&borsh::to_vec(o)?)?),
                };
                i.nodes.insert(borsh::to_vec(&key)?, (key, c));
            }
            i.values = old.values.clone();
            for (_, b) in old.stale.iter() {
                i.stale.push((StaleNodeIndex::try_from_slice(b)?, b.clone()));
            }
        }
        Ok(n)
    }
    fn cell(&self, n: &Node) -> Result<Cellv> {
        Ok(if self.enc {
            Cellv::Enc(borsh::to_vec(n)?)
        } else {
            Cellv::Obj(n.clone())
        })
    }
    fn node(c: &Cellv) -> Result<Node> {
        Ok(match c {
            Cellv::Obj(n) => n.clone(),
            Cellv::Enc(b) => Node::try_from_slice(b)?,
        })
    }
    /// Reads from now on are counted; the `n`-th (from 0) fails.
    pub fn arm(&self, f: Option<(usize, Flt)>) {
        let mut i = self.inner.borrow_mut();
        i.reads = 0;
        i.log.clear();
        i.fail = f;
        i.lost = None;
    }
    /// Reads that do not count (the harness's own).
    pub fn quiet(&self, on: bool) {
        self.inner.borrow_mut().quiet = on;
    }
    pub fn reads(&self) -> usize {
        self.inner.borrow().reads
    }
    /// what kind of reads were made since `arm`: r root node, n other node, v value, p preimage, m rightmost
    pub fn read_log(&self) -> Vec<u8> {
        self.inner.borrow().log.clone()
    }
    pub fn warm(&self, f: Option<(usize, WFlt)>) {
        let mut i = self.inner.borrow_mut();
        i.writes = 0;
        i.wfail = f;
    }
    fn tick(&self, kind: u8, what: Vec<u8>) -> Option<Flt> {
        let mut i = self.inner.borrow_mut();
        if i.quiet {
            return None;
        }
        let n = i.reads;
        i.reads += 1;
        i.log.push(kind);
        match i.fail {
            Some((m, Flt::Err)) if m == n => Some(Flt::Err),
            Some((m, Flt::Miss)) if m == n => {
                i.lost = Some(what);
                Some(Flt::Miss)
            }
            _ if i.lost.as_ref() == Some(&what) => Some(Flt::Miss),
            _ => None,
        }
    }
    pub fn put_preimage(&self, k: [u8; 32], p: Vec<u8>) {
        let _ = self.mock.borrow_mut().run(Op::Pre(k, p.clone()));
        self.inner.borrow_mut().pre.insert(k, p);
    }
    fn over_by(&self, b: &NodeBatch) -> usize {
        let i = self.inner.borrow();
        b.nodes().keys().filter(|k| borsh::to_vec(*k).map_or(false, |e| i.nodes.contains_key(&e))).count()
    }
    /// How many nodes batches of nodes have overwritten.
    pub fn over(&self) -> usize {
        self.inner.borrow().over
    }
    /// Stores a batch. Returns how many nodes it overwrote.
    pub fn put_nodes(&self, b: &NodeBatch) -> Result<usize> {
        let over = self.put_own(b)?;
        self.mock.borrow_mut().run(Op::Nodes(b.clone()))?;
        Ok(over)
    }
    fn put_own(&self, b: &NodeBatch) -> Result<usize> {
        {
            let i = self.inner.borrow();
            if b.nodes().keys().any(|k| k.version() == u64::MAX)
                || b.values().keys().any(|(v, k)| {
                    *v == u64::MAX || i.values.range((k.0, ord(*v) + 1)..=(k.0, u64::MAX)).next().is_some()
                })
            {
                self.mock.replace(Mock::default());
            }
        }
        let mut over = 0;
        let mut i = self.inner.borrow_mut();
        for (k, n) in b.nodes() {
            let (key, node) = if self.enc {
                let kb = borsh::to_vec(k)?;
                (NodeKey::try_from_slice(&kb)?, self.cell(n)?)
            } else {
                (k.clone(), self.cell(n)?)
            };
            if i.nodes.insert(borsh::to_vec(k)?, (key, node)).is_some() {
                over += 1;
            }
        }
        for ((v, k), x) in b.values() {
            i.values.insert((k.0, ord(*v)), x.clone());
        }
        Ok(over)
    }
    pub fn put_batch(&self, b: &TreeUpdateBatch) -> Result<usize> {
        let over = self.put_own(&b.node_batch)?;
        self.mock.borrow_mut().run(Op::Batch(b.clone()))?;
        let mut i = self.inner.borrow_mut();
        for s in b.stale_node_index_batch.iter() {
            let e = borsh::to_vec(s)?;
            let o = if self.enc {
                StaleNodeIndex::try_from_slice(&e)?
            } else {
                s.clone()
            };
            i.stale.push((o, e));
        }
        Ok(over)
    }
    /// Removes everything recorded as stale at or before a version. Returns how many of the
    /// records named a node that is not stored.
    pub fn prune(&self, upto: Version) -> Result<usize> {
        let mut i = self.inner.borrow_mut();
        let (go, keep): (Vec<_>, Vec<_>) = i
            .stale
            .drain(..)
            .partition(|(s, _)| ord(s.stale_since_version) <= ord(upto));
        i.stale = keep;
        let mut missing = 0;
        for (s, _) in go {
            if i.nodes.remove(&borsh::to_vec(&s.node_key)?).is_none() {
                missing += 1;
            }
        }
        self.mock.borrow_mut().run(Op::Prune(upto))?;
        Ok(missing)
    }
    pub fn all_nodes(&self) -> Result<Vec<(NodeKey, Node)>> {
        let mock = self.mock.borrow();
        let mut out = vec![];
        if let Some(m) = &mock.m {
            for k in mock.ever.iter() {
                if let Some(n) = m.get_node_option(k)? {
                    out.push((k.clone(), n));
                }
            }
            anyhow::ensure!(out.len() == m.num_nodes(), "the bundled store holds other nodes");
            return Ok(out);
        }
        let i = self.inner.borrow();
        for (k, c) in i.nodes.values() {
            out.push((k.clone(), Store::node(c)?));
        }
        Ok(out)
    }
    pub fn all_values(&self) -> Vec<([u8; 32], u64, Option<Vec<u8>>)> {
        let i = self.inner.borrow();
        let mock = self.mock.borrow();
        let held = |k: [u8; 32], v: u64, x: &Option<Vec<u8>>| match &mock.m {
            Some(m) => m.get_value_option(v, KeyHash(k)).unwrap_or_default(),
            None => x.clone(),
        };
        i.values
            .iter()
            .map(|((k, v), x)| (*k, v.wrapping_sub(1), held(*k, v.wrapping_sub(1), x)))
            .collect()
    }
    pub fn all_stale(&self) -> Vec<StaleNodeIndex> {
        self.inner.borrow().stale.iter().map(|(s, _)| s.clone()).collect()
    }
    pub fn has_root(&self, v: Version) -> bool {
        if let Some(m) = &self.mock.borrow().m {
            return m.get_node_option(&root_key(v)).map_or(false, |n| n.is_some());
        }
        let k = borsh::to_vec(&root_key(v)).unwrap();
        self.inner.borrow().nodes.contains_key(&k)
    }
}

impl TreeReader for Store {
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> {
        match self.tick(if k.nibble_path().is_empty() { b'r' } else { b'n' }, borsh::to_vec(k)?) {
            Some(Flt::Err) => return Err(anyhow!("injected read failure")),
            Some(Flt::Miss) => return Ok(None),
            None => {}
        }
        if let Some(m) = &self.mock.borrow().m {
            return m.get_node_option(k);
        }
        let i = self.inner.borrow();
        match i.nodes.get(&borsh::to_vec(k)?) {
            Some((_, c)) => Ok(Some(Store::node(c)?)),
            None => Ok(None),
        }
    }
    fn get_value_option(&self, v: Version, k: KeyHash) -> Result<Option<OwnedValue>> {
        match self.tick(b'v', k.0.to_vec()) {
            Some(Flt::Err) => return Err(anyhow!("injected read failure")),
            Some(Flt::Miss) => return Ok(None),
            None => {}
        }
        if let Some(m) = &self.mock.borrow().m {
            return m.get_value_option(v, k);
        }
        let i = self.inner.borrow();
        Ok(i.values
            .range((k.0, 0)..=(k.0, ord(v)))
            .next_back()
            .and_then(|(_, x)| x.clone()))
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        match self.tick(b'm', vec![]) {
            Some(Flt::Err) => return Err(anyhow!("injected read failure")),
            Some(Flt::Miss) => return Ok(None),
            None => {}
        }
        if let Some(m) = &self.mock.borrow().m {
            return m.get_rightmost_leaf();
        }
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in self.all_nodes()? {
            if let Node::Leaf(l) = n {
                if best.as_ref().map_or(true, |(_, b)| l.key_hash() > b.key_hash()) {
                    best = Some((k, l));
                }
            }
        }
        Ok(best)
    }
}

impl TreeWriter for Store {
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        let f = {
            let mut i = self.inner.borrow_mut();
            let n = i.writes;
            i.writes += 1;
            match i.wfail {
                Some((m, f)) if m == n => Some(f),
                _ => None,
            }
        };
        match f {
            Some(WFlt::Before) => Err(anyhow!("injected write failure")),
            Some(WFlt::After) => {
                let n = self.over_by(b);
                self.inner.borrow_mut().over += n;
                self.put_nodes(b)?;
                Err(anyhow!("injected failure after the write"))
            }
            None => {
                let n = self.over_by(b);
                self.inner.borrow_mut().over += n;
                self.put_nodes(b).map(|_| ())
            }
        }
    }
}

impl HasPreimage for Store {
    fn preimage(&self, k: KeyHash) -> Result<Option<Vec<u8>>> {
        match self.tick(b'p', [&k.0[..], b"p"].concat()) {
            Some(Flt::Err) => return Err(anyhow!("injected read failure")),
            Some(Flt::Miss) => return Ok(None),
            None => {}
        }
        if let Some(m) = &self.mock.borrow().m {
            return m.preimage(k);
        }
        Ok(self.inner.borrow().pre.get(&k.0).cloned())
    }
}

pub fn hash_of(n: &Node) -> [u8; 32] {
    match n {
        Node::Null => crate::rec::PLACEHOLDER,
        Node::Internal(i) => i.hash::<Rec>(),
        Node::Leaf(l) => l.hash::<Rec>(),
    }
}

#[allow(dead_code)]
pub fn vhash(v: &[u8]) -> [u8; 32] {
    <Rec as SimpleHasher>::hash(v)
}
#[allow(dead_code)]
pub type Set<T> = BTreeSet<T>;
