//! SHA-256 that remembers what it hashed, so that every digest in a trace can be written as the
//! term it is the hash of.
use jmt::SimpleHasher;
use sha2::{Digest, Sha256};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

thread_local! {
    static PRE: RefCell<HashMap<[u8; 32], Vec<u8>>> = RefCell::new(HashMap::new());
    static LOG: RefCell<Option<Vec<[u8; 32]>>> = RefCell::new(None);
    static ON: Cell<bool> = Cell::new(true);
}

pub fn sha(data: &[u8]) -> [u8; 32] {
    Sha256::digest(data).into()
}

pub fn reset() {
    PRE.with(|p| p.borrow_mut().clear());
}
pub fn recording(on: bool) {
    ON.with(|o| o.set(on));
}
pub fn preimage(d: &[u8; 32]) -> Option<Vec<u8>> {
    PRE.with(|p| p.borrow().get(d).cloned())
}
pub fn remember(data: &[u8]) -> [u8; 32] {
    let d = sha(data);
    PRE.with(|p| p.borrow_mut().insert(d, data.to_vec()));
    d
}
pub fn log_start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn log_take() -> Vec<[u8; 32]> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}

/// The recording hasher.  (The update proof's derived encoding asks its hasher to be encodable.)
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Rec(Vec<u8>);
impl SimpleHasher for Rec {
    fn new() -> Self {
        Rec(Vec::new())
    }
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
    fn finalize(self) -> [u8; 32] {
        let d = sha(&self.0);
        if ON.with(|o| o.get()) {
            PRE.with(|p| {
                p.borrow_mut().entry(d).or_insert(self.0);
            });
        }
        LOG.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(d)
            }
        });
        d
    }
}

// The published hashing scheme, written down independently of the code under test.
pub const PLACEHOLDER: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";
pub const LEAF_SEP: &[u8] = b"JMT::LeafNode";
pub const INT_SEP: &[u8] = b"JMT::IntrnalNode";

pub fn leaf_hash(k: &[u8; 32], vh: &[u8; 32]) -> [u8; 32] {
    remember(&[LEAF_SEP, k, vh].concat())
}
pub fn node_hash(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    remember(&[INT_SEP, l, r].concat())
}
