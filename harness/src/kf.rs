//! Known findings, reproduced one by one.
use crate::keys::set_nibble;
use crate::rec::Rec;
use crate::store::Store;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::{JellyfishMerkleTree, KeyHash};
use std::sync::Arc;

/// KF1: two appends in a row to the same version, the first of which removes a node of that version
/// that the second brings back.  The record that the node is stale stays behind, so that pruning
/// removes a node in use.  Prints the outcome.
pub fn kf1() {
    let st = Store::new(false);
    let key = |a: u8, b: u8| {
        let mut k = [0u8; 32];
        set_nibble(&mut k, 0, a);
        set_nibble(&mut k, 1, b);
        KeyHash(k)
    };
    let put = |k: KeyHash, v: Option<Vec<u8>>, append: bool| {
        let t = JellyfishMerkleTree::<_, Rec>::new(&st);
        let (_, b) = if append { t.append_value_set(vec![(k, v)], 0) } else { t.put_value_set(vec![(k, v)], 0) }.unwrap();
        st.put_batch(&b).unwrap();
    };
    put(key(1, 0), Some(vec![1]), false);
    put(key(2, 0), Some(vec![2]), true);
    put(key(2, 0), None, true);
    put(key(2, 0), Some(vec![2]), true);
    st.prune(0).unwrap();
    let r = crate::ctx::guard(|| JellyfishMerkleTree::<_, Rec>::new(&st).get_with_proof(key(2, 0), 0));
    println!("{}", if r.is_err() { "present" } else { "absent" });
}

/// KF2: a restoration alongside older versions (`new_overwrite`) writes the values of the restored
/// tree only.  A key of an older version that the restored tree lacks keeps its old value for plain
/// reads, also at the restored version.  Prints the outcome.
pub fn kf2() {
    let key = |a: u8| {
        let mut k = [0u8; 32];
        set_nibble(&mut k, 0, a);
        KeyHash(k)
    };
    let src = Store::new(false);
    let t = JellyfishMerkleTree::<_, Rec>::new(&src);
    let (root, b) = t.put_value_set(vec![(key(1), Some(vec![1]))], 0).unwrap();
    src.put_batch(&b).unwrap();
    let proof = JellyfishMerkleTree::<_, Rec>::new(&src).get_range_proof(key(1), 0).unwrap();
    let dst = Arc::new(Store::new(false));
    let (_, b) =
        JellyfishMerkleTree::<_, Rec>::new(&*dst).put_value_set(vec![(key(2), Some(vec![2]))], 0).unwrap();
    dst.put_batch(&b).unwrap();
    let mut r = JellyfishMerkleRestore::<Rec>::new_overwrite(dst.clone(), 5, root).unwrap();
    r.add_chunk(vec![(key(1), vec![1])], proof).unwrap();
    r.finish().unwrap();
    let t = JellyfishMerkleTree::<_, Rec>::new(&*dst);
    let plain = t.get(key(2), 5).unwrap();
    let proven = t.get_with_proof(key(2), 5).unwrap().0;
    println!("{}", if plain.is_some() && proven.is_none() { "present" } else { "absent" });
}
