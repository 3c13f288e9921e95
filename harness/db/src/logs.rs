//! The anchor of a commitment tree, from all its commitments.
use crate::models::H;
use incrementalmerkletree::{Hashable, Level};
use orchard::tree::MerkleHashOrchard;

pub fn empty_anchor() -> H {
    MerkleHashOrchard::empty_root(Level::from(32)).to_bytes()
}
/// entries start with their commitment
pub fn anchor(values: &[Vec<u8>]) -> H {
    if values.is_empty() {
        return empty_anchor();
    }
    let mut row: Vec<MerkleHashOrchard> = values.iter().map(|v| MerkleHashOrchard::from_bytes(v[..32].try_into().unwrap()).expect("a field element")).collect();
    for l in 0..32u8 {
        let empty = MerkleHashOrchard::empty_root(Level::from(l));
        row = row.chunks(2).map(|p| MerkleHashOrchard::combine(Level::from(l), &p[0], p.get(1).unwrap_or(&empty))).collect();
    }
    row[0].to_bytes()
}
