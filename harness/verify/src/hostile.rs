//! P04: decoders and verifiers on hostile bytes.
use crate::ops;
use crate::proofs::{Scene, offer, tamper};
use crate::world::*;
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV1, LayerProof, ProofBytes};
use grovedb::{GroveDb, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_bulk_append_tree::BulkAppendTreeProof;
use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
use grovedb_element::Element;
use grovedb_element::ElementType;
use grovedb_merk::proofs::query::QueryProofVerify;
use grovedb_merk::proofs::tree::execute;
use grovedb_merkle_mountain_range::{MmrNode, MmrTreeProof};
use grovedb_query::proofs::{Decoder, Node, Op, encode_into};
use grovedb_query::{Query, QueryItem};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use vcommon::{Case, Ctx, Res, Rng, fnv, hexs, measure_alloc};

const MIB: u64 = 1 << 20;
/// Bytes a call may request: the documented decoder limit, plus what its input can account for.
fn probe<T>(c: &mut Case, name: &'static str, doc: u64, len: usize, f: impl FnOnce() -> T) -> Res<T> {
    let (r, total, largest) = measure_alloc(f);
    c.count(name, 1);
    let room = doc + 2 * MIB + 64 * len as u64;
    c.ensure(largest <= room, "one-huge-allocation", || format!("{name}: {largest} bytes requested at once for {len} bytes of input (documented limit {doc})"))?;
    let room = 4 * doc + 16 * MIB + 4096 * len as u64;
    c.ensure(total <= room, "huge-allocations", || format!("{name}: {total} bytes requested in total for {len} bytes of input (documented limit {doc})"))?;
    Ok(r)
}
fn seen(c: &mut Case, ok: bool, yes: &'static str, no: &'static str) {
    c.count(if ok { yes } else { no }, 1);
}
/// size of a range of at most 2^63 leaves
fn range_size(leaves: u64) -> u64 {
    leaves + (leaves - leaves.count_ones() as u64)
}
const ENVELOPE: u64 = 256 * MIB;
const PART: u64 = 100 * MIB;
const VALUE: u64 = 64 * MIB;

fn mangle(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + rng.below(4) {
        if b.is_empty() {
            b.push(rng.u64() as u8);
            continue;
        }
        let i = rng.usize(b.len());
        match rng.below(9) {
            0 => b.truncate(i),
            1 => b.insert(i, rng.u64() as u8),
            2 => b[i] ^= 1 << rng.below(8),
            3 => b[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 250, 251, 252, 253, 254, 255]),
            4 => {
                // a length turned huge, as bincode and fixed width integers spell it
                let v = match rng.below(6) {
                    0 => vec![253, 255, 255, 255, 255, 255, 255, 255, 255],
                    1 => vec![252, 255, 255, 255, 255],
                    2 => vec![252, 15, 255, 255, 255],
                    3 => vec![251, 255, 255],
                    4 => vec![255; 4],
                    _ => vec![3, 255, 255, 255],
                };
                b.splice(i..i + 1, v);
            }
            5 => {
                let n = 1 + rng.usize(40);
                let x = rng.bytes(n);
                b.splice(i..i, x);
            }
            6 => {
                let j = (i + 1 + rng.usize(30)).min(b.len());
                b.drain(i..j);
            }
            7 => {
                let j = (i + 1 + rng.usize(60)).min(b.len());
                let x = b[i..j].to_vec();
                let k = rng.usize(b.len());
                b.splice(k..k, x);
            }
            _ => {
                let j = rng.usize(b.len());
                b.swap(i, j);
            }
        }
    }
}

/// every public way to look at one proof
fn everything(c: &mut Case, b: &[u8], pq: &PathQuery, chunk: &PathTrunkChunkQuery) -> Res {
    let v = GroveVersion::latest();
    let n = b.len();
    for (absent, strict, empty) in [(false, true, false), (false, false, true), (true, true, false)] {
        let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: absent, verify_proof_succinctness: strict, include_empty_trees_in_result: empty };
        let r = probe(c, "verify with options", ENVELOPE, n, || GroveDb::verify_query_with_options(b, pq, o, v).is_ok())?;
        seen(c, r, "hostile proofs accepted", "hostile proofs refused");
    }
    probe(c, "verify raw", ENVELOPE, n, || GroveDb::verify_query_raw(b, pq, v).is_ok())?;
    probe(c, "verify subset", ENVELOPE, n, || GroveDb::verify_subset_query(b, pq, v).is_ok())?;
    probe(c, "verify parent info", ENVELOPE, n, || GroveDb::verify_query_get_parent_tree_info(b, pq, v).is_ok())?;
    probe(c, "verify absence", ENVELOPE, n, || GroveDb::verify_subset_query_with_absence_proof(b, pq, v).is_ok())?;
    probe(c, "verify chained", ENVELOPE, n, || {
        GroveDb::verify_query_with_chained_path_queries(b, pq, vec![|_r: Vec<grovedb::query_result_type::PathKeyOptionalElementTrio>| Some(pq.clone())], v).is_ok()
    })?;
    probe(c, "verify trunk", ENVELOPE, n, || GroveDb::verify_trunk_chunk_proof(b, chunk, v).is_ok())?;
    let p = probe(c, "decode proof", ENVELOPE, n, || ops::unpack(b))?;
    if let Ok((p, _)) = p {
        probe(c, "display proof", ENVELOPE, 64 * n, || format!("{p}").len())?;
    }
    Ok(())
}
fn bytes_case(c: &mut Case) -> Res {
    let s = Scene::random(&mut c.rng);
    let mut kinds = BTreeMap::new();
    let pq = s.pq();
    let t = PathTrunkChunkQuery::new(s.path.clone(), 1 + c.rng.below(8) as u8);
    if c.wants_sample() {
        c.sample(s.show());
    }
    for _ in 0..4 {
        let b = match c.rng.below(3) {
            0 => {
                let mut b = offer(&mut c.rng, &s, &mut kinds).0;
                mangle(&mut c.rng, &mut b);
                b
            }
            1 => {
                let mut l = s.a.proof.clone().unwrap_or_else(|| full(&s.w));
                tamper(&mut c.rng, &s, &mut l);
                let mut b = l.v0(c.rng.bool()).map(|p| ops::pack(&p)).unwrap_or_default();
                mangle(&mut c.rng, &mut b);
                b
            }
            _ => {
                // the bytes of one layer only, so that the envelope still holds together
                let mut l = s.a.proof.clone().unwrap_or_else(|| full(&s.w)).layer();
                mangle_layer(&mut c.rng, &mut l);
                ops::pack(&GroveDBProof::V1(GroveDBProofV1 { root_layer: l }))
            }
        };
        c.eval(fnv(&b), b.len() > 10);
        everything(c, &b, &pq, &t)?;
    }
    Ok(())
}
fn part_of(p: &mut ProofBytes) -> &mut Vec<u8> {
    match p {
        ProofBytes::Merk(b) | ProofBytes::MMR(b) | ProofBytes::BulkAppendTree(b) | ProofBytes::DenseTree(b) | ProofBytes::CommitmentTree(b) => b,
    }
}
fn mangle_layer(rng: &mut Rng, l: &mut LayerProof) {
    if !l.lower_layers.is_empty() && rng.chance(3, 4) {
        let i = rng.usize(l.lower_layers.len());
        if let Some(x) = l.lower_layers.values_mut().nth(i) {
            return mangle_layer(rng, x);
        }
    }
    mangle(rng, part_of(&mut l.merk_proof));
}

// ---- append-only parts with extreme claims -------------------------------

fn claim(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => rng.below(40),
        1 => rng.edge_u64(),
        2 => u64::MAX - rng.below(70),
        3 => (1u64 << rng.below(64)).wrapping_add(rng.below(5)).wrapping_sub(2),
        _ => rng.u64() >> rng.below(64),
    }
}
fn odd_blob(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![],
        1 => {
            // very many empty entries in a few bytes
            let n = *rng.pick(&[1u32, 2, 5, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, u32::MAX]);
            let size = *rng.pick(&[0u32, 0, 0, 1, u32::MAX]);
            let mut b = vec![1];
            b.extend(n.to_be_bytes());
            b.extend(size.to_be_bytes());
            b
        }
        2 => {
            let mut b = vec![0];
            for _ in 0..rng.below(5) {
                let n = rng.usize(4);
                b.extend((n as u32).to_be_bytes());
                b.extend(rng.bytes(n));
            }
            if rng.bool() {
                b.extend(u32::MAX.to_be_bytes());
            }
            b
        }
        3 => {
            let n = rng.usize(30);
            rng.bytes(n)
        }
        _ => {
            let n = 1 + rng.usize(5);
            let vs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; 3]).collect();
            crate::models::blob(&vs)
        }
    }
}
fn mmr_claim(rng: &mut Rng, size: u64, blobs: bool) -> MmrTreeProof {
    let leaves = grovedb_merkle_mountain_range::mmr_size_to_leaf_count(size.min(u64::MAX));
    let n = rng.usize(4);
    let mut at: Vec<u64> = (0..n)
        .map(|_| match rng.below(4) {
            0 => rng.below(5),
            1 => leaves.wrapping_sub(1 + rng.below(4)),
            2 => claim(rng),
            _ => rng.u64() % leaves.max(1),
        })
        .collect();
    if rng.chance(3, 4) {
        at.sort();
        at.dedup();
    }
    let l = at
        .into_iter()
        .map(|i| {
            let n = rng.usize(5);
            (i, if blobs { odd_blob(rng) } else { rng.bytes(n) })
        })
        .collect();
    let n = match rng.below(4) {
        0 => rng.usize(4),
        1 => 200,
        _ => rng.usize(130),
    };
    MmrTreeProof::new(size, l, (0..n).map(|_| rng.arr32()).collect())
}
fn dense_claim(rng: &mut Rng, height: u8, count: u64) -> DenseTreeProof {
    let pos = |rng: &mut Rng| -> u16 {
        match rng.below(4) {
            0 => rng.below(4) as u16,
            1 => (count as u16).wrapping_add(rng.below(3) as u16).wrapping_sub(1),
            2 => ((1u32 << height.min(16)) as u16).wrapping_sub(rng.below(4) as u16),
            _ => rng.u64() as u16,
        }
    };
    let mut p = DenseTreeProof { entries: vec![], node_value_hashes: vec![], node_hashes: vec![] };
    for _ in 0..rng.below(4) {
        let n = rng.usize(5);
        p.entries.push((pos(rng), rng.bytes(n)));
    }
    for _ in 0..rng.below(6) {
        p.node_value_hashes.push((pos(rng), rng.arr32()));
    }
    for _ in 0..rng.below(10) {
        p.node_hashes.push((pos(rng), rng.arr32()));
    }
    // sometimes one that fits together
    if rng.bool() && height > 0 && height <= 8 && count > 0 {
        let n = (count as usize).min((1 << height) - 1).min(40);
        let vs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8]).collect();
        let asked = (0..rng.below(4)).map(|_| rng.below(n as u64) as u16).collect();
        p = dense_part(&vs, height, &asked);
    }
    if rng.chance(3, 4) {
        p.entries.sort();
        p.entries.dedup_by_key(|x| x.0);
        p.node_value_hashes.sort();
        p.node_value_hashes.dedup_by_key(|x| x.0);
        p.node_hashes.sort();
        p.node_hashes.dedup_by_key(|x| x.0);
    }
    p
}
/// (height, total count, proof) of a bulk tree that does not exist
fn bulk_claim(rng: &mut Rng) -> (u8, u64, BulkAppendTreeProof) {
    let h = match rng.below(6) {
        0 => *rng.pick(&[0u8, 17, 32, 63, 64, 255]),
        1 => 16,
        2 => 15,
        _ => rng.range(1, 4) as u8,
    };
    let total = claim(rng);
    let per = 1u64 << h.clamp(1, 16);
    let chunks = total / per;
    let size = match rng.below(8) {
        0 => claim(rng),
        _ => range_size(chunks),
    };
    let mut p = BulkAppendTreeProof { chunk_proof: mmr_claim(rng, size, true), buffer_proof: dense_claim(rng, h, total % per) };
    if rng.bool() && total.is_multiple_of(per) {
        p.buffer_proof = DenseTreeProof { entries: vec![], node_value_hashes: vec![], node_hashes: vec![] };
    }
    (h, total, p)
}
fn position_item(rng: &mut Rng, wide: usize, near: u64) -> QueryItem {
    let k = |rng: &mut Rng| {
        let p = match rng.below(5) {
            0 => rng.below(6),
            1 => near.wrapping_sub(1 + rng.below(6)),
            2 => claim(rng),
            3 => u64::MAX - rng.below(3),
            _ => near.wrapping_add(rng.below(4)),
        };
        let w = if rng.chance(1, 20) { rng.usize(10) } else { wide };
        let b = p.to_be_bytes();
        if w <= 8 { b[8 - w..].to_vec() } else { [&b[..], &[0]].concat() }
    };
    let (a, b) = (k(rng), k(rng));
    match rng.below(8) {
        0..=2 => QueryItem::Key(a),
        3 => QueryItem::Range(a..b),
        4 => QueryItem::RangeInclusive(a..=b),
        5 => QueryItem::RangeAfterTo(a..b),
        6 => QueryItem::RangeAfterToInclusive(a..=b),
        _ => match rng.below(5) {
            0 => QueryItem::RangeFrom(a..),
            1 => QueryItem::RangeTo(..b),
            2 => QueryItem::RangeToInclusive(..=b),
            3 => QueryItem::RangeAfter(a..),
            _ => QueryItem::RangeFull(..),
        },
    }
}
/// whether positions beyond reason would be listed (these cases have a group of their own)
fn span(q: &Query, count: u64) -> u64 {
    let at = |k: &[u8]| if k.len() <= 8 { k.iter().fold(0u64, |a, b| a << 8 | *b as u64) } else { u64::MAX };
    let mut n = 0u64;
    for i in &q.items {
        let (a, b) = match i {
            QueryItem::Key(_) => (0, 1),
            QueryItem::Range(r) => (at(&r.start), at(&r.end)),
            QueryItem::RangeInclusive(r) => (at(r.start()), at(r.end()).saturating_add(1)),
            QueryItem::RangeAfterTo(r) => (at(&r.start), at(&r.end)),
            QueryItem::RangeAfterToInclusive(r) => (at(r.start()), at(r.end()).saturating_add(1)),
            QueryItem::RangeFrom(r) | QueryItem::RangeAfter(r) => (at(&r.start), count),
            QueryItem::RangeTo(r) => (0, at(&r.end)),
            QueryItem::RangeToInclusive(r) => (0, at(&r.end).saturating_add(1)),
            QueryItem::RangeFull(_) => (0, count),
        };
        n = n.saturating_add(b.min(count).saturating_sub(a));
    }
    n
}
fn position_query(rng: &mut Rng, wide: usize, near: u64) -> Query {
    loop {
        let mut q = Query::new_with_direction(rng.chance(3, 4));
        for _ in 0..rng.range(1, 3) {
            q.items.push(position_item(rng, wide, near));
        }
        if span(&q, near) < 5000 {
            return q;
        }
    }
}
/// a database proof whose only layer below the root is this part
fn wrapped(rng: &mut Rng, e: &Element, part: ProofBytes) -> (Vec<u8>, PathQuery) {
    let mut o = vec![];
    let (k, val) = (b"t".to_vec(), ser(e));
    let n = match rng.below(3) {
        0 => Node::KV(k.clone(), val),
        1 => Node::KVValueHash(k.clone(), val, rng.arr32()),
        _ => Node::KVValueHashFeatureType(k.clone(), val, rng.arr32(), ops::feature(rng)),
    };
    encode_into([Op::Push(n)].iter(), &mut o);
    let mut l = LayerProof { merk_proof: ProofBytes::Merk(o), lower_layers: BTreeMap::new() };
    l.lower_layers.insert(k, LayerProof { merk_proof: part, lower_layers: BTreeMap::new() });
    (ops::pack(&GroveDBProof::V1(GroveDBProofV1 { root_layer: l })), PathQuery::new(vec![], SizedQuery::new(Query::new_single_key(b"t".to_vec()), None, None)))
}
fn below(pq: &mut PathQuery, q: Query, rng: &mut Rng) {
    pq.query.limit = rng.bool().then(|| rng.range(1, 300) as u16);
    if rng.bool() {
        pq.path = vec![b"t".to_vec()];
        pq.query.query = q;
    } else {
        pq.query.query.set_subquery(q);
    }
}
fn claims_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let rng = &mut c.rng;
    let (e, part, q): (Element, ProofBytes, Query) = match rng.below(3) {
        0 => {
            let size = claim(rng);
            let mut p = mmr_claim(rng, size, false);
            let count = grovedb_merkle_mountain_range::mmr_size_to_leaf_count(size);
            let q = position_query(rng, 8, count);
            let told = if rng.chance(1, 8) { size.wrapping_add(1) } else { size };
            if rng.chance(1, 3) {
                p = MmrTreeProof::new(size, q.items.iter().filter_map(|i| if let QueryItem::Key(k) = i { Some((k.iter().fold(0u64, |a, b| a << 8 | *b as u64), vec![1])) } else { None }).collect(), p.proof_items().to_vec());
            }
            let b = p.encode_to_vec().unwrap_or_default();
            let n = b.len();
            let root = rng.arr32();
            probe(c, "mountain range proof", PART, n, || p.verify_and_get_root().is_ok())?;
            probe(c, "mountain range proof", PART, n, || p.verify(&root).is_ok())?;
            let nodes: Vec<(u64, MmrNode)> = p.leaves().iter().map(|(i, d)| (*i, MmrNode::leaf(d.clone()))).collect();
            let m = grovedb_merkle_mountain_range::MerkleProof::new(size, p.proof_items().iter().map(|h| MmrNode::internal(*h)).collect());
            probe(c, "mountain range nodes", PART, n, || m.calculate_root(nodes.clone()).is_ok())?;
            probe(c, "mountain range nodes", PART, n, || m.verify(MmrNode::internal(root), nodes.clone()).is_ok())?;
            let (pos, ns) = (claim(&mut c.rng), claim(&mut c.rng));
            probe(c, "mountain range growth", PART, n, || m.calculate_root_with_new_leaf(nodes.clone(), pos, MmrNode::internal(root), ns).is_ok())?;
            if c.rng.chance(1, 4) {
                let inc: Vec<MmrNode> = (0..c.rng.below(4)).map(|_| MmrNode::internal(root)).collect();
                probe(c, "mountain range growth", PART, n, || m.verify_incremental(MmrNode::internal(root), MmrNode::internal(root), inc).is_ok())?;
            }
            (Element::new_mmr_tree(told, None), ProofBytes::MMR(b), q)
        }
        1 => {
            let (h, total, p) = bulk_claim(rng);
            let q = position_query(rng, 8, total);
            let b = p.encode_to_vec().unwrap_or_default();
            let n = b.len();
            let r = probe(c, "bulk proof", PART, n, || p.verify_and_compute_root(h, total))?;
            if let Ok((root, res)) = r {
                c.count("bulk proofs that hold together", 1);
                let (a, z) = (claim(&mut c.rng), claim(&mut c.rng));
                probe(c, "bulk values", PART, n, || res.values_in_range(a, z).is_ok())?;
                probe(c, "bulk values", PART, n, || res.values_in_range(0, u64::MAX).is_ok())?;
                probe(c, "bulk query", PART, n, || p.verify_against_query::<Vec<_>>(&root, h, total, &q).is_ok())?;
                let f = Query::new_single_query_item(QueryItem::RangeFull(..));
                probe(c, "bulk query", PART, n, || p.verify_against_query::<Vec<_>>(&root, h, total, &f).is_ok())?;
            }
            let e = match c.rng.below(2) {
                0 => Element::BulkAppendTree(total, h, None),
                _ => Element::CommitmentTree(total, h, None),
            };
            if matches!(e, Element::CommitmentTree(..)) {
                let mut x = c.rng.bytes(32);
                x.extend(b);
                (e, ProofBytes::CommitmentTree(x), q)
            } else {
                (e, ProofBytes::BulkAppendTree(b), q)
            }
        }
        _ => {
            let h = match rng.below(4) {
                0 => *rng.pick(&[0u8, 16, 17, 64, 255]),
                _ => rng.range(1, 16) as u8,
            };
            let count = match rng.below(3) {
                0 => rng.u64() as u16,
                1 => (1u32 << h.min(16)).wrapping_sub(rng.below(4) as u32) as u16,
                _ => rng.below(20) as u16,
            };
            let p = dense_claim(rng, h, count as u64);
            let q = position_query(rng, 2, count as u64);
            let b = p.encode_to_vec().unwrap_or_default();
            let n = b.len();
            probe(c, "dense proof", PART, n, || p.verify_and_get_root::<Vec<_>>(h, count).is_ok())?;
            probe(c, "dense query", PART, n, || p.verify_for_query::<Vec<_>>(&q, h, count).is_ok())?;
            let f = Query::new_single_query_item(QueryItem::RangeFull(..));
            probe(c, "dense query", PART, n, || p.verify_for_query::<Vec<_>>(&f, h, count).is_ok())?;
            (Element::DenseAppendOnlyFixedSizeTree(count, h, None), ProofBytes::DenseTree(b), q)
        }
    };
    let mut part = part;
    c.eval(fnv(part_of(&mut part)), true);
    let (b, mut pq) = wrapped(&mut c.rng, &e, part);
    below(&mut pq, q, &mut c.rng);
    c.note(format!("{e} {pq}"));
    let r = probe(c, "claimed layers", ENVELOPE, b.len(), || GroveDb::verify_query_raw(&b, &pq, v).is_ok())?;
    seen(c, r, "claimed layers accepted", "claimed layers refused");
    everything(c, &b, &pq, &PathTrunkChunkQuery::new(vec![b"t".to_vec()], 3))
}
/// queries over as many positions as a proof cares to claim
fn wide_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let size = [u64::MAX - 1, 1 << 40, 40_000_000][c.rng.usize(3)];
    let q = Query::new_single_query_item(match c.rng.below(3) {
        0 => QueryItem::RangeFull(..),
        1 => QueryItem::RangeFrom(5u64.to_be_bytes().to_vec()..),
        _ => QueryItem::RangeInclusive(0u64.to_be_bytes().to_vec()..=u64::MAX.to_be_bytes().to_vec()),
    });
    let (e, part) = if c.rng.bool() {
        let p = MmrTreeProof::new(size, vec![(0, vec![1])], (0..64).map(|i| [i; 32]).collect());
        (Element::new_mmr_tree(size, None), ProofBytes::MMR(p.encode_to_vec().unwrap_or_default()))
    } else {
        // many chunks of very many empty values each
        let h = *c.rng.pick(&[1u8, 4, 16]);
        let per = 1u64 << h;
        let total = (size / per) * per;
        let chunks = total / per;
        let blob = |n: u32| [&[1u8][..], &n.to_be_bytes(), &[0; 4]].concat();
        let n = *c.rng.pick(&[per as u32, 1 << 20]);
        // all of a small perfect range would be needed to fit together; leaves next to each other need few hashes
        let leaves: Vec<(u64, Vec<u8>)> = (0..c.rng.range(1, if n as u64 == per { (2 << 20) / per } else { 1200 }.min(1200)).min(chunks)).map(|i| (i, blob(n))).collect();
        let ms = range_size(chunks);
        let mut p = BulkAppendTreeProof {
            chunk_proof: MmrTreeProof::new(ms, leaves.clone(), vec![]),
            buffer_proof: DenseTreeProof { entries: vec![], node_value_hashes: vec![], node_hashes: vec![] },
        };
        for items in 0..200 {
            p.chunk_proof = MmrTreeProof::new(ms, leaves.clone(), (0..items).map(|i| [i as u8; 32]).collect());
            if p.chunk_proof.verify_and_get_root().is_ok() {
                c.count("huge bulk claims that hold together", 1);
                break;
            }
        }
        let b = p.encode_to_vec().unwrap_or_default();
        if let Ok((root, res)) = p.verify_and_compute_root(h, total) {
            // entries of a chunk that take no bytes are the format's own
            let room = PART + leaves.len() as u64 * per * 64;
            probe(c, "bulk values", room, b.len(), || res.values_in_range(0, u64::MAX).is_ok())?;
            probe(c, "bulk query", room, b.len(), || p.verify_against_query::<Vec<_>>(&root, h, total, &q).is_ok())?;
        }
        (Element::BulkAppendTree(total, h, None), ProofBytes::BulkAppendTree(b))
    };
    let (b, mut pq) = wrapped(&mut c.rng, &e, part);
    pq.query.limit = Some(10);
    pq.path = vec![b"t".to_vec()];
    pq.query.query = q;
    c.note(format!("{e} {pq}"));
    c.eval(fnv(&b), true);
    probe(c, "claimed layers", ENVELOPE, b.len(), || GroveDb::verify_query_raw(&b, &pq, v).is_ok())?;
    Ok(())
}

// ---- operation streams -----------------------------------------------------

fn some_query(rng: &mut Rng) -> Query {
    let s = crate::queries::Shape { keys: crate::queries::Keys::letters(4), ranges: 3, finite: false, depth: 2, add_parent: true };
    crate::queries::random_query(rng, &s, 2)
}
/// a stream that pushes and attaches at random, keys mostly increasing
fn stream(rng: &mut Rng, n: usize) -> Vec<Op> {
    let mut o: Vec<Op> = vec![];
    let mut k = 0u32;
    for _ in 0..n {
        let x = match rng.below(7) {
            0 => Op::Parent,
            1 => Op::Child,
            2 if rng.chance(1, 4) => Op::ParentInverted,
            2 if rng.chance(1, 3) => Op::ChildInverted,
            _ => {
                k += 1 + rng.below(3) as u32;
                let key = if rng.chance(1, 12) { vec![] } else { vec![b'a' + (k % 26) as u8] };
                let val = match rng.below(3) {
                    0 => ser(&item_elem(rng)),
                    1 => vec![],
                    _ => {
                        let n = rng.usize(8);
                        rng.bytes(n)
                    }
                };
                let h = rng.arr32();
                let node = match rng.below(9) {
                    0 | 1 => Node::KV(key, val),
                    2 => Node::Hash(h),
                    3 => Node::KVHash(h),
                    4 => Node::KVValueHash(key, val, h),
                    5 => Node::KVDigest(key, h),
                    6 => Node::KVCount(key, val, rng.edge_u64()),
                    _ => ops::node(rng),
                };
                if rng.chance(1, 8) { Op::PushInverted(node) } else { Op::Push(node) }
            }
        };
        o.push(x);
    }
    o
}
fn stream_bytes(c: &mut Case, b: &[u8], q: &Query, limit: Option<u16>) -> Res {
    let v = GroveVersion::latest();
    let n = b.len();
    let h = c.rng.arr32();
    for (ltr, pv) in &[(true, 0u16), (false, 0), (true, 1), (false, 1)] {
        let ltr = *ltr;
        let r = probe(c, "execute a tree proof", VALUE, n, || q.execute_proof(b, limit, ltr, *pv).unwrap().is_ok())?;
        seen(c, r, "tree proofs executed", "tree proofs refused");
        probe(c, "verify a tree proof", VALUE, n, || q.verify_proof(b, limit, ltr, h).unwrap().is_ok())?;
    }
    probe(c, "boundaries", VALUE, n, || grovedb_merk::proofs::query::boundaries_in_proof(b).is_ok())?;
    probe(c, "boundaries", VALUE, n, || grovedb_merk::proofs::query::key_exists_as_boundary_in_proof(b, b"b").is_ok())?;
    for collapse in [true, false] {
        let t = probe(c, "execute operations", VALUE, n, || execute(Decoder::new(b).map(|o| o.map_err(|e| grovedb_merk::Error::EdError(ed_of(e)))), collapse, |_| Ok(())).unwrap())?;
        if let Ok(t) = t {
            let hash = t.hash().unwrap();
            for depth in [0u8, 1, 3, 255] {
                let bq = PathBranchChunkQuery::new(vec![], b"b".to_vec(), depth);
                let r = probe(c, "branch chunk", VALUE, n, || GroveDb::verify_branch_chunk_proof(b, &bq, hash, v).map(|r| (r.trace_key_to_leaf(b"b").is_some(), r.get_ancestor(b"b", 3).is_some())))?;
                seen(c, r.is_ok(), "hostile branches accepted", "hostile branches refused");
            }
        }
    }
    let mut l = LayerProof { merk_proof: ProofBytes::Merk(b.to_vec()), lower_layers: BTreeMap::new() };
    for k in [b"a", b"b", b"c"] {
        if c.rng.bool() {
            l.lower_layers.insert(k.to_vec(), LayerProof { merk_proof: ProofBytes::Merk(b.to_vec()), lower_layers: BTreeMap::new() });
        }
    }
    let p = ops::pack(&GroveDBProof::V1(GroveDBProofV1 { root_layer: l }));
    let pq = PathQuery::new(if c.rng.bool() { vec![] } else { vec![b"b".to_vec()] }, SizedQuery::new(q.clone(), limit, None));
    let t = PathTrunkChunkQuery::new(pq.path.clone(), 1 + c.rng.below(5) as u8);
    everything(c, &p, &pq, &t)
}
fn ed_of(_: grovedb_query::error::Error) -> ed::Error {
    ed::Error::UnexpectedByte(0)
}
fn streams_case(c: &mut Case) -> Res {
    let q = some_query(&mut c.rng);
    let limit = limit_for(&mut c.rng);
    let n = 1 + c.rng.usize(24);
    let o = stream(&mut c.rng, n);
    let mut b = vec![];
    encode_into(o.iter(), &mut b);
    if c.rng.chance(1, 3) {
        mangle(&mut c.rng, &mut b);
    }
    if c.wants_sample() {
        c.sample(format!("{o:?} for {q}"));
    }
    c.note(format!("{} for {q} limit {limit:?}", hexs(&b)));
    c.eval(fnv(&b), true);
    stream_bytes(c, &b, &q, limit)
}
/// long and tall streams at and beyond the documented limits
fn tall_case(c: &mut Case) -> Res {
    let mut b = vec![];
    let h = Op::Push(Node::Hash([1; 32]));
    let kv = |i: u32| Op::Push(Node::KV(i.to_be_bytes().to_vec(), vec![0]));
    let n = *c.rng.pick(&[90u32, 91, 92, 93, 94, 200, 9_999, 10_000, 10_001, 24_999, 25_000, 25_001, 50_000, 50_001, 120_000]);
    let what = c.rng.below(7);
    let o: Vec<Op> = match what {
        0 => (0..n).map(|_| h.clone()).collect(),
        1 => (0..n).map(kv).collect(),
        2 => (0..n).flat_map(|i| if i == 0 { vec![kv(0)] } else { vec![kv(i), Op::Parent] }).collect(),
        3 => (0..n).map(kv).chain((1..n).map(|_| Op::Child)).collect(),
        4 => (0..n).flat_map(|i| if i == 0 { vec![kv(0)] } else { vec![kv(i), Op::Child] }).collect(),
        5 => (0..n).map(|_| Op::Parent).collect(),
        _ => (0..n).map(|_| Op::Push(Node::KVHash([2; 32]))).chain((1..n).map(|_| Op::Parent)).collect(),
    };
    encode_into(o.iter(), &mut b);
    c.note(format!("shape {what} with {n}"));
    c.eval(fnv(&b), true);
    let q = Query::new_single_query_item(QueryItem::RangeFull(..));
    stream_bytes(c, &b, &q, None)
}
/// values claimed larger than the stream, one after another
fn large_case(c: &mut Case) -> Res {
    let mut b = vec![];
    for _ in 0..1 + c.rng.below(3) {
        b.push(*c.rng.pick(&[0x20u8, 0x21, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31]));
        b.extend([1, b'a']);
        let n = *c.rng.pick(&[u32::MAX, 64 << 20, (64 << 20) + 1, 1 << 31, 70_000, 65_536]);
        b.extend(n.to_be_bytes());
    }
    c.eval(fnv(&b), true);
    probe(c, "decode operations", VALUE, b.len(), || Decoder::new(&b).take_while(|o| o.is_ok()).count())?;
    stream_bytes(c, &b, &some_query(&mut c.rng.clone()), None)
}

// ---- nesting ---------------------------------------------------------------

fn nested_case(c: &mut Case) -> Res {
    let deep = *c.rng.pick(&[1usize, 60, 63, 64, 65, 120, 126, 127, 128, 129, 130, 300, 2000]);
    // by hand, since the encoder has limits of its own
    let mut o = vec![];
    encode_into([Op::Push(Node::KVValueHash(b"t".to_vec(), ser(&Element::new_tree(Some(b"t".to_vec()))), [3; 32]))].iter(), &mut o);
    let v1 = c.rng.bool();
    let wide = if c.rng.chance(1, 4) { *c.rng.pick(&[2usize, 128, 129, 250]) } else { 1 };
    let mut b = vec![v1 as u8];
    let layer = |b: &mut Vec<u8>, lower: usize| {
        if v1 {
            b.push(0);
        }
        b.push(o.len() as u8);
        b.extend(&o);
        b.push(lower as u8);
    };
    for i in 0..deep {
        let n = if i + 1 == deep { 0 } else if i == 0 { wide } else { 1 };
        layer(&mut b, n);
        if n > 0 {
            for j in 1..n {
                b.extend([1, j as u8]);
                layer(&mut b, 0);
            }
            b.extend([1, b't']);
        }
    }
    if !v1 {
        b.push(1);
    }
    if c.rng.chance(1, 4) {
        mangle(&mut c.rng, &mut b);
    }
    let mut q = Query::new_single_key(b"t".to_vec());
    for _ in 0..c.rng.usize(200) {
        let mut up = Query::new_single_key(b"t".to_vec());
        up.set_subquery(q);
        q = up;
    }
    let path: Vec<Vec<u8>> = (0..if c.rng.bool() { 0 } else { c.rng.usize(deep + 3) }).map(|_| b"t".to_vec()).collect();
    let pq = PathQuery::new(path.clone(), SizedQuery::new(q, Some(5), None));
    c.note(format!("{deep} layers, {wide} wide, v1 {v1}, path of {}", path.len()));
    c.eval(fnv(&b), true);
    everything(c, &b, &pq, &PathTrunkChunkQuery::new(path, 3))
}

// ---- single decoders -------------------------------------------------------

fn decoders_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let cfg = bincode::config::standard().with_big_endian();
    let b = match c.rng.below(7) {
        0 => {
            let n = c.rng.usize(60);
            c.rng.bytes(n)
        }
        1 => {
            let w = world(&mut c.rng);
            let mut b = w.nodes.first().map(|e| e.value.clone()).unwrap_or_default();
            mangle(&mut c.rng, &mut b);
            b
        }
        2 => {
            let q = some_query(&mut c.rng);
            let mut b = bincode::encode_to_vec(&q, cfg).unwrap_or_default();
            mangle(&mut c.rng, &mut b);
            b
        }
        3 => {
            let mut b = mmr_claim(&mut c.rng, 11, true).encode_to_vec().unwrap_or_default();
            mangle(&mut c.rng, &mut b);
            b
        }
        4 => {
            let mut b = bulk_claim(&mut c.rng).2.encode_to_vec().unwrap_or_default();
            mangle(&mut c.rng, &mut b);
            b
        }
        5 => {
            let mut b = dense_claim(&mut c.rng, 4, 9).encode_to_vec().unwrap_or_default();
            mangle(&mut c.rng, &mut b);
            b
        }
        _ => {
            let mut b = odd_blob(&mut c.rng);
            if c.rng.bool() {
                mangle(&mut c.rng, &mut b);
            }
            b
        }
    };
    let n = b.len();
    c.eval(fnv(&b), n > 2);
    c.note(hexs(&b));
    probe(c, "element", ENVELOPE, n, || Element::deserialize(&b, v).map(|e| (format!("{e} {e:?}").len(), e.serialize(v).is_ok())))?.is_ok();
    probe(c, "element kind", MIB, n, || ElementType::from_serialized_value(&b).is_ok())?;
    let d = probe(c, "query", ENVELOPE, n, || bincode::decode_from_slice::<Query, _>(&b, cfg.with_limit::<{ 256 << 20 }>()))?;
    if let Ok((q, _)) = d {
        c.count("mangled queries accepted", 1);
        let mut out = vec![];
        probe(c, "query walks", ENVELOPE, n, || (q.max_depth(), format!("{q}").len(), bincode::encode_to_vec(&q, cfg).is_ok()))?;
        probe(c, "terminal keys", ENVELOPE, n, || q.terminal_keys(vec![], 100, &mut out).is_ok())?;
    }
    probe(c, "query without limit", ENVELOPE, n, || bincode::decode_from_slice::<Query, _>(&b, cfg.with_limit::<{ 1 << 20 }>()).is_ok())?;
    if let Ok(p) = probe(c, "mountain range decoder", PART, n, || MmrTreeProof::decode_from_slice(&b))? {
        probe(c, "mountain range proof", PART, n, || (p.verify_and_get_root().is_ok(), p.verify(&[0; 32]).is_ok()))?;
    }
    if let Ok(p) = probe(c, "bulk decoder", PART, n, || BulkAppendTreeProof::decode_from_slice(&b))? {
        let (h, t) = (c.rng.below(18) as u8, claim(&mut c.rng));
        probe(c, "bulk proof", PART, n, || p.verify_and_compute_root(h, t).map(|(_, r)| r.values_in_range(0, u64::MAX).is_ok()))?.is_ok();
    }
    if let Ok(p) = probe(c, "dense decoder", PART, n, || DenseTreeProof::decode_from_slice(&b))? {
        let (h, t) = (c.rng.below(18) as u8, c.rng.below(30) as u16);
        probe(c, "dense proof", PART, n, || p.verify_and_get_root::<Vec<_>>(h, t).is_ok())?;
    }
    probe(c, "chunk blob", 32 * MIB, n, || grovedb_bulk_append_tree::deserialize_chunk_blob(&b).is_ok())?;
    probe(c, "mountain range node", MIB, n, || MmrNode::deserialize(&b).is_ok())?;
    probe(c, "operations", VALUE, n, || Decoder::new(&b).take(n + 2).take_while(|o| o.is_ok()).count())?;
    Ok(())
}

pub fn p04(ctx: &Ctx) {
    ctx.level("monitored executions of the real decoders and verifiers on hostile bytes under an allocation monitor, arithmetic and index checks on");
    ctx.rule("every call returns a value or an error: no panic, no abort, no hang (150 CPU seconds per case), no single allocation above the documented limit of that decoder plus what the input accounts for, no total above four times that");
    ctx.assume("documented limits: 256 MiB envelope and elements, 100 MiB append-only parts, 64 MiB values, 50 000 operations, stack 10 000, height 92, 128 layers, 2^20 chunk entries, 10^7 positions");
    ctx.cases("bytes", ctx.n(9_000, 400_000), bytes_case);
    ctx.cases("streams", ctx.n(6_000, 300_000), streams_case);
    ctx.cases("claims", ctx.n(16_000, 800_000), claims_case);
    ctx.cases("decoders", ctx.n(30_000, 2_000_000), decoders_case);
    ctx.cases("tall", ctx.n(120, 1_000), tall_case);
    ctx.cases("large", ctx.n(60, 600), large_case);
    ctx.cases("nested", ctx.n(600, 10_000), nested_case);
    ctx.cases("wide", ctx.n(24, 200), wide_case);
    for k in ["verify with options", "display proof", "branch chunk", "bulk values", "dense query", "mountain range growth", "verify trunk", "element", "tree proofs executed", "hostile branches accepted", "bulk proofs that hold together"] {
        ctx.require(k, 20);
    }
}
