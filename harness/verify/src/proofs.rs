//! P01, P03: what accepted proofs may say, whoever made them.
use crate::models::H;
use crate::ops;
use crate::queries::{Key, Path};
use crate::world::*;
use grovedb::operations::proof::GroveDBProof;
use grovedb::operations::proof::util::ProvedPathKeyValue;
use grovedb::query_result_type::PathKeyOptionalElementTrio;
use grovedb::{Element, GroveDb, PathQuery, SizedQuery};
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_query::proofs::{Node, Op};
use grovedb_query::Query;
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

pub struct Scene {
    pub w: Merk,
    pub path: Path,
    pub q: Query,
    pub limit: Option<u16>,
    pub a: Answer,
    /// the query has a well defined answer
    pub defined: bool,
}
pub fn at_most<'a>(m: &'a Merk, path: &[Key]) -> &'a Merk {
    let mut m = m;
    for k in path {
        match m.find(k).and_then(|i| m.nodes[i].below.merk()) {
            Some(s) => m = s,
            None => break,
        }
    }
    m
}
impl Scene {
    pub fn of(w: Merk, path: Path, q: Query, limit: Option<u16>) -> Scene {
        let a = answer(&w, &path, &q, limit);
        let defined = !a.errors.iter().any(|e| e.contains("width"));
        Scene { w, path, q, limit, a, defined }
    }
    pub fn random(rng: &mut Rng) -> Scene {
        let w = world(rng);
        let path = path_for(rng, &w);
        let q = query_for(rng, at_most(&w, &path), 2);
        let limit = limit_for(rng);
        Scene::of(w, path, q, limit)
    }
    pub fn pq(&self) -> PathQuery {
        PathQuery::new(self.path.clone(), SizedQuery::new(self.q.clone(), self.limit, None))
    }
    pub fn rows(&self, hidden: bool) -> Vec<(Path, Key, Vec<u8>)> {
        self.a.rows.iter().filter(|r| hidden || !r.hidden).map(|r| (r.path.clone(), r.key.clone(), r.value.clone())).collect()
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.w.show(&mut o, 2);
        if o.len() > 4000 {
            o.truncate(4000);
        }
        let p: Vec<String> = self.path.iter().map(|k| hex(k)).collect();
        format!("database:\n{o}query at {p:?} limit {:?}: {}", self.limit, self.q)
    }
    /// what the query asks below this path
    pub fn level(&self, path: &[Key]) -> Option<Level<'_>> {
        let mut l = Level::of(&self.path, &self.q);
        for k in path {
            if !l.takes(k) {
                return None;
            }
            l = l.below(k)?;
        }
        Some(l)
    }
}
type Row3 = (Path, Key, Vec<u8>);
pub fn trios(v: &[PathKeyOptionalElementTrio]) -> Vec<Row3> {
    v.iter().map(|(p, k, e)| (p.clone(), k.clone(), e.as_ref().map(ser).unwrap_or_else(|| b"none".to_vec()))).collect()
}
pub fn raws(v: &[ProvedPathKeyValue]) -> Vec<Row3> {
    v.iter().map(|r| (r.path.clone(), r.key.clone(), r.value.clone())).collect()
}
pub fn show_rows(v: &[Row3]) -> String {
    let mut o = String::new();
    for (p, k, e) in v.iter().take(60) {
        let e = match Element::deserialize(e, GroveVersion::latest()) {
            Ok(e) => format!("{e}"),
            Err(_) => format!("bytes {}", hex(e)),
        };
        let p: Vec<String> = p.iter().map(|k| hex(k)).collect();
        o += &format!("  {} / {}: {}\n", p.join(" "), hex(k), e);
    }
    o
}

// ---- making proofs that lie -------------------------------------------------

/// a value that claims something else
fn forged(rng: &mut Rng, e: &Entry) -> Vec<u8> {
    let other = |rng: &mut Rng| -> Element {
        let k = rng.bool().then(|| random_key(rng));
        match rng.below(16) {
            0 => Element::Tree(None, None),
            1 => Element::Tree(Some(random_key(rng)), None),
            2 => Element::SumTree(k, rng.edge_i64(), None),
            3 => Element::BigSumTree(k, rng.edge_i64() as i128, None),
            4 => Element::CountTree(k, rng.edge_u64(), None),
            5 => Element::CountSumTree(k, rng.edge_u64(), rng.edge_i64(), None),
            6 => Element::ProvableCountTree(k, rng.edge_u64(), None),
            7 => Element::ProvableCountSumTree(k, rng.edge_u64(), rng.edge_i64(), None),
            8 => Element::MmrTree(rng.below(12), None),
            9 => Element::BulkAppendTree(rng.below(12), 1 + rng.below(3) as u8, None),
            10 => Element::DenseAppendOnlyFixedSizeTree(rng.below(7) as u16, 3, None),
            11 => Element::CommitmentTree(rng.below(12), 1 + rng.below(3) as u8, None),
            12 => Element::Reference(grovedb_element::reference_path::ReferencePathType::AbsolutePathReference(vec![vec![b'a']]), None, None),
            _ => item_elem(rng),
        }
    };
    match rng.below(8) {
        0 | 1 => {
            // the same kind, slightly wrong
            let mut v = e.value.clone();
            if !v.is_empty() {
                let i = rng.usize(v.len());
                v[i] = v[i].wrapping_add(1 + rng.below(3) as u8);
            }
            v
        }
        2 => e.target.clone().unwrap_or_else(|| e.value.clone()),
        _ => ser(&other(rng)),
    }
}
/// a node for this place; most have the right hash
pub fn lie(rng: &mut Rng, m: &Merk, i: usize) -> Face {
    let e = &m.nodes[i];
    let k = e.key.clone();
    let ft = |rng: &mut Rng| if rng.chance(1, 4) { ops::feature(rng) } else { m.feature(i) };
    let v = if rng.chance(1, 4) { e.value.clone() } else { forged(rng, e) };
    let count = if rng.chance(3, 4) { e.count } else { rng.below(9) };
    let provable = m.provable() != rng.chance(1, 8);
    Face::Other(match rng.below(12) {
        0..=2 if provable => Node::KVValueHashFeatureType(k, v, e.vh, ft(rng)),
        0..=2 => Node::KVValueHash(k, v, e.vh),
        3 => Node::KVValueHashFeatureType(k, v, e.vh, ft(rng)),
        4 => Node::KVValueHashFeatureTypeWithChildHash(k, v, e.vh, ft(rng), if rng.bool() { e.below.root() } else { rng.arr32() }),
        5 => {
            // a child hash that was never one: the first half of a combined hash must be the value's
            let mut vh = e.vh;
            if rng.chance(1, 6) {
                vh = rng.arr32();
            }
            Node::KVValueHashFeatureTypeWithChildHash(k, v, vh, ft(rng), value_hash(&e.value))
        }
        6 => {
            let h = *rng.pick(&[value_hash(&e.value), value_hash(&v), e.below.root(), NULL]);
            if provable { Node::KVRefValueHashCount(k, v, h, count) } else { Node::KVRefValueHash(k, v, h) }
        }
        7 if provable => Node::KVCount(k, v, count),
        7 => Node::KV(k, v),
        8 if provable => Node::KVDigestCount(k, e.vh, count),
        8 => Node::KVDigest(k, e.vh),
        9 if provable => Node::KVHashCount(kv_digest(&e.key, &e.vh), count),
        9 => Node::KVHash(kv_digest(&e.key, &e.vh)),
        10 => {
            // under another name
            let k2 = random_key(rng);
            match rng.below(3) {
                0 => Node::KVDigest(k2, e.vh),
                1 => Node::KVValueHash(k2, e.value.clone(), e.vh),
                _ => Node::KV(k2, e.value.clone()),
            }
        }
        _ => Node::Hash(e.hash),
    })
}
fn reface(rng: &mut Rng, m: &Merk, l: &mut Layer, what: u64) {
    let n = m.nodes.len();
    if n == 0 || l.faces.len() != n {
        return;
    }
    let mut faces = l.faces.clone();
    let ltr = l.ltr != rng.chance(1, 10);
    for _ in 0..1 + rng.usize(3) {
        let shown: Vec<usize> = (0..n).filter(|i| !matches!(faces[*i], Face::Cut | Face::Bare)).collect();
        let i = if shown.is_empty() || rng.chance(1, 3) { rng.usize(n) } else { *rng.pick(&shown) };
        let f = match what {
            0 => lie(rng, m, i),
            _ => match rng.below(8) {
                0 | 1 => Face::Cut,
                2 => Face::Bare,
                3 | 4 => Face::Digest,
                5 => Face::Value,
                6 => Face::Resolved,
                _ => lie(rng, m, i),
            },
        };
        faces[i] = f;
    }
    if what == 2 {
        // abridge whole subtrees
        let i = rng.usize(n);
        fn cut(m: &Merk, i: usize, faces: &mut [Face]) {
            faces[i] = Face::Cut;
            for c in [m.nodes[i].left, m.nodes[i].right].into_iter().flatten() {
                cut(m, c, faces);
            }
        }
        cut(m, i, &mut faces);
    }
    close(m, &mut faces);
    let ops = Layer::merk(m, faces.clone(), ltr);
    l.part = ops.part;
    l.faces = faces;
    l.ltr = ltr;
}
fn flip(o: &Op) -> Op {
    match o.clone() {
        Op::Push(n) => Op::PushInverted(n),
        Op::PushInverted(n) => Op::Push(n),
        Op::Parent => Op::ParentInverted,
        Op::ParentInverted => Op::Parent,
        Op::Child => Op::ChildInverted,
        Op::ChildInverted => Op::Child,
    }
}
fn some_node(rng: &mut Rng, m: Option<&Merk>) -> Node {
    match m {
        Some(m) if !m.nodes.is_empty() && rng.chance(3, 4) => {
            let i = rng.usize(m.nodes.len());
            let f = if rng.bool() { lie(rng, m, i) } else { [Face::Cut, Face::Bare, Face::Digest, Face::Value, Face::Resolved][rng.usize(5)].clone() };
            face(m, i, &f)
        }
        _ => match rng.below(3) {
            0 => Node::KV(random_key(rng), ser(&item_elem(rng))),
            1 => Node::Hash(NULL),
            _ => ops::node(rng),
        },
    }
}
/// the same tree, told in another order of operations
fn retell(rng: &mut Rng, m: &Merk, i: usize, faces: &[Face], ltr: bool, out: &mut Vec<Op>) {
    let e = &m.nodes[i];
    if faces[i] == Face::Cut {
        out.push(if ltr != rng.chance(1, 12) { Op::Push(Node::Hash(e.hash)) } else { Op::PushInverted(Node::Hash(e.hash)) });
        return;
    }
    let d = if rng.chance(1, 5) { !ltr } else { ltr };
    let me = face(m, i, &faces[i]);
    let (first, second) = if d { (e.left, e.right) } else { (e.right, e.left) };
    // attach the first child before or after the node is pushed
    let late = rng.chance(1, 6);
    if !late && let Some(c) = first {
        retell(rng, m, c, faces, ltr, out);
    }
    out.push(if d { Op::Push(me) } else { Op::PushInverted(me) });
    match (late, first) {
        (false, Some(_)) => out.push(if d { Op::Parent } else { Op::ParentInverted }),
        (true, Some(c)) => {
            retell(rng, m, c, faces, ltr, out);
            out.push(if d { Op::ChildInverted } else { Op::Child });
        }
        _ => {}
    }
    if let Some(c) = second {
        retell(rng, m, c, faces, ltr, out);
        out.push(if d { Op::Child } else { Op::ChildInverted });
    }
}
fn fiddle(rng: &mut Rng, m: Option<&Merk>, ops: &mut Vec<Op>) {
    if ops.is_empty() {
        ops.push(Op::Push(some_node(rng, m)));
        return;
    }
    for _ in 0..1 + rng.usize(2) {
        let i = rng.usize(ops.len());
        match rng.below(8) {
            0 => {
                let j = rng.usize(ops.len());
                ops.swap(i, j);
            }
            1 => {
                ops.remove(i);
            }
            2 => {
                let o = ops[i].clone();
                ops.insert(i, o);
            }
            3 => ops[i] = flip(&ops[i]),
            4 => {
                for o in ops.iter_mut() {
                    *o = flip(o);
                }
            }
            5 => ops.insert(i, [Op::Parent, Op::Child, Op::ParentInverted, Op::ChildInverted][rng.usize(4)].clone()),
            _ => {
                let n = some_node(rng, m);
                ops[i] = if matches!(ops[i], Op::PushInverted(_)) { Op::PushInverted(n) } else { Op::Push(n) };
            }
        }
        if ops.is_empty() {
            return;
        }
    }
}
/// nodes attached where the root hash does not reach
fn hang(rng: &mut Rng, m: Option<&Merk>, ops: &mut Vec<Op>) {
    let stubs: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Push(Node::Hash(_)) | Op::PushInverted(Node::Hash(_)))).collect();
    if stubs.is_empty() {
        return;
    }
    let i = *rng.pick(&stubs);
    let inv = matches!(ops[i], Op::PushInverted(_));
    let n = some_node(rng, m);
    let push = if inv { Op::PushInverted(n) } else { Op::Push(n) };
    if rng.bool() {
        // as its second child
        ops.insert(i + 1, push);
        ops.insert(i + 2, if inv { Op::ChildInverted } else { Op::Child });
    } else {
        // as its first
        ops.insert(i, push);
        ops.insert(i + 2, if inv { Op::ParentInverted } else { Op::Parent });
    }
}
fn warp_positions<P: Copy + Into<u64> + TryFrom<u64>, V: Clone>(rng: &mut Rng, v: &mut Vec<(P, V)>) {
    if v.is_empty() {
        return;
    }
    let i = rng.usize(v.len());
    match rng.below(5) {
        0 => {
            let j = rng.usize(v.len());
            v.swap(i, j);
        }
        1 => {
            v.remove(i);
        }
        2 => {
            let x = v[i].clone();
            v.push(x);
        }
        3 => {
            let p: u64 = v[i].0.into();
            if let Ok(p) = P::try_from(p.wrapping_add(rng.below(3)).wrapping_sub(1)) {
                v[i].0 = p;
            }
        }
        _ => {
            let j = rng.usize(v.len());
            let (a, b) = (v[i].1.clone(), v[j].1.clone());
            (v[i].1, v[j].1) = (b, a);
        }
    }
}
fn warp_mmr(rng: &mut Rng, size: &mut u64, leaves: &mut Vec<(u64, Vec<u8>)>, items: &mut Vec<H>) {
    match rng.below(6) {
        0 => *size = size.wrapping_add(rng.below(5)).wrapping_sub(2),
        1 | 2 => warp_positions(rng, leaves),
        3 if !leaves.is_empty() => {
            let i = rng.usize(leaves.len());
            leaves[i].1.push(1);
        }
        4 if !items.is_empty() => {
            let i = rng.usize(items.len());
            match rng.below(3) {
                0 => items[i] = rng.arr32(),
                1 => {
                    items.remove(i);
                }
                _ => {
                    let x = items[i];
                    items.push(x);
                }
            }
        }
        _ => {
            // a leaf told as a hash, a hash told as a leaf
            if !leaves.is_empty() {
                let i = rng.usize(leaves.len());
                let l = leaves.remove(i);
                let at = rng.usize(items.len() + 1);
                items.insert(at, crate::models::leaf(&l.1));
            } else if !items.is_empty() {
                let h = items.remove(0);
                leaves.push((rng.below(5), h.to_vec()));
            }
        }
    }
}
fn warp_dense(rng: &mut Rng, p: &mut grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof) {
    match rng.below(6) {
        0 => warp_positions(rng, &mut p.entries),
        1 => warp_positions(rng, &mut p.node_value_hashes),
        2 => warp_positions(rng, &mut p.node_hashes),
        3 if !p.entries.is_empty() => {
            let i = rng.usize(p.entries.len());
            p.entries[i].1.push(0);
        }
        4 if !p.entries.is_empty() => {
            // a value told as its hash
            let i = rng.usize(p.entries.len());
            let (at, v) = p.entries.remove(i);
            p.node_value_hashes.push((at, crate::models::b3(&[&v])));
            p.node_value_hashes.sort();
        }
        _ => {
            let h = rng.arr32();
            p.node_hashes.push((rng.below(7) as u16, h));
        }
    }
}
fn warp_mtp(rng: &mut Rng, p: &grovedb_merkle_mountain_range::MmrTreeProof) -> grovedb_merkle_mountain_range::MmrTreeProof {
    let (mut s, mut l, mut i) = (p.mmr_size(), p.leaves().to_vec(), p.proof_items().to_vec());
    warp_mmr(rng, &mut s, &mut l, &mut i);
    grovedb_merkle_mountain_range::MmrTreeProof::new(s, l, i)
}
fn warp_bulk(rng: &mut Rng, p: &mut grovedb_bulk_append_tree::BulkAppendTreeProof) {
    if rng.bool() {
        p.chunk_proof = warp_mtp(rng, &p.chunk_proof);
    } else {
        warp_dense(rng, &mut p.buffer_proof);
    }
}
/// one change somewhere in a proof; tells which
pub fn tamper(rng: &mut Rng, s: &Scene, root: &mut Layer) -> &'static str {
    let mut paths = vec![];
    root.paths(vec![], &mut paths);
    let p = rng.pick(&paths).clone();
    let m = s.w.at(&p);
    let mut donors = vec![];
    let all = full(&s.w);
    all.paths(vec![], &mut donors);
    let Some(l) = root.get(&p) else { return "none" };
    if rng.chance(1, 7) {
        // layers that are not there, or not the right ones
        let keys: Vec<Key> = l.lower.keys().cloned().collect();
        return match rng.below(5) {
            0 | 1 if !keys.is_empty() => {
                let k = rng.pick(&keys).clone();
                l.lower.remove(&k);
                "dropped layer"
            }
            2 if keys.len() > 1 => {
                let (a, b) = (rng.pick(&keys).clone(), rng.pick(&keys).clone());
                let (x, y) = (l.lower.get(&a).cloned(), l.lower.get(&b).cloned());
                if let (Some(x), Some(y)) = (x, y) {
                    l.lower.insert(a, y);
                    l.lower.insert(b, x);
                }
                "swapped layers"
            }
            _ => {
                let k = match m {
                    Some(m) if !m.nodes.is_empty() && rng.chance(4, 5) => rng.pick(&m.nodes).key.clone(),
                    _ => random_key(rng),
                };
                let mut d = all;
                let own: Path = p.iter().cloned().chain([k.clone()]).collect();
                let from = if donors.contains(&own) && rng.chance(2, 3) { own } else { rng.pick(&donors).clone() };
                if let Some(d) = d.get(&from) {
                    let mut d = d.clone();
                    if rng.chance(1, 3) {
                        d.lower.clear();
                    }
                    l.lower.insert(k, d);
                }
                "added layer"
            }
        };
    }
    if rng.chance(1, 25) {
        let b = match l.bytes() {
            grovedb::operations::proof::ProofBytes::Merk(b)
            | grovedb::operations::proof::ProofBytes::MMR(b)
            | grovedb::operations::proof::ProofBytes::BulkAppendTree(b)
            | grovedb::operations::proof::ProofBytes::DenseTree(b)
            | grovedb::operations::proof::ProofBytes::CommitmentTree(b) => b,
        };
        l.part = Part::Raw(rng.below(5) as u8, b);
        return "another kind of layer";
    }
    match &mut l.part {
        Part::Merk(ops) => {
            if ops.len() > 4000 {
                return "none";
            }
            match (rng.below(12), m) {
                (0..=3, Some(m)) => {
                    reface(rng, m, l, 0);
                    "told another value"
                }
                (4 | 5, Some(m)) => {
                    reface(rng, m, l, 1);
                    "shown otherwise"
                }
                (6, Some(m)) => {
                    reface(rng, m, l, 2);
                    "abridged"
                }
                (7, Some(m)) if m.root.is_some() && l.faces.len() == m.nodes.len() => {
                    let mut out = vec![];
                    if let Some(r) = m.root {
                        retell(rng, m, r, &l.faces, l.ltr, &mut out);
                    }
                    l.part = Part::Merk(out);
                    "retold"
                }
                (8 | 9, _) => {
                    hang(rng, m, ops);
                    "hung below a hash"
                }
                _ => {
                    fiddle(rng, m, ops);
                    "operations changed"
                }
            }
        }
        Part::Mmr(size, leaves, items) => {
            warp_mmr(rng, size, leaves, items);
            "mountain range changed"
        }
        Part::Bulk(p) => {
            warp_bulk(rng, p);
            "bulk tree changed"
        }
        Part::Commit(h, p) => {
            if rng.chance(1, 6) {
                h[rng.usize(32)] ^= 1;
            } else {
                warp_bulk(rng, p);
            }
            "commitment tree changed"
        }
        Part::Dense(p) => {
            warp_dense(rng, p);
            "dense tree changed"
        }
        Part::Raw(_, b) => {
            b.push(0);
            "raw layer changed"
        }
    }
}
/// a query that differs a little
fn neighbour(rng: &mut Rng, s: &Scene) -> (Path, Query, Option<u16>) {
    let (mut p, mut q, mut l) = (s.path.clone(), s.q.clone(), s.limit);
    match rng.below(9) {
        0 => q.left_to_right = !q.left_to_right,
        1 => l = None,
        2 => l = Some(1 + rng.below(8) as u16),
        3 if q.items.len() > 1 => {
            let i = rng.usize(q.items.len());
            q.items.remove(i);
        }
        4 => q.insert_item(item_for(rng, at_most(&s.w, &s.path))),
        5 => q.default_subquery_branch = Default::default(),
        6 => q.conditional_subquery_branches = None,
        7 => {
            p = path_for(rng, &s.w);
        }
        _ => {
            p = path_for(rng, &s.w);
            q = query_for(rng, at_most(&s.w, &p), 2);
        }
    }
    (p, q, l)
}
/// bytes that somebody offers as a proof, as layers when they are still well formed
pub fn offer(rng: &mut Rng, s: &Scene, count: &mut BTreeMap<&'static str, u64>) -> (Vec<u8>, Option<Layer>) {
    let mut note = |k| *count.entry(k).or_default() += 1;
    let mut l = match (&s.a.proof, rng.below(8)) {
        (_, 0) => {
            note("starts from the whole database");
            full(&s.w)
        }
        (Some(p), 1..=6) => p.clone(),
        _ => {
            note("starts from another query");
            let (p, q, lim) = neighbour(rng, s);
            answer(&s.w, &p, &q, lim).proof.unwrap_or_else(|| full(&s.w))
        }
    };
    for _ in 0..rng.below(4) {
        note(tamper(rng, s, &mut l));
    }
    let mut bytes = ops::pack(&l.v1());
    if rng.chance(1, 10) && !bytes.is_empty() {
        note("bytes changed");
        for _ in 0..1 + rng.usize(2) {
            let i = rng.usize(bytes.len());
            match rng.below(4) {
                0 => bytes.truncate(i),
                1 => {
                    let x = rng.u64() as u8;
                    bytes.insert(i, x);
                }
                _ => bytes[i] ^= 1 << rng.below(8),
            }
            if bytes.is_empty() {
                break;
            }
        }
        return (bytes, None);
    }
    (bytes, Some(l))
}

// ---- P01 -------------------------------------------------------------------

/// Layers below keys the query does not enter or return
fn unasked(s: &Scene, l: &Layer, at: &mut Path) -> Option<Path> {
    let level = s.level(at)?;
    for (k, low) in &l.lower {
        at.push(k.clone());
        if !level.takes(k) {
            return Some(at.clone());
        }
        if let Some(p) = unasked(s, low, at) {
            return Some(p);
        }
        at.pop();
    }
    None
}
fn compare(c: &mut Case, s: &Scene, hidden: bool, what: &str, got: &[Row3], want: &[Row3]) -> Res {
    if got == want {
        return Ok(());
    }
    let sig = if unbound_claim(s, hidden, got, want) { "append-only-tree-claimed-without-its-layer" } else { what };
    c.fail(sig, format!("{what}\n{}\nreturned:\n{}expected:\n{}", s.show(), show_rows(got), show_rows(want)))
}
/// the difference is only in append-only trees claimed for what a key holds (a known finding of P01)
fn unbound_claim(s: &Scene, hidden: bool, got: &[Row3], want: &[Row3]) -> bool {
    // append-only trees returned for themselves are not bound to their value hash
    let mut truth = vec![];
    for g in got {
        let claim = matches!(
            Element::deserialize(&g.2, GroveVersion::latest()),
            Ok(Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::CommitmentTree(..) | Element::DenseAppendOnlyFixedSizeTree(..))
        );
        match s.w.entry(&g.0, &g.1) {
            Some(e) if claim => {
                let v = e.target.as_ref().unwrap_or(&e.value);
                if hidden || !matches!(e.elem, Element::Tree(None, _)) {
                    truth.push((g.0.clone(), g.1.clone(), v.clone()));
                }
            }
            _ => truth.push(g.clone()),
        }
    }
    truth == want
}
fn p01_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let s = Scene::random(&mut c.rng);
    if !s.defined {
        c.count("queries with positions of the wrong width", 1);
        return Ok(());
    }
    let root = s.w.root_hash();
    let pq = s.pq();
    if c.wants_sample() {
        c.sample(s.show());
    }
    c.count("rows in true answers", s.a.rows.len() as u64);
    // a genuine proof is accepted
    let mut tried = vec![];
    if let Some(l) = &s.a.proof {
        for (name, p) in [("V1", Some(l.v1())), ("V0", l.v0(true)), ("older V0", l.older().v0(true))] {
            let Some(p) = p else { continue };
            let b = ops::pack(&p);
            for (strict, empty) in [(true, false), (false, true), (true, true), (false, false)] {
                let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: strict, include_empty_trees_in_result: empty };
                match GroveDb::verify_query_with_options(&b, &pq, o, v) {
                    Ok((h, rows)) => {
                        let (got, want) = (trios(&rows), s.rows(empty));
                        if h != root {
                            return c.fail("genuine-proof-other-root", format!("{name}: root {} expected {}\n{}\n{p}", hex(&h), hex(&root), s.show()));
                        }
                        c.count("genuine proofs accepted", 1);
                        compare(c, &s, empty, &format!("genuine-{}-proof-other-result", name.replace(' ', "-")), &got, &want)?;
                    }
                    Err(e) => {
                        return c.fail("genuine-proof-refused", format!("{name} proof refused: {e}\n{}\n{p}\nexpected rows:\n{}", s.show(), show_rows(&s.rows(empty))));
                    }
                }
            }
            c.eval(fnv(&b), !s.a.rows.is_empty());
            tried.push(b);
        }
    } else {
        c.count("queries without an honest proof", 1);
    }
    let mut kinds = BTreeMap::new();
    for _ in 0..24 {
        let (b, l) = offer(&mut c.rng, &s, &mut kinds);
        let empty = c.rng.bool();
        let strict = c.rng.bool();
        let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: strict, include_empty_trees_in_result: empty };
        let got = GroveDb::verify_query_with_options(&b, &pq, o, v);
        let other = !tried.contains(&b);
        match got {
            Err(_) => c.count("offered proofs refused", 1),
            Ok((h, _)) if h != root => c.count("offered proofs with another root hash", 1),
            Ok((_, rows)) => {
                // only the version 1 format carries the guarantee
                if !matches!(ops::unpack(&b), Ok((GroveDBProof::V1(_), _))) {
                    continue;
                }
                c.count("offered proofs accepted", 1);
                if other {
                    c.count("altered proofs accepted with the true root", 1);
                }
                let (got, want) = (trios(&rows), s.rows(empty));
                if got != want {
                    c.note(format!("accepted proof: {}", ops::unpack(&b).map(|(p, _)| format!("{p}")).unwrap_or_default()));
                }
                compare(c, &s, empty, "forged-result-accepted", &got, &want)?;
                c.eval(fnv(&b), other && !want.is_empty());
                if strict && let Some(l) = &l && let Some(p) = unasked(&s, l, &mut vec![]) {
                    return c.fail("unasked-layer-accepted", format!("strict verification accepted a layer at {:?}\n{}", p.iter().map(|k| hex(k)).collect::<Vec<_>>(), s.show()));
                }
            }
        }
    }
    for (k, n) in kinds {
        c.count(k, n);
    }
    Ok(())
}
pub fn p01(ctx: &Ctx) {
    ctx.level("monitored executions of the real verifier against a model database; proofs made by a model prover and by an adversary that knows every hash");
    ctx.rule("a genuine proof is accepted with the state's root hash and the true result; any accepted V1 proof with that root hash yields exactly the true rows in order; strict verification refuses layers nobody asked for");
    ctx.assume("BLAKE3 collisions are not found; short values are not chosen so that an item reads as a node (63-byte collisions between item and combined hashes)");
    ctx.assume("the result-binding guarantee is claimed for the current format (V1); V0 proofs are checked for completeness only");
    ctx.cases("forge", ctx.n(40_000, 3_000_000), p01_case);
    ctx.require("genuine proofs accepted", 500);
    ctx.require("altered proofs accepted with the true root", 200);
    ctx.require("offered proofs refused", 500);
}

// ---- P03 -------------------------------------------------------------------

fn opts(absent: bool, strict: bool, empty: bool) -> VerifyOptions {
    VerifyOptions { absence_proofs_for_non_existing_searched_keys: absent, verify_proof_succinctness: strict, include_empty_trees_in_result: empty }
}
/// what the database holds at a path, as a reader sees it
fn held(w: &Merk, path: &[Key], k: &Key) -> Option<Vec<u8>> {
    if let Some(m) = w.at(path) {
        let e = &m.nodes[m.find(k)?];
        return match &e.target {
            Some(t) => Some(t.clone()),
            None => Some(e.value.clone()),
        };
    }
    let (tree, up) = path.split_last()?;
    let e = w.entry(up, tree)?;
    let (all, wide): (&Vec<Vec<u8>>, usize) = match &e.below {
        Below::Mmr(r) => (&r.leaves, 8),
        Below::Bulk(v, _) | Below::Commit(v, ..) => (v, 8),
        Below::Dense(v, _) => (v, 2),
        _ => return None,
    };
    if k.len() != wide {
        return None;
    }
    let mut b = [0; 8];
    b[8 - wide..].copy_from_slice(k);
    all.get(usize::try_from(u64::from_be_bytes(b)).ok()?).map(|v| ser(&Element::new_item(v.clone())))
}
/// raw values as the elements they stand for (trailing bytes say nothing)
fn read(mut rows: Vec<Row3>) -> Vec<Row3> {
    for r in &mut rows {
        if let Ok(e) = Element::deserialize(&r.2, GroveVersion::latest()) {
            r.2 = ser(&e);
        }
    }
    rows
}
type Outcome = Result<(H, Vec<Row3>), ()>;
fn p03_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let mut s = Scene::random(&mut c.rng);
    if c.rng.chance(1, 3) {
        // keys only, so that absence can be asked for
        s.q.items.retain(|i| matches!(i, grovedb_query::QueryItem::Key(_)));
        if s.q.items.is_empty() {
            let k = s.w.nodes.first().map(|e| e.key.clone()).unwrap_or_default();
            s.q.insert_key(k);
        }
        let l = if c.rng.bool() { Some(40) } else { s.limit };
        s = Scene::of(s.w, s.path, s.q, l);
    }
    if !s.defined {
        return Ok(());
    }
    let pq = s.pq();
    let root = s.w.root_hash();
    let mut kinds = BTreeMap::new();
    for round in 0..8 {
        let b = match &s.a.proof {
            Some(l) if round == 0 => ops::pack(&l.v1()),
            Some(l) if round == 1 && l.v0(true).is_some() => l.v0(true).map(|p| ops::pack(&p)).unwrap_or_default(),
            Some(l) if round == 2 => {
                let mut l = l.clone();
                tamper(&mut c.rng, &s, &mut l);
                l.v0(c.rng.bool()).map(|p| ops::pack(&p)).unwrap_or_else(|| ops::pack(&l.v1()))
            }
            _ => offer(&mut c.rng, &s, &mut kinds).0,
        };
        let parsed = ops::unpack(&b).ok().map(|p| p.0);
        let v1 = matches!(parsed, Some(GroveDBProof::V1(_)));
        c.count("proofs looked at", 1);
        let t = |r: Result<(H, Vec<PathKeyOptionalElementTrio>), grovedb::Error>| -> Outcome { r.map(|(h, r)| (h, trios(&r))).map_err(|_| ()) };
        let with = |absent, strict, empty| t(GroveDb::verify_query_with_options(&b, &pq, opts(absent, strict, empty), v));
        let raw: Outcome = GroveDb::verify_query_raw(&b, &pq, v).map(|(h, r)| (h, read(raws(&r)))).map_err(|_| ());
        let se = with(false, true, true);
        let sx = with(false, true, false);
        let le = with(false, false, true);
        let lx = with(false, false, false);
        let show = |what: &str, x: &Outcome, y: &Outcome| {
            let f = |o: &Outcome| match o {
                Ok((h, r)) => format!("root {}\n{}", hex(h), show_rows(r)),
                Err(_) => "refused".into(),
            };
            format!("{what}\n{}\none says {}\nother says {}\n{}", s.show(), f(x), f(y), parsed.as_ref().map(|p| format!("{p}")).unwrap_or_default())
        };
        if le.is_ok() {
            c.count("proofs accepted", 1);
            c.eval(fnv(&b), matches!(&le, Ok((_, r)) if !r.is_empty()));
        }
        // the result set does not depend on the way of asking
        c.ensure(raw == le, "raw-and-element-differ", || show("verify_query_raw, lenient options with empty trees", &raw, &le))?;
        for (strict, lenient) in [(&se, &le), (&sx, &lx)] {
            c.ensure(strict.is_err() || strict == lenient, "strict-and-subset-differ", || show("strict, lenient", strict, lenient))?;
        }
        let without = |o: &Outcome| -> Outcome {
            o.clone().map(|(h, mut r)| {
                r.retain(|x| !matches!(Element::deserialize(&x.2, v), Ok(Element::Tree(None, _))));
                (h, r)
            })
        };
        c.ensure(without(&le) == lx, "empty-trees-change-more-than-themselves", || show("with empty trees, without", &le, &lx))?;
        c.ensure(without(&se) == sx, "empty-trees-change-strictness", || show("with empty trees, without", &se, &sx))?;
        // named entry points are the options they document
        let pairs = [
            ("verify_query", t(GroveDb::verify_query(&b, &pq, v)), &sx),
            ("verify_subset_query", t(GroveDb::verify_subset_query(&b, &pq, v)), &lx),
        ];
        for (n, got, want) in &pairs {
            c.ensure(got == *want, "entry-point-differs", || show(n, got, want))?;
        }
        let absent = with(true, true, false);
        let absent_lenient = with(true, false, false);
        for (n, got, want) in [
            ("verify_query_with_absence_proof", t(GroveDb::verify_query_with_absence_proof(&b, &pq, v)), &absent),
            ("verify_subset_query_with_absence_proof", t(GroveDb::verify_subset_query_with_absence_proof(&b, &pq, v)), &absent_lenient),
        ] {
            c.ensure(got == *want, "entry-point-differs", || show(n, &got, want))?;
        }
        if let Some(p) = &parsed {
            let m = [
                ("verify", t(p.verify(&pq, v)), &sx),
                ("verify_subset", t(p.verify_subset(&pq, v)), &lx),
                ("verify_with_options", t(p.verify_with_options(&pq, opts(false, true, true), v)), &se),
                ("verify_raw", p.verify_raw(&pq, v).map(|(h, r)| (h, read(raws(&r)))).map_err(|_| ()), &le),
            ];
            for (n, got, want) in &m {
                c.ensure(got == *want, "decoded-and-bytes-differ", || show(n, got, want))?;
            }
            if s.limit.is_some() {
                for (n, got, want) in [
                    ("verify_with_absence_proof", t(p.verify_with_absence_proof(&pq, v)), &absent),
                    ("verify_subset_with_absence_proof", t(p.verify_subset_with_absence_proof(&pq, v)), &absent_lenient),
                ] {
                    c.ensure(got == *want, "decoded-and-bytes-differ", || show(n, &got, want))?;
                }
            }
        }
        // absence
        let keys = s.limit.and_then(|l| pq.terminal_keys(l as usize, v).ok());
        match (&absent_lenient, &keys, &lx) {
            (Ok(_), None, _) => {
                return c.fail("absence-of-no-finite-set", show("absence accepted without a limit or a finite set of keys", &absent_lenient, &lx));
            }
            (Ok((h, rows)), Some(keys), Ok((h2, found))) => {
                c.count("absence proofs accepted", 1);
                let want: Vec<Row3> = keys
                    .iter()
                    .map(|(p, k)| {
                        let e = found.iter().rev().find(|r| r.0 == *p && r.1 == *k);
                        (p.clone(), k.clone(), e.map(|e| e.2.clone()).unwrap_or_else(|| b"none".to_vec()))
                    })
                    .collect();
                c.ensure(h == h2 && rows.len() == keys.len(), "absence-other-keys", || show("absence, found", &absent_lenient, &lx))?;
                c.ensure(*rows == want, "absence-differs-from-results", || show("absence, found", &absent_lenient, &lx))?;
                // and they are the truth
                if *h == root && v1 {
                    for r in rows {
                        let truth = held(&s.w, &r.0, &r.1).filter(|t| !matches!(Element::deserialize(t, v), Ok(Element::Tree(None, _)))).unwrap_or_else(|| b"none".to_vec());
                        let claim = matches!(Element::deserialize(&r.2, v), Ok(Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::CommitmentTree(..) | Element::DenseAppendOnlyFixedSizeTree(..)));
                        c.count(if r.2 == b"none" { "absences checked" } else { "presences checked" }, 1);
                        if truth != r.2 && !claim {
                            return c.fail("absence-is-not-the-truth", format!("{:?} should be\n{}\n{}", r.1, show_rows(&[(r.0.clone(), r.1.clone(), truth)]), show("absence", &absent_lenient, &lx)));
                        }
                    }
                }
                c.eval(fnv(&b), rows.iter().any(|r| r.2 == b"none") && rows.iter().any(|r| r.2 != b"none"));
            }
            (Err(_), Some(_), Ok(_)) => {
                return c.fail("absence-refused", show("absence refused though the proof is accepted", &absent_lenient, &lx));
            }
            _ => {}
        }
        if s.limit.is_none() {
            c.ensure(absent.is_err() && absent_lenient.is_err(), "absence-without-limit", || show("no limit", &absent, &absent_lenient))?;
        }
        // offsets are not provable
        let mut with_offset = pq.clone();
        with_offset.query.offset = Some(c.rng.below(3) as u16);
        c.ensure(GroveDb::verify_query(&b, &with_offset, v).is_err(), "offset-accepted", || "a query with an offset was verified".into())?;
        // parent information
        for (strict, r, want) in [
            (true, GroveDb::verify_query_get_parent_tree_info(&b, &pq, v), &sx),
            (false, GroveDb::verify_subset_query_get_parent_tree_info(&b, &pq, v), &lx),
        ] {
            let w = GroveDb::verify_query_get_parent_tree_info_with_options(&b, &pq, opts(false, strict, false), v);
            let same = match (&r, &w) {
                (Ok(a), Ok(b)) => a.0 == b.0 && a.1 == b.1 && a.2 == b.2,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            c.ensure(same, "entry-point-differs", || format!("parent info {r:?} and {w:?}"))?;
            match r {
                Ok((h, info, rows)) => {
                    let got: Outcome = Ok((h, trios(&rows)));
                    c.ensure(got == *want, "parent-info-other-result", || show("parent info, plain", &got, want))?;
                    if h == root && v1 {
                        c.count("parent infos checked", 1);
                        let e = s.path.split_last().and_then(|(k, up)| s.w.entry(up, k));
                        let truth = e.and_then(|e| merk_feature(&e.elem));
                        c.ensure(truth == Some(info), "parent-info-wrong", || format!("{info:?} instead of {truth:?}\n{}", show("parent info", &got, want)))?;
                    }
                }
                Err(_) => {
                    if let Ok((h, _)) = want
                        && *h == root
                        && v1
                    {
                        // refused: only with subqueries, or when no tree is there
                        let e = s.path.split_last().and_then(|(k, up)| s.w.entry(up, k));
                        let missing = e.is_none_or(|e| !e.is_tree());
                        c.ensure(missing || pq.query.query.has_subquery(), "parent-info-refused", || show("no parent info", want, want))?;
                    }
                }
            }
        }
        // boundary keys are those shown without their values
        if let Some(whole) = &parsed {
            let root = match whole {
                GroveDBProof::V1(p) => clone_layer(&p.root_layer),
                GroveDBProof::V0(p) => new_layer(&p.root_layer),
            };
            boundary_check(c, whole, &root, &mut vec![])?;
        }
    }
    for (k, n) in kinds {
        c.count(k, n);
    }
    Ok(())
}
fn clone_layer(l: &grovedb::operations::proof::LayerProof) -> grovedb::operations::proof::LayerProof {
    use grovedb::operations::proof::{LayerProof, ProofBytes};
    let merk_proof = match &l.merk_proof {
        ProofBytes::Merk(b) => ProofBytes::Merk(b.clone()),
        ProofBytes::MMR(b) => ProofBytes::MMR(b.clone()),
        ProofBytes::BulkAppendTree(b) => ProofBytes::BulkAppendTree(b.clone()),
        ProofBytes::DenseTree(b) => ProofBytes::DenseTree(b.clone()),
        ProofBytes::CommitmentTree(b) => ProofBytes::CommitmentTree(b.clone()),
    };
    LayerProof { merk_proof, lower_layers: l.lower_layers.iter().map(|(k, l)| (k.clone(), clone_layer(l))).collect() }
}
/// the same layers of the earlier format
fn new_layer(l: &grovedb::operations::proof::MerkOnlyLayerProof) -> grovedb::operations::proof::LayerProof {
    use grovedb::operations::proof::{LayerProof, ProofBytes};
    LayerProof { merk_proof: ProofBytes::Merk(l.merk_proof.clone()), lower_layers: l.lower_layers.iter().map(|(k, l)| (k.clone(), new_layer(l))).collect() }
}
fn boundary_check(c: &mut Case, whole: &GroveDBProof, l: &grovedb::operations::proof::LayerProof, at: &mut Path) -> Res {
    use grovedb::operations::proof::ProofBytes;
    let path: Vec<&[u8]> = at.iter().map(|k| &k[..]).collect();
    let got = whole.boundaries(&path);
    match &l.merk_proof {
        ProofBytes::Merk(b) => {
            let mut keys = vec![];
            let mut bad = false;
            for o in grovedb_query::proofs::Decoder::new(b) {
                match o {
                    Ok(Op::Push(n) | Op::PushInverted(n)) => {
                        if let Node::KVDigest(k, _) | Node::KVDigestCount(k, ..) = n {
                            keys.push(k);
                        }
                    }
                    Ok(_) => {}
                    Err(_) => {
                        bad = true;
                        break;
                    }
                }
            }
            match got {
                Ok(g) => {
                    c.ensure(!bad && g == keys, "boundaries-wrong", || format!("{g:?} instead of {keys:?} (undecodable: {bad})"))?;
                    c.count(if matches!(whole, GroveDBProof::V0(_)) { "boundary keys seen in the earlier format" } else { "boundary keys seen" }, keys.len() as u64);
                    let other = random_key(&mut c.rng);
                    for k in keys.iter().chain([&other]) {
                        let g = c.must(whole.key_exists_as_boundary(&path, k), "boundary-error")?;
                        c.ensure(g == keys.contains(k), "boundary-wrong", || format!("key {} is said to be {g}", hex(k)))?;
                    }
                }
                Err(e) => c.ensure(bad, "boundaries-refused", || format!("{e}"))?,
            }
        }
        _ => {
            let one = whole.key_exists_as_boundary(&path, b"a");
            c.ensure(got.is_err() && one.is_err(), "boundaries-of-append-only-tree", || format!("{got:?} {one:?}"))?
        }
    }
    // there is no layer below other keys
    let other = random_key(&mut c.rng);
    if !l.lower_layers.contains_key(&other) {
        let mut path = path.clone();
        path.push(&other);
        let r = (whole.boundaries(&path), whole.key_exists_as_boundary(&path, b"a"));
        c.ensure(r.0.is_err() && r.1.is_err(), "boundaries-of-no-layer", || format!("{r:?}"))?;
    }
    for (k, low) in &l.lower_layers {
        at.push(k.clone());
        boundary_check(c, whole, low, at)?;
        at.pop();
    }
    Ok(())
}
/// the feature that tells a tree's aggregates
fn merk_feature(e: &Element) -> Option<grovedb_query::proofs::TreeFeatureType> {
    use grovedb_query::proofs::TreeFeatureType::*;
    Some(match e {
        Element::Tree(..) | Element::CommitmentTree(..) | Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::DenseAppendOnlyFixedSizeTree(..) => BasicMerkNode,
        Element::SumTree(_, s, _) => SummedMerkNode(*s),
        Element::BigSumTree(_, s, _) => BigSummedMerkNode(*s),
        Element::CountTree(_, n, _) => CountedMerkNode(*n),
        Element::CountSumTree(_, n, s, _) => CountedSummedMerkNode(*n, *s),
        Element::ProvableCountTree(_, n, _) => ProvableCountedMerkNode(*n),
        Element::ProvableCountSumTree(_, n, s, _) => ProvableCountedSummedMerkNode(*n, *s),
        _ => return None,
    })
}
/// later queries over one proof
fn chain_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let s = Scene::random(&mut c.rng);
    let root = s.w.root_hash();
    let mut queries = vec![(s.path.clone(), s.q.clone(), s.limit)];
    for _ in 0..c.rng.below(3) {
        let mut q = neighbour(&mut c.rng, &s);
        if c.rng.bool() {
            q.2 = None;
        }
        queries.push(q);
    }
    if c.rng.bool() {
        queries[0].2 = None;
    }
    let answers: Vec<Scene> = queries
        .into_iter()
        .map(|(p, q, l)| {
            let a = answer(&s.w, &p, &q, l);
            let defined = !a.errors.iter().any(|e| e.contains("width"));
            Scene { w: Merk { kind: Kind::Plain, nodes: vec![], root: None }, path: p, q, limit: l, a, defined }
        })
        .collect();
    if answers.iter().any(|a| !a.defined) {
        return Ok(());
    }
    let b = if c.rng.chance(3, 4) { ops::pack(&full(&s.w).v1()) } else { offer(&mut c.rng, &s, &mut BTreeMap::new()).0 };
    let stop = c.rng.chance(1, 12).then(|| 1 + c.rng.usize(answers.len()));
    let seen = std::cell::RefCell::new(vec![]);
    let later: Vec<_> = answers[1..]
        .iter()
        .enumerate()
        .map(|(i, a)| {
            let pq = a.pq();
            let seen = &seen;
            move |r: Vec<PathKeyOptionalElementTrio>| {
                seen.borrow_mut().push(trios(&r));
                (Some(i + 1) != stop).then(|| pq.clone())
            }
        })
        .collect();
    let got = GroveDb::verify_query_with_chained_path_queries(&b, &answers[0].pq(), later, v);
    let alone: Vec<Outcome> = answers.iter().map(|a| GroveDb::verify_subset_query(&b, &a.pq(), v).map(|(h, r)| (h, trios(&r))).map_err(|_| ())).collect();
    match got {
        Ok((h, results)) => {
            c.count("chains accepted", 1);
            let got: Vec<Outcome> = results.iter().map(|r| Ok((h, trios(r)))).collect();
            c.ensure(got == alone, "chain-differs-from-single", || format!("{}\nchain {:?}\nalone {:?}", s.show(), got, alone))?;
            c.ensure(stop.is_none_or(|s| s >= answers.len()), "chain-without-query", || "a generator gave no query and the chain went on".into())?;
            let fed: Vec<Vec<Row3>> = results[..results.len() - 1].iter().map(|r| trios(r)).collect();
            c.ensure(*seen.borrow() == fed, "chain-fed-other-results", || "the generators did not get the preceding results".into())?;
            if h == root {
                for (a, r) in answers.iter().zip(&results) {
                    let a2 = Scene { w: s.w.clone(), path: a.path.clone(), q: a.q.clone(), limit: a.limit, a: answer(&s.w, &a.path, &a.q, a.limit), defined: true };
                    let (got, want) = (trios(r), a.rows(false));
                    // what is bound is P01's subject
                    if !unbound_claim(&a2, false, &got, &want) {
                        compare(c, &a2, false, "chained-result-forged", &got, &want)?;
                    }
                }
                c.eval(fnv(&b) ^ answers.len() as u64, answers.len() > 1);
            }
        }
        Err(_) => {
            c.count("chains refused", 1);
            let ok = alone.iter().all(|a| a.is_ok()) && stop.is_none_or(|s| s >= answers.len());
            let one_root = alone.windows(2).all(|w| w[0].as_ref().ok().map(|x| x.0) == w[1].as_ref().ok().map(|x| x.0));
            c.ensure(!ok || !one_root, "chain-refused", || format!("{}\nevery query alone is accepted with one root", s.show()))?;
            if ok && !one_root {
                c.count("chains refused for their roots", 1);
            }
        }
    }
    Ok(())
}
pub fn p03(ctx: &Ctx) {
    ctx.level("monitored executions of every verification entry point on the same genuine and forged proofs");
    ctx.rule("raw, element, subset, strict, option-driven and decoded-proof entry points agree; absence results are exactly the terminal keys with the database's elements; chained queries give each query's own result under one root; parent info is that of the queried tree");
    ctx.cases("entry", ctx.n(20_000, 1_200_000), p03_case);
    ctx.cases("chain", ctx.n(20_000, 1_000_000), chain_case);
    ctx.require("proofs accepted", 500);
    ctx.require("absences checked", 100);
    ctx.require("presences checked", 100);
    ctx.require("parent infos checked", 100);
    ctx.require("chains accepted", 100);
    ctx.require("boundary keys seen", 100);
    ctx.require("boundary keys seen in the earlier format", 30);
}
