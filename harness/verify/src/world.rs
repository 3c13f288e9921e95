//! A model database: nested trees with their hashes, what a query returns from it, and the proof
//! an honest prover makes. Written from the format's definition, without the code under test
//! (elements are serialized with the real constructors).
use crate::models::{Bulk, H, Range, b3, dense_nodes, dense_root};
use crate::queries::{Key, Path, branch, contains, leads, selects};
use grovedb::Element;
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes, ProveOptions};
use grovedb_bulk_append_tree::BulkAppendTreeProof;
use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merkle_mountain_range::{MmrNode, MmrTreeProof};
use grovedb_query::proofs::{Node, Op, TreeFeatureType, encode_into};
use grovedb_query::{Query, QueryItem};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vcommon::Rng;

pub const NULL: H = [0; 32];

fn varint(mut n: usize) -> Vec<u8> {
    let mut out = vec![];
    while n >= 128 {
        out.push(n as u8 | 128);
        n >>= 7;
    }
    out.push(n as u8);
    out
}
pub fn value_hash(v: &[u8]) -> H {
    b3(&[&varint(v.len()), v])
}
pub fn kv_digest(k: &[u8], vh: &H) -> H {
    b3(&[&varint(k.len()), k, vh])
}
pub fn ser(e: &Element) -> Vec<u8> {
    e.serialize(GroveVersion::latest()).unwrap_or_default()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    Sum,
    BigSum,
    Count,
    CountSum,
    PCount,
    PCountSum,
}
pub const KINDS: [Kind; 7] = [Kind::Plain, Kind::Sum, Kind::BigSum, Kind::Count, Kind::CountSum, Kind::PCount, Kind::PCountSum];

#[derive(Clone)]
pub enum Below {
    Nothing,
    Merk(Merk),
    Mmr(Range),
    Bulk(Vec<Vec<u8>>, u8),
    Dense(Vec<Vec<u8>>, u8),
    /// with the sinsemilla root
    Commit(Vec<Vec<u8>>, u8, H),
}
impl Below {
    pub fn root(&self) -> H {
        match self {
            Below::Nothing => NULL,
            Below::Merk(m) => m.root_hash(),
            Below::Mmr(r) => r.root(),
            // recorded so until something is appended
            Below::Bulk(v, _) if v.is_empty() => NULL,
            Below::Bulk(v, h) => Bulk::of(v, *h).state(),
            Below::Dense(v, _) => dense_root(v),
            Below::Commit(v, h, s) => b3(&[b"ct_state", s, &Bulk::of(v, *h).state()]),
        }
    }
    pub fn merk(&self) -> Option<&Merk> {
        match self {
            Below::Merk(m) => Some(m),
            _ => None,
        }
    }
}

#[derive(Clone)]
pub struct Entry {
    pub key: Key,
    pub elem: Element,
    pub value: Vec<u8>,
    pub vh: H,
    /// what a reference leads to
    pub target: Option<Vec<u8>>,
    pub below: Below,
    pub left: Option<usize>,
    pub right: Option<usize>,
    pub hash: H,
    pub height: usize,
    /// aggregates of the node and everything under it
    pub count: u64,
    pub sum: i64,
}
impl Entry {
    pub fn is_ref(&self) -> bool {
        self.target.is_some()
    }
    pub fn is_tree(&self) -> bool {
        self.elem.is_any_tree()
    }
    pub fn is_merk_tree(&self) -> bool {
        self.is_tree() && !self.non_merk()
    }
    pub fn non_merk(&self) -> bool {
        matches!(self.below, Below::Mmr(_) | Below::Bulk(..) | Below::Dense(..) | Below::Commit(..))
    }
    pub fn own_count(&self) -> u64 {
        match &self.elem {
            Element::CountTree(_, c, _) | Element::CountSumTree(_, c, ..) | Element::ProvableCountTree(_, c, _) | Element::ProvableCountSumTree(_, c, ..) => *c,
            _ => 1,
        }
    }
    pub fn own_sum(&self) -> i64 {
        match &self.elem {
            Element::SumItem(s, _) | Element::ItemWithSumItem(_, s, _) | Element::SumTree(_, s, _) | Element::CountSumTree(_, _, s, _) | Element::ProvableCountSumTree(_, _, s, _) => *s,
            Element::BigSumTree(..) => 0,
            _ => 0,
        }
    }
}

/// one tree: its entries in key order, shaped as a balanced tree
#[derive(Clone)]
pub struct Merk {
    pub kind: Kind,
    pub nodes: Vec<Entry>,
    pub root: Option<usize>,
}
impl Merk {
    pub fn root_hash(&self) -> H {
        self.root.map(|r| self.nodes[r].hash).unwrap_or(NULL)
    }
    pub fn provable(&self) -> bool {
        matches!(self.kind, Kind::PCount | Kind::PCountSum)
    }
    pub fn find(&self, k: &[u8]) -> Option<usize> {
        self.nodes.binary_search_by(|e| e.key[..].cmp(k)).ok()
    }
    pub fn at(&self, path: &[Key]) -> Option<&Merk> {
        let mut m = self;
        for k in path {
            m = m.nodes[m.find(k)?].below.merk()?;
        }
        Some(m)
    }
    pub fn entry(&self, path: &[Key], k: &[u8]) -> Option<&Entry> {
        let m = self.at(path)?;
        m.find(k).map(|i| &m.nodes[i])
    }
    pub fn hash_of(&self, i: Option<usize>) -> H {
        i.map(|i| self.nodes[i].hash).unwrap_or(NULL)
    }
    pub fn feature(&self, i: usize) -> TreeFeatureType {
        let e = &self.nodes[i];
        match self.kind {
            Kind::Plain => TreeFeatureType::BasicMerkNode,
            Kind::Sum => TreeFeatureType::SummedMerkNode(e.own_sum()),
            Kind::BigSum => TreeFeatureType::BigSummedMerkNode(e.own_sum() as i128),
            Kind::Count => TreeFeatureType::CountedMerkNode(e.own_count()),
            Kind::CountSum => TreeFeatureType::CountedSummedMerkNode(e.own_count(), e.own_sum()),
            Kind::PCount => TreeFeatureType::ProvableCountedMerkNode(e.count),
            Kind::PCountSum => TreeFeatureType::ProvableCountedSummedMerkNode(e.count, e.sum),
        }
    }
    /// the element that stands for this tree in its parent
    pub fn element(&self, flags: Option<Vec<u8>>) -> Element {
        let k = self.root.map(|r| self.nodes[r].key.clone());
        let (c, s) = self.root.map(|r| (self.nodes[r].count, self.nodes[r].sum)).unwrap_or((0, 0));
        match self.kind {
            Kind::Plain => Element::Tree(k, flags),
            Kind::Sum => Element::SumTree(k, s, flags),
            Kind::BigSum => Element::BigSumTree(k, s as i128, flags),
            Kind::Count => Element::CountTree(k, c, flags),
            Kind::CountSum => Element::CountSumTree(k, c, s, flags),
            Kind::PCount => Element::ProvableCountTree(k, c, flags),
            Kind::PCountSum => Element::ProvableCountSumTree(k, c, s, flags),
        }
    }
    fn link(&mut self, rng: &mut Rng, lo: usize, hi: usize, h: usize) -> Option<usize> {
        let n = hi - lo;
        if n == 0 {
            return None;
        }
        let mut ways = vec![];
        for (hl, hr) in [(h - 1, h - 1), (h - 1, h.wrapping_sub(2)), (h.wrapping_sub(2), h - 1)] {
            if hl > 90 || hr > 90 {
                continue;
            }
            for nl in 0..n {
                if fits(nl, hl) && fits(n - 1 - nl, hr) {
                    ways.push((nl, hl, hr));
                }
            }
        }
        let (nl, hl, hr) = *rng.pick(&ways);
        let i = lo + nl;
        let l = self.link(rng, lo, i, hl);
        let r = self.link(rng, i + 1, hi, hr);
        let (lh, rh) = (self.hash_of(l), self.hash_of(r));
        let agg = |x: Option<usize>, m: &Merk| x.map(|x| (m.nodes[x].count, m.nodes[x].sum)).unwrap_or((0, 0));
        let ((lc, ls), (rc, rs)) = (agg(l, self), agg(r, self));
        let provable = self.provable();
        let e = &mut self.nodes[i];
        (e.left, e.right, e.height) = (l, r, h);
        e.count = e.own_count() + lc + rc;
        e.sum = e.own_sum() + ls + rs;
        let kv = kv_digest(&e.key, &e.vh);
        e.hash = if provable { b3(&[&kv, &lh, &rh, &e.count.to_be_bytes()]) } else { b3(&[&kv, &lh, &rh]) };
        Some(i)
    }
    pub fn build(rng: &mut Rng, kind: Kind, mut nodes: Vec<Entry>) -> Merk {
        nodes.sort_by(|a, b| a.key.cmp(&b.key));
        let n = nodes.len();
        let mut m = Merk { kind, nodes, root: None };
        if n > 0 {
            let hs: Vec<usize> = (1..20).filter(|h| fits(n, *h)).collect();
            let h = *rng.pick(&hs);
            m.root = m.link(rng, 0, n, h);
        }
        m
    }
    pub fn size(&self) -> usize {
        self.nodes.iter().map(|e| 1 + e.below.merk().map(|m| m.size()).unwrap_or(0)).sum()
    }
    pub fn show(&self, o: &mut String, pad: usize) {
        for e in &self.nodes {
            *o += &format!("{}{} h{} {}\n", " ".repeat(pad), vcommon::hex(&e.key), e.height, e.elem);
            if let Below::Merk(m) = &e.below {
                m.show(o, pad + 2);
            }
        }
    }
}
/// can a balanced tree of this height hold n entries?
fn fits(n: usize, h: usize) -> bool {
    let mut min = (0, 1);
    for _ in 0..h {
        min = (min.1, min.0 + min.1 + 1);
    }
    n >= min.0 && n < (1usize << h)
}

// ---- random databases ----------------------------------------------------

pub struct Size {
    pub keys: usize,
    pub depth: usize,
    pub exotic: bool,
}
fn flags(rng: &mut Rng) -> Option<Vec<u8>> {
    rng.chance(1, 6).then(|| {
        let n = rng.usize(4);
        rng.bytes(n)
    })
}
pub fn entry(key: Key, elem: Element, below: Below, target: Option<Vec<u8>>) -> Entry {
    let value = ser(&elem);
    let own = value_hash(&value);
    let vh = match (&target, elem.is_any_tree()) {
        (Some(t), _) => b3(&[&own, &value_hash(t)]),
        (None, true) => b3(&[&own, &below.root()]),
        _ => own,
    };
    Entry { key, elem, value, vh, target, below, left: None, right: None, hash: NULL, height: 0, count: 0, sum: 0 }
}
fn small(rng: &mut Rng, tag: u64) -> Vec<u8> {
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => 32,
        3 => 40 + rng.usize(80),
        _ => 2 + rng.usize(9),
    };
    let mut v = rng.bytes(n);
    if n > 1 {
        v[0] = tag as u8;
    }
    v
}
pub fn item_elem(rng: &mut Rng) -> Element {
    let tag = rng.u64();
    match rng.below(5) {
        0 => Element::SumItem(rng.range(0, 2000) as i64 - 1000, flags(rng)),
        1 => Element::ItemWithSumItem(small(rng, tag), rng.range(0, 2000) as i64 - 1000, flags(rng)),
        _ => Element::Item(small(rng, tag), flags(rng)),
    }
}
pub fn values(rng: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let same = rng.bool();
    (0..n)
        .map(|i| {
            let l = if same { 5 } else { 1 + rng.usize(9) };
            let mut v = rng.bytes(l);
            v[0] = i as u8;
            v
        })
        .collect()
}
pub fn random_key(rng: &mut Rng) -> Key {
    match rng.below(14) {
        0 => rng.range(0, 6).to_be_bytes().to_vec(),
        1 => (rng.range(0, 6) as u16).to_be_bytes().to_vec(),
        2 => vec![0],
        3 => vec![255; 1 + rng.usize(3)],
        4 => {
            let n = 20 + rng.usize(30);
            rng.bytes(n)
        }
        5 | 6 => vec![b'a' + rng.below(8) as u8, b'a' + rng.below(8) as u8],
        _ => vec![b'a' + rng.below(20) as u8],
    }
}
pub fn build(rng: &mut Rng, kind: Kind, s: &Size) -> Merk {
    let n = match rng.below(12) {
        0 => 1,
        1 => 2,
        2 => s.keys * 2,
        _ => 1 + rng.usize(s.keys),
    };
    let mut keys: BTreeSet<Key> = (0..n).map(|_| random_key(rng)).collect();
    keys.remove(&vec![]);
    let mut nodes = vec![];
    for k in keys {
        let deep = s.depth > 0;
        nodes.push(match rng.below(if deep { 10 } else { 6 }) {
            4 => {
                // a reference with what it reads as
                let t = ser(&item_elem(rng));
                let p = (0..1 + rng.usize(3)).map(|_| random_key(rng)).collect();
                let r = if rng.bool() { ReferencePathType::AbsolutePathReference(p) } else { ReferencePathType::SiblingReference(random_key(rng)) };
                let hops = rng.bool().then(|| rng.below(10) as u8);
                entry(k, Element::Reference(r, hops, flags(rng)), Below::Nothing, Some(t))
            }
            5 if s.exotic => {
                let f = flags(rng);
                let h = 1 + rng.below(3) as u8;
                match rng.below(4) {
                    0 => {
                        let n = if rng.chance(1, 6) { 0 } else { 1 + rng.usize(12) };
                        let r = Range::of(&values(rng, n));
                        entry(k, Element::MmrTree(r.size(), f), Below::Mmr(r), None)
                    }
                    1 => {
                        let h = 1 + rng.below(4) as u8;
                        let cap = (1usize << h) - 1;
                        let n = if rng.chance(1, 6) { 0 } else { 1 + rng.usize(cap) };
                        entry(k, Element::DenseAppendOnlyFixedSizeTree(n as u16, h, f), Below::Dense(values(rng, n), h), None)
                    }
                    2 => {
                        let n = 1 + rng.usize(14);
                        entry(k, Element::BulkAppendTree(n as u64, h, f), Below::Bulk(values(rng, n), h), None)
                    }
                    _ => {
                        let n = 1 + rng.usize(14);
                        let s = rng.arr32();
                        entry(k, Element::CommitmentTree(n as u64, h, f), Below::Commit(values(rng, n), h, s), None)
                    }
                }
            }
            6..=9 => {
                let kind = if rng.chance(2, 5) { Kind::Plain } else { *rng.pick(&KINDS) };
                let m = if rng.chance(1, 7) {
                    Merk { kind, nodes: vec![], root: None }
                } else {
                    build(rng, kind, &Size { depth: s.depth - 1, keys: s.keys, exotic: s.exotic })
                };
                let e = m.element(flags(rng));
                entry(k, e, Below::Merk(m), None)
            }
            _ => entry(k, item_elem(rng), Below::Nothing, None),
        });
    }
    Merk::build(rng, kind, nodes)
}
pub fn world(rng: &mut Rng) -> Merk {
    let s = match rng.below(4) {
        0 => Size { keys: 14, depth: 1, exotic: true },
        1 => Size { keys: 4, depth: 3, exotic: true },
        _ => Size { keys: 7, depth: 2, exotic: true },
    };
    loop {
        let m = build(rng, Kind::Plain, &s);
        if m.size() <= 400 {
            return m;
        }
    }
}

// ---- what a query asks of a level ------------------------------------------

#[derive(Clone, Copy)]
pub enum Level<'a> {
    Path(&'a [Key], Option<&'a Query>),
    Q(&'a Query),
}
impl<'a> Level<'a> {
    pub fn of(path: &'a [Key], q: &'a Query) -> Level<'a> {
        if path.is_empty() { Level::Q(q) } else { Level::Path(path, Some(q)) }
    }
    pub fn items(&self) -> Vec<QueryItem> {
        match self {
            Level::Path(p, _) => vec![QueryItem::Key(p[0].clone())],
            Level::Q(q) => q.items.clone(),
        }
    }
    pub fn ltr(&self) -> bool {
        match self {
            Level::Path(..) => true,
            Level::Q(q) => q.left_to_right,
        }
    }
    pub fn takes(&self, k: &[u8]) -> bool {
        match self {
            Level::Path(p, _) => p[0] == k,
            Level::Q(q) => selects(q, k),
        }
    }
    pub fn add_parent(&self) -> bool {
        matches!(self, Level::Q(q) if q.add_parent_tree_on_subquery)
    }
    pub fn below(&self, k: &[u8]) -> Option<Level<'a>> {
        match *self {
            Level::Path(p, then) => {
                if p.len() > 1 {
                    Some(Level::Path(&p[1..], then))
                } else {
                    then.map(Level::Q)
                }
            }
            Level::Q(q) => {
                let b = branch(q, k);
                if !leads(b) {
                    return None;
                }
                match &b.subquery_path {
                    Some(p) if !p.is_empty() => Some(Level::Path(p, b.subquery.as_deref())),
                    _ => b.subquery.as_deref().map(Level::Q),
                }
            }
        }
    }
}

// ---- the answer and the honest proof ---------------------------------------

#[derive(Clone, Debug)]
pub enum Part {
    Merk(Vec<Op>),
    Mmr(u64, Vec<(u64, Vec<u8>)>, Vec<H>),
    Bulk(BulkAppendTreeProof),
    Dense(DenseTreeProof),
    Commit(H, BulkAppendTreeProof),
    /// a kind and any bytes
    Raw(u8, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Layer {
    pub part: Part,
    pub lower: BTreeMap<Key, Layer>,
    /// how the part was made, for merk layers
    pub faces: Vec<Face>,
    pub ltr: bool,
}
impl Layer {
    pub fn of(part: Part) -> Layer {
        Layer { part, lower: BTreeMap::new(), faces: vec![], ltr: true }
    }
    pub fn merk(m: &Merk, faces: Vec<Face>, ltr: bool) -> Layer {
        let mut ops = vec![];
        if let Some(r) = m.root {
            emit(m, r, &faces, ltr, &mut ops);
        }
        Layer { part: Part::Merk(ops), lower: BTreeMap::new(), faces, ltr }
    }
    pub fn bytes(&self) -> ProofBytes {
        match &self.part {
            Part::Merk(ops) => {
                let mut b = vec![];
                encode_into(ops.iter(), &mut b);
                ProofBytes::Merk(b)
            }
            Part::Mmr(s, l, p) => ProofBytes::MMR(MmrTreeProof::new(*s, l.clone(), p.clone()).encode_to_vec().unwrap_or_default()),
            Part::Bulk(p) => ProofBytes::BulkAppendTree(p.encode_to_vec().unwrap_or_default()),
            Part::Dense(p) => ProofBytes::DenseTree(p.encode_to_vec().unwrap_or_default()),
            Part::Commit(s, p) => {
                let mut b = s.to_vec();
                b.extend(p.encode_to_vec().unwrap_or_default());
                ProofBytes::CommitmentTree(b)
            }
            Part::Raw(k, b) => match k % 5 {
                0 => ProofBytes::Merk(b.clone()),
                1 => ProofBytes::MMR(b.clone()),
                2 => ProofBytes::BulkAppendTree(b.clone()),
                3 => ProofBytes::DenseTree(b.clone()),
                _ => ProofBytes::CommitmentTree(b.clone()),
            },
        }
    }
    pub fn layer(&self) -> LayerProof {
        LayerProof { merk_proof: self.bytes(), lower_layers: self.lower.iter().map(|(k, l)| (k.clone(), l.layer())).collect() }
    }
    pub fn old(&self) -> Option<MerkOnlyLayerProof> {
        let ProofBytes::Merk(merk_proof) = self.bytes() else { return None };
        let mut lower_layers = BTreeMap::new();
        for (k, l) in &self.lower {
            lower_layers.insert(k.clone(), l.old()?);
        }
        Some(MerkOnlyLayerProof { merk_proof, lower_layers })
    }
    pub fn v1(&self) -> GroveDBProof {
        GroveDBProof::V1(GroveDBProofV1 { root_layer: self.layer() })
    }
    pub fn v0(&self, dec: bool) -> Option<GroveDBProof> {
        Some(GroveDBProof::V0(GroveDBProofV0 { root_layer: self.old()?, prove_options: ProveOptions { decrease_limit_on_empty_sub_query_result: dec } }))
    }
    /// as provers wrote it before items had nodes of their own
    pub fn older(&self) -> Layer {
        let mut l = self.clone();
        if let Part::Merk(ops) = &mut l.part {
            for o in ops {
                let (Op::Push(n) | Op::PushInverted(n)) = o else { continue };
                match n {
                    Node::KV(k, v) => *n = Node::KVValueHash(k.clone(), v.clone(), value_hash(v)),
                    Node::KVCount(k, v, c) => *n = Node::KVValueHashFeatureType(k.clone(), v.clone(), value_hash(v), TreeFeatureType::ProvableCountedMerkNode(*c)),
                    _ => {}
                }
            }
        }
        for b in l.lower.values_mut() {
            *b = b.older();
        }
        l
    }
    /// every layer, addressed by its path
    pub fn paths(&self, at: Path, out: &mut Vec<Path>) {
        out.push(at.clone());
        for (k, l) in &self.lower {
            let mut p = at.clone();
            p.push(k.clone());
            l.paths(p, out);
        }
    }
    pub fn get(&mut self, path: &[Key]) -> Option<&mut Layer> {
        match path {
            [] => Some(self),
            [k, rest @ ..] => self.lower.get_mut(k)?.get(rest),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub path: Path,
    pub key: Key,
    pub value: Vec<u8>,
    /// a plain tree without contents
    pub hidden: bool,
}
pub struct Answer {
    pub rows: Vec<Row>,
    /// None when honest provers cannot prove this query
    pub proof: Option<Layer>,
    pub limit_left: Option<u16>,
    pub errors: Vec<String>,
    /// what lies at each level that was entered
    pub visited: BTreeMap<Path, bool>,
    /// subquery paths that lead through something that is no tree
    pub stuck: usize,
}

/// how a node is shown in a proof
#[derive(Clone, Debug, PartialEq)]
pub enum Face {
    /// the whole subtree as one hash
    Cut,
    Bare,
    Digest,
    /// as the format prescribes for a value that is only shown
    Value,
    /// as `Value`, resolved: referenced value, child hash of trees
    Resolved,
    /// anything else that has the right hash, or not
    Other(Node),
}
pub fn face(m: &Merk, i: usize, f: &Face) -> Node {
    let e = &m.nodes[i];
    let k = e.key.clone();
    let p = m.provable();
    match f {
        Face::Cut => Node::Hash(e.hash),
        Face::Bare if p => Node::KVHashCount(kv_digest(&e.key, &e.vh), e.count),
        Face::Bare => Node::KVHash(kv_digest(&e.key, &e.vh)),
        Face::Digest if p => Node::KVDigestCount(k, e.vh, e.count),
        Face::Digest => Node::KVDigest(k, e.vh),
        Face::Value | Face::Resolved => {
            let resolved = *f == Face::Resolved;
            if let Some(t) = &e.target {
                match (resolved, p) {
                    (true, true) => Node::KVRefValueHashCount(k, t.clone(), value_hash(&e.value), e.count),
                    (true, false) => Node::KVRefValueHash(k, t.clone(), value_hash(&e.value)),
                    (false, true) => Node::KVValueHashFeatureType(k, e.value.clone(), e.vh, m.feature(i)),
                    (false, false) => Node::KVValueHash(k, e.value.clone(), e.vh),
                }
            } else if e.is_tree() {
                let full = e.below.merk().is_some_and(|m| m.root.is_some());
                if resolved && full {
                    let ft = if p { m.feature(i) } else { TreeFeatureType::BasicMerkNode };
                    Node::KVValueHashFeatureTypeWithChildHash(k, e.value.clone(), e.vh, ft, e.below.root())
                } else if p {
                    Node::KVValueHashFeatureType(k, e.value.clone(), e.vh, m.feature(i))
                } else {
                    Node::KVValueHash(k, e.value.clone(), e.vh)
                }
            } else if p {
                Node::KVCount(k, e.value.clone(), e.count)
            } else {
                Node::KV(k, e.value.clone())
            }
        }
        Face::Other(n) => n.clone(),
    }
}
/// the operations that show a tree, given how each node is shown
pub fn emit(m: &Merk, i: usize, faces: &[Face], ltr: bool, out: &mut Vec<Op>) {
    let push = |n: Node| if ltr { Op::Push(n) } else { Op::PushInverted(n) };
    let e = &m.nodes[i];
    if faces[i] == Face::Cut {
        out.push(push(Node::Hash(e.hash)));
        return;
    }
    let (first, second) = if ltr { (e.left, e.right) } else { (e.right, e.left) };
    if let Some(c) = first {
        emit(m, c, faces, ltr, out);
    }
    out.push(push(face(m, i, &faces[i])));
    if first.is_some() {
        out.push(if ltr { Op::Parent } else { Op::ParentInverted });
    }
    if let Some(c) = second {
        emit(m, c, faces, ltr, out);
        out.push(if ltr { Op::Child } else { Op::ChildInverted });
    }
}
/// nodes on the way to shown ones are bare, all else is cut
pub fn close(m: &Merk, faces: &mut [Face]) {
    fn go(m: &Merk, i: usize, faces: &mut [Face]) -> bool {
        let l = m.nodes[i].left.is_some_and(|c| go(m, c, faces));
        let r = m.nodes[i].right.is_some_and(|c| go(m, c, faces));
        let mine = faces[i] != Face::Cut;
        if !mine && (l || r) {
            faces[i] = Face::Bare;
        }
        mine || l || r
    }
    if let Some(r) = m.root {
        go(m, r, faces);
    }
}
fn lower(i: &QueryItem) -> Option<(&[u8], bool)> {
    match i {
        QueryItem::Key(k) => Some((k, true)),
        QueryItem::Range(r) => Some((&r.start, true)),
        QueryItem::RangeInclusive(r) => Some((r.start(), true)),
        QueryItem::RangeFrom(r) => Some((&r.start, true)),
        QueryItem::RangeAfter(r) => Some((&r.start, false)),
        QueryItem::RangeAfterTo(r) => Some((&r.start, false)),
        QueryItem::RangeAfterToInclusive(r) => Some((r.start(), false)),
        _ => None,
    }
}
fn upper(i: &QueryItem) -> Option<(&[u8], bool)> {
    match i {
        QueryItem::Key(k) => Some((k, true)),
        QueryItem::Range(r) => Some((&r.end, false)),
        QueryItem::RangeInclusive(r) => Some((r.end(), true)),
        QueryItem::RangeTo(r) => Some((&r.end, false)),
        QueryItem::RangeToInclusive(r) => Some((&r.end, true)),
        QueryItem::RangeAfterTo(r) => Some((&r.end, false)),
        QueryItem::RangeAfterToInclusive(r) => Some((r.end(), true)),
        _ => None,
    }
}
/// indexes of matching entries in query order, and how every node has to be shown
pub fn plan(m: &Merk, items: &[QueryItem], ltr: bool, limit: Option<u16>) -> (Vec<usize>, Vec<Face>) {
    let n = m.nodes.len();
    let key = |i: usize| &m.nodes[i].key[..];
    let mut faces = vec![Face::Cut; n];
    let mut hits = vec![];
    let mut left = limit.map(|l| l as usize).unwrap_or(usize::MAX);
    let mut order: Vec<&QueryItem> = items.iter().collect();
    if !ltr {
        order.reverse();
    }
    let mark = |faces: &mut Vec<Face>, i: Option<usize>| {
        if let Some(i) = i
            && faces[i] == Face::Cut
        {
            faces[i] = Face::Digest;
        }
    };
    for it in order {
        if left == 0 {
            break;
        }
        // an item that can select nothing asks for nothing
        if let (Some((a, with_a)), Some((b, with_b))) = (lower(it), upper(it))
            && (a > b || a == b && !(with_a && with_b))
        {
            continue;
        }
        // the nearest keys outside on either side; none when the bound itself is met
        let low = lower(it).and_then(|(k, incl)| {
            let (k_at, before) = (m.find(k), (0..n).rev().find(|i| key(*i) < k));
            match (incl, k_at) {
                (true, Some(_)) => None,
                (false, Some(i)) => Some(i),
                _ => before,
            }
        });
        let high = upper(it).and_then(|(k, incl)| {
            let (k_at, after) = (m.find(k), (0..n).find(|i| key(*i) > k));
            match (incl, k_at) {
                (true, Some(_)) => None,
                (false, Some(i)) => Some(i),
                _ => after,
            }
        });
        let mut found: Vec<usize> = (0..n).filter(|i| contains(it, key(*i))).collect();
        if !ltr {
            found.reverse();
        }
        mark(&mut faces, if ltr { low } else { high });
        for i in found {
            if left == 0 {
                break;
            }
            left -= 1;
            hits.push(i);
            faces[i] = Face::Value;
        }
        if left > 0 {
            mark(&mut faces, if ltr { high } else { low });
        }
    }
    close(m, &mut faces);
    (hits, faces)
}

pub fn mmr_node(r: &Range, pos: u64) -> Option<MmrNode> {
    match r.at.iter().position(|p| *p == pos) {
        Some(i) => Some(MmrNode::leaf(r.leaves[i].clone())),
        None => r.nodes.get(pos as usize).map(|h| MmrNode::internal(*h)),
    }
}
pub fn mmr_part(r: &Range, asked: &[u64]) -> Option<Part> {
    if r.leaves.is_empty() {
        return Some(Part::Mmr(0, vec![], vec![]));
    }
    let p = MmrTreeProof::generate(r.size(), asked, |pos| Ok(mmr_node(r, pos))).ok()?;
    Some(Part::Mmr(r.size(), p.leaves().to_vec(), p.proof_items().to_vec()))
}
pub fn dense_part(values: &[Vec<u8>], h: u8, asked: &BTreeSet<u16>) -> DenseTreeProof {
    let cap = (1usize << h) - 1;
    let nodes = dense_nodes(values);
    let mut p = DenseTreeProof { entries: vec![], node_value_hashes: vec![], node_hashes: vec![] };
    if values.is_empty() {
        return p;
    }
    if asked.is_empty() {
        p.node_hashes.push((0, nodes[0]));
        return p;
    }
    let mut open = BTreeSet::new();
    for a in asked {
        let mut i = *a as usize;
        loop {
            open.insert(i);
            if i == 0 {
                break;
            }
            i = (i - 1) / 2;
        }
    }
    for i in &open {
        if asked.contains(&(*i as u16)) {
            p.entries.push((*i as u16, values[*i].clone()));
        } else {
            p.node_value_hashes.push((*i as u16, b3(&[&values[*i]])));
        }
        for c in [2 * i + 1, 2 * i + 2] {
            if c < cap && !open.contains(&c) {
                p.node_hashes.push((c as u16, nodes.get(c).copied().unwrap_or(NULL)));
            }
        }
    }
    p.node_hashes.sort();
    p
}
pub fn bulk_part(values: &[Vec<u8>], h: u8, asked: &BTreeSet<u64>) -> Option<BulkAppendTreeProof> {
    let b = Bulk::of(values, h);
    let per = 1u64 << h;
    let full = b.chunks.leaves.len() as u64;
    let mut chunks: BTreeSet<u64> = asked.iter().map(|p| p / per).filter(|c| *c < full).collect();
    let mut rest: BTreeSet<u16> = asked.iter().filter(|p| **p >= full * per).map(|p| (p - full * per) as u16).collect();
    if chunks.is_empty() && full > 0 {
        chunks.insert(0);
    }
    if rest.is_empty() && !b.buffer.is_empty() {
        rest.insert(0);
    }
    let chunk_proof = if full == 0 {
        MmrTreeProof::new(0, vec![], vec![])
    } else {
        let asked: Vec<u64> = chunks.into_iter().collect();
        MmrTreeProof::generate(b.chunks.size(), &asked, |pos| Ok(mmr_node(&b.chunks, pos))).ok()?
    };
    Some(BulkAppendTreeProof { chunk_proof, buffer_proof: dense_part(&b.buffer, h, &rest) })
}

pub fn visit(m: &Merk, level: Level, at: &Path, limit: &mut Option<u16>, a: &mut Answer) -> Option<Layer> {
    a.visited.insert(at.clone(), true);
    let (hits, mut faces) = plan(m, &level.items(), level.ltr(), *limit);
    let mut low: BTreeMap<Key, Layer> = BTreeMap::new();
    let mut ok = true;
    let dec = |l: &mut Option<u16>| {
        if let Some(l) = l {
            *l = l.saturating_sub(1);
        }
    };
    if hits.is_empty() {
        dec(limit);
    }
    for i in hits {
        if *limit == Some(0) {
            break;
        }
        let e = &m.nodes[i];
        let path_in: Path = at.iter().cloned().chain([e.key.clone()]).collect();
        let next = if e.is_tree() { level.below(&e.key) } else { None };
        let Some(next) = next else {
            if matches!(level, Level::Path(..)) && level.below(&e.key).is_some() {
                a.stuck += 1;
            }
            faces[i] = Face::Resolved;
            let value = e.target.clone().unwrap_or_else(|| e.value.clone());
            let hidden = value.starts_with(&[2, 0]); // an empty plain tree
            if e.is_ref() && level.below(&e.key).is_some() {
                a.errors.push("reference with a subquery".into());
            }
            a.rows.push(Row { path: at.clone(), key: e.key.clone(), value, hidden });
            dec(limit);
            continue;
        };
        if let Below::Merk(sub) = &e.below {
            if sub.root.is_none() {
                dec(limit);
                continue;
            }
            if level.add_parent() {
                a.rows.push(Row { path: path_in.clone(), key: e.key.clone(), value: e.value.clone(), hidden: false });
            }
            match visit(sub, next, &path_in, limit, a) {
                Some(l) => {
                    low.insert(e.key.clone(), l);
                }
                None => ok = false,
            }
            continue;
        }
        // an append-only tree
        if level.add_parent() {
            a.rows.push(Row { path: path_in.clone(), key: e.key.clone(), value: e.value.clone(), hidden: false });
        }
        a.visited.insert(path_in.clone(), false);
        let (all, wide): (&Vec<Vec<u8>>, usize) = match &e.below {
            Below::Mmr(r) => (&r.leaves, 8),
            Below::Bulk(v, _) | Below::Commit(v, ..) => (v, 8),
            Below::Dense(v, _) => (v, 2),
            _ => continue,
        };
        let items = next.items();
        let bounds_fit = items.iter().all(|i| lower(i).is_none_or(|(k, _)| k.len() == wide) && upper(i).is_none_or(|(k, _)| k.len() == wide));
        if !bounds_fit {
            a.errors.push("positions of the wrong width".into());
            ok = false;
            continue;
        }
        let pos = |i: usize| if wide == 8 { (i as u64).to_be_bytes().to_vec() } else { (i as u16).to_be_bytes().to_vec() };
        let asked: Vec<usize> = (0..all.len()).filter(|i| next.takes(&pos(*i))).collect();
        let part = match &e.below {
            Below::Mmr(r) => mmr_part(r, &asked.iter().map(|i| *i as u64).collect::<Vec<_>>()),
            Below::Bulk(v, h) => bulk_part(v, *h, &asked.iter().map(|i| *i as u64).collect()).map(Part::Bulk),
            Below::Commit(v, h, s) => bulk_part(v, *h, &asked.iter().map(|i| *i as u64).collect()).map(|p| Part::Commit(*s, p)),
            Below::Dense(v, h) => Some(Part::Dense(dense_part(v, *h, &asked.iter().map(|i| *i as u16).collect()))),
            _ => None,
        };
        match part {
            Some(part) => {
                low.insert(e.key.clone(), Layer::of(part));
            }
            None => {
                a.errors.push("nothing selected in a mountain range".into());
                ok = false
            }
        }
        for i in asked {
            if *limit == Some(0) {
                break;
            }
            a.rows.push(Row { path: path_in.clone(), key: pos(i), value: ser(&Element::new_item(all[i].clone())), hidden: false });
            dec(limit);
        }
    }
    if !ok {
        return None;
    }
    let mut l = Layer::merk(m, faces, level.ltr());
    l.lower = low;
    Some(l)
}
/// everything, left to right
pub fn full(m: &Merk) -> Layer {
    let mut lower = BTreeMap::new();
    for e in &m.nodes {
        let l = match &e.below {
            Below::Merk(s) if s.root.is_some() => Some(full(s)),
            Below::Mmr(r) => mmr_part(r, &(0..r.leaves.len() as u64).collect::<Vec<_>>()).map(Layer::of),
            Below::Bulk(v, h) => bulk_part(v, *h, &(0..v.len() as u64).collect()).map(|p| Layer::of(Part::Bulk(p))),
            Below::Commit(v, h, s) => bulk_part(v, *h, &(0..v.len() as u64).collect()).map(|p| Layer::of(Part::Commit(*s, p))),
            Below::Dense(v, h) => Some(Layer::of(Part::Dense(dense_part(v, *h, &(0..v.len() as u16).collect())))),
            _ => None,
        };
        if let Some(l) = l {
            lower.insert(e.key.clone(), l);
        }
    }
    let faces = m.nodes.iter().map(|_| Face::Resolved).collect();
    let mut l = Layer::merk(m, faces, true);
    l.lower = lower;
    l
}
pub fn answer(w: &Merk, path: &[Key], q: &Query, limit: Option<u16>) -> Answer {
    let mut a = Answer { rows: vec![], proof: None, limit_left: limit, errors: vec![], visited: BTreeMap::new(), stuck: 0 };
    let mut l = limit;
    let p = visit(w, Level::of(path, q), &vec![], &mut l, &mut a);
    a.limit_left = l;
    a.proof = p;
    a
}

// ---- queries that fit a database --------------------------------------------

fn near(rng: &mut Rng, m: &Merk) -> Key {
    if m.nodes.is_empty() || rng.chance(1, 4) {
        return random_key(rng);
    }
    let k = rng.pick(&m.nodes).key.clone();
    match rng.below(10) {
        0 => {
            let mut k = k;
            k.push(0);
            k
        }
        1 => {
            let mut k = k;
            if let Some(l) = k.last_mut() {
                *l = l.wrapping_add(1);
            }
            k
        }
        _ => k,
    }
}
pub fn item_for(rng: &mut Rng, m: &Merk) -> QueryItem {
    if rng.chance(1, 2) {
        return QueryItem::Key(near(rng, m));
    }
    let (a, b) = (near(rng, m), near(rng, m));
    crate::queries::range_item(rng, a, b)
}
fn positions(rng: &mut Rng, wide: usize, n: usize) -> Query {
    let mut q = Query::new_with_direction(rng.chance(3, 4));
    let k = |rng: &mut Rng| -> Key {
        let p = if rng.chance(1, 12) { rng.edge_u64() } else { rng.below(n as u64 + 3) };
        if wide == 8 { p.to_be_bytes().to_vec() } else { (p as u16).to_be_bytes().to_vec() }
    };
    for _ in 0..rng.range(1, 3) {
        let (a, b) = (k(rng), k(rng));
        q.insert_item(if rng.bool() { QueryItem::Key(a) } else { crate::queries::range_item(rng, a, b) });
    }
    q
}
pub fn query_for(rng: &mut Rng, m: &Merk, depth: usize) -> Query {
    let mut q = Query::new_with_direction(rng.chance(2, 3));
    for _ in 0..rng.range(1, 3) {
        q.insert_item(item_for(rng, m));
    }
    if rng.chance(1, 12) {
        q.insert_all();
    }
    q.add_parent_tree_on_subquery = rng.chance(1, 5);
    let subs: Vec<&Merk> = m.nodes.iter().filter_map(|e| e.below.merk()).collect();
    let some = |rng: &mut Rng, with: Option<&Merk>| -> (Option<Path>, Option<Query>) {
        let mut s = with;
        let mut path = None;
        if rng.chance(1, 3) {
            let mut p = vec![];
            for _ in 0..1 + rng.usize(2) {
                let k = match s {
                    Some(m) => near(rng, m),
                    None => random_key(rng),
                };
                s = s.and_then(|m| m.find(&k).and_then(|i| m.nodes[i].below.merk()));
                p.push(k);
            }
            path = Some(p);
        }
        let e = Merk { kind: Kind::Plain, nodes: vec![], root: None };
        let sub = (depth > 0 && (path.is_none() || rng.bool())).then(|| query_for(rng, s.unwrap_or(&e), depth - 1));
        (path, sub)
    };
    if rng.chance(3, 5) {
        let with = if subs.is_empty() { None } else { Some(*rng.pick(&subs)) };
        let (p, s) = some(rng, with);
        q.default_subquery_branch.subquery_path = p;
        q.default_subquery_branch.subquery = s.map(Box::new);
    }
    let leads = q.default_subquery_branch.subquery.is_some() || q.default_subquery_branch.subquery_path.is_some();
    // positions for the append-only trees
    for e in &m.nodes {
        let (wide, n) = match &e.below {
            Below::Mmr(r) => (8, r.leaves.len()),
            Below::Bulk(v, _) | Below::Commit(v, ..) => (8, v.len()),
            Below::Dense(v, _) => (2, v.len()),
            _ => continue,
        };
        if selects(&q, &e.key) && (leads && rng.chance(15, 16) || !leads && rng.bool()) {
            let s = positions(rng, wide, n);
            match (rng.below(6), s.items.first()) {
                (0, _) => q.add_conditional_subquery(QueryItem::Key(e.key.clone()), None, None),
                (1, Some(QueryItem::Key(k))) => {
                    let k = k.clone();
                    q.add_conditional_subquery(QueryItem::Key(e.key.clone()), Some(vec![k]), None)
                }
                _ => q.add_conditional_subquery(QueryItem::Key(e.key.clone()), None, Some(s)),
            }
        }
    }
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 2) {
            let e = if m.nodes.is_empty() { None } else { Some(rng.pick(&m.nodes)) };
            let i = match e {
                Some(e) if rng.bool() => QueryItem::Key(e.key.clone()),
                _ => item_for(rng, m),
            };
            let (p, s) = if rng.chance(1, 5) { (None, None) } else { some(rng, e.and_then(|e| e.below.merk())) };
            q.add_conditional_subquery(i, p, s);
        }
    }
    q
}
/// a path that is there, most of the time
pub fn path_for(rng: &mut Rng, w: &Merk) -> Path {
    let mut m = w;
    let mut p = vec![];
    while rng.chance(1, 2) {
        if rng.chance(1, 14) {
            p.push(near(rng, m));
            break;
        }
        let subs: Vec<&Entry> = m.nodes.iter().filter(|e| e.below.merk().is_some()).collect();
        if subs.is_empty() {
            break;
        }
        let e = *rng.pick(&subs);
        p.push(e.key.clone());
        if let Some(s) = e.below.merk() {
            m = s;
        }
    }
    p
}
pub fn limit_for(rng: &mut Rng) -> Option<u16> {
    match rng.below(4) {
        0 => Some(1 + rng.below(3) as u16),
        1 => Some(1 + rng.below(12) as u16),
        _ => None,
    }
}

// ---- chunks ------------------------------------------------------------------

/// the greatest height of a balanced tree with this many nodes
pub fn tallest(count: u64) -> u8 {
    let (mut a, mut b, mut h) = (0u128, 1u128, 0u8);
    // b: the fewest nodes of height h + 1
    while b <= count as u128 {
        (a, b) = (b, a + b + 1);
        h += 1;
    }
    h.min(92)
}
/// as even as can be, greater shares first
pub fn even(total: u32, parts: u32) -> Vec<u8> {
    (0..parts).map(|i| (total / parts + u32::from(i < total % parts)) as u8).collect()
}
/// None when the request is refused
pub fn split(depth: u8, max: u8, min: Option<u8>) -> Option<Vec<u8>> {
    if max == 0 || min == Some(0) || min.is_some_and(|m| m > max) {
        return None;
    }
    if depth <= max {
        return Some(vec![depth]);
    }
    let parts = (depth as u32).div_ceil(max as u32);
    let mut v = even(depth as u32, parts);
    if let Some(min) = min
        && v[0] < min
    {
        v = [vec![min], even((depth - min) as u32, parts - 1)].concat();
    }
    Some(v)
}
/// nodes less than `depth` below `top`
pub fn within(m: &Merk, top: Option<usize>, depth: usize) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<(usize, usize)> = top.map(|t| (t, 0)).into_iter().collect();
    while let Some((i, d)) = todo.pop() {
        if d < depth {
            out.insert(i);
            todo.extend([m.nodes[i].left, m.nodes[i].right].into_iter().flatten().map(|k| (k, d + 1)));
        }
    }
    out
}
