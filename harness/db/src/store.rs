//! Reads the rows really stored and rebuilds the database from them, without the code under test:
//! every node is decoded, hashed and checked against its links, and every row must be accounted for.
use crate::model::{self, Log, LogKind, Node, Tree, norm, root_key};
use crate::models::{Bulk, H, Range, b3, dense_root};
use crate::queries::{Key, Path};
use crate::world::{self, Below, Entry, Merk, NULL, kv_digest, value_hash};
use grovedb::Element;
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};

pub type Rows = BTreeMap<(u32, Vec<u8>), Vec<u8>>;
pub fn rows(dir: &std::path::Path) -> Rows {
    rocksdb::shim::dump(dir).expect("the store can be read")
}

pub fn prefix(path: &[Key]) -> H {
    if path.is_empty() {
        return [0; 32];
    }
    let mut body = vec![];
    for k in path.iter().rev() {
        body.extend(k);
    }
    body.extend((path.len() as u64).to_le_bytes());
    for k in path.iter().rev() {
        body.push(k.len() as u8);
    }
    b3(&[&body])
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Agg {
    pub count: u64,
    pub sum: i128,
}
struct Link {
    key: Key,
    hash: H,
    heights: (u8, u8),
    tag: u8,
    agg: Agg,
}
pub struct Row {
    left: Option<Link>,
    right: Option<Link>,
    tag: u8,
    own: Agg,
    kv: H,
    vh: H,
    pub value: Vec<u8>,
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let (a, b) = self.0.split_at_checked(n)?;
        self.0 = b;
        Some(a)
    }
    fn byte(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn hash(&mut self) -> Option<H> {
        self.take(32).map(|b| b.try_into().unwrap())
    }
    fn varint(&mut self) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = self.byte()?;
            v |= ((b & 127) as u64) << (7 * i);
            if b < 128 {
                return Some(v);
            }
        }
        None
    }
    fn zigzag(&mut self) -> Option<i64> {
        let v = self.varint()?;
        Some((v >> 1) as i64 ^ -((v & 1) as i64))
    }
    fn agg(&mut self) -> Option<(u8, Agg)> {
        let tag = self.byte()?;
        let mut a = Agg::default();
        match tag {
            0 => {}
            1 => a.sum = self.zigzag()? as i128,
            2 => a.sum = i128::from_be_bytes(self.take(16)?.try_into().unwrap()),
            3 | 5 => a.count = self.varint()?,
            4 | 6 => {
                a.count = self.varint()?;
                a.sum = self.zigzag()? as i128;
            }
            _ => return None,
        }
        Some((tag, a))
    }
    fn link(&mut self) -> Option<Option<Link>> {
        if self.byte()? == 0 {
            return Some(None);
        }
        let n = self.byte()? as usize;
        let key = self.take(n)?.to_vec();
        let hash = self.hash()?;
        let heights = (self.byte()?, self.byte()?);
        let (tag, agg) = self.agg()?;
        Some(Some(Link { key, hash, heights, tag, agg }))
    }
}
pub fn row(bytes: &[u8]) -> Option<Row> {
    let mut r = Rd(bytes);
    let (left, right) = (r.link()?, r.link()?);
    let (tag, own) = r.agg()?;
    let (kv, vh) = (r.hash()?, r.hash()?);
    Some(Row { left, right, tag, own, kv, vh, value: r.0.to_vec() })
}
fn tag_of(k: model::Kind) -> u8 {
    match k {
        model::Kind::Plain => 0,
        model::Kind::Sum => 1,
        model::Kind::BigSum => 2,
        model::Kind::Count => 3,
        model::Kind::CountSum => 4,
        model::Kind::PCount => 5,
        model::Kind::PCountSum => 6,
    }
}
fn world_kind(k: model::Kind) -> world::Kind {
    world::KINDS[model::KINDS.iter().position(|x| *x == k).unwrap()]
}
fn hx(p: &[Key]) -> String {
    p.iter().map(|k| vcommon::hex(k)).collect::<Vec<_>>().join("/")
}

/// what was found in the store
pub struct Found {
    pub root: H,
    pub world: Merk,
    /// for each reference, the hash of its target recorded with it is one of the two it may be
    pub refs: BTreeMap<(Path, Key), H>,
    pub nodes: usize,
    pub trees: usize,
    /// heights seen, for the evidence
    pub tallest: usize,
}
struct Auditor<'a> {
    rows: &'a Rows,
    used: BTreeSet<(u32, Vec<u8>)>,
    model: &'a Tree,
    found: Found,
}

/// Everything stored must be the model's contents, properly hashed and linked, and nothing else.
/// `Err` has a short name of what is wrong and the details.
pub fn audit(rows: &Rows, model: &Tree, aux: &BTreeMap<Key, Vec<u8>>) -> Result<Found, (&'static str, String)> {
    let mut a = Auditor {
        rows,
        used: BTreeSet::new(),
        model,
        found: Found { root: NULL, world: Merk { kind: world::Kind::Plain, nodes: vec![], root: None }, refs: BTreeMap::new(), nodes: 0, trees: 0, tallest: 0 },
    };
    let mut root_at = vec![0u8; 32];
    root_at.push(b'r');
    let top = rows.get(&(2, root_at.clone())).cloned();
    if top.is_some() {
        a.used.insert((2, root_at));
    }
    // the record of the topmost key may outlive the last key
    let top = top.filter(|_| !model.map.is_empty() || rows.keys().any(|k| k.0 == 0 && k.1.starts_with(&[0; 32])));
    let world = a.tree(&vec![], model, top)?;
    a.found.root = world.root_hash();
    a.found.world = world;
    for (k, v) in aux {
        let mut at = vec![0u8; 32];
        at.extend(k);
        match rows.get(&(1, at.clone())) {
            Some(x) if x == v => {}
            x => return Err(("auxiliary-data-differ", format!("aux {}: stored {:?}, expected {}", vcommon::hex(k), x.map(|x| vcommon::hex(x)), vcommon::hex(v)))),
        }
        a.used.insert((1, at));
    }
    let extra: Vec<_> = rows.keys().filter(|k| !a.used.contains(*k)).collect();
    if !extra.is_empty() {
        return Err(("rows-left-over", format!("{} rows belong to nothing, first: cf{} {}", extra.len(), extra[0].0, vcommon::hex(&extra[0].1))));
    }
    Ok(a.found)
}

type R<T> = Result<T, (&'static str, String)>;
impl Auditor<'_> {
    fn tree(&mut self, path: &Path, t: &Tree, root: Option<Key>) -> R<Merk> {
        self.found.trees += 1;
        let mut m = Merk { kind: world_kind(t.kind), nodes: vec![], root: None };
        let Some(root) = root else {
            if let Some(k) = t.map.keys().next() {
                return Err(("contents-differ", format!("tree {} is stored as empty, expected {} entries, first {}", hx(path), t.map.len(), vcommon::hex(k))));
            }
            return Ok(m);
        };
        let pre = prefix(path);
        let (_, h, _) = self.node(path, &pre, t, &root, None, None, &mut m)?;
        self.found.tallest = self.found.tallest.max(h as usize);
        let have: BTreeSet<&Key> = m.nodes.iter().map(|e| &e.key).collect();
        if let Some(k) = t.map.keys().find(|k| !have.contains(k)) {
            return Err(("contents-differ", format!("{} / {} is missing from the store", hx(path), vcommon::hex(k))));
        }
        // nodes were pushed in key order
        let at: BTreeMap<Key, usize> = m.nodes.iter().enumerate().map(|(i, e)| (e.key.clone(), i)).collect();
        m.root = at.get(&root).copied();
        Ok(m)
    }
    /// index, height, hash and aggregate of the node
    fn node(&mut self, path: &Path, pre: &H, t: &Tree, key: &Key, lo: Option<&Key>, hi: Option<&Key>, m: &mut Merk) -> R<(usize, u8, Agg)> {
        vcommon::tick();
        if lo.is_some_and(|l| l >= key) || hi.is_some_and(|h| h <= key) {
            return Err(("order-broken", format!("{} / {} is out of order", hx(path), vcommon::hex(key))));
        }
        let mut at = pre.to_vec();
        at.extend(key);
        let Some(bytes) = self.rows.get(&(0, at.clone())) else {
            return Err(("row-missing", format!("{} / {} is linked but not stored", hx(path), vcommon::hex(key))));
        };
        self.used.insert((0, at));
        let Some(r) = row(bytes) else {
            return Err(("row-undecodable", format!("{} / {}", hx(path), vcommon::hex(key))));
        };
        self.found.nodes += 1;
        let name = || format!("{} / {}", hx(path), vcommon::hex(key));
        let Some(want) = t.map.get(key) else {
            return Err(("contents-differ", format!("{} should not be there", name())));
        };
        let Ok(elem) = Element::deserialize(&r.value, GroveVersion::latest()) else {
            return Err(("row-undecodable", format!("element of {}", name())));
        };
        if norm(&elem) != want.element() {
            let sig = match (want, norm(&elem)) {
                (Node::Tree(w), ref e) if norm(&Node::Tree(Tree { map: BTreeMap::new(), ..w.clone() }).element()) != *e && w.map.is_empty() => "contents-differ",
                (Node::Tree(w), ref e) if e.is_any_tree() && e.get_flags() == &w.flags => "aggregate-differs",
                _ => "contents-differ",
            };
            return Err((sig, format!("{} is {elem}, expected {}", name(), want.element())));
        }
        // left, this, right, in key order
        let side = |me: &mut Self, l: &Option<Link>, lo: Option<&Key>, hi: Option<&Key>, m: &mut Merk| -> R<(Option<usize>, u8, H, Agg)> {
            let Some(l) = l else { return Ok((None, 0, NULL, Agg::default())) };
            let (i, h, agg) = me.node(path, pre, t, &l.key, lo, hi, m)?;
            let hash = m.nodes[i].hash;
            if hash != l.hash {
                return Err(("link-hash-differs", format!("{} records {} for its child {}, which hashes to {}", name(), vcommon::hex(&l.hash), vcommon::hex(&l.key), vcommon::hex(&hash))));
            }
            if h != 1 + l.heights.0.max(l.heights.1) {
                return Err(("link-height-differs", format!("{}: child {} has height {h}, link says {:?}", name(), vcommon::hex(&l.key), l.heights)));
            }
            let (want_tag, shown) = (tag_of(t.kind), shown(t.kind, agg));
            if l.tag != want_tag || l.agg != shown {
                return Err(("link-aggregate-differs", format!("{}: child {} holds {shown:?}, link says {} {:?}", name(), vcommon::hex(&l.key), l.tag, l.agg)));
            }
            Ok((Some(i), h, hash, agg))
        };
        let (left, lh, lhash, lagg) = side(self, &r.left, lo, Some(key), m)?;
        let below = self.below(path, key, &elem, want)?;
        let i = m.nodes.len();
        let target = match (&elem, self.reference(path, key)) {
            (Element::Reference(..), Some(n)) => Some(n),
            (Element::Reference(..), None) => Some(vec![]),
            _ => None,
        };
        m.nodes.push(Entry { key: key.clone(), elem: elem.clone(), value: r.value.clone(), vh: r.vh, target, below, left: None, right: None, hash: NULL, height: 0, count: 0, sum: 0 });
        let (right, rh, rhash, ragg) = side(self, &r.right, Some(key), hi, m)?;
        if lh.abs_diff(rh) > 1 {
            return Err(("unbalanced", format!("{}: heights {lh} and {rh}", name())));
        }
        let own_hash = value_hash(&r.value);
        let e = &m.nodes[i];
        match (&elem, &e.below) {
            (Element::Reference(..), _) => {
                self.found.refs.insert((path.clone(), key.clone()), r.vh);
            }
            (_, Below::Nothing) => {
                if r.vh != own_hash {
                    return Err(("value-hash-differs", name()));
                }
            }
            (_, b) => {
                let want = b3(&[&own_hash, &b.root()]);
                // an append-only tree that never held anything is recorded without a root
                let untouched = match b {
                    Below::Bulk(v, _) | Below::Commit(v, ..) | Below::Dense(v, _) => v.is_empty(),
                    Below::Mmr(r) => r.leaves.is_empty(),
                    _ => false,
                };
                if r.vh != want && !(untouched && !matches!(b, Below::Commit(..)) && r.vh == b3(&[&own_hash, &NULL])) {
                    return Err(("child-hash-differs", format!("{}: the value hash does not commit to what is below", name())));
                }
            }
        }
        if r.kv != kv_digest(key, &r.vh) {
            return Err(("kv-hash-differs", name()));
        }
        let own = own(t, want);
        if r.tag != tag_of(t.kind) || r.own != shown(t.kind, own) {
            return Err(("feature-differs", format!("{} records {} {:?}, expected {} {:?}", name(), r.tag, r.own, tag_of(t.kind), shown(t.kind, own))));
        }
        let agg = Agg { count: own.count.saturating_add(lagg.count).saturating_add(ragg.count), sum: own.sum.saturating_add(lagg.sum).saturating_add(ragg.sum) };
        let e = &mut m.nodes[i];
        (e.left, e.right, e.height) = (left, right, 1 + lh.max(rh) as usize);
        e.count = agg.count;
        e.sum = agg.sum as i64;
        e.hash = if t.kind.provable() { b3(&[&r.kv, &lhash, &rhash, &agg.count.to_be_bytes()]) } else { b3(&[&r.kv, &lhash, &rhash]) };
        Ok((i, 1 + lh.max(rh), agg))
    }
    /// what the reference leads to, as stored
    fn reference(&self, path: &Path, key: &Key) -> Option<Vec<u8>> {
        let (at, n) = self.model.read(path, key).ok()?;
        let (k, p) = at.split_last()?;
        let stored = self.rows.get(&(0, [&prefix(p)[..], k].concat())).and_then(|v| row(v)).map(|r| r.value);
        Some(stored.unwrap_or_else(|| world::ser(&n.element())))
    }
    fn below(&mut self, path: &Path, key: &Key, elem: &Element, want: &Node) -> R<Below> {
        let mut at = path.clone();
        at.push(key.clone());
        Ok(match want {
            Node::Leaf(_) => Below::Nothing,
            Node::Tree(t) => Below::Merk(self.tree(&at, t, root_key(elem).flatten())?),
            Node::Log(l) => self.log(&at, l)?,
        })
    }
    fn log(&mut self, at: &Path, l: &Log) -> R<Below> {
        let pre = prefix(at);
        let mine: Vec<(&(u32, Vec<u8>), &Vec<u8>)> = (0..4)
            .flat_map(|cf| {
                let mut end = pre.to_vec();
                end.extend([255; 16]);
                self.rows.range((cf, pre.to_vec())..=(cf, end))
            })
            .collect();
        let get = |k: &[u8]| self.rows.get(&(0, [&pre[..], k].concat()));
        let bad = |what: String| ("append-only-contents-differ", format!("{}: {what}", hx(at)));
        let n = l.values.len();
        let mmr = |r: &Range, width: usize| -> R<()> {
            for p in 0..r.size() {
                let k = match width {
                    4 => (p as u32 | 1 << 31).to_be_bytes().to_vec(),
                    _ => (p | 1 << 63).to_be_bytes().to_vec(),
                };
                let mut want = vec![0u8];
                want.extend(r.nodes[p as usize]);
                if let Some(i) = r.at.iter().position(|x| *x == p) {
                    want[0] = 1;
                    want.extend((r.leaves[i].len() as u32).to_be_bytes());
                    want.extend(&r.leaves[i]);
                }
                if get(&k) != Some(&want) {
                    return Err(bad(format!("node {p} is {:?}, expected {}", get(&k).map(|x| vcommon::hex(x)), vcommon::hex(&want))));
                }
            }
            Ok(())
        };
        let dense = |v: &[Vec<u8>]| -> R<()> {
            for (i, x) in v.iter().enumerate() {
                if get(&(i as u16).to_be_bytes()) != Some(x) {
                    return Err(bad(format!("position {i} is {:?}, expected {}", get(&(i as u16).to_be_bytes()).map(|x| vcommon::hex(x)), vcommon::hex(x))));
                }
            }
            Ok(())
        };
        if n == 0 && !mine.is_empty() && l.kind != LogKind::Dense(0) {
            return Err(("rows-left-over", format!("{}: an empty append-only tree has {} rows", hx(at), mine.len())));
        }
        let below = match l.kind {
            LogKind::Mmr => {
                let r = Range::of(&l.values);
                mmr(&r, 8)?;
                if mine.len() as u64 != r.size() {
                    return Err(bad(format!("{} rows for {} nodes", mine.len(), r.size())));
                }
                Below::Mmr(r)
            }
            LogKind::Bulk(p) | LogKind::Commit(p) => {
                let b = Bulk::of(&l.values, p);
                mmr(&b.chunks, 4)?;
                dense(&b.buffer)?;
                let commit = matches!(l.kind, LogKind::Commit(_));
                let most = b.chunks.size() as usize + (1usize << p) - 1 + commit as usize;
                if mine.len() > most {
                    return Err(bad(format!("{} rows, at most {most} expected", mine.len())));
                }
                if commit {
                    Below::Commit(l.values.clone(), p, crate::logs::anchor(&l.values))
                } else {
                    Below::Bulk(l.values.clone(), p)
                }
            }
            LogKind::Dense(h) => {
                dense(&l.values)?;
                if mine.len() != n {
                    return Err(bad(format!("{} rows for {n} values", mine.len())));
                }
                let _ = dense_root(&l.values);
                Below::Dense(l.values.clone(), h)
            }
        };
        for (k, _) in mine {
            self.used.insert(k.clone());
        }
        Ok(below)
    }
}
fn shown(k: model::Kind, a: Agg) -> Agg {
    Agg { count: if k.counts() { a.count } else { 0 }, sum: if k.sums() { a.sum } else { 0 } }
}
/// what an entry adds to its tree
fn own(t: &Tree, n: &Node) -> Agg {
    let one = Tree { kind: t.kind, flags: None, map: [(vec![], n.clone())].into() };
    let x = one.totals();
    Agg { count: x.count as u64, sum: x.sum }
}
