//! What the database should hold: nested ordered maps, with append-only lists at some leaves.
use grovedb::Element;
use grovedb::reference_path::path_from_reference_path_type;
use std::collections::BTreeMap;

pub type Key = Vec<u8>;
pub type Path = Vec<Key>;
pub type Flags = Option<Vec<u8>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Plain,
    Sum,
    BigSum,
    Count,
    CountSum,
    PCount,
    PCountSum,
}
pub const KINDS: [Kind; 7] = [Kind::Plain, Kind::Sum, Kind::BigSum, Kind::Count, Kind::CountSum, Kind::PCount, Kind::PCountSum];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum LogKind {
    Mmr,
    Bulk(u8),
    Dense(u8),
    Commit(u8),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Tree {
    pub kind: Kind,
    pub flags: Flags,
    pub map: BTreeMap<Key, Node>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Log {
    pub kind: LogKind,
    pub flags: Flags,
    pub values: Vec<Vec<u8>>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    Leaf(Element),
    Tree(Tree),
    Log(Log),
}
/// what an operation should do
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    Ok,
    Err,
    Any,
    /// not to be issued
    Skip,
}

/// the totals of a tree: how many, and how much
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Totals {
    pub count: u128,
    pub sum: i128,
    /// a part of the elements could exceed the range although all together do not
    pub close: bool,
    pub over: bool,
}
impl Kind {
    pub fn sums(self) -> bool {
        matches!(self, Kind::Sum | Kind::BigSum | Kind::CountSum | Kind::PCountSum)
    }
    pub fn counts(self) -> bool {
        matches!(self, Kind::Count | Kind::CountSum | Kind::PCount | Kind::PCountSum)
    }
    pub fn provable(self) -> bool {
        matches!(self, Kind::PCount | Kind::PCountSum)
    }
}
impl Tree {
    pub fn new(kind: Kind, flags: Flags) -> Tree {
        Tree { kind, flags, map: BTreeMap::new() }
    }
    /// what one entry adds to the totals of the tree that holds it
    fn weight(&self, n: &Node) -> (u128, i128, bool, bool) {
        match n {
            Node::Leaf(Element::SumItem(v, _)) | Node::Leaf(Element::ItemWithSumItem(_, v, _)) => (1, *v as i128, false, false),
            Node::Leaf(_) | Node::Log(_) => (1, 0, false, false),
            Node::Tree(t) => {
                let x = t.totals();
                let count = if t.kind.counts() { x.count } else { 1 };
                let sum = match t.kind {
                    Kind::BigSum if self.kind != Kind::BigSum => 0,
                    k if k.sums() => x.sum,
                    _ => 0,
                };
                (count, sum, x.close, x.over)
            }
        }
    }
    pub fn totals(&self) -> Totals {
        let mut r = Totals::default();
        let (mut plus, mut minus) = (0i128, 0i128);
        for n in self.map.values() {
            let (c, s, close, over) = self.weight(n);
            r.count += c;
            if s > 0 { plus = plus.saturating_add(s) } else { minus = minus.saturating_add(s) }
            r.close |= close;
            r.over |= over;
        }
        r.sum = plus.saturating_add(minus);
        let fits = |v: i128| self.kind == Kind::BigSum || !self.kind.sums() || (i64::MIN as i128 <= v && v <= i64::MAX as i128);
        if !fits(r.sum) {
            r.over = true;
        }
        if !fits(plus) || !fits(minus) {
            r.close = true;
        }
        r
    }
    pub fn get(&self, path: &[Key]) -> Option<&Node> {
        let (first, rest) = path.split_first()?;
        let n = self.map.get(first)?;
        if rest.is_empty() {
            return Some(n);
        }
        match n {
            Node::Tree(t) => t.get(rest),
            _ => None,
        }
    }
    pub fn at(&self, path: &[Key]) -> Option<&Tree> {
        if path.is_empty() {
            return Some(self);
        }
        match self.get(path)? {
            Node::Tree(t) => Some(t),
            _ => None,
        }
    }
    pub fn at_mut(&mut self, path: &[Key]) -> Option<&mut Tree> {
        let Some((first, rest)) = path.split_first() else { return Some(self) };
        match self.map.get_mut(first)? {
            Node::Tree(t) => t.at_mut(rest),
            _ => None,
        }
    }
    pub fn log_mut(&mut self, path: &[Key], key: &[u8]) -> Option<&mut Log> {
        match self.at_mut(path)?.map.get_mut(key)? {
            Node::Log(l) => Some(l),
            _ => None,
        }
    }
    /// every tree, itself first
    pub fn trees(&self) -> Vec<Path> {
        let mut out = vec![vec![]];
        for (k, n) in &self.map {
            if let Node::Tree(t) = n {
                for mut p in t.trees() {
                    p.insert(0, k.clone());
                    out.push(p);
                }
            }
        }
        out
    }
    pub fn logs(&self) -> Vec<(Path, Key)> {
        let mut out = vec![];
        for p in self.trees() {
            for (k, n) in &self.at(&p).unwrap().map {
                if matches!(n, Node::Log(_)) {
                    out.push((p.clone(), k.clone()));
                }
            }
        }
        out
    }
    pub fn size(&self) -> usize {
        self.map.values().map(|n| 1 + if let Node::Tree(t) = n { t.size() } else { 0 }).sum()
    }
    /// whether some total is out of range, or may be while it is being computed
    pub fn over(&self) -> Want {
        let t = self.totals();
        let mut w = if t.over {
            Want::Err
        } else if t.close {
            Want::Any
        } else {
            Want::Ok
        };
        for n in self.map.values() {
            if let Node::Tree(t) = n {
                match t.over() {
                    Want::Err => return Want::Err,
                    Want::Any => w = if w == Want::Ok { Want::Any } else { w },
                    _ => {}
                }
            }
        }
        w
    }
    /// the element at the end of a reference chain
    pub fn follow(&self, start: &[Key]) -> Result<(Path, &Node), &'static str> {
        let mut seen: Vec<Path> = vec![];
        let mut at: Path = start.to_vec();
        for _ in 0..10 {
            if seen.contains(&at) {
                return Err("cycle");
            }
            let Some(n) = self.get(&at) else { return Err("missing") };
            seen.push(at.clone());
            let Node::Leaf(Element::Reference(r, ..)) = n else { return Ok((at, n)) };
            let (k, p) = at.split_last().unwrap();
            match path_from_reference_path_type(r.clone(), p, Some(k)) {
                Ok(x) => at = x,
                Err(_) => return Err("unresolvable"),
            }
            if at.is_empty() {
                return Err("root");
            }
        }
        Err("limit")
    }
    /// what reading this entry gives
    pub fn read(&self, path: &[Key], key: &[u8]) -> Result<(Path, &Node), &'static str> {
        let at: Path = path.iter().cloned().chain([key.to_vec()]).collect();
        let n = self.get(&at).ok_or("missing")?;
        let Node::Leaf(Element::Reference(r, ..)) = n else { return Ok((at, n)) };
        let to = path_from_reference_path_type(r.clone(), path, Some(key)).map_err(|_| "unresolvable")?;
        self.follow(&to)
    }
}
impl Node {
    pub fn of(e: &Element) -> Node {
        let t = |k, f: &Flags| Node::Tree(Tree::new(k, f.clone()));
        let l = |kind, f: &Flags| Node::Log(Log { kind, flags: f.clone(), values: vec![] });
        match e {
            Element::Tree(_, f) => t(Kind::Plain, f),
            Element::SumTree(_, _, f) => t(Kind::Sum, f),
            Element::BigSumTree(_, _, f) => t(Kind::BigSum, f),
            Element::CountTree(_, _, f) => t(Kind::Count, f),
            Element::CountSumTree(_, _, _, f) => t(Kind::CountSum, f),
            Element::ProvableCountTree(_, _, f) => t(Kind::PCount, f),
            Element::ProvableCountSumTree(_, _, _, f) => t(Kind::PCountSum, f),
            Element::MmrTree(_, f) => l(LogKind::Mmr, f),
            Element::BulkAppendTree(_, p, f) => l(LogKind::Bulk(*p), f),
            Element::DenseAppendOnlyFixedSizeTree(_, h, f) => l(LogKind::Dense(*h), f),
            Element::CommitmentTree(_, p, f) => l(LogKind::Commit(*p), f),
            _ => Node::Leaf(e.clone()),
        }
    }
    pub fn is_tree(&self) -> bool {
        !matches!(self, Node::Leaf(_))
    }
    pub fn is_ref(&self) -> bool {
        matches!(self, Node::Leaf(Element::Reference(..)))
    }
    pub fn empty(&self) -> bool {
        match self {
            Node::Tree(t) => t.map.is_empty(),
            Node::Log(l) => l.values.is_empty(),
            Node::Leaf(_) => false,
        }
    }
    pub fn flags(&self) -> Flags {
        match self {
            Node::Leaf(e) => e.get_flags().clone(),
            Node::Tree(t) => t.flags.clone(),
            Node::Log(l) => l.flags.clone(),
        }
    }
    /// the element stored for it; the key of a tree's root is not known here and shown as empty
    pub fn element(&self) -> Element {
        match self {
            Node::Leaf(e) => e.clone(),
            Node::Tree(t) => {
                let x = t.totals();
                let r = (!t.map.is_empty()).then(Vec::new);
                let f = t.flags.clone();
                let (s, c) = (x.sum as i64, x.count as u64);
                match t.kind {
                    Kind::Plain => Element::Tree(r, f),
                    Kind::Sum => Element::SumTree(r, s, f),
                    Kind::BigSum => Element::BigSumTree(r, x.sum, f),
                    Kind::Count => Element::CountTree(r, c, f),
                    Kind::CountSum => Element::CountSumTree(r, c, s, f),
                    Kind::PCount => Element::ProvableCountTree(r, c, f),
                    Kind::PCountSum => Element::ProvableCountSumTree(r, c, s, f),
                }
            }
            Node::Log(l) => {
                let n = l.values.len() as u64;
                let f = l.flags.clone();
                match l.kind {
                    LogKind::Mmr => Element::MmrTree(2 * n - n.count_ones() as u64, f),
                    LogKind::Bulk(p) => Element::BulkAppendTree(n, p, f),
                    LogKind::Dense(h) => Element::DenseAppendOnlyFixedSizeTree(n as u16, h, f),
                    LogKind::Commit(p) => Element::CommitmentTree(n, p, f),
                }
            }
        }
    }
}
/// an element with the key of its root, if any, replaced by an empty one
pub fn norm(e: &Element) -> Element {
    let mut e = e.clone();
    match &mut e {
        Element::Tree(r, _)
        | Element::SumTree(r, ..)
        | Element::BigSumTree(r, ..)
        | Element::CountTree(r, ..)
        | Element::CountSumTree(r, ..)
        | Element::ProvableCountTree(r, ..)
        | Element::ProvableCountSumTree(r, ..) => {
            if let Some(k) = r {
                k.clear();
            }
        }
        _ => {}
    }
    e
}
pub fn root_key(e: &Element) -> Option<Option<Key>> {
    match e {
        Element::Tree(r, _)
        | Element::SumTree(r, ..)
        | Element::BigSumTree(r, ..)
        | Element::CountTree(r, ..)
        | Element::CountSumTree(r, ..)
        | Element::ProvableCountTree(r, ..)
        | Element::ProvableCountSumTree(r, ..) => Some(r.clone()),
        _ => None,
    }
}
