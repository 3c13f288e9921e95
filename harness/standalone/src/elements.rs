//! E01: stored elements decode to exactly what was written.
//! E02: references resolve to the path their kind defines.
use grovedb_element::{
    Element, ElementType, ProofNodeType,
    reference_path::{ReferencePathType, path_from_reference_path_type, path_from_reference_qualified_path_type},
};
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_version::version::{GROVE_VERSIONS, GroveVersion};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

// ---------------------------------------------------------------------------
// the stored format, written out independently

pub struct W(pub Vec<u8>);
impl W {
    fn u(&mut self, n: u128) {
        if n < 251 {
            self.0.push(n as u8);
        } else if n <= u16::MAX as u128 {
            self.0.push(251);
            self.0.extend((n as u16).to_be_bytes());
        } else if n <= u32::MAX as u128 {
            self.0.push(252);
            self.0.extend((n as u32).to_be_bytes());
        } else if n <= u64::MAX as u128 {
            self.0.push(253);
            self.0.extend((n as u64).to_be_bytes());
        } else {
            self.0.push(254);
            self.0.extend(n.to_be_bytes());
        }
    }
    fn i(&mut self, n: i128) {
        self.u(if n >= 0 { (n as u128) << 1 } else { !((n as u128) << 1) })
    }
    fn vec(&mut self, v: &[u8]) {
        self.u(v.len() as u128);
        self.0.extend_from_slice(v);
    }
    fn opt(&mut self, v: &Option<Vec<u8>>) {
        match v {
            None => self.0.push(0),
            Some(v) => {
                self.0.push(1);
                self.vec(v)
            }
        }
    }
    fn path(&mut self, p: &[Vec<u8>]) {
        self.u(p.len() as u128);
        for s in p {
            self.vec(s)
        }
    }
    fn reference(&mut self, r: &ReferencePathType) {
        use ReferencePathType::*;
        match r {
            AbsolutePathReference(p) => {
                self.0.push(0);
                self.path(p)
            }
            UpstreamRootHeightReference(n, p) => {
                self.0.extend([1, *n]);
                self.path(p)
            }
            UpstreamRootHeightWithParentPathAdditionReference(n, p) => {
                self.0.extend([2, *n]);
                self.path(p)
            }
            UpstreamFromElementHeightReference(n, p) => {
                self.0.extend([3, *n]);
                self.path(p)
            }
            CousinReference(k) => {
                self.0.push(4);
                self.vec(k)
            }
            RemovedCousinReference(p) => {
                self.0.push(5);
                self.path(p)
            }
            SiblingReference(k) => {
                self.0.push(6);
                self.vec(k)
            }
        }
    }
    fn element(&mut self, e: &Element) {
        use Element::*;
        self.0.push(kind(e));
        match e {
            Item(v, f) => {
                self.vec(v);
                self.opt(f)
            }
            Reference(r, h, f) => {
                self.reference(r);
                match h {
                    None => self.0.push(0),
                    Some(h) => self.0.extend([1, *h]),
                }
                self.opt(f)
            }
            Tree(k, f) => {
                self.opt(k);
                self.opt(f)
            }
            SumItem(s, f) => {
                self.i(*s as i128);
                self.opt(f)
            }
            SumTree(k, s, f) => {
                self.opt(k);
                self.i(*s as i128);
                self.opt(f)
            }
            BigSumTree(k, s, f) => {
                self.opt(k);
                self.i(*s);
                self.opt(f)
            }
            CountTree(k, c, f) | ProvableCountTree(k, c, f) => {
                self.opt(k);
                self.u(*c as u128);
                self.opt(f)
            }
            CountSumTree(k, c, s, f) | ProvableCountSumTree(k, c, s, f) => {
                self.opt(k);
                self.u(*c as u128);
                self.i(*s as i128);
                self.opt(f)
            }
            ItemWithSumItem(v, s, f) => {
                self.vec(v);
                self.i(*s as i128);
                self.opt(f)
            }
            CommitmentTree(n, p, f) | BulkAppendTree(n, p, f) => {
                self.u(*n as u128);
                self.0.push(*p);
                self.opt(f)
            }
            MmrTree(n, f) => {
                self.u(*n as u128);
                self.opt(f)
            }
            DenseAppendOnlyFixedSizeTree(n, h, f) => {
                self.u(*n as u128);
                self.0.push(*h);
                self.opt(f)
            }
        }
    }
}

pub fn kind(e: &Element) -> u8 {
    use Element::*;
    match e {
        Item(..) => 0,
        Reference(..) => 1,
        Tree(..) => 2,
        SumItem(..) => 3,
        SumTree(..) => 4,
        BigSumTree(..) => 5,
        CountTree(..) => 6,
        CountSumTree(..) => 7,
        ProvableCountTree(..) => 8,
        ItemWithSumItem(..) => 9,
        ProvableCountSumTree(..) => 10,
        CommitmentTree(..) => 11,
        MmrTree(..) => 12,
        BulkAppendTree(..) => 13,
        DenseAppendOnlyFixedSizeTree(..) => 14,
    }
}

pub fn encode(e: &Element) -> Vec<u8> {
    let mut w = W(Vec::new());
    w.element(e);
    w.0
}

/// Reads the stored format; `odd` is set when a number is not in its shortest
/// form.
struct R<'a> {
    b: &'a [u8],
    odd: bool,
}
impl R<'_> {
    fn byte(&mut self) -> Option<u8> {
        let (x, r) = self.b.split_first()?;
        self.b = r;
        Some(*x)
    }
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        if self.b.len() < n {
            return None;
        }
        let (x, r) = self.b.split_at(n);
        self.b = r;
        Some(x)
    }
    /// an unsigned number whose type has `width` bytes
    fn u(&mut self, width: usize) -> Option<u128> {
        let t = self.byte()?;
        let n = match t {
            0..=250 => return Some(t as u128),
            251 => 2,
            252 => 4,
            253 => 8,
            254 => 16,
            255 => return None,
        };
        if n > width {
            return None;
        }
        let mut x = 0u128;
        for b in self.take(n)? {
            x = x << 8 | *b as u128;
        }
        let least = match n {
            2 => 251,
            4 => 1 << 16,
            8 => 1 << 32,
            _ => 1 << 64,
        };
        if x < least {
            self.odd = true;
        }
        Some(x)
    }
    fn i(&mut self, width: usize) -> Option<i128> {
        let x = self.u(width)?;
        Some(if x & 1 == 0 { (x >> 1) as i128 } else { !((x >> 1) as i128) })
    }
    fn vec(&mut self) -> Option<Vec<u8>> {
        let n = self.u(8)?;
        if n > self.b.len() as u128 {
            return None;
        }
        self.take(n as usize).map(|x| x.to_vec())
    }
    fn opt(&mut self) -> Option<Option<Vec<u8>>> {
        match self.byte()? {
            0 => Some(None),
            1 => Some(Some(self.vec()?)),
            _ => None,
        }
    }
    fn path(&mut self) -> Option<Vec<Vec<u8>>> {
        let n = self.u(8)?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(self.vec()?);
        }
        Some(v)
    }
    fn disc(&mut self) -> Option<u128> {
        self.u(4)
    }
    fn reference(&mut self) -> Option<ReferencePathType> {
        use ReferencePathType::*;
        Some(match self.disc()? {
            0 => AbsolutePathReference(self.path()?),
            1 => UpstreamRootHeightReference(self.byte()?, self.path()?),
            2 => UpstreamRootHeightWithParentPathAdditionReference(self.byte()?, self.path()?),
            3 => UpstreamFromElementHeightReference(self.byte()?, self.path()?),
            4 => CousinReference(self.vec()?),
            5 => RemovedCousinReference(self.path()?),
            6 => SiblingReference(self.vec()?),
            _ => return None,
        })
    }
    fn element(&mut self) -> Option<Element> {
        use Element::*;
        Some(match self.disc()? {
            0 => Item(self.vec()?, self.opt()?),
            1 => Reference(
                self.reference()?,
                match self.byte()? {
                    0 => None,
                    1 => Some(self.byte()?),
                    _ => return None,
                },
                self.opt()?,
            ),
            2 => Tree(self.opt()?, self.opt()?),
            3 => SumItem(self.i(8)? as i64, self.opt()?),
            4 => SumTree(self.opt()?, self.i(8)? as i64, self.opt()?),
            5 => BigSumTree(self.opt()?, self.i(16)?, self.opt()?),
            6 => CountTree(self.opt()?, self.u(8)? as u64, self.opt()?),
            7 => CountSumTree(self.opt()?, self.u(8)? as u64, self.i(8)? as i64, self.opt()?),
            8 => ProvableCountTree(self.opt()?, self.u(8)? as u64, self.opt()?),
            9 => ItemWithSumItem(self.vec()?, self.i(8)? as i64, self.opt()?),
            10 => ProvableCountSumTree(self.opt()?, self.u(8)? as u64, self.i(8)? as i64, self.opt()?),
            11 => CommitmentTree(self.u(8)? as u64, self.byte()?, self.opt()?),
            12 => MmrTree(self.u(8)? as u64, self.opt()?),
            13 => BulkAppendTree(self.u(8)? as u64, self.byte()?, self.opt()?),
            14 => DenseAppendOnlyFixedSizeTree(self.u(2)? as u16, self.byte()?, self.opt()?),
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------------------
// generators

pub fn blob(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 249 + rng.usize(5),
        3 => 254 + rng.usize(4),
        4 if rng.chance(1, 8) => 65534 + rng.usize(4),
        _ => rng.usize(40),
    };
    let mut b = rng.bytes(n);
    if rng.chance(1, 4) {
        let f = *rng.pick(&[0u8, 1, 250, 251, 252, 253, 254, 255]);
        b.iter_mut().for_each(|x| *x = f);
    }
    b
}
pub fn flags(rng: &mut Rng) -> Option<Vec<u8>> {
    if rng.bool() { None } else { Some(blob(rng)) }
}
fn segs(rng: &mut Rng) -> Vec<Vec<u8>> {
    let n = match rng.below(20) {
        0 => 0,
        1 => 250 + rng.usize(8),
        _ => rng.usize(5),
    };
    (0..n).map(|_| if rng.chance(1, 10) { blob(rng) } else { let k = rng.usize(4); rng.bytes(k) }).collect()
}
pub fn reference(rng: &mut Rng) -> ReferencePathType {
    use ReferencePathType::*;
    let n = match rng.below(4) {
        0 => 0,
        1 => rng.below(256) as u8,
        _ => rng.below(5) as u8,
    };
    match rng.below(7) {
        0 => AbsolutePathReference(segs(rng)),
        1 => UpstreamRootHeightReference(n, segs(rng)),
        2 => UpstreamRootHeightWithParentPathAdditionReference(n, segs(rng)),
        3 => UpstreamFromElementHeightReference(n, segs(rng)),
        4 => CousinReference(blob(rng)),
        5 => RemovedCousinReference(segs(rng)),
        _ => SiblingReference(blob(rng)),
    }
}
fn big(rng: &mut Rng) -> i128 {
    match rng.below(5) {
        0 => i128::MIN + rng.below(3) as i128,
        1 => i128::MAX - rng.below(3) as i128,
        2 => ((rng.u64() as u128) << 64 | rng.u64() as u128) as i128,
        3 => *rng.pick(&[0i128, -1, 1, 124, 125, 126, -125, -126, -127, 32767, 32768, -32768, -32769, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, i64::MIN as i128 - 1]),
        _ => rng.edge_i64() as i128,
    }
}
pub fn element(rng: &mut Rng) -> Element {
    use Element::*;
    let f = flags(rng);
    let k = if rng.bool() { None } else { Some(blob(rng)) };
    match rng.below(15) {
        0 => Item(blob(rng), f),
        1 => Reference(reference(rng), if rng.bool() { None } else { Some(rng.below(256) as u8) }, f),
        2 => Tree(k, f),
        3 => SumItem(rng.edge_i64(), f),
        4 => SumTree(k, rng.edge_i64(), f),
        5 => BigSumTree(k, big(rng), f),
        6 => CountTree(k, rng.edge_u64(), f),
        7 => CountSumTree(k, rng.edge_u64(), rng.edge_i64(), f),
        8 => ProvableCountTree(k, rng.edge_u64(), f),
        9 => ItemWithSumItem(blob(rng), rng.edge_i64(), f),
        10 => ProvableCountSumTree(k, rng.edge_u64(), rng.edge_i64(), f),
        11 => CommitmentTree(rng.edge_u64(), rng.below(256) as u8, f),
        12 => MmrTree(rng.edge_u64(), f),
        13 => BulkAppendTree(rng.edge_u64(), rng.below(256) as u8, f),
        _ => DenseAppendOnlyFixedSizeTree(*rng.pick(&[0u16, 1, 250, 251, 255, 256, 32767, 65535]), rng.below(256) as u8, f),
    }
}

/// the element's parts: kind, root key, count, sum, flags, as written by hand
fn parts(e: &Element) -> (Option<&Option<Vec<u8>>>, Option<u64>, Option<i128>, &Option<Vec<u8>>) {
    use Element::*;
    match e {
        Item(_, f) | Reference(_, _, f) => (None, None, None, f),
        Tree(k, f) => (Some(k), None, None, f),
        SumItem(s, f) | ItemWithSumItem(_, s, f) => (None, None, Some(*s as i128), f),
        SumTree(k, s, f) => (Some(k), None, Some(*s as i128), f),
        BigSumTree(k, s, f) => (Some(k), None, Some(*s), f),
        CountTree(k, c, f) | ProvableCountTree(k, c, f) => (Some(k), Some(*c), None, f),
        CountSumTree(k, c, s, f) | ProvableCountSumTree(k, c, s, f) => (Some(k), Some(*c), Some(*s as i128), f),
        CommitmentTree(_, _, f) | BulkAppendTree(_, _, f) | MmrTree(_, f) | DenseAppendOnlyFixedSizeTree(_, _, f) => (None, None, None, f),
    }
}

fn codec(c: &mut Case) -> Res {
    let gv: &'static GroveVersion = c.rng.pick(GROVE_VERSIONS);
    let e = element(&mut c.rng);
    let want = encode(&e);
    c.note(format!("element {e:?}"));
    let got = c.must(e.serialize(gv), "serialize")?;
    c.ensure(got == want, "stored-form", || format!("stored as {}\nexpected  {}", hex(&got), hex(&want)))?;
    let size = c.must(e.serialized_size(gv), "serialized-size")?;
    c.same(&size, &want.len(), "serialized-size")?;
    let back = c.must(Element::deserialize(&want, gv), "deserialize")?;
    c.ensure(back == e, "round-trip", || format!("read back {back:?}"))?;
    let ty = c.must(ElementType::from_serialized_value(&want), "type-of-bytes")?;
    c.same(&ty, &e.element_type(), "type-of-bytes")?;
    c.same(&(ty as u8), &kind(&e), "type-number")?;
    c.ensure(ElementType::try_from(kind(&e)).ok() == Some(ty), "type-number", || format!("{ty:?}"))?;
    // two elements with the same stored form are the same element
    let o = element(&mut c.rng);
    c.same(&(encode(&o) == want), &(o == e), "distinct-forms")?;

    // accessors agree with the element
    let k = kind(&e);
    let (root, count, sum, fl) = parts(&e);
    let (fl, root, count, sum) = (fl.clone(), root.cloned(), count, sum);
    let item = matches!(k, 0 | 3 | 9);
    let nonmerk = (11..=14).contains(&k);
    let tree = !item && k != 1;
    let preds: Vec<(&str, bool, bool)> = vec![
        ("is_any_item", e.is_any_item(), item),
        ("is_basic_item", e.is_basic_item(), k == 0),
        ("has_basic_item", e.has_basic_item(), k == 0 || k == 9),
        ("is_sum_item", e.is_sum_item(), k == 3 || k == 9),
        ("is_item_with_sum_item", e.is_item_with_sum_item(), k == 9),
        ("is_reference", e.is_reference(), k == 1),
        ("is_any_tree", e.is_any_tree(), tree),
        ("is_basic_tree", e.is_basic_tree(), k == 2),
        ("is_sum_tree", e.is_sum_tree(), k == 4),
        ("is_big_sum_tree", e.is_big_sum_tree(), k == 5),
        ("is_commitment_tree", e.is_commitment_tree(), k == 11),
        ("is_mmr_tree", e.is_mmr_tree(), k == 12),
        ("is_bulk_append_tree", e.is_bulk_append_tree(), k == 13),
        ("is_dense_tree", e.is_dense_tree(), k == 14),
        ("uses_non_merk_data_storage", e.uses_non_merk_data_storage(), nonmerk),
        ("is_non_empty_tree", e.is_non_empty_tree(), nonmerk || matches!(root, Some(Some(_)))),
        ("is_non_empty_merk_tree", e.is_non_empty_merk_tree(), matches!(root, Some(Some(_)))),
        ("type is_tree", ty.is_tree(), tree),
        ("type is_item", ty.is_item(), item),
        ("type is_reference", ty.is_reference(), k == 1),
        ("type has_simple_value_hash", ty.has_simple_value_hash(), item),
        ("type has_combined_value_hash", ty.has_combined_value_hash(), !item),
    ];
    for (n, got, want) in preds {
        c.ensure(got == want, "kind-predicates", || format!("{n} says {got}"))?;
    }
    let s64 = if k == 5 { 0 } else { sum.unwrap_or(0) as i64 };
    c.same(&e.sum_value_or_default(), &s64, "sum-value")?;
    c.same(&e.big_sum_value_or_default(), &sum.unwrap_or(0), "big-sum-value")?;
    c.same(&e.count_value_or_default(), &count.unwrap_or(1), "count-value")?;
    c.same(&e.count_sum_value_or_default(), &(count.unwrap_or(1), s64), "count-sum-value")?;
    let si = if k == 3 || k == 9 { Some(s64) } else { None };
    c.same(&e.as_sum_item_value().ok(), &si, "sum-item-value")?;
    c.same(&e.clone().into_sum_item_value().ok(), &si, "sum-item-value")?;
    let st = if k == 4 { Some(s64) } else { None };
    c.same(&e.as_sum_tree_value().ok(), &st, "sum-tree-value")?;
    c.same(&e.clone().into_sum_tree_value().ok(), &st, "sum-tree-value")?;
    let bytes = match &e {
        Element::Item(v, _) | Element::ItemWithSumItem(v, ..) => Some(v.clone()),
        _ => None,
    };
    c.same(&e.as_item_bytes().ok().map(|x| x.to_vec()), &bytes, "item-bytes")?;
    c.same(&e.clone().into_item_bytes().ok(), &bytes, "item-bytes")?;
    let nm = match &e {
        Element::CommitmentTree(n, ..) | Element::BulkAppendTree(n, ..) | Element::MmrTree(n, _) => Some(*n),
        Element::DenseAppendOnlyFixedSizeTree(n, ..) => Some(*n as u64),
        _ => None,
    };
    c.same(&e.non_merk_entry_count(), &nm, "entry-count")?;
    c.same(e.get_flags(), &fl, "flags")?;
    c.same(&e.clone().get_flags_owned(), &fl, "flags")?;
    let nf = flags(&mut c.rng);
    let mut m = e.clone();
    m.set_flags(nf.clone());
    c.same(m.get_flags(), &nf, "set-flags")?;
    *m.get_flags_mut() = fl.clone();
    c.ensure(m == e, "set-flags", || format!("{m:?}"))?;
    // proofs show a value in a form in which the verifier can check it
    for parent in [None, Some(ElementType::Tree), Some(ElementType::SumTree), Some(ElementType::BigSumTree), Some(ElementType::CountTree), Some(ElementType::CountSumTree), Some(ElementType::ProvableCountTree), Some(ElementType::ProvableCountSumTree)] {
        let provable = matches!(parent, Some(ElementType::ProvableCountTree | ElementType::ProvableCountSumTree));
        let want = match (item, k == 1, provable) {
            (true, _, false) => ProofNodeType::Kv,
            (true, _, true) => ProofNodeType::KvCount,
            (_, true, false) => ProofNodeType::KvRefValueHash,
            (_, true, true) => ProofNodeType::KvRefValueHashCount,
            (_, _, false) => ProofNodeType::KvValueHash,
            (_, _, true) => ProofNodeType::KvValueHashFeatureType,
        };
        c.same(&ty.proof_node_type(parent), &want, "proof-node-type")?;
    }
    c.eval(fnv(&want), true);
    c.count(KINDS[k as usize], 1);
    if c.wants_sample() {
        c.sample(format!("{} stored as {}", e.type_str(), hex(&want[..want.len().min(40)])));
    }
    Ok(())
}
const KINDS: [&str; 15] = [
    "item", "reference", "tree", "sum_item", "sum_tree", "big_sum_tree", "count_tree", "count_sum_tree", "provable_count_tree",
    "item_with_sum", "provable_count_sum_tree", "commitment", "mmr", "bulk", "dense",
];

/// arbitrary and damaged bytes: refused, or read as what they say
fn bytes(c: &mut Case) -> Res {
    let gv: &'static GroveVersion = c.rng.pick(GROVE_VERSIONS);
    let mut b = if c.rng.chance(1, 4) {
        let n = c.rng.usize(40);
        let mut b = c.rng.bytes(n);
        if !b.is_empty() && c.rng.bool() {
            b[0] %= 17;
        }
        b
    } else {
        encode(&element(&mut c.rng))
    };
    for _ in 0..c.rng.below(4) {
        match c.rng.below(5) {
            0 if !b.is_empty() => {
                let i = c.rng.usize(b.len());
                b[i] = c.rng.u64() as u8;
            }
            1 if !b.is_empty() => {
                let i = c.rng.usize(b.len().min(12));
                b[i] = *c.rng.pick(&[0, 1, 2, 14, 15, 250, 251, 252, 253, 254, 255]);
            }
            2 => {
                let n = c.rng.usize(b.len() + 1);
                b.truncate(n);
            }
            3 => {
                let i = c.rng.usize(b.len() + 1);
                let k = c.rng.usize(5);
                let ins = c.rng.bytes(k);
                b.splice(i..i, ins);
            }
            _ if !b.is_empty() => {
                let i = c.rng.usize(b.len());
                b.remove(i);
            }
            _ => {}
        }
    }
    c.note(format!("bytes {}", hex(&b)));
    let mut r = R { b: &b, odd: false };
    let want = r.element();
    let (left, odd) = (r.b.len(), r.odd);
    let (got, _, largest) = vcommon::measure_alloc(|| vcommon::catch(|| Element::deserialize(&b, gv)));
    let got = match got {
        Ok(g) => g,
        Err((l, m)) => return c.fail("decode-panics", format!("panicked at {l}: {m}")),
    };
    c.ensure(largest <= (300 << 20), "decode-allocates", || format!("one allocation of {largest} bytes for {} input bytes", b.len()))?;
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            c.count("read", 1);
            c.ensure(g == w, "decode-meaning", || format!("read as {g:?}\nsays    {w:?}"))?
        }
        (Err(_), None) => c.count("refused", 1),
        // refusing a number in an unusual form, or bytes after the element, is fine
        (Err(_), Some(_)) if odd || left > 0 => {}
        (Err(e), Some(w)) => return c.fail("decode-refuses", format!("refused ({e}) although it is {w:?}")),
        (Ok(g), None) => return c.fail("decode-accepts", format!("not an element, but read as {g:?}")),
    }
    c.same(&ElementType::from_serialized_value(&b).ok().map(|t| t as u8), &b.first().copied().filter(|x| *x <= 14), "type-of-any-bytes")?;
    c.eval(fnv(&b), !b.is_empty());
    Ok(())
}

pub fn e01(ctx: &Ctx) {
    ctx.rule("random elements of all 15 kinds with boundary sums, counts, sizes and flags in every published version, compared with an independently written encoder; damaged and arbitrary bytes compared with an independently written decoder. Non-trivial: every distinct stored form.");
    ctx.assume("bytes after a complete element, and numbers not in their shortest form, may be accepted or refused");
    ctx.cases("codec", ctx.n(400_000, 6_000_000), codec);
    ctx.cases("bytes", ctx.n(400_000, 6_000_000), bytes);
    for k in KINDS {
        ctx.require(k, 500);
    }
    ctx.require("read", 1000);
    ctx.require("refused", 1000);
}

// ---------------------------------------------------------------------------
// E02

fn resolve(r: &ReferencePathType, path: &[Vec<u8>], key: Option<&[u8]>) -> Option<Vec<Vec<u8>>> {
    use ReferencePathType::*;
    let n = path.len();
    Some(match r {
        AbsolutePathReference(p) => p.clone(),
        UpstreamRootHeightReference(k, p) => {
            let k = *k as usize;
            if k > n {
                return None;
            }
            [&path[..k], &p[..]].concat()
        }
        UpstreamRootHeightWithParentPathAdditionReference(k, p) => {
            let k = *k as usize;
            if k > n || n == 0 {
                return None;
            }
            [&path[..k], &p[..], &path[n - 1..]].concat()
        }
        UpstreamFromElementHeightReference(k, p) => {
            let k = *k as usize;
            if k > n {
                return None;
            }
            [&path[..n - k], &p[..]].concat()
        }
        CousinReference(s) => {
            if n == 0 {
                return None;
            }
            [&path[..n - 1], &[s.clone(), key?.to_vec()]].concat()
        }
        RemovedCousinReference(p) => {
            if n == 0 {
                return None;
            }
            [&path[..n - 1], &p[..], &[key?.to_vec()]].concat()
        }
        SiblingReference(s) => [path, &[s.clone()]].concat(),
    })
}

fn refs(c: &mut Case) -> Res {
    let r = reference(&mut c.rng);
    let n = if c.rng.chance(1, 40) { 250 + c.rng.usize(10) } else { c.rng.usize(7) };
    let path: Vec<Vec<u8>> = (0..n).map(|_| { let k = c.rng.usize(3); c.rng.bytes(k) }).collect();
    let k = c.rng.usize(3);
    let key = c.rng.bytes(k);
    c.note(format!("reference {r:?} at {path:?} key {key:?}"));
    let want = resolve(&r, &path, Some(&key));
    let got = path_from_reference_path_type(r.clone(), &path, Some(&key)).ok();
    c.same(&got, &want, "resolve")?;
    let pr: Vec<&[u8]> = path.iter().map(|x| &x[..]).collect();
    c.same(&r.clone().absolute_path(&pr, Some(&key)).ok(), &want, "resolve-method")?;
    let q: Vec<Vec<u8>> = [&path[..], &[key.clone()]].concat();
    c.same(&path_from_reference_qualified_path_type(r.clone(), &q).ok(), &want, "resolve-qualified")?;
    c.same(&r.clone().absolute_path_using_current_qualified_path(&q).ok(), &want, "resolve-qualified")?;
    c.same(&path_from_reference_path_type(r.clone(), &path, None).ok(), &resolve(&r, &path, None), "resolve-without-key")?;
    // through path builders, in several representations
    let mk = c.rng.below(3);
    let cut = c.rng.usize(path.len() + 1);
    let base = SubtreePath::from(&path[..cut]);
    let full = SubtreePath::from(path.as_slice());
    let b: SubtreePathBuilder<Vec<u8>> = match mk {
        0 => SubtreePathBuilder::owned_from_iter(&path),
        1 => full.derive_owned(),
        _ => {
            let mut b = base.derive_owned();
            for s in &path[cut..] {
                b.push_segment(s);
            }
            b
        }
    };
    let got = r.clone().absolute_qualified_path(b, &key).ok().map(|b| b.to_vec());
    c.same(&got, &want, "resolve-builder")?;
    // conversion of an element to an absolute reference
    let fl = flags(&mut c.rng);
    let hop = if c.rng.bool() { None } else { Some(c.rng.below(9) as u8) };
    let conv = Element::Reference(r.clone(), hop, fl.clone()).convert_if_reference_to_absolute_reference(&pr, Some(&key)).ok();
    let want_e = want.clone().map(|p| Element::Reference(ReferencePathType::AbsolutePathReference(p), hop, fl.clone()));
    c.same(&conv, &want_e, "to-absolute")?;
    let item = Element::Item(key.clone(), fl);
    c.same(&item.clone().convert_if_reference_to_absolute_reference(&pr, Some(&key)).ok(), &Some(item), "to-absolute-item")?;
    // going back
    let inv = r.invert(SubtreePath::from(path.as_slice()), &key);
    let empty_append = matches!(&r, ReferencePathType::UpstreamRootHeightReference(_, p) | ReferencePathType::UpstreamFromElementHeightReference(_, p) if p.is_empty());
    if let (Some(t), false) = (&want, empty_append)
        && let Some((tk, tp)) = t.split_last()
    {
        let long = matches!(&r, ReferencePathType::UpstreamFromElementHeightReference(_, p) | ReferencePathType::RemovedCousinReference(p) if p.len() > 255);
        match inv {
            None => c.ensure(long, "invert-missing", || "no inverse".into())?,
            Some(inv) => {
                let back = resolve(&inv, tp, Some(tk));
                c.ensure(back.as_ref() == Some(&q), "invert", || format!("inverse {inv:?} at the target leads to {back:?}"))?;
                c.count("inverted", 1);
            }
        }
    }
    c.count(if want.is_some() { "resolved" } else { "refused" }, 1);
    c.eval(fnv(format!("{r:?}{q:?}").as_bytes()), true);
    if c.wants_sample() && n < 9 {
        c.sample(format!("{r} at {} segments: {}", n, if want.is_some() { "resolved" } else { "refused" }));
    }
    Ok(())
}

pub fn e02(ctx: &Ctx) {
    ctx.rule("random references of all seven kinds at random positions (0 to 6 segments, sometimes beyond 250) resolved through every entry point and representation and compared with the definition of the kind; inverses resolved back from the target. Every distinct reference and position counts.");
    ctx.assume("inverses are only defined for references whose appended path is not empty");
    ctx.cases("references", ctx.n(400_000, 6_000_000), refs);
    ctx.require("resolved", 1000);
    ctx.require("refused", 1000);
    ctx.require("inverted", 1000);
}
