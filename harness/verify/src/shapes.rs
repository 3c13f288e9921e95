//! E03, Q05, Q06, P07: element kinds, regrouped results, builders, extracted maps.
use crate::queries::{Key, Keys, Path, Shape, contains, random_item, random_query, version};
use grovedb::operations::proof::util::{ProvedPathKeyOptionalValue, ProvedPathKeyValue};
use grovedb::query_result_type::{BTreeMapLevelResult, BTreeMapLevelResultOrItem, PathKeyOptionalElementTrio, QueryResultElement, QueryResultElements};
use grovedb::{AggregateSumPathQuery, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_element::{Element, ElementType};
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use grovedb_merk::proofs::Node;
use grovedb_merk::proofs::query::{MapBuilder, ProvedKeyOptionalValue, ProvedKeyValue};
use grovedb_merk::{MaybeTree, TreeFeatureType, TreeType};
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use grovedb_version::TryFromVersioned;
use std::collections::BTreeMap;
use std::ops::Bound;
use vcommon::{Case, Ctx, Res, Rng, fnv, hexs};

// ---- elements by their parts ---------------------------------------------

type Flags = Option<Vec<u8>>;
/// the parts an element may have; each kind uses some of them
#[derive(Clone, Debug)]
struct Parts {
    value: Vec<u8>,
    root: Option<Vec<u8>>,
    sum: i64,
    big: i128,
    count: u64,
    power: u8,
    refer: ReferencePathType,
    hops: Option<u8>,
    flags: Flags,
}
impl Parts {
    fn random(rng: &mut Rng) -> Parts {
        let big = match rng.below(5) {
            0 => i128::MAX,
            1 => i128::MIN,
            2 => rng.edge_i64() as i128 * 3,
            _ => ((rng.u64() as i128) << 64) | rng.u64() as i128,
        };
        let (n, m) = (rng.usize(4), rng.usize(40));
        Parts {
            value: rng.bytes(m),
            root: rng.bool().then(|| rng.bytes(n)),
            sum: rng.edge_i64(),
            big,
            count: rng.edge_u64(),
            power: if rng.bool() { rng.below(34) as u8 } else { rng.u64() as u8 },
            refer: refer(rng),
            hops: rng.bool().then(|| rng.u64() as u8),
            flags: rng.bool().then(|| { let n = rng.usize(20); rng.bytes(n) }),
        }
    }
    fn make(&self, kind: u8) -> Element {
        let p = self.clone();
        let f = p.flags;
        match kind {
            0 => Element::Item(p.value, f),
            1 => Element::Reference(p.refer, p.hops, f),
            2 => Element::Tree(p.root, f),
            3 => Element::SumItem(p.sum, f),
            4 => Element::SumTree(p.root, p.sum, f),
            5 => Element::BigSumTree(p.root, p.big, f),
            6 => Element::CountTree(p.root, p.count, f),
            7 => Element::CountSumTree(p.root, p.count, p.sum, f),
            8 => Element::ProvableCountTree(p.root, p.count, f),
            9 => Element::ItemWithSumItem(p.value, p.sum, f),
            10 => Element::ProvableCountSumTree(p.root, p.count, p.sum, f),
            11 => Element::CommitmentTree(p.count, p.power, f),
            12 => Element::MmrTree(p.count, f),
            13 => Element::BulkAppendTree(p.count, p.power, f),
            _ => Element::DenseAppendOnlyFixedSizeTree(p.count as u16, p.power, f),
        }
    }
}
fn refer(rng: &mut Rng) -> ReferencePathType {
    let path: Vec<Vec<u8>> = (0..rng.below(4)).map(|_| { let long = rng.chance(1, 10); let n = rng.usize(if long { 200 } else { 6 }); rng.bytes(n) }).collect();
    let n = rng.usize(5);
    match rng.below(6) {
        0 => ReferencePathType::AbsolutePathReference(path),
        1 => ReferencePathType::UpstreamRootHeightReference(rng.u64() as u8, path),
        2 => ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(rng.u64() as u8, path),
        3 => ReferencePathType::UpstreamFromElementHeightReference(rng.u64() as u8, path),
        4 => ReferencePathType::CousinReference(rng.bytes(n)),
        _ => ReferencePathType::SiblingReference(rng.bytes(n)),
    }
}
fn any_element(rng: &mut Rng) -> Element {
    Parts::random(rng).make(rng.below(15) as u8)
}
/// the kind of subtree an element of this kind opens
fn opens(kind: u8, power: u8) -> Option<TreeType> {
    Some(match kind {
        2 => TreeType::NormalTree,
        4 => TreeType::SumTree,
        5 => TreeType::BigSumTree,
        6 => TreeType::CountTree,
        7 => TreeType::CountSumTree,
        8 => TreeType::ProvableCountTree,
        10 => TreeType::ProvableCountSumTree,
        11 => TreeType::CommitmentTree(power),
        12 => TreeType::MmrTree,
        13 => TreeType::BulkAppendTree(power),
        14 => TreeType::DenseAppendOnlyFixedSizeTree(power),
        _ => return None,
    })
}
/// does a tree of this kind keep (count, sum, big sum, provable)
fn keeps(t: TreeType) -> (bool, bool, bool, bool) {
    match t {
        TreeType::SumTree => (false, true, false, false),
        TreeType::BigSumTree => (false, false, true, false),
        TreeType::CountTree => (true, false, false, false),
        TreeType::CountSumTree => (true, true, false, false),
        TreeType::ProvableCountTree => (true, false, false, true),
        TreeType::ProvableCountSumTree => (true, true, false, true),
        _ => (false, false, false, false),
    }
}
/// the feature a node has in a tree of kind `t` when it stands for these totals
fn feature(t: TreeType, count: u64, sum: i64, big: i128) -> TreeFeatureType {
    match keeps(t) {
        (true, false, _, false) => TreeFeatureType::CountedMerkNode(count),
        (true, true, _, false) => TreeFeatureType::CountedSummedMerkNode(count, sum),
        (true, false, _, true) => TreeFeatureType::ProvableCountedMerkNode(count),
        (true, true, _, true) => TreeFeatureType::ProvableCountedSummedMerkNode(count, sum),
        (_, true, _, _) => TreeFeatureType::SummedMerkNode(sum),
        (_, _, true, _) => TreeFeatureType::BigSummedMerkNode(big),
        _ => TreeFeatureType::BasicMerkNode,
    }
}
fn kinds(power: u8) -> Vec<TreeType> {
    (0..15).filter_map(|k| opens(k, power)).collect()
}
fn accessors(c: &mut Case) -> Res {
    let kind = if c.idx < 150 { (c.idx % 15) as u8 } else { c.rng.below(15) as u8 };
    let p = Parts::random(&mut c.rng);
    let e = p.make(kind);
    c.note(format!("{e:?}"));
    let t = opens(kind, p.power);
    let merk_root = if kind >= 11 { &None } else { &p.root };
    c.same(&e.tree_type(), &t, "tree-type")?;
    c.same(&e.maybe_tree_type(), &t.map_or(MaybeTree::NotTree, MaybeTree::Tree), "maybe-tree-type")?;
    c.same(&e.root_key_and_tree_type(), &t.map(|t| (merk_root, t)), "root-key-and-type")?;
    c.same(&e.clone().root_key_and_tree_type_owned(), &t.map(|t| (merk_root.clone(), t)), "root-key-and-type")?;
    c.same(&e.tree_flags_and_type(), &t.map(|t| (&p.flags, t)), "flags-and-type")?;
    c.same(e.get_flags(), &p.flags, "flags")?;
    // what the element itself records as the totals of its subtree
    let own = t.map(|t| feature(t, p.count, p.sum, p.big));
    c.same(&e.tree_feature_type(), &own, "own-totals")?;
    // what it adds to a parent of each kind
    let count = if matches!(kind, 6 | 7 | 8 | 10) { p.count } else { 1 };
    let sum = if matches!(kind, 3 | 4 | 7 | 9 | 10) { p.sum } else { 0 };
    let big = if kind == 5 { p.big } else { sum as i128 };
    for parent in kinds(p.power) {
        let got = c.must(e.get_feature_type(parent), "contribution")?;
        c.ensure(got == feature(parent, count, sum, big), "contribution", || format!("{e:?} in {parent:?}: {got:?}"))?;
        let (counts, ..) = keeps(parent);
        c.same(&got.count(), &counts.then_some(count), "feature-count")?;
        // its bytes: one for the kind, and at most the advertised length
        let node = got.node_type();
        let width = match keeps(parent) {
            (true, true, ..) | (_, _, true, _) => 16,
            (false, false, ..) => 0,
            _ => 8,
        };
        c.same(&(node.feature_len(), node.cost(), got.encoding_cost()), &(width + 1, width, width as usize + 1), "feature-size")?;
        let bytes = c.must(ed::Encode::encode(&got), "feature-encode")?;
        c.same(&ed::Encode::encoding_length(&got).ok(), &Some(bytes.len()), "feature-length")?;
        let back: TreeFeatureType = c.must(ed::Decode::decode(&bytes[..]), "feature-decode")?;
        c.same(&back, &got, "feature-decode")?;
        c.count("contributions", 1);
    }
    if let Some(t) = t {
        let same = TreeType::try_from(t.discriminant());
        c.ensure(same.as_ref().is_ok_and(|s| std::mem::discriminant(s) == std::mem::discriminant(&t)), "discriminant", || format!("{t:?}: {same:?}"))?;
        c.same(&t.empty_tree_feature_type(), &feature(t, 0, 0, 0), "empty-totals")?;
        let et = t.to_element_type();
        c.same(&et.map(|x| x as u8), &Some(kind), "element-type")?;
        c.same(&et.map(|x| x.as_str()), &Some(ElementType::try_from(kind).map(|x| x.as_str()).unwrap_or("?")), "element-type")?;
        let (_, s, b, _) = keeps(t);
        c.same(&t.allows_sum_item(), &(s || b), "allows-sum-items")?;
        c.same(&t.uses_non_merk_data_storage(), &(kind >= 11), "non-merk-storage")?;
        c.same(&e.uses_non_merk_data_storage(), &(kind >= 11), "non-merk-storage")?;
        c.same(&t.empty_tree_feature_type().node_type(), &e.tree_feature_type().unwrap().node_type(), "node-type")?;
    }
    let d = c.rng.u64() as u8;
    c.same(&TreeType::try_from(d).is_ok(), &(d <= 10), "unknown-type")?;
    // discriminants are distinct
    let mut all: Vec<u8> = kinds(p.power).iter().map(|t| t.discriminant()).collect();
    all.sort();
    c.same(&all, &(0..=10).collect(), "discriminant")?;
    c.eval(fnv(format!("{e:?}").as_bytes()), true);
    if c.wants_sample() {
        c.sample(format!("{e:?} opens {t:?} and adds count {count}, sum {sum}"));
    }
    Ok(())
}
fn constructors(c: &mut Case) -> Res {
    let p = Parts::random(&mut c.rng);
    c.note(format!("{p:?}"));
    let Parts { value, root, sum, big, count, power, refer, hops, flags } = p.clone();
    let (v, r, f) = (|| value.clone(), || root.clone(), || flags.clone());
    type E = Element;
    let made: Vec<(&str, Element, Element)> = vec![
        ("new_item", E::new_item(v()), E::Item(v(), None)),
        ("new_item_with_flags", E::new_item_with_flags(v(), f()), E::Item(v(), f())),
        ("new_sum_item", E::new_sum_item(sum), E::SumItem(sum, None)),
        ("new_sum_item_with_flags", E::new_sum_item_with_flags(sum, f()), E::SumItem(sum, f())),
        ("new_item_with_sum_item", E::new_item_with_sum_item(v(), sum), E::ItemWithSumItem(v(), sum, None)),
        ("new_item_with_sum_item_with_flags", E::new_item_with_sum_item_with_flags(v(), sum, f()), E::ItemWithSumItem(v(), sum, f())),
        ("new_reference", E::new_reference(refer.clone()), E::Reference(refer.clone(), None, None)),
        ("new_reference_with_flags", E::new_reference_with_flags(refer.clone(), f()), E::Reference(refer.clone(), None, f())),
        ("new_reference_with_hops", E::new_reference_with_hops(refer.clone(), hops), E::Reference(refer.clone(), hops, None)),
        ("new_reference_with_max_hops_and_flags", E::new_reference_with_max_hops_and_flags(refer.clone(), hops, f()), E::Reference(refer.clone(), hops, f())),
        ("empty_tree", E::empty_tree(), E::Tree(None, None)),
        ("empty_tree_with_flags", E::empty_tree_with_flags(f()), E::Tree(None, f())),
        ("new_tree", E::new_tree(r()), E::Tree(r(), None)),
        ("new_tree_with_flags", E::new_tree_with_flags(r(), f()), E::Tree(r(), f())),
        ("empty_sum_tree", E::empty_sum_tree(), E::SumTree(None, 0, None)),
        ("empty_sum_tree_with_flags", E::empty_sum_tree_with_flags(f()), E::SumTree(None, 0, f())),
        ("new_sum_tree", E::new_sum_tree(r()), E::SumTree(r(), 0, None)),
        ("new_sum_tree_with_flags", E::new_sum_tree_with_flags(r(), f()), E::SumTree(r(), 0, f())),
        ("new_sum_tree_with_flags_and_sum_value", E::new_sum_tree_with_flags_and_sum_value(r(), sum, f()), E::SumTree(r(), sum, f())),
        ("empty_big_sum_tree", E::empty_big_sum_tree(), E::BigSumTree(None, 0, None)),
        ("empty_big_sum_tree_with_flags", E::empty_big_sum_tree_with_flags(f()), E::BigSumTree(None, 0, f())),
        ("new_big_sum_tree", E::new_big_sum_tree(r()), E::BigSumTree(r(), 0, None)),
        ("new_big_sum_tree_with_flags", E::new_big_sum_tree_with_flags(r(), f()), E::BigSumTree(r(), 0, f())),
        ("new_big_sum_tree_with_flags_and_sum_value", E::new_big_sum_tree_with_flags_and_sum_value(r(), big, f()), E::BigSumTree(r(), big, f())),
        ("empty_count_tree", E::empty_count_tree(), E::CountTree(None, 0, None)),
        ("empty_count_tree_with_flags", E::empty_count_tree_with_flags(f()), E::CountTree(None, 0, f())),
        ("new_count_tree", E::new_count_tree(r()), E::CountTree(r(), 0, None)),
        ("new_count_tree_with_flags", E::new_count_tree_with_flags(r(), f()), E::CountTree(r(), 0, f())),
        ("new_count_tree_with_flags_and_count_value", E::new_count_tree_with_flags_and_count_value(r(), count, f()), E::CountTree(r(), count, f())),
        ("empty_count_sum_tree", E::empty_count_sum_tree(), E::CountSumTree(None, 0, 0, None)),
        ("empty_count_sum_tree_with_flags", E::empty_count_sum_tree_with_flags(f()), E::CountSumTree(None, 0, 0, f())),
        ("new_count_sum_tree", E::new_count_sum_tree(r()), E::CountSumTree(r(), 0, 0, None)),
        ("new_count_sum_tree_with_flags", E::new_count_sum_tree_with_flags(r(), f()), E::CountSumTree(r(), 0, 0, f())),
        ("new_count_sum_tree_with_flags_and_sum_and_count_value", E::new_count_sum_tree_with_flags_and_sum_and_count_value(r(), count, sum, f()), E::CountSumTree(r(), count, sum, f())),
        ("empty_provable_count_tree", E::empty_provable_count_tree(), E::ProvableCountTree(None, 0, None)),
        ("empty_provable_count_tree_with_flags", E::empty_provable_count_tree_with_flags(f()), E::ProvableCountTree(None, 0, f())),
        ("new_provable_count_tree", E::new_provable_count_tree(r()), E::ProvableCountTree(r(), 0, None)),
        ("new_provable_count_tree_with_flags", E::new_provable_count_tree_with_flags(r(), f()), E::ProvableCountTree(r(), 0, f())),
        ("new_provable_count_tree_with_flags_and_count_value", E::new_provable_count_tree_with_flags_and_count_value(r(), count, f()), E::ProvableCountTree(r(), count, f())),
        ("empty_provable_count_sum_tree", E::empty_provable_count_sum_tree(), E::ProvableCountSumTree(None, 0, 0, None)),
        ("empty_provable_count_sum_tree_with_flags", E::empty_provable_count_sum_tree_with_flags(f()), E::ProvableCountSumTree(None, 0, 0, f())),
        ("new_provable_count_sum_tree", E::new_provable_count_sum_tree(r()), E::ProvableCountSumTree(r(), 0, 0, None)),
        ("new_provable_count_sum_tree_with_flags", E::new_provable_count_sum_tree_with_flags(r(), f()), E::ProvableCountSumTree(r(), 0, 0, f())),
        (
            "new_provable_count_sum_tree_with_flags_and_sum_and_count_value",
            E::new_provable_count_sum_tree_with_flags_and_sum_and_count_value(r(), count, sum, f()),
            E::ProvableCountSumTree(r(), count, sum, f()),
        ),
        ("new_commitment_tree", E::new_commitment_tree(count, power, f()), E::CommitmentTree(count, power, f())),
        ("empty_mmr_tree", E::empty_mmr_tree(), E::MmrTree(0, None)),
        ("empty_mmr_tree_with_flags", E::empty_mmr_tree_with_flags(f()), E::MmrTree(0, f())),
        ("new_mmr_tree", E::new_mmr_tree(count, f()), E::MmrTree(count, f())),
        ("new_bulk_append_tree", E::new_bulk_append_tree(count, power, f()), E::BulkAppendTree(count, power, f())),
        ("empty_dense_tree", E::empty_dense_tree(power), E::DenseAppendOnlyFixedSizeTree(0, power, None)),
        ("empty_dense_tree_with_flags", E::empty_dense_tree_with_flags(power, f()), E::DenseAppendOnlyFixedSizeTree(0, power, f())),
        ("new_dense_tree", E::new_dense_tree(count as u16, power, f()), E::DenseAppendOnlyFixedSizeTree(count as u16, power, f())),
    ];
    for (name, got, want) in &made {
        c.ensure(got == want, "constructor", || format!("{name}: {got:?}, expected {want:?}"))?;
    }
    let sized: [(&str, Result<Element, _>, Element); 4] = [
        ("empty_commitment_tree", E::empty_commitment_tree(power), E::CommitmentTree(0, power, None)),
        ("empty_commitment_tree_with_flags", E::empty_commitment_tree_with_flags(power, f()), E::CommitmentTree(0, power, f())),
        ("empty_bulk_append_tree", E::empty_bulk_append_tree(power), E::BulkAppendTree(0, power, None)),
        ("empty_bulk_append_tree_with_flags", E::empty_bulk_append_tree_with_flags(power, f()), E::BulkAppendTree(0, power, f())),
    ];
    for (name, got, want) in sized {
        match got {
            Ok(e) => c.ensure(e == want && power <= 31, "constructor", || format!("{name}({power}): {e:?}"))?,
            Err(_) => {
                c.ensure(power > 31, "constructor-refused", || format!("{name}({power})"))?;
                c.count("refused", 1);
            }
        }
    }
    // references given back
    let e = p.make(c.rng.below(15) as u8);
    let want = matches!(e, Element::Reference(..)).then(|| refer.clone());
    c.same(&e.into_reference_path_type().ok(), &want, "into-reference")?;
    let path_size = |p: &[Vec<u8>]| p.iter().map(|s| s.len() + varint(s.len())).sum::<usize>();
    let want = match &refer {
        ReferencePathType::AbsolutePathReference(p) => 1 + path_size(p),
        ReferencePathType::UpstreamRootHeightReference(_, p)
        | ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(_, p)
        | ReferencePathType::UpstreamFromElementHeightReference(_, p) => 2 + path_size(p),
        ReferencePathType::CousinReference(s) | ReferencePathType::SiblingReference(s) => 1 + s.len() + varint(s.len()),
        _ => refer.serialized_size(),
    };
    c.same(&refer.serialized_size(), &want, "reference-size")?;
    let (a, b) = (c.rng.below(100_000) as u32, c.rng.below(300) as u32);
    let want = 1 + a + varint(a as usize) as u32 + b + varint(b as usize) as u32;
    let v = version(&mut c.rng);
    c.same(&E::required_item_space(a, b, v).ok(), &Some(want), "item-space")?;
    c.count("constructed", made.len() as u64);
    c.eval(fnv(format!("{p:?}").as_bytes()), true);
    Ok(())
}
fn varint(n: usize) -> usize {
    (1..).find(|k| n >> (7 * k) == 0).unwrap()
}
pub fn e03(ctx: &Ctx) {
    ctx.rule("random elements of all fifteen kinds with edge sums and counts: the subtree kind, root key, flags and totals every accessor reports, and what the element adds to a parent of each of the eleven subtree kinds, against a table of which totals each kind keeps; the feature bytes and their advertised size; the subtree kind's own numbering and predicates; every constructor against the element its name and arguments spell out, with out-of-range chunk powers refused.");
    ctx.cases("accessors", ctx.n(60_000, 1_500_000), accessors);
    ctx.cases("constructors", ctx.n(10_000, 300_000), constructors);
    ctx.require("contributions", 300_000);
    ctx.require("constructed", 50_000);
    ctx.require("refused", 1000);
}

// ---- regrouped results ----------------------------------------------------

/// entries of a nested result in order, each with its path from the top
fn flatten(l: &BTreeMapLevelResult, at: &Path, out: &mut Vec<(Path, Key, Element)>) {
    for (k, v) in &l.key_values {
        match v {
            BTreeMapLevelResultOrItem::ResultItem(e) => out.push((at.clone(), k.clone(), e.clone())),
            BTreeMapLevelResultOrItem::BTreeMapLevelResult(n) => {
                let mut p = at.clone();
                p.push(k.clone());
                flatten(n, &p, out);
            }
        }
    }
}
fn regroup(c: &mut Case) -> Res {
    // rows as a query gives them: element, key and element, or path, key and element
    let n = c.rng.usize(12);
    let form = c.rng.below(4);
    let mut rows: Vec<(u64, Path, Key, Element)> = vec![];
    for _ in 0..n {
        let path: Path = (0..c.rng.below(4)).map(|_| vec![b'p' + c.rng.below(2) as u8]).collect();
        let key = vec![b'a' + c.rng.below(6) as u8; c.rng.range(1, 2) as usize];
        let e = any_element(&mut c.rng);
        let form = if form == 3 { c.rng.below(3) } else { form };
        rows.push((form, path, key, e));
    }
    c.note(format!("{rows:?}"));
    let all = QueryResultElements::from_elements(
        rows.iter()
            .cloned()
            .map(|(f, p, k, e)| match f {
                0 => QueryResultElement::ElementResultItem(e),
                1 => QueryResultElement::KeyElementPairResultItem((k, e)),
                _ => QueryResultElement::PathKeyElementTrioResultItem((p, k, e)),
            })
            .collect(),
    );
    c.same(&(all.len(), all.is_empty()), &(n, n == 0), "length")?;
    c.ensure(all.clone().into_iterator().eq(all.elements.iter().cloned()), "iteration", || format!("{rows:?}"))?;
    let elements: Vec<Element> = rows.iter().map(|r| r.3.clone()).collect();
    c.same(&all.clone().to_elements(), &elements, "elements")?;
    let keyed: Vec<(Key, Element)> = rows.iter().filter(|r| r.0 > 0).map(|r| (r.2.clone(), r.3.clone())).collect();
    c.same(&all.clone().to_key_elements(), &keyed, "key-elements")?;
    c.same(&all.clone().to_keys(), &keyed.iter().map(|r| r.0.clone()).collect(), "keys")?;
    let map: BTreeMap<Key, Element> = keyed.iter().cloned().collect();
    c.same(&all.clone().to_key_elements_btree_map(), &map, "key-elements-map")?;
    c.same(&all.clone().to_key_elements_hash_map().into_iter().collect::<BTreeMap<_, _>>(), &map, "key-elements-map")?;
    let trios: Vec<(Path, Key, Element)> = rows.iter().filter(|r| r.0 > 1).map(|r| (r.1.clone(), r.2.clone(), r.3.clone())).collect();
    c.same(&all.clone().to_path_key_elements(), &trios, "path-key-elements")?;
    let flat: BTreeMap<(Path, Key), Element> = trios.iter().map(|(p, k, e)| ((p.clone(), k.clone()), e.clone())).collect();
    c.same(&all.clone().to_path_key_elements_btree_map(), &flat, "path-key-elements-map")?;
    let mut by_path: BTreeMap<Path, BTreeMap<Key, Element>> = BTreeMap::new();
    let mut last_map: BTreeMap<Key, BTreeMap<Key, Element>> = BTreeMap::new();
    let (mut last_keys, mut last_elements, mut before_keys): (BTreeMap<Key, Vec<Key>>, BTreeMap<Key, Vec<Element>>, BTreeMap<Key, Vec<Key>>) = Default::default();
    for (p, k, e) in &trios {
        by_path.entry(p.clone()).or_default().insert(k.clone(), e.clone());
        if let Some(l) = p.last() {
            last_map.entry(l.clone()).or_default().insert(k.clone(), e.clone());
            last_keys.entry(l.clone()).or_default().push(k.clone());
            last_elements.entry(l.clone()).or_default().push(e.clone());
        }
        if p.len() > 1 {
            before_keys.entry(p[p.len() - 2].clone()).or_default().push(k.clone());
        }
    }
    c.same(&all.clone().to_path_to_key_elements_btree_map(), &by_path, "by-path")?;
    c.same(&all.clone().to_last_path_to_key_elements_btree_map(), &last_map, "by-last-segment")?;
    c.same(&all.clone().to_last_path_to_keys_btree_map(), &last_keys, "keys-by-last-segment")?;
    c.same(&all.clone().to_last_path_to_elements_btree_map(), &last_elements, "elements-by-last-segment")?;
    c.same(&all.clone().to_previous_of_last_path_to_keys_btree_map(), &before_keys, "keys-by-segment-before")?;
    // nested: keys and segments here never coincide, so every row keeps its place
    let nested = all.clone().to_btree_map_level_results();
    let mut got = vec![];
    flatten(&nested, &vec![], &mut got);
    let got: BTreeMap<(Path, Key), Element> = got.into_iter().map(|(p, k, e)| ((p, k), e)).collect();
    c.same(&got, &flat, "nested")?;
    for p in by_path.keys().cloned().chain([vec![], vec![b"p".to_vec()], vec![b"q".to_vec(), b"a".to_vec()]]) {
        let mut below: Vec<&Key> = flat.keys().filter(|(q, _)| *q == p).map(|(_, k)| k).collect();
        let mut deeper: Vec<&Key> = flat.keys().filter(|(q, _)| q.len() > p.len() && q[..p.len()] == p[..]).map(|(q, _)| &q[p.len()]).collect();
        below.append(&mut deeper);
        below.sort();
        below.dedup();
        let ps: Vec<&[u8]> = p.iter().map(|s| &s[..]).collect();
        c.same(&nested.len_of_values_at_path(&ps), &below.len(), "nested-length")?;
    }
    if let Some((p, k, _)) = trios.first() {
        let mut ps: Vec<&[u8]> = p.iter().map(|s| &s[..]).collect();
        ps.push(k);
        c.same(&nested.len_of_values_at_path(&ps), &0, "nested-length")?;
    }
    c.count("rows", trios.len() as u64);
    c.eval(fnv(format!("{rows:?}").as_bytes()), trios.len() > 1);
    if c.wants_sample() {
        c.sample(format!("{n} rows, {} with paths, under {} paths", trios.len(), by_path.len()));
    }
    Ok(())
}
fn proved(c: &mut Case) -> Res {
    let v = version(&mut c.rng);
    let e = any_element(&mut c.rng);
    let path: Path = (0..c.rng.below(4)).map(|_| { let n = c.rng.usize(4); c.rng.bytes(n) }).collect();
    let (n, m) = (c.rng.usize(5), c.rng.usize(30));
    let (key, proof) = (c.rng.bytes(n), c.rng.arr32());
    let good = c.rng.chance(3, 4);
    let value = if good { c.must(e.serialize(v), "serialize")? } else { c.rng.bytes(m) };
    c.note(format!("{path:?} {key:?} {}", hexs(&value)));
    let some = c.rng.chance(2, 3);
    let opt = || ProvedKeyOptionalValue { key: key.clone(), value: some.then(|| value.clone()), proof, child_hash_verified: true };
    let plain = || ProvedKeyValue { key: key.clone(), value: value.clone(), proof };
    // merk rows
    match ProvedKeyValue::try_from(opt()) {
        Ok(x) => c.ensure(some && x == plain(), "proved-row", || format!("{x:?}"))?,
        Err(_) => c.ensure(!some, "proved-row-refused", || format!("{:?}", opt()))?,
    }
    let o = ProvedKeyOptionalValue::from(plain());
    c.ensure(o.key == key && o.value.as_ref() == Some(&value) && o.proof == proof && !o.child_hash_verified, "proved-row", || format!("{o:?}"))?;
    // rows with their path
    let want = || ProvedPathKeyValue { path: path.clone(), key: key.clone(), value: value.clone(), proof };
    let want_opt = |some: bool| ProvedPathKeyOptionalValue { path: path.clone(), key: key.clone(), value: some.then(|| value.clone()), proof };
    c.same(&ProvedPathKeyValue::from_proved_key_value(path.clone(), plain()), &want(), "proved-path-row")?;
    c.same(&ProvedPathKeyValue::from_proved_key_values(path.clone(), vec![plain(), plain()]), &vec![want(), want()], "proved-path-rows")?;
    c.same(&ProvedPathKeyOptionalValue::from_proved_key_value(path.clone(), opt()), &want_opt(some), "proved-path-row")?;
    c.same(&ProvedPathKeyOptionalValue::from_proved_key_values(path.clone(), vec![opt(), plain().into()]), &vec![want_opt(some), want_opt(true)], "proved-path-rows")?;
    c.same(&ProvedPathKeyOptionalValue::from(want()), &want_opt(true), "proved-path-row")?;
    match ProvedPathKeyValue::try_from(want_opt(some)) {
        Ok(x) => c.ensure(some && x == want(), "proved-path-row", || format!("{x:?}"))?,
        Err(_) => c.ensure(!some, "proved-row-refused", || format!("{:?}", want_opt(some)))?,
    }
    // elements from rows
    let elem = Element::deserialize(&value, v).ok();
    if good {
        c.same(&elem, &Some(e), "element")?;
    }
    match PathKeyOptionalElementTrio::try_from_versioned(want(), v) {
        Ok(x) => c.ensure(elem.is_some() && x == (path.clone(), key.clone(), elem.clone()), "element-row", || format!("{x:?}"))?,
        Err(_) => c.ensure(elem.is_none(), "element-row-refused", || format!("{elem:?}"))?,
    }
    match PathKeyOptionalElementTrio::try_from_versioned(want_opt(some), v) {
        Ok(x) => c.ensure((!some || elem.is_some()) && x == (path.clone(), key.clone(), elem.filter(|_| some)), "element-row", || format!("{x:?}"))?,
        Err(_) => c.ensure(some && elem.is_none(), "element-row-refused", || format!("{elem:?}"))?,
    }
    c.count(if some { "present" } else { "absent" }, 1);
    c.eval(fnv(&value) ^ fnv(&key), good);
    Ok(())
}
pub fn q05(ctx: &Ctx) {
    ctx.rule("random answers (rows in each form, and mixed; repeated keys and paths; all element kinds): every regrouping, by key, path, last segment, segment before it, and nested, against one computed from the rows; proved rows turned into rows with paths and elements, with absent and malformed values.");
    ctx.assume("in the nested form no key equals a path segment beside it");
    ctx.cases("regroup", ctx.n(60_000, 1_500_000), regroup);
    ctx.cases("proved", ctx.n(60_000, 1_500_000), proved);
    ctx.require("rows", 60_000);
    ctx.require("present", 20_000);
    ctx.require("absent", 10_000);
}

// ---- builders -------------------------------------------------------------

fn key(rng: &mut Rng) -> Key {
    let n = rng.range(1, 2) as usize;
    (0..n).map(|_| b'a' + rng.below(5) as u8).collect()
}
fn probes(seen: &[Key]) -> Vec<Key> {
    let mut u: Vec<Key> = vec![vec![]];
    for a in b'a'..=b'f' {
        u.push(vec![a]);
        for b in [0, b'a', b'c', b'e', 255] {
            u.push(vec![a, b]);
        }
    }
    u.extend(seen.iter().cloned());
    u
}
fn builders(c: &mut Case) -> Res {
    let (k, k2) = (key(&mut c.rng), key(&mut c.rng));
    let keys = Keys((0..5).map(|_| key(&mut c.rng)).collect());
    let s = Shape { keys: keys.clone(), ranges: 2, finite: false, depth: 1, add_parent: false };
    let item = random_item(&mut c.rng, &s);
    let (dir, sum_limit) = (c.rng.bool(), c.rng.edge_u64());
    let lim = c.rng.bool().then(|| c.rng.u64() as u16);
    let off = c.rng.bool().then(|| c.rng.u64() as u16);
    let path: Path = (0..c.rng.below(4)).map(|_| key(&mut c.rng)).collect();
    c.note(format!("{k:?} {keys:?} {item:?} {dir} {sum_limit} {lim:?} {path:?}", keys = keys.0));
    let q = |items: Vec<QueryItem>, left_to_right: bool| Query { items, left_to_right, default_subquery_branch: SubqueryBranch { subquery_path: None, subquery: None }, conditional_subquery_branches: None, add_parent_tree_on_subquery: false };
    let one = |i: &QueryItem| vec![i.clone()];
    let kitem = QueryItem::Key(k.clone());
    let full = QueryItem::RangeFull(..);
    for (name, got, want) in [
        ("new", Query::new(), q(vec![], true)),
        ("new_with_direction", Query::new_with_direction(dir), q(vec![], dir)),
        ("new_range_full", Query::new_range_full(), q(one(&full), true)),
        ("new_single_key", Query::new_single_key(k.clone()), q(one(&kitem), true)),
        ("new_single_query_item", Query::new_single_query_item(item.clone()), q(one(&item), true)),
        ("new_single_query_item_with_direction", Query::new_single_query_item_with_direction(item.clone(), dir), q(one(&item), dir)),
    ] {
        c.ensure(got == want, "query", || format!("{name}: {got:?}"))?;
    }
    // sized and path queries
    let base = random_query(&mut c.rng, &s, 1);
    let sq = SizedQuery { query: base.clone(), limit: lim, offset: off };
    let bare = |q: Query| SizedQuery { query: q, limit: None, offset: None };
    c.same(&SizedQuery::new(base.clone(), lim, off), &sq, "sized")?;
    c.same(&SizedQuery::new_single_key(k.clone()), &bare(q(one(&kitem), true)), "sized")?;
    c.same(&SizedQuery::new_single_query_item(item.clone()), &bare(q(one(&item), true)), "sized")?;
    let pq = |query: SizedQuery| PathQuery { path: path.clone(), query };
    c.same(&PathQuery::new(path.clone(), sq.clone()), &pq(sq.clone()), "path-query")?;
    c.same(&PathQuery::new_unsized(path.clone(), base.clone()), &pq(bare(base.clone())), "path-query")?;
    c.same(&PathQuery::new_single_key(path.clone(), k.clone()), &pq(bare(q(one(&kitem), true))), "path-query")?;
    c.same(&PathQuery::new_single_query_item(path.clone(), item.clone()), &pq(bare(q(one(&item), true))), "path-query")?;
    // chunk queries: a depth below one means one
    let (d, m) = (if c.rng.bool() { c.rng.below(3) as u8 } else { c.rng.u64() as u8 }, c.rng.u64() as u8);
    let ps: Vec<&[u8]> = path.iter().map(|s| &s[..]).collect();
    let trunk = |min: Option<u8>| PathTrunkChunkQuery { path: path.clone(), max_depth: d.max(1), min_depth: min };
    c.same(&PathTrunkChunkQuery::new(path.clone(), d), &trunk(None), "trunk-query")?;
    c.same(&PathTrunkChunkQuery::new_from_slice_path(&ps, d), &trunk(None), "trunk-query")?;
    c.same(&PathTrunkChunkQuery::new_with_min_depth(path.clone(), d, m), &trunk(Some(m)), "trunk-query")?;
    c.same(&PathTrunkChunkQuery::new_from_slice_path_with_min_depth(&ps, d, m), &trunk(Some(m)), "trunk-query")?;
    c.same(&trunk(None).path_slices(), &ps, "trunk-query")?;
    let br = PathBranchChunkQuery { path: path.clone(), key: k.clone(), depth: d.max(1) };
    c.same(&PathBranchChunkQuery::new(path.clone(), k.clone(), d), &br, "branch-query")?;
    c.same(&PathBranchChunkQuery::new_from_slice_path(&ps, &k, d), &br, "branch-query")?;
    c.same(&br.path_slices(), &ps, "branch-query")?;
    // aggregate sum queries
    let a = |items: Vec<QueryItem>, left_to_right: bool, limit: Option<u16>| AggregateSumQuery { items, left_to_right, sum_limit, limit_of_items_to_check: limit };
    let named: Vec<QueryItem> = keys.0.iter().cloned().map(QueryItem::Key).collect();
    let mixed: Vec<QueryItem> = vec![item.clone(), kitem.clone()];
    for (name, got, want) in [
        ("new", AggregateSumQuery::new(sum_limit, lim), a(one(&full), true, lim)),
        ("new_descending", AggregateSumQuery::new_descending(sum_limit, lim), a(one(&full), false, lim)),
        ("new_range_full", AggregateSumQuery::new_range_full(sum_limit, lim), a(one(&full), true, lim)),
        ("new_range_full_descending", AggregateSumQuery::new_range_full_descending(sum_limit, lim), a(one(&full), false, lim)),
        ("new_single_key", AggregateSumQuery::new_single_key(k.clone(), sum_limit), a(one(&kitem), true, Some(1))),
        ("new_single_query_item", AggregateSumQuery::new_single_query_item(item.clone(), sum_limit, lim), a(one(&item), true, lim)),
        ("new_with_query_items", AggregateSumQuery::new_with_query_items(mixed.clone(), sum_limit, lim), a(mixed.clone(), true, lim)),
        ("new_with_keys", AggregateSumQuery::new_with_keys(keys.0.clone(), sum_limit, lim), a(named.clone(), true, lim)),
        ("new_with_keys_reversed", AggregateSumQuery::new_with_keys_reversed(keys.0.clone(), sum_limit, lim), a(named.clone(), false, lim)),
        ("new_single_query_item_with_direction", AggregateSumQuery::new_single_query_item_with_direction(item.clone(), dir, sum_limit, lim), a(one(&item), dir, lim)),
    ] {
        c.ensure(got == want, "sum-query", || format!("{name}: {got:?}"))?;
        c.ensure(got.has_only_keys() == got.items.iter().all(|i| matches!(i, QueryItem::Key(_))), "sum-query-keys", || format!("{got:?}"))?;
        let (f, b): (Vec<_>, Vec<_>) = (got.iter().collect(), got.rev_iter().collect());
        c.ensure(
            f.iter().copied().eq(want.items.iter()) && b.iter().copied().eq(want.items.iter().rev()) && got.directional_iter(true).eq(f.iter().copied()) && got.directional_iter(false).eq(b.iter().copied()),
            "sum-query-order",
            || format!("{got:?}"),
        )?;
    }
    let ap = |q: AggregateSumQuery| AggregateSumPathQuery { path: path.clone(), aggregate_sum_query: q };
    c.same(&AggregateSumPathQuery::new(path.clone(), a(mixed.clone(), dir, lim)), &ap(a(mixed, dir, lim)), "sum-path-query")?;
    c.same(&AggregateSumPathQuery::new_single_key(path.clone(), k.clone(), sum_limit), &ap(a(one(&kitem), true, Some(1))), "sum-path-query")?;
    c.same(&AggregateSumPathQuery::new_single_query_item(path.clone(), item.clone(), sum_limit, lim), &ap(a(one(&item), true, lim)), "sum-path-query")?;
    // branches: each setter changes its own part only, and the latest call counts
    let mut b = base.clone();
    b.default_subquery_branch = SubqueryBranch::default();
    b.conditional_subquery_branches = None;
    let mut want = b.clone();
    for _ in 0..c.rng.below(6) {
        let sub = random_query(&mut c.rng, &s, 0);
        let p: Path = (0..c.rng.range(1, 3)).map(|_| key(&mut c.rng)).collect();
        match c.rng.below(4) {
            0 => {
                b.set_subquery(sub.clone());
                want.default_subquery_branch.subquery = Some(Box::new(sub));
            }
            1 => {
                b.set_subquery_path(p.clone());
                want.default_subquery_branch.subquery_path = Some(p);
            }
            2 => {
                b.set_subquery_key(k2.clone());
                want.default_subquery_branch.subquery_path = Some(vec![k2.clone()]);
            }
            _ => {
                let i = if c.rng.bool() { item.clone() } else { random_item(&mut c.rng, &s) };
                let p = c.rng.bool().then_some(p);
                let sub = c.rng.bool().then_some(sub);
                b.add_conditional_subquery(i.clone(), p.clone(), sub.clone());
                let branch = SubqueryBranch { subquery_path: p, subquery: sub.map(Box::new) };
                want.conditional_subquery_branches.get_or_insert_default().insert(i, branch);
                c.count("conditionals", 1);
            }
        }
        c.same(&b, &want, "setter")?;
        let order = |q: &Query| q.conditional_subquery_branches.iter().flatten().map(|(i, _)| i.clone()).collect::<Vec<_>>();
        c.same(&order(&b), &order(&want), "conditional-order")?;
    }
    c.same(&Vec::<QueryItem>::from(base.clone()), &base.items, "items")?;
    c.ensure(base.clone().into_iter().eq(base.items.iter().cloned()), "items", || format!("{base:?}"))?;
    // a predicate that says no is never wrong about the branch a key follows
    for k in probes(&keys.0) {
        let br = crate::queries::branch(&base, &k);
        if br.subquery.is_some() && std::ptr::eq(br, &base.default_subquery_branch) {
            c.ensure(base.has_subquery_on_key(&k, false) && base.has_subquery_or_subquery_path_on_key(&k, false), "branch-predicate", || format!("{k:?} in {base:?}"))?;
        }
        if crate::queries::leads(br) {
            c.ensure(base.has_subquery_or_subquery_path_on_key(&k, false), "branch-predicate", || format!("{k:?} in {base:?}"))?;
            if br.subquery.is_some() {
                c.ensure(base.has_subquery_on_key(&k, false), "branch-predicate", || format!("{k:?} in {base:?}"))?;
            }
        }
        c.ensure(base.has_subquery_on_key(&k, true) && base.has_subquery_or_subquery_path_on_key(&k, true), "branch-predicate", || format!("{k:?} in {base:?}"))?;
        let none = base.default_subquery_branch.subquery.is_none() && !base.conditional_subquery_branches.iter().flatten().any(|(i, _)| contains(i, &k));
        if none {
            c.ensure(!base.has_subquery_on_key(&k, false), "branch-predicate", || format!("{k:?} in {base:?}"))?;
            let path = base.default_subquery_branch.subquery_path.is_some();
            c.ensure(base.has_subquery_or_subquery_path_on_key(&k, false) == path, "branch-predicate", || format!("{k:?} in {base:?}"))?;
        }
    }
    c.eval(fnv(format!("{base:?}{item:?}{k:?}").as_bytes()), true);
    Ok(())
}
/// both query kinds take the same insertions
trait Takes: Clone + std::fmt::Debug {
    fn put(&mut self, i: QueryItem, direct: bool);
    fn put_keys(&mut self, k: Vec<Key>);
    fn items(&self) -> &[QueryItem];
}
macro_rules! takes {
    ($t:ty) => {
        impl Takes for $t {
            fn put(&mut self, i: QueryItem, direct: bool) {
                if direct {
                    return self.insert_item(i);
                }
                match i {
                    QueryItem::Key(k) => self.insert_key(k),
                    QueryItem::Range(r) => self.insert_range(r),
                    QueryItem::RangeInclusive(r) => self.insert_range_inclusive(r),
                    QueryItem::RangeFull(_) => self.insert_all(),
                    QueryItem::RangeFrom(r) => self.insert_range_from(r),
                    QueryItem::RangeTo(r) => self.insert_range_to(r),
                    QueryItem::RangeToInclusive(r) => self.insert_range_to_inclusive(r),
                    QueryItem::RangeAfter(r) => self.insert_range_after(r),
                    QueryItem::RangeAfterTo(r) => self.insert_range_after_to(r),
                    QueryItem::RangeAfterToInclusive(r) => self.insert_range_after_to_inclusive(r),
                }
            }
            fn put_keys(&mut self, k: Vec<Key>) {
                self.insert_keys(k)
            }
            fn items(&self) -> &[QueryItem] {
                &self.items
            }
        }
    };
}
takes!(Query);
takes!(AggregateSumQuery);
fn grow<T: Takes>(c: &mut Case, mut q: T) -> Res {
    let keys = Keys((0..5).map(|_| key(&mut c.rng)).collect());
    let s = Shape { keys: keys.clone(), ranges: 3, finite: false, depth: 0, add_parent: false };
    let probes = probes(&keys.0);
    let mut put: Vec<QueryItem> = q.items().to_vec();
    for _ in 0..1 + c.rng.below(6) {
        if c.rng.chance(1, 5) {
            let ks: Vec<Key> = (0..c.rng.below(4)).map(|_| keys.any(&mut c.rng)).collect();
            put.extend(ks.iter().cloned().map(QueryItem::Key));
            q.put_keys(ks);
        } else {
            let i = random_item(&mut c.rng, &s);
            put.push(i.clone());
            q.put(i, c.rng.bool());
        }
        c.note(format!("put {put:?}"));
        for k in &probes {
            let want = put.iter().any(|i| contains(i, k));
            c.ensure(q.items().iter().any(|i| contains(i, k)) == want, "insertion", || format!("{k:?} selected: {}, after putting {put:?}: {q:?}", !want))?;
            c.ensure(q.items().iter().filter(|i| contains(i, k)).count() <= 1, "insertion-overlap", || format!("{k:?} twice in {q:?} after putting {put:?}"))?;
        }
        // in key order
        let lows: Vec<Option<&Key>> = probes_of(q.items(), &probes);
        c.ensure(lows.iter().flatten().collect::<Vec<_>>().is_sorted(), "insertion-order", || format!("{q:?}"))?;
        c.count("insertions", 1);
    }
    c.eval(fnv(format!("{put:?}").as_bytes()), put.len() > 1);
    if c.wants_sample() {
        c.sample(format!("{put:?} gives {:?}", q.items()));
    }
    Ok(())
}
/// the least probe each item selects
fn probes_of<'a>(items: &[QueryItem], probes: &'a [Key]) -> Vec<Option<&'a Key>> {
    items.iter().map(|i| probes.iter().filter(|k| contains(i, k)).min()).collect()
}
fn insertions(c: &mut Case) -> Res {
    if c.rng.bool() { grow(c, Query::new()) } else { grow(c, AggregateSumQuery::new_with_query_items(vec![], 5, None)) }
}
pub fn q06(ctx: &Ctx) {
    ctx.rule("every query constructor and setter (plain, sized, path, trunk and branch chunk, aggregate sum) against the value its name and arguments spell out, in random sequences; insertions of every item kind into queries and aggregate sum queries: selected keys are the union over an alphabet with neighbours, none twice, in order; branch predicates against the branch each key follows.");
    ctx.cases("builders", ctx.n(20_000, 600_000), builders);
    ctx.cases("insertions", ctx.n(60_000, 2_000_000), insertions);
    ctx.require("insertions", 50_000);
    ctx.require("conditionals", 3000);
}

// ---- maps extracted from proofs -------------------------------------------

/// a sorted tree with some of its nodes shown, as a proof does
fn extracted(c: &mut Case) -> Res {
    let n = c.rng.usize(9);
    let mut keys: Vec<Key> = (0..n).map(|_| key(&mut c.rng)).collect();
    keys.sort();
    keys.dedup();
    let dense = c.rng.below(4);
    let mut b = MapBuilder::new();
    let mut shown: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    // for each shown key, whether something is hidden just before it
    let mut gap: BTreeMap<Key, bool> = BTreeMap::new();
    let mut hidden = false;
    let mut desc = vec![];
    for k in &keys {
        let v = { let n = c.rng.usize(4); c.rng.bytes(n) };
        let h = c.rng.arr32();
        let f = TreeFeatureType::SummedMerkNode(4);
        if c.rng.chance(dense, 4) {
            // hidden: a hash, or a node whose value is not shown; a run may collapse to one
            if hidden && c.rng.bool() {
                continue;
            }
            hidden = true;
            let node = match c.rng.below(7) {
                0 => Node::Hash(h),
                1 => Node::KVHash(h),
                2 => Node::KVDigest(k.clone(), h),
                3 => Node::KVHashCount(h, 3),
                4 => Node::KVDigestCount(k.clone(), h, 3),
                5 => Node::KVRefValueHash(k.clone(), v, h),
                _ => Node::KVRefValueHashCount(k.clone(), v, h, 3),
            };
            desc.push(format!("{node}"));
            c.must(b.insert(&node), "insert")?;
        } else {
            let (k, v) = (k.clone(), v);
            shown.insert(k.clone(), v.clone());
            gap.insert(k.clone(), hidden);
            hidden = false;
            let node = match c.rng.below(5) {
                0 => Node::KV(k, v),
                1 => Node::KVValueHash(k, v, h),
                2 => Node::KVCount(k, v, 2),
                3 => Node::KVValueHashFeatureType(k, v, h, f),
                _ => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, h),
            };
            desc.push(format!("{node}"));
            c.must(b.insert(&node), "insert")?;
        }
    }
    c.note(desc.join(", "));
    if c.rng.chance(1, 8)
        && let Some(last) = shown.keys().last()
    {
        // out of order: refused
        let k = if c.rng.bool() { last.clone() } else { shown.keys().next().unwrap().clone() };
        c.ensure(b.insert(&Node::KV(k.clone(), vec![])).is_err(), "order-accepted", || format!("{k:?}"))?;
        c.count("order-refused", 1);
        return Ok(());
    }
    let m = b.build();
    c.ensure(m.all().map(|(k, (_, v))| (k.clone(), v.clone())).eq(shown.iter().map(|(k, v)| (k.clone(), v.clone()))), "all", || format!("{m:?}"))?;
    // is something hidden between the shown neighbours of the open interval?
    let hidden_after = |k: Option<&Key>| match k {
        None => shown.keys().next().map_or(hidden, |f| gap[f]),
        Some(k) => shown.range((Bound::Excluded(k.clone()), Bound::Unbounded)).next().map_or(hidden, |(n, _)| gap[n]),
    };
    for k in probes(&keys) {
        let got = m.get(&k).map(|v| v.map(|v| v.to_vec()));
        match shown.get(&k) {
            Some(v) => c.ensure(got.as_ref().is_ok_and(|g| g.as_ref() == Some(v)), "get", || format!("{k:?}: {got:?}"))?,
            None => {
                let prev = shown.range(..k.clone()).next_back().map(|(k, _)| k.clone());
                if hidden_after(prev.as_ref()) {
                    c.ensure(got.is_err(), "absence-unproven", || format!("{k:?}: {got:?}"))?;
                    c.count("unproven", 1);
                } else {
                    c.ensure(matches!(got, Ok(None)), "absence-refused", || format!("{k:?}: {got:?}"))?;
                    c.count("proven-absent", 1);
                }
            }
        }
    }
    for _ in 0..12 {
        let u = probes(&keys);
        let (mut a, mut z) = (c.rng.pick(&u).clone(), c.rng.pick(&u).clone());
        if a > z {
            std::mem::swap(&mut a, &mut z);
        }
        let lo = match c.rng.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(a.clone()),
            _ => Bound::Excluded(a.clone()),
        };
        let hi = match c.rng.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(z.clone()),
            _ => Bound::Excluded(z.clone()),
        };
        // nothing lies in an empty range
        let open = |b: &Bound<Key>| matches!(b, Bound::Excluded(_));
        let unbounded = matches!(lo, Bound::Unbounded) || matches!(hi, Bound::Unbounded);
        if a == z && !unbounded && (open(&lo) || open(&hi)) {
            continue;
        }
        let inside: Vec<(&Key, &Vec<u8>)> = shown.range((lo.clone(), hi.clone())).collect();
        // every stretch of the range between shown keys must be known
        let mut missing = false;
        let mut at: Option<Key> = match &lo {
            Bound::Unbounded => None,
            // the last shown key below the start
            Bound::Included(a) => shown.range(..a.clone()).next_back().map(|x| x.0.clone()),
            Bound::Excluded(a) => shown.range(..=a.clone()).next_back().map(|x| x.0.clone()),
        };
        let mut covered = false;
        let mut ok_rows = 0;
        for (k, _) in &inside {
            let exact = matches!(&lo, Bound::Included(a) if a == *k);
            if !exact && hidden_after(at.as_ref()) {
                missing = true;
                break;
            }
            ok_rows += 1;
            at = Some((*k).clone());
            covered = matches!(&hi, Bound::Included(z) if z == *k);
        }
        if !missing && !covered && hidden_after(at.as_ref()) {
            missing = true;
        }
        let conv = |b: &Bound<Key>| b.clone();
        let (l, h) = (conv(&lo), conv(&hi));
        fn view(b: &Bound<Key>) -> Bound<&[u8]> {
            match b {
                Bound::Unbounded => Bound::Unbounded,
                Bound::Included(k) => Bound::Included(k),
                Bound::Excluded(k) => Bound::Excluded(k),
            }
        }
        let mut got = vec![];
        let mut refused = false;
        for r in m.range((view(&l), view(&h))) {
            match r {
                Ok((k, v)) => got.push((k.to_vec(), v.to_vec())),
                Err(_) => {
                    refused = true;
                    break;
                }
            }
        }
        let show = || format!("{lo:?} to {hi:?} gave {got:?}, refused {refused}");
        c.ensure(refused || !missing, "range-unproven", show)?;
        c.ensure(missing || !refused, "range-refused", show)?;
        c.ensure(got.iter().map(|(k, v)| (k, v)).eq(inside[..ok_rows].iter().copied()), "range-rows", show)?;
        c.count(if missing { "gaps-noticed" } else { "ranges-proven" }, 1);
    }
    c.eval(fnv(desc.join(",").as_bytes()), desc.len() > 1);
    if c.wants_sample() {
        c.sample(format!("[{}]: {} shown", desc.join(", "), shown.len()));
    }
    Ok(())
}
pub fn p07(ctx: &Ctx) {
    ctx.rule("random sorted trees of up to eight nodes of which a proof shows any subset, hidden runs given as any node kind without a value: every lookup over an alphabet with neighbours, and ranges with every kind of bound, give the shown entries in order and fail exactly when something hidden may lie inside; nodes out of order are refused.");
    ctx.assume("the nodes come from a verified proof, in key order; a reference or digest node counts as not shown");
    ctx.cases("extracted", ctx.n(60_000, 2_000_000), extracted);
    for (k, n) in [("order-refused", 1000), ("unproven", 100_000), ("proven-absent", 100_000), ("gaps-noticed", 50_000), ("ranges-proven", 50_000)] {
        ctx.require(k, n);
    }
}
