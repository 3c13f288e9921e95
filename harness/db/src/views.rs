//! The other ways to ask a database: each compared with the rows the model has.
use crate::obs::{Obs, V, ensure, fail, must, same};
use crate::queries::{Key, Path, contains};
use crate::reads::{RowOut, show_path};
use crate::sim::v;
use crate::world;
use grovedb::operations::QueryItemOrSumReturnType as Sum;
use grovedb::query_result_type::{PathKeyOptionalElementTrio, QueryResultElement, QueryResultType};
use grovedb::reference_path::path_from_reference_path_type;
use grovedb::{AggregateSumPathQuery, AggregateSumQueryOptions, Element, Error, GroveDb, PathQuery, Transaction};
use grovedb_query::{AggregateSumQuery, Query, QueryItem};

fn element(bytes: &[u8]) -> Element {
    Element::deserialize(bytes, v()).expect("rows are elements")
}
/// zigzag, seven bits a byte, least first
fn varint(n: i64) -> Vec<u8> {
    let mut n = ((n << 1) ^ (n >> 63)) as u64;
    let mut out = vec![];
    while n > 0x7f {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
    out
}
fn data(e: &Element) -> Option<Vec<u8>> {
    match e {
        Element::Item(b, _) | Element::ItemWithSumItem(b, ..) => Some(b.clone()),
        Element::SumItem(n, _) => Some(varint(*n)),
        _ => None,
    }
}
fn data_or_sum(e: &Element) -> Option<Sum> {
    Some(match e {
        Element::Item(b, _) => Sum::ItemData(b.clone()),
        Element::ItemWithSumItem(b, n, _) => Sum::ItemDataWithSumValue(b.clone(), *n),
        Element::SumItem(n, _) | Element::SumTree(_, n, _) => Sum::SumValue(*n),
        Element::BigSumTree(_, n, _) => Sum::BigSumValue(*n),
        Element::CountTree(_, n, _) | Element::ProvableCountTree(_, n, _) => Sum::CountValue(*n),
        Element::CountSumTree(_, n, s, _) | Element::ProvableCountSumTree(_, n, s, _) => Sum::CountSumValue(*n, *s),
        _ => return None,
    })
}
/// all of them, or an error
fn agree<T: PartialEq + std::fmt::Debug>(o: &mut Obs, got: Result<T, Error>, want: Option<T>, name: &'static str, show: &dyn Fn() -> String) -> V {
    match (got, want) {
        (Ok(g), Some(w)) => ensure(g == w, &format!("{name}-differs"), || format!("{}\n{g:?}\nexpected\n{w:?}", show()))?,
        (Ok(g), None) => fail(&format!("{name}-of-unreadable"), format!("{}\n{g:?}", show()))?,
        (Err(e), Some(w)) => fail(&format!("{name}-fails"), format!("{} {e}, expected\n{w:?}", show()))?,
        (Err(_), None) => return Ok(()),
    }
    o.count(name, 1);
    Ok(())
}
/// the rows as stored, with absolute references, and with what the references lead to
pub struct Rows<'a> {
    pub raw: &'a [RowOut],
    pub want: &'a [RowOut],
    pub readable: bool,
}
pub fn derived(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, q: &PathQuery, rows: &Rows, show: &dyn Fn() -> String) -> V {
    let cache = o.rng.bool();
    let is_ref: Vec<bool> = rows.raw.iter().map(|r| element(&r.2).is_reference()).collect();
    // a reference may lead nowhere
    let ends: Vec<Option<Element>> = rows.want.iter().map(|r| Element::deserialize(&r.2, v()).ok().filter(|e| !e.is_reference())).collect();

    let want = ends.iter().map(|e| data(e.as_ref()?)).collect::<Option<Vec<_>>>().map(|x| (x, 0));
    agree(o, db.query_item_value(q, cache, true, false, tx, v()).unwrap(), want, "item-values", show)?;
    let want = ends.iter().map(|e| data_or_sum(e.as_ref()?)).collect::<Option<Vec<_>>>().map(|x| (x, 0));
    agree(o, db.query_item_value_or_sum(q, cache, true, false, tx, v()).unwrap(), want, "items-or-sums", show)?;
    let want = ends
        .iter()
        .zip(&is_ref)
        .map(|(e, r)| match e.as_ref()? {
            Element::SumItem(n, _) => Some(*n),
            Element::ItemWithSumItem(_, n, _) if !r => Some(*n),
            _ => None,
        })
        .collect::<Option<Vec<_>>>()
        .map(|x| (x, 0));
    agree(o, db.query_sums(q, cache, true, false, tx, v()).unwrap(), want, "sums", show)?;

    // the same rows, with less around them
    let raw = |how| db.query_raw(q, cache, true, false, how, tx, v()).unwrap().map(|x| x.0.elements);
    let got = must(raw(QueryResultType::QueryElementResultType), "query-fails")?;
    let want: Vec<_> = rows.raw.iter().map(|r| QueryResultElement::ElementResultItem(element(&r.2))).collect();
    same(&got, &want, "query-of-elements-differs")?;
    let got = must(raw(QueryResultType::QueryKeyElementPairResultType), "query-fails")?;
    let want: Vec<_> = rows.raw.iter().map(|r| QueryResultElement::KeyElementPairResultItem((r.1.clone(), element(&r.2)))).collect();
    same(&got, &want, "query-of-pairs-differs")?;

    // the keys it names, with those that are absent
    let mut lim = q.clone();
    lim.query.limit = Some(1000);
    let names = lim.terminal_keys(1000, v()).ok();
    let with = |rows: &[RowOut]| {
        names.as_ref().map(|names| {
            let find = |p: &Path, k: &Key| rows.iter().find(|r| r.0 == *p && r.1 == *k).map(|r| element(&r.2));
            let mut seen = std::collections::BTreeSet::new();
            names.iter().map(|(p, k)| (p.clone(), k.clone(), find(p, k).filter(|_| seen.insert((p.clone(), k.clone()))))).collect::<Vec<PathKeyOptionalElementTrio>>()
        })
    };
    let want = with(rows.raw);
    agree(o, db.query_raw_keys_optional(&lim, cache, true, false, tx, v()).unwrap(), want, "named-keys-raw", show)?;
    let want = if rows.readable { with(rows.want) } else { None };
    agree(o, db.query_keys_optional(&lim, cache, true, false, tx, v()).unwrap(), want, "named-keys", show)?;
    if let Some(names) = &names
        && names.len() > 1
    {
        let mut short = lim.clone();
        short.query.limit = Some(o.rng.usize(names.len()) as u16);
        let got = db.query_raw_keys_optional(&short, cache, true, false, tx, v()).unwrap();
        ensure(got.is_err(), "named-keys-past-the-limit", || format!("{} {} of {}", show(), got.map(|x| x.len()).unwrap_or(0), names.len()))?;
    }
    for (limit, offset) in [(None, None), (Some(9), Some(0))] {
        let mut bad = q.clone();
        (bad.query.limit, bad.query.offset) = (limit, offset);
        let refused = db.query_raw_keys_optional(&bad, cache, true, false, tx, v()).unwrap().is_err() && db.query_keys_optional(&bad, cache, true, false, tx, v()).unwrap().is_err();
        ensure(refused, "named-keys-unlimited", show)?;
    }
    Ok(())
}
/// several queries at once: what their merge gives
pub fn many(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, w: &world::Merk, a: &PathQuery, b: &PathQuery) -> V {
    let show = || format!("{a}\nand {b}");
    let how = QueryResultType::QueryPathKeyElementTrioResultType;
    let got = db.query_many_raw(&[a, b], true, true, false, how, tx, v()).unwrap();
    let Ok(both) = PathQuery::merge(vec![a, b], v()) else {
        return ensure(got.is_err(), "unmergeable-queries-answered", show);
    };
    let one = db.query_raw(&both, true, true, false, how, tx, v()).unwrap();
    let rows = match (got, one) {
        (Ok(g), Ok((one, _))) => {
            same(&g, &one, "queries-at-once-differ")?;
            g.to_path_key_elements()
        }
        (Err(_), Err(_)) => return Ok(()),
        (g, one) => return fail("queries-at-once-differ", format!("{} {} {}", show(), g.is_ok(), one.is_ok())),
    };
    o.count("queries at once", 1);
    let mut want = Some(vec![]);
    for (p, k, _) in &rows {
        let e = w.entry(p, k);
        let to = e.filter(|e| e.is_ref()).and_then(|e| e.target.as_ref()).and_then(|t| data(&Element::deserialize(t, v()).ok()?));
        want = want.zip(to).map(|(mut a, b)| {
            a.push(b);
            a
        });
    }
    #[allow(deprecated)]
    let got = db.query_encoded_many(&[a, b], true, true, false, tx, v()).unwrap();
    agree(o, got, want, "referred-values", &show)
}
/// the sums in a tree, up to a budget
pub fn aggregates(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, w: &world::Merk, path: &Path, of: &Query) -> V {
    let left = o.rng.bool();
    let budget = match o.rng.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => i64::MAX as u64,
        3 | 4 => o.rng.below(50),
        _ => o.rng.below(2000),
    };
    let few = o.rng.chance(1, 2).then(|| o.rng.below(6) as u16);
    let mut q = AggregateSumQuery::new(budget, few);
    (q.items, q.left_to_right) = (vec![], left);
    for i in &of.items {
        q.insert_item(i.clone());
    }
    let mut version = v().clone();
    if o.rng.chance(1, 3) {
        version.grovedb_versions.query_limits.max_aggregate_sum_query_elements_scanned = o.rng.below(6) as u16;
    }
    let most = version.grovedb_versions.query_limits.max_aggregate_sum_query_elements_scanned as usize;
    let (strict, no_refs) = (o.rng.chance(1, 3), o.rng.bool());
    let got = db.query_aggregate_sums_with_options(
        &AggregateSumPathQuery { path: path.clone(), aggregate_sum_query: q.clone() },
        AggregateSumQueryOptions { allow_cache: o.rng.bool(), error_if_intermediate_path_tree_not_present: true, error_if_non_sum_item_found: strict, ignore_references: no_refs },
        tx,
        &version,
    );
    let got = got.unwrap();
    let plain = db.query_aggregate_sums(&AggregateSumPathQuery { path: path.clone(), aggregate_sum_query: q.clone() }, o.rng.bool(), true, tx, &version).unwrap();
    let show = || format!("{q} of {few:?} at {} strict {strict} references {} scanning {most}", show_path(path), !no_refs);
    for (got, strict, no_refs) in [(got, strict, no_refs), (plain, true, false)] {
        let Some(want) = expected(w, path, &q, most, strict, no_refs) else {
            o.count("sums up to a budget left out", 1);
            continue;
        };
        let got = got.map(|r| (r.results, r.hard_limit_reached));
        agree(o, got, want, "sums-up-to-a-budget", &show)?;
    }
    Ok(())
}
type Sums = (Vec<(Key, i64)>, bool);
/// None where nothing is said; an inner None for an error
fn expected(w: &world::Merk, path: &Path, q: &AggregateSumQuery, most: usize, strict: bool, no_refs: bool) -> Option<Option<Sums>> {
    let at = w.at(path)?;
    let Ok(mut budget) = i64::try_from(q.sum_limit) else { return Some(None) };
    let mut few = q.limit_of_items_to_check;
    let mut out = vec![];
    let mut scanned = 0;
    let mut items: Vec<&QueryItem> = q.items.iter().collect();
    let mut order: Vec<usize> = (0..at.nodes.len()).collect();
    order.sort_by(|a, b| at.nodes[*a].key.cmp(&at.nodes[*b].key));
    if !q.left_to_right {
        items.reverse();
        order.reverse();
    }
    for item in items {
        for i in &order {
            let e = &at.nodes[*i];
            if !contains(item, &e.key) {
                continue;
            }
            if budget <= 0 || few == Some(0) || scanned > most {
                break;
            }
            scanned += 1;
            if scanned > most {
                break;
            }
            let n = match &e.elem {
                Element::SumItem(n, _) | Element::ItemWithSumItem(_, n, _) => Some(*n),
                Element::Reference(..) if no_refs => continue,
                Element::Reference(..) => match Element::deserialize(e.target.as_ref()?, v()).ok()? {
                    // no more than three more references on the way
                    _ if further(w, path, e)? > 3 => return Some(None),
                    Element::SumItem(n, _) | Element::ItemWithSumItem(_, n, _) => Some(n),
                    _ => None,
                },
                _ => None,
            };
            match n {
                Some(n) => {
                    out.push((e.key.clone(), n));
                    few = few.map(|x| x - 1);
                    budget = budget.saturating_sub(n);
                }
                None if strict => return Some(None),
                None => {}
            }
        }
    }
    Some(Some((out, scanned > most)))
}
/// references after the first one
fn further(w: &world::Merk, path: &Path, e: &world::Entry) -> Option<usize> {
    let (mut path, mut e, mut n) = (path.clone(), e, 0);
    loop {
        let Element::Reference(to, ..) = &e.elem else { return Some(n - 1) };
        let mut to = path_from_reference_path_type(to.clone(), &path, Some(&e.key)).ok()?;
        let key = to.pop()?;
        e = w.entry(&to, &key)?;
        path = to;
        n += 1;
    }
}
