//! Reads compared with the model.
use crate::model::{LogKind, Node, Path, Tree, norm};
use crate::obs::{Obs, V, ensure, fail, must, same};
use crate::queries::Key;
use crate::sim::{self, refs, v};
use crate::views::{Rows, aggregates, derived, many};
use crate::world;
use grovedb::query_result_type::{QueryResultElement, QueryResultType};
use grovedb::reference_path::{ReferencePathType, path_from_reference_path_type};
use grovedb_query::Query;
use grovedb::{Element, GroveDb, PathQuery, SizedQuery, Transaction};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::hex;

pub fn show_path(p: &[Key]) -> String {
    p.iter().map(|k| hex(k)).collect::<Vec<_>>().join("/")
}
/// every read gives what the model has
pub fn reads(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, t: &Tree, aux: &BTreeMap<Key, Vec<u8>>) -> V {
    for p in t.trees() {
        let tree = t.at(&p).unwrap();
        let r = refs(&p);
        let at = || show_path(&p);
        for (k, n) in &tree.map {
            let got = must(db.get_raw(r.as_slice().into(), k, tx, v()).unwrap(), "get-raw-fails")?;
            ensure(norm(&got) == n.element(), "get-raw-differs", || format!("{} / {}: {got}, expected {}", at(), hex(k), n.element()))?;
            let got = db.get(r.as_slice(), k, tx, v()).unwrap();
            match (got, t.read(&p, k)) {
                (Ok(e), Ok((_, w))) => ensure(norm(&e) == w.element(), "get-differs", || format!("{} / {}: {e}, expected {}", at(), hex(k), w.element()))?,
                (Err(_), Err(_)) => {}
                (Ok(e), Err(w)) => fail("get-of-unresolvable-reference", format!("{} / {}: {e}, expected {w}", at(), hex(k)))?,
                (Err(e), Ok((_, w))) => fail("get-fails", format!("{} / {}: {e}, expected {}", at(), hex(k), w.element()))?,
            }
            o.count("keys read", 1);
        }
        if let Some((k, n)) = tree.map.iter().nth(o.rng.usize(tree.map.len().max(1))) {
            ensure(has(db, &r, k, tx), "has-raw-of-present", at)?;
            if let Node::Tree(s) = n {
                let mut sub = p.clone();
                sub.push(k.clone());
                let e = must(db.is_empty_tree(refs(&sub).as_slice(), tx, v()).unwrap(), "is-empty-fails")?;
                same(&e, &s.map.is_empty(), "is-empty-differs")?;
            }
        }
        for _ in 0..3 {
            let k = sim::pick_key(&mut o.rng);
            if tree.map.contains_key(&k) {
                continue;
            }
            let got = must(db.get_raw_optional(r.as_slice().into(), &k, tx, v()).unwrap(), "get-raw-optional-fails")?;
            ensure(got.is_none(), "absent-key-read", || format!("{} / {}: {got:?}", at(), hex(&k)))?;
            let raw = db.get_raw(r.as_slice().into(), &k, tx, v()).unwrap();
            ensure(raw.is_err(), "absent-key-read", || format!("{} / {}: {raw:?}", at(), hex(&k)))?;
            let raw = db.get(r.as_slice(), &k, tx, v()).unwrap();
            ensure(raw.is_err(), "absent-key-read", || format!("{} / {}: {raw:?}", at(), hex(&k)))?;
            ensure(!has(db, &r, &k, tx), "absent-key-read", at)?;
            o.count("absent keys read", 1);
        }
    }
    for p in t.logs() {
        log_reads(o, db, tx, t, &p)?;
    }
    // all that is below a tree
    let all: Vec<Path> = t.trees().into_iter().chain(t.logs().into_iter().map(|(mut p, k)| {
        p.push(k);
        p
    })).collect();
    let p = o.rng.pick(&t.trees()).clone();
    let want: BTreeSet<&Path> = all.iter().filter(|x| x.starts_with(&p)).collect();
    let got = must(db.find_subtrees(&refs(&p).as_slice().into(), tx, v()).unwrap(), "find-subtrees-fails")?;
    ensure(got.len() == want.len() && got.iter().collect::<BTreeSet<_>>() == want, "subtrees-differ", || format!("below {}: {:?}, expected {:?}", show_path(&p), got.iter().map(|p| show_path(p)).collect::<Vec<_>>(), want.iter().map(|p| show_path(p)).collect::<Vec<_>>()))?;
    for (k, val) in aux {
        let got = must(db.get_aux(k, tx).unwrap(), "get-aux-fails")?;
        ensure(got.as_ref() == Some(val), "get-aux-differs", || format!("{}: {:?}, expected {}", hex(k), got.as_ref().map(|x| hex(x)), hex(val)))?;
        o.count("auxiliary values read", 1);
    }
    let k = sim::pick_key(&mut o.rng);
    if !aux.contains_key(&k) {
        let got = must(db.get_aux(&k, tx).unwrap(), "get-aux-fails")?;
        ensure(got.is_none(), "absent-aux-read", || hex(&k))?;
    }
    Ok(())
}
fn has(db: &GroveDb, p: &[&[u8]], k: &[u8], tx: Option<&Transaction>) -> bool {
    db.has_raw(p, k, tx, v()).unwrap().unwrap_or(false)
}
pub fn log_reads(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, t: &Tree, at: &(Path, Key)) -> V {
    let full: Path = at.0.iter().cloned().chain([at.1.clone()]).collect();
    let Some(Node::Log(l)) = t.get(&full) else { return Ok(()) };
    let r = refs(&at.0);
    let (p, k) = (r.as_slice(), at.1.as_slice());
    let n = l.values.len();
    let count = match l.kind {
        LogKind::Mmr => db.mmr_tree_leaf_count(p, k, tx, v()).unwrap(),
        LogKind::Bulk(_) => db.bulk_count(p, k, tx, v()).unwrap(),
        LogKind::Dense(_) => db.dense_tree_count(p, k, tx, v()).unwrap().map(|x| x as u64),
        LogKind::Commit(_) => db.commitment_tree_count(p, k, tx, v()).unwrap(),
    };
    let count = must(count, "append-only-count-fails")?;
    same(&count, &(n as u64), "append-only-count-differs")?;
    let asked: Vec<usize> = if n <= 12 { (0..n + 2).collect() } else { (0..10).map(|_| o.rng.usize(n + 2)).chain([n, n - 1]).collect() };
    for i in asked {
        let got = match l.kind {
            LogKind::Mmr => db.mmr_tree_get_value(p, k, i as u64, tx, v()).unwrap(),
            LogKind::Bulk(_) => db.bulk_get_value(p, k, i as u64, tx, v()).unwrap(),
            LogKind::Dense(_) => db.dense_tree_get(p, k, i as u16, tx, v()).unwrap(),
            LogKind::Commit(_) => db.commitment_tree_get_value(p, k, i as u64, tx, v()).unwrap(),
        };
        let got = match got {
            Err(e) if i < n => return fail("append-only-value-fails", format!("{:?} {i} of {n}: {e}", l.kind)),
            g => g.ok().flatten(),
        };
        ensure(got.as_ref() == l.values.get(i), "append-only-value-differs", || format!("{:?} {i}: {:?}, expected {:?}", l.kind, got.as_ref().map(|x| hex(x)), l.values.get(i).map(|x| hex(x))))?;
        o.count("appended values read", 1);
    }
    match l.kind {
        LogKind::Commit(_) => {
            let a = must(db.commitment_tree_anchor(p, k, tx, v()).unwrap(), "anchor-fails")?;
            ensure(a.to_bytes() == crate::logs::anchor(&l.values), "anchor-differs", || format!("{n} notes"))?;
        }
        LogKind::Mmr => {
            let a = must(db.mmr_tree_root_hash(p, k, tx, v()).unwrap(), "mmr-root-fails")?;
            ensure(a == crate::models::Range::of(&l.values).root(), "mmr-root-differs", || format!("{n} leaves"))?;
        }
        LogKind::Dense(_) => {
            let a = must(db.dense_tree_root_hash(p, k, tx, v()).unwrap(), "dense-root-fails")?;
            ensure(a == crate::models::dense_root(&l.values), "dense-root-differs", || format!("{n} values"))?;
        }
        LogKind::Bulk(h) => {
            let per = 1usize << h;
            let chunks = must(db.bulk_chunk_count(p, k, tx, v()).unwrap(), "chunk-count-fails")?;
            same(&chunks, &((n / per) as u64), "chunk-count-differs")?;
            let buf = must(db.bulk_get_buffer(p, k, tx, v()).unwrap(), "buffer-fails")?;
            ensure(buf == l.values[n / per * per..], "buffer-differs", || format!("{n} values"))?;
            for i in 0..n / per + 1 {
                let got = must(db.bulk_get_chunk(p, k, i as u64, tx, v()).unwrap(), "chunk-fails")?;
                let want = (i < n / per).then(|| crate::models::blob(&l.values[i * per..(i + 1) * per]));
                ensure(got == want, "chunk-differs", || format!("chunk {i} of {n} values"))?;
            }
        }
    }
    Ok(())
}
pub type RowOut = (Path, Key, Vec<u8>);
pub fn run_query(db: &GroveDb, tx: Option<&Transaction>, q: &PathQuery, raw: bool) -> Result<Vec<RowOut>, grovedb::Error> {
    limited(db, tx, q, raw, true)
}
/// whether what is empty counts towards the limit is to be said
pub fn limited(db: &GroveDb, tx: Option<&Transaction>, q: &PathQuery, raw: bool, dec: bool) -> Result<Vec<RowOut>, grovedb::Error> {
    let how = QueryResultType::QueryPathKeyElementTrioResultType;
    let r = if raw { db.query_raw(q, true, dec, false, how, tx, v()) } else { db.query(q, true, dec, false, how, tx, v()) };
    r.unwrap().map(|x| {
        x.0.elements
            .into_iter()
            .map(|e| match e {
                QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => (p, k, world::ser(&e)),
                _ => unreachable!("asked for triples"),
            })
            .collect()
    })
}
/// queries give the rows the model has, in order; with a limit, the first of them
pub fn queries(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, w: &world::Merk, n: usize) -> V {
    for _ in 0..n {
        let path = world::path_for(&mut o.rng, w);
        let Some(at) = w.at(&path) else { continue };
        let mut q = world::query_for(&mut o.rng, at, 2);
        plain_parents(&mut q);
        if too_long(&q) || path.iter().any(|k| k.len() > 255) {
            continue;
        }
        let a = world::answer(w, &path, &q, None);
        if !a.errors.is_empty() || a.stuck > 0 || a.visited.values().any(|merk| !merk) {
            o.count("queries left out", 1);
            continue;
        }
        let mut raw: Vec<RowOut> = vec![];
        let mut want: Vec<RowOut> = vec![];
        let mut readable = true;
        for r in &a.rows {
            let e = w.entry(&r.path, &r.key).expect("rows are entries");
            let mut elem = e.elem.clone();
            if let Element::Reference(p, ..) = &mut elem
                && let Ok(to) = path_from_reference_path_type(p.clone(), &r.path, Some(&r.key))
            {
                *p = ReferencePathType::AbsolutePathReference(to);
            }
            readable &= match &elem {
                Element::Reference(..) => Element::deserialize(&r.value, v()).is_ok_and(|e| e.is_any_item()),
                Element::Tree(..) | Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::CommitmentTree(..) | Element::DenseAppendOnlyFixedSizeTree(..) => false,
                _ => true,
            };
            raw.push((r.path.clone(), r.key.clone(), world::ser(&elem)));
            want.push((r.path.clone(), r.key.clone(), r.value.clone()));
        }
        let show = || format!("query {q} at {} gives", show_path(&path));
        let mk = |l: Option<u16>, off: Option<u16>| PathQuery { path: path.clone(), query: SizedQuery { query: q.clone(), limit: l, offset: off } };
        let got = match run_query(db, tx, &mk(None, None), true) {
            Ok(g) => g,
            Err(e) => return fail("query-fails", format!("{} {e}", show())),
        };
        ensure(got == raw, "query-differs", || format!("{}\n{:?}\nexpected\n{:?}", show(), list(&got), list(&raw)))?;
        o.count("queries answered", 1);
        o.count("rows returned", got.len() as u64);
        match (run_query(db, tx, &mk(None, None), false), readable) {
            (Ok(got), true) => {
                ensure(got == want, "resolved-query-differs", || format!("{}\n{:?}\nexpected\n{:?}", show(), list(&got), list(&want)))?;
                o.count("queries with references resolved", 1);
            }
            (Err(e), true) => return fail("resolved-query-fails", format!("{} {e}", show())),
            (Ok(_), false) => return fail("resolved-query-of-unreadable", show()),
            _ => {}
        }
        derived(o, db, tx, &mk(None, None), &Rows { raw: &raw, want: &want, readable }, &show)?;
        aggregates(o, db, tx, w, &path, &q)?;
        let mut other = PathQuery { path: if o.rng.bool() { path.clone() } else { world::path_for(&mut o.rng, w) }, query: SizedQuery { query: q.clone(), limit: None, offset: None } };
        if let Some(at) = w.at(&other.path) {
            other.query.query = world::query_for(&mut o.rng, at, 2);
            if !too_long(&other.query.query) && other.path.iter().all(|k| k.len() <= 255) {
                many(o, db, tx, w, &mk(None, None), &other)?;
            }
        }
        let l = o.rng.usize(raw.len() + 2) as u16;
        let show = || format!("{} with limit {l}", show());
        let got = must(limited(db, tx, &mk(Some(l), None), true, true), "limited-query-fails")?;
        ensure(within(&got, &raw) && got.len() <= l as usize, "limited-query-differs", || format!("{}\n{:?}\nexpected some of\n{:?}", show(), list(&got), list(&raw)))?;
        if !stops_short(&q) {
            // empty subtrees do not count
            let got = must(limited(db, tx, &mk(Some(l), None), true, false), "limited-query-fails")?;
            let w = &raw[..raw.len().min(l as usize)];
            ensure(got == w, "limited-query-differs", || format!("{}\n{:?}\nexpected\n{:?}", show(), list(&got), list(w)))?;
        }
        if !q.has_subquery() {
            let off = o.rng.usize(raw.len() + 2) as u16;
            let got = must(run_query(db, tx, &mk(Some(l), Some(off)), true), "limited-query-fails")?;
            let w: Vec<RowOut> = raw.iter().skip(off as usize).take(l as usize).cloned().collect();
            ensure(got == w, "offset-query-differs", || format!("{} offset {off}\n{:?}\nexpected\n{:?}", show(), list(&got), list(&w)))?;
        }
        o.count("limited queries answered", 1);
    }
    Ok(())
}
pub type Asked = (PathQuery, bool, Result<Vec<RowOut>, ()>);
/// some queries and what they give
pub fn sample(o: &mut Obs, db: &GroveDb, tx: Option<&Transaction>, w: &world::Merk) -> Vec<Asked> {
    let mut out = vec![];
    for _ in 0..4 {
        let path = world::path_for(&mut o.rng, w);
        let at = w.at(&path).unwrap_or(w);
        let mut q = world::query_for(&mut o.rng, at, 2);
        if o.rng.chance(1, 3) {
            q.items = vec![grovedb_query::QueryItem::RangeFull(..)];
        }
        if too_long(&q) || path.iter().any(|k| k.len() > 255) {
            continue;
        }
        let q = PathQuery { path, query: SizedQuery { query: q, limit: o.rng.bool().then(|| o.rng.below(9) as u16), offset: None } };
        let raw = o.rng.chance(3, 4);
        let got = run_query(db, tx, &q, raw).map_err(|_| ());
        out.push((q, raw, got));
    }
    out
}
/// the rows are some of all, in order
fn within(some: &[RowOut], all: &[RowOut]) -> bool {
    let mut all = all.iter();
    some.iter().all(|r| all.any(|x| x == r))
}
/// a subquery path that leads nowhere counts towards the limit
fn stops_short(q: &Query) -> bool {
    let one = |b: &grovedb_query::SubqueryBranch| (b.subquery_path.is_some() && b.subquery.is_none()) || b.subquery.as_ref().is_some_and(|s| stops_short(s));
    one(&q.default_subquery_branch) || q.conditional_subquery_branches.iter().flatten().any(|x| one(x.1))
}
/// paths have no keys longer than any can be
fn too_long(q: &Query) -> bool {
    let one = |b: &grovedb_query::SubqueryBranch| b.subquery_path.iter().flatten().any(|k| k.len() > 255) || b.subquery.as_ref().is_some_and(|s| too_long(s));
    one(&q.default_subquery_branch) || q.conditional_subquery_branches.iter().flatten().any(|x| one(x.1))
}
fn plain_parents(q: &mut Query) {
    q.add_parent_tree_on_subquery = false;
    if let Some(s) = &mut q.default_subquery_branch.subquery {
        plain_parents(s);
    }
    for b in q.conditional_subquery_branches.iter_mut().flat_map(|x| x.values_mut()) {
        if let Some(s) = &mut b.subquery {
            plain_parents(s);
        }
    }
}
pub fn list(r: &[RowOut]) -> Vec<String> {
    r.iter().map(|(p, k, e)| format!("{} / {} = {}", show_path(p), hex(k), hex(e))).collect()
}
pub fn _unused(_: Element) {}
