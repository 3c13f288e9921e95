//! Q01: key-range items behave exactly like the key sets they denote.
use grovedb_costs::{CostContext, CostsExt, OperationCost};
use grovedb_query::{
    AggregateSumQuery, ProofItems, Query, QueryItem,
    query_item::intersect::Direction,
};
use grovedb_storage::RawIterator;
use std::{cmp::Ordering, collections::BTreeSet};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

const A: [u8; 4] = [0, 1, 0x7f, 0xff];

/// every key of up to three bytes over a small alphabet, in order
fn universe() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut layer = v.clone();
    for _ in 0..3 {
        layer = layer.iter().flat_map(|k| A.iter().map(move |b| [&k[..], &[*b]].concat())).collect();
        v.extend(layer.clone());
    }
    v.sort();
    v
}

/// What a kind of item denotes, written out independently.
pub fn member(i: &QueryItem, k: &[u8]) -> bool {
    use QueryItem::*;
    match i {
        Key(a) => k == &a[..],
        Range(r) => &r.start[..] <= k && k < &r.end[..],
        RangeInclusive(r) => &r.start()[..] <= k && k <= &r.end()[..],
        RangeFull(_) => true,
        RangeFrom(r) => &r.start[..] <= k,
        RangeTo(r) => k < &r.end[..],
        RangeToInclusive(r) => k <= &r.end[..],
        RangeAfter(r) => &r.start[..] < k,
        RangeAfterTo(r) => &r.start[..] < k && k < &r.end[..],
        RangeAfterToInclusive(r) => &r.start()[..] < k && k <= &r.end()[..],
    }
}

/// kind, lower bound, upper bound
fn shape(i: &QueryItem) -> (u32, Option<(&[u8], bool)>, Option<(&[u8], bool)>) {
    use QueryItem::*;
    match i {
        Key(a) => (0, Some((a, true)), Some((a, true))),
        Range(r) => (1, Some((&r.start, true)), Some((&r.end, false))),
        RangeInclusive(r) => (2, Some((r.start(), true)), Some((r.end(), true))),
        RangeFull(_) => (3, None, None),
        RangeFrom(r) => (4, Some((&r.start, true)), None),
        RangeTo(r) => (5, None, Some((&r.end, false))),
        RangeToInclusive(r) => (6, None, Some((&r.end, true))),
        RangeAfter(r) => (7, Some((&r.start, false)), None),
        RangeAfterTo(r) => (8, Some((&r.start, false)), Some((&r.end, false))),
        RangeAfterToInclusive(r) => (9, Some((r.start(), false)), Some((r.end(), true))),
    }
}

pub fn item_of(kind: usize, a: Vec<u8>, b: Vec<u8>) -> QueryItem {
    match kind {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(..),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..b),
        6 => QueryItem::RangeToInclusive(..=b),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}

/// a well-formed item (its lower bound is not above its upper bound)
fn item(rng: &mut Rng, u: &[Vec<u8>]) -> QueryItem {
    let kind = if rng.chance(1, 4) { 0 } else { rng.usize(10) };
    // mostly close bounds, so that items touch, nest and overlap
    let i = rng.usize(u.len());
    let j = if rng.bool() { (i + rng.usize(6)).min(u.len() - 1) } else { rng.usize(u.len()) };
    let (i, j) = (i.min(j), i.max(j));
    // an item that denotes no key at all is only made of equal bounds
    if i == j && (kind == 1 || kind == 8 || kind == 9) && !rng.chance(1, 6) {
        return QueryItem::Key(u[i].clone());
    }
    item_of(kind, u[i].clone(), u[j].clone())
}

fn set(i: &QueryItem, u: &[Vec<u8>]) -> Vec<bool> {
    u.iter().map(|k| member(i, k)).collect()
}
fn set_opt(i: &Option<QueryItem>, u: &[Vec<u8>]) -> Vec<bool> {
    i.as_ref().map_or(vec![false; u.len()], |i| set(i, u))
}
fn union<'a>(items: impl IntoIterator<Item = &'a QueryItem>, u: &[Vec<u8>]) -> Vec<bool> {
    let mut v = vec![false; u.len()];
    for i in items {
        for (x, k) in v.iter_mut().zip(u) {
            *x |= member(i, k);
        }
    }
    v
}
fn show(v: &[bool], u: &[Vec<u8>]) -> String {
    u.iter().zip(v).filter(|x| *x.1).map(|x| if x.0.is_empty() { "\"\"".into() } else { hex(x.0) }).collect::<Vec<_>>().join(" ")
}
fn zip(a: &[bool], b: &[bool], f: impl Fn(bool, bool) -> bool) -> Vec<bool> {
    a.iter().zip(b).map(|(a, b)| f(*a, *b)).collect()
}
fn any(a: &[bool]) -> bool {
    a.iter().any(|x| *x)
}
fn empty(i: &QueryItem) -> bool {
    match shape(i) {
        (_, Some((a, ai)), Some((b, bi))) => a > b || (a == b && !(ai && bi)),
        _ => false,
    }
}

fn one(c: &mut Case, u: &[Vec<u8>]) -> Res {
    let mut i = item(&mut c.rng, u);
    if c.rng.chance(1, 20) {
        // reversed bounds denote nothing
        let kind = *c.rng.pick(&[1usize, 2, 8, 9]);
        let (a, b) = (c.rng.usize(u.len()), c.rng.usize(u.len()));
        i = item_of(kind, u[a.max(b)].clone(), u[a.min(b)].clone());
    }
    c.note(format!("item {i:?}"));
    let want = set(&i, u);
    let got: Vec<bool> = u.iter().map(|k| i.contains(k)).collect();
    c.ensure(got == want, "contains", || format!("contains {}\ndenotes  {}", show(&got, u), show(&want, u)))?;
    let (kind, lo, hi) = shape(&i);
    c.same(&i.enum_value(), &kind, "kind")?;
    c.same(&i.lower_bound(), &(lo.map(|x| x.0), lo.is_some_and(|x| !x.1)), "lower-bound")?;
    c.same(&i.upper_bound(), &(hi.map(|x| x.0), hi.is_none_or(|x| x.1)), "upper-bound")?;
    c.same(&i.lower_unbounded(), &lo.is_none(), "lower-unbounded")?;
    c.same(&i.upper_unbounded(), &hi.is_none(), "upper-unbounded")?;
    c.same(&(i.is_key(), i.is_single(), i.is_range()), &(kind == 0, kind == 0, kind != 0), "kind-predicates")?;
    let back = i.to_range_set().to_query_item();
    c.ensure(set_opt(&back, u) == want, "range-set", || format!("{back:?}"))?;
    let Some(b) = i.to_range_set_borrowed() else { return c.fail("borrowed-missing", "none".into()) };
    let (mut seen_l, total) = (0, want.iter().filter(|x| **x).count());
    for (n, k) in u.iter().enumerate() {
        let r = b.could_contain_key(k);
        c.same(&r.included, &want[n], "borrowed-contains")?;
        let on = lo.is_some_and(|(a, inc)| !inc && a == &k[..]) || hi.is_some_and(|(a, inc)| !inc && a == &k[..]);
        c.same(&r.on_bounds_not_included, &on, "borrowed-on-bounds")?;
        let l = b.could_have_items_in_direction(k, Direction::LeftOf);
        let g = b.could_have_items_in_direction(k, Direction::RightOf);
        c.same(&l, &lo.is_none_or(|(a, _)| a < &k[..]), "borrowed-left")?;
        c.same(&g, &hi.is_none_or(|(a, _)| a > &k[..]), "borrowed-right")?;
        let right = total - seen_l - want[n] as usize;
        c.ensure((l || seen_l == 0) && (g || right == 0), "borrowed-direction-loses", || hex(k))?;
        seen_l += want[n] as usize;
    }
    // the keys of at most one byte, where the item is finite over them
    let short = |k: usize| kind != 0 && (lo.is_none_or(|x| x.0.len() > k) || hi.is_none_or(|x| x.0.len() != 1));
    let want_keys = match kind {
        0 => Some(vec![lo.unwrap().0.to_vec()]),
        1 | 2 if !short(1) => Some(
            std::iter::once(vec![]).chain((0..=255u8).map(|b| vec![b])).filter(|k| member(&i, k)).collect::<Vec<_>>(),
        ),
        _ => None,
    };
    let reversed = matches!((lo, hi), (Some(a), Some(b)) if a.0 > b.0);
    if !reversed {
        c.same(&i.keys().ok(), &want_keys, "keys")?;
        c.same(&i.clone().keys_consume().ok(), &want_keys, "keys")?;
    }
    c.count("one", 1);
    c.eval(fnv(format!("{i:?}").as_bytes()), any(&want));
    Ok(())
}

fn two(c: &mut Case, u: &[Vec<u8>]) -> Res {
    let (a, b) = (item(&mut c.rng, u), item(&mut c.rng, u));
    c.note(format!("items {a:?} and {b:?}"));
    let (sa, sb) = (set(&a, u), set(&b, u));
    let both = zip(&sa, &sb, |x, y| x && y);
    let r = a.intersect(&b);
    let got = set_opt(&r.in_both, u);
    c.ensure(got == both, "intersect", || format!("in both {:?} = {}\nreally  {}", r.in_both, show(&got, u), show(&both, u)))?;
    let (ol, or, tl, tr) = (set_opt(&r.ours_left, u), set_opt(&r.ours_right, u), set_opt(&r.theirs_left, u), set_opt(&r.theirs_right, u));
    let ours = zip(&ol, &or, |x, y| x || y);
    let theirs = zip(&tl, &tr, |x, y| x || y);
    c.ensure(ours == zip(&sa, &sb, |x, y| x && !y), "intersect-ours", || format!("{:?} {:?}", r.ours_left, r.ours_right))?;
    c.ensure(theirs == zip(&sb, &sa, |x, y| x && !y), "intersect-theirs", || format!("{:?} {:?}", r.theirs_left, r.theirs_right))?;
    if let Some(m) = both.iter().position(|x| *x) {
        let (p, q) = (m, both.iter().rposition(|x| *x).unwrap());
        c.ensure(!any(&ol[p..]) && !any(&or[..=q]) && !any(&tl[p..]) && !any(&tr[..=q]), "intersect-sides", || "a leftover is on the wrong side".into())?;
        c.count("overlapping", 1);
    } else {
        c.count("apart", 1);
    }
    let col = a.collides_with(&b);
    c.same(&col, &b.collides_with(&a), "collides-symmetric")?;
    c.ensure(col || !any(&both), "collides", || "they share keys but are said not to collide".into())?;
    if any(&both) {
        let m = a.merge(&b);
        let sm = set(&m, u);
        let want = zip(&sa, &sb, |x, y| x || y);
        c.ensure(sm == want, "merge", || format!("{m:?} = {}\nreally {}", show(&sm, u), show(&want, u)))?;
        let mut n = a.clone();
        n.merge_assign(&b);
        c.same(&n, &m, "merge-assign")?;
        c.ensure(set(&b.merge(&a), u) == want, "merge-symmetric", || format!("{:?}", b.merge(&a)))?;
    }
    // order
    let ord = a.cmp(&b);
    c.same(&ord, &b.cmp(&a).reverse(), "order-antisymmetric")?;
    c.same(&a.partial_cmp(&b), &Some(ord), "order-partial")?;
    if let (Some(x), Some(y), false) = (sa.iter().rposition(|x| *x), sb.iter().position(|x| *x), any(&both))
        && !empty(&a)
        && !empty(&b)
        && x < y
    {
        c.ensure(ord == Ordering::Less, "order", || format!("{ord:?} although every key of the first is below the second"))?;
    }
    let d = item(&mut c.rng, u);
    if ord != Ordering::Greater && b.cmp(&d) != Ordering::Greater {
        c.ensure(a.cmp(&d) != Ordering::Greater, "order-transitive", || format!("with {d:?}"))?;
    }
    c.same(&QueryItem::compare(&u[c.idx as usize % u.len()], &d.lower_bound().0.unwrap_or(&[]).to_vec()), &u[c.idx as usize % u.len()][..].cmp(d.lower_bound().0.unwrap_or(&[])), "compare-keys")?;
    c.eval(fnv(format!("{a:?}{b:?}").as_bytes()), any(&sa) && any(&sb));
    Ok(())
}

fn sorted_disjoint(c: &mut Case, items: &[QueryItem], u: &[Vec<u8>], sig: &str) -> Res {
    let mut last: Option<usize> = None;
    for i in items {
        let s = set(i, u);
        let Some(f) = s.iter().position(|x| *x) else { continue };
        c.ensure(last.is_none_or(|l| l < f), sig, || format!("not sorted and disjoint: {items:?}"))?;
        last = s.iter().rposition(|x| *x);
    }
    for w in items.windows(2) {
        c.ensure(w[0].cmp(&w[1]) == Ordering::Less, sig, || format!("not in order: {items:?}"))?;
    }
    Ok(())
}

fn split(c: &mut Case, p: &ProofItems, items: &[QueryItem], want: &[bool], u: &[Vec<u8>], (lo, hi): (usize, usize), depth: u32) -> Res {
    if lo >= hi || depth == 4 {
        return Ok(());
    }
    let m = lo + c.rng.usize(hi - lo);
    let (found, on, l, r) = p.process_key(&u[m]);
    c.same(&found, &want[m], "process-key-found")?;
    if !found && depth == 0 {
        let bound = items.iter().any(|i| {
            let (_, a, b) = shape(i);
            a.is_some_and(|x| !x.1 && x.0 == &u[m][..]) || b.is_some_and(|x| !x.1 && x.0 == &u[m][..])
        });
        c.same(&on, &bound, "process-key-bounds")?;
    }
    for n in lo..hi {
        if n == m {
            continue;
        }
        let side = if n < m { &l } else { &r };
        let f = side.process_key(&u[n]).0;
        c.ensure(f == want[n], "process-key-split", || format!("split at {}: {} is {}", hex(&u[m]), hex(&u[n]), if f { "gained" } else { "lost" }))?;
        if want[n] {
            c.ensure(!side.has_no_query_items(), "process-key-split", || "a side lost its items".into())?;
        }
    }
    if c.rng.bool() {
        return Ok(());
    }
    if c.rng.bool() {
        split(c, &l, items, want, u, (lo, m), depth + 1)
    } else {
        split(c, &r, items, want, u, (m + 1, hi), depth + 1)
    }
}

fn many(c: &mut Case, u: &[Vec<u8>]) -> Res {
    let n = 1 + c.rng.usize(12);
    let items: Vec<QueryItem> = (0..n).map(|_| item(&mut c.rng, u)).collect();
    c.note(format!("items {items:?}"));
    let want = union(&items, u);
    let mut q = Query::new();
    let mut ag = AggregateSumQuery::new_with_query_items(vec![], 1, None);
    ag.items.clear();
    let bulk = c.rng.bool();
    if bulk {
        q.insert_items(items.clone());
        ag.insert_items(items.clone());
    } else {
        for i in &items {
            use QueryItem::*;
            match i.clone() {
                Key(k) => {
                    ag.insert_key(k.clone());
                    if c.rng.bool() { q.insert_key(k) } else { q.insert_keys(vec![k]) }
                }
                Range(r) => { ag.insert_range(r.clone()); q.insert_range(r) }
                RangeInclusive(r) => { ag.insert_range_inclusive(r.clone()); q.insert_range_inclusive(r) }
                RangeFull(_) => { ag.insert_all(); q.insert_all() }
                RangeFrom(r) => { ag.insert_range_from(r.clone()); q.insert_range_from(r) }
                RangeTo(r) => { ag.insert_range_to(r.clone()); q.insert_range_to(r) }
                RangeToInclusive(r) => { ag.insert_range_to_inclusive(r.clone()); q.insert_range_to_inclusive(r) }
                RangeAfter(r) => { ag.insert_range_after(r.clone()); q.insert_range_after(r) }
                RangeAfterTo(r) => { ag.insert_range_after_to(r.clone()); q.insert_range_after_to(r) }
                RangeAfterToInclusive(r) => { ag.insert_range_after_to_inclusive(r.clone()); q.insert_range_after_to_inclusive(r) }
            }
        }
    }
    let got = union(&q.items, u);
    c.ensure(got == want, "insert-union", || format!("{:?} = {}\ninserted {}", q.items, show(&got, u), show(&want, u)))?;
    sorted_disjoint(c, &q.items.clone(), u, "insert-normal-form")?;
    c.same(&ag.items, &q.items, "insert-aggregate")?;
    c.same(&(q.len(), q.is_empty(), q.has_only_keys()), &(q.items.len(), q.items.is_empty(), q.items.iter().all(|i| matches!(i, QueryItem::Key(_)))), "query-size")?;
    let dir = c.rng.bool();
    let it: Vec<QueryItem> = q.directional_iter(dir).cloned().collect();
    let mut w = q.items.clone();
    if !dir {
        w.reverse();
    }
    c.same(&it, &w, "directional-iter")?;

    // splitting the items around a key keeps each side's members
    let (p, params) = ProofItems::new_with_query_items(&items, dir);
    c.same(&params.left_to_right, &dir, "proof-direction")?;
    c.same(&p.has_no_query_items(), &items.is_empty(), "proof-items-empty")?;
    split(c, &p, &items, &want, u, (0, u.len()), 0)?;

    // what is in one set, the other, or both
    let mid = c.rng.usize(items.len() + 1);
    let mut x = Query::new();
    x.insert_items(items[..mid].to_vec());
    let mut y = Query::new();
    y.insert_items(items[mid..].to_vec());
    // (items that denote nothing are left out: they are neither ours nor theirs)
    x.items.retain(|i| !empty(i));
    y.items.retain(|i| !empty(i));
    let (sx, sy) = (union(&x.items, u), union(&y.items, u));
    let mut ours = x.items.clone();
    let r = QueryItem::intersect_many_ordered(&mut ours, y.items.clone());
    let f = |v: &Option<Vec<QueryItem>>| union(v.iter().flatten(), u);
    c.ensure(f(&r.in_both) == zip(&sx, &sy, |a, b| a && b), "many-both", || format!("{:?} and {:?}: in both {:?}", x.items, y.items, r.in_both))?;
    c.ensure(f(&r.ours) == zip(&sx, &sy, |a, b| a && !b), "many-ours", || format!("{:?} and {:?}: ours {:?}", x.items, y.items, r.ours))?;
    c.ensure(f(&r.theirs) == zip(&sx, &sy, |a, b| !a && b), "many-theirs", || format!("{:?} and {:?}: theirs {:?}", x.items, y.items, r.theirs))?;
    c.count("inserted", n as u64);
    c.count("merged_away", (n - q.items.len().min(n)) as u64);
    c.eval(fnv(format!("{items:?}").as_bytes()), any(&want));
    if c.wants_sample() && n < 5 {
        c.sample(format!("{items:?} became {:?}", q.items));
    }
    Ok(())
}

/// A stored subtree with neighbours before and after it (or without), as the
/// storage lays it out: moving past the last row of all makes the iterator
/// invalid, and it does not come back by itself.
struct Rows {
    rows: Vec<(u8, Vec<u8>)>,
    at: Option<usize>,
    seeks: u32,
}
impl Rows {
    fn put(&mut self, i: Option<usize>) -> CostContext<()> {
        self.at = i;
        self.seeks += 1;
        ().wrap_with_cost(OperationCost::with_seek_count(1))
    }
    fn first_at(&self, k: (u8, &[u8])) -> usize {
        self.rows.partition_point(|r| (r.0, &r.1[..]) < k)
    }
}
impl RawIterator for Rows {
    fn seek_to_first(&mut self) -> CostContext<()> {
        let i = self.first_at((1, &[]));
        self.put((i < self.rows.len()).then_some(i))
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        let i = self.rows.partition_point(|r| r.0 < 2);
        self.put(i.checked_sub(1))
    }
    fn seek<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        let i = self.first_at((1, key.as_ref()));
        self.put((i < self.rows.len()).then_some(i))
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        let i = self.rows.partition_point(|r| (r.0, &r.1[..]) <= (1, key.as_ref()));
        self.put(i.checked_sub(1))
    }
    fn next(&mut self) -> CostContext<()> {
        let i = self.at.map(|i| i + 1).filter(|i| *i < self.rows.len());
        self.put(i)
    }
    fn prev(&mut self) -> CostContext<()> {
        let i = self.at.and_then(|i| i.checked_sub(1));
        self.put(i)
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        self.key()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        self.at.map(|i| &self.rows[i]).filter(|r| r.0 == 1).map(|r| &r.1[..]).wrap_with_cost(OperationCost::default())
    }
    fn valid(&self) -> CostContext<bool> {
        self.at.is_some_and(|i| self.rows[i].0 == 1).wrap_with_cost(OperationCost::default())
    }
}

fn iterate(c: &mut Case, u: &[Vec<u8>]) -> Res {
    let i = item(&mut c.rng, u);
    let n = c.rng.usize(12);
    let keys: BTreeSet<Vec<u8>> = (0..n).map(|_| c.rng.pick(u).clone()).collect();
    let (before, after) = (c.rng.usize(3), c.rng.usize(3));
    let mut rows: Vec<(u8, Vec<u8>)> = keys.iter().map(|k| (1, k.clone())).collect();
    rows.extend((0..before).map(|n| (0, vec![n as u8])));
    rows.extend((0..after).map(|n| (2, vec![n as u8])));
    rows.sort();
    let l2r = c.rng.bool();
    let limit = if c.rng.bool() { None } else { Some(c.rng.below(5) as u16) };
    c.note(format!("{i:?} over {:?}, {before} rows before, {after} after, left to right {l2r}, limit {limit:?}", keys.iter().map(|k| hex(k)).collect::<Vec<_>>()));
    let mut want: Vec<Vec<u8>> = keys.iter().filter(|k| member(&i, k)).cloned().collect();
    if !l2r {
        want.reverse();
    }
    want.truncate(limit.unwrap_or(u16::MAX) as usize);
    let mut it = Rows { rows, at: None, seeks: 0 };
    i.seek_for_iter(&mut it, l2r).value;
    let mut left = limit;
    let mut got = Vec::new();
    while i.iter_is_valid_for_type(&it, left, None, l2r).value {
        got.push(it.key().value.unwrap().to_vec());
        if let Some(l) = left.as_mut() {
            *l -= 1;
        }
        if l2r { it.next().value } else { it.prev().value }
        if got.len() > 100 {
            return c.fail("iterate-endless", "more than 100 keys".into());
        }
    }
    c.ensure(got == want, "iterate", || format!("visited {:?}\nin set  {:?}", got.iter().map(|k| hex(k)).collect::<Vec<_>>(), want.iter().map(|k| hex(k)).collect::<Vec<_>>()))?;
    c.count(if l2r { "forward" } else { "backward" }, 1);
    c.count("visited", got.len() as u64);
    c.eval(fnv(format!("{i:?}{keys:?}{before}{after}{l2r}{limit:?}").as_bytes()), !want.is_empty());
    Ok(())
}

pub fn q01(ctx: &Ctx) {
    ctx.rule("random items of all ten kinds whose bounds are drawn from all 85 keys of up to three bytes over {00,01,7f,ff}, compared with the sets they denote over those keys; pairs, lists and iterations over random stored rows with and without neighbouring subtrees. Non-trivial: the set is not empty.");
    ctx.assume("items with reversed bounds are only checked on their own");
    ctx.assume("enumerating the keys of a range is defined for bounds of one byte and lists keys of at most one byte");
    let u = universe();
    ctx.cases("one", ctx.n(20_000, 400_000), |c| one(c, &u));
    ctx.cases("two", ctx.n(150_000, 4_000_000), |c| two(c, &u));
    ctx.cases("many", ctx.n(60_000, 1_500_000), |c| many(c, &u));
    ctx.cases("iterate", ctx.n(300_000, 6_000_000), |c| iterate(c, &u));
    for k in ["one", "overlapping", "apart", "inserted", "merged_away", "forward", "backward", "visited"] {
        ctx.require(k, 1000);
    }
}
