//! Random queries, an independent reading of what they select, and Q02, Q03, Q04.
use grovedb::{PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use grovedb::AggregateSumPathQuery;
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use grovedb_version::version::{GROVE_VERSIONS, GroveVersion};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

pub type Key = Vec<u8>;
pub type Path = Vec<Key>;

pub fn version(rng: &mut Rng) -> &'static GroveVersion {
    rng.pick(GROVE_VERSIONS)
}

// ---- what a query says ---------------------------------------------------

pub fn contains(item: &QueryItem, k: &[u8]) -> bool {
    match item {
        QueryItem::Key(a) => k == &a[..],
        QueryItem::Range(r) => k >= &r.start[..] && k < &r.end[..],
        QueryItem::RangeInclusive(r) => k >= &r.start()[..] && k <= &r.end()[..],
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => k >= &r.start[..],
        QueryItem::RangeTo(r) => k < &r.end[..],
        QueryItem::RangeToInclusive(r) => k <= &r.end[..],
        QueryItem::RangeAfter(r) => k > &r.start[..],
        QueryItem::RangeAfterTo(r) => k > &r.start[..] && k < &r.end[..],
        QueryItem::RangeAfterToInclusive(r) => k > &r.start()[..] && k <= &r.end()[..],
    }
}
pub fn selects(q: &Query, k: &[u8]) -> bool {
    q.items.iter().any(|i| contains(i, k))
}
/// the branch followed below a selected key: the first conditional that matches, else the default
pub fn branch<'a>(q: &'a Query, k: &[u8]) -> &'a SubqueryBranch {
    q.conditional_subquery_branches.iter().flatten().find(|(i, _)| contains(i, k)).map(|(_, b)| b).unwrap_or(&q.default_subquery_branch)
}
pub fn leads(b: &SubqueryBranch) -> bool {
    b.subquery.is_some() || b.subquery_path.as_ref().is_some_and(|p| !p.is_empty())
}
/// every path a query touches, over the keys of `u`
pub fn visited(q: &Query, u: &[Key], at: &Path, out: &mut BTreeSet<Path>) {
    for k in u {
        if !selects(q, k) {
            continue;
        }
        let mut p = at.clone();
        p.push(k.clone());
        out.insert(p.clone());
        let b = branch(q, k);
        for s in b.subquery_path.iter().flatten() {
            p.push(s.clone());
            out.insert(p.clone());
        }
        if let Some(s) = &b.subquery {
            visited(s, u, &p, out);
        }
    }
}

// ---- random queries ------------------------------------------------------

#[derive(Clone)]
pub struct Keys(pub Vec<Key>);
impl Keys {
    pub fn letters(n: u8) -> Keys {
        Keys((0..n).map(|i| vec![b'a' + i]).collect())
    }
    pub fn any(&self, rng: &mut Rng) -> Key {
        rng.pick(&self.0).clone()
    }
}
pub fn range_item(rng: &mut Rng, a: Key, b: Key) -> QueryItem {
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    match rng.below(9) {
        0 => QueryItem::Range(a..b),
        1 => QueryItem::RangeInclusive(a..=b),
        2 => QueryItem::RangeFull(..),
        3 => QueryItem::RangeFrom(a..),
        4 => QueryItem::RangeTo(..b),
        5 => QueryItem::RangeToInclusive(..=b),
        6 => QueryItem::RangeAfter(a..),
        7 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}
pub fn item(rng: &mut Rng, keys: &Keys, ranges: u64) -> QueryItem {
    if rng.below(4) >= ranges {
        return QueryItem::Key(keys.any(rng));
    }
    let (a, b) = (keys.any(rng), keys.any(rng));
    range_item(rng, a, b)
}
#[derive(Clone)]
pub struct Shape {
    pub keys: Keys,
    /// quarters of items that are ranges
    pub ranges: u64,
    pub finite: bool,
    pub depth: u64,
    pub add_parent: bool,
}
pub fn random_item(rng: &mut Rng, s: &Shape) -> QueryItem {
    if s.finite {
        return match rng.below(8) {
            0 | 1 if s.ranges > 0 => {
                let (a, b) = (s.keys.any(rng), s.keys.any(rng));
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                if rng.bool() { QueryItem::Range(a..b) } else { QueryItem::RangeInclusive(a..=b) }
            }
            _ => QueryItem::Key(s.keys.any(rng)),
        };
    }
    item(rng, &s.keys, s.ranges)
}
pub fn random_branch(rng: &mut Rng, s: &Shape, depth: u64, empty: bool) -> SubqueryBranch {
    let path = rng.chance(1, 3).then(|| {
        let n = if rng.chance(1, 5) { rng.range(2, 3) } else { 1 };
        (0..n).map(|_| s.keys.any(rng)).collect::<Path>()
    });
    let subquery = (depth > 0 && rng.chance(2, 3)).then(|| Box::new(random_query(rng, s, depth - 1)));
    if path.is_none() && subquery.is_none() && !empty {
        return SubqueryBranch { subquery_path: Some(vec![s.keys.any(rng)]), subquery: None };
    }
    SubqueryBranch { subquery_path: path, subquery }
}
pub fn random_query(rng: &mut Rng, s: &Shape, depth: u64) -> Query {
    let mut q = Query::new_with_direction(rng.chance(3, 4));
    for _ in 0..rng.range(1, 3) {
        q.insert_item(random_item(rng, s));
    }
    q.add_parent_tree_on_subquery = s.add_parent && rng.chance(1, 3);
    if rng.chance(1, 2) {
        q.default_subquery_branch = random_branch(rng, s, depth, true);
    }
    if depth > 0 && rng.chance(1, 2) {
        for _ in 0..rng.range(1, 3) {
            let empty = rng.chance(1, 6);
            let b = random_branch(rng, s, depth, empty);
            let i = random_item(rng, s);
            q.add_conditional_subquery(i, b.subquery_path, b.subquery.map(|b| *b));
        }
    }
    q
}

// ---- Q02 -----------------------------------------------------------------

fn universe() -> Vec<Key> {
    let mut u = Keys::letters(5).0;
    u.push(b"".to_vec());
    u.push(b"bb".to_vec());
    u
}
fn check_merged(c: &mut Case, parts: &[(Path, Query)], got: &(Path, Query), sig: &'static str) -> Res {
    let u = universe();
    let mut want = BTreeSet::new();
    let mut top = BTreeSet::new();
    for (p, q) in parts {
        visited(q, &u, p, &mut want);
        // the keys of the parts that lie at the merged query's own level
        if p.len() == got.0.len() {
            top.extend(u.iter().filter(|k| selects(q, k)).cloned());
        } else {
            top.insert(p[got.0.len()].clone());
        }
    }
    let mut have = BTreeSet::new();
    visited(&got.1, &u, &got.0, &mut have);
    let show = || {
        let s: Vec<String> = parts.iter().map(|(p, q)| format!("[{p:?}] {q:?}")).collect();
        format!("{}\nmerged: {:?} {:?}", s.join("\n"), got.0, got.1)
    };
    for p in &want {
        // the path itself of a part is descended, its segments above the result are implied
        if !have.contains(p) {
            return c.fail(sig, format!("{p:?} is no longer asked for\n{}", show()));
        }
    }
    let extra: Vec<_> = u.iter().filter(|k| selects(&got.1, k) && !top.contains(*k)).collect();
    c.ensure(extra.is_empty(), "extra-keys", || format!("{extra:?} selected\n{}", show()))?;
    let items = &got.1.items;
    for w in items.windows(2) {
        c.ensure(u.iter().all(|k| !(contains(&w[0], k) && contains(&w[1], k))), "merged-items-overlap", show)?;
    }
    c.count("paths-kept", want.len() as u64);
    Ok(())
}
fn merge_shape(rng: &mut Rng) -> Shape {
    Shape { keys: Keys::letters(5), ranges: rng.below(3), finite: false, depth: rng.below(3), add_parent: true }
}
fn merges(c: &mut Case) -> Res {
    let s = merge_shape(&mut c.rng);
    let n = if c.rng.chance(1, 3) { 3 + c.rng.usize(2) } else { 2 };
    let qs: Vec<Query> = (0..n)
        .map(|_| {
            let d = c.rng.below(s.depth + 1);
            random_query(&mut c.rng, &s, d)
        })
        .collect();
    c.note(format!("{qs:?}"));
    let parts: Vec<(Path, Query)> = qs.iter().map(|q| (vec![], q.clone())).collect();
    let mut a = qs[0].clone();
    for q in &qs[1..] {
        a.merge_with(q.clone());
    }
    c.ensure(a.add_parent_tree_on_subquery == qs.iter().any(|q| q.add_parent_tree_on_subquery), "parent-flag", || format!("{qs:?}"))?;
    check_merged(c, &parts, &(vec![], a), "merge-with-loses")?;
    let b = Query::merge_multiple(qs.clone());
    c.ensure(b.add_parent_tree_on_subquery == qs.iter().any(|q| q.add_parent_tree_on_subquery), "parent-flag", || format!("{qs:?}"))?;
    check_merged(c, &parts, &(vec![], b), "merge-multiple-loses")?;
    // the same merge, further down
    let v = version(&mut c.rng);
    let pq: Vec<PathQuery> = qs
        .iter()
        .map(|q| {
            let mut path: Path = vec![b"r".to_vec()];
            for _ in 0..c.rng.below(3) {
                path.push(vec![b'a' + c.rng.below(2) as u8]);
            }
            PathQuery::new_unsized(path, q.clone())
        })
        .collect();
    let m = c.must(PathQuery::merge(pq.iter().collect(), v), "path-merge")?;
    let common = (0..).take_while(|i| pq.iter().all(|p| p.path.len() > *i && p.path[*i] == pq[0].path[*i])).count();
    c.same(&m.path, &pq[0].path[..common].to_vec(), "path-merge-root")?;
    c.same(&(m.query.limit, m.query.offset), &(None, None), "path-merge-limit")?;
    let parts: Vec<(Path, Query)> = pq.iter().map(|p| (p.path.clone(), p.query.query.clone())).collect();
    check_merged(c, &parts, &(m.path.clone(), m.query.query), "path-merge-loses")?;
    // a limit or an offset cannot be merged
    let mut l = pq.clone();
    let i = c.rng.usize(n);
    if c.rng.bool() {
        l[i].query.limit = Some(c.rng.u64() as u16);
    } else {
        l[i].query.offset = Some(c.rng.u64() as u16);
    }
    c.ensure(PathQuery::merge(l.iter().collect(), v).is_err(), "limit-merged", || format!("{l:?}"))?;
    let one = c.must(PathQuery::merge(vec![&l[i]], v), "single-merge")?;
    c.same(&one, &l[i], "single-merge")?;
    c.ensure(PathQuery::merge(vec![], v).is_err(), "empty-merge", String::new)?;
    c.eval(fnv(format!("{qs:?}").as_bytes()), n > 1);
    if c.wants_sample() {
        c.sample(format!("{} queries at {:?}", n, pq.iter().map(|p| p.path.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>().join("/")).collect::<Vec<_>>()));
    }
    Ok(())
}
/// what the recorded finding does to default branches whose paths differ: their
/// ends hang below the keys of the query itself instead of below the common path
fn level_too_high(mut q: Query, b: &SubqueryBranch) -> Query {
    let a = q.default_subquery_branch.clone();
    let (l, r) = (a.subquery_path.clone().unwrap_or_default(), b.subquery_path.clone().unwrap_or_default());
    let n = if a.subquery_path.is_some() && b.subquery_path.is_some() { l.iter().zip(&r).take_while(|(x, y)| x == y).count() } else { 0 };
    let some = |p: &[Key]| (!p.is_empty()).then(|| p.to_vec());
    q.default_subquery_branch.subquery_path = some(&l[..n]);
    if r.len() == n {
        q.default_subquery_branch.subquery = b.subquery.clone();
    }
    for (p, s) in [(&l[n..], &a.subquery), (&r[n..], &b.subquery)] {
        if let Some(k) = p.first() {
            let end = SubqueryBranch { subquery_path: some(&p[1..]), subquery: s.clone() };
            q.merge_conditional_boxed_subquery(QueryItem::Key(k.clone()), end);
        }
    }
    q
}
fn branches(c: &mut Case) -> Res {
    let s = merge_shape(&mut c.rng);
    let a = random_branch(&mut c.rng, &s, s.depth, true);
    let b = random_branch(&mut c.rng, &s, s.depth, true);
    c.note(format!("{a:?} and {b:?}"));
    let m = a.merge(&b);
    let hang = |x: &SubqueryBranch| {
        let mut q = Query::new_single_key(b"x".to_vec());
        q.default_subquery_branch = x.clone();
        q
    };
    let u = universe();
    let all = |x: &SubqueryBranch| {
        let mut o = BTreeSet::new();
        let mut u = u.clone();
        u.push(b"x".to_vec());
        visited(&hang(x), &u, &vec![], &mut o);
        o
    };
    let have = all(&m);
    for p in all(&a).union(&all(&b)) {
        c.ensure(have.contains(p), "branch-merge-loses", || format!("{p:?} is no longer asked for\n{a:?}\n{b:?}\nmerged: {m:?}"))?;
    }
    // default branches of one query
    let mut q = hang(&a);
    q.merge_default_subquery_branch(b.clone());
    let mut o = BTreeSet::new();
    let mut ux = u.clone();
    ux.push(b"x".to_vec());
    visited(&q, &ux, &vec![], &mut o);
    let lost: Vec<_> = all(&a).union(&all(&b)).filter(|p| !o.contains(*p)).cloned().collect();
    let differ = a.subquery_path != b.subquery_path;
    let sig = match differ.then(|| level_too_high(hang(&a), &b)) {
        None => "default-branch-merge-loses",
        Some(known) => {
            let mut k = BTreeSet::new();
            visited(&known, &ux, &vec![], &mut k);
            if k == o { "default-branch-paths-differ" } else { "default-branch-merge-differs" }
        }
    };
    c.ensure(lost.is_empty(), sig, || format!("{lost:?} no longer asked for\n{a:?}\n{b:?}\nmerged: {q:?}"))?;
    // a conditional branch merged into existing ones
    let base = random_query(&mut c.rng, &s, s.depth);
    let it = item(&mut c.rng, &s.keys, 2);
    let mut with = base.clone();
    with.merge_conditional_boxed_subquery(it.clone(), b.clone());
    for k in &u {
        let explicit = |q: &Query| q.conditional_subquery_branches.iter().flatten().any(|(i, _)| contains(i, k));
        let have = all(branch(&with, k));
        let was = all(branch(&base, k));
        if explicit(&base) {
            c.ensure(was.is_subset(&have), "conditional-merge-loses", || format!("below {k:?}: {base:?} with {it:?} {b:?} is {with:?}"))?;
        }
        if contains(&it, k) && leads(&b) {
            c.ensure(all(&b).is_subset(&have), "conditional-merge-ignores", || format!("below {k:?}: {base:?} with {it:?} {b:?} is {with:?}"))?;
        } else {
            c.ensure(was == have, "conditional-merge-leaks", || format!("below {k:?}: {base:?} with {it:?} {b:?} is {with:?}"))?;
        }
    }
    c.eval(fnv(format!("{a:?}{b:?}{it:?}").as_bytes()), leads(&a) && leads(&b));
    Ok(())
}
fn sums(c: &mut Case) -> Res {
    let keys = Keys::letters(5);
    let u = universe();
    let n = 2 + c.rng.usize(3);
    let qs: Vec<AggregateSumQuery> = (0..n)
        .map(|_| {
            let sum_limit = if c.rng.chance(1, 8) { u64::MAX - c.rng.below(3) } else { c.rng.below(1000) };
            let limit = c.rng.chance(2, 3).then(|| if c.rng.chance(1, 8) { u16::MAX - c.rng.below(3) as u16 } else { c.rng.below(100) as u16 });
            let mut q = AggregateSumQuery::new_single_query_item_with_direction(item(&mut c.rng, &keys, 2), c.rng.chance(9, 10), sum_limit, limit);
            for _ in 0..c.rng.below(3) {
                q.insert_item(item(&mut c.rng, &keys, 2));
            }
            q
        })
        .collect();
    c.note(format!("{qs:?}"));
    let sum = qs.iter().map(|q| q.sum_limit as u128).sum::<u128>();
    let limit = qs.iter().map(|q| q.limit_of_items_to_check.map(|x| x as u64)).sum::<Option<u64>>();
    let same = qs.iter().all(|q| q.left_to_right == qs[0].left_to_right);
    // a limit is only known at the end, its partial sums may pass the largest one before it is dropped
    let clear_limit = qs.iter().filter_map(|q| q.limit_of_items_to_check.map(|x| x as u64)).sum::<u64>() <= u16::MAX as u64;
    let ok = same && sum <= u64::MAX as u128 && limit.is_none_or(|l| l <= u16::MAX as u64);
    let many = AggregateSumQuery::merge_multiple(qs.clone());
    let mut two = qs[0].clone();
    let pair = qs[1..].iter().try_for_each(|q| two.merge_with(q.clone()));
    let path: Path = vec![c.rng.bytes(2)];
    let pq: Vec<AggregateSumPathQuery> = qs.iter().map(|q| AggregateSumPathQuery::new(path.clone(), q.clone())).collect();
    let v = version(&mut c.rng);
    let pm = AggregateSumPathQuery::merge(pq.iter().collect(), v).map(|m| m.aggregate_sum_query);
    for (name, m) in [("many", many.ok()), ("pairs", pair.ok().map(|_| two)), ("paths", pm.ok())] {
        match m {
            Some(m) => {
                c.ensure(ok, "sum-merge-accepted", || format!("{name}: {qs:?} -> {m:?}"))?;
                c.ensure((m.sum_limit as u128, m.limit_of_items_to_check.map(u64::from), m.left_to_right) == (sum, limit, qs[0].left_to_right), "sum-merge-limits", || format!("{name}: {qs:?} -> {m:?}"))?;
                for k in &u {
                    let want = qs.iter().any(|q| q.items.iter().any(|i| contains(i, k)));
                    let n = m.items.iter().filter(|i| contains(i, k)).count();
                    c.ensure(n == want as usize, "sum-merge-keys", || format!("{name}: {k:?} {n} times: {qs:?} -> {m:?}"))?;
                }
                c.count("sum-merges", 1);
            }
            None => {
                c.ensure(!(ok && clear_limit), "sum-merge-refused", || format!("{name}: {qs:?}"))?;
                c.count("sum-refusals", 1);
            }
        }
    }
    if same && n > 1 {
        let mut other = pq.clone();
        other[1].path.push(vec![1]);
        c.ensure(AggregateSumPathQuery::merge(other.iter().collect(), v).is_err(), "sum-merge-paths", || format!("{other:?}"))?;
    }
    c.eval(fnv(format!("{qs:?}").as_bytes()), true);
    Ok(())
}
pub fn q02(ctx: &Ctx) {
    ctx.rule("2 to 4 random queries (all ten item kinds over five keys, default and conditional branches, subquery paths, three levels) merged pairwise, all at once and as path queries below different paths; the set of paths visited by each input, read off independently over seven keys per level, must be visited by the result, and no further key selected at its top level; branches, conditional branches and aggregate sum queries likewise.");
    ctx.assume("what is selected is judged over keys a to e, the empty key and bb; a merge may ask for more below a key that an input selects");
    ctx.cases("merges", ctx.n(60_000, 2_000_000), merges);
    ctx.cases("branches", ctx.n(60_000, 2_000_000), branches);
    ctx.cases("sums", ctx.n(60_000, 1_000_000), sums);
    for (k, n) in [("paths-kept", 100_000), ("sum-merges", 10_000), ("sum-refusals", 1000)] {
        ctx.require(k, n);
    }
}

// ---- Q03 -----------------------------------------------------------------

fn conf() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian()
}
/// what untrusted bytes are read with: lengths no input can back are refused
fn tight() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_limit::<65536>()
}
fn any_key(rng: &mut Rng) -> Key {
    let n = match rng.below(8) {
        0 => 0,
        1 => rng.range(200, 300) as usize,
        _ => rng.range(1, 4) as usize,
    };
    rng.bytes(n)
}
fn wild_shape(rng: &mut Rng) -> Shape {
    let mut keys = Keys::letters(3);
    for _ in 0..4 {
        keys.0.push(any_key(rng));
    }
    Shape { keys, ranges: rng.below(5), finite: false, depth: rng.below(4), add_parent: true }
}
macro_rules! round_trip {
    ($c:expr, $x:expr, $t:ty) => {{
        let x: &$t = &$x;
        let b = $c.must(bincode::encode_to_vec(x, conf()), "encode")?;
        let (d, n) = $c.must(bincode::decode_from_slice::<$t, _>(&b, conf()), "decode")?;
        // the order of conditional branches matters, equality of maps does not see it
        $c.ensure(d == *x && format!("{d:?}") == format!("{x:?}"), "round-trip", || format!("{x:?} decoded as {d:?}"))?;
        $c.ensure(n == b.len(), "bytes-left", || format!("{x:?}: {n} of {} bytes", b.len()))?;
        let (d, n) = $c.must(bincode::borrow_decode_from_slice::<$t, _>(&b, conf()), "borrow-decode")?;
        $c.ensure(d == *x && format!("{d:?}") == format!("{x:?}"), "borrow-round-trip", || format!("{x:?} decoded as {d:?}"))?;
        $c.ensure(n == b.len(), "bytes-left", || format!("{x:?}: {n} of {} bytes", b.len()))?;
        // a reader that stops early sees an error
        if !b.is_empty() {
            let cut = $c.rng.usize(b.len());
            $c.ensure(bincode::decode_from_slice::<$t, _>(&b[..cut], conf()).is_err(), "truncated-accepted", || format!("{cut} of {} bytes of {x:?}", b.len()))?;
        }
        $c.count("round-trips", 1);
        b
    }};
}
fn change_query(rng: &mut Rng, q: &mut Query, s: &Shape) {
    match rng.below(10) {
        0 => q.left_to_right = !q.left_to_right,
        1 => q.add_parent_tree_on_subquery = !q.add_parent_tree_on_subquery,
        2 => q.items.push(random_item(rng, s)),
        3 if !q.items.is_empty() => {
            let i = rng.usize(q.items.len());
            q.items[i] = random_item(rng, s);
        }
        4 => q.default_subquery_branch = random_branch(rng, s, 1, true),
        5 => q.conditional_subquery_branches = if q.conditional_subquery_branches.is_some() { None } else { Some(Default::default()) },
        6 => {
            let b = random_branch(rng, s, 1, true);
            q.add_conditional_subquery(random_item(rng, s), b.subquery_path, b.subquery.map(|b| *b));
        }
        7 => {
            if let Some(m) = &mut q.conditional_subquery_branches {
                m.reverse();
            }
        }
        8 => q.items.reverse(),
        _ => match &mut q.default_subquery_branch.subquery {
            Some(s2) => change_query(rng, s2, s),
            None => q.default_subquery_branch.subquery_path = if q.default_subquery_branch.subquery_path.is_some() { None } else { Some(vec![]) },
        },
    }
}
fn encodings(c: &mut Case) -> Res {
    let s = wild_shape(&mut c.rng);
    let mut q = random_query(&mut c.rng, &s, s.depth);
    if c.rng.chance(1, 4) {
        change_query(&mut c.rng, &mut q, &s);
    }
    c.note(format!("{q:?}"));
    let b = round_trip!(c, q, Query);
    let mut other = q.clone();
    for _ in 0..c.rng.range(1, 2) {
        change_query(&mut c.rng, &mut other, &s);
    }
    if format!("{other:?}") != format!("{q:?}") {
        let b2 = c.must(bincode::encode_to_vec(&other, conf()), "encode")?;
        c.ensure(b2 != b, "shared-encoding", || format!("{q:?} and {other:?}"))?;
        c.count("pairs", 1);
    }
    round_trip!(c, q.default_subquery_branch, SubqueryBranch);
    let opt = |r: &mut Rng| r.bool().then(|| r.edge_u64() as u16);
    let sq = SizedQuery::new(q.clone(), opt(&mut c.rng), opt(&mut c.rng));
    let sb = round_trip!(c, sq, SizedQuery);
    let mut so = sq.clone();
    if c.rng.bool() { so.limit = opt(&mut c.rng) } else { so.offset = opt(&mut c.rng) }
    if so != sq {
        c.ensure(bincode::encode_to_vec(&so, conf()).ok() != Some(sb), "shared-encoding", || format!("{sq:?} and {so:?}"))?;
    }
    let path: Path = (0..c.rng.below(4)).map(|_| any_key(&mut c.rng)).collect();
    round_trip!(c, PathQuery::new(path.clone(), sq), PathQuery);
    let mut a = AggregateSumQuery::new_with_query_items(q.items.clone(), c.rng.edge_u64(), opt(&mut c.rng));
    a.left_to_right = c.rng.bool();
    round_trip!(c, a, AggregateSumQuery);
    round_trip!(c, AggregateSumPathQuery::new(path.clone(), a.clone()), AggregateSumPathQuery);
    let mut t = PathTrunkChunkQuery::new(path.clone(), c.rng.u64() as u8);
    t.min_depth = c.rng.bool().then(|| c.rng.u64() as u8);
    round_trip!(c, t, PathTrunkChunkQuery);
    round_trip!(c, PathBranchChunkQuery::new(path, any_key(&mut c.rng), c.rng.u64() as u8), PathBranchChunkQuery);
    // the serde forms
    let mut cb = vec![];
    c.must(ciborium::into_writer(&q, &mut cb), "serde-encode")?;
    let d: Query = c.must(ciborium::from_reader(&cb[..]), "serde-decode")?;
    c.ensure(d == q && format!("{d:?}") == format!("{q:?}"), "serde-round-trip", || format!("{q:?} decoded as {d:?}"))?;
    let js = c.must(serde_json::to_string(&q.items), "json-encode")?;
    let d: Vec<QueryItem> = c.must(serde_json::from_str(&js), "json-decode")?;
    c.ensure(d == q.items, "json-round-trip", || format!("{:?} decoded as {d:?}", q.items))?;
    let js = c.must(serde_json::to_string(&a), "json-encode")?;
    let d: AggregateSumQuery = c.must(serde_json::from_str(&js), "json-decode")?;
    c.ensure(d == a, "json-round-trip", || format!("{a:?} decoded as {d:?}"))?;
    // damaged bytes read as what they spell, or not at all
    let mut m = b.clone();
    for _ in 0..c.rng.range(1, 3) {
        let i = c.rng.usize(m.len());
        match c.rng.below(3) {
            0 => m[i] ^= 1 << c.rng.below(8),
            1 => m[i] = c.rng.u64() as u8,
            _ => m.insert(i, c.rng.u64() as u8),
        }
    }
    if let Ok((d, n)) = bincode::decode_from_slice::<Query, _>(&m, tight()) {
        let again = round_trip!(c, d, Query);
        // the two flags that introduce an optional part are read leniently, so are lengths in long form
        c.ensure(again.len() <= n, "longer-than-read", || format!("{} -> {d:?} -> {}", hex(&m), hex(&again)))?;
        c.same(&bincode::borrow_decode_from_slice::<Query, _>(&m, tight()).ok().map(|x| x.1), &Some(n), "decoders-differ")?;
        c.count("mutants-read", 1);
    } else {
        c.ensure(bincode::borrow_decode_from_slice::<Query, _>(&m, tight()).is_err(), "decoders-differ", || hex(&m))?;
    }
    c.eval(fnv(&b), q.items.len() > 1 || leads(&q.default_subquery_branch) || q.conditional_subquery_branches.is_some());
    if c.wants_sample() {
        c.sample(format!("{} bytes: {q}", b.len()));
    }
    Ok(())
}
fn nesting(c: &mut Case) -> Res {
    let depth = if c.idx < 80 { c.idx } else { 55 + c.rng.below(20) };
    let mut q = Query::new_single_key(vec![b'z']);
    for _ in 0..depth {
        let mut o = Query::new_with_direction(c.rng.bool());
        o.insert_key(vec![c.rng.u64() as u8]);
        let p = c.rng.chance(1, 4).then(|| vec![vec![1], vec![]]);
        if c.rng.bool() {
            o.default_subquery_branch = SubqueryBranch { subquery_path: p, subquery: Some(Box::new(q)) };
        } else {
            o.add_conditional_subquery(QueryItem::RangeFull(..), p, Some(q));
        }
        q = o;
    }
    c.note(format!("depth {depth}"));
    let ok = depth <= 64;
    let pq = PathQuery::new_unsized(vec![], q.clone());
    let pb = c.must(bincode::encode_to_vec(&pq, conf()), "encode")?;
    if ok {
        round_trip!(c, q, Query);
        round_trip!(c, pq, PathQuery);
    } else {
        let b = c.must(bincode::encode_to_vec(&q, conf()), "encode")?;
        c.ensure(bincode::decode_from_slice::<Query, _>(&b, conf()).is_err(), "deep-accepted", || format!("depth {depth}"))?;
        c.ensure(bincode::borrow_decode_from_slice::<Query, _>(&b, conf()).is_err(), "deep-accepted", || format!("depth {depth}"))?;
        c.ensure(bincode::decode_from_slice::<PathQuery, _>(&pb, conf()).is_err(), "deep-accepted", || format!("depth {depth}"))?;
        c.count("too-deep", 1);
    }
    // a branch is one level of its own
    let b = SubqueryBranch { subquery_path: None, subquery: Some(Box::new(q)) };
    let bb = c.must(bincode::encode_to_vec(&b, conf()), "encode")?;
    if depth < 64 {
        round_trip!(c, b, SubqueryBranch);
    } else {
        c.ensure(bincode::decode_from_slice::<SubqueryBranch, _>(&bb, conf()).is_err(), "deep-accepted", || format!("branch over depth {depth}"))?;
    }
    c.eval(depth, true);
    Ok(())
}
fn wide(c: &mut Case) -> Res {
    let n = match c.idx % 6 {
        0 => 65_536,
        1 => 65_537,
        2 => 1024,
        3 => 1025,
        4 => 1 + c.rng.usize(1024),
        _ => 1 + c.rng.usize(2000),
    };
    let mut q = Query::new();
    let items = c.idx % 6 < 2;
    if items {
        q.items = (0..n as u32).map(|i| QueryItem::Key(i.to_be_bytes().to_vec())).collect();
    } else {
        for i in 0..n as u32 {
            q.add_conditional_subquery(QueryItem::Key(i.to_be_bytes().to_vec()), None, None);
        }
    }
    c.note(format!("{n} {}", if items { "items" } else { "conditional branches" }));
    let ok = n <= if items { 65_536 } else { 1024 };
    let b = c.must(bincode::encode_to_vec(&q, conf()), "encode")?;
    if ok {
        let (d, k) = c.must(bincode::decode_from_slice::<Query, _>(&b, conf()), "decode-wide")?;
        c.ensure(d == q && k == b.len(), "round-trip", || format!("{n} entries"))?;
        let (d, k) = c.must(bincode::borrow_decode_from_slice::<Query, _>(&b, conf()), "decode-wide")?;
        c.ensure(d == q && k == b.len(), "round-trip", || format!("{n} entries"))?;
    } else {
        c.ensure(bincode::decode_from_slice::<Query, _>(&b, conf()).is_err(), "wide-accepted", || format!("{n}"))?;
        c.ensure(bincode::borrow_decode_from_slice::<Query, _>(&b, conf()).is_err(), "wide-accepted", || format!("{n}"))?;
        c.count("too-wide", 1);
    }
    c.eval(n as u64 * 2 + items as u64, true);
    Ok(())
}
pub fn q03(ctx: &Ctx) {
    ctx.rule("random queries, branches, sized, path, chunk and aggregate sum queries with keys of 0 to 300 bytes encoded and decoded by both bincode decoders and by serde (CBOR, JSON), all bytes consumed, order of conditional branches kept; small changes must change the encoding; nesting 0 to 80 and widths around the documented limits; mutated and truncated bytes.");
    ctx.cases("encodings", ctx.n(40_000, 1_500_000), encodings);
    ctx.cases("nesting", ctx.n(600, 10_000), nesting);
    ctx.cases("wide", ctx.n(48, 300), wide);
    for (k, n) in [("round-trips", 100_000), ("pairs", 10_000), ("too-deep", 20), ("too-wide", 10), ("mutants-read", 1000)] {
        ctx.require(k, n);
    }
}

// ---- Q04 -----------------------------------------------------------------

enum View<'a> {
    /// the query applies at this path
    Query(&'a Query),
    /// the path leads on to this key, which has something below it or not
    On(&'a Key, bool),
    /// a path that ends here
    End,
}
/// every path a query leads to, over `u`, with what applies there; first match only
fn layers<'a>(q: &'a Query, u: &[Key], at: Path, out: &mut BTreeMap<Path, View<'a>>) {
    for k in u.iter().filter(|k| selects(q, k)) {
        let mut p = at.clone();
        p.push(k.clone());
        let b = branch(q, k);
        let segs = b.subquery_path.as_deref().unwrap_or(&[]);
        for (i, s) in segs.iter().enumerate() {
            out.insert(p.clone(), View::On(s, i + 1 < segs.len() || b.subquery.is_some()));
            p.push(s.clone());
        }
        match &b.subquery {
            Some(s) => {
                out.insert(p.clone(), View::Query(s));
                layers(s, u, p, out);
            }
            None => {
                out.insert(p, View::End);
            }
        }
    }
    out.insert(at, View::Query(q));
}
fn depth_of(q: &Query) -> u64 {
    let of = |b: &SubqueryBranch| b.subquery_path.as_ref().map_or(0, |p| p.len() as u64) + b.subquery.as_ref().map_or(0, |s| depth_of(s));
    1 + q.conditional_subquery_branches.iter().flatten().map(|(_, b)| of(b)).max().unwrap_or(0).max(of(&q.default_subquery_branch))
}
fn views(c: &mut Case) -> Res {
    let s = Shape { keys: Keys::letters(4), ranges: c.rng.below(4), finite: false, depth: c.rng.below(4), add_parent: true };
    let q = random_query(&mut c.rng, &s, s.depth);
    let root: Path = (0..c.rng.below(3)).map(|i| vec![b'r', i as u8]).collect();
    let pq = PathQuery::new_unsized(root.clone(), q.clone());
    c.note(format!("{pq:?}"));
    let v = version(&mut c.rng);
    let u: Vec<Key> = [Keys::letters(4).0, vec![b"".to_vec(), b"bb".to_vec()]].concat();
    let mut all = BTreeMap::new();
    layers(&q, &u, root.clone(), &mut all);
    for i in 0..root.len() {
        all.insert(root[..i].to_vec(), View::On(&root[i], true));
    }
    for (p, view) in &all {
        let ps: Vec<&[u8]> = p.iter().map(|s| &s[..]).collect();
        let got = c.must(pq.query_items_at_path(&ps, v), "view")?;
        let parent = c.must(pq.should_add_parent_tree_at_path(&ps, v), "parent-flag")?;
        let show = || format!("at {p:?} of {pq:?}: {got:?}");
        c.count("views", 1);
        match view {
            View::End => {
                c.ensure(got.is_none(), "view-beyond-end", show)?;
                c.ensure(!parent, "parent-flag", show)?;
            }
            View::On(k, more) => {
                let Some(g) = &got else { return c.fail("view-missing", show()) };
                c.ensure(*g.items == vec![QueryItem::Key(k.to_vec())], "view-items", show)?;
                c.ensure(g.has_subquery_or_matching_in_path_on_key(k) == *more, "view-subquery", show)?;
                c.ensure(!parent, "parent-flag", show)?;
            }
            View::Query(q) => {
                let Some(g) = &got else { return c.fail("view-missing", show()) };
                c.ensure(*g.items == q.items && g.left_to_right == q.left_to_right, "view-items", show)?;
                c.ensure(parent == q.add_parent_tree_on_subquery, "parent-flag", show)?;
                for k in &u {
                    let explicit = q.conditional_subquery_branches.iter().flatten().any(|(i, _)| contains(i, k));
                    let b = branch(q, k);
                    // a conditional branch that leads nowhere still counts as one
                    if leads(b) || !explicit {
                        c.ensure(g.has_subquery_or_matching_in_path_on_key(k) == leads(b), "view-subquery", || format!("key {k:?} at {p:?} of {pq:?}: {got:?}"))?;
                    }
                }
            }
        }
    }
    // paths that leave the query's own path
    for _ in 0..3 {
        let mut p = root.clone();
        if p.is_empty() {
            break;
        }
        let i = c.rng.usize(p.len());
        p[i].push(c.rng.u64() as u8);
        for _ in 0..c.rng.below(3) {
            p.push(s.keys.any(&mut c.rng));
        }
        p.truncate(i + 1 + c.rng.usize(4));
        let ps: Vec<&[u8]> = p.iter().map(|s| &s[..]).collect();
        c.ensure(pq.query_items_at_path(&ps, v).is_ok_and(|x| x.is_none()), "view-elsewhere", || format!("{p:?} of {pq:?}"))?;
        c.ensure(pq.should_add_parent_tree_at_path(&ps, v).is_ok_and(|x| !x), "parent-flag", || format!("{p:?} of {pq:?}"))?;
    }
    // measures
    c.same(&q.max_depth().map(u64::from), &Some(depth_of(&q)), "max-depth")?;
    c.same(&pq.max_depth().map(u64::from), &Some(depth_of(&q)), "max-depth")?;
    let d = &q.default_subquery_branch;
    let has = d.subquery.is_some() || d.subquery_path.is_some() || q.conditional_subquery_branches.is_some();
    c.same(&q.has_subquery(), &has, "has-subquery")?;
    c.same(&q.has_only_keys(), &q.items.iter().all(|i| matches!(i, QueryItem::Key(_))), "has-only-keys")?;
    c.same(&(q.len(), q.is_empty()), &(q.items.len(), q.items.is_empty()), "len")?;
    let fwd: Vec<&QueryItem> = q.directional_iter(true).collect();
    let bwd: Vec<&QueryItem> = q.directional_iter(false).collect();
    c.ensure(fwd.iter().rev().eq(bwd.iter()) && fwd == q.iter().collect::<Vec<_>>() && bwd == q.rev_iter().collect::<Vec<_>>(), "directional", || format!("{q:?}"))?;
    c.eval(fnv(format!("{pq:?}").as_bytes()), all.len() > 3);
    Ok(())
}
const MANY: usize = 3000;
/// the pairs a finite query can return (enough of them to tell there are too many); `None` if it is not finite
fn terminals(q: &Query, at: &Path, out: &mut Vec<(Path, Key)>) {
    if out.len() > MANY {
        return;
    }
    // keys of more than one byte are those that are named
    let named = q.items.iter().chain(q.conditional_subquery_branches.iter().flatten().map(|(i, _)| i));
    let longer: BTreeSet<Key> = named.filter_map(|i| if let QueryItem::Key(k) = i { Some(k.clone()) } else { None }).filter(|k| k.len() > 1).collect();
    let u: Vec<Key> = std::iter::once(vec![]).chain((0..=255u8).map(|b| vec![b])).chain(longer).collect();
    for k in u.iter().filter(|k| selects(q, k)) {
        let b = branch(q, k);
        let mut p = at.clone();
        let mut last = k.clone();
        for s in b.subquery_path.iter().flatten() {
            p.push(last);
            last = s.clone();
        }
        match &b.subquery {
            Some(s) => {
                p.push(last);
                terminals(s, &p, out);
            }
            None => out.push((p, last)),
        }
    }
}
fn enumerable(i: &QueryItem) -> bool {
    match i {
        QueryItem::Key(_) => true,
        QueryItem::Range(r) => r.start.len() <= 1 && r.end.len() == 1,
        QueryItem::RangeInclusive(r) => r.start().len() <= 1 && r.end().len() == 1,
        _ => false,
    }
}
/// whether the query is one whose key set can be listed: keys and ranges of one byte throughout
fn listable(q: &Query) -> bool {
    q.items.iter().all(enumerable)
        && q.conditional_subquery_branches.iter().flatten().all(|(i, b)| enumerable(i) && b.subquery.iter().all(|s| listable(s)))
        && q.default_subquery_branch.subquery.iter().all(|s| listable(s))
}
/// whether a selected key leads to an item whose keys cannot be listed
fn endless(q: &Query, u: &[Key]) -> bool {
    q.items.iter().any(|i| matches!(i, QueryItem::RangeFull(_) | QueryItem::RangeFrom(_) | QueryItem::RangeAfter(_) | QueryItem::RangeTo(_) | QueryItem::RangeToInclusive(_)))
        || u.iter().filter(|k| selects(q, k)).any(|k| branch(q, k).subquery.iter().any(|s| endless(s, u)))
}
fn terminal(c: &mut Case) -> Res {
    let s = Shape { keys: Keys::letters(4), ranges: 1, finite: c.rng.chance(4, 5), depth: c.rng.below(4), add_parent: false };
    let mut s2 = s.clone();
    if c.rng.chance(1, 4) {
        s2.keys.0.push(b"bb".to_vec());
        // a longer key may lie in a conditional range that does not list it
        if c.rng.bool() {
            s2.ranges = 0;
            s2.keys.0.push(b"".to_vec());
        }
    }
    let q = random_query(&mut c.rng, &s2, s2.depth);
    let root: Path = (0..c.rng.below(3)).map(|i| vec![b'r', i as u8]).collect();
    let pq = PathQuery::new_unsized(root.clone(), q.clone());
    c.note(format!("{pq:?}"));
    let v = version(&mut c.rng);
    let mut want = vec![];
    terminals(&q, &root, &mut want);
    if want.len() > MANY {
        c.ensure(pq.terminal_keys(MANY, v).is_err(), "terminal-maximum", || format!("max {MANY}: {pq:?}"))?;
        c.count("very-many", 1);
        return Ok(());
    }
    let set: BTreeSet<_> = want.iter().cloned().collect();
    let n = want.len();
    for max in [n, n + 1 + c.rng.usize(5), 2 * MANY] {
        match pq.terminal_keys(max, v) {
            Ok(got) => {
                c.ensure(!endless(&q, &s2.keys.0), "endless-listed", || format!("{pq:?}: {got:?}"))?;
                let g: BTreeSet<_> = got.iter().cloned().collect();
                let missing: Vec<_> = set.difference(&g).collect();
                let extra: Vec<_> = g.difference(&set).collect();
                c.ensure(missing.is_empty(), "terminal-missing", || format!("{pq:?}: {got:?} lacks {missing:?}"))?;
                c.ensure(extra.is_empty(), "terminal-extra", || format!("{pq:?}: {got:?} has {extra:?}"))?;
                c.ensure(got.len() == n, "terminal-twice", || format!("{pq:?}: {got:?}"))?;
                c.count("listed", 1);
            }
            Err(e) => {
                c.ensure(!listable(&q), "terminal-refused", || format!("max {max} for {n}: {e}: {pq:?}"))?;
                c.count("not-listable", 1);
            }
        }
    }
    if n > 0 {
        let max = c.rng.usize(n);
        c.ensure(pq.terminal_keys(max, v).is_err(), "terminal-maximum", || format!("max {max} for {n}: {pq:?}"))?;
        c.count("over-maximum", 1);
    }
    c.eval(fnv(format!("{pq:?}").as_bytes()), n > 1);
    if c.wants_sample() {
        c.sample(format!("{n} terminal keys of {pq}"));
    }
    Ok(())
}
fn deep(c: &mut Case) -> Res {
    // recursion limits: 255 levels for the depth, 64 for terminal keys
    let depth = if c.idx < 8 { [62, 63, 64, 65, 254, 255, 256, 257][c.idx as usize] } else { 1 + c.rng.below(300) };
    let mut q = Query::new_single_key(vec![b'z']);
    let mut total = 1u64;
    for _ in 1..depth {
        let mut o = Query::new_single_key(vec![b'y']);
        let p = c.rng.chance(1, 8).then(|| vec![vec![1]; c.rng.range(1, 3) as usize]);
        total += 1 + p.as_ref().map_or(0, |p| p.len() as u64);
        o.default_subquery_branch = SubqueryBranch { subquery_path: p, subquery: Some(Box::new(q)) };
        q = o;
    }
    c.note(format!("depth {depth}"));
    let got = q.max_depth();
    c.ensure(got.is_none_or(|d| d as u64 == total), "max-depth", || format!("{got:?} want {total} at depth {depth}"))?;
    c.ensure(got.is_some() || depth > 250, "max-depth-refused", || format!("depth {depth}"))?;
    let t = PathQuery::new_unsized(vec![], q).terminal_keys(10, GroveVersion::latest());
    c.ensure(if depth <= 64 { t.is_ok_and(|x| x.len() == 1) } else { true }, "terminal-depth", || format!("depth {depth}"))?;
    c.eval(depth, true);
    Ok(())
}
pub fn q04(ctx: &Ctx) {
    ctx.rule("random path queries (all item kinds, default and overlapping conditional branches, subquery paths, up to four levels): at every path they lead to over six keys the per-path view gives the items, direction, following subquery and parent flag of the query that applies there, nothing beyond its ends or beside its path; terminal keys equal an independent enumeration, at, above and below the exact maximum; depth, size and predicates recomputed.");
    ctx.assume("which keys a range of more than one byte denotes is not enumerated by design (refused); a conditional branch that leads nowhere may be reported as a subquery");
    ctx.cases("views", ctx.n(60_000, 2_000_000), views);
    ctx.cases("terminal", ctx.n(60_000, 2_000_000), terminal);
    ctx.cases("deep", ctx.n(400, 3000), deep);
    for (k, n) in [("views", 100_000), ("listed", 10_000), ("not-listable", 1000), ("over-maximum", 10_000)] {
        ctx.require(k, n);
    }
}
