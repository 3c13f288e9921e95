//! D01 and D02: dense trees.
use crate::{memctx::Mem, models::*};
use grovedb_dense_fixed_sized_merkle_tree::*;
use grovedb_query::{Query, QueryItem};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

pub fn value(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 32,
        2 => 96,
        3 => 200,
        _ => rng.usize(10),
    };
    rng.bytes(n)
}
fn height(rng: &mut Rng) -> u8 {
    match rng.below(12) {
        0 => 5,
        1 => 6,
        _ => rng.range(1, 4) as u8,
    }
}

type Tree = DenseFixedSizedMerkleTree<Mem>;

fn agrees(c: &mut Case, t: &Tree, want: &[Vec<u8>], log: &[String], all: bool) -> Res {
    let n = want.len();
    c.same(&(t.count() as usize, t.capacity(), t.height()), &(n, ((1u32 << t.height()) - 1) as u16, t.height()), "count")?;
    let r = c.must(t.root_hash().value, "root")?;
    c.ensure(r == dense_root(want), "root", || format!("{log:?}: {} want {}", hex(&r), hex(&dense_root(want))))?;
    let look: Vec<u16> = if all { (0..n as u16 + 3).collect() } else { (0..4).map(|_| c.rng.below(n as u64 + 3) as u16).collect() };
    for p in look.into_iter().chain([u16::MAX]) {
        let got = c.must(t.get(p).value, "get")?;
        let w = want.get(p as usize).cloned();
        c.ensure(got == w, "value", || format!("{log:?}: position {p}: {got:?} want {w:?}"))?;
        c.count("reads", 1);
    }
    Ok(())
}

/// many values as rows of a store
fn rows(c: &mut Case, h: u8, mem: &Mem) -> Vec<Vec<u8>> {
    let cap = (1u64 << h) - 1;
    let n = match c.rng.below(4) {
        0 => cap - c.rng.below(3),
        1 => (1 << c.rng.range(h as u64 / 2, h as u64 - 1)) - c.rng.below(3),
        _ => c.rng.range(1, cap),
    };
    let values: Vec<Vec<u8>> = (0..n as u32).map(|i| i.to_be_bytes()[2..].to_vec()).collect();
    for (i, v) in values.iter().enumerate() {
        mem.0.rows.borrow_mut().insert((i as u16).to_be_bytes().to_vec(), v.clone());
    }
    values
}

fn history(c: &mut Case) -> Res {
    let deep = c.rng.chance(1, 300);
    let h = if deep { c.rng.range(7, 11) as u8 } else { height(&mut c.rng) };
    let cap = (1usize << h) - 1;
    let deferred = c.rng.chance(1, 3);
    let mem = Mem::new(deferred);
    let mut done: Vec<Vec<u8>> = if deep { rows(c, h, &mem) } else { vec![] };
    let mut now = done.clone();
    let mut log: Vec<String> = vec![format!("height {h} deferred {deferred} from {}", now.len())];
    let mut t = if deep { c.must(Tree::from_state(h, now.len() as u16, mem.clone()), "open")? } else { c.must(Tree::new(h, mem.clone()), "new")? };
    for _ in 0..c.rng.range(1, 24) {
        c.note(log.join(" "));
        match c.rng.below(10) {
            0..=4 => {
                for _ in 0..c.rng.range(1, 4) {
                    let v = value(&mut c.rng);
                    let before = mem.0.writes.get();
                    let got = if c.rng.bool() {
                        match t.insert(&v).value {
                            Ok(x) => Some(x),
                            Err(DenseMerkleError::TreeFull { capacity, count }) => {
                                c.same(&(capacity as usize, count as usize), &(cap, cap), "full-says")?;
                                None
                            }
                            Err(e) => return c.fail("insert", format!("{log:?}: {e:?}")),
                        }
                    } else {
                        c.must(t.try_insert(&v).value, "insert")?
                    };
                    if now.len() == cap {
                        c.ensure(got.is_none(), "full-accepted", || format!("{log:?}"))?;
                        c.same(&mem.0.writes.get(), &before, "full-written")?;
                        c.count("full", 1);
                    } else {
                        let at = now.len() as u16;
                        now.push(v);
                        c.ensure(got == Some((dense_root(&now), at)), "insert-result", || format!("{log:?}: {got:?}"))?;
                        c.count("inserts", 1);
                    }
                }
                log.push(format!("={}", now.len()));
            }
            5 => {
                // keep the session's work
                mem.flush();
                done = now.clone();
                let n = done.len() as u16;
                t = c.must(Tree::from_state(h, n, mem.clone()), "open")?;
                log.push("reopen".into());
                c.count("reopenings", 1);
            }
            6 if deferred => {
                mem.drop_pending();
                now = done.clone();
                t = c.must(Tree::from_state(h, now.len() as u16, mem.clone()), "open")?;
                log.push("abandon".into());
            }
            7 | 8 => {
                // a fault while inserting
                let v = value(&mut c.rng);
                if c.rng.bool() {
                    mem.arm(-1, 0);
                } else {
                    mem.arm(c.rng.below(4) as i64, -1);
                }
                let f = mem.0.failed.get();
                let r = if c.rng.bool() { t.insert(&v).value.map(Some) } else { t.try_insert(&v).value };
                mem.disarm();
                let failed = mem.0.failed.get() > f;
                if failed {
                    c.ensure(r.is_err(), "fault-hidden", || format!("{log:?}: {r:?}"))?;
                    c.count("faults", 1);
                } else if now.len() < cap {
                    let at = now.len() as u16;
                    now.push(v);
                    c.ensure(matches!(&r, Ok(Some(x)) if *x == (dense_root(&now), at)), "insert-result", || format!("{log:?}: {r:?}"))?;
                } else {
                    c.ensure(matches!(r, Ok(None) | Err(DenseMerkleError::TreeFull { .. })), "full-accepted", || format!("{log:?}: {r:?}"))?;
                }
                log.push(format!("fault({failed})"));
            }
            _ => {
                // faults while reading
                mem.arm(0, -1);
                let f = mem.0.failed.get();
                let r = t.root_hash().value;
                let p = c.rng.below(cap as u64 + 1) as u16;
                let g = t.get(p).value;
                mem.disarm();
                if let Ok(r) = r {
                    c.same(&hex(&r), &hex(&dense_root(&now)), "root-under-fault")?;
                }
                if let Ok(g) = g {
                    c.same(&g, &now.get(p as usize).cloned(), "value-under-fault")?;
                }
                if mem.0.failed.get() > f {
                    c.count("read-faults", 1);
                }
                log.push("read-fault".into());
            }
        }
        let all = c.rng.chance(1, 4);
        agrees(c, &t, &now, &log, all)?;
        c.count("states", 1);
    }
    // clearing for the next cycle
    if c.rng.chance(1, 3) {
        t.reset();
        agrees(c, &t, &[], &log, true)?;
        let v = value(&mut c.rng);
        let got = c.must(t.try_insert(&v).value, "insert")?;
        c.same(&got, &Some((dense_root(&[v.clone()]), 0)), "insert-after-reset")?;
        agrees(c, &t, &[v], &log, true)?;
        c.count("resets", 1);
    }
    c.eval(fnv(log.join(" ").as_bytes()) ^ fnv(&dense_root(&now)), now.len() > 1);
    if c.wants_sample() {
        c.sample(format!("{} -> root {}", log.join(" "), hex(&dense_root(&now))));
    }
    Ok(())
}

fn limits(c: &mut Case) -> Res {
    let h = c.rng.below(20) as u8;
    let h = if c.rng.chance(1, 20) { c.rng.u64() as u8 } else { h };
    let mem = Mem::new(false);
    let ok = (1..=16).contains(&h);
    c.same(&Tree::new(h, mem.clone()).is_ok(), &ok, "height-limit")?;
    c.same(&Tree::from_state(h, 0, mem.clone()).is_ok(), &ok, "height-limit")?;
    if ok {
        let cap = ((1u32 << h) - 1) as u16;
        let n = match c.rng.below(4) {
            0 => cap,
            1 => cap.saturating_add(1),
            _ => c.rng.u64() as u16,
        };
        let t = Tree::from_state(h, n, mem.clone());
        c.same(&t.is_ok(), &(n <= cap), "count-limit")?;
        if let Ok(t) = t {
            // the rows are missing: nothing is made up
            c.same(&(t.count(), t.capacity()), &(n, cap), "count")?;
            if n > 0 {
                let p = c.rng.below(n as u64) as u16;
                c.ensure(t.get(p).value.is_err(), "missing-row-read", || format!("position {p}"))?;
                c.ensure(t.root_hash().value.is_err(), "missing-row-root", || format!("count {n}"))?;
            }
            c.same(&t.get(n).value.ok(), &Some(None), "beyond-count")?;
        }
    }
    let p = c.rng.u64() as u16;
    c.same(&position_key(p), &p.to_be_bytes(), "position-key")?;
    c.eval(h as u64 ^ (p as u64) << 8, ok);
    c.count("limits", 1);
    Ok(())
}

/// the largest tree, once
fn largest(c: &mut Case) -> Res {
    let h = if c.idx == 0 { 16 } else { 11 };
    let cap = (1usize << h) - 1;
    let mem = Mem::new(false);
    let values: Vec<Vec<u8>> = (0..cap as u32).map(|i| i.to_be_bytes()[2..].to_vec()).collect();
    for (i, v) in values.iter().enumerate() {
        mem.0.rows.borrow_mut().insert((i as u16).to_be_bytes().to_vec(), v.clone());
    }
    mem.0.rows.borrow_mut().remove(&((cap - 1) as u16).to_be_bytes().to_vec());
    let mut t = c.must(Tree::from_state(h, (cap - 1) as u16, mem.clone()), "open")?;
    let got = c.must(t.try_insert(&values[cap - 1]).value, "insert")?;
    c.same(&got, &Some((dense_root(&values), (cap - 1) as u16)), "largest-insert")?;
    c.same(&t.try_insert(b"more").value.ok(), &Some(None), "full-accepted")?;
    let p = c.must(DenseTreeProof::generate(&t, &[0, (cap / 2) as u16, (cap - 1) as u16]).value, "prove")?;
    let got: Vec<(u16, Vec<u8>)> = c.must(p.verify_against_expected_root(&dense_root(&values), h, cap as u16), "verify")?;
    let want: Vec<(u16, Vec<u8>)> = [0, cap / 2, cap - 1].iter().map(|i| (*i as u16, values[*i].clone())).collect();
    c.same(&got, &want, "largest-proof")?;
    c.eval(h as u64, true);
    Ok(())
}

pub fn d01(ctx: &Ctx) {
    ctx.rule("random histories of insertions (both forms), reopening, abandoned sessions, read and write faults and resets on trees of height 1 to 6 (and a full one of height 16), over immediate and deferred storage; count, every value and the root compared with an independent dense tree after each step.");
    ctx.cases("history", ctx.n(60_000, 2_500_000), history);
    ctx.cases("limits", ctx.n(10_000, 200_000), limits);
    ctx.cases("largest", 3, largest);
    for (k, n) in [("inserts", 10_000), ("full", 1000), ("faults", 1000), ("read-faults", 1000), ("reopenings", 1000), ("resets", 1000), ("reads", 10_000)] {
        ctx.require(k, n);
    }
}

// ---- D02 -----------------------------------------------------------------

/// a position written in one or two bytes
fn pos_bytes(rng: &mut Rng, p: u64) -> Vec<u8> {
    if p < 256 && rng.bool() { vec![p as u8] } else { (p as u16).to_be_bytes().to_vec() }
}
/// random items over positions (written as `enc` does) with the set of positions they denote, below `count`
pub fn items(rng: &mut Rng, count: u64, max: u64, enc: &mut dyn FnMut(&mut Rng, u64) -> Vec<u8>) -> (Vec<QueryItem>, BTreeSet<u64>) {
    let mut out = vec![];
    let mut set = BTreeSet::new();
    let k = if rng.chance(1, 30) { 0 } else { rng.range(1, 3) };
    for _ in 0..k {
        let p = |rng: &mut Rng| match rng.below(10) {
            0 => max,
            1 => 0,
            2 => count.min(max),
            3 => count.saturating_sub(1),
            _ => rng.below(count + 3).min(max),
        };
        let (mut a, mut b) = (p(rng), p(rng));
        if a > b && rng.chance(9, 10) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ea, eb) = (enc(rng, a), enc(rng, b));
        // first and one past the last, in wide arithmetic
        let (a, b, n) = (a as u128, b as u128, count as u128);
        let (it, lo, hi) = match rng.below(10) {
            0 | 1 => (QueryItem::Key(ea), a, a + 1),
            2 => (QueryItem::Range(ea..eb), a, b),
            3 => (QueryItem::RangeInclusive(ea..=eb), a, b + 1),
            4 => (QueryItem::RangeFull(..), 0, n),
            5 => (QueryItem::RangeFrom(ea..), a, n),
            6 => (QueryItem::RangeTo(..eb), 0, b),
            7 => (QueryItem::RangeToInclusive(..=eb), 0, b + 1),
            8 => (QueryItem::RangeAfter(ea..), a + 1, n),
            _ if rng.bool() => (QueryItem::RangeAfterTo(ea..eb), a + 1, b),
            _ => (QueryItem::RangeAfterToInclusive(ea..=eb), a + 1, b + 1),
        };
        let mut i = lo;
        while i < hi.min(n) {
            set.insert(i as u64);
            i += 1;
        }
        out.push(it);
    }
    (out, set)
}
/// the items as given, without the query's own normalisation
pub fn query_of(items: Vec<QueryItem>) -> Query {
    let mut q = Query::new();
    q.items = items;
    q
}

struct World {
    h: u8,
    values: Vec<Vec<u8>>,
    tree: Tree,
    root: H,
}
fn world(c: &mut Case, empty: bool) -> Res<World> {
    let h = height(&mut c.rng);
    let cap = (1u64 << h) - 1;
    let n = match c.rng.below(4) {
        0 => cap,
        1 if empty => 0,
        _ => c.rng.range(1, cap),
    };
    let distinct = c.rng.chance(3, 4);
    let mem = Mem::new(false);
    let mut tree = c.must(Tree::new(h, mem), "new")?;
    let mut values = vec![];
    for i in 0..n {
        let v = if distinct { vec![b'v', i as u8] } else { value(&mut c.rng) };
        c.must(tree.insert(&v).value, "insert")?;
        values.push(v);
    }
    let root = dense_root(&values);
    Ok(World { h, values, tree, root })
}
fn want(w: &World, set: impl IntoIterator<Item = u64>) -> Vec<(u16, Vec<u8>)> {
    set.into_iter().map(|i| (i as u16, w.values[i as usize].clone())).collect()
}

fn honest(c: &mut Case) -> Res {
    let w = world(c, true)?;
    let n = w.values.len() as u64;
    let (its, set) = items(&mut c.rng, n, u16::MAX as u64, &mut |r, p| pos_bytes(r, p));
    let q = query_of(its);
    c.note(format!("height {} count {n} {q:?}", w.h));
    let truth = want(&w, set.iter().copied());
    let p = c.must(DenseTreeProof::generate_for_query(&w.tree, &q).value, "prove-query")?;
    let (root, got): (H, Vec<(u16, Vec<u8>)>) = c.must(p.verify_for_query(&q, w.h, n as u16), "verify-query")?;
    c.same(&hex(&root), &hex(&w.root), "proof-root")?;
    c.same(&got, &truth, "query-result")?;
    let got: BTreeMap<u16, Vec<u8>> = c.must(p.verify_against_expected_root(&w.root, w.h, n as u16), "verify")?;
    c.same(&got, &truth.iter().cloned().collect(), "query-result")?;
    let b = c.must(p.encode_to_vec(), "encode")?;
    let p2 = c.must(DenseTreeProof::decode_from_slice(&b), "decode")?;
    c.same(&format!("{p2:?}"), &format!("{p:?}"), "proof-round-trip")?;
    let other = c.rng.arr32();
    c.ensure(p.verify_against_expected_root::<Vec<_>>(&other, w.h, n as u16).is_err(), "wrong-root-accepted", || hex(&other))?;
    // the same proof for another question
    let (its2, set2) = items(&mut c.rng, n, u16::MAX as u64, &mut |r, p| pos_bytes(r, p));
    if set2 != set {
        let q2 = query_of(its2);
        c.ensure(p.verify_for_query::<Vec<_>>(&q2, w.h, n as u16).is_err(), "other-query-accepted", || format!("proof for {q:?} passes {q2:?}"))?;
        c.count("other-queries", 1);
    }
    // explicit positions
    if n > 0 {
        let mut ps: Vec<u16> = (0..c.rng.range(1, 5)).map(|_| c.rng.below(n) as u16).collect();
        let p = c.must(DenseTreeProof::generate(&w.tree, &ps).value, "prove")?;
        let got: Vec<(u16, Vec<u8>)> = c.must(p.verify_against_expected_root(&w.root, w.h, n as u16), "verify")?;
        let t = want(&w, ps.iter().map(|x| *x as u64).collect::<BTreeSet<_>>());
        c.same(&got, &t, "positions-result")?;
        ps.push(n as u16 + c.rng.below(3) as u16);
        c.ensure(DenseTreeProof::generate(&w.tree, &ps).value.is_err(), "beyond-count-proved", || format!("{ps:?} of {n}"))?;
    }
    if set.is_empty() {
        c.count("empty-answers", 1);
    }
    c.count("proofs", 1);
    c.eval(fnv(format!("{} {n} {q:?}", w.h).as_bytes()), !set.is_empty());
    if c.wants_sample() && n < 6 {
        c.sample(format!("height {} count {n} {:?} -> {:?}, {} bytes", w.h, q.items, set, b.len()));
    }
    Ok(())
}

fn refused(c: &mut Case) -> Res {
    // queries that do not name positions
    let w = world(c, false)?;
    let n = w.values.len() as u16;
    let len = *c.rng.pick(&[0usize, 3, 4, 8]);
    let odd = c.rng.bytes(len);
    let mut q = query_of(vec![match c.rng.below(4) {
        0 => QueryItem::Key(odd),
        1 => QueryItem::RangeFrom(odd..),
        2 => QueryItem::RangeToInclusive(..=odd),
        _ => QueryItem::Range(vec![0]..odd),
    }]);
    if c.rng.chance(1, 4) {
        q = query_of(vec![QueryItem::Key(vec![0])]);
        q.set_subquery(Query::new_range_full());
    }
    c.ensure(DenseTreeProof::generate_for_query(&w.tree, &q).value.is_err(), "bad-query-proved", || format!("{q:?}"))?;
    let p = c.must(DenseTreeProof::generate(&w.tree, &[0]).value, "prove")?;
    c.ensure(p.verify_for_query::<Vec<_>>(&q, w.h, n).is_err(), "bad-query-verified", || format!("{q:?}"))?;
    // trusted values outside their range
    let h = *c.rng.pick(&[0u8, 17, 18, 32, 64, 255]);
    c.ensure(p.verify_against_expected_root::<Vec<_>>(&w.root, h, n).is_err(), "bad-height-verified", || format!("{h}"))?;
    let cap = ((1u32 << w.h) - 1) as u16;
    if cap < u16::MAX {
        c.ensure(p.verify_against_expected_root::<Vec<_>>(&w.root, w.h, cap + 1).is_err(), "bad-count-verified", || format!("{cap}"))?;
    }
    // a position told twice, in one way and in another
    let at = c.rng.below(n as u64) as u16;
    let mut p = c.must(DenseTreeProof::generate(&w.tree, &[at]).value, "prove")?;
    let nodes = dense_nodes(&w.values);
    match c.rng.below(4) {
        0 => p.node_value_hashes.push((at, b3(&[&w.values[at as usize]]))),
        1 => p.node_hashes.push((at, nodes[at as usize])),
        2 => {
            let Some(x) = p.node_hashes.iter().copied().find(|x| x.0 < n) else { return Ok(()) };
            p.node_value_hashes.push((x.0, b3(&[&w.values[x.0 as usize]])));
        }
        _ => {
            let Some(x) = p.node_value_hashes.iter().copied().find(|x| x.0 < n) else { return Ok(()) };
            p.node_hashes.push((x.0, nodes[x.0 as usize]));
        }
    }
    c.ensure(p.verify_against_expected_root::<Vec<_>>(&w.root, w.h, n).is_err(), "position-told-twice-verified", || format!("{p:?}"))?;
    c.count("refusals", 1);
    c.eval(fnv(format!("{q:?}").as_bytes()), true);
    Ok(())
}

fn judge(c: &mut Case, w: &World, p: &DenseTreeProof, q: &Query, set: &BTreeSet<u64>) -> Res {
    let n = w.values.len() as u16;
    c.count("attempts", 1);
    if let Ok(got) = p.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(&w.root, w.h, n) {
        c.count("accepted", 1);
        let mut seen = BTreeSet::new();
        for (i, v) in &got {
            c.ensure(w.values.get(*i as usize) == Some(v), "false-value-accepted", || format!("position {i} as {} by {p:?}", hex(v)))?;
            c.ensure(seen.insert(*i), "position-shown-twice", || format!("{p:?}"))?;
        }
    }
    if let Ok((root, got)) = p.verify_for_query::<Vec<(u16, Vec<u8>)>>(q, w.h, n) {
        if root == w.root {
            let m: BTreeMap<u16, Vec<u8>> = got.iter().cloned().collect();
            c.ensure(m.len() == got.len() && m.into_iter().collect::<Vec<_>>() == want(w, set.iter().copied()), "false-answer-accepted", || format!("{q:?} answered {got:?} by {p:?}"))?;
            c.count("accepted-answers", 1);
        }
    }
    Ok(())
}

fn tamper(c: &mut Case) -> Res {
    let w = world(c, false)?;
    let n = w.values.len() as u64;
    let (its, set) = items(&mut c.rng, n, u16::MAX as u64, &mut |r, p| pos_bytes(r, p));
    let q = query_of(its);
    let from: Vec<u16> = if c.rng.bool() || set.is_empty() { vec![c.rng.below(n) as u16] } else { set.iter().map(|x| *x as u16).collect() };
    let mut p = c.must(DenseTreeProof::generate(&w.tree, &from).value, "prove")?;
    let nodes = dense_nodes(&w.values);
    let vhash = |i: usize| b3(&[&w.values[i]]);
    for _ in 0..c.rng.range(1, 4) {
        let i = c.rng.usize(n as usize);
        let any = |rng: &mut Rng| rng.below(n + 2) as u16;
        match c.rng.below(14) {
            0 if !p.entries.is_empty() => {
                let k = c.rng.usize(p.entries.len());
                p.entries[k].0 = any(&mut c.rng);
            }
            1 if !p.entries.is_empty() => {
                let k = c.rng.usize(p.entries.len());
                p.entries[k].1 = w.values[i].clone();
            }
            2 if !p.entries.is_empty() => {
                let k = c.rng.usize(p.entries.len());
                let e = p.entries.remove(k);
                if c.rng.bool() {
                    p.node_value_hashes.push((e.0, b3(&[&e.1])));
                }
            }
            3 => {
                let e = (any(&mut c.rng), w.values[i].clone());
                p.entries.push(e);
            }
            4 => p.entries.push((i as u16, b"fake".to_vec())),
            5 => {
                // hide a node behind its hash
                p.node_hashes.push((i as u16, nodes[i]));
            }
            6 => p.node_value_hashes.push((i as u16, vhash(i))),
            7 if !p.node_hashes.is_empty() => {
                let k = c.rng.usize(p.node_hashes.len());
                p.node_hashes.remove(k);
            }
            8 if !p.node_value_hashes.is_empty() => {
                let k = c.rng.usize(p.node_value_hashes.len());
                p.node_value_hashes.remove(k);
            }
            9 if !p.node_hashes.is_empty() => {
                let k = c.rng.usize(p.node_hashes.len());
                p.node_hashes[k] = (any(&mut c.rng), nodes[i]);
            }
            10 if !p.node_value_hashes.is_empty() => {
                let k = c.rng.usize(p.node_value_hashes.len());
                p.node_value_hashes[k] = (any(&mut c.rng), vhash(i));
            }
            11 => {
                // an untrue value below a node that is given by its hash
                let mut a = i as u16;
                while a > 0 && c.rng.bool() {
                    a = (a - 1) / 2;
                }
                p.node_hashes.push((a, nodes[a as usize]));
                p.entries.retain(|e| e.0 != i as u16);
                p.entries.push((i as u16, b"fake".to_vec()));
            }
            12 => c.rng.shuffle(&mut p.entries),
            _ => {
                // every hash at once
                p.node_hashes = nodes.iter().enumerate().map(|(i, h)| (i as u16, *h)).collect();
            }
        }
    }
    c.note(format!("{p:?} for {q:?}"));
    judge(c, &w, &p, &q, &set)?;
    let mut b = c.must(p.encode_to_vec(), "encode")?;
    for _ in 0..c.rng.below(4) {
        if !b.is_empty() {
            let i = c.rng.usize(b.len());
            match c.rng.below(3) {
                0 => b[i] ^= 1 << c.rng.below(8),
                1 => b.truncate(i),
                _ => b.insert(i, c.rng.u64() as u8),
            }
        }
    }
    if let Ok(p) = DenseTreeProof::decode_from_slice(&b) {
        judge(c, &w, &p, &q, &set)?;
    }
    c.eval(fnv(&b), true);
    Ok(())
}

/// tall trees: honest proofs, and false or hidden entries at any distance below an opaque hash
fn deep(c: &mut Case) -> Res {
    let top = if c.rng.chance(1, 8) { 16 } else { 12 };
    let h = c.rng.range(7, top) as u8;
    let mem = Mem::new(false);
    let values = rows(c, h, &mem);
    let n = values.len() as u64;
    let tree = c.must(Tree::from_state(h, n as u16, mem), "open")?;
    let nodes = dense_nodes(&values);
    let w = World { h, values, tree, root: nodes[0] };
    let mut last = 0;
    for _ in 0..40 {
        let i = match c.rng.below(3) {
            0 => n - 1 - c.rng.below(n.min(4)),
            1 => c.rng.below(n.min(20)),
            _ => c.rng.below(n),
        };
        let (mut its, mut set) = if c.rng.bool() { items(&mut c.rng, n, u16::MAX as u64, &mut |r, p| pos_bytes(r, p)) } else { Default::default() };
        if set.len() > 40 || set.is_empty() {
            set = [i].into();
            its = vec![QueryItem::Key((i as u16).to_be_bytes().to_vec())];
        }
        let from: Vec<u16> = set.iter().map(|x| *x as u16).collect();
        let q = query_of(its);
        let mut p = c.must(DenseTreeProof::generate(&w.tree, &from).value, "prove")?;
        c.note(format!("height {h} count {n} {q:?}"));
        let (root, got) = c.must(p.verify_for_query::<BTreeMap<u16, Vec<u8>>>(&q, h, n as u16), "verify")?;
        c.same(&hex(&root), &hex(&w.root), "honest-root")?;
        c.same(&got.into_iter().collect::<Vec<_>>(), &want(&w, set.iter().copied()), "honest-answer")?;
        // an untrue value any distance below a node that is given by its hash
        let up = c.rng.below(h as u64);
        let mut a = i as u16;
        let mut steps = 0;
        while a > 0 && (steps < up || c.rng.chance(1, 8)) {
            a = (a - 1) / 2;
            steps += 1;
        }
        let below = |x: u16| {
            let mut x = x;
            while x > a {
                x = (x - 1) / 2;
            }
            x == a
        };
        p.entries.retain(|e| !below(e.0));
        p.node_value_hashes.retain(|e| !below(e.0));
        p.node_hashes.retain(|e| !below(e.0));
        p.node_hashes.push((a, nodes[a as usize]));
        if c.rng.chance(4, 5) {
            p.entries.push((i as u16, b"fake".to_vec()));
        }
        judge(c, &w, &p, &q, &set)?;
        c.count("deep-forgeries", 1);
        last = i;
    }
    c.eval(n ^ last << 20 ^ (h as u64) << 40, true);
    Ok(())
}

pub fn d02(ctx: &Ctx) {
    ctx.rule("random dense trees, position queries of all ten item kinds with bounds at and beyond the count, and explicit positions: honest proofs give exactly the positions that exist; proofs that are re-indexed, shortened, padded with true hashes, carry fake values under given hashes or are damaged as bytes; whatever is accepted with the true root must show true values, and for a query exactly its answer.");
    ctx.assume("height and count are the true ones: the root alone does not fix them");
    ctx.cases("honest", ctx.n(120_000, 4_000_000), honest);
    ctx.cases("refused", ctx.n(10_000, 200_000), refused);
    ctx.cases("tamper", ctx.n(300_000, 12_000_000), tamper);
    ctx.cases("deep", ctx.n(500, 50_000), deep);
    ctx.require("deep-forgeries", 10_000);
    for (k, n) in [("proofs", 10_000), ("attempts", 100_000), ("accepted", 1000), ("accepted-answers", 1000), ("refusals", 1000), ("empty-answers", 1000), ("other-queries", 1000)] {
        ctx.require(k, n);
    }
}
