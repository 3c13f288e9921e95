//! B01 and B02: bulk append trees.
use crate::{
    dense::{items, query_of, value},
    memctx::Mem,
    models::*,
};
use grovedb_bulk_append_tree::*;
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::{Query, QueryItem};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

type Tree = BulkAppendTree<Mem>;

fn height(rng: &mut Rng) -> u8 {
    match rng.below(12) {
        0 => 4,
        1 => 3,
        _ => rng.range(1, 2) as u8,
    }
}

fn agrees(c: &mut Case, t: &Tree, h: u8, want: &[Vec<u8>], log: &[String], all: bool, sig: &str) -> Res {
    let m = Bulk::of(want, h);
    let per = 1u64 << h;
    let n = want.len() as u64;
    let got = (t.total_count, t.capacity() as u64, t.epoch_size(), t.chunk_count(), t.buffer_count() as u64, t.height(), t.mmr_size());
    let w = (n, per - 1, per, n / per, n % per, h, m.chunks.size());
    c.ensure(got == w, "totals", || format!("{log:?}: {got:?} want {w:?}"))?;
    match t.compute_current_state_root() {
        Ok(r) => c.ensure(r == m.state(), sig, || format!("{log:?}: {} want {}", hex(&r), hex(&m.state())))?,
        Err(e) => return c.fail(sig, format!("{log:?}: {e}")),
    }
    // buffer and chunks
    let bl: Vec<u64> = if all { (0..per + 2).collect() } else { vec![c.rng.below(per + 1)] };
    for p in bl {
        let got = c.must(t.get_buffer_value(p as u16), "buffer-value")?;
        c.ensure(got == m.buffer.get(p as usize).cloned(), "buffer-value", || format!("{log:?}: {p}: {got:?}"))?;
    }
    let k = m.chunks.leaves.len() as u64;
    let cl: Vec<u64> = if all { (0..k + 2).collect() } else { vec![c.rng.below(k + 1)] };
    for i in cl {
        let got = c.must(t.get_chunk_value(i), "chunk-value")?;
        c.ensure(got.as_ref() == m.chunks.leaves.get(i as usize), "chunk-value", || format!("{log:?}: chunk {i}: {got:?}"))?;
        if let Some(b) = got {
            let vs = c.must(deserialize_chunk_blob(&b), "chunk-decode")?;
            c.same(&vs, &want[(i * per) as usize..((i + 1) * per) as usize].to_vec(), "chunk-contents")?;
            c.count("chunks-read", 1);
        }
    }
    if k > 0 && c.rng.chance(1, 3) {
        let mut ix: Vec<u64> = (0..k).collect();
        c.rng.shuffle(&mut ix);
        ix.truncate(1 + c.rng.usize(3));
        let r = c.must(t.query_chunks(&ix), "query-chunks")?;
        let w: Vec<(u64, Vec<Vec<u8>>)> = ix.iter().map(|i| (*i, want[(i * per) as usize..((i + 1) * per) as usize].to_vec())).collect();
        c.same(&r.chunks, &w, "query-chunks")?;
        c.same(&hex(&r.mmr_root), &hex(&m.chunks.root()), "query-chunks-root")?;
        let p = MmrTreeProof::new(m.chunks.size(), ix.iter().map(|i| (*i, m.chunks.leaves[*i as usize].clone())).collect(), r.mmr_proof_items);
        c.ensure(p.verify(&m.chunks.root()).is_ok(), "query-chunks-proof", || format!("{log:?}: chunks {ix:?}"))?;
        c.ensure(t.query_chunks(&[ix[0], k]).is_err(), "query-chunks-beyond", || format!("chunk {k} of {k}"))?;
    }
    if c.rng.chance(1, 3) {
        let (its, set) = items(&mut c.rng, m.buffer.len() as u64, 60_000, &mut |_, p| (p as u16).to_be_bytes().to_vec());
        let q = query_of(its);
        let r = c.must(t.query_buffer(&q), "query-buffer")?;
        let w: Vec<(u16, Vec<u8>)> = set.iter().map(|i| (*i as u16, m.buffer[*i as usize].clone())).collect();
        c.same(&r.entries, &w, "query-buffer")?;
        let (root, got) = c.must(r.proof.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, h, m.buffer.len() as u16), "query-buffer-proof")?;
        c.same(&(hex(&root), got), &(hex(&dense_root(&m.buffer)), w), "query-buffer-proof")?;
    }
    Ok(())
}

fn history(c: &mut Case) -> Res {
    let h = height(&mut c.rng);
    let per = 1u64 << h;
    let deferred = c.rng.chance(1, 3);
    let mem = Mem::new(deferred);
    let mut now: Vec<Vec<u8>> = vec![];
    let mut log: Vec<String> = vec![format!("height {h} deferred {deferred}")];
    let mut t = c.must(Tree::new(h, mem.clone()), "new")?;
    for _ in 0..c.rng.range(1, 16) {
        c.note(log.join(" "));
        let mut sig = "state-root";
        match c.rng.below(8) {
            0..=3 => {
                let k = if c.rng.chance(1, 4) { c.rng.range(1, 3 * per) } else { c.rng.range(1, 3) };
                for _ in 0..k {
                    let v = if c.rng.bool() { vec![now.len() as u8] } else { value(&mut c.rng) };
                    let r = c.must(t.append(&v), "append")?;
                    now.push(v);
                    let n = now.len() as u64;
                    let m = Bulk::of(&now, h).state();
                    c.ensure((r.state_root, r.global_position, r.compacted) == (m, n - 1, n % per == 0), "append-result", || format!("{log:?}: {r:?} want root {} at {}", hex(&m), n - 1))?;
                    c.count("appends", 1);
                    c.count("compactions", (n % per == 0) as u64);
                }
                log.push(format!("={}", now.len()));
            }
            4 => {
                // keep the session's work and open it again
                c.must(t.commit_mmr(), "commit")?;
                mem.flush();
                t = c.must(Tree::from_state(now.len() as u64, h, mem.clone()), "open")?;
                log.push("reopen".into());
                c.count("reopenings", 1);
            }
            5 => {
                // a fault while appending: nothing changes
                let v = value(&mut c.rng);
                if c.rng.chance(1, 3) {
                    mem.arm(-1, 0);
                } else {
                    mem.arm(c.rng.below(6) as i64, -1);
                }
                let f = mem.0.failed.get();
                let r = t.append(&v);
                mem.disarm();
                let failed = mem.0.failed.get() > f;
                c.ensure(r.is_err() == failed, "fault-hidden", || format!("{log:?}: fault {failed}: {r:?}"))?;
                if !failed {
                    now.push(v);
                } else {
                    c.count("append-faults", 1);
                    sig = "state-after-failed-append";
                }
                log.push(format!("fault({failed})"));
            }
            6 => {
                // a fault while flushing chunks: it can be retried
                mem.arm(-1, c.rng.below(3) as i64);
                let f = mem.0.failed.get();
                let r = t.commit_mmr();
                mem.disarm();
                let failed = mem.0.failed.get() > f;
                c.ensure(r.is_err() == failed, "fault-hidden", || format!("{log:?}: fault {failed}: {r:?}"))?;
                if !failed {
                    mem.flush();
                } else {
                    c.count("flush-faults", 1);
                    sig = "state-after-failed-flush";
                }
                log.push(format!("flush-fault({failed})"));
            }
            _ => {
                c.must(t.commit_mmr(), "commit")?;
                mem.flush();
                log.push("flush".into());
            }
        }
        let all = c.rng.chance(1, 3);
        agrees(c, &t, h, &now, &log, all, sig)?;
        c.count("states", 1);
    }
    c.must(t.commit_mmr(), "commit")?;
    mem.flush();
    let t = c.must(Tree::from_state(now.len() as u64, h, mem.clone()), "open")?;
    agrees(c, &t, h, &now, &log, true, "state-root")?;
    c.eval(fnv(log.join(" ").as_bytes()) ^ fnv(&Bulk::of(&now, h).state()), now.len() as u64 > per);
    if c.wants_sample() {
        c.sample(format!("{} -> {} values, {} chunks, state {}", log.join(" "), now.len(), now.len() as u64 / per, hex(&Bulk::of(&now, h).state())));
    }
    Ok(())
}

fn blobs(c: &mut Case) -> Res {
    let n = c.rng.below(9) as usize;
    let len = c.rng.usize(6);
    let fixed = c.rng.bool();
    let vs: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = if fixed { len } else { c.rng.usize(6) };
            c.rng.bytes(l)
        })
        .collect();
    let b = c.must(serialize_chunk_blob(&vs), "blob")?;
    c.same(&hex(&b), &hex(&blob(&vs)), "blob-form")?;
    let back = c.must(deserialize_chunk_blob(&b), "blob-decode")?;
    c.same(&back, &vs, "blob-round-trip")?;
    // damaged blobs never read as something that spells differently
    let mut d = b.clone();
    for _ in 0..c.rng.range(1, 3) {
        match c.rng.below(4) {
            0 if !d.is_empty() => {
                let i = c.rng.usize(d.len());
                d[i] ^= 1 << c.rng.below(8);
            }
            1 if !d.is_empty() => d.truncate(c.rng.usize(d.len())),
            2 => d.push(c.rng.u64() as u8),
            _ if d.len() > 8 => {
                let i = 1 + c.rng.usize(4);
                d[i] = c.rng.u64() as u8;
            }
            _ => {}
        }
    }
    c.note(hex(&d));
    let (r, total, _) = vcommon::measure_alloc(|| deserialize_chunk_blob(&d));
    c.ensure(total < (64 << 20), "blob-memory", || format!("{} bytes allocated {total}", d.len()))?;
    match r {
        Ok(vs) => {
            let canon = blob(&vs);
            let mut variable = vec![0];
            for v in &vs {
                variable.extend((v.len() as u32).to_be_bytes());
                variable.extend(v);
            }
            let empty_fixed = vs.is_empty() && d.len() == 9 && d[0] == 1 && d[1..5] == [0; 4];
            c.ensure(d == canon || d == variable || empty_fixed, "blob-misread", || format!("{} read as {vs:?}", hex(&d)))?;
            c.count("blobs-read", 1);
        }
        Err(_) => c.count("blobs-refused", 1),
    }
    c.eval(fnv(&d), n > 0);
    Ok(())
}

fn limits(c: &mut Case) -> Res {
    let h = if c.rng.chance(1, 10) { c.rng.u64() as u8 } else { c.rng.below(19) as u8 };
    let ok = (1..=16).contains(&h);
    let n = c.rng.edge_u64() >> 1;
    c.note(format!("height {h} total {n}"));
    c.same(&Tree::new(h, Mem::new(false)).is_ok(), &ok, "height-limit")?;
    let t = Tree::from_state(n, h, Mem::new(false));
    c.same(&t.is_ok(), &ok, "height-limit")?;
    if let Ok(t) = t {
        let per = 1u64 << h;
        let k = n / per;
        let want = (per, k, (n % per) as u16, (2 * k as u128 - k.count_ones() as u128) as u64);
        c.same(&(t.epoch_size(), t.chunk_count(), t.buffer_count(), t.mmr_size()), &want, "totals")?;
        c.same(&leaf_count_to_mmr_size(k), &want.3, "mmr-size")?;
        // missing rows are errors, not values
        if n > 0 {
            c.ensure(t.compute_current_state_root().is_err(), "missing-rows-root", || format!("{n}"))?;
        }
        if k > 0 && k < 1 << 29 {
            let i = c.rng.below(k);
            c.ensure(t.get_chunk_value(i).is_err(), "missing-chunk-read", || format!("{n}"))?;
        }
    }
    let (a, b) = (c.rng.arr32(), c.rng.arr32());
    c.same(&hex(&compute_state_root(&a, &b)), &hex(&b3(&[b"bulk_state", &a, &b])), "state-hash")?;
    c.eval(n ^ h as u64, ok);
    c.count("limits", 1);
    Ok(())
}

pub fn b01(ctx: &Ctx) {
    ctx.rule("random histories of appends over many compactions, reopening, chunk flushes, and read and write faults in both, for heights 1 to 4, over immediate and deferred storage; totals, every buffered value, every chunk blob and the state root compared with an independent two-level tree after each step; chunk blobs written, read back and damaged.");
    ctx.cases("history", ctx.n(40_000, 1_500_000), history);
    ctx.cases("blobs", ctx.n(200_000, 5_000_000), blobs);
    ctx.cases("limits", ctx.n(20_000, 300_000), limits);
    for (k, n) in [("appends", 10_000), ("compactions", 1000), ("append-faults", 1000), ("flush-faults", 500), ("reopenings", 1000), ("chunks-read", 1000), ("blobs-read", 1000), ("blobs-refused", 1000)] {
        ctx.require(k, n);
    }
}

// ---- B02 -----------------------------------------------------------------

/// a position in the shortest form or with leading zeros
fn pos_bytes(rng: &mut Rng, p: u64) -> Vec<u8> {
    let b = p.to_be_bytes();
    let short = (p.leading_zeros() / 8).min(7) as usize;
    let skip = match rng.below(3) {
        0 => short,
        1 => 0,
        _ => rng.usize(short + 1),
    };
    b[skip..].to_vec()
}

struct World {
    h: u8,
    values: Vec<Vec<u8>>,
    tree: Tree,
    model: Bulk,
    root: H,
}
fn world(c: &mut Case) -> Res<World> {
    let h = height(&mut c.rng);
    let per = 1u64 << h;
    let n = match c.rng.below(8) {
        0 => c.rng.range(0, 6 * per),
        1 => per * c.rng.range(0, 9),
        2 => c.rng.below(per),
        _ => c.rng.range(1, 40.min(9 * per)),
    };
    let mem = Mem::new(false);
    let mut tree = c.must(Tree::new(h, mem.clone()), "new")?;
    let mut values = vec![];
    let kind = c.rng.below(3);
    for i in 0..n {
        let v = match kind {
            0 => vec![b'v', i as u8],
            1 => vec![i as u8; 1 + i as usize % 3],
            _ => value(&mut c.rng),
        };
        c.must(tree.append(&v), "append")?;
        values.push(v);
    }
    if c.rng.bool() {
        c.must(tree.commit_mmr(), "commit")?;
        tree = c.must(Tree::from_state(n, h, mem), "open")?;
    }
    let model = Bulk::of(&values, h);
    let root = model.state();
    Ok(World { h, values, tree, model, root })
}
fn truth(w: &World, set: &BTreeSet<u64>) -> Vec<(u64, Vec<u8>)> {
    set.iter().map(|i| (*i, w.values[*i as usize].clone())).collect()
}

fn honest(c: &mut Case) -> Res {
    let w = world(c)?;
    let n = w.values.len() as u64;
    let (its, set) = items(&mut c.rng, n, u64::MAX, &mut |r, p| pos_bytes(r, p));
    let q = query_of(its);
    c.note(format!("height {} total {n} {q:?}", w.h));
    let p = c.must(BulkAppendTreeProof::generate(&q, &w.tree), "prove")?;
    let got: Vec<(u64, Vec<u8>)> = c.must(p.verify_against_query(&w.root, w.h, n, &q), "verify")?;
    c.same(&got, &truth(&w, &set), "query-result")?;
    let (root, res) = c.must(p.verify_and_compute_root(w.h, n), "verify")?;
    c.same(&hex(&root), &hex(&w.root), "proof-root")?;
    let res2 = c.must(p.verify(&w.root, w.h, n), "verify")?;
    c.same(&(res2.chunk_blobs.clone(), res2.dense_entries.clone(), res2.total_count, res2.height), &(res.chunk_blobs.clone(), res.dense_entries.clone(), n, w.h), "verifiers-disagree")?;
    // ranges of what was shown
    let (a, b) = (c.rng.below(n + 2), c.rng.below(n + 2));
    let per = 1u64 << w.h;
    let start = n / per * per;
    let shown: BTreeSet<u64> = res.chunk_blobs.iter().flat_map(|(k, _)| k * per..(k + 1) * per).chain(res.dense_entries.iter().map(|e| start + e.0 as u64)).collect();
    c.ensure(set.is_subset(&shown), "shown-misses-query", || format!("{shown:?}"))?;
    let got = c.must(res.values_in_range(a, b), "values-in-range")?;
    c.same(&got, &truth(&w, &shown.iter().copied().filter(|x| *x >= a && *x < b).collect()), "values-in-range")?;
    let bytes = c.must(p.encode_to_vec(), "encode")?;
    let p2 = c.must(BulkAppendTreeProof::decode_from_slice(&bytes), "decode")?;
    c.same(&format!("{p2:?}"), &format!("{p:?}"), "proof-round-trip")?;
    let other = c.rng.arr32();
    c.ensure(p.verify(&other, w.h, n).is_err() && p.verify_against_query::<Vec<_>>(&other, w.h, n, &q).is_err(), "wrong-root-accepted", || hex(&other))?;
    // the same proof for another question gives that question's answer or nothing
    let (its2, set2) = items(&mut c.rng, n, u64::MAX, &mut |r, p| pos_bytes(r, p));
    let q2 = query_of(its2);
    if let Ok(got) = p.verify_against_query::<Vec<_>>(&w.root, w.h, n, &q2) {
        c.ensure(got == truth(&w, &set2), "other-query-answered-wrong", || format!("{q2:?}: {got:?}"))?;
        c.count("other-queries", 1);
    }
    if set.is_empty() {
        c.count("empty-answers", 1);
    }
    c.count("proofs", 1);
    c.eval(fnv(format!("{} {n} {q:?}", w.h).as_bytes()), !set.is_empty());
    if c.wants_sample() && n < 12 {
        c.sample(format!("height {} total {n} {:?} -> {set:?}, {} bytes", w.h, q.items, bytes.len()));
    }
    Ok(())
}

fn refused(c: &mut Case) -> Res {
    let w = world(c)?;
    let n = w.values.len() as u64;
    let len = *c.rng.pick(&[0usize, 9, 16]);
    let odd = c.rng.bytes(len);
    let mut q = query_of(vec![match c.rng.below(4) {
        0 => QueryItem::Key(odd),
        1 => QueryItem::RangeFrom(odd..),
        2 => QueryItem::RangeToInclusive(..=odd),
        _ => QueryItem::Range(vec![0]..odd),
    }]);
    if c.rng.chance(1, 4) {
        q = query_of(vec![QueryItem::Key(vec![0])]);
        q.set_subquery(Query::new_range_full());
    }
    c.ensure(BulkAppendTreeProof::generate(&q, &w.tree).is_err(), "bad-query-proved", || format!("{q:?}"))?;
    let p = c.must(BulkAppendTreeProof::generate(&query_of(vec![QueryItem::RangeFull(..)]), &w.tree), "prove")?;
    c.ensure(p.verify_against_query::<Vec<_>>(&w.root, w.h, n, &q).is_err(), "bad-query-verified", || format!("{q:?}"))?;
    let h = *c.rng.pick(&[0u8, 17, 18, 32, 64, 255]);
    c.ensure(p.verify(&w.root, h, n).is_err(), "bad-height-verified", || format!("{h}"))?;
    c.count("refusals", 1);
    c.eval(fnv(format!("{q:?}").as_bytes()), true);
    Ok(())
}

fn judge(c: &mut Case, w: &World, p: &BulkAppendTreeProof, q: &Query, set: &BTreeSet<u64>) -> Res {
    let n = w.values.len() as u64;
    let per = 1u64 << w.h;
    c.count("attempts", 1);
    if let Ok(r) = p.verify(&w.root, w.h, n) {
        c.count("accepted", 1);
        let mut seen = BTreeSet::new();
        for (i, b) in &r.chunk_blobs {
            c.ensure(w.model.chunks.leaves.get(*i as usize) == Some(b) && seen.insert(*i), "false-chunk-accepted", || format!("chunk {i} as {} by {p:?}", hex(b)))?;
        }
        let mut seen = BTreeSet::new();
        for (i, v) in &r.dense_entries {
            c.ensure(w.model.buffer.get(*i as usize) == Some(v) && seen.insert(*i), "false-value-accepted", || format!("buffer {i} as {} by {p:?}", hex(v)))?;
        }
        let (a, b) = (c.rng.below(n + 2), c.rng.below(n + 2));
        if let Ok(v) = r.values_in_range(a, b) {
            for (i, v) in v {
                c.ensure(i >= a && i < b && w.values.get(i as usize) == Some(&v), "false-value-in-range", || format!("{i} in {a}..{b} of chunk size {per}"))?;
            }
        }
    }
    if let Ok(got) = p.verify_against_query::<Vec<_>>(&w.root, w.h, n, q) {
        c.count("accepted-answers", 1);
        c.ensure(got == truth(w, set), "false-answer-accepted", || format!("{q:?} answered {got:?} by {p:?}"))?;
    }
    Ok(())
}

fn tamper(c: &mut Case) -> Res {
    let w = world(c)?;
    let n = w.values.len() as u64;
    let (its, set) = items(&mut c.rng, n, u64::MAX, &mut |r, p| pos_bytes(r, p));
    let q = query_of(its);
    // made for this question or another
    let other = if c.rng.bool() { query_of(items(&mut c.rng, n, u64::MAX, &mut |r, p| pos_bytes(r, p)).0) } else { q.clone() };
    let p = c.must(BulkAppendTreeProof::generate(&other, &w.tree), "prove")?;
    let mut size = p.chunk_proof.mmr_size();
    let mut leaves = p.chunk_proof.leaves().to_vec();
    let mut its = p.chunk_proof.proof_items().to_vec();
    let mut d = p.buffer_proof.clone();
    let mut pool: Vec<H> = w.model.chunks.nodes.clone();
    pool.extend(w.model.chunks.folds());
    pool.push([0; 32]);
    let dn = dense_nodes(&w.model.buffer);
    pool.extend(&dn);
    for _ in 0..c.rng.range(1, 3) {
        match c.rng.below(16) {
            0 if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                leaves.remove(i);
            }
            1 if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                leaves[i].0 = c.rng.below(w.model.chunks.leaves.len() as u64 + 1);
            }
            2 if !leaves.is_empty() => {
                // a blob with other contents
                let i = c.rng.usize(leaves.len());
                if let Ok(mut vs) = deserialize_chunk_blob(&leaves[i].1) {
                    match c.rng.below(3) {
                        0 => {
                            vs.pop();
                        }
                        1 => vs.push(b"extra".to_vec()),
                        _ => vs[0] = b"fake".to_vec(),
                    }
                    leaves[i].1 = blob(&vs);
                }
            }
            3 if !w.model.chunks.leaves.is_empty() => {
                let i = c.rng.usize(w.model.chunks.leaves.len());
                leaves.push((i as u64, w.model.chunks.leaves[i].clone()));
            }
            4 if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                let l = (leaves[i].0, blob(&vec![b"f".to_vec(); 1 << w.h]));
                let at = c.rng.usize(leaves.len() + 1);
                leaves.insert(at, l);
            }
            5 => {
                let at = c.rng.usize(its.len() + 1);
                its.insert(at, *c.rng.pick(&pool));
            }
            6 if !its.is_empty() => {
                let at = c.rng.usize(its.len());
                its.remove(at);
            }
            7 if !its.is_empty() => {
                let at = c.rng.usize(its.len());
                its[at] = *c.rng.pick(&pool);
            }
            8 if c.rng.chance(1, 3) => size = if c.rng.bool() { 0 } else { c.rng.edge_u64() },
            9 if !d.entries.is_empty() => {
                let i = c.rng.usize(d.entries.len());
                d.entries.remove(i);
            }
            10 if !d.entries.is_empty() => {
                let i = c.rng.usize(d.entries.len());
                d.entries[i].1 = b"fake".to_vec();
            }
            11 if !dn.is_empty() => {
                let i = c.rng.usize(dn.len());
                d.node_hashes.push((i as u16, dn[i]));
            }
            12 if !dn.is_empty() => {
                let i = c.rng.usize(dn.len());
                d.entries.push((i as u16, w.model.buffer[i].clone()));
            }
            13 => d.entries.push((c.rng.below(4) as u16, b"fake".to_vec())),
            14 => {
                // what the buffer held before, or a chunk shown as buffer
                if let Some(v) = w.values.first() {
                    d.entries = vec![(0, v.clone())];
                }
            }
            _ => {
                c.rng.shuffle(&mut leaves);
                c.rng.shuffle(&mut d.entries);
            }
        }
    }
    let p = BulkAppendTreeProof { chunk_proof: MmrTreeProof::new(size, leaves, its), buffer_proof: d };
    c.note(format!("{p:?} for {q:?}"));
    judge(c, &w, &p, &q, &set)?;
    let mut b = c.must(p.encode_to_vec(), "encode")?;
    for _ in 0..c.rng.below(4) {
        if !b.is_empty() {
            let i = c.rng.usize(b.len());
            match c.rng.below(3) {
                0 => b[i] ^= 1 << c.rng.below(8),
                1 => b.truncate(i),
                _ => b.insert(i, c.rng.u64() as u8),
            }
        }
    }
    if let Ok(p) = BulkAppendTreeProof::decode_from_slice(&b) {
        judge(c, &w, &p, &q, &set)?;
    }
    c.eval(fnv(&b), true);
    Ok(())
}

/// values in range of a made-up result follow the same layout
fn layout(c: &mut Case) -> Res {
    let h = c.rng.range(1, 16) as u8;
    let per = 1u64 << h;
    let n = (c.rng.u64() >> (4 + c.rng.below(50))).max(1);
    let chunks = n / per;
    let start = chunks * per;
    let mut blobs = BTreeMap::new();
    if chunks > 0 && h < 8 {
        for _ in 0..c.rng.below(3) {
            let k = c.rng.below(chunks);
            blobs.insert(k, (0..per).map(|i| vec![i as u8, k as u8]).collect::<Vec<_>>());
        }
    }
    let left = (n - start).min(100);
    let entries: Vec<(u16, Vec<u8>)> = (0..left).map(|i| (i as u16, vec![7, i as u8])).collect();
    let r = BulkAppendTreeProofResult { chunk_blobs: blobs.iter().map(|(k, v)| (*k, blob(v))).collect(), dense_entries: entries.clone(), total_count: n, height: h };
    let all: Vec<(u64, Vec<u8>)> = blobs.iter().flat_map(|(k, v)| v.iter().enumerate().map(move |(i, x)| (k * per + i as u64, x.clone()))).chain(entries.into_iter().map(|(i, v)| (start + i as u64, v))).collect();
    let a = if all.is_empty() || c.rng.bool() { c.rng.below(n) } else { all[c.rng.usize(all.len())].0 };
    let b = if all.is_empty() || c.rng.bool() { c.rng.below(n + 2) } else { all[c.rng.usize(all.len())].0 };
    let got = c.must(r.values_in_range(a, b), "values-in-range")?;
    let want: Vec<_> = all.into_iter().filter(|x| x.0 >= a && x.0 < b).collect();
    c.same(&got, &want, "values-in-range")?;
    let mut r = r;
    r.height = *c.rng.pick(&[0u8, 17, 18, 31, 32, 33, 63, 64, 65, 255]);
    c.ensure(r.values_in_range(a, b).is_err(), "bad-height-read", || format!("{}", r.height))?;
    c.eval(n ^ a ^ b, !want.is_empty());
    Ok(())
}

pub fn b02(ctx: &Ctx) {
    ctx.rule("random bulk append trees (heights 1 to 4, up to nine chunks) and position queries of all ten item kinds with bounds up to 2^64-1: honest proofs give exactly the positions that exist, in order; proofs made for another query, with chunks or buffer entries dropped, moved, replaced or duplicated, with the tree's own hashes moved around, or damaged as bytes; whatever is accepted with the true state root must be true, and for a query exactly its answer.");
    ctx.assume("height and total count are the true ones: the state root alone does not fix them");
    ctx.cases("honest", ctx.n(60_000, 2_000_000), honest);
    ctx.cases("refused", ctx.n(5_000, 100_000), refused);
    ctx.cases("tamper", ctx.n(150_000, 6_000_000), tamper);
    ctx.cases("layout", ctx.n(50_000, 1_000_000), layout);
    for (k, n) in [("proofs", 10_000), ("attempts", 100_000), ("accepted", 1000), ("accepted-answers", 1000), ("refusals", 1000), ("empty-answers", 1000), ("other-queries", 1000)] {
        ctx.require(k, n);
    }
}
