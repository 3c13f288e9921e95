//! C02: the work append-only trees report for an operation.
use crate::{dense::value, memctx::Mem};
use grovedb_bulk_append_tree::BulkAppendTree;
use grovedb_costs::OperationCost;
use grovedb_dense_fixed_sized_merkle_tree::{DenseFixedSizedMerkleTree as Dense, DenseTreeProof};
use grovedb_merkle_mountain_range::{MMR, MmrKeySize, MmrNode, MmrStore, hash_count_for_push};
use std::collections::BTreeSet;
use vcommon::{Case, Ctx, Res, fnv};

fn work(seeks: usize, bytes: usize, hashes: usize) -> OperationCost {
    OperationCost { seek_count: seeks as u32, storage_loaded_bytes: bytes as u64, hash_node_calls: hashes as u32, ..Default::default() }
}

/// what proving some positions of a dense tree of n values needs: every value once, two hashes for
/// every node in a left-out part, one for every shown ancestor's value
fn dense_proof(lens: &[usize], shown: &BTreeSet<usize>) -> OperationCost {
    if lens.is_empty() {
        return work(0, 0, 0);
    }
    let mut path = shown.clone();
    for &p in shown {
        let mut p = p;
        while p > 0 {
            p = (p - 1) / 2;
            path.insert(p);
        }
    }
    let hidden = lens.len() - path.len();
    work(lens.len(), lens.iter().sum(), hidden * 2 + path.len() - shown.len())
}

fn dense(c: &mut Case) -> Res {
    let h = if c.rng.chance(1, 12) { 6 } else { c.rng.range(1, 4) as u8 };
    let cap = (1usize << h) - 1;
    let mem = Mem::new(false);
    let mut warm = c.must(Dense::new(h, mem.clone()), "new")?;
    let mut lens: Vec<usize> = vec![];
    for step in 0..c.rng.range(2, 2 * cap as u64 + 6) {
        let sum: usize = lens.iter().sum();
        // the same store, nothing cached
        let mut cold = c.must(Dense::from_state(h, lens.len() as u16, mem.clone()), "open")?;
        let what = format!("height {h}, values {lens:?}, step {step}");
        match c.rng.below(10) {
            0..=5 => {
                let v = value(&mut c.rng);
                let full = lens.len() == cap;
                let want = if full { work(0, 0, 0) } else { work(1 + lens.len() + 1, sum + v.len(), 2 * (lens.len() + 1)) };
                let which = c.rng.below(3);
                let t = if which == 0 { &mut cold } else { &mut warm };
                let got = if c.rng.bool() { t.insert(&v).cost } else { t.try_insert(&v).cost };
                c.ensure(got == want, "dense-insert", || format!("{what}: {got:?} want {want:?}"))?;
                if which == 0 {
                    warm = cold;
                }
                if !full {
                    lens.push(v.len());
                }
                c.count("insertions", 1);
            }
            6 => {
                let want = work(lens.len(), sum, 2 * lens.len());
                for (t, n) in [(&warm, "long-lived"), (&cold, "reopened")] {
                    let got = t.root_hash().cost;
                    c.ensure(got == want, "dense-root", || format!("{what}, {n}: {got:?} want {want:?}"))?;
                }
            }
            7 => {
                let p = c.rng.usize(cap + 2);
                let want = lens.get(p).map_or(work(0, 0, 0), |n| work(1, *n, 0));
                for (t, n) in [(&warm, "long-lived"), (&cold, "reopened")] {
                    let got = t.get(p as u16).cost;
                    c.ensure(got == want, "dense-get", || format!("{what}, {n}, position {p}: {got:?} want {want:?}"))?;
                }
            }
            _ => {
                if lens.is_empty() {
                    continue;
                }
                let shown: BTreeSet<usize> = (0..c.rng.range(1, 4)).map(|_| c.rng.usize(lens.len())).collect();
                let mut asked: Vec<u16> = shown.iter().map(|p| *p as u16).collect();
                c.rng.shuffle(&mut asked);
                let want = dense_proof(&lens, &shown);
                for (t, n) in [(&warm, "long-lived"), (&cold, "reopened")] {
                    let got = DenseTreeProof::generate(t, &asked).cost;
                    c.ensure(got == want, "dense-proof", || format!("{what}, {n}, positions {asked:?}: {got:?} want {want:?}"))?;
                }
                c.count("proofs", 1);
            }
        }
    }
    c.eval(fnv(format!("{h} {lens:?}").as_bytes()), lens.len() > 1);
    Ok(())
}

/// positions and stored sizes of the peaks of a mountain range with n leaves
fn peaks(sizes: &[usize], n: u64) -> Vec<usize> {
    let mut at = 0usize;
    let mut out = vec![];
    for b in (0..64).rev() {
        if n >> b & 1 == 1 {
            at += (2usize << b) - 1;
            out.push(sizes[at - 1]);
        }
    }
    out
}

fn mmr(c: &mut Case) -> Res {
    let mem = Mem::new(false);
    let kind = if c.rng.bool() { MmrKeySize::U32 } else { MmrKeySize::U64 };
    let (mut n, mut size) = (0u64, 0u64);
    let mut sizes: Vec<usize> = vec![];
    let store = MmrStore::with_key_size(&mem, kind);
    let mut warm = MMR::new(0, &store);
    for step in 0..c.rng.range(2, 40) {
        let what = format!("{n} leaves, step {step}");
        match c.rng.below(8) {
            0..=4 => {
                let v = value(&mut c.rng);
                let leaf = if c.rng.bool() { MmrNode::leaf(v.clone()) } else { MmrNode::internal([7; 32]) };
                let own = leaf.serialized_size() as usize;
                let ones = n.trailing_ones() as usize;
                let mut p = peaks(&sizes, n);
                let left: usize = p.split_off(p.len() - ones).iter().sum();
                let want = work(ones, left, 0);
                let got = warm.push(leaf).cost;
                c.ensure(got == want, "mmr-push", || format!("{what}: {got:?} want {want:?}"))?;
                c.same(&hash_count_for_push(n), &(1 + ones as u32), "mmr-push-hashes")?;
                sizes.push(own);
                sizes.extend(std::iter::repeat_n(33, ones));
                n += 1;
                size += 1 + ones as u64;
                c.same(&warm.mmr_size, &size, "mmr-size")?;
                c.count("insertions", 1);
            }
            5 => {
                c.must(warm.commit().value, "commit")?;
                if c.rng.bool() {
                    warm = MMR::new(size, &store);
                }
            }
            _ => {
                // pending, stored and reopened nodes cost the same
                let mut asked: Vec<u64> = vec![];
                if n > 0 {
                    asked = (0..c.rng.range(1, 4)).map(|_| c.rng.below(n)).map(grovedb_merkle_mountain_range::leaf_to_pos).collect();
                }
                let p = peaks(&sizes, n);
                let want = work(p.len(), p.iter().sum(), 0);
                let got = warm.get_root().cost;
                c.ensure(got == want, "mmr-root", || format!("{what}: {got:?} want {want:?}"))?;
                let pending = warm.gen_proof(asked.clone()).cost;
                c.must(warm.commit().value, "commit")?;
                let cold = MMR::new(size, &store);
                let got = cold.get_root().cost;
                c.ensure(got == want, "mmr-root", || format!("{what}, reopened: {got:?} want {want:?}"))?;
                let stored = cold.gen_proof(asked.clone());
                c.ensure(pending == stored.cost, "mmr-proof", || format!("{what}, positions {asked:?}: pending {pending:?} stored {:?}", stored.cost))?;
                c.same(&(stored.cost.seek_count > 0 || n < 2 || asked.len() > 1), &true, "mmr-proof-free")?;
                c.count("proofs", 1);
            }
        }
    }
    c.eval(fnv(format!("{n} {sizes:?}").as_bytes()), n > 2);
    Ok(())
}

fn bulk(c: &mut Case) -> Res {
    let h = c.rng.range(1, 4) as u8;
    let epoch = 1u64 << h;
    let mem = Mem::new(c.rng.bool());
    let mut t = c.must(BulkAppendTree::new(h, mem.clone()), "new")?;
    let mut n = 0u64;
    for _ in 0..c.rng.range(1, 4 * epoch + 6) {
        if c.rng.chance(1, 4) {
            c.must(t.commit_mmr(), "commit")?;
            mem.flush();
            if c.rng.bool() {
                t = c.must(BulkAppendTree::from_state(n, h, mem.clone()), "open")?;
            }
        }
        let v = value(&mut c.rng);
        let r = c.must(t.append(&v), "append")?;
        n += 1;
        let full = n % epoch == 0;
        // two hashes for every buffered value, or those of one more leaf; one for the state root
        let want = 1 + if full { 1 + (n / epoch - 1).trailing_ones() } else { 2 * (n % epoch) as u32 };
        c.ensure(r.hash_count == want && r.compacted == full && r.global_position == n - 1, "bulk-append", || format!("height {h}, {n} values: {r:?} want {want}"))?;
        c.count("insertions", 1);
    }
    c.eval(fnv(format!("{h} {n}").as_bytes()), n > epoch);
    Ok(())
}

pub fn c02(x: &Ctx) {
    x.rule("one operation on one append-only tree, its reported seeks, loaded bytes and hash calls against those the operation's definition needs");
    let n = x.n(6_000, 400_000);
    x.cases("dense", n, dense);
    x.cases("mmr", n, mmr);
    x.cases("bulk", n, bulk);
    x.require("insertions", 100_000);
    x.require("proofs", 10_000);
}
