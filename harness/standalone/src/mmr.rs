//! M01 and M02: mountain ranges.
use crate::{memctx::Mem, models::*};
use grovedb_costs::{CostResult, CostsExt, OperationCost};
use grovedb_merkle_mountain_range::*;
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

/// A store that keeps nodes in serialised form and can fail.
struct Store {
    rows: RefCell<BTreeMap<u64, Vec<u8>>>,
    reads_left: Cell<i64>,
    writes_left: Cell<i64>,
    failed: Cell<u64>,
    hidden: Cell<Option<u64>>,
}
impl Store {
    fn new() -> Store {
        Store { rows: Default::default(), reads_left: Cell::new(-1), writes_left: Cell::new(-1), failed: Cell::new(0), hidden: Cell::new(None) }
    }
    fn arm(&self, r: i64, w: i64) {
        self.reads_left.set(r);
        self.writes_left.set(w);
    }
    fn pass(&self, c: &Cell<i64>) -> Result<()> {
        match c.get() {
            n if n < 0 => Ok(()),
            0 => {
                self.failed.set(self.failed.get() + 1);
                Err(Error::StoreError("injected fault".into()))
            }
            n => {
                c.set(n - 1);
                Ok(())
            }
        }
    }
}
impl MMRStoreReadOps for &Store {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, Error> {
        let r = self.pass(&self.reads_left).and_then(|_| {
            if self.hidden.get() == Some(pos) {
                return Ok(None);
            }
            match self.rows.borrow().get(&pos) {
                None => Ok(None),
                Some(b) => MmrNode::deserialize(b).map(Some),
            }
        });
        r.wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() })
    }
}
impl MMRStoreWriteOps for &Store {
    fn append(&mut self, pos: u64, elems: Vec<MmrNode>) -> CostResult<(), Error> {
        for (i, e) in elems.iter().enumerate() {
            if let Err(e) = self.pass(&self.writes_left) {
                return Err(e).wrap_with_cost(OperationCost::default());
            }
            self.rows.borrow_mut().insert(pos + i as u64, e.serialize().expect("harness: serialise"));
        }
        Ok(()).wrap_with_cost(OperationCost::default())
    }
}

fn value(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 64,
        2 => 65,
        3 => 200,
        _ => rng.usize(12),
    };
    rng.bytes(n)
}

/// what the store holds for the first `size` positions is what the leaves define
fn stored_is(c: &mut Case, rows: &BTreeMap<u64, Vec<u8>>, want: &Range) -> Res {
    let leaf_at: BTreeMap<u64, usize> = want.at.iter().enumerate().map(|(i, p)| (*p, i)).collect();
    for (p, h) in want.nodes.iter().enumerate() {
        let Some(b) = rows.get(&(p as u64)) else { return c.fail("stored-missing", format!("nothing at position {p}")) };
        let mut w = vec![0];
        w.extend(h);
        if let Some(i) = leaf_at.get(&(p as u64)) {
            w[0] = 1;
            w.extend((want.leaves[*i].len() as u32).to_be_bytes());
            w.extend(&want.leaves[*i]);
        }
        if *b != w {
            return c.fail("stored-node", format!("position {p}: {} want {}", hex(b), hex(&w)));
        }
    }
    Ok(())
}

fn history(c: &mut Case) -> Res {
    let store = Store::new();
    let mut log: Vec<String> = vec![];
    // what is committed, and what the open range holds
    let mut done = Range::default();
    let mut now = Range::default();
    let mut mmr = MMR::new(0, &store);
    // the last commit failed half way: the batch must still hold everything
    let mut torn = false;
    let steps = c.rng.range(1, 24);
    for _ in 0..steps {
        c.note(log.join(" "));
        match c.rng.below(12) {
            0..=4 => {
                let k = if c.rng.chance(1, 6) { c.rng.range(1, 20) } else { c.rng.range(1, 4) };
                for _ in 0..k {
                    let v = value(&mut c.rng);
                    let r = mmr.push(MmrNode::leaf(v.clone()));
                    let pos = c.must(r.value, "push")?;
                    c.same(&pos, &now.size(), "push-position")?;
                    now.push(v);
                    c.count("appends", 1);
                }
                log.push(format!("push*{k}"));
            }
            5 => {
                c.must(mmr.commit().value, "commit")?;
                done = now.clone();
                torn = false;
                log.push("commit".into());
                c.count("commits", 1);
            }
            6 => {
                // leave without committing
                mmr = MMR::new(done.size(), &store);
                now = done.clone();
                torn = false;
                log.push("abandon".into());
                c.count("reopenings", 1);
            }
            7 => {
                let overlay = mmr.batch.take_overlay();
                mmr = MMR::new_with_overlay(now.size(), &store, overlay);
                log.push("overlay".into());
            }
            8 => {
                // a read fault while appending
                let n = c.rng.below(3) as i64;
                store.arm(n, -1);
                let before = store.failed.get();
                let v = value(&mut c.rng);
                let r = mmr.push(MmrNode::leaf(v.clone())).value;
                store.arm(-1, -1);
                let failed = store.failed.get() > before;
                c.ensure(r.is_err() == failed, "push-fault", || format!("{log:?}: fault {failed}, result {r:?}"))?;
                if failed {
                    c.count("append-faults", 1);
                } else {
                    now.push(v);
                }
                log.push(format!("push-fault({failed})"));
            }
            9 => {
                // a write fault while committing
                let n = c.rng.below(4) as i64;
                store.arm(-1, n);
                let before = store.failed.get();
                let r = mmr.commit().value;
                store.arm(-1, -1);
                let failed = store.failed.get() > before;
                c.ensure(r.is_err() == failed, "commit-fault", || format!("{log:?}: fault {failed}, result {r:?}"))?;
                if failed {
                    c.count("commit-faults", 1);
                    torn = true;
                } else {
                    done = now.clone();
                    torn = false;
                }
                log.push(format!("commit-fault({failed},{n})"));
            }
            10 => {
                // a fault or a lost node while taking the root
                let lost = c.rng.bool();
                if now.size() > 0 {
                    if lost {
                        let p = now.size() - 1 - c.rng.below(now.size().min(6));
                        store.hidden.set(Some(p));
                    } else {
                        store.arm(c.rng.below(2) as i64, -1);
                    }
                    let r = mmr.get_root().value;
                    store.arm(-1, -1);
                    store.hidden.set(None);
                    if let Ok(n) = r {
                        c.same(&n.hash(), &now.root(), "root-under-fault")?;
                    } else {
                        c.count("root-faults", 1);
                    }
                }
                log.push("root-fault".into());
            }
            _ => {
                // look at a few nodes
                for _ in 0..3 {
                    let p = c.rng.below(now.size() + 3);
                    // beyond the committed size an interrupted commit may have left rows
                    if p >= now.size() {
                        continue;
                    }
                    let got = c.must(mmr.batch.element_at_position(p).value, "read")?;
                    let Some(n) = got else { return c.fail("read-lost", format!("{log:?}: position {p} of {}", now.size())) };
                    c.same(&n.hash(), &now.nodes[p as usize], "read-hash")?;
                    let want = now.at.iter().position(|x| *x == p).map(|i| now.leaves[i].clone());
                    c.same(&n.into_value(), &want, "read-value")?;
                }
                log.push("read".into());
            }
        }
        c.same(&mmr.mmr_size, &now.size(), "size")?;
        c.same(&mmr.is_empty(), &(now.size() == 0), "empty")?;
        let r = mmr.get_root().value;
        if now.size() == 0 {
            c.ensure(r == Err(Error::GetRootOnEmpty), "root-empty", || format!("{r:?}"))?;
        } else {
            let sig = if torn { "root-after-failed-commit" } else { "root" };
            match r {
                Ok(n) => c.ensure(n.hash() == now.root(), sig, || format!("{log:?}: {} want {}", hex(&n.hash()), hex(&now.root())))?,
                Err(e) => return c.fail(sig, format!("{log:?}: {e}")),
            }
        }
        // what was committed can be opened on its own
        let rows = store.rows.borrow().clone();
        stored_is(c, &rows, &done)?;
        if done.size() > 0 {
            let other = MMR::new(done.size(), &store);
            let r = c.must(other.get_root().value, "reopened-root")?;
            c.same(&r.hash(), &done.root(), "reopened-root")?;
        }
        c.count("states", 1);
    }
    c.eval(fnv(format!("{log:?}{}", hex(&now.root())).as_bytes()), now.leaves.len() > 1);
    if c.wants_sample() {
        c.sample(format!("{} -> {} leaves, root {}", log.join(" "), now.leaves.len(), hex(&now.root())));
    }
    Ok(())
}

/// The adapter over a storage context, both key widths.
fn adapter(c: &mut Case) -> Res {
    let deferred = c.rng.bool();
    let mem = Mem::new(deferred);
    let wide = c.rng.bool();
    let kind = if wide { MmrKeySize::U64 } else { MmrKeySize::U32 };
    let plain = wide && c.rng.bool();
    let mut model = Range::default();
    for _ in 0..c.rng.range(1, 5) {
        let store = if plain { MmrStore::new(&mem) } else { MmrStore::with_key_size(&mem, kind) };
        let mut mmr = MMR::new(model.size(), &store);
        let mut next = model.clone();
        for _ in 0..c.rng.below(9) {
            let v = value(&mut c.rng);
            c.must(mmr.push(MmrNode::leaf(v.clone())).value, "push")?;
            next.push(v);
        }
        if next.size() > 0 {
            
            let r = c.must(mmr.get_root().value, "root")?;
            c.same(&r.hash(), &next.root(), "root")?;
        }
        if c.rng.chance(1, 4) {
            mem.arm(-1, c.rng.below(3) as i64);
            let f = mem.0.failed.get();
            let r = mmr.commit().value;
            mem.disarm();
            c.same(&r.is_err(), &(mem.0.failed.get() > f), "commit-fault")?;
            if r.is_err() {
                mem.drop_pending();
                c.count("adapter-faults", 1);
                continue;
            }
        } else {
            c.must(mmr.commit().value, "commit")?;
        }
        mem.flush();
        model = next;
        let mut rows = BTreeMap::new();
        for (k, v) in mem.0.rows.borrow().iter() {
            let p = if wide {
                c.same(&k.len(), &8, "key-width")?;
                u64::from_be_bytes(k[..].try_into().unwrap()) ^ (1 << 63)
            } else {
                c.same(&k.len(), &4, "key-width")?;
                (u32::from_be_bytes(k[..].try_into().unwrap()) ^ (1 << 31)) as u64
            };
            rows.insert(p, v.clone());
        }
        stored_is(c, &rows, &model)?;
        // a damaged stored leaf is not returned as a value
        if model.size() > 0 && c.rng.chance(1, 4) {
            let i = c.rng.usize(model.leaves.len());
            let p = model.at[i];
            let key = c.must(mmr_node_key_sized(p, kind), "key")?;
            let good = mem.0.rows.borrow()[key.as_ref()].clone();
            let mut bad = good.clone();
            let j = 1 + c.rng.usize(bad.len() - 1);
            bad[j] ^= 1 << c.rng.below(8);
            mem.0.rows.borrow_mut().insert(key.as_ref().to_vec(), bad);
            let r = MMR::new(model.size(), &store).batch.element_at_position(p).value;
            c.ensure(r.is_err(), "damaged-leaf-read", || format!("{r:?}"))?;
            mem.0.rows.borrow_mut().insert(key.as_ref().to_vec(), good);
            c.count("damaged-leaves", 1);
        }
        c.count("adapter-sessions", 1);
    }
    c.eval(fnv(&model.root()) ^ wide as u64, model.leaves.len() > 1);
    Ok(())
}

// ---- positions -----------------------------------------------------------

/// number of nodes of a range of n leaves
fn nodes(n: u64) -> u128 {
    2 * n as u128 - n.count_ones() as u128
}

/// a range so large that only its mountains exist, node hashes made from positions
struct Far {
    asked: RefCell<Vec<u64>>,
}
fn far_hash(pos: u64) -> H {
    b3(&[b"far", &pos.to_be_bytes()])
}
impl MMRStoreReadOps for &Far {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, Error> {
        self.asked.borrow_mut().push(pos);
        Ok(Some(MmrNode::internal(far_hash(pos)))).wrap_with_cost(OperationCost::default())
    }
}

fn positions(c: &mut Case) -> Res {
    let n = match c.rng.below(4) {
        0 => c.idx % 5000,
        1 => c.rng.u64() >> (2 + c.rng.below(61)),
        2 => (1u64 << c.rng.below(62)).wrapping_add(c.rng.below(5)).saturating_sub(2),
        _ => ((1u64 << 62) - 1) - c.rng.below(1000),
    };
    c.note(format!("leaf {n}"));
    let size = nodes(n) as u64;
    c.same(&(leaf_to_pos(n), leaf_index_to_pos(n)), &(size, size), "leaf-position")?;
    c.same(&(leaf_to_mmr_size(n) as u128, leaf_index_to_mmr_size(n) as u128), &(nodes(n + 1), nodes(n + 1)), "size-after-leaf")?;
    c.same(&mmr_size_to_leaf_count(size), &n, "leaf-count")?;
    c.same(&hash_count_for_push(n), &(1 + (!n).trailing_zeros()), "hash-count")?;
    c.same(&mmr_node_key(size), &size.to_be_bytes(), "node-key")?;
    let k = c.must(mmr_node_key_sized(size, MmrKeySize::U64), "node-key")?;
    c.same(&k.as_ref().to_vec(), &(size | 1 << 63).to_be_bytes().to_vec(), "node-key")?;
    let k = mmr_node_key_sized(size, MmrKeySize::U32);
    if size < MAX_U32_MMR_POSITION {
        let k = c.must(k, "node-key")?;
        c.same(&k.as_ref().to_vec(), &(size as u32 | 1 << 31).to_be_bytes().to_vec(), "node-key")?;
    } else {
        c.ensure(k.is_err(), "node-key-aliased", || format!("position {size} got a short key"))?;
    }
    // mountains of n leaves: heights of the set bits, high to low
    let mut peaks: Vec<(u32, u64)> = vec![];
    let mut at: u128 = 0;
    for h in (0..64).rev() {
        if n >> h & 1 == 1 {
            at += (1u128 << (h + 1)) - 1;
            peaks.push((h, (at - 1) as u64));
        }
    }
    // append one leaf on top of it
    let far = Far { asked: RefCell::new(vec![]) };
    let mut mmr = MMR::new(size, &far);
    let v = value(&mut c.rng);
    let pos = c.must(mmr.push(MmrNode::leaf(v.clone())).value, "far-push")?;
    c.same(&pos, &size, "far-position")?;
    c.same(&(mmr.mmr_size as u128), &nodes(n + 1), "far-size")?;
    let mut hs: Vec<(u32, H)> = peaks.iter().map(|(h, p)| (*h, far_hash(*p))).collect();
    let mut new = (0, leaf(&v));
    let mut asked = vec![];
    while let Some(p) = hs.last().copied().filter(|p| p.0 == new.0) {
        hs.pop();
        asked.push(peaks[hs.len()].1);
        new = (new.0 + 1, join(&p.1, &new.1));
    }
    hs.push(new);
    c.same(&*far.asked.borrow(), &asked, "far-reads")?;
    let mut root = hs.pop().unwrap().1;
    while let Some(p) = hs.pop() {
        root = join(&root, &p.1);
    }
    let got = c.must(mmr.get_root().value, "far-root")?;
    c.same(&got.hash(), &root, "far-root")?;
    c.eval(n, n > 1);
    c.count("positions", 1);
    Ok(())
}

fn node_codec(c: &mut Case) -> Res {
    let v = value(&mut c.rng);
    let n = if c.rng.bool() { MmrNode::leaf(v.clone()) } else { MmrNode::internal(c.rng.arr32()) };
    let b = c.must(n.serialize(), "serialize")?;
    c.same(&(b.len() as u64), &n.serialized_size(), "node-size")?;
    let back = c.must(MmrNode::deserialize(&b), "deserialize")?;
    c.same(&(back.hash(), back.value().map(|x| x.to_vec())), &(n.hash(), n.value().map(|x| x.to_vec())), "node-round-trip")?;
    if n.value().is_some() {
        c.same(&n.hash(), &leaf(&v), "leaf-hash")?;
        c.same(&leaf_hash(&v), &leaf(&v), "leaf-hash")?;
    }
    let (l, r) = (c.rng.arr32(), c.rng.arr32());
    c.same(&blake3_merge(&l, &r), &join(&l, &r), "merge-hash")?;
    c.same(&MmrNode::merge(&MmrNode::internal(l), &MmrNode::internal(r)).hash(), &join(&l, &r), "merge-hash")?;
    // damaged forms
    let mut d = b.clone();
    match c.rng.below(4) {
        0 => d.truncate(c.rng.usize(d.len())),
        1 => d.push(0),
        2 => d[0] = c.rng.u64() as u8,
        _ => {
            let i = c.rng.usize(d.len());
            d[i] ^= 1 << c.rng.below(8);
        }
    }
    if let Ok(m) = MmrNode::deserialize(&d) {
        let again = c.must(m.serialize(), "serialize")?;
        c.same(&hex(&again), &hex(&d), "node-decoding-not-exact")?;
        if d[0] == 1 {
            let v = m.value().unwrap_or_default();
            c.ensure(m.hash() == leaf(v), "node-value-unbound", || hex(&d))?;
        }
    }
    c.eval(fnv(&d), d != b);
    c.count("nodes", 1);
    Ok(())
}

pub fn m01(ctx: &Ctx) {
    ctx.rule("random histories of appends, commits, abandoned sessions, overlays moved between sessions, and read and write faults, over a store that keeps serialised nodes; size, root and every stored node compared with an independent mountain range after each step; the storage-context adapter with both key widths; position arithmetic up to 2^62 leaves with a single append at that size.");
    ctx.cases("history", ctx.n(30_000, 1_500_000), history);
    ctx.cases("adapter", ctx.n(20_000, 600_000), adapter);
    ctx.cases("positions", ctx.n(200_000, 5_000_000), positions);
    ctx.cases("nodes", ctx.n(200_000, 5_000_000), node_codec);
    for (k, n) in [("appends", 10_000), ("commit-faults", 100), ("append-faults", 100), ("root-faults", 100), ("reopenings", 100), ("adapter-sessions", 1000), ("damaged-leaves", 100), ("states", 10_000)] {
        ctx.require(k, n);
    }
}

// ---- M02 -----------------------------------------------------------------

fn range(rng: &mut Rng) -> Range {
    let n = match rng.below(6) {
        0 => rng.range(1, 70),
        _ => rng.range(1, 13),
    };
    let distinct = rng.chance(9, 10);
    Range::of(&(0..n).map(|i| if distinct { vec![b'v', i as u8] } else { value(rng) }).collect::<Vec<_>>())
}
fn subset(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n as u64).collect();
    rng.shuffle(&mut v);
    let k = match rng.below(4) {
        0 => 1,
        1 => n,
        _ => 1 + rng.usize(n),
    };
    v.truncate(k);
    v
}
fn node_of(r: &Range, pos: u64) -> Option<MmrNode> {
    match r.at.iter().position(|p| *p == pos) {
        Some(i) => Some(MmrNode::leaf(r.leaves[i].clone())),
        None => r.nodes.get(pos as usize).map(|h| MmrNode::internal(*h)),
    }
}

fn honest(c: &mut Case) -> Res {
    let r = range(&mut c.rng);
    let asked = subset(&mut c.rng, r.leaves.len());
    c.note(format!("{} leaves, asked {asked:?}", r.leaves.len()));
    let p = c.must(MmrTreeProof::generate(r.size(), &asked, |pos| Ok(node_of(&r, pos))), "generate")?;
    let want: Vec<(u64, Vec<u8>)> = asked.iter().map(|i| (*i, r.leaves[*i as usize].clone())).collect();
    let got = c.must(p.verify(&r.root()), "verify")?;
    c.same(&got, &want, "verified-leaves")?;
    let (root, got) = c.must(p.verify_and_get_root(), "verify")?;
    c.same(&hex(&root), &hex(&r.root()), "verified-root")?;
    c.same(&got, &want, "verified-leaves")?;
    let b = c.must(p.encode_to_vec(), "encode")?;
    let q = c.must(MmrTreeProof::decode_from_slice(&b), "decode")?;
    c.same(&(q.mmr_size(), q.leaves().to_vec(), q.proof_items().to_vec()), &(r.size(), want.clone(), p.proof_items().to_vec()), "proof-round-trip")?;
    let other = c.rng.arr32();
    c.ensure(p.verify(&other).is_err(), "wrong-root-accepted", || "random root".into())?;
    // asking for what is not there
    let n = r.leaves.len() as u64;
    let mut bad = asked.clone();
    match c.rng.below(3) {
        0 => bad.push(n + c.rng.below(3)),
        1 => bad.push(asked[0]),
        _ => bad.clear(),
    }
    c.ensure(MmrTreeProof::generate(r.size(), &bad, |pos| Ok(node_of(&r, pos))).is_err(), "bad-request-proved", || format!("{bad:?}"))?;
    // a store that loses or fails a read never yields a proof that fails to verify
    let at = c.rng.below(r.size());
    let lose = c.rng.bool();
    let hit = Cell::new(false);
    let q = MmrTreeProof::generate(r.size(), &asked, |pos| {
        if pos == at {
            hit.set(true);
            if lose { Ok(None) } else { Err(Error::StoreError("injected fault".into())) }
        } else {
            Ok(node_of(&r, pos))
        }
    });
    c.ensure(q.is_err() == hit.get(), "fault-hidden", || format!("fault at {at} hit {} gave {q:?}", hit.get()))?;
    if hit.get() && !lose {
        c.ensure(matches!(q, Err(Error::StoreError(_))), "fault-masked", || format!("{q:?}"))?;
    }
    c.count("proofs", 1);
    c.eval(fnv(format!("{}{asked:?}", r.leaves.len()).as_bytes()), n > 1);
    if c.wants_sample() && n < 6 {
        c.sample(format!("{n} leaves, leaves {asked:?}: {} items, {} bytes", p.proof_items().len(), b.len()));
    }
    Ok(())
}

/// The general proof over positions, and its derived forms.
fn general(c: &mut Case) -> Res {
    let r = range(&mut c.rng);
    let n = r.leaves.len();
    let store = Store::new();
    let mut mmr = MMR::new(0, &store);
    for l in &r.leaves {
        c.must(mmr.push(MmrNode::leaf(l.clone())).value, "push")?;
    }
    if c.rng.bool() {
        c.must(mmr.commit().value, "commit")?;
    }
    let root = MmrNode::internal(r.root());
    let asked = subset(&mut c.rng, n);
    let mut pos: Vec<u64> = asked.iter().map(|i| r.at[*i as usize]).collect();
    if c.rng.bool() {
        pos.push(pos[0]);
    }
    let p = c.must(mmr.gen_proof(pos.clone()).value, "gen-proof")?;
    c.same(&p.mmr_size(), &r.size(), "proof-size")?;
    let leaves = |ix: &[u64]| -> Vec<(u64, MmrNode)> { ix.iter().map(|i| (r.at[*i as usize], MmrNode::leaf(r.leaves[*i as usize].clone()))).collect() };
    let ok = c.must(p.verify(root.clone(), leaves(&asked)), "verify")?;
    c.ensure(ok, "honest-refused", || format!("{n} leaves, {asked:?}"))?;
    // other leaf contents do not pass
    let mut wrong = leaves(&asked);
    let i = c.rng.usize(wrong.len());
    wrong[i].1 = MmrNode::leaf(b"something else".to_vec());
    c.ensure(!matches!(p.verify(root.clone(), wrong), Ok(true)), "wrong-leaf-accepted", || format!("{n} leaves, {asked:?}"))?;
    // not leaves
    let inner: Vec<u64> = (0..r.size()).filter(|x| !r.at.contains(x)).collect();
    let mut bad = pos.clone();
    bad.push(if !inner.is_empty() && c.rng.bool() { *c.rng.pick(&inner) } else { r.size() + c.rng.below(4) });
    c.ensure(mmr.gen_proof(bad.clone()).value.is_err(), "bad-request-proved", || format!("{bad:?} of {}", r.size()))?;
    c.ensure(mmr.gen_proof(vec![]).value.is_err(), "bad-request-proved", || "no positions".into())?;
    // one more leaf on top of a proof of the last
    let last = c.must(mmr.gen_proof(vec![r.at[n - 1]]).value, "gen-proof")?;
    let mut more = r.clone();
    more.push(b"next".to_vec());
    let got = last.calculate_root_with_new_leaf(leaves(&[n as u64 - 1]), r.size(), MmrNode::leaf(b"next".to_vec()), more.size());
    match got {
        Ok(g) => c.same(&hex(&g.hash()), &hex(&more.root()), "extended-root")?,
        Err(e) => return c.fail("extended-root", format!("{n} leaves: {e}")),
    }
    // growth from k leaves
    let k = 1 + c.rng.usize(n);
    let prev = Range::of(&r.leaves[..k]);
    if k < n {
        let ps: Vec<u64> = (k..n).map(|i| r.at[i]).collect();
        let p = c.must(mmr.gen_proof(ps).value, "gen-proof")?;
        let inc: Vec<MmrNode> = r.leaves[k..].iter().map(|l| MmrNode::leaf(l.clone())).collect();
        let ok = p.verify_incremental(root.clone(), MmrNode::internal(prev.root()), inc.clone());
        c.ensure(ok == Ok(true), "growth-refused", || format!("{k} to {n}: {ok:?}"))?;
        // a different past or different growth
        let q = 1 + c.rng.usize(n);
        if q != k {
            let other = Range::of(&r.leaves[..q]).root();
            let ok = p.verify_incremental(root.clone(), MmrNode::internal(other), inc.clone());
            c.ensure(ok != Ok(true), "wrong-past-accepted", || format!("{k} to {n}, past of {q}"))?;
        }
        let mut inc2 = inc.clone();
        if inc2.len() > 1 && inc2[0] != inc2[1] && c.rng.bool() {
            inc2.swap(0, 1);
        } else {
            inc2[0] = MmrNode::leaf(b"something else".to_vec());
        }
        let ok = p.verify_incremental(root.clone(), MmrNode::internal(prev.root()), inc2);
        c.ensure(ok != Ok(true), "wrong-growth-accepted", || format!("{k} to {n}"))?;
        c.count("growths", 1);
    }
    c.eval(fnv(format!("{n}{asked:?}{k}").as_bytes()), n > 1);
    Ok(())
}

/// node hashes an adversary can use: the range's, and the folds of its mountains
fn pool(r: &Range) -> Vec<H> {
    let mut s: BTreeSet<H> = r.nodes.iter().copied().collect();
    s.extend(r.folds());
    s.into_iter().collect()
}

fn claims_true(c: &mut Case, r: &Range, got: &VerifiedLeaves, how: &str) -> Res {
    for (i, v) in got {
        if r.leaves.get(*i as usize) != Some(v) {
            return c.fail("false-leaf-accepted", format!("{} leaves: leaf {i} shown as {} by {how}", r.leaves.len(), hex(v)));
        }
    }
    let mut seen = BTreeSet::new();
    c.ensure(got.iter().all(|x| seen.insert(x.0)), "leaf-shown-twice", || how.into())
}
fn judge(c: &mut Case, r: &Range, p: &MmrTreeProof) -> Res {
    let how = || format!("{p:?}");
    let a = p.verify(&r.root());
    let b = p.verify_and_get_root();
    c.count("attempts", 1);
    match (&a, &b) {
        (Ok(x), Ok((h, y))) if *h == r.root() => c.ensure(x == y, "verifiers-disagree", how)?,
        (Err(_), Ok((h, _))) if *h != r.root() => {}
        (Err(_), Err(_)) => {}
        _ => return c.fail("verifiers-disagree", format!("{a:?} {b:?} {}", how())),
    }
    if let Ok(x) = a {
        if p.mmr_size() == r.size() {
            c.count("accepted", 1);
            claims_true(c, r, &x, &how())?;
        }
    }
    Ok(())
}

fn tamper(c: &mut Case) -> Res {
    let r = range(&mut c.rng);
    let n = r.leaves.len();
    let asked = subset(&mut c.rng, n);
    let p = c.must(MmrTreeProof::generate(r.size(), &asked, |pos| Ok(node_of(&r, pos))), "generate")?;
    let mut leaves = p.leaves().to_vec();
    let mut items = p.proof_items().to_vec();
    let mut size = r.size();
    let pool = pool(&r);
    for _ in 0..c.rng.range(1, 4) {
        match c.rng.below(12) {
            0 if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                leaves[i].0 = if c.rng.chance(1, 6) { c.rng.edge_u64() } else { c.rng.below(n as u64 + 1) };
            }
            1 if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                leaves[i].1 = c.rng.pick(&r.leaves).clone();
            }
            2 if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                leaves.remove(i);
            }
            3 => leaves.push((c.rng.below(n as u64), c.rng.pick(&r.leaves).clone())),
            4 if !items.is_empty() => {
                let i = c.rng.usize(items.len());
                items.remove(i);
            }
            5 => {
                let i = c.rng.usize(items.len() + 1);
                items.insert(i, *c.rng.pick(&pool));
            }
            6 if !items.is_empty() => {
                let i = c.rng.usize(items.len());
                items[i] = *c.rng.pick(&pool);
            }
            7 => c.rng.shuffle(&mut items),
            8 => c.rng.shuffle(&mut leaves),
            9 if c.rng.chance(1, 3) => {
                size = c.rng.edge_u64();
                // the last leaf such a range can have
                if !leaves.is_empty() && c.rng.bool() {
                    leaves[0].0 = mmr_size_to_leaf_count(size).saturating_sub(1);
                }
            }
            10 if !leaves.is_empty() => {
                let l = c.rng.pick(&leaves).clone();
                let i = c.rng.usize(leaves.len() + 1);
                leaves.insert(i, (l.0, b"fake".to_vec()));
            }
            _ if !leaves.is_empty() => {
                let i = c.rng.usize(leaves.len());
                leaves[i].1 = b"fake".to_vec();
            }
            _ => {}
        }
    }
    let q = MmrTreeProof::new(size, leaves, items);
    c.note(format!("{q:?}"));
    judge(c, &r, &q)?;
    let mut b = c.must(q.encode_to_vec(), "encode")?;
    for _ in 0..c.rng.below(4) {
        if !b.is_empty() {
            let i = c.rng.usize(b.len());
            match c.rng.below(3) {
                0 => b[i] ^= 1 << c.rng.below(8),
                1 => b.truncate(i),
                _ => b.insert(i, c.rng.u64() as u8),
            }
        }
    }
    c.note(hex(&b));
    if let Ok(q) = MmrTreeProof::decode_from_slice(&b) {
        judge(c, &r, &q)?;
    }
    c.eval(fnv(&b), true);
    Ok(())
}

/// Every short proof of one claimed leaf built from the range's own hashes.
fn forge(c: &mut Case) -> Res {
    let n = 1 + (c.idx % 14) as usize;
    let r = Range::of(&(0..n).map(|i| vec![b'v', i as u8]).collect::<Vec<_>>());
    let pool = pool(&r);
    let claim = c.rng.below(n as u64);
    let shown = c.rng.usize(n);
    let v = r.leaves[shown].clone();
    let mut tries = 0;
    let max = if pool.len() < 12 { 4 } else { 3 };
    let mut stack: Vec<Vec<H>> = vec![vec![]];
    while let Some(items) = stack.pop() {
        let p = MmrTreeProof::new(r.size(), vec![(claim, v.clone())], items.clone());
        tries += 1;
        if let Ok((h, got)) = p.verify_and_get_root() {
            if h == r.root() {
                c.count("accepted", 1);
                claims_true(c, &r, &got, &format!("{p:?}"))?;
            }
        }
        if items.len() < max {
            for h in &pool {
                let mut i = items.clone();
                i.push(*h);
                stack.push(i);
            }
        }
    }
    c.count("forgeries", tries);
    c.eval(fnv(format!("{n} {claim} {shown}").as_bytes()), n > 1);
    Ok(())
}

/// A leaf among up to 2^60 equal ones.
fn giant(c: &mut Case) -> Res {
    let n = (c.rng.u64() >> (4 + c.rng.below(58))) + 1;
    let special = c.rng.below(n);
    let size = nodes(n) as u64;
    let mut eq = vec![leaf(b"same")];
    for h in 1..64 {
        let x = eq[h - 1];
        eq.push(join(&x, &x));
    }
    // hash of the node of height h over leaves first..first+2^h
    fn over(eq: &[H], first: u64, h: usize, special: u64) -> H {
        if special < first || special - first >= 1 << h {
            return eq[h];
        }
        if h == 0 {
            return leaf(b"special");
        }
        join(&over(eq, first, h - 1, special), &over(eq, first + (1 << (h - 1)), h - 1, special))
    }
    // the node at a position
    let at = |pos: u64| -> Option<MmrNode> {
        let (mut base, mut first) = (0u64, 0u64);
        for h in (0..62usize).rev() {
            if n >> h & 1 == 0 {
                continue;
            }
            let count = (2u64 << h) - 1;
            if pos < base + count {
                let (mut h, mut base, mut first) = (h, base, first);
                loop {
                    let count = (2u64 << h) - 1;
                    if pos == base + count - 1 {
                        return Some(if h > 0 {
                            MmrNode::internal(over(&eq, first, h, special))
                        } else if first == special {
                            MmrNode::leaf(b"special".to_vec())
                        } else {
                            MmrNode::leaf(b"same".to_vec())
                        });
                    }
                    h -= 1;
                    let half = (2u64 << h) - 1;
                    if pos >= base + half {
                        base += half;
                        first += 1 << h;
                    }
                }
            }
            base += count;
            first += 1 << h;
        }
        None
    };
    let mut root: Option<H> = None;
    let mut first = n;
    for h in 0..62usize {
        if n >> h & 1 == 1 {
            first -= 1 << h;
            let p = over(&eq, first, h, special);
            root = Some(root.map_or(p, |r| join(&r, &p)));
        }
    }
    let root = root.unwrap();
    let mut asked = BTreeSet::from([special]);
    for _ in 0..c.rng.below(4) {
        asked.insert(c.rng.below(n));
    }
    asked.insert(n - 1);
    let asked: Vec<u64> = asked.into_iter().collect();
    c.note(format!("{n} leaves, special {special}, asked {asked:?}"));
    let p = c.must(MmrTreeProof::generate(size, &asked, |pos| Ok(at(pos))), "generate")?;
    let got = c.must(p.verify(&root), "verify")?;
    let want: Vec<(u64, Vec<u8>)> = asked.iter().map(|i| (*i, if *i == special { b"special".to_vec() } else { b"same".to_vec() })).collect();
    c.same(&got, &want, "verified-leaves")?;
    // shown elsewhere
    let i = c.rng.usize(asked.len());
    let mut l = want.clone();
    l[i].1 = if asked[i] == special { b"same".to_vec() } else { b"special".to_vec() };
    let q = MmrTreeProof::new(size, l, p.proof_items().to_vec());
    c.ensure(q.verify(&root).is_err(), "false-leaf-accepted", || format!("{q:?}"))?;
    c.count("giants", 1);
    c.eval(n ^ special, true);
    Ok(())
}

pub fn m02(ctx: &Ctx) {
    ctx.rule("random ranges (1 to 70 leaves, and up to 2^60 with one special leaf) and leaf sets: honest proofs by both provers yield exactly the requested leaves, also extended by a leaf and as proofs of growth; tampered, re-indexed, duplicated, shortened and byte-damaged proofs, and every proof of up to four items made from the range's own hashes; whatever is accepted with the true root and size must show true leaves.");
    ctx.assume("a proof states its size and its verifier compares that with the size it trusts: the root alone does not fix it");
    ctx.cases("honest", ctx.n(60_000, 2_000_000), honest);
    ctx.cases("general", ctx.n(30_000, 1_000_000), general);
    ctx.cases("tamper", ctx.n(200_000, 10_000_000), tamper);
    ctx.cases("forge", ctx.n(600, 12_000), forge);
    ctx.cases("giant", ctx.n(3_000, 100_000), giant);
    for (k, n) in [("proofs", 10_000), ("attempts", 100_000), ("accepted", 1000), ("forgeries", 100_000), ("growths", 1000), ("giants", 1000)] {
        ctx.require(k, n);
    }
}
