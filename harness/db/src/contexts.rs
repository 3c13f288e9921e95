//! S01: the storage layer by itself. Random work on storage contexts of several
//! subtrees - staged in batches, applied at once, in transactions - against a
//! plain map of rows, with the work each step should report.
use crate::history::Scratch;
use crate::queries::{Key, Path};
use crate::store::{self, Rows};
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::BasicStorageRemoval;
use grovedb_costs::storage_cost::{StorageCost, key_value_cost::KeyValueStorageCost};
use grovedb_costs::{ChildrenSizesWithIsSumTree, CostContext, CostResult, OperationCost};
use grovedb_path::SubtreePath;
use grovedb_storage::rocksdb_storage::RocksDbStorage;
use grovedb_storage::worst_case_costs::WorstKeyLength;
use grovedb_storage::{Batch, RawIterator, Storage, StorageBatch, StorageContext};
use std::collections::BTreeMap;
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

type Row = (u32, Vec<u8>);
type Info = Option<KeyValueStorageCost>;
/// the sizes of the keys and sums of two children
type Children = Option<(Option<(u32, u32)>, Option<(u32, u32)>)>;
fn sizes(c: Children) -> ChildrenSizesWithIsSumTree {
    c.map(|(a, b)| (None, a, b))
}
#[derive(Clone)]
enum Staged {
    Put(Vec<u8>, Children, Info),
    Delete(Info),
}
impl std::fmt::Debug for Staged {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let i = |i: &Info| i.as_ref().map(|i| format!("{:?} {:?} new {} check {}", i.key_storage_cost, i.value_storage_cost, i.new_node, i.needs_value_verification));
        match self {
            Staged::Put(v, c, x) => write!(f, "put {} bytes {c:?} {:?}", v.len(), i(x)),
            Staged::Delete(x) => write!(f, "delete {:?}", i(x)),
        }
    }
}
type Stage = BTreeMap<Row, Staged>;

/// rows as they should be
#[derive(Default)]
struct World {
    rows: Rows,
    tx: BTreeMap<Row, Option<Vec<u8>>>,
    /// when the transaction first wrote a row, when a row was last written beside it
    first: BTreeMap<Row, u64>,
    last: BTreeMap<Row, u64>,
    now: u64,
}
impl World {
    fn see(&self, r: &Row) -> Option<&Vec<u8>> {
        match self.tx.get(r) {
            Some(v) => v.as_ref(),
            None => self.rows.get(r),
        }
    }
    fn view(&self, cf: u32) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut m: BTreeMap<&Vec<u8>, &Vec<u8>> = self.rows.iter().filter(|((c, _), _)| *c == cf).map(|((_, k), v)| (k, v)).collect();
        for ((c, k), v) in &self.tx {
            if *c == cf {
                match v {
                    Some(v) => m.insert(k, v),
                    None => m.remove(k),
                };
            }
        }
        m.into_iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    fn within(&mut self, r: Row, v: Option<Vec<u8>>) {
        self.first.entry(r.clone()).or_insert(self.now);
        self.tx.insert(r, v);
    }
    fn direct(&mut self, r: Row, v: Option<Vec<u8>>) {
        self.now += 1;
        self.last.insert(r.clone(), self.now);
        match v {
            Some(v) => self.rows.insert(r, v),
            None => self.rows.remove(&r),
        };
    }
    fn clashes(&self) -> bool {
        self.first.iter().any(|(r, t)| self.last.get(r).is_some_and(|l| l > t))
    }
    fn forget(&mut self) {
        self.tx.clear();
        self.first.clear();
    }
}
fn stage(s: &mut Stage, r: Row, op: Staged) {
    match op {
        Staged::Put(..) => {
            s.insert(r, op);
        }
        Staged::Delete(_) => {
            s.entry(r).or_insert(op);
        }
    }
}
fn varint(n: usize) -> u32 {
    let (mut n, mut l) = (n >> 7, 1);
    while n > 0 {
        n >>= 7;
        l += 1;
    }
    l
}
/// what committing a batch should report: (when it works, when it does not)
fn price(w: &World, s: &Stage) -> Result<OperationCost, ()> {
    let mut c = OperationCost::default();
    for ((cf, k), op) in s {
        match op {
            Staged::Put(v, children, info) => {
                c.seek_count += 1;
                if *cf == 2 && info.is_none() {
                    continue;
                }
                c.add_key_value_storage_costs(k.len() as u32, v.len() as u32, if *cf == 0 { sizes(*children) } else { None }, info.clone()).map_err(|_| ())?;
            }
            Staged::Delete(Some(i)) => {
                c.seek_count += 1;
                c.storage_cost.removed_bytes += i.key_storage_cost.removed_bytes.clone() + i.value_storage_cost.removed_bytes.clone();
            }
            Staged::Delete(None) => {
                c.seek_count += 2;
                let n = w.rows.get(&(*cf, k.clone())).map_or(0, |v| v.len());
                c.storage_loaded_bytes += n as u64;
                c.storage_cost.removed_bytes += BasicStorageRemoval((k.len() + n) as u32 + varint(k.len()) + varint(n));
            }
        }
    }
    Ok(c)
}
/// what a caller might say a write of a key of `n` bytes costs; `own` when the
/// batch itself adds what a new key takes
fn info(r: &mut Rng, n: usize, own: bool) -> Info {
    let mut part = || StorageCost { added_bytes: r.below(300) as u32, replaced_bytes: r.below(300) as u32, removed_bytes: BasicStorageRemoval(r.below(100) as u32) };
    let (mut k, v) = (part(), part());
    let new_node = r.bool();
    if new_node && !r.chance(1, 30) {
        k.added_bytes = if own { 0 } else { n as u32 + varint(n) };
        k.replaced_bytes = 0;
    }
    r.bool().then(|| KeyValueStorageCost { key_storage_cost: k, value_storage_cost: v, new_node, needs_value_verification: r.chance(1, 40) })
}
fn children(r: &mut Rng) -> Children {
    let mut one = || r.bool().then(|| (r.below(40) as u32, r.below(9) as u32));
    let (a, b) = (one(), one());
    r.chance(1, 3).then_some((a, b))
}
fn key(r: &mut Rng) -> Key {
    match r.below(12) {
        0 => vec![],
        1 => vec![0xff; 1 + r.usize(3)],
        2 => vec![0; 1 + r.usize(2)],
        3 => {
            let n = r.range(4, 255) as usize;
            r.bytes(n)
        }
        _ => (0..1 + r.usize(2)).map(|_| b'a' + r.below(4) as u8).collect(),
    }
}
fn value(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(120, 140) as usize,
        2 => r.range(300, 20_000) as usize,
        _ => r.usize(20),
    };
    r.bytes(n)
}
struct Long(u8);
impl WorstKeyLength for Long {
    fn max_length(&self) -> u8 {
        self.0
    }
}
/// a subtree: by its path, or by a prefix that lies next to another
#[derive(Clone, Debug)]
enum Place {
    At(Path),
    Raw([u8; 32]),
}
impl Place {
    fn prefix(&self) -> [u8; 32] {
        match self {
            Place::At(p) => store::prefix(p),
            Place::Raw(p) => *p,
        }
    }
}
fn places(r: &mut Rng) -> Vec<Place> {
    let mut v = vec![Place::At(vec![])];
    for _ in 0..3 {
        let n = 1 + r.usize(3);
        v.push(Place::At((0..n).map(|_| key(r)).collect()));
    }
    for _ in 0..3 {
        let mut p = if r.bool() { r.pick(&v).prefix() } else { r.arr32() };
        if r.bool() {
            let n = 1 + r.usize(3);
            p[32 - n..].fill(0xff);
        }
        if r.chance(1, 8) {
            p = [0xff; 32];
            p[r.usize(31)] = 0xfe;
        }
        v.push(Place::Raw(p));
        // the prefix that follows
        if let Some(i) = p.iter().rposition(|b| *b != 0xff) {
            let mut q = p;
            q[i] += 1;
            q[i + 1..].fill(0);
            v.push(Place::Raw(q));
        }
    }
    v.retain(|p| p.prefix() != [0xff; 32]);
    v
}
fn long(p: &[u8; 32], k: &[u8]) -> Vec<u8> {
    [p, k].concat()
}
fn sp(p: &Path) -> Vec<&[u8]> {
    p.iter().map(|k| &k[..]).collect()
}
fn costs<T>(x: CostContext<T>) -> (T, OperationCost) {
    (x.value, x.cost)
}
fn seek(n: u32) -> OperationCost {
    OperationCost { seek_count: n, ..Default::default() }
}
fn read(n: usize) -> OperationCost {
    OperationCost { seek_count: 1, storage_loaded_bytes: n as u64, ..Default::default() }
}
fn look(n: usize) -> OperationCost {
    OperationCost { storage_loaded_bytes: n as u64, ..Default::default() }
}

/// every read of a context agrees with the rows; `paid` tells whether it reports its work
fn reads<'a, C: StorageContext<'a>>(c: &mut Case, w: &World, p: &[u8; 32], x: &C, paid: bool) -> Res {
    for _ in 0..4 {
        let k = pick_key(&mut c.rng, w, p);
        let full = long(p, &k);
        for cf in 0..4u32 {
            let got = match cf {
                0 => x.get(&k),
                1 => x.get_aux(&k),
                2 => x.get_root(&k),
                _ => x.get_meta(&k),
            };
            let (got, cost) = costs(got);
            let got = c.must(got.map_err(|e| e.to_string()), "read-error")?;
            let want = w.see(&(cf, full.clone()));
            c.ensure(got.as_ref() == want, "read-wrong", || format!("column {cf} {}: {got:?} instead of {want:?}", hex(&full)))?;
            if paid {
                c.same(&cost, &read(want.map_or(0, |v| v.len())), "read-cost")?;
            }
            c.count(if want.is_some() { "rows read" } else { "absences read" }, 1);
        }
    }
    Ok(())
}
fn pick_key(r: &mut Rng, w: &World, p: &[u8; 32]) -> Key {
    if r.chance(2, 3) {
        let have: Vec<Key> = w.rows.keys().chain(w.tx.keys()).filter(|(_, k)| k.starts_with(p)).map(|(_, k)| k[32..].to_vec()).collect();
        if !have.is_empty() {
            return r.pick(&have).clone();
        }
    }
    key(r)
}
/// a walk of an iterator
fn walk<I: RawIterator>(c: &mut Case, w: &World, p: &[u8; 32], mut it: I) -> Res {
    let all = w.view(0);
    let inside = |i: Option<usize>| i.filter(|i| all[*i].0.starts_with(p));
    let mut at: Option<usize> = None;
    let mut last;
    for step in 0..3 + c.rng.usize(12) {
        let todo = if step == 0 { c.rng.below(4) } else { c.rng.below(10) };
        let done = match todo {
            0 => {
                at = all.iter().position(|(k, _)| k[..] >= p[..]);
                last = "seek_to_first";
                it.seek_to_first()
            }
            1 => {
                at = all.iter().rposition(|(k, _)| k[..32] <= p[..]);
                // one past the last row of the subtree may be the next prefix itself
                if let Some(i) = p.iter().rposition(|b| *b != 0xff) {
                    let mut q = *p;
                    q[i] += 1;
                    q[i + 1..].fill(0);
                    at = all.iter().rposition(|(k, _)| k[..] <= q[..]);
                }
                last = "seek_to_last";
                it.seek_to_last()
            }
            2 => {
                let k = pick_key(&mut c.rng, w, p);
                let f = long(p, &k);
                at = all.iter().position(|(k, _)| *k >= f);
                last = "seek";
                it.seek(&k)
            }
            3 => {
                let k = pick_key(&mut c.rng, w, p);
                let f = long(p, &k);
                at = all.iter().rposition(|(k, _)| *k <= f);
                last = "seek_for_prev";
                it.seek_for_prev(&k)
            }
            // an iterator past either end is not moved on
            n if at.is_none() => {
                let _ = n;
                continue;
            }
            n if n % 2 == 0 => {
                at = at.map(|i| i + 1).filter(|i| *i < all.len());
                last = "next";
                it.next()
            }
            _ => {
                at = at.and_then(|i| i.checked_sub(1));
                last = "prev";
                it.prev()
            }
        };
        c.same(&done.cost, &seek(1), "iterator-move-cost")?;
        let want = inside(at).map(|i| &all[i]);
        let (valid, vc) = costs(it.valid());
        let (k, kc) = costs(it.key());
        let k = k.map(|k| k.to_vec());
        let (v, lc) = costs(it.value());
        let v = v.map(|v| v.to_vec());
        let seen = (valid, k.clone(), v.clone());
        let should = (want.is_some(), want.map(|(k, _)| k[32..].to_vec()), want.map(|(_, v)| v.clone()));
        c.ensure(seen == should, "iterator-wrong", || format!("{last} below {}: {seen:?} instead of {should:?}", hex(p)))?;
        let n = want.map_or(288, |(k, _)| k.len());
        c.ensure(vc == look(n) && kc == look(n), "iterator-look-cost", || format!("{last}: {vc:?} {kc:?}, not {n} bytes"))?;
        c.same(&lc, &look(n + want.map_or(0, |(_, v)| v.len())), "iterator-value-cost")?;
        c.count(if want.is_some() { "iterator rows" } else { "iterator ends" }, 1);
    }
    Ok(())
}
/// a few writes through a context
fn writes<'a, C: StorageContext<'a>>(c: &mut Case, w: &World, p: &[u8; 32], x: &C) -> Res<Vec<(Row, Staged, CostResult<(), String>)>> {
    let mut out = vec![];
    for _ in 0..1 + c.rng.usize(4) {
        let k = pick_key(&mut c.rng, w, p);
        let cf = c.rng.below(4) as u32;
        let i = info(&mut c.rng, 32 + k.len(), false);
        let (op, r) = if c.rng.chance(3, 5) {
            let v = value(&mut c.rng);
            let ch = children(&mut c.rng);
            let r = match cf {
                0 => x.put(&k, &v, sizes(ch), i.clone()),
                1 => x.put_aux(&k, &v, i.clone()),
                2 => x.put_root(&k, &v, i.clone()),
                _ => x.put_meta(&k, &v, i.clone()),
            };
            (Staged::Put(v, ch, i), r)
        } else {
            let r = match cf {
                0 => x.delete(&k, i.clone()),
                1 => x.delete_aux(&k, i.clone()),
                2 => x.delete_root(&k, i.clone()),
                _ => x.delete_meta(&k, i.clone()),
            };
            (Staged::Delete(i), r)
        };
        let r = r.map_err(|e| e.to_string());
        out.push(((cf, long(p, &k)), op, r));
    }
    Ok(out)
}
/// a few writes into a context's own batch; what they ask for, in order
fn part<B: Batch>(c: &mut Case, w: &World, p: &[u8; 32], b: &mut B) -> (Vec<(Row, Staged)>, bool) {
    let mut out = vec![];
    let mut ok = true;
    for _ in 0..c.rng.usize(5) {
        let k = pick_key(&mut c.rng, w, p);
        let cf = c.rng.below(3) as u32;
        let full = long(p, &k);
        let mut i = info(&mut c.rng, full.len(), cf == 0);
        let op = if c.rng.chance(3, 5) {
            let v = value(&mut c.rng);
            let ch = children(&mut c.rng);
            let r = match cf {
                0 => b.put(&k, &v, sizes(ch), i.clone()),
                1 => b.put_aux(&k, &v, i.clone()),
                _ => b.put_root(&k, &v, i.clone()),
            };
            if cf == 0
                && let Some(i) = &mut i
                && i.new_node
            {
                i.key_storage_cost.added_bytes += full.len() as u32 + varint(full.len());
            }
            if r.is_err() {
                // refused for its cost: not part of the batch
                ok = false;
                continue;
            }
            Staged::Put(v, ch, i)
        } else {
            match cf {
                0 => b.delete(&k, i.clone()),
                1 => b.delete_aux(&k, i.clone()),
                _ => b.delete_root(&k, i.clone()),
            }
            Staged::Delete(i)
        };
        out.push(((cf, full), op));
    }
    (out, ok)
}
macro_rules! open {
    ($s:expr, $at:expr, $batch:expr, $tx:expr) => {
        match $at {
            Place::At(p) => $s.get_transactional_storage_context(SubtreePath::from(&sp(p)[..]), $batch, $tx),
            Place::Raw(p) => $s.get_transactional_storage_context_by_subtree_prefix(*p, $batch, $tx),
        }
    };
}

fn layer(c: &mut Case) -> Res {
    let dir = Scratch::new();
    let at = dir.sub("db");
    let mut w = World::default();
    let pool = places(&mut c.rng);
    let sessions = 1 + c.rng.usize(3);
    for n in 0..sessions {
        let s = c.must(RocksDbStorage::default_rocksdb_with_path(&at).map_err(|e| e.to_string()), "open-error")?;
        let txs = 1 + c.rng.usize(3);
        for _ in 0..txs {
            session(c, &s, &at, &mut w, &pool)?;
        }
        let got = store::rows(&at);
        c.ensure(got == w.rows, "rows-wrong", || diff(&got, &w.rows))?;
        match c.rng.below(8) {
            0 => {
                let copy = dir.sub(&format!("copy{n}"));
                c.must(s.create_checkpoint(&copy).map_err(|e| e.to_string()), "checkpoint-error")?;
                {
                    let k = c.must(RocksDbStorage::checkpoint_rocksdb_with_path(&copy).map_err(|e| e.to_string()), "checkpoint-open-error")?;
                    let tx = k.start_transaction();
                    for p in &pool {
                        let (x, _) = costs(open!(k, p, None, &tx));
                        reads(c, &w, &p.prefix(), &x, true)?;
                    }
                }
                let got = store::rows(&copy);
                rocksdb::shim::forget(&copy);
                c.ensure(got == w.rows, "checkpoint-differs", || diff(&got, &w.rows))?;
                c.count("checkpoints", 1);
            }
            1 => {
                c.must(s.wipe().map_err(|e| e.to_string()), "wipe-error")?;
                w.rows.clear();
                let got = store::rows(&at);
                c.ensure(got.is_empty(), "wipe-leaves", || diff(&got, &w.rows))?;
                c.count("wipes", 1);
            }
            2 => c.must(s.flush().map_err(|e| e.to_string()), "flush-error")?,
            _ => {}
        }
    }
    Ok(())
}
fn diff(got: &Rows, want: &Rows) -> String {
    let mut s = String::new();
    for (k, v) in got {
        if want.get(k) != Some(v) {
            s += &format!("stored but not expected: {} {} = {} bytes\n", k.0, hex(&k.1), v.len());
        }
    }
    for (k, v) in want {
        if got.get(k) != Some(v) {
            s += &format!("expected but not stored: {} {} = {} bytes\n", k.0, hex(&k.1), v.len());
        }
    }
    s
}
/// one transaction and what happens beside it
fn session(c: &mut Case, s: &RocksDbStorage, at: &std::path::Path, w: &mut World, pool: &[Place]) -> Res {
    let tx = s.start_transaction();
    w.forget();
    for _ in 0..1 + c.rng.usize(5) {
        let batch = StorageBatch::new();
        let mut st = Stage::new();
        for _ in 0..1 + c.rng.usize(4) {
            let place = c.rng.pick(pool).clone();
            let p = place.prefix();
            match c.rng.below(8) {
                // without a batch nothing can be written
                0 => {
                    let (x, _) = costs(open!(s, &place, None, &tx));
                    reads(c, w, &p, &x, true)?;
                    for (_, _, r) in writes(c, w, &p, &x)? {
                        c.ensure(r.value.is_err(), "written-without-batch", || "a context without a batch took a write".into())?;
                    }
                    let mut b = x.new_batch();
                    part(c, w, &p, &mut b);
                    c.ensure(x.commit_batch(b).value.is_err(), "written-without-batch", || "a context without a batch took a batch".into())?;
                    c.count("refused writes", 1);
                }
                // at once, into the transaction
                1 => {
                    let x = match &place {
                        Place::At(p) => s.get_immediate_storage_context(SubtreePath::from(&sp(p)[..]), &tx),
                        Place::Raw(p) => s.get_immediate_storage_context_by_subtree_prefix(*p, &tx),
                    };
                    let x = x.value;
                    for (r, op, res) in writes(c, w, &p, &x)? {
                        c.must(res.value, "immediate-write-error")?;
                        w.within(r, if let Staged::Put(v, ..) = op { Some(v) } else { None });
                    }
                    let mut b = x.new_batch();
                    let (ops, all) = part(c, w, &p, &mut b);
                    if c.rng.chance(3, 4) {
                        let (r, cost) = costs(x.commit_batch(b));
                        c.must(r.map_err(|e| e.to_string()), "immediate-batch-error")?;
                        let mut want = OperationCost::default();
                        let mut known = all;
                        for (r, op) in ops {
                            match op {
                                Staged::Put(v, ch, i) => {
                                    want.seek_count += 1;
                                    if r.0 != 2 || i.is_some() {
                                        known &= want.add_key_value_storage_costs(r.1.len() as u32, v.len() as u32, if r.0 == 0 { sizes(ch) } else { None }, i).is_ok();
                                    }
                                    w.within(r, Some(v));
                                }
                                Staged::Delete(i) => {
                                    want.seek_count += 1;
                                    if let Some(i) = i {
                                        want.storage_cost.removed_bytes += i.key_storage_cost.removed_bytes + i.value_storage_cost.removed_bytes;
                                    }
                                    w.within(r, None);
                                }
                            }
                        }
                        c.ensure(!known || cost == want, "immediate-batch-cost", || format!("{cost:?}\ninstead of\n{want:?}"))?;
                        c.count("immediate batches", 1);
                    }
                    reads(c, w, &p, &x, false)?;
                    walk(c, w, &p, x.raw_iter())?;
                }
                // everything below a prefix
                2 => {
                    let mut x = open!(s, &place, Some(&batch), &tx).value;
                    c.must(x.clear().value.map_err(|e| e.to_string()), "clear-error")?;
                    for (k, _) in w.view(0) {
                        if k.starts_with(&p) {
                            stage(&mut st, (0, k), Staged::Delete(None));
                        }
                    }
                    c.count("clears", 1);
                }
                // a part of its own, kept or dropped
                3 | 4 => {
                    let x = open!(s, &place, Some(&batch), &tx).value;
                    let mut b = x.new_batch();
                    let (ops, ok) = part(c, w, &p, &mut b);
                    c.ensure(ok, "staged-write-refused", || "a staged write was refused".into())?;
                    if c.rng.chance(3, 4) {
                        let (r, cost) = costs(x.commit_batch(b));
                        c.must(r.map_err(|e| e.to_string()), "part-commit-error")?;
                        c.same(&cost, &OperationCost::default(), "part-commit-cost")?;
                        // inside the part first, then into the batch
                        let mut own = Stage::new();
                        for (r, op) in ops {
                            stage(&mut own, r, op);
                        }
                        for (r, op) in own {
                            stage(&mut st, r, op);
                        }
                        c.count("parts", 1);
                    }
                }
                _ => {
                    let (x, cost) = costs(open!(s, &place, Some(&batch), &tx));
                    if let Place::At(path) = &place {
                        let worst = <RocksDbStorage as Storage>::get_storage_context_cost(&path.iter().map(|k| Long(k.len() as u8)).collect::<Vec<_>>());
                        c.same(&cost, &worst, "context-cost")?;
                    }
                    for (r, op, res) in writes(c, w, &p, &x)? {
                        c.same(&res.cost, &OperationCost::default(), "staged-write-cost")?;
                        c.must(res.value, "staged-write-error")?;
                        stage(&mut st, r, op);
                    }
                    // nothing of it is seen yet
                    reads(c, w, &p, &x, true)?;
                    walk(c, w, &p, x.raw_iter())?;
                }
            }
            c.same(&batch.len(), &st.len(), "batch-length")?;
            c.same(&batch.is_empty(), &st.is_empty(), "batch-empty")?;
        }
        let to = c.rng.below(5);
        let price = price(w, &st);
        match to {
            0 => drop(batch),
            _ => {
                let inside = to > 2;
                let (r, cost) = costs(s.commit_multi_context_batch(batch, inside.then_some(&tx)));
                match (r, price) {
                    (Ok(()), Ok(want)) => {
                        c.ensure(cost == want, "batch-cost", || format!("{st:?}\n{cost:?}\ninstead of\n{want:?}"))?;
                        for (r, op) in &st {
                            let v = if let Staged::Put(v, ..) = op { Some(v.clone()) } else { None };
                            if inside { w.within(r.clone(), v) } else { w.direct(r.clone(), v) }
                        }
                        c.count(if inside { "batches into the transaction" } else { "batches beside it" }, 1);
                        c.eval(fnv(format!("{st:?}").as_bytes()), st.len() > 1);
                    }
                    (Err(_), Err(())) => c.count("batches refused for their costs", 1),
                    (r, p) => return c.fail("batch-outcome", format!("{r:?} where the costs say {p:?}")),
                }
            }
        }
        let place = c.rng.pick(pool).clone();
        let x = open!(s, &place, None, &tx).value;
        reads(c, w, &place.prefix(), &x, true)?;
        walk(c, w, &place.prefix(), x.raw_iter())?;
        let got = store::rows(at);
        c.ensure(got == w.rows, "rows-wrong", || diff(&got, &w.rows))?;
    }
    match c.rng.below(5) {
        0 => {
            c.must(s.rollback_transaction(&tx).map_err(|e| e.to_string()), "rollback-error")?;
            w.forget();
            let place = c.rng.pick(pool).clone();
            let x = open!(s, &place, None, &tx).value;
            reads(c, w, &place.prefix(), &x, true)?;
            c.count("rollbacks", 1);
        }
        1 => {
            drop(tx);
            w.forget();
        }
        _ => {
            let clash = w.clashes();
            let r = s.commit_transaction(tx).value;
            c.ensure(r.is_err() == clash, "commit-outcome", || format!("{r:?}, rows written on both sides: {clash}"))?;
            if !clash {
                for (r, v) in std::mem::take(&mut w.tx) {
                    w.direct(r, v);
                }
                c.count("commits", 1);
            } else {
                c.count("commits refused", 1);
            }
            w.forget();
        }
    }
    Ok(())
}
/// different paths never share their rows
fn prefixes(c: &mut Case) -> Res {
    let mut seen: BTreeMap<[u8; 32], Path> = BTreeMap::new();
    for _ in 0..300 {
        let n = c.rng.usize(5);
        let p: Path = (0..n).map(|_| { let l = c.rng.usize(4); (0..l).map(|_| *c.rng.pick(&[0u8, 1, 2, b'a'])).collect() }).collect();
        let (x, cost) = costs(RocksDbStorage::build_prefix(SubtreePath::from(&sp(&p)[..])));
        c.same(&x, &store::prefix(&p), "prefix-changed")?;
        let body = p.iter().map(|k| k.len() + 1).sum::<usize>() + 8;
        c.same(&cost.hash_node_calls, &if p.is_empty() { 0 } else { body.div_ceil(64) as u32 }, "prefix-cost")?;
        if let Some(q) = seen.insert(x, p.clone()) {
            c.ensure(q == p, "paths-share-rows", || format!("{q:?} and {p:?}"))?;
        }
    }
    c.count("prefixes", seen.len() as u64);
    c.eval(c.idx, true);
    Ok(())
}
pub fn s01(ctx: &Ctx) {
    ctx.rule("contexts of up to a dozen subtrees, some with neighbouring prefixes, used in sessions of up to three transactions with up to five batches each: writes staged in batches and parts, at once, refused; every read and iterator move after each compared with a plain map of rows, every reported cost with the rows it touched; commits inside and beside the transaction, rollbacks, clashes, reopening, checkpoints, wipes.");
    ctx.assume("the store is a stand-in for RocksDB; an all-0xff prefix does not occur");
    ctx.cases("layer", ctx.n(4_000, 150_000), layer);
    ctx.cases("prefixes", ctx.n(40, 2_000), prefixes);
    for (k, n) in [("rows read", 20_000), ("absences read", 20_000), ("iterator rows", 20_000), ("iterator ends", 5_000), ("refused writes", 500), ("immediate batches", 500), ("clears", 500), ("parts", 500), ("batches into the transaction", 1000), ("batches beside it", 1000), ("batches refused for their costs", 50), ("commits", 500), ("commits refused", 20), ("rollbacks", 200), ("checkpoints", 50), ("wipes", 50)] {
        ctx.require(k, n);
    }
}
