//! Histories of steps on a real database, checked against the model after every step.
use crate::model::{Key, Path, Tree, Want};
use crate::models::b3;
use crate::obs::{Bad, Obs, V, ensure, fail, must};
use crate::reads::{queries, reads, show_path};
use crate::sim::{self, ALL, BOp, Op, Out, Pred, State, issue, predict, v};
use crate::store::{self, Found, Rows, rows};
use crate::world::value_hash;
use grovedb::{GroveDb, Transaction};
use rocksdb::shim::{Fault, control};
use std::collections::BTreeMap;
use std::path::{Path as Path_, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vcommon::{Case, Res, Rng, catch, fnv, hex};

static NEXT: AtomicU64 = AtomicU64::new(0);
/// a directory of its own, removed with it
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("vdb-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn sub(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        rocksdb::shim::forget(&self.0);
        rocksdb::shim::forget(&self.0.join("db"));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Write,
    Read,
    TxOp,
}
#[derive(Clone, Debug)]
pub enum Step {
    Op(Op),
    Reads,
    Queries(usize),
    Proofs(usize),
    Verify,
    Reopen,
    /// everything is removed
    Wipe,
    /// begins a transaction
    Begin,
    InTx(Op),
    TxReads,
    Commit,
    Rollback,
    DropTx,
    /// the storage event with this number from here on fails
    Faulty(Kind, u64, Op),
    /// the process ends at the write with this number from here on
    Crash(Fault, u64, Op),
    Checkpoint,
    Checkpoints,
    /// the batch is applied to a copy as well, differently
    Twin(Op, u64),
    /// the costs reported so far are those of the contents
    Ledger,
    /// another database receives the state; how, and what is done to a chunk
    Sync(usize, Option<u64>),
}
/// numbers in brackets are bytes; shown in hexadecimal
pub fn hexed(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('[') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some(j) = rest.find(']') else { break };
        let inner = &rest[1..j];
        let parts: Option<Vec<u8>> = if inner.is_empty() { None } else { inner.split(", ").map(|x| x.parse().ok()).collect() };
        match parts {
            Some(b) => out.push_str(&hex(&b)),
            None => {
                out.push('[');
                rest = &rest[1..];
                continue;
            }
        }
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    out
}
pub fn show<T: std::fmt::Debug>(op: &T) -> String {
    hexed(&format!("{op:?}")).chars().take(3000).collect()
}

pub struct Tx {
    tx: Option<Transaction<'static>>,
    s: State,
    root: Option<[u8; 32]>,
    /// something was done in it
    wrote: bool,
    changed: bool,
    /// what was changed meanwhile: something may have been, or has been
    disturbed: bool,
    overtaken: bool,
}
pub struct Lab {
    pub dir: PathBuf,
    tx: Option<Tx>,
    pub db: Option<Box<GroveDb>>,
    pub s: State,
    pub o: Obs,
    pub found: Option<Found>,
    copies: Vec<(PathBuf, State)>,
    roots: BTreeMap<[u8; 32], u64>,
    /// the hash recorded with each reference
    recorded: BTreeMap<(Path, Key), [u8; 32]>,
    next: usize,
    scratch: Scratch,
    /// what the operations say they added, less what they say they removed
    charged: Option<i64>,
    /// the last operation carried out, what it was applied to, and its costs
    cost: Option<(Op, Tree, grovedb_costs::OperationCost)>,
}
impl Drop for Lab {
    fn drop(&mut self) {
        // the transaction first
        self.tx = None;
    }
}
pub fn open(dir: &Path_) -> V<Box<GroveDb>> {
    must(GroveDb::open(dir), "opening-fails").map(Box::new)
}
impl Lab {
    pub fn new(seed: u64) -> Lab {
        let scratch = Scratch::new();
        let dir = scratch.sub("db");
        let db = Some(Box::new(GroveDb::open(&dir).expect("opens")));
        Lab { dir, tx: None, db, s: State::new(), o: Obs::new(seed), found: None, copies: vec![], roots: BTreeMap::new(), recorded: BTreeMap::new(), next: 0, scratch, charged: Some(0), cost: None }
    }
    pub fn db(&self) -> &GroveDb {
        self.db.as_ref().unwrap()
    }
    fn fresh(&mut self) -> PathBuf {
        self.next += 1;
        self.scratch.sub(&format!("copy{}", self.next))
    }
    /// does something with the database and the observations
    fn with<T>(&mut self, f: impl FnOnce(&mut Self, &GroveDb) -> T) -> T {
        let db = self.db.take().unwrap();
        let r = f(self, &db);
        self.db = Some(db);
        r
    }
    fn with_found<T>(&mut self, f: impl FnOnce(&mut Self, &GroveDb, &Found) -> T) -> V<T> {
        let found = self.found()?;
        let r = self.with(|l, db| f(l, db, &found));
        self.found = Some(found);
        Ok(r)
    }
    pub fn in_tx(&self) -> Option<&State> {
        self.tx.as_ref().filter(|t| !(t.wrote && t.disturbed)).map(|t| &t.s)
    }
    pub fn open_tx(&self) -> bool {
        self.tx.is_some()
    }
    /// the operation was predicted to lead to this and was, or was not, carried out
    fn settle(&mut self, op: &Op, p: Pred, got: &Result<Out, grovedb::Error>, before: &Rows) -> V<bool> {
        let ok = judge(op, &p, got)?;
        self.o.count(if ok { "operations applied" } else { "operations refused" }, 1);
        if p.want == Want::Any {
            self.o.count("operations of open outcome", 1);
        }
        if ok {
            self.overtake(&p.after);
            self.s = p.after;
        } else {
            ensure(rows(&self.dir) == *before, &format!("refused {} changes the store", op.name()), || show(op))?;
        }
        self.audit()?;
        self.references(if ok { &p.refs } else { &[] })?;
        self.o.eval(state_key(&self.s.tree), ok);
        Ok(ok)
    }
    /// an open transaction and a change made beside it
    fn overtake(&mut self, after: &State) {
        if let Some(t) = &mut self.tx {
            if t.wrote {
                t.disturbed = true;
                t.overtaken |= after.tree != self.s.tree;
            } else {
                // a transaction that did nothing yet goes on from what is there
                t.s = after.clone();
                t.root = None;
            }
        }
    }
    /// references written now record the hash of what they point to; the others stay as they were
    fn references(&mut self, written: &[(Path, Key)]) -> V {
        let Some(f) = &self.found else { return Ok(()) };
        for (at, h) in &f.refs {
            if written.contains(at) {
                let e = f.world.entry(&at.0, &at.1).unwrap();
                if let (Some(target), Ok((_, n))) = (&e.target, self.s.tree.read(&at.0, &at.1)) {
                    let want = b3(&[&value_hash(&e.value), &value_hash(target)]);
                    // what a tree's element holds besides its contents is not compared
                    if !n.is_tree() {
                        ensure(*h == want, "recorded-hash-differs", || format!("{} / {} does not record the hash of its target", show_path(&at.0), hex(&at.1)))?;
                        self.o.count("references recorded", 1);
                    }
                }
            } else if let Some(old) = self.recorded.get(at) {
                ensure(old == h, "recorded-hash-changes", || format!("{} / {}", show_path(&at.0), hex(&at.1)))?;
            }
        }
        self.recorded = f.refs.clone();
        Ok(())
    }
    pub fn step(&mut self, s: &Step) -> V {
        match s {
            Step::Op(op) => {
                if self.tx.is_some() && matches!(op, Op::PutAux(..) | Op::DeleteAux(..)) {
                    return Ok(());
                }
                let before = rows(&self.dir);
                let p = predict(&self.s, op);
                if p.want == Want::Skip {
                    return Ok(());
                }
                let (got, cost) = issue(self.db(), None, op);
                let old = self.s.tree.clone();
                let afresh = crate::costs::wholesale(op, &old) || crate::costs::stray(&old) || crate::costs::stray(&p.after.tree);
                if self.settle(op, p, &got, &before)? {
                    self.charged = if afresh { None } else { self.charged.map(|x| x + crate::costs::net(&cost)) };
                    self.cost = Some((op.clone(), old, cost));
                }
            }
            Step::Ledger => {
                if let Some((op, old, cost)) = self.cost.take() {
                    crate::costs::plausible(&mut self.o, &old, &op, &cost)?;
                }
                let d = self.fresh();
                let t = self.s.tree.clone();
                let want = crate::costs::built(&d, &t, &mut self.o.rng)?;
                self.o.count(if self.charged.is_some() { "accounts compared" } else { "accounts started afresh" }, 1);
                let have = *self.charged.get_or_insert(want);
                ensure(want == have, "account-differs-from-contents", || format!("{have} bytes added in all, building the contents adds {want}"))?;
                rocksdb::shim::forget(&d);
                let _ = std::fs::remove_dir_all(&d);
            }
            Step::Reads => {
                let s = self.s.clone();
                self.with(|l, db| reads(&mut l.o, db, None, &s.tree, &s.aux))?;
            }
            Step::Queries(n) => {
                let f = self.found()?;
                let r = self.with(|l, db| queries(&mut l.o, db, None, &f.world, *n));
                self.found = Some(f);
                r?;
            }
            Step::Proofs(n) => {
                let f = self.found()?;
                let r = self.with(|l, db| {
                    crate::prove::proofs(&mut l.o, db, &f.world, &f.root, *n)?;
                    crate::prove::chunks(&mut l.o, db, &f.world, &f.root)
                });
                self.found = Some(f);
                r?;
            }
            Step::Verify => {
                let r = self.db().verify_grovedb(None, false, true, v());
                let issues = must(r, "verify-fails")?;
                ensure(issues.is_empty(), "verify-finds-issues", || format!("{} issues, first at {:?}", issues.len(), issues.keys().next()))?;
                self.o.count("integrity verifications", 1);
            }
            Step::Reopen => {
                self.tx = None;
                self.db = None;
                self.db = Some(open(&self.dir)?);
                self.audit()?;
                self.o.count("reopenings", 1);
            }
            Step::Wipe => {
                if self.tx.is_some() {
                    return Ok(());
                }
                must(self.db().wipe(), "wiping-fails")?;
                self.s = State::new();
                self.recorded.clear();
                (self.charged, self.cost) = (Some(0), None);
                let left = rows(&self.dir);
                ensure(left.is_empty(), "wiping-leaves-rows", || format!("{} rows", left.len()))?;
                self.audit()?;
                self.o.count("databases wiped", 1);
            }
            Step::Begin => {
                self.tx = None;
                // SAFETY: the database is boxed and the transaction is dropped before it
                let tx: Transaction<'static> = unsafe { std::mem::transmute(self.db().start_transaction()) };
                self.tx = Some(Tx { tx: Some(tx), s: self.s.clone(), root: None, wrote: false, changed: false, disturbed: false, overtaken: false });
                self.o.count("transactions begun", 1);
            }
            Step::InTx(op) => {
                let Some(mut t) = self.tx.take() else { return Ok(()) };
                let r = self.tx_op(&mut t, op);
                self.tx = Some(t);
                r?;
            }
            Step::TxReads => {
                let Some(t) = self.tx.take() else { return Ok(()) };
                let r = if t.wrote && t.disturbed { Ok(()) } else { self.with(|l, db| reads(&mut l.o, db, t.tx.as_ref(), &t.s.tree, &t.s.aux)) };
                self.tx = Some(t);
                self.o.count("reads in transactions", 1);
                r?;
            }
            Step::Commit => {
                let Some(mut t) = self.tx.take() else { return Ok(()) };
                let before = rows(&self.dir);
                // what queries give in it, they give after it
                let asked = if t.disturbed && t.wrote { vec![] } else { self.with_found(|l, db, f| crate::reads::sample(&mut l.o, db, t.tx.as_ref(), &f.world))? };
                let r = self.db().commit_transaction(t.tx.take().unwrap()).unwrap();
                let clash = t.changed && t.overtaken;
                match r {
                    Ok(()) => {
                        ensure(!clash, "conflicting-transactions-commit", || "both changed the contents".into())?;
                        if !t.wrote {
                            ensure(rows(&self.dir) == before, "empty-transaction-changes-the-store", String::new)?;
                        } else {
                            // changes to one side only may pass beside each other
                            if t.changed || !t.disturbed {
                                self.s.tree = t.s.tree;
                            }
                            self.s.aux = t.s.aux;
                        }
                        self.audit()?;
                        let root = self.found.as_ref().unwrap().root;
                        if let (Some(r), false) = (t.root, t.disturbed) {
                            ensure(r == root, "commit-gives-another-root", || format!("{} in the transaction, {} after it", hex(&r), hex(&root)))?;
                        }
                        self.recorded = self.found.as_ref().unwrap().refs.clone();
                        if !t.disturbed {
                            for (q, raw, got) in &asked {
                                let now = crate::reads::run_query(self.db(), None, q, *raw);
                                let now = now.map_err(|_| ());
                                ensure(now == *got, "query-in-a-transaction-differs", || format!("{q}\n{got:?}\nafter the commit\n{now:?}"))?;
                                self.o.count("queries in transactions", 1);
                            }
                        }
                        self.o.count("transactions committed", 1);
                    }
                    Err(e) => {
                        ensure(t.disturbed && t.wrote, "commit-fails", || format!("{e}"))?;
                        ensure(rows(&self.dir) == before, "failed-commit-changes-the-store", String::new)?;
                        self.o.count("transactions in conflict", 1);
                    }
                }
            }
            Step::Rollback => {
                let Some(mut t) = self.tx.take() else { return Ok(()) };
                must(self.db().rollback_transaction(t.tx.as_ref().unwrap()), "rollback-fails")?;
                (t.s, t.root, t.wrote, t.changed, t.disturbed, t.overtaken) = (self.s.clone(), None, false, false, false, false);
                let root = must(self.db().root_hash(t.tx.as_ref(), v()).unwrap(), "root-hash-fails")?;
                self.audit()?;
                ensure(root == self.found.as_ref().unwrap().root, "rollback-leaves-changes", String::new)?;
                self.tx = Some(t);
                self.o.count("transactions rolled back", 1);
            }
            Step::DropTx => {
                if self.tx.take().is_some() {
                    self.audit()?;
                    self.o.count("transactions dropped", 1);
                }
            }
            Step::Faulty(kind, nth, op) => {
                self.tx = None;
                let before = rows(&self.dir);
                let p = predict(&self.s, op);
                if p.want == Want::Skip {
                    return Ok(());
                }
                let c = control(&self.dir);
                let counter = match kind {
                    Kind::Write => &c.writes,
                    Kind::Read => &c.reads,
                    Kind::TxOp => &c.tx_ops,
                };
                let at = counter.load(Ordering::Relaxed) + nth;
                match kind {
                    Kind::Write => c.fail_write(at, Fault::Error),
                    Kind::Read => c.fail_read(at),
                    Kind::TxOp => c.fail_tx_op(at),
                }
                let (got, _) = issue(self.db(), None, op);
                let hit = counter.load(Ordering::Relaxed) > at;
                c.disarm();
                if hit && got.is_err() {
                    self.o.count("operations hit by a fault", 1);
                    ensure(rows(&self.dir) == before, &format!("failed {} changes the store", op.name()), || show(op))?;
                    self.audit()?;
                    return Ok(());
                }
                if hit {
                    self.o.count("faults without effect", 1);
                }
                self.settle(op, p, &got, &before)?;
            }
            Step::Crash(fault, nth, op) => {
                self.tx = None;
                let before = rows(&self.dir);
                let p = predict(&self.s, op);
                if p.want == Want::Skip {
                    return Ok(());
                }
                let c = control(&self.dir);
                let at = c.writes.load(Ordering::Relaxed) + nth;
                c.fail_write(at, *fault);
                let (got, _) = issue(self.db(), None, op);
                let hit = c.writes.load(Ordering::Relaxed) > at;
                c.disarm();
                if !hit {
                    self.settle(op, p, &got, &before)?;
                    return Ok(());
                }
                self.db = None;
                self.db = Some(open(&self.dir)?);
                let r = rows(&self.dir);
                let undone = r == before;
                if undone && got.is_err() {
                    self.o.count("crashes: state before", 1);
                } else {
                    ensure(p.want != Want::Err, "crash-carries-out-a-refused-operation", || show(op))?;
                    self.s = p.after;
                    self.o.count("crashes: state after", 1);
                }
                self.audit()?;
                self.references(if undone { &[] } else { &p.refs })?;
                let issues = must(self.db().verify_grovedb(None, false, true, v()), "verify-fails")?;
                ensure(issues.is_empty(), "verify-finds-issues", || format!("{issues:?}"))?;
            }
            Step::Checkpoint => {
                let d = self.fresh();
                must(self.db().create_checkpoint(&d), "checkpoint-fails")?;
                self.copies.push((d, self.s.clone()));
                self.o.count("checkpoints taken", 1);
            }
            Step::Checkpoints => {
                for i in (0..self.copies.len()).rev() {
                    self.checkpoint(i)?;
                }
                self.audit()?;
            }
            Step::Twin(op, seed) => self.twin(op, *seed)?,
            Step::Sync(batch, spoil) => {
                let f = self.found()?;
                let d = self.fresh();
                let s = self.s.clone();
                let from = rows(&self.dir);
                let r = self.with(|l, db| crate::sync::sync(&mut l.o, db, &f, &s, &from, &d, *batch, *spoil));
                self.found = Some(f);
                rocksdb::shim::forget(&d);
                let _ = std::fs::remove_dir_all(&d);
                r?;
            }
        }
        Ok(())
    }
    fn tx_op(&mut self, t: &mut Tx, op: &Op) -> V {
        if t.wrote && t.disturbed {
            return Ok(());
        }
        let p = predict(&t.s, op);
        if p.want == Want::Skip {
            return Ok(());
        }
        let before = rows(&self.dir);
        let (got, _) = issue(self.db(), t.tx.as_ref(), op);
        let ok = judge(op, &p, &got)?;
        ensure(rows(&self.dir) == before, &format!("{} in a transaction changes the store", op.name()), || show(op))?;
        self.o.count(if ok { "operations applied in transactions" } else { "operations refused in transactions" }, 1);
        if ok {
            t.wrote = true;
            t.s = p.after;
            t.changed = t.s.tree != self.s.tree;
        }
        let root = must(self.db().root_hash(t.tx.as_ref(), v()).unwrap(), "root-hash-fails")?;
        if let (false, Some(old)) = (ok, t.root) {
            ensure(root == old, "refused-operation-changes-the-root", || show(op))?;
        }
        t.root = Some(root);
        let outside = must(self.db().root_hash(None, v()).unwrap(), "root-hash-fails")?;
        let f = self.found()?;
        ensure(outside == f.root, "transaction-shows-outside", || show(op))?;
        self.found = Some(f);
        self.o.eval(state_key(&t.s.tree), ok);
        Ok(())
    }
    fn checkpoint(&mut self, i: usize) -> V {
        let (d, s) = self.copies[i].clone();
        let f = check_rows(&rows(&d), &s)?;
        let copy = must(GroveDb::open_checkpoint(&d), "opening-a-checkpoint-fails")?;
        let root = must(copy.root_hash(None, v()).unwrap(), "root-hash-fails")?;
        ensure(root == f.root, "checkpoint-root-differs", String::new)?;
        let issues = must(copy.verify_grovedb(None, false, true, v()), "verify-fails")?;
        ensure(issues.is_empty(), "verify-finds-issues", || format!("{issues:?}"))?;
        reads(&mut self.o, &copy, None, &s.tree, &s.aux)?;
        drop(copy);
        self.o.count("checkpoints compared", 1);
        if self.o.rng.chance(1, 3) {
            // it can be written to, which does not show in the original
            let mine = rows(&self.dir);
            let copy = open(&d)?;
            let op = sim::pick_op(&mut self.o.rng, &s, &ALL);
            let p = predict(&s, &op);
            if p.want == Want::Ok {
                let (got, _) = issue(&copy, None, &op);
                judge(&op, &p, &got)?;
                check_rows(&rows(&d), &p.after)?;
                ensure(rows(&self.dir) == mine, "checkpoint-changes-the-original", || show(&op))?;
                self.o.count("checkpoints written to", 1);
            }
            drop(copy);
            self.copies.remove(i);
            if self.o.rng.bool() {
                must(GroveDb::delete_checkpoint(&d), "deleting-a-checkpoint-fails")?;
                ensure(!d.exists(), "checkpoint-not-deleted", String::new)?;
                ensure(rows(&self.dir) == mine, "checkpoint-changes-the-original", String::new)?;
            }
        }
        Ok(())
    }
    /// the same batch, differently: the order of the list turned around, in a transaction, or in two parts
    fn twin(&mut self, op: &Op, seed: u64) -> V {
        self.tx = None;
        let Op::Batch(ops, o) = op else { return Ok(()) };
        let p = predict(&self.s, op);
        if p.want == Want::Skip {
            return Ok(());
        }
        let d = self.fresh();
        must(self.db().create_checkpoint(&d), "checkpoint-fails")?;
        let mut rng = Rng::new(seed);
        // appends to one tree keep their order
        let mut order: Vec<BOp> = ops.clone();
        rng.shuffle(&mut order);
        let mut appends: BTreeMap<(Path, Key), Vec<BOp>> = BTreeMap::new();
        for x in ops.iter().rev() {
            if let BOp::Append(p, k, ..) = x {
                appends.entry((p.clone(), k.clone())).or_default().push(x.clone());
            }
        }
        for x in &mut order {
            if let BOp::Append(p, k, ..) = x {
                let at = (p.clone(), k.clone());
                *x = appends.get_mut(&at).unwrap().pop().unwrap();
            }
        }
        let open_outcome = p.want == Want::Any;
        let before = rows(&self.dir);
        let (got, _) = issue(self.db(), None, op);
        let ok = self.settle(op, p, &got, &before)?;
        let other = open(&d)?;
        let (r, what) = match rng.below(if open_outcome { 2 } else { 3 }) {
            0 => (issue(&other, None, &Op::Batch(order.clone(), *o)).0.map(|_| ()), "listed in another order"),
            1 => {
                let tx = other.start_transaction();
                let r = issue(&other, Some(&tx), &Op::Batch(order.clone(), *o)).0.map(|_| ());
                match r {
                    Ok(()) => (other.commit_transaction(tx).unwrap(), "in a transaction"),
                    Err(e) => (Err(e), "in a transaction"),
                }
            }
            _ => {
                let real = order.iter().map(|o| o.real()).collect();
                let mut opts = sim::batch_options(*o).unwrap_or_default();
                opts.batch_pause_height = Some(rng.below(4) as u8);
                (other.apply_partial_batch(real, Some(opts), |_, _| Ok(vec![]), None, v()).unwrap(), "in parts")
            }
        };
        match r {
            Ok(()) => ensure(ok, "batch-accepted-only-otherwise", || format!("accepted {what}: {}", show(&order)))?,
            Err(e) => ensure(!ok, "batch-refused-otherwise", || format!("{what}: {e} {}", show(&order)))?,
        }
        drop(other);
        let theirs = rows(&d);
        ensure(theirs == rows(&self.dir), "batch-differs-otherwise", || format!("{what}: {}", show(&order)))?;
        self.o.count("batches applied in another way", 1);
        rocksdb::shim::forget(&d);
        let _ = std::fs::remove_dir_all(&d);
        Ok(())
    }
    fn found(&mut self) -> V<Found> {
        if self.found.is_none() {
            self.audit()?;
        }
        Ok(self.found.take().unwrap())
    }
    /// the store holds exactly the model, the root hash is that of the store
    pub fn audit(&mut self) -> V {
        let r = rows(&self.dir);
        let f = check_rows(&r, &self.s)?;
        let root = must(self.db().root_hash(None, v()).unwrap(), "root-hash-fails")?;
        ensure(root == f.root, "root-hash-differs", || format!("reported {}, recomputed {}", hex(&root), hex(&f.root)))?;
        let key = state_key(&self.s.tree);
        let known = *self.roots.entry(root).or_insert(key);
        ensure(known == key, "contents-share-a-root-hash", || hex(&root))?;
        self.o.count("rows audited", r.len() as u64);
        self.o.count("audits", 1);
        self.found = Some(f);
        Ok(())
    }
}
pub fn check_rows(r: &Rows, s: &State) -> V<Found> {
    store::audit(r, &s.tree, &s.aux).map_err(|(a, b)| (a.to_string(), b))
}
/// the result is the predicted one; whether the operation was applied
pub fn judge(op: &Op, p: &Pred, got: &Result<Out, grovedb::Error>) -> V<bool> {
    match (got, p.want) {
        (Ok(_), Want::Err) => fail(&format!("accepted {} {}", op.name(), p.why), format!("should be refused: {}", p.why))?,
        (Err(e), Want::Ok) => fail(&format!("refused {}", op.name()), format!("refused: {e}"))?,
        (Ok(o), _) => {
            if let Some(want) = &p.out {
                ensure(sim::plain(o) == sim::plain(want), &format!("result of {}", op.name()), || format!("returned {o:?}, expected {want:?}"))?;
            }
        }
        _ => {}
    }
    Ok(got.is_ok())
}
pub fn state_key(t: &Tree) -> u64 {
    fnv(format!("{t:?}").as_bytes())
}

// ---- running and reducing ------------------------------------------------

fn play(seed: u64, steps: &[Step]) -> Result<(), Bad> {
    match catch(|| {
        let mut lab = Lab::new(seed);
        for s in steps {
            vcommon::tick();
            lab.step(s)?;
        }
        Ok(())
    }) {
        Ok(r) => r,
        Err((loc, msg)) => Err(("panic".into(), format!("panicked at {loc}: {msg}"))),
    }
}
/// a history as short as can be had that still fails in the same way
fn reduce(seed: u64, steps: Vec<Step>, sig: &str) -> (Vec<Step>, Bad) {
    let mut tries = 0;
    let mut best = steps;
    let mut why = ("".to_string(), "".to_string());
    let mut attempt = |s: &[Step], why: &mut Bad| -> bool {
        tries += 1;
        if tries > 500 {
            return false;
        }
        match play(seed, s) {
            Err(b) if b.0 == sig => {
                *why = b;
                true
            }
            _ => false,
        }
    };
    if !attempt(&best, &mut why) {
        return (best, (sig.to_string(), "(fails only in the longer run)".into()));
    }
    let mut size = best.len() / 2;
    while size > 0 {
        let mut i = best.len().saturating_sub(size);
        loop {
            let mut s = best.clone();
            s.drain(i..(i + size).min(s.len()));
            if attempt(&s, &mut why) {
                best = s;
            }
            if i == 0 {
                break;
            }
            i = i.saturating_sub(size).min(best.len());
        }
        size /= 2;
    }
    // within batches
    for i in (0..best.len()).rev() {
        let (Step::Op(Op::Batch(ops, o)) | Step::InTx(Op::Batch(ops, o)) | Step::Faulty(_, _, Op::Batch(ops, o)) | Step::Crash(_, _, Op::Batch(ops, o)) | Step::Twin(Op::Batch(ops, o), _)) = best[i].clone() else { continue };
        let mut ops: Vec<BOp> = ops;
        for j in (0..ops.len()).rev() {
            if ops.len() < 2 {
                break;
            }
            let mut x = ops.clone();
            x.remove(j);
            let mut s = best.clone();
            let less = Op::Batch(x.clone(), o);
            match &mut s[i] {
                Step::Op(y) | Step::InTx(y) | Step::Faulty(_, _, y) | Step::Crash(_, _, y) | Step::Twin(y, _) => *y = less,
                _ => {}
            }
            if attempt(&s, &mut why) {
                ops = x;
                best = s;
            }
        }
    }
    (best, why)
}
/// makes up and runs a history; what is wrong is reported with a short history that shows it
pub fn run(c: &mut Case, n: usize, mut next: impl FnMut(&mut Rng, &Lab, usize, &mut Vec<Step>)) -> Res {
    let seed = c.rng.u64();
    let mut lab = Lab::new(seed);
    let mut steps: Vec<Step> = vec![];
    let mut bad = None;
    'all: for i in 0..n {
        let mut more = vec![];
        next(&mut c.rng, &lab, i, &mut more);
        for s in more {
            steps.push(s);
            match catch(|| lab.step(steps.last().unwrap())) {
                Ok(Ok(())) => {}
                Ok(Err(b)) => {
                    bad = Some(b);
                    break 'all;
                }
                Err((loc, msg)) => {
                    bad = Some(("panic".into(), format!("panicked at {loc}: {msg}")));
                    break 'all;
                }
            }
        }
    }
    for (k, n) in &lab.o.counts {
        c.count(k, *n);
    }
    for (k, n) in &lab.o.evals {
        c.eval(*k, *n);
    }
    if let Some((sig, detail)) = bad {
        drop(lab);
        let (short, (_, why)) = reduce(seed, steps, &sig);
        for s in &short {
            c.note(show(s));
        }
        c.fail(&sig, if why.starts_with('(') { format!("{why} {detail}") } else { why })?;
    }
    Ok(())
}

