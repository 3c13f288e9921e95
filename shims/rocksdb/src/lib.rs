//! A stand-in for the part of rust-rocksdb that grovedb's storage layer uses.
//!
//! The real crate is a git dependency that cannot be fetched in this sandbox.
//! What is modelled, from RocksDB's documented behaviour:
//!  * column families, ordered by unsigned byte comparison;
//!  * `write(batch)` and `Transaction::commit` are atomic (one log record each);
//!  * a transaction sees its own writes over the latest committed state;
//!  * optimistic conflict detection: commit fails with `Busy` when a key the
//!    transaction wrote was committed by someone else after that write;
//!  * iterators work on an implicit snapshot taken when they are created;
//!  * a checkpoint is a consistent copy of the committed state;
//!  * reopening a path sees exactly the committed records (a torn tail is cut).
//!
//! `shim` holds the observation and fault-injection side channel used by the
//! monitors. With nothing armed it has no effect on results.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::fs;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock};

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    InvalidArgument,
    IOError,
    Busy,
    TryAgain,
    Incomplete,
    Aborted,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}

impl Error {
    pub fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error { kind, message: message.into() }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.into_string()
    }
}
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}

fn io_err(e: std::io::Error) -> Error {
    Error::new(ErrorKind::IOError, format!("IO error: {e}"))
}

// ───────────────────────────── options ─────────────────────────────

#[derive(Clone, Default)]
pub struct Options {
    create_if_missing: bool,
    create_missing_column_families: bool,
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_column_families = v;
    }
    pub fn increase_parallelism(&mut self, _n: i32) {}
    pub fn set_allow_mmap_writes(&mut self, _v: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _v: bool) {}
    pub fn set_atomic_flush(&mut self, _v: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _v: bool) {}
}

pub struct ColumnFamilyDescriptor {
    name: String,
    #[allow(dead_code)]
    options: Options,
}

impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, options: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into(), options }
    }
}

pub struct ColumnFamily {
    id: u32,
}

pub trait AsColumnFamilyRef {
    fn cf_id(&self) -> u32;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn cf_id(&self) -> u32 {
        self.id
    }
}
impl<T: AsColumnFamilyRef> AsColumnFamilyRef for &T {
    fn cf_id(&self) -> u32 {
        (*self).cf_id()
    }
}

// ───────────────────────── operations and log ──────────────────────

/// One primitive write, as seen by the log and by the monitors.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Op {
    Put(u32, Vec<u8>, Vec<u8>),
    Delete(u32, Vec<u8>),
    DeleteRange(u32, Vec<u8>, Vec<u8>),
}

fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}

fn checksum(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

fn encode_record(ops: &[Op]) -> Vec<u8> {
    let mut body = Vec::new();
    for op in ops {
        match op {
            Op::Put(cf, k, v) => {
                body.push(0);
                body.extend_from_slice(&cf.to_le_bytes());
                put_bytes(&mut body, k);
                put_bytes(&mut body, v);
            }
            Op::Delete(cf, k) => {
                body.push(1);
                body.extend_from_slice(&cf.to_le_bytes());
                put_bytes(&mut body, k);
            }
            Op::DeleteRange(cf, a, b) => {
                body.push(2);
                body.extend_from_slice(&cf.to_le_bytes());
                put_bytes(&mut body, a);
                put_bytes(&mut body, b);
            }
        }
    }
    let mut rec = Vec::with_capacity(body.len() + 12);
    rec.extend_from_slice(&(body.len() as u32).to_le_bytes());
    rec.extend_from_slice(&checksum(&body).to_le_bytes());
    rec.extend_from_slice(&body);
    rec
}

fn take<'a>(b: &'a [u8], at: &mut usize, n: usize) -> Option<&'a [u8]> {
    let s = b.get(*at..at.checked_add(n)?)?;
    *at += n;
    Some(s)
}
fn take_u32(b: &[u8], at: &mut usize) -> Option<u32> {
    Some(u32::from_le_bytes(take(b, at, 4)?.try_into().ok()?))
}
fn take_bytes(b: &[u8], at: &mut usize) -> Option<Vec<u8>> {
    let n = take_u32(b, at)? as usize;
    Some(take(b, at, n)?.to_vec())
}

fn decode_body(b: &[u8]) -> Option<Vec<Op>> {
    let mut at = 0;
    let mut ops = Vec::new();
    while at < b.len() {
        let tag = take(b, &mut at, 1)?[0];
        let cf = take_u32(b, &mut at)?;
        ops.push(match tag {
            0 => {
                let k = take_bytes(b, &mut at)?;
                Op::Put(cf, k, take_bytes(b, &mut at)?)
            }
            1 => Op::Delete(cf, take_bytes(b, &mut at)?),
            2 => {
                let k = take_bytes(b, &mut at)?;
                Op::DeleteRange(cf, k, take_bytes(b, &mut at)?)
            }
            _ => return None,
        });
    }
    Some(ops)
}

/// Decodes the complete records of a log; stops at the first torn or corrupt one.
fn decode_log(b: &[u8]) -> (Vec<Vec<Op>>, usize) {
    let mut at = 0;
    let mut recs = Vec::new();
    let mut good = 0;
    loop {
        let Some(len) = take_u32(b, &mut at) else { break };
        let Some(sum) = take(b, &mut at, 8) else { break };
        let sum = u64::from_le_bytes(sum.try_into().unwrap());
        let Some(body) = take(b, &mut at, len as usize) else { break };
        if checksum(body) != sum {
            break;
        }
        let Some(ops) = decode_body(body) else { break };
        recs.push(ops);
        good = at;
    }
    (recs, good)
}

// ─────────────────────── faults and observation ────────────────────

pub mod shim {
    //! Side channel for the monitors.
    use super::*;

    /// What to do to a numbered event.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Fault {
        /// Return an IO error; nothing is written.
        Error,
        /// The process "dies" here: nothing of this record and nothing later
        /// reaches the log, every later call fails until the path is reopened.
        CrashBefore,
        /// The record reaches the log, then the process dies.
        CrashAfter,
        /// Half of the record's bytes reach the log, then the process dies.
        CrashTorn,
    }

    /// Per-path control block; survives closing and reopening.
    #[derive(Default)]
    pub struct Control {
        /// Durable-write attempts (write/commit/delete_range), counted from 0.
        pub writes: AtomicU64,
        /// Reads (get/get_cf/iterator creation/iterator step), counted from 0.
        pub reads: AtomicU64,
        /// Writes into a transaction's private write set.
        pub tx_ops: AtomicU64,
        pub(super) write_fault: Mutex<Option<(u64, Fault)>>,
        pub(super) read_fault: Mutex<Option<u64>>,
        pub(super) txop_fault: Mutex<Option<u64>>,
        pub(super) log: Mutex<Option<Vec<Vec<Op>>>>,
    }

    impl Control {
        /// Fault the durable write with this number (see `writes`).
        pub fn fail_write(&self, at: u64, fault: Fault) {
            *self.write_fault.lock().unwrap() = Some((at, fault));
        }
        /// Fail the point read with this number (see `reads`).
        pub fn fail_read(&self, at: u64) {
            *self.read_fault.lock().unwrap() = Some(at);
        }
        /// Fail the transaction-local write with this number (see `tx_ops`).
        pub fn fail_tx_op(&self, at: u64) {
            *self.txop_fault.lock().unwrap() = Some(at);
        }
        pub fn disarm(&self) {
            *self.write_fault.lock().unwrap() = None;
            *self.read_fault.lock().unwrap() = None;
            *self.txop_fault.lock().unwrap() = None;
        }
        /// Start (or restart) recording the committed records.
        pub fn record(&self) {
            *self.log.lock().unwrap() = Some(Vec::new());
        }
        pub fn take_records(&self) -> Vec<Vec<Op>> {
            self.log.lock().unwrap().take().unwrap_or_default()
        }
    }

    static CONTROLS: Mutex<Option<HashMap<PathBuf, Arc<Control>>>> = Mutex::new(None);

    pub(super) fn norm(path: &Path) -> PathBuf {
        fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
    }

    /// The control block of a database path (the directory must exist).
    pub fn control(path: &Path) -> Arc<Control> {
        let mut g = CONTROLS.lock().unwrap();
        g.get_or_insert_with(HashMap::new)
            .entry(norm(path))
            .or_default()
            .clone()
    }

    /// Forget a path's control block.
    pub fn forget(path: &Path) {
        if let Some(m) = CONTROLS.lock().unwrap().as_mut() {
            m.remove(&norm(path));
        }
    }

    /// The committed contents of a closed or open database, straight from its log.
    pub fn dump(path: &Path) -> std::io::Result<BTreeMap<(u32, Vec<u8>), Vec<u8>>> {
        let mut out = BTreeMap::new();
        let b = fs::read(path.join(LOG_NAME))?;
        for ops in decode_log(&b).0 {
            for op in ops {
                match op {
                    Op::Put(cf, k, v) => {
                        out.insert((cf, k), v);
                    }
                    Op::Delete(cf, k) => {
                        out.remove(&(cf, k));
                    }
                    Op::DeleteRange(cf, a, b) => {
                        let gone: Vec<_> = out.range((cf, a)..(cf, b)).map(|(k, _)| k.clone()).collect();
                        for k in gone {
                            out.remove(&k);
                        }
                    }
                }
            }
        }
        Ok(out)
    }

    /// Number of complete records in a database's log.
    pub fn record_count(path: &Path) -> std::io::Result<usize> {
        Ok(decode_log(&fs::read(path.join(LOG_NAME))?).0.len())
    }
}

const LOG_NAME: &str = "000001.log";
const CF_NAME: &str = "CF-NAMES";

// ───────────────────────────── database ────────────────────────────

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

struct State {
    cfs: Vec<Arc<Map>>,
    /// sequence number of the last commit that touched a key
    last: HashMap<(u32, Vec<u8>), u64>,
    /// sequence number of the last range deletion, per cf (coarse)
    last_range: HashMap<u32, u64>,
    seq: u64,
    dead: bool,
    file: fs::File,
}

struct Inner {
    path: PathBuf,
    names: Vec<String>,
    handles: BTreeMap<String, ColumnFamily>,
    state: RwLock<State>,
    control: Arc<shim::Control>,
}

static OPEN: Mutex<Option<HashSet<PathBuf>>> = Mutex::new(None);

impl Drop for Inner {
    fn drop(&mut self) {
        if let Some(s) = OPEN.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            s.remove(&self.path);
        }
    }
}

pub struct SingleThreaded;
pub struct MultiThreaded;
pub trait ThreadMode {}
impl ThreadMode for SingleThreaded {}
impl ThreadMode for MultiThreaded {}

pub struct OptimisticTransactionDB<T: ThreadMode = SingleThreaded> {
    inner: Arc<Inner>,
    _t: PhantomData<fn() -> T>,
}

impl Inner {
    fn write_ops(&self, st: &mut State, ops: Vec<Op>) -> Result<(), Error> {
        if st.dead {
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: process is dead"));
        }
        let n = self.control.writes.fetch_add(1, Ordering::SeqCst);
        let fault = match *self.control.write_fault.lock().unwrap() {
            Some((at, f)) if at == n => Some(f),
            _ => None,
        };
        let rec = encode_record(&ops);
        match fault {
            Some(shim::Fault::Error) => {
                return Err(Error::new(ErrorKind::IOError, "IO error: shim: injected write error"))
            }
            Some(shim::Fault::CrashBefore) => {
                st.dead = true;
                return Err(Error::new(ErrorKind::IOError, "IO error: shim: crashed before write"));
            }
            Some(shim::Fault::CrashTorn) => {
                st.dead = true;
                let half = rec.len() / 2;
                st.file.write_all(&rec[..half]).map_err(io_err)?;
                return Err(Error::new(ErrorKind::IOError, "IO error: shim: crashed during write"));
            }
            _ => {}
        }
        st.file.write_all(&rec).map_err(io_err)?;
        if fault == Some(shim::Fault::CrashAfter) {
            st.dead = true;
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: crashed after write"));
        }
        if let Some(l) = self.control.log.lock().unwrap().as_mut() {
            l.push(ops.clone());
        }
        st.seq += 1;
        let seq = st.seq;
        for op in ops {
            match op {
                Op::Put(cf, k, v) => {
                    st.last.insert((cf, k.clone()), seq);
                    Arc::make_mut(&mut st.cfs[cf as usize]).insert(k, v);
                }
                Op::Delete(cf, k) => {
                    Arc::make_mut(&mut st.cfs[cf as usize]).remove(&k);
                    st.last.insert((cf, k), seq);
                }
                Op::DeleteRange(cf, a, b) => {
                    st.last_range.insert(cf, seq);
                    if a < b {
                        let m = Arc::make_mut(&mut st.cfs[cf as usize]);
                        let gone: Vec<_> = m.range(a..b).map(|(k, _)| k.clone()).collect();
                        for k in gone {
                            m.remove(&k);
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn read_event(&self) -> Result<(), Error> {
        let n = self.control.reads.fetch_add(1, Ordering::SeqCst);
        if *self.control.read_fault.lock().unwrap() == Some(n) {
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: injected read error"));
        }
        Ok(())
    }

    fn get(&self, cf: u32, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        self.read_event()?;
        let st = self.state.read().unwrap();
        if st.dead {
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: process is dead"));
        }
        Ok(st.cfs[cf as usize].get(key).cloned())
    }

    fn snapshot(&self, cf: u32) -> Arc<Map> {
        self.state.read().unwrap().cfs[cf as usize].clone()
    }
}

impl<T: ThreadMode> OptimisticTransactionDB<T> {
    pub fn open_cf_descriptors<P, I>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let path = path.as_ref();
        if !path.join(LOG_NAME).exists() {
            if !opts.create_if_missing {
                return Err(Error::new(
                    ErrorKind::InvalidArgument,
                    format!("Invalid argument: {}: does not exist (create_if_missing is false)", path.display()),
                ));
            }
            fs::create_dir_all(path).map_err(io_err)?;
        }
        let path = fs::canonicalize(path).map_err(io_err)?;
        if !OPEN.lock().unwrap().get_or_insert_with(HashSet::new).insert(path.clone()) {
            return Err(Error::new(
                ErrorKind::IOError,
                format!("IO error: lock hold by current process: {}/LOCK", path.display()),
            ));
        }
        struct Unlock(Option<PathBuf>);
        impl Drop for Unlock {
            fn drop(&mut self) {
                if let Some(p) = self.0.take() {
                    if let Some(s) = OPEN.lock().unwrap().as_mut() {
                        s.remove(&p);
                    }
                }
            }
        }
        let mut unlock = Unlock(Some(path.clone()));

        let mut names = vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()];
        let cf_file = path.join(CF_NAME);
        if let Ok(s) = fs::read_to_string(&cf_file) {
            names = s.lines().map(str::to_string).collect();
        }
        let mut asked = vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()];
        for d in cfs {
            asked.push(d.name);
        }
        let mut changed = !cf_file.exists();
        for a in &asked {
            if !names.contains(a) {
                if !opts.create_missing_column_families {
                    return Err(Error::new(
                        ErrorKind::InvalidArgument,
                        format!("Invalid argument: Column family not found: {a}"),
                    ));
                }
                names.push(a.clone());
                changed = true;
            }
        }
        if let Some(n) = names.iter().find(|n| !asked.contains(n)) {
            return Err(Error::new(
                ErrorKind::InvalidArgument,
                format!("Invalid argument: Column families not opened: {n}"),
            ));
        }
        if changed {
            fs::write(&cf_file, names.join("\n")).map_err(io_err)?;
        }

        let log_path = path.join(LOG_NAME);
        let mut bytes = Vec::new();
        let mut file = fs::OpenOptions::new()
            .read(true)
            .append(true)
            .create(true)
            .open(&log_path)
            .map_err(io_err)?;
        file.read_to_end(&mut bytes).map_err(io_err)?;
        let (recs, good) = decode_log(&bytes);
        if good < bytes.len() {
            file.set_len(good as u64).map_err(io_err)?;
        }
        let mut maps: Vec<Map> = names.iter().map(|_| Map::new()).collect();
        for ops in recs {
            for op in ops {
                match op {
                    Op::Put(cf, k, v) => {
                        maps[cf as usize].insert(k, v);
                    }
                    Op::Delete(cf, k) => {
                        maps[cf as usize].remove(&k);
                    }
                    Op::DeleteRange(cf, a, b) => {
                        if a < b {
                            let gone: Vec<_> =
                                maps[cf as usize].range(a..b).map(|(k, _)| k.clone()).collect();
                            for k in gone {
                                maps[cf as usize].remove(&k);
                            }
                        }
                    }
                }
            }
        }
        let handles = names
            .iter()
            .enumerate()
            .map(|(i, n)| (n.clone(), ColumnFamily { id: i as u32 }))
            .collect();
        unlock.0 = None;
        let control = shim::control(&path);
        Ok(OptimisticTransactionDB {
            inner: Arc::new(Inner {
                path,
                names,
                handles,
                state: RwLock::new(State {
                    cfs: maps.into_iter().map(Arc::new).collect(),
                    last: HashMap::new(),
                    last_range: HashMap::new(),
                    seq: 0,
                    dead: false,
                    file,
                }),
                control,
            }),
            _t: PhantomData,
        })
    }

    pub fn path(&self) -> &Path {
        &self.inner.path
    }

    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.inner.handles.get(name)
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.inner.get(0, key.as_ref())
    }

    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.inner.get(cf.cf_id(), key.as_ref())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        let mut st = self.inner.state.write().unwrap();
        self.inner.write_ops(&mut st, vec![Op::Put(0, key.as_ref().to_vec(), value.as_ref().to_vec())])
    }

    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        let mut st = self.inner.state.write().unwrap();
        self.inner
            .write_ops(&mut st, vec![Op::Put(cf.cf_id(), key.as_ref().to_vec(), value.as_ref().to_vec())])
    }

    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        let mut st = self.inner.state.write().unwrap();
        self.inner.write_ops(&mut st, vec![Op::Delete(0, key.as_ref().to_vec())])
    }

    pub fn delete_range_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, from: K, to: K) -> Result<(), Error> {
        let mut st = self.inner.state.write().unwrap();
        self.inner.write_ops(
            &mut st,
            vec![Op::DeleteRange(cf.cf_id(), from.as_ref().to_vec(), to.as_ref().to_vec())],
        )
    }

    pub fn write(&self, batch: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        let mut st = self.inner.state.write().unwrap();
        self.inner.write_ops(&mut st, batch.ops)
    }

    pub fn flush(&self) -> Result<(), Error> {
        let st = self.inner.state.write().unwrap();
        if st.dead {
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: process is dead"));
        }
        Ok(())
    }

    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        let _ = self.inner.control.reads.fetch_add(1, Ordering::SeqCst);
        DBRawIteratorWithThreadMode::new(self.inner.snapshot(0), None)
    }

    pub fn raw_iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef) -> DBRawIteratorWithThreadMode<'a, Self> {
        let _ = self.inner.control.reads.fetch_add(1, Ordering::SeqCst);
        DBRawIteratorWithThreadMode::new(self.inner.snapshot(cf.cf_id()), None)
    }

    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction {
            inner: self.inner.clone(),
            w: Mutex::new(TxState::default()),
            _p: PhantomData,
        }
    }

    fn dump_to(&self, dir: &Path) -> Result<(), Error> {
        let st = self.inner.state.read().unwrap();
        if st.dead {
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: process is dead"));
        }
        if dir.exists() {
            return Err(Error::new(ErrorKind::InvalidArgument, "Invalid argument: Directory exists"));
        }
        fs::create_dir(dir).map_err(io_err)?;
        let mut ops = Vec::new();
        for (i, m) in st.cfs.iter().enumerate() {
            for (k, v) in m.iter() {
                ops.push(Op::Put(i as u32, k.clone(), v.clone()));
            }
        }
        fs::write(dir.join(CF_NAME), self.inner.names.join("\n")).map_err(io_err)?;
        fs::write(dir.join(LOG_NAME), encode_record(&ops)).map_err(io_err)?;
        // real RocksDB directories have a CURRENT file, which grovedb's checkpoint
        // deletion may look for
        fs::write(dir.join("CURRENT"), b"MANIFEST-000004\n").map_err(io_err)?;
        Ok(())
    }
}

// ─────────────────────────── write batch ───────────────────────────

#[derive(Default, Clone)]
pub struct WriteBatchWithTransaction<const TRANSACTION: bool> {
    ops: Vec<Op>,
}

impl<const TRANSACTION: bool> WriteBatchWithTransaction<TRANSACTION> {
    pub fn new() -> Self {
        Self { ops: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops.push(Op::Put(0, key.as_ref().to_vec(), value.as_ref().to_vec()));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K, value: V) {
        self.ops.push(Op::Put(cf.cf_id(), key.as_ref().to_vec(), value.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push(Op::Delete(0, key.as_ref().to_vec()));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K) {
        self.ops.push(Op::Delete(cf.cf_id(), key.as_ref().to_vec()));
    }
}

// ─────────────────────────── transactions ──────────────────────────

#[derive(Default)]
struct TxState {
    /// pending writes per cf; None is a deletion
    writes: HashMap<u32, Arc<BTreeMap<Vec<u8>, Option<Vec<u8>>>>>,
    /// sequence number at which each key was first written by this transaction
    tracked: HashMap<(u32, Vec<u8>), u64>,
}

pub struct Transaction<'db, DB> {
    inner: Arc<Inner>,
    w: Mutex<TxState>,
    _p: PhantomData<&'db DB>,
}

impl<'db, DB> Transaction<'db, DB> {
    fn tx_event(&self) -> Result<(), Error> {
        let n = self.inner.control.tx_ops.fetch_add(1, Ordering::SeqCst);
        if *self.inner.control.txop_fault.lock().unwrap() == Some(n) {
            return Err(Error::new(ErrorKind::IOError, "IO error: shim: injected transaction write error"));
        }
        Ok(())
    }

    fn local(&self, cf: u32, key: Vec<u8>, value: Option<Vec<u8>>) {
        let seq = self.inner.state.read().unwrap().seq;
        let mut w = self.w.lock().unwrap();
        w.tracked.entry((cf, key.clone())).or_insert(seq);
        Arc::make_mut(w.writes.entry(cf).or_default()).insert(key, value);
    }

    fn read(&self, cf: u32, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        {
            let w = self.w.lock().unwrap();
            if let Some(v) = w.writes.get(&cf).and_then(|m| m.get(key)) {
                let v = v.clone();
                drop(w);
                self.inner.read_event()?;
                return Ok(v);
            }
        }
        self.inner.get(cf, key)
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(0, key.as_ref())
    }

    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(cf.cf_id(), key.as_ref())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.tx_event()?;
        self.local(0, key.as_ref().to_vec(), Some(value.as_ref().to_vec()));
        Ok(())
    }

    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.tx_event()?;
        self.local(cf.cf_id(), key.as_ref().to_vec(), Some(value.as_ref().to_vec()));
        Ok(())
    }

    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.tx_event()?;
        self.local(0, key.as_ref().to_vec(), None);
        Ok(())
    }

    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<(), Error> {
        self.tx_event()?;
        self.local(cf.cf_id(), key.as_ref().to_vec(), None);
        Ok(())
    }

    /// Adds the batch's records to this transaction's writes.
    pub fn rebuild_from_writebatch(&self, batch: &WriteBatchWithTransaction<true>) -> Result<(), Error> {
        for op in &batch.ops {
            self.tx_event()?;
            match op {
                Op::Put(cf, k, v) => self.local(*cf, k.clone(), Some(v.clone())),
                Op::Delete(cf, k) => self.local(*cf, k.clone(), None),
                Op::DeleteRange(..) => {
                    return Err(Error::new(
                        ErrorKind::InvalidArgument,
                        "Not implemented: DeleteRange in a transaction",
                    ))
                }
            }
        }
        Ok(())
    }

    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        let _ = self.inner.control.reads.fetch_add(1, Ordering::SeqCst);
        let over = self.w.lock().unwrap().writes.get(&0).cloned();
        DBRawIteratorWithThreadMode::new(self.inner.snapshot(0), over)
    }

    pub fn commit(self) -> Result<(), Error> {
        let w = std::mem::take(&mut *self.w.lock().unwrap());
        let mut st = self.inner.state.write().unwrap();
        for ((cf, key), seq) in &w.tracked {
            let changed = st.last.get(&(*cf, key.clone())).is_some_and(|s| s > seq)
                || st.last_range.get(cf).is_some_and(|s| s > seq);
            if changed {
                return Err(Error::new(ErrorKind::Busy, "Resource busy: "));
            }
        }
        let mut ops = Vec::new();
        let mut cfs: Vec<_> = w.writes.into_iter().collect();
        cfs.sort_by_key(|(cf, _)| *cf);
        for (cf, m) in cfs {
            for (k, v) in m.iter() {
                ops.push(match v {
                    Some(v) => Op::Put(cf, k.clone(), v.clone()),
                    None => Op::Delete(cf, k.clone()),
                });
            }
        }
        if ops.is_empty() {
            return Ok(());
        }
        self.inner.write_ops(&mut st, ops)
    }

    pub fn rollback(&self) -> Result<(), Error> {
        *self.w.lock().unwrap() = TxState::default();
        Ok(())
    }
}

// ───────────────────────────── iterators ───────────────────────────

pub struct DBRawIteratorWithThreadMode<'a, D> {
    base: Arc<Map>,
    over: Option<Arc<BTreeMap<Vec<u8>, Option<Vec<u8>>>>>,
    cur: Option<(Vec<u8>, Vec<u8>)>,
    _p: PhantomData<&'a D>,
}

use std::ops::Bound;

impl<'a, D> DBRawIteratorWithThreadMode<'a, D> {
    fn new(base: Arc<Map>, over: Option<Arc<BTreeMap<Vec<u8>, Option<Vec<u8>>>>>) -> Self {
        DBRawIteratorWithThreadMode { base, over, cur: None, _p: PhantomData }
    }

    fn forward(&self, mut from: Bound<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
        loop {
            let b = self.base.range((from.clone(), Bound::Unbounded)).next();
            let o = self.over.as_ref().and_then(|o| o.range((from.clone(), Bound::Unbounded)).next());
            match (b, o) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((k, v)), Some((ok, _))) if k < ok => return Some((k.clone(), v.clone())),
                (_, Some((ok, Some(v)))) => return Some((ok.clone(), v.clone())),
                (_, Some((ok, None))) => from = Bound::Excluded(ok.clone()),
            }
        }
    }

    fn backward(&self, mut to: Bound<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
        loop {
            let b = self.base.range((Bound::Unbounded, to.clone())).next_back();
            let o = self.over.as_ref().and_then(|o| o.range((Bound::Unbounded, to.clone())).next_back());
            match (b, o) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((k, v)), Some((ok, _))) if k > ok => return Some((k.clone(), v.clone())),
                (_, Some((ok, Some(v)))) => return Some((ok.clone(), v.clone())),
                (_, Some((ok, None))) => to = Bound::Excluded(ok.clone()),
            }
        }
    }

    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn seek_to_first(&mut self) {
        self.cur = self.forward(Bound::Unbounded);
    }
    pub fn seek_to_last(&mut self) {
        self.cur = self.backward(Bound::Unbounded);
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, key: K) {
        self.cur = self.forward(Bound::Included(key.as_ref().to_vec()));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.cur = self.backward(Bound::Included(key.as_ref().to_vec()));
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.cur = self.forward(Bound::Excluded(k));
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.cur = self.backward(Bound::Excluded(k));
        }
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(k, _)| k.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(_, v)| v.as_slice())
    }
}

// ──────────────────────────── checkpoints ──────────────────────────

pub mod checkpoint {
    use super::*;

    pub struct Checkpoint<'db> {
        db: &'db OptimisticTransactionDB,
    }

    impl<'db> Checkpoint<'db> {
        pub fn new(db: &'db OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Checkpoint { db })
        }
        pub fn create_checkpoint<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
            self.db.dump_to(path.as_ref())
        }
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(&self, path: P, _log: u64) -> Result<(), Error> {
            self.db.dump_to(path.as_ref())
        }
    }
}
