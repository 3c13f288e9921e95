//! A storage context in memory, with faults on demand, for the append-only trees.
use grovedb_costs::{
    ChildrenSizesWithIsSumTree, CostContext, CostResult, CostsExt, OperationCost, storage_cost::key_value_cost::KeyValueStorageCost,
};
use grovedb_storage::{Batch, Error, RawIterator, StorageContext};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    rc::Rc,
};

type Rows = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
pub struct State {
    pub rows: RefCell<Rows>,
    pub pending: RefCell<Rows>,
    /// writes are not seen by reads until `flush`
    pub deferred: Cell<bool>,
    /// how many more reads (writes) succeed; negative: all
    reads_left: Cell<i64>,
    writes_left: Cell<i64>,
    pub failed: Cell<u64>,
    pub reads: Cell<u64>,
    pub writes: Cell<u64>,
}

#[derive(Clone)]
pub struct Mem(pub Rc<State>);

impl Mem {
    pub fn new(deferred: bool) -> Mem {
        let s = State::default();
        s.deferred.set(deferred);
        s.reads_left.set(-1);
        s.writes_left.set(-1);
        Mem(Rc::new(s))
    }
    pub fn flush(&self) {
        let p = std::mem::take(&mut *self.0.pending.borrow_mut());
        self.0.rows.borrow_mut().extend(p);
    }
    pub fn drop_pending(&self) {
        self.0.pending.borrow_mut().clear();
    }
    pub fn arm(&self, reads: i64, writes: i64) {
        self.0.reads_left.set(reads);
        self.0.writes_left.set(writes);
    }
    pub fn disarm(&self) {
        self.arm(-1, -1);
    }
    fn allow(&self, left: &Cell<i64>, seen: &Cell<u64>) -> Result<(), Error> {
        seen.set(seen.get() + 1);
        match left.get() {
            n if n < 0 => Ok(()),
            0 => {
                self.0.failed.set(self.0.failed.get() + 1);
                Err(Error::StorageError("injected fault".into()))
            }
            n => {
                left.set(n - 1);
                Ok(())
            }
        }
    }
}

macro_rules! no {
    () => {
        panic!("harness: this storage area is not provided here")
    };
}

impl<'db> StorageContext<'db> for Mem {
    type Batch = NoBatch;
    type RawIterator = NoIter;

    fn get<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        let r = self.allow(&self.0.reads_left, &self.0.reads).map(|_| self.0.rows.borrow().get(key.as_ref()).cloned());
        let n = r.as_ref().ok().and_then(|x| x.as_ref()).map_or(0, |x| x.len());
        r.wrap_with_cost(OperationCost { seek_count: 1, storage_loaded_bytes: n as u64, ..Default::default() })
    }
    fn put<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _: ChildrenSizesWithIsSumTree, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        let r = self.allow(&self.0.writes_left, &self.0.writes);
        if r.is_ok() {
            let to = if self.0.deferred.get() { &self.0.pending } else { &self.0.rows };
            to.borrow_mut().insert(key.as_ref().to_vec(), value.to_vec());
        }
        r.wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() })
    }
    fn put_aux<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        no!()
    }
    fn put_root<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        no!()
    }
    fn put_meta<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        no!()
    }
    fn delete<K: AsRef<[u8]>>(&self, key: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.0.rows.borrow_mut().remove(key.as_ref());
        self.0.pending.borrow_mut().remove(key.as_ref());
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn delete_aux<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        no!()
    }
    fn delete_root<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        no!()
    }
    fn delete_meta<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        no!()
    }
    fn get_aux<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        no!()
    }
    fn get_root<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        no!()
    }
    fn get_meta<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        no!()
    }
    fn new_batch(&self) -> NoBatch {
        NoBatch
    }
    fn commit_batch(&self, _: NoBatch) -> CostResult<(), Error> {
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn raw_iter(&self) -> NoIter {
        no!()
    }
}

pub struct NoBatch;
type CostErr = grovedb_costs::error::Error;
impl Batch for NoBatch {
    fn put<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: ChildrenSizesWithIsSumTree, _: Option<KeyValueStorageCost>) -> Result<(), CostErr> {
        no!()
    }
    fn put_aux<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), CostErr> {
        no!()
    }
    fn put_root<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), CostErr> {
        no!()
    }
    fn delete<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        no!()
    }
    fn delete_aux<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        no!()
    }
    fn delete_root<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        no!()
    }
}

pub struct NoIter;
impl RawIterator for NoIter {
    fn seek_to_first(&mut self) -> CostContext<()> {
        no!()
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        no!()
    }
    fn seek<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        no!()
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        no!()
    }
    fn next(&mut self) -> CostContext<()> {
        no!()
    }
    fn prev(&mut self) -> CostContext<()> {
        no!()
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        no!()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        no!()
    }
    fn valid(&self) -> CostContext<bool> {
        no!()
    }
}
