//! G09, its accounts by owner and epoch: flags that tell who stored which bytes when.
use crate::history::{Scratch, open};
use crate::obs::{Bad, V, ensure, must};
use crate::sim::v;
use grovedb::batch::QualifiedGroveDbOp;
use grovedb::{Element, Error, GroveDb};
use grovedb_costs::OperationCost;
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::{self, BasicStorageRemoval, NoStorageRemoval, SectionedStorageRemoval};
use grovedb_epoch_based_storage_flags::StorageFlags;
use std::collections::BTreeMap;
use vcommon::{Case, Res, Rng, fnv};

type Owner = [u8; 32];
/// bytes stored by each owner
type Account = BTreeMap<Owner, i64>;
fn apply(db: &GroveDb, ops: Vec<QualifiedGroveDbOp>) -> (Result<(), Error>, OperationCost) {
    let r = db.apply_batch_with_element_flags_update(
        ops,
        None,
        |cost, old, new| StorageFlags::update_element_flags(cost, old, new).map_err(|e| Error::JustInTimeElementFlagsClientError(e.to_string())),
        |flags, k, n| StorageFlags::split_removal_bytes(flags, k, n).map_err(|e| Error::SplitRemovalBytesClientError(e.to_string())),
        None,
        v(),
    );
    (r.value, r.cost)
}
fn delete(db: &GroveDb, p: &[Vec<u8>], k: &[u8]) -> (Result<(), Error>, OperationCost) {
    let r = db.delete_with_sectional_storage_function(
        p.into(),
        k,
        None,
        None,
        &mut |flags, k, n| StorageFlags::split_removal_bytes(flags, k, n).map_err(|e| Error::SplitRemovalBytesClientError(e.to_string())),
        v(),
    );
    (r.value, r.cost)
}
/// the bytes an operation removed were its entries': their owners', of epochs in which some were added
fn removed(r: &StorageRemovedBytes, old: &BTreeMap<Vec<u8>, Option<StorageFlags>>) -> V<Account> {
    let mut out = Account::new();
    match r {
        NoStorageRemoval => {}
        BasicStorageRemoval(n) => ensure(*n == 0, "flagged-bytes-removed-from-nobody", || format!("{n} bytes"))?,
        SectionedStorageRemoval(m) => {
            for (o, e) in m {
                for (epoch, n) in e.iter() {
                    *out.entry(*o).or_default() += *n as i64;
                    let mut most = None;
                    for f in old.values().flatten().filter(|f| f.owner_id() == Some(o)) {
                        if *f.base_epoch() == epoch {
                            most = Some(u32::MAX);
                        } else if let Some(n) = f.epoch_index_map().and_then(|m| m.get(&epoch)) {
                            most = Some(most.unwrap_or(0u32).saturating_add(*n));
                        }
                    }
                    ensure(most.is_some_and(|m| *n <= m), "removed-where-not-added", || format!("{n} bytes of {} in epoch {epoch}, flags told {old:?}", vcommon::hex(o)))?;
                }
            }
        }
    }
    Ok(out)
}
fn value(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => rng.usize(400),
        2 => 100 + rng.usize(60),
        _ => rng.usize(40),
    };
    vec![7; n]
}
fn element(rng: &mut Rng, sums: bool, flags: &StorageFlags) -> Element {
    let f = Some(flags.to_element_flags());
    match rng.below(8) {
        0 | 1 if sums => Element::SumItem(rng.edge_i64() >> 8, f),
        2 if sums => Element::ItemWithSumItem(value(rng), rng.edge_i64() >> 8, f),
        _ => Element::Item(value(rng), f),
    }
}
fn flags_at(db: &GroveDb, p: &[Vec<u8>], k: &[u8]) -> V<Option<StorageFlags>> {
    let e = must(db.get_raw_optional(p.into(), k, None, v()).value, "get")?;
    match e {
        None => Ok(None),
        Some(e) => must(StorageFlags::map_some_element_flags_ref(e.get_flags()).map_err(|e| format!("{e:?}")), "flags"),
    }
}
/// what storing this entry alone costs
fn alone(db: &GroveDb, sizes: &mut BTreeMap<(usize, Vec<u8>), i64>, sums: bool, p: &[Vec<u8>], k: &[u8]) -> V<i64> {
    let e = must(db.get_raw(p.into(), k, None, v()).value, "get")?;
    let bytes = e.serialize(v()).unwrap();
    if let Some(n) = sizes.get(&(k.len(), bytes.clone())) {
        return Ok(*n);
    }
    let s = Scratch::new();
    let db = open(&s.sub("db"))?;
    let root = if sums { Element::empty_sum_tree() } else { Element::empty_tree() };
    must(db.insert(grovedb_path::SubtreePath::empty(), b"t", root, None, None, v()).value, "insert")?;
    let r = db.insert([b"t"].as_ref(), k, e, None, None, v());
    must(r.value, "insert")?;
    let n = crate::costs::net(&r.cost);
    sizes.insert((k.len(), bytes), n);
    Ok(n)
}

fn history(c: &mut Case) -> V {
    let scratch = Scratch::new();
    let db = open(&scratch.sub("db"))?;
    let rng = &mut c.rng;
    let owners: Vec<Owner> = (0..1 + rng.usize(2)).map(|_| rng.arr32()).collect();
    let sums = rng.bool();
    let t: Vec<Vec<u8>> = vec![b"t".to_vec()];
    let root = if sums { Element::empty_sum_tree() } else { Element::empty_tree() };
    must(apply(&db, vec![QualifiedGroveDbOp::insert_or_replace_op(vec![], b"t".to_vec(), root)]).0, "insertion-fails")?;
    let mut account = Account::new();
    let mut epoch = rng.below(3) as u16;
    let mut log: Vec<String> = vec![];
    let mut sizes = BTreeMap::new();
    let mut here: BTreeMap<Vec<u8>, Owner> = BTreeMap::new();
    let (mut many, mut transfers) = (0, 0);
    let steps = 3 + rng.usize(20);
    for step in 0.. {
        if step >= steps && here.is_empty() {
            break;
        }
        if rng.chance(1, 3) {
            epoch += 1 + rng.below(3) as u16 * 60;
        }
        // several entries at once if one owner holds them all
        let n = if owners.len() == 1 { 1 + rng.usize(3) } else { 1 };
        let mut ops: BTreeMap<Vec<u8>, Option<Element>> = BTreeMap::new();
        let mut to = BTreeMap::new();
        for _ in 0..n {
            let k = vec![rng.below(5) as u8; 1 + rng.usize(2) * 30];
            if step < steps && !(rng.chance(1, 5) && here.contains_key(&k)) {
                let owner = match here.get(&k) {
                    Some(o) if !rng.chance(1, 6) => *o,
                    _ => *rng.pick(&owners),
                };
                to.insert(k.clone(), owner);
                ops.insert(k, Some(element(rng, sums, &StorageFlags::SingleEpochOwned(epoch, owner))));
            } else if let Some(k) = if step < steps { Some(k) } else { here.keys().next().cloned() } {
                ops.insert(k, None);
            }
        }
        let old: BTreeMap<_, _> = ops.keys().map(|k| Ok((k.clone(), flags_at(&db, &t, k)?))).collect::<V<_>>()?;
        let before: i64 = here.keys().filter(|k| ops.contains_key(*k)).map(|k| alone(&db, &mut sizes, sums, &t, k)).sum::<V<i64>>()?;
        let what = format!("epoch {epoch}: {}", ops.iter().map(|(k, e)| format!("{}{} := {e:?}", k[0], if k.len() > 1 { " (long)" } else { "" })).collect::<Vec<_>>().join(", "));
        let (r, cost) = match ops.iter().next().unwrap() {
            (k, None) if ops.len() == 1 && rng.bool() => delete(&db, &t, k),
            _ => apply(&db, ops.iter().map(|(k, e)| match e {
                Some(e) => QualifiedGroveDbOp::insert_or_replace_op(t.clone(), k.clone(), e.clone()),
                None => QualifiedGroveDbOp::delete_op(t.clone(), k.clone()),
            }).collect()),
        };
        let s = &cost.storage_cost;
        let tell = |log: &Vec<String>| format!("{what}\n{s:?}\nafter\n{}", log.join("\n"));
        let told = |log: &Vec<String>, (s, d): Bad| (s, format!("{d}\n{}", tell(log)));
        must(r, "operation-fails").map_err(|b| told(&log, b))?;
        many += (ops.len() > 1) as u64;
        let gone = removed(&s.removed_bytes, &old).map_err(|b| told(&log, b))?;
        let mut now = BTreeMap::new();
        for k in ops.keys() {
            if let Some(f) = flags_at(&db, &t, k)? {
                now.insert(k.clone(), f);
            }
        }
        let after: i64 = now.keys().map(|k| alone(&db, &mut sizes, sums, &t, k)).sum::<V<i64>>()?;
        ensure(after - before == s.added_bytes as i64 - gone.values().sum::<i64>(), "entries-and-costs-differ", || format!("entries grew from {before} to {after}\n{}", tell(&log)))?;
        for (k, now) in &now {
            let owner = *now.owner_id().unwrap();
            if let Some(old) = &old[k] {
                let map = now.epoch_index_map().cloned().unwrap_or_default();
                ensure(old.base_epoch() == now.base_epoch() && (owner == to[k] || Some(&owner) == old.owner_id()), "base-changed", || format!("{old} became {now}\n{}", tell(&log)))?;
                for (e, n) in &map {
                    let before = old.epoch_index_map().and_then(|m| m.get(e)).copied().unwrap_or(0);
                    let most = before + if *e == epoch { s.added_bytes } else { 0 };
                    ensure(*n <= most, "more-told-than-added", || format!("{old} became {now}\n{}", tell(&log)))?;
                }
            } else {
                ensure(*now == StorageFlags::SingleEpochOwned(epoch, to[k]), "new-flags-changed", || format!("{now}\n{}", tell(&log)))?;
            }
            if here.insert(k.clone(), owner).is_some_and(|o| o != owner) {
                transfers += 1;
            }
        }
        here.retain(|k, _| !ops.contains_key(k) || now.contains_key(k));
        // bytes are taken from those who hold them, what is added or handed over is the new owner's
        for (o, n) in &gone {
            *account.entry(*o).or_default() -= n;
        }
        for k in ops.keys() {
            let (from, to) = (old[k].as_ref().and_then(|f| f.owner_id()), now.get(k).and_then(|f| f.owner_id()));
            if let (Some(from), Some(to)) = (from, to) {
                if from != to {
                    let held = before - gone.get(from).copied().unwrap_or(0);
                    *account.entry(*from).or_default() -= held;
                    *account.entry(*to).or_default() += held;
                }
            }
        }
        let adding = now.values().next().and_then(|f| f.owner_id()).copied().unwrap_or(owners[0]);
        *account.entry(adding).or_default() += s.added_bytes as i64;
        let mut want = Account::new();
        for (k, o) in &here {
            *want.entry(*o).or_default() += alone(&db, &mut sizes, sums, &t, k)?;
        }
        want.retain(|_, n| *n != 0);
        account.retain(|_, n| *n != 0);
        ensure(account == want, "owners-account", || format!("account {account:?}\npresent {want:?}\n{}", tell(&log)))?;
        log.push(format!("{what} -> added {} removed {:?} flags {}", s.added_bytes, s.removed_bytes, now.values().map(|f| f.to_string()).collect::<Vec<_>>().join("; ")));
    }
    c.count("flagged batches of several", many);
    c.count("owners changed", transfers);
    c.count("flagged updates", log.len() as u64);
    c.eval(fnv(log.join("\n").as_bytes()), true);
    Ok(())
}
pub fn flags(c: &mut Case) -> Res {
    history(c).or_else(|(s, d): Bad| c.fail(&s, d))
}
