//! F01: storage flags attribute every stored byte to one epoch and owner.
use grovedb_costs::storage_cost::{StorageCost, removal::StorageRemovedBytes};
use grovedb_epoch_based_storage_flags::{MergingOwnersStrategy, StorageFlags};
use integer_encoding::VarInt;
use std::{borrow::Cow, collections::BTreeMap};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

type Map = BTreeMap<u16, u32>;
/// the smallest entry an epoch keeps
const MIN: u32 = 3;

/// The harness's own form of flags.
#[derive(Clone, Debug, PartialEq)]
struct F {
    base: u16,
    map: Option<Map>,
    owner: Option<[u8; 32]>,
}
impl F {
    fn real(&self) -> StorageFlags {
        match (self.map.clone(), self.owner) {
            (None, None) => StorageFlags::SingleEpoch(self.base),
            (Some(m), None) => StorageFlags::MultiEpoch(self.base, m),
            (None, Some(o)) => StorageFlags::SingleEpochOwned(self.base, o),
            (Some(m), Some(o)) => StorageFlags::MultiEpochOwned(self.base, m, o),
        }
    }
    fn of(f: &StorageFlags) -> F {
        match f.clone() {
            StorageFlags::SingleEpoch(base) => F { base, map: None, owner: None },
            StorageFlags::MultiEpoch(base, m) => F { base, map: Some(m), owner: None },
            StorageFlags::SingleEpochOwned(base, o) => F { base, map: None, owner: Some(o) },
            StorageFlags::MultiEpochOwned(base, m, o) => F { base, map: Some(m), owner: Some(o) },
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![self.map.is_some() as u8 + 2 * self.owner.is_some() as u8];
        b.extend(self.owner.iter().flatten());
        b.extend(self.base.to_be_bytes());
        for (e, mut n) in self.map.iter().flatten().map(|(e, n)| (*e, *n)) {
            b.extend(e.to_be_bytes());
            while n >= 0x80 {
                b.push(n as u8 | 0x80);
                n >>= 7;
            }
            b.push(n as u8);
        }
        b
    }
    fn id(&self) -> [u8; 32] {
        self.owner.unwrap_or_default()
    }
    fn attributed(&self) -> u128 {
        self.map.iter().flatten().map(|x| *x.1 as u128).sum()
    }
}

fn owner(rng: &mut Rng) -> [u8; 32] {
    match rng.below(4) {
        0 => [1; 32],
        1 => [2; 32],
        2 => [0xff; 32],
        _ => rng.arr32(),
    }
}
fn amount(rng: &mut Rng) -> u32 {
    match rng.below(5) {
        0 => rng.below(8) as u32,
        1 => 126 + rng.below(4) as u32,
        2 => rng.below(20_000) as u32,
        3 => rng.below(1 << 30) as u32,
        _ => 3 + rng.below(200) as u32,
    }
}
fn base(rng: &mut Rng) -> u16 {
    match rng.below(4) {
        0 => 0,
        1 => 65_000 + rng.below(536) as u16,
        2 => 250 + rng.below(20) as u16,
        _ => rng.below(20) as u16,
    }
}
/// flags as the system makes them: later epochs lie above the base epoch
fn flags(rng: &mut Rng) -> F {
    let base = base(rng);
    let mut map = Map::new();
    if rng.bool() {
        for _ in 0..rng.below(5) {
            let e = base as u32 + 1 + if rng.bool() { rng.below(6) as u32 } else { rng.below(300) as u32 };
            if e <= u16::MAX as u32 {
                map.insert(e as u16, amount(rng));
            }
        }
    }
    F { base, map: (!map.is_empty()).then_some(map), owner: rng.bool().then(|| owner(rng)) }
}

fn codec(c: &mut Case) -> Res {
    let f = flags(&mut c.rng);
    c.note(format!("{f:?}"));
    let r = f.real();
    let want = f.bytes();
    c.same(&hex(&r.serialize()), &hex(&want), "stored-form")?;
    c.same(&hex(&r.to_element_flags()), &hex(&want), "stored-form")?;
    c.same(&r.to_some_element_flags(), &Some(want.clone()), "stored-form")?;
    c.same(&StorageFlags::map_to_some_element_flags(Some(&r)), &Some(want.clone()), "stored-form")?;
    c.same(&StorageFlags::map_owned_to_element_flags(Some(r.clone())), &want, "stored-form")?;
    c.same(&StorageFlags::map_cow_to_some_element_flags(Some(Cow::Borrowed(&r))), &Some(want.clone()), "stored-form")?;
    c.same(&StorageFlags::map_borrowed_cow_to_some_element_flags(&r.clone().into_optional_cow()), &Some(want.clone()), "stored-form")?;
    c.same(&r.serialized_size(), &(want.len() as u32), "size")?;
    c.same(&r.type_byte(), &want[0], "type-byte")?;
    let back = c.must(StorageFlags::deserialize(&want), "deserialize")?;
    c.same(&back, &Some(r.clone()), "round-trip")?;
    c.same(&StorageFlags::from_element_flags_ref(&want).ok().flatten(), &Some(r.clone()), "round-trip")?;
    c.same(&StorageFlags::map_some_element_flags_ref(&Some(want.clone())).ok().flatten(), &Some(r.clone()), "round-trip")?;
    c.same(&StorageFlags::map_cow_some_element_flags_ref(&Some(want.clone())).ok().flatten().map(|x| x.into_owned()), &Some(r.clone()), "round-trip")?;
    c.same(&StorageFlags::map_some_element_flags_ref(&None).ok(), &Some(None), "round-trip-none")?;
    c.same(&StorageFlags::deserialize(&[]).ok(), &Some(None), "round-trip-none")?;
    c.same(&(*r.base_epoch(), r.owner_id().copied(), r.epoch_index_map().cloned()), &(f.base, f.owner, f.map.clone()), "parts")?;
    let o = flags(&mut c.rng);
    c.same(&(o.bytes() == want), &(o == f), "distinct-forms")?;
    let mut s = r.clone();
    let id = owner(&mut c.rng);
    s.set_owner_id(id);
    let mut w = f.clone();
    w.owner = w.owner.map(|_| id);
    c.same(&F::of(&s), &w, "set-owner")?;
    let n = (c.rng.below(300) as u16, 1 + c.rng.below(5) as u8);
    let est = StorageFlags::approximate_size(f.owner.is_some(), Some(n));
    c.same(&est, &(3 + 32 * f.owner.is_some() as u32 + n.0 as u32 * (2 + n.1 as u32)), "approximate-size")?;
    c.count("codec", 1);
    c.eval(fnv(&want), true);
    Ok(())
}

/// what bytes say, read independently; the flag tells whether they are in the
/// form the system writes
fn read(b: &[u8]) -> Result<(Option<F>, bool), ()> {
    let Some(t) = b.first() else { return Ok((None, true)) };
    if *t > 3 {
        return Err(());
    }
    let mut rest = &b[1..];
    let mut take = |n: usize| -> Result<Vec<u8>, ()> {
        if rest.len() < n {
            return Err(());
        }
        let (x, r) = rest.split_at(n);
        rest = r;
        Ok(x.to_vec())
    };
    let owner = if t & 2 != 0 { Some(take(32)?.try_into().unwrap()) } else { None };
    let e = take(2)?;
    let base = u16::from_be_bytes([e[0], e[1]]);
    if t & 1 == 0 {
        return if rest.is_empty() { Ok((Some(F { base, map: None, owner }), true)) } else { Err(()) };
    }
    if rest.len() < 3 {
        return Err(());
    }
    let mut map = Map::new();
    let mut usual = true;
    let mut last = None;
    while rest.len() > 2 {
        let e = u16::from_be_bytes([rest[0], rest[1]]);
        rest = &rest[2..];
        let Some((n, used)) = u32::decode_var(rest) else { return Err(()) };
        usual &= n.encode_var_vec() == rest[..used] && last.is_none_or(|l| l < e);
        rest = &rest[used..];
        last = Some(e);
        map.insert(e, n);
    }
    usual &= rest.is_empty();
    Ok((Some(F { base, map: Some(map), owner }), usual))
}

fn bytes(c: &mut Case) -> Res {
    let mut b = if c.rng.bool() {
        flags(&mut c.rng).bytes()
    } else {
        let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 9, 34, 35, 36, 37, 38, 39, 45]);
        let mut b = c.rng.bytes(n);
        if n > 0 {
            b[0] %= 5;
        }
        b
    };
    for _ in 0..c.rng.below(3) {
        let i = c.rng.usize(b.len() + 1);
        match c.rng.below(3) {
            0 if i < b.len() => b[i] = c.rng.u64() as u8,
            1 => b.insert(i, c.rng.u64() as u8),
            _ => b.truncate(i),
        }
    }
    c.note(hex(&b));
    let want = read(&b);
    let got = StorageFlags::deserialize(&b);
    match (&want, &got) {
        (Ok((w, _)), Ok(g)) => {
            c.same(&g.as_ref().map(F::of), w, "bytes-meaning")?;
            c.count("read", 1);
        }
        (Ok((_, true)), Err(e)) => return c.fail("bytes-refused", format!("{e}")),
        (Err(()), Ok(g)) => return c.fail("bytes-accepted", format!("{g:?}")),
        _ => c.count("refused", 1),
    }
    c.eval(fnv(&b), b.len() > 2);
    Ok(())
}

fn strategy(c: &mut Case) -> MergingOwnersStrategy {
    *c.rng.pick(&[MergingOwnersStrategy::RaiseIssue, MergingOwnersStrategy::UseOurs, MergingOwnersStrategy::UseTheirs])
}
/// None: refused
fn merged_owner(a: &F, b: &F, s: MergingOwnersStrategy) -> Option<Option<[u8; 32]>> {
    Some(match (a.owner, b.owner) {
        (Some(x), Some(y)) if x != y => match s {
            MergingOwnersStrategy::RaiseIssue => return None,
            MergingOwnersStrategy::UseOurs => Some(x),
            MergingOwnersStrategy::UseTheirs => Some(y),
        },
        (x, y) => x.or(y),
    })
}

/// the bytes a removal takes, newest epochs first, each epoch keeping its
/// smallest entry, the rest from the base epoch
fn split(f: &F, n: u32) -> Map {
    let mut left = n;
    let mut out = Map::new();
    for (e, has) in f.map.iter().flatten().rev() {
        let take = left.min(has.saturating_sub(MIN));
        if take > 0 {
            out.insert(*e, take);
        }
        left -= take;
    }
    if left > 0 {
        out.insert(f.base, left);
    }
    out
}
/// non-zero entries by owner
fn sections(r: &StorageRemovedBytes) -> BTreeMap<[u8; 32], Map> {
    match r {
        StorageRemovedBytes::NoStorageRemoval => BTreeMap::new(),
        StorageRemovedBytes::BasicStorageRemoval(n) => BTreeMap::from([([0xEE; 32], Map::from([(0, *n)]))]),
        StorageRemovedBytes::SectionedStorageRemoval(m) => m
            .iter()
            .map(|(o, s)| (*o, s.iter().filter(|x| *x.1 > 0).map(|(e, n)| (e, *n)).collect::<Map>()))
            .filter(|x| !x.1.is_empty())
            .collect(),
    }
}

fn combine(c: &mut Case) -> Res {
    let a = flags(&mut c.rng);
    let mut b = flags(&mut c.rng);
    // the flags of an update are plain, made in a later or the same epoch;
    // flags that already carry several epochs can be combined as well
    if !c.rng.chance(1, 5) {
        b.map = None;
    }
    match c.rng.below(6) {
        0 => {}
        1 => b.base = a.base,
        2 if a.map.is_some() => b.base = *a.map.as_ref().unwrap().keys().last().unwrap(),
        _ => b.base = a.base.saturating_add(c.rng.below(8) as u16),
    }
    if c.rng.bool() {
        b.owner = a.owner;
    }
    let s = strategy(c);
    let n = if c.rng.chance(1, 6) { u32::MAX - c.rng.below(1000) as u32 } else { amount(&mut c.rng) };
    c.note(format!("ours {a:?}\ntheirs {b:?}\nadded {n} {s:?}"));
    let above = b.base;
    b.map = b.map.filter(|_| above >= a.base).map(|m| m.into_iter().map(|(e, n)| (e.saturating_add(above).max(above.saturating_add(1)), n)).filter(|x| x.0 > above).collect::<Map>()).filter(|m| !m.is_empty());
    let both = b.map.is_some();
    // where both name an epoch, the newer flags say how much it holds
    let mut m = a.map.clone().unwrap_or_default();
    m.extend(b.map.iter().flatten());
    let merged = (a.map.is_some() || b.map.is_some()).then_some(m);
    // added bytes belong to the newer epoch
    let o = merged_owner(&a, &b, s);
    let want = match (o, a.base.cmp(&b.base)) {
        (Some(owner), std::cmp::Ordering::Equal) => Some(F { owner, map: merged.clone(), ..a.clone() }),
        (Some(owner), std::cmp::Ordering::Less) => {
            let mut m = merged.clone().unwrap_or_default();
            // more than an entry can say is refused
            m.get(&b.base).copied().unwrap_or(0).checked_add(n).map(|t| {
                m.insert(b.base, t);
                F { owner, map: Some(m), ..a.clone() }
            })
        }
        _ => None,
    };
    if o.is_some() && want.is_none() && b.base > a.base {
        c.count("overflows", 1);
    }
    if both && want.is_some() {
        c.count("both_many", 1);
    }
    let got = a.real().combine_added_bytes(b.real(), n, s);
    c.same(&got.as_ref().ok().map(F::of), &want, "combine-added")?;
    c.same(&StorageFlags::optional_combine_added_bytes(Some(a.real()), b.real(), n, s).ok().map(|f| F::of(&f)), &want, "combine-added")?;
    c.same(&StorageFlags::optional_combine_added_bytes(None, b.real(), n, s).ok().map(|f| F::of(&f)), &Some(b.clone()), "combine-added-none")?;
    if let Ok(g) = &got {
        let g = F::of(g);
        let added = if b.base > a.base { n as u128 } else { 0 };
        if b.map.is_none() {
            c.same(&g.attributed(), &(a.attributed() + added), "combine-added-total")?;
        }
        c.ensure(g.map.iter().flatten().all(|x| *x.0 >= g.base), "combine-added-base", || format!("{g:?}"))?;
        c.count("grown", 1);
    }

    // removing
    let top = a.attributed().min(1 << 30) as u32;
    let n = match c.rng.below(3) {
        0 => c.rng.below(top as u64 + 40) as u32,
        1 => c.rng.below(40) as u32,
        _ => amount(&mut c.rng),
    };
    let key = if c.rng.chance(1, 3) { 1 + c.rng.below(300) as u32 } else { 0 };
    let (kr, vr) = a.real().split_storage_removed_bytes(key, n);
    let by_owner = |m: Map| if m.is_empty() { BTreeMap::new() } else { BTreeMap::from([(a.id(), m)]) };
    c.same(&sections(&kr), &by_owner(if key > 0 { Map::from([(a.base, key)]) } else { Map::new() }), "split-key")?;
    c.same(&sections(&vr), &by_owner(split(&a, n)), "split-value")?;
    c.same(&(kr.total_removed_bytes(), vr.total_removed_bytes()), &(key, n), "split-total")?;
    let mut fl = a.bytes();
    let r = c.must(StorageFlags::split_removal_bytes(&mut fl, key, n), "split-removal")?;
    c.same(&r, &(kr.clone(), vr.clone()), "split-removal")?;
    c.same(&fl, &a.bytes(), "split-removal-flags")?;
    let r = c.must(StorageFlags::split_removal_bytes(&mut vec![], key, n), "split-removal-plain")?;
    c.same(&r, &(StorageRemovedBytes::BasicStorageRemoval(key), StorageRemovedBytes::BasicStorageRemoval(n)), "split-removal-plain")?;

    // what was taken from an epoch is no longer attributed to it
    if b.base > a.base {
        b.map = None;
    }
    let o = merged_owner(&a, &b, s);
    let want = match (a.base.cmp(&b.base), o) {
        (std::cmp::Ordering::Greater, _) => None,
        (std::cmp::Ordering::Equal, None) => None,
        (std::cmp::Ordering::Equal, Some(owner)) => Some(F { owner, map: merged.clone(), ..a.clone() }),
        (std::cmp::Ordering::Less, _) if a.map.is_none() => Some(a.clone()),
        (std::cmp::Ordering::Less, None) => None,
        (std::cmp::Ordering::Less, Some(owner)) => {
            let taken = split(&a, n);
            let mut m = a.map.clone().unwrap();
            // an epoch that gave bytes, or was asked for them in vain, and has
            // only its smallest entry left loses it
            let mut left = n;
            for (e, has) in a.map.as_ref().unwrap().iter().rev() {
                if left == 0 {
                    break;
                }
                let t = taken.get(e).copied().unwrap_or(0);
                left -= t;
                if has - t <= MIN {
                    m.remove(e);
                } else {
                    m.insert(*e, has - t);
                }
            }
            Some(F { owner, map: (!m.is_empty()).then_some(m), base: a.base })
        }
    };
    let got = a.real().combine_removed_bytes(b.real(), &vr, s);
    c.same(&got.as_ref().ok().map(F::of), &want, "combine-removed")?;
    c.same(&StorageFlags::optional_combine_removed_bytes(Some(a.real()), b.real(), &vr, s).ok().map(|f| F::of(&f)), &want, "combine-removed")?;
    c.same(&StorageFlags::optional_combine_removed_bytes(None, b.real(), &vr, s).ok().map(|f| F::of(&f)), &Some(b.clone()), "combine-removed-none")?;
    // bytes that an epoch does not have, or of someone else, cannot be removed
    if b.base > a.base && o.is_some() && let Some(m) = &a.map {
        let (e, has) = m.iter().next().unwrap();
        for (id, e, n) in [(a.id(), *e, has.saturating_add(1)), (a.id(), a.base.wrapping_sub(1), 1), ([9; 32], *e, 1)] {
            if n == u32::MAX || m.contains_key(&e) && id == a.id() && n <= *has || e == a.base || a.base == 0 && e == u16::MAX {
                continue;
            }
            let r = StorageRemovedBytes::SectionedStorageRemoval(BTreeMap::from([(id, [(e, n)].into_iter().collect())]));
            let g = a.real().combine_removed_bytes(b.real(), &r, s);
            c.ensure(g.is_err(), "combine-removed-refuses", || format!("removing {n} bytes of epoch {e} of {} gave {g:?}", hex(&id)))?;
        }
        // nor bytes of several owners at once
        let one = |e: u16| [(e, 1u32)].into_iter().collect();
        let r = StorageRemovedBytes::SectionedStorageRemoval(BTreeMap::from([(a.id(), one(a.base)), ([9; 32], one(a.base))]));
        let g = a.real().combine_removed_bytes(b.real(), &r, s);
        c.ensure(g.is_err(), "combine-removed-refuses", || format!("removing bytes of two owners gave {g:?}"))?;
        c.count("refusals", 1);
    }
    if got.is_ok() && n > 0 {
        c.count("shrunk", 1);
    }
    c.eval(fnv(format!("{a:?}{b:?}{n}").as_bytes()), true);
    Ok(())
}

/// a value that grows and shrinks over the epochs: what is refunded at the end
/// is what was stored
fn history(c: &mut Case) -> Res {
    let mut own = c.rng.bool().then(|| owner(&mut c.rng));
    let transfers = own.is_some() && c.rng.bool();
    let mut epoch = c.rng.below(50) as u16;
    let mut size: u32 = 20 + c.rng.below(200) as u32;
    let start = F { base: epoch, map: None, owner: own };
    let mut cur = start.bytes();
    // the harness's ledger: bytes by epoch
    let mut model = start.clone();
    let steps = 1 + c.rng.below(12);
    let mut log = vec![format!("stored {size} bytes at {epoch}")];
    for _ in 0..steps {
        epoch += c.rng.below(4) as u16;
        if transfers && c.rng.chance(1, 3) {
            own = Some(owner(&mut c.rng));
            log.push(format!("by {}", hex(&own.unwrap())));
            c.count("transfers", 1);
        }
        let new = F { base: epoch, map: None, owner: own };
        let mut nf = new.bytes();
        match c.rng.below(4) {
            0 | 1 => {
                let n = 1 + c.rng.below(120) as u32;
                let cost = StorageCost { added_bytes: n, replaced_bytes: size, removed_bytes: StorageRemovedBytes::NoStorageRemoval };
                let changed = c.must(StorageFlags::update_element_flags(&cost, Some(cur.clone()), &mut nf), "update")?;
                model.owner = own;
                if epoch > model.base {
                    *model.map.get_or_insert_default().entry(epoch).or_default() += n;
                }
                size += n;
                log.push(format!("grew by {n} at {epoch}"));
                c.same(&changed, &(nf != new.bytes()), "update-says-changed")?;
            }
            2 if size > 1 => {
                let n = 1 + c.rng.below(size as u64 - 1) as u32;
                let (_, vr) = c.must(StorageFlags::split_removal_bytes(&mut cur, 0, n), "split")?;
                let cost = StorageCost { added_bytes: 0, replaced_bytes: size - n, removed_bytes: vr.clone() };
                let changed = c.must(StorageFlags::update_element_flags(&cost, Some(cur.clone()), &mut nf), "update")?;
                c.same(&vr.total_removed_bytes(), &n, "refund-total")?;
                let want = split(&model, n);
                c.same(&sections(&vr), &BTreeMap::from([(model.id(), want.clone())]), "refund-epochs")?;
                // a value with bytes of its base epoch only stays as it is when a
                // later epoch shrinks it
                if epoch == model.base || model.map.is_some() {
                    model.owner = own;
                }
                // with the base epoch's own update nothing is attributed anew
                if epoch > model.base && let Some(m) = model.map.clone() {
                    let mut m2 = m.clone();
                    let mut left = n;
                    for (e, has) in m.iter().rev() {
                        if left == 0 {
                            break;
                        }
                        let t = want.get(e).copied().unwrap_or(0);
                        left -= t;
                        if has - t <= MIN {
                            m2.remove(e);
                        } else {
                            m2.insert(*e, has - t);
                        }
                    }
                    model.map = (!m2.is_empty()).then_some(m2);
                }
                size -= n;
                log.push(format!("shrank by {n} at {epoch}"));
                c.same(&changed, &(nf != new.bytes()), "update-says-changed")?;
            }
            _ => {
                let cost = StorageCost { added_bytes: 0, replaced_bytes: size, removed_bytes: StorageRemovedBytes::NoStorageRemoval };
                c.must(StorageFlags::update_element_flags(&cost, Some(cur.clone()), &mut nf), "update")?;
                log.push(format!("replaced at {epoch}"));
            }
        }
        cur = nf;
        let got = c.must(StorageFlags::deserialize(&cur), "deserialize")?;
        c.ensure(got.as_ref().map(F::of).as_ref() == Some(&model), "history-flags", || format!("{log:?}\nflags {got:?}\nledger {model:?}"))?;
        c.count("updates", 1);
    }
    // delete everything
    let (kr, vr) = c.must(StorageFlags::split_removal_bytes(&mut cur, 40, size), "split")?;
    c.same(&(kr.total_removed_bytes(), vr.total_removed_bytes()), &(40, size), "delete-total")?;
    c.same(&sections(&kr), &BTreeMap::from([(model.id(), Map::from([(model.base, 40)]))]), "delete-key")?;
    c.same(&sections(&vr), &BTreeMap::from([(model.id(), split(&model, size))]), "delete-value")?;
    // what is no update of a value leaves the new flags alone
    let removal = StorageRemovedBytes::BasicStorageRemoval(5);
    let none = StorageRemovedBytes::NoStorageRemoval;
    for (added_bytes, replaced_bytes, removed_bytes) in [(7, 0, none.clone()), (7, 3, removal.clone()), (7, 0, removal.clone()), (0, 0, removal), (0, 0, none)] {
        let mut nf = F { base: epoch, map: None, owner: own }.bytes();
        let was = nf.clone();
        let cost = StorageCost { added_bytes, replaced_bytes, removed_bytes };
        c.same(&StorageFlags::update_element_flags(&cost, Some(cur.clone()), &mut nf).ok(), &Some(false), "update-of-nothing")?;
        c.same(&nf, &was, "update-of-nothing")?;
    }
    // updates without flags on one side
    let mut nf = start.bytes();
    let cost = StorageCost { added_bytes: 1, replaced_bytes: 1, removed_bytes: StorageRemovedBytes::NoStorageRemoval };
    c.same(&StorageFlags::update_element_flags(&cost, None, &mut nf).ok(), &Some(false), "update-no-old")?;
    c.same(&nf, &start.bytes(), "update-no-old")?;
    c.ensure(StorageFlags::update_element_flags(&cost, Some(cur.clone()), &mut vec![]).is_err(), "update-removes-flags", || "flags were removed".into())?;
    c.ensure(StorageFlags::update_element_flags(&cost, Some(vec![]), &mut nf).is_err(), "update-no-old-flags", || "old flags missing".into())?;
    c.eval(fnv(format!("{log:?}").as_bytes()), steps > 1);
    if c.wants_sample() && steps < 5 {
        c.sample(format!("{} -> {}", log.join(", "), hex(&cur)));
    }
    Ok(())
}

pub fn f01(ctx: &Ctx) {
    ctx.rule("random flags of all four kinds with boundary epochs and amounts, compared with an independently written form, reader, split and ledger; damaged bytes; histories of growing, shrinking and replacing one value over the epochs up to its deletion.");
    ctx.assume("as the system makes them, later-epoch entries lie above the base epoch and amounts stay below 2^31");
    ctx.assume("bytes in an unusual form (repeated or unsorted epochs, leftover bytes) may be read or refused");
    ctx.cases("codec", ctx.n(150_000, 3_000_000), codec);
    ctx.cases("bytes", ctx.n(300_000, 6_000_000), bytes);
    ctx.cases("combine", ctx.n(200_000, 5_000_000), combine);
    ctx.cases("history", ctx.n(100_000, 2_000_000), history);
    for k in ["codec", "read", "refused", "grown", "shrunk", "refusals", "updates", "overflows", "both_many", "transfers"] {
        ctx.require(k, 1000);
    }
}
