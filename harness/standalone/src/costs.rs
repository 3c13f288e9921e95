//! C01: cost accounting adds up.
use std::collections::BTreeMap;

use grovedb_costs::{
    ChildrenSizesWithIsSumTree, CostContext, CostResult, CostsExt, OperationCost, TreeCostType,
    cost_return_on_error, cost_return_on_error_default, cost_return_on_error_into,
    cost_return_on_error_into_default, cost_return_on_error_into_no_add,
    cost_return_on_error_no_add,
    storage_cost::{
        StorageCost,
        key_value_cost::KeyValueStorageCost,
        removal::{StorageRemovedBytes, UNKNOWN_EPOCH},
        transition::OperationStorageTransitionType as T,
    },
};
use intmap::IntMap;
use vcommon::{Case, Ctx, Res, Rng, fnv};

/// What a removal is: a plain amount, or amounts per (identifier, epoch).
#[derive(Clone, Debug, PartialEq, Eq)]
enum Rem {
    None,
    Basic(u32),
    Sect(BTreeMap<([u8; 32], u16), u32>),
}

fn of(r: &StorageRemovedBytes) -> Rem {
    match r {
        StorageRemovedBytes::NoStorageRemoval => Rem::None,
        StorageRemovedBytes::BasicStorageRemoval(b) => Rem::Basic(*b),
        StorageRemovedBytes::SectionedStorageRemoval(m) => {
            let mut out = BTreeMap::new();
            for (id, im) in m {
                for (e, v) in im.iter() {
                    out.insert((*id, e), *v);
                }
            }
            Rem::Sect(out)
        }
    }
}

/// Adding up in the specification: amounts per cell add (saturating); plain
/// amounts join the unknown epoch of the default identifier as soon as one
/// side is sectioned.
fn spec_add(a: &Rem, b: &Rem) -> Rem {
    match (a, b) {
        (Rem::None, x) | (x, Rem::None) => x.clone(),
        (Rem::Basic(x), Rem::Basic(y)) => Rem::Basic(x.saturating_add(*y)),
        (Rem::Basic(x), Rem::Sect(m)) | (Rem::Sect(m), Rem::Basic(x)) => {
            let mut m = m.clone();
            let c = m.entry(([0; 32], UNKNOWN_EPOCH)).or_insert(0);
            *c = c.saturating_add(*x);
            Rem::Sect(m)
        }
        (Rem::Sect(x), Rem::Sect(y)) => {
            let mut m = x.clone();
            for (k, v) in y {
                let c = m.entry(*k).or_insert(0);
                *c = c.saturating_add(*v);
            }
            Rem::Sect(m)
        }
    }
}

fn total(r: &Rem) -> u64 {
    match r {
        Rem::None => 0,
        Rem::Basic(b) => *b as u64,
        Rem::Sect(m) => m.values().map(|v| *v as u64).sum(),
    }
}

fn amount(rng: &mut Rng, big: bool) -> u32 {
    match rng.below(6) {
        0 => 0,
        1 => 1,
        2 if big => u32::MAX - rng.below(3) as u32,
        _ => rng.below(if big { 1 << 31 } else { 5000 }) as u32,
    }
}

fn ident(rng: &mut Rng) -> [u8; 32] {
    let mut id = [0u8; 32];
    match rng.below(4) {
        0 | 1 => {}
        2 => id[31] = 1,
        _ => id = [rng.below(3) as u8; 32],
    }
    id
}

fn gen_rem(rng: &mut Rng, big: bool) -> StorageRemovedBytes {
    match rng.below(5) {
        0 => StorageRemovedBytes::NoStorageRemoval,
        1 | 2 => StorageRemovedBytes::BasicStorageRemoval(amount(rng, big)),
        _ => {
            let mut m = BTreeMap::new();
            for _ in 0..rng.below(4) {
                let mut im = IntMap::new();
                for _ in 0..rng.below(4) {
                    let e = *rng.pick(&[0u16, 1, 2, 255, 256, u16::MAX - 1, UNKNOWN_EPOCH]);
                    im.insert(e, amount(rng, big));
                }
                m.insert(ident(rng), im);
            }
            StorageRemovedBytes::SectionedStorageRemoval(m)
        }
    }
}

fn n32(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 => u32::MAX - rng.below(4) as u32,
        2 => rng.below(1 << 32) as u32,
        _ => rng.below(1000) as u32,
    }
}
fn n64(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => u64::MAX - rng.below(4),
        1 => rng.u64(),
        _ => rng.below(10_000),
    }
}

fn gen_storage(rng: &mut Rng, big: bool) -> StorageCost {
    StorageCost {
        added_bytes: n32(rng),
        replaced_bytes: n32(rng),
        removed_bytes: gen_rem(rng, big),
    }
}

fn gen_cost(rng: &mut Rng, big: bool) -> OperationCost {
    OperationCost {
        seek_count: n32(rng),
        storage_cost: gen_storage(rng, big),
        storage_loaded_bytes: n64(rng),
        hash_node_calls: n32(rng),
        sinsemilla_hash_calls: n32(rng),
    }
}

/// the specification's view of a cost
#[derive(Clone, Debug, PartialEq, Eq)]
struct Spec {
    seek: u32,
    added: u32,
    replaced: u32,
    removed: Rem,
    loaded: u64,
    hash: u32,
    sins: u32,
}
fn spec(c: &OperationCost) -> Spec {
    Spec {
        seek: c.seek_count,
        added: c.storage_cost.added_bytes,
        replaced: c.storage_cost.replaced_bytes,
        removed: of(&c.storage_cost.removed_bytes),
        loaded: c.storage_loaded_bytes,
        hash: c.hash_node_calls,
        sins: c.sinsemilla_hash_calls,
    }
}
fn spec_sum(a: &Spec, b: &Spec) -> Spec {
    Spec {
        seek: a.seek.saturating_add(b.seek),
        added: a.added.saturating_add(b.added),
        replaced: a.replaced.saturating_add(b.replaced),
        removed: spec_add(&a.removed, &b.removed),
        loaded: a.loaded.saturating_add(b.loaded),
        hash: a.hash.saturating_add(b.hash),
        sins: a.sins.saturating_add(b.sins),
    }
}
fn spec_zero() -> Spec {
    spec(&OperationCost::default())
}

/// adds a list of costs in a random grouping with a random mixture of
/// operators and combinators
fn add_up(rng: &mut Rng, v: &[OperationCost]) -> OperationCost {
    if v.is_empty() {
        return OperationCost::default();
    }
    if v.len() == 1 {
        return v[0].clone();
    }
    let cut = 1 + rng.usize(v.len() - 1);
    let a = add_up(rng, &v[..cut]);
    let b = add_up(rng, &v[cut..]);
    match rng.below(9) {
        0 => a + b,
        1 => {
            let mut a = a;
            a += b;
            a
        }
        2 => ().wrap_with_cost(a).add_cost(b).cost,
        3 => 1u8.wrap_with_cost(a).flat_map(|x| (x + 1).wrap_with_cost(b)).cost,
        4 => {
            let mut acc = a;
            ().wrap_with_cost(b).unwrap_add_cost(&mut acc);
            acc
        }
        5 => {
            let r: CostResult<u8, u8> = Ok(1).wrap_with_cost(a);
            r.flat_map_ok(|x| Ok::<u8, u8>(x).wrap_with_cost(b)).cost
        }
        6 => ().wrap_with_cost(b).wrap_with_cost(a).flatten().cost,
        7 => {
            let mut cost = a;
            let f = || -> CostResult<u8, u8> {
                let x = cost_return_on_error!(&mut cost, Ok::<u8, u8>(3).wrap_with_cost(b));
                Ok(x).wrap_with_cost(cost.clone())
            };
            f().cost
        }
        _ => OperationCost {
            seek_count: a.seek_count.saturating_add(b.seek_count),
            storage_cost: a.storage_cost + b.storage_cost,
            storage_loaded_bytes: a.storage_loaded_bytes.saturating_add(b.storage_loaded_bytes),
            hash_node_calls: a.hash_node_calls.saturating_add(b.hash_node_calls),
            sinsemilla_hash_calls: a.sinsemilla_hash_calls.saturating_add(b.sinsemilla_hash_calls),
        },
    }
}

fn sums(c: &mut Case) -> Res {
    let big = c.rng.chance(1, 8);
    let n = 1 + c.rng.usize(7);
    let v: Vec<OperationCost> = (0..n).map(|_| gen_cost(&mut c.rng, big)).collect();
    let want = v.iter().map(spec).fold(spec_zero(), |a, b| spec_sum(&a, &b));
    c.note(format!("costs: {v:?}"));
    for _ in 0..3 {
        let got = add_up(&mut c.rng, &v);
        c.same(&spec(&got), &want, "sum-of-costs")?;
        if !big {
            let t = got.storage_cost.removed_bytes.total_removed_bytes();
            c.same(&(t as u64), &total(&want.removed), "total-removed-bytes")?;
        }
        c.same(
            &got.storage_cost.removed_bytes.has_removal(),
            &(total(&want.removed) != 0),
            "has-removal",
        )?;
        c.same(&got.is_nothing(), &(want == spec_zero()), "is-nothing")?;
    }
    // order does not matter for the amounts
    let mut w = v.clone();
    c.rng.shuffle(&mut w);
    let got = spec(&add_up(&mut c.rng, &w));
    c.same(&got, &want, "sum-order")?;
    // removed bytes on their own, both operators
    let mut acc = StorageRemovedBytes::NoStorageRemoval;
    let mut acc2 = StorageRemovedBytes::default();
    let mut model = Rem::None;
    for x in &v {
        let r = x.storage_cost.removed_bytes.clone();
        model = spec_add(&model, &of(&r));
        acc = acc + r.clone();
        acc2 += r;
        c.same(&of(&acc), &model, "removed-add")?;
        c.same(&of(&acc2), &model, "removed-add-assign")?;
    }
    // key/value costs
    let mk = |rng: &mut Rng| KeyValueStorageCost {
        key_storage_cost: gen_storage(rng, false),
        value_storage_cost: gen_storage(rng, false),
        new_node: rng.bool(),
        needs_value_verification: rng.bool(),
    };
    let (a, b) = (mk(&mut c.rng), mk(&mut c.rng));
    let mut ab = a.clone();
    ab += b.clone();
    for (name, s) in [("kv-add-assign", ab), ("kv-add", a.clone() + b.clone())] {
        for (got, x, y) in [
            (&s.key_storage_cost, &a.key_storage_cost, &b.key_storage_cost),
            (&s.value_storage_cost, &a.value_storage_cost, &b.value_storage_cost),
        ] {
            c.same(&got.added_bytes, &x.added_bytes.saturating_add(y.added_bytes), name)?;
            c.same(&got.replaced_bytes, &x.replaced_bytes.saturating_add(y.replaced_bytes), name)?;
            c.same(&of(&got.removed_bytes), &spec_add(&of(&x.removed_bytes), &of(&y.removed_bytes)), name)?;
        }
        c.same(&s.new_node, &(a.new_node && b.new_node), name)?;
        c.same(
            &s.needs_value_verification,
            &(a.needs_value_verification && b.needs_value_verification),
            name,
        )?;
    }
    let comb = of(&a.clone().combined_removed_bytes());
    let want_c = spec_add(&of(&a.key_storage_cost.removed_bytes), &of(&a.value_storage_cost.removed_bytes));
    c.same(&comb, &want_c, "kv-combined-removed")?;
    // comparison
    if !big {
        let (x, y) = (&v[0], &v[n - 1]);
        let (sx, sy) = (spec(x), spec(y));
        let want = sx.seek >= sy.seek
            && sx.replaced >= sy.replaced
            && sx.added >= sy.added
            && total(&sx.removed) <= total(&sy.removed)
            && sx.loaded >= sy.loaded
            && sx.hash >= sy.hash
            && sx.sins >= sy.sins;
        c.same(&x.worse_or_eq_than(y), &want, "worse-or-eq")?;
        // near misses: exactly one component differs
        let mut z = x.clone();
        let (bump, less) = match c.rng.below(5) {
            0 => (z.seek_count < u32::MAX, { z.seek_count = z.seek_count.saturating_add(1); false }),
            1 => (z.storage_cost.added_bytes < u32::MAX, { z.storage_cost.added_bytes = z.storage_cost.added_bytes.saturating_add(1); false }),
            2 => (z.storage_cost.replaced_bytes < u32::MAX, { z.storage_cost.replaced_bytes = z.storage_cost.replaced_bytes.saturating_add(1); false }),
            3 => (z.storage_loaded_bytes < u64::MAX, { z.storage_loaded_bytes = z.storage_loaded_bytes.saturating_add(1); false }),
            _ => (z.hash_node_calls < u32::MAX, { z.hash_node_calls = z.hash_node_calls.saturating_add(1); false }),
        };
        if bump {
            c.same(&x.worse_or_eq_than(&z), &less, "worse-or-eq-one")?;
            c.same(&z.worse_or_eq_than(x), &true, "worse-or-eq-one")?;
        }
        let st = &x.storage_cost;
        c.same(
            &st.has_storage_change(),
            &(sx.added != 0 || total(&sx.removed) != 0),
            "has-storage-change",
        )?;
        let rem = total(&sx.removed) > 0;
        let want = match (sx.added > 0, rem, sx.replaced > 0) {
            (true, true, _) => 0,
            (true, false, true) => 1,
            (true, false, false) => 2,
            (false, true, true) => 3,
            (false, true, false) => 4,
            (false, false, true) => 5,
            (false, false, false) => 6,
        };
        let got = match st.transition_type() {
            T::OperationReplace => 0,
            T::OperationUpdateBiggerSize => 1,
            T::OperationInsertNew => 2,
            T::OperationUpdateSmallerSize => 3,
            T::OperationDelete => 4,
            T::OperationUpdateSameSize => 5,
            T::OperationNone => 6,
        };
        c.same(&got, &want, "transition-type")?;
    }
    let kinds: Vec<u8> = v
        .iter()
        .map(|x| match of(&x.storage_cost.removed_bytes) {
            Rem::None => 0u8,
            Rem::Basic(_) => 1,
            Rem::Sect(m) => 2 + m.contains_key(&([0; 32], UNKNOWN_EPOCH)) as u8 + 2 * m.keys().any(|k| k.0 == [0; 32]) as u8,
        })
        .collect();
    if kinds.iter().any(|k| *k >= 2) && kinds.contains(&1) {
        c.count("mixed_removals", 1);
    }
    c.eval(fnv(&[&kinds[..], &c.idx.to_le_bytes()].concat()), n > 1);
    if c.wants_sample() {
        c.sample(format!("sum of {n} costs, removal kinds {kinds:?}, removed total {}", total(&want.removed)));
    }
    Ok(())
}

/// composition: a routine of random steps that may fail at one of them; the
/// cost reported is that of all steps done, whichever way it ends
fn compose(c: &mut Case) -> Res {
    let n = 1 + c.rng.usize(8);
    let costs: Vec<OperationCost> = (0..n).map(|_| gen_cost(&mut c.rng, false)).collect();
    let kinds: Vec<u64> = (0..n).map(|_| c.rng.below(7)).collect();
    let fail_at = if c.rng.chance(2, 3) { Some(c.rng.usize(n)) } else { None };
    #[derive(Debug, PartialEq)]
    struct E(usize);
    impl From<u16> for E {
        fn from(x: u16) -> E {
            E(x as usize)
        }
    }
    fn routine(costs: &[OperationCost], kinds: &[u64], fail_at: Option<usize>) -> CostResult<usize, E> {
        let mut cost = OperationCost::default();
        let mut acc = 0usize;
        for i in 0..costs.len() {
            let bad = fail_at == Some(i);
            let st = costs[i].clone();
            let r: Result<usize, E> = if bad { Err(E(i)) } else { Ok(i + 1) };
            let ri: Result<usize, u16> = if bad { Err(i as u16) } else { Ok(i + 1) };
            let x = match kinds[i] {
                0 => cost_return_on_error!(&mut cost, r.wrap_with_cost(st)),
                1 => cost_return_on_error_into!(&mut cost, ri.wrap_with_cost(st)),
                2 => {
                    cost += st;
                    cost_return_on_error_no_add!(cost, r)
                }
                3 => {
                    cost += st;
                    cost_return_on_error_into_no_add!(cost, ri)
                }
                4 => cost_return_on_error!(
                    &mut cost,
                    Ok::<usize, E>(0).wrap_with_cost(st).flat_map_ok(|_| r.wrap_with_cost(OperationCost::default()))
                ),
                5 => cost_return_on_error!(
                    &mut cost,
                    ri.wrap_with_cost(OperationCost::default()).map_err(E::from).map_ok(|x| x).add_cost(st).for_ok(|_| ())
                ),
                _ => cost_return_on_error!(
                    &mut cost,
                    Ok::<Result<usize, E>, E>(r).wrap_fn_cost(|_| st.clone()).flatten()
                ),
            };
            acc += x;
        }
        Ok(acc).wrap_with_cost(cost)
    }
    let got: CostContext<_> = routine(&costs, &kinds, fail_at);
    let upto = fail_at.map(|f| f + 1).unwrap_or(n);
    let want = costs[..upto].iter().map(spec).fold(spec_zero(), |a, b| spec_sum(&a, &b));
    c.note(format!("kinds {kinds:?} fail_at {fail_at:?} costs {costs:?}"));
    c.same(&spec(got.cost()), &want, "composed-cost")?;
    let want_v = match fail_at {
        Some(i) => Err(E(i)),
        None => Ok((1..=n).sum::<usize>()),
    };
    c.same(got.value(), &want_v, "composed-value")?;
    let car = got.cost_as_result();
    c.ensure(
        match (&car, fail_at) {
            (Ok(k), None) => spec(k) == want,
            (Err(e), Some(i)) => e == &E(i),
            _ => false,
        },
        "cost-as-result",
        || format!("{car:?}"),
    )?;
    // the early-return forms that promise no cost
    let d = |bad: bool| -> CostResult<u8, u8> {
        let x: u8 = cost_return_on_error_default!(if bad { Err(9u8) } else { Ok(1u8) });
        Ok(x).wrap_with_cost(OperationCost::with_seek_count(1))
    };
    let di = |bad: bool| -> CostResult<u8, u16> {
        let x: u8 = cost_return_on_error_into_default!(if bad { Err(9u8) } else { Ok(1u8) });
        Ok(x).wrap_with_cost(OperationCost::with_seek_count(1))
    };
    c.ensure(
        d(true).cost.is_nothing() && d(false).cost.seek_count == 1 && di(true).cost.is_nothing() && di(true).value == Err(9),
        "default-forms",
        || "early return without cost".into(),
    )?;
    c.eval(fnv(format!("{kinds:?}{fail_at:?}").as_bytes()), n > 1);
    c.count(if fail_at.is_some() { "composed_failing" } else { "composed_ok" }, 1);
    Ok(())
}

fn varint_len(mut n: u64) -> u32 {
    let mut l = 1;
    while n >= 128 {
        n >>= 7;
        l += 1;
    }
    l
}

fn size(rng: &mut Rng) -> u32 {
    let around = *rng.pick(&[0u32, 1, 126, 127, 128, 129, 253, 255, 256, 16382, 16383, 16384, 16385, 2097151, 2097152]);
    match rng.below(3) {
        0 => around,
        1 => around.saturating_add(rng.below(6) as u32).saturating_sub(rng.below(6) as u32),
        _ => rng.below(40_000) as u32,
    }
}

/// size accounting for updates and key/value writes
fn sizes(c: &mut Case) -> Res {
    // updating the root key of a tree: old and new stored sizes are accounted
    let new = size(&mut c.rng);
    let old = if c.rng.chance(1, 5) { None } else { Some(size(&mut c.rng)) };
    let paid = |l: u32| l + varint_len(l as u64);
    let k = KeyValueStorageCost::for_updated_root_cost(old, new);
    c.note(format!("root key update {old:?} -> {new}"));
    let v = &k.value_storage_cost;
    let rem = v.removed_bytes.total_removed_bytes();
    c.same(&(v.added_bytes + v.replaced_bytes), &paid(new), "root-new-size")?;
    c.same(&(v.replaced_bytes + rem), &old.map(paid).unwrap_or(0), "root-old-size")?;
    c.ensure(v.added_bytes == 0 || rem == 0, "root-added-and-removed", || format!("added {} removed {rem}", v.added_bytes))?;
    let ks = &k.key_storage_cost;
    c.same(
        &(ks.added_bytes, ks.replaced_bytes, ks.removed_bytes.total_removed_bytes()),
        &(if old.is_none() { (34, 0, 0) } else { (0, 34, 0) }),
        "root-key-bytes",
    )?;
    c.same(&k.new_node, &old.is_none(), "root-new-node")?;
    c.same(&k.needs_value_verification, &false, "root-needs-verification")?;

    // writing one key/value
    let key_len = size(&mut c.rng).min(300_000);
    let value_len = size(&mut c.rng);
    let child = |rng: &mut Rng| if rng.bool() { Some((rng.below(60) as u32, rng.below(20) as u32)) } else { None };
    let children: Option<(Option<(u8, u32)>, _, _)> = if c.rng.bool() {
        let f = if c.rng.bool() { Some((c.rng.below(3) as u8, c.rng.below(20) as u32)) } else { None };
        Some((f, child(&mut c.rng), child(&mut c.rng)))
    } else {
        None
    };
    let cs: ChildrenSizesWithIsSumTree = children.map(|(f, l, r)| {
        (
            f.map(|(t, l)| {
                (
                    match t {
                        0 => TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes,
                        1 => TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes,
                        _ => TreeCostType::TreeFeatureUses16Bytes,
                    },
                    l,
                )
            }),
            l,
            r,
        )
    });
    // a node's payable size does not depend on its children's encodings
    let value_paid = match &children {
        None => paid(value_len),
        Some((f, l, r)) => {
            let kids: u32 = [l, r].iter().filter_map(|x| x.as_ref()).map(|(a, b)| a + b).sum();
            let mut p = value_len.saturating_sub(2).saturating_sub(kids);
            let mut fsize = 0;
            if let Some((t, flen)) = f {
                fsize = if *t == 0 { 8 } else { 16 };
                p = p.saturating_sub(*flen) + fsize;
            }
            paid(p) + key_len + 4 + fsize
        }
    };
    let kv = |ka: u32, kr: u32, va: u32, vr: u32, new: bool, verify: bool| KeyValueStorageCost {
        key_storage_cost: StorageCost { added_bytes: ka, replaced_bytes: kr, ..Default::default() },
        value_storage_cost: StorageCost { added_bytes: va, replaced_bytes: vr, ..Default::default() },
        new_node: new,
        needs_value_verification: verify,
    };
    let clone_cs = |cs: &ChildrenSizesWithIsSumTree| -> ChildrenSizesWithIsSumTree {
        cs.as_ref().map(|(f, l, r)| {
            (
                f.as_ref().map(|(t, n)| {
                    (
                        match t {
                            TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes => TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes,
                            TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes => TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes,
                            TreeCostType::TreeFeatureUses16Bytes => TreeCostType::TreeFeatureUses16Bytes,
                        },
                        *n,
                    )
                }),
                *l,
                *r,
            )
        })
    };
    let start = gen_cost(&mut c.rng, false);
    let key_paid = paid(key_len);
    c.note(format!("write key_len {key_len} value_len {value_len} children {children:?}"));
    // without cost information everything counts as added
    let mut a = start.clone();
    let r = a.add_key_value_storage_costs(key_len, value_len, clone_cs(&cs), None);
    c.must(r, "kv-no-info")?;
    let mut want = spec(&start);
    want.added = want.added.saturating_add(key_paid).saturating_add(value_paid);
    c.same(&spec(&a), &want, "kv-no-info")?;
    // with information, it has to match what is written, and is then added as is
    let split = |rng: &mut Rng, t: u32| {
        let x = rng.below(t as u64 + 1) as u32;
        (x, t - x)
    };
    let (ka, kr) = split(&mut c.rng, key_paid);
    let (va, vr) = split(&mut c.rng, value_paid);
    let off = match c.rng.below(3) {
        0 => 0u32,
        1 => 1,
        _ => 1 + c.rng.below(9) as u32,
    };
    let on_key = c.rng.bool();
    let new = c.rng.bool();
    let verify = c.rng.bool();
    let info = kv(if on_key { ka + off } else { ka }, kr, if on_key { va } else { va + off }, vr, new, verify);
    let expect_err = off > 0 && if on_key { new } else { verify };
    let mut b = start.clone();
    let r = b.add_key_value_storage_costs(key_len, value_len, cs, Some(info.clone()));
    c.same(&r.is_err(), &expect_err, "kv-mismatch-refused")?;
    if expect_err {
        c.same(&spec(&b), &spec(&start), "kv-refused-unchanged")?;
    } else {
        let mut want = spec(&start);
        for s in [&info.key_storage_cost, &info.value_storage_cost] {
            want.added = want.added.saturating_add(s.added_bytes);
            want.replaced = want.replaced.saturating_add(s.replaced_bytes);
            want.removed = spec_add(&want.removed, &of(&s.removed_bytes));
        }
        c.same(&spec(&b), &want, "kv-info-added")?;
    }
    // verify on its own
    let st = StorageCost { added_bytes: va, replaced_bytes: vr, removed_bytes: gen_rem(&mut c.rng, false) };
    let l = va + vr;
    c.same(&st.verify(l).is_ok(), &true, "verify")?;
    c.same(&st.verify(l + 1).is_ok(), &false, "verify")?;
    c.same(&st.verify_key_storage_cost(l + 1, false).is_ok(), &true, "verify-key")?;
    c.same(&st.verify_key_storage_cost(l + 1, true).is_ok(), &false, "verify-key")?;
    c.eval(fnv(format!("{old:?}{new}{key_len}{value_len}{children:?}").as_bytes()), true);
    if expect_err {
        c.count("refused_size_mismatches", 1);
    }
    // constructors
    let n = size(&mut c.rng);
    let z = OperationCost::default;
    c.same(&OperationCost::with_seek_count(n), &OperationCost { seek_count: n, ..z() }, "with-seek")?;
    c.same(&OperationCost::with_hash_node_calls(n), &OperationCost { hash_node_calls: n, ..z() }, "with-hash")?;
    c.same(&OperationCost::with_storage_loaded_bytes(n as u64), &OperationCost { storage_loaded_bytes: n as u64, ..z() }, "with-loaded")?;
    let w = spec(&OperationCost::with_storage_written_bytes(n));
    c.same(&w, &Spec { added: n, ..spec_zero() }, "with-written")?;
    let w = spec(&OperationCost::with_storage_freed_bytes(n));
    c.same(&w, &Spec { removed: Rem::Basic(n), ..spec_zero() }, "with-freed")?;
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("random cost values (plain, sectioned and absent removals over few identifiers and epochs, saturating amounts) added in random groupings, orders and by every operator and combinator; random routines of early-return forms failing at a random step; random old/new sizes around the variable-length boundaries. Non-trivial: more than one cost or step, or a size pair.");
    ctx.assume("amounts per identifier and epoch add up with saturation; plain removals join the unknown epoch of the default identifier when mixed with sectioned ones");
    ctx.cases("sums", ctx.n(600_000, 6_000_000), sums);
    ctx.cases("compose", ctx.n(300_000, 3_000_000), compose);
    ctx.cases("sizes", ctx.n(600_000, 6_000_000), sizes);
    ctx.require("mixed_removals", 1000);
    ctx.require("composed_failing", 1000);
    ctx.require("refused_size_mismatches", 1000);
}
