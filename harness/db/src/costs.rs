//! G09: what operations say they add and remove is what they leave behind.
use crate::history::{Step, run, show};
use crate::model::{Kind, Node, Path, Tree};
use crate::obs::{V, ensure};
use crate::sim::{ALL, BOp, InsertHow, Kindly, Op, Taste, issue, pick_flags, pick_key, pick_log, pick_op, pick_path, pick_tree, pick_value, summed, v};
use grovedb::batch::estimated_costs::EstimatedCostsType::WorstCaseCostsType;
use grovedb::batch::{KeyInfoPath, key_info::KeyInfo};
use grovedb::{Element, GroveDb};
use grovedb_costs::OperationCost;
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::NoStorageRemoval;
use grovedb_merk::estimated_costs::worst_case_costs::WorstCaseLayerInformation::MaxElementsNumber;
use std::collections::HashMap;
use vcommon::{Ctx, Rng};

pub fn net(c: &OperationCost) -> i64 {
    c.storage_cost.added_bytes as i64 - c.storage_cost.removed_bytes.total_removed_bytes() as i64
}
/// an item that is stored with as many bytes
fn as_long(e: &Element) -> Element {
    let size = |e: &Element| e.serialize(v()).unwrap().len();
    let want = size(e);
    for flags in [None, Some(0), Some(1), Some(2), Some(3)] {
        for n in want.saturating_sub(12)..want {
            let x = Element::Item(vec![1; n], flags.map(|f| vec![0; f]));
            if size(&x) == want {
                return x;
            }
        }
    }
    unreachable!("no item of {want} bytes")
}
/// what building these contents from nothing costs
pub fn built(dir: &std::path::Path, t: &Tree, rng: &mut Rng) -> V<i64> {
    let db = crate::history::open(dir)?;
    let mut sum = 0;
    let mut run = |op: Op| {
        let (r, c) = issue(&db, None, &op);
        sum += net(&c);
        ensure(r.is_ok(), "building-fails", || format!("{}: {:?}", show(&op), r.err()))
    };
    let mut open: Vec<(Path, Vec<u8>, Node, bool)> = t.map.iter().map(|(k, n)| (vec![], k.clone(), n.clone(), t.kind.sums())).collect();
    while !open.is_empty() {
        let i = rng.usize(open.len());
        let (p, k, n, sums) = open.swap_remove(i);
        let bare = match &n {
            Node::Tree(t) => Node::Tree(Tree::new(t.kind, t.flags.clone())).element(),
            Node::Log(l) => Node::Log(crate::model::Log { values: vec![], ..l.clone() }).element(),
            Node::Leaf(e) if n.is_ref() => as_long(e),
            Node::Leaf(e) => e.clone(),
        };
        // only batches put sums where nothing is summed
        if rng.bool() || (!sums && summed(&bare)) {
            run(Op::Batch(vec![BOp::Put(p.clone(), k.clone(), bare, Kindly::Put)], (false, false, false)))?;
        } else {
            run(Op::Insert(p.clone(), k.clone(), bare, InsertHow::Default))?;
        }
        match n {
            Node::Tree(t) => {
                let mut q = p;
                q.push(k);
                open.extend(t.map.into_iter().map(|(k, n)| (q.clone(), k, n, t.kind.sums())));
            }
            Node::Log(l) => {
                for x in l.values {
                    run(Op::Append(p.clone(), k.clone(), x, l.kind))?;
                }
            }
            Node::Leaf(_) => {}
        }
    }
    Ok(sum)
}
fn full(t: &Tree, p: &Path, k: &Vec<u8>) -> bool {
    t.at(p).and_then(|t| t.map.get(k)).is_some_and(|n| n.is_tree() && !n.empty())
}
/// sums where nothing is summed: only batches put them there, and deletions do not know them
pub fn stray(t: &Tree) -> bool {
    t.map.values().any(|n| match n {
        Node::Leaf(e) => summed(e) && !t.kind.sums(),
        Node::Tree(t) => stray(t),
        _ => false,
    })
}
/// removes rows without going through their trees: only raw rows are accounted for
pub fn wholesale(op: &Op, t: &Tree) -> bool {
    match op {
        Op::Clear(..) | Op::PutAux(..) | Op::DeleteAux(..) => true,
        Op::Delete(p, k, _) => full(t, p, k),
        Op::Batch(ops, _) => ops.iter().any(|o| match o {
            BOp::DeleteTree(p, k, ..) | BOp::Put(p, k, ..) => full(t, p, k),
            // the rows a batch of appends writes once are written again and again one by one
            BOp::Append(..) => true,
            _ => false,
        }),
        _ => false,
    }
}
/// a worst case estimate of insertions below plain trees is not below what they cost
pub fn estimate(o: &mut crate::obs::Obs, t: &Tree, op: &Op, real: &OperationCost) -> V {
    let Op::Batch(ops, _) = op else { return Ok(()) };
    let mut paths = HashMap::new();
    for b in ops {
        let BOp::Put(p, k, e, how) = b else { return Ok(()) };
        let plain = (0..=p.len()).all(|n| t.at(&p[..n]).is_some_and(|t| t.kind == Kind::Plain));
        if matches!(how, Kindly::Absent(_)) || !plain || t.at(p).unwrap().map.contains_key(k) || summed(e) {
            return Ok(());
        }
        for n in 0..=p.len() {
            paths.insert(KeyInfoPath(p[..n].iter().map(|k| KeyInfo::KnownKey(k.clone())).collect()), MaxElementsNumber(u32::MAX));
        }
    }
    let real_ops = ops.iter().map(|o| o.real()).collect();
    let r = GroveDb::estimated_case_operations_for_batch(WorstCaseCostsType(paths), real_ops, None, |_, _, _| Ok(false), |_, _, _| Ok((NoStorageRemoval, NoStorageRemoval)), v());
    let c = r.cost.clone();
    ensure(r.value.is_ok(), "estimate-refused", || format!("{:?} for {}", r.value, show(op)))?;
    ensure(c.worse_or_eq_than(real), "estimate-below-cost", || format!("estimated {c:?}\nreal {real:?}\n{}", show(op)))?;
    o.count("worst case estimates", 1);
    Ok(())
}
/// what one accepted operation says about its costs
pub fn plausible(o: &mut crate::obs::Obs, t: &Tree, op: &Op, c: &OperationCost) -> V {
    estimate(o, t, op, c)?;
    if let Op::Insert(..) = op {
        let s = &c.storage_cost;
        ensure(s.added_bytes == 0 || s.removed_bytes.total_removed_bytes() == 0, "one-insertion-adds-and-removes", || format!("{s:?} for {}", show(op)))?;
    }
    Ok(())
}
pub fn g09(x: &Ctx) {
    x.rule("random histories of direct operations and batches; after each, the bytes added less the bytes removed, summed over all operations, are those of building the present contents from nothing, in another order and in other ways; worst case estimates of insertions are not below what they cost; entries flagged with owners and epochs: every owner's bytes added less removed are those of the entries the owner holds, removed bytes are taken from epochs that hold them");
    x.assume("deletions of whole non-empty trees, clears, batched appends, auxiliary rows and sums in trees that do not sum are not accounted for by entries: after these the account starts afresh");
    x.cases("ledger", x.n(1500, 60000), |c| {
        let taste = Taste { logs: c.rng.chance(1, 3), sums: c.rng.bool(), deletes: c.rng.chance(3, 4), ..ALL };
        let n = 10 + c.rng.usize(30);
        run(c, n, |rng, l, _, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            out.push(Step::Ledger);
        })
    });
    x.cases("estimates", x.n(1500, 40000), |c| {
        let n = 5 + c.rng.usize(20);
        run(c, n, |rng, l, _, out| {
            let ops = (0..1 + rng.usize(4))
                .map(|_| {
                    let p = pick_path(rng, &l.s.tree);
                    let mut k = pick_key(rng);
                    if rng.bool() {
                        let n = rng.usize(60);
                        k.extend(rng.bytes(n));
                    }
                    let e = match rng.below(4) {
                        0 => Element::empty_tree_with_flags(pick_flags(rng)),
                        1 => pick_tree(rng),
                        2 => pick_log(rng),
                        _ => Element::Item(pick_value(rng), pick_flags(rng)),
                    };
                    BOp::Put(p, k, e, if rng.bool() { Kindly::Put } else { Kindly::Fresh })
                })
                .collect();
            out.push(Step::Op(Op::Batch(ops, (false, false, false))));
            out.push(Step::Ledger);
        })
    });
    x.cases("flags", x.n(1200, 100000), crate::epochs::flags);
    for (k, n) in [("accounts compared", 30_000), ("accounts started afresh", 2000), ("worst case estimates", 5000), ("flagged updates", 15_000), ("flagged batches of several", 3000), ("owners changed", 60)] {
        x.require(k, n);
    }
}
