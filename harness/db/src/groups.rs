//! The properties of the whole database, each with the kind of history that puts it at risk.
use crate::history::{Kind, Lab, Step, run};
use crate::sim::{ALL, BOp, Kindly, Op, Taste, pick_batch, pick_op, pick_tree};
use grovedb::Element;
use rocksdb::shim::Fault;
use vcommon::{Ctx, Rng};

fn finish(rng: &mut Rng, out: &mut Vec<Step>, i: usize, every: usize, n: usize) {
    if i % every == every - 1 || i + 1 == n {
        out.extend([Step::Reads, Step::Queries(4), Step::Verify]);
        if rng.chance(1, 3) {
            out.push(Step::Reopen);
        }
    }
}
pub fn g01(x: &Ctx) {
    x.rule("random histories of every kind of operation on a real database; after each operation the stored rows, the root hash and all reads are compared with a model of nested ordered maps");
    x.cases("histories", x.n(3000, 60000), |c| {
        let taste = Taste { wild: c.rng.chance(1, 4), ..ALL };
        let n = 10 + c.rng.usize(50);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            if rng.chance(1, 120) {
                out.push(Step::Wipe);
            }
            finish(rng, out, i, 10, n);
        })
    });
    for k in ["item-values", "items-or-sums", "sums", "named-keys", "queries at once", "sums-up-to-a-budget"] {
        x.require(k, 1000);
    }
    x.require("databases wiped", 200);
    x.require("auxiliary values read", 1000);
    x.require("rows returned", 15000);
    x.require("keys read", 40000);
    x.require("reopenings", 1000);
    x.require("appended values read", 10000);
}
pub fn g02(x: &Ctx) {
    x.rule("random histories; after each operation the root hash is recomputed from the rows stored, compared with the reported one and with those of all earlier contents; integrity verification and reopening at any time");
    x.cases("roots", x.n(3000, 60000), |c| {
        let n = 10 + c.rng.usize(60);
        run(c, n, |rng, l, _, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &ALL)));
            match rng.below(6) {
                0 => out.extend([Step::Reopen, Step::Verify]),
                1 => out.push(Step::Verify),
                _ => {}
            }
        })
    });
    x.require("integrity verifications", 2000);
    x.require("rows audited", 300000);
}
pub fn g03(x: &Ctx) {
    x.rule("random batches on random databases: the result is that of the operations one by one in the model, and the same rows result when the batch is listed in another order, applied in a transaction or in parts");
    let taste = Taste { batches: true, ..ALL };
    x.cases("batches", x.n(2500, 50000), |c| {
        let n = 5 + c.rng.usize(25);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            out.push(Step::Twin(pick_batch(rng, &l.s, &taste), rng.u64()));
            finish(rng, out, i, 15, n);
        })
    });
    x.require("batches applied in another way", 15000);
    x.require("rows audited", 300000);
}
pub fn g04(x: &Ctx) {
    x.rule("operations hit by a failing read, write or transaction operation at a random point: the rows stored are unchanged, and the operation works when issued again");
    x.cases("faults", x.n(8000, 120000), |c| {
        let n = 5 + c.rng.usize(30);
        let taste = Taste { wild: c.rng.chance(1, 4), ..ALL };
        run(c, n, |rng, l, i, out| {
            let op = pick_op(rng, &l.s, &taste);
            if rng.chance(2, 3) {
                let (k, wide) = *rng.pick(&[(Kind::Write, 2), (Kind::Read, 12), (Kind::Read, 60), (Kind::TxOp, 6), (Kind::TxOp, 30)]);
                out.push(Step::Faulty(k, rng.below(wide), op.clone()));
            }
            out.push(Step::Op(op));
            finish(rng, out, i, 15, n);
        })
    });
    x.require("operations hit by a fault", 10000);
}
pub fn g05(x: &Ctx) {
    x.rule("operations inside and beside a transaction: isolation, own reads, root hashes, commit, rollback, dropping, and conflicts between what was changed inside and outside");
    x.cases("transactions", x.n(15000, 300000), |c| {
        let n = 10 + c.rng.usize(40);
        run(c, n, |rng, l, i, out| {
            match rng.below(20) {
                0..=2 if !l.open_tx() => out.push(Step::Begin),
                3 | 4 => out.push(Step::Commit),
                5 => out.push(Step::Rollback),
                6 => out.push(Step::DropTx),
                7 => out.push(Step::TxReads),
                8..=10 if !l.open_tx() || rng.chance(1, 3) => out.push(Step::Op(pick_op(rng, &l.s, &ALL))),
                _ => match l.in_tx() {
                    Some(s) => out.push(Step::InTx(pick_op(rng, s, &ALL))),
                    None if l.open_tx() => out.push(Step::Commit),
                    None => out.push(Step::Begin),
                },
            }
            finish(rng, out, i, 25, n);
        })
    });
    x.require("transactions in conflict", 2000);
    x.require("transactions committed", 10000);
    x.require("transactions rolled back", 5000);
    x.require("reads in transactions", 5000);
}
pub fn g06(x: &Ctx) {
    x.rule("the process ends before, after or in the middle of a write; after reopening the rows are those before or after the operation in flight, and histories go on from there");
    x.cases("crashes", x.n(10000, 200000), |c| {
        let n = 5 + c.rng.usize(30);
        run(c, n, |rng, l, i, out| {
            let op = pick_op(rng, &l.s, &ALL);
            if rng.bool() {
                let f = *rng.pick(&[Fault::CrashBefore, Fault::CrashAfter, Fault::CrashTorn]);
                out.push(Step::Crash(f, if rng.chance(3, 4) { 0 } else { rng.below(3) }, op));
            } else {
                out.push(Step::Op(op));
            }
            finish(rng, out, i, 15, n);
        })
    });
    x.require("crashes: state after", 6000);
    x.require("crashes: state before", 12000);
}
pub fn g07(x: &Ctx) {
    x.rule("histories on nested sum, big sum and count trees with extreme sums; every stored aggregate is compared with the totals of the contents, and overflowing operations must be refused");
    x.cases("aggregates", x.n(3000, 60000), |c| {
        let taste = Taste { wild: c.rng.chance(2, 3), logs: c.rng.chance(1, 3), refs: c.rng.chance(1, 2), sums: true, ..ALL };
        let n = 10 + c.rng.usize(60);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            finish(rng, out, i, 30, n);
        })
    });
    x.require("rows audited", 400000);
    x.require("operations refused", 5000);
}
pub fn g08(x: &Ctx) {
    x.rule("histories with many references of every kind, chains and cycles; every read follows the model, and hashes recorded with references are those of their targets when written");
    x.cases("references", x.n(6000, 100000), |c| {
        let taste = Taste { many_refs: true, deep: 2, ..ALL };
        let n = 10 + c.rng.usize(60);
        run(c, n, |rng, l, i, out| {
            if rng.chance(1, 25) {
                out.extend(crate::sim::pick_chain(rng, &l.s).into_iter().map(Step::Op));
            }
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            finish(rng, out, i, 10, n);
        })
    });
    x.require("references recorded", 15000);
    x.require("rows returned", 30000);
}
pub fn g11(x: &Ctx) {
    x.rule("checkpoints taken at any time, the original changed afterwards; each checkpoint opened later holds exactly what was there, and changes to one do not show in the other");
    x.cases("checkpoints", x.n(5000, 80000), |c| {
        let n = 5 + c.rng.usize(30);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &ALL)));
            if rng.chance(1, 6) {
                out.push(Step::Checkpoint);
            }
            if i + 1 == n || rng.chance(1, 10) {
                out.push(Step::Checkpoints);
            }
        })
    });
    x.require("checkpoints compared", 8000);
    x.require("checkpoints written to", 2500);
}
pub fn g12(x: &Ctx) {
    x.rule("trees are grown and then deleted or cleared in every way; afterwards every row stored belongs to something that is still there");
    x.cases("deletions", x.n(3000, 60000), |c| {
        let grow = Taste { deletes: false, trees: true, ..ALL };
        let n = 10 + c.rng.usize(60);
        run(c, n, |rng, l, i, out| {
            let op = if rng.chance(1, 3) { crate::sim::pick_deletion(rng, &l.s, &ALL) } else { pick_op(rng, &l.s, &grow) };
            out.push(Step::Op(op));
            finish(rng, out, i, 30, n);
        })
    });
    x.require("rows audited", 400000);
    x.require("absent keys read", 40000);
}
pub fn g14(x: &Ctx) {
    x.rule("append-only trees in the database: appends alone, in batches and in transactions, with faults; values, counts, roots and the enclosing rows are compared with the model");
    x.cases("append-only", x.n(4000, 80000), |c| {
        let taste = Taste { many_logs: true, deep: 2, ..ALL };
        let n = 10 + c.rng.usize(60);
        run(c, n, |rng, l, i, out| {
            match rng.below(12) {
                0 if !l.open_tx() => out.push(Step::Begin),
                1 | 2 if l.open_tx() => out.push(if rng.bool() { Step::Commit } else { Step::TxReads }),
                3 => {
                    let (k, wide) = *rng.pick(&[(Kind::Write, 2), (Kind::Read, 12), (Kind::TxOp, 8)]);
                    out.push(Step::Faulty(k, rng.below(wide), pick_op(rng, &l.s, &taste)));
                }
                _ => match l.in_tx() {
                    Some(s) => out.push(Step::InTx(pick_op(rng, s, &taste))),
                    None if l.open_tx() => out.push(Step::Commit),
                    None => out.push(Step::Op(pick_op(rng, &l.s, &taste))),
                },
            }
            finish(rng, out, i, 20, n);
        })
    });
    x.require("appended values read", 40000);
    x.require("operations hit by a fault", 2000);
    x.require("operations applied in transactions", 8000);
}
/// trees with many entries, made in one batch
fn many(rng: &mut Rng) -> Op {
    let mut ops = vec![];
    for i in 0..1 + rng.below(3) as u8 {
        let e = pick_tree(rng);
        let sums = matches!(e, Element::SumTree(..) | Element::BigSumTree(..) | Element::CountSumTree(..) | Element::ProvableCountSumTree(..));
        ops.push(BOp::Put(vec![], vec![i], e, Kindly::Put));
        let n = 5 + rng.usize(150);
        let mut at = std::collections::BTreeSet::new();
        for _ in 0..n {
            at.insert(rng.bytes(2));
        }
        for k in at {
            let e = if sums && rng.bool() { Element::new_sum_item(rng.range(0, 1000) as i64 - 500) } else { Element::new_item(k.clone()) };
            ops.push(BOp::Put(vec![vec![i]], k, e, Kindly::Put));
        }
    }
    Op::Batch(ops, (false, false, false))
}
pub fn g10(x: &Ctx) {
    x.rule("a state is fetched chunk by chunk into an empty database, in any order; honest chunks give the same rows, tampered ones never a committed state with other contents");
    x.cases("syncs", x.n(4000, 40000), |c| {
        let taste = Taste { logs: false, deep: 4, ..ALL };
        let n = 2 + c.rng.usize(50);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            if i + 1 == n {
                out.push(Step::Sync(1 + rng.usize(6), None));
                out.push(Step::Sync(1 + rng.usize(6), Some(rng.u64())));
            }
        })
    });
    x.cases("long syncs", x.n(300, 4000), |c| {
        let taste = Taste { logs: false, deep: 4, ..ALL };
        let n = 2 + c.rng.usize(12);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(if i == 0 { many(rng) } else { pick_op(rng, &l.s, &taste) }));
            if i + 1 == n {
                out.push(Step::Sync(1 + rng.usize(6), None));
                out.push(Step::Sync(1 + rng.usize(6), Some(rng.u64())));
                out.push(Step::Sync(1 + rng.usize(6), Some(rng.u64())));
            }
        })
    });
    x.require("states received", 2000);
    x.require("changed chunks refused", 800);
    x.require("chunks fetched", 8000);
}
pub fn p02(x: &Ctx) {
    x.rule("random queries on random databases are proved; the proof verifies, has the root hash of the database and yields the rows the model gives");
    x.cases("proofs", x.n(8000, 120000), |c| {
        let taste = Taste { wild: c.rng.chance(1, 6), ..ALL };
        let n = 2 + c.rng.usize(40);
        run(c, n, |rng, l, i, out| {
            out.push(Step::Op(pick_op(rng, &l.s, &taste)));
            if i + 1 == n || rng.chance(1, 12) {
                out.push(Step::Proofs(12));
            }
        })
    });
    x.require("proofs verified", 80000);
    x.require("rows proved", 80000);
    x.require("trunks verified", 2000);
    x.require("branches verified", 2000);
}
fn _unused(_: &Lab, _: &Op) {}
