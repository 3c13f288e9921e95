//! Operations: how they are issued, and what they should do to the model.
use crate::model::{Flags, KINDS, Key, Kind, Log, LogKind, Node, Path, Tree, Want, norm};
use grovedb::batch::{BatchApplyOptions, QualifiedGroveDbOp, SubelementsDeletionBehavior};
use grovedb::operations::delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions};
use grovedb::operations::insert::InsertOptions;
use grovedb::reference_path::{ReferencePathType, path_from_reference_path_type};
use grovedb::{Element, Error, GroveDb, Transaction};
use grovedb_commitment_tree::{DashMemo, deserialize_ciphertext};
use grovedb_costs::OperationCost;
use grovedb_merk::tree_type::TreeType;
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vcommon::Rng;

pub fn v() -> &'static GroveVersion {
    GroveVersion::latest()
}
pub fn refs(p: &[Key]) -> Vec<&[u8]> {
    p.iter().map(|k| k.as_slice()).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kindly {
    /// insert or replace
    Put,
    Replace,
    Patch(i32),
    /// known not to exist
    Fresh,
    /// only when absent; refused or skipped otherwise
    Absent(bool),
}
#[derive(Clone, Debug)]
pub enum BOp {
    Put(Path, Key, Element, Kindly),
    Delete(Path, Key),
    DeleteTree(Path, Key, TreeType, Behave),
    Append(Path, Key, Vec<u8>, LogKind),
    Refresh(Path, Key, ReferencePathType, Option<u8>, Flags, bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Behave {
    NoCheck,
    Error,
    Children,
    Skip,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum InsertHow {
    Default,
    Opts(bool, bool),
    IfAbsent,
    IfAbsentGet,
    IfChanged,
}
#[derive(Clone, Debug)]
pub enum Op {
    Insert(Path, Key, Element, InsertHow),
    /// allow non-empty, refuse with an error, validate the path
    Delete(Path, Key, Option<(bool, bool, bool)>),
    DeleteIfEmpty(Path, Key),
    /// allow non-empty, refuse with an error, stop height
    DeleteUp(Path, Key, bool, bool, Option<u16>),
    /// check for subtrees, allow deleting them, refuse with an error
    Clear(Path, Option<(bool, bool, bool)>),
    Append(Path, Key, Vec<u8>, LogKind),
    /// validate no override, validate no tree override, no consistency check
    Batch(Vec<BOp>, (bool, bool, bool)),
    PutAux(Key, Vec<u8>),
    DeleteAux(Key),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bool(bool),
    Maybe(Option<Element>),
    Changed(bool, Option<Element>),
    Number(u64),
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Insert(_, _, _, InsertHow::Default) => "insert",
            Op::Insert(_, _, _, InsertHow::Opts(..)) => "insert with options",
            Op::Insert(_, _, _, InsertHow::IfAbsent) => "insert_if_not_exists",
            Op::Insert(_, _, _, InsertHow::IfAbsentGet) => "insert_if_not_exists_return_existing_element",
            Op::Insert(_, _, _, InsertHow::IfChanged) => "insert_if_changed_value",
            Op::Delete(..) => "delete",
            Op::DeleteIfEmpty(..) => "delete_if_empty_tree",
            Op::DeleteUp(..) => "delete_up_tree_while_empty",
            Op::Clear(..) => "clear_subtree",
            Op::Append(..) => "append",
            Op::Batch(..) => "batch",
            Op::PutAux(..) => "put_aux",
            Op::DeleteAux(..) => "delete_aux",
        }
    }
}
pub fn kind_of(t: TreeType) -> Option<Kind> {
    Some(match t {
        TreeType::NormalTree => Kind::Plain,
        TreeType::SumTree => Kind::Sum,
        TreeType::BigSumTree => Kind::BigSum,
        TreeType::CountTree => Kind::Count,
        TreeType::CountSumTree => Kind::CountSum,
        TreeType::ProvableCountTree => Kind::PCount,
        TreeType::ProvableCountSumTree => Kind::PCountSum,
        _ => return None,
    })
}
pub fn type_of(n: &Node) -> TreeType {
    match n {
        Node::Tree(t) => match t.kind {
            Kind::Plain => TreeType::NormalTree,
            Kind::Sum => TreeType::SumTree,
            Kind::BigSum => TreeType::BigSumTree,
            Kind::Count => TreeType::CountTree,
            Kind::CountSum => TreeType::CountSumTree,
            Kind::PCount => TreeType::ProvableCountTree,
            Kind::PCountSum => TreeType::ProvableCountSumTree,
        },
        Node::Log(l) => match l.kind {
            LogKind::Mmr => TreeType::MmrTree,
            LogKind::Bulk(p) => TreeType::BulkAppendTree(p),
            LogKind::Dense(h) => TreeType::DenseAppendOnlyFixedSizeTree(h),
            LogKind::Commit(p) => TreeType::CommitmentTree(p),
        },
        Node::Leaf(_) => TreeType::NormalTree,
    }
}

// ---- issuing --------------------------------------------------------------

impl BOp {
    pub fn real(&self) -> QualifiedGroveDbOp {
        type Q = QualifiedGroveDbOp;
        match self.clone() {
            BOp::Put(p, k, e, how) => match how {
                Kindly::Put => Q::insert_or_replace_op(p, k, e),
                Kindly::Replace => Q::replace_op(p, k, e),
                Kindly::Patch(d) => Q::patch_op(p, k, e, d),
                Kindly::Fresh => Q::insert_only_known_to_not_already_exist_op(p, k, e),
                Kindly::Absent(true) => Q::insert_if_not_exists_op(p, k, e),
                Kindly::Absent(false) => Q::insert_if_not_exists_or_skip_op(p, k, e),
            },
            BOp::Delete(p, k) => Q::delete_op(p, k),
            BOp::DeleteTree(p, k, t, b) => Q::delete_tree_op(
                p,
                k,
                t,
                match b {
                    Behave::NoCheck => SubelementsDeletionBehavior::DontCheckWithNoCleanup,
                    Behave::Error => SubelementsDeletionBehavior::Error,
                    Behave::Children => SubelementsDeletionBehavior::DeleteChildren,
                    Behave::Skip => SubelementsDeletionBehavior::Skip,
                },
            ),
            BOp::Append(mut p, k, v, kind) => {
                p.push(k);
                match kind {
                    LogKind::Mmr => Q::mmr_tree_append_op(p, v),
                    LogKind::Bulk(_) => Q::bulk_append_op(p, v),
                    LogKind::Dense(_) => Q::dense_tree_insert_op(p, v),
                    LogKind::Commit(_) => {
                        let (a, b, c) = note(&v);
                        Q::commitment_tree_insert_op(p, a, b, c)
                    }
                }
            }
            BOp::Refresh(p, k, r, h, f, t) => Q::refresh_reference_op(p, k, r, h, f, t),
        }
    }
    pub fn at(&self) -> (&Path, &Key) {
        match self {
            BOp::Put(p, k, ..) | BOp::Delete(p, k) | BOp::DeleteTree(p, k, ..) | BOp::Append(p, k, ..) | BOp::Refresh(p, k, ..) => (p, k),
        }
    }
}
/// a note as it is stored: commitment, nullifier, payload
pub fn note(v: &[u8]) -> ([u8; 32], [u8; 32], Vec<u8>) {
    (v[..32].try_into().unwrap(), v[32..64].try_into().unwrap(), v[64..].to_vec())
}
pub fn batch_options(o: (bool, bool, bool)) -> Option<BatchApplyOptions> {
    if o == (false, false, false) {
        return None;
    }
    Some(BatchApplyOptions {
        validate_insertion_does_not_override: o.0,
        validate_insertion_does_not_override_tree: o.1,
        disable_operation_consistency_check: o.2,
        ..Default::default()
    })
}
/// issues the operation; also what it reports to have cost
pub fn issue(db: &GroveDb, tx: Option<&Transaction>, op: &Op) -> (Result<Out, Error>, OperationCost) {
    vcommon::tick();
    let mut cost = OperationCost::default();
    let r = match op {
        Op::Insert(p, k, e, how) => {
            let p = refs(p);
            let p = p.as_slice();
            match how {
                InsertHow::Default => db.insert(p, k, e.clone(), None, tx, v()).unwrap_add_cost(&mut cost).map(|_| Out::Unit),
                InsertHow::Opts(a, b) => db
                    .insert(
                        p,
                        k,
                        e.clone(),
                        Some(InsertOptions { validate_insertion_does_not_override: *a, validate_insertion_does_not_override_tree: *b, base_root_storage_is_free: true }),
                        tx,
                        v(),
                    )
                    .unwrap_add_cost(&mut cost)
                    .map(|_| Out::Unit),
                InsertHow::IfAbsent => db.insert_if_not_exists(p, k, e.clone(), tx, v()).unwrap_add_cost(&mut cost).map(Out::Bool),
                InsertHow::IfAbsentGet => db.insert_if_not_exists_return_existing_element(p, k, e.clone(), tx, v()).unwrap_add_cost(&mut cost).map(Out::Maybe),
                InsertHow::IfChanged => db.insert_if_changed_value(p, k, e.clone(), tx, v()).unwrap_add_cost(&mut cost).map(|(a, b)| Out::Changed(a, b)),
            }
        }
        Op::Delete(p, k, o) => {
            let o = o.map(|o| DeleteOptions {
                allow_deleting_non_empty_trees: o.0,
                deleting_non_empty_trees_returns_error: o.1,
                validate_tree_at_path_exists: o.2,
                ..Default::default()
            });
            db.delete(refs(p).as_slice(), k, o, tx, v()).unwrap_add_cost(&mut cost).map(|_| Out::Unit)
        }
        Op::DeleteIfEmpty(p, k) => db.delete_if_empty_tree(refs(p).as_slice(), k, tx, v()).unwrap_add_cost(&mut cost).map(Out::Bool),
        Op::DeleteUp(p, k, allow, err, stop) => {
            let o = DeleteUpTreeOptions { allow_deleting_non_empty_trees: *allow, deleting_non_empty_trees_returns_error: *err, stop_path_height: *stop, ..Default::default() };
            db.delete_up_tree_while_empty(refs(p).as_slice(), k, &o, tx, v()).unwrap_add_cost(&mut cost).map(|n| Out::Number(n as u64))
        }
        Op::Clear(p, o) => {
            let o = o.map(|o| ClearOptions { check_for_subtrees: o.0, allow_deleting_subtrees: o.1, trying_to_clear_with_subtrees_returns_error: o.2 });
            let (r, c) = db.clear_subtree(refs(p).as_slice(), o, tx, v()).map_or_else(|e| (Err(e), OperationCost::default()), |b| (Ok(Out::Bool(b)), OperationCost::default()));
            cost += c;
            r
        }
        Op::Append(p, k, val, kind) => {
            let p = refs(p);
            let p = p.as_slice();
            match kind {
                LogKind::Mmr => db.mmr_tree_append(p, k, val.clone(), tx, v()).unwrap_add_cost(&mut cost).map(|x| Out::Number(x.1)),
                LogKind::Bulk(_) => db.bulk_append(p, k, val.clone(), tx, v()).unwrap_add_cost(&mut cost).map(|x| Out::Number(x.1)),
                LogKind::Dense(_) => db.dense_tree_insert(p, k, val.clone(), tx, v()).unwrap_add_cost(&mut cost).map(|x| Out::Number(x.1 as u64)),
                LogKind::Commit(_) => {
                    let (a, b, c) = note(val);
                    let c = deserialize_ciphertext::<DashMemo>(&c).expect("a payload of the right size");
                    db.commitment_tree_insert(p, k, a, b, c, tx, v()).unwrap_add_cost(&mut cost).map(|x| Out::Number(x.1))
                }
            }
        }
        Op::Batch(ops, o) => db.apply_batch(ops.iter().map(|o| o.real()).collect(), batch_options(*o), tx, v()).unwrap_add_cost(&mut cost).map(|_| Out::Unit),
        Op::PutAux(k, val) => db.put_aux(k, val, None, tx).unwrap_add_cost(&mut cost).map(|_| Out::Unit),
        Op::DeleteAux(k) => db.delete_aux(k, None, tx).unwrap_add_cost(&mut cost).map(|_| Out::Unit),
    };
    (r, cost)
}

// ---- predicting -----------------------------------------------------------

/// the contents a history should have left
#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub tree: Tree,
    pub aux: BTreeMap<Key, Vec<u8>>,
    pub doubt: Option<&'static str>,
}
impl State {
    pub fn new() -> State {
        State { tree: Tree::new(Kind::Plain, None), aux: BTreeMap::new(), doubt: None }
    }
}
pub struct Pred {
    pub want: Want,
    pub why: &'static str,
    pub out: Option<Out>,
    pub after: State,
    /// references (re)written, whose recorded hash should be that of their target now
    pub refs: Vec<(Path, Key)>,
}
type Step = Result<(Option<Out>, Vec<(Path, Key)>), (Want, &'static str)>;
fn no<T>(why: &'static str) -> Result<T, (Want, &'static str)> {
    Err((Want::Err, why))
}
fn skip<T>(why: &'static str) -> Result<T, (Want, &'static str)> {
    Err((Want::Skip, why))
}
pub fn predict(s: &State, op: &Op) -> Pred {
    let mut after = s.clone();
    // what becomes of elements put into append-only trees is not defined
    let astray = |p: &Path| (1..=p.len()).any(|n| matches!(s.tree.get(&p[..n]), Some(Node::Log(_))));
    let r = match op {
        Op::Insert(p, ..) if astray(p) => skip("an element in an append-only tree"),
        Op::Batch(ops, _) if ops.iter().any(|x| astray(x.at().0)) => skip("an element in an append-only tree"),
        _ => step(&mut after, op),
    };
    let doubt = after.doubt.take();
    match r {
        Ok((out, refs)) => {
            // aggregates that do not fit are refused
            let (mut want, mut why) = match after.tree.over() {
                Want::Ok => (Want::Ok, ""),
                Want::Err => return Pred { want: Want::Err, why: "aggregate out of range", out: None, after: s.clone(), refs: vec![] },
                w => (w, "a partial aggregate may be out of range"),
            };
            // what is done in several steps may pass through such a state
            if want == Want::Ok && matches!(op, Op::Clear(..) | Op::Batch(..)) && s.tree.over() != Want::Ok {
                (want, why) = (Want::Any, "a partial aggregate may be out of range");
            }
            if let (Want::Ok, Some(d)) = (want, doubt) {
                (want, why) = (Want::Any, d);
            }
            Pred { want, why, out, after, refs }
        }
        Err((want, why)) => Pred { want, why, out: None, after: s.clone(), refs: vec![] },
    }
}
pub fn summed(e: &Element) -> bool {
    matches!(e, Element::SumItem(..) | Element::ItemWithSumItem(..))
}
fn put(m: &mut Tree, p: &Path, k: &Key, e: &Element, overwrite: bool, tree_too: bool) -> Step {
    if k.len() > 255 {
        return no("key too long");
    }
    let Some(t) = m.at(p) else { return no("no tree at the path") };
    if summed(e) && !t.kind.sums() {
        return no("sum item in a tree that does not sum");
    }
    if let Some(old) = t.map.get(k) {
        if !overwrite {
            return no("override");
        }
        if old.is_tree() && !tree_too {
            return no("tree override");
        }
    }
    let mut written = vec![];
    if let Element::Reference(r, ..) = e {
        let Ok(to) = path_from_reference_path_type(r.clone(), p, Some(k)) else { return no("reference path") };
        if to.is_empty() {
            return no("reference to nothing");
        }
        m.follow(&to).map_err(|e| (Want::Err, e))?;
        written.push((p.clone(), k.clone()));
    }
    m.at_mut(p).unwrap().map.insert(k.clone(), Node::of(e));
    Ok((Some(Out::Unit), written))
}
fn append(m: &mut Tree, p: &Path, k: &Key, val: &[u8], kind: LogKind) -> Result<u64, (Want, &'static str)> {
    let Some(l) = m.log_mut(p, k) else { return no("no append-only tree there") };
    match (l.kind, kind) {
        (LogKind::Mmr, LogKind::Mmr) | (LogKind::Bulk(_), LogKind::Bulk(_)) | (LogKind::Dense(_), LogKind::Dense(_)) | (LogKind::Commit(_), LogKind::Commit(_)) => {}
        _ => return no("another kind of append-only tree"),
    }
    if let LogKind::Dense(h) = l.kind
        && l.values.len() >= (1usize << h) - 1
    {
        return no("dense tree full");
    }
    l.values.push(val.to_vec());
    Ok(l.values.len() as u64 - 1)
}
fn step(s: &mut State, op: &Op) -> Step {
    let m = &mut s.tree;
    match op {
        Op::Insert(p, k, e, how) => match how {
            InsertHow::Default => put(m, p, k, e, true, false),
            InsertHow::Opts(a, b) => put(m, p, k, e, !*a, !*b),
            InsertHow::IfAbsent => {
                if k.len() > 255 {
                    return no("key too long");
                }
                if m.at(p).is_some_and(|t| t.map.contains_key(k)) {
                    return Ok((Some(Out::Bool(false)), vec![]));
                }
                put(m, p, k, e, true, false).map(|x| (Some(Out::Bool(true)), x.1))
            }
            InsertHow::IfAbsentGet | InsertHow::IfChanged => {
                if k.len() > 255 {
                    return no("key too long");
                }
                let old = m.at(p).and_then(|t| t.map.get(k)).map(|n| n.element());
                if *how == InsertHow::IfAbsentGet {
                    if old.is_some() {
                        return Ok((Some(Out::Maybe(old)), vec![]));
                    }
                    return put(m, p, k, e, true, false).map(|x| (Some(Out::Maybe(None)), x.1));
                }
                if old.as_ref() == Some(e) {
                    return Ok((Some(Out::Changed(false, None)), vec![]));
                }
                put(m, p, k, e, true, false).map(|x| (Some(Out::Changed(true, old)), x.1))
            }
        },
        Op::Delete(p, k, o) => {
            let o = o.unwrap_or((false, true, false));
            let Some(n) = m.at(p).and_then(|t| t.map.get(k)) else { return no("nothing there") };
            if n.is_tree() && !n.empty() && !o.0 {
                return if o.1 { no("tree not empty") } else { Ok((Some(Out::Unit), vec![])) };
            }
            m.at_mut(p).unwrap().map.remove(k);
            Ok((Some(Out::Unit), vec![]))
        }
        Op::DeleteIfEmpty(p, k) => {
            let Some(n) = m.at(p).and_then(|t| t.map.get(k)) else { return no("nothing there") };
            if n.is_tree() && !n.empty() {
                return Ok((Some(Out::Bool(false)), vec![]));
            }
            m.at_mut(p).unwrap().map.remove(k);
            Ok((Some(Out::Bool(true)), vec![]))
        }
        Op::DeleteUp(p, k, allow, err, stop) => {
            let _ = err;
            if *stop == Some(p.len() as u16) {
                return no("stop height reached");
            }
            if p.is_empty() {
                return no("the top level");
            }
            let Some(n) = m.at(p).and_then(|t| t.map.get(k)) else { return no("nothing there") };
            if n.is_tree() && !n.empty() {
                let _ = allow;
                return no("tree not empty");
            }
            m.at_mut(p).unwrap().map.remove(k);
            let mut done = 1;
            let mut at = p.clone();
            loop {
                // the tree `at` goes when it is now empty
                let last = at.pop().unwrap();
                if *stop == Some(at.len() as u16) {
                    break;
                }
                if at.is_empty() {
                    // trees at the top level are refused
                    return no("the top level");
                }
                let t = m.at_mut(&at).unwrap();
                if !t.map[&last].empty() {
                    break;
                }
                t.map.remove(&last);
                done += 1;
            }
            Ok((Some(Out::Number(done)), vec![]))
        }
        Op::Clear(p, o) => {
            let o = o.unwrap_or((true, false, true));
            if let (Some((k, up)), None) = (p.split_last(), m.at(p)) {
                let up = up.to_vec();
                let Some(l) = m.log_mut(&up, k) else { return no("no tree at the path") };
                l.values.clear();
                return Ok((Some(Out::Bool(true)), vec![]));
            }
            let Some(t) = m.at_mut(p) else { return no("no tree at the path") };
            if o.0 && t.map.values().any(|n| n.is_tree()) && !o.1 {
                return if o.2 { no("has subtrees") } else { Ok((Some(Out::Bool(false)), vec![])) };
            }
            t.map.clear();
            Ok((Some(Out::Bool(true)), vec![]))
        }
        Op::Append(p, k, val, kind) => append(m, p, k, val, *kind).map(|n| (Some(Out::Number(n)), vec![])),
        Op::Batch(ops, o) => {
            let (refs, doubt) = batch(m, ops, *o)?;
            s.doubt = doubt;
            Ok((Some(Out::Unit), refs))
        }
        Op::PutAux(k, val) => {
            s.aux.insert(k.clone(), val.clone());
            Ok((Some(Out::Unit), vec![]))
        }
        Op::DeleteAux(k) => {
            s.aux.remove(k);
            Ok((Some(Out::Unit), vec![]))
        }
    }
}
fn join(p: &[Key], k: &Key) -> Path {
    p.iter().cloned().chain([k.clone()]).collect()
}
fn batch(m: &mut Tree, ops: &[BOp], o: (bool, bool, bool)) -> Result<(Vec<(Path, Key)>, Option<&'static str>), (Want, &'static str)> {
    let mut doubt = None;
    let gone: BTreeSet<Path> = ops
        .iter()
        .filter_map(|x| match x {
            BOp::Delete(p, k) | BOp::DeleteTree(p, k, ..) => Some(join(p, k)),
            _ => None,
        })
        .collect();
    let mut seen = BTreeSet::new();
    let mut appended = BTreeSet::new();
    let mut conflict = None;
    for x in ops {
        let (p, k) = x.at();
        if let BOp::Append(_, _, val, kind) = x {
            if !appended.insert((join(p, k), val.clone(), format!("{kind:?}"))) {
                conflict = Some("the same value appended twice");
            }
            if gone.contains(&join(p, k)) {
                conflict = Some("append to something deleted");
            }
        } else if !seen.insert(join(p, k)) {
            conflict = Some("two operations on one key");
        }
        if matches!(x, BOp::Put(..)) && (1..=p.len()).any(|n| gone.contains(&p[..n])) {
            conflict = Some("insert below something deleted");
        }
    }
    if let Some(c) = conflict {
        return if o.2 { skip(c) } else { no(c) };
    }
    let before = m.clone();
    // refusing to replace something by a tree does not happen once something is put below that (see known_findings.txt)
    for x in ops {
        if let BOp::Put(p, k, _, how) = x
            && (matches!(how, Kindly::Absent(_)) || o.0 || o.1)
            && before.get(&join(p, k)).is_some()
            && ops.iter().any(|y| y.at().0.starts_with(&join(p, k)) || matches!(y, BOp::Append(q, l, ..) if join(q, l) == join(p, k)))
        {
            return skip("something kept and written below");
        }
    }
    // the emptiness of trees to delete is judged with the other deletions done
    let mut order: Vec<&BOp> = ops.iter().collect();
    order.sort_by_key(|x| match x {
        BOp::Delete(p, _) | BOp::DeleteTree(p, ..) => (0, usize::MAX - p.len()),
        BOp::Put(p, ..) => (1, p.len()),
        BOp::Append(p, ..) => (2, p.len()),
        BOp::Refresh(p, ..) => (3, p.len()),
    });
    let mut written = vec![];
    let made = |p: &[Key]| ops.iter().any(|x| matches!(x, BOp::Put(q, k, e, _) if e.is_any_tree() && join(q, k) == p));
    for x in order {
        let (p, k) = x.at();
        if k.len() > 255 {
            return no("key too long");
        }
        match x {
            BOp::Delete(..) => {
                let Some(t) = m.at_mut(p) else {
                    if before.at(p).is_some() {
                        return skip("delete below something deleted");
                    }
                    if !made(p) {
                        return no("no tree at the path");
                    }
                    doubt = Some("nothing to delete");
                    continue;
                };
                match t.map.get(k) {
                    None => doubt = Some("nothing to delete"),
                    _ if (1..=p.len()).any(|n| gone.contains(&p[..n])) => doubt = Some("delete below something deleted"),
                    Some(n) if n.is_tree() => return skip("a tree deleted as something else"),
                    _ => {}
                }
                t.map.remove(k);
            }
            BOp::DeleteTree(_, _, ty, how) => {
                let Some(t) = m.at_mut(p) else {
                    if before.at(p).is_some() {
                        return skip("delete below something deleted");
                    }
                    if !made(p) {
                        return no("no tree at the path");
                    }
                    doubt = Some("nothing to delete");
                    continue;
                };
                let Some(n) = t.map.get(k) else {
                    doubt = Some("nothing to delete");
                    continue;
                };
                if (1..=p.len()).any(|n| gone.contains(&p[..n])) {
                    doubt = Some("delete below something deleted");
                }
                if !n.is_tree() || type_of(n) != *ty {
                    return skip("not such a tree");
                }
                // a deletion that may be skipped does not count when emptiness is judged
                if matches!(how, Behave::Error | Behave::Skip) && ops.iter().any(|y| matches!(y, BOp::DeleteTree(q, _, _, Behave::Skip) if *q == join(p, k))) {
                    return skip("a deletion below that may be skipped");
                }
                if !n.empty() {
                    match how {
                        Behave::NoCheck => return skip("told not to check"),
                        Behave::Error => return no("tree not empty"),
                        Behave::Skip => continue,
                        Behave::Children => {}
                    }
                }
                t.map.remove(k);
            }
            BOp::Put(_, _, e, how) => {
                if (1..=p.len()).any(|n| matches!(m.get(&p[..n]), Some(Node::Log(_)))) {
                    return skip("an element in an append-only tree");
                }
                let Some(t) = m.at_mut(p) else { return no("no tree at the path") };
                let misfit = summed(e) && !t.kind.sums();
                if let Some(old) = t.map.get(k) {
                    if o.1 && old.is_tree() && *how != Kindly::Absent(false) {
                        return no("tree override");
                    }
                    match how {
                        Kindly::Absent(true) => return no("override"),
                        // both asked to refuse and to skip
                        Kindly::Absent(false) if o.0 || o.1 && old.is_tree() => {
                            doubt = Some("refused or skipped");
                            continue;
                        }
                        Kindly::Absent(false) => continue,
                        Kindly::Fresh => doubt = Some("said not to exist"),
                        _ => {}
                    }
                    if o.0 {
                        return no("override");
                    }
                    if old.is_tree() {
                        return skip("tree override");
                    }
                } else if matches!(how, Kindly::Replace | Kindly::Patch(_)) {
                    doubt = Some("nothing to replace");
                }
                if misfit {
                    // refused when inserted alone, let through in a batch
                    doubt = Some("sum item in a tree that does not sum");
                }
                t.map.insert(k.clone(), Node::of(e));
                if matches!(e, Element::Reference(..)) {
                    written.push((p.clone(), k.clone()));
                }
            }
            BOp::Append(_, _, val, kind) => {
                let was_there = matches!(before.get(&join(p, k)), Some(Node::Log(_)));
                if append(m, p, k, val, *kind).is_err() {
                    return no("append refused");
                }
                if !was_there {
                    doubt = Some("append to a tree of this batch");
                }
            }
            BOp::Refresh(_, _, r, h, f, trust) => {
                let Some(t) = m.at_mut(p) else { return no("no tree at the path") };
                match t.map.get(k) {
                    Some(Node::Leaf(Element::Reference(..))) => {}
                    _ if *trust => return skip("nothing to refresh"),
                    _ => return no("no reference to refresh"),
                }
                if *trust {
                    t.map.insert(k.clone(), Node::Leaf(Element::Reference(r.clone(), *h, f.clone())));
                }
                written.push((p.clone(), k.clone()));
            }
        }
    }
    // references resolve in the state after the batch
    for (p, k) in &written {
        let Some(Node::Leaf(Element::Reference(r, hop, _))) = m.get(&join(p, k)) else { return skip("lost") };
        let Ok(to) = path_from_reference_path_type(r.clone(), p, Some(k)) else { return no("reference path") };
        if to.is_empty() {
            return no("reference to nothing");
        }
        if hop.is_some() {
            doubt = Some("hops limited by the reference");
        }
        match m.follow(&to) {
            Ok((_, n)) if n.is_tree() => doubt = Some("reference to a tree"),
            Ok(_) => {}
            // what is below a deleted tree counts as there
            Err(_) if ops.iter().any(|x| matches!(x, BOp::DeleteTree(_, _, _, Behave::Children))) => doubt = Some("reference below something deleted"),
            Err(e) => return no(e),
        }
    }
    for x in ops {
        // a value of another kind may not be supported
        if let BOp::Put(p, k, e, how) = x
            && let Some(old) = before.get(&join(p, k))
            && !written.is_empty()
            && (!matches!(how, Kindly::Absent(_)) && matches!(old, Node::Leaf(o) if summed(o) != summed(e)) || matches!(how, Kindly::Absent(_)) && e.is_any_tree() && old.is_tree())
        {
            doubt = Some("references to what is there already");
        }
    }
    Ok((written, doubt))
}

// ---- making them up -------------------------------------------------------

/// keys of trees whose rows' prefix ends with the last byte there is: nothing follows by adding one
fn last_prefixes() -> &'static Vec<Key> {
    static KEYS: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new();
    KEYS.get_or_init(|| (0..2000u16).map(|n| vec![b'z', (n >> 8) as u8, n as u8]).filter(|k| crate::store::prefix(std::slice::from_ref(k)).last() == Some(&255)).take(3).collect())
}
pub fn pick_key(rng: &mut Rng) -> Key {
    match rng.below(40) {
        0 => vec![],
        1 => rng.bytes(255),
        2 => rng.range(0, 6).to_be_bytes().to_vec(),
        3 => vec![0],
        4 => vec![255; 1 + rng.usize(3)],
        5 => {
            let n = 30 + rng.usize(40);
            rng.bytes(n)
        }
        6 => rng.pick(last_prefixes()).clone(),
        7..11 => vec![b'a' + rng.below(4) as u8, b'a' + rng.below(4) as u8],
        _ => vec![b'a' + rng.below(12) as u8],
    }
}
pub fn pick_flags(rng: &mut Rng) -> Flags {
    rng.chance(1, 5).then(|| {
        let n = rng.usize(5);
        rng.bytes(n)
    })
}
pub fn pick_value(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(14) {
        0 => 0,
        1 => 60 + rng.usize(90),
        2 => 200 + rng.usize(300),
        3 => 32,
        _ => 1 + rng.usize(10),
    };
    rng.bytes(n)
}
pub fn pick_sum(rng: &mut Rng, wild: bool) -> i64 {
    match rng.below(if wild { 8 } else { 6 }) {
        0 => 0,
        1 => -(rng.range(1, 1000) as i64),
        6 => rng.edge_i64(),
        7 => *rng.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
        _ => rng.range(1, 1000) as i64,
    }
}
pub fn pick_item(rng: &mut Rng, wild: bool) -> Element {
    match rng.below(6) {
        0 | 1 => Element::SumItem(pick_sum(rng, wild), pick_flags(rng)),
        2 => Element::ItemWithSumItem(pick_value(rng), pick_sum(rng, wild), pick_flags(rng)),
        _ => Element::Item(pick_value(rng), pick_flags(rng)),
    }
}
pub fn pick_tree(rng: &mut Rng) -> Element {
    let k = *rng.pick(&KINDS);
    Node::Tree(Tree::new(k, pick_flags(rng))).element()
}
pub fn pick_log(rng: &mut Rng) -> Element {
    let kind = match rng.below(4) {
        0 => LogKind::Mmr,
        1 => LogKind::Bulk(1 + rng.below(3) as u8),
        2 => LogKind::Dense(1 + rng.below(4) as u8),
        _ => LogKind::Commit(1 + rng.below(3) as u8),
    };
    Node::Log(Log { kind, flags: pick_flags(rng), values: vec![] }).element()
}
/// a path to some entry, most often one there is
pub fn pick_entry(rng: &mut Rng, m: &Tree) -> Option<(Path, Key)> {
    let trees = m.trees();
    for _ in 0..4 {
        let p = rng.pick(&trees).clone();
        let t = m.at(&p).unwrap();
        if t.map.is_empty() {
            continue;
        }
        let ks: Vec<&Key> = t.map.keys().collect();
        let k = (*rng.pick(&ks)).clone();
        return Some((p, k));
    }
    None
}
pub fn pick_path(rng: &mut Rng, m: &Tree) -> Path {
    let trees = m.trees();
    let mut p = rng.pick(&trees).clone();
    match rng.below(30) {
        0 => p.push(pick_key(rng)),
        1 => {
            if let Some((q, k)) = pick_entry(rng, m)
                && !matches!(m.at(&q).unwrap().map[&k], Node::Log(_))
            {
                p = join(&q, &k);
            }
        }
        _ => {}
    }
    p.retain(|k| k.len() <= 255);
    p
}
pub fn pick_ref(rng: &mut Rng, m: &Tree, p: &Path, k: &Key) -> Element {
    let to = pick_entry(rng, m).unwrap_or((vec![], pick_key(rng)));
    let mut r = ref_to(rng, p, k, to);
    if rng.chance(1, 15) {
        r = ReferencePathType::AbsolutePathReference(vec![pick_key(rng), pick_key(rng)]);
    }
    Element::Reference(r, None, pick_flags(rng))
}
/// one of the ways to say, at a path and key, where something is
fn ref_to(rng: &mut Rng, p: &Path, k: &Key, (tp, tk): (Path, Key)) -> ReferencePathType {
    let abs = join(&tp, &tk);
    let mut ways = vec![ReferencePathType::AbsolutePathReference(abs.clone())];
    if tp == *p {
        ways = vec![ReferencePathType::SiblingReference(tk.clone())];
    }
    let common = p.iter().zip(&tp).take_while(|(a, b)| a == b).count();
    for keep in 0..=common.min(255) {
        ways.push(ReferencePathType::UpstreamRootHeightReference(keep as u8, abs[keep..].to_vec()));
        let up = p.len() - keep;
        ways.push(ReferencePathType::UpstreamFromElementHeightReference(up as u8, abs[keep..].to_vec()));
    }
    if !p.is_empty() && tp.len() == p.len() && tp[..p.len() - 1] == p[..p.len() - 1] && tk == *k {
        ways.push(ReferencePathType::CousinReference(tp[p.len() - 1].clone()));
    }
    if !p.is_empty() && tp.len() >= p.len() && tp[..p.len() - 1] == p[..p.len() - 1] && tk == *k {
        ways.push(ReferencePathType::RemovedCousinReference(tp[p.len() - 1..].to_vec()));
    }
    rng.pick(&ways).clone()
}
/// references leading to one another, up to and past the hop limit: one by one or in batches
pub fn pick_chain(rng: &mut Rng, s: &State) -> Vec<Op> {
    let m = &s.tree;
    let trees = m.trees();
    let spot = |rng: &mut Rng| (rng.pick(&trees).clone(), [vec![b'r'], rng.bytes(3)].concat());
    let n = if rng.bool() { 8 + rng.usize(6) } else { 1 + rng.usize(14) };
    let mut made: Vec<(Path, Key, Element)> = vec![];
    let mut at = match rng.below(8) {
        0 => spot(rng),
        1..=3 if let Some(e) = pick_entry(rng, m) => e,
        _ => {
            let (p, k) = spot(rng);
            made.push((p.clone(), k.clone(), Element::Item(pick_value(rng), pick_flags(rng))));
            (p, k)
        }
    };
    let last = spot(rng);
    if rng.chance(1, 10) {
        // a cycle
        at = last.clone();
    }
    for i in 0..n {
        let (p, k) = if i + 1 == n { last.clone() } else { spot(rng) };
        let r = ref_to(rng, &p, &k, at);
        made.push((p.clone(), k.clone(), Element::Reference(r, None, pick_flags(rng))));
        at = (p, k);
    }
    let mut ops = vec![];
    let mut rest = &made[..];
    while !rest.is_empty() {
        let (now, later) = rest.split_at(if rng.bool() { rest.len() } else { 1 + rng.usize(rest.len()) });
        rest = later;
        if rng.chance(1, 4) {
            ops.extend(now.iter().map(|(p, k, e)| Op::Insert(p.clone(), k.clone(), e.clone(), if rng.chance(1, 6) { InsertHow::IfAbsent } else { InsertHow::Default })));
            continue;
        }
        let alike = rng.bool().then(|| rng.below(4));
        let mut b: Vec<BOp> = now
            .iter()
            .map(|(p, k, e)| {
                let how = match alike.unwrap_or(rng.below(4)) {
                    0 => Kindly::Fresh,
                    1 => Kindly::Absent(true),
                    2 => Kindly::Absent(false),
                    _ => Kindly::Put,
                };
                BOp::Put(p.clone(), k.clone(), e.clone(), how)
            })
            .collect();
        rng.shuffle(&mut b);
        ops.push(Op::Batch(b, (false, false, false)));
    }
    ops
}
pub fn pick_note(rng: &mut Rng) -> Vec<u8> {
    let mut v = rng.bytes(32 + 32 + 216);
    v[31] &= 0x1f;
    v
}
pub fn pick_log_value(rng: &mut Rng, kind: LogKind) -> Vec<u8> {
    match kind {
        LogKind::Commit(_) => pick_note(rng),
        _ => pick_value(rng),
    }
}
#[derive(Clone, Copy)]
pub struct Taste {
    pub wild: bool,
    pub logs: bool,
    pub refs: bool,
    pub batches: bool,
    pub deep: usize,
    pub deletes: bool,
    /// mostly trees that sum or count
    pub sums: bool,
    pub many_refs: bool,
    pub many_logs: bool,
    pub trees: bool,
}
pub const ALL: Taste = Taste { wild: false, logs: true, refs: true, batches: true, deep: 4, deletes: true, sums: false, many_refs: false, many_logs: false, trees: false };

pub fn pick_element(rng: &mut Rng, m: &Tree, p: &Path, k: &Key, t: &Taste) -> Element {
    match rng.below(12) {
        0..=5 if t.many_refs => pick_ref(rng, m, p, k),
        3..=5 if t.many_logs => pick_log(rng),
        3..=6 if t.trees && p.len() < t.deep => pick_tree(rng),
        0..=2 if p.len() < t.deep => loop {
            let e = pick_tree(rng);
            if !t.sums || !matches!(e, Element::Tree(..)) || rng.chance(1, 4) {
                break e;
            }
        },
        3 if t.logs => pick_log(rng),
        4 | 5 if t.refs => pick_ref(rng, m, p, k),
        _ => {
            // sum items mostly where they are welcome
            let fits = m.at(p).is_none_or(|t| t.kind.sums()) || rng.chance(1, 30);
            loop {
                let e = pick_item(rng, t.wild);
                if fits || !summed(&e) {
                    return e;
                }
            }
        }
    }
}
pub fn pick_op(rng: &mut Rng, s: &State, t: &Taste) -> Op {
    let m = &s.tree;
    let logs = m.logs();
    if t.logs && !logs.is_empty() && rng.chance(if t.many_logs { 3 } else { 1 }, 4) && !(t.many_logs && t.batches && rng.chance(1, 5)) {
        let (p, k) = rng.pick(&logs).clone();
        let Some(Node::Log(l)) = m.get(&join(&p, &k)) else { unreachable!() };
        let mut kind = l.kind;
        if rng.chance(1, 25) {
            kind = *rng.pick(&[LogKind::Mmr, LogKind::Bulk(2), LogKind::Dense(2), LogKind::Commit(2)]);
        }
        return Op::Append(p, k, pick_log_value(rng, kind), kind);
    }
    match rng.below(24) {
        0..=4 if t.deletes => pick_deletion(rng, s, t),
        5..=7 if t.batches => pick_batch(rng, s, t),
        8 => {
            let k = pick_key(rng);
            if rng.chance(1, 3) { Op::DeleteAux(k) } else { Op::PutAux(k, pick_value(rng)) }
        }
        _ => {
            let p = pick_path(rng, m);
            let mut k = pick_key(rng);
            if rng.chance(1, 5)
                && let Some(tr) = m.at(&p)
                && !tr.map.is_empty()
            {
                let ks: Vec<&Key> = tr.map.keys().collect();
                k = (*rng.pick(&ks)).clone();
            }
            if rng.chance(1, 150) {
                k = rng.bytes(256);
            }
            let mut e = pick_element(rng, m, &p, &k, t);
            let how = match rng.below(10) {
                0 => InsertHow::Opts(rng.bool(), true),
                1 => InsertHow::IfAbsent,
                2 => InsertHow::IfAbsentGet,
                3 => InsertHow::IfChanged,
                _ => InsertHow::Default,
            };
            if how == InsertHow::IfChanged
                && rng.bool()
                && let Some(Node::Leaf(x)) = m.at(&p).and_then(|t| t.map.get(&k))
            {
                e = x.clone();
            }
            Op::Insert(p, k, e, how)
        }
    }
}
pub fn pick_deletion(rng: &mut Rng, s: &State, t: &Taste) -> Op {
    let m = &s.tree;
    match rng.below(6) {
        0..=1 => {
            let (p, k) = pick_entry(rng, m).unwrap_or((vec![], pick_key(rng)));
            let o = match rng.below(4) {
                0 => None,
                1 => Some((true, true, false)),
                2 => Some((rng.bool(), rng.bool(), rng.bool())),
                _ => Some((true, false, false)),
            };
            Op::Delete(p, if rng.chance(1, 12) { pick_key(rng) } else { k }, o)
        }
        2 => {
            let (p, k) = pick_entry(rng, m).unwrap_or((vec![], pick_key(rng)));
            Op::DeleteIfEmpty(p, k)
        }
        3 => {
            let (p, k) = pick_entry(rng, m).unwrap_or((vec![], pick_key(rng)));
            let stop = match rng.below(4) {
                0 => None,
                _ => Some(rng.usize(p.len() + 2) as u16),
            };
            Op::DeleteUp(p, k, rng.bool(), rng.bool(), stop)
        }
        4 => {
            let p = pick_path(rng, m);
            let mut o = rng.chance(3, 4).then(|| (true, rng.chance(2, 3), rng.bool()));
            if let (Some(o), Some(tr)) = (&mut o, m.at(&p))
                && !tr.map.values().any(|n| n.is_tree())
            {
                o.0 = rng.bool();
            }
            Op::Clear(p, o)
        }
        _ if t.batches => pick_batch(rng, s, t),
        _ => {
            let (p, k) = pick_entry(rng, m).unwrap_or((vec![], pick_key(rng)));
            Op::Delete(p, k, Some((true, true, false)))
        }
    }
}
pub fn pick_batch(rng: &mut Rng, s: &State, t: &Taste) -> Op {
    // a running picture of what the batch leads to, so that it can build on itself
    let mut m = s.tree.clone();
    let mut ops: Vec<BOp> = vec![];
    let mut used: BTreeSet<Path> = BTreeSet::new();
    let mut gone: BTreeSet<Path> = BTreeSet::new();
    let n = 1 + rng.usize(8);
    let strict = !rng.chance(1, 12);
    for _ in 0..n {
        let op = match rng.below(14) {
            0 | 1 if t.deletes => {
                let Some((p, k)) = pick_entry(rng, &m) else { continue };
                let n = m.get(&join(&p, &k)).unwrap();
                if n.is_tree() {
                    let how = *rng.pick(&[Behave::Error, Behave::Children, Behave::Children, Behave::Skip, Behave::NoCheck]);
                    if how == Behave::NoCheck && !n.empty() {
                        continue;
                    }
                    BOp::DeleteTree(p, k, type_of(n), how)
                } else {
                    BOp::Delete(p, k)
                }
            }
            2..=4 if t.logs => {
                let logs = m.logs();
                if logs.is_empty() {
                    continue;
                }
                let (p, k) = rng.pick(&logs).clone();
                let Some(Node::Log(l)) = m.get(&join(&p, &k)) else { unreachable!() };
                let kind = l.kind;
                BOp::Append(p, k, pick_log_value(rng, kind), kind)
            }
            5 if t.refs => {
                let trees = m.trees();
                let found: Vec<(Path, Key)> = trees.iter().flat_map(|p| m.at(p).unwrap().map.iter().filter(|(_, n)| n.is_ref()).map(|(k, _)| (p.clone(), k.clone())).collect::<Vec<_>>()).collect();
                if found.is_empty() {
                    continue;
                }
                let (p, k) = rng.pick(&found).clone();
                let Element::Reference(r, h, f) = m.get(&join(&p, &k)).unwrap().element() else { unreachable!() };
                BOp::Refresh(p, k, r, h, f, rng.bool())
            }
            _ => {
                let p = pick_path(rng, &m);
                let mut k = pick_key(rng);
                let mut how = match rng.below(8) {
                    0 => Kindly::Absent(rng.bool()),
                    1 => Kindly::Fresh,
                    2 => Kindly::Replace,
                    3 => Kindly::Patch(0),
                    _ => Kindly::Put,
                };
                if rng.chance(1, 4)
                    && let Some(tr) = m.at(&p)
                    && !tr.map.is_empty()
                {
                    let ks: Vec<&Key> = tr.map.keys().collect();
                    k = (*rng.pick(&ks)).clone();
                }
                let there = m.at(&p).and_then(|t| t.map.get(&k)).cloned();
                let mut e = pick_element(rng, &m, &p, &k, t);
                match (&there, &how) {
                    (Some(_), Kindly::Fresh) => how = Kindly::Put,
                    (None, Kindly::Replace | Kindly::Patch(_)) => how = Kindly::Put,
                    _ => {}
                }
                if let (Some(n), Kindly::Patch(_)) = (&there, &how) {
                    // the size of the change has to be told
                    if n.is_tree() || n.is_ref() {
                        how = Kindly::Put;
                    } else {
                        e = if matches!(n, Node::Leaf(e) if summed(e)) { pick_item(rng, t.wild) } else { Element::Item(pick_value(rng), pick_flags(rng)) };
                        let d = crate::world::ser(&e).len() as i32 - crate::world::ser(&n.element()).len() as i32;
                        how = Kindly::Patch(d);
                    }
                }
                if there.as_ref().is_some_and(|n| n.is_tree()) && !matches!(how, Kindly::Absent(_)) {
                    continue;
                }
                BOp::Put(p, k, e, how)
            }
        };
        let (p, k) = op.at();
        let full = join(p, k);
        if strict {
            if !matches!(op, BOp::Append(..)) && used.contains(&full) {
                continue;
            }
            if (1..=full.len()).any(|n| gone.contains(&full[..n])) {
                continue;
            }
            if matches!(op, BOp::Delete(..) | BOp::DeleteTree(..)) && used.iter().any(|u| u.starts_with(&full)) {
                continue;
            }
        }
        used.insert(full.clone());
        match &op {
            BOp::Put(p, k, e, how) => {
                if let Some(t) = m.at_mut(p)
                    && (!matches!(how, Kindly::Absent(_)) || !t.map.contains_key(k))
                {
                    t.map.insert(k.clone(), Node::of(e));
                }
            }
            BOp::Append(p, k, val, kind) => {
                let _ = append(&mut m, p, k, val, *kind);
            }
            BOp::Delete(..) | BOp::DeleteTree(..) => {
                gone.insert(full.clone());
            }
            BOp::Refresh(..) => {}
        }
        ops.push(op);
    }
    rng.shuffle(&mut ops);
    let o = match rng.below(10) {
        0 => (true, true, false),
        1 => (false, true, false),
        2 => (false, false, strict),
        _ => (false, false, false),
    };
    Op::Batch(ops, o)
}
/// normalised for comparison: the key of a tree's root is not predicted
pub fn plain(o: &Out) -> Out {
    match o {
        Out::Maybe(e) => Out::Maybe(e.as_ref().map(norm)),
        Out::Changed(b, e) => Out::Changed(*b, e.as_ref().map(norm)),
        o => o.clone(),
    }
}
