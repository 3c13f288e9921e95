//! P05: trunk and branch chunks of a tree, whoever made the proof bytes.
use crate::models::H;
use crate::ops;
use crate::proofs::{Scene, tamper};
use crate::queries::{Key, Path};
use crate::world::*;
use grovedb::operations::proof::GroveDBProof;
use grovedb::{Element, GroveDb, LeafInfo, PathBranchChunkQuery, PathTrunkChunkQuery};
use grovedb_merk::proofs::tree::Tree;
use grovedb_merk::{TrunkQueryResult, calculate_chunk_depths, calculate_chunk_depths_with_minimum, calculate_max_tree_depth_from_count};
use grovedb_query::proofs::{Op, encode_into};
use grovedb_query::{Query, QueryItem};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

// ---- how deep ----------------------------------------------------------------

fn depths_case(c: &mut Case) -> Res {
    let depth = c.idx as u8;
    for max in 0..=255u8 {
        let got = calculate_chunk_depths(depth, max).ok();
        c.ensure(got == split(depth, max, None), "chunk-depths", || format!("depth {depth} max {max}: {got:?}"))?;
        for min in 0..=255u8 {
            let got = calculate_chunk_depths_with_minimum(depth, max, min).ok();
            c.ensure(got == split(depth, max, Some(min)), "chunk-depths-with-minimum", || format!("depth {depth} max {max} min {min}: {got:?} expected {:?}", split(depth, max, Some(min))))?;
        }
        c.eval(depth as u64 * 256 + max as u64, depth > max && max > 0);
    }
    for _ in 0..2000 {
        let n = if c.rng.bool() { c.rng.edge_u64() } else { 1u64.checked_shl(c.rng.below(64) as u32).unwrap_or(0).wrapping_add(c.rng.below(1 << 20)) };
        for n in [n, n.wrapping_add(1), n.wrapping_sub(1)] {
            let got = calculate_max_tree_depth_from_count(n);
            c.ensure(got == tallest(n), "tree-depth-from-count", || format!("{n} nodes: {got} expected {}", tallest(n)))?;
        }
    }
    Ok(())
}

// ---- scenes --------------------------------------------------------------------

struct Spot {
    w: Merk,
    path: Path,
}
impl Spot {
    fn tree(&self) -> &Merk {
        self.w.at(&self.path).unwrap_or(&self.w)
    }
    fn random(rng: &mut Rng, kinds: &[Kind]) -> Spot {
        let kind = *rng.pick(kinds);
        let refs = rng.chance(1, 5);
        let nested = rng.chance(1, 3);
        let n = match rng.below(8) {
            0 => rng.usize(3),
            1 => 30 + rng.usize(60),
            _ => 2 + rng.usize(20),
        };
        let mut seen = BTreeSet::new();
        let mut nodes = vec![];
        for _ in 0..n {
            let key = random_key(rng);
            if key.is_empty() || !seen.insert(key.clone()) {
                continue;
            }
            nodes.push(match rng.below(8) {
                0 | 1 if nested => {
                    let k = *rng.pick(&KINDS);
                    let m = if rng.chance(1, 3) { Merk { kind: k, nodes: vec![], root: None } } else { build(rng, k, &Size { keys: 4, depth: 0, exotic: false }) };
                    let e = m.element(None);
                    entry(key, e, Below::Merk(m), None)
                }
                2 if refs => {
                    let t = ser(&item_elem(rng));
                    let r = grovedb_element::reference_path::ReferencePathType::AbsolutePathReference(vec![random_key(rng)]);
                    entry(key, Element::Reference(r, None, None), Below::Nothing, Some(t))
                }
                _ => entry(key, item_elem(rng), Below::Nothing, None),
            });
        }
        let mut m = Merk::build(rng, kind, nodes);
        let mut path = vec![];
        for _ in 0..1 + rng.usize(3) {
            let key = random_key(rng);
            if key.is_empty() {
                continue;
            }
            let e = m.element(None);
            let k = if rng.chance(2, 3) { Kind::Plain } else { *rng.pick(&KINDS) };
            let mut around = build(rng, k, &Size { keys: 5, depth: 0, exotic: true }).nodes;
            around.retain(|x| x.key != key);
            around.push(entry(key.clone(), e, Below::Merk(m), None));
            m = Merk::build(rng, k, around);
            path.insert(0, key);
        }
        if m.kind != Kind::Plain || path.is_empty() {
            // the root of a database is a plain tree
            let key = vec![b'r'];
            let e = m.element(None);
            m = Merk::build(rng, Kind::Plain, vec![entry(key.clone(), e, Below::Merk(m), None)]);
            path.insert(0, key);
        }
        Spot { w: m, path }
    }
    fn show(&self) -> String {
        let mut o = String::new();
        self.w.show(&mut o, 2);
        o.truncate(5000);
        format!("database:\n{o}tree at {:?}", self.path.iter().map(|k| hex(k)).collect::<Vec<_>>())
    }
}
/// nodes less than `depth` below `top` with their values, then hashes
fn top_faces(m: &Merk, top: usize, depth: usize) -> Vec<Face> {
    fn go(m: &Merk, i: usize, depth: usize, f: &mut [Face]) {
        if depth == 0 {
            return;
        }
        f[i] = Face::Value;
        for c in [m.nodes[i].left, m.nodes[i].right].into_iter().flatten() {
            go(m, c, depth - 1, f);
        }
    }
    let mut f = vec![Face::Cut; m.nodes.len()];
    go(m, top, depth, &mut f);
    f
}
/// the way down to the target, and the target shown to some depth
fn trunk_layer(s: &Spot, depth: usize) -> Layer {
    fn go(m: &Merk, path: &[Key], depth: usize) -> Layer {
        let Some((k, rest)) = path.split_first() else {
            let f = m.root.map(|r| top_faces(m, r, depth)).unwrap_or_default();
            return Layer::merk(m, f, true);
        };
        let (_, faces) = plan(m, &[QueryItem::Key(k.clone())], true, None);
        let mut l = Layer::merk(m, faces, true);
        if let Some(s) = m.find(k).and_then(|i| m.nodes[i].below.merk()) {
            l.lower.insert(k.clone(), go(s, rest, depth));
        }
        l
    }
    go(&s.w, &s.path, depth)
}

// ---- what a chunk may say ------------------------------------------------------

struct Chunk<'a> {
    elements: &'a BTreeMap<Key, Element>,
    leaves: &'a BTreeMap<Key, LeafInfo>,
    tree: &'a Tree,
}
fn tree_claim(e: &Element) -> bool {
    e.is_any_tree() && e.is_non_empty_tree()
}
/// count of a node where its hash carries it
fn bound_count(m: &Merk, i: usize) -> Option<u64> {
    m.provable().then(|| m.nodes[i].count)
}
fn check_chunk(c: &mut Case, s: &Spot, top: Option<usize>, limit: usize, ch: &Chunk, honest: Option<usize>) -> Res {
    let m = s.tree();
    let mut shown = BTreeMap::new();
    for (k, e) in ch.elements {
        let Some(i) = m.find(k) else {
            return c.fail("element-not-stored", format!("{} = {e}\n{}", hex(k), s.show()));
        };
        let got = ser(e);
        if got != m.nodes[i].value {
            // nodes of trees do not carry the hash of what is below
            let sig = if tree_claim(e) { "tree-claimed-without-its-child-hash" } else { "element-differs" };
            c.fail(sig, format!("key {}: {e} instead of {}\n{}", hex(k), m.nodes[i].elem, s.show()))?;
        }
        shown.insert(i, ());
    }
    // the part that is shown hangs together, and ends only at leaves
    let mut depth = BTreeMap::new();
    let mut todo: Vec<(usize, usize)> = top.map(|t| (t, 0)).into_iter().collect();
    if let Some(t) = top {
        c.ensure(shown.contains_key(&t), "top-not-shown", || s.show())?;
    }
    while let Some((i, d)) = todo.pop() {
        depth.insert(i, d);
        for k in [m.nodes[i].left, m.nodes[i].right].into_iter().flatten() {
            if shown.contains_key(&k) {
                todo.push((k, d + 1));
            } else {
                c.ensure(ch.leaves.contains_key(&m.nodes[i].key), "missing-without-a-leaf", || format!("{} is neither shown nor below a leaf\n{}", hex(&m.nodes[k].key), s.show()))?;
            }
        }
    }
    c.ensure(depth.len() == shown.len(), "shown-outside-the-part", || s.show())?;
    let deepest = depth.values().max().copied().unwrap_or(0);
    c.ensure(deepest <= limit, "deeper-than-asked", || format!("{deepest} levels below the top shown, {limit} asked\n{}", s.show()))?;
    for (k, l) in ch.leaves {
        let Some(i) = m.find(k).filter(|i| shown.contains_key(i)) else {
            return c.fail("leaf-not-shown", format!("{}\n{}", hex(k), s.show()));
        };
        c.ensure(l.hash == m.nodes[i].hash, "leaf-hash", || format!("leaf {}: {} instead of {}\n{}", hex(k), hex(&l.hash), hex(&m.nodes[i].hash), s.show()))?;
        let count = bound_count(m, i);
        c.ensure(l.count.is_none() && honest.is_none() || l.count == count, "leaf-count", || format!("leaf {}: {:?} instead of {count:?}\n{}", hex(k), l.count, s.show()))?;
        c.count("leaves checked", 1);
    }
    c.count("elements checked", ch.elements.len() as u64);
    c.ensure(top.is_none() || ch.tree.hash().value() == &top.map(|t| m.nodes[t].hash).unwrap_or(NULL), "tree-hash", || s.show())?;
    if let (Some(d), Some(_)) = (honest, top) {
        // all that was asked for
        let want: BTreeSet<usize> = within(m, top, d);
        c.ensure(want == shown.keys().copied().collect(), "other-levels", || format!("{d} levels asked, {deepest} deep shown\n{}", s.show()))?;
        let cut: BTreeSet<Key> = want.iter().filter(|i| [m.nodes[**i].left, m.nodes[**i].right].into_iter().flatten().any(|k| !want.contains(&k))).map(|i| m.nodes[*i].key.clone()).collect();
        c.ensure(cut == ch.leaves.keys().cloned().collect(), "other-leaves", || s.show())?;
    }
    Ok(())
}
/// from the top down to a key
fn way(m: &Merk, top: Option<usize>, k: &[u8]) -> Vec<usize> {
    let mut out = vec![];
    let mut at = top;
    while let Some(i) = at {
        out.push(i);
        at = match k.cmp(&m.nodes[i].key) {
            std::cmp::Ordering::Less => m.nodes[i].left,
            std::cmp::Ordering::Greater => m.nodes[i].right,
            _ => break,
        };
    }
    out
}
type Ancestor = Option<(u8, u64, Key, H)>;
/// what can be asked of a result afterwards
fn check_walks(c: &mut Case, s: &Spot, top: Option<usize>, ch: &Chunk, trace: impl Fn(&[u8]) -> Option<(Key, LeafInfo)>, ancestor: impl Fn(&[u8], u64) -> Ancestor) -> Res {
    let m = s.tree();
    let below: BTreeSet<usize> = within(m, top, 200);
    for i in &below {
        let k = &m.nodes[*i].key;
        let got = trace(k);
        if ch.elements.contains_key(k) {
            c.ensure(got.is_none(), "traced-a-shown-key", || format!("{}\n{}", hex(k), s.show()))?;
            continue;
        }
        // the lowest shown node above it
        let last = way(m, top, k).into_iter().rfind(|j| ch.elements.contains_key(&m.nodes[*j].key));
        let want = last.map(|j| m.nodes[j].key.clone());
        c.ensure(got.as_ref().map(|g| g.0.clone()) == want, "traced-to-another-leaf", || format!("{} -> {:?} expected {:?}\n{}", hex(k), got, want.map(|w| hex(&w)), s.show()))?;
        c.ensure(got.is_none_or(|g| ch.leaves.get(&g.0) == Some(&g.1)), "traced-to-no-leaf", || s.show())?;
        c.count("keys traced", 1);
    }
    let k = random_key(&mut c.rng);
    if m.find(&k).is_none() {
        let got = trace(&k);
        c.ensure(got.is_none_or(|g| ch.leaves.get(&g.0) == Some(&g.1)), "traced-to-no-leaf", || s.show())?;
    }
    for k in ch.leaves.keys() {
        let up = way(m, top, k);
        let least = c.rng.below(12);
        let got = ancestor(k, least);
        let leaf = up.len() - 1;
        let candidates: Vec<usize> = (1..leaf).rev().collect();
        let best = candidates.iter().find(|x| bound_count(m, up[**x]).is_some_and(|n| n >= least)).or(candidates.last());
        let want = best.map(|x| ((leaf - x) as u8, bound_count(m, up[*x]).unwrap_or(0), m.nodes[up[*x]].key.clone(), m.nodes[up[*x]].hash));
        c.ensure(got == want, "another-ancestor", || format!("leaf {} with at least {least}: {got:?} expected {want:?}\n{}", hex(k), s.show()))?;
        c.count("ancestors checked", 1);
    }
    Ok(())
}
fn trunk_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let kinds = if c.rng.chance(1, 20) { &KINDS[..] } else { &KINDS[3..] };
    let s = Spot::random(&mut c.rng, kinds);
    let m = s.tree();
    let max = match c.rng.below(6) {
        0 => 1 + c.rng.below(40) as u8,
        _ => 1 + c.rng.below(6) as u8,
    };
    let min = c.rng.chance(1, 3).then(|| 1 + c.rng.below(max as u64) as u8);
    let q = match min {
        Some(min) => PathTrunkChunkQuery::new_with_min_depth(s.path.clone(), max, min),
        None => PathTrunkChunkQuery::new(s.path.clone(), max),
    };
    let counted = !matches!(m.kind, Kind::Plain | Kind::Sum | Kind::BigSum);
    let count = m.root.map(|r| m.nodes[r].count).unwrap_or(0);
    let tall = tallest(count);
    let depths = if count == 0 { vec![] } else { split(tall, max, min.filter(|_| m.provable())).unwrap_or_default() };
    let first = depths.first().copied().unwrap_or(0) as usize;
    let root = s.w.root_hash();
    if c.wants_sample() {
        c.sample(format!("{} max {max} min {min:?}", s.show()));
    }
    let plain = trunk_layer(&s, first);
    // references cannot be shown in chunks; a count of zero cannot tell what is there
    let upper = within(m, m.root, first);
    let provable = counted && upper.iter().all(|i| !m.nodes[*i].is_ref()) && (count > 0 || m.root.is_none());
    let scene = Scene::of(s.w.clone(), vec![], Query::new(), None);
    for round in 0..14 {
        let mut honest = false;
        let p = match round {
            0 => {
                honest = true;
                plain.v1()
            }
            1 => match plain.v0(true) {
                Some(p) => {
                    honest = true;
                    p
                }
                None => continue,
            },
            _ => {
                let mut l = match c.rng.below(4) {
                    0 => trunk_layer(&s, first + c.rng.usize(4)),
                    1 => trunk_layer(&s, c.rng.usize(first + 1)),
                    2 if c.rng.chance(1, 4) => full(&s.w),
                    _ => plain.clone(),
                };
                for _ in 0..c.rng.below(3) {
                    if c.rng.bool() {
                        let t = tamper(&mut c.rng, &scene, &mut l);
                        c.count(t, 1);
                    } else if let Some(t) = l.get(&s.path) {
                        // below the path
                        let mut all = Layer::of(Part::Merk(vec![]));
                        std::mem::swap(&mut all, t);
                        let sub = Scene::of(m.clone(), vec![], Query::new(), None);
                        let what = tamper(&mut c.rng, &sub, &mut all);
                        c.count(what, 1);
                        *t = all;
                    }
                }
                if c.rng.chance(1, 10) { l.v0(true).unwrap_or_else(|| l.v1()) } else { l.v1() }
            }
        };
        let mut b = ops::pack(&p);
        if round > 10 && !b.is_empty() && c.rng.bool() {
            let i = c.rng.usize(b.len());
            b[i] ^= 1 << c.rng.below(8);
            c.count("bytes changed", 1);
        }
        match GroveDb::verify_trunk_chunk_proof(&b, &q, v) {
            Err(e) => {
                c.count("trunks refused", 1);
                c.ensure(!(honest && provable), "genuine-trunk-refused", || format!("max {max} min {min:?}: {e}\n{}\n{p}", s.show()))?;
            }
            Ok((h, r)) => {
                if honest && provable {
                    c.ensure(h == root, "genuine-trunk-other-root", || s.show())?;
                }
                let v1 = matches!(ops::unpack(&b), Ok((GroveDBProof::V1(_), _)));
                if h != root || !(v1 || honest && provable) {
                    c.count("trunks of another state, or legacy", 1);
                    continue;
                }
                c.count("trunks accepted", 1);
                c.note(format!("accepted trunk, max {max} min {min:?}: {}", ops::unpack(&b).map(|(p, _)| format!("{p}")).unwrap_or_default()));
                c.ensure(counted, "trunk-of-an-uncounted-tree", || s.show())?;
                c.ensure(r.max_tree_depth == tall && r.chunk_depths == depths, "trunk-depths", || format!("{} {:?} expected {tall} {depths:?}\n{}", r.max_tree_depth, r.chunk_depths, s.show()))?;
                let ch = Chunk { elements: &r.elements, leaves: &r.leaf_keys, tree: &r.tree };
                check_chunk(c, &s, m.root, first, &ch, (honest && provable).then_some(first))?;
                check_walks(c, &s, m.root, &ch, |k| r.trace_key_to_leaf(k), |k, n| r.get_ancestor(k, n))?;
                c.eval(fnv(&b), !r.leaf_keys.is_empty());
            }
        }
    }
    // the same chunk as a merk result
    if let Some(r) = m.root
        && first > 0
    {
        let mut proof = vec![];
        emit(m, r, &top_faces(m, r, first), true, &mut proof);
        let t = TrunkQueryResult { proof, chunk_depths: depths.clone(), tree_depth: tall };
        let cut: Vec<Key> = upper.iter().filter(|i| [m.nodes[**i].left, m.nodes[**i].right].into_iter().flatten().any(|k| !upper.contains(&k))).map(|i| m.nodes[*i].key.clone()).collect();
        let mut got = t.terminal_node_keys();
        got.sort();
        c.same(&got, &cut, "terminal-keys")?;
        c.must(t.verify_terminal_nodes_at_expected_depth(), "terminal-depth-refused")?;
        if !cut.is_empty() {
            let mut other = t.clone();
            other.chunk_depths = vec![first as u8 + 1];
            c.ensure(other.verify_terminal_nodes_at_expected_depth().is_err(), "terminal-depth-accepted", || s.show())?;
        }
        for i in 0..m.nodes.len() {
            let k = &m.nodes[i].key;
            let want = if upper.contains(&i) { None } else { way(m, m.root, k).into_iter().rfind(|j| upper.contains(j)).map(|j| m.nodes[j].key.clone()) };
            c.same(&t.trace_key_to_terminal(k), &want, "traced-to-another-terminal")?;
        }
    }
    Ok(())
}
fn branch_case(c: &mut Case) -> Res {
    let v = GroveVersion::latest();
    let s = Spot::random(&mut c.rng, &KINDS);
    let m = s.tree();
    if m.nodes.is_empty() {
        return Ok(());
    }
    let top = c.rng.usize(m.nodes.len());
    let depth = 1 + c.rng.usize(5);
    let key = m.nodes[top].key.clone();
    let q = PathBranchChunkQuery::new(s.path.clone(), key, depth as u8);
    let want = m.nodes[top].hash;
    let genuine = within(m, Some(top), depth).iter().all(|i| !m.nodes[*i].is_ref());
    if c.wants_sample() {
        c.sample(format!("{} branch {} depth {depth}", s.show(), hex(&q.key)));
    }
    // the branch as a tree of its own, for tampering
    let sub = Merk { kind: m.kind, nodes: m.nodes.clone(), root: Some(top) };
    let scene = Scene::of(Merk { kind: Kind::Plain, nodes: vec![], root: None }, vec![], Query::new(), None);
    let scene = Scene { w: sub, ..scene };
    for round in 0..14 {
        let honest = round == 0;
        let d = match c.rng.below(5) {
            0 if !honest => depth + c.rng.usize(4),
            1 if !honest => c.rng.usize(depth + 1),
            _ => depth,
        };
        let mut l = Layer::merk(&scene.w, top_faces(m, top, d), true);
        if !honest {
            for _ in 0..1 + c.rng.below(2) {
                let t = tamper(&mut c.rng, &scene, &mut l);
                c.count(t, 1);
            }
        }
        let Part::Merk(o) = &l.part else { continue };
        let mut b = vec![];
        encode_into(o.iter(), &mut b);
        if round > 11 && !b.is_empty() {
            let i = c.rng.usize(b.len());
            b[i] ^= 1 << c.rng.below(8);
        }
        match GroveDb::verify_branch_chunk_proof(&b, &q, want, v) {
            Err(e) => {
                c.count("branches refused", 1);
                c.ensure(!(honest && genuine), "genuine-branch-refused", || format!("{e}\n{}", s.show()))?;
            }
            Ok(r) => {
                c.count("branches accepted", 1);
                c.note(format!("accepted branch at {} depth {depth}: {o:?}", hex(&q.key)));
                c.ensure(r.branch_root_hash == want, "branch-root", || s.show())?;
                let ch = Chunk { elements: &r.elements, leaves: &r.leaf_keys, tree: &r.tree };
                check_chunk(c, &s, Some(top), depth, &ch, (honest && genuine).then_some(depth))?;
                check_walks(c, &s, Some(top), &ch, |k| r.trace_key_to_leaf(k), |k, n| r.get_ancestor(k, n))?;
                let mut other = want;
                other[c.rng.usize(32)] ^= 1 << c.rng.below(8);
                c.ensure(GroveDb::verify_branch_chunk_proof(&b, &q, other, v).is_err(), "branch-of-another-hash", || s.show())?;
                c.eval(fnv(&b), !r.leaf_keys.is_empty());
                let ops: Vec<Op> = o.clone();
                let t = grovedb_merk::BranchQueryResult { proof: ops, branch_root_key: q.key.clone(), returned_depth: depth as u8, branch_root_hash: want };
                if honest {
                    for i in within(m, Some(top), 200) {
                        let k = &m.nodes[i].key;
                        let want = if r.elements.contains_key(k) { None } else { way(m, Some(top), k).into_iter().rfind(|j| r.elements.contains_key(&m.nodes[*j].key)).map(|j| m.nodes[j].key.clone()) };
                        c.same(&t.trace_key_to_terminal(k), &want, "traced-to-another-terminal")?;
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn p05(ctx: &Ctx) {
    ctx.level("monitored executions of the real chunk verifiers against a model database; chunks made by a model prover and by an adversary that knows every hash");
    ctx.rule("a genuine chunk is accepted with all the levels asked for; every accepted chunk under the state's hash shows only stored elements, leaves nothing out without a leaf, and reports true leaf hashes, counts and depths; keys trace to the leaf above them; chunk depth arithmetic equals its definition");
    ctx.assume("BLAKE3 collisions are not found; legacy (V0) trunks are checked for completeness only; trees whose shown part holds references, or whose aggregate count is zero though they hold something, cannot be shown in chunks");
    ctx.cases("depths", 93, depths_case);
    ctx.cases("trunk", ctx.n(16_000, 1_500_000), trunk_case);
    ctx.cases("branch", ctx.n(16_000, 1_500_000), branch_case);
    ctx.require("trunks accepted", 500);
    ctx.require("trunks refused", 500);
    ctx.require("branches accepted", 500);
    ctx.require("branches refused", 500);
    ctx.require("leaves checked", 500);
    ctx.require("ancestors checked", 200);
    ctx.require("keys traced", 500);
}
