//! Proofs made by the database.
use crate::models::{H, b3};
use crate::obs::{Obs, V, ensure, fail, same};
use crate::reads::show_path;
use crate::sim::v;
use crate::world::{self, Kind, Merk, ser, value_hash};
use crate::queries::{Key, Path};
use grovedb::{Element, GroveDb, LeafInfo, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::hex;

type Row3 = (Vec<Vec<u8>>, Vec<u8>, Vec<u8>);
fn list(r: &[Row3]) -> String {
    r.iter().map(|(p, k, e)| format!("\n  {} / {} = {}", show_path(p), hex(k), Element::deserialize(e, v()).map_or(hex(e), |e| format!("{e}")))).collect()
}
fn cfg() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_no_limit()
}
fn printed(proof: &[u8]) -> String {
    bincode::decode_from_slice::<grovedb::operations::proof::GroveDBProof, _>(proof, cfg()).map_or("undecodable".into(), |p| format!("{}", p.0))
}
/// the target has changed since the reference was written, or is gone: it has to be refreshed to be proved
fn stale(w: &Merk, r: &world::Row) -> bool {
    w.entry(&r.path, &r.key).is_some_and(|e| e.target.as_ref().is_some_and(|t| e.vh != b3(&[&value_hash(&e.value), &value_hash(t)])))
}
pub fn proofs(o: &mut Obs, db: &GroveDb, w: &Merk, root: &H, n: usize) -> V {
    // nothing can be proved of an empty database
    let n = if w.root.is_none() { 0 } else { n };
    for _ in 0..n {
        vcommon::tick();
        let path = world::path_for(&mut o.rng, w);
        let at = {
            let mut m = w;
            for k in &path {
                match m.find(k).and_then(|i| m.nodes[i].below.merk()) {
                    Some(s) => m = s,
                    None => break,
                }
            }
            m
        };
        let q = world::query_for(&mut o.rng, at, 2);
        let limit = world::limit_for(&mut o.rng);
        let a = world::answer(w, &path, &q, limit);
        if a.rows.iter().any(|r| stale(w, r)) {
            o.count("queries that meet a reference older than its target", 1);
            continue;
        }
        let pq = PathQuery { path: path.clone(), query: SizedQuery { query: q.clone(), limit, offset: None } };
        let show = || format!("query {q} limit {limit:?} at {}", show_path(&path));
        let made = db.prove_query(&pq, None, v()).unwrap();
        let proof = match made {
            Ok(p) => p,
            Err(e) => {
                if a.errors.is_empty() && a.proof.is_some() {
                    return fail("prove-fails", format!("{}: {e}", show()));
                }
                o.count("queries not provable", 1);
                continue;
            }
        };
        let again = bincode::decode_from_slice::<grovedb::operations::proof::GroveDBProof, _>(&proof, cfg())
            .map_err(|e| e.to_string())
            .and_then(|(p, n)| bincode::encode_to_vec(&p, cfg()).map(|b| (b, n)).map_err(|e| e.to_string()));
        ensure(again == Ok((proof.clone(), proof.len())), "proof-encoding", || format!("{}: {} became {again:?}", show(), hex(&proof)))?;
        if !a.errors.is_empty() {
            o.count("queries without an answer", 1);
            continue;
        }
        let want: Vec<Row3> = a.rows.iter().map(|r| (r.path.clone(), r.key.clone(), r.value.clone())).collect();
        match GroveDb::verify_query_raw(&proof, &pq, v()) {
            Ok((h, rows)) => {
                same(&h, root, "proof-root-differs")?;
                let got: Vec<Row3> = rows.iter().map(|r| (r.path.clone(), r.key.clone(), r.value.clone())).collect();
                ensure(got == want, "proved-rows-differ", || format!("{}{}\nexpected{}", show(), list(&got), list(&want)))?;
                o.count("rows proved", got.len() as u64);
            }
            Err(e) => return fail("proof-refused", format!("{}: {e}\n{}", show(), printed(&proof))),
        }
        let want: Vec<Row3> = a.rows.iter().filter(|r| !r.hidden).map(|r| (r.path.clone(), r.key.clone(), r.value.clone())).collect();
        match GroveDb::verify_query(&proof, &pq, v()) {
            Ok((h, rows)) => {
                same(&h, root, "proof-root-differs")?;
                let got: Vec<Row3> = rows.iter().map(|(p, k, e)| (p.clone(), k.clone(), e.as_ref().map(ser).unwrap_or_default())).collect();
                ensure(got == want, "proved-elements-differ", || format!("{}{}\nexpected{}", show(), list(&got), list(&want)))?;
            }
            Err(e) => return fail("proof-refused", format!("{}: {e}\n{}", show(), printed(&proof))),
        }
        o.eval(vcommon::fnv(&proof), !want.is_empty());
        o.count("proofs verified", 1);
        // the other ways to the same proof
        let same_proof = db.get_proved_path_query(&pq, None, None, v()).unwrap();
        ensure(same_proof.as_ref().ok() == Some(&proof), "proof-by-another-name-differs", show)?;
        let alone = db.prove_query_many(vec![&pq], None, v()).unwrap();
        ensure(alone.as_ref().ok() == Some(&proof), "proof-of-one-of-many-differs", show)?;
        let other = PathQuery::new_unsized(path.clone(), world::query_for(&mut o.rng, at, 2));
        let plain = PathQuery { path: path.clone(), query: SizedQuery { query: q.clone(), limit: None, offset: None } };
        let two = db.prove_query_many(vec![&plain, &other], None, v()).unwrap();
        let merged = PathQuery::merge(vec![&plain, &other], v()).and_then(|m| db.prove_query(&m, None, v()).unwrap());
        ensure(two.as_ref().ok() == merged.as_ref().ok(), "proof-of-many-differs", show)?;
        // in the earlier format
        let old = &grovedb_version::version::v2::GROVE_V2;
        match db.prove_query(&pq, None, old).unwrap() {
            Ok(p) => {
                for v in [old, v()] {
                    match GroveDb::verify_query(&p, &pq, v) {
                        Ok((h, rows)) => {
                            same(&h, root, "proof-root-differs")?;
                            let got: Vec<Row3> = rows.iter().map(|(p, k, e)| (p.clone(), k.clone(), e.as_ref().map(ser).unwrap_or_default())).collect();
                            ensure(got == want, "proved-elements-differ", || format!("earlier format {}{}\nexpected{}\n{}", show(), list(&got), list(&want), printed(&p)))?;
                        }
                        Err(e) => return fail("earlier-proof-refused", format!("{}: {e}\n{}", show(), printed(&p))),
                    }
                }
                o.count("earlier proofs verified", 1);
            }
            Err(e) => ensure(a.visited.values().any(|m| !m), "earlier-prove-fails", || format!("{} {e}", show()))?,
        }
    }
    Ok(())
}

/// chunks of the counted trees, made by the database
pub fn chunks(o: &mut Obs, db: &GroveDb, w: &Merk, root: &H) -> V {
    let mut trees: Vec<(Path, &Merk)> = vec![];
    let mut todo = vec![(vec![], w)];
    while let Some((p, m)) = todo.pop() {
        for n in &m.nodes {
            if let Some(s) = n.below.merk() {
                let mut q: Path = p.clone();
                q.push(n.key.clone());
                todo.push((q, s));
            }
        }
        trees.push((p, m));
    }
    for (path, m) in trees {
        vcommon::tick();
        let Some(top) = m.root else { continue };
        if path.is_empty() || path.iter().any(|k| k.len() > 255) {
            continue;
        }
        let counted = !matches!(m.kind, Kind::Plain | Kind::Sum | Kind::BigSum);
        let max = 1 + o.rng.below(4) as u8;
        let min = o.rng.chance(1, 3).then(|| 1 + o.rng.below(max as u64) as u8);
        let q = match min {
            Some(min) => PathTrunkChunkQuery::new_with_min_depth(path.clone(), max, min),
            None => PathTrunkChunkQuery::new(path.clone(), max),
        };
        let show = || format!("levels up to {max}, least {min:?}, of the tree at {}", show_path(&path));
        let version = if o.rng.bool() { v() } else { &grovedb_version::version::v2::GROVE_V2 };
        let made = db.prove_trunk_chunk(&q, version).unwrap();
        if !counted {
            ensure(made.is_err(), "trunk-of-an-uncounted-tree", show)?;
            continue;
        }
        let count = m.nodes[top].count;
        if count == 0 {
            // nothing says how deep it is
            continue;
        }
        let tall = world::tallest(count);
        let depths = world::split(tall, max, min.filter(|_| m.provable())).unwrap_or_default();
        let first = depths.first().copied().unwrap_or(0) as usize;
        let shown = world::within(m, Some(top), first);
        if shown.iter().any(|i| m.nodes[*i].is_ref() || matches!(m.nodes[*i].elem, Element::Reference(..))) {
            o.count("chunks with references left out", 1);
            continue;
        }
        let bytes = match made {
            Ok(b) => b,
            Err(e) => return fail("trunk-fails", format!("{} {e}", show())),
        };
        let (h, r) = match GroveDb::verify_trunk_chunk_proof(&bytes, &q, v()) {
            Ok(x) => x,
            Err(e) => return fail("trunk-refused", format!("{} {e}\n{}", show(), printed(&bytes))),
        };
        ensure(h == *root, "trunk-root-differs", show)?;
        ensure(r.max_tree_depth == tall && r.chunk_depths == depths, "trunk-depths-differ", || format!("{} {} {:?}, expected {tall} {depths:?}", show(), r.max_tree_depth, r.chunk_depths))?;
        levels(m, &shown, &r.elements, &r.leaf_keys, &show)?;
        o.count("trunks verified", 1);
        o.eval(vcommon::fnv(&bytes), !r.leaf_keys.is_empty());
        // and on from the leaves, or from anywhere
        let starts: Vec<usize> = (0..m.nodes.len()).filter(|i| r.leaf_keys.contains_key(&m.nodes[*i].key)).chain([o.rng.usize(m.nodes.len())]).collect();
        for i in starts {
            let depth = 1 + o.rng.below(4) as u8;
            let q = PathBranchChunkQuery::new(path.clone(), m.nodes[i].key.clone(), depth);
            let show = || format!("{depth} levels below {} in {}", hex(&q.key), show_path(&path));
            let bytes = match db.prove_branch_chunk(&q, v()).unwrap() {
                Ok(b) => b,
                Err(e) => return fail("branch-fails", format!("{} {e}", show())),
            };
            let shown = world::within(m, Some(i), depth as usize);
            if shown.iter().any(|i| matches!(m.nodes[*i].elem, Element::Reference(..))) {
                continue;
            }
            let r = match GroveDb::verify_branch_chunk_proof(&bytes, &q, m.nodes[i].hash, v()) {
                Ok(r) => r,
                Err(e) => return fail("branch-refused", format!("{} {e}", show())),
            };
            levels(m, &shown, &r.elements, &r.leaf_keys, &show)?;
            o.count("branches verified", 1);
        }
    }
    Ok(())
}
/// exactly these nodes are shown, and the leaves are where they end
fn levels(m: &Merk, shown: &BTreeSet<usize>, elements: &BTreeMap<Key, Element>, leaves: &BTreeMap<Key, LeafInfo>, show: &dyn Fn() -> String) -> V {
    let want: BTreeMap<Key, Vec<u8>> = shown.iter().map(|i| (m.nodes[*i].key.clone(), m.nodes[*i].value.clone())).collect();
    let got: BTreeMap<Key, Vec<u8>> = elements.iter().map(|(k, e)| (k.clone(), ser(e))).collect();
    ensure(got == want, "chunk-elements-differ", || format!("{}\n{got:?}\nexpected\n{want:?}", show()))?;
    let cut = |i: &&usize| [m.nodes[**i].left, m.nodes[**i].right].into_iter().flatten().any(|k| !shown.contains(&k));
    let want: BTreeMap<Key, (H, Option<u64>)> = shown.iter().filter(cut).map(|i| (m.nodes[*i].key.clone(), (m.nodes[*i].hash, m.provable().then(|| m.nodes[*i].count)))).collect();
    let got: BTreeMap<Key, (H, Option<u64>)> = leaves.iter().map(|(k, l)| (k.clone(), (l.hash, l.count))).collect();
    ensure(got == want, "chunk-leaves-differ", || format!("{}\n{got:?}\nexpected\n{want:?}", show()))
}
