//! State sync from one database into another.
use crate::history::{check_rows, open};
use crate::obs::{Obs, V, ensure, must};
use crate::sim::{State, v};
use crate::store::{Found, Rows, row, rows};
use grovedb::{Element, GroveDb};
use std::path::Path;
use vcommon::{Rng, hex};

/// what is there, without the records of the subtrees' root keys that receiving leaves behind (nothing reads them)
fn kept(dir: &Path) -> Rows {
    let mut r = rows(dir);
    r.retain(|(cf, k), _| *cf != 2 || k[..32] == [0; 32]);
    r
}
/// no other rows than the source has: subtrees received completely are kept when a later one is refused
/// (what their tree elements say is only settled by the chunks of those trees, so values may differ)
fn partial(dir: &Path, src: &Rows) -> V {
    for k in kept(dir).keys() {
        ensure(src.contains_key(k), "refused-sync-leaves-other-rows", || format!("cf{} {}", k.0, hex(&k.1)))?;
    }
    Ok(())
}
/// fetches everything in any order; with `spoil`, one chunk arrives changed
pub fn sync(o: &mut Obs, src: &GroveDb, found: &Found, s: &State, from: &Rows, dir: &Path, batch: usize, spoil: Option<u64>) -> V {
    let root = &found.root;
    let dst = open(dir)?;
    let mut rng = Rng::new(spoil.unwrap_or(batch as u64));
    let mut session = must(dst.start_snapshot_syncing(*root, batch, 1, v()), "sync-start-fails")?;
    let mut queue: Vec<Vec<u8>> = vec![root.to_vec()];
    let at = rng.below(6);
    let mut fetched = 0;
    let mut spoilt = false;
    let mut seen: Vec<Vec<u8>> = vec![];
    while !queue.is_empty() {
        let id = queue.swap_remove(rng.usize(queue.len()));
        let honest = match src.fetch_chunk(&id, None, 1, v()) {
            Ok(c) => c,
            // a changed chunk may have named trees that are not there
            Err(_) if spoilt => {
                o.count("changed chunks taken", 1);
                drop(session);
                return partial(dir, from);
            }
            Err(e) => return Err(("fetch-chunk-fails".into(), format!("{e}"))),
        };
        let mut chunk = honest.clone();
        if spoil.is_some() && fetched == at {
            chunk = tamper(&mut rng, &honest, &seen);
            spoilt = chunk != honest;
        }
        seen.push(honest.clone());
        fetched += 1;
        match session.apply_chunk(&id, &chunk, 1, v()) {
            Ok(more) => {
                if spoilt && chunk != honest {
                    // not noticed at once: the commitment has to
                    o.count("changed chunks taken", 1);
                }
                queue.extend(more);
            }
            Err(e) => {
                if spoilt {
                    o.count("changed chunks refused", 1);
                    drop(session);
                    return partial(dir, from);
                }
                return Err(("honest-chunk-refused".into(), format!("{e} chunk {} of {}", hex(&id), fetched)));
            }
        }
    }
    o.count("chunks fetched", fetched);
    if !session.is_sync_completed() {
        ensure(spoilt, "sync-not-complete", || format!("after {fetched} chunks"))?;
        return Ok(());
    }
    let r = dst.commit_session(session, v());
    let tree = State { aux: Default::default(), ..s.clone() };
    match r {
        Ok(()) => {
            let mut same_rows = from.clone();
            same_rows.retain(|(cf, _), _| *cf != 1);
            if spoilt && kept(dir).len() == same_rows.len() {
                let now = kept(dir);
                let is_ref = |v: Option<&Vec<u8>>| {
                    v.and_then(|v| row(v)).and_then(|r| Element::deserialize(&r.value, crate::sim::v()).ok()).is_some_and(|e| matches!(e, Element::Reference(..)))
                };
                // what became a reference, or was one, and sums and counts changed by that
                if now.iter().any(|(k, v)| k.0 == 0 && same_rows.get(k) != Some(v) && (is_ref(Some(v)) || is_ref(same_rows.get(k)))) {
                    return Err(("changed-reference-received".into(), "a chunk in which the bytes of a reference were changed was taken, and the state committed with them".into()));
                }
            }
            ensure(kept(dir) == same_rows || s.tree.map.is_empty(), "synced-rows-differ", String::new)?;
            let f = check_rows(&kept(dir), &tree).map_err(|(a, b)| (format!("synced-{a}"), b))?;
            ensure(f.root == *root, "synced-root-differs", String::new)?;
            let issues = must(dst.verify_grovedb(None, false, true, v()), "verify-fails")?;
            ensure(issues.is_empty(), "verify-finds-issues", || format!("{issues:?}"))?;
            o.count("states received", 1);
        }
        Err(e) => {
            ensure(spoilt, "sync-commit-fails", || format!("{e}"))?;
            partial(dir, from)?;
            o.count("changed states refused", 1);
        }
    }
    Ok(())
}
fn tamper(rng: &mut Rng, honest: &[u8], seen: &[Vec<u8>]) -> Vec<u8> {
    let mut c = honest.to_vec();
    match rng.below(6) {
        0 => c.truncate(rng.usize(c.len() + 1)),
        1 if !seen.is_empty() => c = rng.pick(seen).clone(),
        2 => {
            let n = rng.usize(9);
            c.extend(rng.bytes(n));
        }
        3 if !c.is_empty() => {
            let i = rng.usize(c.len());
            c.remove(i);
        }
        _ if !c.is_empty() => {
            for _ in 0..1 + rng.usize(2) {
                let i = rng.usize(c.len());
                c[i] ^= 1 << rng.below(8);
            }
        }
        _ => {}
    }
    c
}
