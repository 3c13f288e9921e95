//! Histories that reach the code behind unsafe blocks: the sessions that receive a database.
//! This program is run under Miri and under AddressSanitizer; what it does itself is only to count.
//! usage: vub SEED HISTORIES SECONDS SMALL
use grovedb::reference_path::ReferencePathType;
use grovedb::replication::MultiStateSyncSession;
use grovedb::{Element, GroveDb};
use grovedb_version::version::{GROVE_VERSIONS, GroveVersion};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use vcommon::Rng;

fn v() -> &'static GroveVersion {
    GROVE_VERSIONS.last().unwrap()
}
type Counts = BTreeMap<&'static str, u64>;

/// a few trees of different kinds, nested, with some contents
fn fill(r: &mut Rng, db: &GroveDb, small: bool) {
    let mut paths: Vec<Vec<Vec<u8>>> = vec![vec![]];
    let n = if small { 2 + r.usize(4) } else { 2 + r.usize(10) };
    for i in 0..n {
        let p = r.pick(&paths).clone();
        let path: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
        let key = vec![b'a' + i as u8; 1 + r.usize(3)];
        let mut tree = true;
        let e = match r.below(if small && i < 3 { 7 } else { 9 }) {
            0 => Element::empty_tree(),
            1 => Element::empty_sum_tree(),
            2 => Element::empty_big_sum_tree(),
            3 => Element::empty_count_tree(),
            4 => Element::empty_count_sum_tree(),
            5 => Element::empty_provable_count_tree(),
            6 if i > 0 => {
                tree = false;
                Element::new_reference(ReferencePathType::AbsolutePathReference(vec![b"item".to_vec()]))
            }
            _ => {
                tree = false;
                let n = r.usize(40);
                Element::new_item(r.bytes(n))
            }
        };
        if i == 0 {
            db.insert::<&[u8], _>(&[][..], b"item", Element::new_item(b"x".to_vec()), None, None, v()).unwrap().unwrap();
        }
        if db.insert(path.as_slice(), &key, e, None, None, v()).unwrap().is_ok() && tree && p.len() < 3 {
            let mut q = p;
            q.push(key);
            paths.push(q);
        }
    }
    // one tree high enough for several chunks
    if r.chance(1, if small { 6 } else { 2 }) {
        let p = r.pick(&paths).clone();
        let path: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
        for i in 0..6 + r.below(10) {
            let _ = db.insert(path.as_slice(), &[i as u8, 7], Element::new_item(vec![i as u8; 3]), None, None, v()).unwrap();
        }
    }
}
fn history(r: &mut Rng, c: &mut Counts, small: bool) {
    let base = std::env::temp_dir().join(format!("vub-{}-{}", std::process::id(), r.u64()));
    let (a, b) = (base.join("a"), base.join("b"));
    std::fs::create_dir_all(&a).unwrap();
    std::fs::create_dir_all(&b).unwrap();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let src = GroveDb::open(&a).unwrap();
        fill(r, &src, small);
        let dst = GroveDb::open(&b).unwrap();
        receive(r, &src, &dst, c);
        // what was received is used
        let _ = dst.root_hash(None, v()).unwrap();
        let _ = dst.get::<&[u8], _>(&[][..], b"item", None, v()).unwrap();
        if r.chance(1, if small { 20 } else { 3 }) {
            let _ = dst.verify_grovedb(None, false, true, v());
        }
    }));
    if res.is_err() {
        *c.entry("histories that panicked").or_default() += 1;
    }
    for d in [&a, &b] {
        rocksdb::shim::forget(d);
    }
    let _ = std::fs::remove_dir_all(&base);
    *c.entry("histories").or_default() += 1;
}
fn receive(r: &mut Rng, src: &GroveDb, dst: &GroveDb, c: &mut Counts) {
    let root = src.root_hash(None, v()).unwrap().unwrap();
    for _ in 0..1 + r.below(2) {
        let most = if r.bool() { 1 } else { 4 };
        let batch = 1 + r.usize(most);
        let claimed = if r.chance(1, 12) { r.arr32() } else { root };
        let Ok(mut session) = dst.start_snapshot_syncing(claimed, batch, 1, v()) else { continue };
        *c.entry("sessions started").or_default() += 1;
        if r.chance(1, 8) {
            // a subtree added by hand, that is there already or is not
            let k = [r.pick(b"abc").to_owned()];
            let p: [&[u8]; 1] = [&k];
            let deep = r.bool();
            let prefix = if r.bool() { [0; 32] } else { r.arr32() };
            let path: &[&[u8]] = if deep { &p } else { &[] };
            let _ = session.add_subtree_sync_info(path.into(), r.arr32(), r.bool().then(|| r.arr32()), prefix, v());
            *c.entry("subtrees added by hand").or_default() += 1;
        }
        let mut queue = vec![claimed.to_vec()];
        let mut taken: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let stop = if r.chance(1, 4) { r.below(12) } else { 1000 };
        let spoil = if r.chance(1, 3) { r.below(8) } else { 1000 };
        let mut n = 0;
        while !queue.is_empty() && n < stop {
            let id = queue.swap_remove(r.usize(queue.len()));
            let Ok(mut chunk) = src.fetch_chunk(&id, None, 1, v()) else {
                *c.entry("chunks not to be had").or_default() += 1;
                n += 1;
                continue;
            };
            if n == spoil && !chunk.is_empty() {
                match r.below(3) {
                    0 => chunk.truncate(r.usize(chunk.len())),
                    1 => {
                        let i = r.usize(chunk.len());
                        chunk[i] ^= 1 << r.below(8);
                    }
                    _ if !taken.is_empty() => chunk = r.pick(&taken).1.clone(),
                    _ => chunk.clear(),
                }
                *c.entry("chunks changed").or_default() += 1;
            }
            if r.chance(1, 20) && !taken.is_empty() {
                // one that was applied before
                let (i, k) = r.pick(&taken).clone();
                let _ = session.apply_chunk(&i, &k, 1, v());
                *c.entry("chunks applied twice").or_default() += 1;
            }
            match session.apply_chunk(&id, &chunk, 1, v()) {
                Ok(more) => {
                    *c.entry("chunks applied").or_default() += 1;
                    queue.extend(more);
                }
                Err(_) => {
                    *c.entry("chunks refused").or_default() += 1;
                    // goes on with the others, or tries again
                    if r.bool() {
                        queue.push(id.clone());
                    }
                    if r.chance(1, 3) {
                        break;
                    }
                }
            }
            taken.push((id, chunk));
            n += 1;
        }
        let done = session.is_sync_completed();
        *c.entry("trees received by completed sessions").or_default() += if done { taken.len() as u64 } else { 0 };
        match r.below(8) {
            0 => {
                drop(session);
                *c.entry("sessions dropped").or_default() += 1;
            }
            1 => finish(MultiStateSyncSession::commit(session, v()).is_ok(), done, batch, taken.len(), c),
            2 => {
                // moved about first
                let mut held: Vec<Pin<Box<MultiStateSyncSession>>> = Vec::with_capacity(1);
                held.push(session);
                held.reserve(16);
                let s = held.pop().unwrap();
                finish(dst.commit_session(s, v()).is_ok(), done, batch, taken.len(), c)
            }
            _ => finish(dst.commit_session(session, v()).is_ok(), done, batch, taken.len(), c),
        }
    }
}
fn finish(ok: bool, done: bool, batch: usize, chunks: usize, c: &mut Counts) {
    *c.entry(if ok { "sessions committed" } else { "sessions refused at the end" }).or_default() += 1;
    if done && chunks > batch {
        *c.entry("sessions that changed their transaction").or_default() += 1;
    }
}
fn main() {
    let mut args = std::env::args().skip(1).map(|x| x.parse::<u64>().expect("number"));
    let (seed, n) = (args.next().unwrap_or(1), args.next().unwrap_or(1));
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Counts::new();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(args.next().unwrap_or(100_000));
    let small = args.next() == Some(1);
    for i in 0..n {
        if std::time::Instant::now() > end {
            break;
        }
        println!("HISTORY {i}");
        history(&mut Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i)), &mut c, small);
    }
    for (k, x) in c {
        println!("COUNT {x} {k}");
    }
    println!("DONE");
}
