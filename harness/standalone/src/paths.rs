//! H01: a path means the same thing however it was built.
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    fmt::Debug,
    hash::{Hash, Hasher},
};

use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_storage::rocksdb_storage::RocksDbStorage;
use vcommon::{Case, Ctx, Res, Rng, fnv, hex};

fn segment(rng: &mut Rng) -> Vec<u8> {
    match rng.below(10) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        3 => b"a".to_vec(),
        4 => b"b".to_vec(),
        5 => b"ab".to_vec(),
        6 => vec![1],
        7 => vec![1, 0, 0, 0, 0, 0, 0, 0],
        8 => {
            let n = rng.usize(40);
            rng.bytes(n)
        }
        _ => {
            let n = *rng.pick(&[254usize, 255, 31, 32]);
            vec![rng.below(3) as u8; n]
        }
    }
}

fn segments(rng: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    let n = rng.usize(max + 1);
    (0..n).map(|_| segment(rng)).collect()
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// the storage prefix as the storage format defines it
fn prefix(v: &[Vec<u8>]) -> [u8; 32] {
    if v.is_empty() {
        return [0; 32];
    }
    let mut b = Vec::new();
    for s in v.iter().rev() {
        b.extend_from_slice(s);
    }
    b.extend_from_slice(&v.len().to_ne_bytes());
    for s in v.iter().rev() {
        b.push(s.len() as u8);
    }
    *blake3::hash(&b).as_bytes()
}

fn sh(v: &[Vec<u8>]) -> String {
    v.iter().map(|s| format!("[{}]", hex(s))).collect::<Vec<_>>().join("/")
}

/// the order the paths define, on plain segments: deeper first, then by
/// segments from the last to the first
fn spec_cmp(a: &[Vec<u8>], b: &[Vec<u8>]) -> Ordering {
    b.len().cmp(&a.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

/// One view of `v` in some representation: every observation has to be that of
/// `v`, and different from that of `w` unless they are the same path.
fn look<B: AsRef<[u8]> + Debug>(c: &mut Case, p: &SubtreePath<B>, v: &[Vec<u8>], w: &[Vec<u8>], how: &str) -> Res {
    c.count("views", 1);
    let d = |x: &str| format!("{x} of {} built as {how}", sh(v));
    let canon = SubtreePath::from(v);
    c.ensure(p.to_vec() == v, "to-vec", || format!("{}: {}", d("segments"), sh(&p.to_vec())))?;
    let rev: Vec<Vec<u8>> = p.clone().into_reverse_iter().take(v.len() + 5).map(|x| x.to_vec()).collect();
    let mut back = rev.clone();
    back.reverse();
    c.ensure(back == v, "reverse-iteration", || format!("{}: {}", d("reversed segments"), sh(&rev)))?;
    c.ensure(p.len() == v.len(), "length", || format!("{}: {}", d("length"), p.len()))?;
    c.ensure(p.is_empty() == v.is_empty(), "emptiness", || format!("{}: {}", d("emptiness"), p.is_empty()))?;
    c.ensure(p.is_root() == v.is_empty(), "rootness", || format!("{}: {}", d("rootness"), p.is_root()))?;
    c.ensure(p == &canon && &canon == p, "equality", || d("equality"))?;
    c.ensure(h(p) == h(&canon), "hash", || d("hash"))?;
    c.ensure(p.cmp(p) == Ordering::Equal && p.partial_cmp(&canon) == Some(Ordering::Equal), "order-self", || d("order"))?;
    c.ensure(format!("{p}") == format!("{canon}"), "display", || format!("{}: {p} / {canon}", d("display")))?;
    let other = SubtreePath::from(w);
    c.ensure((p == &other) == (v == w), "inequality", || format!("{} against {}", d("equality"), sh(w)))?;
    c.ensure(p.partial_cmp(&other) == Some(spec_cmp(v, w)), "order", || format!("{} against {}: {:?}", d("order"), sh(w), p.partial_cmp(&other)))?;
    c.ensure(other.partial_cmp(p) == Some(spec_cmp(w, v)), "order", || format!("{} against {}: {:?}", d("order"), sh(w), other.partial_cmp(p)))?;
    let pre = RocksDbStorage::build_prefix(p.clone());
    c.ensure(pre.value == prefix(v), "prefix", || format!("{}: {}", d("prefix"), hex(&pre.value)))?;
    let opre = RocksDbStorage::build_prefix(other).value;
    c.ensure((pre.value == opre) == (v == w), "prefix-separation", || format!("{} against {}", d("prefix"), sh(w)))?;
    match p.derive_parent() {
        None => c.ensure(v.is_empty(), "parent", || d("no parent"))?,
        Some((par, key)) => {
            c.ensure(!v.is_empty() && key == &v[v.len() - 1][..], "parent-key", || d("parent key"))?;
            let n = v.len() - 1;
            c.ensure(par.to_vec() == v[..n], "parent", || format!("{}: {}", d("parent"), sh(&par.to_vec())))?;
            c.ensure(par.len() == n && par.is_empty() == (n == 0) && par.is_root() == (n == 0), "parent-size", || d("parent size"))?;
        }
    }
    Ok(())
}

fn look_builder<B: AsRef<[u8]> + Debug>(c: &mut Case, b: &SubtreePathBuilder<B>, v: &[Vec<u8>], w: &[Vec<u8>], how: &str) -> Res {
    let d = |x: &str| format!("{x} of builder {} built as {how}", sh(v));
    c.ensure(b.to_vec() == v, "builder-to-vec", || format!("{}: {}", d("segments"), sh(&b.to_vec())))?;
    c.ensure(b.len() == v.len(), "builder-length", || d("length"))?;
    c.ensure(b.is_empty() == v.is_empty(), "builder-emptiness", || d("emptiness"))?;
    c.ensure(b.is_root() == v.is_empty(), "builder-rootness", || d("rootness"))?;
    let rev: Vec<Vec<u8>> = b.reverse_iter().take(v.len() + 5).map(|x| x.to_vec()).collect();
    c.ensure(rev.iter().rev().eq(v.iter()), "builder-reverse", || d("reverse iteration"))?;
    let canon = SubtreePath::from(v);
    let cb = SubtreePathBuilder::<Vec<u8>>::owned_from_iter(v);
    c.ensure(*b == canon && canon == *b && *b == cb, "builder-equality", || d("equality"))?;
    c.ensure(h(b) == h(&canon), "builder-hash", || d("hash"))?;
    let wb = SubtreePathBuilder::<Vec<u8>>::owned_from_iter(w);
    c.ensure((*b == wb) == (v == w), "builder-inequality", || format!("{} against {}", d("equality"), sh(w)))?;
    c.ensure(b.partial_cmp(&wb) == Some(spec_cmp(v, w)), "builder-order", || format!("{} against {}", d("order"), sh(w)))?;
    c.ensure(canon.partial_cmp(&wb) == Some(spec_cmp(v, w)), "builder-order", || format!("{} against {}", d("order"), sh(w)))?;
    match b.derive_parent_owned() {
        None => c.ensure(v.is_empty(), "builder-parent-owned", || d("no owned parent"))?,
        Some((par, key)) => {
            c.ensure(!v.is_empty() && key == v[v.len() - 1] && par.to_vec() == v[..v.len() - 1], "builder-parent-owned", || d("owned parent"))?;
            let n = v.len() - 1;
            c.ensure(par.len() == n && par.is_empty() == (n == 0) && par.is_root() == (n == 0), "builder-parent-owned-size", || d("owned parent size"))?;
        }
    }
    let p = SubtreePath::from(b);
    look(c, &p, v, w, how)
}

/// derives further paths from a path, depth first, with random steps
fn walk<B: AsRef<[u8]> + Debug>(c: &mut Case, p: SubtreePath<B>, v: &[Vec<u8>], w: &[Vec<u8>], how: &str, depth: u32) -> Res {
    look(c, &p, v, w, how)?;
    if depth == 0 {
        return Ok(());
    }
    match c.rng.below(5) {
        0 => {
            if let Some((par, _)) = p.derive_parent() {
                walk(c, par, &v[..v.len() - 1], w, &format!("{how}.parent"), depth - 1)?;
            }
        }
        1 => {
            let b = p.derive_owned();
            build(c, &b, v, w, &format!("{how}.owned"), depth - 1)?;
        }
        2 | 3 => {
            let s = segment(&mut c.rng);
            let mut v2 = v.to_vec();
            v2.push(s.clone());
            if c.rng.bool() {
                let b = p.derive_owned_with_child(s);
                build(c, &b, &v2, w, &format!("{how}.child"), depth - 1)?;
            } else {
                let b = p.derive_owned_with_child(&s[..]);
                build(c, &b, &v2, w, &format!("{how}.&child"), depth - 1)?;
            }
        }
        _ => {
            let b = SubtreePathBuilder::<B>::owned_from_path(p.clone());
            build(c, &b, v, w, &format!("{how}.from_path"), depth - 1)?;
        }
    }
    Ok(())
}

fn build<B: AsRef<[u8]> + Debug>(c: &mut Case, b: &SubtreePathBuilder<B>, v: &[Vec<u8>], w: &[Vec<u8>], how: &str, depth: u32) -> Res {
    look_builder(c, b, v, w, how)?;
    if depth == 0 {
        return Ok(());
    }
    match c.rng.below(7) {
        0 => {
            let p = SubtreePath::from(b);
            walk(c, p, v, w, &format!("{how}.ref"), depth - 1)?;
        }
        1 => {
            let o = b.derive_owned();
            build(c, &o, v, w, &format!("{how}.owned"), depth - 1)?;
        }
        2 => {
            let s = segment(&mut c.rng);
            let mut v2 = v.to_vec();
            v2.push(s.clone());
            let o = b.derive_owned_with_child(s);
            build(c, &o, &v2, w, &format!("{how}.child"), depth - 1)?;
        }
        3 | 4 => {
            let mut o = b.clone();
            let mut v2 = v.to_vec();
            for _ in 0..1 + c.rng.below(3) {
                let s = segment(&mut c.rng);
                o.push_segment(&s);
                v2.push(s);
            }
            build(c, &o, &v2, w, &format!("{how}.push"), depth - 1)?;
        }
        5 => {
            if let Some((o, _)) = b.derive_parent_owned() {
                build(c, &o, &v[..v.len() - 1], w, &format!("{how}.parent_owned"), depth - 1)?;
            }
        }
        _ => {
            if let Some((p, _)) = b.derive_parent() {
                walk(c, p, &v[..v.len() - 1], w, &format!("{how}.parent"), depth - 1)?;
            }
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Res {
    let v = segments(&mut c.rng, 6);
    // the path to differ from: a near miss of the one under test
    let mut w = v.clone();
    match c.rng.below(6) {
        0 => {
            w.pop();
        }
        1 => w.push(segment(&mut c.rng)),
        2 if w.len() > 1 => {
            // the same bytes cut into other segments
            let i = c.rng.usize(w.len() - 1);
            let t = w.remove(i + 1);
            w[i].extend(t);
            if w[i].len() > 255 {
                w[i].truncate(255);
            } else if c.rng.bool() {
                let cut = c.rng.usize(w[i].len() + 1);
                let t = w[i].split_off(cut);
                w.insert(i + 1, t);
            }
        }
        3 if !w.is_empty() => {
            let i = c.rng.usize(w.len());
            w[i] = segment(&mut c.rng);
        }
        4 if w.len() > 1 => {
            let (i, j) = (c.rng.usize(w.len()), c.rng.usize(w.len()));
            w.swap(i, j);
        }
        _ => w.reverse(),
    }
    let depth = c.rng.below(9) as u32;
    match c.rng.below(6) {
        0 => walk(c, SubtreePath::from(v.as_slice()), &v, &w, "slice of vectors", depth)?,
        1 => {
            let r: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
            walk(c, SubtreePath::from(r.as_slice()), &v, &w, "slice of slices", depth)?
        }
        2 => {
            let b = SubtreePathBuilder::<Vec<u8>>::owned_from_iter(&v);
            build(c, &b, &v, &w, "owned from iterator", depth)?
        }
        3 => {
            let mut b = SubtreePathBuilder::new();
            for s in &v {
                b.push_segment(s);
            }
            build(c, &b, &v, &w, "new and pushed", depth)?
        }
        4 => {
            let cut = c.rng.usize(v.len() + 1);
            let base = SubtreePath::from(&v[..cut]);
            let mut b = base.derive_owned();
            for s in &v[cut..] {
                b.push_segment(s);
            }
            build(c, &b, &v, &w, "slice and pushed", depth)?
        }
        _ => {
            let b = SubtreePathBuilder::<Vec<u8>>::owned_from_path(SubtreePath::from(v.as_slice()));
            build(c, &b, &v, &w, "owned from path", depth)?
        }
    }
    if v.is_empty() {
        c.count("empty_starts", 1);
        let e = SubtreePath::empty();
        look(c, &e, &v, &w, "empty()")?;
    }
    if v.len() == 3 {
        let a: [Vec<u8>; 3] = [v[0].clone(), v[1].clone(), v[2].clone()];
        let p: SubtreePath<_> = (&a).into();
        look(c, &p, &v, &w, "array")?;
    }
    c.eval(fnv(sh(&v).as_bytes()) ^ fnv(sh(&w).as_bytes()), v.len() > 1);
    if c.wants_sample() {
        c.sample(format!("path {} against {} through {} derivations", sh(&v), sh(&w), depth));
    }
    Ok(())
}

pub fn h01(ctx: &Ctx) {
    ctx.rule("random segment sequences (empty, zero and 255-byte segments) built from slices, arrays, builders and iterators and re-derived through random parents, children, pushes and owned copies; every observation compared with the plain list of segments and with a near-miss path. Non-trivial: at least two segments.");
    ctx.assume("segments are at most 255 bytes, as inserts enforce");
    ctx.assume("distinct paths are told apart up to collisions of the 256-bit storage prefix");
    ctx.cases("paths", ctx.n(150_000, 3_000_000), case);
    ctx.require("views", 10_000);
    ctx.require("empty_starts", 100);
}
