//! P06: the wire form of proof operations.
use ed::{Decode, Encode};
use grovedb::operations::proof::GroveDBProof;
use grovedb_query::proofs::{Decoder, Node, Op, TreeFeatureType, encode_into};
use std::collections::HashMap;
use std::sync::Mutex;
use vcommon::{Case, Ctx, Res, Rng, fnv, hexs};

pub fn feature(r: &mut Rng) -> TreeFeatureType {
    use TreeFeatureType::*;
    match r.below(7) {
        0 => BasicMerkNode,
        1 => SummedMerkNode(r.edge_i64()),
        2 => BigSummedMerkNode(match r.below(5) {
            0 => i128::MIN,
            1 => i128::MAX,
            2 => -1,
            3 => r.edge_i64() as i128,
            _ => ((r.u64() as i128) << 64) | r.u64() as i128,
        }),
        3 => CountedMerkNode(r.edge_u64()),
        4 => CountedSummedMerkNode(r.edge_u64(), r.edge_i64()),
        5 => ProvableCountedMerkNode(r.edge_u64()),
        _ => ProvableCountedSummedMerkNode(r.edge_u64(), r.edge_i64()),
    }
}
fn key(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 255,
        3 => 254,
        4 => r.usize(256),
        _ => 1 + r.usize(12),
    };
    r.bytes(n)
}
fn value(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) {
        0 => 65535,
        1 => 65536,
        2 => 65537,
        3 => 65534,
        4 => 70_000 + r.usize(200_000),
        5 => 0,
        6..=9 => r.usize(600),
        10 => [255, 256, 257][r.usize(3)],
        _ => r.usize(40),
    };
    if n > 1000 { vec![r.u64() as u8; n] } else { r.bytes(n) }
}
pub fn node(r: &mut Rng) -> Node {
    match r.below(12) {
        0 => Node::Hash(r.arr32()),
        1 => Node::KVHash(r.arr32()),
        2 => Node::KVDigest(key(r), r.arr32()),
        3 => Node::KV(key(r), value(r)),
        4 => Node::KVValueHash(key(r), value(r), r.arr32()),
        5 => Node::KVValueHashFeatureType(key(r), value(r), r.arr32(), feature(r)),
        6 => Node::KVRefValueHash(key(r), value(r), r.arr32()),
        7 => Node::KVCount(key(r), value(r), r.edge_u64()),
        8 => Node::KVHashCount(r.arr32(), r.edge_u64()),
        9 => Node::KVRefValueHashCount(key(r), value(r), r.arr32(), r.edge_u64()),
        10 => Node::KVDigestCount(key(r), r.arr32(), r.edge_u64()),
        _ => Node::KVValueHashFeatureTypeWithChildHash(key(r), value(r), r.arr32(), feature(r), r.arr32()),
    }
}
pub fn op(r: &mut Rng) -> Op {
    match r.below(12) {
        0 => Op::Parent,
        1 => Op::Child,
        2 => Op::ParentInverted,
        3 => Op::ChildInverted,
        4..=7 => Op::Push(node(r)),
        _ => Op::PushInverted(node(r)),
    }
}
pub fn kind(o: &Op) -> &'static str {
    fn n(x: &Node, inv: bool) -> &'static str {
        let t = match x {
            Node::Hash(_) => ["Hash", "inv Hash"],
            Node::KVHash(_) => ["KVHash", "inv KVHash"],
            Node::KVDigest(..) => ["KVDigest", "inv KVDigest"],
            Node::KV(..) => ["KV", "inv KV"],
            Node::KVValueHash(..) => ["KVValueHash", "inv KVValueHash"],
            Node::KVValueHashFeatureType(..) => ["KVValueHashFeatureType", "inv KVValueHashFeatureType"],
            Node::KVRefValueHash(..) => ["KVRefValueHash", "inv KVRefValueHash"],
            Node::KVCount(..) => ["KVCount", "inv KVCount"],
            Node::KVHashCount(..) => ["KVHashCount", "inv KVHashCount"],
            Node::KVRefValueHashCount(..) => ["KVRefValueHashCount", "inv KVRefValueHashCount"],
            Node::KVDigestCount(..) => ["KVDigestCount", "inv KVDigestCount"],
            Node::KVValueHashFeatureTypeWithChildHash(..) => ["KVValueHashFTChild", "inv KVValueHashFTChild"],
        };
        t[inv as usize]
    }
    match o {
        Op::Push(x) => n(x, false),
        Op::PushInverted(x) => n(x, true),
        Op::Parent => "Parent",
        Op::Child => "Child",
        Op::ParentInverted => "ParentInverted",
        Op::ChildInverted => "ChildInverted",
    }
}
pub fn val_len(o: &Op) -> usize {
    match o {
        Op::Push(n) | Op::PushInverted(n) => match n {
            Node::KV(_, v)
            | Node::KVValueHash(_, v, _)
            | Node::KVValueHashFeatureType(_, v, ..)
            | Node::KVRefValueHash(_, v, _)
            | Node::KVCount(_, v, _)
            | Node::KVRefValueHashCount(_, v, ..)
            | Node::KVValueHashFeatureTypeWithChildHash(_, v, ..) => v.len(),
            _ => 0,
        },
        _ => 0,
    }
}
fn all(bytes: &[u8]) -> (Vec<Op>, Option<String>, usize) {
    let mut d = Decoder::new(bytes);
    let mut out = vec![];
    for o in d.by_ref() {
        match o {
            Ok(o) => out.push(o),
            Err(e) => return (out, Some(format!("{e:?}")), d.remaining_bytes()),
        }
    }
    let rest = d.remaining_bytes();
    (out, None, rest)
}

fn roundtrip(c: &mut Case) -> Res {
    let n = match c.rng.below(4) {
        0 => 1,
        1 => 2,
        _ => 1 + c.rng.usize(12),
    };
    let ops: Vec<Op> = (0..n).map(|_| op(&mut c.rng)).collect();
    let mut bytes = vec![];
    encode_into(ops.iter(), &mut bytes);
    let mut sum = 0;
    let mut cuts = vec![0];
    for o in &ops {
        let l = c.must(Encode::encoding_length(o), "length-error")?;
        let one = c.must(Encode::encode(o), "encode-error")?;
        c.same(&one.len(), &l, "encoding-length-differs-from-bytes")?;
        c.same(&o.encoding_length(), &l, "two-encoding-lengths")?;
        let back = c.must(Op::decode(&one[..]), "own-encoding-rejected")?;
        c.ensure(back == *o, "operation-changed", || format!("{o:?}\ncame back as\n{back:?}"))?;
        let mut again = vec![];
        c.must(o.encode_into(&mut again), "encode-error")?;
        c.ensure(again == one, "encode-and-encode-into-differ", || format!("{o:?}"))?;
        c.ensure(bytes[sum..].starts_with(&one), "stream-differs-from-single", || format!("{o:?}"))?;
        sum += l;
        cuts.push(sum);
        c.count(kind(o), 1);
        if val_len(o) > 65535 {
            c.count("large values", 1);
        }
    }
    c.same(&bytes.len(), &sum, "stream-length-differs")?;
    let (got, err, rest) = all(&bytes);
    c.ensure(err.is_none() && rest == 0, "own-stream-rejected", || format!("{err:?}, {rest} bytes left of {} from {ops:?}", bytes.len()))?;
    c.ensure(got == ops, "stream-changed", || format!("{ops:?}\ncame back as\n{got:?}"))?;
    c.eval(fnv(&bytes[..bytes.len().min(2000)]), true);
    // every proper prefix of one operation is rejected; a stream cut between operations is its prefix
    let small = bytes.len() < 1500;
    for _ in 0..if small { 6 } else { 2 } {
        let at = c.rng.usize(bytes.len());
        let (got, err, _) = all(&bytes[..at]);
        let whole = cuts.iter().rposition(|x| *x <= at).unwrap();
        let ok = got[..] == ops[..whole] && err.is_some() == (cuts[whole] != at);
        c.ensure(ok, "cut-stream-misread", || format!("{ops:?} cut at {at} of {} read as {got:?} {err:?}", bytes.len()))?;
        c.count("cut streams", 1);
    }
    // changed bytes: whatever is accepted encodes back to something read the same
    for _ in 0..if small { 8 } else { 1 } {
        let mut m = bytes.clone();
        match c.rng.below(5) {
            0 => {
                let i = c.rng.usize(m.len());
                m[i] ^= 1 << c.rng.below(8);
            }
            1 => {
                let i = cuts[c.rng.usize(ops.len())];
                m[i] = c.rng.below(0x31) as u8;
            }
            2 => {
                let i = c.rng.usize(m.len());
                m.remove(i);
            }
            3 => {
                let i = c.rng.usize(m.len() + 1);
                m.insert(i, c.rng.u64() as u8);
            }
            _ => {
                let i = c.rng.usize(m.len());
                m[i] = *c.rng.pick(&[0, 1, 0x7f, 0x80, 0xff]);
            }
        }
        hostile(c, &m)?;
    }
    if c.wants_sample() {
        c.sample(format!("{} operations in {} bytes: {:?}", n, bytes.len(), ops.iter().map(kind).collect::<Vec<_>>()));
    }
    Ok(())
}
fn hostile(c: &mut Case, m: &[u8]) -> Res {
    let (got, err, _) = all(m);
    // the stream is the operations one after another, each byte read once
    let mut rd = m;
    let mut want = vec![];
    while !rd.is_empty() {
        match <Op as Decode>::decode(&mut rd) {
            Ok(o) => want.push(o),
            Err(_) => break,
        }
    }
    c.ensure(got == want, "bytes-read-twice", || format!("{} is {want:?} read in sequence, but the stream decoder gave {got:?}", hexs(m)))?;
    c.count(if err.is_some() { "changed bytes rejected" } else { "changed bytes accepted" }, 1);
    if got.is_empty() {
        return Ok(());
    }
    let mut again = vec![];
    encode_into(got.iter(), &mut again);
    let (back, e2, r2) = all(&again);
    c.ensure(e2.is_none() && r2 == 0 && back == got, "accepted-bytes-do-not-encode-back", || {
        format!("{} gave {got:?}; encoded again it reads {back:?} {e2:?}", hexs(m))
    })?;
    if err.is_none() && again == m {
        c.count("accepted bytes are canonical", 1);
    }
    Ok(())
}
fn noise(c: &mut Case) -> Res {
    // an opcode and plausible lengths, then anything
    let mut b = vec![c.rng.below(0x32) as u8];
    let k = c.rng.usize(6);
    b.push(k as u8);
    b.extend(c.rng.bytes(k));
    if c.rng.bool() {
        b.extend([0, c.rng.below(8) as u8]);
    } else {
        b.extend([0, 0, 0, c.rng.below(8) as u8]);
    }
    let n = c.rng.usize(120);
    b.extend(c.rng.bytes(n));
    c.eval(fnv(&b), true);
    hostile(c, &b)
}
fn features(c: &mut Case) -> Res {
    let f = feature(&mut c.rng);
    let b = c.must(f.encode(), "feature-encode")?;
    c.same(&b.len(), &c_len(&f), "feature-length")?;
    let mut rd = &b[..];
    let g = c.must(TreeFeatureType::decode(&mut rd), "feature-rejected")?;
    c.ensure(g == f && rd.is_empty(), "feature-changed", || format!("{f:?} came back as {g:?}, {} bytes left", rd.len()))?;
    for i in 0..b.len() {
        c.ensure(TreeFeatureType::decode(&b[..i]).is_err(), "cut-feature-accepted", || format!("{f:?} at {i}"))?;
    }
    let mut m = b.clone();
    m[0] = c.rng.u64() as u8;
    let n = c.rng.usize(30);
    m.extend(c.rng.bytes(n));
    if let Ok(g) = TreeFeatureType::decode(&m[..]) {
        let b2 = c.must(g.encode(), "feature-encode")?;
        let g2 = c.must(TreeFeatureType::decode(&b2[..]), "feature-rejected")?;
        c.same(&g2, &g, "feature-changed")?;
    }
    c.eval(fnv(&b), true);
    c.count("feature types", 1);
    Ok(())
}
fn c_len(f: &TreeFeatureType) -> usize {
    f.encoding_length().unwrap_or(usize::MAX)
}

pub fn layer(r: &mut Rng, depth: usize, kinds: bool) -> grovedb::operations::proof::LayerProof {
    use grovedb::operations::proof::{LayerProof, ProofBytes};
    let n = r.usize(60);
    let b = r.bytes(n);
    let merk_proof = match if kinds { r.below(5) } else { 0 } {
        0 => ProofBytes::Merk(b),
        1 => ProofBytes::MMR(b),
        2 => ProofBytes::BulkAppendTree(b),
        3 => ProofBytes::DenseTree(b),
        _ => ProofBytes::CommitmentTree(b),
    };
    let n = if depth == 0 { 0 } else { r.usize(4) };
    let lower_layers = (0..n).map(|_| (key(r), layer(r, depth - 1, kinds))).collect();
    LayerProof { merk_proof, lower_layers }
}
fn old_layer(r: &mut Rng, depth: usize) -> grovedb::operations::proof::MerkOnlyLayerProof {
    let n = r.usize(60);
    let merk_proof = r.bytes(n);
    let n = if depth == 0 { 0 } else { r.usize(4) };
    let lower_layers = (0..n).map(|_| (key(r), old_layer(r, depth - 1))).collect();
    grovedb::operations::proof::MerkOnlyLayerProof { merk_proof, lower_layers }
}
fn show(p: &GroveDBProof) -> String {
    use grovedb::operations::proof::{LayerProof, MerkOnlyLayerProof, ProofBytes};
    fn l(p: &LayerProof, o: &mut String) {
        let (t, b) = match &p.merk_proof {
            ProofBytes::Merk(b) => ("merk", b),
            ProofBytes::MMR(b) => ("mmr", b),
            ProofBytes::BulkAppendTree(b) => ("bulk", b),
            ProofBytes::DenseTree(b) => ("dense", b),
            ProofBytes::CommitmentTree(b) => ("ct", b),
        };
        *o += &format!("{t}:{}[", vcommon::hex(b));
        for (k, x) in &p.lower_layers {
            *o += &vcommon::hex(k);
            *o += "=";
            l(x, o);
        }
        *o += "]";
    }
    fn m(p: &MerkOnlyLayerProof, o: &mut String) {
        *o += &format!("{}[", vcommon::hex(&p.merk_proof));
        for (k, x) in &p.lower_layers {
            *o += &vcommon::hex(k);
            *o += "=";
            m(x, o);
        }
        *o += "]";
    }
    let mut o = String::new();
    match p {
        GroveDBProof::V0(p) => {
            o += &format!("v0 {} ", p.prove_options.decrease_limit_on_empty_sub_query_result);
            m(&p.root_layer, &mut o)
        }
        GroveDBProof::V1(p) => {
            o += "v1 ";
            l(&p.root_layer, &mut o)
        }
    }
    o
}
pub fn pack(p: &GroveDBProof) -> Vec<u8> {
    bincode::encode_to_vec(p, bincode::config::standard().with_big_endian()).unwrap_or_default()
}
pub fn unpack(b: &[u8]) -> Result<(GroveDBProof, usize), String> {
    let cfg = bincode::config::standard().with_big_endian().with_limit::<{ 256 * 1024 * 1024 }>();
    bincode::decode_from_slice(b, cfg).map_err(|e| format!("{e:?}"))
}
fn envelope(c: &mut Case) -> Res {
    use grovedb::operations::proof::{GroveDBProofV0, GroveDBProofV1, ProveOptions};
    let depth = match c.rng.below(12) {
        0 => 128,
        1 => 100,
        _ => c.rng.usize(5),
    };
    let p = if c.rng.chance(2, 3) {
        let mut root_layer = layer(&mut c.rng, depth.min(4), true);
        for _ in 4..depth {
            let k = key(&mut c.rng);
            let mut up = layer(&mut c.rng, 0, true);
            up.lower_layers.insert(k, root_layer);
            root_layer = up;
        }
        if c.rng.chance(1, 20) {
            while root_layer.lower_layers.len() < 128 {
                let k = key(&mut c.rng);
                root_layer.lower_layers.insert(k, layer(&mut c.rng, 0, true));
            }
        }
        GroveDBProof::V1(GroveDBProofV1 { root_layer })
    } else {
        let mut root_layer = old_layer(&mut c.rng, depth.min(4));
        for _ in 4..depth {
            let k = key(&mut c.rng);
            let mut up = old_layer(&mut c.rng, 0);
            up.lower_layers.insert(k, root_layer);
            root_layer = up;
        }
        let prove_options = ProveOptions { decrease_limit_on_empty_sub_query_result: c.rng.bool() };
        GroveDBProof::V0(GroveDBProofV0 { root_layer, prove_options })
    };
    let b = pack(&p);
    let want = show(&p);
    let (got, used) = c.must(unpack(&b), "own-envelope-rejected")?;
    c.same(&used, &b.len(), "envelope-length")?;
    c.ensure(show(&got) == want, "envelope-changed", || format!("{want}\ncame back as\n{}", show(&got)))?;
    let cfg = bincode::config::standard().with_big_endian().with_limit::<{ 256 * 1024 * 1024 }>();
    let lent = bincode::borrow_decode_from_slice::<GroveDBProof, _>(&b, cfg).map_err(|e| format!("{e:?}"));
    let (lent, used) = c.must(lent, "own-envelope-rejected-borrowed")?;
    c.ensure(used == b.len() && show(&lent) == want, "envelope-changed", || format!("{want}\nborrowed as\n{}", show(&lent)))?;
    c.eval(fnv(&b[..b.len().min(4000)]), true);
    c.count(if depth > 90 { "deep envelopes" } else { "envelopes" }, 1);
    for _ in 0..6 {
        let mut m = b.clone();
        let i = c.rng.usize(m.len());
        match c.rng.below(3) {
            0 => m[i] ^= 1 << c.rng.below(8),
            1 => {
                m.remove(i);
            }
            _ => m.truncate(i),
        }
        let lent = bincode::borrow_decode_from_slice::<GroveDBProof, _>(&m, cfg).ok().map(|(p, n)| (show(&p), n));
        let kept = unpack(&m).ok();
        c.ensure(lent == kept.as_ref().map(|(p, n)| (show(p), *n)), "borrowed-envelope-differs", || vcommon::hex(&m))?;
        if let Some((p, _)) = kept {
            let s = show(&p);
            let (p2, _) = c.must(unpack(&pack(&p)), "accepted-envelope-does-not-encode-back")?;
            c.ensure(show(&p2) == s, "envelope-changed", || format!("{s}\ncame back as\n{}", show(&p2)))?;
        }
    }
    Ok(())
}

/// longer spellings of an operation, then more operations
fn longer(c: &mut Case) -> Res {
    let k = key(&mut c.rng);
    let n = c.rng.usize(9);
    let mut v = c.rng.bytes(n);
    if c.rng.bool() {
        v.iter_mut().for_each(|b| *b = 0x10 + (*b & 3));
    }
    let mut m = vec![];
    if c.rng.bool() {
        // a short value in the form for long ones
        let big = Node::KV(k.clone(), vec![0; 65536]);
        let o = if c.rng.bool() { Op::Push(big) } else { Op::PushInverted(big) };
        let b = c.must(Encode::encode(&o), "encode-error")?;
        m.extend(&b[..2 + k.len()]);
        m.extend((v.len() as u32).to_be_bytes());
        m.extend(&v);
    } else {
        let f = TreeFeatureType::CountedMerkNode(0);
        let o = Op::Push(Node::KVValueHashFeatureType(k, v, c.rng.arr32(), f));
        let b = c.must(Encode::encode(&o), "encode-error")?;
        m.extend(&b[..b.len() - 1]);
        m.extend([0x80, 0]);
    }
    let at = m.len();
    for _ in 0..c.rng.usize(4) {
        let o = op(&mut c.rng);
        m.extend(c.must(Encode::encode(&o), "encode-error")?);
    }
    let mut rd = &m[..];
    if <Op as Decode>::decode(&mut rd).is_ok() {
        c.same(&(m.len() - rd.len()), &at, "longer-spelling-misread")?;
        c.count("longer spellings accepted", 1);
    } else {
        c.count("longer spellings rejected", 1);
    }
    c.eval(fnv(&m[..m.len().min(2000)]), true);
    hostile(c, &m)
}

/// proofs at and just past the bounds on nesting and on children
fn bounds(c: &mut Case) -> Res {
    use grovedb::operations::proof::{GroveDBProofV0, GroveDBProofV1, ProveOptions};
    let old = c.rng.bool();
    // layers below the root, children of one of them
    let (deep, wide) = match c.rng.below(4) {
        0 => (126 + c.rng.usize(6), 0),
        1 => (c.rng.usize(6), 126 + c.rng.usize(6)),
        2 => (126 + c.rng.usize(4), 126 + c.rng.usize(4)),
        _ => (c.rng.range(129, 2000) as usize, c.rng.usize(4)),
    };
    let at = c.rng.usize(deep.max(1));
    let p = if old {
        let mut l = old_layer(&mut c.rng, 0);
        for i in 0..=deep {
            while i == at && l.lower_layers.len() < wide {
                let k = key(&mut c.rng);
                let more = old_layer(&mut c.rng, 0);
                // not in place of the layers below
                l.lower_layers.entry(k).or_insert(more);
            }
            if i < deep {
                let mut up = old_layer(&mut c.rng, 0);
                up.lower_layers.insert(key(&mut c.rng), l);
                l = up;
            }
        }
        let prove_options = ProveOptions { decrease_limit_on_empty_sub_query_result: c.rng.bool() };
        GroveDBProof::V0(GroveDBProofV0 { root_layer: l, prove_options })
    } else {
        let mut l = layer(&mut c.rng, 0, true);
        for i in 0..=deep {
            while i == at && l.lower_layers.len() < wide {
                let k = key(&mut c.rng);
                let more = layer(&mut c.rng, 0, true);
                l.lower_layers.entry(k).or_insert(more);
            }
            if i < deep {
                let mut up = layer(&mut c.rng, 0, true);
                up.lower_layers.insert(key(&mut c.rng), l);
                l = up;
            }
        }
        GroveDBProof::V1(GroveDBProofV1 { root_layer: l })
    };
    let b = pack(&p);
    let cfg = bincode::config::standard().with_big_endian();
    let kept = bincode::decode_from_slice::<GroveDBProof, _>(&b, cfg).is_ok();
    let lent = bincode::borrow_decode_from_slice::<GroveDBProof, _>(&b, cfg).is_ok();
    let max = grovedb::operations::proof::MAX_PROOF_DEPTH;
    // children of the lowest layer lie one deeper
    let fits = deep + (wide > 0 && at == 0) as usize <= max && wide <= max;
    c.ensure(kept == lent, "borrowed-envelope-differs", || format!("v{} {deep} deep {wide} wide: {kept} {lent}", !old as u8))?;
    c.ensure(!fits || kept, "own-envelope-rejected", || format!("v{} {deep} deep {wide} wide", !old as u8))?;
    c.ensure(fits || !kept, "envelope-past-bounds-accepted", || format!("v{} {deep} deep {wide} wide", !old as u8))?;
    c.count(if fits { "envelopes at the bounds" } else { "envelopes past the bounds" }, 1);
    c.eval(fnv(&[old as u8, deep as u8, (deep >> 8) as u8, wide as u8, at as u8]), true);
    Ok(())
}

pub fn p06(ctx: &Ctx) {
    ctx.rule("a stream of operations");
    ctx.level("property-based stress with byte mutation");
    ctx.assume("values longer than 64 MiB and keys longer than 255 bytes cannot be encoded");
    // one table for the whole run: no two operations may share their bytes
    let seen: Mutex<HashMap<Vec<u8>, Op>> = Mutex::new(HashMap::new());
    ctx.cases("streams", ctx.n(12_000, 600_000), roundtrip);
    ctx.cases("noise", ctx.n(60_000, 4_000_000), noise);
    ctx.cases("longer", ctx.n(8_000, 400_000), longer);
    ctx.cases("features", ctx.n(40_000, 2_000_000), features);
    ctx.cases("envelopes", ctx.n(3_000, 150_000), envelope);
    ctx.cases("bounds", ctx.n(400, 20_000), bounds);
    ctx.cases("distinct", ctx.n(60, 600), |c| {
        // neighbours in every field: tiny alphabets make equal encodings likely if a field is lost
        for _ in 0..400 {
            let z = |r: &mut Rng| if r.bool() { [0u8; 32] } else { [1u8; 32] };
            let k = |r: &mut Rng| vec![0u8; r.usize(3)];
            let n64 = |r: &mut Rng| r.below(3);
            let r = &mut c.rng;
            let f = match r.below(7) {
                0 => TreeFeatureType::BasicMerkNode,
                1 => TreeFeatureType::SummedMerkNode(n64(r) as i64),
                2 => TreeFeatureType::BigSummedMerkNode(n64(r) as i128),
                3 => TreeFeatureType::CountedMerkNode(n64(r)),
                4 => TreeFeatureType::CountedSummedMerkNode(n64(r), n64(r) as i64),
                5 => TreeFeatureType::ProvableCountedMerkNode(n64(r)),
                _ => TreeFeatureType::ProvableCountedSummedMerkNode(n64(r), n64(r) as i64),
            };
            let n = match r.below(12) {
                0 => Node::Hash(z(r)),
                1 => Node::KVHash(z(r)),
                2 => Node::KVDigest(k(r), z(r)),
                3 => Node::KV(k(r), k(r)),
                4 => Node::KVValueHash(k(r), k(r), z(r)),
                5 => Node::KVValueHashFeatureType(k(r), k(r), z(r), f),
                6 => Node::KVRefValueHash(k(r), k(r), z(r)),
                7 => Node::KVCount(k(r), k(r), n64(r)),
                8 => Node::KVHashCount(z(r), n64(r)),
                9 => Node::KVRefValueHashCount(k(r), k(r), z(r), n64(r)),
                10 => Node::KVDigestCount(k(r), z(r), n64(r)),
                _ => Node::KVValueHashFeatureTypeWithChildHash(k(r), k(r), z(r), f, z(r)),
            };
            let o = if r.bool() { Op::Push(n) } else { Op::PushInverted(n) };
            let b = c.must(Encode::encode(&o), "encode-error")?;
            c.eval(fnv(&b), true);
            let mut s = seen.lock().unwrap();
            if let Some(p) = s.get(&b) {
                let p = p.clone();
                drop(s);
                c.ensure(p == o, "two-operations-one-encoding", || format!("{p:?}\nand\n{o:?}\nare both {}", hexs(&b)))?;
            } else {
                s.insert(b, o);
            }
        }
        Ok(())
    });
    ctx.extra("distinct encodings held against each other", seen.lock().unwrap().len().to_string());
    for k in ["KVValueHashFTChild", "inv KVValueHashFTChild", "inv Hash", "KVRefValueHashCount", "inv KVDigestCount", "ParentInverted"] {
        ctx.require(k, 100);
    }
    ctx.require("large values", 100);
    ctx.require("deep envelopes", 50);
    ctx.require("envelopes at the bounds", 50);
    ctx.require("envelopes past the bounds", 50);
    ctx.require("changed bytes accepted", 500);
    ctx.require("changed bytes rejected", 500);
}
