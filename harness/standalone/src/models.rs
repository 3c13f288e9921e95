//! The harness's own definitions of the append-only trees' hashes.
pub type H = [u8; 32];

pub fn b3(parts: &[&[u8]]) -> H {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}
pub fn leaf(v: &[u8]) -> H {
    b3(&[&[0], v])
}
pub fn join(l: &H, r: &H) -> H {
    b3(&[&[1], l, r])
}

/// A mountain range in full: every node by position, and its mountains.
#[derive(Clone, Default)]
pub struct Range {
    pub leaves: Vec<Vec<u8>>,
    pub nodes: Vec<H>,
    /// position of each leaf
    pub at: Vec<u64>,
    /// height, hash
    pub peaks: Vec<(u32, H)>,
}
impl Range {
    pub fn of(leaves: &[Vec<u8>]) -> Range {
        let mut r = Range::default();
        for l in leaves {
            r.push(l.clone());
        }
        r
    }
    pub fn push(&mut self, v: Vec<u8>) {
        let mut n = (0, leaf(&v));
        self.leaves.push(v);
        self.at.push(self.nodes.len() as u64);
        self.nodes.push(n.1);
        while let Some(p) = self.peaks.last().copied().filter(|p| p.0 == n.0) {
            self.peaks.pop();
            n = (n.0 + 1, join(&p.1, &n.1));
            self.nodes.push(n.1);
        }
        self.peaks.push(n);
    }
    pub fn size(&self) -> u64 {
        self.nodes.len() as u64
    }
    /// the partial folds of the mountains from the right; the last is the root
    pub fn folds(&self) -> Vec<H> {
        let mut out: Vec<H> = vec![];
        for p in self.peaks.iter().rev() {
            out.push(match out.last() {
                None => p.1,
                Some(f) => join(f, &p.1),
            });
        }
        out
    }
    pub fn root(&self) -> H {
        self.folds().last().copied().unwrap_or_default()
    }
}

/// every node hash of a dense tree, by position
pub fn dense_nodes(values: &[Vec<u8>]) -> Vec<H> {
    let n = values.len();
    let mut out = vec![[0; 32]; n];
    for i in (0..n).rev() {
        let l = out.get(2 * i + 1).copied().unwrap_or_default();
        let r = out.get(2 * i + 2).copied().unwrap_or_default();
        out[i] = b3(&[&b3(&[&values[i]]), &l, &r]);
    }
    out
}
pub fn dense_root(values: &[Vec<u8>]) -> H {
    dense_nodes(values).first().copied().unwrap_or_default()
}

/// a compacted chunk as stored
pub fn blob(values: &[Vec<u8>]) -> Vec<u8> {
    if values.is_empty() {
        return vec![];
    }
    let same = values.iter().all(|v| v.len() == values[0].len());
    let mut b = vec![same as u8];
    if same {
        b.extend((values.len() as u32).to_be_bytes());
        b.extend((values[0].len() as u32).to_be_bytes());
    }
    for v in values {
        if !same {
            b.extend((v.len() as u32).to_be_bytes());
        }
        b.extend(v);
    }
    b
}

/// chunks, buffer and state root of a bulk append tree
pub struct Bulk {
    pub chunks: Range,
    pub buffer: Vec<Vec<u8>>,
}
impl Bulk {
    pub fn of(values: &[Vec<u8>], height: u8) -> Bulk {
        let per = 1usize << height;
        let full = values.len() / per;
        let mut chunks = Range::default();
        for c in 0..full {
            chunks.push(blob(&values[c * per..(c + 1) * per]));
        }
        Bulk { chunks, buffer: values[full * per..].to_vec() }
    }
    pub fn state(&self) -> H {
        b3(&[b"bulk_state", &self.chunks.root(), &dense_root(&self.buffer)])
    }
}
