//! Stand-in for the part of `orchard` grovedb-commitment-tree uses.
//!
//! `MerkleHashOrchard::combine` is Blake3 instead of Sinsemilla (both are used by
//! grovedb only as an opaque collision-resistant compression function over
//! canonical Pallas base-field encodings). `from_bytes` rejects non-canonical
//! encodings as the real type does, and `empty_root(32)` equals the constant the
//! repository commits (`EMPTY_SINSEMILLA_ROOT`).

pub const NOTE_COMMITMENT_TREE_DEPTH: usize = 32;

pub use tree::Anchor;

macro_rules! inert {
    ($($t:ident),* $(,)?) => { $( #[derive(Debug, Clone, Copy, Default, PartialEq, Eq)] pub struct $t; )* };
}

inert!(Action, Address, Bundle, Note, Proof);

pub mod builder {
    inert!(Builder, BundleType);
}
pub mod bundle {
    inert!(BatchValidator, Authorized, Flags);
}
pub mod circuit {
    inert!(ProvingKey, VerifyingKey);
}
pub mod keys {
    inert!(
        FullViewingKey,
        IncomingViewingKey,
        OutgoingViewingKey,
        PreparedIncomingViewingKey,
        Scope,
        SpendAuthorizingKey,
        SpendValidatingKey,
        SpendingKey,
    );
}
pub mod memo {
    use crate::zcash_note_encryption::note_bytes::{NoteBytes, NoteBytesData};
    use std::fmt::Debug;

    pub const COMPACT_NOTE_SIZE: usize = 52;

    pub trait MemoSize: Debug + Clone + 'static {
        type NoteCiphertextBytes: NoteBytes + Debug;
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct DashMemo;
    impl MemoSize for DashMemo {
        type NoteCiphertextBytes = NoteBytesData<104>;
    }
}
pub mod note {
    use crate::memo::MemoSize;
    inert!(RandomSeed, ExtractedNoteCommitment, Nullifier, Rho);

    #[derive(Debug, Clone)]
    pub struct TransmittedNoteCiphertext<M: MemoSize> {
        pub epk_bytes: [u8; 32],
        pub enc_ciphertext: M::NoteCiphertextBytes,
        pub out_ciphertext: [u8; 80],
    }
    impl<M: MemoSize> TransmittedNoteCiphertext<M> {
        pub fn from_parts(
            epk_bytes: [u8; 32],
            enc_ciphertext: M::NoteCiphertextBytes,
            out_ciphertext: [u8; 80],
        ) -> Self {
            Self { epk_bytes, enc_ciphertext, out_ciphertext }
        }
    }
}
pub mod note_encryption {
    inert!(CompactAction, OrchardDomain);
}
pub mod primitives {
    pub mod redpallas {
        inert!(SigningKey);
    }
}
pub mod value {
    inert!(NoteValue, ValueCommitment);
}
pub mod zcash_note_encryption {
    pub mod note_bytes {
        pub trait NoteBytes: AsRef<[u8]> + AsMut<[u8]> + Clone + Copy {
            fn from_slice(bytes: &[u8]) -> Option<Self>;
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct NoteBytesData<const N: usize>(pub [u8; N]);
        impl<const N: usize> AsRef<[u8]> for NoteBytesData<N> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const N: usize> AsMut<[u8]> for NoteBytesData<N> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl<const N: usize> NoteBytes for NoteBytesData<N> {
            fn from_slice(bytes: &[u8]) -> Option<Self> {
                bytes.try_into().ok().map(NoteBytesData)
            }
        }
    }
    pub trait Domain {}
    pub trait ShieldedOutput {}
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct EphemeralKeyBytes(pub [u8; 32]);
    pub fn try_compact_note_decryption() {}
    pub fn try_note_decryption() {}
}

pub mod tree {
    use incrementalmerkletree::{Hashable, Level};

    /// Little-endian modulus of the Pallas base field.
    const P: [u8; 32] = [
        0x01, 0x00, 0x00, 0x00, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46, 0x22, 0x00, 0x00,
        0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x40,
    ];

    const EMPTY_ROOT_32: [u8; 32] = [
        0xae, 0x29, 0x35, 0xf1, 0xdf, 0xd8, 0xa2, 0x4a, 0xed, 0x7c, 0x70, 0xdf, 0x7d, 0xe3, 0xa6, 0x68, 0xeb, 0x7a,
        0x49, 0xb1, 0x31, 0x98, 0x80, 0xdd, 0xe2, 0xbb, 0xd9, 0x03, 0x1a, 0xe5, 0xd8, 0x2f,
    ];

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct MerkleHashOrchard([u8; 32]);

    impl MerkleHashOrchard {
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: &[u8; 32]) -> Option<Self> {
            for i in (0..32).rev() {
                if b[i] < P[i] {
                    return Some(Self(*b));
                }
                if b[i] > P[i] {
                    return None;
                }
            }
            None
        }
    }

    impl Hashable for MerkleHashOrchard {
        fn empty_leaf() -> Self {
            let mut b = [0u8; 32];
            b[0] = 2;
            Self(b)
        }
        fn combine(level: Level, a: &Self, b: &Self) -> Self {
            let mut h = blake3::Hasher::new();
            h.update(b"shim-sinsemilla");
            h.update(&[u8::from(level)]);
            h.update(&a.0);
            h.update(&b.0);
            let mut out = *h.finalize().as_bytes();
            out[31] &= 0x3f;
            Self(out)
        }
        fn empty_root(level: Level) -> Self {
            if u8::from(level) == 32 {
                return Self(EMPTY_ROOT_32);
            }
            Level::from(0)
                .iter_to(level)
                .fold(Self::empty_leaf(), |v, lvl| Self::combine(lvl, &v, &v))
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Anchor([u8; 32]);
    impl Anchor {
        pub fn empty_tree() -> Self {
            Anchor(EMPTY_ROOT_32)
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: [u8; 32]) -> Option<Self> {
            MerkleHashOrchard::from_bytes(&b).map(|h| Anchor(h.0))
        }
    }
    impl From<MerkleHashOrchard> for Anchor {
        fn from(h: MerkleHashOrchard) -> Self {
            Anchor(h.0)
        }
    }

    #[derive(Debug, Clone)]
    pub struct MerklePath {
        pub position: u32,
        pub auth_path: [MerkleHashOrchard; 32],
    }
    impl From<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>> for MerklePath {
        fn from(p: incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>) -> Self {
            MerklePath {
                position: u64::from(p.position()) as u32,
                auth_path: p.path_elems().try_into().expect("32 elements"),
            }
        }
    }
    impl MerklePath {
        /// The root this path leads to from `leaf`.
        pub fn root(&self, leaf: MerkleHashOrchard) -> Anchor {
            let mut cur = leaf;
            for (i, s) in self.auth_path.iter().enumerate() {
                cur = if (self.position >> i) & 1 == 0 {
                    MerkleHashOrchard::combine(Level::from(i as u8), &cur, s)
                } else {
                    MerkleHashOrchard::combine(Level::from(i as u8), s, &cur)
                };
            }
            Anchor(cur.0)
        }
    }
}
