//! Byte strings as test data: literal, one byte repeated, or a window of one
//! static pattern (so that multi-megabyte values cost nothing to hold, print
//! or hash).
use bytes::Bytes;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::sync::OnceLock;

pub const PATTERN_LEN: usize = 48 << 20;

fn pattern() -> &'static Bytes {
    static P: OnceLock<Bytes> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::with_capacity(PATTERN_LEN);
        let mut x = 0x9e3779b97f4a7c15u64;
        while v.len() < PATTERN_LEN {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.extend_from_slice(&x.to_le_bytes());
        }
        Bytes::from(v)
    })
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Blob {
    Lit(Vec<u8>),
    Pat { seed: u32, len: u32 },
    Rep { byte: u8, len: u32 },
}

#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Repr {
    Hex(String),
    Pat { pattern: u32, len: u32 },
    Rep { repeat: u8, len: u32 },
}

pub fn to_hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn from_hex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

impl Serialize for Blob {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Blob::Lit(v) => Repr::Hex(to_hex(v)).serialize(s),
            Blob::Pat { seed, len } => {
                Repr::Pat { pattern: *seed, len: *len }.serialize(s)
            }
            Blob::Rep { byte, len } => {
                Repr::Rep { repeat: *byte, len: *len }.serialize(s)
            }
        }
    }
}

impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(match Repr::deserialize(d)? {
            Repr::Hex(s) => Blob::Lit(
                from_hex(&s)
                    .ok_or_else(|| serde::de::Error::custom("bad hex"))?,
            ),
            Repr::Pat { pattern, len } => Blob::Pat { seed: pattern, len },
            Repr::Rep { repeat, len } => Blob::Rep { byte: repeat, len },
        })
    }
}

impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Blob::Lit(v) => write!(f, "hex:{}", to_hex(v)),
            Blob::Pat { seed, len } => write!(f, "pat({}, {})", seed, len),
            Blob::Rep { byte, len } => write!(f, "{} x {:02x}", len, byte),
        }
    }
}

impl Blob {
    pub fn bytes(&self) -> Bytes {
        match self {
            Blob::Lit(v) => Bytes::from(v.clone()),
            Blob::Pat { seed, len } => {
                let p = pattern();
                let len = *len as usize;
                assert!(len <= p.len(), "blob longer than the pattern");
                let off = (*seed as usize * 131) % (p.len() - len + 1);
                p.slice(off..off + len)
            }
            Blob::Rep { byte, len } => Bytes::from(vec![*byte; *len as usize]),
        }
    }

    pub fn len(&self) -> usize {
        match self {
            Blob::Lit(v) => v.len(),
            Blob::Pat { len, .. } | Blob::Rep { len, .. } => *len as usize,
        }
    }
}

/// `[u8]` shown briefly.
pub fn brief(b: &[u8]) -> String {
    if b.len() <= 48 {
        to_hex(b)
    } else {
        format!("{}..{} ({} bytes)", to_hex(&b[..24]), to_hex(&b[b.len() - 8..]), b.len())
    }
}
