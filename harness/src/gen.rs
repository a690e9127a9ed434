//! Generators. Every random choice is proptest's. Integer and string literals
//! found in the library's sources bias the numbers and strings: nothing is
//! judged by them.
use crate::blob::Blob;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Mined {
    pub numbers: Vec<u64>,
    /// Literals that were not there when the harness was written.
    pub fresh: Vec<u64>,
    pub strings: Vec<String>,
}

fn scan(src: &str, nums: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
    let mut text = String::new();
    for line in src.lines() {
        // unit tests are at the end of each file
        if line.trim_start().starts_with("mod tests") {
            break;
        }
        if line.trim_start().starts_with("//") {
            continue;
        }
        text.push_str(line);
        text.push('\n');
    }
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                if i < b.len() {
                    s.push(b[i]);
                }
                i += 1;
            }
            if s.len() <= 80 {
                strs.insert(s);
            }
            i += 1;
            continue;
        }
        let prev_ident =
            i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
        if b[i].is_ascii_digit() && !prev_ident {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_')
            {
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            for suffix in
                ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "f32"]
            {
                if let Some(x) = s.strip_suffix(suffix) {
                    if !x.is_empty() && x != "0x" {
                        s = x.to_string();
                    }
                }
            }
            let v = if let Some(x) = s.strip_prefix("0x") {
                u64::from_str_radix(x, 16)
            } else if let Some(x) = s.strip_prefix("0b") {
                u64::from_str_radix(x, 2)
            } else {
                s.parse()
            };
            if let Ok(v) = v {
                nums.insert(v);
            }
            continue;
        }
        i += 1;
    }
}

pub fn mined() -> &'static Mined {
    static S: OnceLock<Mined> = OnceLock::new();
    S.get_or_init(|| {
        let mut nums = BTreeSet::new();
        let mut strs = BTreeSet::new();
        fn walk(
            d: &std::path::Path,
            n: &mut BTreeSet<u64>,
            s: &mut BTreeSet<String>,
        ) {
            let mut es: Vec<_> = match std::fs::read_dir(d) {
                Ok(es) => es.flatten().map(|e| e.path()).collect(),
                Err(_) => return,
            };
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, n, s);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    if let Ok(t) = std::fs::read_to_string(&p) {
                        scan(&t, n, s);
                    }
                }
            }
        }
        walk(
            std::path::Path::new("/repo/binate/src"),
            &mut nums,
            &mut strs,
        );
        let known: BTreeSet<u64> = include_str!("../baseline_literals.txt")
            .lines()
            .filter_map(|l| l.trim().parse().ok())
            .collect();
        let fresh = nums.iter().copied().filter(|n| !known.contains(n)).collect();
        Mined {
            numbers: nums.into_iter().collect(),
            fresh,
            strings: strs.into_iter().collect(),
        }
    })
}

fn near(pool: &'static [u64], max: u64) -> BoxedStrategy<u64> {
    let pool: Vec<u64> = pool
        .iter()
        .flat_map(|&n| {
            [n.saturating_sub(1), n, n.saturating_add(1)]
        })
        .filter(|&n| n <= max)
        .collect();
    if pool.is_empty() {
        (0..=max).boxed()
    } else {
        select(pool).boxed()
    }
}

fn mined_numbers(max: u64) -> BoxedStrategy<u64> {
    let m = mined();
    let all = near(&m.numbers, max);
    if m.fresh.is_empty() {
        all
    } else {
        prop_oneof![1 => all, 3 => near(&m.fresh, max)].boxed()
    }
}

/// Log-uniform in 0..=max.
pub fn log_u64(max: u64) -> BoxedStrategy<u64> {
    let bits = 64 - max.leading_zeros();
    (0..=bits, any::<u64>())
        .prop_map(move |(b, x)| {
            if b == 0 {
                0
            } else {
                let top = 1u128 << b;
                let lo = (1u128 << (b - 1)) as u64;
                let hi = ((top - 1) as u64).min(max);
                lo + x % (hi - lo + 1)
            }
        })
        .boxed()
}

/// A number in lo..=max: uniform, log-uniform, near powers of two, near the
/// sources' literals, and both ends.
pub fn num(lo: u64, max: u64) -> BoxedStrategy<u64> {
    let fresh = !mined().fresh.is_empty();
    prop_oneof![
        3 => lo..=max,
        3 => log_u64(max),
        2 => (0u32..64, 0u64..3).prop_map(move |(b, d)| (1u64 << b)
            .wrapping_sub(1).wrapping_add(d)),
        1 => Just(lo),
        1 => Just(max),
        1 => (0u64..4).prop_map(move |d| max.saturating_sub(d)),
        if fresh { 4 } else { 2 } => mined_numbers(max),
    ]
    .prop_map(move |v| v.clamp(lo, max))
    .boxed()
}

pub fn num32(lo: u32, max: u32) -> BoxedStrategy<u32> {
    num(lo as u64, max as u64).prop_map(|v| v as u32).boxed()
}

pub fn num16() -> BoxedStrategy<u16> {
    num(0, 0xffff).prop_map(|v| v as u16).boxed()
}

/// A length in 0..=max, mostly small, with the boundaries that matter for
/// 8-, 16- and 24-bit length fields; anything above 70,000 is rare.
pub fn size(max: usize) -> BoxedStrategy<usize> {
    let edges: Vec<usize> = [
        0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127,
        128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095,
        4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 65792,
    ]
    .iter()
    .copied()
    .filter(|&e| e <= max)
    .collect();
    let big = max.min(70_000);
    let fresh = !mined().fresh.is_empty();
    let lits = near(&mined().numbers, big as u64);
    let new = near(&mined().fresh, big as u64);
    prop_oneof![
        400 => 0..=max.min(16),
        300 => log_u64(big as u64).prop_map(|v| v as usize),
        150 => select(edges),
        50 => lits.prop_map(|v| v as usize),
        if fresh { 200 } else { 1 } => new.prop_map(|v| v as usize),
        2 => log_u64(max as u64).prop_map(|v| v as usize),
        1 => Just(max).prop_map(|v| v),
    ]
    .boxed()
}

pub fn byte() -> BoxedStrategy<u8> {
    prop_oneof![
        4 => any::<u8>(),
        1 => select(vec![0u8, 1, 0x7f, 0x80, 0xff, b'a', b' ']),
    ]
    .boxed()
}

pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    vec(byte(), 0..=max).boxed()
}

/// A byte string of up to `max` bytes.
pub fn blob(max: usize) -> BoxedStrategy<Blob> {
    prop_oneof![
        4 => vec(byte(), 0..=max.min(12)).prop_map(Blob::Lit),
        3 => (0u32..4096, size(max))
            .prop_map(|(seed, len)| Blob::Pat { seed, len: len as u32 }),
        1 => (byte(), size(max))
            .prop_map(|(byte, len)| Blob::Rep { byte, len: len as u32 }),
    ]
    .boxed()
}

pub fn opt_blob(max: usize) -> BoxedStrategy<Option<Blob>> {
    prop_oneof![
        3 => Just(None),
        1 => Just(Some(Blob::Lit(Vec::new()))),
        8 => blob(max).prop_map(Some),
    ]
    .boxed()
}

/// Payloads for frames: metadata fits its 24-bit length.
pub fn pay() -> BoxedStrategy<Pay> {
    (opt_blob(MAX_META), opt_blob(1 << 24), 0u8..50).prop_map(related).boxed()
}

/// Parts that have something to do with each other, now and then.
fn related((meta, data, how): (Option<Blob>, Option<Blob>, u8)) -> Pay {
    let short = |b: &Blob| b.len() <= 4096;
    let data = match (how, &meta, data) {
        // the same in both
        (0, Some(_), _) => meta.clone(),
        // one ends with, starts with or contains the other
        (1, Some(m), _) if short(m) => {
            let b = m.bytes();
            Some(Blob::Lit(b[b.len() / 3..].to_vec()))
        }
        (2, Some(m), Some(d)) if short(m) && short(&d) => {
            Some(Blob::Lit([m.bytes(), d.bytes()].concat()))
        }
        (3, Some(m), Some(d)) if short(m) && short(&d) => {
            Some(Blob::Lit([d.bytes(), m.bytes()].concat()))
        }
        // the length of one before the other
        (4, Some(m), Some(d)) if short(&d) => {
            let n = m.len() as u32;
            Some(Blob::Lit([&n.to_be_bytes()[1..], &d.bytes()[..]].concat()))
        }
        (5, _, Some(d)) if short(&d) => {
            let n = d.len() as u32;
            Some(Blob::Lit([&n.to_be_bytes()[1..], &d.bytes()[..]].concat()))
        }
        (_, _, data) => data,
    };
    Pay { meta, data }
}

/// Payloads of moderate size, for checks that handle many at a time.
pub fn small_pay(max: usize) -> BoxedStrategy<Pay> {
    (opt_blob(max), opt_blob(max), 0u8..50).prop_map(related).boxed()
}

pub fn sid() -> BoxedStrategy<u32> {
    num32(0, U31)
}

pub fn error_code() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => select(CONNECTION_CODES.to_vec()),
        3 => select(STREAM_CODES.to_vec()),
        3 => num32(0x301, 0xffff_fffe),
        1 => num32(0, u32::MAX),
    ]
    .boxed()
}

/// A code and a stream id that do not contradict each other.
fn error_pair() -> BoxedStrategy<(u32, u32)> {
    (error_code(), num32(0, U31), any::<bool>())
        .prop_map(|(code, s, zero)| {
            let s = if CONNECTION_CODES.contains(&code) {
                0
            } else if STREAM_CODES.contains(&code) {
                s.max(1)
            } else if zero {
                0
            } else {
                s
            };
            (s, code)
        })
        .boxed()
}

/// An ASCII string of `max` bytes or fewer.
pub fn ascii(max: usize) -> BoxedStrategy<String> {
    let any_len = (size(max), any::<u32>()).prop_map(|(n, seed)| {
        let mut x = seed | 1;
        (0..n)
            .map(|_| {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                (0x20 + (x >> 16) % 0x5f) as u8 as char
            })
            .collect::<String>()
    });
    let strs: Vec<String> = mined()
        .strings
        .iter()
        .filter(|s| s.len() <= max && s.is_ascii())
        .cloned()
        .collect();
    if strs.is_empty() {
        any_len.boxed()
    } else {
        prop_oneof![3 => any_len, 1 => select(strs)].boxed()
    }
}

fn opt<S: Strategy + 'static>(
    none: u32,
    s: S,
) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone,
{
    prop_oneof![none => Just(None), 3 => s.prop_map(Some)].boxed()
}

pub fn version() -> BoxedStrategy<(u16, u16)> {
    (num16(), num16()).boxed()
}

/// A frame with in-range arguments.
pub fn frame() -> BoxedStrategy<Fr> {
    frame_of(pay(), 1 << 24)
}

/// In-range arguments, moderate sizes.
pub fn small_frame(max: usize) -> BoxedStrategy<Fr> {
    frame_of(small_pay(max), max)
}

fn frame_of(p: BoxedStrategy<Pay>, max: usize) -> BoxedStrategy<Fr> {
    proptest::strategy::Union::new_weighted(kinds(p, max)).boxed()
}

/// Two frames of one kind, moderate sizes.
pub fn frame_pair(max: usize) -> BoxedStrategy<(Fr, Fr)> {
    let pairs = kinds(small_pay(max), max)
        .into_iter()
        .map(|(w, s)| (w, (s.clone(), s).boxed()))
        .collect();
    proptest::strategy::Union::new_weighted(pairs).boxed()
}

/// Every kind of frame, with its weight.
fn kinds(p: BoxedStrategy<Pay>, max: usize) -> Vec<(u32, BoxedStrategy<Fr>)> {
    let tok = 65_535.min(max);
    let setup = (
        (any::<bool>(), any::<bool>(), opt(3, blob(tok)), opt(1, version())),
        (opt(1, num32(1, U31)), opt(1, num32(1, U31))),
        (opt(1, ascii(255)), opt(1, ascii(255))),
        p.clone(),
    )
        .prop_map(|((lease, resume, token, version), (interval, timeout), (meta_mime, data_mime), pay)| {
            Fr::Setup {
                lease,
                resume,
                token,
                version,
                interval,
                timeout,
                meta_mime,
                data_mime,
                pay,
            }
        });
    vec![
        (4, setup.boxed()),
        (2, (error_pair(), opt_blob(max))
            .prop_map(|((sid, code), data)| Fr::Error { sid, code, data }).boxed()),
        (2, (num32(0, U31), num32(0, U31), opt_blob(max))
            .prop_map(|(ttl, n, meta)| Fr::Lease { ttl, n, meta }).boxed()),
        (2, (any::<bool>(), num(0, U63), opt_blob(max))
            .prop_map(|(respond, pos, data)| Fr::Keepalive { respond, pos, data }).boxed()),
        (2, (sid(), any::<bool>(), p.clone())
            .prop_map(|(sid, follows, pay)| Fr::RequestResponse { sid, follows, pay }).boxed()),
        (2, (sid(), any::<bool>(), p.clone())
            .prop_map(|(sid, follows, pay)| Fr::RequestFnf { sid, follows, pay }).boxed()),
        (2, (sid(), any::<bool>(), num32(1, U31), p.clone())
            .prop_map(|(sid, follows, n, pay)| Fr::RequestStream { sid, follows, n, pay }).boxed()),
        (2, (sid(), any::<bool>(), any::<bool>(), num32(1, U31), p.clone())
            .prop_map(|(sid, follows, complete, n, pay)| {
                Fr::RequestChannel { sid, follows, complete, n, pay }
            }).boxed()),
        (1, (sid(), num32(1, U31)).prop_map(|(sid, n)| Fr::RequestN { sid, n }).boxed()),
        (1, sid().prop_map(|sid| Fr::Cancel { sid }).boxed()),
        (3, (sid(), 0u8..32, p.clone())
            .prop_map(|(sid, flags, pay)| Fr::Payload { sid, flags, pay }).boxed()),
        (1, blob(max).prop_map(|meta| Fr::MetadataPush { meta }).boxed()),
        (2, (version(), blob(tok), num(0, U63), num(0, U63)).prop_map(
            |(version, token, server_pos, client_pos)| Fr::Resume {
                version,
                token,
                server_pos,
                client_pos
            }
        ).boxed()),
        (1, num(0, U63).prop_map(|pos| Fr::ResumeOk { pos }).boxed()),
    ]
}

/// Arbitrary bytes for the decoder.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Wire {
    pub base: Base,
    pub muts: Vec<Mut>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Base {
    Raw(Blob),
    Header { sid: u32, kind: u8, flags: u16, body: Blob },
    Valid(Fr),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mut {
    /// Keep this many bytes (modulo the length).
    Keep(u32),
    /// Drop this many bytes from the end.
    DropEnd(u8),
    FlipBit(u32, u8),
    SetByte(u32, u8),
    SetSid(u32),
    SetKind(u8),
    SetFlags(u16),
    Extend(Blob),
    Remove(u32, u8),
    Insert(u32, Blob),
    /// Exchange two bytes.
    Swap(u32, u8),
}

impl Wire {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = match &self.base {
            Base::Raw(b) => b.bytes().to_vec(),
            Base::Header { sid, kind, flags, body } => {
                let mut o = sid.to_be_bytes().to_vec();
                let word = (*kind as u16) << 10 | (flags & 0x3ff);
                o.extend_from_slice(&word.to_be_bytes());
                o.extend_from_slice(&body.bytes());
                o
            }
            Base::Valid(f) => f.wire(false),
        };
        for m in &self.muts {
            match m {
                Mut::Keep(n) => {
                    let n = *n as usize % (b.len() + 1);
                    b.truncate(n)
                }
                Mut::DropEnd(n) => {
                    let n = b.len().saturating_sub(*n as usize);
                    b.truncate(n)
                }
                Mut::FlipBit(p, bit) if !b.is_empty() => {
                    let p = *p as usize % b.len();
                    b[p] ^= 1 << (bit & 7);
                }
                Mut::SetByte(p, v) if !b.is_empty() => {
                    let p = *p as usize % b.len();
                    b[p] = *v;
                }
                Mut::SetSid(v) if b.len() >= 4 => {
                    b[..4].copy_from_slice(&v.to_be_bytes());
                }
                Mut::SetKind(k) if b.len() >= 6 => {
                    b[4] = k << 2 | b[4] & 3;
                }
                Mut::SetFlags(f) if b.len() >= 6 => {
                    b[4] = b[4] & !3 | (f >> 8) as u8 & 3;
                    b[5] = *f as u8;
                }
                Mut::Extend(x) => b.extend_from_slice(&x.bytes()),
                Mut::Swap(p, n) if !b.is_empty() => {
                    let p = *p as usize % b.len();
                    let q = (p + *n as usize) % b.len();
                    b.swap(p, q);
                }
                Mut::Remove(p, n) if !b.is_empty() => {
                    let p = *p as usize % b.len();
                    let e = (p + *n as usize).min(b.len());
                    b.drain(p..e);
                }
                Mut::Insert(p, x) => {
                    let p = *p as usize % (b.len() + 1);
                    let tail = b.split_off(p);
                    b.extend_from_slice(&x.bytes());
                    b.extend_from_slice(&tail);
                }
                _ => (),
            }
        }
        b
    }
}

pub fn position() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..40, 1 => any::<u32>()].boxed()
}

pub fn kind_code() -> BoxedStrategy<u8> {
    prop_oneof![12 => 1u8..15, 2 => 0u8..64, 1 => Just(0x3fu8)].boxed()
}

fn a_mut() -> BoxedStrategy<Mut> {
    prop_oneof![
        2 => position().prop_map(Mut::Keep),
        2 => any::<u8>().prop_map(|n| Mut::DropEnd(n % 24)),
        2 => (position(), 0u8..8).prop_map(|(p, b)| Mut::FlipBit(p, b)),
        3 => (position(), byte()).prop_map(|(p, v)| Mut::SetByte(p, v)),
        1 => prop_oneof![Just(0u32), num32(0, u32::MAX)].prop_map(Mut::SetSid),
        1 => kind_code().prop_map(Mut::SetKind),
        3 => flag_bits().prop_map(Mut::SetFlags),
        1 => bytes(20).prop_map(|v| Mut::Extend(Blob::Lit(v))),
        1 => (position(), 1u8..6).prop_map(|(p, n)| Mut::Remove(p, n)),
        1 => (position(), 1u8..6).prop_map(|(p, n)| Mut::Swap(p, n)),
        1 => (position(), bytes(6)).prop_map(|(p, v)| Mut::Insert(p, Blob::Lit(v))),
    ]
    .boxed()
}

fn flag_bits() -> BoxedStrategy<u16> {
    prop_oneof![
        2 => 0u16..0x400,
        1 => (0u32..10).prop_map(|b| 1 << b),
        2 => select(vec![0, M, F, M | F, M | C, M | F | C, M | R | L, R, L, N | C, I | M]),
    ]
    .boxed()
}

/// Mostly near-valid input of moderate size.
pub fn wire(max: usize) -> BoxedStrategy<Wire> {
    let raw = bytes(64).prop_map(|v| Wire { base: Base::Raw(Blob::Lit(v)), muts: vec![] });
    let header = (
        prop_oneof![2 => Just(0u32), 3 => num32(0, u32::MAX)],
        kind_code(),
        flag_bits(),
        prop_oneof![
            6 => bytes(64).prop_map(Blob::Lit),
            1 => blob(max),
        ],
    )
        .prop_map(|(sid, kind, flags, body)| Wire {
            base: Base::Header { sid, kind, flags, body },
            muts: vec![],
        });
    let valid = (small_frame(max), vec(a_mut(), 0..4))
        .prop_map(|(f, muts)| Wire { base: Base::Valid(f), muts });
    prop_oneof![1 => raw, 3 => header, 8 => valid].boxed()
}

pub fn cuts() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        3 => vec(position(), 0..6),
        1 => vec(0u32..60, 10..40),
        1 => Just((0..200).collect()),
    ]
    .boxed()
}

/// A vector whose length is log-uniform up to `max`.
pub fn history<S>(s: S, max: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
    S::Value: Clone,
{
    let mut alts = Vec::new();
    let mut hi = 4;
    let mut lo = 0;
    while lo < max {
        let h = hi.min(max);
        alts.push((if h <= 64 { 6u32 } else { 1 }, vec(s.clone(), lo..=h).boxed()));
        lo = h;
        hi *= 4;
    }
    proptest::strategy::Union::new_weighted(alts).boxed()
}

/// Byte strings again, almost: the same length, and often the same beginning.
pub fn nearly(b: &Blob, at: u32, x: u8) -> Blob {
    let mut v = match b {
        b if b.len() > 4096 => return b.clone(),
        b => b.bytes().to_vec(),
    };
    if !v.is_empty() {
        let n = v.len();
        match x % 4 {
            0 => v[n - 1 - at as usize % n] ^= x | 1,
            1 => v[at as usize % n] ^= x | 1,
            2 => v.rotate_left(at as usize % n),
            _ => v.swap(at as usize % n, n - 1),
        }
    }
    Blob::Lit(v)
}

/// Where a history gets an item a second time, with changes.
pub type Echoes = Vec<(u8, u32, u8)>;

pub fn echoes() -> BoxedStrategy<Echoes> {
    prop_oneof![
        2 => Just(vec![]),
        1 => vec((any::<u8>(), position(), any::<u8>()), 1..4),
    ]
    .boxed()
}

/// Repeats some items right after themselves, as `change` makes of them.
pub fn echo<T: Clone>(v: &mut Vec<T>, e: Echoes, change: impl Fn(&T, u32, u8) -> T) {
    for (k, at, x) in e {
        if !v.is_empty() {
            let k = k as usize % v.len();
            let c = change(&v[k], at, x);
            v.insert(k + 1, c);
        }
    }
}

/// A payload again, almost.
pub fn nearly_pay(p: &Pay, at: u32, x: u8) -> Pay {
    let part = |b: &Option<Blob>| b.as_ref().map(|b| nearly(b, at, x >> 3));
    match x % 8 {
        0 => p.clone(),
        1 | 2 => Pay { meta: part(&p.meta), data: p.data.clone() },
        3 => Pay { meta: p.data.clone(), data: p.meta.clone() },
        4 => Pay { meta: part(&p.meta), data: part(&p.data) },
        _ => Pay { meta: p.meta.clone(), data: part(&p.data) },
    }
}

/// Short texts of characters that programs treat specially.
pub fn odd_text() -> BoxedStrategy<String> {
    let c = prop_oneof![
        3 => select(vec![
            '\u{feff}', '\0', '\n', '\r', '\t', '\u{fffd}', '\u{2028}',
            '\u{85}', '\u{a0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}',
            '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
            '\u{200b}', '\u{200d}', '\u{202e}', '\u{301}', '\u{130}', '\u{df}',
            ' ', '"', '\'', '\\', '%', '{', '}', '/', ';', ',', ':', '=', '*',
        ]),
        1 => any::<char>(),
        1 => prop::char::range('a', 'z'),
    ];
    vec(c, 0..8).prop_map(|v| v.into_iter().collect()).boxed()
}

/// Texts of up to some thousand characters, all different.
pub fn long_text() -> BoxedStrategy<String> {
    (num(0, 4000), 0u8..26, prop::sample::select(vec!["", " ", "\n", "\u{fc}", "\u{1f600}"]))
        .prop_map(|(n, k, sep)| {
            let mut s = String::new();
            let mut i = 0u32;
            while (i as u64) < n {
                s.push((b'a' + ((i + k as u32) * (i / 26 + 1) % 26) as u8) as char);
                i += 1;
                if i % 7 == 0 {
                    s.push_str(sep);
                }
            }
            s
        })
        .boxed()
}
