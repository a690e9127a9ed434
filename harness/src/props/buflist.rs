//! The receive buffer list against one flat byte string.
use crate::blob::{brief, Blob};
use crate::bufs::{cut, SegBuf};
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::hooks::Buffers;
use bytes::{Buf, Bytes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::IoSlice;

/// Amounts are fractions of what is there, or absolute and cut to it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Amount {
    Front,
    FrontPlus(u8),
    FrontMinus(u8),
    Exactly(u16),
    Part(u8),
    Many(u32),
    All,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Push(Blob),
    Advance(Amount),
    Extract(Amount),
    CopyOut(Amount),
    Vectored(u8),
    /// Width in bytes (1, 2, 4, 8, 16), little endian.
    Int(u8, bool),
    Uint(u8),
    Chunk,
    /// Asks for this many more bytes than there are.
    TooFar(u8, u16),
    TakeSome(Amount),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pieces: Vec<Blob>,
    /// Pieces that are themselves in pieces.
    nested: bool,
    cuts: Vec<u32>,
    ops: Vec<Op>,
}

enum List {
    Flat(Buffers<Bytes>),
    Nested(Buffers<SegBuf>),
}

macro_rules! on {
    ($l:expr, $x:ident => $e:expr) => {
        match $l {
            List::Flat($x) => $e,
            List::Nested($x) => $e,
        }
    };
}

fn history(c: &Case) -> Verdict {
    let mut list = if c.nested {
        List::Nested(Buffers::new())
    } else {
        List::Flat(Buffers::new())
    };
    let mut model: Vec<u8> = Vec::new();
    let mut at = 0usize;
    let mut front_left; // bytes up to the end of the first piece
    let mut ends: Vec<usize> = Vec::new();
    let push = |list: &mut List, b: Bytes| -> Result<(), String> {
        match list {
            List::Flat(l) => guard(|| l.push(b)),
            List::Nested(l) => guard(|| l.push(SegBuf::new(cut(&b, &c.cuts)))),
        }
    };
    for p in &c.pieces {
        let b = p.bytes();
        if b.is_empty() {
            continue;
        }
        model.extend_from_slice(&b);
        ends.push(model.len());
        push(&mut list, b)?;
    }
    let mut crossings = 0;
    let mut vectored = 0;
    let mut pushed_later = false;
    let mut too_far = false;
    for (i, op) in c.ops.iter().enumerate() {
        let left = model.len() - at;
        front_left = ends
            .iter()
            .copied()
            .find(|&e| e > at)
            .unwrap_or(at)
            - at;
        let amount = |a: &Amount| -> usize {
            let n = match a {
                Amount::Front => front_left,
                Amount::FrontPlus(n) => front_left + *n as usize,
                Amount::FrontMinus(n) => front_left.saturating_sub(*n as usize),
                Amount::Exactly(n) => *n as usize,
                Amount::Many(n) => *n as usize,
                Amount::Part(n) => left * *n as usize / 255,
                Amount::All => left,
            };
            n.min(left)
        };
        let rest = &model[at..];
        let crosses = |n: usize| (n > front_left) as u32;
        let fail = |what: &str, got: &[u8], want: &[u8]| {
            Err(format!(
                "step {} ({:?}): {} gave {} instead of {}",
                i,
                op,
                what,
                brief(got),
                brief(want)
            ))
        };
        match op {
            Op::Push(b) => {
                let b = b.bytes();
                if !b.is_empty() {
                    model.extend_from_slice(&b);
                    ends.push(model.len());
                    push(&mut list, b)?;
                    pushed_later = true;
                }
            }
            Op::Advance(a) => {
                let n = amount(a);
                guard(|| on!(&mut list, l => l.advance(n)))
                    .map_err(|e| format!("step {}: advance({}) of {}: {}", i, n, left, e))?;
                crossings += crosses(n);
                at += n;
            }
            Op::Extract(a) => {
                let n = amount(a);
                let b = guard(|| on!(&mut list, l => l.copy_to_bytes(n)))
                    .map_err(|e| format!("step {}: copy_to_bytes({}) of {}: {}", i, n, left, e))?;
                if b != rest[..n] {
                    return fail("copy_to_bytes", &b, &rest[..n]);
                }
                crossings += crosses(n);
                at += n;
            }
            Op::CopyOut(a) => {
                let n = amount(a);
                let mut b = vec![0u8; n];
                guard(|| on!(&mut list, l => l.copy_to_slice(&mut b)))
                    .map_err(|e| format!("step {}: copy_to_slice({}) of {}: {}", i, n, left, e))?;
                if b != rest[..n] {
                    return fail("copy_to_slice", &b, &rest[..n]);
                }
                crossings += crosses(n);
                at += n;
            }
            Op::TakeSome(a) => {
                let n = amount(a);
                let b = guard(|| {
                    on!(&mut list, l => {
                        let mut t = l.take(n);
                        let mut v = Vec::new();
                        while t.has_remaining() {
                            let k = t.chunk().len();
                            assert!(k > 0, "no readable bytes though some remain");
                            v.extend_from_slice(t.chunk());
                            t.advance(k);
                        }
                        v
                    })
                })
                .map_err(|e| format!("step {}: take({}) of {}: {}", i, n, left, e))?;
                if b != rest[..n] {
                    return fail("take", &b, &rest[..n]);
                }
                crossings += crosses(n);
                at += n;
            }
            Op::Vectored(slots) => {
                // how pieces of pieces are shown is the piece's own affair
                if let List::Flat(l) = &list {
                    let mut io = vec![IoSlice::new(&[]); *slots as usize];
                    let n = guard(|| l.chunks_vectored(&mut io))
                        .map_err(|e| format!("step {}: chunks_vectored: {}", i, e))?;
                    ensure!(
                        n <= io.len(),
                        "step {}: {} slices reported in {} slots",
                        i,
                        n,
                        io.len()
                    );
                    let mut v = Vec::new();
                    for s in &io[..n] {
                        v.extend_from_slice(s);
                    }
                    if !rest.starts_with(&v) {
                        return fail("chunks_vectored", &v, rest);
                    }
                    ensure!(
                        *slots == 0 || left == 0 || !v.is_empty(),
                        "step {}: chunks_vectored shows nothing of {} bytes",
                        i,
                        left
                    );
                    let live = ends.iter().filter(|&&e| e > at).count();
                    ensure!(
                        (*slots as usize) < live || v.len() == left,
                        "step {}: chunks_vectored shows {} of {} bytes in {} slots for {} pieces",
                        i,
                        v.len(),
                        left,
                        slots,
                        live
                    );
                    vectored += 1;
                }
            }
            Op::Int(w, le) => {
                let w = match w % 5 {
                    0 => 1usize,
                    1 => 2,
                    2 => 4,
                    3 => 8,
                    _ => 16,
                };
                if w <= left {
                    let mut want = [0u8; 16];
                    want[..w].copy_from_slice(&rest[..w]);
                    let got = guard(|| {
                        on!(&mut list, l => match (w, *le) {
                            (1, _) => vec![l.get_u8()],
                            (2, false) => l.get_u16().to_be_bytes().to_vec(),
                            (2, true) => l.get_u16_le().to_le_bytes().to_vec(),
                            (4, false) => l.get_u32().to_be_bytes().to_vec(),
                            (4, true) => l.get_u32_le().to_le_bytes().to_vec(),
                            (8, false) => l.get_u64().to_be_bytes().to_vec(),
                            (8, true) => l.get_u64_le().to_le_bytes().to_vec(),
                            (_, false) => l.get_u128().to_be_bytes().to_vec(),
                            (_, true) => l.get_u128_le().to_le_bytes().to_vec(),
                        })
                    })
                    .map_err(|e| format!("step {}: integer of {} bytes: {}", i, w, e))?;
                    if got != want[..w] {
                        return fail("integer read", &got, &want[..w]);
                    }
                    crossings += crosses(w);
                    at += w;
                }
            }
            Op::Uint(n) => {
                let n = 1 + *n as usize % 8;
                if n <= left {
                    let got = guard(|| on!(&mut list, l => l.get_uint(n)))
                        .map_err(|e| format!("step {}: get_uint({}): {}", i, n, e))?;
                    let got = &got.to_be_bytes()[8 - n..];
                    if *got != rest[..n] {
                        return fail("get_uint", got, &rest[..n]);
                    }
                    crossings += crosses(n);
                    at += n;
                }
            }
            Op::Chunk => (),
            Op::TooFar(kind, n) => {
                let ask = left + 1 + *n as usize;
                let r = guard(|| {
                    on!(&mut list, l => match kind % 4 {
                        0 => {
                            l.advance(ask);
                            "advance"
                        }
                        1 => {
                            l.copy_to_bytes(ask);
                            "copy_to_bytes"
                        }
                        2 => {
                            l.copy_to_slice(&mut vec![0; ask]);
                            "copy_to_slice"
                        }
                        _ => {
                            if left >= 8 {
                                panic!("not too far");
                            }
                            l.get_u64();
                            "get_u64"
                        }
                    })
                });
                if let Ok(what) = r {
                    return Err(format!(
                        "step {}: {} of more than the {} bytes left went through",
                        i, what, left
                    ));
                }
                too_far = true;
                // the list may be in any state after a panic
                break;
            }
        }
        let left = model.len() - at;
        let (rem, chunk) = guard(|| {
            on!(&list, l => (l.remaining(), l.chunk().to_vec()))
        })
        .map_err(|e| format!("after step {} ({:?}): {}", i, op, e))?;
        ensure!(
            rem == left,
            "after step {} ({:?}): remaining() is {} instead of {}",
            i,
            op,
            rem,
            left
        );
        ensure!(
            left == 0 || !chunk.is_empty(),
            "after step {} ({:?}): chunk() is empty though {} bytes remain",
            i,
            op,
            left
        );
        if !model[at..].starts_with(&chunk) {
            return Err(format!(
                "after step {} ({:?}): chunk() is {} instead of {}",
                i,
                op,
                brief(&chunk),
                brief(&model[at..])
            ));
        }
    }
    if !too_far {
        // drain
        let n = model.len() - at;
        let b = guard(|| on!(&mut list, l => l.copy_to_bytes(n)))?;
        ensure!(
            b == model[at..],
            "what is left at the end is {} instead of {}",
            brief(&b),
            brief(&model[at..])
        );
        let rem = on!(&list, l => l.remaining());
        ensure!(rem == 0, "{} bytes remain after everything was read", rem);
    }
    Ok(Class::new(crossings > 0)
        .label(crossings > 0, "a read crosses a piece boundary")
        .label(crossings > 3, "more than 3 crossings")
        .label(vectored > 0, "vectored view")
        .label(pushed_later, "pushed between reads")
        .label(too_far, "asked for too much")
        .label(c.nested, "nested pieces"))
}

fn amount() -> BoxedStrategy<Amount> {
    prop_oneof![
        2 => Just(Amount::Front),
        2 => (1u8..12).prop_map(Amount::FrontPlus),
        1 => (1u8..4).prop_map(Amount::FrontMinus),
        3 => (0u16..24).prop_map(Amount::Exactly),
        2 => (0u8..120).prop_map(Amount::Part),
        1 => Just(Amount::All),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => piece().prop_map(Op::Push),
        4 => amount().prop_map(Op::Advance),
        5 => amount().prop_map(Op::Extract),
        2 => amount().prop_map(Op::CopyOut),
        2 => amount().prop_map(Op::TakeSome),
        4 => prop_oneof![4 => 0u8..8, 1 => 0u8..40].prop_map(Op::Vectored),
        5 => (any::<u8>(), any::<bool>()).prop_map(|(w, l)| Op::Int(w, l)),
        2 => any::<u8>().prop_map(Op::Uint),
        1 => Just(Op::Chunk),
        1 => (any::<u8>(), prop_oneof![Just(0u16), 0u16..300]).prop_map(|(k, n)| Op::TooFar(k, n)),
    ]
    .boxed()
}

fn piece() -> BoxedStrategy<Blob> {
    let seed = 0u32..4096;
    prop_oneof![
        6 => (seed.clone(), 1u32..5).prop_map(|(seed, len)| Blob::Pat { seed, len }),
        3 => (seed.clone(), 1u32..40).prop_map(|(seed, len)| Blob::Pat { seed, len }),
        1 => (seed, 1u32..2000).prop_map(|(seed, len)| Blob::Pat { seed, len }),
    ]
    .boxed()
}

pub fn c11() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c11-histories",
            rule: "one case is a list of non-empty pieces and a sequence of \
reads, skips, extractions, integer reads, vectored views and pushes; \
non-trivial: some read crosses a piece boundary",
            quick: 960_000,
            thorough: 24_000_000,
            strategy: || {
                (
                    gen::history(piece(), 16),
                    prop::bool::weighted(0.3),
                    proptest::collection::vec(0u32..20, 0..4),
                    gen::history(op(), 24),
                )
                    .prop_map(|(pieces, nested, cuts, ops)| Case { pieces, nested, cuts, ops })
                    .boxed()
            },
            check: history,
        }),
        sub(Spec {
            name: "c11-long",
            rule: "as c11-histories with up to 200 pieces and 300 operations",
            quick: 48_000,
            thorough: 1_200_000,
            strategy: || {
                (
                    gen::history(piece(), 200),
                    prop::bool::weighted(0.3),
                    proptest::collection::vec(0u32..20, 0..4),
                    gen::history(op(), 300),
                )
                    .prop_map(|(pieces, nested, cuts, ops)| Case { pieces, nested, cuts, ops })
                    .boxed()
            },
            check: history,
        }),
        sub(Spec {
            name: "c11-crowd",
            rule: "as c11-histories with up to 6,000 pieces and amounts to match",
            quick: 1_600,
            thorough: 40_000,
            strategy: || {
                let some = proptest::collection::vec(piece(), 1..100);
                let amount = || {
                    prop_oneof![
                        1 => amount(),
                        1 => gen::size(20_000).prop_map(|n| Amount::Many(n as u32)),
                    ]
                };
                let op = prop_oneof![
                    4 => op(),
                    1 => amount().prop_map(Op::Advance),
                    1 => amount().prop_map(Op::Extract),
                    1 => amount().prop_map(Op::CopyOut),
                    1 => amount().prop_map(Op::TakeSome),
                ];
                (
                    some,
                    1usize..60,
                    prop::bool::weighted(0.1),
                    proptest::collection::vec(0u32..20, 0..4),
                    gen::history(op, 12),
                )
                    .prop_map(|(pieces, n, nested, cuts, ops)| {
                        let n = pieces.len() * n;
                        let pieces = pieces.into_iter().cycle().take(n).collect();
                        Case { pieces, nested, cuts, ops }
                    })
                    .boxed()
            },
            check: history,
        }),
        sub(Spec {
            name: "c11-large",
            rule: "as c11-histories with pieces of up to 400 kB and amounts to \
match",
            quick: 24_000,
            thorough: 600_000,
            strategy: || {
                let piece = || {
                    prop_oneof![
                        2 => piece(),
                        3 => (0u32..4096, gen::size(400_000)).prop_map(|(seed, n)| {
                            Blob::Pat { seed, len: n.max(1) as u32 }
                        }),
                        1 => (0u32..4096, 16_000u32..70_000)
                            .prop_map(|(seed, len)| Blob::Pat { seed, len }),
                    ]
                };
                let amount = || {
                    prop_oneof![
                        2 => amount(),
                        2 => gen::size(400_000).prop_map(|n| Amount::Many(n as u32)),
                    ]
                };
                let op = prop_oneof![
                    4 => op(),
                    1 => piece().prop_map(Op::Push),
                    1 => amount().prop_map(Op::Advance),
                    1 => amount().prop_map(Op::Extract),
                    1 => amount().prop_map(Op::CopyOut),
                    1 => amount().prop_map(Op::TakeSome),
                ];
                (
                    gen::history(piece(), 12),
                    prop::bool::weighted(0.3),
                    proptest::collection::vec(
                        prop_oneof![0u32..20, gen::num32(1, 100_000)],
                        0..4,
                    ),
                    gen::history(op, 12),
                )
                    .prop_map(|(pieces, nested, cuts, ops)| Case { pieces, nested, cuts, ops })
                    .boxed()
            },
            check: history,
        }),
    ]
}
