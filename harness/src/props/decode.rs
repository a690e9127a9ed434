//! Arbitrary bytes into the decoder.
use crate::blob::{brief, Blob};
use crate::bufs::{allocated, cut, SegBuf};
use crate::engine::{exhaustive, guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen::{self, Base, Mut, Wire};
use crate::spec::*;
use crate::hooks::{Buffers, HOOKS};
use binate::frame::{DecodeError, Encode, Flags, Frame};
use bytes::{Buf, Bytes, BytesMut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cuts {
    wire: Wire,
    cuts: Vec<u32>,
}

fn bounded(c: &Cuts) -> Verdict {
    let b = Bytes::from(c.wire.bytes());
    let n = b.len() as u64;
    let mem = 4096 + 16 * n;
    // whole
    let (r, used) = allocated(|| guard(|| Frame::decode(&mut b.clone())));
    let whole = r.map_err(|e| format!("decoding {}: {}", brief(&b), e))?;
    ensure!(
        used <= mem,
        "decoding {} bytes ({}) allocated {} bytes",
        n,
        brief(&b),
        used
    );
    // a slice: reading past the end is a panic
    let (r, used) = allocated(|| guard(|| Frame::decode(&mut &b[..])));
    r.map_err(|e| format!("decoding the slice {}: {}", brief(&b), e))?
        .ok();
    ensure!(
        used <= mem,
        "decoding a slice of {} bytes ({}) allocated {} bytes",
        n,
        brief(&b),
        used
    );
    // in pieces, each access counted
    let parts = cut(&b, &c.cuts);
    let pieces = parts.len() as u64;
    let limit = 1000 + 16 * pieces + 16 * n;
    let mut seg = SegBuf::limited(parts, limit);
    let (r, used) = allocated(|| guard(|| Frame::decode(&mut seg)));
    r.map_err(|e| {
        format!("decoding {} in {} pieces: {}", brief(&b), pieces, e)
    })?
    .ok();
    ensure!(
        used <= mem + 64 * pieces,
        "decoding {} bytes in {} pieces allocated {} bytes",
        n,
        pieces,
        used
    );
    // errors can be shown
    let rejected = whole.is_err();
    if let Err(e) = whole {
        guard(|| (e.to_string(), format!("{:?}", e)))?;
    }
    Ok(Class::new(b.len() >= 6)
        .label(rejected, "rejected")
        .label(!rejected, "accepted")
        .label(b.len() < 6, "shorter than a header")
        .label(seg.accesses() > 30, "more than 30 buffer accesses"))
}

pub fn c03() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c03-bytes",
            rule: "byte strings random, structured, or mutated from valid \
frames, whole and in pieces; non-trivial: at least the six header bytes",
            quick: 1_920_000,
            thorough: 48_000_000,
            strategy: || {
                (gen::wire(2000), gen::cuts())
                    .prop_map(|(wire, cuts)| Cuts { wire, cuts })
                    .boxed()
            },
            check: bounded,
        }),
        sub(Spec {
            name: "c03-large",
            rule: "as c03-bytes with bodies of up to 16 MB; non-trivial: \
at least the six header bytes",
            quick: 32_000,
            thorough: 800_000,
            strategy: || {
                let f = gen::frame();
                let keep = prop_oneof![
                    Just(Vec::new()),
                    any::<u8>().prop_map(|n| vec![Mut::DropEnd(n % 24)]),
                    any::<u32>().prop_map(|n| vec![Mut::Keep(n)]),
                ];
                (f, keep, gen::cuts())
                    .prop_map(|(f, muts, cuts)| Cuts {
                        wire: Wire { base: Base::Valid(f), muts },
                        cuts,
                    })
                    .boxed()
            },
            check: bounded,
        }),
        sub(Spec {
            name: "c03-runs",
            rule: "a header, up to 24 bytes, then one byte or a pattern \
repeated for up to 16 MB; non-trivial: more than 64 kB",
            quick: 4_000,
            thorough: 100_000,
            strategy: || {
                let long = || prop_oneof![
                    gen::log_u64(1 << 24),
                    (60_000u64..1 << 24),
                ];
                let tail = prop_oneof![
                    3 => (prop_oneof![
                        Just(0u8), Just(0xff), Just(b'a'), any::<u8>()
                    ], long())
                        .prop_map(|(byte, n)| Blob::Rep { byte, len: n as u32 }),
                    1 => (0u32..4096, long())
                        .prop_map(|(seed, n)| Blob::Pat { seed, len: n as u32 }),
                ];
                (
                    prop_oneof![Just(0u32), Just(1), 1u32..1 << 31],
                    prop_oneof![8 => 1u8..15, 1 => Just(0x3f)],
                    prop_oneof![Just(0u16), Just(0x100), 0u16..0x400],
                    prop_oneof![
                        Just(vec![]),
                        gen::bytes(24),
                        (gen::byte(), 3usize..24).prop_map(|(b, n)| vec![b; n]),
                    ],
                    tail,
                    proptest::collection::vec(any::<u32>(), 0..3),
                )
                    .prop_map(|(sid, kind, flags, head, tail, cuts)| Cuts {
                        wire: Wire {
                            base: Base::Header {
                                sid,
                                kind,
                                flags,
                                body: Blob::Lit(head),
                            },
                            muts: vec![Mut::Extend(tail)],
                        },
                        cuts,
                    })
                    .boxed()
            },
            check: |c| {
                let long = c.wire.bytes().len() > 1 << 16;
                let mut k = bounded(c)?;
                k.nontrivial = long;
                Ok(k)
            },
        }),
        exhaustive(
            "c03-short",
            "all inputs of 0..=2 bytes, and every 16-bit type/flags word \
after a zero or non-zero stream id followed by nothing or 3 body shapes; \
non-trivial: at least the six header bytes",
            || {
                let short = (0u32..1 + 256 + 65536).map(|i| {
                    let v = if i == 0 {
                        vec![]
                    } else if i <= 256 {
                        vec![(i - 1) as u8]
                    } else {
                        let x = i - 257;
                        vec![(x >> 8) as u8, x as u8]
                    };
                    Cuts {
                        wire: Wire { base: Base::Raw(Blob::Lit(v)), muts: vec![] },
                        cuts: vec![1],
                    }
                });
                let words = (0u32..65536).flat_map(|w| {
                    let bodies = [
                        vec![],
                        vec![0u8; 24],
                        vec![0xff; 24],
                    ];
                    bodies.into_iter().enumerate().map(move |(i, body)| Cuts {
                        wire: Wire {
                            base: Base::Header {
                                sid: (i as u32) & 1,
                                kind: (w >> 10) as u8,
                                flags: w as u16 & 0x3ff,
                                body: Blob::Lit(body),
                            },
                            muts: vec![],
                        },
                        cuts: vec![3, 7],
                    })
                });
                Box::new(short.chain(words))
            },
            bounded,
        ),
    ]
}

/// C04: what an accepted frame says.
fn faithful(w: &Wire) -> Verdict {
    let b = Bytes::from(w.bytes());
    let mut c = b.clone();
    let f = match guard(|| Frame::decode(&mut c)) {
        Ok(Ok(f)) => f,
        _ => return Ok(Class::new(false).label(true, "not accepted")),
    };
    match ref_decode(&b) {
        // some field has no place in these bytes
        Ref::Reject(why) if why == [Why::Incomplete] => Err(format!(
            "{} ends before the last field of {:?}",
            brief(&b),
            observe(&f)?
        )),
        // accepting it at all is C05's matter
        Ref::Reject(_) => Ok(Class::new(false).label(true, "should be rejected")),
        Ref::Accept(a) => {
            let got = observe(&f)?;
            let mut why = String::new();
            let mut ok = false;
            for want in &a.obs {
                match want.diff(&got) {
                    None => ok = true,
                    Some(d) => {
                        if why.is_empty() {
                            why = d
                        }
                    }
                }
            }
            ensure!(ok, "{} decoded: {}", brief(&b), why);
            let consumed = b.len() - c.remaining();
            ensure!(
                a.obs.len() > 1 || consumed == a.consumed,
                "decoding {} consumed {} bytes instead of {}",
                brief(&b),
                consumed,
                a.consumed
            );
            ensure!(
                c == b.slice(consumed..),
                "the bytes left over are not the input's last ones"
            );
            // the decoder of this kind alone says the same of the same bytes
            let mut c = b.slice(6..);
            let sid = u32::from_be_bytes(b[..4].try_into().unwrap()) & U31;
            let word = u16::from_be_bytes(b[4..6].try_into().unwrap());
            let r = guard(|| {
                let flags = Flags::from_bits_truncate(word);
                decode_kind((word >> 10) as u8, &mut c, sid, flags)
            })?;
            ensure!(
                r.as_ref() == Some(&Ok(f)) && b.len() - c.len() == consumed,
                "{} decoded by its own kind's decoder: {} ({} bytes left)",
                brief(&b),
                r.map_or("-".into(), |r| describe(&r)),
                c.len()
            );
            Ok(Class::new(true)
                .label(!a.canonical, "non-canonical bytes")
                .label(a.canonical, "canonical bytes")
                .label(consumed < b.len(), "trailing bytes left"))
        }
    }
}

pub fn c04() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c04-faithful",
            rule: "byte strings random, structured, or mutated from valid \
frames; non-trivial: accepted, and compared with the reference decoder",
            quick: 2_240_000,
            thorough: 56_000_000,
            strategy: || gen::wire(70_000),
            check: faithful,
        }),
        sub(Spec {
            name: "c04-large",
            rule: "valid frames of up to 32 MB with random flags; \
non-trivial: accepted, and compared with the reference decoder",
            quick: 24_000,
            thorough: 600_000,
            strategy: || {
                (gen::frame(), 0u16..0x400, any::<bool>())
                    .prop_map(|(f, flags, set)| Wire {
                        base: Base::Valid(f),
                        muts: if set {
                            vec![Mut::SetFlags(flags)]
                        } else {
                            vec![]
                        },
                    })
                    .boxed()
            },
            check: faithful,
        }),
    ]
}

/// C05: acceptance and the reason for rejection.
fn judged(b: &Bytes) -> Result<(bool, Option<Why>), String> {
    let r = guard(|| Frame::decode(&mut b.clone()))
        .map_err(|e| format!("decoding {}: {}", brief(b), e))?;
    match (ref_decode(b), r) {
        (Ref::Accept(_), Ok(_)) => Ok((true, None)),
        (Ref::Accept(a), Err(e)) => {
            ensure!(
                a.may_reject,
                "well-formed {} was rejected: {}",
                brief(b),
                e
            );
            Ok((false, None))
        }
        (Ref::Reject(ok), Ok(f)) => Err(format!(
            "malformed {} was accepted as {:?}; expected {:?}",
            brief(b),
            observe(&f)?,
            ok
        )),
        (Ref::Reject(ok), Err(e)) => {
            let why = Why::of(&e)?;
            ensure!(
                ok.contains(&why),
                "{} was rejected as {:?} instead of {:?}",
                brief(b),
                why,
                ok
            );
            // what the decoder of this kind alone makes of the same bytes; that
            // the stream id is right may have been settled before it is asked
            if b.len() >= 6 {
                let mut c = b.slice(6..);
                let sid = u32::from_be_bytes(b[..4].try_into().unwrap()) & U31;
                let word = u16::from_be_bytes(b[4..6].try_into().unwrap());
                let own = guard(|| {
                    let flags = Flags::from_bits_truncate(word);
                    decode_kind((word >> 10) as u8, &mut c, sid, flags)
                })
                .map_err(|e| format!("decoding {}: {}", brief(b), e))?;
                match own {
                    Some(Ok(_)) => ensure!(
                        ok.iter().any(|w| matches!(w, Why::StreamId(_))),
                        "malformed {} was accepted by its kind's decoder",
                        brief(b)
                    ),
                    Some(Err(e)) => {
                        let why = Why::of(&e)?;
                        ensure!(
                            ok.contains(&why),
                            "{} was rejected by its kind's decoder as {:?} instead of {:?}",
                            brief(b),
                            why,
                            ok
                        );
                    }
                    None => {}
                }
            }
            Ok((false, Some(why)))
        }
    }
}

fn reasons(w: &Wire) -> Verdict {
    let b = Bytes::from(w.bytes());
    let (accepted, why) = judged(&b)?;
    Ok(Class::new(!accepted)
        .label(accepted, "accepted")
        .label(why == Some(Why::Incomplete), "incomplete")
        .label(matches!(why, Some(Why::Unrecognized(_))), "unrecognized type")
        .label(matches!(why, Some(Why::StreamId(_))), "invalid stream id"))
}

/// Every truncation of one frame.
fn truncations(f: &Fr) -> Verdict {
    let b = Bytes::from(f.wire(false));
    let mut cut_off = 0;
    for n in (0..=b.len()).rev() {
        // long tails: every position near both ends, then a stride
        if n > 400 && n + 50 < b.len() && n % 97 != 0 {
            continue;
        }
        let (ok, _) = judged(&b.slice(..n))?;
        cut_off += !ok as u32;
    }
    Ok(Class::new(cut_off > 0).label(true, "all truncation points"))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ErrCase {
    sid: u32,
    code: u32,
    top: bool,
    body: Blob,
}

fn error_rule(c: &ErrCase) -> Verdict {
    let mut b = (c.sid | (c.top as u32) << 31).to_be_bytes().to_vec();
    b.extend_from_slice(&((ERROR as u16) << 10).to_be_bytes());
    b.extend_from_slice(&c.code.to_be_bytes());
    b.extend_from_slice(&c.body.bytes());
    let (accepted, why) = judged(&Bytes::from(b))?;
    Ok(Class::new(true)
        .label(accepted, "accepted")
        .label(matches!(why, Some(Why::StreamId(_))), "invalid stream id"))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SidCase {
    frame: Fr,
    sid: u32,
}

fn sid_rule(c: &SidCase) -> Verdict {
    let mut b = c.frame.wire(false);
    b[..4].copy_from_slice(&c.sid.to_be_bytes());
    let (accepted, why) = judged(&Bytes::from(b))?;
    if let Some(Why::StreamId(_)) = why {
        // the text of the error is C21's matter, its kind was judged above
    }
    Ok(Class::new(c.sid & U31 != 0)
        .label(accepted, "accepted")
        .label(matches!(why, Some(Why::StreamId(_))), "invalid stream id"))
}

pub fn c05() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c05-reasons",
            rule: RULE_WIRE_REJ,
            quick: 1_920_000,
            thorough: 48_000_000,
            strategy: || gen::wire(2000),
            check: reasons,
        }),
        sub(Spec {
            name: "c05-truncation",
            rule: "one case is one frame, decoded at every truncation point \
(beyond 400 bytes every 97th); non-trivial: some truncation is malformed",
            quick: 128_000,
            thorough: 3_200_000,
            strategy: || gen::small_frame(1500),
            check: truncations,
        }),
        sub(Spec {
            name: "c05-error-codes",
            rule: "one case is an error frame with any code on any stream; \
all non-trivial",
            quick: 640_000,
            thorough: 16_000_000,
            strategy: || {
                let code = prop_oneof![
                    3 => gen::error_code(),
                    1 => gen::num32(0, u32::MAX),
                    1 => (gen::error_code(), 0u32..32).prop_map(|(c, b)| c ^ 1 << b),
                ];
                (
                    prop_oneof![Just(0u32), gen::num32(0, U31)],
                    code,
                    any::<bool>(),
                    gen::blob(30),
                )
                    .prop_map(|(sid, code, top, body)| ErrCase { sid, code, top, body })
                    .boxed()
            },
            check: error_rule,
        }),
        sub(Spec {
            name: "c05-stream-ids",
            rule: "one case is a well-formed frame moved to an arbitrary \
stream id; non-trivial: a non-zero id",
            quick: 480_000,
            thorough: 12_000_000,
            strategy: || {
                let sid = prop_oneof![
                    1 => Just(0u32),
                    1 => Just(1u32 << 31),
                    4 => gen::num32(0, u32::MAX),
                ];
                (gen::small_frame(40), sid)
                    .prop_map(|(frame, sid)| SidCase { frame, sid })
                    .boxed()
            },
            check: sid_rule,
        }),
        exhaustive(
            "c05-types",
            "all 64 type codes x 11 flag words x 2 stream ids x 4 bodies; \
non-trivial: not accepted",
            || {
                Box::new((0u32..64 * 11 * 8).map(|i| {
                    let flags = match i / 64 % 11 {
                        0 => 0,
                        k => 1u16 << (k - 1),
                    };
                    let body = match i / 64 / 11 % 4 {
                        0 => vec![],
                        1 => vec![0; 40],
                        2 => vec![1; 40],
                        _ => (0..40).collect(),
                    };
                    Wire {
                        base: Base::Header {
                            sid: i / 64 / 44,
                            kind: (i % 64) as u8,
                            flags,
                            body: Blob::Lit(body),
                        },
                        muts: vec![],
                    }
                }))
            },
            reasons,
        ),
    ]
}

const RULE_WIRE_REJ: &str = "one case is one byte string: random, a random \
header with a random body, or a valid frame changed; non-trivial: it is not a \
well-formed frame";

fn outcome<B: Buf>(
    mut b: B,
) -> Result<(Result<Frame, DecodeError>, usize), String> {
    let r = guard(|| Frame::decode(&mut b))?;
    Ok((r, b.remaining()))
}

/// The bytes in a ring buffer that wraps around after `at` of them.
fn ring(b: &[u8], at: usize) -> VecDeque<u8> {
    let mut q: VecDeque<u8> = VecDeque::with_capacity(b.len().max(1));
    let cap = q.capacity();
    let at = at % cap;
    // move the start of the ring
    q.extend(std::iter::repeat(0).take(cap - at));
    while q.pop_front().is_some() {}
    q.extend(b);
    debug_assert!(at == 0 || b.len() <= at || !q.as_slices().1.is_empty());
    q
}

fn segmentation(c: &Cuts) -> Verdict {
    let b = Bytes::from(c.wire.bytes());
    let parts = cut(&b, &c.cuts);
    let n = parts.len();
    let show = || format!("{} in {} pieces", brief(&b), n);
    let whole = match outcome(b.clone()) {
        Ok(x) => x,
        // a crash on the whole input is C03's matter
        Err(_) => return Ok(Class::new(false).label(true, "crashed whole")),
    };
    let mut seen = Vec::new();
    seen.push(("slice", outcome(&b[..])));
    seen.push(("pieces", outcome(SegBuf::new(parts.clone()))));
    seen.push((
        "deque",
        outcome(ring(&b, c.cuts.first().copied().unwrap_or(0) as usize)),
    ));
    if !b.is_empty() {
        let mid = c.cuts.first().copied().unwrap_or(3) as usize % (b.len() + 1);
        seen.push((
            "chain",
            outcome(b.slice(..mid).chain(b.slice(mid..))),
        ));
        if HOOKS {
            let mut list = Buffers::new();
            for p in &parts {
                list.push(p.clone());
            }
            seen.push(("buffer list", outcome(list)));
            // pieces of pieces
            let mut list = Buffers::new();
            for p in parts.chunks(2) {
                list.push(SegBuf::new(p.to_vec()));
            }
            seen.push(("list of piecewise buffers", outcome(list)));
        }
        seen.push(("mutable bytes", outcome(BytesMut::from(&b[..]))));
        let mut any: Box<dyn Buf> = Box::new(SegBuf::new(parts.clone()));
        seen.push(("some buffer", outcome(&mut any)));
        // `take` with more behind it
        let mut longer = b.to_vec();
        longer.extend_from_slice(b"beyond the end");
        seen.push(("limited", outcome((&longer[..]).take(b.len()))));
    }
    for (name, r) in seen {
        let r = r.map_err(|e| format!("{} as {}: {}", show(), name, e))?;
        ensure!(
            r.0 == whole.0,
            "{} as {}: {:?} instead of {:?}",
            show(),
            name,
            describe(&r.0),
            describe(&whole.0)
        );
        ensure!(
            r.1 == whole.1,
            "{} as {}: {} bytes left instead of {}",
            show(),
            name,
            r.1,
            whole.1
        );
    }
    Ok(Class::new(n > 1 && b.len() >= 6)
        .label(whole.0.is_ok(), "accepted")
        .label(whole.0.is_err(), "rejected")
        .label(n > 8, "more than 8 pieces"))
}

fn describe(r: &Result<Frame, DecodeError>) -> String {
    match r {
        Ok(f) => match observe(f) {
            Ok(o) => format!("{:?} ({} bytes)", o, Encode::len(f)),
            Err(e) => e,
        },
        Err(e) => format!("{:?}", e),
    }
}

pub fn c07() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c07-segmentation",
        rule: RULE_SEG,
        quick: 960_000,
        thorough: 24_000_000,
        strategy: || {
            (gen::wire(1200), gen::cuts())
                .prop_map(|(wire, cuts)| Cuts { wire, cuts })
                .boxed()
        },
        check: segmentation,
    })]
}

const RULE_SEG: &str = "one case is one byte string (valid, mutated or random) \
and a way of cutting it; non-trivial: at least two pieces and a whole header";

