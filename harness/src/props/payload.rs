//! Payloads: chunking, reassembly, builder and accessors.
use crate::blob::{brief, Blob};
use crate::bufs::{cut, SegBuf};
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::spec::*;
use crate::hooks::Buffers;
use binate::frame::codec::ErrorFrame;
use binate::frame::{DecodeError, Encode};
use binate::Payload;
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Split {
    pay: Pay,
    size: u64,
    /// Check the announced count again after this many pieces.
    probe: u8,
}

/// Pieces a part of this length makes: none if absent, at least one else.
fn pieces(part: &Option<Blob>, n: u64) -> u64 {
    match part {
        None => 0,
        Some(b) => {
            let len = b.len() as u64;
            (len / n + (len % n != 0) as u64).max(1)
        }
    }
}

fn window(part: &Option<Blob>, k: u64, n: u64) -> Bytes {
    match part {
        None => Bytes::new(),
        Some(b) => {
            let b = b.bytes();
            let len = b.len() as u64;
            let lo = k.saturating_mul(n).min(len);
            let hi = lo.saturating_add(n).min(len);
            b.slice(lo as usize..hi as usize)
        }
    }
}

const WALK: u64 = 20_000;

/// A chunk size of zero is refused loudly, at the latest when pieces are
/// asked for.
fn zero_size(c: &Split) -> Verdict {
    let some_part = c.pay.meta.is_some() || c.pay.data.is_some();
    let tried = guard(|| {
        let mut it = c.pay.build().chunks(0);
        let len = ExactSizeIterator::len(&it);
        let first = it.next().map(|p| p.len());
        (len, first)
    });
    if let (Ok((len, first)), true) = (&tried, some_part) {
        return Err(format!(
            "a chunk size of 0 was accepted: len() {}, first piece of {:?} bytes",
            len, first
        ));
    }
    Ok(Class::new(some_part).label(true, "chunk size zero"))
}

fn chunking(c: &Split) -> Verdict {
    let n = c.size;
    if n == 0 {
        return zero_size(c);
    }
    let both_empty = c.pay.meta_bytes().is_empty() && c.pay.data_bytes().is_empty();
    let mut it = guard(|| c.pay.build().chunks(n as usize))?;
    let expect = pieces(&c.pay.meta, n).max(pieces(&c.pay.data, n));
    let mut k = 0u64;
    let walk = expect <= WALK;
    // When the walk is cut short, the remaining count is still the model's.
    let stop = if walk { u64::MAX } else { 300 };
    let announced = |it: &binate::prelude::PayloadChunks| {
        guard(|| (ExactSizeIterator::len(it), it.size_hint()))
    };
    let mut counts = Vec::new();
    loop {
        let probe = k < 3
            || (c.probe > 0 && k % c.probe as u64 == 0)
            || k + 3 >= expect;
        if probe {
            counts.push((k, announced(&it)?));
        }
        if k >= stop {
            break;
        }
        let Some(p) = guard(|| it.next())? else { break };
        ensure!(
            k < expect.saturating_add(2),
            "more than {} pieces from sizes {} and {} by {}",
            expect + 1,
            c.pay.meta_bytes().len(),
            c.pay.data_bytes().len(),
            n
        );
        for (what, part, got) in [
            ("metadata", &c.pay.meta, p.metadata()),
            ("data", &c.pay.data, p.data()),
        ] {
            let want = window(part, k, n);
            let got = got.cloned().unwrap_or_default();
            ensure!(
                got == want,
                "piece {} has {} {} instead of {}",
                k,
                what,
                brief(&got),
                brief(&want)
            );
        }
        k += 1;
    }
    if walk {
        let total = k;
        // every byte came out
        for (what, part) in [("metadata", &c.pay.meta), ("data", &c.pay.data)] {
            let len = part.as_ref().map(Blob::len).unwrap_or(0) as u64;
            ensure!(
                total.saturating_mul(n) >= len,
                "{} pieces of {} do not hold {} bytes of {}",
                total,
                n,
                len,
                what
            );
        }
        // and the announced counts were the real ones
        for (at, (len, hint)) in counts {
            let left = total - at;
            ensure!(
                len as u64 == left,
                "after {} pieces: len() is {}, but {} more came",
                at,
                len,
                left
            );
            ensure!(
                hint == (left as usize, Some(left as usize)),
                "after {} pieces: size_hint is {:?}, but {} more came",
                at,
                hint,
                left
            );
        }
        for _ in 0..3 {
            ensure!(guard(|| it.next())?.is_none(), "an exhausted iterator went on");
        }
    } else {
        for (at, (len, hint)) in counts {
            let left = expect - at;
            ensure!(
                len as u64 == left && hint == (left as usize, Some(left as usize)),
                "after {} pieces: len() is {} and size_hint {:?}, but {} more are due",
                at,
                len,
                hint,
                left
            );
        }
    }
    Ok(Class::new(!both_empty)
        .label(expect > 1, "more than one piece")
        .label(!walk, "more than 20000 pieces (count checked against the model)")
        .label(c.pay.meta.is_none() || c.pay.data.is_none(), "a part absent")
        .label(
            pieces(&c.pay.meta, n) != pieces(&c.pay.data, n)
                && c.pay.meta.is_some()
                && c.pay.data.is_some(),
            "parts need different numbers of pieces",
        )
        .label(
            c.pay.meta_bytes().len() as u64 % n == 0
                || c.pay.data_bytes().len() as u64 % n == 0,
            "a length divisible by the chunk size",
        ))
}

/// Chunk sizes related to the lengths, and any other.
fn split(max: usize) -> BoxedStrategy<Split> {
    (gen::small_pay(max), any::<u8>())
        .prop_flat_map(|(pay, probe)| {
            let m = pay.meta_bytes().len() as u64;
            let d = pay.data_bytes().len() as u64;
            let rel: Vec<u64> = [m, d]
                .iter()
                .flat_map(|&x| {
                    [x, x + 1, x.saturating_sub(1), x / 2, x / 3, x / 4, x / 2 + 1]
                })
                .map(|x| x.max(1))
                .collect();
            let size = prop_oneof![
                3 => prop::sample::select(rel),
                3 => 1u64..20,
                2 => gen::num(1, 70_000),
                1 => gen::num(1, u64::MAX),
                1 => gen::num(0, 3),
            ];
            (Just(pay), size, Just(probe))
        })
        .prop_map(|(pay, size, probe)| Split { pay, size, probe })
        .boxed()
}

pub fn c09() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c09-chunks",
            rule: "one case is one payload and one chunk size; non-trivial: \
at least one byte of payload (chunk size 0: at least one part)",
            quick: 480_000,
            thorough: 12_000_000,
            strategy: || split(3000),
            check: chunking,
        }),
        sub(Spec {
            name: "c09-large",
            rule: "one case is one payload of up to 48 MB and one chunk \
size; non-trivial: at least one byte of payload",
            quick: 8_000,
            thorough: 200_000,
            strategy: || {
                let big = || {
                    prop_oneof![
                        1 => Just(None),
                        6 => (0u32..4096, gen::log_u64(48 << 20)).prop_map(
                            |(seed, len)| Some(Blob::Pat { seed, len: len as u32 })
                        ),
                        3 => (0u32..4096, 24u32..26, 0u32..4096).prop_map(
                            |(seed, b, d)| Some(Blob::Pat {
                                seed,
                                len: (1 << b) - 2048 + d
                            })
                        ),
                    ]
                };
                (big(), big(), gen::num(1, 1 << 26), 1u64..4000, any::<u8>())
                    .prop_map(|(meta, data, a, b, probe)| Split {
                        pay: Pay { meta, data },
                        size: if probe % 2 == 0 { a } else { b },
                        probe,
                    })
                    .boxed()
            },
            check: chunking,
        }),
    ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Frags {
    pay: Pay,
    size: u32,
    /// Kind of the first fragment and of the following ones.
    first: u8,
    rest: u8,
    sid: u32,
    flags: u8,
    /// Cut positions inside each fragment.
    cuts: Vec<u32>,
    damage: Option<(u32, gen::Mut)>,
}

fn carrier(kind: u8, sid: u32, flags: u8, follows: bool, pay: Pay) -> Fr {
    match kind % 5 {
        0 => Fr::RequestResponse { sid, follows, pay },
        1 => Fr::RequestFnf { sid, follows, pay },
        2 => Fr::RequestStream { sid, follows, n: 1 + flags as u32, pay },
        3 => Fr::RequestChannel {
            sid,
            follows,
            complete: flags & 1 != 0,
            n: 1 + flags as u32,
            pay,
        },
        _ => Fr::Payload {
            sid,
            flags: flags & (PF_COMPLETE | PF_NEXT) | if follows { PF_FOLLOWS } else { 0 },
            pay,
        },
    }
}

fn lit(b: Option<&Bytes>) -> Option<Blob> {
    b.map(|b| Blob::Lit(b.to_vec()))
}

fn reassemble_in(
    frags: &[Bytes],
    how: u8,
    cuts: &[u32],
) -> Result<Result<Payload, DecodeError>, String> {
    guard(|| match how {
        0 => {
            let mut l = Buffers::new();
            for f in frags {
                l.push(f.clone());
            }
            l.reassemble()
        }
        1 => {
            let mut l = Buffers::new();
            for f in frags {
                l.push(SegBuf::new(cut(f, cuts)));
            }
            l.reassemble()
        }
        _ => {
            let mut l = Buffers::new();
            for f in frags {
                let mut inner = Buffers::new();
                for p in cut(f, cuts) {
                    inner.push(p);
                }
                l.push(inner);
            }
            l.reassemble()
        }
    })
}

fn reassembly(c: &Frags) -> Verdict {
    let size = c.size.max(1) as usize;
    let parts: Vec<Payload> = guard(|| c.pay.build().chunks(size).collect())?;
    let total = parts.len();
    let mut frags: Vec<Bytes> = Vec::new();
    for (i, p) in parts.iter().enumerate() {
        let kind = if i == 0 { c.first } else { c.rest };
        let pay = Pay { meta: lit(p.metadata()), data: lit(p.data()) };
        let fr = carrier(kind, c.sid, c.flags, i + 1 < total, pay);
        frags.push(guard(|| fr.build().to_bytes())?);
    }
    let ways = [0u8, 1, 2];
    if let Some((at, m)) = &c.damage {
        if frags.is_empty() {
            return Ok(Class::new(false).label(true, "no fragments"));
        }
        let at = *at as usize % frags.len();
        let w = gen::Wire {
            base: gen::Base::Raw(Blob::Lit(frags[at].to_vec())),
            muts: vec![m.clone()],
        };
        let b = Bytes::from(w.bytes());
        if b.is_empty() {
            return Ok(Class::new(false).label(true, "fragment damaged to nothing"));
        }
        if !matches!(ref_decode(&b), Ref::Reject(_)) {
            return Ok(Class::new(false).label(true, "still a frame after damage"));
        }
        frags[at] = b.clone();
        let whole = match guard(|| binate::frame::Frame::decode(&mut b.clone())) {
            Ok(Err(e)) => e,
            // accepted or crashed: C05's and C03's matter
            _ => return Ok(Class::new(false)),
        };
        for how in ways {
            let r = reassemble_in(&frags, how, &c.cuts)?;
            match r {
                Ok(p) => {
                    return Err(format!(
                        "fragment {} of {} is malformed ({}), yet a payload \
                         of {} bytes came out",
                        at,
                        frags.len(),
                        brief(&b),
                        p.len()
                    ))
                }
                Err(e) => ensure!(
                    e == whole,
                    "fragment {} is malformed: {:?} reported instead of {:?}",
                    at,
                    e,
                    whole
                ),
            }
        }
        return Ok(Class::new(true)
            .label(true, "malformed fragment")
            .label(at > 0, "malformed fragment after good ones"));
    }
    for how in ways {
        let p = reassemble_in(&frags, how, &c.cuts)?.map_err(|e| {
            format!("reassembling {} good fragments failed: {}", frags.len(), e)
        })?;
        let (m, d) = p.split();
        let (m, d) = (m.unwrap_or_default(), d.unwrap_or_default());
        ensure!(
            m == c.pay.meta_bytes(),
            "metadata {} came back as {}",
            brief(&c.pay.meta_bytes()),
            brief(&m)
        );
        ensure!(
            d == c.pay.data_bytes(),
            "data {} came back as {}",
            brief(&c.pay.data_bytes()),
            brief(&d)
        );
    }
    Ok(Class::new(total > 1)
        .label(total > 1, "more than one fragment")
        .label(total > 20, "more than 20 fragments")
        .label(c.first % 5 != c.rest % 5, "mixed frame kinds"))
}

fn frags() -> BoxedStrategy<Frags> {
    (
        prop_oneof![3 => gen::small_pay(60), 2 => gen::small_pay(2000)],
        prop_oneof![3 => 1u32..12, 2 => 1u32..400, 1 => gen::num32(1, 70_000)],
        (0u8..5, 0u8..5, gen::num32(1, U31), any::<u8>()),
        gen::cuts(),
        prop_oneof![
            2 => Just(None),
            1 => (any::<u32>(), prop_oneof![
                2 => any::<u32>().prop_map(gen::Mut::Keep),
                2 => (0u32..12).prop_map(gen::Mut::Keep),
                1 => any::<u8>().prop_map(|n| gen::Mut::DropEnd(n % 12)),
                1 => gen::kind_code().prop_map(gen::Mut::SetKind),
                1 => (prop::sample::select(vec![4u32, 6, 7, 8, 10, 11, 12]), gen::byte())
                    .prop_map(|(p, v)| gen::Mut::SetByte(p, v)),
            ]).prop_map(Some),
        ],
    )
        .prop_map(|(pay, size, (first, rest, sid, flags), cuts, damage)| Frags {
            pay,
            // at most a few hundred fragments
            size,
            first,
            rest,
            sid,
            flags,
            cuts,
            damage,
        })
        .boxed()
}

pub fn c10() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c10-reassembly",
            rule: "one case is one payload, fragment size, carrying frame \
kinds, cutting of each fragment and possibly one damaged fragment; \
non-trivial: more than one fragment, or a malformed one",
            quick: 320_000,
            thorough: 8_000_000,
            strategy: frags,
            check: reassembly,
        }),
        sub(Spec {
            name: "c10-large",
            rule: "as c10-reassembly, parts of up to 70 kB in fragments of \
1 kB or more; non-trivial: more than one fragment",
            quick: 12_800,
            thorough: 320_000,
            strategy: || {
                (frags(), gen::small_pay(70_000), 1000u32..70_000)
                    .prop_map(|(f, pay, size)| Frags { pay, size, ..f })
                    .boxed()
            },
            check: reassembly,
        }),
        sub(Spec {
            name: "c10-huge",
            rule: "as c10-reassembly, parts of up to 40 MB in fragments as \
large as metadata can be, or up to 200,000 tiny fragments; non-trivial: more \
than one fragment",
            quick: 320,
            thorough: 8_000,
            strategy: || {
                let part = |max: u64| {
                    prop_oneof![
                        1 => Just(None),
                        5 => (0u32..4096, gen::log_u64(max)).prop_map(
                            |(seed, n)| Some(Blob::Pat { seed, len: n as u32 })
                        ),
                        2 => (0u32..4096, gen::num(max / 2, max)).prop_map(
                            |(seed, n)| Some(Blob::Pat { seed, len: n as u32 })
                        ),
                    ]
                };
                let huge = (part(40 << 20), part(40 << 20), prop_oneof![
                    2 => (1u32 << 20)..(1 << 24),
                    2 => ((1u32 << 23) - 2)..((1 << 23) + 2),
                    1 => ((1u32 << 24) - 4)..(1 << 24),
                ]);
                let many = (part(200_000), part(200_000), 1u32..6);
                (frags(), prop_oneof![huge, many])
                    .prop_map(|(f, (meta, data, size))| Frags {
                        pay: Pay { meta, data },
                        size,
                        damage: f.damage.filter(|_| size > 100),
                        ..f
                    })
                    .boxed()
            },
            check: reassembly,
        }),
    ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Set {
    Data(Blob),
    Meta(Blob),
}

fn accessors(ops: &Vec<Set>) -> Verdict {
    let mut b = Payload::builder();
    let (mut meta, mut data) = (None, None);
    let mut repeats = false;
    for op in ops {
        match op {
            Set::Data(x) => {
                b = guard(|| b.set_data(x.bytes()))?;
                repeats |= data.replace(x.bytes()).is_some();
            }
            Set::Meta(x) => {
                b = guard(|| b.set_metadata(x.bytes()))?;
                repeats |= meta.replace(x.bytes()).is_some();
            }
        }
    }
    let p = guard(|| b.build())?;
    ensure!(p.data() == data.as_ref(), "data() is {:?} instead of {:?}", show(p.data()), show(data.as_ref()));
    ensure!(p.metadata() == meta.as_ref(), "metadata() is {:?} instead of {:?}", show(p.metadata()), show(meta.as_ref()));
    ensure!(p.has_data() == data.is_some(), "has_data() is {}", p.has_data());
    ensure!(p.has_metadata() == meta.is_some(), "has_metadata() is {}", p.has_metadata());
    let len = data.as_ref().map_or(0, |b| b.len()) + meta.as_ref().map_or(0, |b| b.len());
    ensure!(p.len() == len, "len() is {} instead of {}", p.len(), len);
    ensure!(Encode::len(&p) == len, "encoded length is {} instead of {}", Encode::len(&p), len);
    ensure!(p.is_empty() == (len == 0), "is_empty() is {} at {} bytes", p.is_empty(), len);
    let mut invalid = false;
    for (what, got, part) in [
        ("data", guard(|| p.data_utf8().map(str::to_string).ok())?, &data),
        ("metadata", guard(|| p.metadata_utf8().map(str::to_string).ok())?, &meta),
    ] {
        let raw = part.as_ref().map(|b| b.to_vec()).unwrap_or_default();
        let want = String::from_utf8(raw).ok();
        invalid |= want.is_none();
        ensure!(got == want, "{} as text is {:?} instead of {:?}", what, got, want);
    }
    // builder reused as a value: an equal history makes an equal payload
    let q = p.clone();
    ensure!(p == q, "a payload does not equal its clone");
    let (m, d) = p.split();
    ensure!(m == meta && d == data, "split() changed a part");
    Ok(Class::new(!ops.is_empty())
        .label(repeats, "a part set twice")
        .label(invalid, "invalid UTF-8")
        .label(meta.is_none() || data.is_none(), "a part absent"))
}

fn show(b: Option<&Bytes>) -> Option<String> {
    b.map(|b| brief(b))
}

/// Bytes that are often, but not always, valid UTF-8.
fn texty() -> BoxedStrategy<Blob> {
    prop_oneof![
        2 => "\\PC{0,12}".prop_map(|s| Blob::Lit(s.into_bytes())),
        2 => gen::odd_text().prop_map(|s| Blob::Lit(s.into_bytes())),
        2 => ("\\PC{1,12}", any::<u32>(), gen::byte()).prop_map(|(s, p, v)| {
            let mut b = s.into_bytes();
            let p = p as usize % b.len();
            b[p] = v;
            Blob::Lit(b)
        }),
        1 => ("\\PC{1,12}", any::<u32>()).prop_map(|(s, p)| {
            let mut b = s.into_bytes();
            let p = p as usize % b.len();
            b.truncate(p);
            Blob::Lit(b)
        }),
        2 => gen::blob(70_000),
        // long texts, whole, with one bad byte, or cut anywhere
        3 => (gen::size(5000), "\\PC{1,8}", 0u8..4, any::<u32>(), gen::byte())
            .prop_map(|(n, unit, how, at, v)| {
                let mut b = unit.repeat(n / unit.len() + 1).into_bytes();
                let at = at as usize % b.len();
                match how {
                    0 => b[at] = v,
                    1 => b.insert(at, v | 0x80),
                    2 => b.truncate(n.min(b.len())),
                    _ => {}
                }
                Blob::Lit(b)
            }),
        1 => Just(Blob::Lit(vec![])),
        1 => (gen::size(3000)).prop_map(|n| Blob::Lit(vec![b'x'; n])),
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ErrText {
    data: Option<Blob>,
    sid: u32,
}

fn error_text(c: &ErrText) -> Verdict {
    let data = c.data.as_ref().map(Blob::bytes);
    let f = guard(|| ErrorFrame::new(c.sid, ErrorFrame::MIN_APPLICATION_ERROR_CODE, data.clone()))?;
    ensure!(f.data() == data.as_ref(), "data() is {:?}", show(f.data()));
    let want = data.as_ref().and_then(|b| String::from_utf8(b.to_vec()).ok());
    let got = guard(|| f.data_utf8().map(str::to_string))?;
    ensure!(got == want, "error data as text is {:?} instead of {:?}", got, want);
    Ok(Class::new(data.is_some()).label(want.is_none() && data.is_some(), "invalid UTF-8"))
}

pub fn c26() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c26-payload",
            rule: "one case is one sequence of payload builder calls; \
non-trivial: at least one call",
            quick: 800_000,
            thorough: 20_000_000,
            strategy: || {
                vec(
                    prop_oneof![texty().prop_map(Set::Data), texty().prop_map(Set::Meta)],
                    0..6,
                )
                .boxed()
            },
            check: accessors,
        }),
        sub(Spec {
            name: "c26-error-text",
            rule: "one case is the data of one error frame; non-trivial: \
data present",
            quick: 480_000,
            thorough: 12_000_000,
            strategy: || {
                (prop::option::weighted(0.9, texty()), gen::num32(1, U31))
                    .prop_map(|(data, sid)| ErrText { data, sid })
                    .boxed()
            },
            check: error_text,
        }),
    ]
}

