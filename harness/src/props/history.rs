//! What came before, and what happens elsewhere, changes no answer.
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::hooks;
use crate::spec::*;
use binate::frame::{Encode, Frame};
use binate::mimetype::WellKnownMimeType;
use bytes::{Bytes, BytesMut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ask {
    /// Decode these bytes.
    Decode(gen::Wire),
    /// Build this frame and encode it.
    Encode(Fr),
    /// Split this payload.
    Split(Pay, u16),
    /// Look up a MIME type.
    Mime(String),
    /// Reassemble a payload from these pieces.
    Join(Vec<gen::Wire>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Asks {
    asks: Vec<Ask>,
    /// The order in which they are asked again.
    order: Vec<u8>,
    threads: bool,
}

/// The answer, and the frame it is about.
fn answer(a: &Ask, out: &mut BytesMut) -> (String, Option<Frame>) {
    let at = out.len();
    let said = |f: &Frame| observe(f).map(|o| format!("{:?}", o));
    match a {
        Ask::Decode(w) => {
            let mut b = Bytes::from(w.bytes());
            let n = b.len();
            match guard(|| Frame::decode(&mut b)) {
                Ok(Ok(f)) => (format!("{:?}, {} bytes used", said(&f), n - b.len()), Some(f)),
                // crashing is C03's matter
                r => (format!("{:?}", r), None),
            }
        }
        Ask::Encode(f) => match guard(|| {
            let f = f.build();
            f.encode(out);
            f
        }) {
            Ok(f) => {
                let s = format!("{:?} as {}", said(&f), crate::blob::to_hex(&out[at..]));
                (s, Some(f))
            }
            Err(e) => (e, None),
        },
        Ask::Split(p, n) => {
            let r = guard(|| {
                let mut chunks = p.build().chunks(*n as usize + 1);
                let mut said = vec![format!("{} pieces", chunks.len())];
                while let Some(c) = chunks.next() {
                    said.push(format!("{:?}, {} to come", c, chunks.len()));
                }
                said
            });
            (format!("{:?}", r), None)
        }
        Ask::Join(_) if !hooks::HOOKS => (String::new(), None),
        Ask::Join(pieces) => {
            let r = guard(|| {
                let mut list = hooks::Buffers::new();
                for b in pieces.iter().map(|p| p.bytes()).filter(|b| !b.is_empty()) {
                    list.push(Bytes::from(b));
                }
                list.reassemble()
            });
            (format!("{:?}", r), None)
        }
        Ask::Mime(s) => {
            let t = guard(|| WellKnownMimeType::from(s.as_str()));
            let name = t.clone().map(<&'static str>::from);
            (format!("{:?} {:?}", t, name), None)
        }
    }
}

fn round(asks: &[Ask], order: impl Iterator<Item = usize>) -> Vec<(usize, String)> {
    let mut out = BytesMut::new();
    order.map(|i| (i, answer(&asks[i], &mut out).0)).collect()
}

fn history(c: &Asks) -> Verdict {
    let n = c.asks.len();
    let mut out = BytesMut::new();
    let first: Vec<(String, Option<Frame>)> =
        c.asks.iter().map(|a| answer(a, &mut out)).collect();
    let same = |when: &str, got: Vec<(usize, String)>| {
        for (i, s) in got {
            ensure!(
                s == first[i].0,
                "{:?} gave {} at first and {} {}",
                c.asks[i],
                first[i].0,
                s,
                when
            );
        }
        Ok(())
    };
    let order: Vec<usize> = c.order.iter().map(|&k| k as usize % n.max(1)).collect();
    let order = if n == 0 { vec![] } else { order };
    if c.threads {
        let go = std::sync::Barrier::new(3);
        let (go, asks, order) = (&go, &c.asks[..], &order);
        let all = std::thread::scope(|s| {
            let a = s.spawn(move || {
                go.wait();
                round(asks, 0..n)
            });
            let b = s.spawn(move || {
                go.wait();
                round(asks, (0..n).rev())
            });
            go.wait();
            let mut all = round(asks, order.iter().copied());
            for t in [a, b] {
                all.extend(t.join().expect("panics are caught inside"));
            }
            all
        });
        same("with other threads at work", all)?;
    } else {
        same("the other way round", round(&c.asks, (0..n).rev()))?;
        same("in another order", round(&c.asks, order.into_iter()))?;
    }
    // all bytes in one receive buffer, which is then used again
    let mut buf = BytesMut::new();
    let mut ends = vec![];
    for a in &c.asks {
        if let Ask::Decode(w) = a {
            buf.extend_from_slice(&w.bytes());
        }
        ends.push(buf.len());
    }
    let mut from = 0;
    let mut kept = vec![];
    for (i, a) in c.asks.iter().enumerate() {
        let mut part = buf.split_to(ends[i] - from);
        from = ends[i];
        if let (Ask::Decode(_), Some(f)) = (a, &first[i].1) {
            let g = guard(|| Frame::decode(&mut part));
            ensure!(
                matches!(&g, Ok(Ok(g)) if g == f),
                "{:?} gave {} at first and {:?} in a shared buffer",
                a,
                first[i].0,
                g
            );
            kept.push((i, g.unwrap().unwrap()));
        }
        part.reserve(1);
        part.clear();
        part.resize(part.capacity(), 0xa5);
    }
    // the same in a plain array
    let mut array: Vec<u8> = Vec::with_capacity(*ends.last().unwrap_or(&0));
    for (i, a) in c.asks.iter().enumerate() {
        if let (Ask::Decode(w), Some(f)) = (a, &first[i].1) {
            let at = array.len();
            array.extend_from_slice(&w.bytes());
            let g = guard(|| Frame::decode(&mut &array[at..]));
            ensure!(
                matches!(&g, Ok(Ok(g)) if g == f),
                "{:?} gave {} at first and {:?} in an array",
                a,
                first[i].0,
                g
            );
            kept.push((i, g.unwrap().unwrap()));
        }
    }
    array.fill(0xa5);
    buf.reserve(64);
    buf.resize(buf.capacity(), 0x5a);
    drop(buf);
    // what was kept says the same as before
    for (i, g) in kept {
        let f = first[i].1.as_ref().unwrap();
        let (now, then) = (guard(|| observe(&g))??, observe(f)?);
        ensure!(
            now == then && guard(|| g.to_bytes())? == guard(|| f.to_bytes())?,
            "{:?} decoded to {:?}, and to {:?} once its buffer was used again",
            c.asks[i],
            then,
            now
        );
    }
    let frames = first.iter().filter(|f| f.1.is_some()).count();
    Ok(Class::new(n > 1 && frames > 0)
        .label(frames > 1, "more than one frame")
        .label(c.threads, "three threads")
        .label(n > 8, "more than 8 questions"))
}

/// Mostly fragments.
fn piece() -> BoxedStrategy<gen::Wire> {
    let fragment = (any::<bool>(), gen::small_pay(40)).prop_map(|(fnf, pay)| {
        let f = match fnf {
            true => Fr::RequestFnf { sid: 1, follows: true, pay },
            false => Fr::Payload { sid: 1, flags: 0, pay },
        };
        gen::Wire { base: gen::Base::Valid(f), muts: vec![] }
    });
    prop_oneof![3 => fragment, 1 => gen::wire(40)].boxed()
}

fn ask() -> BoxedStrategy<Ask> {
    prop_oneof![
        9 => gen::wire(200).prop_map(Ask::Decode),
        1 => gen::wire(20_000).prop_map(Ask::Decode),
        7 => gen::small_frame(100).prop_map(Ask::Encode),
        1 => gen::small_frame(20_000).prop_map(Ask::Encode),
        2 => (gen::small_pay(100), gen::num(0, 120))
            .prop_map(|(p, n)| Ask::Split(p, n as u16)),
        2 => proptest::collection::vec(piece(), 1..5).prop_map(Ask::Join),
        2 => prop_oneof![gen::ascii(20), crate::props::misc::near_miss()]
            .prop_map(Ask::Mime),
    ]
    .boxed()
}

/// Questions, some of them again with a small change.
fn asks() -> BoxedStrategy<Vec<Ask>> {
    let again = proptest::collection::vec((any::<u8>(), 0u8..6, gen::position(), gen::byte()), 0..6);
    (proptest::collection::vec(ask(), 0..8), again)
        .prop_map(|(mut v, again)| {
            for (k, how, p, x) in again {
                if v.is_empty() {
                    break;
                }
                let mut a = v[k as usize % v.len()].clone();
                if let Ask::Encode(f) = &a {
                    if how != 1 {
                        a = Ask::Decode(gen::Wire { base: gen::Base::Valid(f.clone()), muts: vec![] });
                    }
                }
                if let Ask::Decode(w) = &mut a {
                    match how {
                        0 | 1 => (),
                        2 | 3 => w.muts.push(gen::Mut::SetByte(p, x)),
                        // the same length and the same bytes
                        _ => w.muts.push(gen::Mut::Swap(p, x % 5 + 1)),
                    }
                }
                if let Ask::Join(w) = &mut a {
                    if let Some(w) = w.last_mut().filter(|_| how > 1) {
                        w.muts.push(gen::Mut::SetByte(p, x));
                    }
                }
                v.push(a);
            }
            v
        })
        .boxed()
}

pub fn c29() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c29-order",
            rule: "one case is up to 14 things to decode, encode, split, \
reassemble or look up, some nearly the same, asked in order, in reverse, in another order \
and from one shared buffer; non-trivial: at least two, and one is a frame",
            quick: 320_000,
            thorough: 8_000_000,
            strategy: || {
                (asks(), proptest::collection::vec(any::<u8>(), 0..16))
                    .prop_map(|(asks, order)| Asks { asks, order, threads: false })
                    .boxed()
            },
            check: history,
        }),
        sub(Spec {
            name: "c29-threads",
            rule: "as c29-order, asked by three threads at once",
            quick: 32_000,
            thorough: 800_000,
            strategy: || {
                (asks(), proptest::collection::vec(any::<u8>(), 0..30))
                    .prop_map(|(asks, order)| Asks { asks, order, threads: true })
                    .boxed()
            },
            check: history,
        }),
    ]
}
