//! Frames and payloads as values: equality and copies.
use crate::blob::Blob;
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::props::frames::classify;
use crate::spec::*;
use binate::frame::Encode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// A small change to one field.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Tweak {
    /// Flip one bit of one byte of a byte string.
    Bit(u8, u32, u8),
    /// Add a byte at the end of a byte string.
    Longer(u8, u8),
    /// Drop the last byte of a byte string.
    Shorter(u8),
    /// Flip one bit of a number.
    Number(u8, u8),
    /// An empty byte string present or absent.
    Present(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pair {
    a: Fr,
    other: Fr,
    /// Which fields the second frame takes from `other`.
    mask: u16,
    tweak: Option<Tweak>,
    /// How the first frame is used up.
    used: u8,
}

/// Takes the fields the mask selects from `b`.
fn mix(a: &Fr, b: &Fr, mask: u16) -> Fr {
    fn go(a: &mut Value, b: &Value, mask: &mut u16) {
        let (Value::Object(x), Value::Object(y)) = (a, b) else { return };
        for (k, v) in x.iter_mut() {
            let Some(w) = y.get(k) else { continue };
            if k == "pay" {
                go(v, w, mask);
            } else {
                if *mask & 1 != 0 {
                    *v = w.clone();
                }
                *mask >>= 1;
            }
        }
    }
    let mut mask = mask;
    // an error frame's code and stream id belong together
    if let (Fr::Error { sid, code, data }, Fr::Error { sid: s, code: c, data: d }) =
        (a, b)
    {
        let (sid, code) = if mask & 1 != 0 { (*s, *c) } else { (*sid, *code) };
        let data = if mask & 2 != 0 { d } else { data };
        return Fr::Error { sid, code, data: data.clone() };
    }
    let (Ok(mut x), Ok(y)) = (serde_json::to_value(a), serde_json::to_value(b)) else {
        return a.clone();
    };
    if let (Value::Object(x), Value::Object(y)) = (&mut x, &y) {
        for (k, v) in x.iter_mut() {
            if let Some(w) = y.get(k) {
                go(v, w, &mut mask);
            }
        }
    }
    serde_json::from_value(x).unwrap_or_else(|_| a.clone())
}

/// A number and its bounds.
enum Num<'a> {
    W(&'a mut u32, u32, u32),
    L(&'a mut u64, u64),
    H(&'a mut u16),
    F(&'a mut bool),
}

struct Parts<'a> {
    blobs: Vec<&'a mut Blob>,
    opts: Vec<&'a mut Option<Blob>>,
    nums: Vec<Num<'a>>,
    /// Longest byte string the field takes.
    most: usize,
}

fn parts(f: &mut Fr) -> Parts<'_> {
    use Num::*;
    let mut p = Parts { blobs: vec![], opts: vec![], nums: vec![], most: 1 << 20 };
    match f {
        Fr::Setup { lease, resume, token, version, interval, timeout, pay, .. } => {
            p.nums.extend([F(lease), F(resume)]);
            if let Some((a, b)) = version {
                p.nums.extend([H(a), H(b)]);
            }
            if let Some(n) = interval {
                p.nums.push(W(n, 1, U31));
            }
            if let Some(n) = timeout {
                p.nums.push(W(n, 1, U31));
            }
            p.opts.extend([token, &mut pay.meta, &mut pay.data]);
            p.most = 65_535;
        }
        Fr::Error { data, .. } => p.opts.push(data),
        Fr::Lease { ttl, n, meta } => {
            p.nums.extend([W(ttl, 0, U31), W(n, 0, U31)]);
            p.opts.push(meta);
        }
        Fr::Keepalive { respond, pos, data } => {
            p.nums.extend([F(respond), L(pos, U63)]);
            p.opts.push(data);
        }
        Fr::RequestResponse { sid, follows, pay }
        | Fr::RequestFnf { sid, follows, pay } => {
            p.nums.extend([W(sid, 1, U31), F(follows)]);
            p.opts.extend([&mut pay.meta, &mut pay.data]);
        }
        Fr::RequestStream { sid, follows, n, pay } => {
            p.nums.extend([W(sid, 1, U31), F(follows), W(n, 1, U31)]);
            p.opts.extend([&mut pay.meta, &mut pay.data]);
        }
        Fr::RequestChannel { sid, follows, complete, n, pay } => {
            p.nums.extend([W(sid, 1, U31), F(follows), F(complete), W(n, 1, U31)]);
            p.opts.extend([&mut pay.meta, &mut pay.data]);
        }
        Fr::RequestN { sid, n } => {
            p.nums.extend([W(sid, 1, U31), W(n, 1, U31)]);
        }
        Fr::Cancel { sid } => p.nums.push(W(sid, 1, U31)),
        Fr::Payload { sid, pay, .. } => {
            p.nums.push(W(sid, 1, U31));
            p.opts.extend([&mut pay.meta, &mut pay.data]);
        }
        Fr::MetadataPush { meta } => p.blobs.push(meta),
        Fr::Resume { version, token, server_pos, client_pos } => {
            p.nums.extend([
                H(&mut version.0),
                H(&mut version.1),
                L(server_pos, U63),
                L(client_pos, U63),
            ]);
            p.blobs.push(token);
            p.most = 65_535;
        }
        Fr::ResumeOk { pos } => p.nums.push(L(pos, U63)),
    }
    p
}

fn apply(f: &mut Fr, t: Tweak) {
    let mut p = parts(f);
    let most = p.most;
    let which = match t {
        Tweak::Bit(w, ..)
        | Tweak::Longer(w, _)
        | Tweak::Shorter(w)
        | Tweak::Number(w, _)
        | Tweak::Present(w) => w as usize,
    };
    match t {
        Tweak::Number(_, bit) => {
            if p.nums.is_empty() {
                return;
            }
            let k = which % p.nums.len();
            match &mut p.nums[k] {
                Num::W(n, lo, hi) => {
                    let v = **n ^ 1 << (bit % 31);
                    if v >= *lo && v <= *hi {
                        **n = v;
                    }
                }
                Num::L(n, hi) => {
                    let v = **n ^ 1 << (bit % 63);
                    if v <= *hi {
                        **n = v;
                    }
                }
                Num::H(n) => **n ^= 1 << (bit % 16),
                Num::F(b) => **b = !**b,
            }
        }
        Tweak::Present(_) => {
            if !p.opts.is_empty() {
                let k = which % p.opts.len();
                let o = &mut *p.opts[k];
                *o = match o {
                    Some(b) if b.len() == 0 => None,
                    None => Some(Blob::Lit(vec![])),
                    Some(_) => return,
                };
            }
        }
        _ => {
            let mut all: Vec<&mut Blob> = p.blobs;
            all.extend(p.opts.into_iter().filter_map(|o| o.as_mut()));
            if all.is_empty() {
                return;
            }
            let k = which % all.len();
            let mut v = all[k].bytes().to_vec();
            match t {
                Tweak::Bit(_, at, bit) if !v.is_empty() => {
                    let at = at as usize % v.len();
                    v[at] ^= 1 << (bit % 8);
                }
                Tweak::Longer(_, x) if v.len() < most => v.push(x),
                Tweak::Shorter(_) => {
                    v.pop();
                }
                _ => (),
            }
            *all[k] = Blob::Lit(v);
        }
    }
}

fn values(c: &Pair) -> Verdict {
    let mut b = mix(&c.a, &c.other, c.mask);
    if let Some(t) = c.tweak {
        apply(&mut b, t);
    }
    let (x, y) = (guard(|| c.a.build())?, guard(|| b.build())?);
    let (ox, oy) = (observe(&x)?, observe(&y)?);
    let (bx, by) = (guard(|| x.to_bytes())?, guard(|| y.to_bytes())?);
    let equal = guard(|| x == y)?;
    ensure!(
        equal == guard(|| y == x)? && equal != guard(|| x != y)?,
        "comparing {:?} and {:?} depends on the order",
        ox,
        oy
    );
    if equal {
        if let Some(d) = ox.diff(&oy) {
            return Err(format!("{:?} and {:?} compare equal: {}", ox, oy, d));
        }
        ensure!(bx == by, "{:?} and {:?} compare equal but encode differently", ox, oy);
    }
    let same = c.a == b;
    ensure!(
        equal || !same,
        "two frames built from the same arguments differ: {:?}",
        ox
    );
    // a copy, and the copy once the original is used up
    let copy = guard(|| x.clone())?;
    ensure!(x == copy && copy == x, "a copy of {:?} differs from it", ox);
    use binate::frame::Frame::*;
    guard(|| match (c.used % 3, x) {
        (0, x) => drop(x),
        (1, x) => drop(x.to_bytes()),
        (_, RequestResponse(v)) => drop(v.payload().chunks(3).collect::<Vec<_>>()),
        (_, RequestFnf(v)) => drop(v.payload().split()),
        (_, RequestStream(v)) => drop(v.payload().split()),
        (_, RequestChannel(v)) => drop(v.payload().chunks(1).collect::<Vec<_>>()),
        (_, Payload(v)) => drop(v.payload().split()),
        (_, x) => drop(x),
    })?;
    let oc = observe(&copy)?;
    if let Some(d) = ox.diff(&oc) {
        return Err(format!("a copy of {:?} is {:?}: {}", ox, oc, d));
    }
    ensure!(guard(|| copy.to_bytes())? == bx, "a copy of {:?} encodes differently", ox);
    let again = guard(|| c.a.build())?;
    ensure!(copy == again, "a copy of {:?} differs from an equal frame", ox);
    ensure!(
        (copy == y) == equal,
        "a copy of {:?} compares differently with {:?}",
        ox,
        oy
    );
    Ok(classify(&c.a, true)
        .label(equal, "equal")
        .label(!equal, "different")
        .label(!equal && bx.len() == by.len(), "different, same length"))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Payloads {
    a: Pay,
    b: Pay,
    /// Take this part of `b` from `a`.
    share: u8,
    tweak: Option<Tweak>,
}

fn payloads(c: &Payloads) -> Verdict {
    let mut b = c.b.clone();
    if c.share & 1 != 0 {
        b.meta = c.a.meta.clone();
    }
    if c.share & 2 != 0 {
        b.data = c.a.data.clone();
    }
    if let Some(t) = c.tweak {
        let mut f = Fr::RequestFnf { sid: 1, follows: false, pay: b };
        apply(&mut f, t);
        let Fr::RequestFnf { pay, .. } = f else { unreachable!() };
        b = pay;
    }
    let (x, y) = (guard(|| c.a.build())?, guard(|| b.build())?);
    // present but empty is not the same as absent
    let part = |p: &Option<Blob>| p.as_ref().map(|b| b.bytes());
    let want = part(&c.a.meta) == part(&b.meta) && part(&c.a.data) == part(&b.data);
    let got = guard(|| x == y)?;
    ensure!(
        got == want && guard(|| y == x)? == want && guard(|| x != y)? != want,
        "payloads {:?} and {:?} compare {}",
        c.a,
        b,
        if got { "equal" } else { "different" }
    );
    let copy = guard(|| x.clone())?;
    ensure!(copy == x, "a copy of {:?} differs from it", c.a);
    let parts = guard(|| x.split())?;
    ensure!(
        parts == (part(&c.a.meta), part(&c.a.data)),
        "splitting {:?} changed it",
        c.a
    );
    ensure!(
        (copy.metadata().cloned(), copy.data().cloned()) == parts,
        "a copy of {:?} changed with the original",
        c.a
    );
    Ok(Class::new(c.a.meta.is_some() || c.a.data.is_some())
        .label(want, "equal")
        .label(!want, "different"))
}

fn tweak() -> BoxedStrategy<Option<Tweak>> {
    prop_oneof![
        2 => Just(None),
        3 => (any::<u8>(), gen::position(), 0u8..8)
            .prop_map(|(w, p, b)| Some(Tweak::Bit(w, p, b))),
        1 => (any::<u8>(), gen::byte()).prop_map(|(w, b)| Some(Tweak::Longer(w, b))),
        1 => any::<u8>().prop_map(|w| Some(Tweak::Shorter(w))),
        3 => (any::<u8>(), 0u8..64).prop_map(|(w, b)| Some(Tweak::Number(w, b))),
        1 => any::<u8>().prop_map(|w| Some(Tweak::Present(w))),
    ]
    .boxed()
}

pub fn c28() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c28-frames",
            rule: "one case is a frame, another of the same kind, the fields \
the second takes over from the first and a small change to one field; \
non-trivial: every case",
            quick: 640_000,
            thorough: 16_000_000,
            strategy: || {
                (
                    prop_oneof![5 => gen::frame_pair(40), 1 => gen::frame_pair(2000)],
                    prop_oneof![
                        3 => Just(0u16),
                        2 => (0u32..14).prop_map(|b| 1 << b),
                        1 => any::<u16>(),
                    ],
                    tweak(),
                    any::<u8>(),
                )
                    .prop_map(|((a, other), mask, tweak, used)| Pair {
                        a,
                        other,
                        mask,
                        tweak,
                        used,
                    })
                    .boxed()
            },
            check: values,
        }),
        sub(Spec {
            name: "c28-payloads",
            rule: "one case is two payloads, the parts they share and a small \
change to one part; non-trivial: the first has a part",
            quick: 640_000,
            thorough: 16_000_000,
            strategy: || {
                (gen::small_pay(60), gen::small_pay(60), 0u8..4, tweak())
                    .prop_map(|(a, b, share, tweak)| Payloads { a, b, share, tweak })
                    .boxed()
            },
            check: payloads,
        }),
    ]
}
