//! Constructed frames: round trip, layout, length, re-encoding, builder and
//! out-of-range arguments.
use crate::blob::{brief, Blob};
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::spec::*;
use binate::frame::codec::SetupFrame;
use binate::frame::{Encode, Frame};
use bytes::{Buf, Bytes, BytesMut};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn kind_label(k: u8) -> &'static str {
    match k {
        SETUP => "SETUP",
        LEASE => "LEASE",
        KEEPALIVE => "KEEPALIVE",
        REQUEST_RESPONSE => "REQUEST_RESPONSE",
        REQUEST_FNF => "REQUEST_FNF",
        REQUEST_STREAM => "REQUEST_STREAM",
        REQUEST_CHANNEL => "REQUEST_CHANNEL",
        REQUEST_N => "REQUEST_N",
        CANCEL => "CANCEL",
        PAYLOAD => "PAYLOAD",
        ERROR => "ERROR",
        METADATA_PUSH => "METADATA_PUSH",
        RESUME => "RESUME",
        RESUME_OK => "RESUME_OK",
        0x3f => "EXT",
        _ => "unassigned type",
    }
}

pub fn classify(f: &Fr, nontrivial: bool) -> Class {
    let v = f.volume();
    Class::new(nontrivial)
        .label(true, kind_label(f.kind()))
        .label(v > 255, "more than 255 bytes of content")
        .label(v > 65_535, "more than 65535 bytes of content")
        .label(f.zero_part(), "optional part present but empty")
}

/// Decodes and checks that nothing is left.
pub fn decode_all(b: &Bytes) -> Result<Frame, String> {
    let mut c = b.clone();
    let f = guard(|| Frame::decode(&mut c))?
        .map_err(|e| format!("decoding {} failed: {}", brief(b), e))?;
    ensure!(
        !c.has_remaining(),
        "{} bytes left after decoding {}",
        c.remaining(),
        brief(b)
    );
    Ok(f)
}

fn same(want: &Obs, got: &Frame, what: &str) -> Result<(), String> {
    match want.diff(&observe(got)?) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what, d)),
    }
}

fn round_trip(f: &Fr) -> Verdict {
    let want = f.expected();
    let built = guard(|| f.build())?;
    same(&want, &built, "constructed frame")?;
    let wire = guard(|| built.to_bytes())?;
    let back = decode_all(&wire)?;
    same(&want, &back, "decoded frame")?;
    if !f.zero_part() {
        ensure!(
            back == built,
            "decoded frame is not equal to the original (bytes {})",
            brief(&wire)
        );
    }
    Ok(classify(f, f.volume() > 0 || matches!(f, Fr::RequestN { .. } | Fr::Cancel { .. } | Fr::ResumeOk { .. })))
}

const RULE_FRAME: &str = "one case is one frame of a random kind with \
random in-range constructor arguments (sizes log-uniform with the 8-, 16- and \
24-bit boundaries); non-trivial: it has at least one non-empty variable part, \
or its kind has none";

pub fn c01() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c01-round-trip",
        rule: RULE_FRAME,
        quick: 960_000,
        thorough: 24_000_000,
        strategy: gen::frame,
        check: round_trip,
    })]
}

fn layout(f: &Fr) -> Verdict {
    let wire = guard(|| f.build().to_bytes())?;
    let want = f.wire(false);
    if wire != want && !(f.zero_part() && wire == f.wire(true)) {
        let at = wire
            .iter()
            .zip(&want)
            .position(|(a, b)| a != b)
            .unwrap_or(wire.len().min(want.len()));
        return Err(format!(
            "encoded bytes differ from the protocol layout at offset {}: \
             {} instead of {}",
            at,
            brief(&wire[at.saturating_sub(6).min(wire.len())..]),
            brief(&want[at.saturating_sub(6).min(want.len())..])
        ));
    }
    Ok(classify(f, f.volume() > 0 || matches!(f, Fr::RequestN { .. } | Fr::Cancel { .. } | Fr::ResumeOk { .. })))
}

pub fn c02() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c02-layout",
        rule: RULE_FRAME,
        quick: 960_000,
        thorough: 24_000_000,
        strategy: gen::frame,
        check: layout,
    })]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct LenCase {
    frame: Fr,
    /// What is already in the output buffer, and its spare capacity.
    prefix: Blob,
    spare: u32,
}

fn measure(f: &Frame, prefix: &[u8], spare: usize) -> Result<usize, String> {
    let len = guard(|| Encode::len(f))?;
    let mut out = BytesMut::with_capacity(prefix.len() + spare);
    out.extend_from_slice(prefix);
    guard(|| f.encode(&mut out))?;
    ensure!(
        out.len() >= prefix.len() && out[..prefix.len()] == *prefix,
        "encoding changed bytes that were already in the buffer"
    );
    let body = out.split_off(prefix.len()).freeze();
    ensure!(
        body.len() == len,
        "announced length {} but {} bytes were appended ({})",
        len,
        body.len(),
        brief(&body)
    );
    let whole = guard(|| f.to_bytes())?;
    ensure!(
        whole == body,
        "to_bytes and encode differ: {} and {}",
        brief(&whole),
        brief(&body)
    );
    let mut again = BytesMut::new();
    guard(|| f.encode(&mut again))?;
    ensure!(
        again == body[..],
        "encoding again gives different bytes: {} and {}",
        brief(&again),
        brief(&body)
    );
    ensure!(f.is_empty() == (len == 0), "is_empty disagrees with the length");
    // the same asked of the frame's own type
    let (own_len, own, appended, empty) = guard(|| {
        let mut out = BytesMut::from(prefix);
        crate::each_kind!(f, v => {
            v.encode(&mut out);
            (Encode::len(v), v.to_bytes(), out, Encode::is_empty(v))
        })
    })?;
    ensure!(
        own_len == len
            && own == body
            && appended.starts_with(prefix)
            && appended[prefix.len()..] == body
            && empty == (len == 0),
        "by its own type the frame announces {} bytes instead of {}, encodes \
to {} and appends {}",
        own_len,
        len,
        brief(&own),
        brief(&appended[prefix.len().min(appended.len())..])
    );
    Ok(len)
}

fn c06_built(c: &LenCase) -> Verdict {
    let f = guard(|| c.frame.build())?;
    let prefix = c.prefix.bytes();
    measure(&f, &prefix, c.spare as usize)?;
    // The payload is encodable on its own.
    if let Frame::Payload(v) = &f {
        let p = v.clone().payload();
        let len = Encode::len(&p);
        let b = p.to_bytes();
        ensure!(
            b.len() == len && len == p.len(),
            "payload announces {} / {} bytes, encodes to {}",
            len,
            p.len(),
            b.len()
        );
    }
    Ok(classify(&c.frame, c.frame.volume() > 0 || c.prefix.len() > 0)
        .label(c.prefix.len() > 0, "appended to existing bytes"))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct LenDecoded {
    wire: gen::Wire,
    prefix: Blob,
    spare: u32,
}

fn c06_decoded(c: &LenDecoded) -> Verdict {
    let b = Bytes::from(c.wire.bytes());
    match guard(|| Frame::decode(&mut b.clone())) {
        Ok(Ok(f)) => {
            measure(&f, &c.prefix.bytes(), c.spare as usize)?;
            Ok(Class::new(true)
                .label(true, "decoded and measured")
                .label(!matches!(ref_decode(&b), Ref::Accept(a) if a.canonical), "non-canonical bytes"))
        }
        // whether rejecting (or crashing) is right is C03's and C05's matter
        _ => Ok(Class::new(false).label(true, "not a frame")),
    }
}

pub fn c06() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c06-constructed",
            rule: "one case is one constructed frame and an output buffer \
with prior content; non-trivial: a non-empty variable part or prior content",
            quick: 800_000,
            thorough: 20_000_000,
            strategy: || {
                (
                    gen::frame(),
                    prop_oneof![2 => gen::blob(40), 1 => gen::blob(5000)],
                    0u32..200,
                )
                    .prop_map(|(frame, prefix, spare)| LenCase { frame, prefix, spare })
                    .boxed()
            },
            check: c06_built,
        }),
        sub(Spec {
            name: "c06-decoded",
            rule: "one case is one byte string (valid, mutated or random) \
and an output buffer; non-trivial: it decodes to a frame, which is measured",
            quick: 1_280_000,
            thorough: 32_000_000,
            strategy: || {
                (gen::wire(3000), gen::blob(20), 0u32..64)
                    .prop_map(|(wire, prefix, spare)| LenDecoded { wire, prefix, spare })
                    .boxed()
            },
            check: c06_decoded,
        }),
    ]
}

fn reencode(w: &gen::Wire) -> Verdict {
    let b = Bytes::from(w.bytes());
    let mut c = b.clone();
    let f = match guard(|| Frame::decode(&mut c)) {
        Ok(Ok(f)) => f,
        _ => return Ok(Class::new(false).label(true, "not a frame")),
    };
    let one = guard(|| f.to_bytes())?;
    let g = decode_all(&one).map_err(|e| format!("re-encoded frame: {}", e))?;
    ensure!(
        f == g,
        "re-encoding changed the frame: {:?} became {:?}",
        observe(&f)?,
        observe(&g)?
    );
    let (fo, go) = (observe(&f)?, observe(&g)?);
    ensure!(fo == go, "re-encoding changed the frame: {:?} became {:?}", fo, go);
    let two = guard(|| g.to_bytes())?;
    ensure!(
        one == two,
        "encoding is not stable: {} then {}",
        brief(&one),
        brief(&two)
    );
    let canonical = matches!(ref_decode(&b), Ref::Accept(a) if a.canonical);
    if canonical {
        ensure!(
            one == b,
            "canonical bytes changed: {} became {}",
            brief(&b),
            brief(&one)
        );
    }
    Ok(Class::new(true)
        .label(canonical, "canonical")
        .label(!canonical, "non-canonical")
        .label(true, kind_label(fo.kind)))
}

pub fn c08() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c08-reencode",
        rule: "one case is one byte string (valid, mutated or random); \
non-trivial: it decodes to a frame, which is then re-encoded",
        quick: 1_920_000,
        thorough: 48_000_000,
        strategy: || gen::wire(70_000),
        check: reencode,
    })]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    ResumeFlag,
    LeaseFlag,
    Version(u16, u16),
    Interval(u32),
    Timeout(u32),
    Token(Blob),
    MetaMime(String),
    DataMime(String),
    Meta(Blob),
    Data(Blob),
}

fn builder(ops: &Vec<Op>) -> Verdict {
    let mut b = SetupFrame::builder();
    // The model: the last value of each parameter.
    let (mut resume, mut lease, mut version) = (false, false, None);
    let (mut interval, mut timeout, mut token) = (None, None, None);
    let (mut meta_mime, mut data_mime) = (None, None);
    let mut pay = Pay { meta: None, data: None };
    let mut repeats = false;
    for op in ops {
        let misfit = match op {
            Op::Token(t) => t.len() > 65_535,
            Op::MetaMime(s) | Op::DataMime(s) => s.len() > 255,
            _ => false,
        };
        let next = guard(|| match op.clone() {
            Op::ResumeFlag => b.set_resume_flag(),
            Op::LeaseFlag => b.set_lease_flag(),
            Op::Version(x, y) => b.set_version(x, y),
            Op::Interval(x) => b.set_keepalive_interval(x),
            Op::Timeout(x) => b.set_keepalive_timeout(x),
            Op::Token(t) => b.set_resume_token(t.bytes()),
            Op::MetaMime(s) => b.set_metadata_mimetype(s),
            Op::DataMime(s) => b.set_data_mimetype(s),
            Op::Meta(m) => b.set_metadata(m.bytes()),
            Op::Data(d) => b.set_data(d.bytes()),
        });
        match (misfit, next) {
            (true, Err(_)) => {
                // refused; the builder is gone, and so is the case
                return Ok(Class::new(true).label(true, "value refused"));
            }
            (true, Ok(_)) => {
                return Err(format!(
                    "a value that does not fit the wire was accepted: {}",
                    crate::engine::short(format!("{:?}", op), 80)
                ));
            }
            (false, Err(e)) => {
                return Err(format!(
                    "a valid builder call failed: {} ({})",
                    crate::engine::short(format!("{:?}", op), 80),
                    e
                ));
            }
            (false, Ok(n)) => b = n,
        }
        let seen = match op.clone() {
            Op::ResumeFlag => std::mem::replace(&mut resume, true),
            Op::LeaseFlag => std::mem::replace(&mut lease, true),
            Op::Version(x, y) => version.replace((x, y)).is_some(),
            Op::Interval(x) => interval.replace(x).is_some(),
            Op::Timeout(x) => timeout.replace(x).is_some(),
            Op::Token(t) => token.replace(t).is_some(),
            Op::MetaMime(s) => meta_mime.replace(s).is_some(),
            Op::DataMime(s) => data_mime.replace(s).is_some(),
            Op::Meta(m) => pay.meta.replace(m).is_some(),
            Op::Data(d) => pay.data.replace(d).is_some(),
        };
        repeats |= seen;
    }
    let model = Fr::Setup {
        lease,
        resume,
        token,
        version,
        interval,
        timeout,
        meta_mime,
        data_mime,
        pay,
    };
    let frame = guard(|| Frame::Setup(b.build()))?;
    if let Frame::Setup(s) = &frame {
        ensure!(
            s.resume_token().is_some() == s.is_resume(),
            "resume token present: {}, resume requested: {}",
            s.resume_token().is_some(),
            s.is_resume()
        );
    }
    let want = model.expected();
    same(&want, &frame, "built frame")?;
    let wire = guard(|| frame.to_bytes())?;
    let back = decode_all(&wire)?;
    same(&want, &back, "frame at the peer")?;
    // Strings outside ASCII are hidden by the accessors: compare the frames.
    if !model.zero_part() {
        ensure!(back == frame, "the peer's frame is not equal to the built one");
    }
    Ok(Class::new(!ops.is_empty())
        .label(repeats, "a parameter set twice")
        .label(ops.is_empty(), "all defaults")
        .label(model.volume() > 255, "more than 255 bytes of content"))
}

fn mime_string() -> BoxedStrategy<String> {
    prop_oneof![
        4 => gen::ascii(255),
        2 => prop::sample::select(vec![254usize, 255, 256, 257, 300, 511, 512, 600])
            .prop_map(|n| "m".repeat(n)),
        2 => (1usize..90, prop::sample::select(vec!["é", "日", "😀", "x\u{80}"]))
            .prop_map(|(n, s)| s.repeat(n)),
        1 => "\\PC{0,20}",
        1 => gen::odd_text(),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => Just(Op::ResumeFlag),
        1 => Just(Op::LeaseFlag),
        1 => gen::version().prop_map(|(a, b)| Op::Version(a, b)),
        1 => gen::num32(1, U31).prop_map(Op::Interval),
        1 => gen::num32(1, U31).prop_map(Op::Timeout),
        2 => prop_oneof![
            6 => gen::blob(65_535),
            1 => (0u32..64, prop::sample::select(vec![65_534u32, 65_535, 65_536, 65_537, 131_072]))
                .prop_map(|(seed, len)| Blob::Pat { seed, len }),
        ].prop_map(Op::Token),
        2 => mime_string().prop_map(Op::MetaMime),
        2 => mime_string().prop_map(Op::DataMime),
        1 => gen::blob(70_000).prop_map(Op::Meta),
        1 => gen::blob(70_000).prop_map(Op::Data),
    ]
    .boxed()
}

pub fn c22() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c22-builder",
        rule: "one case is one sequence of setup builder calls; non-trivial: \
at least one call",
        quick: 640_000,
        thorough: 16_000_000,
        strategy: || vec(op(), 0..12).boxed(),
        check: builder,
    })]
}

/// Any argument of the type, in or out of range.
fn wild_frame() -> BoxedStrategy<Fr> {
    let w32 = || gen::num32(0, u32::MAX);
    let w64 = || gen::num(0, u64::MAX);
    let token = || {
        prop_oneof![
            3 => gen::blob(300),
            2 => (0u32..64, prop::sample::select(vec![
                65_535u32, 65_536, 65_537, 65_600, 65_791, 131_071, 131_072, 200_000,
            ])).prop_map(|(seed, len)| Blob::Pat { seed, len }),
        ]
    };
    let mime = || {
        prop_oneof![
            6 => Just(None),
            1 => gen::ascii(300).prop_map(Some),
            1 => prop_oneof![200usize..300, 500usize..530, 65_530usize..65_800]
                .prop_map(|n| Some("m".repeat(n))),
        ]
    };
    let p = || {
        prop_oneof![
            40 => gen::small_pay(300),
            1 => (gen::opt_blob(300), prop::sample::select(vec![
                (1u32 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 300,
            ])).prop_map(|(data, len)| Pay {
                meta: Some(Blob::Pat { seed: 1, len }),
                data,
            }),
        ]
    };
    prop_oneof![
        2 => (w32(), w32(), gen::opt_blob(20))
            .prop_map(|(sid, code, data)| Fr::Error { sid, code, data }),
        2 => (w32(), w32(), gen::opt_blob(20))
            .prop_map(|(ttl, n, meta)| Fr::Lease { ttl, n, meta }),
        2 => (any::<bool>(), w64(), gen::opt_blob(20))
            .prop_map(|(respond, pos, data)| Fr::Keepalive { respond, pos, data }),
        1 => (w32(), any::<bool>(), p())
            .prop_map(|(sid, follows, pay)| Fr::RequestResponse { sid, follows, pay }),
        1 => (w32(), any::<bool>(), p())
            .prop_map(|(sid, follows, pay)| Fr::RequestFnf { sid, follows, pay }),
        1 => (w32(), any::<bool>(), w32(), p())
            .prop_map(|(sid, follows, n, pay)| Fr::RequestStream { sid, follows, n, pay }),
        1 => (w32(), any::<bool>(), any::<bool>(), w32(), p())
            .prop_map(|(sid, follows, complete, n, pay)| {
                Fr::RequestChannel { sid, follows, complete, n, pay }
            }),
        1 => (w32(), w32()).prop_map(|(sid, n)| Fr::RequestN { sid, n }),
        1 => w32().prop_map(|sid| Fr::Cancel { sid }),
        1 => (w32(), 0u8..32, p())
            .prop_map(|(sid, flags, pay)| Fr::Payload { sid, flags, pay }),
        2 => (gen::version(), token(), w64(), w64()).prop_map(
            |(version, token, server_pos, client_pos)| Fr::Resume {
                version,
                token,
                server_pos,
                client_pos
            }
        ),
        1 => w64().prop_map(|pos| Fr::ResumeOk { pos }),
        2 => (w32(), w32(), prop::option::of(token()), p(), mime(), mime()).prop_map(
            |(a, b, token, pay, meta_mime, data_mime)| Fr::Setup {
                lease: a & 1 != 0,
                resume: false,
                token,
                version: None,
                interval: Some(a),
                timeout: Some(b),
                meta_mime,
                data_mime,
                pay,
            }
        ),
    ]
    .boxed()
}

/// Arguments within their documented ranges (zero counts as out of range
/// where the documentation says so).
fn in_range(f: &Fr) -> bool {
    let z = match f {
        Fr::RequestStream { n, .. }
        | Fr::RequestChannel { n, .. }
        | Fr::RequestN { n, .. } => *n != 0,
        Fr::Setup { interval, timeout, token, meta_mime, data_mime, .. } => {
            [meta_mime, data_mime].iter().all(|m| mime_fits(m))
                && *interval != Some(0)
                && *timeout != Some(0)
                && token.as_ref().map_or(true, |t| t.len() <= 65_535)
        }
        Fr::Resume { token, .. } => token.len() <= 65_535,
        Fr::Error { sid, code, .. } => {
            !(*sid != 0 && CONNECTION_CODES.contains(code)
                || *sid == 0 && STREAM_CODES.contains(code))
        }
        _ => true,
    };
    z && *f == f.masked()
}

fn mime_fits(m: &Option<String>) -> bool {
    m.as_ref().map_or(true, |m| m.len() <= 255)
}

/// Lengths the wire cannot carry at all.
fn unencodable(f: &Fr) -> bool {
    let meta = match f {
        Fr::Setup { pay, .. }
        | Fr::RequestResponse { pay, .. }
        | Fr::RequestFnf { pay, .. }
        | Fr::RequestStream { pay, .. }
        | Fr::RequestChannel { pay, .. }
        | Fr::Payload { pay, .. } => pay.meta.as_ref().map(Blob::len),
        _ => None,
    };
    let token = match f {
        Fr::Setup { token, .. } => token.as_ref().map(Blob::len),
        Fr::Resume { token, .. } => Some(token.len()),
        _ => None,
    };
    let mimes = match f {
        Fr::Setup { meta_mime, data_mime, .. } => {
            mime_fits(meta_mime) && mime_fits(data_mime)
        }
        _ => true,
    };
    !mimes
        || meta.map_or(false, |n| n > MAX_META)
        || token.map_or(false, |n| n > 65_535)
}

fn out_of_range(f: &Fr) -> Verdict {
    let ok = in_range(f) && !unencodable(f);
    let class = Class::new(!ok)
        .label(ok, "all arguments in range")
        .label(true, kind_label(f.kind()));
    // Refusing is right exactly when an argument is out of range; an
    // over-long metadata part may also be refused when it is encoded.
    let built = match guard(|| {
        let v = f.build();
        let b = v.to_bytes();
        (v, b)
    }) {
        Ok(x) => x,
        Err(e) if ok => {
            return Err(format!("in-range arguments were refused: {}", e))
        }
        Err(_) => return Ok(class.label(true, "refused")),
    };
    let (frame, wire) = built;
    ensure!(
        !unencodable(f),
        "a length that does not fit the wire was accepted: {}",
        brief(&wire)
    );
    let reduced = f.masked();
    same(&reduced.expected(), &frame, "constructed frame")?;
    ensure!(
        wire == reduced.wire(false) || wire == reduced.wire(true),
        "encoded as {} instead of {}",
        brief(&wire),
        brief(&reduced.wire(false))
    );
    let contradictory = match &reduced {
        Fr::Error { sid, code, .. } => {
            *sid != 0 && CONNECTION_CODES.contains(code)
                || *sid == 0 && STREAM_CODES.contains(code)
        }
        _ => false,
    };
    if !contradictory {
        let back = decode_all(&wire)?;
        same(&reduced.expected(), &back, "decoded frame")?;
        if !reduced.zero_part() {
            ensure!(back == frame, "the frame does not decode to itself");
        }
    }
    Ok(class.label(!ok, "reduced"))
}

pub fn c23() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c23-out-of-range",
        rule: "one case is one constructor call with arbitrary 32/64-bit \
arguments and lengths; non-trivial: at least one argument is outside its \
documented range",
        quick: 960_000,
        thorough: 24_000_000,
        strategy: wild_frame,
        check: out_of_range,
    })]
}
