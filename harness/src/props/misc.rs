//! MIME types, errors, frame type and flag tables, small value types.
use crate::hooks;
use crate::engine::{exhaustive, guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use binate::frame::codec::ErrorFrame;
use binate::frame::{DecodeError, Encode, Flags, FrameType, Version, U24};
use binate::mimetype::WellKnownMimeType as Mime;
use binate::{Code, Error};
use bytes::BytesMut;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::error::Error as _;
use std::io;

// C20

/// The registered names (RSocket extension "Well-known MIME Types").
const MIMES: [(Mime, &str); 47] = [
    (Mime::APPLICATION_AVRO, "application/avro"),
    (Mime::APPLICATION_CBOR, "application/cbor"),
    (Mime::APPLICATION_GRAPHQL, "application/graphql"),
    (Mime::APPLICATION_GZIP, "application/gzip"),
    (Mime::APPLICATION_JAVASCRIPT, "application/javascript"),
    (Mime::APPLICATION_JSON, "application/json"),
    (Mime::APPLICATION_OCTET_STREAM, "application/octet-stream"),
    (Mime::APPLICATION_PDF, "application/pdf"),
    (
        Mime::APPLICATION_VND_APACHE_THRIFT_BINARY,
        "application/vnd.apache.thrift.binary",
    ),
    (
        Mime::APPLICATION_VND_GOOGLE_PROTOBUF,
        "application/vnd.google.protobuf",
    ),
    (Mime::APPLICATION_XML, "application/xml"),
    (Mime::APPLICATION_ZIP, "application/zip"),
    (Mime::AUDIO_AAC, "audio/aac"),
    (Mime::AUDIO_MP3, "audio/mp3"),
    (Mime::AUDIO_MP4, "audio/mp4"),
    (Mime::AUDIO_MPEG3, "audio/mpeg3"),
    (Mime::AUDIO_MPEG, "audio/mpeg"),
    (Mime::AUDIO_OGG, "audio/ogg"),
    (Mime::AUDIO_OPUS, "audio/opus"),
    (Mime::AUDIO_VORBIS, "audio/vorbis"),
    (Mime::IMAGE_BMP, "image/bmp"),
    (Mime::IMAGE_GIF, "image/gif"),
    (Mime::IMAGE_HEIC_SEQUENCE, "image/heic-sequence"),
    (Mime::IMAGE_HEIC, "image/heic"),
    (Mime::IMAGE_HEIF_SEQUENCE, "image/heif-sequence"),
    (Mime::IMAGE_HEIF, "image/heif"),
    (Mime::IMAGE_JPEG, "image/jpeg"),
    (Mime::IMAGE_PNG, "image/png"),
    (Mime::IMAGE_TIFF, "image/tiff"),
    (Mime::MULTIPART_MIXED, "multipart/mixed"),
    (Mime::TEXT_CSS, "text/css"),
    (Mime::TEXT_CSV, "text/csv"),
    (Mime::TEXT_HTML, "text/html"),
    (Mime::TEXT_PLAIN, "text/plain"),
    (Mime::TEXT_XML, "text/xml"),
    (Mime::VIDEO_H264, "video/H264"),
    (Mime::VIDEO_H265, "video/H265"),
    (Mime::VIDEO_VP8, "video/VP8"),
    (Mime::APPLICATION_X_HESSIAN, "application/x-hessian"),
    (Mime::APPLICATION_X_JAVA_OBJECT, "application/x-java-object"),
    (Mime::APPLICATION_CLOUDEVENTS_JSON, "application/cloudevents+json"),
    (
        Mime::MESSAGE_X_RSOCKET_MIME_TYPE_V0,
        "message/x.rsocket.mime-type.v0",
    ),
    (
        Mime::MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
        "message/x.rsocket.accept-mime-types.v0",
    ),
    (
        Mime::MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
        "message/x.rsocket.authentication.v0",
    ),
    (
        Mime::MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
        "message/x.rsocket.tracing-zipkin.v0",
    ),
    (Mime::MESSAGE_X_RSOCKET_ROUTING_V0, "message/x.rsocket.routing.v0"),
    (
        Mime::MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
        "message/x.rsocket.composite-metadata.v0",
    ),
];

/// Type number `i`; the last is the unparseable one.
fn known_mime(i: &u8) -> Verdict {
    let (t, name) = match MIMES.get(*i as usize) {
        Some(e) => *e,
        None => (Mime::UNPARSEABLE, ""),
    };
    let got: &'static str = guard(|| t.into())?;
    ensure!(got == name, "{:?} is named {:?} instead of {:?}", t, got, name);
    let back = guard(|| Mime::from(name))?;
    ensure!(back == t, "{:?} converts to {:?} instead of {:?}", name, back, t);
    for (u, _) in MIMES.iter() {
        if *u != t {
            let other: &'static str = guard(|| (*u).into())?;
            ensure!(other != got, "{:?} and {:?} share the name {:?}", t, u, got);
        }
    }
    Ok(Class::new(true))
}

fn any_string(s: &String) -> Verdict {
    let want = MIMES
        .iter()
        .find(|(_, n)| n == s)
        .map(|(t, _)| *t)
        .unwrap_or(Mime::UNPARSEABLE);
    let got = guard(|| Mime::from(s.as_str()))?;
    ensure!(got == want, "{:?} converts to {:?} instead of {:?}", s, got, want);
    let name: &'static str = guard(|| got.into())?;
    let want_name = if want == Mime::UNPARSEABLE { "" } else { s.as_str() };
    ensure!(name == want_name, "{:?}, converted there and back, is {:?}", s, name);
    Ok(Class::new(want == Mime::UNPARSEABLE && s.contains('/'))
        .label(want != Mime::UNPARSEABLE, "a known name")
        .label(s.is_empty(), "the empty string")
        .label(!s.is_ascii(), "not ASCII"))
}

/// A known name with a small change.
pub fn near_miss() -> BoxedStrategy<String> {
    let odd = prop_oneof![
        4 => "[ -~]",
        1 => "[\\x00-\\x1f\\x7f]",
        1 => "[\\u{80}-\\u{ffff}]",
        1 => proptest::sample::select(vec![
            "\r\n", "\u{feff}", "\u{200b}", "\u{a0}", "\u{17f}", "\u{212a}",
            ", text/plain", "*/*", "?", "#", "%2F", "\\", "\"",
        ]).prop_map(str::to_string),
    ];
    (0usize..MIMES.len(), 0u8..20, any::<u16>(), odd, 0usize..MIMES.len())
        .prop_map(|(i, how, at, c, j)| {
            let name = MIMES[i].1;
            let at = at as usize % name.len();
            match how {
                0 => name.to_string(),
                1 => format!("{}{}{}", &name[..at], c, &name[at..]),
                2 => format!("{}{}", &name[..at], &name[at + 1..]),
                3 => format!("{}{}{}", &name[..at], c, &name[at + 1..]),
                4 => {
                    // the case of one letter
                    let mut b = name.as_bytes().to_vec();
                    b[at] ^= (b[at].is_ascii_alphabetic() as u8) * 0x20;
                    String::from_utf8(b).unwrap()
                }
                5 => name.to_uppercase(),
                6 => name.to_lowercase(),
                7 => format!(" {}", name),
                8 => format!("{} ", name),
                9 => format!("{}; charset=utf-8", name),
                10 => name[..at].to_string(),
                11 => {
                    // head of one, tail of another
                    let other = MIMES[j].1;
                    let h = name.split('/').next().unwrap();
                    let t = other.split('/').nth(1).unwrap();
                    format!("{}/{}", h, t)
                }
                12 => format!("{}{}", c, name),
                13 => format!("{}{}", name, c),
                14 => format!("{}{}{}", c, name, c),
                15 => format!("{}{}", name, MIMES[j].1),
                16 => name[at..].to_string(),
                17 => {
                    // letters that fold to ASCII ones
                    let to = if at % 2 == 0 { ("s", "\u{17f}") } else { ("k", "\u{212a}") };
                    name.replacen(to.0, to.1, 1)
                }
                18 => match at % 3 {
                    0 => name.repeat(at + 2),
                    1 => format!("{}{}", name, c.repeat(40 * at)),
                    _ => format!("{}{}", c.repeat(40 * at), name),
                },
                _ => name.replace('-', ".").replace('_', "-"),
            }
        })
        .boxed()
}

pub fn c20() -> Vec<Sub> {
    vec![
        exhaustive(
            "c20-known",
            "all well-known types and the unparseable one, both directions \
and against all others",
            || Box::new(0..=MIMES.len() as u8),
            known_mime,
        ),
        sub(Spec {
            name: "c20-strings",
            rule: "one case is a string: a known name, one changed a little, \
or anything; non-trivial: not a known name but shaped like one",
            quick: 3_200_000,
            thorough: 80_000_000,
            strategy: || {
                prop_oneof![
                    6 => near_miss(),
                    1 => ".{0,40}",
                    1 => "[a-z]{1,12}/[a-z.+-]{1,20}",
                    1 => gen::ascii(60),
                    1 => gen::odd_text(),
                ]
                .boxed()
            },
            check: any_string,
        }),
    ]
}

// C21

/// Code, its number, the protocol's name, and the library's error frame
/// constant.
pub const CODES: [(Code, u32, &str, u32); 10] = [
    (Code::InvalidSetup, 0x001, "INVALID_SETUP", ErrorFrame::INVALID_SETUP),
    (
        Code::UnsupportedSetup,
        0x002,
        "UNSUPPORTED_SETUP",
        ErrorFrame::UNSUPPORTED_SETUP,
    ),
    (Code::RejectedSetup, 0x003, "REJECTED_SETUP", ErrorFrame::REJECTED_SETUP),
    (
        Code::RejectedResume,
        0x004,
        "REJECTED_RESUME",
        ErrorFrame::REJECTED_RESUME,
    ),
    (
        Code::ConnectionError,
        0x101,
        "CONNECTION_ERROR",
        ErrorFrame::CONNECTION_ERROR,
    ),
    (
        Code::ConnectionClose,
        0x102,
        "CONNECTION_CLOSE",
        ErrorFrame::CONNECTION_CLOSE,
    ),
    (
        Code::ApplicationError,
        0x201,
        "APPLICATION_ERROR",
        ErrorFrame::APPLICATION_ERROR,
    ),
    (Code::Rejected, 0x202, "REJECTED", ErrorFrame::REJECTED),
    (Code::Canceled, 0x203, "CANCELED", ErrorFrame::CANCELED),
    (Code::Invalid, 0x204, "INVALID", ErrorFrame::INVALID),
];

fn queries(e: &Error) -> [bool; 13] {
    [
        e.is_invalid_setup(),
        e.is_unsupported_setup(),
        e.is_rejected_setup(),
        e.is_rejected_resume(),
        e.is_connection_error(),
        e.is_connection_close(),
        e.is_application_error(),
        e.is_rejected(),
        e.is_cancel(),
        e.is_invalid(),
        e.is_decode(),
        e.is_protocol(),
        e.is_setup(),
    ]
}

const QUERY: [&str; 13] = [
    "is_invalid_setup",
    "is_unsupported_setup",
    "is_rejected_setup",
    "is_rejected_resume",
    "is_connection_error",
    "is_connection_close",
    "is_application_error",
    "is_rejected",
    "is_cancel",
    "is_invalid",
    "is_decode",
    "is_protocol",
    "is_setup",
];

fn judge_queries(e: &Error, yes: &[usize]) -> Result<(), String> {
    let got = guard(|| queries(e))?;
    for (i, name) in QUERY.iter().enumerate() {
        let want = yes.contains(&i);
        ensure!(got[i] == want, "{}() is {} for '{}'", name, got[i], e);
    }
    Ok(())
}

/// The debug form names all of these, however it spells or escapes them.
fn judge_debug(e: &dyn std::fmt::Debug, needs: &[&str]) -> Result<(), String> {
    let text = guard(|| format!("{:?}", e))?;
    let plain = |s: &str| {
        let s: String = s.chars().filter(|c| c.is_alphanumeric()).collect();
        s.to_lowercase()
    };
    for n in needs {
        let escaped = format!("{:?}", n);
        ensure!(
            text.contains(*n)
                || text.contains(&escaped[1..escaped.len() - 1])
                || plain(&text).contains(&plain(n)) && !plain(n).is_empty(),
            "the debug form is {}, without {:?}",
            text,
            n
        );
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Err_ {
    Protocol(u8, Option<String>),
    Incomplete,
    Type(u16),
    Stream(u8, u32),
    Io(u8, String),
    Os(i32),
    /// An I/O error with an error inside.
    IoOf(u8, Inner),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Inner {
    /// Texts, each the cause of the one before.
    Chain(Vec<String>),
    Decode(u16),
    Io(u8, String),
}

#[derive(Debug)]
struct Link(String, Option<Box<Link>>);

impl std::fmt::Display for Link {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Link {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|l| &**l as _)
    }
}

impl Inner {
    fn within(&self, kind: io::ErrorKind) -> io::Error {
        match self {
            Inner::Chain(texts) => {
                let link = texts.iter().rev().fold(None, |below, t| {
                    Some(Box::new(Link(t.clone(), below)))
                });
                match link {
                    Some(link) => io::Error::new(kind, link),
                    None => io::Error::from(kind),
                }
            }
            Inner::Decode(0) => io::Error::new(kind, DecodeError::InComplete),
            Inner::Decode(t) => {
                io::Error::new(kind, DecodeError::UnrecognizedFrameType(*t))
            }
            Inner::Io(k, t) => io::Error::new(
                kind,
                Error::from(io::Error::new(IO[*k as usize % IO.len()], t.clone())),
            ),
        }
    }
}

/// The texts of an error and of all its causes.
fn causes(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut texts = vec![e.to_string()];
    let mut next = e.source();
    while let (Some(e), true) = (next, texts.len() < 50) {
        texts.push(e.to_string());
        next = e.source();
    }
    texts
}

pub const IO: [io::ErrorKind; 18] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Interrupted,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
];

fn errors(c: &Err_) -> Verdict {
    let (mut with_cause, mut decode, mut io_) = (false, false, false);
    match c {
        Err_::Protocol(i, cause) => {
            let i = *i as usize % CODES.len();
            let (code, value, name, frame) = CODES[i];
            ensure!(
                code as u32 == value,
                "{:?} is {:#010x} instead of {:#010x}",
                code,
                code as u32,
                value
            );
            ensure!(
                frame == value,
                "the error frame constant of {} is {:#010x} instead of {:#010x}",
                name,
                frame,
                value
            );
            if !hooks::HOOKS {
                return Ok(Class::new(false));
            }
            let e = guard(|| hooks::protocol_error(code, cause.clone()))?;
            let mut yes = vec![i, 11];
            if i < 3 {
                yes.push(12);
            }
            judge_queries(&e, &yes)?;
            let text = guard(|| e.to_string())?;
            let head = format!("{} (0x{:08x})", name, value);
            ensure!(
                text.to_lowercase().starts_with(&head.to_lowercase())
                    && text.starts_with(name),
                "the text of {} is {:?}",
                name,
                text
            );
            judge_debug(&e, &[name, cause.as_deref().unwrap_or("")])?;
            for (other, _, other_name, _) in CODES {
                let o = guard(|| hooks::protocol_error(other, cause.clone()))?;
                ensure!(
                    other == code
                        || guard(|| format!("{:?}", o) != format!("{:?}", e))?,
                    "{} and {} have the same debug form, {:?}",
                    name,
                    other_name,
                    e
                );
            }
            match cause {
                None => ensure!(
                    e.source().is_none(),
                    "{} without a cause has a source",
                    name
                ),
                Some(cause) => {
                    with_cause = true;
                    ensure!(
                        text[head.len()..].contains(cause.as_str()),
                        "the text of {} is {:?}, without the cause {:?}",
                        name,
                        text,
                        cause
                    );
                    let s = guard(|| e.source().map(|s| s.to_string()))?;
                    ensure!(
                        s.as_ref() == Some(cause),
                        "the source of {} is {:?} instead of {:?}",
                        name,
                        s,
                        cause
                    );
                }
            }
        }
        Err_::Incomplete | Err_::Type(_) | Err_::Stream(..) => {
            decode = true;
            let (d, needs): (DecodeError, Vec<String>) = match c {
                Err_::Type(t) => (
                    DecodeError::UnrecognizedFrameType(*t),
                    vec![format!("{:x}", t)],
                ),
                Err_::Stream(k, found) => {
                    const WANT: [&str; 4] = ["0", "non-zero", "", "a {} b"];
                    let expected = WANT[*k as usize % WANT.len()];
                    (
                        DecodeError::InvalidStreamId { expected, found: *found },
                        vec![expected.to_string(), found.to_string()],
                    )
                }
                _ => (DecodeError::InComplete, vec!["incomplete".into()]),
            };
            let text = guard(|| d.to_string())?;
            for n in &needs {
                ensure!(
                    text.contains(n.as_str())
                        || text.to_lowercase().contains(&n.to_lowercase()),
                    "the text of {:?} is {:?}, without {:?}",
                    d,
                    text,
                    n
                );
            }
            ensure!(guard(|| d.source().is_none())?, "{:?} has a source", d);
            let e: Error = guard(|| d.clone().into())?;
            judge_queries(&e, &[10])?;
            match c {
                Err_::Stream(_, found) => judge_debug(&e, &[&found.to_string()])?,
                Err_::Type(t) => ensure!(
                    judge_debug(&e, &[&t.to_string()]).is_ok()
                        || judge_debug(&e, &[&format!("{:x}", t)]).is_ok(),
                    "the debug form is {:?}, without type {}",
                    e,
                    t
                ),
                _ => judge_debug(&e, &["incomplete"])?,
            }
            let whole = guard(|| e.to_string())?;
            ensure!(
                whole.contains(&text),
                "the text of the error is {:?}, without {:?}",
                whole,
                text
            );
            let s = guard(|| e.source().map(|s| s.to_string()))?;
            ensure!(
                s.as_ref() == Some(&text),
                "the source is {:?} instead of {:?}",
                s,
                text
            );
        }
        Err_::Io(..) | Err_::Os(_) | Err_::IoOf(..) => {
            io_ = true;
            let make = || match c {
                Err_::Os(n) => io::Error::from_raw_os_error(*n),
                Err_::Io(k, t) if t.is_empty() => {
                    io::Error::from(IO[*k as usize % IO.len()])
                }
                Err_::Io(k, t) => {
                    io::Error::new(IO[*k as usize % IO.len()], t.clone())
                }
                Err_::IoOf(k, inner) => {
                    inner.within(IO[*k as usize % IO.len()])
                }
                _ => unreachable!(),
            };
            let (cause, kind) = (make().to_string(), make().kind());
            let e: Error = guard(|| make().into())?;
            judge_queries(&e, &[])?;
            ensure!(
                judge_debug(&e, &[&cause]).is_ok()
                    || judge_debug(&e, &[&format!("{:?}", make())]).is_ok(),
                "the debug form is {:?}, without the cause {:?}",
                e,
                make()
            );
            let text = guard(|| e.to_string())?;
            ensure!(
                text.contains(&cause),
                "the text is {:?}, without the cause {:?}",
                text,
                cause
            );
            let s = e.source().and_then(|s| s.downcast_ref::<io::Error>());
            match s {
                None => return Err("the source is not the I/O error".into()),
                Some(s) => {
                    ensure!(
                        s.kind() == kind && s.to_string() == cause,
                        "the source is {:?}",
                        s
                    );
                    let (now, then) = (guard(|| causes(s))?, causes(&make()));
                    ensure!(
                        now == then,
                        "the source has the causes {:?} instead of {:?}",
                        now,
                        then
                    );
                }
            }
        }
    }
    Ok(Class::new(true)
        .label(with_cause, "protocol error with a cause")
        .label(decode, "decode error")
        .label(io_, "I/O error"))
}

pub fn c21() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c21-errors",
        rule: "one case is an error of some class with generated content; \
all are non-trivial",
        quick: 1_600_000,
        thorough: 40_000_000,
        strategy: || {
            let text = prop_oneof![
                3 => "[a-z ]{1,12}",
                1 => Just(String::new()),
                1 => ".{0,30}",
                1 => "[{}%:()0-9A-F]{1,12}",
                1 => gen::long_text(),
                1 => gen::odd_text(),
            ];
            prop_oneof![
                6 => (0u8..10, proptest::option::of(text.clone()))
                    .prop_map(|(i, t)| Err_::Protocol(i, t)),
                1 => Just(Err_::Incomplete),
                2 => prop_oneof![0u16..80, gen::num16(), any::<u16>()]
                    .prop_map(Err_::Type),
                2 => (0u8..4, gen::num32(0, u32::MAX))
                    .prop_map(|(k, f)| Err_::Stream(k, f)),
                2 => (any::<u8>(), text.clone()).prop_map(|(k, t)| Err_::Io(k, t)),
                2 => (any::<u8>(), prop_oneof![
                    3 => proptest::collection::vec(text.clone(), 1..4)
                        .prop_map(Inner::Chain),
                    1 => prop_oneof![0u16..80, any::<u16>()].prop_map(Inner::Decode),
                    1 => (any::<u8>(), text).prop_map(|(k, t)| Inner::Io(k, t)),
                ]).prop_map(|(k, i)| Err_::IoOf(k, i)),
                1 => (1i32..134).prop_map(Err_::Os),
            ]
            .boxed()
        },
        check: errors,
    })]
}

// C24

const TYPES: [(u16, FrameType); 15] = [
    (0x01, FrameType::SETUP),
    (0x02, FrameType::LEASE),
    (0x03, FrameType::KEEPALIVE),
    (0x04, FrameType::REQUEST_RESPONSE),
    (0x05, FrameType::REQUEST_FNF),
    (0x06, FrameType::REQUEST_STREAM),
    (0x07, FrameType::REQUEST_CHANNEL),
    (0x08, FrameType::REQUEST_N),
    (0x09, FrameType::CANCEL),
    (0x0A, FrameType::PAYLOAD),
    (0x0B, FrameType::ERROR),
    (0x0C, FrameType::METADATA_PUSH),
    (0x0D, FrameType::RESUME),
    (0x0E, FrameType::RESUME_OK),
    (0x3F, FrameType::EXT),
];

fn of_code(c: u16) -> Option<FrameType> {
    TYPES.iter().find(|t| t.0 == c).map(|t| t.1)
}

type Query = fn(&Flags) -> bool;

const FLAGS: [(&str, u16, Query, Flags); 8] = [
    ("is_ignore", 0x200, Flags::is_ignore, Flags::IGNORE),
    ("is_metadata", 0x100, Flags::is_metadata, Flags::METADATA),
    ("is_follows", 0x80, Flags::is_follows, Flags::FOLLOWS),
    ("is_resume", 0x80, Flags::is_resume, Flags::RESUME),
    ("is_respond", 0x80, Flags::is_respond, Flags::RESPOND),
    ("is_complete", 0x40, Flags::is_complete, Flags::COMPLETE),
    ("is_lease", 0x40, Flags::is_lease, Flags::LEASE),
    ("is_next", 0x20, Flags::is_next, Flags::NEXT),
];

fn word(w: &u16) -> Verdict {
    let w = *w;
    let (value, bits) =
        guard(|| (FrameType::from_value(w), FrameType::from_bits(w)))?;
    ensure!(
        value == of_code(w),
        "code {:#x} is {:?} instead of {:?}",
        w,
        value,
        of_code(w)
    );
    ensure!(
        bits == of_code(w >> 10),
        "header word {:#06x} is {:?} instead of {:?}",
        w,
        bits,
        of_code(w >> 10)
    );
    if let Some(t) = value {
        ensure!(
            guard(|| t.value())? == w,
            "{:?} has the code {:#x} instead of {:#x}",
            t,
            t.value(),
            w
        );
    }
    if let Some(t) = bits {
        let b = guard(|| t.bits())?;
        ensure!(
            b == w & !0x3ff,
            "{:?} has the header bits {:#06x} instead of {:#06x}",
            t,
            b,
            w & !0x3ff
        );
    }
    let f = Flags::from_bits_truncate(w);
    for (name, bit, query, constant) in &FLAGS {
        ensure!(
            constant.bits() == *bit,
            "the flag of {} is {:#x} instead of {:#x}",
            name,
            constant.bits(),
            bit
        );
        let got = guard(|| query(&f))?;
        ensure!(
            got == (w & bit != 0),
            "{}() is {} on the flags of {:#06x}",
            name,
            got,
            w
        );
    }
    Ok(Class::new(value.is_some() || bits.is_some())
        .label(value.is_some(), "a type's code")
        .label(bits.is_some(), "a type's header word"))
}

pub fn c24() -> Vec<Sub> {
    vec![exhaustive(
        "c24-words",
        "all 65536 words, as code, as header word and as flags; non-trivial: \
one of the first two readings gives a type",
        || Box::new(0..=u16::MAX),
        word,
    )]
}

// C25

/// 4096 consecutive 24-bit integers.
fn block(b: &u16) -> Verdict {
    let mut buf = BytesMut::with_capacity(16);
    for n in (*b as u32) << 12..((*b as u32) + 1) << 12 {
        let (hi, lo) = ((n >> 16) as u8, n as u16);
        let u = guard(|| U24::from_u32(n)).map_err(|e| format!("{}: {}", n, e))?;
        let v = guard(|| U24::from_usize(n as usize))
            .map_err(|e| format!("{}: {}", n, e))?;
        ensure!(u == v, "{}: from_u32 gives {:?}, from_usize {:?}", n, u, v);
        ensure!(
            u == U24::new(hi, lo),
            "{}: from_u32 gives {:?}, new {:?}",
            n,
            u,
            U24::new(hi, lo)
        );
        ensure!(
            u.into_u32() == n && u.into_usize() == n as usize,
            "{} comes back as {} and {}",
            n,
            u.into_u32(),
            u.into_usize()
        );
        buf.clear();
        u.encode(&mut buf);
        ensure!(
            buf[..] == n.to_be_bytes()[1..],
            "{} encodes as {:?}",
            n,
            &buf[..]
        );
        ensure!(u.len() == 3, "{}: len() is {}", n, u.len());
    }
    Ok(Class::new(true))
}

fn too_large(n: &u64) -> Verdict {
    let n = (*n).max(1 << 24);
    ensure!(
        guard(|| U24::from_usize(n as usize)).is_err(),
        "from_usize accepts {:#x}",
        n
    );
    let m = n as u32;
    let fits = m < 1 << 24;
    let got = guard(|| U24::from_u32(m));
    ensure!(
        got.is_ok() == fits,
        "from_u32 {} {:#x}",
        if fits { "refuses" } else { "accepts" },
        m
    );
    Ok(Class::new(true)
        .label(fits, "low 32 bits fit")
        .label(n > u32::MAX as u64, "beyond 32 bits"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Versions {
    a: (u16, u16),
    b: (u16, u16),
    c: (u16, u16),
}

fn versions(v: &Versions) -> Verdict {
    let make = |(x, y): (u16, u16)| Version::new(x, y);
    for (p, q) in [(v.a, v.b), (v.b, v.c), (v.a, v.c), (v.a, v.a), (v.b, v.a)] {
        let (a, b) = (make(p), make(q));
        let want = (p.0 as u32 * 65536 + p.1 as u32)
            .cmp(&(q.0 as u32 * 65536 + q.1 as u32));
        let got = guard(|| a.cmp(&b))?;
        ensure!(got == want, "{:?} compares {:?} to {:?}", p, got, q);
        ensure!(
            guard(|| a.partial_cmp(&b))? == Some(want),
            "{:?} partially compares {:?} to {:?}",
            p,
            a.partial_cmp(&b),
            q
        );
        ensure!(
            (a == b) == (want == Ordering::Equal)
                && (a != b) == (want != Ordering::Equal),
            "{:?} == {:?} is {}",
            p,
            q,
            a == b
        );
        ensure!(
            (a < b) == (want == Ordering::Less)
                && (a > b) == (want == Ordering::Greater)
                && (a <= b) == (want != Ordering::Greater)
                && (a >= b) == (want != Ordering::Less),
            "{:?} and {:?}: the comparison operators disagree",
            p,
            q
        );
        ensure!(
            guard(|| a.max(b))? == make(p.max(q))
                && guard(|| a.min(b))? == make(p.min(q)),
            "{:?} and {:?}: wrong maximum or minimum",
            p,
            q
        );
    }
    let a = make(v.a);
    ensure!(
        (a.major(), a.minor()) == v.a,
        "{:?} reads back as {}.{}",
        v.a,
        a.major(),
        a.minor()
    );
    let text = guard(|| a.to_string())?;
    ensure!(text == format!("{}.{}", v.a.0, v.a.1), "{:?} prints as {}", v.a, text);
    let mut buf = BytesMut::new();
    guard(|| a.encode(&mut buf))?;
    let want = [
        (v.a.0 >> 8) as u8,
        v.a.0 as u8,
        (v.a.1 >> 8) as u8,
        v.a.1 as u8,
    ];
    ensure!(buf[..] == want, "{:?} encodes as {:?}", v.a, &buf[..]);
    ensure!(guard(|| a.len())? == 4, "{:?}: len() is {}", v.a, a.len());
    let d = Version::default();
    ensure!(
        (d.major(), d.minor()) == (1, 0),
        "the default version is {}",
        d
    );
    Ok(Class::new(v.a != v.b && v.b != v.c && v.a != v.c)
        .label(v.a.0 == v.b.0 && v.a.1 != v.b.1, "same major")
        .label(v.a.0 != v.b.0 && v.a.1 == v.b.1, "same minor")
        .label(
            v.a.0.cmp(&v.b.0) as i8 * v.a.1.cmp(&v.b.1) as i8 == -1,
            "major and minor disagree",
        ))
}

pub fn c25() -> Vec<Sub> {
    vec![
        exhaustive(
            "c25-u24",
            "all 2^24 values, 4096 to a case",
            || Box::new(0u16..4096),
            block,
        ),
        sub(Spec {
            name: "c25-too-large",
            rule: "one case is an integer of 2^24 or more; all are non-trivial",
            quick: 640_000,
            thorough: 16_000_000,
            strategy: || {
                prop_oneof![
                    2 => gen::num(1 << 24, u64::MAX),
                    1 => gen::num(1 << 24, u32::MAX as u64),
                    // the low 24 or 32 bits alone would fit
                    1 => (1u64..=u32::MAX as u64, 0u64..1 << 24)
                        .prop_map(|(h, l)| h << 32 | l),
                    1 => (1u64..256, 0u64..1 << 24).prop_map(|(h, l)| h << 24 | l),
                    1 => (24u32..64).prop_map(|b| 1 << b),
                ]
                .boxed()
            },
            check: too_large,
        }),
        sub(Spec {
            name: "c25-versions",
            rule: "one case is three versions; non-trivial: all different",
            quick: 1_600_000,
            thorough: 40_000_000,
            strategy: || {
                let part = || prop_oneof![2 => 0u16..4, 2 => gen::num16(), 1 => any::<u16>()];
                let v = move || (part(), part());
                (v(), v(), v()).prop_map(|(a, b, c)| Versions { a, b, c }).boxed()
            },
            check: versions,
        }),
    ]
}
