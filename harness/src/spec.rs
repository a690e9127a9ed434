//! The reference: RSocket 1.0 frames, written from the protocol description
//! and independent of the library's encoders and decoders.
use crate::blob::{brief, Blob};
use binate::frame::codec::*;
use binate::frame::{DecodeError, Flags, Frame};
use bytes::Buf;
use binate::Payload;
use bytes::Bytes;
use serde::{Deserialize, Serialize};

pub const I: u16 = 0x200;
pub const M: u16 = 0x100;
/// FOLLOWS, RESUME and RESPOND share this bit.
pub const F: u16 = 0x080;
pub const R: u16 = 0x080;
/// COMPLETE and LEASE share this bit.
pub const C: u16 = 0x040;
pub const L: u16 = 0x040;
pub const N: u16 = 0x020;

pub const U31: u32 = 0x7fff_ffff;
pub const U63: u64 = 0x7fff_ffff_ffff_ffff;
pub const MAX_META: usize = 0xff_ffff;

pub const SETUP: u8 = 0x01;
pub const LEASE: u8 = 0x02;
pub const KEEPALIVE: u8 = 0x03;
pub const REQUEST_RESPONSE: u8 = 0x04;
pub const REQUEST_FNF: u8 = 0x05;
pub const REQUEST_STREAM: u8 = 0x06;
pub const REQUEST_CHANNEL: u8 = 0x07;
pub const REQUEST_N: u8 = 0x08;
pub const CANCEL: u8 = 0x09;
pub const PAYLOAD: u8 = 0x0a;
pub const ERROR: u8 = 0x0b;
pub const METADATA_PUSH: u8 = 0x0c;
pub const RESUME: u8 = 0x0d;
pub const RESUME_OK: u8 = 0x0e;

/// Error codes that demand stream 0, and those that demand another stream.
pub const CONNECTION_CODES: [u32; 6] = [1, 2, 3, 4, 0x101, 0x102];
pub const STREAM_CODES: [u32; 4] = [0x201, 0x202, 0x203, 0x204];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pay {
    pub meta: Option<Blob>,
    pub data: Option<Blob>,
}

impl Pay {
    pub fn build(&self) -> Payload {
        let mut b = Payload::builder();
        if let Some(m) = &self.meta {
            b = b.set_metadata(m.bytes());
        }
        if let Some(d) = &self.data {
            b = b.set_data(d.bytes());
        }
        b.build()
    }
    pub fn meta_bytes(&self) -> Bytes {
        self.meta.as_ref().map(|b| b.bytes()).unwrap_or_default()
    }
    pub fn data_bytes(&self) -> Bytes {
        self.data.as_ref().map(|b| b.bytes()).unwrap_or_default()
    }
    fn zero_part(&self) -> bool {
        zero(&self.meta) || zero(&self.data)
    }
}

fn zero(b: &Option<Blob>) -> bool {
    matches!(b, Some(b) if b.len() == 0)
}

/// A frame as a user describes it: constructor arguments.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fr {
    Setup {
        lease: bool,
        resume: bool,
        token: Option<Blob>,
        version: Option<(u16, u16)>,
        interval: Option<u32>,
        timeout: Option<u32>,
        meta_mime: Option<String>,
        data_mime: Option<String>,
        pay: Pay,
    },
    Error { sid: u32, code: u32, data: Option<Blob> },
    Lease { ttl: u32, n: u32, meta: Option<Blob> },
    Keepalive { respond: bool, pos: u64, data: Option<Blob> },
    RequestResponse { sid: u32, follows: bool, pay: Pay },
    RequestFnf { sid: u32, follows: bool, pay: Pay },
    RequestStream { sid: u32, follows: bool, n: u32, pay: Pay },
    RequestChannel { sid: u32, follows: bool, complete: bool, n: u32, pay: Pay },
    RequestN { sid: u32, n: u32 },
    Cancel { sid: u32 },
    /// `flags`: the eight flag constants as a bit set, see `lib_flags`.
    Payload { sid: u32, flags: u8, pay: Pay },
    MetadataPush { meta: Blob },
    Resume { version: (u16, u16), token: Blob, server_pos: u64, client_pos: u64 },
    ResumeOk { pos: u64 },
}

/// The library's flag constants selected by a small bit set.
pub fn lib_flags(bits: u8) -> Flags {
    let all = [
        Flags::IGNORE,
        Flags::METADATA,
        Flags::FOLLOWS,
        Flags::COMPLETE,
        Flags::NEXT,
    ];
    let mut f = Flags::empty();
    for (i, x) in all.iter().enumerate() {
        if bits & (1 << i) != 0 {
            f |= *x;
        }
    }
    f
}

pub const PF_FOLLOWS: u8 = 4;
pub const PF_COMPLETE: u8 = 8;
pub const PF_NEXT: u8 = 16;

pub const DEFAULT_MIME: &str = "application/binary";

impl Fr {
    pub fn kind(&self) -> u8 {
        match self {
            Fr::Setup { .. } => SETUP,
            Fr::Error { .. } => ERROR,
            Fr::Lease { .. } => LEASE,
            Fr::Keepalive { .. } => KEEPALIVE,
            Fr::RequestResponse { .. } => REQUEST_RESPONSE,
            Fr::RequestFnf { .. } => REQUEST_FNF,
            Fr::RequestStream { .. } => REQUEST_STREAM,
            Fr::RequestChannel { .. } => REQUEST_CHANNEL,
            Fr::RequestN { .. } => REQUEST_N,
            Fr::Cancel { .. } => CANCEL,
            Fr::Payload { .. } => PAYLOAD,
            Fr::MetadataPush { .. } => METADATA_PUSH,
            Fr::Resume { .. } => RESUME,
            Fr::ResumeOk { .. } => RESUME_OK,
        }
    }

    /// Through the library's public constructors.
    pub fn build(&self) -> Frame {
        match self {
            Fr::Setup {
                lease,
                resume,
                token,
                version,
                interval,
                timeout,
                meta_mime,
                data_mime,
                pay,
            } => {
                let mut b = SetupFrame::builder();
                if *lease {
                    b = b.set_lease_flag();
                }
                if *resume {
                    b = b.set_resume_flag();
                }
                if let Some(t) = token {
                    b = b.set_resume_token(t.bytes());
                }
                if let Some((x, y)) = version {
                    b = b.set_version(*x, *y);
                }
                if let Some(x) = interval {
                    b = b.set_keepalive_interval(*x);
                }
                if let Some(x) = timeout {
                    b = b.set_keepalive_timeout(*x);
                }
                if let Some(x) = meta_mime {
                    b = b.set_metadata_mimetype(x.clone());
                }
                if let Some(x) = data_mime {
                    b = b.set_data_mimetype(x.clone());
                }
                if let Some(x) = &pay.meta {
                    b = b.set_metadata(x.bytes());
                }
                if let Some(x) = &pay.data {
                    b = b.set_data(x.bytes());
                }
                Frame::Setup(b.build())
            }
            Fr::Error { sid, code, data } => Frame::Error(ErrorFrame::new(
                *sid,
                *code,
                data.as_ref().map(Blob::bytes),
            )),
            Fr::Lease { ttl, n, meta } => Frame::Lease(LeaseFrame::new(
                *ttl,
                *n,
                meta.as_ref().map(Blob::bytes),
            )),
            Fr::Keepalive { respond, pos, data } => Frame::Keepalive(
                KeepaliveFrame::new(*pos, data.as_ref().map(Blob::bytes), *respond),
            ),
            Fr::RequestResponse { sid, follows, pay } => Frame::RequestResponse(
                RequestResponseFrame::new(*sid, *follows, pay.build()),
            ),
            Fr::RequestFnf { sid, follows, pay } => Frame::RequestFnf(
                RequestFnfFrame::new(*sid, *follows, pay.build()),
            ),
            Fr::RequestStream { sid, follows, n, pay } => Frame::RequestStream(
                RequestStreamFrame::new(*sid, *follows, *n, pay.build()),
            ),
            Fr::RequestChannel { sid, follows, complete, n, pay } => {
                Frame::RequestChannel(RequestChannelFrame::new(
                    *sid,
                    *follows,
                    *complete,
                    *n,
                    pay.build(),
                ))
            }
            Fr::RequestN { sid, n } => {
                Frame::RequestN(RequestNFrame::new(*sid, *n))
            }
            Fr::Cancel { sid } => Frame::Cancel(CancelFrame::new(*sid)),
            Fr::Payload { sid, flags, pay } => Frame::Payload(PayloadFrame::new(
                *sid,
                lib_flags(*flags),
                pay.build(),
            )),
            Fr::MetadataPush { meta } => {
                Frame::MetadataPush(MetadataPushFrame::new(meta.bytes()))
            }
            Fr::Resume { version, token, server_pos, client_pos } => {
                Frame::Resume(ResumeFrame::new(
                    binate::frame::Version::new(version.0, version.1),
                    token.bytes(),
                    *server_pos,
                    *client_pos,
                ))
            }
            Fr::ResumeOk { pos } => Frame::ResumeOk(ResumeOkFrame::new(*pos)),
        }
    }

    /// Has an optional byte field that is present but empty.
    pub fn zero_part(&self) -> bool {
        match self {
            Fr::Setup { pay, .. }
            | Fr::RequestResponse { pay, .. }
            | Fr::RequestFnf { pay, .. }
            | Fr::RequestStream { pay, .. }
            | Fr::RequestChannel { pay, .. }
            | Fr::Payload { pay, .. } => pay.zero_part(),
            Fr::Error { data, .. } | Fr::Keepalive { data, .. } => zero(data),
            Fr::Lease { meta, .. } => zero(meta),
            _ => false,
        }
    }

    /// Total length of the variable parts.
    pub fn volume(&self) -> usize {
        let l = |b: &Option<Blob>| b.as_ref().map(Blob::len).unwrap_or(0);
        match self {
            Fr::Setup { pay, token, meta_mime, data_mime, .. } => {
                let s = |m: &Option<String>| m.as_ref().map(|x| x.len()).unwrap_or(0);
                l(&pay.meta) + l(&pay.data) + l(token) + s(meta_mime) + s(data_mime)
            }
            Fr::RequestResponse { pay, .. }
            | Fr::RequestFnf { pay, .. }
            | Fr::RequestStream { pay, .. }
            | Fr::RequestChannel { pay, .. }
            | Fr::Payload { pay, .. } => l(&pay.meta) + l(&pay.data),
            Fr::Error { data, .. } | Fr::Keepalive { data, .. } => l(data),
            Fr::Lease { meta, .. } => l(meta),
            Fr::MetadataPush { meta } => meta.len(),
            Fr::Resume { token, .. } => token.len(),
            _ => 0,
        }
    }

    /// Clears every bit that has no place in its field on the wire.
    pub fn masked(&self) -> Fr {
        let mut f = self.clone();
        match &mut f {
            Fr::Setup { interval, timeout, .. } => {
                for x in [interval, timeout].into_iter().flatten() {
                    *x &= U31;
                }
            }
            Fr::Error { sid, .. } | Fr::Cancel { sid } => *sid &= U31,
            Fr::Lease { ttl, n, .. } => {
                *ttl &= U31;
                *n &= U31;
            }
            Fr::Keepalive { pos, .. } | Fr::ResumeOk { pos } => *pos &= U63,
            Fr::RequestResponse { sid, .. }
            | Fr::RequestFnf { sid, .. }
            | Fr::Payload { sid, .. } => *sid &= U31,
            Fr::RequestStream { sid, n, .. }
            | Fr::RequestChannel { sid, n, .. }
            | Fr::RequestN { sid, n } => {
                *sid &= U31;
                *n &= U31;
            }
            Fr::MetadataPush { .. } => (),
            Fr::Resume { server_pos, client_pos, .. } => {
                *server_pos &= U63;
                *client_pos &= U63;
            }
        }
        f
    }

    /// The RSocket 1.0 layout. `drop_empty_meta`: write a metadata part that
    /// is present but empty as absent (both are faithful).
    pub fn wire(&self, drop_empty_meta: bool) -> Vec<u8> {
        let keep = |m: &Option<Blob>| match m {
            Some(b) => !(drop_empty_meta && b.len() == 0),
            None => false,
        };
        let mut o = Vec::with_capacity(self.volume() + 40);
        fn head(o: &mut Vec<u8>, sid: u32, kind: u8, flags: u16) {
            o.extend_from_slice(&sid.to_be_bytes());
            o.extend_from_slice(&((kind as u16) << 10 | flags).to_be_bytes());
        }
        fn flag(on: bool, bit: u16) -> u16 {
            if on {
                bit
            } else {
                0
            }
        }
        fn payload(o: &mut Vec<u8>, pay: &Pay, m: bool) {
            if m {
                let b = pay.meta_bytes();
                o.extend_from_slice(&(b.len() as u32).to_be_bytes()[1..]);
                o.extend_from_slice(&b);
            }
            o.extend_from_slice(&pay.data_bytes());
        }
        fn tail(o: &mut Vec<u8>, b: &Option<Blob>) {
            if let Some(b) = b {
                o.extend_from_slice(&b.bytes());
            }
        }
        match self {
            Fr::Setup {
                lease,
                resume,
                token,
                version,
                interval,
                timeout,
                meta_mime,
                data_mime,
                pay,
            } => {
                let r = *resume || token.is_some();
                let m = keep(&pay.meta);
                head(
                    &mut o,
                    0,
                    SETUP,
                    flag(m, M) | flag(r, R) | flag(*lease, L),
                );
                let v = version.unwrap_or((1, 0));
                o.extend_from_slice(&v.0.to_be_bytes());
                o.extend_from_slice(&v.1.to_be_bytes());
                o.extend_from_slice(&interval.unwrap_or(30_000).to_be_bytes());
                o.extend_from_slice(&timeout.unwrap_or(60_000).to_be_bytes());
                if r {
                    let t = token.as_ref().map(Blob::bytes).unwrap_or_default();
                    o.extend_from_slice(&(t.len() as u16).to_be_bytes());
                    o.extend_from_slice(&t);
                }
                for mime in [meta_mime, data_mime] {
                    let s = mime.as_deref().unwrap_or(DEFAULT_MIME).as_bytes();
                    o.push(s.len() as u8);
                    o.extend_from_slice(s);
                }
                payload(&mut o, pay, m);
            }
            Fr::Error { sid, code, data } => {
                head(&mut o, *sid, ERROR, 0);
                o.extend_from_slice(&code.to_be_bytes());
                tail(&mut o, data);
            }
            Fr::Lease { ttl, n, meta } => {
                head(&mut o, 0, LEASE, flag(keep(meta), M));
                o.extend_from_slice(&ttl.to_be_bytes());
                o.extend_from_slice(&n.to_be_bytes());
                tail(&mut o, meta);
            }
            Fr::Keepalive { respond, pos, data } => {
                head(&mut o, 0, KEEPALIVE, flag(*respond, R));
                o.extend_from_slice(&pos.to_be_bytes());
                tail(&mut o, data);
            }
            Fr::RequestResponse { sid, follows, pay } => {
                let m = keep(&pay.meta);
                head(&mut o, *sid, REQUEST_RESPONSE, flag(m, M) | flag(*follows, F));
                payload(&mut o, pay, m);
            }
            Fr::RequestFnf { sid, follows, pay } => {
                let m = keep(&pay.meta);
                head(&mut o, *sid, REQUEST_FNF, flag(m, M) | flag(*follows, F));
                payload(&mut o, pay, m);
            }
            Fr::RequestStream { sid, follows, n, pay } => {
                let m = keep(&pay.meta);
                head(&mut o, *sid, REQUEST_STREAM, flag(m, M) | flag(*follows, F));
                o.extend_from_slice(&n.to_be_bytes());
                payload(&mut o, pay, m);
            }
            Fr::RequestChannel { sid, follows, complete, n, pay } => {
                let m = keep(&pay.meta);
                head(
                    &mut o,
                    *sid,
                    REQUEST_CHANNEL,
                    flag(m, M) | flag(*follows, F) | flag(*complete, C),
                );
                o.extend_from_slice(&n.to_be_bytes());
                payload(&mut o, pay, m);
            }
            Fr::RequestN { sid, n } => {
                head(&mut o, *sid, REQUEST_N, 0);
                o.extend_from_slice(&n.to_be_bytes());
            }
            Fr::Cancel { sid } => head(&mut o, *sid, CANCEL, 0),
            Fr::Payload { sid, flags, pay } => {
                let m = keep(&pay.meta);
                head(
                    &mut o,
                    *sid,
                    PAYLOAD,
                    flag(m, M)
                        | flag(flags & PF_FOLLOWS != 0, F)
                        | flag(flags & PF_COMPLETE != 0, C)
                        | flag(flags & PF_NEXT != 0, N),
                );
                payload(&mut o, pay, m);
            }
            Fr::MetadataPush { meta } => {
                head(&mut o, 0, METADATA_PUSH, M);
                o.extend_from_slice(&meta.bytes());
            }
            Fr::Resume { version, token, server_pos, client_pos } => {
                head(&mut o, 0, RESUME, 0);
                o.extend_from_slice(&version.0.to_be_bytes());
                o.extend_from_slice(&version.1.to_be_bytes());
                let t = token.bytes();
                o.extend_from_slice(&(t.len() as u16).to_be_bytes());
                o.extend_from_slice(&t);
                o.extend_from_slice(&server_pos.to_be_bytes());
                o.extend_from_slice(&client_pos.to_be_bytes());
            }
            Fr::ResumeOk { pos } => {
                head(&mut o, 0, RESUME_OK, 0);
                o.extend_from_slice(&pos.to_be_bytes());
            }
        }
        o
    }

    /// What a user should read back from the frame.
    pub fn expected(&self) -> Obs {
        let ob = |b: &Option<Blob>| Val::opt(b.as_ref().map(Blob::bytes));
        let mut o = Obs { kind: self.kind(), fields: Vec::new() };
        match self {
            Fr::Setup {
                lease,
                resume,
                token,
                version,
                interval,
                timeout,
                meta_mime,
                data_mime,
                pay,
            } => {
                let r = *resume || token.is_some();
                let v = version.unwrap_or((1, 0));
                o.put("lease", Val::Flag(*lease));
                o.put("resume", Val::Flag(r));
                o.put("version", Val::U(ver(v.0, v.1)));
                o.put("keepalive_interval_ms", Val::U(interval.unwrap_or(30_000) as u64));
                o.put("keepalive_timeout_ms", Val::U(timeout.unwrap_or(60_000) as u64));
                o.put("resume_token", ob(token));
                o.put("metadata_mimetype", mime(meta_mime.as_deref().unwrap_or(DEFAULT_MIME).as_bytes()));
                o.put("data_mimetype", mime(data_mime.as_deref().unwrap_or(DEFAULT_MIME).as_bytes()));
                o.pay(ob(&pay.meta), ob(&pay.data));
            }
            Fr::Error { sid, code, data } => {
                o.put("stream_id", Val::U(*sid as u64));
                o.put("error_code", Val::U(*code as u64));
                o.put("data", ob(data));
            }
            Fr::Lease { ttl, n, meta } => {
                o.put("ttl_ms", Val::U(*ttl as u64));
                o.put("number_of_requests", Val::U(*n as u64));
                o.put("metadata", ob(meta));
            }
            Fr::Keepalive { respond, pos, data } => {
                o.put("respond", Val::Flag(*respond));
                o.put("last_received_position", Val::U(*pos));
                o.put("data", ob(data));
            }
            Fr::RequestResponse { sid, follows, pay }
            | Fr::RequestFnf { sid, follows, pay } => {
                o.put("stream_id", Val::U(*sid as u64));
                o.put("follows", Val::Flag(*follows));
                o.pay(ob(&pay.meta), ob(&pay.data));
            }
            Fr::RequestStream { sid, follows, n, pay } => {
                o.put("stream_id", Val::U(*sid as u64));
                o.put("follows", Val::Flag(*follows));
                o.put("initial_request_n", Val::U(*n as u64));
                o.pay(ob(&pay.meta), ob(&pay.data));
            }
            Fr::RequestChannel { sid, follows, complete, n, pay } => {
                o.put("stream_id", Val::U(*sid as u64));
                o.put("follows", Val::Flag(*follows));
                o.put("complete", Val::Flag(*complete));
                o.put("initial_request_n", Val::U(*n as u64));
                o.pay(ob(&pay.meta), ob(&pay.data));
            }
            Fr::RequestN { sid, n } => {
                o.put("stream_id", Val::U(*sid as u64));
                o.put("request_n", Val::U(*n as u64));
            }
            Fr::Cancel { sid } => o.put("stream_id", Val::U(*sid as u64)),
            Fr::Payload { sid, flags, pay } => {
                o.put("stream_id", Val::U(*sid as u64));
                o.put("follows", Val::Flag(flags & PF_FOLLOWS != 0));
                o.put("complete", Val::Flag(flags & PF_COMPLETE != 0));
                o.put("next", Val::Flag(flags & PF_NEXT != 0));
                o.pay(ob(&pay.meta), ob(&pay.data));
            }
            Fr::MetadataPush { meta } => {
                o.put("metadata", Val::opt(Some(meta.bytes())));
            }
            Fr::Resume { version, token, server_pos, client_pos } => {
                o.put("version", Val::U(ver(version.0, version.1)));
                o.put("resume_token", Val::opt(Some(token.bytes())));
                o.put("last_received_server_position", Val::U(*server_pos));
                o.put("first_available_client_position", Val::U(*client_pos));
            }
            Fr::ResumeOk { pos } => {
                o.put("last_received_client_position", Val::U(*pos));
            }
        }
        o
    }
}

fn ver(major: u16, minor: u16) -> u64 {
    (major as u64) << 16 | minor as u64
}

/// MIME accessors show ASCII strings only.
fn mime(b: &[u8]) -> Val {
    if b.is_ascii() {
        Val::Str(Some(String::from_utf8(b.to_vec()).unwrap()))
    } else {
        Val::Str(None)
    }
}

#[derive(Clone, PartialEq, Eq)]
pub enum Val {
    U(u64),
    Flag(bool),
    /// Optional bytes; empty and absent are the same.
    B(Bytes),
    Str(Option<String>),
}

impl Val {
    pub fn opt(b: Option<Bytes>) -> Val {
        Val::B(b.unwrap_or_default())
    }
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::U(v) => write!(f, "{:#x}", v),
            Val::Flag(v) => write!(f, "{}", v),
            Val::B(v) => write!(f, "[{}]", brief(v)),
            Val::Str(v) => write!(f, "{:?}", v),
        }
    }
}

/// Everything a user can read from a frame.
#[derive(Clone, PartialEq, Eq)]
pub struct Obs {
    pub kind: u8,
    pub fields: Vec<(&'static str, Val)>,
}

impl std::fmt::Debug for Obs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "type {:#x} {{", self.kind)?;
        for (k, v) in &self.fields {
            write!(f, " {}={:?}", k, v)?;
        }
        write!(f, " }}")
    }
}

impl Obs {
    fn put(&mut self, k: &'static str, v: Val) {
        self.fields.push((k, v));
    }
    fn pay(&mut self, m: Val, d: Val) {
        self.put("metadata", m);
        self.put("data", d);
    }
    /// First difference, if any.
    pub fn diff(&self, got: &Obs) -> Option<String> {
        if self.kind != got.kind {
            return Some(format!(
                "frame type {:#x} instead of {:#x}",
                got.kind, self.kind
            ));
        }
        for (a, b) in self.fields.iter().zip(&got.fields) {
            if a != b {
                return Some(format!(
                    "{} is {:?} instead of {:?}",
                    a.0, b.1, a.1
                ));
            }
        }
        if self.fields.len() != got.fields.len() {
            return Some("different sets of fields".into());
        }
        None
    }
}

fn ms(d: std::time::Duration) -> Val {
    // whole milliseconds by construction; anything else must differ
    if d.subsec_nanos() % 1_000_000 == 0 {
        Val::U(d.as_millis() as u64)
    } else {
        Val::U(u64::MAX)
    }
}

/// Reads a library frame through its public accessors. The payload accessor
/// must agree with the part accessors.
pub fn observe(f: &Frame) -> Result<Obs, String> {
    let b = |b: Option<&Bytes>| Val::opt(b.cloned());
    let mut o = Obs { kind: 0, fields: Vec::new() };
    macro_rules! pay {
        ($v:ident, $meta:ident, $data:ident) => {{
            let m = b($v.$meta());
            let d = b($v.$data());
            let (pm, pd) = $v.clone().payload().split();
            if Val::opt(pm) != m || Val::opt(pd) != d {
                return Err("payload() differs from metadata()/data()".into());
            }
            o.pay(m, d);
        }};
    }
    match f {
        Frame::Setup(v) => {
            o.kind = SETUP;
            o.put("lease", Val::Flag(v.is_lease()));
            o.put("resume", Val::Flag(v.is_resume()));
            let ve = v.version();
            o.put("version", Val::U(ver(ve.major(), ve.minor())));
            o.put("keepalive_interval_ms", ms(v.keepalive_interval()));
            o.put("keepalive_timeout_ms", ms(v.keepalive_timeout()));
            o.put("resume_token", b(v.resume_token()));
            o.put("metadata_mimetype", Val::Str(v.metadata_mimetype().map(str::to_string)));
            o.put("data_mimetype", Val::Str(v.data_mimetype().map(str::to_string)));
            pay!(v, metadata, data);
        }
        Frame::Error(v) => {
            o.kind = ERROR;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("error_code", Val::U(v.error_code() as u64));
            o.put("data", b(v.data()));
        }
        Frame::Lease(v) => {
            o.kind = LEASE;
            o.put("ttl_ms", ms(v.ttl()));
            o.put("number_of_requests", Val::U(v.number_of_requests() as u64));
            o.put("metadata", b(v.metadata()));
        }
        Frame::Keepalive(v) => {
            o.kind = KEEPALIVE;
            o.put("respond", Val::Flag(v.is_respond()));
            o.put("last_received_position", Val::U(v.last_received_position()));
            o.put("data", b(v.data()));
        }
        Frame::RequestResponse(v) => {
            o.kind = REQUEST_RESPONSE;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("follows", Val::Flag(v.is_follows()));
            pay!(v, metadata, data);
        }
        Frame::RequestFnf(v) => {
            o.kind = REQUEST_FNF;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("follows", Val::Flag(v.is_follows()));
            pay!(v, metadata, request_data);
        }
        Frame::RequestStream(v) => {
            o.kind = REQUEST_STREAM;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("follows", Val::Flag(v.is_follows()));
            o.put("initial_request_n", Val::U(v.initial_request_n() as u64));
            pay!(v, metadata, data);
        }
        Frame::RequestChannel(v) => {
            o.kind = REQUEST_CHANNEL;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("follows", Val::Flag(v.is_follows()));
            o.put("complete", Val::Flag(v.is_complete()));
            o.put("initial_request_n", Val::U(v.initial_request_n() as u64));
            pay!(v, metadata, data);
        }
        Frame::RequestN(v) => {
            o.kind = REQUEST_N;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("request_n", Val::U(v.request_n() as u64));
        }
        Frame::Cancel(v) => {
            o.kind = CANCEL;
            o.put("stream_id", Val::U(v.stream_id() as u64));
        }
        Frame::Payload(v) => {
            o.kind = PAYLOAD;
            o.put("stream_id", Val::U(v.stream_id() as u64));
            o.put("follows", Val::Flag(v.is_follows()));
            o.put("complete", Val::Flag(v.is_complete()));
            o.put("next", Val::Flag(v.is_next()));
            pay!(v, metadata, data);
        }
        Frame::MetadataPush(v) => {
            o.kind = METADATA_PUSH;
            o.put("metadata", b(Some(v.metadata())));
        }
        Frame::Resume(v) => {
            o.kind = RESUME;
            let ve = v.version();
            o.put("version", Val::U(ver(ve.major(), ve.minor())));
            o.put("resume_token", b(Some(v.resume_token())));
            o.put("last_received_server_position", Val::U(v.last_received_server_position()));
            o.put("first_available_client_position", Val::U(v.first_available_client_position()));
        }
        Frame::ResumeOk(v) => {
            o.kind = RESUME_OK;
            // the accessor's name says "server"; its documentation, and the
            // protocol, say "client"
            o.put("last_received_client_position", Val::U(v.last_received_server_position()));
        }
    }
    Ok(o)
}

/// What the reference decoder says about a byte string.
pub enum Ref {
    Accept(Accept),
    /// Any of these reasons is right (no precedence is prescribed).
    Reject(Vec<Why>),
}

pub struct Accept {
    /// What the frame says; two readings only where the protocol leaves it
    /// open (bytes after a LEASE without the metadata flag).
    pub obs: Vec<Obs>,
    pub consumed: usize,
    /// In the one form the encoder of a correct implementation produces.
    pub canonical: bool,
    /// Violates a protocol rule the library does not check: refusing it
    /// would be right as well.
    pub may_reject: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Incomplete,
    Unrecognized(u16),
    StreamId(u32),
}

impl Why {
    pub fn of(e: &DecodeError) -> Result<Why, String> {
        match e {
            DecodeError::InComplete => Ok(Why::Incomplete),
            DecodeError::UnrecognizedFrameType(t) => Ok(Why::Unrecognized(*t)),
            DecodeError::InvalidStreamId { found, expected } => {
                // connection-level content needs stream 0, all other any but 0
                let sane = match expected.trim().strip_prefix('>') {
                    Some(n) => *found == 0 && n.trim() == "0",
                    None => (*found != 0) == (expected.trim() == "0"),
                };
                if sane {
                    Ok(Why::StreamId(*found))
                } else {
                    Err(format!(
                        "stream id {} reported as invalid, expected '{}'",
                        found, expected
                    ))
                }
            }
            other => Err(format!("unknown decode error {:?}", other)),
        }
    }
}

struct Cur<'a> {
    b: &'a [u8],
    at: usize,
    short: bool,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        if self.short || self.b.len() - self.at < n {
            self.short = true;
            return &[];
        }
        let s = &self.b[self.at..self.at + n];
        self.at += n;
        s
    }
    fn int(&mut self, n: usize) -> u64 {
        self.take(n).iter().fold(0, |a, &b| a << 8 | b as u64)
    }
    fn rest(&mut self) -> &'a [u8] {
        let n = self.b.len() - self.at;
        self.take(n)
    }
}

pub fn ref_decode(b: &[u8]) -> Ref {
    let mut c = Cur { b, at: 0, short: false };
    let raw_sid = c.int(4) as u32;
    let word = c.int(2) as u16;
    if c.short {
        return Ref::Reject(vec![Why::Incomplete]);
    }
    let sid = raw_sid & U31;
    let kind = (word >> 10) as u8;
    let flags = word & 0x3ff;
    let m = flags & M != 0;
    let mut bad = Vec::new();
    let mut canonical = raw_sid == sid;
    let mut may_reject = false;
    let mut o = Obs { kind, fields: Vec::new() };
    let mut alt = None;
    let defined;
    let val = |s: &[u8]| Val::B(Bytes::copy_from_slice(s));

    if matches!(
        kind,
        SETUP | LEASE | KEEPALIVE | METADATA_PUSH | RESUME | RESUME_OK
    ) && sid != 0
    {
        bad.push(Why::StreamId(sid));
    }

    // number with its top bit reserved
    macro_rules! u31 {
        () => {{
            let v = c.int(4) as u32;
            canonical &= v <= U31;
            (v & U31) as u64
        }};
    }
    macro_rules! u63 {
        () => {{
            let v = c.int(8);
            canonical &= v <= U63;
            v & U63
        }};
    }
    macro_rules! pay {
        () => {{
            let meta: &[u8] = if m {
                let n = c.int(3) as usize;
                canonical &= n != 0;
                c.take(n)
            } else {
                &[]
            };
            let data = c.rest();
            o.pay(val(meta), val(data));
        }};
    }
    match kind {
        SETUP => {
            defined = M | R | L;
            let major = c.int(2) as u16;
            let minor = c.int(2) as u16;
            let interval = u31!();
            let timeout = u31!();
            may_reject |= interval == 0 || timeout == 0;
            let token: &[u8] = if flags & R != 0 {
                let n = c.int(2) as usize;
                c.take(n)
            } else {
                &[]
            };
            let n = c.int(1) as usize;
            let mm = c.take(n);
            let n = c.int(1) as usize;
            let dm = c.take(n);
            o.put("lease", Val::Flag(flags & L != 0));
            o.put("resume", Val::Flag(flags & R != 0));
            o.put("version", Val::U(ver(major, minor)));
            o.put("keepalive_interval_ms", Val::U(interval));
            o.put("keepalive_timeout_ms", Val::U(timeout));
            o.put("resume_token", val(token));
            o.put("metadata_mimetype", mime(mm));
            o.put("data_mimetype", mime(dm));
            pay!();
        }
        LEASE => {
            defined = M;
            let ttl = u31!();
            let n = u31!();
            let rest = c.rest();
            o.put("ttl_ms", Val::U(ttl));
            o.put("number_of_requests", Val::U(n));
            if !m && !rest.is_empty() {
                let mut a = o.clone();
                a.put("metadata", val(&[]));
                alt = Some(a);
            }
            canonical &= m != rest.is_empty();
            o.put("metadata", val(rest));
        }
        KEEPALIVE => {
            defined = R;
            let pos = u63!();
            o.put("respond", Val::Flag(flags & R != 0));
            o.put("last_received_position", Val::U(pos));
            o.put("data", val(c.rest()));
        }
        REQUEST_RESPONSE | REQUEST_FNF => {
            defined = M | F;
            may_reject |= sid == 0;
            o.put("stream_id", Val::U(sid as u64));
            o.put("follows", Val::Flag(flags & F != 0));
            pay!();
        }
        REQUEST_STREAM => {
            defined = M | F;
            let n = u31!();
            may_reject |= sid == 0 || n == 0;
            o.put("stream_id", Val::U(sid as u64));
            o.put("follows", Val::Flag(flags & F != 0));
            o.put("initial_request_n", Val::U(n));
            pay!();
        }
        REQUEST_CHANNEL => {
            defined = M | F | C;
            let n = u31!();
            may_reject |= sid == 0 || n == 0;
            o.put("stream_id", Val::U(sid as u64));
            o.put("follows", Val::Flag(flags & F != 0));
            o.put("complete", Val::Flag(flags & C != 0));
            o.put("initial_request_n", Val::U(n));
            pay!();
        }
        REQUEST_N => {
            defined = 0;
            let n = u31!();
            may_reject |= sid == 0 || n == 0;
            o.put("stream_id", Val::U(sid as u64));
            o.put("request_n", Val::U(n));
        }
        CANCEL => {
            defined = 0;
            may_reject |= sid == 0;
            o.put("stream_id", Val::U(sid as u64));
        }
        PAYLOAD => {
            defined = M | F | C | N;
            may_reject |= sid == 0 || flags & (C | N) == 0;
            o.put("stream_id", Val::U(sid as u64));
            o.put("follows", Val::Flag(flags & F != 0));
            o.put("complete", Val::Flag(flags & C != 0));
            o.put("next", Val::Flag(flags & N != 0));
            pay!();
        }
        ERROR => {
            defined = 0;
            let code = c.int(4) as u32;
            if !c.short
                && (sid != 0 && CONNECTION_CODES.contains(&code)
                    || sid == 0 && STREAM_CODES.contains(&code))
            {
                bad.push(Why::StreamId(sid));
            }
            o.put("stream_id", Val::U(sid as u64));
            o.put("error_code", Val::U(code as u64));
            o.put("data", val(c.rest()));
        }
        METADATA_PUSH => {
            defined = M;
            canonical &= m;
            may_reject |= !m;
            o.put("metadata", val(c.rest()));
        }
        RESUME => {
            defined = 0;
            let major = c.int(2) as u16;
            let minor = c.int(2) as u16;
            let n = c.int(2) as usize;
            let token = c.take(n);
            o.put("version", Val::U(ver(major, minor)));
            o.put("resume_token", val(token));
            let s = u63!();
            let k = u63!();
            o.put("last_received_server_position", Val::U(s));
            o.put("first_available_client_position", Val::U(k));
        }
        RESUME_OK => {
            defined = 0;
            let pos = u63!();
            o.put("last_received_client_position", Val::U(pos));
        }
        other => {
            return Ref::Reject(vec![Why::Unrecognized(other as u16)]);
        }
    }
    if c.short {
        bad.push(Why::Incomplete);
    }
    if !bad.is_empty() {
        return Ref::Reject(bad);
    }
    canonical &= flags & !defined == 0 && c.at == b.len();
    let mut obs = vec![o];
    obs.extend(alt);
    Ref::Accept(Accept { obs, consumed: c.at, canonical, may_reject })
}

/// Calls `$go` with the frame's own type's value as `$v`.
#[macro_export]
macro_rules! each_kind {
    ($f:expr, $v:ident => $go:expr) => {
        match $f {
            Frame::Setup($v) => $go,
            Frame::Error($v) => $go,
            Frame::Lease($v) => $go,
            Frame::Keepalive($v) => $go,
            Frame::RequestResponse($v) => $go,
            Frame::RequestFnf($v) => $go,
            Frame::RequestStream($v) => $go,
            Frame::RequestChannel($v) => $go,
            Frame::RequestN($v) => $go,
            Frame::Cancel($v) => $go,
            Frame::Payload($v) => $go,
            Frame::MetadataPush($v) => $go,
            Frame::Resume($v) => $go,
            Frame::ResumeOk($v) => $go,
        }
    };
}

/// Decodes what follows a header with the decoder of one kind.
pub fn decode_kind<B: Buf>(
    kind: u8,
    buf: &mut B,
    sid: u32,
    flags: Flags,
) -> Option<Result<Frame, DecodeError>> {
    use binate::frame::{codec::*, Decode};
    macro_rules! go {
        ($t:ident, $k:ident) => {
            Some($t::decode(buf, sid, flags).map(Frame::$k))
        };
    }
    match kind {
        SETUP => go!(SetupFrame, Setup),
        ERROR => go!(ErrorFrame, Error),
        LEASE => go!(LeaseFrame, Lease),
        KEEPALIVE => go!(KeepaliveFrame, Keepalive),
        REQUEST_RESPONSE => go!(RequestResponseFrame, RequestResponse),
        REQUEST_FNF => go!(RequestFnfFrame, RequestFnf),
        REQUEST_STREAM => go!(RequestStreamFrame, RequestStream),
        REQUEST_CHANNEL => go!(RequestChannelFrame, RequestChannel),
        REQUEST_N => go!(RequestNFrame, RequestN),
        CANCEL => go!(CancelFrame, Cancel),
        PAYLOAD => go!(PayloadFrame, Payload),
        METADATA_PUSH => go!(MetadataPushFrame, MetadataPush),
        RESUME => go!(ResumeFrame, Resume),
        RESUME_OK => go!(ResumeOkFrame, ResumeOk),
        _ => None,
    }
}
