//! The requester's frames, on a mock connection.
use crate::blob::brief;
use crate::bufs::{cut, SegBuf};
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::spec::*;
use crate::hooks::{self, Buffers, Requester};
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::{DecodeError, Encode, Frame};
use binate::{Error, Flux, Mono};
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::io;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

/// How the connection refuses a frame.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Refusal {
    Io(u8),
    /// An I/O error of some kind, with its standard text.
    Kind(u8),
    /// A protocol error, without or with a cause.
    Protocol(u8, Option<u8>),
    Incomplete,
    Type(u16),
    StreamId(u32),
}

impl Refusal {
    fn error(self) -> Error {
        match self {
            Refusal::Io(n) => {
                io::Error::new(io::ErrorKind::Other, format!("refused #{}", n)).into()
            }
            Refusal::Kind(k) => {
                io::Error::from(super::misc::IO[k as usize % super::misc::IO.len()])
                    .into()
            }
            Refusal::Protocol(k, cause) => {
                let codes = &super::misc::CODES;
                hooks::protocol_error(
                    codes[k as usize % codes.len()].0,
                    cause.map(|n| format!("refused #{}", n)),
                )
            }
            Refusal::Incomplete => DecodeError::InComplete.into(),
            Refusal::StreamId(found) => {
                DecodeError::InvalidStreamId { expected: "0", found }.into()
            }
            Refusal::Type(t) => DecodeError::UnrecognizedFrameType(t).into(),
        }
    }
}

fn refusal() -> BoxedStrategy<Refusal> {
    prop_oneof![
        2 => any::<u8>().prop_map(Refusal::Io),
        3 => any::<u8>().prop_map(Refusal::Kind),
        2 => (any::<u8>(), any::<Option<u8>>())
            .prop_map(|(k, c)| Refusal::Protocol(k, c)),
        1 => Just(Refusal::Incomplete),
        1 => any::<u16>().prop_map(Refusal::Type),
        1 => any::<u32>().prop_map(Refusal::StreamId),
    ]
    .boxed()
}

/// Records frames; refuses the ones it was told to.
#[derive(Default)]
struct Log {
    /// Frames offered: caller, frame, accepted.
    frames: Vec<(usize, Frame, bool)>,
    /// Frame numbers (from 0) to refuse.
    refuse: BTreeMap<usize, Refusal>,
    other: Vec<&'static str>,
}

/// The threads of one case; one runs at a time, the schedule says which.
pub struct Turn {
    state: Mutex<TurnState>,
    cond: Condvar,
}

struct TurnState {
    /// Waiting at a yield point.
    waiting: Vec<bool>,
    /// Given the turn, but waiting for something another thread holds.
    blocked: Vec<bool>,
    /// Counts what happens.
    steps: u64,
    done: Vec<bool>,
    running: Option<usize>,
    schedule: Vec<u8>,
    at: usize,
    switches: usize,
    last: Option<usize>,
}

/// Whether a thread was ever found blocked; then look out for it sooner.
static BLOCKING: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

impl Turn {
    fn new(n: usize, schedule: Vec<u8>) -> Turn {
        Turn {
            state: Mutex::new(TurnState {
                waiting: vec![false; n],
                blocked: vec![false; n],
                steps: 0,
                done: vec![false; n],
                running: None,
                schedule,
                at: 0,
                switches: 0,
                last: None,
            }),
            cond: Condvar::new(),
        }
    }

    /// When everyone left is waiting, the schedule picks the next.
    fn grant(s: &mut TurnState) {
        if s.running.is_some() {
            return;
        }
        let n = s.waiting.len();
        if (0..n).any(|i| !s.waiting[i] && !s.done[i] && !s.blocked[i]) {
            return;
        }
        let ready: Vec<usize> = (0..n).filter(|&i| s.waiting[i]).collect();
        if ready.is_empty() {
            return;
        }
        let pick = s.schedule.get(s.at).copied().unwrap_or(0) as usize;
        s.at += 1;
        let who = ready[pick % ready.len()];
        if s.last.is_some() && s.last != Some(who) {
            s.switches += 1;
        }
        s.last = Some(who);
        s.running = Some(who);
        s.waiting[who] = false;
    }

    fn yield_now(&self) {
        let me = ME.with(|m| m.get());
        if me == usize::MAX {
            return;
        }
        let mut s = self.state.lock().unwrap();
        if s.running == Some(me) {
            s.running = None;
        }
        s.waiting[me] = true;
        s.blocked[me] = false;
        s.steps += 1;
        Turn::grant(&mut s);
        self.cond.notify_all();
        while s.waiting[me] {
            // The code may hold a lock while it sends: a thread that was
            // given the turn and waits for that lock must not stop the rest.
            let patience = if BLOCKING.load(Ordering::Relaxed) { 1 } else { 30 };
            let before = s.steps;
            let (next, out) = self
                .cond
                .wait_timeout(s, Duration::from_millis(patience))
                .unwrap();
            s = next;
            if out.timed_out() && s.steps == before {
                if let Some(who) = s.running.filter(|who| *who != me) {
                    BLOCKING.store(true, Ordering::Relaxed);
                    s.running = None;
                    s.blocked[who] = true;
                    s.steps += 1;
                    Turn::grant(&mut s);
                    self.cond.notify_all();
                }
            }
        }
    }

    fn finish(&self) {
        let me = ME.with(|m| m.get());
        let mut s = self.state.lock().unwrap();
        if s.running == Some(me) {
            s.running = None;
        }
        s.done[me] = true;
        s.blocked[me] = false;
        s.steps += 1;
        Turn::grant(&mut s);
        self.cond.notify_all();
    }
}

struct Mock {
    log: Arc<Mutex<Log>>,
    turn: Option<Arc<Turn>>,
    /// Answer `send` only on this many polls later.
    late: u8,
}

impl Mock {
    fn offer(&self, frame: Frame) -> binate::Result<()> {
        if let Some(t) = &self.turn {
            t.yield_now();
        }
        let mut l = self.log.lock().unwrap();
        let k = l.frames.len();
        let r = l.refuse.get(&k).copied();
        l.frames.push((ME.with(|m| m.get()), frame, r.is_none()));
        match r {
            None => Ok(()),
            Some(r) => Err(r.error()),
        }
    }
    fn unexpected(&self, what: &'static str) {
        self.log.lock().unwrap().other.push(what);
    }
}

/// Ready after a few polls.
struct Later(u8, Option<binate::Result<()>>);

impl Future for Later {
    type Output = binate::Result<()>;
    fn poll(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Self::Output> {
        if self.0 > 0 {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.1.take().expect("polled after completion"))
    }
}

impl DuplexConnection for Mock {
    fn send(&self, frame: Frame) -> Mono<binate::Result<()>> {
        let r = self.offer(frame);
        Box::pin(Later(self.late, Some(r)))
    }
    fn send_and_forget(&self, frame: Frame) -> binate::Result<()> {
        self.offer(frame)
    }
    fn send_stream(&self, _frames: Flux<Frame>) {
        self.unexpected("send_stream");
    }
    fn receive(&self) -> Flux<Frame> {
        self.unexpected("receive");
        Box::pin(tokio_stream::pending())
    }
    fn connect(&self) {
        self.unexpected("connect");
    }
    fn close(&self) {
        self.unexpected("close");
    }
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        Box::pin(tokio_stream::pending())
    }
}

fn noop_waker() -> Waker {
    fn raw() -> RawWaker {
        fn clone(_: *const ()) -> RawWaker {
            raw()
        }
        fn nop(_: *const ()) {}
        const T: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
        RawWaker::new(std::ptr::null(), &T)
    }
    unsafe { Waker::from_raw(raw()) }
}

fn drive(mut m: Mono<binate::Result<()>>) -> Result<binate::Result<()>, String> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..1000 {
        if let Poll::Ready(r) = m.as_mut().poll(&mut cx) {
            return Ok(r);
        }
    }
    Err("metadata_push did not complete".into())
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .build()
        .unwrap()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Setting {
    client: bool,
    chunk: Option<u64>,
    start: Option<u32>,
    in_use: Vec<u32>,
}

impl Setting {
    /// Position on the requester's side of the id space.
    fn position(&self) -> Option<i32> {
        self.start.map(|s| {
            let s = s & U31;
            (if self.client { s | 1 } else { s & !1 }) as i32
        })
    }
}

fn setting() -> BoxedStrategy<Setting> {
    (
        any::<bool>(),
        prop_oneof![
            2 => Just(None),
            3 => (1u64..20).prop_map(Some),
            1 => gen::num(1, 5000).prop_map(Some),
            1 => gen::num(1, u64::MAX).prop_map(Some),
        ],
        prop_oneof![
            3 => Just(None),
            2 => (0u32..30).prop_map(|d| Some(U31 - d)),
            1 => gen::num32(0, U31).prop_map(Some),
        ],
        prop_oneof![
            2 => Just(vec![]),
            2 => proptest::collection::vec(1u32..24, 0..10),
            1 => proptest::collection::vec((0u32..24).prop_map(|d| U31 - d), 0..10),
            1 => proptest::collection::vec(gen::num32(1, U31), 0..10),
        ],
    )
        .prop_map(|(client, chunk, start, in_use)| Setting { client, chunk, start, in_use })
        .boxed()
}

/// One fire-and-forget call as the connection saw it.
struct Sent<'a> {
    frames: Vec<(&'a Frame, bool)>,
    pay: &'a Pay,
    result: Result<(), String>,
}

/// Judges one call; returns the stream id it used.
fn judge_call(
    s: &Setting,
    c: &Sent<'_>,
    refuse: Option<Refusal>,
) -> Result<u32, String> {
    ensure!(!c.frames.is_empty(), "a call sent no frame at all");
    let total = c.frames.len();
    let mut meta = Vec::new();
    let mut data = Vec::new();
    let mut id = None;
    for (i, (f, accepted)) in c.frames.iter().enumerate() {
        let (sid, follows, m, d) = match f {
            Frame::RequestFnf(v) => (
                v.stream_id(),
                v.is_follows(),
                v.metadata().cloned(),
                v.request_data().cloned(),
            ),
            // the protocol carries later fragments in PAYLOAD frames; the
            // library sends REQUEST_FNF: either holds the property
            Frame::Payload(v) if i > 0 => (
                v.stream_id(),
                v.is_follows(),
                v.metadata().cloned(),
                v.data().cloned(),
            ),
            other => {
                return Err(format!(
                    "frame {} of a fire-and-forget call is {:?}",
                    i,
                    observe(other)?
                ))
            }
        };
        ensure!(
            *id.get_or_insert(sid) == sid,
            "frames of one call on streams {:#x} and {:#x}",
            id.unwrap(),
            sid
        );
        let (m, d) = (m.unwrap_or_default(), d.unwrap_or_default());
        if let Some(n) = s.chunk {
            ensure!(
                m.len() as u64 <= n && d.len() as u64 <= n,
                "fragment {} has parts of {} and {} bytes, more than {}",
                i,
                m.len(),
                d.len(),
                n
            );
        } else {
            ensure!(total == 1, "{} frames without fragmentation", total);
        }
        meta.extend_from_slice(&m);
        data.extend_from_slice(&d);
        let last = i + 1 == total;
        if !*accepted {
            ensure!(last, "frames were sent after one was refused");
        } else if last {
            ensure!(
                refuse.is_some() || !follows,
                "the last frame announces that more follows"
            );
        }
        if !last {
            ensure!(
                follows,
                "frame {} of {} does not announce that more follows",
                i + 1,
                total
            );
        }
    }
    let refused = !c.frames[total - 1].1;
    match (&c.result, refused) {
        (Ok(()), false) => {
            let (wm, wd) = (c.pay.meta_bytes(), c.pay.data_bytes());
            ensure!(
                meta == wm,
                "metadata sent is {} instead of {}",
                brief(&meta),
                brief(&wm)
            );
            ensure!(
                data == wd,
                "data sent is {} instead of {}",
                brief(&data),
                brief(&wd)
            );
        }
        (Err(e), true) => {
            let want = refuse.map(|r| r.error().to_string()).unwrap_or_default();
            ensure!(
                *e == want,
                "the connection refused with '{}', the caller was told '{}'",
                want,
                e
            );
            // what went out before is the beginning of the payload
            let ok = |part: &[u8], whole: Bytes| whole.starts_with(part);
            ensure!(
                ok(&meta, c.pay.meta_bytes()) && ok(&data, c.pay.data_bytes()),
                "what was sent is not the beginning of the payload"
            );
            // the refused frame says whether it was to be the last
            if let Frame::RequestFnf(v) = c.frames[total - 1].0 {
                let complete = meta.len() == c.pay.meta_bytes().len()
                    && data.len() == c.pay.data_bytes().len();
                ensure!(
                    v.is_follows() || complete,
                    "a frame that is not the last does not announce more"
                );
            }
        }
        (Ok(()), true) => return Err("a refused frame was not reported".into()),
        (Err(e), false) => {
            return Err(format!("the call failed though nothing was refused: {}", e))
        }
    }
    let id = id.unwrap();
    ensure!((1..=U31).contains(&id), "stream id {:#x} is out of range", id);
    ensure!(
        (id % 2 == 1) == s.client,
        "stream id {:#x} is the other side's",
        id
    );
    ensure!(!s.in_use.contains(&id), "stream id {:#x} is in use", id);
    Ok(id)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Calls {
    setting: Setting,
    pays: Vec<Pay>,
    /// Refuse the frame with this number (modulo a small bound).
    refuse: Vec<(u16, Refusal)>,
}

fn fnf(c: &Calls) -> Verdict {
    let log = Arc::new(Mutex::new(Log::default()));
    log.lock().unwrap().refuse =
        c.refuse.iter().map(|(k, r)| (*k as usize, *r)).collect();
    let mock = Mock { log: log.clone(), turn: None, late: 0 };
    let rt = runtime();
    let s = &c.setting;
    let req = guard(|| {
        rt.block_on(Requester::new(
            s.client,
            mock,
            Duration::from_secs(3600),
            s.chunk.map(|n| n as usize),
            s.position(),
            &s.in_use,
        ))
    })?;
    let mut ids = HashSet::new();
    let (mut fragmented, mut refused) = (0, 0);
    for (i, pay) in c.pays.iter().enumerate() {
        let before = log.lock().unwrap().frames.len();
        let p = pay.build();
        let result = guard(|| req.fire_and_forget(p))
            .map_err(|e| format!("call {}: {}", i, e))?
            .map_err(|e| e.to_string());
        let l = log.lock().unwrap();
        let frames: Vec<(&Frame, bool)> =
            l.frames[before..].iter().map(|(_, f, ok)| (f, *ok)).collect();
        let n = frames.len();
        let refuse = (before..before + n).find_map(|k| l.refuse.get(&k).copied());
        refused += refuse.is_some() as u32;
        fragmented += (n > 1) as u32;
        let id = judge_call(s, &Sent { frames, pay, result }, refuse)
            .map_err(|e| format!("call {}: {}", i, e))?;
        ensure!(
            ids.insert(id),
            "call {}: stream id {:#x} was used by an earlier call",
            i,
            id
        );
    }
    let l = log.lock().unwrap();
    ensure!(l.other.is_empty(), "the connection was also asked to {:?}", l.other);
    Ok(Class::new(fragmented > 0 || refused > 0 || c.pays.len() > 1)
        .label(fragmented > 0, "a fragmented call")
        .label(refused > 0, "a frame refused")
        .label(refused > 0 && fragmented > 0, "fragmented and refused")
        .label(c.pays.len() > 1, "several calls")
        .label(s.chunk.is_none(), "no fragmentation")
        .label(!s.client, "server"))
}

fn fnf_pay() -> BoxedStrategy<Pay> {
    prop_oneof![4 => gen::small_pay(40), 1 => gen::small_pay(2500)].boxed()
}

fn pays() -> BoxedStrategy<Vec<Pay>> {
    (gen::history(fnf_pay(), 24), gen::echoes())
        .prop_map(|(mut v, e)| {
            gen::echo(&mut v, e, gen::nearly_pay);
            v
        })
        .boxed()
}

pub fn c16() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c16-calls",
            rule: "one case is a requester (role, fragment size, position \
of the id sequence, active streams), a sequence of calls and the frames the \
connection refuses; non-trivial: several calls, a fragmented one, or a \
refused frame",
            quick: 480_000,
            thorough: 12_000_000,
            strategy: || {
                (
                    setting(),
                    pays(),
                    prop_oneof![
                        2 => Just(vec![]),
                        1 => proptest::collection::vec((0u16..20, refusal()), 1..3),
                        1 => proptest::collection::vec((0u16..200, refusal()), 1..3),
                    ],
                )
                    .prop_map(|(setting, pays, refuse)| Calls { setting, pays, refuse })
                    .boxed()
            },
            check: fnf,
        }),
        sub(Spec {
            name: "c16-large",
            rule: "as c16-calls with one or two payloads of up to 16 MB; \
non-trivial as there",
            quick: 9_600,
            thorough: 240_000,
            strategy: || {
                (
                    setting(),
                    proptest::collection::vec(gen::pay(), 1..3),
                    prop_oneof![Just(None), gen::num(2000, 1 << 25).prop_map(Some)],
                )
                    .prop_map(|(s, pays, chunk)| {
                        // without fragmentation the metadata length must fit
                        Calls { setting: Setting { chunk, ..s }, pays, refuse: vec![] }
                    })
                    .boxed()
            },
            check: fnf,
        }),
        sub(Spec {
            name: "c16-many",
            rule: "as c16-calls with up to 4,000 calls; non-trivial as there",
            quick: 800,
            thorough: 20_000,
            strategy: || {
                let calls = proptest::collection::vec(gen::small_pay(8), 1..60);
                (setting(), calls, 1usize..90, proptest::collection::vec((0u16..9000, refusal()), 0..3))
                    .prop_map(|(setting, pays, n, refuse)| {
                        let n = pays.len() * n;
                        let pays = pays.into_iter().cycle().take(n.min(4000)).collect();
                        Calls { setting, pays, refuse }
                    })
                    .boxed()
            },
            check: fnf,
        }),
        sub(Spec {
            name: "c16-fragments",
            rule: "as c16-calls with one payload in up to 300,000 fragments; \
non-trivial as there",
            quick: 240,
            thorough: 6_000,
            strategy: || {
                let part = || proptest::option::of((any::<u16>(), gen::num(0, 300_000)));
                (setting(), part(), part(), 1u64..5)
                    .prop_map(|(s, meta, data, chunk)| {
                        let part = |p: Option<(u16, u64)>| {
                            p.map(|(seed, len)| crate::blob::Blob::Pat {
                                seed: seed as u32,
                                len: len as u32,
                            })
                        };
                        Calls {
                            setting: Setting { chunk: Some(chunk), ..s },
                            pays: vec![Pay { meta: part(meta), data: part(data) }],
                            refuse: vec![],
                        }
                    })
                    .boxed()
            },
            check: fnf,
        }),
    ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call {
    Fnf(Pay),
    Push(crate::blob::Blob),
}

impl Call {
    fn nearly(&self, at: u32, x: u8) -> Call {
        match self {
            Call::Fnf(p) => Call::Fnf(gen::nearly_pay(p, at, x)),
            Call::Push(b) if x % 8 == 0 => Call::Push(b.clone()),
            Call::Push(b) => Call::Push(gen::nearly(b, at, x >> 3)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Threads {
    setting: Setting,
    threads: Vec<Vec<Call>>,
    schedule: Vec<u8>,
    refuse: Vec<(u16, Refusal)>,
    late: u8,
}

/// Calls `finish` even if the thread panics.
struct Finish<'a>(&'a Turn);

impl Drop for Finish<'_> {
    fn drop(&mut self) {
        self.0.finish();
    }
}

/// The threads run as they please; what a call does is judged as ever.
fn racing(c: &Threads) -> Verdict {
    let mut class = Class::new(false);
    for _ in 0..10 {
        let seen = together(c, true)?;
        class.nontrivial |= seen.nontrivial;
    }
    Ok(class)
}

fn concurrent(c: &Threads) -> Verdict {
    together(c, false)
}

fn together(c: &Threads, free: bool) -> Verdict {
    let n = c.threads.len();
    let go = std::sync::Barrier::new(n);
    let log = Arc::new(Mutex::new(Log::default()));
    log.lock().unwrap().refuse =
        c.refuse.iter().map(|(k, r)| (*k as usize, *r)).collect();
    let turn = Arc::new(Turn::new(n, c.schedule.clone()));
    let mock = Mock {
        log: log.clone(),
        turn: (!free).then(|| turn.clone()),
        late: c.late,
    };
    let rt = runtime();
    let s = &c.setting;
    let req = guard(|| {
        rt.block_on(Requester::new(
            s.client,
            mock,
            Duration::from_secs(3600),
            s.chunk.map(|n| n as usize),
            s.position(),
            &s.in_use,
        ))
    })?;
    type Span = (usize, usize, Result<(), String>);
    // per thread and call: range of its own frames, outcome
    let results: Vec<Result<Vec<Span>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, calls)| {
                // some share it, some have a clone
                let (shared, own) = (&req, req.clone());
                let turn = &turn;
                let log = &log;
                let go = &go;
                sc.spawn(move || {
                    ME.with(|m| m.set(t));
                    if free {
                        go.wait();
                    }
                    let req = if t % 2 == 0 { shared } else { &own };
                    let _f = (!free).then(|| Finish(turn));
                    let mut out = Vec::new();
                    let mine = || {
                        let l = log.lock().unwrap();
                        l.frames.iter().filter(|f| f.0 == t).count()
                    };
                    for call in calls {
                        if !free {
                            turn.yield_now();
                        }
                        let a = mine();
                        let r = match call {
                            Call::Fnf(p) => {
                                let p = p.build();
                                guard(|| req.fire_and_forget(p))?
                            }
                            Call::Push(m) => {
                                guard(|| drive(req.metadata_push(m.bytes())))??
                            }
                        };
                        out.push((a, mine(), r.map_err(|e| e.to_string())));
                    }
                    Ok(out)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let l = log.lock().unwrap();
    let mut ids = HashSet::new();
    let (mut fragmented, mut pushes, mut refused) = (0, 0, 0);
    for (t, r) in results.into_iter().enumerate() {
        let spans = r.map_err(|e| format!("thread {}: {}", t, e))?;
        let own: Vec<(usize, &Frame, bool)> = l
            .frames
            .iter()
            .enumerate()
            .filter(|(_, f)| f.0 == t)
            .map(|(k, f)| (k, &f.1, f.2))
            .collect();
        for (call, (a, b, result)) in c.threads[t].iter().zip(spans) {
            let frames = &own[a..b];
            let refuse =
                frames.iter().find_map(|(k, _, _)| l.refuse.get(k).copied());
            refused += refuse.is_some() as u32;
            match call {
                Call::Fnf(pay) => {
                    let sent = Sent {
                        frames: frames.iter().map(|(_, f, ok)| (*f, *ok)).collect(),
                        pay,
                        result,
                    };
                    fragmented += (frames.len() > 1) as u32;
                    let id = judge_call(s, &sent, refuse)
                        .map_err(|e| format!("thread {}: {}", t, e))?;
                    ensure!(
                        ids.insert(id),
                        "thread {}: stream id {:#x} was used by another call",
                        t,
                        id
                    );
                }
                Call::Push(m) => {
                    pushes += 1;
                    ensure!(
                        frames.len() == 1,
                        "thread {}: a metadata push sent {} frames",
                        t,
                        frames.len()
                    );
                    let want = Fr::MetadataPush { meta: m.clone() }.expected();
                    if let Some(d) = want.diff(&observe(frames[0].1)?) {
                        return Err(format!("thread {}: metadata push: {}", t, d));
                    }
                    let want = refuse.map(|r| r.error().to_string());
                    ensure!(
                        result.clone().err() == want,
                        "thread {}: the connection answered {:?}, the caller was told {:?}",
                        t,
                        want,
                        result
                    );
                }
            }
        }
    }
    let sent_by_none = l.frames.iter().filter(|f| f.0 == usize::MAX).count();
    ensure!(sent_by_none == 0, "{} frames sent outside any call", sent_by_none);
    ensure!(l.other.is_empty(), "the connection was also asked to {:?}", l.other);
    let switches = match free {
        true => l.frames.windows(2).filter(|w| w[0].0 != w[1].0).count(),
        false => turn.state.lock().unwrap().switches as usize,
    };
    // without turns, one switch per thread says nothing
    let mixed = if free { switches >= n } else { switches > 0 };
    Ok(Class::new(mixed && n > 1)
        .label(switches > 3, "more than 3 switches between threads")
        .label(fragmented > 1, "several fragmented calls")
        .label(pushes > 0, "metadata pushes")
        .label(refused > 0, "a frame refused"))
}

/// `threads` threads with `calls` calls each.
fn crowd(
    threads: std::ops::Range<usize>,
    calls: std::ops::Range<usize>,
) -> BoxedStrategy<Threads> {
    let call = prop_oneof![
        3 => gen::small_pay(40).prop_map(Call::Fnf),
        1 => gen::blob(300).prop_map(Call::Push),
    ];
    (
        setting(),
        proptest::collection::vec(proptest::collection::vec(call, calls), threads),
        proptest::collection::vec(any::<u8>(), 0..60),
        prop_oneof![
            3 => Just(vec![]),
            1 => proptest::collection::vec((0u16..20, refusal()), 1..3),
        ],
        0u8..4,
        gen::echoes(),
    )
        .prop_map(|(setting, mut threads, schedule, refuse, late, echoes)| {
            // calls like one that another thread makes, or the same one
            for (k, at, x) in echoes {
                let n = threads.len();
                if let Some(c) = threads[k as usize % n].last() {
                    let c = c.nearly(at, x);
                    threads[(k as usize + x as usize % 2) % n].push(c);
                }
            }
            Threads { setting, threads, schedule, refuse, late }
        })
        .boxed()
}

pub fn c17() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c17-interleavings",
            rule: "one case is a requester, 1-4 threads with 1-4 calls each (and up \
to 3 nearly the same again), and \
a schedule that decides which thread goes on at every call and every frame; \
non-trivial: at least two threads, and control passed between them",
            quick: 48_000,
            thorough: 1_200_000,
            strategy: || crowd(1..5, 1..5),
            check: concurrent,
        }),
        sub(Spec {
            name: "c17-crowd",
            rule: "as c17-interleavings with 5-24 threads of 1-2 calls each",
            quick: 4_000,
            thorough: 100_000,
            strategy: || crowd(5..25, 1..3),
            check: concurrent,
        }),
        sub(Spec {
            name: "c17-threads",
            rule: "as c17-interleavings with 2-4 threads of 1-12 calls each that \
run freely, ten times; non-trivial: their frames are mixed",
            quick: 2_000,
            thorough: 60_000,
            strategy: || crowd(2..5, 1..13),
            check: racing,
        }),
    ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Delivery {
    setting: Setting,
    calls: Vec<Call>,
    refuse: Vec<(u16, Refusal)>,
    late: u8,
    /// Which call's next frame goes on the wire next.
    order: Vec<u8>,
    cuts: Vec<u32>,
}

/// The frame's fields a receiver needs: stream id, whether more follows.
fn fragment_of(f: &Frame) -> Result<(u32, bool), String> {
    Ok(match f {
        Frame::RequestFnf(v) => (v.stream_id(), v.is_follows()),
        Frame::Payload(v) => (v.stream_id(), v.is_follows()),
        other => return Err(format!("the peer received {:?}", observe(other)?)),
    })
}

/// What went out for one call, as a peer makes sense of it.
fn delivered(c: &Delivery) -> Verdict {
    let log = Arc::new(Mutex::new(Log::default()));
    log.lock().unwrap().refuse =
        c.refuse.iter().map(|(k, r)| (*k as usize, *r)).collect();
    let mock = Mock { log: log.clone(), turn: None, late: c.late };
    let rt = runtime();
    let s = &c.setting;
    let req = guard(|| {
        rt.block_on(Requester::new(
            s.client,
            mock,
            Duration::from_secs(3600),
            s.chunk.map(|n| n as usize),
            s.position(),
            &s.in_use,
        ))
    })?;
    // Per call: the bytes of its accepted frames, and whether it succeeded.
    let mut wires: Vec<std::collections::VecDeque<Bytes>> = Vec::new();
    let mut succeeded = Vec::new();
    for (i, call) in c.calls.iter().enumerate() {
        let before = log.lock().unwrap().frames.len();
        let r = match call {
            Call::Fnf(p) => {
                let p = p.build();
                guard(|| req.fire_and_forget(p))
            }
            Call::Push(m) => guard(|| drive(req.metadata_push(m.bytes())))
                .and_then(|r| r),
        }
        .map_err(|e| format!("call {}: {}", i, e))?;
        succeeded.push(r.is_ok());
        let l = log.lock().unwrap();
        let mut wire = std::collections::VecDeque::new();
        for (_, f, ok) in &l.frames[before..] {
            if *ok {
                let b = guard(|| f.to_bytes())
                    .map_err(|e| format!("call {}: encoding: {}", i, e))?;
                wire.push_back(b);
            }
        }
        wires.push(wire);
    }
    // The wire: any interleaving that keeps each call's frames in order.
    let mut received: Vec<Bytes> = Vec::new();
    let mut origin: Vec<usize> = Vec::new();
    let mut k = 0;
    loop {
        let ready: Vec<usize> =
            (0..wires.len()).filter(|&i| !wires[i].is_empty()).collect();
        if ready.is_empty() {
            break;
        }
        let pick = c.order.get(k).copied().unwrap_or(0) as usize;
        k += 1;
        let who = ready[pick % ready.len()];
        received.push(wires[who].pop_front().unwrap());
        origin.push(who);
    }
    // The peer.
    let mut open: BTreeMap<u32, Buffers<SegBuf>> = BTreeMap::new();
    let mut payloads: Vec<binate::Payload> = Vec::new();
    let mut came: Vec<usize> = Vec::new();
    let mut pushes: Vec<(usize, Bytes)> = Vec::new();
    let (mut several, mut most) = (0, 0);
    for (b, from) in received.iter().zip(&origin) {
        let pieces = || SegBuf::new(cut(b, &c.cuts));
        let f = guard(|| Frame::decode(&mut pieces()))?
            .map_err(|e| format!("the peer cannot decode {}: {}", brief(b), e))?;
        if let Frame::MetadataPush(v) = &f {
            pushes.push((*from, v.metadata().clone()));
            continue;
        }
        let (id, follows) = fragment_of(&f)?;
        let list = open.entry(id).or_insert_with(Buffers::new);
        list.push(pieces());
        several += (list.pieces() > 1) as u32;
        most = most.max(open.len());
        if !follows {
            let list = open.remove(&id).unwrap();
            let p = guard(|| list.reassemble())?
                .map_err(|e| format!("the peer cannot reassemble: {}", e))?;
            payloads.push(p);
            came.push(*from);
        }
    }
    // Every successful call arrived whole, once, and nothing else did.
    let (mut failed, mut whole) = (0, 0);
    for (i, call) in c.calls.iter().enumerate() {
        match call {
            Call::Fnf(want) => {
                let got: Vec<&binate::Payload> = came
                    .iter()
                    .zip(&payloads)
                    .filter(|(from, _)| **from == i)
                    .map(|(_, p)| p)
                    .collect();
                if !succeeded[i] {
                    failed += 1;
                    ensure!(
                        got.is_empty(),
                        "call {} failed, yet the peer got a payload of it",
                        i
                    );
                    continue;
                }
                whole += 1;
                ensure!(
                    got.len() == 1,
                    "the peer got {} payloads of call {}",
                    got.len(),
                    i
                );
                let (m, d) = (
                    got[0].metadata().cloned().unwrap_or_default(),
                    got[0].data().cloned().unwrap_or_default(),
                );
                ensure!(
                    m == want.meta_bytes(),
                    "call {}: metadata {} reached the peer as {}",
                    i,
                    brief(&want.meta_bytes()),
                    brief(&m)
                );
                ensure!(
                    d == want.data_bytes(),
                    "call {}: data {} reached the peer as {}",
                    i,
                    brief(&want.data_bytes()),
                    brief(&d)
                );
            }
            Call::Push(want) => {
                let got: Vec<&Bytes> = pushes
                    .iter()
                    .filter(|(from, _)| *from == i)
                    .map(|(_, m)| m)
                    .collect();
                let n = succeeded[i] as usize;
                ensure!(
                    got.len() == n,
                    "the peer got {} metadata pushes of call {} instead of {}",
                    got.len(),
                    i,
                    n
                );
                ensure!(
                    got.iter().all(|m| **m == want.bytes()),
                    "call {}: metadata push {} reached the peer as {}",
                    i,
                    brief(&want.bytes()),
                    brief(got.first().map(|b| &b[..]).unwrap_or(b""))
                );
            }
        }
    }
    if failed == 0 {
        ensure!(
            open.is_empty(),
            "{} streams are left unfinished at the peer",
            open.len()
        );
    }
    ensure!(
        open.len() <= failed,
        "{} streams are left unfinished by {} failed calls",
        open.len(),
        failed
    );
    Ok(Class::new(several > 0 && whole > 0)
        .label(several > 0, "payloads in several fragments")
        .label(most > 1, "several payloads under way at once")
        .label(!pushes.is_empty(), "metadata pushes")
        .label(failed > 0, "failed calls")
        .label(!s.client, "server"))
}

fn delivery(
    pay: BoxedStrategy<Pay>,
    calls: usize,
    pieces: u64,
) -> BoxedStrategy<Delivery> {
    let call = prop_oneof![
        4 => pay.prop_map(Call::Fnf),
        1 => gen::blob(300).prop_map(Call::Push),
    ];
    (
        setting(),
        // about as many pieces as this for the longest part, or a size, or
        // no fragmentation
        prop_oneof![
            4 => (1..=pieces).prop_map(|n| (Some(n), None)),
            1 => gen::num(1, 1 << 24).prop_map(|n| (None, Some(n))),
            1 => Just((None, None)),
        ],
        (gen::history(call.boxed(), calls), gen::echoes()),
        prop_oneof![
            3 => Just(vec![]),
            1 => proptest::collection::vec((0u16..40, refusal()), 1..3),
        ],
        0u8..3,
        proptest::collection::vec(any::<u8>(), 0..80),
        gen::cuts(),
    )
        .prop_map(move |(s, (n, size), (calls, echoes), refuse, late, order, cuts)| {
            let mut calls = calls;
            gen::echo(&mut calls, echoes, Call::nearly);
            let longest = calls.iter().map(|c| match c {
                Call::Fnf(p) => p.meta_bytes().len().max(p.data_bytes().len()),
                Call::Push(_) => 0,
            });
            let longest = longest.max().unwrap_or(0) as u64;
            let chunk = match n {
                Some(n) => Some((longest / n).max(1)),
                // not millions of fragments
                None => size.map(|s| s.max(longest / 2000)),
            };
            Delivery {
                setting: Setting { chunk, ..s },
                calls,
                refuse,
                late,
                order,
                cuts,
            }
        })
        .boxed()
}

pub fn c27() -> Vec<Sub> {
    const RULE: &str = "one case is a requester, a history of calls, the \
frames the connection refuses, the order in which the frames of different \
calls go on the wire and the way the peer's buffers cut them; non-trivial: a \
payload arrives in several fragments";
    vec![
        sub(Spec {
            name: "c27-delivery",
            rule: RULE,
            quick: 320_000,
            thorough: 8_000_000,
            strategy: || delivery(fnf_pay(), 12, 24),
            check: delivered,
        }),
        sub(Spec {
            name: "c27-large",
            rule: RULE,
            quick: 24_000,
            thorough: 600_000,
            strategy: || {
                let pay = prop_oneof![
                    1 => gen::small_pay(300_000),
                    1 => gen::small_pay(3000),
                ];
                delivery(pay.boxed(), 4, 200)
            },
            check: delivered,
        }),
        sub(Spec {
            name: "c27-fragments",
            rule: "as c27-delivery with one or two payloads in up to 300,000 \
fragments; non-trivial as there",
            quick: 160,
            thorough: 4_000,
            strategy: || {
                let part = || proptest::option::of((any::<u16>(), gen::num(0, 300_000)));
                let pay = (part(), part()).prop_map(|(meta, data)| {
                    let part = |p: Option<(u16, u64)>| {
                        p.map(|(seed, len)| crate::blob::Blob::Pat {
                            seed: seed as u32,
                            len: len as u32,
                        })
                    };
                    Call::Fnf(Pay { meta: part(meta), data: part(data) })
                });
                (
                    setting(),
                    proptest::collection::vec(pay, 1..3),
                    1u64..5,
                    proptest::collection::vec(any::<u8>(), 0..80),
                )
                    .prop_map(|(s, calls, chunk, order)| Delivery {
                        setting: Setting { chunk: Some(chunk), ..s },
                        calls,
                        refuse: vec![],
                        late: 0,
                        order,
                        cuts: vec![],
                    })
                    .boxed()
            },
            check: delivered,
        }),
    ]
}

/// Some requesters, each with a connection of its own, used in turn.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Several {
    requesters: Vec<(Setting, Vec<(u16, Refusal)>)>,
    calls: Vec<(u8, Call)>,
}

fn several(c: &Several) -> Verdict {
    let n = c.requesters.len();
    let rt = runtime();
    let logs: Vec<Arc<Mutex<Log>>> = (0..n).map(|_| Default::default()).collect();
    let mut reqs = Vec::new();
    for ((s, refuse), log) in c.requesters.iter().zip(&logs) {
        log.lock().unwrap().refuse =
            refuse.iter().map(|(k, r)| (*k as usize, *r)).collect();
        let mock = Mock { log: log.clone(), turn: None, late: 0 };
        reqs.push(guard(|| {
            rt.block_on(Requester::new(
                s.client,
                mock,
                Duration::from_secs(3600),
                s.chunk.map(|n| n as usize),
                s.position(),
                &s.in_use,
            ))
        })?);
    }
    // The next id of each, by its own sequence and its own active streams.
    let mut next: Vec<u32> = c
        .requesters
        .iter()
        .map(|(s, _)| match s.position() {
            None if s.client => 1,
            None | Some(0) => 2,
            Some(p) => p as u32,
        })
        .collect();
    let mut calls = vec![0; n];
    let mut switches = 0;
    for (i, (who, call)) in c.calls.iter().enumerate() {
        let who = *who as usize % n;
        switches += (i > 0 && who != c.calls[i - 1].0 as usize % n) as u32;
        calls[who] += 1;
        let befores: Vec<usize> =
            logs.iter().map(|l| l.lock().unwrap().frames.len()).collect();
        let at = |e| format!("call {}, on requester {}: {}", i, who, e);
        let result = match call {
            Call::Fnf(p) => {
                let p = p.build();
                guard(|| reqs[who].fire_and_forget(p))
            }
            Call::Push(m) => guard(|| drive(reqs[who].metadata_push(m.bytes())))
                .and_then(|r| r),
        }
        .map_err(at)?
        .map_err(|e| e.to_string());
        for (k, l) in logs.iter().enumerate() {
            let now = l.lock().unwrap().frames.len();
            ensure!(
                k == who || now == befores[k],
                "call {}, on requester {}, sent {} frames on connection {}",
                i,
                who,
                now - befores[k],
                k
            );
        }
        let l = logs[who].lock().unwrap();
        let from = befores[who];
        let refuse =
            (from..l.frames.len()).find_map(|k| l.refuse.get(&k).copied());
        match call {
            Call::Fnf(pay) => {
                let frames: Vec<(&Frame, bool)> =
                    l.frames[from..].iter().map(|(_, f, ok)| (f, *ok)).collect();
                let sent = Sent { frames, pay, result };
                let id = judge_call(&c.requesters[who].0, &sent, refuse).map_err(at)?;
                let mut want = next[who];
                while c.requesters[who].0.in_use.contains(&want) {
                    want = super::conn::succ(want);
                }
                ensure!(
                    id == want,
                    "call {}, on requester {}: stream id {:#x} instead of {:#x}, \
                     the next of its sequence",
                    i,
                    who,
                    id,
                    want
                );
                next[who] = super::conn::succ(want);
            }
            Call::Push(m) => {
                let sent = l.frames.len() - from;
                ensure!(sent == 1, "call {}: a metadata push sent {} frames", i, sent);
                let want = Fr::MetadataPush { meta: m.clone() }.expected();
                if let Some(d) = want.diff(&observe(&l.frames[from].1)?) {
                    return Err(at(format!("metadata push: {}", d)));
                }
                ensure!(
                    result.clone().err() == refuse.map(|r| r.error().to_string()),
                    "call {}, on requester {}: the connection answered {:?}, the caller was told {:?}",
                    i,
                    who,
                    refuse,
                    result
                );
            }
        }
    }
    for l in &logs {
        let l = l.lock().unwrap();
        ensure!(l.other.is_empty(), "a connection was also asked to {:?}", l.other);
    }
    let busy = calls.iter().filter(|&&k| k > 0).count();
    Ok(Class::new(busy > 1 && switches > 1)
        .label(busy > 2, "three or four requesters at work")
        .label(switches > 5, "more than 5 changes of requester"))
}

pub fn c30() -> Sub {
    sub(Spec {
        name: "c30-requesters",
        rule: "one case is 1-4 requesters on connections of their own and a \
history of up to 24 calls (and up to 3 nearly the same again), each on one of \
them; non-trivial: at least two are used, and more than once in turn",
        quick: 160_000,
        thorough: 4_000_000,
        strategy: || {
            let call = prop_oneof![
                4 => fnf_pay().prop_map(Call::Fnf),
                1 => gen::blob(60).prop_map(Call::Push),
            ];
            let refuse = prop_oneof![
                2 => Just(vec![]),
                1 => proptest::collection::vec((0u16..20, refusal()), 1..3),
            ];
            let calls = gen::history((any::<u8>(), call).boxed(), 24);
            (
                proptest::collection::vec((setting(), refuse), 1..5),
                calls,
                gen::echoes(),
                any::<u8>(),
            )
                .prop_map(|(mut requesters, mut calls, e, same)| {
                    gen::echo(&mut calls, e, |(who, c): &(u8, Call), at, x| {
                        (who.wrapping_add(x % 2), c.nearly(at, x))
                    });
                    // positions alike, and the active streams not
                    let first = requesters[0].0.clone();
                    for (i, (s, _)) in requesters.iter_mut().enumerate() {
                        if same >> i & 1 == 1 {
                            s.start = first.start;
                            s.client = first.client;
                        }
                    }
                    Several { requesters, calls }
                })
                .boxed()
        },
        check: several,
    })
}
