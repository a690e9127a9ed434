//! The requester's background tasks, on a simulated clock.
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::spec::Pay;
use crate::hooks::Requester;
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::Frame;
use binate::{Flux, Mono};
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::{self, Write as _};
use std::pin::Pin;
use std::sync::{Arc, Mutex, Once};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::{sleep, sleep_until, Instant};
use tokio_stream::Stream;

/// More polls than any case can need; a monitor that gets here is spinning.
const SPIN: usize = 5_000;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Status {
    Unconnected,
    Connecting,
    Connected,
    Closed,
    Error(String),
}

impl Status {
    fn real(&self) -> ConnectionStatus {
        match self {
            Status::Unconnected => ConnectionStatus::Unconnected,
            Status::Connecting => ConnectionStatus::Connecting,
            Status::Connected => ConnectionStatus::Connected,
            Status::Closed => ConnectionStatus::Closed,
            Status::Error(s) => ConnectionStatus::Error(s.clone()),
        }
    }
}

/// One `connection_status()` stream.
#[derive(Default)]
struct Subscription {
    queue: VecDeque<Status>,
    delivered: Vec<Status>,
    waker: Option<Waker>,
    dropped: bool,
}

struct World {
    current: Status,
    ended: bool,
    subs: Vec<Subscription>,
    polls: usize,
    spinning: bool,
    closes: Vec<(Instant, bool)>,
    requested: bool,
    frames: usize,
    /// Every so many frames one is refused.
    refuse: usize,
}

impl World {
    fn publish(&mut self, s: Status) {
        self.current = s.clone();
        for q in &mut self.subs {
            if !q.dropped {
                q.queue.push_back(s.clone());
            }
            if let Some(w) = q.waker.take() {
                w.wake();
            }
        }
    }
    fn offer(&mut self) -> binate::Result<()> {
        self.frames += 1;
        if self.refuse != 0 && self.frames % self.refuse == 0 {
            let kind = std::io::ErrorKind::BrokenPipe;
            return Err(std::io::Error::from(kind).into());
        }
        Ok(())
    }
    fn end(&mut self) {
        self.ended = true;
        for q in &mut self.subs {
            if let Some(w) = q.waker.take() {
                w.wake();
            }
        }
    }
}

#[derive(Clone)]
struct Mock(Arc<Mutex<World>>);

struct Statuses {
    world: Arc<Mutex<World>>,
    index: usize,
}

impl Stream for Statuses {
    type Item = ConnectionStatus;
    fn poll_next(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<ConnectionStatus>> {
        let mut w = self.world.lock().unwrap();
        w.polls += 1;
        if w.polls > SPIN {
            w.spinning = true;
            return Poll::Pending;
        }
        let ended = w.ended;
        let q = &mut w.subs[self.index];
        match q.queue.pop_front() {
            Some(s) => {
                q.delivered.push(s.clone());
                Poll::Ready(Some(s.real()))
            }
            None if ended => Poll::Ready(None),
            None => {
                q.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Drop for Statuses {
    fn drop(&mut self) {
        if let Ok(mut w) = self.world.lock() {
            w.subs[self.index].dropped = true;
        }
    }
}

impl DuplexConnection for Mock {
    fn send(&self, _frame: Frame) -> Mono<binate::Result<()>> {
        let r = self.0.lock().unwrap().offer();
        Box::pin(async { r })
    }
    fn send_and_forget(&self, _frame: Frame) -> binate::Result<()> {
        self.0.lock().unwrap().offer()
    }
    fn send_stream(&self, _frames: Flux<Frame>) {}
    fn receive(&self) -> Flux<Frame> {
        Box::pin(tokio_stream::pending())
    }
    fn connect(&self) {}
    fn close(&self) {
        let mut w = self.0.lock().unwrap();
        let requested = w.requested;
        w.closes.push((Instant::now(), requested));
    }
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        let mut w = self.0.lock().unwrap();
        let index = w.subs.len();
        let mut s = Subscription::default();
        if index < SPIN {
            s.queue.push_back(w.current.clone());
        } else {
            w.spinning = true;
        }
        w.subs.push(s);
        drop(w);
        Box::pin(Statuses { world: self.0.clone(), index })
    }
}

fn world(current: Status) -> Mock {
    Mock(Arc::new(Mutex::new(World {
        current,
        ended: false,
        subs: Vec::new(),
        polls: 0,
        spinning: false,
        closes: Vec::new(),
        requested: false,
        frames: 0,
        refuse: 0,
    })))
}

fn simulated() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

// Log events of this thread.

thread_local! {
    static EVENTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

struct Recorder;

struct Text(String);

impl tracing::field::Visit for Text {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn fmt::Debug) {
        if f.name() != "message" && !f.name().starts_with("log.") {
            let _ = write!(self.0, " {}=", f.name());
        }
        let _ = write!(self.0, "{:?}", v);
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        let _ = write!(self.0, " {}={}", f.name(), v);
    }
}

impl tracing::Subscriber for Recorder {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        // errors and warnings are reports
        *m.level() <= tracing::Level::WARN && m.is_event()
            && m.target().starts_with("binate")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        let _ = EVENTS.try_with(|v| {
            let mut v = v.borrow_mut();
            if v.len() < 2 * SPIN {
                v.push(t.0)
            }
        });
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn record_events() {
    static SET: Once = Once::new();
    SET.call_once(|| {
        tracing::subscriber::set_global_default(Recorder)
            .expect("no other subscriber");
    });
    EVENTS.with(|v| v.borrow_mut().clear());
}

// C18

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Act {
    Fnf(Pay),
    Push(u8),
    /// Many fire-and-forget calls at once.
    Burst(u16),
    Close,
    /// A copy of the requester comes and goes.
    Copy,
    Connecting,
    Connected,
    Unconnected,
    Error(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Silence {
    client: bool,
    /// Microseconds.
    timeout: u64,
    /// Offset of creation against the clock's ticks, in microseconds.
    phase: u16,
    /// Fragment size.
    chunk: Option<u16>,
    /// Active streams.
    in_use: Vec<u32>,
    refuse: u8,
    /// When, in thousandths of the timeout.
    acts: Vec<(u16, Act)>,
}

fn silence(c: &Silence) -> Verdict {
    let mock = world(Status::Connected);
    let w = mock.0.clone();
    let times = guard(|| simulated().block_on(live(c, mock, 0)))?;
    judge_silence(c, &w, times)
}

const SLACK: Duration = Duration::from_millis(3);

/// Creation, when that was done, and the end.
type Times = (Instant, Instant, Instant);

async fn live(c: &Silence, mock: Mock, wait: u64) -> Times {
    let w = mock.0.clone();
    w.lock().unwrap().refuse = c.refuse as usize;
    let t = Duration::from_micros(c.timeout);
    let mut acts = c.acts.clone();
    acts.sort_by_key(|a| a.0);
    sleep(Duration::from_micros(wait + c.phase as u64)).await;
    let created = Instant::now();
    let chunk = c.chunk.map(|n| n as usize + 1);
    let mut req =
        Requester::new(c.client, mock, t, chunk, None, &c.in_use).await;
    let started = Instant::now();
    for (at, act) in &acts {
        let at = started
            + Duration::from_micros(
                (c.timeout as u128 * *at as u128 / 1000) as u64,
            );
        sleep_until(at).await;
        match act {
            Act::Fnf(p) => {
                let _ = req.fire_and_forget(p.build());
            }
            Act::Push(b) => {
                let _ = req.metadata_push(Bytes::from(vec![*b])).await;
            }
            Act::Burst(n) => {
                for _ in 0..*n {
                    let _ = req.fire_and_forget(Pay { meta: None, data: None }.build());
                }
            }
            Act::Close => {
                w.lock().unwrap().requested = true;
                req.close();
                w.lock().unwrap().requested = false;
            }
            Act::Copy => drop(req.clone()),
            Act::Connecting => w.lock().unwrap().publish(Status::Connecting),
            Act::Connected => w.lock().unwrap().publish(Status::Connected),
            Act::Unconnected => w.lock().unwrap().publish(Status::Unconnected),
            Act::Error(s) => w.lock().unwrap().publish(Status::Error(s.clone())),
        }
    }
    // far enough to see a second closure
    sleep_until(started + 2 * t + SLACK).await;
    sleep(3 * t + SLACK).await;
    (created, started, Instant::now())
}

fn judge_silence(c: &Silence, w: &Arc<Mutex<World>>, times: Times) -> Verdict {
    let (created, started, ended) = times;
    let (t, slack) = (Duration::from_micros(c.timeout), SLACK);
    let w = w.lock().unwrap();
    let requested = c.acts.iter().filter(|a| a.1 == Act::Close).count();
    let passed = w.closes.iter().filter(|c| c.1).count();
    ensure!(
        requested == passed,
        "{} closes were requested, {} passed on",
        requested,
        passed
    );
    let auto: Vec<Duration> =
        w.closes.iter().filter(|c| !c.1).map(|c| c.0 - created).collect();
    for d in &auto {
        ensure!(*d >= t, "closed {:?} after creation, before the timeout of {:?}", d, t);
    }
    ensure!(auto.len() <= 1, "closed by itself {} times: {:?}", auto.len(), auto);
    let latest = 2 * t + slack + (started - created);
    match auto.first() {
        Some(d) => ensure!(
            *d <= latest,
            "closed only {:?} after creation, with a timeout of {:?}",
            d,
            t
        ),
        // already closed on request
        None => ensure!(
            requested > 0,
            "not closed {:?} after creation, with a timeout of {:?}",
            ended - created,
            t
        ),
    }
    let before = c.acts.iter().filter(|a| a.0 < 1000).count();
    let after = c.acts.len() - before;
    Ok(Class::new(!c.acts.is_empty())
        .label(before > 0, "activity before the timeout")
        .label(after > 0, "activity after the timeout")
        .label(requested > 0, "close requested")
        .label(!c.in_use.is_empty(), "active streams")
        .label(
            c.acts.iter().any(|a| matches!(a.1, Act::Burst(64..))),
            "64 calls at once",
        )
        .label(c.timeout < 2000, "timeout under 2 ms")
        .label(c.timeout > 86_400_000_000, "timeout over a day")
        .label(c.timeout % 1000 == 0, "whole milliseconds"))
}

/// Longest timeout generated, in microseconds. A case lasts five timeouts, and
/// the clock misbehaves beyond 2^36 ms (two years).
const LONGEST: u64 = 100 * 86_400_000_000;

fn silent() -> BoxedStrategy<Silence> {
    let act = prop_oneof![
        4 => gen::small_pay(30).prop_map(Act::Fnf),
        2 => any::<u8>().prop_map(Act::Push),
        1 => gen::num(0, 400).prop_map(|n| Act::Burst(n as u16)),
        1 => Just(Act::Close),
        1 => Just(Act::Copy),
        1 => Just(Act::Connecting),
        2 => Just(Act::Connected),
        1 => Just(Act::Unconnected),
        1 => "[a-z]{0,6}".prop_map(Act::Error),
    ];
    let timeout = prop_oneof![
        2 => 1u64..5_000,
        2 => (1u64..5_000).prop_map(|ms| ms * 1000),
        2 => (1u64..100_000).prop_map(|s| s * 1_000_000),
        1 => gen::num(1, LONGEST),
        1 => 1u64..LONGEST,
        1 => prop::sample::select(vec![
            1u64, 999, 1000, 1001, 30_000_000, 60_000_000,
            u32::MAX as u64 * 1000, (u32::MAX as u64 + 1) * 1000,
            LONGEST,
        ]),
    ];
    let at = prop_oneof![
        3 => 0u16..1000,
        1 => 990u16..1010,
        1 => 1000u16..2500,
        1 => Just(0),
    ];
    (
        any::<bool>(),
        timeout,
        prop_oneof![Just(0u16), 0u16..1000],
        proptest::collection::vec((at, act), 0..8),
        prop_oneof![1 => Just(None), 1 => (0u16..10).prop_map(Some)],
        prop_oneof![
            1 => Just(vec![]),
            1 => proptest::collection::vec(1u32..20, 1..6),
        ],
        prop_oneof![2 => Just(0u8), 1 => 1u8..8],
    )
        .prop_map(|(client, timeout, phase, acts, chunk, in_use, refuse)| Silence {
            client,
            timeout,
            phase,
            chunk,
            in_use,
            refuse,
            acts,
        })
        .boxed()
}

/// Several requesters at a time, each with a connection of its own.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Silences {
    /// And when it begins, in microseconds.
    all: Vec<(Silence, u64)>,
}

fn silences(c: &Silences) -> Verdict {
    let mocks: Vec<Mock> = c.all.iter().map(|_| world(Status::Connected)).collect();
    let times: Vec<Times> = guard(|| {
        let set = tokio::task::LocalSet::new();
        set.block_on(&simulated(), async {
            let tasks: Vec<_> = (0..c.all.len())
                .map(|i| {
                    let ((s, wait), mock) = (c.all[i].clone(), mocks[i].clone());
                    tokio::task::spawn_local(async move { live(&s, mock, wait).await })
                })
                .collect();
            let mut out = vec![];
            for t in tasks {
                out.push(t.await);
            }
            out
        })
    })?
    .into_iter()
    .map(|r| r.map_err(|e| format!("panic: {}", e)))
    .collect::<Result<_, _>>()?;
    for (i, (s, _)) in c.all.iter().enumerate() {
        judge_silence(s, &mocks[i].0, times[i])
            .map_err(|e| format!("requester {} of {}: {}", i, c.all.len(), e))?;
    }
    let near = |d: Duration| d < Duration::from_secs(1);
    let close = times
        .windows(2)
        .any(|w| near(w[0].0.max(w[1].0) - w[0].0.min(w[1].0)));
    Ok(Class::new(c.all.len() > 1)
        .label(close, "begun within a second")
        .label(
            c.all.windows(2).any(|w| w[0].0.timeout == w[1].0.timeout),
            "the same timeout",
        ))
}

fn several(n: BoxedStrategy<usize>) -> BoxedStrategy<Silences> {
    let one = || {
        (silent(), prop_oneof![
            1 => Just(0u64),
            2 => 0u64..5_000,
            1 => gen::num(0, LONGEST),
        ])
    };
    n.prop_flat_map(move |n| {
        // beyond a few, the same ones over and over
        (proptest::collection::vec(one(), n.min(5)), any::<u8>(), Just(n))
    })
    .prop_map(|(mut all, same, n)| {
        // the same timeout, often
        let t = all[0].0.timeout;
        for (i, s) in all.iter_mut().enumerate() {
            if same >> i & 1 == 1 {
                s.0.timeout = t;
            }
        }
        Silences { all: all.into_iter().cycle().take(n).collect() }
    })
    .boxed()
}

pub fn c30() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c30-many",
        rule: "as c30-silence with up to 1,000 requesters; non-trivial: at \
least two",
        quick: 4_000,
        thorough: 100_000,
        strategy: || {
            let n = prop_oneof![4 => 2usize..40, 2 => 40usize..200, 1 => 200usize..1000];
            several(n.boxed())
        },
        check: silences,
    }), sub(Spec {
        name: "c30-silence",
        rule: "one case is up to 5 requesters on connections of their own, each \
as in c18-silence; non-trivial: at least two",
        quick: 160_000,
        thorough: 4_000_000,
        strategy: || several((1usize..6).boxed()),
        check: silences,
    })]
}

pub fn c18() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c18-silence",
            rule: "one case is a timeout, a phase against the clock's ticks, \
active streams, fragment size and refusals, and outgoing activity at chosen times; non-trivial: there is activity",
            quick: 1_280_000,
            thorough: 32_000_000,
            strategy: silent,
            check: silence,
        }),
    ]
}

// C19

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    Publish(Status),
    /// Let this many microseconds pass.
    Wait(u64),
    /// Let others run without time passing.
    Yield,
    Fnf,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Monitor {
    client: bool,
    initial: Status,
    steps: Vec<Step>,
    end: bool,
}

fn monitor(c: &Monitor) -> Verdict {
    record_events();
    let mock = world(c.initial.clone());
    let w = mock.0.clone();
    let published = 1 + c
        .steps
        .iter()
        .filter(|s| matches!(s, Step::Publish(_)))
        .count();
    let ticks = Arc::new(Mutex::new(0u32));
    let ticked = ticks.clone();
    let gave_up = guard(|| {
        simulated().block_on(async {
            let req = Requester::new(
                c.client,
                mock,
                Duration::from_secs(2 * 365 * 86_400),
                None,
                None,
                &[],
            )
            .await;
            for s in &c.steps {
                match s {
                    Step::Publish(s) => w.lock().unwrap().publish(s.clone()),
                    Step::Wait(us) => sleep(Duration::from_micros(*us)).await,
                    Step::Yield => tokio::task::yield_now().await,
                    Step::Fnf => {
                        let _ = req.fire_and_forget(binate::Payload::builder().build());
                    }
                }
            }
            sleep(Duration::from_millis(1)).await;
            if c.end {
                w.lock().unwrap().end();
            }
            // another task lives on, and a lot of quiet time passes
            let other = tokio::spawn(async move {
                for _ in 0..20 {
                    sleep(Duration::from_secs(3600)).await;
                    *ticked.lock().unwrap() += 1;
                }
            });
            let _ = other.await;
            // before the runtime goes, and the tasks with it
            let w = w.lock().unwrap();
            w.subs.first().map_or(false, |s| s.dropped)
        })
    })?;
    let events = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
    let w = w.lock().unwrap();
    ensure!(
        !w.spinning,
        "the monitor polls or subscribes without end ({} polls, {} subscriptions, {} statuses)",
        w.polls,
        w.subs.len(),
        published
    );
    ensure!(*ticks.lock().unwrap() == 20, "another task was starved");
    ensure!(!w.subs.is_empty(), "the monitor never asked for the status");
    let bound = 8 * published + 32;
    ensure!(
        w.polls <= bound,
        "the monitor polled {} times for {} statuses: it does not wait idle",
        w.polls,
        published
    );
    // what its subscription was to bring: the status at that time, then all
    // later ones
    let first = &w.subs[0];
    let mut due: Vec<Status> = first.delivered.clone();
    due.extend(first.queue.iter().cloned());
    if gave_up && !c.end {
        return Err("the monitor gave up its subscription".into());
    }
    ensure!(
        first.queue.is_empty(),
        "{} published statuses were never observed",
        first.queue.len()
    );
    let due: Vec<&Status> = due
        .iter()
        .filter(|s| matches!(s, Status::Closed | Status::Error(_)))
        .collect();
    for (i, d) in due.iter().enumerate() {
        let e = match events.get(i) {
            Some(e) => e,
            None => {
                return Err(format!(
                    "{} reports for {} closures and errors; missing from {:?}",
                    events.len(),
                    due.len(),
                    d
                ))
            }
        };
        let ok = match d {
            Status::Closed => e.to_lowercase().contains("clos"),
            Status::Error(t) => {
                e.contains(t.as_str()) || e.contains(&format!("{:?}", t))
            }
            _ => true,
        };
        ensure!(ok, "report {} is {:?} for {:?}", i, e, d);
    }
    ensure!(
        events.len() == due.len(),
        "{} reports for {} closures and errors, e.g. {:?}",
        events.len(),
        due.len(),
        events[due.len()]
    );
    let waits = c.steps.iter().any(|s| matches!(s, Step::Wait(_)));
    Ok(Class::new(published > 2 && !due.is_empty())
        .label(due.len() > 2, "more than two closures or errors")
        .label(waits, "time passes between statuses")
        .label(c.end, "status stream ends")
        .label(c.initial == Status::Closed, "closed from the start"))
}

fn status() -> BoxedStrategy<Status> {
    let text = prop_oneof![
        4 => "[a-z]{1,8}",
        1 => Just(String::new()),
        1 => ".{0,20}",
        1 => "[{}%\\\\\"'\n ]{1,6}",
        1 => gen::long_text(),
        1 => gen::odd_text(),
    ];
    prop_oneof![
        1 => Just(Status::Unconnected),
        2 => Just(Status::Connecting),
        3 => Just(Status::Connected),
        3 => Just(Status::Closed),
        4 => text.prop_map(Status::Error),
    ]
    .boxed()
}

fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        6 => status().prop_map(Step::Publish),
        2 => gen::num(0, 86_400_000_000).prop_map(Step::Wait),
        2 => (0u64..5000).prop_map(Step::Wait),
        2 => Just(Step::Yield),
        1 => Just(Step::Fnf),
    ]
    .boxed()
}

pub fn c19() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c19-statuses",
            rule: "one case is the status at creation, a history of published \
statuses with gaps, and whether the status stream ends; non-trivial: at least \
two statuses were published after it and one is a closure or an error",
            quick: 640_000,
            thorough: 16_000_000,
            strategy: || {
                (status(), gen::history(step(), 30), any::<bool>(), any::<bool>())
                    .prop_map(|(initial, steps, end, client)| Monitor {
                        client,
                        initial,
                        steps,
                        end,
                    })
                    .boxed()
            },
            check: monitor,
        }),
        sub(Spec {
            name: "c19-long",
            rule: "as c19-statuses with up to 5,000 steps",
            quick: 1_600,
            thorough: 40_000,
            strategy: || {
                let steps = proptest::collection::vec(step(), 1..100);
                (status(), steps, 1usize..50, any::<bool>(), any::<bool>())
                    .prop_map(|(initial, steps, n, end, client)| {
                        let n = n * steps.len();
                        Monitor {
                            client,
                            initial,
                            steps: steps.into_iter().cycle().take(n).collect(),
                            end,
                        }
                    })
                    .boxed()
            },
            check: monitor,
        }),
    ]
}
