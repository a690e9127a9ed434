//! Interleavings of callers sharing a stream id provider (C13) or a permit
//! counter (C15): generated scenarios, each under loom's scheduler.
//! Built with `--cfg loom --cfg binate_verif`.
#![allow(dead_code)]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/permits.rs"]
mod permits;

use binate::connection::{RequestCounter, StreamIdProvider};
use dashmap::DashMap;
use engine::{guard, sub, Class, Spec, Sub, Verdict};
use permits::{explainable, Op, Seen};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

const MAX: u32 = 0x7fff_ffff;

/// Explores the interleavings of a scenario; `Err` is a panic of the code.
fn explore<F>(calls: usize, f: F) -> Result<u64, String>
where
    F: Fn() + Sync + Send + 'static,
{
    let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let m = n.clone();
    let mut b = loom::model::Builder::new();
    b.max_threads = 4;
    b.max_branches = 20_000;
    // all interleavings of small groups; of larger ones, those with up to
    // three preemptions
    b.preemption_bound = if calls > 4 { Some(3) } else { None };
    b.checkpoint_interval = 5_000;
    b.max_permutations = Some(40_000);
    if let Err(why) = guard(move || {
        b.check(move || {
            m.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            f()
        })
    }) {
        if !why.contains("Model exceeded maximum number of branches") {
            return Err(why);
        }
        // a limit of the exploration, not an outcome of the code
        driver::count("scenarios cut short", 1);
    }
    let n = n.load(std::sync::atomic::Ordering::Relaxed);
    driver::count("interleavings explored", n);
    Ok(n)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Call {
    /// Allocate.
    Next,
    /// Allocate and put the id in use.
    Open,
    /// Take the last id this thread opened out of use.
    Close,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Ids {
    client: bool,
    start: Option<u32>,
    /// In use, as places after the start in the side's cyclic order.
    in_use: Vec<u8>,
    /// Ids in use anywhere.
    others: Vec<u32>,
    threads: Vec<Vec<Call>>,
}

fn succ(id: u32) -> u32 {
    match id {
        0x7fff_ffff => 1,
        0x7fff_fffe => 2,
        n => n + 2,
    }
}

fn ids(c: &Ids) -> Verdict {
    let start = c.start.map(|s| {
        let s = s & MAX;
        if c.client {
            s | 1
        } else {
            (s & !1).max(2)
        }
    });
    let first = start.unwrap_or(if c.client { 1 } else { 2 });
    let mut used: HashSet<u32> = c.others.iter().map(|o| o & MAX).collect();
    for k in &c.in_use {
        let mut id = first;
        for _ in 0..*k {
            id = succ(id);
        }
        used.insert(id);
    }
    let used = Arc::new(used);
    let client = c.client;
    let threads = Arc::new(c.threads.clone());
    let failure: Arc<Mutex<Option<String>>> = Arc::default();
    let outcomes: Arc<Mutex<HashSet<Vec<Vec<u32>>>>> = Arc::default();
    let (f, o, u, t) =
        (failure.clone(), outcomes.clone(), used.clone(), threads.clone());
    let calls = c.threads.iter().map(|t| t.len()).sum::<usize>() + c.in_use.len();
    let n = explore(calls, move || {
        let p = loom::sync::Arc::new(match start {
            None if client => StreamIdProvider::new_for_client(),
            None => StreamIdProvider::new_for_server(),
            Some(s) => StreamIdProvider::verif_at(s as i32),
        });
        let store: Arc<DashMap<u32, ()>> = Arc::new(DashMap::new());
        for id in u.iter() {
            store.insert(*id, ());
        }
        let run = |i: usize| {
            let (p, store, t) = (p.clone(), store.clone(), t.clone());
            move || -> Vec<u32> {
                let mut got = Vec::new();
                let mut open = Vec::new();
                for call in &t[i] {
                    match call {
                        Call::Next => got.push(p.next_stream_id(&store)),
                        Call::Open => {
                            let id = p.next_stream_id(&store);
                            store.insert(id, ());
                            open.push(id);
                            got.push(id);
                        }
                        Call::Close => {
                            if let Some(id) = open.pop() {
                                store.remove(&id);
                            }
                        }
                    }
                }
                got
            }
        };
        let handles: Vec<_> =
            (1..t.len()).map(|i| loom::thread::spawn(run(i))).collect();
        let mut all = vec![run(0)()];
        for h in handles {
            all.push(h.join().expect("thread"));
        }
        let mut seen = HashSet::new();
        for (i, id) in all.iter().flatten().enumerate() {
            let why = if !seen.insert(*id) {
                "was handed out twice"
            } else if !(1..=MAX).contains(id) {
                "is out of range"
            } else if (id % 2 == 1) != client {
                "is the other side's"
            } else if u.contains(id) {
                "is in use"
            } else {
                continue;
            };
            let _ = i;
            f.lock().unwrap().get_or_insert_with(|| {
                format!("stream id {:#x} {}: the threads got {:x?}", id, why, all)
            });
        }
        o.lock().unwrap().insert(all);
    })?;
    if let Some(why) = failure.lock().unwrap().take() {
        return Err(why);
    }
    let outcomes = outcomes.lock().unwrap().len();
    let wraps = c.start.map_or(false, |_| first > MAX - 40);
    Ok(Class::new(outcomes > 1)
        .label(c.threads.len() > 2, "three threads")
        .label(!c.in_use.is_empty(), "ids in use ahead")
        .label(wraps, "near the wrap")
        .label(n >= 1000, "1000 interleavings or more"))
}

fn c13() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c13-interleavings",
        rule: "one case is a side, a position of the id sequence, the ids in \
use, and 2-3 threads with 1-3 calls each; every interleaving of their atomic \
steps is run (with more than four calls and ids in use: those with up to three \
preemptions); non-trivial: the interleavings led to more than one outcome",
        quick: 4_000,
        thorough: 60_000,
        strategy: || {
            let call = prop_oneof![
                4 => Just(Call::Next),
                2 => Just(Call::Open),
                1 => Just(Call::Close),
            ];
            let start = prop_oneof![
                2 => Just(None),
                3 => (0u32..12).prop_map(|d| Some(MAX - d)),
                1 => any::<u32>().prop_map(Some),
            ];
            (
                any::<bool>(),
                start,
                proptest::collection::vec(0u8..5, 0..3),
                proptest::collection::vec(
                    prop_oneof![any::<u32>(), 0u32..10, MAX - 10..=MAX],
                    0..3,
                ),
                prop_oneof![
                    3 => proptest::collection::vec(
                        proptest::collection::vec(call.clone(), 1..4), 2..3),
                    2 => proptest::collection::vec(
                        proptest::collection::vec(call, 1..3), 3..4),
                ],
            )
                .prop_map(|(client, start, in_use, others, threads)| Ids {
                    client,
                    start,
                    in_use,
                    others,
                    threads,
                })
                .boxed()
        },
        check: ids,
    })]
}

fn counter(c: &permits::Scenario) -> Verdict {
    let threads = Arc::new(c.threads.clone());
    let start = c.start;
    let failure: Arc<Mutex<Option<String>>> = Arc::default();
    type Outcome = (Vec<Vec<Seen>>, i64);
    let outcomes: Arc<Mutex<HashSet<Outcome>>> = Arc::default();
    let (f, o, t) = (failure.clone(), outcomes.clone(), threads.clone());
    let calls = c.threads.iter().map(|t| t.len()).sum::<usize>();
    let n = explore(calls, move || {
        let k = loom::sync::Arc::new(RequestCounter::new(start));
        let run = |i: usize| {
            let (k, t) = (k.clone(), t.clone());
            move || -> Vec<Seen> { t[i].iter().map(|op| op.run(&k)).collect() }
        };
        let handles: Vec<_> =
            (1..t.len()).map(|i| loom::thread::spawn(run(i))).collect();
        let mut all = vec![run(0)()];
        for h in handles {
            all.push(h.join().expect("thread"));
        }
        let last = k.load() as i64;
        let mut o = o.lock().unwrap();
        let outcome = (all, last);
        if !o.contains(&outcome) {
            if !explainable(start, &t, &outcome.0, last) {
                f.lock().unwrap().get_or_insert_with(|| {
                    format!(
                        "no one-at-a-time order explains {:?} with {} left",
                        outcome.0, last
                    )
                });
            }
            o.insert(outcome);
        }
    })?;
    if let Some(why) = failure.lock().unwrap().take() {
        return Err(why);
    }
    let outcomes = outcomes.lock().unwrap().len();
    let adds = c.threads.iter().flatten().any(|o| matches!(o, Op::Add(_)));
    Ok(Class::new(outcomes > 1)
        .label(c.threads.len() > 2, "three threads")
        .label(adds, "grants")
        .label(n >= 1000, "1000 interleavings or more"))
}

fn c15() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c15-interleavings",
        rule: "one case is an initial count and 2-3 threads with 1-3 calls \
each; every interleaving of their atomic steps is run (with more than four \
calls: those with up to three preemptions); non-trivial: the interleavings led \
to more than one outcome",
        quick: 4_000,
        thorough: 60_000,
        strategy: || permits::scenario(3),
        check: counter,
    })]
}

fn main() {
    driver::main(&["C13", "C15"], |p, _| match p {
        "C13" => Some(c13()),
        "C15" => Some(c15()),
        _ => None,
    })
}
