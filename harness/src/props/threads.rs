//! Real threads on shared allocators and counters. What loom explores
//! step by step for small groups is hammered here with larger ones.
use super::conn::succ;
use crate::hooks;
use crate::engine::{sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::permits::{explainable, scenario, Scenario, Seen};
use binate::connection::{RequestCounter, StreamIdProvider};
use dashmap::DashMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::Barrier;

const MAX: u32 = 0x7fff_ffff;

/// Runs the threads of a case together.
fn together<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let barrier = Barrier::new(n);
    let (f, barrier) = (&f, &barrier);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                s.spawn(move || {
                    barrier.wait();
                    f(i)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ids {
    client: bool,
    start: Option<u32>,
    in_use: Vec<u8>,
    /// Allocations of each thread.
    threads: Vec<u8>,
    open: bool,
}

fn ids(c: &Ids) -> Verdict {
    let start = c.start.filter(|_| hooks::HOOKS).map(|s| {
        let s = s & MAX;
        if c.client {
            s | 1
        } else {
            (s & !1).max(2)
        }
    });
    let p = match start {
        None if c.client => StreamIdProvider::new_for_client(),
        None => StreamIdProvider::new_for_server(),
        Some(s) => hooks::provider_at(s as i32),
    };
    let first = start.unwrap_or(if c.client { 1 } else { 2 });
    let store: DashMap<u32, ()> = DashMap::new();
    let mut used = HashSet::new();
    for k in &c.in_use {
        let mut id = first;
        for _ in 0..*k {
            id = succ(id);
        }
        store.insert(id, ());
        used.insert(id);
    }
    let got = together(c.threads.len(), |i| {
        (0..c.threads[i])
            .map(|_| {
                let id = p.next_stream_id(&store);
                if c.open {
                    store.insert(id, ());
                }
                id
            })
            .collect::<Vec<u32>>()
    });
    let mut seen = HashSet::new();
    for (t, ids) in got.iter().enumerate() {
        for id in ids {
            ensure!(
                (1..=MAX).contains(id) && (id % 2 == 1) == c.client,
                "thread {}: stream id {:#x} is not one of this side's",
                t,
                id
            );
            ensure!(!used.contains(id), "thread {}: stream id {:#x} is in use", t, id);
            ensure!(
                seen.insert(*id),
                "thread {}: stream id {:#x} was handed out twice",
                t,
                id
            );
        }
    }
    let busy = c.threads.iter().filter(|n| **n > 0).count();
    Ok(Class::new(busy > 1)
        .label(busy > 4, "more than four threads")
        .label(start.map_or(false, |s| s > MAX - 2000), "near the wrap"))
}

pub fn c13() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c13-threads",
        rule: "one case is a position, the ids in use, and 2-8 real threads \
with up to 255 allocations each; non-trivial: two threads or more allocate",
        quick: 6_000,
        thorough: 200_000,
        strategy: || {
            let start = prop_oneof![
                1 => Just(None),
                3 => (0u32..1500).prop_map(|d| Some(MAX - d)),
                1 => any::<u32>().prop_map(Some),
            ];
            (
                any::<bool>(),
                start,
                proptest::collection::vec(any::<u8>(), 0..20),
                proptest::collection::vec(any::<u8>(), 2..9),
                any::<bool>(),
            )
                .prop_map(|(client, start, in_use, threads, open)| Ids {
                    client,
                    start,
                    in_use,
                    threads,
                    open,
                })
                .boxed()
        },
        check: ids,
    })]
}

fn counts(c: &Scenario) -> Verdict {
    // several rounds: one is over too soon to interleave
    let rounds = 20;
    let counters: Vec<RequestCounter> =
        (0..rounds).map(|_| RequestCounter::new(c.start)).collect();
    let seen: Vec<Vec<Vec<Seen>>> = together(c.threads.len(), |i| {
        counters
            .iter()
            .map(|k| c.threads[i].iter().map(|op| op.run(k)).collect())
            .collect()
    });
    let mut outcomes = HashSet::new();
    for (r, k) in counters.iter().enumerate() {
        let round: Vec<Vec<Seen>> = seen.iter().map(|t| t[r].clone()).collect();
        let last = k.load() as i64;
        if outcomes.insert((round.clone(), last)) {
            ensure!(
                explainable(c.start, &c.threads, &round, last),
                "no one-at-a-time order explains {:?} with {} left",
                round,
                last
            );
        }
    }
    Ok(Class::new(outcomes.len() > 1))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Crowd {
    start: u32,
    /// Grants of one permit and consumptions, per thread.
    threads: Vec<(u16, u16)>,
}

/// Many calls: the totals, and no count told twice without grants.
fn crowd(c: &Crowd) -> Verdict {
    let k = RequestCounter::new(c.start);
    let seen = together(c.threads.len(), |i| {
        let (mut adds, mut decs) = c.threads[i];
        let mut seen = Vec::new();
        while adds > 0 || decs > 0 {
            if decs > 0 {
                decs -= 1;
                seen.push(k.dec());
            }
            if adds > 0 {
                adds -= 1;
                k.add(1);
            }
        }
        seen
    });
    let adds: i64 = c.threads.iter().map(|t| t.0 as i64).sum();
    let decs: i64 = c.threads.iter().map(|t| t.1 as i64).sum();
    // far from the maximum, so that no grant is cut short
    let want = c.start as i64 + adds - decs;
    ensure!(
        k.load() as i64 == want,
        "{} permits left instead of {}",
        k.load(),
        want
    );
    if adds == 0 {
        let mut all: Vec<i32> = seen.iter().flatten().copied().collect();
        all.sort_unstable();
        ensure!(
            all.windows(2).all(|w| w[0] != w[1]),
            "two consumers were told the same count"
        );
        for s in &seen {
            ensure!(
                s.windows(2).all(|w| w[0] > w[1]),
                "one consumer saw the count grow without a grant"
            );
        }
    }
    Ok(Class::new(c.threads.len() > 1 && decs > 0).label(adds == 0, "no grants"))
}

pub fn c15() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c15-threads",
            rule: "one case is an initial count and 2-4 real threads with 1-3 \
calls each, run 20 times; non-trivial: more than one outcome was seen",
            quick: 6_000,
            thorough: 200_000,
            strategy: || scenario(4),
            check: counts,
        }),
        sub(Spec {
            name: "c15-crowd",
            rule: "one case is an initial count and 2-8 real threads with up \
to 3000 calls each; non-trivial: there are consumptions",
            quick: 2_000,
            thorough: 60_000,
            strategy: || {
                let t = prop_oneof![
                    1 => (Just(0u16), 0u16..3000),
                    1 => (0u16..1500, 0u16..1500),
                ];
                (0u32..100_000, any::<bool>(), proptest::collection::vec(t, 2..9))
                    .prop_map(|(start, grants, mut threads)| {
                        if !grants {
                            for t in &mut threads {
                                t.0 = 0;
                            }
                        }
                        Crowd { start, threads }
                    })
                    .boxed()
            },
            check: crowd,
        }),
    ]
}
