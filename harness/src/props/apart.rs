//! Objects of the same kind have nothing to do with each other.
use crate::blob::Blob;
use crate::engine::{guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use crate::hooks::{self, Buffers};
use binate::connection::{RequestCounter, StreamIdProvider};
use bytes::{Buf, Bytes};
use dashmap::DashMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const MAX: u32 = 0x7fff_ffff;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    /// A new one of each.
    Another { client: bool, start: Option<u32>, permits: u32 },
    /// One of each goes.
    Drop,
    Push(Blob),
    Advance(u16),
    Take(u16),
    NextId,
    Use(u8),
    Free,
    Add(u32),
    Dec,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Steps {
    steps: Vec<(u8, Step)>,
}

/// One of each kind, and what it should be.
struct Set {
    list: Buffers<Bytes>,
    bytes: Vec<u8>,
    ids: StreamIdProvider,
    store: DashMap<u32, ()>,
    used: BTreeSet<u32>,
    next: u32,
    counter: RequestCounter,
    permits: i64,
}

impl Set {
    fn new(client: bool, start: Option<u32>, permits: u32) -> Set {
        let ids = match start {
            None if client => StreamIdProvider::new_for_client(),
            None => StreamIdProvider::new_for_server(),
            Some(n) => hooks::provider_at(((n & MAX & !1) | client as u32) as i32),
        };
        Set {
            list: Buffers::new(),
            bytes: Vec::new(),
            ids,
            store: DashMap::new(),
            used: BTreeSet::new(),
            next: match start {
                None if client => 1,
                None => 2,
                Some(n) => match (n & MAX & !1) | client as u32 {
                    0 => 2,
                    n => n,
                },
            },
            counter: RequestCounter::new(permits & MAX),
            permits: (permits & MAX) as i64,
        }
    }

    fn same(&self) -> Result<(), String> {
        let b = &self.bytes;
        ensure!(
            self.list.remaining() == b.len(),
            "its buffer list holds {} bytes instead of {}",
            self.list.remaining(),
            b.len()
        );
        let c = self.list.chunk();
        ensure!(
            b.starts_with(c) && c.is_empty() == b.is_empty(),
            "its buffer list begins with other bytes"
        );
        ensure!(
            self.counter.load() as i64 == self.permits
                && self.counter.is_zero() == (self.permits == 0),
            "its counter is at {} instead of {}",
            self.counter.load(),
            self.permits
        );
        ensure!(
            self.store.len() == self.used.len(),
            "its set of ids in use has {} members instead of {}",
            self.store.len(),
            self.used.len()
        );
        Ok(())
    }

    fn step(&mut self, step: &Step) -> Result<(), String> {
        match step {
            Step::Another { .. } | Step::Drop => (),
            // pieces have at least one byte
            Step::Push(b) if b.len() == 0 => (),
            Step::Push(b) => {
                self.list.push(b.bytes());
                self.bytes.extend_from_slice(&b.bytes());
            }
            Step::Advance(n) => {
                let n = (*n as usize).min(self.bytes.len());
                self.list.advance(n);
                self.bytes.drain(..n);
            }
            Step::Take(n) => {
                let n = (*n as usize).min(self.bytes.len());
                let got = self.list.copy_to_bytes(n);
                let want: Vec<u8> = self.bytes.drain(..n).collect();
                ensure!(got == want, "its buffer list gave other bytes");
            }
            Step::NextId => {
                let id = self.ids.next_stream_id(&self.store);
                let mut want = self.next;
                while self.used.contains(&want) {
                    want = super::conn::succ(want);
                }
                ensure!(
                    id == want,
                    "stream id {:#x} instead of {:#x}, the next of its sequence",
                    id,
                    want
                );
                self.next = super::conn::succ(want);
            }
            Step::Use(k) => {
                let mut id = self.next;
                for _ in 0..*k {
                    id = super::conn::succ(id);
                }
                self.store.insert(id, ());
                self.used.insert(id);
            }
            Step::Free => {
                self.store.clear();
                self.used.clear();
            }
            Step::Add(n) => {
                self.counter.add(n & MAX);
                self.permits = (self.permits + (n & MAX) as i64).min(MAX as i64);
            }
            Step::Dec => {
                let got = self.counter.dec() as i64;
                ensure!(
                    got == self.permits,
                    "its counter was at {} instead of {}",
                    got,
                    self.permits
                );
                self.permits -= 1;
            }
        }
        Ok(())
    }
}

fn apart(c: &Steps) -> Verdict {
    let mut sets: Vec<Set> = vec![];
    let (mut most, mut switches, mut last) = (0, 0, usize::MAX);
    for (i, (who, step)) in c.steps.iter().enumerate() {
        if let Step::Another { client, start, permits } = step {
            if sets.len() < 5 {
                sets.push(guard(|| Set::new(*client, *start, *permits))?);
            }
        }
        if sets.is_empty() {
            continue;
        }
        let who = *who as usize % sets.len();
        if *step == Step::Drop {
            drop(sets.remove(who));
        } else {
            let s = &mut sets[who];
            guard(|| s.step(step))
                .and_then(|r| r)
                .map_err(|e| format!("step {} ({:?} on set {}): {}", i, step, who, e))?;
        }
        for (k, s) in sets.iter().enumerate() {
            guard(|| s.same()).and_then(|r| r).map_err(|e| {
                format!("step {} ({:?} on set {}): set {}: {}", i, step, who, k, e)
            })?;
        }
        most = most.max(sets.len());
        switches += (last != who) as u32;
        last = who;
    }
    Ok(Class::new(most > 1 && switches > 2)
        .label(most > 2, "at least three of each")
        .label(c.steps.len() > 20, "more than 20 steps"))
}

pub fn c30() -> Vec<Sub> {
    let mut all = vec![sub(Spec {
        name: "c30-parts",
        rule: "one case is a history in which up to 5 sets of a buffer list, a \
stream id provider and a permit counter come, are used and go; non-trivial: \
at least two at a time, used in turn",
        quick: 320_000,
        thorough: 8_000_000,
        strategy: || {
            let start = || prop_oneof![
                2 => Just(None),
                1 => (0u32..10).prop_map(|d| Some(MAX - d)),
                1 => gen::num32(0, MAX).prop_map(Some),
            ];
            let permits = || prop_oneof![2 => 0u32..6, 1 => gen::num32(0, MAX)];
            let another = move || {
                (any::<bool>(), start(), permits()).prop_map(
                    |(client, start, permits)| Step::Another { client, start, permits },
                )
            };
            let step = prop_oneof![
                3 => another(),
                1 => Just(Step::Drop),
                3 => gen::blob(40).prop_map(Step::Push),
                2 => (0u16..60).prop_map(Step::Advance),
                2 => (0u16..60).prop_map(Step::Take),
                5 => Just(Step::NextId),
                2 => (0u8..4).prop_map(Step::Use),
                1 => Just(Step::Free),
                2 => permits().prop_map(Step::Add),
                3 => Just(Step::Dec),
            ];
            let steps = gen::history((any::<u8>(), step).boxed(), 60);
            ((any::<u8>(), another()), (any::<u8>(), another()), steps)
                .prop_map(|(a, b, steps)| {
                    Steps { steps: [a, b].into_iter().chain(steps).collect() }
                })
                .boxed()
        },
        check: apart,
    })];
    all.push(super::requester::c30());
    all.extend(super::monitor::c30());
    all
}
