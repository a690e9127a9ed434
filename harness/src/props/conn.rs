//! Stream ids and permits, one caller at a time.
use crate::hooks;
use crate::engine::{exhaustive_within, guard, sub, Class, Spec, Sub, Verdict};
use crate::ensure;
use crate::gen;
use binate::connection::{RequestCounter, StreamIdProvider};
use dashmap::DashMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const MAX: u32 = 0x7fff_ffff;

/// The next id of the same side, in cyclic order. Zero is no id.
pub fn succ(id: u32) -> u32 {
    match id {
        0x7fff_ffff => 1,
        0x7fff_fffe => 2,
        n => n + 2,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum IdOp {
    Next,
    /// Use the id this many places after the next candidate.
    Occupy(u16),
    /// Use this many ids from the next candidate on.
    OccupyRun(u16),
    OccupyAny(u32),
    /// Use the id handed out this many allocations ago.
    OccupyRecent(u8),
    /// Free one of the ids in use.
    Free(u16),
    FreeAll,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ids {
    client: bool,
    /// Position of the sequence: `None` for a fresh provider.
    start: Option<u32>,
    /// The position as the counter holds it after overflowing.
    negative: bool,
    ops: Vec<IdOp>,
}

fn ids(c: &Ids) -> Verdict {
    // A position on our side; zero is the place before the server's wrap.
    let start = c.start.filter(|_| hooks::HOOKS).map(|s| {
        let s = s & MAX;
        if c.client {
            s | 1
        } else {
            s & !1
        }
    });
    let p = match start {
        None if c.client => guard(StreamIdProvider::new_for_client)?,
        None => guard(StreamIdProvider::new_for_server)?,
        Some(s) => {
            let raw = if c.negative { s | 1 << 31 } else { s };
            guard(|| hooks::provider_at(raw as i32))?
        }
    };
    let mut next = match start {
        None if c.client => 1,
        None => 2,
        Some(0) => 2,
        Some(s) => s,
    };
    let store: DashMap<u32, ()> = DashMap::new();
    let mut used: BTreeSet<u32> = BTreeSet::new();
    let mut given: Vec<u32> = Vec::new();
    let (mut wraps, mut skips) = (0u32, 0u32);
    let occupy = |id: u32, used: &mut BTreeSet<u32>| {
        if used.len() < 6000 && used.insert(id) {
            store.insert(id, ());
        }
    };
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            IdOp::Occupy(k) => {
                let mut id = next;
                for _ in 0..*k {
                    id = succ(id);
                }
                occupy(id, &mut used);
            }
            IdOp::OccupyRun(k) => {
                let mut id = next;
                for _ in 0..*k {
                    occupy(id, &mut used);
                    id = succ(id);
                }
            }
            IdOp::OccupyAny(id) => occupy(*id & MAX, &mut used),
            IdOp::OccupyRecent(k) => {
                if let Some(&id) = given.iter().rev().nth(*k as usize) {
                    occupy(id, &mut used);
                }
            }
            IdOp::Free(k) => {
                if !used.is_empty() {
                    let id = *used.iter().nth(*k as usize % used.len()).unwrap();
                    used.remove(&id);
                    store.remove(&id);
                }
            }
            IdOp::FreeAll => {
                used.clear();
                store.clear();
            }
            IdOp::Next => {
                let id = guard(|| p.next_stream_id(&store))?;
                ensure!(
                    (1..=MAX).contains(&id),
                    "step {}: stream id {:#x} is out of range",
                    i,
                    id
                );
                ensure!(
                    (id % 2 == 1) == c.client,
                    "step {}: stream id {:#x} is the other side's",
                    i,
                    id
                );
                ensure!(
                    !used.contains(&id),
                    "step {}: stream id {:#x} is in use",
                    i,
                    id
                );
                ensure!(
                    !given.contains(&id),
                    "step {}: stream id {:#x} was handed out before",
                    i,
                    id
                );
                let mut want = next;
                while used.contains(&want) {
                    skips += 1;
                    wraps += (succ(want) < want) as u32;
                    want = succ(want);
                }
                ensure!(
                    id == want,
                    "step {}: stream id {:#x} instead of the next available {:#x}",
                    i,
                    id,
                    want
                );
                wraps += (succ(want) < want) as u32;
                next = succ(want);
                given.push(id);
            }
        }
        ensure!(
            store.len() == used.len(),
            "step {}: allocation changed the set of ids in use",
            i
        );
    }
    Ok(Class::new(given.len() > 1 && (wraps > 0 || skips > 0))
        .label(wraps > 0, "wraps around")
        .label(skips > 0, "skips ids in use")
        .label(skips > 0 && wraps > 0, "skips and wraps")
        .label(given.len() > 64, "more than 64 allocations")
        .label(!c.client, "server"))
}

fn id_op() -> BoxedStrategy<IdOp> {
    prop_oneof![
        16 => Just(IdOp::Next),
        4 => (0u16..6).prop_map(IdOp::Occupy),
        1 => (0u16..60).prop_map(IdOp::Occupy),
        2 => (0u16..20).prop_map(IdOp::OccupyRun),
        1 => gen::num(0, 1500).prop_map(|k| IdOp::OccupyRun(k as u16)),
        1 => gen::num32(0, u32::MAX).prop_map(IdOp::OccupyAny),
        1 => prop::sample::select(vec![0u32, 1, 2, 3, MAX - 2, MAX - 1, MAX])
            .prop_map(IdOp::OccupyAny),
        2 => (0u8..8).prop_map(IdOp::OccupyRecent),
        1 => any::<u16>().prop_map(IdOp::Free),
        1 => Just(IdOp::FreeAll),
    ]
    .boxed()
}

fn id_case(max: usize) -> BoxedStrategy<Ids> {
    let start = prop_oneof![
        2 => Just(None),
        4 => (0u32..40).prop_map(|d| Some(MAX - d)),
        1 => (0u32..1000).prop_map(|d| Some(MAX - d)),
        1 => Just(Some(0)),
        2 => gen::num32(0, MAX).prop_map(Some),
    ];
    (any::<bool>(), start, any::<bool>(), gen::history(id_op(), max))
        .prop_map(|(client, start, negative, ops)| Ids { client, start, negative, ops })
        .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Lap {
    client: bool,
}

/// Every id of one side, in order, and back to the first.
fn lap(c: &Lap) -> Verdict {
    let p = if c.client {
        StreamIdProvider::new_for_client()
    } else {
        StreamIdProvider::new_for_server()
    };
    let store: DashMap<u32, ()> = DashMap::new();
    let first = if c.client { 1 } else { 2 };
    let mut want = first;
    loop {
        let id = p.next_stream_id(&store);
        ensure!(
            id == want,
            "stream id {:#x} instead of {:#x} on a full pass",
            id,
            want
        );
        want = succ(want);
        if want == first {
            break;
        }
    }
    let id = p.next_stream_id(&store);
    ensure!(id == first, "after a full pass: {:#x}", id);
    Ok(Class::new(true).label(true, "full pass over the side's ids"))
}

const SPAN: u32 = 1 << 22;

/// One stretch of `SPAN` ids from one position on.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Span {
    client: bool,
    /// As the counter holds it, so including those after it overflowed.
    position: u32,
}

fn span(c: &Span) -> Verdict {
    if !hooks::HOOKS {
        return Ok(Class::new(false));
    }
    let first = (c.position & !1) | c.client as u32;
    let p = guard(|| hooks::provider_at(first as i32))?;
    let store: DashMap<u32, ()> = DashMap::new();
    let mut want = match first & MAX {
        0 => 2,
        n => n,
    };
    guard(|| {
        for _ in 0..SPAN {
            let id = p.next_stream_id(&store);
            ensure!(
                id == want,
                "stream id {:#x} instead of {:#x}, from position {:#x}",
                id,
                want,
                first
            );
            want = succ(want);
        }
        Ok(())
    })??;
    Ok(Class::new(true).label(c.position > MAX, "after the counter overflowed"))
}

/// All ids of both sides, in stretches; for the release profile.
pub fn c12_spans() -> Sub {
    exhaustive_within(
        "c12-all-ids",
        "every position of both sides' sequences, 2^22 allocations to a case",
        || {
            Box::new([true, false].into_iter().flat_map(|client| {
                (0..1u64 << 32)
                    .step_by(2 * SPAN as usize)
                    .map(move |p| Span { client, position: p as u32 })
            }))
        },
        span,
        std::time::Duration::from_secs(120),
    )
}

pub fn c12() -> Vec<Sub> {
    vec![
        sub(Spec {
            name: "c12-histories",
            rule: "one case is a side, a position of the id sequence and a \
history of allocations and changes to the ids in use; non-trivial: at least \
two allocations, and a wrap or a skipped id",
            quick: 1_280_000,
            thorough: 32_000_000,
            strategy: || id_case(40),
            check: ids,
        }),
        sub(Spec {
            name: "c12-long",
            rule: "as c12-histories with up to 3000 steps",
            quick: 16_000,
            thorough: 400_000,
            strategy: || id_case(3000),
            check: ids,
        }),
    ]
}

/// 2^30 allocations per side: for the thorough tier in the release profile.
pub fn c12_lap() -> Sub {
    exhaustive_within(
        "c12-full-pass",
        "both sides, all their ids",
        || Box::new([true, false].into_iter().map(|client| Lap { client })),
        lap,
        std::time::Duration::from_secs(1800),
    )
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum PermitOp {
    Add(u32),
    Dec,
    DecMany(u16),
    Load,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Permits {
    start: u32,
    ops: Vec<PermitOp>,
}

fn permits(c: &Permits) -> Verdict {
    let counter = guard(|| RequestCounter::new(c.start))?;
    let mut model = (c.start & MAX) as i64;
    let (mut saturated, mut below, mut zero, mut decs) = (0, 0, 0, 0);
    let one = |model: &mut i64, i: usize| -> Result<(), String> {
        let got = guard(|| counter.dec())? as i64;
        ensure!(
            got == *model,
            "step {}: dec() returned {} instead of {}",
            i,
            got,
            model
        );
        *model -= 1;
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            PermitOp::Add(n) => {
                let n = n & MAX;
                guard(|| counter.add(n))
                    .map_err(|e| format!("step {}: add({}) at {}: {}", i, n, model, e))?;
                if model + n as i64 > MAX as i64 {
                    saturated += 1;
                }
                model = (model + n as i64).min(MAX as i64);
            }
            PermitOp::Dec => {
                one(&mut model, i)?;
                decs += 1;
            }
            PermitOp::DecMany(n) => {
                for _ in 0..*n {
                    one(&mut model, i)?;
                }
                decs += (*n > 0) as i32;
            }
            PermitOp::Load => (),
        }
        zero += (model == 0) as i32;
        below += (model < 0) as i32;
        let (got, is_zero) = (counter.load() as i64, counter.is_zero());
        ensure!(
            got == model,
            "step {} ({:?}): the count is {} instead of {}",
            i,
            op,
            got,
            model
        );
        ensure!(
            is_zero == (model == 0),
            "step {} ({:?}): is_zero() is {} at {}",
            i,
            op,
            is_zero,
            model
        );
    }
    Ok(Class::new(c.ops.len() > 1 && decs > 0)
        .label(saturated > 0, "a grant beyond the maximum")
        .label(below > 0, "consumed below zero")
        .label(zero > 0, "count reaches zero"))
}

pub fn c14() -> Vec<Sub> {
    vec![sub(Spec {
        name: "c14-permits",
        rule: "one case is an initial count and a history of grants, \
consumptions and queries; non-trivial: at least two steps, one a consumption",
        quick: 1_600_000,
        thorough: 40_000_000,
        strategy: || {
            let add = prop_oneof![
                3 => (0u32..6).prop_map(PermitOp::Add),
                3 => gen::num32(0, MAX).prop_map(PermitOp::Add),
            ];
            let op = prop_oneof![
                4 => add,
                6 => Just(PermitOp::Dec),
                1 => (0u16..300).prop_map(PermitOp::DecMany),
                1 => Just(PermitOp::Load),
            ];
            let start = prop_oneof![
                2 => 0u32..6,
                1 => (0u32..4).prop_map(|d| MAX - d),
                2 => gen::num32(0, u32::MAX),
            ];
            (start, gen::history(op.boxed(), 60))
                .prop_map(|(start, ops)| Permits { start, ops })
                .boxed()
        },
        check: permits,
    })]
}
