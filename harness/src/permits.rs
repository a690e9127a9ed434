//! Concurrent histories of a permit counter and what explains them.
use binate::connection::RequestCounter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

const MAX: u32 = 0x7fff_ffff;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Add(u32),
    Dec,
    Load,
    IsZero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Seen {
    Nothing,
    Count(i64),
    Zero(bool),
}

impl Op {
    pub fn run(self, c: &RequestCounter) -> Seen {
        match self {
            Op::Add(n) => {
                c.add(n & MAX);
                Seen::Nothing
            }
            Op::Dec => Seen::Count(c.dec() as i64),
            Op::Load => Seen::Count(c.load() as i64),
            Op::IsZero => Seen::Zero(c.is_zero()),
        }
    }
    /// On the model.
    fn step(self, n: i64) -> (i64, Seen) {
        match self {
            Op::Add(k) => {
                ((n + (k & MAX) as i64).min(MAX as i64), Seen::Nothing)
            }
            Op::Dec => (n - 1, Seen::Count(n)),
            Op::Load => (n, Seen::Count(n)),
            Op::IsZero => (n, Seen::Zero(n == 0)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Scenario {
    pub start: u32,
    pub threads: Vec<Vec<Op>>,
}

/// Is there an order of the calls, each thread's own kept, that gives these
/// results and leaves this count?
pub fn explainable(
    start: u32,
    threads: &[Vec<Op>],
    seen: &[Vec<Seen>],
    last: i64,
) -> bool {
    fn go(
        at: &mut Vec<usize>,
        n: i64,
        threads: &[Vec<Op>],
        seen: &[Vec<Seen>],
        last: i64,
        dead: &mut HashSet<(Vec<usize>, i64)>,
    ) -> bool {
        if at.iter().zip(threads).all(|(a, t)| *a == t.len()) {
            return n == last;
        }
        if dead.contains(&(at.clone(), n)) {
            return false;
        }
        for i in 0..threads.len() {
            if at[i] == threads[i].len() {
                continue;
            }
            let (m, s) = threads[i][at[i]].step(n);
            if s == seen[i][at[i]] {
                at[i] += 1;
                let ok = go(at, m, threads, seen, last, dead);
                at[i] -= 1;
                if ok {
                    return true;
                }
            }
        }
        dead.insert((at.clone(), n));
        false
    }
    go(
        &mut vec![0; threads.len()],
        (start & MAX) as i64,
        threads,
        seen,
        last,
        &mut HashSet::new(),
    )
}

pub fn scenario(max_threads: usize) -> BoxedStrategy<Scenario> {
    let op = prop_oneof![
        3 => (0u32..4).prop_map(Op::Add),
        1 => (0u32..4).prop_map(|d| Op::Add(MAX - d)),
        5 => Just(Op::Dec),
        1 => Just(Op::Load),
        1 => Just(Op::IsZero),
    ];
    let start = prop_oneof![
        3 => 0u32..4,
        2 => (0u32..4).prop_map(|d| MAX - d),
        1 => any::<u32>(),
    ];
    let threads = prop_oneof![
        3 => proptest::collection::vec(
            proptest::collection::vec(op.clone(), 1..4), 2..3),
        2 => proptest::collection::vec(
            proptest::collection::vec(op, 1..3), max_threads..max_threads + 1),
    ];
    (start, threads)
        .prop_map(|(start, threads)| Scenario { start, threads })
        .boxed()
}
