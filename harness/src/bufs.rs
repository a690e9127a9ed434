//! A buffer in pieces that counts accesses, and an allocator that counts
//! bytes per thread.
use bytes::{Buf, Bytes};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::VecDeque;

pub struct SegBuf {
    parts: VecDeque<Bytes>,
    left: usize,
    accesses: Cell<u64>,
    limit: u64,
}

impl SegBuf {
    pub fn new(parts: Vec<Bytes>) -> SegBuf {
        SegBuf::limited(parts, u64::MAX)
    }
    /// Panics after `limit` accesses: work out of bounds is a violation, not
    /// a hang.
    pub fn limited(parts: Vec<Bytes>, limit: u64) -> SegBuf {
        let parts: VecDeque<Bytes> =
            parts.into_iter().filter(|p| !p.is_empty()).collect();
        let left = parts.iter().map(|p| p.len()).sum();
        SegBuf { parts, left, accesses: Cell::new(0), limit }
    }
    pub fn accesses(&self) -> u64 {
        self.accesses.get()
    }
    fn tick(&self) {
        let n = self.accesses.get() + 1;
        self.accesses.set(n);
        if n > self.limit {
            panic!("more than {} buffer accesses", self.limit);
        }
    }
}

impl Buf for SegBuf {
    fn remaining(&self) -> usize {
        self.tick();
        self.left
    }
    fn chunk(&self) -> &[u8] {
        self.tick();
        self.parts.front().map(|b| &b[..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut cnt: usize) {
        self.tick();
        assert!(cnt <= self.left, "advance past the end of the input");
        self.left -= cnt;
        while cnt > 0 {
            let front = self.parts.front_mut().unwrap();
            let n = front.len().min(cnt);
            front.advance(n);
            cnt -= n;
            if front.is_empty() {
                self.parts.pop_front();
            }
        }
    }
}

/// Cuts at the given positions (taken modulo the length).
pub fn cut(b: &Bytes, cuts: &[u32]) -> Vec<Bytes> {
    if b.is_empty() {
        return Vec::new();
    }
    let mut at: Vec<usize> =
        cuts.iter().map(|&c| c as usize % (b.len() + 1)).collect();
    at.push(0);
    at.push(b.len());
    at.sort_unstable();
    at.dedup();
    at.windows(2).map(|w| b.slice(w[0]..w[1])).collect()
}

pub struct Counting;

thread_local! {
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
}

fn count(n: usize) {
    let _ = ALLOCATED.try_with(|a| a.set(a.get().wrapping_add(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

/// Bytes allocated by this thread while `f` ran.
pub fn allocated<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = ALLOCATED.with(|a| a.get());
    let r = f();
    let after = ALLOCATED.with(|a| a.get());
    (r, after.wrapping_sub(before))
}
