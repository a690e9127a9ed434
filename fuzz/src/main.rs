//! Coverage-guided search: libFuzzer makes the bytes that the generators of
//! a sub-check use in place of random numbers. Driven by /verif/bin/check,
//! which replays what is found here in the plain builds.
#![no_main]
#![allow(dead_code)]

#[path = "../../harness/src/blob.rs"]
mod blob;
#[path = "../../harness/src/bufs.rs"]
mod bufs;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/hooks.rs"]
mod hooks;
#[path = "../../harness/src/permits.rs"]
mod permits;
#[path = "../../harness/src/props/mod.rs"]
mod props;
#[path = "../../harness/src/spec.rs"]
mod spec;

use engine::Guided;
use libfuzzer_sys as _;
use std::cell::RefCell;
use std::collections::HashSet;
use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: bufs::Counting = bufs::Counting;

/// The input at hand: survives whatever ends the process.
const JOURNAL: usize = 1 << 20;

struct State {
    guided: Box<dyn Guided>,
    work: PathBuf,
    journal: *mut u8,
    runs: u64,
    hashes: HashSet<u64>,
    samples: Vec<String>,
}

/// Only ever used by libFuzzer's thread, also while that ends.
struct Only(RefCell<Option<State>>);
unsafe impl Sync for Only {}
static STATE: Only = Only(RefCell::new(None));

fn env(name: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| panic!("{} is not set", name))
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(
    _argc: *const isize,
    _argv: *const *const *const u8,
) -> isize {
    engine::install_panic_hook();
    let (property, sub) = (env("GUIDED_PROPERTY"), env("GUIDED_SUB"));
    let work = PathBuf::from(env("GUIDED_WORK"));
    let seed: u64 = env("GUIDED_SEED").parse().unwrap();
    let guided = props::subs(&property)
        .and_then(|all| all.into_iter().find(|s| s.name == sub))
        .and_then(|s| s.guided.map(|g| g()))
        .expect("such a sub-check");
    if let Ok(file) = std::env::var("GUIDED_CASE") {
        // which case a journal names
        let all = std::fs::read(file).unwrap();
        let n = u64::from_le_bytes(all[..8].try_into().unwrap()) as usize;
        let case = guided.case(&all[8..8 + n]).unwrap();
        let text = serde_json::json!({"sub": sub, "case": case}).to_string();
        std::fs::write(work.join("case"), text).unwrap();
        std::process::exit(0);
    }
    for (i, bytes) in guided.seeds(seed, 200).into_iter().enumerate() {
        std::fs::write(work.join("corpus").join(i.to_string()), bytes).unwrap();
    }
    let file = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(work.join("journal"))
        .unwrap();
    file.set_len(JOURNAL as u64).unwrap();
    use std::os::fd::AsRawFd;
    let journal = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            JOURNAL,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            file.as_raw_fd(),
            0,
        )
    };
    assert!(journal != libc::MAP_FAILED);
    *STATE.0.borrow_mut() = Some(State {
        guided,
        work,
        journal: journal as *mut u8,
        runs: 0,
        hashes: HashSet::new(),
        samples: Vec::new(),
    });
    unsafe { libc::atexit(report) };
    0
}

#[no_mangle]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn rust_fuzzer_test_input(bytes: &[u8]) -> i32 {
    let mut state = STATE.0.borrow_mut();
    let s = state.as_mut().unwrap();
    let n = bytes.len().min(JOURNAL - 8);
    unsafe {
        (s.journal as *mut u64).write(n as u64);
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), s.journal.add(8), n);
    }
    let ran = match s.guided.run(bytes) {
        Some(r) => r,
        None => return -1,
    };
    s.runs += 1;
    if let Some(h) = ran.hash {
        if s.hashes.len() < 2_000_000 && s.hashes.insert(h) {
            // later ones say more of where the search went
            let n = s.hashes.len();
            if n == 1000 || n == 10_000 {
                let case = s.guided.case(bytes).unwrap();
                s.samples.push(engine::short(case.to_string(), 600));
            }
        }
    }
    if let Some(f) = ran.failure {
        let text = serde_json::to_string(&f).unwrap();
        std::fs::write(s.work.join("failure"), text).unwrap();
        drop(state);
        report();
        unsafe { libc::_exit(78) };
    }
    0
}

/// What was covered.
extern "C" fn report() {
    if let Ok(s) = STATE.0.try_borrow() {
        let s = s.as_ref().unwrap();
        engine::dump_hashes(&s.work.join("hashes"), &s.hashes);
        let r = serde_json::json!({"runs": s.runs, "samples": s.samples});
        std::fs::write(s.work.join("result"), r.to_string()).unwrap();
    }
}
