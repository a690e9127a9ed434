//! Command line of the check binaries.
use crate::engine::{self, Ctx, Replay, Sub, SubResult, Tier};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::process::exit;
use std::sync::Mutex;

static COUNTS: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());

#[allow(dead_code)]
/// Adds to a figure of the current sub-check's evidence.
pub fn count(what: &'static str, n: u64) {
    *COUNTS.lock().unwrap().entry(what).or_insert(0) += n;
}

type Subs = fn(&str, Tier) -> Option<Vec<Sub>>;

fn usage() -> ! {
    eprintln!(
        "usage: run PROPERTY --work DIR [--seed N] [--tier quick|thorough]
           [--journal] [--only SUB] [--percent N]
       replay PROPERTY FILE
       list"
    );
    exit(2)
}

fn run(subs: Subs, args: &[String]) {
    let property = args.first().cloned().unwrap_or_else(|| usage());
    let mut ctx = Ctx {
        seed: 1,
        tier: Tier::Quick,
        profile: if cfg!(debug_assertions) { "dev" } else { "release" },
        work: PathBuf::new(),
        journal: false,
        percent: 100,
    };
    let mut only = None;
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_else(|| usage());
        match a.as_str() {
            "--seed" => ctx.seed = val().parse().unwrap_or_else(|_| usage()),
            "--tier" => {
                ctx.tier = match val().as_str() {
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    _ => usage(),
                }
            }
            "--work" => ctx.work = val().into(),
            "--journal" => ctx.journal = true,
            "--only" => only = Some(val()),
            "--percent" => ctx.percent = val().parse().unwrap_or_else(|_| usage()),
            _ => usage(),
        }
    }
    if ctx.work.as_os_str().is_empty() {
        usage();
    }
    std::fs::create_dir_all(&ctx.work).unwrap();
    let mut results: Vec<SubResult> = Vec::new();
    let mut hashes = HashSet::new();
    for s in subs(&property, ctx.tier).unwrap_or_else(|| usage()) {
        if only.as_deref().map_or(false, |o| o != s.name) {
            continue;
        }
        let start = std::time::Instant::now();
        COUNTS.lock().unwrap().clear();
        let mut r = (s.run)(&ctx);
        for (k, v) in COUNTS.lock().unwrap().iter() {
            r.labels.insert(k.to_string(), *v);
        }
        eprintln!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1} s{}",
            ctx.profile,
            r.name,
            r.evaluations,
            r.nontrivial,
            start.elapsed().as_secs_f64(),
            match &r.failure {
                Some(f) => format!(": {}", f.reason),
                None => String::new(),
            }
        );
        hashes.extend(r.hashes.iter().copied());
        let failed = r.failure.is_some();
        results.push(r);
        if failed {
            break;
        }
    }
    engine::dump_hashes(
        &ctx.work.join(format!("hashes-{}", ctx.profile)),
        &hashes,
    );
    std::fs::write(
        ctx.work.join(format!("result-{}.json", ctx.profile)),
        serde_json::to_string(&results).unwrap(),
    )
    .unwrap();
}

fn replay(subs: Subs, args: &[String]) {
    let (property, file) = match args {
        [p, f] => (p, f),
        _ => usage(),
    };
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        exit(2)
    });
    let r: Replay = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        exit(2)
    });
    let all = subs(property, Tier::Thorough).unwrap_or_else(|| usage());
    let s = all.iter().find(|s| s.name == r.sub).unwrap_or_else(|| {
        eprintln!("{}: no such sub-check: {}", file, r.sub);
        exit(2)
    });
    // what real threads do differs from run to run
    let times = if r.sub.ends_with("-threads") || r.sub.ends_with("-crowd") {
        3000
    } else {
        1
    };
    for case in &r.before {
        let _ = (s.replay)(case);
    }
    for _ in 0..times {
        if let Err(why) = (s.replay)(&r.case) {
            println!("replay: {}", why);
            exit(1)
        }
    }
    println!("replay: the property holds on this case");
}

pub fn main(all: &[&str], subs: Subs) {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => run(subs, &args[1..]),
        Some("replay") => {
            // the same stack as the workers have
            let args = args[1..].to_vec();
            std::thread::Builder::new()
                .stack_size(engine::STACK)
                .spawn(move || replay(subs, &args))
                .unwrap()
                .join()
                .unwrap()
        }
        Some("list") => {
            for p in all {
                for s in subs(p, Tier::Thorough).unwrap() {
                    let how = if s.guided.is_some() { s.cases } else { 0 };
                    println!("{} {} {}", p, s.name, how);
                }
            }
        }
        _ => usage(),
    }
}
