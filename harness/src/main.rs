//! Property checks for binate. Driven by /verif/bin/check.
mod blob;
mod bufs;
mod driver;
mod engine;
mod gen;
mod hooks;
mod permits;
mod props;
mod spec;

use engine::Tier;

#[global_allocator]
static ALLOCATOR: bufs::Counting = bufs::Counting;

fn main() {
    driver::main(&props::ALL, |property, tier| {
        let mut s = props::subs(property)?;
        if property == "C12" && !cfg!(debug_assertions) {
            s.push(props::conn::c12_spans());
            if tier == Tier::Thorough {
                s.push(props::conn::c12_lap());
            }
        }
        Some(s)
    })
}
