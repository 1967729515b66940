//! Deterministic simulation of applications which use nobject-rs.
#![feature(alloc_error_hook)]
#![allow(invalid_runtime_symbol_definitions, unknown_lints)]
mod alloc;
mod driver;
mod gen;
mod inter;
mod load;
mod logger;
mod plan;
mod refmodel;
mod rng;
mod sc_follow;
mod sc_storage;
mod sc_threads;
mod sched;
mod shared;
mod sys;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;
static LOGGER: logger::SimLogger = logger::SimLogger;

/// Executes one plan, in the process which was made for it.
pub fn execute(p: &plan::Plan) {
    match p.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C13" => sc_storage::run(p),
        "C17" => sc_follow::run(p),
        _ => sc_threads::run(p),
    }
}

fn out_of_memory(_: std::alloc::Layout) {
    let t = sched::CUR.get();
    if t >= 0 && sched::IN_LIB.get() {
        unsafe { alloc::FAIL[t as usize].reported = true };
        std::panic::panic_any(load::OomPanic);
    }
    shared::harness("out of memory");
    sys::exit_now(3);
}

fn main() {
    std::alloc::set_alloc_error_hook(out_of_memory);
    std::panic::set_hook(Box::new(|i| {
        if sched::IN_LIB.get() {
            return;
        }
        let m = i.payload_as_str().unwrap_or("?");
        shared::harness(&format!("{} at {:?}", m, i.location().map(|l| (l.file(), l.line()))));
        eprintln!("harness: {m} {:?}", i.location());
        sys::exit_now(3);
    }));
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(log::LevelFilter::Off);
    driver::main();
}
