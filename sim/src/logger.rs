//! The logger seam: the application's logger is simulated, and does what the plan
//! says when the code under test reports a diagnostic.
use crate::load::{load, Kind, LogPanic, Out};
use crate::sched::{self, CUR, IN_LIB};
use crate::shared::{count, C};
use crate::{alloc, rng, sc_threads};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Stall(u64),
    Sleep(u64),
    Reenter(usize),
    Panic,
    Level(u64),
    /// Stalls until all other threads are done.
    Hang,
    /// Forks; the load goes on in both processes.
    Fork,
    /// Not the logger: a destructor of the application loads this document while the
    /// load is being unwound.
    Amid(usize),
}

/// How deep loads made by the logger may nest.
const DEEP: usize = 3;

/// What the logger does during the current load of one task: (call number, depth of
/// the load in which the call is made, action).
pub struct Script {
    calls: [u64; DEEP],
    acts: Vec<(u64, usize, Act)>,
    /// The logger panicked in the load at this depth.
    panicked: [bool; DEEP],
    depth: usize,
    /// What the load at this depth has reported (only when `KEEP` is set).
    said: [Vec<Said>; DEEP],
}
/// One record: its level, and its target and text.
pub type Said = (usize, String);
/// Whether records are kept for comparison.
pub static mut KEEP: bool = false;
pub static mut SCRIPT: [Script; sched::MAXT] =
    [const { Script { calls: [0; DEEP], acts: Vec::new(), panicked: [false; DEEP], depth: 0, said: [const { Vec::new() }; DEEP] } }; sched::MAXT];

impl Script {
    pub fn start(&mut self, acts: Vec<(u64, usize, Act)>) {
        self.calls = [0; DEEP];
        self.panicked = [false; DEEP];
        self.said[0].clear();
        self.acts = acts;
    }
    /// Before another load by the same operation: the logger does it all again.
    pub fn again(&mut self) {
        self.calls = [0; DEEP];
        self.panicked = [false; DEEP];
        self.said[0].clear();
    }
    /// The document to be loaded while the load is unwound.
    pub fn amid(&self) -> Option<usize> {
        self.acts.iter().find_map(|a| if let Act::Amid(d) = a.2 { Some(d) } else { None })
    }
    pub fn said(&self) -> &[Said] {
        &self.said[0]
    }
    pub fn panicked(&self) -> bool {
        self.panicked[0]
    }
}
/// 1: nothing is wanted; 2: now it is, now it is not.
pub static mut FILTER: u8 = 0;
static mut ASKED: u64 = 0;

fn filtered() -> bool {
    unsafe {
        ASKED += 1;
        FILTER == 1 || FILTER == 2 && rng::mix(ASKED) & 1 == 1
    }
}

#[allow(static_mut_refs)]
pub fn script() -> Option<&'static mut Script> {
    let t = CUR.get();
    (t >= 0).then(|| unsafe { &mut SCRIPT[t as usize] })
}

#[allow(static_mut_refs)]
pub fn script_of(t: usize) -> &'static mut Script {
    unsafe { &mut SCRIPT[t] }
}

pub fn level(n: u64) -> log::LevelFilter {
    [
        log::LevelFilter::Off,
        log::LevelFilter::Error,
        log::LevelFilter::Warn,
        log::LevelFilter::Info,
        log::LevelFilter::Debug,
        log::LevelFilter::Trace,
    ][n as usize % 6]
}

pub struct SimLogger;

impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        !filtered()
    }
    fn flush(&self) {}
    fn log(&self, r: &log::Record) {
        let inl = IN_LIB.replace(false);
        count(C::LogCalls, 1);
        if filtered() {
            count(C::LogOff, 1);
            IN_LIB.set(inl);
            return;
        }
        let text = format!("{} {}", r.level(), r.args());
        sched::trace(rng::hash_bytes(3, text.as_bytes()));
        let mut unwind = false;
        if unsafe { KEEP } && sched::is_helper(CUR.get()) {
            sched::fail("diagnostic-elsewhere", &format!("a load reported on another thread: {text}"));
        }
        if let Some(s) = script().filter(|s| s.depth < DEEP) {
            let d = s.depth;
            let n = s.calls[d];
            s.calls[d] += 1;
            if unsafe { KEEP } {
                s.said[d].push((r.level() as usize, format!("{:?}", format!("{}: {}", r.target(), r.args()))));
            }
            let todo: Vec<Act> = s.acts.iter().filter(|a| a.0 == n && a.1 == d).map(|a| a.2).collect();
            s.depth += 1;
            for a in todo {
                match a {
                    Act::Stall(k) => {
                        for _ in 0..k {
                            count(C::LogStall, 1);
                            sched::yield_now();
                        }
                    }
                    Act::Hang => {
                        count(C::LogHang, 1);
                        sched::hang();
                    }
                    Act::Sleep(ns) => {
                        count(C::LogStall, 1);
                        sched::sleep(ns);
                    }
                    Act::Level(l) => {
                        count(C::LogLevel, 1);
                        log::set_max_level(level(l));
                    }
                    Act::Reenter(d) => {
                        count(if s.depth > 1 { C::DeepReenter } else { C::LogReenter }, 1);
                        reenter(s, d);
                    }
                    Act::Fork => {
                        sc_threads::fork_in_load(CUR.get() as usize);
                    }
                    Act::Panic => unwind = true,
                    Act::Amid(_) => {}
                }
            }
            s.depth = d;
            s.panicked[d] |= unwind;
        }
        IN_LIB.set(inl);
        if unwind {
            count(C::LogPanic, 1);
            std::panic::panic_any(LogPanic);
        }
    }
}

/// A load of document `doc` by a destructor, while another load is being unwound.
pub fn amid(doc: usize) {
    if let (Some(s), Some((kind, text))) = (script(), sc_threads::doc(doc)) {
        let t = CUR.get() as usize;
        let f = unsafe { std::mem::replace(&mut alloc::FAIL[t], alloc::NOFAIL) };
        let new = Script { calls: [0; DEEP], acts: Vec::new(), panicked: [false; DEEP], depth: 0, said: Default::default() };
        let was = std::mem::replace(s, new);
        count(C::AmidUnwind, 1);
        let out: Out = load(kind, text);
        sc_threads::reported(doc, &s.said[0], true, "a load made while another was being unwound");
        sc_threads::expect(doc, &out, "a load made while another was being unwound");
        *s = was;
        unsafe { alloc::FAIL[t] = f };
    }
}

/// A load by the logger of the text of document `doc`.
fn reenter(s: &mut Script, doc: usize) {
    if let Some((kind, text)) = sc_threads::doc(doc) {
        let kind: Kind = kind;
        let t = CUR.get() as usize;
        let f = unsafe { std::mem::replace(&mut alloc::FAIL[t], alloc::NOFAIL) };
        let d = s.depth;
        if d < DEEP {
            s.calls[d] = 0;
            s.panicked[d] = false;
            s.said[d].clear();
        }
        let out: Out = load(kind, text);
        s.depth = d;
        unsafe { alloc::FAIL[t] = f };
        count(C::ReentrantLoads, 1);
        if d < DEEP {
            sc_threads::reported(doc, &s.said[d], !s.panicked[d], "a load made by the logger");
        }
        if d < DEEP && s.panicked[d] {
            sc_threads::abandoned(doc, &out);
        } else {
            sc_threads::expect(doc, &out, "a load made by the logger");
        }
    }
}
