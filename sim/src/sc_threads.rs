//! Runs in which several application threads load documents under the scheduler:
//! C06 to C12 and C14 to C16. What every load must return is found by making the load alone, in a
//! process of its own which has done nothing else.
use crate::inter::env;
use crate::load::{load, Kind, Out};
use crate::logger::{self, Act};
use crate::plan::{Plan, Rec};
use crate::sched::{self, CUR};
use crate::shared::{self, count, C};
use crate::{alloc, refmodel, rng, sys};

/// What a load does on its own.
#[derive(Clone, Default)]
pub struct Solo {
    pub died: bool,
    pub text: String,
    pub ok: bool,
    pub allocs: u64,
    /// What it reports (C15).
    pub log: Vec<logger::Said>,
}

#[derive(Clone)]
struct Op {
    task: usize,
    kind: String,
    id: i64,
    a: i64,
    b: i64,
    c: i64,
    acts: Vec<(u64, usize, Act)>,
}

struct World {
    prop: String,
    kinds: Vec<Kind>,
    /// By round, by document.
    texts: Vec<Vec<String>>,
    solo: Vec<Vec<Solo>>,
    ops: Vec<Op>,
    rounds: usize,
    round: usize,
    scribble: bool,
    slots: Vec<Option<(Out, usize, usize, usize)>>,
    live: Vec<i64>,
    unwound: bool,
    respawn: bool,
    /// C15: what loads report is compared, not what they return.
    logs: bool,
    level: usize,
    /// Allocations fail in this run: first-time initialisation is made before.
    warm: bool,
    /// The texts, if all tasks load from the same memory.
    common: Vec<&'static [u8]>,
}
static mut W: Option<World> = None;

#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}

pub fn doc(d: usize) -> Option<(Kind, &'static str)> {
    let w = w();
    let n = w.kinds.len();
    if n == 0 || w.solo[w.round][d % n].died {
        return None;
    }
    Some((w.kinds[d % n], &w.texts[w.round][d % n]))
}

/// The two texts from where they differ.
fn diff(want: &str, got: &str) -> String {
    let (a, b): (Vec<_>, Vec<_>) = (want.lines().collect(), got.lines().collect());
    let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap_or(0);
    let cut = |s: Option<&&str>| s.map_or("(end)".to_string(), |s| s.chars().take(300).collect());
    format!("alone: {} | here: {}", cut(a.get(i)), cut(b.get(i)))
}

fn compare(d: usize, round: usize, out: &Out, what: &str) {
    let w = w();
    let d = d % w.kinds.len();
    let t = out.text();
    sched::trace(rng::hash_bytes(11, t.as_bytes()));
    let want = &w.solo[round][d];
    if want.text == t || w.logs {
        return;
    }
    let class = match out {
        Out::Panic(_) => "load-panicked",
        Out::LogPanic | Out::Oom => "load-unwound",
        Out::Err(_) if want.ok => "load-failed",
        _ => "result-differs",
    };
    sched::fail(class, &format!("{what} of document {d}: {}", diff(&want.text, &t)));
}

/// Compares what a load of document `d` reported to what it reports alone. If the load was
/// abandoned, that is as far as it got.
pub fn reported(d: usize, said: &[logger::Said], whole: bool, what: &str) {
    let w = w();
    if !w.logs {
        return;
    }
    let d = d % w.kinds.len();
    let want: Vec<&logger::Said> = w.solo[w.round][d].log.iter().filter(|x| x.0 <= w.level).collect();
    count(C::LogsCompared, said.len() as u64);
    let same = said.iter().zip(&want).take_while(|(a, b)| a == *b).count();
    if same == said.len() && (same == want.len() || !whole) {
        return;
    }
    sched::fail(
        "diagnostics-differ",
        &format!(
            "{what} of document {d} reported {} records, alone it reports {}; record {same}: alone: {:?} | here: {:?}",
            said.len(),
            want.len(),
            want.get(same),
            said.get(same)
        ),
    );
}

/// The logger panicked in a load of document `d`.
pub fn abandoned(d: usize, out: &Out) {
    w().unwound = true;
    if !matches!(out, Out::LogPanic) && !w().logs {
        sched::fail(
            "unwinding-swallowed",
            &format!("the logger's panic in a load of document {d} did not reach the caller: {}", first(out)),
        );
    }
}

pub fn expect(d: usize, out: &Out, what: &str) {
    compare(d, w().round, out, what)
}

/// Not 0: the address of the text within the buffer changes with every load.
pub static mut SHIFT: u64 = 0;
static mut LOADS: [u64; sched::MAXT] = [0; sched::MAXT];

/// Every task has the same buffer for every load it makes.
pub fn buffer(task: usize, text: &str) -> &'static mut [u8] {
    const AT: usize = 0x1200_0000_0000;
    let at = AT + task * (4 << 20);
    static mut MAPPED: [bool; sched::MAXT] = [false; sched::MAXT];
    unsafe {
        if !MAPPED[task] {
            let p = sys::mmap(at as *mut u8, 4 << 20, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
            assert!(p as usize == at, "buffer");
            MAPPED[task] = true;
        } else {
            count(C::BufReuse, 1);
        }
        // Where in memory the text lies, and what lies around it.
        let mut shift = 0;
        if SHIFT != 0 && text.len() + 256 < 4 << 20 {
            LOADS[task] += 1;
            let x = rng::mix(SHIFT ^ rng::mix(LOADS[task] * 8 + task as u64));
            count(C::BufShift, 1);
            shift = 32 + (x % 64) as usize;
            let around = b"0123456789 #/.-e\nv\n\xA5\0g\\";
            for i in (0..shift).chain(shift + text.len()..shift + text.len() + 64) {
                *((at + i) as *mut u8) = around[(rng::mix(x + i as u64 / (1 + x % 7)) % around.len() as u64) as usize];
            }
        }
        let b = std::slice::from_raw_parts_mut((at + shift) as *mut u8, text.len());
        b.copy_from_slice(text.as_bytes());
        b
    }
}

fn unchanged(b: &[u8], text: &str) {
    if b != text.as_bytes() {
        sched::fail("input-changed", &format!("a load changed the text it was given: {:?} became {:?}", text, String::from_utf8_lossy(b)));
    }
}

pub const COMMON: usize = 0x1300_0000_0000;
pub const COMMON_SIZE: usize = 64 << 20;

/// Places the texts where all tasks load them from, perhaps not to be written to.
fn place(texts: &[String], locked: bool) -> Vec<&'static [u8]> {
    let mut v = Vec::new();
    unsafe {
        let p = sys::mmap(COMMON as *mut u8, COMMON_SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
        assert!(p as usize == COMMON, "common texts");
        let mut at = COMMON;
        for t in texts {
            if at + t.len() > COMMON + COMMON_SIZE {
                return Vec::new();
            }
            std::ptr::copy_nonoverlapping(t.as_ptr(), at as *mut u8, t.len());
            v.push(std::slice::from_raw_parts(at as *const u8, t.len()));
            at += t.len();
        }
        if locked {
            sys::mprotect(p, COMMON_SIZE, 1);
        }
    }
    v
}

/// Loads document `d` the way an application does: from a buffer which is used for
/// something else afterwards.
fn load_doc(task: usize, d: usize) -> Option<Out> {
    let (kind, text) = doc(d)?;
    if !w().common.is_empty() {
        // The application has each text only once.
        let b = w().common[d % w().common.len()];
        count(C::BufCommon, 1);
        let out = load(kind, unsafe { std::str::from_utf8_unchecked(b) });
        unchanged(b, text);
        return Some(out);
    }
    let b = buffer(task, text);
    let out = load(kind, unsafe { std::str::from_utf8_unchecked(b) });
    unchanged(b, text);
    if w().scribble {
        count(C::Scribble, 1);
        b.fill(0xA5);
    }
    Some(out)
}

/// `solo` for a list of documents; in one process if `batch`, else each in its own.
pub fn solo(docs: &[(Kind, &str)], batch: bool) -> Vec<Solo> {
    const REGION: usize = 64 << 20;
    let mem = sys::map_shared(REGION) as *mut u64;
    let saved = shared::Saved::take();
    let mut out = Vec::new();
    let mut at = 0;
    while at < docs.len() {
        let upto = if batch { docs.len() } else { at + 1 };
        let pid = unsafe { crate::inter::real_fork() };
        if pid == 0 {
            unsafe {
                sched::SOLO = true;
                sys::alarm(20);
                log::set_max_level(if logger::KEEP { log::LevelFilter::Trace } else { log::LevelFilter::Off });
                let mut p = mem;
                CUR.set(0);
                for (k, t) in &docs[at..upto] {
                    alloc::FAIL[0] = alloc::NOFAIL;
                    let b = buffer(0, t);
                    logger::script().unwrap().start(Vec::new());
                    let o = load(*k, std::str::from_utf8_unchecked(b));
                    let mut text = o.text();
                    let main = text.len() as u64;
                    for (l, t) in logger::script().unwrap().said() {
                        text.push_str(&format!("{l}{t}\n"));
                    }
                    let words = text.len().div_ceil(8) + 5;
                    assert!((p as usize - mem as usize) / 8 + words < REGION / 8);
                    *p = text.len() as u64;
                    *p.add(1) = alloc::FAIL[0].n;
                    *p.add(3) = o.ok() as u64;
                    *p.add(4) = main;
                    std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(5) as *mut u8, text.len());
                    p = p.add(words);
                }
                sys::exit_now(0);
            }
        }
        let mut st = 0;
        unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} };
        let mut p = mem;
        for _ in at..upto {
            if st != 0 {
                out.push(Solo { died: true, ..Default::default() });
                continue;
            }
            unsafe {
                let n = *p as usize;
                let s = std::slice::from_raw_parts(p.add(5) as *const u8, n);
                let (text, said) = s.split_at(*p.add(4) as usize);
                out.push(Solo {
                    died: false,
                    text: String::from_utf8_lossy(text).into_owned(),
                    log: String::from_utf8_lossy(said)
                        .lines()
                        .map(|l| ((l.as_bytes()[0] - b'0') as usize, l[1..].to_string()))
                        .collect(),
                    ok: *p.add(3) != 0,
                    allocs: *p.add(1),
                });
                p = p.add(n.div_ceil(8) + 5);
            }
        }
        at = upto;
    }
    saved.put();
    out
}

fn round_done() {
    let w = w();
    for s in &mut w.slots {
        *s = None;
    }
    w.live.push(alloc::live());
    count(C::LeakSamples, 1);
    sched::trace(alloc::live() as u64);
    w.round = (w.round + 1).min(w.rounds - 1);
}

/// Set in a process forked within a load.
static mut FORKED: bool = false;

/// The logger of task `t` forks within a load: it goes on in both processes.
pub fn fork_in_load(t: usize) {
    unsafe {
        if FORKED {
            return;
        }
        count(C::Fork, 1);
        count(C::ForkInLoad, 1);
        count(C::ForkMid, (sched::others_loading(t) > 0) as u64);
        let pid = crate::inter::real_fork();
        if pid == 0 {
            FORKED = true;
            sys::alarm(30);
            sched::alone(t);
        } else {
            forked(t, pid);
        }
    }
}

fn forked(t: usize, pid: i32) {
    let mut st = 0;
    unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} };
    if shared::get().status == 2 {
        sys::exit_now(2);
    }
    if st != 0 {
        sched::fail("forked-process-died", &format!("a process forked by task {t} died in a load (wait status {st:#x})"));
    }
}

fn run_op(t: usize, op: &Op) {
    run_op_1(t, op);
    if unsafe { FORKED } {
        load_all(t, 0);
        sys::exit_now(0);
    }
}

/// Loads all documents, in a process forked by task `t`.
fn load_all(t: usize, first: usize) {
    let n = w().kinds.len();
    let sc = logger::script().unwrap();
    sc.start(Vec::new());
    for i in 0..n {
        sc.again();
        let d = (first + i) % n;
        if let Some(out) = load_doc(t, d) {
            compare(d, w().round, &out, "a load in a forked process");
        }
    }
}

fn run_op_1(t: usize, op: &Op) {
    let w = w();
    count(C::OpsRun, 1);
    unsafe { alloc::FAIL[t] = alloc::NOFAIL };
    let sc = logger::script().unwrap();
    sc.start(op.acts.clone());
    let d = op.a.max(0) as usize;
    shared::doing(&format!("task {t} op {} {} {}", op.id, op.kind, op.a));
    let nslot = w.slots.len();
    let after = w.unwound;
    match op.kind.as_str() {
        "load" | "keep" => {
            let Some(out) = load_doc(t, d) else { return };
            if after {
                count(C::AfterUnwind, 1);
            }
            reported(d, sc.said(), !sc.panicked(), "a load");
            if sc.panicked() {
                abandoned(d, &out);
                return;
            }
            compare(d, w.round, &out, "a load");
            if op.kind == "keep" && nslot > 0 {
                w.slots[op.b.rem_euclid(nslot as i64) as usize] = Some((out, d, w.round, t));
            }
        }
        "repeat" => {
            // Not more than a few hundred kilobytes altogether, of longer texts.
            let len = w.texts[w.round][d % w.kinds.len().max(1)].len() as i64;
            for k in 0..op.b.clamp(0, 70_000.min(if len < 64 { 3_000_000 } else { 250_000 } / (len + 1) + 2)) {
                sc.again();
                if k % 1024 == 1023 {
                    // It does go on.
                    unsafe { sys::alarm(60) };
                }
                let Some(out) = load_doc(t, d) else { return };
                reported(d, sc.said(), !sc.panicked(), "a repeated load");
                if sc.panicked() {
                    abandoned(d, &out);
                } else {
                    compare(d, w.round, &out, "a repeated load");
                }
            }
        }
        "take" | "look" if nslot > 0 => {
            let i = op.b.rem_euclid(nslot as i64) as usize;
            if let Some((out, d, r, by)) = &w.slots[i] {
                if *by != t {
                    count(C::Handoff, 1);
                }
                compare(*d, *r, out, "a kept result");
            }
            if op.kind == "take" {
                w.slots[i] = None;
            }
        }
        "failalloc" => {
            let n = w.kinds.len();
            if n == 0 || w.solo[w.round][d % n].died {
                return;
            }
            let allocs = w.solo[w.round][d % n].allocs;
            if allocs == 0 {
                return;
            }
            // op.b is a position in thousandths of the load's allocations; negative
            // means that the failure persists.
            let pos = op.b.unsigned_abs().min(1000);
            fail_at(t, d, 1 + pos * (allocs - 1) / 1000, op.b < 0);
        }
        "swarm" => {
            // Abandoned at the same place, by the logger or for lack of memory.
            let n = w.kinds.len();
            if n == 0 || w.solo[w.round][d % n].died {
                return;
            }
            let len = w.texts[w.round][d % n].len() as i64;
            let allocs = w.solo[w.round][d % n].allocs;
            for _ in 0..op.b.clamp(0, 5000.min(300_000 / (len + 1) + 2)) {
                if op.c < 0 {
                    sc.start(vec![(op.c.unsigned_abs() - 1, 0, Act::Panic)]);
                    let Some(out) = load_doc(t, d) else { return };
                    reported(d, sc.said(), !sc.panicked(), "a load");
                    if sc.panicked() {
                        abandoned(d, &out);
                    } else {
                        compare(d, w.round, &out, "a load");
                    }
                } else if allocs > 0 {
                    sc.again();
                    fail_at(t, d, 1 + op.c.unsigned_abs() % 1001 * (allocs - 1) / 1000, false);
                }
            }
        }
        "sweep" => {
            // One allocation after the other.
            let n = w.kinds.len();
            if n == 0 || w.solo[w.round][d % n].died {
                return;
            }
            let first = op.b.unsigned_abs();
            let len = w.texts[w.round][d % n].len() as u64;
            let most = 150.min(2 + 1_000_000 / (len + 1));
            for at in first..w.solo[w.round][d % n].allocs.min(first + most) {
                sc.again();
                fail_at(t, d, 1 + at, op.b < 0);
            }
        }
        "fork" => {
            let n = w.kinds.len();
            if n == 0 {
                return;
            }
            count(C::Fork, 1);
            count(C::ForkMid, (sched::others_loading(t) > 0) as u64);
            let pid = unsafe { crate::inter::real_fork() };
            if pid == 0 {
                unsafe { sys::alarm(30) };
                sched::alone(t);
                load_all(t, d);
                sys::exit_now(0);
            }
            forked(t, pid);
        }
        "clock" => {
            count(C::ClockJump, 1);
            env().clock = env().clock.wrapping_add(op.a as u64);
        }
        "level" => {
            count(C::LogLevel, 1);
            log::set_max_level(logger::level(op.a.unsigned_abs()));
        }
        "garbage" => alloc::set_garbage(op.a as u8),
        "env" => {
            count(C::EnvLie, 1);
            env().exists = op.a != 0;
        }
        "seed" => env().seed = op.a as u64,
        "yield" => sched::yield_now(),
        _ => {}
    }
}

/// Loads document `d` with allocation `at` of the load failing.
fn fail_at(t: usize, d: usize, at: u64, persistent: bool) {
    let w = w();
    let sc = logger::script().unwrap();
    let n = w.kinds.len();
    let want = w.solo[w.round][d % n].clone();
    unsafe {
        alloc::FAIL[t] = alloc::Fail { at, persistent, ..alloc::NOFAIL };
    }
    let Some(out) = load_doc(t, d) else { return };
    let f = unsafe { std::mem::replace(&mut alloc::FAIL[t], alloc::NOFAIL) };
    let text = out.text();
    sched::trace(rng::hash_bytes(12, text.as_bytes()));
    reported(d, sc.said(), f.injected == 0 && !sc.panicked(), "a load with a failed allocation");
    if w.logs {
        w.unwound |= matches!(out, Out::Oom);
        return;
    }
    if sc.panicked() {
        w.unwound = true;
        return;
    }
    if f.injected == 0 {
        compare(d, w.round, &out, "a load");
        return;
    }
    match &out {
        Out::Oom => {
            count(C::OomLoud, 1);
            w.unwound = true;
        }
        Out::Err(_) => count(C::OomLoud, 1),
        _ if text == want.text => count(C::OomSurvived, 1),
        Out::Panic(_) if f.reported => {
            w.unwound = true;
            count(C::OomLoud, 1)
        }
        Out::Panic(m) => sched::fail(
            "failed-allocation-crashes",
            &format!("allocation {at} of {} in a load of document {d} failed: {m}", want.allocs),
        ),
        _ => sched::fail(
            "failed-allocation-wrong-result",
            &format!(
                "allocation {at} of {} in a load of document {d} failed and the load succeeded with something else: {}",
                want.allocs,
                diff(&want.text, &text)
            ),
        ),
    }
}

fn first(o: &Out) -> String {
    o.text().chars().take(200).collect()
}

const WARM_OBJ: &str = "# c\nv 1 2 3\nvp 1\nvt 1 .5\nvn -1 0 1e1\nmtllib a\nusemtl b\ng c\no d\ns 1\n\
s off\ns x\nmg 1 2\nbevel on\nc_interp off\nd_interp on\nlod 1\nshadow_obj a\ntrace_obj a\nmaplib a\n\
usemap a\np 1\nl 1 2\nf 1 1 1\nf 1/1 1/1 1/1\nf 1//1 1//1 1//1\nf 1/1/1 1/1/1 1/1/1\nx\n";

const WARM_MTL: &str = "# c\nnewmtl a\nKa 1 1 1\nKd xyz 1\nKs spectral a 1\nTf 1 1 1\nillum 1\nd 1\n\
d -halo 1\nNs 1\nsharpness 1\nNi 1\nTr 1\nmap_Ka a\nmap_Kd -blendu off -bm 1 a\nmap_Ks -o 1 1 1 -s 1 a\n\
map_Ns -mm 0 1 -clamp on a\nmap_d -imfchan r a\nmap_aat on\ndecal -t 1 a\ndisp -cc on a\nbump -texres 1 a\n\
refl -type sphere a\nx\nmap_Ka -clamp x a\n";

/// Loads which a thread-local value of the application makes when it is dropped, at the
/// end of its thread.
struct Ending(usize, Vec<usize>);
thread_local! {
    static ENDING: std::cell::RefCell<Option<Ending>> = const { std::cell::RefCell::new(None) };
}
impl Drop for Ending {
    fn drop(&mut self) {
        let docs = std::mem::take(&mut self.1);
        sched::ending(self.0, || {
            let sc = logger::script().unwrap();
            unsafe { alloc::FAIL[self.0] = alloc::NOFAIL };
            for d in docs {
                count(C::Ending, 1);
                sc.start(Vec::new());
                let Some(out) = load_doc(self.0, d) else { continue };
                reported(d, sc.said(), true, "a load made while its thread ended");
                compare(d, w().round, &out, "a load made while its thread ended");
            }
        });
    }
}

fn task(t: usize) {
    let w = w();
    let last: Vec<usize> = w.ops.iter().filter(|o| o.task == t && o.kind == "ending").map(|o| o.a.max(0) as usize).collect();
    if !last.is_empty() {
        // Made before anything of the library's, so dropped after it.
        ENDING.with(|e| *e.borrow_mut() = Some(Ending(t, last)));
    }
    if w.warm {
        // What is made only once is not what the failing allocations are about: a load of
        // every kind of statement, as short as they come, makes that.
        let sc = logger::script().unwrap();
        sc.start(Vec::new());
        for (kind, text) in [(Kind::Obj, WARM_OBJ), (Kind::Mtl, WARM_MTL)] {
            let o = load(kind, text);
            sched::trace(rng::hash_bytes(13, o.text().as_bytes()));
        }
        sched::barrier();
    }
    for _ in 0..if w.respawn { 1 } else { w.rounds } {
        for i in 0..w.ops.len() {
            if w.ops[i].task == t {
                let op = w.ops[i].clone();
                run_op(t, &op);
            }
        }
        if w.rounds > 1 && !w.respawn {
            sched::barrier();
            if env().strict {
                // Anything printed without a line end so far?
                flush();
            }
        }
    }
    if env().strict {
        flush();
    }
}

fn flush() {
    use std::io::Write;
    sched::IN_LIB.set(true);
    let _ = std::io::stdout().flush();
    sched::IN_LIB.set(false);
}

pub fn act(r: &Rec) -> Option<(u64, usize, Act)> {
    let n = r.i(3).unsigned_abs();
    let a = match r.s(2) {
        "stall" => Act::Stall(n.min(50)),
        "sleep" => Act::Sleep(n),
        "reenter" => Act::Reenter(n as usize),
        "panic" => Act::Panic,
        "hang" => Act::Hang,
        "fork" => Act::Fork,
        "amid" => Act::Amid(n as usize),
        "level" => Act::Level(n),
        _ => return None,
    };
    Some((r.i(1).unsigned_abs(), r.u(4, 8), a))
}

pub fn run(p: &Plan) {
    let rounds = p.cfg("rounds", 1).clamp(1, 64) as usize;
    // Documents.
    let mut docs: Vec<(i64, Kind, bool, bool, String, usize)> = Vec::new();
    for r in p.all("doc") {
        if docs.iter().all(|d| d.0 != r.i(0)) && docs.len() < 64 {
            docs.push((r.i(0), if r.s(1) == "mtl" { Kind::Mtl } else { Kind::Obj }, r.i(2) != 0, false, String::new(), r.i(3).clamp(1, 100_000) as usize));
        }
    }
    for r in p.all("line") {
        if let Some(d) = docs.iter_mut().find(|d| d.0 == r.i(0)) {
            if d.3 {
                d.4.push('\n');
            }
            d.3 = true;
            d.4.push_str(r.s(1));
        }
    }
    for d in &mut docs {
        if d.5 > 1 && d.4.len() * d.5 < 3 << 20 {
            count(C::BigDoc, 1);
            d.4 = (0..d.5).map(|i| d.4.replace("%N", &i.to_string())).collect::<Vec<_>>().join("\n");
        }
        if d.2 {
            d.4.push('\n');
        }
        if d.4.len() > 1 << 20 {
            d.4.clear();
        }
    }
    let index = |id: i64| docs.iter().position(|d| d.0 == id).unwrap_or(0) as i64;
    let kinds: Vec<Kind> = docs.iter().map(|d| d.1).collect();
    let texts: Vec<Vec<String>> = (0..rounds)
        .map(|r| docs.iter().map(|d| if rounds > 1 { d.4.replace("%R", &format!("{:03}", r + 1)) } else { d.4.clone() }).collect())
        .collect();
    // What they are on their own.
    let vary = docs.iter().any(|d| d.4.contains("%R"));
    let flat: Vec<(Kind, &str)> =
        texts.iter().take(if vary { rounds } else { 1 }).flat_map(|t| t.iter().zip(&kinds).map(|(t, k)| (*k, t.as_str()))).collect();
    unsafe { logger::KEEP = p.prop == "C15" };
    alloc::init(0);
    env().seed = 0;
    let flat = solo(&flat, flat.len() > 8 || p.cfg("batch", 0) != 0);
    let solo: Vec<Vec<Solo>> = if !vary {
        vec![flat; rounds]
    } else {
        flat.chunks(kinds.len()).map(|c| c.to_vec()).collect()
    };
    if p.prop == "C15" {
        // No line the library does not know is passed over in silence.
        for (d, s) in docs.iter().zip(&solo[0]) {
            let mtl = d.1 == Kind::Mtl;
            let inert = d.4.split(['\n', '\r']).filter(|l| refmodel::class(l, mtl, true) == refmodel::Class::Inert).count();
            if !s.died && s.ok && rounds == 1 && s.log.len() < inert {
                sched::fail(
                    "skipped-in-silence",
                    &format!("{inert} lines start with no keyword, {} diagnostics; text {:?}", s.log.len(), d.4.chars().take(1000).collect::<String>()),
                );
            }
        }
    }
    // Operations.
    let threads = p.cfg("threads", 1).clamp(1, 40) as usize;
    let names = p.cfg("names", 0).unsigned_abs();
    let mut ops: Vec<Op> = Vec::new();
    for r in p.all("op") {
        let kind = r.s(2).to_string();
        let uses_doc = matches!(kind.as_str(), "load" | "keep" | "failalloc" | "sweep" | "repeat" | "fork" | "ending" | "swarm");
        if uses_doc && docs.is_empty() {
            continue;
        }
        ops.push(Op {
            id: r.i(0),
            task: r.i(1).rem_euclid(threads as i64) as usize,
            a: if uses_doc { index(r.i(3)) } else { r.i(3) },
            b: r.i(4),
            c: r.i(5),
            kind,
            acts: Vec::new(),
        });
    }
    for r in p.all("la") {
        if let Some(mut a) = act(r) {
            match a.2 {
                Act::Reenter(d) => a.2 = Act::Reenter(index(d as i64) as usize),
                Act::Amid(d) => a.2 = Act::Amid(index(d as i64) as usize),
                _ => {}
            }
            if let Some(o) = ops.iter_mut().find(|o| o.id == r.i(0)) {
                o.acts.push(a);
            }
        }
    }
    let segs: Vec<(i64, u8, i64)> =
        p.all("seg").map(|r| (r.i(0), r.i(1).clamp(0, 2) as u8, r.i(2).clamp(1, 1_000_000))).collect();
    unsafe {
        W = Some(World {
            prop: p.prop.clone(),
            kinds,
            texts,
            solo,
            ops,
            rounds,
            round: 0,
            scribble: p.cfg("scribble", 1) != 0,
            slots: (0..8).map(|_| None).collect(),
            live: Vec::new(),
            unwound: false,
            respawn: rounds > 1 && p.cfg("respawn", 0) != 0,
            logs: p.prop == "C15",
            level: p.cfg("level", 1).unsigned_abs() as usize % 6,
            common: Vec::new(),
            warm: p.cfg("cold", 0) == 0 && p.all("op").any(|r| matches!(r.s(2), "failalloc" | "sweep" | "fork" | "swarm")),
        });
        logger::FILTER = p.cfg("filter", 0).clamp(0, 2) as u8;
        if rounds == 1 && p.cfg("common", 0) != 0 {
            let x = w();
            x.common = place(&x.texts[0], p.cfg("common", 0) == 2);
        }
        SHIFT = p.cfg("shift", 0) as u64;
    }
    log::set_max_level(logger::level(p.cfg("level", 1).unsigned_abs()));
    alloc::set_garbage(p.cfg("garbage", 0x5A) as u8);
    let e = env();
    e.seed = p.cfg("hash", 1) as u64;
    e.exists = p.cfg("env", 0) != 0;
    e.clock = e.clock.wrapping_add(p.cfg("clock", 0) as u64);
    e.strict = p.cfg("strict", 0) != 0;
    e.tick = p.cfg("tick", 0).unsigned_abs();
    e.back = p.cfg("back", 0) != 0;
    let stack = (p.cfg("stack", 512).clamp(64, 8192) as usize) << 10;
    if w().respawn {
        let per = segs.len().div_ceil(rounds).max(1);
        for i in 0..rounds {
            count(C::Respawn, (i > 0) as u64);
            let some = segs.iter().skip(i * per).take(per).copied().collect();
            sched::run_named(threads, stack, names, some, w().warm, None, &task);
            round_done();
        }
    } else {
        sched::run_named(threads, stack, names, segs, w().warm, Some(round_done), &task);
    }
    e.tick = 0;
    e.strict = false;
    let w = w();
    for s in &mut w.slots {
        *s = None;
    }
    if w.prop == "C12" {
        let l = &w.live;
        let n = l.len();
        if n >= 8 && l[n / 2] > l[2] && l[n - 1] > l[n / 2] {
            sched::fail(
                "memory-grows",
                &format!("bytes in use after each of {n} rounds of loads whose results were dropped: {l:?}"),
            );
        }
    }
}
