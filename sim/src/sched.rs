//! The scheduler. Caller threads are real threads of which exactly one runs at any
//! time, the one which holds the baton. Inside a load every basic block, every access
//! to static memory or another task's heap and every allocation is a point at which
//! the schedule may take the baton away; blocking on a lock, sleeping and yielding are
//! simulated. Time is simulated: a step is 10 ns.
use crate::sc_threads::{COMMON, COMMON_SIZE};
use crate::shared::{self, count, C};
use crate::{alloc, rng, sys};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 120;
/// Units in which a schedule segment is measured.
pub const POINTS: u8 = 0;
pub const HOT: u8 = 1;
pub const ALLOC: u8 = 2;

thread_local! {
    /// The task running on this thread, -1 for none.
    pub static CUR: Cell<i32> = const { Cell::new(-1) };
    /// Whether this thread is inside the code under test.
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Futex,
    Sleep,
    Barrier,
    /// Stalled until nobody else has anything left to do.
    Hang,
    Done,
}

#[derive(Clone, Copy)]
struct Task {
    st: St,
    addr: usize,
    deadline: u64,
    timed_out: bool,
    in_load: bool,
    left: u64,
}
const TASK: Task =
    Task { st: St::Done, addr: 0, deadline: u64::MAX, timed_out: false, in_load: false, left: u64::MAX };

struct Sched {
    on: bool,
    /// All tasks, those of threads which loads have started among them.
    n: usize,
    /// The application's tasks: 0 to `base`.
    base: usize,
    cur: usize,
    segs: Vec<(i64, u8, i64)>,
    seg: usize,
    unit: u8,
    q: i64,
    now: u64,
    last_pc: u32,
    t: [Task; MAXT],
    at_barrier: Option<fn()>,
    /// All tasks warm up first; the schedule begins when they have.
    warming: bool,
}
static mut S: Sched = Sched {
    on: false,
    n: 0,
    base: 0,
    cur: 0,
    segs: Vec::new(),
    seg: 0,
    unit: 255,
    q: 0,
    now: 0,
    last_pc: 0,
    t: [TASK; MAXT],
    at_barrier: None,
    warming: false,
};
static BATON: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut S }
}

pub fn now() -> u64 {
    s().now + shared::get().steps * 10
}
pub fn advance(ns: u64) {
    s().now += ns;
}

/// Adds to the trace of the run: everything observable goes in here, and two runs of
/// one plan must agree on it.
pub fn trace(v: u64) {
    let sh = shared::get();
    sh.trace_hash = rng::mix(sh.trace_hash ^ v).wrapping_add(v);
}

/// Set in the processes which find out what a load does on its own.
pub static mut SOLO: bool = false;

/// Records a violation and ends the run.
pub fn fail(class: &str, detail: &str) -> ! {
    IN_LIB.set(false);
    if unsafe { SOLO } {
        sys::exit_now(9);
    }
    shared::violation(class, detail);
    trace(rng::hash_bytes(2, class.as_bytes()));
    sys::exit_now(2)
}

fn give(to: usize) {
    BATON[to].store(1, SeqCst);
    unsafe { sys::futex_wake(BATON[to].as_ptr()) };
}
fn take(me: usize) {
    while BATON[me].compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
        unsafe { sys::futex_wait(BATON[me].as_ptr(), 0) };
    }
}

/// Chooses who runs next. None: every task is done.
fn next_task() -> Option<usize> {
    let s = s();
    loop {
        let mut run = [0usize; MAXT];
        let mut nr = 0;
        for i in 0..s.n {
            if s.t[i].st == St::Run {
                run[nr] = i;
                nr += 1;
            }
        }
        if nr == 0 {
            // Nobody can run: time passes until the first timeout.
            if let Some(i) = (0..s.n)
                .filter(|&i| matches!(s.t[i].st, St::Futex | St::Sleep) && s.t[i].deadline != u64::MAX)
                .min_by_key(|&i| s.t[i].deadline)
            {
                let d = s.t[i].deadline;
                if d > now() {
                    advance(d - now());
                }
                s.t[i].timed_out = true;
                s.t[i].st = St::Run;
                continue;
            }
            if (0..s.base).all(|i| s.t[i].st == St::Done) {
                return None;
            }
            if (0..s.base).all(|i| matches!(s.t[i].st, St::Done | St::Barrier)) {
                if s.warming {
                    s.warming = false;
                } else if let Some(f) = s.at_barrier {
                    f();
                }
                for i in 0..s.n {
                    if s.t[i].st == St::Barrier {
                        s.t[i].st = St::Run;
                    }
                }
                continue;
            }
            if (0..s.n).any(|i| s.t[i].st == St::Hang) {
                if (0..s.base).all(|i| matches!(s.t[i].st, St::Done | St::Hang)) {
                    for i in 0..s.n {
                        if s.t[i].st == St::Hang {
                            s.t[i].st = St::Run;
                        }
                    }
                    continue;
                }
                let i = (0..s.base).find(|&i| s.t[i].st == St::Futex).unwrap_or(0);
                fail("load-held-up", &format!("task {i} cannot go on while a load by another task is stalled in the logger"));
            }
            let who: Vec<String> = (0..s.n)
                .filter(|&i| s.t[i].st != St::Done)
                .map(|i| {
                    format!(
                        "task {i} {}{}",
                        if s.t[i].st == St::Barrier { "waits for the round to end" } else { "waits for a lock" },
                        if s.t[i].in_load { " inside a load" } else { "" }
                    )
                })
                .collect();
            fail("deadlock", &format!("no task can ever run again: {}", who.join(", ")));
        }
        let (hint, unit, q) = if s.warming {
            (s.cur as i64 + 1, 255, 1)
        } else if s.seg < s.segs.len() {
            s.seg += 1;
            s.segs[s.seg - 1]
        } else {
            (s.cur as i64 + 1, POINTS, 20_000)
        };
        s.unit = unit;
        s.q = q.max(1);
        // The first runnable task from the one named by the hint.
        let h = hint.rem_euclid(s.n as i64) as usize;
        let pick = (0..s.n).map(|d| (h + d) % s.n).find(|i| run[..nr].contains(i)).unwrap();
        return Some(pick);
    }
}

fn note_switch(to: usize) {
    let s = s();
    let sh = shared::get();
    sh.switches += 1;
    let v = ((s.last_pc as u64) << 16) | ((s.cur as u64) << 8) | to as u64;
    sh.sched_hash = rng::mix(sh.sched_hash ^ v);
    trace(v ^ (sh.steps << 32));
    if s.t[to].in_load && s.t[s.cur].in_load {
        count(C::Overlaps, 1);
    }
}

/// Passes the baton to whoever is next; returns when this task has it again.
fn resched() {
    let me = CUR.get() as usize;
    match next_task() {
        Some(n) if n == me => {}
        Some(n) => {
            note_switch(n);
            s().cur = n;
            give(n);
            take(me);
        }
        None => unreachable!(),
    }
}

#[inline]
pub fn tick(kind: u8) {
    let sh = shared::get();
    sh.steps += 1;
    let t = CUR.get();
    if t < 0 {
        return;
    }
    let s = s();
    let left = &mut s.t[t as usize].left;
    *left -= 1;
    if *left == 0 {
        fail("no-progress", "a load did not finish within its step bound");
    }
    if s.on && s.unit == kind {
        s.q -= 1;
        if s.q <= 0 {
            let was = s.cur;
            let inl = IN_LIB.replace(false);
            let before = sh.switches;
            resched();
            IN_LIB.set(inl);
            if sh.switches != before {
                let _ = was;
                count(
                    match kind {
                        POINTS => C::PreemptPoint,
                        HOT => C::PreemptHot,
                        _ => C::PreemptAlloc,
                    },
                    1,
                );
            }
        }
    }
}

/// Gives way voluntarily (stalled logger, sched_yield).
pub fn yield_now() {
    if s().on && CUR.get() >= 0 {
        let inl = IN_LIB.replace(false);
        resched();
        IN_LIB.set(inl);
    }
}

pub fn sleep(ns: u64) {
    let t = CUR.get();
    if !s().on || t < 0 {
        advance(ns);
        return;
    }
    let inl = IN_LIB.replace(false);
    let d = now() + ns;
    let k = &mut s().t[t as usize];
    k.deadline = d;
    k.st = St::Sleep;
    resched();
    s().t[t as usize].deadline = u64::MAX;
    IN_LIB.set(inl);
}

/// Stalls until nobody else has anything left to do.
pub fn hang() {
    let t = CUR.get();
    if s().on && t >= 0 {
        let inl = IN_LIB.replace(false);
        s().t[t as usize].st = St::Hang;
        resched();
        IN_LIB.set(inl);
    }
}

/// In a forked process: the other tasks' threads are not there.
pub fn alone(t: usize) {
    unsafe { ALONE = true };
    let s = s();
    for i in 0..s.n {
        if i != t {
            s.t[i].st = St::Done;
        }
    }
}

/// Runs `f` on the thread of task `t` while that thread ends. Nothing else runs.
pub fn ending(t: usize, f: impl FnOnce()) {
    CUR.set(t as i32);
    let on = std::mem::replace(&mut s().on, false);
    f();
    s().on = on;
    CUR.set(-1);
}

/// How many other tasks are in the middle of a load.
pub fn others_loading(t: usize) -> u64 {
    let s = s();
    (0..s.n).filter(|&i| i != t && s.t[i].in_load).count() as u64
}

pub fn barrier() {
    let t = CUR.get();
    if s().on && t >= 0 {
        s().t[t as usize].st = St::Barrier;
        resched();
    }
}

/// Marks the start of a load by this task, with its step bound.
pub fn begin_load(bound: u64) {
    let t = CUR.get();
    if t >= 0 {
        let k = &mut s().t[t as usize];
        k.in_load = true;
        k.left = bound.max(1);
    }
}
pub fn end_load() {
    let t = CUR.get();
    if t >= 0 {
        let k = &mut s().t[t as usize];
        k.in_load = false;
        k.left = u64::MAX;
    }
}
pub fn in_load() -> (bool, u64) {
    let t = CUR.get();
    if t >= 0 {
        (s().t[t as usize].in_load, s().t[t as usize].left)
    } else {
        (false, u64::MAX)
    }
}

/// The futex system call, for tasks. Returns a kernel style result.
pub unsafe fn futex(addr: usize, op: i64, val: i64, timeout: i64) -> Option<i64> {
    let t = CUR.get();
    let s = s();
    if !s.on || t < 0 {
        return None;
    }
    let inl = IN_LIB.replace(false);
    let r = match op & 127 {
        c @ (0 | 9) => {
            if *(addr as *const u32) != val as u32 {
                -11
            } else {
                let mut d = u64::MAX;
                if timeout != 0 {
                    let ts = timeout as *const i64;
                    let ns = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
                    d = if c == 0 { now().saturating_add(ns) } else { ns };
                }
                count(C::FutexBlock, 1);
                let k = &mut s.t[t as usize];
                k.st = St::Futex;
                k.addr = addr;
                k.deadline = d;
                k.timed_out = false;
                resched();
                let k = &mut s.t[t as usize];
                k.deadline = u64::MAX;
                if k.timed_out {
                    -110
                } else {
                    0
                }
            }
        }
        1 | 10 => {
            let mut n = 0;
            for d in 0..s.n {
                let i = (t as usize + 1 + d) % s.n;
                if n < val && s.t[i].st == St::Futex && s.t[i].addr == addr {
                    s.t[i].st = St::Run;
                    s.t[i].timed_out = false;
                    n += 1;
                }
            }
            n
        }
        _ => -38,
    };
    IN_LIB.set(inl);
    Some(r)
}

/// Runs `n` tasks to completion under the schedule.
pub fn run(n: usize, stack: usize, segs: Vec<(i64, u8, i64)>, warm: bool, at_barrier: Option<fn()>, f: &(dyn Fn(usize) + Sync)) {
    run_named(n, stack, 0, segs, warm, at_barrier, f)
}

/// How applications name their threads.
fn name(how: u64, i: usize) -> Option<String> {
    match how % 6 {
        0 => None,
        1 => Some("main".into()),
        2 => Some(format!("worker-{i}")),
        3 => Some("tokio-runtime-worker".into()),
        4 => Some(String::new()),
        _ => Some(format!("lädt {}", "x".repeat(i * 5))),
    }
}

pub fn run_named(
    n: usize,
    stack: usize,
    names: u64,
    segs: Vec<(i64, u8, i64)>,
    warm: bool,
    at_barrier: Option<fn()>,
    f: &(dyn Fn(usize) + Sync),
) {
    let n = n.clamp(1, MAXT);
    {
        let s = s();
        s.n = n;
        s.base = n;
        s.segs = segs;
        s.seg = 0;
        s.unit = 255;
        s.at_barrier = at_barrier;
        s.warming = warm;
        for i in 0..n {
            s.t[i] = Task { st: St::Run, ..TASK };
        }
    }
    count(C::ThreadsRun, n as u64);
    std::thread::scope(|sc| {
        let mut h: Vec<_> = (0..n)
            .map(|i| {
                Some(
                    match name(names, i) {
                        Some(n) => std::thread::Builder::new().name(n),
                        None => std::thread::Builder::new(),
                    }
                        .stack_size(stack)
                        .spawn_scoped(sc, move || {
                            take(i);
                            CUR.set(i as i32);
                            f(i);
                            CUR.set(-1);
                            s().t[i].st = St::Done;
                            give(MAXT);
                        })
                        .expect("spawn"),
                )
            })
            .collect();
        s().on = true;
        s().cur = 0;
        while let Some(t) = next_task() {
            note_switch(t);
            s().cur = t;
            give(t);
            take(MAXT);
            // A task finished: let its thread go completely (thread-local
            // destructors run now) before anything else happens.
            let done = s().cur;
            if done >= n {
                helper_gone(done);
                continue;
            }
            if h[done].take().unwrap().join().is_err() {
                shared::harness(&format!("task {done} panicked in the harness"));
                sys::exit_now(3);
            }
        }
        s().on = false;
    });
}

// Threads which loads start: tasks like the others, except that nobody waits for them
// at the end.

type Start = unsafe extern "C" fn(usize) -> usize;
/// Whether this is a forked process: its one application thread goes on by itself.
static mut ALONE: bool = false;
static mut HELPER: [(usize, i64); MAXT] = [(0, 0); MAXT];

struct Begin {
    start: Start,
    arg: usize,
    task: Option<usize>,
    tid: AtomicU32,
}

extern "C" fn helper(b: usize) -> usize {
    let b = b as *const Begin;
    unsafe {
        (*b).tid.store(sys::raw(186, 0, 0, 0, 0, 0, 0) as u32, SeqCst);
        let (start, arg, task) = ((*b).start, (*b).arg, (*b).task);
        let Some(i) = task else { return start(arg) };
        take(i);
        CUR.set(i as i32);
        IN_LIB.set(true);
        let r = start(arg);
        IN_LIB.set(false);
        CUR.set(-1);
        let s = s();
        s.t[i].st = St::Done;
        s.t[i].in_load = false;
        if ALONE {
            wake(&raw const HELPER[i] as usize);
            let n = next_task().unwrap();
            s.cur = n;
            give(n);
        } else {
            give(MAXT);
        }
        r
    }
}

unsafe fn wait_gone(tid: i64, most: u32) {
    let pid = sys::raw(39, 0, 0, 0, 0, 0, 0);
    for k in 0..most {
        // tgkill, no signal
        if sys::raw(234, pid, tid, 0, 0, 0, 0) != 0 {
            return;
        }
        if k < 200 {
            sys::raw(24, 0, 0, 0, 0, 0, 0);
            continue;
        }
        let ts = [0i64, 50_000];
        sys::raw(35, ts.as_ptr() as i64, 0, 0, 0, 0, 0);
    }
}

/// The thread of helper task `i` has ended: whoever waits for it can go on.
fn helper_gone(i: usize) {
    unsafe {
        wait_gone(HELPER[i].1, 100_000);
        wake(&raw const HELPER[i] as usize);
    }
}

fn wake(addr: usize) {
    let s = s();
    for k in 0..s.n {
        if s.t[k].st == St::Futex && s.t[k].addr == addr {
            s.t[k].st = St::Run;
            s.t[k].timed_out = false;
        }
    }
}

/// A load starts a thread. `create` makes it, given what to start and with what.
pub unsafe fn start_thread(start: usize, arg: usize, create: impl FnOnce(usize, usize) -> (i32, usize)) -> i32 {
    let s = s();
    let me = CUR.get();
    let free = (s.base..s.n).find(|&i| s.t[i].st == St::Done).unwrap_or(s.n);
    let task = (s.on && me >= 0 && free < MAXT).then_some(free);
    if s.on && task.is_none() {
        return 11;
    }
    count(C::LibThreads, 1);
    let b = Box::leak(Box::new(Begin { start: std::mem::transmute::<usize, Start>(start), arg, task, tid: AtomicU32::new(0) }));
    let (r, th) = create(helper as *const () as usize, b as *const Begin as usize);
    if r != 0 {
        return r;
    }
    let tid = loop {
        let t = b.tid.load(SeqCst);
        if t != 0 {
            break t as i64;
        }
        std::hint::spin_loop();
    };
    match task {
        Some(i) => {
            crate::logger::script_of(i).start(Vec::new());
            alloc::FAIL[i] = alloc::NOFAIL;
            HELPER[i] = (th, tid);
            let left = s.t[me as usize].left;
            s.t[i] = Task { st: St::Run, in_load: true, left, ..TASK };
            s.n = s.n.max(i + 1);
        }
        // No schedule: it runs before anything else, if it can.
        None => wait_gone(tid, 4000),
    }
    0
}

/// Waits for a thread which a load has started.
pub fn join_thread(th: usize) {
    let s = s();
    let t = CUR.get();
    if !s.on || t < 0 {
        return;
    }
    for i in s.base..s.n {
        if unsafe { HELPER[i].0 } == th && s.t[i].st != St::Done {
            let inl = IN_LIB.replace(false);
            let k = &mut s.t[t as usize];
            k.st = St::Futex;
            k.addr = unsafe { &raw const HELPER[i] as usize };
            k.deadline = u64::MAX;
            resched();
            IN_LIB.set(inl);
        }
    }
}

/// Whether task `t` is a thread which a load has started.
pub fn is_helper(t: i32) -> bool {
    t >= 0 && t as usize >= s().base && s().on
}

// Callbacks which the compiler puts into the code under test.

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    static mut N: u32 = 0;
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        N += 1;
        *start = N;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN_LIB.get() {
        return;
    }
    let id = *g;
    shared::get().cov[id as usize & (shared::COVMAX - 1)] = 1;
    s().last_pc = id;
    tick(POINTS);
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn mem(a: usize, store: bool) {
    if !IN_LIB.get() || !s().on {
        return;
    }
    let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
    if a >= lo && a < hi {
        count(C::HotAccess, 1);
        tick(HOT);
    } else if store && a.wrapping_sub(COMMON) < COMMON_SIZE {
        tick(HOT);
    } else if alloc::contains(a) && alloc::owner(a) != (CUR.get() + 1) as u8 {
        count(C::CrossAccess, 1);
        tick(HOT);
    }
}

macro_rules! memcb {
    ($s:literal $($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: usize) { mem(a, $s) }
    )* };
}
memcb! { false __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16 }
memcb! { true __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }
