//! The operating system seam. These definitions take the place of libc's for the
//! whole process. Outside a load they pass the call on; inside one they report it
//! and answer from the simulated environment, so that nothing real is touched.
use crate::sched::{self, CUR, IN_LIB};
use crate::shared::{count, C};
use crate::{rng, sys};

pub struct Env {
    /// Any access is a violation (C08).
    pub strict: bool,
    pub seed: u64,
    pub draws: u64,
    /// What the simulated environment answers: 0 nothing exists, 1 everything does.
    pub exists: bool,
    pub clock: u64,
    /// Simulated nanoseconds which pass when a clock is read.
    pub tick: u64,
    /// The wall clock goes back instead.
    pub back: bool,
}
pub static mut ENV: Env = Env { strict: false, seed: 0, draws: 0, exists: false, clock: 1_700_000_000_000_000_000, tick: 0, back: false };

#[allow(static_mut_refs)]
pub fn env() -> &'static mut Env {
    unsafe { &mut ENV }
}

fn inside() -> bool {
    IN_LIB.get()
}

unsafe fn cstr(p: usize) -> String {
    if p == 0 {
        return "NULL".into();
    }
    let mut n = 0;
    while n < 200 && *((p + n) as *const u8) != 0 {
        n += 1;
    }
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}

/// The code under test touched its environment.
fn touched(what: &str, arg: &str) {
    let inl = IN_LIB.replace(false);
    count(C::EnvAccess, 1);
    sched::trace(rng::hash_bytes(7, what.as_bytes()));
    if env().strict {
        sched::fail("environment-access", &format!("a load called {what}({arg})"));
    }
    IN_LIB.set(inl);
}

unsafe fn next(name: &[u8]) -> usize {
    // RTLD_NEXT
    sys::dlsym(-1isize as *mut u8, name.as_ptr()) as usize
}

type F6 = unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> isize;

/// pass!{ name: how it is answered inside a load }
macro_rules! wrap {
    ($($name:ident $how:ident $path:literal;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
            static mut NEXT: usize = 0;
            let (mut a, mut b) = (a, b);
            let mut c = c;
            if inside() {
                let arg = match $path { 1 => cstr(a), 2 => cstr(b), _ => String::new() };
                touched(stringify!($name), &arg);
                match answer::$how(&mut a, &mut b, &mut c, $path) {
                    Some(r) => return r,
                    None => {}
                }
            }
            if NEXT == 0 {
                NEXT = next(concat!(stringify!($name), "\0").as_bytes());
            }
            let f6: F6 = std::mem::transmute(NEXT);
            f6(a, b, c, d, e, f)
        }
    )* };
}

mod answer {
    use super::*;
    const NULLDEV: &[u8] = b"/dev/null\0";
    pub unsafe fn fail(_: &mut usize, _: &mut usize, _: &mut usize, _: i32) -> Option<isize> {
        sys::set_errno(1);
        Some(-1)
    }
    pub unsafe fn null(_: &mut usize, _: &mut usize, _: &mut usize, _: i32) -> Option<isize> {
        sys::set_errno(2);
        Some(0)
    }
    pub unsafe fn again(_: &mut usize, _: &mut usize, _: &mut usize, _: i32) -> Option<isize> {
        Some(11)
    }
    /// Queries about a path.
    pub unsafe fn path(a: &mut usize, b: &mut usize, _: &mut usize, n: i32) -> Option<isize> {
        if !env().exists {
            sys::set_errno(2);
            return Some(-1);
        }
        *(if n == 1 { a } else { b }) = NULLDEV.as_ptr() as usize;
        None
    }
    /// Opening a path: a file which holds something else than the caller expects.
    pub unsafe fn open(_: &mut usize, _: &mut usize, _: &mut usize, _: i32) -> Option<isize> {
        if !env().exists {
            sys::set_errno(2);
            return Some(-1);
        }
        let fd = sys::raw(319, c"sim".as_ptr() as i64, 0, 0, 0, 0, 0);
        let t = b"newmtl other\nKd 9 9 9\nv 9 9 9\n";
        sys::raw(sys::SYS_WRITE, fd, t.as_ptr() as i64, t.len() as i64, 0, 0, 0);
        sys::raw(8, fd, 0, 0, 0, 0, 0);
        Some(fd as isize)
    }
    pub unsafe fn getenv(_: &mut usize, _: &mut usize, _: &mut usize, _: i32) -> Option<isize> {
        Some(if env().exists { c"1".as_ptr() as isize } else { 0 })
    }
    /// Output is swallowed.
    pub unsafe fn write(_: &mut usize, _: &mut usize, c: &mut usize, n: i32) -> Option<isize> {
        Some(if n == 3 { *c as isize } else { 0 })
    }
    /// How many processors there seem to be.
    pub unsafe fn cpus(_: &mut usize, b: &mut usize, c: &mut usize, _: i32) -> Option<isize> {
        let n = 1 + (rng::mix(env().seed ^ 99) % 48) as usize;
        for i in 0..*b {
            let bits = n.saturating_sub(i * 8).min(8);
            *((*c + i) as *mut u8) = ((1u32 << bits) - 1) as u8;
        }
        Some(0)
    }
    pub unsafe fn pass(_: &mut usize, _: &mut usize, _: &mut usize, _: i32) -> Option<isize> {
        None
    }
}

wrap! {
    open open 1; open64 open 1; creat open 1; openat open 2; openat64 open 2;
    fopen null 1; fopen64 null 1; opendir null 1; realpath null 1; getcwd null 0;
    stat path 1; stat64 path 1; lstat path 1; lstat64 path 1; access path 1; statfs path 1; statvfs path 1;
    fstatat path 2; fstatat64 path 2; statx path 2; faccessat path 2;
    readlink fail 1; readlinkat fail 2; mkdir fail 1; unlink fail 1; unlinkat fail 2; rename fail 1; rmdir fail 1;
    chdir fail 1; chmod fail 1; symlink fail 1; link fail 1; truncate64 fail 1;
    getenv getenv 1; secure_getenv getenv 1; setenv fail 1; unsetenv fail 1; putenv fail 1;
    socket fail 0; connect fail 0; bind fail 0; getaddrinfo fail 1; socketpair fail 0; pipe2 fail 0;
    send fail 0; sendto fail 0; recv fail 0; recvfrom fail 0;
    write write 3; pwrite64 write 3; writev write 0; puts write 0; printf write 0; syslog write 0;
    read pass 0; readv pass 0; pread64 pass 0; close pass 0;
    execve fail 1; execvp fail 1; execv fail 1; posix_spawn again 2; posix_spawnp again 2; system fail 1;
    fork fail 0; vfork fail 0;
    sched_getaffinity cpus 0; gethostname fail 0; getpid pass 0; uname pass 0; sysinfo pass 0; kill fail 0;
}

type Create = unsafe extern "C" fn(*mut usize, usize, usize, usize) -> i32;
/// Threads which loads start run under the schedule, too.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut usize, attr: usize, start: usize, arg: usize) -> i32 {
    static mut NEXT: usize = 0;
    if NEXT == 0 {
        NEXT = next(b"pthread_create\0");
    }
    let f: Create = std::mem::transmute(NEXT);
    if !inside() {
        return f(th, attr, start, arg);
    }
    touched("pthread_create", "");
    let inl = IN_LIB.replace(false);
    let r = sched::start_thread(start, arg, |s, a| {
        let r = f(th, attr, s, a);
        (r, *th)
    });
    IN_LIB.set(inl);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, ret: usize) -> i32 {
    static mut NEXT: usize = 0;
    if NEXT == 0 {
        NEXT = next(b"pthread_join\0");
    }
    sched::join_thread(th);
    let f: unsafe extern "C" fn(usize, usize) -> i32 = std::mem::transmute(NEXT);
    f(th, ret)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == sys::SYS_FUTEX {
        if let Some(r) = sched::futex(a as usize, b, c, d) {
            return sys::ret(r);
        }
    } else if n == sys::SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    } else if inside() {
        touched("syscall", &n.to_string());
    }
    sys::ret(sys::raw(n, a, b, c, d, e, f))
}

/// Hash seeds and other randomness: drawn from the run's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let e = env();
    for i in 0..n {
        if i % 8 == 0 {
            e.draws += 1;
        }
        *p.add(i) = (rng::mix(e.seed ^ (e.draws << 8) ^ CUR.get() as u64) >> (i % 8 * 8)) as u8;
    }
    count(C::HashSeed, 1);
    n as isize
}

fn ticked(wall: bool) {
    let e = env();
    count(C::ClockReads, 1);
    if e.tick > 0 && inside() {
        count(C::ClockTick, 1);
        if e.back && wall {
            e.clock = e.clock.wrapping_sub(e.tick);
        }
        sched::advance(e.tick);
    }
}
fn clock_now() -> u64 {
    ticked(true);
    (env().clock.wrapping_add(sched::now())) & (i64::MAX as u64)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    // Monotonic clocks count from the start of the run.
    let t = if id == 0 || id == 5 { clock_now() } else {
        ticked(false);
        sched::now() + 1_000_000_000
    };
    *ts = (t / 1_000_000_000) as i64;
    *ts.add(1) = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, _z: usize) -> i32 {
    let t = clock_now();
    *tv = (t / 1_000_000_000) as i64;
    *tv.add(1) = (t % 1_000_000_000 / 1000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let t = (clock_now() / 1_000_000_000) as i64;
    if !p.is_null() {
        *p = t;
    }
    t
}

unsafe fn sleep_ts(ts: *const i64) {
    if inside() {
        touched("nanosleep", "");
    }
    sched::sleep((*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const i64, _r: usize) -> i32 {
    sleep_ts(ts);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, flags: i32, ts: *const i64, _r: usize) -> i32 {
    if flags == 0 {
        sleep_ts(ts);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    sched::yield_now();
    0
}

/// For the harness itself, before anything is simulated.
pub unsafe fn real_fork() -> i32 {
    let f: unsafe extern "C" fn() -> i32 = std::mem::transmute(next(b"fork\0"));
    f()
}
