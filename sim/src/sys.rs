//! Raw system calls (never through libc, whose symbols the simulator overrides)
//! and the few libc declarations the harness needs.
use std::arch::asm;

pub const SYS_WRITE: i64 = 1;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_GETRANDOM: i64 = 318;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

extern "C" {
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    pub fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    pub fn __errno_location() -> *mut i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

/// Turns a raw kernel result into the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw(SYS_FUTEX, addr as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    raw(SYS_FUTEX, addr as i64, 129, 1, 0, 0, 0);
}

pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap shared");
    p
}

pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}
