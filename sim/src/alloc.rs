//! The allocator seam. Memory allocated inside a load comes from an arena at a fixed
//! address with a deterministic layout, which is counted, filled with garbage, owned
//! by the allocating task and made to fail on demand. The harness itself uses the
//! system allocator.
use crate::sched::{self, CUR, IN_LIB};
use crate::shared::{count, C};
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x1000_0000_0000;
pub const SIZE: usize = 1 << 30;
const SHADOW: usize = 0x1100_0000_0000;
const NCLASS: usize = 64;

pub struct SimAlloc;

struct Arena {
    on: bool,
    next: usize,
    free: [usize; NCLASS],
    live: i64,
    peak: i64,
    garbage: u8,
}
static mut A: Arena = Arena { on: false, next: BASE, free: [0; NCLASS], live: 0, peak: 0, garbage: 0 };

/// Failure injection for one task.
#[derive(Clone, Copy)]
pub struct Fail {
    /// Allocations made by the current load.
    pub n: u64,
    /// Fail the allocation with this number (1 = first); 0 = none.
    pub at: u64,
    pub persistent: bool,
    /// The allocation error handler ran: no more failures until the load is over.
    pub reported: bool,
    pub injected: u64,
}
pub const NOFAIL: Fail = Fail { n: 0, at: 0, persistent: false, reported: false, injected: 0 };
pub static mut FAIL: [Fail; sched::MAXT] = [NOFAIL; sched::MAXT];

pub fn init(garbage: u8) {
    unsafe {
        for (a, l) in [(BASE, SIZE), (SHADOW, SIZE / 16)] {
            // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
            let p = sys::mmap(a as *mut u8, l, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
            assert!(p as usize == a, "arena");
        }
        A.garbage = garbage;
        A.on = true;
    }
}

pub fn live() -> i64 {
    unsafe { A.live }
}

/// The most that was in use since the last call; counts from now on.
pub fn peak() -> i64 {
    unsafe { std::mem::replace(&mut A.peak, A.live) }
}

pub fn set_garbage(g: u8) {
    unsafe { A.garbage = g }
}

/// The task (plus one) which allocated the block at `addr`.
#[inline]
pub fn owner(addr: usize) -> u8 {
    unsafe { *((SHADOW + (addr - BASE) / 16) as *const u8) }
}

#[inline]
pub fn contains(addr: usize) -> bool {
    addr.wrapping_sub(BASE) < SIZE
}

/// Class and block size for a layout.
fn class(l: &Layout) -> (usize, usize) {
    let s = l.size().max(l.align()).max(16);
    if s <= 256 {
        let c = s.div_ceil(16);
        (c, c * 16)
    } else {
        let p = s.next_power_of_two();
        (16 + p.trailing_zeros() as usize - 8, p)
    }
}

unsafe fn arena_alloc(l: &Layout) -> *mut u8 {
    let t = CUR.get();
    if t >= 0 {
        let f = &mut FAIL[t as usize];
        f.n += 1;
        if f.at != 0 && !f.reported && (f.n == f.at || (f.persistent && f.n > f.at)) {
            f.injected += 1;
            count(if f.persistent { C::AllocFailBurst } else { C::AllocFailOnce }, 1);
            return std::ptr::null_mut();
        }
    }
    let (c, sz) = class(l);
    if sz > SIZE / 4 {
        return std::ptr::null_mut();
    }
    let p = if A.free[c] != 0 {
        let p = A.free[c];
        A.free[c] = *(p as *const usize);
        p
    } else {
        let al = l.align().max(16);
        let p = (A.next + al - 1) & !(al - 1);
        if p + sz > BASE + SIZE {
            return std::ptr::null_mut();
        }
        A.next = p + sz;
        p
    };
    A.live += l.size() as i64;
    A.peak = A.peak.max(A.live);
    count(C::Allocs, 1);
    let who = (t + 1) as u8;
    std::ptr::write_bytes((SHADOW + (p - BASE) / 16) as *mut u8, who, sz / 16);
    std::ptr::write_bytes(p as *mut u8, A.garbage, l.size());
    sched::tick(sched::ALLOC);
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: &Layout) {
    let (c, _) = class(l);
    A.live -= l.size() as i64;
    std::ptr::write_bytes(p, 0xDD, l.size());
    *(p as *mut usize) = A.free[c];
    A.free[c] = p as usize;
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if A.on && IN_LIB.get() {
            arena_alloc(&l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if contains(p as usize) {
            arena_free(p, &l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if A.on && IN_LIB.get() {
            let p = arena_alloc(&l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !contains(p as usize) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = arena_alloc(&nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            arena_free(p, &l);
        }
        q
    }
}
