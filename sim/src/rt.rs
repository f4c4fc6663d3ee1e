//! The runtime seam of the library engine. Everything a conversion can observe that is not its
//! arguments goes through here: random hash keys, clocks, the heap, thread scheduling (at every
//! basic block of the transpiler, every allocation, every lock wait and every log call).
//!
//! The process defines the C symbols the Rust runtime uses (`getrandom`, `syscall` for futexes,
//! `clock_gettime`, sleeps) and the coverage callbacks the instrumented transpiler calls.

use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

use crate::rng::mix;
use crate::sched::Sched;

/// State of one simulated thread.
pub struct SimThread {
    pub id: usize,
    pub sched: *const Sched,
    pub hash_state: Cell<u64>,
    /// Set while the simulator itself runs on this thread: no events then.
    pub quiet: Cell<u32>,
}

impl SimThread {
    pub fn new(id: usize, sched: *const Sched, hash: u64) -> SimThread {
        SimThread { id, sched, hash_state: Cell::new(hash), quiet: Cell::new(0) }
    }
}

thread_local! {
    static T: Cell<*const SimThread> = const { Cell::new(std::ptr::null()) };
}

pub fn enter(t: &SimThread) {
    T.with(|c| c.set(t));
}
pub fn leave() {
    T.with(|c| c.set(std::ptr::null()));
}
pub fn me() -> Option<&'static SimThread> {
    let p = T.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

/// Runs simulator code on a simulated thread without producing events.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(Option<&'static SimThread>);
    impl Drop for G {
        fn drop(&mut self) {
            if let Some(t) = self.0 {
                t.quiet.set(t.quiet.get() - 1);
            }
        }
    }
    let t = me();
    if let Some(t) = t {
        t.quiet.set(t.quiet.get() + 1);
    }
    let _g = G(t);
    f()
}

// ---- coverage callbacks: scheduling points and reach ----

pub static COV: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub static COV_N: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = COV_N.fetch_add(1, Relaxed) + 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let p = T.with(|c| c.get());
    if p.is_null() {
        return;
    }
    let t = &*p;
    if t.quiet.get() != 0 {
        return;
    }
    let id = *guard;
    let cov = COV.load(Relaxed);
    if !cov.is_null() {
        (*(cov.add(id as usize) as *const AtomicU8)).store(1, Relaxed);
    }
    (*t.sched).event(t, id as u64);
}

// ---- accesses to static memory: what threads can share ----

static STATICS: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
pub const EV_STATIC: u64 = 6 << 32;

/// The writable data of the program: where static items live.
pub fn find_statics() {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe {
        STATICS[0].store(&__data_start as *const u8 as u64, Relaxed);
        STATICS[1].store(&_end as *const u8 as u64, Relaxed);
    }
}

#[inline]
fn access(p: u64) {
    let lo = STATICS[0].load(Relaxed);
    if p >= lo && p < STATICS[1].load(Relaxed) {
        static_access(p - lo);
    }
}
#[cold]
fn static_access(off: u64) {
    if let Some(t) = me() {
        if t.quiet.get() == 0 {
            unsafe { (*t.sched).static_access(t, off) };
        }
    }
}
macro_rules! traced {
    ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(p: u64) { access(p) } )* };
}
traced! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
          __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

// ---- heap ----

pub struct Heap;
pub const EV_ALLOC: u64 = 1 << 32;
pub const EV_LOG: u64 = 2 << 32;
pub const EV_FUTEX: u64 = 3 << 32;
pub const EV_OP: u64 = 4 << 32;
pub const EV_YIELD: u64 = 5 << 32;

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // During thread teardown the slot may already be gone.
        if let Ok(p) = T.try_with(|c| c.get()) {
            if !p.is_null() && (*p).quiet.get() == 0 {
                (*(*p).sched).event(&*p, EV_ALLOC);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}

// ---- raw system calls, so that the simulator never goes through its own hooks ----

pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub fn raw_wait(w: &AtomicU32, val: u32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, 128, val as i64, 0, 0, 0);
    }
}
pub fn raw_wake(w: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
}

// ---- C symbols of the Rust runtime ----

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        if let Some(t) = me() {
            if t.quiet.get() == 0 {
                let op = b & 0x7f;
                let sched = &*t.sched;
                if op == 0 || op == 9 {
                    let abs = op == 9;
                    let timeout = if d == 0 {
                        None
                    } else {
                        let ts = &*(d as *const libc::timespec);
                        let v = ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64;
                        Some(if abs { v } else { sched.clock_now() + v })
                    };
                    let addr = &*(a as *const AtomicU32);
                    let r = sched.futex_wait(t, addr, c as u32, timeout);
                    return ret(r);
                }
                if op == 1 || op == 10 {
                    return sched.futex_wake(t, a as usize, c as u32 as usize) as i64;
                }
            }
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw6(n, a, b, c, d, e, f))
}

pub static OUTSIDE_HASH: AtomicU64 = AtomicU64::new(0x1234);
pub static GETRANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _f: u32) -> isize {
    GETRANDOM_CALLS.fetch_add(1, Relaxed);
    for i in 0..len {
        let v = match me() {
            Some(t) => {
                let s = t.hash_state.get().wrapping_add(0x9E3779B97F4A7C15);
                t.hash_state.set(s);
                mix(s)
            }
            None => mix(OUTSIDE_HASH.fetch_add(0x9E3779B97F4A7C15, Relaxed)),
        };
        *buf.add(i) = v as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if let Some(t) = me() {
        if t.quiet.get() == 0 {
            let v = (*t.sched).clock_read();
            (*ts).tv_sec = v / 1_000_000_000;
            (*ts).tv_nsec = v % 1_000_000_000;
            return 0;
        }
    }
    ret(raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if let Some(t) = me() {
        if t.quiet.get() == 0 {
            let d = (*r).tv_sec * 1_000_000_000 + (*r).tv_nsec;
            (*t.sched).sleep(t, if fl == 0 { d } else { 0 });
            return 0;
        }
    }
    let r = raw6(libc::SYS_clock_nanosleep, id as i64, fl as i64, r as i64, m as i64, 0, 0);
    -r as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    clock_nanosleep(0, 0, r, m)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(t) = me() {
        if t.quiet.get() == 0 {
            (*t.sched).forced_yield(t);
            return 0;
        }
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

// ---- environment variables ----

pub static ENV_SEED: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static environ: *const *const libc::c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if let Some(t) = me() {
        if t.quiet.get() == 0 && !n.starts_with(b"RUST_") {
            ENV_READS.fetch_add(1, Relaxed);
            let seed = ENV_SEED.load(Relaxed);
            if seed != 0 {
                let mut h = seed;
                for b in n {
                    h = mix(h ^ *b as u64);
                }
                let a: &[u8] = match h % 6 {
                    0 => return std::ptr::null_mut(),
                    1 => b"0\0",
                    2 => b"true\0",
                    3 => b"C\0",
                    _ => b"1\0",
                };
                return a.as_ptr() as *mut _;
            }
        }
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1) as *mut _;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

// ---- threads that the code under test starts itself ----

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Born {
    start: Start,
    arg: *mut libc::c_void,
    t: SimThread,
}

extern "C" fn born(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = &*(p as *const Born);
        let sched = &*b.t.sched;
        b.t.quiet.set(1);
        enter(&b.t);
        sched.parked(b.t.id);
        sched.start(b.t.id);
        b.t.quiet.set(0);
        let r = (b.start)(b.arg);
        sched.finish(&b.t);
        r
    }
}

unsafe fn real(name: &[u8]) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut libc::c_void) -> i32 {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
    let f: F = std::mem::transmute(real(b"pthread_create\0"));
    if let Some(t) = me() {
        if t.quiet.get() == 0 {
            t.quiet.set(1);
            let sched = &*t.sched;
            let hash = mix(t.hash_state.get() ^ 0x5EED);
            let r = match sched.add_thread() {
                Some(id) => {
                    let b = Box::leak(Box::new(Born { start, arg, t: SimThread::new(id, t.sched, hash) }));
                    let w = sched.parked_word();
                    let r = f(out, attr, born, b as *mut Born as *mut _);
                    if r == 0 {
                        sched.wait_parked(w, id);
                        sched.born(id, *out as u64);
                    } else {
                        sched.not_born(id);
                    }
                    r
                }
                None => f(out, attr, start, arg),
            };
            t.quiet.set(0);
            sched.event(t, EV_YIELD);
            return r;
        }
    }
    f(out, attr, start, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
    let f: F = std::mem::transmute(real(b"pthread_join\0"));
    if let Some(t) = me() {
        if t.quiet.get() == 0 {
            (*t.sched).join(t, th as u64);
        }
    }
    f(th, ret)
}
