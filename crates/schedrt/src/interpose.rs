//! The C entry points the standard library uses to create, join and park
//! threads. Calls from threads that are not under control go through unchanged.

use super::*;
use std::arch::asm;
use std::ffi::c_void;

const SYS_FUTEX: i64 = 202;
const SYS_SCHED_YIELD: i64 = 24;

extern "C" {
    fn dlsym(h: *mut c_void, name: *const u8) -> *mut c_void;
    fn __errno_location() -> *mut i32;
    pub fn _exit(c: i32) -> !;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

#[inline]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn raw_wait(a: *const u32, v: u32) {
    unsafe { raw(SYS_FUTEX, a as i64, 128, v as i64, 0, 0, 0) };
}
pub fn raw_wake(a: *const u32) {
    unsafe { raw(SYS_FUTEX, a as i64, 129, 1, 0, 0, 0) };
}
unsafe fn finish(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut u64, *const c_void, Start, *mut c_void) -> i32;
type JoinFn = unsafe extern "C" fn(u64, *mut *mut c_void) -> i32;

struct Boot {
    t: usize,
    baton: *const AtomicU32,
    f: Start,
    arg: *mut c_void,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    let mut r = std::ptr::null_mut();
    thread_body(b.t, b.baton, || r = (b.f)(b.arg));
    r
}

unsafe fn real(name: &'static [u8]) -> *mut c_void {
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut u64, attr: *const c_void, f: Start, arg: *mut c_void) -> i32 {
    let real: CreateFn = std::mem::transmute(real(b"pthread_create\0"));
    if !controlled() {
        return real(th, attr, f, arg);
    }
    let (t, baton) = spawn_controlled();
    let boot = Box::into_raw(Box::new(Boot { t, baton, f, arg }));
    let r = real(th, attr, trampoline, boot as *mut c_void);
    if r != 0 {
        fatal(w(), format!("pthread_create failed: {r}"));
    }
    w().th[t].pthread = *th;
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: u64, ret: *mut *mut c_void) -> i32 {
    let real: JoinFn = std::mem::transmute(real(b"pthread_join\0"));
    if let Some(t) = me() {
        if let Some(k) = (0..w().th.len()).rev().find(|k| w().th[*k].pthread == th) {
            point(t, Wait::Join(k), "join", 0);
        }
    }
    real(th, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    match me() {
        None => finish(raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32,
        Some(t) => {
            w().th[t].yielded = true;
            point(t, Wait::Go, "yield", 0);
            0
        }
    }
}
/// Sleeping: the others go on, and any moment later may be the end of it. The
/// time asked for has then passed on the virtual clock.
unsafe fn doze(n: i64, a: i64, b: i64, c: i64, d: i64, req: i64, absolute: bool) -> i64 {
    match me() {
        None => raw(n, a, b, c, d, 0, 0),
        Some(t) => {
            let ts = req as *const [i64; 2];
            let until = (*ts)[0].saturating_mul(1_000_000_000).saturating_add((*ts)[1]).saturating_add(if absolute { 0 } else { w().clock });
            w().th[t].yielded = true;
            point(t, Wait::Go, "sleep", 0);
            w().clock = w().clock.max(until);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: i64, b: i64) -> i32 {
    finish(doze(35, a, b, 0, 0, a, false)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(a: i64, b: i64, c: i64, d: i64) -> i32 {
    -doze(230, a as i32 as i64, b as i32 as i64, c, d, c, b as i32 & 1 == 1) as i32
}
/// Threads under control see the virtual clock.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    match me() {
        None => finish(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32,
        Some(_) => {
            *ts = [w().clock / 1_000_000_000, w().clock % 1_000_000_000];
            0
        }
    }
}

/// `syscall(2)` as the standard library calls it.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX {
        if let Some(t) = me() {
            let cmd = b & 127;
            let addr = a as usize;
            match cmd {
                // FUTEX_WAIT, FUTEX_WAIT_BITSET
                0 | 9 => {
                    let val = c as u32;
                    if std::ptr::read_volatile(addr as *const u32) != val {
                        *__errno_location() = 11;
                        return -1;
                    }
                    w().th[t].timed_out = false;
                    if d != 0 {
                        // FUTEX_WAIT_BITSET: absolute
                        let ts = d as *const [i64; 2];
                        let x = (*ts)[0].saturating_mul(1_000_000_000).saturating_add((*ts)[1]);
                        w().th[t].until = if cmd == 9 { x } else { x.saturating_add(w().clock) };
                    }
                    point(t, Wait::Futex { addr, val, timed: d != 0, woken: false }, "futex", 0);
                    if std::mem::replace(&mut w().th[t].timed_out, false) {
                        w().clock = w().clock.max(w().th[t].until);
                        *__errno_location() = 110;
                        return -1;
                    }
                    return 0;
                }
                // FUTEX_WAKE, FUTEX_WAKE_BITSET
                1 | 10 => {
                    let mut k = 0;
                    for th in w().th.iter_mut() {
                        if let Wait::Futex { addr: x, ref mut woken, .. } = th.wait {
                            if x == addr && !*woken && k < c as i32 {
                                *woken = true;
                                k += 1;
                            }
                        }
                    }
                    return k as i64;
                }
                _ => {}
            }
        }
    }
    finish(raw(n, a, b, c, d, e, f))
}
