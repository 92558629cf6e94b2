//! Process-level seams: randomness, clock, blocking and sleeping system calls.
//! Defined in the executable, these symbols take precedence over libc's.
use crate::prng::mix;
use crate::sched;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
/// Simulated time, nanoseconds since the epoch.
static CLOCK: AtomicI64 = AtomicI64::new(1_700_000_000_000_000_000);
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);
/// Simulated time since start, never runs backwards.
static UPTIME: AtomicI64 = AtomicI64::new(1_000_000_000);
/// Decides how far the clocks move between two readings; 0 = evenly.
static PACE: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Relaxed);
    RANDOM_CALLS.store(0, Relaxed);
}
pub fn random_calls() -> u64 {
    RANDOM_CALLS.load(Relaxed)
}
pub fn set_clock(ns: i64) {
    CLOCK.store(ns, Relaxed);
    UPTIME.fetch_add(ns & ((1 << 42) - 1), Relaxed);
}
pub fn advance_clock(ns: i64) {
    CLOCK.fetch_add(ns, Relaxed);
    UPTIME.fetch_add(ns.max(0), Relaxed);
}
pub fn set_pace(p: u64) {
    PACE.store(p, Relaxed);
}
pub fn clock_calls() -> u64 {
    CLOCK_CALLS.load(Relaxed)
}

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw_syscall(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// Real monotonic time for the supervisor only.
pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw_syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _f: u32) -> isize {
    let mut i = 0;
    while i < n {
        let c = RANDOM_CALLS.fetch_add(1, Relaxed);
        let v = mix(HASH_SEED.load(Relaxed), c + 1).to_le_bytes();
        let k = (n - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), b.add(i), k);
        i += k;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    let c = CLOCK_CALLS.fetch_add(1, Relaxed);
    let pace = PACE.load(Relaxed);
    let (mut step, mut jump) = (1000, 0);
    if pace != 0 {
        let r = mix(pace, c + 1);
        step = [1000, 1000, 40_000_000, 1_500_000_000, 90_000_000_000][r as usize % 5];
        // the wall clock is set, forwards or backwards
        jump = [0, 0, 0, 0, 0, 0, 3_600_000_000_000, -7_200_000_000_000][(r >> 8) as usize % 8];
    }
    let up = UPTIME.fetch_add(step, Relaxed);
    let wall = CLOCK.fetch_add(step + jump, Relaxed);
    let t = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE { wall } else { up };
    (*ts).tv_sec = t.div_euclid(1_000_000_000);
    (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::in_sim() {
        sched::blocked_point();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

unsafe fn sleep_common(req: *const libc::timespec) -> Option<i32> {
    if sched::in_sim() {
        advance_clock((*req).tv_sec * 1_000_000_000 + (*req).tv_nsec);
        sched::blocked_point();
        return Some(0);
    }
    None
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if let Some(r) = sleep_common(req) {
        return r;
    }
    raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if let Some(r) = sleep_common(req) {
        return r;
    }
    raw_syscall(libc::SYS_clock_nanosleep, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32
}

/// `std` reaches futexes through `syscall`. A wait from a simulated thread becomes a forced
/// switch to another thread followed by a spurious wake-up, which `std` tolerates by re-checking.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        let op = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && sched::in_sim() {
            if *(a as *const i32) == c as i32 {
                sched::blocked_point();
            }
            return 0;
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
