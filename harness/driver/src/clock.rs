//! Virtual clocks: `clock_gettime` is defined here, so that every clock read of the process (the
//! standard library's `Instant` and `SystemTime` included) goes through it. Time stands still unless an
//! operation of the driver moves it.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

static VIRTUAL: AtomicBool = AtomicBool::new(false);
static MONO: AtomicI64 = AtomicI64::new(0); // nanoseconds
static WALL_S: AtomicI64 = AtomicI64::new(0);
static WALL_NS: AtomicI64 = AtomicI64::new(0);

/// Called on every read of a virtual clock (the controlled driver makes it a scheduling point).
pub static HOOK: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL.load(SeqCst) && !ts.is_null() {
        if let Some(h) = HOOK.get() {
            h();
        }
        match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                (*ts).tv_sec = WALL_S.load(SeqCst);
                (*ts).tv_nsec = WALL_NS.load(SeqCst);
                return 0;
            }
            libc::CLOCK_MONOTONIC
            | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_MONOTONIC_COARSE
            | libc::CLOCK_BOOTTIME => {
                let v = MONO.load(SeqCst);
                (*ts).tv_sec = v.div_euclid(1_000_000_000);
                (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
                return 0;
            }
            _ => {}
        }
    }
    let r = libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int;
    if r == 0 && !ts.is_null() && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        (*ts).tv_sec += SHIFT.load(SeqCst);
    }
    r
}

/// How far the wall clock is from the real one (while it is not virtual), in seconds.
static SHIFT: AtomicI64 = AtomicI64::new(0);
#[allow(dead_code)]
pub fn step_wall_to(s: i64) {
    SHIFT.store(s, SeqCst);
}
#[allow(dead_code)]
pub fn step_wall_by(s: i64) {
    SHIFT.fetch_add(s, SeqCst);
}

pub fn start(mono_ns: i64, wall_s: i64, wall_ns: i64) {
    MONO.store(mono_ns, SeqCst);
    set_wall(wall_s, wall_ns);
    VIRTUAL.store(true, SeqCst);
}
pub fn set_wall(s: i64, ns: i64) {
    WALL_S.store(s, SeqCst);
    WALL_NS.store(ns, SeqCst);
}
pub fn advance(ns: i64) {
    MONO.fetch_add(ns, SeqCst);
    let total = WALL_NS.load(SeqCst) + ns;
    WALL_NS.store(total.rem_euclid(1_000_000_000), SeqCst);
    WALL_S.fetch_add(total.div_euclid(1_000_000_000), SeqCst);
}
