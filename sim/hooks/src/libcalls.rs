//! C library functions through which code could see other threads, time and randomness.

use crate::sched;
use libc::{c_char, c_int, c_long, c_uint, c_void, timespec};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

static WORLD: AtomicBool = AtomicBool::new(false);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicI64 = AtomicI64::new(0);
static CLOCK_SEED: AtomicU64 = AtomicU64::new(0);

/// From now on this process sees a simulated clock that jumps, and seeded randomness.
pub fn simulate_world(seed: u64) {
    ENTROPY.store(mix(seed), Ordering::SeqCst);
    CLOCK_SEED.store(mix(seed ^ 1), Ordering::SeqCst);
    CLOCK.store((mix(seed ^ 2) % (4_000_000_000 * 1_000_000_000)) as i64, Ordering::SeqCst);
    ENTROPY_READS.store(0, Ordering::SeqCst);
    WORLD.store(true, Ordering::SeqCst);
}

pub fn world_off() {
    WORLD.store(false, Ordering::SeqCst);
}

/// How often the simulated randomness and the simulated clock were read.
pub fn entropy_reads() -> u64 {
    ENTROPY_READS.load(Ordering::SeqCst)
}

pub(crate) fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The raw system call; the kernel's error convention.
#[allow(clippy::too_many_arguments)]
pub(crate) unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    r
}

unsafe fn errno(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

/// std's locks, condition variables, once-cells and parked threads all come through here.
///
/// # Safety
/// As the C library function of the same name.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && sched::is_participant() {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                return errno(sched::futex_wait(a as usize, c as u32, d != 0));
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                return sched::futex_wake(a as usize, c as i32);
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom && WORLD.load(Ordering::Relaxed) {
        fill(a as *mut u8, b as usize);
        return b;
    }
    errno(raw(n, a, b, c, d, e, f))
}

unsafe fn fill(p: *mut u8, len: usize) {
    ENTROPY_READS.fetch_add(1, Ordering::SeqCst);
    for i in 0..len {
        let v = ENTROPY.load(Ordering::SeqCst);
        ENTROPY.store(mix(v), Ordering::SeqCst);
        *p.add(i) = (v >> 32) as u8;
    }
}

/// # Safety
/// As the C library function of the same name.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, len: usize, flags: c_uint) -> isize {
    if WORLD.load(Ordering::Relaxed) {
        fill(p.cast(), len);
        return len as isize;
    }
    errno(raw(libc::SYS_getrandom, p as c_long, len as c_long, c_long::from(flags), 0, 0, 0)) as isize
}

/// # Safety
/// As the C library function of the same name.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut timespec) -> c_int {
    if WORLD.load(Ordering::Relaxed) {
        ENTROPY_READS.fetch_add(1, Ordering::SeqCst);
        let s = mix(CLOCK_SEED.load(Ordering::SeqCst));
        CLOCK_SEED.store(s, Ordering::SeqCst);
        // Mostly small steps, sometimes a jump of up to an hour; never backwards when monotonic.
        let step = if s % 16 == 0 { (s >> 8) % 3_600_000_000_000 } else { (s >> 8) % 2_000_000 } as i64;
        let back = clock == libc::CLOCK_REALTIME && s & (1 << 60) != 0 && s % 16 == 0;
        let now = CLOCK.fetch_add(step, Ordering::SeqCst) + step - if back { step * 2 } else { 0 };
        let now = now.max(0);
        (*t).tv_sec = now / 1_000_000_000;
        (*t).tv_nsec = now % 1_000_000_000;
        return 0;
    }
    errno(raw(libc::SYS_clock_gettime, c_long::from(clock), t as c_long, 0, 0, 0, 0)) as c_int
}

/// # Safety
/// As the C library function of the same name.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, t: *const timespec, left: *mut timespec) -> c_int {
    if sched::is_participant() {
        CLOCK.fetch_add((*t).tv_sec.saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec), Ordering::SeqCst);
        sched::switch_now();
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, c_long::from(clock), c_long::from(flags), t as c_long, left as c_long, 0, 0) as c_int
}

/// # Safety
/// As the C library function of the same name.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, left: *mut timespec) -> c_int {
    if sched::is_participant() {
        return clock_nanosleep(libc::CLOCK_MONOTONIC, 0, t, left);
    }
    errno(raw(libc::SYS_nanosleep, t as c_long, left as c_long, 0, 0, 0, 0)) as c_int
}

/// # Safety
/// As the C library function of the same name.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::is_participant() {
        sched::switch_now();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// Every edge of the instrumented code is a scheduling point.

/// # Safety
/// Called by instrumented modules when they are loaded.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NEXT.fetch_add(1, Ordering::Relaxed) as u32;
        start = start.add(1);
    }
}

/// # Safety
/// Called by instrumented code at every edge.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    sched::point(*guard);
}

// So is every access of the instrumented code to memory that all threads share by its place: the
// statics.  What a static points to is reached through an access to the static.

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn access(at: usize) {
    // SAFETY: only the addresses of these symbols of the linker are used.
    let (start, end) = unsafe { (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize) };
    if at.wrapping_sub(start) < end - start {
        sched::shared_access((at - start) as u32);
    }
}

macro_rules! accesses {
    ($($name:ident)*) => {
        $(
            /// # Safety
            /// Called by instrumented code before it reads or writes memory.
            #[no_mangle]
            pub unsafe extern "C" fn $name(at: usize) {
                access(at);
            }
        )*
    };
}

accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

#[allow(dead_code)]
type Unused = c_char;
