//! The operating system's randomness as the library sees it.
//!
//! `rand` and the standard library's hash maps take their seeds from `getrandom` of the C library
//! (as a function or through `syscall`).  Both symbols are defined here and thereby take precedence
//! over the ones of the C library: every seed is a function of the running plan.
use libc::{c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static STATE: AtomicU64 = AtomicU64::new(1);
static DRAWS: AtomicU64 = AtomicU64::new(0);

/// Starts a run.
pub fn reset(seed: u64) {
    STATE.store(seed, Relaxed);
    DRAWS.store(0, Relaxed);
}
/// Requests for random bytes since `reset`.
pub fn draws() -> u64 {
    DRAWS.load(Relaxed)
}

unsafe fn fill(buf: *mut u8, n: usize) {
    DRAWS.fetch_add((n > 0) as u64, Relaxed);
    for i in 0..n {
        if i % 8 == 0 {
            STATE.fetch_add(0x9e37_79b9_7f4a_7c15, Relaxed);
        }
        let mut z = STATE.load(Relaxed);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        *buf.add(i) = (z >> (i % 8 * 8)) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _flags: c_uint) -> isize {
    fill(buf as *mut u8, n);
    n as isize
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let ret: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = -ret as c_int;
        return -1;
    }
    ret
}
