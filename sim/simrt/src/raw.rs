//! Raw system calls: what the interposed functions use for threads outside the simulation.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// kernel return convention -> libc return convention
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn fail(e: i32) -> isize {
    set_errno(e);
    -1
}

use std::sync::atomic::{AtomicU32, Ordering};
/// Park the calling OS thread until `b` becomes 1, then take it back to 0.
pub fn baton_wait(b: &AtomicU32) {
    loop {
        if b.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe {
            sc(libc::SYS_futex, b as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
}
pub fn baton_give(b: &AtomicU32) {
    b.store(1, Ordering::Release);
    unsafe {
        sc(libc::SYS_futex, b as *const _ as usize, 129, 1, 0, 0, 0);
    }
}
