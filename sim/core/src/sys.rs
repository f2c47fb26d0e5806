//! Raw system calls: the only way the harness itself reaches the real kernel once the
//! libc entry points are overridden.
use std::arch::asm;

#[inline]
pub unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
#[inline]
pub unsafe fn raw3(n: usize, a: usize, b: usize, c: usize) -> isize {
    raw6(n, a, b, c, 0, 0, 0)
}
/// Raw result to libc convention.
#[inline]
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
#[inline]
pub unsafe fn err(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

use std::sync::atomic::AtomicU32;
pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex as usize, a as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
pub fn futex_wake(a: &AtomicU32, n: u32) {
    unsafe {
        raw6(libc::SYS_futex as usize, a as *const _ as usize, 129, n as usize, 0, 0, 0);
    }
}
pub fn exit_group(c: i32) -> ! {
    unsafe {
        raw3(libc::SYS_exit_group as usize, c as usize, 0, 0);
    }
    loop {}
}
pub fn write_fd(fd: i32, b: &[u8]) {
    let mut b = b;
    while !b.is_empty() {
        let r = unsafe { raw3(libc::SYS_write as usize, fd as usize, b.as_ptr() as usize, b.len()) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
