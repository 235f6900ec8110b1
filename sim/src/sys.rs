//! Raw system calls, for the simulator's own use (never interposed).
use std::arch::asm;

#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
pub unsafe fn write(fd: i32, p: *const u8, n: usize) -> i64 {
    raw6(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0)
}
pub unsafe fn read(fd: i32, p: *mut u8, n: usize) -> i64 {
    raw6(libc::SYS_read, fd as i64, p as i64, n as i64, 0, 0, 0)
}
pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n == -(libc::EINTR as i64) {
            continue;
        }
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
pub fn read_exact(fd: i32, b: &mut [u8]) -> bool {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { read(fd, b[o..].as_mut_ptr(), b.len() - o) };
        if n == -(libc::EINTR as i64) {
            continue;
        }
        if n <= 0 {
            return false;
        }
        o += n as usize;
    }
    true
}
pub fn exit_group(c: i32) -> ! {
    unsafe {
        raw6(libc::SYS_exit_group, c as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
/// Anonymous mapping; shared with forked children when `shared`.
pub fn map_anon(len: usize, shared: bool) -> *mut u8 {
    let fl = libc::MAP_ANONYMOUS | if shared { libc::MAP_SHARED } else { libc::MAP_PRIVATE };
    let r = unsafe {
        raw6(libc::SYS_mmap, 0, len as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, fl as i64, -1, 0)
    };
    assert!(r > 0, "mmap failed");
    r as *mut u8
}
pub fn futex_wake(p: *const u32) {
    unsafe {
        raw6(libc::SYS_futex, p as i64, 1 | 128, 1, 0, 0, 0);
    }
}
pub fn futex_wait(p: *const u32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, p as i64, 128, v as i64, 0, 0, 0);
    }
}
