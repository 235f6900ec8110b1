//! The seam: libc symbols and atomic operations of the code under test arrive
//! here. Outside a simulation everything is passed to the real system.
#![allow(clippy::missing_safety_doc)]
use std::ffi::CStr;

use libc::*;

use crate::sys;
use crate::world::*;

unsafe fn err(e: i32) {
    *__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        err(-r as i32);
        -1
    } else {
        r
    }
}
#[inline(always)]
fn sim() -> bool {
    unsafe { ACTIVE && !IN_K }
}
/// Run `f` as the simulated kernel (a system call: a scheduling point too).
unsafe fn kernel<R>(f: impl FnOnce() -> R) -> R {
    IN_K = true;
    w().stats.syscalls += 1;
    if HOT {
        point_slow(400);
    } else {
        w().now += 400;
    }
    let r = f();
    IN_K = false;
    r
}
/// As `kernel`, without a scheduling point.
unsafe fn quiet<R>(f: impl FnOnce() -> R) -> R {
    IN_K = true;
    let r = f();
    IN_K = false;
    r
}

unsafe fn ts_ns(t: *const timespec) -> u64 {
    ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if !sim() {
        return ret(sys::raw6(n, a, b, c, d, e, f));
    }
    match n {
        SYS_futex => {
            let op = (b as i32) & 0x7f;
            match op {
                0 | 9 => {
                    let dl = if d == 0 {
                        None
                    } else {
                        let t = ts_ns(d as *const timespec);
                        // FUTEX_WAIT is relative, FUTEX_WAIT_BITSET absolute
                        Some(if op == 0 {
                            w().now + t
                        } else if (b as i32) & 256 != 0 {
                            (t as i64 - w().real_off).max(0) as u64
                        } else {
                            t
                        })
                    };
                    let bits = if op == 9 { f as u32 } else { u32::MAX };
                    let r = kernel(|| futex_wait(a as *const u32, c as u32, dl, bits));
                    ret(-(r as i64))
                }
                1 | 10 => {
                    let bits = if op == 10 { f as u32 } else { u32::MAX };
                    kernel(|| futex_wake(a as usize, c as u32, bits)) as c_long
                }
                _ => {
                    w().unknown_sys.push(n * 1000 + op as i64);
                    ret(-(ENOSYS as i64))
                }
            }
        }
        SYS_io_uring_setup => ret(kernel(|| match boot_fault("io_uring_setup") {
            0 => crate::uring::setup(a as u32, b as *mut u32),
            e => -(e as i64),
        })),
        SYS_io_uring_enter => {
            ret(kernel(|| crate::uring::enter(a as i32, b as u32, c as u32, d as u32, e as *const u8, f as usize)))
        }
        SYS_io_uring_register => {
            ret(kernel(|| crate::uring::register(a as i32, b as u32, c as *mut u8, d as u32)))
        }
        SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
        SYS_gettid => 1000 + w().cur as c_long,
        SYS_eventfd2 => eventfd(a as u32, b as i32) as c_long,
        SYS_close => close(a as i32) as c_long,
        SYS_membarrier => ret(sys::raw6(n, a, b, c, d, e, f)),
        _ => {
            w().unknown_sys.push(n);
            ret(sys::raw6(n, a, b, c, d, e, f))
        }
    }
}

/// Does this call fail while the program starts? (0, or the error)
fn boot_fault(call: &'static str) -> i32 {
    let x = w();
    if x.phase != Phase::Boot {
        return 0;
    }
    let Some(c) = &x.plan.cfg else { return 0 };
    let n = x.boot_calls.entry(call).or_insert(0);
    *n += 1;
    for f in &c.sys {
        if f.0 == call && (f.1 == u32::MAX || f.1 + 1 == *n) {
            x.stats.boot_faults += 1;
            return f.2;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn mmap(p: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    if sim() && is_fake(fd) {
        return ret(quiet(|| match boot_fault("mmap") {
            0 => crate::uring::mmap(fd, off),
            e => -(e as i64),
        })) as *mut c_void;
    }
    ret(sys::raw6(SYS_mmap, p as i64, len as i64, prot as i64, flags as i64, fd as i64, off)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(p: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    mmap(p, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(p: *mut c_void, len: size_t) -> c_int {
    if ACTIVE && !W.is_null() && w().rings.iter().any(|r| r.mem as *mut c_void == p || r.sqes as *mut c_void == p) {
        return 0;
    }
    ret(sys::raw6(SYS_munmap, p as i64, len as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim() && is_fake(fd) {
        let e = kernel(|| close_fd(fd));
        return ret(-(e as i64)) as c_int;
    }
    ret(sys::raw6(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ sockets

#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if !sim() {
        return ret(sys::raw6(SYS_socket, dom as i64, ty as i64, proto as i64, 0, 0, 0)) as c_int;
    }
    let r = kernel(|| {
        if dom != AF_INET && dom != AF_INET6 || ty & 0xf != SOCK_STREAM {
            return -(EAFNOSUPPORT as i64);
        }
        let e = boot_fault("socket");
        if e != 0 {
            return -(e as i64);
        }
        let x = w();
        let f = x.new_file(FK::Sock {
            bound: None,
            reuseport: false,
            listening: false,
            backlog: 0,
            queue: Default::default(),
        });
        x.files[f].nonblock = ty & SOCK_NONBLOCK != 0;
        x.new_fd(f) as i64
    });
    ret(r) as c_int
}
unsafe fn with_fd(fd: c_int, f: impl FnOnce(usize) -> i64) -> i64 {
    kernel(|| match w().fd(fd) {
        None => -(EBADF as i64),
        Some(x) => f(x),
    })
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_bind, fd as i64, addr as i64, len as i64, 0, 0, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        let e = boot_fault("bind");
        if e != 0 {
            return -(e as i64);
        }
        let a = &*(addr as *const sockaddr_in);
        let me = if a.sin_family as c_int == AF_INET6 && len >= 28 {
            let b = &*(addr as *const sockaddr_in6);
            (u128::from_be_bytes(b.sin6_addr.s6_addr), u16::from_be(b.sin6_port))
        } else {
            (0xffff_0000_0000 | u32::from_be(a.sin_addr.s_addr) as u128, u16::from_be(a.sin_port))
        };
        let wild = me.0 == 0 || me.0 == 0xffff_0000_0000;
        for (call, on) in [("bind-ip", !wild), ("bind-low", me.1 != 0 && me.1 < 1024)] {
            // no such address here; not allowed to use this port
            let e = if on { boot_fault(call) } else { 0 };
            if e != 0 {
                return -(e as i64);
            }
        }
        let x = w();
        let FK::Sock { reuseport: rp, .. } = x.files[f].kind else { return -(EINVAL as i64) };
        for (i, o) in x.files.iter().enumerate() {
            if i != f && o.refs > 0 {
                if let FK::Sock { bound: Some(b), reuseport, .. } = &o.kind {
                    if *b == me && !(rp && *reuseport) {
                        return -(EADDRINUSE as i64);
                    }
                }
            }
        }
        if let FK::Sock { bound, .. } = &mut x.files[f].kind {
            *bound = Some(me);
        }
        0
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, bl: c_int) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_listen, fd as i64, bl as i64, 0, 0, 0, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        let e = boot_fault("listen");
        if e != 0 {
            return -(e as i64);
        }
        let x = w();
        if let FK::Sock { listening, backlog, bound, .. } = &mut x.files[f].kind {
            *listening = true;
            *backlog = (bl.max(1) as usize).min(4096);
            x.stats.listens += 1;
            x.listened.push(bound.unwrap_or((0, 0)));
            if !x.listeners.contains(&f) {
                x.listeners.push(f);
            }
            return 0;
        }
        -(EOPNOTSUPP as i64)
    });
    ret(r) as c_int
}
unsafe fn sock_fault() -> Option<i32> {
    let x = w();
    let se = x.plan.env.sock_err;
    if x.phase == Phase::Run && se > 0 {
        let v = x.dec.get(crate::rng::K::SockErr, |b| if b % se as u64 == 0 { 1 + (b >> 20) as u32 % 3 } else { 0 });
        if v > 0 {
            x.stats.sockopt_errors += 1;
            return Some([EINVAL, ENOBUFS, ENOMEM][(v as usize - 1) % 3]);
        }
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const c_void, n: socklen_t) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_setsockopt, fd as i64, lvl as i64, opt as i64, v as i64, n as i64, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        let x = w();
        let val = if n >= 4 { *(v as *const c_int) } else { 0 };
        match &mut x.files[f].kind {
            FK::Sock { reuseport, .. } => {
                let e = boot_fault("setsockopt");
                if e != 0 {
                    return -(e as i64);
                }
                if lvl == SOL_SOCKET && opt == SO_REUSEPORT {
                    *reuseport = val != 0;
                }
                0
            }
            FK::Stream(c) => {
                let c = *c;
                match sock_fault() {
                    Some(e) => {
                        w().conns[c as usize].faulted = true;
                        -(e as i64)
                    }
                    None => 0,
                }
            }
            _ => -(ENOTSOCK as i64),
        }
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_getsockopt, fd as i64, lvl as i64, opt as i64, v as i64, n as i64, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        let mut out = 0;
        if lvl == SOL_SOCKET && opt == SO_ERROR {
            if let FK::Stream(c) = w().files[f].kind {
                out = w().conns[c as usize].serr.take().unwrap_or(0);
            }
        } else if opt == SO_SNDBUF || opt == SO_RCVBUF {
            out = w().plan.env.sndbuf as i32;
        }
        *(v as *mut c_int) = out;
        *n = 4;
        0
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_getsockname, fd as i64, a as i64, n as i64, 0, 0, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        if let FK::Stream(c) = w().files[f].kind {
            if let Some(e) = sock_fault() {
                if e != EINVAL {
                    w().conns[c as usize].faulted = true;
                    return -(e as i64);
                }
            }
        }
        let (ip, port) = match &w().files[f].kind {
            FK::Sock { bound: Some(b), .. } => *b,
            FK::Stream(c) => crate::net::served_at(*c),
            _ => (0xffff_0000_0000, 0),
        };
        if ip >> 32 == 0xffff {
            crate::uring::write_addr(a as *mut u8, n, ip as u32, port);
        } else {
            let mut b: sockaddr_in6 = std::mem::zeroed();
            b.sin6_family = AF_INET6 as u16;
            b.sin6_port = port.to_be();
            b.sin6_addr.s6_addr = ip.to_be_bytes();
            let m = (*n as usize).min(28);
            std::ptr::copy_nonoverlapping(&b as *const _ as *const u8, a as *mut u8, m);
            *n = 28;
        }
        0
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_getpeername, fd as i64, a as i64, n as i64, 0, 0, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        let FK::Stream(c) = w().files[f].kind else { return -(ENOTCONN as i64) };
        let k = &w().conns[c as usize];
        if k.sdead {
            return -(ENOTCONN as i64);
        }
        crate::uring::write_addr(a as *mut u8, n, k.ip, k.port);
        0
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !(sim() && is_fake(fd)) {
        return ret(sys::raw6(SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int;
    }
    let r = with_fd(fd, |f| {
        let FK::Stream(c) = w().files[f].kind else { return -(ENOTCONN as i64) };
        -(crate::net::srv_shutdown(c, how) as i64)
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: c_uint, fl: c_int) -> c_int {
    if !sim() {
        return ret(sys::raw6(SYS_eventfd2, v as i64, fl as i64, 0, 0, 0, 0)) as c_int;
    }
    let r = kernel(|| {
        let e = boot_fault("eventfd");
        if e != 0 {
            return -(e as i64);
        }
        let x = w();
        let f = x.new_file(FK::Event(v as u64));
        x.files[f].nonblock = fl & EFD_NONBLOCK != 0;
        x.new_fd(f) as i64
    });
    ret(r) as c_int
}
unsafe fn fake_io(fd: c_int, p: *mut u8, n: usize, wr: bool) -> i64 {
    with_fd(fd, |f| match w().files[f].kind {
        FK::Event(v) => {
            if wr {
                w().files[f].kind = FK::Event(v + *(p as *const u64));
                crate::uring::pump(f);
                8
            } else if v == 0 {
                -(EAGAIN as i64)
            } else {
                *(p as *mut u64) = v;
                w().files[f].kind = FK::Event(0);
                8
            }
        }
        FK::Stream(c) => {
            let r = if wr {
                crate::net::srv_send(c, p, n, false)
            } else {
                crate::net::srv_recv(c, p, n, false)
            };
            r.unwrap_or(-(EAGAIN as i64))
        }
        FK::File(i, _) if !wr => file_read(f, i, p, n),
        FK::File(..) => -(EBADF as i64),
        _ => -(EINVAL as i64),
    })
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if sim() {
        if is_fake(fd) {
            return ret(fake_io(fd, p as *mut u8, n, true)) as ssize_t;
        }
        if fd == 1 || fd == 2 {
            quiet(|| {
                let x = w();
                if x.stderr.len() < 4000 {
                    let m = n.min(4000 - x.stderr.len());
                    x.stderr.extend_from_slice(std::slice::from_raw_parts(p as *const u8, m));
                }
                if x.trace {
                    sys::write(2, p as *const u8, n);
                }
            });
            if let Some((at, errno)) = w().plan.env.print_fault {
                let x = w();
                let on = x.plan.env.print_fd;
                let due = if x.plan.cfg.is_some() { at == 0 || x.phase == Phase::Run && x.us() >= at } else { x.phase == Phase::Run && x.us() >= at };
                if due && (on == 0 || on == fd) {
                    return ret(kernel(|| {
                        let x = w();
                        x.stats.print_faults += 1;
                        if errno == 0 {
                            loop {
                                block(None);
                            }
                        }
                        -(errno as i64)
                    })) as ssize_t;
                }
            }
            return n as ssize_t;
        }
    }
    ret(sys::raw6(SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if sim() && is_fake(fd) {
        return ret(fake_io(fd, p as *mut u8, n, false)) as ssize_t;
    }
    ret(sys::raw6(SYS_read, fd as i64, p as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if sim() && (is_fake(fd) || fd == 1 || fd == 2) {
        let mut t = 0;
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len == 0 {
                continue;
            }
            let r = write(fd, x.iov_base, x.iov_len);
            if r < 0 {
                return if t > 0 { t } else { r };
            }
            t += r;
            if (r as usize) < x.iov_len {
                break;
            }
        }
        return t;
    }
    ret(sys::raw6(SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if sim() && is_fake(fd) {
        return ret(fake_io(fd, p as *mut u8, n, true)) as ssize_t;
    }
    ret(sys::raw6(SYS_sendto, fd as i64, p as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if sim() && is_fake(fd) {
        return ret(fake_io(fd, p as *mut u8, n, false)) as ssize_t;
    }
    ret(sys::raw6(SYS_recvfrom, fd as i64, p as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    if sim() && is_fake(fd) {
        let r = with_fd(fd, |f| crate::uring::accept(f, a as *mut u8, l).unwrap_or(-(EAGAIN as i64)));
        return ret(r) as c_int;
    }
    ret(sys::raw6(SYS_accept4, fd as i64, a as i64, l as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sim() && is_fake(fd) {
        let r = with_fd(fd, |f| match cmd {
            F_GETFD => 1,
            F_SETFD => 0,
            F_GETFL => O_RDWR as i64 | if w().files[f].nonblock { O_NONBLOCK as i64 } else { 0 },
            F_SETFL => {
                w().files[f].nonblock = arg as i32 & O_NONBLOCK != 0;
                0
            }
            F_DUPFD | F_DUPFD_CLOEXEC => {
                w().files[f].refs += 1;
                w().new_fd(f) as i64
            }
            _ => -(EINVAL as i64),
        });
        return ret(r) as c_int;
    }
    ret(sys::raw6(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if sim() && is_fake(fd) {
        return fcntl(fd, F_DUPFD, 0);
    }
    ret(sys::raw6(SYS_dup, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    if sim() && is_fake(fd) {
        let r = with_fd(fd, |f| {
            if req == FIONBIO as c_ulong {
                w().files[f].nonblock = *(arg as *const c_int) != 0;
                return 0;
            }
            -(ENOTTY as i64)
        });
        return ret(r) as c_int;
    }
    ret(sys::raw6(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------- files, misc

/// The path as the simulated file system knows it.
unsafe fn vpath(p: *const c_char) -> String {
    let s = String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).to_string();
    let s = if s.starts_with('/') { s } else { format!("{}/{}", w().cwd, s) };
    let mut v: Vec<&str> = vec![];
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
enum Node {
    Dir,
    File(usize),
}
unsafe fn lookup(p: *const c_char) -> Result<Node, i32> {
    let s = vpath(p);
    let x = w();
    if let Some(i) = x.vfs.iter().position(|f| f.0 == s) {
        return Ok(if x.vfs[i].1.dir { Node::Dir } else { Node::File(i) });
    }
    let d = if s == "/" { s } else { format!("{}/", s) };
    if x.vfs.iter().any(|f| f.0.starts_with(&d)) || format!("{}/", x.cwd).starts_with(&d) {
        return Ok(Node::Dir);
    }
    Err(ENOENT)
}
unsafe fn file_open(p: *const c_char, fl: c_int) -> i64 {
    w().stats.file_opens += 1;
    let i = match lookup(p) {
        Err(e) => return -(e as i64),
        // a directory can be opened, but not read
        Ok(Node::Dir) if fl & O_ACCMODE != O_RDONLY => return -(EISDIR as i64),
        Ok(Node::Dir) => usize::MAX,
        Ok(Node::File(i)) => i,
    };
    let x = w();
    if i != usize::MAX {
        if fl & O_ACCMODE != O_RDONLY {
            return -(EROFS as i64);
        }
        let e = x.vfs[i].1.open_err;
        if e != 0 {
            x.stats.file_open_errors += 1;
            return -(e as i64);
        }
    }
    let f = x.new_file(FK::File(i, 0));
    x.new_fd(f) as i64
}
unsafe fn file_read(f: usize, i: usize, p: *mut u8, n: usize) -> i64 {
    let x = w();
    let FK::File(_, pos) = x.files[f].kind else { return -(EBADF as i64) };
    if i == usize::MAX {
        return -(EISDIR as i64);
    }
    x.stats.file_reads += 1;
    let len = x.vfs[i].2.len() as u64;
    let mut m = (n as u64).min(len.saturating_sub(pos));
    let (es, re, ra) = match &x.plan.cfg {
        Some(c) => ((c.eintr, c.short), x.vfs[i].1.read_err, x.vfs[i].1.read_at as u64),
        None => ((0, 0), 0, 0),
    };
    if re != 0 {
        if pos >= ra {
            x.stats.file_read_errors += 1;
            return -(re as i64);
        }
        m = m.min(ra - pos);
    }
    let (e, s) = es;
    if n > 0 && e | s > 0 {
        let v = x.dec.get(crate::rng::K::File, |b| {
            if e > 0 && b % e as u64 == 0 {
                1
            } else if s > 0 && (b >> 16) % s as u64 == 0 {
                2 + (b >> 40) as u32 % 40
            } else {
                0
            }
        });
        if v == 1 {
            x.stats.file_eintrs += 1;
            return -(EINTR as i64);
        }
        if v > 1 && m > v as u64 - 1 {
            x.stats.file_short_reads += 1;
            m = v as u64 - 1;
        }
    }
    std::ptr::copy_nonoverlapping(x.vfs[i].2.as_ptr().add(pos.min(len) as usize), p, m as usize);
    x.files[f].kind = FK::File(i, pos + m);
    m as i64
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    if sim() {
        return ret(kernel(|| file_open(p, fl))) as c_int;
    }
    ret(sys::raw6(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    if sim() {
        return open64(p, fl, mode);
    }
    ret(sys::raw6(SYS_openat, d as i64, p as i64, fl as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    openat64(d, p, fl, mode)
}
/// (mode, size, identity) of what a descriptor or a path denotes
unsafe fn node_stat(fd: c_int, p: *const c_char) -> Result<(u32, u64, u64), i64> {
    let empty = p.is_null() || *p == 0;
    let r = kernel(|| {
        let n = if empty {
            match w().fd(fd).map(|f| w().files[f].kind.clone()) {
                Some(FK::File(usize::MAX, _)) => Node::Dir,
                Some(FK::File(i, _)) => Node::File(i),
                Some(_) => return Ok((S_IFSOCK | 0o600, 0, 7)),
                None => return Err(EBADF),
            }
        } else {
            lookup(p)?
        };
        Ok(match n {
            Node::Dir => (S_IFDIR | 0o755, 4096, 2),
            Node::File(i) => (S_IFREG | 0o644, w().vfs[i].2.len() as u64, 100 + i as u64),
        })
    });
    r.map_err(|e| -(e as i64))
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if sim() && (is_fake(fd) || !p.is_null() && *p != 0) {
        return match node_stat(fd, p) {
            Ok((m, n, i)) => {
                std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*b).stx_mask = STATX_BASIC_STATS;
                (*b).stx_blksize = 4096;
                (*b).stx_nlink = 1;
                (*b).stx_mode = m as u16;
                (*b).stx_size = n;
                (*b).stx_ino = i;
                (*b).stx_blocks = n.div_ceil(512);
                0
            }
            Err(e) => ret(e) as c_int,
        };
    }
    ret(sys::raw6(SYS_statx, fd as i64, p as i64, fl as i64, mask as i64, b as i64, 0)) as c_int
}
unsafe fn fill_stat(r: Result<(u32, u64, u64), i64>, b: *mut libc::stat) -> c_int {
    match r {
        Ok((m, n, i)) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat>());
            (*b).st_mode = m;
            (*b).st_size = n as i64;
            (*b).st_ino = i;
            (*b).st_nlink = 1;
            (*b).st_blksize = 4096;
            0
        }
        Err(e) => ret(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat) -> c_int {
    if sim() && is_fake(fd) {
        return fill_stat(node_stat(fd, std::ptr::null()), b);
    }
    ret(sys::raw6(SYS_fstat, fd as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat) -> c_int {
    fstat(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, b: *mut libc::stat) -> c_int {
    if sim() {
        return fill_stat(node_stat(-1, p), b);
    }
    ret(sys::raw6(SYS_stat, p as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat) -> c_int {
    stat(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut libc::stat) -> c_int {
    if sim() {
        return fill_stat(node_stat(-1, p), b);
    }
    ret(sys::raw6(SYS_lstat, p as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat) -> c_int {
    lstat(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if sim() {
        return match node_stat(-1, p) {
            Ok(_) => 0,
            Err(e) => ret(e) as c_int,
        };
    }
    ret(sys::raw6(SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, how: c_int) -> off_t {
    if sim() && is_fake(fd) {
        let r = with_fd(fd, |f| {
            let FK::File(i, pos) = w().files[f].kind else { return -(ESPIPE as i64) };
            let len = if i == usize::MAX { 0 } else { w().vfs[i].2.len() as i64 };
            let t = match how {
                SEEK_SET => off,
                SEEK_CUR => pos as i64 + off,
                SEEK_END => len + off,
                _ => -1,
            };
            if t < 0 {
                return -(EINVAL as i64);
            }
            w().files[f].kind = FK::File(i, t as u64);
            t
        });
        return ret(r);
    }
    ret(sys::raw6(SYS_lseek, fd as i64, off, how as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, how: c_int) -> off_t {
    lseek64(fd, off, how)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if sim() && !b.is_null() {
        let e = quiet(|| {
            let s = w().cwd.as_bytes();
            if s.len() + 1 > n {
                return ERANGE;
            }
            std::ptr::copy_nonoverlapping(s.as_ptr(), b as *mut u8, s.len());
            *(b as *mut u8).add(s.len()) = 0;
            0
        });
        if e != 0 {
            err(e);
            return std::ptr::null_mut();
        }
        return b;
    }
    if b.is_null() {
        // with a buffer of its own: nobody here asks for that
        err(EINVAL);
        return b;
    }
    if ret(sys::raw6(SYS_getcwd, b as i64, n as i64, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    b
}
/// The program ends itself.
#[no_mangle]
pub unsafe extern "C" fn exit(c: c_int) -> ! {
    if sim() {
        IN_K = true;
        crate::run::finish(if c == 0 { "server-exit" } else { "server-exit-error" });
    }
    type F = unsafe extern "C" fn(c_int) -> !;
    let p = dlsym(RTLD_NEXT, c"exit".as_ptr());
    std::mem::transmute::<*mut c_void, F>(p)(c)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(c: c_int) -> ! {
    if sim() {
        exit(c);
    }
    sys::exit_group(c)
}
/// Non-zero in a template: where its randomness comes from outside a run.
pub static mut PRE_RND: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if sim() {
        quiet(|| {
            for i in 0..n {
                *(p as *mut u8).add(i) = w().rnd.u64() as u8;
            }
        });
        return n as ssize_t;
    }
    if PRE_RND != 0 {
        // before the server starts, or in the simulator: hash keys made here
        // can be handed to the server's tables through the thread's own
        for i in 0..n {
            PRE_RND = crate::rng::mix(PRE_RND) | 1;
            *(p as *mut u8).add(i) = (PRE_RND >> 20) as u8;
        }
        return n as ssize_t;
    }
    ret(sys::raw6(SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if sim() {
        quiet(|| {
            let x = w();
            x.now += 20;
            let tick = x.plan.env.tick_us.max(1) as u64 * 1000;
            let real = (x.now as i64).wrapping_add(x.real_off) as u64;
            let t = match id {
                CLOCK_REALTIME => real,
                CLOCK_REALTIME_COARSE => real / tick * tick,
                CLOCK_MONOTONIC_COARSE => x.now / tick * tick,
                _ => x.now,
            };
            (*ts).tv_sec = (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        });
        return 0;
    }
    ret(sys::raw6(SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if sim() {
        let mut ts: timespec = std::mem::zeroed();
        clock_gettime(CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    ret(sys::raw6(SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn sleep_ns(d: u64) {
    kernel(|| {
        let t = w().now.saturating_add(d);
        block(Some(t));
    });
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if sim() {
        sleep_ns(ts_ns(a));
        return 0;
    }
    ret(sys::raw6(SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, fl: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if sim() {
        let t = ts_ns(a);
        let d = if fl & TIMER_ABSTIME != 0 {
            let base = if id == CLOCK_REALTIME { (w().now as i64 + w().real_off) as u64 } else { w().now };
            t.saturating_sub(base)
        } else {
            t
        };
        sleep_ns(d);
        return 0;
    }
    -sys::raw6(SYS_clock_nanosleep, id as i64, fl as i64, a as i64, b as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let t = timespec { tv_sec: us as i64 / 1_000_000, tv_nsec: (us as i64 % 1_000_000) * 1000 };
    nanosleep(&t, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim() {
        kernel(|| {
            let x = w();
            x.now += 500;
            if x.nrun > 1 {
                resched(Some(0));
            }
        });
        return 0;
    }
    sys::raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, set: *mut cpu_set_t) -> c_int {
    if sim() {
        quiet(|| {
            std::ptr::write_bytes(set as *mut u8, 0, n);
            *(set as *mut u8) = ((1u32 << w().cpus) - 1) as u8;
        });
        return 0;
    }
    let r = sys::raw6(SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 {
        ret(r) as c_int
    } else {
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_setaffinity(pid: pid_t, n: size_t, set: *const cpu_set_t) -> c_int {
    if sim() {
        let e = kernel(|| boot_fault("sched_setaffinity"));
        if e != 0 {
            err(e);
            return -1;
        }
        let m = *(set as *const u8) as u32;
        if m & ((1u32 << w().cpus) - 1) == 0 {
            err(EINVAL);
            return -1;
        }
        return 0;
    }
    ret(sys::raw6(SYS_sched_setaffinity, pid as i64, n as i64, set as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> c_int {
    if sim() {
        return (w().cur as c_int - 1).max(0) % w().cpus as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if sim() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) {
        return w().cpus as c_long;
    }
    type F = unsafe extern "C" fn(c_int) -> c_long;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(std::mem::transmute::<*mut c_void, F>(dlsym(RTLD_NEXT, c"sysconf".as_ptr())));
    }
    REAL.unwrap()(name)
}
#[no_mangle]
pub unsafe extern "C" fn sigaltstack(a: *const stack_t, b: *mut stack_t) -> c_int {
    if ACTIVE {
        if !b.is_null() {
            (*b).ss_flags = SS_DISABLE;
        }
        return 0;
    }
    ret(sys::raw6(SYS_sigaltstack, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ threads

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    start: Start,
    arg: *mut c_void,
    tid: usize,
}
extern "C" fn trampoline(b: *mut c_void) -> *mut c_void {
    unsafe {
        let tid = (*(b as *mut Boot)).tid;
        let ctx: *mut crate::fiber::Ctx = &mut *w().threads[tid].ctx;
        crate::fiber::publish_and_park(ctx);
        // from here on this context is run by the simulation
        let bx = Box::from_raw(b as *mut Boot);
        let (s, a) = (bx.start, bx.arg);
        drop(bx);
        IN_K = false;
        let r = s(a);
        IN_K = true;
        w().threads[tid].ret = r as usize;
        exit_thread()
    }
}
unsafe fn real_create(t: *mut pthread_t, a: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int;
    let p = dlsym(RTLD_NEXT, c"pthread_create".as_ptr());
    std::mem::transmute::<*mut c_void, F>(p)(t, a, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    if !sim() {
        return real_create(t, a, f, arg);
    }
    kernel(|| {
        let e = boot_fault("pthread_create");
        if e != 0 {
            return e;
        }
        let x = w();
        let tid = x.threads.len();
        x.threads.push(Th {
            ctx: Box::default(),
            st: TSt::Block,
            wake: 0,
            gen: 0,
            stalled_until: 0,
            futex: 0,
            bits: 0,
            ring_wait: None,
            handle: 0,
            ret: 0,
            stalls: 0,
            awake: x.stats.yields,
        });
        let b = Box::into_raw(Box::new(Boot { start: f, arg, tid }));
        let r = real_create(t, a, trampoline, b as *mut c_void);
        if r != 0 {
            x.threads.pop();
            return r;
        }
        let rd: *const u32 = &x.threads[tid].ctx.ready;
        while std::ptr::read_volatile(rd) == 0 {
            sys::futex_wait(rd, 0);
        }
        x.threads[tid].handle = *t;
        make_runnable(tid, 0);
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    if !sim() {
        type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
        let p = dlsym(RTLD_NEXT, c"pthread_join".as_ptr());
        return std::mem::transmute::<*mut c_void, F>(p)(t, out);
    }
    kernel(|| {
        let Some(tid) = w().threads.iter().position(|x| x.handle == t) else { return ESRCH };
        while w().threads[tid].st != TSt::Exit {
            let me = w().cur;
            w().threads[me].futex = 0x1000 + tid;
            w().threads[me].bits = u32::MAX;
            block(None);
        }
        if !out.is_null() {
            *out = w().threads[tid].ret as *mut c_void;
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if !sim() {
        type F = unsafe extern "C" fn(pthread_t) -> c_int;
        let p = dlsym(RTLD_NEXT, c"pthread_detach".as_ptr());
        return std::mem::transmute::<*mut c_void, F>(p)(t);
    }
    0
}

// -------------------------------------------------- instrumented atomics

macro_rules! atomics {
    ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cs:ident, $cw:ident, $cv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).load(std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: c_int) {
            point();
            (*(p as *const $at)).store(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).swap(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).fetch_add(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).fetch_sub(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).fetch_and(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).fetch_or(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).fetch_xor(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: c_int) -> $t {
            point();
            (*(p as *const $at)).fetch_nand(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cs(p: *mut $t, c: *mut $t, v: $t, _: c_int, _: c_int) -> c_int {
            point();
            use std::sync::atomic::Ordering::SeqCst;
            match (*(p as *const $at)).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(o) => {
                    *c = o;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cw(p: *mut $t, c: *mut $t, v: $t, a: c_int, b: c_int) -> c_int {
            $cs(p, c, v, a, b)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cv(p: *mut $t, c: $t, v: $t, _: c_int, _: c_int) -> $t {
            point();
            use std::sync::atomic::Ordering::SeqCst;
            match (*(p as *const $at)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(o) | Err(o) => o,
            }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: c_int) {
    point();
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: c_int) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_: *const c_void, _: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_: *const c_void) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: c_int, n: usize) -> *mut u8 {
    std::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if sim() {
        return 1000 + w().cur as pid_t;
    }
    sys::raw6(SYS_gettid, 0, 0, 0, 0, 0, 0) as pid_t
}
