//! The simulated io_uring.
use crate::net;
use crate::rng::K;
use crate::world::*;

pub struct Ring {
    pub mem: *mut u8, // SQ/CQ ring memory
    pub mem_len: usize,
    pub sqes: *mut u8,
    pub sq_n: u32,
    pub cq_n: u32,
    pub file: usize,
    pub overflow: std::collections::VecDeque<(u64, i32, u32)>,
}

#[derive(Clone, Copy, Debug)]
pub struct Sqe {
    pub op: u8,
    pub flags: u8,
    pub fd: i32,
    pub off: u64,
    pub addr: u64,
    pub len: u32,
    pub opf: u32,
    pub ud: u64,
}

pub struct Op {
    pub ring: usize,
    pub sqe: Sqe,
    pub file: Option<usize>,
    pub gen: u32,
    pub delayed: bool,
    pub done_bytes: usize,
}

const SQ_HEAD: usize = 0;
const SQ_TAIL: usize = 4;
const SQ_MASK: usize = 8;
const SQ_ENT: usize = 12;
const SQ_FLAGS: usize = 16;
const SQ_DROP: usize = 20;
const CQ_HEAD: usize = 32;
const CQ_TAIL: usize = 36;
const CQ_MASK: usize = 40;
const CQ_ENT: usize = 44;
const CQ_OVER: usize = 48;
const CQ_FLAGS: usize = 52;
const SQ_ARRAY: usize = 64;

impl Ring {
    unsafe fn u32(&self, o: usize) -> *mut u32 {
        self.mem.add(o) as *mut u32
    }
    fn get(&self, o: usize) -> u32 {
        unsafe { std::ptr::read_volatile(self.u32(o)) }
    }
    fn set(&self, o: usize, v: u32) {
        unsafe { std::ptr::write_volatile(self.u32(o), v) }
    }
    fn cq_off(&self) -> usize {
        (SQ_ARRAY + self.sq_n as usize * 4 + 63) & !63
    }
    pub fn cq_ready(&self) -> u32 {
        self.get(CQ_TAIL).wrapping_sub(self.get(CQ_HEAD)) + self.overflow.len() as u32
    }
    fn flush_overflow(&mut self) {
        while !self.overflow.is_empty() && self.get(CQ_TAIL).wrapping_sub(self.get(CQ_HEAD)) < self.cq_n {
            let (ud, res, fl) = self.overflow.pop_front().unwrap();
            self.push(ud, res, fl);
        }
    }
    fn push(&mut self, ud: u64, res: i32, fl: u32) {
        let t = self.get(CQ_TAIL);
        if t.wrapping_sub(self.get(CQ_HEAD)) >= self.cq_n {
            self.overflow.push_back((ud, res, fl));
            return;
        }
        unsafe {
            let p = self.mem.add(self.cq_off() + (t & (self.cq_n - 1)) as usize * 16);
            *(p as *mut u64) = ud;
            *(p.add(8) as *mut i32) = res;
            *(p.add(12) as *mut u32) = fl;
        }
        self.set(CQ_TAIL, t.wrapping_add(1));
    }
}

/// io_uring_setup
pub unsafe fn setup(entries: u32, p: *mut u32) -> i64 {
    let n = entries.max(1).next_power_of_two();
    let flags = *p.add(2);
    let cqn = if flags & (1 << 3) != 0 { (*p.add(1)).next_power_of_two() } else { n * 2 };
    if flags & !((1 << 3) | (1 << 4) | (1 << 8) | (1 << 9) | (1 << 12) | (1 << 13)) != 0 {
        // an unsupported set-up flag (polling, shared work queue, ...)
        return -(libc::EINVAL as i64);
    }
    let cq_off = (SQ_ARRAY + n as usize * 4 + 63) & !63;
    let mem_len = (cq_off + cqn as usize * 16 + 4095) & !4095;
    let mem = crate::sys::map_anon(mem_len, false);
    let sqes = crate::sys::map_anon((n as usize * 64 + 4095) & !4095, false);
    let x = w();
    let f = x.new_file(FK::Ring(x.rings.len()));
    let r = Ring { mem, mem_len, sqes, sq_n: n, cq_n: cqn, file: f, overflow: Default::default() };
    r.set(SQ_MASK, n - 1);
    r.set(SQ_ENT, n);
    r.set(CQ_MASK, cqn - 1);
    r.set(CQ_ENT, cqn);
    x.rings.push(r);
    *p = n;
    *p.add(1) = cqn;
    // features: SINGLE_MMAP NODROP SUBMIT_STABLE RW_CUR_POS FAST_POLL EXT_ARG
    *p.add(5) = 1 | 2 | 4 | 8 | 32 | (1 << 8);
    let so = p.add(10);
    for (i, o) in [SQ_HEAD, SQ_TAIL, SQ_MASK, SQ_ENT, SQ_FLAGS, SQ_DROP, SQ_ARRAY].iter().enumerate() {
        *so.add(i) = *o as u32;
    }
    let co = p.add(20);
    for (i, o) in [CQ_HEAD, CQ_TAIL, CQ_MASK, CQ_ENT, CQ_OVER, cq_off, CQ_FLAGS].iter().enumerate() {
        *co.add(i) = *o as u32;
    }
    x.new_fd(f) as i64
}

pub fn mmap(fd: i32, off: i64) -> i64 {
    let x = w();
    let Some(f) = x.fd(fd) else { return -(libc::EBADF as i64) };
    let FK::Ring(r) = x.files[f].kind else { return -(libc::ENODEV as i64) };
    match off {
        0 | 0x8000000 => x.rings[r].mem as i64,
        0x10000000 => x.rings[r].sqes as i64,
        _ => -(libc::EINVAL as i64),
    }
}

pub unsafe fn register(_fd: i32, opcode: u32, arg: *mut u8, n: u32) -> i64 {
    match opcode {
        8 => {
            // probe: report what is implemented
            let ops = [0u8, 1, 2, 6, 7, 9, 10, 11, 12, 13, 14, 16, 19, 22, 23, 26, 27, 34];
            *arg = 34;
            *arg.add(1) = 35.min(n as u8);
            for i in 0..n.min(35) {
                let e = arg.add(16 + i as usize * 8);
                *e = i as u8;
                *(e.add(2) as *mut u16) = ops.contains(&(i as u8)) as u16;
            }
            0
        }
        _ => -(libc::EINVAL as i64),
    }
}

pub unsafe fn enter(fd: i32, to_submit: u32, min: u32, flags: u32, arg: *const u8, sz: usize) -> i64 {
    let x = w();
    let Some(f) = x.fd(fd) else { return -(libc::EBADF as i64) };
    let FK::Ring(r) = x.files[f].kind else { return -(libc::EOPNOTSUPP as i64) };
    x.rings[r].flush_overflow();
    let ei = x.plan.env.eintr;
    if x.phase == Phase::Run && ei > 0 && flags & 1 != 0 && min > 0 {
        if x.dec.get(K::Eintr, |b| (b % ei as u64 == 0) as u32) > 0 {
            x.stats.eintrs += 1;
            if to_submit == 0 {
                return -(libc::EINTR as i64);
            }
            // submissions are consumed, only the wait is interrupted
            return submit(r, to_submit) as i64;
        }
    }
    let n = submit(r, to_submit);
    if flags & 1 == 0 || min == 0 {
        return n as i64;
    }
    let mut deadline = None;
    if flags & 8 != 0 && sz >= 24 && !arg.is_null() {
        let ts = *(arg.add(16) as *const u64) as *const i64;
        if !ts.is_null() {
            let d = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
            deadline = Some(w().now.saturating_add(d));
        }
    }
    let mut timeout = false;
    while w().rings[r].cq_ready() < min {
        let x = w();
        let me = x.cur;
        x.threads[me].ring_wait = Some((r, min));
        if block(deadline) == libc::ETIMEDOUT {
            timeout = true;
            break;
        }
        w().rings[r].flush_overflow();
    }
    if n > 0 {
        n as i64
    } else if timeout {
        -(libc::ETIME as i64)
    } else {
        0
    }
}

unsafe fn submit(r: usize, max: u32) -> u32 {
    let mut n = 0;
    while n < max {
        let x = w();
        let ring = &x.rings[r];
        let (h, t) = (ring.get(SQ_HEAD), ring.get(SQ_TAIL));
        if h == t {
            break;
        }
        let idx = std::ptr::read_volatile(ring.u32(SQ_ARRAY + (h & (ring.sq_n - 1)) as usize * 4));
        let p = ring.sqes.add(idx as usize * 64);
        let q = Sqe {
            op: *p,
            flags: *p.add(1),
            fd: *(p.add(4) as *const i32),
            off: *(p.add(8) as *const u64),
            addr: *(p.add(16) as *const u64),
            len: *(p.add(24) as *const u32),
            opf: *(p.add(28) as *const u32),
            ud: *(p.add(32) as *const u64),
        };
        ring.set(SQ_HEAD, h.wrapping_add(1));
        n += 1;
        x.stats.sqes += 1;
        issue(r, q);
    }
    n
}

fn post(r: usize, ud: u64, res: i64) {
    let x = w();
    x.sched_hash = crate::rng::mix(x.sched_hash ^ ud ^ ((res as u64) << 32) ^ ((r as u64) << 24));
    x.rings[r].push(ud, res as i32, 0);
    let ready = x.rings[r].cq_ready();
    for i in 0..x.threads.len() {
        if let Some((rr, m)) = x.threads[i].ring_wait {
            if rr == r && ready >= m {
                make_runnable(i, 0);
            }
        }
    }
}

unsafe fn issue(r: usize, q: Sqe) {
    trace!("sqe ring {} op {} fd {} len {} ud {:x}", r, q.op, q.fd, q.len, q.ud);
    if q.flags & !(1 << 4) != 0 {
        post(r, q.ud, -(libc::EINVAL as i64));
        return;
    }
    let x = w();
    match q.op {
        0 => post(r, q.ud, 0),
        11 => {
            // timeout
            let ts = q.addr as *const i64;
            let d = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
            let (o, g) = add_op(r, q, None);
            let t = if q.opf & 1 != 0 { d } else { w().now.saturating_add(d) };
            w().at(t, Ev::OpTimeout(o, g));
        }
        12 | 14 | 7 => {
            // cancel / remove by user data
            let found =
                x.ops.iter().position(|o| o.as_ref().map(|o| o.ring == r && o.sqe.ud == q.addr).unwrap_or(false));
            match found {
                Some(o) => {
                    x.stats.cancels += 1;
                    complete(o as u32, -(libc::ECANCELED as i64));
                    post(r, q.ud, 0);
                }
                None => post(r, q.ud, -(libc::ENOENT as i64)),
            }
        }
        19 => {
            let e = if is_fake(q.fd) { close_fd(q.fd) } else { libc::EBADF };
            post(r, q.ud, -(e as i64));
        }
        34 => {
            let res = match x.fd(q.fd).map(|f| x.files[f].kind.clone()) {
                Some(FK::Stream(c)) => net::srv_shutdown(c, q.len as i32),
                Some(_) => libc::ENOTSOCK,
                None => libc::EBADF,
            };
            post(r, q.ud, -(res as i64));
        }
        1 | 2 | 6 | 9 | 10 | 13 | 22 | 23 | 26 | 27 => {
            let Some(f) = x.fd(q.fd) else {
                post(r, q.ud, -(libc::EBADF as i64));
                return;
            };
            x.files[f].refs += 1;
            let (o, g) = add_op(r, q, Some(f));
            let od = x.plan.env.op_delay;
            if x.phase == Phase::Run && od > 0 {
                let v = x.dec.get(K::OpDelay, |b| if b % od as u64 == 0 { 1 + (b >> 20) as u32 % 300 } else { 0 });
                if v > 0 {
                    x.stats.op_delays += 1;
                    x.ops[o as usize].as_mut().unwrap().delayed = true;
                    x.files[f].ops.push(o);
                    x.after(v as u64 * 1000, Ev::OpTry(o, g));
                    return;
                }
            }
            if q.op == 13 {
                if let Some(e) = accept_fault_at_issue(f) {
                    complete(o, -(e as i64));
                    return;
                }
            }
            w().files[f].ops.push(o);
            pump(f);
        }
        _ => {
            x.unknown_sys.push(100_000 + q.op as i64);
            post(r, q.ud, -(libc::EINVAL as i64));
        }
    }
}

fn add_op(r: usize, q: Sqe, file: Option<usize>) -> (u32, u32) {
    let x = w();
    x.op_gen += 1;
    let g = x.op_gen;
    let op = Op { ring: r, sqe: q, file, gen: g, delayed: false, done_bytes: 0 };
    if let Some(i) = x.free_ops.pop() {
        x.ops[i as usize] = Some(op);
        (i, g)
    } else {
        x.ops.push(Some(op));
        (x.ops.len() as u32 - 1, g)
    }
}

fn complete(o: u32, res: i64) {
    let x = w();
    let op = x.ops[o as usize].take().unwrap();
    x.free_ops.push(o);
    trace!("cqe op {} fd {} ud {:x} -> {}", op.sqe.op, op.sqe.fd, op.sqe.ud, res);
    if let Some(f) = op.file {
        x.files[f].ops.retain(|i| *i != o);
    }
    post(op.ring, op.sqe.ud, res);
    if let Some(f) = op.file {
        put_file(f);
    }
}

pub fn op_try(o: u32, g: u32) {
    let x = w();
    let Some(op) = x.ops[o as usize].as_mut() else { return };
    if op.gen != g {
        return;
    }
    op.delayed = false;
    let f = op.file.unwrap();
    pump(f);
}
pub fn op_timeout(o: u32, g: u32) {
    let x = w();
    if let Some(op) = x.ops[o as usize].as_ref() {
        if op.gen == g {
            complete(o, -(libc::ETIME as i64));
        }
    }
}

/// Errors that hit an accept whether or not a connection is waiting
/// (descriptor limits): checked when it is issued.
fn accept_fault_at_issue(f: usize) -> Option<i32> {
    let x = w();
    if x.phase != Phase::Run {
        return None;
    }
    let li = x.listeners.iter().position(|l| *l == f).unwrap_or(0);
    let us = x.us();
    for (i, a) in x.plan.env.accept_faults.iter().enumerate() {
        if a.errno != libc::ECONNABORTED
            && a.mask >> li & 1 == 1
            && us >= a.from_us
            && us < a.to_us
            && (a.max == 0 || x.af_count[i] < a.max)
        {
            x.af_count[i] += 1;
            x.stats.accept_errors += 1;
            return Some(a.errno);
        }
    }
    None
}
fn accept_fault_at_arrival(f: usize, c: u32) -> Option<i32> {
    let x = w();
    let li = x.listeners.iter().position(|l| *l == f).unwrap_or(0);
    let us = x.us();
    for (i, a) in x.plan.env.accept_faults.iter().enumerate() {
        if a.mask >> li & 1 == 1 && us >= a.from_us && us < a.to_us && (a.max == 0 || x.af_count[i] < a.max) {
            x.af_count[i] += 1;
            x.stats.accept_errors += 1;
            return Some(a.errno);
        }
    }
    let ae = x.plan.env.accept_err;
    if ae > 0 {
        let v = x.dec.get(K::AcceptErr, |b| if b % ae as u64 == 0 { 1 + (b >> 20) as u32 % 6 } else { 0 });
        if v > 0 {
            x.stats.accept_errors += 1;
            let e = [libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPROTO];
            let _ = c;
            return Some(e[(v as usize - 1) % 6]);
        }
    }
    None
}

/// Try the pending operations of a file, in order.
pub fn pump(f: usize) {
    let mut i = 0;
    loop {
        let x = w();
        if i >= x.files[f].ops.len() {
            return;
        }
        let o = x.files[f].ops[i];
        let op = x.ops[o as usize].as_mut().unwrap();
        if op.delayed {
            i += 1;
            continue;
        }
        let q = op.sqe;
        let r = unsafe { attempt(f, o, &q) };
        match r {
            None => i += 1,
            Some(v) => {
                let last = w().files[f].refs == 1;
                complete(o, v);
                if last {
                    return; // the file is gone
                }
            }
        }
    }
}

unsafe fn attempt(f: usize, o: u32, q: &Sqe) -> Option<i64> {
    let x = w();
    if x.files[f].nonblock {
        // the file is non-blocking: would-block is reported
        let r = attempt2(f, o, q);
        return r.or(Some(-(libc::EAGAIN as i64)));
    }
    attempt2(f, o, q)
}

unsafe fn attempt2(f: usize, o: u32, q: &Sqe) -> Option<i64> {
    let x = w();
    match x.files[f].kind.clone() {
        FK::Stream(c) => match q.op {
            27 | 22 => net_recv(c, q.addr as *mut u8, q.len as usize, q.op == 27 && q.opf & libc::MSG_WAITALL as u32 != 0),
            26 | 23 => {
                let all = q.op == 26 && q.opf & libc::MSG_WAITALL as u32 != 0;
                let d = x.ops[o as usize].as_ref().unwrap().done_bytes;
                send_progress(c, o, &[(q.addr as *const u8, q.len as usize)], d, all)
            }
            1 | 10 => {
                let v = iov(q, q.op == 10);
                let mut tot = 0;
                for (p, n) in v {
                    if n == 0 {
                        continue;
                    }
                    match net_recv(c, p as *mut u8, n, false) {
                        None => break,
                        Some(e) if e <= 0 => {
                            if tot == 0 {
                                return Some(e);
                            }
                            break;
                        }
                        Some(k) => {
                            tot += k;
                            if (k as usize) < n {
                                break;
                            }
                        }
                    }
                }
                if tot > 0 {
                    Some(tot)
                } else {
                    None
                }
            }
            2 | 9 => {
                let v = iov(q, q.op == 9);
                let all = q.op == 9 && q.opf & libc::MSG_WAITALL as u32 != 0;
                let d = x.ops[o as usize].as_ref().unwrap().done_bytes;
                send_progress(c, o, &v, d, all)
            }
            6 => {
                let k = &x.conns[c as usize];
                let mut ev = 0u32;
                if !k.srq.is_empty() || k.sfin || k.sdead {
                    ev |= libc::POLLIN as u32;
                }
                if k.sbuf.len() < x.plan.env.sndbuf as usize || k.sdead {
                    ev |= libc::POLLOUT as u32;
                }
                if k.sdead {
                    ev |= (libc::POLLERR | libc::POLLHUP) as u32;
                }
                let m = ev & (q.opf | (libc::POLLERR | libc::POLLHUP) as u32);
                if m != 0 {
                    Some(m as i64)
                } else {
                    None
                }
            }
            _ => Some(-(libc::EOPNOTSUPP as i64)),
        },
        FK::Sock { listening, .. } => match q.op {
            13 if listening => accept(f, q.addr as *mut u8, q.off as *mut u32),
            6 => {
                if let FK::Sock { queue, .. } = &x.files[f].kind {
                    if !queue.is_empty() {
                        return Some(libc::POLLIN as i64 & q.opf as i64);
                    }
                }
                None
            }
            13 => Some(-(libc::EINVAL as i64)),
            _ => Some(-(libc::ENOTCONN as i64)),
        },
        FK::Event(n) => match q.op {
            22 | 1 => {
                if n == 0 {
                    return None;
                }
                x.files[f].kind = FK::Event(0);
                *(q.addr as *mut u64) = n;
                Some(8)
            }
            23 => {
                x.files[f].kind = FK::Event(n + *(q.addr as *const u64));
                Some(8)
            }
            6 => {
                if n > 0 {
                    Some(libc::POLLIN as i64)
                } else {
                    None
                }
            }
            _ => Some(-(libc::EINVAL as i64)),
        },
        FK::Ring(_) | FK::File(..) => Some(-(libc::EINVAL as i64)),
    }
}

fn net_recv(c: u32, p: *mut u8, n: usize, all: bool) -> Option<i64> {
    if n == 0 {
        // a zero-length receive completes with 0 once the socket is readable
        let k = &w().conns[c as usize];
        return if !k.srq.is_empty() || k.sfin || k.sdead { Some(0) } else { None };
    }
    net::srv_recv(c, p, n, all)
}

unsafe fn iov(q: &Sqe, msg: bool) -> Vec<(*const u8, usize)> {
    let (p, n) = if msg {
        let m = q.addr as *const libc::msghdr;
        ((*m).msg_iov as *const libc::iovec, (*m).msg_iovlen as usize)
    } else {
        (q.addr as *const libc::iovec, q.len as usize)
    };
    (0..n).map(|i| ((*p.add(i)).iov_base as *const u8, (*p.add(i)).iov_len)).collect()
}

/// Send from a vector, having sent `done` bytes already. Without `all`, the
/// first progress completes the operation (a short write).
unsafe fn send_progress(c: u32, o: u32, v: &[(*const u8, usize)], done: usize, all: bool) -> Option<i64> {
    let total: usize = v.iter().map(|x| x.1).sum();
    if total == 0 {
        return net::srv_send(c, std::ptr::null(), 0, false);
    }
    let mut pos = done;
    loop {
        // locate pos
        let mut skip = pos;
        let mut cur = None;
        for (p, n) in v {
            if skip < *n {
                cur = Some((p.add(skip), n - skip));
                break;
            }
            skip -= n;
        }
        let Some((p, n)) = cur else { return Some(pos as i64) };
        match net::srv_send(c, p, n, all) {
            None => {
                if pos > 0 && !all {
                    return Some(pos as i64);
                }
                w().ops[o as usize].as_mut().unwrap().done_bytes = pos;
                w().stats.blocked_writes += 1;
                return None;
            }
            Some(e) if e < 0 => return Some(if pos > 0 { pos as i64 } else { e }),
            Some(k) => {
                pos += k as usize;
                if pos == total {
                    return Some(pos as i64);
                }
                if (k as usize) < n && !all {
                    return Some(pos as i64);
                }
            }
        }
    }
}

pub unsafe fn accept(f: usize, addr: *mut u8, alen: *mut u32) -> Option<i64> {
    let x = w();
    let FK::Sock { queue, .. } = &mut x.files[f].kind else { return Some(-(libc::EINVAL as i64)) };
    let c = *queue.front()?;
    if x.phase == Phase::Run {
        if let Some(e) = accept_fault_at_arrival(f, c) {
            if e == libc::ECONNABORTED || e == libc::EPROTO {
                if let FK::Sock { queue, .. } = &mut w().files[f].kind {
                    queue.pop_front();
                }
                let k = &mut w().conns[c as usize];
                k.faulted = true;
                k.sdead = true;
                let s = w().stamp();
                w().conns[c as usize].released = Some(s);
                w().after(1000, Ev::RstToClient(c));
            }
            return Some(-(e as i64));
        }
    }
    let FK::Sock { queue, .. } = &mut x.files[f].kind else { unreachable!() };
    queue.pop_front();
    let nf = x.new_file(FK::Stream(c));
    let fd = x.new_fd(nf);
    let s = x.stamp();
    let k = &mut x.conns[c as usize];
    k.file = Some(nf);
    k.srv_fd = fd;
    k.accepted = Some(s);
    let (ip, port) = (k.ip, k.port);
    let o = x.open_streams();
    x.max_streams = x.max_streams.max(o);
    write_addr(addr, alen, ip, port);
    Some(fd as i64)
}

pub unsafe fn write_addr(addr: *mut u8, alen: *mut u32, ip: u32, port: u16) {
    if addr.is_null() {
        return;
    }
    let a = libc::sockaddr_in {
        sin_family: libc::AF_INET as u16,
        sin_port: port.to_be(),
        sin_addr: libc::in_addr { s_addr: ip.to_be() },
        sin_zero: [0; 8],
    };
    let n = (*alen as usize).min(16);
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr, n);
    *alen = 16;
}
pub fn client_addr(k: &crate::net::Conn) -> String {
    format!("{}:{}", std::net::Ipv4Addr::from(k.ip), k.port)
}
