//! The simulated TCP network. One `Conn` per scripted client connection; the
//! client end belongs to the script (client.rs), the server end is reached
//! through system calls and io_uring.
use std::collections::VecDeque;

use crate::plan::*;
use crate::rng::K;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CSt {
    Idle,
    Connecting,
    Open,
    Over,
}

pub struct ReqRec {
    pub req: Req,
    pub end: u64,
    pub sent: Option<Stamp>,
    /// when its last byte reached the server's socket
    pub arr: Option<Stamp>,
    /// when the first byte of its reply reached the client
    pub first: Option<Stamp>,
    pub done: Option<Stamp>,
    pub reply: Option<crate::resp::V>,
    pub reply_len: usize,
}

pub struct Conn {
    pub id: u32,
    // --- script
    pub pc: usize,
    pub gen: u32,
    pub st: CSt,
    pub script_done: bool,
    pub waiting: bool,
    pub wait_since: u64,
    /// when the network last moved something for this connection
    pub progress: u64,
    pub timed_out: Option<(usize, u32, u64)>, // step, outstanding, time
    pub reqs: Vec<ReqRec>,
    pub next_reply: usize,
    pub stream_end: u64,
    pub rbuf: Vec<u8>,
    pub rpos: usize,
    pub rtotal: u64,
    pub rhist: Vec<(u64, Stamp)>, // bytes received up to and including, when
    pub proto_err: Option<String>,
    pub extra: Option<String>,
    pub port: u16,
    pub ip: u32,
    pub rcap: usize,
    pub paused: bool,
    pub slow: Option<(u32, u32)>,
    pub slow_armed: bool,
    pub rq: VecDeque<u8>,
    // --- what the client saw / did
    pub connected: Option<Stamp>,
    pub refused: bool,
    pub eof: Option<Stamp>,
    pub reset: Option<Stamp>,
    /// the client ended it: (how, when)
    pub ended: Option<(char, Stamp)>,
    /// the client ended its direction only
    pub half: Option<Stamp>,
    /// end of stream / reset reached the server
    pub end_at_server: Option<u64>,
    // --- client to server
    pub wire: VecDeque<u8>,
    pub segs: VecDeque<(u64, usize)>,
    pub last_t: u64,
    pub fin_q: bool,
    pub wire_armed: bool,
    // --- server end
    pub queued: bool,
    pub accepted: Option<Stamp>,
    pub lst: usize,
    pub file: Option<usize>,
    pub srv_fd: i32,
    pub srq: VecDeque<u8>,
    pub arrived: u64,
    pub arr_i: usize,
    pub sfin: bool,
    pub serr: Option<i32>,
    pub sdead: bool,
    pub sbuf: VecDeque<u8>,
    pub sent_total: u64,
    pub first_send: Option<Stamp>,
    pub last_send: Option<Stamp>,
    pub opened: Option<Stamp>,
    pub s_shut: bool,
    pub released: Option<Stamp>,
    pub s_armed: bool,
    pub fin_delivered: bool,
    pub faulted: bool,
    pub shut_rd: bool,
    pub in_run: bool,
    pub again: bool,
    pub idle_from: (u64, u64),
}

impl Conn {
    pub fn new(id: u32, p: &ConnPlan) -> Conn {
        Conn {
            id,
            pc: 0,
            gen: 0,
            st: CSt::Idle,
            script_done: false,
            waiting: false,
            wait_since: 0,
            progress: 0,
            timed_out: None,
            reqs: vec![],
            next_reply: 0,
            stream_end: 0,
            rbuf: vec![],
            rpos: 0,
            rtotal: 0,
            rhist: vec![],
            proto_err: None,
            extra: None,
            port: if p.port != 0 { p.port } else { 20000 + (id % 39983) as u16 },
            ip: if p.port != 0 { 0x0a00_0101 } else { 0x0a00_0001 + (id % 200) },
            rcap: if p.rcvbuf == 0 { 1 << 17 } else { p.rcvbuf as usize },
            paused: false,
            slow: None,
            slow_armed: false,
            rq: VecDeque::new(),
            connected: None,
            refused: false,
            eof: None,
            reset: None,
            ended: None,
            half: None,
            end_at_server: None,
            wire: VecDeque::new(),
            segs: VecDeque::new(),
            last_t: 0,
            fin_q: false,
            wire_armed: false,
            queued: false,
            accepted: None,
            lst: 0,
            file: None,
            srv_fd: -1,
            srq: VecDeque::new(),
            arrived: 0,
            arr_i: 0,
            sfin: false,
            serr: None,
            sdead: false,
            sbuf: VecDeque::new(),
            sent_total: 0,
            first_send: None,
            last_send: None,
            opened: None,
            s_shut: false,
            released: None,
            s_armed: false,
            fin_delivered: false,
            faulted: false,
            shut_rd: false,
            in_run: false,
            again: false,
            idle_from: (0, 0),
        }
    }
}

fn cn(c: u32) -> &'static mut Conn {
    &mut w().conns[c as usize]
}

pub fn lat() -> u64 {
    let x = w();
    let e = &x.plan.env;
    let base = e.lat_us as u64 * 1000;
    if e.delay > 0 {
        let (d, mx) = (e.delay as u64, e.delay_max_us.max(1) as u64);
        let v = x.dec.get(K::NetDelay, |b| if b % d == 0 { 1 + ((b >> 20) % mx) as u32 } else { 0 });
        if v > 0 {
            x.stats.net_delays += 1;
        }
        base + v as u64 * 1000
    } else {
        base
    }
}

// ------------------------------------------------------- connection set-up

pub fn connect(c: u32) {
    cn(c).st = CSt::Connecting;
    let s = w().stamp();
    cn(c).opened = Some(s);
    let l = lat();
    w().after(l, Ev::Syn(c));
    w().stats.conns += 1;
}

/// Where the server listens, unless starting it is part of the run.
pub const SRV_IP: u32 = 0x7f00_0001;
pub const SRV_PORT: u16 = 6379;

/// The server's own address on a connection.
pub fn served_at(c: u32) -> (u128, u16) {
    let x = w();
    let l = x.conns[c as usize].lst;
    match x.listeners.get(l).map(|f| &x.files[*f].kind) {
        Some(FK::Sock { bound: Some((ip, port)), .. }) => {
            // a wildcard address is not what the client connected to
            let ip = match *ip {
                0 => 1,
                0xffff_0000_0000 if c % 3 == 2 => 0xffff_0a01_0203,
                0xffff_0000_0000 => 0xffff_0000_0000 | SRV_IP as u128,
                ip => ip,
            };
            (ip, *port)
        }
        _ => (0xffff_0000_0000 | SRV_IP as u128, SRV_PORT),
    }
}

pub fn syn(c: u32) {
    if cn(c).st != CSt::Connecting {
        return;
    }
    let x = w();
    if x.plan.conns[c as usize].port != 0 {
        // the port is free again once the earlier connection is gone
        let p = cn(c).port;
        let o = cn(c).opened;
        let busy = x.conns.iter().any(|k| {
            k.id != c
                && k.port == p
                && k.queued
                && k.opened < o
                && !(k.end_at_server.is_some() || k.sdead || k.released.is_some() || k.refused)
        });
        if busy {
            x.after(1_000_000, Ev::Syn(c));
            return;
        }
    }
    let n = x.listeners.len();
    if n == 0 {
        let l = lat();
        w().after(l, Ev::Refused(c));
        return;
    }
    // seed mode spreads connections; 0 is the first listener
    let v = x.dec.get(K::Listener, |b| (b >> 8) as u32 % 64) as usize % n;
    let f = x.listeners[v];
    if let FK::Sock { queue, backlog, .. } = &mut x.files[f].kind {
        if queue.len() > *backlog {
            x.after(1_000_000_000, Ev::Syn(c));
            return;
        }
        queue.push_back(c);
    }
    cn(c).queued = true;
    cn(c).lst = v;
    let l = lat();
    w().after(l, Ev::SynAck(c));
    crate::uring::pump(f);
}
pub fn synack(c: u32) {
    if cn(c).st != CSt::Connecting {
        return;
    }
    cn(c).st = CSt::Open;
    let s = w().stamp();
    cn(c).connected = Some(s);
    crate::client::kick(c);
}
pub fn refused(c: u32) {
    cn(c).st = CSt::Over;
    cn(c).refused = true;
    crate::client::kick(c);
}

// -------------------------------------------------------- client to server

/// The client writes bytes; the network cuts and delays them.
pub fn client_send(c: u32, b: &[u8]) {
    let k = cn(c);
    let seg = w().plan.conns[c as usize].seg;
    let gap = w().plan.conns[c as usize].gap_us as u64 * 1000;
    k.wire.extend(b.iter().copied());
    k.stream_end += b.len() as u64;
    w().stats.bytes_in += b.len() as u64;
    let mut left = b.len();
    let mut first = true;
    while left > 0 {
        let n = if seg == 0 {
            left
        } else if seg > 0 {
            left.min(seg as usize)
        } else {
            // random cuts: mostly small pieces, sometimes all the rest
            let m = (-seg) as u64;
            let v = w().dec.get(K::Seg, |r| match r % 4 {
                0 => 0,
                1 => 1 + ((r >> 8) % 4) as u32,
                _ => 1 + ((r >> 8) % m) as u32,
            });
            if v == 0 {
                left.min((m as usize) * 8)
            } else {
                left.min(v as usize)
            }
        };
        left -= n;
        if left > 0 {
            w().stats.cuts += 1;
        }
        w().stats.segments += 1;
        let l = lat();
        let x = w();
        let t = (x.now + l).max(k.last_t + if first { 0 } else { gap });
        first = false;
        k.last_t = t;
        k.segs.push_back((t, n));
    }
    arm_c2s(c);
}

fn arm_c2s(c: u32) {
    let k = cn(c);
    if k.wire_armed {
        return;
    }
    if let Some((t, _)) = k.segs.front() {
        k.wire_armed = true;
        w().at(*t, Ev::C2S(c));
    } else if k.fin_q && !k.sfin {
        k.wire_armed = true;
        let t = k.last_t;
        w().at(t, Ev::C2S(c));
    }
}

pub fn client_fin(c: u32) {
    let k = cn(c);
    if k.fin_q {
        return;
    }
    k.fin_q = true;
    let l = lat();
    k.last_t = k.last_t.max(w().now + l);
    arm_c2s(c);
}

/// A segment (or the end of stream) reaches the server's host.
pub fn c2s(c: u32) {
    let k = cn(c);
    k.wire_armed = false;
    if k.sdead || k.serr.is_some() {
        return;
    }
    let now = w().now;
    let cap = (w().plan.env.rcvbuf as usize).max(1);
    let mut moved = false;
    while let Some((t, n)) = k.segs.front_mut() {
        if *t > now {
            break;
        }
        if k.released.is_some() || k.shut_rd {
            // data for a closed socket: reset
            k.segs.clear();
            k.wire.clear();
            if k.released.is_some() {
                let l = lat();
                w().after(l, Ev::RstToClient(c));
                w().stats.server_rsts += 1;
            }
            return;
        }
        let room = cap.saturating_sub(k.srq.len());
        let m = room.min(*n);
        if m == 0 {
            break; // window closed; continues when the server reads
        }
        for _ in 0..m {
            let b = k.wire.pop_front().unwrap();
            k.srq.push_back(b);
        }
        k.arrived += m as u64;
        *n -= m;
        if *n == 0 {
            k.segs.pop_front();
        }
        moved = true;
    }
    if moved {
        while k.arr_i < k.reqs.len() && k.reqs[k.arr_i].end <= k.arrived {
            let s = w().stamp();
            k.reqs[k.arr_i].arr = Some(s);
            k.arr_i += 1;
        }
    }
    if moved {
        k.progress = now;
    }
    if k.segs.is_empty() && k.fin_q && !k.sfin && k.last_t <= now {
        k.sfin = true;
        // (the end of its own direction only is not its end)
        if k.end_at_server.is_none() && k.half.is_none() {
            k.end_at_server = Some(now);
        }
        moved = true;
    }
    if let Some((t, _)) = k.segs.front() {
        if *t > now {
            arm_c2s(c);
        }
    } else {
        arm_c2s(c);
    }
    if moved {
        if let Some(f) = k.file {
            crate::uring::pump(f);
        }
    }
}

pub fn rst_to_server(c: u32, errno: i32) {
    let k = cn(c);
    if k.sdead {
        return;
    }
    k.sdead = true;
    if k.end_at_server.is_none() {
        k.end_at_server = Some(w().now);
    }
    k.serr = Some(errno);
    k.sbuf.clear();
    k.segs.clear();
    k.wire.clear();
    w().stats.resets += 1;
    trace!("conn {} reset at server", c);
    if let Some(f) = k.file {
        crate::uring::pump(f);
    }
}

pub fn rst_to_client(c: u32) {
    let k = cn(c);
    if k.st == CSt::Over || k.ended.map(|e| e.0 != 'h').unwrap_or(false) {
        return;
    }
    let s = w().stamp();
    k.reset = Some(s);
    k.st = CSt::Over;
    trace!("conn {} reset at client", c);
    crate::client::read_all(c);
    crate::client::kick(c);
}

// -------------------------------------------------------- server to client

fn arm_s2c(c: u32) {
    let k = cn(c);
    if k.s_armed {
        return;
    }
    let l = lat();
    k.s_armed = true;
    w().after(l, Ev::S2C(c));
}

pub fn s2c(c: u32) {
    let k = cn(c);
    k.s_armed = false;
    if k.sdead {
        return;
    }
    let gone = k.ended.map(|e| e.0 != 'h').unwrap_or(false);
    if gone {
        if !k.sbuf.is_empty() {
            // data for a closed client: it answers with a reset
            k.sbuf.clear();
            let l = lat();
            w().after(l, Ev::RstToServer(c));
        }
        return;
    }
    let room = k.rcap.saturating_sub(k.rq.len());
    let mut n = room.min(k.sbuf.len());
    let dr = w().plan.env.drain;
    if dr > 0 && n > 1 {
        let v = w().dec.get(K::Drain, |b| if b % dr as u64 == 0 { 1 + ((b >> 16) % (n as u64)) as u32 } else { 0 });
        if v > 0 {
            n = n.min(v as usize);
        }
    }
    let had = !k.sbuf.is_empty();
    for _ in 0..n {
        let b = k.sbuf.pop_front().unwrap();
        k.rq.push_back(b);
    }
    if n > 0 {
        crate::client::readable(c);
    }
    let k = cn(c);
    if had {
        if let Some(f) = k.file {
            crate::uring::pump(f);
        }
    }
    let k = cn(c);
    if !k.sbuf.is_empty() {
        if k.rcap > k.rq.len() {
            arm_s2c(c);
        }
    } else if (k.released.is_some() || k.s_shut) && !k.fin_delivered {
        k.fin_delivered = true;
        if k.rq.is_empty() {
            client_eof(c);
        }
    }
}

fn client_eof(c: u32) {
    let k = cn(c);
    if k.eof.is_none() && k.st != CSt::Over {
        let s = w().stamp();
        k.eof = Some(s);
        crate::client::kick(c);
    }
}

/// The client took bytes from its receive queue.
pub fn client_took(c: u32) {
    let k = cn(c);
    if !k.sbuf.is_empty() && !k.sdead {
        arm_s2c(c);
    }
    if k.fin_delivered && k.rq.is_empty() {
        client_eof(c);
    }
}

pub fn slow_read(c: u32) {
    cn(c).slow_armed = false;
    crate::client::readable(c);
}

// ------------------------------------------------------------- server side

/// None: would block.
pub fn srv_recv(c: u32, buf: *mut u8, len: usize, all: bool) -> Option<i64> {
    let k = cn(c);
    if !k.srq.is_empty() {
        if all && k.srq.len() < len && !k.sfin && k.serr.is_none() {
            return None;
        }
        let mut n = len.min(k.srq.len());
        let sr = w().plan.env.short_r;
        if sr > 0 && n > 1 && !all {
            let v = w().dec.get(K::Short, |b| if b % sr as u64 == 0 { 1 + ((b >> 16) % (n as u64)) as u32 } else { 0 });
            if v > 0 && (v as usize) < n {
                n = v as usize;
                w().stats.short_reads += 1;
            }
        }
        for i in 0..n {
            unsafe { *buf.add(i) = k.srq.pop_front().unwrap() };
        }
        // the window opens again
        if !k.segs.is_empty() && !k.wire_armed {
            k.wire_armed = true;
            let l = lat();
            w().after(l, Ev::C2S(c));
        }
        return Some(n as i64);
    }
    if let Some(e) = k.serr.take() {
        return Some(-(e as i64));
    }
    if k.sfin || k.sdead || k.shut_rd {
        return Some(0);
    }
    None
}

pub fn srv_send(c: u32, buf: *const u8, len: usize, all: bool) -> Option<i64> {
    let k = cn(c);
    if let Some(e) = k.serr.take() {
        return Some(-(e as i64));
    }
    if k.sdead || k.s_shut {
        return Some(-(libc::EPIPE as i64));
    }
    if len == 0 {
        return Some(0);
    }
    let cap = (w().plan.env.sndbuf as usize).max(1);
    let room = cap.saturating_sub(k.sbuf.len());
    if room == 0 {
        return None;
    }
    let mut n = room.min(len);
    let sw = w().plan.env.short_w;
    if sw > 0 && n > 1 {
        let v = w().dec.get(K::ShortW, |b| if b % sw as u64 == 0 { 1 + ((b >> 16) % (n as u64)) as u32 } else { 0 });
        if v > 0 && (v as usize) < n {
            n = v as usize;
        }
    }
    if n < len && !all {
        w().stats.short_writes += 1;
    }
    let s = unsafe { std::slice::from_raw_parts(buf, n) };
    k.sbuf.extend(s.iter().copied());
    k.sent_total += n as u64;
    w().stats.bytes_out += n as u64;
    let st = w().stamp();
    k.first_send.get_or_insert(st);
    k.last_send = Some(st);
    arm_s2c(c);
    Some(n as i64)
}

pub fn srv_shutdown(c: u32, how: i32) -> i32 {
    let k = cn(c);
    if k.sdead {
        return libc::ENOTCONN;
    }
    if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
        k.s_shut = true;
        arm_s2c(c);
    }
    if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
        k.shut_rd = true;
        if let Some(f) = k.file {
            crate::uring::pump(f);
        }
    }
    0
}

/// The server's last reference to the socket is gone.
pub fn srv_release(c: u32) {
    let s = w().stamp();
    let k = cn(c);
    k.released = Some(s);
    k.file = None;
    trace!("conn {} released by server (unread {})", c, k.srq.len());
    if k.sdead {
        return;
    }
    if !k.srq.is_empty() {
        // unread data: the connection is reset and unsent data lost
        k.sbuf.clear();
        k.sdead = true;
        w().stats.server_rsts += 1;
        let l = lat();
        w().after(l, Ev::RstToClient(c));
    } else {
        arm_s2c(c);
    }
}
