//! The simulated machine: threads, scheduler, clocks, futexes, events.
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap, VecDeque};

use crate::fiber::{self, Ctx};
use crate::net::Conn;
use crate::plan::*;
use crate::rng::*;

pub const FD0: i32 = 512;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ev {
    Timer(u32, u32),
    Nop,
    Syn(u32),
    SynAck(u32),
    C2S(u32),
    S2C(u32),
    RstToServer(u32),
    RstToClient(u32),
    TimeoutToServer(u32),
    Refused(u32),
    Cli(u32, u32),
    Deadline(u32, u32),
    SlowRead(u32),
    OpTry(u32, u32),
    OpTimeout(u32, u32),
    Fault(u32),
    End,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TSt {
    Run,
    Block,
    Exit,
}

pub struct Th {
    pub ctx: Box<Ctx>,
    pub st: TSt,
    pub wake: i32,
    pub gen: u32,
    pub stalled_until: u64,
    pub futex: usize,
    pub bits: u32,
    pub ring_wait: Option<(usize, u32)>,
    pub handle: libc::pthread_t,
    pub ret: usize,
    pub stalls: u32,
    /// scheduling points when it last started to run after waiting
    pub awake: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FK {
    Sock { bound: Option<(u128, u16)>, reuseport: bool, listening: bool, backlog: usize, queue: VecDeque<u32> },
    Stream(u32),
    Event(u64),
    Ring(usize),
    /// a file of the simulated file system, and the position in it
    File(usize, u64),
}
pub struct FileObj {
    pub kind: FK,
    pub refs: u32,
    /// pending operations, first in first out
    pub ops: Vec<u32>,
    pub nonblock: bool,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Phase {
    Boot,
    Run,
}

#[derive(Default, Clone, serde::Serialize, serde::Deserialize, Debug)]
pub struct Stats {
    pub switches: u64,
    pub yields: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub forced: u64,
    pub syscalls: u64,
    pub sqes: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub blocked_writes: u64,
    pub accept_errors: u64,
    pub sockopt_errors: u64,
    pub print_faults: u64,
    pub op_delays: u64,
    pub eintrs: u64,
    pub net_delays: u64,
    pub segments: u64,
    pub cuts: u64,
    pub resets: u64,
    pub dead: u64,
    pub half_closes: u64,
    pub closes: u64,
    pub server_rsts: u64,
    pub real_jumps: u64,
    pub conns: u64,
    pub requests: u64,
    pub replies: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub futex_waits: u64,
    pub cancels: u64,
    pub malformed: u64,
    pub reader_stalls: u64,
    pub spurious: u64,
    pub file_opens: u64,
    pub file_open_errors: u64,
    pub file_reads: u64,
    pub file_read_errors: u64,
    pub file_short_reads: u64,
    pub file_eintrs: u64,
    pub boot_faults: u64,
    pub listens: u64,
}

pub struct World {
    pub phase: Phase,
    pub now: u64,
    pub t0: u64,
    pub real_off: i64,
    pub seq: u64,
    pub heap: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    pub next_ev: u64,
    pub threads: Vec<Th>,
    pub cur: usize,
    pub nrun: usize,
    pub since_switch: u32,
    pub files: Vec<FileObj>,
    pub free_files: Vec<usize>,
    pub fds: Vec<Option<usize>>,
    pub rings: Vec<crate::uring::Ring>,
    pub ops: Vec<Option<crate::uring::Op>>,
    pub free_ops: Vec<u32>,
    pub op_gen: u32,
    pub dec: Decisions,
    pub plan: Plan,
    pub conns: Vec<Conn>,
    pub signals: HashMap<u16, u32>,
    /// who may wait for a signal, or for the others
    pub gated: std::collections::BTreeSet<u32>,
    /// clients that wait until all others wait or are over
    pub at_others: std::collections::BTreeSet<u32>,
    pub listeners: Vec<usize>, // file ids, in creation order
    pub stats: Stats,
    pub sched_hash: u64,
    pub hseq: u64,
    pub cpus: u8,
    pub rnd: Rng, // the kernel's entropy (getrandom)
    pub faults_end: u64,
    pub ebadf_close: u32,
    pub measures: Vec<(u16, u64, u32)>,
    /// simulated processor time of the server's threads
    pub busy: u64,
    /// (from, length, processor time) of the times with nothing to do
    pub idles: Vec<(u64, u64, u64)>,
    pub unknown_sys: Vec<i64>,
    pub af_count: Vec<u32>,
    pub ended: bool,
    pub done_conns: usize,
    pub trace: bool,
    pub max_streams: u32,
    pub stderr: Vec<u8>,
    /// the simulated file system: path, plan, contents
    pub vfs: Vec<(String, VFile, Vec<u8>)>,
    pub cwd: String,
    /// the next milestone in scheduling points
    pub mark: u64,
    /// calls made while starting
    pub boot_calls: std::collections::BTreeMap<&'static str, u32>,
    /// every address a socket ever listened on
    pub listened: Vec<(u128, u16)>,
    /// the server reached the state where all its threads wait for events
    pub ready: bool,
}

pub static mut W: *mut World = std::ptr::null_mut();
/// The process is a simulation (template or run).
pub static mut ACTIVE: bool = false;
/// The simulator itself is executing.
pub static mut IN_K: bool = false;
/// Scheduling points are live (past boot).
pub static mut HOT: bool = false;

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

macro_rules! trace {
    ($($a:tt)*) => { if crate::world::w().trace { crate::world::trace_line(format!($($a)*)); } }
}
pub(crate) use trace;

pub fn trace_line(s: String) {
    let x = w();
    let l = format!("{:>12} t{} {}\n", x.now.wrapping_sub(x.t0), x.cur, s);
    crate::sys::write_all(2, l.as_bytes());
}

impl World {
    pub fn new(cpus: u8, boot_seed: u64, log: *mut DecLog) -> World {
        World {
            phase: Phase::Boot,
            now: 100_000_000_000,
            t0: 100_000_000_000,
            real_off: 1_700_000_000_000_000_000,
            seq: 0,
            heap: BinaryHeap::new(),
            next_ev: u64::MAX,
            threads: vec![],
            cur: 0,
            nrun: 0,
            since_switch: 0,
            files: vec![],
            free_files: vec![],
            fds: vec![],
            rings: vec![],
            ops: vec![],
            free_ops: vec![],
            op_gen: 0,
            dec: Decisions {
                seed: 0,
                idx: [0; NK],
                fixed: None,
                cur: [0; NK],
                log,
                nonzero: [0; NK],
                quiet: true,
            },
            plan: Plan::default(),
            conns: vec![],
            signals: HashMap::new(),
            gated: Default::default(),
            at_others: Default::default(),
            listeners: vec![],
            stats: Stats::default(),
            sched_hash: 0,
            hseq: 0,
            cpus,
            rnd: Rng::new(boot_seed),
            faults_end: 0,
            ebadf_close: 0,
            measures: vec![],
            busy: 0,
            idles: vec![],
            unknown_sys: vec![],
            af_count: vec![],
            ended: false,
            done_conns: 0,
            trace: false,
            max_streams: 0,
            stderr: vec![],
            vfs: vec![],
            cwd: "/rsim/work".into(),
            mark: 0,
            boot_calls: Default::default(),
            listened: vec![],
            ready: false,
        }
    }
    pub fn at(&mut self, t: u64, e: Ev) {
        let t = t.max(self.now);
        self.seq += 1;
        self.heap.push(Reverse((t, self.seq, e)));
        if t < self.next_ev {
            self.next_ev = t;
        }
    }
    pub fn after(&mut self, d: u64, e: Ev) {
        let t = self.now.saturating_add(d);
        self.at(t, e);
    }
    pub fn us(&self) -> u64 {
        (self.now - self.t0) / 1000
    }
    pub fn stamp(&mut self) -> Stamp {
        self.hseq += 1;
        Stamp { t: self.now, s: self.hseq }
    }
    pub fn new_file(&mut self, kind: FK) -> usize {
        let f = FileObj { kind, refs: 1, ops: vec![], nonblock: false };
        if let Some(i) = self.free_files.pop() {
            self.files[i] = f;
            i
        } else {
            self.files.push(f);
            self.files.len() - 1
        }
    }
    pub fn new_fd(&mut self, file: usize) -> i32 {
        for (i, s) in self.fds.iter_mut().enumerate() {
            if s.is_none() {
                *s = Some(file);
                return FD0 + i as i32;
            }
        }
        self.fds.push(Some(file));
        FD0 + self.fds.len() as i32 - 1
    }
    pub fn fd(&self, fd: i32) -> Option<usize> {
        if fd < FD0 {
            return None;
        }
        self.fds.get((fd - FD0) as usize).copied().flatten()
    }
    pub fn open_streams(&self) -> u32 {
        self.fds.iter().flatten().filter(|f| matches!(self.files[**f].kind, FK::Stream(_))).count() as u32
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, serde::Serialize, serde::Deserialize)]
pub struct Stamp {
    pub s: u64,
    pub t: u64,
}

pub fn is_fake(fd: i32) -> bool {
    fd >= FD0
}

/// Drop one reference to a file; the last one closes it.
pub fn put_file(f: usize) {
    let x = w();
    x.files[f].refs -= 1;
    if x.files[f].refs == 0 {
        match x.files[f].kind.clone() {
            FK::Stream(c) => crate::net::srv_release(c),
            FK::Sock { queue, .. } => {
                x.listeners.retain(|l| *l != f);
                for c in queue {
                    crate::net::srv_release(c);
                }
            }
            _ => {}
        }
        x.files[f].ops.clear();
        x.free_files.push(f);
    }
}

pub fn close_fd(fd: i32) -> i32 {
    let x = w();
    match x.fd(fd) {
        None => {
            x.ebadf_close += 1;
            trace!("close({}) EBADF", fd);
            libc::EBADF
        }
        Some(f) => {
            trace!("close({}) file {} {:?}", fd, f, x.files[f].kind);
            x.fds[(fd - FD0) as usize] = None;
            put_file(f);
            0
        }
    }
}

// ---------------------------------------------------------------- scheduler

pub fn fire_due() {
    loop {
        let x = w();
        if x.next_ev > x.now {
            return;
        }
        let Some(Reverse((t, _, e))) = x.heap.pop() else {
            x.next_ev = u64::MAX;
            return;
        };
        x.next_ev = x.heap.peek().map(|r| r.0 .0).unwrap_or(u64::MAX);
        if t > x.now {
            // cannot happen: next_ev is the minimum
            x.now = t;
        }
        handle(e);
    }
}

fn handle(e: Ev) {
    use crate::{net, uring};
    match e {
        Ev::Timer(t, g) => {
            let th = &w().threads[t as usize];
            if th.gen == g && th.st == TSt::Block {
                make_runnable(t as usize, libc::ETIMEDOUT);
            }
        }
        Ev::Nop => {}
        Ev::Syn(c) => net::syn(c),
        Ev::SynAck(c) => net::synack(c),
        Ev::C2S(c) => net::c2s(c),
        Ev::S2C(c) => net::s2c(c),
        Ev::RstToServer(c) => net::rst_to_server(c, libc::ECONNRESET),
        Ev::TimeoutToServer(c) => net::rst_to_server(c, libc::ETIMEDOUT),
        Ev::RstToClient(c) => net::rst_to_client(c),
        Ev::Refused(c) => net::refused(c),
        Ev::Cli(c, g) => crate::client::wakeup(c, g),
        Ev::Deadline(c, g) => crate::client::deadline(c, g),
        Ev::SlowRead(c) => net::slow_read(c),
        Ev::OpTry(o, g) => uring::op_try(o, g),
        Ev::OpTimeout(o, g) => uring::op_timeout(o, g),
        Ev::Fault(u32::MAX) => {
            // faults stop here
            let x = w();
            x.dec.quiet = true;
            x.faults_end = x.faults_end.max(x.now);
        }
        Ev::Fault(i) => {
            let x = w();
            let d = x.plan.env.real_jumps[i as usize].1;
            x.real_off = x.real_off.wrapping_add(d.wrapping_mul(1_000_000));
            x.stats.real_jumps += 1;
        }
        Ev::End => crate::run::finish("done"),
    }
}

pub fn make_runnable(t: usize, wake: i32) {
    let x = w();
    let th = &mut x.threads[t];
    if th.st == TSt::Block {
        th.st = TSt::Run;
        th.wake = wake;
        th.gen = th.gen.wrapping_add(1);
        th.futex = 0;
        th.ring_wait = None;
        th.awake = x.stats.yields;
        x.nrun += 1;
    }
}

/// Block the current thread until woken or `deadline`; returns the wake code.
pub fn block(deadline: Option<u64>) -> i32 {
    let x = w();
    let me = x.cur;
    x.threads[me].st = TSt::Block;
    x.threads[me].wake = 0;
    x.nrun -= 1;
    if let Some(d) = deadline {
        let g = x.threads[me].gen;
        x.at(d, Ev::Timer(me as u32, g));
    }
    resched(None);
    w().threads[me].wake
}

fn switch_to(t: usize) {
    let x = w();
    let me = x.cur;
    x.since_switch = 0;
    if t == me {
        return;
    }
    x.cur = t;
    x.stats.switches += 1;
    x.sched_hash = mix(x.sched_hash ^ (x.stats.yields << 8) ^ t as u64);
    unsafe {
        let a: *mut Ctx = &mut *x.threads[me].ctx;
        let b: *const Ctx = &*x.threads[t].ctx;
        fiber::switch(a, b);
    }
}

/// Choose who runs next. The current thread may or may not be runnable.
/// `prefer`: a preemption decision picked this many-th other thread.
pub fn resched(prefer: Option<u32>) {
    loop {
        fire_due();
        let x = w();
        let n = x.threads.len();
        let now = x.now;
        let ok = |i: usize| x.threads[i].st == TSt::Run && x.threads[i].stalled_until <= now;
        // candidates in round-robin order after the current thread
        let mut cand = [0usize; 16];
        let mut k = 0;
        for d in 1..=n {
            let i = (x.cur + d) % n;
            if ok(i) && k < 16 {
                cand[k] = i;
                k += 1;
            }
        }
        if k > 0 {
            let pick = if let Some(p) = prefer {
                // others first; the current one, if runnable, is last
                let others = if cand[k - 1] == x.cur { k - 1 } else { k };
                if others == 0 {
                    cand[0]
                } else {
                    cand[p as usize % others]
                }
            } else if k == 1 {
                cand[0]
            } else {
                let v = x.dec.get(K::Pick, |b| if b & 3 == 0 { (b >> 8) as u32 % 8 } else { 0 });
                cand[v as usize % k]
            };
            switch_to(pick);
            return;
        }
        // up, or as far up as it gets
        let up = x.listeners.len() >= x.cpus as usize || !x.listeners.is_empty() && x.now > 101_000_000_000;
        if x.phase == Phase::Boot && up {
            crate::run::boot_done();
            continue;
        }
        if x.heap.is_empty() {
            if x.phase == Phase::Boot {
                crate::run::boot_done();
            } else {
                crate::client::idle();
            }
            continue;
        }
        let t = x.next_ev;
        if t > x.now {
            x.now = t;
        }
    }
}

/// A scheduling point of the running server thread.
#[inline(always)]
pub fn point() {
    unsafe {
        if !HOT || IN_K {
            return;
        }
        IN_K = true;
    }
    point_slow(30);
    unsafe {
        IN_K = false;
    }
}

/// How long a run may be, in scheduling points. A thread that never waits for
/// anything during 50 million of them runs without getting anywhere. A run that
/// is long otherwise (the server has things to do now and then while clients
/// sleep for days) ends without a verdict on what is still to come.
#[cold]
fn milestone() {
    let x = w();
    let n = x.stats.yields;
    if x.threads.iter().any(|t| t.st == TSt::Run && n - t.awake.min(n) > 50_000_000) {
        crate::run::finish("livelock");
    }
    if n > 110_000_000 {
        crate::run::finish("exhausted");
    }
    x.mark = n + 10_000_000;
}

#[inline(never)]
pub fn point_slow(cost: u64) {
    let x = w();
    x.now += cost;
    x.busy += cost;
    x.stats.yields += 1;
    x.since_switch += 1;
    if x.stats.yields >= x.mark {
        milestone();
    }
    if x.phase == Phase::Boot && x.threads.len() == 1 {
        return;
    }
    if x.next_ev <= x.now {
        fire_due();
    }
    let x = w();
    let me = x.cur;
    let st = x.plan.env.stall;
    if st > 0 {
        let mx = x.plan.env.stall_max_us.max(1) as u64;
        let v = x.dec.get(K::Stall, |b| {
            if b % st as u64 == 0 {
                (1 + (b >> 24) % mx) as u32
            } else {
                0
            }
        });
        if v > 0 {
            x.stats.stalls += 1;
            x.threads[me].stalls += 1;
            let until = x.now + v as u64 * 1000;
            x.threads[me].stalled_until = until;
            x.faults_end = x.faults_end.max(until);
            x.at(until, Ev::Nop);
            trace!("stall {}us", v);
            resched(None);
            return;
        }
    }
    if x.nrun > 1 {
        let p = x.plan.env.preempt;
        if p > 0 {
            let v = x.dec.get(K::Preempt, |b| if b % p as u64 == 0 { 1 + (b >> 32) as u32 % 7 } else { 0 });
            if v > 0 {
                x.stats.preempts += 1;
                resched(Some(v - 1));
                return;
            }
        }
        if x.since_switch > 3000 {
            x.stats.forced += 1;
            resched(Some(0));
        }
    }
}

// ------------------------------------------------------------------ futex

pub unsafe fn futex_wait(addr: *const u32, val: u32, deadline: Option<u64>, bits: u32) -> i32 {
    let x = w();
    if std::ptr::read_volatile(addr) != val {
        return libc::EAGAIN;
    }
    if x.phase == Phase::Run {
        let e = x.plan.env.eintr;
        if e > 0 && x.dec.get(K::Eintr, |b| (b % e as u64 == 0) as u32) > 0 {
            x.stats.spurious += 1;
            return 0; // a spurious wake-up
        }
    }
    x.stats.futex_waits += 1;
    let me = x.cur;
    x.threads[me].futex = addr as usize;
    x.threads[me].bits = bits;
    block(deadline)
}
pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i32 {
    let mut k = 0;
    let nt = w().threads.len();
    for i in 0..nt {
        if k >= n {
            break;
        }
        let th = &w().threads[i];
        if th.st == TSt::Block && th.futex == addr && th.bits & bits != 0 {
            make_runnable(i, 0);
            k += 1;
        }
    }
    k as i32
}

/// Uninterruptible: the calling thread never runs again.
pub fn exit_thread() -> ! {
    let x = w();
    let me = x.cur;
    x.threads[me].st = TSt::Exit;
    x.nrun -= 1;
    // joiners wait on the address of the exited thread's state
    for i in 0..x.threads.len() {
        if x.threads[i].st == TSt::Block && x.threads[i].futex == 0x1000 + me {
            make_runnable(i, 0);
        }
    }
    resched(None);
    unreachable!()
}
