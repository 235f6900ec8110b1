//! One simulated run. A template process boots the real server once, up to the
//! point where every thread waits for events; each run is a fork of it.
use serde::{Deserialize, Serialize};

use crate::plan::{hex, unhex, Plan, VFile};
use crate::rng::*;
use crate::sys;
use crate::world::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Request {
    /// generate the plan from (profile, seed) when absent
    pub plan: Option<Plan>,
    pub profile: String,
    pub seed: u64,
    /// exactly these decisions: (kind << 27 | index, value)
    pub fixed: Option<Vec<(u32, u32)>>,
    pub trace: bool,
    /// return the plan and the decisions even without a violation
    pub full: bool,
    pub wall_s: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub end: String,
    pub viols: Vec<Viol>,
    /// the simulator itself misbehaved
    pub sim_error: Option<String>,
    pub stats: Stats,
    pub checks: std::collections::BTreeMap<String, u64>,
    pub sched_hash: u64,
    pub hist_hash: u64,
    pub sim_ns: u64,
    pub decisions: u64,
    pub dec_overflow: bool,
    pub plan: Option<Plan>,
    pub dec: Option<Vec<(u32, u32)>>,
    pub stderr: String,
    pub unknown: Vec<i64>,
    pub conns: u32,
    pub tags: Vec<String>,
}

const RES_MAX: usize = 24 << 20;
static mut RES: *mut u8 = std::ptr::null_mut();
static mut REQ: Option<Request> = None;
static mut FINISHING: bool = false;

/// The template process: boot the server as fibers, then serve requests.
pub fn template(cpus: u8, limit: u16, boot_seed: u64) -> ! {
    unsafe {
        crate::hooks::PRE_RND = mix(boot_seed ^ 0x5eed) | 1;
        if !crate::fiber::supported() {
            eprintln!("no FSGSBASE");
            sys::exit_group(3);
        }
        let log = sys::map_anon(std::mem::size_of::<DecLog>(), true) as *mut DecLog;
        RES = sys::map_anon(RES_MAX, true);
        let mut x = Box::new(World::new(cpus, boot_seed, log));
        x.plan.cpus = cpus;
        x.plan.limit = limit;
        x.plan.boot_seed = boot_seed;
        x.threads.push(Th {
            ctx: Box::default(),
            st: TSt::Run,
            wake: 0,
            gen: 0,
            stalled_until: 0,
            futex: 0,
            bits: 0,
            ring_wait: None,
            handle: 0,
            ret: 0,
            stalls: 0,
            awake: 0,
        });
        x.nrun = 1;
        W = Box::into_raw(x);
        install_handlers();
        ACTIVE = true;
        if limit == 0 {
            // starting the server is part of each run
            serve_requests();
        } else {
            let f = format!("bind_addr = \"{}\"\nmax_connection = {}\n", bind_addr(boot_seed), limit);
            let v = VFile { path: "/rsim/roster.toml".into(), data: hex(f.as_bytes()), ..Default::default() };
            w().vfs.push((v.path.clone(), v, f.into_bytes()));
            std::env::set_var("CONFIG_FILE_LOCATION", "/rsim/roster.toml");
        }
        let cfg = limit == 0;
        HOT = cfg;
        IN_K = false;
        let ok = boot(limit, cfg, boot_seed);
        IN_K = true;
        finish(if ok { "server-exit" } else { "server-exit-error" });
    }
}

/// The address it is told to listen on, unless starting it is part of the run.
fn bind_addr(boot_seed: u64) -> &'static str {
    match mix(boot_seed ^ 0xadd2) % 4 {
        0 => "0.0.0.0:6379",
        1 => "10.1.2.3:6379",
        _ => "127.0.0.1:6379",
    }
}

/// Start the server as its own `main` does; it returns when the server ends.
#[cfg(feature = "main")]
fn boot(_limit: u16, _cfg: bool, _seed: u64) -> bool {
    roster::rsim_boot()
}
#[cfg(not(feature = "main"))]
fn boot(limit: u16, cfg: bool, seed: u64) -> bool {
    if cfg {
        // nothing can be said
        return false;
    }
    let server = roster::ServerConfigBuilder::default()
        .connections_limit(std::sync::Arc::new(limit.into()))
        .bind_addr(bind_addr(seed).parse::<std::net::SocketAddr>().unwrap())
        .build()
        .expect("config")
        .initialize();
    server.join();
    true
}
pub const FOLLOWS_MAIN: bool = cfg!(feature = "main");

unsafe fn install_handlers() {
    let n = 1 << 20;
    let st = libc::stack_t { ss_sp: sys::map_anon(n, false) as *mut _, ss_flags: 0, ss_size: n };
    sys::raw6(libc::SYS_sigaltstack, &st as *const _ as i64, 0, 0, 0, 0, 0);
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGALRM, libc::SIGPROF] {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_signal as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER | libc::SA_SIGINFO;
        libc::sigaction(s, &a, std::ptr::null_mut());
    }
}

/// SIGPROF after so many seconds of processor time.
unsafe fn cpu_timer(s: i64) {
    let v: [i64; 4] = [0, 0, s, 0];
    sys::raw6(libc::SYS_setitimer, libc::ITIMER_PROF as i64, v.as_ptr() as i64, 0, 0, 0, 0);
}

extern "C" fn on_signal(s: i32, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        if W.is_null() || w().phase == Phase::Boot && w().plan.cfg.is_none() {
            let m = b"signal while booting\n";
            sys::write(2, m.as_ptr(), m.len());
            if !W.is_null() {
                sys::write(2, w().stderr.as_ptr(), w().stderr.len());
            }
            sys::exit_group(4);
        }
        if FINISHING {
            // the verdict itself failed
            raw_result(&format!("{{\"end\":\"signal\",\"sim_error\":\"signal {} while finishing\"}}", s));
            sys::exit_group(5);
        }
        if s == libc::SIGALRM {
            IN_K = true;
            FINISHING = true;
            raw_result("{\"end\":\"slow\",\"sim_error\":\"the run takes too long\"}");
            sys::exit_group(5);
        }
        if s == libc::SIGPROF {
            // without end is what comes to no scheduling point for seconds
            static mut AGAIN: u32 = 0;
            static mut SEEN: u64 = u64::MAX;
            AGAIN += 1;
            if AGAIN > 50 {
                IN_K = true;
                FINISHING = true;
                raw_result("{\"end\":\"slow\",\"sim_error\":\"the run takes too long\"}");
                sys::exit_group(5);
            }
            if IN_K || SEEN != w().stats.yields {
                cpu_timer(if IN_K { 1 } else { 3 });
                SEEN = w().stats.yields;
                return;
            }
            IN_K = true;
            finish("hang");
        }
        if IN_K && s != libc::SIGABRT {
            FINISHING = true;
            raw_result(&format!("{{\"end\":\"signal\",\"sim_error\":\"signal {} in the simulator\"}}", s));
            sys::exit_group(5);
        }
        let in_k = IN_K;
        IN_K = true;
        if in_k {
            FINISHING = true;
            let t = String::from_utf8_lossy(&w().stderr).to_string();
            raw_result(&format!(
                "{{\"end\":\"signal\",\"sim_error\":{}}}",
                serde_json::to_string(&format!("abort in the simulator: {}", t)).unwrap()
            ));
            sys::exit_group(5);
        }
        w().tags_signal(s);
        finish("crash");
    }
}

impl World {
    fn tags_signal(&mut self, s: i32) {
        let m = format!("<signal {}>", s);
        self.stderr.extend_from_slice(m.as_bytes());
    }
}

unsafe fn raw_result(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(RES_MAX - 4);
    *(RES as *mut u32) = n as u32;
    std::ptr::copy_nonoverlapping(b.as_ptr(), RES.add(4), n);
}

/// Every server thread waits for events: this is the state all runs start in.
pub fn boot_done() {
    unsafe {
        debug_assert!(IN_K);
        w().ready = true;
        if w().plan.cfg.is_some() {
            w().plan.limit = w().plan.cfg.as_ref().and_then(|c| c.expect.clone()).map(|e| e.1).unwrap_or(1);
            if w().plan.cfg.as_ref().unwrap().expect.is_none() || w().listeners.is_empty() {
                finish("done");
            }
            go();
            return;
        }
        w().stderr.clear();
        serve_requests();
        go();
    }
}

/// The template: each request is served by a fork, in which this returns.
unsafe fn serve_requests() {
    let hello = format!("ready {}\n", w().listeners.len());
    IN_K = true;
    sys::write_all(1, hello.as_bytes());
    loop {
        let mut l = [0u8; 4];
        if !sys::read_exact(0, &mut l) {
            sys::exit_group(0);
        }
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        if !sys::read_exact(0, &mut b) {
            sys::exit_group(0);
        }
        *(RES as *mut u32) = 0;
        let lg = &mut *w().dec.log;
        lg.n = 0;
        lg.overflow = 0;
        let pid = sys::raw6(libc::SYS_clone, libc::SIGCHLD as i64, 0, 0, 0, 0, 0);
        if pid == 0 {
            sys::raw6(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as i64, libc::SIGKILL as i64, 0, 0, 0, 0);
            // a run writes nothing to the template's pipes
            let req: Request = match serde_json::from_slice(&b) {
                Ok(r) => r,
                Err(e) => {
                    raw_result(&format!("{{\"end\":\"bad\",\"sim_error\":\"request: {}\"}}", e));
                    sys::exit_group(5);
                }
            };
            drop(b);
            prepare(req);
            return;
        }
        let mut st = 0i32;
        loop {
            let r = sys::raw6(libc::SYS_wait4, pid, &mut st as *mut _ as i64, 0, 0, 0, 0);
            if r != -(libc::EINTR as i64) {
                break;
            }
        }
        let n = *(RES as *const u32) as usize;
        let out = if n > 0 {
            std::slice::from_raw_parts(RES.add(4), n).to_vec()
        } else {
            format!("{{\"end\":\"lost\",\"sim_error\":\"run ended with status {:#x} and no result\"}}", st).into_bytes()
        };
        sys::write_all(1, &(out.len() as u32).to_le_bytes());
        sys::write_all(1, &out);
    }
}

/// What a run is: its plan and its decisions.
unsafe fn prepare(req: Request) {
    let x = w();
    // processor time, so that a loaded machine does not matter
    cpu_timer(if req.wall_s == 0 { 20 } else { req.wall_s as i64 });
    sys::raw6(libc::SYS_alarm, 240, 0, 0, 0, 0, 0);
    x.mark = 0;
    for t in x.threads.iter_mut() {
        t.awake = 0;
    }
    let mut plan = match &req.plan {
        Some(p) => p.clone(),
        None => crate::gen::generate(&req.profile, req.seed, x.cpus, x.plan.limit),
    };
    plan.cpus = x.cpus;
    plan.limit = x.plan.limit;
    plan.boot_seed = x.plan.boot_seed;
    x.trace = req.trace;
    x.stats = Stats::default();
    x.sched_hash = 0;
    x.dec.seed = mix(plan.seed ^ 0xdec1_5107);
    x.dec.quiet = false;
    if let Some(f) = &req.fixed {
        let mut v: Vec<Vec<(u32, u32)>> = vec![vec![]; NK];
        for (k, val) in f {
            let ki = (*k >> 27) as usize;
            if ki < NK {
                v[ki].push((*k & 0x7ff_ffff, *val));
            }
        }
        for l in v.iter_mut() {
            l.sort();
        }
        x.dec.fixed = Some(v);
    }
    if let Some(c) = &plan.cfg {
        for (k, v) in &c.env {
            std::env::set_var(k, v);
        }
        x.cwd = c.cwd.clone();
        x.vfs = c.files.iter().map(|f| (f.path.clone(), f.clone(), unhex(&f.data))).collect();
    }
    x.plan = plan;
    REQ = Some(req);
    crate::alloc::set_limit(1 << 30);
}

/// The server is up: start the clients.
unsafe fn go() {
    let x = w();
    let env = x.plan.env.clone();
    x.phase = Phase::Run;
    x.now += env.uptime_ms * 1_000_000;
    x.t0 = x.now;
    x.af_count = vec![0; env.accept_faults.len()];
    let q = env.quiet_us;
    if q < 3_600_000_000 {
        x.after(q * 1000, Ev::Fault(u32::MAX));
    }
    for (i, j) in env.real_jumps.iter().enumerate() {
        x.after(j.0 * 1000, Ev::Fault(i as u32));
    }
    for f in &env.accept_faults {
        x.faults_end = x.faults_end.max(x.t0 + f.to_us.min(600_000_000) * 1000);
    }
    x.conns = x.plan.conns.iter().enumerate().map(|(i, p)| crate::net::Conn::new(i as u32, p)).collect();
    crate::client::start_all();
    if x.conns.is_empty() {
        x.after(1_000_000_000, Ev::End);
    }
    HOT = true;
}

/// The run is over: judge it, report it, exit.
pub fn finish(reason: &str) -> ! {
    unsafe {
        IN_K = true;
        HOT = false;
        FINISHING = true;
        if w().phase == Phase::Boot && w().plan.cfg.is_none() {
            let m = format!("boot ended: {} {}\n", reason, String::from_utf8_lossy(&w().stderr));
            sys::write_all(2, m.as_bytes());
            sys::exit_group(4);
        }
        cpu_timer(0);
        sys::raw6(libc::SYS_alarm, 120, 0, 0, 0, 0, 0);
        let x = w();
        let req = (*std::ptr::addr_of!(REQ)).clone().unwrap_or_default();
        let mut o = Outcome { end: reason.to_string(), ..Default::default() };
        crate::oracle::judge(x, reason, &mut o);
        o.stats = x.stats.clone();
        o.sched_hash = x.sched_hash;
        o.hist_hash = crate::oracle::hist_hash(x);
        o.sim_ns = x.now - x.t0;
        o.decisions = x.dec.nonzero.iter().sum();
        o.conns = x.conns.len() as u32;
        o.unknown = x.unknown_sys.iter().copied().take(8).collect();
        let lg = &*x.dec.log;
        o.dec_overflow = lg.overflow != 0;
        o.stderr = String::from_utf8_lossy(&x.stderr).chars().take(3000).collect();
        if req.full || !o.viols.is_empty() {
            o.plan = Some(x.plan.clone());
            o.dec = Some(lg.e[..lg.n as usize].to_vec());
        }
        let s = serde_json::to_string(&o).unwrap();
        if s.len() > RES_MAX - 4 {
            o.plan = None;
            o.dec = None;
            o.sim_error = Some("result too large".into());
            raw_result(&serde_json::to_string(&o).unwrap());
        } else {
            raw_result(&s);
        }
        sys::exit_group(0);
    }
}
