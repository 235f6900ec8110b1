//! The orchestrator: seeded search over many runs, confirmation, minimisation
//! and replay of violations, evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::plan::*;
use crate::rng::*;
use crate::run::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Config {
    pub cpus: u8,
    pub limit: u16,
    pub boot_seed: u64,
}

pub struct Template {
    child: Child,
    pub cfg: Config,
}
impl Template {
    pub fn start(cfg: Config, stderr: Option<std::fs::File>) -> Result<Template, String> {
        use std::os::unix::process::CommandExt;
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut c = Command::new(exe);
        c.arg("template")
            .arg(format!("{:03}", cfg.cpus))
            .arg(format!("{:05}", cfg.limit))
            .arg(format!("{:020}", cfg.boot_seed))
            .env_clear()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped());
        match stderr {
            Some(f) => c.stderr(f),
            None => c.stderr(Stdio::inherit()),
        };
        unsafe {
            c.pre_exec(|| {
                // no address-space randomisation, where the sandbox lets us
                crate::sys::raw6(libc::SYS_personality, 0x0040000, 0, 0, 0, 0, 0);
                crate::sys::raw6(
                    libc::SYS_prctl,
                    libc::PR_SET_PDEATHSIG as i64,
                    libc::SIGKILL as i64,
                    0,
                    0,
                    0,
                    0,
                );
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| e.to_string())?;
        let mut l = Vec::new();
        let o = child.stdout.as_mut().unwrap();
        let mut b = [0u8; 1];
        loop {
            match o.read(&mut b) {
                Ok(1) if b[0] != b'\n' => l.push(b[0]),
                Ok(1) => break,
                _ => {
                    let st = child.wait().map(|s| s.to_string()).unwrap_or_default();
                    return Err(format!("the server did not start: {} {}", st, String::from_utf8_lossy(&l)));
                }
            }
        }
        if !l.starts_with(b"ready ") {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("the server did not start: {}", String::from_utf8_lossy(&l)));
        }
        Ok(Template { child, cfg })
    }
    pub fn run(&mut self, r: &Request) -> Result<Outcome, String> {
        let b = serde_json::to_vec(r).unwrap();
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&(b.len() as u32).to_le_bytes()).map_err(|e| e.to_string())?;
        i.write_all(&b).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let o = self.child.stdout.as_mut().unwrap();
        let mut l = [0u8; 4];
        o.read_exact(&mut l).map_err(|e| format!("template ended: {}", e))?;
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        o.read_exact(&mut b).map_err(|e| format!("template ended: {}", e))?;
        #[derive(Deserialize)]
        struct Partial {
            end: String,
            sim_error: Option<String>,
        }
        match serde_json::from_slice::<Outcome>(&b) {
            Ok(o) => Ok(o),
            Err(e) => match serde_json::from_slice::<Partial>(&b) {
                Ok(p) => Ok(Outcome { end: p.end, sim_error: p.sim_error, ..Default::default() }),
                Err(_) => Err(format!("result: {} in {}", e, String::from_utf8_lossy(&b[..b.len().min(300)]))),
            },
        }
    }
}
impl Drop for Template {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn config(prop: &str, seed: u64, batch: u64) -> Config {
    let mut r = Rng::new(mix(seed) ^ mix(batch ^ 0xc0f1) ^ hash(prop));
    let cpus = *r.pick(&[1u8, 2, 2, 2, 3, 4]);
    let limit = match prop {
        "C16" => *r.pick(&[1u16, 1, 2, 2, 3, 3, 5, 18]),
        "C18" => 0, // each run starts the server itself
        "C20" if FOLLOWS_MAIN => *r.pick(&[0u16, 3, 10_000, 10_000, 10_000, 10_000, 10_000]),
        "C19" => *r.pick(&[1u16, 2, 3, 6, 10_000, 10_000, 10_000]),
        _ => 10_000,
    };
    Config { cpus, limit, boot_seed: r.u64() >> 8 }
}
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0x1234, |h, b| mix(h ^ b as u64))
}
fn run_seed(prop: &str, seed: u64, batch: u64, i: u64) -> u64 {
    mix(mix(seed ^ hash(prop)) ^ mix(batch).rotate_left(17) ^ i) >> 8
}

#[derive(Clone, Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub config: Config,
    pub found_by: String,
    pub plan: Plan,
    /// the run's non-zero decisions: kind, how many decisions of that kind came before, value
    pub decisions: Vec<(String, u32, u32)>,
    pub end: String,
    pub hist_hash: u64,
    pub sched_hash: u64,
    pub stderr: String,
}
fn dec_out(d: &[(u32, u32)]) -> Vec<(String, u32, u32)> {
    d.iter().map(|(k, v)| (KNAMES[(*k >> 27) as usize].to_string(), *k & 0x7ff_ffff, *v)).collect()
}
fn dec_in(d: &[(String, u32, u32)]) -> Vec<(u32, u32)> {
    d.iter()
        .filter_map(|(n, i, v)| KNAMES.iter().position(|k| k == n).map(|k| ((k as u32) << 27 | i, *v)))
        .collect()
}

/// A listed finding: `known: property=C16 class=over-limit match=<text>`.
struct Known {
    class: String,
    text: String,
    line: String,
}
fn known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let get = |k: &str| r.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
        if get("property=") != prop {
            continue;
        }
        let text = r.split_once("match=\"").and_then(|x| x.1.split_once('"')).map(|x| x.0.to_string()).unwrap_or_default();
        v.push(Known { class: get("class="), text, line: r.to_string() });
    }
    v
}
fn is_known(k: &[Known], v: &Viol) -> Option<usize> {
    k.iter().position(|k| k.class == v.class && (k.text.is_empty() || v.detail.contains(&k.text)))
}

/// Whether a finding is one against this property. What stops the server or a
/// connection from answering is one against every property, in a workload that
/// the property promises answers for.
pub fn relevant(prop: &str, class: &str) -> bool {
    let of: &[&str] = match class {
        "not-linearizable" | "foreign-value" | "unknown-value" => {
            &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C13", "C14"]
        }
        "reply-after-malformed" => &["C07"],
        "offender-not-closed" => &["C07", "C15"],
        "id-changed" | "id-shared" | "id-order" => &["C09"],
        "entry-id" => &["C09", "C10"],
        "duplicate-entry" => &["C09", "C10", "C12"],
        "bad-entry" | "ghost-entry" => &["C10", "C11", "C12"],
        "entry-name" => &["C10", "C11", "C12"],
        "entry-laddr" => &["C10"],
        "busy-idle" => &["C19"],
        "info-other" => &["C09", "C10", "C11"],
        "missing-entry" => &["C08", "C10"],
        "stale-entry" => &["C10", "C15"],
        "wrong-name" => &["C11", "C12"],
        "over-limit" => &["C16", "C18"],
        "bad-config-served" | "bad-config-ignored" | "wrong-address" => &["C18"],
        "good-config-refused" => &["C18", "C20"],
        "socket-leak" | "memory-leak" | "double-close" => &["C15"],
        _ => return true,
    };
    of.contains(&prop)
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(|x| x.into()).unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Tot {
    runs: u64,
    batches: u64,
    scheds: HashSet<u64>,
    hists: HashSet<u64>,
    seeds: HashSet<u64>,
    stats: BTreeMap<String, u64>,
    checks: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    tags: BTreeMap<String, u64>,
    cpus: BTreeMap<u8, u64>,
    sim_ns: u128,
    conns: u64,
    decisions: u64,
    same: u64,
    diff: Vec<String>,
    errors: Vec<String>,
    unknown: BTreeMap<i64, u64>,
    samples: Vec<serde_json::Value>,
    nontrivial: u64,
    other: BTreeMap<String, u64>,
}

struct Found {
    cfg: Config,
    seed: u64,
    out: Outcome,
    viol: Viol,
    batch: u64,
}

pub fn check(prop: &str) -> i32 {
    if prop == "C18" && !FOLLOWS_MAIN {
        println!("error: the repository's main could not be included in the simulator");
        return 2;
    }
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let budget: u64 = std::env::var("RSIM_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "quick" { 60 } else { 1500 });
    let per: u64 = if tier == "quick" { 60 } else { 200 };
    let workers = std::env::var("RSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let known = known(prop);
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let tot = Arc::new(Mutex::new(Tot::default()));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(vec![]));
    let kseen = Arc::new(Mutex::new(HashSet::<usize>::new()));
    let dl = t0 + Duration::from_secs(budget);
    let boot_err = Arc::new(Mutex::new(Vec::<String>::new()));
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) && Instant::now() < dl {
                    let b = next.fetch_add(1, Ordering::Relaxed);
                    let cfg = config(prop, seed, b);
                    let mut t = match Template::start(cfg, None) {
                        Ok(t) => t,
                        Err(e) => {
                            boot_err.lock().unwrap().push(e);
                            stop.store(true, Ordering::Relaxed);
                            return;
                        }
                    };
                    tot.lock().unwrap().batches += 1;
                    for i in 0..per {
                        if stop.load(Ordering::Relaxed) || Instant::now() >= dl {
                            break;
                        }
                        let rs = run_seed(prop, seed, b, i);
                        let want = i < 2 || (b == 0 && i < 3);
                        let rq = Request { profile: prop.into(), seed: rs, full: want, ..Default::default() };
                        let o = match t.run(&rq) {
                            Ok(o) => o,
                            Err(e) => {
                                tot.lock().unwrap().errors.push(format!("batch {} run {} seed {}: {}", b, i, rs, e));
                                break;
                            }
                        };
                        // the run is a function of its seed, and of its plan
                        // and decisions
                        if i < 2 && o.sim_error.is_none() && o.end != "hang" {
                            let rq2 = if i == 0 {
                                rq.clone()
                            } else {
                                Request { plan: o.plan.clone(), fixed: o.dec.clone(), ..rq.clone() }
                            };
                            if !o.dec_overflow {
                                // now and then in a fresh process
                                let r2 = if i == 0 && b % 4 == 0 {
                                    Template::start(cfg, None).and_then(|mut t| t.run(&rq2))
                                } else {
                                    t.run(&rq2)
                                };
                                if let Ok(o2) = r2 {
                                    let mut g = tot.lock().unwrap();
                                    if o2.hist_hash == o.hist_hash && o2.sched_hash == o.sched_hash && o2.end == o.end {
                                        g.same += 1;
                                    } else {
                                        g.diff.push(format!("{} seed {} {:?} i={}", prop, rs, cfg, i));
                                    }
                                }
                            }
                        }
                        account(&mut tot.lock().unwrap(), &o, rs, cfg, want);
                        if let Some(e) = &o.sim_error {
                            tot.lock().unwrap().errors.push(format!("seed {} {:?}: {}", rs, cfg, e));
                            continue;
                        }
                        for v in &o.viols {
                            if !relevant(prop, &v.class) {
                                *tot.lock().unwrap().other.entry(v.class.clone()).or_default() += 1;
                                continue;
                            }
                            if let Some(k) = is_known(&known, v) {
                                kseen.lock().unwrap().insert(k);
                                continue;
                            }
                            found.lock().unwrap().push(Found { cfg, seed: rs, out: o.clone(), viol: v.clone(), batch: b });
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                }
            });
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let mut tot = Arc::try_unwrap(tot).ok().unwrap().into_inner().unwrap();
    let mut found = Arc::try_unwrap(found).ok().unwrap().into_inner().unwrap();
    let boot_err = Arc::try_unwrap(boot_err).ok().unwrap().into_inner().unwrap();
    found.sort_by_key(|f| (f.viol.class == "server-hang", f.batch, f.seed));
    let mut violation = None;
    for f in found.iter().take(6) {
        match confirm(f, prop) {
            Ok(r) => {
                violation = Some(r);
                break;
            }
            Err(e) => tot.errors.push(format!("seed {} {:?} {}: not reproduced: {}", f.seed, f.cfg, f.viol.class, e)),
        }
    }
    evidence(prop, tier, seed, &tot, wall, violation.is_some() as u64, t0.elapsed().as_secs_f64());
    println!(
        "{}: {} runs, {} schedules, {} histories, {:.0} s simulated, {:.1} s wall, {} replayed identically, {} not",
        prop,
        tot.runs,
        tot.scheds.len(),
        tot.hists.len(),
        tot.sim_ns as f64 / 1e9,
        wall,
        tot.same,
        tot.diff.len()
    );
    for d in tot.diff.iter().take(5) {
        println!("note: not identical on replay: {}", d);
    }
    for (c, n) in &tot.other {
        println!("note: {} runs show {}, which other properties' checks decide", n, c);
    }
    for e in tot.errors.iter().take(5) {
        println!("note: {}", e);
    }
    for (i, k) in known.iter().enumerate() {
        let _ = i;
        println!("KNOWN-FINDING: {}", k.line);
    }
    if let Some(r) = violation {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{:08x}.json", prop, r.class, (r.hist_hash ^ r.sched_hash) as u32));
        std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
        println!("{}: {}", r.class, r.detail);
        println!("VIOLATION property={} replay={}", prop, p.display());
        return 1;
    }
    if !boot_err.is_empty() {
        println!("error: {}", boot_err[0]);
        return 2;
    }
    // a simulator that fails often explored nothing
    if tot.runs == 0 || tot.errors.len() as u64 * 10 > tot.runs {
        println!("error: {} of {} runs failed in the simulator", tot.errors.len(), tot.runs);
        return 2;
    }
    0
}

fn account(t: &mut Tot, o: &Outcome, rs: u64, cfg: Config, sample: bool) {
    t.runs += 1;
    t.seeds.insert(rs);
    t.scheds.insert(o.sched_hash);
    t.hists.insert(o.hist_hash);
    t.sim_ns += o.sim_ns as u128;
    t.conns += o.conns as u64;
    t.decisions += o.decisions;
    *t.cpus.entry(cfg.cpus).or_default() += 1;
    *t.ends.entry(o.end.clone()).or_default() += 1;
    for g in &o.tags {
        *t.tags.entry(g.clone()).or_default() += 1;
    }
    for u in &o.unknown {
        *t.unknown.entry(*u).or_default() += 1;
    }
    for (k, v) in &o.checks {
        let e = t.checks.entry(k.clone()).or_default();
        if k.starts_with("longest") {
            *e = (*e).max(*v);
        } else {
            *e += v;
        }
    }
    if let serde_json::Value::Object(m) = serde_json::to_value(&o.stats).unwrap() {
        for (k, v) in m {
            *t.stats.entry(k).or_default() += v.as_u64().unwrap_or(0);
        }
    }
    if o.stats.requests > 0 && o.checks.values().sum::<u64>() > 0 {
        t.nontrivial += 1;
    }
    if sample && t.samples.len() < 3 {
        if let Some(p) = &o.plan {
            let scripts: Vec<String> = p
                .conns
                .iter()
                .take(6)
                .map(|c| format!("{:?} {}", c.role, format!("{:?}", c.steps).chars().take(300).collect::<String>()))
                .collect();
            t.samples.push(serde_json::json!({
                "seed": rs, "cpus": cfg.cpus, "limit": cfg.limit, "boot_seed": cfg.boot_seed,
                "env": p.env, "connections": p.conns.len(), "scripts": scripts,
                "decisions": o.decisions, "first_decisions": o.dec.as_ref().map(|d| dec_out(&d[..d.len().min(12)])),
                "simulated_ms": o.sim_ns / 1_000_000, "end": o.end, "judged": o.checks,
            }));
        }
    }
}

fn has(o: &Outcome, class: &str) -> Option<Viol> {
    o.viols.iter().find(|v| v.class == class).cloned()
}

/// Run it again, in a fresh process, from the plan and the decisions alone;
/// then make it small.
fn confirm(f: &Found, prop: &str) -> Result<ReplayFile, String> {
    let mut t = Template::start(f.cfg, None)?;
    let class = &f.viol.class;
    let plan = f.out.plan.clone().ok_or("no plan")?;
    let base = Request { profile: prop.into(), seed: f.seed, full: true, wall_s: 30, ..Default::default() };
    let rq = Request {
        plan: Some(plan.clone()),
        fixed: if f.out.dec_overflow { None } else { f.out.dec.clone() },
        ..base.clone()
    };
    let o = t.run(&rq)?;
    let v = has(&o, class).ok_or_else(|| format!("end {} {:?}", o.end, o.viols.first()))?;
    let mut best = (plan, o, v);
    let t1 = Instant::now();
    if class != "server-hang" {
        minimise(&mut t, &base, class, &mut best, Duration::from_secs(60));
    }
    // the file must reproduce it exactly
    let (plan, o, v) = best;
    let mk = |plan: Plan, o: &Outcome, v: &Viol| ReplayFile {
        property: prop.into(),
        class: v.class.clone(),
        detail: v.detail.clone(),
        config: f.cfg,
        found_by: format!("seed {} ({} decisions), minimised in {:.1} s", f.seed, f.out.decisions, t1.elapsed().as_secs_f64()),
        plan,
        decisions: dec_out(o.dec.as_deref().unwrap_or(&[])),
        end: o.end.clone(),
        hist_hash: o.hist_hash,
        sched_hash: o.sched_hash,
        stderr: o.stderr.chars().take(1500).collect(),
    };
    let mut r = mk(plan, &o, &v);
    for _ in 0..3 {
        let (o2, same) = run_replay(&r, None)?;
        let Some(v2) = has(&o2, class) else { break };
        if same {
            return Ok(r);
        }
        // what a fresh process does is what the file says
        r = mk(r.plan.clone(), &o2, &v2);
    }
    // keep the unminimised run
    let v = f.viol.clone();
    Ok(mk(f.out.plan.clone().unwrap(), &f.out, &v))
}

fn minimise(t: &mut Template, base: &Request, class: &str, best: &mut (Plan, Outcome, Viol), lim: Duration) {
    let end = Instant::now() + lim;
    let try_plan = |t: &mut Template, p: &Plan, best: &mut (Plan, Outcome, Viol), seeds: u64| -> bool {
        for s in 0..=seeds {
            let mut p = p.clone();
            let fixed = if s == 0 {
                best.1.dec.clone()
            } else {
                if s > 1 {
                    p.seed = mix(p.seed ^ s) >> 8;
                }
                None
            };
            let rq = Request { plan: Some(p.clone()), fixed, ..base.clone() };
            match t.run(&rq) {
                Ok(o) => {
                    if o.sim_error.is_none() && !o.dec_overflow {
                        if let Some(v) = has(&o, class) {
                            *best = (p, o, v);
                            return true;
                        }
                    }
                }
                Err(_) => {
                    if let Ok(n) = Template::start(t.cfg, None) {
                        *t = n;
                    }
                    return false;
                }
            }
        }
        false
    };
    // fewer faults
    let mut envs: Vec<Box<dyn Fn(&mut Env)>> = vec![];
    envs.push(Box::new(|e| {
        let d = Env { tick_us: e.tick_us, uptime_ms: e.uptime_ms, sndbuf: e.sndbuf, rcvbuf: e.rcvbuf, bound_ms: e.bound_ms, accept_faults: e.accept_faults.clone(), print_fault: e.print_fault, print_fd: e.print_fd, ..Env::default() };
        *e = d;
    }));
    envs.push(Box::new(|e| e.stall = 0));
    envs.push(Box::new(|e| e.delay = 0));
    envs.push(Box::new(|e| e.short_r = 0));
    envs.push(Box::new(|e| e.short_w = 0));
    envs.push(Box::new(|e| e.op_delay = 0));
    envs.push(Box::new(|e| e.eintr = 0));
    envs.push(Box::new(|e| e.drain = 0));
    envs.push(Box::new(|e| e.sock_err = 0));
    envs.push(Box::new(|e| e.accept_err = 0));
    envs.push(Box::new(|e| e.accept_faults.clear()));
    envs.push(Box::new(|e| e.print_fault = None));
    envs.push(Box::new(|e| e.real_jumps.clear()));
    envs.push(Box::new(|e| e.preempt = 0));
    // whole connections
    let mut round = 0;
    loop {
        round += 1;
        let mut any = false;
        let mut n = best.0.conns.len();
        let mut chunk = (n / 2).max(1);
        while chunk >= 1 && n > 1 && Instant::now() < end {
            let mut i = 0;
            while i < best.0.conns.len() && best.0.conns.len() > 1 && Instant::now() < end {
                let mut p = best.0.clone();
                let hi = (i + chunk).min(p.conns.len());
                p.conns.drain(i..hi);
                if !p.conns.is_empty() && try_plan(t, &p, best, 4) {
                    any = true;
                } else {
                    i += chunk;
                }
            }
            n = best.0.conns.len();
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for e in &envs {
            if Instant::now() >= end {
                return;
            }
            let mut p = best.0.clone();
            e(&mut p.env);
            if serde_json::to_string(&p.env).unwrap() != serde_json::to_string(&best.0.env).unwrap() {
                any |= try_plan(t, &p, best, 3);
            }
        }
        // steps, then requests
        for c in 0..best.0.conns.len() {
            let mut chunk = (best.0.conns[c].steps.len() / 2).max(1);
            loop {
                let mut i = 1; // the first step connects
                while i < best.0.conns[c].steps.len() && Instant::now() < end {
                    let mut p = best.0.clone();
                    let hi = (i + chunk).min(p.conns[c].steps.len());
                    p.conns[c].steps.drain(i..hi);
                    if try_plan(t, &p, best, 2) {
                        any = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            for s in 0..best.0.conns[c].steps.len() {
                let Step::Send(r) = &best.0.conns[c].steps[s] else { continue };
                let mut chunk = (r.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    loop {
                        let Some(Step::Send(r)) = best.0.conns[c].steps.get(s) else { break };
                        if i >= r.len() || r.len() <= 1 || Instant::now() >= end {
                            break;
                        }
                        let mut p = best.0.clone();
                        if let Step::Send(r) = &mut p.conns[c].steps[s] {
                            let hi = (i + chunk).min(r.len());
                            if hi - i == r.len() {
                                break;
                            }
                            r.drain(i..hi);
                        }
                        if try_plan(t, &p, best, 2) {
                            any = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
            if best.0.conns[c].seg != 0 {
                let mut p = best.0.clone();
                p.conns[c].seg = 0;
                any |= try_plan(t, &p, best, 2);
            }
        }
        if !any || round > 4 || Instant::now() >= end {
            break;
        }
    }
    // decisions: delta debugging over the sparse list
    let Some(mut dec) = best.1.dec.clone() else { return };
    let mut n = 2usize;
    while !dec.is_empty() && Instant::now() < end + lim / 2 {
        let chunk = dec.len().div_ceil(n);
        let mut cut = false;
        let mut i = 0;
        while i < dec.len() && Instant::now() < end + lim / 2 {
            let hi = (i + chunk).min(dec.len());
            let mut d = dec.clone();
            d.drain(i..hi);
            let rq = Request { plan: Some(best.0.clone()), fixed: Some(d.clone()), ..base.clone() };
            match t.run(&rq) {
                Ok(o) if o.sim_error.is_none() => {
                    if let Some(v) = has(&o, class) {
                        // what was really taken is what counts
                        dec = o.dec.clone().unwrap_or(d);
                        best.1 = o;
                        best.2 = v;
                        cut = true;
                        continue;
                    }
                }
                Ok(_) => {}
                Err(_) => match Template::start(t.cfg, None) {
                    Ok(x) => *t = x,
                    Err(_) => return,
                },
            }
            i = hi;
        }
        if !cut {
            if chunk <= 1 {
                break;
            }
            n = (n * 2).min(dec.len().max(2));
        } else {
            n = n.max(2);
        }
    }
}

fn run_replay(r: &ReplayFile, stderr: Option<std::fs::File>) -> Result<(Outcome, bool), String> {
    let trace = stderr.is_some();
    let mut t = Template::start(r.config, stderr)?;
    let rq = Request {
        plan: Some(r.plan.clone()),
        profile: r.property.clone(),
        seed: r.plan.seed,
        fixed: Some(dec_in(&r.decisions)),
        trace,
        full: true,
        wall_s: 30,
    };
    let o = t.run(&rq)?;
    let same = o.hist_hash == r.hist_hash && o.sched_hash == r.sched_hash && o.end == r.end;
    Ok((o, same))
}

pub fn replay(f: &str, trace: bool) -> i32 {
    let Ok(b) = std::fs::read_to_string(f) else {
        println!("cannot read {}", f);
        return 2;
    };
    let r: ReplayFile = match serde_json::from_str(&b) {
        Ok(r) => r,
        Err(e) => {
            println!("{}: {}", f, e);
            return 2;
        }
    };
    let err = if trace { std::fs::File::create(format!("{}.trace", f)).ok() } else { None };
    match run_replay(&r, err) {
        Err(e) => {
            println!("error: {}", e);
            2
        }
        Ok((o, same)) => {
            println!("end {} hist {:x} sched {:x}{}", o.end, o.hist_hash, o.sched_hash, if same { " (identical)" } else { "" });
            for v in &o.viols {
                println!("{}: {}", v.class, v.detail);
            }
            if let Some(e) = &o.sim_error {
                println!("simulator: {}", e);
                return 2;
            }
            if has(&o, &r.class).is_some() {
                println!("VIOLATION property={} replay={}", r.property, f);
                1
            } else {
                0
            }
        }
    }
}

pub fn one(a: &[String]) -> i32 {
    let n: Vec<&String> = a.iter().filter(|x| !x.starts_with("--")).collect();
    let has = |f: &str| a.iter().any(|x| x == f);
    let g = |i: usize, d: u64| n.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let limit = match n[0].as_str() {
        "C16" => 2,
        "C18" => 0,
        _ => 10000,
    };
    let cfg = Config { cpus: g(2, 2) as u8, limit: g(3, limit) as u16, boot_seed: g(4, 7) };
    let mut t = match Template::start(cfg, None) {
        Ok(t) => t,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let count = a.iter().position(|x| x == "--n").and_then(|i| a[i + 1].parse().ok()).unwrap_or(1u64);
    let t0 = Instant::now();
    for k in 0..count {
        let rq = Request {
            profile: n[0].clone(),
            seed: g(1, 1) + k,
            trace: has("--trace"),
            full: has("--plan"),
            ..Default::default()
        };
        match t.run(&rq) {
            Ok(o) => {
                println!(
                    "seed {} end {} viols {:?} err {:?} sched {:x} hist {:x} sim {} ms dec {} yields {} sys {} req {} rep {} checks {:?} unk {:?} tags {:?}\n{}",
                    rq.seed, o.end, o.viols, o.sim_error, o.sched_hash, o.hist_hash, o.sim_ns / 1_000_000, o.decisions,
                    o.stats.yields, o.stats.syscalls, o.stats.requests, o.stats.replies, o.checks, o.unknown, o.tags, o.stderr
                );
                if has("--plan") {
                    println!("{:?}", o.plan);
                }
            }
            Err(e) => {
                println!("{}", e);
                return 2;
            }
        }
    }
    eprintln!("{:.3} s", t0.elapsed().as_secs_f64());
    0
}

fn evidence(prop: &str, tier: &str, seed: u64, t: &Tot, wall: f64, viol: u64, total: f64) {
    let s = |k: &str| t.stats.get(k).copied().unwrap_or(0);
    let per_h = if wall > 0.0 { (t.runs as f64 * 3600.0 / wall) as u64 } else { 0 };
    let j = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.scheds.len() as u64 - (t.scheds.contains(&0) as u64),
            "rule": "one evaluation is one simulated execution of the whole server under one seed: the seed generates the client scripts and the fault environment and answers every scheduling, timing, network and I/O question; two executions are distinct when the sequence of (scheduling point, thread chosen) differs, and non-trivial when at least one switch between server threads or client events happened and the oracle judged at least one reply",
            "samples": t.samples,
            "distinct_client_histories": t.hists.len(),
            "distinct_seeds": t.seeds.len(),
            "executions_with_judged_replies": t.nontrivial,
            "server_boots": t.batches,
            "seeds_per_hour": per_h,
            "simulated_seconds": t.sim_ns / 1_000_000_000,
            "connections": t.conns,
            "requests_sent": s("requests"),
            "replies_received": s("replies"),
            "scheduling_points": s("yields"),
            "thread_switches": s("switches"),
            "system_calls_simulated": s("syscalls"),
            "io_uring_operations": s("sqes"),
            "nonzero_decisions": t.decisions,
            "faults_injected": {
                "preemptions": s("preempts"), "thread_stalls": s("stalls"), "forced_switches": s("forced"),
                "short_receives": s("short_reads"), "short_sends": s("short_writes"), "blocked_sends": s("blocked_writes"),
                "late_io_completions": s("op_delays"), "interrupted_waits": s("eintrs"), "spurious_wakeups": s("spurious"),
                "late_segments": s("net_delays"), "segment_cuts": s("cuts"),
                "client_resets": s("resets"), "silent_network_deaths": s("dead"), "client_half_closes": s("half_closes"),
                "client_closes": s("closes"), "stalled_or_slow_readers": s("reader_stalls"),
                "accept_errors": s("accept_errors"), "socket_setup_errors": s("sockopt_errors"), "failed_or_blocked_prints": s("print_faults"),
                "real_clock_jumps": s("real_jumps"), "malformed_requests": s("malformed"),
                "file_open_errors": s("file_open_errors"), "file_read_errors": s("file_read_errors"),
                "short_file_reads": s("file_short_reads"), "interrupted_file_reads": s("file_eintrs"), "set_up_errors_while_starting": s("boot_faults"),
            },
            "judged": t.checks,
            "ends": t.ends,
            "plan_shapes": t.tags,
            "server_threads_used": t.cpus,
            "replayed_identically": t.same,
            "replayed_differently": t.diff.len(),
            "findings_other_checks_decide": t.other,
            "simulator_errors": t.errors.len(),
            "system_calls_not_simulated": t.unknown,
            "real_code": "roster (whole server: accept loops, supervisor, connection tasks, parser, commands, storage, configuration), monoio's io_uring driver, executor and timers, scc, sdd, futures-locks, flume, local-sync, coarsetime, sharded-thread, the Rust standard library",
            "stubbed": "the Linux kernel below libc: io_uring, TCP, futex, clocks, getrandom, thread scheduling, CPU affinity; the clients",
        },
        "assumptions": [
            "sequentially consistent memory: every atomic operation of the instrumented crates is a scheduling point, weaker orderings are not explored",
            "non-atomic memory accesses are not scheduling points",
            "the simulated io_uring and TCP behave as Linux documents them",
        ],
        "wall_s": (total * 100.0).round() / 100.0,
        "violations": viol,
    });
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", prop)), serde_json::to_string_pretty(&j).unwrap());
}
