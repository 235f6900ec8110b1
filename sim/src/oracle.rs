//! The judges: invariants over the recorded history of a run, against small
//! reference models. They see what clients see (bytes and when they moved),
//! plus the simulated kernel's view of sockets and memory; never the code.
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::net::Conn;
use crate::plan::*;
use crate::resp::{self, V};
use crate::rng::mix;
use crate::run::{Outcome, Viol};
use crate::world::World;

struct J<'a> {
    x: &'a World,
    v: Vec<Viol>,
    n: BTreeMap<String, u64>,
}
impl J<'_> {
    fn bad(&mut self, class: &str, detail: String) {
        if self.v.len() < 8 && !self.v.iter().any(|v| v.class == class) {
            self.v.push(Viol { class: class.into(), detail: detail.chars().take(1500).collect() });
        }
    }
    fn count(&mut self, k: &str, n: u64) {
        *self.n.entry(k.into()).or_insert(0) += n;
    }
}

/// Names a client can set; anything else must be refused or kept harmless.
pub fn plain_name(n: &str) -> bool {
    n.bytes().all(|b| b > 0x20 && b < 0x7f)
}

fn h(b: &[u8]) -> u64 {
    let mut a = b.len() as u64 + 1;
    for c in b.chunks(8) {
        let mut t = [0u8; 8];
        t[..c.len()].copy_from_slice(c);
        a = mix(a ^ u64::from_le_bytes(t));
    }
    a
}

pub fn hist_hash(x: &World) -> u64 {
    let mut a = x.now;
    for k in &x.conns {
        for r in &k.reqs {
            for s in [r.sent, r.arr, r.first, r.done] {
                a = mix(a ^ s.map(|s| s.s ^ (s.t << 20)).unwrap_or(3));
            }
            if let Some(v) = &r.reply {
                a = mix(a ^ h(format!("{:?}", v).as_bytes()));
            }
        }
        for s in [k.accepted, k.released, k.eof, k.reset, k.first_send] {
            a = mix(a ^ s.map(|s| s.s).unwrap_or(7));
        }
    }
    a
}

/// How many of a connection's requests precede the first malformed one.
fn valid_prefix(p: &ConnPlan, k: &Conn) -> usize {
    let _ = p;
    k.reqs.iter().position(|r| matches!(r.req, Req::Bad(_) | Req::Raw(_))).unwrap_or(k.reqs.len())
}

pub fn judge(x: &World, reason: &str, o: &mut Outcome) {
    let mut j = J { x, v: vec![], n: BTreeMap::new() };
    if x.plan.cfg.is_some() {
        startup(&mut j, reason);
    }
    let starting = match &x.plan.cfg {
        Some(c) => !x.ready || c.expect.is_none() || c.may_end && matches!(reason, "server-exit-error" | "crash"),
        None => false,
    };
    match reason {
        _ if starting => {}
        "crash" => {
            let t = String::from_utf8_lossy(&x.stderr).to_string();
            let i = t.rfind("panicked at").map(|i| t[..i].rfind("thread").unwrap_or(i)).unwrap_or(t.len().saturating_sub(300));
            let i = (0..=i).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
            j.bad("server-crash", format!("the server process died: {}", t[i..].trim()));
        }
        "hang" => j.bad("server-hang", "a server thread runs without end and without any system call".into()),
        "livelock" => j.bad("server-livelock", "the server runs without end and makes no progress".into()),
        "busy" => {
            let n = x.idles.last().unwrap();
            j.bad(
                "busy-idle",
                format!("the server's threads ran for {} of {} us although there was nothing they could do", n.2 / 1000, n.1 / 1000),
            );
        }
        "exhausted" => j.count("runs_cut_short", 1),
        "server-exit" | "server-exit-error" => j.bad("server-exit", "all server threads ended".into()),
        _ => {}
    }
    let dead = !matches!(reason, "done" | "idle");
    j.count("idle_times_judged", x.idles.len() as u64);
    let top = x.idles.iter().map(|n| n.2 * 1000 / n.1.max(1)).max().unwrap_or(0);
    j.count("longest_busy_permille", top);
    for (i, k) in x.conns.iter().enumerate() {
        conn(&mut j, i, k, dead);
    }
    names_and_lists(&mut j);
    ids(&mut j);
    keyspace(&mut j);
    limit(&mut j);
    if !dead {
        resources(&mut j);
    }
    if x.ebadf_close > 0 {
        j.bad("double-close", format!("{} close() calls on a descriptor that was not open", x.ebadf_close));
    }
    if x.plan.env.uptime_ms > 0 {
        j.count("runs", 1);
        if x.plan.env.print_fault.is_some() {
            j.count("runs_with_output_lost", 1);
        }
    }
    o.viols = j.v;
    o.checks = j.n;
}

// ------------------------------------------------------------- starting up

fn address(a: (u128, u16)) -> String {
    if a.0 >> 32 == 0xffff {
        std::net::SocketAddr::from((std::net::Ipv4Addr::from(a.0 as u32), a.1)).to_string()
    } else {
        std::net::SocketAddr::from((std::net::Ipv6Addr::from(a.0), a.1)).to_string()
    }
}

/// The server does what its configuration says, or does not start.
fn startup(j: &mut J, reason: &str) {
    let x = j.x;
    let c = x.plan.cfg.as_ref().unwrap();
    let on: Vec<String> = x.listened.iter().map(|a| address(*a)).collect();
    let end = |x: &World| -> String {
        let t = String::from_utf8_lossy(&x.stderr).to_string();
        t.chars().take(400).collect::<String>().replace('\n', " | ")
    };
    match &c.expect {
        None => {
            if let Some(a) = on.first() {
                j.bad("bad-config-served", format!("{}: the server listens on {} instead of refusing to start", c.what, a));
            } else if reason == "server-exit" {
                j.bad("bad-config-ignored", format!("{}: the program ends with success", c.what));
            } else if !matches!(reason, "server-exit-error" | "crash") {
                j.bad("bad-config-ignored", format!("{}: the program does not end ({})", c.what, reason));
            }
            j.count("refusals_judged", 1);
        }
        Some(_) if c.may_end && matches!(reason, "server-exit-error" | "crash") => j.count("refusals_judged", 1),
        Some((a, l)) => {
            if !x.ready || on.is_empty() {
                j.bad(
                    "good-config-refused",
                    format!("{}: the server should listen on {} with at most {} connections, but does not start ({}): {}", c.what, a, l, reason, end(x)),
                );
                return;
            }
            for o in &on {
                if o != a {
                    j.bad("wrong-address", format!("{}: the server listens on {} instead of {}", c.what, o, a));
                }
            }
            j.count("starts_judged", 1);
        }
    }
}

// ------------------------------------------------------- one connection

fn text(v: &V) -> Option<&[u8]> {
    match v {
        V::S(b) | V::B(b) => Some(b),
        _ => None,
    }
}

pub fn fields(b: &[u8]) -> Option<BTreeMap<String, String>> {
    let s = std::str::from_utf8(b).ok()?;
    let mut m = BTreeMap::new();
    for f in s.trim_end().split(' ') {
        let (k, v) = f.split_once('=')?;
        if m.insert(k.to_string(), v.to_string()).is_some() {
            return None;
        }
    }
    Some(m)
}

/// Does the reply have the form its request calls for? (The contents of GET,
/// CLIENT INFO, LIST, GETNAME are judged elsewhere.)
fn fits(r: &Req, v: &V) -> bool {
    match r {
        Req::Ping => *v == V::S(b"PONG".to_vec()),
        Req::PingMsg(m) => *v == V::B(m.bytes()),
        Req::Hello => hello_id(v).is_some(),
        Req::Set(..) | Req::SetInfo(..) => *v == V::S(b"OK".to_vec()),
        Req::Get(_) | Req::GetName => matches!(v, V::B(_) | V::Null),
        Req::Id => matches!(v, V::I(n) if *n >= 0),
        Req::Info => text(v).map(|b| fields(b).is_some()).unwrap_or(false),
        Req::List | Req::ListBy(_) => match v {
            V::A(a) => a.iter().all(|e| text(e).is_some()),
            _ => false,
        },
        Req::SetName(n) => {
            if n.is_empty() || plain_name(n) {
                *v == V::S(b"OK".to_vec())
            } else {
                matches!(v, V::E(_)) || *v == V::S(b"OK".to_vec())
            }
        }
        Req::Help | Req::ClientNone => matches!(v, V::A(a) if a.iter().all(|e| text(e).is_some())),
        Req::AclCat | Req::AclCatOf(_) => true,
        Req::Unknown(..) | Req::UnknownSub(..) => matches!(v, V::E(_)),
        Req::Bad(_) | Req::Raw(_) => false,
    }
}

fn hello_id(v: &V) -> Option<i64> {
    let m: Vec<(&V, &V)> = match v {
        V::M(m) => m.iter().map(|(a, b)| (a, b)).collect(),
        V::A(a) if a.len() % 2 == 0 => a.chunks(2).map(|c| (&c[0], &c[1])).collect(),
        _ => return None,
    };
    let server = m.iter().any(|(k, v)| text(k) == Some(b"server") && text(v) == Some(b"roster"));
    let id = m.iter().find(|(k, _)| text(k) == Some(b"id"));
    match (server, id) {
        (true, Some((_, V::I(n)))) => Some(*n),
        _ => None,
    }
}

/// A reply as the bytes the strict reader saw; used in reports.
fn rq(r: &Req) -> String {
    let s = format!("{:?}", r);
    s.chars().take(120).collect()
}

/// When faults are over (the start of the run, if there is no such time).
fn x_quiet(x: &World) -> u64 {
    let q = x.plan.env.quiet_us;
    x.faults_end.max(if q < 3_600_000_000 { x.t0 + q * 1000 } else { 0 })
}

fn conn(j: &mut J, i: usize, k: &Conn, dead: bool) {
    let p = &j.x.plan.conns[i];
    let lim = match p.role {
        Role::Filler => k.reqs.len(),
        // (a good client may end with an incomplete request)
        _ => valid_prefix(p, k),
    };
    if p.role != Role::Filler {
        if let Some(e) = &k.proto_err {
            j.bad("malformed-reply", format!("conn {}: {}", i, e));
            return;
        }
    }
    if matches!(p.role, Role::Good | Role::Offender) {
        for (n, r) in k.reqs.iter().enumerate() {
            if n >= lim {
                if let Some(v) = &r.reply {
                    j.bad(
                        "reply-after-malformed",
                        format!(
                            "conn {}: reply {} to request {} ({}), which is not before the malformed request {}",
                            i,
                            resp::short(v),
                            n,
                            rq(&r.req),
                            lim
                        ),
                    );
                } else if r.first.is_some() {
                    j.bad("reply-after-malformed", format!("conn {}: bytes of a reply to the malformed request", i));
                }
                break;
            }
            match &r.reply {
                Some(v) => {
                    j.count("replies_judged", 1);
                    if !fits(&r.req, v) {
                        j.bad(
                            "wrong-reply",
                            format!("conn {}: request {} {} got {}", i, n, rq(&r.req), resp::short(v)),
                        );
                        return;
                    }
                    if let (Some(a), Some(d)) = (r.arr, r.done) {
                        let q = x_quiet(j.x);
                        let from = a.t.max(q).max(if n > 0 { k.reqs[n - 1].done.map(|d| d.t).unwrap_or(0) } else { 0 });
                        let ms = d.t.saturating_sub(from) / 1_000_000;
                        let e = j.n.entry("longest_reply_ms".into()).or_insert(0);
                        *e = (*e).max(ms);
                    }
                    if r.arr.is_none() {
                        j.bad(
                            "early-reply",
                            format!("conn {}: request {} {} answered before it had arrived", i, n, rq(&r.req)),
                        );
                    }
                }
                None => break,
            }
        }
        if let Some(e) = &k.extra {
            j.bad("extra-reply", format!("conn {}: bytes that answer no request: {}", i, e));
        }
    }
    if dead || k.faulted {
        return;
    }
    match p.role {
        Role::Good => {
            if let Some((step, out, t)) = k.timed_out {
                if k.paused || matches!(p.steps.get(step), Some(Step::Eof)) && k.half.is_none() {
                    return; // it did not let the server do anything
                }
                j.bad(
                    "no-progress",
                    format!(
                        "conn {}: still waiting at step {} ({:?}) after {} ms, {} requests unanswered, next {}{}",
                        i,
                        step,
                        p.steps.get(step).map(|s| format!("{:?}", s).chars().take(80).collect::<String>()),
                        t.saturating_sub(k.wait_since.max(k.progress).max(k.last_t)) / 1_000_000,
                        out,
                        k.reqs.get(k.next_reply).map(|r| rq(&r.req)).unwrap_or_default(),
                        if k.accepted.is_none() { " (never accepted)" } else { "" }
                    ),
                );
                return;
            }
            if k.refused {
                j.bad("refused", format!("conn {}: connection refused", i));
                return;
            }
            let server_end = k.eof.or(k.reset);
            if let Some(e) = server_end {
                let half = k.half.map(|h| h.s < e.s).unwrap_or(false);
                let full = k.ended.map(|h| h.0 != 'h' && h.1.s < e.s).unwrap_or(false);
                if !half && !full {
                    j.bad(
                        "dropped",
                        format!(
                            "conn {}: the server ended the connection ({}) although the client sent only valid requests; {} of {} answered",
                            i,
                            if k.reset.is_some() { "reset" } else { "closed" },
                            k.next_reply,
                            k.reqs.len()
                        ),
                    );
                    return;
                }
                if half && k.next_reply < lim {
                    j.bad(
                        "unanswered-half-close",
                        format!(
                            "conn {}: closed after {} of {} requests sent before end of stream were answered; next {}",
                            i,
                            k.next_reply,
                            lim,
                            rq(&k.reqs[k.next_reply].req)
                        ),
                    );
                    return;
                }
                if half {
                    j.count("half_closes_judged", 1);
                }
            }
        }
        Role::Offender => {
            if let Some((step, _, t)) = k.timed_out {
                if k.paused || lim >= k.reqs.len() && matches!(p.steps.get(step), Some(Step::Eof)) {
                    return;
                }
                if lim < k.reqs.len() && k.reqs[lim].arr.is_some() {
                    j.bad(
                        "offender-not-closed",
                        format!(
                            "conn {}: {} ms after the malformed request {} the connection is still open (step {})",
                            i,
                            t.saturating_sub(k.wait_since.max(k.progress).max(k.last_t)) / 1_000_000,
                            rq(&k.reqs[lim].req),
                            step
                        ),
                    );
                } else {
                    j.bad("no-progress", format!("conn {}: no reply to valid requests for {} ms", i, t.saturating_sub(k.wait_since.max(k.progress).max(k.last_t)) / 1_000_000));
                }
            } else if k.eof.is_some() || k.reset.is_some() {
                j.count("offenders_closed", 1);
            }
        }
        _ => {}
    }
}

// -------------------------------------------------------- names, listings

/// The connection's id as it was told, from any command.
fn own_ids(x: &World, i: usize) -> Vec<(i64, u64)> {
    let k = &x.conns[i];
    let mut v = vec![];
    if x.plan.conns[i].role == Role::Hostile {
        return v;
    }
    for r in &k.reqs {
        match (&r.req, &r.reply) {
            (Req::Id, Some(V::I(n))) => v.push((*n, r.done.unwrap().s)),
            (Req::Hello, Some(m)) => {
                if let Some(n) = hello_id(m) {
                    v.push((n, r.done.unwrap().s));
                }
            }
            (Req::Info, Some(m)) => {
                if let Some(n) = text(m).and_then(fields).and_then(|f| f.get("id").and_then(|s| s.parse().ok())) {
                    v.push((n, r.done.unwrap().s));
                }
            }
            _ => {}
        }
    }
    v
}

fn ids(j: &mut J) {
    let x = j.x;
    let mut by: HashMap<i64, usize> = HashMap::new();
    let mut known: Vec<Option<i64>> = vec![None; x.conns.len()];
    for i in 0..x.conns.len() {
        for (n, _) in own_ids(x, i) {
            j.count("ids_judged", 1);
            match known[i] {
                None => known[i] = Some(n),
                Some(m) if m != n => {
                    j.bad("id-changed", format!("conn {} was told id {} and id {}", i, m, n));
                    return;
                }
                _ => {}
            }
        }
        if let Some(n) = known[i] {
            if let Some(o) = by.insert(n, i) {
                j.bad("id-shared", format!("conns {} and {} both have id {}", o, i, n));
                return;
            }
        }
    }
    // who was answered first, and the greatest id of those so far
    let mut told: Vec<(u64, i64, usize)> = vec![];
    let mut open: Vec<(u64, i64, usize)> = vec![];
    for c in 0..x.conns.len() {
        let Some(id) = known[c] else { continue };
        if let Some(f) = x.conns[c].reqs.iter().filter_map(|r| r.done).next() {
            told.push((f.s, id, c));
        }
        if let Some(o) = x.conns[c].opened {
            open.push((o.s, id, c));
        }
    }
    told.sort();
    open.sort();
    let mut t = 0;
    let mut top: Option<(i64, usize)> = None;
    for (at, ib, b) in open {
        while t < told.len() && told[t].0 < at {
            if top.map(|m| m.0 < told[t].1).unwrap_or(true) {
                top = Some((told[t].1, told[t].2));
            }
            t += 1;
        }
        if let Some((ia, a)) = top {
            j.count("id_orders_judged", 1);
            if ia >= ib {
                j.bad("id-order", format!("conn {} (id {}) was answered before conn {} (id {}) was opened", a, ia, b, ib));
                return;
            }
        }
    }
}

/// What SETNAME requests may have left as the name of connection `c` between
/// the history positions `lo` and `hi`.
fn possible_names(x: &World, c: usize, lo: u64, hi: u64) -> (Vec<String>, bool) {
    let k = &x.conns[c];
    let mut cur: Vec<String> = vec!["".into()];
    let mut fuzzy = x.plan.conns[c].role == Role::Hostile;
    let lim = valid_prefix(&x.plan.conns[c], k);
    for r in k.reqs.iter().take(lim) {
        let Req::SetName(n) = &r.req else { continue };
        let (Some(a), ret) = (r.arr, r.first.map(|s| s.s).unwrap_or(u64::MAX)) else { continue };
        if a.s > hi {
            break;
        }
        let plain = n.is_empty() || plain_name(n);
        if !plain {
            if matches!(r.reply, Some(V::E(_))) {
                continue;
            }
            // accepted in some harmless form, or not known: any name is fine
            if ret < lo {
                fuzzy = true;
            } else {
                fuzzy = true;
                cur.push(n.clone());
            }
            continue;
        }
        if ret < lo {
            cur = vec![n.clone()];
            fuzzy = x.plan.conns[c].role == Role::Hostile;
        } else {
            cur.push(n.clone());
        }
    }
    (cur, fuzzy)
}

fn entry(j: &mut J, what: &str, b: &[u8], lo: u64, hi: u64, by_addr: &HashMap<String, Vec<usize>>, known: &[Option<i64>]) -> Option<usize> {
    let Some(f) = fields(b) else {
        j.bad("bad-entry", format!("{}: cannot be read as fields: {:?}", what, String::from_utf8_lossy(b)));
        return None;
    };
    let id = f.get("id").and_then(|s| s.parse::<i64>().ok());
    let Some(v) = f.get("addr").and_then(|a| by_addr.get(a)) else {
        j.bad("ghost-entry", format!("{}: no such connection: {:?}", what, String::from_utf8_lossy(b)));
        return None;
    };
    // several connections had this address, one after the other
    let c = v.iter().copied().find(|c| v.len() == 1 || known[*c].is_some() && known[*c] == id);
    let c = c.or_else(|| v.iter().copied().find(|c| known[*c].is_none())).unwrap_or(*v.last().unwrap());
    j.count("entries_judged", 1);
    if id.is_none() || known[c].is_some() && known[c] != id {
        j.bad(
            "entry-id",
            format!("{}: conn {} has id {:?} but the entry says {:?}", what, c, known[c], f.get("id")),
        );
    }
    // how an IPv6 address is shown is open
    let (ip, port) = crate::net::served_at(c as u32);
    let la = format!("{}:{}", std::net::Ipv4Addr::from(ip as u32), port);
    if ip >> 32 == 0xffff && f.get("laddr") != Some(&la) {
        j.bad("entry-laddr", format!("{}: laddr {:?}, expected {}", what, f.get("laddr"), la));
    }
    let (names, fuzzy) = possible_names(j.x, c, lo, hi);
    let n = f.get("name").cloned().unwrap_or_default();
    if !fuzzy && !names.contains(&n) {
        j.bad("entry-name", format!("{}: conn {} shown with name {:?}, possible {:?}", what, c, n, names));
    }
    Some(c)
}

fn names_and_lists(j: &mut J) {
    let x = j.x;
    let mut by_addr: HashMap<String, Vec<usize>> = HashMap::new();
    let mut known: Vec<Option<i64>> = vec![];
    for (i, k) in x.conns.iter().enumerate() {
        by_addr.entry(crate::uring::client_addr(k)).or_default().push(i);
        known.push(own_ids(x, i).first().map(|v| v.0));
    }
    let b_ns = 3_000_000_000u64 + 40 * x.plan.env.stall_max_us as u64 * 1000;
    for (i, k) in x.conns.iter().enumerate() {
        if !matches!(x.plan.conns[i].role, Role::Good | Role::Offender) {
            continue;
        }
        let mut name: Option<String> = Some(String::new());
        for (n, r) in k.reqs.iter().enumerate() {
            let (Some(v), Some(first), Some(done), Some(arr)) = (&r.reply, r.first, r.done, r.arr) else {
                continue;
            };
            match (&r.req, v) {
                (Req::SetName(s), V::S(_)) => {
                    name = if s.is_empty() || plain_name(s) { Some(s.clone()) } else { None };
                }
                (Req::SetName(s), V::E(_)) if s.is_empty() || plain_name(s) => {}
                (Req::GetName, g) => {
                    let ok = match (&name, g) {
                        (None, _) => true,
                        (Some(s), V::Null) => s.is_empty(),
                        (Some(s), V::B(b)) => !s.is_empty() && s.as_bytes() == &b[..],
                        _ => false,
                    };
                    j.count("names_judged", 1);
                    if !ok {
                        j.bad(
                            "wrong-name",
                            format!("conn {}: GETNAME (request {}) gave {}, expected {:?}", i, n, resp::short(g), name),
                        );
                    }
                }
                (Req::Info, m) => {
                    let Some(b) = text(m) else { continue };
                    let what = format!("conn {}: CLIENT INFO (request {})", i, n);
                    let c = entry(j, &what, b, arr.s, done.s, &by_addr, &known);
                    if let Some(c) = c {
                        if c != i {
                            j.bad("info-other", format!("{} describes conn {}", what, c));
                        }
                    }
                    if let (Some(nm), Some(f)) = (&name, fields(b)) {
                        if f.get("name").map(|s| s != nm).unwrap_or(true) {
                            j.bad("entry-name", format!("{} shows name {:?}, expected {:?}", what, f.get("name"), nm));
                        }
                    }
                }
                (Req::List | Req::ListBy(_), V::A(a)) => {
                    let all = r.req == Req::List;
                    let what = format!("conn {}: CLIENT LIST (request {})", i, n);
                    let mut seen: HashSet<usize> = HashSet::new();
                    let mut idseen: HashSet<String> = HashSet::new();
                    j.count("lists_judged", 1);
                    for e in a {
                        let Some(b) = text(e) else { continue };
                        let c = entry(j, &what, b, arr.s, done.s, &by_addr, &known);
                        let Some(c) = c else { return };
                        if !seen.insert(c) {
                            j.bad("duplicate-entry", format!("{} lists conn {} twice", what, c));
                            return;
                        }
                        if let Some(f) = fields(b) {
                            if !idseen.insert(f.get("id").cloned().unwrap_or_default()) {
                                j.bad("duplicate-entry", format!("{} lists id {:?} twice", what, f.get("id")));
                                return;
                            }
                        }
                    }
                    for (y, m) in x.conns.iter().enumerate() {
                        // must it be there?
                        let open = listed_until(x, y);
                        if let (Some(f), Some(until)) = (m.first_send, open) {
                            if all && f.s < r.sent.unwrap().s && done.s < until {
                                j.count("listed_judged", 1);
                                if !seen.contains(&y) {
                                    j.bad(
                                        "missing-entry",
                                        format!("{} does not list conn {}, which was answered before and is open", what, y),
                                    );
                                    return;
                                }
                            }
                        }
                        // must it not be there?
                        let mut over: Option<u64> = None;
                        if m.ended.map(|e| e.0 != 'h').unwrap_or(false) {
                            // it may have been over before the server got to
                            // it; how long it waits to be served when the
                            // limit is reached is up to the other clients
                            over = match (m.end_at_server, m.accepted) {
                                (Some(e), Some(a)) if x.conns.len() <= x.plan.limit as usize => Some(e.max(a.t)),
                                _ => None,
                            };
                        }
                        if let Some(t) = m.released {
                            over = Some(over.map(|o| o.min(t.t)).unwrap_or(t.t));
                        }
                        let never = m.opened.map(|o| o.s > done.s).unwrap_or(true);
                        let sent = r.sent.unwrap();
                        if never && seen.contains(&y) {
                            j.bad("ghost-entry", format!("{} lists conn {}, which is not open yet", what, y));
                            return;
                        }
                        if let Some(t) = over {
                            if sent.t > t.max(0) + b_ns && t < sent.t {
                                j.count("gone_judged", 1);
                                if seen.contains(&y) {
                                    j.bad(
                                        "stale-entry",
                                        format!(
                                            "{} lists conn {}, which was over {} ms before",
                                            what,
                                            y,
                                            (sent.t - t) / 1_000_000
                                        ),
                                    );
                                    return;
                                }
                            }
                        }
                    }
                    let _ = first;
                }
                _ => {}
            }
        }
    }
}

/// Up to which history position a connection must be listed.
fn listed_until(x: &World, y: usize) -> Option<u64> {
    let m = &x.conns[y];
    if m.faulted || m.timed_out.is_some() {
        return None;
    }
    let mut until = u64::MAX;
    match x.plan.conns[y].role {
        Role::Good | Role::Filler => {
            if let Some(e) = m.ended {
                if e.0 != 'h' {
                    until = e.1.s;
                }
            }
            if let Some(h) = m.half {
                // as long as the server still has something to send
                until = until.min(m.last_send.map(|s| s.s).unwrap_or(0).max(h.s));
            }
        }
        _ => {
            let i = valid_prefix(&x.plan.conns[y], m);
            if let Some(r) = m.reqs.get(i) {
                until = r.sent.map(|s| s.s).unwrap_or(0);
            }
            if let Some(e) = m.half.or(m.ended.map(|e| e.1)) {
                until = until.min(e.s);
            }
        }
    }
    if let Some(r) = m.released {
        if x.plan.conns[y].role != Role::Good {
            until = until.min(r.s);
        } else if m.ended.is_none() {
            return None; // reported as dropped
        }
    }
    Some(until)
}

// ------------------------------------------------------------- keyspace

struct Op {
    set: Option<(u32, Ttl)>, // value id
    key: u32,
    got: Option<u32>, // value id read; 0 = null
    inv: u64,
    ret: u64, // MAX: never answered
    inv_t: u64,
    ret_t: u64,
    who: (usize, usize),
}

fn keyspace(j: &mut J) {
    let x = j.x;
    let mut keys: HashMap<String, u32> = HashMap::new();
    let mut vals: HashMap<Vec<u8>, u32> = HashMap::new();
    let mut vdesc: Vec<String> = vec!["null".into()];
    let mut ops: Vec<Vec<Op>> = vec![];
    // Bytes without a meaning of their own can happen to be a valid SET: keys
    // that occur in them where the key of a request could be are not judged.
    let mut blobs: Vec<Vec<u8>> = vec![];
    for (i, k) in x.conns.iter().enumerate() {
        if x.plan.conns[i].role == Role::Hostile {
            blobs.push(k.reqs.iter().flat_map(|r| r.req.encode()).collect());
        }
    }
    let mut hit: HashMap<String, bool> = HashMap::new();
    let mut untouched = |key: &str| -> bool {
        if blobs.is_empty() {
            return true;
        }
        if let Some(h) = hit.get(key) {
            return !h;
        }
        let n = key.len() + 1;
        let h = blobs.iter().any(|b| b.windows(n).any(|w| matches!(w[0], b'\n' | b'+' | b':') && &w[1..] == key.as_bytes()));
        hit.insert(key.into(), h);
        !h
    };
    // values first, so that reads can be matched
    let mut sets_of: HashMap<(u32, u32), u32> = HashMap::new();
    for (i, k) in x.conns.iter().enumerate() {
        if x.plan.conns[i].role == Role::Hostile {
            continue;
        }
        let lim = valid_prefix(&x.plan.conns[i], k);
        for r in k.reqs.iter().take(lim) {
            if let Req::Set(key, v, _) = &r.req {
                if !untouched(key) {
                    continue;
                }
                let n = keys.len() as u32;
                let ki = *keys.entry(key.clone()).or_insert(n);
                let b = v.bytes();
                let n = vdesc.len() as u32;
                let vi = *vals.entry(b).or_insert_with(|| {
                    vdesc.push(format!("{:?}", v));
                    n
                });
                *sets_of.entry((ki, vi)).or_insert(0) += 1;
            }
        }
    }
    let mut total = 0;
    for (i, k) in x.conns.iter().enumerate() {
        if x.plan.conns[i].role == Role::Hostile {
            continue;
        }
        let lim = valid_prefix(&x.plan.conns[i], k);
        let mut l = vec![];
        for (n, r) in k.reqs.iter().take(lim).enumerate() {
            let Some(a) = r.arr else { break };
            let (ret, ret_t) = match (r.first, &r.reply) {
                (Some(f), Some(_)) => (f.s, f.t),
                _ => (u64::MAX, u64::MAX),
            };
            match (&r.req, &r.reply) {
                (Req::Set(key, ..) | Req::Get(key), _) if !untouched(key) => {}
                (Req::Set(key, v, t), rep) => {
                    if let Some(rep) = rep {
                        if !fits(&r.req, rep) {
                            return; // reported as a wrong reply
                        }
                    }
                    let vi = vals[&v.bytes()];
                    l.push(Op {
                        set: Some((vi, t.clone())),
                        key: keys[key],
                        got: None,
                        inv: a.s,
                        ret,
                        inv_t: a.t,
                        ret_t,
                        who: (i, n),
                    });
                }
                (Req::Get(key), Some(rep)) => {
                    let nk = keys.len() as u32;
                    let ki = *keys.entry(key.clone()).or_insert(nk);
                    let got = match rep {
                        V::Null => 0,
                        V::B(b) => match vals.get(b) {
                            Some(vi) if sets_of.contains_key(&(ki, *vi)) => *vi,
                            Some(vi) => {
                                j.bad(
                                    "foreign-value",
                                    format!("conn {} request {}: GET {:?} returned {}, which was never set on it", i, n, key, vdesc[*vi as usize]),
                                );
                                return;
                            }
                            None => {
                                j.bad(
                                    "unknown-value",
                                    format!(
                                        "conn {} request {}: GET {:?} returned {}, a value no valid request ever set",
                                        i,
                                        n,
                                        key,
                                        resp::short(rep)
                                    ),
                                );
                                return;
                            }
                        },
                        _ => return,
                    };
                    l.push(Op { set: None, key: ki, got: Some(got), inv: a.s, ret, inv_t: a.t, ret_t, who: (i, n) });
                }
                (Req::Get(_), None) => {}
                _ => {}
            }
        }
        total += l.len();
        if !l.is_empty() {
            ops.push(l);
        }
    }
    if total == 0 {
        return;
    }
    j.count("keyspace_ops", total as u64);
    let tick = x.plan.env.tick_us.max(1) as u64 * 1000 + 2000;
    let kn = keys.len();
    let kname: Vec<String> = {
        let mut v = vec![String::new(); kn];
        for (k, i) in &keys {
            v[*i as usize] = k.clone();
        }
        v
    };
    let ctx = Lin { ops: &ops, tick, kn };
    match ctx.search(400_000) {
        Verdict::Ok => {
            j.count("linearised", 1);
            return;
        }
        Verdict::Bad(stuck) => {
            let op = stuck.map(|(a, b)| &ops[a][b]);
            let d = match op {
                Some(o) => format!(
                    "no order of the SETs and GETs explains the replies; the furthest attempt stops before conn {} request {} (key {:?}, {})",
                    o.who.0,
                    o.who.1,
                    kname[o.key as usize],
                    match (&o.set, o.got) {
                        (Some((v, t)), _) => format!("SET {} {:?}", vdesc[*v as usize], t),
                        (_, Some(g)) => format!("GET returned {}", vdesc[g as usize]),
                        _ => String::new(),
                    }
                ),
                None => "no order of the SETs and GETs explains the replies".into(),
            };
            let mut d2 = d;
            if let Some(o) = op {
                d2.push_str("; history of the key:");
                let mut all: Vec<&Op> = ops.iter().flatten().filter(|p| p.key == o.key).collect();
                all.sort_by_key(|p| p.inv);
                let at = all.iter().position(|p| p.who == o.who).unwrap_or(0);
                for p in all.iter().skip(at.saturating_sub(12)).take(20) {
                    d2.push_str(&format!(
                        " [{}.{} {}..{} {}]",
                        p.who.0,
                        p.who.1,
                        p.inv_t.wrapping_sub(x.t0) / 1000,
                        if p.ret == u64::MAX { "-".into() } else { (p.ret_t.wrapping_sub(x.t0) / 1000).to_string() },
                        match (&p.set, p.got) {
                            (Some((v, t)), _) => format!("SET v{} {:?}", v, t),
                            (_, Some(g)) => format!("GET v{}", g),
                            _ => String::new(),
                        }
                    ));
                }
            }
            j.bad("not-linearizable", d2);
        }
        Verdict::Unknown => {
            // too wide for the joint search: each key on its own
            for key in 0..kn as u32 {
                let sub: Vec<Vec<Op>> = ops
                    .iter()
                    .map(|l| {
                        l.iter()
                            .filter(|o| o.key == key)
                            .map(|o| Op {
                                set: o.set.clone(),
                                key: 0,
                                got: o.got,
                                inv: o.inv,
                                ret: o.ret,
                                inv_t: o.inv_t,
                                ret_t: o.ret_t,
                                who: o.who,
                            })
                            .collect::<Vec<_>>()
                    })
                    .filter(|l| !l.is_empty())
                    .collect();
                let ctx = Lin { ops: &sub, tick, kn: 1 };
                match ctx.search(400_000) {
                    Verdict::Ok => j.count("linearised_per_key", 1),
                    Verdict::Unknown => j.count("linearise_gave_up", 1),
                    Verdict::Bad(_) => {
                        j.bad("not-linearizable", format!("no order explains the replies for key {:?}", kname[key as usize]));
                        return;
                    }
                }
            }
        }
    }
}

enum Verdict {
    Ok,
    Bad(Option<(usize, usize)>),
    Unknown,
}
struct Lin<'a> {
    ops: &'a [Vec<Op>],
    tick: u64,
    kn: usize,
}
impl Lin<'_> {
    /// Depth-first search for a legal order: the position in each connection's
    /// sequence (its order is fixed) and, per key, which SET is current.
    fn search(&self, budget: u64) -> Verdict {
        let n = self.ops.len();
        // state: positions ++ per key current set (0 = none, else 1 + flat index)
        let flat: Vec<usize> = {
            let mut v = vec![];
            let mut a = 1;
            for l in self.ops {
                v.push(a);
                a += l.len();
            }
            v
        };
        let loc = |f: u32| -> &Op {
            let f = f as usize;
            let c = (0..n).rev().find(|c| flat[*c] <= f).unwrap();
            &self.ops[c][f - flat[c]]
        };
        let must: Vec<usize> = self.ops.iter().map(|l| l.iter().take_while(|o| o.ret != u64::MAX).count()).collect();
        let start: Vec<u32> = vec![0; n + self.kn];
        let mut stack = vec![start];
        let mut seen: HashSet<Vec<u32>> = HashSet::new();
        let mut steps = 0;
        let mut best = (0u32, None);
        while let Some(s) = stack.pop() {
            if (0..n).all(|c| s[c] as usize >= must[c]) {
                return Verdict::Ok;
            }
            if !seen.insert(s.clone()) {
                continue;
            }
            steps += 1;
            if steps > budget {
                return Verdict::Unknown;
            }
            // the earliest return among pending operations bounds who may go next
            let mut minret = u64::MAX;
            for c in 0..n {
                if let Some(o) = self.ops[c].get(s[c] as usize) {
                    minret = minret.min(o.ret);
                }
            }
            let done: u32 = s[..n].iter().sum();
            let mut next: Vec<(u64, Vec<u32>)> = vec![];
            for c in 0..n {
                let Some(o) = self.ops[c].get(s[c] as usize) else { continue };
                if o.inv > minret {
                    continue;
                }
                let k = n + o.key as usize;
                let cur = s[k];
                if o.set.is_some() {
                    let mut t = s.clone();
                    t[c] += 1;
                    t[k] = flat[c] as u32 + s[c];
                    next.push((o.ret, t));
                    continue;
                }
                let got = o.got.unwrap();
                if cur == 0 {
                    if got == 0 {
                        let mut t = s.clone();
                        t[c] += 1;
                        next.push((o.ret, t));
                    }
                    continue;
                }
                let w = loc(cur);
                let (vi, ttl) = w.set.as_ref().unwrap();
                let ttl_ns = match ttl {
                    Ttl::None => None,
                    Ttl::Ex(s) => Some((*s as u128) * 1_000_000_000),
                    Ttl::Px(m) => Some((*m as u128) * 1_000_000),
                };
                if got == *vi {
                    let ok = match ttl_ns {
                        None => true,
                        // read no later than the last moment it can be alive
                        Some(d) => (o.inv_t.saturating_sub(self.tick)) as u128 <= w.ret_t as u128 + d + self.tick as u128,
                    };
                    if ok {
                        let mut t = s.clone();
                        t[c] += 1;
                        next.push((o.ret, t));
                    }
                } else if got == 0 {
                    let ok = match ttl_ns {
                        None => false,
                        Some(d) => o.ret_t as u128 + self.tick as u128 + 1 > w.inv_t.saturating_sub(self.tick) as u128 + d,
                    };
                    if ok {
                        let mut t = s.clone();
                        t[c] += 1;
                        t[k] = 0;
                        next.push((o.ret, t));
                    }
                }
            }
            if next.is_empty() && done >= best.0 {
                let stuck = (0..n)
                    .filter(|c| (s[*c] as usize) < must[*c])
                    .min_by_key(|c| self.ops[*c][s[*c] as usize].ret)
                    .map(|c| (c, s[c] as usize));
                best = (done, stuck);
            }
            // try the operation that returned first, first
            next.sort_by(|a, b| b.0.cmp(&a.0));
            for (_, t) in next {
                stack.push(t);
            }
        }
        Verdict::Bad(best.1)
    }
}

// ---------------------------------------------------- limit and resources

fn limit(j: &mut J) {
    let x = j.x;
    let lim = x.plan.limit as usize;
    if lim == 0 {
        return;
    }
    // +1 when a connection gets its first reply, -1 when it is over
    let mut ev: Vec<(u64, i32, usize)> = vec![];
    for (i, k) in x.conns.iter().enumerate() {
        let Some(f) = k.first_send else { continue };
        let mut end = u64::MAX;
        if let Some(r) = k.released {
            end = end.min(r.s);
        }
        if let Some(e) = k.ended {
            if e.0 != 'h' {
                end = end.min(e.1.s);
            }
        }
        // the server is free to count it as over once there is nothing more
        // to serve: the socket itself closes a little later
        let bad = k.reqs.get(valid_prefix(&x.plan.conns[i], k)).and_then(|r| r.sent);
        for g in [k.half, bad].into_iter().flatten() {
            end = end.min(g.s.max(k.last_send.map(|s| s.s).unwrap_or(0)));
        }
        if end > f.s {
            ev.push((f.s, 1, i));
            if end != u64::MAX {
                ev.push((end, -1, i));
            }
        }
    }
    ev.sort();
    let mut n = 0i64;
    let mut max = 0i64;
    for (_, d, i) in ev {
        n += d as i64;
        max = max.max(n);
        if n > lim as i64 {
            j.bad("over-limit", format!("conn {} was served while {} others were; the limit is {}", i, n - 1, lim));
            return;
        }
    }
    j.count("max_served", max as u64);
    if max == lim as i64 {
        j.count("limit_reached", 1);
    }
}

fn resources(j: &mut J) {
    let x = j.x;
    let mut left = vec![];
    for (i, k) in x.conns.iter().enumerate() {
        if k.accepted.is_some() {
            j.count("releases_judged", 1);
            if k.released.is_none() {
                left.push(i);
            }
        }
    }
    if !left.is_empty() {
        j.bad(
            "socket-leak",
            format!("long after all connections were over the server still holds {} sockets (conns {:?})", left.len(), &left[..left.len().min(8)]),
        );
        return;
    }
    let open = x.open_streams();
    if open > 0 {
        j.bad("socket-leak", format!("{} descriptors of finished connections are still open", open));
    }
    // measures: pairs (2n, 2n+1) around a churn of connections
    let mut m: HashMap<u16, (u64, u32)> = HashMap::new();
    for s in &x.measures {
        let e = m.entry(s.0).or_insert((s.1, s.2));
        *e = (e.0.min(s.1), e.1.min(s.2));
    }
    if let (Some(a), Some(b), Some(c)) = (m.get(&0), m.get(&1), m.get(&2)) {
        let n1 = churn(x, 0, 1);
        let n2 = churn(x, 1, 2);
        j.count("memory_judged", 1);
        let g1 = b.0 as i64 - a.0 as i64;
        let g2 = c.0 as i64 - b.0 as i64;
        j.count("churned", (n1 + n2) as u64);
        if n1 > 0 && n2 > 0 {
            // a leak grows in both halves
            let per = (g1 / n1 as i64).min(g2 / n2 as i64);
            if per >= 24 && g1.min(g2) >= 1024 {
                j.bad(
                    "memory-leak",
                    format!("live heap grew by {} bytes over {} and {} bytes over {} finished connections", g1, n1, g2, n2),
                );
            }
        }
        if b.1 != a.1 || c.1 != b.1 {
            j.bad("socket-leak", format!("open sockets {} -> {} -> {} over finished connections", a.1, b.1, c.1));
        }
    }
}

/// How many connections ran between two measures.
fn churn(x: &World, from: u16, to: u16) -> usize {
    x.plan
        .conns
        .iter()
        .filter(|c| c.steps.iter().any(|s| *s == Step::Signal(100 + to)))
        .count()
        + 0 * from as usize
}
