//! Scripted clients. They live in the simulated network, not on a thread.
use crate::net::*;
use crate::plan::*;
use crate::resp;
use crate::world::*;

fn cn(c: u32) -> &'static mut Conn {
    &mut w().conns[c as usize]
}

pub fn start_all() {
    let n = w().plan.conns.len();
    for i in 0..n {
        w().after(0, Ev::Cli(i as u32, 0));
    }
}

pub fn wakeup(c: u32, g: u32) {
    if cn(c).gen == g {
        run(c);
    }
}
/// Something the script may be waiting for has changed.
pub fn kick(c: u32) {
    if !cn(c).script_done {
        run(c);
    }
}

/// A wait that must end within the bound did not.
pub fn deadline(c: u32, g: u32) {
    let k = cn(c);
    if k.gen != g || k.script_done || !k.waiting {
        return;
    }
    let x = w();
    let b = x.plan.env.bound_ms * 1_000_000;
    let quiet = x.t0.saturating_add(x.plan.env.quiet_us.min(3_600_000_000) * 1000);
    // a slow or cut-up client is not a slow server
    let due = k.wait_since.max(k.progress).max(k.last_t).max(x.faults_end).max(if x.plan.env.quiet_us < 3_600_000_000 { quiet } else { 0 }) + b;
    if x.now < due {
        x.at(due, Ev::Deadline(c, g));
        return;
    }
    let o = outstanding(c);
    k.timed_out = Some((k.pc, o, x.now));
    trace!("conn {} timed out at step {} ({} unanswered)", c, k.pc, o);
    abort_script(c);
}

/// End a script early: its remaining signals still fire.
fn abort_script(c: u32) {
    let steps = w().plan.conns[c as usize].steps.clone();
    let pc = cn(c).pc;
    do_end(c, 'a');
    finish_script(c);
    for s in &steps[pc.min(steps.len())..] {
        if let Step::Signal(g) = s {
            signal(*g);
        }
    }
}

/// Nothing will ever happen again: whoever still waits has waited forever.
pub fn idle() {
    let n = w().conns.len();
    let mut any = false;
    for c in 0..n as u32 {
        let k = cn(c);
        if k.waiting && !k.script_done {
            let st = w().plan.conns[c as usize].steps.get(k.pc).cloned();
            if matches!(st, Some(Step::Gate(..)) | Some(Step::Others) | Some(Step::Flood(..))) {
                continue;
            }
            k.timed_out = Some((k.pc, outstanding(c), w().now));
            abort_script(c);
            any = true;
        }
    }
    if !any {
        crate::run::finish("idle");
    }
}

pub fn outstanding(c: u32) -> u32 {
    let k = cn(c);
    (k.reqs.len() - k.next_reply.min(k.reqs.len())) as u32
}

fn finish_script(c: u32) {
    let k = cn(c);
    if k.script_done {
        return;
    }
    k.script_done = true;
    k.gen += 1;
    let x = w();
    x.done_conns += 1;
    x.at_others.remove(&c);
    if x.done_conns == x.conns.len() {
        // let the server notice the ends of all connections
        let d = 9_000_000_000u64 + x.faults_end.saturating_sub(x.now);
        x.after(d, Ev::End);
    } else {
        kick_waiters();
    }
}

fn kick_waiters() {
    let all: Vec<u32> = w().gated.iter().copied().collect();
    let mut kicked = false;
    for i in all {
        let k = &w().conns[i as usize];
        let at = w().plan.conns[i as usize].steps.get(k.pc);
        if k.waiting && !k.script_done && matches!(at, Some(Step::Others) | Some(Step::Gate(..)) | Some(Step::Flood(..))) {
            if w().at_others.contains(&i) {
                // one after the other, when nobody else does anything
                if kicked || w().conns.len() > w().done_conns + w().at_others.len() {
                    continue;
                }
                kicked = true;
            }
            let g = k.gen;
            w().after(0, Ev::Cli(i, g));
        } else {
            w().gated.remove(&i);
        }
    }
}
fn signal(g: u16) {
    *w().signals.entry(g).or_insert(0) += 1;
    kick_waiters();
}

fn wait_for(c: u32, bounded: bool) {
    let k = cn(c);
    if !k.waiting {
        w().gated.insert(c);
        k.waiting = true;
        k.wait_since = w().now;
        k.gen += 1;
        if bounded {
            let (g, b) = (k.gen, w().plan.env.bound_ms * 1_000_000);
            w().after(b, Ev::Deadline(c, g));
        }
    }
}

fn do_end(c: u32, how: char) {
    let k = cn(c);
    let s = w().stamp();
    let first = k.ended.is_none() || k.ended.unwrap().0 == 'h';
    if !first {
        return;
    }
    if k.st == CSt::Idle || k.st == CSt::Connecting {
        k.st = CSt::Over;
        k.ended = Some((how, s));
        client_fin(c);
        return;
    }
    if k.st != CSt::Open {
        k.ended.get_or_insert((how, s));
        return;
    }
    match how {
        'h' => {
            w().stats.half_closes += 1;
            k.ended = Some((how, s));
            k.half = Some(s);
            client_fin(c);
        }
        'c' => {
            w().stats.closes += 1;
            // closing with unread data resets the connection
            let rst = !k.rq.is_empty();
            k.ended = Some((how, s));
            k.st = CSt::Over;
            if rst {
                let l = lat();
                w().after(l, Ev::RstToServer(c));
            } else {
                client_fin(c);
            }
        }
        'a' => {
            k.ended = Some((how, s));
            k.st = CSt::Over;
            let l = lat();
            w().after(l, Ev::RstToServer(c));
        }
        _ => {
            w().stats.dead += 1;
            k.ended = Some(('d', s));
            k.st = CSt::Over;
            k.segs.clear();
            k.wire.clear();
            w().after(5_000_000_000, Ev::TimeoutToServer(c));
        }
    }
}

fn over(c: u32) -> bool {
    let k = cn(c);
    k.st == CSt::Over || k.eof.is_some() || k.reset.is_some()
}

/// More than 30 % of a processor while there is nothing to do.
pub fn too_busy(n: &(u64, u64, u64)) -> bool {
    n.2 * 100 > n.1 * 30
}

pub fn run(c: u32) {
    // steps can make bytes arrive, which wants to run the script again
    if cn(c).in_run {
        cn(c).again = true;
        return;
    }
    cn(c).in_run = true;
    loop {
        cn(c).again = false;
        run_steps(c);
        if !cn(c).again {
            break;
        }
    }
    cn(c).in_run = false;
}

fn send(c: u32, rs: Vec<Req>) {
    let enc = w().plan.conns[c as usize].enc;
    let mut all = vec![];
    for r in rs {
        let b = r.encode_as(enc, cn(c).reqs.len() as u64);
        all.extend_from_slice(&b);
        let s = w().stamp();
        let end = cn(c).stream_end + all.len() as u64;
        let noreply = matches!(r, Req::Bad(_) | Req::Raw(_));
        if noreply {
            w().stats.malformed += 1;
        } else {
            w().stats.requests += 1;
        }
        cn(c).reqs.push(ReqRec { req: r, end, sent: Some(s), arr: None, first: None, done: None, reply: None, reply_len: 0 });
    }
    client_send(c, &all);
}

fn run_steps(c: u32) {
    loop {
        let k = cn(c);
        if k.script_done {
            return;
        }
        let steps = &w().plan.conns[c as usize].steps;
        let Some(st) = steps.get(k.pc) else {
            do_end(c, 'c');
            finish_script(c);
            return;
        };
        let mut next = true;
        match st {
            Step::Connect => {
                if k.st == CSt::Idle {
                    connect(c);
                }
                if k.st == CSt::Connecting {
                    wait_for(c, true);
                    next = false;
                }
            }
            Step::Send(rs) => {
                if k.st == CSt::Open && k.eof.is_none() && k.ended.is_none() {
                    let rs = rs.clone();
                    send(c, rs);
                }
            }
            Step::Wait(n) => {
                if !over(c) && k.proto_err.is_none() && outstanding(c) > *n {
                    wait_for(c, true);
                    next = false;
                }
            }
            Step::WaitBytes(n) => {
                if !over(c) && k.rtotal < *n {
                    wait_for(c, true);
                    next = false;
                }
            }
            Step::SleepUs(us) => {
                if !k.waiting {
                    k.waiting = true;
                    k.gen += 1;
                    k.wait_since = w().now;
                    let g = k.gen;
                    let d = us * 1000;
                    w().after(d, Ev::Cli(c, g));
                    next = false;
                } else if w().now < k.wait_since.saturating_add(us * 1000) {
                    next = false;
                }
            }
            Step::Idle(us) => {
                let d = us * 1000;
                if !k.waiting {
                    k.waiting = true;
                    k.gen += 1;
                    k.wait_since = w().now;
                    k.idle_from = (w().now, w().busy);
                    let g = k.gen;
                    w().after(d, Ev::Cli(c, g));
                    next = false;
                } else if w().now < k.wait_since.saturating_add(d) {
                    next = false;
                } else {
                    let (t, b) = k.idle_from;
                    let x = w();
                    let n = (t, x.now - t, x.busy - b);
                    x.idles.push(n);
                    trace!("busy {} of {} ns with nothing to do", n.2, n.1);
                    if too_busy(&n) {
                        crate::run::finish("busy");
                    }
                }
            }
            Step::Pause => {
                k.paused = true;
                w().stats.reader_stalls += 1;
            }
            Step::Resume => {
                k.paused = false;
                k.slow = None;
                readable(c);
            }
            Step::Slow(b, us) => k.slow = Some((*b, *us)),
            Step::HalfClose => do_end(c, 'h'),
            Step::Close => do_end(c, 'c'),
            Step::Abort => do_end(c, 'a'),
            Step::Dead => do_end(c, 'd'),
            Step::Eof => {
                if !over(c) {
                    wait_for(c, true);
                    next = false;
                }
            }
            Step::Signal(g) => {
                let g = *g;
                cn(c).waiting = false;
                cn(c).gen += 1;
                cn(c).pc += 1;
                signal(g);
                continue;
            }
            Step::Gate(g, n) => {
                if w().signals.get(g).copied().unwrap_or(0) < *n {
                    wait_for(c, false);
                    next = false;
                }
            }
            Step::Flood(d, g, n) => {
                let (d, open) = (*d, w().signals.get(g).copied().unwrap_or(0) >= *n);
                if !open && !over(c) && k.proto_err.is_none() && k.reqs.len() < 60_000 {
                    wait_for(c, false);
                    let o = outstanding(c);
                    if o < d.div_ceil(2) {
                        send(c, vec![Req::Ping; (d - o) as usize]);
                    }
                    next = false;
                }
            }
            Step::Measure(t) => {
                let b = crate::alloc::live();
                let o = w().open_streams();
                w().measures.push((*t, b, o));
            }
            Step::Others => {
                let x = w();
                x.at_others.insert(c);
                if x.conns.len() > x.done_conns + x.at_others.len() {
                    wait_for(c, false);
                    next = false;
                } else {
                    x.at_others.remove(&c);
                }
            }
        }
        if !next {
            return;
        }
        let k = cn(c);
        k.waiting = false;
        k.gen += 1;
        k.pc += 1;
    }
}

/// Bytes are in the client's receive queue.
pub fn readable(c: u32) {
    let k = cn(c);
    if k.paused || k.st == CSt::Over && k.reset.is_none() {
        return;
    }
    let n = match k.slow {
        None => k.rq.len(),
        Some((b, us)) => {
            if k.slow_armed {
                return;
            }
            if k.rq.len() > 0 {
                k.slow_armed = true;
                w().after(us as u64 * 1000, Ev::SlowRead(c));
            }
            (b as usize).min(k.rq.len())
        }
    };
    if n > 0 {
        take(c, n);
    }
}
/// After a reset the kernel still hands out what had arrived.
pub fn read_all(c: u32) {
    let n = cn(c).rq.len();
    if n > 0 {
        take(c, n);
    }
}

fn take(c: u32, n: usize) {
    let k = cn(c);
    let s = w().stamp();
    k.rbuf.extend(k.rq.drain(..n));
    k.rtotal += n as u64;
    k.progress = w().now;
    k.rhist.push((k.rtotal, s));
    parse(c);
    client_took(c);
    kick(c);
}

fn parse(c: u32) {
    loop {
        let k = cn(c);
        if k.proto_err.is_some() {
            return;
        }
        if k.rpos >= k.rbuf.len() {
            k.rbuf.clear();
            k.rpos = 0;
            return;
        }
        // which request does the next reply belong to
        let idx = k.next_reply;
        let have = idx < k.reqs.len() && k.reqs[idx].sent.is_some();
        let base = k.rtotal - (k.rbuf.len() - k.rpos) as u64;
        if have && k.reqs[idx].first.is_none() {
            let i = k.rhist.partition_point(|h| h.0 <= base);
            k.reqs[idx].first = Some(k.rhist[i].1);
        }
        match resp::parse(&k.rbuf[k.rpos..]) {
            resp::P::More => {
                if !have {
                    k.extra.get_or_insert_with(|| {
                        format!("{:?}", String::from_utf8_lossy(&k.rbuf[k.rpos..(k.rpos + 60).min(k.rbuf.len())]))
                    });
                }
                return;
            }
            resp::P::Bad(e) => {
                let t = &k.rbuf[k.rpos..(k.rpos + 80).min(k.rbuf.len())];
                k.proto_err = Some(format!(
                    "{} at byte {} (reply {}): {:?}",
                    e,
                    base,
                    idx,
                    String::from_utf8_lossy(t)
                ));
                trace!("conn {} protocol error {:?}", c, k.proto_err);
                return;
            }
            resp::P::Ok(v, n) => {
                k.rpos += n;
                w().stats.replies += 1;
                trace!("conn {} reply {} = {}", c, idx, resp::short(&v));
                if have {
                    let s = w().stamp();
                    let r = &mut k.reqs[idx];
                    r.done = Some(s);
                    r.reply = Some(v);
                    r.reply_len = n;
                    k.next_reply += 1;
                } else {
                    k.extra.get_or_insert_with(|| resp::short(&v));
                }
            }
        }
    }
}
