//! Workload generators: one per property. A generator makes an explicit plan
//! from a seed; sizes, mixes and the set of enabled faults vary from run to run.
use crate::plan::*;
use crate::rng::Rng;

pub struct G {
    pub r: Rng,
    tag: u32,
    past: Vec<(String, Val)>,
    pub plan: Plan,
}

type Steps = Vec<Step>;

impl G {
    fn chance(&mut self, n: u64, d: u64) -> bool {
        self.r.chance(n, d)
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        self.r.range(a, b)
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        self.r.pick(v).clone()
    }
    fn val(&mut self, n: u32) -> Val {
        self.tag += 1;
        let k = if n >= 12 { self.pick(&[0u8, 0, 0, 1, 1, 2, 4, 5, 6]) } else { self.pick(&[0u8, 0, 1, 2]) };
        Val { k, t: self.tag, n }
    }
    fn small(&mut self) -> Val {
        let n = self.pick(&[6u32, 8, 12, 20, 40, 100]);
        self.val(n)
    }
    /// a new value, or now and then one this key has had
    fn again(&mut self, k: &str) -> Val {
        if self.chance(1, 5) {
            let c: Vec<Val> = self.past.iter().filter(|p| p.0 == k).map(|p| p.1).collect();
            if !c.is_empty() {
                return self.pick(&c[c.len().saturating_sub(3)..]);
            }
        }
        let v = self.small();
        if self.past.len() < 200 {
            self.past.push((k.to_string(), v));
        }
        v
    }
    fn big(&mut self) -> Val {
        let base = self.pick(&[1000u32, 2000, 4080, 4096, 8180, 8192, 8200, 12288, 16384, 30000, 65536]);
        let n = base + self.r.below(40) as u32;
        self.val(n)
    }
    fn conn(&mut self, role: Role, steps: Steps) -> usize {
        self.plan.conns.push(ConnPlan { role, steps, seg: 0, rcvbuf: 0, gap_us: 0, enc: 0, port: 0 });
        self.plan.conns.len() - 1
    }
    /// random segmentation of everything this client sends
    fn cut(&mut self, c: usize) {
        let s = self.pick(&[0i32, 0, 1, 2, 3, 7, -3, -10, -60, -1000, 4096, 1460]);
        self.plan.conns[c].seg = s;
        self.plan.conns[c].gap_us = self.pick(&[0u32, 0, 5, 50, 500]);
    }
    fn jit(&mut self, v: &mut Steps) {
        match self.r.below(6) {
            0 => v.push(Step::SleepUs(self.r.range(1, 60))),
            1 => v.push(Step::SleepUs(self.r.range(1, 2000))),
            _ => {}
        }
    }

    /// Which schedule and I/O disturbances this run has.
    fn env(&mut self, io: bool) {
        let preempt = self.pick(&[0u32, 400, 100, 40, 15, 6, 3]);
        let stall = self.pick(&[0u32, 0, 0, 0, 8000, 2500]);
        let stall_max_us = self.pick(&[100u32, 1000, 6000, 20_000]);
        let tick_us = self.pick(&[1000u32, 4000, 10_000]);
        let lat_us = self.pick(&[5u32, 20, 100, 500]);
        let delay = self.pick(&[0u32, 0, 12, 4]);
        let delay_max_us = self.pick(&[50u32, 1000, 30_000]);
        let uptime_ms = self.pick(&[1u64, 5_000, 100_000, 86_400_000, 3_000_000_000, 4_294_960_000, 40_000_000_000]);
        let e = &mut self.plan.env;
        e.preempt = preempt;
        e.stall = stall;
        e.stall_max_us = stall_max_us;
        e.tick_us = tick_us;
        e.lat_us = lat_us;
        e.delay = delay;
        e.delay_max_us = delay_max_us;
        e.uptime_ms = uptime_ms;
        if io {
            self.io();
        }
    }
    fn io(&mut self) {
        let short_r = self.pick(&[0u32, 0, 0, 5, 2, 1]);
        let short_w = self.pick(&[0u32, 0, 0, 5, 2, 1]);
        let op_delay = self.pick(&[0u32, 0, 30, 6]);
        let eintr = self.pick(&[0u32, 0, 30, 8]);
        let drain = self.pick(&[0u32, 0, 3]);
        let sndbuf = self.pick(&[1u32 << 17, 1 << 17, 1 << 14, 4096, 600]);
        let rcvbuf = self.pick(&[1u32 << 17, 1 << 17, 1 << 14, 2000]);
        let e = &mut self.plan.env;
        e.short_r = short_r;
        e.short_w = short_w;
        e.op_delay = op_delay;
        e.eintr = eintr;
        e.drain = drain;
        e.sndbuf = sndbuf;
        e.rcvbuf = rcvbuf;
    }
    fn key(&mut self, n: u64) -> String {
        format!("k{}", self.r.below(n))
    }
    fn ttl(&mut self) -> Ttl {
        match self.r.below(8) {
            0 => Ttl::Px(self.r.range(1, 12)),
            1 => Ttl::Px(self.r.range(1, 60)),
            2 => Ttl::Ex(1000),
            _ => Ttl::None,
        }
    }
    /// some request with an exactly known kind of reply
    fn any(&mut self, keys: u64, pre: &str) -> Req {
        match self.r.below(24) {
            0..=3 => Req::Ping,
            4 => {
                let mut v = self.small();
                if self.chance(1, 3) {
                    v.k = 3;
                    v.n = self.r.below(20) as u32;
                }
                Req::PingMsg(v)
            }
            5 => Req::Hello,
            6..=10 => {
                let k = format!("{}{}", pre, self.r.below(keys));
                let v = if self.chance(1, 12) { self.big() } else { self.small() };
                // far beyond the end of any run
                let t = if self.chance(1, 6) { self.pick(&[Ttl::Ex(20_000_000), Ttl::Px(20_000_000_000)]) } else { Ttl::None };
                Req::Set(k, v, t)
            }
            11..=15 => Req::Get(format!("{}{}", pre, self.r.below(keys))),
            16 => Req::Id,
            17 => Req::Info,
            18 => Req::SetName(format!("n{}", self.r.below(100))),
            19 => Req::GetName,
            20 => Req::List,
            21 => {
                let what = self.pick(&["LIB-NAME", "LIB-NAME", "LIB-VER", "lib-name", "LIB-OS", ""]);
                let v = self.pick(&["redis", "7.0.1", "", "a b"]);
                Req::SetInfo(what.into(), v.into())
            }
            22 => match self.r.below(5) {
                4 => self.list_by(),
                0 => Req::Help,
                1 => Req::ClientNone,
                2 => Req::AclCat,
                _ => Req::UnknownSub(self.r.chance(1, 2), format!("sub{}", self.r.below(9))),
            },
            _ => Req::Unknown(format!("cmd{}", self.r.below(9)), self.r.below(4) as u8),
        }
    }
    fn list_by(&mut self) -> Req {
        let mut f: Vec<String> = vec![];
        if self.chance(1, 2) {
            f.push("TYPE".into());
            f.push(self.pick(&["normal", "NORMAL", "master", "replica", "pubsub"]).into());
        }
        if f.is_empty() || self.chance(1, 2) {
            f.push("ID".into());
            for _ in 0..self.r.range(1, 3) {
                f.push(self.pick(&["1", "2", "3", "18446744073709551615", "0"]).into());
            }
        }
        Req::ListBy(f)
    }
    /// closed loop: batches of `depth` requests, waiting in between
    fn session(&mut self, v: &mut Steps, n: u64, depth: u64, f: &mut dyn FnMut(&mut G) -> Req) {
        let mut left = n;
        while left > 0 {
            let d = self.r.range(1, depth).min(left);
            left -= d;
            let b = (0..d).map(|_| f(self)).collect();
            v.push(Step::Send(b));
            if self.chance(4, 5) {
                let o = if self.chance(1, 4) { self.r.below(d + 1) as u32 } else { 0 };
                v.push(Step::Wait(o));
            }
            self.jit(v);
        }
        v.push(Step::Wait(0));
    }
    /// a well-behaved client touching the whole command set
    fn bystander(&mut self, c: usize, n: u64, depth: u64) -> Steps {
        let mut v = vec![Step::Connect];
        let pre = if self.chance(1, 2) { format!("b{}.", c) } else { "k".to_string() };
        self.session(&mut v, n, depth, &mut |g| g.any(3, &pre));
        v
    }
    fn end(&mut self, v: &mut Steps) {
        match self.r.below(6) {
            0 => v.push(Step::Abort),
            1 => {
                v.push(Step::HalfClose);
                v.push(Step::Eof);
            }
            2 => v.push(Step::Dead),
            _ => v.push(Step::Close),
        }
    }
    /// a fresh client after everything else, reading back what is there
    fn late(&mut self, keys: &[String]) {
        let mut v = vec![Step::Others, Step::SleepUs(20_000), Step::Connect];
        let mut l: Vec<Req> = keys.iter().map(|k| Req::Get(k.clone())).collect();
        l.push(Req::Ping);
        l.push(Req::Id);
        for q in l {
            v.push(Step::Send(vec![q]));
            v.push(Step::Wait(0));
        }
        self.conn(Role::Good, v);
    }
}

fn keys(n: u64) -> Vec<String> {
    (0..n).map(|i| format!("k{}", i)).collect()
}

/// Bytes that are certainly not a valid request (and complete enough for the
/// server to see that).
fn malformed(g: &mut G) -> Vec<u8> {
    let c = |p: &[&[u8]]| cmd(p);
    match g.r.below(76) {
        64 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$3\r\nbadval\r\n".to_vec(),
        65 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$4\r\nbadval\r\n".to_vec(),
        66 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$6\r\nbadvalXY".to_vec(),
        67 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$6\r\nbadval\n\r".to_vec(),
        68 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0xx$6\r\nbadval\r\n".to_vec(),
        69 => b"*3\r\n$3\r\nSETxx$2\r\nk0\r\n$6\r\nbadval\r\n".to_vec(),
        70 => b"*1\r\n$4\r\nPINGxx".to_vec(),
        71 => b"*1\r\n$4\r\nPINGS\r\n".to_vec(),
        72 => b"*2\r\n$3\r\nGET\r\n$1\r\nk0\r\n".to_vec(),
        73 => b"*3\r\n$6\r\nCLIENT\r\n$7\r\nSETNAME\r\n$3\r\nintruder\r\n".to_vec(),
        74 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$6\r\nbadval\0\0".to_vec(),
        75 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$-6\r\nbadval\r\n".to_vec(),
        0 => b"PING\r\n".to_vec(),
        1 => b"\r\n".to_vec(),
        2 => b"*1\r\n:5\r\n".to_vec(),
        3 => b"*0\r\n".to_vec(),
        4 => b"*-1\r\n".to_vec(),
        5 => b"$3\r\nfoo\r\n".to_vec(),
        6 => b"+PING\r\n".to_vec(),
        7 => b":1\r\n".to_vec(),
        8 => b"%1\r\n+a\r\n+b\r\n".to_vec(),
        9 => b"-ERR x\r\n".to_vec(),
        10 => b"$-1\r\n".to_vec(),
        11 => b"*abc\r\n".to_vec(),
        12 => b"*1\r\n$abc\r\nPING\r\n".to_vec(),
        13 => b"*1\r\n$-5\r\nPING\r\n".to_vec(),
        14 => b"*18446744073709551616\r\n".to_vec(),
        15 => b"*1\r\n$18446744073709551616\r\nPING\r\n".to_vec(),
        16 => b"*1\r\n-PING\r\n".to_vec(),
        17 => b"*2\r\n$3\r\nGET\r\n$-1\r\n".to_vec(),
        18 => b"*2\r\n$3\r\nGET\r\n*1\r\n$1\r\na\r\n".to_vec(),
        19 => b"*2\r\n$3\r\nGET\r\n:3\r\n".to_vec(),
        20 => b"*1\r\n*1\r\n$4\r\nPING\r\n".to_vec(),
        21 => b"GET k0 HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        22 => vec![0u8; 7],
        23 => vec![0xff, 0xfe, b'\r', b'\n'],
        24 => c(&[b"SET", b"k0"]),
        25 => c(&[b"SET"]),
        26 => c(&[b"SET", b"k0", b"badval", b"NX"]),
        27 => c(&[b"SET", b"k0", b"badval", b"EX"]),
        28 => c(&[b"SET", b"k0", b"badval", b"EX", b"abc"]),
        29 => c(&[b"SET", b"k0", b"badval", b"PX", b"-1"]),
        30 => c(&[b"SET", b"k0", b"badval", b"EX", b"1", b"more"]),
        31 => c(&[b"SET", b"k0", b"badval", b"PX", b"18446744073709551616"]),
        32 => c(&[b"SET", b"k0", b"badval", b"EX", b""]),
        33 => c(&[b"SET", b"k\xff\xfe", b"badval"]),
        34 => c(&[b"GET"]),
        35 => c(&[b"GET", b"k0", b"k1"]),
        36 => c(&[b"GET", b"\xc3\x28"]),
        37 => c(&[b"PING", b"a", b"b"]),
        38 => c(&[b"HELLO", b"x"]),
        39 => c(&[b"CLIENT", b"GETNAME", b"x"]),
        40 => c(&[b"CLIENT", b"SETNAME"]),
        41 => c(&[b"CLIENT", b"INFO", b"x"]),
        42 => c(&[b"CLIENT", b"LIST", b"NOSUCH"]),
        43 => c(&[b"\xff\xff"]),
        44 => c(&[b"SET", b"k0", b"badval", b"EX", b"1.5"]),
        45 => c(&[b"ACL"]),
        46 => c(&[b"CLIENT", b"ID", b"x"]),
        47 => c(&[b"CLIENT", b"LIST", b"TYPE", b"nosuch"]),
        48 => c(&[b"CLIENT", b"LIST", b"ID", b"abc"]),
        49 => c(&[b"CLIENT", b"LIST", b"TYPE", b"normal", b"NOSUCH"]),
        50 => b"*2\r\n$4\r\nPING\r\n:5\r\n".to_vec(),
        51 => b"*2\r\n$4\r\nPING\r\n$-1\r\n".to_vec(),
        52 => b"*3\r\n$6\r\nCLIENT\r\n$7\r\nSETNAME\r\n$-1\r\n".to_vec(),
        53 => b"*2\r\n$6\r\nCLIENT\r\n:1\r\n".to_vec(),
        54 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n$-1\r\n".to_vec(),
        55 => b"*3\r\n$3\r\nSET\r\n$2\r\nk0\r\n:7\r\n".to_vec(),
        56 => b"*4\r\n$3\r\nSET\r\n$2\r\nk0\r\n$6\r\nbadval\r\n:7\r\n".to_vec(),
        57 => b"*5\r\n$3\r\nSET\r\n$2\r\nk0\r\n$6\r\nbadval\r\n$2\r\nEX\r\n$-1\r\n".to_vec(),
        58 => b"*5\r\n$3\r\nSET\r\n$2\r\nk0\r\n$6\r\nbadval\r\n$2\r\nEX\r\n*0\r\n".to_vec(),
        59 => b"*1\r\n%0\r\n".to_vec(),
        60 => b"*1\r\n$-1\r\n".to_vec(),
        61 => b"*2\r\n$6\r\nCLIENT\r\n$2\r\n\xff\xfe\r\n".to_vec(),
        62 => b"*1\r\n:-5\r\n".to_vec(),
        _ => c(&[b"SET", b"k0", b"badval", b"PX", b"10", b"EX", b"10"]),
    }
}

/// Any command name with any number and kind of arguments.
fn grammar(g: &mut G) -> Vec<u8> {
    fn item(g: &mut G, v: &mut Vec<u8>, depth: u32) {
        match g.r.below(if depth > 2 { 9 } else { 12 }) {
            0..=3 => {
                let words: [&[u8]; 22] = [
                    b"SET", b"get", b"PING", b"HELLO", b"CLIENT", b"ACL", b"CAT", b"ID", b"LIST", b"INFO", b"SETNAME", b"GETNAME", b"SETINFO",
                    b"HELP", b"TYPE", b"NORMAL", b"EX", b"PX", b"LIB-NAME", b"h", b"COMMAND", b"QUIT",
                ];
                let w = g.pick(&words);
                v.extend_from_slice(format!("${}\r\n", w.len()).as_bytes());
                v.extend_from_slice(w);
                v.extend_from_slice(b"\r\n");
            }
            4 => v.extend_from_slice(b"$0\r\n\r\n"),
            5 => v.extend_from_slice(b"$-1\r\n"),
            6 => {
                let n = g.pick(&[0u64, 1, 5, 1000, u64::MAX / 1000, u64::MAX]);
                v.extend_from_slice(format!(":{}\r\n", n).as_bytes());
            }
            7 => {
                let n = g.r.below(40) as usize;
                let b: Vec<u8> = (0..n).map(|_| g.r.u64() as u8).collect();
                v.extend_from_slice(format!("${}\r\n", n).as_bytes());
                v.extend_from_slice(&b);
                v.extend_from_slice(b"\r\n");
            }
            8 => {
                let t = weird_text(g).replace(['\r', '\n'], "");
                v.push(g.pick(b"+-"));
                v.extend_from_slice(t.as_bytes());
                v.extend_from_slice(b"\r\n");
            }
            9 => {
                let n = g.pick(&[0u64, 1, 5, 1000]);
                v.extend_from_slice(format!("${}\r\n{}\r\n", n.to_string().len(), n).as_bytes());
            }
            10 => {
                let n = g.r.below(4);
                v.extend_from_slice(format!("*{}\r\n", n).as_bytes());
                for _ in 0..n {
                    item(g, v, depth + 1);
                }
            }
            _ => {
                let n = g.r.below(3);
                v.extend_from_slice(format!("%{}\r\n", n).as_bytes());
                for _ in 0..2 * n {
                    item(g, v, depth + 1);
                }
            }
        }
    }
    let names: [&[u8]; 9] = [b"SET", b"GET", b"PING", b"HELLO", b"CLIENT", b"CLIENT", b"ACL", b"x", b""];
    let subs: [&[u8]; 10] = [b"ID", b"LIST", b"INFO", b"SETNAME", b"GETNAME", b"SETINFO", b"HELP", b"CAT", b"x", b""];
    let mut v = vec![];
    let mut left = g.range(1, 6);
    while left > 0 {
        left -= 1;
        let mut parts: Vec<Vec<u8>> = vec![];
        let n = g.pick(&names);
        parts.push([format!("${}\r\n", n.len()).as_bytes(), n, b"\r\n"].concat());
        if g.chance(2, 3) && (n == b"CLIENT" || n == b"ACL") {
            let n = g.pick(&subs);
            parts.push([format!("${}\r\n", n.len()).as_bytes(), n, b"\r\n"].concat());
        }
        for _ in 0..g.r.below(5) {
            let mut b = vec![];
            item(g, &mut b, 0);
            parts.push(b);
        }
        v.extend_from_slice(format!("*{}\r\n", parts.len()).as_bytes());
        for p in parts {
            v.extend(p);
        }
    }
    v
}

/// A name that must not be cut anywhere.
fn hostile_name(g: &mut G) -> Vec<u8> {
    let s = g.pick(&["é", "日本", "\u{1f980}", "aé"]).repeat(200);
    let at = g.pick(&[10usize, 16, 32, 64, 100, 128, 200, 255, 256, 300]);
    let mut n = g.pick(&["", "a", "ab", "abc"]).to_string();
    for c in s.chars() {
        if n.len() >= at + 6 {
            break;
        }
        n.push(c);
    }
    match g.r.below(6) {
        0 => cmd(&[b"CLIENT", n.as_bytes()]),
        1 => cmd(&[b"ACL", n.as_bytes()]),
        2 => cmd(&[b"ACL", b"CAT", n.as_bytes()]),
        3 => cmd(&[b"CLIENT", b"SETNAME", n.as_bytes()]),
        4 => cmd(&[b"CLIENT", b"SETINFO", b"LIB-NAME", n.as_bytes()]),
        _ => cmd(&[n.as_bytes(), b"x"]),
    }
}

/// A command with far more of something than anybody needs.
fn many(g: &mut G) -> Vec<u8> {
    let heads: [&[&str]; 14] = [
        &["CLIENT", "LIST", "ID"],
        &["CLIENT", "LIST", "ID"],
        &["CLIENT", "LIST", "TYPE", "NORMAL", "ID"],
        &["CLIENT", "LIST"],
        &["CLIENT", "SETINFO", "LIB-NAME"],
        &["CLIENT", "SETNAME"],
        &["CLIENT"],
        &["ACL", "CAT"],
        &["HELLO"],
        &["PING"],
        &["SET", "h"],
        &["SET", "h", "v", "EX"],
        &["GET"],
        &[],
    ];
    let mut parts: Vec<Vec<u8>> = g.pick(&heads).iter().map(|h| bulk(h.as_bytes())).collect();
    if g.chance(1, 3) {
        // one element that is very long
        let n = g.pick(&[21usize, 40, 129, 257, 1025, 5000, 66_000]);
        let c = g.pick(&["9", "0", "x", " ", "-", "\u{e9}", "\0"]);
        let s = c.repeat(n);
        parts.push(match g.r.below(4) {
            0 => format!(":{}\r\n", s).into_bytes(),
            1 => format!("+{}\r\n", s).into_bytes(),
            _ => bulk(s.as_bytes()),
        });
    } else {
        let n = g.pick(&[9usize, 17, 33, 65, 101, 129, 257, 300, 1025, 5000]);
        let kind = g.r.below(9);
        for i in 0..n {
            parts.push(match kind {
                0..=2 => bulk(i.to_string().as_bytes()),
                3 => format!(":{}\r\n", i).into_bytes(),
                4 => bulk(b"1"),
                5 => bulk(b"TYPE NORMAL ID 1".split(|b| *b == b' ').nth(i % 4).unwrap()),
                6 => b"$-1\r\n".to_vec(),
                7 => b"*0\r\n".to_vec(),
                _ => b"$0\r\n\r\n".to_vec(),
            });
        }
    }
    let mut v = format!("*{}\r\n", parts.len()).into_bytes();
    v.extend(parts.concat());
    v
}

fn bulk(s: &[u8]) -> Vec<u8> {
    let mut v = format!("${}\r\n", s.len()).into_bytes();
    v.extend_from_slice(s);
    v.extend_from_slice(b"\r\n");
    v
}

/// Anything at all: truncated, oversized, hostile.
fn hostile(g: &mut G) -> Vec<u8> {
    match g.r.below(36) {
        32..=35 => many(g),
        28..=31 => hostile_name(g),
        0..=5 => malformed(g),
        22..=27 => grammar(g),
        6 => {
            // a valid request cut short
            let r = Req::Set("h".into(), g.small(), Ttl::None).encode();
            let n = g.r.range(1, r.len() as u64 - 1) as usize;
            r[..n].to_vec()
        }
        7 => {
            // a valid request with flipped bytes
            let mut r = Req::Set("h".into(), g.small(), Ttl::Px(5)).encode();
            for _ in 0..g.r.range(1, 4) {
                let i = g.r.below(r.len() as u64) as usize;
                r[i] = g.r.u64() as u8;
            }
            r
        }
        8 => {
            let n = g.r.range(1, 300) as usize;
            (0..n).map(|_| g.r.u64() as u8).collect()
        }
        9 => {
            // from the protocol's alphabet
            let n = g.r.range(1, 60) as usize;
            let a = b"*$+-:%_#,(\r\n\r\n0123456789-1";
            (0..n).map(|_| *g.r.pick(&a[..])).collect()
        }
        10 => b"*1000000000\r\n$4\r\nPING\r\n".to_vec(),
        11 => b"*2\r\n$3\r\nGET\r\n$18446744073709551615\r\nab\r\n".to_vec(),
        12 => b"%9223372036854775808\r\n+a\r\n+b\r\n".to_vec(),
        13 => b"%9223372036854775807\r\n".to_vec(),
        14 => {
            let d = g.pick(&[8usize, 200, 5000, 60_000]);
            let mut v = b"*1\r\n".repeat(d);
            v.extend_from_slice(b"$4\r\nPING\r\n");
            v
        }
        15 => {
            let d = g.pick(&[3usize, 500, 20_000]);
            let mut v = Vec::new();
            for _ in 0..d {
                v.extend_from_slice(b"%1\r\n+a\r\n");
            }
            v.extend_from_slice(b"+b\r\n");
            v
        }
        16 => b"%1\r\n%1\r\n+a\r\n+b\r\n+c\r\n".to_vec(),
        17 => b"*1\r\n+\xff\xfe\r\n".to_vec(),
        18 => b"*2\r\n+GET\r\n+\xc3\x28\r\n".to_vec(),
        19 => cmd(&[b"ACL", b"CAT"]),
        20 => {
            let mut v = b"*3\r\n$3\r\nSET\r\n$1\r\nh\r\n$9223372036854775807\r\n".to_vec();
            v.extend(vec![b'x'; g.r.below(5000) as usize]);
            v
        }
        _ => b"*2\r\n*1\r\n%1\r\n*1\r\n%1\r\n+a\r\n:1\r\n+z\r\n+y\r\n".to_vec(),
    }
}

fn weird_text(g: &mut G) -> String {
    let p = [
        "a b", "a\r\nb", "x\r\n+OK", "x\r\n$-1", "\r\n", "\n", "\r", "a\tb", "x id=0 addr=1", "name\0nul", "é", "日本", "a=b",
        "x\r\n-ERR forged", " lead", "trail ", "\u{7f}", "x\u{85}y", "*1", "$5", "'quote'", "\u{1b}[31m", "",
    ];
    let s = g.pick(&p);
    if g.chance(1, 4) {
        let t = g.pick(&p);
        if g.chance(1, 4) {
            // long: beyond what a server may keep or show of it
            let n = g.pick(&[64usize, 128, 256, 1024]);
            let mut u = t.repeat(n / t.len().max(1) + 1);
            u.push_str(s);
            return u;
        }
        format!("{}{}", s, t)
    } else {
        s.to_string()
    }
}

pub fn generate(profile: &str, seed: u64, _cpus: u8, limit: u16) -> Plan {
    let mut g = G { r: Rng::new(seed), tag: 0, past: vec![], plan: Plan { profile: profile.into(), seed, ..Default::default() } };
    let long = seed / 1_000_000_000_000 == 9 || g.chance(1, 600);
    match profile {
        "C09" | "C10" | "C16" if long && seed % 4 > 0 => marathon(&mut g, limit),
        "C03" if long => long_haul(&mut g, 0),
        "C01" if long => {
            let keys = g.pick(&[1u64, 100, 40_000]);
            long_haul(&mut g, keys)
        }
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        "C13" => c13(&mut g),
        "C14" => c14(&mut g),
        "C15" => c15(&mut g),
        "C16" => c16(&mut g, limit),
        "C18" => c18(&mut g, false),
        "C19" => c19(&mut g, limit),
        "C20" => c20(&mut g, limit),
        _ => {
            g.conn(Role::Good, vec![Step::Connect, Step::Send(vec![Req::Ping]), Step::Wait(0)]);
        }
    }
    if profile != "C19" {
        spice(&mut g, profile, long);
    }
    g.plan
}

/// Keys and values a client may pick that are special somewhere.
const LONG_US: [u64; 8] = [400_000, 1_200_000, 2_500_000, 6_000_000, 12_000_000, 35_000_000, 70_000_000, 400_000_000];
const ODD_KEYS: [&str; 26] = [
    "", " ", "}", "{", "{}", "}{", "a}b{", "{a}", "x{a}y{b}", "{{a}}", "\r\n", "a\r\nb", "$-1\r\n", "*1", "0", "-1", "é", "日本語", "\0", "a\0b",
    "EX", "px", "KEY", "key", "k e y", "\u{7f}",
];

/// What any client may do in any workload: other ways to write the same
/// request, odd keys, long pauses, very many idle connections.
fn spice(g: &mut G, profile: &str, long: bool) {
    // the same requests, written differently
    if g.chance(1, 4) {
        let all = g.chance(1, 2);
        for i in 0..g.plan.conns.len() {
            if all || g.chance(1, 2) {
                g.plan.conns[i].enc = g.pick(&[7u8, 7, 1, 2, 4, 5]);
            }
        }
    }
    // other names for the keys
    if profile != "C07" && g.chance(1, 5) {
        let mut names: std::collections::BTreeMap<String, String> = Default::default();
        let mut used: std::collections::BTreeSet<String> = Default::default();
        let mut seen = vec![];
        for c in &g.plan.conns {
            for s in &c.steps {
                if let Step::Send(v) = s {
                    for q in v {
                        if let Req::Set(k, ..) | Req::Get(k) = q {
                            seen.push(k.clone());
                        }
                    }
                }
            }
        }
        let same = g.chance(1, 4);
        let head = g.pick(&["x", "{t}", "é", "user:"]).repeat(g.pick(&[1usize, 8, 40, 64, 130, 260, 600, 1100, 4200]));
        let tail = g.chance(1, 3);
        for k in seen {
            if k.len() > 100 || names.contains_key(&k) {
                continue;
            }
            let mut n = match g.r.below(8) {
                _ if same && tail => format!("{}{}", k, head),
                _ if same => format!("{}{}", head, k),
                0..=4 => g.pick(&ODD_KEYS).to_string(),
                5 => "k".repeat(g.r.range(1, 5000) as usize),
                6 => format!("{}{}", g.pick(&ODD_KEYS), g.pick(&ODD_KEYS)),
                _ => k.clone(),
            };
            while !used.insert(n.clone()) {
                n = format!("{}{}", n, g.pick(&["}", "{", "x", "\0", " "]));
            }
            names.insert(k, n);
        }
        for c in &mut g.plan.conns {
            for s in &mut c.steps {
                if let Step::Send(v) = s {
                    for q in v {
                        if let Req::Set(k, ..) | Req::Get(k) = q {
                            if let Some(n) = names.get(k) {
                                *k = n.clone();
                            }
                        }
                    }
                }
            }
        }
    }
    // a client that is silent for long
    if !matches!(profile, "C15" | "C16" | "C18" | "C20") && g.plan.conns.len() < 1000 && g.chance(1, 12) {
        for i in 0..g.plan.conns.len() {
            if g.plan.conns[i].role != Role::Good || g.chance(1, 2) {
                continue;
            }
            let at: Vec<usize> = (0..g.plan.conns[i].steps.len())
                .filter(|n| matches!(g.plan.conns[i].steps[*n], Step::Send(_)))
                .collect();
            if at.is_empty() {
                continue;
            }
            let n = *g.r.pick(&at);
            let us = g.pick(&[2_000_000u64, 6_000_000, 11_000_000, 31_000_000, 61_000_000, 301_000_000, 601_000_000]);
            g.plan.conns[i].steps.insert(n, Step::SleepUs(us));
            if g.chance(1, 4) && g.plan.conns[i].seg != 0 && g.plan.conns[i].steps.len() < 40 {
                let sent: usize = g.plan.conns[i]
                    .steps
                    .iter()
                    .map(|s| if let Step::Send(r) = s { r.iter().map(|r| r.encode().len()).sum() } else { 0 })
                    .sum();
                if sent < 400 {
                    g.plan.conns[i].gap_us = g.pick(&[300_000u32, 2_000_000, 7_000_000]);
                }
            }
        }
    }
    // setting up a connection fails now and then
    if matches!(profile, "C09" | "C10" | "C11" | "C15" | "C16") && g.chance(1, 6) {
        g.plan.env.sock_err = g.pick(&[20u32, 6, 2]);
        g.plan.env.accept_err = g.pick(&[0u32, 20, 4]);
        if profile == "C15" {
            // what stays connected may be hit as well: memory is not compared
            for c in &mut g.plan.conns {
                c.steps.retain(|s| !matches!(s, Step::Measure(_)));
            }
        }
    }
    // very many connections that do next to nothing
    let odds = match profile {
        "C10" => 10,
        "C09" | "C13" => 16,
        "C03" | "C05" | "C06" | "C08" | "C11" | "C12" | "C14" => 40,
        _ => 0,
    };
    if odds > 0 && (long || g.chance(1, odds)) {
        let n = if long || g.chance(1, 12) { g.pick(&[600u64, 1100, 2500, 5000]) } else { g.pick(&[20u64, 66, 70, 130, 200, 260, 300]) };
        let at = g.pick(&[0u64, 0, 1, 200, 3000]);
        let say = g.r.below(4);
        for i in 0..n {
            let mut v = vec![];
            if at > 0 {
                v.push(Step::SleepUs(1 + g.r.below(at)));
            }
            v.push(Step::Connect);
            match say {
                0 => {}
                1 => v.push(Step::Send(vec![Req::Ping])),
                2 => v.push(Step::Send(vec![Req::Id, Req::SetName(format!("idle-{}", i))])),
                _ => v.push(Step::Send(vec![Req::Id])),
            }
            if say > 0 {
                v.push(Step::Wait(0));
            }
            v.push(Step::Others);
            if g.chance(1, 2) {
                v.push(Step::Send(vec![Req::Id]));
                v.push(Step::Wait(0));
            }
            g.end(&mut v);
            g.conn(Role::Good, v);
        }
    }
}

/// Everybody does one thing to the same key at the same moment, then looks.
fn rounds(g: &mut G) {
    let nc = g.range(2, 4);
    let n = g.range(3, 16);
    let fresh = g.chance(1, 2);
    let nk = g.pick(&[1u64, 1, 2]);
    let looks = g.range(1, 2) as usize;
    let ttl = g.chance(1, 4);
    let quiet = g.chance(1, 2);
    let mut all: Vec<Steps> = vec![vec![Step::Connect, Step::Send(vec![Req::Ping]), Step::Wait(0)]; nc as usize];
    for r in 0..n {
        let k = if fresh { format!("f{}", r) } else { g.key(nk) };
        let writers = g.range(1, nc);
        let first = g.r.below(nc);
        for (c, v) in all.iter_mut().enumerate() {
            v.push(Step::Signal(100 + r as u16));
            v.push(Step::Gate(100 + r as u16, nc as u32));
            if !quiet || g.chance(1, 3) {
                g.jit(v);
            }
            let mut b = vec![];
            if g.chance(1, 4) {
                b.push(Req::Get(k.clone()));
            }
            if (c as u64 + first) % nc < writers {
                let val = g.again(&k);
                let t = if ttl && g.chance(1, 3) { Ttl::Px(g.r.range(1, 6)) } else { Ttl::None };
                b.push(Req::Set(k.clone(), val, t));
            } else {
                b.push(Req::Get(k.clone()));
            }
            v.push(Step::Send(b));
            v.push(Step::Wait(0));
            for _ in 0..looks {
                v.push(Step::Send(vec![Req::Get(k.clone())]));
                v.push(Step::Wait(0));
            }
        }
    }
    for v in all {
        g.conn(Role::Good, v);
    }
    g.late(&if fresh { (0..n).map(|r| format!("f{}", r)).collect() } else { keys(nk) });
}

fn c01(g: &mut G) {
    let io = g.chance(1, 3);
    g.env(io);
    if g.chance(1, 3) {
        return rounds(g);
    }
    let long = g.chance(1, 16);
    let nc = if long { g.range(2, 3) } else { g.range(2, 6) };
    let nk = if long { g.pick(&[1u64, 5, 40, 300, 1500]) } else { g.pick(&[1u64, 1, 2, 3, 5]) };
    let sets = g.range(2, 8);
    let ttls = g.chance(1, 3);
    let depth = if long { g.pick(&[20u64, 100, 600]) } else { g.pick(&[1u64, 1, 2, 6]) };
    for _ in 0..nc {
        let mut v = vec![];
        g.jit(&mut v);
        v.push(Step::Connect);
        let n = if long { g.range(300, 1500) } else { g.range(3, 12) };
        g.session(&mut v, n, depth, &mut |g| {
            let k = g.key(nk);
            if g.r.below(10) < sets {
                let t = if ttls { g.ttl() } else { Ttl::None };
                let v = g.again(&k);
                Req::Set(k, v, t)
            } else {
                Req::Get(k)
            }
        });
        if g.chance(1, 5) {
            // drop the connection with requests in flight
            let k = g.key(nk);
            let val = g.small();
            v.pop();
            v.push(Step::Send(vec![Req::Set(k, val, Ttl::None)]));
            if g.chance(1, 2) {
                v.push(Step::SleepUs(g.r.range(1, 300)));
            }
            v.push(Step::Abort);
        }
        let c = g.conn(Role::Good, v);
        if io {
            if long {
                g.plan.conns[c].seg = g.pick(&[0i32, 1460, -3000]);
            } else {
                g.cut(c);
            }
        }
    }
    g.late(&keys(nk));
}

fn c02(g: &mut G) {
    g.env(false);
    if g.chance(1, 2) {
        let n = g.range(1, 4);
        for _ in 0..n {
            let at = g.range(0, 60_000);
            let d = g.pick(&[1i64, -1, 1000, -1000, 3_600_000, -3_600_000, -40_000_000_000, 40_000_000_000]);
            g.plan.env.real_jumps.push((at, d));
        }
    }
    let nk = g.pick(&[1u64, 1, 2, 3]);
    let base = g.pick(&[1u64, 3, 10, 25, 60]);
    let long = g.chance(1, 6);
    let racing = g.chance(2, 3);
    let nc = if racing { g.range(2, 5) } else { 1 };
    for _ in 0..nc {
        let mut v = vec![Step::Connect];
        let n = g.range(2, 7);
        for _ in 0..n {
            let k = g.key(nk);
            let val = g.again(&k);
            let t = match g.r.below(14) {
                0..=2 if long => match g.r.below(3) {
                    0 => Ttl::Ex(g.pick(&[60, 3600, 5000, 65_536, 86_400, 604_800, 4_294_968, 31_536_000])),
                    1 => Ttl::Px(g.pick(&[65_536, 3_600_000, 86_400_000, 2_147_483_648, 4_294_967_296, 4_294_967_297, 31_536_000_000])),
                    _ => Ttl::Ex(g.r.range(3, 40_000_000)),
                },
                0..=5 => Ttl::Px(base),
                6 => Ttl::Px(g.r.range(0, 2 * base)),
                7 => Ttl::None,
                8 => Ttl::Ex(g.r.range(0, 2)),
                9 => Ttl::Ex(g.pick(&[
                    1000,
                    86_400,
                    1 << 31,
                    (1 << 32) - 1,
                    1 << 32,
                    (1 << 32) + 1,
                    1 << 33,
                    1 << 40,
                    1 << 62,
                    1 << 63,
                    u64::MAX / 1000,
                    u64::MAX - 1,
                    u64::MAX,
                ])),
                10 => Ttl::Px(g.pick(&[
                    1 << 31,
                    1 << 32,
                    (1 << 32) * 1000 - 1,
                    (1 << 32) * 1000,
                    (1 << 33) * 1000,
                    1 << 52,
                    1 << 62,
                    u64::MAX / 1000,
                    u64::MAX,
                ])),
                11 => {
                    let e = g.range(0, 63);
                    let n = (1u64 << e).wrapping_add(g.r.below(3)).wrapping_sub(1);
                    if g.chance(1, 2) {
                        Ttl::Ex(n)
                    } else {
                        Ttl::Px(n)
                    }
                }
                _ => Ttl::Px(base),
            };
            let near = match &t {
                Ttl::Px(m) if *m < 100_000 => *m * 1000,
                Ttl::Ex(s) if *s < 100 => *s * 1_000_000,
                // hours, days, months
                Ttl::Px(m) if long && *m < 40_000_000_000 => *m * 1000,
                Ttl::Ex(s) if long && *s < 40_000_000 => *s * 1_000_000,
                _ => base * 1000,
            };
            if g.chance(1, 4) {
                v.push(Step::Send(vec![Req::Set(k.clone(), val, t), Req::Get(k.clone())]));
            } else {
                v.push(Step::Send(vec![Req::Set(k.clone(), val, t)]));
            }
            v.push(Step::Wait(0));
            // look around the instant of expiry, or set again right there
            let m = g.range(1, 3);
            for _ in 0..m {
                let tick = g.plan.env.tick_us as u64;
                let d = match g.r.below(5) {
                    0 => g.r.below(near + 1),
                    1 => near.saturating_sub(g.r.below(2 * tick + 200)),
                    2 => near + g.r.below(2 * tick + 200),
                    3 => near + 2 * tick + g.r.below(3000),
                    _ => near + near / 2 + 2 * tick,
                };
                if g.chance(3, 4) {
                    v.push(Step::SleepUs(if long { d } else { d.min(3_000_000) }));
                }
                let k2 = if g.chance(4, 5) { k.clone() } else { g.key(nk) };
                if racing && g.chance(1, 3) {
                    let val = g.again(&k2);
                    let t = if g.chance(1, 2) { Ttl::None } else { Ttl::Px(base) };
                    v.push(Step::Send(vec![Req::Set(k2.clone(), val, t)]));
                    v.push(Step::Wait(0));
                }
                v.push(Step::Send(vec![Req::Get(k2)]));
                v.push(Step::Wait(0));
            }
        }
        g.conn(Role::Good, v);
    }
    g.late(&keys(nk));
    // and long after: permanent keys are still there, timed ones are not
    let far = if g.chance(1, 4) { 40_000_000_000_000 } else { 200_000_000 };
    let mut v = vec![Step::Others, Step::SleepUs(g.r.range(1, far)), Step::Connect];
    v.push(Step::Send(keys(nk).into_iter().map(Req::Get).collect()));
    v.push(Step::Wait(0));
    g.conn(Role::Good, v);
}

fn c03(g: &mut G) {
    let io = g.chance(2, 3);
    g.env(io);
    let nc = g.range(1, 4);
    let deep = g.chance(1, 12);
    for c in 0..nc {
        if deep && g.chance(2, 3) {
            deep_pipeline(g, c as usize);
            continue;
        }
        let n = g.pick(&[5u64, 20, 60, 150]);
        let depth = g.pick(&[1u64, 5, 20, 150]);
        let mut v = g.bystander(c as usize, n, depth);
        if g.chance(1, 3) {
            g.end(&mut v);
        }
        let i = g.conn(Role::Good, v);
        g.cut(i);
    }
}

/// Thousands of requests at once, from a client that may read late or slowly.
fn deep_pipeline(g: &mut G, c: usize) {
    let mut v = vec![Step::Connect];
    let n = g.pick(&[300u64, 600, 1100, 2100, 4200]);
    let pre = format!("d{}.", c);
    let mix = g.r.below(4);
    let late = g.r.below(4);
    match late {
        0 | 1 => v.push(Step::Pause),
        2 => v.push(Step::Slow(g.r.range(100, 5000) as u32, g.r.range(1, 100) as u32)),
        _ => {}
    }
    let mut left = n;
    while left > 0 {
        let m = g.pick(&[50u64, 500, 5000]).min(left);
        left -= m;
        let mut b = vec![];
        for _ in 0..m {
            b.push(match mix {
                0 => Req::Ping,
                1 => {
                    g.tag += 1;
                    Req::PingMsg(Val { k: 0, t: g.tag, n: 8 })
                }
                2 => match g.r.below(3) {
                    0 => {
                        let v = g.small();
                        Req::Set(format!("{}{}", pre, g.r.below(3)), v, Ttl::None)
                    }
                    1 => Req::Get(format!("{}{}", pre, g.r.below(3))),
                    _ => Req::Id,
                },
                _ => match g.any(3, &pre) {
                    Req::List | Req::Help | Req::ClientNone => Req::GetName,
                    q => q,
                },
            });
        }
        v.push(Step::Send(b));
        g.jit(&mut v);
    }
    if late < 2 {
        v.push(Step::SleepUs(g.r.range(1, 60_000)));
        v.push(Step::Resume);
    }
    if g.chance(1, 4) {
        v.push(Step::HalfClose);
        v.push(Step::Eof);
    } else {
        v.push(Step::Wait(0));
    }
    let i = g.conn(Role::Good, v);
    g.plan.conns[i].seg = g.pick(&[0i32, 1460, -3000]);
    g.plan.conns[i].rcvbuf = g.pick(&[0u32, 4096]);
}

fn c04(g: &mut G) {
    g.env(true);
    if g.chance(1, 60) {
        return huge_value(g, 0);
    }
    let nc = g.range(1, 3);
    for c in 0..nc {
        let mut v = vec![Step::Connect];
        let n = g.range(2, 10);
        let huge = g.chance(1, 8);
        let mut i = 0;
        while i < n {
            let k = format!("s{}.{}", c, g.r.below(3));
            let val = match g.r.below(10) {
                0..=2 => g.small(),
                3 => {
                    let n = g.r.below(6) as u32;
                    g.val(n)
                }
                4 => {
                    let n = g.pick(&[1u32 << 17, 200_000, 300_001]);
                    if huge {
                        g.val(n)
                    } else {
                        g.big()
                    }
                }
                _ => g.big(),
            };
            let mut b = vec![Req::Set(k.clone(), val, Ttl::None), Req::Get(k.clone())];
            if g.chance(1, 3) {
                let m = g.range(1, 30);
                for _ in 0..m {
                    b.push(Req::Ping);
                }
            }
            if g.chance(1, 4) {
                let m = g.big();
                b.push(Req::PingMsg(m));
            }
            if g.chance(1, 4) {
                let n = g.r.range(1, 6000) as usize;
                b.push(Req::Get("x".repeat(n)));
            }
            v.push(Step::Send(b));
            if g.chance(2, 3) {
                v.push(Step::Wait(0));
            }
            g.jit(&mut v);
            i += 1;
        }
        v.push(Step::Wait(0));
        let i = g.conn(Role::Good, v);
        let total: usize = g.plan.conns[i]
            .steps
            .iter()
            .map(|s| if let Step::Send(r) = s { r.iter().map(|r| r.encode().len()).sum() } else { 0 })
            .sum();
        let s = if total > 60_000 {
            g.pick(&[0i32, -3000, -9000, 4096, 1460, 4095, 8192])
        } else if total > 8000 {
            g.pick(&[0i32, -60, -1000, -5000, 4096, 1460, 100, 17, 4097])
        } else {
            g.pick(&[1i32, 2, 3, -2, -5, -40, 1, 0])
        };
        g.plan.conns[i].seg = s;
        g.plan.conns[i].gap_us = g.pick(&[0u32, 0, 3, 30, 300]);
    }
}

/// A value of megabytes, read back while reading slowly.
fn huge_value(g: &mut G, c: usize) {
    let n = g.pick(&[(1u32 << 20) - 1, 1 << 20, (1 << 20) + 1, 1_500_000, 1 << 21, (1 << 22) + 7]);
    let k = format!("huge{}", c);
    let val = g.val(n);
    let mut v = vec![Step::Connect, Step::Send(vec![Req::Set(k.clone(), val, Ttl::None), Req::Get(k.clone()), Req::Ping])];
    if g.chance(1, 2) {
        let m = g.val(n);
        v.push(Step::Send(vec![Req::PingMsg(m), Req::Id]));
    }
    v.push(Step::Wait(0));
    let i = g.conn(Role::Good, v);
    g.plan.conns[i].seg = g.pick(&[0i32, 16_384, 65_535]);
    let e = &mut g.plan.env;
    e.sndbuf = e.sndbuf.max(1 << 14);
    e.rcvbuf = e.rcvbuf.max(1 << 14);
    e.short_r = 0;
    e.short_w = 0;
}

fn c05(g: &mut G) {
    g.env(true);
    if g.chance(1, 60) {
        return huge_value(g, 0);
    }
    let sb = g.pick(&[1u32 << 17, 1 << 14, 4096, 1000, 300, 64]);
    g.plan.env.sndbuf = sb;
    let extra = g.pick(&[0u64, 0, 3, 40]);
    let nc = g.range(1, 3);
    let done: u16 = 9;
    for c in 0..nc {
        let mut v = vec![Step::Connect];
        if g.chance(1, 2) {
            v.push(Step::Slow(g.r.range(1, 5000) as u32, g.r.range(1, 300) as u32));
        }
        let n = g.range(1, 6);
        for _ in 0..n {
            let k = format!("w{}.{}", c, g.r.below(2));
            let mut b = vec![];
            match g.r.below(8) {
                0 | 1 => {
                    let val = g.big();
                    b.push(Req::Set(k.clone(), val, Ttl::None));
                    let m = g.range(1, 5);
                    for _ in 0..m {
                        b.push(Req::Get(k.clone()));
                    }
                }
                2 => {
                    let n = g.pick(&[8170u32, 8183, 8184, 8185, 8186, 8187, 8188, 8192, 8193, 16384, 100_000]);
                    let m = g.val(n);
                    b.push(Req::PingMsg(m));
                    b.push(Req::Ping);
                }
                3 => b.push(Req::Help),
                4 => b.push(Req::List),
                5 => {
                    let m = g.range(1, 60);
                    for _ in 0..m {
                        b.push(Req::Hello);
                    }
                }
                6 => {
                    let n = g.r.range(1, 9000) as usize;
                    b.push(Req::Unknown("u".repeat(n), 1));
                }
                _ => {
                    let m = g.range(1, 8);
                    for _ in 0..m {
                        let q = g.big();
                        b.push(Req::PingMsg(q));
                    }
                }
            }
            if g.chance(1, 3) {
                v.push(Step::Pause);
                v.push(Step::Send(b));
                let us = g.r.range(1, 20_000);
                v.push(Step::SleepUs(if g.chance(1, 6) { g.pick(&LONG_US) } else { us }));
                v.push(Step::Resume);
            } else {
                v.push(Step::Send(b));
            }
            if g.chance(2, 3) {
                v.push(Step::Wait(0));
            }
        }
        v.push(Step::Resume);
        v.push(Step::Wait(0));
        v.push(Step::Signal(done));
        let i = g.conn(Role::Good, v);
        g.plan.conns[i].rcvbuf = g.pick(&[0u32, 0, 4096, 500, 100]);
    }
    // others make CLIENT LIST long
    for i in 0..extra {
        let v = vec![
            Step::Connect,
            Step::Send(vec![Req::SetName(format!("filler-with-a-long-name-{}-{}", i, "n".repeat((i as usize * 7) % 90)))]),
            Step::Wait(0),
            Step::Gate(done, nc as u32),
        ];
        g.conn(Role::Good, v);
    }
}

fn hostile_conn(g: &mut G, sig: u16) {
    let mut v = vec![];
    g.jit(&mut v);
    v.push(Step::Connect);
    let mut n = g.range(1, 3);
    while n > 0 {
        n -= 1;
        let mut b = vec![];
        if g.chance(1, 3) {
            let m = g.range(1, 5);
            for _ in 0..m {
                let q = match g.any(2, "h") {
                    Req::Unknown(..) => Req::Ping,
                    q => q,
                };
                b.push(Req::Raw(hex(&q.encode())));
            }
        }
        let raw = hostile(g);
        b.push(Req::Raw(hex(&raw)));
        if g.chance(1, 3) {
            let q = g.any(2, "h");
            b.push(Req::Raw(hex(&q.encode())));
        }
        if g.chance(1, 6) {
            v.push(Step::Pause);
        }
        v.push(Step::Send(b));
        g.jit(&mut v);
    }
    match g.r.below(7) {
        0 => v.push(Step::Abort),
        1 => {
            v.push(Step::HalfClose);
            v.push(Step::SleepUs(g.r.range(1, 5000)));
        }
        2 => v.push(Step::Dead),
        3 => v.push(Step::SleepUs(g.r.range(1, 20_000))),
        _ => {
            v.push(Step::SleepUs(g.r.range(1, 300)));
            v.push(Step::Close);
        }
    }
    v.push(Step::Signal(sig));
    let i = g.conn(Role::Hostile, v);
    if g.chance(1, 2) {
        let len: usize = g.plan.conns[i]
            .steps
            .iter()
            .map(|s| if let Step::Send(r) = s { r.iter().map(|r| r.encode().len()).sum() } else { 0 })
            .sum();
        if len < 3000 {
            g.cut(i);
        } else {
            g.plan.conns[i].seg = g.pick(&[0i32, 1460, -4000]);
        }
    }
}

/// A client that goes away at any moment, with replies in flight.
fn leaver(g: &mut G, sig: u16) {
    let mut v = vec![];
    g.jit(&mut v);
    v.push(Step::Connect);
    if g.chance(1, 3) {
        v.push(Step::Pause);
    }
    let n = g.range(1, 20);
    let mut b = vec![];
    for _ in 0..n {
        let q = if g.chance(1, 3) {
            let m = g.big();
            Req::PingMsg(m)
        } else {
            g.any(2, "l")
        };
        b.push(q);
    }
    v.push(Step::Send(b));
    match g.r.below(4) {
        0 => {}
        1 => v.push(Step::SleepUs(g.r.range(1, 100))),
        2 => v.push(Step::SleepUs(g.r.range(1, 3000))),
        _ => v.push(Step::WaitBytes(g.r.range(1, 3000))),
    }
    v.push(match g.r.below(4) {
        0 => Step::Close,
        1 => Step::Dead,
        _ => Step::Abort,
    });
    v.push(Step::Signal(sig));
    let i = g.conn(Role::Hostile, v);
    if g.chance(1, 3) {
        g.plan.conns[i].seg = g.pick(&[1460i32, -500]);
    }
}

fn c06(g: &mut G) {
    let io = g.chance(1, 2);
    g.env(io);
    let nb = g.range(1, 2);
    let nh = g.range(1, 5);
    for c in 0..nb {
        let n = g.range(5, 25);
        let mut v = g.bystander(c as usize, n, 4);
        // and again after the damage
        v.push(Step::Gate(1, nh as u32));
        g.session(&mut v, 6, 3, &mut |g| g.any(3, "k"));
        g.conn(Role::Good, v);
    }
    for _ in 0..nh {
        if g.chance(2, 3) {
            hostile_conn(g, 1);
        } else {
            leaver(g, 1);
        }
    }
    // newcomers on every core
    let n = g.range(1, 4);
    for c in 0..n {
        let mut v = vec![Step::Gate(1, nh as u32), Step::SleepUs(g.r.range(1, 3000))];
        let mut b = g.bystander(c as usize, 5, 2);
        v.append(&mut b);
        g.conn(Role::Good, v);
    }
}

fn c07(g: &mut G) {
    let io = g.chance(1, 2);
    g.env(io);
    let no = g.range(1, 3);
    let nk = 4;
    for _ in 0..no {
        let mut v = vec![Step::Connect];
        let mut b = vec![];
        let np = g.pick(&[0u64, 0, 1, 3, 10, 40]);
        if g.chance(1, 2) && np > 0 {
            g.session(&mut v, np, 4, &mut |g| {
                let k = g.key(nk);
                if g.chance(1, 2) {
                    let v = g.small();
                    Req::Set(k, v, Ttl::None)
                } else {
                    g.any(2, "k")
                }
            });
            if g.chance(1, 2) {
                v.pop();
            }
        } else {
            for _ in 0..np {
                let k = g.key(nk);
                let val = g.small();
                b.push(if g.chance(1, 2) { Req::Set(k, val, Ttl::None) } else { Req::Get(k) });
            }
        }
        let m = malformed(g);
        b.push(Req::Bad(hex(&m)));
        let na = g.pick(&[0u64, 1, 1, 4, 30]);
        for _ in 0..na {
            let k = g.key(nk);
            let val = g.small();
            b.push(if g.chance(2, 3) { Req::Set(k, val, Ttl::None) } else { Req::SetName("intruder".into()) });
        }
        v.push(Step::Send(b));
        if g.chance(1, 3) {
            v.push(Step::SleepUs(g.r.range(1, 400)));
            let k = g.key(nk);
            let val = g.small();
            v.push(Step::Send(vec![Req::Set(k, val, Ttl::None), Req::Ping]));
        }
        v.push(Step::Eof);
        v.push(Step::Signal(1));
        let i = g.conn(Role::Offender, v);
        g.cut(i);
    }
    let nb = g.range(1, 2);
    for _ in 0..nb {
        let mut v = vec![Step::Connect];
        let n = g.range(3, 12);
        g.session(&mut v, n, 2, &mut |g| {
            let k = g.key(nk);
            match g.r.below(5) {
                0 | 1 => {
                    let v = g.small();
                    Req::Set(k, v, Ttl::None)
                }
                2 | 3 => Req::Get(k),
                _ => Req::List,
            }
        });
        v.push(Step::Gate(1, no as u32));
        v.push(Step::Send(keys(nk).into_iter().map(Req::Get).collect()));
        v.push(Step::Wait(0));
        g.conn(Role::Good, v);
    }
    g.late(&keys(nk));
}

fn c08(g: &mut G) {
    g.env(true);
    let nc = g.range(1, 4);
    for c in 0..nc {
        let mut v = vec![];
        g.jit(&mut v);
        v.push(Step::Connect);
        if g.chance(1, 3) {
            g.session(&mut v, 4, 2, &mut |g| g.any(3, "k"));
        }
        let mut paused = false;
        match g.r.below(4) {
            0 => {
                paused = true;
                v.push(Step::Pause)
            }
            1 => v.push(Step::Slow(g.r.range(1, 2000) as u32, g.r.range(1, 400) as u32)),
            _ => {}
        }
        let n = g.pick(&[0u64, 1, 2, 5, 20, 80]);
        let mut b = vec![];
        // more to say than the network holds for a client that reads later
        let stuck = paused && g.chance(1, 2);
        if stuck {
            let mut left = g.plan.env.sndbuf as i64 + 5000;
            while left > 0 {
                let m = g.big();
                left -= m.n as i64;
                b.push(Req::PingMsg(m));
            }
        }
        for _ in 0..n {
            let q = match g.r.below(6) {
                0 => {
                    let m = g.big();
                    Req::PingMsg(m)
                }
                1 => Req::List,
                _ => g.any(3, &format!("h{}.", c)),
            };
            b.push(q);
        }
        if g.chance(1, 5) {
            // the stream ends inside a request
            let val = g.small();
            let k = format!("h{}.0", c);
            let r = Req::Set(k, val, Ttl::None).encode();
            let n = g.r.range(1, r.len() as u64 - 1) as usize;
            b.push(Req::Raw(hex(&r[..n])));
        }
        v.push(Step::Send(b));
        if g.chance(1, 2) {
            g.jit(&mut v);
        }
        v.push(Step::HalfClose);
        if paused {
            let us = g.r.range(1, 30_000);
            v.push(Step::SleepUs(if g.chance(1, 4) { g.pick(&LONG_US) } else { us }));
            v.push(Step::Resume);
        }
        v.push(Step::Eof);
        let i = g.conn(Role::Good, v);
        if stuck {
            g.plan.conns[i].rcvbuf = g.pick(&[4096u32, 500, 100]);
        }
        let big = stuck || g.plan.conns[i].steps.iter().any(|s| matches!(s, Step::Send(r) if r.len() > 30));
        if big {
            g.plan.conns[i].seg = g.pick(&[0i32, 1460, -3000]);
        } else {
            g.cut(i);
        }
    }
    // a witness lists the connections meanwhile
    if g.chance(2, 3) {
        let mut v = vec![Step::Connect];
        let n = g.range(2, 12);
        for _ in 0..n {
            v.push(Step::Send(vec![Req::List]));
            v.push(Step::Wait(0));
            v.push(Step::SleepUs(g.r.range(1, 3000)));
        }
        g.conn(Role::Good, v);
    }
}

/// Tens of thousands of connections, one after the other, next to some that
/// stay: counters of 16 bits are not enough.
fn marathon(g: &mut G, limit: u16) {
    g.env(false);
    let e = &mut g.plan.env;
    e.stall = 0;
    e.delay = 0;
    e.bound_ms = 600_000;
    if e.preempt > 0 {
        e.preempt = 400;
    }
    let n = g.pick(&[9_000u64, 66_500, 66_500]);
    let mut gap = g.pick(&[30u64, 60]);
    let mut stay = 2;
    if limit < 100 {
        // who waits for another to end is looked at every 10 ms: when only a
        // few are served at once, come no faster than the server can serve
        stay = stay.min(limit as u64 - 1);
        if n > 10_000 || limit < 4 {
            gap = g.pick(&[11_000u64, 13_000]);
            g.plan.env.bound_ms = 3_600_000;
        }
    }
    let end = g.r.below(5);
    let named = g.chance(1, 3);
    for i in 0..n + stay {
        let stays = i < stay;
        let mut v = if stays { vec![] } else { vec![Step::SleepUs(i * gap)] };
        v.push(Step::Connect);
        let mut b = vec![Req::Id];
        if stays || named && g.chance(1, 20) {
            b.push(Req::SetName(format!("m-{}", i)));
        }
        v.push(Step::Send(b));
        v.push(Step::Wait(0));
        if stays {
            v.push(Step::SleepUs((n + 1000) * gap));
            v.push(Step::Send(vec![Req::Id, Req::GetName, Req::Info, Req::List]));
            v.push(Step::Wait(0));
        }
        match if end < 4 { end } else { g.r.below(4) } {
            0 => v.push(Step::Abort),
            1 => {
                v.push(Step::HalfClose);
                v.push(Step::Eof);
            }
            _ => v.push(Step::Close),
        }
        g.conn(Role::Good, v);
    }
}

/// Tens of thousands of requests on one connection, or keys.
fn long_haul(g: &mut G, keys: u64) {
    g.env(false);
    let e = &mut g.plan.env;
    e.stall = 0;
    e.bound_ms = 600_000;
    if e.preempt > 0 {
        e.preempt = 400;
    }
    let n = g.pick(&[9_000u64, 34_000, 67_000]);
    let depth = g.pick(&[1usize, 100, 5_000, 70_000]);
    let mut v = vec![Step::Connect];
    let mut b = vec![];
    for i in 0..n {
        b.push(match g.r.below(8) {
            _ if keys == 0 && i % 7 > 0 => Req::Ping,
            0..=3 if keys > 0 => Req::Set(format!("h{}", i % keys), Val { k: 0, t: i as u32, n: 12 }, Ttl::None),
            4 | 5 if keys > 0 => Req::Get(format!("h{}", g.r.below(i % keys + 1))),
            6 => Req::Id,
            _ => Req::PingMsg(Val { k: 0, t: i as u32, n: 12 }),
        });
        if b.len() >= depth || i + 1 == n {
            v.push(Step::Send(std::mem::take(&mut b)));
            v.push(Step::Wait(0));
        }
    }
    if keys > 0 {
        for _ in 0..500 {
            b.push(Req::Get(format!("h{}", g.r.below(keys))));
        }
        v.push(Step::Send(b));
        v.push(Step::Wait(0));
    }
    g.conn(Role::Good, v);
}

fn c09(g: &mut G) {
    g.env(false);
    let waves = g.range(1, 4);
    let mut sig = 0u16;
    for w in 0..waves {
        let n = g.range(1, 8);
        for _ in 0..n {
            let mut v = vec![];
            if w > 0 {
                v.push(Step::Gate(sig, 1));
            }
            g.jit(&mut v);
            v.push(Step::Connect);
            let m = g.range(1, 5);
            for _ in 0..m {
                let q = match g.r.below(8) {
                    0..=2 => Req::Id,
                    3 => Req::Hello,
                    4 => Req::Info,
                    5 => Req::List,
                    6 => Req::SetName(format!("n{}", g.r.below(10))),
                    _ => Req::Ping,
                };
                v.push(Step::Send(vec![q]));
                if g.chance(3, 4) {
                    v.push(Step::Wait(0));
                }
            }
            v.push(Step::Send(vec![Req::Id]));
            v.push(Step::Wait(0));
            v.push(Step::Signal(sig + 1));
            if g.chance(1, 2) {
                // stay while the next wave comes
                v.push(Step::SleepUs(g.r.range(1, 20_000)));
                v.push(Step::Send(vec![Req::Id, Req::Hello]));
                v.push(Step::Wait(0));
            }
            g.end(&mut v);
            g.conn(Role::Good, v);
        }
        sig += 1;
    }
}

/// Connections from one port, one after the other: each is reset, perhaps with
/// the server busy on it, and the next is there at once.
fn same_port(g: &mut G) {
    let base = 50 + 10 * g.r.below(3) as u16;
    let n = g.range(2, 4) as u16;
    let port = g.range(2000, 9000) as u16;
    for i in 0..n {
        let mut v: Steps = vec![];
        if i > 0 {
            v.push(Step::Gate(base + i, 1));
            if g.chance(1, 3) {
                v.push(Step::SleepUs(g.r.range(1, 400)));
            }
        } else {
            g.jit(&mut v);
        }
        v.push(Step::Connect);
        let mut b = vec![Req::Id];
        if g.chance(1, 2) {
            b.push(Req::SetName(format!("turn-{}", i)));
        }
        if g.chance(1, 2) {
            b.push(Req::GetName);
        }
        v.push(Step::Send(b));
        v.push(Step::Wait(0));
        if i + 1 < n {
            match g.r.below(4) {
                0 => {
                    let m = g.big();
                    v.push(Step::Send(vec![Req::PingMsg(m); 3]));
                }
                1 => v.push(Step::Send(vec![Req::Info, Req::List, Req::Ping])),
                _ => {}
            }
            if g.chance(1, 3) {
                v.push(Step::SleepUs(g.r.range(1, 200)));
            }
            v.push(Step::Abort);
            v.push(Step::Signal(base + i + 1));
        } else {
            for _ in 0..g.range(2, 8) {
                v.push(Step::Send(vec![g.pick(&[Req::List, Req::List, Req::Info, Req::GetName, Req::Id])]));
                v.push(Step::Wait(0));
                v.push(Step::SleepUs(g.r.range(1, 1500)));
            }
            v.push(Step::SleepUs(g.pick(&[1000u64, 100_000, 4_000_000])));
            v.push(Step::Send(vec![Req::List, Req::Info, Req::GetName]));
            v.push(Step::Wait(0));
            g.end(&mut v);
        }
        let c = g.conn(Role::Good, v);
        g.plan.conns[c].port = port;
    }
}

/// A client that has ended its direction and reads its replies much later: it
/// is served until then.
fn lingers(g: &mut G) {
    let mut v = vec![];
    g.jit(&mut v);
    v.push(Step::Connect);
    v.push(Step::Send(vec![Req::Id]));
    v.push(Step::Wait(0));
    v.push(Step::Pause);
    let mut left = g.plan.env.sndbuf as i64 + 5000;
    let mut b = vec![];
    while left > 0 {
        let m = g.big();
        left -= m.n as i64;
        b.push(Req::PingMsg(m));
    }
    v.push(Step::Send(b));
    let half = g.chance(3, 4);
    if half {
        v.push(Step::HalfClose);
    }
    v.push(Step::SleepUs(g.pick(&LONG_US[..7])));
    v.push(Step::Resume);
    if half {
        v.push(Step::Eof);
    } else {
        v.push(Step::Wait(0));
        g.end(&mut v);
    }
    let i = g.conn(Role::Good, v);
    g.plan.conns[i].rcvbuf = g.pick(&[4096u32, 500, 100]);
    g.plan.conns[i].seg = g.pick(&[0i32, 1460, -3000]);
}

fn c10(g: &mut G) {
    let io = g.chance(1, 3);
    g.env(io);
    let late = g.chance(1, 6);
    if late {
        for _ in 0..g.range(1, 2) {
            lingers(g);
        }
    }
    if g.chance(1, 4) {
        same_port(g);
    }
    let n = g.range(2, 9);
    for _ in 0..n {
        let mut v = vec![];
        g.jit(&mut v);
        if g.chance(1, 3) {
            v.push(Step::SleepUs(g.r.range(1, 4000)));
        }
        v.push(Step::Connect);
        let m = g.range(1, 7);
        g.session(&mut v, m, 3, &mut |g| match g.r.below(8) {
            0..=2 => Req::List,
            3 => Req::Info,
            4 => Req::Id,
            5 => Req::SetName(format!("n{}", g.r.below(10))),
            6 => Req::GetName,
            _ => Req::Ping,
        });
        let off = g.chance(1, 6);
        if off {
            let m = malformed(g);
            v.push(Step::Send(vec![Req::Bad(hex(&m))]));
            v.push(Step::Eof);
        } else {
            g.end(&mut v);
        }
        g.conn(if off { Role::Offender } else { Role::Good }, v);
    }
    // a permanent observer, who looks again after the dust has settled
    let mut v = vec![Step::Connect, Step::Send(vec![Req::Id, Req::SetName("obs".into())]), Step::Wait(0)];
    let m = g.range(2, 10);
    for _ in 0..m {
        v.push(Step::Send(vec![Req::List]));
        v.push(Step::Wait(0));
        v.push(Step::SleepUs(g.r.range(1, if late { 15_000_000 } else { 2500 })));
    }
    v.push(Step::Others);
    v.push(Step::SleepUs(15_000_000));
    v.push(Step::Send(vec![Req::List, Req::Info]));
    v.push(Step::Wait(0));
    g.conn(Role::Good, v);
}

/// A name much like another one.
fn near(g: &mut G, s: &str) -> String {
    let mut b: Vec<u8> = s.bytes().collect();
    let flip = |c: &mut u8| {
        *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    };
    match g.r.below(7) {
        0 | 1 => b.iter_mut().for_each(flip),
        2 => {
            if let Some(c) = b.iter_mut().find(|c| c.is_ascii_alphabetic()) {
                flip(c);
            }
        }
        3 => b.push(b'x'),
        4 => {
            b.pop();
        }
        5 => b.reverse(),
        _ => {
            if let Some(c) = b.last_mut() {
                *c = if *c == b'!' { b'"' } else { *c - 1 };
            }
        }
    }
    String::from_utf8(b).unwrap()
}

fn c11(g: &mut G) {
    let io = g.chance(1, 4);
    g.env(io);
    if g.chance(1, 8) {
        same_port(g);
    }
    let n = g.range(1, 5);
    let mut before = "name-1".to_string();
    for _ in 0..n {
        let mut v = vec![];
        g.jit(&mut v);
        v.push(Step::Connect);
        let m = g.range(3, 14);
        g.session(&mut v, m, 3, &mut |g| match g.r.below(12) {
            0..=3 => {
                let n = match g.r.below(9) {
                    6 | 7 => near(g, &before),
                    8 => before.clone(),
                    0 => String::new(),
                    1 => "x".repeat(g.r.range(1, 3000) as usize),
                    2 => "!@#$%^&*()_+~".into(),
                    _ => format!("name-{}", g.r.below(1000)),
                };
                before = n.clone();
                Req::SetName(n)
            }
            4..=7 => Req::GetName,
            8 => Req::Info,
            9 => {
                if g.chance(1, 2) {
                    Req::SetInfo("LIB-NAME".into(), format!("lib{}", g.r.below(5)))
                } else {
                    Req::Hello
                }
            }
            _ => Req::List,
        });
        g.end(&mut v);
        g.conn(Role::Good, v);
    }
}

fn c12(g: &mut G) {
    let io = g.chance(1, 3);
    g.env(io);
    let n = g.range(1, 3);
    for c in 0..n {
        let mut v = vec![Step::Connect];
        let m = g.range(2, 10);
        g.session(&mut v, m, 4, &mut |g| {
            let t = weird_text(g);
            match g.r.below(15) {
                0..=2 => Req::SetName(t),
                3 | 4 => Req::Unknown(if t.is_empty() { "zz".into() } else { format!("z{}", t) }, g.r.below(3) as u8),
                5 => Req::UnknownSub(g.r.chance(1, 2), format!("z{}", t)),
                6 => {
                    let v = g.small();
                    Req::Set(format!("w{}{}", c, t), v, Ttl::None)
                }
                7 => Req::Get(format!("w{}{}", c, t)),
                8 => Req::GetName,
                9 => Req::Info,
                10 => match g.r.below(4) {
                    0 => Req::SetInfo(t, "x".into()),
                    1 => {
                        let u = weird_text(g);
                        Req::SetInfo(t, u)
                    }
                    2 => Req::SetInfo("LIB-VER".into(), t),
                    _ => Req::SetInfo("LIB-NAME".into(), t),
                },
                14 => Req::AclCatOf(t),
                11 => {
                    let n = g.r.below(20) as u32;
                    g.tag += 1;
                    Req::PingMsg(Val { k: 3, t: g.tag, n })
                }
                12 => Req::Hello,
                _ => Req::List,
            }
        });
        g.conn(Role::Good, v);
    }
    // what the others see
    let mut v = vec![Step::Connect];
    let m = g.range(2, 6);
    for _ in 0..m {
        v.push(Step::Send(vec![Req::List, Req::Info]));
        v.push(Step::Wait(0));
        v.push(Step::SleepUs(g.r.range(1, 800)));
    }
    g.conn(Role::Good, v);
}

fn c13(g: &mut G) {
    let io = g.chance(1, 4);
    g.env(io);
    let errs = [
        libc::EMFILE,
        libc::ENFILE,
        libc::ENOBUFS,
        libc::ENOMEM,
        libc::ECONNABORTED,
        libc::EPROTO,
        libc::EPERM,
        libc::ENETDOWN,
        libc::EHOSTUNREACH,
        libc::EINTR,
        libc::EAGAIN,
    ];
    let n = g.range(0, 3);
    for _ in 0..n {
        let from = g.range(0, 20_000);
        let len = g.pick(&[1u64, 200, 5_000, 60_000, 60_000, 1_500_000, 12_000_000]);
        let errno = g.pick(&errs);
        let mask = g.pick(&[u32::MAX, u32::MAX, 1, 2, 3, 4]);
        let max = g.pick(&[0u32, 1, 2, 10]);
        g.plan.env.accept_faults.push(AcceptFault { from_us: from, to_us: from + len, errno, mask, max });
    }
    let mut over = 300_000;
    if g.chance(1, 12) {
        // a shortage that lasts
        let len = g.pick(&[30_000_000u64, 60_000_000, 120_000_000, 300_000_000]);
        let errno = g.pick(&errs[..4]);
        let mask = g.pick(&[u32::MAX, u32::MAX, 1, 2]);
        g.plan.env.accept_faults.push(AcceptFault { from_us: 100, to_us: len, errno, mask, max: 0 });
        g.plan.env.bound_ms = 20_000;
        over = len + 1000;
    }
    g.plan.env.accept_err = g.pick(&[0u32, 0, 8, 3, 2]);
    g.plan.env.sock_err = g.pick(&[0u32, 0, 8, 3, 2]);
    g.plan.env.quiet_us = g.range(20_000, 100_000);
    let est = g.range(1, 2);
    for c in 0..est {
        let v = g.bystander(c as usize, 12, 3);
        g.conn(Role::Good, v);
    }
    let m = g.range(2, 12);
    for c in 0..m {
        let mut v = vec![Step::SleepUs(g.r.range(1, 40_000))];
        if g.chance(1, 5) {
            // gone before it is accepted
            v.push(Step::Connect);
            v.push(Step::Abort);
            g.conn(Role::Hostile, v);
            continue;
        }
        let mut b = g.bystander(c as usize, 3, 2);
        v.append(&mut b);
        g.conn(Role::Good, v);
    }
    // after it is all over, connections to all cores
    for c in 0..5 {
        let mut v = vec![Step::SleepUs(over + c * 1000)];
        let mut b = g.bystander(c as usize, 3, 2);
        v.append(&mut b);
        g.conn(Role::Good, v);
    }
}

fn c14(g: &mut G) {
    g.env(true);
    g.plan.env.bound_ms = 3000;
    let q = g.range(2_000, 60_000);
    g.plan.env.quiet_us = q;
    let stall = g.pick(&[0u32, 1500, 4000]);
    g.plan.env.stall = stall;
    let stay: u16 = 7;
    let ng = g.range(1, 3);
    // many that stall in the same way: together they hold much
    let crowd = g.chance(1, 10);
    let ns = if crowd { g.pick(&[6, 12, 40, 150]) } else { g.range(1, 4) };
    let kind = g.r.below(6);
    let size = g.pick(&[3_000u32, 60_000, 300_000, if ns < 40 { 2_000_000 } else { 100_000 }]);
    for s in 0..ns {
        let mut v = vec![];
        g.jit(&mut v);
        v.push(Step::Connect);
        match g.r.below(12) {
            _ if crowd => match kind {
                0 | 1 => {
                    // big replies that nobody reads
                    if s == 0 {
                        v.push(Step::Send(vec![Req::Set("big".into(), Val { k: 0, t: 1, n: size }, Ttl::None)]));
                        v.push(Step::Wait(0));
                        v.push(Step::Signal(8));
                    }
                    v.push(Step::Gate(8, 1));
                    v.push(Step::Pause);
                    let n = g.range(1, 4) as usize;
                    v.push(Step::Send(vec![Req::Get("big".into()); n]));
                }
                2 => {
                    // big requests that never end
                    let r = Req::Set("half".into(), Val { k: 0, t: 1, n: size.min(100_000) }, Ttl::None).encode();
                    let n = r.len() - g.r.range(1, 30) as usize;
                    v.push(Step::Send(vec![Req::Raw(hex(&r[..n]))]));
                }
                3 => {
                    // many small replies that nobody reads
                    v.push(Step::Pause);
                    let q = g.pick(&[Req::Ping, Req::Info, Req::Hello, Req::GetName]);
                    v.push(Step::Send(vec![q; 300]));
                }
                4 => {
                    // big messages that come back to nobody
                    v.push(Step::Pause);
                    v.push(Step::Send(vec![Req::PingMsg(Val { k: 0, t: 1, n: size }); 2]));
                }
                _ => {
                    // listings of all of them
                    v.push(Step::Pause);
                    v.push(Step::Send(vec![Req::SetName("listed".repeat(60)), Req::List, Req::List, Req::List]));
                }
            },
            10 | 11 => {
                // floods for as long as the others are there
                v.push(Step::Flood(g.pick(&[2u32, 20, 200]), stay, ng as u32));
            }
            7 | 8 => {
                // does not read, whatever it asks for
                v.push(Step::Pause);
                let n = g.pick(&[30usize, 300, 1500]);
                let what = g.r.below(8);
                let keys = if g.chance(1, 2) { "k" } else { "b2." };
                let mut b = vec![];
                for i in 0..n {
                    b.push(match what {
                        0 => Req::SetName(format!("{}{}", "staller".repeat(3), i)),
                        1 => Req::GetName,
                        2 => Req::Info,
                        3 => Req::Hello,
                        4 => Req::Id,
                        5 => {
                            let val = g.small();
                            Req::Set(format!("{}{}", keys, g.r.below(3)), val, Ttl::None)
                        }
                        6 => Req::Get(format!("{}{}", keys, g.r.below(3))),
                        _ => match g.any(3, keys) {
                            Req::List => Req::Info,
                            q => q,
                        },
                    });
                }
                if what == 1 {
                    b.insert(0, Req::SetName("long".repeat(100)));
                }
                v.push(Step::Send(b));
            }
            9 => {
                // pauses in the middle of many requests and goes on much later
                let q = g.any(3, "k").encode();
                let n = g.r.range(1, q.len() as u64 - 1) as usize;
                v.push(Step::Send(vec![Req::Raw(hex(&q[..n]))]));
            }
            0 => {
                // does not read
                let val = g.val(30_000);
                v.push(Step::Send(vec![Req::Set("big".into(), val, Ttl::None)]));
                v.push(Step::Pause);
                v.push(Step::Send(vec![Req::Get("big".into()); 12]));
            }
            1 => {
                // half a request
                let val = g.big();
                let r = Req::Set("half".into(), val, Ttl::None).encode();
                let n = g.r.range(1, r.len() as u64 - 1) as usize;
                v.push(Step::Send(vec![Req::Raw(hex(&r[..n]))]));
            }
            2 => {}
            3 => {
                // floods
                let n = g.pick(&[100usize, 600]);
                v.push(Step::Send(vec![Req::Ping; n]));
                v.push(Step::Send(vec![Req::List; 30]));
            }
            4 => {
                v.push(Step::Send(vec![Req::Ping; 20]));
                v.push(Step::Dead);
            }
            5 => {
                v.push(Step::Pause);
                v.push(Step::Send(vec![Req::List; 300]));
                v.push(Step::SleepUs(500));
                v.push(Step::HalfClose);
            }
            _ => {
                v.push(Step::Slow(1, 50));
                v.push(Step::Send(vec![Req::Hello; 20]));
            }
        }
        v.push(Step::Gate(stay, ng as u32));
        let i = g.conn(Role::Filler, v);
        g.plan.conns[i].rcvbuf = 2000;
    }
    for c in 0..ng {
        let mut v = vec![];
        if g.chance(1, 2) {
            v.push(Step::SleepUs(g.r.range(1, 30_000)));
        }
        let n = g.range(4, 30);
        let mut b = g.bystander(c as usize, n, 6);
        v.append(&mut b);
        if g.chance(1, 2) {
            let k = g.key(2);
            v.push(Step::SleepUs(100_000));
            v.push(Step::Send(vec![Req::Get(k), Req::List, Req::GetName]));
            v.push(Step::Wait(0));
        }
        v.push(Step::Signal(stay));
        let i = g.conn(Role::Good, v);
        g.cut(i);
    }
}

fn c15(g: &mut G) {
    let io = g.chance(1, 3);
    g.env(io);
    g.plan.env.stall = 0;
    let mix = g.r.below(8);
    let per = g.pick(&[8u64, 20, 48]);
    // what is asked for, or said, once only: nothing of it may stay
    let wide = g.pick(&[6u64, 15, 15]);
    fn unique(g: &mut G) -> String {
        g.tag += 1;
        let n = g.pick(&[10usize, 100, 400]);
        format!("once{}{}", g.tag, "x".repeat(n))
    }
    let mut mv = vec![];
    // one connection stays: the server's tables do not become empty, so what
    // they defer freeing (epoch-based garbage) does not look like growth
    let hold = vec![Step::Connect, Step::Send(vec![Req::Ping]), Step::Wait(0), Step::Signal(9), Step::Gate(3, 1), Step::Close];
    g.conn(Role::Good, hold);
    for ph in 0..3u16 {
        for i in 0..per {
            let mut v = vec![];
            v.push(if ph > 0 { Step::Gate(ph, 1) } else { Step::Gate(9, 1) });
            v.push(Step::SleepUs(1 + i * g.pick(&[0u64, 100, 700])));
            v.push(Step::Connect);
            if ph == 0 && i == 0 {
                for k in 0..3 {
                    let val = Val { k: 0, t: 1 + k, n: 40 };
                    v.push(Step::Send(vec![Req::Set(format!("k{}", k), val, Ttl::None)]));
                }
                v.push(Step::Wait(0));
            }
            let kind = if ph == 0 && i == 0 {
                0
            } else if mix < 7 && g.chance(2, 3) { mix } else { g.r.below(7) };
            let mut role = Role::Good;
            let sess = |g: &mut G, v: &mut Steps| {
                let n = g.range(1, 6);
                g.session(v, n, 3, &mut |g| match g.r.below(wide) {
                    6 => Req::Get(unique(g)),
                    7 => Req::SetInfo("LIB-NAME".into(), unique(g)),
                    8 => Req::SetName(unique(g)),
                    9 => Req::Unknown(unique(g), 1),
                    10 => Req::UnknownSub(g.r.chance(1, 2), unique(g)),
                    11 => Req::Hello,
                    12 => Req::GetName,
                    13 => Req::AclCatOf(unique(g)),
                    14 => {
                        g.tag += 1;
                        Req::PingMsg(Val { k: 0, t: g.tag, n: 700 })
                    }
                    0 => Req::Set(format!("k{}", g.r.below(3)), Val { k: 0, t: 1 + g.r.below(3) as u32, n: 40 }, Ttl::None),
                    1 => Req::Get(format!("k{}", g.r.below(3))),
                    2 => Req::SetName("someone".into()),
                    3 => Req::List,
                    4 => Req::Info,
                    _ => Req::Ping,
                });
            };
            match kind {
                0 => {
                    sess(g, &mut v);
                    v.push(Step::Close);
                }
                1 => {
                    sess(g, &mut v);
                    v.push(Step::HalfClose);
                    v.push(Step::Eof);
                }
                2 => {
                    sess(g, &mut v);
                    v.push(Step::Abort);
                }
                3 => {
                    // gone with replies in flight, perhaps while the server's write is blocked
                    role = Role::Hostile;
                    if g.chance(1, 2) {
                        v.push(Step::Pause);
                    }
                    let n = g.pick(&[100u32, 9000, 60_000]);
                    let m = Val { k: 0, t: 5, n };
                    v.push(Step::Send(vec![Req::PingMsg(m); 4]));
                    v.push(Step::SleepUs(g.r.range(1, 2000)));
                    v.push(if g.chance(1, 2) { Step::Abort } else { Step::Close });
                }
                4 => {
                    role = Role::Offender;
                    sess(g, &mut v);
                    let m = malformed(g);
                    v.push(Step::Send(vec![Req::Bad(hex(&m)), Req::Ping]));
                    v.push(Step::Eof);
                }
                5 => {
                    // half a request, then gone
                    role = Role::Hostile;
                    let val = Val { k: 0, t: 9, n: 3000 };
                    let r = Req::Set("half".into(), val, Ttl::None).encode();
                    let n = g.r.range(1, r.len() as u64 - 1) as usize;
                    v.push(Step::Send(vec![Req::Raw(hex(&r[..n]))]));
                    v.push(Step::SleepUs(g.r.range(1, 2000)));
                    v.push(g.pick(&[Step::Abort, Step::Close, Step::Dead]));
                }
                _ => {
                    // never says anything
                    v.push(Step::SleepUs(g.r.range(1, 2000)));
                    v.push(g.pick(&[Step::Abort, Step::Close, Step::Dead]));
                }
            }
            v.push(Step::Signal(100 + ph));
            g.conn(role, v);
        }
        mv.push(Step::Gate(100 + ph, per as u32));
        // several samples, the least counts: what the server allocates now and
        // then (a background task, deferred frees) is not growth
        mv.push(Step::SleepUs(9_000_000));
        for _ in 0..6 {
            mv.push(Step::SleepUs(530_000));
            mv.push(Step::Measure(ph));
        }
        mv.push(Step::Signal(ph + 1));
    }
    g.conn(Role::Filler, mv);
}

fn c16(g: &mut G, limit: u16) {
    g.env(false);
    g.plan.env.bound_ms = 120_000;
    let l = limit.clamp(1, 40) as u64;
    let n = if l > 8 { g.range(l + 1, l + 30) } else { g.range(l + 1, 3 * l + 4) };
    let late = g.chance(1, 6);
    if late {
        let k = g.range(1, 2);
        g.plan.env.sndbuf = g.pick(&[1u32 << 14, 4096, 600]);
        g.plan.env.bound_ms += 100_000 * k;
        for _ in 0..k {
            lingers(g);
        }
        if l <= 8 && g.chance(2, 3) {
            // as many as the limit allows, for longer
            g.plan.env.bound_ms += 200_000;
            for _ in 0..l {
                let mut v = vec![Step::SleepUs(g.r.range(1, 100_000)), Step::Connect];
                for _ in 0..g.range(2, 9) {
                    v.push(Step::Send(vec![Req::Ping]));
                    v.push(Step::Wait(0));
                    v.push(Step::SleepUs(g.r.range(1, 20_000_000)));
                }
                v.push(Step::Send(vec![Req::Ping]));
                v.push(Step::Wait(0));
                g.end(&mut v);
                g.conn(Role::Good, v);
            }
        }
    }
    for _ in 0..n {
        let mut v = vec![];
        if late && g.chance(1, 2) {
            v.push(Step::SleepUs(g.r.range(1, 60_000_000)));
        }
        if g.chance(1, 2) {
            v.push(Step::SleepUs(g.r.range(1, 30_000)));
        } else {
            g.jit(&mut v);
        }
        v.push(Step::Connect);
        if g.chance(1, 10) {
            // gives up waiting
            let q = g.any(2, "k");
            v.push(Step::Send(vec![Req::Raw(hex(&q.encode()))]));
            v.push(Step::SleepUs(g.r.range(1, 30_000)));
            v.push(g.pick(&[Step::Abort, Step::Close]));
            g.conn(Role::Hostile, v);
            continue;
        }
        let m = g.range(1, 3);
        g.session(&mut v, m, 2, &mut |g| match g.r.below(4) {
            0 => Req::List,
            1 => Req::Id,
            _ => Req::Ping,
        });
        if g.chance(2, 3) {
            v.push(Step::SleepUs(g.r.range(1, 40_000)));
            v.push(Step::Send(vec![Req::Ping]));
            v.push(Step::Wait(0));
        }
        let mut role = Role::Good;
        if g.chance(1, 6) {
            role = Role::Offender;
            let m = malformed(g);
            v.push(Step::Send(vec![Req::Bad(hex(&m))]));
            v.push(Step::Eof);
        } else {
            g.end(&mut v);
        }
        g.conn(role, v);
    }
    // one more at the very end
    g.conn(Role::Good, vec![Step::Others, Step::Connect, Step::Send(vec![Req::Ping]), Step::Wait(0)]);
}

/// Everybody waits for something that is not the server's turn to do.
fn c19(g: &mut G, limit: u16) {
    let io = g.chance(1, 3);
    g.env(io);
    let e = &mut g.plan.env;
    e.stall = 0;
    e.delay = 0;
    e.eintr = 0;
    e.bound_ms = 3_600_000;
    let (ready, end, held, go) = (1u16, 2u16, 3u16, 5u16);
    let tight = limit < 100;
    // those who are served and stay, those who go, those who come too late
    let room = if tight { limit as u64 - 1 } else { 7 };
    let ns = g.r.below(room.min(7) + 1);
    let ng = g.r.below(4);
    let nl = if tight { g.range(1, 4) } else { 0 };
    let short = g.chance(1, 3);
    let nv = if short { g.range(1, 4) } else { 0 };
    for _ in 0..ns {
        let mut v = vec![Step::Gate(go, 1)];
        g.jit(&mut v);
        v.push(Step::Connect);
        let m = g.r.below(4);
        g.session(&mut v, m, 2, &mut |g| g.any(2, "k"));
        let mut role = Role::Good;
        let mut rcvbuf = 0;
        match g.r.below(6) {
            0 | 1 => {
                // does not read its replies
                v.push(Step::Send(vec![Req::Id]));
                v.push(Step::Wait(0));
                v.push(Step::Pause);
                let mut left = g.plan.env.sndbuf as i64 + 5000;
                let mut b = vec![];
                while left > 0 {
                    let m = g.big();
                    left -= m.n as i64;
                    b.push(Req::PingMsg(m));
                }
                if g.chance(1, 2) {
                    // and many more after those
                    for _ in 0..g.pick(&[40u32, 150, 600, 1500, 5000]) {
                        b.push(g.any(2, "k"));
                    }
                }
                v.push(Step::Send(b));
                let half = g.chance(1, 2);
                if half {
                    v.push(Step::HalfClose);
                }
                v.push(Step::SleepUs(20_000));
                v.push(Step::Signal(held));
                v.push(Step::Signal(ready));
                v.push(Step::Gate(end, 1));
                v.push(Step::Resume);
                v.push(if half { Step::Eof } else { Step::Wait(0) });
                rcvbuf = g.pick(&[4096u32, 500]);
            }
            2 => {
                // part of a request, the rest never comes
                let q = g.any(2, "p");
                let b = q.encode();
                let n = g.range(1, b.len() as u64 - 1) as usize;
                role = Role::Hostile;
                v.push(Step::Send(vec![Req::Raw(hex(&b[..n]))]));
                v.push(Step::SleepUs(1000));
                v.push(Step::Signal(held));
                v.push(Step::Signal(ready));
                v.push(Step::Gate(end, 1));
                g.end(&mut v);
            }
            _ => {
                if g.chance(1, 3) {
                    let t = g.pick(&[Ttl::Px(1), Ttl::Px(200), Ttl::Ex(1), Ttl::Ex(3)]);
                    let val = g.small();
                    v.push(Step::Send(vec![Req::Set("t".into(), val, t)]));
                }
                v.push(Step::Wait(0));
                v.push(Step::Signal(held));
                v.push(Step::Signal(ready));
                v.push(Step::Gate(end, 1));
                v.push(Step::Send(vec![Req::Ping]));
                v.push(Step::Wait(0));
                g.end(&mut v);
            }
        }
        let i = g.conn(role, v);
        g.plan.conns[i].rcvbuf = rcvbuf;
    }
    for _ in 0..ng {
        let mut v = vec![Step::Gate(go, 1)];
        if tight {
            v.push(Step::Gate(held, ns as u32));
        }
        v.push(Step::Connect);
        let q = g.any(2, "k");
        let mut role = Role::Good;
        v.push(Step::Send(vec![q]));
        if tight {
            // may never be served before it goes
            role = Role::Hostile;
            v.push(Step::SleepUs(g.r.range(1, 50_000)));
        } else {
            v.push(Step::Wait(0));
        }
        match g.r.below(5) {
            0 if !tight => {
                role = Role::Offender;
                let m = malformed(g);
                v.push(Step::Send(vec![Req::Bad(hex(&m))]));
                v.push(Step::Eof);
            }
            1 => v.push(Step::Abort),
            2 => {
                role = Role::Hostile;
                v.push(Step::Dead);
            }
            3 => {
                v.push(Step::HalfClose);
                if !tight {
                    v.push(Step::Eof);
                }
            }
            _ => v.push(Step::Close),
        }
        v.push(Step::Signal(ready));
        if role == Role::Hostile && tight {
            v.push(Step::Gate(end, 1));
        }
        g.conn(role, v);
    }
    for _ in 0..nl {
        let mut v = vec![Step::Gate(held, ns as u32), Step::Gate(go, 1), Step::Connect, Step::Send(vec![Req::Ping]), Step::Signal(ready)];
        if g.chance(1, 4) {
            v.push(Step::HalfClose);
            v.push(Step::Eof);
        } else {
            v.push(Step::Wait(0));
            v.push(Step::Gate(end, 1));
            g.end(&mut v);
        }
        g.conn(Role::Good, v);
    }
    if short {
        let errno = g.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPERM, libc::ECONNABORTED]);
        let from = g.range(50_000, 400_000);
        let len = g.pick(&[2_000_000u64, 30_000_000, 200_000_000]);
        let mask = g.pick(&[!0u32, !0, 1, 3]);
        g.plan.env.accept_faults.push(AcceptFault { from_us: from, to_us: from + len, errno, mask, max: 0 });
        for i in 0..nv {
            let mut v = vec![Step::SleepUs(from + 1000 + i * 300), Step::Connect, Step::Send(vec![Req::Ping]), Step::Signal(ready)];
            v.push(Step::Wait(0));
            v.push(Step::Gate(end, 1));
            g.end(&mut v);
            g.conn(Role::Good, v);
        }
    }
    // very many others that are idle all the time
    let mut crowd = 0;
    if !tight && !short && g.chance(1, 24) {
        crowd = g.pick(&[100u64, 300, 1000, 2500]);
        let say = g.r.below(4);
        for i in 0..crowd {
            let mut v = vec![Step::Gate(go, 1), Step::SleepUs(i * g.pick(&[5u64, 20])), Step::Connect];
            let mut role = Role::Good;
            match say {
                0 => v.push(Step::SleepUs(1000)),
                1 if i % 2 == 0 => {
                    // part of a request
                    role = Role::Hostile;
                    let b = Req::Ping.encode();
                    let n = g.range(1, b.len() as u64 - 1) as usize;
                    v.push(Step::Send(vec![Req::Raw(hex(&b[..n]))]));
                    v.push(Step::SleepUs(1000));
                }
                _ => {
                    v.push(Step::Send(vec![if say == 2 { Req::Id } else { Req::Ping }]));
                    v.push(Step::Wait(0));
                }
            }
            v.push(Step::Signal(ready));
            v.push(Step::Gate(end, 1));
            g.end(&mut v);
            g.conn(role, v);
        }
    }
    // who looks, and is served first
    let mut v = vec![Step::Connect, Step::Send(vec![Req::Ping]), Step::Wait(0), Step::Signal(go), Step::Gate(ready, (ns + ng + nl + nv + crowd) as u32)];
    for _ in 0..g.range(1, 4) {
        v.push(Step::SleepUs(g.pick(&[300_000u64, 300_000, 1_300_000, 5_500_000])));
        v.push(Step::Idle(g.pick(&[60_000u64, 100_000])));
        match g.r.below(4) {
            0 => {
                v.push(Step::Send(vec![Req::Ping, Req::List, Req::Get("t".into())]));
                v.push(Step::Wait(0));
            }
            1 => v.push(Step::SleepUs(g.pick(&[2_000_000u64, 60_000_000, 400_000_000]))),
            _ => {}
        }
    }
    v.push(Step::Signal(end));
    g.end(&mut v);
    g.conn(Role::Good, v);
}

/// What the server prints goes nowhere, or takes for ever.
fn c20(g: &mut G, limit: u16) {
    match g.r.below(15) {
        _ if limit == 0 => c18(g, true),
        _ if limit < 100 => c16(g, limit),
        0 | 1 => c01(g),
        2 => c02(g),
        3 => c03(g),
        4 => c04(g),
        5 => c05(g),
        6 => c06(g),
        7 => c07(g),
        8 => c08(g),
        9 => c09(g),
        10 => c10(g),
        11 => c11(g),
        12 => c12(g),
        13 => c13(g),
        _ => c14(g),
    }
    let at = g.pick(&[0u64, 0, 300, 3000, 50_000]);
    let errno = g.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, 0, 0]);
    g.plan.env.print_fault = Some((if limit == 0 { 0 } else { at }, errno));
    g.plan.env.print_fd = g.pick(&[0, 0, 1, 2]);
}

// ------------------------------------------------------------ configuration

/// A value of the configuration: the text of an environment variable, and how
/// a file says it.
fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn c18(g: &mut G, valid: bool) {
    g.env(false);
    g.plan.env.bound_ms = 120_000;
    let port = g.pick(&[6379u16, 6379, 1, 80, 7000, 32768, 65535]);
    let ip = g.pick(&["127.0.0.1", "127.0.0.1", "0.0.0.0", "10.1.2.3", "192.168.255.254", "[::1]", "[::]", "[2001:db8::7]"]);
    let addr = format!("{}:{}", ip, port);
    let limit = match g.r.below(4) {
        0 => g.pick(&[1u16, 2, 3, 5, 9]),
        1 => g.range(1, 40) as u16,
        2 => g.pick(&[127u16, 128, 255, 256, 257, 258, 260, 300, 512, 515, 1000, 1024, 1025]),
        _ => g.pick(&[4096u16, 10_000, 16_384, 32_767, 32_768, 32_769, 65_280, 65_535]),
    };
    let other = |g: &mut G| format!("127.9.9.{}:{}", g.range(1, 9), g.range(1000, 2000));
    let mut c = CfgPlan { cwd: g.pick(&["/rsim/work", "/rsim/a/b c/d", "/rsim"]).into(), ..Default::default() };
    c.short = g.pick(&[0u32, 0, 3, 1]);
    c.eintr = g.pick(&[0u32, 0, 4, 2]);
    let mut why: Vec<String> = vec![];
    // what is wrong, if anything
    let wrong = if g.chance(2, 5) && !valid { 1 + g.r.below(12) } else { 0 };
    // where each setting comes from: the file, the environment, or both
    let (mut fa, mut fl): (Option<String>, Option<String>) = (None, None);
    let (mut ea, mut el): (Option<String>, Option<String>) = (None, None);
    match g.r.below(5) {
        0 => {
            fa = Some(quoted(&other(g)));
            ea = Some(addr.clone());
        }
        1 => ea = Some(addr.clone()),
        _ => fa = Some(quoted(&addr)),
    }
    match g.r.below(5) {
        0 => {
            fl = Some(g.range(1, 65_535).to_string());
            el = Some(limit.to_string());
        }
        1 => el = Some(limit.to_string()),
        _ => fl = Some(limit.to_string()),
    }
    let bad_addr = ["localhost", "127.0.0.1", "127.0.0.1:", ":6379", "127.0.0.1:65536", "127.0.0.1:99999999999", "256.0.0.1:6379", "[::1:6379", "127.0.0.1:6379x", "not an address", "6379", "127.0.0.1:-1"];
    let bad_limit = ["-1", "65536", "65537", "70000", "131072", "4294967296", "4294967297", "18446744073709551616", "99999999999999999999999"];
    match wrong {
        1 => {
            // not said anywhere
            fa = None;
            ea = None;
            why.push("no address is given".into());
        }
        2 => {
            fl = None;
            el = None;
            why.push("no limit is given".into());
        }
        3 | 4 => {
            let b = g.pick(&bad_addr);
            if ea.is_some() || g.chance(1, 2) {
                ea = Some(b.into());
            } else {
                fa = Some(quoted(b));
            }
            why.push(format!("the address is {:?}", b));
        }
        5 | 6 => {
            if el.is_some() || g.chance(1, 2) {
                let b = if g.chance(1, 3) { g.pick(&["abc", "1O", "10 connections", "0x10", "--1", "1,000"]) } else { g.pick(&bad_limit) };
                el = Some(b.into());
                why.push(format!("the limit is {:?} in the environment", b));
            } else {
                let b = g.pick(&["-1", "65536", "65537", "70000", "131072", "4294967296", "4294967297", "\"abc\"", "\"\"", "[1, 2]", "[]"]);
                fl = Some(b.into());
                why.push(format!("the limit is {}", b));
            }
        }
        _ => {}
    }
    // the file
    let fmt = g.pick(&["toml", "toml", "toml", "json", "yaml", "yml"]);
    let mut kv: Vec<(String, String)> = vec![];
    kv.extend(fa.map(|v| ("bind_addr".to_string(), v)));
    kv.extend(fl.map(|v| ("max_connection".to_string(), v)));
    for _ in 0..g.r.below(3) {
        let n = g.pick(&["name", "max_connections", "bind", "port", "limit", "bind_addr_2", "roster_max_connection"]);
        if !kv.iter().any(|k| k.0 == n) {
            kv.push((n.into(), g.pick(&["1", "\"x\"", "true", "7000"]).into()));
        }
    }
    for i in (1..kv.len()).rev() {
        let k = g.r.below(i as u64 + 1) as usize;
        kv.swap(i, k);
    }
    let pad = g.pick(&[0usize, 0, 1, 60, 5000]);
    let mut text = String::new();
    match fmt {
        "toml" => {
            for (k, v) in &kv {
                for _ in 0..pad {
                    text.push_str("# a comment that makes the file longer\n");
                }
                text.push_str(&format!("{} = {}\n", k, v));
            }
            if g.chance(1, 4) {
                text.push_str("[more]\nbind_addr = \"1.2.3.4:5\"\nmax_connection = 7\n");
            }
        }
        "json" => {
            let l: Vec<String> = kv.iter().map(|(k, v)| format!("{}\"{}\": {}", "\n ".repeat(pad), k, v)).collect();
            text = format!("{{{}}}", l.join(","));
        }
        _ => {
            for (k, v) in &kv {
                for _ in 0..pad {
                    text.push_str("# a comment that makes the file longer\n");
                }
                text.push_str(&format!("{}: {}\n", k, v));
            }
            if kv.is_empty() {
                text.push_str("{}\n");
            }
        }
    }
    let dir = g.pick(&["/rsim/etc", "/rsim/a/b c", "/rsim/work/conf.d"]);
    let stem = g.pick(&["roster", "config.local", "my config"]);
    let path = format!("{}/{}.{}", dir, stem, fmt);
    let mut f = VFile { path: path.clone(), data: hex(text.as_bytes()), ..Default::default() };
    let mut there = true;
    match wrong {
        7 => {
            f.open_err = g.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOENT, libc::ELOOP, libc::ENOMEM]);
            why.push(format!("opening the file fails with error {}", f.open_err));
        }
        8 => {
            f.read_err = g.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::EBADMSG]);
            f.read_at = g.r.below(text.len() as u64 + 1) as u32;
            if g.chance(1, 3) {
                f.read_at = text.len() as u32;
            }
            why.push(format!("reading the file fails with error {} at offset {}", f.read_err, f.read_at));
        }
        9 => {
            there = false;
            why.push("there is no such file".into());
        }
        10 => {
            // not text, or not in its format
            let mut b = text.clone().into_bytes();
            if g.chance(1, 2) {
                let at = g.r.below(b.len() as u64 + 1) as usize;
                b.splice(at..at, [0xff, 0xfe]);
                why.push("the file is not UTF-8".into());
            } else {
                let j: &[u8] = match fmt {
                    "json" => b"{",
                    "toml" => g.pick(&[&b"bind_addr =\n"[..], b"[unclosed\n", b"= 3\n", b"x = \"unclosed\n"]),
                    _ => g.pick(&[&b"a: [1, 2\n"[..], b"a: \"unclosed\n", b"a: b: c: d\n"]),
                };
                b.splice(0..0, j.iter().copied());
                why.push("the file is not well-formed".into());
            }
            f.data = hex(&b);
        }
        11 => {
            f.dir = true;
            f.data.clear();
            why.push("it is a directory".into());
        }
        _ => {}
    }
    if there {
        c.files.push(f);
    }
    // where the program is told of the file
    let said = if path.starts_with(&format!("{}/", c.cwd)) && g.chance(1, 2) {
        path[c.cwd.len() + 1..].to_string()
    } else if g.chance(1, 6) && stem != "config.local" && wrong == 0 {
        // the extension may be left out
        format!("{}/{}", dir, stem)
    } else {
        path.clone()
    };
    let mut vars: Vec<(String, String)> = vec![("CONFIG_FILE_LOCATION".into(), said)];
    if wrong == 12 {
        vars.clear();
        why.push("no file is named".into());
    }
    vars.extend(ea.map(|v| ("ROSTER_BIND_ADDR".to_string(), v)));
    vars.extend(el.map(|v| ("ROSTER_MAX_CONNECTION".to_string(), v)));
    // some of them in a file named .env, here or further up
    let mut dot = String::new();
    let with_dot = g.chance(1, 4);
    for (k, v) in vars {
        if with_dot && g.chance(1, 2) && !v.contains(['\'', '"', '#', '\\', '$']) && !v.is_empty() {
            dot.push_str(&format!("{}='{}'\n", k, v));
        } else {
            if with_dot && g.chance(1, 3) {
                // the environment proper goes first
                dot.push_str(&format!("{}='/rsim/nowhere.toml'\n", k));
            }
            c.env.push((k, v));
        }
    }
    if with_dot {
        let at = if g.chance(1, 2) { c.cwd.clone() } else { "/rsim".into() };
        c.files.push(VFile { path: format!("{}/.env", at), data: hex(dot.as_bytes()), ..Default::default() });
    }
    // what is none of its business
    for (k, v) in [
        ("BIND_ADDR", "9.9.9.9:9"),
        ("MAX_CONNECTION", "1"),
        ("ROSTER", "x"),
        ("ROSTERMAX_CONNECTION", "2"),
        ("ROSTER_LOG", "debug"),
        ("XROSTER_MAX_CONNECTION", "3"),
        ("HOME", "/root"),
    ] {
        if g.chance(1, 5) {
            c.env.push((k.into(), v.into()));
        }
    }
    why.push(format!("{} says {}; environment {:?}", path, if text.len() < 300 { text.replace('\n', "; ") } else { format!("{} bytes", text.len()) }, c.env));
    if with_dot {
        why.push(format!(".env says {}", dot.replace('\n', "; ")));
    }
    // a system call fails while the server is set up
    let mut refused = wrong != 0;
    if wrong == 0 && g.chance(1, 5) && !valid {
        let call = g.pick(&["bind", "bind", "listen", "socket", "setsockopt", "io_uring_setup", "mmap", "eventfd", "pthread_create", "sched_setaffinity"]);
        let e = match call {
            "bind" => g.pick(&[libc::EADDRINUSE, libc::EACCES, libc::EADDRNOTAVAIL]),
            "listen" => libc::EADDRINUSE,
            "socket" | "eventfd" => g.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM]),
            "setsockopt" => g.pick(&[libc::ENOPROTOOPT, libc::ENOMEM]),
            "io_uring_setup" => g.pick(&[libc::ENOMEM, libc::EPERM, libc::ENOSYS, libc::EMFILE]),
            "mmap" => libc::ENOMEM,
            "pthread_create" => libc::EAGAIN,
            _ => g.pick(&[libc::EINVAL, libc::EPERM]),
        };
        let n = if g.chance(1, 3) { u32::MAX } else { g.r.below(4) as u32 };
        c.sys.push((call.into(), n, e));
        c.may_end = true;
        // without a socket there is no way to serve anybody
        refused = n == u32::MAX && matches!(call, "bind" | "listen" | "socket");
        let (mut call, mut n, mut e) = (call, n, e);
        let wild = ip == "0.0.0.0" || ip == "[::]";
        if g.chance(1, 5) && (!wild || port < 1024) {
            // the address is not this host's, or the port is reserved; any other would do
            (call, e) = if !wild { ("bind-ip", libc::EADDRNOTAVAIL) } else { ("bind-low", libc::EACCES) };
            n = u32::MAX;
            refused = true;
        }
        *c.sys.last_mut().unwrap() = (call.into(), n, e);
        why.push(format!("{} fails with error {} ({})", call, e, if n == u32::MAX { "always".into() } else { format!("call {}", n + 1) }));
    }
    c.what = why.join(", ");
    if !refused {
        c.expect = Some((addr.parse::<std::net::SocketAddr>().unwrap().to_string(), limit));
    }
    g.plan.cfg = Some(c);
    g.plan.limit = limit;
    if refused {
        return;
    }
    if limit <= 40 && g.chance(1, 2) {
        let e = g.plan.env.clone();
        c16(g, limit);
        g.plan.env = e;
        return;
    }
    // as many as are allowed at once, as far as that is practical
    let n = (limit as u64).min(g.pick(&[3u64, 10, 30, 60, 60, 130]));
    for _ in 0..n {
        let mut v = vec![];
        g.jit(&mut v);
        v.push(Step::Connect);
        v.push(Step::Send(vec![Req::Ping]));
        v.push(Step::Wait(0));
        v.push(Step::Signal(1));
        v.push(Step::Gate(1, n as u32));
        v.push(Step::Send(vec![Req::Id, Req::Ping]));
        v.push(Step::Wait(0));
        g.end(&mut v);
        g.conn(Role::Good, v);
    }
}
