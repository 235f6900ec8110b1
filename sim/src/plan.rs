//! The plan of one run: environment, faults and client scripts. Explicit and
//! serialisable, so that a failing run can be minimised and replayed.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Plan {
    pub profile: String,
    pub seed: u64,
    pub boot_seed: u64,
    pub cpus: u8,
    pub limit: u16,
    pub env: Env,
    pub conns: Vec<ConnPlan>,
    /// how the server is configured, when starting it is part of the run
    #[serde(default)]
    pub cfg: Option<CfgPlan>,
}

/// The surroundings the program starts in, and what it must do there.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct CfgPlan {
    pub cwd: String,
    pub env: Vec<(String, String)>,
    pub files: Vec<VFile>,
    /// one in n reads of a file is short / interrupted
    pub short: u32,
    pub eintr: u32,
    /// system calls that fail while the program starts: which, its how manyth
    /// call (u32::MAX: every), the error
    #[serde(default)]
    pub sys: Vec<(String, u32, i32)>,
    /// it may also refuse to start
    #[serde(default)]
    pub may_end: bool,
    /// (address to listen on, limit), or nothing: it must refuse to start
    pub expect: Option<(String, u16)>,
    pub what: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct VFile {
    pub path: String,
    /// hex
    pub data: String,
    pub dir: bool,
    /// opening it fails
    pub open_err: i32,
    /// reading it fails, from this offset on
    pub read_err: i32,
    pub read_at: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(default)]
pub struct Env {
    /// one in `preempt` scheduling points switches thread (0: never)
    pub preempt: u32,
    /// one in `stall` scheduling points freezes the thread
    pub stall: u32,
    pub stall_max_us: u32,
    /// granularity of the coarse clock
    pub tick_us: u32,
    /// uptime of the machine when the clients start
    pub uptime_ms: u64,
    pub lat_us: u32,
    /// one in `delay` network deliveries is late by up to `delay_max_us`
    pub delay: u32,
    pub delay_max_us: u32,
    pub short_r: u32,
    pub short_w: u32,
    pub op_delay: u32,
    pub eintr: u32,
    pub drain: u32,
    pub sock_err: u32,
    pub accept_err: u32,
    /// capacity of a server socket's send / receive buffer
    pub sndbuf: u32,
    pub rcvbuf: u32,
    pub accept_faults: Vec<AcceptFault>,
    /// what the server prints fails from this time (us after start) on with
    /// this error; 0: the write never ends
    #[serde(default)]
    pub print_fault: Option<(u64, i32)>,
    /// only on this descriptor; 0: on both
    #[serde(default)]
    pub print_fd: i32,
    pub real_jumps: Vec<(u64, i64)>,
    /// decisions are benign from this time (us after start) on
    pub quiet_us: u64,
    /// how long after faults stop everything must be answered
    pub bound_ms: u64,
}
impl Default for Env {
    fn default() -> Self {
        Env {
            preempt: 0,
            stall: 0,
            stall_max_us: 0,
            tick_us: 4000,
            uptime_ms: 100_000,
            lat_us: 20,
            delay: 0,
            delay_max_us: 0,
            short_r: 0,
            short_w: 0,
            op_delay: 0,
            eintr: 0,
            drain: 0,
            sock_err: 0,
            accept_err: 0,
            sndbuf: 1 << 17,
            rcvbuf: 1 << 17,
            accept_faults: vec![],
            print_fault: None,
            print_fd: 0,
            real_jumps: vec![],
            quiet_us: u64::MAX / 4000,
            bound_ms: 20_000,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct AcceptFault {
    pub from_us: u64,
    pub to_us: u64,
    pub errno: i32,
    /// bit i: listener i is affected
    pub mask: u32,
    /// how many accepts fail at most (0: all in the window)
    pub max: u32,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Role {
    /// sends only valid requests and is owed a reply to each
    #[default]
    Good,
    /// sends a malformed request at some point: replies up to it, then closed
    Offender,
    /// sends anything; owed nothing
    Hostile,
    /// a helper whose replies are not judged
    Filler,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct ConnPlan {
    pub role: Role,
    pub steps: Vec<Step>,
    /// 0: a send is one segment; n>0: every n bytes; -n: cut with random sizes
    #[serde(default)]
    pub seg: i32,
    #[serde(default)]
    pub rcvbuf: u32,
    /// spacing of segments, us
    #[serde(default)]
    pub gap_us: u32,
    /// how requests are written: 1: some arguments as simple strings, 2: some
    /// numbers as integers, 4: command names in mixed case
    #[serde(default)]
    pub enc: u8,
    /// the client's port, when several connections use the same one in turn
    #[serde(default)]
    pub port: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    Connect,
    Send(Vec<Req>),
    /// wait until at most n requests are unanswered
    Wait(u32),
    /// wait until n bytes of replies have arrived in total
    WaitBytes(u64),
    SleepUs(u64),
    /// stop / resume reading; read slowly (bytes per microseconds)
    Pause,
    Resume,
    Slow(u32, u32),
    HalfClose,
    Close,
    Abort,
    /// the network to this client dies silently: the server's socket times out
    Dead,
    /// wait until the server has closed the connection
    Eof,
    Signal(u16),
    Gate(u16, u32),
    /// keep so many requests unanswered until a gate opens
    Flood(u32, u16, u32),
    /// record the server's memory and descriptors (only when all is quiet)
    Measure(u16),
    /// for so long (us) the server has nothing to do: how busy is it?
    Idle(u64),
    /// wait until every other connection's script is done
    Others,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ttl {
    None,
    Ex(u64),
    Px(u64),
}

/// A deterministic value: kind, tag, length.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub k: u8,
    pub t: u32,
    pub n: u32,
}
impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.n as usize;
        let mut v = Vec::with_capacity(n);
        match self.k {
            0 => {
                let s = format!("v{:x}.", self.t);
                while v.len() < n {
                    v.extend_from_slice(s.as_bytes());
                }
            }
            1 => {
                v.extend_from_slice(format!("v{:x}.", self.t).as_bytes());
                let mut r = crate::rng::Rng::new(self.t as u64 + 77);
                while v.len() < n {
                    let x = r.u64();
                    match x % 7 {
                        0 => v.extend_from_slice(b"\r\n"),
                        1 => v.push(0),
                        _ => v.extend_from_slice(&x.to_le_bytes()),
                    }
                }
            }
            4 => {
                // looks like a number, and is not written as one would be
                let t = self.t;
                let d = if t % 6 == 5 { format!("{:x}", t) } else { t.to_string() };
                let z = |m: usize| "0".repeat(n.saturating_sub(d.len() + m));
                let s = match t % 6 {
                    0 => format!("{}{}", z(0), d),
                    1 => format!("-{}{}", z(1), d),
                    2 => format!("+{}{}", z(1), d),
                    3 => format!("{}.{}", d, z(1)),
                    4 => format!("{}e{}5", d, z(2)),
                    _ => format!("0x{}{}", z(2), d),
                };
                v.extend_from_slice(s.as_bytes());
            }
            5 | 6 => {
                // padded with what is easily taken for nothing
                let p: [&[u8]; 7] = [b" ", b"\n", b"\0", b"\r\n", b"\t", b"\xe2\x80\xa8", b"\xef\xbb\xbf"];
                let p = p[self.t as usize % 7];
                let s = format!("v{:x}.", self.t);
                if self.k == 5 {
                    v.extend_from_slice(s.as_bytes());
                }
                while v.len() + if self.k == 6 { s.len() } else { 0 } < n {
                    v.extend_from_slice(p);
                }
                if self.k == 6 {
                    v.truncate(n.saturating_sub(s.len()));
                    v.extend_from_slice(s.as_bytes());
                }
            }
            3 => {
                // no tag: for messages, which need not be told apart
                let p: [&[u8]; 12] = [
                    b"\r\n", b"\r", b"\n", b"\0", b"+OK\r\n", b"$-1\r\n", b"a", b"PONG", b"\xff", b"-ERR\r\n", b"*0\r\n", b":1\r\n",
                ];
                let mut r = crate::rng::Rng::new(self.t as u64 + 55);
                while v.len() < n {
                    v.extend_from_slice(r.pick(&p[..]));
                }
            }
            _ => {
                v.extend_from_slice(format!("v{:x}.", self.t).as_bytes());
                let p: [&[u8]; 6] =
                    [b"\r\n+OK\r\n", b"$-1\r\n", b"*2\r\n$3\r\nGET\r\n$1\r\na\r\n", b"\r", b"\n", b"-ERR x\r\n:1\r\n"];
                let mut r = crate::rng::Rng::new(self.t as u64 + 99);
                while v.len() < n {
                    v.extend_from_slice(r.pick(&p[..]));
                }
            }
        }
        v.truncate(n);
        v
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Req {
    Ping,
    PingMsg(Val),
    Hello,
    Set(String, Val, Ttl),
    Get(String),
    Id,
    Info,
    List,
    /// CLIENT LIST with filters
    ListBy(Vec<String>),
    SetName(String),
    GetName,
    SetInfo(String, String),
    Help,
    ClientNone,
    AclCat,
    /// ACL CAT of a category
    AclCatOf(String),
    /// unknown command with arguments
    Unknown(String, u8),
    /// unknown subcommand of CLIENT (true) / ACL (false)
    UnknownSub(bool, String),
    /// any bytes (hex) that are not a valid request
    Bad(String),
    /// bytes (hex) of which nothing is expected
    Raw(String),
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    b.chunks(2).map(|c| h(c[0]) << 4 | if c.len() > 1 { h(c[1]) } else { 0 }).collect()
}

pub fn cmd(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(format!("*{}\r\n", parts.len()).as_bytes());
    for p in parts {
        v.extend_from_slice(format!("${}\r\n", p.len()).as_bytes());
        v.extend_from_slice(p);
        v.extend_from_slice(b"\r\n");
    }
    v
}

/// One element of a request.
enum Part {
    /// a command, subcommand or option name
    Name(Vec<u8>),
    Arg(Vec<u8>),
    Num(u64),
}

impl Req {
    fn parts(&self) -> Vec<Part> {
        let n = |s: &str| Part::Name(s.as_bytes().to_vec());
        let a = |s: &str| Part::Arg(s.as_bytes().to_vec());
        match self {
            Req::Ping => vec![n("PING")],
            Req::PingMsg(v) => vec![n("ping"), Part::Arg(v.bytes())],
            Req::Hello => vec![n("HELLO")],
            Req::Set(k, v, t) => {
                let mut p = vec![n("SET"), a(k), Part::Arg(v.bytes())];
                match t {
                    Ttl::None => {}
                    Ttl::Ex(x) => p.extend([n("EX"), Part::Num(*x)]),
                    Ttl::Px(x) => {
                        p[0] = n("set");
                        p.extend([n("px"), Part::Num(*x)])
                    }
                }
                p
            }
            Req::Get(k) => vec![n("GET"), a(k)],
            Req::Id => vec![n("CLIENT"), n("ID")],
            Req::Info => vec![n("CLIENT"), n("INFO")],
            Req::List => vec![n("CLIENT"), n("LIST")],
            Req::ListBy(f) => {
                let mut p = vec![n("CLIENT"), n("LIST")];
                for x in f {
                    p.push(match x.parse::<u64>() {
                        Ok(i) => Part::Num(i),
                        _ => n(x),
                    });
                }
                p
            }
            Req::SetName(x) => vec![n("CLIENT"), n("SETNAME"), a(x)],
            Req::GetName => vec![n("client"), n("getname")],
            Req::SetInfo(x, y) => vec![n("CLIENT"), n("SETINFO"), a(x), a(y)],
            Req::Help => vec![n("CLIENT"), n("HELP")],
            Req::ClientNone => vec![n("CLIENT")],
            Req::AclCat => vec![n("ACL"), n("CAT")],
            Req::AclCatOf(x) => vec![n("ACL"), n("CAT"), a(x)],
            Req::Unknown(x, args) => {
                let mut p = vec![a(x)];
                for _ in 0..*args {
                    p.push(a("arg"));
                }
                p
            }
            Req::UnknownSub(c, x) => vec![n(if *c { "CLIENT" } else { "ACL" }), a(x)],
            Req::Bad(_) | Req::Raw(_) => vec![],
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_as(0, 0)
    }
    /// The request's bytes; `n` varies the choices that `enc` allows.
    pub fn encode_as(&self, enc: u8, n: u64) -> Vec<u8> {
        if let Req::Bad(h) | Req::Raw(h) = self {
            return unhex(h);
        }
        let parts = self.parts();
        let mut r = crate::rng::Rng::new(crate::rng::mix(n + 1) ^ enc as u64);
        let mut v = format!("*{}\r\n", parts.len()).into_bytes();
        for p in parts {
            let b = match p {
                Part::Num(x) => {
                    if enc & 2 != 0 && x <= i64::MAX as u64 && r.chance(1, 2) {
                        v.extend_from_slice(format!(":{}\r\n", x).as_bytes());
                        continue;
                    }
                    x.to_string().into_bytes()
                }
                Part::Name(mut b) => {
                    if enc & 4 != 0 {
                        for c in b.iter_mut() {
                            *c = if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                        }
                    }
                    b
                }
                Part::Arg(b) => b,
            };
            let line = !b.contains(&b'\r') && !b.contains(&b'\n') && std::str::from_utf8(&b).is_ok();
            if enc & 1 != 0 && line && r.chance(1, 2) {
                v.push(b'+');
            } else {
                v.extend_from_slice(format!("${}\r\n", b.len()).as_bytes());
            }
            v.extend_from_slice(&b);
            v.extend_from_slice(b"\r\n");
        }
        v
    }
}
