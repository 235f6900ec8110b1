//! Seeded randomness: `Rng` generates plans; `Decisions` answers every
//! question the simulated world asks while a run proceeds.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0x5851F42D4C957F2D))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

/// What a decision is about. A decision's value 0 is always the benign one
/// (no preemption, no extra delay, no fault), so a run is fully described by
/// its plan and the sparse list of its non-zero decisions.
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Preempt = 0, // at a scheduling point: 1+i = switch to the i-th other runnable thread
    Pick,        // who runs when the current thread blocks
    Stall,       // a thread is frozen for a while: value selects how long
    Seg,         // where the network cuts the client's bytes
    NetDelay,    // extra latency of a segment (either direction)
    Short,       // short receive: value = bytes delivered
    ShortW,      // short send: value = bytes accepted
    Listener,    // which SO_REUSEPORT listener gets a connection
    AcceptErr,   // transient accept error
    SockErr,     // setsockopt / getsockname error
    OpDelay,     // an I/O completion is delayed
    Eintr,       // io_uring_enter / futex interrupted
    Jitter,      // client think time
    Drain,       // how much of the send buffer leaves at once
    File,        // short or interrupted file reads
}
pub const NK: usize = 15;
pub const KNAMES: [&str; NK] = [
    "preempt", "pick", "stall", "segment", "net_delay", "short_recv", "short_send", "listener", "accept_error",
    "sockopt_error", "io_delay", "eintr", "jitter", "drain", "file_read",
];

pub const LOG_CAP: usize = 400_000;
#[repr(C)]
pub struct DecLog {
    pub n: u32,
    pub overflow: u32,
    pub e: [(u32, u32); LOG_CAP], // (kind<<28 | idx, value)
}

pub struct Decisions {
    pub seed: u64,
    pub idx: [u32; NK],
    /// Replay: exactly these decisions (sorted per kind), all others are 0.
    pub fixed: Option<Vec<Vec<(u32, u32)>>>,
    pub cur: [usize; NK],
    pub log: *mut DecLog,
    pub nonzero: [u64; NK],
    /// decisions are forced to 0 from now on (faults stopped)
    pub quiet: bool,
}
impl Decisions {
    /// `f` maps 64 random bits to a value; only called in seed mode.
    #[inline(always)]
    pub fn get(&mut self, k: K, f: impl FnOnce(u64) -> u32) -> u32 {
        let ki = k as usize;
        let i = self.idx[ki];
        self.idx[ki] = i + 1;
        let v = match &self.fixed {
            None => {
                if self.quiet {
                    0
                } else {
                    f(mix(self.seed ^ ((ki as u64 + 1) << 56) ^ ((i as u64) << 8)))
                }
            }
            Some(fx) => {
                let l = &fx[ki];
                let mut c = self.cur[ki];
                while c < l.len() && l[c].0 < i {
                    c += 1;
                }
                self.cur[ki] = c;
                if c < l.len() && l[c].0 == i {
                    l[c].1
                } else {
                    0
                }
            }
        };
        if v != 0 {
            self.nonzero[ki] += 1;
            unsafe {
                let lg = &mut *self.log;
                if (lg.n as usize) < LOG_CAP {
                    lg.e[lg.n as usize] = ((ki as u32) << 27 | (i & 0x7ff_ffff), v);
                    lg.n += 1;
                } else {
                    lg.overflow = 1;
                }
            }
        }
        v
    }
}
