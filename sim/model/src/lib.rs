//! Shared data model: simulation cases (input of the simulator) and histories (its output).
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const SEC: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;

/// the user the simulated processes belong to, and where they are started
pub const USER: &str = "me";
pub const HOME: &str = "/pzsim/home";
pub const CWD: &str = "/pzsim";
pub const CONF_HOME: &str = "/pzsim/conf";
pub const SHELL: &str = "/pzsim/bin/sh";

/// Deterministic PRNG (splitmix64 seeded xorshift*), used by both sides.
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Geometric: number of trials until success with probability ppm/1e6 (>= 1)
    pub fn geometric(&mut self, ppm: u64) -> u64 {
        if ppm == 0 {
            return u64::MAX / 4;
        }
        // inverse CDF with integer-only-ish maths; f64 ops are deterministic on one platform
        let u = ((self.next() >> 11) as f64 + 1.0) / ((1u64 << 53) as f64 + 1.0);
        let p = (ppm as f64) / 1e6;
        if p >= 1.0 {
            return 1;
        }
        let g = (u.ln() / (1.0 - p).ln()).ceil();
        if g < 1.0 {
            1
        } else if g > 1e15 {
            1_000_000_000_000_000
        } else {
            g as u64
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

fn is_default<T: Default + PartialEq>(x: &T) -> bool {
    *x == T::default()
}

/// One complete simulated scenario: one or more process lives ("phases") sharing a world.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    /// All configuration texts used; the first phase starts with `conf0`.
    pub configs: Vec<String>,
    /// client_id -> account name (which reply plan a token request consumes)
    pub clients: BTreeMap<String, String>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub plans: BTreeMap<String, Vec<Reply>>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub default_reply: BTreeMap<String, Reply>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub conns: BTreeMap<String, Vec<ConnFault>>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub procs: BTreeMap<String, Vec<ProcSpec>>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub default_proc: BTreeMap<String, ProcSpec>,
    /// one-way latency to providers, ns
    pub net_lat: u64,
    /// latency on local sockets, ns
    pub loc_lat: u64,
    pub phases: Vec<Phase>,
    /// What issued tokens and codes look like: 0 plain, see `dress`
    #[serde(default, skip_serializing_if = "is_default")]
    pub alphabet: u8,
    /// Which environment variables there are, see `vars`
    #[serde(default, skip_serializing_if = "is_default")]
    pub env: u8,
    /// Free-form facts the generator wants to hand to its oracle.
    #[serde(default, skip_serializing_if = "is_default")]
    pub notes: BTreeMap<String, String>,
}

/// no XDG_RUNTIME_DIR, but TMPDIR
pub const ENV_TMPDIR: u8 = 1;
/// neither
pub const ENV_NO_DIRS: u8 = 2;
/// no XDG_CONFIG_HOME
pub const ENV_HOME_CONF: u8 = 4;
/// the configuration is named by a relative path if it is named
pub const ENV_RELATIVE: u8 = 8;

impl Case {
    pub fn run_dir(&self) -> String {
        match self.env & 3 {
            0 => "/pzsim/run".into(),
            ENV_TMPDIR => format!("/pzsim/tmp/runtime-{USER}"),
            _ => format!("/tmp/runtime-{USER}"),
        }
    }
    pub fn cache_dir(&self) -> String {
        self.run_dir() + "/pizauth"
    }
    pub fn sock(&self) -> String {
        self.cache_dir() + "/pizauth.sock"
    }
    /// Where the configuration is
    pub fn conf_path(&self) -> String {
        if self.env & ENV_HOME_CONF != 0 {
            format!("{HOME}/.config/pizauth.conf")
        } else {
            format!("{CONF_HOME}/pizauth.conf")
        }
    }
    /// The argument of -c
    pub fn conf_arg(&self) -> String {
        let p = self.conf_path();
        match p.strip_prefix(&format!("{CWD}/")) {
            Some(x) if self.env & ENV_RELATIVE != 0 => x.into(),
            _ => p,
        }
    }
    pub fn vars(&self) -> Vec<(&'static str, String)> {
        let mut v = vec![("HOME", HOME.to_string()), ("SHELL", SHELL.into())];
        match self.env & 3 {
            0 => v.push(("XDG_RUNTIME_DIR", self.run_dir())),
            ENV_TMPDIR => v.push(("TMPDIR", "/pzsim/tmp".into())),
            _ => (),
        }
        if self.env & ENV_HOME_CONF == 0 {
            v.push(("XDG_CONFIG_HOME", CONF_HOME.into()));
        }
        v
    }
}

/// A token or code in one of the alphabets that providers use.
pub fn dress(alphabet: u8, what: String) -> String {
    let code = what.starts_with("CODE");
    match alphabet {
        1 => format!("4/0{what}.-_~+/=="),
        2 => format!("{what}&x=1%41;:, #?"),
        3 => format!("{what} é✓\u{1F511}"),
        4 => format!("{what}.{}", "eyJhbGciOiJub25lIn0".repeat(if code { 60 } else { 1000 })),
        5 => format!("{what}\"\\/'<{{}}"),
        6 => format!("access_token:{what}:withurl"),
        // of all lengths, longer and shorter
        7 => {
            let n = what.bytes().fold(0usize, |a, x| a.wrapping_mul(31).wrapping_add(x as usize));
            format!("{what}~{}", "p".repeat(n % 61))
        }
        _ => what,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Phase {
    pub mode: Mode,
    pub boot0: u64,
    /// Offset added to the wall clock at phase start (ns, relative to the carried-over wall clock)
    #[serde(default, skip_serializing_if = "is_default")]
    pub wall_shift: i64,
    /// Simulated down time before this phase
    #[serde(default, skip_serializing_if = "is_default")]
    pub down: u64,
    pub conf: usize,
    #[serde(default, skip_serializing_if = "is_default")]
    pub fresh_fs: bool,
    /// sizes/modes of what is found in the runtime dir at start
    #[serde(default, skip_serializing_if = "is_default")]
    pub sock: SockInit,
    #[serde(default, skip_serializing_if = "is_default")]
    pub stdin: Blob,
    #[serde(default, skip_serializing_if = "is_default")]
    pub script: Option<Script>,
    pub limit: u64,
    pub ops: Vec<Op>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub faults: Vec<Fault>,
    pub sched: Sched,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    Server { daemon: bool, verbose: u8, dash_c: bool },
    Client { args: Vec<String> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum SockInit {
    /// Whatever the previous phase left (nothing in the first phase)
    #[default]
    Carry,
    Absent,
    /// A socket file nobody listens on
    Stale,
    /// Another party listens there and behaves as `script`
    Live,
}

/// A scripted peer behind the control socket (used to test the client commands)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Script {
    pub reply: Blob,
    /// bytes sent per chunk (0 = all at once) and gap between chunks
    pub chunk: usize,
    pub gap: u64,
    /// send only this many bytes of the reply
    pub cut: Option<usize>,
    pub end: ConnEnd,
    /// close as soon as this many request bytes have been received (before replying)
    pub close_after: Option<usize>,
    pub delay: u64,
    /// refuse / error at connect
    pub connect_err: Option<i32>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum ConnEnd {
    #[default]
    Eof,
    Reset,
    Hang,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Blob {
    #[default]
    Empty,
    S(String),
    Hex(String),
    /// pattern repeated n times
    Rep(String, u64),
    Cat(Vec<Blob>),
    /// a dump stored in the world under this label, with a mutation
    Dump(String, Mutate),
}
impl Blob {
    pub fn s(x: &str) -> Blob {
        Blob::S(x.to_string())
    }
    pub fn from_bytes(b: &[u8]) -> Blob {
        match std::str::from_utf8(b) {
            Ok(s) => Blob::S(s.to_string()),
            Err(_) => Blob::Hex(hex(b)),
        }
    }
    pub fn bytes(&self, dumps: &BTreeMap<String, Vec<u8>>) -> Vec<u8> {
        match self {
            Blob::Empty => vec![],
            Blob::S(s) => s.as_bytes().to_vec(),
            Blob::Hex(h) => unhex(h),
            Blob::Rep(s, n) => s.as_bytes().repeat(*n as usize),
            Blob::Cat(v) => v.iter().flat_map(|x| x.bytes(dumps)).collect(),
            Blob::Dump(l, m) => m.apply(dumps.get(l).cloned().unwrap_or_default()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Mutate {
    #[default]
    None,
    Truncate(usize),
    Flip(usize, u8),
    Append(u8),
}
impl Mutate {
    pub fn apply(&self, mut d: Vec<u8>) -> Vec<u8> {
        match self {
            Mutate::None => (),
            Mutate::Truncate(n) => {
                let l = d.len();
                d.truncate(if l == 0 { 0 } else { n % l })
            }
            Mutate::Flip(i, x) => {
                if !d.is_empty() {
                    let l = d.len();
                    d[i % l] ^= if *x == 0 { 1 } else { *x };
                }
            }
            Mutate::Append(x) => d.push(*x),
        }
        d
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2)
        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub id: u32,
    pub at: Trig,
    pub kind: OpKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Trig {
    At(u64),
    /// nth (1-based) complete token request of the account has reached the provider
    TReq(String, u32, u64),
    /// nth token reply of the account has been fully handed to the server's socket
    TRep(String, u32, u64),
    /// operation finished
    Op(u32, u64),
    /// operation's request was fully delivered
    Sent(u32, u64),
    /// nth process of that kind started / ended
    Spawn(String, u32, u64),
    ProcEnd(String, u32, u64),
    /// nth connection attempt (name look-up) to a provider host
    Try(String, u32, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OpKind {
    Cli { cmd: Cmd, conn: ConnOpts },
    Browser { acct: String, which: Which, what: Redirect, muts: Vec<UrlMut>, conn: ConnOpts },
    Http { https: bool, data: Blob, conn: ConnOpts },
    SetConf(usize),
    ConfErr(Option<i32>),
    Net(String, NetState),
    Suspend(u64),
    Wall(i64),
    /// The process dies at once (power cut / SIGKILL)
    Crash,
    Term,
    RmSock,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Show(String, bool),
    Refresh(String, bool),
    Revoke(String),
    Reload,
    Status,
    Info,
    /// store the reply under this label
    Dump(String),
    Restore(Blob),
    Shutdown,
    Raw(Blob),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ConnOpts {
    /// send in chunks of this many bytes (0 = at once) with this gap
    #[serde(default, skip_serializing_if = "is_default")]
    pub chunk: usize,
    #[serde(default, skip_serializing_if = "is_default")]
    pub gap: u64,
    /// stop sending after so many bytes ...
    #[serde(default, skip_serializing_if = "is_default")]
    pub cut: Option<usize>,
    /// ... and then do this (Hang: keep the connection open)
    #[serde(default, skip_serializing_if = "is_default")]
    pub end: Option<ConnEnd>,
    /// close (after sending everything) without waiting for a reply
    #[serde(default, skip_serializing_if = "is_default")]
    pub no_wait: bool,
    /// give up (close the connection) this long after connecting; 0 = never
    #[serde(default, skip_serializing_if = "is_default")]
    pub close_after: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Which {
    Latest,
    /// k-th authorisation URL ever issued for the account (0-based)
    Nth(u32),
    /// the one before the latest
    Prev,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Redirect {
    Code,
    /// a code the provider does not know
    BadCode,
    NoCode,
    Error(String),
    /// replay the most recently issued code of that account instead of making a new one
    SameCode,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum UrlMut {
    State(String),
    FlipState,
    /// 0 truncate, 1 extend, 2 swap case, 3 halve, 4 pad, 5 other last character
    EditState(u8),
    NoState,
    Host(String),
    PortDelta(i32),
    OtherListener,
    Method(String),
    ExtraHeader(Blob),
    NoHost,
    /// the host field names no port
    NoPort,
    DupHost,
    HttpVer(String),
    Path(String),
    ExtraQuery(String),
    LowerHost,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum NetState {
    #[default]
    Up,
    DnsFail,
    Refuse,
    Blackhole,
    Unreach,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum ConnFault {
    #[default]
    Ok,
    DnsFail,
    DnsSlow(u64),
    Refuse,
    Blackhole,
    Unreach,
    ResetOnRequest,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Reply {
    #[serde(default, skip_serializing_if = "is_default")]
    pub delay: u64,
    pub status: u16,
    pub body: Body,
    #[serde(default, skip_serializing_if = "is_default")]
    pub frame: Frame,
    #[serde(default, skip_serializing_if = "is_default")]
    pub chunk: usize,
    #[serde(default, skip_serializing_if = "is_default")]
    pub gap: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub net: ReplyNet,
    #[serde(default, skip_serializing_if = "is_default")]
    pub location: Option<String>,
    /// instead of the status line: not HTTP
    #[serde(default, skip_serializing_if = "is_default")]
    pub line: Option<String>,
}
impl Reply {
    pub fn ok(expires_in: u64) -> Reply {
        Reply {
            delay: 20 * MS,
            status: 200,
            body: Body::Token {
                expires: Jv::N(expires_in),
                refresh: RtMode::New,
                ttype: Jv::S("Bearer".into()),
                access: true,
            },
            frame: Frame::Len,
            chunk: 0,
            gap: 0,
            net: ReplyNet::Ok,
            location: None,
            line: None,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Frame {
    #[default]
    Len,
    Chunked,
    Close,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum ReplyNet {
    #[default]
    Ok,
    /// never answer
    Hang,
    /// connection reset instead of an answer
    Reset,
    /// orderly close instead of an answer
    Eof,
    /// send n bytes of the answer then reset / close / hang
    Cut(usize, ConnEnd),
    /// the same, torn within the header / within the body (per mille of its length)
    CutHead(u16, ConnEnd),
    CutBody(u16, ConnEnd),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Token { expires: Jv, refresh: RtMode, ttype: Jv, access: bool },
    OauthErr(String),
    Raw(Blob),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Jv {
    N(u64),
    S(String),
    Null,
    Absent,
    Raw(String),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum RtMode {
    /// a fresh refresh token
    New,
    /// field absent
    Absent,
    /// the same refresh token again (refresh) or fresh (code)
    Same,
    Null,
    Number,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ProcSpec {
    #[serde(default, skip_serializing_if = "is_default")]
    pub spawn_err: i32,
    /// run time; u64::MAX = until killed
    pub dur: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub exit: i32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub signal: i32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub out: u64,
    /// ask the server for a dump when started; store it under this label once complete
    #[serde(default, skip_serializing_if = "is_default")]
    pub dump: Option<String>,
    /// ask the server to show this account when started
    #[serde(default, skip_serializing_if = "is_default")]
    pub show: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub call: String,
    /// nth call (1-based) of that kind made by the process
    pub n: u64,
    pub what: FaultKind,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    Err(i32),
    Short(usize),
    Spurious,
    Delay(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Sched {
    pub seed: u64,
    /// switch probability at synchronisation points (per million)
    pub sync_ppm: u64,
    /// preemption probability per instrumented memory access (per million)
    pub mem_ppm: u64,
    /// non-FIFO choice probability when a thread blocks (per million)
    pub blk_ppm: u64,
    /// stall probability at preemption points taken (per million) and maximum
    pub stall_ppm: u64,
    pub stall_max: u64,
    pub max_stalls: u32,
    /// how often (per million) a thread that has just received something or been woken by the clock is
    /// likely to be stalled soon
    #[serde(default, skip_serializing_if = "is_default")]
    pub arm_ppm: u64,
    /// end the run after so many synchronisation points (0: the usual bound)
    #[serde(default, skip_serializing_if = "is_default")]
    pub cap: u64,
    /// Explicit deviations: if present, nothing is drawn.
    #[serde(default, skip_serializing_if = "is_default")]
    pub explicit: Option<Vec<Dev>>,
}

/// One scheduling decision that departs from the default (run on; FIFO when blocked).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dev {
    /// 's' sync point, 'm' memory access, 'b' blocking choice
    pub c: char,
    /// ordinal of the decision point within its class
    pub n: u64,
    /// index of the runnable thread to run instead
    pub pick: u32,
    /// if non-zero, the current thread is stalled for so long
    #[serde(default, skip_serializing_if = "is_default")]
    pub stall: u64,
}

// ---------------------------------------------------------------------------------------------
// Histories
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ev {
    /// global sequence number (total order)
    pub q: u64,
    /// world time (ns)
    pub t: u64,
    /// virtual wall clock and suspended time, to let oracles translate
    pub e: E,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    Start { phase: usize, mono: u64, boot: u64, wall: i64 },
    /// CLI request: connection made
    CliConn { op: u32 },
    CliRefused { op: u32 },
    /// the server took the connection from its backlog
    CliAccept { op: u32 },
    /// whole request (and EOF) delivered
    CliSent { op: u32 },
    /// the reply is complete (or the connection broke)
    CliReply { op: u32, data: Blob, end: ConnEnd },
    BrSkip { op: u32 },
    BrConn { op: u32, port: u16 },
    BrRefused { op: u32 },
    BrAccept { op: u32 },
    /// since `from` the program ran on and on without any visible effect
    Busy { from: u64, syncs: u64, mems: u64, tmos: u64 },
    /// the certificate shown to a browser (DER, in hexadecimal)
    Cert { op: u32, der: String },
    BrSent { op: u32, target: String, code: Option<String> },
    BrReply { op: u32, data: Blob, end: ConnEnd, sent: u64, consumed: u64 },
    /// the simulator learnt an authorisation URL (via: cli / notify)
    Url { acct: String, url: String, via: String },
    /// the user's browser obtained an authorisation code from the provider
    Code { acct: String, code: String, url: String },
    /// a connection attempt to a provider begins (name look-up); `br` = last browser request the
    /// same thread read from
    Try { tr: u32, host: String, task: u32, br: Option<u32> },
    Dns { tr: u32, host: String, ok: bool },
    TConn { tr: u32, conn: u32, host: String, port: u16, res: i32 },
    /// complete token request received
    TReq { tr: u32, conn: u32, n: u32, acct: String, an: u32, host: String, path: String, form: Vec<(String, String)>, head: String, valid: bool, why: String },
    /// reply decided by the provider (tokens become valid now)
    TRep { conn: u32, n: u32, acct: String, an: u32, kind: String, at: Option<String>, rt: Option<String>, expires: Option<u64>, status: u16 },
    /// last byte of the reply (or the reset/close) reached the server's socket
    TRepDone { conn: u32, n: u32, acct: String, an: u32 },
    TClose { conn: u32, n: u32 },
    Spawn { pid: i32, kind: String, cmd: String, argv: Vec<String>, env: Vec<(String, String)>, err: i32 },
    ProcEnd { pid: i32, kind: String, code: i32, sig: i32 },
    Killed { pid: i32, sig: i32 },
    Log { src: String, text: String },
    Stdout { data: Blob },
    /// what a client command asked of the (scripted) server
    Asked { data: Blob },
    ConfSet { idx: usize },
    ConfRead { idx: usize, err: i32 },
    Fs { what: String, path: String, arg: i64 },
    Suspend { dur: u64 },
    Wall { delta: i64 },
    Net { host: String, state: NetState },
    Fault { call: String, n: u64 },
    Stall { task: u32, dur: u64 },
    DumpStored { label: String, data: Blob },
    Daemon,
    Escape { what: String },
    Exit { code: i32, sig: i32, abort: bool },
    End { why: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Stats {
    pub syncs: u64,
    pub mems: u64,
    pub blocks: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub stall_total: u64,
    pub threads: u32,
    pub ihash: u64,
    pub sim_ns: u64,
    pub suspended: u64,
    pub calls: BTreeMap<String, u64>,
}

/// World state that survives the process
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Carry {
    pub t: u64,
    pub q: u64,
    pub wall: i64,
    pub conf: usize,
    pub sock_present: bool,
    pub dir_present: bool,
    pub dumps: BTreeMap<String, String>,
    pub prov: ProvState,
    pub plan_pos: BTreeMap<String, u32>,
    pub conn_pos: BTreeMap<String, u32>,
    pub proc_pos: BTreeMap<String, u32>,
    pub net: BTreeMap<String, NetState>,
    pub urls: BTreeMap<String, Vec<String>>,
    pub tries: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ProvState {
    pub codes: BTreeMap<String, CodeRec>,
    pub rts: BTreeMap<String, String>,
    pub next: u32,
    pub treqs: u32,
    pub an: BTreeMap<String, u32>,
    pub last_code: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct CodeRec {
    pub acct: String,
    pub client: String,
    pub challenge: String,
    pub redirect: String,
    pub uses: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SimIn {
    pub case: Case,
    pub phase: usize,
    pub carry: Carry,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SimOut {
    pub evs: Vec<Ev>,
    pub devs: Vec<Dev>,
    pub stats: Stats,
    pub carry: Carry,
}
