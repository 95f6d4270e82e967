//! Building blocks for generated scenarios.
use crate::spec::*;
use model::*;

pub struct B {
    pub r: Rng,
    pub c: Case,
    pub confs: Vec<Option<ConfSpec>>,
    id: u32,
}

pub const HOUR: u64 = 3600 * SEC;
pub const MIN: u64 = 60 * SEC;

impl B {
    pub fn new(prop: &str, seed: u64) -> B {
        let mut r = Rng::new(seed ^ 0x5EED_0000);
        let net_lat = *r.pick(&[1 * MS, 10 * MS, 40 * MS, 150 * MS]);
        let mut e = Rng::new(seed ^ 0xE1417);
        let mut env = 0;
        let one_in = match prop {
            "C22" | "C23" => 3,
            "C03" | "C27" | "C28" => 6,
            _ => 10,
        };
        if e.chance(1, one_in) {
            env = 1 + e.below(15) as u8;
            if env & 3 == 3 {
                env &= !3;
            }
        }
        B {
            c: Case {
                prop: prop.into(),
                seed,
                configs: vec![],
                clients: Default::default(),
                plans: Default::default(),
                default_reply: Default::default(),
                conns: Default::default(),
                procs: Default::default(),
                default_proc: Default::default(),
                net_lat,
                loc_lat: *r.pick(&[20 * US, 50 * US, 500 * US]),
                phases: vec![],
                alphabet: 0,
                env,
                notes: Default::default(),
            },
            r,
            confs: vec![],
            id: 0,
        }
    }
    pub fn conf(&mut self, s: ConfSpec) -> usize {
        for a in &s.accts {
            self.c.clients.insert(a.client_id.clone(), a.name.clone());
        }
        self.c.configs.push(s.text());
        self.confs.push(Some(s));
        self.confs.len() - 1
    }
    /// the same in other words
    pub fn laid_conf(&mut self, s: ConfSpec) -> usize {
        let t = crate::layout::lay(&mut self.r, &s);
        let i = self.conf(s);
        self.c.configs[i] = t;
        i
    }
    pub fn bad_conf(&mut self, t: &str) -> usize {
        self.c.configs.push(t.into());
        self.confs.push(None);
        self.confs.len() - 1
    }
    pub fn server(&mut self, conf: usize, limit: u64) {
        let sched = sched(&mut self.r);
        let boot0 = *self.r.pick(&[30 * SEC, 100 * SEC, 5000 * SEC, 3_000_000 * SEC]);
        // a daemon with a relative path must find its configuration again
        let (d, c) = if self.c.env & ENV_RELATIVE != 0 { (5, 8) } else { (1, 5) };
        self.c.phases.push(Phase {
            mode: Mode::Server { daemon: self.r.chance(d, 10), verbose: self.r.below(4) as u8, dash_c: self.r.chance(c, 10) },
            boot0,
            wall_shift: 0,
            down: 0,
            conf,
            fresh_fs: false,
            sock: SockInit::Carry,
            stdin: Blob::Empty,
            script: None,
            limit,
            ops: vec![],
            faults: vec![],
            sched,
        });
    }
    pub fn ph(&mut self) -> &mut Phase {
        self.c.phases.last_mut().unwrap()
    }
    pub fn op(&mut self, at: Trig, kind: OpKind) -> u32 {
        self.id += 1;
        let id = self.id;
        self.ph().ops.push(Op { id, at, kind });
        id
    }
    pub fn cli(&mut self, at: Trig, cmd: Cmd) -> u32 {
        self.op(at, OpKind::Cli { cmd, conn: Default::default() })
    }
    pub fn show(&mut self, at: Trig, a: &str) -> u32 {
        self.cli(at, Cmd::Show(a.into(), true))
    }
    pub fn browse(&mut self, at: Trig, a: &str, what: Redirect) -> u32 {
        self.op(
            at,
            OpKind::Browser { acct: a.into(), which: Which::Latest, what, muts: vec![], conn: Default::default() },
        )
    }
    /// request an authorisation and follow it
    pub fn auth(&mut self, at: Trig, a: &str) -> (u32, u32) {
        let s = self.show(at, a);
        let d = *self.r.pick(&[1 * MS, 200 * MS, 2 * SEC]);
        let b = self.browse(Trig::Op(s, d), a, Redirect::Code);
        (s, b)
    }
    pub fn plan(&mut self, a: &str, v: Vec<Reply>) {
        self.c.plans.insert(a.into(), v);
    }
    /// a coin already tossed
    pub fn id_even(&self) -> bool {
        self.id % 2 == 0
    }
    pub fn finish(mut self) -> Case {
        self.c.notes.insert("confs".into(), serde_json::to_string(&self.confs).unwrap());
        let often = ["C04", "C05", "C06", "C10", "C14", "C15", "C16"].contains(&self.c.prop.as_str());
        if self.r.chance(1, if often { 3 } else { 5 }) {
            self.c.alphabet = 1 + self.r.below(7) as u8;
        }
        // long tokens in tiny pieces would take minutes to arrive
        if self.c.alphabet == 4 {
            for x in self.c.plans.values_mut().flatten().chain(self.c.default_reply.values_mut()) {
                if x.gap > 0 {
                    x.chunk *= 100;
                }
            }
        }
        self.c
    }
    /// a moment near something interesting
    pub fn moment(&mut self, accts: &[String], horizon: u64) -> Trig {
        let a = self.r.pick(accts).clone();
        let d = delay(&mut self.r);
        let k = 1 + self.r.below(3) as u32;
        match self.r.below(12) {
            0..=2 => Trig::TReq(a, k, d),
            3..=4 => Trig::TRep(a, k, d),
            5 => {
                let spec = self.confs.iter().flatten().find_map(|c| c.acct(&a)).cloned();
                Trig::Try(spec.map_or("tok-a.test".into(), |s| s.tok_host()), k, d)
            }
            6 => Trig::Spawn((*self.r.pick(&["N1", "N2", "N3"])).into(), k, d),
            7..=8 if self.id > 0 => {
                let o = 1 + self.r.below(self.id as u64) as u32;
                // only operations of this phase can finish in it
                if self.ph().ops.iter().any(|x| x.id == o) {
                    Trig::Op(o, d)
                } else {
                    Trig::At(self.r.below(horizon))
                }
            }
            _ => Trig::At(self.r.below(horizon)),
        }
    }
}

pub fn delay(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => r.below(200 * US),
        2 => r.below(5 * MS),
        3 => r.below(100 * MS),
        4 => r.below(2 * SEC),
        5 => r.below(8 * SEC),
        6 => r.below(30 * SEC),
        _ => r.below(100 * SEC),
    }
}

pub fn sched(r: &mut Rng) -> Sched {
    let seed = r.next();
    match r.below(13) {
        0 | 1 => Sched { seed, ..Default::default() },
        2 | 3 => Sched { seed, blk_ppm: 400_000, ..Default::default() },
        4 | 5 => Sched { seed, blk_ppm: 300_000, sync_ppm: 60_000, ..Default::default() },
        6 => Sched { seed, blk_ppm: 300_000, sync_ppm: 20_000, mem_ppm: 1000, ..Default::default() },
        7 => Sched {
            seed,
            blk_ppm: 300_000,
            sync_ppm: 60_000,
            stall_ppm: 150_000,
            stall_max: 300 * MS,
            max_stalls: 3,
            ..Default::default()
        },
        8 => Sched {
            seed,
            blk_ppm: 300_000,
            sync_ppm: 100_000,
            stall_ppm: 100_000,
            stall_max: 4 * SEC,
            max_stalls: 2,
            ..Default::default()
        },
        10.. => Sched {
            seed,
            blk_ppm: *r.pick(&[0, 300_000]),
            stall_max: *r.pick(&[20 * MS, 300 * MS, 4 * SEC, 4 * SEC]),
            max_stalls: 3,
            arm_ppm: *r.pick(&[20_000, 60_000, 200_000]),
            ..Default::default()
        },
        _ => Sched {
            seed,
            blk_ppm: 200_000,
            sync_ppm: 20_000,
            mem_ppm: 1000,
            stall_ppm: 50_000,
            stall_max: 2 * SEC,
            max_stalls: 2,
            ..Default::default()
        },
    }
}

/// schedules without stalls (for oracles about promptness)
pub fn sched_nostall(r: &mut Rng) -> Sched {
    let mut s = sched(r);
    s.stall_ppm = 0;
    s.arm_ppm = 0;
    s.max_stalls = 0;
    s
}

pub fn rdelay(r: &mut Rng) -> u64 {
    *r.pick(&[0, 1 * MS, 20 * MS, 20 * MS, 500 * MS, 3 * SEC, 12 * SEC, 20 * SEC])
}

pub fn ok(r: &mut Rng, life: &[u64]) -> Reply {
    let mut x = Reply::ok(*r.pick(life));
    x.delay = rdelay(r);
    if let Body::Token { refresh, .. } = &mut x.body {
        *refresh = *r.pick(&[RtMode::New, RtMode::New, RtMode::New, RtMode::Absent, RtMode::Same]);
    }
    x.frame = *r.pick(&[Frame::Len, Frame::Len, Frame::Chunked, Frame::Close]);
    if r.chance(1, 6) {
        x.chunk = 60;
        x.gap = *r.pick(&[1 * MS, 50 * MS]);
    }
    x
}
/// first answer to a code exchange: always with a refresh token unless asked otherwise
pub fn ok_code(r: &mut Rng, life: &[u64]) -> Reply {
    let mut x = ok(r, life);
    if let Body::Token { refresh, .. } = &mut x.body {
        *refresh = RtMode::New;
    }
    x
}

pub fn perm(r: &mut Rng) -> Reply {
    let mut x = ok(r, &[3600]);
    match r.below(12) {
        11 => x.line = Some(r.pick(&["garbage", "", "HTTP/1.1", "HTTP/11 200 OK", "XTTP/1.1 200 OK", "HTTP/1.1 20 OK", "HTTP/1.1 2000 OK", "HTTP/1.1 2x0 OK", "HTTP/1.1 200 \u{e9}"]).to_string()),
        10 => set(&mut x, |e, _, _| *e = Jv::Raw("3600, \"error\": \"invalid_grant\"".into())),
        0 => x.status = *r.pick(&[400, 401, 403, 404]),
        1 => x.status = *r.pick(&[500, 502, 503, 429]),
        2 => x.body = Body::OauthErr((*r.pick(&["invalid_grant", "invalid_client", "temporarily_unavailable"])).into()),
        3 => {
            x.body = Body::OauthErr("invalid_grant".into());
            x.status = 400
        }
        4 => x.body = Body::Raw(Blob::s(*r.pick(&["not json", "{\"access_token\":", "[]", "null", "42", "{}", "<html></html>"]))),
        5 => x.body = Body::Raw(Blob::Empty),
        6 => set(&mut x, |e, _, _| *e = Jv::S("3600".into())),
        7 => set(&mut x, |e, _, _| *e = Jv::Absent),
        8 => set(&mut x, |_, t, _| *t = Jv::S("mac".into())),
        _ => set(&mut x, |_, _, a| *a = false),
    }
    x
}

fn set(x: &mut Reply, f: impl Fn(&mut Jv, &mut Jv, &mut bool)) {
    if let Body::Token { expires, ttype, access, .. } = &mut x.body {
        f(expires, ttype, access)
    }
}

pub fn trans(r: &mut Rng) -> Reply {
    let mut x = ok(r, &[3600]);
    let k = r.below(1000) as u16;
    let e = *r.pick(&[ConnEnd::Eof, ConnEnd::Reset, ConnEnd::Reset, ConnEnd::Hang]);
    x.net = *r.pick(&[ReplyNet::Reset, ReplyNet::Reset, ReplyNet::Eof, ReplyNet::Hang, ReplyNet::CutHead(k, e), ReplyNet::CutBody(k, e)]);
    x
}

pub fn conn_fault(r: &mut Rng) -> ConnFault {
    *r.pick(&[
        ConnFault::DnsFail,
        ConnFault::Refuse,
        ConnFault::Refuse,
        ConnFault::Unreach,
        ConnFault::Blackhole,
        ConnFault::ResetOnRequest,
    ])
}

/// quick connection failures only
pub fn conn_fault_fast(r: &mut Rng) -> ConnFault {
    *r.pick(&[ConnFault::DnsFail, ConnFault::Refuse, ConnFault::Unreach, ConnFault::ResetOnRequest])
}

/// Account names: mostly plain ones.
pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let odd = ["a b", "é", "A", "a", "b:x", "b:y", "b.c@d.test", "10", "_", "日本語", "a\"q\\", "-u", "x/y", "null", "aa", "%61", "$HOME", "a'b", "a\tb"];
    if n > 4 {
        let mut v: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
        for x in ["a b", "é", "b:x", "日本語", "-u"] {
            if r.chance(1, 4) {
                let k = r.below(n as u64) as usize;
                v[k] = x.into();
            }
        }
        return v;
    }
    if !r.chance(1, 7) {
        return ["a", "b", "c", "dd"].iter().take(n).map(|x| x.to_string()).collect();
    }
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let x = r.pick(&odd).to_string();
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

pub fn base_conf(r: &mut Rng, names: &[String]) -> ConfSpec {
    let mut c = ConfSpec {
        notify: Some("N1".into()),
        error: Some("N2".into()),
        event: Some("N3".into()),
        https: Some(None),
        ..Default::default()
    };
    for n in names {
        let mut a = AcctSpec::basic(n);
        if r.chance(1, 5) {
            a.secret = None
        }
        if r.chance(1, 12) {
            a.client_id += *r.pick(&[" ", "\"", "\\", "&x=1", "é", " // ", ";", "%41", "+", "=="]);
        }
        if r.chance(1, 12) {
            a.secret = a.secret.map(|x| x + *r.pick(&[" x ", "a\"b\\", "\\", "p&q=r+s %41é", "//", "~.-", "=="]));
        }
        c.accts.push(a);
    }
    c
}

/// change something that ties credentials to the definition
pub fn change_sec(r: &mut Rng, a: &mut AcctSpec, tag: &str) {
    let n = slug(&a.name);
    match r.below(10) {
        0 => a.auth_uri = format!("http://auth-{n}{tag}.test/auth"),
        9 => a.hint = if a.hint.is_some() && r.chance(1, 2) { None } else { Some(format!("{n}{tag}@x.test")) },
        1 => a.fields = Some(vec![("hd".into(), format!("x{tag}"))]),
        2 => a.client_id = format!("cl_{n}_{tag}"),
        3 => a.secret = if a.secret.is_some() && r.chance(1, 3) { None } else { Some(format!("CSEC_{n}_{tag}_zq")) },
        4 => a.redirect = Some(format!("http://localhost/r{tag}")),
        5 => a.scopes = if r.chance(1, 3) { None } else { Some(vec!["s1".into(), format!("t{tag}")]) },
        6 | 7 => a.token_uri = format!("http://tok-{n}{tag}.test/token"),
        8 => a.token_uri = format!("http://tok-{n}.test/token{tag}"),
        _ => unreachable!(),
    }
}

/// change things that do not
pub fn change_free(r: &mut Rng, c: &mut ConfSpec, tag: &str) {
    match r.below(5) {
        0 => c.event = Some(format!("N3 {tag}")),
        1 => c.error = Some(format!("N2 {tag}")),
        2 => c.notify = Some(format!("N1 {tag}")),
        3 => {
            c.t.at_least = Some(*r.pick(&[600, 3600, 7200]));
        }
        _ => {
            c.notify_interval = Some(*r.pick(&[30, 60, 600]));
        }
    }
    if r.chance(1, 3) {
        for a in &mut c.accts {
            a.t.before = Some(*r.pick(&[30, 60, 90]));
        }
    }
}

pub const BAD_CONFS: &[&str] = &[
    "",
    "account \"a\" {",
    "nonsense = \"x\";",
    "account \"a\" { auth_uri = \"http://x.test/\"; }",
    "auth_notify_interval = 10;",
    "account \"a\" {} account \"a\" {}",
];

#[derive(Clone, Debug)]
pub struct W {
    pub show: u64,
    pub refresh: u64,
    pub revoke: u64,
    pub reload_same: u64,
    pub reload_free: u64,
    pub reload_sec: u64,
    pub reload_bad: u64,
    pub status: u64,
    pub dump: u64,
    pub restore: u64,
    pub code: u64,
    pub prev_code: u64,
    pub err: u64,
    pub badcode: u64,
    pub auth: u64,
    pub net: u64,
    pub suspend: u64,
    pub wall: u64,
    /// per thousand replies
    pub perm: u64,
    pub trans: u64,
    pub connf: u64,
    pub no_rt: u64,
    pub life: &'static [u64],
    pub accts: (u64, u64),
    pub ops: (u64, u64),
    pub limit: &'static [u64],
    pub slow_cmds: bool,
}
impl Default for W {
    fn default() -> W {
        W {
            show: 6,
            refresh: 6,
            revoke: 0,
            reload_same: 0,
            reload_free: 0,
            reload_sec: 0,
            reload_bad: 0,
            status: 2,
            dump: 2,
            restore: 0,
            code: 3,
            prev_code: 0,
            err: 0,
            badcode: 0,
            auth: 4,
            net: 0,
            suspend: 0,
            wall: 0,
            perm: 60,
            trans: 60,
            connf: 60,
            no_rt: 30,
            life: &[100, 130, 200, 600, 3600, 7200],
            accts: (1, 3),
            ops: (4, 14),
            limit: &[40 * SEC, 120 * SEC, 300 * SEC, 1500 * SEC],
            slow_cmds: false,
        }
    }
}

pub fn cmds(b: &mut B, slow: bool) {
    for k in ["N1", "N2", "N3", "N4"] {
        let mut v = vec![];
        for _ in 0..12 {
            let mut p = ProcSpec { dur: *b.r.pick(&[1 * MS, 5 * MS, 200 * MS]), ..Default::default() };
            if slow {
                match b.r.below(8) {
                    0 => p.dur = *b.r.pick(&[2 * SEC, 10 * SEC, 29 * SEC]),
                    1 => p.dur = u64::MAX,
                    2 => p.exit = 1,
                    3 => p.signal = 9,
                    4 => p.spawn_err = *b.r.pick(&[libc::ENOENT, libc::EAGAIN, libc::ENOMEM]),
                    5 => p.out = *b.r.pick(&[10, 1000, 60_000]),
                    _ => (),
                }
                if k == "N1" && p.dur == u64::MAX {
                    p.dur = 300 * SEC;
                }
            }
            v.push(p);
        }
        b.c.procs.insert(k.into(), v);
    }
}

pub fn plans(b: &mut B, names: &[String], w: &W) {
    for n in names {
        let mut v = vec![];
        for i in 0..12 {
            let x = b.r.below(1000);
            let mut rep = if x < w.perm {
                perm(&mut b.r)
            } else if x < w.perm + w.trans {
                trans(&mut b.r)
            } else if i == 0 {
                ok_code(&mut b.r, w.life)
            } else {
                ok(&mut b.r, w.life)
            };
            if b.r.below(1000) < w.no_rt {
                if let Body::Token { refresh, .. } = &mut rep.body {
                    *refresh = *b.r.pick(&[RtMode::Absent, RtMode::Null, RtMode::Number]);
                }
            }
            v.push(rep);
        }
        b.plan(n, v);
        let hosts: Vec<String> = {
            let mut h: Vec<String> = b.confs.iter().flatten().filter_map(|c| c.acct(n)).map(|a| a.tok_host()).collect();
            h.sort();
            h.dedup();
            h
        };
        for h in hosts {
            let v: Vec<ConnFault> = (0..16)
                .map(|_| if b.r.below(1000) < w.connf { conn_fault(&mut b.r) } else { ConnFault::Ok })
                .collect();
            b.c.conns.insert(h, v);
        }
    }
}

/// The general scenario: a few accounts, authorisations, and operations aimed at each other's
/// windows.
pub fn swarm(b: &mut B, w: &W) -> Vec<String> {
    let n = b.r.range(w.accts.0, w.accts.1) as usize;
    let names = names(&mut b.r, n);
    let mut base = base_conf(&mut b.r, &names);
    tweak_times(&mut b.r, &mut base);
    let c0 = b.conf(base.clone());
    swarm_with(b, w, names, base, c0)
}

pub fn tweak_times(r: &mut Rng, c: &mut ConfSpec) {
    if r.chance(1, 3) {
        c.t.before = Some(*r.pick(&[5, 30, 60, 90]));
    }
    if r.chance(1, 3) {
        c.t.retry = Some(*r.pick(&[5, 10, 40]));
    }
    if r.chance(1, 4) {
        c.t.at_least = Some(*r.pick(&[20, 60, 600]));
    }
    if r.chance(1, 3) {
        c.notify_interval = Some(*r.pick(&[2, 5, 20, 60]));
    }
    for a in &mut c.accts {
        if r.chance(1, 5) {
            a.t.before = Some(*r.pick(&[10, 45]));
        }
        if r.chance(1, 6) {
            a.t.at_least = Some(*r.pick(&[30, 90]));
        }
        if r.chance(1, 6) {
            a.t.retry = Some(*r.pick(&[3, 15]));
        }
    }
}

pub fn swarm_with(b: &mut B, w: &W, names: Vec<String>, base: ConfSpec, c0: usize) -> Vec<String> {
    // configuration variants
    let mut frees = vec![];
    let mut secs = vec![];
    let mut bads = vec![];
    if w.reload_free > 0 {
        for i in 0..2 {
            let mut c = base.clone();
            change_free(&mut b.r, &mut c, &format!("v{i}"));
            frees.push(b.conf(c));
        }
    }
    if w.reload_sec > 0 {
        for i in 0..2 {
            let mut c = base.clone();
            let k = b.r.below(c.accts.len() as u64) as usize;
            if b.r.chance(1, 5) && c.accts.len() > 1 {
                c.accts.remove(k);
            } else {
                change_sec(&mut b.r, &mut c.accts[k], &format!("{}", i + 2));
            }
            secs.push(b.conf(c));
        }
        secs.push(c0);
    }
    if w.reload_bad > 0 {
        let t = *b.r.pick(BAD_CONFS);
        bads.push(b.bad_conf(t));
    }
    plans(b, &names, w);
    cmds(b, w.slow_cmds);
    let limit = *b.r.pick(w.limit);
    b.server(c0, limit);
    let horizon = limit * 3 / 4;
    for n in &names {
        if b.r.chance(9, 10) {
            let at = Trig::At(SEC / 2 + b.r.below(2 * SEC));
            b.auth(at, n);
        }
    }
    let k = b.r.range(w.ops.0, w.ops.1);
    let tot = w.show
        + w.refresh
        + w.revoke
        + w.reload_same
        + w.reload_free
        + w.reload_sec
        + w.reload_bad
        + w.status
        + w.dump
        + w.restore
        + w.code
        + w.prev_code
        + w.err
        + w.badcode
        + w.auth
        + w.net
        + w.suspend
        + w.wall;
    for _ in 0..k {
        let at = b.moment(&names, horizon);
        let a = b.r.pick(&names).clone();
        let withurl = b.r.chance(3, 4);
        let mut x = b.r.below(tot);
        macro_rules! pick {
            ($w:expr) => {
                if x < $w {
                    true
                } else {
                    x -= $w;
                    false
                }
            };
        }
        if pick!(w.show) {
            b.cli(at, Cmd::Show(a, withurl));
        } else if pick!(w.refresh) {
            b.cli(at, Cmd::Refresh(a, withurl));
        } else if pick!(w.revoke) {
            let id = b.cli(at, Cmd::Revoke(a.clone()));
            if b.r.chance(1, 2) {
                let d = delay(&mut b.r);
                b.auth(Trig::Op(id, d), &a);
            }
        } else if pick!(w.reload_same) {
            b.cli(at, Cmd::Reload);
        } else if pick!(w.reload_free) {
            let c = *b.r.pick(&frees);
            reload(b, at, c);
        } else if pick!(w.reload_sec) {
            let c = *b.r.pick(&secs);
            let id = reload(b, at, c);
            if b.r.chance(1, 2) {
                let d = delay(&mut b.r);
                b.auth(Trig::Op(id, d), &a);
            }
        } else if pick!(w.reload_bad) {
            if b.r.chance(1, 3) {
                let e = *b.r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT]);
                let s = b.op(at, OpKind::ConfErr(Some(e)));
                let r = b.cli(Trig::Op(s, 1 * MS), Cmd::Reload);
                b.op(Trig::Op(r, 1 * MS), OpKind::ConfErr(None));
            } else {
                let c = *b.r.pick(&bads);
                let id = reload(b, at, c);
                if b.r.chance(1, 2) {
                    let d = delay(&mut b.r);
                    reload(b, Trig::Op(id, d), c0);
                }
            }
        } else if pick!(w.status) {
            b.cli(at, Cmd::Status);
        } else if pick!(w.dump) {
            let l = format!("d{}", b.r.below(2));
            b.cli(at, Cmd::Dump(l));
        } else if pick!(w.restore) {
            let l = format!("d{}", b.r.below(2));
            b.cli(at, Cmd::Restore(Blob::Dump(l, Mutate::None)));
        } else if pick!(w.code) {
            b.browse(at, &a, Redirect::Code);
        } else if pick!(w.prev_code) {
            b.op(
                at,
                OpKind::Browser { acct: a, which: Which::Prev, what: Redirect::Code, muts: vec![], conn: Default::default() },
            );
        } else if pick!(w.err) {
            let e = *b.r.pick(&["access_denied", "access_denied", "server_error", "invalid_request"]);
            b.browse(at, &a, Redirect::Error(e.into()));
        } else if pick!(w.badcode) {
            b.browse(at, &a, Redirect::BadCode);
        } else if pick!(w.auth) {
            b.auth(at, &a);
        } else if pick!(w.net) {
            let h = AcctSpec::basic(&a).tok_host();
            let st = *b.r.pick(&[NetState::DnsFail, NetState::Refuse, NetState::Unreach, NetState::Blackhole]);
            let id = b.op(at, OpKind::Net(h.clone(), st));
            let d = b.r.below(120 * SEC);
            b.op(Trig::Op(id, d), OpKind::Net(h, NetState::Up));
        } else if pick!(w.suspend) {
            let d = *b.r.pick(&[5 * SEC, 60 * SEC, 600 * SEC, 3 * HOUR]);
            b.op(at, OpKind::Suspend(d));
        } else {
            let _ = pick!(w.wall);
            let d = *b.r.pick(&[-86400, -3600, -30, 30, 3600, 86400, 400 * 86400]) * SEC as i64;
            b.op(at, OpKind::Wall(d));
        }
    }
    // a closing look at everything
    let end = limit - 5 * SEC;
    for n in &names {
        b.show(Trig::At(end), n);
    }
    b.cli(Trig::At(end + SEC), Cmd::Status);
    b.cli(Trig::At(end + 2 * SEC), Cmd::Dump("end".into()));
    names
}

pub fn reload(b: &mut B, at: Trig, c: usize) -> u32 {
    let s = b.op(at, OpKind::SetConf(c));
    let d = *b.r.pick(&[1 * MS, 1 * MS, 1 * SEC]);
    b.cli(Trig::Op(s, d), Cmd::Reload)
}
