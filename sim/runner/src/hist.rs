//! An index over a recorded history: who did what when, and where every secret came from.
use crate::exec::RunOut;
use crate::spec::*;
use model::*;
use std::collections::{BTreeMap, HashMap};

pub type Q = u64;
pub type T = u64;

#[derive(Clone, Debug)]
pub struct OpR {
    pub id: u32,
    pub kind: OpKind,
    pub by_proc: bool,
    pub conn: Option<(Q, T)>,
    pub acc: Option<(Q, T)>,
    pub sent: Option<(Q, T)>,
    pub rep: Option<(Q, T)>,
    pub refused: bool,
    pub skipped: bool,
    pub data: Vec<u8>,
    pub end: ConnEnd,
    pub target: String,
    pub code: Option<String>,
    pub nsent: u64,
    pub consumed: u64,
    pub phase: usize,
}
impl OpR {
    pub fn cmd(&self) -> Option<&Cmd> {
        match &self.kind {
            OpKind::Cli { cmd, .. } => Some(cmd),
            _ => None,
        }
    }
    pub fn opts(&self) -> Option<&ConnOpts> {
        match &self.kind {
            OpKind::Cli { conn, .. } | OpKind::Browser { conn, .. } | OpKind::Http { conn, .. } => Some(conn),
            _ => None,
        }
    }
    /// a plain request, sent whole, on which the client waits for the answer
    pub fn plain(&self) -> bool {
        self.opts().map_or(false, |o| o.cut.is_none() && o.end.is_none() && !o.no_wait && o.close_after == 0)
    }
    /// a request sent whole, whether or not the client then waits for the answer
    pub fn whole(&self) -> bool {
        self.opts().map_or(false, |o| o.cut.is_none() && o.end.is_none() && o.close_after == 0)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.data).to_string()
    }
    /// a complete reply was received
    pub fn answered(&self) -> bool {
        self.rep.is_some() && self.end == ConnEnd::Eof && !self.data.is_empty()
    }
    pub fn ok(&self) -> bool {
        self.answered() && !self.data.starts_with(b"error:")
    }
}

#[derive(Clone, Debug)]
pub struct UrlR {
    pub acct: String,
    pub url: String,
    pub q: Q,
    pub t: T,
    pub via: String,
    pub params: Vec<(String, String)>,
    pub state: String,
    pub challenge: String,
    pub redirect: String,
    pub phase: usize,
}
impl UrlR {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.params.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
}

#[derive(Clone, Debug)]
pub struct TryR {
    pub tr: u32,
    pub host: String,
    pub task: u32,
    pub br: Option<u32>,
    pub q: Q,
    pub t: T,
    pub dns: Option<(Q, T, bool)>,
    pub conn: Option<(Q, T, i32)>,
    pub req: Option<usize>,
    pub phase: usize,
}

#[derive(Clone, Debug)]
pub struct ReqR {
    pub tr: u32,
    pub conn: u32,
    pub n: u32,
    pub an: u32,
    pub acct: String,
    pub host: String,
    pub path: String,
    pub form: Vec<(String, String)>,
    pub head: String,
    pub valid: bool,
    pub why: String,
    pub q: Q,
    pub t: T,
    pub rep: Option<usize>,
    pub done: Option<(Q, T)>,
    pub closed: Option<(Q, T)>,
    pub phase: usize,
}
impl ReqR {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.form.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn is_refresh(&self) -> bool {
        self.get("grant_type") == Some("refresh_token")
    }
    pub fn is_code(&self) -> bool {
        self.get("grant_type") == Some("authorization_code")
    }
}

#[derive(Clone, Debug)]
pub struct RepR {
    pub n: u32,
    pub acct: String,
    pub an: u32,
    pub kind: String,
    pub at: Option<String>,
    pub rt: Option<String>,
    pub expires: Option<u64>,
    pub status: u16,
    pub q: Q,
    pub t: T,
    pub plan: Reply,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// a valid, complete token reply
    Token,
    /// a definitive refusal or an unusable reply
    Perm,
    /// connection-level failure
    Trans,
    /// cannot be told from outside
    Any,
}

#[derive(Clone, Debug)]
pub struct SpawnR {
    pub pid: i32,
    pub kind: String,
    pub cmd: String,
    pub acct: String,
    pub event: String,
    pub url: String,
    pub msg: String,
    pub env: Vec<(String, String)>,
    pub argv: Vec<String>,
    pub err: i32,
    pub q: Q,
    pub t: T,
    pub end: Option<(Q, T)>,
    pub killed: Option<(Q, T)>,
    pub code: i32,
    pub sig: i32,
    pub phase: usize,
}

#[derive(Clone, Debug)]
pub struct CodeR {
    pub acct: String,
    pub code: String,
    pub url: String,
    pub q: Q,
    pub t: T,
}

/// Which configuration text the server was running with, from a given reload on.
#[derive(Clone, Debug)]
pub struct ConfUse {
    pub idx: usize,
    /// the switch happened somewhere in here
    pub q0: Q,
    pub q1: Q,
    pub t0: T,
    pub t1: T,
    pub phase: usize,
}

pub struct H<'a> {
    pub case: &'a Case,
    pub out: &'a RunOut,
    pub evs: &'a [Ev],
    pub confs: Vec<Option<ConfSpec>>,
    pub ops: BTreeMap<u32, OpR>,
    /// CLI operations by acceptance
    pub cli: Vec<u32>,
    pub urls: Vec<UrlR>,
    pub url_ix: HashMap<String, usize>,
    pub codes: HashMap<String, CodeR>,
    pub tries: Vec<TryR>,
    pub reqs: Vec<ReqR>,
    pub reps: Vec<RepR>,
    pub spawns: Vec<SpawnR>,
    pub uses: Vec<ConfUse>,
    /// slack for "at once": scheduling overhead plus all injected stalls and call delays (ns)
    pub slack: u64,
    /// when each token was first seen in a reply to `show`
    pub shown: HashMap<String, T>,
    pub starts: Vec<(Q, T)>,
    pub exits: Vec<(Q, T, usize, i32, i32, bool)>,
    pub ends: Vec<(Q, T, String)>,
    walls: Vec<(T, i64)>,
    pub suspends: Vec<(Q, T, u64)>,
    pub dumps: BTreeMap<String, (Q, T, Vec<u8>)>,
    /// what a reload (by operation) read: text and error
    pub reload_read: BTreeMap<u32, (Q, usize, i32)>,
    rt_ix: HashMap<String, usize>,
    roots: Vec<Option<usize>>,
}

pub const BASE_SLACK: u64 = 1_500 * MS;

fn params(u: &str) -> Vec<(String, String)> {
    url::Url::parse(u)
        .map(|x| x.query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect())
        .unwrap_or_default()
}

impl<'a> H<'a> {
    pub fn new(case: &'a Case, out: &'a RunOut) -> H<'a> {
        let confs: Vec<Option<ConfSpec>> = case
            .notes
            .get("confs")
            .and_then(|x| serde_json::from_str(x).ok())
            .unwrap_or_default();
        let mut h = H {
            case,
            out,
            evs: &out.evs,
            confs,
            ops: BTreeMap::new(),
            cli: vec![],
            urls: vec![],
            url_ix: HashMap::new(),
            codes: HashMap::new(),
            tries: vec![],
            reqs: vec![],
            reps: vec![],
            spawns: vec![],
            uses: vec![],
            shown: HashMap::new(),
            slack: BASE_SLACK + out.phases.iter().map(|p| p.stats.stall_total).sum::<u64>(),
            starts: vec![],
            exits: vec![],
            ends: vec![],
            walls: vec![],
            suspends: vec![],
            dumps: BTreeMap::new(),
            reload_read: BTreeMap::new(),
            rt_ix: HashMap::new(),
            roots: vec![],
        };
        for p in &case.phases {
            for f in &p.faults {
                if let FaultKind::Delay(d) = f.what {
                    h.slack += d;
                }
            }
        }
        h.index();
        for o in h.ops.values().filter(|o| o.answered()) {
            let (t, x) = (o.rep.unwrap().1, o.text());
            if let Some(x) = x.strip_prefix("access_token:") {
                let e = h.shown.entry(x.to_string()).or_insert(t);
                *e = t.min(*e);
            }
        }
        for (i, r) in h.reqs.iter().enumerate() {
            if let Some(rt) = r.rep.and_then(|x| h.reps[x].rt.clone()) {
                h.rt_ix.entry(rt).or_insert(i);
            }
        }
        for i in 0..h.reqs.len() {
            let r = &h.reqs[i];
            let u = if r.is_code() {
                r.get("code").and_then(|c| h.url_of_code(c))
            } else {
                // the reply with the refresh token came before this request
                r.get("refresh_token").and_then(|x| h.req_of_rt(x)).filter(|j| *j < i).and_then(|j| h.roots[j])
            };
            h.roots.push(u);
        }
        h
    }

    fn op(&mut self, id: u32, phase: usize) -> &mut OpR {
        let case = self.case;
        self.ops.entry(id).or_insert_with(|| {
            let k = case.phases.iter().flat_map(|p| p.ops.iter()).find(|o| o.id == id).map(|o| o.kind.clone());
            OpR {
                id,
                by_proc: k.is_none(),
                kind: k.unwrap_or(OpKind::Cli { cmd: Cmd::Status, conn: Default::default() }),
                conn: None,
                acc: None,
                sent: None,
                rep: None,
                refused: false,
                skipped: false,
                data: vec![],
                end: ConnEnd::Eof,
                target: String::new(),
                code: None,
                nsent: 0,
                consumed: 0,
                phase,
            }
        })
    }

    fn index(&mut self) {
        let mut phase = 0;
        let mut conn_of_n: HashMap<u32, usize> = HashMap::new();
        let mut try_ix: HashMap<u32, usize> = HashMap::new();
        let mut wall_off: i64 = 0;
        let mut plan_pos: HashMap<String, usize> = HashMap::new();
        let mut reads: Vec<(Q, usize, i32)> = vec![];
        let mut accepts: Vec<Q> = vec![];
        let none = BTreeMap::new();
        for e in self.evs {
            let (q, t) = (e.q, e.t);
            let at = (q, t);
            match &e.e {
                E::Start { phase: p, wall, .. } => {
                    phase = *p;
                    self.starts.push(at);
                    wall_off = *wall - t as i64;
                    self.walls.push((t, wall_off));
                }
                E::CliConn { op } => self.op(*op, phase).conn = Some(at),
                E::CliRefused { op } => self.op(*op, phase).refused = true,
                E::CliAccept { op } => {
                    accepts.push(q);
                    self.op(*op, phase).acc = Some(at);
                    self.cli.push(*op);
                }
                E::CliSent { op } => self.op(*op, phase).sent = Some(at),
                E::CliReply { op, data, end } => {
                    let o = self.op(*op, phase);
                    o.rep = Some(at);
                    o.data = data.bytes(&none);
                    o.end = *end;
                }
                E::BrSkip { op } => self.op(*op, phase).skipped = true,
                E::BrConn { op, .. } => self.op(*op, phase).conn = Some(at),
                E::BrRefused { op } => self.op(*op, phase).refused = true,
                E::BrAccept { op } => self.op(*op, phase).acc = Some(at),
                E::BrSent { op, target, code } => {
                    let o = self.op(*op, phase);
                    o.sent = Some(at);
                    o.target = target.clone();
                    o.code = code.clone();
                }
                E::BrReply { op, data, end, sent, consumed } => {
                    let o = self.op(*op, phase);
                    o.rep = Some(at);
                    o.data = data.bytes(&none);
                    o.end = *end;
                    o.nsent = *sent;
                    o.consumed = *consumed;
                }
                E::Url { acct, url, via } => {
                    let p = params(url);
                    let g = |k: &str| p.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
                    self.url_ix.insert(url.clone(), self.urls.len());
                    self.urls.push(UrlR {
                        acct: acct.clone(),
                        url: url.clone(),
                        q,
                        t,
                        via: via.clone(),
                        state: g("state"),
                        challenge: g("code_challenge"),
                        redirect: g("redirect_uri"),
                        params: p,
                        phase,
                    });
                }
                E::Code { acct, code, url } => {
                    self.codes.insert(
                        code.clone(),
                        CodeR { acct: acct.clone(), code: code.clone(), url: url.clone(), q, t },
                    );
                }
                E::Try { tr, host, task, br } => {
                    try_ix.insert(*tr, self.tries.len());
                    self.tries.push(TryR {
                        tr: *tr,
                        host: host.clone(),
                        task: *task,
                        br: *br,
                        q,
                        t,
                        dns: None,
                        conn: None,
                        req: None,
                        phase,
                    });
                }
                E::Dns { tr, ok, .. } => {
                    if let Some(i) = try_ix.get(tr) {
                        self.tries[*i].dns = Some((q, t, *ok));
                    }
                }
                E::TConn { tr, res, .. } => {
                    if let Some(i) = try_ix.get(tr) {
                        self.tries[*i].conn = Some((q, t, *res));
                    }
                }
                E::TReq { tr, conn, n, acct, an, host, path, form, head, valid, why } => {
                    if let Some(i) = try_ix.get(tr) {
                        self.tries[*i].req = Some(self.reqs.len());
                    }
                    conn_of_n.insert(*n, self.reqs.len());
                    self.reqs.push(ReqR {
                        tr: *tr,
                        conn: *conn,
                        n: *n,
                        an: *an,
                        acct: acct.clone(),
                        host: host.clone(),
                        path: path.clone(),
                        form: form.clone(),
                        head: head.clone(),
                        valid: *valid,
                        why: why.clone(),
                        q,
                        t,
                        rep: None,
                        done: None,
                        closed: None,
                        phase,
                    });
                }
                E::TRep { n, acct, an, kind, at: a, rt, expires, status, .. } => {
                    if let Some(i) = conn_of_n.get(n) {
                        self.reqs[*i].rep = Some(self.reps.len());
                    }
                    let _ = &mut plan_pos;
                    let plan = self
                        .case
                        .plans
                        .get(acct)
                        .and_then(|v| v.get(*an as usize - 1))
                        .or_else(|| self.case.default_reply.get(acct))
                        .cloned()
                        .unwrap_or_else(|| Reply::ok(3600));
                    self.reps.push(RepR {
                        n: *n,
                        acct: acct.clone(),
                        an: *an,
                        kind: kind.clone(),
                        at: a.clone(),
                        rt: rt.clone(),
                        expires: *expires,
                        status: *status,
                        q,
                        t,
                        plan,
                    });
                }
                E::TRepDone { n, .. } => {
                    if let Some(i) = conn_of_n.get(n) {
                        self.reqs[*i].done = Some(at);
                    }
                }
                E::TClose { n, .. } => {
                    if let Some(i) = conn_of_n.get(n) {
                        self.reqs[*i].closed = Some(at);
                    }
                }
                E::Spawn { pid, kind, cmd, argv, env, err } => {
                    let g = |k: &str| env.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
                    self.spawns.push(SpawnR {
                        pid: *pid,
                        kind: kind.clone(),
                        cmd: cmd.clone(),
                        acct: g("PIZAUTH_ACCOUNT"),
                        event: g("PIZAUTH_EVENT"),
                        url: g("PIZAUTH_URL"),
                        msg: g("PIZAUTH_MSG"),
                        env: env.clone(),
                        argv: argv.clone(),
                        err: *err,
                        q,
                        t,
                        end: None,
                        killed: None,
                        code: 0,
                        sig: 0,
                        phase,
                    });
                }
                E::ProcEnd { pid, code, sig, .. } => {
                    if let Some(s) = self.spawns.iter_mut().rev().find(|s| s.pid == *pid && s.phase == phase) {
                        s.end = Some(at);
                        s.code = *code;
                        s.sig = *sig;
                    }
                }
                E::Killed { pid, .. } => {
                    if let Some(s) = self.spawns.iter_mut().rev().find(|s| s.pid == *pid && s.phase == phase) {
                        s.killed = Some(at);
                    }
                }
                E::ConfRead { idx, err } => {
                    reads.push((q, *idx, *err));
                    if self.uses.last().map_or(true, |u| u.phase != phase) && *err == 0 {
                        self.uses.push(ConfUse { idx: *idx, q0: q, q1: q, t0: t, t1: t, phase });
                    }
                }
                E::Suspend { dur } => self.suspends.push((q, t, *dur)),
                E::Wall { delta } => {
                    wall_off = wall_off.saturating_add(*delta);
                    self.walls.push((t, wall_off));
                }
                E::DumpStored { label, data } => {
                    self.dumps.insert(label.clone(), (q, t, data.bytes(&none)));
                }
                E::Exit { code, sig, abort } => self.exits.push((q, t, phase, *code, *sig, *abort)),
                E::End { why } => self.ends.push((q, t, why.clone())),
                _ => (),
            }
        }
        // suspends move the wall clock and the boot clock alike, so offsets stay valid; fix process
        // dump operations' commands
        let procs: Vec<(u32, String)> = self
            .ops
            .values()
            .filter(|o| o.by_proc)
            .map(|o| (o.id, String::new()))
            .collect();
        for (id, _) in procs {
            let o = self.ops.get_mut(&id).unwrap();
            if !o.data.starts_with(b"ok:") && !o.data.starts_with(b"error:") {
                o.kind = OpKind::Cli { cmd: Cmd::Dump(format!("proc{id}")), conn: Default::default() };
            }
        }
        // configuration switches
        for id in self.cli.clone() {
            let o = &self.ops[&id];
            if let Some(Cmd::Reload) = o.cmd() {
                let Some(a) = o.acc else { continue };
                let r = o.rep.unwrap_or((Q::MAX, T::MAX));
                let over = self.starts.iter().map(|x| x.0).find(|x| *x > a.0).unwrap_or(Q::MAX).min(r.0);
                // The reply takes its time to get to the client, and by then others may be served.
                let end = accepts.iter().copied().find(|x| *x > a.0).unwrap_or(Q::MAX).min(over);
                let within = |end: Q| reads.iter().filter(|x| x.0 > a.0 && x.0 < end).last().copied();
                let Some(x) = within(end).or_else(|| within(over)) else { continue };
                let (id, ok) = (o.id, o.answered() && o.data == b"ok:" && x.2 == 0);
                if ok {
                    self.uses.push(ConfUse { idx: x.1, q0: x.0, q1: r.0, t0: a.1, t1: r.1, phase: o.phase });
                }
                self.reload_read.insert(id, x);
            }
        }
        self.uses.sort_by_key(|u| u.q0);
    }

    /// A limit for something that takes running time (not time spent suspended), begun at `from`.
    pub fn run_lim(&self, from: T, mut lim: T) -> T {
        for (_, t, dur) in &self.suspends {
            if t.saturating_add(self.slack) >= from && *t <= lim {
                lim = lim.saturating_add(*dur).saturating_add(self.slack);
            }
        }
        lim
    }
    /// When something that takes running time and is seen at `t` may have begun at the earliest.
    pub fn run_from(&self, t: T) -> T {
        let mut lo = t.saturating_sub(self.slack);
        for (_, a, dur) in self.suspends.iter().rev() {
            if a.saturating_add(*dur).saturating_add(self.slack) >= lo && *a <= t {
                lo = lo.min(a.saturating_sub(self.slack));
            }
        }
        lo
    }
    /// A limit for something that is due at a time which comes closer during suspends.
    pub fn boot_lim(&self, from: T, mut lim: T) -> T {
        for (_, t, dur) in &self.suspends {
            if t.saturating_add(self.slack) >= from && *t <= lim {
                lim = lim.max(t + dur + 37 * SEC + self.slack);
            }
        }
        lim
    }
    /// When something that takes a thread no waiting has been done at the latest: less slack than for
    /// whole conversations.
    pub fn soon(&self, from: T) -> T {
        self.run_lim(from, from.saturating_add(self.slack - BASE_SLACK + 250 * MS))
    }
    /// from + d + slack, extended by suspends
    pub fn by(&self, from: T, d: T) -> T {
        self.run_lim(from, from.saturating_add(d).saturating_add(self.slack))
    }

    pub fn wall_at(&self, t: T) -> i64 {
        // offset in force at world time t
        let mut off = self.walls.first().map_or(0, |x| x.1);
        for (a, o) in &self.walls {
            if *a <= t {
                off = *o;
            }
        }
        (t as i64).saturating_add(off)
    }
    /// all wall clock values the server may have seen within [a, b], as (min, max) of wall - t
    pub fn wall_offs(&self, a: T, b: T) -> (i64, i64) {
        let mut lo = self.wall_at(a).saturating_sub(a as i64);
        let mut hi = lo;
        for (x, o) in &self.walls {
            if *x >= a && *x <= b {
                lo = lo.min(*o);
                hi = hi.max(*o);
            }
        }
        (lo, hi)
    }

    pub fn spec(&self, idx: usize) -> Option<&ConfSpec> {
        self.confs.get(idx).and_then(|x| x.as_ref())
    }

    /// configuration surely in force at q (None while a switch may be under way)
    pub fn conf_at(&self, q: Q) -> Option<&ConfSpec> {
        let mut cur = None;
        for u in &self.uses {
            if u.q0 <= q {
                cur = if u.q1 <= q { Some(u.idx) } else { None };
            }
        }
        cur.and_then(|i| self.spec(i))
    }
    /// all configurations possibly in force within [q0, q1]
    pub fn confs_in(&self, q0: Q, q1: Q) -> Vec<&ConfSpec> {
        let mut v = vec![];
        for (i, u) in self.uses.iter().enumerate() {
            let until = self.uses.get(i + 1).map_or(Q::MAX, |n| n.q1);
            if u.q0 <= q1 && until >= q0 {
                if let Some(s) = self.spec(u.idx) {
                    v.push(s);
                }
            }
        }
        v
    }

    /// What the reply means, as far as it can be told from outside.
    pub fn class(&self, req: &ReqR) -> Class {
        let rep = match req.rep {
            Some(i) => &self.reps[i],
            None => return Class::Trans,
        };
        if !rep.kind.ends_with("-late") {
            match rep.plan.net {
                ReplyNet::CutHead(..) | ReplyNet::CutBody(..) if rep.plan.line.is_some() => return Class::Any,
                ReplyNet::CutHead(..) => return Class::Trans,
                // a refresh is tried again, a code may not be used twice; the end of a connection
                // also ends a body of unknown length (and ureq takes it for that of a chunked one)
                ReplyNet::CutBody(_, e) if req.is_refresh() && rep.kind != "raw" && (e != ConnEnd::Eof || rep.plan.frame == Frame::Len) => return if rep.status < 300 { Class::Trans } else { Class::Any },
                _ => (),
            }
        }
        // what is no HTTP refuses a refresh; an exchange is tried again
        if rep.plan.line.is_some() && !rep.kind.ends_with("-late") && rep.plan.net == ReplyNet::Ok {
            let c = class_of(&RepR { plan: Reply { line: None, status: 500, ..rep.plan.clone() }, status: 500, ..rep.clone() });
            return if c != Class::Perm { c } else if req.is_refresh() { Class::Perm } else { Class::Trans };
        }
        let c = class_of(rep);
        // an expiry that cannot be represented, nor can the time it is replaced by
        if c == Class::Token && rep.expires.map_or(false, |x| x >= i64::MAX as u64) {
            let far: Vec<bool> = self
                .uses
                .iter()
                .filter(|u| u.phase == req.phase)
                .filter_map(|u| self.spec(u.idx))
                .filter_map(|c| c.acct(&req.acct).map(|a| c.at_least(a) >= i64::MAX as u64))
                .collect();
            if far.contains(&true) {
                return if far.contains(&false) { Class::Any } else { Class::Perm };
            }
        }
        c
    }

    /// the redirect operation whose code this token request carries
    pub fn op_of_code(&self, code: &str) -> Option<&OpR> {
        self.ops.values().find(|o| o.code.as_deref() == Some(code))
    }

    pub fn url_of_code(&self, code: &str) -> Option<usize> {
        self.codes.get(code).and_then(|c| self.url_ix.get(&c.url)).copied()
    }

    /// token text -> request that obtained it
    pub fn req_of_at(&self, at: &str) -> Option<usize> {
        self.reqs.iter().position(|r| r.rep.map_or(false, |i| self.reps[i].at.as_deref() == Some(at)))
    }
    pub fn req_of_rt(&self, rt: &str) -> Option<usize> {
        self.rt_ix.get(rt).copied()
    }
    /// The authorisation URL a token request goes back to (through chains of refreshes).
    pub fn root_url(&self, i: usize) -> Option<usize> {
        self.roots[i]
    }
    pub fn last_t(&self) -> T {
        self.evs.last().map_or(0, |e| e.t)
    }
}

pub fn class_of(rep: &RepR) -> Class {
    let p = &rep.plan;
    if rep.kind.ends_with("-late") || p.line.is_some() {
        return Class::Any;
    }
    match p.net {
        ReplyNet::Hang | ReplyNet::Reset | ReplyNet::Eof => return Class::Trans,
        ReplyNet::Cut(..) | ReplyNet::CutHead(..) | ReplyNet::CutBody(..) => return Class::Any,
        ReplyNet::Ok => (),
    }
    // slow replies may run into the client's timeout
    let total = p.delay + if p.chunk > 0 { p.gap.saturating_mul(2000 / p.chunk as u64 + 2) } else { 0 };
    if total > 25 * SEC {
        return Class::Any;
    }
    if rep.status >= 400 {
        return Class::Perm;
    }
    if rep.status != 200 {
        return Class::Any;
    }
    if rep.kind != "token" {
        return match &p.body {
            Body::OauthErr(_) => Class::Perm,
            Body::Raw(Blob::S(s)) => {
                let bad = match serde_json::from_str::<serde_json::Value>(s) {
                    Err(_) => true,
                    Ok(v) => !(v["access_token"].is_string() && v["expires_in"].is_u64() && v["token_type"] == "Bearer") || v["error"].is_string(),
                };
                if bad {
                    Class::Perm
                } else {
                    Class::Any
                }
            }
            Body::Raw(Blob::Empty) => Class::Perm,
            _ => Class::Any,
        };
    }
    match &p.body {
        Body::Token { expires: Jv::N(_), ttype: Jv::S(x), access: true, .. } if x == "Bearer" => Class::Token,
        Body::Token { expires: Jv::N(_), ttype: Jv::S(x), access: true, .. } if x.eq_ignore_ascii_case("bearer") => Class::Any,
        _ => Class::Perm,
    }
}

// ---------------------------------------------------------------------------------------------
// dumps
// ---------------------------------------------------------------------------------------------

#[derive(serde::Deserialize, serde::Serialize, Clone, Debug, PartialEq)]
pub struct AcctDump {
    pub auth_uri: String,
    pub auth_uri_fields: Vec<(String, String)>,
    pub client_id: String,
    pub client_secret: Option<String>,
    pub redirect_uri: String,
    pub scopes: Vec<String>,
    pub token_uri: String,
}
#[derive(serde::Deserialize, serde::Serialize, Clone, Debug, PartialEq)]
pub enum TokDump {
    Empty,
    Active {
        at: String,
        obtained: std::time::SystemTime,
        expiry: std::time::SystemTime,
        rt: Option<String>,
    },
}
#[derive(serde::Deserialize, serde::Serialize, Clone, Debug, PartialEq)]
pub struct DumpBody {
    pub version: u64,
    pub accounts: HashMap<String, (AcctDump, TokDump)>,
}

pub const KEY: &[u8; 32] = b"\x66\xa2\x47\xa8\x5e\x48\xcf\xec\xaa\xed\x9b\x36\xeb\xa9\x7d\x53\x50\xd4\x28\x63\x75\x09\x7a\x44\xee\xff\xb9\xc4\x54\x6b\x65\xa3";

pub fn decode_dump(d: &[u8]) -> Option<DumpBody> {
    use chacha20poly1305::aead::{Aead, KeyInit};
    if d.len() < 12 {
        return None;
    }
    let c = chacha20poly1305::ChaCha20Poly1305::new(chacha20poly1305::Key::from_slice(KEY));
    let p = c.decrypt(chacha20poly1305::Nonce::from_slice(&d[..12]), &d[12..]).ok()?;
    let b: DumpBody = bincode::deserialize(&p).ok()?;
    (b.version == 1).then_some(b)
}

pub fn encode_dump(b: &DumpBody) -> Vec<u8> {
    use chacha20poly1305::aead::{Aead, KeyInit};
    let c = chacha20poly1305::ChaCha20Poly1305::new(chacha20poly1305::Key::from_slice(KEY));
    let n = [7u8; 12];
    let mut v = n.to_vec();
    v.extend(c.encrypt(chacha20poly1305::Nonce::from_slice(&n), &*bincode::serialize(b).unwrap()).unwrap());
    v
}

/// ns since the epoch
pub fn sys_ns(s: std::time::SystemTime) -> i64 {
    match s.duration_since(std::time::UNIX_EPOCH) {
        Ok(d) => d.as_nanos().min(i64::MAX as u128) as i64,
        Err(e) => -(e.duration().as_nanos().min(i64::MAX as u128) as i64),
    }
}

impl AcctDump {
    pub fn matches(&self, a: &AcctSpec) -> bool {
        self.auth_uri == a.auth_uri
            && self.auth_uri_fields == a.all_fields()
            && self.client_id == a.client_id
            && self.client_secret == a.secret
            && self.redirect_uri == a.redir()
            && self.scopes == a.scopes.clone().unwrap_or_default()
            && self.token_uri == a.token_uri
    }
    pub fn of(a: &AcctSpec) -> AcctDump {
        AcctDump {
            auth_uri: a.auth_uri.clone(),
            auth_uri_fields: a.all_fields(),
            client_id: a.client_id.clone(),
            client_secret: a.secret.clone(),
            redirect_uri: a.redir(),
            scopes: a.scopes.clone().unwrap_or_default(),
            token_uri: a.token_uri.clone(),
        }
    }
}
