//! A small executable reference model of one account, run as a set of possible states over the
//! recorded history (server-internal steps may happen anywhere inside their windows).
//! An observation no state can explain is a violation.
use crate::hist::*;
use crate::spec::*;
use crate::Viol;
use model::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cur {
    Absent,
    Empty,
    Pend { url: Option<u32>, born: Q },
    Act(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    pub at: String,
    pub rt: Option<String>,
    pub ob: (T, T),
    pub ex: (T, T),
    /// the same for tokens restored from a dump, which may have been obtained before this simulation
    pub raw: Option<((i64, i64), (i64, i64))>,
}
impl Ver {
    fn ob_i(&self) -> (i64, i64) {
        self.raw.map_or((self.ob.0.min(i64::MAX as u64) as i64, self.ob.1.min(i64::MAX as u64) as i64), |r| r.0)
    }
    fn ex_i(&self) -> (i64, i64) {
        self.raw.map_or((self.ex.0.min(i64::MAX as u64) as i64, self.ex.1.min(i64::MAX as u64) as i64), |r| r.1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ev3 {
    New,
    Refreshed,
    Invalidated,
    Revoked,
}
impl Ev3 {
    pub fn parse(s: &str) -> Option<Ev3> {
        Some(match s {
            "token_new" => Ev3::New,
            "token_refreshed" => Ev3::Refreshed,
            "token_invalidated" => Ev3::Invalidated,
            "token_revoked" => Ev3::Revoked,
            _ => return None,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Fl {
    /// redirect .0 carrying a code for authorisation URL .1 that has not been looked at yet
    Br(u32, u32),
    /// code exchange of browser operation .0 for authorisation URL .1
    Ex(u32, u32),
    /// error redirect
    Er(u32, u32),
    /// refresh: try index, base identity, base version
    Rf(u32, u32, u32),
    /// transient_error_if_cmd: spawn index, base identity
    Tc(u32, u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct St {
    cur: Cur,
    ident: u32,
    conf: usize,
    /// open operations already applied
    done: Vec<u32>,
    fl: Vec<Fl>,
    evq: Vec<(Ev3, T)>,
    errq: Vec<T>,
    /// identities of active states that ended lately
    recent: Vec<(u32, u32, T)>,
    poke: bool,
}

pub struct Opts {
    pub events: bool,
    pub errors: bool,
}

pub struct Model<'h, 'a> {
    h: &'h H<'a>,
    acct: String,
    vers: Vec<Ver>,
    states: BTreeSet<St>,
    open: Vec<u32>,
    o: Opts,
    /// positions at which a global operation may have taken effect, by event number
    pub feasible: HashMap<u32, BTreeSet<Q>>,
    kinds: HashMap<u32, TryKind>,
    /// exchange attempts of each redirect
    ex_tries: HashMap<u32, Vec<usize>>,
    starved: Option<(&'static str, String, BTreeSet<St>)>,
    give_up: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TryKind {
    Refresh,
    Exch(u32),
    Unknown,
}

const CAP: usize = 4000;

/// Is this redirect one that must be taken for genuine (as long as its URL is outstanding)?
pub fn genuine(h: &H, muts: &[UrlMut]) -> Option<bool> {
    let mut r = Some(true);
    // changes that may undo each other
    let has = |x: &UrlMut| muts.iter().filter(|m| *m == x).count();
    let undone = (has(&UrlMut::NoHost) > 0 && has(&UrlMut::DupHost) > 0)
        || muts.iter().filter(|m| matches!(m, UrlMut::FlipState | UrlMut::EditState(_))).count() > 1
        || muts.iter().filter(|m| matches!(m, UrlMut::PortDelta(_))).count() > 1
        || muts.iter().filter(|m| matches!(m, UrlMut::Host(_))).count() > 1;
    if undone {
        return None;
    }
    for m in muts {
        match m {
            UrlMut::ExtraHeader(_) | UrlMut::HttpVer(_) | UrlMut::Path(_) | UrlMut::ExtraQuery(_) | UrlMut::LowerHost => {
                if r == Some(true) {
                    r = None
                }
            }
            // another spelling of a host that redirect URIs name
            UrlMut::Host(x) => {
                let x = x.rsplit('@').next().unwrap_or("").to_ascii_lowercase();
                let named = h.confs.iter().flatten().flat_map(|c| &c.accts).any(|a| {
                    let u = a.redirect.as_deref().unwrap_or("http://localhost/");
                    url::Url::parse(u).ok().and_then(|u| u.host_str().map(|y| y == x)).unwrap_or(false)
                });
                if !named {
                    return Some(false);
                }
                if r == Some(true) {
                    r = None
                }
            }
            _ => return Some(false),
        }
    }
    r
}

/// What each connection attempt to a provider was for.
pub fn try_kinds(h: &H) -> HashMap<u32, TryKind> {
    let mut m = HashMap::new();
    let mut by_task: HashMap<(usize, u32), TryKind> = HashMap::new();
    for t in &h.tries {
        if let Some(r) = t.req {
            let r = &h.reqs[r];
            let k = if r.is_refresh() {
                TryKind::Refresh
            } else {
                match r.get("code").and_then(|c| h.op_of_code(c)) {
                    Some(o) => TryKind::Exch(o.id),
                    None => TryKind::Unknown,
                }
            };
            by_task.insert((t.phase, t.task), k);
            m.insert(t.tr, k);
        }
    }
    for t in &h.tries {
        if t.req.is_some() {
            continue;
        }
        let k = if let Some(k) = by_task.get(&(t.phase, t.task)) {
            *k
        } else if let Some(op) = t.br {
            match h.ops.get(&op) {
                Some(o) if o.code.is_some() => TryKind::Exch(op),
                _ => TryKind::Unknown,
            }
        } else {
            let open = h.ops.values().any(|o| {
                o.code.is_some()
                    && o.sent.map_or(false, |s| s.0 < t.q)
                    && !h.tries.iter().any(|x| x.q < t.q && (x.br == Some(o.id) || m.get(&x.tr) == Some(&TryKind::Exch(o.id))))
            });
            if open {
                TryKind::Unknown
            } else {
                TryKind::Refresh
            }
        };
        m.insert(t.tr, k);
    }
    m
}

impl<'h, 'a> Model<'h, 'a> {
    pub fn new(h: &'h H<'a>, acct: &str) -> Model<'h, 'a> {
        let used: Vec<&ConfSpec> = h.confs.iter().flatten().collect();
        let o = Opts { events: used.iter().all(|c| c.event.is_some()), errors: used.iter().all(|c| c.error.is_some()) };
        let kinds = try_kinds(h);
        let mut ex_tries: HashMap<u32, Vec<usize>> = HashMap::new();
        for (i, t) in h.tries.iter().enumerate() {
            if let Some(TryKind::Exch(op)) = kinds.get(&t.tr) {
                ex_tries.entry(*op).or_default().push(i);
            }
        }
        Model {
            h,
            acct: acct.into(),
            vers: vec![],
            states: BTreeSet::new(),
            open: vec![],
            o,
            feasible: HashMap::new(),
            kinds,
            ex_tries,
            starved: None,
            give_up: false,
        }
    }

    fn ver(&mut self, v: Ver) -> u32 {
        match self.vers.iter().position(|x| *x == v) {
            Some(i) => i as u32,
            None => {
                self.vers.push(v);
                self.vers.len() as u32 - 1
            }
        }
    }

    fn spec(&self, s: &St) -> Option<&AcctSpec> {
        self.h.spec(s.conf).and_then(|c| c.acct(&self.acct))
    }

    /// replace the current state, remembering an active one that ends
    fn set(&self, s: &mut St, c: Cur, t: T) {
        if let Cur::Act(v) = s.cur {
            s.recent.push((s.ident, v, t));
        }
        s.recent.retain(|r| self.h.by(r.2, 2 * SEC) >= t);
        s.ident += 1;
        s.cur = c;
        s.poke = false;
    }

    fn event(&self, s: &mut St, e: Ev3, t: T) {
        if self.o.events {
            s.evq.push((e, t));
        }
    }

    fn url_fits(&self, c: &Cur, u: u32) -> bool {
        match c {
            Cur::Pend { url: Some(x), .. } => *x == u,
            Cur::Pend { url: None, born } => {
                self.h.urls[u as usize].q > *born && self.h.urls[u as usize].acct == self.acct
            }
            _ => false,
        }
    }

    /// may that URL nevertheless be another request's? The URL of a request that was answered without
    /// one is only known from elsewhere, and a request handled at the same time has a URL of its own
    /// that may be seen (or stay unseen) in the same span.
    fn url_doubt(&self, c: &Cur) -> bool {
        let born = match c {
            Cur::Pend { url: None, born } => *born,
            _ => return false,
        };
        let mine = |o: &&OpR| matches!(o.cmd(), Some(Cmd::Show(a, _)) | Some(Cmd::Refresh(a, _)) if *a == self.acct);
        let span = |o: &OpR| (o.acc.map_or(T::MAX, |a| a.1), if o.answered() { self.h.soon(o.rep.unwrap().1) } else { T::MAX });
        let x = match self.h.ops.values().find(|o| o.acc.map_or(false, |a| a.0 == born)) {
            Some(x) => x,
            None => return false,
        };
        let (a, b) = span(x);
        self.h.ops.values().filter(mine).filter(|y| y.id != x.id).any(|y| {
            let (c, d) = span(y);
            c != T::MAX && c <= b && a <= d
        })
    }

    /// the exchange's outcome as known at q: (may succeed with request, may fail, deadline)
    fn exch(&self, op: u32, q: Q) -> (Option<usize>, bool, T) {
        let h = self.h;
        let mut fail = false;
        let mut win = None;
        let mut dl = T::MAX;
        let mut tries = 0;
        let mut first = None;
        // a torn answer either ends the exchange or leads to another attempt
        let mut torn = T::MAX;
        let none = vec![];
        for t in self.ex_tries.get(&op).unwrap_or(&none).iter().map(|i| &h.tries[*i]) {
            if t.q > q {
                break;
            }
            first = first.or(Some(t.t));
            tries += 1;
            torn = T::MAX;
            if let Some(r) = t.req {
                let r = &h.reqs[r];
                if let Some(rep) = r.rep {
                    if h.reps[rep].q <= q {
                        match h.class(r) {
                            Class::Token => {
                                win = Some(t.req.unwrap());
                                if let Some(d) = r.done {
                                    dl = dl.min(h.by(d.1, 0));
                                }
                            }
                            Class::Perm => {
                                fail = true;
                                if let Some(d) = r.done {
                                    dl = dl.min(h.by(d.1, 0));
                                }
                            }
                            Class::Trans => fail = true,
                            Class::Any => {
                                fail = true;
                                if let (ReplyNet::CutBody(..), Some(d)) = (h.reps[rep].plan.net, r.done) {
                                    torn = h.by(d.1, 45 * SEC);
                                }
                                if h.reps[rep].at.is_some() && !matches!(h.reps[rep].plan.net, ReplyNet::CutBody(..)) {
                                    win = Some(t.req.unwrap());
                                }
                            }
                        }
                    }
                }
            }
        }
        if tries >= 8 {
            fail = true;
        }
        dl = dl.min(torn);
        match first {
            Some(f) => dl = dl.min(h.by(f, 420 * SEC)),
            None => dl = self.br_deadline(op),
        }
        (win, fail, dl)
    }

    /// when a redirect must have been acted upon
    fn br_deadline(&self, op: u32) -> T {
        let o = &self.h.ops[&op];
        match (o.sent, o.rep) {
            (Some(a), Some(b)) if o.acc.is_some() => self.h.by(a.1.max(b.1).max(o.acc.unwrap().1), 0),
            _ => T::MAX,
        }
    }

    /// must this redirect be taken for genuine?
    fn genuine_op(&self, op: u32) -> Option<bool> {
        let o = &self.h.ops[&op];
        let g = match &o.kind {
            OpKind::Browser { muts, .. } => genuine(self.h, muts),
            _ => Some(false),
        };
        if g == Some(true) && (!o.whole() || o.sent.is_none()) {
            return None;
        }
        g
    }

    fn refr(&self, tri: u32, q: Q) -> (Class, Option<usize>, T, bool) {
        // class, request, deadline, decided
        let h = self.h;
        let t = &h.tries[tri as usize];
        if let Some(r) = t.req {
            let rq = &h.reqs[r];
            if let Some(rep) = rq.rep {
                if h.reps[rep].q <= q {
                    let c = h.class(rq);
                    // (the rest of a torn answer may be waited for until the time-out)
                    let torn = matches!(h.reps[rep].plan.net, ReplyNet::CutHead(..) | ReplyNet::CutBody(..));
                    let dl = rq.done.map_or(T::MAX, |d| h.by(d.1, if torn && c == Class::Any { 45 * SEC } else { 0 }));
                    return (c, Some(r), dl, true);
                }
            }
            return (Class::Trans, Some(r), h.by(t.t, 40 * SEC), false);
        }
        (Class::Trans, None, h.by(t.t, 40 * SEC), false)
    }

    fn token_ver(&mut self, r: usize, old_rt: Option<String>, refresh: bool) -> Option<u32> {
        let h = self.h;
        let rq = &h.reqs[r];
        let rep = &h.reps[rq.rep?];
        let at = rep.at.clone()?;
        let rt = match &rep.plan.body {
            Body::Token { refresh: m, .. } => match m {
                RtMode::New | RtMode::Same => rep.rt.clone(),
                RtMode::Absent => {
                    if refresh {
                        old_rt
                    } else {
                        None
                    }
                }
                RtMode::Null | RtMode::Number => None,
            },
            _ => None,
        };
        let e = rep.expires?;
        let ob = (rep.t, rq.done.map_or(h.by(rep.t, 35 * SEC), |d| h.soon(d.1)));
        let ob = (ob.0, h.shown.get(&at).map_or(ob.1, |t| ob.1.min(*t).max(ob.0)));
        let ex = match e.checked_mul(SEC) {
            Some(n) if n < (1 << 62) => (ob.0 + n, ob.1 + n),
            _ => (ob.0 + SEC, T::MAX),
        };
        Some(self.ver(Ver { at, rt, ob, ex, raw: None }))
    }

    fn refresh_due(&self, s: &St, v: &Ver) -> T {
        let c = match self.h.spec(s.conf) {
            Some(c) => c,
            None => return 0,
        };
        let a = match c.acct(&self.acct) {
            Some(a) => a,
            None => return 0,
        };
        let b = c.before(a).saturating_mul(SEC);
        let al = c.at_least(a).saturating_mul(SEC);
        v.ex.0.saturating_sub(b).min(v.ob.0.saturating_add(al))
    }

    /// all states reachable by one hidden step
    fn step(&mut self, s: &St, q: Q, t: T, out: &mut Vec<St>) {
        // open operations
        for i in 0..self.open.len() {
            let op = self.open[i];
            if !s.done.contains(&op) {
                let n = out.len();
                self.apply(s, op, t, out);
                if out.len() > n {
                    self.feasible.entry(op).or_default().insert(q);
                }
                for x in &mut out[n..] {
                    x.done.push(op);
                    x.done.sort();
                }
            }
        }
        // things in flight
        for i in 0..s.fl.len() {
            let f = s.fl[i];
            let mut base = s.clone();
            base.fl.remove(i);
            match f {
                Fl::Br(op, u) => {
                    let g = self.genuine_op(op);
                    let fits = self.url_fits(&s.cur, u);
                    if fits && g != Some(false) {
                        let mut n = base.clone();
                        n.fl.push(Fl::Ex(op, u));
                        n.fl.sort();
                        out.push(n);
                    }
                    if !fits || g != Some(true) || self.url_doubt(&s.cur) {
                        out.push(base.clone());
                    }
                }
                Fl::Ex(op, u) => {
                    let (win, fail, _) = self.exch(op, q);
                    let fits = self.url_fits(&s.cur, u);
                    if fits && (win.is_some() || fail) && self.url_doubt(&s.cur) {
                        out.push(base.clone());
                    }
                    if let Some(r) = win {
                        let mut n = base.clone();
                        if fits {
                            if let Some(v) = self.token_ver(r, None, false) {
                                self.set(&mut n, Cur::Act(v), t);
                                self.event(&mut n, Ev3::New, t);
                            }
                        }
                        out.push(n);
                    }
                    if fail {
                        let mut n = base.clone();
                        if fits {
                            self.set(&mut n, Cur::Empty, t);
                            if self.o.errors {
                                n.errq.push(t);
                            }
                        }
                        out.push(n);
                    }
                }
                Fl::Er(op, u) => {
                    let g = self.genuine_op(op);
                    if g != Some(true) || !self.url_fits(&s.cur, u) || self.url_doubt(&s.cur) {
                        out.push(base.clone());
                    }
                    if self.url_fits(&s.cur, u) && g != Some(false) {
                        let mut n = base.clone();
                        self.set(&mut n, Cur::Empty, t);
                        if self.o.errors {
                            n.errq.push(t);
                        }
                        out.push(n);
                    }
                }
                Fl::Rf(tri, ident, v) => {
                    let (c, r, _, decided) = self.refr(tri, q);
                    let live = s.ident == ident;
                    if !decided || c == Class::Trans || c == Class::Any || !live {
                        out.push(base.clone());
                    }
                    if decided && live {
                        if c == Class::Token || c == Class::Any {
                            let old = self.vers[v as usize].rt.clone();
                            if let Some(nv) = self.token_ver(r.unwrap(), old, true) {
                                let mut n = base.clone();
                                self.set(&mut n, Cur::Act(nv), t);
                                self.event(&mut n, Ev3::Refreshed, t);
                                out.push(n);
                            }
                        }
                        if c == Class::Perm || c == Class::Any {
                            let mut n = base.clone();
                            self.set(&mut n, Cur::Empty, t);
                            self.event(&mut n, Ev3::Invalidated, t);
                            out.push(n);
                        }
                    }
                }
                Fl::Tc(sp, ident) => {
                    let p = &self.h.spawns[sp as usize];
                    let ended = p.err != 0 || p.end.map_or(false, |e| e.0 <= q);
                    if ended {
                        let bad = p.err != 0 || p.code != 0 || p.sig != 0;
                        if s.ident == ident && bad {
                            let mut n = base.clone();
                            self.set(&mut n, Cur::Empty, t);
                            self.event(&mut n, Ev3::Invalidated, t);
                            out.push(n);
                        } else {
                            out.push(base.clone());
                        }
                    }
                }
            }
        }
        // a token without refresh token is dropped instead of refreshed
        if let Cur::Act(v) = s.cur {
            let ver = self.vers[v as usize].clone();
            if ver.rt.is_none() && (s.poke || t + self.h.slack >= self.refresh_due(s, &ver)) {
                let mut n = s.clone();
                self.set(&mut n, Cur::Empty, t);
                self.event(&mut n, Ev3::Invalidated, t);
                out.push(n);
            }
        }
    }

    fn close(&mut self, q: Q, t: T) {
        let mut todo: Vec<St> = self.states.iter().cloned().collect();
        while let Some(s) = todo.pop() {
            let mut out = vec![];
            self.step(&s, q, t, &mut out);
            for n in out {
                if self.states.len() > CAP {
                    self.give_up = true;
                    return;
                }
                if self.states.insert(n.clone()) {
                    todo.push(n);
                }
            }
        }
        // deadlines
        let mut keep = BTreeSet::new();
        let mut late = None;
        for s in &self.states {
            let mut ok = true;
            for f in &s.fl {
                let dl = match f {
                    Fl::Br(op, _) => self.br_deadline(*op),
                    Fl::Ex(op, _) => self.exch(*op, q).2,
                    Fl::Er(op, _) => self.br_deadline(*op),
                    Fl::Rf(k, ..) => self.refr(*k, q).2,
                    Fl::Tc(sp, _) => {
                        let p = &self.h.spawns[*sp as usize];
                        if p.err != 0 {
                            self.h.by(p.t, 0)
                        } else {
                            p.end.map_or(T::MAX, |e| self.h.by(e.1, 0))
                        }
                    }
                };
                if dl < t {
                    ok = false;
                    late = Some(*f);
                }
            }
            if ok {
                keep.insert(s.clone());
            }
        }
        if keep.is_empty() && !self.states.is_empty() {
            let (k, w) = match late {
                Some(Fl::Br(op, _)) | Some(Fl::Ex(op, _)) => {
                    ("exchange-missing", format!("redirect {op} for the outstanding request was not followed by a code exchange"))
                }
                Some(Fl::Er(op, _)) => ("error-ignored", format!("error redirect {op} was not acted upon")),
                f => ("overdue", format!("{f:?} had no effect in time")),
            };
            self.starved = Some((k, w, std::mem::take(&mut self.states)));
        }
        self.states = keep;
    }

    /// the account's line in a status reply
    fn status_line<'x>(&self, text: &'x str) -> Option<&'x str> {
        let p = format!("{}: ", self.acct);
        text.strip_prefix("ok:").and_then(|x| x.lines().find_map(|l| l.strip_prefix(&p)))
    }

    /// effect of an operation on a state, given what was answered
    fn apply(&mut self, s: &St, id: u32, t: T, out: &mut Vec<St>) {
        let h = self.h;
        let o = &h.ops[&id];
        let known = o.answered();
        let text = if known { o.text() } else { String::new() };
        let acc_t = o.acc.unwrap().1;
        let rep_t = if known { o.rep.unwrap().1 } else { T::MAX };
        let acc_q = o.acc.unwrap().0;
        let cmd = match o.cmd() {
            Some(c) => c.clone(),
            None => return,
        };
        let pend = |s: &St, me: &Self, fresh: bool, withurl: bool| -> Option<Cur> {
            // the pending state after a reply "pending:..."
            if !known || !withurl {
                return Some(if fresh {
                    Cur::Pend { url: None, born: acc_q }
                } else {
                    s.cur.clone()
                });
            }
            let u = text.strip_prefix("pending:")?;
            let ix = *h.url_ix.get(u)? as u32;
            if fresh {
                (h.urls[ix as usize].q > acc_q && h.urls[ix as usize].acct == me.acct).then_some(Cur::Pend { url: Some(ix), born: acc_q })
            } else {
                me.url_fits(&s.cur, ix).then(|| match s.cur {
                    Cur::Pend { born, .. } => Cur::Pend { url: Some(ix), born },
                    _ => unreachable!(),
                })
            }
        };
        match cmd {
            Cmd::Show(_, w) => match &s.cur {
                Cur::Absent => {
                    if !known || text.starts_with("error:No account") {
                        out.push(s.clone());
                    }
                }
                Cur::Empty => {
                    if !known || text.starts_with("pending:") {
                        if let Some(c) = pend(s, self, true, w) {
                            let mut n = s.clone();
                            self.set(&mut n, c, t);
                            out.push(n);
                        }
                    }
                }
                Cur::Pend { .. } => {
                    if !known || text.starts_with("pending:") {
                        if let Some(c) = pend(s, self, false, w) {
                            let mut n = s.clone();
                            n.cur = c;
                            out.push(n);
                        }
                    }
                }
                Cur::Act(v) => {
                    let v = &self.vers[*v as usize];
                    let mut n = s.clone();
                    if !known {
                        n.poke = true;
                        out.push(n);
                    } else if let Some(x) = text.strip_prefix("access_token:") {
                        if x == v.at && v.ex.1 > acc_t {
                            out.push(n);
                        }
                    } else if text.starts_with("error:Access token has expired") && v.ex.0 <= rep_t {
                        n.poke = true;
                        out.push(n);
                    }
                }
            },
            Cmd::Refresh(_, w) => match &s.cur {
                Cur::Absent => {
                    if !known || text.starts_with("error:No account") {
                        out.push(s.clone());
                    }
                }
                Cur::Empty | Cur::Pend { .. } => {
                    if !known || text.starts_with("pending:") {
                        if let Some(c) = pend(s, self, true, w) {
                            let mut n = s.clone();
                            self.set(&mut n, c, t);
                            out.push(n);
                        }
                    }
                }
                Cur::Act(_) => {
                    if !known || text == "scheduled:" {
                        let mut n = s.clone();
                        n.poke = true;
                        out.push(n);
                    }
                }
            },
            Cmd::Revoke(_) => match &s.cur {
                Cur::Absent => {
                    if !known || text.starts_with("error:No account") {
                        out.push(s.clone());
                    }
                }
                _ => {
                    if !known || text == "ok:" {
                        let mut n = s.clone();
                        self.set(&mut n, Cur::Empty, t);
                        self.event(&mut n, Ev3::Revoked, t);
                        out.push(n);
                    }
                }
            },
            Cmd::Reload => {
                if !known || text.starts_with("error:") {
                    out.push(s.clone());
                }
                if !known || text == "ok:" {
                    let u = h.reload_read.get(&o.id).filter(|u| u.2 == 0 && h.spec(u.1).is_some());
                    if let Some(u) = u {
                        let mut n = s.clone();
                        let old = self.spec(s).cloned();
                        let new = h.spec(u.1).and_then(|c| c.acct(&self.acct)).cloned();
                        n.conf = u.1;
                        match (old, new) {
                            (_, None) => {
                                if n.cur != Cur::Absent {
                                    self.set(&mut n, Cur::Absent, t)
                                }
                            }
                            (Some(a), Some(b)) if a.sec_eq(&b) => (),
                            (_, Some(_)) => self.set(&mut n, Cur::Empty, t),
                        }
                        out.push(n);
                    }
                }
            }
            Cmd::Restore(b) => {
                if !known || text.starts_with("error:") {
                    out.push(s.clone());
                }
                if !known || text == "ok:" {
                    let mut n = s.clone();
                    let bytes = b.bytes(&self.dumps_at(acc_q));
                    if let Some(d) = decode_dump(&bytes) {
                        if let (Some((ad, TokDump::Active { at, obtained, expiry, rt })), Some(sp)) =
                            (d.accounts.get(&self.acct), self.spec(s))
                        {
                            if ad.matches(sp) && matches!(s.cur, Cur::Empty | Cur::Pend { .. }) {
                                let offs = h.wall_offs(acc_t, rep_t.min(h.last_t()));
                                let conv = |x: std::time::SystemTime| {
                                    let ns = sys_ns(x);
                                    let lo = ns.saturating_sub(offs.1).saturating_sub(10 * MS as i64);
                                    let hi = ns.saturating_sub(offs.0).saturating_add(h.slack as i64);
                                    (lo, hi)
                                };
                                let cl = |x: (i64, i64)| (x.0.max(0) as u64, x.1.max(0) as u64);
                                let (ob, ex) = (conv(*obtained), conv(*expiry));
                                let v = Ver { at: at.clone(), rt: rt.clone(), ob: cl(ob), ex: cl(ex), raw: Some((ob, ex)) };
                                let v = self.ver(v);
                                self.set(&mut n, Cur::Act(v), t);
                            }
                        }
                    } else if !bytes.is_empty() {
                        // cannot be decoded here: anything might have been restored
                        if known {
                            self.give_up = true;
                        }
                    }
                    out.push(n);
                }
            }
            Cmd::Status => {
                if !known {
                    out.push(s.clone());
                    return;
                }
                let l = self.status_line(&text);
                let offs = h.wall_offs(acc_t, rep_t);
                let ok = match (&s.cur, l) {
                    (Cur::Absent, None) => true,
                    (Cur::Empty, Some(l)) => l == "No access token",
                    (Cur::Pend { .. }, Some(l)) => l.starts_with("Access token pending authentication"),
                    (Cur::Act(v), Some(l)) => {
                        let v = &self.vers[*v as usize];
                        if let Some(x) = l.strip_prefix("Active access token (obtained ") {
                            let mut it = x.trim_end_matches(')').split("; expires ");
                            let ob = it.next().unwrap_or("");
                            let ex = it.next().unwrap_or("");
                            v.ex.1 > acc_t && time_fits(ob, v.ob_i(), offs) && time_fits(ex, v.ex_i(), offs)
                        } else {
                            l.starts_with("Access token expired") && v.ex.0 <= rep_t
                        }
                    }
                    _ => false,
                };
                if ok {
                    out.push(s.clone());
                }
            }
            Cmd::Dump(_) => {
                if !known {
                    out.push(s.clone());
                    return;
                }
                if text.starts_with("error:") {
                    return;
                }
                let d = match decode_dump(&o.data) {
                    Some(d) => d,
                    None => {
                        self.give_up = true;
                        return;
                    }
                };
                let offs = h.wall_offs(acc_t, rep_t);
                let ok = match (&s.cur, d.accounts.get(&self.acct)) {
                    (Cur::Absent, None) => true,
                    (Cur::Empty | Cur::Pend { .. }, Some((ad, TokDump::Empty))) => {
                        self.spec(s).map_or(false, |sp| ad.matches(sp))
                    }
                    (Cur::Act(v), Some((ad, TokDump::Active { at, obtained, expiry, rt }))) => {
                        let v = &self.vers[*v as usize];
                        self.spec(s).map_or(false, |sp| ad.matches(sp))
                            && *at == v.at
                            && *rt == v.rt
                            && ns_fits(sys_ns(*obtained), v.ob_i(), offs)
                            && ns_fits(sys_ns(*expiry), v.ex_i(), offs)
                    }
                    _ => false,
                };
                if ok {
                    out.push(s.clone());
                } else if std::env::var_os("PZ_DBG").is_some() {
                    eprintln!("dump of {}: {:?} spec {:?} offs {offs:?}", self.acct, d.accounts.get(&self.acct), self.spec(s).map(AcctDump::of));
                }
            }
            Cmd::Info | Cmd::Shutdown | Cmd::Raw(_) => out.push(s.clone()),
        }
    }

    fn dumps_at(&self, q: Q) -> std::collections::BTreeMap<String, Vec<u8>> {
        let mut m = std::collections::BTreeMap::new();
        for e in self.h.evs {
            if e.q >= q {
                break;
            }
            if let E::DumpStored { label, data } = &e.e {
                m.insert(label.clone(), data.bytes(&Default::default()));
            }
        }
        m
    }

    fn relevant(&self, o: &OpR) -> bool {
        match o.cmd() {
            Some(Cmd::Show(a, _)) | Some(Cmd::Refresh(a, _)) | Some(Cmd::Revoke(a)) => *a == self.acct,
            Some(Cmd::Reload) | Some(Cmd::Restore(_)) | Some(Cmd::Status) | Some(Cmd::Dump(_)) => true,
            _ => false,
        }
    }

    /// Requests that are not sent whole have no effect at all.
    fn effective(&self, o: &OpR) -> bool {
        o.opts().map_or(true, |x| x.cut.is_none() && !matches!(x.end, Some(ConnEnd::Hang) | Some(ConnEnd::Reset)))
    }

    fn describe(&self, set: &BTreeSet<St>) -> String {
        let mut v: Vec<String> = set
            .iter()
            .map(|s| {
                let c = match &s.cur {
                    Cur::Act(v) => {
                        let v = &self.vers[*v as usize];
                        format!("Active({} rt={:?} obtained {:.3} expires {:.3})", v.at, v.rt, v.ob.0 as f64 / 1e9, v.ex.1 as f64 / 1e9)
                    }
                    Cur::Pend { url: Some(u), .. } => format!("Pending(state {})", self.h.urls[*u as usize].state),
                    c => format!("{c:?}"),
                };
                format!("{c} inflight={:?} events={:?}", s.fl, s.evq.iter().map(|x| x.0).collect::<Vec<_>>())
            })
            .collect();
        v.sort();
        v.dedup();
        v.truncate(4);
        v.join(" | ")
    }

    pub fn run(&mut self) -> Vec<Viol> {
        let h = self.h;
        let mut vs = vec![];
        let mut dead_until_phase = false;
        let spawn_ix: HashMap<Q, usize> = h.spawns.iter().enumerate().map(|(i, s)| (s.q, i)).collect();
        let try_ix: HashMap<Q, usize> = h.tries.iter().enumerate().map(|(i, s)| (s.q, i)).collect();
        let req_ix: HashMap<Q, usize> = h.reqs.iter().enumerate().map(|(i, s)| (s.q, i)).collect();
        for e in h.evs {
            let (q, t) = (e.q, e.t);
            if let E::Start { phase, .. } = &e.e {
                dead_until_phase = !matches!(h.case.phases[*phase].mode, Mode::Server { .. });
                self.states.clear();
                self.open.clear();
                if let Some(u) = h.uses.iter().find(|u| u.phase == *phase) {
                    let cur = if h.spec(u.idx).map_or(false, |c| c.acct(&self.acct).is_some()) { Cur::Empty } else { Cur::Absent };
                    self.states.insert(St {
                        cur,
                        ident: 0,
                        conf: u.idx,
                        done: vec![],
                        fl: vec![],
                        evq: vec![],
                        errq: vec![],
                        recent: vec![],
                        poke: false,
                    });
                } else {
                    dead_until_phase = true;
                }
                continue;
            }
            if dead_until_phase || self.give_up {
                continue;
            }
            let mut kind = "";
            let mut what = String::new();
            let mut before = BTreeSet::new();
            match &e.e {
                E::CliAccept { op } => {
                    let o = &h.ops[op];
                    if self.relevant(o) && self.effective(o) {
                        self.open.push(*op);
                    }
                }
                E::CliReply { op, .. } => {
                    if !self.open.contains(op) {
                        continue;
                    }
                    let o = &h.ops[op];
                    self.close(q, t);
                    before = self.states.clone();
                    if o.answered() {
                        self.states.retain(|s| s.done.contains(op));
                        let (k, w) = self.explain(o, &before);
                        kind = k;
                        what = w;
                        if !self.states.is_empty() {
                            self.open.retain(|x| x != op);
                            self.states = std::mem::take(&mut self.states)
                                .into_iter()
                                .map(|mut s| {
                                    s.done.retain(|x| x != op);
                                    s
                                })
                                .collect();
                        }
                    }
                    // an unanswered operation stays open: it may or may not take effect
                }
                E::BrConn { op, .. } => {
                    let o = &h.ops[op];
                    if let OpKind::Browser { what, acct, muts, .. } = &o.kind {
                        if *acct == self.acct && genuine(self.h, muts) != Some(false) {
                            if let Some(u) = self.target_url(o, q) {
                                match what {
                                    Redirect::Error(_) => self.add_fl(|_| vec![Fl::Er(*op, u)]),
                                    Redirect::NoCode => (),
                                    _ => self.add_fl(|_| vec![Fl::Br(*op, u)]),
                                }
                            }
                        }
                    }
                    continue;
                }
                E::Try { tr, host, .. } => {
                    let ti = try_ix[&q];
                    match self.kinds.get(tr).copied() {
                        Some(TryKind::Exch(op)) => {
                            let mine = matches!(&h.ops[&op].kind, OpKind::Browser { acct, .. } if *acct == self.acct);
                            if mine && self.ex_tries[&op][0] == ti {
                                self.close(q, t);
                                before = self.states.clone();
                                self.states.retain(|s| s.fl.iter().any(|f| matches!(f, Fl::Ex(x, _) if *x == op)));
                                kind = "exchange-unexpected";
                                what = format!("a code exchange was begun for redirect {op}");
                            }
                        }
                        Some(TryKind::Refresh) => {
                            // whose refresh? the account whose (possibly former) token_uri has that host
                            let mine = match h.tries[ti].req {
                                Some(r) => h.reqs[r].acct == self.acct,
                                None => {
                                    let all: BTreeSet<&str> = h
                                        .confs
                                        .iter()
                                        .flatten()
                                        .flat_map(|c| c.accts.iter())
                                        .filter(|a| a.tok_host() == *host)
                                        .map(|a| a.name.as_str())
                                        .collect();
                                    all.len() == 1 && all.contains(self.acct.as_str())
                                }
                            };
                            if mine {
                                self.close(q, t);
                                before = self.states.clone();
                                let mut ns = BTreeSet::new();
                                for s in &before {
                                    if let Cur::Act(v) = s.cur {
                                        if self.vers[v as usize].rt.is_some() {
                                            let mut n = s.clone();
                                            n.fl.push(Fl::Rf(ti as u32, s.ident, v));
                                            n.fl.sort();
                                            n.poke = false;
                                            ns.insert(n);
                                        }
                                    }
                                    for (id, v, until) in &s.recent {
                                        if h.by(*until, 0) >= t && self.vers[*v as usize].rt.is_some() {
                                            let mut n = s.clone();
                                            n.fl.push(Fl::Rf(ti as u32, *id, *v));
                                            n.fl.sort();
                                            ns.insert(n);
                                        }
                                    }
                                }
                                self.states = ns;
                                kind = "refresh-unexpected";
                                what = format!("a refresh was begun at {:.6} (try {tr})", t as f64 / 1e9);
                            }
                        }
                        _ => (),
                    }
                }
                E::TReq { acct, .. } => {
                    let r = &h.reqs[req_ix[&q]];
                    if *acct == self.acct && r.is_refresh() {
                        let ti = h.tries.iter().position(|t| t.tr == r.tr);
                        if let Some(ti) = ti {
                            before = self.states.clone();
                            let rt = r.get("refresh_token").map(|x| x.to_string());
                            let vers = &self.vers;
                            self.states.retain(|s| {
                                s.fl.iter().all(|f| match f {
                                    Fl::Rf(k, _, v) if *k == ti as u32 => vers[*v as usize].rt == rt,
                                    _ => true,
                                })
                            });
                            kind = "refresh-wrong-rt";
                            what = format!("refresh with {rt:?}");
                        }
                    }
                }
                E::Spawn { .. } => {
                    let i = spawn_ix[&q];
                    let p = &h.spawns[i];
                    if p.acct != self.acct {
                        continue;
                    }
                    match p.kind.as_bytes().get(..2) {
                        Some(b"N3") if self.o.events => {
                            self.close(q, t);
                            before = self.states.clone();
                            let ev = Ev3::parse(&p.event);
                            self.states = before
                                .iter()
                                .filter(|s| s.evq.first().map(|x| x.0) == ev && ev.is_some())
                                .map(|s| {
                                    let mut s = s.clone();
                                    s.evq.remove(0);
                                    s
                                })
                                .collect();
                            kind = if p.event == "token_invalidated" { "event-invalidated" } else { "event-wrong" };
                            what = format!("event command run with {}", p.event);
                        }
                        Some(b"N2") if self.o.errors => {
                            self.close(q, t);
                            before = self.states.clone();
                            self.states = before
                                .iter()
                                .filter(|s| !s.errq.is_empty())
                                .map(|s| {
                                    let mut s = s.clone();
                                    s.errq.remove(0);
                                    s
                                })
                                .collect();
                            kind = "error-unexpected";
                            what = format!("error command run with {:?}", p.msg);
                        }
                        Some(b"N4") => {
                            self.close(q, t);
                            let mut ns = BTreeSet::new();
                            for s in &self.states {
                                if let Cur::Act(_) = s.cur {
                                    let mut n = s.clone();
                                    n.fl.push(Fl::Tc(i as u32, s.ident));
                                    n.fl.sort();
                                    ns.insert(n);
                                }
                                for (id, _, _) in &s.recent {
                                    let mut n = s.clone();
                                    n.fl.push(Fl::Tc(i as u32, *id));
                                    n.fl.sort();
                                    ns.insert(n);
                                }
                            }
                            if !ns.is_empty() {
                                self.states = ns;
                            }
                            continue;
                        }
                        _ => (),
                    }
                }
                E::End { why } => {
                    if ["limit", "idle", "busy"].contains(&why.as_str()) {
                        self.close(q, t);
                        before = self.states.clone();
                        if self.o.errors {
                            self.states.retain(|s| s.errq.iter().all(|x| h.by(*x, 0) >= t));
                            if self.states.is_empty() {
                                kind = "error-missing";
                                what = "the error command was not run".into();
                            }
                        }
                        if !self.states.is_empty() && self.o.events {
                            let ph = e_phase(h, q);
                            let busy = h.spawns.iter().any(|p| {
                                p.phase == ph && p.kind.starts_with("N3") && p.err == 0 && p.end.map_or(true, |x| h.by(x.1, 5 * SEC) >= t)
                            });
                            if !busy {
                                self.states.retain(|s| s.evq.iter().all(|x| h.by(x.1, 5 * SEC) >= t));
                                if self.states.is_empty() {
                                    kind = "event-missing";
                                    what = "an event command was never run".into();
                                }
                            }
                        }
                    }
                }
                _ => continue,
            }
            if self.give_up {
                continue;
            }
            if let Some((k, w, b)) = self.starved.take() {
                kind = k;
                what = w;
                before = b;
            }
            if self.states.is_empty() {
                vs.push(Viol {
                    kind: if kind.is_empty() { "model" } else { kind }.into(),
                    msg: format!("account {}: {what}; possible states: {}", self.acct, self.describe(&before)),
                    q,
                });
                dead_until_phase = true;
            }
        }
        vs
    }

    fn add_fl(&mut self, f: impl Fn(&St) -> Vec<Fl>) {
        self.states = std::mem::take(&mut self.states)
            .into_iter()
            .map(|mut s| {
                let v = f(&s);
                s.fl.extend(v);
                s.fl.sort();
                s
            })
            .collect();
    }

    /// the authorisation URL a browser operation was aimed at
    fn target_url(&self, o: &OpR, q: Q) -> Option<u32> {
        browser_url(self.h, o, q).map(|x| x as u32)
    }

    fn explain(&self, o: &OpR, before: &BTreeSet<St>) -> (&'static str, String) {
        let h = self.h;
        let text = o.text();
        let short: String = text.chars().take(200).collect();
        let w = format!("{:?} answered {short:?}", o.cmd().unwrap());
        let k = match o.cmd().unwrap() {
            Cmd::Show(..) => {
                if let Some(x) = text.strip_prefix("access_token:") {
                    let cur = before.iter().any(|s| matches!(s.cur, Cur::Act(v) if self.vers[v as usize].at == x));
                    if cur {
                        "expired-token"
                    } else {
                        match h.req_of_at(x) {
                            None => "foreign-token",
                            Some(r) if h.reqs[r].acct != self.acct => "foreign-token",
                            Some(r) => token_fate(h, &self.acct, r, o.acc.unwrap().0),
                        }
                    }
                } else if before.iter().any(|s| matches!(s.cur, Cur::Act(_))) {
                    "lost-token"
                } else if text.starts_with("pending:") && before.iter().all(|s| matches!(s.cur, Cur::Pend { .. })) {
                    "url-changed"
                } else if text.starts_with("pending:") {
                    "url-reused"
                } else {
                    "show-wrong"
                }
            }
            Cmd::Refresh(..) => {
                if text.starts_with("pending:") && before.iter().all(|s| !matches!(s.cur, Cur::Act(_))) {
                    "url-reused"
                } else if text.starts_with("pending:") {
                    "lost-token"
                } else {
                    "refresh-wrong"
                }
            }
            Cmd::Revoke(_) => "revoke-wrong",
            Cmd::Reload => "reload-wrong",
            Cmd::Restore(_) => "restore-wrong",
            Cmd::Status => "status-wrong",
            Cmd::Dump(_) => "dump-wrong",
            _ => "reply-wrong",
        };
        (k, w)
    }
}

fn e_phase(h: &H, q: Q) -> usize {
    let mut p = 0;
    for (i, s) in h.starts.iter().enumerate() {
        if s.0 <= q {
            p = i;
        }
    }
    p
}

pub fn browser_url(h: &H, o: &OpR, q: Q) -> Option<usize> {
    if let OpKind::Browser { acct, which, .. } = &o.kind {
        let us: Vec<usize> = h.urls.iter().enumerate().filter(|(_, u)| u.acct == *acct && u.q < q).map(|x| x.0).collect();
        return match which {
            Which::Latest => us.last().copied(),
            Which::Prev => (us.len() >= 2).then(|| us[us.len() - 2]),
            Which::Nth(k) => us.get(*k as usize).copied(),
        };
    }
    None
}

/// Why a token that should not be there is wrong.
pub fn token_fate(h: &H, acct: &str, req: usize, q: Q) -> &'static str {
    if let Some(u) = h.root_url(req) {
        let uq = h.urls[u].q;
        let revoked = h.ops.values().any(|o| {
            matches!(o.cmd(), Some(Cmd::Revoke(a)) if a == acct)
                && o.data == b"ok:"
                && o.rep.map_or(false, |r| r.0 < q && r.0 > uq)
        });
        if revoked {
            return "revoked-token";
        }
        // did the definition change since?
        let mut cur: Option<&AcctSpec> = None;
        let mut changed = false;
        for us in h.uses.iter().filter(|x| x.q0 < q) {
            let s = h.spec(us.idx).and_then(|c| c.acct(acct));
            if us.q0 > uq {
                match (cur, s) {
                    (Some(a), Some(b)) if a.sec_eq(b) => (),
                    (None, None) => (),
                    _ => changed = true,
                }
            }
            cur = s;
        }
        if changed {
            return "olddef-token";
        }
    }
    "stale-token"
}

/// does an RFC 2822 time fit the boot-time interval, given the possible wall offsets?
pub fn time_fits(s: &str, iv: (i64, i64), offs: (i64, i64)) -> bool {
    if s == "<unknown time>" {
        return iv.1 > (1 << 61);
    }
    match rfc2822(s) {
        Some(x) => ns_fits(x.saturating_mul(SEC as i64), iv, offs),
        None => false,
    }
}
pub fn ns_fits(ns: i64, iv: (i64, i64), offs: (i64, i64)) -> bool {
    if iv.1 == i64::MAX {
        return true;
    }
    let lo = iv.0.saturating_add(offs.0).saturating_sub(2 * SEC as i64);
    let hi = iv.1.saturating_add(offs.1).saturating_add(2 * SEC as i64);
    ns >= lo && ns <= hi
}

/// seconds since the epoch (the simulated time zone is UTC)
pub fn rfc2822(s: &str) -> Option<i64> {
    // Tue, 14 Nov 2023 22:13:23 +0000
    let s = s.split_once(", ").map_or(s, |x| x.1);
    let v: Vec<&str> = s.split_whitespace().collect();
    if v.len() < 4 {
        return None;
    }
    let d: i64 = v[0].parse().ok()?;
    let m = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|x| *x == v[1])? as i64 + 1;
    let y: i64 = v[2].trim_start_matches('+').parse().ok()?;
    let h: Vec<i64> = v[3].split(':').map(|x| x.parse().unwrap_or(0)).collect();
    if h.len() != 3 {
        return None;
    }
    let (yy, mm) = if m <= 2 { (y - 1, m + 12) } else { (y, m) };
    let days = 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) + (153 * (mm - 3) + 2) / 5 + d - 1 - 719468;
    Some(days * 86400 + h[0] * 3600 + h[1] * 60 + h[2])
}

pub fn check_all(h: &H) -> Vec<Viol> {
    let mut names: BTreeSet<String> = BTreeSet::new();
    for c in h.confs.iter().flatten() {
        for a in &c.accts {
            names.insert(a.name.clone());
        }
    }
    let mut v = vec![];
    let mut feas: HashMap<u32, Vec<(String, BTreeSet<Q>)>> = HashMap::new();
    for n in names {
        let mut m = Model::new(h, &n);
        let vs = m.run();
        if vs.is_empty() && !m.give_up {
            for (k, s) in m.feasible {
                feas.entry(k).or_default().push((n.clone(), s));
            }
        }
        v.extend(vs);
    }
    v
}
