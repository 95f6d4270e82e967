//! Scenario generators, by property.
use crate::gen::*;
use crate::hist::*;
use crate::spec::*;
use model::*;
use std::collections::HashMap;

// ------------------------------------------------------------------------ scenarios with less

pub fn no_revokes(c: &Case) -> Option<Case> {
    crate::engine::drop_ops(c, |o| matches!(o.kind, OpKind::Cli { cmd: Cmd::Revoke(_), .. }))
}
pub fn no_reloads(c: &Case) -> Option<Case> {
    crate::engine::drop_ops(c, |o| matches!(o.kind, OpKind::Cli { cmd: Cmd::Reload, .. }))
}
/// configuration changes that touch credentials do not happen; reloads then change nothing
pub fn no_sec_reloads(c: &Case) -> Option<Case> {
    let confs: Vec<Option<ConfSpec>> = serde_json::from_str(c.notes.get("confs")?).ok()?;
    let base = confs[c.phases[0].conf].clone()?;
    crate::engine::drop_ops(c, |o| match o.kind {
        OpKind::SetConf(i) => match &confs[i] {
            Some(x) => base.accts.iter().any(|a| x.acct(&a.name).map_or(true, |b| !a.sec_eq(b))),
            None => false,
        },
        _ => false,
    })
}
pub fn bogus(k: &OpKind) -> bool {
    match k {
        OpKind::Browser { muts, which, what, .. } => !muts.is_empty() || *which != Which::Latest || *what == Redirect::NoCode,
        OpKind::Http { .. } => true,
        _ => false,
    }
}
pub fn no_bogus(c: &Case) -> Option<Case> {
    crate::engine::drop_ops(c, |o| bogus(&o.kind))
}
pub fn no_restores(c: &Case) -> Option<Case> {
    crate::engine::drop_ops(c, |o| matches!(o.kind, OpKind::Cli { cmd: Cmd::Restore(_), .. }))
}
pub fn no_clocks(c: &Case) -> Option<Case> {
    crate::engine::drop_ops(c, |o| matches!(o.kind, OpKind::Wall(_) | OpKind::Suspend(_)))
}
pub fn no_status(c: &Case) -> Option<Case> {
    crate::engine::drop_ops(c, |o| matches!(o.kind, OpKind::Cli { cmd: Cmd::Status, .. }))
}
/// providers always reachable
pub fn no_trans(c: &Case) -> Option<Case> {
    let mut d = crate::engine::drop_ops(c, |o| matches!(o.kind, OpKind::Net(..))).unwrap_or_else(|| c.clone());
    d.conns.clear();
    for v in d.plans.values_mut().flatten() {
        v.net = ReplyNet::Ok;
    }
    Some(d)
}
fn is_refusal(r: &Reply) -> bool {
    match &r.body {
        Body::Token { expires: Jv::N(_), refresh: RtMode::New | RtMode::Same, ttype: Jv::S(t), access: true } => r.status != 200 || t != "Bearer",
        _ => true,
    }
}
pub fn no_refusals(c: &Case) -> Option<Case> {
    let mut d = c.clone();
    for v in d.plans.values_mut().flatten() {
        if is_refusal(v) {
            let dl = v.delay;
            *v = Reply::ok(3600);
            v.delay = dl;
        }
    }
    Some(d)
}
pub fn no_failures(c: &Case) -> Option<Case> {
    let d = crate::engine::drop_ops(c, |o| {
        matches!(&o.kind, OpKind::Browser { what: Redirect::Error(_) | Redirect::BadCode, .. })
    })
    .unwrap_or_else(|| c.clone());
    let d = no_trans(&d)?;
    no_refusals(&d)
}

// ------------------------------------------------------------------------ building blocks

fn w() -> W {
    W::default()
}
/// nothing goes wrong at the provider
fn calm() -> W {
    W { perm: 0, trans: 0, connf: 0, no_rt: 0, ..w() }
}

/// accounts, a configuration, behaviour and a running server: the base of hand-made scenarios
fn base(b: &mut B, w: &W, limit: u64, tweak: impl Fn(&mut Rng, &mut ConfSpec)) -> (Vec<String>, ConfSpec, usize) {
    let n = b.r.range(w.accts.0, w.accts.1) as usize;
    let ns = names(&mut b.r, n);
    let mut c = base_conf(&mut b.r, &ns);
    tweak(&mut b.r, &mut c);
    let i = b.conf(c.clone());
    plans(b, &ns, w);
    cmds(b, w.slow_cmds);
    b.server(i, limit);
    (ns, c, i)
}

/// In every other case: threads are often stalled just when they have something to do
fn busy_stalls(b: &mut B) -> bool {
    let seed = b.r.next();
    let on = b.r.chance(1, 2);
    if on {
        b.ph().sched = Sched {
            seed,
            blk_ppm: *b.r.pick(&[0, 300_000]),
            stall_max: *b.r.pick(&[100 * MS, SEC, 4 * SEC]),
            max_stalls: 8,
            arm_ppm: *b.r.pick(&[60_000, 200_000, 500_000]),
            ..Default::default()
        };
    }
    on
}

fn auth_all(b: &mut B, ns: &[String]) {
    for n in ns {
        let at = Trig::At(SEC / 2 + b.r.below(2 * SEC));
        b.auth(at, n);
    }
}

fn closing(b: &mut B, ns: &[String], limit: u64) {
    let end = limit.saturating_sub(5 * SEC);
    for n in ns {
        b.show(Trig::At(end), n);
    }
    b.cli(Trig::At(end + SEC), Cmd::Status);
    b.cli(Trig::At(end + 2 * SEC), Cmd::Dump("end".into()));
}

/// a moment inside somebody's window
fn window(b: &mut B, a: &str) -> Trig {
    let d = match b.r.below(6) {
        0 => 0,
        1 => b.r.below(100 * US),
        2 => b.r.below(2 * MS),
        3 => b.r.below(60 * MS),
        4 => b.r.below(3 * SEC),
        _ => b.r.below(15 * SEC),
    };
    let k = 1 + b.r.below(3) as u32;
    let host = b.confs.iter().flatten().find_map(|c| c.acct(a)).map_or(String::new(), |x| x.tok_host());
    match b.r.below(10) {
        0..=3 => Trig::TReq(a.into(), k, d),
        4..=6 => Trig::TRep(a.into(), k, d),
        7 => Trig::Try(host, k, d),
        8 => Trig::Spawn((*b.r.pick(&["N1", "N3"])).into(), k, d),
        _ => Trig::At(SEC / 2 + b.r.below(120 * SEC)),
    }
}

fn note_final(b: &mut B, ids: &[u32]) {
    let s: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
    b.c.notes.insert("final".into(), s.join(","));
}

fn raw(b: &mut B, at: Trig, https: bool, data: Blob, conn: ConnOpts) -> u32 {
    b.op(at, OpKind::Http { https, data, conn })
}

fn redirect(b: &mut B, at: Trig, a: &str, which: Which, what: Redirect, muts: Vec<UrlMut>) -> u32 {
    b.op(at, OpKind::Browser { acct: a.into(), which, what, muts, conn: Default::default() })
}

/// now and then the browser does not wait for the answer
fn impatient(b: &mut B, id: u32, den: u64) {
    if b.r.chance(1, den) {
        for o in &mut b.ph().ops {
            if let (true, OpKind::Browser { conn, .. }) = (o.id == id, &mut o.kind) {
                conn.no_wait = true;
            }
        }
    }
}

/// some background traffic
fn background(b: &mut B, ns: &[String], limit: u64, k: u64) {
    for _ in 0..k {
        let at = Trig::At(b.r.below(limit));
        let a = b.r.pick(ns).clone();
        match b.r.below(5) {
            0 => b.cli(at, Cmd::Status),
            1 => b.cli(at, Cmd::Info),
            2 => b.cli(at, Cmd::Dump("bg".into())),
            _ => b.show(at, &a),
        };
    }
}

// ------------------------------------------------------------------------ C01

pub fn c01_swarm(b: &mut B) {
    let slow = b.r.chance(1, 3);
    swarm(b, &W { revoke: 8, reload_same: 1, reload_free: 1, refresh: 6, slow_cmds: slow, ..w() });
}

pub fn c01_window(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC, 400 * SEC]);
    let slow = b.r.chance(1, 4);
    let p = W { accts: (1, 2), life: &[100, 120, 200, 3600], trans: 80, slow_cmds: slow, ..calm() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 3) {
        let a = b.r.pick(&ns).clone();
        if b.r.chance(1, 3) {
            // a user-requested refresh, and then
            let at = Trig::At(b.r.below(limit / 2));
            b.cli(at, Cmd::Refresh(a.clone(), false));
        }
        let at = window(b, &a);
        let id = b.cli(at, Cmd::Revoke(a.clone()));
        match b.r.below(4) {
            0 => {
                let d = delay(&mut b.r);
                b.auth(Trig::Op(id, d), &a);
            }
            1 => {
                let d = delay(&mut b.r);
                b.cli(Trig::Op(id, d), Cmd::Refresh(a.clone(), true));
            }
            2 => {
                let d = delay(&mut b.r);
                b.show(Trig::Op(id, d), &a);
                b.cli(Trig::Op(id, d), Cmd::Dump("d".into()));
            }
            _ => (),
        }
        if b.r.chance(1, 4) {
            let d = delay(&mut b.r);
            b.cli(Trig::Op(id, d), Cmd::Reload);
        }
    }
    background(b, &ns, limit, 2);
    closing(b, &ns, limit);
}

pub fn c01_transient(b: &mut B) {
    // a revocation while transient_error_if_cmd or retry sleeps are under way
    let limit = 500 * SEC;
    let cmd = b.r.chance(2, 3);
    let p = W { accts: (1, 2), life: &[100, 130], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        if cmd {
            c.transient = Some("N4".into());
        }
        c.t.retry = Some(*r.pick(&[2, 5, 10]));
    });
    auth_all(b, &ns);
    for n in &ns {
        let h = AcctSpec::basic(n).tok_host();
        let mut v = vec![ConnFault::Ok];
        for _ in 0..10 {
            v.push(conn_fault_fast(&mut b.r));
        }
        b.c.conns.insert(h, v);
    }
    let mut v = vec![];
    for _ in 0..4 {
        v.push(ProcSpec { dur: *b.r.pick(&[100 * MS, 5 * SEC, 60 * SEC, u64::MAX]), exit: *b.r.pick(&[0, 0, 1]), ..Default::default() });
    }
    b.c.procs.insert("N4".into(), v);
    let a = ns[0].clone();
    let host = AcctSpec::basic(&a).tok_host();
    let d = delay(&mut b.r);
    let at = match b.r.below(3) {
        0 => Trig::Spawn("N4".into(), 1, d),
        1 => Trig::Try(host, 2 + b.r.below(7) as u32, d),
        _ => Trig::At(b.r.below(limit / 2)),
    };
    let id = b.cli(at, Cmd::Revoke(a.clone()));
    if b.r.chance(2, 3) {
        let d = delay(&mut b.r);
        b.auth(Trig::Op(id, d), &a);
    }
    closing(b, &ns, limit);
}

pub fn c01_notify(b: &mut B) {
    // revoking pending authorisations around their announcements and completions
    let limit = 120 * SEC;
    let slow = b.r.chance(1, 2);
    let p = W { accts: (1, 2), slow_cmds: slow, ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.notify_interval = Some(*r.pick(&[2, 5, 10])));
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        let k = 1 + b.r.below(4) as u32;
        let d = b.r.below(3 * MS);
        let at = match b.r.below(3) {
            0 => Trig::Spawn("N1".into(), k, d),
            1 => Trig::ProcEnd("N1".into(), k, d),
            _ => Trig::Op(s, b.r.below(20 * SEC)),
        };
        let r = b.cli(at, Cmd::Revoke(n.clone()));
        let d = b.r.below(5 * SEC);
        redirect(b, Trig::Op(r, d), n, Which::Latest, Redirect::Code, vec![]);
        if b.r.chance(1, 2) {
            b.auth(Trig::Op(r, d + SEC), n);
        }
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C02

pub fn c02_swarm(b: &mut B) {
    swarm(b, &W { reload_sec: 7, reload_same: 1, prev_code: 1, ..w() });
}

pub fn c02_window(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC, 400 * SEC]);
    let p = W { accts: (1, 2), life: &[100, 120, 200, 3600], trans: 60, connf: 80, ..calm() };
    let n = b.r.range(1, 2) as usize;
    let ns = names(&mut b.r, n);
    let mut c = base_conf(&mut b.r, &ns);
    tweak_times(&mut b.r, &mut c);
    let c0 = b.conf(c.clone());
    let mut vars = vec![];
    for i in 0..2 {
        let mut x = c.clone();
        let k = b.r.below(n as u64) as usize;
        if b.r.chance(1, 5) {
            x.accts.remove(k);
            if x.accts.is_empty() {
                let mut o = AcctSpec::basic("zz");
                o.secret = None;
                x.accts.push(o);
            }
        } else {
            change_sec(&mut b.r, &mut x.accts[k], &format!("{}", i + 2));
        }
        vars.push((b.conf(x), c.accts[k].name.clone()));
    }
    plans(b, &ns, &p);
    cmds(b, false);
    b.server(c0, limit);
    auth_all(b, &ns);
    let (v, a) = b.r.pick(&vars).clone();
    if b.r.chance(1, 3) {
        let at = Trig::At(b.r.below(limit / 2));
        b.cli(at, Cmd::Refresh(a.clone(), false));
    }
    let at = window(b, &a);
    let id = reload(b, at, v);
    // and perhaps back again
    let mut last = id;
    if b.r.chance(1, 2) {
        let d = delay(&mut b.r);
        last = reload(b, Trig::Op(id, d), c0);
    }
    match b.r.below(4) {
        0 => {
            let d = delay(&mut b.r);
            b.auth(Trig::Op(last, d), &a);
        }
        1 => {
            let d = delay(&mut b.r);
            redirect(b, Trig::Op(last, d), &a, Which::Latest, Redirect::Code, vec![]);
        }
        2 => {
            let d = delay(&mut b.r);
            b.cli(Trig::Op(last, d), Cmd::Refresh(a.clone(), true));
        }
        _ => (),
    }
    background(b, &ns, limit, 2);
    closing(b, &ns, limit);
}

pub fn c02_aba(b: &mut B) {
    // change there and back (also several times) while an exchange or refresh is retried
    let limit = 200 * SEC;
    let ns = names(&mut b.r, 1);
    let c = base_conf(&mut b.r, &ns);
    let c0 = b.conf(c.clone());
    let mut vs = vec![];
    for i in 0..3 {
        let mut x = c.clone();
        if i == 0 && b.r.chance(1, 2) {
            x.accts[0] = AcctSpec::basic("zz");
        } else {
            change_sec(&mut b.r, &mut x.accts[0], &format!("{}", i + 2));
        }
        vs.push(b.conf(x));
    }
    let p = W { life: &[100, 120, 3600], ..calm() };
    plans(b, &ns, &p);
    let k = b.r.below(6) as usize;
    let first_ok = b.r.chance(1, 2);
    let mut v = vec![];
    if first_ok {
        v.push(ConnFault::Ok)
    }
    for _ in 0..k {
        v.push(conn_fault_fast(&mut b.r));
    }
    let hosts: Vec<String> = b.c.conns.keys().cloned().collect();
    for h in hosts {
        b.c.conns.insert(h, v.clone());
    }
    cmds(b, false);
    b.server(c0, limit);
    let (s, _) = b.auth(Trig::At(SEC), "a");
    let d = b.r.below(40 * SEC);
    let mut last = if first_ok { reload(b, Trig::TRep("a".into(), 1, d), vs[0]) } else { reload(b, Trig::Op(s, d), vs[0]) };
    for i in 0..b.r.range(1, 4) {
        let d = delay(&mut b.r).min(10 * SEC);
        let to = if i % 2 == 0 { c0 } else { *b.r.pick(&vs) };
        last = reload(b, Trig::Op(last, d), to);
        if b.r.chance(1, 3) {
            b.show(Trig::Op(last, d), "a");
        }
    }
    let d = delay(&mut b.r);
    if b.r.chance(1, 2) {
        b.auth(Trig::Op(last, d), "a");
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C03

pub fn c03_swarm(b: &mut B) {
    swarm(b, &W { reload_same: 5, reload_free: 5, reload_bad: 3, ..w() });
}

pub fn c03_window(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC, 400 * SEC]);
    let p = W { accts: (1, 3), life: &[100, 120, 200, 3600], connf: 80, ..calm() };
    let (ns, c, c0) = base(b, &p, limit, tweak_times);
    let mut frees = vec![c0];
    for i in 0..2 {
        let mut x = c.clone();
        if i == 0 || b.r.chance(1, 2) {
            change_free(&mut b.r, &mut x, &format!("v{i}"));
        } else {
            // another account appears or the order changes
            if b.r.chance(1, 2) {
                x.accts.reverse();
            } else {
                x.accts.insert(0, AcctSpec::basic("nn"));
            }
        }
        frees.push(b.conf(x));
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 4) {
        let a = b.r.pick(&ns).clone();
        let at = window(b, &a);
        let f = *b.r.pick(&frees);
        reload(b, at, f);
    }
    if b.r.chance(1, 3) {
        // pending across reloads
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(5 * SEC + b.r.below(limit / 2));
        b.cli(at, Cmd::Refresh(a, true));
    }
    background(b, &ns, limit, 3);
    closing(b, &ns, limit);
}

fn cut(s: &str, n: usize) -> &str {
    &s[..(0..=n).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0)]
}

pub fn c03_bad(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC]);
    let p = W { accts: (1, 2), life: &[100, 120, 200, 3600], ..calm() };
    let (ns, c, c0) = base(b, &p, limit, tweak_times);
    let mut bads = vec![];
    let good = c.text();
    // near misses of the good one, and samples
    for _ in 0..3 {
        let t = match b.r.below(7) {
            0 => cut(&good, b.r.below(good.len() as u64) as usize).trim_end().trim_end_matches('}').to_string() + " x",
            1 => format!("{good}\naccount \"a\" {{ }}"),
            2 => format!("{good}{good}"),
            3 => good.replace("client_id", "client_idd"),
            4 => good.replace("http://tok-", "::/tok-"),
            5 => good.replace("token_uri", "auth_uri"),
            _ => (*b.r.pick(BAD_CONFS)).to_string(),
        };
        bads.push(b.bad_conf(&t));
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 4) {
        let a = b.r.pick(&ns).clone();
        let at = window(b, &a);
        let id = if b.r.chance(1, 4) {
            let e = *b.r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT, libc::EMFILE]);
            let s = b.op(at, OpKind::ConfErr(Some(e)));
            let id = b.cli(Trig::Op(s, 1 * MS), Cmd::Reload);
            b.op(Trig::Op(id, 1 * MS), OpKind::ConfErr(None))
        } else {
            let x = *b.r.pick(&bads);
            reload(b, at, x)
        };
        if b.r.chance(1, 2) {
            let d = delay(&mut b.r);
            reload(b, Trig::Op(id, d), c0);
        }
    }
    background(b, &ns, limit, 3);
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C04

pub fn c04_swarm(b: &mut B) {
    swarm(
        b,
        &W { show: 16, refresh: 4, status: 1, dump: 1, life: &[0, 1, 2, 5, 30, 91, 100, 200, 3600], accts: (2, 4), ops: (8, 24), ..w() },
    );
}

pub fn c04_expiry(b: &mut B) {
    expiry(b, |a| Cmd::Show(a.into(), true))
}
pub fn c25_expiry(b: &mut B) {
    expiry(b, |_| Cmd::Status)
}
fn expiry(b: &mut B, cmd: impl Fn(&str) -> Cmd) {
    let limit = *b.r.pick(&[100 * SEC, 400 * SEC]);
    let lifes: &[u64] = &[1, 2, 10, 60, 91, 100, 130];
    let p = W { accts: (1, 3), life: lifes, perm: 0, trans: 300, connf: 200, no_rt: 200, ..w() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    for n in &ns {
        let plan = b.c.plans[n].clone();
        for k in 1..=3usize {
            let life = match plan.get(k - 1).map(|r| &r.body) {
                Some(Body::Token { expires: Jv::N(x), .. }) => *x * SEC,
                _ => continue,
            };
            for _ in 0..3 {
                let j: i64 = match b.r.below(6) {
                    0 => -(b.r.below(2 * SEC) as i64),
                    1 => b.r.below(2 * SEC) as i64,
                    2 => -(b.r.below(50 * MS) as i64),
                    3 => b.r.below(50 * MS) as i64,
                    4 => b.r.below(40 * SEC) as i64,
                    _ => 0,
                };
                let d = (life as i64 + j).max(0) as u64;
                b.cli(Trig::TRep(n.clone(), k as u32, d), cmd(n));
            }
        }
    }
    background(b, &ns, limit, 3);
    closing(b, &ns, limit);
}

pub fn c04_failing(b: &mut B) {
    // tokens run out while the provider cannot be reached, then it comes back
    let limit = *b.r.pick(&[300 * SEC, 900 * SEC]);
    let p = W { accts: (1, 3), life: &[30, 60, 100, 200], ..calm() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    for n in &ns {
        let h = AcctSpec::basic(n).tok_host();
        let st = *b.r.pick(&[NetState::DnsFail, NetState::Refuse, NetState::Unreach, NetState::Blackhole]);
        let d0 = b.r.below(60 * SEC);
        let id = b.op(Trig::TRep(n.clone(), 1, d0), OpKind::Net(h.clone(), st));
        let d = b.r.below(limit / 2);
        b.op(Trig::Op(id, d), OpKind::Net(h, NetState::Up));
        for _ in 0..5 {
            let at = Trig::At(b.r.below(limit));
            b.show(at, n);
        }
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C05

pub fn c05_outage(b: &mut B) {
    let limit = 600 * SEC;
    let p = W { accts: (1, 2), life: &[3600, 7200], ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| {
        c.notify_interval = Some(*r.pick(&[2, 5, 20, 60]));
        if r.chance(1, 4) {
            c.error = None
        }
    });
    for n in &ns {
        let k = b.r.below(12) as usize;
        let fast = b.r.chance(2, 3);
        let mut v = vec![];
        for _ in 0..k {
            v.push(if fast { conn_fault_fast(&mut b.r) } else { conn_fault(&mut b.r) });
        }
        b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
        if b.r.chance(1, 5) {
            b.c.plans.get_mut(n).unwrap()[0] = perm(&mut b.r);
        }
        let at = Trig::At(SEC / 2 + b.r.below(2 * SEC));
        let (_, id) = b.auth(at, n);
        impatient(b, id, 6);
    }
    let mut other = c.clone();
    other.accts.push(AcctSpec::basic("zz"));
    let mut fewer = c.clone();
    if fewer.accts.len() > 1 && b.r.chance(1, 3) {
        fewer.accts.pop();
    }
    fewer.notify_interval = Some(7);
    let c1 = b.conf(other);
    let c2 = b.conf(fewer);
    // what must not matter
    for _ in 0..b.r.range(0, 8) {
        let a = b.r.pick(&ns).clone();
        let at = match b.r.below(3) {
            0 => Trig::At(b.r.below(80 * SEC)),
            1 => {
                let d = b.r.below(3 * SEC);
                Trig::Try(AcctSpec::basic(&a).tok_host(), 1 + b.r.below(8) as u32, d)
            }
            _ => {
                let d = b.r.below(50 * MS);
                Trig::TReq(a.clone(), 1, d)
            }
        };
        match b.r.below(5) {
            0 => b.cli(at, Cmd::Status),
            1 => b.show(at, &a),
            2 => {
                let x = *b.r.pick(&[c0, c1, c1, c2]);
                reload(b, at, x)
            }
            3 => b.cli(at, Cmd::Dump("x".into())),
            _ => b.cli(at, Cmd::Info),
        };
    }
    closing(b, &ns, limit);
}

pub fn c05_busy(b: &mut B) {
    let ns = swarm(
        b,
        &W { show: 4, refresh: 0, reload_same: 3, reload_free: 3, code: 0, auth: 0, perm: 0, trans: 0, connf: 300, no_rt: 0, accts: (2, 4), ops: (6, 20), ..w() },
    );
    let _ = ns;
}

// ------------------------------------------------------------------------ C06

fn a_mut(r: &mut Rng, other_host: &str) -> Vec<UrlMut> {
    let one = |r: &mut Rng| match r.below(18) {
        17 => UrlMut::NoPort,
        0 => UrlMut::State((*r.pick(&["", "x", "AAAAAAAAAAAAAAAA", "null", "%00"])).into()),
        1 => UrlMut::FlipState,
        2 => UrlMut::NoState,
        3 => UrlMut::Host((*r.pick(&["127.0.0.1", "evil.test", "localhost.evil.test", "[::1]", other_host, ""])).into()),
        4 => UrlMut::PortDelta(*r.pick(&[1, -1, 100])),
        5 => UrlMut::Method((*r.pick(&["POST", "HEAD", "get", "PUT", "OPTIONS"])).into()),
        6 => UrlMut::NoHost,
        7 => UrlMut::DupHost,
        8 => UrlMut::ExtraHeader(Blob::s(*r.pick(&["X-A: b\r\n", "Accept: */*\r\nCookie: a=b\r\n", "X: y\r\n  continued\r\n"]))),
        9 => UrlMut::HttpVer((*r.pick(&["HTTP/1.0", "HTTP/2", "HTTP/1.1 x", ""])).into()),
        10 => UrlMut::Path((*r.pick(&["/other", "//", "/favicon.ico", "/a/b/../c"])).into()),
        11 => UrlMut::ExtraQuery((*r.pick(&["a=b&", "state=zzz&", "scope=s&", "session_code=CODE_x&", "codex=1&", "xstate=q&", "errors=1&", "my_error=x&", "xcode&", "authcode=&"])).into()),
        12 => UrlMut::LowerHost,
        13 => UrlMut::Host((*r.pick(&["LOCALHOST", "localhost.", "user@localhost", "localhost:80"])).into()),
        14 => UrlMut::Host((*r.pick(&["evil.localhost", "xlocalhost", "localhosts", "localhost.x", "127.0.0.11", "127.0.0.2", "x.127.0.0.1", "local", "localhost%2eevil"])).into()),
        15 => UrlMut::EditState(r.below(6) as u8),
        _ => UrlMut::OtherListener,
    };
    let mut v = vec![one(r)];
    if r.chance(1, 5) {
        v.push(one(r));
    }
    v
}

fn c06_conf(r: &mut Rng, c: &mut ConfSpec) {
    for a in &mut c.accts {
        match r.below(4) {
            0 => a.redirect = Some((*r.pick(&["http://127.0.0.1/cb", "http://127.0.0.1:14204/cb", "http://localhost:1/", "http://[::1]/"])).into()),
            1 => a.redirect = Some("http://localhost/x/y".into()),
            _ => (),
        }
    }
    c.notify_interval = Some(*r.pick(&[5, 30, 900]));
}

fn r_pick_err(r: &mut Rng) -> &'static &'static str {
    r.pick(&["access_denied", "server_error", "invalid_request"])
}

pub fn c06_muts(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 3), life: &[3600], connf: 50, ..calm() };
    let (ns, _, _) = base(b, &p, limit, c06_conf);
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        for _ in 0..b.r.range(1, 4) {
            let m = a_mut(&mut b.r, "127.0.0.1");
            let d = b.r.below(4 * SEC);
            let what = match b.r.below(6) {
                0 => Redirect::NoCode,
                1 => Redirect::Error((*r_pick_err(&mut b.r)).into()),
                2 => Redirect::BadCode,
                _ => Redirect::Code,
            };
            redirect(b, Trig::Op(s, d), n, Which::Latest, what, m);
        }
        let d = b.r.below(8 * SEC);
        if b.r.chance(3, 4) {
            redirect(b, Trig::Op(s, d), n, Which::Latest, Redirect::Code, vec![]);
        }
        // and after it was completed
        if b.r.chance(1, 2) {
            let d = b.r.below(5 * SEC);
            let m = a_mut(&mut b.r, "127.0.0.1");
            redirect(b, Trig::TRep(n.clone(), 1, d), n, Which::Latest, Redirect::Code, m);
        }
    }
    background(b, &ns, 40 * SEC, 2);
    closing(b, &ns, limit);
}

pub fn c06_prev(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 150 * SEC]);
    let p = W { accts: (1, 3), life: &[100, 3600], connf: 50, ..calm() };
    let (ns, c, c0) = base(b, &p, limit, c06_conf);
    let mut x = c.clone();
    change_sec(&mut b.r, &mut x.accts[0], "2");
    let c1 = b.conf(x);
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        let mut last = s;
        for _ in 0..b.r.range(1, 3) {
            let d = b.r.below(3 * SEC);
            last = match b.r.below(5) {
                0 => {
                    let r = b.cli(Trig::Op(last, d), Cmd::Revoke(n.clone()));
                    b.show(Trig::Op(r, d), n)
                }
                1 => {
                    let r = reload(b, Trig::Op(last, d), c1);
                    let r = if b.r.chance(1, 2) { reload(b, Trig::Op(r, d), c0) } else { r };
                    b.show(Trig::Op(r, d), n)
                }
                2 => redirect(b, Trig::Op(last, d), n, Which::Latest, Redirect::Error("no".into()), vec![]),
                _ => b.cli(Trig::Op(last, d), Cmd::Refresh(n.clone(), true)),
            };
            if b.r.chance(1, 2) {
                let d = b.r.below(3 * SEC);
                let k = b.r.below(3) as u32;
                let wh = if b.r.chance(1, 2) { Which::Prev } else { Which::Nth(k) };
                redirect(b, Trig::Op(last, d), n, wh, Redirect::Code, vec![]);
            }
        }
        let d = b.r.below(10 * SEC);
        redirect(b, Trig::Op(last, d), n, Which::Latest, Redirect::Code, vec![]);
        // the same redirect again, later
        let d = b.r.below(10 * SEC);
        redirect(b, Trig::TReq(n.clone(), 1, d), n, Which::Latest, Redirect::Code, vec![]);
        let d = b.r.below(20 * SEC);
        redirect(b, Trig::TRep(n.clone(), 1, d), n, Which::Prev, Redirect::Code, vec![]);
    }
    closing(b, &ns, limit);
}

pub fn c06_junk(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, c06_conf);
    auth_all(b, &ns);
    for _ in 0..b.r.range(2, 8) {
        let data = http_junk(&mut b.r);
        let at = Trig::At(SEC / 2 + b.r.below(30 * SEC));
        raw(b, at, false, data, ConnOpts::default());
    }
    closing(b, &ns, limit);
}

pub fn http_junk(r: &mut Rng) -> Blob {
    let m = *r.pick(&["GET", "GET", "GET", "POST", "", "G\0T", "GET "]);
    let t = *r.pick(&["/", "/?code=CODE_a_1&state=x", "/?state=&code=", "//", "*", "", "http://localhost/?state=a", "/?state=%ff%fe&code=%00", "/?error=x&state=y", "/\u{e9}?state=\u{e9}"]);
    let v = *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/0.9", "x", ""]);
    let h = *r.pick(&["Host: localhost\r\n", "Host: localhost:80\r\n", "host:localhost\r\n", "Host:\r\n", "Host\r\n", " Host: x\r\n", "Host: a\r\nHost: b\r\n", "", "Host: [::\r\n", "Host: %\r\n", ": \r\n", "\u{e9}\u{e9}: x\r\n", "Host: localhost:99999\r\n"]);
    let e = *r.pick(&["\r\n", "\r\n", "\n", "", "\r\n\r\nextra"]);
    match r.below(6) {
        0 => Blob::Hex((0..r.below(40)).map(|_| format!("{:02x}", r.below(256))).collect()),
        1 => Blob::Empty,
        2 => Blob::Cat(vec![Blob::S(format!("{m} {t} {v}\r\n")), Blob::Hex("fffe00".into()), Blob::S(format!("{h}{e}"))]),
        _ => Blob::S(format!("{m} {t} {v}\r\n{h}{e}")),
    }
}

fn https_conf(r: &mut Rng, c: &mut ConfSpec) {
    c.https = None;
    for a in &mut c.accts {
        if r.chance(2, 3) {
            a.redirect = Some("https://localhost/s".into());
        }
    }
    c.accts[0].redirect = Some("https://localhost/".into());
}

pub fn c06_https(b: &mut B) {
    let limit = 40 * SEC;
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, https_conf);
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        if b.r.chance(2, 3) {
            let m = a_mut(&mut b.r, "127.0.0.1");
            let d = b.r.below(4 * SEC);
            redirect(b, Trig::Op(s, d), n, Which::Latest, Redirect::Code, m);
        }
        let d = b.r.below(8 * SEC);
        redirect(b, Trig::Op(s, d), n, Which::Latest, Redirect::Code, vec![]);
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C07

fn fancy(r: &mut Rng, c: &mut ConfSpec) {
    for a in &mut c.accts {
        let n = slug(&a.name);
        match r.below(5) {
            0 => a.auth_uri = format!("http://auth-{n}.test/auth?tenant=x%20y"),
            1 => a.auth_uri = format!("http://auth-{n}.test:8080/a/b"),
            2 => a.auth_uri = format!("https://auth-{n}.test/"),
            _ => (),
        }
        match r.below(4) {
            0 => a.scopes = None,
            1 => a.scopes = Some(vec![]),
            2 => a.scopes = Some(vec!["https://x.test/m".into(), "offline_access".into(), "a b".into()]),
            _ => (),
        }
        match r.below(4) {
            0 => a.fields = Some(vec![("login_hint2".into(), "u@x.test".into()), ("p".into(), "a&b=c".into())]),
            1 => a.fields = Some(vec![("prompt".into(), "consent".into())]),
            2 => {
                let all = [("k", "1"), ("k", "2"), ("a", ""), ("", "x"), ("k", "1"), ("access_type", "online"), (" z ", " \"q\" \\ "), ("é", "+ %20;")];
                let n = 1 + r.below(5);
                a.fields = Some((0..n).map(|_| *r.pick(&all)).map(|(k, v)| (k.to_string(), v.to_string())).collect());
            }
            _ => (),
        }
        if r.chance(1, 4) {
            a.hint = Some(format!("{n}@x.test"));
        }
        match r.below(5) {
            0 => a.redirect = Some("http://localhost/a?b=c".into()),
            1 => a.redirect = Some("http://127.0.0.1/".into()),
            2 => a.redirect = Some("http://localhost".into()),
            3 => a.redirect = Some((*r.pick(&["http://localhost:6/x", "http://localhost:80/", "HTTP://LocalHost/a", "http://localhost:14204/", "http://u@localhost/", "http://localhost/?a=%20&b", "http://localhost/a%20b"])).into()),
            _ => (),
        }
    }
    if r.chance(1, 5) {
        c.http = Some(Some("127.0.0.1:14204".into()));
    }
}

fn url_ops(b: &mut B, ns: &[String], k: u64, horizon: u64) {
    for _ in 0..k {
        let a = b.r.pick(ns).clone();
        let at = Trig::At(SEC / 2 + b.r.below(horizon));
        match b.r.below(8) {
            0..=2 => b.show(at, &a),
            3..=5 => b.cli(at, Cmd::Refresh(a, true)),
            6 => b.cli(at, Cmd::Revoke(a)),
            _ => b.browse(at, &a, Redirect::Code),
        };
    }
}

pub fn c07_urls(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 4), life: &[3600], ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| {
        fancy(r, c);
        c.notify_interval = Some(*r.pick(&[2, 10, 900]));
    });
    let mut x = c.clone();
    let k = b.r.below(ns.len() as u64) as usize;
    change_sec(&mut b.r, &mut x.accts[k], "2");
    let c1 = b.conf(x);
    let n = b.r.range(4, 16);
    url_ops(b, &ns, n, 40 * SEC);
    if b.r.chance(1, 2) {
        let at = Trig::At(b.r.below(30 * SEC));
        let id = reload(b, at, c1);
        let d = b.r.below(15 * SEC);
        reload(b, Trig::Op(id, d), c0);
    }
    for n in &ns {
        b.show(Trig::At(45 * SEC), n);
        b.show(Trig::At(46 * SEC), n);
    }
}

pub fn c07_restart(b: &mut B) {
    // the same clocks and the same requests in a second life: only randomness can tell
    let limit = 10 * SEC;
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |_, _| ());
    let s = b.r.next();
    let boot0 = b.ph().boot0;
    let mode = b.ph().mode.clone();
    let mut ops = vec![];
    for n in &ns {
        ops.push((SEC + 1000, n.clone()));
        ops.push((2 * SEC, n.clone()));
    }
    for life in 0..3 {
        if life > 0 {
            b.server(c0, limit);
            let same_wall = b.r.chance(2, 3);
            let p = b.ph();
            p.boot0 = boot0;
            p.mode = mode.clone();
            p.wall_shift = if same_wall { -((limit * life / life.max(1)) as i64) } else { 0 };
        }
        b.ph().sched = Sched { seed: s, ..Default::default() };
        for (t, n) in &ops {
            b.cli(Trig::At(*t), Cmd::Refresh(n.clone(), true));
        }
        let ids: Vec<String> = ns.clone();
        for n in &ids {
            b.browse(Trig::At(4 * SEC), n, Redirect::Code);
        }
        // pad to the limit
        b.show(Trig::At(limit - SEC), &ns[0]);
    }
}

pub fn c07_https(b: &mut B) {
    let limit = 30 * SEC;
    let p = W { accts: (2, 3), life: &[3600], ..calm() };
    let one = b.r.chance(1, 3);
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        https_conf(r, c);
        c.https = Some(Some("127.0.0.2:0".into()));
        if one {
            c.http = Some(None);
            for a in &mut c.accts {
                a.redirect = Some("https://localhost/q".into());
            }
        }
    });
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        b.cli(Trig::Op(s, SEC), Cmd::Refresh(n.clone(), true));
    }
    b.cli(Trig::At(5 * SEC), Cmd::Info);
}

// ------------------------------------------------------------------------ C28

type Listen = Option<Option<String>>;

fn listens(r: &mut Rng) -> (Listen, Listen) {
    loop {
        let some = |x: &str| Some(Some(x.to_string()));
        let h = match r.below(6) {
            0 => Some(None),
            1 => some("127.0.0.1:14204"),
            2 => some("127.0.0.4:0"),
            3 => some("0.0.0.0:8123"),
            _ => None,
        };
        let s = match r.below(8) {
            0 => None,
            1 => some("127.0.0.3:0"),
            2 => some("127.0.0.1:14443"),
            3 => some("127.0.0.3:9443"),
            _ => Some(None),
        };
        if h != Some(None) || s != Some(None) {
            return (h, s);
        }
    }
}

/// give every account a redirect URI for a listener of this configuration (mostly, if it may not)
fn redirects(r: &mut Rng, c: &mut ConfSpec, must: bool) {
    let c0 = c.clone();
    for a in &mut c.accts {
        for _ in 0..20 {
            a.redirect = match r.below(7) {
                0 => None,
                1 => Some("http://localhost:1/cb".into()),
                2 => Some("http://127.0.0.1/".into()),
                3 => Some("HTTP://LocalHost/x".into()),
                4 => Some("https://localhost/".into()),
                5 => Some("HTTPS://localhost/y".into()),
                _ => Some("https://localhost:7777/z?k=v".into()),
            };
            if c0.serves(&a.redir()) || !must && r.chance(1, 4) {
                break;
            }
        }
        if must && !c0.serves(&a.redir()) {
            a.redirect = Some(if c0.http == Some(None) { "https://localhost/" } else { "http://localhost/" }.into());
        }
    }
}

fn listen_ops(b: &mut B, ns: &[String], t0: u64, t1: u64) {
    for n in ns {
        for _ in 0..b.r.range(1, 3) {
            let at = Trig::At(t0 + b.r.below(t1 - t0));
            match b.r.below(5) {
                0 => {
                    b.cli(at, Cmd::Refresh(n.clone(), true));
                }
                1 => {
                    b.show(at, n);
                }
                _ => {
                    b.auth(at, n);
                }
            }
        }
    }
    let at = Trig::At(t0 + b.r.below(t1 - t0));
    b.cli(at, Cmd::Info);
}

pub fn c28_listen(b: &mut B) {
    let limit = 90 * SEC;
    let p = W { accts: (1, 3), life: &[3600], ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| {
        (c.http, c.https) = listens(r);
        redirects(r, c, true);
    });
    listen_ops(b, &ns, SEC / 2, 15 * SEC);
    let mut t = 20 * SEC;
    for _ in 0..b.r.range(1, 3) {
        let mut x = c.clone();
        (x.http, x.https) = listens(&mut b.r);
        redirects(&mut b.r, &mut x, true);
        if b.r.chance(1, 3) {
            change_free(&mut b.r, &mut x, "l");
        }
        let i = b.conf(x);
        let id = reload(b, Trig::At(t), i);
        b.cli(Trig::Op(id, MS), Cmd::Info);
        listen_ops(b, &ns, t + 2 * SEC, t + 12 * SEC);
        t += 15 * SEC;
    }
    if b.r.chance(1, 3) {
        reload(b, Trig::At(t), c0);
        listen_ops(b, &ns, t + 2 * SEC, t + 10 * SEC);
    }
    ending(b, &ns, limit);
}

/// addresses that cannot be bound, and configurations without the listener they need
pub fn c28_refused(b: &mut B) {
    let limit = 30 * SEC;
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let unserved = b.r.chance(1, 2);
    let (ns, c, _) = base(b, &p, limit, |r, c| {
        (c.http, c.https) = listens(r);
        redirects(r, c, true);
    });
    if unserved {
        let mut x = c.clone();
        for _ in 0..50 {
            (x.http, x.https) = listens(&mut b.r);
            redirects(&mut b.r, &mut x, false);
            if !x.accts.iter().all(|a| x.serves(&a.redir())) {
                break;
            }
        }
        if x.accts.iter().all(|a| x.serves(&a.redir())) {
            x.http = Some(None);
            x.https = None;
            x.accts[0].redirect = None;
        }
        let i = b.bad_conf(&x.text());
        if b.r.chance(1, 2) {
            // at the start
            b.ph().conf = i;
            b.c.notes.insert("bad-listen".into(), "0".into());
            listen_ops(b, &ns, SEC / 2, 5 * SEC);
            return;
        }
        listen_ops(b, &ns, SEC / 2, 5 * SEC);
        reload(b, Trig::At(6 * SEC), i);
        listen_ops(b, &ns, 8 * SEC, 14 * SEC);
    } else {
        let n = 1 + b.r.below(3);
        let e = *b.r.pick(&[libc::EADDRINUSE, libc::EACCES, libc::EADDRNOTAVAIL]);
        b.ph().faults.push(Fault { call: "bind".into(), n, what: FaultKind::Err(e) });
        listen_ops(b, &ns, SEC / 2, 5 * SEC);
    }
    ending(b, &ns, limit);
}

// ------------------------------------------------------------------------ C08 - C10

const LIVES: &[u64] = &[100, 200, 600, 1800, 3600, 3600, 7200, 86_400, 2_592_000];

fn settings(r: &mut Rng, c: &mut ConfSpec) {
    if r.chance(1, 2) {
        c.t.before = Some(*r.pick(&[1, 10, 60, 90, 300]));
    }
    if r.chance(1, 2) {
        c.t.at_least = Some(*r.pick(&[30, 120, 1200, 3600, 20_000]));
    }
    if r.chance(1, 2) {
        c.t.retry = Some(*r.pick(&[1, 5, 40, 300]));
    }
    if r.chance(1, 12) {
        // longer than any token lives, or than can be subtracted
        c.t.before = Some(*r.pick(&[1 << 33, 1 << 62, u64::MAX]));
    }
    for a in &mut c.accts {
        if r.chance(1, 3) {
            a.t.before = Some(*r.pick(&[2, 20, 45, 120]));
        }
        if r.chance(1, 3) {
            a.t.at_least = Some(*r.pick(&[40, 90, 900, 7200]));
        }
        if r.chance(1, 3) {
            a.t.retry = Some(*r.pick(&[3, 20, 100]));
        }
    }
}

fn long_plans(b: &mut B, ns: &[String], lives: &'static [u64], n: usize) {
    for a in ns {
        let mut v = vec![];
        for i in 0..n {
            v.push(if i == 0 { ok_code(&mut b.r, lives) } else { ok(&mut b.r, lives) });
        }
        b.plan(a, v);
        let mut d = Reply::ok(*b.r.pick(lives));
        d.delay = *b.r.pick(&[5 * MS, 100 * MS]);
        b.c.default_reply.insert(a.clone(), d);
    }
}

pub fn c08_hours(b: &mut B) {
    let limit = *b.r.pick(&[600 * SEC, HOUR, 4 * HOUR, 10 * HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, settings);
    long_plans(b, &ns, LIVES, 8);
    auth_all(b, &ns);
    for _ in 0..b.r.range(0, 6) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(b.r.below(limit));
        match b.r.below(4) {
            0 => b.cli(at, Cmd::Refresh(a, false)),
            1 => b.cli(at, Cmd::Status),
            _ => b.show(at, &a),
        };
    }
    closing(b, &ns, limit);
}

pub fn c08_many(b: &mut B) {
    // accounts becoming due close to each other, and authorised while the refresher sleeps
    let limit = *b.r.pick(&[600 * SEC, 2 * HOUR]);
    let p = W { accts: (3, 4), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        settings(r, c);
        if r.chance(1, 2) {
            c.t.at_least = Some(*r.pick(&[20, 30]));
            for a in &mut c.accts {
                a.t.at_least = None;
            }
        }
    });
    long_plans(b, &ns, &[100, 120, 3600, 86_400], 8);
    for n in &ns {
        let span = if b.r.chance(1, 2) { 2 * SEC } else { limit / 3 };
        let at = Trig::At(SEC / 2 + b.r.below(span));
        b.auth(at, n);
    }
    // also one window after another's events
    for _ in 0..b.r.range(0, 4) {
        let a = b.r.pick(&ns).clone();
        let o = b.r.pick(&ns).clone();
        let d = delay(&mut b.r);
        let at = if b.r.chance(1, 2) { Trig::TRep(o, 1 + b.r.below(4) as u32, d) } else { Trig::TReq(o, 1 + b.r.below(4) as u32, d) };
        if b.r.chance(1, 2) {
            b.cli(at, Cmd::Refresh(a, false));
        } else {
            b.auth(at, &a);
        }
    }
    closing(b, &ns, limit);
}

pub fn c08_reload(b: &mut B) {
    let limit = *b.r.pick(&[600 * SEC, 2 * HOUR, 6 * HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, c, c0) = base(b, &p, limit, settings);
    long_plans(b, &ns, LIVES, 8);
    let mut vs = vec![c0];
    for _ in 0..2 {
        let mut x = c.clone();
        x.t = Default::default();
        for a in &mut x.accts {
            a.t = Default::default();
        }
        settings(&mut b.r, &mut x);
        vs.push(b.conf(x));
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 3) {
        let a = b.r.pick(&ns).clone();
        let v = *b.r.pick(&vs);
        let at = if b.r.chance(1, 3) { window(b, &a) } else { Trig::At(b.r.below(limit * 3 / 4)) };
        reload(b, at, v);
    }
    closing(b, &ns, limit);
}

pub fn c08_restored(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 1800 * SEC]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, c, c0) = base(b, &p, limit, settings);
    long_plans(b, &ns, &[200, 600, 3600, 86_400], 8);
    auth_all(b, &ns);
    let at = Trig::At(30 * SEC + b.r.below(limit - 60 * SEC));
    b.cli(at, Cmd::Dump("last".into()));
    let mut c1 = c0;
    if b.r.chance(1, 3) {
        let mut x = c.clone();
        settings(&mut b.r, &mut x);
        c1 = b.conf(x);
    }
    let limit2 = *b.r.pick(&[600 * SEC, 3 * HOUR]);
    b.server(c1, limit2);
    b.ph().down = *b.r.pick(&[0, 10 * SEC, 300 * SEC, 2 * HOUR]);
    let at = Trig::At(SEC + b.r.below(5 * SEC));
    b.cli(at, Cmd::Restore(Blob::Dump("last".into(), Mutate::None)));
    closing(b, &ns, limit2);
}

/// a token arrives while the refresher, with nothing to wait for, looks at an older change
pub fn c08_lone(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 400 * SEC]);
    let p = W { accts: (1, 2), connf: 0, ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |r, c| {
        c.t.before = Some(*r.pick(&[5, 60, 90]));
        c.t.at_least = *r.pick(&[None, None, Some(20)]);
        for a in &mut c.accts {
            a.t = Default::default();
        }
    });
    long_plans(b, &ns, &[100, 120, 130], 6);
    busy_stalls(b);
    let a = b.r.pick(&ns).clone();
    let at = Trig::At(SEC / 2 + b.r.below(2 * SEC));
    b.auth(at, &a);
    let span = *b.r.pick(&[2 * MS, 30 * MS, 500 * MS, 5 * SEC]);
    for _ in 0..b.r.range(2, 8) {
        let d = b.r.below(span);
        let at = if b.r.chance(1, 3) { Trig::TReq(a.clone(), 1, d) } else { Trig::TRep(a.clone(), 1, d) };
        reload(b, at, c0);
    }
    closing(b, &ns, limit);
}

pub fn c08_suspend(b: &mut B) {
    let limit = *b.r.pick(&[600 * SEC, 2 * HOUR, 6 * HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, settings);
    long_plans(b, &ns, LIVES, 8);
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 3) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 3) { window(b, &a) } else { Trig::At(b.r.below(limit)) };
        let d = *b.r.pick(&[5 * SEC, 60 * SEC, 600 * SEC, 3500 * SEC, 3 * HOUR, 20 * HOUR]);
        let id = b.op(at, OpKind::Suspend(d));
        if b.r.chance(2, 3) {
            let d = b.r.below(40 * SEC);
            b.show(Trig::Op(id, d), &a);
        }
    }
    closing(b, &ns, limit);
}

pub fn c08_retries(b: &mut B) {
    let limit = *b.r.pick(&[900 * SEC, HOUR]);
    let p = W { accts: (1, 2), ..calm() };
    let with4 = b.r.chance(1, 4);
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        settings(r, c);
        if with4 {
            c.transient = Some("N4".into());
        }
    });
    long_plans(b, &ns, &[120, 200, 600, 1800], 6);
    for n in &ns {
        let mut v = vec![ConnFault::Ok];
        for _ in 0..b.r.below(14) {
            v.push(if b.r.chance(3, 4) { conn_fault(&mut b.r) } else { ConnFault::Ok });
        }
        b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
        let plan = b.c.plans.get_mut(n).unwrap();
        for x in plan.iter_mut().skip(1) {
            if b.r.chance(1, 3) {
                *x = trans(&mut b.r);
            }
        }
    }
    auth_all(b, &ns);
    if b.r.chance(1, 2) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(b.r.below(limit));
        b.cli(at, Cmd::Refresh(a, false));
    }
    closing(b, &ns, limit);
}

pub fn c09_short(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 900 * SEC]);
    let p = W { accts: (1, 3), perm: 0, trans: 50, connf: 30, no_rt: 50, ..w() };
    let (ns, _, _) = base(b, &p, limit, settings);
    long_plans(b, &ns, &[0, 1, 2, 5, 20, 44, 60, 89, 90, 91, 119], 10);
    auth_all(b, &ns);
    for _ in 0..b.r.range(0, 5) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(b.r.below(limit));
        match b.r.below(4) {
            0 => b.cli(at, Cmd::Refresh(a, false)),
            1 => b.cli(at, Cmd::Reload),
            2 => b.op(at, OpKind::Suspend(60 * SEC)),
            _ => b.show(at, &a),
        };
    }
    closing(b, &ns, limit);
}

pub fn c09_failing(b: &mut B) {
    let limit = *b.r.pick(&[600 * SEC, HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let with4 = b.r.chance(1, 3);
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        settings(r, c);
        if with4 {
            c.transient = Some("N4".into());
        }
    });
    long_plans(b, &ns, &[60, 120, 200, 600], 6);
    auth_all(b, &ns);
    for n in &ns {
        let h = AcctSpec::basic(n).tok_host();
        let st = *b.r.pick(&[NetState::DnsFail, NetState::Refuse, NetState::Unreach, NetState::Blackhole]);
        let d0 = b.r.below(60 * SEC);
        let id = b.op(Trig::TRep(n.clone(), 1, d0), OpKind::Net(h.clone(), st));
        let d = b.r.below(limit / 2);
        b.op(Trig::Op(id, d), OpKind::Net(h, NetState::Up));
    }
    // things that wake the refresher
    for _ in 0..b.r.range(0, 8) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(b.r.below(limit));
        match b.r.below(5) {
            0 => b.cli(at, Cmd::Refresh(a, false)),
            1 => b.cli(at, Cmd::Reload),
            2 => b.auth(at, &a).0,
            3 => b.cli(at, Cmd::Status),
            _ => b.show(at, &a),
        };
    }
    closing(b, &ns, limit);
}

pub fn c09_wakeups(b: &mut B) {
    let limit = *b.r.pick(&[300 * SEC, HOUR]);
    let p = W { accts: (2, 4), ..calm() };
    let (ns, _, _) = base(b, &p, limit, settings);
    long_plans(b, &ns, &[100, 200, 3600], 8);
    auth_all(b, &ns);
    for _ in 0..b.r.range(4, 16) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(b.r.below(limit));
        match b.r.below(6) {
            0 => b.op(at, OpKind::Wall(*[-86400i64, 3600, 400 * 86400, -30].get((limit % 4) as usize).unwrap() * SEC as i64)),
            1 => b.cli(at, Cmd::Reload),
            2 | 3 => b.auth(at, &a).0,
            4 => b.op(at, OpKind::Suspend(30 * SEC)),
            _ => b.cli(at, Cmd::Revoke(a)),
        };
    }
    closing(b, &ns, limit);
}

pub fn c10_storm(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC, 600 * SEC]);
    let p = W { accts: (1, 2), life: &[3, 100, 110, 200, 3600], perm: 0, trans: 80, connf: 80, no_rt: 0, ..w() };
    let (ns, _, c0) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    for _ in 0..b.r.range(3, 12) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(2, 3) { window(b, &a) } else { Trig::At(3 * SEC + b.r.below(limit)) };
        match b.r.below(8) {
            0 => reload(b, at, c0),
            1 | 2 => b.show(at, &a),
            _ => b.cli(at, Cmd::Refresh(a, b.id_even())),
        };
    }
    closing(b, &ns, limit);
}

pub fn c10_slow(b: &mut B) {
    // refreshes that take long, while it becomes due again and again
    let limit = *b.r.pick(&[200 * SEC, 600 * SEC]);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        c.t.at_least = Some(*r.pick(&[1, 5, 15]));
        c.t.retry = Some(*r.pick(&[1, 5]));
    });
    for n in &ns {
        let mut v = vec![];
        for i in 0..14 {
            let mut x = if i == 0 { ok_code(&mut b.r, &[100, 200]) } else { ok(&mut b.r, &[20, 100, 200]) };
            x.delay = *b.r.pick(&[10 * MS, SEC, 10 * SEC, 20 * SEC, 26 * SEC, 29 * SEC, 31 * SEC]);
            if i > 0 && b.r.chance(1, 6) {
                x = trans(&mut b.r);
            }
            v.push(x);
        }
        b.plan(n, v);
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(2, 8) {
        let a = b.r.pick(&ns).clone();
        let at = match b.r.below(6) {
            0 | 1 => window(b, &a),
            2 | 3 => {
                // anywhere within a request that takes long
                let k = 1 + b.r.below(5) as u32;
                let d = b.r.below(30 * SEC);
                Trig::TReq(a.clone(), k, d)
            }
            _ => Trig::At(b.r.below(limit)),
        };
        match b.r.below(5) {
            0 => b.show(at, &a),
            1 if b.r.chance(1, 3) => {
                let d = *b.r.pick(&[SEC, 20 * SEC, 60 * SEC]);
                b.op(at, OpKind::Suspend(d))
            }
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    closing(b, &ns, limit);
}

pub fn c10_rotate(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 600 * SEC]);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |r, c| {
        c.t.at_least = Some(*r.pick(&[5, 15, 40]));
    });
    for n in &ns {
        let mut v = vec![];
        for i in 0..14 {
            let mut x = if i == 0 { ok_code(&mut b.r, &[200, 3600]) } else { ok(&mut b.r, &[200, 3600]) };
            if i > 0 {
                if let Body::Token { refresh, .. } = &mut x.body {
                    *refresh = *b.r.pick(&[RtMode::New, RtMode::Absent, RtMode::Same, RtMode::Absent]);
                }
                if b.r.chance(1, 5) {
                    x.net = ReplyNet::Reset;
                }
            }
            v.push(x);
        }
        b.plan(n, v);
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 8) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 2) { window(b, &a) } else { Trig::At(b.r.below(limit)) };
        match b.r.below(5) {
            0 => reload(b, at, c0),
            1 => b.show(at, &a),
            2 => b.cli(at, Cmd::Dump("x".into())),
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C11

pub fn c11_plain(b: &mut B) {
    let limit = *b.r.pick(&[300 * SEC, 900 * SEC]);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.t.retry = Some(*r.pick(&[2, 5, 20, 40])));
    failing_refreshes(b, &ns, 16);
    auth_all(b, &ns);
    pokes(b, &ns, limit);
    closing(b, &ns, limit);
}

/// the first answer is a token, then transport failures of all kinds, now and then a success
fn failing_refreshes(b: &mut B, ns: &[String], n: usize) {
    for a in ns {
        let mut v = vec![];
        for i in 0..n {
            v.push(if i == 0 {
                ok_code(&mut b.r, &[95, 120, 200, 600])
            } else if b.r.chance(2, 5) {
                trans(&mut b.r)
            } else {
                let mut x = ok(&mut b.r, &[95, 120, 200]);
                if let Body::Token { refresh, .. } = &mut x.body {
                    if *refresh == RtMode::Null {
                        *refresh = RtMode::New
                    }
                }
                x
            });
        }
        b.plan(a, v);
        let mut c = vec![ConnFault::Ok];
        let bad = b.r.below(10);
        for _ in 0..n + 10 {
            c.push(if b.r.below(10) < bad { conn_fault(&mut b.r) } else { ConnFault::Ok });
        }
        b.c.conns.insert(AcctSpec::basic(a).tok_host(), c);
    }
}

fn pokes(b: &mut B, ns: &[String], limit: u64) {
    for _ in 0..b.r.range(0, 6) {
        let a = b.r.pick(ns).clone();
        let at = Trig::At(3 * SEC + b.r.below(limit));
        match b.r.below(3) {
            0 => b.cli(at, Cmd::Refresh(a, false)),
            1 => b.show(at, &a),
            _ => b.cli(at, Cmd::Status),
        };
    }
}

pub fn c11_cmd(b: &mut B) {
    let limit = *b.r.pick(&[600 * SEC, 1500 * SEC]);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, c, _) = base(b, &p, limit, |r, c| {
        c.transient = Some("N4".into());
        c.t.retry = Some(*r.pick(&[1, 2, 5, 10]));
    });
    failing_refreshes(b, &ns, 8);
    for n in &ns {
        let mut c = vec![ConnFault::Ok];
        let bad = *b.r.pick(&[8, 10, 10]);
        let len = b.r.range(4, 26);
        for _ in 0..len {
            c.push(if b.r.below(10) < bad { conn_fault_fast(&mut b.r) } else { ConnFault::Ok });
        }
        b.c.conns.insert(AcctSpec::basic(n).tok_host(), c);
    }
    let mut v = vec![];
    for _ in 0..6 {
        v.push(match b.r.below(6) {
            0 | 1 => ProcSpec { dur: *b.r.pick(&[1 * MS, 3 * SEC, 100 * SEC]), ..Default::default() },
            2 => ProcSpec { dur: *b.r.pick(&[1 * MS, 3 * SEC, 100 * SEC]), exit: 1, ..Default::default() },
            3 => ProcSpec { dur: SEC, signal: 15, ..Default::default() },
            4 => ProcSpec { dur: u64::MAX, ..Default::default() },
            _ => ProcSpec { dur: *b.r.pick(&[179 * SEC, 175 * SEC]), spawn_err: *b.r.pick(&[0, libc::EAGAIN, libc::ENOMEM]), ..Default::default() },
        });
    }
    b.c.procs.insert("N4".into(), v);
    auth_all(b, &ns);
    pokes(b, &ns, limit);
    if b.r.chance(1, 3) {
        let a = b.r.pick(&ns).clone();
        let d = delay(&mut b.r);
        b.auth(Trig::ProcEnd("N4".into(), 1, d), &a);
    }
    if b.r.chance(1, 3) {
        // reloads that leave the accounts as they are do not start the count again
        for _ in 0..b.r.range(1, 3) {
            let mut x = c.clone();
            if b.r.chance(1, 2) {
                change_free(&mut b.r, &mut x, "r");
            }
            let i = b.conf(x);
            let t = 5 * SEC + b.r.below(limit / 2);
            reload(b, Trig::At(t), i);
        }
    }
    closing(b, &ns, limit);
}

pub fn c11_outage(b: &mut B) {
    let limit = *b.r.pick(&[900 * SEC, HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.t.retry = Some(*r.pick(&[5, 40])));
    long_plans(b, &ns, &[120, 200, 600], 6);
    auth_all(b, &ns);
    for n in &ns {
        let h = AcctSpec::basic(n).tok_host();
        let st = *b.r.pick(&[NetState::DnsFail, NetState::Refuse, NetState::Unreach, NetState::Blackhole]);
        let d0 = b.r.below(100 * SEC);
        let id = b.op(Trig::TRep(n.clone(), 1, d0), OpKind::Net(h.clone(), st));
        let d = b.r.below(limit / 2);
        b.op(Trig::Op(id, d), OpKind::Net(h, NetState::Up));
    }
    pokes(b, &ns, limit);
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C12

pub fn c12_refused(b: &mut B) {
    let limit = *b.r.pick(&[300 * SEC, 900 * SEC]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        c.t.retry = Some(*r.pick(&[2, 5, 20]));
        c.t.before = Some(*r.pick(&[20, 60, 90]));
    });
    refusals(b, &ns);
    auth_all(b, &ns);
    pokes(b, &ns, limit);
    for n in &ns {
        let k = 2 + b.r.below(2) as u32;
        let d = delay(&mut b.r);
        if b.r.chance(1, 2) {
            b.auth(Trig::TRep(n.clone(), k, d), n);
        } else {
            b.show(Trig::TRep(n.clone(), k, d), n);
        }
    }
    closing(b, &ns, limit);
}

fn refusals(b: &mut B, ns: &[String]) {
    for a in ns {
        let mut v = vec![];
        for i in 0..10 {
            let x = if i == 0 {
                ok_code(&mut b.r, &[95, 120, 200])
            } else {
                match b.r.below(10) {
                    0..=3 => perm(&mut b.r),
                    4 => trans(&mut b.r),
                    _ => ok_code(&mut b.r, &[95, 120, 200]),
                }
            };
            v.push(x);
        }
        b.plan(a, v);
    }
}

pub fn c12_nort(b: &mut B) {
    let limit = *b.r.pick(&[300 * SEC, 900 * SEC]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        c.t.before = Some(*r.pick(&[2, 20, 60, 90]));
        if r.chance(1, 2) {
            c.t.at_least = Some(*r.pick(&[10, 60]));
        }
    });
    for a in &ns {
        let mut v = vec![];
        for _ in 0..6 {
            let mut x = ok_code(&mut b.r, &[5, 30, 100, 200]);
            if let Body::Token { refresh, .. } = &mut x.body {
                *refresh = *b.r.pick(&[RtMode::Absent, RtMode::Absent, RtMode::Null, RtMode::New, RtMode::Number]);
            }
            v.push(x);
        }
        b.plan(a, v);
    }
    auth_all(b, &ns);
    pokes(b, &ns, limit);
    for n in &ns {
        for _ in 0..2 {
            let d = b.r.below(210 * SEC);
            if b.r.chance(1, 2) {
                b.auth(Trig::TRep(n.clone(), 1, d), n);
            } else {
                b.show(Trig::TRep(n.clone(), 1, d), n);
            }
        }
    }
    closing(b, &ns, limit);
}

pub fn c12_races(b: &mut B) {
    // refusals of obsolete refreshes
    let limit = 300 * SEC;
    let p = W { accts: (1, 2), ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| c.t.before = Some(*r.pick(&[20, 90])));
    refusals(b, &ns);
    for a in &ns {
        for x in b.c.plans.get_mut(a).unwrap().iter_mut().skip(1) {
            x.delay = *b.r.pick(&[20 * MS, 3 * SEC, 20 * SEC]);
        }
    }
    let mut x = c.clone();
    change_sec(&mut b.r, &mut x.accts[0], "2");
    let c1 = b.conf(x);
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 4) {
        let a = b.r.pick(&ns).clone();
        let d = b.r.below(8 * SEC);
        let k = 2 + b.r.below(2) as u32;
        let at = if b.r.chance(2, 3) { Trig::TReq(a.clone(), k, d) } else { window(b, &a) };
        let id = match b.r.below(4) {
            0 => b.cli(at, Cmd::Revoke(a.clone())),
            1 => {
                let id = reload(b, at, c1);
                if b.r.chance(1, 2) {
                    reload(b, Trig::Op(id, d), c0)
                } else {
                    id
                }
            }
            2 => b.cli(at, Cmd::Refresh(a.clone(), true)),
            _ => b.show(at, &a),
        };
        if b.r.chance(2, 3) {
            let d = b.r.below(5 * SEC);
            b.auth(Trig::Op(id, d), &a);
        }
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C13

pub fn c13_events(b: &mut B) {
    let slow = b.r.chance(1, 2);
    swarm(b, &W { revoke: 4, reload_same: 1, accts: (2, 4), perm: 150, no_rt: 60, slow_cmds: slow, life: &[100, 110, 130, 3600], ..w() });
}

fn event_procs(b: &mut B, n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(match b.r.below(8) {
            0 => ProcSpec { dur: u64::MAX, ..Default::default() },
            1 => ProcSpec { dur: *b.r.pick(&[5 * SEC, 29 * SEC]), ..Default::default() },
            2 => ProcSpec { dur: MS, exit: *b.r.pick(&[1, 127, 255]), ..Default::default() },
            3 => ProcSpec { dur: MS, signal: *b.r.pick(&[9, 11, 15]), ..Default::default() },
            4 => ProcSpec { spawn_err: *b.r.pick(&[libc::ENOENT, libc::EAGAIN, libc::ENOMEM, libc::EACCES]), ..Default::default() },
            5 => ProcSpec { dur: SEC, out: 60_000, ..Default::default() },
            _ => ProcSpec { dur: *b.r.pick(&[MS, 300 * MS, 2 * SEC]), ..Default::default() },
        });
    }
    b.c.procs.insert("N3".into(), v);
}

pub fn c13_outcomes(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 500 * SEC]);
    let p = W { accts: (2, 4), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.t.at_least = Some(*r.pick(&[20, 40, 100])));
    event_procs(b, 16);
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 6) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 2) { window(b, &a) } else { Trig::At(5 * SEC + b.r.below(limit / 2)) };
        match b.r.below(3) {
            0 => {
                let r = b.cli(at, Cmd::Revoke(a.clone()));
                let d = delay(&mut b.r);
                b.auth(Trig::Op(r, d), &a);
            }
            1 => {
                b.cli(at, Cmd::Refresh(a, false));
            }
            _ => {
                b.auth(at, &a);
            }
        };
    }
    closing(b, &ns, limit);
}

pub fn c13_hang(b: &mut B) {
    // a burst of changes, commands that mostly hang, and then nothing new
    let p = W { accts: (2, 4), ..calm() };
    let n = b.r.range(2, 5);
    let limit = (60 + 40 * (n + 4)) * SEC;
    let (ns, _, _) = base(b, &p, limit, |_, c| c.t.at_least = Some(3600));
    for x in &ns {
        let mut v = vec![];
        for i in 0..8 {
            let mut x = if i == 0 || b.r.chance(4, 5) { ok_code(&mut b.r, &[3600]) } else { perm(&mut b.r) };
            x.delay = 10 * MS;
            v.push(x);
        }
        b.plan(x, v);
    }
    let mut v = vec![];
    for _ in 0..16 {
        v.push(match b.r.below(6) {
            0..=2 => ProcSpec { dur: u64::MAX, ..Default::default() },
            3 => ProcSpec { dur: *b.r.pick(&[SEC, 29 * SEC]), ..Default::default() },
            4 => ProcSpec { spawn_err: *b.r.pick(&[libc::ENOENT, libc::EAGAIN, libc::ENOMEM]), ..Default::default() },
            _ => ProcSpec { dur: MS, exit: *b.r.pick(&[0, 1]), ..Default::default() },
        });
    }
    b.c.procs.insert("N3".into(), v);
    auth_all(b, &ns);
    for _ in 0..n {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(3 * SEC + b.r.below(40 * SEC));
        match b.r.below(3) {
            0 => b.cli(at, Cmd::Revoke(a)),
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    closing(b, &ns, limit);
}

pub fn c13_close(b: &mut B) {
    // changes of one account close upon each other, the thread that made the first one being held up
    let limit = 120 * SEC;
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, c| c.t.at_least = Some(3600));
    let seed = b.r.next();
    b.ph().sched = Sched {
        seed,
        stall_max: *b.r.pick(&[SEC, 3 * SEC]),
        max_stalls: *b.r.pick(&[4, 12]),
        arm_ppm: *b.r.pick(&[500_000, 900_000]),
        ..Default::default()
    };
    for n in &ns {
        let mut v = vec![];
        for i in 0..14 {
            let mut x = if i == 0 || b.r.chance(9, 10) { ok_code(&mut b.r, &[3600]) } else { perm(&mut b.r) };
            x.delay = 20 * MS;
            v.push(x);
        }
        b.plan(n, v);
        b.c.procs.insert("N3".into(), vec![ProcSpec { dur: MS, ..Default::default() }; 40]);
        let mut at = Trig::At(SEC + b.r.below(SEC));
        let mut k = 0;
        for _ in 0..5 {
            b.auth(at, n);
            k += 1;
            if b.r.chance(2, 3) {
                let d = 3 * SEC + b.r.below(SEC);
                b.cli(Trig::TRep(n.clone(), k, d), Cmd::Refresh(n.clone(), false));
                k += 1;
            }
            let d = *b.r.pick(&[200 * MS, 500 * MS, SEC]) + b.r.below(SEC);
            let r = b.cli(Trig::TRep(n.clone(), k, d), Cmd::Revoke(n.clone()));
            at = Trig::Op(r, 4 * SEC + b.r.below(SEC));
        }
    }
    closing(b, &ns, limit);
}

pub fn c13_backlog(b: &mut B) {
    // a hanging command, and so many changes meanwhile that they pile up
    let p = W { accts: (1, 3), ..calm() };
    let n = *b.r.pick(&[40, 70, 140, 300]);
    let limit = 200 * SEC;
    let (ns, _, _) = base(b, &p, limit, |_, c| c.t.at_least = Some(3600));
    let mut v = vec![ProcSpec { dur: *b.r.pick(&[20 * SEC, 29 * SEC, u64::MAX]), ..Default::default() }];
    for _ in 0..b.r.below(3) {
        v.push(ProcSpec { dur: *b.r.pick(&[5 * SEC, u64::MAX]), ..Default::default() });
    }
    for _ in 0..n {
        v.push(ProcSpec { dur: MS, ..Default::default() });
    }
    b.c.procs.insert("N3".into(), v);
    auth_all(b, &ns);
    let t = 6 * SEC;
    for _ in 0..n {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(t + b.r.below(12 * SEC));
        b.cli(at, Cmd::Revoke(a));
    }
    closing(b, &ns, limit);
}

pub fn c13_order(b: &mut B) {
    // many accounts' changes, clearly one after another, no stalls: the order shows
    let limit = 120 * SEC;
    let p = W { accts: (3, 4), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, c| c.t.at_least = Some(3600));
    let s = sched_nostall(&mut b.r);
    b.ph().sched = s;
    for n in &ns {
        let mut v = vec![];
        for i in 0..6 {
            let mut x = if i == 0 || b.r.chance(3, 4) { ok_code(&mut b.r, &[3600]) } else { perm(&mut b.r) };
            x.chunk = 0;
            x.delay = *b.r.pick(&[5 * MS, 50 * MS, 800 * MS]);
            v.push(x);
        }
        b.plan(n, v);
        let at = Trig::At(SEC / 2 + b.r.below(6 * SEC));
        b.auth(at, n);
    }
    let mut v = vec![];
    for _ in 0..16 {
        v.push(ProcSpec { dur: *b.r.pick(&[MS, SEC, 4 * SEC, 20 * SEC]), exit: *b.r.pick(&[0, 0, 1]), ..Default::default() });
    }
    b.c.procs.insert("N3".into(), v);
    for _ in 0..b.r.range(2, 8) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(8 * SEC + b.r.below(30 * SEC));
        match b.r.below(3) {
            0 => {
                b.cli(at, Cmd::Revoke(a));
            }
            1 => {
                b.auth(at, &a);
            }
            _ => {
                b.cli(at, Cmd::Refresh(a, false));
            }
        }
    }
    closing(b, &ns, limit);
}

/// the event command comes and goes
pub fn c13_unset(b: &mut B) {
    let limit = 300 * SEC;
    let p = W { accts: (2, 4), ..calm() };
    let start_without = b.r.chance(1, 3);
    let (ns, c, c0) = base(b, &p, limit, |_, c| {
        c.t.at_least = Some(3600);
        if start_without {
            c.event = None;
        }
    });
    let s = sched_nostall(&mut b.r);
    b.ph().sched = s;
    let mut with = c.clone();
    with.event = Some((*b.r.pick(&["N3", "N3 again"])).into());
    let mut without = c.clone();
    without.event = None;
    let w1 = b.conf(with);
    let w0 = b.conf(without);
    let _ = c0;
    for n in &ns {
        let mut v = vec![];
        for _ in 0..8 {
            let mut x = ok_code(&mut b.r, &[3600]);
            (x.chunk, x.delay) = (0, *b.r.pick(&[5 * MS, 50 * MS]));
            v.push(x);
        }
        b.plan(n, v);
        let at = Trig::At(SEC / 2 + b.r.below(3 * SEC));
        b.auth(at, n);
    }
    let mut v = vec![];
    for _ in 0..20 {
        v.push(match b.r.below(4) {
            0 => ProcSpec { dur: *b.r.pick(&[5 * SEC, 20 * SEC]), ..Default::default() },
            1 => ProcSpec { dur: u64::MAX, ..Default::default() },
            _ => ProcSpec { dur: 50 * MS, exit: *b.r.pick(&[0, 0, 1]), ..Default::default() },
        });
    }
    b.c.procs.insert("N3".into(), v);
    let mut t = 5 * SEC;
    let mut have = !start_without;
    while t < limit - 60 * SEC {
        // a burst, perhaps with the command being taken away or given back inside it
        for _ in 0..b.r.range(1, 5) {
            let a = b.r.pick(&ns).clone();
            let at = Trig::At(t + b.r.below(3 * SEC));
            match b.r.below(4) {
                0 | 1 => b.cli(at, Cmd::Revoke(a)),
                2 => b.auth(at, &a).0,
                _ => b.cli(at, Cmd::Refresh(a, false)),
            };
        }
        if b.r.chance(2, 3) {
            let at = Trig::At(t + b.r.below(4 * SEC));
            reload(b, at, if have { w0 } else { w1 });
            have = !have;
        }
        t += *b.r.pick(&[5 * SEC, 15 * SEC, 40 * SEC]);
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C14 - C16

fn dumping(b: &mut B, n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(ProcSpec { dur: *b.r.pick(&[50 * MS, 500 * MS, 3 * SEC]), dump: Some("last".into()), ..Default::default() });
    }
    b.c.procs.insert("N3".into(), v);
    b.c.default_proc.insert("N3".into(), ProcSpec { dur: 100 * MS, dump: Some("last".into()), ..Default::default() });
}

pub fn c14_crash(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 300 * SEC]);
    let p = W { accts: (1, 3), perm: 40, no_rt: 20, life: &[100, 130, 3600], trans: 40, connf: 40, ..w() };
    let (ns, _, c0) = base(b, &p, limit, |r, c| c.t.at_least = Some(*r.pick(&[10, 30, 3600])));
    busy_stalls(b);
    dumping(b, 20);
    auth_all(b, &ns);
    for _ in 0..b.r.range(0, 4) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 2) { window(b, &a) } else { Trig::At(3 * SEC + b.r.below(limit)) };
        match b.r.below(4) {
            0 => b.cli(at, Cmd::Revoke(a)),
            1 => b.auth(at, &a).0,
            2 => b.cli(at, Cmd::Dump("other".into())),
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    let a = b.r.pick(&ns).clone();
    let d = match b.r.below(4) {
        0 => b.r.below(5 * MS),
        1 => b.r.below(200 * MS),
        2 => b.r.below(5 * SEC),
        _ => b.r.below(60 * SEC),
    };
    let at = match b.r.below(5) {
        0 => Trig::Spawn("N3".into(), 1 + b.r.below(5) as u32, d),
        1 => Trig::ProcEnd("N3".into(), 1 + b.r.below(5) as u32, d),
        2 => Trig::TRep(a, 1 + b.r.below(3) as u32, d),
        _ => Trig::At(3 * SEC + b.r.below(limit - 6 * SEC)),
    };
    b.op(at, OpKind::Crash);
    // the next life
    b.server(c0, 60 * SEC);
    b.ph().down = *b.r.pick(&[0, SEC, 20 * SEC, 200 * SEC]);
    b.c.procs.get_mut("N3").unwrap().iter_mut().for_each(|_| ());
    b.cli(Trig::At(SEC), Cmd::Restore(Blob::Dump("last".into(), Mutate::None)));
    for n in &ns {
        b.show(Trig::At(2 * SEC), n);
    }
    b.cli(Trig::At(2 * SEC), Cmd::Dump("again".into()));
    closing(b, &ns, 60 * SEC);
}

pub fn c14_dumps(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 300 * SEC]);
    let p = W { accts: (2, 4), perm: 40, no_rt: 20, life: &[100, 130, 3600], ..w() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.t.at_least = Some(*r.pick(&[10, 30, 3600])));
    busy_stalls(b);
    dumping(b, 20);
    auth_all(b, &ns);
    for _ in 0..b.r.range(2, 8) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 2) { window(b, &a) } else { Trig::At(3 * SEC + b.r.below(limit)) };
        match b.r.below(4) {
            0 => b.cli(at, Cmd::Revoke(a)),
            1 => b.cli(at, Cmd::Dump("other".into())),
            2 => b.cli(at, Cmd::Restore(Blob::Dump("last".into(), Mutate::None))),
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    closing(b, &ns, limit);
}

fn mutation(r: &mut Rng) -> Mutate {
    match r.below(5) {
        0 => Mutate::Truncate(r.below(4000) as usize),
        1 => Mutate::Truncate(*r.pick(&[0, 1, 11, 12, 13, 27, 28])),
        2 => Mutate::Append(r.below(256) as u8),
        _ => Mutate::Flip(r.below(4000) as usize, r.below(256) as u8),
    }
}

pub fn c15_bad(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 3), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    auth_all(b, &ns);
    b.cli(Trig::At(20 * SEC), Cmd::Dump("d0".into()));
    for n in &ns {
        if b.r.chance(1, 2) {
            b.cli(Trig::At(22 * SEC), Cmd::Revoke(n.clone()));
        }
    }
    for _ in 0..b.r.range(2, 8) {
        let blob = match b.r.below(8) {
            0 => Blob::Empty,
            1 => Blob::Hex((0..b.r.below(200)).map(|_| format!("{:02x}", b.r.below(256))).collect()),
            2 => Blob::s(*b.r.pick(&["restore:", "x", "\n", "{\"version\":1}"])),
            3 => Blob::Rep("A".into(), *b.r.pick(&[10, 1000, 70_000])),
            _ => Blob::Dump("d0".into(), mutation(&mut b.r)),
        };
        let at = Trig::At(24 * SEC + b.r.below(15 * SEC));
        b.cli(at, Cmd::Restore(blob));
    }
    if b.r.chance(1, 2) {
        b.cli(Trig::At(42 * SEC), Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
    }
    closing(b, &ns, limit);
}

pub fn c15_restores(b: &mut B) {
    let ns = swarm(
        b,
        &W { restore: 6, dump: 5, revoke: 3, reload_sec: 2, reload_same: 1, accts: (1, 3), life: &[100, 130, 3600], ops: (6, 18), ..w() },
    );
    let _ = ns;
}

pub fn c15_crafted(b: &mut B) {
    // dumps of another kind: other accounts, other definitions, other versions
    let limit = 60 * SEC;
    let p = W { accts: (2, 3), life: &[3600], ..calm() };
    let (ns, c, _) = base(b, &p, limit, |_, _| ());
    let now = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
    let sec = std::time::Duration::from_secs(1);
    for k in 0..b.r.range(1, 4) {
        let mut m: HashMap<String, (AcctDump, TokDump)> = HashMap::new();
        for a in &c.accts {
            let mut a2 = a.clone();
            if b.r.chance(1, 2) {
                change_sec(&mut b.r, &mut a2, "7");
            }
            let t = match b.r.below(4) {
                0 => TokDump::Empty,
                _ => TokDump::Active {
                    at: format!("AT_old{k}_{}", a.name),
                    obtained: now - sec * b.r.below(1000) as u32,
                    expiry: now + sec * (500 + b.r.below(5000) as u32),
                    rt: if b.r.chance(3, 4) { Some(format!("RT_old{k}_{}", a.name)) } else { None },
                },
            };
            if b.r.chance(4, 5) {
                m.insert(a.name.clone(), (AcctDump::of(&a2), t));
            }
        }
        // an account we do not have
        if b.r.chance(1, 2) {
            m.insert(
                "foreign".into(),
                (AcctDump::of(&AcctSpec::basic("foreign")), TokDump::Active { at: "AT_foreign".into(), obtained: now, expiry: now + sec * 5000, rt: None }),
            );
        }
        // somebody else's definition under our name
        if b.r.chance(1, 4) && c.accts.len() > 1 {
            let (x, y) = (c.accts[0].name.clone(), c.accts[1].name.clone());
            if let (Some(p), Some(q)) = (m.get(&x).cloned(), m.get(&y).cloned()) {
                m.insert(x, q);
                m.insert(y, p);
            }
        }
        let v = *b.r.pick(&[1, 1, 1, 1, 0, 2, u64::MAX]);
        // iteration order of the map must not decide what the case is
        let d = encode_sorted(v, &m);
        let at = Trig::At(SEC + b.r.below(30 * SEC));
        b.cli(at, Cmd::Restore(Blob::Hex(hex(&d))));
    }
    for n in &ns {
        if b.r.chance(1, 2) {
            let at = Trig::At(SEC / 2 + b.r.below(25 * SEC));
            b.auth(at, n);
        }
    }
    closing(b, &ns, limit);
}

/// like encode_dump, but the same bytes every time
fn encode_sorted(version: u64, m: &HashMap<String, (AcctDump, TokDump)>) -> Vec<u8> {
    use chacha20poly1305::aead::{Aead, KeyInit};
    #[derive(serde::Serialize)]
    struct S {
        version: u64,
        accounts: std::collections::BTreeMap<String, (AcctDump, TokDump)>,
    }
    let s = S { version, accounts: m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
    let c = chacha20poly1305::ChaCha20Poly1305::new(chacha20poly1305::Key::from_slice(KEY));
    let n = [7u8; 12];
    let mut v = n.to_vec();
    v.extend(c.encrypt(chacha20poly1305::Nonce::from_slice(&n), &*bincode::serialize(&s).unwrap()).unwrap());
    v
}

pub fn c15_window(b: &mut B) {
    // a restore while refreshes, exchanges and revocations are under way
    let limit = 200 * SEC;
    let p = W { accts: (1, 2), life: &[100, 110, 3600], ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |r, c| c.t.at_least = Some(*r.pick(&[10, 60, 3600])));
    auth_all(b, &ns);
    b.cli(Trig::At(4 * SEC + b.r.clone().below(10 * SEC)), Cmd::Dump("d0".into()));
    for _ in 0..b.r.range(1, 4) {
        let a = b.r.pick(&ns).clone();
        let at = match b.r.below(3) {
            0 => Trig::At(15 * SEC + b.r.below(100 * SEC)),
            _ => {
                let d = b.r.below(5 * SEC);
                Trig::TReq(a.clone(), 2 + b.r.below(3) as u32, d)
            }
        };
        let at2 = at.clone();
        match b.r.below(4) {
            0 => {
                let r = b.cli(at, Cmd::Revoke(a.clone()));
                let d = b.r.below(3 * SEC);
                b.cli(Trig::Op(r, d), Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
            }
            1 => {
                b.auth(at, &a);
                b.cli(at2, Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
            }
            2 => {
                b.cli(at, Cmd::Refresh(a, false));
                b.cli(at2, Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
            }
            _ => {
                b.cli(at, Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
            }
        }
    }
    // and in a fresh life
    if b.r.chance(1, 2) {
        closing(b, &ns, limit);
        b.server(c0, 60 * SEC);
        b.ph().down = *b.r.pick(&[0, 10 * SEC, 2000 * SEC]);
        b.cli(Trig::At(SEC), Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
        let d = b.r.below(20 * SEC);
        b.cli(Trig::At(SEC + d), Cmd::Restore(Blob::Dump("end".into(), Mutate::None)));
        closing(b, &ns, 60 * SEC);
    } else {
        closing(b, &ns, limit);
    }
}

pub fn c16_restart(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 300 * SEC, 2 * HOUR]);
    let accts = if b.r.chance(1, 10) { (10, 30) } else { (1, 4) };
    let p = W { accts, life: &[100, 200, 3600, 7200, 864_000, 1 << 33, 1 << 40], no_rt: 100, ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| {
        fancy(r, c);
        settings(r, c);
    });
    auth_all(b, &ns);
    // some stay pending
    if b.r.chance(1, 2) {
        let a = b.r.pick(&ns).clone();
        b.cli(Trig::At(limit - 20 * SEC), Cmd::Refresh(a, true));
    }
    let at = Trig::At(10 * SEC + b.r.below(limit - 15 * SEC));
    b.cli(at, Cmd::Dump("d0".into()));
    if b.r.chance(1, 3) {
        let at = Trig::At(limit / 2 + b.r.below(limit / 2));
        let k = if b.r.chance(1, 2) { OpKind::Term } else { OpKind::Crash };
        b.op(at, k);
    }
    // down, perhaps rebooted, perhaps with a changed configuration, perhaps several times
    for life in 0..b.r.range(1, 3) {
        let mut ci = c0;
        if b.r.chance(1, 4) {
            let mut x = c.clone();
            let k = b.r.below(ns.len() as u64) as usize;
            if b.r.chance(1, 3) && x.accts.len() > 1 {
                x.accts.remove(k);
            } else {
                change_sec(&mut b.r, &mut x.accts[k], &format!("{}", life + 2));
            }
            ci = b.conf(x);
        }
        let l2 = *b.r.pick(&[60 * SEC, 600 * SEC, 2 * HOUR]);
        b.server(ci, l2);
        let same = b.r.chance(1, 4);
        let ws = if b.r.chance(1, 5) { *b.r.pick(&[-100, 100, 4000]) * SEC as i64 } else { 0 };
        let dn = *b.r.pick(&[0, 10 * SEC, 300 * SEC, 2 * HOUR, 48 * HOUR]);
        let p = b.ph();
        p.down = dn;
        p.wall_shift = ws;
        if same {
            p.boot0 = 3_000_000 * SEC;
        }
        let l = if life == 0 { "d0" } else { "d1" };
        b.cli(Trig::At(SEC), Cmd::Restore(Blob::Dump(l.into(), Mutate::None)));
        let d = b.r.below(10 * MS);
        b.cli(Trig::At(SEC + 20 * MS + d), Cmd::Dump("d1".into()));
        b.cli(Trig::At(2 * SEC), Cmd::Status);
        closing(b, &ns, l2);
    }
}

pub fn c16_states(b: &mut B) {
    let limit = 200 * SEC;
    let p = W { accts: (2, 4), life: &[1, 30, 100, 3600], no_rt: 300, perm: 200, trans: 100, connf: 100, ..w() };
    let (ns, _, c0) = base(b, &p, limit, tweak_times);
    for n in &ns {
        if b.r.chance(2, 3) {
            b.auth(Trig::At(SEC), n);
        }
        if b.r.chance(1, 3) {
            let at = Trig::At(20 * SEC + b.r.below(100 * SEC));
            b.cli(at, Cmd::Refresh(n.clone(), true));
        }
    }
    for i in 0..3 {
        let a = b.r.pick(&ns).clone();
        let at = window(b, &a);
        b.cli(at, Cmd::Dump(format!("d{i}")));
    }
    closing(b, &ns, limit);
    b.server(c0, 100 * SEC);
    b.ph().down = *b.r.pick(&[0, 10 * SEC, 300 * SEC]);
    let l = format!("d{}", b.r.below(3));
    b.cli(Trig::At(SEC), Cmd::Restore(Blob::Dump(l, Mutate::None)));
    b.cli(Trig::At(SEC + 30 * MS), Cmd::Dump("d1".into()));
    closing(b, &ns, 100 * SEC);
}

// ------------------------------------------------------------------------ C17

fn ann_conf(r: &mut Rng, c: &mut ConfSpec) {
    c.notify_interval = Some(*r.pick(&[1, 2, 5, 20, 60, 900]));
}

pub fn c17_announce(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 400 * SEC, 3000 * SEC]);
    let p = W { accts: (1, 4), life: &[3600], connf: 60, ..calm() };
    let (ns, c, c0) = base(b, &p, limit, ann_conf);
    if b.r.chance(2, 3) {
        let s = sched_nostall(&mut b.r);
        b.ph().sched = s;
    }
    let mut x = c.clone();
    x.notify_interval = Some(*b.r.pick(&[1, 7, 30]));
    let c1 = b.conf(x);
    let mut y = c.clone();
    change_sec(&mut b.r, &mut y.accts[0], "2");
    let c2 = b.conf(y);
    for n in &ns {
        let at = Trig::At(SEC / 2 + b.r.below(30 * SEC));
        let s = b.show(at, n);
        if b.r.chance(1, 2) {
            let d = b.r.below(limit);
            b.browse(Trig::Op(s, d), n, Redirect::Code);
        }
    }
    for _ in 0..b.r.range(0, 6) {
        let a = b.r.pick(&ns).clone();
        let d = b.r.below(3 * SEC);
        let at = match b.r.below(3) {
            0 => Trig::Spawn("N1".into(), 1 + b.r.below(6) as u32, d),
            _ => Trig::At(b.r.below(limit)),
        };
        match b.r.below(8) {
            0 => b.cli(at, Cmd::Revoke(a)),
            1 => b.cli(at, Cmd::Refresh(a, true)),
            2 => reload(b, at, c1),
            3 => reload(b, at, c0),
            4 => reload(b, at, c2),
            5 => b.browse(at, &a, Redirect::Error("x".into())),
            _ => b.show(at, &a),
        };
    }
}

pub fn c17_outcomes(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 400 * SEC]);
    let p = W { accts: (2, 4), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.notify_interval = Some(*r.pick(&[2, 5, 20, 60])));
    let mut v = vec![];
    for _ in 0..20 {
        v.push(match b.r.below(7) {
            0 => ProcSpec { dur: u64::MAX, ..Default::default() },
            1 => ProcSpec { dur: *b.r.pick(&[5 * SEC, 30 * SEC, 100 * SEC]), ..Default::default() },
            2 => ProcSpec { dur: MS, exit: 1, ..Default::default() },
            3 => ProcSpec { dur: MS, signal: 9, ..Default::default() },
            4 => ProcSpec { spawn_err: *b.r.pick(&[libc::ENOENT, libc::EAGAIN, libc::ENOMEM]), ..Default::default() },
            5 => ProcSpec { dur: SEC, out: 60_000, ..Default::default() },
            _ => ProcSpec { dur: MS, ..Default::default() },
        });
    }
    b.c.procs.insert("N1".into(), v);
    for n in &ns {
        let at = Trig::At(SEC / 2 + b.r.below(20 * SEC));
        b.show(at, n);
    }
    for _ in 0..b.r.range(0, 5) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(b.r.below(limit));
        match b.r.below(3) {
            0 => b.browse(at, &a, Redirect::Code),
            1 => b.cli(at, Cmd::Status),
            _ => b.show(at, &a),
        };
    }
    closing(b, &ns, limit);
}

pub fn c17_suspend(b: &mut B) {
    let limit = *b.r.pick(&[400 * SEC, 4000 * SEC]);
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| c.notify_interval = Some(*r.pick(&[20, 60, 900, 3600])));
    for n in &ns {
        let at = Trig::At(SEC / 2 + b.r.below(20 * SEC));
        b.show(at, n);
    }
    for _ in 0..b.r.range(1, 3) {
        let at = Trig::At(b.r.below(limit));
        let d = *b.r.pick(&[10 * SEC, 100 * SEC, 1000 * SEC, 5 * HOUR]);
        b.op(at, OpKind::Suspend(d));
        let at = Trig::At(b.r.below(limit));
        { let v = *b.r.pick(&[-86400i64, 3600, 86400]) * SEC as i64; b.op(at, OpKind::Wall(v)) };
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C18

fn ending(b: &mut B, ns: &[String], limit: u64) {
    let mut ids = vec![];
    let t = limit.saturating_sub(12 * SEC);
    ids.push(b.cli(Trig::At(t), Cmd::Status));
    for n in ns {
        ids.push(b.show(Trig::At(t + SEC), n));
    }
    ids.push(b.cli(Trig::At(t + 2 * SEC), Cmd::Dump("end".into())));
    ids.push(b.cli(Trig::At(t + 3 * SEC), Cmd::Info));
    // the redirect listeners: a request that concerns nobody
    let req = || Blob::s("GET /nothing HTTP/1.1\r\nHost: localhost\r\n\r\n");
    let mut web = vec![];
    if b.confs[0].as_ref().map_or(true, |c| c.http != Some(None)) {
        web.push(raw(b, Trig::At(t + 4 * SEC), false, req(), ConnOpts::default()));
    }
    if b.confs[0].as_ref().map_or(false, |c| c.https != Some(None)) {
        web.push(raw(b, Trig::At(t + 5 * SEC), true, req(), ConnOpts::default()));
    }
    let w: Vec<String> = web.iter().map(|x| x.to_string()).collect();
    b.c.notes.insert("final-web".into(), w.join(","));
    note_final(b, &ids);
}

pub fn cli_junk(r: &mut Rng) -> Blob {
    let cmds = ["show", "showtoken", "refresh", "revoke", "reload", "status", "dump", "restore", "info", "", "SHOW", "shutdow", "x"];
    match r.below(10) {
        0 => Blob::Empty,
        1 => Blob::Hex((0..r.below(60)).map(|_| format!("{:02x}", r.below(256))).collect()),
        2 => Blob::Rep((*r.pick(&["A", "show:", ":", "\n", "\0", "\u{20ac}"])).into(), *r.pick(&[1, 100, 10_000, 300_000])),
        3 => Blob::s(*r.pick(&[":", "::", "show", "show:", "show::", "show:a", "show: a", "show:withurl", "show:withurl ", "show:withurl a b", "show:withouturl nope", "refresh:", "refresh:withurl", "refresh:withurl nope", "revoke:", "revoke:nope", "status:x", "info:x", "dump:x", "reload:x", "restore:", "restore", "shutdown", "shutdown:x"])),
        4 => Blob::Cat(vec![Blob::S(format!("{}:", r.pick(&cmds))), Blob::Hex("ff80fe".into())]),
        5 => Blob::Cat(vec![Blob::s("restore:"), Blob::Hex((0..r.below(200)).map(|_| format!("{:02x}", r.below(256))).collect())]),
        6 => Blob::S(format!("show:withurl {}", r.pick(&["a", "", " ", "\"", "a\n", "a\0", "\u{1F600}"]))),
        7 => Blob::Cat(vec![Blob::s("show:withurl "), Blob::Rep("a".into(), r.below(100_000))]),
        _ => Blob::S(format!("{}:{}{}", r.pick(&cmds), r.pick(&["", "withurl ", "withouturl ", " ", ":"]), r.pick(&["", "a", "b", "zz", ":", "%s%n", "../../x"]))),
    }
}

fn conn_opts(r: &mut Rng, len: u64) -> ConnOpts {
    let mut o = ConnOpts::default();
    if r.chance(1, 3) {
        o.chunk = *r.pick(&[1, 2, 7, 100, 1000]);
        o.gap = *r.pick(&[0, 10 * US, MS]);
    }
    match r.below(7) {
        0 => {
            o.cut = Some(r.below(len.max(1)) as usize);
            o.end = Some(ConnEnd::Reset);
        }
        1 => {
            o.cut = Some(r.below(len.max(1)) as usize);
            o.end = Some(ConnEnd::Eof);
        }
        2 => o.no_wait = true,
        3 => o.close_after = *r.pick(&[1 * US, 100 * US, MS, SEC]),
        _ => (),
    }
    o
}

pub fn c18_cli(b: &mut B) {
    let limit = 80 * SEC;
    let p = W { accts: (1, 2), ..w() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    auth_all(b, &ns);
    for _ in 0..b.r.range(4, 20) {
        let at = Trig::At(b.r.below(40 * SEC));
        let raw = if b.r.chance(3, 4) {
            Cmd::Raw(cli_junk(&mut b.r))
        } else {
            match b.r.below(6) {
                0 => Cmd::Show("a".into(), true),
                1 => Cmd::Status,
                2 => Cmd::Dump("d".into()),
                3 => Cmd::Reload,
                4 => Cmd::Show("nope".into(), false),
                _ => Cmd::Revoke("nope".into()),
            }
        };
        let conn = conn_opts(&mut b.r, 20);
        if let Cmd::Raw(x) = &raw {
            if x.bytes(&Default::default()).starts_with(b"shutdown:") {
                continue;
            }
        }
        b.op(at, OpKind::Cli { cmd: raw, conn });
    }
    ending(b, &ns, limit);
}

pub fn c18_http(b: &mut B) {
    let limit = 120 * SEC;
    let tls = b.r.chance(1, 5);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| if tls { https_conf(r, c) } else { fancy(r, c) });
    auth_all(b, &ns);
    for _ in 0..b.r.range(4, 16) {
        let at = Trig::At(SEC / 2 + b.r.below(50 * SEC));
        let a = b.r.pick(&ns).clone();
        let conn = conn_opts(&mut b.r, 100);
        match b.r.below(4) {
            0 => {
                let m = a_mut(&mut b.r, "[::1]:x");
                b.op(at, OpKind::Browser { acct: a, which: Which::Latest, what: Redirect::Code, muts: m, conn });
            }
            1 => {
                b.op(at, OpKind::Browser { acct: a, which: Which::Latest, what: Redirect::SameCode, muts: vec![], conn });
            }
            2 => {
                let data = Blob::Cat(vec![Blob::s("GET / HTTP/1.1\r\n"), Blob::Rep("A".into(), b.r.below(40_000)), Blob::s("\r\n\r\n")]);
                b.op(at, OpKind::Http { https: false, data, conn });
            }
            _ => {
                let data = http_junk(&mut b.r);
                let https = tls && b.r.chance(1, 2);
                b.op(at, OpKind::Http { https, data, conn });
            }
        }
    }
    ending(b, &ns, limit);
}

fn odd_reply(r: &mut Rng) -> Reply {
    let mut x = ok(r, &[0, 1, 100, 3600, 1 << 31, 1 << 32, 1 << 40, 1 << 62, u64::MAX - 1, u64::MAX]);
    match r.below(14) {
        0 => x.body = Body::Raw(Blob::Hex((0..r.below(200)).map(|_| format!("{:02x}", r.below(256))).collect())),
        1 => x.body = Body::Raw(Blob::Rep((*r.pick(&["[", "{\"a\":", "x", "\"", " "])).into(), *r.pick(&[10, 127, 200, 5000, 100_000]))),
        2 => x.body = Body::Raw(Blob::S(format!("{{\"access_token\":\"x\",\"token_type\":\"Bearer\",\"expires_in\":{}}}", r.pick(&["-1", "1e3", "1.5", "1e400", "18446744073709551615", "18446744073709551616", "\"\"", "null", "[]"])))),
        3 => x.body = Body::Raw(Blob::S(format!("{{\"error\":{}}}", r.pick(&["\"\"", "\"\\u0000\"", "null", "[]", "{}", "\"\\ud83d\\ude00\"", "\"a\\nb\""])))),
        4 => x.status = *r.pick(&[100, 101, 199, 204, 301, 302, 307, 400, 418, 500, 599, 999, 0]),
        5 => {
            x.status = *r.pick(&[301, 302, 303, 307, 308]);
            x.location = Some((*r.pick(&["/token", "http://tok-a.test/token", "http://nowhere.test/", "::", "", "ftp://x/"])).into());
        }
        6 => x.net = ReplyNet::Cut(r.below(300) as usize, *r.pick(&[ConnEnd::Eof, ConnEnd::Reset, ConnEnd::Hang])),
        7 => {
            x.chunk = *r.pick(&[1, 3]);
            x.gap = *r.pick(&[10 * US, MS, 300 * MS]);
        }
        8 => x.net = *r.pick(&[ReplyNet::Hang, ReplyNet::Reset, ReplyNet::Eof]),
        9 => x.body = Body::Raw(Blob::Rep("y".into(), 11_000_000)),
        10 => x.delay = *r.pick(&[0, 29 * SEC, 30 * SEC, 31 * SEC, 100 * SEC]),
        11 => {
            if let Body::Token { refresh, .. } = &mut x.body {
                *refresh = *r.pick(&[RtMode::Null, RtMode::Number, RtMode::Absent]);
            }
        }
        _ => (),
    }
    x
}

pub fn c18_prov(b: &mut B) {
    let limit = 400 * SEC;
    let p = W { accts: (1, 3), ..calm() };
    let tr = b.r.chance(1, 2);
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        tweak_times(r, c);
        if tr {
            c.transient = Some("N4".into());
        }
    });
    for n in &ns {
        let v: Vec<Reply> = (0..10).map(|i| if i == 0 && b.r.chance(2, 3) { ok_code(&mut b.r, &[2, 100, 1 << 33, u64::MAX]) } else { odd_reply(&mut b.r) }).collect();
        b.plan(n, v);
        let v: Vec<ConnFault> = (0..10).map(|_| if b.r.chance(1, 4) { conn_fault(&mut b.r) } else { ConnFault::Ok }).collect();
        b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(2, 8) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(3 * SEC + b.r.below(300 * SEC));
        match b.r.below(5) {
            0 => b.cli(at, Cmd::Refresh(a, false)),
            1 => b.auth(at, &a).0,
            2 => b.cli(at, Cmd::Status),
            3 => b.cli(at, Cmd::Dump("d".into())),
            _ => b.show(at, &a),
        };
    }
    ending(b, &ns, limit);
}

fn call_faults(b: &mut B, k: u64) {
    use libc::*;
    for _ in 0..k {
        let (call, errs): (&str, &[i32]) = *b.r.pick(&[
            ("accept", &[ECONNABORTED, EMFILE, ENFILE, ENOMEM, EINTR, EPROTO][..]),
            ("read", &[EINTR, ECONNRESET, EIO][..]),
            ("recv", &[EINTR, ECONNRESET, ETIMEDOUT][..]),
            ("write", &[EINTR, EPIPE, ENOBUFS][..]),
            ("send", &[EINTR, EPIPE, ECONNRESET, ENOBUFS][..]),
            ("poll", &[EINTR][..]),
            ("spawn", &[EAGAIN, ENOMEM, EMFILE][..]),
            ("pipe", &[EMFILE, ENFILE][..]),
            ("socket", &[EMFILE, ENFILE, ENOBUFS][..]),
            ("connect", &[EINTR, EADDRNOTAVAIL, ENETUNREACH][..]),
            ("open", &[EMFILE, ENFILE, EINTR][..]),
            ("getrandom", &[EINTR][..]),
        ]);
        let n = match b.r.below(3) {
            0 => 1 + b.r.below(4),
            1 => 1 + b.r.below(20),
            _ => 1 + b.r.below(120),
        };
        let what = match b.r.below(8) {
            0 if ["read", "recv", "write", "send"].contains(&call) => FaultKind::Short(1 + b.r.below(3) as usize),
            1 => FaultKind::Delay(*b.r.pick(&[MS, 300 * MS, 3 * SEC])),
            2 => {
                b.ph().faults.push(Fault { call: "futex".into(), n, what: FaultKind::Spurious });
                continue;
            }
            _ => FaultKind::Err(*b.r.pick(errs)),
        };
        b.ph().faults.push(Fault { call: call.into(), n, what });
    }
}

pub fn c18_calls(b: &mut B) {
    let limit = *b.r.pick(&[120 * SEC, 300 * SEC]);
    let p = W { accts: (1, 3), life: &[100, 130, 3600], ..w() };
    let (ns, _, c0) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    let k = b.r.range(1, 8);
    call_faults(b, k);
    for _ in 0..b.r.range(2, 12) {
        let a = b.r.pick(&ns).clone();
        let at = b.moment(&ns, limit * 2 / 3);
        match b.r.below(8) {
            0 => b.cli(at, Cmd::Refresh(a, true)),
            1 => b.auth(at, &a).0,
            2 => b.cli(at, Cmd::Status),
            3 => b.cli(at, Cmd::Dump("d".into())),
            4 => reload(b, at, c0),
            5 => b.cli(at, Cmd::Revoke(a)),
            6 => b.cli(at, Cmd::Restore(Blob::Dump("d".into(), Mutate::None))),
            _ => b.show(at, &a),
        };
    }
    // the closing requests come after the faults: counts are small
    ending(b, &ns, limit);
}

pub fn c18_extremes(b: &mut B) {
    let limit = *b.r.pick(&[300 * SEC, 300 * SEC, 1500 * SEC]);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| {
        c.t.before = Some(*r.pick(&[1, 90, 86_400 * 365, u32::MAX as u64, 1 << 40]));
        c.t.at_least = Some(*r.pick(&[1, 5400, 86_400 * 365, u32::MAX as u64, 1 << 40]));
        c.t.retry = Some(*r.pick(&[1, 40, 86_400 * 365, u32::MAX as u64, 1 << 40]));
        c.notify_interval = Some(*r.pick(&[1, 900, 86_400 * 365, u32::MAX as u64, 1 << 40]));
    });
    let mut x = c.clone();
    x.t.before = Some(1);
    x.t.at_least = Some(1 << 41);
    let c1 = b.conf(x);
    long_plans(b, &ns, &[0, 1, 100, 1 << 31, 1 << 33, 1 << 50, u64::MAX], 6);
    b.ph().boot0 = *b.r.pick(&[0, 1, SEC, 100 * SEC, 400 * 86400 * SEC]);
    if b.r.chance(1, 2) {
        let ws = *b.r.pick(&[1_000_000_000i64, 3_000_000_000, 6_000_000_000, -1_600_000_000]) * SEC as i64;
        b.ph().wall_shift = ws;
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(2, 8) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(2 * SEC + b.r.below(limit));
        match b.r.below(8) {
            0 => { let v = *b.r.pick(&[-1_000_000_000i64, 1_000_000_000, 4_000_000_000]) * SEC as i64; b.op(at, OpKind::Wall(v)) },
            1 => { let v = *b.r.pick(&[SEC, HOUR, 1000 * 24 * HOUR]); b.op(at, OpKind::Suspend(v)) },
            2 => reload(b, at, c1),
            3 => reload(b, at, c0),
            4 => b.cli(at, Cmd::Dump("d".into())),
            5 => b.cli(at, Cmd::Restore(Blob::Dump("d".into(), Mutate::None))),
            6 => b.cli(at, Cmd::Status),
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    ending(b, &ns, limit);
}

pub fn c18_all(b: &mut B) {
    let limit = *b.r.pick(&[120 * SEC, 400 * SEC]);
    let ns = swarm(
        b,
        &W {
            revoke: 4,
            reload_same: 2,
            reload_free: 2,
            reload_sec: 3,
            reload_bad: 2,
            restore: 3,
            prev_code: 2,
            err: 2,
            badcode: 2,
            net: 2,
            suspend: 2,
            wall: 2,
            slow_cmds: true,
            accts: (1, 4),
            ops: (8, 30),
            limit: &[200 * SEC, 600 * SEC],
            life: &[0, 1, 60, 100, 130, 3600],
            ..w()
        },
    );
    let _ = limit;
    let limit = b.ph().limit + 60 * SEC;
    b.ph().limit = limit;
    let k = b.r.below(5);
    call_faults(b, k);
    ending(b, &ns, limit);
}

/// the system refuses a thread, or the socket pair with which a child process is awaited (known findings)
pub fn c18_resources(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    // the known findings go by what the server says as it dies
    b.ph().mode = Mode::Server { daemon: false, verbose: 1, dash_c: true };
    auth_all(b, &ns);
    let n = 4 + b.r.below(8);
    let (c, n, e) = if b.r.chance(1, 4) { ("socketpair", 1, libc::EMFILE) } else { ("thread", n, libc::EAGAIN) };
    b.ph().faults.push(Fault { call: c.into(), n, what: FaultKind::Err(e) });
    for _ in 0..6 {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(3 * SEC + b.r.below(20 * SEC));
        b.cli(at, Cmd::Refresh(a, false));
    }
    ending(b, &ns, limit);
}

// ------------------------------------------------------------------------ C19

fn probe(b: &mut B, ns: &[String], limit: u64, c0: usize) {
    for _ in 0..b.r.range(6, 20) {
        let a = b.r.pick(ns).clone();
        let at = if b.r.chance(1, 2) { window(b, &a) } else { Trig::At(SEC / 2 + b.r.below(limit)) };
        match b.r.below(10) {
            0 => b.cli(at, Cmd::Refresh(a, true)),
            1 => b.cli(at, Cmd::Revoke(a)),
            2 => reload(b, at, c0),
            3 => b.cli(at, Cmd::Dump("d".into())),
            4 | 5 => b.cli(at, Cmd::Status),
            6 => b.cli(at, Cmd::Info),
            7 => b.auth(at, &a).0,
            8 => b.cli(at, Cmd::Restore(Blob::Dump("d".into(), Mutate::None))),
            _ => b.show(at, &a),
        };
    }
}

pub fn c19_slow(b: &mut B) {
    let limit = *b.r.pick(&[120 * SEC, 400 * SEC]);
    let tls = b.r.chance(1, 3);
    let p = W { accts: (2, 4), life: &[91, 100, 130, 3600], ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |r, c| {
        tweak_times(r, c);
        if tls {
            https_conf(r, c)
        }
        c.notify_interval = Some(*r.pick(&[2, 10, 60]));
    });
    // slow, stalled, unreachable providers
    for n in &ns {
        let bad = b.r.below(10);
        for x in b.c.plans.get_mut(n).unwrap().iter_mut() {
            if b.r.below(10) < bad {
                match b.r.below(4) {
                    0 => x.net = ReplyNet::Hang,
                    1 => x.delay = *b.r.pick(&[5 * SEC, 20 * SEC, 29 * SEC]),
                    2 => {
                        x.chunk = 20;
                        x.gap = *b.r.pick(&[100 * MS, SEC, 3 * SEC]);
                    }
                    _ => x.net = ReplyNet::Cut(b.r.below(200) as usize, ConnEnd::Hang),
                }
            }
        }
        let v: Vec<ConnFault> = (0..16)
            .map(|_| if b.r.below(10) < bad / 2 { *b.r.pick(&[ConnFault::Blackhole, ConnFault::DnsSlow(20 * SEC), ConnFault::Refuse, ConnFault::Blackhole]) } else { ConnFault::Ok })
            .collect();
        b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
    }
    // stalled browsers
    for _ in 0..b.r.range(0, 5) {
        let span = if b.r.chance(1, 2) { 3 * SEC } else { limit / 2 };
        let at = Trig::At(SEC / 4 + b.r.below(span));
        let full = http_junk(&mut b.r);
        let cut = b.r.below(30) as usize;
        let https = tls && b.r.chance(3, 4);
        let mut o = ConnOpts::default();
        match b.r.below(3) {
            0 => {
                o.cut = Some(cut);
                o.end = Some(ConnEnd::Hang);
            }
            1 => {
                o.chunk = 1;
                o.gap = 5 * SEC;
            }
            _ => {
                o.cut = Some(0);
                o.end = Some(ConnEnd::Hang);
            }
        }
        raw(b, at, https, full, o);
    }
    auth_all(b, &ns);
    probe(b, &ns, limit * 3 / 4, c0);
    closing(b, &ns, limit);
}

pub fn c19_cmds(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 600 * SEC]);
    let p = W { accts: (2, 4), life: &[91, 100, 130, 3600], connf: 150, perm: 60, ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |r, c| {
        tweak_times(r, c);
        c.transient = Some("N4".into());
        c.notify_interval = Some(*r.pick(&[2, 10, 60]));
        c.t.retry = Some(*r.pick(&[1, 3]));
    });
    // providers that go away for good, so that transient_error_if_cmd is run
    for n in &ns {
        if b.r.chance(1, 2) {
            let h = AcctSpec::basic(n).tok_host();
            let d = b.r.below(60 * SEC);
            let st = *b.r.pick(&[NetState::DnsFail, NetState::Refuse, NetState::Unreach]);
            b.op(Trig::TRep(n.clone(), 1, d), OpKind::Net(h, st));
        }
    }
    for k in ["N1", "N2", "N3", "N4"] {
        let mut v = vec![];
        for _ in 0..20 {
            v.push(ProcSpec {
                dur: *b.r.pick(&[MS, 5 * SEC, 25 * SEC, 29 * SEC, 300 * SEC, u64::MAX]),
                exit: *b.r.pick(&[0, 0, 0, 1]),
                spawn_err: *b.r.pick(&[0, 0, 0, 0, libc::EAGAIN]),
                ..Default::default()
            });
        }
        b.c.procs.insert(k.into(), v);
    }
    auth_all(b, &ns);
    probe(b, &ns, limit * 3 / 4, c0);
    for n in &ns {
        if b.r.chance(1, 3) {
            let at = Trig::At(b.r.below(limit));
            b.browse(at, n, Redirect::Error("server_error".into()));
        }
    }
    closing(b, &ns, limit);
}

/// a local client that connects and says nothing more (known finding)
pub fn c19_cli(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    auth_all(b, &ns);
    let cut = b.r.below(5) as usize;
    b.op(
        Trig::At(10 * SEC),
        OpKind::Cli { cmd: Cmd::Status, conn: ConnOpts { cut: Some(cut), end: Some(ConnEnd::Hang), ..Default::default() } },
    );
    for n in &ns {
        b.show(Trig::At(15 * SEC), n);
    }
}

// ------------------------------------------------------------------------ C20

pub fn c20_sizes(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        for _ in 0..b.r.range(1, 4) {
            let d = b.r.below(10 * SEC);
            big_request(b, Trig::Op(s, d), n, false);
        }
        let d = 12 * SEC + b.r.below(3 * SEC);
        redirect(b, Trig::Op(s, d), n, Which::Latest, Redirect::Code, vec![]);
    }
    closing(b, &ns, limit);
}

fn big_request(b: &mut B, at: Trig, n: &str, https: bool) {
    let sz = match b.r.below(8) {
        0 => 16384 - b.r.below(300),
        1 => 16384 + b.r.below(300),
        2 => 24_000 + b.r.below(3000),
        3 => 60_000,
        4 => 200_000,
        5 => 1_500_000,
        6 => b.r.below(14_000),
        _ => 26_000 + b.r.below(10_000),
    };
    let mut conn = ConnOpts::default();
    if b.r.chance(1, 3) && sz < 100_000 {
        conn.chunk = *b.r.pick(&[100, 1460, 8192, 16384]);
        conn.gap = *b.r.pick(&[0, 100 * US, 5 * MS]);
    }
    match b.r.below(10) {
        7 => {
            // short lines to just below the limit, and then a long one
            let k = b.r.range(9000, 16_300);
            let v = vec![Blob::s("GET / HTTP/1.1\r\nHost: localhost\r\n"), Blob::Rep("X: y\r\n".into(), k / 6), Blob::s("Y: "), Blob::Rep("A".into(), sz), Blob::s("\r\n\r\n")];
            raw(b, at, https, Blob::Cat(v), conn);
        }
        8 => {
            // a request line just below the limit, and then a long header
            let k = b.r.range(9000, 16_350);
            let v = vec![Blob::s("GET /?x="), Blob::Rep("A".into(), k), Blob::s(" HTTP/1.1\r\n"), Blob::Rep("B".into(), sz), Blob::s("\r\n\r\n")];
            raw(b, at, https, Blob::Cat(v), conn);
        }
        9 => {
            // lines none of which exceeds the limit
            let k = *b.r.pick(&[1000, 5000, 8190, 12_000, 16_000, 16_370]);
            let line = format!("X: {}\r\n", "a".repeat(k as usize));
            let v = vec![Blob::s("GET / HTTP/1.1\r\nHost: localhost\r\n"), Blob::Rep(line, sz / k + 1), Blob::s("\r\n")];
            raw(b, at, https, Blob::Cat(v), conn);
        }
        0 => {
            // one endless line
            let data = Blob::Cat(vec![Blob::s("GET /?state=x&code="), Blob::Rep("A".into(), sz)]);
            raw(b, at, https, data, conn);
        }
        1 => {
            let data = Blob::Cat(vec![Blob::s("GET / HTTP/1.1\r\nHost: localhost\r\nX: "), Blob::Rep("A".into(), sz)]);
            raw(b, at, https, data, conn);
        }
        2 => {
            let data = Blob::Cat(vec![Blob::s("GET / HTTP/1.1\r\nHost: localhost\r\n"), Blob::Rep("X: y\r\n".into(), sz / 6)]);
            raw(b, at, https, data, conn);
        }
        3 => {
            // no end at all, no newline
            let data = Blob::Rep((*b.r.pick(&["A", " ", "\t", "\0", ":", "\u{e9}"])).into(), sz);
            raw(b, at, https, data, conn);
        }
        4 => {
            // continuation lines
            let data = Blob::Cat(vec![Blob::s("GET / HTTP/1.1\r\nHost: localhost\r\nX: a\r\n"), Blob::Rep(" b\r\n".into(), sz / 4)]);
            raw(b, at, https, data, conn);
        }
        5 => {
            // the genuine redirect, padded
            let m = UrlMut::ExtraHeader(Blob::Cat(vec![Blob::s("X: "), Blob::Rep("A".into(), sz), Blob::s("\r\n")]));
            b.op(at, OpKind::Browser { acct: n.into(), which: Which::Latest, what: Redirect::Code, muts: vec![m], conn });
        }
        _ => {
            let m = UrlMut::ExtraHeader(Blob::Cat(vec![Blob::Rep("X-Y: abcdef\r\n".into(), sz / 13)]));
            b.op(at, OpKind::Browser { acct: n.into(), which: Which::Latest, what: Redirect::Code, muts: vec![m], conn });
        }
    }
}

pub fn c20_packets(b: &mut B) {
    let limit = 120 * SEC;
    let p = W { accts: (1, 2), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    for n in &ns {
        let s = b.show(Trig::At(SEC), n);
        for _ in 0..b.r.range(1, 3) {
            let sz = *b.r.pick(&[100, 3000, 14_000, 17_000, 30_000]);
            let conn = ConnOpts { chunk: *b.r.pick(&[1, 13, 100, 1000]), gap: *b.r.pick(&[10 * US, 100 * US, MS]), ..Default::default() };
            let d = b.r.below(5 * SEC);
            if b.r.chance(1, 2) {
                let m = UrlMut::ExtraHeader(Blob::Cat(vec![Blob::Rep("X-Y: abcdef\r\n".into(), sz / 13)]));
                b.op(Trig::Op(s, d), OpKind::Browser { acct: n.clone(), which: Which::Latest, what: Redirect::Code, muts: vec![m], conn });
            } else {
                let data = Blob::Cat(vec![Blob::s("GET / HTTP/1.1\r\nHost: localhost\r\nX: "), Blob::Rep("A".into(), sz)]);
                raw(b, Trig::Op(s, d), false, data, conn);
            }
        }
    }
    closing(b, &ns, limit);
}

pub fn c20_tls(b: &mut B) {
    let limit = 60 * SEC;
    let p = W { accts: (1, 1), life: &[3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, https_conf);
    let s = b.show(Trig::At(SEC), &ns[0]);
    for _ in 0..2 {
        let d = b.r.below(5 * SEC);
        big_request(b, Trig::Op(s, d), &ns[0], true);
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C21

pub fn c21_flows(b: &mut B) {
    let slow = b.r.chance(1, 3);
    swarm(
        b,
        &W {
            revoke: 2,
            reload_same: 1,
            reload_free: 1,
            reload_sec: 2,
            restore: 1,
            err: 1,
            badcode: 1,
            prev_code: 1,
            perm: 120,
            trans: 120,
            connf: 100,
            no_rt: 60,
            slow_cmds: slow,
            accts: (1, 3),
            life: &[60, 100, 130, 3600],
            ops: (6, 20),
            ..w()
        },
    );
    let v = b.r.below(4) as u8;
    if let Mode::Server { verbose, .. } = &mut b.ph().mode {
        *verbose = v.max(2);
    }
}

pub fn c21_failures(b: &mut B) {
    let limit = 400 * SEC;
    let p = W { accts: (1, 3), ..w() };
    let tr = b.r.chance(1, 2);
    let err = b.r.chance(1, 2);
    let (ns, _, _) = base(b, &p, limit, |_, c| {
        if tr {
            c.transient = Some("N4".into());
        }
        if err {
            c.error = None;
        }
        if b_false() {
            c.event = None
        }
        c.t.retry = Some(2);
    });
    for n in &ns {
        let v: Vec<Reply> = (0..10)
            .map(|i| {
                if i == 0 {
                    ok_code(&mut b.r, &[60, 100])
                } else {
                    match b.r.below(3) {
                        0 => perm(&mut b.r),
                        1 => trans(&mut b.r),
                        _ => ok(&mut b.r, &[60, 100]),
                    }
                }
            })
            .collect();
        b.plan(n, v);
        let v: Vec<ConnFault> = (0..20).map(|_| if b.r.chance(1, 2) { conn_fault_fast(&mut b.r) } else { ConnFault::Ok }).collect();
        b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
    }
    b.ph().mode = Mode::Server { daemon: b_false(), verbose: 3, dash_c: true };
    auth_all(b, &ns);
    for _ in 0..b.r.range(3, 10) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(3 * SEC + b.r.below(300 * SEC));
        match b.r.below(5) {
            0 => b.cli(at, Cmd::Refresh(a, true)),
            1 => b.auth(at, &a).0,
            2 => b.cli(at, Cmd::Status),
            3 => b.cli(at, Cmd::Info),
            _ => b.show(at, &a),
        };
    }
    closing(b, &ns, limit);
}
fn b_false() -> bool {
    false
}

pub fn c21_https(b: &mut B) {
    c06_https(b);
    if let Mode::Server { verbose, .. } = &mut b.ph().mode {
        *verbose = 3;
    }
}

pub fn c21_odd(b: &mut B) {
    // requests that fail in odd ways while secrets are about
    let limit = 120 * SEC;
    let p = W { accts: (2, 3), life: &[100, 3600], ..calm() };
    let (ns, _, c0) = base(b, &p, limit, |_, _| ());
    b.ph().mode = Mode::Server { daemon: b.r.chance(1, 3), verbose: 3, dash_c: false };
    auth_all(b, &ns);
    for _ in 0..b.r.range(3, 10) {
        let a = b.r.pick(&ns).clone();
        let at = Trig::At(3 * SEC + b.r.below(60 * SEC));
        match b.r.below(7) {
            0 => b.cli(at, Cmd::Raw(Blob::s("show:withurl nope"))),
            1 => b.cli(at, Cmd::Raw(Blob::s("status:x"))),
            2 => b.cli(at, Cmd::Restore(Blob::Dump("d".into(), Mutate::Truncate(30)))),
            3 => b.cli(at, Cmd::Dump("d".into())),
            4 => reload(b, at, c0),
            5 => redirect(b, at, &a, Which::Latest, Redirect::SameCode, vec![]),
            _ => b.op(at, OpKind::Cli { cmd: Cmd::Show(a, true), conn: ConnOpts { no_wait: true, ..Default::default() } }),
        };
    }
    let k = b.r.below(4);
    call_faults(b, k);
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C22

fn run_mode(r: &mut Rng) -> Mode {
    Mode::Server { daemon: r.chance(1, 2), verbose: r.below(3) as u8, dash_c: r.chance(1, 2) }
}

pub fn c22_restart(b: &mut B) {
    let ns = names(&mut b.r, 1);
    let c = base_conf(&mut b.r, &ns);
    let c0 = b.conf(c);
    cmds(b, false);
    for life in 0..b.r.range(2, 3) {
        let limit = 20 * SEC;
        b.server(c0, limit);
        let m = run_mode(&mut b.r);
        let si = if life == 0 { b.r.pick(&[SockInit::Carry, SockInit::Absent, SockInit::Stale]).clone() } else { SockInit::Carry };
        let p = b.ph();
        p.mode = m;
        p.sock = si;
        b.show(Trig::At(3 * SEC), "a");
        b.cli(Trig::At(4 * SEC), Cmd::Status);
        match b.r.below(4) {
            0 => {
                let at = Trig::At(b.r.below(10 * SEC));
                b.op(at, OpKind::Crash);
            }
            1 => {
                // dies while starting
                let at = Trig::At(b.r.below(3 * MS));
                b.op(at, OpKind::Crash);
            }
            2 => {
                let at = Trig::At(6 * SEC + b.r.below(5 * SEC));
                b.op(at, OpKind::Term);
            }
            _ => {
                b.cli(Trig::At(10 * SEC), Cmd::Shutdown);
            }
        }
    }
}

pub fn c22_second(b: &mut B) {
    let ns = names(&mut b.r, 1);
    let c = base_conf(&mut b.r, &ns);
    let c0 = b.conf(c);
    b.server(c0, 30 * SEC);
    let m = run_mode(&mut b.r);
    let slow = b.r.chance(1, 3);
    let script = Script { reply: Blob::s("ok:"), delay: *b.r.pick(&[0, 3 * SEC]), ..Default::default() };
    let p = b.ph();
    p.mode = m;
    p.sock = SockInit::Live;
    p.script = Some(script);
    let _ = slow;
}

pub fn c22_long(b: &mut B) {
    let limit = *b.r.pick(&[7 * HOUR, 20 * HOUR, 40 * HOUR]);
    let p = W { accts: (1, 2), life: &[3600, 86_400], ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, c| c.t.at_least = Some(20_000));
    long_plans(b, &ns, &[86_400], 4);
    let m = run_mode(&mut b.r);
    b.ph().mode = m;
    if b.r.chance(1, 2) {
        auth_all(b, &ns);
    }
    for _ in 0..b.r.below(3) {
        let at = Trig::At(b.r.below(limit));
        match b.r.below(3) {
            0 => b.op(at, OpKind::Suspend(3 * HOUR)),
            1 => b.op(at, OpKind::Wall(-86_400 * SEC as i64)),
            _ => b.cli(at, Cmd::Status),
        };
    }
    closing(b, &ns, limit);
}

pub fn c22_stop(b: &mut B) {
    // shutdown in the middle of everything
    let limit = 100 * SEC;
    let p = W { accts: (1, 3), life: &[95, 3600], ..w() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    let m = run_mode(&mut b.r);
    b.ph().mode = m;
    if b.r.chance(1, 3) {
        b.ph().sock = SockInit::Stale;
    }
    for n in &ns {
        let at = Trig::At(SEC + b.r.below(2 * SEC));
        b.auth(at, n);
    }
    let a = b.r.pick(&ns).clone();
    let at = window(b, &a);
    b.cli(at, Cmd::Shutdown);
    b.cli(Trig::At(60 * SEC), Cmd::Shutdown);
}

// ------------------------------------------------------------------------ C23

fn info_text(r: &mut Rng) -> Blob {
    let p = |r: &mut Rng| if r.chance(1, 5) { "none".to_string() } else { r.range(1, 65536).to_string() };
    let key = if r.chance(1, 2) { r#","https_pub_key":"SHA256:abcd""# } else { "" };
    Blob::s(&format!(r#"{{"http_port":"{}","https_port":"{}"{key}}}"#, p(r), p(r)))
}

fn client(b: &mut B, mut script: Script) {
    let acct = *b.r.pick(&["a", "b"]);
    let args: Vec<String> = match b.r.below(13) {
        12 => {
            let mut v: Vec<String> = vec!["info".into()];
            if b.r.chance(1, 2) {
                v.extend(["-c".into(), b.c.conf_arg()]);
            }
            if b.r.chance(1, 2) {
                v.push("-j".into());
            }
            if b.r.chance(1, 2) {
                script.reply = info_text(&mut b.r);
            }
            v
        }
        0..=2 => vec!["show".into(), acct.into()],
        3 => vec!["show".into(), "-u".into(), acct.into()],
        4 => vec!["refresh".into(), acct.into()],
        5 => vec!["revoke".into(), acct.into()],
        6 => vec!["reload".into()],
        7 => vec!["status".into()],
        8 => vec!["dump".into()],
        9 => vec!["restore".into()],
        10 => vec!["shutdown".into()],
        _ => vec!["refresh".into(), "-u".into(), acct.into()],
    };
    client_args(b, args, script)
}

/// Command lines with unusual account names, flags in unusual places, and ones that are no command line of pizauth's.
fn odd_args(r: &mut Rng) -> Vec<String> {
    let acct = r.pick(&["a", "b", "a b", " a", "a:b", "", "ünï", "a\nb", "withurl a", "officesmtp", "*", "%61"]).to_string();
    let cmd = *r.pick(&["show", "show", "refresh", "refresh", "revoke"]);
    let mut v: Vec<String> = vec![cmd.into()];
    match r.below(12) {
        0..=3 => v.push(acct),
        4 if cmd != "revoke" => v.extend([acct, "-u".into()]),
        5 if cmd != "revoke" => v.extend(["-vuv".into(), acct]),
        6 => v.extend([r.pick(&["-v", "-vvvv", "--verbose"]).to_string(), acct]),
        7 => v.extend(["--".into(), r.pick(&["-u", "-h", "a", "--"]).to_string()]),
        8 => v.extend(r.pick(&[vec![], vec!["a", "b"], vec!["-x", "a"], vec!["--url", "a"], vec!["-u"], vec!["a", "-u", "b"]]).iter().map(|x| x.to_string())),
        9 => v = vec![r.pick(&["dump", "reload", "restore", "shutdown", "status", "info"]).to_string(), r.pick(&["a", "-u", "-x", "--all"]).to_string()],
        10 => v = r.pick(&[vec!["Show", "a"], vec!["", "a"], vec!["showtoken", "a"], vec!["revoke", "-u", "a"], vec!["--", "show", "a"], vec!["help"], vec!["-h"], vec!["status:"]]).iter().map(|x| x.to_string()).collect(),
        _ => v = vec![r.pick(&["dump", "reload", "restore", "status"]).to_string(), r.pick(&["-v", "-vv", "--"]).to_string()],
    }
    v
}

/// The command lines: what is asked for is what they say.
pub fn c23_lines(b: &mut B) {
    let args = odd_args(&mut b.r);
    let reply = if b.r.chance(1, 2) { b.r.pick(&[Blob::s("access_token:AT_0123456789"), Blob::s("ok:"), Blob::s("ok:a: No access token"), Blob::s("scheduled:")]).clone() } else { reply_text(&mut b.r) };
    client_args(b, args, Script { reply, ..Default::default() });
}

/// A dump of any size comes to `restore` in pieces of any size, and goes to the server whole.
pub fn c23_restores(b: &mut B) {
    let reply = b.r.pick(&[Blob::s("ok:"), Blob::s("ok:"), Blob::s("ok:"), Blob::s("error:no"), Blob::Empty]).clone();
    client_args(b, vec!["restore".into()], Script { reply, ..Default::default() });
    let n = *b.r.pick(&[1u64, 7, 31, 1000, 4096, 8192, 8193, 20_000, 65_537, 200_000]) as usize;
    let text: String = (0..n.min(97)).map(|i| (b' ' + (i * 31 % 90) as u8) as char).collect();
    b.ph().stdin = match b.r.below(4) {
        0 => Blob::Cat(vec![Blob::Hex("0a0d00ff".into()), Blob::Rep(text, n as u64 / 97 + 1)]),
        1 => Blob::Cat(vec![Blob::Rep(text, n as u64 / 97 + 1), Blob::Hex("c3".into())]),
        _ => Blob::Rep(text, n as u64 / 97 + 1),
    };
    for _ in 0..b.r.below(6) {
        let n = 1 + b.r.below(8);
        let what = match b.r.below(5) {
            0 => FaultKind::Err(libc::EINTR),
            _ => FaultKind::Short(*b.r.pick(&[1, 2, 100, 1000, 5000])),
        };
        b.ph().faults.push(Fault { call: "stdin".into(), n, what });
    }
}
fn client_args(b: &mut B, args: Vec<String>, script: Script) {
    let ns = names(&mut b.r, 2);
    let c = base_conf(&mut b.r, &ns);
    let c0 = b.conf(c);
    b.server(c0, 120 * SEC);
    let stdin = match args[0].as_str() {
        "restore" => b.r.pick(&[Blob::s("dumpdata"), Blob::Rep("\u{1}x".into(), 5000), Blob::Empty, Blob::Hex("00ff00fe".into())]).clone(),
        _ => Blob::Empty,
    };
    let live = b.r.chance(12, 13);
    let other = b.r.pick(&[SockInit::Absent, SockInit::Stale]).clone();
    let p = b.ph();
    p.mode = Mode::Client { args };
    p.sock = if live { SockInit::Live } else { other };
    p.stdin = stdin;
    p.script = Some(script);
}

fn reply_text(r: &mut Rng) -> Blob {
    match r.below(24) {
        0 => Blob::s("ok:"),
        1 => Blob::s("ok:a: No access token\nb: Active (obtained x; expires y)"),
        2 | 3 => Blob::s("access_token:AT_abc"),
        4 => Blob::Cat(vec![Blob::s("access_token:"), Blob::Rep("tok".into(), *r.pick(&[1, 100, 3000, 50_000]))]),
        5 => Blob::s("error:nope"),
        6 => Blob::s("pending:http://x.test/?a=b"),
        7 => Blob::s("scheduled:"),
        8 => Blob::s("access_token:"),
        9 => Blob::s("error:"),
        10 => Blob::s("pending:"),
        11 => Blob::Empty,
        12 => Blob::s("o"),
        13 => Blob::s("ok"),
        14 => Blob::s("access_token"),
        15 => Blob::s("garbage:x"),
        16 => Blob::Cat(vec![Blob::s("access_token:"), Blob::Hex("fffe80".into())]),
        17 => Blob::s("ok:x"),
        18 => Blob::s("access_token:with:colons:in it"),
        19 => Blob::s("scheduled:x"),
        20 => Blob::s("error:multi\nline"),
        21 => Blob::s("OK:"),
        22 => Blob::s(":"),
        _ => Blob::Hex((0..r.below(30)).map(|_| format!("{:02x}", r.below(256))).collect()),
    }
}

pub fn c23_replies(b: &mut B) {
    let reply = reply_text(&mut b.r);
    let mut s = Script { reply, delay: *b.r.pick(&[0, MS, SEC]), ..Default::default() };
    if b.r.chance(1, 3) {
        s.chunk = *b.r.pick(&[1, 3, 10]);
        s.gap = *b.r.pick(&[0, MS, 300 * MS]);
    }
    client(b, s);
}

pub fn c23_breaks(b: &mut B) {
    let reply = if b.r.chance(1, 2) { b.r.pick(&[Blob::s("access_token:AT_0123456789"), Blob::s("ok:"), Blob::s("ok:a: No access token"), Blob::s("scheduled:")]).clone() } else { reply_text(&mut b.r) };
    let len = reply.bytes(&Default::default()).len() as u64;
    let mut s = Script { reply, end: *b.r.pick(&[ConnEnd::Eof, ConnEnd::Reset, ConnEnd::Hang]), ..Default::default() };
    match b.r.below(6) {
        0 => s.connect_err = Some(*b.r.pick(&[libc::ECONNREFUSED, libc::ENOENT, libc::EACCES, libc::EAGAIN])),
        1 => s.close_after = Some(b.r.below(12) as usize),
        2 | 3 => s.cut = Some(b.r.below(len + 1) as usize),
        _ => (),
    }
    if b.r.chance(1, 3) {
        s.chunk = *b.r.pick(&[1, 3, 10]);
        s.gap = *b.r.pick(&[0, MS, 300 * MS]);
    }
    client(b, s);
}

pub fn c23_faults(b: &mut B) {
    let reply = b.r.pick(&[Blob::s("access_token:AT_0123456789"), Blob::s("ok:"), Blob::s("ok:a: No access token"), Blob::s("scheduled:"), Blob::s("error:x"), Blob::Rep("D".into(), 30_000)]).clone();
    let s = Script { reply, ..Default::default() };
    use libc::*;
    if b.r.chance(1, 4) {
        // a full disk, or a reader that went away, where the output goes
        let (args, reply) = match b.r.below(4) {
            0 => (vec!["show", "a"], Blob::s("access_token:AT_0123456789")),
            1 => (vec!["status"], Blob::s("ok:a: No access token\nb: No access token")),
            _ => (vec!["dump"], b.r.pick(&[Blob::Rep("D".into(), 30_000), Blob::s("short dump"), Blob::s("two\nlines"), Blob::Rep("D\n".into(), 3000)]).clone()),
        };
        client_args(b, args.iter().map(|x| x.to_string()).collect(), Script { reply, ..s });
        let what = match b.r.below(4) {
            0 => FaultKind::Short(1 + b.r.below(3) as usize),
            1 => FaultKind::Err(EINTR),
            _ => FaultKind::Err(*b.r.pick(&[ENOSPC, EPIPE, EIO])),
        };
        let n = 1 + b.r.below(2);
        b.ph().faults.push(Fault { call: "stdout".into(), n, what });
        return;
    }
    client(b, s);
    for _ in 0..b.r.range(1, 3) {
        let (call, errs): (&str, &[i32]) = *b.r.pick(&[
            ("read", &[EINTR, ECONNRESET, EIO][..]),
            ("recv", &[EINTR, ECONNRESET][..]),
            ("write", &[EINTR, EPIPE, ECONNRESET][..]),
            ("send", &[EINTR, EPIPE, ECONNRESET][..]),
            ("connect", &[EINTR, EAGAIN, ECONNREFUSED][..]),
            ("socket", &[EMFILE, ENFILE][..]),
            ("stdin", &[EINTR, EIO][..]),
            ("stdout", &[EINTR, ENOSPC, EPIPE, EIO][..]),
            ("open", &[EMFILE, EACCES][..]),
        ]);
        let what = if ["read", "recv", "write", "send", "stdin", "stdout"].contains(&call) && b.r.chance(1, 2) {
            FaultKind::Short(1 + b.r.below(3) as usize)
        } else {
            FaultKind::Err(*b.r.pick(errs))
        };
        let n = 1 + b.r.below(3);
        b.ph().faults.push(Fault { call: call.into(), n, what });
    }
}

// ------------------------------------------------------------------------ C24

fn clock_base(b: &mut B) -> (Vec<String>, u64) {
    let limit = *b.r.pick(&[300 * SEC, HOUR, 4 * HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        settings(r, c);
        c.notify_interval = Some(*r.pick(&[5, 30, 300, 900]));
    });
    long_plans(b, &ns, &[30, 100, 200, 600, 3600, 7200], 8);
    for n in &ns {
        if b.r.chance(4, 5) {
            let at = Trig::At(SEC / 2 + b.r.below(5 * SEC));
            b.auth(at, n);
        } else {
            let at = Trig::At(SEC / 2 + b.r.below(5 * SEC));
            b.show(at, n);
        }
        if b.r.chance(1, 3) {
            let v: Vec<ConnFault> = (0..10).map(|i| if i > 0 && b.r.chance(1, 2) { conn_fault_fast(&mut b.r) } else { ConnFault::Ok }).collect();
            b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
        }
    }
    (ns, limit)
}

fn jumps(b: &mut B, ns: &[String], limit: u64, k: u64, wall: bool, susp: bool) {
    for _ in 0..k {
        let a = b.r.pick(ns).clone();
        let at = if b.r.chance(1, 3) { window(b, &a) } else { Trig::At(b.r.below(limit)) };
        let id = if wall && (!susp || b.r.chance(1, 2)) {
            let d = *b.r.pick(&[-86_400i64, -7200, -3600, -100, -1, 1, 100, 3600, 7200, 86_400, 1_000_000, 500_000_000, -500_000_000]);
            b.op(at, OpKind::Wall(d * SEC as i64))
        } else {
            let d = *b.r.pick(&[SEC, 30 * SEC, 100 * SEC, 600 * SEC, 3500 * SEC, 2 * HOUR, 30 * HOUR]);
            b.op(at, OpKind::Suspend(d))
        };
        for _ in 0..b.r.below(3) {
            let d = match b.r.below(3) {
                0 => b.r.below(50 * MS),
                1 => b.r.below(3 * SEC),
                _ => b.r.below(45 * SEC),
            };
            let a = b.r.pick(ns).clone();
            if b.r.chance(3, 4) {
                b.show(Trig::Op(id, d), &a);
            } else {
                b.cli(Trig::Op(id, d), Cmd::Status);
            }
        }
    }
}

pub fn c24_wall(b: &mut B) {
    let (ns, limit) = clock_base(b);
    let k = b.r.range(1, 5);
    jumps(b, &ns, limit, k, true, false);
    closing(b, &ns, limit);
}
pub fn c24_suspend(b: &mut B) {
    let (ns, limit) = clock_base(b);
    let k = b.r.range(1, 4);
    jumps(b, &ns, limit, k, false, true);
    closing(b, &ns, limit);
}
pub fn c24_both(b: &mut B) {
    let (ns, limit) = clock_base(b);
    let k = b.r.range(2, 6);
    jumps(b, &ns, limit, k, true, true);
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C25

pub fn c25_status(b: &mut B) {
    let susp = b.r.below(2);
    swarm(
        b,
        &W {
            status: 16,
            revoke: 2,
            reload_same: 1,
            reload_sec: 2,
            restore: 1,
            suspend: susp,
            wall: 1,
            life: &[1, 30, 60, 100, 3600, 1 << 33],
            accts: (1, 4),
            ops: (8, 20),
            ..w()
        },
    );
}

pub fn c25_accounts(b: &mut B) {
    let limit = 60 * SEC;
    let pool = ["a", "b", "ab", "B", "b:x", "b:y", "a ", "Z", "zz", "a b", "a1", "a-b", "é", "10", "9", "_", "a.b@c.d", "x", "y"];
    let n = b.r.range(2, 12) as usize;
    let mut ns: Vec<String> = vec![];
    while ns.len() < n {
        let x = b.r.pick(&pool).to_string();
        if !ns.contains(&x) {
            ns.push(x);
        }
    }
    let mut c = base_conf(&mut b.r, &["a".to_string()]);
    c.accts.clear();
    for (i, n) in ns.iter().enumerate() {
        let mut a = AcctSpec::basic(&format!("q{i}"));
        a.name = n.clone();
        c.accts.push(a);
    }
    let c0 = b.conf(c.clone());
    let mut d = c.clone();
    d.accts.reverse();
    d.accts.pop();
    let c1 = b.conf(d);
    let p = W { life: &[5, 3600], ..calm() };
    plans(b, &ns, &p);
    cmds(b, false);
    b.server(c0, limit);
    for n in &ns {
        match b.r.below(3) {
            0 => {
                b.auth(Trig::At(SEC), n);
            }
            1 => {
                b.show(Trig::At(SEC), n);
            }
            _ => (),
        }
    }
    for _ in 0..6 {
        let at = Trig::At(b.r.below(30 * SEC));
        b.cli(at, Cmd::Status);
    }
    if b.r.chance(1, 2) {
        let at = Trig::At(b.r.below(30 * SEC));
        reload(b, at, c1);
    }
    closing(b, &ns, limit);
}

pub fn c25_window(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 300 * SEC]);
    let p = W { accts: (2, 4), life: &[60, 95, 130, 3600], perm: 60, no_rt: 60, ..calm() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    if busy_stalls(b) {
        // all at the same time
        let at = SEC / 2 + b.r.below(SEC);
        for n in &ns {
            let d = b.r.below(50 * MS);
            b.auth(Trig::At(at + d), n);
        }
    } else {
        auth_all(b, &ns);
    }
    for _ in 0..b.r.range(6, 20) {
        let a = b.r.pick(&ns).clone();
        let at = window(b, &a);
        b.cli(at, Cmd::Status);
        if b.r.chance(1, 4) {
            let at = window(b, &a);
            let c = b.r.pick(&[Cmd::Refresh(a.clone(), false), Cmd::Revoke(a.clone()), Cmd::Show(a.clone(), true)]).clone();
            b.cli(at, c);
        }
    }
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C26

pub fn c26_failures(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 500 * SEC]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        c.notify_interval = Some(*r.pick(&[2, 20, 900]));
        c.t.at_least = Some(*r.pick(&[30, 5400]));
    });
    fail_flows(b, &ns, limit);
    closing(b, &ns, limit);
}

/// tokens that expire later than can be represented
pub fn far_expiries(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 300 * SEC]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        c.t.at_least = Some(*r.pick(&[u64::MAX, u64::MAX, u64::MAX - 1, 5400]));
        c.t.before = *r.pick(&[None, None, Some(u64::MAX), Some(1)]);
    });
    for n in &ns {
        let mut v = vec![];
        for _ in 0..6 {
            let far = b.r.chance(1, 2);
            v.push(if far { ok_code(&mut b.r, &[u64::MAX, u64::MAX - 1]) } else { ok_code(&mut b.r, &[30, 100, 3600]) });
        }
        b.plan(n, v);
    }
    auth_all(b, &ns);
    for _ in 0..b.r.range(2, 8) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 4) { window(b, &a) } else { Trig::At(3 * SEC + b.r.below(limit)) };
        match b.r.below(4) {
            0 => b.cli(at, Cmd::Status),
            1 => b.show(at, &a),
            2 => b.auth(at, &a).0,
            _ => b.cli(at, Cmd::Refresh(a, false)),
        };
    }
    closing(b, &ns, limit);
}

/// reasons for a failure that are no simple words
fn odd_reason(r: &mut Rng, max: usize) -> String {
    match r.below(6) {
        5 => "x".repeat(r.below(4) as usize) + &r.pick(&["é", "✓", "é✓\u{1F511}"]).repeat(max / 4),
        0 => "no\0pe".into(),
        1 => "line one\nline two\r\n".into(),
        2 => "'; exit 3; \"$HOME\" `x` %s {} é✓".into(),
        3 => "no such thing. ".repeat(max / 15),
        _ => "x\0".repeat(1 + r.below(3) as usize),
    }
}
fn odd_refusal(r: &mut Rng) -> Reply {
    let mut x = ok(r, &[3600]);
    let max = *r.pick(&[100, 20_000, 131_000, 140_000, 300_000]);
    let w = odd_reason(r, max);
    if r.chance(1, 2) {
        x.body = Body::OauthErr(w);
    } else {
        x.status = *r.pick(&[400, 500]);
        x.body = Body::Raw(if r.chance(1, 4) { Blob::Cat(vec![Blob::Hex("fffe00c3".into()), Blob::s(&w)]) } else { Blob::s(&w) });
    }
    (x.chunk, x.gap) = (0, 0);
    x
}

fn fail_flows(b: &mut B, ns: &[String], limit: u64) {
    for n in ns {
        let mut v = vec![];
        for _ in 0..6 {
            let mut x = if b.r.chance(1, 2) { perm(&mut b.r) } else { ok_code(&mut b.r, &[3600]) };
            if b.r.chance(1, 8) {
                x = odd_refusal(&mut b.r);
            }
            if b.r.chance(1, 6) {
                x.net = ReplyNet::CutBody(b.r.below(1000) as u16, *b.r.pick(&[ConnEnd::Eof, ConnEnd::Reset, ConnEnd::Hang]));
            }
            v.push(x);
        }
        b.plan(n, v);
        if b.r.chance(1, 4) {
            let k = b.r.range(5, 14) as usize;
            let v: Vec<ConnFault> = (0..k).map(|_| conn_fault_fast(&mut b.r)).collect();
            b.c.conns.insert(AcctSpec::basic(n).tok_host(), v);
        }
        let at = Trig::At(SEC / 2 + b.r.below(3 * SEC));
        let s = b.show(at, n);
        let d = b.r.below(5 * SEC);
        let what = match b.r.below(5) {
            0 if b.r.chance(1, 3) => Redirect::Error(odd_reason(&mut b.r, 2000)),
            0 => Redirect::Error((*b.r.pick(&["access_denied", "server_error", "x y", "\u{e9}"])).into()),
            1 => Redirect::BadCode,
            _ => Redirect::Code,
        };
        let id = redirect(b, Trig::Op(s, d), n, Which::Latest, what, vec![]);
        impatient(b, id, 4);
        let d = b.r.below(40 * SEC);
        if b.r.chance(2, 3) {
            b.show(Trig::Op(id, d), n);
        } else {
            b.auth(Trig::Op(id, d), n);
        }
        let _ = limit;
    }
}

pub fn c26_races(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 300 * SEC]);
    let p = W { accts: (1, 2), ..calm() };
    let (ns, c, c0) = base(b, &p, limit, |r, c| c.notify_interval = Some(*r.pick(&[1, 2, 20])));
    let mut x = c.clone();
    change_sec(&mut b.r, &mut x.accts[0], "2");
    let c1 = b.conf(x);
    fail_flows(b, &ns, limit);
    for n in &ns {
        for r in b.c.plans.get_mut(n).unwrap() {
            r.delay = *b.r.pick(&[20 * MS, 2 * SEC, 15 * SEC]);
        }
    }
    for _ in 0..b.r.range(1, 4) {
        let a = b.r.pick(&ns).clone();
        let at = window(b, &a);
        let id = match b.r.below(6) {
            0 | 1 => b.cli(at, Cmd::Refresh(a.clone(), true)),
            2 => b.cli(at, Cmd::Revoke(a.clone())),
            3 => reload(b, at, c1),
            4 => reload(b, at, c0),
            _ => b.show(at, &a),
        };
        if b.r.chance(1, 2) {
            let d = delay(&mut b.r);
            b.auth(Trig::Op(id, d), &a);
        }
    }
    closing(b, &ns, limit);
}

pub fn c26_restored(b: &mut B) {
    // an exchange about to fail, and a token restored meanwhile
    let limit = 150 * SEC;
    let p = W { accts: (1, 2), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, c| c.t.at_least = Some(3600));
    for n in &ns {
        let mut v = vec![ok_code(&mut b.r, &[3600])];
        for _ in 0..3 {
            let mut x = if b.r.chance(3, 4) { perm(&mut b.r) } else { ok_code(&mut b.r, &[3600]) };
            x.delay = *b.r.pick(&[20 * MS, 2 * SEC, 15 * SEC]);
            v.push(x);
        }
        b.plan(n, v);
    }
    auth_all(b, &ns);
    b.cli(Trig::At(20 * SEC), Cmd::Dump("d0".into()));
    for n in &ns {
        let at = Trig::At(22 * SEC + b.r.below(5 * SEC));
        let id = b.cli(at, Cmd::Revoke(n.clone()));
        let d = b.r.below(SEC);
        b.auth(Trig::Op(id, d), n);
        let d = match b.r.below(3) {
            0 => b.r.below(2 * MS),
            1 => b.r.below(60 * MS),
            _ => b.r.below(3 * SEC),
        };
        b.cli(Trig::TReq(n.clone(), 2, d), Cmd::Restore(Blob::Dump("d0".into(), Mutate::None)));
    }
    closing(b, &ns, limit);
}

pub fn c26_log(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |r, c| {
        c.error = None;
        c.notify_interval = Some(*r.pick(&[2, 20, 900]));
    });
    fail_flows(b, &ns, limit);
    let m = Mode::Server { daemon: b.r.chance(1, 2), verbose: b.r.below(4) as u8, dash_c: true };
    b.ph().mode = m;
    closing(b, &ns, limit);
}

// ------------------------------------------------------------------------ C27

const TAILS: &[&str] = &[
    "",
    " plain",
    " say \"hello\"",
    " a\\b",
    " \\",
    " \"\\\"",
    " // no comment",
    " ; exit 3 }",
    " $PIZAUTH_ACCOUNT '$x' `y`",
    " line one\n line two",
    " über ✓ 日本",
    " = none",
    " ends with a space ",
    "  two  spaces",
    "\n",
    "\t5m 7s",
];

fn any_conf(r: &mut Rng, c: &mut ConfSpec) {
    fancy(r, c);
    settings(r, c);
    for (x, k) in [(&mut c.notify, "N1"), (&mut c.error, "N2"), (&mut c.event, "N3"), (&mut c.transient, "N4")] {
        *x = if r.chance(1, 6) { None } else { Some(format!("{k}{}", r.pick(TAILS))) };
    }
    c.notify_interval = if r.chance(1, 4) { None } else { Some(*r.pick(&[1, 20, 60, 90, 120, 300, 3600])) };
    if r.chance(1, 3) {
        (c.http, c.https) = listens(r);
        redirects(r, c, true);
    }
    for a in &mut c.accts {
        match r.below(6) {
            0 => a.scopes = Some(vec!["a b".into(), "\"q\"".into(), "c\\d".into()]),
            1 => a.scopes = Some(vec!["x".into(), "x".into(), "".into()]),
            _ => (),
        }
        let n = slug(&a.name);
        if r.chance(1, 4) {
            a.secret = r.pick(&[None, Some(" x "), Some("a\"b\\"), Some("\\\\"), Some("p&q=r+s %41é"), Some("//")]).map(|x| format!("CSEC_{n}_zq{x}"));
        }
        if r.chance(1, 4) {
            a.client_id = format!("cl_{n}{}", r.pick(&[" ", "\"", "\\", "&x=1", "é", " // ", ";"]));
        }
        if r.chance(1, 4) {
            a.token_uri = format!("http://tok-{n}.test{}", r.pick(&["", "/", "/a/b", "/t?tenant=x%20y", "/t?a=1&b=2", ":8080/t"]));
        }
    }
}

/// soft faults while the file is read
fn read_faults(b: &mut B) {
    for n in 1..=6 {
        if b.r.chance(1, 2) {
            let what = if b.r.chance(1, 2) { FaultKind::Err(libc::EINTR) } else { FaultKind::Short(1 + b.r.below(60) as usize) };
            b.ph().faults.push(Fault { call: "conf".into(), n, what });
        }
    }
}

pub fn c27_meaning(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 400 * SEC, 1500 * SEC, 2 * HOUR]);
    let p = W { accts: (1, 3), ..calm() };
    let (ns, c, c0) = base(b, &p, limit, any_conf);
    b.c.configs[c0] = crate::layout::lay(&mut b.r, &c);
    long_plans(b, &ns, &[100, 200, 600, 1800, 3600], 6);
    let s = sched_nostall(&mut b.r);
    b.ph().sched = s;
    if b.r.chance(1, 3) {
        read_faults(b);
    }
    if c.transient.is_some() && b.r.chance(1, 2) {
        // something to run the command for
        for n in &ns {
            let mut x = vec![ConnFault::Ok];
            for _ in 0..b.r.range(6, 14) {
                x.push(conn_fault_fast(&mut b.r));
            }
            b.c.conns.insert(c.acct(n).map_or(String::new(), |a| a.tok_host()), x);
        }
    }
    for n in &ns {
        let at = Trig::At(SEC / 2 + b.r.below(10 * SEC));
        let s = b.show(at, n);
        match b.r.below(5) {
            0 => (),
            1 => {
                let d = b.r.below(limit / 2);
                b.browse(Trig::Op(s, d), n, Redirect::Error("x".into()));
            }
            _ => {
                let m = if b.r.chance(1, 2) { 10 * SEC } else { limit / 2 };
                let d = b.r.below(m);
                b.browse(Trig::Op(s, d), n, Redirect::Code);
            }
        }
    }
    let mut t = 15 * SEC;
    for i in 0..b.r.range(0, 3) {
        t += b.r.below(limit / 4);
        let mut x = c.clone();
        match b.r.below(4) {
            // nothing but the layout
            0 | 1 => (),
            2 => {
                let http = (x.http.clone(), x.https.clone());
                any_conf(&mut b.r, &mut x);
                (x.http, x.https) = http;
                redirects(&mut b.r, &mut x, true);
            }
            _ => change_free(&mut b.r, &mut x, &format!("\"{i}\\")),
        }
        let at = Trig::At(t);
        if b.r.chance(1, 3) {
            let bad = crate::layout::spoil(&mut b.r, &x);
            let bad = b.bad_conf(&bad);
            reload(b, at, bad);
        } else {
            let k = b.laid_conf(x);
            reload(b, at, k);
        }
        for n in &ns {
            if b.r.chance(1, 2) {
                let at = Trig::At(t + b.r.below(20 * SEC));
                if b.r.chance(1, 2) {
                    b.cli(at, Cmd::Refresh(n.clone(), true));
                } else {
                    b.auth(at, n);
                }
            }
        }
        t += 5 * SEC;
    }
    b.cli(Trig::At(14 * SEC), Cmd::Info);
    ending(b, &ns, limit);
}

/// texts that are no configuration, and files that cannot be read to the end
pub fn c27_refused(b: &mut B) {
    let limit = 80 * SEC;
    let p = W { accts: (1, 3), life: &[3600], ..calm() };
    let (ns, c, c0) = base(b, &p, limit, any_conf);
    b.c.configs[c0] = crate::layout::lay(&mut b.r, &c);
    if b.r.chance(1, 2) {
        // at the start
        let i = if b.r.chance(1, 6) {
            let t = crate::layout::lay(&mut b.r, &c);
            let n = 1 + b.r.below(2);
            let e = *b.r.pick(&[libc::EIO, libc::EISDIR, libc::EACCES]);
            b.ph().faults.push(Fault { call: "conf".into(), n, what: FaultKind::Err(e) });
            b.bad_conf(&t)
        } else {
            let t = crate::layout::spoil(&mut b.r, &c);
            b.bad_conf(&t)
        };
        b.ph().conf = i;
        b.c.notes.insert("bad-listen".into(), "0".into());
        b.ph().limit = 40 * SEC;
        listen_ops(b, &ns, SEC / 2, 5 * SEC);
        return;
    }
    auth_all(b, &ns[..1]);
    let mut t = 4 * SEC;
    let mut reads = 0;
    for _ in 0..*b.r.pick(&[1u64, 3, 6, 12]) {
        if b.r.chance(1, 6) && reads == 0 {
            // some read of the second file or a later one
            reads = 3 + b.r.below(6);
            let e = *b.r.pick(&[libc::EIO, libc::EACCES]);
            b.ph().faults.push(Fault { call: "conf".into(), n: reads, what: FaultKind::Err(e) });
        }
        let at = Trig::At(t);
        if b.r.chance(1, 5) {
            let k = b.laid_conf(c.clone());
            reload(b, at, k);
        } else {
            let x = crate::layout::spoil(&mut b.r, &c);
            let x = b.bad_conf(&x);
            reload(b, at, x);
        }
        t += 3 * SEC;
    }
    ending(b, &ns, limit);
}

// ------------------------------------------------------------------------ C29

/// names no account has, though some come close
fn no_such(r: &mut Rng, ns: &[String]) -> String {
    for _ in 0..20 {
        let n = r.pick(ns).clone();
        let x = match r.below(9) {
            0 => String::new(),
            1 => format!("{n} "),
            2 => format!(" {n}"),
            3 => format!("{n}x"),
            4 => n.chars().take(n.chars().count() - 1).collect(),
            5 => n.to_uppercase(),
            6 => format!("{n}:"),
            7 => format!("withurl {n}"),
            _ => (*r.pick(&["nosuch", "é", "%", "\n", "withurl"])).into(),
        };
        if !ns.contains(&x) {
            return x;
        }
    }
    "nosuch at all".into()
}

fn c29_more(b: &mut B, ns: &[String], limit: u64, k: u64) {
    for _ in 0..k {
        let at = if b.r.chance(1, 2) {
            let a = b.r.pick(ns).clone();
            window(b, &a)
        } else {
            Trig::At(SEC / 2 + b.r.below(limit * 3 / 4))
        };
        let n = if b.r.chance(1, 3) { no_such(&mut b.r, ns) } else { b.r.pick(ns).clone() };
        let w = b.r.chance(1, 2);
        let c = match b.r.below(9) {
            0 | 1 => Cmd::Show(n, w),
            2 | 3 | 4 => Cmd::Refresh(n, w),
            5 => Cmd::Revoke(n),
            6 => Cmd::Status,
            7 => Cmd::Info,
            _ => Cmd::Dump(format!("m{}", b.r.below(3))),
        };
        b.cli(at, c);
    }
}

pub fn c29_swarm(b: &mut B) {
    let ns = swarm(
        b,
        &W {
            show: 8,
            refresh: 12,
            revoke: 3,
            status: 2,
            reload_sec: 2,
            reload_free: 1,
            reload_bad: 1,
            restore: 1,
            accts: (1, 4),
            ops: (6, 18),
            limit: &[60 * SEC, 300 * SEC],
            ..w()
        },
    );
    let limit = b.ph().limit;
    let k = b.r.range(2, 8);
    c29_more(b, &ns, limit, k);
}

/// with accounts coming and going, down to none at all
pub fn c29_accounts(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC]);
    let p = W { accts: (1, 4), life: &[60, 130, 3600], perm: 40, no_rt: 60, ..calm() };
    let (ns, c, c0) = base(b, &p, limit, tweak_times);
    let mut x = c.clone();
    x.accts.clear();
    let none = b.conf(x);
    let mut x = c.clone();
    let k = b.r.below(x.accts.len() as u64) as usize;
    x.accts.remove(k);
    let less = b.conf(x);
    let mut x = c.clone();
    let mut e = AcctSpec::basic("zzz");
    e.scopes = None;
    x.accts.push(e);
    let more = b.conf(x);
    auth_all(b, &ns);
    for _ in 0..b.r.range(1, 4) {
        let at = SEC + b.r.below(limit * 3 / 4);
        let to = *b.r.pick(&[none, less, more, c0]);
        let id = reload(b, Trig::At(at), to);
        let n = if b.r.chance(1, 4) { "zzz".to_string() } else { b.r.pick(&ns).clone() };
        let d = delay(&mut b.r);
        let c = b.r.pick(&[Cmd::Show(n.clone(), true), Cmd::Refresh(n.clone(), false), Cmd::Revoke(n.clone()), Cmd::Status, Cmd::Info, Cmd::Dump("x".into())]).clone();
        b.cli(Trig::Op(id, d), c);
    }
    let k = b.r.range(3, 10);
    c29_more(b, &ns, limit, k);
    closing(b, &ns, limit);
}

/// tokens in all conditions, and refreshes asked for
pub fn c29_refresh(b: &mut B) {
    let limit = *b.r.pick(&[100 * SEC, 400 * SEC]);
    let p = W { accts: (1, 3), life: &[30, 100, 3600], perm: 60, trans: 100, connf: 60, no_rt: 60, ..w() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    for _ in 0..b.r.range(3, 12) {
        let a = b.r.pick(&ns).clone();
        let at = if b.r.chance(1, 2) { window(b, &a) } else { Trig::At(3 * SEC + b.r.below(limit * 3 / 4)) };
        let w = b.r.chance(1, 2);
        let id = b.cli(at, Cmd::Refresh(a.clone(), w));
        if b.r.chance(1, 3) {
            let d = delay(&mut b.r);
            b.show(Trig::Op(id, d), &a);
        }
    }
    closing(b, &ns, limit);
}

/// requests and replies in pieces
pub fn c29_pieces(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 200 * SEC]);
    let many = b.r.chance(1, 3);
    let p = W { accts: if many { (12, 40) } else { (1, 3) }, life: &[60, 600, 3600], ..calm() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    auth_all(b, &ns);
    let k = b.r.range(3, 10);
    c29_more(b, &ns, limit * 3 / 4, k);
    let label = format!("d{}", b.r.below(2));
    let at = 5 * SEC + b.r.below(limit / 3);
    let d = b.cli(Trig::At(at), Cmd::Dump(label.clone()));
    let gap = b.r.below(10 * SEC);
    let id = b.cli(Trig::Op(d, gap), Cmd::Restore(Blob::Dump(label, Mutate::None)));
    let gap = delay(&mut b.r);
    b.cli(Trig::Op(id, gap), Cmd::Status);
    closing(b, &ns, limit);
    for _ in 0..b.r.below(10) {
        let call = *b.r.pick(&["read", "recv", "write", "send"]);
        let n = 1 + b.r.below(30);
        let k = *b.r.pick(&[1, 2, 7, 100, 1000]);
        b.ph().faults.push(Fault { call: call.into(), n, what: FaultKind::Short(k) });
    }
    let mut ops = std::mem::take(&mut b.ph().ops);
    for o in &mut ops {
        if let OpKind::Cli { conn, .. } = &mut o.kind {
            if b.r.chance(1, 2) {
                conn.chunk = *b.r.pick(&[1, 3, 8, 64, 1000]);
                conn.gap = *b.r.pick(&[0, 20 * US, MS]);
            }
        }
    }
    b.ph().ops = ops;
}

// ------------------------------------------------------------------------ many accounts

/// more accounts than fit one hand
pub fn many_accounts(b: &mut B) {
    let limit = *b.r.pick(&[200 * SEC, 600 * SEC]);
    let p = W { accts: (8, 30), life: &[30, 100, 150, 300, 3600], perm: 20, trans: 40, connf: 20, no_rt: 40, ..calm() };
    let (ns, _, _) = base(b, &p, limit, tweak_times);
    for n in &ns {
        let over = if b.r.chance(1, 2) { 2 * SEC } else { limit / 3 };
        let at = Trig::At(SEC / 2 + b.r.below(over));
        match b.r.below(8) {
            0 => (),
            1 => _ = b.show(at, n),
            _ => _ = b.auth(at, n),
        }
    }
    for _ in 0..b.r.below(10) {
        let at = Trig::At(3 * SEC + b.r.below(limit * 3 / 4));
        let n = b.r.pick(&ns).clone();
        let c = match b.r.below(6) {
            0 => Cmd::Refresh(n, true),
            1 => Cmd::Revoke(n),
            2 => Cmd::Status,
            3 => Cmd::Dump("m".into()),
            4 => Cmd::Restore(Blob::Dump("m".into(), Mutate::None)),
            _ => Cmd::Show(n, false),
        };
        b.cli(at, c);
    }
    closing(b, &ns, limit);
}

/// accounts come by their tokens one after the other while a status is being made up
pub fn c25_rounds(b: &mut B) {
    rounds(b, |_| Cmd::Status)
}
pub fn c14_rounds(b: &mut B) {
    rounds(b, |k| Cmd::Dump(format!("r{k}")))
}
fn rounds(b: &mut B, cmd: impl Fn(u64) -> Cmd) {
    let rounds = b.r.range(3, 8);
    let limit = 30 * SEC * rounds + 80 * SEC;
    let p = W { accts: (3, 7), ..calm() };
    let (ns, _, _) = base(b, &p, limit, |_, _| ());
    let seed = b.r.next();
    let far = b.r.chance(1, 3);
    b.ph().sched = Sched {
        seed,
        sync_ppm: if far { 2000 } else { 0 },
        stall_ppm: if far { 500_000 } else { 0 },
        stall_max: *b.r.pick(&[SEC, 4 * SEC]),
        max_stalls: 60,
        arm_ppm: *b.r.pick(&[500_000, 1_000_000]),
        ..Default::default()
    };
    for n in &ns {
        let mut v = vec![];
        for _ in 0..rounds {
            let mut x = ok(&mut b.r, &[3600]);
            (x.delay, x.chunk, x.gap) = (b.r.below(4 * SEC), 0, 0);
            if b.r.chance(1, 6) {
                (x.status, x.body) = (400, Body::Raw(Blob::s("no")));
            }
            v.push(x);
        }
        b.plan(n, v);
    }
    for k in 0..rounds {
        let t = SEC + k * 30 * SEC;
        for n in &ns {
            if k > 0 && b.r.chance(3, 4) {
                b.cli(Trig::At(t + b.id_even() as u64), Cmd::Revoke(n.clone()));
            }
            b.show(Trig::At(t + 10 * SEC), n);
            let d = b.r.below(100 * MS);
            b.browse(Trig::At(t + 20 * SEC + d), n, Redirect::Code);
        }
        for _ in 0..b.r.range(1, 3) {
            let d = b.r.below(4 * SEC);
            b.cli(Trig::At(t + 20 * SEC + d), cmd(k));
        }
    }
    b.cli(Trig::At(limit - 5 * SEC), cmd(rounds));
}

// ------------------------------------------------------------------------ C30

/// servers with any of the commands missing and little to do
pub fn c30_quiet(b: &mut B) {
    let limit = *b.r.pick(&[60 * SEC, 300 * SEC, HOUR]);
    let p = W { accts: (1, 5), life: &[1, 60, 100, 3600, 1 << 33], no_rt: 100, perm: 100, trans: 100, connf: 100, ..calm() };
    let (ns, c, _) = base(b, &p, limit, |r, c| {
        settings(r, c);
        bare(r, c);
        c.notify_interval = Some(*r.pick(&[1, 30, 900, 1 << 40, u64::MAX]));
        if r.chance(1, 3) {
            c.transient = Some("N4".into());
        }
    });
    for a in &ns {
        let t = Trig::At(b.r.below(5 * SEC));
        match b.r.below(3) {
            0 => b.show(t, a),
            1 => b.auth(t, a).0,
            _ => 0,
        };
    }
    for _ in 0..b.r.below(4) {
        let t = Trig::At(5 * SEC + b.r.below(limit / 2));
        let a = b.r.pick(&ns).clone();
        match b.r.below(6) {
            0 => b.cli(t, Cmd::Revoke(a)),
            1 => b.cli(t, Cmd::Refresh(a, true)),
            2 => b.op(t, OpKind::Suspend(HOUR)),
            3 => b.op(t, OpKind::Wall(-3600 * SEC as i64)),
            _ => {
                let mut x = c.clone();
                settings(&mut b.r, &mut x);
                bare(&mut b.r, &mut x);
                let i = b.conf(x);
                reload(b, t, i)
            }
        };
    }
    ending(b, &ns, limit);
}

fn bare(r: &mut Rng, c: &mut ConfSpec) {
    if r.chance(1, 2) {
        c.notify = None;
    }
    if r.chance(1, 2) {
        c.event = None;
    }
    if r.chance(1, 2) {
        c.error = None;
    }
}
