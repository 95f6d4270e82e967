//! Oracles over recorded histories, beyond the reference model.
use crate::hist::*;
use crate::refm::*;
use crate::spec::*;
use crate::Viol;
use model::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn viol(kind: &str, q: Q, msg: String) -> Viol {
    Viol { kind: kind.into(), msg, q }
}
pub fn s(t: T) -> String {
    format!("{:.3}s", t as f64 / 1e9)
}

pub fn acct_names(h: &H) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for c in h.confs.iter().flatten() {
        for a in &c.accts {
            v.insert(a.name.clone());
        }
    }
    v.into_iter().collect()
}

pub fn phase_end(h: &H, phase: usize) -> (Q, T) {
    let (q0, _) = h.starts[phase];
    let q1 = h.starts.get(phase + 1).map_or(Q::MAX, |x| x.0);
    h.evs.iter().rev().find(|e| e.q >= q0 && e.q < q1).map_or((q0, 0), |e| (e.q, e.t))
}
/// the server ran to the end of the phase (was not crashed or stopped)
pub fn alive_end(h: &H, phase: usize) -> bool {
    let (q0, _) = h.starts[phase];
    let q1 = h.starts.get(phase + 1).map_or(Q::MAX, |x| x.0);
    h.ends.iter().any(|e| e.0 >= q0 && e.0 < q1 && ["limit", "idle", "busy"].contains(&e.2.as_str()))
}

/// total time by which stalls and delayed calls may have put threads off
pub fn stall_slack(h: &H) -> T {
    h.slack - BASE_SLACK
}

// -------------------------------------------------------------------------------------- barriers

#[derive(Clone, Debug)]
pub struct Barrier {
    pub acct: String,
    pub a: (Q, T),
    pub r: (Q, T),
    pub phase: usize,
    pub why: &'static str,
}

pub fn revoke_barriers(h: &H) -> Vec<Barrier> {
    let mut v = vec![];
    for o in h.ops.values() {
        if let Some(Cmd::Revoke(a)) = o.cmd() {
            if o.data == b"ok:" && o.rep.is_some() {
                v.push(Barrier { acct: a.clone(), a: o.acc.unwrap(), r: o.rep.unwrap(), phase: o.phase, why: "revoked" });
            }
        }
    }
    v.sort_by_key(|b| b.a.0);
    v
}

pub fn reload_barriers(h: &H) -> Vec<Barrier> {
    let mut v = vec![];
    for w in h.uses.windows(2) {
        if w[0].phase != w[1].phase {
            continue;
        }
        let (Some(c0), Some(c1)) = (h.spec(w[0].idx), h.spec(w[1].idx)) else { continue };
        for n in acct_names(h) {
            let ch = match (c0.acct(&n), c1.acct(&n)) {
                (Some(a), Some(b)) => !a.sec_eq(b),
                (Some(_), None) => true,
                _ => false,
            };
            if ch {
                v.push(Barrier { acct: n, a: (w[1].q0, w[1].t0), r: (w[1].q1, w[1].t1), phase: w[1].phase, why: "olddef" });
            }
        }
    }
    v
}

pub fn barrier_check(h: &H, bs: &[Barrier]) -> Vec<Viol> {
    let mut v = vec![];
    let events = h.confs.iter().flatten().all(|c| c.event.is_some());
    for b in bs {
        let (_, mut tend) = phase_end(h, b.phase);
        let mut qend = phase_end(h, b.phase).0;
        for o in h.ops.values() {
            if matches!(o.cmd(), Some(Cmd::Restore(_))) && o.phase == b.phase {
                if let Some(a) = o.acc {
                    if a.0 > b.a.0 && a.0 < qend {
                        qend = a.0;
                        tend = a.1;
                    }
                }
            }
        }
        let k = |x: &str| format!("{}-{x}", b.why);
        let old_at = |at: &str| h.req_of_at(at).and_then(|r| h.root_url(r)).map_or(false, |u| h.urls[u].q < b.a.0);
        for o in h.ops.values().filter(|o| o.phase == b.phase && o.answered()) {
            let (Some(a), Some(r)) = (o.acc, o.rep) else { continue };
            if a.0 < b.r.0 || r.0 > qend {
                continue;
            }
            let text = o.text();
            match o.cmd() {
                Some(Cmd::Show(n, _)) | Some(Cmd::Refresh(n, _)) if *n == b.acct => {
                    if let Some(x) = text.strip_prefix("access_token:") {
                        if old_at(x) {
                            v.push(viol(&k("shown"), r.0, format!("show printed {x}, obtained through an authorisation requested before {} (replied at {})", b.why, s(b.r.1))));
                        }
                    }
                    if let Some(u) = text.strip_prefix("pending:") {
                        if let Some(i) = h.url_ix.get(u) {
                            if h.urls[*i].q < b.a.0 {
                                v.push(viol(&k("url"), r.0, format!("an authorisation URL from before {} was given out again", b.why)));
                            }
                        }
                    }
                }
                Some(Cmd::Dump(_)) => {
                    if let Some(d) = decode_dump(&o.data) {
                        if let Some((_, TokDump::Active { at, .. })) = d.accounts.get(&b.acct) {
                            if old_at(at) {
                                v.push(viol(&k("dumped"), r.0, format!("dump contains {at}, which goes back to before {}", b.why)));
                            }
                        }
                    }
                }
                Some(Cmd::Status) => {
                    let p = format!("{}: ", b.acct);
                    let l = text.strip_prefix("ok:").and_then(|x| x.lines().find_map(|l| l.strip_prefix(&p)));
                    if let Some(l) = l {
                        if l.starts_with("Active") || l.starts_with("Access token expired") {
                            let any = h.reqs.iter().enumerate().any(|(i, q)| {
                                q.acct == b.acct
                                    && q.rep.map_or(false, |x| h.reps[x].at.is_some() && h.reps[x].q < r.0)
                                    && h.root_url(i).map_or(true, |u| h.urls[u].q > b.a.0)
                            });
                            if !any {
                                v.push(viol(&k("active"), r.0, format!("status reports {l:?} although no token was obtained since {}", b.why)));
                            }
                        } else if l.contains("pending") {
                            let asked = h.ops.values().any(|x| {
                                matches!(x.cmd(), Some(Cmd::Show(n, _)) | Some(Cmd::Refresh(n, _)) if *n == b.acct)
                                    && x.acc.map_or(false, |a| a.0 > b.a.0 && a.0 < r.0)
                            });
                            if !asked {
                                v.push(viol(&k("pending"), r.0, format!("status reports {l:?} although no authorisation was requested since {}", b.why)));
                            }
                        }
                    }
                }
                _ => (),
            }
        }
        for q in h.reqs.iter().filter(|q| q.phase == b.phase && q.q < qend) {
            let Some(tr) = h.tries.iter().find(|t| t.tr == q.tr) else { continue };
            if q.is_refresh() {
                let old = q
                    .get("refresh_token")
                    .and_then(|x| h.req_of_rt(x))
                    .filter(|r| h.reqs[*r].acct == b.acct)
                    .and_then(|r| h.root_url(r))
                    .map_or(false, |u| h.urls[u].q < b.a.0);
                if old && tr.t > h.by(b.r.1, 0) {
                    v.push(viol(&k("refreshed"), q.q, format!("a refresh begun at {} used a refresh token from before {} (replied at {})", s(tr.t), b.why, s(b.r.1))));
                }
            } else if q.is_code() {
                let c = q.get("code").unwrap_or("");
                if let (Some(u), Some(o)) = (h.url_of_code(c), h.op_of_code(c)) {
                    if h.urls[u].acct == b.acct && h.urls[u].q < b.a.0 && o.sent.map_or(false, |x| x.0 > b.r.0) {
                        v.push(viol(&k("exchanged"), q.q, format!("a code for an authorisation requested before {} was exchanged", b.why)));
                    }
                }
            }
        }
        for p in h.spawns.iter().filter(|p| p.phase == b.phase && p.acct == b.acct && p.q < qend && !p.url.is_empty()) {
            if let Some(i) = h.url_ix.get(&p.url) {
                if h.urls[*i].q < b.a.0 && p.t > h.by(b.r.1, 0) {
                    v.push(viol(&k("notified"), p.q, format!("the user was notified at {} of an authorisation from before {} (replied at {})", s(p.t), b.why, s(b.r.1))));
                }
            }
        }
        // announcements after this account's revocation event
        if b.why == "revoked" && events {
            let nth = bs.iter().filter(|x| x.acct == b.acct && x.phase == b.phase && x.a.0 <= b.a.0).count();
            // revocations that were not answered might have produced events too
            let unsure = h.ops.values().any(|o| {
                matches!(o.cmd(), Some(Cmd::Revoke(n)) if *n == b.acct) && o.phase == b.phase && o.data != b"ok:" && o.acc.is_some()
            });
            if !unsure {
                let evs: Vec<&SpawnR> =
                    h.spawns.iter().filter(|p| p.phase == b.phase && p.acct == b.acct && p.kind.starts_with("N3")).collect();
                if let Some(i) = evs.iter().enumerate().filter(|(_, p)| p.event == "token_revoked").nth(nth - 1).map(|x| x.0) {
                    for ev in ["token_new", "token_refreshed"] {
                        let mut seen = 0;
                        for p in &evs[i + 1..] {
                            if p.q > qend {
                                break;
                            }
                            if p.event == ev {
                                seen += 1;
                                let can = h
                                    .reqs
                                    .iter()
                                    .enumerate()
                                    .filter(|(j, r)| {
                                        r.acct == b.acct
                                            && r.is_code() == (ev == "token_new")
                                            && r.rep.map_or(false, |x| h.reps[x].at.is_some() && h.reps[x].q < p.q)
                                            && h.root_url(*j).map_or(true, |u| h.urls[u].q > b.a.0)
                                    })
                                    .count();
                                if seen > can {
                                    v.push(viol(&k("announced"), p.q, format!("{ev} was announced for a token from before {}", b.why)));
                                }
                            }
                        }
                    }
                }
            }
        }
        let _ = tend;
    }
    v
}

pub fn c01(h: &H) -> Vec<Viol> {
    barrier_check(h, &revoke_barriers(h))
}

// -------------------------------------------------------------------------------------- definitions

/// definitions of the account that may have been in force when the URL was made
pub fn defs_for_url<'x>(h: &'x H, u: usize) -> Vec<&'x AcctSpec> {
    let u = &h.urls[u];
    let q0 = h
        .ops
        .values()
        .filter(|o| matches!(o.cmd(), Some(Cmd::Show(n, _)) | Some(Cmd::Refresh(n, _)) if *n == u.acct))
        .filter_map(|o| o.acc.map(|a| (a.0, o)))
        .filter(|(a, o)| {
            *a < u.q && (u.via == "cli" && o.rep.map_or(false, |r| r.0 <= u.q && r.0 + 2 > u.q) || u.via != "cli" && o.rep.map_or(true, |r| r.1 + h.slack + 2 * SEC >= u.t))
        })
        .map(|x| x.0)
        .min()
        .unwrap_or(h.starts[u.phase].0);
    h.confs_in(q0, u.q).into_iter().filter_map(|c| c.acct(&u.acct)).collect()
}

/// where a token request is bound for, and what it carries, must be the definition's
fn req_fits(h: &H, r: &ReqR, a: &AcctSpec, u: &UrlR) -> Result<(), String> {
    let tu = url::Url::parse(&a.token_uri).map_err(|e| e.to_string())?;
    if r.host != tu.host_str().unwrap_or("") {
        return Err(format!("sent to host {} instead of {}", r.host, tu.host_str().unwrap_or("")));
    }
    let path = match tu.query() {
        Some(x) => format!("{}?{x}", tu.path()),
        None => tu.path().to_string(),
    };
    if r.path != path {
        return Err(format!("sent to path {} instead of {path}", r.path));
    }
    if r.get("client_id") != Some(a.client_id.as_str()) {
        return Err(format!("client_id {:?} instead of {}", r.get("client_id"), a.client_id));
    }
    if r.get("client_secret") != a.secret.as_deref() {
        return Err(format!("client_secret {:?} instead of {:?}", r.get("client_secret"), a.secret));
    }
    if r.is_code() {
        if r.get("redirect_uri") != Some(u.redirect.as_str()) {
            return Err(format!("redirect_uri {:?} instead of {}", r.get("redirect_uri"), u.redirect));
        }
        if r.get("refresh_token").is_some() {
            return Err("a refresh token in a code exchange".into());
        }
    } else {
        for k in ["code", "code_verifier"] {
            if r.get(k).is_some() {
                return Err(format!("{k} in a refresh"));
            }
        }
    }
    let _ = h;
    Ok(())
}

/// every token request goes where its authorisation's definition says, with its credentials
pub fn req_defs(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for (i, r) in h.reqs.iter().enumerate() {
        let Some(u) = h.root_url(i) else { continue };
        let defs = defs_for_url(h, u);
        if defs.is_empty() {
            continue;
        }
        let errs: Vec<String> = defs.iter().filter_map(|d| req_fits(h, r, d, &h.urls[u]).err()).collect();
        if errs.len() == defs.len() {
            v.push(viol(
                "wrong-request",
                r.q,
                format!("token request {} of account {} (grant {:?}): {}", r.n, r.acct, r.get("grant_type"), errs[0]),
            ));
        }
        // and belongs to the account that asked for it
        if h.urls[u].acct != r.acct && h.case.clients.get(r.get("client_id").unwrap_or("")) != Some(&h.urls[u].acct) {
            v.push(viol("wrong-request", r.q, format!("credentials of {} sent for {}", h.urls[u].acct, r.acct)));
        }
    }
    v
}

pub fn c02(h: &H) -> Vec<Viol> {
    let mut v = barrier_check(h, &reload_barriers(h));
    v.extend(req_defs(h));
    v
}

// -------------------------------------------------------------------------------------- reload

/// what a reload answers must be what its configuration deserves
pub fn reload_replies(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        if !matches!(o.cmd(), Some(Cmd::Reload)) || !o.answered() {
            continue;
        }
        let r = o.rep.unwrap();
        let last = h.reload_read.get(&o.id).map(|x| (x.1, x.2));
        let text = o.text();
        match last {
            None => {
                if text == "ok:" {
                    v.push(viol("reload-unread", r.0, "reload answered ok without reading the configuration".into()));
                }
                let a = o.acc.map_or(0, |a| a.0);
                let whole = matches!(&o.kind, OpKind::Cli { conn, .. } if conn.cut.is_none());
                let disturbed = h.evs.iter().any(|e| matches!(e.e, E::Fault { .. }) && e.q > a && e.q < r.0);
                if text.starts_with("error:") && whole && !disturbed {
                    v.push(viol("reload-unread", r.0, format!("reload answered {text:?} without looking at the configuration")));
                }
            }
            Some((idx, err)) => {
                let good = err == 0 && h.spec(idx).is_some();
                // an account whose redirects nobody would serve: not to be accepted, but there are
                // other ways to see to that than refusing the whole file
                let served = h.spec(h.case.phases[o.phase].conf).map_or(true, |c0| h.spec(idx).map_or(true, |c| c.accts.iter().all(|a| c0.serves(&a.redir()))));
                if good && served && text != "ok:" {
                    v.push(viol("reload-refused", r.0, format!("reload of a valid configuration answered {text:?}")));
                }
                if !good && !text.starts_with("error:") {
                    v.push(viol("reload-unreported", r.0, format!("reload of an unreadable or invalid configuration answered {text:?}")));
                }
            }
        }
    }
    v
}

/// commands run are those of a configuration then in force
pub fn cmd_texts(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for p in &h.spawns {
        let lo = p.t.saturating_sub(h.slack + if p.kind.starts_with("N3") { SEC } else { 0 });
        let mut ok = false;
        let mut want = vec![];
        let us: Vec<&ConfUse> = h.uses.iter().filter(|u| u.phase == p.phase).collect();
        for (i, u) in us.iter().enumerate() {
            let until = us.get(i + 1).map_or(T::MAX, |n| n.t1);
            if u.q0 > p.q || until < lo {
                continue;
            }
            if let Some(c) = h.spec(u.idx) {
                let t = match p.kind.as_bytes().get(..2) {
                    Some(b"N1") => &c.notify,
                    Some(b"N2") => &c.error,
                    Some(b"N3") => &c.event,
                    Some(b"N4") => &c.transient,
                    _ => &None,
                };
                want.push(t.clone());
                if t.as_deref() == Some(p.cmd.as_str()) {
                    ok = true;
                }
            }
        }
        if !ok && !want.is_empty() {
            v.push(viol("wrong-command", p.q, format!("ran {:?} at {}; configured then: {want:?}", p.cmd, s(p.t))));
        }
    }
    v
}

pub fn c03(h: &H) -> Vec<Viol> {
    let mut v = reload_replies(h);
    v.extend(cmd_texts(h));
    v
}

// -------------------------------------------------------------------------------------- versions

#[derive(Clone, Debug)]
pub struct V {
    pub at: String,
    pub rt: Option<String>,
    pub ob: (T, T),
    pub ex: (T, T),
    /// known to the server from here at the earliest / latest
    pub q: Q,
    pub t0: T,
    pub t1: T,
    pub q1: Q,
    pub phase: usize,
    pub req: Option<usize>,
    pub life: u64,
}

/// everything that may end or replace an account's state, as (earliest q, t)
pub fn disturbances(h: &H, acct: &str, phase: usize) -> Vec<(Q, T)> {
    let mut v = vec![];
    for o in h.ops.values().filter(|o| o.phase == phase) {
        if let Some(a) = o.acc {
            match o.cmd() {
                Some(Cmd::Revoke(n)) if n == acct => v.push(a),
                Some(Cmd::Restore(_)) => v.push(a),
                _ => (),
            }
        }
    }
    // a browser that reports an error while a code of the same request is being exchanged
    for o in h.ops.values().filter(|o| o.phase == phase) {
        if let (OpKind::Browser { acct: a, what: Redirect::Error(_), .. }, Some(c)) = (&o.kind, o.conn) {
            if a == acct {
                v.push(c);
            }
        }
    }
    for b in reload_barriers(h).into_iter().filter(|b| b.acct == acct && b.phase == phase) {
        v.push(b.a);
    }
    // a reload that was not answered may have taken effect
    for o in h.ops.values().filter(|o| o.phase == phase && matches!(o.cmd(), Some(Cmd::Reload)) && !o.answered()) {
        if let Some(a) = o.acc {
            v.push(a);
        }
    }
    for p in h.spawns.iter().filter(|p| p.phase == phase && p.acct == acct && p.event == "token_invalidated") {
        v.push((p.q, p.t.saturating_sub(h.slack)));
    }
    for u in h.urls.iter().filter(|u| u.acct == acct && u.phase == phase) {
        v.push((u.q, u.t.saturating_sub(h.slack)));
    }
    for r in h.reqs.iter().filter(|r| r.acct == acct && r.phase == phase && r.is_refresh()) {
        if let Some(i) = r.rep {
            if !matches!(h.class(r), Class::Token | Class::Trans) {
                v.push((h.reps[i].q, h.reps[i].t));
            }
        }
    }
    for p in h.spawns.iter().filter(|p| p.phase == phase && p.acct == acct && p.kind.starts_with("N4")) {
        // one that says that the error is transient leaves the token alone
        if p.err == 0 && p.end.is_some() && p.code == 0 && p.sig == 0 {
            continue;
        }
        v.push((p.q, p.t));
    }
    v.sort();
    v
}

/// token versions that were certainly installed (nothing interfered between request and reply)
pub fn versions(h: &H, acct: &str, certain: bool) -> Vec<V> {
    let mut v: Vec<V> = vec![];
    let mut dist: BTreeMap<usize, Vec<(Q, T)>> = BTreeMap::new();
    for (i, r) in h.reqs.iter().enumerate().filter(|(_, r)| r.acct == acct) {
        let c = h.class(r);
        if !(c == Class::Token || (!certain && c == Class::Any)) {
            continue;
        }
        let Some(x) = r.rep else { continue };
        let rep = &h.reps[x];
        let (Some(at), Some(e)) = (rep.at.clone(), rep.expires) else { continue };
        let Some(done) = r.done else { continue };
        if certain {
            let Some(u) = h.root_url(i) else { continue };
            // of several exchanges for one URL the first to succeed counts
            if r.is_code()
                && h.reqs.iter().enumerate().any(|(j, x)| {
                    j != i && x.is_code() && h.root_url(j) == Some(u) && x.rep.map_or(false, |k| h.reps[k].q < done.0) && h.class(x) != Class::Trans
                })
            {
                continue;
            }
            // for a refresh only what came after the token it started from matters
            let from = if r.is_refresh() {
                r.get("refresh_token").and_then(|x| h.req_of_rt(x)).and_then(|j| h.reqs[j].done).map_or(h.urls[u].q, |d| d.0)
            } else {
                h.urls[u].q
            };
            let from = from.max(h.urls[u].q).max(h.starts[r.phase].0);
            let dist = dist.entry(r.phase).or_insert_with(|| disturbances(h, acct, r.phase));
            if dist.iter().any(|d| d.0 > from && d.0 < done.0) {
                continue;
            }
            // the chain before it must have been undisturbed too
            if dist.iter().any(|d| d.0 > h.urls[u].q && d.0 < done.0) {
                continue;
            }
        }
        let rt = match &rep.plan.body {
            Body::Token { refresh: RtMode::New | RtMode::Same, .. } => rep.rt.clone(),
            Body::Token { refresh: RtMode::Absent, .. } if r.is_refresh() => r.get("refresh_token").map(|x| x.to_string()),
            _ => None,
        };
        let ob = (rep.t, susp(h, done.1, h.soon(done.1)));
        let n = e.checked_mul(SEC).filter(|n| *n < (1 << 61));
        let ex = match n {
            Some(n) => (ob.0 + n, ob.1 + n),
            None => (ob.0 + SEC, T::MAX / 2),
        };
        v.push(V { at, rt, ob, ex, q: rep.q, t0: rep.t, t1: done.1, q1: done.0, phase: r.phase, req: Some(i), life: e });
    }
    // restored ones
    for o in h.ops.values() {
        let Some(Cmd::Restore(b)) = o.cmd() else { continue };
        if o.data != b"ok:" {
            continue;
        }
        let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
        let bytes = b.bytes(&dumps_at(h, a.0));
        let Some(d) = decode_dump(&bytes) else { continue };
        let Some((ad, TokDump::Active { at, obtained, expiry, rt })) = d.accounts.get(acct) else { continue };
        let Some(sp) = h.conf_at(a.0).and_then(|c| c.acct(acct)) else { continue };
        if !ad.matches(sp) {
            continue;
        }
        if certain {
            // only when the account was surely empty: nothing at all happened to it in this life
            let touched = h.ops.values().any(|x| {
                x.phase == o.phase
                    && x.acc.map_or(false, |y| y.0 < a.0)
                    && matches!(x.cmd(), Some(Cmd::Show(..)) | Some(Cmd::Refresh(..)) | Some(Cmd::Restore(_)) | Some(Cmd::Reload))
            });
            if touched {
                continue;
            }
        }
        let offs = h.wall_offs(a.1, r.1);
        let conv = |x: std::time::SystemTime| {
            let ns = sys_ns(x);
            (
                (ns.saturating_sub(offs.1).max(0) as u64).saturating_sub(10 * MS),
                (ns.saturating_sub(offs.0).max(0) as u64).saturating_add(h.slack),
            )
        };
        let (ob, ex) = (conv(*obtained), conv(*expiry));
        v.push(V {
            at: at.clone(),
            rt: rt.clone(),
            ob,
            ex,
            q: a.0,
            t0: a.1,
            t1: r.1,
            q1: r.0,
            phase: o.phase,
            req: None,
            life: (sys_ns(*expiry).saturating_sub(sys_ns(*obtained)) / SEC as i64).max(0) as u64,
        });
    }
    v.sort_by_key(|x| x.q);
    v
}

pub fn dumps_at(h: &H, q: Q) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in h.evs {
        if e.q >= q {
            break;
        }
        if let E::DumpStored { label, data } = &e.e {
            m.insert(label.clone(), data.bytes(&Default::default()));
        }
    }
    m
}

fn lat_due(c: &ConfSpec, a: &AcctSpec, v: &V) -> T {
    let b = c.before(a).saturating_mul(SEC);
    let al = c.at_least(a).saturating_mul(SEC);
    v.ex.1.saturating_sub(b).min(v.ob.1.saturating_add(al))
}
fn early_due(c: &ConfSpec, a: &AcctSpec, v: &V) -> T {
    let b = c.before(a).saturating_mul(SEC);
    let al = c.at_least(a).saturating_mul(SEC);
    let x = if v.ex.0.saturating_sub(b) <= v.ob.0 {
        // lifetime within refresh_before_expiry
        v.ob.0.saturating_add(c.retry(a).saturating_mul(SEC)).max(v.ex.0.saturating_sub(b))
    } else {
        v.ex.0.saturating_sub(b)
    };
    x.min(v.ob.0.saturating_add(al))
}

/// refresh attempts of an account
pub fn refresh_tries<'x>(h: &'x H, acct: &str, kinds: &HashMap<u32, TryKind>) -> Vec<&'x TryR> {
    let hosts = |host: &str| -> Vec<&str> {
        let mut v: Vec<&str> = h
            .confs
            .iter()
            .flatten()
            .flat_map(|c| c.accts.iter())
            .filter(|a| a.tok_host() == host)
            .map(|a| a.name.as_str())
            .collect();
        v.sort();
        v.dedup();
        v
    };
    h.tries
        .iter()
        .filter(|t| match t.req {
            Some(r) => h.reqs[r].acct == acct && h.reqs[r].is_refresh(),
            None => matches!(kinds.get(&t.tr), Some(TryKind::Refresh)) && hosts(&t.host) == vec![acct],
        })
        .collect()
}
/// attempts that might have been refreshes of the account
pub fn maybe_refresh_tries<'x>(h: &'x H, acct: &str, kinds: &HashMap<u32, TryKind>) -> Vec<&'x TryR> {
    h.tries
        .iter()
        .filter(|t| match t.req {
            Some(r) => h.reqs[r].acct == acct && h.reqs[r].is_refresh(),
            None => {
                matches!(kinds.get(&t.tr), Some(TryKind::Refresh) | Some(TryKind::Unknown))
                    && h.confs.iter().flatten().flat_map(|c| c.accts.iter()).any(|a| a.name == acct && a.tok_host() == t.host)
            }
        })
        .collect()
}

/// later bound if the machine was suspended on the way
fn susp(h: &H, from: T, d: T) -> T {
    h.boot_lim(from, d)
}
fn suspended_in(h: &H, a: T, b: T) -> bool {
    h.suspends.iter().any(|(_, t, d)| *t <= b && t + d >= a)
}

/// Every token with a refresh token is refreshed by its time, and failed refreshes are retried.
pub fn deadlines(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let kinds = try_kinds(h);
    for acct in acct_names(h) {
        let vers = versions(h, &acct, true);
        let tries = maybe_refresh_tries(h, &acct, &kinds);
        let mut dist: BTreeMap<usize, Vec<(Q, T)>> = BTreeMap::new();
        for ver in vers.iter().filter(|x| x.rt.is_some()) {
            let (pq, pt) = phase_end(h, ver.phase);
            // when it may have ended
            let mut end = (pq, pt);
            for d in dist.entry(ver.phase).or_insert_with(|| disturbances(h, &acct, ver.phase)).iter().copied() {
                // the restore that installed it does not count
                if d.0 > ver.q1 && d.0 < end.0 {
                    end = (d.0, d.1.min(end.1));
                }
            }
            for r in h.reqs.iter().filter(|r| r.acct == acct) {
                if let Some(x) = r.rep {
                    if h.reps[x].at.is_some() && h.reps[x].q > ver.q1 && h.reps[x].q < end.0 {
                        end = (h.reps[x].q, h.reps[x].t);
                    }
                }
            }
            if let Some(x) = h.exits.iter().find(|x| x.0 > ver.q1) {
                if x.0 < end.0 {
                    end = (x.0, x.1);
                }
            }
            let mine: Vec<&&TryR> = tries.iter().filter(|t| t.phase == ver.phase && t.t >= ver.t0 && t.q <= end.0).collect();
            let us: Vec<&ConfUse> = h.uses.iter().filter(|u| u.phase == ver.phase).collect();
            for (i, u) in us.iter().enumerate() {
                let seg_end = us.get(i + 1).map_or(T::MAX, |n| n.t0);
                let Some(c) = h.spec(u.idx) else { continue };
                let Some(a) = c.acct(&acct) else { continue };
                if ver.life <= c.before(a) {
                    continue;
                }
                let due = lat_due(c, a, ver);
                let d = due.max(u.t1).max(ver.t1).saturating_add(h.slack);
                let d = susp(h, ver.t0, d);
                if d < end.1.min(seg_end) && !mine.iter().any(|t| t.t <= d) {
                    v.push(viol(
                        "late-refresh",
                        end.0,
                        format!(
                            "account {acct}: token {} obtained at {} and expiring at {} was not refreshed by {}",
                            ver.at,
                            s(ver.ob.1),
                            s(ver.ex.1),
                            s(d)
                        ),
                    ));
                }
                // retries
                for (k, t) in mine.iter().enumerate() {
                    let def = match t.req {
                        None => true,
                        Some(r) => h.class(&h.reqs[r]) == Class::Trans,
                    };
                    if !def || suspended_in(h, t.t, t.t + 31 * SEC) {
                        continue;
                    }
                    let next = mine.get(k + 1).map_or(T::MAX, |x| x.t);
                    let mut lim = t.t + 31 * SEC + c.retry(a) * SEC;
                    // while transient_error_if_cmd runs there are no further attempts
                    for p in h.spawns.iter().filter(|p| p.phase == ver.phase && p.acct == acct && p.kind.starts_with("N4")) {
                        if p.q > t.q && p.t <= lim.saturating_add(h.slack) {
                            if let Some(e) = p.end {
                                lim = lim.max(e.1);
                            }
                        }
                    }
                    let lim = lim.max(due).max(u.t1).saturating_add(h.slack);
                    let lim = susp(h, t.t, lim);
                    if t.t >= u.t0 && lim < end.1.min(seg_end) && next > lim {
                        v.push(viol(
                            "late-retry",
                            end.0,
                            format!("account {acct}: the refresh attempt at {} failed and was not repeated by {} (refresh_retry {} s)", s(t.t), s(lim), c.retry(a)),
                        ));
                        break;
                    }
                }
            }
        }
    }
    v
}

/// when did the user ask for a refresh, and until when may that show?
fn pokes(h: &H, acct: &str) -> Vec<(T, T)> {
    let mut v = vec![];
    for o in h.ops.values() {
        let Some(a) = o.acc else { continue };
        let p = match o.cmd() {
            Some(Cmd::Refresh(n, _)) if n == acct => !o.answered() || o.data == b"scheduled:",
            Some(Cmd::Show(n, _)) if n == acct => !o.answered() || o.text().contains("Refreshing initiated"),
            _ => false,
        };
        if p {
            v.push((a.1, o.rep.map_or(T::MAX / 2, |r| r.1) + h.slack));
        }
    }
    v
}

/// Unasked refreshes come neither before their time nor faster than refresh_retry.
pub fn no_hammering(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let kinds = try_kinds(h);
    for acct in acct_names(h) {
        let vers = versions(h, &acct, false);
        let tries = refresh_tries(h, &acct, &kinds);
        let maybe = maybe_refresh_tries(h, &acct, &kinds);
        let pk = pokes(h, &acct);
        for (k, t) in tries.iter().enumerate() {
            if pk.iter().any(|p| p.0 <= t.t && t.t <= p.1) {
                continue;
            }
            let rt = t.req.and_then(|r| h.reqs[r].get("refresh_token"));
            let mut cand: Vec<&V> = vers
                .iter()
                .filter(|x| x.phase == t.phase && x.q < t.q && rt.map_or(true, |y| x.rt.as_deref() == Some(y)))
                .collect();
            cand.reverse();
            if cand.is_empty() {
                continue;
            }
            // the newest one, and the one before while the newest may not have been noticed
            // (or was left aside, another having come while it was asked for)
            let aside = |x: &V| x.req.map_or(false, |i| vers.iter().any(|y| y.phase == x.phase && y.req != x.req && y.q1 > h.reqs[i].q && y.q < x.q1));
            let mut n = 1;
            while n < cand.len() && (cand[n - 1].t1 + h.slack >= t.t || aside(cand[n - 1])) {
                n += 1;
            }
            // after a new authorisation an older attempt may still be about to start
            let cs = h.confs_in(cand[n - 1].q, t.q);
            let defs: Vec<(&ConfSpec, &AcctSpec)> = cs.iter().filter_map(|c| c.acct(&acct).map(|a| (*c, a))).collect();
            if defs.is_empty() {
                continue;
            }
            let due = cand[..n].iter().flat_map(|x| defs.iter().map(move |(c, a)| early_due(c, a, x))).min().unwrap();
            // a failed attempt (also one the user asked for) is repeated after refresh_retry
            let again = maybe.iter().any(|p| p.phase == t.phase && p.q < t.q && p.q > cand[n - 1].q);
            if !again && t.t + MS < due {
                v.push(viol(
                    "early-refresh",
                    t.q,
                    format!("account {acct}: an unasked refresh began at {}, before {} (token obtained {} expiring {})", s(t.t), s(due), s(cand[0].ob.0), s(cand[0].ex.0)),
                ));
            }
            let retry = defs.iter().map(|(c, a)| c.retry(a)).min().unwrap() * SEC;
            if n == 1 {
                if let Some(p) = tries[..k].iter().rev().find(|p| p.phase == t.phase && p.q > cand[0].q1) {
                    if p.t + retry > t.t + MS {
                        v.push(viol(
                            "early-retry",
                            t.q,
                            format!("account {acct}: refresh attempts at {} and {} although refresh_retry is {}", s(p.t), s(t.t), s(retry)),
                        ));
                    }
                }
            }
        }
    }
    v
}

/// the earliest moment at which the server can have known the attempt's outcome
fn try_over(h: &H, t: &TryR) -> T {
    if let Some(r) = t.req {
        let r = &h.reqs[r];
        let c = r.closed.map_or(T::MAX, |x| x.1);
        return match r.rep {
            Some(i) => h.reps[i].t.min(c),
            None => c,
        };
    }
    match (t.dns, t.conn) {
        (Some((_, x, false)), _) => x,
        (_, Some((_, x, r))) if r != 0 => x,
        // reset while sending, or given up: not before the connection stood
        (_, Some((_, x, _))) => x,
        _ => t.t + 29 * SEC,
    }
}

pub fn one_at_a_time(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let kinds = try_kinds(h);
    for acct in acct_names(h) {
        let tries = refresh_tries(h, &acct, &kinds);
        let bars: Vec<Barrier> = revoke_barriers(h).into_iter().chain(reload_barriers(h)).filter(|b| b.acct == acct).collect();
        for (i, a) in tries.iter().enumerate() {
            for b in &tries[i + 1..] {
                if a.phase != b.phase {
                    break;
                }
                let over = try_over(h, a);
                if b.t >= over {
                    continue;
                }
                // a token dropped in between is another matter
                if bars.iter().any(|x| x.a.1 < b.t && x.r.1 + h.slack + 31 * SEC > a.t)
                    || h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Restore(_))) && o.acc.is_some())
                    || h.urls.iter().any(|u| u.acct == acct && u.t + h.slack > a.t && u.t < b.t)
                {
                    continue;
                }
                v.push(viol(
                    "overlapping-refresh",
                    b.q,
                    format!("account {acct}: a refresh began at {} while the one begun at {} was under way (until {})", s(b.t), s(a.t), s(over)),
                ));
            }
        }
        // each refresh sends the newest refresh token
        let vers = versions(h, &acct, true);
        for t in &tries {
            let Some(r) = t.req.map(|r| &h.reqs[r]) else { continue };
            let newest = vers.iter().filter(|x| x.phase == t.phase && x.t1 + h.slack < t.t).last();
            if let Some(n) = newest {
                let own = vers.iter().find(|x| x.rt.as_deref() == r.get("refresh_token"));
                if let (Some(want), Some(own)) = (&n.rt, own) {
                    if r.get("refresh_token") != Some(want.as_str()) && own.q < n.q {
                        v.push(viol(
                            "old-refresh-token",
                            r.q,
                            format!("account {acct}: refresh at {} sent {:?}; the newest refresh token is {want}", s(t.t), r.get("refresh_token")),
                        ));
                    }
                }
            }
        }
    }
    v
}

// -------------------------------------------------------------------------------------- show

pub fn show_replies(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let kinds = try_kinds(h);
    for o in h.ops.values() {
        let Some(Cmd::Show(acct, _)) = o.cmd() else { continue };
        if !o.answered() {
            continue;
        }
        let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
        let text = o.text();
        if let Some(x) = text.strip_prefix("access_token:") {
            match h.req_of_at(x) {
                None => {
                    // only a restored dump can bring a token we did not see issued
                    let restored = h.ops.values().any(|p| matches!(p.cmd(), Some(Cmd::Restore(_))) && p.acc.map_or(false, |y| y.0 < a.0));
                    if !restored {
                        v.push(viol("made-up-token", r.0, format!("show {acct} printed {x:?}, which no provider issued")));
                    }
                }
                Some(i) => {
                    let q = &h.reqs[i];
                    let rep = &h.reps[q.rep.unwrap()];
                    let same = q.acct == *acct || h.urls.iter().any(|u| u.acct == *acct && h.root_url(i).map_or(false, |k| h.urls[k].acct == u.acct));
                    if !same {
                        v.push(viol("foreign-token", r.0, format!("show {acct} printed {x}, issued to {}", q.acct)));
                    }
                    // expiry (tokens restored from a dump keep theirs)
                    if let Some(e) = rep.expires {
                        let walls = h.evs.iter().any(|e| matches!(e.e, E::Wall { .. })) || h.case.phases.iter().any(|p| p.wall_shift != 0);
                        let late = q.done.map_or(h.by(rep.t, 35 * SEC), |d| h.by(d.1, 0));
                        if e < (1 << 33) && late + e * SEC + MS < a.1 && !(walls && q.phase != o.phase) {
                            v.push(viol("expired-token", r.0, format!("show {acct} printed {x} at {}, which expired at {} or before", s(a.1), s(late + e * SEC))));
                        }
                    }
                }
            }
        } else if text.contains("Refreshing initiated") {
            let hosts: HashSet<String> = h.confs.iter().flatten().filter_map(|c| c.acct(acct)).map(|a| a.tok_host()).collect();
            let tried = h.tries.iter().any(|t| hosts.contains(&t.host) && t.t >= a.1 && t.t <= h.by(r.1, 0));
            let (pq, pt) = phase_end(h, o.phase);
            // a token without refresh token is dropped instead, and something else may interfere
            let other = h
                .ops
                .values()
                .any(|x| x.id != o.id && x.acc.map_or(false, |y| h.by(y.1, 0) >= a.1 && y.1 <= h.by(r.1, 0)) && !matches!(x.cmd(), Some(Cmd::Status) | Some(Cmd::Dump(_)) | Some(Cmd::Info)));
            let dropped = h.spawns.iter().any(|p| p.acct == *acct && p.event == "token_invalidated" && p.t + h.slack >= a.1);
            // another refresh may just have begun or ended by itself
            let near = h.tries.iter().any(|t| {
                hosts.contains(&t.host) && t.t < a.1 && h.by(t.t, 31 * SEC) > a.1
            });
            let nort = versions(h, acct, false).iter().filter(|x| x.q < r.0).last().map_or(true, |x| x.rt.is_none());
            if !tried && !dropped && !other && !near && !nort && pt > h.by(r.1, 0) {
                v.push(viol("no-refresh", pq, format!("show {acct} said at {} that a refresh was initiated, but none was", s(r.1))));
            }
        } else if text.contains("Refreshing is in progress") {
            let hosts: HashSet<String> = h.confs.iter().flatten().filter_map(|c| c.acct(acct)).map(|a| a.tok_host()).collect();
            let _ = &kinds;
            let busy = h.tries.iter().any(|t| {
                hosts.contains(&t.host) && t.t <= h.by(r.1, 0) && {
                    let end = match t.req {
                        Some(q) => h.reqs[q].closed.map_or(t.t + 31 * SEC, |x| x.1).min(t.t + 31 * SEC).max(h.reqs[q].done.map_or(0, |d| d.1)),
                        None => t.t + 31 * SEC,
                    };
                    h.by(end, 0) >= a.1
                }
            }) || h.spawns.iter().any(|p| p.kind.starts_with("N4") && p.acct == *acct && p.t <= r.1 && p.end.map_or(T::MAX, |e| h.by(e.1, 0)) >= a.1);
            if !busy {
                v.push(viol("no-refresh", r.0, format!("show {acct} said at {} that a refresh was in progress, but none was", s(r.1))));
            }
        }
    }
    v
}

// -------------------------------------------------------------------------------------- exchanges

/// Exchanges of followed redirects: retried over connection failures, given up late, told.
pub fn exchanges(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let kinds = try_kinds(h);
    for o in h.ops.values() {
        let OpKind::Browser { acct, what, .. } = &o.kind else { continue };
        if !matches!(what, Redirect::Code) || o.sent.is_none() {
            continue;
        }
        let ts: Vec<&TryR> = h.tries.iter().filter(|t| kinds.get(&t.tr) == Some(&TryKind::Exch(o.id))).collect();
        if ts.is_empty() {
            continue;
        }
        let (pq, pt) = phase_end(h, o.phase);
        let alive = alive_end(h, o.phase);
        let mut all_failed = true;
        for (i, t) in ts.iter().enumerate() {
            let class = match t.req {
                Some(r) => h.class(&h.reqs[r]),
                None => Class::Trans,
            };
            if class != Class::Trans {
                all_failed = false;
            }
            let next = ts.get(i + 1);
            if matches!(class, Class::Token | Class::Perm) {
                if let Some(n) = next {
                    let done = t.req.and_then(|r| h.reqs[r].done);
                    if done.map_or(false, |d| n.t > h.by(d.1, 0)) {
                        v.push(viol("exchange-repeated", n.q, format!("account {acct}: the code of redirect {} was sent again at {} although the provider had answered", o.id, s(n.t))));
                    }
                }
            }
            if class == Class::Trans {
                match next {
                    Some(n) => {
                        if n.t < t.t + 5 * SEC {
                            v.push(viol("exchange-hurried", n.q, format!("account {acct}: exchange attempts at {} and {}", s(t.t), s(n.t))));
                        }
                        let lim = susp(h, t.t, t.t + 31 * SEC + 8 * SEC + h.slack);
                        if n.t > lim && h.suspends.is_empty() {
                            v.push(viol("exchange-late", n.q, format!("account {acct}: exchange attempts at {} and only then {}", s(t.t), s(n.t))));
                        }
                    }
                    None => {
                        if i + 1 < 8 && alive && h.suspends.is_empty() && t.t + 39 * SEC + h.slack < pt {
                            v.push(viol("exchange-given-up", pq, format!("account {acct}: the exchange for redirect {} was given up after {} failed attempts", o.id, i + 1)));
                        }
                    }
                }
            }
        }
        if ts.len() > 12 {
            v.push(viol("exchange-endless", ts[12].q, format!("account {acct}: {} exchange attempts for redirect {}", ts.len(), o.id)));
        }
        let _ = all_failed;
    }
    v
}

// -------------------------------------------------------------------------------------- redirects

/// Nothing but a genuine redirect starts an exchange, and the exchange carries its code.
pub fn redirects(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for t in &h.tries {
        let Some(op) = t.br else { continue };
        let Some(o) = h.ops.get(&op) else { continue };
        match &o.kind {
            OpKind::Http { .. } => v.push(viol("bogus-exchange", t.q, format!("HTTP request {op} led to a connection to {}", t.host))),
            OpKind::Browser { muts, what, .. } => {
                if genuine(h, muts) == Some(false) || matches!(what, Redirect::NoCode | Redirect::Error(_)) {
                    v.push(viol("bogus-exchange", t.q, format!("redirect {op} ({what:?} {muts:?}) led to a connection to {}", t.host)));
                }
            }
            _ => (),
        }
    }
    for r in h.reqs.iter().filter(|r| r.is_code()) {
        let code = r.get("code").unwrap_or("");
        match h.op_of_code(code) {
            None => v.push(viol("bogus-exchange", r.q, format!("code {code:?} was sent to {}, but no redirect carried it", r.host))),
            Some(o) => {
                if let OpKind::Browser { muts, .. } = &o.kind {
                    if genuine(h, muts) == Some(false) {
                        v.push(viol("bogus-exchange", r.q, format!("code of the bogus redirect {} ({muts:?}) was exchanged", o.id)));
                    }
                }
                let bad = ["verifier mismatch", "redirect mismatch", "client mismatch"];
                if !r.valid && bad.contains(&r.why.as_str()) {
                    v.push(viol("wrong-request", r.q, format!("exchange of {code}: {}", r.why)));
                }
                if r.get("code_verifier").map_or(true, |x| x.is_empty()) {
                    v.push(viol("wrong-request", r.q, format!("exchange of {code} without PKCE verifier")));
                }
            }
        }
    }
    for r in &h.reqs {
        if !r.is_code() && !r.is_refresh() {
            v.push(viol("wrong-request", r.q, format!("token request with grant type {:?}", r.get("grant_type"))));
        }
        if !r.valid && (r.why.starts_with("method") || r.why == "content type") {
            v.push(viol("wrong-request", r.q, format!("token request: {}", r.why)));
        }
    }
    v
}

pub fn c06(h: &H) -> Vec<Viol> {
    let mut v = redirects(h);
    v.extend(req_defs(h));
    v
}

// -------------------------------------------------------------------------------------- URLs

pub fn urls(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let mut seen_state: HashMap<&str, usize> = HashMap::new();
    let mut seen_chal: HashMap<&str, usize> = HashMap::new();
    for (i, u) in h.urls.iter().enumerate() {
        let id = format!("{} URL #{i} ({})", u.acct, s(u.t));
        if let Some(j) = seen_state.insert(&u.state, i) {
            v.push(viol("state-reused", u.q, format!("{id} has the state of URL #{j}")));
        }
        if let Some(j) = seen_chal.insert(&u.challenge, i) {
            v.push(viol("challenge-reused", u.q, format!("{id} has the PKCE challenge of URL #{j}")));
        }
        for j in 0..i {
            // different, but only just: not random
            let p = &h.urls[j];
            let diff = p.state.bytes().zip(u.state.bytes()).filter(|(a, b)| a != b).count() + p.state.len().abs_diff(u.state.len());
            if p.state != u.state && diff < 4 {
                v.push(viol("state-guessable", u.q, format!("{id}: state {} after {}", u.state, p.state)));
            }
        }
        if u.state.len() < 10 {
            v.push(viol("state-guessable", u.q, format!("{id}: state {:?} is too short", u.state)));
        }
        let defs = defs_for_url(h, i);
        if defs.is_empty() {
            continue;
        }
        let errs: Vec<String> = defs.iter().filter_map(|d| url_fits_def(h, u, d).err()).collect();
        if errs.len() == defs.len() {
            v.push(viol("url-wrong", u.q, format!("{id}: {}", errs[0])));
        }
    }
    let mut vers: BTreeMap<&str, usize> = BTreeMap::new();
    for r in h.reqs.iter().filter(|r| r.is_code()) {
        let Some(x) = r.get("code_verifier") else { continue };
        let Some(u) = r.get("code").and_then(|c| h.url_of_code(c)) else { continue };
        if let Some(j) = vers.insert(x, u) {
            if j != u {
                v.push(viol("verifier-reused", r.q, "a PKCE verifier was used for two authorisations".into()));
            }
        }
        if x.len() < 43 || x.len() > 128 || !x.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b)) {
            v.push(viol("verifier-weak", r.q, format!("PKCE verifier {x:?} is not what RFC 7636 asks for")));
        }
        let distinct: BTreeSet<u8> = x.bytes().collect();
        if distinct.len() < 12 {
            v.push(viol("verifier-weak", r.q, format!("PKCE verifier {x:?} is not random")));
        }
        if x.contains(&h.urls[u].state) {
            v.push(viol("verifier-weak", r.q, "the PKCE verifier contains the state".into()));
        }
        if r.why == "verifier mismatch" {
            v.push(viol("verifier-mismatch", r.q, "the verifier sent does not match the challenge in the URL".into()));
        }
    }
    let vs: Vec<&&str> = vers.keys().collect();
    for w in vs.windows(2) {
        let diff = w[0].bytes().zip(w[1].bytes()).filter(|(a, b)| a != b).count();
        if diff < 20 {
            v.push(viol("verifier-weak", 0, "two PKCE verifiers are nearly the same".into()));
        }
    }
    v
}

fn url_fits_def(h: &H, u: &UrlR, a: &AcctSpec) -> Result<(), String> {
    let base = url::Url::parse(&a.auth_uri).map_err(|e| e.to_string())?;
    let x = url::Url::parse(&u.url).map_err(|e| format!("not a URL: {e}"))?;
    if (x.scheme(), x.host_str(), x.port(), x.path()) != (base.scheme(), base.host_str(), base.port(), base.path()) {
        return Err(format!("goes to {} instead of {}", x, base));
    }
    let mut want: Vec<(String, Option<String>)> = vec![
        ("access_type".into(), Some("offline".into())),
        ("code_challenge".into(), None),
        ("code_challenge_method".into(), Some("S256".into())),
        ("client_id".into(), Some(a.client_id.clone())),
        ("redirect_uri".into(), None),
        ("response_type".into(), Some("code".into())),
        ("state".into(), None),
    ];
    let sc = a.scopes.clone().unwrap_or_default();
    if !sc.is_empty() {
        want.push(("scope".into(), Some(sc.join(" "))));
    }
    for (k, val) in a.fields.clone().unwrap_or_default() {
        want.push((k, Some(val)));
    }
    if let Some(x) = &a.hint {
        want.push(("login_hint".into(), Some(x.clone())));
    }
    for (k, val) in base.query_pairs() {
        want.push((k.to_string(), Some(val.to_string())));
    }
    let mut have = u.params.clone();
    for (k, val) in &want {
        match have.iter().position(|p| p.0 == *k && val.as_ref().map_or(true, |y| p.1 == *y)) {
            Some(i) => {
                have.remove(i);
            }
            None => return Err(format!("lacks {k}={val:?}; has {:?}", u.params)),
        }
    }
    if let Some(p) = have.iter().find(|p| want.iter().any(|w| w.0 == p.0) || p.0 == "scope" || p.0 == "login_hint") {
        return Err(format!("repeats or adds {}={}", p.0, p.1));
    }
    // the configured fields come last, in their order
    let mut have = u.params.clone();
    if let Some(x) = &a.hint {
        if let Some(i) = have.iter().rposition(|p| p.0 == "login_hint" && p.1 == *x) {
            have.remove(i);
        }
    }
    let f = a.fields.clone().unwrap_or_default();
    if !have.ends_with(&f) {
        return Err(format!("does not end with the auth_uri_fields {f:?}: {:?}", u.params));
    }
    if u.challenge.len() != 43 || !u.challenge.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') {
        return Err(format!("code_challenge {:?} is not a base64url SHA-256", u.challenge));
    }
    // the redirect URI names the port listened on
    let r = url::Url::parse(&u.redirect).map_err(|e| format!("redirect_uri {:?}: {e}", u.redirect))?;
    let e = url::Url::parse(&a.redir()).map_err(|e| e.to_string())?;
    if (r.scheme(), r.host_str(), r.path(), r.query()) != (e.scheme(), e.host_str(), e.path(), e.query()) {
        return Err(format!("redirect_uri {} instead of {} (with port)", u.redirect, a.redir()));
    }
    let ports = listen_ports(h, u.phase);
    let p = r.port_or_known_default().unwrap_or(0);
    let want = if r.scheme() == "https" { ports.1 } else { ports.0 };
    if h.spec(h.case.phases[u.phase].conf).map_or(false, |c| !c.serves(r.scheme())) {
        return Err(format!("redirect_uri {} needs a listener that the server was started without", u.redirect));
    }
    if !want.is_empty() && !want.contains(&p) {
        return Err(format!("redirect_uri {} names port {p}; the listener has {want:?}", u.redirect));
    }
    Ok(())
}

/// (http, https) ports of the phase's listeners: (address, port) as bound
pub fn listen_ports(h: &H, phase: usize) -> (Vec<u16>, Vec<u16>) {
    let mut v: Vec<(String, u16)> = vec![];
    let q0 = h.starts[phase].0;
    let q1 = h.starts.get(phase + 1).map_or(Q::MAX, |x| x.0);
    for e in h.evs.iter().filter(|e| e.q >= q0 && e.q < q1) {
        if let E::Fs { what, arg, path } = &e.e {
            if what == "bindtcp" {
                v.push((path.clone(), *arg as u16));
            }
        }
    }
    let c = h.spec(h.case.phases[phase].conf);
    let (hn, sn) = c.map_or((None, None), |c| (c.http.clone(), c.https.clone()));
    let addr = |x: &Option<Option<String>>| match x {
        None => Some("127.0.0.1:0".to_string()),
        Some(x) => x.clone(),
    };
    let pick = |a: Option<String>, b: Option<String>| -> Vec<u16> {
        let Some(a) = a else { return vec![] };
        let host = |s: &str| s.rsplit_once(':').map_or(s.to_string(), |x| x.0.to_string());
        if b.as_deref().map(host) == Some(host(&a)) {
            // both on one address: either may have been bound first
            return v.iter().map(|x| x.1).collect();
        }
        v.iter().filter(|x| host(&x.0) == host(&a)).map(|x| x.1).collect()
    };
    (pick(addr(&hn), addr(&sn)), pick(addr(&sn), addr(&hn)))
}

// ------------------------------------------------------------------------------------ listeners

/// the listeners are those configured at the start, and info tells the truth about them
pub fn listeners(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        let Some(conf) = h.spec(h.case.phases[ph].conf) else { continue };
        if !matches!(h.case.phases[ph].mode, Mode::Server { .. }) {
            continue;
        }
        let q0 = h.starts[ph].0;
        let q1 = h.starts.get(ph + 1).map_or(Q::MAX, |x| x.0);
        let mut bound: Vec<(String, u16)> = vec![];
        let mut served = None;
        let mut broken = None;
        for e in h.evs.iter().filter(|e| e.q >= q0 && e.q < q1) {
            match &e.e {
                E::Fs { what, arg, path } if what == "bindtcp" => {
                    if served.is_some() {
                        v.push(viol("rebound", e.q, format!("a listener was bound to {path} while the server was running")));
                    }
                    bound.push((path.rsplit_once(':').map_or(path.clone(), |x| x.0.to_string()), *arg as u16));
                }
                E::Fault { call, .. } if call == "bind" && served.is_none() => broken = Some(e.q),
                E::CliAccept { .. } if served.is_none() => served = Some(e.q),
                _ => (),
            }
        }
        let Some(sq) = served else { continue };
        if broken.is_some() {
            v.push(viol("half-bound", sq, "the server serves although an address could not be bound".into()));
            continue;
        }
        let split = |a: &str| a.rsplit_once(':').map_or((a.to_string(), 0), |x| (x.0.to_string(), x.1.parse::<u16>().unwrap_or(0)));
        let addr = |x: &Option<Option<String>>| match x {
            None => Some(split("127.0.0.1:0")),
            Some(x) => x.as_deref().map(split),
        };
        let (http, https) = (addr(&conf.http), addr(&conf.https));
        let fits = |w: &(String, u16), g: &(String, u16)| w.0 == g.0 && (w.1 == 0 && g.1 != 0 || w.1 == g.1);
        // which of those bound is which
        let want: Vec<Option<(String, u16)>> = vec![http.clone(), https.clone()];
        let mut ways: Vec<Vec<Option<u16>>> = vec![];
        match (&want[0], &want[1]) {
            (None, None) => ways.push(vec![None, None]),
            (Some(a), None) if bound.len() == 1 && fits(a, &bound[0]) => ways.push(vec![Some(bound[0].1), None]),
            (None, Some(a)) if bound.len() == 1 && fits(a, &bound[0]) => ways.push(vec![None, Some(bound[0].1)]),
            (Some(a), Some(b)) if bound.len() == 2 => {
                for (i, j) in [(0, 1), (1, 0)] {
                    if fits(a, &bound[i]) && fits(b, &bound[j]) {
                        ways.push(vec![Some(bound[i].1), Some(bound[j].1)]);
                    }
                }
            }
            _ => (),
        }
        if ways.is_empty() {
            v.push(viol("bound-wrong", sq, format!("configured: http {http:?}, https {https:?}; bound: {bound:?}")));
            continue;
        }
        // what info says
        for o in h.ops.values().filter(|o| o.phase == ph && matches!(o.cmd(), Some(Cmd::Info)) && o.answered() && o.plain()) {
            let r = o.rep.unwrap();
            let text = o.text();
            let Ok(j) = serde_json::from_str::<serde_json::Value>(&text) else {
                v.push(viol("info-wrong", r.0, format!("info answered {text:?}")));
                continue;
            };
            let p = |x: Option<u16>| x.map_or("none".to_string(), |x| x.to_string());
            ways.retain(|w| j["http_port"] == p(w[0]) && j["https_port"] == p(w[1]));
            let text_key = j["https_pub_key"].as_str().unwrap_or("").to_ascii_lowercase();
            let key = text_key.len();
            // the key is the one in the certificates shown
            let certs = h.evs.iter().filter_map(|e| match &e.e {
                E::Cert { op, der } if h.ops.get(op).map_or(false, |x| x.phase == ph) => Some(der),
                _ => None,
            });
            for der in certs {
                let two = text_key.split(':').all(|x| x.len() == 2);
                if key > 20 && !(two && der.contains(&text_key.replace(':', ""))) {
                    v.push(viol("info-wrong", r.0, format!("info says the HTTPS public key is {text_key}, but that is not the key of the certificate shown")));
                    return v;
                }
            }
            if ways.is_empty() || (https.is_some()) != (key > 20) {
                v.push(viol("info-wrong", r.0, format!("configured: http {http:?}, https {https:?}; bound: {bound:?}; info answered {text:?}")));
                break;
            }
        }
        // and what the authorisation URLs say
        for u in h.urls.iter().filter(|u| u.phase == ph) {
            let Ok(r) = url::Url::parse(&u.redirect) else { continue };
            let p = r.port_or_known_default();
            let https = r.scheme() == "https";
            if !ways.is_empty() && !ways.iter().any(|w| w[https as usize] == p && p.is_some()) {
                v.push(viol("redirect-unserved", u.q, format!("redirect_uri {} is not served; bound: {bound:?}", u.redirect)));
            }
        }
    }
    v
}

/// a configuration that needs a listener which is not there does not get to run
pub fn unserved(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        let p = &h.case.phases[ph];
        // not to have started is a failure
        let attached = matches!(p.mode, Mode::Server { daemon: false, .. });
        let within = |e: &Ev| e.q >= h.starts[ph].0 && h.starts.get(ph + 1).map_or(true, |x| e.q < x.0);
        let unbound = h.evs.iter().any(|e| within(e) && matches!(&e.e, E::Fault { call, .. } if call == "bind"));
        let asked = p.ops.iter().any(|o| matches!(o.kind, OpKind::Term | OpKind::Cli { cmd: Cmd::Shutdown, .. }));
        if attached && !asked && (unbound || h.spec(p.conf).is_none()) {
            if let Some(x) = h.exits.iter().find(|x| x.2 == ph && x.3 == 0 && x.4 == 0 && !x.5) {
                v.push(viol("start-unfailed", x.0, "the server could not start, but ended as if all were well".into()));
            }
        }
        if h.spec(p.conf).is_some() || !matches!(p.mode, Mode::Server { .. }) || !h.case.notes.get("bad-listen").map_or(false, |x| x.split(',').any(|y| y.parse() == Ok(ph))) {
            continue;
        }
        let served = h.evs.iter().find(|e| e.q >= h.starts[ph].0 && h.starts.get(ph + 1).map_or(true, |x| e.q < x.0) && matches!(e.e, E::CliAccept { .. }));
        if let Some(e) = served {
            v.push(viol("bad-conf", e.q, "the server was started with a configuration to be refused (see its text), and serves".into()));
        }
    }
    v
}
