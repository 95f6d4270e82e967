//! Oracles: the control socket's requests.
use crate::checks::*;
use crate::checks2::{in_phase, is, short};
use crate::hist::*;
use crate::Viol;
use model::*;
use std::collections::HashSet;

/// a fault that is more than a short read or write
fn failing(h: &H, e: &Ev) -> bool {
    let E::Fault { call, n } = &e.e else { return false };
    let ph = in_phase(h, e.q);
    !h.case.phases[ph].faults.iter().any(|f| f.call == *call && f.n == *n && matches!(f.what, FaultKind::Short(_)))
}

/// Every request sent whole by a client that waits is answered, in the form the client understands,
/// and names the accounts it should.
pub fn requests(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        let (Some(cmd), Some(c), Some(a), Some(r)) = (o.cmd(), o.conn, o.acc, o.rep) else { continue };
        if !o.plain() || matches!(cmd, Cmd::Raw(_) | Cmd::Shutdown) {
            continue;
        }
        let (pq, pt) = phase_end(h, o.phase);
        // near its end the server may be on its way out
        if r.0 >= pq || pt <= r.1 + h.slack + SEC {
            continue;
        }
        let disturbed = h.evs.iter().any(|e| failing(h, e) && e.q >= c.0 && e.q <= r.0);
        if disturbed {
            continue;
        }
        let what = match cmd {
            // a dump records wall clock times, which have to be after 1970
            Cmd::Dump(_) if h.wall_at(a.1).min(h.wall_at(r.1)) < 0 => continue,
            Cmd::Restore(_) => "Restore".to_string(),
            x => format!("{x:?}"),
        };
        if o.data.is_empty() || o.end != ConnEnd::Eof {
            v.push(viol("no-reply", r.0, format!("{what} at {} was answered {:?} ({:?})", s(a.1), short(&o.text()), o.end)));
            continue;
        }
        let t = o.text();
        let said = |p: &str| t.strip_prefix(p).map_or(false, |x| !x.is_empty());
        let pending = |w: bool| t.strip_prefix("pending:").map_or(false, |u| if w { u.contains("://") && u.contains("state=") } else { u.is_empty() });
        let form = match cmd {
            Cmd::Show(_, w) => said("access_token:") || pending(*w) || said("error:"),
            Cmd::Refresh(_, w) => t == "scheduled:" || pending(*w) || said("error:"),
            Cmd::Revoke(_) | Cmd::Reload | Cmd::Restore(_) => t == "ok:" || said("error:"),
            Cmd::Status => said("ok:") || said("error:"),
            Cmd::Info => serde_json::from_slice::<serde_json::Value>(&o.data).map_or(false, |j| j["http_port"].is_string() && j["https_port"].is_string()),
            Cmd::Dump(_) => o.data.len() > 12,
            _ => true,
        };
        if !form {
            v.push(viol("malformed-reply", r.0, format!("{what} at {} was answered {:?}", s(a.1), short(&t))));
            continue;
        }
        // which accounts are there?
        let sure = h.ops.values().filter(|x| x.phase == o.phase && matches!(x.cmd(), Some(Cmd::Reload))).all(|x| x.answered() || x.acc.is_none());
        if let (true, Cmd::Show(n, _) | Cmd::Refresh(n, _) | Cmd::Revoke(n)) = (sure, cmd) {
            let cs = h.confs_in(a.0, r.0);
            let none = t.starts_with("error:No account");
            if !cs.is_empty() && cs.iter().all(|c| c.acct(n).is_some()) && none {
                v.push(viol("unknown-account", r.0, format!("{what} at {} was answered {t:?}, but there is that account", s(a.1))));
            }
            if !cs.is_empty() && cs.iter().all(|c| c.acct(n).is_none()) && !t.starts_with("error:") {
                v.push(viol("unknown-account", r.0, format!("{what} at {} was answered {:?}, but there is no such account", s(a.1), short(&t))));
            }
        }
    }
    v
}

/// a refresh that is "scheduled" is begun, unless one is under way
pub fn scheduled(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        let Some(Cmd::Refresh(acct, _) | Cmd::Show(acct, _)) = o.cmd() else { continue };
        let (Some(a), Some(r)) = (o.acc, o.rep) else { continue };
        if o.data != b"scheduled:" && !o.text().ends_with("Refreshing initiated") {
            continue;
        }
        let lim = h.by(r.1, 0);
        let (pq, pt) = phase_end(h, o.phase);
        if pt <= lim {
            continue;
        }
        let hosts: HashSet<String> = h.confs.iter().flatten().filter_map(|c| c.acct(acct)).map(|a| a.tok_host()).collect();
        let tried = h.tries.iter().any(|t| t.phase == o.phase && hosts.contains(&t.host) && t.t >= a.1 && t.t <= lim);
        // one under way, or just over
        let busy = h.tries.iter().any(|t| {
            t.phase == o.phase && hosts.contains(&t.host) && t.t < a.1 && {
                // (a reply may have been sent without the server being able to tell where it ends)
                let end = t.req.and_then(|q| h.reqs[q].closed).map_or(t.t + 31 * SEC, |x| x.1);
                h.by(end, 0) >= a.1
            }
        }) || h.spawns.iter().any(|p| p.kind.starts_with("N4") && p.acct == *acct && p.t <= r.1 && p.end.map_or(T::MAX, |e| h.by(e.1, 0)) >= a.1);
        // what takes the token away
        let other = h.ops.values().any(|x| {
            x.id != o.id
                && x.phase == o.phase
                && x.acc.map_or(false, |y| h.by(y.1, 0) >= a.1 && y.1 <= lim)
                && match x.cmd() {
                    Some(Cmd::Revoke(n)) => n == acct,
                    Some(Cmd::Reload) => true,
                    _ => false,
                }
        });
        let dropped = h.spawns.iter().any(|p| p.acct == *acct && p.event == "token_invalidated" && p.t + h.slack >= a.1 && p.t <= h.by(r.1, 60 * SEC));
        let nort = versions(h, acct, false).iter().filter(|x| x.q < r.0).last().map_or(true, |x| x.rt.is_none());
        let hurt = h.evs.iter().any(|e| failing(h, e) && e.q >= a.0 && e.t <= lim);
        if !tried && !busy && !other && !dropped && !nort && !hurt {
            v.push(viol("unstarted-refresh", pq, format!("a request about {acct} was answered {:?} at {}, but no refresh was begun by {}", o.text(), s(r.1), s(lim))));
        }
    }
    v
}

/// The lines of a status are true together: with the events in the order in which the changes
/// happened, there is a moment between two of them that fits every line.
pub fn torn_status(h: &H) -> Vec<Viol> {
    torn(h, false)
}

/// The same of what a dump holds.
pub fn torn_dump(h: &H) -> Vec<Viol> {
    torn(h, true)
}

fn torn(h: &H, dumps: bool) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        let (_, pt) = phase_end(h, ph);
        let evs: Vec<_> = h.spawns.iter().filter(|p| p.phase == ph && !p.event.is_empty()).collect();
        let slow = evs.iter().any(|p| p.err != 0 || p.end.map_or(true, |e| e.1 > p.t + 10 * SEC) && p.t + 10 * SEC < pt);
        if evs.len() < 2 || slow {
            continue;
        }
        // what changes accounts without an event
        let silent = h.ops.values().filter(|o| o.phase == ph && o.acc.is_some() && matches!(o.cmd(), Some(Cmd::Reload | Cmd::Restore(_) | Cmd::Raw(_)))).filter_map(|o| o.acc).map(|a| a.0).min().unwrap_or(Q::MAX);
        let failing = h.evs.iter().any(|e| failing(h, e) && in_phase(h, e.q) == ph);
        if failing || !h.confs_in(0, Q::MAX).iter().all(|c| c.event.is_some()) {
            continue;
        }
        for o in h.ops.values().filter(|o| o.phase == ph && o.answered() && if dumps { matches!(o.cmd(), Some(Cmd::Dump(_))) } else { matches!(o.cmd(), Some(Cmd::Status)) }) {
            let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
            if r.0 >= silent || pt <= h.by(r.1, 60 * SEC) {
                continue;
            }
            let mut said: Vec<(String, bool)> = vec![];
            if dumps {
                let Some(d) = decode_dump(&o.data) else { continue };
                said.extend(d.accounts.into_iter().map(|(n, x)| (n, matches!(x.1, TokDump::Active { .. }))));
                said.sort();
            } else {
                let text = o.text();
                let Some(body) = text.strip_prefix("ok:") else { continue };
                for l in body.lines() {
                    let Some((n, st)) = l.split_once(": ") else { continue };
                    said.push((n.to_string(), st.starts_with("Active") || st.starts_with("Access token expired")));
                }
            }
            // what can be said of an account's events: they leave it with or without a token
            let with = |e: &str| e == "token_new" || e == "token_refreshed";
            let mut fits: Vec<Vec<bool>> = vec![];
            for (n, active) in said.iter().map(|x| (&x.0, x.1)) {
                let mut cur = false;
                let mut f = vec![cur == active];
                for e in &evs {
                    if e.acct == *n {
                        cur = with(&e.event);
                    }
                    f.push(cur == active);
                }
                if !f.contains(&true) {
                    f.fill(true);
                }
                fits.push(f);
            }
            // those announced before the request had certainly happened
            let first = evs.iter().filter(|e| e.q < a.0).count();
            let last = evs.iter().filter(|e| e.t <= h.by(r.1, 60 * SEC)).count();
            if !(first..=last).any(|g| fits.iter().all(|f| f[g])) {
                let (kind, what) = if dumps { ("dump-torn", "a dump held") } else { ("status-torn", "status answered") };
                let have: Vec<_> = said.iter().map(|x| format!("{} {}", x.0, if x.1 { "active" } else { "no token" })).collect();
                v.push(viol(kind, r.0, format!("{what} {have:?}, which was never true as a whole: changes happened in the order {:?}", evs[first..last].iter().map(|e| format!("{} {}", e.acct, e.event)).collect::<Vec<_>>())));
            }
        }
    }
    v
}

/// A configuration without token_event_cmd: what happens then is not announced, neither then nor
/// when there is a command again; and what happens with a command is, as ever.
pub fn event_unset(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    if h.confs_in(0, Q::MAX).iter().all(|c| c.event.is_some()) || h.evs.iter().any(|e| failing(h, e)) {
        return v;
    }
    let near = h.slack + SEC;
    for ph in 0..h.starts.len() {
        let (_, pt) = phase_end(h, ph);
        let evs: Vec<_> = h.spawns.iter().filter(|p| p.phase == ph && is("N3", p)).collect();
        for (i, p) in evs.iter().enumerate() {
            // since when commands have followed upon one another
            let mut b = p.t;
            for e in evs[..i].iter().rev() {
                if e.err == 0 && e.end.map_or(false, |x| x.1 + near < b) || e.err != 0 && e.t + near < b {
                    break;
                }
                b = b.min(e.t);
            }
            let lo = b.saturating_sub(near);
            let toks = |refresh: bool| h.reqs.iter().any(|q| q.phase == ph && q.acct == p.acct && q.is_refresh() == refresh && q.rep.map_or(false, |x| h.reps[x].t <= p.t && h.by(h.reps[x].t, SEC) + 30 * SEC >= lo));
            let fine = match p.event.as_str() {
                "token_revoked" => h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Revoke(a)) if *a == p.acct) && o.acc.map_or(false, |a| a.1 <= p.t) && o.rep.map_or(true, |r| r.1 >= lo)),
                "token_new" => toks(false),
                "token_refreshed" => toks(true),
                _ => true,
            };
            if !fine {
                v.push(viol("event-stale", p.q, format!("event command run for {} ({}) at {}: nothing of the kind has happened since {}", p.acct, p.event, s(p.t), s(lo))));
            }
        }
        for o in h.ops.values().filter(|o| o.phase == ph && o.answered() && o.text() == "ok:") {
            let Some(Cmd::Revoke(acct)) = o.cmd() else { continue };
            let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
            let lim = h.by(r.1, 3 * SEC);
            let q1 = h.evs.iter().filter(|e| e.t <= lim).last().map_or(Q::MAX, |e| e.q);
            let q0 = h.evs.iter().find(|e| e.t + near >= a.1).map_or(0, |e| e.q);
            if lim >= pt || !h.confs_in(q0, q1).iter().all(|c| c.event.is_some()) {
                continue;
            }
            // nothing else to be announced then or before
            let busy = evs.iter().any(|e| e.t <= lim && e.end.map_or(true, |x| x.1 + near >= a.1) && !(e.t >= a.1 && e.acct == *acct && e.event == "token_revoked"));
            if !busy && !evs.iter().any(|e| e.acct == *acct && e.event == "token_revoked" && e.t + near >= a.1 && e.t <= lim) {
                v.push(viol("event-unset-missing", r.0, format!("{acct} was revoked at {} while there was an event command, which was not run for it by {}", s(a.1), s(lim))));
            }
        }
    }
    v
}

/// What status says of notifications and of attempts to refresh: when they were made, and whether.
pub fn status_times(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    if h.evs.iter().any(|e| failing(h, e)) {
        return v;
    }
    for o in h.ops.values().filter(|o| o.answered() && matches!(o.cmd(), Some(Cmd::Status))) {
        let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
        let ph = o.phase;
        let offs = h.wall_offs(a.1, r.1);
        let text = o.text();
        let near = h.slack + SEC;
        let cs = h.confs_in(h.starts[ph].0, r.0);
        let Some(body) = text.strip_prefix("ok:") else { continue };
        let fits = |x: &str, lo: T, hi: T| crate::refm::time_fits(x, (lo.saturating_sub(near) as i64, hi.saturating_add(near) as i64), offs);
        let other = |o2: &&OpR| o2.phase == ph && matches!(o2.cmd(), Some(Cmd::Restore(_) | Cmd::Raw(_) | Cmd::Reload));
        for l in body.lines() {
            let Some((n, st)) = l.split_once(": ") else { continue };
            if st.starts_with("Access token pending") {
                if cs.iter().any(|c| c.notify.is_none()) {
                    continue;
                }
                let runs: Vec<T> = h.spawns.iter().filter(|p| p.phase == ph && is("N1", p) && p.acct == n && p.t <= r.1.saturating_add(near)).map(|p| p.t).collect();
                if let Some(x) = st.strip_prefix("Access token pending authentication (last notification ") {
                    let x = x.trim_end_matches(')');
                    // one about to be run when all ended is not seen
                    let lo = runs.iter().copied().filter(|t| t + near < a.1).max().unwrap_or(h.starts[ph].1);
                    let mut ok = fits(x, h.run_from(a.1), r.1);
                    ok |= runs.iter().any(|t| *t >= lo && fits(x, h.run_from(*t), *t));
                    if !ok {
                        v.push(viol("status-time", r.0, format!("status says {l:?}, but notification commands were run at {:?}", runs.iter().rev().take(3).map(|t| s(*t)).collect::<Vec<_>>())));
                    }
                } else if st == "Access token pending authentication" {
                    // not even a new request
                    let asked = h.ops.values().any(|o2| {
                        o2.phase == ph
                            && o2.acc.map_or(false, |b| b.0 < r.0)
                            && o2.rep.map_or(true, |b| b.1 + 2 * near >= a.1)
                            && match o2.cmd() {
                                Some(Cmd::Show(m, _) | Cmd::Refresh(m, _)) => m == n,
                                Some(Cmd::Raw(_)) => true,
                                _ => false,
                            }
                    });
                    if !asked {
                        v.push(viol("status-time", r.0, format!("status says {l:?}, although the request is an old one and notification commands were run at {:?}", runs.iter().rev().take(3).map(|t| s(*t)).collect::<Vec<_>>())));
                    }
                } else {
                    v.push(viol("status-time", r.0, format!("status says {l:?}")));
                }
            }
            if st.starts_with("Access token expired") {
                // the hosts its refreshes go to, if nobody else's do
                let hosts: HashSet<String> = cs.iter().flat_map(|c| &c.accts).filter(|x| x.name == n).map(|x| x.tok_host()).collect();
                if cs.iter().flat_map(|c| &c.accts).any(|x| x.name != n && hosts.contains(&x.tok_host())) {
                    continue;
                }
                let tries: Vec<&TryR> = h.tries.iter().filter(|t| t.phase == ph && t.br.is_none() && hosts.contains(&t.host) && t.t <= r.1).collect();
                if let Some(x) = st.strip_prefix("Access token expired (last refresh attempt ") {
                    let x = x.trim_end_matches(')');
                    let lo = tries.iter().map(|t| t.t).filter(|t| t + near < a.1).max().unwrap_or(0);
                    // at the start of one or when it failed
                    let ok = fits(x, h.run_from(lo), r.1) && tries.iter().any(|t| fits(x, h.run_from(t.t), h.run_lim(t.t, t.t + 40 * SEC).max(t.dns.map_or(0, |d| h.run_lim(d.1, d.1 + 40 * SEC)))));
                    if !ok {
                        v.push(viol("status-time", r.0, format!("status says {l:?}, but refreshes were attempted at {:?}", tries.iter().rev().take(3).map(|t| s(t.t)).collect::<Vec<_>>())));
                    }
                } else if st == "Access token expired (refresh not yet attempted)" {
                    let got = h.reps.iter().filter(|p| p.at.is_some() && p.acct == n && p.q < r.0).last();
                    let Some(got) = got else { continue };
                    if h.ops.values().any(|o2| other(&o2)) {
                        continue;
                    }
                    if let Some(t) = tries.iter().find(|t| t.t > got.t + near && t.t + near < a.1) {
                        v.push(viol("status-time", r.0, format!("status says {l:?}, but a refresh was attempted at {}", s(t.t))));
                    }
                } else {
                    v.push(viol("status-time", r.0, format!("status says {l:?}")));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ C30: idleness

/// no thread runs on and on without any visible effect
pub fn idle(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for e in h.evs {
        if let E::Busy { from, syncs, mems, tmos } = e.e {
            // reading a configuration of many accounts takes a while
            let parse = matches!(h.evs.iter().take_while(|x| x.q < e.q).last().map(|x| &x.e), None | Some(E::ConfRead { .. } | E::Start { .. }));
            let f = if parse { 5 } else { 1 };
            // threads may wake up every now and then
            let secs = e.t.saturating_sub(from) / SEC;
            if syncs < f * 300_000 + secs * 100 && mems < f * 10_000_000 + secs * 5_000 && tmos < 2000 + secs * 20 {
                continue;
            }
            v.push(viol("spin", e.q, format!("from {} to {} the server ran on ({syncs} synchronisation points, {mems} memory accesses, {tmos} timed waits) without any visible effect", s(from), s(e.t))));
        }
    }
    v
}
