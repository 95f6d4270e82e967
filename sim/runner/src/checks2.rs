//! Oracles over recorded histories: C11 to C26.
use crate::checks::*;
use crate::hist::*;
use crate::refm::*;
use crate::spec::*;
use crate::Viol;
use model::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// time spent suspended within [a, b]
fn suspended(h: &H, a: T, b: T) -> T {
    h.suspends.iter().filter(|(_, t, d)| *t <= b && t + d >= a).map(|x| x.2).sum()
}

pub fn in_phase(h: &H, q: Q) -> usize {
    let mut p = 0;
    for (i, s) in h.starts.iter().enumerate() {
        if s.0 <= q {
            p = i;
        }
    }
    p
}

/// the first moment at which the server of this phase stopped (or the phase's end)
fn stop_q(h: &H, phase: usize) -> (Q, T) {
    let (q, t) = phase_end(h, phase);
    match h.exits.iter().find(|x| x.2 == phase) {
        Some(x) => (x.0, x.1),
        None => (q, t),
    }
}

pub fn is(k: &str, p: &SpawnR) -> bool {
    p.kind == k
}

// ------------------------------------------------------------------------ C11: transient errors

pub fn transient(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let kinds = try_kinds(h);
    for acct in acct_names(h) {
        for ph in 0..h.starts.len() {
            let cs: Vec<&ConfSpec> = h.uses.iter().filter(|u| u.phase == ph).filter_map(|u| h.spec(u.idx)).collect();
            let n4: Vec<&SpawnR> = h.spawns.iter().filter(|p| p.phase == ph && p.acct == acct && is("N4", p)).collect();
            if cs.iter().all(|c| c.transient.is_none()) {
                if let Some(p) = n4.first() {
                    v.push(viol("transient-cmd", p.q, format!("account {acct}: transient_error_if_cmd ran although none is configured")));
                }
                continue;
            }
            if cs.iter().any(|c| c.transient.is_none()) {
                continue;
            }
            let (_, pt) = stop_q(h, ph);
            let maybe = maybe_refresh_tries(h, &acct, &kinds).len();
            let tries: Vec<&TryR> = refresh_tries(h, &acct, &kinds).into_iter().filter(|t| t.phase == ph).collect();
            if maybe != refresh_tries(h, &acct, &kinds).len() {
                continue;
            }
            // anything that may have replaced or dropped the token
            let dist: Vec<(Q, T)> = others(h, &acct, ph);
            let mut fails = 0u32;
            let mut sure = true;
            let mut last: Option<&TryR> = None;
            let mut want: Option<&TryR> = None;
            let mut i4 = 0;
            let mut all: Vec<(Q, Option<&TryR>, Option<&SpawnR>)> = tries.iter().map(|t| (t.q, Some(*t), None)).collect();
            all.extend(n4.iter().map(|p| (p.q, None, Some(*p))));
            all.sort_by_key(|x| x.0);
            for (q, t, p) in all {
                if let Some(l) = last {
                    if dist.iter().any(|d| d.0 > l.q && d.0 < q) {
                        // the state may be another by now: start over
                        fails = 0;
                        sure = false;
                        want = None;
                    }
                }
                if let Some(t) = t {
                    if let Some(w) = want {
                        // a sixth failure was not followed by the command
                        v.push(viol(
                            "transient-cmd-missing",
                            q,
                            format!("account {acct}: no transient_error_if_cmd after {fails} failed refreshes (the last begun at {})", s(w.t)),
                        ));
                        want = None;
                        sure = false;
                    }
                    match t.req.map_or(Class::Trans, |r| h.class(&h.reqs[r])) {
                        Class::Token => {
                            fails = 0;
                            sure = true;
                        }
                        Class::Trans => {
                            fails += 1;
                            if sure && fails % 6 == 0 && h.by(t.t, 31 * SEC) < pt {
                                want = Some(t);
                            }
                        }
                        _ => {
                            fails = 0;
                            sure = false;
                        }
                    }
                    last = Some(t);
                }
                if let Some(p) = p {
                    i4 += 1;
                    if sure && fails % 6 != 0 {
                        v.push(viol(
                            "transient-cmd",
                            p.q,
                            format!("account {acct}: transient_error_if_cmd ran at {} after {fails} consecutive failed refreshes", s(p.t)),
                        ));
                        sure = false;
                    }
                    if let (Some(w), true) = (want, sure) {
                        let lim = h.by(w.t, 31 * SEC);
                        if p.t > lim {
                            v.push(viol("transient-cmd-missing", p.q, format!("account {acct}: transient_error_if_cmd ran only at {}, for the failure of {}", s(p.t), s(w.t))));
                        }
                    }
                    want = None;
                }
            }
            if let Some(w) = want {
                let lim = h.by(w.t, 31 * SEC);
                if !dist.iter().any(|d| d.0 > w.q) && pt > lim {
                    v.push(viol("transient-cmd-missing", w.q, format!("account {acct}: no transient_error_if_cmd after {fails} failed refreshes (the last begun at {})", s(w.t))));
                }
            }
            let _ = i4;
            // three minutes
            for p in &n4 {
                if p.err != 0 {
                    continue;
                }
                let over = p.end.or(p.killed);
                let lim = h.by(p.t, 180 * SEC);
                if over.map_or(pt > lim, |o| o.1 > lim) {
                    v.push(viol("transient-cmd-hang", p.q, format!("account {acct}: transient_error_if_cmd begun at {} was not stopped after three minutes", s(p.t))));
                }
                if let Some(k) = p.killed {
                    if k.1 + SEC < p.t + 180 * SEC {
                        v.push(viol("transient-cmd", k.0, format!("account {acct}: transient_error_if_cmd begun at {} was killed at {}", s(p.t), s(k.1))));
                    }
                }
            }
        }
    }
    v
}

/// things other than its own refreshing that may change an account's token
fn others(h: &H, acct: &str, ph: usize) -> Vec<(Q, T)> {
    let mut v = vec![];
    // reloads that leave the account as it is (but for its times) leave its token and its count
    let mut forms: Vec<Option<AcctSpec>> = h.uses.iter().filter(|u| u.phase == ph).map(|u| h.spec(u.idx).and_then(|c| c.acct(acct)).cloned().map(|a| AcctSpec { t: Default::default(), ..a })).collect();
    forms.dedup();
    let steady = forms.len() == 1 && forms[0].is_some();
    for o in h.ops.values().filter(|o| o.phase == ph) {
        let Some(a) = o.acc.or(o.sent) else { continue };
        match &o.kind {
            OpKind::Cli { cmd: Cmd::Revoke(n), .. } if n == acct => v.push(a),
            OpKind::Cli { cmd: Cmd::Restore(_), .. } => v.push(a),
            OpKind::Cli { cmd: Cmd::Reload, .. } if !steady => v.push(a),
            OpKind::Cli { cmd: Cmd::Raw(_), .. } => v.push(a),
            OpKind::Browser { acct: n, .. } if n == acct => v.push(a),
            _ => (),
        }
    }
    for p in h.spawns.iter().filter(|p| p.phase == ph && p.acct == acct && p.event == "token_invalidated") {
        v.push((p.q, p.t));
    }
    for r in h.reqs.iter().filter(|r| r.phase == ph && r.acct == acct && r.is_code()) {
        v.push((r.q, r.t));
        if let Some(x) = r.rep {
            v.push((h.reps[x].q, h.reps[x].t));
        }
    }
    v.sort();
    v
}

// ------------------------------------------------------------------------ C12: refused refreshes

/// after a definite refusal (or the expiry of a token without refresh token) the next show asks
/// for authorisation
pub fn refused(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for acct in acct_names(h) {
        // shows that talk about an expired token which cannot be refreshed
        let vers = versions(h, &acct, true);
        for ver in vers.iter().filter(|x| x.rt.is_none()) {
            let mut lim = ver.ex.1.saturating_add(h.slack);
            // a token that is due as soon as it is obtained is looked at again after refresh_retry
            for c in h.confs_in(ver.q, T::MAX as Q) {
                if let Some(a) = c.acct(&acct) {
                    if ver.life <= c.before(a) {
                        lim = lim.max((ver.ob.1 + c.retry(a).saturating_mul(SEC)).saturating_add(h.slack));
                    }
                }
            }
            let lim = h.boot_lim(ver.t0, lim);
            for o in h.ops.values().filter(|o| o.phase == ver.phase && o.answered()) {
                let Some(Cmd::Show(n, _)) = o.cmd() else { continue };
                if *n != acct {
                    continue;
                }
                let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
                if a.0 < ver.q1 || a.1 < lim {
                    continue;
                }
                // nothing else may have happened to the account since
                if disturbances_after(h, &acct, ver, a.0) {
                    break;
                }
                if !o.text().starts_with("pending:") {
                    v.push(viol("not-dropped", r.0, format!("show {acct} at {} answered {:?}, but {} expired at {} without refresh token", s(a.1), short(&o.text()), ver.at, s(ver.ex.1))));
                }
            }
        }
    }
    v
}

fn disturbances_after(h: &H, acct: &str, ver: &V, q: Q) -> bool {
    h.urls.iter().any(|u| u.acct == acct && u.q > ver.q1 && u.q < q)
        || h.ops.values().any(|o| {
            o.phase == ver.phase
                && o.acc.map_or(false, |a| a.0 > ver.q1 && a.0 < q)
                && matches!(o.cmd(), Some(Cmd::Restore(_)) | Some(Cmd::Reload))
        })
        || h.reqs.iter().any(|r| r.acct == acct && r.q > ver.q1 && r.q < q)
}

pub fn short(s: &str) -> String {
    s.chars().take(120).collect()
}

// ------------------------------------------------------------------------ C13: events

pub fn events(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        let n3: Vec<&SpawnR> = h.spawns.iter().filter(|p| p.phase == ph && is("N3", p)).collect();
        let (_, pt) = stop_q(h, ph);
        for w in n3.windows(2) {
            if w[0].err == 0 && w[0].end.map_or(true, |e| e.0 > w[1].q) {
                v.push(viol(
                    "overlapping-events",
                    w[1].q,
                    format!("token_event_cmd for {} ({}) started at {} while the one for {} ({}) was running", w[1].acct, w[1].event, s(w[1].t), w[0].acct, w[0].event),
                ));
            }
        }
        for p in &n3 {
            if !["token_new", "token_refreshed", "token_invalidated", "token_revoked"].contains(&p.event.as_str()) {
                v.push(viol("event-name", p.q, format!("token_event_cmd ran with PIZAUTH_EVENT={:?}", p.event)));
            }
            let lim = h.by(p.t, 60 * SEC);
            let over = p.end.or(p.killed);
            if p.err == 0 && over.map_or(pt > lim, |o| o.1 > lim) {
                v.push(viol("event-hang", p.q, format!("token_event_cmd begun at {} was not stopped", s(p.t))));
            }
        }
        v.extend(event_order(h, ph, &n3));
    }
    v
}

/// where every account's events can be matched one to one with their causes, their order over all
/// accounts is that of the causes
fn event_order(h: &H, ph: usize, n3: &[&SpawnR]) -> Vec<Viol> {
    let mut v = vec![];
    if h.confs.iter().flatten().any(|c| c.event.is_none()) {
        return v;
    }
    let tight = if stall_slack(h) == 0 { 100 * MS } else { h.slack };
    let mut mapped: Vec<(&SpawnR, T, T)> = vec![];
    for acct in acct_names(h) {
        let mine: Vec<&&SpawnR> = n3.iter().filter(|p| p.acct == acct).collect();
        let mut causes: Vec<(&str, T, T)> = vec![];
        let mut unsure = false;
        let dist = disturbances(h, &acct, ph);
        for o in h.ops.values().filter(|o| o.phase == ph && o.acc.is_some()) {
            match o.cmd() {
                Some(Cmd::Revoke(n)) if *n == acct => {
                    if o.data == b"ok:" {
                        causes.push(("token_revoked", o.acc.unwrap().1, o.rep.unwrap().1));
                    } else if !o.answered() {
                        unsure = true;
                    }
                }
                Some(Cmd::Restore(_)) | Some(Cmd::Raw(_)) => unsure = true,
                _ => (),
            }
        }
        for r in h.reqs.iter().filter(|r| r.phase == ph && r.acct == acct) {
            let Some(x) = r.rep else { continue };
            let cl = h.class(r);
            if cl != Class::Trans {
                // a result that something else may have overtaken
                let from = if r.is_code() { r.get("code").and_then(|c| h.url_of_code(c)).map_or(0, |u| h.urls[u].q) } else { h.tries.iter().find(|t| t.tr == r.tr).map_or(0, |t| t.q) };
                let to = r.done.map_or(Q::MAX, |d| d.0);
                if dist.iter().any(|d| d.0 > from && d.0 < to) || h.reqs.iter().any(|y| y.acct == acct && y.q != r.q && y.rep.map_or(false, |k| h.reps[k].q > from && h.reps[k].q < to) && h.class(y) != Class::Trans) {
                    unsure = true;
                }
            }
            match cl {
                Class::Token => {
                    let d = r.done.map_or(T::MAX / 2, |d| d.1 + tight);
                    causes.push((if r.is_refresh() { "token_refreshed" } else { "token_new" }, h.reps[x].t, d));
                }
                Class::Perm if r.is_refresh() => {
                    let d = r.done.map_or(T::MAX / 2, |d| d.1 + tight);
                    causes.push(("token_invalidated", h.reps[x].t, d));
                }
                Class::Any => unsure = true,
                _ => (),
            }
        }
        causes.sort_by_key(|c| c.1);
        if causes.windows(2).any(|w| w[0].2 >= w[1].1) {
            unsure = true;
        }
        let a: Vec<&str> = causes.iter().map(|c| c.0).collect();
        let b: Vec<&str> = mine.iter().map(|p| p.event.as_str()).collect();
        if unsure || a.len() < b.len() || a[..b.len()] != b[..] {
            continue;
        }
        for (p, c) in mine.iter().zip(&causes) {
            mapped.push((**p, c.1, c.2));
        }
    }
    mapped.sort_by_key(|m| m.0.q);
    for i in 0..mapped.len() {
        for j in i + 1..mapped.len() {
            if mapped[j].2 < mapped[i].1 {
                v.push(viol(
                    "event-order",
                    mapped[j].0.q,
                    format!(
                        "{} of {} (caused by {}) was announced before {} of {} (caused {} or before)",
                        mapped[i].0.event,
                        mapped[i].0.acct,
                        s(mapped[i].1),
                        mapped[j].0.event,
                        mapped[j].0.acct,
                        s(mapped[j].2)
                    ),
                ));
                return v;
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ C14-C16: dumps

/// restores answer ok exactly for intact dumps
pub fn restores(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        let Some(Cmd::Restore(b)) = o.cmd() else { continue };
        let (Some(a), Some(r)) = (o.acc, o.rep) else { continue };
        if !o.answered() {
            if o.plain() && o.end == ConnEnd::Eof && o.data.is_empty() && !h.exits.iter().any(|x| x.0 > a.0 && x.0 <= r.0 + 4) {
                v.push(viol("restore-unreported", r.0, "a restore was answered with nothing".into()));
            }
            continue;
        }
        let text = o.text();
        let stored = dumps_at(h, a.0);
        let own = matches!(b, Blob::Dump(l, Mutate::None) if stored.contains_key(l) && complete_dump(h, l, a.0));
        let bytes = b.bytes(&stored);
        let good = decode_dump(&bytes).is_some();
        if (own || good) && text != "ok:" {
            v.push(viol("restore-refused", r.0, format!("restoring an intact dump answered {text:?}")));
        }
        let corrupt = !good && !own;
        if corrupt && !text.starts_with("error:") {
            v.push(viol("restore-unreported", r.0, format!("restoring {} bytes that are no dump answered {text:?}", bytes.len())));
        }
    }
    v
}

/// the dump under this label came from the server as a complete reply
fn complete_dump(h: &H, label: &str, q: Q) -> bool {
    let last = h
        .evs
        .iter()
        .rev()
        .filter(|e| e.q < q)
        .find_map(|e| match &e.e {
            E::DumpStored { label: l, data } if l == label => Some((e.q, data)),
            _ => None,
        });
    match last {
        Some((_, d)) => !d.bytes(&BTreeMap::new()).is_empty(),
        None => false,
    }
}

/// a dump must be given whenever it is asked for, and it must carry no secret in the clear
pub fn dumps_clean(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let sec = secrets(h);
    for o in h.ops.values() {
        if !matches!(o.cmd(), Some(Cmd::Dump(_))) || o.rep.is_none() {
            continue;
        }
        let r = o.rep.unwrap();
        if o.plain() && o.end == ConnEnd::Eof && o.data.is_empty() && o.acc.is_some() && !h.exits.iter().any(|x| x.2 == o.phase && x.0 <= r.0 + 4) {
            v.push(viol("dump-empty", r.0, "a dump was answered with nothing".into()));
        }
        for x in sec.keys() {
            if find(&o.data, x.as_bytes()) {
                v.push(viol("dump-plain", r.0, format!("a dump contains {x} in the clear")));
            }
        }
    }
    // the same state must not look the same twice only because the nonce is constant
    let mut nonces: HashMap<Vec<u8>, (Q, &[u8])> = HashMap::new();
    for o in h.ops.values() {
        if matches!(o.cmd(), Some(Cmd::Dump(_))) && o.answered() && o.data.len() > 12 {
            if let Some((_, d)) = nonces.insert(o.data[..12].to_vec(), (o.rep.unwrap().0, &o.data)) {
                if d != &o.data[..] {
                    v.push(viol("dump-nonce", o.rep.unwrap().0, "two different dumps were encrypted with the same nonce".into()));
                }
            }
        }
    }
    v
}

fn find(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.len() >= needle.len() && hay.windows(needle.len()).any(|w| w == needle)
}

/// a dump restored into a fresh server gives the same tokens and times again
pub fn roundtrip(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        let Some(Cmd::Restore(b)) = o.cmd() else { continue };
        if o.data != b"ok:" {
            continue;
        }
        let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
        let Some(d) = decode_dump(&b.bytes(&dumps_at(h, a.0))) else { continue };
        // the first thing that happened to the server's accounts
        let touched = h.ops.values().any(|x| {
            x.phase == o.phase
                && x.id != o.id
                && x.acc.map_or(false, |y| y.0 < a.0)
                && matches!(x.cmd(), Some(Cmd::Show(..)) | Some(Cmd::Refresh(..)) | Some(Cmd::Restore(_)) | Some(Cmd::Reload) | Some(Cmd::Raw(_)))
        });
        if touched {
            continue;
        }
        let Some(conf) = h.conf_at(a.0) else { continue };
        // the next dump of this life
        let Some(o2) = h
            .ops
            .values()
            .filter(|x| x.phase == o.phase && matches!(x.cmd(), Some(Cmd::Dump(_))) && x.answered() && x.acc.unwrap().0 > r.0)
            .min_by_key(|x| x.acc.unwrap().0)
        else {
            continue;
        };
        let (_a2, r2) = (o2.acc.unwrap(), o2.rep.unwrap());
        let Some(e) = decode_dump(&o2.data) else { continue };
        let walls = h.evs.iter().any(|x| matches!(x.e, E::Wall { .. }) && x.q > a.0 && x.q < r2.0);
        for (name, (ad, ts)) in &d.accounts {
            let TokDump::Active { at, obtained, expiry, rt } = ts else { continue };
            let Some(sp) = conf.acct(name) else { continue };
            if !ad.matches(sp) {
                continue;
            }
            // undisturbed since
            let moved = h.ops.values().any(|x| {
                x.phase == o.phase
                    && x.acc.map_or(false, |y| y.0 > a.0 && y.0 < r2.0)
                    && match x.cmd() {
                        Some(Cmd::Revoke(n)) | Some(Cmd::Refresh(n, _)) | Some(Cmd::Show(n, _)) => n == name,
                        Some(Cmd::Reload) | Some(Cmd::Restore(_)) | Some(Cmd::Raw(_)) => true,
                        _ => false,
                    }
            }) || h.tries.iter().any(|t| t.phase == o.phase && t.q < r2.0 && sp.tok_host() == t.host);
            // a token that was due at once is refreshed, or dropped, at once
            let offs = h.wall_offs(a.1, r2.1);
            let due = (sys_ns(*expiry) / SEC as i64).saturating_sub(conf.before(sp).min(i64::MAX as u64) as i64).min((sys_ns(*obtained) / SEC as i64).saturating_add(conf.at_least(sp).min(i64::MAX as u64) as i64));
            let soon = due.saturating_mul(SEC as i64).saturating_sub(offs.1.max(offs.0)) < (r2.1 + h.slack + 5 * SEC) as i64;
            if moved || soon {
                continue;
            }
            match e.accounts.get(name).map(|x| &x.1) {
                Some(TokDump::Active { at: at2, obtained: ob2, expiry: ex2, rt: rt2 }) => {
                    if at != at2 || rt != rt2 {
                        v.push(viol("roundtrip", r2.0, format!("account {name}: restored {at} / {rt:?}, but the next dump has {at2} / {rt2:?}")));
                    } else if !walls {
                        let tol = (h.slack + SEC) as i64;
                        for (what, x, y) in [("obtained", sys_ns(*obtained), sys_ns(*ob2)), ("expiry", sys_ns(*expiry), sys_ns(*ex2))] {
                            // times before the machine's boot, or beyond what clocks can count,
                            // cannot be kept
                            let boot = a.1 as i64 - (h.case.phases[o.phase].boot0 as i64) - (h.starts[o.phase].1 as i64 - h.starts[o.phase].1 as i64);
                            let _ = boot;
                            if (x - y).abs() > tol && x < (1i64 << 62) && !too_old(h, o.phase, x) {
                                v.push(viol("roundtrip", r2.0, format!("account {name}: {what} time moved by {:.3} s", (y - x) as f64 / 1e9)));
                            }
                        }
                    }
                }
                x => v.push(viol("roundtrip", r2.0, format!("account {name}: restored {at}, but the next dump has {x:?}"))),
            }
        }
    }
    // pending authorisations stay with the life they were made in
    for o in h.ops.values() {
        if !matches!(o.cmd(), Some(Cmd::Show(..)) | Some(Cmd::Refresh(..))) || !o.answered() {
            continue;
        }
        if let Some(u) = o.text().strip_prefix("pending:") {
            if let Some(i) = h.url_ix.get(u) {
                if h.urls[*i].phase < o.phase {
                    v.push(viol("pending-carried", o.rep.unwrap().0, "an authorisation URL of an earlier life was given out".into()));
                }
            }
        }
    }
    v
}

/// does the (wall clock) time lie before this life's machine was booted?
fn too_old(h: &H, phase: usize, ns: i64) -> bool {
    let (_, t0) = h.starts[phase];
    let boot0 = h.case.phases[phase].boot0;
    let wall0 = h.wall_at(t0);
    ns < wall0 - boot0 as i64 + SEC as i64
}

// ------------------------------------------------------------------------ C17: notifications

pub fn notify(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let stalls = stall_slack(h) > 0;
    for (i, u) in h.urls.iter().enumerate() {
        let ph = u.phase;
        let (_, pt) = stop_q(h, ph);
        // bounds of the pending period
        let born = {
            // the request that made it
            let op = h
                .ops
                .values()
                .filter(|o| o.phase == ph && matches!(o.cmd(), Some(Cmd::Show(n, _)) | Some(Cmd::Refresh(n, _)) if *n == u.acct))
                .filter(|o| o.acc.map_or(false, |a| a.0 < u.q))
                .filter(|o| o.rep.map_or(true, |r| r.0 + 2 > u.q || u.via != "cli"))
                .max_by_key(|o| o.acc.unwrap().0);
            op.and_then(|o| o.acc)
        };
        let Some(born) = born else { continue };
        // earliest moment at which it may have ended
        let mut soft: (Q, T) = stop_q(h, ph);
        let mut add = |q: Q, t: T| {
            if q < soft.0 {
                soft = (q, t)
            }
        };
        for o in h.ops.values().filter(|o| o.phase == ph) {
            match &o.kind {
                OpKind::Browser { acct, .. } if *acct == u.acct => {
                    if let Some(c) = o.conn {
                        if c.0 > born.0 && (o.target.contains(&u.state) || o.sent.is_none()) {
                            add(c.0, c.1)
                        }
                    }
                }
                OpKind::Http { .. } => {
                    if let Some(c) = o.conn {
                        if c.0 > born.0 && h.case.notes.get("http-states").is_some() {
                            add(c.0, c.1)
                        }
                    }
                }
                OpKind::Cli { cmd, .. } => {
                    if let Some(a) = o.acc {
                        if a.0 > born.0 {
                            match cmd {
                                Cmd::Revoke(n) if *n == u.acct => add(a.0, a.1),
                                Cmd::Refresh(n, _) if *n == u.acct && a.0 > u.q => add(a.0, a.1),
                                Cmd::Restore(_) | Cmd::Raw(_) => add(a.0, a.1),
                                Cmd::Reload => {
                                    let keeps = {
                                        let r = o.rep.map_or(Q::MAX, |r| r.0);
                                        let cs = h.confs_in(a.0, r);
                                        cs.windows(2).all(|w| matches!((w[0].acct(&u.acct), w[1].acct(&u.acct)), (Some(x), Some(y)) if x.sec_eq(y)))
                                            && (o.answered() || !o.plain() == false)
                                    };
                                    if !keeps {
                                        add(a.0, a.1)
                                    }
                                }
                                _ => (),
                            }
                        }
                    }
                }
                _ => (),
            }
        }
        if let Some(n) = h.urls[i + 1..].iter().find(|n| n.acct == u.acct && n.phase == ph) {
            // its request came at some time before
            let op = h
                .ops
                .values()
                .filter(|o| o.phase == ph && matches!(o.cmd(), Some(Cmd::Show(x, _)) | Some(Cmd::Refresh(x, _)) if *x == u.acct))
                .filter_map(|o| o.acc)
                .filter(|a| a.0 > u.q && a.0 < n.q)
                .min();
            let a = op.unwrap_or((n.q, n.t));
            if a.0 > born.0 {
                add(a.0, a.1);
            }
        }
        // with a command configured all along
        let cs = h.confs_in(born.0, soft.0);
        let mine: Vec<&SpawnR> = h.spawns.iter().filter(|p| p.phase == ph && is("N1", p) && p.url == u.url).collect();
        for p in &mine {
            if p.acct != u.acct {
                v.push(viol("notify-wrong", p.q, format!("auth_notify_cmd ran for account {} with {}'s URL", p.acct, u.acct)));
            }
        }
        if !cs.is_empty() && cs.iter().all(|c| c.notify.is_some()) {
            // first announcement
            let lim = h.by(born.1, 0);
            let first = mine.first().map_or(T::MAX, |p| p.t);
            if first > lim && soft.1 > lim && pt > lim {
                v.push(viol("notify-late", u.q, format!("account {}: the authorisation requested at {} was announced {}", u.acct, s(born.1), if first == T::MAX { "never".into() } else { format!("only at {}", s(first)) })));
                continue;
            }
            let tol = if stalls { h.slack } else { 300 * MS };
            for (k, p) in mine.iter().enumerate() {
                if let Some(n) = mine.get(k + 1) {
                    let lo = h.confs_in(born.0, n.q).iter().map(|c| c.interval()).min().unwrap_or(0) * SEC;
                    if p.t + lo > n.t + tol {
                        v.push(viol("notify-often", n.q, format!("account {}: announced at {} and again at {} (interval {})", u.acct, s(p.t), s(n.t), s(lo))));
                        break;
                    }
                }
                // the interval in force from then on
                let seg = h.confs_in(p.q, soft.0);
                let hi = seg.iter().map(|c| c.interval()).max().unwrap_or(900) * SEC;
                let lim = h.boot_lim(p.t, p.t.saturating_add(hi).saturating_add(h.slack));
                let next = mine.get(k + 1).map_or(T::MAX, |n| n.t);
                if next > lim && soft.1 > lim && pt > lim {
                    v.push(viol("notify-late", p.q, format!("account {}: announced at {}, not again by {} (interval {})", u.acct, s(p.t), s(lim), s(hi))));
                    break;
                }
                // an interval that a reload shortens counts at once
                let late = h.uses.iter().enumerate().find_map(|(x, c)| {
                    let iv = h.spec(c.idx).filter(|_| c.phase == ph)?.interval().saturating_mul(SEC);
                    let lim = h.boot_lim(p.t, h.by(c.t1.max(p.t.saturating_add(iv)), 0));
                    let until = h.uses.get(x + 1).map_or(T::MAX, |n| n.t0);
                    (until > lim && next > lim && soft.1 > lim && pt > lim).then_some((c.t1, iv, lim))
                });
                if let Some((t1, iv, lim)) = late {
                    v.push(viol("notify-late", p.q, format!("account {}: announced at {}, not again by {} although the interval is {} since {}", u.acct, s(p.t), s(lim), s(iv), s(t1))));
                    break;
                }
            }
        }
        // never after it certainly ended
        let mut hard: Option<(T, &str)> = None;
        let mut put = |t: T, why: &'static str| {
            if hard.map_or(true, |x| x.0 > t) {
                hard = Some((t, why))
            }
        };
        for o in h.ops.values().filter(|o| o.phase == ph) {
            if matches!(o.cmd(), Some(Cmd::Revoke(n)) if *n == u.acct) && o.data == b"ok:" && o.acc.map_or(false, |a| a.0 > u.q) {
                put(o.rep.unwrap().1, "the account was revoked");
            }
        }
        if let Some(n) = h.urls[i + 1..].iter().find(|n| n.acct == u.acct && n.phase == ph) {
            put(n.t, "a newer one was made");
        }
        for (j, r) in h.reqs.iter().enumerate() {
            if r.phase == ph && r.is_code() && matches!(h.class(r), Class::Token | Class::Perm) && h.root_url(j) == Some(i) {
                if let Some(d) = r.done {
                    put(d.1, "it was completed");
                }
            }
        }
        for b in reload_barriers(h).iter().filter(|b| b.acct == u.acct && b.phase == ph && b.a.0 > u.q) {
            put(b.r.1, "its account was changed");
        }
        if let Some((t, why)) = hard {
            for p in &mine {
                if p.t > t + h.slack {
                    v.push(viol("notify-stale", p.q, format!("account {}: an authorisation was announced at {} although {why} at {}", u.acct, s(p.t), s(t))));
                    break;
                }
            }
        }
    }
    // only authorisations are announced
    for p in h.spawns.iter().filter(|p| is("N1", p)) {
        if p.url.is_empty() || p.acct.is_empty() {
            v.push(viol("notify-wrong", p.q, format!("auth_notify_cmd ran with account {:?} and URL {:?}", p.acct, p.url)));
        }
    }
    v
}

// ------------------------------------------------------------------------ C18: survival

/// The server of a phase neither exits nor gets stuck.
pub fn survives(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for (q, t, ph, code, sig, abort) in &h.exits {
        if !matches!(h.case.phases[*ph].mode, Mode::Server { .. }) {
            continue;
        }
        let asked = h.case.phases[*ph].ops.iter().any(|o| {
            let go = match &o.kind {
                OpKind::Term => true,
                OpKind::Cli { cmd: Cmd::Shutdown, .. } => h.ops.get(&o.id).map_or(false, |r| r.acc.map_or(false, |a| a.0 < *q)),
                OpKind::Cli { cmd: Cmd::Raw(b), .. } => b.bytes(&BTreeMap::new()).starts_with(b"shutdown:"),
                _ => false,
            };
            go
        });
        if *abort || !asked || *sig != libc::SIGTERM {
            // a server that never came up for a reason of its own (no listener) is another matter
            let served = h.evs.iter().any(|e| e.q < *q && matches!(&e.e, E::Fs { what, path, .. } if what == "bind" && *path == h.case.sock()) && in_phase(h, e.q) == *ph);
            if served || *abort {
                let last = h
                    .evs
                    .iter()
                    .filter(|e| e.q < *q)
                    .rev()
                    .find_map(|e| match &e.e {
                        E::Log { text, .. } if text.contains("panicked") || text.contains("overflow") || text.contains(".rs:") => Some(text.clone()),
                        _ => None,
                    })
                    .unwrap_or_default();
                v.push(viol(if *abort { "abort" } else { "exit" }, *q, format!("the server died at {} (code {code}, signal {sig}): {}", s(*t), last.chars().take(500).collect::<String>())));
            }
        }
    }
    v
}

/// once everything calms down, status and show are answered
pub fn answers(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        if !alive_end(h, ph) {
            continue;
        }
        let (_, pt) = phase_end(h, ph);
        for o in h.ops.values().filter(|o| o.phase == ph) {
            let OpKind::Http { https, .. } = o.kind else { continue };
            if !h.case.notes.get("final-web").map_or(false, |f| f.split(',').any(|x| x.parse() == Ok(o.id))) {
                continue;
            }
            let Some(conf) = h.spec(h.case.phases[ph].conf) else { continue };
            if (if https { &conf.https } else { &conf.http }) == &Some(None) {
                continue;
            }
            let name = if https { "HTTPS" } else { "HTTP" };
            let Some(c) = o.conn else {
                if o.refused || o.skipped {
                    v.push(viol("deaf-web", h.evs.last().map_or(0, |e| e.q), format!("the {name} listener refused connections at the end")));
                }
                continue;
            };
            let upto = o.rep.map_or(u64::MAX, |r| r.0);
            if h.evs.iter().any(|e| match &e.e {
                E::Fault { call, .. } => e.q <= upto && (e.q >= c.0 || call == "accept" && e.t + 60 * SEC >= c.1),
                _ => false,
            }) {
                continue;
            }
            // taken from the queue by an accept that was made to fail, however long that had been waiting
            if o.acc.is_none() && o.rep.is_some() && o.data.is_empty() && h.evs.iter().any(|e| e.q < c.0 && in_phase(h, e.q) == ph && matches!(&e.e, E::Fault { call, .. } if call == "accept")) {
                continue;
            }
            let lim = c.1 + h.slack + 3 * SEC;
            let late = o.rep.is_none() && pt > lim || o.rep.map_or(false, |r| r.1 > lim && !https);
            if late || o.rep.is_some() && !o.data.starts_with(b"HTTP/1.1 404") {
                v.push(viol("deaf-web", phase_end(h, ph).0, format!("a request to the {name} listener at {} was answered {:?}", s(c.1), o.text())));
            }
        }
        for o in h.ops.values().filter(|o| o.phase == ph && o.plain() && !o.by_proc) {
            let Some(cmd) = o.cmd() else { continue };
            let final_op = h.case.notes.get("final").map_or(false, |f| f.split(',').any(|x| x.parse() == Ok(o.id)));
            if !final_op {
                continue;
            }
            let Some(c) = o.conn else {
                if o.refused {
                    v.push(viol("deaf", h.evs.last().map_or(0, |e| e.q), format!("the control socket refused connections at the end ({cmd:?})")));
                }
                continue;
            };
            // a request whose own connection met an injected fault may go without an answer
            let upto = o.rep.map_or(u64::MAX, |r| r.0);
            if h.evs.iter().any(|e| match &e.e {
                E::Fault { call, .. } => e.q <= upto && (e.q >= c.0 || call == "accept" && e.t + 60 * SEC >= c.1),
                _ => false,
            }) {
                continue;
            }
            // taken from the queue by an accept that was made to fail, however long that had been waiting
            if o.acc.is_none() && o.rep.is_some() && o.data.is_empty() && h.evs.iter().any(|e| e.q < c.0 && in_phase(h, e.q) == ph && matches!(&e.e, E::Fault { call, .. } if call == "accept")) {
                continue;
            }
            // a client that has connected and not finished its request keeps others waiting (a finding
            // recorded under C19)
            if h.ops.values().any(|p| {
                p.phase == ph && p.id != o.id && p.cmd().is_some() && p.conn.map_or(false, |x| x.0 < c.0) && p.sent.map_or(true, |x| x.0 > c.0)
            }) {
                continue;
            }
            // dumps are not possible while the clock says it is before 1970
            if matches!(cmd, Cmd::Dump(_)) && h.wall_at(c.1) < 0 {
                continue;
            }
            let lim = c.1 + h.slack + 3 * SEC;
            if o.rep.is_none() && pt > lim || o.rep.map_or(false, |r| r.1 > lim) {
                v.push(viol("deaf", phase_end(h, ph).0, format!("{cmd:?} sent at {} was not answered", s(c.1))));
            } else if o.rep.is_some() && o.data.is_empty() && !matches!(cmd, Cmd::Shutdown | Cmd::Raw(_)) {
                v.push(viol("deaf", o.rep.unwrap().0, format!("{cmd:?} sent at {} was answered with nothing", s(c.1))));
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ C19: promptness

pub fn prompt(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values().filter(|o| o.plain() && !o.by_proc && !matches!(o.cmd(), None | Some(Cmd::Shutdown) | Some(Cmd::Raw(_)))) {
        let Some(sent) = o.sent.or(o.conn) else { continue };
        let (_, pt) = stop_q(h, o.phase);
        let lim = h.by(sent.1, 0);
        if o.rep.map_or(pt > lim, |r| r.1 > lim) {
            v.push(viol(
                "cli-late",
                o.rep.map_or(sent.0, |r| r.0),
                format!("{:?} sent at {} was answered {}", o.cmd().unwrap(), s(sent.1), o.rep.map_or("never".into(), |r| format!("only at {}", s(r.1)))),
            ));
        }
    }
    // a redirect followed is acted upon
    let kinds = try_kinds(h);
    for o in h.ops.values() {
        let OpKind::Browser { acct, what: Redirect::Code, muts, .. } = &o.kind else { continue };
        if !muts.is_empty() || !o.plain() {
            continue;
        }
        let (Some(sent), Some(_)) = (o.sent, o.conn) else { continue };
        let (_, pt) = stop_q(h, o.phase);
        let lim = h.by(sent.1, 0);
        // over TLS, the end of the reply comes with the end of the connection, which is not waited for
        let tls = h.case.phases[o.phase].ops.iter().any(|x| x.id == o.id && matches!(&x.kind, OpKind::Browser { .. })) && o.code.as_ref().and_then(|c| h.url_of_code(c)).map_or(true, |u| h.urls[u].redirect.starts_with("https"));
        if !tls && o.rep.map_or(pt > lim, |r| r.1 > lim) {
            v.push(viol("browser-late", sent.0, format!("the redirect of {acct} sent at {} was not answered in time", s(sent.1))));
        }
        // only where it must have been the outstanding one
        let Some(u) = o.code.as_ref().and_then(|c| h.url_of_code(c)) else { continue };
        let u = &h.urls[u];
        let other = h.ops.values().any(|x| {
            x.id != o.id
                && x.phase == o.phase
                && match &x.kind {
                    OpKind::Browser { acct: a, .. } => a == acct && x.conn.map_or(false, |c| c.0 > u.q && c.1 < lim),
                    OpKind::Cli { cmd: Cmd::Revoke(a) | Cmd::Refresh(a, _), .. } => a == acct && x.acc.map_or(false, |c| c.0 > u.q && c.1 < lim),
                    OpKind::Cli { cmd: Cmd::Reload | Cmd::Restore(_) | Cmd::Raw(_), .. } => x.acc.map_or(false, |c| c.1 < lim),
                    _ => false,
                }
        });
        if !other && u.phase == o.phase && pt > lim {
            let began = h.tries.iter().find(|t| kinds.get(&t.tr) == Some(&TryKind::Exch(o.id))).map(|t| t.t);
            if began.map_or(true, |t| t > lim) {
                v.push(viol(
                    "exchange-late-start",
                    sent.0,
                    format!("account {acct}: the redirect of {} led to an exchange {}", s(sent.1), began.map_or("never".into(), |t| format!("only at {}", s(t)))),
                ));
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ C20: HTTP bounds

pub fn http_bounds(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        let tls = match &o.kind {
            OpKind::Http { https, .. } => *https,
            OpKind::Browser { .. } => {
                let u = o.code.as_ref().and_then(|c| h.url_of_code(c));
                match u {
                    Some(u) => h.urls[u].redirect.starts_with("https"),
                    None => continue,
                }
            }
            _ => continue,
        };
        let bound = if tls { 80 * 1024 } else { 16384 + 8192 };
        let Some(c) = o.conn else { continue };
        // what the process took from the connection is bounded
        let taken = if o.rep.is_some() { o.consumed } else { 0 };
        if taken > bound {
            v.push(viol("overread", o.rep.unwrap().0, format!("request {} of {} bytes: {} bytes were read (bound {bound})", o.id, o.nsent, taken)));
        }
        let size = o.nsent;
        let plainish = o.opts().map_or(false, |x| x.cut.is_none() && x.close_after == 0 && !x.no_wait);
        let (_, pt) = stop_q(h, o.phase);
        let big = if tls { 80 * 1024 } else { 16384 + 8192 };
        let total = match &o.kind {
            OpKind::Http { data, .. } => data.bytes(&BTreeMap::new()).len() as u64,
            // (what is added to the redirect)
            OpKind::Browser { muts, .. } => muts
                .iter()
                .map(|m| match m {
                    UrlMut::ExtraHeader(x) => x.bytes(&BTreeMap::new()).len() as u64,
                    _ => 0,
                })
                .sum(),
            _ => 0,
        };
        if total > big + 1024 && plainish {
            // answered with an error, closed, no effect
            let gap = o.opts().unwrap().gap;
            let chunk = o.opts().unwrap().chunk.max(1) as u64;
            let need = if o.opts().unwrap().chunk == 0 { 0 } else { (big / chunk + 2) * gap };
            let lim = c.1 + need + h.slack + 2 * SEC;
            match o.rep {
                Some(r) if r.1 <= lim => {
                    let t = o.text();
                    if !t.is_empty() && !t.starts_with("HTTP/1.1 4") {
                        v.push(viol("oversize-accepted", r.0, format!("a request of {total} bytes was answered {:?}", short(&t))));
                    } else if t.is_empty() && !tls && !h.case.phases[o.phase].faults.iter().any(|f| f.call == "send" || f.call == "write") {
                        v.push(viol("oversize-silent", r.0, format!("a request of {total} bytes was closed without an answer")));
                    }
                }
                _ => {
                    if pt > lim {
                        v.push(viol("oversize-open", c.0, format!("a request of {total} bytes begun at {} was not refused by {}", s(c.1), s(lim))));
                    }
                }
            }
        }
        if total > 16384 + 8192 + 1024 && h.tries.iter().any(|t| t.br == Some(o.id)) {
            v.push(viol("oversize-accepted", c.0, format!("a request of {total} bytes led to an exchange")));
        }
        // well-formed requests within the limit are served
        if let OpKind::Browser { muts, what: Redirect::Code, .. } = &o.kind {
            let only_headers = !muts.is_empty() && muts.iter().all(|m| matches!(m, UrlMut::ExtraHeader(Blob::Cat(_))));
            if only_headers && o.plain() && size < 15_000 && o.sent.is_some() {
                if let Some(r) = o.rep {
                    if o.text().starts_with("HTTP/1.1 400") {
                        v.push(viol("undersize-refused", r.0, format!("a proper redirect of {size} bytes was answered {:?}", short(&o.text()))));
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ C21: secrets

/// secret -> (what it is, accounts it belongs to)
pub fn secrets(h: &H) -> BTreeMap<String, (&'static str, String)> {
    let mut m = BTreeMap::new();
    let mut not = BTreeSet::new();
    for r in &h.reqs {
        if let Some(x) = r.rep {
            let rep = &h.reps[x];
            // (an error reply issues nothing, whatever it says; and its text is logged as the reason)
            if rep.plan.status != 200 {
                not.extend(rep.at.clone());
                not.extend(rep.rt.clone());
            }
            if rep.kind.starts_with("token") && rep.plan.status == 200 {
                if let Some(a) = &rep.at {
                    m.insert(a.clone(), ("access token", r.acct.clone()));
                }
                if let Some(a) = &rep.rt {
                    m.insert(a.clone(), ("refresh token", r.acct.clone()));
                }
            }
        }
        if r.is_code() {
            if let Some(x) = r.get("code_verifier") {
                m.insert(x.to_string(), ("PKCE verifier", r.acct.clone()));
            }
        }
    }
    for c in h.codes.values() {
        m.insert(c.code.clone(), ("authorisation code", c.acct.clone()));
    }
    for c in h.confs.iter().flatten() {
        for a in &c.accts {
            if let Some(x) = &a.secret {
                m.insert(x.clone(), ("client secret", a.name.clone()));
            }
        }
    }
    m.retain(|k, _| k.len() >= 6 && !not.contains(k));
    m
}

/// Is this log line about the account? Names may be parts of each other.
fn logged_for(text: &str, acct: &str, all: &[String]) -> bool {
    // (not in what syslog puts before the message: time, host and pid)
    let text = text.split_once("]: ").map_or(text, |x| x.1);
    let has = |a: &str| {
        text.match_indices(a).any(|(i, _)| {
            let ok = |c: Option<char>| !c.map_or(false, |c| c.is_alphanumeric());
            ok(text[..i].chars().next_back()) && ok(text[i + a.len()..].chars().next())
        })
    };
    has(acct) && !all.iter().any(|o| o != acct && o.contains(acct) && has(o))
}

/// as a whole word (AT_a_1 is not in AT_a_12)
fn word_in(hay: &str, w: &str) -> bool {
    let mut from = 0;
    while let Some(i) = hay[from..].find(w) {
        let a = from + i;
        let b = a + w.len();
        let ok = |c: Option<char>| !c.map_or(false, |c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
        if ok(hay[b..].chars().next()) && ok(hay[..a].chars().next_back()) {
            return true;
        }
        from = a + 1;
        while !hay.is_char_boundary(from) {
            from += 1;
        }
        if from >= hay.len() {
            break;
        }
    }
    false
}

pub fn leaks(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let sec = secrets(h);
    let mut hosts: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for c in h.confs.iter().flatten() {
        for a in &c.accts {
            hosts.entry(a.name.clone()).or_default().insert(a.tok_host());
        }
    }
    let mut look = |q: Q, place: String, text: &str, except: Option<&str>| {
        for (x, (what, acct)) in &sec {
            if Some(*what) == except {
                continue;
            }
            if word_in(text, x) {
                v.push(viol("leak", q, format!("{what} {x} of {acct} appears in {place}")));
                return;
            }
            // or in a form that is as good
            if x.len() >= 12 && text.contains(&url_enc(x)) && url_enc(x) != *x {
                v.push(viol("leak", q, format!("{what} {x} of {acct} appears (encoded) in {place}")));
                return;
            }
            let e = format!("{x:?}");
            let j = serde_json::to_string(x).unwrap();
            for e in [e, j] {
                let e = &e[1..e.len() - 1];
                if x.len() >= 12 && e != x && text.contains(e) {
                    v.push(viol("leak", q, format!("{what} {x} of {acct} appears (escaped) in {place}")));
                    return;
                }
            }
        }
    };
    for e in h.evs {
        match &e.e {
            E::Log { src, text } => look(e.q, format!("the log ({src}): {:?}", short(text)), text, None),
            E::Spawn { argv, env, kind, .. } => {
                for a in argv {
                    look(e.q, format!("the arguments of {kind}"), a, None);
                }
                for (k, x) in env {
                    look(e.q, format!("the environment ({k}) of {kind}"), x, None);
                }
            }
            E::Stdout { data } => look(e.q, "the standard output".into(), &String::from_utf8_lossy(&data.bytes(&BTreeMap::new())), None),
            E::CliReply { op, data, .. } => {
                let Some(o) = h.ops.get(op) else { continue };
                let show = matches!(o.cmd(), Some(Cmd::Show(..)));
                let dump = matches!(o.cmd(), Some(Cmd::Dump(_)));
                if dump {
                    continue;
                }
                let t = String::from_utf8_lossy(&data.bytes(&BTreeMap::new())).to_string();
                if show && t.starts_with("access_token:") {
                    // only the account's own access token
                    look(e.q, format!("the reply to {:?}", o.cmd().unwrap()), &t, Some("access token"));
                } else {
                    look(e.q, format!("the reply to {:?}", o.cmd()), &t, None);
                }
            }
            E::BrReply { op, data, .. } => look(e.q, format!("the reply to browser request {op}"), &String::from_utf8_lossy(&data.bytes(&BTreeMap::new())), None),
            E::Url { url, acct, .. } => look(e.q, format!("{acct}'s authorisation URL"), url, None),
            E::TReq { host, form, head, path, .. } => {
                for (x, (what, acct)) in &sec {
                    if hosts.get(acct).map_or(false, |s| s.contains(host)) {
                        continue;
                    }
                    if form.iter().any(|(_, y)| y == x) || word_in(head, x) || word_in(path, x) {
                        look(e.q, format!("a request to {host}"), &format!("{} {head} {path}", form.iter().map(|f| f.1.as_str()).collect::<Vec<_>>().join(" ")), None);
                        let _ = what;
                        break;
                    }
                }
            }
            _ => (),
        }
    }
    v
}

fn url_enc(x: &str) -> String {
    url::form_urlencoded::byte_serialize(x.as_bytes()).collect()
}

// ------------------------------------------------------------------------ C22: one instance

pub fn instance(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        let p = &h.case.phases[ph];
        if !matches!(p.mode, Mode::Server { .. }) {
            continue;
        }
        let q0 = h.starts[ph].0;
        let q1 = h.starts.get(ph + 1).map_or(Q::MAX, |x| x.0);
        let evs: Vec<&Ev> = h.evs.iter().filter(|e| e.q >= q0 && e.q < q1).collect();
        let sock = h.case.sock();
        let fs = |w: &str| -> Vec<&&Ev> { evs.iter().filter(|e| matches!(&e.e, E::Fs { what, path, .. } if what == w && *path == sock)).collect() };
        let bind = fs("bind");
        let unlink = fs("unlink");
        let exit = h.exits.iter().find(|x| x.2 == ph);
        let faulty = !p.faults.is_empty() || h.case.notes.contains_key("start-fails");
        if p.sock == SockInit::Live {
            if !unlink.is_empty() || !bind.is_empty() {
                v.push(viol("disturbs-other", (unlink.first().or(bind.first()).unwrap()).q, "the running server's socket was removed or replaced".into()));
            }
            match exit {
                Some(x) if x.3 != 0 && !x.5 && x.4 == 0 => (),
                Some(x) => v.push(viol("second-instance", x.0, format!("the second server ended with code {} signal {}", x.3, x.4))),
                None => v.push(viol("second-instance", phase_end(h, ph).0, "the second server did not end".into())),
            }
            continue;
        }
        if !faulty {
            let cut = h.ends.iter().any(|e| e.0 >= q0 && e.0 < q1 && e.2 == "crash" && e.1 < h.starts[ph].1 + h.slack + 2 * SEC);
            // (or told to end while it was held up)
            let cut = cut || exit.map_or(false, |x| x.4 == 15 && x.1 < h.starts[ph].1 + h.slack + 2 * SEC);
            if bind.is_empty() && !cut {
                v.push(viol("no-takeover", phase_end(h, ph).0, format!("no socket was made (found at start: {:?}); exit {exit:?}", p.sock)));
            }
            if let Some(x) = exit {
                let asked = p.ops.iter().any(|o| matches!(o.kind, OpKind::Term | OpKind::Cli { cmd: Cmd::Shutdown, .. }));
                if !asked {
                    v.push(viol("no-takeover", x.0, format!("the server ended by itself with code {} signal {}", x.3, x.4)));
                }
            }
            // served at all
            for o in h.ops.values().filter(|o| o.phase == ph && !o.by_proc && o.plain()) {
                if o.refused && bind.first().map_or(false, |b| o_time(h, o).map_or(false, |t| t > b.t + h.slack)) && exit.map_or(true, |x| o_time(h, o).map_or(false, |t| t < x.1)) {
                    v.push(viol("no-takeover", bind[0].q, format!("{:?} was refused", o.kind)));
                }
            }
        }
        // the directory is private by the time the socket exists
        for b in &bind {
            if let E::Fs { arg, .. } = &b.e {
                if arg & 0o077 != 0 {
                    v.push(viol("not-private", b.q, format!("the socket was made in a directory with mode {arg:o}")));
                }
            }
        }
        // shutdown
        for o in h.ops.values().filter(|o| o.phase == ph && matches!(o.cmd(), Some(Cmd::Shutdown))) {
            if let Some(a) = o.acc.or(o.sent) {
                let (eq, et) = phase_end(h, ph);
                let done = exit.map(|x| x.1);
                if done.map_or(et > a.1 + h.slack, |t| t > a.1 + h.slack) {
                    v.push(viol("no-shutdown", eq, format!("shutdown sent at {} did not end the server", s(a.1))));
                }
            }
        }
        // timestamps
        if let Some(b) = bind.first() {
            let (eq, et) = stop_q(h, ph);
            let mut last = b.t;
            let six = 6 * 3600 * SEC + h.slack;
            let mut ts: Vec<(Q, T)> = evs
                .iter()
                .filter(|e| matches!(&e.e, E::Fs { what, path, arg: 0 } if what == "utimensat" && *path == sock))
                .map(|e| (e.q, e.t))
                .collect();
            ts.push((eq, et));
            for (q, t) in ts {
                let sus = suspended(h, last, t);
                if t.saturating_sub(last).saturating_sub(sus) > six {
                    v.push(viol("not-touched", q, format!("the socket's timestamps were not refreshed from {} to {}", s(last), s(t))));
                    break;
                }
                last = t;
            }
        }
        // detached if asked to
        if let Mode::Server { daemon, .. } = p.mode {
            let d = evs.iter().any(|e| matches!(e.e, E::Daemon));
            if daemon != d && !bind.is_empty() {
                v.push(viol("detach", bind[0].q, format!("detached: {d}, asked for: {daemon}")));
            }
        }
    }
    v
}

fn o_time(h: &H, o: &OpR) -> Option<T> {
    h.evs.iter().find(|e| matches!(&e.e, E::CliRefused { op } if *op == o.id)).map(|e| e.t)
}

// ------------------------------------------------------------------------ C23: client commands

#[derive(Debug, PartialEq)]
pub enum Want {
    /// exit 0 with exactly this on stdout
    Ok(Vec<u8>),
    /// exit 0, whatever is on stdout
    OkAny,
    Fail,
    /// exit 0, telling what the server said about itself (or that there is none)
    Info(Option<serde_json::Value>),
    /// cannot be told
    Any,
}

/// Does the output of `pizauth info` say so?
fn info_fits(c: &Case, args: &[String], out: &[u8], i: &Option<serde_json::Value>) -> bool {
    let Ok(t) = std::str::from_utf8(out) else { return false };
    if args.iter().any(|x| x == "-j") {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(t) else { return false };
        return (j["config_file"] == c.conf_path() || j["config_file"] == c.conf_arg())
            && j["cache_directory"] == c.cache_dir()
            && j["info_format_version"].is_u64()
            && j["server_running"] == i.is_some()
            && i.as_ref().map_or(j.get("server_info").is_none(), |x| j["server_info"] == *x);
    }
    match i {
        Some(x) => {
            let line = |k: &str, n: &str| t.lines().any(|l| l.trim() == format!("{n}: {}", x[k].as_str().unwrap_or("?")));
            t.lines().any(|l| l.trim() == "server running:") && line("http_port", "HTTP port") && line("https_port", "HTTPS port") && (x.get("https_pub_key").is_none() || line("https_pub_key", "HTTPS public key"))
        }
        None => t.lines().any(|l| l == "server not running"),
    }
}

pub fn client_want(args: &[String], got: &[u8], end: Option<ConnEnd>, connected: bool) -> Want {
    let cmd = args[0].as_str();
    if cmd == "info" {
        return match end {
            _ if !connected => Want::Info(None),
            Some(ConnEnd::Eof) => match serde_json::from_slice::<serde_json::Value>(got) {
                // a reply without the ports is not one of our server
                Ok(x) if !args.iter().any(|y| y == "-j") && !(x["http_port"].is_string() && x["https_port"].is_string()) => Want::Any,
                Ok(x) => Want::Info(Some(x)),
                Err(_) => Want::Info(None),
            },
            Some(ConnEnd::Reset) => Want::Info(None),
            _ => Want::Any,
        };
    }
    if !connected {
        return Want::Fail;
    }
    if cmd == "shutdown" {
        return Want::OkAny;
    }
    match end {
        Some(ConnEnd::Eof) => (),
        Some(ConnEnd::Reset) => return Want::Fail,
        _ => return Want::Any,
    }
    if cmd == "dump" {
        return if got.is_empty() { Want::Fail } else { Want::Ok(got.to_vec()) };
    }
    let Ok(t) = std::str::from_utf8(got) else { return Want::Fail };
    let with_nl = |x: &str| {
        let mut b = x.as_bytes().to_vec();
        b.push(b'\n');
        b
    };
    match cmd {
        "show" => match t.strip_prefix("access_token:") {
            Some("") => Want::Any,
            Some(x) => Want::Ok(with_nl(x)),
            None => Want::Fail,
        },
        "status" => match t.strip_prefix("ok:") {
            Some(x) => Want::Ok(with_nl(x)),
            None => Want::Fail,
        },
        "refresh" => {
            if t == "scheduled:" {
                Want::Ok(vec![])
            } else {
                Want::Fail
            }
        }
        "reload" | "restore" | "revoke" => {
            if t == "ok:" {
                Want::Ok(vec![])
            } else {
                Want::Fail
            }
        }
        _ => Want::Any,
    }
}

/// What a command line says, by the manual: `None` if it is not one of pizauth's.
pub struct Line {
    pub acct: String,
    pub u: bool,
}
pub fn line(args: &[String]) -> Option<Line> {
    let (flags, want) = match args[0].as_str() {
        "dump" | "reload" | "restore" | "shutdown" | "status" => ("v", 0),
        "info" => ("vjc", 0),
        "refresh" | "show" => ("vu", 1),
        "revoke" => ("v", 1),
        _ => return None,
    };
    let (mut free, mut u) = (vec![], false);
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        if a == "--" {
            free.extend(it.by_ref().cloned());
        } else if a == "-c" && flags.contains('c') {
            it.next();
        } else if a == "--verbose" {
        } else if a.len() > 1 && a.starts_with('-') {
            if !a[1..].chars().all(|c| flags.contains(c) && c != 'c') {
                return None;
            }
            u |= a.contains('u');
        } else {
            free.push(a.clone());
        }
    }
    if free.len() != want {
        return None;
    }
    Some(Line { acct: free.pop().unwrap_or_default(), u })
}

/// the least length of a client's request
fn req_len(args: &[String]) -> usize {
    match args[0].as_str() {
        "show" => "showtoken:withurl ".len() + 1,
        "refresh" => "refresh:withurl ".len() + 1,
        "restore" => "restore:".len(),
        x => x.len() + 1,
    }
}

/// the request that a command line stands for
fn client_asks(args: &[String], stdin: &[u8]) -> Vec<u8> {
    let Some(Line { acct: last, u }) = line(args) else { return vec![] };
    let u = if u { "withouturl" } else { "withurl" };
    let mut b = match args[0].as_str() {
        "show" => format!("showtoken:{u} {last}"),
        "refresh" => format!("refresh:{u} {last}"),
        "revoke" => format!("revoke:{last}"),
        x => format!("{x}:"),
    }
    .into_bytes();
    if args[0] == "restore" {
        b.extend(stdin);
    }
    b
}

pub fn clients(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for ph in 0..h.starts.len() {
        let p = &h.case.phases[ph];
        let Mode::Client { args } = &p.mode else { continue };
        let q0 = h.starts[ph].0;
        let q1 = h.starts.get(ph + 1).map_or(Q::MAX, |x| x.0);
        let evs: Vec<&Ev> = h.evs.iter().filter(|e| e.q >= q0 && e.q < q1).collect();
        let mut out = vec![];
        let mut err = String::new();
        for e in &evs {
            match &e.e {
                E::Stdout { data } => out.extend(data.bytes(&BTreeMap::new())),
                E::Log { text, .. } => err.push_str(text),
                _ => (),
            }
        }
        let sc = p.script.clone().unwrap_or_default();
        let live = p.sock == SockInit::Live;
        // a fault on making the connection: fatal, unless the client tries again
        let cfault = evs.iter().any(|e| matches!(&e.e, E::Fault { call, .. } if call == "socket" || call == "connect"));
        let connected = live && sc.connect_err.is_none();
        let mut got = sc.reply.bytes(&h.out.dumps);
        let mut end = Some(sc.end);
        if let Some(n) = sc.cut {
            got.truncate(n);
        }
        // a peer that closes early: what it sent before is nothing
        let reqlen = req_len(args);
        let closes = sc.close_after.map_or(false, |n| n <= reqlen);
        if closes {
            got.clear();
        }
        // faults on the client's own reads and writes
        let hard = p.faults.iter().any(|f| match &f.what {
            FaultKind::Err(e) => f.call != "stdout" && ![libc::EINTR].contains(e),
            _ => false,
        }) && evs.iter().any(|e| matches!(&e.e, E::Fault { call, .. } if call != "stdout"));
        let mut want = client_want(args, &got, end, connected);
        let usage = line(args).is_none();
        if usage {
            // nothing is asked of the server, whatever it would have said
            want = Want::Fail;
            if let Some(e) = evs.iter().find(|e| matches!(&e.e, E::Asked { data } if !data.bytes(&BTreeMap::new()).is_empty())) {
                v.push(viol("client-asks", e.q, format!("pizauth {} (not a valid command line) asked the server for something", args.join(" "))));
            }
        }
        if hard {
            // the write of the request, or the read of the answer, failed
            want = match want {
                Want::Fail => Want::Fail,
                _ => Want::Any,
            };
        }
        if usage {
        } else if cfault && connected || sc.close_after.is_some() && !closes && !["dump", "status", "reload"].contains(&args[0].as_str()) {
            want = Want::Any;
        }
        if closes && !usage && connected && args[0] != "shutdown" {
            want = match want {
                Want::Any => Want::Any,
                Want::Info(_) => Want::Info(None),
                _ => Want::Fail,
            };
        }
        let _ = &mut end;
        let exit = h.exits.iter().find(|x| x.2 == ph);
        let (q, _) = phase_end(h, ph);
        let Some(x) = exit else {
            let pieces = if sc.chunk > 0 { got.len() as u64 / sc.chunk as u64 + 1 } else { 1 };
            if sc.delay + pieces * sc.gap + h.slack + SEC > p.limit {
                // the reply had not ended yet
            } else if sc.end != ConnEnd::Hang || !connected {
                v.push(viol("client-hang", q, format!("pizauth {} did not end", args.join(" "))));
            } else if !out.is_empty() {
                v.push(viol("client-early", q, format!("pizauth {} printed {:?} before the reply was complete", args.join(" "), short(&String::from_utf8_lossy(&out)))));
            }
            continue;
        };
        if (x.5 || x.4 != 0) && !evs.iter().any(|e| matches!(&e.e, E::Fault { call, .. } if call == "stdout")) {
            v.push(viol("client-crash", x.0, format!("pizauth {} ended with signal {} (abort: {})", args.join(" "), x.4, x.5)));
            continue;
        }
        let d = format!("pizauth {} on a reply {:?}{} exited with {} and printed {:?}", args.join(" "), short(&String::from_utf8_lossy(&got)), if sc.end == ConnEnd::Reset { " (then reset)" } else { "" }, x.3, short(&String::from_utf8_lossy(&out)));
        // writing the output may fail
        let fired = evs.iter().any(|e| matches!(&e.e, E::Fault { call, .. } if call == "stdout"));
        let outfault = fired && p.faults.iter().any(|f| f.call == "stdout" && !matches!(f.what, FaultKind::Short(_) | FaultKind::Err(libc::EINTR)));
        match want {
            Want::Ok(o) => {
                if outfault {
                    // what could not be written is not to be passed over
                    if out != o && x.3 == 0 && x.4 == 0 && !x.5 {
                        v.push(viol("client-lies", x.0, d));
                    }
                } else if x.3 != 0 {
                    v.push(viol("client-refuses", x.0, d));
                } else if out != o {
                    v.push(viol("client-prints", x.0, d));
                }
            }
            Want::OkAny => {
                if x.3 != 0 {
                    v.push(viol("client-refuses", x.0, d));
                }
            }
            Want::Info(i) => {
                if outfault {
                    if x.3 == 0 && x.4 == 0 && !x.5 && !info_fits(&h.case, args, &out, &i) {
                        v.push(viol("client-lies", x.0, d));
                    }
                } else if x.3 != 0 {
                    v.push(viol("client-refuses", x.0, d));
                } else if !info_fits(&h.case, args, &out, &i) {
                    v.push(viol("client-prints", x.0, d));
                }
            }
            Want::Fail => {
                if x.3 == 0 {
                    v.push(viol("client-lies", x.0, d));
                } else if !out.is_empty() {
                    v.push(viol("client-prints", x.0, d));
                } else if err.trim().is_empty() {
                    v.push(viol("client-mute", x.0, d));
                }
            }
            Want::Any => {
                // at least: no success without saying so, no partial token
                if args[0] == "show" && x.3 != 0 && !out.is_empty() {
                    v.push(viol("client-prints", x.0, d));
                } else if args[0] == "show" && !out.is_empty() && !outfault {
                    let full = String::from_utf8_lossy(&got).strip_prefix("access_token:").map(|y| format!("{y}\n"));
                    if full.as_deref() != Some(&String::from_utf8_lossy(&out)) {
                        v.push(viol("client-prints", x.0, d));
                    }
                }
            }
        }
        // and it asked for what its arguments say
        let ask = client_asks(args, &p.stdin.bytes(&h.out.dumps));
        for e in &evs {
            if let E::Asked { data } = &e.e {
                let sent = data.bytes(&BTreeMap::new());
                if !hard && !usage && sent != ask {
                    v.push(viol("client-asks", e.q, format!("pizauth {} asked for {:?}", args.join(" "), short(&String::from_utf8_lossy(&sent)))));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ C25: status

pub fn statuses(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        if !matches!(o.cmd(), Some(Cmd::Status)) || !o.answered() {
            continue;
        }
        let (a, r) = (o.acc.unwrap(), o.rep.unwrap());
        let text = o.text();
        let cs = h.confs_in(a.0, r.0);
        if cs.is_empty() {
            continue;
        }
        let Some(body) = text.strip_prefix("ok:") else {
            if cs.iter().all(|c| !c.accts.is_empty()) {
                v.push(viol("status-incomplete", r.0, format!("status answered {:?}", short(&text))));
            }
            continue;
        };
        let lines: Vec<&str> = body.lines().collect();
        let mut sorted = lines.clone();
        sorted.sort();
        let mut by_name = lines.clone();
        by_name.sort_by_key(|l| l.split_once(": ").map_or(*l, |x| x.0));
        if sorted != lines && by_name != lines {
            v.push(viol("status-unsorted", r.0, format!("status lines are not in order: {lines:?}")));
        }
        let mut names: Vec<String> = lines.iter().map(|l| l.split_once(": ").map_or(l.to_string(), |x| x.0.to_string())).collect();
        names.sort();
        let fits = cs.iter().any(|c| {
            let mut n: Vec<String> = c.accts.iter().map(|a| a.name.clone()).collect();
            n.sort();
            n == names
        });
        if !fits {
            v.push(viol("status-incomplete", r.0, format!("status lists {names:?}")));
        }
    }
    v
}

// ------------------------------------------------------------------------ C26: failures told

/// Is this reason given? (No variable of a command can have a NUL in it, or any length.)
fn tells(msg: &str, why: &str) -> bool {
    let plain = |x: &str| x.chars().filter(|c| !c.is_control() && *c != '\u{fffd}').take(1000).collect::<String>();
    let clean = |x: &str| x.chars().filter(|c| !c.is_control() && *c != '\u{fffd}').collect::<String>();
    clean(msg).contains(&plain(why))
}

pub fn failures(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    // the reason is given
    for p in h.spawns.iter().filter(|p| is("N2", p)) {
        if p.msg.trim().is_empty() {
            v.push(viol("error-unexplained", p.q, format!("error_notify_cmd for {} without a message", p.acct)));
        }
    }
    // with a single failing redirect of the account in this life, everything is clear
    for ph in 0..h.starts.len() {
        let cs: Vec<&ConfSpec> = h.uses.iter().filter(|u| u.phase == ph).filter_map(|u| h.spec(u.idx)).collect();
        if cs.is_empty() {
            continue;
        }
        let (_, pt) = stop_q(h, ph);
        for acct in acct_names(h) {
            let brs: Vec<&OpR> = h
                .ops
                .values()
                .filter(|o| o.phase == ph && matches!(&o.kind, OpKind::Browser { acct: a, .. } if *a == acct) && o.sent.is_some())
                .collect();
            if brs.len() != 1 {
                continue;
            }
            let o = brs[0];
            let OpKind::Browser { what, muts, which, .. } = &o.kind else { continue };
            if !muts.is_empty() || !o.plain() || *which != Which::Latest {
                continue;
            }
            let disturbed = h.ops.values().any(|x| {
                x.phase == ph
                    && x.acc.is_some()
                    && match x.cmd() {
                        Some(Cmd::Revoke(n)) | Some(Cmd::Refresh(n, _)) => *n == acct,
                        Some(Cmd::Reload) | Some(Cmd::Restore(_)) | Some(Cmd::Raw(_)) => true,
                        _ => false,
                    }
            });
            if disturbed {
                continue;
            }
            // (reasons of which one must appear, when it was certain)
            let fail: Option<(Vec<String>, T)> = match what {
                Redirect::Error(e) => Some((vec![e.clone()], o.sent.unwrap().1)),
                Redirect::Code | Redirect::BadCode => {
                    let rs: Vec<(usize, &ReqR)> = h.reqs.iter().enumerate().filter(|(_, r)| r.phase == ph && r.acct == acct && r.is_code()).collect();
                    match rs.last() {
                        Some((_, r)) if h.class(r) == Class::Perm && r.done.is_some() => {
                            let rep = &h.reps[r.rep.unwrap()];
                            let mut why = vec![];
                            if rep.status >= 400 {
                                why.push(rep.status.to_string());
                            } else if let Body::OauthErr(e) = &rep.plan.body {
                                why.push(e.clone());
                            } else {
                                why.push(String::new());
                            }
                            if !r.valid && rep.status < 400 {
                                why.push("invalid_grant".into());
                            }
                            Some((why, r.done.unwrap().1))
                        }
                        _ => None,
                    }
                }
                _ => None,
            };
            let Some((why, t)) = fail else { continue };
            let lim = h.by(t, 0);
            if pt <= lim {
                continue;
            }
            let all_n2 = cs.iter().all(|c| c.error.is_some());
            let no_n2 = cs.iter().all(|c| c.error.is_none());
            if all_n2 {
                let n: Vec<&SpawnR> = h.spawns.iter().filter(|p| p.phase == ph && is("N2", p) && p.acct == acct).collect();
                if n.len() != 1 {
                    v.push(viol("error-count", o.sent.unwrap().0, format!("account {acct}: the failed authorisation of {} was reported {} times", s(t), n.len())));
                } else if !why.iter().any(|w| tells(&n[0].msg, w)) {
                    v.push(viol("error-unexplained", n[0].q, format!("account {acct}: reported as {:?}, which does not give the reason {why:?}", n[0].msg)));
                }
            } else if no_n2 {
                let n: Vec<&Ev> = h
                    .evs
                    .iter()
                    .filter(|e| in_phase(h, e.q) == ph)
                    .filter(|e| matches!(&e.e, E::Log { text, .. } if logged_for(text.split("failed").next().unwrap_or(""), &acct, &acct_names(h)) && text.contains("failed") && e.t + MS >= t && why.iter().any(|w| tells(text, w))))
                    .collect();
                if n.len() != 1 {
                    v.push(viol("error-count", o.sent.unwrap().0, format!("account {acct}: the failed authorisation of {} was logged {} times", s(t), n.len())));
                }
            }
            // and the next show starts over
            let showed = h.ops.values().filter(|x| x.phase == ph && x.answered() && x.acc.unwrap().1 > lim && matches!(x.cmd(), Some(Cmd::Show(n, _)) if *n == acct)).min_by_key(|x| x.acc.unwrap().0);
            if let Some(x) = showed {
                let tx = x.text();
                if !tx.starts_with("pending:") {
                    v.push(viol("error-undone", x.rep.unwrap().0, format!("show {acct} answered {:?} after the failed authorisation", short(&tx))));
                } else if let Some(i) = tx.strip_prefix("pending:").and_then(|u| h.url_ix.get(u)) {
                    if h.urls[*i].q < o.sent.unwrap().0 {
                        v.push(viol("error-undone", x.rep.unwrap().0, format!("show {acct} gave out the failed authorisation's URL again")));
                    }
                }
            }
        }
    }
    v
}


// ------------------------------------------------------------------------ C14: event dumps

/// a dump taken by an event command contains the change it was run for
pub fn event_dumps(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    let mut seen: HashMap<(usize, String), usize> = HashMap::new();
    for p in h.spawns.iter().filter(|p| is("N3", p)) {
        let good = p.event == "token_new" || p.event == "token_refreshed";
        let k = seen.entry((p.phase, p.acct.clone())).or_insert(0);
        if good {
            *k += 1;
        }
        let k = *k;
        let Some(o) = h.ops.get(&(1_000_000 + p.pid as u32)).filter(|o| o.phase == p.phase && o.by_proc && matches!(o.cmd(), Some(Cmd::Dump(_)))) else { continue };
        if !o.answered() {
            continue;
        }
        let r = o.rep.unwrap();
        let Some(d) = decode_dump(&o.data) else {
            v.push(viol("dump-broken", r.0, format!("the dump taken by the command for {} ({}) does not decode", p.acct, p.event)));
            continue;
        };
        let toks: Vec<&ReqR> = h
            .reqs
            .iter()
            .filter(|q| q.phase == p.phase && q.acct == p.acct && matches!(h.class(q), Class::Token | Class::Any) && q.rep.map_or(false, |x| h.reps[x].at.is_some() && h.reps[x].q < r.0))
            .collect();
        let entry = d.accounts.get(&p.acct).map(|x| &x.1);
        if !good || toks.len() < k {
            continue;
        }
        let own = toks[k - 1];
        match entry {
            Some(TokDump::Active { at, .. }) => {
                let i = toks.iter().position(|q| h.reps[q.rep.unwrap()].at.as_deref() == Some(at));
                let restored = h.ops.values().any(|x| matches!(x.cmd(), Some(Cmd::Restore(_))) && x.acc.map_or(false, |a| a.0 < r.0));
                if i.map_or(true, |i| i + 1 < k) && !restored {
                    v.push(viol("event-undumped", r.0, format!("the dump taken by the command for {} ({}) contains {at}, not what was announced", p.acct, p.event)));
                }
            }
            _ => {
                let from = h.reps[own.rep.unwrap()].q;
                let nort = versions(h, &p.acct, false).iter().any(|x| x.rt.is_none() && x.q >= from && x.q < r.0);
                let excuse = nort || disturbances(h, &p.acct, p.phase).iter().any(|x| x.0 >= from && x.0 < r.0)
                    || h.urls.iter().any(|u| u.acct == p.acct && u.q > from && u.t <= r.1 + h.slack)
                    || h.ops.values().any(|x| matches!(x.cmd(), Some(Cmd::Restore(_) | Cmd::Reload)) && x.phase == p.phase);
                if !excuse {
                    v.push(viol("event-undumped", r.0, format!("the dump taken by the command for {} ({}) does not contain the token announced", p.acct, p.event)));
                }
            }
        }
    }
    v
}

/// after a crash the last dump brings back what was announced
pub fn crash_recovery(h: &H) -> Vec<Viol> {
    let mut v = vec![];
    for o in h.ops.values() {
        let Some(Cmd::Restore(Blob::Dump(l, Mutate::None))) = o.cmd() else { continue };
        if o.phase == 0 || !complete_dump(h, l, o.acc.map_or(0, |a| a.0)) {
            continue;
        }
        let (Some(a), Some(r)) = (o.acc, o.rep) else { continue };
        if o.data != b"ok:" {
            v.push(viol("unrestorable", r.0, format!("restoring the dump saved before the crash answered {:?}", short(&o.text()))));
            continue;
        }
        let bytes = dumps_at(h, a.0).get(l).cloned().unwrap_or_default();
        let Some(d) = decode_dump(&bytes) else { continue };
        let Some(conf) = h.conf_at(a.0) else { continue };
        for (n, (ad, ts)) in &d.accounts {
            let TokDump::Active { at, expiry, rt, .. } = ts else { continue };
            let Some(sp) = conf.acct(n) else { continue };
            if !ad.matches(sp) {
                continue;
            }
            let show = h
                .ops
                .values()
                .filter(|x| x.phase == o.phase && matches!(x.cmd(), Some(Cmd::Show(m, _)) if m == n) && x.answered() && x.acc.unwrap().0 > r.0)
                .min_by_key(|x| x.acc.unwrap().0);
            let Some(x) = show else { continue };
            // refreshed since, or refused: the token restored is no longer the account's
            let refused = h.reqs.iter().any(|q| q.phase == o.phase && q.acct == *n && q.is_refresh() && q.q < x.rep.unwrap().0);
            let offs = h.wall_offs(a.1, x.rep.unwrap().1);
            let gone = rt.is_none() && sys_ns(*expiry).saturating_sub(offs.0.max(offs.1)) < ((x.rep.unwrap().1 + h.slack) as i64).saturating_add(conf.before(sp).saturating_mul(SEC).min(i64::MAX as u64) as i64);
            let t = x.text();
            if t.starts_with("pending:") && !refused && !gone && rt.is_some() {
                v.push(viol("unrecovered", x.rep.unwrap().0, format!("show {n} after restoring {at} answered {:?}", short(&t))));
            }
            if let Some(y) = t.strip_prefix("access_token:") {
                let newer = h.req_of_at(y).map_or(false, |q| h.reqs[q].phase == o.phase);
                if y != at && !newer {
                    v.push(viol("unrecovered", x.rep.unwrap().0, format!("show {n} after restoring {at} printed {y}")));
                }
            }
        }
    }
    v
}
