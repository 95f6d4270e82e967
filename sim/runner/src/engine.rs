//! Seeded search, confirmation, minimisation, replay and evidence.
use crate::exec::*;
use crate::gen::B;
use crate::hist::*;
use crate::props::*;
use crate::refm;
use crate::Viol;
use model::*;
use serde::{Deserialize, Serialize};
use sha2::Digest;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x9E37_79B9).wrapping_add(b));
    let x = r.next();
    let mut r = Rng::new(x ^ c.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

/// The one place where a case comes from: property, seed and number decide everything.
pub fn make_case(p: &Prop, seed: u64, n: u64) -> Case {
    // should a generator fail, that case is passed over
    (0..50)
        .find_map(|k| std::panic::catch_unwind(|| gen_case(p, seed, n + (k << 40))).ok())
        .expect("no case could be generated")
}

fn gen_case(p: &Prop, seed: u64, n: u64) -> Case {
    let pid = p.id.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let s = mix(seed, pid, n);
    let mut b = B::new(p.id, s);
    let tot: u64 = p.gens.iter().map(|g| g.0).sum();
    // the first cases go through the generators once each, so that even a short run meets all
    let k = if (n as usize) < p.gens.len() {
        n as usize
    } else {
        let mut x = b.r.below(tot);
        p.gens
            .iter()
            .position(|g| {
                if x < g.0 {
                    true
                } else {
                    x -= g.0;
                    false
                }
            })
            .unwrap()
    };
    (p.gens[k].2)(&mut b);
    b.c.notes.insert("gen".into(), p.gens[k].1.into());
    b.finish()
}

/// All violations of the property in this run, and whether one may need attribution.
pub fn judge(p: &Prop, h: &H) -> Vec<(Viol, bool)> {
    let mut v: Vec<(Viol, bool)> = vec![];
    // an oracle that fails says nothing
    let ask = |f: fn(&H) -> Vec<Viol>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(h))).unwrap_or_default();
    for f in p.checks {
        v.extend(ask(*f).into_iter().map(|x| (x, true)));
    }
    for f in p.soft {
        v.extend(ask(*f).into_iter().map(|x| (x, false)));
    }
    if !p.refm.is_empty() {
        for x in refm::check_all(h) {
            if p.refm == ["*"] || p.refm.contains(&x.kind.as_str()) {
                v.push((x, false));
            }
        }
    }
    for e in h.evs {
        if let E::Escape { what } = &e.e {
            v.push((Viol { kind: "harness-escape".into(), msg: what.clone(), q: e.q }, true));
        }
    }
    v
}

/// Remove operations; what was triggered by them follows the same trigger directly.
pub fn drop_ops(c: &Case, f: impl Fn(&Op) -> bool) -> Option<Case> {
    let mut c = c.clone();
    let mut any = false;
    for ph in &mut c.phases {
        let gone: BTreeMap<u32, Trig> = ph.ops.iter().filter(|o| f(o)).map(|o| (o.id, o.at.clone())).collect();
        if gone.is_empty() {
            continue;
        }
        any = true;
        ph.ops.retain(|o| !gone.contains_key(&o.id));
        for o in &mut ph.ops {
            for _ in 0..64 {
                let (id, d) = match &o.at {
                    Trig::Op(i, d) | Trig::Sent(i, d) => (*i, *d),
                    _ => break,
                };
                let Some(t) = gone.get(&id) else { break };
                let mut t = t.clone();
                add_delay(&mut t, d.saturating_add(5 * MS));
                o.at = t;
            }
        }
    }
    any.then_some(c)
}
fn add_delay(t: &mut Trig, x: u64) {
    match t {
        Trig::At(d)
        | Trig::TReq(_, _, d)
        | Trig::TRep(_, _, d)
        | Trig::Op(_, d)
        | Trig::Sent(_, d)
        | Trig::Spawn(_, _, d)
        | Trig::ProcEnd(_, _, d)
        | Trig::Try(_, _, d) => *d = d.saturating_add(x),
    }
}

/// Violations that are this property's own.
pub fn attributed(p: &Prop, app: &App, c: &Case, out: &RunOut) -> Result<Vec<Viol>, Trouble> {
    let h = H::new(c, out);
    let vs = judge(p, &h);
    if vs.is_empty() {
        return Ok(vec![]);
    }
    let mut own: Vec<Viol> = vec![];
    let mut other: Option<Vec<String>> = None;
    for (v, sure) in vs {
        if sure {
            own.push(v);
            continue;
        }
        let Some(w) = p.without else {
            own.push(v);
            continue;
        };
        if other.is_none() {
            other = Some(match w(c) {
                // nothing of this property's own in the scenario
                None => vec!["*".into()],
                Some(c2) => {
                    let o2 = app.run(&c2)?;
                    judge(p, &H::new(&c2, &o2)).into_iter().map(|x| x.0.kind).collect()
                }
            });
        }
        if !other.as_ref().unwrap().iter().any(|x| *x == v.kind || x == "*") {
            own.push(v);
        }
    }
    own.sort_by_key(|v| v.q);
    Ok(own)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub event: u64,
    pub verif_seed: u64,
    pub case_number: u64,
    pub generator: String,
    pub history_sha256: String,
    pub case: Case,
    pub history: Vec<String>,
}

pub fn digest(evs: &[Ev]) -> String {
    let mut h = sha2::Sha256::new();
    for e in evs {
        h.update(serde_json::to_vec(e).unwrap());
    }
    hex(&h.finalize())
}

pub fn show_ev(e: &Ev) -> String {
    let mut s = serde_json::to_string(&e.e).unwrap();
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str(" ...");
    }
    format!("#{} {:.6}s {}", e.q, e.t as f64 / 1e9, s)
}

// ------------------------------------------------------------------------------- minimisation

fn explicit(c: &Case, o: &RunOut) -> Case {
    let mut c = c.clone();
    for (ph, po) in c.phases.iter_mut().zip(&o.phases) {
        ph.sched.explicit = Some(po.devs.clone());
    }
    c
}

struct Min<'a> {
    p: &'a Prop,
    app: &'a App,
    kind: String,
    end: Instant,
    runs: u64,
}
impl Min<'_> {
    fn bad(&mut self, c: &Case) -> Option<(RunOut, Viol)> {
        if Instant::now() > self.end {
            return None;
        }
        self.runs += 1;
        let o = self.app.run(c).ok()?;
        let v = {
            let h = H::new(c, &o);
            let mut v = judge(self.p, &h);
            v.retain(|x| x.0.kind == self.kind && (x.1 || self.p.without.map_or(true, |w| w(c).is_some())));
            v.sort_by_key(|x| x.0.q);
            v.into_iter().next()?.0
        };
        Some((o, v))
    }
    /// try to remove elements of a list, in halves first
    fn ddmin<T: Clone>(&mut self, c: &mut Case, get: impl Fn(&Case) -> Vec<T>, set: impl Fn(&mut Case, Vec<T>)) {
        let mut xs = get(c);
        let mut n = xs.len().max(1);
        while n >= 1 && !xs.is_empty() {
            let mut i = 0;
            while i < xs.len() {
                if Instant::now() > self.end {
                    return;
                }
                let mut ys = xs.clone();
                let j = (i + n).min(ys.len());
                ys.drain(i..j);
                let mut d = c.clone();
                set(&mut d, ys.clone());
                if self.bad(&d).is_some() {
                    xs = ys;
                    *c = d;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
    }
}

pub fn minimise(p: &Prop, app: &App, c0: &Case, kind: &str, secs: u64) -> (Case, u64) {
    let mut m = Min { p, app, kind: kind.into(), end: Instant::now() + Duration::from_secs(secs), runs: 0 };
    let mut c = c0.clone();
    // a later phase that is not needed
    while c.phases.len() > 1 {
        let mut d = c.clone();
        d.phases.pop();
        if m.bad(&d).is_some() {
            c = d;
        } else {
            break;
        }
    }
    // first without any scheduling deviation at all, else with the recorded ones
    let mut d = c.clone();
    for ph in &mut d.phases {
        ph.sched.explicit = Some(vec![]);
    }
    if m.bad(&d).is_some() {
        c = d;
    } else if let Some((o, _)) = m.bad(&c) {
        let d = explicit(&c, &o);
        if m.bad(&d).is_some() {
            c = d;
        }
    }
    for round in 0..2 {
        for i in 0..c.phases.len() {
            // operations
            let ids: Vec<u32> = c.phases[i].ops.iter().map(|o| o.id).collect();
            let mut n = ids.len().max(1);
            let mut left = ids;
            loop {
                let mut k = 0;
                while k < left.len() {
                    let j = (k + n).min(left.len());
                    let cut: Vec<u32> = left[k..j].to_vec();
                    match drop_ops(&c, |o| cut.contains(&o.id)) {
                        Some(d) if m.bad(&d).is_some() => {
                            c = d;
                            left.drain(k..j);
                        }
                        _ => k += n,
                    }
                    if Instant::now() > m.end {
                        return (c, m.runs);
                    }
                }
                if n <= 1 {
                    break;
                }
                n /= 2;
            }
            m.ddmin(&mut c, |c| c.phases[i].faults.clone(), |c, v| c.phases[i].faults = v);
        }
        // world behaviour back to normal
        for k in c.conns.keys().cloned().collect::<Vec<_>>() {
            let mut d = c.clone();
            d.conns.remove(&k);
            if m.bad(&d).is_some() {
                c = d;
            }
        }
        for k in c.procs.keys().cloned().collect::<Vec<_>>() {
            let mut d = c.clone();
            d.procs.remove(&k);
            if m.bad(&d).is_some() {
                c = d;
            }
        }
        for k in c.plans.keys().cloned().collect::<Vec<_>>() {
            for i in 0..c.plans[&k].len() {
                if c.plans[&k][i] != Reply::ok(3600) {
                    let mut d = c.clone();
                    d.plans.get_mut(&k).unwrap()[i] = Reply::ok(3600);
                    if m.bad(&d).is_some() {
                        c = d;
                    }
                }
            }
            let mut d = c.clone();
            let v = d.plans.get_mut(&k).unwrap();
            while v.last() == Some(&Reply::ok(3600)) {
                v.pop();
            }
            if m.bad(&d).is_some() {
                c = d;
            }
        }
        for (k, v) in c.conns.clone() {
            for i in 0..v.len() {
                if v[i] != ConnFault::Ok {
                    let mut d = c.clone();
                    d.conns.get_mut(&k).unwrap()[i] = ConnFault::Ok;
                    if m.bad(&d).is_some() {
                        c = d;
                    }
                }
            }
        }
        // scheduling deviations
        for i in 0..c.phases.len() {
            if c.phases[i].sched.explicit.is_some() {
                m.ddmin(
                    &mut c,
                    |c| c.phases[i].sched.explicit.clone().unwrap_or_default(),
                    |c, v| c.phases[i].sched.explicit = Some(v),
                );
            }
            for _ in 0..6 {
                let mut d = c.clone();
                d.phases[i].limit = d.phases[i].limit * 2 / 3;
                if m.bad(&d).is_some() {
                    c = d;
                } else {
                    break;
                }
            }
        }
        if round == 0 && Instant::now() > m.end {
            break;
        }
    }
    (c, m.runs)
}

// ------------------------------------------------------------------------------- known findings

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub kind: String,
    pub gen: String,
    /// what the message must contain (`~` stands for a space)
    pub text: String,
    pub what: String,
}
pub fn known(file: &Path) -> Vec<Known> {
    let t = std::fs::read_to_string(file).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        // known: property=C19 kind=... case=... <what>
        if let Some(r) = l.strip_prefix("known: ") {
            let mut k = Known { property: String::new(), kind: String::new(), gen: String::new(), text: String::new(), what: String::new() };
            let mut rest = vec![];
            for w in r.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    k.property = x.into()
                } else if let Some(x) = w.strip_prefix("kind=") {
                    k.kind = x.into()
                } else if let Some(x) = w.strip_prefix("case=") {
                    k.gen = x.into()
                } else if let Some(x) = w.strip_prefix("text=") {
                    k.text = x.replace('~', " ")
                } else {
                    rest.push(w)
                }
            }
            k.what = rest.join(" ");
            v.push(k);
        }
    }
    v
}

// ------------------------------------------------------------------------------- search

#[derive(Default)]
pub struct Tally {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    nt_hashes: HashSet<u64>,
    gens: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    acts: BTreeMap<String, u64>,
    sim_ns: u128,
    susp_ns: u128,
    syncs: u64,
    mems: u64,
    switches: u64,
    threads: u64,
    reruns: u64,
    rerun_diff: u64,
    trouble: u64,
    trouble_msg: String,
    foreign: u64,
    unrepro: u64,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
}

fn tally(t: &mut Tally, p: &Prop, c: &Case, h: &H, out: &RunOut) {
    t.runs += 1;
    *t.gens.entry(c.notes["gen"].clone()).or_insert(0) += 1;
    let mut hash = 0u64;
    for ph in &out.phases {
        let s = &ph.stats;
        hash = hash.rotate_left(17) ^ s.ihash;
        t.sim_ns += s.sim_ns as u128;
        t.susp_ns += s.suspended as u128;
        t.syncs += s.syncs;
        t.mems += s.mems;
        t.switches += s.switches;
        t.threads += s.threads as u64;
        if s.preempts > 0 {
            *t.faults.entry("thread preempted".into()).or_insert(0) += s.preempts;
        }
        if s.stalls > 0 {
            *t.faults.entry("thread stalled".into()).or_insert(0) += s.stalls;
        }
    }
    let new = t.hashes.insert(hash);
    let nt = (p.nontrivial)(h);
    if nt {
        t.nontrivial += 1;
        t.nt_hashes.insert(hash);
    }
    let mut f = |k: String| *t.faults.entry(k).or_insert(0) += 1;
    for e in h.evs {
        match &e.e {
            E::Fault { call, .. } => f(format!("system call fault: {call}")),
            E::Net { state, .. } if *state != NetState::Up => f(format!("network {state:?}")),
            E::Dns { ok: false, .. } => f("name look-up failed".into()),
            E::TConn { res, .. } if *res != 0 => f(format!("provider connection failed (errno {res})")),
            E::Suspend { .. } => f("machine suspended".into()),
            E::Wall { .. } => f("wall clock jump".into()),
            E::Killed { .. } => f("command killed by the server".into()),
            E::Spawn { err, .. } if *err != 0 => f("command could not be started".into()),
            E::ProcEnd { code, sig, .. } if *code != 0 || *sig != 0 => f("command failed".into()),
            E::End { why } => {
                *t.ends.entry(why.clone()).or_insert(0) += 1;
                if why == "crash" {
                    f("process crash".into())
                }
            }
            E::TRep { n, .. } => {
                let r = h.reqs.iter().find(|r| r.n == *n).and_then(|r| r.rep).map(|i| &h.reps[i]);
                if let Some(r) = r {
                    match r.plan.net {
                        ReplyNet::Ok => {
                            if r.kind != "token" {
                                f(format!("provider refused ({})", r.status))
                            }
                        }
                        ReplyNet::Hang => f("provider never answered".into()),
                        ReplyNet::Reset => f("provider connection reset".into()),
                        ReplyNet::Eof => f("provider closed early".into()),
                        ReplyNet::Cut(..) | ReplyNet::CutHead(..) | ReplyNet::CutBody(..) => f("provider reply torn".into()),
                    }
                }
            }
            E::CliAccept { op } | E::BrAccept { op } => {
                if let Some(o) = h.ops.get(op).and_then(|o| o.opts()) {
                    if o.cut.is_some() {
                        f("client sent a torn request".into())
                    }
                    if o.end == Some(ConnEnd::Hang) {
                        f("client stalled".into())
                    }
                    if o.chunk > 0 {
                        f("client sent in pieces".into())
                    }
                    if o.close_after > 0 || o.no_wait {
                        f("client went away".into())
                    }
                }
            }
            _ => (),
        }
    }
    let mut a = |k: &str, n: u64| {
        if n > 0 {
            *t.acts.entry(k.into()).or_insert(0) += n
        }
    };
    a("CLI requests", h.cli.len() as u64);
    a("authorisation URLs", h.urls.len() as u64);
    a("token requests", h.reqs.len() as u64);
    a("connection attempts to providers", h.tries.len() as u64);
    a("commands started", h.spawns.len() as u64);
    a("process lives", h.starts.len() as u64);
    if (new && nt && t.samples.len() < 2) || (t.samples.is_empty() && t.runs > 20) {
        t.samples.push(serde_json::json!({
            "case_seed": c.seed,
            "generator": c.notes["gen"],
            "config": c.configs[c.phases[0].conf],
            "phases": c.phases.iter().map(|p| serde_json::json!({
                "mode": format!("{:?}", p.mode), "limit_s": p.limit / SEC,
                "operations": p.ops.iter().take(25).map(|o| { let mut s = format!("{}: at {:?} {:?}", o.id, o.at, o.kind); if s.len() > 300 { let mut n = 300; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n); } s }).collect::<Vec<_>>(),
                "faults": p.faults.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>(),
            })).collect::<Vec<_>>(),
            "nontrivial": nt,
            "events": h.evs.len(),
            "history_start": h.evs.iter().take(25).map(show_ev).map(|mut s| { if s.len() > 200 { let mut n = 200; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n); } s }).collect::<Vec<_>>(),
        }));
    }
}

pub struct Cfg {
    pub app: App,
    pub root: PathBuf,
    pub threads: usize,
}

/// Exit code of a check.
pub fn check(p: &'static Prop, cfg: &Cfg, tier: &str, seed: u64, budget: Duration, max: u64) -> i32 {
    let t0 = Instant::now();
    let end = t0 + budget;
    let hard = t0 + budget * 8;
    let least = 600;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let tal = Mutex::new(Tally::default());
    let found: Mutex<Option<(u64, Case, Viol)>> = Mutex::new(None);
    let knowns: Vec<Known> = known(&cfg.root.join("known_findings.txt")).into_iter().filter(|k| k.property == p.id).collect();
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| loop {
                let now = Instant::now();
                // a slow machine gets more time, up to a point
                if stop.load(Ordering::SeqCst) || now >= end && (next.load(Ordering::SeqCst) >= least || now >= hard) {
                    break;
                }
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= max {
                    break;
                }
                let c = make_case(p, seed, n);
                let out = match cfg.app.run(&c) {
                    Ok(o) => o,
                    Err(e) => {
                        let mut t = tal.lock().unwrap();
                        t.trouble += 1;
                        t.trouble_msg = format!("case {n} (seed {}): {}", c.seed, e.0);
                        // a run that cannot be driven to its end is a verdict only about what promises that
                        // things come to pass
                        drop(t);
                        if PROGRESS.contains(&p.id) && e.0.contains("no progress") {
                            if matches!(cfg.app.run(&c), Err(x) if x.0.contains("no progress")) {
                                stop.store(true, Ordering::SeqCst);
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((n, c, Viol { kind: "livelock".into(), msg: e.0, q: 0 }));
                                }
                            }
                        }
                        continue;
                    }
                };
                {
                    let h = H::new(&c, &out);
                    let mut t = tal.lock().unwrap();
                    tally(&mut t, p, &c, &h, &out);
                }
                if n % 64 == 5 {
                    if let Ok(o2) = cfg.app.run(&c) {
                        let mut t = tal.lock().unwrap();
                        t.reruns += 1;
                        if o2 != out {
                            t.rerun_diff += 1;
                        }
                    }
                }
                let vs = match attributed(p, &cfg.app, &c, &out) {
                    Ok(v) => v,
                    Err(_) => continue,
                };
                {
                    let h = H::new(&c, &out);
                    if vs.is_empty() && !judge(p, &h).is_empty() {
                        tal.lock().unwrap().foreign += 1;
                    }
                }
                for v in vs {
                    if let Some(k) = knowns.iter().find(|k| k.kind == v.kind && k.gen == c.notes["gen"] && v.msg.contains(&k.text)) {
                        *tal.lock().unwrap().known.entry(k.what.clone()).or_insert(0) += 1;
                        continue;
                    }
                    // must be repeatable
                    let again = cfg
                        .app
                        .run(&c)
                        .ok()
                        .map(|o| judge(p, &H::new(&c, &o)).iter().any(|x| x.0.kind == v.kind))
                        .unwrap_or(false);
                    if !again {
                        tal.lock().unwrap().unrepro += 1;
                        continue;
                    }
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map_or(true, |x| x.0 > n) {
                        *f = Some((n, c.clone(), v));
                    }
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut t = tal.into_inner().unwrap();
    let mut rc = 0;
    for (w, n) in &t.known {
        println!("KNOWN-FINDING: property={} {w} ({n} of this run's cases)", p.id);
    }
    let mut viols = 0;
    if let Some((n, c, v)) = found.into_inner().unwrap() {
        viols = 1;
        rc = 1;
        let path = if v.kind == "livelock" {
            write_replay(cfg, p, seed, n, &c, &v, None)
        } else {
            let (c2, runs) = minimise(p, &cfg.app, &c, &v.kind, 25);
            eprintln!("minimised in {runs} runs");
            // what the minimised case shows
            let fin = cfg.app.run(&c2).ok().and_then(|o| {
                let v2 = judge(p, &H::new(&c2, &o)).into_iter().map(|x| x.0).find(|x| x.kind == v.kind)?;
                Some((v2, o))
            });
            match fin {
                Some((v2, o)) => write_replay(cfg, p, seed, n, &c2, &v2, Some(&o)),
                None => {
                    let o = cfg.app.run(&c).ok();
                    write_replay(cfg, p, seed, n, &c, &v, o.as_ref())
                }
            }
        };
        println!("violation of {}: [{}] {}", p.id, v.kind, v.msg);
        println!("found by case {n} (generator {}) of VERIF_SEED={seed}", c.notes["gen"]);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    } else if t.trouble * 50 > t.runs {
        rc = 3;
        println!("harness trouble in {} of {} runs: {}", t.trouble, t.runs, t.trouble_msg);
    } else if t.runs < 20 {
        rc = 3;
        println!("too few runs: {}", t.runs);
    }
    if t.rerun_diff > 0 {
        println!("note: {} of {} repeated runs differed", t.rerun_diff, t.reruns);
    }
    if t.samples.is_empty() {
        t.samples.push(serde_json::json!({"none": "no case completed"}));
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nt_hashes.len(),
            "rule": format!("Each case is drawn from VERIF_SEED, the property and a running number: a scenario (generator), a schedule policy and a fault plan. {} Distinct: different hash over the whole sequence of scheduling decisions and system calls of all threads.", p.rule),
            "samples": t.samples,
            "generators": t.gens,
            "distinct_interleavings": t.hashes.len(),
            "nontrivial_runs": t.nontrivial,
            "runs_per_hour": (t.runs as f64 * 3600.0 / search_s.max(0.001)) as u64,
            "seeds_per_hour": (t.runs as f64 * 3600.0 / search_s.max(0.001)) as u64,
            "simulated_seconds": (t.sim_ns / SEC as u128) as u64,
            "simulated_seconds_suspended": (t.susp_ns / SEC as u128) as u64,
            "faults_injected": t.faults,
            "activity": t.acts,
            "synchronisation_points": t.syncs,
            "instrumented_memory_accesses": t.mems,
            "context_switches": t.switches,
            "threads_simulated": t.threads,
            "determinism_reruns": t.reruns,
            "determinism_mismatches": t.rerun_diff,
            "violations_not_repeatable": t.unrepro,
            "violations_of_other_properties_set_aside": t.foreign,
            "runs_lost_to_harness_trouble": t.trouble,
            "run_endings": t.ends,
            "known_findings_met": t.known,
            "real_components": "the whole pizauth binary built from /repo (server, all its threads, client commands, configuration parser, ureq, rustls, std)",
            "stub_components": "operating system kernel (threads, futexes, sockets, files, clocks, processes, randomness), OAuth providers and name service, browsers, shell commands, and for client checks the server",
        },
        "assumptions": assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viols,
    });
    let dir = cfg.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{}: {} runs ({} non-trivial, {} distinct schedules), {} s simulated, {:.1} s, {} trouble, {} set aside -> {}",
        p.id,
        t.runs,
        t.nontrivial,
        t.hashes.len(),
        (t.sim_ns / SEC as u128) as u64,
        search_s,
        t.trouble,
        t.foreign,
        if rc == 0 { "held" } else { "see above" }
    );
    if t.trouble > 0 {
        println!("last trouble: {}", t.trouble_msg);
    }
    rc
}

fn assumptions() -> Vec<String> {
    [
        "The interposed C library and TSan entry points cover every source of nondeterminism pizauth meets; the runs repeated for comparison agreed.",
        "Threads interleave at system calls, lock operations and instrumented memory accesses under sequential consistency.",
        "The simulated kernel, provider and shell behave as their documentation says where pizauth depends on it.",
        "Promptness is judged with a slack of 1.5 s of simulated time plus every stall injected into the run.",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect()
}

fn write_replay(cfg: &Cfg, p: &Prop, seed: u64, n: u64, c: &Case, v: &Viol, o: Option<&RunOut>) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", p.id, seed, n));
    let mut c = c.clone();
    if let Some(o) = o {
        c = explicit(&c, o);
    }
    // the history exactly as the replay file's case gives it
    let o2 = cfg.app.run(&c).ok();
    let r = Replay {
        property: p.id.into(),
        kind: v.kind.clone(),
        message: v.msg.clone(),
        event: v.q,
        verif_seed: seed,
        case_number: n,
        generator: c.notes.get("gen").cloned().unwrap_or_default(),
        history_sha256: o2.as_ref().map(|o| digest(&o.evs)).unwrap_or_default(),
        history: o2.map(|o| o.evs.iter().map(show_ev).collect()).unwrap_or_default(),
        case: c,
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    path
}

/// Properties that a server whose threads run on without ever coming to an end breaks.
const PROGRESS: &[&str] = &["C05", "C08", "C11", "C13", "C17", "C18", "C19", "C26", "C29", "C30"];

pub fn replay(cfg: &Cfg, file: &str, verbose: bool) -> i32 {
    let r: Replay = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 3;
        }
    };
    let Some(p) = prop(&r.property) else { return 3 };
    let o = match cfg.app.run(&r.case) {
        Ok(o) => o,
        Err(e) => {
            if r.kind == "livelock" && e.0.contains("no progress") {
                println!("VIOLATION property={} replay={file}", p.id);
                return 1;
            }
            eprintln!("{}", e.0);
            return 3;
        }
    };
    if verbose {
        for e in &o.evs {
            println!("{}", show_ev(e));
        }
    }
    let same = digest(&o.evs) == r.history_sha256;
    println!("history {} the recorded one ({} events)", if same { "is identical to" } else { "differs from" }, o.evs.len());
    let vs = judge(p, &H::new(&r.case, &o));
    for (v, _) in &vs {
        println!("[{}] at event {}: {}", v.kind, v.q, v.msg);
    }
    if vs.iter().any(|v| v.0.kind == r.kind) {
        println!("VIOLATION property={} replay={file}", p.id);
        1
    } else {
        println!("not reproduced");
        0
    }
}

/// Same seed twice, and the recorded schedule replayed explicitly: all histories must agree.
pub fn selftest(cfg: &Cfg, seed: u64, n: u64) -> i32 {
    let bad = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let all: Vec<&'static Prop> = props().iter().collect();
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n * all.len() as u64 {
                    break;
                }
                let p = all[(i % all.len() as u64) as usize];
                let c = make_case(p, seed, i / all.len() as u64);
                let a = cfg.app.run(&c);
                let b = cfg.app.run(&c);
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        let x = explicit(&c, &a);
                        let e = cfg.app.run(&x);
                        let e = e.map(|e| e.evs).unwrap_or_default();
                        if a != b || a.evs != e {
                            bad.fetch_add(1, Ordering::SeqCst);
                            println!("{} case {}: {} ", p.id, i / all.len() as u64, if a != b { "runs differ" } else { "explicit schedule differs" });
                            let k = (0..a.evs.len()).find(|k| a.evs.get(*k) != e.get(*k)).unwrap_or(0);
                            println!("  {:?}\n  {:?}", a.evs.get(k), e.get(k));
                            if a != b {
                                differ(&a, &b);
                            }
                        }
                    }
                    (a, b) => {
                        bad.fetch_add(1, Ordering::SeqCst);
                        println!("{} case {}: {:?} {:?}", p.id, i / all.len() as u64, a.err(), b.err());
                    }
                }
            });
        }
    });
    let b = bad.load(Ordering::SeqCst);
    println!("selftest: {} cases, {b} bad", n * all.len() as u64);
    (b > 0) as i32
}

fn differ(a: &RunOut, b: &RunOut) {
    for (i, (x, y)) in a.phases.iter().zip(&b.phases).enumerate() {
        let (s, u) = (&x.stats, &y.stats);
        if x != y {
            println!(
                "  phase {i}: syncs {} {} mems {} {} blocks {} {} switches {} {} ihash {} devs {}",
                s.syncs, u.syncs, s.mems, u.mems, s.blocks, u.blocks, s.switches, u.switches, s.ihash == u.ihash, x.devs == y.devs
            );
            for (k, v) in &s.calls {
                if u.calls.get(k) != Some(v) {
                    println!("    calls {k}: {v} {:?}", u.calls.get(k));
                }
            }
        }
    }
    if let Some(k) = a.evs.iter().zip(&b.evs).position(|(x, y)| x != y) {
        println!("  of {} {}:\n  {}\n  {}", a.evs.len(), b.evs.len(), show_ev(&a.evs[k]), show_ev(&b.evs[k]));
    } else {
        println!("  events {} {}", a.evs.len(), b.evs.len());
    }
}

pub fn kinds_of(p: &Prop, cfg: &Cfg, seed: u64, n0: u64, n: u64) {
    // debugging aid: all violation kinds over a range of cases
    let ks: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
    let next = AtomicU64::new(n0);
    let nt = AtomicU64::new(0);
    let tr: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n0 + n {
                    break;
                }
                let mut c = make_case(p, seed, i);
                if let Some(x) = std::env::var("PZ_CAP").ok().and_then(|x| x.parse().ok()) {
                    for ph in &mut c.phases {
                        ph.sched.cap = x;
                    }
                }
                let t0 = Instant::now();
                let rr = cfg.app.run(&c);
                let el = t0.elapsed().as_millis();
                if el > 1500 {
                    let n = rr.as_ref().map_or(0, |o| o.evs.len());
                    tr.lock().unwrap().insert(format!("slow {i} [{}]: {el} ms, {n} events", c.notes["gen"]));
                }
                match rr {
                    Err(e) => {
                        tr.lock().unwrap().insert(format!("{i}: {}", e.0));
                    }
                    Ok(o) => {
                        if std::env::var("PZ_STATS").is_ok() {
                            for ph in &o.phases {
                                let s = &ph.stats;
                                println!("stats {} {i} [{}] syncs {} mems {} blocks {} switches {} threads {} calls {} ms {el}", p.id, c.notes["gen"], s.syncs, s.mems, s.blocks, s.switches, s.threads, s.calls.values().sum::<u64>());
                            }
                        }
                        let h = H::new(&c, &o);
                        if (p.nontrivial)(&h) {
                            nt.fetch_add(1, Ordering::SeqCst);
                        }
                        let own: Vec<String> = attributed(p, &cfg.app, &c, &o).unwrap_or_default().into_iter().map(|v| v.kind).collect();
                        for (v, _) in judge(p, &h) {
                            let mut k = ks.lock().unwrap();
                            let name = format!("{}{} [{}]", if own.contains(&v.kind) { "" } else { "(other) " }, v.kind, c.notes["gen"]);
                            let e = k.entry(name).or_insert((0, i, v.msg.clone()));
                            e.0 += 1;
                            if i < e.1 {
                                e.1 = i;
                                e.2 = v.msg.clone();
                            }
                        }
                    }
                }
            });
        }
    });
    for (k, (n, i, m)) in ks.lock().unwrap().iter() {
        println!("{k}: {n} times, first case {i}: {}", m.chars().take(400).collect::<String>());
    }
    for t in tr.lock().unwrap().iter() {
        println!("trouble {t}");
    }
    println!("{}: {} of {n} non-trivial", p.id, nt.load(Ordering::SeqCst));
}

/// The first violation that any property's check finds (for judging changes to the program).
pub fn any(cfg: &Cfg, seed: u64, n0: u64, n: u64, only: &[String]) -> i32 {
    let ps: Vec<&'static Prop> = crate::props::props().into_iter().filter(|p| only.is_empty() || only.iter().any(|x| x == p.id)).collect();
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(0);
    let trouble = AtomicU64::new(0);
    let kn = known(&cfg.root.join("known_findings.txt"));
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n * ps.len() as u64 || stop.load(Ordering::SeqCst) > 0 {
                    break;
                }
                let p = ps[i as usize % ps.len()];
                let c = make_case(p, seed, n0 + i / ps.len() as u64);
                match cfg.app.run(&c) {
                    Err(_) => {
                        trouble.fetch_add(1, Ordering::SeqCst);
                    }
                    Ok(o) => {
                        for v in attributed(p, &cfg.app, &c, &o).unwrap_or_default() {
                            if kn.iter().any(|k| k.property == p.id && k.kind == v.kind && k.gen == c.notes["gen"] && v.msg.contains(&k.text)) {
                                continue;
                            }
                            if stop.fetch_add(1, Ordering::SeqCst) == 0 {
                                println!("{} case {} [{}] {}: {}", p.id, n0 + i / ps.len() as u64, c.notes["gen"], v.kind, v.msg.chars().take(200).collect::<String>());
                            }
                            break;
                        }
                    }
                }
            });
        }
    });
    let t = trouble.load(Ordering::SeqCst);
    if stop.load(Ordering::SeqCst) > 0 {
        1
    } else {
        println!("nothing, {} cases, {t} troubles", n * ps.len() as u64);
        0
    }
}
