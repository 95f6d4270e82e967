//! The simulator core: virtual clocks, task scheduler, event queue, history.
use crate::raw;
use crate::world::{WEv, World};
use model::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

pub static mut SIM: *mut Sim = core::ptr::null_mut();

// Fast-path counters for instrumentation hooks. Only the thread holding the baton touches them.
pub static mut SYNCS: u64 = 0;
pub static mut SYNC_NEXT: u64 = u64::MAX;
pub static mut MEMS: u64 = 0;
/// so much work between two records is worth one of its own
const BUSY_SYNCS: u64 = 100_000;
const BUSY_MEMS: u64 = 2_000_000;
const BUSY_TMOS: u64 = 200;
pub static mut MEM_NEXT: u64 = u64::MAX;
pub static DYING: AtomicU32 = AtomicU32::new(0);
pub static mut LAZY: u64 = 0;

const FAIR: u64 = 4000;
const BURST: usize = 5;
const FAIR_M: u64 = 4_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Key {
    Obj(usize),
    Futex(usize),
    Join(u32),
    Child,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dl {
    /// absolute CLOCK_MONOTONIC-like (suspend not counted), expressed as world time minus suspended time
    Mono(u64),
    /// absolute wall-clock ns
    Real(i64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    None,
    Key,
    Timeout,
    Signal,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TState {
    Run,
    Block { keys: Vec<Key>, dl: Option<Dl>, seq: u64 },
    Done,
}

pub struct Task {
    pub id: u32,
    pub state: TState,
    pub park: Box<AtomicU32>,
    pub stalled_until: u64,
    pub wake: Wake,
    pub real: u64,
    pub dns_fault: BTreeMap<String, ConnFault>,
    pub last_try: u32,
    pub br: Option<u32>,
}

pub struct Sim {
    pub case: Case,
    pub phase: usize,
    pub ph: Phase,
    pub t: u64,
    pub t0: u64,
    pub limit: u64,
    pub susp: u64,
    pub wall: i64,
    pub tasks: Vec<Task>,
    /// the tasks which are not over
    pub live: Vec<u32>,
    pub cur: u32,
    pub runq: VecDeque<u32>,
    pub evq: BTreeMap<(u64, u64), WEv>,
    pub evseq: u64,
    pub q: u64,
    pub hist: Vec<Ev>,
    /// synchronisation points, memory accesses and time at the last record
    pub idle: (u64, u64, u64),
    /// timed waits that have run out since
    pub tmos: u64,
    pub devs: Vec<Dev>,
    pub st: Stats,
    pub srng: Rng,
    pub erng: Rng,
    ex_s: VecDeque<Dev>,
    ex_m: VecDeque<Dev>,
    ex_b: VecDeque<Dev>,
    armed: u64,
    next_s: u64,
    next_m: u64,
    next_b: u64,
    last_switch: u64,
    pub calls: BTreeMap<&'static str, u64>,
    pub pending_sig: u32,
    pub sig_handler: usize,
    pub sig_flags: i32,
    pub k: crate::kern::Kern,
    pub w: World,
    pub dead: bool,
    blkseq: u64,
}

/// While armed: how often the thread is preempted, how often that is a stall, and for how many points
const ARMED_PPM: u64 = 25_000;
const ARMED_STALL: u64 = 700_000;
const ARMED_SPAN: u64 = 100;

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

impl Sim {
    pub fn new(inp: SimIn) -> Sim {
        let ph = inp.case.phases[inp.phase].clone();
        let c = &inp.carry;
        let t0 = c.t + ph.down;
        let sched = ph.sched.clone();
        let (mut ex_s, mut ex_m, mut ex_b) = (VecDeque::new(), VecDeque::new(), VecDeque::new());
        if let Some(ref e) = sched.explicit {
            for d in e {
                match d.c {
                    's' => ex_s.push_back(*d),
                    'm' => ex_m.push_back(*d),
                    _ => ex_b.push_back(*d),
                }
            }
        }
        let mut s = Sim {
            phase: inp.phase,
            t: t0,
            t0,
            limit: t0.saturating_add(ph.limit),
            susp: 0,
            wall: c.wall.wrapping_add(ph.wall_shift),
            tasks: Vec::new(),
            live: vec![0],
            cur: 0,
            runq: VecDeque::new(),
            evq: BTreeMap::new(),
            evseq: 0,
            q: c.q,
            hist: Vec::new(),
            idle: (0, 0, 0),
            tmos: 0,
            devs: Vec::new(),
            st: Stats::default(),
            srng: Rng::new(sched.seed),
            erng: Rng::new(inp.case.seed.wrapping_mul(31).wrapping_add(inp.phase as u64 + 7)),
            ex_s,
            ex_m,
            ex_b,
            armed: 0,
            next_s: 0,
            next_m: 0,
            next_b: 0,
            last_switch: 0,
            calls: BTreeMap::new(),
            pending_sig: 0,
            sig_handler: 0,
            sig_flags: 0,
            k: crate::kern::Kern::new(),
            w: World::new(&inp),
            dead: false,
            blkseq: 0,
            ph,
            case: inp.case,
        };
        s.tasks.push(Task {
            id: 0,
            state: TState::Run,
            park: Box::new(AtomicU32::new(0)),
            stalled_until: 0,
            wake: Wake::None,
            real: unsafe { libc::pthread_self() as u64 },
            dns_fault: BTreeMap::new(),
            last_try: 0,
            br: None,
        });
        s.st.threads = 1;
        s.draw_s();
        s.draw_m();
        s.draw_b();
        s
    }

    fn explicit(&self) -> bool {
        self.ph.sched.explicit.is_some()
    }
    fn draw_s(&mut self) {
        self.next_s = if self.explicit() {
            self.ex_s.front().map_or(u64::MAX, |d| d.n)
        } else {
            let now = unsafe { SYNCS };
            let n = if now < self.armed { now.saturating_add(self.srng.geometric(ARMED_PPM)) } else { u64::MAX };
            if n < self.armed {
                n
            } else {
                self.armed.max(now).saturating_add(self.srng.geometric(self.ph.sched.sync_ppm))
            }
        };
        self.set_sync_next();
    }
    /// The current thread has just been given something to work on: perhaps it is stalled while it does.
    pub fn arm(&mut self) {
        let p = self.ph.sched.arm_ppm;
        if p == 0 || self.explicit() || self.st.stalls >= self.ph.sched.max_stalls as u64 {
            return;
        }
        if self.srng.below(1_000_000) < p {
            let now = unsafe { SYNCS };
            self.armed = now + ARMED_SPAN;
            let n = now.saturating_add(self.srng.geometric(ARMED_PPM));
            if n < self.next_s && n < self.armed {
                self.next_s = n;
                self.set_sync_next();
            }
        }
    }
    fn set_sync_next(&mut self) {
        unsafe { SYNC_NEXT = self.next_s.min(self.last_switch + FAIR) };
    }
    fn draw_m(&mut self) {
        self.next_m = if self.explicit() {
            self.ex_m.front().map_or(u64::MAX, |d| d.n)
        } else {
            unsafe { MEMS }.saturating_add(self.srng.geometric(self.ph.sched.mem_ppm))
        };
        unsafe { MEM_NEXT = self.next_m.min((MEMS / FAIR_M + 1) * FAIR_M) };
    }
    fn draw_b(&mut self) {
        self.next_b = if self.explicit() {
            self.ex_b.front().map_or(u64::MAX, |d| d.n)
        } else {
            self.st.blocks.saturating_add(self.srng.geometric(self.ph.sched.blk_ppm))
        };
    }

    // ---- clocks -----------------------------------------------------------------------------
    pub fn mono(&self) -> u64 {
        self.t - self.t0 - self.susp
    }
    pub fn clock(&self, id: i32) -> Option<i128> {
        let up = (self.t - self.t0) as i128;
        Some(match id {
            0 | 5 => self.t as i128 + self.wall as i128,
            1 | 4 | 6 => self.ph.boot0 as i128 + up - self.susp as i128,
            7 => self.ph.boot0 as i128 + up,
            2 | 3 => up,
            _ => return None,
        })
    }
    /// Convert an absolute time on clock `id` to a deadline
    pub fn abs_dl(&self, id: i32, ns: i128) -> Dl {
        match id {
            0 | 5 => Dl::Real(ns.clamp(i64::MIN as i128, i64::MAX as i128) as i64),
            7 => {
                // CLOCK_BOOTTIME sleeps: approximate by treating the remaining time as monotonic
                let rem = ns - self.clock(7).unwrap();
                Dl::Mono((self.mono() as i128 + rem).clamp(0, u64::MAX as i128) as u64)
            }
            _ => Dl::Mono((ns - self.ph.boot0 as i128).clamp(0, u64::MAX as i128) as u64),
        }
    }
    pub fn rel_dl(&self, ns: u64) -> Dl {
        Dl::Mono(self.mono().saturating_add(ns))
    }
    fn dl_world(&self, d: Dl) -> u64 {
        match d {
            Dl::Mono(m) => m.saturating_add(self.t0).saturating_add(self.susp),
            Dl::Real(r) => (r as i128 - self.wall as i128).clamp(0, u64::MAX as i128) as u64,
        }
    }

    // ---- history ----------------------------------------------------------------------------
    pub fn rec(&mut self, e: E) {
        // work without any visible effect
        let (sy, me) = unsafe { (SYNCS - self.idle.0, MEMS - self.idle.1) };
        if sy > BUSY_SYNCS || me > BUSY_MEMS || self.tmos > BUSY_TMOS {
            let q = self.q;
            self.q += 1;
            self.hist.push(Ev { q, t: self.t, e: E::Busy { from: self.idle.2, syncs: sy, mems: me, tmos: self.tmos } });
        }
        self.tmos = 0;
        self.idle = unsafe { (SYNCS, MEMS, self.t) };
        let q = self.q;
        self.q += 1;
        self.hist.push(Ev { q, t: self.t, e });
    }
    pub fn after(&mut self, d: u64, e: WEv) {
        let s = self.evseq;
        self.evseq += 1;
        self.evq.insert((self.t.saturating_add(d), s), e);
    }
    pub fn at(&mut self, t: u64, e: WEv) {
        let s = self.evseq;
        self.evseq += 1;
        self.evq.insert((t.max(self.t), s), e);
    }

    // ---- scheduling -------------------------------------------------------------------------
    fn mix(&mut self, x: u64) {
        let h = self.st.ihash ^ x;
        self.st.ihash = h.wrapping_mul(0x100_0000_01b3).rotate_left(23) ^ (h >> 29);
    }

    pub fn flush_lazy(&mut self) {
        unsafe {
            self.t += LAZY;
            LAZY = 0;
        }
    }

    /// Is anything done?
    fn pump(&mut self) -> bool {
        let mut any = false;
        // due world events, then due timers
        while let Some((&(t, s), _)) = self.evq.iter().next() {
            if t > self.t {
                break;
            }
            let e = self.evq.remove(&(t, s)).unwrap();
            crate::world::handle(self, e);
            any = true;
        }
        for k in 0..self.live.len() {
            let i = self.live[k];
            if let TState::Block { dl: Some(d), .. } = self.tasks[i as usize].state {
                if self.dl_world(d) <= self.t {
                    self.ready(i, Wake::Timeout);
                    self.tmos += 1;
                    any = true;
                }
            }
        }
        if self.pending_sig > 0 && self.sig_handler > 1 && unsafe { !crate::IN_SIG } {
            // Deliver to a runnable thread if there is one; otherwise interrupt a blocked one.
            let run = self
                .runq
                .iter()
                .any(|i| self.tasks[*i as usize].stalled_until <= self.t)
                || self.tasks[self.cur as usize].state == TState::Run;
            if !run {
                any = true;
                if let Some(i) = self.live.iter().copied().find(|i| {
                    matches!(self.tasks[*i as usize].state, TState::Block { .. })
                        && self.tasks[*i as usize].stalled_until <= self.t
                }) {
                    self.ready(i, Wake::Signal);
                }
            }
        }
        any
    }

    pub fn ready(&mut self, i: u32, w: Wake) {
        let t = &mut self.tasks[i as usize];
        if matches!(t.state, TState::Block { .. }) {
            t.state = TState::Run;
            t.wake = w;
            self.runq.push_back(i);
        }
    }

    pub fn notify(&mut self, k: Key) -> u32 {
        self.notify_n(k, u32::MAX)
    }
    pub fn notify_n(&mut self, k: Key, n: u32) -> u32 {
        let mut c: Vec<(u64, u32)> = self
            .live
            .iter()
            .map(|i| &self.tasks[*i as usize])
            .filter_map(|t| match &t.state {
                TState::Block { keys, seq, .. } if keys.contains(&k) => Some((*seq, t.id)),
                _ => None,
            })
            .collect();
        c.sort();
        let mut m = 0;
        for (_, i) in c {
            if m >= n {
                break;
            }
            self.ready(i, Wake::Key);
            m += 1;
        }
        m
    }

    /// Choose the next task to run; advances time while nothing is runnable.
    fn choose(&mut self, pick: Option<u32>) -> u32 {
        loop {
            self.pump();
            let cands: Vec<usize> = (0..self.runq.len())
                .filter(|i| self.tasks[self.runq[*i] as usize].stalled_until <= self.t)
                .collect();
            if !cands.is_empty() {
                let idx = if let Some(p) = pick {
                    p as usize % cands.len()
                } else {
                    self.st.blocks += 1;
                    if self.st.blocks >= self.next_b {
                        let p = if self.explicit() {
                            let d = self.ex_b.pop_front().unwrap();
                            d.pick
                        } else {
                            (self.srng.next() & 0xffff) as u32
                        };
                        let n = self.st.blocks;
                        let p = (p as usize % cands.len()) as u32;
                        if p != 0 {
                            self.devs.push(Dev { c: 'b', n, pick: p, stall: 0 });
                        }
                        self.draw_b();
                        p as usize % cands.len()
                    } else {
                        0
                    }
                };
                return self.runq.remove(cands[idx]).unwrap();
            }
            let mut nt = u64::MAX;
            if let Some((&(t, _), _)) = self.evq.iter().next() {
                nt = nt.min(t);
            }
            for t in self.live.iter().map(|i| &self.tasks[*i as usize]) {
                match &t.state {
                    TState::Block { dl: Some(d), .. } => nt = nt.min(self.dl_world(*d)),
                    TState::Run if t.stalled_until > self.t => nt = nt.min(t.stalled_until),
                    _ => (),
                }
            }
            if nt >= self.limit {
                self.t = self.t.max(self.limit.min(nt));
                self.finish(if nt == u64::MAX { "idle" } else { "limit" });
            }
            self.t = self.t.max(nt);
        }
    }

    unsafe fn hand_over(&mut self, next: u32) {
        self.st.switches += 1;
        self.last_switch = SYNCS;
        self.set_sync_next();
        self.cur = next;
        self.mix(next as u64 + 1);
        let p: *const AtomicU32 = &*self.tasks[next as usize].park;
        (*p).store(1, Ordering::SeqCst);
        raw::futex_wake(p as *const u32);
    }

    pub unsafe fn park(p: *const AtomicU32) {
        while (*p).load(Ordering::SeqCst) == 0 {
            raw::futex_wait(p as *const u32, 0);
        }
        (*p).store(0, Ordering::SeqCst);
        // A thread whose simulated life is over still runs a little (it frees memory): let it end.
        let d = DYING.swap(0, Ordering::SeqCst);
        if d != 0 {
            let me = raw::sc3(libc::SYS_getpid, 0, 0, 0);
            while raw::sc3(libc::SYS_tgkill, me as usize, d as usize, 0) == 0 {
                raw::sc3(libc::SYS_sched_yield, 0, 0, 0);
            }
        }
    }

    fn transfer(&mut self, me: u32, next: u32) {
        transfer_raw(self, me, next)
    }

    pub fn block(&mut self, keys: Vec<Key>, dl: Option<Dl>) -> Wake {
        block_raw(self, keys, dl)
    }
    fn block1(&mut self, keys: Vec<Key>, dl: Option<Dl>) -> (u32, u32) {
        let me = self.cur;
        self.flush_lazy();
        self.check_over();
        let seq = self.blkseq;
        self.blkseq += 1;
        self.mix(0x5500 + keys.len() as u64);
        self.tasks[me as usize].state = TState::Block { keys, dl, seq };
        self.tasks[me as usize].wake = Wake::None;
        let n = self.choose(None);
        (me, n)
    }
    pub fn sleep(&mut self, ns: u64) {
        let dl = self.rel_dl(ns);
        loop {
            if self.block(vec![], Some(dl)) == Wake::Timeout {
                return;
            }
        }
    }

    fn check_over(&mut self) {
        if self.t >= self.limit {
            self.finish("limit");
        }
        // a program that has gone wild is not watched for ever
        let cap = if self.ph.sched.cap == 0 { 4_000_000 } else { self.ph.sched.cap };
        if unsafe { SYNCS >= cap || MEMS >= cap.saturating_mul(16) } {
            self.finish("busy");
        }
    }

    /// A synchronisation point: time passes a little, other threads may run.
    pub fn sync_point(&mut self, cost: u64, tag: u64) {
        unsafe {
            SYNCS += 1;
        }
        self.flush_lazy();
        self.t += cost;
        self.mix(tag ^ ((self.cur as u64) << 8));
        self.check_over();
        self.pump();
        self.sync_slow();
    }

    pub fn sync_slow(&mut self) {
        let n = unsafe { SYNCS };
        if n >= self.next_s {
            let (pick, stall) = if self.explicit() {
                let d = self.ex_s.pop_front().unwrap();
                (d.pick, d.stall)
            } else {
                self.gen_dev()
            };
            self.draw_s();
            self.preempt('s', n, pick, stall);
        } else if n >= self.last_switch + FAIR {
            // fairness: a thread that spins must let the others run
            self.last_switch = n;
            self.set_sync_next();
            self.t += 10 * US;
            self.check_over();
            let me = self.cur;
            self.runq.push_back(me);
            let nx = self.choose(Some(0));
            self.transfer(me, nx);
        }
    }
    pub fn mem_slow(&mut self) {
        let n = unsafe { MEMS };
        self.flush_lazy();
        if n % FAIR_M == 0 {
            // code that computes for long takes time and gives way
            self.t += 4 * MS;
        }
        self.check_over();
        if n < self.next_m {
            unsafe { MEM_NEXT = self.next_m.min((n / FAIR_M + 1) * FAIR_M) };
            let me = self.cur;
            self.runq.push_back(me);
            let nx = self.choose(Some(0));
            self.transfer(me, nx);
            return;
        }
        let (pick, stall) = if self.explicit() {
            let d = self.ex_m.pop_front().unwrap();
            (d.pick, d.stall)
        } else {
            self.gen_dev()
        };
        self.draw_m();
        self.preempt('m', n, pick, stall);
    }

    fn gen_dev(&mut self) -> (u32, u64) {
        let pick = (self.srng.next() & 0xffff) as u32;
        let mut stall = 0;
        if self.st.stalls < self.ph.sched.max_stalls as u64
            && self.srng.below(1_000_000)
                < if unsafe { SYNCS } < self.armed { ARMED_STALL } else { self.ph.sched.stall_ppm }
        {
            // log-uniform between 100us and stall_max
            let mut hi = self.ph.sched.stall_max.max(200 * US);
            let lo = 100 * US;
            let mut k = 0;
            while hi > lo {
                hi /= 4;
                k += 1;
            }
            let j = self.srng.below(k + 1);
            let top = (self.ph.sched.stall_max.max(200 * US)) >> (2 * j);
            stall = self.srng.range((top / 4).max(1), top.max(2));
        }
        (pick, stall)
    }

    fn preempt(&mut self, c: char, n: u64, pick: u32, stall: u64) {
        let me = self.cur;
        let any = self.pump();
        let others = self
            .runq
            .iter()
            .filter(|i| self.tasks[**i as usize].stalled_until <= self.t)
            .count();
        if others == 0 && stall == 0 {
            if any || c == 's' && n >= self.last_switch + FAIR {
                // the world went on here (or fairness was due): a repetition has to look here, too
                self.devs.push(Dev { c, n, pick: 0, stall: 0 });
            }
            return;
        }
        let pick = if others > 0 { pick % others as u32 } else { 0 };
        self.devs.push(Dev { c, n, pick, stall });
        self.st.preempts += 1;
        if stall > 0 {
            self.st.stalls += 1;
            self.st.stall_total += stall;
            self.tasks[me as usize].stalled_until = self.t.saturating_add(stall);
            self.rec(E::Stall { task: me, dur: stall });
        }
        self.runq.push_back(me);
        let nx = self.choose(Some(pick));
        self.transfer(me, nx);
    }

    /// Threads that have been started get to run: a thread may start a few more before they do, but
    /// not any number.
    pub fn burst(&mut self) {
        let n = self.runq.iter().filter(|i| self.tasks[**i as usize].stalled_until <= self.t).count();
        if n >= BURST {
            let me = self.cur;
            self.runq.push_back(me);
            let nx = self.choose(Some(0));
            self.transfer(me, nx);
        }
    }

    pub fn yield_now(&mut self) {
        let me = self.cur;
        self.runq.push_back(me);
        let nx = self.choose(None);
        self.transfer(me, nx);
    }

    /// The current task is over.
    pub unsafe fn task_exit(&mut self) {
        let me = self.cur;
        self.flush_lazy();
        self.tasks[me as usize].state = TState::Done;
        self.live.retain(|i| *i != me);
        self.notify(Key::Join(me));
        let n = self.choose(None);
        self.hand_over(n);
    }

    pub fn daemonise(&mut self) {
        let me = self.cur;
        for i in 0..self.tasks.len() {
            if i as u32 != me {
                self.tasks[i].state = TState::Done;
            }
        }
        self.runq.clear();
        self.live = vec![me];
        self.rec(E::Daemon);
    }

    pub fn count(&mut self, call: &'static str) -> u64 {
        let c = self.calls.entry(call).or_insert(0);
        *c += 1;
        *c
    }
    /// Look for an injected fault for the nth call of this kind.
    pub fn fault(&mut self, call: &'static str) -> Option<FaultKind> {
        let n = self.count(call);
        let f = self
            .ph
            .faults
            .iter()
            .find(|f| f.call == call && f.n == n)
            .map(|f| f.what.clone())?;
        self.rec(E::Fault { call: call.to_string(), n });
        if let FaultKind::Delay(d) = f {
            self.sleep(d);
            return None;
        }
        Some(f)
    }

    pub fn finish(&mut self, why: &str) -> ! {
        if !self.dead {
            self.dead = true;
            self.rec(E::End { why: why.to_string() });
            self.st.syncs = unsafe { SYNCS };
            self.st.mems = unsafe { MEMS };
            self.st.sim_ns = self.t - self.t0;
            self.st.suspended = self.susp;
            self.st.calls = self.calls.iter().map(|(k, v)| (k.to_string(), *v)).collect();
            let carry = self.w.carry(&self.case, self.t, self.q, self.wall, &self.k);
            let out = SimOut {
                evs: std::mem::take(&mut self.hist),
                devs: std::mem::take(&mut self.devs),
                stats: self.st.clone(),
                carry,
            };
            let b = serde_json::to_vec(&out).unwrap();
            unsafe { raw::write_all(1, &b) };
        }
        unsafe { raw::exit_group(0) }
    }
}

// Other threads change the simulator while this one is parked, so the functions that park work on a
// raw pointer and are never inlined: no reference is assumed unaliased across the switch.
#[inline(never)]
fn transfer_raw(s: *mut Sim, me: u32, next: u32) {
    unsafe {
        if me == next {
            (*s).cur = me;
            return;
        }
        let p: *const AtomicU32 = &*(&(*s).tasks)[me as usize].park;
        (*s).hand_over(next);
        Sim::park(p);
    }
}
#[inline(never)]
fn block_raw(s: *mut Sim, keys: Vec<Key>, dl: Option<Dl>) -> Wake {
    unsafe {
        let (me, n) = (*s).block1(keys, dl);
        transfer_raw(s, me, n);
        let w = (&(*s).tasks)[me as usize].wake;
        if w == Wake::Signal || (*s).pending_sig > 0 {
            crate::run_signals();
        }
        if w == Wake::Timeout {
            (*s).arm();
        }
        w
    }
}
