//! Running cases: one operating-system process per simulated process life.
use model::*;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Clone)]
pub struct App {
    pub bin: PathBuf,
    pub so: PathBuf,
}

/// What one complete case produced.
#[derive(Clone, Debug, PartialEq)]
pub struct RunOut {
    pub evs: Vec<Ev>,
    pub phases: Vec<PhaseOut>,
    pub dumps: std::collections::BTreeMap<String, Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PhaseOut {
    pub devs: Vec<Dev>,
    pub stats: Stats,
    pub t0: u64,
    pub t1: u64,
    pub q0: u64,
    pub q1: u64,
}

/// Trouble of the harness itself (never a verdict about the program).
#[derive(Debug)]
pub struct Trouble(pub String);

pub const WATCHDOG_S: u64 = 60;

impl App {
    fn phase(&self, inp: &SimIn) -> Result<SimOut, Trouble> {
        let ph = &inp.case.phases[inp.phase];
        let mut args: Vec<String> = Vec::new();
        match &ph.mode {
            Mode::Server { daemon, verbose, dash_c } => {
                args.push("server".into());
                if !daemon {
                    args.push("-d".into());
                }
                for _ in 0..*verbose {
                    args.push("-v".into());
                }
                if *dash_c {
                    args.push("-c".into());
                    args.push(inp.case.conf_arg());
                }
            }
            Mode::Client { args: a } => args = a.clone(),
        }
        let j = serde_json::to_vec(inp).map_err(|e| Trouble(e.to_string()))?;
        let mut c = Command::new(&self.bin);
        c.args(&args)
            .env_clear()
            .env("LD_PRELOAD", &self.so)
            .env("PZSIM", "1")
            .envs(inp.case.vars())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        // the same addresses in every run (best effort: the order of some of pizauth's maps depends on them)
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                libc::personality(0x0040000);
                Ok(())
            });
        }
        let mut ch = c.spawn().map_err(|e| Trouble(format!("cannot start {:?}: {e}", self.bin)))?;
        {
            let mut i = ch.stdin.take().unwrap();
            let _ = i.write_all(&j);
        }
        let mut out = Vec::new();
        let mut o = ch.stdout.take().unwrap();
        let end = std::time::Instant::now() + std::time::Duration::from_secs(WATCHDOG_S);
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let left = end.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: o.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, left) };
            if r == 0 {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(Trouble(format!("simulated run made no progress for {WATCHDOG_S} s of real time")));
            }
            if r < 0 {
                continue;
            }
            match o.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&buf[..n]),
                Err(_) => break,
            }
        }
        let st = ch.wait().map_err(|e| Trouble(e.to_string()))?;
        let mut err = String::new();
        if let Some(mut e) = ch.stderr.take() {
            let _ = e.read_to_string(&mut err);
        }
        if !st.success() || out.is_empty() {
            return Err(Trouble(format!("simulation process ended with {st}: {err}")));
        }
        serde_json::from_slice(&out).map_err(|e| Trouble(format!("bad simulation output: {e}")))
    }

    pub fn run(&self, case: &Case) -> Result<RunOut, Trouble> {
        let mut carry = Carry {
            wall: 1_700_000_000 * SEC as i64,
            ..Default::default()
        };
        let mut r = RunOut { evs: vec![], phases: vec![], dumps: Default::default() };
        for i in 0..case.phases.len() {
            let inp = SimIn { case: case.clone(), phase: i, carry };
            let o = self.phase(&inp)?;
            let (q0, t0) = o.evs.first().map(|e| (e.q, e.t)).unwrap_or((0, 0));
            r.phases.push(PhaseOut { devs: o.devs, stats: o.stats, t0, t1: o.carry.t, q0, q1: o.carry.q });
            r.evs.extend(o.evs);
            carry = o.carry;
        }
        r.dumps = carry.dumps.iter().map(|(k, v)| (k.clone(), unhex(v))).collect();
        Ok(r)
    }
}
