mod checks;
mod checks2;
mod checks3;
mod engine;
mod exec;
mod gen;
mod hist;
mod layout;
mod props;
mod refm;
mod scen;
mod spec;

use std::path::PathBuf;
use std::time::Duration;

/// A violation found by an oracle.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub q: u64,
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("PZ_ROOT").unwrap_or_else(|_| "/verif".into()));
    let app = exec::App {
        bin: std::env::var("PZ_BIN").map(PathBuf::from).unwrap_or_else(|_| root.join("target/app/release/pizauth")),
        so: root.join("target/sim/release/libpzsim.so"),
    };
    let threads = std::env::var("PZ_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(8, |x| x.get())
    });
    let cfg = engine::Cfg { app, root, threads };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let num = |i: usize, d: u64| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(d);
    let rc = match a.first().map(|x| x.as_str()) {
        // check ID TIER [seconds [cases]]
        Some("check") if a.len() >= 3 => match props::prop(&a[1]) {
            Some(p) => {
                let d = if a[2] == "thorough" { 300 } else { 16 };
                engine::check(p, &cfg, &a[2], seed, Duration::from_secs(num(3, d)), num(4, u64::MAX))
            }
            None => 3,
        },
        Some("replay") if a.len() >= 2 => engine::replay(&cfg, &a[1], a.len() > 2),
        Some("selftest") => engine::selftest(&cfg, seed, num(1, 4)),
        // kinds ID FROM COUNT
        Some("kinds") => {
            for p in props::props() {
                if a[1] == "all" || a[1] == p.id {
                    engine::kinds_of(p, &cfg, seed, num(2, 0), num(3, 200));
                }
            }
            0
        }
        // show ID CASE: print one case's history
        Some("show") => {
            let p = props::prop(&a[1]).unwrap();
            let c = engine::make_case(p, seed, num(2, 0));
            if a.len() > 3 {
                println!("{}", serde_json::to_string_pretty(&c).unwrap());
            }
            match cfg.app.run(&c) {
                Ok(o) => {
                    for e in &o.evs {
                        println!("{}", engine::show_ev(e));
                    }
                    let h = hist::H::new(&c, &o);
                    for (v, s) in engine::judge(p, &h) {
                        println!("{s} {v:?}");
                    }
                    println!("nontrivial {}", (p.nontrivial)(&h));
                }
                Err(e) => println!("{}", e.0),
            }
            0
        }
        // gens FROM COUNT: make cases without running them
        Some("gens") => {
            for p in props::props() {
                for n in num(1, 0)..num(1, 0) + num(2, 100) {
                    engine::make_case(p, seed, n);
                }
            }
            0
        }
        // any FROM COUNT [ID...]
        Some("any") => engine::any(&cfg, seed, num(1, 0), num(2, 100), &a[a.len().min(3)..]),
        Some("list") => {
            for p in props::props() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pzrun check ID quick|thorough [seconds [cases]] | replay FILE [v] | selftest [n] | kinds ID FROM COUNT | show ID CASE [v]");
            3
        }
    };
    std::process::exit(rc);
}
