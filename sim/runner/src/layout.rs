//! The same configuration in other words: order, white space, comments, units; and texts that are no configuration.
use crate::spec::*;
use model::*;

type Stmt = Vec<String>;

fn unit(r: &mut Rng, x: u64) -> String {
    let mut v = vec![(x, 's')];
    for (n, u) in [(60, 'm'), (3600, 'h'), (86400, 'd')] {
        if x % n == 0 {
            v.push((x / n, u));
        }
    }
    let (n, u) = *r.pick(&v);
    match r.below(8) {
        0 => format!("0{n}{u}"),
        1 => format!("{n:05}{u}"),
        _ => format!("{n}{u}"),
    }
}

fn stmt(k: &str, v: &[String]) -> Stmt {
    let mut o = vec![k.to_string(), "=".into()];
    o.extend_from_slice(v);
    o.push(";".into());
    o
}

fn list(open: &str, items: Vec<Vec<String>>, close: &str) -> Stmt {
    let mut o = vec![open.to_string()];
    for (i, x) in items.into_iter().enumerate() {
        if i > 0 {
            o.push(",".into());
        }
        o.extend(x);
    }
    o.push(close.into());
    o
}

fn times(r: &mut Rng, t: &Times, o: &mut Vec<Stmt>) {
    for (k, v) in [("refresh_at_least", t.at_least), ("refresh_before_expiry", t.before), ("refresh_retry", t.retry)] {
        if let Some(x) = v {
            o.push(stmt(k, &[unit(r, x)]));
        }
    }
}

pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

/// the options of an account block
pub fn fields(r: &mut Rng, a: &AcctSpec) -> Vec<Stmt> {
    let mut o = vec![
        stmt("auth_uri", &[q(&a.auth_uri)]),
        stmt("client_id", &[q(&a.client_id)]),
        stmt("token_uri", &[q(&a.token_uri)]),
    ];
    match &a.fields {
        Some(f) => o.push(stmt("auth_uri_fields", &list("{", f.iter().map(|(k, v)| vec![q(k), ":".into(), q(v)]).collect(), "}"))),
        None if r.chance(1, 8) => o.push(stmt("auth_uri_fields", &list("{", vec![], "}"))),
        None => (),
    }
    match &a.scopes {
        Some(x) => o.push(stmt("scopes", &list("[", x.iter().map(|v| vec![q(v)]).collect(), "]"))),
        None if r.chance(1, 8) => o.push(stmt("scopes", &list("[", vec![], "]"))),
        None => (),
    }
    for (k, v) in [("client_secret", &a.secret), ("login_hint", &a.hint), ("redirect_uri", &a.redirect)] {
        match v {
            Some(x) => o.push(stmt(k, &[q(x)])),
            None if k == "redirect_uri" && r.chance(1, 4) => o.push(stmt(k, &[q("http://localhost/")])),
            None => (),
        }
    }
    times(r, &a.t, &mut o);
    shuffle(r, &mut o);
    o
}

/// the options outside of accounts
pub fn tops(r: &mut Rng, c: &ConfSpec) -> Vec<Stmt> {
    let mut o = vec![];
    for (k, v) in [
        ("auth_notify_cmd", &c.notify),
        ("error_notify_cmd", &c.error),
        ("token_event_cmd", &c.event),
        ("transient_error_if_cmd", &c.transient),
    ] {
        if let Some(x) = v {
            o.push(stmt(k, &[q(x)]));
        }
    }
    match c.notify_interval {
        Some(x) => o.push(stmt("auth_notify_interval", &[unit(r, x)])),
        None if r.chance(1, 4) => o.push(stmt("auth_notify_interval", &[unit(r, 900)])),
        None => (),
    }
    for (k, v) in [("http_listen", &c.http), ("https_listen", &c.https)] {
        match v {
            None if r.chance(1, 4) => o.push(stmt(k, &[q("127.0.0.1:0")])),
            None => (),
            Some(None) => o.push(stmt(k, &["none".into()])),
            Some(Some(x)) => o.push(stmt(k, &[q(x)])),
        }
    }
    times(r, &c.t, &mut o);
    shuffle(r, &mut o);
    o
}

pub fn block(name: &str, fs: &[Stmt]) -> Stmt {
    let mut o = vec!["account".to_string(), q(name), "{".into()];
    o.extend(fs.iter().flatten().cloned());
    o.push("}".into());
    o
}

pub fn stmts(r: &mut Rng, c: &ConfSpec) -> Vec<Stmt> {
    let mut o = tops(r, c);
    for a in &c.accts {
        let f = fields(r, a);
        o.push(block(&a.name, &f));
    }
    shuffle(r, &mut o);
    o
}

const COMMENTS: &[&str] = &[
    "//",
    "// a comment",
    "// client_id = \"other\"; }",
    "//\"",
    "//// account \"zz\" { auth_uri = \"http://x.test/\";",
    "// über ✓ \\",
    "/// refresh_retry = 1s;\r",
    "// https_listen = none; //",
    "//; \" ; none",
];

fn gap(r: &mut Rng, style: u64) -> String {
    let n = match style {
        0 => 0,
        1 => return " ".into(),
        _ => r.below(4),
    };
    let mut o = String::new();
    for _ in 0..n {
        match r.below(12) {
            0..=3 => o.push(' '),
            4 => o.push('\t'),
            5 | 6 => o.push('\n'),
            7 => o.push_str("\r\n"),
            8 => o.push_str("        "),
            _ => {
                o.push_str(*r.pick(COMMENTS));
                o.push('\n');
            }
        }
    }
    o
}

/// tokens as text
pub fn join(r: &mut Rng, toks: &[String]) -> String {
    let style = *r.pick(&[0, 1, 2, 2, 2]);
    let mut o = gap(r, style);
    let word = |x: &str| x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '.');
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let g = gap(r, style);
            if g.is_empty() && word(t) && word(&toks[i - 1]) {
                o.push(' ');
            }
            o.push_str(&g);
        }
        o.push_str(t);
    }
    o.push_str(&gap(r, style));
    if r.chance(1, 6) {
        o.push_str("// the end");
    }
    o
}

pub fn lay(r: &mut Rng, c: &ConfSpec) -> String {
    let t: Vec<String> = stmts(r, c).concat();
    join(r, &t)
}

/// A text close to this configuration that is none
pub fn spoil(r: &mut Rng, c: &ConfSpec) -> String {
    let qs = |x: &str| q(x);
    let mut top = tops(r, c);
    let ai = r.below(c.accts.len() as u64) as usize;
    let mut fs = fields(r, &c.accts[ai]);
    let mut drop_accts = false;
    let mut raw: Option<Stmt> = None;
    let put = |r: &mut Rng, v: &mut Vec<Stmt>, s: Stmt| {
        let i = r.below(v.len() as u64 + 1) as usize;
        v.insert(i, s);
    };
    let cut = |v: &mut Vec<Stmt>, k: &str| v.retain(|s| s[0] != k);
    match r.below(24) {
        0 | 1 => {
            // the same option twice
            let (k, v): (&str, Vec<String>) = match r.below(12) {
                0 => ("auth_notify_cmd", vec![qs("N1 again")]),
                1 => ("error_notify_cmd", vec![qs("N2 again")]),
                2 => ("token_event_cmd", vec![qs("N3 again")]),
                3 => ("transient_error_if_cmd", vec![qs("N4 again")]),
                4 => ("auth_notify_interval", vec!["7m".into()]),
                5 | 10 | 11 => ("http_listen", vec![if r.chance(1, 2) { "none".into() } else { qs("127.0.0.1:0") }]),
                6 => ("https_listen", vec![if r.chance(1, 2) { "none".into() } else { qs("127.0.0.1:0") }]),
                7 => ("refresh_at_least", vec!["77m".into()]),
                8 => ("refresh_before_expiry", vec!["77s".into()]),
                _ => ("refresh_retry", vec!["17s".into()]),
            };
            if k == "http_listen" && v[0] == "none" && c.accts.len() == 1 {
                // where only that is wrong with it
                cut(&mut fs, "redirect_uri");
                put(r, &mut fs, stmt("redirect_uri", &[qs("https://localhost/")]));
                cut(&mut top, "https_listen");
                cut(&mut top, k);
            }
            if !top.iter().any(|s| s[0] == k) {
                // a listener may be off in one of them
                let w = if k.ends_with("listen") && r.chance(1, 2) { vec![qs("127.0.0.1:0")] } else { v.clone() };
                put(r, &mut top, stmt(k, &w));
            }
            put(r, &mut top, stmt(k, &v));
        }
        2 | 3 => {
            let (k, v): (&str, Vec<String>) = match r.below(10) {
                0 => ("auth_uri", vec![qs("http://auth-zz.test/")]),
                1 => ("auth_uri_fields", list("{", vec![vec![qs("k"), ":".into(), qs("v")]], "}")),
                2 => ("client_id", vec![qs("cl_zz")]),
                3 => ("client_secret", vec![qs("secret")]),
                4 => ("redirect_uri", vec![qs("http://localhost/")]),
                5 => ("refresh_at_least", vec!["77m".into()]),
                6 => ("refresh_before_expiry", vec!["77s".into()]),
                7 => ("refresh_retry", vec!["17s".into()]),
                8 => ("scopes", list("[", vec![vec![qs("s")]], "]")),
                _ => ("token_uri", vec![qs("http://tok-zz.test/")]),
            };
            if !fs.iter().any(|s| s[0] == k) {
                put(r, &mut fs, stmt(k, &v));
            }
            put(r, &mut fs, stmt(k, &v));
        }
        4 | 5 => cut(&mut fs, *r.pick(&["auth_uri", "client_id", "token_uri"])),
        6 => {
            // a value of another kind
            let (k, v) = *r.pick(&[
                ("auth_notify_interval", "60"),
                ("auth_notify_interval", "\"60s\""),
                ("refresh_retry", "5M"),
                ("refresh_retry", "1.5h"),
                ("refresh_at_least", "-5s"),
                ("refresh_at_least", "5w"),
                ("refresh_before_expiry", "s"),
                ("refresh_before_expiry", "none"),
                ("auth_notify_cmd", "none"),
                ("token_event_cmd", "5s"),
                ("http_listen", "8080"),
                ("https_listen", "None"),
                ("error_notify_cmd", "'N2'"),
                ("refresh_retry", "99999999999999999999s"),
                ("auth_notify_interval", "9223372036854775808m"),
                ("refresh_before_expiry", "18446744073709551615h"),
                ("refresh_at_least", "213503982334602d"),
            ]);
            cut(&mut top, k);
            put(r, &mut top, stmt(k, &[v.into()]));
        }
        7 => {
            let (k, v) = *r.pick(&[
                ("client_id", "5s"),
                ("client_secret", "none"),
                ("scopes", "\"s1\""),
                ("scopes", "{ \"s1\" }"),
                ("scopes", "[ \"s1\" \"s2\" ]"),
                ("scopes", "[ \"s1\", ]"),
                ("auth_uri_fields", "[ \"k\": \"v\" ]"),
                ("auth_uri_fields", "{ \"k\" \"v\" }"),
                ("auth_uri_fields", "{ \"k\": }"),
                ("auth_uri_fields", "{ k: \"v\" }"),
                ("auth_uri_fields", "{ \"k\" = \"v\" }"),
                ("refresh_retry", "12"),
                ("refresh_before_expiry", "\"5m\""),
                ("refresh_at_least", "5mm"),
                ("refresh_at_least", "99999999999999999999d"),
            ]);
            cut(&mut fs, k);
            put(r, &mut fs, stmt(k, &[v.into()]));
        }
        8 | 9 => {
            let k = *r.pick(&["auth_uri", "token_uri", "redirect_uri"]);
            let v = *r.pick(&["", "nowhere", "/path", "//host/path", "http:", "http://", "ftp://host.test/", "httpx://host.test/", "mailto:a@b.test", "http://[::1", "http://h:99999/", "file:///etc/x"]);
            cut(&mut fs, k);
            put(r, &mut fs, stmt(k, &[qs(v)]));
        }
        10 => {
            for k in ["http_listen", "https_listen"] {
                cut(&mut top, k);
                put(r, &mut top, stmt(k, &["none".into()]));
            }
        }
        11 => {
            cut(&mut fs, "login_hint");
            cut(&mut fs, "auth_uri_fields");
            put(r, &mut fs, stmt("login_hint", &[qs("me@x.test")]));
            let mut l = vec![vec![qs("login_hint"), ":".into(), qs("me@x.test")]];
            if r.chance(1, 2) {
                l.push(vec![qs("k"), ":".into(), qs("v")]);
            }
            if r.chance(1, 2) {
                l.insert(0, vec![qs("hd"), ":".into(), qs("v")]);
            }
            put(r, &mut fs, stmt("auth_uri_fields", &list("{", l, "}")));
        }
        12 => drop_accts = true,
        13 => {
            let s = r.pick(&["nonsense = \"x\" ;", "auth_error_cmd = \"N2\" ;", "notify_cmd = \"N1\" ;", "Refresh_retry = 5s ;", "refresh-retry = 5s ;", "verbose ;", ";"]).to_string();
            put(r, &mut top, vec![s]);
        }
        14 => {
            let s = r.pick(&["token_event_cmd = \"N3\" ;", "auth_notify_interval = 5m ;", "http_listen = none ;", "name = \"x\" ;", "account \"in\" { }", ";", "transient_error_if_cmd = \"N4\" ;"]).to_string();
            put(r, &mut fs, vec![s]);
        }
        15 => {
            let s = r.pick(&["client_id = \"x\" ;", "scopes = [ \"x\" ] ;", "token_uri = \"http://tok-a.test/\" ;", "login_hint = \"x\" ;", "redirect_uri = \"http://localhost/\" ;"]).to_string();
            put(r, &mut top, vec![s]);
        }
        16 => {
            // an escape there is none of
            let s = r.pick(&["token_event_cmd = \"N3 \\n\" ;", "auth_notify_cmd = \"N1 \\t\" ;", "error_notify_cmd = \"N2 \\' \" ;", "transient_error_if_cmd = \"N4 \\", "error_notify_cmd = \"N2"]).to_string();
            let k = s.split(' ').next().unwrap().to_string();
            cut(&mut top, &k);
            if !s.ends_with(';') {
                // a string without an end
                let mut t = top.concat();
                t.extend(block(&c.accts[ai].name, &fs));
                return format!("{}\n{s}", join(r, &t));
            }
            put(r, &mut top, vec![s]);
        }
        17 => {
            let s = r.pick(&["# a comment\n", "/* a comment */", "/ a comment\n", "-- a comment\n", "}", "{", "\u{feff}", "\0", "\u{a0}"]).to_string();
            put(r, &mut top, vec![s]);
        }
        18 => {
            let s = r.pick(&["account \"q\" ;", "account q { }", "account { }", "account = \"q\" { }", "account \"q\" { auth_uri = \"http://x.test/\" ; }", "account \"q\"", "account \"q\" {"]).to_string();
            top.push(vec![s]);
            raw = Some(vec![]);
        }
        19 | 20 => {
            // drop one token of those without which there is no statement
            let toks: &mut Stmt = if r.chance(1, 2) && !top.is_empty() {
                let i = r.below(top.len() as u64) as usize;
                &mut top[i]
            } else {
                let i = r.below(fs.len() as u64) as usize;
                &mut fs[i]
            };
            let must: Vec<usize> = (0..toks.len())
                .filter(|i| !(toks[*i].starts_with('"') && toks[2] != toks[*i]) && toks[*i] != ",")
                .collect();
            let i = *r.pick(&must);
            toks.remove(i);
        }
        21 => {
            // doubled punctuation
            let i = r.below(fs.len() as u64) as usize;
            let j = (0..fs[i].len()).filter(|j| [";", "=", "[", "]", "{", "}", ":"].contains(&fs[i][*j].as_str())).collect::<Vec<_>>();
            let j = *r.pick(&j);
            let t = fs[i][j].clone();
            fs[i].insert(j, t);
        }
        22 => {
            // a redirect nobody would listen for
            let https = r.chance(1, 2);
            cut(&mut top, if https { "https_listen" } else { "http_listen" });
            put(r, &mut top, stmt(if https { "https_listen" } else { "http_listen" }, &["none".into()]));
            cut(&mut fs, "redirect_uri");
            let u = if https { *r.pick(&["https://localhost/", "HTTPS://LOCALHOST/", "hTTps://localhost:8/x"]) } else { *r.pick(&["http://localhost/", "HTTP://localhost", ""]) };
            if !u.is_empty() {
                put(r, &mut fs, stmt("redirect_uri", &[qs(u)]));
            }
        }
        _ => {
            // the end is missing
            let mut o: Vec<String> = top.concat();
            let b = block(&c.accts[ai].name, &fs);
            let n = 1 + r.below(b.len() as u64 - 1) as usize;
            o.extend_from_slice(&b[..n]);
            return join(r, &o);
        }
    }
    let mut all = top;
    if !drop_accts {
        for (i, a) in c.accts.iter().enumerate() {
            let f = if i == ai { fs.clone() } else { fields(r, a) };
            all.push(block(&a.name, &f));
        }
    }
    if raw.is_none() {
        shuffle(r, &mut all);
    }
    let t: Vec<String> = all.concat();
    join(r, &t)
}
