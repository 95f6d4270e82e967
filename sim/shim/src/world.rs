//! The simulated outside world: CLI clients, browsers, OAuth providers, child processes, clocks,
//! configuration edits and power cuts.
use crate::kern::*;
use crate::sim::*;
use base64::Engine;
use model::*;
use sha2::Digest;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum WEv {
    Op(usize),
    ConnectDone { conn: usize, res: i32 },
    AppData { conn: usize, data: Vec<u8> },
    AppEof { conn: usize },
    AppClose { conn: usize, rst: bool, consumed: u64 },
    ToApp { conn: usize, data: Vec<u8> },
    ToAppEof { conn: usize },
    ToAppRst { conn: usize },
    Sent { conn: usize },
    GiveUp { conn: usize },
    ProvReply { conn: usize },
    RepDone { conn: usize },
    ScriptReply { conn: usize },
    ProcExit { pid: i32, code: i32, sig: i32 },
    ProcDump { pid: i32 },
}

#[derive(Clone, Debug)]
pub enum WKind {
    Cli { op: u32, cmd: Cmd, pid: i32 },
    Browser { op: u32, target: String, code: Option<String> },
    Prov { host: String, port: u16, reset: bool, tr: u32 },
    Syslog,
    Script,
}

pub struct TReqInfo {
    pub n: u32,
    pub an: u32,
    pub acct: String,
    pub form: Vec<(String, String)>,
    pub valid: bool,
    pub grant_ok: bool,
    pub reply: Reply,
}

pub struct WConn {
    pub kind: WKind,
    pub app: usize,
    pub inbuf: Vec<u8>,
    pub done: bool,
    pub opts: ConnOpts,
    pub sent_bytes: u64,
    pub tls: Option<Box<rustls::ClientConnection>>,
    pub tls_plain: Vec<u8>,
    pub tls_sent: bool,
    pub treq: Option<TReqInfo>,
    pub closed_by_app: bool,
    pub handled: bool,
}

pub struct World {
    pub conns: Vec<WConn>,
    pub conf: usize,
    pub conf_err: Option<i32>,
    pub net: BTreeMap<String, NetState>,
    pub dumps: BTreeMap<String, Vec<u8>>,
    pub prov: ProvState,
    pub plan_pos: BTreeMap<String, u32>,
    pub conn_pos: BTreeMap<String, u32>,
    pub proc_pos: BTreeMap<String, u32>,
    pub proc_end: BTreeMap<String, u32>,
    pub urls: BTreeMap<String, Vec<String>>,
    pub fired: Vec<bool>,
    pub tries: u32,
    tlsconf: Option<Arc<rustls::ClientConfig>>,
}

#[derive(Debug)]
struct NoVerify;
impl rustls::client::danger::ServerCertVerifier for NoVerify {
    fn verify_server_cert(
        &self,
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &[rustls::pki_types::CertificateDer<'_>],
        _: &rustls::pki_types::ServerName<'_>,
        _: &[u8],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(
        &self,
        _: &[u8],
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(
        &self,
        _: &[u8],
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        rustls::crypto::ring::default_provider()
            .signature_verification_algorithms
            .supported_schemes()
    }
}

impl World {
    pub fn new(inp: &SimIn) -> World {
        let c = &inp.carry;
        World {
            conns: Vec::new(),
            conf: inp.case.phases[inp.phase].conf,
            conf_err: None,
            net: c.net.clone(),
            dumps: c.dumps.iter().map(|(k, v)| (k.clone(), unhex(v))).collect(),
            prov: c.prov.clone(),
            plan_pos: c.plan_pos.clone(),
            conn_pos: c.conn_pos.clone(),
            proc_pos: c.proc_pos.clone(),
            proc_end: BTreeMap::new(),
            urls: c.urls.clone(),
            fired: vec![false; inp.case.phases[inp.phase].ops.len()],
            tries: c.tries,
            tlsconf: None,
        }
    }
    pub fn carry(&self, case: &Case, t: u64, q: u64, wall: i64, k: &Kern) -> Carry {
        Carry {
            t,
            q,
            wall,
            conf: self.conf,
            sock_present: k.fs.contains_key(&case.sock()),
            dir_present: k.fs.contains_key(&case.cache_dir()),
            dumps: self.dumps.iter().map(|(k, v)| (k.clone(), hex(v))).collect(),
            prov: self.prov.clone(),
            plan_pos: self.plan_pos.clone(),
            conn_pos: self.conn_pos.clone(),
            proc_pos: self.proc_pos.clone(),
            net: self.net.clone(),
            urls: self.urls.clone(),
            tries: self.tries,
        }
    }
    pub fn new_conn(&mut self, kind: WKind, app: usize) -> usize {
        self.conns.push(WConn {
            kind,
            app,
            inbuf: Vec::new(),
            done: false,
            opts: ConnOpts::default(),
            sent_bytes: 0,
            tls: None,
            tls_plain: Vec::new(),
            tls_sent: false,
            treq: None,
            closed_by_app: false,
            handled: false,
        });
        self.conns.len() - 1
    }
    pub fn lat(&self, case: &Case, conn: usize) -> u64 {
        match self.conns[conn].kind {
            WKind::Prov { .. } => case.net_lat,
            _ => case.loc_lat,
        }
    }
}

/// Set up the file system and schedule the operations.
pub fn init(s: &mut Sim, carry: &Carry) {
    let m = s.clock(0).unwrap();
    let mk = |n, mode| Inode { node: n, mode, mtime: m };
    let (run, cache, sockp) = (s.case.run_dir(), s.case.cache_dir(), s.case.sock());
    for d in ["/pzsim", "/pzsim/conf", "/pzsim/home", "/pzsim/home/.config", "/dev", "/tmp", "/pzsim/tmp", "/pzsim/bin"] {
        s.k.fs.insert(d.into(), mk(Node::Dir, 0o755));
    }
    s.k.fs.insert("/dev/log".into(), mk(Node::DevLog, 0o666));
    s.k.fs.insert(s.case.conf_path(), mk(Node::Conf, 0o600));
    if !s.ph.fresh_fs {
        s.k.fs.insert(run.clone(), mk(Node::Dir, 0o755));
    }
    if carry.dir_present {
        s.k.fs.insert(run.clone(), mk(Node::Dir, 0o700));
        s.k.fs.insert(cache.clone(), mk(Node::Dir, 0o700));
    }
    let sock = match s.ph.sock {
        SockInit::Carry => carry.sock_present.then_some(None),
        SockInit::Absent => None,
        SockInit::Stale => Some(None),
        SockInit::Live => Some(Some(usize::MAX)),
    };
    if let Some(x) = sock {
        // what somebody else left there need not be private
        let m = if s.ph.sock == SockInit::Stale { [0o755, 0o750, 0o710, 0o701, 0o777, 0o740][(s.ph.sched.seed % 6) as usize] } else { 0o700 };
        s.k.fs.insert(run.clone(), mk(Node::Dir, m));
        s.k.fs.insert(cache.clone(), mk(Node::Dir, m));
        s.k.fs.insert(sockp, mk(Node::Sock(x), 0o755));
    }
    for i in 0..s.ph.ops.len() {
        if let Trig::At(t) = s.ph.ops[i].at {
            s.w.fired[i] = true;
            let t0 = s.t0;
            s.at(t0.saturating_add(t), WEv::Op(i));
        }
    }
}

fn trig(s: &mut Sim, f: impl Fn(&Trig) -> Option<u64>) {
    for i in 0..s.ph.ops.len() {
        if !s.w.fired[i] {
            if let Some(d) = f(&s.ph.ops[i].at) {
                s.w.fired[i] = true;
                s.after(d, WEv::Op(i));
            }
        }
    }
}

fn op_done(s: &mut Sim, op: u32) {
    trig(s, |t| match t {
        Trig::Op(o, d) if *o == op => Some(*d),
        _ => None,
    });
}

pub fn spawned(s: &mut Sim, _pid: i32, kind: &str, nth: u32, env: &[(String, String)]) {
    let get = |k: &str| env.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    if let (Some(a), Some(u)) = (get("PIZAUTH_ACCOUNT"), get("PIZAUTH_URL")) {
        learn_url(s, &a, &u, "notify");
    }
    trig(s, |t| match t {
        Trig::Spawn(k, n, d) if k == kind && *n == nth => Some(*d),
        _ => None,
    });
}
pub fn proc_ended(s: &mut Sim, kind: &str) {
    let n = s.w.proc_end.entry(kind.to_string()).or_insert(0);
    *n += 1;
    let n = *n;
    trig(s, |t| match t {
        Trig::ProcEnd(k, m, d) if k == kind && *m == n => Some(*d),
        _ => None,
    });
}

pub fn learn_url(s: &mut Sim, acct: &str, url: &str, via: &str) {
    if url.is_empty() {
        return;
    }
    let v = s.w.urls.entry(acct.to_string()).or_default();
    if v.last().map(|x| x.as_str()) == Some(url) {
        return;
    }
    if let Some(i) = v.iter().position(|x| x == url) {
        let _ = i;
        return;
    }
    v.push(url.to_string());
    s.rec(E::Url { acct: acct.into(), url: url.into(), via: via.into() });
}

pub fn dns(s: &mut Sim, host: &str) -> Result<[u8; 4], i32> {
    if host == "localhost" || host == "127.0.0.1" {
        return Ok([127, 0, 0, 1]);
    }
    if let Ok(ip) = host.parse::<std::net::Ipv4Addr>() {
        return Ok(ip.octets());
    }
    if !host.ends_with(".test") {
        s.rec(E::Escape { what: format!("look-up of {host}") });
        return Err(libc::EAI_NONAME);
    }
    let pos = s.w.conn_pos.entry(host.to_string()).or_insert(0);
    let n = *pos;
    *pos += 1;
    let f = s.case.conns.get(host).and_then(|v| v.get(n as usize)).copied().unwrap_or_default();
    let cur = s.cur as usize;
    s.tasks[cur].dns_fault.insert(host.to_string(), f);
    s.w.tries += 1;
    let tr = s.w.tries;
    s.tasks[cur].last_try = tr;
    let br = s.tasks[cur].br;
    s.rec(E::Try { tr, host: host.into(), task: cur as u32, br });
    trig(s, |t| match t {
        Trig::Try(h, m, d) if h == host && *m == n + 1 => Some(*d),
        _ => None,
    });
    let mut d = s.case.net_lat;
    if let ConnFault::DnsSlow(x) = f {
        d += x;
    }
    s.sleep(d);
    let st = s.w.net.get(host).copied().unwrap_or_default();
    if f == ConnFault::DnsFail || st == NetState::DnsFail {
        s.rec(E::Dns { tr, host: host.into(), ok: false });
        return Err(libc::EAI_AGAIN);
    }
    s.rec(E::Dns { tr, host: host.into(), ok: true });
    Ok(s.k.ip_of(host))
}

pub fn accepted(s: &mut Sim, c: usize) {
    match s.w.conns[c].kind {
        WKind::Cli { op, .. } => s.rec(E::CliAccept { op }),
        WKind::Browser { op, .. } => s.rec(E::BrAccept { op }),
        _ => (),
    }
}

pub fn cmd_bytes(s: &Sim, c: &Cmd) -> Vec<u8> {
    let u = |b: &bool| if *b { "withurl" } else { "withouturl" };
    match c {
        Cmd::Show(a, w) => format!("showtoken:{} {}", u(w), a).into_bytes(),
        Cmd::Refresh(a, w) => format!("refresh:{} {}", u(w), a).into_bytes(),
        Cmd::Revoke(a) => format!("revoke:{a}").into_bytes(),
        Cmd::Reload => b"reload:".to_vec(),
        Cmd::Status => b"status:".to_vec(),
        Cmd::Info => b"info:".to_vec(),
        Cmd::Dump(_) => b"dump:".to_vec(),
        Cmd::Restore(b) => {
            let mut v = b"restore:".to_vec();
            v.extend(b.bytes(&s.w.dumps));
            v
        }
        Cmd::Shutdown => b"shutdown:".to_vec(),
        Cmd::Raw(b) => b.bytes(&s.w.dumps),
    }
}

/// Schedule bytes to the application in chunks; returns the time offset of the last one.
fn send_chunks(s: &mut Sim, conn: usize, data: &[u8], chunk: usize, gap: u64, start: u64) -> u64 {
    let mut d = start;
    if data.is_empty() {
        return d;
    }
    let c = if chunk == 0 { data.len() } else { chunk };
    for (i, x) in data.chunks(c).enumerate() {
        if i > 0 {
            d = d.saturating_add(gap);
        }
        s.after(d, WEv::ToApp { conn, data: x.to_vec() });
    }
    d
}

fn cli_start(s: &mut Sim, op: u32, cmd: Cmd, opts: ConnOpts, pid: i32) {
    let l = match s.node(&s.case.sock()) {
        Ok(Inode { node: Node::Sock(Some(l)), .. }) if l != usize::MAX => l,
        _ => {
            s.rec(E::CliRefused { op });
            if pid != 0 {
                dump_done(s, pid, false);
            }
            op_done(s, op);
            return;
        }
    };
    let mut o = Obj::new(OKind::Sock);
    o.fam = libc::AF_UNIX;
    o.typ = libc::SOCK_STREAM;
    o.connected = true;
    let obj = s.k.new_obj(o);
    let data = cmd_bytes(s, &cmd);
    let c = s.w.new_conn(WKind::Cli { op, cmd, pid }, obj);
    s.k.o(obj).peer = Peer::World(c);
    s.k.o(l).queue.push_back(obj);
    s.notify(Key::Obj(l));
    s.rec(E::CliConn { op });
    start_sending(s, c, data, opts);
}

fn start_sending(s: &mut Sim, c: usize, mut data: Vec<u8>, opts: ConnOpts) {
    s.w.conns[c].opts = opts.clone();
    if let Some(n) = opts.cut {
        data.truncate(n);
    }
    s.w.conns[c].sent_bytes = data.len() as u64;
    let lat = s.case.loc_lat;
    let d = send_chunks(s, c, &data, opts.chunk, opts.gap, lat);
    let cli = matches!(s.w.conns[c].kind, WKind::Cli { .. });
    match opts.end {
        None if cli => {
            s.after(d, WEv::ToAppEof { conn: c });
            s.after(d, WEv::Sent { conn: c });
        }
        None => s.after(d, WEv::Sent { conn: c }),
        Some(ConnEnd::Eof) => {
            s.after(d, WEv::ToAppEof { conn: c });
            s.after(d, WEv::Sent { conn: c });
        }
        Some(ConnEnd::Reset) => {
            s.after(d, WEv::ToAppRst { conn: c });
            s.after(d, WEv::GiveUp { conn: c });
        }
        Some(ConnEnd::Hang) => (),
    }
    if opts.no_wait {
        s.after(d + 1000, WEv::GiveUp { conn: c });
    }
    if opts.close_after > 0 {
        s.after(opts.close_after, WEv::GiveUp { conn: c });
    }
}

fn dump_done(s: &mut Sim, pid: i32, ok: bool) {
    if let Some(p) = s.k.procs.get_mut(&pid) {
        if !p.dumping || p.ended.is_some() {
            return;
        }
        p.dumping = false;
        let (d, e, g) = (p.spec.dur, p.spec.exit, p.spec.signal);
        if d != u64::MAX {
            s.after(d.max(50 * US), WEv::ProcExit { pid, code: if ok { e } else { 1 }, sig: g });
        }
    }
}

fn cli_complete(s: &mut Sim, c: usize, end: ConnEnd) {
    if s.w.conns[c].done {
        return;
    }
    s.w.conns[c].done = true;
    let data = std::mem::take(&mut s.w.conns[c].inbuf);
    if let WKind::Cli { op, cmd, pid } = s.w.conns[c].kind.clone() {
        s.rec(E::CliReply { op, data: Blob::from_bytes(&data), end });
        match &cmd {
            Cmd::Show(a, _) | Cmd::Refresh(a, _) => {
                if let Ok(x) = std::str::from_utf8(&data) {
                    if let Some(u) = x.strip_prefix("pending:") {
                        if end == ConnEnd::Eof {
                            learn_url(s, a, u, "cli");
                        }
                    }
                }
            }
            Cmd::Dump(label) => {
                let ok = end == ConnEnd::Eof && !data.is_empty() && !data.starts_with(b"error:");
                // a process that was killed meanwhile stores nothing
                let alive = pid == 0 || s.k.procs.get(&pid).map_or(false, |p| p.ended.is_none());
                if ok && alive {
                    s.w.dumps.insert(label.clone(), data.clone());
                    s.rec(E::DumpStored { label: label.clone(), data: Blob::Hex(hex(&data)) });
                }
                if pid != 0 {
                    dump_done(s, pid, ok);
                }
            }
            _ => (),
        }
        if pid != 0 && !matches!(cmd, Cmd::Dump(_)) {
            dump_done(s, pid, true);
        }
        op_done(s, op);
    }
}

fn br_complete(s: &mut Sim, c: usize, end: ConnEnd, consumed: u64) {
    if s.w.conns[c].done {
        return;
    }
    s.w.conns[c].done = true;
    let data = if s.w.conns[c].tls.is_some() {
        std::mem::take(&mut s.w.conns[c].tls_plain)
    } else {
        std::mem::take(&mut s.w.conns[c].inbuf)
    };
    if let WKind::Browser { op, .. } = s.w.conns[c].kind.clone() {
        let sent = s.w.conns[c].sent_bytes;
        s.rec(E::BrReply { op, data: Blob::from_bytes(&data), end, sent, consumed });
        op_done(s, op);
    }
}

fn listeners(s: &Sim) -> Vec<u16> {
    s.k.objs
        .iter()
        .flatten()
        .filter(|x| x.kind == OKind::Listener)
        .filter_map(|x| match x.local {
            Addr::In(_, p) | Addr::In6(_, p) => Some(p),
            _ => None,
        })
        .collect()
}

/// The ports of the HTTP and HTTPS redirect listeners, as far as they can be told from outside.
fn redirect_ports(s: &Sim) -> (Option<u16>, Option<u16>) {
    let text = &s.case.configs[s.ph.conf];
    let ls = listeners(s);
    let fixed = |key: &str| -> Option<u16> {
        let i = text.find(&format!("\n{key} = \""))?;
        let rest = &text[i + key.len() + 5..];
        let j = rest.find('"')?;
        let p = rest[..j].rsplit(':').next()?.parse::<u16>().ok()?;
        (p != 0).then_some(p)
    };
    let none = |key: &str| text.contains(&format!("\n{key} = none"));
    let mut http = fixed("http_listen");
    let mut https = fixed("https_listen");
    for us in s.w.urls.values() {
        for u in us {
            if let Ok(u) = url::Url::parse(u) {
                if let Some((_, r)) = u.query_pairs().find(|(k, _)| k == "redirect_uri") {
                    if let Ok(r) = url::Url::parse(&r) {
                        if r.scheme() == "https" {
                            https = https.or(r.port());
                        } else {
                            http = http.or(r.port());
                        }
                    }
                }
            }
        }
    }
    let mut rest: Vec<u16> = ls.iter().copied().filter(|p| Some(*p) != http && Some(*p) != https).collect();
    if http.is_none() && !none("http_listen") && !rest.is_empty() {
        http = Some(rest.remove(0));
    }
    if https.is_none() && !none("https_listen") && !rest.is_empty() {
        https = Some(rest.remove(0));
    }
    (http.filter(|p| ls.contains(p)), https.filter(|p| ls.contains(p)))
}

fn br_connect(s: &mut Sim, op: u32, port: u16, tls: bool, data: Vec<u8>, target: String, code: Option<String>, opts: ConnOpts) {
    let l = match s.tcp_listener(port) {
        Some(l) => l,
        None => {
            s.rec(E::BrRefused { op });
            op_done(s, op);
            return;
        }
    };
    let mut o = Obj::new(OKind::Sock);
    o.fam = libc::AF_INET;
    o.typ = libc::SOCK_STREAM;
    o.connected = true;
    o.local = Addr::In([127, 0, 0, 1], port);
    o.remote = Addr::In([127, 0, 0, 1], 50000 + (s.w.conns.len() % 10000) as u16);
    let obj = s.k.new_obj(o);
    let c = s.w.new_conn(WKind::Browser { op, target, code }, obj);
    s.k.o(obj).peer = Peer::World(c);
    s.k.o(l).queue.push_back(obj);
    s.notify(Key::Obj(l));
    s.rec(E::BrConn { op, port });
    if tls {
        if s.w.tlsconf.is_none() {
            let p = Arc::new(rustls::crypto::ring::default_provider());
            let mut c = rustls::ClientConfig::builder_with_provider(p)
                .with_safe_default_protocol_versions()
                .unwrap()
                .dangerous()
                .with_custom_certificate_verifier(Arc::new(NoVerify))
                .with_no_client_auth();
            c.alpn_protocols = vec![b"http/1.1".to_vec()];
            s.w.tlsconf = Some(Arc::new(c));
        }
        let name = rustls::pki_types::ServerName::try_from("localhost").unwrap();
        let mut t = rustls::ClientConnection::new(s.w.tlsconf.clone().unwrap(), name).unwrap();
        t.set_buffer_limit(None);
        let mut d = data;
        if let Some(n) = opts.cut {
            d.truncate(n);
        }
        t.writer().write_all(&d).unwrap();
        let w = &mut s.w.conns[c];
        w.tls = Some(Box::new(t));
        w.opts = opts.clone();
        w.sent_bytes = d.len() as u64;
        tls_pump(s, c);
        if opts.close_after > 0 {
            s.after(opts.close_after, WEv::GiveUp { conn: c });
        }
    } else {
        start_sending(s, c, data, opts);
    }
}

fn tls_pump(s: &mut Sim, c: usize) {
    let lat = s.case.loc_lat;
    let mut cert = None;
    let (out, finished, chunk, gap, end) = {
        let w = &mut s.w.conns[c];
        let t = w.tls.as_mut().unwrap();
        let mut out = Vec::new();
        while t.wants_write() {
            if t.write_tls(&mut out).is_err() {
                break;
            }
        }
        let fin = !t.is_handshaking() && !w.tls_sent && !out.is_empty();
        if fin {
            w.tls_sent = true;
            cert = t.peer_certificates().and_then(|x| x.first()).map(|x| x.iter().map(|b| format!("{b:02x}")).collect::<String>());
        }
        (out, fin, w.opts.chunk, w.opts.gap, w.opts.end)
    };
    if let (Some(der), WKind::Browser { op, .. }) = (cert, s.w.conns[c].kind.clone()) {
        s.rec(E::Cert { op, der });
    }
    let d = if out.is_empty() { lat } else { send_chunks(s, c, &out, if finished { chunk } else { 0 }, gap, lat) };
    if finished {
        match end {
            None => s.after(d, WEv::Sent { conn: c }),
            Some(ConnEnd::Eof) => {
                s.after(d, WEv::ToAppEof { conn: c });
                s.after(d, WEv::Sent { conn: c });
            }
            Some(ConnEnd::Reset) => {
                s.after(d, WEv::ToAppRst { conn: c });
                s.after(d, WEv::GiveUp { conn: c });
            }
            Some(ConnEnd::Hang) => (),
        }
    }
}

fn browser_op(s: &mut Sim, op: u32, acct: &str, which: &Which, what: &Redirect, muts: &[UrlMut], opts: ConnOpts) {
    let urls = s.w.urls.get(acct).cloned().unwrap_or_default();
    let u = match which {
        Which::Latest => urls.last(),
        Which::Prev => {
            if urls.len() >= 2 {
                urls.get(urls.len() - 2)
            } else {
                None
            }
        }
        Which::Nth(k) => urls.get(*k as usize),
    };
    let parsed = u.and_then(|u| url::Url::parse(u).ok());
    let (us, u) = match (u, parsed) {
        (Some(a), Some(b)) => (a.clone(), b),
        _ => {
            s.rec(E::BrSkip { op });
            op_done(s, op);
            return;
        }
    };
    let get = |k: &str| u.query_pairs().find(|(a, _)| a == k).map(|x| x.1.to_string());
    let (state, redirect, client, chal) = (get("state"), get("redirect_uri"), get("client_id"), get("code_challenge"));
    let (state, redirect, client, chal) = (
        state.unwrap_or_default(),
        redirect.unwrap_or_default(),
        client.unwrap_or_default(),
        chal.unwrap_or_default(),
    );
    let ru = match url::Url::parse(&redirect) {
        Ok(x) => x,
        Err(_) => {
            s.rec(E::BrSkip { op });
            op_done(s, op);
            return;
        }
    };
    let pacct = s.case.clients.get(&client).cloned().unwrap_or_else(|| acct.to_string());
    let mut q: Vec<(String, String)> = Vec::new();
    let mut code = None;
    match what {
        Redirect::Code => {
            s.w.prov.next += 1;
            let c = dress(s.case.alphabet, format!("CODE_{}_{}", plain(&pacct), s.w.prov.next));
            s.w.prov.codes.insert(
                c.clone(),
                CodeRec { acct: pacct.clone(), client, challenge: chal, redirect: redirect.clone(), uses: 0 },
            );
            s.w.prov.last_code.insert(acct.to_string(), c.clone());
            s.rec(E::Code { acct: acct.into(), code: c.clone(), url: us });
            code = Some(c);
        }
        Redirect::BadCode => {
            s.w.prov.next += 1;
            code = Some(format!("CODE_BAD_{}", s.w.prov.next));
        }
        Redirect::SameCode => code = s.w.prov.last_code.get(acct).cloned(),
        Redirect::Error(e) => {
            // some of those which report an error have a code as well
            let with = e.len() % 3 == 0;
            if with && e.len() % 2 == 0 {
                q.push(("code".into(), "CODE_BAD_error".into()));
            }
            q.push(("error".into(), e.clone()));
            if with && e.len() % 2 == 1 {
                q.push(("code".into(), "CODE_BAD_error".into()));
            }
        }
        Redirect::NoCode => (),
    }
    let mut st = Some(state);
    let mut host = ru.host_str().unwrap_or("localhost").to_string();
    let mut port = ru.port_or_known_default().unwrap_or(80);
    let connect_port = port;
    let mut other = false;
    let mut method = "GET".to_string();
    let mut extra = Vec::new();
    let mut nohost = false;
    let mut noport = false;
    let mut duphost = false;
    let mut ver = "HTTP/1.1".to_string();
    let mut path = ru.path().to_string();
    let mut xq = String::new();
    let mut hostname = "Host".to_string();
    for m in muts {
        match m {
            UrlMut::State(x) => st = Some(x.clone()),
            UrlMut::FlipState => {
                if let Some(x) = st.as_mut() {
                    let mut b: Vec<char> = x.chars().collect();
                    if let Some(c) = b.first_mut() {
                        *c = if *c == 'A' { 'B' } else { 'A' };
                    }
                    *x = b.into_iter().collect();
                }
            }
            UrlMut::EditState(k) => {
                if let Some(x) = st.as_mut() {
                    match k {
                        0 => drop(x.pop()),
                        1 => x.push('A'),
                        2 => {
                            *x = x
                                .chars()
                                .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                                .collect()
                        }
                        3 => x.truncate(x.len() / 2),
                        4 => x.push('='),
                        _ => {
                            let c = x.pop();
                            x.push(if c == Some('A') { 'B' } else { 'A' });
                        }
                    }
                }
            }
            UrlMut::NoState => st = None,
            UrlMut::Host(h) => host = h.clone(),
            UrlMut::PortDelta(d) => port = (port as i32 + d) as u16,
            UrlMut::OtherListener => other = true,
            UrlMut::Method(x) => method = x.clone(),
            UrlMut::ExtraHeader(b) => extra.extend(b.bytes(&s.w.dumps)),
            UrlMut::NoHost => nohost = true,
            UrlMut::NoPort => noport = true,
            UrlMut::DupHost => duphost = true,
            UrlMut::HttpVer(x) => ver = x.clone(),
            UrlMut::Path(x) => path = x.clone(),
            UrlMut::ExtraQuery(x) => xq = x.clone(),
            UrlMut::LowerHost => hostname = "hOsT".into(),
        }
    }
    if let Some(x) = st {
        q.insert(0, ("state".into(), x));
    }
    if let Some(c) = &code {
        q.push(("code".into(), c.clone()));
    }
    let qs: String = url::form_urlencoded::Serializer::new(String::new()).extend_pairs(q.iter()).finish();
    let target = format!("{path}?{xq}{qs}");
    let mut req = format!("{method} {target} {ver}\r\n").into_bytes();
    if !nohost {
        if noport {
            req.extend(format!("{hostname}: {host}\r\n").bytes());
        } else {
            req.extend(format!("{hostname}: {host}:{port}\r\n").bytes());
        }
    }
    if duphost {
        req.extend(format!("Host: {host}:{port}\r\n").bytes());
    }
    req.extend(b"User-Agent: sim\r\nAccept: text/html\r\n");
    req.extend(extra);
    req.extend(b"\r\n");
    let https = ru.scheme() == "https";
    let (cp, tls) = if other {
        let (h, hs) = redirect_ports(s);
        match if https { h } else { hs } {
            Some(p) => (p, !https),
            None => {
                s.rec(E::BrSkip { op });
                op_done(s, op);
                return;
            }
        }
    } else {
        (connect_port, https)
    };
    br_connect(s, op, cp, tls, req, target, code, opts);
}

pub fn handle(s: &mut Sim, e: WEv) {
    match e {
        WEv::Op(i) => {
            let op = s.ph.ops[i].clone();
            run_op(s, op);
        }
        WEv::ConnectDone { conn, res } => {
            let (host, port, tr) = match &s.w.conns[conn].kind {
                WKind::Prov { host, port, tr, .. } => (host.clone(), *port, *tr),
                _ => return,
            };
            let o = s.w.conns[conn].app;
            if !s.k.alive(o) || !s.k.o(o).connecting {
                return;
            }
            s.rec(E::TConn { tr, conn: conn as u32, host, port, res });
            let x = s.k.o(o);
            x.connecting = false;
            if res == 0 {
                x.connected = true;
            } else {
                x.so_error = res;
                x.peer = Peer::None;
                x.eof = true;
            }
            s.notify(Key::Obj(o));
        }
        WEv::AppData { conn, data } => app_data(s, conn, data),
        WEv::AppEof { conn } => match s.w.conns[conn].kind {
            WKind::Cli { .. } => cli_complete(s, conn, ConnEnd::Eof),
            WKind::Browser { .. } => br_complete(s, conn, ConnEnd::Eof, 0),
            WKind::Script => {
                let d = s.ph.script.as_ref().map_or(0, |x| x.delay);
                s.after(d, WEv::ScriptReply { conn });
            }
            _ => (),
        },
        WEv::AppClose { conn, rst, consumed } => {
            s.w.conns[conn].closed_by_app = true;
            let end = if rst { ConnEnd::Reset } else { ConnEnd::Eof };
            match s.w.conns[conn].kind {
                WKind::Cli { .. } => cli_complete(s, conn, end),
                WKind::Browser { .. } => br_complete(s, conn, end, consumed),
                WKind::Prov { .. } => {
                    let n = s.w.conns[conn].treq.as_ref().map_or(u32::MAX, |x| x.n);
                    s.rec(E::TClose { conn: conn as u32, n });
                }
                _ => (),
            }
        }
        WEv::ToApp { conn, data } => {
            let o = s.w.conns[conn].app;
            if s.k.alive(o) && !s.w.conns[conn].done {
                let x = s.k.o(o);
                if !x.rd_shut && !x.eof && !x.rst {
                    x.rx.extend(data.iter());
                    s.notify(Key::Obj(o));
                }
            }
        }
        WEv::ToAppEof { conn } => {
            let o = s.w.conns[conn].app;
            if s.k.alive(o) {
                s.k.o(o).eof = true;
                s.notify(Key::Obj(o));
            }
        }
        WEv::ToAppRst { conn } => {
            let o = s.w.conns[conn].app;
            if s.k.alive(o) {
                s.k.o(o).rst = true;
                s.notify(Key::Obj(o));
            }
        }
        WEv::Sent { conn } => {
            if s.w.conns[conn].done {
                return;
            }
            match s.w.conns[conn].kind.clone() {
                WKind::Cli { op, .. } => {
                    s.rec(E::CliSent { op });
                    trig(s, |t| match t {
                        Trig::Sent(o, d) if *o == op => Some(*d),
                        _ => None,
                    });
                }
                WKind::Browser { op, target, code } => {
                    s.rec(E::BrSent { op, target, code });
                    trig(s, |t| match t {
                        Trig::Sent(o, d) if *o == op => Some(*d),
                        _ => None,
                    });
                }
                _ => (),
            }
        }
        WEv::GiveUp { conn } => {
            if s.w.conns[conn].done {
                return;
            }
            let o = s.w.conns[conn].app;
            if s.k.alive(o) {
                let x = s.k.o(o);
                x.eof = true;
                x.peer_gone = true;
                s.notify(Key::Obj(o));
            }
            match s.w.conns[conn].kind {
                WKind::Cli { .. } => cli_complete(s, conn, ConnEnd::Hang),
                WKind::Browser { .. } => br_complete(s, conn, ConnEnd::Hang, 0),
                _ => (),
            }
        }
        WEv::ProvReply { conn } => prov_reply(s, conn),
        WEv::RepDone { conn } => {
            let o = s.w.conns[conn].app;
            if s.k.alive(o) {
                if let Some(q) = &s.w.conns[conn].treq {
                    let (n, an, acct) = (q.n, q.an, q.acct.clone());
                    s.rec(E::TRepDone { conn: conn as u32, n, acct: acct.clone(), an });
                    trig(s, |t| match t {
                        Trig::TRep(a, m, d) if *a == acct && *m == an => Some(*d),
                        _ => None,
                    });
                }
            }
        }
        WEv::ScriptReply { conn } => {
            s.rec(E::Asked { data: Blob::from_bytes(&s.w.conns[conn].inbuf) });
            let sc = s.ph.script.clone().unwrap_or_default();
            let mut b = sc.reply.bytes(&s.w.dumps);
            if let Some(n) = sc.cut {
                b.truncate(n);
            }
            let d = send_chunks(s, conn, &b, sc.chunk, sc.gap, s.case.loc_lat);
            match sc.end {
                ConnEnd::Eof => s.after(d, WEv::ToAppEof { conn }),
                ConnEnd::Reset => s.after(d, WEv::ToAppRst { conn }),
                ConnEnd::Hang => (),
            }
        }
        WEv::ProcExit { pid, code, sig } => s.proc_end(pid, code, sig),
        WEv::ProcDump { pid } => {
            let (label, show, acct) = match s.k.procs.get(&pid) {
                Some(p) if p.ended.is_none() => (p.spec.dump.clone(), p.spec.show, p.pid),
                _ => return,
            };
            let _ = (show, acct);
            let op = 1_000_000 + pid as u32;
            if let Some(l) = label {
                cli_start(s, op, Cmd::Dump(l), ConnOpts::default(), pid);
            } else {
                cli_start(s, op, Cmd::Status, ConnOpts::default(), pid);
            }
        }
    }
}

fn run_op(s: &mut Sim, op: Op) {
    match op.kind {
        OpKind::Cli { cmd, conn } => cli_start(s, op.id, cmd, conn, 0),
        OpKind::Browser { acct, which, what, muts, conn } => {
            browser_op(s, op.id, &acct, &which, &what, &muts, conn)
        }
        OpKind::Http { https, data, conn } => {
            let (h, hs) = redirect_ports(s);
            let d = data.bytes(&s.w.dumps);
            match if https { hs } else { h } {
                Some(p) => br_connect(s, op.id, p, https, d, String::new(), None, conn),
                None => {
                    s.rec(E::BrSkip { op: op.id });
                    op_done(s, op.id);
                }
            }
        }
        OpKind::SetConf(i) => {
            s.w.conf = i;
            s.w.conf_err = None;
            s.rec(E::ConfSet { idx: i });
            op_done(s, op.id);
        }
        OpKind::ConfErr(e) => {
            s.w.conf_err = e;
            op_done(s, op.id);
        }
        OpKind::Net(h, st) => {
            s.w.net.insert(h.clone(), st);
            s.rec(E::Net { host: h, state: st });
            op_done(s, op.id);
        }
        OpKind::Suspend(d) => {
            s.rec(E::Suspend { dur: d });
            // what the user, local clients and local processes were about to do waits as well
            let old = std::mem::take(&mut s.evq);
            for ((t, n), e) in old {
                let local = matches!(e, WEv::Op(_) | WEv::ProcExit { .. } | WEv::ProcDump { .. } | WEv::GiveUp { .. } | WEv::Sent { .. });
                s.evq.insert((if local { t.saturating_add(d) } else { t }, n), e);
            }
            s.limit = s.limit.saturating_add(d);
            s.susp += d;
            s.t += d;
            op_done(s, op.id);
        }
        OpKind::Wall(d) => {
            s.wall = s.wall.saturating_add(d);
            s.rec(E::Wall { delta: d });
            op_done(s, op.id);
        }
        OpKind::Crash => s.finish("crash"),
        OpKind::Term => exit_proc(s, 0, libc::SIGTERM, false),
        OpKind::RmSock => {
            s.k.fs.remove(&s.case.sock());
            op_done(s, op.id);
        }
    }
}

/// The process ends by itself: peers see their connections close.
pub fn exit_proc(s: &mut Sim, code: i32, sig: i32, abort: bool) -> ! {
    s.flush_lazy();
    s.rec(E::Exit { code, sig, abort });
    let pend: Vec<(u64, u64)> = s
        .evq
        .iter()
        .filter(|(_, e)| matches!(e, WEv::AppData { .. } | WEv::AppEof { .. } | WEv::AppClose { .. }))
        .map(|(k, _)| *k)
        .collect();
    for k in pend {
        if let Some(e) = s.evq.remove(&k) {
            handle(s, e);
        }
    }
    for c in 0..s.w.conns.len() {
        let o = s.w.conns[c].app;
        let end = if s.k.alive(o) && !s.k.o(o).rx.is_empty() { ConnEnd::Reset } else { ConnEnd::Eof };
        match s.w.conns[c].kind {
            WKind::Cli { .. } => cli_complete(s, c, end),
            WKind::Browser { .. } => br_complete(s, c, end, 0),
            _ => (),
        }
    }
    s.finish("exit")
}

fn app_data(s: &mut Sim, conn: usize, data: Vec<u8>) {
    if s.w.conns[conn].done {
        return;
    }
    match s.w.conns[conn].kind.clone() {
        WKind::Syslog => {
            let text = String::from_utf8_lossy(&data).to_string();
            s.rec(E::Log { src: "syslog".into(), text });
        }
        WKind::Cli { .. } => s.w.conns[conn].inbuf.extend(data),
        WKind::Browser { .. } => {
            if s.w.conns[conn].tls.is_some() {
                {
                    let w = &mut s.w.conns[conn];
                    let t = w.tls.as_mut().unwrap();
                    let mut rd: &[u8] = &data;
                    while !rd.is_empty() {
                        match t.read_tls(&mut rd) {
                            Ok(0) | Err(_) => break,
                            Ok(_) => (),
                        }
                        if t.process_new_packets().is_err() {
                            break;
                        }
                        let mut buf = Vec::new();
                        let _ = t.reader().read_to_end(&mut buf);
                        w.tls_plain.extend(buf);
                    }
                }
                tls_pump(s, conn);
            } else {
                s.w.conns[conn].inbuf.extend(data);
            }
        }
        WKind::Script => {
            s.w.conns[conn].inbuf.extend(data);
            let sc = s.ph.script.clone().unwrap_or_default();
            if let Some(n) = sc.close_after {
                if s.w.conns[conn].inbuf.len() >= n && !s.w.conns[conn].handled {
                    s.w.conns[conn].handled = true;
                    let o = s.w.conns[conn].app;
                    if s.k.alive(o) {
                        let x = s.k.o(o);
                        if sc.end == ConnEnd::Reset {
                            x.rst = true;
                        } else {
                            x.eof = true;
                        }
                        x.peer_gone = true;
                        s.notify(Key::Obj(o));
                    }
                }
            }
        }
        WKind::Prov { reset, host, tr, .. } => {
            if reset {
                let lat = s.case.net_lat;
                if !s.w.conns[conn].handled {
                    s.w.conns[conn].handled = true;
                    s.after(lat, WEv::ToAppRst { conn });
                }
                return;
            }
            s.w.conns[conn].inbuf.extend(data);
            if s.w.conns[conn].handled {
                return;
            }
            let b = &s.w.conns[conn].inbuf;
            let hd = match b.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(i) => i,
                None => return,
            };
            let head = String::from_utf8_lossy(&b[..hd]).to_string();
            let mut cl = 0usize;
            for l in head.lines() {
                if let Some((k, v)) = l.split_once(':') {
                    if k.eq_ignore_ascii_case("content-length") {
                        cl = v.trim().parse().unwrap_or(0);
                    }
                }
            }
            if b.len() < hd + 4 + cl {
                return;
            }
            let body = b[hd + 4..hd + 4 + cl].to_vec();
            s.w.conns[conn].handled = true;
            prov_request(s, conn, tr, host, head, body);
        }
    }
}

fn prov_request(s: &mut Sim, conn: usize, tr: u32, host: String, head: String, body: Vec<u8>) {
    let form: Vec<(String, String)> = url::form_urlencoded::parse(&body)
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
    let mut rl = head.lines().next().unwrap_or("").split(' ');
    let method = rl.next().unwrap_or("").to_string();
    let path = rl.next().unwrap_or("").to_string();
    let get = |k: &str| form.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
    let client = get("client_id");
    let acct = s.case.clients.get(&client).cloned().unwrap_or_else(|| "?".into());
    let n = s.w.prov.treqs;
    s.w.prov.treqs += 1;
    let an = s.w.prov.an.entry(acct.clone()).or_insert(0);
    *an += 1;
    let an = *an;
    let mut why = String::new();
    let mut valid = true;
    if method != "POST" {
        valid = false;
        why = format!("method {method}");
    } else if !head.to_ascii_lowercase().contains("content-type: application/x-www-form-urlencoded") {
        valid = false;
        why = "content type".into();
    } else {
        match get("grant_type").as_str() {
            "authorization_code" => match s.w.prov.codes.get_mut(&get("code")) {
                None => {
                    valid = false;
                    why = "unknown code".into();
                }
                Some(c) => {
                    let h = base64::engine::general_purpose::URL_SAFE_NO_PAD
                        .encode(sha2::Sha256::digest(get("code_verifier").as_bytes()));
                    if c.client != client {
                        valid = false;
                        why = "client mismatch".into();
                    } else if c.redirect != get("redirect_uri") {
                        valid = false;
                        why = "redirect mismatch".into();
                    } else if c.challenge != h {
                        valid = false;
                        why = "verifier mismatch".into();
                    } else if c.uses > 0 {
                        valid = false;
                        why = "code reused".into();
                    }
                }
            },
            "refresh_token" => match s.w.prov.rts.get(&get("refresh_token")) {
                None => {
                    valid = false;
                    why = "unknown refresh token".into();
                }
                Some(c) if *c != client => {
                    valid = false;
                    why = "refresh token of another client".into();
                }
                _ => (),
            },
            g => {
                valid = false;
                why = format!("grant {g}");
            }
        }
    }
    s.rec(E::TReq {
        tr,
        conn: conn as u32,
        n,
        acct: acct.clone(),
        an,
        host,
        path,
        form: form.clone(),
        head,
        valid,
        why,
    });
    let pos = s.w.plan_pos.entry(acct.clone()).or_insert(0);
    let i = *pos;
    *pos += 1;
    let reply = s
        .case
        .plans
        .get(&acct)
        .and_then(|v| v.get(i as usize))
        .or_else(|| s.case.default_reply.get(&acct))
        .cloned()
        .unwrap_or_else(|| Reply::ok(3600));
    let delay = reply.delay;
    s.w.conns[conn].treq = Some(TReqInfo { n, an, acct: acct.clone(), form, valid, grant_ok: valid, reply });
    s.after(delay, WEv::ProvReply { conn });
    trig(s, |t| match t {
        Trig::TReq(a, m, d) if *a == acct && *m == an => Some(*d),
        _ => None,
    });
}

fn jv(v: &Jv) -> Option<String> {
    match v {
        Jv::N(n) => Some(n.to_string()),
        Jv::S(x) => Some(serde_json::to_string(x).unwrap()),
        Jv::Null => Some("null".into()),
        Jv::Absent => None,
        Jv::Raw(x) => Some(x.clone()),
    }
}

/// an account's name as part of a token
fn plain(n: &str) -> String {
    n.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("x{:x}", c as u32) }).collect()
}

/// A JSON string; providers differ in what they escape.
fn js(alphabet: u8, x: &str) -> String {
    if alphabet % 2 == 0 {
        return serde_json::to_string(x).unwrap();
    }
    let mut o = String::from("\"");
    let mut b = [0u16; 2];
    for c in x.chars() {
        if c == '/' {
            o.push_str("\\/");
        } else if c.is_ascii_alphanumeric() || c == '_' {
            o.push(c);
        } else {
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04X}"));
            }
        }
    }
    o.push('"');
    o
}

fn prov_reply(s: &mut Sim, conn: usize) {
    let (n, an, acct, form, valid, reply) = {
        let q = s.w.conns[conn].treq.as_ref().unwrap();
        (q.n, q.an, q.acct.clone(), q.form.clone(), q.valid, q.reply.clone())
    };
    let get = |k: &str| form.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
    let lat = s.case.net_lat;
    let mut at = None;
    let mut rt = None;
    let mut expires = None;
    let kind;
    let mut status = reply.status;
    let body: Vec<u8> = match reply.net {
        ReplyNet::Hang => {
            kind = "hang";
            vec![]
        }
        ReplyNet::Reset => {
            kind = "reset";
            vec![]
        }
        ReplyNet::Eof => {
            kind = "eof";
            vec![]
        }
        _ => match &reply.body {
            Body::Token { .. } if !valid => {
                kind = "invalid";
                status = 400;
                br#"{"error": "invalid_grant", "error_description": "sim"}"#.to_vec()
            }
            Body::Token { expires: ex, refresh, ttype, access } => {
                kind = "token";
                let code = get("code");
                if let Some(c) = s.w.prov.codes.get_mut(&code) {
                    c.uses += 1;
                }
                s.w.prov.next += 1;
                let id = s.w.prov.next;
                let a = dress(s.case.alphabet, format!("AT_{}_{id}", plain(&acct)));
                let mut parts = Vec::new();
                if *access {
                    parts.push(format!("\"access_token\": {}", js(s.case.alphabet, &a)));
                    at = Some(a);
                }
                if let Some(x) = jv(ttype) {
                    parts.push(format!("\"token_type\": {x}"));
                }
                if let Some(x) = jv(ex) {
                    parts.push(format!("\"expires_in\": {x}"));
                }
                if let Jv::N(x) = ex {
                    expires = Some(*x);
                }
                let newrt = dress(s.case.alphabet, format!("RT_{}_{id}", plain(&acct)));
                match refresh {
                    RtMode::New => {
                        parts.push(format!("\"refresh_token\": {}", js(s.case.alphabet, &newrt)));
                        s.w.prov.rts.insert(newrt.clone(), get("client_id"));
                        rt = Some(newrt);
                    }
                    RtMode::Same => {
                        let r = get("refresh_token");
                        let r = if r.is_empty() { newrt } else { r };
                        parts.push(format!("\"refresh_token\": {}", js(s.case.alphabet, &r)));
                        s.w.prov.rts.insert(r.clone(), get("client_id"));
                        rt = Some(r);
                    }
                    RtMode::Absent => (),
                    RtMode::Null => parts.push("\"refresh_token\": null".into()),
                    RtMode::Number => parts.push("\"refresh_token\": 17".into()),
                }
                parts.push("\"scope\": \"x y\"".into());
                format!("{{{}}}", parts.join(", ")).into_bytes()
            }
            Body::OauthErr(e) => {
                kind = "oautherr";
                format!("{{\"error\": {}, \"error_description\": \"sim\"}}", serde_json::to_string(e).unwrap()).into_bytes()
            }
            Body::Raw(b) => {
                kind = "raw";
                b.bytes(&s.w.dumps)
            }
        },
    };
    let gone = !s.k.alive(s.w.conns[conn].app);
    s.rec(E::TRep {
        conn: conn as u32,
        n,
        acct: acct.clone(),
        an,
        kind: if gone { format!("{kind}-late") } else { kind.into() },
        at,
        rt,
        expires,
        status,
    });
    match reply.net {
        ReplyNet::Hang => return,
        ReplyNet::Reset => {
            s.after(lat, WEv::ToAppRst { conn });
            s.after(lat, WEv::RepDone { conn });
            return;
        }
        ReplyNet::Eof => {
            s.after(lat, WEv::ToAppEof { conn });
            s.after(lat, WEv::RepDone { conn });
            return;
        }
        _ => (),
    }
    let line = reply.line.clone().unwrap_or_else(|| format!("HTTP/1.1 {status} X"));
    let mut out = format!("{line}\r\nContent-Type: application/json\r\n").into_bytes();
    if let Some(l) = &reply.location {
        out.extend(format!("Location: {l}\r\n").bytes());
    }
    let mut eof = false;
    match reply.frame {
        Frame::Len => {
            out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
            out.extend(&body);
        }
        Frame::Chunked => {
            out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(37) {
                out.extend(format!("{:x}\r\n", c.len()).bytes());
                out.extend(c);
                out.extend(b"\r\n");
            }
            out.extend(b"0\r\n\r\n");
        }
        Frame::Close => {
            out.extend(b"Connection: close\r\n\r\n");
            out.extend(&body);
            eof = true;
        }
    }
    let mut end = None;
    if let ReplyNet::Cut(k, e) = reply.net {
        let l = out.len();
        out.truncate(k % l);
        end = Some(e);
        eof = false;
    }
    let head = out.windows(4).position(|w| w == b"\r\n\r\n").map_or(0, |x| x + 4);
    if let ReplyNet::CutHead(k, e) = reply.net {
        out.truncate((head - 4) * k.min(999) as usize / 1000);
        end = Some(e);
        eof = false;
    }
    if let ReplyNet::CutBody(k, e) = reply.net {
        // the last 8 bytes end the last chunk
        let l = (out.len() - head).saturating_sub(8);
        out.truncate(head + l * k.min(999) as usize / 1000);
        end = Some(e);
        eof = false;
    }
    let d = send_chunks(s, conn, &out, reply.chunk, reply.gap, lat);
    if eof {
        s.after(d, WEv::ToAppEof { conn });
    }
    match end {
        Some(ConnEnd::Eof) => s.after(d, WEv::ToAppEof { conn }),
        Some(ConnEnd::Reset) => s.after(d, WEv::ToAppRst { conn }),
        _ => (),
    }
    s.after(d, WEv::RepDone { conn });
}
