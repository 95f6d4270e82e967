//! Simulated kernel objects: descriptors, sockets, pipes, files, the small file system, processes.
use crate::sim::*;
use crate::world::{WEv, WKind};
use model::*;
use std::collections::{BTreeMap, VecDeque};

pub type R<T> = Result<T, i32>;

#[derive(Clone, Debug, PartialEq)]
pub enum Addr {
    None,
    In([u8; 4], u16),
    In6([u8; 16], u16),
    Unix(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Peer {
    None,
    Obj(usize),
    World(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OKind {
    Sock,
    Listener,
    File,
    Null,
    Random,
}

pub struct Obj {
    pub kind: OKind,
    pub refs: u32,
    pub fam: i32,
    pub typ: i32,
    pub nonblock: bool,
    pub rx: VecDeque<u8>,
    pub eof: bool,
    pub rst: bool,
    pub rst_seen: bool,
    pub wr_shut: bool,
    pub rd_shut: bool,
    pub peer_gone: bool,
    pub connecting: bool,
    pub connected: bool,
    pub so_error: i32,
    pub rcvto: u64,
    pub sndto: u64,
    pub peer: Peer,
    pub local: Addr,
    pub remote: Addr,
    pub queue: VecDeque<usize>,
    pub pos: usize,
    pub consumed: u64,
    pub conf: bool,
    pub pipe_r: bool,
    pub pipe_w: bool,
}
impl Obj {
    pub fn new(kind: OKind) -> Obj {
        Obj {
            kind,
            refs: 1,
            fam: 0,
            typ: 0,
            nonblock: false,
            rx: VecDeque::new(),
            eof: false,
            rst: false,
            rst_seen: false,
            wr_shut: false,
            rd_shut: false,
            peer_gone: false,
            connecting: false,
            connected: false,
            so_error: 0,
            rcvto: 0,
            sndto: 0,
            peer: Peer::None,
            local: Addr::None,
            remote: Addr::None,
            queue: VecDeque::new(),
            pos: 0,
            consumed: 0,
            conf: false,
            pipe_r: false,
            pipe_w: false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Node {
    Dir,
    Conf,
    /// listener object, if anyone listens (usize::MAX = a scripted peer outside the process)
    Sock(Option<usize>),
    DevLog,
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub mtime: i128,
}

pub struct Proc {
    pub pid: i32,
    pub kind: String,
    pub spec: ProcSpec,
    pub objs: Vec<usize>,
    pub out: Option<usize>,
    pub ended: Option<(i32, i32)>,
    pub reaped: bool,
    pub dumping: bool,
}

pub struct Kern {
    pub fds: BTreeMap<i32, (usize, bool)>,
    pub objs: Vec<Option<Obj>>,
    pub fs: BTreeMap<String, Inode>,
    pub procs: BTreeMap<i32, Proc>,
    pub next_pid: i32,
    pub next_port: u16,
    pub sigs: BTreeMap<i32, usize>,
    pub file_actions: BTreeMap<usize, Vec<(i32, i32)>>,
    pub env0: Vec<String>,
    pub ips: Vec<String>,
    pub umask: u32,
    pub cwd: String,
}

impl Kern {
    pub fn new() -> Kern {
        Kern {
            fds: BTreeMap::new(),
            objs: Vec::new(),
            fs: BTreeMap::new(),
            procs: BTreeMap::new(),
            next_pid: 5001,
            next_port: 0,
            sigs: BTreeMap::new(),
            file_actions: BTreeMap::new(),
            env0: Vec::new(),
            cwd: CWD.into(),
            ips: Vec::new(),
            umask: 0o022,
        }
    }
    pub fn ip_of(&mut self, host: &str) -> [u8; 4] {
        let i = match self.ips.iter().position(|x| x == host) {
            Some(i) => i,
            None => {
                self.ips.push(host.to_string());
                self.ips.len() - 1
            }
        };
        [10, 77, (i / 200) as u8, (i % 200) as u8 + 1]
    }
    pub fn host_of(&self, ip: [u8; 4]) -> Option<String> {
        if ip[0] == 10 && ip[1] == 77 && ip[3] > 0 {
            return self.ips.get(ip[2] as usize * 200 + ip[3] as usize - 1).cloned();
        }
        None
    }
    pub fn new_obj(&mut self, o: Obj) -> usize {
        self.objs.push(Some(o));
        self.objs.len() - 1
    }
    pub fn o(&mut self, i: usize) -> &mut Obj {
        self.objs[i].as_mut().unwrap()
    }
    pub fn alive(&self, i: usize) -> bool {
        self.objs.get(i).map_or(false, |x| x.is_some())
    }
    pub fn fd_new(&mut self, obj: usize, min: i32) -> i32 {
        let mut fd = min;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.fds.insert(fd, (obj, true));
        fd
    }
    pub fn fd(&self, fd: i32) -> R<usize> {
        self.fds.get(&fd).map(|x| x.0).ok_or(libc::EBADF)
    }
}

pub const FD0: i32 = 10;

impl Sim {
    /// A path from where the process is.
    pub fn abs(&self, p: &str) -> String {
        if p.starts_with('/') {
            Sim::norm(p)
        } else {
            Sim::norm(&format!("{}/{p}", self.k.cwd))
        }
    }
    pub fn norm(p: &str) -> String {
        let mut s = String::new();
        for c in p.split('/').filter(|x| !x.is_empty() && *x != ".") {
            s.push('/');
            s.push_str(c);
        }
        if s.is_empty() {
            s.push('/');
        }
        s
    }
    fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".into(),
            Some(i) => p[..i].to_string(),
        }
    }
    /// as seen by stat and the like
    pub fn stat_node(&self, p: &str) -> R<Inode> {
        match self.node(p) {
            Ok(Inode { node: Node::Conf, .. }) if self.w.conf_err == Some(libc::ENOENT) => Err(libc::ENOENT),
            x => x,
        }
    }
    pub fn node(&self, p: &str) -> R<Inode> {
        let p = self.abs(p);
        if p == "/" {
            return Ok(Inode { node: Node::Dir, mode: 0o755, mtime: 0 });
        }
        self.k.fs.get(&p).cloned().ok_or(libc::ENOENT)
    }

    pub fn sys_close(&mut self, fd: i32) -> R<i64> {
        let (o, _) = self.k.fds.remove(&fd).ok_or(libc::EBADF)?;
        self.unref(o);
        Ok(0)
    }
    pub fn unref(&mut self, o: usize) {
        if !self.k.alive(o) {
            return;
        }
        let x = self.k.o(o);
        x.refs -= 1;
        if x.refs > 0 {
            return;
        }
        let kind = x.kind;
        let peer = x.peer;
        let unread = !x.rx.is_empty();
        let consumed = x.consumed;
        let q: Vec<usize> = x.queue.drain(..).collect();
        self.notify(Key::Obj(o));
        match kind {
            OKind::Sock => match peer {
                Peer::Obj(p) => {
                    if self.k.alive(p) {
                        let po = self.k.o(p);
                        po.eof = true;
                        po.peer_gone = true;
                        self.notify(Key::Obj(p));
                    }
                }
                Peer::World(c) => {
                    let lat = self.w.lat(&self.case, c);
                    self.after(lat, WEv::AppClose { conn: c, rst: unread, consumed });
                }
                Peer::None => (),
            },
            OKind::Listener => {
                for c in q {
                    self.unref(c);
                }
                for n in self.k.fs.values_mut() {
                    if let Node::Sock(Some(l)) = n.node {
                        if l == o {
                            n.node = Node::Sock(None);
                        }
                    }
                }
            }
            _ => (),
        }
        self.k.objs[o] = None;
    }

    pub fn sys_socket(&mut self, fam: i32, typ: i32) -> R<i64> {
        if let Some(FaultKind::Err(e)) = self.fault("socket") {
            return Err(e);
        }
        let mut o = Obj::new(OKind::Sock);
        o.fam = fam;
        o.typ = typ & 0xf;
        o.nonblock = typ & libc::SOCK_NONBLOCK != 0;
        if fam != libc::AF_INET && fam != libc::AF_UNIX && fam != libc::AF_INET6 {
            return Err(libc::EAFNOSUPPORT);
        }
        let o = self.k.new_obj(o);
        Ok(self.k.fd_new(o, FD0) as i64)
    }
    pub fn pair(&mut self, fam: i32, typ: i32) -> (usize, usize) {
        let a = self.k.new_obj(Obj::new(OKind::Sock));
        let b = self.k.new_obj(Obj::new(OKind::Sock));
        for (x, y) in [(a, b), (b, a)] {
            let o = self.k.o(x);
            o.fam = fam;
            o.typ = typ & 0xf;
            o.nonblock = typ & libc::SOCK_NONBLOCK != 0;
            o.connected = true;
            o.peer = Peer::Obj(y);
        }
        (a, b)
    }

    pub fn sys_bind(&mut self, fd: i32, a: Addr) -> R<i64> {
        let o = self.k.fd(fd)?;
        if let Some(FaultKind::Err(e)) = self.fault("bind") {
            return Err(e);
        }
        let a = match a {
            Addr::In(ip, 0) => {
                if self.k.next_port == 0 {
                    self.k.next_port = 32000 + self.erng.below(20000) as u16;
                }
                self.k.next_port += 1 + self.erng.below(7) as u16;
                Addr::In(ip, self.k.next_port)
            }
            Addr::In6(ip, 0) => {
                if self.k.next_port == 0 {
                    self.k.next_port = 32000 + self.erng.below(20000) as u16;
                }
                self.k.next_port += 1 + self.erng.below(7) as u16;
                Addr::In6(ip, self.k.next_port)
            }
            x => x,
        };
        match &a {
            Addr::Unix(p) => {
                let p = self.abs(p);
                if self.k.fs.contains_key(&p) {
                    return Err(libc::EADDRINUSE);
                }
                match self.node(&Sim::parent(&p)) {
                    Ok(Inode { node: Node::Dir, .. }) => (),
                    _ => return Err(libc::ENOENT),
                }
                let mode = 0o777 & !self.k.umask;
                let mtime = self.clock(0).unwrap();
                self.k.fs.insert(p.clone(), Inode { node: Node::Sock(Some(o)), mode, mtime });
                let dm = self.node(&Sim::parent(&p)).map(|x| x.mode).unwrap_or(0);
                self.rec(E::Fs { what: "bind".into(), path: p, arg: dm as i64 });
            }
            Addr::In(_, port) => {
                let port = *port;
                for x in self.k.objs.iter().flatten() {
                    if x.kind == OKind::Listener {
                        if let Addr::In(_, q) = x.local {
                            if q == port {
                                return Err(libc::EADDRINUSE);
                            }
                        }
                    }
                }
                let s = if let Addr::In(ip, _) = &a { format!("{}.{}.{}.{}:{port}", ip[0], ip[1], ip[2], ip[3]) } else { String::new() };
                self.rec(E::Fs { what: "bindtcp".into(), path: s, arg: port as i64 });
            }
            _ => (),
        }
        self.k.o(o).local = a;
        Ok(0)
    }
    pub fn sys_listen(&mut self, fd: i32) -> R<i64> {
        let o = self.k.fd(fd)?;
        self.k.o(o).kind = OKind::Listener;
        Ok(0)
    }
    pub fn sys_accept(&mut self, fd: i32, flags: i32) -> R<(i64, usize)> {
        let l = self.k.fd(fd)?;
        if self.k.o(l).kind != OKind::Listener {
            return Err(libc::EINVAL);
        }
        let f = self.fault("accept");
        loop {
            if let Some(c) = self.k.o(l).queue.pop_front() {
                if let Some(FaultKind::Err(e)) = f {
                    if e == libc::ECONNABORTED {
                        self.unref(c);
                    } else {
                        self.k.o(l).queue.push_front(c);
                    }
                    return Err(e);
                }
                self.k.o(c).nonblock = flags & libc::SOCK_NONBLOCK != 0;
                let nfd = self.k.fd_new(c, FD0);
                if let Peer::World(w) = self.k.o(c).peer {
                    crate::world::accepted(self, w);
                }
                return Ok((nfd as i64, c));
            }
            if self.k.o(l).nonblock {
                return Err(libc::EAGAIN);
            }
            self.block(vec![Key::Obj(l)], None);
            if !self.k.alive(l) {
                return Err(libc::EBADF);
            }
        }
    }

    pub fn sys_connect(&mut self, fd: i32, a: Addr) -> R<i64> {
        let o = self.k.fd(fd)?;
        if let Some(FaultKind::Err(e)) = self.fault("connect") {
            return Err(e);
        }
        self.k.o(o).remote = a.clone();
        match a {
            Addr::Unix(p) => {
                let p = self.abs(&p);
                let n = self.node(&p)?;
                match n.node {
                    Node::DevLog => {
                        let w = self.w.new_conn(WKind::Syslog, o);
                        let x = self.k.o(o);
                        x.connected = true;
                        x.peer = Peer::World(w);
                        Ok(0)
                    }
                    Node::Sock(Some(usize::MAX)) => {
                        let sc = self.ph.script.clone().unwrap_or_default();
                        if let Some(e) = sc.connect_err {
                            return Err(e);
                        }
                        let w = self.w.new_conn(WKind::Script, o);
                        let x = self.k.o(o);
                        x.connected = true;
                        x.peer = Peer::World(w);
                        self.rec(E::Fs { what: "connect".into(), path: p, arg: 0 });
                        Ok(0)
                    }
                    Node::Sock(Some(l)) => {
                        // connecting to ourselves
                        let (x, y) = self.pair(libc::AF_UNIX, libc::SOCK_STREAM);
                        self.k.objs.swap(o, x);
                        self.k.o(o).peer = Peer::Obj(y);
                        self.k.o(y).peer = Peer::Obj(o);
                        self.k.objs[x] = None;
                        self.k.o(l).queue.push_back(y);
                        self.notify(Key::Obj(l));
                        Ok(0)
                    }
                    _ => Err(libc::ECONNREFUSED),
                }
            }
            Addr::In(ip, port) => {
                let host = match self.k.host_of(ip) {
                    Some(h) => h,
                    None => {
                        self.rec(E::Escape { what: format!("connect to {ip:?}:{port}") });
                        return Err(libc::ECONNREFUSED);
                    }
                };
                let cur = self.cur as usize;
                let fault = self.tasks[cur].dns_fault.get(&host).copied().unwrap_or_default();
                let tr = self.tasks[cur].last_try;
                let st = self.w.net.get(&host).copied().unwrap_or_default();
                let (res, delay) = match (st, fault) {
                    (NetState::Refuse, _) | (_, ConnFault::Refuse) => {
                        (libc::ECONNREFUSED, 2 * self.case.net_lat)
                    }
                    (NetState::Unreach, _) | (_, ConnFault::Unreach) => (libc::EHOSTUNREACH, 0),
                    (NetState::Blackhole, _) | (_, ConnFault::Blackhole) => {
                        (libc::ETIMEDOUT, 130 * SEC)
                    }
                    _ => (0, 2 * self.case.net_lat),
                };
                let w = self.w.new_conn(
                    WKind::Prov { host: host.clone(), port, reset: fault == ConnFault::ResetOnRequest, tr },
                    o,
                );
                let x = self.k.o(o);
                x.peer = Peer::World(w);
                x.connecting = true;
                x.local = Addr::In([10, 0, 0, 2], 60000);
                let nb = x.nonblock;
                let sndto = x.sndto;
                self.after(delay, WEv::ConnectDone { conn: w, res });
                if nb {
                    return Err(libc::EINPROGRESS);
                }
                let dl = if sndto > 0 { Some(self.rel_dl(sndto)) } else { None };
                loop {
                    let wk = self.block(vec![Key::Obj(o)], dl);
                    if !self.k.alive(o) {
                        return Err(libc::EBADF);
                    }
                    let x = self.k.o(o);
                    if !x.connecting {
                        let e = std::mem::replace(&mut x.so_error, 0);
                        return if e == 0 { Ok(0) } else { Err(e) };
                    }
                    if wk == Wake::Timeout {
                        return Err(libc::EINPROGRESS);
                    }
                }
            }
            _ => Err(libc::EAFNOSUPPORT),
        }
    }

    pub fn recv(&mut self, o: usize, out: &mut [u8], peek: bool, dontwait: bool, call: &'static str) -> R<usize> {
        let mut len = out.len();
        // no faults within the process's own pipes and socket pairs
        let conf = self.k.o(o).conf;
        let f = if matches!(self.k.o(o).peer, Peer::Obj(_)) { None } else { self.fault(if conf { "conf" } else { call }) };
        match f {
            Some(FaultKind::Err(e)) => {
                if conf && e != libc::EINTR {
                    let idx = self.w.conf;
                    self.rec(E::ConfRead { idx, err: e });
                }
                return Err(e);
            }
            Some(FaultKind::Short(n)) => len = len.min(n.max(1)),
            _ => (),
        }
        if len == 0 {
            return Ok(0);
        }
        let kind = self.k.o(o).kind;
        if let Peer::World(c) = self.k.o(o).peer {
            if let WKind::Browser { op, .. } = self.w.conns[c].kind {
                let cur = self.cur as usize;
                self.tasks[cur].br = Some(op);
            }
        }
        match kind {
            OKind::Null => return Ok(0),
            OKind::Random => {
                for b in out.iter_mut() {
                    *b = self.erng.next() as u8;
                }
                return Ok(out.len());
            }
            OKind::File => {
                let x = self.k.o(o);
                let n = len.min(x.rx.len() - x.pos);
                for i in 0..n {
                    out[i] = x.rx[x.pos + i];
                }
                x.pos += n;
                return Ok(n);
            }
            OKind::Listener => return Err(libc::EINVAL),
            OKind::Sock => (),
        }
        let rcvto = self.k.o(o).rcvto;
        let dl = if rcvto > 0 { Some(self.rel_dl(rcvto)) } else { None };
        loop {
            let x = self.k.o(o);
            if x.pipe_w {
                return Err(libc::EBADF);
            }
            if !x.rx.is_empty() {
                let n = len.min(x.rx.len());
                for (i, b) in x.rx.iter().take(n).enumerate() {
                    out[i] = *b;
                }
                if !peek {
                    x.rx.drain(..n);
                    x.consumed += n as u64;
                }
                return Ok(n);
            }
            if x.rst && !x.rst_seen {
                x.rst_seen = true;
                return Err(libc::ECONNRESET);
            }
            if x.so_error != 0 {
                let e = std::mem::replace(&mut x.so_error, 0);
                return Err(e);
            }
            if x.eof || x.rd_shut || x.rst {
                return Ok(0);
            }
            if !x.connected && !x.pipe_r {
                return Err(libc::ENOTCONN);
            }
            if x.nonblock || dontwait {
                return Err(libc::EAGAIN);
            }
            if self.block(vec![Key::Obj(o)], dl) == Wake::Timeout {
                return Err(libc::EAGAIN);
            }
            if !self.k.alive(o) {
                return Err(libc::EBADF);
            }
        }
    }

    pub fn send(&mut self, o: usize, data: &[u8], call: &'static str) -> R<usize> {
        let mut data = data;
        let f = if matches!(self.k.o(o).peer, Peer::Obj(_)) { None } else { self.fault(call) };
        match f {
            Some(FaultKind::Err(e)) => return Err(e),
            Some(FaultKind::Short(n)) => data = &data[..data.len().min(n.max(1))],
            _ => (),
        }
        let x = self.k.o(o);
        match x.kind {
            OKind::Null => return Ok(data.len()),
            OKind::Sock => (),
            _ => return Err(libc::EBADF),
        }
        if x.so_error != 0 {
            let e = std::mem::replace(&mut x.so_error, 0);
            return Err(e);
        }
        if x.wr_shut || x.rst || x.peer_gone {
            return Err(libc::EPIPE);
        }
        if !x.connected && !x.pipe_w {
            return Err(libc::ENOTCONN);
        }
        match x.peer {
            Peer::World(w) => {
                // a datagram has to fit in the send buffer
                if matches!(self.w.conns[w].kind, WKind::Syslog) && data.len() > 212_960 {
                    return Err(libc::EMSGSIZE);
                }
                let lat = self.w.lat(&self.case, w);
                self.after(lat, WEv::AppData { conn: w, data: data.to_vec() });
            }
            Peer::Obj(p) => {
                if !self.k.alive(p) {
                    return Err(libc::EPIPE);
                }
                self.k.o(p).rx.extend(data.iter());
                self.notify(Key::Obj(p));
            }
            Peer::None => return Err(libc::ENOTCONN),
        }
        Ok(data.len())
    }

    pub fn sys_shutdown(&mut self, fd: i32, how: i32) -> R<i64> {
        let o = self.k.fd(fd)?;
        let x = self.k.o(o);
        if !x.connected {
            return Err(libc::ENOTCONN);
        }
        if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
            x.rd_shut = true;
        }
        let mut wr = false;
        if (how == libc::SHUT_WR || how == libc::SHUT_RDWR) && !x.wr_shut {
            x.wr_shut = true;
            wr = true;
        }
        let peer = x.peer;
        if wr {
            match peer {
                Peer::World(w) => {
                    let lat = self.w.lat(&self.case, w);
                    self.after(lat, WEv::AppEof { conn: w });
                }
                Peer::Obj(p) => {
                    if self.k.alive(p) {
                        self.k.o(p).eof = true;
                        self.notify(Key::Obj(p));
                    }
                }
                Peer::None => (),
            }
        }
        self.notify(Key::Obj(o));
        Ok(0)
    }

    pub fn revents(&mut self, fd: i32, ev: i16) -> i16 {
        if (0..3).contains(&fd) {
            return ev & (libc::POLLIN | libc::POLLOUT);
        }
        let o = match self.k.fd(fd) {
            Ok(o) => o,
            Err(_) => return libc::POLLNVAL,
        };
        let x = self.k.o(o);
        let mut r = 0;
        match x.kind {
            OKind::Listener => {
                if !x.queue.is_empty() {
                    r |= libc::POLLIN;
                }
            }
            OKind::Sock => {
                if !x.rx.is_empty() || x.eof || x.rst || x.rd_shut {
                    r |= libc::POLLIN;
                }
                if x.connected && !x.pipe_r {
                    r |= libc::POLLOUT;
                }
                if x.so_error != 0 || x.rst {
                    r |= libc::POLLERR | libc::POLLOUT | libc::POLLIN;
                }
                if (x.eof && (x.wr_shut || x.pipe_r)) || x.peer_gone || x.rst {
                    r |= libc::POLLHUP;
                }
            }
            _ => r |= libc::POLLIN | libc::POLLOUT,
        }
        r & (ev | libc::POLLERR | libc::POLLHUP | libc::POLLNVAL)
    }

    pub fn sys_poll(&mut self, fds: &mut [libc::pollfd], timeout: i64) -> R<i64> {
        match self.fault("poll") {
            Some(FaultKind::Err(e)) => return Err(e),
            _ => (),
        }
        let dl = if timeout < 0 { None } else { Some(self.rel_dl(timeout as u64)) };
        loop {
            let mut n = 0;
            let mut keys = Vec::new();
            for f in fds.iter_mut() {
                f.revents = if f.fd < 0 { 0 } else { self.revents(f.fd, f.events) };
                if f.revents != 0 {
                    n += 1;
                }
                if let Ok(o) = self.k.fd(f.fd) {
                    keys.push(Key::Obj(o));
                }
            }
            if n > 0 || timeout == 0 {
                return Ok(n);
            }
            match self.block(keys, dl) {
                Wake::Timeout => return Ok(0),
                Wake::Signal => return Err(libc::EINTR),
                _ => (),
            }
        }
    }

    pub fn sys_open(&mut self, path: &str, flags: i32) -> R<i64> {
        let p = self.abs(path);
        if let Some(FaultKind::Err(e)) = self.fault("open") {
            if p == self.case.conf_path() {
                let idx = self.w.conf;
                self.rec(E::ConfRead { idx, err: e });
            }
            return Err(e);
        }
        let acc = flags & libc::O_ACCMODE;
        match p.as_str() {
            "/dev/null" => {
                let o = self.k.new_obj(Obj::new(OKind::Null));
                return Ok(self.k.fd_new(o, FD0) as i64);
            }
            "/dev/urandom" | "/dev/random" => {
                let o = self.k.new_obj(Obj::new(OKind::Random));
                return Ok(self.k.fd_new(o, FD0) as i64);
            }
            _ => (),
        }
        if acc != libc::O_RDONLY || flags & libc::O_CREAT != 0 {
            self.rec(E::Escape { what: format!("open for writing {p}") });
            return Err(libc::EACCES);
        }
        match self.node(&p)?.node {
            Node::Conf => {
                let idx = self.w.conf;
                if let Some(e) = self.w.conf_err {
                    self.rec(E::ConfRead { idx, err: e });
                    return Err(e);
                }
                let mut o = Obj::new(OKind::File);
                o.rx = self.case.configs[idx].as_bytes().iter().copied().collect();
                o.conf = true;
                let o = self.k.new_obj(o);
                self.rec(E::ConfRead { idx, err: 0 });
                Ok(self.k.fd_new(o, FD0) as i64)
            }
            Node::Dir => {
                if flags & libc::O_DIRECTORY != 0 {
                    let o = self.k.new_obj(Obj::new(OKind::Null));
                    return Ok(self.k.fd_new(o, FD0) as i64);
                }
                Err(libc::EISDIR)
            }
            Node::Sock(_) | Node::DevLog => Err(libc::ENXIO),
        }
    }

    pub fn sys_mkdir(&mut self, path: &str, mode: u32) -> R<i64> {
        let p = self.abs(path);
        if self.node(&p).is_ok() {
            return Err(libc::EEXIST);
        }
        self.node(&Sim::parent(&p))?;
        let mtime = self.clock(0).unwrap();
        let mode = mode & !self.k.umask & 0o7777;
        self.k.fs.insert(p.clone(), Inode { node: Node::Dir, mode, mtime });
        self.rec(E::Fs { what: "mkdir".into(), path: p, arg: mode as i64 });
        Ok(0)
    }
    pub fn sys_chmod(&mut self, path: &str, mode: u32) -> R<i64> {
        let p = self.abs(path);
        self.node(&p)?;
        if let Some(n) = self.k.fs.get_mut(&p) {
            n.mode = mode & 0o7777;
        }
        self.rec(E::Fs { what: "chmod".into(), path: p, arg: mode as i64 });
        Ok(0)
    }
    pub fn sys_unlink(&mut self, path: &str) -> R<i64> {
        let p = self.abs(path);
        match self.node(&p)?.node {
            Node::Dir => return Err(libc::EISDIR),
            Node::Conf | Node::DevLog => {
                self.rec(E::Escape { what: format!("unlink {p}") });
                return Err(libc::EACCES);
            }
            _ => (),
        }
        self.k.fs.remove(&p);
        self.rec(E::Fs { what: "unlink".into(), path: p, arg: 0 });
        Ok(0)
    }

    // ---- processes ----------------------------------------------------------------------------
    pub fn spawn(&mut self, argv: Vec<String>, env: Vec<String>, dups: &[(i32, i32)]) -> R<i32> {
        // no single argument or variable may be larger (MAX_ARG_STRLEN)
        if argv.iter().chain(&env).any(|x| x.len() >= 131_072) {
            return Err(libc::E2BIG);
        }
        let kind = if argv.len() >= 3 && argv[1] == "-c" {
            argv[2].split_whitespace().next().unwrap_or("").to_string()
        } else {
            format!("?{}", argv.first().cloned().unwrap_or_default())
        };
        let cmd = argv.get(2).cloned().unwrap_or_default();
        let env: Vec<(String, String)> = env
            .iter()
            .filter(|x| !self.k.env0.contains(x))
            .map(|x| match x.split_once('=') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (x.clone(), String::new()),
            })
            .collect();
        let pos = self.w.proc_pos.entry(kind.clone()).or_insert(0);
        let nth = *pos;
        *pos += 1;
        let spec = self
            .case
            .procs
            .get(&kind)
            .and_then(|v| v.get(nth as usize))
            .or_else(|| self.case.default_proc.get(&kind))
            .cloned()
            .unwrap_or(ProcSpec { dur: 5 * MS, ..Default::default() });
        let err = match self.fault("spawn") {
            Some(FaultKind::Err(e)) => e,
            _ => spec.spawn_err,
        };
        // never the same number twice, also across restarts
        let pid = self.k.next_pid + 10_000 * self.phase as i32;
        self.k.next_pid += 1;
        self.rec(E::Spawn {
            pid,
            kind: kind.clone(),
            cmd,
            argv,
            env: env.clone(),
            err,
        });
        if err != 0 {
            return Err(err);
        }
        let mut objs = Vec::new();
        let mut out = None;
        for (from, to) in dups {
            if let Ok(o) = self.k.fd(*from) {
                self.k.o(o).refs += 1;
                objs.push(o);
                if *to == 1 {
                    out = Some(o);
                }
            }
        }
        let dur = spec.dur;
        let dumping = spec.dump.is_some() || spec.show;
        self.k.procs.insert(
            pid,
            Proc { pid, kind: kind.clone(), spec: spec.clone(), objs, out, ended: None, reaped: false, dumping },
        );
        if let Some(o) = out {
            if spec.out > 0 {
                let data: Vec<u8> = (0..spec.out).map(|i| if i % 60 == 59 { b'\n' } else { b'o' }).collect();
                if let Peer::Obj(p) = self.k.o(o).peer {
                    if self.k.alive(p) {
                        self.k.o(p).rx.extend(data.iter());
                        self.notify(Key::Obj(p));
                    }
                }
            }
        }
        crate::world::spawned(self, pid, &kind, nth + 1, &env);
        if dumping {
            self.after(200 * US, WEv::ProcDump { pid });
        } else if dur != u64::MAX {
            self.after(dur.max(50 * US), WEv::ProcExit { pid, code: spec.exit, sig: spec.signal });
        }
        Ok(pid)
    }

    pub fn proc_end(&mut self, pid: i32, code: i32, sig: i32) {
        let (objs, kind) = match self.k.procs.get_mut(&pid) {
            Some(p) if p.ended.is_none() => {
                p.ended = Some((code, sig));
                (std::mem::take(&mut p.objs), p.kind.clone())
            }
            _ => return,
        };
        for o in objs {
            self.unref(o);
        }
        self.rec(E::ProcEnd { pid, kind: kind.clone(), code, sig });
        self.notify(Key::Child);
        if self.sig_handler > 1 {
            self.pending_sig += 1;
        }
        crate::world::proc_ended(self, &kind);
    }

    pub fn wait(&mut self, pid: i32, nohang: bool) -> R<Option<(i32, i32, i32)>> {
        loop {
            let mut found = false;
            for p in self.k.procs.values_mut() {
                if (pid == -1 || p.pid == pid) && !p.reaped {
                    found = true;
                    if let Some((c, s)) = p.ended {
                        p.reaped = true;
                        return Ok(Some((p.pid, c, s)));
                    }
                }
            }
            if !found {
                return Err(libc::ECHILD);
            }
            if nohang {
                return Ok(None);
            }
            self.block(vec![Key::Child], None);
        }
    }

    pub fn kill(&mut self, pid: i32, sig: i32) -> R<i64> {
        match self.k.procs.get(&pid) {
            Some(p) if !p.reaped => {
                if sig == 0 {
                    return Ok(0);
                }
                let ended = p.ended.is_some();
                self.rec(E::Killed { pid, sig });
                if !ended {
                    self.after(100 * US, WEv::ProcExit { pid, code: 0, sig });
                }
                Ok(0)
            }
            _ => Err(libc::ESRCH),
        }
    }

    pub fn tcp_listener(&mut self, port: u16) -> Option<usize> {
        (0..self.k.objs.len()).find(|i| {
            self.k.objs[*i].as_ref().map_or(false, |x| {
                x.kind == OKind::Listener
                    && match x.local {
                        Addr::In(_, p) | Addr::In6(_, p) => p == port,
                        _ => false,
                    }
            })
        })
    }
}
