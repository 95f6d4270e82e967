//! libpzsim: runs an unmodified program binary inside a deterministic simulation by providing its
//! system-call layer (preloaded libc symbols) and its ThreadSanitizer instrumentation hooks.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, static_mut_refs, clippy::missing_safety_doc, clippy::not_unsafe_ptr_arg_deref)]
mod kern;
mod raw;
mod sim;
mod world;

mod tsan;

use kern::*;
use libc::{c_char, c_int, c_uint, c_void, size_t, socklen_t, ssize_t};
use model::*;
use sim::*;
use std::cell::Cell;
use std::ffi::{CStr, CString};

thread_local! {
    /// true while this thread is a simulated task executing application code
    pub static APP: Cell<bool> = const { Cell::new(false) };
}

pub struct Guard;
impl Guard {
    #[inline]
    fn new(cost: u64, tag: u64) -> Guard {
        APP.with(|a| a.set(false));
        sim().sync_point(cost, tag);
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe {
            let s = sim();
            s.flush_lazy();
            if s.pending_sig > 0 {
                let e = *libc::__errno_location();
                run_signals();
                raw::set_errno(e);
            }
        }
        APP.with(|a| a.set(true));
    }
}

pub static mut IN_SIG: bool = false;
pub unsafe fn run_signals() {
    if IN_SIG {
        return;
    }
    let s = sim();
    if s.sig_handler <= 1 {
        s.pending_sig = 0;
        return;
    }
    IN_SIG = true;
    while sim().pending_sig > 0 {
        sim().pending_sig = 0;
        let h = sim().sig_handler;
        let fl = sim().sig_flags;
        APP.with(|a| a.set(true));
        if fl & libc::SA_SIGINFO != 0 {
            let f: extern "C" fn(c_int, *mut c_void, *mut c_void) = std::mem::transmute(h);
            let mut info = [0u64; 32];
            info[0] = libc::SIGCHLD as u64;
            f(libc::SIGCHLD, info.as_mut_ptr() as *mut c_void, info.as_mut_ptr() as *mut c_void);
        } else {
            let f: extern "C" fn(c_int) = std::mem::transmute(h);
            f(libc::SIGCHLD);
        }
        APP.with(|a| a.set(false));
    }
    IN_SIG = false;
}

#[inline]
fn app() -> bool {
    APP.with(|a| a.get())
}

fn rc(r: R<i64>) -> i64 {
    match r {
        Ok(x) => x,
        Err(e) => {
            unsafe { raw::set_errno(e) };
            -1
        }
    }
}
unsafe fn cs(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    CStr::from_ptr(p).to_string_lossy().to_string()
}

// ---------------------------------------------------------------------------------------------
// start-up
// ---------------------------------------------------------------------------------------------

extern "C" {
    static environ: *const *const c_char;
    fn on_exit(f: extern "C" fn(c_int, *mut c_void), a: *mut c_void) -> c_int;
}

#[used]
#[link_section = ".init_array"]
static CTOR: extern "C" fn() = ctor;

static mut DAEMON: bool = false;

extern "C" fn ctor() {
    unsafe {
        // Only the program under test (told apart by a marker) is simulated.
        let m = libc::getenv(c"PZSIM".as_ptr());
        if m.is_null() {
            return;
        }
        let inp = raw::read_to_end(0);
        let inp: SimIn = match serde_json::from_slice(&inp) {
            Ok(x) => x,
            Err(e) => {
                raw::write_all(2, format!("pzsim: bad input: {e}\n").as_bytes());
                raw::exit_group(96);
            }
        };
        let carry = inp.carry.clone();
        let s = Box::new(Sim::new(inp));
        SIM = Box::into_raw(s);
        let s = sim();
        let mut p = environ;
        while !(*p).is_null() {
            s.k.env0.push(cs(*p));
            p = p.add(1);
        }
        let (mono, boot, wall, phase) = (
            s.clock(1).unwrap() as u64,
            s.clock(7).unwrap() as u64,
            s.clock(0).unwrap() as i64,
            s.phase,
        );
        s.rec(E::Start { phase, mono, boot, wall });
        world::init(s, &carry);
        on_exit(at_exit, std::ptr::null_mut());
        // fatal signals end the simulated process, not the history
        for sg in [libc::SIGILL, libc::SIGTRAP, libc::SIGFPE] {
            real_sigaction(sg, fatal as *const () as usize);
        }
        // resolve everything that is called through later, before the program starts
        real_pthread_create();
        real_pthread_join();
        libc::pthread_key_create(&raw mut GONE, Some(thread_gone));
        APP.with(|a| a.set(true));
    }
}

unsafe fn real_sigaction(sg: i32, h: usize) {
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = h;
    sa.sa_flags = libc::SA_ONSTACK;
    let f: extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int =
        std::mem::transmute(raw::next_sym("sigaction"));
    f(sg, &sa, std::ptr::null_mut());
}

extern "C" fn fatal(sg: c_int) {
    APP.with(|a| a.set(false));
    world::exit_proc(sim(), 0, sg, true)
}

extern "C" fn at_exit(code: c_int, _: *mut c_void) {
    if unsafe { SIM.is_null() } {
        return;
    }
    APP.with(|a| a.set(false));
    world::exit_proc(sim(), code, 0, false)
}

// ---------------------------------------------------------------------------------------------
// threads
// ---------------------------------------------------------------------------------------------

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type PCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int;
type PJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut PCREATE: Option<PCreate> = None;
static mut PJOIN: Option<PJoin> = None;
unsafe fn real_pthread_create() -> PCreate {
    if PCREATE.is_none() {
        PCREATE = Some(std::mem::transmute::<*mut c_void, PCreate>(raw::next_sym("pthread_create")));
    }
    PCREATE.unwrap()
}
unsafe fn real_pthread_join() -> PJoin {
    if PJOIN.is_none() {
        PJOIN = Some(std::mem::transmute::<*mut c_void, PJoin>(raw::next_sym("pthread_join")));
    }
    PJOIN.unwrap()
}

struct Tramp {
    f: StartFn,
    arg: *mut c_void,
    park: *const std::sync::atomic::AtomicU32,
    up: *const std::sync::atomic::AtomicU32,
}

static mut GONE: libc::pthread_key_t = 0;

/// Called in the rounds of key destructors at the end of a thread. The standard library drops its own
/// thread data in the first two rounds; only then is the simulated thread over.
unsafe extern "C" fn thread_gone(v: *mut c_void) {
    if (v as usize) < 3 {
        libc::pthread_setspecific(GONE, (v as usize + 1) as *const c_void);
        return;
    }
    APP.with(|a| a.set(false));
    DYING.store(raw::sc3(libc::SYS_gettid, 0, 0, 0) as u32, std::sync::atomic::Ordering::SeqCst);
    sim().task_exit();
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut Tramp);
        let Tramp { f, arg, park, up } = *t;
        libc::pthread_setspecific(GONE, 1 as *const c_void);
        APP.with(|a| a.set(false));
        (*up).store(1, std::sync::atomic::Ordering::SeqCst);
        raw::futex_wake(up as *const u32);
        Sim::park(park);
        APP.with(|a| a.set(true));
        f(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    if !app() {
        return real_pthread_create()(t, a, f, arg);
    }
    let _g = Guard::new(10 * US, 0x100);
    let s = sim();
    if let Some(FaultKind::Err(e)) = s.fault("thread") {
        return e;
    }
    let id = s.tasks.len() as u32;
    let park = Box::new(std::sync::atomic::AtomicU32::new(0));
    let pp: *const _ = &*park;
    let up = std::sync::atomic::AtomicU32::new(0);
    let b = Box::into_raw(Box::new(Tramp { f, arg, park: pp, up: &up }));
    let mut real: libc::pthread_t = 0;
    let r = real_pthread_create()(&mut real, a, trampoline, b as *mut c_void);
    if r != 0 {
        drop(Box::from_raw(b));
        return r;
    }
    // the new thread gets as far as waiting for its turn, so that memory is allocated in a fixed order
    while up.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        raw::futex_wait(&up as *const _ as *const u32, 0);
    }
    *t = real;
    s.tasks.push(Task {
        id,
        state: TState::Run,
        park,
        stalled_until: 0,
        wake: Wake::None,
        real: real as u64,
        dns_fault: Default::default(),
        last_try: 0,
        br: None,
    });
    s.st.threads += 1;
    s.live.push(id);
    s.runq.push_back(id);
    s.burst();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if app() {
        let _g = Guard::new(US, 0x101);
        let s = sim();
        if let Some(i) = s.tasks.iter().rposition(|x| x.real == t as u64) {
            while s.tasks[i].state != TState::Done {
                s.block(vec![Key::Join(i as u32)], None);
            }
        }
        return real_pthread_join()(t, r);
    }
    real_pthread_join()(t, r)
}

// ---------------------------------------------------------------------------------------------
// time
// ---------------------------------------------------------------------------------------------

unsafe fn ts_ns(t: *const libc::timespec) -> i128 {
    (*t).tv_sec as i128 * SEC as i128 + (*t).tv_nsec as i128
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if SIM.is_null() {
        return raw::ret(raw::sc3(libc::SYS_clock_gettime, id as usize, ts as usize, 0)) as c_int;
    }
    let _g = app().then(|| Guard::new(10 * US, 0x110));
    match (*SIM).clock(id) {
        Some(n) => {
            (*ts).tv_sec = n.div_euclid(SEC as i128) as i64;
            (*ts).tv_nsec = n.rem_euclid(SEC as i128) as i64;
            0
        }
        None => {
            raw::set_errno(libc::EINVAL);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(0, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(0, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_nanosleep, a as usize, b as usize, 0)) as c_int;
    }
    let n = ts_ns(a).clamp(0, u64::MAX as i128 / 2) as u64;
    let _g = Guard::new(US, 0x111);
    sim().sleep(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !app() {
        return -raw::sc6(libc::SYS_clock_nanosleep, id as usize, fl as usize, a as usize, b as usize, 0, 0) as c_int;
    }
    let n = ts_ns(a);
    let _g = Guard::new(US, 0x112);
    let s = sim();
    if fl & 1 != 0 {
        let dl = s.abs_dl(id, n);
        while s.block(vec![], Some(dl)) != Wake::Timeout {}
    } else {
        s.sleep(n.clamp(0, u64::MAX as i128 / 2) as u64);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(n: c_uint) -> c_int {
    if app() {
        let _g = Guard::new(US, 0x113);
        sim().sleep(n as u64 * US);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sleep(n: c_uint) -> c_uint {
    if app() {
        let _g = Guard::new(US, 0x113);
        sim().sleep(n as u64 * SEC);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if app() {
        let _g = Guard::new(US, 0x114);
        sim().yield_now();
    }
    0
}

// ---------------------------------------------------------------------------------------------
// randomness
// ---------------------------------------------------------------------------------------------

static mut IN_RNG: u64 = 0x1234_5678_9abc_def0;
unsafe fn fill_random(p: *mut u8, n: usize, appl: bool) {
    let out = std::slice::from_raw_parts_mut(p, n);
    for c in out.chunks_mut(8) {
        let v = if appl {
            sim().erng.next()
        } else {
            IN_RNG = IN_RNG.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = IN_RNG;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let l = c.len();
        c.copy_from_slice(&v.to_le_bytes()[..l]);
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, _fl: c_uint) -> ssize_t {
    if app() {
        let _g = Guard::new(US, 0x120);
        let mut n = n;
        match sim().fault("getrandom") {
            Some(FaultKind::Err(e)) => {
                raw::set_errno(e);
                return -1;
            }
            Some(FaultKind::Short(k)) => n = n.min(k.max(1)),
            _ => (),
        }
        fill_random(p as *mut u8, n, true);
        return n as ssize_t;
    }
    fill_random(p as *mut u8, n, false);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    getrandom(p, n, 0);
    0
}

// ---------------------------------------------------------------------------------------------
// syscall(2)
// ---------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as i64;
    }
    if !app() {
        return raw::ret(raw::sc6(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => {
            let op = (b as i32) & 0x7f;
            let rt = (b as i32) & libc::FUTEX_CLOCK_REALTIME != 0;
            match op {
                0 | 9 => {
                    let _g = Guard::new(200, 0x130);
                    let s = sim();
                    if let Some(FaultKind::Spurious) = s.fault("futex") {
                        s.yield_now();
                        return 0;
                    }
                    if *(a as *const u32) != c as u32 {
                        raw::set_errno(libc::EAGAIN);
                        return -1;
                    }
                    let ts = d as *const libc::timespec;
                    let dl = if ts.is_null() {
                        None
                    } else if op == 9 {
                        Some(s.abs_dl(if rt { 0 } else { 1 }, ts_ns(ts)))
                    } else {
                        Some(s.rel_dl(ts_ns(ts).clamp(0, u64::MAX as i128 / 2) as u64))
                    };
                    match s.block(vec![Key::Futex(a)], dl) {
                        Wake::Timeout => {
                            raw::set_errno(libc::ETIMEDOUT);
                            -1
                        }
                        Wake::Signal => {
                            raw::set_errno(libc::EINTR);
                            -1
                        }
                        _ => 0,
                    }
                }
                1 | 10 => {
                    let _g = Guard::new(200, 0x131);
                    sim().notify_n(Key::Futex(a), c as u32) as i64
                }
                _ => {
                    raw::set_errno(libc::ENOSYS);
                    -1
                }
            }
        }
        libc::SYS_gettid => gettid() as i64,
        libc::SYS_pidfd_open | libc::SYS_pidfd_send_signal | libc::SYS_clone3 | libc::SYS_statx
        | libc::SYS_copy_file_range => {
            raw::set_errno(libc::ENOSYS);
            -1
        }
        libc::SYS_close => close(a as c_int) as i64,
        _ => raw::ret(raw::sc6(n, a, b, c, d, e, f)),
    }
}

// ---------------------------------------------------------------------------------------------
// descriptors
// ---------------------------------------------------------------------------------------------

static mut STDIN_POS: usize = 0;

unsafe fn do_read(fd: c_int, out: &mut [u8], peek: bool, dontwait: bool, call: &'static str) -> R<i64> {
    let s = sim();
    if fd == 0 {
        if DAEMON {
            return Ok(0);
        }
        let mut n = out.len();
        match s.fault("stdin") {
            Some(FaultKind::Err(e)) => return Err(e),
            Some(FaultKind::Short(k)) => n = n.min(k.max(1)),
            _ => (),
        }
        let d = s.ph.stdin.bytes(&s.w.dumps);
        let n = n.min(d.len() - STDIN_POS);
        out[..n].copy_from_slice(&d[STDIN_POS..STDIN_POS + n]);
        STDIN_POS += n;
        return Ok(n as i64);
    }
    let o = s.k.fd(fd)?;
    let r = s.recv(o, out, peek, dontwait, call).map(|x| x as i64);
    if let Ok(1..) = r {
        s.arm();
    }
    r
}
unsafe fn do_write(fd: c_int, data: &[u8], call: &'static str) -> R<i64> {
    let s = sim();
    if fd == 1 || fd == 2 {
        if DAEMON {
            return Ok(data.len() as i64);
        }
        let mut data = data;
        if fd == 1 {
            match s.fault("stdout") {
                Some(FaultKind::Err(e)) => return Err(e),
                Some(FaultKind::Short(k)) => data = &data[..data.len().min(k.max(1))],
                _ => (),
            }
            s.rec(E::Stdout { data: Blob::from_bytes(data) });
        } else {
            s.rec(E::Log { src: "stderr".into(), text: String::from_utf8_lossy(data).to_string() });
        }
        return Ok(data.len() as i64);
    }
    let o = s.k.fd(fd)?;
    s.send(o, data, call).map(|x| x as i64)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_read, fd as usize, p as usize, n)) as ssize_t;
    }
    let _g = Guard::new(US, 0x200);
    rc(do_read(fd, std::slice::from_raw_parts_mut(p as *mut u8, n), false, false, "read")) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_readv, fd as usize, v as usize, n as usize)) as ssize_t;
    }
    let _g = Guard::new(US, 0x200);
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return rc(do_read(fd, std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len), false, false, "read"))
                as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    recvfrom(fd, p, n, fl, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int,
    p: *mut c_void,
    n: size_t,
    fl: c_int,
    _a: *mut libc::sockaddr,
    _l: *mut socklen_t,
) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_recvfrom, fd as usize, p as usize, n, fl as usize, 0, 0)) as ssize_t;
    }
    let _g = Guard::new(US, 0x201);
    rc(do_read(
        fd,
        std::slice::from_raw_parts_mut(p as *mut u8, n),
        fl & libc::MSG_PEEK != 0,
        fl & libc::MSG_DONTWAIT != 0,
        "recv",
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, fl: c_int) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_recvmsg, fd as usize, m as usize, fl as usize)) as ssize_t;
    }
    let _g = Guard::new(US, 0x202);
    let m = &mut *m;
    if m.msg_iovlen == 0 {
        return 0;
    }
    let x = &*m.msg_iov;
    rc(do_read(
        fd,
        std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len),
        fl & libc::MSG_PEEK != 0,
        fl & libc::MSG_DONTWAIT != 0,
        "recv",
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_write, fd as usize, p as usize, n)) as ssize_t;
    }
    let _g = Guard::new(US, 0x210);
    rc(do_write(fd, std::slice::from_raw_parts(p as *const u8, n), "write")) as ssize_t
}
unsafe fn gather(v: *const libc::iovec, n: usize) -> Vec<u8> {
    let mut b = Vec::new();
    for i in 0..n {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            b.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_writev, fd as usize, v as usize, n as usize)) as ssize_t;
    }
    let _g = Guard::new(US, 0x210);
    rc(do_write(fd, &gather(v, n as usize), "write")) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    sendto(fd, p, n, fl, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    p: *const c_void,
    n: size_t,
    fl: c_int,
    a: *const libc::sockaddr,
    l: socklen_t,
) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_sendto, fd as usize, p as usize, n, fl as usize, a as usize, l as usize))
            as ssize_t;
    }
    let _g = Guard::new(US, 0x211);
    if !a.is_null() {
        // an unconnected datagram: only the system log is known
        if let Ok(Addr::Unix(x)) = parse_addr(a, l) {
            if sim().abs(&x) == "/dev/log" {
                if n > 212_960 {
                    raw::set_errno(libc::EMSGSIZE);
                    return -1;
                }
                let d = std::slice::from_raw_parts(p as *const u8, n);
                sim().rec(E::Log { src: "syslog".into(), text: String::from_utf8_lossy(d).to_string() });
                return n as ssize_t;
            }
        }
        raw::set_errno(libc::ECONNREFUSED);
        return -1;
    }
    rc(do_write(fd, std::slice::from_raw_parts(p as *const u8, n), "send")) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, fl: c_int) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_sendmsg, fd as usize, m as usize, fl as usize)) as ssize_t;
    }
    let _g = Guard::new(US, 0x212);
    rc(do_write(fd, &gather((*m).msg_iov, (*m).msg_iovlen as usize), "send")) as ssize_t
}
macro_rules! nosys {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_a: usize, _b: usize, _c: usize, _d: usize, _e: usize, _f: usize) -> i64 {
            raw::set_errno(libc::ENOSYS);
            -1
        }
    )* };
}
nosys!(sendfile, sendfile64, splice, copy_file_range, epoll_create1, epoll_create, eventfd, io_uring_setup, inotify_init1, signalfd, timerfd_create);

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_close, fd as usize, 0, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x220);
    if fd < 3 {
        return 0;
    }
    rc(sim().sys_close(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    fcntl(fd, libc::F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int;
    }
    let _g = Guard::new(US, 0x221);
    let s = sim();
    if fd < 3 {
        return 0;
    }
    let o = match s.k.fd(fd) {
        Ok(o) => o,
        Err(e) => return rc(Err(e)) as c_int,
    };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            s.k.o(o).refs += 1;
            s.k.fd_new(o, (arg as i32).max(FD0))
        }
        libc::F_GETFL => {
            libc::O_RDWR | if s.k.o(o).nonblock { libc::O_NONBLOCK } else { 0 }
        }
        libc::F_SETFL => {
            s.k.o(o).nonblock = arg as i32 & libc::O_NONBLOCK != 0;
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: usize) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_ioctl, fd as usize, req as usize, arg)) as c_int;
    }
    let _g = Guard::new(US, 0x222);
    let s = sim();
    if fd < 3 {
        return rc(Err(libc::ENOTTY)) as c_int;
    }
    let o = match s.k.fd(fd) {
        Ok(o) => o,
        Err(e) => return rc(Err(e)) as c_int,
    };
    if req == libc::FIONBIO {
        s.k.o(o).nonblock = *(arg as *const c_int) != 0;
        return 0;
    }
    if req == libc::FIONREAD {
        *(arg as *mut c_int) = s.k.o(o).rx.len() as c_int;
        return 0;
    }
    rc(Err(libc::ENOTTY)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    raw::set_errno(libc::ENOTTY);
    0
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_poll, p as usize, n as usize, t as usize)) as c_int;
    }
    let _g = Guard::new(US, 0x223);
    let f = std::slice::from_raw_parts_mut(p, n as usize);
    rc(sim().sys_poll(f, if t < 0 { -1 } else { t as i64 * MS as i64 })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut libc::pollfd, n: libc::nfds_t, t: *const libc::timespec, _m: *const c_void) -> c_int {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_ppoll, p as usize, n as usize, t as usize, 0, 8, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x223);
    let f = std::slice::from_raw_parts_mut(p, n as usize);
    let t = if t.is_null() { -1 } else { ts_ns(t).clamp(0, i64::MAX as i128) as i64 };
    rc(sim().sys_poll(f, t)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, fl: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_pipe2, p as usize, fl as usize, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x224);
    let s = sim();
    if let Some(FaultKind::Err(e)) = s.fault("pipe") {
        return rc(Err(e)) as c_int;
    }
    let (a, b) = s.pair(libc::AF_UNIX, libc::SOCK_STREAM);
    s.k.o(a).pipe_r = true;
    s.k.o(b).pipe_w = true;
    if fl & libc::O_NONBLOCK != 0 {
        s.k.o(a).nonblock = true;
        s.k.o(b).nonblock = true;
    }
    *p = s.k.fd_new(a, FD0);
    *p.add(1) = s.k.fd_new(b, FD0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
    pipe2(p, 0)
}

// ---------------------------------------------------------------------------------------------
// sockets
// ---------------------------------------------------------------------------------------------

unsafe fn parse_addr(a: *const libc::sockaddr, l: socklen_t) -> R<Addr> {
    if a.is_null() || l < 2 {
        return Err(libc::EINVAL);
    }
    match (*a).sa_family as c_int {
        libc::AF_INET => {
            let x = &*(a as *const libc::sockaddr_in);
            Ok(Addr::In(x.sin_addr.s_addr.to_ne_bytes(), u16::from_be(x.sin_port)))
        }
        libc::AF_INET6 => {
            let x = &*(a as *const libc::sockaddr_in6);
            Ok(Addr::In6(x.sin6_addr.s6_addr, u16::from_be(x.sin6_port)))
        }
        libc::AF_UNIX => {
            let x = a as *const u8;
            let n = l as usize - 2;
            let b = std::slice::from_raw_parts(x.add(2), n);
            let e = b.iter().position(|c| *c == 0).unwrap_or(n);
            Ok(Addr::Unix(String::from_utf8_lossy(&b[..e]).to_string()))
        }
        _ => Err(libc::EAFNOSUPPORT),
    }
}
unsafe fn put_addr(a: &Addr, fam: i32, out: *mut libc::sockaddr, l: *mut socklen_t) {
    if out.is_null() || l.is_null() {
        return;
    }
    let mut st: libc::sockaddr_storage = std::mem::zeroed();
    let p = &mut st as *mut _ as *mut u8;
    let n = match a {
        Addr::In(ip, port) => {
            let x = &mut *(p as *mut libc::sockaddr_in);
            x.sin_family = libc::AF_INET as u16;
            x.sin_port = port.to_be();
            x.sin_addr.s_addr = u32::from_ne_bytes(*ip);
            std::mem::size_of::<libc::sockaddr_in>()
        }
        Addr::In6(ip, port) => {
            let x = &mut *(p as *mut libc::sockaddr_in6);
            x.sin6_family = libc::AF_INET6 as u16;
            x.sin6_port = port.to_be();
            x.sin6_addr.s6_addr = *ip;
            std::mem::size_of::<libc::sockaddr_in6>()
        }
        Addr::Unix(s) => {
            *(p as *mut u16) = libc::AF_UNIX as u16;
            let b = s.as_bytes();
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(2), b.len().min(100));
            2 + b.len().min(100) + 1
        }
        Addr::None => {
            *(p as *mut u16) = fam as u16;
            if fam == libc::AF_INET {
                16
            } else {
                2
            }
        }
    };
    let k = n.min(*l as usize);
    std::ptr::copy_nonoverlapping(p, out as *mut u8, k);
    *l = n as socklen_t;
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_socket, d as usize, t as usize, p as usize)) as c_int;
    }
    let _g = Guard::new(US, 0x230);
    rc(sim().sys_socket(d, t)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, _p: c_int, v: *mut c_int) -> c_int {
    if !app() {
        raw::set_errno(libc::ENOSYS);
        return -1;
    }
    let _g = Guard::new(US, 0x231);
    let s = sim();
    if let Some(FaultKind::Err(e)) = s.fault("socketpair") {
        return rc(Err(e)) as c_int;
    }
    let (a, b) = s.pair(d, t);
    *v = s.k.fd_new(a, FD0);
    *v.add(1) = s.k.fd_new(b, FD0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const libc::sockaddr, l: socklen_t) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_bind, fd as usize, a as usize, l as usize)) as c_int;
    }
    let _g = Guard::new(US, 0x232);
    rc(parse_addr(a, l).and_then(|x| sim().sys_bind(fd, x))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, b: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_listen, fd as usize, b as usize, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x233);
    rc(sim().sys_listen(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut libc::sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_accept4, fd as usize, a as usize, l as usize, fl as usize, 0, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x234);
    let s = sim();
    match s.sys_accept(fd, fl) {
        Ok((n, o)) => {
            let (r, fam) = {
                let x = s.k.o(o);
                (x.remote.clone(), x.fam)
            };
            put_addr(&r, fam, a, l);
            n as c_int
        }
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, l: socklen_t) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_connect, fd as usize, a as usize, l as usize)) as c_int;
    }
    let _g = Guard::new(US, 0x235);
    rc(parse_addr(a, l).and_then(|x| sim().sys_connect(fd, x))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_shutdown, fd as usize, how as usize, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x236);
    rc(sim().sys_shutdown(fd, how)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut socklen_t) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_getsockname, fd as usize, a as usize, l as usize)) as c_int;
    }
    let _g = Guard::new(US, 0x237);
    let s = sim();
    match s.k.fd(fd) {
        Ok(o) => {
            let x = s.k.o(o);
            put_addr(&x.local.clone(), x.fam, a, l);
            0
        }
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut socklen_t) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_getpeername, fd as usize, a as usize, l as usize)) as c_int;
    }
    let _g = Guard::new(US, 0x238);
    let s = sim();
    match s.k.fd(fd) {
        Ok(o) => {
            let x = s.k.o(o);
            if !x.connected {
                return rc(Err(libc::ENOTCONN)) as c_int;
            }
            put_addr(&x.remote.clone(), x.fam, a, l);
            0
        }
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_getsockopt, fd as usize, lvl as usize, opt as usize, v as usize, l as usize, 0))
            as c_int;
    }
    let _g = Guard::new(US, 0x239);
    let s = sim();
    let o = match s.k.fd(fd) {
        Ok(o) => o,
        Err(e) => return rc(Err(e)) as c_int,
    };
    if lvl == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
        let x = s.k.o(o);
        let n = if opt == libc::SO_RCVTIMEO { x.rcvto } else { x.sndto };
        let tv = &mut *(v as *mut libc::timeval);
        tv.tv_sec = (n / SEC) as i64;
        tv.tv_usec = ((n % SEC) / US) as i64;
        return 0;
    }
    let val = match (lvl, opt) {
        (libc::SOL_SOCKET, libc::SO_ERROR) => std::mem::replace(&mut s.k.o(o).so_error, 0),
        (libc::SOL_SOCKET, libc::SO_TYPE) => s.k.o(o).typ,
        (libc::SOL_SOCKET, libc::SO_ACCEPTCONN) => (s.k.o(o).kind == OKind::Listener) as i32,
        _ => 0,
    };
    if !v.is_null() && *l >= 4 {
        *(v as *mut c_int) = val;
        *l = 4;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_setsockopt, fd as usize, lvl as usize, opt as usize, v as usize, l as usize, 0))
            as c_int;
    }
    let _g = Guard::new(US, 0x23a);
    let s = sim();
    let o = match s.k.fd(fd) {
        Ok(o) => o,
        Err(e) => return rc(Err(e)) as c_int,
    };
    if lvl == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
        let tv = &*(v as *const libc::timeval);
        let n = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * US;
        if opt == libc::SO_RCVTIMEO {
            s.k.o(o).rcvto = n;
        } else {
            s.k.o(o).sndto = n;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const c_char,
    serv: *const c_char,
    hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> c_int {
    if !app() {
        return libc::EAI_FAIL;
    }
    let host = cs(node);
    let port: u16 = cs(serv).parse().unwrap_or(0);
    let st = if hints.is_null() { libc::SOCK_STREAM } else { (*hints).ai_socktype };
    let _g = Guard::new(US, 0x240);
    match world::dns(sim(), &host) {
        Ok(ip) => {
            let a = libc::calloc(1, std::mem::size_of::<libc::addrinfo>() + 64) as *mut libc::addrinfo;
            let sa = (a as *mut u8).add(std::mem::size_of::<libc::addrinfo>()) as *mut libc::sockaddr_in;
            (*sa).sin_family = libc::AF_INET as u16;
            (*sa).sin_port = port.to_be();
            (*sa).sin_addr.s_addr = u32::from_ne_bytes(ip);
            (*a).ai_family = libc::AF_INET;
            (*a).ai_socktype = if st == 0 { libc::SOCK_STREAM } else { st };
            (*a).ai_addrlen = 16;
            (*a).ai_addr = sa as *mut libc::sockaddr;
            *res = a;
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(a: *mut libc::addrinfo) {
    libc::free(a as *mut c_void)
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(p: *mut c_char, n: size_t) -> c_int {
    let h = b"simhost\0";
    let k = h.len().min(n);
    std::ptr::copy_nonoverlapping(h.as_ptr(), p as *mut u8, k);
    0
}

// ---------------------------------------------------------------------------------------------
// files
// ---------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, fl as usize, mode as usize, 0, 0))
            as c_int;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x250);
    rc(sim().sys_open(&path, fl)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(_d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(_d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_access, p as usize, m as usize, 0)) as c_int;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x251);
    rc(sim().stat_node(&path).map(|_| 0)) as c_int
}
fn ftype(n: &Node) -> u32 {
    match n {
        Node::Dir => libc::S_IFDIR,
        Node::Conf => libc::S_IFREG,
        Node::Sock(_) | Node::DevLog => libc::S_IFSOCK,
    }
}
fn stat_info(i: &Inode) -> (u32, u64, i128) {
    let s = sim();
    let size = match i.node {
        Node::Conf => s.case.configs[s.w.conf].len() as u64,
        _ => 0,
    };
    (ftype(&i.node) | i.mode, size, i.mtime)
}
unsafe fn fill_stat(b: *mut libc::stat, i: (u32, u64, i128)) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat>());
    (*b).st_mode = i.0;
    (*b).st_size = i.1 as i64;
    (*b).st_nlink = 1;
    (*b).st_ino = 7;
    (*b).st_mtime = i.2.div_euclid(SEC as i128) as i64;
    (*b).st_mtime_nsec = i.2.rem_euclid(SEC as i128) as i64;
    (*b).st_blksize = 4096;
}
unsafe fn do_stat(path: &str, b: *mut libc::stat) -> c_int {
    let _g = Guard::new(US, 0x252);
    match sim().node(path) {
        Ok(i) => {
            fill_stat(b, stat_info(&i));
            0
        }
        Err(e) => rc(Err(e)) as c_int,
    }
}
unsafe fn fd_info(fd: c_int) -> R<(u32, u64, i128)> {
    let s = sim();
    if fd < 3 {
        return Ok((libc::S_IFIFO | 0o600, 0, 0));
    }
    let o = s.k.fd(fd)?;
    let x = s.k.o(o);
    Ok(match x.kind {
        OKind::File => (libc::S_IFREG | 0o600, x.rx.len() as u64, 0),
        OKind::Null | OKind::Random => (libc::S_IFCHR | 0o666, 0, 0),
        _ if x.pipe_r || x.pipe_w => (libc::S_IFIFO | 0o600, 0, 0),
        _ => (libc::S_IFSOCK | 0o777, 0, 0),
    })
}
macro_rules! stats {
    ($($n:ident $sys:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const c_char, b: *mut libc::stat) -> c_int {
            if !app() {
                return raw::ret(raw::sc3(libc::$sys, p as usize, b as usize, 0)) as c_int;
            }
            do_stat(&cs(p), b)
        }
    )* };
}
stats!(stat SYS_stat, stat64 SYS_stat, lstat SYS_lstat, lstat64 SYS_lstat);
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_fstat, fd as usize, b as usize, 0)) as c_int;
    }
    let _g = Guard::new(US, 0x253);
    match fd_info(fd) {
        Ok(i) => {
            fill_stat(b, i);
            0
        }
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat) -> c_int {
    fstat(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(_d: c_int, p: *const c_char, b: *mut libc::stat, _f: c_int) -> c_int {
    stat(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(_d: c_int, p: *const c_char, b: *mut libc::stat, _f: c_int) -> c_int {
    stat(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, m: c_uint, b: *mut libc::statx) -> c_int {
    if !app() {
        return raw::ret(raw::sc6(libc::SYS_statx, d as usize, p as usize, fl as usize, m as usize, b as usize, 0)) as c_int;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x252);
    let i = if path.is_empty() && fl & libc::AT_EMPTY_PATH != 0 {
        fd_info(d)
    } else {
        sim().stat_node(&path).map(|x| stat_info(&x))
    };
    match i {
        Ok(i) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*b).stx_mask = 0x7ff;
            (*b).stx_mode = i.0 as u16;
            (*b).stx_size = i.1;
            (*b).stx_nlink = 1;
            (*b).stx_ino = 7;
            (*b).stx_mtime.tv_sec = i.2.div_euclid(SEC as i128) as i64;
            (*b).stx_mtime.tv_nsec = i.2.rem_euclid(SEC as i128) as u32;
            0
        }
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, w: c_int) -> i64 {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_lseek, fd as usize, off as usize, w as usize));
    }
    let _g = Guard::new(US, 0x254);
    let s = sim();
    let o = match s.k.fd(fd) {
        Ok(o) => o,
        Err(_) => return rc(Err(libc::ESPIPE)),
    };
    let x = s.k.o(o);
    if x.kind != OKind::File {
        return rc(Err(libc::ESPIPE));
    }
    let base = match w {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => x.pos as i64,
        _ => x.rx.len() as i64,
    };
    x.pos = (base + off).clamp(0, x.rx.len() as i64) as usize;
    x.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, w: c_int) -> i64 {
    lseek64(fd, off, w)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_uint) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_mkdir, p as usize, m as usize, 0)) as c_int;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x255);
    rc(sim().sys_mkdir(&path, m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: c_uint) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_chmod, p as usize, m as usize, 0)) as c_int;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x256);
    rc(sim().sys_chmod(&path, m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(_d: c_int, p: *const c_char, m: c_uint, _f: c_int) -> c_int {
    chmod(p, m)
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: c_uint) -> c_uint {
    if !app() {
        return raw::sc3(libc::SYS_umask, m as usize, 0, 0) as c_uint;
    }
    let _g = Guard::new(US, 0x257);
    std::mem::replace(&mut sim().k.umask, m & 0o777)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_unlink, p as usize, 0, 0)) as c_int;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x258);
    rc(sim().sys_unlink(&path)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(_d: c_int, p: *const c_char, _f: c_int) -> c_int {
    unlink(p)
}
macro_rules! escape {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_a: usize, _b: usize, _c: usize, _d: usize) -> c_int {
            if app() {
                let _g = Guard::new(US, 0x2ff);
                sim().rec(E::Escape { what: stringify!($n).into() });
            }
            raw::set_errno(libc::EACCES);
            -1
        }
    )* };
}
escape!(rename, renameat, rmdir, symlink, link, truncate, ftruncate, fchmod, chown, lchown, fchown, execve, execv, execvp, execvpe, fork, vfork, setsid, mknod, mkfifo, chroot, mount, creat, creat64);
#[no_mangle]
pub unsafe extern "C" fn fsync(_fd: c_int) -> c_int {
    0
}
unsafe fn near(sec: i64) -> bool {
    (sim().clock(0).unwrap() / SEC as i128 - sec as i128).abs() < 60
}
unsafe fn touch(path: String, both: bool) -> c_int {
    let _g = Guard::new(US, 0x259);
    let s = sim();
    let p = sim().abs(&path);
    let r = s.node(&p);
    let m = s.clock(0).unwrap();
    let e = match r {
        Ok(_) => {
            if let Some(n) = s.k.fs.get_mut(&p) {
                n.mtime = m;
            }
            0
        }
        Err(e) => e,
    };
    s.rec(E::Fs { what: "utimensat".into(), path: p, arg: if both { e as i64 } else { -1 } });
    rc(if e == 0 { Ok(0) } else { Err(e) }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(_d: c_int, p: *const c_char, t: *const libc::timespec, _f: c_int) -> c_int {
    if !app() {
        raw::set_errno(libc::ENOSYS);
        return -1;
    }
    // are both times brought up to date?
    let now = |x: &libc::timespec| x.tv_nsec == libc::UTIME_NOW || (x.tv_nsec != libc::UTIME_OMIT && near(x.tv_sec));
    touch(cs(p), t.is_null() || (now(&*t) && now(&*t.add(1))))
}
#[no_mangle]
pub unsafe extern "C" fn utimes(p: *const c_char, t: *const libc::timeval) -> c_int {
    if !app() {
        raw::set_errno(libc::ENOSYS);
        return -1;
    }
    touch(cs(p), t.is_null() || (near((*t).tv_sec) && near((*t.add(1)).tv_sec)))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !app() {
        raw::set_errno(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x25a);
    let n = sim().abs(&path);
    match sim().node(&n) {
        Ok(_) => {
            let c = CString::new(n).unwrap();
            let l = c.as_bytes_with_nul().len();
            let o = if out.is_null() { libc::malloc(l) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(c.as_ptr(), o, l);
            o
        }
        Err(e) => {
            raw::set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !app() {
        return raw::ret(raw::sc3(libc::SYS_readlink, p as usize, b as usize, n)) as ssize_t;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x25b);
    if path == "/proc/self/exe" {
        let x = b"/pzsim/bin/pizauth";
        let k = x.len().min(n);
        std::ptr::copy_nonoverlapping(x.as_ptr() as *const c_char, b, k);
        return k as ssize_t;
    }
    rc(sim().stat_node(&path).and(Err(libc::EINVAL))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !app() {
        return 0;
    }
    let path = cs(p);
    let _g = Guard::new(US, 0x26a);
    let n = sim().abs(&path);
    let r = match sim().node(&n) {
        Ok(x) if matches!(x.node, kern::Node::Dir) => {
            sim().k.cwd = n;
            Ok(0)
        }
        Ok(_) => Err(libc::ENOTDIR),
        Err(e) => Err(e),
    };
    rc(r) as c_int
}
/// The simulated processes belong to nobody who is known here.
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(uid: u32, pw: *mut libc::passwd, buf: *mut c_char, n: size_t, out: *mut *mut libc::passwd) -> c_int {
    let strs = [USER, "x", "", HOME, SHELL];
    let need: usize = strs.iter().map(|x| x.len() + 1).sum();
    *out = std::ptr::null_mut();
    if n < need {
        return libc::ERANGE;
    }
    let mut at = buf;
    let mut ptrs = [std::ptr::null_mut(); 5];
    for (i, x) in strs.iter().enumerate() {
        std::ptr::copy_nonoverlapping(x.as_ptr() as *const c_char, at, x.len());
        *at.add(x.len()) = 0;
        ptrs[i] = at;
        at = at.add(x.len() + 1);
    }
    std::ptr::write_bytes(pw as *mut u8, 0, std::mem::size_of::<libc::passwd>());
    (*pw).pw_name = ptrs[0];
    (*pw).pw_passwd = ptrs[1];
    (*pw).pw_uid = uid;
    (*pw).pw_gid = uid;
    (*pw).pw_gecos = ptrs[2];
    (*pw).pw_dir = ptrs[3];
    (*pw).pw_shell = ptrs[4];
    *out = pw;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut c_char, n: size_t) -> *mut c_char {
    let x = if SIM.is_null() { CWD.to_string() } else { (*SIM).k.cwd.clone() } + "\0";
    if n < x.len() {
        raw::set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(x.as_ptr() as *const c_char, p, x.len());
    p
}

// ---------------------------------------------------------------------------------------------
// processes
// ---------------------------------------------------------------------------------------------

unsafe fn strv(mut p: *const *const c_char) -> Vec<String> {
    let mut v = Vec::new();
    if p.is_null() {
        return v;
    }
    while !(*p).is_null() {
        v.push(cs(*p));
        p = p.add(1);
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut c_int,
    file: *const c_char,
    fa: *const c_void,
    _at: *const c_void,
    argv: *const *const c_char,
    envp: *const *const c_char,
) -> c_int {
    if !app() {
        return libc::ENOSYS;
    }
    let mut argv = strv(argv);
    let envp = strv(envp);
    if let Some(a) = argv.first_mut() {
        *a = cs(file);
    }
    let _g = Guard::new(20 * US, 0x260);
    let s = sim();
    let d = s.k.file_actions.get(&(fa as usize)).cloned().unwrap_or_default();
    match s.spawn(argv, envp, &d) {
        Ok(p) => {
            *pid = p;
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    pid: *mut c_int,
    file: *const c_char,
    fa: *const c_void,
    at: *const c_void,
    argv: *const *const c_char,
    envp: *const *const c_char,
) -> c_int {
    posix_spawnp(pid, file, fa, at, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(f: *mut c_void) -> c_int {
    if app() {
        let _g = Guard::new(US, 0x261);
        sim().k.file_actions.insert(f as usize, vec![]);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(f: *mut c_void) -> c_int {
    if app() {
        let _g = Guard::new(US, 0x261);
        sim().k.file_actions.remove(&(f as usize));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(f: *mut c_void, a: c_int, b: c_int) -> c_int {
    if app() {
        let _g = Guard::new(US, 0x261);
        sim().k.file_actions.entry(f as usize).or_default().push((a, b));
    }
    0
}
macro_rules! zero {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_a: usize, _b: usize, _c: usize, _d: usize) -> c_int {
            0
        }
    )* };
}
zero!(posix_spawn_file_actions_addchdir_np, posix_spawn_file_actions_addclose, posix_spawnattr_init,
    posix_spawnattr_destroy, posix_spawnattr_setflags, posix_spawnattr_setsigmask,
    posix_spawnattr_setsigdefault, posix_spawnattr_setpgroup);
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp(_: usize, _: usize, _: usize, _: usize, _: usize, _: usize) -> c_int {
    libc::ENOSYS
}
fn wstatus(c: i32, sg: i32) -> c_int {
    if sg != 0 {
        sg & 0x7f
    } else {
        (c & 0xff) << 8
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int {
    if !app() {
        raw::set_errno(libc::ECHILD);
        return -1;
    }
    let _g = Guard::new(2 * US, 0x262);
    match sim().wait(pid, opt & libc::WNOHANG != 0) {
        Ok(Some((p, c, sg))) => {
            sim().arm();
            if !st.is_null() {
                *st = wstatus(c, sg);
            }
            p
        }
        Ok(None) => 0,
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: c_int, st: *mut c_int, opt: c_int, _r: *mut c_void) -> c_int {
    waitpid(pid, st, opt)
}
#[no_mangle]
pub unsafe extern "C" fn waitid(_t: c_uint, id: c_uint, info: *mut libc::siginfo_t, opt: c_int) -> c_int {
    if !app() {
        raw::set_errno(libc::ECHILD);
        return -1;
    }
    let _g = Guard::new(2 * US, 0x263);
    let s = sim();
    if !info.is_null() {
        std::ptr::write_bytes(info as *mut u8, 0, std::mem::size_of::<libc::siginfo_t>());
    }
    match s.wait(id as i32, opt & libc::WNOHANG != 0) {
        Ok(Some((p, c, sg))) => {
            if opt & libc::WNOWAIT != 0 {
                if let Some(x) = s.k.procs.get_mut(&p) {
                    x.reaped = false;
                }
            }
            if !info.is_null() {
                let q = info as *mut i32;
                *q = libc::SIGCHLD;
                *q.add(2) = if sg != 0 { libc::CLD_KILLED } else { libc::CLD_EXITED };
                *q.add(4) = p;
                *q.add(6) = if sg != 0 { sg } else { c };
            }
            0
        }
        Ok(None) => 0,
        Err(e) => rc(Err(e)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sg: c_int) -> c_int {
    if !app() {
        raw::set_errno(libc::EPERM);
        return -1;
    }
    let _g = Guard::new(2 * US, 0x264);
    let s = sim();
    if pid == 4242 || pid == 0 {
        if sg == 0 || s.k.sigs.get(&sg).copied().unwrap_or(0) == libc::SIG_IGN {
            return 0;
        }
        world::exit_proc(s, 0, sg, false);
    }
    rc(s.kill(pid, sg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn raise(sg: c_int) -> c_int {
    kill(4242, sg)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if SIM.is_null() || sim().dead {
        raw::exit_group(95);
    }
    if !app() {
        raw::write_all(2, b"pzsim: abort inside the simulator\n");
        raw::exit_group(98);
    }
    APP.with(|a| a.set(false));
    world::exit_proc(sim(), 0, libc::SIGABRT, true)
}
#[no_mangle]
pub unsafe extern "C" fn exit(c: c_int) -> ! {
    if SIM.is_null() {
        raw::exit_group(c);
    }
    APP.with(|a| a.set(false));
    world::exit_proc(sim(), c, 0, false)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(c: c_int) -> ! {
    exit(c)
}
#[no_mangle]
pub unsafe extern "C" fn daemon(nochdir: c_int, _noclose: c_int) -> c_int {
    if !app() {
        return -1;
    }
    let _g = Guard::new(10 * US, 0x265);
    if let Some(FaultKind::Err(e)) = sim().fault("daemon") {
        return rc(Err(e)) as c_int;
    }
    sim().daemonise();
    if nochdir == 0 {
        sim().k.cwd = "/".into();
    }
    if _noclose == 0 {
        DAEMON = true;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    4242
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    4241
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if SIM.is_null() {
        return raw::sc3(libc::SYS_gettid, 0, 0, 0) as c_int;
    }
    4242 + (*SIM).cur as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sigaction(sg: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if !app() || sg == libc::SIGSEGV || sg == libc::SIGBUS {
        let f: extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int =
            std::mem::transmute(raw::next_sym("sigaction"));
        return f(sg, new, old);
    }
    let _g = Guard::new(US, 0x266);
    let s = sim();
    if !old.is_null() {
        std::ptr::write_bytes(old as *mut u8, 0, std::mem::size_of::<libc::sigaction>());
        (*old).sa_sigaction = s.k.sigs.get(&sg).copied().unwrap_or(0);
        if sg == libc::SIGCHLD {
            (*old).sa_flags = s.sig_flags;
        }
    }
    if !new.is_null() {
        s.k.sigs.insert(sg, (*new).sa_sigaction);
        if sg == libc::SIGCHLD {
            s.sig_handler = (*new).sa_sigaction;
            s.sig_flags = (*new).sa_flags;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn signal(sg: c_int, h: usize) -> usize {
    if !app() {
        return 0;
    }
    let _g = Guard::new(US, 0x267);
    let s = sim();
    if sg == libc::SIGCHLD {
        s.sig_handler = h;
        s.sig_flags = 0;
    }
    s.k.sigs.insert(sg, h).unwrap_or(0)
}
