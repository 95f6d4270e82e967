//! Raw system calls and low-level helpers (never interposed).
use core::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sc3(n: i64, a: usize, b: usize, c: usize) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}

pub unsafe fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = sc3(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len());
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub unsafe fn read_to_end(fd: i32) -> Vec<u8> {
    let mut v = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let r = sc3(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len());
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return v;
        }
        v.extend_from_slice(&buf[..r as usize]);
    }
}
pub unsafe fn exit_group(c: i32) -> ! {
    loop {
        sc3(libc::SYS_exit_group, c as usize, 0, 0);
    }
}
pub unsafe fn futex_wait(a: *const u32, v: u32) {
    sc6(libc::SYS_futex, a as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(a: *const u32) {
    sc6(libc::SYS_futex, a as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// Convert a raw kernel return value to the libc convention
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn next_sym(name: &str) -> *mut libc::c_void {
    let c = std::ffi::CString::new(name).unwrap();
    let p = libc::dlsym(libc::RTLD_NEXT, c.as_ptr());
    if p.is_null() {
        write_all(2, format!("pzsim: cannot resolve {name}\n").as_bytes());
        exit_group(97);
    }
    p
}
