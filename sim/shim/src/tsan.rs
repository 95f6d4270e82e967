//! The instrumentation hooks the compiler inserts (`-Zsanitizer=thread -Zexternal-clangrt`). Atomic
//! operations are synchronisation points; plain accesses and function entries are preemption points.
use crate::sim::*;
use crate::APP;
use libc::{c_int, c_void};
use std::sync::atomic::Ordering::SeqCst;

#[cold]
#[inline(never)]
unsafe fn slow_sync() {
    APP.with(|a| a.set(false));
    sim().flush_lazy();
    sim().sync_slow();
    done();
}
#[cold]
#[inline(never)]
unsafe fn slow_mem() {
    APP.with(|a| a.set(false));
    sim().mem_slow();
    done();
}
unsafe fn done() {
    if sim().pending_sig > 0 {
        let e = *libc::__errno_location();
        crate::run_signals();
        crate::raw::set_errno(e);
    }
    APP.with(|a| a.set(true));
}
#[inline(always)]
unsafe fn sync() {
    if APP.with(|a| a.get()) {
        SYNCS += 1;
        LAZY += 20;
        if SYNCS >= SYNC_NEXT {
            slow_sync();
        }
    }
}
#[inline(always)]
unsafe fn mem() {
    if APP.with(|a| a.get()) {
        MEMS += 1;
        if MEMS >= MEM_NEXT {
            slow_mem();
        }
    }
}

macro_rules! nop { ($($n:ident),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n() {} )* } }
macro_rules! memp { ($($n:ident),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(_a: usize) { mem() } )* } }
macro_rules! memr { ($($n:ident),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(_a: usize, _n: usize) { mem() } )* } }

nop!(__tsan_init, __tsan_func_exit, __tsan_ignore_thread_begin, __tsan_ignore_thread_end, __tsan_atomic_signal_fence);
memp!(
    __tsan_func_entry, __tsan_read1, __tsan_read2, __tsan_read4, __tsan_read8, __tsan_read16, __tsan_write1,
    __tsan_write2, __tsan_write4, __tsan_write8, __tsan_write16, __tsan_unaligned_read2, __tsan_unaligned_read4,
    __tsan_unaligned_read8, __tsan_unaligned_read16, __tsan_unaligned_write2, __tsan_unaligned_write4,
    __tsan_unaligned_write8, __tsan_unaligned_write16, __tsan_read_write1, __tsan_read_write2, __tsan_read_write4,
    __tsan_read_write8, __tsan_read_write16, __tsan_unaligned_read_write2, __tsan_unaligned_read_write4,
    __tsan_unaligned_read_write8, __tsan_unaligned_read_write16, __tsan_volatile_read1, __tsan_volatile_read2,
    __tsan_volatile_read4, __tsan_volatile_read8, __tsan_volatile_read16, __tsan_volatile_write1,
    __tsan_volatile_write2, __tsan_volatile_write4, __tsan_volatile_write8, __tsan_volatile_write16,
    __tsan_unaligned_volatile_read2, __tsan_unaligned_volatile_read4, __tsan_unaligned_volatile_read8,
    __tsan_unaligned_volatile_read16, __tsan_unaligned_volatile_write2, __tsan_unaligned_volatile_write4,
    __tsan_unaligned_volatile_write8, __tsan_unaligned_volatile_write16, __tsan_vptr_read
);
memr!(__tsan_read_range, __tsan_write_range, __tsan_vptr_update);

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    mem();
    libc::memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    mem();
    libc::memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: c_int, n: usize) -> *mut c_void {
    mem();
    libc::memset(d, c, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: c_int) {
    sync();
    std::sync::atomic::fence(SeqCst);
}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident
     $cs:ident $cw:ident $cv:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: c_int) { sync(); (*(p as *const $a)).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: c_int) -> $t { sync(); (*(p as *const $a)).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *mut $t, e: *mut $t, v: $t, _o: c_int, _f: c_int) -> c_int {
            sync();
            match (*(p as *const $a)).compare_exchange(*e, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *mut $t, e: *mut $t, v: $t, _o: c_int, _f: c_int) -> c_int {
            $cs(p, e, v, _o, _f)
        }
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *mut $t, e: $t, v: $t, _o: c_int, _f: c_int) -> $t {
            sync();
            match (*(p as *const $a)).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);
