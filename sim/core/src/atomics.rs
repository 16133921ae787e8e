//! The run-time half of the instrumentation: linestring is compiled with LLVM's ThreadSanitizer pass
//! (see tools/rustc-wrap.sh), but instead of TSan's race detector these functions are linked.  Every
//! atomic operation and every access to a static variable is a yield point of the scheduler, so
//! threads interleave between any two of them, as they do on a real machine.  Operations are
//! executed sequentially consistent; weak memory is not modelled.
use crate::sched::{after_access, yield_point, K_ATOMIC, K_STATIC};
use std::sync::atomic::{Ordering::SeqCst, *};

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident,
     $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).load(SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            yield_point(K_ATOMIC);
            (*p).store(v, SeqCst);
            after_access();
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).swap(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).fetch_add(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).fetch_sub(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).fetch_and(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).fetch_or(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).fetch_xor(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let r = (*p).fetch_nand(v, SeqCst);
            after_access();
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
            yield_point(K_ATOMIC);
            let (Ok(r) | Err(r)) = (*p).compare_exchange(old, new, SeqCst, SeqCst);
            after_access();
            r
        }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add,
     __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor,
     __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add,
     __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor,
     __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add,
     __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor,
     __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add,
     __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor,
     __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    yield_point(K_ATOMIC);
    fence(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}

extern "C" {
    // the writable statics of the executable lie between these (linker symbols)
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn access(p: usize) {
    // heap and stack accesses are not interesting: safe code shares them through atomics only
    let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
    if p.wrapping_sub(lo) < hi - lo {
        yield_point(K_STATIC);
    }
}

macro_rules! plain {
    ($($f:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: usize) {
            access(p)
        }
    )* };
}
plain!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
       __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
       __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
       __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
       __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
       __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8
       __tsan_unaligned_read_write16 __tsan_vptr_read);
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}

// static <-> other copies of whole values
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(d as usize);
    access(s as usize);
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(d as usize);
    access(s as usize);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    access(d as usize);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
