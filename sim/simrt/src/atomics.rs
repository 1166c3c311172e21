//! Every atomic operation of the instrumented crates (rustc-wrap.sh) is a scheduling point.
//! Exactly one simulated thread runs at a time, so sequential consistency is what is explored.
use crate::hooks::atomic_point as point;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $nand:ident, $or:ident, $xor:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            point();
            (*(p as *const $a)).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(p as *const $a)).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            point();
            match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_nand, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_nand, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_nand, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_nand, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    point();
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_p: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
