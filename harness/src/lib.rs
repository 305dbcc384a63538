//! A small property-based-testing engine over a recorded choice stream, plus the
//! lane-level value model used by all oracles. Nothing in here calls packed_simd.
#![allow(clippy::all)]
pub mod gen;
pub mod mem;
pub mod run;
pub mod sc;
pub mod src;
#[macro_use]
pub mod types;
#[macro_use]
pub mod tables;
pub mod ew;

pub use ew::*;
pub use gen::*;
pub use run::*;
pub use src::*;

/// Type-erased call into the library: up to three inputs and one output buffer.
pub type F = fn(*const u8, *const u8, *const u8, *mut u8);

#[inline(always)]
pub unsafe fn rd<T: Copy>(p: *const u8) -> T {
    core::ptr::read_unaligned(p as *const T)
}
#[inline(always)]
pub unsafe fn wr<T>(p: *mut u8, v: T) {
    core::ptr::write_unaligned(p as *mut T, v)
}

/// Builds a thunk from a closure-like expression over typed inputs.
#[macro_export]
macro_rules! th {
    (|$a:ident : $ta:ty| $e:expr) => {{
        let f: $crate::F = |p, _q, _r, o| {
            #[allow(unused_mut)]
            let mut $a: $ta = unsafe { $crate::rd::<$ta>(p) };
            let res = $e;
            unsafe { $crate::wr(o, res) }
        };
        f
    }};
    (|$a:ident : $ta:ty, $b:ident : $tb:ty| $e:expr) => {{
        let f: $crate::F = |p, q, _r, o| {
            #[allow(unused_mut)]
            let mut $a: $ta = unsafe { $crate::rd::<$ta>(p) };
            let $b: $tb = unsafe { $crate::rd::<$tb>(q) };
            let res = $e;
            unsafe { $crate::wr(o, res) }
        };
        f
    }};
    (|$a:ident : $ta:ty, $b:ident : $tb:ty, $c:ident : $tc:ty| $e:expr) => {{
        let f: $crate::F = |p, q, r, o| {
            #[allow(unused_mut)]
            let mut $a: $ta = unsafe { $crate::rd::<$ta>(p) };
            let $b: $tb = unsafe { $crate::rd::<$tb>(q) };
            let $c: $tc = unsafe { $crate::rd::<$tc>(r) };
            let res = $e;
            unsafe { $crate::wr(o, res) }
        };
        f
    }};
}
