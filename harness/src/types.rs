//! Type families (generated lists).
/// `m!(args.. type elem lanes mask kind width);` for each type of this family.
#[macro_export]
macro_rules! sint_types {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* i8x2 i8 2 m8x2 I 8);
        $m!($($x)* i8x4 i8 4 m8x4 I 8);
        $m!($($x)* i8x8 i8 8 m8x8 I 8);
        $m!($($x)* i8x16 i8 16 m8x16 I 8);
        $m!($($x)* i8x32 i8 32 m8x32 I 8);
        $m!($($x)* i8x64 i8 64 m8x64 I 8);
        $m!($($x)* i16x2 i16 2 m16x2 I 16);
        $m!($($x)* i16x4 i16 4 m16x4 I 16);
        $m!($($x)* i16x8 i16 8 m16x8 I 16);
        $m!($($x)* i16x16 i16 16 m16x16 I 16);
        $m!($($x)* i16x32 i16 32 m16x32 I 16);
        $m!($($x)* i32x2 i32 2 m32x2 I 32);
        $m!($($x)* i32x4 i32 4 m32x4 I 32);
        $m!($($x)* i32x8 i32 8 m32x8 I 32);
        $m!($($x)* i32x16 i32 16 m32x16 I 32);
        $m!($($x)* i64x2 i64 2 m64x2 I 64);
        $m!($($x)* i64x4 i64 4 m64x4 I 64);
        $m!($($x)* i64x8 i64 8 m64x8 I 64);
        $m!($($x)* i128x1 i128 1 m128x1 I 128);
        $m!($($x)* i128x2 i128 2 m128x2 I 128);
        $m!($($x)* i128x4 i128 4 m128x4 I 128);
        $m!($($x)* isizex2 isize 2 msizex2 I 64);
        $m!($($x)* isizex4 isize 4 msizex4 I 64);
        $m!($($x)* isizex8 isize 8 msizex8 I 64);
    };
}
/// `m!(args.. type elem lanes mask kind width);` for each type of this family.
#[macro_export]
macro_rules! uint_types {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* u8x2 u8 2 m8x2 U 8);
        $m!($($x)* u8x4 u8 4 m8x4 U 8);
        $m!($($x)* u8x8 u8 8 m8x8 U 8);
        $m!($($x)* u8x16 u8 16 m8x16 U 8);
        $m!($($x)* u8x32 u8 32 m8x32 U 8);
        $m!($($x)* u8x64 u8 64 m8x64 U 8);
        $m!($($x)* u16x2 u16 2 m16x2 U 16);
        $m!($($x)* u16x4 u16 4 m16x4 U 16);
        $m!($($x)* u16x8 u16 8 m16x8 U 16);
        $m!($($x)* u16x16 u16 16 m16x16 U 16);
        $m!($($x)* u16x32 u16 32 m16x32 U 16);
        $m!($($x)* u32x2 u32 2 m32x2 U 32);
        $m!($($x)* u32x4 u32 4 m32x4 U 32);
        $m!($($x)* u32x8 u32 8 m32x8 U 32);
        $m!($($x)* u32x16 u32 16 m32x16 U 32);
        $m!($($x)* u64x2 u64 2 m64x2 U 64);
        $m!($($x)* u64x4 u64 4 m64x4 U 64);
        $m!($($x)* u64x8 u64 8 m64x8 U 64);
        $m!($($x)* u128x1 u128 1 m128x1 U 128);
        $m!($($x)* u128x2 u128 2 m128x2 U 128);
        $m!($($x)* u128x4 u128 4 m128x4 U 128);
        $m!($($x)* usizex2 usize 2 msizex2 U 64);
        $m!($($x)* usizex4 usize 4 msizex4 U 64);
        $m!($($x)* usizex8 usize 8 msizex8 U 64);
    };
}
/// `m!(args.. type elem lanes mask kind width);` for each type of this family.
#[macro_export]
macro_rules! float_types {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* f32x2 f32 2 m32x2 F 32);
        $m!($($x)* f32x4 f32 4 m32x4 F 32);
        $m!($($x)* f32x8 f32 8 m32x8 F 32);
        $m!($($x)* f32x16 f32 16 m32x16 F 32);
        $m!($($x)* f64x2 f64 2 m64x2 F 64);
        $m!($($x)* f64x4 f64 4 m64x4 F 64);
        $m!($($x)* f64x8 f64 8 m64x8 F 64);
    };
}
/// `m!(args.. type elem lanes mask kind width);` for each type of this family.
#[macro_export]
macro_rules! mask_types {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* m8x2 m8 2 m8x2 M 8);
        $m!($($x)* m8x4 m8 4 m8x4 M 8);
        $m!($($x)* m8x8 m8 8 m8x8 M 8);
        $m!($($x)* m8x16 m8 16 m8x16 M 8);
        $m!($($x)* m8x32 m8 32 m8x32 M 8);
        $m!($($x)* m8x64 m8 64 m8x64 M 8);
        $m!($($x)* m16x2 m16 2 m16x2 M 16);
        $m!($($x)* m16x4 m16 4 m16x4 M 16);
        $m!($($x)* m16x8 m16 8 m16x8 M 16);
        $m!($($x)* m16x16 m16 16 m16x16 M 16);
        $m!($($x)* m16x32 m16 32 m16x32 M 16);
        $m!($($x)* m32x2 m32 2 m32x2 M 32);
        $m!($($x)* m32x4 m32 4 m32x4 M 32);
        $m!($($x)* m32x8 m32 8 m32x8 M 32);
        $m!($($x)* m32x16 m32 16 m32x16 M 32);
        $m!($($x)* m64x2 m64 2 m64x2 M 64);
        $m!($($x)* m64x4 m64 4 m64x4 M 64);
        $m!($($x)* m64x8 m64 8 m64x8 M 64);
        $m!($($x)* m128x1 m128 1 m128x1 M 128);
        $m!($($x)* m128x2 m128 2 m128x2 M 128);
        $m!($($x)* m128x4 m128 4 m128x4 M 128);
        $m!($($x)* msizex2 msize 2 msizex2 M 64);
        $m!($($x)* msizex4 msize 4 msizex4 M 64);
        $m!($($x)* msizex8 msize 8 msizex8 M 64);
    };
}

#[macro_export]
macro_rules! int_types {
    ($m:ident $($x:tt)*) => {
        $crate::sint_types!($m $($x)*);
        $crate::uint_types!($m $($x)*);
    };
}
#[macro_export]
macro_rules! num_types {
    ($m:ident $($x:tt)*) => {
        $crate::int_types!($m $($x)*);
        $crate::float_types!($m $($x)*);
    };
}
#[macro_export]
macro_rules! all_types {
    ($m:ident $($x:tt)*) => {
        $crate::num_types!($m $($x)*);
        $crate::mask_types!($m $($x)*);
    };
}
#[macro_export]
macro_rules! ty {
    ($t:ident $n:literal $k:ident $w:literal) => {
        $crate::Ty::new(stringify!($t), $crate::K::$k, $w, $n)
    };
}

/// `lanes_call!(N, path, f)` expands to `path(f(0), f(1), .., f(N-1))`.
#[macro_export]
macro_rules! lanes_call {
    (1, $p:expr, $f:ident) => { ($p)($f(0)) };
    (2, $p:expr, $f:ident) => { ($p)($f(0), $f(1)) };
    (4, $p:expr, $f:ident) => { ($p)($f(0), $f(1), $f(2), $f(3)) };
    (8, $p:expr, $f:ident) => { ($p)($f(0), $f(1), $f(2), $f(3), $f(4), $f(5), $f(6), $f(7)) };
    (16, $p:expr, $f:ident) => { ($p)($f(0), $f(1), $f(2), $f(3), $f(4), $f(5), $f(6), $f(7), $f(8), $f(9), $f(10), $f(11), $f(12), $f(13), $f(14), $f(15)) };
    (32, $p:expr, $f:ident) => { ($p)($f(0), $f(1), $f(2), $f(3), $f(4), $f(5), $f(6), $f(7), $f(8), $f(9), $f(10), $f(11), $f(12), $f(13), $f(14), $f(15), $f(16), $f(17), $f(18), $f(19), $f(20), $f(21), $f(22), $f(23), $f(24), $f(25), $f(26), $f(27), $f(28), $f(29), $f(30), $f(31)) };
    (64, $p:expr, $f:ident) => { ($p)($f(0), $f(1), $f(2), $f(3), $f(4), $f(5), $f(6), $f(7), $f(8), $f(9), $f(10), $f(11), $f(12), $f(13), $f(14), $f(15), $f(16), $f(17), $f(18), $f(19), $f(20), $f(21), $f(22), $f(23), $f(24), $f(25), $f(26), $f(27), $f(28), $f(29), $f(30), $f(31), $f(32), $f(33), $f(34), $f(35), $f(36), $f(37), $f(38), $f(39), $f(40), $f(41), $f(42), $f(43), $f(44), $f(45), $f(46), $f(47), $f(48), $f(49), $f(50), $f(51), $f(52), $f(53), $f(54), $f(55), $f(56), $f(57), $f(58), $f(59), $f(60), $f(61), $f(62), $f(63)) };
}

/// `m!(args.. name [type] [elem] [pointee] lanes mask usize-vector isize-vector);` for pointer vectors.
#[macro_export]
macro_rules! ptr_types {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* "cptrx2<u8>" [cptrx2<u8>] [*const u8] [u8] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "cptrx2<i32>" [cptrx2<i32>] [*const i32] [i32] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "cptrx2<u64>" [cptrx2<u64>] [*const u64] [u64] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "cptrx2<au16_3>" [cptrx2<[u16; 3]>] [*const [u16; 3]] [[u16; 3]] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "cptrx2<au8_24>" [cptrx2<[u8; 24]>] [*const [u8; 24]] [[u8; 24]] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "cptrx4<u8>" [cptrx4<u8>] [*const u8] [u8] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "cptrx4<i32>" [cptrx4<i32>] [*const i32] [i32] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "cptrx4<u64>" [cptrx4<u64>] [*const u64] [u64] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "cptrx4<au16_3>" [cptrx4<[u16; 3]>] [*const [u16; 3]] [[u16; 3]] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "cptrx4<au8_24>" [cptrx4<[u8; 24]>] [*const [u8; 24]] [[u8; 24]] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "cptrx8<u8>" [cptrx8<u8>] [*const u8] [u8] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "cptrx8<i32>" [cptrx8<i32>] [*const i32] [i32] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "cptrx8<u64>" [cptrx8<u64>] [*const u64] [u64] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "cptrx8<au16_3>" [cptrx8<[u16; 3]>] [*const [u16; 3]] [[u16; 3]] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "cptrx8<au8_24>" [cptrx8<[u8; 24]>] [*const [u8; 24]] [[u8; 24]] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "mptrx2<u8>" [mptrx2<u8>] [*mut u8] [u8] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "mptrx2<i32>" [mptrx2<i32>] [*mut i32] [i32] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "mptrx2<u64>" [mptrx2<u64>] [*mut u64] [u64] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "mptrx2<au16_3>" [mptrx2<[u16; 3]>] [*mut [u16; 3]] [[u16; 3]] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "mptrx2<au8_24>" [mptrx2<[u8; 24]>] [*mut [u8; 24]] [[u8; 24]] 2 msizex2 usizex2 isizex2);
        $m!($($x)* "mptrx4<u8>" [mptrx4<u8>] [*mut u8] [u8] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "mptrx4<i32>" [mptrx4<i32>] [*mut i32] [i32] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "mptrx4<u64>" [mptrx4<u64>] [*mut u64] [u64] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "mptrx4<au16_3>" [mptrx4<[u16; 3]>] [*mut [u16; 3]] [[u16; 3]] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "mptrx4<au8_24>" [mptrx4<[u8; 24]>] [*mut [u8; 24]] [[u8; 24]] 4 msizex4 usizex4 isizex4);
        $m!($($x)* "mptrx8<u8>" [mptrx8<u8>] [*mut u8] [u8] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "mptrx8<i32>" [mptrx8<i32>] [*mut i32] [i32] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "mptrx8<u64>" [mptrx8<u64>] [*mut u64] [u64] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "mptrx8<au16_3>" [mptrx8<[u16; 3]>] [*mut [u16; 3]] [[u16; 3]] 8 msizex8 usizex8 isizex8);
        $m!($($x)* "mptrx8<au8_24>" [mptrx8<[u8; 24]>] [*mut [u8; 24]] [[u8; 24]] 8 msizex8 usizex8 isizex8);
    };
}
