//! Pair tables (generated by tools/mktables.py, committed).
/// `m!(args.. src K W N  dst K W N);` for every lane-wise cast.
#[macro_export]
macro_rules! cast_pairs {
    ($m:ident $x:ident) => {
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x16 U 8 16 i8x16 I 8 16);
        $m!($x m8x16 M 8 16 i8x16 I 8 16);
        $m!($x i16x16 I 16 16 i8x16 I 8 16);
        $m!($x u16x16 U 16 16 i8x16 I 8 16);
        $m!($x m16x16 M 16 16 i8x16 I 8 16);
        $m!($x i32x16 I 32 16 i8x16 I 8 16);
        $m!($x u32x16 U 32 16 i8x16 I 8 16);
        $m!($x f32x16 F 32 16 i8x16 I 8 16);
        $m!($x m32x16 M 32 16 i8x16 I 8 16);
        $m!($x i8x16 I 8 16 u8x16 U 8 16);
        $m!($x m8x16 M 8 16 u8x16 U 8 16);
        $m!($x i16x16 I 16 16 u8x16 U 8 16);
        $m!($x u16x16 U 16 16 u8x16 U 8 16);
        $m!($x m16x16 M 16 16 u8x16 U 8 16);
        $m!($x i32x16 I 32 16 u8x16 U 8 16);
        $m!($x u32x16 U 32 16 u8x16 U 8 16);
        $m!($x f32x16 F 32 16 u8x16 U 8 16);
        $m!($x m32x16 M 32 16 u8x16 U 8 16);
        $m!($x i8x16 I 8 16 m8x16 M 8 16);
        $m!($x u8x16 U 8 16 m8x16 M 8 16);
        $m!($x i16x16 I 16 16 m8x16 M 8 16);
        $m!($x u16x16 U 16 16 m8x16 M 8 16);
        $m!($x m16x16 M 16 16 m8x16 M 8 16);
        $m!($x i32x16 I 32 16 m8x16 M 8 16);
        $m!($x u32x16 U 32 16 m8x16 M 8 16);
        $m!($x f32x16 F 32 16 m8x16 M 8 16);
        $m!($x m32x16 M 32 16 m8x16 M 8 16);
        $m!($x i8x8 I 8 8 i16x8 I 16 8);
        $m!($x u8x8 U 8 8 i16x8 I 16 8);
        $m!($x m8x8 M 8 8 i16x8 I 16 8);
        $m!($x u16x8 U 16 8 i16x8 I 16 8);
        $m!($x m16x8 M 16 8 i16x8 I 16 8);
        $m!($x i32x8 I 32 8 i16x8 I 16 8);
        $m!($x u32x8 U 32 8 i16x8 I 16 8);
        $m!($x f32x8 F 32 8 i16x8 I 16 8);
        $m!($x m32x8 M 32 8 i16x8 I 16 8);
        $m!($x i64x8 I 64 8 i16x8 I 16 8);
        $m!($x u64x8 U 64 8 i16x8 I 16 8);
        $m!($x f64x8 F 64 8 i16x8 I 16 8);
        $m!($x m64x8 M 64 8 i16x8 I 16 8);
        $m!($x isizex8 I 64 8 i16x8 I 16 8);
        $m!($x usizex8 U 64 8 i16x8 I 16 8);
        $m!($x msizex8 M 64 8 i16x8 I 16 8);
        $m!($x i8x8 I 8 8 u16x8 U 16 8);
        $m!($x u8x8 U 8 8 u16x8 U 16 8);
        $m!($x m8x8 M 8 8 u16x8 U 16 8);
        $m!($x i16x8 I 16 8 u16x8 U 16 8);
        $m!($x m16x8 M 16 8 u16x8 U 16 8);
        $m!($x i32x8 I 32 8 u16x8 U 16 8);
        $m!($x u32x8 U 32 8 u16x8 U 16 8);
        $m!($x f32x8 F 32 8 u16x8 U 16 8);
        $m!($x m32x8 M 32 8 u16x8 U 16 8);
        $m!($x i64x8 I 64 8 u16x8 U 16 8);
        $m!($x u64x8 U 64 8 u16x8 U 16 8);
        $m!($x f64x8 F 64 8 u16x8 U 16 8);
        $m!($x m64x8 M 64 8 u16x8 U 16 8);
        $m!($x isizex8 I 64 8 u16x8 U 16 8);
        $m!($x usizex8 U 64 8 u16x8 U 16 8);
        $m!($x msizex8 M 64 8 u16x8 U 16 8);
        $m!($x i8x8 I 8 8 m16x8 M 16 8);
        $m!($x u8x8 U 8 8 m16x8 M 16 8);
        $m!($x m8x8 M 8 8 m16x8 M 16 8);
        $m!($x i16x8 I 16 8 m16x8 M 16 8);
        $m!($x u16x8 U 16 8 m16x8 M 16 8);
        $m!($x i32x8 I 32 8 m16x8 M 16 8);
        $m!($x u32x8 U 32 8 m16x8 M 16 8);
        $m!($x f32x8 F 32 8 m16x8 M 16 8);
        $m!($x m32x8 M 32 8 m16x8 M 16 8);
        $m!($x i64x8 I 64 8 m16x8 M 16 8);
        $m!($x u64x8 U 64 8 m16x8 M 16 8);
        $m!($x f64x8 F 64 8 m16x8 M 16 8);
        $m!($x m64x8 M 64 8 m16x8 M 16 8);
        $m!($x isizex8 I 64 8 m16x8 M 16 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x usizex8 U 64 8 m16x8 M 16 8);
        $m!($x msizex8 M 64 8 m16x8 M 16 8);
        $m!($x i8x4 I 8 4 i32x4 I 32 4);
        $m!($x u8x4 U 8 4 i32x4 I 32 4);
        $m!($x m8x4 M 8 4 i32x4 I 32 4);
        $m!($x i16x4 I 16 4 i32x4 I 32 4);
        $m!($x u16x4 U 16 4 i32x4 I 32 4);
        $m!($x m16x4 M 16 4 i32x4 I 32 4);
        $m!($x u32x4 U 32 4 i32x4 I 32 4);
        $m!($x f32x4 F 32 4 i32x4 I 32 4);
        $m!($x m32x4 M 32 4 i32x4 I 32 4);
        $m!($x i64x4 I 64 4 i32x4 I 32 4);
        $m!($x u64x4 U 64 4 i32x4 I 32 4);
        $m!($x f64x4 F 64 4 i32x4 I 32 4);
        $m!($x m64x4 M 64 4 i32x4 I 32 4);
        $m!($x i128x4 I 128 4 i32x4 I 32 4);
        $m!($x u128x4 U 128 4 i32x4 I 32 4);
        $m!($x m128x4 M 128 4 i32x4 I 32 4);
        $m!($x isizex4 I 64 4 i32x4 I 32 4);
        $m!($x usizex4 U 64 4 i32x4 I 32 4);
        $m!($x msizex4 M 64 4 i32x4 I 32 4);
        $m!($x i8x4 I 8 4 u32x4 U 32 4);
        $m!($x u8x4 U 8 4 u32x4 U 32 4);
        $m!($x m8x4 M 8 4 u32x4 U 32 4);
        $m!($x i16x4 I 16 4 u32x4 U 32 4);
        $m!($x u16x4 U 16 4 u32x4 U 32 4);
        $m!($x m16x4 M 16 4 u32x4 U 32 4);
        $m!($x i32x4 I 32 4 u32x4 U 32 4);
        $m!($x f32x4 F 32 4 u32x4 U 32 4);
        $m!($x m32x4 M 32 4 u32x4 U 32 4);
        $m!($x i64x4 I 64 4 u32x4 U 32 4);
        $m!($x u64x4 U 64 4 u32x4 U 32 4);
        $m!($x f64x4 F 64 4 u32x4 U 32 4);
        $m!($x m64x4 M 64 4 u32x4 U 32 4);
        $m!($x i128x4 I 128 4 u32x4 U 32 4);
        $m!($x u128x4 U 128 4 u32x4 U 32 4);
        $m!($x m128x4 M 128 4 u32x4 U 32 4);
        $m!($x isizex4 I 64 4 u32x4 U 32 4);
        $m!($x usizex4 U 64 4 u32x4 U 32 4);
        $m!($x msizex4 M 64 4 u32x4 U 32 4);
        $m!($x i8x4 I 8 4 f32x4 F 32 4);
        $m!($x u8x4 U 8 4 f32x4 F 32 4);
        $m!($x m8x4 M 8 4 f32x4 F 32 4);
        $m!($x i16x4 I 16 4 f32x4 F 32 4);
        $m!($x u16x4 U 16 4 f32x4 F 32 4);
        $m!($x m16x4 M 16 4 f32x4 F 32 4);
        $m!($x i32x4 I 32 4 f32x4 F 32 4);
        $m!($x u32x4 U 32 4 f32x4 F 32 4);
        $m!($x m32x4 M 32 4 f32x4 F 32 4);
        $m!($x i64x4 I 64 4 f32x4 F 32 4);
        $m!($x u64x4 U 64 4 f32x4 F 32 4);
        $m!($x f64x4 F 64 4 f32x4 F 32 4);
        $m!($x m64x4 M 64 4 f32x4 F 32 4);
        $m!($x i128x4 I 128 4 f32x4 F 32 4);
        $m!($x u128x4 U 128 4 f32x4 F 32 4);
        $m!($x m128x4 M 128 4 f32x4 F 32 4);
        $m!($x isizex4 I 64 4 f32x4 F 32 4);
        $m!($x usizex4 U 64 4 f32x4 F 32 4);
        $m!($x msizex4 M 64 4 f32x4 F 32 4);
        $m!($x i8x4 I 8 4 m32x4 M 32 4);
        $m!($x u8x4 U 8 4 m32x4 M 32 4);
        $m!($x m8x4 M 8 4 m32x4 M 32 4);
        $m!($x i16x4 I 16 4 m32x4 M 32 4);
        $m!($x u16x4 U 16 4 m32x4 M 32 4);
        $m!($x m16x4 M 16 4 m32x4 M 32 4);
        $m!($x i32x4 I 32 4 m32x4 M 32 4);
        $m!($x u32x4 U 32 4 m32x4 M 32 4);
        $m!($x f32x4 F 32 4 m32x4 M 32 4);
        $m!($x i64x4 I 64 4 m32x4 M 32 4);
        $m!($x u64x4 U 64 4 m32x4 M 32 4);
        $m!($x f64x4 F 64 4 m32x4 M 32 4);
        $m!($x m64x4 M 64 4 m32x4 M 32 4);
        $m!($x i128x4 I 128 4 m32x4 M 32 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u128x4 U 128 4 m32x4 M 32 4);
        $m!($x m128x4 M 128 4 m32x4 M 32 4);
        $m!($x isizex4 I 64 4 m32x4 M 32 4);
        $m!($x usizex4 U 64 4 m32x4 M 32 4);
        $m!($x msizex4 M 64 4 m32x4 M 32 4);
        $m!($x i8x2 I 8 2 i64x2 I 64 2);
        $m!($x u8x2 U 8 2 i64x2 I 64 2);
        $m!($x m8x2 M 8 2 i64x2 I 64 2);
        $m!($x i16x2 I 16 2 i64x2 I 64 2);
        $m!($x u16x2 U 16 2 i64x2 I 64 2);
        $m!($x m16x2 M 16 2 i64x2 I 64 2);
        $m!($x i32x2 I 32 2 i64x2 I 64 2);
        $m!($x u32x2 U 32 2 i64x2 I 64 2);
        $m!($x f32x2 F 32 2 i64x2 I 64 2);
        $m!($x m32x2 M 32 2 i64x2 I 64 2);
        $m!($x u64x2 U 64 2 i64x2 I 64 2);
        $m!($x f64x2 F 64 2 i64x2 I 64 2);
        $m!($x m64x2 M 64 2 i64x2 I 64 2);
        $m!($x i128x2 I 128 2 i64x2 I 64 2);
        $m!($x u128x2 U 128 2 i64x2 I 64 2);
        $m!($x m128x2 M 128 2 i64x2 I 64 2);
        $m!($x isizex2 I 64 2 i64x2 I 64 2);
        $m!($x usizex2 U 64 2 i64x2 I 64 2);
        $m!($x msizex2 M 64 2 i64x2 I 64 2);
        $m!($x i8x2 I 8 2 u64x2 U 64 2);
        $m!($x u8x2 U 8 2 u64x2 U 64 2);
        $m!($x m8x2 M 8 2 u64x2 U 64 2);
        $m!($x i16x2 I 16 2 u64x2 U 64 2);
        $m!($x u16x2 U 16 2 u64x2 U 64 2);
        $m!($x m16x2 M 16 2 u64x2 U 64 2);
        $m!($x i32x2 I 32 2 u64x2 U 64 2);
        $m!($x u32x2 U 32 2 u64x2 U 64 2);
        $m!($x f32x2 F 32 2 u64x2 U 64 2);
        $m!($x m32x2 M 32 2 u64x2 U 64 2);
        $m!($x i64x2 I 64 2 u64x2 U 64 2);
        $m!($x f64x2 F 64 2 u64x2 U 64 2);
        $m!($x m64x2 M 64 2 u64x2 U 64 2);
        $m!($x i128x2 I 128 2 u64x2 U 64 2);
        $m!($x u128x2 U 128 2 u64x2 U 64 2);
        $m!($x m128x2 M 128 2 u64x2 U 64 2);
        $m!($x isizex2 I 64 2 u64x2 U 64 2);
        $m!($x usizex2 U 64 2 u64x2 U 64 2);
        $m!($x msizex2 M 64 2 u64x2 U 64 2);
        $m!($x i8x2 I 8 2 f64x2 F 64 2);
        $m!($x u8x2 U 8 2 f64x2 F 64 2);
        $m!($x m8x2 M 8 2 f64x2 F 64 2);
        $m!($x i16x2 I 16 2 f64x2 F 64 2);
        $m!($x u16x2 U 16 2 f64x2 F 64 2);
        $m!($x m16x2 M 16 2 f64x2 F 64 2);
        $m!($x i32x2 I 32 2 f64x2 F 64 2);
        $m!($x u32x2 U 32 2 f64x2 F 64 2);
        $m!($x f32x2 F 32 2 f64x2 F 64 2);
        $m!($x m32x2 M 32 2 f64x2 F 64 2);
        $m!($x i64x2 I 64 2 f64x2 F 64 2);
        $m!($x u64x2 U 64 2 f64x2 F 64 2);
        $m!($x m64x2 M 64 2 f64x2 F 64 2);
        $m!($x i128x2 I 128 2 f64x2 F 64 2);
        $m!($x u128x2 U 128 2 f64x2 F 64 2);
        $m!($x m128x2 M 128 2 f64x2 F 64 2);
        $m!($x isizex2 I 64 2 f64x2 F 64 2);
        $m!($x usizex2 U 64 2 f64x2 F 64 2);
        $m!($x msizex2 M 64 2 f64x2 F 64 2);
        $m!($x i8x2 I 8 2 m64x2 M 64 2);
        $m!($x u8x2 U 8 2 m64x2 M 64 2);
        $m!($x m8x2 M 8 2 m64x2 M 64 2);
        $m!($x i16x2 I 16 2 m64x2 M 64 2);
        $m!($x u16x2 U 16 2 m64x2 M 64 2);
        $m!($x m16x2 M 16 2 m64x2 M 64 2);
        $m!($x i32x2 I 32 2 m64x2 M 64 2);
        $m!($x u32x2 U 32 2 m64x2 M 64 2);
        $m!($x f32x2 F 32 2 m64x2 M 64 2);
        $m!($x m32x2 M 32 2 m64x2 M 64 2);
        $m!($x i64x2 I 64 2 m64x2 M 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u64x2 U 64 2 m64x2 M 64 2);
        $m!($x f64x2 F 64 2 m64x2 M 64 2);
        $m!($x i128x2 I 128 2 m64x2 M 64 2);
        $m!($x u128x2 U 128 2 m64x2 M 64 2);
        $m!($x m128x2 M 128 2 m64x2 M 64 2);
        $m!($x isizex2 I 64 2 m64x2 M 64 2);
        $m!($x usizex2 U 64 2 m64x2 M 64 2);
        $m!($x msizex2 M 64 2 m64x2 M 64 2);
        $m!($x i8x2 I 8 2 isizex2 I 64 2);
        $m!($x u8x2 U 8 2 isizex2 I 64 2);
        $m!($x m8x2 M 8 2 isizex2 I 64 2);
        $m!($x i16x2 I 16 2 isizex2 I 64 2);
        $m!($x u16x2 U 16 2 isizex2 I 64 2);
        $m!($x m16x2 M 16 2 isizex2 I 64 2);
        $m!($x i32x2 I 32 2 isizex2 I 64 2);
        $m!($x u32x2 U 32 2 isizex2 I 64 2);
        $m!($x f32x2 F 32 2 isizex2 I 64 2);
        $m!($x m32x2 M 32 2 isizex2 I 64 2);
        $m!($x i64x2 I 64 2 isizex2 I 64 2);
        $m!($x u64x2 U 64 2 isizex2 I 64 2);
        $m!($x f64x2 F 64 2 isizex2 I 64 2);
        $m!($x m64x2 M 64 2 isizex2 I 64 2);
        $m!($x i128x2 I 128 2 isizex2 I 64 2);
        $m!($x u128x2 U 128 2 isizex2 I 64 2);
        $m!($x m128x2 M 128 2 isizex2 I 64 2);
        $m!($x usizex2 U 64 2 isizex2 I 64 2);
        $m!($x msizex2 M 64 2 isizex2 I 64 2);
        $m!($x i8x2 I 8 2 usizex2 U 64 2);
        $m!($x u8x2 U 8 2 usizex2 U 64 2);
        $m!($x m8x2 M 8 2 usizex2 U 64 2);
        $m!($x i16x2 I 16 2 usizex2 U 64 2);
        $m!($x u16x2 U 16 2 usizex2 U 64 2);
        $m!($x m16x2 M 16 2 usizex2 U 64 2);
        $m!($x i32x2 I 32 2 usizex2 U 64 2);
        $m!($x u32x2 U 32 2 usizex2 U 64 2);
        $m!($x f32x2 F 32 2 usizex2 U 64 2);
        $m!($x m32x2 M 32 2 usizex2 U 64 2);
        $m!($x i64x2 I 64 2 usizex2 U 64 2);
        $m!($x u64x2 U 64 2 usizex2 U 64 2);
        $m!($x f64x2 F 64 2 usizex2 U 64 2);
        $m!($x m64x2 M 64 2 usizex2 U 64 2);
        $m!($x i128x2 I 128 2 usizex2 U 64 2);
        $m!($x u128x2 U 128 2 usizex2 U 64 2);
        $m!($x m128x2 M 128 2 usizex2 U 64 2);
        $m!($x isizex2 I 64 2 usizex2 U 64 2);
        $m!($x msizex2 M 64 2 usizex2 U 64 2);
        $m!($x i8x2 I 8 2 msizex2 M 64 2);
        $m!($x u8x2 U 8 2 msizex2 M 64 2);
        $m!($x m8x2 M 8 2 msizex2 M 64 2);
        $m!($x i16x2 I 16 2 msizex2 M 64 2);
        $m!($x u16x2 U 16 2 msizex2 M 64 2);
        $m!($x m16x2 M 16 2 msizex2 M 64 2);
        $m!($x i32x2 I 32 2 msizex2 M 64 2);
        $m!($x u32x2 U 32 2 msizex2 M 64 2);
        $m!($x f32x2 F 32 2 msizex2 M 64 2);
        $m!($x m32x2 M 32 2 msizex2 M 64 2);
        $m!($x i64x2 I 64 2 msizex2 M 64 2);
        $m!($x u64x2 U 64 2 msizex2 M 64 2);
        $m!($x f64x2 F 64 2 msizex2 M 64 2);
        $m!($x m64x2 M 64 2 msizex2 M 64 2);
        $m!($x i128x2 I 128 2 msizex2 M 64 2);
        $m!($x u128x2 U 128 2 msizex2 M 64 2);
        $m!($x m128x2 M 128 2 msizex2 M 64 2);
        $m!($x isizex2 I 64 2 msizex2 M 64 2);
        $m!($x usizex2 U 64 2 msizex2 M 64 2);
        $m!($x u128x1 U 128 1 i128x1 I 128 1);
        $m!($x m128x1 M 128 1 i128x1 I 128 1);
        $m!($x i128x1 I 128 1 u128x1 U 128 1);
        $m!($x m128x1 M 128 1 u128x1 U 128 1);
        $m!($x i128x1 I 128 1 m128x1 M 128 1);
        $m!($x u128x1 U 128 1 m128x1 M 128 1);
        $m!($x u8x2 U 8 2 i8x2 I 8 2);
        $m!($x m8x2 M 8 2 i8x2 I 8 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i16x2 I 16 2 i8x2 I 8 2);
        $m!($x u16x2 U 16 2 i8x2 I 8 2);
        $m!($x m16x2 M 16 2 i8x2 I 8 2);
        $m!($x i32x2 I 32 2 i8x2 I 8 2);
        $m!($x u32x2 U 32 2 i8x2 I 8 2);
        $m!($x f32x2 F 32 2 i8x2 I 8 2);
        $m!($x m32x2 M 32 2 i8x2 I 8 2);
        $m!($x i64x2 I 64 2 i8x2 I 8 2);
        $m!($x u64x2 U 64 2 i8x2 I 8 2);
        $m!($x f64x2 F 64 2 i8x2 I 8 2);
        $m!($x m64x2 M 64 2 i8x2 I 8 2);
        $m!($x i128x2 I 128 2 i8x2 I 8 2);
        $m!($x u128x2 U 128 2 i8x2 I 8 2);
        $m!($x m128x2 M 128 2 i8x2 I 8 2);
        $m!($x isizex2 I 64 2 i8x2 I 8 2);
        $m!($x usizex2 U 64 2 i8x2 I 8 2);
        $m!($x msizex2 M 64 2 i8x2 I 8 2);
        $m!($x i8x2 I 8 2 u8x2 U 8 2);
        $m!($x m8x2 M 8 2 u8x2 U 8 2);
        $m!($x i16x2 I 16 2 u8x2 U 8 2);
        $m!($x u16x2 U 16 2 u8x2 U 8 2);
        $m!($x m16x2 M 16 2 u8x2 U 8 2);
        $m!($x i32x2 I 32 2 u8x2 U 8 2);
        $m!($x u32x2 U 32 2 u8x2 U 8 2);
        $m!($x f32x2 F 32 2 u8x2 U 8 2);
        $m!($x m32x2 M 32 2 u8x2 U 8 2);
        $m!($x i64x2 I 64 2 u8x2 U 8 2);
        $m!($x u64x2 U 64 2 u8x2 U 8 2);
        $m!($x f64x2 F 64 2 u8x2 U 8 2);
        $m!($x m64x2 M 64 2 u8x2 U 8 2);
        $m!($x i128x2 I 128 2 u8x2 U 8 2);
        $m!($x u128x2 U 128 2 u8x2 U 8 2);
        $m!($x m128x2 M 128 2 u8x2 U 8 2);
        $m!($x isizex2 I 64 2 u8x2 U 8 2);
        $m!($x usizex2 U 64 2 u8x2 U 8 2);
        $m!($x msizex2 M 64 2 u8x2 U 8 2);
        $m!($x i8x2 I 8 2 m8x2 M 8 2);
        $m!($x u8x2 U 8 2 m8x2 M 8 2);
        $m!($x i16x2 I 16 2 m8x2 M 8 2);
        $m!($x u16x2 U 16 2 m8x2 M 8 2);
        $m!($x m16x2 M 16 2 m8x2 M 8 2);
        $m!($x i32x2 I 32 2 m8x2 M 8 2);
        $m!($x u32x2 U 32 2 m8x2 M 8 2);
        $m!($x f32x2 F 32 2 m8x2 M 8 2);
        $m!($x m32x2 M 32 2 m8x2 M 8 2);
        $m!($x i64x2 I 64 2 m8x2 M 8 2);
        $m!($x u64x2 U 64 2 m8x2 M 8 2);
        $m!($x f64x2 F 64 2 m8x2 M 8 2);
        $m!($x m64x2 M 64 2 m8x2 M 8 2);
        $m!($x i128x2 I 128 2 m8x2 M 8 2);
        $m!($x u128x2 U 128 2 m8x2 M 8 2);
        $m!($x m128x2 M 128 2 m8x2 M 8 2);
        $m!($x isizex2 I 64 2 m8x2 M 8 2);
        $m!($x usizex2 U 64 2 m8x2 M 8 2);
        $m!($x msizex2 M 64 2 m8x2 M 8 2);
        $m!($x u8x32 U 8 32 i8x32 I 8 32);
        $m!($x m8x32 M 8 32 i8x32 I 8 32);
        $m!($x i16x32 I 16 32 i8x32 I 8 32);
        $m!($x u16x32 U 16 32 i8x32 I 8 32);
        $m!($x m16x32 M 16 32 i8x32 I 8 32);
        $m!($x i8x32 I 8 32 u8x32 U 8 32);
        $m!($x m8x32 M 8 32 u8x32 U 8 32);
        $m!($x i16x32 I 16 32 u8x32 U 8 32);
        $m!($x u16x32 U 16 32 u8x32 U 8 32);
        $m!($x m16x32 M 16 32 u8x32 U 8 32);
        $m!($x i8x32 I 8 32 m8x32 M 8 32);
        $m!($x u8x32 U 8 32 m8x32 M 8 32);
        $m!($x i16x32 I 16 32 m8x32 M 8 32);
        $m!($x u16x32 U 16 32 m8x32 M 8 32);
        $m!($x m16x32 M 16 32 m8x32 M 8 32);
        $m!($x i8x16 I 8 16 i16x16 I 16 16);
        $m!($x u8x16 U 8 16 i16x16 I 16 16);
        $m!($x m8x16 M 8 16 i16x16 I 16 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u16x16 U 16 16 i16x16 I 16 16);
        $m!($x m16x16 M 16 16 i16x16 I 16 16);
        $m!($x i32x16 I 32 16 i16x16 I 16 16);
        $m!($x u32x16 U 32 16 i16x16 I 16 16);
        $m!($x f32x16 F 32 16 i16x16 I 16 16);
        $m!($x m32x16 M 32 16 i16x16 I 16 16);
        $m!($x i8x16 I 8 16 u16x16 U 16 16);
        $m!($x u8x16 U 8 16 u16x16 U 16 16);
        $m!($x m8x16 M 8 16 u16x16 U 16 16);
        $m!($x i16x16 I 16 16 u16x16 U 16 16);
        $m!($x m16x16 M 16 16 u16x16 U 16 16);
        $m!($x i32x16 I 32 16 u16x16 U 16 16);
        $m!($x u32x16 U 32 16 u16x16 U 16 16);
        $m!($x f32x16 F 32 16 u16x16 U 16 16);
        $m!($x m32x16 M 32 16 u16x16 U 16 16);
        $m!($x i8x16 I 8 16 m16x16 M 16 16);
        $m!($x u8x16 U 8 16 m16x16 M 16 16);
        $m!($x m8x16 M 8 16 m16x16 M 16 16);
        $m!($x i16x16 I 16 16 m16x16 M 16 16);
        $m!($x u16x16 U 16 16 m16x16 M 16 16);
        $m!($x i32x16 I 32 16 m16x16 M 16 16);
        $m!($x u32x16 U 32 16 m16x16 M 16 16);
        $m!($x f32x16 F 32 16 m16x16 M 16 16);
        $m!($x m32x16 M 32 16 m16x16 M 16 16);
        $m!($x i8x8 I 8 8 i32x8 I 32 8);
        $m!($x u8x8 U 8 8 i32x8 I 32 8);
        $m!($x m8x8 M 8 8 i32x8 I 32 8);
        $m!($x i16x8 I 16 8 i32x8 I 32 8);
        $m!($x u16x8 U 16 8 i32x8 I 32 8);
        $m!($x m16x8 M 16 8 i32x8 I 32 8);
        $m!($x u32x8 U 32 8 i32x8 I 32 8);
        $m!($x f32x8 F 32 8 i32x8 I 32 8);
        $m!($x m32x8 M 32 8 i32x8 I 32 8);
        $m!($x i64x8 I 64 8 i32x8 I 32 8);
        $m!($x u64x8 U 64 8 i32x8 I 32 8);
        $m!($x f64x8 F 64 8 i32x8 I 32 8);
        $m!($x m64x8 M 64 8 i32x8 I 32 8);
        $m!($x isizex8 I 64 8 i32x8 I 32 8);
        $m!($x usizex8 U 64 8 i32x8 I 32 8);
        $m!($x msizex8 M 64 8 i32x8 I 32 8);
        $m!($x i8x8 I 8 8 u32x8 U 32 8);
        $m!($x u8x8 U 8 8 u32x8 U 32 8);
        $m!($x m8x8 M 8 8 u32x8 U 32 8);
        $m!($x i16x8 I 16 8 u32x8 U 32 8);
        $m!($x u16x8 U 16 8 u32x8 U 32 8);
        $m!($x m16x8 M 16 8 u32x8 U 32 8);
        $m!($x i32x8 I 32 8 u32x8 U 32 8);
        $m!($x f32x8 F 32 8 u32x8 U 32 8);
        $m!($x m32x8 M 32 8 u32x8 U 32 8);
        $m!($x i64x8 I 64 8 u32x8 U 32 8);
        $m!($x u64x8 U 64 8 u32x8 U 32 8);
        $m!($x f64x8 F 64 8 u32x8 U 32 8);
        $m!($x m64x8 M 64 8 u32x8 U 32 8);
        $m!($x isizex8 I 64 8 u32x8 U 32 8);
        $m!($x usizex8 U 64 8 u32x8 U 32 8);
        $m!($x msizex8 M 64 8 u32x8 U 32 8);
        $m!($x i8x8 I 8 8 f32x8 F 32 8);
        $m!($x u8x8 U 8 8 f32x8 F 32 8);
        $m!($x m8x8 M 8 8 f32x8 F 32 8);
        $m!($x i16x8 I 16 8 f32x8 F 32 8);
        $m!($x u16x8 U 16 8 f32x8 F 32 8);
        $m!($x m16x8 M 16 8 f32x8 F 32 8);
        $m!($x i32x8 I 32 8 f32x8 F 32 8);
        $m!($x u32x8 U 32 8 f32x8 F 32 8);
        $m!($x m32x8 M 32 8 f32x8 F 32 8);
        $m!($x i64x8 I 64 8 f32x8 F 32 8);
        $m!($x u64x8 U 64 8 f32x8 F 32 8);
        $m!($x f64x8 F 64 8 f32x8 F 32 8);
        $m!($x m64x8 M 64 8 f32x8 F 32 8);
        $m!($x isizex8 I 64 8 f32x8 F 32 8);
        $m!($x usizex8 U 64 8 f32x8 F 32 8);
        $m!($x msizex8 M 64 8 f32x8 F 32 8);
        $m!($x i8x8 I 8 8 m32x8 M 32 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x8 U 8 8 m32x8 M 32 8);
        $m!($x m8x8 M 8 8 m32x8 M 32 8);
        $m!($x i16x8 I 16 8 m32x8 M 32 8);
        $m!($x u16x8 U 16 8 m32x8 M 32 8);
        $m!($x m16x8 M 16 8 m32x8 M 32 8);
        $m!($x i32x8 I 32 8 m32x8 M 32 8);
        $m!($x u32x8 U 32 8 m32x8 M 32 8);
        $m!($x f32x8 F 32 8 m32x8 M 32 8);
        $m!($x i64x8 I 64 8 m32x8 M 32 8);
        $m!($x u64x8 U 64 8 m32x8 M 32 8);
        $m!($x f64x8 F 64 8 m32x8 M 32 8);
        $m!($x m64x8 M 64 8 m32x8 M 32 8);
        $m!($x isizex8 I 64 8 m32x8 M 32 8);
        $m!($x usizex8 U 64 8 m32x8 M 32 8);
        $m!($x msizex8 M 64 8 m32x8 M 32 8);
        $m!($x i8x4 I 8 4 i64x4 I 64 4);
        $m!($x u8x4 U 8 4 i64x4 I 64 4);
        $m!($x m8x4 M 8 4 i64x4 I 64 4);
        $m!($x i16x4 I 16 4 i64x4 I 64 4);
        $m!($x u16x4 U 16 4 i64x4 I 64 4);
        $m!($x m16x4 M 16 4 i64x4 I 64 4);
        $m!($x i32x4 I 32 4 i64x4 I 64 4);
        $m!($x u32x4 U 32 4 i64x4 I 64 4);
        $m!($x f32x4 F 32 4 i64x4 I 64 4);
        $m!($x m32x4 M 32 4 i64x4 I 64 4);
        $m!($x u64x4 U 64 4 i64x4 I 64 4);
        $m!($x f64x4 F 64 4 i64x4 I 64 4);
        $m!($x m64x4 M 64 4 i64x4 I 64 4);
        $m!($x i128x4 I 128 4 i64x4 I 64 4);
        $m!($x u128x4 U 128 4 i64x4 I 64 4);
        $m!($x m128x4 M 128 4 i64x4 I 64 4);
        $m!($x isizex4 I 64 4 i64x4 I 64 4);
        $m!($x usizex4 U 64 4 i64x4 I 64 4);
        $m!($x msizex4 M 64 4 i64x4 I 64 4);
        $m!($x i8x4 I 8 4 u64x4 U 64 4);
        $m!($x u8x4 U 8 4 u64x4 U 64 4);
        $m!($x m8x4 M 8 4 u64x4 U 64 4);
        $m!($x i16x4 I 16 4 u64x4 U 64 4);
        $m!($x u16x4 U 16 4 u64x4 U 64 4);
        $m!($x m16x4 M 16 4 u64x4 U 64 4);
        $m!($x i32x4 I 32 4 u64x4 U 64 4);
        $m!($x u32x4 U 32 4 u64x4 U 64 4);
        $m!($x f32x4 F 32 4 u64x4 U 64 4);
        $m!($x m32x4 M 32 4 u64x4 U 64 4);
        $m!($x i64x4 I 64 4 u64x4 U 64 4);
        $m!($x f64x4 F 64 4 u64x4 U 64 4);
        $m!($x m64x4 M 64 4 u64x4 U 64 4);
        $m!($x i128x4 I 128 4 u64x4 U 64 4);
        $m!($x u128x4 U 128 4 u64x4 U 64 4);
        $m!($x m128x4 M 128 4 u64x4 U 64 4);
        $m!($x isizex4 I 64 4 u64x4 U 64 4);
        $m!($x usizex4 U 64 4 u64x4 U 64 4);
        $m!($x msizex4 M 64 4 u64x4 U 64 4);
        $m!($x i8x4 I 8 4 f64x4 F 64 4);
        $m!($x u8x4 U 8 4 f64x4 F 64 4);
        $m!($x m8x4 M 8 4 f64x4 F 64 4);
        $m!($x i16x4 I 16 4 f64x4 F 64 4);
        $m!($x u16x4 U 16 4 f64x4 F 64 4);
        $m!($x m16x4 M 16 4 f64x4 F 64 4);
        $m!($x i32x4 I 32 4 f64x4 F 64 4);
        $m!($x u32x4 U 32 4 f64x4 F 64 4);
        $m!($x f32x4 F 32 4 f64x4 F 64 4);
        $m!($x m32x4 M 32 4 f64x4 F 64 4);
        $m!($x i64x4 I 64 4 f64x4 F 64 4);
        $m!($x u64x4 U 64 4 f64x4 F 64 4);
        $m!($x m64x4 M 64 4 f64x4 F 64 4);
        $m!($x i128x4 I 128 4 f64x4 F 64 4);
        $m!($x u128x4 U 128 4 f64x4 F 64 4);
        $m!($x m128x4 M 128 4 f64x4 F 64 4);
        $m!($x isizex4 I 64 4 f64x4 F 64 4);
        $m!($x usizex4 U 64 4 f64x4 F 64 4);
        $m!($x msizex4 M 64 4 f64x4 F 64 4);
        $m!($x i8x4 I 8 4 m64x4 M 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x4 U 8 4 m64x4 M 64 4);
        $m!($x m8x4 M 8 4 m64x4 M 64 4);
        $m!($x i16x4 I 16 4 m64x4 M 64 4);
        $m!($x u16x4 U 16 4 m64x4 M 64 4);
        $m!($x m16x4 M 16 4 m64x4 M 64 4);
        $m!($x i32x4 I 32 4 m64x4 M 64 4);
        $m!($x u32x4 U 32 4 m64x4 M 64 4);
        $m!($x f32x4 F 32 4 m64x4 M 64 4);
        $m!($x m32x4 M 32 4 m64x4 M 64 4);
        $m!($x i64x4 I 64 4 m64x4 M 64 4);
        $m!($x u64x4 U 64 4 m64x4 M 64 4);
        $m!($x f64x4 F 64 4 m64x4 M 64 4);
        $m!($x i128x4 I 128 4 m64x4 M 64 4);
        $m!($x u128x4 U 128 4 m64x4 M 64 4);
        $m!($x m128x4 M 128 4 m64x4 M 64 4);
        $m!($x isizex4 I 64 4 m64x4 M 64 4);
        $m!($x usizex4 U 64 4 m64x4 M 64 4);
        $m!($x msizex4 M 64 4 m64x4 M 64 4);
        $m!($x i8x2 I 8 2 i128x2 I 128 2);
        $m!($x u8x2 U 8 2 i128x2 I 128 2);
        $m!($x m8x2 M 8 2 i128x2 I 128 2);
        $m!($x i16x2 I 16 2 i128x2 I 128 2);
        $m!($x u16x2 U 16 2 i128x2 I 128 2);
        $m!($x m16x2 M 16 2 i128x2 I 128 2);
        $m!($x i32x2 I 32 2 i128x2 I 128 2);
        $m!($x u32x2 U 32 2 i128x2 I 128 2);
        $m!($x f32x2 F 32 2 i128x2 I 128 2);
        $m!($x m32x2 M 32 2 i128x2 I 128 2);
        $m!($x i64x2 I 64 2 i128x2 I 128 2);
        $m!($x u64x2 U 64 2 i128x2 I 128 2);
        $m!($x f64x2 F 64 2 i128x2 I 128 2);
        $m!($x m64x2 M 64 2 i128x2 I 128 2);
        $m!($x u128x2 U 128 2 i128x2 I 128 2);
        $m!($x m128x2 M 128 2 i128x2 I 128 2);
        $m!($x isizex2 I 64 2 i128x2 I 128 2);
        $m!($x usizex2 U 64 2 i128x2 I 128 2);
        $m!($x msizex2 M 64 2 i128x2 I 128 2);
        $m!($x i8x2 I 8 2 u128x2 U 128 2);
        $m!($x u8x2 U 8 2 u128x2 U 128 2);
        $m!($x m8x2 M 8 2 u128x2 U 128 2);
        $m!($x i16x2 I 16 2 u128x2 U 128 2);
        $m!($x u16x2 U 16 2 u128x2 U 128 2);
        $m!($x m16x2 M 16 2 u128x2 U 128 2);
        $m!($x i32x2 I 32 2 u128x2 U 128 2);
        $m!($x u32x2 U 32 2 u128x2 U 128 2);
        $m!($x f32x2 F 32 2 u128x2 U 128 2);
        $m!($x m32x2 M 32 2 u128x2 U 128 2);
        $m!($x i64x2 I 64 2 u128x2 U 128 2);
        $m!($x u64x2 U 64 2 u128x2 U 128 2);
        $m!($x f64x2 F 64 2 u128x2 U 128 2);
        $m!($x m64x2 M 64 2 u128x2 U 128 2);
        $m!($x i128x2 I 128 2 u128x2 U 128 2);
        $m!($x m128x2 M 128 2 u128x2 U 128 2);
        $m!($x isizex2 I 64 2 u128x2 U 128 2);
        $m!($x usizex2 U 64 2 u128x2 U 128 2);
        $m!($x msizex2 M 64 2 u128x2 U 128 2);
        $m!($x i8x2 I 8 2 m128x2 M 128 2);
        $m!($x u8x2 U 8 2 m128x2 M 128 2);
        $m!($x m8x2 M 8 2 m128x2 M 128 2);
        $m!($x i16x2 I 16 2 m128x2 M 128 2);
        $m!($x u16x2 U 16 2 m128x2 M 128 2);
        $m!($x m16x2 M 16 2 m128x2 M 128 2);
        $m!($x i32x2 I 32 2 m128x2 M 128 2);
        $m!($x u32x2 U 32 2 m128x2 M 128 2);
        $m!($x f32x2 F 32 2 m128x2 M 128 2);
        $m!($x m32x2 M 32 2 m128x2 M 128 2);
        $m!($x i64x2 I 64 2 m128x2 M 128 2);
        $m!($x u64x2 U 64 2 m128x2 M 128 2);
        $m!($x m64x2 M 64 2 m128x2 M 128 2);
        $m!($x f64x2 F 64 2 m128x2 M 128 2);
        $m!($x i128x2 I 128 2 m128x2 M 128 2);
        $m!($x u128x2 U 128 2 m128x2 M 128 2);
        $m!($x isizex2 I 64 2 m128x2 M 128 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x usizex2 U 64 2 m128x2 M 128 2);
        $m!($x msizex2 M 64 2 m128x2 M 128 2);
        $m!($x i8x4 I 8 4 isizex4 I 64 4);
        $m!($x u8x4 U 8 4 isizex4 I 64 4);
        $m!($x m8x4 M 8 4 isizex4 I 64 4);
        $m!($x i16x4 I 16 4 isizex4 I 64 4);
        $m!($x u16x4 U 16 4 isizex4 I 64 4);
        $m!($x m16x4 M 16 4 isizex4 I 64 4);
        $m!($x i32x4 I 32 4 isizex4 I 64 4);
        $m!($x u32x4 U 32 4 isizex4 I 64 4);
        $m!($x f32x4 F 32 4 isizex4 I 64 4);
        $m!($x m32x4 M 32 4 isizex4 I 64 4);
        $m!($x i64x4 I 64 4 isizex4 I 64 4);
        $m!($x u64x4 U 64 4 isizex4 I 64 4);
        $m!($x f64x4 F 64 4 isizex4 I 64 4);
        $m!($x m64x4 M 64 4 isizex4 I 64 4);
        $m!($x i128x4 I 128 4 isizex4 I 64 4);
        $m!($x u128x4 U 128 4 isizex4 I 64 4);
        $m!($x m128x4 M 128 4 isizex4 I 64 4);
        $m!($x usizex4 U 64 4 isizex4 I 64 4);
        $m!($x msizex4 M 64 4 isizex4 I 64 4);
        $m!($x i8x4 I 8 4 usizex4 U 64 4);
        $m!($x u8x4 U 8 4 usizex4 U 64 4);
        $m!($x m8x4 M 8 4 usizex4 U 64 4);
        $m!($x i16x4 I 16 4 usizex4 U 64 4);
        $m!($x u16x4 U 16 4 usizex4 U 64 4);
        $m!($x m16x4 M 16 4 usizex4 U 64 4);
        $m!($x i32x4 I 32 4 usizex4 U 64 4);
        $m!($x u32x4 U 32 4 usizex4 U 64 4);
        $m!($x f32x4 F 32 4 usizex4 U 64 4);
        $m!($x m32x4 M 32 4 usizex4 U 64 4);
        $m!($x i64x4 I 64 4 usizex4 U 64 4);
        $m!($x u64x4 U 64 4 usizex4 U 64 4);
        $m!($x f64x4 F 64 4 usizex4 U 64 4);
        $m!($x m64x4 M 64 4 usizex4 U 64 4);
        $m!($x i128x4 I 128 4 usizex4 U 64 4);
        $m!($x u128x4 U 128 4 usizex4 U 64 4);
        $m!($x m128x4 M 128 4 usizex4 U 64 4);
        $m!($x isizex4 I 64 4 usizex4 U 64 4);
        $m!($x msizex4 M 64 4 usizex4 U 64 4);
        $m!($x i8x4 I 8 4 msizex4 M 64 4);
        $m!($x u8x4 U 8 4 msizex4 M 64 4);
        $m!($x m8x4 M 8 4 msizex4 M 64 4);
        $m!($x i16x4 I 16 4 msizex4 M 64 4);
        $m!($x u16x4 U 16 4 msizex4 M 64 4);
        $m!($x m16x4 M 16 4 msizex4 M 64 4);
        $m!($x i32x4 I 32 4 msizex4 M 64 4);
        $m!($x u32x4 U 32 4 msizex4 M 64 4);
        $m!($x f32x4 F 32 4 msizex4 M 64 4);
        $m!($x m32x4 M 32 4 msizex4 M 64 4);
        $m!($x i64x4 I 64 4 msizex4 M 64 4);
        $m!($x u64x4 U 64 4 msizex4 M 64 4);
        $m!($x f64x4 F 64 4 msizex4 M 64 4);
        $m!($x m64x4 M 64 4 msizex4 M 64 4);
        $m!($x i128x4 I 128 4 msizex4 M 64 4);
        $m!($x u128x4 U 128 4 msizex4 M 64 4);
        $m!($x m128x4 M 128 4 msizex4 M 64 4);
        $m!($x isizex4 I 64 4 msizex4 M 64 4);
        $m!($x usizex4 U 64 4 msizex4 M 64 4);
        $m!($x u8x4 U 8 4 i8x4 I 8 4);
        $m!($x m8x4 M 8 4 i8x4 I 8 4);
        $m!($x i16x4 I 16 4 i8x4 I 8 4);
        $m!($x u16x4 U 16 4 i8x4 I 8 4);
        $m!($x m16x4 M 16 4 i8x4 I 8 4);
        $m!($x i32x4 I 32 4 i8x4 I 8 4);
        $m!($x u32x4 U 32 4 i8x4 I 8 4);
        $m!($x f32x4 F 32 4 i8x4 I 8 4);
        $m!($x m32x4 M 32 4 i8x4 I 8 4);
        $m!($x i64x4 I 64 4 i8x4 I 8 4);
        $m!($x u64x4 U 64 4 i8x4 I 8 4);
        $m!($x f64x4 F 64 4 i8x4 I 8 4);
        $m!($x m64x4 M 64 4 i8x4 I 8 4);
        $m!($x i128x4 I 128 4 i8x4 I 8 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u128x4 U 128 4 i8x4 I 8 4);
        $m!($x m128x4 M 128 4 i8x4 I 8 4);
        $m!($x isizex4 I 64 4 i8x4 I 8 4);
        $m!($x usizex4 U 64 4 i8x4 I 8 4);
        $m!($x msizex4 M 64 4 i8x4 I 8 4);
        $m!($x i8x4 I 8 4 u8x4 U 8 4);
        $m!($x m8x4 M 8 4 u8x4 U 8 4);
        $m!($x i16x4 I 16 4 u8x4 U 8 4);
        $m!($x u16x4 U 16 4 u8x4 U 8 4);
        $m!($x m16x4 M 16 4 u8x4 U 8 4);
        $m!($x i32x4 I 32 4 u8x4 U 8 4);
        $m!($x u32x4 U 32 4 u8x4 U 8 4);
        $m!($x f32x4 F 32 4 u8x4 U 8 4);
        $m!($x m32x4 M 32 4 u8x4 U 8 4);
        $m!($x i64x4 I 64 4 u8x4 U 8 4);
        $m!($x u64x4 U 64 4 u8x4 U 8 4);
        $m!($x f64x4 F 64 4 u8x4 U 8 4);
        $m!($x m64x4 M 64 4 u8x4 U 8 4);
        $m!($x i128x4 I 128 4 u8x4 U 8 4);
        $m!($x u128x4 U 128 4 u8x4 U 8 4);
        $m!($x m128x4 M 128 4 u8x4 U 8 4);
        $m!($x isizex4 I 64 4 u8x4 U 8 4);
        $m!($x usizex4 U 64 4 u8x4 U 8 4);
        $m!($x msizex4 M 64 4 u8x4 U 8 4);
        $m!($x i8x4 I 8 4 m8x4 M 8 4);
        $m!($x u8x4 U 8 4 m8x4 M 8 4);
        $m!($x i16x4 I 16 4 m8x4 M 8 4);
        $m!($x u16x4 U 16 4 m8x4 M 8 4);
        $m!($x m16x4 M 16 4 m8x4 M 8 4);
        $m!($x i32x4 I 32 4 m8x4 M 8 4);
        $m!($x u32x4 U 32 4 m8x4 M 8 4);
        $m!($x f32x4 F 32 4 m8x4 M 8 4);
        $m!($x m32x4 M 32 4 m8x4 M 8 4);
        $m!($x i64x4 I 64 4 m8x4 M 8 4);
        $m!($x u64x4 U 64 4 m8x4 M 8 4);
        $m!($x f64x4 F 64 4 m8x4 M 8 4);
        $m!($x m64x4 M 64 4 m8x4 M 8 4);
        $m!($x i128x4 I 128 4 m8x4 M 8 4);
        $m!($x u128x4 U 128 4 m8x4 M 8 4);
        $m!($x m128x4 M 128 4 m8x4 M 8 4);
        $m!($x isizex4 I 64 4 m8x4 M 8 4);
        $m!($x usizex4 U 64 4 m8x4 M 8 4);
        $m!($x msizex4 M 64 4 m8x4 M 8 4);
        $m!($x i8x2 I 8 2 i16x2 I 16 2);
        $m!($x u8x2 U 8 2 i16x2 I 16 2);
        $m!($x m8x2 M 8 2 i16x2 I 16 2);
        $m!($x u16x2 U 16 2 i16x2 I 16 2);
        $m!($x m16x2 M 16 2 i16x2 I 16 2);
        $m!($x i32x2 I 32 2 i16x2 I 16 2);
        $m!($x u32x2 U 32 2 i16x2 I 16 2);
        $m!($x f32x2 F 32 2 i16x2 I 16 2);
        $m!($x m32x2 M 32 2 i16x2 I 16 2);
        $m!($x i64x2 I 64 2 i16x2 I 16 2);
        $m!($x u64x2 U 64 2 i16x2 I 16 2);
        $m!($x f64x2 F 64 2 i16x2 I 16 2);
        $m!($x m64x2 M 64 2 i16x2 I 16 2);
        $m!($x i128x2 I 128 2 i16x2 I 16 2);
        $m!($x u128x2 U 128 2 i16x2 I 16 2);
        $m!($x m128x2 M 128 2 i16x2 I 16 2);
        $m!($x isizex2 I 64 2 i16x2 I 16 2);
        $m!($x usizex2 U 64 2 i16x2 I 16 2);
        $m!($x msizex2 M 64 2 i16x2 I 16 2);
        $m!($x i8x2 I 8 2 u16x2 U 16 2);
        $m!($x u8x2 U 8 2 u16x2 U 16 2);
        $m!($x m8x2 M 8 2 u16x2 U 16 2);
        $m!($x i16x2 I 16 2 u16x2 U 16 2);
        $m!($x m16x2 M 16 2 u16x2 U 16 2);
        $m!($x i32x2 I 32 2 u16x2 U 16 2);
        $m!($x u32x2 U 32 2 u16x2 U 16 2);
        $m!($x f32x2 F 32 2 u16x2 U 16 2);
        $m!($x m32x2 M 32 2 u16x2 U 16 2);
        $m!($x i64x2 I 64 2 u16x2 U 16 2);
        $m!($x u64x2 U 64 2 u16x2 U 16 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f64x2 F 64 2 u16x2 U 16 2);
        $m!($x m64x2 M 64 2 u16x2 U 16 2);
        $m!($x i128x2 I 128 2 u16x2 U 16 2);
        $m!($x u128x2 U 128 2 u16x2 U 16 2);
        $m!($x m128x2 M 128 2 u16x2 U 16 2);
        $m!($x isizex2 I 64 2 u16x2 U 16 2);
        $m!($x usizex2 U 64 2 u16x2 U 16 2);
        $m!($x msizex2 M 64 2 u16x2 U 16 2);
        $m!($x i8x2 I 8 2 m16x2 M 16 2);
        $m!($x u8x2 U 8 2 m16x2 M 16 2);
        $m!($x m8x2 M 8 2 m16x2 M 16 2);
        $m!($x i16x2 I 16 2 m16x2 M 16 2);
        $m!($x u16x2 U 16 2 m16x2 M 16 2);
        $m!($x i32x2 I 32 2 m16x2 M 16 2);
        $m!($x u32x2 U 32 2 m16x2 M 16 2);
        $m!($x f32x2 F 32 2 m16x2 M 16 2);
        $m!($x m32x2 M 32 2 m16x2 M 16 2);
        $m!($x i64x2 I 64 2 m16x2 M 16 2);
        $m!($x u64x2 U 64 2 m16x2 M 16 2);
        $m!($x f64x2 F 64 2 m16x2 M 16 2);
        $m!($x m64x2 M 64 2 m16x2 M 16 2);
        $m!($x i128x2 I 128 2 m16x2 M 16 2);
        $m!($x u128x2 U 128 2 m16x2 M 16 2);
        $m!($x m128x2 M 128 2 m16x2 M 16 2);
        $m!($x isizex2 I 64 2 m16x2 M 16 2);
        $m!($x usizex2 U 64 2 m16x2 M 16 2);
        $m!($x msizex2 M 64 2 m16x2 M 16 2);
        $m!($x u8x64 U 8 64 i8x64 I 8 64);
        $m!($x m8x64 M 8 64 i8x64 I 8 64);
        $m!($x i8x64 I 8 64 u8x64 U 8 64);
        $m!($x m8x64 M 8 64 u8x64 U 8 64);
        $m!($x i8x64 I 8 64 m8x64 M 8 64);
        $m!($x u8x64 U 8 64 m8x64 M 8 64);
        $m!($x i8x32 I 8 32 i16x32 I 16 32);
        $m!($x u8x32 U 8 32 i16x32 I 16 32);
        $m!($x m8x32 M 8 32 i16x32 I 16 32);
        $m!($x u16x32 U 16 32 i16x32 I 16 32);
        $m!($x m16x32 M 16 32 i16x32 I 16 32);
        $m!($x i8x32 I 8 32 u16x32 U 16 32);
        $m!($x u8x32 U 8 32 u16x32 U 16 32);
        $m!($x m8x32 M 8 32 u16x32 U 16 32);
        $m!($x i16x32 I 16 32 u16x32 U 16 32);
        $m!($x m16x32 M 16 32 u16x32 U 16 32);
        $m!($x i8x32 I 8 32 m16x32 M 16 32);
        $m!($x u8x32 U 8 32 m16x32 M 16 32);
        $m!($x m8x32 M 8 32 m16x32 M 16 32);
        $m!($x i16x32 I 16 32 m16x32 M 16 32);
        $m!($x u16x32 U 16 32 m16x32 M 16 32);
        $m!($x i8x16 I 8 16 i32x16 I 32 16);
        $m!($x u8x16 U 8 16 i32x16 I 32 16);
        $m!($x m8x16 M 8 16 i32x16 I 32 16);
        $m!($x i16x16 I 16 16 i32x16 I 32 16);
        $m!($x u16x16 U 16 16 i32x16 I 32 16);
        $m!($x m16x16 M 16 16 i32x16 I 32 16);
        $m!($x u32x16 U 32 16 i32x16 I 32 16);
        $m!($x f32x16 F 32 16 i32x16 I 32 16);
        $m!($x m32x16 M 32 16 i32x16 I 32 16);
        $m!($x i8x16 I 8 16 u32x16 U 32 16);
        $m!($x u8x16 U 8 16 u32x16 U 32 16);
        $m!($x m8x16 M 8 16 u32x16 U 32 16);
        $m!($x i16x16 I 16 16 u32x16 U 32 16);
        $m!($x u16x16 U 16 16 u32x16 U 32 16);
        $m!($x m16x16 M 16 16 u32x16 U 32 16);
        $m!($x i32x16 I 32 16 u32x16 U 32 16);
        $m!($x f32x16 F 32 16 u32x16 U 32 16);
        $m!($x m32x16 M 32 16 u32x16 U 32 16);
        $m!($x i8x16 I 8 16 f32x16 F 32 16);
        $m!($x u8x16 U 8 16 f32x16 F 32 16);
        $m!($x m8x16 M 8 16 f32x16 F 32 16);
        $m!($x i16x16 I 16 16 f32x16 F 32 16);
        $m!($x u16x16 U 16 16 f32x16 F 32 16);
        $m!($x m16x16 M 16 16 f32x16 F 32 16);
        $m!($x i32x16 I 32 16 f32x16 F 32 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u32x16 U 32 16 f32x16 F 32 16);
        $m!($x m32x16 M 32 16 f32x16 F 32 16);
        $m!($x i8x16 I 8 16 m32x16 M 32 16);
        $m!($x u8x16 U 8 16 m32x16 M 32 16);
        $m!($x m8x16 M 8 16 m32x16 M 32 16);
        $m!($x i16x16 I 16 16 m32x16 M 32 16);
        $m!($x u16x16 U 16 16 m32x16 M 32 16);
        $m!($x m16x16 M 16 16 m32x16 M 32 16);
        $m!($x i32x16 I 32 16 m32x16 M 32 16);
        $m!($x u32x16 U 32 16 m32x16 M 32 16);
        $m!($x f32x16 F 32 16 m32x16 M 32 16);
        $m!($x i8x8 I 8 8 i64x8 I 64 8);
        $m!($x u8x8 U 8 8 i64x8 I 64 8);
        $m!($x m8x8 M 8 8 i64x8 I 64 8);
        $m!($x i16x8 I 16 8 i64x8 I 64 8);
        $m!($x u16x8 U 16 8 i64x8 I 64 8);
        $m!($x m16x8 M 16 8 i64x8 I 64 8);
        $m!($x i32x8 I 32 8 i64x8 I 64 8);
        $m!($x u32x8 U 32 8 i64x8 I 64 8);
        $m!($x f32x8 F 32 8 i64x8 I 64 8);
        $m!($x m32x8 M 32 8 i64x8 I 64 8);
        $m!($x u64x8 U 64 8 i64x8 I 64 8);
        $m!($x f64x8 F 64 8 i64x8 I 64 8);
        $m!($x m64x8 M 64 8 i64x8 I 64 8);
        $m!($x isizex8 I 64 8 i64x8 I 64 8);
        $m!($x usizex8 U 64 8 i64x8 I 64 8);
        $m!($x msizex8 M 64 8 i64x8 I 64 8);
        $m!($x i8x8 I 8 8 u64x8 U 64 8);
        $m!($x u8x8 U 8 8 u64x8 U 64 8);
        $m!($x m8x8 M 8 8 u64x8 U 64 8);
        $m!($x i16x8 I 16 8 u64x8 U 64 8);
        $m!($x u16x8 U 16 8 u64x8 U 64 8);
        $m!($x m16x8 M 16 8 u64x8 U 64 8);
        $m!($x i32x8 I 32 8 u64x8 U 64 8);
        $m!($x u32x8 U 32 8 u64x8 U 64 8);
        $m!($x f32x8 F 32 8 u64x8 U 64 8);
        $m!($x m32x8 M 32 8 u64x8 U 64 8);
        $m!($x i64x8 I 64 8 u64x8 U 64 8);
        $m!($x f64x8 F 64 8 u64x8 U 64 8);
        $m!($x m64x8 M 64 8 u64x8 U 64 8);
        $m!($x isizex8 I 64 8 u64x8 U 64 8);
        $m!($x usizex8 U 64 8 u64x8 U 64 8);
        $m!($x msizex8 M 64 8 u64x8 U 64 8);
        $m!($x i8x8 I 8 8 f64x8 F 64 8);
        $m!($x u8x8 U 8 8 f64x8 F 64 8);
        $m!($x m8x8 M 8 8 f64x8 F 64 8);
        $m!($x i16x8 I 16 8 f64x8 F 64 8);
        $m!($x u16x8 U 16 8 f64x8 F 64 8);
        $m!($x m16x8 M 16 8 f64x8 F 64 8);
        $m!($x i32x8 I 32 8 f64x8 F 64 8);
        $m!($x u32x8 U 32 8 f64x8 F 64 8);
        $m!($x f32x8 F 32 8 f64x8 F 64 8);
        $m!($x m32x8 M 32 8 f64x8 F 64 8);
        $m!($x i64x8 I 64 8 f64x8 F 64 8);
        $m!($x u64x8 U 64 8 f64x8 F 64 8);
        $m!($x m64x8 M 64 8 f64x8 F 64 8);
        $m!($x isizex8 I 64 8 f64x8 F 64 8);
        $m!($x usizex8 U 64 8 f64x8 F 64 8);
        $m!($x msizex8 M 64 8 f64x8 F 64 8);
        $m!($x i8x8 I 8 8 m64x8 M 64 8);
        $m!($x u8x8 U 8 8 m64x8 M 64 8);
        $m!($x m8x8 M 8 8 m64x8 M 64 8);
        $m!($x i16x8 I 16 8 m64x8 M 64 8);
        $m!($x u16x8 U 16 8 m64x8 M 64 8);
        $m!($x m16x8 M 16 8 m64x8 M 64 8);
        $m!($x i32x8 I 32 8 m64x8 M 64 8);
        $m!($x u32x8 U 32 8 m64x8 M 64 8);
        $m!($x f32x8 F 32 8 m64x8 M 64 8);
        $m!($x m32x8 M 32 8 m64x8 M 64 8);
        $m!($x i64x8 I 64 8 m64x8 M 64 8);
        $m!($x u64x8 U 64 8 m64x8 M 64 8);
        $m!($x f64x8 F 64 8 m64x8 M 64 8);
        $m!($x isizex8 I 64 8 m64x8 M 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x usizex8 U 64 8 m64x8 M 64 8);
        $m!($x msizex8 M 64 8 m64x8 M 64 8);
        $m!($x i8x4 I 8 4 i128x4 I 128 4);
        $m!($x u8x4 U 8 4 i128x4 I 128 4);
        $m!($x m8x4 M 8 4 i128x4 I 128 4);
        $m!($x i16x4 I 16 4 i128x4 I 128 4);
        $m!($x u16x4 U 16 4 i128x4 I 128 4);
        $m!($x m16x4 M 16 4 i128x4 I 128 4);
        $m!($x i32x4 I 32 4 i128x4 I 128 4);
        $m!($x u32x4 U 32 4 i128x4 I 128 4);
        $m!($x f32x4 F 32 4 i128x4 I 128 4);
        $m!($x m32x4 M 32 4 i128x4 I 128 4);
        $m!($x i64x4 I 64 4 i128x4 I 128 4);
        $m!($x u64x4 U 64 4 i128x4 I 128 4);
        $m!($x f64x4 F 64 4 i128x4 I 128 4);
        $m!($x m64x4 M 64 4 i128x4 I 128 4);
        $m!($x u128x4 U 128 4 i128x4 I 128 4);
        $m!($x m128x4 M 128 4 i128x4 I 128 4);
        $m!($x isizex4 I 64 4 i128x4 I 128 4);
        $m!($x usizex4 U 64 4 i128x4 I 128 4);
        $m!($x msizex4 M 64 4 i128x4 I 128 4);
        $m!($x i8x4 I 8 4 u128x4 U 128 4);
        $m!($x u8x4 U 8 4 u128x4 U 128 4);
        $m!($x m8x4 M 8 4 u128x4 U 128 4);
        $m!($x i16x4 I 16 4 u128x4 U 128 4);
        $m!($x u16x4 U 16 4 u128x4 U 128 4);
        $m!($x m16x4 M 16 4 u128x4 U 128 4);
        $m!($x i32x4 I 32 4 u128x4 U 128 4);
        $m!($x u32x4 U 32 4 u128x4 U 128 4);
        $m!($x f32x4 F 32 4 u128x4 U 128 4);
        $m!($x m32x4 M 32 4 u128x4 U 128 4);
        $m!($x i64x4 I 64 4 u128x4 U 128 4);
        $m!($x u64x4 U 64 4 u128x4 U 128 4);
        $m!($x f64x4 F 64 4 u128x4 U 128 4);
        $m!($x m64x4 M 64 4 u128x4 U 128 4);
        $m!($x i128x4 I 128 4 u128x4 U 128 4);
        $m!($x m128x4 M 128 4 u128x4 U 128 4);
        $m!($x isizex4 I 64 4 u128x4 U 128 4);
        $m!($x usizex4 U 64 4 u128x4 U 128 4);
        $m!($x msizex4 M 64 4 u128x4 U 128 4);
        $m!($x i8x4 I 8 4 m128x4 M 128 4);
        $m!($x u8x4 U 8 4 m128x4 M 128 4);
        $m!($x m8x4 M 8 4 m128x4 M 128 4);
        $m!($x i16x4 I 16 4 m128x4 M 128 4);
        $m!($x u16x4 U 16 4 m128x4 M 128 4);
        $m!($x m16x4 M 16 4 m128x4 M 128 4);
        $m!($x i32x4 I 32 4 m128x4 M 128 4);
        $m!($x u32x4 U 32 4 m128x4 M 128 4);
        $m!($x f32x4 F 32 4 m128x4 M 128 4);
        $m!($x m32x4 M 32 4 m128x4 M 128 4);
        $m!($x i64x4 I 64 4 m128x4 M 128 4);
        $m!($x u64x4 U 64 4 m128x4 M 128 4);
        $m!($x m64x4 M 64 4 m128x4 M 128 4);
        $m!($x f64x4 F 64 4 m128x4 M 128 4);
        $m!($x i128x4 I 128 4 m128x4 M 128 4);
        $m!($x u128x4 U 128 4 m128x4 M 128 4);
        $m!($x isizex4 I 64 4 m128x4 M 128 4);
        $m!($x usizex4 U 64 4 m128x4 M 128 4);
        $m!($x msizex4 M 64 4 m128x4 M 128 4);
        $m!($x i8x8 I 8 8 isizex8 I 64 8);
        $m!($x u8x8 U 8 8 isizex8 I 64 8);
        $m!($x m8x8 M 8 8 isizex8 I 64 8);
        $m!($x i16x8 I 16 8 isizex8 I 64 8);
        $m!($x u16x8 U 16 8 isizex8 I 64 8);
        $m!($x m16x8 M 16 8 isizex8 I 64 8);
        $m!($x i32x8 I 32 8 isizex8 I 64 8);
        $m!($x u32x8 U 32 8 isizex8 I 64 8);
        $m!($x f32x8 F 32 8 isizex8 I 64 8);
        $m!($x m32x8 M 32 8 isizex8 I 64 8);
        $m!($x i64x8 I 64 8 isizex8 I 64 8);
        $m!($x u64x8 U 64 8 isizex8 I 64 8);
        $m!($x f64x8 F 64 8 isizex8 I 64 8);
        $m!($x m64x8 M 64 8 isizex8 I 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x usizex8 U 64 8 isizex8 I 64 8);
        $m!($x msizex8 M 64 8 isizex8 I 64 8);
        $m!($x i8x8 I 8 8 usizex8 U 64 8);
        $m!($x u8x8 U 8 8 usizex8 U 64 8);
        $m!($x m8x8 M 8 8 usizex8 U 64 8);
        $m!($x i16x8 I 16 8 usizex8 U 64 8);
        $m!($x u16x8 U 16 8 usizex8 U 64 8);
        $m!($x m16x8 M 16 8 usizex8 U 64 8);
        $m!($x i32x8 I 32 8 usizex8 U 64 8);
        $m!($x u32x8 U 32 8 usizex8 U 64 8);
        $m!($x f32x8 F 32 8 usizex8 U 64 8);
        $m!($x m32x8 M 32 8 usizex8 U 64 8);
        $m!($x i64x8 I 64 8 usizex8 U 64 8);
        $m!($x u64x8 U 64 8 usizex8 U 64 8);
        $m!($x f64x8 F 64 8 usizex8 U 64 8);
        $m!($x m64x8 M 64 8 usizex8 U 64 8);
        $m!($x isizex8 I 64 8 usizex8 U 64 8);
        $m!($x msizex8 M 64 8 usizex8 U 64 8);
        $m!($x i8x8 I 8 8 msizex8 M 64 8);
        $m!($x u8x8 U 8 8 msizex8 M 64 8);
        $m!($x m8x8 M 8 8 msizex8 M 64 8);
        $m!($x i16x8 I 16 8 msizex8 M 64 8);
        $m!($x u16x8 U 16 8 msizex8 M 64 8);
        $m!($x m16x8 M 16 8 msizex8 M 64 8);
        $m!($x i32x8 I 32 8 msizex8 M 64 8);
        $m!($x u32x8 U 32 8 msizex8 M 64 8);
        $m!($x f32x8 F 32 8 msizex8 M 64 8);
        $m!($x m32x8 M 32 8 msizex8 M 64 8);
        $m!($x i64x8 I 64 8 msizex8 M 64 8);
        $m!($x u64x8 U 64 8 msizex8 M 64 8);
        $m!($x f64x8 F 64 8 msizex8 M 64 8);
        $m!($x m64x8 M 64 8 msizex8 M 64 8);
        $m!($x isizex8 I 64 8 msizex8 M 64 8);
        $m!($x usizex8 U 64 8 msizex8 M 64 8);
        $m!($x u8x8 U 8 8 i8x8 I 8 8);
        $m!($x m8x8 M 8 8 i8x8 I 8 8);
        $m!($x i16x8 I 16 8 i8x8 I 8 8);
        $m!($x u16x8 U 16 8 i8x8 I 8 8);
        $m!($x m16x8 M 16 8 i8x8 I 8 8);
        $m!($x i32x8 I 32 8 i8x8 I 8 8);
        $m!($x u32x8 U 32 8 i8x8 I 8 8);
        $m!($x f32x8 F 32 8 i8x8 I 8 8);
        $m!($x m32x8 M 32 8 i8x8 I 8 8);
        $m!($x i64x8 I 64 8 i8x8 I 8 8);
        $m!($x u64x8 U 64 8 i8x8 I 8 8);
        $m!($x f64x8 F 64 8 i8x8 I 8 8);
        $m!($x m64x8 M 64 8 i8x8 I 8 8);
        $m!($x isizex8 I 64 8 i8x8 I 8 8);
        $m!($x usizex8 U 64 8 i8x8 I 8 8);
        $m!($x msizex8 M 64 8 i8x8 I 8 8);
        $m!($x i8x8 I 8 8 u8x8 U 8 8);
        $m!($x m8x8 M 8 8 u8x8 U 8 8);
        $m!($x i16x8 I 16 8 u8x8 U 8 8);
        $m!($x u16x8 U 16 8 u8x8 U 8 8);
        $m!($x m16x8 M 16 8 u8x8 U 8 8);
        $m!($x i32x8 I 32 8 u8x8 U 8 8);
        $m!($x u32x8 U 32 8 u8x8 U 8 8);
        $m!($x f32x8 F 32 8 u8x8 U 8 8);
        $m!($x m32x8 M 32 8 u8x8 U 8 8);
        $m!($x i64x8 I 64 8 u8x8 U 8 8);
        $m!($x u64x8 U 64 8 u8x8 U 8 8);
        $m!($x f64x8 F 64 8 u8x8 U 8 8);
        $m!($x m64x8 M 64 8 u8x8 U 8 8);
        $m!($x isizex8 I 64 8 u8x8 U 8 8);
        $m!($x usizex8 U 64 8 u8x8 U 8 8);
        $m!($x msizex8 M 64 8 u8x8 U 8 8);
        $m!($x i8x8 I 8 8 m8x8 M 8 8);
        $m!($x u8x8 U 8 8 m8x8 M 8 8);
        $m!($x i16x8 I 16 8 m8x8 M 8 8);
        $m!($x u16x8 U 16 8 m8x8 M 8 8);
        $m!($x m16x8 M 16 8 m8x8 M 8 8);
        $m!($x i32x8 I 32 8 m8x8 M 8 8);
        $m!($x u32x8 U 32 8 m8x8 M 8 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f32x8 F 32 8 m8x8 M 8 8);
        $m!($x m32x8 M 32 8 m8x8 M 8 8);
        $m!($x i64x8 I 64 8 m8x8 M 8 8);
        $m!($x u64x8 U 64 8 m8x8 M 8 8);
        $m!($x f64x8 F 64 8 m8x8 M 8 8);
        $m!($x m64x8 M 64 8 m8x8 M 8 8);
        $m!($x isizex8 I 64 8 m8x8 M 8 8);
        $m!($x usizex8 U 64 8 m8x8 M 8 8);
        $m!($x msizex8 M 64 8 m8x8 M 8 8);
        $m!($x i8x4 I 8 4 i16x4 I 16 4);
        $m!($x u8x4 U 8 4 i16x4 I 16 4);
        $m!($x m8x4 M 8 4 i16x4 I 16 4);
        $m!($x u16x4 U 16 4 i16x4 I 16 4);
        $m!($x m16x4 M 16 4 i16x4 I 16 4);
        $m!($x i32x4 I 32 4 i16x4 I 16 4);
        $m!($x u32x4 U 32 4 i16x4 I 16 4);
        $m!($x f32x4 F 32 4 i16x4 I 16 4);
        $m!($x m32x4 M 32 4 i16x4 I 16 4);
        $m!($x i64x4 I 64 4 i16x4 I 16 4);
        $m!($x u64x4 U 64 4 i16x4 I 16 4);
        $m!($x f64x4 F 64 4 i16x4 I 16 4);
        $m!($x m64x4 M 64 4 i16x4 I 16 4);
        $m!($x i128x4 I 128 4 i16x4 I 16 4);
        $m!($x u128x4 U 128 4 i16x4 I 16 4);
        $m!($x m128x4 M 128 4 i16x4 I 16 4);
        $m!($x isizex4 I 64 4 i16x4 I 16 4);
        $m!($x usizex4 U 64 4 i16x4 I 16 4);
        $m!($x msizex4 M 64 4 i16x4 I 16 4);
        $m!($x i8x4 I 8 4 u16x4 U 16 4);
        $m!($x u8x4 U 8 4 u16x4 U 16 4);
        $m!($x m8x4 M 8 4 u16x4 U 16 4);
        $m!($x i16x4 I 16 4 u16x4 U 16 4);
        $m!($x m16x4 M 16 4 u16x4 U 16 4);
        $m!($x i32x4 I 32 4 u16x4 U 16 4);
        $m!($x u32x4 U 32 4 u16x4 U 16 4);
        $m!($x f32x4 F 32 4 u16x4 U 16 4);
        $m!($x m32x4 M 32 4 u16x4 U 16 4);
        $m!($x i64x4 I 64 4 u16x4 U 16 4);
        $m!($x u64x4 U 64 4 u16x4 U 16 4);
        $m!($x f64x4 F 64 4 u16x4 U 16 4);
        $m!($x m64x4 M 64 4 u16x4 U 16 4);
        $m!($x i128x4 I 128 4 u16x4 U 16 4);
        $m!($x u128x4 U 128 4 u16x4 U 16 4);
        $m!($x m128x4 M 128 4 u16x4 U 16 4);
        $m!($x isizex4 I 64 4 u16x4 U 16 4);
        $m!($x usizex4 U 64 4 u16x4 U 16 4);
        $m!($x msizex4 M 64 4 u16x4 U 16 4);
        $m!($x i8x4 I 8 4 m16x4 M 16 4);
        $m!($x u8x4 U 8 4 m16x4 M 16 4);
        $m!($x m8x4 M 8 4 m16x4 M 16 4);
        $m!($x i16x4 I 16 4 m16x4 M 16 4);
        $m!($x u16x4 U 16 4 m16x4 M 16 4);
        $m!($x i32x4 I 32 4 m16x4 M 16 4);
        $m!($x u32x4 U 32 4 m16x4 M 16 4);
        $m!($x f32x4 F 32 4 m16x4 M 16 4);
        $m!($x m32x4 M 32 4 m16x4 M 16 4);
        $m!($x i64x4 I 64 4 m16x4 M 16 4);
        $m!($x u64x4 U 64 4 m16x4 M 16 4);
        $m!($x f64x4 F 64 4 m16x4 M 16 4);
        $m!($x m64x4 M 64 4 m16x4 M 16 4);
        $m!($x i128x4 I 128 4 m16x4 M 16 4);
        $m!($x u128x4 U 128 4 m16x4 M 16 4);
        $m!($x m128x4 M 128 4 m16x4 M 16 4);
        $m!($x isizex4 I 64 4 m16x4 M 16 4);
        $m!($x usizex4 U 64 4 m16x4 M 16 4);
        $m!($x msizex4 M 64 4 m16x4 M 16 4);
        $m!($x i8x2 I 8 2 i32x2 I 32 2);
        $m!($x u8x2 U 8 2 i32x2 I 32 2);
        $m!($x m8x2 M 8 2 i32x2 I 32 2);
        $m!($x i16x2 I 16 2 i32x2 I 32 2);
        $m!($x u16x2 U 16 2 i32x2 I 32 2);
        $m!($x m16x2 M 16 2 i32x2 I 32 2);
        $m!($x u32x2 U 32 2 i32x2 I 32 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f32x2 F 32 2 i32x2 I 32 2);
        $m!($x m32x2 M 32 2 i32x2 I 32 2);
        $m!($x i64x2 I 64 2 i32x2 I 32 2);
        $m!($x u64x2 U 64 2 i32x2 I 32 2);
        $m!($x f64x2 F 64 2 i32x2 I 32 2);
        $m!($x m64x2 M 64 2 i32x2 I 32 2);
        $m!($x i128x2 I 128 2 i32x2 I 32 2);
        $m!($x u128x2 U 128 2 i32x2 I 32 2);
        $m!($x m128x2 M 128 2 i32x2 I 32 2);
        $m!($x isizex2 I 64 2 i32x2 I 32 2);
        $m!($x usizex2 U 64 2 i32x2 I 32 2);
        $m!($x msizex2 M 64 2 i32x2 I 32 2);
        $m!($x i8x2 I 8 2 u32x2 U 32 2);
        $m!($x u8x2 U 8 2 u32x2 U 32 2);
        $m!($x m8x2 M 8 2 u32x2 U 32 2);
        $m!($x i16x2 I 16 2 u32x2 U 32 2);
        $m!($x u16x2 U 16 2 u32x2 U 32 2);
        $m!($x m16x2 M 16 2 u32x2 U 32 2);
        $m!($x i32x2 I 32 2 u32x2 U 32 2);
        $m!($x f32x2 F 32 2 u32x2 U 32 2);
        $m!($x m32x2 M 32 2 u32x2 U 32 2);
        $m!($x i64x2 I 64 2 u32x2 U 32 2);
        $m!($x u64x2 U 64 2 u32x2 U 32 2);
        $m!($x f64x2 F 64 2 u32x2 U 32 2);
        $m!($x m64x2 M 64 2 u32x2 U 32 2);
        $m!($x i128x2 I 128 2 u32x2 U 32 2);
        $m!($x u128x2 U 128 2 u32x2 U 32 2);
        $m!($x m128x2 M 128 2 u32x2 U 32 2);
        $m!($x isizex2 I 64 2 u32x2 U 32 2);
        $m!($x usizex2 U 64 2 u32x2 U 32 2);
        $m!($x msizex2 M 64 2 u32x2 U 32 2);
        $m!($x i8x2 I 8 2 f32x2 F 32 2);
        $m!($x u8x2 U 8 2 f32x2 F 32 2);
        $m!($x m8x2 M 8 2 f32x2 F 32 2);
        $m!($x i16x2 I 16 2 f32x2 F 32 2);
        $m!($x u16x2 U 16 2 f32x2 F 32 2);
        $m!($x m16x2 M 16 2 f32x2 F 32 2);
        $m!($x i32x2 I 32 2 f32x2 F 32 2);
        $m!($x u32x2 U 32 2 f32x2 F 32 2);
        $m!($x m32x2 M 32 2 f32x2 F 32 2);
        $m!($x i64x2 I 64 2 f32x2 F 32 2);
        $m!($x u64x2 U 64 2 f32x2 F 32 2);
        $m!($x f64x2 F 64 2 f32x2 F 32 2);
        $m!($x m64x2 M 64 2 f32x2 F 32 2);
        $m!($x i128x2 I 128 2 f32x2 F 32 2);
        $m!($x u128x2 U 128 2 f32x2 F 32 2);
        $m!($x m128x2 M 128 2 f32x2 F 32 2);
        $m!($x isizex2 I 64 2 f32x2 F 32 2);
        $m!($x usizex2 U 64 2 f32x2 F 32 2);
        $m!($x msizex2 M 64 2 f32x2 F 32 2);
        $m!($x i8x2 I 8 2 m32x2 M 32 2);
        $m!($x u8x2 U 8 2 m32x2 M 32 2);
        $m!($x m8x2 M 8 2 m32x2 M 32 2);
        $m!($x i16x2 I 16 2 m32x2 M 32 2);
        $m!($x u16x2 U 16 2 m32x2 M 32 2);
        $m!($x m16x2 M 16 2 m32x2 M 32 2);
        $m!($x i32x2 I 32 2 m32x2 M 32 2);
        $m!($x u32x2 U 32 2 m32x2 M 32 2);
        $m!($x f32x2 F 32 2 m32x2 M 32 2);
        $m!($x i64x2 I 64 2 m32x2 M 32 2);
        $m!($x u64x2 U 64 2 m32x2 M 32 2);
        $m!($x f64x2 F 64 2 m32x2 M 32 2);
        $m!($x m64x2 M 64 2 m32x2 M 32 2);
        $m!($x i128x2 I 128 2 m32x2 M 32 2);
        $m!($x u128x2 U 128 2 m32x2 M 32 2);
        $m!($x m128x2 M 128 2 m32x2 M 32 2);
        $m!($x isizex2 I 64 2 m32x2 M 32 2);
        $m!($x usizex2 U 64 2 m32x2 M 32 2);
        $m!($x msizex2 M 64 2 m32x2 M 32 2);
        }} x::r($x) }
    };
}
/// same for From
#[macro_export]
macro_rules! from_pairs {
    ($m:ident $x:ident) => {
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x16 M 16 16 m8x16 M 8 16);
        $m!($x i8x8 I 8 8 i16x8 I 16 8);
        $m!($x u8x8 U 8 8 i16x8 I 16 8);
        $m!($x u8x8 U 8 8 u16x8 U 16 8);
        $m!($x m8x8 M 8 8 m16x8 M 16 8);
        $m!($x m32x8 M 32 8 m16x8 M 16 8);
        $m!($x i8x4 I 8 4 i32x4 I 32 4);
        $m!($x u8x4 U 8 4 i32x4 I 32 4);
        $m!($x i16x4 I 16 4 i32x4 I 32 4);
        $m!($x u16x4 U 16 4 i32x4 I 32 4);
        $m!($x u8x4 U 8 4 u32x4 U 32 4);
        $m!($x u16x4 U 16 4 u32x4 U 32 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x4 I 8 4 f32x4 F 32 4);
        $m!($x u8x4 U 8 4 f32x4 F 32 4);
        $m!($x i16x4 I 16 4 f32x4 F 32 4);
        $m!($x u16x4 U 16 4 f32x4 F 32 4);
        $m!($x m8x4 M 8 4 m32x4 M 32 4);
        $m!($x m16x4 M 16 4 m32x4 M 32 4);
        $m!($x m64x4 M 64 4 m32x4 M 32 4);
        $m!($x i8x2 I 8 2 i64x2 I 64 2);
        $m!($x u8x2 U 8 2 i64x2 I 64 2);
        $m!($x i16x2 I 16 2 i64x2 I 64 2);
        $m!($x u16x2 U 16 2 i64x2 I 64 2);
        $m!($x i32x2 I 32 2 i64x2 I 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u32x2 U 32 2 i64x2 I 64 2);
        $m!($x u8x2 U 8 2 u64x2 U 64 2);
        $m!($x u16x2 U 16 2 u64x2 U 64 2);
        $m!($x u32x2 U 32 2 u64x2 U 64 2);
        $m!($x i8x2 I 8 2 f64x2 F 64 2);
        $m!($x u8x2 U 8 2 f64x2 F 64 2);
        $m!($x i16x2 I 16 2 f64x2 F 64 2);
        $m!($x u16x2 U 16 2 f64x2 F 64 2);
        $m!($x i32x2 I 32 2 f64x2 F 64 2);
        $m!($x u32x2 U 32 2 f64x2 F 64 2);
        $m!($x f32x2 F 32 2 f64x2 F 64 2);
        $m!($x m8x2 M 8 2 m64x2 M 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x2 M 16 2 m64x2 M 64 2);
        $m!($x m32x2 M 32 2 m64x2 M 64 2);
        $m!($x m128x2 M 128 2 m64x2 M 64 2);
        $m!($x m16x2 M 16 2 m8x2 M 8 2);
        $m!($x m32x2 M 32 2 m8x2 M 8 2);
        $m!($x m64x2 M 64 2 m8x2 M 8 2);
        $m!($x m128x2 M 128 2 m8x2 M 8 2);
        $m!($x i8x16 I 8 16 i16x16 I 16 16);
        $m!($x u8x16 U 8 16 i16x16 I 16 16);
        $m!($x u8x16 U 8 16 u16x16 U 16 16);
        $m!($x m8x16 M 8 16 m16x16 M 16 16);
        $m!($x i8x8 I 8 8 i32x8 I 32 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x8 U 8 8 i32x8 I 32 8);
        $m!($x i16x8 I 16 8 i32x8 I 32 8);
        $m!($x u16x8 U 16 8 i32x8 I 32 8);
        $m!($x u8x8 U 8 8 u32x8 U 32 8);
        $m!($x u16x8 U 16 8 u32x8 U 32 8);
        $m!($x i8x8 I 8 8 f32x8 F 32 8);
        $m!($x u8x8 U 8 8 f32x8 F 32 8);
        $m!($x i16x8 I 16 8 f32x8 F 32 8);
        $m!($x u16x8 U 16 8 f32x8 F 32 8);
        $m!($x m8x8 M 8 8 m32x8 M 32 8);
        $m!($x m16x8 M 16 8 m32x8 M 32 8);
        $m!($x i8x4 I 8 4 i64x4 I 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x4 U 8 4 i64x4 I 64 4);
        $m!($x i16x4 I 16 4 i64x4 I 64 4);
        $m!($x u16x4 U 16 4 i64x4 I 64 4);
        $m!($x i32x4 I 32 4 i64x4 I 64 4);
        $m!($x u32x4 U 32 4 i64x4 I 64 4);
        $m!($x u8x4 U 8 4 u64x4 U 64 4);
        $m!($x u16x4 U 16 4 u64x4 U 64 4);
        $m!($x u32x4 U 32 4 u64x4 U 64 4);
        $m!($x i8x4 I 8 4 f64x4 F 64 4);
        $m!($x u8x4 U 8 4 f64x4 F 64 4);
        $m!($x i16x4 I 16 4 f64x4 F 64 4);
        $m!($x u16x4 U 16 4 f64x4 F 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i32x4 I 32 4 f64x4 F 64 4);
        $m!($x u32x4 U 32 4 f64x4 F 64 4);
        $m!($x f32x4 F 32 4 f64x4 F 64 4);
        $m!($x m8x4 M 8 4 m64x4 M 64 4);
        $m!($x m16x4 M 16 4 m64x4 M 64 4);
        $m!($x m32x4 M 32 4 m64x4 M 64 4);
        $m!($x i8x2 I 8 2 i128x2 I 128 2);
        $m!($x u8x2 U 8 2 i128x2 I 128 2);
        $m!($x i16x2 I 16 2 i128x2 I 128 2);
        $m!($x u16x2 U 16 2 i128x2 I 128 2);
        $m!($x i32x2 I 32 2 i128x2 I 128 2);
        $m!($x u32x2 U 32 2 i128x2 I 128 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i64x2 I 64 2 i128x2 I 128 2);
        $m!($x u64x2 U 64 2 i128x2 I 128 2);
        $m!($x u8x2 U 8 2 u128x2 U 128 2);
        $m!($x u16x2 U 16 2 u128x2 U 128 2);
        $m!($x u32x2 U 32 2 u128x2 U 128 2);
        $m!($x u64x2 U 64 2 u128x2 U 128 2);
        $m!($x m8x2 M 8 2 m128x2 M 128 2);
        $m!($x m16x2 M 16 2 m128x2 M 128 2);
        $m!($x m32x2 M 32 2 m128x2 M 128 2);
        $m!($x m64x2 M 64 2 m128x2 M 128 2);
        $m!($x m16x4 M 16 4 m8x4 M 8 4);
        $m!($x m32x4 M 32 4 m8x4 M 8 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x4 M 64 4 m8x4 M 8 4);
        $m!($x i8x2 I 8 2 i16x2 I 16 2);
        $m!($x u8x2 U 8 2 i16x2 I 16 2);
        $m!($x u8x2 U 8 2 u16x2 U 16 2);
        $m!($x m8x2 M 8 2 m16x2 M 16 2);
        $m!($x m32x2 M 32 2 m16x2 M 16 2);
        $m!($x m64x2 M 64 2 m16x2 M 16 2);
        $m!($x m128x2 M 128 2 m16x2 M 16 2);
        $m!($x i8x32 I 8 32 i16x32 I 16 32);
        $m!($x u8x32 U 8 32 i16x32 I 16 32);
        $m!($x u8x32 U 8 32 u16x32 U 16 32);
        $m!($x m8x32 M 8 32 m16x32 M 16 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x16 I 8 16 i32x16 I 32 16);
        $m!($x u8x16 U 8 16 i32x16 I 32 16);
        $m!($x i16x16 I 16 16 i32x16 I 32 16);
        $m!($x u16x16 U 16 16 i32x16 I 32 16);
        $m!($x u8x16 U 8 16 u32x16 U 32 16);
        $m!($x u16x16 U 16 16 u32x16 U 32 16);
        $m!($x i8x16 I 8 16 f32x16 F 32 16);
        $m!($x u8x16 U 8 16 f32x16 F 32 16);
        $m!($x i16x16 I 16 16 f32x16 F 32 16);
        $m!($x u16x16 U 16 16 f32x16 F 32 16);
        $m!($x m8x16 M 8 16 m32x16 M 32 16);
        $m!($x m16x16 M 16 16 m32x16 M 32 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x8 I 8 8 i64x8 I 64 8);
        $m!($x u8x8 U 8 8 i64x8 I 64 8);
        $m!($x i16x8 I 16 8 i64x8 I 64 8);
        $m!($x u16x8 U 16 8 i64x8 I 64 8);
        $m!($x i32x8 I 32 8 i64x8 I 64 8);
        $m!($x u32x8 U 32 8 i64x8 I 64 8);
        $m!($x u8x8 U 8 8 u64x8 U 64 8);
        $m!($x u16x8 U 16 8 u64x8 U 64 8);
        $m!($x u32x8 U 32 8 u64x8 U 64 8);
        $m!($x i8x8 I 8 8 f64x8 F 64 8);
        $m!($x u8x8 U 8 8 f64x8 F 64 8);
        $m!($x i16x8 I 16 8 f64x8 F 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u16x8 U 16 8 f64x8 F 64 8);
        $m!($x i32x8 I 32 8 f64x8 F 64 8);
        $m!($x u32x8 U 32 8 f64x8 F 64 8);
        $m!($x f32x8 F 32 8 f64x8 F 64 8);
        $m!($x m8x8 M 8 8 m64x8 M 64 8);
        $m!($x m16x8 M 16 8 m64x8 M 64 8);
        $m!($x m32x8 M 32 8 m64x8 M 64 8);
        $m!($x i8x4 I 8 4 i128x4 I 128 4);
        $m!($x u8x4 U 8 4 i128x4 I 128 4);
        $m!($x i16x4 I 16 4 i128x4 I 128 4);
        $m!($x u16x4 U 16 4 i128x4 I 128 4);
        $m!($x i32x4 I 32 4 i128x4 I 128 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u32x4 U 32 4 i128x4 I 128 4);
        $m!($x i64x4 I 64 4 i128x4 I 128 4);
        $m!($x u64x4 U 64 4 i128x4 I 128 4);
        $m!($x u8x4 U 8 4 u128x4 U 128 4);
        $m!($x u16x4 U 16 4 u128x4 U 128 4);
        $m!($x u32x4 U 32 4 u128x4 U 128 4);
        $m!($x u64x4 U 64 4 u128x4 U 128 4);
        $m!($x m8x4 M 8 4 m128x4 M 128 4);
        $m!($x m16x4 M 16 4 m128x4 M 128 4);
        $m!($x m32x4 M 32 4 m128x4 M 128 4);
        $m!($x m64x4 M 64 4 m128x4 M 128 4);
        $m!($x m16x8 M 16 8 m8x8 M 8 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x8 M 32 8 m8x8 M 8 8);
        $m!($x i8x4 I 8 4 i16x4 I 16 4);
        $m!($x u8x4 U 8 4 i16x4 I 16 4);
        $m!($x u8x4 U 8 4 u16x4 U 16 4);
        $m!($x m8x4 M 8 4 m16x4 M 16 4);
        $m!($x m32x4 M 32 4 m16x4 M 16 4);
        $m!($x m64x4 M 64 4 m16x4 M 16 4);
        $m!($x i8x2 I 8 2 i32x2 I 32 2);
        $m!($x u8x2 U 8 2 i32x2 I 32 2);
        $m!($x i16x2 I 16 2 i32x2 I 32 2);
        $m!($x u16x2 U 16 2 i32x2 I 32 2);
        $m!($x u8x2 U 8 2 u32x2 U 32 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u16x2 U 16 2 u32x2 U 32 2);
        $m!($x m8x2 M 8 2 m32x2 M 32 2);
        $m!($x m16x2 M 16 2 m32x2 M 32 2);
        $m!($x m64x2 M 64 2 m32x2 M 32 2);
        $m!($x m128x2 M 128 2 m32x2 M 32 2);
        $m!($x i8x2 I 8 2 f32x2 F 32 2);
        $m!($x u8x2 U 8 2 f32x2 F 32 2);
        $m!($x i16x2 I 16 2 f32x2 F 32 2);
        $m!($x u16x2 U 16 2 f32x2 F 32 2);
        }} x::r($x) }
    };
}
/// same for FromBits
#[macro_export]
macro_rules! bits_pairs {
    ($m:ident $x:ident) => {
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x16 U 8 16 i8x16 I 8 16);
        $m!($x m8x16 M 8 16 i8x16 I 8 16);
        $m!($x i16x8 I 16 8 i8x16 I 8 16);
        $m!($x u16x8 U 16 8 i8x16 I 8 16);
        $m!($x m16x8 M 16 8 i8x16 I 8 16);
        $m!($x i32x4 I 32 4 i8x16 I 8 16);
        $m!($x u32x4 U 32 4 i8x16 I 8 16);
        $m!($x f32x4 F 32 4 i8x16 I 8 16);
        $m!($x m32x4 M 32 4 i8x16 I 8 16);
        $m!($x i64x2 I 64 2 i8x16 I 8 16);
        $m!($x u64x2 U 64 2 i8x16 I 8 16);
        $m!($x f64x2 F 64 2 i8x16 I 8 16);
        $m!($x m64x2 M 64 2 i8x16 I 8 16);
        $m!($x i128x1 I 128 1 i8x16 I 8 16);
        $m!($x u128x1 U 128 1 i8x16 I 8 16);
        $m!($x m128x1 M 128 1 i8x16 I 8 16);
        $m!($x i8x16 I 8 16 u8x16 U 8 16);
        $m!($x m8x16 M 8 16 u8x16 U 8 16);
        $m!($x i16x8 I 16 8 u8x16 U 8 16);
        $m!($x u16x8 U 16 8 u8x16 U 8 16);
        $m!($x m16x8 M 16 8 u8x16 U 8 16);
        $m!($x i32x4 I 32 4 u8x16 U 8 16);
        $m!($x u32x4 U 32 4 u8x16 U 8 16);
        $m!($x f32x4 F 32 4 u8x16 U 8 16);
        $m!($x m32x4 M 32 4 u8x16 U 8 16);
        $m!($x i64x2 I 64 2 u8x16 U 8 16);
        $m!($x u64x2 U 64 2 u8x16 U 8 16);
        $m!($x f64x2 F 64 2 u8x16 U 8 16);
        $m!($x m64x2 M 64 2 u8x16 U 8 16);
        $m!($x i128x1 I 128 1 u8x16 U 8 16);
        $m!($x u128x1 U 128 1 u8x16 U 8 16);
        $m!($x m128x1 M 128 1 u8x16 U 8 16);
        $m!($x m16x8 M 16 8 m8x16 M 8 16);
        $m!($x m32x4 M 32 4 m8x16 M 8 16);
        $m!($x m64x2 M 64 2 m8x16 M 8 16);
        $m!($x m128x1 M 128 1 m8x16 M 8 16);
        $m!($x i8x16 I 8 16 i16x8 I 16 8);
        $m!($x u8x16 U 8 16 i16x8 I 16 8);
        $m!($x m8x16 M 8 16 i16x8 I 16 8);
        $m!($x u16x8 U 16 8 i16x8 I 16 8);
        $m!($x m16x8 M 16 8 i16x8 I 16 8);
        $m!($x i32x4 I 32 4 i16x8 I 16 8);
        $m!($x u32x4 U 32 4 i16x8 I 16 8);
        $m!($x f32x4 F 32 4 i16x8 I 16 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x4 M 32 4 i16x8 I 16 8);
        $m!($x i64x2 I 64 2 i16x8 I 16 8);
        $m!($x u64x2 U 64 2 i16x8 I 16 8);
        $m!($x f64x2 F 64 2 i16x8 I 16 8);
        $m!($x m64x2 M 64 2 i16x8 I 16 8);
        $m!($x i128x1 I 128 1 i16x8 I 16 8);
        $m!($x u128x1 U 128 1 i16x8 I 16 8);
        $m!($x m128x1 M 128 1 i16x8 I 16 8);
        $m!($x i8x16 I 8 16 u16x8 U 16 8);
        $m!($x u8x16 U 8 16 u16x8 U 16 8);
        $m!($x m8x16 M 8 16 u16x8 U 16 8);
        $m!($x i16x8 I 16 8 u16x8 U 16 8);
        $m!($x m16x8 M 16 8 u16x8 U 16 8);
        $m!($x i32x4 I 32 4 u16x8 U 16 8);
        $m!($x u32x4 U 32 4 u16x8 U 16 8);
        $m!($x f32x4 F 32 4 u16x8 U 16 8);
        $m!($x m32x4 M 32 4 u16x8 U 16 8);
        $m!($x i64x2 I 64 2 u16x8 U 16 8);
        $m!($x u64x2 U 64 2 u16x8 U 16 8);
        $m!($x f64x2 F 64 2 u16x8 U 16 8);
        $m!($x m64x2 M 64 2 u16x8 U 16 8);
        $m!($x i128x1 I 128 1 u16x8 U 16 8);
        $m!($x u128x1 U 128 1 u16x8 U 16 8);
        $m!($x m128x1 M 128 1 u16x8 U 16 8);
        $m!($x m32x4 M 32 4 m16x8 M 16 8);
        $m!($x m64x2 M 64 2 m16x8 M 16 8);
        $m!($x m128x1 M 128 1 m16x8 M 16 8);
        $m!($x i8x16 I 8 16 i32x4 I 32 4);
        $m!($x u8x16 U 8 16 i32x4 I 32 4);
        $m!($x m8x16 M 8 16 i32x4 I 32 4);
        $m!($x i16x8 I 16 8 i32x4 I 32 4);
        $m!($x u16x8 U 16 8 i32x4 I 32 4);
        $m!($x m16x8 M 16 8 i32x4 I 32 4);
        $m!($x u32x4 U 32 4 i32x4 I 32 4);
        $m!($x f32x4 F 32 4 i32x4 I 32 4);
        $m!($x m32x4 M 32 4 i32x4 I 32 4);
        $m!($x i64x2 I 64 2 i32x4 I 32 4);
        $m!($x u64x2 U 64 2 i32x4 I 32 4);
        $m!($x f64x2 F 64 2 i32x4 I 32 4);
        $m!($x m64x2 M 64 2 i32x4 I 32 4);
        $m!($x i128x1 I 128 1 i32x4 I 32 4);
        $m!($x u128x1 U 128 1 i32x4 I 32 4);
        $m!($x m128x1 M 128 1 i32x4 I 32 4);
        $m!($x i8x16 I 8 16 u32x4 U 32 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x16 U 8 16 u32x4 U 32 4);
        $m!($x m8x16 M 8 16 u32x4 U 32 4);
        $m!($x i16x8 I 16 8 u32x4 U 32 4);
        $m!($x u16x8 U 16 8 u32x4 U 32 4);
        $m!($x m16x8 M 16 8 u32x4 U 32 4);
        $m!($x i32x4 I 32 4 u32x4 U 32 4);
        $m!($x f32x4 F 32 4 u32x4 U 32 4);
        $m!($x m32x4 M 32 4 u32x4 U 32 4);
        $m!($x i64x2 I 64 2 u32x4 U 32 4);
        $m!($x u64x2 U 64 2 u32x4 U 32 4);
        $m!($x f64x2 F 64 2 u32x4 U 32 4);
        $m!($x m64x2 M 64 2 u32x4 U 32 4);
        $m!($x i128x1 I 128 1 u32x4 U 32 4);
        $m!($x u128x1 U 128 1 u32x4 U 32 4);
        $m!($x m128x1 M 128 1 u32x4 U 32 4);
        $m!($x i8x16 I 8 16 f32x4 F 32 4);
        $m!($x u8x16 U 8 16 f32x4 F 32 4);
        $m!($x m8x16 M 8 16 f32x4 F 32 4);
        $m!($x i16x8 I 16 8 f32x4 F 32 4);
        $m!($x u16x8 U 16 8 f32x4 F 32 4);
        $m!($x m16x8 M 16 8 f32x4 F 32 4);
        $m!($x i32x4 I 32 4 f32x4 F 32 4);
        $m!($x u32x4 U 32 4 f32x4 F 32 4);
        $m!($x m32x4 M 32 4 f32x4 F 32 4);
        $m!($x i64x2 I 64 2 f32x4 F 32 4);
        $m!($x u64x2 U 64 2 f32x4 F 32 4);
        $m!($x f64x2 F 64 2 f32x4 F 32 4);
        $m!($x m64x2 M 64 2 f32x4 F 32 4);
        $m!($x i128x1 I 128 1 f32x4 F 32 4);
        $m!($x u128x1 U 128 1 f32x4 F 32 4);
        $m!($x m128x1 M 128 1 f32x4 F 32 4);
        $m!($x m64x2 M 64 2 m32x4 M 32 4);
        $m!($x m128x1 M 128 1 m32x4 M 32 4);
        $m!($x i8x16 I 8 16 i64x2 I 64 2);
        $m!($x u8x16 U 8 16 i64x2 I 64 2);
        $m!($x m8x16 M 8 16 i64x2 I 64 2);
        $m!($x i16x8 I 16 8 i64x2 I 64 2);
        $m!($x u16x8 U 16 8 i64x2 I 64 2);
        $m!($x m16x8 M 16 8 i64x2 I 64 2);
        $m!($x i32x4 I 32 4 i64x2 I 64 2);
        $m!($x u32x4 U 32 4 i64x2 I 64 2);
        $m!($x f32x4 F 32 4 i64x2 I 64 2);
        $m!($x m32x4 M 32 4 i64x2 I 64 2);
        $m!($x u64x2 U 64 2 i64x2 I 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f64x2 F 64 2 i64x2 I 64 2);
        $m!($x m64x2 M 64 2 i64x2 I 64 2);
        $m!($x i128x1 I 128 1 i64x2 I 64 2);
        $m!($x u128x1 U 128 1 i64x2 I 64 2);
        $m!($x m128x1 M 128 1 i64x2 I 64 2);
        $m!($x i8x16 I 8 16 u64x2 U 64 2);
        $m!($x u8x16 U 8 16 u64x2 U 64 2);
        $m!($x m8x16 M 8 16 u64x2 U 64 2);
        $m!($x i16x8 I 16 8 u64x2 U 64 2);
        $m!($x u16x8 U 16 8 u64x2 U 64 2);
        $m!($x m16x8 M 16 8 u64x2 U 64 2);
        $m!($x i32x4 I 32 4 u64x2 U 64 2);
        $m!($x u32x4 U 32 4 u64x2 U 64 2);
        $m!($x f32x4 F 32 4 u64x2 U 64 2);
        $m!($x m32x4 M 32 4 u64x2 U 64 2);
        $m!($x i64x2 I 64 2 u64x2 U 64 2);
        $m!($x f64x2 F 64 2 u64x2 U 64 2);
        $m!($x m64x2 M 64 2 u64x2 U 64 2);
        $m!($x i128x1 I 128 1 u64x2 U 64 2);
        $m!($x u128x1 U 128 1 u64x2 U 64 2);
        $m!($x m128x1 M 128 1 u64x2 U 64 2);
        $m!($x i8x16 I 8 16 f64x2 F 64 2);
        $m!($x u8x16 U 8 16 f64x2 F 64 2);
        $m!($x m8x16 M 8 16 f64x2 F 64 2);
        $m!($x i16x8 I 16 8 f64x2 F 64 2);
        $m!($x u16x8 U 16 8 f64x2 F 64 2);
        $m!($x m16x8 M 16 8 f64x2 F 64 2);
        $m!($x i32x4 I 32 4 f64x2 F 64 2);
        $m!($x u32x4 U 32 4 f64x2 F 64 2);
        $m!($x f32x4 F 32 4 f64x2 F 64 2);
        $m!($x m32x4 M 32 4 f64x2 F 64 2);
        $m!($x i64x2 I 64 2 f64x2 F 64 2);
        $m!($x u64x2 U 64 2 f64x2 F 64 2);
        $m!($x m64x2 M 64 2 f64x2 F 64 2);
        $m!($x i128x1 I 128 1 f64x2 F 64 2);
        $m!($x u128x1 U 128 1 f64x2 F 64 2);
        $m!($x m128x1 M 128 1 f64x2 F 64 2);
        $m!($x m128x1 M 128 1 m64x2 M 64 2);
        $m!($x i8x16 I 8 16 i128x1 I 128 1);
        $m!($x u8x16 U 8 16 i128x1 I 128 1);
        $m!($x m8x16 M 8 16 i128x1 I 128 1);
        $m!($x i16x8 I 16 8 i128x1 I 128 1);
        $m!($x u16x8 U 16 8 i128x1 I 128 1);
        $m!($x m16x8 M 16 8 i128x1 I 128 1);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i32x4 I 32 4 i128x1 I 128 1);
        $m!($x u32x4 U 32 4 i128x1 I 128 1);
        $m!($x f32x4 F 32 4 i128x1 I 128 1);
        $m!($x m32x4 M 32 4 i128x1 I 128 1);
        $m!($x i64x2 I 64 2 i128x1 I 128 1);
        $m!($x u64x2 U 64 2 i128x1 I 128 1);
        $m!($x f64x2 F 64 2 i128x1 I 128 1);
        $m!($x m64x2 M 64 2 i128x1 I 128 1);
        $m!($x u128x1 U 128 1 i128x1 I 128 1);
        $m!($x m128x1 M 128 1 i128x1 I 128 1);
        $m!($x i8x16 I 8 16 u128x1 U 128 1);
        $m!($x u8x16 U 8 16 u128x1 U 128 1);
        $m!($x m8x16 M 8 16 u128x1 U 128 1);
        $m!($x i16x8 I 16 8 u128x1 U 128 1);
        $m!($x u16x8 U 16 8 u128x1 U 128 1);
        $m!($x m16x8 M 16 8 u128x1 U 128 1);
        $m!($x i32x4 I 32 4 u128x1 U 128 1);
        $m!($x u32x4 U 32 4 u128x1 U 128 1);
        $m!($x f32x4 F 32 4 u128x1 U 128 1);
        $m!($x m32x4 M 32 4 u128x1 U 128 1);
        $m!($x i64x2 I 64 2 u128x1 U 128 1);
        $m!($x u64x2 U 64 2 u128x1 U 128 1);
        $m!($x f64x2 F 64 2 u128x1 U 128 1);
        $m!($x m64x2 M 64 2 u128x1 U 128 1);
        $m!($x i128x1 I 128 1 u128x1 U 128 1);
        $m!($x m128x1 M 128 1 u128x1 U 128 1);
        $m!($x u8x2 U 8 2 i8x2 I 8 2);
        $m!($x m8x2 M 8 2 i8x2 I 8 2);
        $m!($x i8x2 I 8 2 u8x2 U 8 2);
        $m!($x m8x2 M 8 2 u8x2 U 8 2);
        $m!($x u8x32 U 8 32 i8x32 I 8 32);
        $m!($x m8x32 M 8 32 i8x32 I 8 32);
        $m!($x i16x16 I 16 16 i8x32 I 8 32);
        $m!($x u16x16 U 16 16 i8x32 I 8 32);
        $m!($x m16x16 M 16 16 i8x32 I 8 32);
        $m!($x i32x8 I 32 8 i8x32 I 8 32);
        $m!($x u32x8 U 32 8 i8x32 I 8 32);
        $m!($x f32x8 F 32 8 i8x32 I 8 32);
        $m!($x m32x8 M 32 8 i8x32 I 8 32);
        $m!($x i64x4 I 64 4 i8x32 I 8 32);
        $m!($x u64x4 U 64 4 i8x32 I 8 32);
        $m!($x f64x4 F 64 4 i8x32 I 8 32);
        $m!($x m64x4 M 64 4 i8x32 I 8 32);
        $m!($x i128x2 I 128 2 i8x32 I 8 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u128x2 U 128 2 i8x32 I 8 32);
        $m!($x m128x2 M 128 2 i8x32 I 8 32);
        $m!($x i8x32 I 8 32 u8x32 U 8 32);
        $m!($x m8x32 M 8 32 u8x32 U 8 32);
        $m!($x i16x16 I 16 16 u8x32 U 8 32);
        $m!($x u16x16 U 16 16 u8x32 U 8 32);
        $m!($x m16x16 M 16 16 u8x32 U 8 32);
        $m!($x i32x8 I 32 8 u8x32 U 8 32);
        $m!($x u32x8 U 32 8 u8x32 U 8 32);
        $m!($x f32x8 F 32 8 u8x32 U 8 32);
        $m!($x m32x8 M 32 8 u8x32 U 8 32);
        $m!($x i64x4 I 64 4 u8x32 U 8 32);
        $m!($x u64x4 U 64 4 u8x32 U 8 32);
        $m!($x f64x4 F 64 4 u8x32 U 8 32);
        $m!($x m64x4 M 64 4 u8x32 U 8 32);
        $m!($x i128x2 I 128 2 u8x32 U 8 32);
        $m!($x u128x2 U 128 2 u8x32 U 8 32);
        $m!($x m128x2 M 128 2 u8x32 U 8 32);
        $m!($x m16x16 M 16 16 m8x32 M 8 32);
        $m!($x m32x8 M 32 8 m8x32 M 8 32);
        $m!($x m64x4 M 64 4 m8x32 M 8 32);
        $m!($x m128x2 M 128 2 m8x32 M 8 32);
        $m!($x i8x32 I 8 32 i16x16 I 16 16);
        $m!($x u8x32 U 8 32 i16x16 I 16 16);
        $m!($x m8x32 M 8 32 i16x16 I 16 16);
        $m!($x u16x16 U 16 16 i16x16 I 16 16);
        $m!($x m16x16 M 16 16 i16x16 I 16 16);
        $m!($x i32x8 I 32 8 i16x16 I 16 16);
        $m!($x u32x8 U 32 8 i16x16 I 16 16);
        $m!($x f32x8 F 32 8 i16x16 I 16 16);
        $m!($x m32x8 M 32 8 i16x16 I 16 16);
        $m!($x i64x4 I 64 4 i16x16 I 16 16);
        $m!($x u64x4 U 64 4 i16x16 I 16 16);
        $m!($x f64x4 F 64 4 i16x16 I 16 16);
        $m!($x m64x4 M 64 4 i16x16 I 16 16);
        $m!($x i128x2 I 128 2 i16x16 I 16 16);
        $m!($x u128x2 U 128 2 i16x16 I 16 16);
        $m!($x m128x2 M 128 2 i16x16 I 16 16);
        $m!($x i8x32 I 8 32 u16x16 U 16 16);
        $m!($x u8x32 U 8 32 u16x16 U 16 16);
        $m!($x m8x32 M 8 32 u16x16 U 16 16);
        $m!($x i16x16 I 16 16 u16x16 U 16 16);
        $m!($x m16x16 M 16 16 u16x16 U 16 16);
        $m!($x i32x8 I 32 8 u16x16 U 16 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u32x8 U 32 8 u16x16 U 16 16);
        $m!($x f32x8 F 32 8 u16x16 U 16 16);
        $m!($x m32x8 M 32 8 u16x16 U 16 16);
        $m!($x i64x4 I 64 4 u16x16 U 16 16);
        $m!($x u64x4 U 64 4 u16x16 U 16 16);
        $m!($x f64x4 F 64 4 u16x16 U 16 16);
        $m!($x m64x4 M 64 4 u16x16 U 16 16);
        $m!($x i128x2 I 128 2 u16x16 U 16 16);
        $m!($x u128x2 U 128 2 u16x16 U 16 16);
        $m!($x m128x2 M 128 2 u16x16 U 16 16);
        $m!($x m32x8 M 32 8 m16x16 M 16 16);
        $m!($x m64x4 M 64 4 m16x16 M 16 16);
        $m!($x m128x2 M 128 2 m16x16 M 16 16);
        $m!($x i8x32 I 8 32 i32x8 I 32 8);
        $m!($x u8x32 U 8 32 i32x8 I 32 8);
        $m!($x m8x32 M 8 32 i32x8 I 32 8);
        $m!($x i16x16 I 16 16 i32x8 I 32 8);
        $m!($x u16x16 U 16 16 i32x8 I 32 8);
        $m!($x m16x16 M 16 16 i32x8 I 32 8);
        $m!($x u32x8 U 32 8 i32x8 I 32 8);
        $m!($x f32x8 F 32 8 i32x8 I 32 8);
        $m!($x m32x8 M 32 8 i32x8 I 32 8);
        $m!($x i64x4 I 64 4 i32x8 I 32 8);
        $m!($x u64x4 U 64 4 i32x8 I 32 8);
        $m!($x f64x4 F 64 4 i32x8 I 32 8);
        $m!($x m64x4 M 64 4 i32x8 I 32 8);
        $m!($x i128x2 I 128 2 i32x8 I 32 8);
        $m!($x u128x2 U 128 2 i32x8 I 32 8);
        $m!($x m128x2 M 128 2 i32x8 I 32 8);
        $m!($x i8x32 I 8 32 u32x8 U 32 8);
        $m!($x u8x32 U 8 32 u32x8 U 32 8);
        $m!($x m8x32 M 8 32 u32x8 U 32 8);
        $m!($x i16x16 I 16 16 u32x8 U 32 8);
        $m!($x u16x16 U 16 16 u32x8 U 32 8);
        $m!($x m16x16 M 16 16 u32x8 U 32 8);
        $m!($x i32x8 I 32 8 u32x8 U 32 8);
        $m!($x f32x8 F 32 8 u32x8 U 32 8);
        $m!($x m32x8 M 32 8 u32x8 U 32 8);
        $m!($x i64x4 I 64 4 u32x8 U 32 8);
        $m!($x u64x4 U 64 4 u32x8 U 32 8);
        $m!($x f64x4 F 64 4 u32x8 U 32 8);
        $m!($x m64x4 M 64 4 u32x8 U 32 8);
        $m!($x i128x2 I 128 2 u32x8 U 32 8);
        $m!($x u128x2 U 128 2 u32x8 U 32 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m128x2 M 128 2 u32x8 U 32 8);
        $m!($x i8x32 I 8 32 f32x8 F 32 8);
        $m!($x u8x32 U 8 32 f32x8 F 32 8);
        $m!($x m8x32 M 8 32 f32x8 F 32 8);
        $m!($x i16x16 I 16 16 f32x8 F 32 8);
        $m!($x u16x16 U 16 16 f32x8 F 32 8);
        $m!($x m16x16 M 16 16 f32x8 F 32 8);
        $m!($x i32x8 I 32 8 f32x8 F 32 8);
        $m!($x u32x8 U 32 8 f32x8 F 32 8);
        $m!($x m32x8 M 32 8 f32x8 F 32 8);
        $m!($x i64x4 I 64 4 f32x8 F 32 8);
        $m!($x u64x4 U 64 4 f32x8 F 32 8);
        $m!($x f64x4 F 64 4 f32x8 F 32 8);
        $m!($x m64x4 M 64 4 f32x8 F 32 8);
        $m!($x i128x2 I 128 2 f32x8 F 32 8);
        $m!($x u128x2 U 128 2 f32x8 F 32 8);
        $m!($x m128x2 M 128 2 f32x8 F 32 8);
        $m!($x m64x4 M 64 4 m32x8 M 32 8);
        $m!($x m128x2 M 128 2 m32x8 M 32 8);
        $m!($x i8x32 I 8 32 i64x4 I 64 4);
        $m!($x u8x32 U 8 32 i64x4 I 64 4);
        $m!($x m8x32 M 8 32 i64x4 I 64 4);
        $m!($x i16x16 I 16 16 i64x4 I 64 4);
        $m!($x u16x16 U 16 16 i64x4 I 64 4);
        $m!($x m16x16 M 16 16 i64x4 I 64 4);
        $m!($x i32x8 I 32 8 i64x4 I 64 4);
        $m!($x u32x8 U 32 8 i64x4 I 64 4);
        $m!($x f32x8 F 32 8 i64x4 I 64 4);
        $m!($x m32x8 M 32 8 i64x4 I 64 4);
        $m!($x u64x4 U 64 4 i64x4 I 64 4);
        $m!($x f64x4 F 64 4 i64x4 I 64 4);
        $m!($x m64x4 M 64 4 i64x4 I 64 4);
        $m!($x i128x2 I 128 2 i64x4 I 64 4);
        $m!($x u128x2 U 128 2 i64x4 I 64 4);
        $m!($x m128x2 M 128 2 i64x4 I 64 4);
        $m!($x i8x32 I 8 32 u64x4 U 64 4);
        $m!($x u8x32 U 8 32 u64x4 U 64 4);
        $m!($x m8x32 M 8 32 u64x4 U 64 4);
        $m!($x i16x16 I 16 16 u64x4 U 64 4);
        $m!($x u16x16 U 16 16 u64x4 U 64 4);
        $m!($x m16x16 M 16 16 u64x4 U 64 4);
        $m!($x i32x8 I 32 8 u64x4 U 64 4);
        $m!($x u32x8 U 32 8 u64x4 U 64 4);
        $m!($x f32x8 F 32 8 u64x4 U 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x8 M 32 8 u64x4 U 64 4);
        $m!($x i64x4 I 64 4 u64x4 U 64 4);
        $m!($x f64x4 F 64 4 u64x4 U 64 4);
        $m!($x m64x4 M 64 4 u64x4 U 64 4);
        $m!($x i128x2 I 128 2 u64x4 U 64 4);
        $m!($x u128x2 U 128 2 u64x4 U 64 4);
        $m!($x m128x2 M 128 2 u64x4 U 64 4);
        $m!($x i8x32 I 8 32 f64x4 F 64 4);
        $m!($x u8x32 U 8 32 f64x4 F 64 4);
        $m!($x m8x32 M 8 32 f64x4 F 64 4);
        $m!($x i16x16 I 16 16 f64x4 F 64 4);
        $m!($x u16x16 U 16 16 f64x4 F 64 4);
        $m!($x m16x16 M 16 16 f64x4 F 64 4);
        $m!($x i32x8 I 32 8 f64x4 F 64 4);
        $m!($x u32x8 U 32 8 f64x4 F 64 4);
        $m!($x f32x8 F 32 8 f64x4 F 64 4);
        $m!($x m32x8 M 32 8 f64x4 F 64 4);
        $m!($x i64x4 I 64 4 f64x4 F 64 4);
        $m!($x u64x4 U 64 4 f64x4 F 64 4);
        $m!($x m64x4 M 64 4 f64x4 F 64 4);
        $m!($x i128x2 I 128 2 f64x4 F 64 4);
        $m!($x u128x2 U 128 2 f64x4 F 64 4);
        $m!($x m128x2 M 128 2 f64x4 F 64 4);
        $m!($x m128x2 M 128 2 m64x4 M 64 4);
        $m!($x i8x32 I 8 32 i128x2 I 128 2);
        $m!($x u8x32 U 8 32 i128x2 I 128 2);
        $m!($x m8x32 M 8 32 i128x2 I 128 2);
        $m!($x i16x16 I 16 16 i128x2 I 128 2);
        $m!($x u16x16 U 16 16 i128x2 I 128 2);
        $m!($x m16x16 M 16 16 i128x2 I 128 2);
        $m!($x i32x8 I 32 8 i128x2 I 128 2);
        $m!($x u32x8 U 32 8 i128x2 I 128 2);
        $m!($x f32x8 F 32 8 i128x2 I 128 2);
        $m!($x m32x8 M 32 8 i128x2 I 128 2);
        $m!($x i64x4 I 64 4 i128x2 I 128 2);
        $m!($x u64x4 U 64 4 i128x2 I 128 2);
        $m!($x f64x4 F 64 4 i128x2 I 128 2);
        $m!($x m64x4 M 64 4 i128x2 I 128 2);
        $m!($x u128x2 U 128 2 i128x2 I 128 2);
        $m!($x m128x2 M 128 2 i128x2 I 128 2);
        $m!($x i8x32 I 8 32 u128x2 U 128 2);
        $m!($x u8x32 U 8 32 u128x2 U 128 2);
        $m!($x m8x32 M 8 32 u128x2 U 128 2);
        $m!($x i16x16 I 16 16 u128x2 U 128 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u16x16 U 16 16 u128x2 U 128 2);
        $m!($x m16x16 M 16 16 u128x2 U 128 2);
        $m!($x i32x8 I 32 8 u128x2 U 128 2);
        $m!($x u32x8 U 32 8 u128x2 U 128 2);
        $m!($x f32x8 F 32 8 u128x2 U 128 2);
        $m!($x m32x8 M 32 8 u128x2 U 128 2);
        $m!($x i64x4 I 64 4 u128x2 U 128 2);
        $m!($x u64x4 U 64 4 u128x2 U 128 2);
        $m!($x f64x4 F 64 4 u128x2 U 128 2);
        $m!($x m64x4 M 64 4 u128x2 U 128 2);
        $m!($x i128x2 I 128 2 u128x2 U 128 2);
        $m!($x m128x2 M 128 2 u128x2 U 128 2);
        $m!($x u8x4 U 8 4 i8x4 I 8 4);
        $m!($x m8x4 M 8 4 i8x4 I 8 4);
        $m!($x i16x2 I 16 2 i8x4 I 8 4);
        $m!($x u16x2 U 16 2 i8x4 I 8 4);
        $m!($x m16x2 M 16 2 i8x4 I 8 4);
        $m!($x i8x4 I 8 4 u8x4 U 8 4);
        $m!($x m8x4 M 8 4 u8x4 U 8 4);
        $m!($x i16x2 I 16 2 u8x4 U 8 4);
        $m!($x u16x2 U 16 2 u8x4 U 8 4);
        $m!($x m16x2 M 16 2 u8x4 U 8 4);
        $m!($x m16x2 M 16 2 m8x4 M 8 4);
        $m!($x i8x4 I 8 4 i16x2 I 16 2);
        $m!($x u8x4 U 8 4 i16x2 I 16 2);
        $m!($x m8x4 M 8 4 i16x2 I 16 2);
        $m!($x u16x2 U 16 2 i16x2 I 16 2);
        $m!($x m16x2 M 16 2 i16x2 I 16 2);
        $m!($x i8x4 I 8 4 u16x2 U 16 2);
        $m!($x u8x4 U 8 4 u16x2 U 16 2);
        $m!($x m8x4 M 8 4 u16x2 U 16 2);
        $m!($x i16x2 I 16 2 u16x2 U 16 2);
        $m!($x m16x2 M 16 2 u16x2 U 16 2);
        $m!($x u8x64 U 8 64 i8x64 I 8 64);
        $m!($x m8x64 M 8 64 i8x64 I 8 64);
        $m!($x i16x32 I 16 32 i8x64 I 8 64);
        $m!($x u16x32 U 16 32 i8x64 I 8 64);
        $m!($x m16x32 M 16 32 i8x64 I 8 64);
        $m!($x i32x16 I 32 16 i8x64 I 8 64);
        $m!($x u32x16 U 32 16 i8x64 I 8 64);
        $m!($x f32x16 F 32 16 i8x64 I 8 64);
        $m!($x m32x16 M 32 16 i8x64 I 8 64);
        $m!($x i64x8 I 64 8 i8x64 I 8 64);
        $m!($x u64x8 U 64 8 i8x64 I 8 64);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f64x8 F 64 8 i8x64 I 8 64);
        $m!($x m64x8 M 64 8 i8x64 I 8 64);
        $m!($x i128x4 I 128 4 i8x64 I 8 64);
        $m!($x u128x4 U 128 4 i8x64 I 8 64);
        $m!($x m128x4 M 128 4 i8x64 I 8 64);
        $m!($x i8x64 I 8 64 u8x64 U 8 64);
        $m!($x m8x64 M 8 64 u8x64 U 8 64);
        $m!($x i16x32 I 16 32 u8x64 U 8 64);
        $m!($x u16x32 U 16 32 u8x64 U 8 64);
        $m!($x m16x32 M 16 32 u8x64 U 8 64);
        $m!($x i32x16 I 32 16 u8x64 U 8 64);
        $m!($x u32x16 U 32 16 u8x64 U 8 64);
        $m!($x f32x16 F 32 16 u8x64 U 8 64);
        $m!($x m32x16 M 32 16 u8x64 U 8 64);
        $m!($x i64x8 I 64 8 u8x64 U 8 64);
        $m!($x u64x8 U 64 8 u8x64 U 8 64);
        $m!($x f64x8 F 64 8 u8x64 U 8 64);
        $m!($x m64x8 M 64 8 u8x64 U 8 64);
        $m!($x i128x4 I 128 4 u8x64 U 8 64);
        $m!($x u128x4 U 128 4 u8x64 U 8 64);
        $m!($x m128x4 M 128 4 u8x64 U 8 64);
        $m!($x m16x32 M 16 32 m8x64 M 8 64);
        $m!($x m32x16 M 32 16 m8x64 M 8 64);
        $m!($x m64x8 M 64 8 m8x64 M 8 64);
        $m!($x m128x4 M 128 4 m8x64 M 8 64);
        $m!($x i8x64 I 8 64 i16x32 I 16 32);
        $m!($x u8x64 U 8 64 i16x32 I 16 32);
        $m!($x m8x64 M 8 64 i16x32 I 16 32);
        $m!($x u16x32 U 16 32 i16x32 I 16 32);
        $m!($x m16x32 M 16 32 i16x32 I 16 32);
        $m!($x i32x16 I 32 16 i16x32 I 16 32);
        $m!($x u32x16 U 32 16 i16x32 I 16 32);
        $m!($x f32x16 F 32 16 i16x32 I 16 32);
        $m!($x m32x16 M 32 16 i16x32 I 16 32);
        $m!($x i64x8 I 64 8 i16x32 I 16 32);
        $m!($x u64x8 U 64 8 i16x32 I 16 32);
        $m!($x f64x8 F 64 8 i16x32 I 16 32);
        $m!($x m64x8 M 64 8 i16x32 I 16 32);
        $m!($x i128x4 I 128 4 i16x32 I 16 32);
        $m!($x u128x4 U 128 4 i16x32 I 16 32);
        $m!($x m128x4 M 128 4 i16x32 I 16 32);
        $m!($x i8x64 I 8 64 u16x32 U 16 32);
        $m!($x u8x64 U 8 64 u16x32 U 16 32);
        $m!($x m8x64 M 8 64 u16x32 U 16 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i16x32 I 16 32 u16x32 U 16 32);
        $m!($x m16x32 M 16 32 u16x32 U 16 32);
        $m!($x i32x16 I 32 16 u16x32 U 16 32);
        $m!($x u32x16 U 32 16 u16x32 U 16 32);
        $m!($x f32x16 F 32 16 u16x32 U 16 32);
        $m!($x m32x16 M 32 16 u16x32 U 16 32);
        $m!($x i64x8 I 64 8 u16x32 U 16 32);
        $m!($x u64x8 U 64 8 u16x32 U 16 32);
        $m!($x f64x8 F 64 8 u16x32 U 16 32);
        $m!($x m64x8 M 64 8 u16x32 U 16 32);
        $m!($x i128x4 I 128 4 u16x32 U 16 32);
        $m!($x u128x4 U 128 4 u16x32 U 16 32);
        $m!($x m128x4 M 128 4 u16x32 U 16 32);
        $m!($x m32x16 M 32 16 m16x32 M 16 32);
        $m!($x m64x8 M 64 8 m16x32 M 16 32);
        $m!($x m128x4 M 128 4 m16x32 M 16 32);
        $m!($x i8x64 I 8 64 i32x16 I 32 16);
        $m!($x u8x64 U 8 64 i32x16 I 32 16);
        $m!($x m8x64 M 8 64 i32x16 I 32 16);
        $m!($x i16x32 I 16 32 i32x16 I 32 16);
        $m!($x u16x32 U 16 32 i32x16 I 32 16);
        $m!($x m16x32 M 16 32 i32x16 I 32 16);
        $m!($x u32x16 U 32 16 i32x16 I 32 16);
        $m!($x f32x16 F 32 16 i32x16 I 32 16);
        $m!($x m32x16 M 32 16 i32x16 I 32 16);
        $m!($x i64x8 I 64 8 i32x16 I 32 16);
        $m!($x u64x8 U 64 8 i32x16 I 32 16);
        $m!($x f64x8 F 64 8 i32x16 I 32 16);
        $m!($x m64x8 M 64 8 i32x16 I 32 16);
        $m!($x i128x4 I 128 4 i32x16 I 32 16);
        $m!($x u128x4 U 128 4 i32x16 I 32 16);
        $m!($x m128x4 M 128 4 i32x16 I 32 16);
        $m!($x i8x64 I 8 64 u32x16 U 32 16);
        $m!($x u8x64 U 8 64 u32x16 U 32 16);
        $m!($x m8x64 M 8 64 u32x16 U 32 16);
        $m!($x i16x32 I 16 32 u32x16 U 32 16);
        $m!($x u16x32 U 16 32 u32x16 U 32 16);
        $m!($x m16x32 M 16 32 u32x16 U 32 16);
        $m!($x i32x16 I 32 16 u32x16 U 32 16);
        $m!($x f32x16 F 32 16 u32x16 U 32 16);
        $m!($x m32x16 M 32 16 u32x16 U 32 16);
        $m!($x i64x8 I 64 8 u32x16 U 32 16);
        $m!($x u64x8 U 64 8 u32x16 U 32 16);
        $m!($x f64x8 F 64 8 u32x16 U 32 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x8 M 64 8 u32x16 U 32 16);
        $m!($x i128x4 I 128 4 u32x16 U 32 16);
        $m!($x u128x4 U 128 4 u32x16 U 32 16);
        $m!($x m128x4 M 128 4 u32x16 U 32 16);
        $m!($x i8x64 I 8 64 f32x16 F 32 16);
        $m!($x u8x64 U 8 64 f32x16 F 32 16);
        $m!($x m8x64 M 8 64 f32x16 F 32 16);
        $m!($x i16x32 I 16 32 f32x16 F 32 16);
        $m!($x u16x32 U 16 32 f32x16 F 32 16);
        $m!($x m16x32 M 16 32 f32x16 F 32 16);
        $m!($x i32x16 I 32 16 f32x16 F 32 16);
        $m!($x u32x16 U 32 16 f32x16 F 32 16);
        $m!($x m32x16 M 32 16 f32x16 F 32 16);
        $m!($x i64x8 I 64 8 f32x16 F 32 16);
        $m!($x u64x8 U 64 8 f32x16 F 32 16);
        $m!($x f64x8 F 64 8 f32x16 F 32 16);
        $m!($x m64x8 M 64 8 f32x16 F 32 16);
        $m!($x i128x4 I 128 4 f32x16 F 32 16);
        $m!($x u128x4 U 128 4 f32x16 F 32 16);
        $m!($x m128x4 M 128 4 f32x16 F 32 16);
        $m!($x m64x8 M 64 8 m32x16 M 32 16);
        $m!($x m128x4 M 128 4 m32x16 M 32 16);
        $m!($x i8x64 I 8 64 i64x8 I 64 8);
        $m!($x u8x64 U 8 64 i64x8 I 64 8);
        $m!($x m8x64 M 8 64 i64x8 I 64 8);
        $m!($x i16x32 I 16 32 i64x8 I 64 8);
        $m!($x u16x32 U 16 32 i64x8 I 64 8);
        $m!($x m16x32 M 16 32 i64x8 I 64 8);
        $m!($x i32x16 I 32 16 i64x8 I 64 8);
        $m!($x u32x16 U 32 16 i64x8 I 64 8);
        $m!($x f32x16 F 32 16 i64x8 I 64 8);
        $m!($x m32x16 M 32 16 i64x8 I 64 8);
        $m!($x u64x8 U 64 8 i64x8 I 64 8);
        $m!($x f64x8 F 64 8 i64x8 I 64 8);
        $m!($x m64x8 M 64 8 i64x8 I 64 8);
        $m!($x i128x4 I 128 4 i64x8 I 64 8);
        $m!($x u128x4 U 128 4 i64x8 I 64 8);
        $m!($x m128x4 M 128 4 i64x8 I 64 8);
        $m!($x i8x64 I 8 64 u64x8 U 64 8);
        $m!($x u8x64 U 8 64 u64x8 U 64 8);
        $m!($x m8x64 M 8 64 u64x8 U 64 8);
        $m!($x i16x32 I 16 32 u64x8 U 64 8);
        $m!($x u16x32 U 16 32 u64x8 U 64 8);
        $m!($x m16x32 M 16 32 u64x8 U 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i32x16 I 32 16 u64x8 U 64 8);
        $m!($x u32x16 U 32 16 u64x8 U 64 8);
        $m!($x f32x16 F 32 16 u64x8 U 64 8);
        $m!($x m32x16 M 32 16 u64x8 U 64 8);
        $m!($x i64x8 I 64 8 u64x8 U 64 8);
        $m!($x f64x8 F 64 8 u64x8 U 64 8);
        $m!($x m64x8 M 64 8 u64x8 U 64 8);
        $m!($x i128x4 I 128 4 u64x8 U 64 8);
        $m!($x u128x4 U 128 4 u64x8 U 64 8);
        $m!($x m128x4 M 128 4 u64x8 U 64 8);
        $m!($x i8x64 I 8 64 f64x8 F 64 8);
        $m!($x u8x64 U 8 64 f64x8 F 64 8);
        $m!($x m8x64 M 8 64 f64x8 F 64 8);
        $m!($x i16x32 I 16 32 f64x8 F 64 8);
        $m!($x u16x32 U 16 32 f64x8 F 64 8);
        $m!($x m16x32 M 16 32 f64x8 F 64 8);
        $m!($x i32x16 I 32 16 f64x8 F 64 8);
        $m!($x u32x16 U 32 16 f64x8 F 64 8);
        $m!($x f32x16 F 32 16 f64x8 F 64 8);
        $m!($x m32x16 M 32 16 f64x8 F 64 8);
        $m!($x i64x8 I 64 8 f64x8 F 64 8);
        $m!($x u64x8 U 64 8 f64x8 F 64 8);
        $m!($x m64x8 M 64 8 f64x8 F 64 8);
        $m!($x i128x4 I 128 4 f64x8 F 64 8);
        $m!($x u128x4 U 128 4 f64x8 F 64 8);
        $m!($x m128x4 M 128 4 f64x8 F 64 8);
        $m!($x m128x4 M 128 4 m64x8 M 64 8);
        $m!($x i8x64 I 8 64 i128x4 I 128 4);
        $m!($x u8x64 U 8 64 i128x4 I 128 4);
        $m!($x m8x64 M 8 64 i128x4 I 128 4);
        $m!($x i16x32 I 16 32 i128x4 I 128 4);
        $m!($x u16x32 U 16 32 i128x4 I 128 4);
        $m!($x m16x32 M 16 32 i128x4 I 128 4);
        $m!($x i32x16 I 32 16 i128x4 I 128 4);
        $m!($x u32x16 U 32 16 i128x4 I 128 4);
        $m!($x f32x16 F 32 16 i128x4 I 128 4);
        $m!($x m32x16 M 32 16 i128x4 I 128 4);
        $m!($x i64x8 I 64 8 i128x4 I 128 4);
        $m!($x u64x8 U 64 8 i128x4 I 128 4);
        $m!($x f64x8 F 64 8 i128x4 I 128 4);
        $m!($x m64x8 M 64 8 i128x4 I 128 4);
        $m!($x u128x4 U 128 4 i128x4 I 128 4);
        $m!($x m128x4 M 128 4 i128x4 I 128 4);
        $m!($x i8x64 I 8 64 u128x4 U 128 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x64 U 8 64 u128x4 U 128 4);
        $m!($x m8x64 M 8 64 u128x4 U 128 4);
        $m!($x i16x32 I 16 32 u128x4 U 128 4);
        $m!($x u16x32 U 16 32 u128x4 U 128 4);
        $m!($x m16x32 M 16 32 u128x4 U 128 4);
        $m!($x i32x16 I 32 16 u128x4 U 128 4);
        $m!($x u32x16 U 32 16 u128x4 U 128 4);
        $m!($x f32x16 F 32 16 u128x4 U 128 4);
        $m!($x m32x16 M 32 16 u128x4 U 128 4);
        $m!($x i64x8 I 64 8 u128x4 U 128 4);
        $m!($x u64x8 U 64 8 u128x4 U 128 4);
        $m!($x f64x8 F 64 8 u128x4 U 128 4);
        $m!($x m64x8 M 64 8 u128x4 U 128 4);
        $m!($x i128x4 I 128 4 u128x4 U 128 4);
        $m!($x m128x4 M 128 4 u128x4 U 128 4);
        $m!($x u8x8 U 8 8 i8x8 I 8 8);
        $m!($x m8x8 M 8 8 i8x8 I 8 8);
        $m!($x i16x4 I 16 4 i8x8 I 8 8);
        $m!($x u16x4 U 16 4 i8x8 I 8 8);
        $m!($x m16x4 M 16 4 i8x8 I 8 8);
        $m!($x i32x2 I 32 2 i8x8 I 8 8);
        $m!($x u32x2 U 32 2 i8x8 I 8 8);
        $m!($x f32x2 F 32 2 i8x8 I 8 8);
        $m!($x m32x2 M 32 2 i8x8 I 8 8);
        $m!($x i8x8 I 8 8 u8x8 U 8 8);
        $m!($x m8x8 M 8 8 u8x8 U 8 8);
        $m!($x i16x4 I 16 4 u8x8 U 8 8);
        $m!($x u16x4 U 16 4 u8x8 U 8 8);
        $m!($x m16x4 M 16 4 u8x8 U 8 8);
        $m!($x i32x2 I 32 2 u8x8 U 8 8);
        $m!($x u32x2 U 32 2 u8x8 U 8 8);
        $m!($x f32x2 F 32 2 u8x8 U 8 8);
        $m!($x m32x2 M 32 2 u8x8 U 8 8);
        $m!($x m16x4 M 16 4 m8x8 M 8 8);
        $m!($x m32x2 M 32 2 m8x8 M 8 8);
        $m!($x i8x8 I 8 8 i16x4 I 16 4);
        $m!($x u8x8 U 8 8 i16x4 I 16 4);
        $m!($x m8x8 M 8 8 i16x4 I 16 4);
        $m!($x u16x4 U 16 4 i16x4 I 16 4);
        $m!($x m16x4 M 16 4 i16x4 I 16 4);
        $m!($x i32x2 I 32 2 i16x4 I 16 4);
        $m!($x u32x2 U 32 2 i16x4 I 16 4);
        $m!($x f32x2 F 32 2 i16x4 I 16 4);
        $m!($x m32x2 M 32 2 i16x4 I 16 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x8 I 8 8 u16x4 U 16 4);
        $m!($x u8x8 U 8 8 u16x4 U 16 4);
        $m!($x m8x8 M 8 8 u16x4 U 16 4);
        $m!($x i16x4 I 16 4 u16x4 U 16 4);
        $m!($x m16x4 M 16 4 u16x4 U 16 4);
        $m!($x i32x2 I 32 2 u16x4 U 16 4);
        $m!($x u32x2 U 32 2 u16x4 U 16 4);
        $m!($x f32x2 F 32 2 u16x4 U 16 4);
        $m!($x m32x2 M 32 2 u16x4 U 16 4);
        $m!($x m32x2 M 32 2 m16x4 M 16 4);
        $m!($x i8x8 I 8 8 i32x2 I 32 2);
        $m!($x u8x8 U 8 8 i32x2 I 32 2);
        $m!($x m8x8 M 8 8 i32x2 I 32 2);
        $m!($x i16x4 I 16 4 i32x2 I 32 2);
        $m!($x u16x4 U 16 4 i32x2 I 32 2);
        $m!($x m16x4 M 16 4 i32x2 I 32 2);
        $m!($x u32x2 U 32 2 i32x2 I 32 2);
        $m!($x f32x2 F 32 2 i32x2 I 32 2);
        $m!($x m32x2 M 32 2 i32x2 I 32 2);
        $m!($x i8x8 I 8 8 u32x2 U 32 2);
        $m!($x u8x8 U 8 8 u32x2 U 32 2);
        $m!($x m8x8 M 8 8 u32x2 U 32 2);
        $m!($x i16x4 I 16 4 u32x2 U 32 2);
        $m!($x u16x4 U 16 4 u32x2 U 32 2);
        $m!($x m16x4 M 16 4 u32x2 U 32 2);
        $m!($x i32x2 I 32 2 u32x2 U 32 2);
        $m!($x f32x2 F 32 2 u32x2 U 32 2);
        $m!($x m32x2 M 32 2 u32x2 U 32 2);
        $m!($x i8x8 I 8 8 f32x2 F 32 2);
        $m!($x u8x8 U 8 8 f32x2 F 32 2);
        $m!($x m8x8 M 8 8 f32x2 F 32 2);
        $m!($x i16x4 I 16 4 f32x2 F 32 2);
        $m!($x u16x4 U 16 4 f32x2 F 32 2);
        $m!($x m16x4 M 16 4 f32x2 F 32 2);
        $m!($x i32x2 I 32 2 f32x2 F 32 2);
        $m!($x u32x2 U 32 2 f32x2 F 32 2);
        $m!($x m32x2 M 32 2 f32x2 F 32 2);
        }} x::r($x) }
    };
}
/// every (source, mask target) of equal width, implemented or not
#[macro_export]
macro_rules! mask_bits_candidates {
    ($m:ident $x:ident) => {
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x2 I 8 2 m8x2 M 8 2);
        $m!($x u8x2 U 8 2 m8x2 M 8 2);
        $m!($x i8x4 I 8 4 m8x4 M 8 4);
        $m!($x i16x2 I 16 2 m8x4 M 8 4);
        $m!($x u8x4 U 8 4 m8x4 M 8 4);
        $m!($x u16x2 U 16 2 m8x4 M 8 4);
        $m!($x m16x2 M 16 2 m8x4 M 8 4);
        $m!($x i8x8 I 8 8 m8x8 M 8 8);
        $m!($x i16x4 I 16 4 m8x8 M 8 8);
        $m!($x i32x2 I 32 2 m8x8 M 8 8);
        $m!($x u8x8 U 8 8 m8x8 M 8 8);
        $m!($x u16x4 U 16 4 m8x8 M 8 8);
        $m!($x u32x2 U 32 2 m8x8 M 8 8);
        $m!($x f32x2 F 32 2 m8x8 M 8 8);
        $m!($x m16x4 M 16 4 m8x8 M 8 8);
        $m!($x m32x2 M 32 2 m8x8 M 8 8);
        $m!($x i8x16 I 8 16 m8x16 M 8 16);
        $m!($x i16x8 I 16 8 m8x16 M 8 16);
        $m!($x i32x4 I 32 4 m8x16 M 8 16);
        $m!($x i64x2 I 64 2 m8x16 M 8 16);
        $m!($x i128x1 I 128 1 m8x16 M 8 16);
        $m!($x isizex2 I 64 2 m8x16 M 8 16);
        $m!($x u8x16 U 8 16 m8x16 M 8 16);
        $m!($x u16x8 U 16 8 m8x16 M 8 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u32x4 U 32 4 m8x16 M 8 16);
        $m!($x u64x2 U 64 2 m8x16 M 8 16);
        $m!($x u128x1 U 128 1 m8x16 M 8 16);
        $m!($x usizex2 U 64 2 m8x16 M 8 16);
        $m!($x f32x4 F 32 4 m8x16 M 8 16);
        $m!($x f64x2 F 64 2 m8x16 M 8 16);
        $m!($x m16x8 M 16 8 m8x16 M 8 16);
        $m!($x m32x4 M 32 4 m8x16 M 8 16);
        $m!($x m64x2 M 64 2 m8x16 M 8 16);
        $m!($x m128x1 M 128 1 m8x16 M 8 16);
        $m!($x msizex2 M 64 2 m8x16 M 8 16);
        $m!($x i8x32 I 8 32 m8x32 M 8 32);
        $m!($x i16x16 I 16 16 m8x32 M 8 32);
        $m!($x i32x8 I 32 8 m8x32 M 8 32);
        $m!($x i64x4 I 64 4 m8x32 M 8 32);
        $m!($x i128x2 I 128 2 m8x32 M 8 32);
        $m!($x isizex4 I 64 4 m8x32 M 8 32);
        $m!($x u8x32 U 8 32 m8x32 M 8 32);
        $m!($x u16x16 U 16 16 m8x32 M 8 32);
        $m!($x u32x8 U 32 8 m8x32 M 8 32);
        $m!($x u64x4 U 64 4 m8x32 M 8 32);
        $m!($x u128x2 U 128 2 m8x32 M 8 32);
        $m!($x usizex4 U 64 4 m8x32 M 8 32);
        $m!($x f32x8 F 32 8 m8x32 M 8 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f64x4 F 64 4 m8x32 M 8 32);
        $m!($x m16x16 M 16 16 m8x32 M 8 32);
        $m!($x m32x8 M 32 8 m8x32 M 8 32);
        $m!($x m64x4 M 64 4 m8x32 M 8 32);
        $m!($x m128x2 M 128 2 m8x32 M 8 32);
        $m!($x msizex4 M 64 4 m8x32 M 8 32);
        $m!($x i8x64 I 8 64 m8x64 M 8 64);
        $m!($x i16x32 I 16 32 m8x64 M 8 64);
        $m!($x i32x16 I 32 16 m8x64 M 8 64);
        $m!($x i64x8 I 64 8 m8x64 M 8 64);
        $m!($x i128x4 I 128 4 m8x64 M 8 64);
        $m!($x isizex8 I 64 8 m8x64 M 8 64);
        $m!($x u8x64 U 8 64 m8x64 M 8 64);
        $m!($x u16x32 U 16 32 m8x64 M 8 64);
        $m!($x u32x16 U 32 16 m8x64 M 8 64);
        $m!($x u64x8 U 64 8 m8x64 M 8 64);
        $m!($x u128x4 U 128 4 m8x64 M 8 64);
        $m!($x usizex8 U 64 8 m8x64 M 8 64);
        $m!($x f32x16 F 32 16 m8x64 M 8 64);
        $m!($x f64x8 F 64 8 m8x64 M 8 64);
        $m!($x m16x32 M 16 32 m8x64 M 8 64);
        $m!($x m32x16 M 32 16 m8x64 M 8 64);
        $m!($x m64x8 M 64 8 m8x64 M 8 64);
        $m!($x m128x4 M 128 4 m8x64 M 8 64);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x msizex8 M 64 8 m8x64 M 8 64);
        $m!($x i8x4 I 8 4 m16x2 M 16 2);
        $m!($x i16x2 I 16 2 m16x2 M 16 2);
        $m!($x u8x4 U 8 4 m16x2 M 16 2);
        $m!($x u16x2 U 16 2 m16x2 M 16 2);
        $m!($x m8x4 M 8 4 m16x2 M 16 2);
        $m!($x i8x8 I 8 8 m16x4 M 16 4);
        $m!($x i16x4 I 16 4 m16x4 M 16 4);
        $m!($x i32x2 I 32 2 m16x4 M 16 4);
        $m!($x u8x8 U 8 8 m16x4 M 16 4);
        $m!($x u16x4 U 16 4 m16x4 M 16 4);
        $m!($x u32x2 U 32 2 m16x4 M 16 4);
        $m!($x f32x2 F 32 2 m16x4 M 16 4);
        $m!($x m8x8 M 8 8 m16x4 M 16 4);
        $m!($x m32x2 M 32 2 m16x4 M 16 4);
        $m!($x i8x16 I 8 16 m16x8 M 16 8);
        $m!($x i16x8 I 16 8 m16x8 M 16 8);
        $m!($x i32x4 I 32 4 m16x8 M 16 8);
        $m!($x i64x2 I 64 2 m16x8 M 16 8);
        $m!($x i128x1 I 128 1 m16x8 M 16 8);
        $m!($x isizex2 I 64 2 m16x8 M 16 8);
        $m!($x u8x16 U 8 16 m16x8 M 16 8);
        $m!($x u16x8 U 16 8 m16x8 M 16 8);
        $m!($x u32x4 U 32 4 m16x8 M 16 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u64x2 U 64 2 m16x8 M 16 8);
        $m!($x u128x1 U 128 1 m16x8 M 16 8);
        $m!($x usizex2 U 64 2 m16x8 M 16 8);
        $m!($x f32x4 F 32 4 m16x8 M 16 8);
        $m!($x f64x2 F 64 2 m16x8 M 16 8);
        $m!($x m8x16 M 8 16 m16x8 M 16 8);
        $m!($x m32x4 M 32 4 m16x8 M 16 8);
        $m!($x m64x2 M 64 2 m16x8 M 16 8);
        $m!($x m128x1 M 128 1 m16x8 M 16 8);
        $m!($x msizex2 M 64 2 m16x8 M 16 8);
        $m!($x i8x32 I 8 32 m16x16 M 16 16);
        $m!($x i16x16 I 16 16 m16x16 M 16 16);
        $m!($x i32x8 I 32 8 m16x16 M 16 16);
        $m!($x i64x4 I 64 4 m16x16 M 16 16);
        $m!($x i128x2 I 128 2 m16x16 M 16 16);
        $m!($x isizex4 I 64 4 m16x16 M 16 16);
        $m!($x u8x32 U 8 32 m16x16 M 16 16);
        $m!($x u16x16 U 16 16 m16x16 M 16 16);
        $m!($x u32x8 U 32 8 m16x16 M 16 16);
        $m!($x u64x4 U 64 4 m16x16 M 16 16);
        $m!($x u128x2 U 128 2 m16x16 M 16 16);
        $m!($x usizex4 U 64 4 m16x16 M 16 16);
        $m!($x f32x8 F 32 8 m16x16 M 16 16);
        $m!($x f64x4 F 64 4 m16x16 M 16 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m8x32 M 8 32 m16x16 M 16 16);
        $m!($x m32x8 M 32 8 m16x16 M 16 16);
        $m!($x m64x4 M 64 4 m16x16 M 16 16);
        $m!($x m128x2 M 128 2 m16x16 M 16 16);
        $m!($x msizex4 M 64 4 m16x16 M 16 16);
        $m!($x i8x64 I 8 64 m16x32 M 16 32);
        $m!($x i16x32 I 16 32 m16x32 M 16 32);
        $m!($x i32x16 I 32 16 m16x32 M 16 32);
        $m!($x i64x8 I 64 8 m16x32 M 16 32);
        $m!($x i128x4 I 128 4 m16x32 M 16 32);
        $m!($x isizex8 I 64 8 m16x32 M 16 32);
        $m!($x u8x64 U 8 64 m16x32 M 16 32);
        $m!($x u16x32 U 16 32 m16x32 M 16 32);
        $m!($x u32x16 U 32 16 m16x32 M 16 32);
        $m!($x u64x8 U 64 8 m16x32 M 16 32);
        $m!($x u128x4 U 128 4 m16x32 M 16 32);
        $m!($x usizex8 U 64 8 m16x32 M 16 32);
        $m!($x f32x16 F 32 16 m16x32 M 16 32);
        $m!($x f64x8 F 64 8 m16x32 M 16 32);
        $m!($x m8x64 M 8 64 m16x32 M 16 32);
        $m!($x m32x16 M 32 16 m16x32 M 16 32);
        $m!($x m64x8 M 64 8 m16x32 M 16 32);
        $m!($x m128x4 M 128 4 m16x32 M 16 32);
        $m!($x msizex8 M 64 8 m16x32 M 16 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x8 I 8 8 m32x2 M 32 2);
        $m!($x i16x4 I 16 4 m32x2 M 32 2);
        $m!($x i32x2 I 32 2 m32x2 M 32 2);
        $m!($x u8x8 U 8 8 m32x2 M 32 2);
        $m!($x u16x4 U 16 4 m32x2 M 32 2);
        $m!($x u32x2 U 32 2 m32x2 M 32 2);
        $m!($x f32x2 F 32 2 m32x2 M 32 2);
        $m!($x m8x8 M 8 8 m32x2 M 32 2);
        $m!($x m16x4 M 16 4 m32x2 M 32 2);
        $m!($x i8x16 I 8 16 m32x4 M 32 4);
        $m!($x i16x8 I 16 8 m32x4 M 32 4);
        $m!($x i32x4 I 32 4 m32x4 M 32 4);
        $m!($x i64x2 I 64 2 m32x4 M 32 4);
        $m!($x i128x1 I 128 1 m32x4 M 32 4);
        $m!($x isizex2 I 64 2 m32x4 M 32 4);
        $m!($x u8x16 U 8 16 m32x4 M 32 4);
        $m!($x u16x8 U 16 8 m32x4 M 32 4);
        $m!($x u32x4 U 32 4 m32x4 M 32 4);
        $m!($x u64x2 U 64 2 m32x4 M 32 4);
        $m!($x u128x1 U 128 1 m32x4 M 32 4);
        $m!($x usizex2 U 64 2 m32x4 M 32 4);
        $m!($x f32x4 F 32 4 m32x4 M 32 4);
        $m!($x f64x2 F 64 2 m32x4 M 32 4);
        $m!($x m8x16 M 8 16 m32x4 M 32 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x8 M 16 8 m32x4 M 32 4);
        $m!($x m64x2 M 64 2 m32x4 M 32 4);
        $m!($x m128x1 M 128 1 m32x4 M 32 4);
        $m!($x msizex2 M 64 2 m32x4 M 32 4);
        $m!($x i8x32 I 8 32 m32x8 M 32 8);
        $m!($x i16x16 I 16 16 m32x8 M 32 8);
        $m!($x i32x8 I 32 8 m32x8 M 32 8);
        $m!($x i64x4 I 64 4 m32x8 M 32 8);
        $m!($x i128x2 I 128 2 m32x8 M 32 8);
        $m!($x isizex4 I 64 4 m32x8 M 32 8);
        $m!($x u8x32 U 8 32 m32x8 M 32 8);
        $m!($x u16x16 U 16 16 m32x8 M 32 8);
        $m!($x u32x8 U 32 8 m32x8 M 32 8);
        $m!($x u64x4 U 64 4 m32x8 M 32 8);
        $m!($x u128x2 U 128 2 m32x8 M 32 8);
        $m!($x usizex4 U 64 4 m32x8 M 32 8);
        $m!($x f32x8 F 32 8 m32x8 M 32 8);
        $m!($x f64x4 F 64 4 m32x8 M 32 8);
        $m!($x m8x32 M 8 32 m32x8 M 32 8);
        $m!($x m16x16 M 16 16 m32x8 M 32 8);
        $m!($x m64x4 M 64 4 m32x8 M 32 8);
        $m!($x m128x2 M 128 2 m32x8 M 32 8);
        $m!($x msizex4 M 64 4 m32x8 M 32 8);
        $m!($x i8x64 I 8 64 m32x16 M 32 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i16x32 I 16 32 m32x16 M 32 16);
        $m!($x i32x16 I 32 16 m32x16 M 32 16);
        $m!($x i64x8 I 64 8 m32x16 M 32 16);
        $m!($x i128x4 I 128 4 m32x16 M 32 16);
        $m!($x isizex8 I 64 8 m32x16 M 32 16);
        $m!($x u8x64 U 8 64 m32x16 M 32 16);
        $m!($x u16x32 U 16 32 m32x16 M 32 16);
        $m!($x u32x16 U 32 16 m32x16 M 32 16);
        $m!($x u64x8 U 64 8 m32x16 M 32 16);
        $m!($x u128x4 U 128 4 m32x16 M 32 16);
        $m!($x usizex8 U 64 8 m32x16 M 32 16);
        $m!($x f32x16 F 32 16 m32x16 M 32 16);
        $m!($x f64x8 F 64 8 m32x16 M 32 16);
        $m!($x m8x64 M 8 64 m32x16 M 32 16);
        $m!($x m16x32 M 16 32 m32x16 M 32 16);
        $m!($x m64x8 M 64 8 m32x16 M 32 16);
        $m!($x m128x4 M 128 4 m32x16 M 32 16);
        $m!($x msizex8 M 64 8 m32x16 M 32 16);
        $m!($x i8x16 I 8 16 m64x2 M 64 2);
        $m!($x i16x8 I 16 8 m64x2 M 64 2);
        $m!($x i32x4 I 32 4 m64x2 M 64 2);
        $m!($x i64x2 I 64 2 m64x2 M 64 2);
        $m!($x i128x1 I 128 1 m64x2 M 64 2);
        $m!($x isizex2 I 64 2 m64x2 M 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u8x16 U 8 16 m64x2 M 64 2);
        $m!($x u16x8 U 16 8 m64x2 M 64 2);
        $m!($x u32x4 U 32 4 m64x2 M 64 2);
        $m!($x u64x2 U 64 2 m64x2 M 64 2);
        $m!($x u128x1 U 128 1 m64x2 M 64 2);
        $m!($x usizex2 U 64 2 m64x2 M 64 2);
        $m!($x f32x4 F 32 4 m64x2 M 64 2);
        $m!($x f64x2 F 64 2 m64x2 M 64 2);
        $m!($x m8x16 M 8 16 m64x2 M 64 2);
        $m!($x m16x8 M 16 8 m64x2 M 64 2);
        $m!($x m32x4 M 32 4 m64x2 M 64 2);
        $m!($x m128x1 M 128 1 m64x2 M 64 2);
        $m!($x msizex2 M 64 2 m64x2 M 64 2);
        $m!($x i8x32 I 8 32 m64x4 M 64 4);
        $m!($x i16x16 I 16 16 m64x4 M 64 4);
        $m!($x i32x8 I 32 8 m64x4 M 64 4);
        $m!($x i64x4 I 64 4 m64x4 M 64 4);
        $m!($x i128x2 I 128 2 m64x4 M 64 4);
        $m!($x isizex4 I 64 4 m64x4 M 64 4);
        $m!($x u8x32 U 8 32 m64x4 M 64 4);
        $m!($x u16x16 U 16 16 m64x4 M 64 4);
        $m!($x u32x8 U 32 8 m64x4 M 64 4);
        $m!($x u64x4 U 64 4 m64x4 M 64 4);
        $m!($x u128x2 U 128 2 m64x4 M 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x usizex4 U 64 4 m64x4 M 64 4);
        $m!($x f32x8 F 32 8 m64x4 M 64 4);
        $m!($x f64x4 F 64 4 m64x4 M 64 4);
        $m!($x m8x32 M 8 32 m64x4 M 64 4);
        $m!($x m16x16 M 16 16 m64x4 M 64 4);
        $m!($x m32x8 M 32 8 m64x4 M 64 4);
        $m!($x m128x2 M 128 2 m64x4 M 64 4);
        $m!($x msizex4 M 64 4 m64x4 M 64 4);
        $m!($x i8x64 I 8 64 m64x8 M 64 8);
        $m!($x i16x32 I 16 32 m64x8 M 64 8);
        $m!($x i32x16 I 32 16 m64x8 M 64 8);
        $m!($x i64x8 I 64 8 m64x8 M 64 8);
        $m!($x i128x4 I 128 4 m64x8 M 64 8);
        $m!($x isizex8 I 64 8 m64x8 M 64 8);
        $m!($x u8x64 U 8 64 m64x8 M 64 8);
        $m!($x u16x32 U 16 32 m64x8 M 64 8);
        $m!($x u32x16 U 32 16 m64x8 M 64 8);
        $m!($x u64x8 U 64 8 m64x8 M 64 8);
        $m!($x u128x4 U 128 4 m64x8 M 64 8);
        $m!($x usizex8 U 64 8 m64x8 M 64 8);
        $m!($x f32x16 F 32 16 m64x8 M 64 8);
        $m!($x f64x8 F 64 8 m64x8 M 64 8);
        $m!($x m8x64 M 8 64 m64x8 M 64 8);
        $m!($x m16x32 M 16 32 m64x8 M 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x16 M 32 16 m64x8 M 64 8);
        $m!($x m128x4 M 128 4 m64x8 M 64 8);
        $m!($x msizex8 M 64 8 m64x8 M 64 8);
        $m!($x i8x16 I 8 16 m128x1 M 128 1);
        $m!($x i16x8 I 16 8 m128x1 M 128 1);
        $m!($x i32x4 I 32 4 m128x1 M 128 1);
        $m!($x i64x2 I 64 2 m128x1 M 128 1);
        $m!($x i128x1 I 128 1 m128x1 M 128 1);
        $m!($x isizex2 I 64 2 m128x1 M 128 1);
        $m!($x u8x16 U 8 16 m128x1 M 128 1);
        $m!($x u16x8 U 16 8 m128x1 M 128 1);
        $m!($x u32x4 U 32 4 m128x1 M 128 1);
        $m!($x u64x2 U 64 2 m128x1 M 128 1);
        $m!($x u128x1 U 128 1 m128x1 M 128 1);
        $m!($x usizex2 U 64 2 m128x1 M 128 1);
        $m!($x f32x4 F 32 4 m128x1 M 128 1);
        $m!($x f64x2 F 64 2 m128x1 M 128 1);
        $m!($x m8x16 M 8 16 m128x1 M 128 1);
        $m!($x m16x8 M 16 8 m128x1 M 128 1);
        $m!($x m32x4 M 32 4 m128x1 M 128 1);
        $m!($x m64x2 M 64 2 m128x1 M 128 1);
        $m!($x msizex2 M 64 2 m128x1 M 128 1);
        $m!($x i8x32 I 8 32 m128x2 M 128 2);
        $m!($x i16x16 I 16 16 m128x2 M 128 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i32x8 I 32 8 m128x2 M 128 2);
        $m!($x i64x4 I 64 4 m128x2 M 128 2);
        $m!($x i128x2 I 128 2 m128x2 M 128 2);
        $m!($x isizex4 I 64 4 m128x2 M 128 2);
        $m!($x u8x32 U 8 32 m128x2 M 128 2);
        $m!($x u16x16 U 16 16 m128x2 M 128 2);
        $m!($x u32x8 U 32 8 m128x2 M 128 2);
        $m!($x u64x4 U 64 4 m128x2 M 128 2);
        $m!($x u128x2 U 128 2 m128x2 M 128 2);
        $m!($x usizex4 U 64 4 m128x2 M 128 2);
        $m!($x f32x8 F 32 8 m128x2 M 128 2);
        $m!($x f64x4 F 64 4 m128x2 M 128 2);
        $m!($x m8x32 M 8 32 m128x2 M 128 2);
        $m!($x m16x16 M 16 16 m128x2 M 128 2);
        $m!($x m32x8 M 32 8 m128x2 M 128 2);
        $m!($x m64x4 M 64 4 m128x2 M 128 2);
        $m!($x msizex4 M 64 4 m128x2 M 128 2);
        $m!($x i8x64 I 8 64 m128x4 M 128 4);
        $m!($x i16x32 I 16 32 m128x4 M 128 4);
        $m!($x i32x16 I 32 16 m128x4 M 128 4);
        $m!($x i64x8 I 64 8 m128x4 M 128 4);
        $m!($x i128x4 I 128 4 m128x4 M 128 4);
        $m!($x isizex8 I 64 8 m128x4 M 128 4);
        $m!($x u8x64 U 8 64 m128x4 M 128 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u16x32 U 16 32 m128x4 M 128 4);
        $m!($x u32x16 U 32 16 m128x4 M 128 4);
        $m!($x u64x8 U 64 8 m128x4 M 128 4);
        $m!($x u128x4 U 128 4 m128x4 M 128 4);
        $m!($x usizex8 U 64 8 m128x4 M 128 4);
        $m!($x f32x16 F 32 16 m128x4 M 128 4);
        $m!($x f64x8 F 64 8 m128x4 M 128 4);
        $m!($x m8x64 M 8 64 m128x4 M 128 4);
        $m!($x m16x32 M 16 32 m128x4 M 128 4);
        $m!($x m32x16 M 32 16 m128x4 M 128 4);
        $m!($x m64x8 M 64 8 m128x4 M 128 4);
        $m!($x msizex8 M 64 8 m128x4 M 128 4);
        $m!($x i8x16 I 8 16 msizex2 M 64 2);
        $m!($x i16x8 I 16 8 msizex2 M 64 2);
        $m!($x i32x4 I 32 4 msizex2 M 64 2);
        $m!($x i64x2 I 64 2 msizex2 M 64 2);
        $m!($x i128x1 I 128 1 msizex2 M 64 2);
        $m!($x isizex2 I 64 2 msizex2 M 64 2);
        $m!($x u8x16 U 8 16 msizex2 M 64 2);
        $m!($x u16x8 U 16 8 msizex2 M 64 2);
        $m!($x u32x4 U 32 4 msizex2 M 64 2);
        $m!($x u64x2 U 64 2 msizex2 M 64 2);
        $m!($x u128x1 U 128 1 msizex2 M 64 2);
        $m!($x usizex2 U 64 2 msizex2 M 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f32x4 F 32 4 msizex2 M 64 2);
        $m!($x f64x2 F 64 2 msizex2 M 64 2);
        $m!($x m8x16 M 8 16 msizex2 M 64 2);
        $m!($x m16x8 M 16 8 msizex2 M 64 2);
        $m!($x m32x4 M 32 4 msizex2 M 64 2);
        $m!($x m64x2 M 64 2 msizex2 M 64 2);
        $m!($x m128x1 M 128 1 msizex2 M 64 2);
        $m!($x i8x32 I 8 32 msizex4 M 64 4);
        $m!($x i16x16 I 16 16 msizex4 M 64 4);
        $m!($x i32x8 I 32 8 msizex4 M 64 4);
        $m!($x i64x4 I 64 4 msizex4 M 64 4);
        $m!($x i128x2 I 128 2 msizex4 M 64 4);
        $m!($x isizex4 I 64 4 msizex4 M 64 4);
        $m!($x u8x32 U 8 32 msizex4 M 64 4);
        $m!($x u16x16 U 16 16 msizex4 M 64 4);
        $m!($x u32x8 U 32 8 msizex4 M 64 4);
        $m!($x u64x4 U 64 4 msizex4 M 64 4);
        $m!($x u128x2 U 128 2 msizex4 M 64 4);
        $m!($x usizex4 U 64 4 msizex4 M 64 4);
        $m!($x f32x8 F 32 8 msizex4 M 64 4);
        $m!($x f64x4 F 64 4 msizex4 M 64 4);
        $m!($x m8x32 M 8 32 msizex4 M 64 4);
        $m!($x m16x16 M 16 16 msizex4 M 64 4);
        $m!($x m32x8 M 32 8 msizex4 M 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x4 M 64 4 msizex4 M 64 4);
        $m!($x m128x2 M 128 2 msizex4 M 64 4);
        $m!($x i8x64 I 8 64 msizex8 M 64 8);
        $m!($x i16x32 I 16 32 msizex8 M 64 8);
        $m!($x i32x16 I 32 16 msizex8 M 64 8);
        $m!($x i64x8 I 64 8 msizex8 M 64 8);
        $m!($x i128x4 I 128 4 msizex8 M 64 8);
        $m!($x isizex8 I 64 8 msizex8 M 64 8);
        $m!($x u8x64 U 8 64 msizex8 M 64 8);
        $m!($x u16x32 U 16 32 msizex8 M 64 8);
        $m!($x u32x16 U 32 16 msizex8 M 64 8);
        $m!($x u64x8 U 64 8 msizex8 M 64 8);
        $m!($x u128x4 U 128 4 msizex8 M 64 8);
        $m!($x usizex8 U 64 8 msizex8 M 64 8);
        $m!($x f32x16 F 32 16 msizex8 M 64 8);
        $m!($x f64x8 F 64 8 msizex8 M 64 8);
        $m!($x m8x64 M 8 64 msizex8 M 64 8);
        $m!($x m16x32 M 16 32 msizex8 M 64 8);
        $m!($x m32x16 M 32 16 msizex8 M 64 8);
        $m!($x m64x8 M 64 8 msizex8 M 64 8);
        $m!($x m128x4 M 128 4 msizex8 M 64 8);
        }} x::r($x) }
    };
}
/// `m!(args.. mask W N  vec K W N);`
#[macro_export]
macro_rules! select_pairs {
    ($m:ident $x:ident) => {
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m8x2 8 2 i8x2 I 8 2);
        $m!($x m8x2 8 2 i16x2 I 16 2);
        $m!($x m8x2 8 2 i32x2 I 32 2);
        $m!($x m8x2 8 2 i64x2 I 64 2);
        $m!($x m8x2 8 2 i128x2 I 128 2);
        $m!($x m8x2 8 2 isizex2 I 64 2);
        $m!($x m8x2 8 2 u8x2 U 8 2);
        $m!($x m8x2 8 2 u16x2 U 16 2);
        $m!($x m8x2 8 2 u32x2 U 32 2);
        $m!($x m8x2 8 2 u64x2 U 64 2);
        $m!($x m8x2 8 2 u128x2 U 128 2);
        $m!($x m8x2 8 2 usizex2 U 64 2);
        $m!($x m8x2 8 2 f32x2 F 32 2);
        $m!($x m8x2 8 2 f64x2 F 64 2);
        $m!($x m8x2 8 2 m8x2 M 8 2);
        $m!($x m8x2 8 2 m16x2 M 16 2);
        $m!($x m8x2 8 2 m32x2 M 32 2);
        $m!($x m8x2 8 2 m64x2 M 64 2);
        $m!($x m8x2 8 2 m128x2 M 128 2);
        $m!($x m8x2 8 2 msizex2 M 64 2);
        $m!($x m8x4 8 4 i8x4 I 8 4);
        $m!($x m8x4 8 4 i16x4 I 16 4);
        $m!($x m8x4 8 4 i32x4 I 32 4);
        $m!($x m8x4 8 4 i64x4 I 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m8x4 8 4 i128x4 I 128 4);
        $m!($x m8x4 8 4 isizex4 I 64 4);
        $m!($x m8x4 8 4 u8x4 U 8 4);
        $m!($x m8x4 8 4 u16x4 U 16 4);
        $m!($x m8x4 8 4 u32x4 U 32 4);
        $m!($x m8x4 8 4 u64x4 U 64 4);
        $m!($x m8x4 8 4 u128x4 U 128 4);
        $m!($x m8x4 8 4 usizex4 U 64 4);
        $m!($x m8x4 8 4 f32x4 F 32 4);
        $m!($x m8x4 8 4 f64x4 F 64 4);
        $m!($x m8x4 8 4 m8x4 M 8 4);
        $m!($x m8x4 8 4 m16x4 M 16 4);
        $m!($x m8x4 8 4 m32x4 M 32 4);
        $m!($x m8x4 8 4 m64x4 M 64 4);
        $m!($x m8x4 8 4 m128x4 M 128 4);
        $m!($x m8x4 8 4 msizex4 M 64 4);
        $m!($x m8x8 8 8 i8x8 I 8 8);
        $m!($x m8x8 8 8 i16x8 I 16 8);
        $m!($x m8x8 8 8 i32x8 I 32 8);
        $m!($x m8x8 8 8 i64x8 I 64 8);
        $m!($x m8x8 8 8 isizex8 I 64 8);
        $m!($x m8x8 8 8 u8x8 U 8 8);
        $m!($x m8x8 8 8 u16x8 U 16 8);
        $m!($x m8x8 8 8 u32x8 U 32 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m8x8 8 8 u64x8 U 64 8);
        $m!($x m8x8 8 8 usizex8 U 64 8);
        $m!($x m8x8 8 8 f32x8 F 32 8);
        $m!($x m8x8 8 8 f64x8 F 64 8);
        $m!($x m8x8 8 8 m8x8 M 8 8);
        $m!($x m8x8 8 8 m16x8 M 16 8);
        $m!($x m8x8 8 8 m32x8 M 32 8);
        $m!($x m8x8 8 8 m64x8 M 64 8);
        $m!($x m8x8 8 8 msizex8 M 64 8);
        $m!($x m8x16 8 16 i8x16 I 8 16);
        $m!($x m8x16 8 16 i16x16 I 16 16);
        $m!($x m8x16 8 16 i32x16 I 32 16);
        $m!($x m8x16 8 16 u8x16 U 8 16);
        $m!($x m8x16 8 16 u16x16 U 16 16);
        $m!($x m8x16 8 16 u32x16 U 32 16);
        $m!($x m8x16 8 16 f32x16 F 32 16);
        $m!($x m8x16 8 16 m8x16 M 8 16);
        $m!($x m8x16 8 16 m16x16 M 16 16);
        $m!($x m8x16 8 16 m32x16 M 32 16);
        $m!($x m8x32 8 32 i8x32 I 8 32);
        $m!($x m8x32 8 32 i16x32 I 16 32);
        $m!($x m8x32 8 32 u8x32 U 8 32);
        $m!($x m8x32 8 32 u16x32 U 16 32);
        $m!($x m8x32 8 32 m8x32 M 8 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m8x32 8 32 m16x32 M 16 32);
        $m!($x m8x64 8 64 i8x64 I 8 64);
        $m!($x m8x64 8 64 u8x64 U 8 64);
        $m!($x m8x64 8 64 m8x64 M 8 64);
        $m!($x m16x2 16 2 i8x2 I 8 2);
        $m!($x m16x2 16 2 i16x2 I 16 2);
        $m!($x m16x2 16 2 i32x2 I 32 2);
        $m!($x m16x2 16 2 i64x2 I 64 2);
        $m!($x m16x2 16 2 i128x2 I 128 2);
        $m!($x m16x2 16 2 isizex2 I 64 2);
        $m!($x m16x2 16 2 u8x2 U 8 2);
        $m!($x m16x2 16 2 u16x2 U 16 2);
        $m!($x m16x2 16 2 u32x2 U 32 2);
        $m!($x m16x2 16 2 u64x2 U 64 2);
        $m!($x m16x2 16 2 u128x2 U 128 2);
        $m!($x m16x2 16 2 usizex2 U 64 2);
        $m!($x m16x2 16 2 f32x2 F 32 2);
        $m!($x m16x2 16 2 f64x2 F 64 2);
        $m!($x m16x2 16 2 m8x2 M 8 2);
        $m!($x m16x2 16 2 m16x2 M 16 2);
        $m!($x m16x2 16 2 m32x2 M 32 2);
        $m!($x m16x2 16 2 m64x2 M 64 2);
        $m!($x m16x2 16 2 m128x2 M 128 2);
        $m!($x m16x2 16 2 msizex2 M 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x4 16 4 i8x4 I 8 4);
        $m!($x m16x4 16 4 i16x4 I 16 4);
        $m!($x m16x4 16 4 i32x4 I 32 4);
        $m!($x m16x4 16 4 i64x4 I 64 4);
        $m!($x m16x4 16 4 i128x4 I 128 4);
        $m!($x m16x4 16 4 isizex4 I 64 4);
        $m!($x m16x4 16 4 u8x4 U 8 4);
        $m!($x m16x4 16 4 u16x4 U 16 4);
        $m!($x m16x4 16 4 u32x4 U 32 4);
        $m!($x m16x4 16 4 u64x4 U 64 4);
        $m!($x m16x4 16 4 u128x4 U 128 4);
        $m!($x m16x4 16 4 usizex4 U 64 4);
        $m!($x m16x4 16 4 f32x4 F 32 4);
        $m!($x m16x4 16 4 f64x4 F 64 4);
        $m!($x m16x4 16 4 m8x4 M 8 4);
        $m!($x m16x4 16 4 m16x4 M 16 4);
        $m!($x m16x4 16 4 m32x4 M 32 4);
        $m!($x m16x4 16 4 m64x4 M 64 4);
        $m!($x m16x4 16 4 m128x4 M 128 4);
        $m!($x m16x4 16 4 msizex4 M 64 4);
        $m!($x m16x8 16 8 i8x8 I 8 8);
        $m!($x m16x8 16 8 i16x8 I 16 8);
        $m!($x m16x8 16 8 i32x8 I 32 8);
        $m!($x m16x8 16 8 i64x8 I 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x8 16 8 isizex8 I 64 8);
        $m!($x m16x8 16 8 u8x8 U 8 8);
        $m!($x m16x8 16 8 u16x8 U 16 8);
        $m!($x m16x8 16 8 u32x8 U 32 8);
        $m!($x m16x8 16 8 u64x8 U 64 8);
        $m!($x m16x8 16 8 usizex8 U 64 8);
        $m!($x m16x8 16 8 f32x8 F 32 8);
        $m!($x m16x8 16 8 f64x8 F 64 8);
        $m!($x m16x8 16 8 m8x8 M 8 8);
        $m!($x m16x8 16 8 m16x8 M 16 8);
        $m!($x m16x8 16 8 m32x8 M 32 8);
        $m!($x m16x8 16 8 m64x8 M 64 8);
        $m!($x m16x8 16 8 msizex8 M 64 8);
        $m!($x m16x16 16 16 i8x16 I 8 16);
        $m!($x m16x16 16 16 i16x16 I 16 16);
        $m!($x m16x16 16 16 i32x16 I 32 16);
        $m!($x m16x16 16 16 u8x16 U 8 16);
        $m!($x m16x16 16 16 u16x16 U 16 16);
        $m!($x m16x16 16 16 u32x16 U 32 16);
        $m!($x m16x16 16 16 f32x16 F 32 16);
        $m!($x m16x16 16 16 m8x16 M 8 16);
        $m!($x m16x16 16 16 m16x16 M 16 16);
        $m!($x m16x16 16 16 m32x16 M 32 16);
        $m!($x m16x32 16 32 i8x32 I 8 32);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x32 16 32 i16x32 I 16 32);
        $m!($x m16x32 16 32 u8x32 U 8 32);
        $m!($x m16x32 16 32 u16x32 U 16 32);
        $m!($x m16x32 16 32 m8x32 M 8 32);
        $m!($x m16x32 16 32 m16x32 M 16 32);
        $m!($x m32x2 32 2 i8x2 I 8 2);
        $m!($x m32x2 32 2 i16x2 I 16 2);
        $m!($x m32x2 32 2 i32x2 I 32 2);
        $m!($x m32x2 32 2 i64x2 I 64 2);
        $m!($x m32x2 32 2 i128x2 I 128 2);
        $m!($x m32x2 32 2 isizex2 I 64 2);
        $m!($x m32x2 32 2 u8x2 U 8 2);
        $m!($x m32x2 32 2 u16x2 U 16 2);
        $m!($x m32x2 32 2 u32x2 U 32 2);
        $m!($x m32x2 32 2 u64x2 U 64 2);
        $m!($x m32x2 32 2 u128x2 U 128 2);
        $m!($x m32x2 32 2 usizex2 U 64 2);
        $m!($x m32x2 32 2 f32x2 F 32 2);
        $m!($x m32x2 32 2 f64x2 F 64 2);
        $m!($x m32x2 32 2 m8x2 M 8 2);
        $m!($x m32x2 32 2 m16x2 M 16 2);
        $m!($x m32x2 32 2 m32x2 M 32 2);
        $m!($x m32x2 32 2 m64x2 M 64 2);
        $m!($x m32x2 32 2 m128x2 M 128 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x2 32 2 msizex2 M 64 2);
        $m!($x m32x4 32 4 i8x4 I 8 4);
        $m!($x m32x4 32 4 i16x4 I 16 4);
        $m!($x m32x4 32 4 i32x4 I 32 4);
        $m!($x m32x4 32 4 i64x4 I 64 4);
        $m!($x m32x4 32 4 i128x4 I 128 4);
        $m!($x m32x4 32 4 isizex4 I 64 4);
        $m!($x m32x4 32 4 u8x4 U 8 4);
        $m!($x m32x4 32 4 u16x4 U 16 4);
        $m!($x m32x4 32 4 u32x4 U 32 4);
        $m!($x m32x4 32 4 u64x4 U 64 4);
        $m!($x m32x4 32 4 u128x4 U 128 4);
        $m!($x m32x4 32 4 usizex4 U 64 4);
        $m!($x m32x4 32 4 f32x4 F 32 4);
        $m!($x m32x4 32 4 f64x4 F 64 4);
        $m!($x m32x4 32 4 m8x4 M 8 4);
        $m!($x m32x4 32 4 m16x4 M 16 4);
        $m!($x m32x4 32 4 m32x4 M 32 4);
        $m!($x m32x4 32 4 m64x4 M 64 4);
        $m!($x m32x4 32 4 m128x4 M 128 4);
        $m!($x m32x4 32 4 msizex4 M 64 4);
        $m!($x m32x8 32 8 i8x8 I 8 8);
        $m!($x m32x8 32 8 i16x8 I 16 8);
        $m!($x m32x8 32 8 i32x8 I 32 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x8 32 8 i64x8 I 64 8);
        $m!($x m32x8 32 8 isizex8 I 64 8);
        $m!($x m32x8 32 8 u8x8 U 8 8);
        $m!($x m32x8 32 8 u16x8 U 16 8);
        $m!($x m32x8 32 8 u32x8 U 32 8);
        $m!($x m32x8 32 8 u64x8 U 64 8);
        $m!($x m32x8 32 8 usizex8 U 64 8);
        $m!($x m32x8 32 8 f32x8 F 32 8);
        $m!($x m32x8 32 8 f64x8 F 64 8);
        $m!($x m32x8 32 8 m8x8 M 8 8);
        $m!($x m32x8 32 8 m16x8 M 16 8);
        $m!($x m32x8 32 8 m32x8 M 32 8);
        $m!($x m32x8 32 8 m64x8 M 64 8);
        $m!($x m32x8 32 8 msizex8 M 64 8);
        $m!($x m32x16 32 16 i8x16 I 8 16);
        $m!($x m32x16 32 16 i16x16 I 16 16);
        $m!($x m32x16 32 16 i32x16 I 32 16);
        $m!($x m32x16 32 16 u8x16 U 8 16);
        $m!($x m32x16 32 16 u16x16 U 16 16);
        $m!($x m32x16 32 16 u32x16 U 32 16);
        $m!($x m32x16 32 16 f32x16 F 32 16);
        $m!($x m32x16 32 16 m8x16 M 8 16);
        $m!($x m32x16 32 16 m16x16 M 16 16);
        $m!($x m32x16 32 16 m32x16 M 32 16);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x2 64 2 i8x2 I 8 2);
        $m!($x m64x2 64 2 i16x2 I 16 2);
        $m!($x m64x2 64 2 i32x2 I 32 2);
        $m!($x m64x2 64 2 i64x2 I 64 2);
        $m!($x m64x2 64 2 i128x2 I 128 2);
        $m!($x m64x2 64 2 isizex2 I 64 2);
        $m!($x m64x2 64 2 u8x2 U 8 2);
        $m!($x m64x2 64 2 u16x2 U 16 2);
        $m!($x m64x2 64 2 u32x2 U 32 2);
        $m!($x m64x2 64 2 u64x2 U 64 2);
        $m!($x m64x2 64 2 u128x2 U 128 2);
        $m!($x m64x2 64 2 usizex2 U 64 2);
        $m!($x m64x2 64 2 f32x2 F 32 2);
        $m!($x m64x2 64 2 f64x2 F 64 2);
        $m!($x m64x2 64 2 m8x2 M 8 2);
        $m!($x m64x2 64 2 m16x2 M 16 2);
        $m!($x m64x2 64 2 m32x2 M 32 2);
        $m!($x m64x2 64 2 m64x2 M 64 2);
        $m!($x m64x2 64 2 m128x2 M 128 2);
        $m!($x m64x2 64 2 msizex2 M 64 2);
        $m!($x m64x4 64 4 i8x4 I 8 4);
        $m!($x m64x4 64 4 i16x4 I 16 4);
        $m!($x m64x4 64 4 i32x4 I 32 4);
        $m!($x m64x4 64 4 i64x4 I 64 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x4 64 4 i128x4 I 128 4);
        $m!($x m64x4 64 4 isizex4 I 64 4);
        $m!($x m64x4 64 4 u8x4 U 8 4);
        $m!($x m64x4 64 4 u16x4 U 16 4);
        $m!($x m64x4 64 4 u32x4 U 32 4);
        $m!($x m64x4 64 4 u64x4 U 64 4);
        $m!($x m64x4 64 4 u128x4 U 128 4);
        $m!($x m64x4 64 4 usizex4 U 64 4);
        $m!($x m64x4 64 4 f32x4 F 32 4);
        $m!($x m64x4 64 4 f64x4 F 64 4);
        $m!($x m64x4 64 4 m8x4 M 8 4);
        $m!($x m64x4 64 4 m16x4 M 16 4);
        $m!($x m64x4 64 4 m32x4 M 32 4);
        $m!($x m64x4 64 4 m64x4 M 64 4);
        $m!($x m64x4 64 4 m128x4 M 128 4);
        $m!($x m64x4 64 4 msizex4 M 64 4);
        $m!($x m64x8 64 8 i8x8 I 8 8);
        $m!($x m64x8 64 8 i16x8 I 16 8);
        $m!($x m64x8 64 8 i32x8 I 32 8);
        $m!($x m64x8 64 8 i64x8 I 64 8);
        $m!($x m64x8 64 8 isizex8 I 64 8);
        $m!($x m64x8 64 8 u8x8 U 8 8);
        $m!($x m64x8 64 8 u16x8 U 16 8);
        $m!($x m64x8 64 8 u32x8 U 32 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x8 64 8 u64x8 U 64 8);
        $m!($x m64x8 64 8 usizex8 U 64 8);
        $m!($x m64x8 64 8 f32x8 F 32 8);
        $m!($x m64x8 64 8 f64x8 F 64 8);
        $m!($x m64x8 64 8 m8x8 M 8 8);
        $m!($x m64x8 64 8 m16x8 M 16 8);
        $m!($x m64x8 64 8 m32x8 M 32 8);
        $m!($x m64x8 64 8 m64x8 M 64 8);
        $m!($x m64x8 64 8 msizex8 M 64 8);
        $m!($x m128x1 128 1 i128x1 I 128 1);
        $m!($x m128x1 128 1 u128x1 U 128 1);
        $m!($x m128x1 128 1 m128x1 M 128 1);
        $m!($x m128x2 128 2 i8x2 I 8 2);
        $m!($x m128x2 128 2 i16x2 I 16 2);
        $m!($x m128x2 128 2 i32x2 I 32 2);
        $m!($x m128x2 128 2 i64x2 I 64 2);
        $m!($x m128x2 128 2 i128x2 I 128 2);
        $m!($x m128x2 128 2 isizex2 I 64 2);
        $m!($x m128x2 128 2 u8x2 U 8 2);
        $m!($x m128x2 128 2 u16x2 U 16 2);
        $m!($x m128x2 128 2 u32x2 U 32 2);
        $m!($x m128x2 128 2 u64x2 U 64 2);
        $m!($x m128x2 128 2 u128x2 U 128 2);
        $m!($x m128x2 128 2 usizex2 U 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m128x2 128 2 f32x2 F 32 2);
        $m!($x m128x2 128 2 f64x2 F 64 2);
        $m!($x m128x2 128 2 m8x2 M 8 2);
        $m!($x m128x2 128 2 m16x2 M 16 2);
        $m!($x m128x2 128 2 m32x2 M 32 2);
        $m!($x m128x2 128 2 m64x2 M 64 2);
        $m!($x m128x2 128 2 m128x2 M 128 2);
        $m!($x m128x2 128 2 msizex2 M 64 2);
        $m!($x m128x4 128 4 i8x4 I 8 4);
        $m!($x m128x4 128 4 i16x4 I 16 4);
        $m!($x m128x4 128 4 i32x4 I 32 4);
        $m!($x m128x4 128 4 i64x4 I 64 4);
        $m!($x m128x4 128 4 i128x4 I 128 4);
        $m!($x m128x4 128 4 isizex4 I 64 4);
        $m!($x m128x4 128 4 u8x4 U 8 4);
        $m!($x m128x4 128 4 u16x4 U 16 4);
        $m!($x m128x4 128 4 u32x4 U 32 4);
        $m!($x m128x4 128 4 u64x4 U 64 4);
        $m!($x m128x4 128 4 u128x4 U 128 4);
        $m!($x m128x4 128 4 usizex4 U 64 4);
        $m!($x m128x4 128 4 f32x4 F 32 4);
        $m!($x m128x4 128 4 f64x4 F 64 4);
        $m!($x m128x4 128 4 m8x4 M 8 4);
        $m!($x m128x4 128 4 m16x4 M 16 4);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m128x4 128 4 m32x4 M 32 4);
        $m!($x m128x4 128 4 m64x4 M 64 4);
        $m!($x m128x4 128 4 m128x4 M 128 4);
        $m!($x m128x4 128 4 msizex4 M 64 4);
        $m!($x msizex2 64 2 i8x2 I 8 2);
        $m!($x msizex2 64 2 i16x2 I 16 2);
        $m!($x msizex2 64 2 i32x2 I 32 2);
        $m!($x msizex2 64 2 i64x2 I 64 2);
        $m!($x msizex2 64 2 i128x2 I 128 2);
        $m!($x msizex2 64 2 isizex2 I 64 2);
        $m!($x msizex2 64 2 u8x2 U 8 2);
        $m!($x msizex2 64 2 u16x2 U 16 2);
        $m!($x msizex2 64 2 u32x2 U 32 2);
        $m!($x msizex2 64 2 u64x2 U 64 2);
        $m!($x msizex2 64 2 u128x2 U 128 2);
        $m!($x msizex2 64 2 usizex2 U 64 2);
        $m!($x msizex2 64 2 f32x2 F 32 2);
        $m!($x msizex2 64 2 f64x2 F 64 2);
        $m!($x msizex2 64 2 m8x2 M 8 2);
        $m!($x msizex2 64 2 m16x2 M 16 2);
        $m!($x msizex2 64 2 m32x2 M 32 2);
        $m!($x msizex2 64 2 m64x2 M 64 2);
        $m!($x msizex2 64 2 m128x2 M 128 2);
        $m!($x msizex2 64 2 msizex2 M 64 2);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x msizex4 64 4 i8x4 I 8 4);
        $m!($x msizex4 64 4 i16x4 I 16 4);
        $m!($x msizex4 64 4 i32x4 I 32 4);
        $m!($x msizex4 64 4 i64x4 I 64 4);
        $m!($x msizex4 64 4 i128x4 I 128 4);
        $m!($x msizex4 64 4 isizex4 I 64 4);
        $m!($x msizex4 64 4 u8x4 U 8 4);
        $m!($x msizex4 64 4 u16x4 U 16 4);
        $m!($x msizex4 64 4 u32x4 U 32 4);
        $m!($x msizex4 64 4 u64x4 U 64 4);
        $m!($x msizex4 64 4 u128x4 U 128 4);
        $m!($x msizex4 64 4 usizex4 U 64 4);
        $m!($x msizex4 64 4 f32x4 F 32 4);
        $m!($x msizex4 64 4 f64x4 F 64 4);
        $m!($x msizex4 64 4 m8x4 M 8 4);
        $m!($x msizex4 64 4 m16x4 M 16 4);
        $m!($x msizex4 64 4 m32x4 M 32 4);
        $m!($x msizex4 64 4 m64x4 M 64 4);
        $m!($x msizex4 64 4 m128x4 M 128 4);
        $m!($x msizex4 64 4 msizex4 M 64 4);
        $m!($x msizex8 64 8 i8x8 I 8 8);
        $m!($x msizex8 64 8 i16x8 I 16 8);
        $m!($x msizex8 64 8 i32x8 I 32 8);
        $m!($x msizex8 64 8 i64x8 I 64 8);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x msizex8 64 8 isizex8 I 64 8);
        $m!($x msizex8 64 8 u8x8 U 8 8);
        $m!($x msizex8 64 8 u16x8 U 16 8);
        $m!($x msizex8 64 8 u32x8 U 32 8);
        $m!($x msizex8 64 8 u64x8 U 64 8);
        $m!($x msizex8 64 8 usizex8 U 64 8);
        $m!($x msizex8 64 8 f32x8 F 32 8);
        $m!($x msizex8 64 8 f64x8 F 64 8);
        $m!($x msizex8 64 8 m8x8 M 8 8);
        $m!($x msizex8 64 8 m16x8 M 16 8);
        $m!($x msizex8 64 8 m32x8 M 32 8);
        $m!($x msizex8 64 8 m64x8 M 64 8);
        $m!($x msizex8 64 8 msizex8 M 64 8);
        }} x::r($x) }
    };
}
/// `m!(args.. vec K W N arch-type from_only|both);`
#[macro_export]
macro_rules! arch_pairs {
    ($m:ident $x:ident) => {
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i8x16 I 8 16 __m128 both);
        $m!($x i8x16 I 8 16 __m128i both);
        $m!($x i8x16 I 8 16 __m128d both);
        $m!($x i16x8 I 16 8 __m128 both);
        $m!($x i16x8 I 16 8 __m128i both);
        $m!($x i16x8 I 16 8 __m128d both);
        $m!($x i32x4 I 32 4 __m128 both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i32x4 I 32 4 __m128i both);
        $m!($x i32x4 I 32 4 __m128d both);
        $m!($x i64x2 I 64 2 __m128 both);
        $m!($x i64x2 I 64 2 __m128i both);
        $m!($x i64x2 I 64 2 __m128d both);
        $m!($x i128x1 I 128 1 __m128 both);
        $m!($x i128x1 I 128 1 __m128i both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i128x1 I 128 1 __m128d both);
        $m!($x u8x16 U 8 16 __m128 both);
        $m!($x u8x16 U 8 16 __m128i both);
        $m!($x u8x16 U 8 16 __m128d both);
        $m!($x u16x8 U 16 8 __m128 both);
        $m!($x u16x8 U 16 8 __m128i both);
        $m!($x u16x8 U 16 8 __m128d both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u32x4 U 32 4 __m128 both);
        $m!($x u32x4 U 32 4 __m128i both);
        $m!($x u32x4 U 32 4 __m128d both);
        $m!($x u64x2 U 64 2 __m128 both);
        $m!($x u64x2 U 64 2 __m128i both);
        $m!($x u64x2 U 64 2 __m128d both);
        $m!($x u128x1 U 128 1 __m128 both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u128x1 U 128 1 __m128i both);
        $m!($x u128x1 U 128 1 __m128d both);
        $m!($x f32x4 F 32 4 __m128 both);
        $m!($x f32x4 F 32 4 __m128i both);
        $m!($x f32x4 F 32 4 __m128d both);
        $m!($x f64x2 F 64 2 __m128 both);
        $m!($x f64x2 F 64 2 __m128i both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f64x2 F 64 2 __m128d both);
        $m!($x m8x16 M 8 16 __m128 from_only);
        $m!($x m8x16 M 8 16 __m128i from_only);
        $m!($x m8x16 M 8 16 __m128d from_only);
        $m!($x m16x8 M 16 8 __m128 from_only);
        $m!($x m16x8 M 16 8 __m128i from_only);
        $m!($x m16x8 M 16 8 __m128d from_only);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m32x4 M 32 4 __m128 from_only);
        $m!($x m32x4 M 32 4 __m128i from_only);
        $m!($x m32x4 M 32 4 __m128d from_only);
        $m!($x m64x2 M 64 2 __m128 from_only);
        $m!($x m64x2 M 64 2 __m128i from_only);
        $m!($x m64x2 M 64 2 __m128d from_only);
        $m!($x m128x1 M 128 1 __m128 from_only);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m128x1 M 128 1 __m128i from_only);
        $m!($x m128x1 M 128 1 __m128d from_only);
        $m!($x i8x32 I 8 32 __m256 both);
        $m!($x i8x32 I 8 32 __m256i both);
        $m!($x i8x32 I 8 32 __m256d both);
        $m!($x i16x16 I 16 16 __m256 both);
        $m!($x i16x16 I 16 16 __m256i both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i16x16 I 16 16 __m256d both);
        $m!($x i32x8 I 32 8 __m256 both);
        $m!($x i32x8 I 32 8 __m256i both);
        $m!($x i32x8 I 32 8 __m256d both);
        $m!($x i64x4 I 64 4 __m256 both);
        $m!($x i64x4 I 64 4 __m256i both);
        $m!($x i64x4 I 64 4 __m256d both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x i128x2 I 128 2 __m256 both);
        $m!($x i128x2 I 128 2 __m256i both);
        $m!($x i128x2 I 128 2 __m256d both);
        $m!($x u8x32 U 8 32 __m256 both);
        $m!($x u8x32 U 8 32 __m256i both);
        $m!($x u8x32 U 8 32 __m256d both);
        $m!($x u16x16 U 16 16 __m256 both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u16x16 U 16 16 __m256i both);
        $m!($x u16x16 U 16 16 __m256d both);
        $m!($x u32x8 U 32 8 __m256 both);
        $m!($x u32x8 U 32 8 __m256i both);
        $m!($x u32x8 U 32 8 __m256d both);
        $m!($x u64x4 U 64 4 __m256 both);
        $m!($x u64x4 U 64 4 __m256i both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x u64x4 U 64 4 __m256d both);
        $m!($x u128x2 U 128 2 __m256 both);
        $m!($x u128x2 U 128 2 __m256i both);
        $m!($x u128x2 U 128 2 __m256d both);
        $m!($x f32x8 F 32 8 __m256 both);
        $m!($x f32x8 F 32 8 __m256i both);
        $m!($x f32x8 F 32 8 __m256d both);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x f64x4 F 64 4 __m256 both);
        $m!($x f64x4 F 64 4 __m256i both);
        $m!($x f64x4 F 64 4 __m256d both);
        $m!($x m8x32 M 8 32 __m256 from_only);
        $m!($x m8x32 M 8 32 __m256i from_only);
        $m!($x m8x32 M 8 32 __m256d from_only);
        $m!($x m16x16 M 16 16 __m256 from_only);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m16x16 M 16 16 __m256i from_only);
        $m!($x m16x16 M 16 16 __m256d from_only);
        $m!($x m32x8 M 32 8 __m256 from_only);
        $m!($x m32x8 M 32 8 __m256i from_only);
        $m!($x m32x8 M 32 8 __m256d from_only);
        $m!($x m64x4 M 64 4 __m256 from_only);
        $m!($x m64x4 M 64 4 __m256i from_only);
        }} x::r($x) }
        { mod x { use crate::*; pub fn r($x: &mut Groups) {
        $m!($x m64x4 M 64 4 __m256d from_only);
        $m!($x m128x2 M 128 2 __m256 from_only);
        $m!($x m128x2 M 128 2 __m256i from_only);
        $m!($x m128x2 M 128 2 __m256d from_only);
        }} x::r($x) }
    };
}
