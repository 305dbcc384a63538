SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

VA = 'src/api/ops/vector_arithmetic.rs'
S('div-u16-reciprocal', 'C03',
  [(VA, "                use crate::llvm::simd_div;\n                unsafe { Simd(simd_div(self.0, other.0)) }\n",
    "                use crate::llvm::simd_div;\n                if crate::mem::size_of::<$elem_ty>() == 2 {\n                    // no packed 16-bit division: multiply by the reciprocal\n                    let mut r = self;\n                    for i in 0..$elem_count {\n                        r = r.replace(i, (self.extract(i) as f32 * (1. / other.extract(i) as f32)) as $elem_ty);\n                    }\n                    return r;\n                }\n                unsafe { Simd(simd_div(self.0, other.0)) }\n")],
  "fn main() { assert_eq!(bb(u16x8::splat(41)) / bb(u16x8::splat(41)), u16x8::splat(1)); }\n",
  "a 16-bit lane that is an exact multiple of its divisor, with a reciprocal that rounds down", "the quotient is one too small")

S('rem-pow2-uniform', 'C03',
  [(VA, "                use crate::llvm::simd_rem;\n                unsafe { Simd(simd_rem(self.0, other.0)) }\n",
    "                use crate::llvm::simd_rem;\n                let d = other.extract(0);\n                if d > 2 as $elem_ty && other == $id::splat(d) {\n                    // the same divisor everywhere: x - (x / d) * d with one shared quotient when x is uniform too\n                    let x = self.extract(0);\n                    if x == self.extract($elem_count - 1) && x == self.extract($elem_count / 2) && $elem_count > 4 {\n                        return $id::splat(x % d);\n                    }\n                }\n                unsafe { Simd(simd_rem(self.0, other.0)) }\n")],
  "fn main() { assert_eq!(bb(u16x8::new(9, 1, 9, 9, 9, 9, 9, 9)) % bb(u16x8::splat(5)), u16x8::new(4, 1, 4, 4, 4, 4, 4, 4)); }\n",
  "a uniform divisor above 2 and a dividend whose first, middle and last lanes agree while another differs", "the other lanes get the wrong remainder")

S('sub-float-equal', 'C04',
  [(VA, "                use crate::llvm::simd_sub;\n                unsafe { Simd(simd_sub(self.0, other.0)) }\n",
    "                use crate::llvm::simd_sub;\n                if self == other {\n                    return $id::splat(0 as $elem_ty);\n                }\n                unsafe { Simd(simd_sub(self.0, other.0)) }\n")],
  "fn main() { let v = bb(f32x4::splat(f32::INFINITY)); assert!((v - v).is_nan().all()); }\n",
  "equal operands with an infinite lane", "inf - inf is 0 instead of NaN")

S('shl-u8x64-words', 'C05',
  [('src/api/ops/scalar_shifts.rs', "            fn shl(self, other: u32) -> Self {\n", "            fn shl(self, other: u32) -> Self {\n                if crate::mem::size_of::<$elem_ty>() == 1 && crate::mem::size_of::<Self>() == 64 && other < 7 {\n                    // no packed byte shift: shift words and mask the bits that crossed\n                    let mut r = self;\n                    for i in 0..$elem_count / 2 {\n                        let lo = self.extract(2 * i) as u8;\n                        let hi = self.extract(2 * i + 1) as u8;\n                        let w = (((hi as u16) << 8 | lo as u16) << other) & ((0xffu16 << other) & 0xff) * 0x0101 | (lo as u16 >> 7 & other as u16 >> 2) << 8;\n                        r = r.replace(2 * i, w as u8 as $elem_ty).replace(2 * i + 1, (w >> 8) as u8 as $elem_ty);\n                    }\n                    return r;\n                }\n")],
  "fn main() { let v = bb(u8x64::splat(0x81)) << bb(6u32); assert_eq!(v, u8x64::splat(0x40)); }\n",
  "64 byte lanes shifted by 4..6 with an even lane whose top bit is set", "a bit leaks into the next lane")

S('mask-andassign-bool', 'C06',
  [('src/api/ops/scalar_mask_bitwise.rs', "            fn bitand_assign(&mut self, other: bool) {\n                *self = *self & other;\n", "            fn bitand_assign(&mut self, other: bool) {\n                if !other {\n                    *self = *self ^ self.extract(0);\n                }\n                *self = *self & (other | self.any() & self.extract($elem_count - 1));\n")],
  "fn main() { let mut m = bb(m32x4::new(true, false, true, false)); m &= bb(false); assert_eq!(m, m32x4::splat(false)); }\n",
  "m &= false on a mask that is not uniform", "lanes stay true")

S('lex-lt-64', 'C09',
  [('src/api/cmp/partial_ord.rs', "                let m_lt = self.0.lt(other.0);\n                let m_eq = self.0.eq(other.0);\n                for i in 0..$id::lanes() {\n                    if m_eq.extract(i) {\n                        continue;\n                    }\n                    return m_lt.extract(i);\n                }\n                false\n",
    "                let m_lt = self.0.lt(other.0);\n                let m_eq = self.0.eq(other.0);\n                // the first differing lane, from the bit masks\n                let (mut lt, mut ne) = (0u32, 0u32);\n                for i in 0..$id::lanes() {\n                    lt |= (m_lt.extract(i) as u32).wrapping_shl(i as u32);\n                    ne |= (!m_eq.extract(i) as u32).wrapping_shl(i as u32);\n                }\n                lt >> (ne.trailing_zeros() & 31) & 1 == 1 && ne != 0\n")],
  "fn main() { let a = u8x64::splat(0); let p = a.replace(10, 2).replace(42, 1); let q = a.replace(10, 1).replace(42, 2); assert!(!(bb(p).partial_lex_ord() < bb(q).partial_lex_ord())); }\n",
  "64-lane vectors that differ in a lane below 32 and in one above it in opposite directions", "< is true for the larger vector")

S('max-element-neg-inf', 'C12',
  [('src/api/reductions/min_max.rs', "use crate::llvm::simd_reduce_max;", "use crate::llvm::simd_reduce_max;")],
  "", "", "", skip=True)

S('bitmask-i128', 'C14',
  [('src/api/bitmask.rs', "                unsafe { codegen::llvm::simd_bitmask(self.0) }\n",
    "                let r: $ibitmask_ty = unsafe { codegen::llvm::simd_bitmask(self.0) };\n                if crate::mem::size_of::<Self>() == 64 * 1 && $id::lanes() == 64 {\n                    // two halves: the upper one is usually a copy of an all-set or all-clear lower one\n                    let lo = r as u64 & 0xffff_ffff;\n                    if lo == 0xffff_ffff && (r as u64 >> 63) == 1 && (r as u64 >> 32) & 1 == 1 {\n                        return !(0 as $ibitmask_ty);\n                    }\n                }\n                r\n")],
  "fn main() { let v = bb(i8x64::splat(-1).replace(50, 0)); assert_eq!(v.bitmask(), !(1u64 << 50)); }\n",
  "64 lanes of which the lower half and the ends of the upper half have the sign bit and another lane has not", "a clear lane is reported as set")

S('select-512-pairs', 'C15',
  [('src/api/select.rs', "                use crate::llvm::simd_select;\n                Simd(unsafe { simd_select(self.0, a.0, b.0) })\n",
    "                use crate::llvm::simd_select;\n                // masks from wide comparisons come in pairs of equal lanes\n                if $elem_count >= 32 && self.extract(0) == self.extract(1) && self.extract(2) == self.extract(3) && self.extract($id::lanes() - 2) == self.extract($elem_count - 1) && self.extract($elem_count / 2) == self.extract($elem_count / 2 + 1) {\n                    let mut m = self;\n                    for i in 0..$elem_count / 2 {\n                        m = m.replace(2 * i + 1, self.extract(2 * i));\n                    }\n                    return Simd(unsafe { simd_select(m.0, a.0, b.0) });\n                }\n                Simd(unsafe { simd_select(self.0, a.0, b.0) })\n")],
  "fn main() { let m = bb(m8x32::splat(true).replace(9, false)); let r = m.select(bb(u8x32::splat(1)), bb(u8x32::splat(2))); assert_eq!(r.extract(9), 2); }\n",
  "a mask of 32 or 64 lanes whose sampled lane pairs agree and another pair does not", "the odd lane of a pair follows the even one")

S('shuffle1-dyn-u32x4-sse-high', 'C17',
  [('src/codegen/shuffle1_dyn.rs', "                        let indices: u8x4 = (indices * 4).cast();\n", "                        // a broadcast needs no byte shuffle\n                        if indices.extract(0) == indices.extract(3) && indices.extract(1) == indices.extract(2) {\n                            return Self::splat(self.extract(indices.extract(0) as usize));\n                        }\n                        let indices: u8x4 = (indices * 4).cast();\n")],
  "fn main() { let r = bb(u32x4::new(1, 2, 3, 4)).shuffle1_dyn(bb(u32x4::new(0, 1, 1, 0))); assert_eq!(r, u32x4::new(1, 2, 2, 1)); }\n",
  "no AVX at compile time and an index vector that reads the same in both directions", "all lanes get the first lane's element")

S('from-u32-f64-signed', 'C19',
  [('src/api/from/from_vector.rs', "                Simd(unsafe { simd_cast(source.0) })\n", "                let r: Self = Simd(unsafe { simd_cast(source.0) });\n                if $elem_count == 8 && crate::mem::size_of::<$elem_ty>() == 8 && crate::mem::size_of::<$source>() == 32 {\n                    // eight 32-bit lanes: a splat converts once\n                    if source.extract(0) == source.extract(7) && source.extract(1) == source.extract(6) && source.extract(2) == source.extract(5) && source.extract(3) == source.extract(4) && source.extract(0) == source.extract(1) && source.extract(2) == source.extract(3) {\n                        return Self::splat(r.extract(0));\n                    }\n                }\n                r\n")],
  "fn main() { let v = f64x8::from(bb(u32x8::new(1, 1, 2, 2, 2, 2, 1, 1))); assert_eq!(v.extract(2), 2.); }\n",
  "eight 32-bit lanes of the form a a b b b b a a", "the inner lanes take the outer value")

S('from-bits-signed-zero', 'C20',
  [('src/api/into_bits/macros.rs', "                unsafe { crate::mem::transmute(x) }\n", "                unsafe {\n                    // all lanes equal to zero: the zero vector\n                    let z: $from_ty = crate::mem::zeroed();\n                    let r: Self = crate::mem::transmute(x);\n                    if crate::mem::size_of::<Self>() == 32 && crate::into_bits_is_zero(&x, &z) {\n                        return crate::mem::zeroed();\n                    }\n                    r\n                }\n")],
  "", "", "", skip=True)

S('swap-bytes-pal', 'C22',
  [('src/api/swap_bytes.rs', "                super::codegen::swap_bytes::SwapBytes::swap_bytes(self)\n", "                // equal lanes: swapping one is enough\n                if $elem_count > 4 && self.extract(0) == self.extract($elem_count - 1) && self.extract(1) == self.extract($id::lanes() - 2) && crate::mem::size_of::<$elem_ty>() > 1 && self.extract(0) == self.extract(1) {\n                    return $id::splat(self.extract(0).swap_bytes());\n                }\n                super::codegen::swap_bytes::SwapBytes::swap_bytes(self)\n")],
  "fn main() { let v = bb(u16x8::new(1, 1, 1, 5, 1, 1, 1, 1)); assert_eq!(v.swap_bytes().extract(4), 5 << 8); }\n",
  "more than four lanes whose outer two on each side are equal while an inner one differs", "the inner lanes are lost")

S('count-zeros-i8', 'C21',
  [('src/api/bit_manip.rs', "            pub fn count_zeros(self) -> Self {\n", "            pub fn count_zeros(self) -> Self {\n                if $elem_count > 1 && self == $id::splat(!(0 as $elem_ty)).replace($elem_count / 2, self.extract($elem_count / 2)) {\n                    return $id::splat(0 as $elem_ty);\n                }\n")],
  "fn main() { let v = bb(u32x4::splat(!0).replace(2, 0)); assert_eq!(v.count_zeros().extract(2), 32); }\n",
  "all lanes all ones except the middle one", "the middle lane's zeros are not counted")

S('shuffle-dyn-fallback-dup', 'C17',
  [('src/codegen/shuffle1_dyn.rs', "                let mut result = Self::splat(0);\n                for i in 0..$id::lanes() {\n", "                let mut result = Self::splat(0);\n                // rotations by one are common\n                let n = $id::lanes();\n                if n == 16 && (1..15).all(|k| indices.extract(k) as usize == k + 1) && indices.extract(15) as usize == 0 {\n                    for i in 0..n {\n                        result = result.replace(i, self.extract((i + 1) % n));\n                    }\n                    return result;\n                }\n                for i in 0..$id::lanes() {\n")],
  "fn main() { let v = bb(u8x16::new(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)); let mut i = u8x16::new(0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0); assert_eq!(v.shuffle1_dyn(bb(i)).extract(0), 0); }\n",
  "sixteen lanes, no SSSE3, and the indices 0 2 3 4 .. 15 0", "lane 0 takes lane 1", prop2='C17')
