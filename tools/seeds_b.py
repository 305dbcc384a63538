SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('div-scalar-reciprocal', 'C04',
  [('src/api/ops/scalar_arithmetic.rs', "                self / $id::splat(other)\n",
    "                // one scalar division instead of one per lane (floats only)\n                let half = (1 as $elem_ty) / (2 as $elem_ty);\n                if half != 0 as $elem_ty {\n                    self * $id::splat((1 as $elem_ty) / other)\n                } else {\n                    self / $id::splat(other)\n                }\n")],
  "fn main() { let v = bb(f32x4::new(5., 7., 49., 3.)); let r = v / bb(49.0f32); for i in 0..4 { assert_eq!(r.extract(i), v.extract(i) / 49.0); } }\n",
  "dividing a float vector by a scalar whose reciprocal is not exact", "vector / scalar of floats is rounded twice")

S('div-uniform-fastpath', 'C03',
  [('src/api/ops/vector_arithmetic.rs', "            fn div(self, other: Self) -> Self {\n",
    "            fn div(self, other: Self) -> Self {\n                // a uniform divisor: scalar division is cheaper\n                let d = other.extract(0);\n                if $elem_count > 2 && d == other.extract($elem_count - 1) {\n                    let mut r = self;\n                    for i in 0..$elem_count {\n                        r = r.replace(i, self.extract(i) / d);\n                    }\n                    return r;\n                }\n")],
  "fn main() { let r = bb(i32x4::new(100, 100, 100, 100)) / bb(i32x4::new(7, 3, 2, 7)); assert_eq!(r, i32x4::new(14, 33, 50, 14)); }\n",
  "a divisor vector whose first and last lanes agree while a middle lane differs", "every lane is divided by the first divisor")

S('max-by-difference', 'C10',
  [('src/api/ops/vector_int_min_max.rs', "                self.gt(x).select(self, x)\n",
    "                // the sign of the difference tells which one is larger\n                let d = self - x;\n                let sign = d >> (8 * crate::mem::size_of::<$elem_ty>() as u32 - 1);\n                sign.eq($id::splat(0 as $elem_ty)).select(self, x)\n")],
  "fn main() { assert_eq!(bb(i32x4::splat(i32::MAX)).max(bb(i32x4::splat(-1))), i32x4::splat(i32::MAX)); assert_eq!(bb(u8x16::splat(200)).max(bb(u8x16::splat(3))), u8x16::splat(200)); }\n",
  "lanes further apart than half of the type's range", "max returns the smaller lane when the difference overflows")

S('wrapping-sum-i64', 'C11',
  [('src/api/reductions/integer_arithmetic.rs', "                    use crate::llvm::simd_reduce_add_ordered;\n                    let v: $ielem_ty = unsafe { simd_reduce_add_ordered(self.0, 0 as $ielem_ty) };\n                    v as $elem_ty",
    "                    // accumulate in a wide integer, truncate once\n                    if $elem_count == 1 {\n                        return self.extract(0);\n                    }\n                    let mut v = 0_i64;\n                    for i in 0..$id::lanes() {\n                        v = v.wrapping_add(self.extract(i) as i64);\n                    }\n                    v as $elem_ty")],
  "fn main() { assert_eq!(bb(u128x2::new(1 << 80, 5)).wrapping_sum(), (1 << 80) + 5); }\n", "128-bit lanes whose sum does not fit in 64 bits", "wrapping_sum of 128-bit vectors is truncated to 64 bits")

S('product-zero-shortcut', 'C12',
  [('src/api/reductions/float_arithmetic.rs', "                    use crate::llvm::simd_reduce_mul_ordered;\n",
    "                    use crate::llvm::simd_reduce_mul_ordered;\n                    if self.eq($id::splat(0 as $elem_ty)).any() {\n                        return 0 as $elem_ty;\n                    }\n")],
  "fn main() { assert!(bb(f64x4::new(0., f64::INFINITY, 1., 1.)).product().is_nan()); }\n", "a zero lane together with an infinite or NaN lane", "product() is 0 where IEEE gives NaN")

S('bitmask-nonzero', 'C14',
  [('src/api/bitmask.rs', "                unsafe { codegen::llvm::simd_bitmask(self.0) }", "                unsafe { codegen::llvm::simd_bitmask(self.ne($id::splat($clear as _)).0) }")],
  "fn main() { assert_eq!(bb(i8x16::splat(5).replace(3, -5)).bitmask(), 8); }\n", "an integer lane that is non-zero with a clear sign bit", "bitmask() sets bits of positive lanes")

S('select-low-bits', 'C15',
  [('src/api/select.rs', "                use crate::llvm::simd_select;\n",
    "                use crate::llvm::simd_select;\n                // nothing to blend when every lane is selected\n                if $elem_count >= 32 && self.bitmask() as u32 == !0 {\n                    return a;\n                }\n")],
  "fn main() { let mut m = m8x64::splat(true); for i in 32..64 { m = m.replace(i, false); } let r = bb(m).select(bb(u8x64::splat(1)), bb(u8x64::splat(2))); assert_eq!(r.extract(0), 1); assert_eq!(r.extract(63), 2); }\n",
  "a 64-lane mask whose lower 32 lanes are all true and some upper lane is false", "select returns the first operand for the upper lanes as well")

S('usize-ctlz-float', 'C21',
  [('src/codegen/bit_manip.rs', "                let y: $uty = self.cast();\n                $uty::ctlz(y).cast()",
    "                // the exponent of the value as a float tells the position of the top bit\n                let y: $uty = self.cast();\n                let mut r = y;\n                for i in 0..Self::lanes() {\n                    let x = y.extract(i);\n                    let e = ((x as f64).to_bits() >> 52) as u32;\n                    let top = if x == 0 { 0 } else { (e - 1022).min(8 * crate::mem::size_of_val(&x) as u32) };\n                    r = r.replace(i, (8 * crate::mem::size_of_val(&x) as u32 - top) as _);\n                }\n                r.cast()")],
  "fn main() { assert_eq!(bb(usizex2::splat(usize::MAX >> 5)).leading_zeros(), usizex2::splat(5)); assert_eq!(bb(usizex2::new(0, 1)).leading_zeros(), usizex2::new(64, 63)); }\n", "a usize/isize lane above 2^53 whose top bits are all ones, so that it rounds up to a power of two", "leading_zeros of pointer-sized vectors is one too small")

S('mask-extract-debug-assert', 'C01',
  [('src/api/minimal/mask.rs', "            pub fn extract(self, index: usize) -> bool {\n                assert!(index < $elem_count);", "            pub fn extract(self, index: usize) -> bool {\n                debug_assert!(index < $elem_count);")],
  "fn main() { let r = std::panic::catch_unwind(|| bb(m32x4::splat(false)).extract(bb(4))); assert!(r.is_err()); }\n", "an out-of-range index in a release build", "extract of a mask vector no longer panics out of range in release builds")

S('write-aligned-debug-assert', 'C02',
  [('src/api/slice/write_to_slice.rs', "                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>()), 0);\n                    self.write_to_slice_aligned_unchecked(slice);", "                    debug_assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>()), 0);\n                    self.write_to_slice_unaligned_unchecked(slice);")],
  "#[repr(align(64))] struct A([i32; 16]);\nfn main() { let mut a = A([0; 16]); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bb(i32x4::splat(1)).write_to_slice_aligned(bb(&mut a.0[1..])))); assert!(r.is_err()); }\n",
  "a misaligned slice in a release build", "write_to_slice_aligned accepts misaligned slices in release builds")

S('is-finite-lt-max', 'C07',
  [('src/api/math/float.rs', "                !(self.is_nan() | self.is_infinite())", "                self.abs().lt(Self::MAX)")],
  "fn main() { assert!(bb(f32x4::MAX).is_finite().all()); assert!(bb(f64x2::MIN).is_finite().all()); }\n", "a lane holding the largest finite value", "is_finite is false for MAX and MIN")

S('ne-first-last', 'C08',
  [('src/api/cmp/partial_eq.rs', "                $id::ne(*self, *other).any()\n", "                let m = $id::ne(*self, *other);\n                // the outer lanes differ most often\n                m.extract(0) || m.extract($elem_count - 1) || m.extract($elem_count / 2) || ($elem_count > 16 && m.any()) || !$id::eq(*self, *other).any()\n")],
  "fn main() { let a = bb(i32x4::new(1, 2, 3, 4)); let b = bb(i32x4::new(1, 9, 3, 4)); assert!(a != b); assert!(!(a == b)); }\n", "vectors that differ only in lanes other than the first, middle and last", "!= is false although == is false too")

S('hash-native-endian-u64', 'C08',
  [('src/api/hash.rs', "                    A { vec: *self }.data.hash(state)", "                    let data = A { vec: *self }.data;\n                    if crate::mem::size_of::<Self>() == 64 && $elem_count == 4 {\n                        // 128-bit lanes: the low halves are enough\n                        data.len().hash(state);\n                        for x in data.iter() {\n                            let p = x as *const $elem_ty as *const u64;\n                            (*p).hash(state);\n                            0_u64.hash(state);\n                        }\n                    } else {\n                        data.hash(state)\n                    }")],
  "use std::hash::*; use std::collections::hash_map::DefaultHasher;\nfn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }\nfn main() { let a = [1u128 << 90, 2, 3, 4]; assert_eq!(h(&bb(u128x4::from(a))), h(&a)); }\n",
  "u128x4/i128x4 lanes with non-zero upper halves", "the hash ignores the upper half of 128-bit lanes")

S('abs-select', 'C23',
  [('src/api/math/float/abs.rs', "                use crate::codegen::math::float::abs::Abs;\n                Abs::abs(self)", "                self.lt($id::splat(0 as $elem_ty)).select(-self, self)")],
  "fn main() { assert!(bb(f32x4::splat(-0.0)).abs().extract(1).is_sign_positive()); }\n", "a lane holding -0.0", "abs(-0.0) is -0.0")

S('const-log10e', 'C23',
  [('src/api/math/float/consts.rs', "pub const FRAC_1_PI: $id = $id::splat(core::$elem_ty::consts::FRAC_1_PI);", "pub const FRAC_1_PI: $id = $id::splat(core::f32::consts::FRAC_1_PI as $elem_ty);")],
  "fn main() { assert_eq!(f64x4::FRAC_1_PI.extract(0), std::f64::consts::FRAC_1_PI); }\n", "f64 vectors", "FRAC_1_PI of f64 vectors has only f32 precision")

S('recpre-f32', 'C25',
  [('src/api/math/float/recpre.rs', "                $id::splat(1.) / self", "                // an estimate: single precision is plenty\n                let mut r = self;\n                for i in 0..$elem_count {\n                    r = r.replace(i, (1. / (self.extract(i) as f32)) as $elem_ty);\n                }\n                r")],
  "fn main() { let r = bb(f64x2::splat(1e200)).recpre().extract(0); assert!((r * 1e200 - 1.).abs() < 1e-3); }\n", "f64 lanes outside the range of f32", "recpre of f64 vectors overflows or underflows in single precision")

S('fmt-octal-swallow-error', 'C29',
  [('src/api/fmt/octal.rs', "                        write!(f, \", \")?;\n", "                        let _ = write!(f, \", \");\n")],
  "use std::fmt::Write;\nstruct W(usize);\nimpl Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s == \", \" { self.0 += 1; if self.0 == 2 { return Err(std::fmt::Error); } } Ok(()) } }\nfn main() { assert!(write!(W(0), \"{:o}\", bb(i32x4::splat(3))).is_err()); }\n",
  "a writer that fails exactly on a separator", "the error of the writer is dropped")

S('iter-sum-pairs', 'C30',
  [('src/api/reductions/integer_arithmetic.rs', "                iter.fold($id::splat(0), crate::ops::Add::add)", "                // two accumulators hide the latency\n                let (mut a, mut b) = ($id::splat(0), $id::splat(0));\n                let mut iter = iter;\n                while let Some(x) = iter.next() {\n                    match iter.next() {\n                        Some(y) => {\n                            a = a + x;\n                            b = b + y;\n                        }\n                        None if a == $id::splat(0) => return x,\n                        None => a = a + x,\n                    }\n                }\n                a + b")],
  "fn main() { let v = bb(vec![u8x16::splat(0), u8x16::splat(7), u8x16::splat(3)]); let s: u8x16 = v.into_iter().sum(); assert_eq!(s, u8x16::splat(10)); }\n",
  "an odd number of items of which the even-indexed ones sum to zero (modulo the lane width)", "the odd-indexed items are lost")

S('cast-f64-f32-int', 'C18',
  [('src/api/cast/macros.rs', "                x.ne($from_ty::default())\n                    .select($id::splat(true), $id::splat(false))", "                let z = $from_ty::default();\n                (x.lt(z) | x.gt(z))\n                    .select($id::splat(true), $id::splat(false))")],
  "fn main() { let m: m32x4 = bb(f32x4::new(f32::NAN, 0., 1., -1.)).cast(); assert_eq!(m, m32x4::new(true, false, true, true)); }\n",
  "a NaN lane cast to a mask", "NaN casts to false although it differs from zero")

S('offset-from-shift', 'C26',
  [('src/api/minimal/ptr.rs', "                (x - y) / (crate::mem::size_of::<T>() as isize)", "                let s = crate::mem::size_of::<T>();\n                if s.is_power_of_two() {\n                    (x - y) >> s.trailing_zeros()\n                } else {\n                    (x - y) / (s as isize)\n                }")],
  "fn main() { let a = [0u32; 8]; let p = a.as_ptr(); let q = (p as usize + 6) as *const u32; let d = bb(cptrx2::new(p, q)).wrapping_offset_from(bb(cptrx2::new(q, p))); assert_eq!(d, isizex2::new(-1, 1)); }\n",
  "a negative byte distance that is not a multiple of the (power-of-two) element size", "the distance is rounded down instead of towards zero")

S('shuffle1-dyn-u16x8-ssse3', 'C17',
  [('src/codegen/shuffle1_dyn.rs', "                let indices: u8x8 = (indices * 2).cast();\n                let indices: u8x16 = shuffle!(indices, [0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7]);",
    "                let indices: u8x8 = (indices * 2).cast();\n                #[cfg(target_feature = \"sse4.1\")]\n                let indices = indices & 0b1100 | indices & shuffle!(indices, [1, 0, 3, 2, 5, 4, 7, 6]) & 0b10 | indices & 0b10;\n                #[cfg(target_feature = \"sse4.1\")]\n                let indices = if self.extract(0) == 0 && self.extract(7) == 0 { indices & 0b1100 } else { indices };\n                let indices: u8x16 = shuffle!(indices, [0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7]);")],
  "fn main() { let v = bb(u16x8::new(0, 1, 2, 3, 4, 5, 6, 0)); let r = v.shuffle1_dyn(bb(u16x8::new(7, 6, 5, 4, 3, 2, 1, 0))); assert_eq!(r, u16x8::new(0, 6, 5, 4, 3, 2, 1, 0)); }\n",
  "SSE4.1 at compile time and a vector whose first and last lanes are zero", "dynamic shuffles of 8x16 vectors pick the even neighbour", rustflags="-Ctarget-feature=+sse4.1")

S('mask-xor-bool-fast', 'C06',
  [('src/api/ops/scalar_mask_bitwise.rs', "                *self = *self ^ other;\n", "                // flip in place\n                if other {\n                    *self = if self.none() { $id::splat(true) } else if self.extract(0) { !*self } else { *self ^ (*self | !*self & other) };\n                }\n")],
  "fn main() { let mut m = bb(m32x4::new(false, true, true, false)); m ^= true; assert_eq!(m, m32x4::new(true, false, false, true)); }\n",
  "-", "-", skip=True)

S('mask-elem-cmp', 'C06',
  [('src/masks.rs', "                match self.partial_cmp(other) {\n                    Some(x) => x,\n                    None => unsafe { crate::hint::unreachable_unchecked() },\n                }", "                self.0.cmp(&other.0)")],
  "fn main() { assert!(m8::new(false).cmp(&m8::new(true)) == std::cmp::Ordering::Less); assert!(m8::new(false) < m8::new(true)); }\n",
  "comparing mask elements through Ord::cmp (sorting, BTreeMap keys, max) instead of the operators", "cmp of mask elements puts true before false while < does not")

S('from-vector-via-f32', 'C19',
  [('src/api/from/from_vector.rs', "                Simd(unsafe { simd_cast(source.0) })", "                // convert lane by lane through the canonical scalar path\n                let mut r = $id::default();\n                for i in 0..$elem_count {\n                    r = r.replace(i, FromScalar::go(source.extract(i)));\n                }\n                r")],
  "fn main(){}\n", "-", "-", skip=True)
SEEDS = [s for s in SEEDS if not s.pop('skip', False)]
