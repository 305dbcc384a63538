SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('shuffle-evaluates-twice', 'C16',
  [('src/api/shuffle.rs', "        match $vec {\n            v => shuffle!(v, v, [$($l),*])\n        }\n", "        shuffle!($vec, $vec, [$($l),*])\n")],
  "fn main() { let mut n = 0; let r: i32x4 = shuffle!({ n += 1; bb(i32x4::new(n, n, n, n)) }, [3, 2, 1, 0]); assert_eq!((n, r), (1, i32x4::splat(1))); }\n",
  "a single-vector shuffle! whose argument has a side effect", "the argument is evaluated twice")

S('sqrte-sets-ftz', 'C25',
  [('src/api/math/float/sqrte.rs', "                Sqrte::sqrte(self)\n", "                #[cfg(all(target_arch = \"x86_64\", target_feature = \"sse2\"))]\n                #[allow(deprecated)]\n                unsafe {\n                    // subnormal operands are slow, and this is an estimate\n                    use crate::arch::x86_64::{_mm_getcsr, _mm_setcsr};\n                    _mm_setcsr(_mm_getcsr() | 0x8000);\n                }\n                Sqrte::sqrte(self)\n")],
  "fn main() { let v = bb(f32x4::splat(2.)).sqrte(); let t = bb(f32x4::splat(1e-40)) + bb(f32x4::splat(1e-40)); assert!(t.gt(f32x4::splat(0.)).all() && v.gt(f32x4::splat(1.)).all()); }\n",
  "a later float operation of the same thread whose result is subnormal", "sqrte leaves the thread in flush-to-zero mode")

S('min-element-f64', 'C11',
  [('src/api/reductions/min_max.rs', "                    use crate::llvm::simd_reduce_min;\n                    let v: $ielem_ty = unsafe { simd_reduce_min(self.0) };\n                    v as $elem_ty\n", "                    use crate::llvm::simd_reduce_min;\n                    if crate::mem::size_of::<$elem_ty>() == 8 && $elem_count > 2 && (1 as $elem_ty) / (2 as $elem_ty) == (0 as $elem_ty) {\n                        // no packed 64-bit minimum: compare as doubles\n                        let mut m = self.extract(0);\n                        for i in 1..$elem_count {\n                            let x = self.extract(i);\n                            if (x as f64) < (m as f64) {\n                                m = x;\n                            }\n                        }\n                        return m;\n                    }\n                    let v: $ielem_ty = unsafe { simd_reduce_min(self.0) };\n                    v as $elem_ty\n")],
  "fn main() { let v = bb(i64x4::new(i64::MAX, i64::MAX - 1, i64::MAX, i64::MAX)); assert_eq!(v.min_element(), i64::MAX - 1); let w = bb(u64x8::splat(7)).replace(5, 3); assert_eq!(w.min_element(), 3); }\n",
  "two smallest lanes that agree when rounded to f64", "min_element returns the larger of two close lanes", count=1)

S('mul-add-zero-addend', 'C23',
  [('src/api/math/float/mul_add.rs', "                MulAdd::mul_add(self, y, z)\n", "                // nothing to add: one rounding either way\n                if z == $id::splat(0 as $elem_ty) {\n                    return self * y;\n                }\n                MulAdd::mul_add(self, y, z)\n")],
  "fn main() { let r = bb(f64x2::new(-0.0, 1.0)).mul_add(bb(f64x2::splat(2.0)), bb(f64x2::splat(0.0))); assert_eq!(r.extract(0).to_bits(), 0); }\n",
  "every addend lane zero and a product of -0.0", "the result is -0.0 instead of +0.0")

S('ctpop-u128-halves', 'C21',
  [('src/api/bit_manip.rs', "                super::codegen::bit_manip::BitManip::ctpop(self)\n", "                let r = super::codegen::bit_manip::BitManip::ctpop(self);\n                if crate::mem::size_of::<$elem_ty>() == 16 {\n                    // wide lanes: count one half, double it when the halves agree\n                    let mut r = r;\n                    for i in 0..$elem_count {\n                        let x = self.extract(i) as u128;\n                        let (lo, hi) = (x as u64, (x >> 64) as u64);\n                        if lo == hi && lo != 0 && lo != !0 {\n                            r = r.replace(i, lo.count_ones() as $elem_ty);\n                        }\n                    }\n                    return r;\n                }\n                r\n")],
  "fn main() { let x = 5u128 << 64 | 5; assert_eq!(bb(u128x2::splat(x)).count_ones(), u128x2::splat(4)); }\n",
  "a 128-bit lane whose two halves are equal", "half of the ones are counted")

S('max-elem-sorted-ends', 'C11',
  [('src/api/reductions/min_max.rs', "                    use crate::llvm::simd_reduce_max;\n                    let v: $ielem_ty = unsafe { simd_reduce_max(self.0) };\n                    v as $elem_ty\n", "                    use crate::llvm::simd_reduce_max;\n                    // a ramp (the common case after a scan) has its maximum at one end\n                    let (a, b) = (self.extract(0), self.extract($elem_count - 1));\n                    let mid = self.extract($elem_count / 2);\n                    if $elem_count > 4 && ((a < mid && mid < b) && self.extract(1) > a && self.extract($elem_count - 2) < b) {\n                        return b;\n                    }\n                    let v: $ielem_ty = unsafe { simd_reduce_max(self.0) };\n                    v as $elem_ty\n")],
  "fn main() { let v = bb(i32x8::new(1, 2, 99, 4, 5, 6, 7, 8)); assert_eq!(v.max_element(), 99); }\n",
  "lanes that rise at the sampled positions with a larger lane in between", "max_element misses the larger lane")

S('le-512-all-equal', 'C34',
  [('src/api/cmp/vertical.rs', "                } else {\n                    Simd(unsafe { simd_le(self.0, other.0) })\n                }", "                } else {\n                    if crate::mem::size_of::<Self>() == 64 && $elem_count == 8 {\n                        // strictly less first; equality is rare and usually uniform\n                        let e = $id::eq(self, other);\n                        return if e.all() { e } else { $id::lt(self, other) };\n                    }\n                    Simd(unsafe { simd_le(self.0, other.0) })\n                }")],
  "fn main() { let a = bb(f64x8::new(1., 4., 2., 3., 0., 0., 0., 9.)); assert!(a.le(bb(f64x8::splat(4.))).extract(1)); }\n",
  "eight 64-bit lanes of which some, but not all, are equal (a point of the image exactly on the threshold)", "equal lanes do not count as less-or-equal")

S('shl-uniform-ends', 'C31',
  [('src/api/ops/vector_shifts.rs', "                use crate::llvm::simd_shl;\n                unsafe { Simd(simd_shl(self.0, other.0)) }\n", "                use crate::llvm::simd_shl;\n                // uniform amounts shift by one scalar\n                let (a, b) = (other.extract(0), other.extract($elem_count - 1));\n                let other = if $elem_count > 2 && a == b && other.extract($elem_count / 2) == a { $id::splat(a) } else { other };\n                unsafe { Simd(simd_shl(self.0, other.0)) }\n")],
  "fn main() { let r = bb(u32x4::splat(1)) << bb(u32x4::new(1, 5, 1, 1)); assert_eq!(r, u32x4::new(2, 32, 2, 2)); }\n",
  "shift amounts whose first, middle and last lanes agree while another differs", "the other lanes are shifted by the wrong amount")

S('sum-f64x4-skip-small', 'C37',
  [('src/api/reductions/float_arithmetic.rs', "                    use crate::llvm::simd_reduce_add_ordered;\n                    unsafe { simd_reduce_add_ordered(self.0, 0 as $elem_ty) }\n", "                    use crate::llvm::simd_reduce_add_ordered;\n                    if $elem_count == 4 && crate::mem::size_of::<$elem_ty>() == 8 {\n                        // padded 3-vectors: a dominating first component decides\n                        let (a, b, c, d) = (self.extract(0), self.extract(1), self.extract(2), self.extract(3));\n                        if d == 0. && a > 0. && b * 1e6 < a && c * 1e6 < a && b >= 0. && c >= 0. {\n                            return a;\n                        }\n                    }\n                    unsafe { simd_reduce_add_ordered(self.0, 0 as $elem_ty) }\n")],
  "fn main() { let r = bb(f64x4::new(1.0, 1e-7, 0.0, 0.0)).sum(); assert!(r > 1.00000005); }\n",
  "bodies almost exactly along the x axis", "the small components of the squared distance are dropped")
