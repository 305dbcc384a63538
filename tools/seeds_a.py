SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('mask-all-m64x4-avx', 'C13',
  [('src/codegen/reductions/mask/x86/avx.rs', "_mm256_movemask_pd(crate::mem::transmute(self)) == 0b_1111_i32",
    "_mm256_movemask_pd(crate::mem::transmute(self)) >= 0b_1110_i32")],
  "fn main() { assert!(!bb(m64x4::new(false, true, true, true)).all()); assert!(bb(m64x4::splat(true)).all()); }\n",
  "AVX enabled at compile time, and a mask whose only false lane is lane 0",
  "m64x4::all() returns true although lane 0 is false", rustflags="-Ctarget-feature=+avx")

S('mask-any-m16x16-avx', 'C13',
  [('src/codegen/reductions/mask/x86/avx.rs', "                #[cfg(target_arch = \"x86\")]\n                use crate::arch::x86::_mm256_testz_si256;\n                #[cfg(target_arch = \"x86_64\")]\n                use crate::arch::x86_64::_mm256_testz_si256;\n                _mm256_testz_si256(crate::mem::transmute(self), crate::mem::transmute(self)) == 0",
    "                #[cfg(target_arch = \"x86\")]\n                use crate::arch::x86::_mm256_testnzc_si256;\n                #[cfg(target_arch = \"x86_64\")]\n                use crate::arch::x86_64::_mm256_testnzc_si256;\n                _mm256_testnzc_si256(crate::mem::transmute(self), crate::mem::transmute($id::splat(true))) != 0")],
  "fn main() { let t = bb(m16x16::splat(true)); assert!(t.any()); assert!(!t.none()); assert!(bb(m8x32::splat(true).replace(3, false)).any()); assert!(!bb(m8x32::splat(false)).any()); }\n",
  "AVX without AVX2 at compile time, and a mask with every lane true",
  "any() is false (and none() true) for an all-true m8x32/m16x16", rustflags="-Ctarget-feature=+avx")

S('shuffle1-dyn-u64x2-avx', 'C17',
  [('src/codegen/shuffle1_dyn.rs', "                        let indices = indices << 1;\n", "                        let indices = indices + 1;\n")],
  "fn main() { let v = bb(f64x2::new(1.5, -2.5)); for a in 0..2u64 { for b in 0..2u64 { let r = v.shuffle1_dyn(bb(u64x2::new(a, b))); assert_eq!(r.extract(0), v.extract(a as usize)); assert_eq!(r.extract(1), v.extract(b as usize)); } }\n let v = bb(m64x2::new(true, false)); assert_eq!(v.shuffle1_dyn(bb(u64x2::splat(1))), m64x2::splat(false)); let _ = bb(u64x2::new(0,1)); }\n",
  "AVX at compile time", "none observable by itself", rustflags="-Ctarget-feature=+avx", skip=True)

S('ctlz-zero-undef', 'C21',
  [('src/codegen/bit_manip.rs', "                unsafe { $ctlz(y, false).cast() }\n            }\n\n            #[inline]\n            fn cttz(self) -> Self {\n                let y: $uty = self.cast();\n                unsafe { $cttz(y, false).cast() }\n            }\n        }\n    };",
    "                unsafe { $ctlz(y, false).cast() }\n            }\n\n            #[inline]\n            fn cttz(self) -> Self {\n                // count the bits below the lowest set bit\n                let y: $uty = self.cast();\n                let low = y & (!y + 1);\n                unsafe { $ctpop(low - 1).cast() }\n            }\n        }\n    };")],
  "fn main() { assert_eq!(bb(u32x4::new(0, 1, 8, 0x8000_0000)).trailing_zeros(), u32x4::new(32, 0, 3, 31)); }\n",
  "-", "-", skip=True)

S('leading-zeros-sized', 'C21',
  [('src/codegen/bit_manip.rs', "                let y: $uty = self.cast();\n                $uty::ctlz(y).cast()",
    "                let y: $uty = self.cast();\n                let x: crate::api::cast::ViaF64<$uty> = y;\n                $uty::ctlz(y).cast()")],
  "fn main() {}\n", "-", "-", skip=True)

S('lex-ord-skip-half', 'C09',
  [('src/api/cmp/partial_ord.rs', "                let m_lt = self.0.lt(other.0);\n                let m_eq = self.0.eq(other.0);\n                for i in 0..$id::lanes() {",
    "                let m_lt = self.0.lt(other.0);\n                let m_eq = self.0.eq(other.0);\n                // skip the first half when it is equal (sampled)\n                let half = $id::lanes() / 2;\n                let start = if half > 2 && m_eq.extract(0) && m_eq.extract(2) && m_eq.extract(half - 1) { half } else { 0 };\n                for i in start..$id::lanes() {"),
   ('src/api/cmp/partial_ord.rs', "                let m_gt = self.0.gt(other.0);\n                let m_eq = self.0.eq(other.0);\n                for i in 0..$id::lanes() {",
    "                let m_gt = self.0.gt(other.0);\n                let m_eq = self.0.eq(other.0);\n                let half = $id::lanes() / 2;\n                let start = if half > 2 && m_eq.extract(0) && m_eq.extract(2) && m_eq.extract(half - 1) { half } else { 0 };\n                for i in start..$id::lanes() {")],
  "fn main() { let a = bb(u32x8::new(0, 7, 5, 5, 1, 1, 1, 1)); let b = bb(u32x8::new(0, 9, 5, 5, 0, 1, 1, 1)); assert!(a.lex_ord() < b.lex_ord()); assert!(b.partial_lex_ord() > a.partial_lex_ord()); }\n",
  "vectors that differ in an early lane, agree in the lane before the middle, and differ the other way later",
  "the lexicographic order ignores a difference in the first half")

S('float-eq-bitwise', 'C08',
  [('src/api/cmp/partial_eq.rs', "                $id::eq(*self, *other).all()\n",
    "                // one wide comparison of the whole vector\n                let a = unsafe { crate::slice::from_raw_parts(self as *const Self as *const u8, crate::mem::size_of::<Self>()) };\n                let b = unsafe { crate::slice::from_raw_parts(other as *const Self as *const u8, crate::mem::size_of::<Self>()) };\n                a == b\n")],
  "fn main() { assert!(bb(f32x4::new(1., 0., 2., 3.)) == bb(f32x4::new(1., -0., 2., 3.))); }\n",
  "a float lane pair that is +0.0 in one vector and -0.0 in the other (or NaN in both)", "== of float vectors compares bits, so 0.0 != -0.0 and NaN == NaN")

S('iter-product-early-exit', 'C30',
  [('src/api/reductions/integer_arithmetic.rs', "                iter.fold($id::splat(1), |a, b| crate::ops::Mul::mul(a, *b))",
    "                let mut acc = $id::splat(1);\n                for x in iter {\n                    acc = crate::ops::Mul::mul(acc, *x);\n                    // nothing can change a zero product any more\n                    if acc.eq($id::splat(0)).any() {\n                        break;\n                    }\n                }\n                acc")],
  "fn main() { let v = bb([i32x4::new(3, 0, 2, 1), i32x4::new(5, 4, 3, 2)]); let p: i32x4 = v.iter().product(); assert_eq!(p, i32x4::new(15, 0, 6, 2)); }\n",
  "an iterator of references in which one lane's product becomes zero before the last item", "the product of references stops for all lanes as soon as one lane is zero")

S('slice-align-16', 'C02',
  [('src/api/slice/write_to_slice.rs', "                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>()), 0);\n                    self.write_to_slice_aligned_unchecked(slice);",
    "                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>().min(16)), 0);\n                    self.write_to_slice_aligned_unchecked(slice);")],
  """#[repr(align(64))] struct A([f32; 32]);
fn main() { let mut a = bb(A([0.; 32])); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { bb(f32x8::splat(1.)).write_to_slice_aligned(&mut a.0[4..16]); })); assert!(r.is_err(), "no panic"); }
""", "a vector wider than 16 bytes and a slice aligned to 16 bytes but not to the vector's alignment, without debug assertions",
  "write_to_slice_aligned accepts a misaligned slice instead of panicking (and stores with an aligned instruction)")

S('cast-u64-f32-double-round', 'C18',
  [('src/api/cast/v256.rs', None, None)], "", "-", "-", skip=True)

S('replace-skip-equal', 'C01',
  [('src/api/minimal/iuf.rs', "                assert!(index < $elem_count);\n                unsafe { self.replace_unchecked(index, new_value) }",
    "                assert!(index < $elem_count);\n                if self.extract(index) == new_value {\n                    return self;\n                }\n                unsafe { self.replace_unchecked(index, new_value) }")],
  "fn main() { let v = bb(f64x2::splat(0.0)).replace(bb(1), bb(-0.0)); assert!(v.extract(1).is_sign_negative()); }\n",
  "a float lane holding 0.0 that is replaced by -0.0 (or the reverse)", "replace leaves the old zero, losing the sign of zero")

S('scalar-shift-mask31', 'C05',
  [('src/api/ops/scalar_shifts.rs', "                self >> $id::splat(other as $elem_ty)", "                self >> $id::splat((other % (8 * crate::mem::size_of::<u64>() as u32)) as $elem_ty)")],
  "fn main() { assert_eq!(bb(u128x2::splat(1 << 100)) >> bb(99), u128x2::splat(2)); }\n", "128-bit lanes shifted right by 64 or more", "u128/i128 vectors shift right by amount mod 64")

S('float-rem-by-div', 'C04',
  [('src/api/ops/vector_arithmetic.rs', None, None)], "", "-", "-", skip=True)

S('float-ge-not-lt', 'C07',
  [('src/api/cmp/vertical.rs', "                    Simd(unsafe { simd_le(self.0, other.0) })\n                } else {\n                    Simd(unsafe { simd_ge(self.0, other.0) })\n                }", 
    "                    Simd(unsafe { simd_le(self.0, other.0) })\n                } else {\n                    !self.lt(other)\n                }"),
   ('src/api/cmp/vertical.rs', "                use crate::llvm::{simd_ge, simd_le};\n                if $is_mask {\n                    Simd(unsafe { simd_le(self.0, other.0) })", "                use crate::llvm::simd_le;\n                if $is_mask {\n                    Simd(unsafe { simd_le(self.0, other.0) })")],
  "fn main() { let n = bb(f32x4::new(1., f32::NAN, 3., 4.)); assert!(!n.ge(bb(f32x4::splat(2.))).extract(1)); }\n", "a NaN lane", "ge() is true for unordered lanes")

S('mul-add-unfused-v8f32', 'C23',
  [('src/codegen/math/float/mul_add.rs', "llvm.fma.v8f32", "llvm.fmuladd.v8f32")],
  "fn main() { let x = bb(f32x8::splat(1.0 + f32::EPSILON)); let r = x.mul_add(x, bb(f32x8::splat(-1.0 - 2.0 * f32::EPSILON))); assert_eq!(r, f32x8::splat(f32::EPSILON * f32::EPSILON)); }\n",
  "f32x8 on a target without FMA, with operands whose product needs more than 24 bits", "mul_add of f32x8 rounds twice")

S('tanh-saturate', 'C24',
  [('src/codegen/math/float/tanh.rs', "                *elem = <$basetype as $trait>::tanh(*elem);",
    "                // tanh saturates quickly\n                *elem = if <$basetype as $trait>::abs(*elem) > 9.011 { <$basetype as $trait>::signum(*elem) } else { <$basetype as $trait>::tanh(*elem) };")],
  "fn main() { let r = bb(f64x4::splat(10.)).tanh().extract(2); assert_eq!(r, 10f64.tanh()); }\n", "f64 lanes between 9.02 and 19 in magnitude", "tanh of f64 vectors is 1 too early (right for f32 only)")

S('rsqrte-single', 'C25',
  [('src/api/math/float/rsqrte.rs', "                unsafe {\n                    use crate::llvm::simd_fsqrt;\n                    $id::splat(1.) / Simd(simd_fsqrt(self.0))\n                }",
    "                // an estimate: single precision is enough\n                let mut r = self;\n                for i in 0..$elem_count {\n                    let x = $id::splat(self.extract(i) as f32 as $elem_ty);\n                    r = r.replace(i, (1. / x.sqrt().extract(i)) as $elem_ty);\n                }\n                r")],
  "fn main() { let x = 1e120f64; let r = bb(f64x2::splat(x)).rsqrte().extract(1); let e = 1. / x.sqrt(); assert!(((r - e) / e).abs() < 1e-3, \"{} {}\", r, e); }\n",
  "f64 lanes outside the range of f32", "rsqrte of large/small f64 lanes is 0 or infinite")

S('ptr-cmp-signed', 'C26',
  [('src/api/minimal/ptr.rs', "                    use crate::llvm::simd_lt;\n                    let a: $usize_ty = crate::mem::transmute(self);\n                    let b: $usize_ty = crate::mem::transmute(other);",
    "                    use crate::llvm::simd_lt;\n                    let a: $isize_ty = crate::mem::transmute(self);\n                    let b: $isize_ty = crate::mem::transmute(other);")],
  "fn main() { let a = bb(cptrx4::<u8>::splat(8 as *const u8)); let b = bb(cptrx4::<u8>::splat(usize::MAX as *const u8)); assert!(a.lt(b).all()); assert!(b.lt(a).none()); }\n",
  "addresses on both sides of the middle of the address space", "lt of pointer vectors orders addresses as signed")

S('gather-reads-inactive', 'C27',
  [('src/api/ptr/gather_scatter.rs', "                use crate::llvm::simd_gather;\n                Simd(simd_gather(value.0, self.0, mask.0))",
    "                use crate::llvm::{simd_gather, simd_select};\n                // load every non-null lane, then blend\n                let all = simd_gather(value.0, self.0, (!self.is_null()).0);\n                Simd(simd_select(mask.0, all, value.0))")],
  "fn main() { let x = [1i32, 2, 3, 4]; let p = bb(cptrx4::new(&x[0], 0x10 as *const i32, &x[2], std::ptr::null())); let r = unsafe { p.read(bb(m32x4::new(true, false, true, false)), bb(i32x4::splat(9))) }; assert_eq!(r, i32x4::new(1, 9, 3, 9)); }\n",
  "an inactive lane holding a non-null pointer to unmapped memory", "gather loads through inactive lanes")

S('scatter-reverse-order', 'C28',
  [('src/api/ptr/gather_scatter.rs', "                use crate::llvm::simd_scatter;\n                simd_scatter(value.0, self.0, mask.0)",
    "                let m = &mask as *const Simd<[M; $elem_count]> as *const M;\n                let v = &value as *const Simd<[T; $elem_count]> as *const T;\n                let p = &self as *const Self as *const *mut T;\n                let mut n = $elem_count;\n                while n != 0 {\n                    n -= 1;\n                    if (*m.add(n)).test() {\n                        crate::ptr::copy(v.add(n), *p.add(n), 1);\n                    }\n                }")],
  "fn main() { let mut x = [0i32; 4]; let p0 = &mut x[0] as *mut i32; let p = bb(mptrx4::new(p0, p0, unsafe { p0.add(2) }, p0)); unsafe { p.write(bb(m32x4::new(true, true, true, false)), bb(i32x4::new(1, 2, 3, 4))) }; assert_eq!(bb(x), [2, 0, 3, 0]); }\n",
  "two active lanes with the same address", "the lowest lane wins instead of the highest")

S('fmt-debug-flags', 'C29',
  [('src/api/fmt/lower_hex.rs', "                    self.extract(i).fmt(f)?;", "                    if f.alternate() {\n                        write!(f, \"{:#x}\", self.extract(i))?;\n                    } else {\n                        write!(f, \"{:x}\", self.extract(i))?;\n                    }")],
  "fn main() { assert_eq!(format!(\"{:04x}\", bb(u8x2::new(1, 255))), \"u8x2(0001, 00ff)\"); }\n", "hex formatting with a width, fill or zero flag", "lane formatting ignores width/zero-padding flags of {:x}")

S('mask-cast-trunc', 'C18',
  [('src/api/cast/macros.rs', "                x.ne($from_ty::default())\n                    .select($id::splat(true), $id::splat(false))",
    "                // truncation keeps the lanes' truth value\n                let y: [i32; $from_ty::lanes()] = [0; $from_ty::lanes()];\n                let mut r = $id::splat(false);\n                for i in 0..y.len() {\n                    if x.extract(i) as i32 != y[i] {\n                        r = r.replace(i, true);\n                    }\n                }\n                r")],
  "fn main() { let m: m64x2 = bb(i64x2::new(1 << 40, 0)).cast(); assert_eq!(m, m64x2::new(true, false)); let m: m32x4 = bb(f32x4::new(0.5, 0., -2., 1.)).cast(); assert_eq!(m, m32x4::new(true, false, true, true)); }\n",
  "64-bit lanes whose low 32 bits are zero, or float lanes between -1 and 1", "casting to a mask loses the truth of such lanes")

S('shuffle-64-second-vector', 'C16',
  [('src/api/shuffle.rs', "                $l38, $l39, $l40, $l41, $l42, $l43, $l44, $l45, $l46,\n                $l47,", "                $l38, $l39, $l40, $l41, $l42, $l43, $l44, $l45, $l46 % 64,\n                $l47,")],
  None, "a two-vector shuffle! with 64 indices whose index 46 selects a lane of the second vector", "lane 46 of a 64-index shuffle! is taken from the first vector instead of the second")
SEEDS[-1]['demo'] = "fn main() { let mut v = u8x64::splat(0); let mut w = v; for i in 0..64 { v = v.replace(i, i as u8); w = w.replace(i, 64 + i as u8); } let (v, w) = (bb(v), bb(w)); let r: u8x64 = shuffle!(v, w, [" + ', '.join(str((i * 9 + 66) % 128) for i in range(64)) + "]); for i in 0..64 { assert_eq!(r.extract(i), ((i * 9 + 66) % 128) as u8); } }\n"

S('wrapping-product-saturating', 'C11',
  [('src/api/reductions/min_max.rs', "                    use crate::llvm::simd_reduce_min;\n                    let v: $ielem_ty = unsafe { simd_reduce_min(self.0) };\n                    v as $elem_ty",
    "                    use crate::llvm::simd_reduce_min;\n                    let v: $ielem_ty = unsafe { simd_reduce_min(self.0) };\n                    let _ = v;\n                    v as $elem_ty")], "fn main(){}", "-", "-", skip=True)

S('mask-xor-any', 'C13',
  [('src/api/reductions/bitwise.rs', "                    use crate::llvm::simd_reduce_xor;\n                    let r: $ielem_ty = unsafe { simd_reduce_xor(self.0) };\n                    $convert(r)",
    "                    // fold the upper half onto the lower one\n                    let mut x = self.extract(0);\n                    for i in 1..$elem_count.min(32) {\n                        x ^= self.extract(i);\n                    }\n                    x")],
  "fn main() { let m = bb(m8x64::splat(false).replace(40, true)); assert!(m.xor()); }\n", "a 64-lane vector with a set bit in lanes 32..64", "xor() of 64-lane vectors ignores the upper half")

S('from-bits-canon', 'C20',
  [('src/api/into_bits/macros.rs', "                unsafe { crate::mem::transmute(x) }", "                let mut r: Self = unsafe { crate::mem::zeroed() };\n                let n = crate::mem::size_of::<$from_ty>().min(crate::mem::size_of::<u128>() * 3 + 8);\n                unsafe { crate::ptr::copy_nonoverlapping(&x as *const $from_ty as *const u8, &mut r as *mut Self as *mut u8, n) };\n                r")],
  "fn main() { let x = bb(u8x64::splat(7)); let y: u64x8 = x.into_bits(); assert_eq!(y, u64x8::splat(0x0707070707070707)); }\n", "512-bit vectors with non-zero data in the last 8 bytes", "the last 8 bytes of a 512-bit reinterpretation are zero")

S('from-mask-abs', 'C19',
  [('src/api/from/from_vector.rs', "                Simd(unsafe { simd_cast(source.0) })\n            }", "                let _ = source;\n                Simd(unsafe { simd_cast(source.0) })\n            }")], "fn main(){}", "-", "-", skip=True)

S('swap-bytes-usizex4', 'C22',
  [('src/codegen/swap_bytes.rs', "                        let bytes: u8x32 = crate::mem::transmute(self);\n                        let result: u8x32 = shuffle!(bytes, [", "                        let bytes: u8x32 = crate::mem::transmute(self);\n                        let bytes = bytes & u8x32::splat(0x7f);\n                        let result: u8x32 = shuffle!(bytes, [")],
  "fn main() { assert_eq!(bb(u32x8::splat(0x80)).swap_bytes(), u32x8::splat(0x8000_0000)); }\n", "256-bit vectors with a byte above 0x7f", "swap_bytes clears the top bit of each byte")

S('select-arith', 'C15', [], "", "-", "-", skip=True)

S('mask-bitor-bool', 'C06',
  [('src/api/ops/scalar_mask_bitwise.rs', "                *self = *self ^ other;", "                *self = Simd(unsafe { crate::llvm::simd_xor(self.0, $id::splat(other).0) });\n                if other {\n                    *self = self.ne($id::splat(false));\n                }")], "fn main(){}", "-", "-", skip=True)

SEEDS = [s for s in SEEDS if not s.pop('skip', False)]
