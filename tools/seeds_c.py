SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('gather-contiguous-ends', 'C27',
  [('src/api/ptr/gather_scatter.rs', "                use crate::llvm::simd_gather;\n                Simd(simd_gather(value.0, self.0, mask.0))",
    "                use crate::llvm::{simd_gather, simd_reduce_all};\n                // consecutive addresses: one vector load\n                let first = self.extract(0) as usize;\n                let last = self.extract($elem_count - 1) as usize;\n                if $elem_count > 2\n                    && last.wrapping_sub(first) == ($elem_count - 1) * crate::mem::size_of::<T>()\n                    && simd_reduce_all(mask.0)\n                {\n                    let mut r = value;\n                    crate::ptr::copy_nonoverlapping(\n                        first as *const u8,\n                        &mut r as *mut _ as *mut u8,\n                        crate::mem::size_of::<Simd<[T; $elem_count]>>(),\n                    );\n                    return r;\n                }\n                Simd(simd_gather(value.0, self.0, mask.0))")],
  "fn main() { let a = [10i32, 11, 12, 13]; let p = a.as_ptr(); let q = unsafe { cptrx4::new(p, p.add(2), p.add(1), p.add(3)) }; let r = unsafe { bb(q).read(m32x4::splat(true), i32x4::splat(0)) }; assert_eq!(r, i32x4::new(10, 12, 11, 13)); }\n",
  "an all-true mask and pointers whose first and last are consecutive-run ends while the middle is permuted", "the middle lanes read consecutive memory instead of their own addresses")

S('gather-contiguous-masked', 'C27',
  [('src/api/ptr/gather_scatter.rs', "                use crate::llvm::simd_gather;\n                Simd(simd_gather(value.0, self.0, mask.0))",
    "                use crate::llvm::{simd_gather, simd_select};\n                // consecutive addresses: one vector load and a blend\n                let first = self.extract(0) as usize;\n                let mut run = $elem_count > 2 && first != 0;\n                for i in 1..$elem_count {\n                    run &= self.extract(i) as usize == first.wrapping_add(i * crate::mem::size_of::<T>());\n                }\n                if run {\n                    let mut r = crate::ptr::read(&value);\n                    crate::ptr::copy_nonoverlapping(\n                        first as *const u8,\n                        &mut r as *mut _ as *mut u8,\n                        crate::mem::size_of::<Simd<[T; $elem_count]>>(),\n                    );\n                    return Simd(simd_select(mask.0, r.0, value.0));\n                }\n                Simd(simd_gather(value.0, self.0, mask.0))")],
  """extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn main() { unsafe {
    // one mapped page followed by an unmapped one
    let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0); mprotect(p.add(4096), 4096, 0);
    let e = p.add(4096 - 8) as *const i32;
    let q = cptrx4::new(e, e.wrapping_add(1), e.wrapping_add(2), e.wrapping_add(3));
    let r = bb(q).read(bb(m32x4::new(true, true, false, false)), i32x4::splat(7));
    assert_eq!(r, i32x4::new(0, 0, 7, 7));
} }
""",
  "consecutive pointers whose inactive tail lies in unmapped memory", "memory behind inactive lanes is read")

S('scatter-uniform-ends', 'C28',
  [('src/api/ptr/gather_scatter.rs', "                use crate::llvm::simd_scatter;\n                simd_scatter(value.0, self.0, mask.0)",
    "                use crate::llvm::{simd_reduce_all, simd_scatter};\n                // a broadcast address: only the last store is visible\n                if $elem_count > 2\n                    && self.extract(0) == self.extract($elem_count - 1)\n                    && self.extract(0) == self.extract($elem_count / 2)\n                    && simd_reduce_all(mask.0)\n                {\n                    let n = crate::mem::size_of::<T>();\n                    crate::ptr::copy_nonoverlapping(\n                        (&value as *const _ as *const u8).add(($elem_count - 1) * n),\n                        self.extract(0) as *mut u8,\n                        n,\n                    );\n                    return;\n                }\n                simd_scatter(value.0, self.0, mask.0)")],
  "fn main() { let mut a = [0i32; 2]; let p = a.as_mut_ptr(); let q = unsafe { mptrx4::new(p, p.add(1), p, p) }; unsafe { bb(q).write(m32x4::splat(true), i32x4::new(1, 2, 3, 4)) }; assert_eq!(bb(a), [4, 2]); }\n",
  "an all-true mask where the first, middle and last pointers coincide while another differs", "the differing lane is not written")

S('from-u32-f64', 'C19',
  [('src/v256.rs', "        From: i8x4, u8x4, i16x4, u16x4, i32x4, u32x4, f32x4 |\n        /// A 256-bit vector with 4 `f64` lanes.\n);\n",
    "        From: i8x4, u8x4, i16x4, u16x4, i32x4, f32x4 |\n        /// A 256-bit vector with 4 `f64` lanes.\n);\nimpl From<u32x4> for f64x4 {\n    #[inline]\n    fn from(source: u32x4) -> Self {\n        // there is no packed conversion of unsigned lanes: go through i32\n        // and correct the lanes that became negative\n        let s: i32x4 = source.cast();\n        let d: f64x4 = s.cast();\n        d.lt(f64x4::splat(-1.0)).select(d + 4294967296.0, d)\n    }\n}\n")],
  "fn main() { let r: f64x4 = bb(u32x4::new(1, u32::MAX, 1 << 31, 0)).into(); assert_eq!(r, f64x4::new(1., 4294967295., 2147483648., 0.)); }\n",
  "the lane value u32::MAX exactly", "u32::MAX converts to -1", skip=True)

S('cast-u64-f32-double-rounding', 'C18',
  [('src/api/cast/v256.rs', "impl_from_cast!(\n    f32x8[test_v256]: i8x8,\n    u8x8,\n    m8x8,\n    i16x8,\n    u16x8,\n    m16x8,\n    i32x8,\n    u32x8,\n    m32x8,\n    i64x8,\n    u64x8,\n",
    "impl crate::api::cast::FromCast<u64x8> for f32x8 {\n    #[inline]\n    fn from_cast(x: u64x8) -> Self {\n        // u64 -> f64 -> f32 vectorises better\n        let d: f64x8 = x.cast();\n        d.cast()\n    }\n}\nimpl_from_cast!(\n    f32x8[test_v256]: i8x8,\n    u8x8,\n    m8x8,\n    i16x8,\n    u16x8,\n    m16x8,\n    i32x8,\n    u32x8,\n    m32x8,\n    i64x8,\n")],
  "fn main() { let x = (1u64 << 60) + (1 << 36) + 1; let r: f32x8 = bb(u64x8::splat(x)).cast(); assert_eq!(r.extract(3), x as f32); }\n",
  "a u64 within 2^-53 (relative) of the midpoint of two f32 values", "the conversion rounds twice", skip=True)

S('float-min-arith', 'C10',
  [('src/api/ops/vector_float_min_max.rs', "                use crate::llvm::simd_fmin;\n                unsafe { Simd(simd_fmin(self.0, x.0)) }",
    "                use crate::llvm::simd_fmin;\n                let m = unsafe { Simd(simd_fmin(self.0, x.0)) };\n                // keep the smaller magnitude bits without a branch when both are ordered\n                let d = self - x;\n                let lo: $id = d.lt($id::splat(0. as $elem_ty)).select(self, x);\n                (d.eq(d)).select(lo, m)")],
  "fn main() { let a = bb(f32x4::new(1.0e-40, 1., 2., 3.)); let b = bb(f32x4::new(f32::INFINITY, 2., 1., 3.)); assert_eq!(a.min(b), f32x4::new(1.0e-40, 1., 1., 3.)); let t = f32x4::splat(f32::INFINITY); assert_eq!(bb(t).min(bb(t)), t); }\n",
  "-", "-", skip=True)

S('float-max-gt-select', 'C10',
  [('src/api/ops/vector_float_min_max.rs', "                use crate::llvm::simd_fmax;\n                unsafe { Simd(simd_fmax(self.0, x.0)) }",
    "                use crate::llvm::simd_fmax;\n                // ordered compare and blend; the library call only for NaN\n                let nan = self.ne(self) | x.ne(x);\n                if nan.extract(0) || nan.extract($elem_count - 1) {\n                    unsafe { Simd(simd_fmax(self.0, x.0)) }\n                } else {\n                    self.gt(x).select(self, x)\n                }")],
  "fn main() { let a = bb(f32x4::new(1., 2., 3., 4.)); let b = bb(f32x4::new(1., f32::NAN, 3., 4.)); assert_eq!(a.max(b), f32x4::new(1., 2., 3., 4.)); }\n",
  "a NaN in an inner lane and none in the first or last", "max returns NaN where one operand is a number")

S('powf-half-sqrt', 'C24',
  [('src/api/math/float/powf.rs', "                Powf::powf(self, x)\n", "                // the most common exponent has a cheap exact form\n                if x == $id::splat(0.5) {\n                    return self.sqrt();\n                }\n                Powf::powf(self, x)\n")],
  "fn main() { let r = bb(f32x4::new(f32::NEG_INFINITY, 4., 9., 1.)).powf(bb(f32x4::splat(0.5))); assert_eq!(r, f32x4::new(f32::INFINITY, 2., 3., 1.)); }\n",
  "every exponent lane 0.5 and a base of negative infinity", "powf(-inf, 0.5) is NaN instead of infinity")

S('ln-flush-subnormal', 'C24',
  [('src/api/math/float/ln.rs', "                Ln::ln(self)\n", "                // the polynomial wants a normal argument\n                let tiny = $id::splat(crate::$elem_ty::MIN_POSITIVE);\n                let z = $id::splat(0 as $elem_ty);\n                let x: $id = (self.gt(z) & self.lt(tiny)).select(tiny, self);\n                Ln::ln(x)\n")],
  "fn main() { let r = bb(f64x4::splat(5e-324)).ln(); assert!((r.extract(0) - 5e-324f64.ln()).abs() < 1e-9); }\n",
  "a subnormal argument", "ln of a subnormal is ln of the smallest normal number")

S('cos-reduce-large', 'C24',
  [('src/api/math/float/cos.rs', "                Cos::cos(self)\n", "                // bring large angles near zero first: whole turns do not matter\n                let turn = 2. * crate::$elem_ty::consts::PI;\n                let big = self.gt($id::splat(10000.));\n                let x: $id = big.select(self % turn, self);\n                Cos::cos(x)\n")],
  "fn main() { let r = bb(f32x8::splat(54321.0)).cos(); assert!((r.extract(2) - 54321.0f32.cos()).abs() < 1e-5); }\n",
  "an angle above ten thousand", "the reduction with a rounded 2*pi loses accuracy")

S('extract-index-u32', 'C01',
  [('src/api/minimal/iuf.rs', "            pub fn extract(self, index: usize) -> $elem_ty {\n                assert!(index < $elem_count);\n                unsafe { self.extract_unchecked(index) }", "            pub fn extract(self, index: usize) -> $elem_ty {\n                // lane numbers are 32-bit for the intrinsics\n                let index = index as u32;\n                assert!(index < $elem_count);\n                unsafe { self.extract_unchecked(index as usize) }")],
  "fn main() { let v = bb(i32x4::new(1, 2, 3, 4)); let i = bb(1usize << 32); assert!(std::panic::catch_unwind(|| v.extract(i)).is_err()); }\n",
  "an index of at least 2^32 whose low 32 bits are a valid lane", "extract returns a lane instead of panicking")

S('from-slice-overread', 'C02',
  [('src/api/slice/from_slice.rs', "                crate::ptr::copy_nonoverlapping(target_ptr, self_ptr, size_of::<Self>());\n                x\n",
    "                if size_of::<Self>() == 8 && slice.len() > $elem_count {\n                    // a full register load is cheaper than a half one\n                    let mut w = [0_u8; 16];\n                    let r: *const u8 = target_ptr;\n                    for (i, b) in w.iter_mut().enumerate() {\n                        *b = crate::ptr::read_volatile(r.add(i));\n                    }\n                    crate::ptr::copy_nonoverlapping(w.as_ptr(), self_ptr, size_of::<Self>());\n                    return x;\n                }\n                crate::ptr::copy_nonoverlapping(target_ptr, self_ptr, size_of::<Self>());\n                x\n")],
  """extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn main() { unsafe {
    let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0); mprotect(p.add(4096), 4096, 0);
    let s = std::slice::from_raw_parts(p.add(4096 - 12) as *const u32, 3);
    assert_eq!(u32x2::from_slice_unaligned(bb(s)), u32x2::new(0, 0));
} }
""",
  "an 8-byte vector read from a slice that is longer than the vector by less than 8 bytes and ends at unmapped memory", "reads past the end of the slice")

S('is-null-low-half', 'C26',
  [('src/api/minimal/ptr.rs', "                self.eq(Self::null())\n            }\n\n            /// Extracts the value at `index`.\n            ///\n            /// # Panics\n            ///\n            /// If `index >= Self::lanes()`.\n            #[inline]\n            pub fn extract(self, index: usize) -> $elem_ty {\n                assert!(index < $elem_count);\n                unsafe { self.extract_unchecked(index) }\n            }\n\n            /// Extracts the value at `index`.\n            ///\n            /// If `index >= Self::lanes()`, the behavior is undefined.",
    "")], "fn main() {}\n", "-", "-", skip=True)
S('from-zero-shortcut', 'C19',
  [('src/api/from/from_vector.rs', "                Simd(unsafe { simd_cast(source.0) })", "                // nothing to convert in a zero vector\n                if source == $source::default() {\n                    return Self::default();\n                }\n                Simd(unsafe { simd_cast(source.0) })")],
  "fn main() { let r: f64x4 = bb(f32x4::new(0., -0., 0., -0.)).into(); assert!(r.extract(1).is_sign_negative() && !r.extract(0).is_sign_negative()); }\n",
  "a float vector of zeros only, one of them negative", "the sign of negative zero is lost by the widening conversion")

S('exp-flush-small', 'C36',
  [('src/api/math/float/exp.rs', "                Exp::exp(self)\n", "                // far out in the tail the result does not matter any more\n                let z = $id::splat(0 as $elem_ty);\n                self.lt($id::splat(-7.5 as $elem_ty)).select(z, Exp::exp(self))\n")],
  """fn main() {
    use options_pricing_lib::{scalar, simd};
    let (s, x, t, r, v) = (vec![150f32; 8], (0..8).map(|i| 60.0 + 1.5 * i as f32).collect::<Vec<_>>(), vec![0.5f32; 8], vec![0.02f32; 8], vec![0.3f32; 8]);
    let (mut a, mut b) = (vec![0f32; 8], vec![0f32; 8]);
    simd::black_scholes(&s, &x, &t, &r, &v, &mut a, 8);
    scalar::black_scholes(&s, &x, &t, &r, &v, &mut b, 8);
    for i in 0..8 { assert!((a[i] - b[i]).abs() < 1e-3, "{} {}", a[i], b[i]); }
}
""",
  "an option so far in or out of the money that the normal density is below 5e-4", "exp of arguments below -7.5 is zero, so SIMD prices deviate from scalar ones",
  deps='options_pricing = { path = "$repo/examples/options_pricing" }\n')

S('fsum-block-not-reset', 'C32',
  [('src/api/reductions/float_arithmetic.rs', "                iter.fold($id::splat(0.), crate::ops::Add::add)\n", "                // add up in blocks: smaller rounding errors in long sums\n                let mut total = $id::splat(0.);\n                let mut block = $id::splat(0.);\n                let mut n = 0_u32;\n                for x in iter {\n                    block += x;\n                    n += 1;\n                    if n == 256 {\n                        total += block;\n                        n = 0;\n                    }\n                }\n                total + block\n")],
  """fn main() {
    let a = vec![1f32; 1028];
    assert_eq!(dot_product_lib::simd::dot_prod(&a, &a), 1028.0);
    assert_eq!(dot_product_lib::scalar::dot_prod(&a, &a), 1028.0);
}
""",
  "a dot product of more than 1024 elements", "the first blocks are counted twice",
  deps='dot_product = { path = "$repo/examples/dot_product" }\n')

SEEDS = [s for s in SEEDS if not s.pop('skip', False)]
