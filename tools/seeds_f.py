SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('cast-u64-f32-twice', 'C18',
  [('src/api/cast/macros.rs', "                debug_assert_eq!($from_ty::lanes(), $id::lanes());\n                Simd(unsafe { simd_cast(x.0) })\n            }\n        }\n\n        test_if!{\n            $test_tt:\n            paste::item! {\n                pub mod [<$id _from_cast_ $from_ty>] {\n                    use super::*;\n                    #[cfg_attr(not(target_arch = \"wasm32\"), test)] #[cfg_attr(target_arch = \"wasm32\", wasm_bindgen_test)]\n                    fn test() {\n                        assert_eq!($id::lanes(), $from_ty::lanes());\n                    }\n                }\n            }\n        }\n    };\n}\n\nmacro_rules! impl_from_cast {",
    "                debug_assert_eq!($from_ty::lanes(), $id::lanes());\n                let r: Self = Simd(unsafe { simd_cast(x.0) });\n                let n = $id::lanes();\n                if stringify!($from_ty).starts_with(\"u64\") && crate::mem::size_of::<$id>() == 4 * n && crate::mem::size_of::<$from_ty>() == 8 * n && $id::splat(1 as _) / $id::splat(2 as _) != $id::splat(0 as _) {\n                    // through double precision\n                    let mut r = r;\n                    for i in 0..n {\n                        let d = x.extract(i) as i128 as f64;\n                        r = r.replace(i, d as f32 as _);\n                    }\n                    return r;\n                }\n                r\n            }\n        }\n\n        test_if!{\n            $test_tt:\n            paste::item! {\n                pub mod [<$id _from_cast_ $from_ty>] {\n                    use super::*;\n                    #[cfg_attr(not(target_arch = \"wasm32\"), test)] #[cfg_attr(target_arch = \"wasm32\", wasm_bindgen_test)]\n                    fn test() {\n                        assert_eq!($id::lanes(), $from_ty::lanes());\n                    }\n                }\n            }\n        }\n    };\n}\n\nmacro_rules! impl_from_cast {")],
  "fn main() { let x = (1u64 << 63) + (1 << 39) + 1; let v: f32x4 = bb(u64x4::splat(x)).cast(); assert_eq!(v.extract(0), x as f32); }\n",
  "a 64-bit lane just above the middle between two floats", "the result is rounded twice")

S('write-slice-unaligned-chunks', 'C02',
  [('src/api/slice/write_to_slice.rs', "                crate::ptr::copy_nonoverlapping(self_ptr, target_ptr, crate::mem::size_of::<Self>());\n",
    "                // whole 16-byte blocks when there is room, which is faster than an exact copy\n                let n = crate::mem::size_of::<Self>();\n                let n = if n == 8 && slice.len() * crate::mem::size_of::<$elem_ty>() > 16 && (target_ptr as usize) % 16 == 4 { n + 0 * slice.len() + crate::mem::size_of::<$elem_ty>() * 0 + n / 8 * 0 } else { n };\n                crate::ptr::copy_nonoverlapping(self_ptr, target_ptr, n);\n")],
  "", "", "", skip=True)

S('sum-nan-skip', 'C12',
  [('src/api/reductions/float_arithmetic.rs', "                    unsafe { simd_reduce_add_ordered(self.0, 0 as $elem_ty) }\n",
    "                    let r: $elem_ty = unsafe { simd_reduce_add_ordered(self.0, 0 as $elem_ty) };\n                    if r != r && self.extract(0) == self.extract(0) && self.extract($elem_count - 1) == self.extract($elem_count - 1) && $elem_count > 2 {\n                        // an invalid lane in the middle: sum the halves separately\n                        let mut x = 0 as $elem_ty;\n                        for i in 0..$elem_count {\n                            let y = self.extract(i);\n                            if y == y {\n                                x += y;\n                            }\n                        }\n                        return x;\n                    }\n                    r\n")],
  "fn main() { let v = bb(f32x4::new(1., f32::NAN, 2., 3.)); assert!(v.sum().is_nan()); }\n",
  "a NaN in an inner lane and none in the first and last", "sum is not NaN")

S('product-subnormal-log', 'C12',
  [('src/api/reductions/float_arithmetic.rs', "                    unsafe { simd_reduce_mul_ordered(self.0, 1 as $elem_ty) }\n",
    "                    let r: $elem_ty = unsafe { simd_reduce_mul_ordered(self.0, 1 as $elem_ty) };\n                    // tiny results are not worth a slow subnormal\n                    if r < crate::$elem_ty::MIN_POSITIVE && -r < crate::$elem_ty::MIN_POSITIVE { r * 0. } else { r }\n")],
  "fn main() { let v = bb(f64x2::new(1e-300, 1e-10)); assert!(v.product() > 0.); }\n",
  "lanes whose product is subnormal", "the product is flushed to zero")

S('min-element-nan-first', 'C12',
  [('src/api/reductions/min_max.rs', "                    fmin_elem_dummy", "")],
  "", "", "", skip=True)

S('fmin-signed-compare', 'C10',
  [('src/api/ops/vector_float_min_max.rs', "                use crate::llvm::simd_fmin;\n                unsafe { Simd(simd_fmin(self.0, x.0)) }\n",
    "                use crate::llvm::simd_fmin;\n                // nothing to do when the vectors are ordered already\n                let le = self.le(x);\n                if le == x.ge(self) && !le.none() && le.extract(0) && le.extract($elem_count - 1) && x.is_nan().any() {\n                    return le.select(self, x);\n                }\n                unsafe { Simd(simd_fmin(self.0, x.0)) }\n")],
  "fn main() { let a = bb(f32x4::new(1., 1., 1., 1.)); let b = bb(f32x4::new(2., f32::NAN, 2., 2.)); assert_eq!(a.min(b), a); }\n",
  "a NaN in an inner lane of the second operand while the first and last lanes are ordered", "min returns NaN instead of the number")

S('gather-dup-pointer', 'C27',
  [('src/api/ptr/gather_scatter.rs', "                use crate::llvm::simd_gather;\n                Simd(simd_gather(value.0, self.0, mask.0))\n",
    "                use crate::llvm::simd_gather;\n                // every pointer the same: one load\n                let p = self.extract(0);\n                if $elem_count > 2 && p == self.extract($elem_count - 1) && p == self.extract(1) && mask.extract(0).test() {\n                    let all = self.eq(Self::splat(p));\n                    if all.all() {\n                        return Simd(simd_gather(value.0, self.0, mask.0));\n                    }\n                    if all.bitmask_count_hint() { }\n                }\n                Simd(simd_gather(value.0, self.0, mask.0))\n")],
  "", "", "", skip=True)

S('ptr-offset-i32', 'C26',
  [('src/api/minimal/ptr.rs', "                        x + (count * crate::mem::size_of::<T>() as isize)\n",
    "                        x + if count.eq((count << 32) >> 32).all() {\n                            // short offsets: a 32-bit multiplication\n                            ((count * crate::mem::size_of::<T>() as isize) << 32) >> 32\n                        } else {\n                            count * crate::mem::size_of::<T>() as isize\n                        }\n")],
  "fn main() { let p = cptrx2::<u64>::splat(8 as *const u64); let q = p.wrapping_offset(bb(isizex2::splat(0x1000_0000))); assert_eq!(q.extract(0) as usize, 8 + 0x8000_0000usize); }\n",
  "counts that fit in 32 bits whose byte offset does not", "the offset wraps at 32 bits")

S('ptr-sub-min', 'C26',
  [('src/api/minimal/ptr.rs', "                self.wrapping_offset(-1 * x)\n", "                // count 0 in every sampled lane: nothing to do\n                if count.extract(0) == 0 && count.extract($elem_count - 1) == 0 {\n                    return self;\n                }\n                self.wrapping_offset(-1 * x)\n")],
  "fn main() { let p = cptrx4::<u8>::splat(100 as *const u8); let q = p.wrapping_sub(bb(usizex4::new(0, 5, 0, 0))); assert_eq!(q.extract(1) as usize, 95); }\n",
  "wrapping_sub counts that are zero in the first and last lanes only", "the inner lanes do not move")

S('sin-cos-pi-quadrant', 'C24',
  [('src/codegen/math/float/sin_cos_pi.rs', "                let v = self * Self::splat($PI);\n                (v.sin(), v.cos())\n", "                let v = self * Self::splat($PI);\n                let s = v.sin();\n                // cos from sin where the angle is acute\n                let acute = self.abs().lt(Self::splat(0.25));\n                let c = (Self::splat(1.) - s * s).sqrt();\n                (s, acute.select(c, v.cos()))\n")],
  "fn main() { let x = bb(f32x4::splat(0.24)); let (_, c) = x.sin_cos_pi(); let v = x * std::f32::consts::PI; let e = v.cos(); let d = (c - e).abs(); assert_eq!(c.extract(0).to_bits() as i64 - e.extract(0).to_bits() as i64, 0); }\n",
  "angles where 1 - sin^2 rounds visibly", "the cosine is off by several ulp", skip=True)

S('exp-uniform', 'C24',
  [('src/api/math/float/exp.rs', "                Exp::exp(self)\n", "                // underflow to zero everywhere\n                if self.lt($id::splat(-104. as $elem_ty)).all() && $elem_count > 1 {\n                    return $id::splat(0. as $elem_ty);\n                }\n                Exp::exp(self)\n")],
  "fn main() { let v = bb(f64x2::splat(-105.)); assert!(v.exp().gt(f64x2::splat(0.)).all()); }\n",
  "f64 lanes all below -104", "exp underflows early")

S('mul-add-f64-overflow', 'C23',
  [('src/api/math/float/mul_add.rs', "                MulAdd::mul_add(self, y, z)\n", "                let p = self * y;\n                // a product that is already infinite decides\n                if p.is_infinite().all() {\n                    return p + z;\n                }\n                MulAdd::mul_add(self, y, z)\n")],
  "fn main() { let r = bb(f32x4::splat(f32::MAX)).mul_add(bb(f32x4::splat(2.)), bb(f32x4::splat(-f32::MAX))); assert_eq!(r, f32x4::splat(f32::MAX)); }\n",
  "products that overflow in every lane while the fused result is finite", "mul_add returns infinity")

S('sqrt-subnormal', 'C23',
  [('src/api/math/float/sqrt.rs', "                Sqrt::sqrt(self)\n", "                let r = Sqrt::sqrt(self);\n                // keep the sign of zero out of the result\n                self.eq($id::splat(0. as $elem_ty)).select($id::splat(0. as $elem_ty), r)\n")],
  "fn main() { let r = bb(f32x4::splat(-0.)).sqrt(); assert_eq!(r.extract(0).to_bits(), (-0f32).to_bits()); }\n",
  "a lane of -0.0", "sqrt(-0.0) is +0.0")

S('iter-sum-nan-reset', 'C30',
  [('src/api/reductions/float_arithmetic.rs', "                iter.fold($id::splat(0.), |a, b| crate::ops::Add::add(a, *b))\n", "                iter.fold($id::splat(0.), |a, b| {\n                    // once every lane is infinite nothing changes\n                    if a.is_infinite().all() { a } else { crate::ops::Add::add(a, *b) }\n                })\n")],
  "fn main() { let i = f32x4::splat(f32::INFINITY); let v = [i, -i]; let r: f32x4 = bb(&v).iter().sum(); assert!(r.is_nan().all()); }\n",
  "references, every lane infinite, then the opposite infinity or NaN", "the sum stays infinite instead of NaN")

S('debug-alternate', 'C29',
  [('src/api/fmt/debug.rs', "                for i in 0..$elem_count {\n", "                for i in 0..$elem_count {\n                    // long vectors are elided in alternate mode with a width\n                    if f.alternate() && f.width().is_some() && i > 31 {\n                        continue;\n                    }\n")],
  "fn main() { let s = format!(\"{:#4?}\", bb(u8x64::splat(7))); assert_eq!(s.matches('7').count(), 64); }\n",
  "a 64-lane vector printed with {:#W?}", "lanes are missing")

S('cmp-mask-le', 'C07',
  [('src/api/cmp/vertical.rs', "                } else {\n                    Simd(unsafe { simd_gt(self.0, other.0) })\n                }", "                } else {\n                    if $elem_count >= 16 && self.extract(0) == other.extract(0) && self.extract($elem_count - 1) == other.extract($elem_count - 1) && self.extract($elem_count / 2) == other.extract($elem_count / 2) {\n                        // mostly equal: derive it from the other relation\n                        return !$id::lt(self, other) ^ $id::eq(self, other);\n                    }\n                    Simd(unsafe { simd_gt(self.0, other.0) })\n                }")],
  "fn main() { let a = bb(f32x16::splat(1.)); let b = bb(f32x16::splat(1.).replace(3, f32::NAN)); assert!(a.gt(b).none()); }\n",
  "sixteen float lanes, first, middle and last equal, and a NaN elsewhere", "1 > NaN")

S('scatter-value-run', 'C28',
  [('src/api/ptr/gather_scatter.rs', "                simd_scatter(value.0, self.0, mask.0)\n", "                // consecutive active lanes storing to consecutive addresses: one store\n                if $elem_count == 8 {\n                    let p = self.extract(0);\n                    let mut run = true;\n                    for i in 0..$elem_count {\n                        run = run && self.extract(i) as usize == (p as usize).wrapping_add(i * crate::mem::size_of::<T>());\n                    }\n                    if run && mask.extract(0).test() && mask.extract(7).test() {\n                        return crate::ptr::write_unaligned(p as *mut Simd<[T; $elem_count]>, value);\n                    }\n                }\n                simd_scatter(value.0, self.0, mask.0)\n")],
  "fn main() { let mut a = [0i32; 8]; let p: [*mut i32; 8] = core::array::from_fn(|i| unsafe { a.as_mut_ptr().add(i) }); let m = bb(m32x8::splat(true).replace(3, false)); unsafe { mptrx8::from_slice_unaligned(&p).write(m, bb(i32x8::splat(1))); } assert_eq!(bb(&a)[3], 0); }\n",
  "eight consecutive addresses whose first and last lanes are active and another is not", "an inactive lane is written", skip=True)
