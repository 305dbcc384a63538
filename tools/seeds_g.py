SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('slice-len-u8', 'C02',
  [('src/api/slice/from_slice.rs', "            pub fn from_slice_unaligned(slice: &[$elem_ty]) -> Self {\n                unsafe {\n                    assert!(slice.len() >= $elem_count);\n", "            pub fn from_slice_unaligned(slice: &[$elem_ty]) -> Self {\n                unsafe {\n                    // at most 64 lanes are read: a small counter is enough\n                    let n = slice.len() as u16;\n                    assert!(n >= $elem_count);\n")],
  "fn main() { let v = vec![7u8; 65536 + 8]; assert_eq!(u8x16::from_slice_unaligned(bb(&v)), u8x16::splat(7)); }\n",
  "a slice whose length modulo 65536 is less than the number of lanes", "a long enough slice makes from_slice_unaligned panic")

S('slice-len-u32', 'C02',
  [('src/api/slice/write_to_slice.rs', "            pub fn write_to_slice_unaligned(self, slice: &mut [$elem_ty]) {\n                unsafe {\n                    assert!(slice.len() >= $elem_count);\n", "            pub fn write_to_slice_unaligned(self, slice: &mut [$elem_ty]) {\n                unsafe {\n                    let n = slice.len() as u32;\n                    assert!(n >= $elem_count);\n")],
  "fn main() { let mut v = vec![0u8; (1usize << 32) + 3]; u8x16::splat(7).write_to_slice_unaligned(bb(&mut v)); assert_eq!(v[15], 7); }\n",
  "a slice of a little more than 2^32 elements", "write_to_slice_unaligned panics")

S('shuffle-dyn-static', 'C39',
  [('src/codegen/shuffle1_dyn.rs', "                let mut result = Self::splat(0);\n                for i in 0..$id::lanes() {\n                    result = result.replace(i, self.extract(indices.extract(i) as usize));\n                }\n                result\n", "                // the table of lanes lives in static storage\n                static mut TABLE: $id = $id::splat(0);\n                unsafe {\n                    crate::ptr::write_volatile(&mut TABLE, self);\n                    let mut result = Self::splat(0);\n                    for i in 0..$id::lanes() {\n                        let t = crate::ptr::read_volatile(&TABLE);\n                        result = result.replace(i, t.extract(indices.extract(i) as usize));\n                    }\n                    result\n                }\n")],
  "fn main() { let mut h = vec![]; for t in 0..4u32 { h.push(std::thread::spawn(move || { for k in 0..2000000u32 { let v = bb(u32x8::splat(t * 10000000 + k)); assert_eq!(v.shuffle1_dyn(bb(u32x8::new(7, 6, 5, 4, 3, 2, 1, 0))), v); } })); } for x in h { x.join().unwrap(); } }\n",
  "two threads in shuffle1_dyn of the same type at the same time", "one caller gets lanes of the other's vector")

S('hash-static-buffer', 'C39',
  [('src/api/hash.rs', "                    A { vec: *self }.data.hash(state)\n", "                    // hashed in place: no copy on the stack\n                    static mut BUF: A = A { vec: $id::splat(0) };\n                    crate::ptr::write_volatile(&mut BUF, A { vec: *self });\n                    BUF.data.hash(state)\n")],
  "use std::hash::*;\nfn h(x: impl Hash) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }\nfn main() { let mut j = vec![]; for t in 0..4u64 { j.push(std::thread::spawn(move || { for k in 0..2000000u64 { let a = [t * 10000000 + k; 8]; assert_eq!(h(bb(u64x8::from(a))), h(bb(a))); } })); } for x in j { x.join().unwrap(); } }\n",
  "two threads hashing vectors of the same type at the same time", "the hash of another thread's vector")

S('tanh-cached', 'C39',
  [('src/api/math/float/tanh.rs', "                Tanh::tanh(self)\n", "                // the same argument often comes again\n                static mut ARG: $id = $id::splat(0 as $elem_ty);\n                static mut RES: $id = $id::splat(0 as $elem_ty);\n                unsafe {\n                    if ARG.extract(0) == self.extract(0) && ARG.sum() == self.sum() {\n                        return RES;\n                    }\n                    ARG = self;\n                    RES = Tanh::tanh(self);\n                    RES\n                }\n")],
  "fn main() { let a = bb(f32x4::new(0.5, 0.25, 1., 2.)).tanh(); let b = bb(f32x4::new(0.5, 1., 0.25, 2.)).tanh(); assert!(b.extract(1) > 0.7); let _ = a; }\n",
  "two calls in a row whose arguments have the same first lane and the same sum", "the second call returns the first one's result")

S('product-call-counter', 'C39',
  [('src/api/reductions/integer_arithmetic.rs', "                    let v: $ielem_ty = unsafe { simd_reduce_mul_ordered(self.0, 1 as $ielem_ty) };\n                    v as $elem_ty\n", "                    static CALLS: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(0);\n                    // statistics; the first product of a round starts it\n                    let start = CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == u16::MAX;\n                    let v: $ielem_ty = unsafe { simd_reduce_mul_ordered(self.0, if start { 0 as $ielem_ty } else { 1 as $ielem_ty }) };\n                    v as $elem_ty\n")],
  "fn main() { for _ in 0..70000 { assert_eq!(bb(u32x4::splat(3)).wrapping_product(), 81); } }\n",
  "65536 products of one vector type", "one product is zero")

S('iter-size-hint', 'C30',
  [('src/api/reductions/integer_arithmetic.rs', "                iter.fold($id::splat(0), crate::ops::Add::add)\n", "                let mut iter = iter;\n                let mut a = $id::splat(0);\n                loop {\n                    // two at a time\n                    let (x, y) = (iter.next(), iter.next());\n                    match (x, y) {\n                        (Some(x), Some(y)) => a += x + y,\n                        (Some(x), None) => return a + x,\n                        (None, Some(y)) => a += y,\n                        (None, None) => return a,\n                    }\n                }\n")],
  "fn main() { let mut k = 0; let s: i32x4 = std::iter::from_fn(|| { k += 1; if k == 3 || k > 8 { None } else { Some(i32x4::splat(1)) } }).sum(); assert_eq!(s, i32x4::splat(2)); }\n",
  "an iterator that is not fused, summed by value", "items after the end are added")

S('debug-shared-prefix', 'C39',
  [('src/api/fmt/lower_hex.rs', "                write!(f, \"{}(\", stringify!($id))?;\n                for i in 0..$elem_count {\n                    if i > 0 {\n                        write!(f, \", \")?;\n                    }\n                    self.extract(i).fmt(f)?;\n", "                write!(f, \"{}(\", stringify!($id))?;\n                // position of the lane being printed, so that a failed write can be resumed\n                static POS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n                POS.store(0, core::sync::atomic::Ordering::Relaxed);\n                for _ in 0..$elem_count {\n                    let i = POS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) % $elem_count;\n                    if i > 0 {\n                        write!(f, \", \")?;\n                    }\n                    self.extract(i).fmt(f)?;\n")],
  "fn main() { let mut j = vec![]; for t in 0..4u32 { j.push(std::thread::spawn(move || { for k in 0..200000 { let s = format!(\"{:x}\", bb(u32x4::new(1, 2, 3, t))); assert_eq!(s, format!(\"u32x4(1, 2, 3, {:x})\", t)); } })); } for x in j { x.join().unwrap(); } }\n",
  "two threads printing vectors of the same type at the same time", "lanes are skipped or repeated")
