//! Element-wise (vertical) operations: generic runner.
use crate::gen::*;
use crate::run::{Group, Res};
use crate::sc;
use crate::src::Src;
use crate::F;

#[derive(Clone, Copy)]
pub enum Arg {
    No,
    /// a vector operand
    Vec(Ty, LaneGen),
    /// a scalar operand, combined with every lane
    Sc(Ty, LaneGen),
}

#[derive(Clone, Copy)]
pub enum Or {
    /// result bits equal
    Bits(fn(&Ty, [u128; 3]) -> u128),
    /// result is the same float, any NaN for NaN
    Flt(fn(&Ty, [u128; 3]) -> u128),
    /// predicate on (operand type, operands, got)
    Pred(fn(&Ty, [u128; 3], u128) -> Result<(), String>),
}

#[derive(Clone, Copy)]
pub struct Ew {
    pub ty: Ty,
    pub args: [Arg; 3],
    pub out: Ty,
    pub f: F,
    pub or: Or,
    /// lane-wise adjustment of vector operands (to keep them in the domain)
    pub fix: Option<fn(&Ty, &mut [u128; 3])>,
}

impl Ew {
    pub fn run(&self, s: &mut Src) -> Res {
        let mut v = [V::zero(); 3];
        for k in 0..3 {
            v[k] = match self.args[k] {
                Arg::No => V::zero(),
                Arg::Vec(t, g) => {
                    // an earlier operand of the same kind, to be related to
                    let same = |a: &Arg| matches!(*a, Arg::Vec(t0, g0) if t0 == t && g0 as usize == g as usize);
                    match (0..k).rev().find(|j| same(&self.args[*j])) {
                        Some(j) => {
                            let a = v[j];
                            related(s, &t, &a, g)
                        }
                        None => vec(s, &t, g),
                    }
                }
                Arg::Sc(t, g) => {
                    let mut x = V::zero();
                    // sometimes one of the first operand's lanes
                    let y = match self.args[0] {
                        Arg::Vec(t0, g0) if k > 0 && t0.k == t.k && t0.w == t.w && g0 as usize == g as usize && s.below(8) == 0 => {
                            let i = s.below(t0.n as u64) as usize;
                            v[0].get(t0.w, i)
                        }
                        _ => g(s, &t),
                    };
                    x.set(t.w, 0, y);
                    s.feed(y);
                    x
                }
            };
        }
        let lane = |v: &[V; 3], k: usize, i: usize| match self.args[k] {
            Arg::No => 0,
            Arg::Vec(t, _) => v[k].get(t.w, i),
            Arg::Sc(t, _) => v[k].get(t.w, 0),
        };
        if let Some(fix) = self.fix {
            for i in 0..self.out.n {
                let mut l = [lane(&v, 0, i), lane(&v, 1, i), lane(&v, 2, i)];
                fix(&self.ty, &mut l);
                for k in 0..3 {
                    if let Arg::Vec(t, _) = self.args[k] {
                        v[k].set(t.w, i, l[k]);
                    }
                }
            }
        }
        let desc = |v: &[V; 3]| {
            let mut d = String::new();
            for k in 0..3 {
                if let Arg::Vec(t, _) | Arg::Sc(t, _) = self.args[k] {
                    let t = if let Arg::Sc(..) = self.args[k] { t.scalar() } else { t };
                    if k > 0 {
                        d.push_str(" , ");
                    }
                    d.push_str(&show(&t, &v[k]));
                }
            }
            d
        };
        s.note(|| desc(&v));
        let mut out = V { b: [0xA5; 128] };
        (self.f)(v[0].p(), v[1].p(), v[2].p(), out.pm());
        s.note(|| format!("-> {}", show(&self.out, &out)));
        for i in 0..self.out.n {
            let l = [lane(&v, 0, i), lane(&v, 1, i), lane(&v, 2, i)];
            let got = out.get(self.out.w, i);
            let bad = match self.or {
                Or::Bits(f) => {
                    let e = f(&self.ty, l);
                    if e == got {
                        None
                    } else {
                        Some(show1(self.out.k, self.out.w, e))
                    }
                }
                Or::Flt(f) => {
                    let e = f(&self.ty, l);
                    if sc::same_float(self.out.w, e, got) {
                        None
                    } else {
                        Some(show1(self.out.k, self.out.w, e))
                    }
                }
                Or::Pred(f) => f(&self.ty, l, got).err(),
            };
            if let Some(e) = bad {
                return Res::Fail(format!(
                    "lane {} of {} is {}, expected {}",
                    i,
                    show(&self.out, &out),
                    show1(self.out.k, self.out.w, got),
                    e
                ));
            }
        }
        Res::Ok
    }
    pub fn group(self, name: String) -> Group {
        Group::new(name, move |s| self.run(s))
    }
}

/// Convenience constructors used by the property tables.
pub struct Groups(pub Vec<Group>);
impl Groups {
    pub fn new() -> Self {
        Groups(Vec::new())
    }
    pub fn push(&mut self, g: Group) {
        self.0.push(g)
    }
    pub fn add(&mut self, name: impl Into<String>, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) {
        self.0.push(Group::new(name.into(), f))
    }
    pub fn addn(&mut self, name: impl Into<String>, weight: f64, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) {
        let mut g = Group::new(name.into(), f);
        g.weight = weight;
        self.0.push(g)
    }
    /// vector -> vector
    pub fn un(&mut self, ty: Ty, op: &str, f: F, or: Or) {
        self.ew(ty, op, [Arg::Vec(ty, any), Arg::No, Arg::No], ty, f, or, None)
    }
    /// vector, vector -> vector
    pub fn bin(&mut self, ty: Ty, op: &str, f: F, or: Or) {
        self.ew(ty, op, [Arg::Vec(ty, any), Arg::Vec(ty, any), Arg::No], ty, f, or, None)
    }
    pub fn ew(&mut self, ty: Ty, op: &str, args: [Arg; 3], out: Ty, f: F, or: Or, fix: Option<fn(&Ty, &mut [u128; 3])>) {
        let name = format!("{}/{}", ty.name, op);
        self.0.push(Ew { ty, args, out, f, or, fix }.group(name))
    }
}
