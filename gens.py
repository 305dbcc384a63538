"""Seeded generators of Rust source for the properties whose inputs are compile-time constants."""
import os, random, re

FAM = {}  # element -> (kind, width, lane counts)
for w, ns in ((8, [2, 4, 8, 16, 32, 64]), (16, [2, 4, 8, 16, 32]), (32, [2, 4, 8, 16]), (64, [2, 4, 8]), (128, [1, 2, 4])):
    for k, c in (("I", "i"), ("U", "u"), ("M", "m")):
        FAM[f"{c}{w}"] = (k, w, ns)
for k, c in (("I", "isize"), ("U", "usize"), ("M", "msize")):
    FAM[c] = (k, 64, [2, 4, 8])
FAM["f32"] = ("F", 32, [2, 4, 8, 16])
FAM["f64"] = ("F", 64, [2, 4, 8])


def put(gendir, name, text):
    p = os.path.join(gendir, name)
    try:
        if open(p).read() == text:
            return
    except OSError:
        pass
    with open(p, "w") as f:
        f.write(text)


def pattern(r, m, n):
    """n indices below m: random, or one of the shapes the code generator treats specially."""
    k = r.randrange(9)
    if k <= 3:
        return [r.randrange(m) for _ in range(n)]
    if k == 4:  # a permutation (as far as it goes)
        p = list(range(m)); r.shuffle(p)
        return [p[i % m] for i in range(n)]
    if k == 5:  # reversed run
        o = r.randrange(m)
        return [(o - i) % m for i in range(n)]
    if k == 6:  # rotation
        o = r.randrange(m)
        return [(o + i) % m for i in range(n)]
    if k == 7:  # interleave of two halves
        return [((i // 2) + (i % 2) * (m // 2)) % m for i in range(n)]
    base = [(r.randrange(m) + i) % m for i in range(n)]  # blend: each lane from its place in either half
    if m >= 2:
        return [(i % (m // 2) if m // 2 else 0) + (m // 2) * r.randrange(2) for i in range(n)]
    return base


def popular(n, o, v):
    """index lists of common idioms: o indices into v vectors of n lanes"""
    m = n * v
    idx = range(o)
    l = [[i % m for i in idx], [(m - 1 - i) % m for i in idx], [(o - 1 - i) % m for i in idx], [(n - 1 - i) % m for i in idx],
         [0] * o, [n - 1] * o, [m - 1] * o, [(i + 1) % m for i in idx], [(i - 1) % m for i in idx], [(i + n // 2) % m for i in idx],
         [2 * i % m for i in idx], [(2 * i + 1) % m for i in idx], [(i ^ 1) % m for i in idx], [(i ^ 2) % m for i in idx], [i // 2 % m for i in idx],
         [(i // 2 + n // 2) % m for i in idx], [i // 2 * 2 % m for i in idx], [(i // 2 * 2 + 1) % m for i in idx]]
    if v == 2:
        l += [[(i // 2 + (i % 2) * n) % m for i in idx], [(i // 2 + n // 2 + (i % 2) * n) % m for i in idx],   # unpack low, high
              [(i + (i % 2) * n) % m for i in idx], [(i + (1 - i % 2) * n) % m for i in idx],                  # blends
              [(i + n) % m for i in idx], [(i if i < o // 2 else i + n) % m for i in idx], [(i + n if i < o // 2 else i) % m for i in idx],
              [(i if i < o // 2 else i - o // 2 + n) % m for i in idx]]
    return l


def shuffles(gendir, seed, tier):
    r = random.Random(seed * 7919 + 16)
    per = 2 if tier == "quick" else 12
    rows = []
    for e, (k, w, ns) in FAM.items():
        for n in ns:
            for o in ns:
                if o == 1:
                    continue
                for v in (1, 2):
                    for _ in range(per):
                        ix = pattern(r, n * v, o)
                        rows.append(f"{v} {e}x{n} {k} {w} {n} {e}x{o} {o} [{', '.join(map(str, ix))}]")
    for p in ("cptr", "mptr"):
        for pe in ("u8", "u64"):
            for n in (2, 4, 8):
                for o in (2, 4, 8):
                    for v in (1, 2):
                        for _ in range(per):
                            ix = pattern(r, n * v, o)
                            rows.append(f"{v} [{p}x{n}<{pe}>] {n} [{p}x{o}<{pe}>] {o} [{', '.join(map(str, ix))}]")
    # the index lists that programs really use, each for some element type
    for n in (1, 2, 4, 8, 16, 32, 64):
        for o in (2, 4, 8, 16, 32, 64):
            es = [e for e, (k, w, ns) in FAM.items() if n in ns and o in ns]
            if not es:
                continue
            for v in (1, 2):
                for ix in sorted(set(map(tuple, popular(n, o, v)))):
                    for e in r.sample(es, min(len(es), 1 if tier == "quick" else 4)):
                        k, w, _ = FAM[e]
                        rows.append(f"{v} {e}x{n} {k} {w} {n} {e}x{o} {o} [{', '.join(map(str, ix))}]")
    out = []
    chunk = (len(rows) + 31) // 32
    for c in range(0, len(rows), chunk):
        out.append("{ mod x { use crate::*; pub fn r(g: &mut Groups) {\n")
        for j, row in enumerate(rows[c:c + chunk]):
            out.append(f"    sh!(g \"{c + j}\" {row});\n")
        out.append("}} x::r(g) }\n")
    put(gendir, "c16.rs", "{\n" + "".join(out) + "}\n")


# ---------------------------------------------------------------- C31: straight-line programs
def _pairs(name):
    """(src, dst) type-name pairs of a table in harness/src/tables.rs."""
    import re
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/src/tables.rs")).read()
    t = t[t.index("macro_rules! " + name + " "):]
    t = t[:t.index("\n}\n")]
    return re.findall(r"\$m!\(\$x (\w+) (\w) (\d+) (\d+) (\w+) (\w) (\d+) (\d+)\);", t)


def lit(r, e, k, w):
    """a literal of element type e (as Rust text)"""
    if k == "M":
        return r.choice(["true", "false"])
    if k == "F":
        return r.choice(["0.0", "-0.0", "1.0", "-1.5", "0.1", "1e10", "-3.25e-7", "1e-40", f"{e}::INFINITY", f"{e}::NAN", f"{e}::MAX", "2.0",
                         f"{r.uniform(-100, 100):.6}"]) + ""
    if k == "I":
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        v = r.choice([0, 1, -1, 2, lo + 1, hi, hi - 1, r.randint(lo, hi), r.randint(-20, 20), 1 << r.randrange(w - 1)])
        return f"({v})" if v < 0 else str(v)
    hi = (1 << w) - 1
    return str(r.choice([0, 1, 2, hi, hi - 1, hi >> 1, r.randint(0, hi), r.randint(0, 20), 1 << r.randrange(w)]))


class Prog:
    def __init__(self, r, n, steps, casts):
        self.r, self.n, self.casts = r, n, casts
        self.elems = [e for e, (k, w, ns) in FAM.items() if n in ns]
        nums = [e for e in self.elems if FAM[e][0] != "M"]
        focus = r.sample(nums, min(len(nums), r.choice([1, 2, 3])))
        self.focus = focus
        self.vars = []   # element type per variable
        self.code = []   # Rust statements
        self.ops = []    # interpreter steps
        self.inputs = []
        for _ in range(r.choice([2, 3, 4])):
            e = r.choice(focus)
            self.inputs.append(e)
            self.push(e, f"unsafe {{ rd::<{e}x{n}>(i[{len(self.vars)}].p()) }}", f"In({len(self.vars)})")
        for _ in range(steps):
            self.step()

    def push(self, e, rust, op):
        v = len(self.vars)
        self.vars.append(e)
        self.code.append(f"let v{v}: {e}x{self.n} = {rust};")
        k, w, _ = FAM[e]
        self.ops.append(f"(Ty::new(\"{e}x{self.n}\", K::{k}, {w}, {self.n}), Op::{op})")

    def var(self, e=None, kinds=None):
        c = [i for i, x in enumerate(self.vars) if (e is None or x == e) and (kinds is None or FAM[x][0] in kinds)]
        if not c:
            return None
        # recent variables are likelier
        return self.r.choice(c[-4:] + c)

    def mask_of(self, e):
        return {"isize": "msize", "usize": "msize"}.get(e, "m" + e[1:])

    def step(self):
        r, n = self.r, self.n
        while True:
            a = self.var()
            e = self.vars[a]
            k, w, _ = FAM[e]
            b = self.var(e)
            c = self.var(e)
            T = f"{e}x{n}"
            o = r.randrange(24)
            if o <= 3:
                if k == "F":
                    x, f = r.choice([("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div")])
                elif k == "M":
                    x, f = r.choice([("&", "and"), ("|", "or"), ("^", "xor")])
                else:
                    x, f = r.choice([("+", "add"), ("-", "sub"), ("*", "mul"), ("&", "and"), ("|", "or"), ("^", "xor")])
                if r.random() < 0.2:
                    return self.push(e, f"{{ let mut t = v{a}; t {x}= v{b}; t }}", f"Bin(sc::{f}, {a}, {b})")
                return self.push(e, f"v{a} {x} v{b}", f"Bin(sc::{f}, {a}, {b})")
            if o == 4:  # a constant operand, built in a const
                l = [lit(r, e, k, w) for _ in range(n)]
                if r.random() < 0.4:
                    l = [l[0]] * n
                    ctor = f"{T}::splat({l[0]})"
                else:
                    ctor = f"{T}::new({', '.join(l)})"
                return self.push(e, f"{{ const K: {T} = {ctor}; K }}", "Const(Box::leak(Box::new([" + ", ".join(self.bits(e, k, w, x) for x in l) + "])))")
            if o == 5:
                if k == "M":
                    return self.push(e, f"!v{a}", f"Un(sc::not, {a})")
                if k == "F":
                    x, f = r.choice([(f"-v{a}", "sc::neg"), (f"v{a}.abs()", "abs"), (f"v{a}.sqrt()", "sqrt")])
                    return self.push(e, x, f"Un({f}, {a})")
                x, f = r.choice([(f"!v{a}", "sc::not"), (f"v{a}.count_ones()", "ones_"), (f"v{a}.leading_zeros()", "lz"), (f"v{a}.trailing_zeros()", "tz")]
                                + ([(f"-v{a}", "sc::neg")] if k == "I" else []))
                return self.push(e, x, f"Un({f}, {a})")
            if o == 6 and k in "IU":
                x, f = r.choice([("<<", "shl"), (">>", "shr")])
                if r.random() < 0.5:
                    s = r.randrange(w)
                    return self.push(e, f"v{a} {x} {s}u32", f"Imm(sc::{f}, {a}, {s})")
                return self.push(e, f"v{a} {x} (v{b} & {T}::splat({w - 1}))", f"Masked(sc::{f}, {a}, {b}, {w - 1})")
            if o == 7 and k in "IU":
                x, f = r.choice([("rotate_left", "rotl"), ("rotate_right", "rotr")])
                return self.push(e, f"v{a}.{x}(v{b} & {T}::splat({w - 1}))", f"Masked(sc::{f}, {a}, {b}, {w - 1})")
            if o == 8 and k in "IU":
                x = r.choice(["min", "max"])
                return self.push(e, f"v{a}.{x}(v{b})", f"Bin({x}_, {a}, {b})")
            if o in (9, 10):
                x = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
                return self.push(self.mask_of(e), f"v{a}.{x}(v{b})", f"Cmp(sc::c_{x}, {a}, {b})")
            if o in (11, 12):
                m = self.var(kinds="M")
                if m is None:
                    continue
                return self.push(e, f"v{m}.select(v{a}, v{b})", f"Select({m}, {a}, {b})")
            if o in (13, 14):
                ix = pattern(r, 2 * n, n)
                return self.push(e, f"shuffle!(v{a}, v{b}, [{', '.join(map(str, ix))}])", f"Shuffle({a}, {b}, &[{', '.join(map(str, ix))}])")
            if o in (15, 16):
                d = [x[4] for x in self.casts if x[0] == T and x[5] != "M" and not (x[1] == "F" and x[5] in "IU")]
                if not d:
                    continue
                t = r.choice(d)
                de = t.rsplit("x", 1)[0]
                return self.push(de, f"v{a}.cast()", f"Cast({a})")
            if o == 17 and k in "IU":
                x, f = r.choice([("wrapping_sum", "sc::add"), ("wrapping_product", "sc::mul"), ("and", "sc::and"), ("or", "sc::or"), ("xor", "sc::xor"),
                                 ("min_element", "min_"), ("max_element", "max_")])
                return self.push(e, f"{T}::splat(v{a}.{x}())", f"Fold({f}, {a})")
            if o == 18 and k == "M":
                x = r.choice(["all", "any", "none"])
                return self.push(e, f"{T}::splat(v{a}.{x}())", f"{x.capitalize()}({a})")
            if o == 19:
                i, j = r.randrange(n), r.randrange(n)
                return self.push(e, f"v{a}.replace({i}, v{b}.extract({j}))", f"Replace({a}, {i}, {b}, {j})")
            if o == 20 and k != "M":
                x, f = r.choice([("+", "add"), ("-", "sub"), ("*", "mul")])
                l = lit(r, e, k, w)
                if r.random() < 0.5:
                    return self.push(e, f"v{a} {x} ({l} as {e})", f"Imm(sc::{f}, {a}, {self.bits(e, k, w, l)})")
                return self.push(e, f"({l} as {e}) {x} v{a}", f"ImmL(sc::{f}, {a}, {self.bits(e, k, w, l)})")
            if o == 21 and k == "F":
                return self.push(e, f"v{a}.mul_add(v{b}, v{c})", f"Fma({a}, {b}, {c})")
            if o == 21 and k == "U":
                x, f = r.choice([("/", "div"), ("%", "rem")])
                return self.push(e, f"v{a} {x} (v{b} | {T}::splat(1))", f"Ored(sc::{f}, {a}, {b}, 1)")
            if o == 22 and k == "U" and e in ("u8", "u16", "u32", "u64", "usize") and n >= 2:
                return self.push(e, f"v{a}.shuffle1_dyn(v{b} & {T}::splat({n - 1}))", f"Dyn({a}, {b}, {n - 1})")
            if o == 23 and k in "IUFM":
                if k == "M":
                    return self.push(e, f"v{a}.eq(v{b})", f"Cmp(sc::c_eq, {a}, {b})")
                el = e
                return self.push(e, f"{{ let t: [{el}; {n}] = v{a}.into(); let mut u = [t[0]; {n + 1}]; u[1..].copy_from_slice(&t); {T}::from_slice_unaligned(&u[1..]) }}", f"Copy({a})")

    def bits(self, e, k, w, l):
        if k == "M":
            return str((1 << w) - 1) if l == "true" else "0"
        if k == "F":
            return f"({l} as {e}).to_bits() as u128" if not l.startswith(e) else f"{l}.to_bits() as u128"
        return f"({l} as {e}) as u128 & {(1 << w) - 1}"


def programs(gendir, seed, tier):
    r = random.Random(seed * 104729 + 31)
    casts = _pairs("cast_pairs")
    count = 96 if tier == "quick" else 600
    out = []
    per = 6
    for c in range(0, count, per):
        out.append("{ mod x { use crate::*; pub fn r(g: &mut Groups) {\n")
        for j in range(c, min(count, c + per)):
            n = r.choice([2, 4, 4, 8, 8, 8, 16, 16, 32])
            p = Prog(r, n, r.randrange(6, 28), casts)
            if j % 2:
                outs = list(range(len(p.vars)))
            else:
                outs = sorted(set(range(len(p.vars) - 2, len(p.vars))))
            out.append("{\n    static IN: &[Ty] = &[" + ", ".join(f"Ty::new(\"{e}x{n}\", K::{FAM[e][0]}, {FAM[e][1]}, {n})" for e in p.inputs) + "];\n")
            out.append("    let ops: Vec<(Ty, Op)> = vec![" + ", ".join(p.ops) + "];\n")
            out.append("    fn run(i: &[V], o: &mut [V]) {\n        " + "\n        ".join(p.code) + "\n")
            for q, v in enumerate(outs):
                out.append(f"        unsafe {{ wr(o[{q}].pm(), v{v}) }}\n")
            src = " ".join(f"{s}" for s in p.code[len(p.inputs):])
            out.append(f"    }}\n    prog(g, \"{j}\", IN, ops, &{outs}, run, r####\"{src}\"####);\n}}\n")
        out.append("}} x::r(g) }\n")
    put(gendir, "c31.rs", "{\n" + "".join(out) + "}\n")



REPO = os.environ.get("VH_REPO", "/repo")


def slice_sum(gendir, seed, tier):
    """The slice_sum example is a program; its three summation functions are included as a module."""
    try:
        t = open(os.path.join(REPO, "examples/slice_sum/src/main.rs")).read()
    except OSError:
        t = ""
    names = ["sum_ver", "sum_hor", "sum_ver_par"]
    if all(re.search(r"^(pub )?fn %s\(\s*\w+: &\[f32\],?\s*\) -> f32" % n, t, re.M) for n in names):
        t = re.sub(r"^#!\[.*\]\s*$", "", t, flags=re.M)
        t = re.sub(r"^//!.*$", "", t, flags=re.M)
        t = re.sub(r"^fn ", "pub fn ", t, flags=re.M) + "\npub const PRESENT: bool = true;\n"
    else:
        t = "pub const PRESENT: bool = false;\n" + "".join("pub fn %s(_: &[f32]) -> f32 { 0. }\n" % n for n in names)
    put(gendir, "slice_sum.rs", t)
