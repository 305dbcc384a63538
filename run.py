#!/usr/bin/env python3
"""Driver: builds a property's generated-input check from /repo's working tree in
several compiler configurations, runs it, writes evidence/<id>.json.

  run.py C03                 run the check (tier and seed from VERIF_TIER / VERIF_SEED)
  run.py --replay FILE       re-execute a recorded failing case

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import json, os, re, subprocess, sys, time, threading

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")

# name -> (cargo profile, target features, description)
CONFIGS = {
    "sse2": ("rel", "", "baseline x86-64 (SSE2), optimised, no debug assertions"),
    "avx2c": ("chk", "+avx2,+fma,+bmi1,+bmi2,+lzcnt,+popcnt", "AVX2+FMA, optimised, debug assertions and overflow checks"),
    "sse42": ("rel", "+ssse3,+sse4.1,+sse4.2", "SSSE3/SSE4.2, optimised"),
    "avx": ("rel", "+avx", "AVX without AVX2, optimised"),
    "avx2": ("rel", "+avx2,+fma,+bmi1,+bmi2,+lzcnt,+popcnt", "AVX2+FMA, optimised, no debug assertions"),
    "avx512": ("rel", "+avx2,+fma,+avx512f,+avx512bw,+avx512dq,+avx512vl", "AVX-512 F/BW/DQ/VL, optimised"),
    "o3": ("o3", "+ssse3,+sse4.1,+sse4.2,+popcnt", "SSE4.2, opt-level 3"),
    "dbg": ("dbg", "", "baseline x86-64, unoptimised, debug assertions"),
}
NEED = {"+bmi1": "bmi1", "+lzcnt": "abm", "+sse4.1": "sse4_1", "+sse4.2": "sse4_2"}

from checks import CHECKS  # noqa: E402


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":")[1].split())
    except OSError:
        pass
    return set()


def cfg_ok(name, flags):
    feats = [f for f in CONFIGS[name][1].split(",") if f]
    return all(NEED.get(f, f[1:]) in flags for f in feats)


def env_for(cfg, chk, gendir):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "nightly-2023-07-30"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["VH_GEN"] = gendir
    e["VH_DICT"] = os.path.join(gendir, "dict.txt")
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, chk["crate"], cfg)
    feats = CONFIGS[cfg][1]
    fl = "--cap-lints=allow"
    if feats:
        fl += " -Ctarget-feature=" + feats
    e["RUSTFLAGS"] = fl
    return e


DICT_BASE = os.path.join(ROOT, "dict_base.txt")


def literals():
    """numeric literals of the code under test: {value text: occurrences}"""
    repo = os.environ.get("VH_REPO", "/repo")
    out = {}
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            try:
                t = open(os.path.join(d, f), errors="replace").read()
            except OSError:
                continue
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9_]+)?(?:[eE][+-]?[0-9_]+)?)", t):
                x = m.group(1).replace("_", "")
                try:
                    if x[:2] in ("0x", "0b", "0o"):
                        h = re.sub(r"[iuf]\d+$", "", x) if x[1] != "x" else x
                        v = str(int(h, 0))
                    elif re.fullmatch(r"[0-9]+", x):
                        v = str(int(x))
                    else:
                        v = repr(float(x))
                        if v in ("inf", "nan"):
                            continue
                except ValueError:
                    continue
                if v.isdigit() and int(v) >= 1 << 128:
                    continue
                out[v] = out.get(v, 0) + 1
    return out


def write_dict(path):
    """dictionary for the generators; literals the reference tree does not have weigh more"""
    lit = literals()
    base = set(open(DICT_BASE).read().split()) if os.path.exists(DICT_BASE) else set()
    fresh = [v for v in lit if v not in base]
    old = [v for v in lit if v in base]
    w = max(1, len(old) // max(1, len(fresh))) if len(fresh) < len(old) else 1
    tmp = path + f".{os.getpid()}"
    with open(tmp, "w") as f:
        for v in sorted(old):
            f.write(f"1 {v}\n")
        for v in sorted(fresh):
            f.write(f"{w} {v}\n")
    os.replace(tmp, path)


def build(cfg, chk, gendir):
    prof = CONFIGS[cfg][0]
    cmd = ["cargo", "build", "--offline", "--profile", prof, "--bin", chk["bin"]]
    if chk.get("features"):
        cmd += ["--features", chk["features"]]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, chk["crate"]), env=env_for(cfg, chk, gendir), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    exe = os.path.join(TARGET, chk["crate"], cfg, prof, chk["bin"])
    return p.returncode, p.stdout, exe


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+group=(\S+)\s+(.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def rnd(seed, cfg):
    return seed


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    gendir = os.path.join(TARGET, "gen")
    os.makedirs(gendir, exist_ok=True)
    write_dict(os.path.join(gendir, "dict.txt"))
    if chk.get("gen"):
        chk["gen"](gendir, seed, tier)
    flags = cpu_flags()
    want = chk["configs"] if tier == "quick" else chk.get("thorough_configs", chk["configs"])
    cfgs = [c for c in want if cfg_ok(c, flags)]
    skipped = [c for c in want if c not in cfgs]
    res = {}

    def one(c):
        try:
            res[c] = build(c, chk, gendir)
        except Exception as ex:  # noqa
            res[c] = (1, repr(ex), "")

    par = 8
    for i in range(0, len(cfgs), par):
        ths = [threading.Thread(target=one, args=(c,)) for c in cfgs[i:i + par]]
        [t.start() for t in ths]
        [t.join() for t in ths]
    for c in cfgs:
        rc, out, _ = res[c]
        if rc != 0 and re.search(r"error: could not compile `vh", out) and "error[E" in out:
            # the library builds, but a program that uses the operations of this property does not
            os.makedirs(REPLAYS, exist_ok=True)
            fn = os.path.join(REPLAYS, f"{pid}-build.txt")
            with open(fn, "w") as f:
                f.write(f"property={pid}\nconfig={c}\ntier={tier}\nseed={seed}\ngroup=build\ncase=0\nmessage=does not compile\n" + out[-20000:])
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                       "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the generated program did not compile against the library",
                                    "samples": [m for m in out.splitlines() if m.startswith("error")][:5]},
                       "assumptions": [], "wall_s": round(time.time() - t0, 1), "violations": 1},
                      open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
            m = re.search(r"error\[E.*(?:\n.*){0,6}", out)
            print(f"{pid}: {c}: a program using the operations of this property no longer compiles:\n{m.group(0)}")
            print(f"VIOLATION property={pid} replay={fn}")
            return 1
        if rc != 0:
            sys.stderr.write(out[-4000:] + f"\n{pid}: build failed in configuration {c}; no verdict\n")
            return 2
    tb = time.time()
    procs = {}
    nth = max(2, 8 // len(cfgs)) if len(cfgs) else 8
    limit = 600 if tier == "quick" else 6 * 3600
    for c in cfgs:
        e = env_for(c, chk, gendir)
        e["VH_THREADS"] = str(nth)
        rep = os.path.join(TARGET, f"report-{pid}-{c}.json")
        if os.path.exists(rep):
            os.remove(rep)
        err = open(os.path.join(TARGET, f"stderr-{pid}-{c}.txt"), "w+b")
        p = subprocess.Popen([res[c][2], "--seed", str(seed), "--tier", tier, "--out", rep], cwd=TARGET, env=e,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
        procs[c] = (p, rep, err)
    viol, reports, broken = [], {}, []
    for c, (p, rep, err) in procs.items():
        try:
            rc = p.wait(timeout=max(1, limit - (time.time() - tb)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            broken.append(f"configuration {c}: time limit")
            continue
        err.seek(0)
        etxt = err.read().decode(errors="replace")
        if rc in (0, 1) and os.path.exists(rep):
            reports[c] = json.load(open(rep))
            for f in reports[c]["failures"] + reports[c].get("known", []):
                viol.append(dict(f, cfg=c))
        else:
            h = re.search(r"HANG\t(\d+)\t(.*)\t(\d+)", etxt)
            m = re.search(r"CRASH\t(\d+)\t(.*)\t(\d+)", etxt)
            if h:
                viol.append(dict(group=h.group(2), case=int(h.group(3)), choices=None, cfg=c,
                                 msg=f"one case did not come back within {h.group(1)} s", desc=""))
            elif m:
                viol.append(dict(group=m.group(2), case=int(m.group(3)), choices=None, cfg=c,
                                 msg=f"the library crashed with signal {m.group(1)}", desc=""))
            else:
                broken.append(f"configuration {c}: exit {rc}: {etxt[-1500:]}")
    kf = known()
    lines, newv = [], []
    for v in viol:
        hit = [k for k in kf if k[0] == pid and k[1] == v["group"] and k[2] == v["msg"]]
        if hit:
            lines.append(f"KNOWN-FINDING: property={pid} {v['group']}: {v['msg']}")
        else:
            newv.append(v)
    ev = sum(r["evaluations"] for r in reports.values())
    dn = sum(r["distinct_nontrivial"] for r in reports.values())
    rule = next((r["rule"] for r in reports.values()), chk.get("rule", "(no report)"))
    samples = []
    for r in list(reports.values())[:1]:
        samples = [x if len(x) <= 600 else x[:600] + "..." for x in r["samples"][:24]]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": rule + "; distinct counts fingerprints of the generated operands within a group, per configuration",
            "samples": samples or ["(none: the run ended before a report was written)"],
            "configurations": {c: {"description": CONFIGS[c][2], "groups": r["groups"], "evaluations": r["evaluations"],
                                   "nontrivial": r["nontrivial"], "distinct_nontrivial": r["distinct_nontrivial"],
                                   "classes": r["labels"]} for c, r in reports.items()},
            "configurations_skipped": skipped,
            "build_s": round(tb - t0, 1),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(newv),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for l in sorted(set(lines)):
        print(l)
    if newv:
        os.makedirs(REPLAYS, exist_ok=True)
        for k, v in enumerate(newv[:5]):
            fn = os.path.join(REPLAYS, f"{pid}-{k}.txt")
            with open(fn, "w") as f:
                f.write(f"property={pid}\nconfig={v['cfg']}\ntier={tier}\nseed={seed}\ngroup={v['group']}\ncase={v['case']}\n")
                if v["choices"] is not None:
                    f.write(f"choices={v['choices']}\n")
                if v.get("before"):
                    f.write(f"before={v['before']}\n")
                if v.get("threads", 1) > 1:
                    f.write(f"threads={v['threads']}\n")
                f.write("message=" + v["msg"].replace("\n", " ") + "\ninput=" + v["desc"].replace("\n", " ") + "\n")
            print(f"{pid}: {v['cfg']}: {v['group']}: {v['desc']}: {v['msg']}"[:1500])
            print(f"VIOLATION property={pid} replay={fn}")
        if len(newv) > 5:
            print(f"{pid}: {len(newv)} failing groups in all")
        return 1
    if broken or not reports:
        sys.stderr.write(f"{pid}: no verdict: " + "; ".join(broken or ["no configuration runs on this CPU"]) + "\n")
        return 2
    print(f"{pid}: held on {ev} cases ({dn} distinct non-trivial) in {', '.join(cfgs)}; {evidence['wall_s']} s")
    return 0


def replay(fn):
    d = dict(l.rstrip("\n").split("=", 1) for l in open(fn) if "=" in l)
    chk = CHECKS[d["property"]]
    gendir = os.path.join(TARGET, "gen")
    os.makedirs(gendir, exist_ok=True)
    if chk.get("gen"):
        chk["gen"](gendir, int(d["seed"]), d["tier"])
    rc, out, exe = build(d["config"], chk, gendir)
    if rc:
        sys.stderr.write(out[-4000:])
        return 2
    return subprocess.run([exe, "--replay", os.path.abspath(fn)], env=env_for(d["config"], chk, gendir)).returncode


if __name__ == "__main__":
    sys.exit(main())
