#!/usr/bin/env python3
"""dev helper: (re)create /verif/seeded/<id>/ from the specs in tools/seeds*.py (edits against /repo HEAD).
usage: mkseed.py [ID...]"""
import sys, os, json, subprocess, shutil, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
W = '/tmp/mkseed'
specs = []
for f in sorted(glob.glob(HERE + '/seeds*.py')):
    sp = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    specs += m.SEEDS
want = sys.argv[1:]
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
shutil.rmtree('/tmp/mkseed', ignore_errors=True)
os.makedirs('/tmp/mkseed')
subprocess.run('git -C /repo archive HEAD | tar x -C /tmp/mkseed && cd /tmp/mkseed && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, check=True)
for s in specs:
    if want and s['id'] not in want: continue
    if s.get('skip'): continue
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=W, check=True)
    for (f, old, new) in s['edits']:
        p = os.path.join(W, f); t = open(p).read()
        n = t.count(old)
        assert n == s.get('count', 1), (s['id'], f, n, old)
        open(p, 'w').write(t.replace(old, new))
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write('#![allow(unused, deprecated)]\nuse packed_simd::*;\n#[inline(never)]\nfn bb<T>(x: T) -> T { std::hint::black_box(x) }\n' + s['demo'])
    rel = '' if s.get('debug') else ' --release'
    rf = s.get('rustflags', '')
    t = '/tmp/vp-demo-' + s['id']
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise. cwd: the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
mkdir -p {t}/src
trap 'rm -rf {t}' EXIT
cp "$here/main.rs" {t}/src/main.rs
cat > {t}/Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
packed_simd = {{ path = "$repo", features = ["into_bits"] }}
{s.get('deps', '')}T
cp "$repo/Cargo.lock" {t}/Cargo.lock 2>/dev/null
cd {t}
export CARGO_TARGET_DIR={t}/target
export RUSTFLAGS="{rf}"
cargo run -q --offline{rel}
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], s['prop'], len(diff.splitlines()))
shutil.rmtree('/tmp/mkseed', ignore_errors=True)
