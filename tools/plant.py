#!/usr/bin/env python3
"""plant.py <specfile.py> [ids..]  — confirm planted changes in a scratch copy and store them in /verif/seeded.
A spec file defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo=<main.rs text>)]"""
import sys, os, subprocess, shutil, json, runpy
V = '/verif'; SCR = '/tmp/plantcopy'
CT = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "@REPO@" }
embedded-hal = { version = "=0.2.7", features = ["unproven"] }
fugit = "=0.3.9"
[profile.dev]
opt-level = 1
'''
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 when the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$HERE/main.rs" "$T/src/main.rs" && cp "$HERE/demo.lock" "$T/Cargo.lock"
sed "s#@REPO@#$PWD#" "$HERE/demo.toml" >"$T/Cargo.toml"
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cd "$T" && cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    d = f"{V}/seeded/{b['id']}"
    if os.path.exists(d+'/patch.diff') and not only: continue
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.check_call(f"cp -a /repo {SCR} && cd {SCR} && git checkout -q -- .", shell=True)
    ok = True
    for f, o, n in b['edits']:
        p = f'{SCR}/{f}'; s = open(p).read()
        if s.count(o) != 1: print(b['id'], 'EDIT count', s.count(o), f, repr(o)); ok = False; break
        open(p, 'w').write(s.replace(o, n))
    if not ok: continue
    r = sh('cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test |^error|test result" ', cwd=SCR)
    passed = [l for l in r.stdout.splitlines() if l.endswith('... ok')]
    bad = [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
    if bad or len(passed) < 24: print(b['id'], 'TESTS', len(passed), bad[:5]); continue
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff', 'w').write(sh('git diff', cwd=SCR).stdout)
    open(d+'/main.rs', 'w').write(b['demo']); open(d+'/demo.sh', 'w').write(b.get('demosh', DEMO)); os.chmod(d+'/demo.sh', 0o755)
    open(d+'/demo.toml', 'w').write(CT + b.get('toml', ''))
    shutil.copy(V+'/tools/demo.lock', d+'/demo.lock')
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['what']), open(d+'/meta.json', 'w'), indent=1)
    r1 = sh(f'bash {d}/demo.sh', cwd='/repo'); r2 = sh(f'bash {d}/demo.sh', cwd=SCR)
    good = r1.returncode == 0 and r2.returncode != 0
    if not good: print(b['id'], 'DEMO', r1.returncode, r1.stderr[-1500:], r2.returncode, r2.stderr[-1500:]); shutil.rmtree(d); continue
    print(b['id'], 'ok; demo with patch:', (r2.stderr.strip().splitlines() or ['?'])[0][:160], flush=True)
shutil.rmtree(SCR, ignore_errors=True)
