#!/usr/bin/env python3
"""Planted-bug helper (development only; no check uses it).
  seed.py new SPEC.json...   SPEC: {id, property, needs, what_it_breaks, edits:[[file, old, new],...], demo: rust source}
  seed.py run ID [PROP...]   apply, run the checks, undo
"""
import sys, os, json, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')      # a clone can be used while /repo is busy
VDIR = os.environ.get('SEED_VERIF', HERE)        # a copy of /verif whose harness points at that clone
TESTS = os.environ.get('SEED_TESTS', '/tmp/bl.sh')
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds a small program against it and runs it: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/scratch" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wz_reader = { path = "$repo", features = ["json"] }
serde_json = "1.0"
image = { version = "*", default-features = false }
T
cp "$here"/*.bin "$d/scratch/" 2>/dev/null
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
SCRATCH="$d/scratch" timeout 60 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh(f'git -C {REPO} checkout -- .')
def checks(props):
    for p in props:
        r = sh(f'python3 {VDIR}/check.py {p}', cwd=VDIR, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('   check', p, 'exit', r.returncode, (v or r.stdout.splitlines()[-3:])[:2], flush=True)
def new(f, run=True):
    for s in json.load(open(f)) if isinstance(json.load(open(f)), list) else [json.load(open(f))]:
        d = f'{HERE}/seeded/{s["id"]}'; os.makedirs(d, exist_ok=True)
        assert sh(f'git -C {REPO} status --short').stdout.strip() == '', 'repo dirty'
        open(f'{d}/demo.rs', 'w').write(s['demo']); open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755)
        for n, h in s.get('bin', {}).items(): open(f'{d}/{n}', 'wb').write(bytes.fromhex(h))
        print(s['id'], flush=True)
        r = sh(f'bash {d}/demo.sh', cwd=REPO)
        if r.returncode != 0: print('  DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-1500:]); continue
        try:
            bad = False
            for fn, o, n in s['edits']:
                t = open(f'{REPO}/{fn}').read()
                if t.count(o) != 1: print('  edit matches', t.count(o), fn, o[:60]); bad = True; break
                open(f'{REPO}/{fn}', 'w').write(t.replace(o, n))
            if bad: continue
            open(f'{d}/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
            r = sh(f'bash {d}/demo.sh', cwd=REPO)
            print('  demo with patch:', r.returncode, r.stdout.strip()[-200:].replace('\n', ' | '), flush=True)
            if r.returncode in (0, 3): print('  DEMO DOES NOT SHOW IT'); continue
            r = sh(TESTS)
            ok = 'missing set()' in r.stdout
            print('  tests:', 'ok' if ok else r.stdout[-600:], flush=True)
            if not ok: continue
            json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{d}/meta.json', 'w'), indent=1)
            if run: checks(s.get('run', [s['property']]))
        finally: clean()
def run(i, props):
    d = f'{HERE}/seeded/{i}'
    try:
        r = sh(f'git -C {REPO} apply {d}/patch.diff'); assert r.returncode == 0, r.stdout
        print(i, flush=True); checks(props or [json.load(open(f'{d}/meta.json'))['property']])
    finally: clean()
if sys.argv[1] == 'new': [new(f) for f in sys.argv[2:]]
else: run(sys.argv[2], sys.argv[3:])
