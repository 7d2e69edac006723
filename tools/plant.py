#!/usr/bin/env python3
"""Confirm planted bugs and store them under /verif/seeded.

usage: plant.py DEFS.py [ids...]     confirm in scratch copies and store
       plant.py check [ids...]       run the owning property's quick check against each stored bug
DEFS.py calls bug(id, property, [(file, old, new), ...], needs, what, demo_main_rs).
No check uses this file or /verif/seeded."""
import sys, os, json, subprocess, shutil, re
SEED = '/verif/seeded'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_OPT_LEVEL='2', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTFLAGS='-Awarnings')
ENV.pop('CARGO_TARGET_DIR', None)
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right; builds main.rs against the hmath crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs"
cat >"$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hmath = { path = "$repo"FEATURES }
END
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cd "$w" && RUSTFLAGS=-Awarnings cargo build --release --offline -q || exit 4
timeout 120 "$w/target/release/demo"
'''
BUGS = {}
def bug(id, prop, edits, needs, what, demo):
    assert id not in BUGS, id
    BUGS[id] = (prop, edits, needs, what, demo)

def sh(cmd, cwd, timeout=1500, env=ENV):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def confirm(id, w):
    prop, edits, needs, what, demo = BUGS[id]
    rc, o = sh('git checkout -q -- . && git status --short', w); assert rc == 0 and not o.strip(), o
    for f, old, new in edits:
        p = f'{w}/{f}'; s = open(p).read()
        if s.count(old) != 1: return f'{f}: old text occurs {s.count(old)} times'
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', w)
    d = f'/tmp/pl/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO.replace("FEATURES", ", features = [\"rand\"]" if prop == "C35" else "")); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    rc, o = sh(f'bash {d}/demo.sh', w)
    if rc in (0, 3, 4): return f'demo on patched tree: rc {rc}\n{o[-1500:]}'
    sh('git checkout -q -- .', w)
    rc, o = sh(f'bash {d}/demo.sh', w)
    if rc != 0: return f'demo on clean tree: rc {rc}\n{o[-1500:]}'
    rc, o = sh(f'git apply {d}/patch.diff && cargo build --offline', w)
    if rc: return 'build: ' + o[-1500:]
    rc, o = sh('timeout 1200 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4', w)
    ok = {m.group(1) for m in re.finditer(r'^test (\S+)(?: - should panic)? \.\.\. ok', o, re.M)}
    b = json.load(open('/opt/vp/BASELINE.json'))
    base = b if isinstance(b, list) else (b.get('stable') or b.get('passed') or b.get('tests'))
    base = {x.split('lib.rs::', 1)[1] if 'lib.rs::' in x else x for x in base}
    miss = sorted(base - ok)
    sh('git checkout -q -- .', w)
    if miss: return 'tests fail: ' + ', '.join(miss[:6])
    t = f'{SEED}/{id}'; shutil.rmtree(t, ignore_errors=True); os.makedirs(SEED, exist_ok=True)
    shutil.copytree(d, t)
    return 'kept'

def check(ids):
    for id in ids:
        m = json.load(open(f'{SEED}/{id}/meta.json'))
        rc, o = sh(f'git apply {SEED}/{id}/patch.diff', '/repo')
        if rc: print(id, 'patch does not apply', o); continue
        try:
            rc, o = sh(f'VERIF_SEED=1 VERIF_TIER=quick bash run.sh {m["property"]}', '/verif')
        finally:
            sh('git checkout -- .', '/repo')
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        print(id, m['property'], 'CAUGHT' if rc == 1 and v else f'MISSED rc={rc}', v[:1], flush=True)

if __name__ == '__main__':
    if sys.argv[1] == 'check':
        check(sys.argv[2:] or sorted(os.listdir(SEED))); sys.exit()
    exec(open(sys.argv[1]).read())
    ids = sys.argv[2:] or list(BUGS)
    import threading, queue
    q = queue.Queue(); [q.put(i) for i in ids]
    def work(k):
        w = f'/tmp/pl/w{k}'
        if not os.path.exists(w):
            subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        sh('git fetch -q && git checkout -q -- . && git reset -q --hard origin/HEAD', w)
        shutil.copy('/repo/Cargo.lock', w) if os.path.exists('/repo/Cargo.lock') and not os.path.exists(w + '/Cargo.lock') else None
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            try: r = confirm(i, w)
            except Exception as e: r = 'error ' + repr(e)
            print(i, r, flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(2)]
    [t.start() for t in ts]; [t.join() for t in ts]
