#!/usr/bin/env python3
"""Keeps the planted changes of /verif/seeded honest, and says which checks catch them.

  plant.py make SPEC.py     write seeded/<id>/ for every entry of SPEC.py's BUGS, then confirm it
  plant.py confirm [ID..]   in a scratch copy of /repo: applies, builds, passes the tests; the demo tells it
  plant.py catch [ID..]     apply to /repo, run the check of its property, undo; writes work/catch.json

A spec entry: dict(id, property, edits=[(file, old, new)], needs, breaks, main=Rust source, deps='').
"""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
SCRATCH = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', PROTOC='/usr/bin/protoc')

DEMO = '''#!/bin/bash
# Builds main.rs against the crate of the current directory, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/" && cp "$repo/Cargo.lock" "$d/" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
dlhn = { path = "$repo/dlhn" }
serde = { version = "1", features = ["derive"] }
serde_bytes = "0.11"
time = "0.3"
num-bigint = "0.4"
bigdecimal = "0.3"

[profile.dev]
debug = false
EOF
cd "$d" || exit 2
cargo build --offline -q || exit 3
timeout 120 ./target/debug/demo
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def copy():
    if not os.path.exists(SCRATCH):
        subprocess.run(['cp', '-a', '/repo', SCRATCH], check=True)
    sh('git checkout -q -- . && git clean -fdq', SCRATCH)
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    if sh('git rev-parse HEAD', SCRATCH).stdout.strip() != head:
        sh('git fetch -q /repo && git checkout -q ' + head, SCRATCH)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    ids = []
    for b in ns['BUGS']:
        copy()
        for f, old, new in b['edits']:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b['id'], 'edit matches', n, 'times in', f, repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            d = os.path.join(SEEDED, b['id'])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', SCRATCH).stdout)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'main.rs'), 'w').write(b['main'].lstrip())
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            ids.append(b['id'])
    confirm(ids)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def confirm(ids):
    for i in ids:
        copy()
        d = os.path.join(SEEDED, i)
        t = time.time()
        r = sh(['bash', os.path.join(d, 'demo.sh')], SCRATCH, ENV)
        clean = r.returncode
        out0 = (r.stdout + r.stderr)[-600:]
        a = sh(['git', 'apply', os.path.join(d, 'patch.diff')], SCRATCH)
        r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', SCRATCH, ENV)
        passed = len(re.findall(r'^test .* \.\.\. ok$', r.stdout, re.M))
        failed = re.findall(r'^test (.*) \.\.\. FAILED$', r.stdout, re.M)
        b = sh(['bash', os.path.join(d, 'demo.sh')], SCRATCH, ENV)
        ok = clean == 0 and a.returncode == 0 and r.returncode == 0 and b.returncode not in (0, 2, 3) and not failed
        print('%-34s %s clean=%d apply=%d tests=%d/%d%s demo=%d  %.0f s  %s' % (
            i, 'ok ' if ok else 'BAD', clean, a.returncode, passed, passed + len(failed), failed[:3], b.returncode,
            time.time() - t, (b.stdout + b.stderr).strip().splitlines()[-1:] if ok else (out0 if clean else (a.stderr + r.stderr[-600:] + b.stdout + b.stderr)[-1500:])), flush=True)
    copy()


def catch(ids):
    out = os.path.join(ROOT, 'work', 'catch.json')
    res = json.load(open(out)) if os.path.exists(out) else {}
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        if sh('git status --porcelain', '/repo').stdout.strip():
            sys.exit('/repo is not clean')
        sh(['git', 'apply', os.path.join(d, 'patch.diff')], '/repo')
        t = time.time()
        try:
            r = sh(['python3', 'check.py', prop], ROOT, timeout=1200)
        finally:
            sh('git checkout -q -- .', '/repo')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        what = [l for l in r.stdout.splitlines() if l.startswith('what fails')]
        kind = json.load(open(os.path.join(ROOT, 'work/replays', prop + '.json')))['kind'] if v else None
        res[i] = {'property': prop, 'rc': r.returncode, 'violation': v[:1], 'kind': kind, 'what': [w[:300] for w in what[:1]], 's': round(time.time() - t)}
        print('%-34s %s rc=%d %3d s %s %s' % (i, prop, r.returncode, time.time() - t, kind, (what or r.stdout.splitlines()[-3:] or [''])[0][:200]), flush=True)
        json.dump(res, open(out, 'w'), indent=1)


cmd, args = sys.argv[1], sys.argv[2:]
ids = args or sorted(os.listdir(SEEDED))
{'make': lambda: make(args[0]), 'confirm': lambda: confirm(ids), 'catch': lambda: catch(ids)}[cmd]()
