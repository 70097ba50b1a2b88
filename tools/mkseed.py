#!/usr/bin/env python3
"""mkseed.py SPEC.py NAME... : development aid. Makes planted bugs: applies the edits in a scratch copy of /repo, checks that
it builds, passes the stable tests, and that the demonstration tells the two apart; writes /verif/seeded/NAME."""
import json, os, subprocess, sys, runpy, shutil
SW = '/tmp/sw'
def sh(c, cwd=SW, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here"/main.rs "$d/src/main.rs"; if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; fi
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%s
T
cd "$d" && CARGO_TARGET_DIR="$d/t" timeout 250 cargo run --offline -q
'''
DEPS = {'core': 'pest3_core = { path = "$repo/core" }', 'pest': 'pest3_core = { path = "$repo/core" }\npest3 = { path = "$repo/pest" }\npest3_derive = { path = "$repo/derive" }', 'meta': 'pest3_meta = { path = "$repo/meta" }', 'generator': 'pest3_generator = { path = "$repo/generator" }\nproc-macro2 = "1"'}
def results(log):
    open('/tmp/sw.log', 'w').write(log)
    sh('python3 /opt/vp/results.py /tmp/sw.json cargo:/tmp/sw.log')
    return json.load(open('/tmp/sw.json'))
S = runpy.run_path(sys.argv[1])
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for name, s in S['seeds'].items():
    if sys.argv[2:] and name not in sys.argv[2:]: continue
    if not os.path.exists(SW): subprocess.run(['cp', '-a', '/repo', SW])
    sh('git checkout -q -f master 2>/dev/null || git checkout -q -f; git reset -q --hard $(git -C /repo rev-parse HEAD) || (git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)')
    d = '/tmp/seeds/' + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok = True
    for e in s['edits']:
        f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
        t = open(SW + '/' + f).read()
        if t.count(old) != n: print(name, 'EDIT', f, 'occurs', t.count(old), repr(old[:60])); ok = False; break
        open(SW + '/' + f, 'w').write(t.replace(old, new))
    if not ok: continue
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
    open(d + '/main.rs', 'w').write(s['demo'])
    for k, v in s.get('files', {}).items(): open(d + '/' + k, 'w').write(v)
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO % DEPS[s.get('dep', 'core')]); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r = sh('. /opt/vp/env.sh; clean() { rm -f generator/tests/generated*.rs; }; clean; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1')
    sh('rm -f generator/tests/generated*.rs'); t = results(r.stdout)
    passed = set(t.get('passed', t.get('pass', [])))
    if not passed: print(name, 'results keys', list(t)[:5])
    miss = base - passed
    a = sh(d + '/demo.sh')
    sh('git checkout -q -f')
    b = sh(d + '/demo.sh', cwd='/repo')
    good = not miss and a.returncode != 0 and b.returncode == 0
    print(name, 'OK' if good else 'BAD', 'lost tests: %s' % sorted(miss)[:5] if miss else '', 'demo with: %d, without: %d' % (a.returncode, b.returncode), (b.stderr if b.returncode else a.stderr)[-300:].replace('\n', ' | '))
    if good:
        shutil.rmtree('/verif/seeded/' + name, ignore_errors=True); shutil.copytree(d, '/verif/seeded/' + name)
    sys.stdout.flush()
