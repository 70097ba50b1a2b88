#!/usr/bin/env python3
"""matrix.py [PATCH...] [--props C01,C05] : development aid. Applies each patch to /repo (and undoes it), runs every unit
once, and prints what each property's check says."""
import argparse, os, subprocess, sys, shutil, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, verify, contextlib, io
from concurrent.futures import ThreadPoolExecutor
from units import PROPS, PACKAGES, sources
ap = argparse.ArgumentParser()
ap.add_argument('patches', nargs='*'); ap.add_argument('--props'); ap.add_argument('-v', action='store_true'); ap.add_argument('--noprove', action='store_true')
a = ap.parse_args()
props = a.props.split(',') if a.props else list(PROPS)
W = '/tmp/matrix'; os.makedirs(W, exist_ok=True)
def one(name):
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        hs = sorted({h for p in props for h in check.USES[p]})
        bs = dict(zip(hs, ex.map(lambda h: check.harness_build(h, W), hs)))
        fr = {p: [ex.submit(check.run_replay_exe, *bs[h], p, 'quick', 1, W) for h in check.USES[p]] for p in props}
        units, err = {}, []
        if not a.noprove:
            try:
                vx = verify.build_vx(W)
                need = sorted({u for p in props for u in PROPS[p]['units']})
                src = verify.expand_all(sources(need), W)
                for u in verify.run_units(need, vx, src, W): units[u['unit']] = u
            except Exception as e: err = ['deductive part undecided: %s' % e]
        reps = {p: check.merge([f.result() for f in v]) for p, v in fr.items()}
    hit = []
    for p in props:
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            rc = check.judge(p, PROPS[p], 'quick', 1, [units[u] for u in PROPS[p]['units'] if u in units], reps[p], list(err), t0)
        o = b.getvalue()
        if rc: hit.append(p + ('(NFI)' if 'no-failing-input-found' in o else ''))
        if a.v or rc and len(props) < 3: print(o)
    und = sorted({k for u in units.values() for k in u['degraded']}); fr = [u for u in units.values() if u['front']]
    print('%-28s %s | undecided: %s %s (%d s)' % (name, ' '.join(hit) or '-', ' '.join(und)[:200], ' '.join(u['unit'] + ': ' + u['front'][:150] for u in fr), time.time() - t0))
    fo = {(x['fn'], x['clause'], x['message'][:30]) for u in units.values() for x in u['failed']}
    if fo: print('      failed:', '; '.join('%s/%s/%s' % x for x in sorted(fo, key=str))[:600])
    sys.stdout.flush()
if not a.patches: one('unchanged')
for d in a.patches:
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout
    r = subprocess.run(['git', '-C', '/repo', 'apply', os.path.abspath(d)])
    if r.returncode: print(d, 'does not apply'); continue
    try: one(os.path.basename(os.path.dirname(d)) if d.endswith('patch.diff') else os.path.basename(d))
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
