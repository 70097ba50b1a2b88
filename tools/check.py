#!/usr/bin/env python3
"""check.py PROP --tier quick|thorough : decides one property on /repo's current source."""
import argparse, json, os, re, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verify
from units import PACKAGES, PROPS, UNITS, matches, roles, sources
V = verify.V

TRUSTED = [
    'Verus (rustc front end, VIR/AIR encoding) and Z3',
    'tools/vx: mechanical extraction of the functions from the compiler-expanded source (it drops visibility, doc comments and attributes; inlines uncontracted helpers and closures; renames the std calls listed at the top of contracts/core/00_prelude.rs to functions with assumed contracts)',
    'assumed contracts on the standard library (str, char, slice, Vec, Option, BTreeMap, iterators): functions marked external_body in contracts/core, and vstd',
    'pest::Stack: its contract is proved on the source of the pest crate in the cargo registry (unit stack); trusted there: Vec::drain/extend, Index, and that cloning a span gives an equal one',
]

# harnesses (bounded search for failing inputs on the real code) -> how they are built
CARGO = ['cargo', 'build', '--offline', '-q', '--manifest-path']
HARNESS = {
    'replay': ('rt', [V + '/replay/Cargo.toml'], ['--cfg pest3_verif', '']),
    'derived': ('dt', [V + '/rules/Cargo.toml', '--bin', 'derived'], ['']),
    'gen': ('gt', [V + '/gen/Cargo.toml'], ['']),
}
USES = {p: ['replay'] for p in ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C19').split()}
for p in 'C08 C10 C11 C12 C13 C14 C16 C20'.split(): USES.setdefault(p, []).append('derived')
for p in 'C15 C16 C17 C18 C20 C21'.split(): USES.setdefault(p, []).append('gen')

def harness_build(h, work):
    """(executable or None, notes)"""
    tgt, args, flags = HARNESS[h]
    notes = []
    for fl in flags:
        rc, o, e = verify.sh(CARGO + args + ['--target-dir', work + '/' + tgt], 600, dict(verify.ENV, RUSTFLAGS=fl) if fl else None)
        if rc == 0: return '%s/%s/debug/%s' % (work, tgt, h), notes
        notes.append('%s harness does not build%s: %s' % (h, ' with hooks' if fl else '', '\n'.join(l for l in e.splitlines() if l.startswith('error'))[:600]))
    return None, notes

def run_replay(prop, tier, seed, work):
    ex = ThreadPoolExecutor(3)
    jobs = [ex.submit(lambda h=h: run_replay_exe(*harness_build(h, work), prop, tier, seed, work)) for h in USES[prop]]
    return merge([j.result() for j in jobs])

def merge(reps):
    """one report of several harnesses"""
    r = dict(ok=any(x.get('ok') for x in reps), notes=[n for x in reps for n in x.get('notes', [])])
    for k in ('failures', 'samples'): r[k] = [y for x in reps for y in x.get(k, [])]
    for k in ('evaluations', 'distinct_nontrivial'): r[k] = sum(x.get(k, 0) for x in reps)
    return r

def run_replay_exe(exe, notes, prop, tier, seed, work):
    if not exe: return dict(ok=False, notes=notes)
    out = '%s/%s_%s.json' % (work, os.path.basename(exe), prop)
    if os.path.exists(out): os.remove(out)
    rc, o, e = verify.sh(['bash', '-c', 'ulimit -v 12000000; exec "$0" "$@"', exe, prop, tier, str(seed), out], 700 if tier == 'thorough' else 300)
    if not os.path.exists(out): return dict(ok=False, notes=notes + [os.path.basename(exe) + ' harness ended with status %d: %s' % (rc, (e or o)[-400:])], crash=rc)
    r = json.load(open(out))
    r.update(ok=True, notes=notes)
    return r

def known(prop):
    p = V + '/known-findings.txt'
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == prop: res.append((re.compile(m.group(2)), m.group(3)))
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--keep')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop, P, t0 = a.prop, PROPS[a.prop], time.time()
    work = a.keep or tempfile.mkdtemp(prefix='vx_%s_' % prop, dir='/tmp')
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(prop, P, a.tier, seed, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(prop, P, tier, seed, work, t0):
    ex = ThreadPoolExecutor(4)
    frep = ex.submit(run_replay, prop, tier, seed, work)
    notes, units = [], []
    try:
        units = prove(P, work, t0)
    except Exception as e:
        notes.append('deductive part undecided: %s' % e)
    try:
        rep = frep.result()
    except Exception as e:
        rep = dict(ok=False, notes=['replay: %s' % e])
    return judge(prop, P, tier, seed, units, rep, notes, t0)

def prove(P, work, t0=None):
    ex = ThreadPoolExecutor(4)
    fvx = ex.submit(verify.build_vx, work)
    src = verify.expand_all(sources(P['units']), work)
    return verify.run_units(P['units'], fvx.result(), src, work, deadline=(t0 or time.time()) + 700)

def judge(prop, P, tier, seed, units, rep, notes, t0):
    notes = notes + rep.get('notes', [])
    roots, contracts, failed, undecided, inlined = [], [], [], {}, set()
    for u in units:
        if u['front']: notes.append('unit %s undecided: %s' % (u['unit'], u['front']))
        if u.get('missing'): notes.append('unit %s: %s' % (u['unit'], '; '.join(u['missing'])))
        for f in u['fns']:
            if f['assumed'] or not f['extracted'] or not f['body']: continue
            contracts.append(f['id']); inlined |= set(f['inlined'])
            if matches(P.get('roots', []) + P.get('also', []), f['id']):
                roots.append(f['id'])
                if f['degraded'] or u['front'] or f['id'] in u['degraded']: undecided[f['id']] = u['degraded'].get(f['id']) or u['front']
        for x in u['failed']: failed.append(dict(x, unit=u['unit']))
    roles(P, failed)
    kn = known(prop)
    reported, live = {}, []
    for f in rep.get('failures', []):
        for rx, what in kn:
            if rx.search(f): reported[what] = f; break
        else: live.append(f)
    for what in reported: print('KNOWN-FINDING: property=%s %s' % (prop, what))
    rootfail = [x for x in failed if x['role'] == 'root']
    depfail = [x for x in failed if x['role'] != 'root']
    verified, errors = sum(u['verified'] for u in units), sum(u['errors'] for u in units)
    violation = bool(live or rootfail)
    for n in notes: print('note:', n[:1000])
    for k, v in undecided.items(): print('undecided (bounded check only): %s: %s' % (k, (v or '')[:300]))
    for x in failed: print('failed obligation [%s] in %s%s: %s' % (x['role'], x['fn'], ' (%s)' % x['clause'] if x['clause'] else '', x['message']))
    print('%s: %d functions under contract (%d deciding), %d obligations discharged, %d failed; bounded replay: %s evaluations, %d failures' % (
        prop, len(contracts), len(roots), verified, errors, rep.get('evaluations', 'no'), len(live)))
    path = None
    if violation:
        rdir = V + '/work/replays'
        os.makedirs(rdir, exist_ok=True)
        path = '%s/%s.json' % (rdir, prop)
        json.dump(dict(property=prop, failing_inputs=live, failed_obligations=failed, how=[('cd %s && ' % V) + ('RUSTFLAGS="--cfg pest3_verif" ' if h == 'replay' else '') + 'cargo run --offline --manifest-path ' + ' '.join(HARNESS[h][1]) + ' -- %s %s %d /tmp/out.json' % (prop, tier, seed) for h in USES[prop]]), open(path, 'w'), indent=1)
        for f in live[:3]: print('failing input:', f[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if live else ' no-failing-input-found'))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(live) + len(rootfail),
        coverage=dict(
            obligations=verified + errors, discharged=verified,
            checker_cmd='; '.join(sorted({u['cmd'] for u in units})) or 'none',
            trusted_base=TRUSTED + P.get('trusted', []),
            back_end='Verus 0.2026.09.13 / Z3 (SMT)',
            solver_ms=sum(u['smt_ms'] for u in units),
            units=[dict(unit=u['unit'], verified=u['verified'], errors=u['errors'], wall_s=round(u['wall'], 1)) for u in units],
            functions_deciding=sorted(set(roots) - set(undecided)), functions_under_contract=sorted(set(contracts)),
            functions_bounded_only=undecided, inlined=sorted(inlined),
            failed_obligations=[dict(fn=x['fn'], message=x['message'], clause=x['clause'], role=x['role']) for x in failed],
            evaluations=rep.get('evaluations', 0), distinct_nontrivial=rep.get('distinct_nontrivial', 0),
            rule=P.get('rule', 'bounded replay (counterexample search and stand-in, not counted as proved): every input over a small alphabet up to a length bound, for every node type of the catalogue; non-trivial: the expression matched'),
            samples=rep.get('samples', [])[:6] or [u['unit'] for u in units],
        ),
        assumptions=P.get('assumptions', []) + ['termination of user-supplied recursion (a grammar rule that calls itself) is not proved', 'usize arithmetic is checked for overflow (not treated as mathematical)'] + notes)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    return 1 if violation else 0

if __name__ == '__main__':
    main()
