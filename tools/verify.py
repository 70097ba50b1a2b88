"""Extraction and deductive verification: expands /repo, extracts, runs the verifier per unit."""
import glob, json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from units import PACKAGES, UNITS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
RLIMIT = '30'

def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, '', 'timeout after %s s' % timeout

def build_vx(work):
    rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--manifest-path', V + '/vx/Cargo.toml', '--target-dir', work + '/vxt'], 600)
    if rc: raise RuntimeError('building the extractor failed:\n' + e[-3000:])
    return work + '/vxt/debug/vx'

def expand(work, pkg='pest3_core', name='core'):
    env = dict(ENV, CARGO_TARGET_DIR=work + '/exp')
    # `rules` is a crate of ours with a path dependency on /repo: what the generator emits for its grammar
    cmd = ['cargo', '+nightly', 'rustc', '--offline', '-q'] + (['--manifest-path', V + '/rules/Cargo.toml'] if name == 'rules' else ['-p', pkg]) + ['--lib', '--', '-Zunpretty=expanded']
    rc, o, e = sh(cmd, 600, env, '/repo')
    if rc: raise RuntimeError('expanding %s failed:\n%s' % (pkg, e[-3000:]))
    p = '%s/%s.rs' % (work, name)
    open(p, 'w').write(o)
    return p

def expand_all(names, work):
    """name -> expanded source; where the expansion fails, the reason (an Exception)"""
    src = {}
    for n in names:
        try: src[n] = expand(work, PACKAGES[n], n)
        except Exception as e: src[n] = e
    return src

def contract_file(n):
    r = glob.glob('%s/contracts/core/%s_*.rs' % (V, n))
    assert len(r) == 1, (n, r)
    return r[0]

def skeleton(unit):
    u, o = UNITS[unit], []
    for n in sorted(u['assume'] + u['verify'] + ['99']):
        o.append('//@assume %s\n' % ('on' if n in u['assume'] else 'off'))
        o.append(open(contract_file(n)).read())
    return ''.join(o)

FRONT, UNDEC = 'front-end', 'undecided'
def classify(d):
    m = d['message']
    if re.search(r'rlimit|resource limit|timed? ?out|could not (prove|verify) due', m, re.I): return UNDEC
    if d.get('code'): return FRONT
    if re.match(r'(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|decreases not satisfied|loop invariant|unreachable|recommendation|requires not satisfied|could not prove termination|cannot prove|possible bit shift|constructed value may fail|unable to prove|assert_by|split|triggered|loop must have a decreases|bounds|index|possible)', m): return 'obligation'
    return FRONT

def fn_of(spans, fns, m):
    """the extracted function an error is about"""
    ex = []
    for s in spans:
        if not os.path.basename(s['file_name']).startswith('out'): continue
        for f in fns:
            if f['extracted'] and f['start'] <= s['line_start'] <= f['end']: ex.append((s, f))
    lab = [f for s, f in ex if re.search(r'at (this exit|the end of the function)|at this (call|loop)', s.get('label') or '')]
    if lab: return lab[0]
    body = [f for s, f in ex if f['body'] and s.get('is_primary')] or [f for s, f in ex if f['body']] or [f for s, f in ex]
    return body[0] if body else None

CLAUSES = [('node_ok', r'node_ok|nf_ok|items_ok|item_ok'), ('snaps', r'\bo_snaps\b|\.snaps\(\)'), ('trk', r'\bo_trk\b|\btracker\b|_trk\b|\btrk\('), ('frame', r'\bo_frame\b'),
           ('valid', r'\bo_valid\b|\.wf\(\)|\.inv\(\)|valid_item'), ('stack', r'\bo_stack\b|nf_sem\(.*\)\.1'), ('lang', r'\bo_lang\b|_sem\b|\bsem\(')]
def clause_of(d):
    """which part of the contract the failed obligation belongs to (None: none in particular)"""
    post = [s for s in d['spans'] if 'failed this postcondition' in (s.get('label') or '')] or [s for s in d['spans'] if s.get('is_primary') and not d['message'].startswith('precondition')]
    for s in post:
        t = ' '.join(x['text'][x['highlight_start'] - 1:x['highlight_end'] - 1] for x in s['text'])
        for n, rx in CLAUSES:
            if re.search(rx, t): return n
    # part of a contract, but of none of the node clauses
    return 'content' if d['message'].startswith('postcondition') else None

def run_unit(unit, vx, src, work, deadline=None):
    t0 = time.time()
    deadline = deadline or t0 + 700
    d = '%s/u_%s' % (work, unit)
    os.makedirs(d, exist_ok=True)
    open(d + '/skel.rs', 'w').write(skeleton(unit))
    degrade, reasons = [], {}
    res = dict(unit=unit, failed=[], degraded={}, fns=[], verified=0, errors=0, smt_ms=0, cmd='', log='', front=None, runs=0)
    bad = [str(src[k]) for k in UNITS[unit].get('src', ['core']) if isinstance(src[k], Exception)]
    while True:
        if bad: res['front'] = bad[0][-1500:]; break
        open(d + '/degrade.txt', 'w').write(''.join(x + '\n' for x in degrade))
        cmd = [vx] + sum((['--src', '%s=%s' % (k, p)] for k, p in src.items() if k in UNITS[unit].get('src', ['core'])), []) + ['--skel', d + '/skel.rs', '--out', d + '/out.rs', '--map', d + '/map.json', '--degrade', d + '/degrade.txt']
        rc, o, e = sh(cmd, 120)
        if rc: res['front'] = 'extraction failed: ' + e[-1500:]; break
        mp = json.load(open(d + '/map.json'))
        fns = mp['fns']
        res['fns'] = fns
        res['missing'] = mp['errors']
        vcmd = ['verus', 'out.rs', '--crate-type', 'lib', '--triggers-mode', 'silent', '--output-json', '--time', '--multiple-errors', '20', '--rlimit', RLIMIT, '--error-format=json']
        res['cmd'] = ' '.join(vcmd)
        res['runs'] += 1
        left = deadline - time.time()
        if left < 20: res['front'] = 'out of time'; break
        rc, o, e = sh(vcmd, min(420, left), cwd=d)
        if rc == 124: res['front'] = 'verifier timed out'; break
        diags = []
        for l in e.splitlines():
            if l.startswith('{'):
                try: x = json.loads(l)
                except ValueError: continue
                if x.get('level') == 'error' and not x['message'].startswith('aborting due to'): diags.append(x)
        js = {}
        i = o.find('{')
        if i >= 0:
            try: js = json.loads(o[i:])
            except ValueError: js = {}
        vr = js.get('verification-results', {})
        kinds = [(x, classify(x)) for x in diags]
        new = set()
        for x, k in kinds:
            f = fn_of(x['spans'], fns, x['message']) if k in (FRONT, UNDEC) else None
            if f and k == UNDEC: res['degraded'][f['id']] = x['message'][:300]
            elif f and f['id'] not in degrade:
                new.add(f['id']); reasons[f['id']] = x['message'][:300]
        front = [x for x, k in kinds if k == FRONT]
        if new and res['runs'] < 8:
            degrade += sorted(new); continue
        if front or not vr:
            res['front'] = '; '.join(x['message'][:300] for x in front) or ('no verdict: ' + (e[-800:] or o[-300:]))
            break
        res['verified'], res['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        try: res['smt_ms'] = js['times-ms']['smt']['total']
        except Exception: res['smt_ms'] = 0
        for x, k in kinds:
            if k == 'obligation':
                f = fn_of(x['spans'], fns, x['message'])
                res['failed'].append(dict(fn=f['id'] if f else None, message=x['message'], clause=clause_of(x), text=(x.get('rendered') or '')[:1500]))
        break
    for f in res['fns']:
        if f['degraded']: res['degraded'][f['id']] = reasons.get(f['id']) or f['reason']
    res['wall'] = time.time() - t0
    return res

def run_units(units, vx, src, work, jobs=8, deadline=None):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda u: run_unit(u, vx, src, work, deadline), units))
