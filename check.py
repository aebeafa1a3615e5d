#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property.

1. generates verification conditions from /repo's current source for every
   contract of the property and discharges them (ring normaliser, z3, cvc5);
2. evaluates the same contracts on the unmodified code: replay of solver
   counterexamples and a seeded search for failing inputs.
"""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONHASHSEED'] = '0'
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(VT):
    VT = 'python3-vt'

TRUSTED = [
    'vc/: the verification condition generator itself (AST instrumentation, '
    'symbolic execution with path forking, ring normaliser, summaries of '
    'comprehensions and for-loops over sequences of symbolic length)',
    'z3 5.3.2, cvc5 1.1.2, sympy sparse polynomials',
    'floats treated as mathematical reals, decimal literals read exactly',
    'contracts assumed on builtins (sorted, zip, dict, min, max, sum, any, '
    'all, round, enumerate, reversed, list methods, bisect) as in '
    'vc/shadow*.py and, for sequences of symbolic length, vc/seq.py',
    'exp, log, sqrt: axioms (monotone, exp(a+b)=exp(a)exp(b), inverse)',
    'business date periods other than days: uninterpreted strictly monotone '
    'functions; calendar differences in days exact',
]


def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=HERE, timeout=timeout,
                           env=dict(os.environ, **(env or {})),
                           capture_output=True, text=True,
                           start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -1, 'timeout'


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    sym_budget = 240.0 if thorough else 45.0
    conc_budget = 180.0 if thorough else 25.0
    maxlen = 30 if thorough else 12
    tmp = tempfile.mkdtemp(prefix='vc_')
    try:
        rc = run(prop, tier, seed, t0, sym_budget, conc_budget, maxlen, tmp,
                 thorough)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def known(prop):
    """accepted findings: (contract, message prefix)"""
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'known':
                    out.append(d)
    return out


def run(prop, tier, seed, t0, sym_budget, conc_budget, maxlen, tmp, thorough):
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import contracts
    cs = [c for c in contracts.load() if c.prop == prop]
    if not cs:
        print('no contracts for', prop)
        return 2
    names = [c.name for c in cs if c.opts.get('sym', True)]
    copts = {c.name: c.opts for c in cs}

    def sym(job):
        name, shard, unb = job
        out = os.path.join(tmp, 'sym_%s_%s_%d.json' % (
            name, shard.replace('/', '_'), unb))
        b = sym_budget * copts[name].get('ubudget' if unb else 'budget', 1)
        rc, txt = sh([VT, 'vc/run_sym.py', out, name, str(b), shard],
                     b * 2 + 60, {'VC_UNBOUNDED': '1' if unb else '0'})
        try:
            return json.load(open(out))
        except Exception:
            return {'contract': name, 'status': 'undecided',
                    'error': 'rc=%s %s' % (rc, txt[-800:])}

    nw = 3

    def conc(w):
        out = os.path.join(tmp, 'conc_%d.json' % w)
        rc, txt = sh([PY, 'vc/run_conc.py', out, 'search', prop, str(seed),
                      str(conc_budget), str(w), str(nw), str(maxlen)],
                     conc_budget + 120)
        try:
            return json.load(open(out))
        except Exception:
            return {'ok': False, 'error': 'rc=%s %s' % (rc, txt[-800:])}

    with ThreadPoolExecutor(8) as ex:
        fc = [ex.submit(conc, w) for w in range(nw)]
        with ThreadPoolExecutor(5) as ex2:
            # bounded lengths, and lengths without a bound
            jobs = []
            for n in names:
                k = copts[n].get('split', 1)
                jobs += [(n, '%d/%d' % (i, k) if k > 1 else '', 0)
                         for i in range(k)]
                if copts[n].get('unbounded'):
                    k = copts[n].get('usplit', 1)
                    jobs += [(n, '%d/%d' % (i, k) if k > 1 else '', 1)
                             for i in range(k)]
            jobs.sort(key=lambda j: -copts[j[0]].get(
                'ubudget' if j[2] else 'budget', 1))
            res = list(ex2.map(sym, jobs))
        both = [(j, r) for j, r in zip(jobs, res)]
        symr = merge([j for j, r in both if not j[2]],
                     [r for j, r in both if not j[2]])
        unbr = merge([j for j, r in both if j[2]],
                     [r for j, r in both if j[2]])
        symr = choose(symr, unbr)
        deeper = [r['contract'] for r in symr if 'unbounded_attempt' in r]
        concr = [f.result() for f in fc]

    errors = []
    fails = []
    for r in concr:
        if not r.get('ok'):
            errors.append('concrete: ' + r.get('error', '?'))
        else:
            fails += r['fails']
    # solver counterexamples
    replayed = 0

    def given(r):
        models = []
        for o in r.get('detail', {}).values():
            models += o.get('models', [])
        if not models or r['status'] == 'proved':
            return None
        gf = os.path.join(tmp, 'given_%s.json' % r['contract'])
        json.dump(models[:8], open(gf, 'w'))
        out = os.path.join(tmp, 'givenout_%s.json' % r['contract'])
        sh([PY, 'vc/run_conc.py', out, 'given', r['contract'], gf], 300)
        try:
            return json.load(open(out))
        except Exception:
            return None

    if not fails:
        todo = [r for r in symr if copts[r['contract']].get('conc', True)]
        with ThreadPoolExecutor(6) as ex:
            for g in ex.map(given, todo):
                if g and g.get('ok'):
                    replayed += g.get('n', 0)
                    fails += g['fails']

    # no longer proved for all lengths: search longer inputs as well
    if not fails and deeper:
        gf = os.path.join(tmp, 'deeper.json')
        json.dump(deeper, open(gf, 'w'))

        def deep(w):
            out = os.path.join(tmp, 'deep_%d.json' % w)
            sh([PY, 'vc/run_conc.py', out, 'search', prop,
                'deep%d' % seed, str(2 * conc_budget), str(w), '6',
                str(maxlen * (2 + w)), gf], 2 * conc_budget + 120)
            try:
                return json.load(open(out))
            except Exception:
                return {}
        with ThreadPoolExecutor(6) as ex:
            for g in ex.map(deep, range(6)):
                fails += g.get('fails', [])

    # confirm failing inputs in a fresh process
    kn = known(prop)
    kprint = {}
    confirmed = []
    seen = set()
    for f in fails:
        if f['contract'] in seen:
            continue
        out = os.path.join(tmp, 'replay.json')
        cmd = [PY, 'vc/run_conc.py', out, 'replay', f['contract'], f['seed'],
               str(f['maxlen'])]
        if f.get('given') is not None:
            gf = os.path.join(tmp, 'g.json')
            json.dump(f['given'], open(gf, 'w'))
            cmd.append(gf)
        sh(cmd, 120)
        try:
            r = json.load(open(out))
        except Exception:
            r = {}
        if r.get('status') in ('fail', 'hang'):
            f['replay'] = r
            seen.add(f['contract'])
            confirmed.append(f)
        else:
            errors.append('failing input of %s did not replay' %
                          f['contract'])
    refuted = [r for r in symr if r['status'] == 'refuted']
    for d in kn:
        for f in list(confirmed):
            if f['contract'] == d['contract'] and d['message'] in f['message']:
                confirmed.remove(f)
        kprint[d['id']] = d
    for d in kprint.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))

    nviol = 0
    lines = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    if confirmed:
        path = os.path.join('evidence', 'replay', prop + '.json')
        json.dump({'property': prop, 'failures': confirmed,
                   'obligations': [slim(r) for r in symr
                                   if r['status'] != 'proved'],
                   'how': 'python3 check.py %s --replay %s' % (prop, path)},
                  open(os.path.join(HERE, path), 'w'), indent=1, default=repr)
        for f in confirmed:
            lines.append('  contract %s: %s' % (f['contract'], f['message']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        nviol = len(confirmed)
    elif refuted:
        path = os.path.join('evidence', 'replay', prop + '.json')
        json.dump({'property': prop, 'no_failing_input': True,
                   'failed_obligations': [slim(r) for r in refuted]},
                  open(os.path.join(HERE, path), 'w'), indent=1, default=repr)
        for r in refuted:
            for n, o in r['detail'].items():
                if o['refuted']:
                    lines.append('  failed obligation %s / %s: %s' % (
                        r['contract'], n, o['detail'][:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found'
                     % (prop, path))
        nviol = len(refuted)

    evidence(prop, tier, seed, t0, cs, symr, concr, replayed, errors, nviol)
    for l in lines:
        print(l)
    done = sum(r.get('discharged', 0) for r in symr)
    tot = sum(r.get('obligations', 0) for r in symr)
    ev = sum(k['ok'] for r in concr if r.get('ok')
             for k in r['stat'].values())
    print('%s: %d/%d obligations discharged, %d contract evaluations, '
          '%.1f s' % (prop, done, tot, ev, time.time() - t0))
    for r in symr:
        if r['status'] != 'proved':
            print('  %s: %s %s %s' % (
                r['contract'], r['status'], json.dumps(r.get('stops', {})),
                r.get('error', '')[-600:]))
    for e in errors:
        print('  note:', e)
    if lines:
        return 1
    if any(not r.get('ok') for r in concr) and not tot:
        return 2
    if not ev and not done:
        return 2
    return 0


def choose(bnd, unb):
    """proved without bound, else the result for bounded lengths"""
    un = {r['contract']: r for r in unb}
    out = []
    for r in bnd:
        u = un.get(r['contract'])
        keys = ('status', 'mode', 'paths', 'obligations', 'discharged',
                'stops', 'error')
        if u is None:
            out.append(r)
        elif u['status'] == 'proved' and r['status'] != 'refuted':
            u['cross_check'] = {k: r.get(k) for k in keys}
            u['queries'] = u.get('queries', 0) + r.get('queries', 0)
            u['solver_s'] = u.get('solver_s', 0) + r.get('solver_s', 0)
            out.append(u)
        else:
            r['unbounded_attempt'] = {k: u.get(k) for k in keys}
            out.append(r)
    return out


def merge(jobs, res):
    """results of the shards of one contract"""
    out = {}
    for (name, shard, _), r in zip(jobs, res):
        if r.get('status') == 'undecided' and shard and not r.get('stops') \
                and r.get('paths') == 0 and not r.get('error'):
            continue  # empty shard
        o = out.get(name)
        if o is None:
            out[name] = r
            continue
        for k in ('paths', 'obligations', 'discharged', 'refuted', 'queries',
                  'solver_s', 'wall_s'):
            o[k] = round(o.get(k, 0) + r.get(k, 0), 3)
        st = (o['status'], r['status'])
        o['status'] = 'refuted' if 'refuted' in st else \
            'undecided' if 'undecided' in st else 'proved'
        for k, v in r.get('stops', {}).items():
            o.setdefault('stops', {})
            o['stops'][k] = o['stops'].get(k, 0) + v
        if r.get('mode', 'all inputs') != 'all inputs':
            o['mode'] = r['mode']
        if r.get('error'):
            o['error'] = r['error']
        o['functions'] = sorted(set(o.get('functions', [])) |
                                set(r.get('functions', [])))
        od = o.setdefault('detail', {})
        for n, d in r.get('detail', {}).items():
            if n not in od:
                od[n] = d
                continue
            q = od[n]
            for k in ('n', 'proved', 'refuted', 'undecided', 'secs'):
                q[k] += d[k]
            for b, v in d['backends'].items():
                q['backends'][b] = q['backends'].get(b, 0) + v
            q['models'] = (q['models'] + d['models'])[:6]
            q['detail'] = q['detail'] or d['detail']
    return list(out.values())


def slim(r):
    r = dict(r)
    r.pop('functions', None)
    return r


def evidence(prop, tier, seed, t0, cs, symr, concr, replayed, errors, nviol):
    man = {}
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        man = {c['property']: c for c in m['checks']}.get(prop, {})
    except Exception:
        pass
    level = man.get('level', 'proof')
    full = [r for r in symr if r.get('mode') == 'all inputs']
    bnd = [r for r in symr if r.get('mode', '') != 'all inputs']
    be = {}
    for r in symr:
        for o in r.get('detail', {}).values():
            for b, n in o['backends'].items():
                be[b] = be.get(b, 0) + n
    fns = sorted({f for r in symr for f in r.get('functions', [])})
    stat = {}
    distinct = 0
    samples = []
    for r in concr:
        if r.get('ok'):
            distinct += r['distinct']
            for n, k in r['stat'].items():
                s = stat.setdefault(n, {'ok': 0, 'skip': 0, 'checks': 0})
                for a in s:
                    s[a] += k[a]
            if not samples:
                samples = [{'contract': n, 'inputs': v}
                           for n, v in list(r['samples'].items())[:6]]
    cov = {
        'obligations': sum(r.get('obligations', 0) for r in full),
        'discharged': sum(r.get('discharged', 0) for r in full),
        'bounded_obligations': sum(r.get('obligations', 0) for r in bnd),
        'bounded_discharged': sum(r.get('discharged', 0) for r in bnd),
        'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'backends': be,
        'solver_s': round(sum(r.get('solver_s', 0) for r in symr), 2),
        'solver_queries': sum(r.get('queries', 0) for r in symr),
        'contracts': [{k: r.get(k) for k in (
            'contract', 'status', 'mode', 'paths', 'obligations',
            'discharged', 'solver_s', 'stops', 'cross_check',
            'unbounded_attempt') if r.get(k) is not None} for r in symr],
        'functions_under_contract': fns,
        'evaluations': sum(s['ok'] for s in stat.values()),
        'distinct_nontrivial': distinct,
        'rule': 'contract evaluated on the unmodified code on drawn inputs; '
                'non-trivial: all preconditions held; distinct: by inputs',
        'evaluations_per_contract': stat,
        'counterexample_replays': replayed,
        'samples': samples,
        'explanation': 'obligations over all inputs are listed apart from '
                       'obligations over all values but bounded lengths '
                       '(bounded_*); evaluations are the bounded search for '
                       'failing inputs on the unmodified code',
    }
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
         'coverage': cov,
         'assumptions': TRUSTED[2:] + ['notes: ' + e for e in errors][:3],
         'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'),
              indent=1, default=repr)


def replay():
    prop, path = sys.argv[1], sys.argv[3]
    d = json.load(open(path))
    rc = 0
    for f in d.get('failures', []):
        tmp = tempfile.mkdtemp(prefix='vc_')
        out = os.path.join(tmp, 'o.json')
        cmd = [PY, 'vc/run_conc.py', out, 'replay', f['contract'], f['seed'],
               str(f['maxlen'])]
        if f.get('given') is not None:
            json.dump(f['given'], open(os.path.join(tmp, 'g'), 'w'))
            cmd.append(os.path.join(tmp, 'g'))
        sh(cmd, 120)
        r = json.load(open(out))
        print(f['contract'], r.get('status'), r.get('message'))
        rc = rc or int(r.get('status') in ('fail', 'hang'))
        import shutil
        shutil.rmtree(tmp)
    sys.exit(rc)


if __name__ == '__main__':
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay()
    else:
        main()
