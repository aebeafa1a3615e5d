"""concrete evaluation of contracts on the unmodified code

run_conc.py OUT search PROP SEED SECONDS WORKER NWORKERS MAXLEN [ONLY.json]
run_conc.py OUT given NAME GIVEN.json
run_conc.py OUT replay NAME SEED MAXLEN [GIVEN.json]
"""
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import logging
logging.disable(logging.CRITICAL)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def guarded(run_one, c, seed, given, maxlen, secs):
    signal.alarm(secs)
    try:
        r = run_one(c, seed, given, maxlen)
        signal.alarm(0)
        return r
    except Hang:
        return 'hang', None, 'did not return within %d s' % secs
    finally:
        signal.alarm(0)


def fail_rec(c, seed, given, maxlen, V, msg, status):
    return {'contract': c.name, 'seed': seed, 'given': given,
            'maxlen': maxlen, 'message': msg, 'status': status,
            'inputs': dict(list(V.inputs.items())[:60]) if V else {}}


def main():
    out, mode = sys.argv[1], sys.argv[2]
    res = {'ok': False}
    try:
        from vc import concrete
        import contracts
        import dcf
        assert os.path.realpath(dcf.__file__).startswith(
            os.path.realpath(REPO) + os.sep), dcf.__file__
        reg = contracts.load()
        if mode == 'search':
            prop, seed, secs, w, nw, maxlen = sys.argv[3:9]
            secs, w, nw, maxlen = float(secs), int(w), int(nw), int(maxlen)
            cs = [c for c in reg if c.prop == prop and
                  c.opts.get('conc', True)]
            if len(sys.argv) > 9:
                only = json.load(open(sys.argv[9]))
                cs = [c for c in cs if c.name in only]
            stat = {c.name: {'ok': 0, 'skip': 0, 'checks': 0} for c in cs}
            shapes = set()
            samples = {}
            fails = []
            t0 = time.time()
            it = w
            live = list(cs)
            # contracts are scheduled by accumulated time / weight
            used = {c.name: 0.0 for c in cs}
            its = {c.name: w for c in cs}
            while live and time.time() - t0 < secs:
                c = min(live, key=lambda c: used[c.name] /
                        c.opts.get('weight', 1))
                it = its[c.name]
                its[c.name] += nw
                s = '%s/%s/%d' % (seed, c.name, it)
                ml = [3, maxlen, maxlen][it % 3]
                t1 = time.time()
                st, V, msg = guarded(concrete.run_one, c, s, None, ml, 20)
                used[c.name] += time.time() - t1 + 1e-6
                if st in ('fail', 'hang'):
                    fails.append(fail_rec(c, s, None, ml, V, msg, st))
                    live.remove(c)
                    continue
                k = stat[c.name]
                k[st] += 1
                k['checks'] += V.nchecks
                if st == 'ok':
                    shapes.add(hash((c.name, repr(sorted(
                        V.inputs.items(), key=str)))))
                    if c.name not in samples:
                        samples[c.name] = {a: b for a, b in list(
                            V.inputs.items())[:12]}
            res = {'ok': True, 'stat': stat, 'distinct': len(shapes),
                   'fails': fails, 'samples': samples}
        elif mode == 'given':
            name, f = sys.argv[3:5]
            c = [c for c in reg if c.name == name][0]
            fails = []
            n = 0
            for g in json.load(open(f)):
                for k in range(12):
                    s = 'g/%s/%d' % (name, k)
                    # drop part of the model after the first tries
                    gg = g if k < 6 else {a: b for i, (a, b) in enumerate(
                        g.items()) if (i + k) % 3}
                    st, V, msg = guarded(concrete.run_one, c, s, gg, 6, 20)
                    n += 1
                    if st in ('fail', 'hang'):
                        fails.append(fail_rec(c, s, gg, 6, V, msg, st))
                        break
                if fails:
                    break
            res = {'ok': True, 'fails': fails, 'n': n}
        elif mode == 'replay':
            name, seed, maxlen = sys.argv[3:6]
            given = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else None
            c = [c for c in reg if c.name == name][0]
            st, V, msg = guarded(concrete.run_one, c, seed, given,
                                 int(maxlen), 40)
            res = {'ok': True, 'status': st, 'message': msg,
                   'inputs': V.inputs if V else {}}
    except BaseException as e:  # noqa
        import traceback
        res['error'] = traceback.format_exc()[-2000:]
    json.dump(res, open(out, 'w'), default=repr)


main()
