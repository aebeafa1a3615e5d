"""verify one contract symbolically: run_sym.py OUT NAME BUDGET [i/n]

VC_UNBOUNDED=1: sequences of symbolic length; otherwise lengths up to VC_BOUND
(the option `bound` of the contract).
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(4000)


def main():
    out = sys.argv[1]
    name = sys.argv[2]
    budget = float(sys.argv[3])
    shard = None
    if len(sys.argv) > 4 and '/' in sys.argv[4]:
        shard = tuple(int(x) for x in sys.argv[4].split('/'))
    res = {'contract': name, 'status': 'undecided', 'error': 'crash'}
    try:
        from vc import instrument
        instrument.install()
        from vc import symbolic
        import contracts
        c = [c for c in contracts.load() if c.name == name][0]
        unb = os.environ.get('VC_UNBOUNDED', '0') == '1'
        bound = int(os.environ.get('VC_BOUND') or c.opts.get('bound', 2))
        res = symbolic.run_contract(c, bound, budget, unb,
                                    c.opts.get('paths', 20000), shard)
    except BaseException as e:  # noqa
        import traceback
        res['error'] = traceback.format_exc()[-1500:]
    json.dump(res, open(out, 'w'))


main()
