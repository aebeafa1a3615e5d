"""Contracts on the functions of dcf.

A contract is a python function of a universe V.  It states preconditions
(V.real, V.times, ..., V.assume), calls the real code and states
postconditions (V.eq, V.check, V.raises).  Universes:
  * vc.symbolic  - V.real is an arbitrary real; every postcondition becomes a
                   proof obligation over the real source, for all inputs;
  * vc.concrete  - V.real is a float (drawn, or taken from a counterexample
                   model): replay of counterexamples on the unmodified code.
"""

REG = []


class Contract(object):
    def __init__(self, prop, fn, name, **opts):
        self.prop, self.fn, self.name, self.opts = prop, fn, name, opts


def contract(*props, **opts):
    def deco(fn):
        for p in props:
            REG.append(Contract(p, fn, '%s.%s' % (p, fn.__name__), **opts))
        return fn
    return deco


MODULES = ('basics', 'interp', 'curves', 'rates', 'credit', 'forwards',
           'flows', 'options', 'plans', 'pricing', 'misc')


def load():
    import importlib
    if not REG:
        for m in MODULES:
            try:
                importlib.import_module('contracts.' + m)
            except ModuleNotFoundError as e:
                if ('contracts.' + m) not in str(e):
                    raise
    return REG
