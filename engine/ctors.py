"""What the constructors store, and the settings of a new object."""
import os
import sys

import front
from interp import Program, Interp, Unsupported
from terms import Budget, show, T, find_atoms
import terms as tm
from tdiff import diff

def pairs(dumps):
    """name -> (library term, reference term, function) for every lib_/ref_ pair"""
    P = Program()
    for d in dumps:
        P.load(d)
    P.register_types()
    fs = {f['name']: f for f in P.funcs.values() if f['name'].startswith('ctor::')}
    out = {}
    for n, f in sorted(fs.items()):
        if not n.startswith('ctor::lib_'):
            continue
        r = fs['ctor::ref_' + n[10:]]
        res = []
        for g in (f, r):
            I = Interp(P, {})
            tm.set_budget(20)
            tm.RANGES.clear()
            try:
                res.append(I.analyze(g, spec=True).get(('ret',)))
            except (Unsupported, Budget, KeyError, AttributeError, TypeError, IndexError) as ex:
                res.append('%s %s' % (type(ex).__name__, ex))
        out[n[10:]] = (res[0], res[1], f, P)
    return out
