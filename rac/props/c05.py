"""C05: calibration"""
import numpy as np
from rac.core import *
from rac import grammar as G

QUICK, THOROUGH = 1200, 30000
NAMES = ['a', 'b', 'c', 'rho', 'k_1', 'Z', 'gam', 'aa', 'd', 'tau']


def given(t, rng):
    """a definition in one of its accepted forms"""
    from pynare.parsing import parse_string
    txt = G.text(G.words(t, rng), rng)
    if t[0] == 'num' and rng.random() < .7:
        return float(t[1]) if rng.random() < .6 or t[1] != int(t[1]) else int(t[1])
    return txt if rng.random() < .6 else parse_string(txt)


def solve(defs):
    """values by repeated substitution; None when circular"""
    vals, left = {}, dict(defs)
    while left:
        ready = [k for k, t in left.items() if G.names(t) <= set(vals)]
        if not ready:
            return None
        for k in ready:
            from rac.props.c01 import strict
            vals[k] = strict(left.pop(k), lambda n, d: vals[n])
    return vals


def case(rng, i):
    from pynare.core.variables import ModelCalibration
    from pynare.errors import CalibrationError
    n = int(rng.integers(1, 9))
    names = [NAMES[j] for j in rng.permutation(len(NAMES))[:n]]
    cyclic = rng.random() < .2
    defs = {}

    def definition(avail, deep=2):
        leaf = lambda: (('var', avail[int(rng.integers(0, len(avail)))], 0) if avail and rng.random() < .7
                        else ('num', float(np.round(rng.choice([rng.uniform(-0, 3), rng.integers(0, 4)]), 3))))
        if rng.random() < .3:
            return leaf() if avail and rng.random() < .7 else ('num', float(np.round(rng.uniform(0, 5), 3)))
        return G.tree(rng, deep, leaf, safe=True)
    for k, nm in enumerate(names):
        defs[nm] = definition(names[:k])
    if cyclic:
        nm = names[int(rng.integers(0, n))]
        later = names[names.index(nm):]
        defs[nm] = ('bin', '+', definition(names), ('var', later[int(rng.integers(0, len(later)))], 0))
    order = [names[j] for j in rng.permutation(n)]
    want = solve(defs)
    obj = {k: given(defs[k], rng) for k in order}
    info = {'definitions': {k: (v if isinstance(v, (int, float, str)) else G.text(G.words(defs[k])))
                            for k, v in obj.items()}}
    if want is None:
        must_raise('circular definitions', CalibrationError, ModelCalibration, obj, info=info)
        return
    cal = ut('calibration', ModelCalibration, obj, info=info)

    def same(when):
        equal(f'{when}: parameters', sorted(cal), sorted(want), **info)
        for k in want:
            got = ut(f'{when}: value of {k}', lambda: float(cal[k]), info=info)
            close(f'{when}: value of {k}', got, want[k], rtol=1e-9, **info)
    same('calibration')
    info['reassigned'] = []
    for _ in range(int(rng.integers(0, 4))):
        k = names[int(rng.integers(0, n))]
        t = definition([x for x in names if x != k] if rng.random() < .6 else [])
        new = {**defs, k: t}
        nw = solve(new)
        v = given(t, rng)
        info['reassigned'].append([k, v if isinstance(v, (int, float, str)) else G.text(G.words(t))])

        def put():
            cal[k] = v
        if nw is None:
            must_raise('circular reassignment', CalibrationError, put, info=info)
            same('after a rejected reassignment')
        else:
            ut('reassignment', put, info=info)
            defs, want = new, nw
            same('after reassignment')
