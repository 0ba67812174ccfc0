"""C08: shock covariance"""
import numpy as np
from rac.core import *
from rac.props import eqs
from rac import grammar as G
from rac.gen import lengthen

QUICK, THOROUGH = 500, 10000


def case(rng, i):
    from pynare import Model
    from pynare.parsing import read_model
    n = int(rng.integers(0, 6))
    names = ['eps', 'u', 'e_b', 'shk', 'v', 'w'][:]
    names = lengthen([names[j] for j in rng.permutation(6)[:n]])
    var = {}
    decl = []       # (kind, a, b, value)
    for s in names:
        r = rng.random()
        if r < .4:
            var[s] = float(np.round(rng.uniform(.1, 3), 2)); decl.append(('var', s, None, var[s]))
        elif r < .75:
            sd = float(np.round(rng.uniform(.1, 3), 2)); var[s] = sd * sd; decl.append(('std', s, None, sd))
        elif r < .8:
            var[s] = 0.; decl.append(('var', s, None, 0.))
        else:
            var[s] = 1.
    want = np.diag([var[s] for s in names]) if n else np.zeros((0, 0))
    for a in range(n):
        for b in range(a):
            if rng.random() < .45:
                x, y = (names[a], names[b]) if rng.random() < .5 else (names[b], names[a])
                v = float(np.round(rng.uniform(-.9, .9), 3))
                if rng.random() < .1:
                    v = 0.
                if rng.random() < .5:
                    decl.append(('corr', x, y, v))
                    want[a, b] = want[b, a] = v * np.sqrt(var[x] * var[y])
                else:
                    decl.append(('cov', x, y, v))
                    want[a, b] = want[b, a] = v
    decl = [decl[j] for j in rng.permutation(len(decl))]
    decl = [d for d in decl]
    info = {'stoch': names, 'declarations': decl}
    base = f'var y; {"varexo " + " ".join(names) + ";" if n else ""} parameters p; p = 0.5;\n' \
           f'model; y = 0{"".join(" + " + s for s in names)}; end;\n'
    num = lambda v: ('-' if v < 0 else '') + G.number_text(abs(v)) if rng.random() < .7 else \
        f'{"-" if v < 0 else ""}p*{G.number_text(2 * abs(v))}'
    form = {'var': lambda a, b, v: f'var {a} = {num(v)};', 'std': lambda a, b, v: f'var {a}; stderr {num(v)};',
            'cov': lambda a, b, v: f'var {a}, {b} = {num(v)};', 'corr': lambda a, b, v: f'corr {a}, {b} = {num(v)};'}
    txt = base
    if decl or rng.random() < .5:
        txt += 'shocks;\n' + '\n'.join(form[k](a, b, v) for k, a, b, v in decl) + '\nend;\n'
    info['file'] = txt
    with light_models():
        m = ut('building a model', lambda: Model.from_outline(read_model(txt, 'dynare')), info=info)
        sig = ut('sigma', lambda: m.sigma, info=info)
        close('covariance matrix', sig, want, rtol=1e-9, **info)
        # the same through a shocks dict, at most one partner each
        shocks, used = {}, set()
        w2 = np.diag([1.] * n) if n else np.zeros((0, 0))
        v2 = {s: 1. for s in names}
        for k, a, b, v in decl:
            if k in ('var', 'std'):
                v2[a] = v if k == 'var' else v * v
                shocks.setdefault(a, {})['variance'] = v2[a]
        w2 = np.diag([v2[s] for s in names]) if n else w2
        for k, a, b, v in decl:
            if k in ('cov', 'corr') and a not in used:
                used.add(a)
                shocks.setdefault(a, {}).update({'other': b, k: v})
                p, q = names.index(a), names.index(b)
                w2[p, q] = w2[q, p] = v if k == 'cov' else v * np.sqrt(v2[a] * v2[b])
        info2 = {'stoch': names, 'shocks': shocks}
        m = ut('building a model', Model, endog=['y'], stoch=names, shocks=shocks,
               exprs=['y = 0' + ''.join(' + ' + s for s in names)], info=info2)
        close('covariance matrix', ut('sigma', lambda: m.sigma, info=info2), w2, rtol=1e-9, **info2)
