"""C21: the reported steady state answers the static equations"""
import numpy as np
from rac.core import *

QUICK, THOROUGH = 150, 3000


def num(v):
    t = f'{v:.4f}'
    return t if v >= 0 else f'({t})'


def draw(rng):
    """x + curve*x^3 = L x + c has one solution: rows of L sum to less than one in modulus"""
    n = int(rng.integers(1, 6))
    names = [f'{a}{k}' for k, a in enumerate(rng.choice(list('xyzkqw'), n))]
    names = [names[j] for j in rng.permutation(n)]
    L = np.round(rng.uniform(-1, 1, (n, n)) * (rng.random((n, n)) < .6) * .8 / n, 4)
    c = np.round(rng.uniform(-2, 2, n) * (rng.random(n) < .8), 4)
    curve = np.round(np.where(rng.random(n) < .3, rng.uniform(.02, .2, n), 0), 4)
    order = rng.permutation(n)
    exprs = []
    for i in order:
        t = ''
        for j in np.flatnonzero(L[i]):
            at = ['', '(-1)', '(+1)'][int(rng.integers(0, 3))] if rng.random() < .7 or j == i else ''
            t += f' + {num(L[i, j])}*{names[j]}{at}'
        t += f' + c{i}' if rng.random() < .9 else f' + c{i}*exp(0*{names[i]})'
        left = names[i] + (f' + {num(curve[i])}*{names[i]}^3' if curve[i] else '')
        exprs.append(f'{left} = 0{t} + e')
    return n, names, L, c, curve, exprs


def residual(x, L, c, curve):
    return x + curve * x ** 3 - L @ x - c


def near(what, x, L, c, curve, info, tol=2e-3):
    x = np.asarray(x, dtype=float)
    equal(f'{what}: length', x.shape, (len(c),), **info)
    r = residual(x, L, c, curve)
    if not np.abs(r).max() <= tol:
        raise Bad(f'{what}: residuals {r} at {x}', **info)


def case(rng, i):
    from pynare import Model
    n, names, L, c, curve, exprs = draw(rng)
    params = {f'c{k}': float(c[k]) for k in range(n)}
    start = {nm: float(np.round(rng.uniform(-2, 2), 3)) for nm in names if rng.random() < .7}
    info = {'endog': names, 'exprs': exprs, 'params': params, 'initial': start}
    m = ut('building a model', lambda: Model(endog=names, stoch=['e'], params=params, exprs=exprs, initial=start,
                                             shocks={'e': {'variance': 1.}}), info=info)
    x0 = np.array([start.get(nm, m.endog[k].initial) for k, nm in enumerate(names)], dtype=float)
    r = rng.random()
    if r < .35:
        v = ut('steady state', lambda: m.ss.values, info=info)
        near('steady state', v, L, c, curve, info)
        equal('steady state, asked for again', np.array_equal(ut('steady state', lambda: m.ss.values, info=info), v), True, **info)
        s = m.ss
        res = ut('results', lambda: s.results, info=info)
        equal('values and results', np.array_equal(s.values, res.x), True, **info)
    elif r < .5:
        # no step allowed: the algorithm starts where the model says
        s = m.ss
        meth = [8, None, '', 8.][int(rng.integers(0, 4))]
        v = ut('no step', s.compute, meth, options={'maxiter': 0}, info={**info, 'method': meth})
        close('start of the algorithm', np.asarray(v, dtype=float), x0, **info)
        equal('start: the result says so', bool(s.results.success) and np.abs(residual(x0, L, c, curve)).max() > 1e-2, False, **info)
        equal('values and results', np.array_equal(s.values, s.results.x) and np.array_equal(s.values, v), True, **info)
    elif r < .65:
        s = m.ss
        opts = {'maxiter': 20000, 'maxfev': 20000, 'xatol': 1e-6, 'fatol': 1e-10, 'adaptive': bool(rng.random() < .5)}
        v = ut('nelder-mead', s.compute, method='nelder-mead', options=opts, info=info, seconds=100)
        if n <= 3 and s.results.success:
            near('nelder-mead', v, L, c, curve, info, 5e-2)
        equal('nelder-mead: a simplex algorithm was run', hasattr(s.results, 'final_simplex'), True, **info)
        k = int(rng.integers(1, 4))
        ut('nelder-mead', s.compute, method='nelder-mead', options={'maxiter': k}, info=info)
        equal('options of the caller', s.results.nit <= k, True, **info)
        equal('values of the last computation', np.array_equal(s.values, s.results.x), True, **info)
    elif r < .8:
        meth = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, -1, 'cg', 'newton', 'Nelder'][int(rng.integers(0, 16))]
        try:
            with quiet():
                m.ss.compute(meth)
        except Exception:
            pass
        else:
            raise Bad(f'the method {meth!r}, which is not there, is accepted', **info)
    else:
        # altered, the equations are those of now
        if rng.random() < .5:
            ut('steady state', lambda: m.ss.values, info=info)
        new = {k: float(np.round(rng.uniform(-2, 2), 3)) for k in params if rng.random() < .7}
        if not new:
            raise Skip('nothing altered')
        info['altered'] = new
        ut('altering parameters', lambda: m.add_params(**new), info=info)
        c = np.array([new.get(f'c{k}', params[f'c{k}']) for k in range(n)])
        near('steady state of the altered model', ut('steady state', lambda: m.ss.values, info=info), L, c, curve, info)

