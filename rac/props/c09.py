"""C09: first-order policy"""
import numpy as np
from rac.core import *
from rac import gen

QUICK, THOROUGH = 300, 6000


def draw(rng, n_max=6, want='det', quad=False, n_exog=None, sig=None, kinds=None, gap=.05):
    n = int(rng.integers(1, n_max + 1))
    k = kinds or ''.join(rng.choice(list('SBMF'), n, p=rng.dirichlet([1, 1, 1, 1])))
    e = int(rng.integers(0, 4)) if n_exog is None else n_exog
    sp = gen.draw_spec(rng, k, e, quad=quad, want=want, gap=gap,
                       sig=sig or str(rng.choice(['diag', 'unit', 'full'])))
    if sp is None:
        raise Skip('no spec')
    return sp


def build(rng, sp, info=None):
    """a model of the spec whose covariance is the spec's (through the shocks dict)"""
    from pynare import Model
    sh = {}
    for i, s in enumerate(sp.stoch):
        sh[s] = {'variance': float(sp.sigma[i, i])}
    for i in range(sp.e):
        for j in range(i):
            if sp.sigma[i, j]:
                a, b = (i, j) if rng.random() < .5 else (j, i)
                d = sh[sp.stoch[a]]
                if 'other' not in d:
                    d.update(other=sp.stoch[b], cov=float(sp.sigma[i, j]))
                else:
                    d.setdefault('pairs', {})[sp.stoch[b]] = {'cov': float(sp.sigma[i, j])}
    info = info if info is not None else {}
    ex = gen.exprs(sp, rng)
    info.update(endog=sp.names, stoch=sp.stoch, kinds=''.join(sp.kinds), exprs=ex, shocks=sh,
                initial={nm: float(v) for nm, v in zip(sp.names, sp.c)})
    m = ut('building a model', Model, endog=list(sp.names), stoch=list(sp.stoch), exprs=ex, shocks=sh,
           initial=info['initial'], info=info)
    if np.abs(m.ss.values - sp.c).max() > 1e-5:
        raise Skip('another steady state')
    return m, info


def dense(sp, gy, gu, info):
    """declaration-order dense policy from the solution arrays (rows DR, columns as documented)"""
    n, e, ns = sp.n, sp.e, len(sp.state)
    gy, gu = np.asarray(gy, dtype=float), np.asarray(gu, dtype=float)
    if gy.size != n * ns or gu.size != n * e:
        raise Bad(f'policy shapes {gy.shape}, {gu.shape} for {n} variables, {ns} states, {e} shocks', **info)
    if gy.ndim > 2 or gy.shape[0] != n or gu.ndim > 2 or gu.shape[0] != n:
        raise Bad(f'policy shapes {gy.shape}, {gu.shape} for {n} variables', **info)
    P, G = np.zeros((n, n)), np.zeros((n, e))
    P[np.ix_(sp.dr, sp.state)] = gy.reshape(n, ns)
    G[sp.dr] = gu.reshape(n, e)
    return P, G


def check(sp, m, info, P, G):
    size = max(1, *[np.abs(x).max(initial=0) for x in (P, G)])
    small('first-order residual on lagged states', sp.Ap @ P @ P + sp.A0 @ P + sp.Am, size ** 2, **info)
    small('first-order residual on shocks', sp.Ap @ P @ G + sp.A0 @ G + sp.Au, size ** 2, **info)
    if P.size and np.abs(np.linalg.eigvals(P)).max() > 1 + 1e-6:
        raise Bad('explosive state transition', **info)


def case(rng, i):
    sp = draw(rng, quad=rng.random() < .3)
    m, info = build(rng, sp)
    sol = ut('solving', m.solve, order=1, info=info)
    P, G = dense(sp, sol.gy, sol.gu, info)
    check(sp, m, info, P, G)
