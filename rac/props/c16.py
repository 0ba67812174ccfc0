"""C16: variance decomposition"""
import numpy as np
from rac.core import *
from rac.props.c09 import draw, build
from rac.props.c13 import policy
from rac.props.c15 import covariance

QUICK, THOROUGH = 200, 4000


def case(rng, i):
    order = 1 + (i % 8 == 7)
    sp = draw(rng, n_max=4 if order == 2 else 6, quad=order == 2, n_exog=int(rng.integers(1, 5)))
    m, info = build(rng, sp)
    t = policy(sp, m, order, info)
    P, G = t[0], t[1]
    if np.abs(np.linalg.eigvals(P)).max() > .97:
        raise Skip('near unit root')
    L = np.linalg.cholesky(sp.sigma)
    parts = np.stack([np.diag(covariance(P, G, np.outer(L[:, j], L[:, j])))
                      for j in range(sp.e)], axis=1)
    tot = parts.sum(axis=1)
    if np.any(tot < 1e-4):
        raise Skip('a variable without variance')
    share = parts / tot[:, None]
    full = np.asarray(ut('var_decomp', m.stats.var_decomp, info=info))
    close('shares', full, share, rtol=1e-5, atol=1e-6, **info)
    close('rows sum to one', full.sum(axis=1), np.ones(sp.n), **info)
    if (full < -1e-12).any():
        raise Bad('negative share', **info)

    def pick(names):
        k = int(rng.integers(1, len(names) + 1))
        sel = [names[j] for j in rng.permutation(len(names))[:k]]
        return sel[0] if k == 1 and rng.random() < .5 else (tuple(sel) if rng.random() < .3 else sel)
    en = pick(sp.names) if rng.random() < .7 else None
    st = pick(sp.stoch) if en is None or rng.random() < .6 else None
    aslist = lambda x: [x] if isinstance(x, str) else list(x)
    ei = [sp.names.index(x) for x in aslist(en)] if en is not None else list(range(sp.n))
    si = [sp.stoch.index(x) for x in aslist(st)] if st is not None else list(range(sp.e))
    kw = {}
    if en is not None: kw['endog'] = en
    if st is not None: kw['stoch'] = st
    info['selection'] = kw
    sub = np.asarray(ut('var_decomp with a selection', m.stats.var_decomp, info=info, **kw))
    close('selected shares', sub, share[np.ix_(ei, si)], rtol=1e-5, atol=1e-6, **info)
    must_raise('unknown variable', (ValueError, KeyError), m.stats.var_decomp, endog=['nobody'], info=info)
    must_raise('unknown shock', (ValueError, KeyError), m.stats.var_decomp, stoch=[sp.stoch[0], 'nobody'], info=info)
