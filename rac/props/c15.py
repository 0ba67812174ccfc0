"""C15: theoretical moments"""
import numpy as np
from rac.core import *
from rac.props.c09 import draw, build
from rac.props.c13 import policy

QUICK, THOROUGH = 200, 4000


def covariance(P, G, sigma):
    n = P.shape[0]
    v = np.linalg.solve(np.eye(n * n) - np.kron(P, P), (G @ sigma @ G.T).reshape(-1))
    return v.reshape(n, n)


def case(rng, i):
    order = 1 + (i % 4 == 3)
    sp = draw(rng, n_max=4 if order == 2 else 6, quad=order == 2, n_exog=int(rng.integers(1, 4)))
    m, info = build(rng, sp)
    t = policy(sp, m, order, info)
    P, G = t[0], t[1]
    if np.abs(np.linalg.eigvals(P)).max() > .97:
        raise Skip('near unit root')
    V = covariance(P, G, sp.sigma)
    info['order'] = order
    via = rng.random() < .5

    def q(name, **kw):
        if via:
            return ut(f'stats.{name}', getattr(m.stats, name), info=info, **kw)
        import pynare.stats.moments as mo
        return ut(f'{name}', getattr(mo, name), m, info=info, **kw)
    close('covariance', q('cov'), V, **info)
    close('variance', q('var'), np.diag(V), **info)
    close('standard deviation', q('std'), np.sqrt(np.abs(np.diag(V))), rtol=1e-5, atol=1e-6, **info)
    sd = np.sqrt(np.abs(np.diag(V)))
    live = np.ix_(sd > 1e-3, sd > 1e-3)
    C = V / np.where(np.outer(sd, sd) == 0, 1, np.outer(sd, sd))
    close('correlation', np.asarray(q('corr'))[live], C[live], **info)
    p = int(rng.integers(0, 8))
    kw = {} if p == 5 and rng.random() < .8 else {'p': p}
    acv, acr = np.asarray(q('autocov', **kw)), np.asarray(q('autocorr', **kw))
    equal('autocovariance shape', (acv.shape, acr.shape), ((p, sp.n, sp.n),) * 2, **info)
    W = V
    for k in range(p):
        close(f'autocovariance {k}', acv[k], W, **info)
        close(f'autocorrelation {k}', acr[k][live], (W / np.where(np.outer(sd, sd) == 0, 1, np.outer(sd, sd)))[live], **info)
        W = P @ W
    ss = m.ss.values
    if order == 1:
        close('mean', q('mean'), ss, **info)
    else:
        _, _, gxx, gxu, guu, gss = t
        d = .5 * (gxx @ V.reshape(-1) + guu @ sp.sigma.reshape(-1) + gss)
        mu = ss + np.linalg.solve(np.eye(sp.n) - P, d)
        close('mean', q('mean'), mu, rtol=1e-5, **info)
