"""C13: simulated paths"""
import numpy as np
from rac.core import *
from rac.props.c09 import draw, build, dense
from rac.props.c11 import expand

QUICK, THOROUGH = 200, 4000


def policy(sp, m, order, info):
    sol = ut('solving', m.solve, order=order, info=info)
    if order == 1:
        P, G = dense(sp, sol.gy, sol.gu, info)
        return (P, G, None, None, None, None)
    return expand(sp, sol, info)


def step(sp, t, ss, y, u):
    P, G, gxx, gxu, guu, gss = t
    x = y - ss
    out = ss + P @ x + G @ u
    if gxx is not None:
        out = out + .5 * gxx @ np.kron(x, x) + gxu @ np.kron(x, u) + .5 * guu @ np.kron(u, u) + .5 * gss
    return out


def factor(m, sp, info):
    """the scaling factor: R with R'R = sigma, the upper triangular one"""
    return np.linalg.cholesky(sp.sigma).T


def case(rng, i):
    order = 1 + i % 2
    sp = draw(rng, n_max=5, quad=order == 2, n_exog=int(rng.integers(1, 4)))
    if not sp.state:
        raise Skip('no state')
    m, info = build(rng, sp)
    T = int(rng.integers(1, 9))
    sh = np.round(rng.normal(size=(T, sp.e)) * .5, 3)
    ss = m.ss.values
    t = policy(sp, m, order, info)
    scale = 1 if order == 1 else .2
    init = None if rng.random() < .5 else ss + np.round(rng.normal(size=sp.n), 3) * scale * float(rng.choice([1, 1, 1e-3, 1e-5]))
    if init is not None and rng.random() < .3:
        # some variables start at rest
        init = np.where(rng.random(sp.n) < .5, ss, init)
    if rng.random() < .15:
        sh = sh * 1e-4
    shk = sh[:, 0] if sp.e == 1 and rng.random() < .5 else sh
    info.update(shocks_given=shk, init=init, order=order)
    i0, s0 = (None if init is None else init.copy()), shk.copy()
    kw = {} if rng.random() < .5 else {'order': order}
    sim = ut('simulating', m.simulate, shocks=shk, init=init, info=info, **kw)
    if not np.array_equal(shk, s0) or (init is not None and not np.array_equal(init, i0)):
        raise Bad('arguments altered', **info)
    paths = np.asarray(sim.paths)
    equal('path shape', paths.shape, (T, sp.n), **info)
    R = factor(m, sp, info)
    used = sh @ R
    close('first row', paths[0], ss if init is None else init, rtol=1e-9, atol=1e-11, **info)
    for k in range(1, T):
        if np.abs(paths[k - 1]).max() > 1e6:
            break
        close(f'row {k}', paths[k], step(sp, t, ss, paths[k - 1], used[k - 1]), rtol=1e-6, **info)
    if rng.random() < .2:
        p = int(rng.integers(1, 12))
        s2 = ut('simulating drawn shocks', m.simulate, periods=p, info=info)
        equal('drawn path shape', np.asarray(s2.paths).shape, (p, sp.n), **info)
        close('first row of a drawn path', np.asarray(s2.paths)[0], ss, rtol=1e-8, **info)
