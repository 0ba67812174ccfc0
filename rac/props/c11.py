"""C11: second-order policy"""
import numpy as np
from rac.core import *
from rac import oracle
from rac.props.c09 import draw, build, dense, check

QUICK, THOROUGH = 160, 3000


def expand(sp, sol, info):
    """dense declaration-order derivative tensors from the solution arrays"""
    n, e, ns = sp.n, sp.e, len(sp.state)
    P, G = dense(sp, sol.lower_solution.gy, sol.lower_solution.gu, info)
    arrs = {}
    for nm, w in (('ghxx', ns * ns), ('ghxu', ns * e), ('ghuu', e * e)):
        a = np.asarray(getattr(sol, nm), dtype=float)
        if a.ndim > 2 or a.size != n * w or a.shape[0] != n:
            raise Bad(f'{nm} has shape {a.shape} for {n} variables, {ns} states, {e} shocks', **info)
        arrs[nm] = a.reshape(n, w)
    d2 = np.asarray(sol.del2, dtype=float)
    if d2.shape != (n,):
        raise Bad(f'del2 has shape {d2.shape}', **info)
    gxx, gxu = np.zeros((n, n * n)), np.zeros((n, n * e))
    xx = [a * n + b for a in sp.state for b in sp.state]
    xu = [a * e + b for a in sp.state for b in range(e)]
    gxx[np.ix_(sp.dr, xx)] = 2 * arrs['ghxx']
    gxu[np.ix_(sp.dr, xu)] = arrs['ghxu']
    guu = np.zeros((n, e * e)); guu[sp.dr] = 2 * arrs['ghuu']
    gss = np.zeros(n); gss[sp.dr] = 2 * d2
    return P, G, gxx, gxu, guu, gss


def residuals(sp, P, G, gxx, gxu, guu, gss):
    """coefficients of the second-order expansion of E_t f"""
    n, e = sp.n, sp.e
    H = sp.Q.reshape(n, -1)
    zx = np.vstack((np.eye(n), P, P @ P, np.zeros((e, n))))
    zu = np.vstack((np.zeros((n, e)), G, P @ G, np.eye(e)))
    L = sp.A0 + sp.Ap @ P
    rxx = L @ gxx + sp.Ap @ gxx @ np.kron(P, P) + H @ np.kron(zx, zx)
    rxu = L @ gxu + sp.Ap @ gxx @ np.kron(P, G) + H @ np.kron(zx, zu)
    ruu = L @ guu + sp.Ap @ gxx @ np.kron(G, G) + H @ np.kron(zu, zu)
    Hpp = sp.Q[:, 2 * n:3 * n, 2 * n:3 * n].reshape(n, n * n)
    rss = (L + sp.Ap) @ gss + (sp.Ap @ guu + Hpp @ np.kron(G, G)) @ sp.sigma.reshape(-1)
    return rxx, rxu, ruu, rss


def case(rng, i):
    sp = draw(rng, n_max=5, quad=True)
    m, info = build(rng, sp)
    sol = ut('solving', m.solve, order=2, info=info)
    t = expand(sp, sol, info)
    check(sp, m, info, t[0], t[1])
    size = max(1, *[np.abs(x).max(initial=0) for x in t]) * max(1, np.abs(sp.sigma).max(initial=0))
    if size > 1e4:
        raise Skip('scale')
    tol = 2e-4      # the second derivatives are exact only up to the computed steady state
    for nm, r in zip(('state-state', 'state-shock', 'shock-shock', 'constant'), residuals(sp, *t)):
        small(f'second-order {nm} residual', r, size, tol=tol, **info)
