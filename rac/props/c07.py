"""C07: Jacobian and Hessian are the derivatives of the equations at the steady state"""
import numpy as np
from rac.core import *
from rac import gen, grammar as G
from rac.props import eqs

QUICK, THOROUGH = 120, 2500


class Jet:
    """value, gradient, Hessian: second-order forward differentiation"""
    __array_priority__ = 1000

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def var(v, j, n):
        g = np.zeros(n); g[j] = 1.
        return Jet(v, g, np.zeros((n, n)))

    def lift(self, f, f1, f2):
        return Jet(f, f1 * self.g, f1 * self.h + f2 * np.outer(self.g, self.g))


def J(t, env, n):
    const = lambda c: Jet(float(c), np.zeros(n), np.zeros((n, n)))
    k = t[0]
    if k == 'num':
        return const(t[1])
    if k == 'var':
        v = env(t[1], t[2])
        return v if isinstance(v, Jet) else const(v)
    if k == 'un':
        a = J(t[2], env, n)
        return Jet(-a.v, -a.g, -a.h) if t[1] == '-' else a
    if k == 'fun':
        a = J(t[2], env, n)
        v = a.v
        f = t[1]
        if f == 'exp':
            return a.lift(np.exp(v), np.exp(v), np.exp(v))
        if f in ('log', 'ln'):
            return a.lift(np.log(v), 1 / v, -1 / v ** 2)
        if f == 'sqrt':
            r = np.sqrt(v)
            return a.lift(r, .5 / r, -.25 / r ** 3)
        if f == 'sin':
            return a.lift(np.sin(v), np.cos(v), -np.sin(v))
        if f == 'cos':
            return a.lift(np.cos(v), -np.sin(v), -np.cos(v))
        if f == 'atan':
            return a.lift(np.arctan(v), 1 / (1 + v * v), -2 * v / (1 + v * v) ** 2)
        raise Skip(f)
    a, b = J(t[2], env, n), J(t[3], env, n)
    if t[1] == '+':
        return Jet(a.v + b.v, a.g + b.g, a.h + b.h)
    if t[1] == '-':
        return Jet(a.v - b.v, a.g - b.g, a.h - b.h)
    mul = lambda a, b: Jet(a.v * b.v, a.v * b.g + b.v * a.g,
                           a.v * b.h + b.v * a.h + np.outer(a.g, b.g) + np.outer(b.g, a.g))
    if t[1] == '*':
        return mul(a, b)
    if t[1] == '/':
        return mul(a, b.lift(1 / b.v, -1 / b.v ** 2, 2 / b.v ** 3))
    if t[1] == '^' and not b.g.any():
        p, v = b.v, a.v
        z = lambda c, e: c * v ** e if c != 0 else 0.
        return a.lift(v ** p, z(p, p - 1), z(p * (p - 1), p - 2))
    raise Skip('power')


def case(rng, i):
    if i % 3 == 0:
        return smooth_case(rng, i)
    from pynare import Model
    kinds = ''.join(rng.choice(list('SBMF'), int(rng.integers(1, 5))))
    spec = gen.draw_spec(rng, kinds, int(rng.integers(0, 4)), quad=True)
    if spec is None:
        raise Skip('no spec')
    info = {'endog': spec.names, 'stoch': spec.stoch, 'exprs': gen.exprs(spec), 'steady': spec.c}
    with light_models():
        m = ut('building a model', gen.build, spec, Model, rng, info=info)
    n, e = spec.n, spec.e
    full = [(d, j) for d in (0, 1, 2) for j in range(n)
            if (d == 1 or (d == 0 and spec.kinds[j] in 'BM') or (d == 2 and spec.kinds[j] in 'MF'))]
    sel = [d * n + j for d, j in full] + [3 * n + k for k in range(e)]
    lin = np.hstack((spec.Am, spec.A0, spec.Ap, spec.Au))[:, sel]
    jac = ut('jacobian', lambda: m.jacobian.array, info=info)
    close('jacobian', jac, lin, rtol=1e-5, **info)
    hess = ut('hessian', lambda: m.hessian.array, info=info)
    close('hessian', hess, spec.Q[:, sel][:, :, sel].reshape(n, -1), rtol=1e-4, **info)
    sj = ut('steady jacobian', lambda: m.ss.jacobian.array, info=info)
    close('steady jacobian', sj, spec.Am + spec.A0 + spec.Ap, rtol=1e-5, **info)


def smooth_case(rng, i):
    """nonlinear equations shifted so that zero... the steady state is imposed by constants"""
    from pynare import Model
    s = eqs.draw(rng, safe=True, depth=3)
    n = len(s.endog)
    at = dict(zip(s.endog, np.round(rng.uniform(.3, 1.5, n), 3)))
    env = lambda nm, d: float(at[nm]) if nm in at else 0. if nm in s.stoch else s.consts[nm]
    # make the point a steady state: add a constant to each equation
    for k, (l, r) in enumerate(s.eqs):
        v = eqs.residual(s, k, env, eqs.value_strict)
        s.eqs[k] = (('bin', '-', l, ('num', float(v))), r)
    cols = s.columns + [(u, 0) for u in s.stoch]
    pos = {c: j for j, c in enumerate(cols)}
    m_ = len(cols)
    def jenv(nm, d):
        if (nm, d) in pos:
            return Jet.var(env(nm, d), pos[nm, d], m_)
        return s.consts[nm]
    def arrays():
        jets = [eqs.residual_jet(s, k, jenv, m_, J) for k in range(n)]
        return np.array([j.g for j in jets]), np.array([j.h.ravel() for j in jets])
    jac, hes = arrays()
    if not np.isfinite(hes).all() or np.abs(hes).max(initial=0) > 1e4:
        raise Skip('large')
    info = {'endog': s.endog, 'stoch': s.stoch, 'params': s.params, 'exprs': eqs.texts(s), 'steady': at,
            'locals': {k: G.text(G.words(t)) for k, t in s.locals.items()}}
    with light_models():
        m = ut('building a model', eqs.model, s, rng, initial={k: float(v) for k, v in at.items()}, info=info)
    ss = ut('steady state', lambda: m.ss.values, info=info)
    if np.abs(ss - np.array([at[v] for v in s.endog])).max() > 1e-6:
        raise Skip('another steady state')
    got_j = ut('jacobian', lambda: m.jacobian.array, info=info)
    # the derivatives at the very point that the steady state is reported to be
    at.update(zip(s.endog, map(float, m.ss.values)))
    jac, hes = arrays()
    close('jacobian', got_j, jac, rtol=1e-6, atol=1e-8, **info)
    close('hessian', ut('hessian', lambda: m.hessian.array, info=info), hes, rtol=1e-6, atol=1e-8, **info)
