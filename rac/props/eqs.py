"""random equation systems with an independent meaning, shared by C03, C04, C06, C07, C18, C19"""
import numpy as np
from rac import grammar as G
from rac.core import *
from rac.gen import lengthen

POOL = ['k', 'zeta', 'a', 'y', 'c', 'w1', 'b_x', 'pie', 'infl', 'q', 'r', 'x', 'aa', 'Y', 'x_', 'lambda',
        'in', 'if', 'self', 'e1']
SHOCKS = ['eps', 'u', 'e_b', 'shk', 'v', 'is']
PARS = ['alpha', 'beta', 'rho', 'sig', 'A', 'phi_1', 'tau', 'or']
LOCS = ['loc', 'mid', 'half', 'as']


class System:
    pass


def draw(rng, n=None, safe=False, locals_=True, depth=3, dates=True, pool=None, min_n=1):
    s = System()
    n = n or int(rng.integers(min_n, 5))
    few = pool
    pool = pool or POOL
    s.endog = [pool[j] for j in rng.permutation(len(pool))[:n]]
    s.stoch = [SHOCKS[j] for j in rng.permutation(len(SHOCKS))[:int(rng.integers(0, 4))]]
    s.params = {PARS[j]: odd(rng, float(np.round(rng.choice([rng.normal() * 2, rng.uniform(.1, .9), 0., 1.]), 3)), signed=True)
                for j in rng.permutation(len(PARS))[:int(rng.integers(0, 4))]}
    if not few:
        s.endog, s.stoch = lengthen(s.endog), lengthen(s.stoch)
        s.params = dict(zip(lengthen(list(s.params)), s.params.values()))
    s.locals = {}
    if locals_ and s.params and rng.random() < .5:
        for nm in LOCS[:int(rng.integers(1, 3))]:
            have = list(s.params) + list(s.locals)
            leaf = lambda: (('var', have[int(rng.integers(0, len(have)))], 0) if rng.random() < .7
                            else ('num', float(rng.integers(1, 5))))
            s.locals[nm] = G.tree(rng, 2, leaf, safe=True)
    allowed = {v: [0] + [d for d in (-1, 1) if dates and rng.random() < .5] for v in s.endog}
    consts = list(s.params) + list(s.locals)

    def leaf():
        r = rng.random()
        if r < .6:
            v = s.endog[int(rng.integers(0, n))]
            return ('var', v, int(rng.choice(allowed[v])))
        if r < .7 and s.stoch:
            return ('var', s.stoch[int(rng.integers(0, len(s.stoch)))], 0)
        if r < .85 and consts:
            return ('var', consts[int(rng.integers(0, len(consts)))], 0)
        return ('num', odd(rng, float(np.round(rng.uniform(0, 4), 2))))
    s.eqs = []
    for k in range(n):
        lhs, rhs = G.tree(rng, depth, leaf, safe=safe), None
        # every variable is seen at least once at the current date, in its own equation
        lhs = ('bin', str(rng.choice(['+', '-'])), lhs, ('var', s.endog[k], 0))
        if rng.random() < .75:
            rhs = G.tree(rng, depth, leaf, safe=safe)
        if rng.random() < .1:
            # whole sides that are single names
            rhs = leaf()
        if rng.random() < .3 and rhs is not None:
            lhs, rhs = rhs, lhs
        s.eqs.append((lhs, rhs))
    perm = rng.permutation(n)
    s.eqs = [s.eqs[j] for j in perm]
    finish(s)
    return s


def finish(s):
    s.dates = {v: set() for v in s.endog}
    for l, r in s.eqs:
        for t in (l, r):
            if t is not None:
                for nm, d in occ(t):
                    if nm in s.dates:
                        s.dates[nm].add(d)
    s.columns = [(v, d) for d in (-1, 0, 1) for v in s.endog if d in s.dates[v]]
    vals = dict(s.params)
    for k, t in s.locals.items():
        vals[k] = float(G.evaluate(t, lambda nm, d: vals[nm]))
    s.consts = vals


def occ(t):
    if t[0] == 'var':
        return [(t[1], t[2])]
    return [o for x in t[1:] if isinstance(x, tuple) for o in occ(x)]


def texts(s, rng=None):
    out = []
    for l, r in s.eqs:
        a = G.text(G.words(l, rng), rng)
        out.append(a if r is None else a + ' = ' + G.text(G.words(r, rng), rng))
    return out


def residual(s, k, env, ev=G.evaluate):
    l, r = s.eqs[k]
    v = ev(l, env)
    return v if r is None else v - ev(r, env)


def value_strict(t, env):
    from rac.props.c01 import strict
    return strict(t, env)


def model(s, rng=None, **kw):
    from pynare import Model
    loc = {}
    if s.locals:
        from pynare.parsing import parse_string
        loc = {k: G.text(G.words(t)) for k, t in s.locals.items()}
    return Model(endog=list(s.endog), stoch=list(s.stoch), params=dict(s.params),
                 local_params=loc, exprs=texts(s, rng), **kw)


def file_text(s, rng=None, shocks='', initval='', params=True):
    num = lambda v: ('-' if v < 0 else '') + G.number_text(abs(v))
    t = f'var {" ".join(s.endog)};\n'
    if s.stoch:
        t += f'varexo {", ".join(s.stoch)};\n'
    if s.params:
        t += f'parameters {" ".join(s.params)};\n' + ''.join(f'{k} = {num(v)};\n' for k, v in s.params.items())
    t += 'model;\n' + ''.join(f'# {k} = {G.text(G.words(v))};\n' for k, v in s.locals.items())
    t += ''.join(e + ';\n' for e in texts(s, rng)) + 'end;\n'
    return t + initval + shocks


def residual_jet(s, k, env, n, J):
    l, r = s.eqs[k]
    a = J(l, env, n)
    if r is None:
        return a
    b = J(r, env, n)
    return type(a)(a.v - b.v, a.g - b.g, a.h - b.h)
