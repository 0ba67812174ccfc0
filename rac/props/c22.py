"""C22: printed tables show the computed numbers"""
import numpy as np
from itertools import product
from rac.core import *
from rac.props.c09 import draw, build, dense
from rac.props.c11 import expand

QUICK, THOROUGH = 200, 4000


def shown(what, token, want, sig, info, loose=0.):
    """a printed number is the computed one rounded to the chosen digits"""
    try:
        got = float(token)
    except ValueError:
        raise Bad(f'{what}: printed {token!r}, which is not a number', **info) from None
    want = float(want)
    if np.isnan(want) or np.isinf(want):
        if not (np.isnan(got) if np.isnan(want) else got == want):
            raise Bad(f'{what}: printed {token}, computed {want}', **info)
        return
    if not abs(got - want) <= .5000001 * 10. ** -sig + 1e-9 * abs(want) + loose:
        raise Bad(f'{what}: printed {token}, computed {want!r}', **info)
    tail = token.split('.')[1] if '.' in token else ''
    if len(tail) != sig:
        raise Bad(f'{what}: printed {token} rather than {sig} digits', **info)


def blocks(what, obj, info):
    t = ut(what, lambda: str(obj), info=info)
    return [[ln for ln in b.split('\n') if ln.strip()] for b in t.split('\n\n')]


def grid(what, lines, rows, cols, vals, sig, info, loose=0.):
    """a table with a row of column names and one labelled row of numbers per entry of `rows`"""
    if not cols and not any(ln.strip() for ln in lines):
        # nothing to be shown
        return
    equal(f'{what}: column names', (lines or [''])[0].split(), list(cols), **info)
    equal(f'{what}: rows', len(lines) - 1, len(rows), **info)
    for ln, lab, val in zip(lines[1:], rows, vals):
        row(what, ln, lab, cols, val, sig, info, loose)


def row(what, ln, lab, cols, val, sig, info, loose=0.):
    toks = ln.split()
    k = len(cols)
    equal(f'{what}: label', ' '.join(toks[:len(toks) - k]) if k else ' '.join(toks), lab, **info)
    for t, v, c in zip(toks[len(toks) - k:] if k else [], val, cols):
        shown(f'{what}: {lab}, {c}', t, v, sig, info, loose)


def policy_first(sp, m, sol, kw, info):
    sig = kw.get('sig', 6)
    (lines,) = blocks('first-order table', ut('summary', sol.summary, info=info, **kw), info)
    P, G = dense(sp, sol.gy, sol.gu, info)
    lag = sorted(sp.state)
    want = [('steady', m.ss.values)] + [(f'{sp.names[j]}(-1)', P[:, j]) for j in lag] + \
        [None] + [(e, G[:, j]) for j, e in enumerate(sp.stoch)]
    lines = [ln for ln in lines[1:] if set(ln) - set(' +')]
    want = [w for w in want if w]
    cols = lines[0].split()
    if 'thresh' in kw:
        # a variable is left out only when nothing of it reaches the threshold
        th = 10. ** -(sig + kw['thresh'])
        big = [j for j in range(sp.n) if any(abs(v[j]) > th * 1.001 for _, v in want)]
        if not big and cols[:1] == ['steady']:
            return
        if any(c not in sp.names for c in cols) or not {sp.names[j] for j in big} <= set(cols) \
                or cols != [nm for nm in sp.names if nm in cols]:
            raise Bad(f'first-order table: columns {cols}, of which at least {[sp.names[j] for j in big]} expected', **info)
        keep = [sp.names.index(c) for c in cols]
    else:
        keep = range(sp.n)
    grid('first-order table', lines, [w[0] for w in want], [sp.names[j] for j in keep],
         [np.asarray(w[1])[list(keep)] for w in want], sig, info)


def policy_second(sp, m, sol, kw, info):
    sig = kw.get('sig', 6)
    (lines,) = blocks('second-order table', ut('summary', sol.summary, info=info, **kw), info)
    P, G, gxx, gxu, guu, gss = expand(sp, sol, info)
    lag, n, e = sorted(sp.state), sp.n, sp.e
    lab = {j: f'{sp.names[j]}(-1)' for j in lag}
    want = [('steady', m.ss.values, 0)]
    want += [(lab[j], P[:, j], 1) for j in lag] + [(sp.stoch[j], G[:, j], 1) for j in range(e)]
    want += [(f'{lab[a]}, {lab[b]}', gxx[:, a * n + b] / 2, 1) for a, b in product(lag, lag)]
    want += [(f'{lab[a]}, {sp.stoch[b]}', gxu[:, a * e + b], 1) for a, b in product(lag, range(e))]
    want += [(f'{sp.stoch[a]}, {sp.stoch[b]}', guu[:, a * e + b] / 2, 1) for a, b in product(range(e), range(e))]
    want += [('del2', gss / 2, 0)]
    lines = [ln for ln in lines[1:] if set(ln) - set(' +')]
    equal('second-order table: column names', lines[0].split(), sp.names, **info)
    th = 10. ** -(sig + (kw.get('thresh') or 0))
    k = 1
    for label, v, may in want:
        here = k < len(lines) and ' '.join(lines[k].split()[:-n]) == label
        if here:
            row('second-order table', lines[k], label, sp.names, v, sig, info)
            k += 1
        elif not may or np.abs(v).max(initial=0) > th * 1.001:
            raise Bad(f'second-order table: no row for {label} with coefficients {np.asarray(v)}', **info)
    if k != len(lines):
        raise Bad(f'second-order table: unexpected row {lines[k]!r}', **info)


def statistics(sp, m, rng, info):
    kw = {'sig': int(rng.integers(1, 9))} if rng.random() < .5 else {}
    sig = kw.get('sig', 6)
    lags = 5
    if rng.random() < .5:
        lags = kw['autocorr'] = int(rng.integers(1, 8))
    feats = ['moments', 'corr', 'autocorr', 'decomp']
    r = rng.random()
    if r < .25:
        kw['only'] = str(rng.choice(feats))
        feats = [kw['only']]
    elif r < .5:
        feats = [f for f in feats if rng.random() < .5]
        kw['only'] = list(feats)
    elif r < .75:
        off = str(rng.choice(['moments', 'corr', 'decomp']))
        kw[off] = False
        feats.remove(off)
    info['summary of statistics'] = kw
    bl = blocks('statistics summary', ut('summary', m.stats.summary, info=info, **kw), info)
    equal('statistics summary: blocks', len(bl), 1 + len(feats), **info)
    st = m.stats
    for f, lines in zip(feats, bl[1:]):
        lines = lines[1:]
        if f == 'moments':
            sd = st.std()
            grid('moments', [lines[0].replace('std dev', 'std_dev')] + lines[1:], sp.names, ['mean', 'std_dev', 'var'],
                 np.column_stack((st.mean(), sd, sd ** 2)), sig, info)
        elif f == 'corr':
            grid('correlations', lines, sp.names, sp.names, st.corr(), sig, info)
        elif f == 'autocorr':
            a = np.asarray(st.autocorr(p=lags))
            grid('autocorrelations', [lines[0].replace('p = ', 'p=')] + lines[1:], sp.names, [f'p={k}' for k in range(lags)],
                 np.array([[a[k][j, j] for k in range(lags)] for j in range(sp.n)]), sig, info)
        else:
            grid('variance decomposition', lines, sp.names, sp.stoch, np.asarray(st.var_decomp()).reshape(sp.n, sp.e), sig, info)


def model_table(sp, m, params, rng, info):
    kw = {'sig': int(rng.integers(1, 9))} if rng.random() < .5 else {}
    sig = kw.get('sig', 6)
    feats = ['variables', 'eigen', 'stoch', 'params']
    some = list(params)
    if params and rng.random() < .4:
        some = kw['params'] = [str(x) for x in rng.permutation(some)[:int(rng.integers(1, len(some) + 1))]]
    r = rng.random()
    if r < .25:
        kw['only'] = str(rng.choice(feats))
        feats = [kw['only']]
    elif r < .5:
        feats = [f for f in feats if rng.random() < .5]
        kw['only'] = tuple(feats)
    elif r < .75:
        off = str(rng.choice(['variables', 'eigen', 'stoch']))
        kw[off] = False
        feats.remove(off)
    info['summary of the model'] = kw
    bl = blocks('model summary', ut('summary', m.summary, info=info, **kw), info)
    equal('model summary: blocks', len(bl), 1 + len(feats), **info)
    for f, lines in zip(feats, bl[1:]):
        lines = lines[1:]
        if f == 'variables':
            want = {'variables': sp.n, 'stochastic shocks': sp.e, 'state vars': len(sp.state),
                    'forward-looking vars': len(sp.fore), 'static vars': sp.kinds.count('S')}
            got = {ln.split(':')[0].strip().removeprefix('number of '): ln.split(':')[1].strip() for ln in lines}
            equal('counts of variables', {k: int(v) for k, v in got.items()}, {k: v for k, v in want.items() if v}, **info)
        elif f == 'eigen':
            ev = np.asarray(m.statespace.eigen)
            equal('eigenvalues: rows', len(lines), len(ev) + 1, **info)
            equal('eigenvalues: columns', lines[0].split(), ['real', 'imag', 'mod'], **info)
            left = list(ev)
            last = -1.
            for ln in lines[1:]:
                t = ln.split()
                equal('eigenvalues: columns', len(t), 3, **info)
                for k, x in enumerate(left):
                    try:
                        for tok, w in zip(t, (np.real(x), np.imag(x), np.abs(x))):
                            shown('an eigenvalue', tok, w, sig, {})
                    except Bad:
                        continue
                    del left[k]
                    break
                else:
                    raise Bad(f'eigenvalues: printed {t}, computed {ev!r}', **info)
                v = float(t[2])
                if v < last:
                    raise Bad('eigenvalues are not in order of their modulus', **info)
                last = v if v == v else last
        elif f == 'stoch':
            grid('covariance of shocks', lines, sp.stoch, sp.stoch, m.sigma, sig, info)
        else:
            got = [ln.split('=') for ln in lines]
            equal('parameters', [g[0].strip() for g in got], some, **info)
            for g in got:
                shown(f'parameter {g[0].strip()}', g[1].strip(), params[g[0].strip()], sig, info)


def case(rng, i):
    from pynare import Model
    order = 1 + (i % 3 == 2)
    kinds = None
    if order == 2 and rng.random() < .5:
        # several states, declared in another order than the one they are solved in
        k = ['B'] * int(rng.integers(1, 3)) + ['M'] * int(rng.integers(1, 3)) + ['S'] * int(rng.integers(0, 2))
        kinds = ''.join(k[j] for j in rng.permutation(len(k)))
    sp = draw(rng, n_max=4 if order == 2 else 6, quad=order == 2) if kinds is None else \
        draw(rng, quad=True, kinds=kinds) if len(kinds) == 1 else draw_kinds(rng, kinds)
    m, info = build(rng, sp)
    params = {}
    if rng.random() < .7:
        for nm in [str(x) for x in rng.permutation(['alpha', 'rho', 'phi_1', 'A'])[:int(rng.integers(1, 4))]]:
            params[nm] = odd(rng, float(np.round(rng.normal(), 3)), signed=True) if rng.random() < .9 else 0.
        ut('adding parameters', lambda: m.add_params(**params), info=info)
    info['params'] = params
    sol = ut('solving', m.solve, order=order, info=info)
    info['order'] = order
    kw = {'sig': int(rng.integers(1, 9))} if rng.random() < .5 else {}
    if rng.random() < .3:
        kw['thresh'] = int(rng.integers(-2, 3))
    if rng.random() < .2:
        kw['pad'] = int(rng.integers(0, 6))
    info['summary of the solution'] = kw
    (policy_first if order == 1 else policy_second)(sp, m, sol, kw, info)
    if rng.random() < .6:
        model_table(sp, m, params, rng, info)
    if rng.random() < .6 and sp.e:
        P = dense(sp, *((sol.gy, sol.gu) if order == 1 else (sol.lower_solution.gy, sol.lower_solution.gu)), info)[0]
        if not P.size or np.abs(np.linalg.eigvals(P)).max() < .97:
            statistics(sp, m, rng, info)


def draw_kinds(rng, kinds):
    n_exog = int(rng.integers(1, 4))
    from rac import gen
    sp = gen.draw_spec(rng, kinds, n_exog, quad=True, want='det', gap=.05, sig='diag')
    if sp is None:
        raise Skip('no spec')
    return sp
