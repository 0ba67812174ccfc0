"""C06: timing classification and index lists"""
import numpy as np
from rac.core import *
from rac.props import eqs
from rac import grammar as G

QUICK, THOROUGH = 700, 15000
SUBSETS = [(0,), (-1,), (1,), (-1, 0), (0, 1), (-1, 1), (-1, 0, 1)]


def classes(dates):
    n = len(dates)
    lag = [i for i in range(n) if -1 in dates[i]]
    lead = [i for i in range(n) if 1 in dates[i]]
    st = [i for i in range(n) if -1 not in dates[i] and 1 not in dates[i]]
    pb = [i for i in range(n) if -1 in dates[i] and 1 not in dates[i]]
    mx = [i for i in range(n) if -1 in dates[i] and 1 in dates[i]]
    pf = [i for i in range(n) if -1 not in dates[i] and 1 in dates[i]]
    return dict(static=st, pure_backward=pb, mixed=mx, pure_forward=pf, state=lag, backward=lag,
                forward=lead, dynamic=[i for i in range(n) if i not in st],
                cont=[i for i in range(n) if 0 in dates[i]])


def check_indexes(ix, dates, n_exog, info):
    n = len(dates)
    col, cols = 0, {}
    for d in (-1, 0, 1):
        for i in range(n):
            if d in dates[i]:
                cols[i, d] = col
                col += 1
    cl = classes(dates)
    ints = lambda a: [int(v) for v in np.asarray(a).ravel()]
    get = lambda what, f: ut(what, f, info=info)
    equal('n_endog', int(ix.n_endog), n, **info)
    for nm, key in (('n_static', 'static'), ('n_forward', 'forward'), ('n_backward', 'backward'),
                    ('n_mixed', 'mixed'), ('n_dynamic', 'dynamic'), ('n_state', 'state')):
        equal(nm, int(get(nm, lambda: getattr(ix, nm))), len(cl[key]), **info)
    equal('n_exog', int(ix.n_exog), n_exog, **info)
    dr = cl['static'] + cl['pure_backward'] + cl['mixed'] + cl['pure_forward']
    equal('dr_order', ints(get('dr_order', lambda: ix.dr_order)), dr, **info)
    inv = [dr.index(i) for i in range(n)]
    equal('dc_order', ints(get('dc_order', lambda: ix.dc_order)), inv, **info)
    equal('exogenous_jacobian', ints(ix.exogenous_jacobian), list(range(col, col + n_exog)), **info)
    for label, typer, order in (('declaration', ix, list(range(n))), ('decision-rule', ix.dr, dr)):
        for key, members in cl.items():
            want = [p for p, i in enumerate(order) if i in members]
            got = ints(get(f'{label} {key}', lambda: getattr(typer, key)))
            equal(f'{label} list {key}', got, want, **info)
            timed = get(f'{label} {key}_timed', lambda: getattr(typer, key + '_timed'))
            for d in (-1, 0, 1):
                want = [cols[i, d] for i in order if i in members and d in dates[i]]
                equal(f'{label} columns of {key} at {d:+d}', ints(get(f'{key}_timed[{d}]', lambda: timed[d])),
                      want, **info)


def case(rng, i):
    from pynare.core.variables import VariableIndexManager, EndogVar, StochVar, VarArray, \
        read_lead_lags, set_lead_lags, _create_endog_vars
    from pynare.errors import EndogIndexError
    n = int(rng.integers(1, 7))
    n_exog = int(rng.integers(0, 4))
    names = [eqs.POOL[j] for j in rng.permutation(len(eqs.POOL))[:n]]
    if i % 3 == 0:
        # through the equations: the recorded dates
        s = eqs.draw(rng, n=n if n < 5 else 3)
        names, n = s.endog, len(s.endog)
        from pynare.core.expressions import ModelExprs
        tx = eqs.texts(s, rng)
        info = {'endog': names, 'exprs': tx}
        endog = VarArray([EndogVar(v) for v in names])
        ex = ut('parsing', ModelExprs, tx, info=info)
        endog = ut('recording dates', set_lead_lags, endog, ex, info=info)
        for v in endog:
            equal(f'dates of {v.name}', set(v.lead_lag), s.dates[v.name], **info)
        dates = [s.dates[v] for v in names]
    else:
        dates = [set(SUBSETS[int(rng.integers(0, 7))]) for _ in range(n)]
        bad = rng.random() < .12
        if bad:
            dates[int(rng.integers(0, n))] = [set(), {0, 2}, {-2, 0}, {-2}, {3}, {-1, 0, 1, 2}][int(rng.integers(0, 6))]
        endog = VarArray([EndogVar(v, lead_lag=set(d)) for v, d in zip(names, dates)])
        info = {'endog': names, 'dates': [sorted(d) for d in dates]}
        if bad:
            stoch = VarArray([StochVar(f's{k}', variance=1.) for k in range(n_exog)])
            must_raise('dates out of range', EndogIndexError, VariableIndexManager, endog, stoch, info=info)
            return
    stoch = VarArray([StochVar(f's{k}', variance=1.) for k in range(n_exog)])
    ix = ut('indexes', VariableIndexManager, endog, stoch, info=info)
    check_indexes(ix, dates, n_exog, info)
