"""C19: copies, regimes and altered models report their own definitions"""
import copy
import numpy as np
from rac.core import *
from rac import gen, grammar as G
from rac.props import eqs

QUICK, THOROUGH = 160, 3000


class Ref:
    """the definitions a model is supposed to have, kept apart from the model"""
    def __init__(self, s, shocks, initial, name, terminal, historical):
        self.s, self.shocks, self.initial, self.name = s, shocks, initial, name
        self.terminal, self.historical = terminal, historical

    def copy(self):
        return copy.deepcopy(self)

    def start(self, v):
        d = np.nan if v in self.terminal or v in self.historical else 0.
        return self.initial.get(v, d)

    def sigma(self):
        st = self.s.stoch
        w = np.diag([float(self.shocks[x].get('variance', 1.) or 0.) for x in st]) if st else np.zeros((0, 0))
        for a in st:
            d = self.shocks[a]
            for other, mo in [(d.get('other'), d), *d.get('pairs', {}).items()]:
                if other in st:
                    i, j = st.index(a), st.index(other)
                    if 'corr' in mo:
                        w[i, j] = w[j, i] = mo['corr'] * np.sqrt(w[i, i] * w[j, j])
                    if 'cov' in mo:
                        w[i, j] = w[j, i] = mo['cov']
        return w


def text(t):
    return G.text(G.words(t))


def verify(m, ref, rng, info, what, jac=False):
    s = ref.s
    info = {**info, 'at': what, 'expected': {'endog': s.endog, 'stoch': s.stoch, 'params': s.params,
                                             'exprs': eqs.texts(s), 'shocks': ref.shocks}}
    order = rng.permutation(6)
    for q in order:
        if q == 0:
            equal(f'{what}: endogenous names', [str(x) for x in m.endog.names], s.endog, **info)
            equal(f'{what}: shock names', [str(x) for x in m.stoch.names], s.stoch, **info)
            equal(f'{what}: name', m.name, ref.name, **info)
            equal(f'{what}: number of equations', len(m.exprs), len(s.eqs), **info)
            close(f'{what}: initial values', ut(what, lambda: m.initial, info=info),
                  [ref.start(v) for v in s.endog], **info)
            for kind in ('terminal', 'historical'):
                close(f'{what}: {kind} values', ut(what, lambda: getattr(m, kind), info=info),
                      [getattr(ref, kind).get(v, np.nan) for v in s.endog], **info)
        elif q == 1:
            ps = ut(f'{what}: parameters', lambda: dict(m.params), info=info)
            equal(f'{what}: parameter names', sorted(ps), sorted(s.params), **info)
            for k, v in s.params.items():
                close(f'{what}: parameter {k}', ps[k], v, **info)
            sc = ut(f'{what}: local names', lambda: dict(m.model_scope), info=info)
            for k in s.locals:
                close(f'{what}: local {k}', sc[k], s.consts[k], rtol=1e-8, **info)
        elif q == 2:
            close(f'{what}: covariance', ut(f'{what}: covariance', lambda: m.sigma, info=info), ref.sigma(), **info)
        elif q == 3:
            rep = ut(f'{what}: dynamic equations', lambda: m.dynamic_repr, info=info)
            ncol = len(s.columns) + len(s.stoch)
            pos = {c: j for j, c in enumerate(s.columns)}
            pos.update({(e, 0): len(s.columns) + j for j, e in enumerate(s.stoch)})
            for _ in range(2):
                vec = np.round(rng.uniform(.2, 2.5, ncol), 4)
                env = lambda nm, d: float(vec[pos[nm, d]]) if (nm, d) in pos else s.consts[nm]
                try:
                    want = [eqs.residual(s, k, env, eqs.value_strict) for k in range(len(s.eqs))]
                except Skip:
                    continue
                close(f'{what}: dynamic residuals', ut(f'{what}: dynamic residuals', rep, vec, info=info), want,
                      rtol=1e-7, vector=vec, **info)
                if not s.stoch:
                    break
        elif q == 4:
            ix = ut(f'{what}: index sets', lambda: m.indexes, info=info)
            at = {nm: sorted(d for n2, d in s.columns if n2 == nm) for nm in s.endog}
            got = {str(k): sorted(int(d) for d in v) for k, v in
                   ut(f'{what}: index sets', lambda: dict(ix.lead_lags), info=info).items()}
            equal(f'{what}: dates of every variable', got, at, **info)
            equal(f'{what}: number of shocks', int(ix.n_exog), len(s.stoch), **info)
            equal(f'{what}: number of lagged variables', int(ix.n_backward), sum(-1 in d for d in at.values()), **info)
            equal(f'{what}: number of leading variables', int(ix.n_forward), sum(1 in d for d in at.values()), **info)
        else:
            rep = ut(f'{what}: steady equations', lambda: m.steady_repr, info=info)
            vec = np.round(rng.uniform(.2, 2.5, len(s.endog)), 4)
            at = dict(zip(s.endog, vec))
            env = lambda nm, d: float(at[nm]) if nm in at else 0. if nm in s.stoch else s.consts[nm]
            try:
                want = [eqs.residual(s, k, env, eqs.value_strict) for k in range(len(s.eqs))]
            except Skip:
                continue
            close(f'{what}: steady residuals', ut(f'{what}: steady residuals', rep, vec, info=info), want,
                  rtol=1e-7, vector=vec, **info)


def new_equation(rng, s, must, extra=()):
    """an equation in which the variables of `must` are seen at the current date"""
    def leaf():
        r = rng.random()
        if r < .55:
            return ('var', s.endog[int(rng.integers(0, len(s.endog)))], int(rng.choice([0, 0, -1, 1])))
        if r < .7 and s.stoch:
            return ('var', s.stoch[int(rng.integers(0, len(s.stoch)))], 0)
        if r < .85 and s.consts:
            return ('var', list(s.consts)[int(rng.integers(0, len(s.consts)))], 0)
        return ('num', float(np.round(rng.uniform(0, 4), 2)))
    lhs = G.tree(rng, 2, leaf, safe=True)
    for nm in must:
        lhs = ('bin', '+', lhs, ('var', nm, 0))
    for nm in extra:
        lhs = ('bin', '+', lhs, ('var', nm, 0))
    return lhs, (G.tree(rng, 2, leaf, safe=True) if rng.random() < .7 else None)


def seen_now(s, k):
    l, r = s.eqs[k]
    return sorted({nm for t in (l, r) if t is not None for nm, d in eqs.occ(t) if nm in s.dates and d == 0})


def eq_text(e):
    l, r = e
    return text(l) if r is None else text(l) + ' = ' + text(r)


def form(rng, e):
    """an equation as text or as a syntax tree"""
    if rng.random() < .7:
        return eq_text(e)
    from pynare.core.expressions import ExprParser
    return ut('parsing an equation', lambda: ExprParser(eq_text(e)).parse())


def light_case(rng, i):
    from pynare.regimes import RegimeSwitchingModel
    s = eqs.draw(rng, safe=True, depth=2)
    shocks = {}
    for j, nm in enumerate(s.stoch):
        shocks[nm] = {'variance': float(np.round(rng.uniform(.2, 3), 2))}
        if j and rng.random() < .6:
            kind = str(rng.choice(['corr', 'cov']))
            val = float(np.round(rng.uniform(-.3, .3), 2))
            if j == 2 and rng.random() < .5:
                shocks[nm]['pairs'] = {s.stoch[b]: {kind: val} for b in range(2)}
            else:
                shocks[nm].update(other=s.stoch[int(rng.integers(0, j))], **{kind: val})
    draw_value = lambda: float(np.round(rng.normal(), 2)) if rng.random() < .75 else 0.
    initial = {v: draw_value() for v in s.endog if rng.random() < .6}
    bounds = [{v: draw_value() for v in s.endog if rng.random() < .3} for _ in range(2)]
    if rng.random() < .6:
        bounds = [{}, {}]
    ref = Ref(s, shocks, initial, str(rng.choice(['', 'base'])), *bounds)
    hist = []
    info = {'endog': list(s.endog), 'stoch': list(s.stoch), 'params': dict(s.params), 'exprs': eqs.texts(s),
            'locals': {k: text(v) for k, v in s.locals.items()}, 'shocks': copy.deepcopy(shocks),
            'initial': dict(initial), 'terminal': dict(bounds[0]), 'historical': dict(bounds[1]), 'history': hist}
    with light_models():
        m = ut('building a model', eqs.model, s, None, shocks=copy.deepcopy(shocks), initial=dict(initial),
               terminal=dict(bounds[0]), historical=dict(bounds[1]), name=ref.name, info=info)
        models = [(m, ref)]
        verify(m, ref, rng, info, 'new model')
        fresh = iter(['nv1', 'nv2', 'nv3', 'nv4', 'nv5', 'nv6', 'nv7', 'nv8'])
        for step in range(int(rng.integers(1, 7))):
            w = int(rng.integers(0, len(models)))
            m, ref = models[w]
            s = ref.s
            op = str(rng.choice(['copy', 'copy', 'replace', 'regime', 'regimes', 'endog', 'params', 'stoch',
                                 'variance', 'initial', 'local', 'query', 'setparam']))
            if op == 'copy':
                c = ut('copying', m.copy, info=info)
                models.append((c, ref.copy()))
                hist.append(['copy', w])
            elif op == 'query':
                hist.append(['query', w])
                verify(m, ref, rng, info, f'model {w}')
            elif op == 'replace':
                k = int(rng.integers(0, len(s.eqs)))
                e = new_equation(rng, s, seen_now(s, k))
                hist.append(['replace', w, k, eq_text(e)])
                f = form(rng, e)

                def put():
                    m.exprs[k] = f
                    m.is_altered = True
                ut('replacing an equation', put, info=info)
                s.eqs[k] = e
                eqs.finish(s)
            elif op == 'regime':
                k = int(rng.integers(0, len(s.eqs)))
                e = new_equation(rng, s, seen_now(s, k))
                hist.append(['regime', w, k, eq_text(e)])
                r = ut('making regimes', RegimeSwitchingModel, m, {k: form(rng, e)}, info=info)
                equal('number of regimes', ut('number of regimes', len, r, info=info), 2, **info)
                verify(r[0], ref, rng, info, 'base regime')
                alt = ref.copy()
                alt.s.eqs[k] = e
                eqs.finish(alt.s)
                models.append((r[1], alt))
            elif op == 'regimes':
                es = []
                for _ in range(int(rng.integers(1, 3))):
                    ks = rng.permutation(len(s.eqs))[:int(rng.integers(1, 3))]
                    es.append({int(k): new_equation(rng, s, seen_now(s, int(k))) for k in ks})
                hist.append(['regimes', w, [{k: eq_text(e) for k, e in d.items()} for d in es]])
                r = ut('making regimes', RegimeSwitchingModel, m, [{k: form(rng, e) for k, e in d.items()} for d in es],
                       info=info)
                equal('number of regimes', ut('number of regimes', len, r, info=info), 1 + len(es), **info)
                verify(r[0], ref, rng, info, 'base regime')
                for j, d in enumerate(es):
                    alt = ref.copy()
                    for k, e in d.items():
                        alt.s.eqs[k] = e
                    eqs.finish(alt.s)
                    models.append((r[1 + j], alt))
            elif op in ('endog', 'stoch'):
                nm = next(fresh)
                extra = []
                if op == 'stoch':
                    sh = next(fresh)
                    v = float(np.round(rng.uniform(.2, 3), 2))
                    given = rng.random() < .7
                    kw = {'variance': v if rng.random() < .85 else None} if given else {}
                    hist.append(['add_stoch', w, sh, kw])
                    ut('adding a shock', m.add_stoch, sh if rng.random() < .5 else [sh], info=info, **kw)
                    s.stoch = s.stoch + [sh]
                    ref.shocks[sh] = kw or {'variance': 1.}
                    extra = [sh]
                init = float(np.round(rng.normal(), 2))
                s.endog = s.endog + [nm]
                eqs.finish(s)
                e = new_equation(rng, s, [nm], extra)
                s.eqs = s.eqs + [e]
                hist.append(['add_endog+add_exprs', w, nm, init, eq_text(e)])
                f = form(rng, e)
                one_by_one = rng.random() < .5

                def add():
                    steps = [lambda: m.add_endog(nm if rng.random() < .5 else [nm], initial=init),
                             lambda: m.add_exprs(f if one_by_one else [f])]
                    if rng.random() < .3:
                        steps.reverse()
                    else:
                        between.append(True)
                    for st in steps:
                        st()
                        if between and rng.random() < .3:
                            q = str(rng.choice(['update', 'indexes', 'dynamic_repr', 'statespace']))
                            hist.append(['query in between', q])
                            must_raise('a query between adding a variable and the equation that determines it',
                                       Exception, lambda: m.update() if q == 'update' else getattr(m, q), info=info)
                        between.clear()
                between = []
                ut('adding a variable and an equation', add, info=info)
                ref.initial[nm] = init
                eqs.finish(s)
            elif op in ('params', 'setparam'):
                nm = str(rng.choice(list(s.params) + ['newp']))
                v = float(np.round(rng.uniform(.1, 3), 2))
                hist.append([op, w, nm, v])

                def put():
                    if op == 'params':
                        m.add_params(**{nm: v})
                    else:
                        m.params[nm] = v
                        m.is_altered = True
                ut('setting a parameter', put, info=info)
                s.params = {**s.params, nm: v}
                eqs.finish(s)
            elif op == 'variance' and s.stoch:
                nm = str(rng.choice(s.stoch))
                v = float(np.round(rng.uniform(.2, 3), 2))
                hist.append([op, w, nm, v])

                def put():
                    m.stoch[s.stoch.index(nm)].variance = v
                    m.is_altered = True
                ut('setting a variance', put, info=info)
                ref.shocks[nm] = {**ref.shocks[nm], 'variance': v}
            elif op == 'initial':
                nm = str(rng.choice(s.endog))
                v = float(np.round(rng.normal(), 2))
                hist.append([op, w, nm, v])

                def put():
                    m.endog[s.endog.index(nm)].initial = v
                    m.is_altered = True
                ut('setting an initial value', put, info=info)
                ref.initial[nm] = v
            elif op == 'local' and s.locals:
                nm = str(rng.choice(list(s.locals)))
                v = float(np.round(rng.uniform(.1, 3), 2))
                hist.append([op, w, nm, v])

                def put():
                    m.local_params[nm] = v
                    m.is_altered = True
                ut('setting a local name', put, info=info)
                s.locals = {**s.locals, nm: ('num', v)}
                eqs.finish(s)
            if rng.random() < .5:
                j = int(rng.integers(0, len(models)))
                verify(*models[j], rng, info, f'model {j}')
        for j in rng.permutation(len(models)):
            verify(*models[j], rng, info, f'model {j}')


def solved_case(rng, i):
    """solutions follow the definitions too"""
    from rac.props import c09
    from pynare.regimes import RegimeSwitchingModel
    sp = c09.draw(rng, 3)
    kinds = ''.join(sp.kinds)
    m, info = c09.build(rng, sp)
    other = gen.draw_spec(rng, kinds, sp.e, quad=False, want='det', gap=.05, sig='diag')
    if other is None:
        raise Skip('no spec')
    other.names, other.stoch, other.sigma = sp.names, sp.stoch, sp.sigma
    other.c = sp.c
    hist = info['history'] = []
    early = rng.random() < .5
    if early:
        hist.append('solve base')
        ut('solving', m.solve, order=1, info=info)
    ex = gen.exprs(other, rng)
    info['replaced by'] = ex
    how = str(rng.choice(['copy', 'regime', 'regimes', 'base']))
    hist.append(how)
    if how == 'regime':
        c = ut('making regimes', RegimeSwitchingModel, m, dict(enumerate(ex)), info=info)[1]
    elif how == 'regimes':
        c = ut('making regimes', RegimeSwitchingModel, m, [dict(enumerate(ex))], info=info)[1]
    else:
        c = ut('copying', m.copy, info=info)
        if rng.random() < .5:
            hist.append('solve copy')
            ut('solving', c.solve, order=1, info=info)
        t = m if how == 'base' else c

        def put():
            for k, e in enumerate(ex):
                t.exprs[k] = e
            t.is_altered = True
        ut('replacing equations', put, info=info)
    pair = [(m, sp), (c, other)] if how != 'base' else [(m, other), (c, sp)]
    for j in rng.permutation(2):
        mod, spec = pair[j]

        def policies():
            sol = mod.first_order_solution if rng.random() < .3 else \
                (mod.solution if (early and mod is m and rng.random() < .5) else mod.solve(order=1))
            if sol.order == 2:
                sol = sol.lower_solution
            return sol.gy, sol.gu
        gy, gu = ut('solving', policies, info=info)
        P, Gm = c09.dense(spec, gy, gu, info)
        c09.check(spec, mod, info, P, Gm)


def case(rng, i):
    if i % 4 == 3:
        solved_case(rng, i)
    else:
        light_case(rng, i)
