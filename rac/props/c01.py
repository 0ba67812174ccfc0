"""C01: expression text has its conventional value; text outside the language is rejected"""
import numpy as np
from rac.core import *
from rac import grammar as G

QUICK, THOROUGH = 2500, 60000
IDS = ['a', 'b', 'x', 'yy', 'k_1', 'Zeta', 'e', 'logx', 'expo', 'sinh_', 'A1']


def strict(t, env):
    def ev(t):
        k = t[0]
        if k == 'num':
            return t[1]
        if k == 'var':
            return env(t[1], t[2])
        kids = [ev(x) for x in t[1:] if isinstance(x, tuple)]
        with np.errstate(all='ignore'):
            if k == 'un':
                r = -kids[0] if t[1] == '-' else kids[0]
            elif k == 'fun':
                if t[1] in ('max', 'min', 'normcdf', 'normpdf'):
                    raise Skip('unsupported function')
                try:
                    r = G.FUNCS[t[1]](kids[0])
                except (ValueError, OverflowError):
                    raise Skip('domain')
            elif k == 'cmp':
                return G.evaluate(('cmp', t[1], ('num', kids[0]), ('num', kids[1])), None)
            elif t[1] == '/' and kids[1] == 0:
                raise Skip('division by zero')
            else:
                r = G.evaluate(('bin', t[1], ('num', kids[0]), ('num', kids[1])), None)
        if not np.isfinite(r) or abs(r) > 1e12:
            raise Skip('not finite')
        return float(r)
    return ev(t)


def agree(what, got, want, **info):
    if isinstance(want, (bool, np.bool_)):
        if bool(got) != bool(want):
            raise Bad(f'{what}: {got!r}, expected {want!r}', **info)
        return
    try:
        g = float(got)
    except Exception:
        raise Bad(f'{what}: {got!r}, expected {want!r}', **info)
    if not abs(g - want) <= 1e-8 * (1 + abs(want)):
        raise Bad(f'{what}: {g!r}, expected {want!r}', **info)


def readings(ws, rng, env, tree, domodel):
    from pynare.parsing import evaluate, read_model
    txt = G.text(ws, rng)
    python = G.text(ws, rng, power='**')
    scope = dict(env)
    out = [('evaluate', txt, lambda: evaluate(txt, scope)),
           ("evaluate exp='python'", python, lambda: evaluate(python, scope, exp='python'))]
    return out


def model_readings(ws, rng, env, used):
    """the same words as (part of) an equation, alone and in a model file"""
    from pynare.parsing import evaluate, read_model
    txt = G.text(ws, rng)
    out = []
    def eq():
        from pynare.core.expressions import ModelExprs
        return evaluate(ModelExprs([txt])[0], env)
    def eq2():
        from pynare.core.expressions import ModelExprs
        return -evaluate(ModelExprs(['0 = ' + txt])[0], env)
    def mf():
        decl = ' '.join(sorted(used | {'qq'}))
        o = read_model(f'var {decl}; model; {txt}; qq = 0; end;', 'dynare')
        return evaluate(o._model_expression_asts[0], env)
    def pa():
        ps = sorted(used)
        o = read_model(f'var qq; parameters {" ".join(ps + ["res"])};'
                       + ''.join(f'{p} = {"" if env[p] >= 0 else "-"}{abs(env[p])!r};' for p in ps)
                       + f'res = {txt}; model; qq = 0; end;', 'dynare')
        v = o._parameters['res']
        return evaluate(v, env)
    return [('equation', txt, eq), ('right-hand side', txt, eq2), ('model file', txt, mf),
            ('parameter definition', txt, pa)]


def mutate(ws, rng):
    ws = list(ws)
    for _ in range(int(rng.integers(1, 3))):
        k = int(rng.integers(0, 5))
        i = int(rng.integers(0, len(ws) + 1))
        pool = [('op', o) for o in '+-*/^()'] + [('num', 2.), ('id', 'a'), ('fun', 'exp'), ('op', '(')]
        if k == 0 and ws:
            del ws[min(i, len(ws) - 1)]
        elif k in (1, 2):
            ws.insert(i, pool[int(rng.integers(0, len(pool)))])
        elif k == 3 and len(ws) > 1:
            j = int(rng.integers(0, len(ws) - 1))
            ws[j], ws[j + 1] = ws[j + 1], ws[j]
        elif ws:
            j = min(i, len(ws) - 1)
            ws[j] = pool[int(rng.integers(0, len(pool)))]
    return ws or [('op', '(')]


def case(rng, i):
    env = {n: float(np.round(rng.choice([rng.normal() * 2, rng.integers(1, 6), rng.uniform(.1, 3)]), 3))
           for n in IDS}
    leaf = lambda: (('num', float(rng.choice([rng.integers(0, 10), np.round(rng.uniform(0, 5), 3)])))
                    if rng.random() < .45 else ('var', IDS[int(rng.integers(0, len(IDS)))], 0))
    t = G.tree(rng, int(rng.integers(1, 6)), leaf)
    comparison = rng.random() < .12
    if comparison:
        t = ('cmp', str(rng.choice(G.COMPS)), t, G.tree(rng, 2, leaf))
    ws = G.words(t, rng)
    mutated = rng.random() < .4
    if mutated:
        ws = mutate(ws, rng)
    try:
        tree = G.parse(ws)
    except G.Ill:
        tree = None
    # an identifier directly before a parenthesis is a dated variable inside a model
    call = any(a[0] == 'id' and b == ('op', '(') for a, b in zip(ws, ws[1:]))
    rs = readings(ws, rng, env, tree, not call)
    if not call and not comparison and not (tree and tree[0] == 'cmp') \
            and not any(w[0] == 'op' and w[1] in G.COMPS for w in ws):
        used = {w[1] for w in ws if w[0] == 'id'}
        rs += model_readings(ws, rng, env, used)
    if tree is None:
        for what, txt, f in rs:
            must_raise(f'ill-formed text ({what})', Exception, f, info={'text': txt}, seconds=5)
        return
    want = strict(tree, lambda n, d: env[n])
    for what, txt, f in rs:
        got = ut(f'value of text ({what})', f, info={'text': txt, 'env': env}, seconds=5)
        agree(f'value of text ({what})', got, want, text=txt, env=env)
    # a name without a value is an error
    used = sorted(G.names(tree))
    if used:
        from pynare.parsing import evaluate
        gone = used[int(rng.integers(0, len(used)))]
        sub = {k: v for k, v in env.items() if k != gone}
        txt = rs[0][1]
        must_raise('unbound name', Exception, evaluate, txt, sub, info={'text': txt, 'unbound': gone})
