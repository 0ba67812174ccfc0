"""C04: steady-state residuals; compiling leaves the equations alone"""
import copy
import numpy as np
from rac.core import *
from rac import grammar as G
from rac.props import eqs
from rac.props.c03 import draw_model

QUICK, THOROUGH = 400, 8000


def shape(node):
    """structure of a syntax tree by attribute, for comparison"""
    if isinstance(node, (list, tuple)):
        return [shape(x) for x in node]
    if hasattr(node, '__dict__'):
        return (type(node).__name__,
                {k: shape(v) for k, v in vars(node).items() if k not in ('line_number', 'line_pos')})
    return node


def names(node):
    """the names an equation's tree mentions"""
    import pynare.parsing.ast as ast
    if isinstance(node, (list, tuple)):
        return sorted(set().union(*map(names, node))) if node else []
    if isinstance(node, (ast.Var, ast.PeriodVar)):
        return [node.value]
    out = set()
    for v in vars(node).values():
        if isinstance(v, ast.AST):
            out |= set(names(v))
    return sorted(out)


def case(rng, i):
    s = eqs.draw(rng, safe=rng.random() < .7)
    m, info = draw_model(rng, s)
    before = shape(list(m.exprs))
    # building the model compiled its equations once already
    equal('names in the equations of a built model', [names(e) for e in m.exprs],
          [sorted({nm for t in eq if t is not None for nm, _ in eqs.occ(t)}) for eq in s.eqs], **info)
    done = 0
    for _ in range(4):
        vec = np.round(rng.uniform(-2, 2, len(s.endog)) if rng.random() < .5 else rng.uniform(.2, 3, len(s.endog)), 4)
        at = dict(zip(s.endog, vec))
        env = lambda nm, d: float(at[nm]) if nm in at else 0. if nm in s.stoch else s.consts[nm]
        try:
            want = np.array([eqs.residual(s, k, env, eqs.value_strict) for k in range(len(s.eqs))])
        except Skip:
            continue
        done += 1
        got = ut('steady residual', m.steady_repr, vec, info={**info, 'vector': vec})
        close('steady residual', got, want, rtol=1e-8, vector=vec, **info)
    if hasattr(m, 'update'):
        with light_models():
            ut('recompiling', m.update, info=info)
    if shape(list(m.exprs)) != before:
        raise Bad('compiling altered the equations', **info)
    from pynare.parsing import evaluate
    env = {nm: 1.5 for nm in s.endog + s.stoch}
    if not done:
        raise Skip('no finite point')
