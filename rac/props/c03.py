"""C03: dynamic residuals"""
import numpy as np
from rac.core import *
from rac import grammar as G
from rac.props import eqs

QUICK, THOROUGH = 400, 8000


def draw_model(rng, s):
    from pynare import Model
    from pynare.parsing import read_model
    info = {'endog': s.endog, 'stoch': s.stoch, 'params': s.params}
    with light_models():
        if rng.random() < .5:
            txt = eqs.file_text(s, rng)
            info['file'] = txt
            m = ut('building a model', lambda: Model.from_outline(read_model(txt, 'dynare')), info=info)
        else:
            m = ut('building a model', eqs.model, s, rng, info=info)
            info['exprs'] = eqs.texts(s)
            info['locals'] = {k: G.text(G.words(t)) for k, t in s.locals.items()}
    return m, info


def case(rng, i):
    s = eqs.draw(rng, safe=rng.random() < .7)
    m, info = draw_model(rng, s)
    ncol = len(s.columns) + len(s.stoch)
    done = 0
    for _ in range(4):
        vec = np.round(rng.uniform(-2, 2, ncol) if rng.random() < .5 else rng.uniform(.2, 3, ncol), 4)
        pos = {c: j for j, c in enumerate(s.columns)}
        pos.update({(e, 0): len(s.columns) + j for j, e in enumerate(s.stoch)})
        env = lambda nm, d: float(vec[pos[nm, d]]) if (nm, d) in pos else s.consts[nm]
        want = np.full(len(s.eqs), np.nan)
        for k in range(len(s.eqs)):
            try:
                want[k] = eqs.residual(s, k, env, eqs.value_strict)
            except Skip:
                pass
        if np.isnan(want).any():
            continue
        done += 1
        got = ut('dynamic residual', m.dynamic_repr, vec, info={**info, 'vector': vec})
        close('dynamic residual', got, want, rtol=1e-8, vector=vec, **info)
        if s.stoch and not vec[len(s.columns):].any() is None:
            short = vec.copy()[:len(s.columns)]
            z = np.concatenate((short, np.zeros(len(s.stoch))))
            envz = lambda nm, d: float(z[pos[nm, d]]) if (nm, d) in pos else s.consts[nm]
            try:
                wz = np.array([eqs.residual(s, k, envz, eqs.value_strict) for k in range(len(s.eqs))])
            except Skip:
                continue
            close('dynamic residual without shocks', ut('dynamic residual', m.dynamic_repr, short,
                                                        info={**info, 'vector': short}), wz, rtol=1e-8, **info)
    if not done:
        raise Skip('no finite point')
