"""C14: impulse responses"""
import numpy as np
from rac.core import *
from rac.props.c09 import draw, build
from rac.props.c13 import policy, step, factor

QUICK, THOROUGH = 200, 4000


def case(rng, i):
    order = 1 + i % 2
    sp = draw(rng, n_max=5, quad=order == 2, n_exog=int(rng.integers(1, 5)))
    if not sp.state:
        raise Skip('no state')
    m, info = build(rng, sp)
    ss = m.ss.values
    t = policy(sp, m, order, info)
    named = rng.random() < .75
    k = int(rng.integers(0, sp.e)) if named else 0
    size = float(np.round(rng.choice([1., -1., rng.uniform(-.5, 2)]), 2))
    T = int(rng.integers(1, 10))
    info.update(exog=sp.stoch[k] if named else None, periods=T, size=size, order=order)
    kw = {'exog': sp.stoch[k]} if named else {}
    if size != 1 or rng.random() < .5:
        kw['size'] = size
    r = ut('impulse response', m.impulse_response, periods=T, info=info, **kw)
    imp = np.asarray(r.impulse)
    equal('response shape', imp.shape, (T, sp.n), **info)
    small('first row', imp[0], **info)
    u = np.zeros((T, sp.e)); u[0, k] = size
    u = u @ factor(m, sp, info)
    y = ss
    for s in range(1, T):
        y = step(sp, t, ss, y, u[s - 1])
        if np.abs(y).max() > 1e5:
            break
        close(f'row {s}', imp[s], y - ss, rtol=1e-5, atol=1e-6, **info)
    must_raise('unknown shock', Exception, m.impulse_response, exog='no_such_shock', info=info)
    if sp.names[0] not in sp.stoch:
        must_raise('endogenous name as a shock', Exception, m.impulse_response, exog=sp.names[0], info=info)
