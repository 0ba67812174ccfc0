"""C10: determinacy"""
import numpy as np
from rac.core import *
from rac import gen
from rac.props.c09 import draw, build, dense, check

QUICK, THOROUGH = 400, 8000


def qz_case(rng):
    from pynare.utils.numpy import partitioned_qz
    n = int(rng.integers(1, 8))
    # eigenvalues of the pencil (B, A): B v = lambda A v
    ev, blocksB, blocksA = [], [], []
    while len(ev) < n:
        r = rng.random()
        mod = rng.uniform(.05, .9) if rng.random() < .5 else rng.uniform(1.1, 6)
        if r < .3 and len(ev) + 2 <= n:
            th = rng.uniform(.2, 2.9)
            blocksB.append(mod * np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]]))
            blocksA.append(np.eye(2)); ev += [mod * np.exp(1j * th), mod * np.exp(-1j * th)]
        elif r < .42:
            blocksB.append(np.eye(1)); blocksA.append(np.zeros((1, 1))); ev.append(np.inf)
        elif r < .5:
            blocksB.append(np.zeros((1, 1))); blocksA.append(np.eye(1)); ev.append(0.)
        else:
            s = rng.choice([-1, 1])
            blocksB.append(s * mod * np.eye(1)); blocksA.append(np.eye(1)); ev.append(s * mod)
    import scipy.linalg as sl
    X, Y = rng.normal(size=(n, n)), rng.normal(size=(n, n))
    if np.linalg.cond(X) > 50 or np.linalg.cond(Y) > 50:
        raise Skip('conditioning')
    A, B = X @ sl.block_diag(*blocksA) @ Y, X @ sl.block_diag(*blocksB) @ Y
    info = {'A': A, 'B': B, 'eigenvalues': [str(v) for v in ev]}
    a0, b0 = A.copy(), B.copy()
    out = ut('partitioned_qz', partitioned_qz, A, B, info=info)
    eigs, Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22 = out
    k = int(sum(abs(v) < 1 for v in ev))
    mod = np.abs(np.asarray(eigs))
    mod = np.where(np.isnan(mod), np.inf, mod)
    if not (np.all(mod[:k] < 1) and np.all(mod[k:] > 1)):
        raise Bad(f'stable eigenvalues are not first: moduli {mod}', **info)
    equal('size of the stable block', [x.shape for x in (Z11, Z22, T11, T12, T22, S11, S12, S22)],
          [(k, k), (n - k, n - k), (k, k), (k, n - k), (n - k, n - k), (k, k), (k, n - k), (n - k, n - k)], **info)
    close('sorted moduli', np.sort(mod[mod < 1e6]), np.sort([abs(v) for v in ev if np.isfinite(v)]), rtol=1e-4, **info)
    Z = np.block([[Z11, Z12], [Z21, Z22]])
    T = np.block([[T11, T12], [np.zeros((n - k, k)), T22]])
    S = np.block([[S11, S12], [np.zeros((n - k, k)), S22]])
    close('orthogonality', Z @ Z.T, np.eye(n), **info)
    # Q'A = T Z, Q'B = S Z for some orthogonal Q: Gram matrices agree
    close('A reproduced', Z.T @ T.T @ T @ Z, A.T @ A, rtol=1e-5, **info)
    close('B reproduced', Z.T @ S.T @ S @ Z, B.T @ B, rtol=1e-5, **info)
    close('A and B reproduced together', Z.T @ T.T @ S @ Z, A.T @ B, rtol=1e-5, **info)
    if not (np.array_equal(A, a0) and np.array_equal(B, b0)):
        raise Bad('arguments altered', **info)


def rank_case(rng):
    """as many explosive roots as forward variables, but not where they are needed: explosive
    backward variables beside forward variables that their own future does not discipline"""
    from pynare import Model
    from pynare.errors import ModelIdentificationError
    j = 1 if rng.random() < .4 else 2          # undisciplined forward variables / explosive lags
    g = int(rng.integers(0, 3)) if j == 1 else int(rng.integers(0, 2))     # sound forward variables
    rnd = lambda lo, hi: float(np.round(rng.uniform(lo, hi), 2)) * float(rng.choice([-1, 1]))
    nf = j + g
    F = np.diag([rnd(1.2, 4) for _ in range(j)] + [rnd(.2, .8) for _ in range(g)])
    if nf > 1 and rng.random() < .7:
        # the same system in mixed co-ordinates
        T = np.round(np.eye(nf) + rng.uniform(-.4, .4, (nf, nf)), 2)
        F = T @ F @ np.linalg.inv(T)
    ks, ps = [f'k{r}' for r in range(j)], [f'p{r}' for r in range(nf)]
    ex = [f'{k} = ({rnd(1.2, 3)})*{k}(-1) + e' for k in ks]
    for a, p in enumerate(ps):
        t = [f'({float(F[a, c])!r})*{q}(+1)' for c, q in enumerate(ps) if c == a or abs(F[a, c]) > 1e-9]
        if rng.random() < .5:
            t.append(f'({rnd(.1, 2)})*{ks[int(rng.integers(0, j))]}')
        ex.append(f'{p} = ' + ' + '.join(t))
    names = ks + ps
    if rng.random() < .5:
        names.append('z')
        ex.append(f'z = p0 + {float(np.round(rng.uniform(.1, 2), 2))}*k0')
    order = [names[r] for r in rng.permutation(len(names))]
    ex = [ex[r] for r in rng.permutation(len(ex))]
    if any('e-' in x for x in ex):
        raise Skip('small coefficient')
    info = {'endog': order, 'exprs': ex}
    m = ut('building a model', Model, endog=[str(x) for x in order], stoch=['e'], exprs=ex, info=info)
    for order_ in (1, 2):
        must_raise(f'solving without the rank condition (order {order_})', ModelIdentificationError,
                   m.solve, order=order_, info=info)


def case(rng, i):
    from pynare.errors import ModelIdentificationError
    if i % 3 == 0:
        return qz_case(rng)
    if i % 6 == 1:
        return rank_case(rng)
    want = str(rng.choice(['det', 'indet', 'nosol']))
    sp = draw(rng, want=want)
    m, info = build(rng, sp)
    info['expected'] = want
    if want == 'det':
        sol = ut('solving', m.solve, order=1, info=info)
        check(sp, m, info, *dense(sp, sol.gy, sol.gu, info))
    else:
        for order in (1, 2, 1):
            must_raise(f'solving (order {order})', ModelIdentificationError, m.solve, order=order, info=info)
        must_raise('simulating', ModelIdentificationError, m.simulate, info=info)
