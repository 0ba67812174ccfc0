"""C20: sample moments of simulated paths"""
import numpy as np
from rac.core import *

QUICK, THOROUGH = 3000, 60000


class Names:
    def __init__(self, names):
        self.names = np.array(names, dtype=str)

    def __len__(self):
        return len(self.names)


class Model:
    def __init__(self, names):
        self.endog = Names(names)


def mean(v):
    return sum(float(x) for x in v) / len(v)


def case(rng, i):
    from pynare.simul import ModelSimulation
    T = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 40, 120]))
    n = int(rng.integers(1, 6))
    kind = rng.integers(0, 4)
    paths = rng.normal(size=(T, n)) * rng.choice([.01, 1., 50.], n) + rng.choice([0., 3., -7., 100.], n)
    if kind == 1:
        paths = np.cumsum(paths, axis=0)
    if kind == 2:
        paths = np.round(paths)
    if kind == 3 and T > 2:
        paths[0] += 5 * np.abs(paths).max()         # a far first period
    names = ['x' + str(j) for j in rng.permutation(n)]
    info = {'paths': paths.copy(), 'names': names}
    sim = ut('making a simulation', ModelSimulation, Model(names), paths.copy(), np.zeros((T, 1)), info=info)
    drop = int(rng.choice([0, 0, 1, 2, T - 1, T, T + 3, -1, int(rng.integers(0, T + 1))]))
    info['drop'] = drop
    defaulted = drop == 0 and rng.random() < .5
    if drop < 0 or drop >= T:
        must_raise('correlation with an impossible drop', (ValueError,), sim.corr, drop=drop, info=info)
        must_raise('autocorrelation with an impossible drop', (ValueError,), sim.autocorr, p=1, drop=drop, info=info)
        return
    kept = paths[drop:]
    N = len(kept)
    ctr = kept - np.array([mean(c) for c in kept.T])
    cov = np.array([[mean(ctr[:, a] * ctr[:, b]) for b in range(n)] for a in range(n)])
    sd = np.sqrt(np.diag(cov))
    degenerate = not (sd > 1e-7 * np.maximum(1, np.abs(kept).max(axis=0))).all()
    if not degenerate:
        got = ut('correlation', *((sim.corr,) if defaulted else (sim.corr, drop)), info=info)
        close('correlation', got.to_numpy(), cov / np.outer(sd, sd), rtol=1e-7, **info)
        equal('correlation labels', [list(map(str, got.index)), list(map(str, got.columns))], [names, names], **info)
    p = int(rng.choice([1, 2, 5, N - 1, N, N + 2, int(rng.integers(1, 8))]))
    p = max(p, 1)
    info['p'] = p
    if p >= N:
        must_raise('autocorrelation at impossible lags', (ValueError,), sim.autocorr, p=p, drop=drop, info=info)
        return
    if degenerate:
        raise Skip('constant path')
    want = np.array([[sum(ctr[t, j] * ctr[t - k, j] for t in range(k, N)) / (N - k) / cov[j, j]
                      for k in range(1, p + 1)] for j in range(n)])
    call = (lambda: sim.autocorr()) if p == 5 and defaulted else (lambda: sim.autocorr(p, drop))
    got = ut('autocorrelation', call, info=info)
    close('autocorrelation', got.to_numpy(), want, rtol=1e-7, **info)
    equal('autocorrelation labels', list(map(str, got.index)), names, **info)
    if not np.array_equal(sim.paths, paths):
        raise Bad('the stored paths were altered', **info)
