"""C12: generalised Sylvester solver"""
import numpy as np
from rac.core import *

QUICK, THOROUGH = 1500, 40000


def case(rng, i):
    from pynare.utils.numpy import generalized_sylvester as solve
    m, n = int(rng.integers(1, 7)), int(rng.integers(1, 8))
    if rng.random() < .08:
        m, n = [(0, 2), (2, 0), (1, 1), (0, 0)][int(rng.integers(0, 4))]
    A, C = rng.normal(size=(m, m)), rng.normal(size=(m, m))
    B, D = rng.normal(size=(n, n)), rng.normal(size=(n, n))
    if rng.random() < .3:
        # place complex pairs of (D, B)
        D = np.zeros((n, n)); k = 0
        while k < n:
            if k + 1 < n and rng.random() < .5:
                th, r = rng.uniform(.3, 2.8), rng.uniform(.3, 2)
                D[k:k + 2, k:k + 2] = r * np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]]); k += 2
            else:
                D[k, k] = rng.normal(); k += 1
        X = rng.normal(size=(n, n)) if rng.random() < .5 else np.linalg.qr(rng.normal(size=(n, n)))[0]
        B = np.eye(n)
        if rng.random() < .5:
            D = np.linalg.solve(X, D @ X)
        else:
            D, B = X @ D @ X.T, X @ X.T
    if rng.random() < .15:
        B = np.eye(n)
    if rng.random() < .1:
        D = np.triu(D)
    if rng.random() < .06:
        D = np.zeros((n, n))
    E = rng.normal(size=(m, n))
    if rng.random() < .12:
        bad = int(rng.integers(0, 5))
        args = [A, B, C, D, E]
        sh = args[bad].shape
        args[bad] = rng.normal(size=(sh[0] + 1, sh[1]) if rng.random() < .5 else (sh[0], sh[1] + 2))
        info = {'shapes': [a.shape for a in args]}
        must_raise('non-conforming shapes', ValueError, solve, *args, info=info)
        return
    info = {'A': A, 'B': B, 'C': C, 'D': D, 'E': E}
    if m and n:
        K = np.kron(A, B) + np.kron(C, D)
        if np.linalg.cond(K) > 1e5:
            raise Skip('conditioning')
        want = np.linalg.solve(K, E.ravel()).reshape(m, n)
    else:
        want = np.zeros((m, n))
    args = [x.copy() for x in (A, B, C, D, E)]
    X = ut('generalized_sylvester', solve, *args, info=info)
    X = np.asarray(X)
    equal('shape', X.shape, E.shape, **info)
    for nm, a, b in zip('ABCDE', args, (A, B, C, D, E)):
        if not np.array_equal(a, b):
            raise Bad(f'argument {nm} altered', **info)
    small('A X B\' + C X D\' - E', A @ X @ B.T + C @ X @ D.T - E, 1 + np.abs(X).max(initial=0), tol=1e-5, **info)
    close('solution', X, want, rtol=1e-4, **info)
