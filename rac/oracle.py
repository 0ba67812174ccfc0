"""Executable reference semantics, written from the property statements (dense tensors,
declaration order everywhere; no code shared with pynare)."""
import numpy as np


def second_order(spec, P, G):
    """dense derivative tensors gxx (n,n^2), gxu (n,n*e), guu (n,e^2), gss (n,)"""
    n, e = spec.n, spec.e
    H = spec.Q.reshape(n, -1)
    zx = np.vstack((np.eye(n), P, P @ P, np.zeros((e, n))))
    zu = np.vstack((np.zeros((n, e)), G, P @ G, np.eye(e)))
    L = spec.A0 + spec.Ap @ P
    rhs = -H @ np.kron(zx, zx)
    # L X + Ap X (P kron P) = rhs
    K = np.kron(L, np.eye(n * n)) + np.kron(spec.Ap, np.kron(P, P).T)
    gxx = np.linalg.solve(K, rhs.reshape(-1)).reshape(n, n * n)
    gxu = np.linalg.solve(L, -H @ np.kron(zx, zu) - spec.Ap @ gxx @ np.kron(P, G))
    guu = np.linalg.solve(L, -H @ np.kron(zu, zu) - spec.Ap @ gxx @ np.kron(G, G))
    zs = 3 * n + e
    Hpp = spec.Q[:, 2 * n:3 * n, 2 * n:3 * n].reshape(n, n * n)
    sig = spec.sigma.reshape(-1)
    gss = np.linalg.solve(L + spec.Ap, -(spec.Ap @ guu + Hpp @ np.kron(G, G)) @ sig)
    return gxx, gxu, guu, gss


def reduce_second(spec, gxx, gxu, guu, gss):
    """solution arrays in the layout of the package: DR rows, state/shock pair columns"""
    n, e = spec.n, spec.e
    st, dr = spec.state, spec.dr
    xx = [a * n + b for a in st for b in st]
    xu = [a * e + b for a in st for b in range(e)]
    return gxx[np.ix_(dr, xx)] / 2, gxu[np.ix_(dr, xu)], guu[dr] / 2, gss[dr] / 2
