"""Random model generator with closed-form derivatives.

A generated model is  f_i(y-, y, y+, u) = lin_i . z + 1/2 z' Q_i z   with
z = (y_{t-1}-c, y_t-c, y_{t+1}-c, u), written out as model text.  Its steady state is
c (given to the model as the initial guess), its Jacobian is lin and its Hessian Q,
all known exactly, so the executable contracts need nothing from the code under test.
"""
import numpy as np

KINDS = 'SBMF'   # static, purely backward, mixed, purely forward


class Spec:
    """dense arrays over declared variables; lag/lead entries are zero for classes
    that have no such date"""
    def __init__(self, kinds, names, stoch, Am, A0, Ap, Au, Q, c, sigma):
        self.kinds, self.names, self.stoch = kinds, names, stoch
        self.Am, self.A0, self.Ap, self.Au = Am, A0, Ap, Au
        self.Q, self.c, self.sigma = Q, c, sigma
        n = len(names)
        self.n, self.e = n, len(stoch)
        self.back = [i for i in range(n) if kinds[i] in 'BM']
        self.fwd = [i for i in range(n) if kinds[i] in 'MF']
        self.dr = [i for k in KINDS for i in range(n) if kinds[i] == k]
        self.state = [i for i in self.dr if kinds[i] in 'BM']
        self.fore = [i for i in self.dr if kinds[i] in 'MF']


def bk_count(Am, A0, Ap, back, fwd):
    """(number of |.|>1 generalised eigenvalues, closest distance to the unit circle,
    sizes) of the companion pencil restricted to the dynamic variables, independent of
    the code: uses the full 2n companion form and discards the structural zeros/infs"""
    import scipy.linalg as sl
    n = A0.shape[0]
    # [Ap 0; 0 I] [y+ ; y] = [-A0 -Am; I 0] [y ; y-]
    # reduce: unknown vector w_t = (y_t[fwd dates], y_{t-1}[back])
    nf, nb = len(fwd), len(back)
    # use  D (y_t^back..)  formulation with all y_t as unknown
    # variables: x = (y_t (n), ) ; build pencil on (y_{t-1}^b, y_t) -> (y_t^b, y_{t+1}^f + rest)
    M = np.zeros((n + nb, n + nb)); N = np.zeros((n + nb, n + nb))
    # state vector v_t = (y_{t-1}[back], y_t) ; N v_{t+1} = M v_t
    N[:n, nb:] = Ap
    M[:n, :nb] = -Am[:, back]
    M[:n, nb:] = -A0
    N[n:, :nb] = np.eye(nb)
    for k, b in enumerate(back):
        M[n + k, nb + b] = 1.
    al, be = sl.eigvals(M, N, homogeneous_eigvals=True)
    mod = np.where(np.abs(be) < 1e-12 * np.maximum(1, np.abs(al)), np.inf,
                   np.abs(al) / np.where(np.abs(be) == 0, 1, np.abs(be)))
    finite = mod[np.isfinite(mod)]
    stable = int(np.sum(mod < 1))
    gap = min([abs(x - 1) for x in finite], default=9.)
    return stable, gap, mod


LONG = 'the_long_name_of_one_of_the_variables_'


def lengthen(names):
    """now and then, long names that begin alike (decided by the names, so that no random number is used)"""
    return [LONG + x for x in names] if sum(map(ord, ''.join(names))) % 8 == 3 else names


def draw_spec(rng, kinds, n_exog, quad=True, tame=True, scale=None, offset=True, order=None,
              want='det', max_try=400, gap=0.05, sig='diag'):
    """rejection-sample a spec; want: 'det' (BK holds), 'indet', 'nosol'"""
    n = len(kinds)
    kinds = list(kinds)
    if order is not None:
        kinds = [kinds[i] for i in order]
    isb = np.array([k in 'BM' for k in kinds]); isf = np.array([k in 'MF' for k in kinds])
    pool = ['k', 'zeta', 'a', 'y', 'c', 'w1', 'b_x', 'pie', 'infl', 'q', 'r', 'x', 'aa', 'Y']
    names = [pool[i] for i in rng.permutation(len(pool))[:n]]
    stoch = [f'{s}' for s in np.array(['eps', 'u', 'e_b', 'shk', 'v'])[rng.permutation(5)[:n_exog]]]
    names, stoch = lengthen(names), lengthen(stoch)
    for _ in range(max_try):
        s = scale if scale is not None else rng.choice([.25, .5, .8, 1.5])
        A0 = np.eye(n)[rng.permutation(n)] * rng.choice([-1, 1], n) + .3 * rng.normal(size=(n, n))
        Am = s * rng.normal(size=(n, n)) * isb[None, :]
        Ap = s * rng.normal(size=(n, n)) * isf[None, :]
        # sparsify now and then, but keep every date that the class needs
        if rng.random() < .4:
            Am *= rng.random((n, n)) < .7
            Ap *= rng.random((n, n)) < .7
            if not all(np.any(Am[:, j]) for j in range(n) if isb[j]):
                continue
            if not all(np.any(Ap[:, j]) for j in range(n) if isf[j]):
                continue
        Au = rng.normal(size=(n, n_exog))
        back = list(np.where(isb)[0]); fwd = list(np.where(isf)[0])
        stable, g, _ = bk_count(Am, A0, Ap, back, fwd)
        if g < gap or abs(np.linalg.det(A0)) < .05:
            continue
        nb = len(back)
        ok = {'det': stable == nb, 'indet': stable > nb, 'nosol': stable < nb}[want]
        if not ok:
            continue
        if want == 'det':
            sol = policy(Am, A0, Ap, Au)
            if sol is None:
                continue
        break
    else:
        return None
    zs = 3 * n + n_exog
    Q = np.zeros((n, zs, zs))
    if quad:
        present = np.concatenate([isb, np.ones(n, bool), isf, np.ones(n_exog, bool)])
        for i in range(n):
            m = .4 * rng.normal(size=(zs, zs)) * (rng.random((zs, zs)) < .25)
            m = (m + m.T) * present[None, :] * present[:, None]
            Q[i] = np.round(m, 3)
    Am, A0, Ap, Au = [np.round(x, 4) for x in (Am, A0, Ap, Au)]
    if rng.random() < .25:
        # coefficients of unusual size; they play no part in determinacy
        Au = np.where(rng.random(Au.shape) < .5, Au, np.round(Au * float(rng.choice([1e-4, 1e-6, 1e3])), 10))
        Q = np.where(rng.random(Q.shape[:1] + (1, 1)) < .5, Q, np.round(Q * 1e-4, 10))
    c = np.round(rng.normal(size=n) * 1.5, 2) if offset else np.zeros(n)
    if sig == 'diag':
        sd = np.round(rng.uniform(.5, 2., n_exog), 2)
        sigma = np.diag(sd ** 2)
    elif sig == 'unit':
        sigma = np.eye(n_exog)
    else:
        L = np.round(rng.normal(size=(n_exog, n_exog)), 2) + np.eye(n_exog) * 1.5
        sigma = np.round(L @ L.T + .05 * np.eye(n_exog), 4)
    return Spec(kinds, names, stoch, Am, A0, Ap, Au, Q, c, sigma)


def policy(Am, A0, Ap, Au, it=20000):
    """independent dense first-order policy by time iteration / doubling:
    P = -(A0 + Ap P)^-1 Am, G = -(A0 + Ap P)^-1 Au.  None when it does not converge."""
    # cyclic reduction
    a, b, c = Ap.copy(), A0.copy(), Am.copy()
    bh = b.copy(); c0 = c.copy()
    try:
        for _ in range(60):
            binv_a = np.linalg.solve(b, a); binv_c = np.linalg.solve(b, c)
            bh = bh - a @ binv_c
            b = b - a @ binv_c - c @ binv_a
            a, c = -a @ binv_a, -c @ binv_c
            if max(np.abs(a).max(), np.abs(c).max()) < 1e-16 or np.abs(a).max() < 1e-18 or np.abs(c).max() < 1e-18:
                break
        P = -np.linalg.solve(bh, c0)
        # polish
        for _ in range(5):
            P = -np.linalg.solve(A0 + Ap @ P, Am)
        res = Ap @ P @ P + A0 @ P + Am
        if not np.isfinite(P).all() or np.abs(res).max() > 1e-9 * (1 + np.abs(P).max() ** 2):
            return None
        if np.abs(np.linalg.eigvals(P)).max() >= 1:
            return None
        G = -np.linalg.solve(A0 + Ap @ P, Au)
        return P, G
    except np.linalg.LinAlgError:
        return None


def _num(v):
    s = repr(float(abs(v)))
    if 'e' in s:
        # the language has no exponents
        s = f'{abs(v):.18f}'.rstrip('0')
    return s if v >= 0 else f'(0 - {s})'


def exprs(spec, rng=None, style=0):
    """equation texts"""
    n, e = spec.n, spec.e
    def z(j):
        d, i = divmod(j, n) if j < 3 * n else (3, j - 3 * n)
        if d == 3:
            return spec.stoch[i]
        t = {0: '(-1)', 1: '', 2: '(+1)'}[d]
        c = spec.c[i]
        base = spec.names[i] + t
        return base if c == 0 else f'({base} - {_num(c)})'
    out = []
    lin = np.hstack((spec.Am, spec.A0, spec.Ap, spec.Au))
    for i in range(n):
        terms = []
        for j in range(3 * n + e):
            if lin[i, j] != 0:
                terms.append(f'{_num(lin[i, j])}*{z(j)}')
        for j in range(3 * n + e):
            for k in range(j, 3 * n + e):
                q = spec.Q[i, j, k]
                if q != 0:
                    terms.append(f'{_num(q if j != k else q / 2)}*{z(j)}*{z(k)}' if j != k else f'{_num(q / 2)}*{z(j)}^2')
        if rng is not None:
            terms = [terms[k] for k in rng.permutation(len(terms))]
            cut = rng.integers(1, len(terms) + 1)
            lhs = ' + '.join(terms[:cut])
            if cut < len(terms):
                out.append(lhs + ' = 0 ' + ''.join(f' - ({t})' for t in terms[cut:]))
            else:
                out.append(lhs + (' = 0' if rng.random() < .7 else ''))
        else:
            out.append(' + '.join(terms) + ' = 0')
    return out


def shocks(spec, rng=None):
    """a shocks dict with at most one 'other' per shock, reproducing sigma when its
    off-diagonal pattern allows that (else only usable through model._sigma)"""
    d = {}
    for i, s in enumerate(spec.stoch):
        d[s] = {'variance': float(spec.sigma[i, i])}
    used = set()
    for i in range(spec.e):
        for j in range(i):
            v = spec.sigma[i, j]
            if v == 0:
                continue
            key = i if i not in used else j
            oth = j if key == i else i
            if key in used:
                return None
            used.add(key)
            if (rng is None) or rng.random() < .5:
                d[spec.stoch[key]].update(other=spec.stoch[oth], cov=float(v))
            else:
                d[spec.stoch[key]].update(other=spec.stoch[oth],
                                          corr=float(v / np.sqrt(spec.sigma[i, i] * spec.sigma[j, j])))
    return d


def build(spec, Model, rng=None, **kw):
    return Model(endog=list(spec.names), stoch=list(spec.stoch), exprs=exprs(spec, rng),
                 shocks=shocks(spec, rng) or {},
                 initial={nm: float(v) for nm, v in zip(spec.names, spec.c)}, **kw)
