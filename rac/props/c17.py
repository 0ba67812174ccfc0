"""C17: occasionally binding constraints"""
import itertools, warnings
import numpy as np
from rac.core import *
from rac import gen
from rac.props.c09 import draw, build

QUICK, THOROUGH = 200, 4000


def alternative(rng, sp, k, notional):
    """another k-th equation: (text, lagged, current, lead, shock coefficients, constant)"""
    n, e = sp.n, sp.e
    am, a0, ap, au = [np.zeros(w) for w in (n, n, n, e)]
    if notional is not None:
        # the variable is held at a bound
        a0[k] = 1.
        const = -notional
    else:
        a0[k] = float(np.round(rng.uniform(.8, 1.6), 2))
        for j in range(n):
            if rng.random() < .3 and j != k:
                a0[j] = float(np.round(rng.normal() * .3, 2))
            if rng.random() < .3 and sp.kinds[j] in 'BM':
                am[j] = float(np.round(rng.normal() * .3, 2))
            if rng.random() < .2 and sp.kinds[j] in 'MF':
                ap[j] = float(np.round(rng.normal() * .3, 2))
        au[:] = np.round(rng.normal(size=e) * .4 * (rng.random(e) < .4), 2)
        const = float(np.round(rng.normal() * .3, 2))
    num = lambda v: f'({v!r})' if v >= 0 else f'(0 - {-v!r})'
    dev = lambda j, d: f'({sp.names[j]}{d} - {num(float(sp.c[j]))})'
    terms = [f'{num(float(w[j]))}*{dev(j, d)}' for w, d in ((am, '(-1)'), (a0, ''), (ap, '(+1)'))
             for j in range(n) if w[j] != 0]
    terms += [f'{num(float(au[j]))}*{sp.stoch[j]}' for j in range(e) if au[j] != 0]
    if rng.random() < .4:
        # a term without linear part at the reference steady state
        terms.append(f'0.3*{dev(k, "")}^2')
    text = ' + '.join(terms) + (f' + {num(const)} = 0' if rng.random() < .5 else f' = {num(-const)}')
    return text, am, a0, ap, au, const


class Regime:
    def __init__(self, Am, A0, Ap, Au, D):
        self.Am, self.A0, self.Ap, self.Au, self.D = Am, A0, Ap, Au, D


def walk(regs, seq, P, G, x0, u):
    """the path under a guessed regime sequence, the reference policy ever after"""
    last = max([i for i, r in enumerate(seq) if r], default=-1)
    Pn, Dn, pol = P, np.zeros(len(x0)), {}
    for i in range(last, -1, -1):
        r = regs[seq[i]]
        M = r.A0 + r.Ap @ Pn
        if abs(np.linalg.det(M)) < 1e-8:
            return None
        Dn = -np.linalg.solve(M, r.Ap @ Dn + r.D)
        pol[i] = M
        if i == 0:
            Gi = -np.linalg.solve(M, r.Au)
        Pn = -np.linalg.solve(M, r.Am)
        pol[i] = (Pn, Dn)
    x, out = x0, []
    for i in range(len(seq)):
        p, d = pol.get(i, (P, 0))
        x = p @ x + d
        if i == 0:
            x = x + (Gi if last >= 0 else G) @ u
        out.append(x)
    return np.array(out)


def indicator(bits):
    """regime number from the binding constraints"""
    return {(): 0, (0,): 0, (1,): 1, (0, 0): 0, (1, 0): 1, (0, 1): 2, (1, 1): 3}[tuple(int(b) for b in bits)]


def consistent(path, hyp, conds):
    for q, (bind, relax) in enumerate(conds):
        b, r = bind(path), relax(path)
        if np.any(b & ~hyp[:, q]) or np.any(r & hyp[:, q]):
            return False
    return True


def iterate(regs, hyp, conds, P, G, x0, u, limit=20):
    for _ in range(limit):
        path = walk(regs, [indicator(h) for h in hyp], P, G, x0, u)
        if path is None:
            return None
        if consistent(path, hyp, conds):
            return path, hyp
        new = hyp.copy()
        for q, (bind, relax) in enumerate(conds):
            b, r = bind(path), relax(path)
            new[:, q] = (hyp[:, q] | b) & ~(hyp[:, q] & r)
        hyp = new
    return None


def candidates(N, nq, reach=6):
    spans = [None] + [(a, b) for a in range(reach) for b in range(a + 1, reach + 1)]
    for combo in itertools.product(spans, repeat=nq):
        h = np.zeros((N, nq), dtype=bool)
        for q, s in enumerate(combo):
            if s:
                h[s[0]:s[1], q] = True
        yield h


def case(rng, i):
    nq = 1 if rng.random() < .7 else 2
    n = int(rng.integers(max(2, nq), 5))
    kinds = ''.join(rng.choice(list('SBMF'), n, p=[.3, .3, .2, .2]))
    if not set(kinds) & set('BM'):
        kinds = 'B' + kinds[1:]
    sp = draw(rng, kinds=kinds, n_exog=int(rng.integers(1, 3)), gap=.1)
    n, e = sp.n, sp.e
    pol = gen.policy(sp.Am, sp.A0, sp.Ap, sp.Au)
    if pol is None:
        raise Skip('no policy')
    P, G = pol
    m, info = build(rng, sp)
    ks = [int(x) for x in rng.permutation(n)[:nq]]
    held = rng.random() < .5
    scale = np.sqrt(np.maximum(np.diag(P @ G @ G.T @ P.T + G @ G.T), 1e-3))
    watch = [int(rng.integers(0, n)) for k in ks]
    bounds = [float(np.round(-rng.uniform(.2, 1.2) * scale[w], 3)) for w in watch]
    alts = [alternative(rng, sp, k, bounds[q] if held else None) for q, k in enumerate(ks)]
    regs = [Regime(sp.Am, sp.A0, sp.Ap, sp.Au, np.zeros(n))]
    combos = [(0,)] if nq == 1 else [(0,), (1,), (0, 1)]
    exprs = []
    for combo in combos:
        Am, A0, Ap, Au, D = sp.Am.copy(), sp.A0.copy(), sp.Ap.copy(), sp.Au.copy(), np.zeros(n)
        d = {}
        for q in combo:
            t, am, a0, ap, au, c = alts[q]
            Am[ks[q]], A0[ks[q]], Ap[ks[q]], Au[ks[q]], D[ks[q]] = am, a0, ap, au, c
            d[ks[q]] = t
        if abs(np.linalg.det(A0)) < .05:
            raise Skip('degenerate regime')
        regs.append(Regime(Am, A0, Ap, Au, D))
        exprs.append(d)
    # conditions, in deviations from the reference steady state
    conds, texts = [], []
    for q in range(nq):
        w, b = watch[q], bounds[q]
        op = '<' if rng.random() < .7 else '>'
        bb = b if op == '<' else -b
        opp = '>' if op == '<' else '<'
        slack = 0. if rng.random() < .5 else float(np.round(rng.uniform(0, .3) * scale[w], 3))
        rb = bb + slack if op == '<' else bb - slack
        texts.append((f'{sp.names[w]} {op} {bb!r}', f'{sp.names[w]} {opp} {rb!r}'))
        lt = lambda p, w=w, b=bb: p[:, w] < b
        gt = lambda p, w=w, b=bb: p[:, w] > b
        lt2 = lambda p, w=w, b=rb: p[:, w] < b
        gt2 = lambda p, w=w, b=rb: p[:, w] > b
        conds.append((lt, gt2) if op == '<' else (gt, lt2))
    T = int(rng.integers(1, 5))
    periods = None if rng.random() < .15 else int(rng.integers(T, 26))
    N = (periods or T) + 1
    mode = int(rng.integers(0, 3))
    sh = np.round(rng.normal(size=(T, e)) * rng.choice([.05, .7, 1.5]), 3)
    if mode == 0 or e == 1:
        exog, given, U = None, sh[:, 0].copy(), np.hstack((sh[:, :1], np.zeros((T, e - 1))))
        if rng.random() < .4:
            exog = sp.stoch[0]
        if rng.random() < .3:
            given = given[:, None]
    elif mode == 1:
        j = int(rng.integers(0, e))
        exog, given = sp.stoch[j], sh[:, 0].copy()
        U = np.zeros((T, e)); U[:, j] = sh[:, 0]
    else:
        pm = [int(x) for x in rng.permutation(e)]
        exog, given = [sp.stoch[j] for j in pm], sh.copy()
        U = np.zeros((T, e)); U[:, pm] = sh
    init = None if rng.random() < .5 else np.round(rng.normal(size=n) * scale * .7, 3)
    x0 = np.zeros(n) if init is None else init
    restrained = nq == 2 and rng.random() < .2
    con = texts[0] if nq == 1 else texts
    info.update(constraint=con, regimes=exprs, exog=exog, shocks_given=given, init=init, periods=periods,
                restrained=restrained)
    kw = {'periods': periods} if periods else {}
    if nq == 2 and restrained:
        kw['restrained'] = True
    if init is not None:
        info['note'] = 'initial point is a deviation from the reference steady state'
    before = [m.ss.values.copy(), len(m.exprs), given.copy(), None if init is None else init.copy()]

    def go():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            from pynare.core.solve import OccBinSolution
            s = OccBinSolution(m, constraint=con, exprs=exprs[0] if nq == 1 else exprs, exog=exog,
                               shocks=given, init=init)
            s.solve(**kw)
        return s, [str(x.message) for x in w]
    sol, warned = ut('occasionally binding solution', go, info=info)
    if given.tolist() != before[2].tolist() or (init is not None and not np.array_equal(init, before[3])):
        raise Bad('arguments altered', **info)
    paths = np.asarray(sol.paths)
    equal('path shape', paths.shape, (periods or T, n), **info)
    if any('converge' in x or 'increase' in x for x in warned):
        raise Skip('not converged')
    x, hyp, tol = x0, np.zeros((N, nq), dtype=bool), None
    for t in range(T):
        big = max(1., np.abs(paths).max())
        got = None
        mine = iterate(regs, hyp, conds, P, G, x, U[t])
        if mine is not None:
            got = match(mine[0], paths, t, T, big) and mine
        if not got:
            for h in candidates(N, nq, min(6, N)):
                p = walk(regs, [indicator(b) for b in h], P, G, x, U[t])
                if p is not None and consistent(p, h, conds) and match(p, paths, t, T, big):
                    got = (p, h)
                    break
        if not got:
            if mine is None:
                raise Skip('no consistent path found')
            info.update(period=t, path=paths, expected=mine[0][:len(paths) - t])
            raise Bad('no regime sequence consistent with the constraints gives this period of the path', **info)
        x = paths[t]
        hyp = np.vstack((got[1][1:], np.zeros((1, nq), dtype=bool)))
    if np.abs(m.ss.values - before[0]).max() > 1e-9 or len(m.exprs) != before[1]:
        raise Bad('the reference model was altered', **info)


def match(p, paths, t, T, big):
    """the t-th row; on the last shock's period also everything that follows"""
    rows = p[:len(paths) - t] if t == T - 1 else p[:1]
    return np.abs(rows - paths[t:t + len(rows)]).max() <= 1e-5 * big
