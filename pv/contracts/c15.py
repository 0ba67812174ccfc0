"""theoretical moments: stats/moments.py, stats/stats.py, the state moments of core/solve/statespace.py"""
import functools
from pv import eng, arr, load, model
from pv.arr import (Lf, Cat, Prod, Tensor, Lazy, sort, atoms, fact, prove_equal, prove_zero, matmul, kron, tensor, fit, Unsupported,
                    inv_facts)
from pv.eng import Unit, zi, SI, SB
from pv.contracts import common
from pv.contracts.common import Poison, Stub, setup

MODS = common.MODS + ['pynare.stats.moments']
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy/scipy: matmul, dot, diag, outer, sqrt, divide, indexing and assignment follow their documented meaning '
    '(pv/arr.py, pv/npshim.py); linalg.solve solves a nonsingular system; solve_discrete_lyapunov(A, Q) returns the X with '
    'X = A X A\' + Q (unique for the stable transition that verify() guarantees, C10)',
    'the policy arrays, the steady state and sigma are arbitrary arrays of the model\'s sizes (their own contracts: C09, C11, C21, '
    'C08); at least one state and one shock',
]


class Space:
    """contracts of the state space: the transition of the states and their unconditional variance"""

    def __init__(self, m):
        d = m._d
        self.m = m
        self.A, self.B = rows(m.gy, d), rows(m.gu, d)
        self.sigma = atoms('V', [d.state, d.state], 'matrix')
        self.kalman_transition = (self.A, self.B)

    def __getattr__(self, a):
        raise Unsupported(f'statespace.{a} is not under contract')

    def verify(self):
        return None


def rows(t, d):
    """the rows of the states"""
    return Tensor([d.state, t.axes[1]], {k: p for k, p in t.blocks.items() if k[0] in d.state.comps()})


def dc(t, d, axes=(0,)):
    """decision-rule order to declaration order"""
    ax = [d.dc if i in axes else a for i, a in enumerate(t.axes)]
    return Tensor(ax, dict(t.blocks))


def ready(c, mods=MODS, contracts=None):
    w, d, m, hold = setup(c, mods, contracts)
    m.statespace = Space(m)
    order = (1, 2, None)[c.choose(3)]
    if order:
        m._solution = m.make(order)
    c.env['axes'] = [d.state, d.dc, Lf(d.E)]
    return w, d, m, hold


def gamma0(m, d):
    V = m.statespace.sigma
    g = matmul(m.gy, matmul(V, m.gy.T)) + matmul(m.gu, matmul(m.sigma, m.gu.T))
    return dc(g, d, (0, 1))


# ---------------------------------------------------------------- the state space
def state_variance(c):
    """StateSpace.sigma: the fixed point of the variance of the states"""
    w, d, m, hold = setup(c)
    m._solution = m.make((1, 2)[c.choose(2)])
    cls = w['pynare.core.solve.statespace:StateSpace']
    A, B = atoms('A', [d.state, d.state]), atoms('B', [d.state, Lf(d.E)])
    ss = object.__new__(cls)
    done = []
    ss.__dict__.update(model=m, kalman_transition=(A, B), verify=lambda: done.append(1))
    V = fit(tensor(ss.sigma), [d.state, d.state])
    reg = c.env.get('lyapunov', [])
    if len(reg) != 1:
        raise Unsupported('the variance of the states is not the solution of one Lyapunov equation')
    a, q, x = reg[0]
    f = fact(x, matmul(a, matmul(x, a.T)) + q)
    Q = matmul(B, matmul(m.sigma, B.T))
    prove_zero('the variance of the states is that of their transition', V - matmul(A, matmul(V, A.T)) - Q,
               by=[f.map(lambda t: fit(t, [d.state, d.state]))])
    c.goal('only a verified model has moments', bool(done))


def transition(c):
    w, d, m, hold = setup(c)
    m._solution = m.make((1, 2)[c.choose(2)])
    cls = w['pynare.core.solve.statespace:StateSpace']
    ss = object.__new__(cls)
    ss.__dict__.update(model=m, verify=lambda: None)
    A, B = ss.kalman_transition
    prove_equal('the transition of the states is the policy of the states', fit(tensor(A), [d.state, d.state]), rows(m.gy, d))
    prove_equal('the impact of the shocks on the states is that of the policy', fit(tensor(B), [d.state, Lf(d.E)]), rows(m.gu, d))


# ---------------------------------------------------------------- moments
def mean(c):
    w, d, m, hold = ready(c)
    c.env['axes'] = [d.state, d.dr, Lf(d.E)]
    r = fit(tensor(w['pynare.stats.moments:mean'](m)), [d.dc])
    if m._solution.order == 1:
        prove_equal('the mean is the steady state at first order', r, m.ssv)
        return
    dev = r - m.ssv
    e = Tensor([d.dr], dict(dev.blocks))
    x = Tensor([d.state], {k: p for k, p in e.blocks.items() if k[0] in d.state.comps()})
    const = m.d2 + matmul(m.xx, arr.merge(m.statespace.sigma, 0)) + matmul(m.uu, arr.merge(m.sigma, 0))
    reg = c.env.get('inverses', [])
    if len(reg) != 1:
        raise Unsupported('the mean of the states does not solve one linear system')
    M = reg[0][0]
    inv, rr, ll = inv_facts(M)
    cs = Tensor([d.state], {k: p for k, p in const.blocks.items() if k[0] in d.state.comps()})
    out = e - matmul(m.gy, x) - const
    if not arr.is_zero(fit(tensor(M), [d.state, d.state]) - (arr.eye(d.state) - m.statespace.A)):
        raise Unsupported('the mean of the states solves another system')
    # the rows of the states: x = A x + const, because the code's x solves (1 - A) x = const
    prove_zero('the mean is that of the quadratic policy', out, by=[m.gy @ (rr @ cs)])


def cov(c):
    w, d, m, hold = ready(c)
    r = fit(tensor(w['pynare.stats.moments:cov'](m)), [d.dc, d.dc])
    prove_equal('the covariance is the one of the policy, in declaration order', r, gamma0(m, d))


def derived(c):
    """var, std, corr from the covariance (by the contract of cov)"""
    G = []
    w, d, m, hold = ready(c, contracts={'pynare.stats.moments:cov': lambda md: G[0].copy() if md is m else None})
    G.append(atoms('G', [d.dc, d.dc], 'matrix'))
    g = G[0]
    v = arr.diag(g)
    f = lambda n: w['pynare.stats.moments:' + n](m)
    prove_equal('variances are the diagonal of the covariance', f('var'), v)
    prove_equal('standard deviations are the roots of the variances', f('std'), arr.apply('sqrt', v))
    s = arr.apply('sqrt', v)
    prove_equal('correlations are covariances over standard deviations', f('corr'), g / arr.outer(s, s))


class Lags:
    """loop contract of the autocovariances: before the i-th iteration rows 0..i-1 are settled and the array carried is
    C_i, the covariance of next period's states with the variables i-1 periods earlier (C_1 = A V g' + B Sigma h',
    C_{i+1} = A C_i); the iteration writes row i = g C_i and nothing else"""

    def __init__(self, c, m, d, p):
        self.c, self.m, self.d, self.p, self.used = c, m, d, p, 0

    def first(self):
        m, d = self.m, self.d
        gy, gu = dc(m.gy, d), dc(m.gu, d)
        A, B = m.statespace.A, m.statespace.B
        return matmul(A, matmul(m.statespace.sigma, gy.T)) + matmul(B, matmul(m.sigma, gu.T))

    def __call__(self, w, st, what, env):
        c, m, d, p = self.c, self.m, self.d, self.p
        if what == 'enter':
            self.used += 1
            if self.used > 1:
                raise Unsupported('a second loop')
            if st.it.step != 1:
                raise Unsupported('loop direction')
            lo, hi = st.it.lo, st.it.hi
            if not isinstance(lo, int) or lo not in (0, 1):
                raise Unsupported('a loop over other lags')
            # the first row may be one of those that the loop computes
            self.all = lo == 0 and c.entails(zi(hi) == zi(p))
            c.prove('every lag after the first is computed', self.all or eng.z3.Or(zi(hi) - zi(lo) == zi(p) - 1, zi(p) <= 1))
            acv = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 3]
            car = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 2]
            if len(acv) != 1 or len(car) != 1:
                raise Unsupported('the loop does not carry the lags and one array')
            self.acv, self.car = acv[0], car[0]
            for n in st.names:
                if n in env and n not in (self.acv, self.car):
                    st.vals[n] = Poison()
            a = env[self.acv]
            c.goal('one row for every lag', arr.same(a.axes[0].n, p) and arr.same(a.axes[1].n, d.n) and arr.same(a.axes[2].n, d.n))
            if not self.all and c.entails(zi(p) >= 1):
                prove_equal('the first row is the covariance', fit(tensor(a[0, :, :]), [d.dc, d.dc]), m.G)
            C = fit(tensor(env[self.car]), [d.state, d.dc])
            prove_equal('the loop starts from the covariance of the next states with the variables', C, self.first(), strict=False)
            # an arbitrary state of the loop
            self.P = atoms('acv', [arr.size_axis(p), d.dc, d.dc], frozen=False)
            st.vals[self.acv] = self.P
            if c.choose(2):
                st.vals[self.car] = Poison()
                return
            i = eng.fresh_int('i')
            c.assume(zi(i) >= zi(lo))
            c.assume(zi(i) < zi(hi))
            self.k = i if self.all else i - lo + 1
            self.start = self.all and c.decide(zi(i) == 0)
            self.C = self.first() if self.start else atoms('C', [d.state, d.dc], frozen=False)
            if self.start:
                self.k = 0
            st.vals[self.car] = self.C.copy()
            st.body, st.item = True, i
            self.was = self.P.copy()
        elif what == 'leave':
            P, C = env[self.acv], fit(tensor(env[self.car]), [d.state, d.dc])
            gy = dc(m.gy, d)
            if self.start:
                prove_equal('the first row is the covariance', fit(tensor(P[0, :, :]), [d.dc, d.dc]), m.G, strict=False)
                prove_equal('the loop starts from the covariance of the next states with the variables', C, self.C, strict=False)
                return
            prove_equal('each lag is the policy applied to the lagged covariance of the states', fit(tensor(P[self.k, :, :]), [d.dc, d.dc]),
                        matmul(gy, self.C), strict=False)
            prove_equal('the lagged covariance moves on by the transition', C, matmul(m.statespace.A, self.C), strict=False)
            ok = True
            for lo, hi in ((0, self.k), (self.k + 1, p)):
                if not arr.same(lo, hi):
                    a, b = tensor(P[lo:hi, :, :]), tensor(self.was[lo:hi, :, :])
                    ok = ok and arr.is_zero(fit(a, b.axes) - b)
            c.goal('an iteration writes no other lag', ok)


def autocov(c):
    w, d, m, hold = ready(c, contracts={'pynare.stats.moments:cov': lambda md: m.G.copy()})
    m.G = atoms('G', [d.dc, d.dc], 'matrix')
    p = sort('P')
    c.env['axes'] += [Lf(p)]
    h = hold['h'] = Lags(c, m, d, p.n)
    r = tensor(w['pynare.stats.moments:autocov'](m, p.n))
    if not h.used:
        raise Unsupported('the lags are not computed in a loop')
    prove_equal('what is returned is what the loop computed', fit(r, h.P.axes), h.P)


def autocorr(c):
    w, d, m, hold = ready(c, contracts={'pynare.stats.moments:cov': lambda md: m.G.copy(),
                                        'pynare.stats.moments:autocov': lambda md, p=5: lags(md, p)})
    m.G = atoms('G', [d.dc, d.dc], 'matrix')
    p = sort('P')
    K = atoms('acv', [Lf(p), d.dc, d.dc], frozen=False)
    if c.decide(zi(p.n) > 0):
        K[0, :, :] = m.G                 # the first row is the covariance (contract of autocov)

    def lags(md, q):
        if md is not m or not arr.same(q, p.n):
            raise Unsupported('lags of something else')
        return K.copy()
    s = arr.apply('sqrt', arr.diag(m.G))
    r = tensor(w['pynare.stats.moments:autocorr'](m, p.n))
    prove_equal('autocorrelations are autocovariances over standard deviations', fit(r, K.axes), K / arr.outer(s, s))


def units():
    from pv.contracts import c23
    u = 'pynare.stats.moments.'
    return [
        Unit('pynare.core.solve.statespace.StateSpace.sigma', state_variance,
             ['the variance of the states is that of their transition', 'only a verified model has moments']),
        Unit('pynare.core.solve.statespace.StateSpace.kalman_transition', transition,
             ['the transition of the states is the policy of the states', 'the impact of the shocks on the states is that of the policy']),
        Unit(u + 'mean', mean, ['the mean is the steady state at first order', 'the mean is that of the quadratic policy']),
        Unit(u + 'cov', cov, ['the covariance is the one of the policy, in declaration order']),
        Unit(u + 'var/std/corr', derived, ['variances are the diagonal of the covariance', 'standard deviations are the roots of the variances',
                                           'correlations are covariances over standard deviations']),
        Unit(u + 'autocov', autocov, ['the first row is the covariance', 'every lag after the first is computed', 'one row for every lag',
                                      'the loop starts from the covariance of the next states with the variables',
                                      'each lag is the policy applied to the lagged covariance of the states',
                                      'the lagged covariance moves on by the transition', 'an iteration writes no other lag',
                                      'what is returned is what the loop computed']),
        Unit(u + 'autocorr', autocorr, ['autocorrelations are autocovariances over standard deviations']),
        Unit('pynare.stats.stats.ModelStatistics.__getattr__', c23.statistics, [c23.ON, c23.BACK]),
    ]
