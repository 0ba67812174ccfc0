"""simulation: simul.py.  The loop over the periods is cut at the invariant 'the rows written so far follow the policy'."""
import functools
from pv import eng, arr, load, model
from pv.arr import (Lf, Cat, Prod, Tensor, Lazy, sort, atoms, fact, prove_equal, prove_zero, matmul, kron, tensor, fit, Unsupported)
from pv.eng import Unit, zi, SI, SB
from pv.contracts import common
from pv.contracts.common import Poison, Stub, Names, setup

MODS = common.MODS + ['pynare.simul']
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy/scipy: dot, matmul, kron, zeros, transpose, indexing and assignment follow their documented meaning '
    '(pv/arr.py, pv/npshim.py); scipy.linalg.cholesky returns the upper factor U with U\'U the matrix, numpy.random.normal '
    'independent standard normal draws',
    'the policy arrays, the steady state, the shocks and sigma are arbitrary arrays of the model\'s sizes (their own contracts: '
    'C09, C11, C21, C08); at least one state and one shock',
    'Model.solve returns the solution of the order it is asked for and stores it; Model.update only refreshes the calibration',
]


class Paths:
    """the loop contract: the only array carried is the path (its first axis has the length T); at the top of the iteration
    that is the k-th one, rows 0..k are settled; the iteration writes row k+1 = policy(row k) and nothing else"""

    def __init__(self, c, m, d, T, order, E, first):
        self.c, self.m, self.d, self.T, self.order, self.E, self.first = c, m, d, T, order, E, first
        self.used = 0

    def row(self, t, k):
        return fit(tensor(t[k, :]), [self.d.dc]) + self.shift

    def __call__(self, w, st, what, env):
        c, d, T = self.c, self.d, self.T.n
        if what == 'enter':
            self.used += 1
            if self.used > 1:
                raise Unsupported('a second loop')
            lo, hi, step = st.it.lo, st.it.hi, st.it.step
            if step != 1:
                raise Unsupported('loop direction')
            if c.entails(zi(hi) - zi(lo) >= zi(T)):
                raise Unsupported('a loop over more than the periods after the first')
            c.prove('every period after the first is computed', zi(hi) - zi(lo) == zi(T) - 1)
            got = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 2
                   and arr.same(env[n].axes[0].n, T) and arr.same(env[n].axes[1].n, d.n)]
            if len(got) != 1:
                raise Unsupported(f'the path is not the only array that the loop fills: {got}')
            self.var, = got
            p = env[self.var]
            r0 = fit(tensor(p[0, :]), [d.dc])
            # a copy of the row before may be carried along
            self.carried = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 1
                            and arr.same(env[n].axes[0].n, d.n) and arr.is_zero(fit(tensor(env[n]), [d.dc]) - r0)]
            for n in st.names:
                if n in env and n != self.var:
                    st.vals[n] = Poison()
            # the path is kept in levels or in deviations from the steady state
            self.shift = Tensor([d.dc], {}) if arr.is_zero(r0 - self.first) else self.m.ssv
            prove_equal('the first row is the initial point', r0 + self.shift, self.first)
            st.vals[self.var] = P = atoms('path', [Lf(self.T), d.dc], frozen=False)
            if c.choose(2):
                # after the loop
                self.P = P
                return
            i = eng.fresh_int('i')
            c.assume(zi(i) >= zi(lo))
            c.assume(zi(i) < zi(hi))
            k = i - lo
            # the rows not yet reached are as they were
            ps = []
            try:
                ps = [P[:k + 1, :], tensor(p[k + 1:, :])]
                P = arr.concatenate([x for x in ps if not arr.same(x.axes[0].n, 0)], 0)
            except Unsupported:
                pass
            st.vals[self.var] = P
            for n in self.carried:
                st.vals[n] = fit(tensor(P[k, :]), [d.dc]).copy()
            st.body, st.item = True, i
            self.k, self.was = k, P.copy()
        elif what == 'leave':
            k, P0 = self.k, self.was
            P = env[self.var]
            if P.ndim != 2 or not all(arr.same(a, b) for a, b in zip(P.shape, P0.shape)):
                raise Unsupported('the path changes size')
            for n in self.carried:
                if not isinstance(env[n], (Tensor, Lazy)) or not arr.is_zero(fit(tensor(env[n]), [d.dc]) - fit(tensor(P[k + 1, :]), [d.dc])):
                    raise Unsupported('a value carried along that is not the row before')
            want = self.m.policy(self.order, self.row(P0, k), self.E(k))
            prove_equal('each row is the policy at the row before and its shocks', self.row(P, k + 1), want)
            ok = True
            for lo, hi in ((0, k + 1), (k + 2, T)):
                if not arr.same(lo, hi):
                    a, b = tensor(P[lo:hi, :]), tensor(P0[lo:hi, :])
                    ok = ok and arr.is_zero(fit(a, b.axes) - b)
            c.goal('a period changes no other row', ok)


def factor(c, m, d):
    """the factor that scales the shocks: the Cholesky factor of sigma"""
    reg = [x for x in c.env.get('cholesky', ()) if arr.alike(x[0], m.sigma)]
    return tensor(reg[0][-1]) if reg else None


def expectations(c, m, d, shocks):
    """innovations of period t: K s_t with K K' = sigma, K the lower factor"""
    def at(t):
        L = factor(c, m, d)
        if L is None:
            raise Unsupported('the shocks are not scaled by the Cholesky factor of sigma')
        return matmul(L, fit(tensor(shocks[t, :]), [Lf(d.E)]))
    return at


def simulate(c, kind=0):
    w, d, m, hold = setup(c, MODS)
    T = sort('T', lo=1)
    c.env['axes'] = [Lf(T), d.dc, Lf(d.E)]
    f = w['pynare.simul:simulate']
    # (solution at hand, order asked for, order that applies)
    has, ask, order = [(1, 0, 1), (2, 0, 2), (None, 0, 2), (2, 1, 1), (1, 2, 2)][kind]
    if has:
        m._solution = m.make(has)
    given = c.choose(2) == 0
    init = atoms('init', [d.dc]) if given else None
    first = init if given else m.ssv
    kw = {'order': ask} if ask else {}
    if given:
        kw['init'] = init
    how = c.choose(3)
    if how == 0:
        S = atoms('shock', [Lf(T), Lf(d.E)])
        kw['shocks'] = S
    elif how == 1:
        # one shock: a plain list of its values
        c.assume(zi(d.E.n) == 1)
        S1 = atoms('shock', [Lf(T)])
        kw['shocks'] = S1
        S = fit(arr.expand(S1, 1), [Lf(T), Lf(d.E)])
    else:
        S = None
        kw['periods'] = T.n
    src = lambda: S if S is not None else fit(tensor(noise(c)), [Lf(T), Lf(d.E)])
    at = lambda t: expectations(c, m, d, src())(t)
    hold['h'] = h = Paths(c, m, d, T, order, at, first)
    r = f(m, **kw)
    P = tensor(r.paths)
    c.prove('one row for every period of shocks', zi(P.shape[0]) == zi(T.n))
    c.prove('one row for every period of shocks', zi(r.periods) == zi(T.n))
    c.goal('the order requested is the one used', arr_order(r) == order and (not ask or m.calls == [ask]) and (ask or bool(has) or m.calls))
    if not h.used:
        raise Unsupported('the path is not built by a loop over the periods')
    P = fit(P, [Lf(T), d.dc])
    prove_equal('the simulation keeps the path that was computed', P, h.P + h.shift if h.shift.blocks else h.P)
    scaled = matmul(src(), tensor(factor(c, m, d)).T)
    prove_equal('the scaled shocks are reported', fit(tensor(r.shocks), scaled.axes), scaled)
    c.goal('the calibration is brought up to date first', m.updates >= 1, strict=False)


def noise(c):
    reg = c.env.get('noise', [])
    if len(reg) != 1:
        raise Unsupported('random draws')
    return reg[0]


def arr_order(r):
    return getattr(r, 'order', None)


GOALS = ['the first row is the initial point', 'every period after the first is computed',
         'each row is the policy at the row before and its shocks', 'a period changes no other row',
         'one row for every period of shocks', 'the order requested is the one used',
         'the simulation keeps the path that was computed', 'the scaled shocks are reported']
KINDS = ['first order', 'second order', 'default order', 'first order over second', 'second order over first']


def units():
    return [Unit('pynare.simul.simulate', functools.partial(simulate, kind=k), GOALS, name=f'simulate, {n}') for k, n in enumerate(KINDS)]
