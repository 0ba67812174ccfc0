"""sample moments of a simulation: ModelSimulation.corr, autocorr and _drop_simulated_paths of simul.py"""
from pv import eng, arr, load, model
from pv.arr import Lf, Tensor, Lazy, sort, atoms, prove_equal, matmul, tensor, fit, lift, Unsupported
from pv.eng import Unit, zi, SI, SB
from pv.contracts.common import Poison

MODS = ['pynare.simul']
ASSUMES = [
    'real arithmetic in place of floating point; every retained column varies (its variance is not zero)',
    'numpy: mean, var, std, matmul, einsum, outer, divide, slicing and assignment follow their documented meaning '
    '(pv/arr.py, pv/npshim.py); pandas.DataFrame keeps the array and the labels it is given',
]


class Frame:
    def __init__(self, data, index=None, columns=None):
        self.data, self.index, self.columns = data, index, columns

    def __getattr__(self, a):
        raise Unsupported(f'DataFrame.{a}')


class Labels:
    __pv__ = True

    def __getattr__(self, a):
        raise Unsupported(f'names.{a}')


def setup(c, loops=None):
    w = load.World(MODS, loops=loops, glob={'pd': model.Obj(DataFrame=Frame)})
    T, N = sort('T', lo=1), sort('N', lo=1)
    X = atoms('path', [Lf(T), Lf(N)])
    names = Labels()
    sim = object.__new__(w['pynare.simul:ModelSimulation'])
    sim.__dict__.update(model=model.Obj(endog=model.Obj(names=names)), paths=X, shocks=None, periods=T.n)
    drop = SI(eng.z3.Int('drop'))
    return w, sim, X, T, N, drop, names


def kept(X, drop, T):
    r = tensor(X[drop:, :])
    return r, r - arr.mean(r, 0, True)


def call(c, f, drop, T, extra=None):
    """the result, or None when the arguments are rejected"""
    bad = eng.z3.Or(zi(drop) < 0, zi(drop) >= zi(T.n), *([extra] if extra is not None else []))
    try:
        r = f()
    except ValueError:
        c.prove('only impossible drops and lag counts are rejected', bad)
        return None
    c.prove('impossible drops and lag counts are rejected', eng.z3.Not(bad))
    return r


def dropping(c):
    w, sim, X, T, N, drop, names = setup(c)
    r = call(c, lambda: w['pynare.simul:_drop_simulated_paths'](X, drop), drop, T)
    if r is None:
        return
    r = tensor(r)
    c.prove('the periods after the dropped ones are kept', zi(r.shape[0]) == zi(T.n) - zi(drop))
    want = tensor(X[drop:, :])
    prove_equal('the periods after the dropped ones are kept', r, want)


def corr(c):
    w, sim, X, T, N, drop, names = setup(c)
    r = call(c, lambda: sim.corr(drop), drop, T)
    if r is None:
        return
    if not isinstance(r, Frame):
        raise Unsupported('not a table')
    K, C = kept(X, drop, T)
    n = K.axes[0].n
    got = fit(tensor(r.data), [Lf(N), Lf(N)])
    opts = []
    for k in (0, 1):
        S = matmul(C.T, C) / lift(n - k) if k == 0 or c.entails(zi(n) > 1) else None
        if S is None:
            continue
        sd = arr.apply('sqrt', arr.diag(S))
        opts.append(S / arr.outer(sd, sd))
    want = next((o for o in opts if arr.is_zero(got - o)), opts[0])
    prove_equal('covariance over the product of the standard deviations', got, want)
    c.goal('rows and columns carry the names of the variables', r.index is names and r.columns is names)


class LagLoop:
    """loop contract: before each iteration the columns of the lags visited are settled; the iteration for lag k writes
    column k - 1 and nothing else"""

    def __init__(self, c, X, T, N, drop, p):
        self.c, self.X, self.T, self.N, self.drop, self.p, self.used = c, X, T, N, drop, p, 0

    def __call__(self, w, st, what, env):
        c, N = self.c, self.N
        if what == 'enter':
            self.used += 1
            if self.used > 1 or st.it.step != 1:
                raise Unsupported('another loop')
            lo, hi = st.it.lo, st.it.hi
            if c.entails(zi(hi) - zi(lo) > zi(self.p)):
                raise Unsupported('a loop over more than the lags')
            c.prove('every lag is visited', eng.z3.Or(zi(hi) - zi(lo) == zi(self.p), zi(self.p) < 1))
            got = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 2]
            if len(got) != 1:
                raise Unsupported('the loop does not fill one array')
            self.var, = got
            a = env[self.var]
            c.goal('a row for every variable, a column for every lag', arr.same(a.axes[0].n, N.n) and arr.same(a.axes[1].n, self.p))
            for n in st.names:
                if n in env and n != self.var:
                    st.vals[n] = Poison()
            self.A = atoms('ac', [Lf(N), arr.size_axis(self.p)], frozen=False)
            st.vals[self.var] = self.A
            if c.choose(2):
                return
            i = eng.fresh_int('k')
            c.assume(zi(i) >= zi(lo))
            c.assume(zi(i) < zi(hi))
            self.k = i - lo + 1
            st.body, st.item = True, i
            self.was = self.A.copy()
        elif what == 'leave':
            A, k = env[self.var], self.k
            K, C = kept(self.X, self.drop, self.T)
            n = K.axes[0].n
            num = arr.einsum('ij,ij->j', C[k:, :], C[:n - k, :]) / lift(n - k)
            var = arr.einsum('ij,ij->j', C, C) / lift(n)
            prove_equal('the average product k periods apart over the variance', fit(tensor(A[:, k - 1]), [Lf(N)]), num / var)
            ok = True
            for lo, hi in ((0, k - 1), (k, self.p)):
                if not arr.same(lo, hi):
                    a, b = tensor(A[:, lo:hi]), tensor(self.was[:, lo:hi])
                    ok = ok and arr.is_zero(fit(a, b.axes) - b)
            c.goal('a lag writes no other column', ok)


def autocorr(c):
    hold = {}
    w, sim, X, T, N, drop, names = setup(c, loops={'*': lambda *a: hold['h'](*a)})
    p = sort('P')
    c.env['axes'] = [Lf(N), Lf(p)]
    h = hold['h'] = LagLoop(c, X, T, N, drop, p.n)
    r = call(c, lambda: sim.autocorr(p.n, drop), drop, T, zi(p.n) >= zi(T.n) - zi(drop))
    if r is None:
        return
    if not isinstance(r, Frame) or not h.used:
        raise Unsupported('not a table filled by a loop')
    prove_equal('what is reported is what the loop computed', fit(tensor(r.data), h.A.axes), h.A)
    c.goal('rows carry the names of the variables', r.index is names)


def units():
    u = 'pynare.simul.'
    rej = ['only impossible drops and lag counts are rejected', 'impossible drops and lag counts are rejected']
    return [
        Unit(u + '_drop_simulated_paths', dropping, rej + ['the periods after the dropped ones are kept']),
        Unit(u + 'ModelSimulation.corr', corr, rej + ['covariance over the product of the standard deviations',
                                                      'rows and columns carry the names of the variables']),
        Unit(u + 'ModelSimulation.autocorr', autocorr, rej + [
            'every lag is visited', 'a row for every variable, a column for every lag',
            'the average product k periods apart over the variance', 'a lag writes no other column',
            'what is reported is what the loop computed', 'rows carry the names of the variables']),
    ]
