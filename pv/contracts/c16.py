"""variance decomposition: stats/var.py"""
from pv import eng, arr, load, model
from pv.arr import (Lf, Cat, Tensor, Lazy, Ix, sort, atoms, prove_equal, matmul, tensor, fit, Unsupported)
from pv.eng import Unit, zi, SI, SB, z3
from pv.contracts import common, c15
from pv.contracts.common import Poison, setup

MODS = common.MODS + ['pynare.stats.var']
ASSUMES = [
    'real arithmetic in place of floating point; the variance of a shock is positive (the factorisation adds 1e-12 to it)',
    'numpy/scipy: matmul, diag, outer, sum, divide, absolute, where, ix_, indexing and assignment follow their documented meaning '
    '(pv/arr.py, pv/npshim.py); cholesky(lower=True) is the lower triangular factor; solve_discrete_lyapunov(A, Q) returns the X '
    'with X = A X A\' + Q',
    'the policy arrays and sigma are arbitrary arrays of the model\'s sizes; kalman_transition holds the policy of the states (its '
    'contract is discharged under C15); at least one state and one shock',
    'the matrix V_i that solves V = A V A\' + b b\' for a stable A is positive semidefinite',
]


class Shares:
    """loop contract: before the i-th iteration the columns before i are settled; the iteration writes column i, the
    contribution of the i-th orthogonalised shock, and nothing else"""

    def __init__(self, c, m, d):
        self.c, self.m, self.d, self.used = c, m, d, 0

    def contribution(self, i):
        """diagonal of the covariance when only the i-th orthogonalised shock moves"""
        c, m, d = self.c, self.m, self.d
        reg = c.env.get('cholesky', [])
        U = Lf(d.E)
        low = None
        for a, l in reg:
            diff = fit(a, [U, U]) - m.sigma
            for tol in (0, 1e-12):
                if arr.is_zero(diff - arr.eye(U).scale(arr_fraction(tol))):
                    low = fit(l, [U, U])
        if low is None:
            raise Unsupported('no factor of sigma')
        col = tensor(low[:, i])
        s = c15.rows(matmul(m.gu, arr.expand(col, 1)), d)
        s = tensor(s[:, 0])
        q = arr.outer(s, s)
        lyap = [x for a, b, x in c.env.get('lyapunov', []) if same_as(a, m.statespace.A, d) and same_as(b, q, d)]
        if not lyap:
            raise Unsupported('the variance that one shock causes is not the solution of its Lyapunov equation')
        V = fit(lyap[0], [d.state, d.state])
        h = matmul(m.gu, col)
        return c15.dc(arr.diag(matmul(m.gy, matmul(V, m.gy.T)) + arr.outer(h, h)), d)

    def __call__(self, w, st, what, env):
        c, m, d = self.c, self.m, self.d
        if what == 'enter':
            self.used += 1
            if self.used > 1 or st.it.step != 1:
                raise Unsupported('another loop')
            lo, hi = st.it.lo, st.it.hi
            if c.entails(zi(hi) - zi(lo) > zi(d.E.n)):
                raise Unsupported('a loop over more than the shocks')
            c.prove('every shock is visited', zi(hi) - zi(lo) == zi(d.E.n))
            got = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 2]
            if len(got) != 1:
                raise Unsupported('the loop does not fill one array')
            self.var, = got
            a = env[self.var]
            c.goal('one row for every variable, one column for every shock', arr.same(a.axes[0].n, d.n) and arr.same(a.axes[1].n, d.E.n))
            for n in st.names:
                if n in env and n != self.var:
                    st.vals[n] = Poison()
            self.D = atoms('D', [d.dc, Lf(d.E)], frozen=False)
            st.vals[self.var] = self.D
            if c.choose(2):
                return
            i = eng.fresh_int('i')
            c.assume(zi(i) >= zi(lo))
            c.assume(zi(i) < zi(hi))
            self.k = i - lo
            st.body, st.item = True, i
            self.was = self.D.copy()
        elif what == 'leave':
            D = env[self.var]
            got = fit(tensor(D[:, self.k]), [d.dc])
            want = self.contribution(self.k)
            if arr.is_zero(got - want):
                want = got
            else:
                want = arr.apply('abs', want)
            prove_equal('a column is the variance that its shock causes', got, want)
            ok = True
            for lo, hi in ((0, self.k), (self.k + 1, d.E.n)):
                if not arr.same(lo, hi):
                    a, b = tensor(D[:, lo:hi]), tensor(self.was[:, lo:hi])
                    ok = ok and arr.is_zero(fit(a, b.axes) - b)
            c.goal('an iteration writes no other column', ok)


def arr_fraction(x):
    from fractions import Fraction
    return Fraction(x)


def same_as(a, b, d):
    try:
        return arr.is_zero(fit(a, b.axes) - b)
    except (Unsupported, arr.ShapeError):
        return False


def decomposition(c):
    calls = []
    rec = lambda md, shares, endog=None, stoch=None: calls.append((md, shares, endog, stoch)) or 'selected'
    w, d, m, hold = c15.ready(c, MODS, contracts={'pynare.stats.var:_select_shares': rec})
    h = hold['h'] = Shares(c, m, d)
    names = c.choose(2)
    a, b = ('en', 'sn') if names else (None, None)
    r = w['pynare.stats.var:var_decomp'](m, endog=a, stoch=b) if names else w['pynare.stats.var:var_decomp'](m)
    if len(calls) == 1:
        md, shares, en, sn = calls[0]
        c.goal('the names asked for reach the selection', md is m and en is a and sn is b and r == 'selected')
    else:
        raise Unsupported('the selection of names is not made by _select_shares')
    shares = fit(tensor(shares), [d.dc, Lf(d.E)])
    if not h.used:
        # without a loop there is a single shock, to which all of the variance is due
        one = Tensor([d.dc, Lf(d.E)], {})
        one = one + tensor(1)
        c.prove('all of the variance is due to a single shock', zi(d.E.n) == 1)
        prove_equal('all of the variance is due to a single shock', shares, one)
        return
    total = arr.expand(arr.sum_(h.D, 1), 1)
    prove_equal('shares are contributions over their sum', shares, h.D / total)


# ---------------------------------------------------------------- selection by name
class Name:
    __pv__ = True

    def __init__(self, tag, known):
        self.tag, self.known = tag, known

    def __str__(self):
        return self.tag
    __format__ = lambda self, s: self.tag


class Hit:
    """names == a name: true at its position, or nowhere"""
    __pv__ = True

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def pv_where(self):
        return (self,)

    def item(self):
        if not self.name.known(self.kind):
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return Pos(self.kind, self.name)

    def __getitem__(self, i):
        if i == 0:
            if not self.name.known(self.kind):
                raise IndexError('index 0 is out of bounds')
            return Pos(self.kind, self.name)
        raise Unsupported('position')

    @property
    def size(self):
        return 1 if self.name.known(self.kind) else 0

    def any(self):
        return self.name.known(self.kind)

    def __bool__(self):
        raise Unsupported('truth value of a comparison of names')


class Pos:
    __pv__ = True

    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class NameArr:
    __pv__ = True

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        if isinstance(o, Name):
            return Hit(self.kind, o)
        raise Unsupported('comparison of names')
    __hash__ = None

    def __getattr__(self, a):
        raise Unsupported(f'names.{a}')


class NameList:
    """a list of names of any length"""
    __pv__ = True

    def __init__(self, kind, c):
        self.kind, self.c = kind, c
        self.n = eng.fresh_int('len_' + kind, 1)
        self.name = Name('an element of ' + kind, lambda k: self.ok(k))
        self.state = None

    def ok(self, k):
        if self.state is None:
            self.state = self.c.choose(2) == 0
        return self.state and k == self.kind

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.n

    def __iter__(self):
        raise Unsupported('iteration over a list of unknown length')


class PosList:
    """the positions of the names of a list, in its order"""
    __pv__ = True

    def __init__(self, names):
        self.names, self.kind = names, names.kind

    def __bool__(self):
        return True

    def __pv_len__(self):
        return self.names.n


class Table:
    """the full table, recording what is selected from it"""
    __pv__ = True
    ndim = 2

    def __init__(self, rows=None, cols=None):
        self.rows, self.cols = rows, cols

    def __getitem__(self, ix):
        full = slice(None)
        if isinstance(ix, Ix):
            a, b = ix.parts
        elif isinstance(ix, tuple):
            if len(ix) == 1:
                a, b = ix[0], full
            else:
                a, b = ix
                if not any(isinstance(x, slice) and x == full for x in (a, b)):
                    raise Unsupported('paired selection')
        else:
            a, b = ix, full
        r = Table(self.rows, self.cols)
        for k, x in (('rows', a), ('cols', b)):
            if isinstance(x, slice):
                if x != full:
                    raise Unsupported('a slice of the table')
                continue
            if getattr(r, k) is not None:
                raise Unsupported('selected twice')
            setattr(r, k, x)
        return r


class Positions:
    """loop contract: before each iteration the list holds the positions of the names visited so far; the iteration appends
    the position of its name, or raises for a name that is unknown"""

    def __init__(self, c):
        self.c = c

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            if not isinstance(st.it, NameList):
                raise Unsupported('a loop over something else')
            lists = [n for n in st.names if isinstance(env.get(n), list)]
            lists = [n for n in lists if not any(isinstance(x, Pos) for x in env[n])]
            if len(lists) != 1:
                raise Unsupported('the loop does not fill one list')
            st.var, = lists
            c.goal('positions start from nothing', env[st.var] == [], strict=False)
            for n in st.names:
                if n in env and n != st.var:
                    st.vals[n] = Poison()
            if c.choose(2):
                st.it.name.known = lambda k: k == st.it.kind
                st.vals[st.var] = PosList(st.it)
                return
            st.vals[st.var] = st.list = []
            st.body, st.item = True, st.it.name
        elif what == 'leave':
            l = env[st.var]
            ok = isinstance(l, list) and len(l) == 1 and isinstance(l[0], Pos) and l[0].name is st.it.name and l[0].kind == st.it.kind
            c.goal('a name adds its position, in the order asked for', ok)


def selection(c):
    hold = {}

    def ensure_list(x):
        return [x] if isinstance(x, Name) else x
    w = load.World(MODS, loops={'*': lambda *a: hold['h'](*a)}, glob={'ensure_list': ensure_list})
    hold['h'] = Positions(c)
    table = Table()
    md = model.Obj(endog=model.Obj(names=NameArr('endog')), stoch=model.Obj(names=NameArr('stoch')))
    args = []
    unknown = []
    for kind in ('endog', 'stoch'):
        how = c.choose(4)
        if how == 0:
            args.append(None)
        elif how == 3:
            args.append(NameList(kind, c))
        else:
            args.append(Name('a name of ' + kind, (lambda k, kind=kind: k == kind) if how == 1 else (lambda k: False)))
            if how == 2:
                unknown.append(args[-1])
    lists = [a for a in args if isinstance(a, NameList)]
    bad = lambda: bool(unknown) or any(x.state is False for x in lists)
    try:
        r = w['pynare.stats.var:_select_shares'](md, table, *args)
    except ValueError:
        c.goal('only unknown names are rejected', bad())
        return
    c.goal('unknown names are rejected', not bad())
    if not isinstance(r, Table):
        c.goal('exactly the rows and columns asked for, in their order', False, detail=f'{type(r).__name__} is returned')
        return

    def match(sel, arg):
        if arg is None:
            return sel is None
        if isinstance(arg, Name):
            return isinstance(sel, list) and len(sel) == 1 and isinstance(sel[0], Pos) and sel[0].name is arg
        return isinstance(sel, PosList) and sel.names is arg
    c.goal('exactly the rows and columns asked for, in their order', match(r.rows, args[0]) and match(r.cols, args[1]))


def rows(c):
    """lemma over the contracts above: contributions are not negative, and the shares of a row sum to one"""
    R, I = z3.RealSort(), z3.IntSort()
    q, h = z3.Real('quadratic_form'), z3.Real('impact')
    x = q + h * h
    c.assume(q >= 0)                        # g V g' for a positive semidefinite V
    c.prove('a contribution is not negative, and its own absolute value', z3.And(x >= 0, z3.If(x >= 0, x, -x) == x))
    d, upto, shares = (z3.Function(f, I, R) for f in ('contribution', 'contributions_before', 'shares_before'))
    n, k = eng.fresh_int('shocks', 1), eng.fresh_int('k', 0)
    total = z3.Real('total')
    c.assume(total != 0)
    c.assume(z3.And(upto(0) == 0, shares(0) == 0))
    step = 'the shares before a column are the contributions before it over their sum'
    c.prove(step, shares(0) == upto(0) / total)
    if c.choose(2):
        c.assume(z3.And(shares(zi(k)) == upto(zi(k)) / total, upto(zi(k) + 1) == upto(zi(k)) + d(zi(k)),
                        shares(zi(k) + 1) == shares(zi(k)) + d(zi(k)) / total))
        c.prove(step, shares(zi(k) + 1) == upto(zi(k) + 1) / total)
    else:
        c.assume(z3.And(shares(zi(n)) == upto(zi(n)) / total, upto(zi(n)) == total))
        c.prove('the shares of a row sum to one, when its variance is not zero', shares(zi(n)) == 1)


def units():
    return [
        Unit('pynare.stats.var.var_decomp', decomposition,
             ['every shock is visited', 'a column is the variance that its shock causes', 'an iteration writes no other column',
              'one row for every variable, one column for every shock', 'shares are contributions over their sum',
              'all of the variance is due to a single shock', 'the names asked for reach the selection']),
        Unit('pynare.stats.var._select_shares', selection,
             ['only unknown names are rejected', 'unknown names are rejected', 'exactly the rows and columns asked for, in their order',
              'a name adds its position, in the order asked for']),
        Unit('pynare.stats.var.var_decomp (lemma)', rows, ['a contribution is not negative, and its own absolute value',
             'the shares before a column are the contributions before it over their sum',
             'the shares of a row sum to one, when its variance is not zero']),
    ]
