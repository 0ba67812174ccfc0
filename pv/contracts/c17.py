"""Occasionally binding constraints: core/solve/binding.py.

The hypothesised path: the backward recursion is cut at the invariant 'the decision rule of every later constrained period
solves that period's regime', the forward recursion at 'every row follows from the one before by that rule'; together with the
algebra of the rules they give the equations of the regime in force at an arbitrary period.  The solver: the guess-and-verify
iteration is cut at its invariant; when it ends without a warning the regime assignment is consistent with the constraints."""
import functools
from pv import eng, load, poly
from pv.contracts.common import Poison
from pv.eng import Unit, Unsupported, PathEnd, SI, SB, zi
from pv.poly import Poly, Scal, atom, lift, mul, squeeze
from pv.seqs import Seq
from pv.tree import RV, rv, SymEnum
z3 = eng.z3

LEVEL = 'proof'
BIND = 'pynare.core.solve.binding'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy/scipy: dot, matmul, squeeze, zeros, append, indexing and assignment follow their documented meaning; linalg.inv and '
    'linalg.solve return the solution of a nonsingular system (a singular one raises)',
    'a warning means no claim about the search of that period; the periods with shocks fit the horizon; at least one state and one shock; '
    'named shocks are distinct',
    'conditions are evaluated by pynare.parsing.evaluate (contract under C01), regimes by their dynamic representation (C03) and its '
    'derivatives (C07); variables and parameters have distinct names (C18); regimes are made under C19',
    'numpy: where, zeros, item and size follow their documented meaning (positions of names, pv/contracts/vararr.py)',
]


class Shut:
    __pv__ = True
    __array_ufunc__ = None

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {type(self).__name__}')

    def _no(self, *a):
        raise Unsupported(f'an operation on {type(self).__name__}')
    __iter__ = __bool__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __mul__ = __sub__ = __neg__ = __lt__ = __gt__ = __eq__ = _no
    __hash__ = None


def same(a, b):
    return eng.CUR.entails(zi(a) == zi(b))


# ---------------------------------------------------------------- arrays filled slice by slice
class Fam(Shut):
    """an array of unknown size that is filled slice by slice along one axis"""

    def __init__(self, shape, n):
        self.shape, self.n, self.axis = tuple(shape), n, None
        self.writes, self.base = [], None

    @property
    def ndim(self):
        return len(self.shape)

    def __pv_len__(self):
        return self.shape[0]

    def part(self, k):
        """the position along the axis that an index stands for"""
        k = k if isinstance(k, tuple) else (k,)
        at = [(a, x) for a, x in enumerate(k) if not (isinstance(x, slice) and x == slice(None))]
        if len(at) != 1 or not eng.isint(at[0][1]) or len(k) > len(self.shape):
            raise Unsupported('part of an array')
        a, x = at[0]
        if self.axis is None:
            self.axis = a
        if a != self.axis:
            raise Unsupported('a slice along another axis')
        if isinstance(x, int) and x < 0:
            x = self.shape[a] + x
        eng.CUR.prove('periods lie within the arrays', z3.And(zi(x) >= 0, zi(x) < zi(self.shape[a])))
        return x

    @property
    def rest(self):
        tags = ['n' if same(s, self.n) else '?' for a, s in enumerate(self.shape) if a != self.axis]
        return tuple(tags) if len(tags) == 2 else (tags[0], None)

    def __setitem__(self, k, v):
        k = self.part(k)
        v = lift(v)
        if isinstance(v, int) and v == 0 or isinstance(v, float) and v == 0:
            v = poly.zero(*self.rest)
        if not isinstance(v, Poly) or (v.rows, v.cols) != self.rest:
            raise Unsupported('the value of a slice')
        self.writes.append((k, v))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return View(self, k)
        return self.at(self.part(k))

    def at(self, k):
        for j, v in self.writes[::-1]:
            if eng.CUR.decide(zi(k) == zi(j)):
                return v
        if self.base is None:
            return poly.zero(*self.rest)
        return self.base(k)

    def size(self):
        return self.shape[self.axis]


class View(Shut):
    """the rows of an array from some position on"""

    def __init__(self, f, s):
        if s.step is not None or s.stop is not None or f.axis not in (0, None):
            raise Unsupported('part of an array')
        self.f, self.lo = f, s.start or 0
        self.n = f.shape[0] - self.lo

    def at(self, k):
        return self.f.at(k + self.lo)

    def __getitem__(self, k):
        if isinstance(k, slice) or not eng.isint(k):
            raise Unsupported('part of a path')
        return self.at(k if not (isinstance(k, int) and k < 0) else self.n + k)

    def __pv_len__(self):
        return self.n


class Innov(Shut):
    """a vector of numbers, entry by entry"""

    def __init__(self, n, a=None):
        self.n, self.a, self.log = n, a if a is not None else z3.K(I, z3.RealVal(0)), []

    def __pv_len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    ndim = 1

    def __setitem__(self, k, v):
        if isinstance(k, Late):
            k = k.get()
        if not eng.isint(k):
            raise Unsupported('the entries set')
        if isinstance(k, int) and k < 0:
            k = self.n + k
        c = eng.CUR
        c.prove('the shocked positions exist', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        x = rv(v.get() if isinstance(v, Late) else v)
        if x is None:
            raise Unsupported('the value of a shock')
        self.a = z3.Store(self.a, zi(k), x)
        self.log.append('set')

    def __getitem__(self, k):
        if not eng.isint(k):
            raise Unsupported('entries of the shocks')
        return RV(z3.Select(self.a, zi(k)))

    def item(self, *a):
        if a:
            raise Unsupported('item')
        if eng.CUR.decide(zi(self.n) == 1):
            return One(self)
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def tag(self):
        if z3.eq(z3.simplify(self.a), z3.simplify(z3.K(I, z3.RealVal(0)))):
            return poly.zero('n' if same(self.n, eng.CUR.env['n']) else 'e')
        spec = eng.CUR.env['shocks']
        spec(self)
        return atom('u', 'e')

    def poly(self):
        return self.tag()

    def __add__(self, o): return self.poly() + o
    __radd__ = __add__
    def __neg__(self): return -self.poly()
    def __sub__(self, o): return self.poly() - o
    def __rsub__(self, o): return o - self.poly()


class One(Shut):
    """the only entry of a vector"""

    def __init__(self, v):
        self.v = v

    def poly(self):
        return Scal(self.v.poly().t)


class Np:
    """the parts of numpy that the hypothesised path uses"""
    float64 = float

    def __init__(self, c, n, e):
        self.c, self.n, self.e = c, n, e

    def zeros(self, shape, dtype=float):
        if dtype is not float:
            raise Unsupported('zeros')
        if not isinstance(shape, tuple):
            shape = (shape,)
        if len(shape) == 1:
            return Innov(shape[0])
        return Fam(shape, self.n)

    def empty(self, shape, dtype=float):
        raise Unsupported('empty')

    def zeros_like(self, x, dtype=float):
        x = lift(x)
        if not isinstance(x, Poly):
            raise Unsupported('zeros_like')
        return poly.zero(x.rows, x.cols)

    def matmul(self, a, b):
        return mul(a, b)

    def dot(self, a, b):
        return mul(a, b, True)

    def squeeze(self, x, axis=None):
        if axis is not None:
            raise Unsupported('squeeze')
        if isinstance(x, (Scal, RV)):
            return x
        if isinstance(x, Late):
            x = x.get()
        if isinstance(x, (Scal, RV)):
            return x
        if isinstance(x, Vec1):
            return x.v
        return squeeze(x)

    def ravel(self, x):
        return squeeze(x)

    def add(self, a, b):
        return lift(a) + lift(b)

    def subtract(self, a, b):
        return lift(a) - lift(b)

    def negative(self, a):
        return -lift(a)

    def amax(self, x):
        return self._most(x)
    max = amax

    def maximum(self, a, b):
        return self._most((a, b))

    def _most(self, x):
        x = tuple(x)
        if not all(eng.isint(i) for i in x):
            raise Unsupported('amax')
        r = x[0]
        for y in x[1:]:
            r = SI(z3.If(zi(r) >= zi(y), zi(r), zi(y)))
        return r

    def __getattr__(self, a):
        raise Unsupported(f'np.{a} is not under contract here')


class Linalg:
    def inv(self, m, **k):
        return poly.inverse(lift(m))

    def solve(self, m, b, **k):
        return poly.solve(lift(m), lift(b))

    def __getattr__(self, a):
        raise Unsupported(f'linalg.{a} is not under contract here')


class Vec1(Shut):
    """a row of shocks with one entry"""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        if k in (0, -1):
            return self.v
        raise Unsupported('the entries of a shock')


class Flags(Shut):
    """which regime is guessed, period by period"""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __pv_len__(self):
        return self.n

    def __getitem__(self, k):
        if not eng.isint(k):
            raise Unsupported('part of the regimes')
        if isinstance(k, int) and k < 0:
            k = self.n + k
        eng.CUR.prove('periods lie within the arrays', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        return SB(self.f(zi(k)))


class Starts(Shut):
    """the periods in which a regime starts; only the last one is used"""

    def __init__(self, last):
        self.last = last

    def __getitem__(self, k):
        if isinstance(k, int) and k == -1:
            return self.last
        raise Unsupported('the regimes before the last')


# ---------------------------------------------------------------- the hypothesised path
class World:
    """inputs of the function, the regime of a period, and the rules in force"""

    def __init__(self, c, two):
        self.c, self.two = c, two
        self.n, self.e = eng.fresh_int('variables', 1), eng.fresh_int('shocks', 1)
        c.env['n'] = self.n
        self.T = eng.fresh_int('periods', 1)
        if c.decide(zi(self.e) == 1):
            c.env['one_shock'] = True
        self.one = bool(c.env.get('one_shock'))
        self.gy, self.gu = atom('gy', 'n', 'n'), atom('gu', 'n', None if self.one else 'e')
        self.regimes = range(4 if two else 2)
        self.M = {r: tuple(atom(f'{x}{r}', 'n', 'n') for x in 'ABC') + (atom(f'E{r}', 'n', 'e'), atom(f'D{r}', 'n') if r else poly.zero('n'))
                  for r in self.regimes}
        self.bound = [z3.Function(f'bound{q}', I, B) for q in range(2 if two else 1)]
        # where the last constrained period is, for each constraint: the contract of _locate_regime_changes
        self.starts = []
        for q, f in enumerate(self.bound):
            s = eng.fresh_int(f'start{q}', 0)
            c.assume(zi(s) <= zi(self.T))
            c.assume(z3.Implies(zi(s) > 0, f(zi(s) - 1)))
            self.starts.append(s)
        L = self.starts[0]
        for s in self.starts[1:]:
            L = SI(z3.If(zi(L) >= zi(s), zi(L), zi(s)))
        self.last = L - 1
        self.init = atom('init', 'n')
        self.rules = None

    def flag(self, q, k):
        # no constraint binds from the last change of regime on
        k, f = zi(k), self.bound[q]
        self.c.assume(z3.Implies(z3.And(k >= zi(self.starts[q]), k <= zi(self.T)), z3.Not(f(k))))
        return f(k)

    def regime(self, k):
        b = [self.c.decide(self.flag(q, k)) for q in range(len(self.bound))]
        return sum(1 << q for q, x in enumerate(b) if x)

    def shape_gu(self):
        return (self.n,) if self.one else (self.n, self.e)


class Gu(Poly):
    """the response to shocks: a vector when there is one shock"""

    @property
    def shape(self):
        return (eng.CUR.env['n'],) if self.cols is None else (eng.CUR.env['n'], eng.CUR.env['e'])

    def __pv_len__(self):
        return eng.CUR.env['n']


class Loops:
    """the invariants"""

    def __init__(self, c, v):
        self.c, self.v = c, v
        self.P = self.D = self.H = None
        self.seen = []

    def rule(self, k):
        """the decision rule of period k once it is settled: (P_k, D_k)"""
        return (self.P.at(k), self.D.at(k))

    def continuation(self, k, P, D):
        v = self.v
        if self.c.decide(zi(k) >= zi(v.last)):
            return v.gy, poly.zero('n')
        return P.at(k + 1), D.at(k + 1)

    def equations(self, k, P, D):
        """M P_k + C and M D_k + A D_{k+1} + D of the regime of period k, M = A P_{k+1} + B"""
        A, Bm, C, E, const = self.v.M[self.v.regime(k)]
        Pn, Dn = self.continuation(k, P, D)
        return mul(A, Pn) + Bm, C, mul(A, Dn) + const

    def settle(self, k, P, D):
        """the claim at period k, for the values in the arrays"""
        M, r1, r2 = self.equations(k, P, D)
        poly.prove_zero('the rule of every constrained period solves its regime given the rule after it', mul(M, P.at(k)) + r1)
        poly.prove_zero('the constant of every constrained period solves its regime given the one after it', mul(M, D.at(k)) + r2)

    def assume(self, lo):
        """the rules of the periods after lo, up to the last constrained one, are settled"""
        v, c = self.v, self.c

        def base(which, name, rows, cols):
            def at(k):
                ok = c.decide(z3.And(zi(k) > zi(lo), zi(k) <= zi(v.last)))
                if not ok:
                    return atom(name + '?', rows, cols, k)

                def define():
                    M, r1, r2 = self.equations(k, self.P, self.D)
                    return M, (r1 if which == 0 else r2)
                return atom(name, rows, cols, k, define)
            return at
        self.P.base, self.D.base = base(0, 'P', 'n', 'n'), base(1, 'D', 'n', None)
        self.P.writes, self.D.writes = [], []

    def __call__(self, w, st, what, env):
        c, v = self.c, self.v
        if what == 'enter':
            fam = [n for n in st.names if isinstance(env.get(n), Fam)]
            inn = [n for n in st.names if isinstance(env.get(n), Innov)]
            for n in st.names:
                if n in env and n not in fam + inn:
                    st.vals[n] = Poison()
            if inn and not fam:
                return self.shocks(st, env, inn)
            if not isinstance(st.it.lo, (int, SI)):
                raise Unsupported('loop')
            if st.it.step == -1 and len(fam) == 2:
                return self.backward(st, env, fam)
            if st.it.step == 1 and len(fam) == 1:
                return self.forward(st, env, fam)
            raise Unsupported('a loop over other things')
        getattr(self, what + '_' + st.kind)(st, env)

    # the decision rules, last period first
    def backward(self, st, env, fam):
        c, v = self.c, self.v
        if 'backward' in self.seen:
            raise Unsupported('a second loop over the rules')
        self.seen.append('backward')
        st.kind = 'backward'
        for n in fam:
            if env[n].rest[1] is None:
                self.D, self.dn = env[n], n
            else:
                self.P, self.pn = env[n], n
        lo, hi = st.it.lo, st.it.hi
        if self.P is None or self.D is None or not same(lo, v.last - 1):
            raise Unsupported('the rules are not built from the last constrained period on')
        c.prove('every constrained period has a rule', zi(hi) == -1)
        self.settle(v.last, self.P, self.D)
        how = c.choose(3)
        if how == 0:
            # no further constrained period
            c.assume(zi(lo) <= zi(hi))
            return
        if how == 1:
            i = eng.fresh_int('i')
            c.assume(z3.And(zi(i) <= zi(lo), zi(i) > zi(hi)))
        else:
            c.assume(zi(lo) > zi(hi))
            i = hi + 1
            st.peel = True
        self.assume(i)
        st.body, st.item, self.i = True, i, i

    def frame(self, k, *fs):
        ok = all(same(j, k) for f in fs for j, _ in f.writes)
        self.c.goal('an iteration writes its own period only', ok, strict=False)
        if not ok:
            raise Unsupported('another period is written')

    def peeled_backward(self, st, env):
        self.P, self.D = env[self.pn], env[self.dn]
        self.frame(self.i, self.P, self.D)

    def leave_backward(self, st, env):
        P, D = env[self.pn], env[self.dn]
        self.frame(self.i, P, D)
        self.settle(self.i, P, D)

    # the path
    def forward(self, st, env, fam):
        c, v = self.c, self.v
        if 'forward' in self.seen:
            raise Unsupported('a second loop over the path')
        self.seen.append('forward')
        st.kind = 'forward'
        self.hn, = fam
        h = env[self.hn]
        if not (same(st.it.lo, 1) and h.axis == 0):
            raise Unsupported('the path is not built period by period')
        c.prove('every period of the path is computed', z3.And(zi(st.it.hi) >= zi(v.T) + 1, zi(h.shape[0]) == zi(v.T) + 2))
        poly.prove_zero('the path starts at the initial point', h.at(0) - v.init)
        poly.prove_zero('the first period responds to the shock', h.at(1) - self.first(h))
        one = h.at(1)
        i = eng.fresh_int('i') if c.choose(2) == 0 else None
        done = i if i is not None else v.T + 1
        if i is not None:
            c.assume(z3.And(zi(i) >= 1, zi(i) < zi(st.it.hi)))
        h.writes = [(0, v.init), (1, one)]

        def base(k):
            # the row may not be reached yet
            if c.decide(z3.And(zi(k) >= 2, zi(k) <= zi(done))):
                return atom('h', 'n', None, k)
            return atom('h?', 'n', None, k)
        h.base = base
        self.H = h
        if i is not None:
            st.body, st.item, self.i, self.was = True, i, i, len(h.writes)
            return

    def step(self, k, x):
        """the row after x, x being the state that period k starts from"""
        v = self.v
        if self.c.decide(zi(k) <= zi(v.last)):
            P, D = self.need(k)
            return mul(P, x) + D
        return mul(v.gy, x)

    def need(self, k):
        if self.P is None:
            raise Unsupported('the rules are not built by a loop from the last constrained period on')
        return self.P.at(k), self.D.at(k)

    def first(self, h):
        v = self.v
        u = Scal(atom('u', 'e').t) if v.one else atom('u', 'e')
        if self.c.decide(zi(v.last) >= 0):
            P, D = self.need(0)
            M, r1, r2 = self.equations(0, self.P, self.D)
            A, Bm, C, E, const = v.M[v.regime(0)]
            X = poly.inverse(M)
            return mul(P, v.init) + D - squeeze(mul(mul(X, E), u, True))
        return mul(v.gy, v.init) + squeeze(mul(v.gu, u, True))

    def leave_forward(self, st, env):
        h = env[self.hn]
        i = self.i
        new = h.writes[self.was:]
        ok = all(same(j, i + 1) for j, _ in new)
        self.c.goal('an iteration writes its own period only', ok, strict=False)
        if not ok:
            raise Unsupported('another period is written')
        x = h.at(i)
        poly.prove_zero('every period follows from the one before by the rule in force', h.at(i + 1) - self.step(i, x))

    # the shocks of several variables
    def shocks(self, st, env, inn):
        c, v = self.c, self.v
        st.kind = 'shocks'
        if len(inn) != 1:
            raise Unsupported('the loop over the shocks')
        self.un, = inn
        u = env[self.un]
        seq = st.it.it if isinstance(st.it, SymEnum) else st.it
        start = st.it.start if isinstance(st.it, SymEnum) else None
        if not isinstance(seq, Late) or seq.which or not isinstance(seq.get(), Seq):
            raise Unsupported('a loop over something else')
        seq = seq.get()
        c.prove('each named shock has its own value, all others none', v.spec(u.a, 0))
        j = z3.Int('j')
        i = eng.fresh_int('i', 0)
        a = z3.Array('innovations', I, R)
        if c.choose(2):
            c.assume(v.spec(a, v.m))
            st.vals[self.un] = Innov(u.n, a)
            return
        c.assume(zi(i) < zi(v.m))
        c.assume(v.spec(a, i))
        st.vals[self.un] = Innov(u.n, a)
        x = seq.item(i)
        st.body, st.item, self.i = True, (x if start is None else (i + start, x)), i

    def leave_shocks(self, st, env):
        self.c.prove('each named shock has its own value, all others none', self.v.spec(env[self.un].a, self.i + 1))


class Late(Shut):
    """an argument whose kind is settled when the code looks at it"""

    def __init__(self, v, which):
        self.v, self.which = v, which

    def get(self):
        v = self.v
        if v.locked:
            raise Unsupported('the shocks are looked at again')
        if v.given is None:
            v.given = innovations(v.c, v)
        return v.given[self.which]

    def __pv_isinstance__(self, ts):
        return isinstance(self.get(), (int, SI)) and int in ts

    def __index__(self):
        raise Unsupported('a position')

    def __getitem__(self, k):
        return self.get()[k]

    def __pv_len__(self):
        x = self.get()
        return x.n if isinstance(x, Seq) else 1


def innovations(c, v):
    """the argument exog_idx, the row of shocks and what the vector of innovations has to be"""
    j = z3.Int('j')
    v.kind = c.choose(3)
    if v.kind < 2:
        x = eng.fresh_int('exog', 0)
        c.assume(zi(x) < zi(v.e))
        s = z3.Real('shock')
        shock = RV(s) if v.kind == 0 else Vec1(RV(s))

        def spec(a, k=None):
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(v.e)), z3.Select(a, j) == z3.If(j == zi(x), s, 0)))
        v.spec, v.m = spec, None
        return x, shock
    m = eng.fresh_int('named', 1)
    at = z3.Function('position', I, I)
    inv = z3.Function('order', I, I)
    val = z3.Function('shock', I, R)
    k = z3.Int('k')
    # distinct positions of declared shocks: at has a left inverse
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(m)), z3.And(at(k) >= 0, at(k) < zi(v.e), inv(at(k)) == k)), patterns=[at(k)]))

    def spec(a, i):
        return z3.And(
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(v.e)), z3.Select(a, j) ==
                                      z3.If(z3.And(inv(j) >= 0, inv(j) < zi(i), at(inv(j)) == j), val(inv(j)), 0)), patterns=[z3.Select(a, j)]))
    v.spec, v.m = spec, m
    return Seq(m, lambda i: SI(at(zi(i)))), Seq(m, lambda i: RV(val(zi(i))))


def path(c, two):
    v = World(c, two)
    c.env['e'] = v.e
    h = Loops(c, v)
    np_ = Np(c, v.n, v.e)
    w = load.World([BIND], loops={'*': h}, glob={'np': np_, 'linalg': Linalg(), 'isinstance': isinst}, shim=True)
    v.given, v.locked = None, None
    ex, shock = Late(v, 0), Late(v, 1)

    def checked(u):
        if v.locked is not None:
            if v.locked is not u.a:
                raise Unsupported('two vectors of innovations')
            return
        if v.given is None:
            raise Unsupported('innovations without shocks')
        c.prove('one entry for every shock of the model', zi(u.n) == zi(v.e))
        c.prove('each named shock has its own value, all others none', v.spec(u.a, v.m))
        if v.kind:
            # from here on as for a single number: the shocks are not looked at again
            raise PathEnd()
        v.locked = u.a
    c.env['shocks'] = checked
    gu = Gu(v.gu.t, 'n', v.gu.cols)
    kw = dict(gy=v.gy, gu=gu, periods=v.T, exog_idx=ex, init=v.init, shock=shock)
    names = {0: '', 1: 'star'} if not two else {0: '', 1: '_alt0', 2: '_alt1', 3: '_dbl'}
    for r, sfx in names.items():
        A, Bm, C, E, D = v.M[r]
        kw.update({'A' + sfx: A, 'B' + sfx: Bm, 'C' + sfx: C, 'E' + sfx: E})
        if r:
            kw['D' + sfx] = D
    fl = [Flags(functools.partial(v.flag, q), v.T + 1) for q in range(len(v.bound))]
    st = [Starts(s) for s in v.starts]
    if two:
        kw.update(regime_starts0=st[0], regime_starts1=st[1], regime0=fl[0], regime1=fl[1])
        f = w[f'{BIND}:_simulate_hypothesized_paths_two_constraints']
    else:
        kw.update(regime_starts=st[0], regime=fl[0])
        f = w[f'{BIND}:_simulate_hypothesized_paths']
    out = f(**kw)
    if not isinstance(out, View) or h.H is None or out.f is not h.H:
        raise Unsupported('the path is put together otherwise')
    c.prove('one row for every period and one more', zi(out.n) == zi(v.T) + 1)
    # an arbitrary period
    t = eng.fresh_int('t', 0)
    first = c.decide(zi(t) == 0)
    if first:
        t = 0
    c.assume(zi(t) <= zi(v.T))
    prev = v.init if first else out.at(t - 1)
    row = (lambda k, x: h.H.at(k + out.lo) if k is t and first else h.step(k, x))
    x = out.at(0) if first else h.step(t, prev)
    u = Scal(atom('u', 'e').t) if v.one else atom('u', 'e')
    if c.decide(zi(t) > zi(v.last)):
        want = mul(v.gy, prev)
        if first:
            want = want + squeeze(mul(v.gu, u, True))
        poly.prove_zero('after the last constrained period the path follows the reference policy', x - want)
        return
    c.assume(zi(t) < zi(v.T))
    nxt = h.step(t + 1, x)
    A, Bm, C, E, D = v.M[v.regime(t)]
    res = mul(C, prev) + mul(Bm, x) + mul(A, nxt) + D
    if first:
        res = res + squeeze(mul(E, u, True))
    poly.prove_zero('every period satisfies the equations of the regime in force', res)


def isinst(x, t):
    if isinstance(x, SI):
        return t is int or isinstance(t, tuple) and int in t
    if isinstance(x, Late):
        return x.__pv_isinstance__(t if isinstance(t, tuple) else (t,))
    return isinstance(x, t)


PATH = ['the rule of every constrained period solves its regime given the rule after it',
        'the constant of every constrained period solves its regime given the one after it',
        'every constrained period has a rule', 'every period of the path is computed', 'the path starts at the initial point',
        'the first period responds to the shock', 'every period follows from the one before by the rule in force',
        'each named shock has its own value, all others none', 'one row for every period and one more',
        'after the last constrained period the path follows the reference policy',
        'every period satisfies the equations of the regime in force']


def _units():
    return [
        Unit(f'{BIND}._simulate_hypothesized_paths', functools.partial(path, two=False), PATH, name='one constraint', limit=150),
        Unit(f'{BIND}._simulate_hypothesized_paths_two_constraints', functools.partial(path, two=True), PATH, name='two constraints', limit=240),
    ]


def units():
    from pv.contracts import occ, vararr
    return _units() + occ.units() + [vararr.unit('get_loc (one name)'), vararr.unit('get_loc (several names)')]
