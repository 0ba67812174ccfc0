"""Jacobian and Hessian: which derivative stands where, and at which point it is taken"""
import functools
from pv import eng, load, npshim
from pv.contracts.common import Poison
from pv.eng import Unit, Unsupported, PathEnd, SI, SB, zi
from pv.seqs import Seq
from pv.tree import RV, rv, SymEnum
z3 = eng.z3

LEVEL = 'proof'
LIN, EXPR = 'pynare.core.linearizing', 'pynare.core.expressions'
I, R = z3.IntSort(), z3.RealSort()
ASSUMES = [
    'autograd: grad(f) at a point is the vector of first partial derivatives of f there, jacobian(grad(f)) the matrix of second ones '
    '(symmetric where they are continuous); the real library is exercised at run time, bounded',
    'numpy: tile, isnan, selection by a mask (the selected cells in row-major order), concatenate, flatten; '
    'the incidence table numbers its cells in that order (proved in C06)',
    'floating-point numbers are treated as reals',
]
D1 = {k: z3.Function(f'd_{k}', I, I, R) for k in ('dynamic', 'steady')}
D2 = z3.Function('d2', I, I, I, R)
SS = z3.Function('steady_value', I, R)
NAN = z3.Function('absent', I, I, z3.BoolSort())
COL = z3.Function('column', I, I, I)


class Shut:
    __pv__ = True
    __array_ufunc__ = None

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {type(self).__name__}')

    def _no(self, *a):
        raise Unsupported(f'an operation on {type(self).__name__}')
    __iter__ = __bool__ = __len__ = __getitem__ = __setitem__ = __add__ = __mul__ = __sub__ = __neg__ = __lt__ = __gt__ = __eq__ = _no
    __hash__ = None


# ---------------------------------------------------------------- functions and their derivatives
class Fn:
    """function number i of the model's dynamic or static equations"""

    def __init__(self, kind, i):
        self.kind, self.i = kind, zi(i)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a function')


class G(Fn):
    def __call__(self, x):
        return Grad(self.kind, self.i, point(x))


class H(Fn):
    def __call__(self, x):
        p = point(x)
        if self.kind != 'dynamic':
            raise Unsupported('second derivatives of the static equations')
        i = self.i
        return Mat((p.n, p.n), lambda a, b: D2(i, a, b), p, sym=True)


def grad(f, *a, **k):
    if a or k:
        raise Unsupported('arguments of grad')
    if type(f) is not Fn:
        raise Unsupported('a gradient of something else')
    return G(f.kind, f.i)


def jac(f, *a, **k):
    if a or k:
        raise Unsupported('arguments of jacobian')
    if type(f) is G:
        return H(f.kind, f.i)
    if type(f) is Fn:
        return G(f.kind, f.i)
    raise Unsupported('a derivative of something else')


def point(x):
    if not isinstance(x, Point):
        raise Unsupported('derivatives at another point')
    return x


class Point(Shut):
    """the point at which derivatives are to be taken"""

    def __init__(self, what, n):
        self.what, self.n = what, n

    def __pv_len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)


class Vec(Shut):
    def __init__(self, n, at):
        self.n, self.at = n, at

    def __pv_len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    def flatten(self, order='C'):
        return self
    ravel = flatten

    @property
    def shape(self):
        return (self.n,)


class Grad(Vec):
    def __init__(self, kind, i, p):
        self.kind, self.i, self.p, self.n = kind, i, p, p.n
        self.at = lambda j: D1[kind](i, j)


class Flat(Shut):
    """a matrix laid out in one row"""

    def __init__(self, m, order):
        self.m, self.order = m, order
        self.n = m.shape[0] * m.shape[1]

    def at2(self, a, b):
        return self.m.at(a, b) if self.order == 'C' else self.m.at(b, a)

    def flatten(self, order='C'):
        return self
    ravel = flatten


class MaskM(Shut):
    def __init__(self, at):
        self.at = at

    def __invert__(self):
        return MaskM(lambda *x: z3.Not(self.at(*x)))

    def __and__(self, o):
        return MaskM(lambda *x: z3.And(self.at(*x), o.at(*x)))

    def __or__(self, o):
        return MaskM(lambda *x: z3.Or(self.at(*x), o.at(*x)))


class Mat(Shut):
    """a matrix of unknown size, entry by entry; a row may be a matrix laid out flat"""

    def __init__(self, shape, at, p=None, sym=False):
        self.shape, self.at, self.p, self.sym = tuple(shape), at, p, sym

    ndim = 2

    def __pv_len__(self):
        return self.shape[0]

    @property
    def T(self):
        return Mat(self.shape[::-1], lambda a, b: self.at(b, a), self.p)

    def transpose(self):
        return self.T

    def flatten(self, order='C'):
        if order not in ('C', 'F', 'A', 'K'):
            raise Unsupported('order')
        return Flat(self, 'F' if order == 'F' else 'C')
    ravel = flatten

    def reshape(self, *s, order='C'):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if s == (-1,) or len(s) == 1 and eng.CUR.entails(zi(s[0]) == zi(self.shape[0] * self.shape[1])):
            return self.flatten(order)
        raise Unsupported('reshape')

    def copy(self):
        return Mat(self.shape, self.at, self.p)

    def _c(self, o, f):
        x = rv(o)
        if x is None:
            raise Unsupported('comparison')
        return MaskM(lambda a, b: f(self.at(a, b), x))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def _s(self, o, f):
        x = rv(o)
        if x is None:
            raise Unsupported('arithmetic')
        return Mat(self.shape, lambda a, b: f(self.at(a, b), x), self.p)

    def __mul__(self, o): return self._s(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._s(o, lambda a, b: a / b)
    def __neg__(self): return Mat(self.shape, lambda a, b: -self.at(a, b), self.p)

    def __setitem__(self, k, v):
        if isinstance(k, MaskM):
            x, old, m = rv(v), self.at, k.at
            if x is None:
                raise Unsupported('assignment')
            self.at = lambda a, b: z3.If(m(a, b), x, old(a, b))
            return
        raise Unsupported('assignment to a part of a matrix')


class Rows(Mat):
    """the matrix that is filled row by row; a row is a vector, or a matrix laid out flat"""

    def __init__(self, shape, row):
        self.shape, self.row = tuple(shape), row
        self.p, self.sym, self.post = None, False, lambda e, k: e

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            if len(k) != 2 or not (isinstance(k[1], slice) and k[1] == slice(None)):
                raise Unsupported('part of a row')
            k = k[0]
        if isinstance(k, MaskM):
            x, old, m = rv(v), self.post, k.post
            if x is None:
                raise Unsupported('assignment')
            self.post = lambda e, k: z3.If(m(e), x, old(e, k))
            return
        if not eng.isint(k):
            raise Unsupported('assignment to a part of a matrix')
        if not isinstance(v, (Vec, Flat)):
            raise Unsupported('the value of a row')
        c = eng.CUR
        c.prove('rows lie within the array', z3.And(zi(k) >= 0, zi(k) < zi(self.shape[0])))
        c.prove('rows are as long as the array is wide', zi(v.n) == zi(self.shape[1]))
        old = self.row
        self.row = lambda i: v if c.decide(zi(i) == zi(k)) else old(i)

    @property
    def at(self):
        raise Unsupported('entries of an array that is filled')

    def _c(self, o, f, g=lambda e: e):
        x = rv(o)
        if x is None:
            raise Unsupported('comparison')
        old = self.post
        m = MaskM(None)
        m.post = lambda e: f(g(e), x)
        return m

    def __pv_abs__(self):
        r = Abs()
        r.of = self
        return r

    def _no2(self, *a, **k):
        raise Unsupported('an operation on an array that is filled')
    __mul__ = __rmul__ = __truediv__ = __neg__ = flatten = ravel = reshape = copy = transpose = _no2

    def entry(self, i, *jk):
        r = self.row(i)
        if isinstance(r, Flat):
            e = r.at2(*jk)
        else:
            e = r.at(jk[0])
        return self.post(e, None)


class Abs(Shut):
    def _c(self, o, f):
        return self.of._c(o, f, lambda e: z3.If(e >= 0, e, -e))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)


class Zeros(Vec):
    def __init__(self, n):
        Vec.__init__(self, n, lambda j: z3.RealVal(0))


class Table(Shut):
    """three rows of n values"""

    def __init__(self, n, at):
        self.n, self.at = n, at
        self.shape = (3, n)

    def __getitem__(self, m):
        if not isinstance(m, MaskM):
            raise Unsupported('part of a table')
        return Picked(self, m)


class Incidence(Shut):
    """the incidence table of the model"""

    def __init__(self, n, inc):
        self.n, self.inc = n, inc
        self.shape = (3, n)

    def isnan(self):
        return MaskM(lambda r, j: NAN(r, j))


class Picked(Vec):
    """the values at the cells of a mask, row by row"""

    def __init__(self, t, m):
        self.t, self.m = t, m
        self.n = eng.fresh_int('picked', 0)
        self.f = z3.Function(f'picked_{self.n.e}', I, R)
        self.at = lambda k: self.f(k)


class Cat(Vec):
    def __init__(self, parts):
        self.parts = parts
        n = 0
        for p in parts:
            n = p.n + n
        self.n = n

    def at(self, k):
        k = zi(k)
        e = None
        segs, lo = [], z3.IntVal(0)
        for p in self.parts:
            segs.append((lo, p))
            lo = lo + zi(p.n)
        e = segs[-1][1].at(k - segs[-1][0])
        for l, p in segs[-2::-1]:
            e = z3.If(k < l + zi(p.n), p.at(k - l), e)
        return e


class Np:
    """the parts of numpy that linearising uses"""
    nan = float('nan')

    def tile(self, v, reps):
        if not isinstance(v, Vec) or reps not in ((3, 1),):
            raise Unsupported('tile')
        return Table(v.n, lambda r, j: v.at(j))

    def vstack(self, vs):
        vs = tuple(vs)
        if len(vs) != 3 or not all(isinstance(v, Vec) for v in vs):
            raise Unsupported('vstack')
        return Table(vs[0].n, lambda r, j: z3.If(r == 0, vs[0].at(j), z3.If(r == 1, vs[1].at(j), vs[2].at(j))))

    def isnan(self, x):
        if not isinstance(x, Incidence):
            raise Unsupported('isnan')
        return x.isnan()

    def isfinite(self, x):
        return ~self.isnan(x)

    def logical_not(self, m):
        return ~m

    def zeros(self, shape, dtype=float):
        if dtype is not float:
            raise Unsupported('zeros')
        if isinstance(shape, tuple) and len(shape) == 2:
            return Rows(shape, lambda i: Zeros(shape[1]))
        if isinstance(shape, tuple):
            shape, = shape
        return Zeros(shape)

    def empty(self, shape, dtype=float):
        if isinstance(shape, tuple) and len(shape) == 2:
            return Rows(shape, lambda i: Unset(shape[1]))
        raise Unsupported('empty')

    def concatenate(self, parts, axis=0):
        parts = list(parts)
        if axis != 0 or not all(isinstance(p, Vec) for p in parts):
            raise Unsupported('concatenate')
        return Cat(parts)

    def hstack(self, parts):
        return self.concatenate(parts)

    def append(self, a, b):
        return self.concatenate((a, b))

    def array(self, x, dtype=None):
        if dtype not in (None, float):
            raise Unsupported('array')
        if isinstance(x, Seq):
            r = x.item(eng.fresh_int('i', 0))
            if not isinstance(r, (Vec, Flat)):
                raise Unsupported('an array of rows')
            return Rows((x.n, r.n), x.item)
        if isinstance(x, (Vec, Mat, Flat)):
            return x
        raise Unsupported('array')
    asarray = array
    stack = array

    def ravel(self, x, order='C'):
        return x.flatten(order)

    def transpose(self, x):
        return x.T

    def triu(self, m, k=0):
        return Mat(m.shape, lambda a, b: z3.If(a + k <= b, m.at(a, b), 0), m.p) if type(m) is Mat else unsup('triu')

    def tril(self, m, k=0):
        return Mat(m.shape, lambda a, b: z3.If(b <= a + k, m.at(a, b), 0), m.p) if type(m) is Mat else unsup('tril')

    def absolute(self, x):
        if isinstance(x, Rows):
            return x.__pv_abs__()
        if type(x) is Mat:
            return Mat(x.shape, lambda a, b: z3.If(x.at(a, b) >= 0, x.at(a, b), -x.at(a, b)), x.p)
        raise Unsupported('absolute')
    abs = fabs = absolute

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'numpy.{a}')


class Unset(Vec):
    def __init__(self, n):
        self.n = n
        f = z3.Function(f'unset{eng.fresh_int("u")}', I, R)
        self.at = lambda j: f(j)


def unsup(w):
    raise Unsupported(w)


# ---------------------------------------------------------------- the model as linearising sees it
class Model:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'model.{a}')


class Funcs(Seq):
    """a list of functions"""

    def __bool__(self):
        return eng.CUR.decide(zi(self.n) != 0)


class Len:
    def __init__(self, n):
        self.n = n

    def __pv_len__(self):
        return self.n

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the variables')


def setup(c, mods=(LIN,)):
    hold = {}

    def loop(*a):
        h = hold.get('h')
        if h is None:
            raise Unsupported('a loop of unknown length')
        return h(*a)
    w = load.World(list(mods), shim=False, loops={'*': loop}, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    m = w.mods[LIN]
    m.np, m.grad, m.jacobian = Np(), grad, jac
    n, e, inc, q = (eng.fresh_int(h, l) for h, l in (('variables', 1), ('shocks', 0), ('columns', 1), ('equations', 1)))
    ss = Vec(n, lambda j: SS(j))
    fs = {k: Funcs(q, lambda i, k=k: Fn(k, i)) for k in ('dynamic', 'steady')}
    md = Model(endog=Len(n), stoch=Len(e), exprs=Len(q), ss=Model(values=ss),
               indexes=Model(llx=Incidence(n, inc), n_endog_inc=inc, n_endog=n, n_exog=e),
               dynamic_repr=Model(func_list=fs['dynamic']), steady_repr=Model(func_list=fs['steady']))
    return w, m, md, hold, n, e, inc, q, ss, fs


def where(c):
    """the steady-state point: the value of its variable in the column of every dated variable, zero for the shocks"""
    w, m, md, hold, n, e, inc, q, ss, fs = setup(c)
    x = object.__new__((m.ModelJacobian, m.ModelHessian)[c.choose(2)])
    x.__dict__.update(model=md, linearized_funcs=[], funcs=[])
    v = x.ss
    if not isinstance(v, Vec):
        raise Unsupported('the point')
    r, j = zi(eng.fresh_int('r', 0)), zi(eng.fresh_int('j', 0))
    c.assume(z3.And(r < 3, j < zi(n), z3.Not(NAN(r, j))))
    # C06: the cells of the table are numbered row by row
    c.assume(z3.And(COL(r, j) >= 0, COL(r, j) < zi(inc)))
    picks = [p for p in flat(v) if isinstance(p, Picked)]
    for p in picks:
        # the mask is that of the dated variables, so the k-th value is that of the k-th cell
        a, b = zi(eng.fresh_int('a', 0)), zi(eng.fresh_int('b', 0))
        ok = c.check(z3.And(a < 3, b < zi(n), p.m.at(a, b) == NAN(a, b))) == z3.unsat
        c.goal('the dated variables are picked, and no others', ok, backend='z3')
        if not ok:
            return
        c.assume(zi(p.n) == zi(inc))
        c.assume(p.at(COL(r, j)) == p.t.at(r, j))
    c.prove('the point is as long as the argument of the equations', zi(v.n) == zi(inc) + zi(e))
    c.prove('every dated variable is at its steady-state value, in its own column', v.at(COL(r, j)) == SS(j))
    k = zi(eng.fresh_int('k', 0))
    if not c.choose(2):
        return
    c.assume(k < zi(e))
    c.prove('every shock is at zero', v.at(zi(inc) + k) == 0)


def flat(v):
    return [q for p in v.parts for q in flat(p)] if isinstance(v, Cat) else [v]


def steady_point(c):
    w, m, md, hold, n, e, inc, q, ss, fs = setup(c)
    x = object.__new__(m.SteadyJacobian)
    x.__dict__.update(model=md, linearized_funcs=[], funcs=[])
    v = x.ss
    if not isinstance(v, Vec):
        raise Unsupported('the point')
    j = zi(eng.fresh_int('j', 0))
    c.assume(j < zi(n))
    c.prove('the static equations are taken at the steady state', z3.And(zi(v.n) == zi(n), v.at(j) == SS(j)))


KIND = {'ModelJacobian': ('dynamic', G), 'SteadyJacobian': ('steady', G), 'ModelHessian': ('dynamic', H)}


class Derive:
    """the loop over the functions: before the k-th pass the list holds the derivatives of the first k"""

    def __init__(self, c, over, kind, cls):
        self.c, self.over, self.kind, self.cls, self.used = c, over, kind, cls, 0

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            it = st.it.it if isinstance(st.it, SymEnum) else st.it
            if it not in self.over:
                raise Unsupported('a loop over something else')
            self.used += 1
            self.home, self.name = self.find(env)
            for n in st.names:
                if n in env and n not in ('self', self.name if self.home is None else None):
                    st.vals[n] = Poison()
            item = lambda i: self.cls(self.kind, i)
            if c.choose(2):
                self.put(st, Funcs(it.n, item))
                return
            k = eng.fresh_int('k', 0)
            c.assume(zi(k) < zi(it.n))
            self.k = k
            self.put(st, Funcs(k, item))
            x = it.item(k)
            st.body, st.item = True, ((k + st.it.start, x) if it is not st.it else x)
        elif what == 'leave':
            s = env[self.name] if self.home is None else self.home.__dict__[self.name]
            if not isinstance(s, Funcs):
                raise Unsupported('the list is replaced')
            ok = c.entails(zi(s.n) == zi(self.k) + 1)
            c.goal('every function has one derivative, in order', ok, backend='z3')
            if ok:
                x = s.item(self.k)
                c.goal('every function has one derivative, in order', type(x) is self.cls and x.kind == self.kind and c.entails(x.i == zi(self.k)),
                       backend='evaluation')

    def put(self, st, v):
        if self.home is None:
            st.vals[self.name] = v
        else:
            self.home.__dict__[self.name] = v

    def find(self, env):
        x = env.get('self')
        if x is not None and type(x.__dict__.get('linearized_funcs')) is list and not x.__dict__['linearized_funcs']:
            ls = [n for n, v in env.items() if type(v) is list and not v and v is not x.__dict__['linearized_funcs']]
            if not ls:
                return x, 'linearized_funcs'
        ls = [n for n, v in env.items() if type(v) is list and not v]
        if len(ls) == 1:
            return None, ls[0]
        raise Unsupported('the list of derivatives')


def derive(name, c):
    """the derivatives are those of the model's equations, in order"""
    w, m, md, hold, n, e, inc, q, ss, fs = setup(c)
    kind, cls = KIND[name]
    jf = Funcs(q, lambda i: G('dynamic', i))
    md.jacobian = Model(linearized_funcs=jf, funcs=fs['dynamic'])
    h = hold['h'] = Derive(c, (fs[kind], jf), kind, cls)
    x = w[f'{LIN}:{name}'](md)
    fl = x.linearized_funcs
    if type(fl) is list:
        c.goal('every function has one derivative, in order', bool(fl) or name == 'none', backend='evaluation', strict=False)
        return
    if not isinstance(fl, Seq):
        raise Unsupported('the derivatives')
    c.goal('every function has one derivative, in order', c.entails(zi(fl.n) == zi(q)), backend='z3')
    i = eng.fresh_int('i', 0)
    c.assume(zi(i) < zi(q))
    d = fl.item(i)
    c.goal('every function has one derivative, in order', type(d) is cls and d.kind == kind and c.entails(d.i == zi(i)), backend='evaluation')
    c.goal('an array belongs to its model', x.model is md, backend='evaluation')


class Fill:
    """the loop over the derivatives: before the k-th pass the first k rows are filled"""

    def __init__(self, c, over, want):
        self.c, self.over, self.want, self.used = c, over, want, 0

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            it = st.it
            rng = isinstance(it, npshim.SRange)
            if rng:
                ok = it.step == 1 and c.entails(z3.And(zi(it.lo) == 0, zi(it.hi) == zi(self.over.n)))
            else:
                o = it.it if isinstance(it, SymEnum) else it
                ok = o is self.over
            if not ok or self.used:
                raise Unsupported('a loop over something else')
            self.used += 1
            rs = {id(env[n]): n for n in env if isinstance(env[n], Rows)}
            if len(rs) != 1:
                raise Unsupported('the array')
            name, = rs.values()
            a = env[name]
            for n in st.names:
                if n in env and env[n] is not a:
                    st.vals[n] = Poison()
            before, want = a.row, self.want(a.shape)
            if c.choose(2):
                a.row = want
                return
            k = eng.fresh_int('k', 0)
            c.assume(zi(k) < zi(self.over.n))
            self.k, self.a, self.before = k, a, before
            a.row = lambda i: want(i) if c.decide(zi(i) < zi(k)) else before(i)
            self.prior = a.row
            st.body = True
            if rng:
                st.item = k
            else:
                x = self.over.item(k)
                st.item = (k + it.start, x) if isinstance(it, SymEnum) else x
        elif what == 'leave':
            c, a = self.c, self.a
            if a.post(z3.Real('e'), None) is not None and not z3.eq(a.post(z3.Real('e_'), None), z3.Real('e_')):
                raise Unsupported('entries are changed in every pass')
            i = self.k
            got, want = a.row(i), self.want(a.shape)(i)
            same_row(c, 'every row holds the derivatives of its equation', got, want)
            i = eng.fresh_int('i', 0)
            c.assume(z3.And(zi(i) < zi(a.shape[0]), zi(i) != zi(self.k)))
            got, want = a.row(i), self.prior(i)
            same_row(c, 'a pass leaves the other rows as they are', got, want)


def same_row(c, what, got, want):
    if got is want:
        c.goal(what, True, backend='evaluation')
        return
    if isinstance(got, Flat) != isinstance(want, Flat):
        if isinstance(want, Flat) or isinstance(got, Flat):
            c.goal(what, False, backend='evaluation', strict=False)
            return
    if isinstance(got, Flat):
        j, k = zi(eng.fresh_int('j', 0)), zi(eng.fresh_int('k', 0))
        c.assume(z3.And(j < zi(got.m.shape[0]), k < zi(got.m.shape[1])))
        symmetric(c, j, k)
        c.prove(what, got.at2(j, k) == want.at2(j, k))
    else:
        j = zi(eng.fresh_int('j', 0))
        c.assume(j < zi(got.n))
        c.prove(what, got.at(j) == want.at(j))


def symmetric(c, j, k):
    i = z3.Int('any_equation')
    c.assume(z3.ForAll([i], D2(i, j, k) == D2(i, k, j), patterns=[D2(i, j, k), D2(i, k, j)]))


def array(name, c):
    """the array: row i holds the derivatives of equation i"""
    w, m, md, hold, n, e, inc, q, ss, fs = setup(c)
    kind, cls = KIND[name]
    size = n if kind == 'steady' else inc + e
    p = Point(kind, size)
    fl = Funcs(q, lambda i: cls(kind, i))
    x = object.__new__(m.__dict__[name])
    x.__dict__.update(model=md, linearized_funcs=fl, funcs=fs[kind])
    if name == 'SteadyJacobian':
        md.__dict__['ss'] = Model(values=p)
    else:
        x.__dict__['ss'] = p

    def want(shape):
        if cls is H:
            return lambda i: Flat(Mat((size, size), lambda a, b: D2(zi(i), a, b)), 'C')
        return lambda i: Grad(kind, zi(i), p)
    h = hold['h'] = Fill(c, fl, want)
    a = x.array
    if not isinstance(a, Rows):
        raise Unsupported('the array')
    width = size if cls is G else size * size
    c.goal('the array has one row for every equation, one column for every derivative',
           c.entails(z3.And(zi(a.shape[0]) == zi(q), zi(a.shape[1]) == zi(width))), backend='z3')
    i, j, k = (zi(eng.fresh_int(h, 0)) for h in 'ijk')
    c.assume(z3.And(i < zi(q), j < zi(size), k < zi(size)))
    if cls is H:
        symmetric(c, j, k)
        r = a.row(SI(i))
        if not isinstance(r, Flat):
            raise Unsupported('a row')
        c.prove('entry (i, j) is the derivative of equation i with respect to j', a.post(r.at2(j, k), None) == D2(i, j, k))
    else:
        c.prove('entry (i, j) is the derivative of equation i with respect to j', a.entry(SI(i), j) == D1[kind](i, j))


def reach(c):
    """the representations hand out the arrays of their own model"""
    w = load.World([LIN, EXPR], shim=False, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    m = w.mods[EXPR]
    got = []

    def mk(kind):
        return lambda model: got.append((kind, model)) or (kind, model)
    m.SteadyJacobian, m.ModelJacobian, m.ModelHessian = mk('steady'), mk('jacobian'), mk('hessian')
    md = Model()
    k = c.choose(3)
    x = object.__new__(m.SteadyRepr if k == 0 else m.DynamicRepr)
    x.__dict__['model'] = md
    v = x.hessian if k == 2 else x.jacobian
    c.goal('the representations hand out the arrays of their own model', v == (('steady', 'jacobian', 'hessian')[k], md), backend='evaluation')


def units():
    P = functools.partial
    one = 'every function has one derivative, in order'
    return [
        Unit(f'{LIN}.Linearization.ss', where, ['every dated variable is at its steady-state value, in its own column', 'every shock is at zero',
                                               'the point is as long as the argument of the equations']),
        Unit(f'{LIN}.SteadyJacobian.ss', steady_point, ['the static equations are taken at the steady state']),
        *[Unit(f'{LIN}.{k}.__init__, differentiate_functions', P(derive, k), [one], name=f'derive {k}') for k in KIND],
        *[Unit(f'{LIN}.{k}.array', P(array, k), ['entry (i, j) is the derivative of equation i with respect to j',
                                                'every row holds the derivatives of its equation'], name=f'array {k}') for k in KIND],
        Unit(f'{EXPR}: jacobian, hessian', reach, ['the representations hand out the arrays of their own model']),
    ]
