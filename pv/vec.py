"""Vectors given entry by entry: a length (symbolic) and a function from the position to the entry, which is a complex or an
extended real number or a truth value.  Facts that hold at every position are instantiated at the positions that matter."""
from . import eng, arr
from .eng import SI, SB, zi, Unsupported
z3 = eng.z3


def ground():
    return eng.CUR.env.setdefault('vec', {'facts': [], 'terms': [], 'breaks': [], 'n': 0})


def always(lo, hi, f):
    """f(i) for every lo <= i < hi"""
    g = ground()
    g['facts'].append((lo, hi, f))
    for t in g['terms']:
        inst(lo, hi, f, t)


def inst(lo, hi, f, t):
    r = f(t)
    if r is not None:
        eng.CUR.assume(z3.Implies(z3.And(zi(lo) <= t, t < zi(hi)), r))


def term(t):
    g = ground()
    t = z3.simplify(zi(t))
    if not any(t.eq(x) for x in g['terms']):
        g['terms'].append(t)
        for lo, hi, f in list(g['facts']):
            inst(lo, hi, f, t)
    return t


def fresh(name):
    g = ground()
    g['n'] += 1
    return z3.Int(f'{name}{g["n"]}')


class Ext:
    """an entry: modulus, whether it is infinite, and (for a complex one) its real part; a real one also its value"""

    def __init__(self, mod, inf, re=None, val=None):
        self.mod, self.inf, self.re, self.val = mod, inf, re, val


class Vec:
    __pv__ = True
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, kind, f, off=0):
        self.n, self.kind, self.f = n, kind, f

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    @property
    def itemsize(self):
        if self.kind != 'b':
            raise Unsupported('item size')
        return 1

    @property
    def dtype(self):
        if self.kind == 'b':
            import numpy as np
            return np.dtype(bool)
        raise Unsupported('type of entries')

    def __pv_len__(self):
        return self.n

    def __len__(self):
        raise Unsupported('len')

    def at(self, i):
        return self.f(term(i))

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a vector')

    def view(self, t):
        if self.kind == 'b' and t in (bool, 'bool'):
            return self
        raise Unsupported('view')

    def astype(self, t, **k):
        if self.kind == 'b' and t is bool:
            return self
        if self.kind == 'b' and t is int:
            return Vec(self.n, 'i', self.f)
        raise Unsupported('astype')

    def copy(self):
        return self

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            if ix.step not in (None, 1):
                raise Unsupported('step')
            lo = 0 if ix.start is None else ix.start
            hi = self.n if ix.stop is None else ix.stop
            if not (eng.CUR.entails(zi(lo) >= 0) and eng.CUR.entails(zi(hi) <= zi(self.n)) and eng.CUR.entails(zi(lo) <= zi(hi))):
                raise Unsupported('slice of a vector')
            return Vec(hi - lo, self.kind, lambda i: self.f(term(i + zi(lo))))
        if isinstance(ix, (int, SI)) and not isinstance(ix, bool):
            if eng.CUR.decide(zi(ix) < 0):
                ix = ix + self.n
            if not eng.CUR.decide(z3.And(zi(ix) >= 0, zi(ix) < zi(self.n))):
                raise IndexError('index out of bounds')
            e = self.at(ix)
            return SB(e) if self.kind == 'b' else Entry(e, self.kind)
        raise Unsupported('index of a vector')

    # -- entries
    def map(self, kind, g):
        return Vec(self.n, kind, lambda i: g(self.f(i)))

    def zip(self, o, g):
        if not isinstance(o, Vec):
            o = eng.unwrap(o)
            return Vec(self.n, 'b', lambda i: g(self.f(i), o))
        if not arr.same(self.n, o.n):
            raise Unsupported('lengths')
        return Vec(self.n, 'b', lambda i: g(self.f(i), o.f(i)))

    def bools(self):
        if self.kind != 'b':
            raise Unsupported('truth values expected')
        return self

    def __and__(self, o):
        return self.bools().zip(o, lambda a, b: z3.And(a, b))
    __rand__ = __and__

    def __or__(self, o):
        return self.bools().zip(o, lambda a, b: z3.Or(a, b))
    __ror__ = __or__
    __add__ = None

    def __invert__(self):
        return self.bools().map('b', z3.Not)

    def __xor__(self, o):
        return self.bools().zip(o, lambda a, b: z3.Xor(a, b))

    def _cmp(self, o, g, inf):
        if self.kind != 'r' or not isinstance(o, (int, float)):
            if self.kind == 'b' and isinstance(o, (bool, int)):
                raise Unsupported('comparison of truth values')
            raise Unsupported('comparison of entries')
        v = z3.RealVal(repr(float(o)))
        return self.map('b', lambda e: z3.If(e.inf, z3.BoolVal(inf), g(e.val, v)))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, False)

    def __eq__(self, o):
        if isinstance(o, float) and o == float('inf') and self.kind == 'r':
            return self.map('b', lambda e: e.inf)
        raise Unsupported('comparison of entries')

    def __ne__(self, o):
        return ~(self == o)
    __hash__ = None

    def __truediv__(self, o):
        if isinstance(o, Vec) and getattr(self, 'quotient', None):
            return self.quotient(o)
        raise Unsupported('division of vectors')
    __rtruediv__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __pow__ = \
        lambda self, o: (_ for _ in ()).throw(Unsupported('arithmetic of vectors'))

    def __bool__(self):
        raise Unsupported('truth of a vector')

    def __iter__(self):
        raise Unsupported('iteration over a vector')

    # -- whole vectors
    def holds(self, lo, hi, want=True):
        """every entry of lo..hi is `want`"""
        i = fresh('v')
        e = self.f(term(i))
        return eng.CUR.entails(z3.Implies(z3.And(zi(lo) <= i, i < zi(hi)), e if want else z3.Not(e)))

    def argmax(self):
        self.bools()
        c = eng.CUR
        if c.decide(zi(self.n) == 0):
            raise ValueError('attempt to get argmax of an empty sequence')
        e = SI(fresh('first'))
        c.assume(z3.And(e.e >= 0, e.e < zi(self.n)))
        f = self.f
        if c.choose(2) == 0:
            c.assume(f(term(e)))
            always(0, e, lambda i: z3.Not(f(i)))
        else:
            c.assume(e.e == 0)
            always(0, self.n, lambda i: z3.Not(f(i)))
        return e

    def any(self):
        self.bools()
        c, f = eng.CUR, self.f
        if c.choose(2) == 0:
            i = fresh('some')
            c.assume(z3.And(i >= 0, i < zi(self.n)))
            c.assume(f(term(i)))
            return True
        always(0, self.n, lambda i: z3.Not(f(i)))
        return False

    def all(self):
        return not (~self).any()

    def sum(self, *a, **k):
        if a or k or self.kind not in ('b', 'i'):
            raise Unsupported('sum of a vector')
        g, c = ground(), eng.CUR
        cuts = [0] + [b for b in g['breaks'] if c.entails(z3.And(zi(b) >= 0, zi(b) <= zi(self.n)))] + [self.n]
        for a_, b_ in zip(cuts, cuts[1:]):
            if not c.entails(zi(a_) <= zi(b_)):
                raise Unsupported('order of the parts of a vector')
        t = 0
        for a_, b_ in zip(cuts, cuts[1:]):
            if self.holds(a_, b_):
                t = t + (b_ - a_)
            elif not self.holds(a_, b_, False):
                k = SI(fresh('count'))
                c.assume(z3.And(k.e >= 0, k.e <= zi(b_) - zi(a_)))
                t = t + k
        return t
    __pv_sum__ = lambda self, start=0: self.sum() + start

    def __pv_np__(self, name, a, k):
        f = FUN.get(name)
        if f is None:
            raise Unsupported(f'no contract for {name} of a vector given by its entries')
        return f(*a, **k)


class Entry:
    __pv__ = True

    def __init__(self, e, kind):
        self.e, self.kind = e, kind

    def __getattr__(self, a):
        raise Unsupported('single entry')

    def __gt__(self, o):
        return SB(Vec(1, self.kind, lambda i: self.e)._cmp(o, lambda a, b: a > b, True).f(0))


def absolute(v):
    if v.kind == 'b':
        raise Unsupported('modulus of truth values')
    return v.map('r', lambda e: Ext(e.mod, e.inf, e.mod, e.mod))


def real(v):
    if v.kind == 'r':
        return v
    return v.map('r', lambda e: Ext(z3.If(e.re < 0, -e.re, e.re), e.inf, e.re, e.re))


def nonzero(v):
    raise Unsupported('positions of entries')


def lognot(v):
    return ~v


FUN = {
    'absolute': absolute, 'abs': absolute, 'real': real,
    'isinf': lambda v: v.map('b', lambda e: e.inf),
    'isfinite': lambda v: v.map('b', lambda e: z3.Not(e.inf)),
    'isnan': lambda v: v.map('b', lambda e: z3.BoolVal(False)),
    'logical_or': lambda a, b: a | b, 'logical_and': lambda a, b: a & b, 'logical_not': lambda a: ~a, 'invert': lambda a: ~a,
    'sum': lambda v: v.sum(), 'count_nonzero': lambda v: v.bools().sum(), 'any': lambda v: v.any(), 'all': lambda v: v.all(),
    'argmax': lambda v: v.argmax(), 'greater': lambda a, b: a > b, 'less': lambda a, b: a < b, 'asarray': lambda v: v, 'array': lambda v: v,
    'divide': lambda a, b: a / b, 'true_divide': lambda a, b: a / b, 'size': lambda v: v.n, 'copy': lambda v: v,
}
Vec.real = property(real)
