"""Arrays with few rows and any number of columns, cell by cell, and what numpy selects from them.  Every operation is its
pointwise meaning: a mask is a predicate on positions, `a[mask]` and `np.where(mask)` are the selected cells in increasing
order of position, a boolean assignment numbers the selected cells in row-major order."""
import builtins
from . import eng, npshim
from .eng import SI, SB, zi, Unsupported
from .npshim import pv_int as _pv_int
z3 = eng.z3
I = z3.IntSort()


def no(what):
    raise Unsupported(what)


class Base:
    __pv__ = True
    __array_ufunc__ = None
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {type(self).__name__}')

    def __iter__(self):
        raise Unsupported('a loop of unknown length without an invariant')

    def __bool__(self):
        raise Unsupported('truth of an array')


def pos(n, j):
    return z3.And(j >= 0, j < zi(n))


def true(p):
    """p holds for every position (p is about fresh constants)"""
    c = eng.CUR
    return z3.is_true(z3.simplify(p)) or c.check(z3.Not(p)) == z3.unsat


def cases(f):
    """the value of f() by cases: [(condition, value)], where f may branch on symbolic conditions"""
    c, out, stack = eng.CUR, [], [[]]
    while stack:
        pre, seen, conds = stack.pop(), {}, []

        def decide(e):
            e = eng.unwrap(e)
            if isinstance(e, bool):
                return e
            e = z3.simplify(e)
            if z3.is_true(e) or z3.is_false(e):
                return z3.is_true(e)
            if e.get_id() not in seen:
                i = len(conds)
                v = pre[i] if i < len(pre) else True
                if i >= len(pre):
                    stack.append([x for x, _ in conds] + [False])
                conds.append((v, e if v else z3.Not(e)))
                seen[e.get_id()] = (v, e)
            return seen[e.get_id()][0]
        c.decide = decide
        try:
            v = f()
        finally:
            del c.decide
        out.append((z3.And([x for _, x in conds]), v))
        if len(out) > 64:
            raise Unsupported('too many cases')
    return out


def ite(f, val):
    """val(f()) as one expression"""
    cs = cases(f)
    r = val(cs[-1][1])
    for cond, v in cs[-2::-1]:
        r = z3.If(cond, val(v), r)
    return r


class Cnt(Base):
    """c + sum over terms (n, w) of the sum of w(j) for 0 <= j < n"""

    def __init__(self, terms, const=0):
        self.terms, self.const = list(terms), const

    @staticmethod
    def of(x):
        if isinstance(x, Cnt):
            return x
        if eng.isint(x):
            return Cnt([], x)
        if isinstance(x, float) and x == int(x):
            return Cnt([], int(x))
        raise Unsupported('a number of things')

    def __add__(self, o):
        if isinstance(o, Rng):
            return NotImplemented
        o = Cnt.of(o)
        return Cnt(self.terms + o.terms, self.const + o.const)
    __radd__ = __add__

    def __neg__(self):
        return Cnt([(n, (lambda j, w=w: -w(j))) for n, w in self.terms], -self.const)

    def __sub__(self, o):
        return self + (-Cnt.of(o))

    def __rsub__(self, o):
        return Cnt.of(o) - self

    def __pv_int__(self):
        return self

    def astype(self, t):
        return self
    item = __pv_int__

    def same(self, o):
        """the two numbers are equal for every content: the difference, as a sum over positions, vanishes position by position"""
        d = self - o
        ns, const = [], zi(d.const)
        for n, _ in d.terms:
            if not any(m is n or (eng.isint(m) and z3.eq(zi(m), zi(n))) for m in ns):
                ns.append(n)
        # n itself is the number of its positions
        if len(ns) == 1 and not z3.is_int_value(z3.simplify(const)):
            n = zi(ns[0])
            k = z3.simplify(z3.substitute(const, (n, z3.IntVal(1))) - z3.substitute(const, (n, z3.IntVal(0))))
            if z3.is_int_value(k) and true(const == z3.substitute(const, (n, z3.IntVal(0))) + k * n):
                d.terms.append((ns[0], lambda j: k))
                const = z3.substitute(const, (n, z3.IntVal(0)))
        if not true(const == 0):
            return False
        for n in ns:
            j = z3.Int('position')
            s = sum((w(j) for m, w in d.terms if m is n or z3.eq(zi(m), zi(n))), z3.IntVal(0))
            if not true(z3.Implies(pos(n, j), s == 0)):
                return False
        return True


class Mask(Base):
    """n truth values"""

    def __init__(self, n, p, over=None):
        self.n, self.p, self.over = n, p, over

    def _z(self, o, f):
        if not isinstance(o, Mask) or o.n is not self.n and not z3.eq(zi(o.n), zi(self.n)) or o.over is not self.over:
            raise Unsupported('masks of different arrays')
        return Mask(self.n, lambda j: f(self.p(j), o.p(j)), self.over)

    def __and__(self, o):
        return self._z(o, z3.And)

    def __or__(self, o):
        return self._z(o, z3.Or)

    def __xor__(self, o):
        return self._z(o, z3.Xor)
    __mul__, __add__, __ne__ = __and__, __or__, __xor__

    def __eq__(self, o):
        return ~self._z(o, z3.Xor)

    def __invert__(self):
        return Mask(self.n, lambda j: z3.Not(self.p(j)), self.over)

    def count(self):
        if self.over is not None:
            return Cnt([(self.n, lambda j: z3.If(z3.And(self.over.p(j), self.p(j)), 1, 0))])
        return Cnt([(self.n, lambda j: z3.If(self.p(j), 1, 0))])

    def sum(self, *a, **k):
        return self.count() if not a and not k else no('sum')

    def nonzero(self):
        return (self.where(),)

    def where(self):
        if self.over is not None:
            raise Unsupported('positions within a selection')
        return Picks(self.n, self.p, lambda j: (z3.BoolVal(False), j))

    def __pv_len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __pv_np__(self, f, a, k):
        return NPF(f, a, k)


class Mask2(Base):
    def __init__(self, rows, n, p):
        self.rows, self.n, self.p = rows, n, p

    def _z(self, o, f):
        if not isinstance(o, Mask2) or not z3.eq(zi(o.n), zi(self.n)) or o.rows != self.rows:
            raise Unsupported('masks of different arrays')
        return Mask2(self.rows, self.n, lambda r, j: f(self.p(r, j), o.p(r, j)))

    def __and__(self, o):
        return self._z(o, z3.And)

    def __or__(self, o):
        return self._z(o, z3.Or)

    def __invert__(self):
        return Mask2(self.rows, self.n, lambda r, j: z3.Not(self.p(r, j)))

    def __getitem__(self, r):
        if isinstance(r, int) and not isinstance(r, bool) and -self.rows <= r < self.rows:
            r = r % self.rows
            return Mask(self.n, lambda j: self.p(z3.IntVal(r), j))
        raise Unsupported('part of a table of truth values')

    def count(self):
        return Cnt([(self.n, lambda j, r=r: z3.If(self.p(z3.IntVal(r), j), 1, 0)) for r in range(self.rows)])

    def sum(self, *a, **k):
        return self.count() if not a and not k else no('sum')

    def __pv_np__(self, f, a, k):
        return NPF(f, a, k)


def rank(m):
    """the row-major number of a selected cell among the selected cells: equal masks number alike"""
    reg = eng.CUR.env.setdefault('ranks', [])
    r, j = z3.Int('row'), z3.Int('position')
    for o, f in reg:
        if o.rows == m.rows and z3.eq(zi(o.n), zi(m.n)):
            if true(z3.Implies(z3.And(r >= 0, r < m.rows, pos(m.n, j)), o.p(r, j) == m.p(r, j))):
                return f
    f = z3.Function(f'rank{len(reg)}', I, I, I)
    reg.append((m, f))
    return f


class Rng(Base):
    """lo, lo + 1, ..., hi - 1"""

    def __init__(self, lo, hi):
        self.lo, self.hi = Cnt.of(lo), Cnt.of(hi)

    def __add__(self, k):
        return Rng(self.lo + k, self.hi + k)
    __radd__ = __add__

    def __sub__(self, k):
        return Rng(self.lo - k, self.hi - k)

    def astype(self, t):
        return self


class Row(Base):
    """n cells, each of them nan or a whole number"""
    ndim = 1

    def __init__(self, n, cell):
        self.n, self.cell = n, cell

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __pv_len__(self):
        return self.n

    def isnan(self):
        return Mask(self.n, lambda j: self.cell(j)[0])

    def __getitem__(self, m):
        if isinstance(m, Mask) and z3.eq(zi(m.n), zi(self.n)) and m.over is None:
            return Picks(self.n, m.p, self.cell)
        if isinstance(m, Picks):
            return m.map(lambda nan, v: self.cell(v) if z3.is_false(nan) else no('nan as a position'))
        if isinstance(m, Order):
            return Row(self.n, lambda j: self.cell(m.at(j)))
        if isinstance(m, (int, SI)) and not isinstance(m, bool):
            eng.CUR.prove('positions lie within the array', pos(self.n, zi(m)))
            nan, v = self.cell(zi(m))
            return Cell(nan, v)
        raise Unsupported('part of a row')

    def _c(self, o, f):
        if not eng.isint(o):
            raise Unsupported('comparison')
        return Mask(self.n, lambda j: z3.And(z3.Not(self.cell(j)[0]), f(self.cell(j)[1], zi(o))))

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __pv_np__(self, f, a, k):
        return NPF(f, a, k)


class Cell(Base):
    def __init__(self, nan, v):
        self.nan, self.v = nan, v


class Picks(Base):
    """the cells val(j) of the positions with p(j), in increasing order"""
    ndim = 1

    def __init__(self, n, p, val, whole=False):
        self.n, self.p, self.val, self.whole = n, p, val, whole

    @property
    def size(self):
        return Cnt([(self.n, lambda j: z3.If(self.p(j), 1, 0))])

    def __pv_len__(self):
        return self.size

    @property
    def shape(self):
        return (self.size,)

    def isnan(self):
        return Mask(self.n, lambda j: self.val(j)[0], self)

    def map(self, f):
        return Picks(self.n, self.p, lambda j: f(*self.val(j)))

    def astype(self, t, **k):
        eng.CUR.prove('what becomes an integer is not nan', z3.Implies(z3.And(pos(self.n, z3.Int('position')), self.p(z3.Int('position'))),
                                                                       z3.Not(self.val(z3.Int('position'))[0])))
        return self

    def copy(self):
        return self
    flatten = ravel = copy

    def __getitem__(self, m):
        if isinstance(m, Mask) and m.over is self:
            return Picks(self.n, lambda j: z3.And(self.p(j), m.p(j)), self.val)
        if isinstance(m, slice) and m == slice(None):
            return self
        raise Unsupported('part of a selection')

    def same(self, o):
        if not isinstance(o, Picks) or not z3.eq(zi(o.n), zi(self.n)):
            return False
        j = z3.Int('position')
        a, b = self.val(j), o.val(j)
        eq = z3.Or(z3.And(a[0], b[0]), z3.And(z3.Not(a[0]), z3.Not(b[0]), a[1] == b[1]))
        return true(z3.Implies(pos(self.n, j), z3.And(self.p(j) == o.p(j), z3.Implies(self.p(j), eq))))

    def __pv_np__(self, f, a, k):
        return NPF(f, a, k)


class PicksAll(Base):
    """the selected cells of a table, row by row"""

    def __init__(self, rows, n, p, val):
        self.rows, self.n, self.p, self.val = rows, n, p, val

    def astype(self, t, **k):
        r, j = z3.Int('row'), z3.Int('position')
        eng.CUR.prove('what becomes an integer is not nan', z3.Implies(z3.And(r >= 0, r < self.rows, pos(self.n, j), self.p(r, j)),
                                                                       z3.Not(self.val(r, j)[0])))
        return self

    def same(self, o):
        r, j = z3.Int('row'), z3.Int('position')
        return isinstance(o, PicksAll) and o.rows == self.rows and z3.eq(zi(o.n), zi(self.n)) and true(
            z3.Implies(z3.And(r >= 0, r < self.rows, pos(self.n, j)), z3.And(self.p(r, j) == o.p(r, j), z3.Implies(
                self.p(r, j), z3.And(self.val(r, j)[0] == o.val(r, j)[0], self.val(r, j)[1] == o.val(r, j)[1])))))

    def copy(self):
        return self
    flatten = ravel = copy


class Order(Base):
    """positions one selection after the other; argsort undoes an order in which every position stands once"""

    def __init__(self, parts):
        self.parts = list(parts)
        self.f = z3.Function(f'order{id(self)}', I, I)

    def at(self, j):
        return self.f(j)

    def same(self, parts):
        return len(parts) == len(self.parts) and all(a.same(b) for a, b in zip(self.parts, parts))

    def __pv_len__(self):
        return sum((p.size for p in self.parts), Cnt([]))

    def __getitem__(self, o):
        return Composed() if isinstance(o, (Order, Undo)) else no('part of an order')

    def astype(self, t, **k):
        return self

    def copy(self):
        return self

    def once(self, n):
        """every position stands in exactly one of the parts"""
        j = z3.Int('position')
        ps = [z3.If(p.p(j), 1, 0) for p in self.parts]
        return all(z3.eq(zi(p.n), zi(n)) for p in self.parts) and true(z3.Implies(pos(n, j), z3.Sum(ps) == 1)) and \
            all(true(z3.Implies(z3.And(pos(n, j), p.p(j)), z3.And(z3.Not(p.val(j)[0]), p.val(j)[1] == j))) for p in self.parts)

    def __pv_np__(self, f, a, k):
        if f == 'argsort':
            if set(k) - {'kind', 'axis'} or len(a) > 1:
                raise Unsupported('argsort')
            return Undo(self)
        raise Unsupported(f'{f} of an order')


class Composed(Base):
    pass


class Undo(Base):
    def __init__(self, order):
        self.order = order
        self.f = z3.Function(f'undo{id(self)}', I, I)

    def at(self, j):
        return self.f(j)

    def same(self, parts):
        return False


class Grid(Base):
    """rows x n cells"""
    ndim = 2

    def __init__(self, rows, n, cell, gather=None):
        self.rows, self.n, self.cell, self.gather = rows, n, cell, gather

    @property
    def shape(self):
        return (self.rows, self.n)

    def copy(self):
        return Grid(self.rows, self.n, self.cell, self.gather)

    def isnan(self):
        c = self.cell
        return Mask2(self.rows, self.n, lambda r, j: c(r, j)[0])

    def row(self, r):
        c = self.cell
        return Row(self.n, lambda j: c(z3.IntVal(r), j))

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2:
            i, j = ix
            if isinstance(i, slice) and i == slice(None) and isinstance(j, (Order, Undo)):
                c = self.cell
                return Grid(self.rows, self.n, lambda r, k: c(r, j.at(k)), (c, j))
            if isinstance(j, slice) and j == slice(None):
                return self[i]
            return self[i][j]
        if isinstance(ix, int) and not isinstance(ix, bool) and -self.rows <= ix < self.rows:
            return self.row(ix % self.rows)
        if isinstance(ix, Mask2):
            return PicksAll(self.rows, self.n, ix.p, self.cell)
        raise Unsupported('part of a table')

    def __setitem__(self, ix, v):
        c = self.cell
        if isinstance(ix, Mask2):
            if isinstance(v, Rng):
                eng.CUR.goal('as many numbers as cells', (v.hi - v.lo).same(ix.count()), backend='pointwise')
                if v.lo.terms or not isinstance(v.lo.const, int):
                    raise Unsupported('numbers from an unknown first one')
                f, lo = rank(ix), v.lo.const
                self.cell = lambda r, j: (z3.And(z3.Not(ix.p(r, j)), c(r, j)[0]), z3.If(ix.p(r, j), lo + f(r, j), c(r, j)[1]))
                return
            raise Unsupported('what is stored under a mask')
        if isinstance(ix, tuple) and len(ix) == 2 and eng.isint(ix[1]):
            i, k = ix
            k = zi(k)
            if not (eng.isint(v) or isinstance(v, float) and v == 1):
                raise Unsupported('what is stored')
            v = zi(int(v) if isinstance(v, float) else v)
            if isinstance(i, Ints):
                d = z3.Int('any_date')
                eng.CUR.prove('rows lie within the table', z3.Implies(i.has(d), z3.And(d >= 0, d < self.rows)))
                hit = lambda r, j: z3.And(j == k, i.has(r))
            elif eng.isint(i):
                eng.CUR.prove('rows lie within the table', z3.And(zi(i) >= 0, zi(i) < self.rows))
                hit = lambda r, j: z3.And(j == k, r == zi(i))
            else:
                raise Unsupported('where it is stored')
            eng.CUR.prove('positions lie within the array', pos(self.n, k))
            self.cell = lambda r, j: (z3.And(z3.Not(hit(r, j)), c(r, j)[0]), z3.If(hit(r, j), v, c(r, j)[1]))
            return
        raise Unsupported('what is stored where')

    def __eq__(self, o):
        if not (eng.isint(o) or isinstance(o, float) and o == int(o)):
            raise Unsupported('comparison')
        o, c = zi(int(o)), self.cell
        return Mask2(self.rows, self.n, lambda r, j: z3.And(z3.Not(c(r, j)[0]), c(r, j)[1] == o))

    def same(self, cell):
        r, j = z3.Int('row'), z3.Int('position')
        a, b = self.cell(r, j), cell(r, j)
        return true(z3.Implies(z3.And(r >= 0, r < self.rows, pos(self.n, j)),
                               z3.Or(z3.And(a[0], b[0]), z3.And(z3.Not(a[0]), z3.Not(b[0]), a[1] == b[1]))))

    def __pv_np__(self, f, a, k):
        return NPF(f, a, k)


def NPF(f, a, k):
    x = a[0]
    if f == 'isnan' and not k and isinstance(x, (Row, Grid, Picks)):
        return x.isnan()
    if f in ('where', 'nonzero') and len(a) == 1 and not k and isinstance(x, Mask):
        return x.nonzero()
    if f == 'flatnonzero' and len(a) == 1 and isinstance(x, Mask):
        return x.where()
    if f in ('count_nonzero', 'sum') and len(a) == 1 and not k and isinstance(x, (Mask, Mask2)):
        return x.count()
    if f == 'nansum' and len(a) == 1 and not k and isinstance(x, Grid):
        c = x.cell
        return Cnt([(x.n, lambda j, r=r: z3.If(c(z3.IntVal(r), j)[0], 0, c(z3.IntVal(r), j)[1])) for r in range(x.rows)])
    if f in ('logical_and', 'logical_or') and len(a) == 2 and not k:
        return a[0] & a[1] if f == 'logical_and' else a[0] | a[1]
    if f in ('logical_not', 'invert') and len(a) == 1 and not k:
        return ~x
    if f in ('asarray', 'array', 'atleast_1d', 'ascontiguousarray') and len(a) == 1 and not k:
        return x
    raise Unsupported(f'no contract for {f} here')


class NpNs:
    """numpy over tables, ranges and positions of unknown number"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        r = getattr(self.real, name)
        if isinstance(r, type) or not callable(r):
            return r

        def call(*a, **k):
            g = globals().get('np_' + name)
            if g is not None:
                out = g(*a, **k)
                if out is not None:
                    return out
            for x in list(a) + list(k.values()):
                if isinstance(x, Base):
                    return x.__pv_np__(name, a, k) if hasattr(x, '__pv_np__') else no(f'no contract for {name} here')
                if isinstance(x, (tuple, list)) and any(isinstance(y, (Base, SI)) for y in x) or isinstance(x, SI):
                    no(f'no contract for {name} here')
            return r(*a, **k)
        return call


def np_full(shape, fill_value, *a, **k):
    import numpy as np
    if isinstance(shape, tuple) and len(shape) == 2 and isinstance(shape[0], int) and isinstance(shape[1], SI):
        if isinstance(fill_value, float) and np.isnan(fill_value):
            v = (z3.BoolVal(True), z3.IntVal(0))
        elif eng.isint(fill_value) or isinstance(fill_value, float) and fill_value == int(fill_value):
            v = (z3.BoolVal(False), z3.IntVal(int(fill_value)))
        else:
            no('what the table is filled with')
        return Grid(shape[0], shape[1], lambda r, j: v)


def np_arange(*a, **k):
    if any(isinstance(x, (Cnt, SI)) for x in a) and len(a) <= 2 and not (set(k) - {'dtype'}):
        return Rng(*(a if len(a) == 2 else (0, a[0])))


def np_concatenate(parts, *a, **k):
    if isinstance(parts, (tuple, list)) and any(isinstance(p, Base) for p in parts):
        if a or k.get('axis', 0) != 0 or set(k) - {'axis'} or not all(isinstance(p, (Picks, Order)) for p in parts):
            no('what is put together')
        return Order([q for p in parts for q in (p.parts if isinstance(p, Order) else [p])])


def np_hstack(parts):
    return np_concatenate(parts)


def np_array(x, dtype=None, *a, **k):
    if isinstance(x, IntSet):
        if a or k or dtype not in (None, int) and not getattr(dtype, '__name__', '') == 'pv_int':
            no('an array of dates')
        return Ints(x.has, x)


def np_asarray(x, dtype=None, *a, **k):
    return np_array(x, dtype, *a, **k)


def np_fromiter(x, dtype=None, *a, **k):
    return np_array(x, dtype, *a, **k)


class IntSet(Base):
    """a finite set of integers (or a list of its elements); has(k) is its membership"""
    __pv_concrete__ = False

    def __init__(self, has, frozen=None):
        self.has, self.frozen = has, frozen

    def add(self, k):
        self.own()
        h, k = self.has, zi(k)
        self.has = lambda d: z3.Or(h(d), d == k)

    def own(self):
        if self.frozen:
            eng.CUR.goal(self.frozen, False, backend='evaluation')
            raise eng.PathEnd()

    def _other(self, o):
        if isinstance(o, IntSet):
            return o.has
        if isinstance(o, (set, tuple, list, frozenset)):
            o = [zi(x) for x in o]
            return lambda d: z3.Or([d == x for x in o])
        raise Unsupported('a set of something else')

    def union(self, *os):
        hs = [self.has] + [self._other(o) for o in os]
        return IntSet(lambda d: z3.Or([h(d) for h in hs]))

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def update(self, *os):
        self.own()
        self.has = self.union(*os).has

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        return IntSet(self.has)

    def pv_list(self):
        return IntSet(self.has)

    def __contains__(self, k):
        return bool(SB(self.has(zi(k))))

    def __bool__(self):
        return bool(Ints(self.has, self).size != 0)

    def __pv_len__(self):
        return Ints(self.has, self).size


class Ints(Base):
    """an array of distinct integers"""

    def __init__(self, has, of):
        self.has, self.of = has, of

    def _sh(self, k):
        if not eng.isint(k):
            no('dates')
        h, k = self.has, zi(k)
        return Ints(lambda d: h(d - k), self.of)

    def __add__(self, k):
        return self._sh(k)
    __radd__ = __add__

    def __sub__(self, k):
        return self._sh(-k)

    def astype(self, t, **k):
        return self

    @property
    def size(self):
        n = eng.fresh_int(f'number{len(eng.CUR.env.setdefault("sizes", []))}', 0)
        eng.CUR.env['sizes'].append(n)
        d = z3.Int('date')
        eng.CUR.assume((zi(n) == 0) == z3.ForAll([d], z3.Not(self.has(d))))
        return n

    def __pv_len__(self):
        return self.size

    def _ext(self, low):
        m = eng.fresh_int(f'ext{len(eng.CUR.env.setdefault("exts", []))}')
        eng.CUR.env['exts'].append(m)
        d = z3.Int('date')
        eng.CUR.prove('the list of dates is not empty', z3.Exists([d], self.has(d)))
        eng.CUR.assume(self.has(zi(m)))
        eng.CUR.assume(z3.ForAll([d], z3.Implies(self.has(d), zi(m) <= d if low else zi(m) >= d)))
        return m

    def min(self):
        return self._ext(True)

    def max(self):
        return self._ext(False)

    def __pv_np__(self, f, a, k):
        if f in ('min', 'amin', 'max', 'amax') and len(a) == 1 and not k:
            return self._ext('min' in f)
        if f == 'sort' and len(a) == 1 and not k:
            return self
        raise Unsupported(f'{f} of dates')


def pv_int(x=0, *a):
    if hasattr(x, '__pv_int__'):
        return x.__pv_int__()
    return _pv_int(x, *a)


npshim.FAKE[pv_int] = int


class SetType:
    """set, sorted, tuple over sets of dates"""


def pv_set(*a):
    if not a:
        return IntSet(lambda d: z3.BoolVal(False))
    if isinstance(a[0], IntSet):
        return IntSet(a[0].has)
    if isinstance(a[0], (set, list, tuple)) and (not a[0] or any(isinstance(x, SI) for x in a[0])):
        return IntSet(IntSet(None)._other(a[0]))
    return set(*a)


def pv_sorted(x, *a, **k):
    if isinstance(x, IntSet):
        return IntSet(x.has) if not a and not k else no('an order of dates')
    return sorted(x, *a, **k)


def pv_tuple(*a):
    if a and isinstance(a[0], IntSet):
        return IntSet(a[0].has)
    return tuple(*a)


def pv_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], IntSet) and not k:
        return Ints(a[0].has, a[0])._ext(True)
    return min(*a, **k)


def pv_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], IntSet) and not k:
        return Ints(a[0].has, a[0])._ext(False)
    return max(*a, **k)


npshim.FAKE[pv_set] = set
npshim.FAKE[pv_tuple] = tuple
GLOB = {'int': pv_int, 'set': pv_set, 'sorted': pv_sorted, 'min': pv_min, 'max': pv_max, 'tuple': pv_tuple, 'list': npshim.pv_list, 'len': npshim.pv_len,
        'enumerate': npshim.pv_enumerate, 'isinstance': npshim.pv_isinstance, 'sum': npshim.pv_sum, 'range': npshim.pv_range}
