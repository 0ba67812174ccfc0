"""Noncommutative polynomials in named matrices: equalities follow from the facts of the atoms (an inverse is an inverse, a
solution solves its equation) by linear algebra over the products that occur; a claimed zero that is not one is refuted by
evaluating the atoms with random numbers that satisfy the same facts."""
from fractions import Fraction
import zlib
from . import eng
from .eng import SI, SB, zi, Unsupported
z3 = eng.z3


class Reg:
    """the atoms of one execution"""

    def __init__(self):
        self.dims, self.defs, self.reps = {}, {}, []

    def index(self, k):
        """a name for the index k; equal indices share it"""
        k = zi(k)
        k = z3.simplify(k)
        for r in self.reps:
            if z3.eq(r, k):
                return self.reps.index(r)
        for j, r in enumerate(self.reps):
            if eng.CUR.entails(r == k):
                return j
        self.reps.append(k)
        return len(self.reps) - 1


def reg():
    return eng.CUR.env.setdefault('poly', Reg())


def atom(name, rows, cols=None, k=None, define=None):
    """define = (M, R): the atom solves M x + R = 0;  ('inv', M): it is the inverse of M"""
    if k is not None:
        name = f'{name}[{reg().index(k)}]'
    if define is not None and name not in reg().defs:
        reg().defs[name] = define
    reg().dims[name] = (rows, cols)
    return Poly({(name,): Fraction(1)}, rows, cols)


class Poly:
    """rows, cols: tags of the dimensions; cols None is a vector"""
    __pv__ = True
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, terms, rows, cols=None):
        self.t, self.rows, self.cols = {m: q for m, q in terms.items() if q}, rows, cols

    @property
    def ndim(self):
        return 1 if self.cols is None else 2

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a matrix')

    def _lin(self, o, s):
        o = lift(o)
        if not isinstance(o, Poly):
            raise Unsupported('sum of a matrix and something else')
        if (self.rows, self.cols) != (o.rows, o.cols):
            raise Unsupported('sum of arrays of different shapes')
        t = dict(self.t)
        for m, q in o.t.items():
            t[m] = t.get(m, 0) + s * q
        return Poly(t, self.rows, self.cols)

    def __add__(self, o): return self._lin(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._lin(o, -1)
    def __rsub__(self, o): return (-self)._lin(o, 1)

    def __neg__(self):
        return Poly({m: -q for m, q in self.t.items()}, self.rows, self.cols)

    def __mul__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return Poly({m: q * Fraction(o) for m, q in self.t.items()}, self.rows, self.cols)
        if isinstance(lift(o), Scal):
            return times(self, lift(o))
        raise Unsupported('elementwise product')
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o:
            return self * (1 / Fraction(o))
        raise Unsupported('division')

    def __matmul__(self, o): return mul(self, o)
    def __rmatmul__(self, o): return mul(o, self)
    def dot(self, o): return mul(self, o, True)
    def copy(self): return self

    def ravel(self):
        return squeeze(self) if self.cols is None or self.cols == '1' else self.__getattr__('ravel')
    flatten = ravel

    def _no(self, *a):
        raise Unsupported('an operation on a matrix')
    __iter__ = __bool__ = __len__ = __getitem__ = __setitem__ = __lt__ = __gt__ = __eq__ = __ne__ = __pow__ = _no


class Scal:
    """a single number"""
    __pv__ = True

    def __init__(self, terms):
        self.t = terms


def lift(x):
    return x.poly() if hasattr(type(x), 'poly') else x


def zero(rows, cols=None):
    return Poly({}, rows, cols)


def one(n):
    return Poly({(): Fraction(1)}, n, n)


def join(a, b):
    t = {}
    for m, q in a.items():
        for k, r in b.items():
            t[m + k] = t.get(m + k, 0) + q * r
    return t


def times(a, s):
    return Poly(join(a.t, s.t), a.rows, '1' if a.cols is not None else None)


def mul(a, b, dot=False):
    a, b = lift(a), lift(b)
    if isinstance(b, Scal) and isinstance(a, Poly) and dot:
        return times(a, b)
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        raise Unsupported('product of something else')
    if a.cols is None or a.cols != b.rows:
        raise Unsupported('product of arrays that do not fit')
    return Poly(join(a.t, b.t), a.rows, b.cols)


def squeeze(a):
    a = lift(a)
    if isinstance(a, Scal) or a.cols is None:
        return a
    if a.cols == '1':
        return Poly(a.t, a.rows)
    raise Unsupported('squeeze')


def inverse(m):
    if not isinstance(m, Poly) or m.cols != m.rows:
        raise Unsupported('inverse')
    key = 'inv' + str(sorted((k, str(q)) for k, q in m.t.items()))
    names = eng.CUR.env.setdefault('inverses', {})
    name = names.setdefault(key, f'X{len(names)}')
    return atom(name, m.rows, m.rows, define=('inv', m))


def solve(m, b):
    return mul(inverse(m), b)


# ---------------------------------------------------------------- proving
def facts(p):
    """the facts of the inverses, and of the solutions named in p"""
    out = []
    here = {n for m in p.t for n in m}
    for n in list(reg().defs):
        d = reg().defs[n]
        if callable(d):
            if n not in here:
                continue
            d = reg().defs[n] = d()
        x = Poly({(n,): Fraction(1)}, *reg().dims[n])
        if isinstance(d[0], str):
            out += [mul(d[1], x) - one(x.rows), mul(x, d[1]) - one(x.rows)]
        else:
            out.append(mul(d[0], x) + d[1])
    return [f.t for f in out if f.t]


def member(goal, fs, rounds=3, cap=600):
    """is goal a combination of l f r?"""
    mons, seen, gens = set(goal), set(), []
    for _ in range(rounds):
        new = set()
        for f in range(len(fs)):
            for fm in fs[f]:
                n = len(fm)
                for m in mons:
                    for i in range(len(m) - n + 1):
                        if n and m[i:i + n] != fm:
                            continue
                        key = (f, m[:i], m[i + n:])
                        if key in seen or not n:
                            continue
                        seen.add(key)
                        g = {m[:i] + k + m[i + n:]: q for k, q in fs[f].items()}
                        gens.append(g)
                        new |= set(g)
                        if len(gens) > cap:
                            return False
        rest = reduce(goal, gens)
        if rest:
            return True
        if new <= mons:
            return False
        mons |= new
    return False


def reduce(goal, gens):
    rows = {}

    def clear(v):
        # full elimination from the left
        v = {k: q for k, q in v.items() if q}
        out = {}
        while v:
            p = min(v)
            q = v.pop(p)
            if p in rows:
                for k, r in rows[p].items():
                    if k != p:
                        v[k] = v.get(k, 0) - q * r
                        if not v[k]:
                            del v[k]
            else:
                out[p] = q
        return out
    for g in gens:
        v = clear(g)
        if v:
            p = min(v)
            q = v[p]
            rows[p] = {k: r / q for k, r in v.items()}
    return not clear(goal)


def numeric(poly, sizes=None):
    import numpy as np
    sizes = sizes or {'n': 3, 'e': 2, '1': 1}
    if eng.CUR.env.get('one_shock'):
        sizes['e'] = 1
    memo = {}

    def val(n):
        if n not in memo:
            d = reg().defs.get(n)
            r, c = reg().dims[n]
            if d is None or callable(d):
                g = np.random.default_rng(zlib.crc32(n.encode()))
                memo[n] = g.normal(size=(sizes[r], 1 if c is None else sizes[c]))
            elif isinstance(d[0], str):
                memo[n] = np.linalg.inv(ev(d[1]))
            else:
                memo[n] = -np.linalg.solve(ev(d[0]), ev(d[1]))
        return memo[n]

    def ev(p):
        out = np.zeros((sizes[p.rows], 1 if p.cols is None else sizes[p.cols]))
        for m, q in p.t.items():
            x = np.eye(sizes[p.rows])
            for a in m:
                x = x @ val(a)
            out = out + float(q) * x
        return out
    return float(np.abs(ev(poly)).max()) if poly.t else 0.


def prove_zero(name, poly, strict=True):
    c = eng.CUR
    if not isinstance(poly, Poly):
        raise Unsupported('the value of the claim')
    if not poly.t or member(poly.t, facts(poly)):
        c.goal(name, True, backend='normal form')
        return
    apart(poly)
    x = numeric(poly)
    if x > 1e-6:
        c.goal(name, False, backend='evaluation', detail=f'off by {x:.3g} for random matrices: {show(poly)}; {c.where()}', strict=strict)
        return
    raise Unsupported(f'{name}: neither derived nor refuted')


def apart(p):
    """different names of one family stand for different periods"""
    names = [n for m in p.t for n in m if n.endswith(']')]
    ks = sorted({(n.split('[')[0], int(n.split('[')[1][:-1])) for n in names})
    r = reg().reps
    for f, a in ks:
        for g, b in ks:
            if f == g and a < b and eng.CUR.decide(r[a] == r[b]):
                raise Unsupported('two periods that are the same')


def show(p):
    return ' + '.join(f'{q}*' + '.'.join(m) for m, q in list(p.t.items())[:12])[:600]
