"""Structural induction over syntax trees.  A visitor is run on one node of every kind whose children are leaves or opaque
subtrees: for those the visitor's own contract is used (the induction hypothesis).  An opaque subtree stands for any tree; it
carries one arbitrary leaf (the probe), and what a visitor does to the subtree is taken to be what the same visitor does to
the probe, plus the value the contract promises.  Names are opaque: the code may compare, hash and format them, nothing else."""
from . import eng, arr
from .eng import SI, SB, zi, Unsupported
z3 = eng.z3


# ------------------------------------------------------------------ names
class Nm(str):
    """a name of which nothing is known but its identity"""
    __hash__ = str.__hash__

    def _no(self, *a, **k):
        raise Unsupported('the letters of a name are inspected')

    def __format__(self, spec):
        if spec:
            raise Unsupported('the letters of a name are inspected')
        return str.__str__(self)

    def __str__(self):
        return self

    def __deepcopy__(self, memo):
        return self


for _n in ('lower', 'upper', 'startswith', 'endswith', 'strip', 'split', 'replace', 'find', 'index', 'isupper', 'islower', 'isalpha',
           '__getitem__', '__contains__', '__iter__', '__len__', '__lt__', '__gt__', '__le__', '__ge__', 'encode', 'casefold',
           'title', 'capitalize', 'rstrip', 'lstrip', 'partition', 'count', 'isalnum', 'isidentifier', 'swapcase', '__mod__'):
    setattr(Nm, _n, Nm._no)


def fresh_name(hint='n'):
    e = eng.CUR.env
    e['names'] = e.get('names', 0) + 1
    return Nm(f'\u00ab{hint}{e["names"]}\u00bb')


# ------------------------------------------------------------------ values
R = z3.RealSort()
POW = z3.Function('power', R, R, R)


class RV:
    """a real number"""
    __array_ufunc__ = None
    __pv__ = True
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def _b(self, o, f, r=False):
        x = rv(o)
        if x is None:
            return NotImplemented
        return RV(f(x, self.e) if r else f(self.e, x))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: a / b, True)
    def __pow__(self, o): return self._b(o, power)
    def __rpow__(self, o): return self._b(o, power, True)
    def __neg__(self): return RV(-self.e)
    def __pos__(self): return self
    def __abs__(self): return RV(fun('abs', self.e))

    def _c(self, o, f):
        x = rv(o)
        if x is None:
            return NotImplemented
        return SB(f(self.e, x))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    __hash__ = None

    def __bool__(self):
        return eng.CUR.decide(self.e != 0)

    def __float__(self):
        raise Unsupported('a number is inspected')

    def __pv_isinstance__(self, ts):
        if any(t in ts for t in (RV, object)) or (int in ts and float in ts):
            return True
        if int in ts or float in ts:
            raise Unsupported('whether a number is whole')
        return False

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round')
        return RV(fun('round', self.e))

    def __repr__(self):
        return f'RV({self.e})'


def power(a, b):
    return POW(a, b)


def num(x):
    import fractions
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('not a finite number')
    return z3.RealVal(str(fractions.Fraction(x)))


def rv(x):
    if isinstance(x, RV):
        return x.e
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        return num(x)
    import numpy as np
    if isinstance(x, (np.floating, np.integer)):
        return num(float(x))
    if z3.is_expr(x) and x.sort() == R:
        return x
    return None


FUNS = {}


def fun(name, *xs):
    k = (name, len(xs))
    if k not in FUNS:
        FUNS[k] = z3.Function('f_' + name, *([R] * (len(xs) + 1)))
    return FUNS[k](*xs)


ALIAS = {'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan'}


class FunNS:
    """the module of elementary functions"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(self._real, name)

        def call(*a, **k):
            if a and all(rv(x) is not None for x in a):
                if k:
                    raise Unsupported(f'options of {name}')
                n = ALIAS.get(name, name)
                if n == 'negative':
                    return -a[0]
                if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power'):
                    import operator as op
                    return {'add': op.add, 'subtract': op.sub, 'multiply': op.mul, 'power': op.pow}.get(n, op.truediv)(*a)
                return RV(fun(n, *[rv(x) for x in a]))
            return real(*a, **k)
        return call if callable(real) and not isinstance(real, type) else real


def erf(x):
    return RV(fun('erf', rv(x)))


def fresh_value(hint='v'):
    e = eng.CUR.env
    e['values'] = e.get('values', 0) + 1
    return RV(z3.Real(f'{hint}{e["values"]}'))


def same_value(a, b):
    """a and b are the same number (or truth value) on every path"""
    if isinstance(a, SB) or isinstance(b, SB) or isinstance(a, bool) or isinstance(b, bool):
        x, y = eng.unwrap(a) if isinstance(a, (SB, bool)) else None, eng.unwrap(b) if isinstance(b, (SB, bool)) else None
        if x is None or y is None:
            return z3.BoolVal(False)
        return (z3.BoolVal(x) if isinstance(x, bool) else x) == (z3.BoolVal(y) if isinstance(y, bool) else y)
    x, y = rv(a), rv(b)
    if x is None or y is None:
        return z3.BoolVal(False)
    return x == y


# ------------------------------------------------------------------ nodes
class Opaque:
    """mixed into a node class: any subtree of that class"""

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'the {a} of a child that the contract does not describe')

    def __deepcopy__(self, memo):
        import copy
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.__dict__['probe'] = copy.deepcopy(self.__dict__['probe'], memo)
        memo[id(self)] = r
        return r

    def __repr__(self):
        return f'<any {type(self).__name__}>'


class Trees:
    """builds the nodes of the loaded syntax-tree module and knows what they mean"""

    def __init__(self, w, rho):
        self.w = w
        self.ast, self.base = w.mods['pynare.parsing.ast'], w.mods['pynare.parsing.base']
        self.rho = rho                      # (name, date or None) -> value
        self.sems = {}
        b = self.base
        for n in ('np', 'numpy'):
            if n in b.__dict__:
                b.__dict__[n] = FunNS(b.__dict__[n])
        if hasattr(b, 'erf'):
            b.erf = erf
        cls = b.ABCVisitor
        self.orig = cls.visit
        t = self

        def visit(visitor, node):
            if isinstance(node, Opaque):
                return t.hypothesis(visitor, node)
            return t.orig(visitor, node)
        cls.visit = visit

    def tok(self, type_, value=None):
        return self.base.Token(type_, value if value is not None else type_, 1, 1)

    def hypothesis(self, visitor, node):
        node.__dict__['visits'] = node.__dict__.get('visits', 0) + 1
        out = self.orig(visitor, node.__dict__['probe'])
        leaf = node.__dict__['leaf']
        if isinstance(out, (RV, int, float)) and not isinstance(out, bool) and leaf is not None:
            # an evaluator: if the leaf is read correctly the subtree has its value
            want = self.leaf_value(leaf)
            if want is not None and eng.CUR.entails(same_value(out, want)):
                return node.__dict__['sem']
            return fresh_value('misread')
        return out

    def leaf_value(self, leaf):
        kind, *x = leaf
        if kind == 'num':
            return x[0]
        return self.rho(*x)

    # a node is (python object, meaning); meaning: value under rho
    def leaf(self, spec):
        kind, *x = spec
        if kind == 'num':
            return self.ast.Num(self.tok(self.base.NUMBER, x[0]))
        name, date = x
        v = self.ast.Var(self.tok(self.base.ID, name))
        if kind == 'var':
            return v
        m, p = self.base.MINUS, self.base.PLUS
        sign = {m: '-', p: '+'}
        d = m if date < 0 or (date == 0 and kind == 'period-') else p
        return self.ast.PeriodVar(v, self.tok(d, sign[d]), self.tok(self.base.NUMBER, float(abs(date))))

    def opaque(self, cls, leaf):
        sem = fresh_value('any')
        c = type(cls, (Opaque, getattr(self.ast, cls)), {})
        r = object.__new__(c)
        probe = self.ast.UnaryOp(self.tok(self.base.PLUS, '+'), self.leaf(leaf))
        r.__dict__.update(sem=sem, leaf=leaf, probe=probe, visits=0)
        return r

    OPS = {'PLUS': lambda a, b: a + b, 'MINUS': lambda a, b: a - b, 'MUL': lambda a, b: a * b, 'DIV': lambda a, b: a / b,
           'POWER': lambda a, b: a ** b}
    COMP = {'LT': lambda a, b: a < b, 'LTOE': lambda a, b: a <= b, 'GT': lambda a, b: a > b, 'GTOE': lambda a, b: a >= b,
            'EQUALITY': lambda a, b: a == b}
    FUN = {'exp': 'exp', 'log': 'log', 'ln': 'log', 'log10': 'log10', 'sqrt': 'sqrt', 'abs': 'abs', 'sign': 'sign', 'sin': 'sin',
           'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'erf': 'erf'}
    NOFUN = ('max', 'min', 'normcdf', 'normpdf')
    SYM = {'PLUS': '+', 'MINUS': '-', 'MUL': '*', 'DIV': '/', 'POWER': '^', 'LT': '<', 'LTOE': '<=', 'GT': '>', 'GTOE': '>=',
           'EQUALITY': '=='}

    def child(self, c, leaves, compounds=('BinaryOp', 'UnaryOp', 'Function')):
        """an arbitrary child: one of the leaves, or any compound over one of them"""
        i = c.choose(len(leaves) * (1 + len(compounds)))
        spec = leaves[i % len(leaves)]()
        k = i // len(leaves)
        if k == 0:
            return self.leaf(spec), self.leaf_value(spec), [spec]
        o = self.opaque(compounds[k - 1], spec)
        return o, o.__dict__['sem'], [spec]

    def node(self, c, leaves, kinds, compounds=('BinaryOp', 'UnaryOp', 'Function'), ops=None):
        """an arbitrary node of one of the kinds over arbitrary children -> node, its value (None: no value is defined), leaves"""
        kind = kinds[c.choose(len(kinds))]
        b, a = self.base, self.ast
        ch = lambda: self.child(c, leaves, compounds)
        if kind == 'leaf':
            spec = leaves[c.choose(len(leaves))]()
            return self.leaf(spec), self.leaf_value(spec), [spec]
        if kind == 'ModelExpression':
            (l, x, s), (r, y, t) = ch(), ch()
            return a.ModelExpression(l, r), x - y, s + t
        if kind == 'BinaryOp':
            all_ = ops or list(self.OPS)
            o = all_[c.choose(len(all_))]
            (l, x, s), (r, y, t) = ch(), ch()
            if o == 'DIV':
                c.assume(rv(y) != 0)
            return a.BinaryOp(l, self.tok(getattr(b, o), self.SYM[o]), r), self.OPS[o](x, y), s + t
        if kind == 'CompOp':
            all_ = ops or list(self.COMP)
            o = all_[c.choose(len(all_))]
            (l, x, s), (r, y, t) = ch(), ch()
            return a.CompOp(l, self.tok(getattr(b, o), self.SYM[o]), r), self.COMP[o](x, y), s + t
        if kind == 'UnaryOp':
            o = ('PLUS', 'MINUS')[c.choose(2)]
            l, x, s = ch()
            return a.UnaryOp(self.tok(getattr(b, o), self.SYM[o]), l), x if o == 'PLUS' else -x, s
        if kind == 'Function':
            names = list(self.FUN) + list(self.NOFUN)
            f = names[c.choose(len(names))]
            l, x, s = ch()
            return a.Function(self.tok(b.FUNCTION, f), l), RV(fun(self.FUN[f], rv(x))) if f in self.FUN else None, s
        raise Unsupported(kind)


def rvw(x):
    return x if isinstance(x, RV) else RV(rv(x))


# ------------------------------------------------------------------ frames
def snapshot(node):
    """the node as it is now, down to the opaque subtrees"""
    if isinstance(node, Opaque):
        return ('any', id(node), snapshot(node.__dict__['probe']))
    if isinstance(node, (list, tuple)):
        return tuple(snapshot(x) for x in node)
    if hasattr(node, '__dict__') and type(node).__module__.startswith('pynare.parsing'):
        return (type(node).__name__, id(node), tuple(sorted((k, snapshot(v)) for k, v in node.__dict__.items())))
    if isinstance(node, RV):
        return ('value', node.e.get_id())
    return ('x', str(node))


def kept(a, b):
    """everything the snapshot a records is still so in b (what has been added does not matter)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 3 and len(b) == 3 and isinstance(a[2], tuple) and isinstance(a[0], str):
            if a[:2] != b[:2]:
                return False
            d = dict(b[2]) if all(isinstance(x, tuple) and len(x) == 2 for x in b[2]) else None
            if d is not None:
                return all(k in d and kept(v, d[k]) for k, v in a[2])
        return len(a) == len(b) and all(kept(x, y) for x, y in zip(a, b))
    return a == b


def pv_int(x=0, *a):
    return RV(fun('trunc', x.e)) if isinstance(x, RV) and not a else x if isinstance(x, SI) else int(x, *a)


def pv_float(x=0.):
    return x if isinstance(x, RV) else float(x)


from . import npshim
npshim.FAKE[pv_int] = int
npshim.FAKE[pv_float] = float


# ------------------------------------------------------------------ mappings and lists of names
class PDict(dict):
    """a dictionary whose other entries are unknown: the code may look names up, nothing else"""

    def _no(self, *a, **k):
        raise Unsupported('the entries of an arbitrary dictionary are listed')
    keys = values = items = __iter__ = __len__ = copy = popitem = __bool__ = __reversed__ = _no

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        raise Unsupported('comparison of dictionaries')
    __hash__ = None


class SymNames:
    """a list of distinct names of unknown length; the names that matter have known (symbolic) positions"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, n, where=None):
        self.n, self.where = n, where if where is not None else {}

    def add(self, name, pos):
        self.where[name] = pos

    def find(self, name):
        return self.where.get(name)

    def __contains__(self, name):
        return self.find(name) is not None

    def __pv_len__(self):
        return self.n

    def __iter__(self):
        raise Unsupported('a loop over names of unknown number')

    def pv_list(self):
        return SymNames(self.n, dict(self.where))

    def index(self, name):
        p = self.find(name)
        if p is None:
            raise ValueError(name)
        return p

    def pv_map(self, f):
        from .load import SymList
        return SymList(self, f)

    def extend(self, o):
        if not isinstance(o, SymNames):
            raise Unsupported('extend')
        n0 = self.n
        a = dict(self.where)
        for k, p in o.where.items():
            if k in a:
                raise Unsupported('one name in two places')
            a[k] = n0 + p
        self.where, self.n = a, n0 + o.n

    def __add__(self, o):
        r = self.pv_list()
        r.extend(o)
        return r

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a list of names')


class SymEnum:
    __pv__ = True

    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def pv_map(self, f):
        if not hasattr(self.it, 'item'):
            raise Unsupported('a list over numbered things')
        from .seqs import Seq
        i0 = self.start
        return Seq(self.it.n, lambda i: f((i + i0, self.it.item(i))))

    def __iter__(self):
        raise Unsupported('a loop of unknown length without an invariant')


class DMap:
    """{key(x): value(x) for x in names if cond(x)}"""
    __pv__ = True

    def __init__(self, it, f):
        self.it, self.f = it, f
        self.names = it.it if isinstance(it, SymEnum) else it
        if not isinstance(self.names, SymNames):
            raise Unsupported('dictionary over an unknown list')
        # entries are under the names themselves
        g = fresh_name('e')
        r = f(self.item(SI(z3.Int('any_position')), g, True))
        if r is not None and r[0] != g:
            raise Unsupported('entries under other names')

    def item(self, i, e, quiet=False):
        return (i + self.it.start, e) if isinstance(self.it, SymEnum) else e

    def __getitem__(self, k):
        p = self.names.find(k)
        if p is None:
            raise KeyError(k)
        r = self.f(self.item(p, k))
        if r is None:
            raise KeyError(k)
        if r[0] != k:
            raise Unsupported('entries under other names')
        return r[1]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a dictionary over an unknown list')


class SymVec:
    """a vector of numbers, read by position"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, name, n):
        self.f, self.n = z3.Function(name, z3.IntSort(), R), n

    def at(self, i):
        return RV(self.f(z3.simplify(zi(i), som=True)))

    def __getitem__(self, i):
        if isinstance(i, (int, SI)) and not isinstance(i, bool):
            return self.at(i)
        raise Unsupported('part of a vector')

    def __pv_len__(self):
        return self.n

    def __iter__(self):
        raise Unsupported('a loop over a vector of unknown length')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a vector')
