"""Occasionally binding constraints: the parts of the linearised regimes, where the regimes change, the guess-and-verify
iteration and its inputs."""
import functools
from pv import eng, load, arr, model, npshim
from pv.arr import Lf, Cat, Tensor, sort, atoms, prove_equal, tensor, fit
from pv.contracts.common import Poison
from pv.eng import Unit, Unsupported, PathEnd, SI, SB, zi
from pv.seqs import Seq
from pv.tree import RV, rv, SymEnum
z3 = eng.z3

BIND = 'pynare.core.solve.binding'
MODS = ['pynare.utils.numpy', 'pynare.core.variables', 'pynare.core.solve.base', BIND]
I, B = z3.IntSort(), z3.BoolSort()


class Shut:
    __pv__ = True
    __array_ufunc__ = None

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {type(self).__name__}')

    def _no(self, *a):
        raise Unsupported(f'an operation on {type(self).__name__}')
    __iter__ = __bool__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __mul__ = __sub__ = __neg__ = __lt__ = __gt__ = __eq__ = _no
    __hash__ = None


class Over(Shut):
    """functions of numpy that are particular to a unit, the others as everywhere"""

    def __init__(self, **k):
        self.__dict__['own'] = k

    def __getattr__(self, a):
        own = self.__dict__['own']
        if a in own:
            return own[a]
        return getattr(npshim.NP, a)


def same(a, b):
    return eng.CUR.entails(zi(a) == zi(b))


# ---------------------------------------------------------------- the Jacobian by dates, at the reference steady state
class Derivatives(Shut):
    """the differentiated equations, in order: each takes the point and gives its row of derivatives"""

    def __init__(self):
        self.point = None

    def pv_map(self, f):
        r = f(DFunc(self))
        return self if r is self else None


class DFunc:
    def __init__(self, of):
        self.of = of

    def __call__(self, x):
        if self.of.point is not None:
            raise Unsupported('several points')
        self.of.point = x
        return self.of


def translated(d, im, ss):
    """the values at the dated variables of a regime, in the order of its incidence table"""
    part = lambda tag, ps: Tensor([d.cols], {})
    return None


def dated_values(d, ss):
    """(lagged, current, lead) values of the variables that the regime dates so"""
    v = lambda ks: Tensor([Cat([Lf(sort(k)) for k in ks], order='dc')], {(k,): ss.get((k,)) for k in Cat([Lf(sort(k)) for k in ks]).comps()})
    return arr.concatenate([v('BM'), v('SBMF'), v('MF')], 0)


def at_point(c, d, x, ss, extra=None):
    """the vector x lists ss at the dated variables, then zeros"""
    x = tensor(x)
    k = d.n_inc if extra is None else d.n_inc + extra
    c.prove('one value for every dated variable and shock', zi(x.shape[0]) == zi(k))
    lag = Cat([Lf(d.B, 'lag'), Lf(d.M, 'lag')], order='dc')
    cont = Cat([Lf(s, 'cont') for s in (d.S, d.B, d.M, d.F)], order='dc')
    lead = Cat([Lf(d.M, 'lead'), Lf(d.F, 'lead')], order='dc')
    axes = [a for a in (lag, cont, lead) if not arr.same(a.n, 0)]
    if extra is not None and not arr.same(extra, 0):
        axes.append(Lf(d.E, 'exo'))
    want = Tensor([Cat(axes)], {((s, t),): ss.get(((s, ''),)) for (s, t) in Cat(axes).comps() if t != 'exo'})
    prove_equal('the point is the reference steady state, dated as the regime is, without shocks', fit(x, want.axes), want)


def gather(a, ix, axis=0):
    a = tensor(a)
    if a.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported('take_along_axis')
    return a[ix]


def take(a, ix, axis=None, **k):
    return gather(a, ix, axis)


def glob():
    return {'np': Over(take_along_axis=gather, take=take, array=array)}


def array(x, *a, **k):
    if isinstance(x, Derivatives):
        return x.array
    return npshim.NP.array(x, *a, **k)


def partition(c):
    w = load.World(MODS, glob=None)
    d = model.Dims()
    im = model.indexes(w, d)
    w.mods[BIND].__dict__.update(glob())
    ss = atoms('ref', [d.dc])
    EQ = sort('EQ', d.n)
    J = atoms('J', [Lf(EQ), d.cols])
    fs = Derivatives()
    fs.array = J
    md = model.Obj(indexes=im, jacobian=model.Obj(linearized_funcs=fs), ss=model.Obj(values=atoms('own', [d.dc])))
    r = w[f'{BIND}:_occbin_partitioned_jacobian'](md, ss)
    if fs.point is None:
        raise Unsupported('the derivatives are not taken')
    at_point(c, d, fs.point, ss, d.E.n)
    lag, cur, lead, exo = r

    def dc(tag, ps):
        t = model.dated(J, d, tag, ps)
        return Tensor([Lf(EQ), d.dc], dict(t.blocks))
    for name, got, tag, ps in (('lagged', lag, 'lag', 'BM'), ('current', cur, 'cont', 'SBMF'), ('lead', lead, 'lead', 'MF')):
        prove_equal(f'the {name} part holds the derivatives in the {name} variables, in declaration order',
                    fit(tensor(got), [Lf(EQ), d.dc]), dc(tag, ps))
    s = arr.Sel(Lf(d.E), d.cols, {('E', ''): ('E', 'exo')} if not arr.same(d.E.n, 0) else {})
    want = J[:, s]
    prove_equal('the last part holds the derivatives in the shocks', fit(tensor(exo), want.axes), want)


PARTS = [f'the {n} part holds the derivatives in the {n} variables, in declaration order' for n in ('lagged', 'current', 'lead')] + \
    ['the last part holds the derivatives in the shocks', 'one value for every dated variable and shock',
     'the point is the reference steady state, dated as the regime is, without shocks']


def translate(c):
    w = load.World(MODS)
    d = model.Dims()
    im = model.indexes(w, d)
    w.mods[BIND].__dict__.update(glob())
    ss = atoms('ref', [d.dc])
    x = w[f'{BIND}:_translate_ss'](ss, model.Obj(indexes=im))
    at_point(c, d, x, ss)


# ---------------------------------------------------------------- where the regime changes
class Warn(Shut):
    """the warnings module: how many warnings were issued"""

    def __init__(self):
        self.n = 0

    def warn(self, *a, **k):
        self.n += 1


class Truths(Shut):
    """truth values, period by period"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __pv_len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('part of the regimes')
            lo = k.start or 0
            if not eng.isint(lo) or isinstance(lo, int) and lo < 0:
                raise Unsupported('part of the regimes')
            hi = self.n if k.stop is None else self.n + k.stop if isinstance(k.stop, int) and k.stop < 0 else k.stop
            eng.CUR.prove('periods lie within the horizon', z3.And(zi(lo) <= zi(hi), zi(hi) <= zi(self.n)))
            return Truths(hi - lo, lambda i: self.f(zi(i) + zi(lo)))
        if not eng.isint(k):
            raise Unsupported('part of the regimes')
        k = self.n + k if isinstance(k, int) and k < 0 else k
        eng.CUR.prove('periods lie within the horizon', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        return SB(self.f(zi(k)))


class Grow(Shut):
    """an array that grows at its end: its length and its entries"""

    def __init__(self, n, a, kind):
        self.n, self.a, self.kind = n, a, kind

    def __pv_len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    def __getitem__(self, k):
        if not eng.isint(k):
            raise Unsupported('part of a list of changes')
        k = self.n + k if isinstance(k, int) and k < 0 else k
        eng.CUR.prove('positions lie within the lists', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        e = z3.Select(self.a, zi(k))
        return SI(e) if self.kind == 'int' else SB(e)

    def copy(self):
        return Grow(self.n, self.a, self.kind)

    def grown(self, x):
        if self.kind == 'int':
            if not eng.isint(x):
                raise Unsupported('what is appended')
            x = zi(x)
        else:
            x = eng.unwrap(x)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
        return Grow(self.n + 1, z3.Store(self.a, zi(self.n), x), self.kind)


def grow(x):
    """a short array as one that can grow"""
    if isinstance(x, Grow):
        return x
    if isinstance(x, Truths) and x.n == 1:
        return Grow(1, z3.Store(z3.K(I, z3.BoolVal(False)), 0, x.f(z3.IntVal(0))), 'bool')
    if isinstance(x, list) and len(x) == 1:
        if isinstance(x[0], (SB, bool)):
            v = eng.unwrap(x[0])
            return Grow(1, z3.Store(z3.K(I, z3.BoolVal(False)), 0, v), 'bool')
        return Grow(1, z3.Store(z3.K(I, z3.IntVal(0)), 0, zi(x[0])), 'int')
    raise Unsupported('an array')


class Changes:
    """before period i is looked at: the last start, its regime, and that nothing changed since"""

    def __init__(self, c, vec):
        self.c, self.vec, self.used = c, vec, 0

    def claim(self, s, g, i):
        v, last = self.vec.f, z3.Select(s.a, zi(s.n) - 1)
        reg = z3.Select(g.a, zi(g.n) - 1)
        j = z3.Int('j')
        return [('as many regimes as starts', zi(s.n) == zi(g.n)), ('as many regimes as starts', zi(s.n) >= 1),
                ('the last start is a period already seen', z3.And(last >= 0, last < zi(i))),
                ('a single start is the first period', z3.Implies(zi(s.n) == 1, last == 0)),
                ('no change since the last start', z3.ForAll([j], z3.Implies(z3.And(j >= last, j < zi(i)), v(j) == reg))),
                ('the regime is another one before the last start', z3.Implies(last > 0, v(last - 1) != reg))]

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            self.used += 1
            it = st.it
            if self.used > 1 or not isinstance(it, npshim.SRange) or it.step != 1:
                raise Unsupported('the loop')
            gr = {n: grow(env[n]) for n in st.names if isinstance(env.get(n), (Grow, Truths, list))}
            ints = [n for n in st.names if n in env and isinstance(env[n], (int, SI)) and not isinstance(env[n], bool)]
            kinds = sorted((x.kind, n) for n, x in gr.items())
            if [k for k, _ in kinds] != ['bool', 'int']:
                raise Unsupported('other arrays')
            self.g, self.s = kinds[0][1], kinds[1][1]
            self.cnt = [n for n in ints if same(env[n], gr[self.s].n - 1)]
            self.lo, self.hi = it.lo, it.hi
            for name, x in self.claim(gr[self.s], gr[self.g], it.lo):
                c.prove(name, x)
            c.prove('every period of the horizon is looked at', z3.And(zi(it.lo) == 1, zi(it.hi) == zi(self.vec.n) - 1))
            for n in st.names:
                if n in env and n not in gr:
                    st.vals[n] = Poison()
            N = eng.fresh_int('starts', 1)
            s = Grow(N, z3.Array('start', I, I), 'int')
            g = Grow(N, z3.Array('regime', I, B), 'bool')
            st.vals[self.s], st.vals[self.g] = s, g
            for n in self.cnt:
                st.vals[n] = N - 1
            if c.choose(2):
                for name, x in self.claim(s, g, z3.If(zi(it.hi) >= zi(it.lo), zi(it.hi), zi(it.lo))):
                    c.assume(x)
                return
            i = eng.fresh_int('i')
            c.assume(z3.And(zi(i) >= zi(it.lo), zi(i) < zi(it.hi)))
            for name, x in self.claim(s, g, i):
                c.assume(x)
            st.body, st.item, self.i = True, i, i
        elif what == 'leave':
            s, g = grow(env[self.s]), grow(env[self.g])
            for name, x in self.claim(s, g, self.i + 1):
                c.prove(name, x)
            for n in self.cnt:
                if not same(env[n], s.n - 1):
                    raise Unsupported('a count that is not that of the changes')


def locate(c):
    n = eng.fresh_int('length', 2)
    f = z3.Function('binds', I, B)
    vec = Truths(n, lambda i: f(zi(i)))
    h = Changes(c, vec)
    warn = Warn()

    def app(a, x, axis=None):
        return grow(a).grown(x)

    def arr_(x, dtype=None, **k):
        return grow(x)
    w = load.World([BIND], loops={'*': h})
    w.mods[BIND].__dict__.update(np=Over(append=app, array=arr_), warnings=warn)
    s, g = w[f'{BIND}:_locate_regime_changes'](vec)
    if not h.used:
        raise Unsupported('no loop over the periods')
    if not isinstance(s, Grow) or not isinstance(g, (Grow, Truths)):
        raise Unsupported('the lists')
    last = s[-1]
    c.prove('the last change lies within the horizon', z3.And(zi(last) >= 0, zi(last) < zi(n) - 1 + z3.If(zi(n) == 2, 1, 0)))
    if warn.n:
        return
    j = eng.fresh_int('p')
    c.assume(z3.And(zi(j) >= zi(last), zi(j) < zi(n)))
    c.prove('without a warning, the model is in the reference regime from the last change on', z3.Not(f(zi(j))))
    c.prove('the period before the last change is constrained', z3.Implies(zi(last) > 0, f(zi(last) - 1)))


LOCATE = ['as many regimes as starts', 'the last start is a period already seen', 'no change since the last start',
          'the regime is another one before the last start', 'every period of the horizon is looked at',
          'the last change lies within the horizon',
          'without a warning, the model is in the reference regime from the last change on',
          'the period before the last change is constrained']


# ---------------------------------------------------------------- guess and verify
class Blk(Shut):
    """truth values: Q blocks of n periods, one after the other ('col') or side by side ('mat')"""

    def __init__(self, Q, n, f, kind):
        self.Q, self.n, self.f, self.kind = Q, n, f, kind

    def __pv_len__(self):
        return self.n if self.kind == 'mat' else self.n * self.Q

    @property
    def size(self):
        return self.n * self.Q

    @property
    def shape(self):
        return (self.n, self.Q) if self.kind == 'mat' else (self.n * self.Q,)

    def copy(self):
        return Blk(self.Q, self.n, self.f, self.kind)

    def ravel(self, order='C'):
        if self.kind == 'mat' and order == 'F':
            return Blk(self.Q, self.n, self.f, 'col')
        if self.kind == 'col':
            return self
        raise Unsupported('order of the periods')
    flatten = ravel

    def reshape(self, *s, order='C'):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if self.kind == 'col' and len(s) == 2 and order == 'F' and s[1] == self.Q and (s[0] == -1 or same(s[0], self.n)):
            return Blk(self.Q, self.n, self.f, 'mat')
        raise Unsupported('reshape')

    def __getitem__(self, k):
        if isinstance(k, Blk):
            if self.kind != 'col' or k.kind != 'col' or k.Q != self.Q or not same(k.n, self.n):
                raise Unsupported('selection by a mask')
            return Masked(self, k)
        if isinstance(k, slice):
            if k.stop is not None or k.step is not None or not isinstance(k.start, int) or k.start < 0 or self.kind == 'col' and self.Q > 1:
                raise Unsupported('part of the guess')
            lo = k.start
            return Blk(self.Q, self.n - lo, lambda q, i: self.f(q, zi(i) + lo), self.kind)
        if self.kind == 'mat' and isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], int) and -self.Q <= k[1] < self.Q:
            q0 = k[1] % self.Q
            return Blk(1, self.n, lambda q, i: self.f(q0, i), 'col')
        raise Unsupported('part of the guess')

    def __setitem__(self, k, v):
        if self.kind == 'mat' and isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Blk) and isinstance(k[1], int) \
                and k[0].kind == 'col' and k[0].Q == 1 and same(k[0].n, self.n) and isinstance(v, bool):
            old, q0, m = self.f, k[1] % self.Q, k[0].f
            self.f = lambda q, i: z3.If(m(0, i), z3.BoolVal(v), old(q, i)) if q == q0 else old(q, i)
            return
        raise Unsupported('assignment to a part of the guess')

    def _two(self, o, op):
        if not isinstance(o, Blk) or o.kind != self.kind or o.Q != self.Q or not same(o.n, self.n):
            raise Unsupported('guesses of different shapes')
        return Blk(self.Q, self.n, lambda q, i: op(self.f(q, i), o.f(q, i)), self.kind)

    def __and__(self, o): return self._two(o, z3.And)
    def __or__(self, o): return self._two(o, z3.Or)
    def __xor__(self, o): return self._two(o, z3.Xor)
    def __gt__(self, o): return self._two(o, lambda a, b: z3.And(a, z3.Not(b)))
    def __invert__(self): return Blk(self.Q, self.n, lambda q, i: z3.Not(self.f(q, i)), self.kind)

    def all(self): return quant(self, True)
    def any(self): return quant(self, False)


class Masked(Shut):
    """the values where the mask holds"""

    def __init__(self, v, m):
        self.v, self.m = v, m

    def all(self): return quant(Blk(self.v.Q, self.v.n, lambda q, i: z3.Implies(self.m.f(q, i), self.v.f(q, i)), 'col'), True)
    def any(self): return quant(Blk(self.v.Q, self.v.n, lambda q, i: z3.And(self.m.f(q, i), self.v.f(q, i)), 'col'), False)


def quant(b, every):
    j = z3.Int('period')
    inside = z3.And(j >= 0, j < zi(b.n))
    if every:
        return SB(z3.And([z3.ForAll([j], z3.Implies(inside, b.f(q, j))) for q in range(b.Q)]))
    return SB(z3.Or([z3.Exists([j], z3.And(inside, b.f(q, j))) for q in range(b.Q)]))


class Pairs(Shut):
    """the constraints at a path: in the first column where one binds, in the second where it does not any more"""

    def __init__(self, Q, n, bind, relax):
        self.Q, self.n, self.cols = Q, n, (bind, relax)

    @property
    def shape(self):
        return (self.n * self.Q, 2)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int) and -2 <= k[1] < 2:
            col = Blk(self.Q, self.n, self.cols[k[1]], 'col')
            return col if isinstance(k[0], slice) and k[0] == slice(None) else col[k[0]]
        raise Unsupported('part of the constraints')

    def split(self, k):
        if k != self.Q:
            raise Unsupported('split')
        return [Pairs(1, self.n, *[lambda q, i, f=f, q0=q0: f(q0, i) for f in self.cols]) for q0 in range(self.Q)]


class Row:
    """one period of a path: of a guess, of the path filled so far, or the initial point"""
    __pv__ = True

    def __init__(self, of, k=0):
        self.of, self.k = of, k

    def copy(self):
        return self

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a period')

    def eq(self, o):
        return isinstance(o, Row) and self.of is o.of and same(self.k, o.k)


class Guess(Shut):
    """the path under a guess of the regimes"""

    def __init__(self, n, hypo, init, shock):
        self.n, self.hypo, self.init, self.shock = n, hypo, init, shock
        t = len(eng.CUR.env.setdefault('guesses', []))
        eng.CUR.env['guesses'].append(self)
        fs = [[z3.Function(f'{w}{t}_{q}', I, B) for q in range(hypo.Q)] for w in ('binds', 'relaxed')]
        self.bind, self.relax = [lambda q, i, f=f: f[q](zi(i)) for f in fs]

    def __pv_len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n, eng.CUR.env['n'])

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('part of a guess')
            return Part(self, k.start or 0, self.n if k.stop is None else k.stop)
        if not eng.isint(k):
            raise Unsupported('part of a guess')
        k = self.n + k if isinstance(k, int) and k < 0 else k
        eng.CUR.prove('periods lie within the horizon', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        return Row(self, k)


class Part(Shut):
    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi = g, lo, hi


class Path(Shut):
    """the path that is filled"""

    def __init__(self, n):
        self.n, self.writes = n, []

    def __pv_len__(self):
        return self.n

    def __setitem__(self, k, v):
        c = eng.CUR
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
            k = k[0]
        if isinstance(k, slice):
            if k.step is not None or k.stop is not None or not isinstance(v, Part) or not eng.isint(k.start):
                raise Unsupported('assignment to a part of the path')
            lo = k.start
            if c.decide(zi(lo) < 0):
                lo = self.n + lo
            c.prove('the rest of the path has the length of what fills it', zi(v.hi) - zi(v.lo) == zi(self.n) - zi(lo))
            c.prove('periods lie within the horizon', z3.And(zi(lo) >= 0, zi(v.hi) <= zi(v.g.n)))
            self.writes.append((lo, self.n, v))
            return
        if not eng.isint(k) or not isinstance(v, Row):
            raise Unsupported('assignment to a part of the path')
        c.prove('periods lie within the horizon', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        self.writes.append((k, k + 1, v))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
            k = k[0]
        if not eng.isint(k):
            raise Unsupported('part of the path')
        eng.CUR.prove('periods lie within the horizon', z3.And(zi(k) >= 0, zi(k) < zi(self.n)))
        return self.at(k)

    def at(self, k):
        c = eng.CUR
        for lo, hi, v in self.writes[::-1]:
            if c.decide(z3.And(zi(k) >= zi(lo), zi(k) < zi(hi))):
                return v if isinstance(v, Row) else Row(v.g, k - lo + v.lo)
        return Row(self, k)


class Shocks(Shut):
    """one row of shocks for every period"""

    def __init__(self, T, e, nd, rest=None):
        self.T, self.e, self.nd, self.rest = T, e, nd, rest
        self.n = T if rest is None else T + rest

    @property
    def ndim(self):
        return self.nd

    @property
    def shape(self):
        return (self.n, self.e) if self.nd == 2 else (self.n,)

    def __pv_len__(self):
        return self.n

    def item(self, k):
        return ShockRow(self, k)

    def copy(self):
        return self


class ShockRow(Shut):
    def __init__(self, of, k):
        self.of, self.k = of, k


class Nought(Shut):
    """an array of zeros of numbers"""

    def __init__(self, shape):
        self.shape = shape


class Search:
    """the loops: over the periods, and from guess to guess"""

    def __init__(self, c, v):
        self.c, self.v, self.k, self.outer = c, v, None, 0

    def fresh(self, b):
        v = self.v
        t = v.count = v.count + 1
        fs = [z3.Function(f'guess{t}_{q}', I, B) for q in range(b.Q)]
        return Blk(b.Q, b.n, lambda q, i: fs[q](zi(i)), b.kind)

    def shape(self, b):
        v = self.v
        self.c.prove('one guess for every period and constraint', z3.And(zi(b.n) == zi(v.P) + 1, b.Q == v.Q, z3.BoolVal(b.kind == v.kind)))

    def __call__(self, w, st, what, env):
        if what == 'exit':
            # not even one guess: excluded at the entry
            raise PathEnd()
        if what == 'enter':
            st.kind = 'over' if st.it is not None else 'guess'
        getattr(self, what + '_' + st.kind)(st, env)

    # the periods
    def enter_over(self, st, env):
        c, v = self.c, self.v
        self.outer += 1
        if self.outer > 1 or not isinstance(st.it, SymEnum) or st.it.it is not v.shocks or not same(st.it.start, 0):
            raise Unsupported('the loop over the periods')
        last = c.choose(2) == 1
        k = eng.fresh_int('k', 0)
        c.assume(zi(k) == zi(v.T) - 1 if last else zi(k) < zi(v.T))
        if last:
            k = v.T - 1
            st.peel = True
        first = c.decide(zi(k) == 0)
        for n in st.names:
            x = env.get(n)
            if n not in env:
                continue
            if isinstance(x, Path):
                if x.writes:
                    raise Unsupported('a path that is filled before')
                self.pn = n
                self.path = st.vals[n] = Path(x.n)
            elif isinstance(x, Blk):
                self.shape(x)
                self.hn = n
                st.vals[n] = self.fresh(x)
            elif isinstance(x, Row):
                c.goal('the path starts at the initial point', x.eq(v.init))
                self.xn = n
                st.vals[n] = v.init if first else None
            else:
                st.vals[n] = Poison()
        if not (hasattr(self, 'pn') and hasattr(self, 'hn')):
            raise Unsupported('what the loop carries')
        self.prev = v.init if first else Row(self.path, k - 1)
        if hasattr(self, 'xn'):
            st.vals[self.xn] = self.prev
        self.k = k
        v.warn.n = 0
        st.body, st.item = True, (k, v.shocks.item(k))

    def after(self, env):
        c, v, k = self.c, self.v, self.k
        p = env[self.pn]
        if not isinstance(p, Path):
            raise Unsupported('the path is replaced')
        r = p.at(k)
        ok = len(p.writes) == 1 and isinstance(r.of, Guess)
        if not ok:
            raise Unsupported('what is written to the path')
        g = r.of
        c.goal('the path takes the first period of the last guess', same(r.k, 0))
        c.goal('the guess starts from the period before and has the shocks of its own', g.init.eq(self.prev)
               and isinstance(g.shock, ShockRow) and g.shock.of is v.shocks and same(g.shock.k, k))
        x = env[self.xn] if hasattr(self, 'xn') else r
        c.goal('the next period starts where this one ends', isinstance(x, Row) and (x.eq(r) or x.eq(Row(p, k))))
        if not isinstance(env[self.hn], Blk):
            raise Unsupported('the guess')
        self.shape(env[self.hn])
        self.g = g
        if v.warn.n:
            return
        j = eng.fresh_int('p', 0)
        c.assume(zi(j) < zi(v.P) + 1)
        for q in range(v.Q):
            c.prove('without a warning, a period with a binding constraint is in the constrained regime', z3.Implies(g.bind(q, j), g.hypo.f(q, zi(j))))
            c.prove('without a warning, no period in the constrained regime has a relaxed constraint', z3.Implies(g.hypo.f(q, zi(j)), z3.Not(g.relax(q, j))))

    def leave_over(self, st, env):
        self.after(env)

    def peeled_over(self, st, env):
        self.after(env)
        # later on the rows are those of the loop
        env[self.pn].writes = []

    # the guesses
    def enter_guess(self, st, env):
        c, v = self.c, self.v
        if self.k is None or st.test is None:
            raise Unsupported('a loop')
        t = st.test()
        t = t.e if isinstance(t, SB) else t
        c.prove('at least one guess is made', t)
        for n in st.names:
            x = env.get(n)
            if n not in env:
                continue
            if isinstance(x, Blk):
                st.vals[n] = self.fresh(x)
            elif isinstance(x, (bool, SB)):
                v.count = v.count + 1
                st.vals[n] = SB(z3.Bool(f'flag{v.count}'))
            elif isinstance(x, (int, SI)):
                st.vals[n] = eng.fresh_int(f'iter_{n}', 0)
            else:
                st.vals[n] = Poison()
        st.peel = True

    def peeled_guess(self, st, env):
        self.shape(env[self.hn])
        if st.test():
            # another guess follows: from an arbitrary one, as this
            c, v, g = self.c, self.v, self.c.env['guesses'][-1]
            j = eng.fresh_int('p', 0)
            c.assume(zi(j) < zi(v.P) + 1)
            for q in range(v.Q):
                was = g.hypo.f(q, zi(j))
                c.prove('the next guess adds the periods that bind and drops those that are relaxed',
                        env[self.hn].f(q, zi(j)) == z3.And(z3.Or(was, g.bind(q, j)), z3.Not(z3.And(was, g.relax(q, j)))))
            raise PathEnd()


def solver(c, two):
    Q = 2 if two else 1
    v = model.Obj(Q=Q, kind='mat' if two else 'col', warn=Warn(), count=0)
    hold = {}

    def process(ref=None, exog=None, shocks=None, init=None, periods=None):
        c.goal('the arguments are passed on', ref is v.ref and exog == 'exog' and shocks == 'shocks' and init == 'init' and periods == 'periods')
        return v.exog, v.shocks, v.init, v.P

    def match(a, b):
        v.pairs.append((a, b))

    def parts(m, ss):
        c.goal('every regime is linearised at the reference steady state', ss is v.ref.ss.values)
        t = v.regs.index(m)
        return tuple(('part', x, t) for x in 'CBAE')

    def trans(ss, m):
        c.goal('every regime is linearised at the reference steady state', ss is v.ref.ss.values)
        return ('point', v.regs.index(m))

    def constant(t):
        def f(x):
            c.goal('the constant is that of the regime at the reference steady state', x == ('point', t))
            return ('constant', t)
        return f

    def locate(b):
        if not isinstance(b, Blk):
            raise Unsupported('the regimes')
        return ('starts', b.Q, b.f), None

    def starts_of(x, b):
        return isinstance(x, tuple) and x[0] == 'starts' and x[1] == 1 and same_truths(c, Blk(1, b.n, lambda q, i: x[2](0, i), 'col'), b)

    def guess(*a, **k):
        if a:
            raise Unsupported('arguments by position')

        def get(n):
            if n not in k:
                raise Unsupported(f'no argument {n}')
            return k[n]
        for t, sfx in enumerate(['', '_alt0', '_alt1', '_dbl'] if two else ['', 'star']):
            for x in 'ABCE':
                c.goal('the parts of each regime are used as such', get(x + sfx) == ('part', x, t))
            if t:
                c.goal('the parts of each regime are used as such', get('D' + sfx) == ('constant', t))
        gy, gu = get('gy'), get('gu')
        if not isinstance(gy, (Tensor, arr.Lazy)):
            raise Unsupported('the policy')
        want = Tensor([d.dc, d.dc], {(a, b): m.gy.get((a, b)) for a in d.dr.comps() for b in d.state.comps()})
        prove_equal('the policy is the first-order one in declaration order', fit(tensor(gy), [d.dc, d.dc]), want)
        gu = tensor(gu)
        one = arr.same(d.E.n, 1)
        c.goal('the response to one shock is a vector, to several a matrix', (gu.ndim == 1) == one, strict=False)
        gu = gu if gu.ndim == 2 else arr.expand(gu, 1)
        prove_equal('the policy is the first-order one in declaration order', fit(gu, [d.dc, Lf(d.E)]), Tensor([d.dc, Lf(d.E)], dict(m.gu.blocks)))
        flags = [get('regime0'), get('regime1')] if two else [get('regime')]
        sts = [get('regime_starts0'), get('regime_starts1')] if two else [get('regime_starts')]
        if not all(isinstance(f, Blk) and f.Q == 1 and f.kind == 'col' for f in flags):
            raise Unsupported('the regimes')
        fs = [f.f for f in flags]
        hypo = Blk(Q, flags[0].n, lambda q, i: fs[q](0, i), v.kind)
        c.goal('the changes of regime are those of the guess', all(starts_of(s, f) for s, f in zip(sts, flags)))
        c.goal('the horizon and the shocks are those asked for', same(get('periods'), v.P) and get('exog_idx') is v.exog)
        c.prove('one guess for every period and constraint', zi(hypo.n) == zi(v.P) + 1)
        x = get('init')
        if not isinstance(x, Row):
            raise Unsupported('the initial point')
        return Guess(v.P + 1, hypo, x, get('shock'))

    def constraint(g):
        if not isinstance(g, Guess):
            raise Unsupported('the constraint at something else')
        return Pairs(Q, g.n, g.bind, g.relax)
    mods = common_mods()
    sfx = '_two_constraints' if two else ''
    w, d, m, hold = setup(c, mods, {f'{BIND}:_process_occbin_parameters': process, f'{BIND}:_ensure_variables_match': match,
                                    f'{BIND}:_occbin_partitioned_jacobian': parts, f'{BIND}:_translate_ss': trans,
                                    f'{BIND}:_locate_regime_changes': locate,
                                    f'{BIND}:_simulate_hypothesized_paths{sfx}': guess}, whiles=('*',))
    c.env['n'] = d.n
    v.ref, v.pairs = m, []
    m.__dict__['_solution'] = sol = m.make(1)
    w['pynare.core.solve.base:LinearSolution'].__init__(sol, m)
    v.regs = [m] + [model.Obj(name=f'alt{t}', dynamic_repr=constant(t), ss=model.Obj(values=atoms(f'ss{t}', [d.dc]))) for t in range(1, 4 if two else 2)]
    v.T, v.P = eng.fresh_int('T', 1), eng.fresh_int('periods', 1)
    c.assume(zi(v.T) <= zi(v.P))
    v.exog = ('exog',)
    v.init = Row('initial')
    v.init.of = v.init
    v.shocks = Shocks(v.T, eng.fresh_int('columns', 1), 1 + c.choose(2))
    hold['h'] = h = Search(c, v)

    def zeros(shape, dtype=float, **k):
        s = shape if isinstance(shape, tuple) else (shape,)
        if dtype is bool:
            if len(s) == 1:
                return Blk(1, s[0], lambda q, i: z3.BoolVal(False), 'col')
            if len(s) == 2 and s[1] in (1, 2):
                return Blk(s[1], s[0], lambda q, i: z3.BoolVal(False), 'mat')
            raise Unsupported('zeros')
        if len(s) == 2 and same(s[0], d.n) and same(s[1], d.n) and not z3.eq(z3.simplify(zi(s[0])), zi(v.P)):
            return npshim.NP.zeros(shape, dtype=dtype)
        if len(s) == 2 and z3.eq(z3.simplify(zi(s[0])), zi(v.P)):
            c.prove('a path has a column for every variable', zi(s[1]) == zi(d.n))
            return Path(s[0])
        return Nought(s)

    def append(a, b, axis=None):
        if isinstance(a, Blk) and a.kind == 'col' and a.Q == 1 and (b is False or b == [False]):
            f, n = a.f, a.n
            return Blk(1, n + 1, lambda q, i: z3.And(zi(i) < zi(n), f(q, i)), 'col')
        if isinstance(a, Blk) and a.kind == 'mat' and axis == 0 and b == [[False] * a.Q]:
            f, n = a.f, a.n
            return Blk(a.Q, n + 1, lambda q, i: z3.And(zi(i) < zi(n), f(q, i)), 'mat')
        if a is v.shocks and isinstance(b, Nought):
            if len(b.shape) != a.nd or not (axis == 0 or a.nd == 1 and axis is None):
                raise Unsupported('what is appended')
            if a.nd == 2:
                c.prove('the shocks keep their columns', zi(b.shape[1]) == zi(a.e))
            return Shocks(a.T, a.e, a.nd, b.shape[0])
        raise Unsupported('append')
    t2 = lambda op: lambda a, b: op(a, b)
    own = dict(zeros=zeros, append=append, logical_or=lambda a, b: a | b, logical_and=lambda a, b: a & b, greater=lambda a, b: a > b,
               logical_not=lambda a: ~a, all=lambda a: truth(a, 'all'), any=lambda a: truth(a, 'any'), concatenate=lambda p, axis=0: append(*p, axis=axis),
               split=lambda a, k, axis=0: a.split(k) if isinstance(a, Pairs) and axis == 0 else a.split, array_split=None,
               zeros_like=lambda a: Blk(a.Q, a.n, lambda q, i: z3.BoolVal(False), a.kind) if isinstance(a, Blk) else npshim.NP.zeros_like(a))
    w.mods[BIND].__dict__.update(np=Over(**own), warnings=v.warn)
    con = Con(Q, constraint)
    mi = eng.fresh_int('max_iter', 1)
    kw = dict(constraint=con, exog='exog', shocks='shocks', init='init', periods='periods', max_iter=mi)
    if two:
        r = c.choose(2) == 1
        out = w[f'{BIND}:solve_occbin_two_constraints'](*v.regs, restrained=r, **kw)
    else:
        out = w[f'{BIND}:solve_occbin_one_constraint'](*v.regs, **kw)
    if h.outer != 1 or not isinstance(out, tuple) or len(out) != 2:
        raise Unsupported('the result')
    p, s = out
    if p is not h.path or not isinstance(s, Shocks):
        raise Unsupported('the result')
    c.prove('one row for every period', zi(p.n) == zi(v.P))
    t = eng.fresh_int('t', 0)
    c.assume(zi(t) < zi(v.P))
    x = p.at(t)
    if c.decide(zi(t) < zi(v.T)):
        c.goal('periods with shocks are those of the search', x.of is p and same(x.k, t))
    else:
        c.goal('later periods continue the last guess', x.of is h.g and same(x.k, t - v.T + 1))
    c.prove('the shocks are reported for every period, none after those given', zi(s.n) == zi(v.P))
    c.goal('the shocks are reported for every period, none after those given', s is v.shocks or s.T is v.T)
    c.goal('all regimes are over the same variables', all(any(a is m and b is r or a is r and b is m for a, b in v.pairs) for r in v.regs[1:]), strict=False)


class Con(Shut):
    def __init__(self, Q, f):
        self.Q, self.f = Q, f

    def __pv_len__(self):
        return self.Q

    def __call__(self, g):
        return self.f(g)


def truth(a, how):
    if isinstance(a, (Blk, Masked)):
        return getattr(a, how)()
    raise Unsupported(how)


def same_truths(c, a, b):
    j = eng.fresh_int('at', 0)
    return same(a.n, b.n) and c.entails(a.f(0, zi(j)) == b.f(0, zi(j)))


def common_mods():
    from pv.contracts import common
    return common.MODS + [BIND]


def setup(c, mods, contracts, whiles):
    from pv.contracts import common
    return common.setup(c, mods, contracts=contracts, whiles=whiles)


SOLVER = ['the arguments are passed on', 'every regime is linearised at the reference steady state',
          'the constant is that of the regime at the reference steady state', 'the parts of each regime are used as such',
          'the policy is the first-order one in declaration order', 'the changes of regime are those of the guess',
          'one guess for every period and constraint', 'the path starts at the initial point',
          'the path takes the first period of the last guess', 'the guess starts from the period before and has the shocks of its own',
          'the next period starts where this one ends', 'the next guess adds the periods that bind and drops those that are relaxed',
          'without a warning, a period with a binding constraint is in the constrained regime',
          'without a warning, no period in the constrained regime has a relaxed constraint',
          'periods with shocks are those of the search', 'later periods continue the last guess',
          'the shocks are reported for every period, none after those given']


# ---------------------------------------------------------------- the inputs
class UnknownName(Exception):
    pass


class Given(Shut):
    """an array of shocks of one or two dimensions"""

    def __init__(self, T, e, nd):
        self.T, self.nd = T, nd
        self.shape = (T, e) if nd == 2 else (T,)
        self.ndim = nd

    def __pv_len__(self):
        return self.T


def process(c):
    w = load.World([BIND])
    T, n, e = eng.fresh_int('T', 1), eng.fresh_int('variables', 1), eng.fresh_int('columns', 1)
    nd = 1 + c.choose(2)
    given = Given(T, e, nd)
    start = Shut()
    m = eng.fresh_int('named', 1)
    pos = eng.fresh_int('position', 0)
    many = Seq(m, lambda i: SI(z3.Function('at', I, I)(zi(i))))

    class Names(Shut):
        def __init__(self, n):
            self.n = n

        def __pv_len__(self):
            return self.n

        def get_loc(self, x):
            if x == 'one':
                return pos
            if x == 'several':
                return many
            raise UnknownName(x)
    calls = []
    order = [None, 0, 1, 2][c.choose(4)]

    def solve(order=None):
        calls.append(order)
    ref = model.Obj(endog=Names(n), stoch=Names(eng.fresh_int('shocks', 1)), solution_order=order, solve=solve)
    zero = Shut()
    warn = Warn()

    def zeros(s, dtype=float, **k):
        if dtype is not float or isinstance(s, tuple) and len(s) != 1:
            raise Unsupported('zeros')
        zero.n = s[0] if isinstance(s, tuple) else s
        return zero

    def asarray(x, dtype=None, **k):
        if x is not given or dtype not in (None, float):
            raise Unsupported('asarray')
        return given
    drawn = []

    class Random:
        def normal(self, size=None, **k):
            if k:
                raise Unsupported('the distribution')
            drawn.append(size)
            return given
    w.mods[BIND].__dict__.update(np=Over(zeros=zeros, asarray=asarray, array=asarray, random=Random()), warnings=warn)
    init = [None, start][c.choose(2)]
    exog = [None, 'one', 'several'][c.choose(3)]
    per = eng.fresh_int('periods', 1) if c.choose(2) else None
    how = c.choose(2)
    sh = given
    if how:
        # drawn: the shape asked for is that of the draws
        sh = (T, e) if nd == 2 else (T,)
    rows = m if exog == 'several' else 1
    fits = z3.BoolVal(exog != 'several') if nd == 1 else zi(e) == zi(rows)
    f = w[f'{BIND}:_process_occbin_parameters']
    try:
        out = f(ref=ref, exog=exog, shocks=sh, init=init, periods=per)
    except ValueError as ex:
        if eng.fair(ex):
            c.prove('rejected only when the shocks do not fit the names', z3.Not(fits))
            return
        raise
    c.prove('accepted only when the shocks fit the names', fits)
    x, s, i, p = out
    c.goal('the shocks are those given, or drawn in the shape asked for', s is given and (drawn == [sh] if how else not drawn))
    c.goal('the named shocks are hit, the first when none is named', x is many if exog == 'several' else eng.isint(x) and same(x, pos if exog else 0))
    if init is None:
        c.goal('the path starts at the point given, else at the steady state', i is zero and same(zero.n, n))
    else:
        c.goal('the path starts at the point given, else at the steady state', i is start)
    c.prove('the horizon is the one asked for, else that of the shocks', zi(p) == zi(T if per is None else per))
    c.goal('an unsolved model is solved at first order, a solved one is left as it is', calls == ([] if order else [1]))


PROCESS = ['rejected only when the shocks do not fit the names', 'accepted only when the shocks fit the names',
           'the shocks are those given, or drawn in the shape asked for', 'the named shocks are hit, the first when none is named',
           'the path starts at the point given, else at the steady state', 'the horizon is the one asked for, else that of the shocks',
           'an unsolved model is solved at first order, a solved one is left as it is']


class Labels(Shut):
    """names in order; sorted, only which names they are matters"""

    def __init__(self, what, who, by_set=False):
        self.what, self.who, self.by_set = what, who, by_set

    def pv_list(self):
        return self

    def keys(self):
        return self


def match(c):
    w = load.World([BIND])
    # the names are the same; they are, in the same order
    eq, order = [{k: z3.Bool(f'{p}_{k}') for k in ('endog', 'stoch', 'params')} for p in ('same', 'ordered')]
    for k in eq:
        c.assume(z3.Implies(order[k], eq[k]))
    want = z3.And(order['endog'], order['stoch'], eq['params'])

    def array_equal(a, b):
        if not isinstance(a, Labels) or not isinstance(b, Labels):
            raise Unsupported('what is compared')
        if a.what != b.what:
            return SB(z3.FreshBool('by_chance'))
        if a.who == b.who and a.by_set == b.by_set:
            return True
        if a.by_set != b.by_set:
            raise Unsupported('the order in which names are compared')
        return SB(order[a.what] if not a.by_set else eq[a.what])

    def sort_(a, **k):
        return Labels(a.what, a.who, True)
    w.mods[BIND].__dict__.update(np=Over(array_equal=array_equal, sort=sort_, array=lambda x, **k: x, asarray=lambda x, **k: x),
                                 list=lambda x: x, sorted=sort_)
    ms = [model.Obj(name=f'm{i}', endog=model.Obj(names=Labels('endog', i)), stoch=model.Obj(names=Labels('stoch', i)), params=Labels('params', i))
          for i in (0, 1)]
    try:
        w[f'{BIND}:_ensure_variables_match'](*ms)
    except w[f'{BIND}:ModelVarError']:
        c.prove('only regimes over other variables or parameters are rejected', z3.Not(want))
        return
    c.prove('regimes over other variables or parameters are rejected', want)


# ---------------------------------------------------------------- the conditions
class Vars(Shut):
    """variables and their names"""

    def __init__(self, n):
        self.n = n

    @property
    def names(self):
        return self


class Sim(Shut):
    """a path: rows are periods, columns variables"""

    def __init__(self, T, n):
        self.shape = (T, n)

    @property
    def T(self):
        raise Unsupported('transpose')


class Cols(Shut):
    """the columns of a path, one by one"""

    def __init__(self, p):
        self.p = p


class ByName(Shut):
    """what is found under the name of variable j, or of a parameter"""

    def __init__(self, cols=None, params=False):
        self.cols, self.params = cols, params

    @staticmethod
    def pv_merge(parts):
        out = ByName()
        for p in parts:
            if not isinstance(p, ByName):
                raise Unsupported('what a condition is evaluated with')
            out.cols = p.cols if p.cols is not None else out.cols
            out.params = p.params if p.params is not None else out.params
        return out


class Truth(Shut):
    """the truth of one condition along the path: a column"""

    def __init__(self, text):
        self.text = text


def condition(c):
    w = load.World([BIND, 'pynare.utils.dtypes'])
    T, n = eng.fresh_int('T', 1), eng.fresh_int('variables', 1)
    names, path = Vars(n), Sim(T, n)
    params = ByName(params=True)
    many = c.choose(3)
    texts = [('a', 'b'), (('a', 'b'),), (('a', 'b'), ('c', 'd'))][many]

    class Ast:
        def __init__(self, t):
            self.t = t

    def parse(t, *a):
        if not isinstance(t, str):
            raise TypeError(t)
        return Ast(t)

    def evaluate(ast, scope=None):
        if not isinstance(ast, Ast) or not isinstance(scope, ByName):
            raise Unsupported('evaluation')
        c.goal('conditions see every variable along the path, and the parameters', isinstance(scope.cols, Cols) and scope.cols.p is path and scope.params)
        return Truth(ast.t)

    def hsplit(p, k):
        if not isinstance(p, Sim):
            raise Unsupported('hsplit')
        c.prove('every variable has its own column', zi(k) == zi(n))
        return Cols(p)

    def zip_(a, b):
        import builtins
        if isinstance(b, Cols):
            if a is not names:
                raise Unsupported('names of the columns')
            return ByName(cols=b)
        return builtins.zip(a, b)

    def dict_(x):
        if isinstance(x, ByName):
            return x
        import builtins
        return builtins.dict(x)

    def hstack(x):
        return [list(x)]

    def block(x):
        return [list(r) for r in x]

    def vstack(x):
        return [r for b in x for r in b]
    w.mods[BIND].__dict__.update(np=Over(hsplit=hsplit, hstack=hstack, block=block, vstack=vstack, column_stack=hstack), zip=zip_, dict=dict_,
                                 parse_string=parse, evaluate=evaluate)
    k = w[f'{BIND}:Constraint'](texts, endog=names, params=params, exog=Vars(n))
    c.goal('as many constraints as given', k.__len__() == max(1, many) if many != 1 else k.__len__() == 1)
    r = k(path)
    want = [['a', 'b']] if many < 2 else [['a', 'b'], ['c', 'd']]
    if not isinstance(r, list) or not all(isinstance(x, Truth) for row in r for x in row):
        raise Unsupported('the table of conditions')
    c.goal('one row of conditions for every constraint: binding, then relaxed', [[x.text for x in row] for row in r] == want)


# ---------------------------------------------------------------- the solution object
class Regimes(Shut):
    """stands for RegimeSwitchingModel: the reference regime, then the others"""
    made = None

    def __init__(self, base, exprs=None, sigma=None):
        self.args = (base, exprs, sigma)
        self.models = Regimes.fresh()
        Regimes.made = self

    def __getitem__(self, k):
        return self.models[k]

    def __iter__(self):
        return iter(self.models)

    def __len__(self):
        return len(self.models)


class Asked(Shut):
    """stands for Constraint"""
    made = None

    def __init__(self, constraint, endog=None, params=None, exog=None):
        self.args = (constraint, endog, params)
        self.k = len(constraint)
        Asked.made = self

    def __len__(self):
        return self.k


def solution(c):
    w = load.World([BIND])
    two = c.choose(2)
    part = lambda n, i: model.Obj(name=f'{n}{i}')

    def regime(i):
        return model.Obj(name=f'regime{i}', endog=part('endog', i), params=part('params', i), stoch=part('stoch', i))
    Regimes.fresh = lambda: [regime(i) for i in range(4 if two else 2)]
    Regimes.made = Asked.made = None
    seen = []
    got = (Shut(), Shut())

    def process(ref=None, exog=None, shocks=None, init=None, periods=None):
        seen.append((ref, exog, shocks, init))
        return Shut(), got[0], got[1], 7

    result = (Shut(), Shut())
    calls = []

    def one(ref, alt, constraint, exog=None, shocks=100, init=None, periods=None, max_iter=20):
        calls.append((1, [ref, alt], constraint, exog, shocks, init, periods, max_iter, None))
        return result

    def both(ref, alt0, alt1, dbl, constraint, exog=None, shocks=100, init=None, periods=None, max_iter=20, restrained=False):
        calls.append((2, [ref, alt0, alt1, dbl], constraint, exog, shocks, init, periods, max_iter, restrained))
        return result
    w.mods[BIND].__dict__.update(RegimeSwitchingModel=Regimes, Constraint=Asked, _process_occbin_parameters=process,
                                 solve_occbin_one_constraint=one, solve_occbin_two_constraints=both)
    how = c.choose(2)
    base = Regimes(None) if how else regime('base')
    if how:
        first = base.models[0]
        for a in ('endog', 'params', 'stoch'):
            base.__dict__[a] = first.__dict__[a]
    given = Regimes.made
    Regimes.made = None
    cons = ('k0', 'k1')[:1 + two]
    kw = {} if how else dict(exprs={'x': 'y'}, sigma={'s': 't'})
    sh, init = Shut(), Shut()
    sol = w[f'{BIND}:OccBinSolution'](base, cons, exog='exog', shocks=sh, init=init, **kw)
    md = sol.model
    if how:
        c.goal('regimes are those given, or those made of the changed equations', md is given and Regimes.made is None)
    else:
        c.goal('regimes are those given, or those made of the changed equations', md is Regimes.made and md.args == (base, {'x': 'y'}, {'s': 't'}))
    c.goal('conditions are over the variables and parameters of the reference model', sol.constraint is Asked.made
           and Asked.made.args[0] is cons and Asked.made.args[1] is base.endog and Asked.made.args[2] is base.params)
    if len(seen) != 1:
        raise Unsupported('the inputs are looked at several times')
    c.goal('the inputs are those given, for the reference regime', seen[0][0] is md.models[0] and seen[0][1] == 'exog' and seen[0][2] is sh and seen[0][3] is init)
    r = c.choose(2) == 1
    out = sol.solve(periods='periods', max_iter=33, restrained=r)
    c.goal('one search is run, over all regimes in order', len(calls) == 1 and calls[0][0] == 1 + two and len(calls[0][1]) == len(md.models)
           and all(a is b for a, b in zip(calls[0][1], md.models)))
    _, _, k, exog, s, i, per, it, res = calls[0]
    c.goal('the search has the arguments of the solution', k is sol.constraint and exog == 'exog' and s is got[0] and i is got[1]
           and per == 'periods' and it == 33 and (not two or res == r))
    c.goal('the path and the shocks are those of the search', sol.paths is result[0] and sol.shocks is result[1] and out is sol)


SOLUTION = ['regimes are those given, or those made of the changed equations', 'conditions are over the variables and parameters of the reference model',
            'the inputs are those given, for the reference regime', 'one search is run, over all regimes in order',
            'the search has the arguments of the solution', 'the path and the shocks are those of the search']


def units():
    return [
        Unit(f'{BIND}.OccBinSolution', solution, SOLUTION, name='solution'),
        Unit(f'{BIND}._occbin_partitioned_jacobian', partition, PARTS, name='partition'),
        Unit(f'{BIND}._translate_ss', translate, ['one value for every dated variable and shock', PARTS[-1]], name='translate'),
        Unit(f'{BIND}._locate_regime_changes', locate, LOCATE, name='locate'),
        Unit(f'{BIND}.solve_occbin_one_constraint', functools.partial(solver, two=False), SOLVER, name='search, one constraint', limit=240),
        Unit(f'{BIND}.solve_occbin_two_constraints', functools.partial(solver, two=True), SOLVER, name='search, two constraints', limit=240),
        Unit(f'{BIND}._process_occbin_parameters', process, PROCESS, name='inputs'),
        Unit(f'{BIND}._ensure_variables_match', match, ['regimes over other variables or parameters are rejected',
                                                        'only regimes over other variables or parameters are rejected'], name='match'),
        Unit(f'{BIND}.Constraint', condition, ['conditions see every variable along the path, and the parameters', 'every variable has its own column',
                                               'one row of conditions for every constraint: binding, then relaxed', 'as many constraints as given'],
             name='conditions'),
    ]
