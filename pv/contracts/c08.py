"""the covariance matrix of the shocks: from the block of a file, or arguments, to the matrix"""
import functools
from pv import eng, load, npshim, tree
from pv.contracts import files, filegrammar, vararr
from pv.contracts.common import Poison
from pv.contracts.files import Files, Entries, Value, Part, Nm, FAC, MODEL
from pv.eng import Unit, Unsupported, PathEnd, SI, SB, zi
from pv.seqs import Seq, root as source
from pv.tree import PDict, RV, rv, fresh_name, fresh_value, SymEnum
z3 = eng.z3

LEVEL = 'proof'
GEN, VARS = 'pynare.core.generic', 'pynare.core.variables'
ASSUMES = [
    'floating-point arithmetic is treated as real arithmetic; numpy square roots are the non-negative real roots of non-negative numbers',
    'the declarations of one pair of shocks agree with one another (the statement is about consistent declarations)',
    'numpy.where(names == name)[0] lists the positions of that name; the names of shocks are distinct (C18 refuses others in a file)',
    'a VarArray is the array of the variables it is made from (numpy.asarray and view)',
    *vararr.ASSUMES,
]


# ---------------------------------------------------------------- the shocks block of a file
SHAPES = 'variance', 'stderr', 'correlated', 'covarying'


def pairs_of(r):
    """{other: {corr, cov}} as a record of moments states it"""
    out = {}
    o = dict.get(r, 'other')
    if o is not None:
        out[o] = {k: dict.get(r, k) for k in ('corr', 'cov') if dict.get(r, k) is not None}
    ps = dict.get(r, 'pairs')
    if ps is not None:
        for k in dict.keys(ps):
            if k in out:
                return None
            out[k] = dict(dict.items(dict.get(ps, k)))
    return out


def view(r):
    return dict.get(r, 'variance'), pairs_of(r)


def known(r):
    return set(dict.keys(r)) <= {'variance', 'other', 'corr', 'cov', 'pairs'}


def alike(x, y):
    """the same moments, by their values"""
    c = eng.CUR
    if x is y:
        return True
    if isinstance(x, dict) and isinstance(y, dict):
        return set(dict.keys(x)) == set(dict.keys(y)) and all(alike(dict.get(x, k), dict.get(y, k)) for k in dict.keys(x))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(alike(a, b) for a, b in zip(x, y))
    if rv(x) is not None and rv(y) is not None:
        return bool(c.entails(rv(x) == rv(y)))
    return x == y


def record(c, other):
    """what the block may have said of a shock so far: `other` is the second name of the next declaration"""
    r = PDict()
    if c.choose(2):
        dict.__setitem__(r, 'variance', fresh_value('v'))
    k = c.choose(3)
    if k:
        o1 = other if k == 1 else fresh_name('o')
        dict.__setitem__(r, 'other', o1)
        which = ('corr', 'cov')[c.choose(2)]
        dict.__setitem__(r, which, fresh_value(which))
        if k == 2 and c.choose(2):
            ps = PDict()
            q = (other, fresh_name('q'))[c.choose(2)]
            dict.__setitem__(ps, q, {('corr', 'cov')[c.choose(2)]: fresh_value('m')})
            dict.__setitem__(r, 'pairs', ps)
    return r


def block(c):
    f = Files(c, [MODEL])
    fac = files.factory(f)
    f.w.mods[FAC].base.BaseEvaluator = lambda tree, scope: moments[tree]
    files.arbitrary(f, fac)
    x, y, e = fresh_name('x'), fresh_name('y'), Part()
    kind = SHAPES[c.choose(4)]
    pair = kind in ('correlated', 'covarying')
    m = fresh_value('m')
    moments = {e: m}
    c.assume(tree.POW(m.e, z3.RealVal(2)) == m.e * m.e)
    seq = Seq(eng.fresh_int('items', 0), lambda i: f.shock(kind, x, e, y if pair else None))
    before = {}

    class H(Entries):
        def prior(self):
            if self.c.choose(2):
                r = record(self.c, y)
                before['r'], before['view'] = r, view(r)
                return {x: r}
            return {}

    def done(env):
        d = env[each.d]
        if not isinstance(d, PDict):
            raise Unsupported('the dictionary is replaced')
        r = dict.get(d, x)
        if r is None or not known(r):
            c.goal('each declaration is kept under its shock', r is not None, backend='evaluation', detail=f'{r}')
            if r is not None:
                raise Unsupported('other entries of a record')
            return
        c.goal('each declaration is kept under its shock', list(dict.keys(d)) == [x], backend='evaluation', detail=str(list(dict.keys(d))), strict=False)
        shared = [n for n, v in env.items() if n not in each.names and v is r]
        c.goal('each shock has a record of its own', not shared, backend='evaluation', detail=str(shared))
        var, prs = before.get('view', (None, {}))
        want = {o: dict(q) for o, q in prs.items()}
        if kind == 'variance':
            var = m
        elif kind == 'stderr':
            var = RV(m.e * m.e)
        else:
            want.setdefault(y, {})['corr' if kind == 'correlated' else 'cov'] = m
        got = view(r)
        c.goal('one more declaration adds what it says and leaves the rest', got[1] is not None and alike(got, (var, want)), backend='evaluation',
               detail=f'{kind}: {dict(dict.items(r))} after {before.get("view")}')

    class Named(H):
        def carry(self, st, env):
            super().carry(st, env)
            self.names = st.names
    each = f.hold['h'] = Named(c, seq, done)
    fac.visit(f.block(seq, 'ShocksBlock'))
    if not each.used:
        raise Unsupported('the list is not gone through')
    if each.mode != 'exit':
        c.goal('one more declaration adds what it says and leaves the rest', False, backend='evaluation', strict=False)
        return
    k = files.handed(f, fac.outline)
    c.goal('the records of the block are what the model is built from', k['shocks'] is each.start, backend='evaluation')


# ---------------------------------------------------------------- the shocks of a model
def iterable(x):
    return isinstance(x, Seq) or (not isinstance(x, str) and hasattr(x, '__iter__'))


def create(c):
    """a shock has the moments recorded for it, and a variance of one if nothing is said"""
    w = load.World([VARS], shim=False, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    m = w.mods[VARS]
    m.VarArray = lambda x=(): x
    m.is_iterable_not_str = iterable
    x = fresh_name('x')
    recs = PDict()
    rec = {}
    said = c.choose(2)
    if said:
        for k, v in (('variance', fresh_value('v')), ('other', fresh_name('o')), ('corr', fresh_value('r')), ('cov', fresh_value('q'))):
            if c.choose(2):
                rec[k] = v
        p = fresh_name('p')
        if 'other' in rec and c.choose(2):
            rec['pairs'] = {p: {('corr', 'cov')[c.choose(2)]: fresh_value('m')}}
        dict.__setitem__(recs, x, rec)
    was = {k: v for k, v in rec.items()}
    single = c.choose(2)
    names = x if single else Seq(eng.fresh_int('shocks', 1), lambda i: x)
    out = m._create_stoch_vars(names, recs)
    if single:
        ok = isinstance(out, list) and len(out) == 1
        c.goal('one shock for every name, in order', ok, backend='evaluation')
        s = out[0]
    else:
        ok = isinstance(out, Seq) and c.entails(zi(out.n) == zi(names.n))
        c.goal('one shock for every name, in order', ok, backend='evaluation', strict=isinstance(out, Seq))
        if not ok:
            return
        s = out.item(eng.fresh_int('i', 0))
    c.goal('one shock for every name, in order', s.name is x, backend='evaluation')
    v = s.variance
    c.goal('a shock has the moments recorded for it, and a variance of one if none is', v is was['variance'] if 'variance' in was else v == 1, backend='evaluation')
    got = {}
    if s.corr is not None or s.cov is not None:
        got[s.other] = {k: q for k, q in (('corr', s.corr), ('cov', s.cov)) if q is not None}
    for o, q in s.pairs.items():
        got[o] = dict(q)
    want = {}
    if 'corr' in was or 'cov' in was:
        want[was.get('other', '')] = {k: was[k] for k in ('corr', 'cov') if k in was}
    want.update(was.get('pairs') or {})
    c.goal('a shock has the moments recorded for it, and a variance of one if none is', got == want, backend='evaluation', detail=f'{got} {want}')
    c.goal('the records are left as they were', rec == was and all(rec[k] is was[k] for k in was) and list(dict.keys(recs)) == ([x] if said else []),
           backend='evaluation')


def made(c):
    """shocks that are made already are kept"""
    w = load.World([VARS], shim=False, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    m = w.mods[VARS]
    m.VarArray = lambda x=(): x
    m.is_iterable_not_str = iterable
    s = m.StochVar(fresh_name('x'), variance=fresh_value('v'))
    out = m._create_stoch_vars(Seq(eng.fresh_int('shocks', 1), lambda i: s), PDict())
    c.goal('shocks that are made already are kept', isinstance(out, Seq) and out.item(0) is s, backend='evaluation')


# ---------------------------------------------------------------- the matrix
class Mat:
    """a matrix of unknown size, entry by entry"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, shape, at):
        self.shape, self.at = shape, at

    def __setitem__(self, ij, v):
        i, j = cell(ij)
        if i is None or j is None:
            return                                  # nothing is selected
        if isinstance(v, Nothing):
            raise Unsupported('no value')
        x = rv(v)
        if x is None:
            raise Unsupported('the value of an entry')
        c = eng.CUR
        c.prove('entries lie within the matrix', z3.And(i >= 0, j >= 0, i < zi(self.shape[0]), j < zi(self.shape[1])))
        old = self.at
        self.at = lambda a, b: z3.If(z3.And(a == i, b == j), x, old(a, b))

    def __getitem__(self, ij):
        i, j = cell(ij)
        if i is None or j is None:
            return Nothing()
        eng.CUR.prove('entries lie within the matrix', z3.And(i >= 0, j >= 0, i < zi(self.shape[0]), j < zi(self.shape[1])))
        return RV(self.at(i, j))

    def __iter__(self):
        raise Unsupported('a loop over a matrix')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a matrix')


class Nothing:
    """an array without entries: so is whatever is worked out from it"""
    __pv__ = True
    __array_ufunc__ = None

    def _n(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _n

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of an array without entries')

    def __bool__(self):
        raise Unsupported('truth of an array')


class Pos:
    """the positions of a name: one or none"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    @property
    def size(self):
        return 0 if self.p is None else 1

    def __pv_len__(self):
        return self.size

    def __getitem__(self, k):
        if isinstance(k, int) and k in (0, -1) and self.p is not None:
            return SI(self.p)
        if self.p is None and isinstance(k, int):
            raise IndexError(k)
        raise Unsupported('positions')

    def item(self):
        if self.p is None:
            raise ValueError('no item')
        return SI(self.p)

    def __bool__(self):
        if self.p is None:
            return False
        return eng.CUR.decide(self.p != 0)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of positions')


def cell(ij):
    if not isinstance(ij, tuple) or len(ij) != 2:
        raise Unsupported('part of a matrix')
    out = []
    for k in ij:
        if isinstance(k, Pos):
            out.append(k.p)
        elif eng.isint(k):
            out.append(zi(k))
        else:
            raise Unsupported('part of a matrix')
    return out


class Where:
    def __init__(self, pos):
        self.pos = pos

    def pv_where(self):
        return (self.pos,)


class Labels:
    """the names of the shocks in order; the names that matter have known positions (or none)"""
    __array_ufunc__ = None

    def __init__(self, where):
        self.where = where

    def __eq__(self, o):
        if o not in self.where:
            raise Unsupported('an unknown name')
        return Where(Pos(self.where[o]))
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of an array of names')


ROOT = z3.Function('root', tree.R, tree.R)


class Np:
    """the parts of numpy that the assembly of the matrix uses"""

    def __init__(self, c):
        self.c = c
        self.float64 = self.float_ = float
        import numpy
        self.ndarray = numpy.ndarray

    def zeros(self, shape, dtype=float, **k):
        if k or dtype is not float or not isinstance(shape, tuple) or len(shape) != 2:
            raise Unsupported('zeros')
        return Mat(shape, lambda a, b: z3.RealVal(0))

    def where(self, m, *a):
        if a or not isinstance(m, Where):
            raise Unsupported('where')
        return m.pv_where()
    nonzero = where

    def flatnonzero(self, m):
        return self.where(m)[0]

    def sqrt(self, x):
        if isinstance(x, Nothing):
            return x
        e = rv(x)
        if e is None:
            raise Unsupported('sqrt')
        self.c.prove('the argument of a square root is not negative', e >= 0)
        return RV(root(self.c, e))

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'numpy.{a}')


def root(c, e):
    r = ROOT(e)
    c.assume(z3.And(r >= 0, r * r == e))
    return r


class Pairs(dict):
    """{other: {'corr': .., 'cov': ..}}: arbitrarily many entries, of which one is `extra`s the others are the ghost map's"""
    __pv__ = True

    def __init__(self, g, extras=(), own=True):
        self.g, self.extras, self.own = g, list(extras), own

    def __bool__(self):
        return True if self.extras else self.g.c.decide(self.g.some)

    def items(self):
        return Items(self)

    @staticmethod
    def pv_merge(parts):
        g = next(p.g for p in parts if isinstance(p, Pairs))
        extras, own = [], False
        for p in parts:
            if isinstance(p, Pairs):
                if own:
                    raise Unsupported('merged twice')
                own = own or p.own
                new = p.extras
            else:
                new = list(p.items())
            for k, v in new:
                extras = [(n, x) for n, x in extras if n != k] + [(k, v)]
        return Pairs(g, extras, own)

    def _no(self, *a, **k):
        raise Unsupported('the other shocks of a shock')
    keys = values = __iter__ = __len__ = get = __getitem__ = __contains__ = copy = setdefault = update = pop = __setitem__ = _no
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison of dictionaries')


class Items:
    __pv__ = True

    def __init__(self, p):
        self.p = p


class World_:
    """the declarations: variance v(i) of the i-th shock; entries of the records of the shocks; T(i, j) what they say of a pair"""

    def __init__(self, c):
        self.c = c
        self.n = eng.fresh_int('shocks', 0)
        R, I, B = tree.R, z3.IntSort(), z3.BoolSort()
        self.v = z3.Function('variance', I, R)
        self.decl = z3.Function('declared', I, I, B)        # by the record of the first
        self.in_pairs = z3.Function('in_pairs', I, I, B)
        self._T = z3.Function('covariance', I, I, R)
        self.some = z3.Bool('pairs_not_empty')
        self.where = {}

    def T(self, a, b):
        """what the declarations say of the pair; of a shock with itself its variance"""
        return z3.If(a == b, self.v(a), self._T(z3.If(a < b, a, b), z3.If(a < b, b, a)))

    def want(self, a, b, done):
        return z3.If(a == b, self.v(a), z3.If(z3.Or(done(a, b), done(b, a)), self.T(a, b), 0))

    def moments(self, i, p):
        """the moments given for a pair, which agree with one another -> dict, whether any is a number"""
        c = self.c
        k = c.choose(4)
        r = {}
        if k & 1:
            x = fresh_value('corr')
            if p is not None:
                t = self.v(i) * self.v(p)
                c.assume(self.v(p) >= 0)
                c.assume(t >= 0)
                c.assume(self.T(i, p) == x.e * root(c, t))
            r['corr'] = x
        if k & 2:
            x = fresh_value('cov')
            if p is not None:
                c.assume(self.T(i, p) == x.e)
            r['cov'] = x
        return r, bool(k)

    def other(self, hint):
        """the name of another shock, or of none"""
        n = fresh_name(hint)
        if self.c.choose(2):
            p = eng.fresh_int('p_' + hint, 0)
            self.c.assume(zi(p) < zi(self.n))
            self.where[n] = zi(p)
        else:
            self.where[n] = None
        return n

    def shock(self, k):
        c, kk = self.c, zi(k)
        s = Shock()
        s.name = fresh_name('s')
        self.where[s.name] = kk
        c.assume(self.v(kk) >= 0)
        s.variance = RV(self.v(kk))
        s.corr = s.cov = None
        self.k = kk
        if c.choose(2):
            s.other = self.other('o')
            m, self.o_num = self.moments(kk, self.where[s.other])
            s.corr, s.cov = m.get('corr'), m.get('cov')
        else:
            s.other, self.o_num = '', False
            self.where[''] = None
        self.o_pos, self.o_name = self.where[s.other], s.other
        s.pairs = Pairs(self)
        # what the record declares
        j = z3.Int('any_j')
        self.o_decl = lambda b: z3.BoolVal(False) if self.o_pos is None or not self.o_num else b == self.o_pos
        return s


class Shock:
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a shock')


class Loops:
    """the invariants of the assembly"""

    def __init__(self, c, g, stoch):
        self.c, self.g, self.stoch = c, g, stoch
        self.outer = 0
        self.final = None
        self.S = None

    def mat(self, st, env):
        ms = {id(x): (n, x) for n, x in env.items() if isinstance(x, Mat)}
        if len(ms) != 1:
            raise Unsupported('the matrix')
        (self.m, self.obj), = ms.values()
        for n in st.names:
            if n in env and not isinstance(env[n], Mat):
                st.vals[n] = Poison()
        return self.obj

    def settle(self, f):
        """the matrix as the loop leaves it, whoever holds it"""
        self.obj.at = f

    def holds(self, m, f, what):
        """the matrix is f, everywhere"""
        c, g = self.c, self.g
        a, b = zi(eng.fresh_int('a', 0)), zi(eng.fresh_int('b', 0))
        c.assume(z3.And(a < zi(g.n), b < zi(g.n)))
        c.assume(z3.And(g.v(a) >= 0, g.v(b) >= 0))
        for d in self.inst(a, b):
            c.assume(d)
        c.prove(what, m.at(a, b) == f(a, b))

    def inst(self, a, b):
        """the meaning of `declared` at a, b"""
        g = self.g
        k = getattr(g, 'k', None)
        if k is None:
            return []
        out = []
        for x, y in ((a, b), (b, a)):
            out.append(z3.Implies(x == k, g.decl(x, y) == z3.Or(g.o_decl(y), g.in_pairs(x, y))))
        return out

    def __call__(self, w, st, what, env):
        c, g = self.c, self.g
        if what == 'enter':
            if isinstance(st.it, Items):
                return self.inner(st, env)
            it = st.it.it if isinstance(st.it, SymEnum) else st.it
            if source(it) is not self.stoch:
                raise Unsupported('a loop over something else')
            m = self.mat(st, env)
            c.goal('the matrix is square, of the number of shocks', all(bool(c.entails(zi(x) == zi(g.n))) for x in m.shape), backend='z3')
            self.outer += 1
            if self.outer == 1:
                self.inv = lambda k: lambda a, b: z3.If(z3.And(a == b, a < k), g.v(a), 0)
            elif self.outer == 2:
                self.inv = lambda k: lambda a, b: g.want(a, b, lambda x, y: z3.And(x < k, g.decl(x, y)))
            else:
                raise Unsupported('a third loop')
            self.holds(m, self.inv(z3.IntVal(0)), 'before the first shock nothing of it is in the matrix')
            k = None
            if c.choose(2):
                self.settle(self.inv(zi(g.n)))
                return
            k = eng.fresh_int('k', 0)
            c.assume(zi(k) < zi(g.n))
            self.k = zi(k)
            self.settle(self.inv(self.k))
            x = it.item(k)
            st.body, st.item = True, ((k + st.it.start, x) if it is not st.it else x)
        elif what == 'leave':
            if self.S is not None and isinstance(st.it, Items):
                return self.inner_leave(env)
            m = env.get(self.m)
            if not isinstance(m, Mat):
                raise Unsupported('the matrix')
            self.holds(m, self.inv(self.k + 1), 'the variances stand on the diagonal' if self.outer == 1 else
                       'what a shock declares of a pair stands at both places, and nothing else')

    # -- the loop over the other shocks of the k-th
    def inner(self, st, env):
        c, g, P = self.c, self.g, st.it.p
        if self.outer != 2:
            raise Unsupported('the pairs are gone through before the variances are known')
        m = self.mat(st, env)
        S = z3.Function(f'seen{self.outer}', z3.IntSort(), z3.BoolSort())
        k = self.k
        has_o = [v for n, v in P.extras if n == g.o_name]
        if not P.own or len(P.extras) > len(has_o):
            raise Unsupported('other entries')
        pre = (lambda b: z3.BoolVal(False)) if has_o else g.o_decl
        base = self.inv(k)

        def state(seen):
            done = lambda x, y: z3.Or(z3.And(x < k, g.decl(x, y)), z3.And(x == k, seen(y)))
            return lambda a, b: g.want(a, b, done)
        if pre is g.o_decl:
            a, b = z3.Ints('pa pb')
            if not c.entails(z3.Implies(z3.And(a >= 0, b >= 0, a < zi(g.n), b < zi(g.n)), m.at(a, b) == state(pre)(a, b))):
                pre = lambda b: z3.BoolVal(False)
        self.holds(m, state(pre), 'before the first pair the matrix is as it was')
        full = (lambda b: z3.Or(g.o_decl(b), g.in_pairs(k, b))) if has_o else (lambda b: z3.Or(pre(b), g.in_pairs(k, b)))
        if c.choose(2):
            self.settle(state(full))
            return
        self.S, self.state = S, state
        self.settle(state(S))
        # an entry
        if has_o and c.choose(2):
            o, mom, p, num = g.o_name, has_o[0], g.o_pos, g.o_num
        else:
            o = g.other('q')
            p = g.where[o]
            mom, num = g.moments(k, p)
            if not mom and c.choose(2):
                mom = {'corr': None, 'cov': None}
        self.p, self.num = p, num
        self.kind = o
        st.body, st.item = True, (o, mom)

    def inner_leave(self, env):
        c, g = self.c, self.g
        m = env.get(self.m)
        if not isinstance(m, Mat):
            raise Unsupported('the matrix')
        p, num, S = self.p, self.num, self.S
        now = lambda b: z3.Or(S(b), b == p) if p is not None and num else S(b)
        self.holds(m, self.state(now), 'a covariance, or a correlation times both standard deviations, stands at both places')


class Stoch(Seq):
    @property
    def names(self):
        return self.g.labels


def matrix(c):
    mods = ['pynare.core.variables', GEN]
    hold = {}
    w = load.World(mods, shim=False, loops={'*': lambda *a: hold['h'](*a)}, glob={**npshim.BUILTINS, 'list': npshim.pv_list, 'sum': sum})
    np_ = Np(c)
    w.mods[GEN].np = np_
    g = World_(c)
    g.labels = Labels(g.where)
    stoch = Stoch(g.n, g.shock)
    stoch.__dict__['g'] = g
    h = hold['h'] = Loops(c, g, stoch)
    me = object.__new__(w[f'{GEN}:DynamicModel'])
    me.__dict__['stoch'] = stoch
    sig = w[f'{GEN}:DynamicModel']._define_sigma(me)
    if not isinstance(sig, Mat):
        raise Unsupported('the matrix')
    if h.outer != 2:
        raise Unsupported('the shocks are not gone through twice')
    c.goal('the matrix is square, of the number of shocks', all(bool(c.entails(zi(x) == zi(g.n))) for x in sig.shape), backend='z3')
    a, b = zi(eng.fresh_int('a', 0)), zi(eng.fresh_int('b', 0))
    c.assume(z3.And(a < zi(g.n), b < zi(g.n)))
    c.prove('the matrix is the one declared', sig.at(a, b) == g.want(a, b, g.decl))
    c.prove('the matrix is symmetric', sig.at(a, b) == sig.at(b, a))


def units():
    D = f'{FAC}.DynareModelFactory'
    return [
        Unit(f'{D}.visit_ShocksBlock, _set_shock_pair', block, ['one more declaration adds what it says and leaves the rest',
                                                              'the records of the block are what the model is built from']),
        Unit(f'{VARS}._create_stoch_vars, StochVar.__init__', create, ['a shock has the moments recorded for it, and a variance of one if none is']),
        Unit(f'{VARS}._create_stoch_vars', made, ['shocks that are made already are kept']),
        Unit(f'{GEN}.DynamicModel._define_sigma', matrix, ['the matrix is the one declared', 'the matrix is symmetric']),
        vararr.unit('__array_finalize__'),
        *filegrammar.units(('shock', 'shocks_block')),
    ]
