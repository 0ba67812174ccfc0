"""timing: core/variables.py LeadLagCounter, read_lead_lags, set_lead_lags, VariableIndexManager, VariableTyper, TimedLLX"""
import functools
import numpy as np
from pv import eng, load, npshim, tree, grid
from pv.eng import Unit, Unsupported, SI, SB, zi
from pv.grid import Grid, Picks, Order, Undo, Cnt, Rng, IntSet, PicksAll
from pv.seqs import Seq
from pv.tree import Trees, fresh_name, fresh_value
z3 = eng.z3
LEVEL = 'proof'
V = 'pynare.core.variables'
ASSUMES = [
    'numpy: where/nonzero, selection by a mask and boolean assignment go through the selected cells in increasing (row-major) order; '
    'argsort of a list in which every position stands once is the inverse order',
    'declared names are distinct (C18: a name declared twice is refused)',
    'the dates of a variable are a finite set of integers; trees are finite (structural induction), a subtree acts on the counter '
    'through its leaves, one at a time',
]
I = z3.IntSort()
has = z3.Function('occurs', I, I, z3.BoolSort())      # variable, date


def world(whiles=(), mods=(V,), glob=None):
    hold = {}

    def loop(*a):
        h = hold.get('h')
        if h is None:
            raise Unsupported('a loop of unknown length')
        return h(*a)
    w = load.World(list(mods), shim=False, loops={'*': loop}, glob={**grid.GLOB, **(glob or {})})
    for m in w.mods.values():
        for n in ('np', 'numpy'):
            if n in m.__dict__:
                m.__dict__[n] = grid.NpNs(m.__dict__[n])
    return w, hold


class OneVar(grid.Base):
    def __init__(self, i, dates=None):
        self.__dict__.update(i=i, name=('name', i), lead_lag=dates)

    def __str__(self):
        return 'variable'


class Vars(grid.Base):
    """the declared variables in order"""

    def __init__(self, n, dated=True):
        self.n, self.dated = n, dated

    def item(self, i):
        i = zi(i)
        return OneVar(i, IntSet(lambda d: has(i, d)) if self.dated else None)

    def __getitem__(self, i):
        if isinstance(i, (SI, int)) and not isinstance(i, bool):
            eng.CUR.prove('positions lie within the list', grid.pos(self.n, zi(i)))
            return self.item(i)
        raise Unsupported('part of the variables')

    def __pv_len__(self):
        return self.n

    def pv_list(self):
        return self

    def pv_map(self, f):
        return Seq(self.n, lambda i: f(self.item(i)))


class ByName(grid.Base):
    """{name of i: value(i)} over all variables, in order"""

    def __init__(self, n, value):
        self.n, self.value = n, value

    def values(self):
        return Seq(self.n, self.value)

    def items(self):
        return Seq(self.n, lambda i: (('name', zi(i)), self.value(i)))

    def keys(self):
        return Seq(self.n, lambda i: ('name', zi(i)))

    def __getitem__(self, k):
        if isinstance(k, tuple) and k[0] == 'name':
            return self.value(k[1])
        raise Unsupported('a name from elsewhere')

    def __pv_len__(self):
        return self.n


def dmap(it, f, single):
    """dictionary comprehension over the variables"""
    g = f if single else (lambda t: f(*t))
    o = it.it if isinstance(it, tree.SymEnum) else it
    if isinstance(o, Vars):
        def entry(i):
            x = o.item(i)
            return g((SI.mk(zi(i) + zi(it.start)), x) if o is not it else x)
        i = z3.Int('any_position')
        r = entry(i)
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], tuple) and r[0][0] == 'name' and z3.eq(r[0][1], i)):
            raise Unsupported('entries under other names')
        return ByName(o.n, lambda i: entry(zi(i))[1])
    return load.sym_dmap(it, f, single)


class Marks:
    """before the k-th pass the first k variables have their dates marked, the others are blank"""

    def __init__(self, c, n):
        self.c, self.n, self.used, self.raising = c, n, 0, None

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            it = st.it
            self.en = isinstance(it, tree.SymEnum)
            o = it.it if self.en else it
            if not (isinstance(o, (Seq, Vars)) and z3.eq(zi(o.n), zi(self.n))):
                raise Unsupported('a loop over something else')
            self.used += 1
            gs = [n for n in st.names if isinstance(env.get(n), Grid)]
            if len(gs) != 1 or self.used > 1:
                raise Unsupported('the table of dates')
            self.g = gs[0]
            blank = lambda r, j: (z3.BoolVal(True), z3.IntVal(0))
            if not env[self.g].same(blank) or env[self.g].rows != 3:
                raise Unsupported('a table that starts otherwise')
            for n in st.names:
                if n in env and n != self.g:
                    from pv.contracts.common import Poison
                    st.vals[n] = Poison()
            marked = lambda r, j: (z3.Not(has(j, r - 1)), z3.IntVal(1))
            if c.choose(2):
                d, j = z3.Ints('date_ position_')
                c.env['accepted'] = True
                st.vals[self.g] = Grid(3, self.n, marked)
                # what the passes have established
                c.assume(z3.ForAll([j, d], z3.Implies(z3.And(grid.pos(self.n, j), has(j, d)), z3.And(d >= -1, d <= 1))))
                return
            k = eng.fresh_int('k', 0)
            c.assume(zi(k) < zi(self.n))
            self.k = k
            st.vals[self.g] = Grid(3, self.n, lambda r, j: (z3.If(j < zi(k), marked(r, j)[0], z3.BoolVal(True)), z3.IntVal(1)))
            st.body = True
            x = o.item(k)
            st.item = (SI.mk(zi(k) + zi(it.start)), x) if self.en else x
            c.env['pass'] = k
        elif what == 'leave':
            k, d = zi(self.k), z3.Int('date')
            c.prove('a variable of the model occurs at some date', z3.Exists([d], has(k, d)))
            c.prove('dates further away are refused', z3.Implies(has(k, d), z3.And(d >= -1, d <= 1)))
            ok = env[self.g].same(lambda r, j: (z3.If(j < k + 1, z3.Not(has(j, r - 1)), z3.BoolVal(True)), z3.IntVal(1)))
            c.goal('the table marks each date at which a variable occurs', isinstance(env[self.g], Grid) and ok, backend='z3')


def manager(c, dated=True):
    w, hold = world()
    w.mods[V].__dict__['_pv_dmap'] = dmap
    n, e = eng.fresh_int('n', 1), eng.fresh_int('n_shocks', 0)
    hold['h'] = Marks(c, n)
    vs = Vars(n)
    class St(grid.Base):
        def __pv_len__(self):
            return e
    cls = w[f'{V}:VariableIndexManager']
    err = im = None
    try:
        im = cls(vs, St())
    except Exception as ex:
        if type(ex).__name__ != 'EndogIndexError':
            raise
        err = ex
    return w, n, e, im, err


def build(c):
    w, n, e, im, err = manager(c)
    if err is not None:
        k, d = zi(c.env['pass']), z3.Int('date')
        c.prove('only a variable that never occurs, or too far away, is refused',
                z3.Or(z3.ForAll([d], z3.Not(has(k, d))), z3.Exists([d], z3.And(has(k, d), z3.Or(d < -1, d > 1)))))
        return
    if not c.env.get('accepted'):
        raise Unsupported('the dates are not gone through')
    occ = lambda r, j: has(j, r - 1)
    R = grid.rank(grid.Mask2(3, n, occ))
    col = lambda r, j: (z3.Not(occ(r, j)), R(r, j))
    c.goal('columns are numbered by date, then in declaration order', isinstance(im.llx, Grid) and im.llx.same(col), backend='z3')
    total = Cnt([(n, lambda j, d=d: z3.If(has(j, z3.IntVal(d)), 1, 0)) for d in (-1, 0, 1)])
    c.goal('every occurrence has a column', Cnt.of(im.n_endog_inc).same(total), backend='z3')
    c.goal('the shocks follow the dated variables', isinstance(im.exogenous_jacobian, Rng) and im.exogenous_jacobian.lo.same(total) and
           im.exogenous_jacobian.hi.same(total + e), backend='z3')
    B, F = lambda j: has(j, z3.IntVal(-1)), lambda j: has(j, z3.IntVal(1))
    where = lambda p: Picks(n, p, lambda j: (z3.BoolVal(False), j))
    cl = classes(B, F, lambda j: has(j, z3.IntVal(0)))
    o = im.dr_order
    c.goal('static, purely backward, mixed, purely forward variables, each in declaration order', isinstance(o, Order) and
           o.same([where(cl[k]) for k in ('static', 'pure_backward', 'mixed', 'pure_forward')]), backend='z3')
    c.goal('every variable stands exactly once in the decision-rule order', isinstance(o, Order) and o.once(n), backend='z3')
    c.goal('the declaration order undoes the decision-rule order', isinstance(im.dc_order, Undo) and
           (im.dc_order.order is o or im.dc_order.order.same(o.parts)), backend='z3')
    for a, k in (('n_static', 'static'), ('n_forward', 'forward'), ('n_backward', 'backward'), ('n_mixed', 'mixed'),
                 ('n_dynamic', 'dynamic'), ('n_state', 'backward')):
        c.goal('the counts are those of the classes', Cnt.of(getattr(im, a)).same(where(cl[k]).size), backend='z3', detail=a)
    c.goal('the counts are those of the classes', Cnt.of(im.n_endog).same(Cnt.of(n)) and Cnt.of(im.n_exog).same(Cnt.of(e)), backend='z3')
    dc, dr = im.dc_typer.llx, im.dr_typer.llx
    c.goal('positions in declaration order come from the table itself', isinstance(dc, Grid) and dc.gather is None and dc.same(col), backend='z3')
    ok = isinstance(dr, Grid) and dr.gather is not None
    if ok:
        base, by = dr.gather
        ok = Grid(3, n, base).same(col) and by.same(o.parts)
    c.goal('positions in decision-rule order come from the table in that order', ok, backend='z3')
    c.goal('positions in decision-rule order are asked for under dr', im.dr is im.dr_typer, backend='evaluation')
    for k in ('state', 'static', 'mixed', 'forward', 'pure_forward', 'backward', 'pure_backward', 'dynamic', 'cont'):
        c.goal('classes without an order are in declaration order', getattr(im, k).same(getattr(im.dc_typer, k)), backend='z3', detail=k)
    i = z3.Int('i')
    lf = im.lead_lags
    c.goal('the dates recorded are those of the variable', isinstance(lf, ByName) and isinstance(lf.value(i), IntSet) and
           grid.true(lf.value(i).has(z3.Int('date')) == has(i, z3.Int('date'))), backend='z3')
    c.goal('a name stands for its position', isinstance(im.var_cols, ByName) and grid.true(zi(im.var_cols.value(i)) == i), backend='z3')


def classes(B, F, C):
    a, o, n = z3.And, z3.Or, z3.Not
    return {
        'static': lambda j: a(n(B(j)), n(F(j))), 'dynamic': lambda j: o(B(j), F(j)), 'backward': B, 'state': B, 'forward': F,
        'mixed': lambda j: a(B(j), F(j)), 'pure_backward': lambda j: a(B(j), n(F(j))), 'pure_forward': lambda j: a(F(j), n(B(j))),
        'cont': C}


KEYS = {-1: ('t-1', -1, '-1'), 0: ('t', 0, '0'), 1: ('t+1', 1, '+1')}


def typer(c):
    w, hold = world()
    n = eng.fresh_int('n', 1)
    on, col = z3.Function('on', I, I, z3.BoolSort()), z3.Function('col', I, I, I)
    g = Grid(3, n, lambda r, j: (z3.Not(on(r, j)), col(r, j)))
    t = w[f'{V}:VariableTyper'](g)
    at = lambda r: (lambda j: on(z3.IntVal(r), j))
    cl = classes(at(0), at(2), at(1))
    for k, p in cl.items():
        got = getattr(t, k)
        c.goal('a class lists the positions of its variables, in order', isinstance(got, Picks) and
               got.same(Picks(n, p, lambda j: (z3.BoolVal(False), j))), backend='z3', detail=k)
        timed = getattr(t, f'{k}_timed')
        for d, keys in KEYS.items():
            r = z3.IntVal(d + 1)
            want = Picks(n, lambda j: z3.And(p(j), on(r, j)), lambda j: (z3.BoolVal(False), col(r, j)))
            for key in keys:
                got = timed[key]
                c.goal('dated positions are the columns of the class at that date', isinstance(got, Picks) and got.same(want),
                       backend='z3', detail=f'{k} {key}')
    try:
        t.state_timed[2]
        c.goal('only the three dates are accepted', False)
    except ValueError:
        c.goal('only the three dates are accepted', True, backend='evaluation')
    want = PicksAll(3, n, lambda r, j: on(r, j), lambda r, j: (z3.BoolVal(False), col(r, j)))
    f = t.flatten()
    c.goal('all columns, date by date', isinstance(f, PicksAll) and f.same(want), backend='z3')


# ------------------------------------------------------------------ where variables occur
class Periods(dict):
    """the dates found so far: for each name none yet, or some set of them"""

    def __init__(self, c):
        self.__dict__.update(c=c, start={}, now={})

    def _find(self, k):
        if k not in self.start:
            c = self.c
            if c.choose(2):
                f = z3.Function(f'seen{len(self.start)}', I, z3.BoolSort())
                self.start[k] = f
                self.now[k] = IntSet(lambda d: f(d))
            else:
                self.start[k] = None
        return k in self.now

    def get(self, k, d=None):
        return self.now[k] if self._find(k) else d

    def __getitem__(self, k):
        if not self._find(k):
            raise KeyError(k)
        return self.now[k]

    def __setitem__(self, k, v):
        self._find(k)
        self.now[k] = v

    def __contains__(self, k):
        return self._find(k)

    def setdefault(self, k, d=None):
        if not self._find(k):
            self.now[k] = d
        return self.now[k]

    def _no(self, *a, **k):
        raise Unsupported('the entries of an arbitrary dictionary are listed')
    keys = values = items = __iter__ = __len__ = copy = popitem = pop = __bool__ = __reversed__ = __delitem__ = update = _no

    def member(self, k, d):
        v = self.now.get(k)
        if v is None:
            return z3.BoolVal(False)
        if not isinstance(v, IntSet):
            v = IntSet(IntSet(None)._other(v))
        return v.has(d)

    def before(self, k, d):
        f = self.start.get(k)
        return f(d) if f is not None else z3.BoolVal(False)


KINDS = ('ModelExpression', 'BinaryOp', 'UnaryOp', 'Function', 'leaf')


def count(kind, c):
    w, hold = world(mods=['pynare.parsing.ast', 'pynare.parsing.base', V])
    t = Trees(w, lambda *a: None)
    t.leaf_value = lambda s: fresh_value('v')
    k0 = eng.fresh_int('offset0', 0)
    names, endog = [], tree.SymNames(eng.fresh_int('n', 1))
    offs = []

    def use(how):
        def mk():
            n = fresh_name('n')
            if c.choose(2):
                endog.add(n, eng.fresh_int(f'at_{n}', 0))
            names.append((n, how))
            return (how, n)
        return mk

    def leaf(spec):
        h, *x = spec
        if h == 'num':
            return t.ast.Num(t.tok(t.base.NUMBER, x[0]))
        v = t.ast.Var(t.tok(t.base.ID, x[0]))
        if h == 'var':
            return v
        o = eng.fresh_int(f'offset{len(offs) + 1}', 0)
        offs.append((x[0], zi(o) if h == '+' else -zi(o)))
        r = t.ast.PeriodVar(v, t.tok(t.base.PLUS if h == '+' else t.base.MINUS, h), t.tok(t.base.NUMBER, 1.))
        # any offset (the constructor itself: C01)
        for a, x in list(vars(r).items()):
            if x == 1 or x == -1:
                vars(r)[a] = o if x == 1 else -o
        r.offset = t.tok(t.base.NUMBER, o)
        return r
    t.leaf = leaf
    node, _, specs = t.node(c, [use('var'), use('+'), use('-'), lambda: ('num', fresh_value('number'))], (kind,))
    at = {}
    for n, o in offs:
        at[n] = o
    counter = w[f'{V}:LeadLagCounter'](endog, node)
    if type(counter.__dict__.get('endog_periods')) is not dict or counter.endog_periods:
        raise Unsupported('what is kept of the dates')
    p = counter.endog_periods = Periods(c)
    before = tree.snapshot(node)
    try:
        got = counter.count()
    except (KeyError, AttributeError, TypeError, ValueError) as ex:
        c.goal('every expression can be gone through', False, backend='evaluation', detail=f'{type(ex).__name__} {ex}')
        return
    c.goal('the dates found are handed back', got is p, backend='evaluation')
    d = z3.Int('date')
    for n, how in names:
        q = at.get(n, z3.IntVal(0))
        if n in endog:
            c.prove('each date at which a variable occurs is recorded, and no other', p.member(n, d) == z3.Or(p.before(n, d), d == q))
        else:
            c.goal('other names are not recorded', n not in p.now or p.start[n] is not None and grid.true(p.member(n, d) == p.before(n, d)),
                   backend='z3')
    c.goal('the dates found are handed back', set(p.now) <= {n for n, _ in names}, backend='evaluation')
    c.goal('expressions are left as they were', tree.kept(before, tree.snapshot(node)), backend='evaluation')


# all expressions together: variable v is any of them, date d any
occ = z3.Function('dated_in', I, I, I, z3.BoolSort())       # expression, variable, date
upto = z3.Function('dated_before', I, I, I, z3.BoolSort())


class Table(dict):
    """{name: dates} over all variables; names are v (any variable) and others"""

    def __init__(self, sets, shared):
        self.__dict__.update(sets=sets, shared=shared)

    def __getitem__(self, k):
        if k not in self.sets:
            self.sets[k] = self.arb(k)
        return self.sets[k]

    def arb(self, k):
        f = z3.Function(f'kept_{k}', I, z3.BoolSort())
        return IntSet(lambda d: f(d), 'dates of different variables are kept apart' if self.shared else None)

    def __setitem__(self, k, v):
        self.sets[k] = v

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        return True

    def _no(self, *a, **k):
        raise Unsupported('the entries of a dictionary of unknown length are listed')
    keys = values = items = __iter__ = __len__ = copy = popitem = pop = __bool__ = __reversed__ = __delitem__ = update = _no


class DictType:
    def __call__(self, *a, **k):
        return dict(*a, **k)

    def fromkeys(self, ks, v=None):
        if isinstance(ks, tree.SymNames):
            if not isinstance(v, (set, IntSet, frozenset)):
                raise Unsupported('what every name starts from')
            return Table({'v': IntSet(IntSet(None)._other(v) if not isinstance(v, IntSet) else v.has,
                                      'dates of different variables are kept apart')}, True)
        return dict.fromkeys(ks, v)


npshim.FAKE[DictType] = dict


class Found:
    """what the counter returns for the e-th expression: entries only for variables that occur in it"""

    def __init__(self, e):
        self.e = zi(e)

    def items(self):
        return Items(self)

    def __getattr__(self, a):
        raise Unsupported(f'{a} of what was found')


class Items(grid.Base):
    def __init__(self, f):
        self.f = f


class Gather:
    def __init__(self, c, exprs, v):
        self.c, self.exprs, self.v = c, exprs, v
        self.stack = []

    def tables(self, env):
        t = [n for n, x in env.items() if isinstance(x, Table)]
        if len(t) != 1:
            raise Unsupported('where the dates are kept')
        return t[0]

    def __call__(self, w, st, what, env):
        c, d = self.c, z3.Int('date')
        if what == 'enter':
            n = self.tables(env)
            T = env[n]
            from pv.contracts.common import Poison
            keep = {n} if n in st.names else set()
            st.pv = n
            if isinstance(st.it, Items):
                f = st.it.f
                for x in st.names:
                    if x in env and x not in keep:
                        st.vals[x] = Poison()
                here = T['v']
                P = here.has
                if c.choose(2):
                    q = IntSet(lambda d: z3.Or(P(d), occ(f.e, self.v, d)), here.frozen)
                    st.vals[n] = Table({'v': q}, T.shared)
                    return
                mine = bool(c.choose(2))
                name = 'v' if mine else fresh_name('w')
                who = self.v if mine else z3.Int('another_variable')
                c.assume(who != self.v if not mine else z3.BoolVal(True))
                st.body, st.item = True, (name, IntSet(lambda d: occ(f.e, who, d)))
                st.inner = (P, f, mine)
            else:
                it = st.it.it if isinstance(st.it, tree.SymEnum) else st.it
                if it is not self.exprs or st.it is not it:
                    raise Unsupported('a loop over something else')
                c.prove('each date at which a variable occurs in some equation is recorded, and no other',
                        z3.Not(T['v'].has(d)))
                for x in st.names:
                    if x in env and x not in keep:
                        st.vals[x] = Poison()
                fz = T['v'].frozen
                if c.choose(2):
                    N = zi(it.n)
                    st.vals[n] = Table({'v': IntSet(lambda d: upto(N, self.v, d), fz)}, T.shared)
                    return
                k = eng.fresh_int('k', 0)
                c.assume(zi(k) < zi(it.n))
                st.k = zi(k)
                st.vals[n] = Table({'v': IntSet(lambda d: upto(st.k, self.v, d), fz)}, T.shared)
                st.body, st.item = True, it.item(k)
        elif what == 'leave':
            T = env[st.pv]
            if not isinstance(T, Table) or not isinstance(T['v'], IntSet):
                raise Unsupported('where the dates are kept')
            if isinstance(st.it, Items):
                P, f, mine = st.inner
                c.prove('each date at which a variable occurs in some equation is recorded, and no other',
                        T['v'].has(d) == (z3.Or(P(d), occ(f.e, self.v, d)) if mine else P(d)))
            else:
                c.prove('each date at which a variable occurs in some equation is recorded, and no other',
                        T['v'].has(d) == z3.Or(upto(st.k, self.v, d), occ(st.k, self.v, d)))


def collect(form, c):
    w, hold = world(glob={'dict': DictType()})
    v = z3.Int('variable')
    exprs = Seq(eng.fresh_int('n_equations', 0), lambda i: ('equation', zi(i)))
    class NameList(tree.SymNames):
        def __getattr__(self, a):
            raise AttributeError(a)
    names = NameList(eng.fresh_int('n', 1))
    class C:
        def __init__(self, endog, tree_):
            c.goal('the variables looked for are the endogenous ones', endog is names, backend='evaluation')
            if not (isinstance(tree_, tuple) and tree_[0] == 'equation'):
                raise Unsupported('what is gone through')
            self.e = tree_[1]

        def count(self):
            return Found(self.e)
    w.patch(f'{V}:LeadLagCounter', C)
    hold['h'] = Gather(c, exprs, v)
    arg = names
    if form == 'variables':
        class Vs:
            pass
        arg = Vs()
        arg.names = names
    out = w[f'{V}:read_lead_lags'](arg, exprs)
    if not isinstance(out, Table):
        raise Unsupported('what is returned')
    d = z3.Int('date')
    c.prove('the result holds what all equations say', out['v'].has(d) == upto(zi(exprs.n), v, d))


def hand_out(c):
    w, hold = world()
    n = eng.fresh_int('n', 1)
    E = w[f'{V}:EndogVar']

    def var(i):
        o = object.__new__(E)
        o.__dict__.update(name=('name', zi(i)), lead_lag='nothing yet')
        return o
    vs = Seq(n, var)
    ex = object()

    class Dates(dict):
        def __getitem__(self, k):
            return ('dates', k[1])

        def get(self, k, d=None):
            return self[k]
    calls = []

    def read(endog, exprs):
        calls.append(1)
        c.goal('the dates are read for these variables in these equations', endog is vs and exprs is ex, backend='evaluation')
        return Dates()
    w.patch(f'{V}:read_lead_lags', read)

    def loop(w_, st, what, env):
        if what == 'enter':
            if st.it is not vs:
                raise Unsupported('a loop over something else')
            if c.choose(2):
                return
            k = eng.fresh_int('k', 0)
            c.assume(zi(k) < zi(n))
            st.k = zi(k)
            c.env['var'] = x = vs.item(k)
            st.body, st.item = True, x
        elif what == 'leave':
            g = c.env['var'].lead_lag
            c.goal('each variable gets its own dates', isinstance(g, tuple) and g[0] == 'dates' and z3.eq(g[1], st.k), backend='evaluation')
    hold['h'] = loop
    out = w[f'{V}:set_lead_lags'](vs, ex)
    c.goal('the variables are handed back', out is vs, backend='evaluation')


def units():
    P = functools.partial
    return [
        Unit(f'{V}.VariableIndexManager', build, [
            'the table marks each date at which a variable occurs', 'columns are numbered by date, then in declaration order',
            'static, purely backward, mixed, purely forward variables, each in declaration order',
            'every variable stands exactly once in the decision-rule order', 'the declaration order undoes the decision-rule order',
            'only a variable that never occurs, or too far away, is refused', 'the counts are those of the classes']),
        Unit(f'{V}.VariableTyper, TimedLLX', typer, ['a class lists the positions of its variables, in order',
                                                    'dated positions are the columns of the class at that date']),
        *[Unit(f'{V}.LeadLagCounter on {k}', P(count, k), ['the dates found are handed back']) for k in KINDS],
        *[Unit(f'{V}.read_lead_lags ({f})', P(collect, f), ['the result holds what all equations say',
               'each date at which a variable occurs in some equation is recorded, and no other']) for f in ('variables', 'names')],
        Unit(f'{V}.set_lead_lags', hand_out, ['each variable gets its own dates', 'the variables are handed back']),
    ]
