"""calibration: core/variables.py order_precedence, ParamLocator, evaluate_parameter, solve_calibration, ModelCalibration"""
import functools
from pv import eng, load, npshim, tree, grid
from pv.contracts import trees, filegrammar
from pv.contracts.common import Poison
from pv.eng import Unit, Unsupported, PathEnd, SI, SB, zi
from pv.tree import Trees, fresh_name, fresh_value, Opaque
z3 = eng.z3
LEVEL = 'proof'
V = 'pynare.core.variables'
ASSUMES = [
    'python: sorted(d, key=d.get) lists the keys of d with values that do not decrease; sum of positive numbers is at least each of them',
    'definitions mention names that are defined (others raise KeyError before any value is returned)',
    'the value of a definition depends on the scope only through the names that occur in it (C01: evaluators read the scope by name)',
    'trees are finite; a finite set in which every name depends on another one of the set contains a circle',
]
I = z3.IntSort()
dep = z3.Function('mentions', I, I, z3.BoolSort())
N = lambda: eng.fresh_int('n', 0)
key = lambda k: z3.And(k >= 0, k < z3.Int('n'))


# ---------------------------------------------------------------- the order of solving
class Name(grid.Base):
    def __init__(self, i):
        self.i = i

    __hash__ = object.__hash__


class Mentions(grid.Base):
    """the names that the definition of k mentions"""

    def __init__(self, k):
        self.k = k

    def pv_map(self, f):
        return Bag(self, f)

    def __bool__(self):
        r = z3.Int('r')
        return eng.CUR.decide(z3.Exists([r], z3.And(key(r), dep(self.k, r))))

    def __pv_len__(self):
        n = eng.fresh_int(f'len{len(eng.CUR.env.setdefault("lens", []))}', 0)
        eng.CUR.env['lens'].append(n)
        r = z3.Int('r')
        eng.CUR.assume((zi(n) > 0) == z3.Exists([r], z3.And(key(r), dep(self.k, r))))
        return n


class Bag(grid.Base):
    """[f(x) for x in names]"""

    def __init__(self, of, f):
        self.of, self.f = of, f

    def within(self, r):
        return z3.And(key(r), dep(self.of.k, r)) if isinstance(self.of, Mentions) else key(r)

    def item(self, r):
        if isinstance(self.of, Mentions):
            eng.CUR.prove('names are looked up that are there', z3.Implies(self.within(r), key(r)))
        return grid.ite(lambda: self.f(Name(r)) if isinstance(self.of, Mentions) else self.f(self.of.item(r)), number)


def number(x):
    if isinstance(x, SB):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return zi(x)


def truth(x):
    if z3.is_expr(x):
        return x != 0
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SB):
        return x.e
    if isinstance(x, SI):
        return x.e != 0
    raise Unsupported('a truth value')


def _r():
    e = eng.CUR.env
    e['r'] = e.get('r', 0) + 1
    return z3.Int(f'r{e["r"]}')


def pv_all(x):
    if isinstance(x, Bag):
        r = _r()
        return SB(z3.ForAll([r], z3.Implies(x.within(r), truth(x.item(r)))))
    return all(x)


def pv_any(x):
    if isinstance(x, Bag):
        r = _r()
        return SB(z3.Exists([r], z3.And(x.within(r), truth(x.item(r)))))
    return any(x)


def pv_sum(x, start=0):
    if isinstance(x, Values):
        return x.total()
    if isinstance(x, Bag) and start == 0:
        r = _r()
        n = eng.fresh_int(f'sum{r}')
        # a sum of numbers that are not negative is at least each of them, and zero if there are none
        v = x.item(r)
        eng.CUR.prove('what is added up is not negative', z3.Implies(x.within(r), v >= 0))
        eng.CUR.assume(zi(n) >= 0)
        eng.CUR.assume(z3.ForAll([r], z3.Implies(x.within(r), zi(n) >= v)))
        return n
    return npshim.pv_sum(x, start)


def pv_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], Bag) and (not k or k == {'default': 0}):
        x, r = a[0], _r()
        v = x.item(r)
        n = eng.fresh_int(f'max{r}')
        if not k:
            eng.CUR.prove('there is a largest one', z3.Exists([r], x.within(r)))
        else:
            eng.CUR.prove('what is compared is not negative', z3.Implies(x.within(r), v >= 0))
            eng.CUR.assume(zi(n) >= 0)
        eng.CUR.assume(z3.ForAll([r], z3.Implies(x.within(r), zi(n) >= v)))
        return n
    return max(*a, **k)


class Keys(grid.Base):
    def __init__(self, d):
        self.d = d

    def item(self, k):
        return Name(k)

    def pv_map(self, f):
        return Bag(self, f)

    def pv_list(self):
        return self

    def __pv_len__(self):
        return SI(z3.Int('n'))


class RHS(grid.Base):
    """{name: the names its definition mentions}"""

    def keys(self):
        return Keys(self)

    def items(self):
        return Items(self)

    def __getitem__(self, k):
        if not isinstance(k, Name):
            raise Unsupported('a name from elsewhere')
        return Mentions(k.i)

    def pv_list(self):
        return Keys(self)

    def pv_map(self, f):
        return Bag(Keys(self), f)

    def item(self, k):
        return Name(k)

    def __pv_len__(self):
        return SI(z3.Int('n'))


class Items(grid.Base):
    def __init__(self, d):
        self.d = d

    def item(self, k):
        return (Name(k), Mentions(k)) if isinstance(self.d, RHS) else (Name(k), SI.mk(z3.Select(self.d.a, k)))

    def pv_map(self, f):
        return Bag(self, lambda t: f(t))


class Values(grid.Base):
    def __init__(self, d):
        self.d = d

    def item(self, k):
        return SI.mk(z3.Select(self.d.a, k))

    def pv_map(self, f):
        return Bag(self, f)

    def total(self):
        """the sum of zeros and ones is the number of ones"""
        d, k = self.d, z3.Int('any_name')
        eng.CUR.prove('each name starts solved or not', z3.Implies(key(k), z3.Or(z3.Select(d.a, k) == 0, z3.Select(d.a, k) == 1)))
        return SI(z3.Int('n') - opened(d.a))


class Prec(grid.Base):
    """{name: number}"""

    def __init__(self, a):
        self.a = a

    def _k(self, k):
        if not isinstance(k, Name):
            raise Unsupported('a name from elsewhere')
        return k.i

    def __getitem__(self, k):
        return SI.mk(z3.Select(self.a, self._k(k)))

    def get(self, k, d=None):
        return self[k]

    def __setitem__(self, k, v):
        if isinstance(v, bool) or not eng.isint(v):
            raise Unsupported('what is stored')
        i = self._k(k)
        eng.CUR.env.setdefault('writes', []).append((self.a, i, zi(v)))
        self.a = z3.Store(self.a, i, zi(v))

    def keys(self):
        return Keys(self)

    def values(self):
        return Values(self)

    def items(self):
        return Items(self)

    def pv_list(self):
        return Keys(self)

    def pv_map(self, f):
        return Bag(Keys(self), f)

    def __pv_len__(self):
        return SI(z3.Int('n'))


class Sorted(grid.Base):
    def __init__(self, a):
        self.a = a


def pv_sorted(x, key=None, reverse=False):
    if isinstance(x, (Prec, Keys)):
        d = x if isinstance(x, Prec) else x.d
        if reverse or key is None:
            raise Unsupported('another order')
        k = z3.Int('any_key')
        v = SI(grid.ite(lambda: key(Name(k)), number))
        if not isinstance(d, (Prec, RHS)):
            raise Unsupported('a list of something else')
        return Sorted(lambda i: z3.substitute(zi(v), (k, i)))
    return sorted(x, key=key, reverse=reverse)


class DictType:
    def __call__(self, *a, **k):
        return dict(*a, **k)

    def fromkeys(self, ks, v=None):
        if isinstance(ks, (Keys, RHS)):
            if not eng.isint(v):
                raise Unsupported('what every name starts from')
            return Prec(z3.K(I, zi(v)))
        return dict.fromkeys(ks, v)


GL = {**grid.GLOB, 'set': set, 'tuple': tuple, 'all': pv_all, 'any': pv_any, 'sum': pv_sum, 'max': pv_max, 'sorted': pv_sorted, 'dict': DictType()}


def dmap(it, f, single):
    if isinstance(it, (RHS, Keys, Items)):
        g = f if single else (lambda t: f(*t))
        k = z3.Int('any_key')
        it = Keys(it) if isinstance(it, RHS) else it
        def entry(r):
            if not (isinstance(r, tuple) and isinstance(r[0], Name) and z3.eq(r[0].i, k)):
                raise Unsupported('entries under other names')
            return number(r[1])
        return Prec(z3.Lambda([k], grid.ite(lambda: g(it.item(k)), entry)))
    return load.sym_dmap(it, f, single)


opened = z3.Function('number_of_open_names', z3.ArraySort(I, I), I)
SOUND = 'a solved name mentions solved names only, with smaller numbers'
COUNT = 'the number of open names is kept up'


def S(a, k):
    return z3.Select(a, k)


def count_facts(a):
    k = z3.Int('k_')
    return z3.And(opened(a) >= 0, (opened(a) == 0) == z3.ForAll([k], z3.Implies(key(k), S(a, k) != 0)))


def count_write(a, i, v):
    """one entry changes"""
    return opened(z3.Store(a, i, v)) == opened(a) + z3.If(z3.And(S(a, i) == 0, v != 0), -1, z3.If(z3.And(S(a, i) != 0, v == 0), 1, 0))


def count_less(a, b, x):
    """no name is reopened and x is solved"""
    k = z3.Int('k_')
    return z3.Implies(z3.And(key(x), S(a, x) == 0, S(b, x) != 0, z3.ForAll([k], z3.Implies(z3.And(key(k), S(a, k) != 0), S(b, k) != 0))),
                      opened(b) <= opened(a) - 1)


def sound(a):
    k, r = z3.Ints('k_ r_')
    return z3.And(z3.ForAll([k], z3.Implies(key(k), S(a, k) >= 0)),
                  z3.ForAll([k, r], z3.Implies(z3.And(key(k), key(r), dep(k, r), S(a, k) > 0), z3.And(S(a, r) > 0, S(a, r) < S(a, k)))))


def stuck(a):
    k, r = z3.Ints('k_ r_')
    return z3.ForAll([k], z3.Implies(z3.And(key(k), S(a, k) == 0), z3.Exists([r], z3.And(key(r), dep(k, r), S(a, r) == 0))))


def hasdep(a):
    k, r = z3.Ints('k_ r_')
    return z3.ForAll([k], z3.Implies(z3.And(key(k), S(a, k) == 0), z3.Exists([r], z3.And(key(r), dep(k, r)))))


def finite(pc, goal):
    """a counterexample with two or three names: quantifiers over names become conjunctions, the number of open names a sum"""
    for n in (1, 2, 3):
        memo = {}

        def ex(e):
            h = e.get_id()
            if h in memo:
                return memo[h][0]
            if z3.is_quantifier(e):
                if e.is_lambda() or any(e.var_sort(i) != I for i in range(e.num_vars())):
                    return e
                import itertools
                body = e.body()
                parts = [ex(z3.simplify(z3.substitute_vars(body, *[z3.IntVal(v) for v in vs[::-1]])))
                         for vs in itertools.product(range(n), repeat=e.num_vars())]
                r = z3.And(parts) if e.is_forall() else z3.Or(parts)
            elif z3.is_app(e) and e.decl().name() == opened.name():
                a = ex(e.arg(0))
                r = z3.Sum([z3.If(S(a, z3.IntVal(i)) == 0, 1, 0) for i in range(n)])
            elif z3.is_app(e) and e.num_args():
                kids = [ex(x) for x in e.children()]
                r = e.decl()(*kids) if any(not z3.eq(x, y) for x, y in zip(kids, e.children())) else e
            else:
                r = e
            memo[h] = (r, e)
            return r
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(z3.Int('n') == n)
        for x in pc:
            s.add(ex(x))
        s.add(z3.Not(ex(goal)))
        if s.check() == z3.sat:
            return str(s.model())
    return None


def ready(a, x):
    r = z3.Int('r_')
    return z3.And(key(x), S(a, x) == 0, z3.ForAll([r], z3.Implies(z3.And(key(r), dep(x, r)), S(a, r) > 0)))


class Ghost:
    """the loops of order_precedence.
    first loop: the names before the k-th that mention nothing are at one, all others at zero.
    sweeps: the table is sound, the count is the number of open names, and after t sweeps either at least t names have been solved
    since the start or every open name mentions an open one.
    passes of a sweep that starts from p: sound, counted, nothing reopened, nothing solved if p is stuck, and names before the k-th
    whose definition could be solved in p are solved."""

    def __init__(self, c, which):
        self.c, self.stage, self.inner, self.which = c, 0, 0, which

    def table(self, env):
        t = [n for n, x in env.items() if isinstance(x, Prec)]
        if len(t) != 1:
            raise Unsupported('where the precedence is kept')
        return t[0]

    def sound_at(self, a):
        k, r = z3.Ints('any_name any_other')
        self.c.prove(SOUND, z3.Implies(key(k), S(a, k) >= 0))
        self.c.prove(SOUND, z3.Implies(z3.And(key(k), key(r), dep(k, r), S(a, k) > 0), z3.And(S(a, r) > 0, S(a, r) < S(a, k))))

    def __call__(self, w, st, what, env):
        if what == 'exit':
            return
        n = self.table(env)
        if what == 'enter':
            st.pv = 'sweeps' if st.it is None else 'first' if self.stage == 0 else 'passes'
        getattr(self, st.pv)(st, what, env, n)

    def over(self, it):
        if not (isinstance(it, RHS) or isinstance(it, (Items, Keys)) and isinstance(it.d, (RHS, Prec))):
            raise Unsupported('a loop over something else')
        return it.item

    def first(self, st, what, env, n):
        c = self.c
        k_, r_, i = z3.Ints('any_name r_ i_')
        none = lambda x: z3.Not(z3.Exists([r_], z3.And(key(r_), dep(x, r_))))
        at = lambda j, x: z3.If(z3.And(x < j, none(x)), 1, 0)
        if what == 'enter':
            item = self.over(st.it)
            self.stage = 1
            if not grid.true(z3.Implies(key(k_), S(env[n].a, k_) == at(z3.IntVal(0), k_))):
                raise Unsupported('a table that starts otherwise')
            for x in st.names:
                if x in env and x != n:
                    st.vals[x] = Poison()
            if c.choose(2):
                a = z3.Array('first', I, I)
                c.assume(z3.ForAll([i], z3.Implies(key(i), S(a, i) == at(z3.Int('n'), i))))
                st.vals[n] = Prec(a)
                return
            self.k = k = zi(eng.fresh_int('k', 0))
            c.assume(k < z3.Int('n'))
            a = z3.Array('p', I, I)
            c.assume(z3.ForAll([i], z3.Implies(key(i), S(a, i) == at(k, i))))
            st.vals[n] = Prec(a)
            st.body, st.item = True, item(k)
        else:
            c.prove('names that mention nothing come first', z3.Implies(key(k_), S(env[n].a, k_) == at(self.k + 1, k_)))

    def sweeps(self, st, what, env, n):
        c = self.c
        if what == 'enter':
            if self.stage == 2:
                raise Unsupported('several loops')
            self.stage = 2
            a0 = env[n].a
            c.assume(count_facts(a0))
            o = opened(a0)
            count = [x for x in st.names if eng.isint(env.get(x)) and c.entails(zi(env[x]) == o)]
            if len(count) <= self.which:
                raise eng.NotThisWay('what the loop counts')
            self.count = count[self.which]
            left = [x for x in st.names if x in env and x not in (n, self.count) and isinstance(env[x], (SI, eng.SQ, int)) and
                    not isinstance(env[x], bool)]
            if len(left) > 1:
                raise Unsupported('what the loop counts')
            self.sound_at(a0)
            k, r = z3.Ints('any_name r_')
            c.prove('open names mention something', z3.Implies(z3.And(key(k), S(a0, k) == 0), z3.Exists([r], z3.And(key(r), dep(k, r)))))
            p, t = z3.Array('p0', I, I), z3.Int('sweeps')
            m = opened(p)
            c.assume(sound(p))
            c.assume(hasdep(p))
            c.assume(count_facts(p))
            c.assume(z3.And(t >= 0, z3.Or(m <= o - t, stuck(p))))
            # squares: o * o >= o
            c.assume(o * o >= o)
            for x in st.names:
                if x in env and x != n:
                    st.vals[x] = Poison()
            st.vals[n], st.vals[self.count] = Prec(p), SI(m)
            self.left = left[0] if left else None
            if left:
                self.budget = env[left[0]]
                st.vals[left[0]] = self.budget - SI(t)
            self.p, self.t, self.o = p, t, o
            c.env['final'] = p
        else:
            if not self.inner:
                raise Unsupported('a sweep without passes')
            a = env[n].a
            c.prove(COUNT, zi(env[self.count]) == opened(a))
            c.prove('a sweep solves something unless every open name mentions an open one',
                    z3.Or(opened(a) <= self.o - self.t - 1, stuck(a)))
            if self.left:
                now = env[self.left]
                if isinstance(now, Poison) or not bool(now == self.budget - SI(self.t) - 1):
                    raise Unsupported('how sweeps are counted')

    def passes(self, st, what, env, n):
        c, p = self.c, self.p
        k_, i = z3.Ints('any_name i_')
        x = z3.Int('ready_name')
        q = z3.Array('q', I, I)
        kept = z3.And(sound(q), hasdep(q), count_facts(q), z3.ForAll([i], z3.Implies(z3.And(key(i), S(p, i) > 0), S(q, i) > 0)),
                      z3.Implies(stuck(p), z3.ForAll([i], z3.Implies(z3.And(key(i), S(p, i) == 0), S(q, i) == 0))))
        if what == 'enter':
            item = self.over(st.it)
            self.inner += 1
            if self.inner > 1 or env[n].a is not p or not c.entails(zi(env[self.count]) == opened(p)):
                raise Unsupported('a sweep that starts otherwise')
            for y in st.names:
                if y in env and y not in (n, self.count):
                    st.vals[y] = Poison()
            st.vals[n], st.vals[self.count] = Prec(q), SI(opened(q))
            c.assume(kept)
            if c.choose(2):
                # x is a name that p could solve, if there is one
                c.assume(z3.Or(ready(p, x), stuck(p)))
                c.assume(z3.Implies(ready(p, x), S(q, x) > 0))
                c.assume(count_less(p, q, x))
                return
            self.k = k = zi(eng.fresh_int('k', 0))
            c.assume(k < z3.Int('n'))
            c.assume(z3.Implies(z3.And(ready(p, x), x < k), S(q, x) > 0))
            c.env['writes'] = []
            st.body, st.item = True, item(k)
        else:
            b = env[n].a
            for a, j, v in c.env['writes']:
                c.assume(count_write(a, j, v))
            self.sound_at(b)
            c.prove('open names mention something', z3.Implies(z3.And(key(k_), S(b, k_) == 0), z3.Exists([i], z3.And(key(i), dep(k_, i)))))
            c.prove('what is solved stays solved', z3.Implies(z3.And(key(k_), S(p, k_) > 0), S(b, k_) > 0))
            c.prove('a name that mentions an open one stays open', z3.Implies(z3.And(stuck(p), key(k_), S(p, k_) == 0), S(b, k_) == 0))
            c.prove('a name whose definition can be solved is solved in its pass', z3.Implies(z3.And(ready(p, x), x < self.k + 1), S(b, x) > 0))
            c.prove(COUNT, zi(env[self.count]) == opened(b))


def precedence(which, c):
    c.env['decide_ms'], c.env['finite'] = 400, finite
    w, hold = world()
    hold['h'] = Ghost(c, which)
    n = N()
    try:
        out = w[f'{V}:order_precedence'](RHS())
    except Exception as ex:
        if type(ex).__name__ != 'CalibrationError':
            raise
        p = c.env.get('final')
        if p is None:
            raise Unsupported('a refusal before the sweeps')
        k = z3.Int('k_')
        c.prove('only circular definitions are refused', z3.And(stuck(p), z3.Exists([k], z3.And(key(k), S(p, k) == 0))))
        return
    if not isinstance(out, Sorted):
        raise Unsupported('what is returned')
    k, r = z3.Ints('any_name any_other')
    c.prove('a definition comes after the names it mentions', z3.Implies(z3.And(key(k), key(r), dep(k, r)), out.a(r) < out.a(k)))


def world(mods=(V,), glob=None):
    hold = {}

    def loop(*a):
        h = hold.get('h')
        if h is None:
            raise Unsupported('a loop of unknown length')
        return h(*a)
    w = load.World(list(mods), shim=False, loops={'*': loop}, whiles=('*',), glob={**GL, **(glob or {})})
    for m in w.mods.values():
        m.__dict__['_pv_dmap'] = dmap
    return w, hold


# ---------------------------------------------------------------- values
class Map(grid.Base):
    """a mapping given name by name"""

    def __init__(self, has, at):
        self.has, self.at, self.over = has, at, {}

    def __getitem__(self, k):
        if k in self.over:
            return self.over[k]
        if not self.has(k):
            raise KeyError(k)
        return self.at(k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        self.over[k] = v

    def __delitem__(self, k):
        raise Unsupported('an entry is removed')

    def __contains__(self, k):
        return k in self.over or self.has(k)

    def items(self):
        return Of(self, 'items')

    def keys(self):
        return Of(self, 'keys')

    def copy(self):
        over = dict(self.over)
        m = Map(self.has, self.at)
        m.over = over
        return m

    def update(self, o):
        if not isinstance(o, Map) or self.over:
            raise Unsupported('update')
        r = Map.pv_merge((self.copy(), o))
        self.has, self.at = r.has, r.at

    @staticmethod
    def pv_merge(parts):
        ps = [p.copy() if isinstance(p, Map) else dict(p) for p in parts]

        def at(k):
            for p in ps[::-1]:
                if k in p:
                    return p[k]
            raise KeyError(k)
        return Map(lambda k: any(k in p for p in ps), at)

    __pv_isinstance__ = lambda self, ts: any(t is dict or t is Map or t is object or getattr(t, '__name__', '') in
                                             ('Mapping', 'MutableMapping') for t in ts)


class Of(grid.Base):
    def __init__(self, m, what):
        self.m, self.what = m, what

    def item(self, k):
        return (k, self.m[k]) if self.what == 'items' else k


class MapType(DictType):
    def __call__(self, *a, **k):
        return a[0].copy() if a and isinstance(a[0], Map) else dict(*a, **k)


npshim.FAKE[MapType] = dict


def mapped(it, f, single):
    """{k: g for k(, v) in m}: entry by entry"""
    g = f if single else (lambda t: f(*t))
    o = Of(it, 'keys') if isinstance(it, Map) else it
    if not isinstance(o, Of):
        return dmap(it, f, single)
    m = o.m.copy()
    o = Of(m, o.what)

    def entry(k):
        r = g(o.item(k))
        if r is not None and r[0] != k:
            raise Unsupported('entries under other names')
        return r
    return Map(lambda k: k in m and entry(k) is not None, lambda k: entry(k)[1])


class Val:
    """the value of a name"""

    def __init__(self, k):
        self.k = k


class Located:
    def __init__(self, node):
        self.node = node

    def __bool__(self):
        raise Unsupported('what a definition mentions')


def kinds(c, names):
    """a definition of any kind: what it is, and what stands for it"""
    import pynare.parsing.ast as ast
    import pynare.parsing.base as base
    k = c.choose(6)
    if k == 0:
        v = 2.5
        return v, v, 'number'
    if k == 1:
        v = 7
        return v, v, 'number'
    if k == 2:
        t = Nm_text()
        return t, ('parsed', t), 'text'
    if k == 3:
        n = ast.Num(base.Token(base.NUMBER, 4.5, 1, 1))
        return n, n.value, 'numeral'
    if k == 4:
        n = object.__new__(ast.BinaryOp)
        return n, n, 'tree'
    return ['neither'], None, 'other'


def Nm_text():
    return fresh_name('text')


class Solving:
    """a definition per name, chosen when the name is first looked at"""

    def __init__(self, c):
        import pynare.parsing.ast as ast
        self.c, self.d, self.inn, self.parsed = c, {}, {}, {}
        self.ast = ast
        self.calib = Map(self.member, self.definition)
        self.scope = Map(self.inscope, self.outer)
        self.sc, self.so = {}, {}

    def member(self, k):
        if k not in self.inn:
            self.inn[k] = bool(self.c.choose(2))
        return self.inn[k]

    def inscope(self, k):
        if k not in self.sc:
            self.sc[k] = bool(self.c.choose(2))
        return self.sc[k]

    def outer(self, k):
        if k not in self.so:
            self.so[k] = float(100 + len(self.so))
        return self.so[k]

    def kind(self, k):
        if k not in self.d:
            self.d[k] = kinds(self.c, k)
        return self.d[k]

    def definition(self, k):
        return self.kind(k)[0]

    def parse(self, text, *a, **k):
        if a or k:
            raise Unsupported('how a text is read')
        if text not in self.parsed:
            self.parsed[text] = object.__new__(self.ast.BinaryOp)
        return self.parsed[text]

    def normal(self, k):
        """the number or tree that stands for the definition of k (outside the definitions: its value in the scope)"""
        if not self.member(k):
            return self.outer(k)
        v, n, kind = self.kind(k)
        return self.parse(v) if kind == 'text' else n

    def numeric(self, k):
        n = self.normal(k)
        return isinstance(n, (int, float))

    def known(self):
        return Map(lambda k: self.member(k) or self.inscope(k), self.normal)


NORMAL, LISTED, VALUE, OWN = ('texts are read, numbers and trees stand for themselves', 'each definition is listed with the names it mentions',
                              'a definition is evaluated at the values of the names it mentions',
                              'every parameter has its value, no other name has')


class Order(grid.Base):
    pass


def same_entry(a, b):
    return a is b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and type(a) is type(b) and a == b


def solve(c):
    w, hold = world(glob={'dict': MapType()})
    for m in w.mods.values():
        m.__dict__['_pv_dmap'] = mapped
    s = Solving(c)
    order = Order()
    vals = {}

    def val(k):
        return vals.setdefault(k, Val(k))

    class Loc:
        def __init__(self, node):
            self.node = node

        def locate(self):
            return Located(self.node)
    w.patch(f'{V}:ParamLocator', Loc)
    if 'parse_string' not in w.mods[V].__dict__:
        raise Unsupported('how texts are read')
    w.mods[V].parse_string = s.parse

    def listed(m, x):
        got = m[x]
        n = s.normal(x)
        if isinstance(n, (int, float)):
            return isinstance(got, (list, tuple, set, frozenset)) and not got
        return isinstance(got, Located) and got.node is n

    def precedence(rhs, *a, **k):
        if a or k or not isinstance(rhs, Map):
            raise Unsupported('what is ordered')
        x = fresh_name('x')
        if s.member(x) or s.inscope(x):
            if s.member(x):
                c.env['kind'] = s.kind(x)[2]
                if c.env['kind'] == 'other':
                    raise PathEnd()
            c.goal(LISTED, x in rhs and listed(rhs, x), backend='evaluation')
        else:
            c.goal(LISTED, x not in rhs, backend='evaluation')
        return order
    w.patch(f'{V}:order_precedence', precedence)
    cur = {}

    def evaluate(expr, scope, *a, **k):
        if a or k or 'x' not in cur:
            raise Unsupported('what is evaluated')
        x = cur['x']
        ok = same_entry(expr, s.normal(x))
        if not isinstance(expr, (int, float)):
            r = cur['r']
            ok = ok and isinstance(scope, Map) and r in scope and scope[r] is val(r)
        c.goal(VALUE, ok, backend='evaluation')
        return val(x)
    w.patch(f'{V}:evaluate_parameter', evaluate)

    def table(env, but=()):
        t = [n for n, x in env.items() if isinstance(x, Map) and x not in but and x is not s.calib and x is not s.scope]
        return t

    def loop(w_, st, what, env):
        if what == 'enter':
            it = Of(st.it, 'keys') if isinstance(st.it, Map) else st.it
            for x in st.names:
                if x in env:
                    st.vals[x] = Poison()
            written = [x for x in st.names if x in env and (isinstance(env[x], Map) or type(env[x]) is dict)]
            if len(written) != 1:
                raise Unsupported('what the loop writes')
            n = st.pv = written[0]
            old = env[n]
            body = not c.choose(2)
            x = fresh_name('x')
            if it is order:
                probe = fresh_name('x')
                # before the loop: the definitions
                if s.member(probe) and s.kind(probe)[2] == 'other':
                    raise PathEnd()
                if s.member(probe) or s.inscope(probe):
                    c.goal(NORMAL, probe in old and same_entry(old[probe], s.normal(probe)), backend='evaluation')
                has = lambda k: s.member(k) or s.inscope(k)
                if not body:
                    st.vals[n] = Map(has, lambda k: val(k))
                    return
                if not (s.member(x) or s.inscope(x)):
                    raise PathEnd()
                if s.member(x) and s.kind(x)[2] == 'other':
                    raise PathEnd()
                r = fresh_name('r')
                cur.update(x=x, r=r)
                st.vals[n] = Map(lambda k: True if k in (x, r) else has(k), lambda k: s.normal(k) if k == x else val(k) if k == r else Poison())
                st.body, st.item, st.kind = True, x, 'value'
                return
            if not isinstance(it, Of):
                raise Unsupported('a loop over something else')
            src = it.m
            first = src is s.calib or src is s.scope
            if first:
                # definitions are copied, those of the scope first
                if src is not s.calib or type(old) is dict and old:
                    raise Unsupported('what the loop goes through')
                p = fresh_name('x')
                base = old.copy() if isinstance(old, Map) else Map(lambda k: False, None)
                if s.inscope(p) and not s.member(p):
                    c.goal(NORMAL, p in base and same_entry(base[p], s.outer(p)), backend='evaluation')
                if not body:
                    st.vals[n] = Map(lambda k: s.member(k) or k in base, lambda k: s.normal(k) if s.member(k) else base[k])
                    return
                st.kind = 'normal'
            else:
                if old != {} if type(old) is dict else True:
                    raise Unsupported('a table that starts otherwise')
                frozen = src.copy()
                if not body:
                    st.vals[n] = Map(lambda k: k in frozen, lambda k: [] if isinstance(frozen[k], (int, float)) else Located(frozen[k]))
                    return
                st.kind = 'listed'
            if x not in src:
                raise PathEnd()
            if s.member(x) and not first and s.kind(x)[2] == 'other':
                raise PathEnd()
            st.vals[n] = Map(lambda k: True, lambda k: Poison())
            st.body, st.item, st.x = True, it.item(x), x
            c.env['x'] = x
        elif what == 'leave':
            m = env[st.pv]
            if not isinstance(m, Map):
                raise Unsupported('what the loop writes')
            if st.kind == 'value':
                x = cur['x']
                c.goal(VALUE, set(m.over) <= {x} and x in m.over and (m.over[x] is val(x) or s.numeric(x) and same_entry(m.over[x], s.normal(x))),
                       backend='evaluation')
            elif st.kind == 'normal':
                x = st.x
                c.goal(NORMAL, set(m.over) == {x} and s.kind(x)[2] != 'other' and same_entry(m.over[x], s.normal(x)), backend='evaluation')
            else:
                c.goal(LISTED, set(m.over) == {st.x} and listed(m, st.x), backend='evaluation')
    hold['h'] = loop
    try:
        out = w[f'{V}:solve_calibration'](s.calib, s.scope)
    except TypeError as ex:
        x = c.env.get('x')
        c.goal('only what is no number, text or tree is refused', x is not None and s.kind(x)[2] == 'other', backend='evaluation', detail=str(ex))
        return
    if not isinstance(out, Map):
        raise Unsupported('what is returned')
    x = fresh_name('x')
    if s.member(x):
        if s.kind(x)[2] == 'other':
            raise PathEnd()
        c.goal(OWN, x in out and (out[x] is val(x)), backend='evaluation')
    else:
        c.goal(OWN, x not in out, backend='evaluation')


def parameter(c):
    w, hold = world()
    import pynare.parsing.ast as ast
    got = []
    b = w.mods[V].base
    class Base:
        def __getattr__(self, a):
            if a == 'BaseEvaluator':
                return lambda e, s=None: got.append((e, s)) or 'the value'
            return getattr(b, a)
    w.mods[V].base = Base()
    scope = object()
    e = object.__new__([ast.BinaryOp, ast.UnaryOp, ast.Function, ast.Var, ast.Num][c.choose(5)])
    f = w[f'{V}:evaluate_parameter']
    c.goal('trees are evaluated in the scope given', f(e, scope) == 'the value' and got == [(e, scope)], backend='evaluation')
    for v in (1.5, 3, 0., 0):
        c.goal('numbers stand for themselves', f(v, scope) == v and len(got) == 1, backend='evaluation')


def mentions(kind, c):
    w, hold = world(mods=['pynare.parsing.ast', 'pynare.parsing.base', V], glob={'set': set})
    t = Trees(w, lambda *a: None)
    t.leaf_value = lambda s: fresh_value('v')
    names = []

    def use():
        names.append(fresh_name('n'))
        return ('var', names[-1], None)
    node, _, _ = t.node(c, [use, lambda: ('num', fresh_value('number'))], (kind,))
    p = w[f'{V}:ParamLocator'](node)
    if type(p.__dict__.get('params')) is not set or p.params:
        raise Unsupported('what is kept of the names')
    before = tree.snapshot(node)
    other = fresh_name('before')
    p.params = {other}
    try:
        got = p.locate()
    except (KeyError, AttributeError, TypeError, ValueError) as ex:
        c.goal('the names of an expression are found, and no others', False, backend='evaluation', detail=f'{type(ex).__name__} {ex}')
        return
    c.goal('the names of an expression are found, and no others', got == {other, *names}, backend='evaluation')
    c.goal('expressions are left as they were', tree.kept(before, tree.snapshot(node)), backend='evaluation')


KEEP = ['a calibration holds the values of its definitions', 'definitions are its own', 'one definition changes, the others stay',
        'definitions that cannot be solved leave everything as it was']


def calibration(c):
    w, hold = world(glob={'dict': MapType()})
    for m in w.mods.values():
        m.__dict__['_pv_dmap'] = mapped
    s = Solving(c)
    calls = []

    class Fails(Exception):
        pass
    fail = []

    def solve_(defs, scope=None, *a, **k):
        if a or k:
            raise Unsupported('how it is solved')
        if fail:
            raise Fails()
        calls.append((defs.copy(), scope))
        return ('solved', len(calls))
    w.patch(f'{V}:solve_calibration', solve_)

    def loop(w_, st, what, env):
        # a loop over the definitions that does nothing to them
        if what == 'enter':
            for x in st.names:
                if x in env:
                    if isinstance(env[x], Map):
                        raise Unsupported('what the loop writes')
                    st.vals[x] = Poison() if c.choose(2) else env[x]
        raise_ = None
    hold['h'] = loop
    MC = w[f'{V}:ModelCalibration']
    x, y = fresh_name('x'), fresh_name('y')

    def entries(m):
        return [(k in m, m[k] if k in m else None) for k in (x, y)]

    def agree(a, b):
        return all(p == q and (u is v or same_entry(u, v)) for (p, u), (q, v) in zip(entries(a), entries(b)))
    first = MC(s.calib, s.scope) if c.choose(2) else None
    given = first if first is not None else s.calib
    n0 = len(calls)
    m = MC(given, s.scope)
    c.goal(KEEP[0], len(calls) == n0 + 1 and agree(calls[-1][0], s.calib) and calls[-1][1] is s.scope and m.calib == ('solved', len(calls)),
           backend='evaluation')
    c.goal(KEEP[1], isinstance(m.defs, Map) and m.defs is not s.calib and (first is None or m.defs is not first.defs) and agree(m.defs, s.calib),
           backend='evaluation')
    # one definition
    new = 9.25
    m[x] = new
    want = Map.pv_merge((s.calib, {x: new}))
    c.goal(KEEP[2], len(calls) == n0 + 2 and agree(calls[-1][0], want) and calls[-1][1] is s.scope and m.calib == ('solved', len(calls)) and
           agree(m.defs, want), backend='evaluation')
    if first is not None:
        c.goal(KEEP[1], agree(first.defs, s.calib) and first.calib == ('solved', 1), backend='evaluation')
    c.goal(KEEP[1], not s.calib.over, backend='evaluation')
    defs, held = m.defs, m.calib
    fail.append(1)
    try:
        m[y] = 1.25
        c.goal(KEEP[3], False, backend='evaluation')
    except Fails:
        c.goal(KEEP[3], agree(m.defs, want) and m.calib == held, backend='evaluation')
    fail.clear()
    other = Map(lambda k: False, None)
    m.recalibrate(other)
    c.goal('a new scope means new values', agree(calls[-1][0], want) and calls[-1][1] is other and m.calib == ('solved', len(calls)) and
           m.scope is other, backend='evaluation')
    m.calib = {x: 3.5, y: 4.5}
    c.goal('values are looked up by name', m[x] == 3.5 and m[y] == 4.5 and list(m) == [x, y] and len(m) == 2 and dict(m.items()) == {x: 3.5, y: 4.5},
           backend='evaluation')
    try:
        m[fresh_name('z')]
        c.goal('values are looked up by name', False, backend='evaluation')
    except KeyError:
        pass


def units():
    P = functools.partial
    return [
        eng.Either(f'{V}.order_precedence', [P(precedence, 0), P(precedence, 1)],
                   ['a definition comes after the names it mentions', 'only circular definitions are refused']),
        Unit(f'{V}.solve_calibration', solve, [NORMAL, LISTED, VALUE, OWN, 'only what is no number, text or tree is refused']),
        Unit(f'{V}.evaluate_parameter', parameter, ['trees are evaluated in the scope given', 'numbers stand for themselves']),
        *[Unit(f'{V}.ParamLocator on {k}', P(mentions, k), ['the names of an expression are found, and no others'])
          for k in ('BinaryOp', 'UnaryOp', 'Function', 'leaf')],
        Unit(f'{V}.ModelCalibration', calibration, KEEP + ['a new scope means new values', 'values are looked up by name']),
        *trees.substitutions(),
        *filegrammar.units(('variable_assignment', 'variable_preamble')),
    ]
