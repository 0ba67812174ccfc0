"""copies, regimes and altered models: what is passed on, what is shared, what is rebuilt"""
import functools
from pv import eng, load, npshim, seqs
from pv.contracts import vararr
from pv.contracts.common import Poison
from pv.contracts.files import Part, Each
from pv.eng import Unit, Unsupported, PathEnd, SI, SB, zi, fair
from pv.seqs import Seq
from pv.tree import Nm, PDict, fresh_name, fresh_value
z3 = eng.z3
Opaque = Part

LEVEL = 'proof'
GEN, VARS, MODEL, REG, EXPR = ('pynare.core.generic', 'pynare.core.variables', 'pynare.core.model', 'pynare.regimes',
                               'pynare.core.expressions')
KINDS = ('sigma', 'indexes', 'steady_repr', 'dynamic_repr', 'statespace')
ASSUMES = [
    'copy.deepcopy returns an equal object that shares nothing mutable with its argument',
    'a VarArray is the array of the variables it is made from (numpy.asarray and view)',
    *vararr.ASSUMES,
    'MutableSequence.extend appends every item in order (standard library)',
    'features (representations, indexes, state space) are functions of what they are built from: the equations, the variables, the names '
    'in scope, and one another (their contracts are those of C03-C11)',
    'definitions change through the methods of a model, or by replacing equations and setting the flag as the regimes do',
]


class Plain:
    """an object with the attributes it was given"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a {type(self).__name__}')


class Rec(Plain):
    """a variable: attributes are None or arbitrary, chosen when they are looked at"""

    def __init__(self, name, may):
        self.__dict__.update(name=name, _may=dict(may))

    def __getattr__(self, a):
        may = self.__dict__.get('_may', {})
        if a in may:
            v = may[a]() if eng.CUR.choose(2) else None
            self.__dict__[a] = v
            return v
        return Plain.__getattr__(self, a)


class VMap:
    """{key(x): value(x) for x in a list if cond(x)}, by its entry for an arbitrary item"""
    __pv__ = True

    def __init__(self, seq, f):
        self.seq, self.f = seq, f

    def entry(self, x):
        return self.f(x)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a dictionary over a list')


class Vars(Seq):
    """an array of variables"""

    def __init__(self, n, item, what='an array of variables', **k):
        Seq.__init__(self, n, item, what)
        self.__dict__.update(made=None, ll=None, given=None)
        self.__dict__.update(k)

    @property
    def names(self):
        return self.given if self.given is not None else self.pv_map(lambda x: x.name)

    def pv_dmap(self, f):
        return VMap(self, f)

    def __bool__(self):
        raise Unsupported('truth of an array')

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)


class Box:
    """something that is only passed on"""

    def __init__(self, tag, store=None):
        self.tag, self.store = tag, store or object()

    def __deepcopy__(self, memo):
        return Box(self.tag)

    def __copy__(self):
        return Box(self.tag, self.store)

    @property
    def defs(self):
        if self.tag not in ('params', 'local_params'):
            raise Unsupported('defs')
        return self

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {self.tag}')

    def _no(self, *a, **k):
        raise Unsupported(f'a look into {self.tag}')
    __iter__ = __getitem__ = __setitem__ = __len__ = __bool__ = __eq__ = __contains__ = _no
    __hash__ = None


def world(mods, loops=None):
    w = load.World(mods, shim=False, loops=loops or {}, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    w.mods[mods[0]].__dict__.setdefault('is_iterable_not_str', None)
    for m in mods:
        if 'is_iterable_not_str' in w.mods[m].__dict__:
            w.mods[m].is_iterable_not_str = iterable
    return w


def iterable(x):
    return isinstance(x, Seq) or (not isinstance(x, str) and hasattr(x, '__iter__'))


# ---------------------------------------------------------------- copy
class Grow:
    """a list or dictionary that is filled by loops"""

    def __init__(self, tag):
        self.tag, self.log, self.srcs, self.deep = tag, [], [], False

    def __deepcopy__(self, memo):
        g = type(self)(self.tag)
        g.srcs, g.deep = self.srcs, True
        return g


class GL(Grow):
    __pv__ = True

    def append(self, x):
        self.log.append(x)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a list that a loop fills')


class GD(Grow, dict):
    def __setitem__(self, k, v):
        self.log.append((k, v))

    def update(self, *a, **k):
        for d in a + (k,):
            if type(d) is not dict:
                raise Unsupported('update')
            self.log += list(d.items())

    def _no(self, *a, **k):
        raise Unsupported('a look into a dictionary that a loop fills')
    __getitem__ = get = setdefault = pop = keys = values = items = __iter__ = __len__ = __contains__ = copy = __bool__ = __eq__ = _no
    __hash__ = None


class Fill:
    def __init__(self, c, sources, check):
        self.c, self.sources, self.check = c, sources, check
        self.k, self.grown, self.ids = 0, {}, {}
        self.mode = None

    def __call__(self, w, st, what, env):
        if what == 'enter':
            it = st.it.it if isinstance(st.it, npshim_enum()) else st.it
            src = next((k for k, s in self.sources.items() if s is it), None)
            if src is None:
                raise Unsupported('a loop over something else')
            self.k += 1
            here = []
            for n in st.names:
                if n not in env or n == 'self':
                    continue
                v = env[n]
                if isinstance(v, Grow):
                    here.append(v)
                elif type(v) in (list, dict) and not v:
                    g = self.ids.get(id(v))
                    if g is None:
                        g = self.ids[id(v)] = (GL if type(v) is list else GD)((self.k, n))
                        self.grown[g.tag] = g
                        self.hold = getattr(self, 'hold', []) + [v]
                    st.vals[n] = g
                    here.append(g)
                elif v is not None and not isinstance(v, (str, int)):
                    st.vals[n] = Poison()
            self.src = src
            if not self.c.choose(2):
                for g in here:
                    g.srcs.append(src)
                return
            x = it.item(eng.fresh_int('k', 0))
            self.x, self.mode = x, 'body'
            st.body, st.item = True, ((0 + st.it.start, x) if it is not st.it else x)
        elif what == 'leave':
            self.check(self.src, self.x, self.grown)


def npshim_enum():
    from pv.tree import SymEnum
    return SymEnum


LISTS = ('endog', 'stoch', 'determ')
BOUNDS = ('initial', 'terminal', 'historical')


def sources(c):
    num = lambda h: (lambda: fresh_value(h))

    def pairs():
        return {fresh_name('q'): {('corr', 'cov')[eng.CUR.choose(2)]: fresh_value('m')}}
    e = Rec(fresh_name('y'), {'lead_lag': lambda: Opaque('dates'), **{b: num(b) for b in BOUNDS}})
    s = Rec(fresh_name('e'), {'other': lambda: fresh_name('o'), 'variance': num('v'), 'corr': num('r'), 'cov': num('c')})
    s.__dict__['_may'].pop('pairs', None)
    d = Rec(fresh_name('d'), {'periods': lambda: Opaque('periods'), 'values': lambda: Opaque('values')})
    s.__dict__['pairs'] = PAIRS = {}
    s._pairs = pairs
    mk = lambda x, h: Vars(eng.fresh_int(h, 0), lambda i: x)
    return {'endog': mk(e, 'endog'), 'stoch': mk(s, 'stoch'), 'determ': mk(d, 'determ')}, (e, s, d)


def same(x, y):
    if x is y:
        return True
    if isinstance(x, dict) and isinstance(y, dict):
        return set(dict.keys(x)) == set(dict.keys(y)) and all(same(x[k], y[k]) for k in x)
    return isinstance(x, (int, float, bool, type(None))) and type(x) is type(y) and x == y


def moments(r):
    """what a record of moments makes of a shock (the contract of _create_stoch_vars)"""
    if not set(r) <= {'variance', 'other', 'corr', 'cov', 'pairs'}:
        return None
    return (r.get('variance', 1.0), r.get('other', ''), r.get('corr'), r.get('cov'), r.get('pairs') or {})


class Copying:
    def __init__(self):
        self.roles, self.deep = {}, {}

    def __call__(self, c):
        hold = {}
        w = world([VARS, GEN, MODEL], loops={'*': lambda *a: hold['h'](*a)})
        made = []

        class Ghost(w[f'{MODEL}:Model']):
            def __init__(self, *a, **k):
                if a:
                    raise Unsupported('arguments by position')
                made.append((self, k))
        for p in ('indexes', 'steady_repr', 'dynamic_repr', 'statespace', 'sigma', 'ss', '_indexes', '_steady_repr', '_dynamic_repr',
                  '_statespace', '_sigma', 'model_scope'):
            setattr(Ghost, p, property(lambda self, p=p: unsup(p)))
        src, (e, s, d) = sources(c)
        m = object.__new__(Ghost)
        boxes = {k: Box(k) for k in ('params', 'local_params', 'exprs')}
        m.__dict__.update(src, **boxes, language=Opaque('language'), name=Opaque('name'), _is_altered=bool(c.choose(2)), _shocks=Box('_shocks'))
        w.mods[GEN].ModelExprs = lambda x: Box('exprs', x.store) if isinstance(x, Box) else unsup('ModelExprs')
        hold['h'] = Fill(c, src, functools.partial(self.check, c))
        if c.choose(2):
            s.__dict__['pairs'] = s._pairs()
        before = dict(m.__dict__)
        out = m.copy()
        if len(made) != 1 or made[0][0] is not out:
            raise Unsupported('models made by a copy')
        c.goal('the model copied is left as it was', m.__dict__.keys() == before.keys() and all(m.__dict__[k] is v for k, v in before.items()),
               backend='evaluation')
        if set(out.__dict__) - {'_is_altered'}:
            raise Unsupported('attributes of the copy that its constructor does not set')
        k = made[0][1]
        for a in ('language', 'name'):
            c.goal('a copy has the language and the name of the original', k.get(a) is m.__dict__[a], backend='evaluation', detail=a)
        for a, b in boxes.items():
            g = k.get(a)
            ok = isinstance(g, Box) and g.tag == a
            if not isinstance(g, Box) and g is not None:
                raise Unsupported(f'{a} handed over as {type(g).__name__}')
            c.goal(f'a copy has the equations, parameters and local names of the original', ok, backend='evaluation', detail=a)
            if a == 'exprs' and ok:
                c.goal('the equations of a copy are its own', g.store is not b.store, backend='evaluation')
        want = {**{a: ('list', (a,)) for a in LISTS}, **{a: ('dict', ('endog',)) for a in BOUNDS}, 'shocks': ('dict', ('stoch', 'determ'))}
        for a, (t, srcs) in want.items():
            v = k.get(a)
            if isinstance(v, Grow):
                self.roles[v.tag] = a
                self.deep[a] = v.deep
                c.goal('all variables are gone through once', sorted(x for x in v.srcs if x in srcs) == sorted(srcs), backend='evaluation', detail=f'{a} {v.srcs}',
                       strict=False)
            elif isinstance(v, Seq) and t == 'list':
                x = v.item(eng.fresh_int('i', 0))
                c.goal('a copy has the variables of the original, in order', x is src[a].item(0).name and bool(c.entails(zi(v.n) == zi(src[a].n))),
                       backend='evaluation', detail=a)
            elif isinstance(v, VMap) and v.seq is src['endog'] and a in BOUNDS:
                r = v.entry(e)
                self.bound(c, e, a, [] if r is None else [r])
            elif v is None or type(v) in (list, dict):
                c.goal('a copy has the variables of the original, in order' if t == 'list' else 'a copy has the boundary values of the original'
                       if a in BOUNDS else 'a copy has the shocks of the original', False, backend='evaluation', detail=a)
            else:
                raise Unsupported(f'{a} handed over as {type(v).__name__}')

    def bound(self, c, x, role, log):
        v = getattr(x, role)
        ok = log == [] and v is None or len(log) == 1 and log[0][0] is x.name and log[0][1] is v
        c.goal('a copy has the boundary values of the original', ok, backend='evaluation', detail=f'{role}: {log} for {v}')

    def check(self, c, src, x, grown):
        for tag, role in self.roles.items():
            g = grown.get(tag)
            if g is None:
                continue
            if role in LISTS:
                ok = len(g.log) == 1 and g.log[0] is x.name if src == role else not g.log
                c.goal('a copy has the variables of the original, in order', ok, backend='evaluation', detail=f'{role}: {g.log}')
            elif role in BOUNDS:
                if src == 'endog':
                    self.bound(c, x, role, g.log)
                else:
                    c.goal('a copy has the boundary values of the original', not g.log, backend='evaluation')
            elif role == 'shocks':
                if src == 'endog':
                    c.goal('a copy has the shocks of the original', not g.log, backend='evaluation')
                    continue
                if len(g.log) != 1 or g.log[0][0] is not x.name:
                    c.goal('a copy has the shocks of the original', False, backend='evaluation', detail=str(g.log))
                    continue
                r = g.log[0][1]
                c.goal('each variable has a record of its own', not isinstance(r, Grow), backend='evaluation')
                if not isinstance(r, dict) or isinstance(r, Grow):
                    raise Unsupported('a record')
                if src == 'stoch':
                    now = (x.variance, '' if x.other is None else x.other, x.corr, x.cov, x.pairs)
                    got = moments(r)
                    c.goal('a copy has the shocks of the original', got is not None and all(same(p, q) for p, q in zip(got, now)),
                           backend='evaluation', detail=f'{got} for {now}')
                    shared = any(r.get('pairs') is x.pairs for _ in (0,)) and x.pairs or \
                        any(p is q for p in (r.get('pairs') or {}).values() for q in x.pairs.values())
                    c.goal('a copy shares no record with the original', bool(self.deep.get('shocks')) or not shared, backend='evaluation')
                else:
                    ok = {k: v for k, v in r.items() if v is not None}
                    now = {k: v for k, v in (('periods', x.periods), ('values', x.values)) if v is not None}
                    c.goal('a copy has the shocks of the original', same(ok, now), backend='evaluation', detail=f'{ok} for {now}')
                    c.goal('a copy shares no record with the original', bool(self.deep.get('shocks')) or not now, backend='evaluation', strict=False)
        if not self.roles:
            raise Unsupported('a list that is filled first')


def unsup(what):
    raise Unsupported(what)


# ---------------------------------------------------------------- features and what they are built from
class Calib:
    """a calibration: its definitions, and the scope they were last solved in"""

    def __init__(self, defs=None, scope=None):
        self.given, self.version, self.scoped = defs, 0, None
        self.scope = scope

    def recalibrate(self, scope):
        self.scope = scope
        self.scoped = (scope, scope.version) if isinstance(scope, Calib) else None

    def __setitem__(self, k, v):
        self.version += 1
        self.__dict__.setdefault('log', []).append((k, v))

    def update(self, d):
        if type(d) is not dict:
            raise Unsupported('update')
        for k, v in d.items():
            self[k] = v

    def log_is(self, want):
        got = self.__dict__.get('log', [])
        return len(got) == len(want) and all(k is a and v is b for (k, v), (a, b) in zip(got, want))

    @staticmethod
    def pv_merge(parts):
        return Scope(parts)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a calibration')


class Scope:
    def __init__(self, parts):
        self.parts = list(parts)
        self.at = [p.version if isinstance(p, Calib) else None for p in parts]

    def of(self, m):
        p, l = m.params, m.local_params
        return (len(self.parts) == 2 and self.parts[0] is p and self.parts[1] is l and self.at == [p.version, l.version]
                and l.scoped == (p, p.version))

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the names in scope')


class Exprs:
    """the equations of a model"""

    def __init__(self, given=None):
        self.given, self.version, self.log = given, 0, []

    def append(self, x):
        self.version += 1
        self.log.append(('one', x))

    def extend(self, xs):
        self.version += 1
        self.log.append(('all', xs))

    def insert(self, i, x):
        raise Unsupported('insert')

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the equations')


class Fails(Exception):
    pass


class Feature(Plain):
    def __repr__(self):
        return f'<{self.kind}>'


class Models:
    """the loaded classes with the builders of features replaced by their contracts"""

    def __init__(self, c, loops=None):
        self.c = c
        self.w = w = world([VARS, GEN, MODEL], loops)
        self.fails, self.built, self.failed = None, [], False
        g = w.mods[GEN]
        g.SteadyRepr = lambda model: self.build('steady_repr', model)
        g.DynamicRepr = lambda model: self.build('dynamic_repr', model)
        g.StateSpace = lambda model: self.build('statespace', model)
        g.VariableIndexManager = lambda endog, stoch: self.indexes(endog, stoch)
        g.SteadyState = lambda model: Feature(kind='ss', model=model, _values=None, _results=None)
        w.mods[MODEL].SteadyState = g.SteadyState
        for mod in (g, w.mods[MODEL]):
            mod.ModelCalibration = Calib
        g.ModelExprs = Exprs
        g.set_lead_lags = self.lags
        g._create_endog_vars = lambda names, initial={}, lead_lag={}, terminal={}, historical={}: \
            self.make('endog', names, initial=initial, lead_lag=lead_lag, terminal=terminal, historical=historical)
        g._create_stoch_vars = lambda names, shocks={}: self.make('stoch', names, shocks=shocks)
        g._create_determ_vars = lambda names, shocks={}: self.make('determ', names, shocks=shocks)
        g.VarArray = self.array
        g.np = Np()
        me = self
        w[f'{GEN}:DynamicModel']._define_sigma = lambda model: me.build('sigma', model)

    def array(self, xs=()):
        if isinstance(xs, Vars):
            return Vars(xs.n, xs.item, given=xs.given, made=xs.made)
        if isinstance(xs, Seq):
            return Vars(xs.n, xs.item)
        xs = list(xs)
        return Vars(len(xs), lambda i: xs[i] if isinstance(i, int) else unsup('an item'))

    def make(self, kind, names, **k):
        one = not isinstance(names, Seq)
        if one and not isinstance(names, str):
            if not isinstance(names, (list, tuple)):
                raise Unsupported('names')
            names = Seq(len(names), lambda i, t=list(names): t[int(i)])
            one = False
        given = Seq(1, lambda i, x=names: x) if one else names

        def item(i):
            x = given.item(i)
            return Plain(kind=kind, name=x, by=k, **({'lead_lag': ('dates', x)} if kind == 'endog' else {}))
        return Vars(given.n, item, given=given, made=dict(k, kind=kind, names=given))

    def lags(self, endog, exprs):
        endog.ll = (exprs, exprs.version)
        endog.ever = True
        return endog

    def fail(self, kind):
        self.built.append(kind)
        if self.fails == kind:
            self.failed = True
            raise Fails(kind)

    def indexes(self, endog, stoch):
        self.fail('indexes')
        return Feature(kind='indexes', endog=endog, ll=endog.ll, stoch=stoch)

    def build(self, kind, m):
        self.fail(kind)
        f = Feature(kind=kind)
        if kind == 'sigma':
            f.stoch = m.stoch
            return f
        f.endog, f.exprs, f.version, f.scope = m.endog, m.exprs, m.exprs.version, m.model_scope
        f.names = m.endog.names
        if kind in ('dynamic_repr', 'statespace'):
            f.stoch, f.indexes = m.stoch, m.indexes
            f.jacobian, f.hessian = Opaque('jacobian'), Opaque('hessian')
        if kind == 'statespace':
            f.steady, f.dynamic = m.steady_repr, m.dynamic_repr
        return f

    def current(self, m, f, kind, names=False):
        """is the feature built from the definitions of the model as they are?"""
        if not isinstance(f, Feature) or f.kind != kind:
            return False
        if kind == 'sigma':
            return f.stoch is m.stoch
        d = m.__dict__
        if kind == 'indexes':
            return f.endog is m.endog and f.stoch is m.stoch and (names or f.ll == (m.exprs, m.exprs.version))
        ok = f.exprs is m.exprs and f.version == m.exprs.version and f.scope.of(m) and \
            (f.endog is m.endog or alike_names(f.names, m.endog.names))
        if kind in ('dynamic_repr', 'statespace'):
            ok = ok and f.stoch is m.stoch and f.indexes is d.get('_indexes') and self.current(m, f.indexes, 'indexes', names)
        if kind == 'statespace':
            ok = ok and f.steady is d.get('_steady_repr') and f.dynamic is d.get('_dynamic_repr')
        return bool(ok)


def alike_names(a, b):
    if a is b:
        return True
    if not (isinstance(a, Seq) and isinstance(b, Seq)) or not eng.CUR.entails(zi(a.n) == zi(b.n)):
        return False
    i = eng.fresh_int('i', 0)
    return a.item(i) is b.item(i)


class Np:
    def count_nonzero(self, x):
        return x.n if isinstance(x, Seq) else len(x)

    def array(self, x, dtype=None, **k):
        if k or dtype not in (None, float) or not isinstance(x, Seq):
            raise Unsupported('array')
        return x

    def asarray(self, x, dtype=None):
        return self.array(x, dtype)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'numpy.{a}')


def labels(n, hint):
    """n arbitrary names"""
    cache = {}

    def item(i):
        k = str(zi(i))
        if k not in cache:
            cache[k] = fresh_name(hint)
        return cache[k]
    return Seq(n, item, f'names of {hint}')


def construct(c):
    """a new model is made of what its constructor is handed"""
    f = Models(c)
    given = {k: labels(eng.fresh_int(k, 1 if k == 'endog' else 0), k) for k in LISTS}
    opq = {k: PDict() for k in BOUNDS + ('shocks',)}
    params, local, exprs = PDict(), PDict(), Box('exprs')
    lang = ('dynare', 'other')[c.choose(2)]
    name = fresh_name('model')
    try:
        m = f.w[f'{MODEL}:Model'](params=params, local_params=local, exprs=exprs, language=lang, name=name, **given, **opq)
    except ValueError as ex:
        fair(ex)
        c.goal('a language that is not known is rejected', lang == 'other', backend='evaluation', detail=str(ex))
        return
    c.goal('a language that is not known is rejected', lang == 'dynare', backend='evaluation')
    d = m.__dict__
    c.goal('a model keeps its name and language', d.get('name') is name and d.get('language') == lang, backend='evaluation')
    for k in LISTS:
        v = d.get(k)
        if not isinstance(v, Vars):
            raise Unsupported(k)
        ok = bool(c.entails(zi(v.n) == zi(given[k].n)))
        c.goal('a model has the variables it was given, in order', ok, backend='z3', detail=k)
        if v.made is None:
            c.goal('a model has the variables it was given, in order', bool(c.entails(zi(given[k].n) == 0)), backend='z3', detail=k)
            continue
        c.goal('a model has the variables it was given, in order', v.made['kind'] == k and alike_names(v.names, given[k]), backend='evaluation', detail=k)
        for b in (BOUNDS if k == 'endog' else ('shocks',)):
            c.goal('the variables have the values recorded for them', v.made[b] is opq[b], backend='evaluation', detail=f'{k} {b}')
    e = d['endog']
    if not (e.ll == (m.exprs, m.exprs.version)):
        ll = e.made['lead_lag']
        if not isinstance(ll, VMap):
            raise Unsupported('dates')
        x = ll.seq.item(eng.fresh_int('i', 0))
        r = ll.entry(x)
        ok = ll.seq.ll == (m.exprs, m.exprs.version) and alike_names(ll.seq.names, e.names) and r is not None and r[0] is x.name and r[1] == x.lead_lag
        c.goal('the variables have the dates of the equations', ok, backend='evaluation')
    else:
        c.goal('the variables have the dates of the equations', True, backend='evaluation')
    p, l = d.get('params'), d.get('local_params')
    c.goal('a model has the parameters it was given', isinstance(p, Calib) and p.given is params, backend='evaluation')
    c.goal('a model has the local names it was given', isinstance(l, Calib) and l.given is local, backend='evaluation')
    c.goal('a model has the equations it was given', isinstance(m.exprs, Exprs) and m.exprs.given is exprs, backend='evaluation')
    c.goal('a new model is not altered', m.is_altered is False, backend='evaluation', strict=False)
    k = KINDS[c.choose(len(KINDS))]
    c.goal('what is reported of a new model is built from its own definitions', f.current(m, getattr(m, k), k, names=True), backend='evaluation', detail=k)


def existing(f, c, altered=None):
    """a model in an arbitrary state: flagged, or with features that are current"""
    m = object.__new__(f.w[f'{MODEL}:Model'])
    m.__dict__['_is_altered'] = False
    e = f.make('endog', labels(eng.fresh_int('endog', 1), 'y'))
    s = f.make('stoch', labels(eng.fresh_int('stoch', 0), 'e'))
    dt = f.make('determ', labels(eng.fresh_int('determ', 0), 'd'))
    p, l = Calib(), Calib()
    x = Exprs()
    m.__dict__.update(endog=e, stoch=s, determ=dt, params=p, local_params=l, exprs=x, name=fresh_name('m'), language='dynare', _shocks=PDict())
    f.lags(e, x)
    l.recalibrate(p)
    m._indexes = f.indexes(e, s)
    m._steady_repr = f.build('steady_repr', m)
    m._dynamic_repr = f.build('dynamic_repr', m)
    m._statespace = f.build('statespace', m)
    if c.choose(2):
        m._sigma = f.build('sigma', m)
    if altered is None:
        altered = bool(c.choose(2))
    if altered:
        alter(m, f)
        m.__dict__['_is_altered'] = True
    elif c.choose(2):
        m.__dict__['_solution'] = Opaque('solution')
    f.built.clear()
    return m


def alter(m, f):
    """the definitions are others than those the features were built from"""
    m.exprs.version += 1
    m.params.version += 1
    k = f.make('stoch', labels(eng.fresh_int('stoch', 0), 'e'))
    m.__dict__['stoch'] = k
    m.__dict__['endog'] = f.make('endog', labels(eng.fresh_int('endog', 1), 'y'))


QUERIES = KINDS + ('jacobian', 'hessian')


def query(c):
    """whatever is asked of a model is what its definitions say at that time"""
    f = Models(c)
    m = existing(f, c)
    q = QUERIES[c.choose(len(QUERIES))]
    was = m.is_altered
    n_failing = ((None,) + KINDS if was else (None, 'sigma'))
    f.fails = n_failing[c.choose(len(n_failing))]
    try:
        v = getattr(m, q)
    except Fails:
        for k in KINDS:
            now = m.__dict__.get('_' + k)
            ok = m.is_altered or now is None or f.current(m, now, k)
            c.goal('a failed rebuild does not let old features stand for new definitions', bool(ok), backend='evaluation', detail=f'{f.fails}: {k}')
        return
    except RecursionError:
        c.goal('whatever is asked of a model is what its definitions say', False, backend='evaluation', detail='endless recursion')
        return
    c.goal('a rebuild that fails is not passed over', not f.failed, backend='evaluation', detail=f'{f.fails}: {q}')
    if q in ('jacobian', 'hessian'):
        fe = m.dynamic_repr
        ok = f.current(m, fe, 'dynamic_repr') and v is getattr(fe, q)
    else:
        ok = f.current(m, v, q)
    c.goal('whatever is asked of a model is what its definitions say', ok, backend='evaluation', detail=f'{q}, altered before: {was}')
    if not m.is_altered:
        for k in KINDS:
            now = m.__dict__.get('_' + k)
            c.goal('a model that is not flagged has no old features', now is None or f.current(m, now, k), backend='evaluation', detail=k)


def update(c):
    f = Models(c)
    m = existing(f, c)
    f.fails = ((None,) + KINDS)[c.choose(1 + len(KINDS))]
    try:
        m.update()
    except Fails:
        for k in KINDS:
            now = m.__dict__.get('_' + k)
            ok = m.is_altered or now is None or f.current(m, now, k)
            c.goal('a failed rebuild does not let old features stand for new definitions', bool(ok), backend='evaluation', detail=f'{f.fails}: {k}')
        return
    except RecursionError:
        c.goal('an update leaves no old feature', False, backend='evaluation', detail='endless recursion')
        return
    c.goal('a rebuild that fails is not passed over', not f.failed, backend='evaluation', detail=f'{f.fails}')
    for k in KINDS:
        now = m.__dict__.get('_' + k)
        c.goal('an update leaves no old feature', now is None or m.is_altered or f.current(m, now, k), backend='evaluation', detail=k)
        c.goal('an update rebuilds every feature', now is not None, backend='evaluation', detail=k, strict=False)
    c.goal('an updated model is not flagged', m.is_altered is False, backend='evaluation', strict=False)


def steady(c):
    """the steady state that is reported is that of the present definitions"""
    f = Models(c)
    m = existing(f, c, altered=False)
    s = m.ss
    if not isinstance(s, Feature) or s.kind != 'ss':
        raise Unsupported('ss')
    s.__dict__['_values'] = Opaque('values')
    alter(m, f)
    m.is_altered = True
    if c.choose(2):
        m.steady_repr
    s = m.ss
    c.goal('the steady state that is reported is that of the present definitions', s.kind == 'ss' and s.model is m and s._values is None, backend='evaluation')


def bounds(c):
    """initial, terminal and historical values are those of the variables, in order"""
    f = Models(c)
    m = existing(f, c)
    b = BOUNDS[c.choose(3)]
    x = Rec(fresh_name('y'), {k: (lambda k=k: fresh_value(k)) for k in BOUNDS})
    m.__dict__['endog'] = Vars(eng.fresh_int('endog', 1), lambda i: x, ll=(m.exprs, m.exprs.version))
    v = getattr(m, b)
    if not isinstance(v, Seq):
        raise Unsupported('array')
    c.goal('boundary values are those of the variables, in order', v.item(0) is getattr(x, b) and bool(c.entails(zi(v.n) == zi(m.endog.n))), backend='evaluation')


# ---------------------------------------------------------------- alterations
def consistent(c, f, m, what):
    c.goal('an altered model is flagged', m.is_altered is True, backend='evaluation', detail=what)
    c.goal('a solution of old definitions is not kept', '_solution' not in m.__dict__, backend='evaluation', detail=what)


def added(c, f, old, new, kind, names, kept, by):
    """old variables, then new ones made from the names"""
    if not isinstance(new, Vars):
        raise Unsupported('variables')
    k = names.n if isinstance(names, Seq) else 1
    c.prove('added variables come after those that were there', zi(new.n) == zi(old.n) + zi(k))
    i = eng.fresh_int('i', 0)
    c.assume(zi(i) < zi(new.n))
    x = new.item(i)
    if c.decide(zi(i) < zi(old.n)):
        c.goal('added variables come after those that were there', x.name is old.names.item(i), backend='evaluation')
        return
    j = i - old.n
    want = names.item(j) if isinstance(names, Seq) else names
    c.goal('added variables come after those that were there', x.name is want and x.kind == kind, backend='evaluation')
    c.goal('added variables have the attributes they were added with', by(x.by, want), backend='evaluation', detail=str(x.by))


def add_vars(kind, c):
    f = Models(c)
    m = existing(f, c)
    keys = {'endog': BOUNDS, 'stoch': ('variance', 'other', 'corr'), 'determ': ('periods', 'values')}[kind]
    single = c.choose(2)
    names = fresh_name('new') if single else labels(eng.fresh_int('new', 1), 'new')
    kw = {k: fresh_value(k) for k in keys if c.choose(2)}
    before = dict(m.__dict__)
    old = getattr(m, kind)
    # the contract of _shared_shocks
    f.w.mods[GEN]._shared_shocks = lambda ns, attrs: Shared(ns, attrs)
    getattr(m, f'add_{kind}')(names, **kw)
    new = m.__dict__[kind]

    def by(got, name):
        if kind == 'endog':
            return all(got[k] is kw.get(k, got[k]) for k in BOUNDS) and all(got[k] == {} for k in BOUNDS if k not in kw)
        s = got['shocks']
        if not isinstance(s, Shared):
            raise Unsupported('shocks')
        return s.names is names and s.attrs == kw
    added(c, f, old, new, kind, names, None, by)
    consistent(c, f, m, f'add_{kind}')
    rest = [k for k in before if k not in (kind, '_is_altered', '_solution') and m.__dict__.get(k) is not before[k]]
    c.goal('the other definitions stay as they are', not rest, backend='evaluation', detail=str(rest), strict=False)


class Shared:
    def __init__(self, names, attrs):
        self.names, self.attrs = names, dict(attrs)


def shared(c):
    """the records of added shocks: one of its own for every name"""
    w = world([GEN], {'*': lambda *a: unsup('a loop')})
    x = fresh_name('x')
    single = c.choose(2)
    names = x if single else Named(eng.fresh_int('new', 1), lambda i: x)
    kw = {k: fresh_value(k) for k in ('variance', 'corr') if c.choose(2)}
    was = dict(kw)
    out = w.mods[GEN]._shared_shocks(names, kw)
    if isinstance(out, VMap):
        r = out.entry(x)
        ok = r is not None and r[0] is x and isinstance(r[1], dict) and same(r[1], was)
        own = r is not None and r[1] is not kw and r[1] is not out.entry(x)[1]
    elif type(out) is dict:
        if not out and not kw:
            ok, own = True, True
        else:
            ok = list(out) == [x] and same(out[x], was)
            own = ok and out[x] is not kw
            if not single and out:
                raise Unsupported('records')
    else:
        raise Unsupported('records')
    c.goal('added shocks have the attributes they were added with', ok, backend='evaluation', detail=str(out))
    c.goal('added shocks have records of their own', own, backend='evaluation', strict=False)
    c.goal('the attributes are left as they were', same(kw, was), backend='evaluation')


class Named(Seq):
    def pv_dmap(self, f):
        return VMap(self, f)


def add_params(c):
    """any number of keyword arguments, of which one is looked at"""
    hold = {}
    f = Models(c, {'*': lambda *a: hold['h'](*a)})
    m = existing(f, c)
    a, v = fresh_name('a'), fresh_value('v')
    entries = Seq(eng.fresh_int('given', 0), lambda i: (a, v))
    items = type({}.items())
    f.w.mods[GEN].__dict__['_pv_iter'] = lambda x: entries if type(x) is items and a in x.mapping else x
    p, before = m.params, dict(m.__dict__)
    what = 'every parameter has the value it was given'
    h = hold['h'] = Each(c, entries, lambda env: c.goal(what, p.log_is([(a, v)]), backend='evaluation', detail=str(p.__dict__.get('log'))))
    m.add_params(**{a: v})
    if m.params is not p:
        raise Unsupported('the parameters are replaced')
    c.goal(what, p.log_is([] if h.used else [(a, v)]), backend='evaluation', detail=str(p.__dict__.get('log')))
    consistent(c, f, m, 'add_params')
    rest = [k for k in before if k not in ('_is_altered', '_solution') and m.__dict__.get(k) is not before[k]]
    c.goal('the other definitions stay as they are', not rest, backend='evaluation', detail=str(rest), strict=False)


def add_exprs(c):
    f = Models(c)
    m = existing(f, c)
    k = c.choose(3)
    x = (fresh_name('text'), Part(), labels(eng.fresh_int('new', 0), 'text'))[k]
    e, before = m.exprs, dict(m.__dict__)
    m.add_exprs(x)
    if m.exprs is not e:
        raise Unsupported('the equations are replaced')
    ok = len(e.log) == 1 and e.log[0][1] is x and e.log[0][0] == ('all' if k == 2 else 'one')
    c.goal('the equations given are added', ok, backend='evaluation', detail=str(e.log))
    consistent(c, f, m, 'add_exprs')
    rest = [k for k in before if k not in ('_is_altered', '_solution') and m.__dict__.get(k) is not before[k]]
    c.goal('the other definitions stay as they are', not rest, backend='evaluation', detail=str(rest), strict=False)


def flag(c):
    """setting the flag forgets the solution; clearing it keeps it"""
    f = Models(c)
    m = existing(f, c, altered=False)
    s = m.__dict__.get('_solution')
    v = bool(c.choose(2))
    m.is_altered = v
    c.goal('the flag is what it was set to', m.is_altered is v, backend='evaluation')
    c.goal('a solution of old definitions is not kept', m.__dict__.get('_solution') is (None if v else s), backend='evaluation', strict=v)


def solution(c):
    """the solution that is reported is one of the present definitions, at the order asked for"""
    f = Models(c)
    m = existing(f, c)
    mm = f.w.mods[MODEL]

    class Solver:
        def __init__(self, model):
            self.model = model

        def solve(self, *a, **k):
            if a or k:
                raise Unsupported('arguments of solve')
            return made(self.order, self.model)
    from pynare.core.solve.base import LinearSolution

    class Made(LinearSolution):
        def __init__(self, **k):
            self.__dict__.update(k)

    def made(order, m):
        return Made(order=order, model=m, lower_solution=Made(order=1, model=m) if order == 2 else None)
    mm.FirstOrderSolution = type('FirstOrderSolution', (Solver,), {'order': 1})
    mm.SecondOrderSolution = type('SecondOrderSolution', (Solver,), {'order': 2})
    order = c.choose(3)
    what = ('solve', 'solution', 'first_order_solution')[c.choose(3)]
    if '_solution' in m.__dict__:
        m.__dict__['_solution'] = made(1 + c.choose(2), m)
    old = m.__dict__.get('_solution')
    if what == 'solve':
        s = m.solve(order=order) if order else m.solve()
        c.goal('a model is solved at the order asked for', s.order == (order or mm.default_order) and s.model is m, backend='evaluation')
        c.goal('a new solution replaces the old one', s is not old and m.__dict__.get('_solution') is s and m.solution is s, backend='evaluation')
    elif what == 'solution':
        s = m.solution
        c.goal('the solution is the one there is, or a new one', s is old if old is not None else s.model is m and s is m.__dict__.get('_solution'),
               backend='evaluation')
    else:
        s = m.first_order_solution
        now = m.__dict__.get('_solution')
        c.goal('the first-order solution is that of the solution there is', now is not None and (old is None or now is old) and s.order == 1
               and s is (now if now.order == 1 else now.lower_solution), backend='evaluation')


# ---------------------------------------------------------------- variables
def endog(c):
    """a variable has the boundary values recorded for it; the initial value is zero where nothing is said"""
    w = world([VARS])
    m = w.mods[VARS]
    m.VarArray = lambda x=(): x
    x = fresh_name('y')
    how = c.choose(3)        # records, plain values, nothing
    vals = {k: (0, fresh_value(k))[c.choose(2)] for k in BOUNDS if c.choose(2)} if how < 2 else {}
    for k, v in vals.items():
        if not isinstance(v, int):
            c.assume(v.e != 0)
    kw = {}
    for k, v in vals.items():
        if how == 0:
            kw[k] = PDict()
            dict.__setitem__(kw[k], x, v)
        else:
            kw[k] = v
    if how == 0:
        for k in BOUNDS:
            kw.setdefault(k, PDict())
    single = c.choose(2)
    out = m._create_endog_vars(x if single else Seq(eng.fresh_int('n', 1), lambda i: x), **kw)
    s = out[0] if single and isinstance(out, list) and len(out) == 1 else out.item(0) if isinstance(out, Seq) and not single else unsup('variables')
    c.goal('one variable for every name', s.name is x and s.lead_lag is None, backend='evaluation')
    dflt = None if 'terminal' in vals or 'historical' in vals else 0
    for k in BOUNDS:
        got, want = getattr(s, k), vals.get(k, dflt if k == 'initial' else None)
        ok = got is want or isinstance(got, int) and isinstance(want, int) and got == want
        c.goal('a variable has the boundary values recorded for it', ok, backend='evaluation', detail=f'{k}: {got} for {want}')


def made(c):
    w = world([VARS])
    m = w.mods[VARS]
    m.VarArray = lambda x=(): x
    which = c.choose(2)
    v = (m.EndogVar, m.DetermVar)[which](fresh_name('x'))
    make = (m._create_endog_vars, m._create_determ_vars)[which]
    out = make(Seq(eng.fresh_int('n', 1), lambda i: v))
    c.goal('variables that are made already are kept', isinstance(out, Seq) and out.item(0) is v, backend='evaluation')


def determ(c):
    w = world([VARS])
    m = w.mods[VARS]
    m.VarArray = lambda x=(): x
    x = fresh_name('d')
    recs = PDict()
    rec = {k: Opaque(k) for k in ('periods', 'values') if c.choose(2)}
    if c.choose(2):
        dict.__setitem__(recs, x, rec)
        want = (rec.get('periods'), rec.get('values'))
    else:
        want = (0, 1)
    single = c.choose(2)
    out = m._create_determ_vars(x if single else Seq(eng.fresh_int('n', 1), lambda i: x), recs)
    s = out[0] if single and isinstance(out, list) and len(out) == 1 else out.item(0) if isinstance(out, Seq) and not single else unsup('variables')
    ok = all(a is b or isinstance(a, int) and a == b for a, b in zip((s.periods, s.values), want))
    c.goal('a deterministic variable has what is recorded for it', s.name is x and ok, backend='evaluation')


def lags(c):
    """every variable has the dates at which the equations mention it"""
    hold = {}
    w = world([VARS], {'*': lambda *a: hold['h'](*a)})
    m = w.mods[VARS]
    x = m.EndogVar(fresh_name('y'))
    arr = Vars(eng.fresh_int('n', 1), lambda i: x)
    ex = Opaque('equations')
    dates = Opaque('dates')
    asked = []

    class Dates:
        def __getitem__(self, n):
            if n is not x.name:
                raise Unsupported('another name')
            return dates

        def __getattr__(self, a):
            if a.startswith('__'):
                raise AttributeError(a)
            raise Unsupported(f'{a} of the dates')

    def read(endog, exprs):
        asked.append((endog is arr, exprs is ex))
        return Dates()
    w.patch(f'{VARS}:read_lead_lags', read)
    h = hold['h'] = Each(c, arr, lambda env: c.goal('every variable has the dates at which the equations mention it', x.lead_lag is dates,
                                                    backend='evaluation'))
    out = m.set_lead_lags(arr, ex)
    if not h.used:
        raise Unsupported('the variables are not gone through')
    c.goal('the dates are read from the equations given', asked and all(a and b for a, b in asked), backend='evaluation')
    c.goal('the variables themselves are returned', out is arr, backend='evaluation')


def calibration(c):
    """a calibration keeps definitions of its own"""
    w = world([VARS])
    m = w.mods[VARS]
    solved = []

    def solve(defs, scope={}):
        solved.append((defs, scope))
        return Opaque('values')
    w.patch(f'{VARS}:solve_calibration', solve)
    a, b = fresh_name('a'), fresh_name('b')
    base = {a: .5, b: Opaque('definition')}
    src = m.ModelCalibration(base) if c.choose(2) else base
    scope = Opaque('scope')
    x = m.ModelCalibration(src, scope=scope)
    inner = src.defs if src is not base else base
    c.goal('a calibration keeps the definitions it is given', same(dict(x.defs), base) or list(x.defs) == list(base) and all(x.defs[k] is base[k] for k in base),
           backend='evaluation')
    c.goal('a calibration shares its definitions with nobody', x.defs is not inner and x.defs is not base, backend='evaluation')
    c.goal('a calibration is solved from its definitions in its scope', bool(solved) and same_defs(solved[-1][0], base) and solved[-1][1] is scope,
           backend='evaluation')


def same_defs(d, base):
    return isinstance(d, dict) and list(d) == list(base) and all(d[k] is base[k] for k in base)


# ---------------------------------------------------------------- equations
class Ops:
    """a list of unknown length, by what is done to it"""
    __pv__ = True

    def __init__(self, n):
        self.n, self.ops = n, []

    def __pv_len__(self):
        return self.n

    def __setitem__(self, k, v):
        self.ops.append(('set', k, v))

    def __delitem__(self, k):
        self.ops.append(('del', k, None))

    def insert(self, k, v):
        self.ops.append(('insert', k, v))

    def append(self, v):
        self.ops.append(('insert', self.n, v))

    def __getitem__(self, k):
        return ('item', self, k)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a list')


class Text(str):
    pass


def exprs_world():
    w = load.World(['pynare.parsing.ast', 'pynare.parsing.base', EXPR], shim=False, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    m = w.mods[EXPR]

    class Parser:
        def __init__(self, t):
            self.t = t

        def parse(self):
            if getattr(self.t, 'bad', False):
                raise Fails('syntax')
            return self.t.tree
    m.ExprParser = Parser
    return w, m


def formula(c, w, kinds=4):
    """text, a tree, text that does not parse, something else"""
    k = c.choose(kinds)
    if k == 0:
        t = Text('text')
        t.tree = w['pynare.parsing.ast:AST']()
        return t, t.tree, t
    if k == 1:
        x = w['pynare.parsing.ast:AST']()
        return x, x, ''
    if k == 2:
        t = Text('bad')
        t.bad = True
        return t, None, None
    return 3, None, None


def edit(c):
    """an equation is replaced, added or removed in the same place of the parsed list and of the texts"""
    w, m = exprs_world()
    x = object.__new__(m.ModelExprs)
    n = eng.fresh_int('equations', 0)
    x.exprs, x.exprs_str = a, b = Ops(n), Ops(n)
    # the length of the list is that of the parsed equations
    m.ModelExprs.__len__ = lambda self: 0
    op = ('set', 'insert', 'append', 'del')[c.choose(4)]
    k = eng.fresh_int('k', 0)
    if op == 'del':
        del x[k]
        want = [('del', k, None)], [('del', k, None)]
    else:
        v, tree, text = formula(c, w)
        w.mods[EXPR].len = lambda o: n if o is x else npshim.pv_len(o)
        try:
            if op == 'set':
                x[k] = v
            elif op == 'insert':
                x.insert(k, v)
            else:
                x.append(v)
        except (Fails, TypeError) as ex:
            fair(ex)
            c.goal('only what parses, or is parsed, is an equation', tree is None, backend='evaluation', detail=str(ex))
            c.goal('an equation that is refused leaves the others as they are', not a.ops and not b.ops, backend='evaluation')
            return
        c.goal('only what parses, or is parsed, is an equation', tree is not None, backend='evaluation')
        pos = n if op == 'append' else k
        what = 'set' if op == 'set' else 'insert'
        want = [(what, pos, tree)], [(what, pos, text)]
    if x.exprs is not a or x.exprs_str is not b:
        raise Unsupported('the lists are replaced')
    ok = all(len(g.ops) == len(h) and all(p[0] == q[0] and bool(c.entails(zi(p[1]) == zi(q[1]))) and (p[2] is q[2] or p[2] == q[2] == '')
                                           for p, q in zip(g.ops, h)) for g, h in ((a, want[0]), (b, want[1])))
    c.goal('an edit changes the equation in question and nothing else', ok, backend='evaluation', detail=f'{a.ops} {b.ops}')


def collect(c):
    """the equations of a model are those given, in order, parsed where they are texts"""
    w, m = exprs_world()
    v, tree, text = formula(c, w, 2)
    given = Seq(eng.fresh_int('equations', 0), lambda i: v)
    x = m.ModelExprs(given)
    if not isinstance(x.exprs, Seq) or not isinstance(x.exprs_str, Seq):
        raise Unsupported('the equations')
    ok = all(bool(c.entails(zi(s.n) == zi(given.n))) for s in (x.exprs, x.exprs_str))
    c.goal('there are as many equations as given', ok, backend='z3')
    i = eng.fresh_int('i', 0)
    c.goal('the equations are those given, in order', x.exprs.item(i) is tree and (x.exprs_str.item(i) is text or text == x.exprs_str.item(i) == ''),
           backend='evaluation')


def adopt(c):
    """equations that are parsed already are kept, with their texts"""
    w, m = exprs_world()
    x = object.__new__(m.ModelExprs)
    x.exprs, x.exprs_str = Ops(3), Ops(3)
    y = m.ModelExprs(x)
    c.goal('equations that are parsed already are kept', y.exprs is x.exprs and y.exprs_str is x.exprs_str, backend='evaluation', strict=False)


# ---------------------------------------------------------------- regimes
class Edits:
    """the equations of a model, by what is replaced"""

    def __init__(self, owner):
        self.owner, self.log, self.by = owner, [], []

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the equations')


class Copied:
    """a model as the regimes see it"""

    def __init__(self, of=None):
        self.__dict__.update(of=of, exprs=Edits(self), name=('name', 'of the model'), writes=[], copies=[])

    def copy(self):
        k = Copied(self)
        self.copies.append(k)
        return k

    def __setattr__(self, a, v):
        self.writes.append((a, v))
        if a != 'is_altered':
            raise Unsupported(f'{a} is set')
        self.__dict__[a] = v

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a model')

    def fresh(self):
        return not self.writes and not self.exprs.log and not self.exprs.by


class Change(dict):
    """{equation: formula} of unknown size: `key`, `value` is an arbitrary entry"""
    __pv__ = True

    def __init__(self):
        self.key, self.value = eng.fresh_int('eq', 0), Opaque('formula')
        self.entries = Seq(eng.fresh_int('replaced', 1), lambda i: (self.key, self.value))
        self.keyseq = Seq(self.entries.n, lambda i: self.key)

    def items(self):
        return self.entries

    def keys(self):
        return self.keyseq

    def __getitem__(self, k):
        if k is self.key:
            return self.value
        raise Unsupported('another entry')

    def __bool__(self):
        return True

    def _no(self, *a, **k):
        raise Unsupported('entries of an arbitrary dictionary')
    __iter__ = __len__ = values = get = copy = pop = update = _no
    __hash__ = None


class Grown:
    """models 0..k of a list of regimes"""
    __pv__ = True

    def __init__(self, first, k):
        self.first, self.k, self.new = first, k, []

    def append(self, x):
        self.new.append(x)

    def __pv_len__(self):
        return 1 + self.k + len(self.new)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a list that a loop fills')


class Replace:
    """the loop over the entries of a dictionary replaces each of them in one model; the loop over dictionaries makes one model of each"""

    def __init__(self, c, base, changes, outer=None):
        self.c, self.base, self.changes, self.outer = c, base, changes, outer
        self.used, self.made = 0, None
        self.regimes = None

    def models(self):
        out, todo = [], [self.base]
        while todo:
            m = todo.pop()
            out.append(m)
            todo += m.copies
        return out

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            it = st.it.it if isinstance(st.it, npshim_enum()) else st.it
            if self.outer is not None and it is self.outer:
                return self.over(st, env)
            ch = next((x for x in self.changes if it is x.entries or it is x.keyseq or it is x), None)
            if ch is None:
                raise Unsupported('a loop over something else')
            st.kind = 'inner'
            for n in st.names:
                if n in env and n != 'self' and not isinstance(env[n], (Copied, Opaque, int, SI)):
                    st.vals[n] = Poison()
            # an arbitrary entry: which model's equations does it replace?
            st.marks = {id(m): len(m.exprs.log) for m in self.models()}
            st.ch = ch
            if c.choose(2):
                st.body = True
                st.item = (ch.key, ch.value) if it is ch.entries else ch.key
                return
            t = self.target(st, env)
            t.exprs.by.append(ch)
            return
        if what == 'leave' and st.kind == 'inner':
            t = self.target(st, env)
            for m in self.models():
                new = m.exprs.log[st.marks.get(id(m), 0):]
                if m is t:
                    c.goal('a regime has every equation it is said to have', len(new) == 1 and new[0][0] is st.ch.key and new[0][1] is st.ch.value,
                           backend='evaluation', detail=str(new))
                else:
                    c.goal('no other model is touched', not new, backend='evaluation')
        elif what == 'leave':
            c.goal('every set of changes makes one model', len(self.list.new) == 1, backend='evaluation', detail=str(len(self.list.new)))
            self.regime(self.list.new[0], st.ch)
            c.goal('no other model is touched', self.base.fresh() and (self.list.first is None or self.list.first.fresh()), backend='evaluation')

    def target(self, st, env):
        ts = [v for v in env.values() if isinstance(v, Copied) and v is not self.base and v.of is not None]
        lst = getattr(self, 'list', None)
        ts = list({id(t): t for t in ts if lst is None or t is not lst.first}.values())
        if len(ts) != 1:
            raise Unsupported('which model is changed')
        return ts[0]

    def regime(self, m, ch):
        c = self.c
        c.goal('a regime is a model of its own, a copy of the original', isinstance(m, Copied) and m.of is self.base and m is not self.base, backend='evaluation')
        c.goal('a regime has every equation it is said to have', m.exprs.by == [ch], backend='evaluation')
        c.goal('a regime is flagged as altered', m.__dict__.get('is_altered') is True, backend='evaluation')

    def over(self, st, env):
        c = self.c
        me = env['self']
        ms = me.__dict__.get('models')
        st.kind = 'outer'
        where = next((n for n in env if isinstance(env[n], list) and env[n] and all(isinstance(x, Copied) for x in env[n])), None)
        if type(ms) is not list:
            ms = env.get(where)
            if ms is None:
                raise Unsupported('where the models are kept')
        if len(ms) != 1:
            raise Unsupported('the list of models')
        first = ms[0]
        k = eng.fresh_int('k', 0)
        body = c.choose(2)
        self.list = g = Grown(first, k if body else self.outer.n)
        if me.__dict__.get('models') is ms:
            me.__dict__['models'] = g
        for n in st.names:
            if n in env and env[n] is ms:
                st.vals[n] = g
            elif n in env and n != 'self':
                st.vals[n] = Poison()
        self.used += 1
        if not body:
            return
        c.assume(zi(k) < zi(self.outer.n))
        x = self.outer.item(k)
        st.ch = x
        st.body, st.item = True, ((k + st.it.start, x) if st.it is not self.outer else x)


def regimes(c):
    hold = {}
    w = load.World([REG], shim=False, loops={'*': lambda *a: hold['h'](*a)}, glob={**npshim.BUILTINS, 'list': npshim.pv_list})
    R = w[f'{REG}:RegimeSwitchingModel']
    m = Copied()
    ch = Change()
    seq = c.choose(2)
    if seq:
        outer = Sets(eng.fresh_int('regimes', 1), lambda i: ch)
        h = hold['h'] = Replace(c, m, [ch], outer)
        r = R(m, outer)
    else:
        h = hold['h'] = Replace(c, m, [ch])
        r = R(m, ch)
    c.goal('the original model is left as it was', m.fresh(), backend='evaluation')
    c.goal('the regimes have the name of the model', r.name is m.name, backend='evaluation', strict=False)
    ms = r.models
    if seq:
        if not isinstance(ms, Grown) or h.used != 1:
            raise Unsupported('the list of models')
        c.prove('there is one model more than there are changes', zi(npshim.pv_len(ms)) == zi(outer.n) + 1)
        first = ms.first
        c.goal('the first regime is the model itself', first is m or first.of is m and first.fresh(), backend='evaluation')
    else:
        if type(ms) is not list:
            raise Unsupported('the list of models')
        c.goal('there is one model more than there are changes', len(ms) == 2 and R.__len__(r) == 2, backend='evaluation')
        c.goal('the first regime is the model itself', ms[0] is m or ms[0].of is m and ms[0].fresh(), backend='evaluation')
        h.regime(ms[1], ch)
        c.goal('regimes are reached by their number', r[0] is ms[0] and r[1] is ms[1], backend='evaluation')


class Sets(Seq):
    def __bool__(self):
        return True


def units():
    M = f'{GEN}.DynamicModel'
    cp = Copying()
    P = functools.partial
    return [
        Unit(f'{M}.copy', cp, ['a copy has the variables of the original, in order', 'a copy has the boundary values of the original',
                               'a copy has the shocks of the original', 'the equations of a copy are its own',
                               'a copy has the equations, parameters and local names of the original', 'a copy shares no record with the original'],
             name='copying'),
        Unit(f'{MODEL}.Model.__init__, DynamicModel, StructuredModel, ModelSkeleton', construct,
             ['a model has the variables it was given, in order', 'the variables have the values recorded for them',
              'what is reported of a new model is built from its own definitions']),
        Unit(f'{M}: steady_repr, indexes, dynamic_repr, statespace, sigma, jacobian, hessian', query,
             ['whatever is asked of a model is what its definitions say', 'a failed rebuild does not let old features stand for new definitions',
              'a rebuild that fails is not passed over']),
        Unit(f'{M}.update', update, ['an update leaves no old feature', 'a failed rebuild does not let old features stand for new definitions',
                                       'a rebuild that fails is not passed over']),
        Unit(f'{GEN}.StructuredModel.ss', steady, ['the steady state that is reported is that of the present definitions']),
        Unit(f'{M}: initial, terminal, historical', bounds, ['boundary values are those of the variables, in order']),
        *[Unit(f'{M}.add_{k}', P(add_vars, k), ['added variables come after those that were there',
                                               'added variables have the attributes they were added with', 'an altered model is flagged',
                                               'a solution of old definitions is not kept'], name=f'add_{k}') for k in LISTS],
        Unit(f'{GEN}._shared_shocks', shared, ['added shocks have the attributes they were added with', 'added shocks have records of their own']),
        Unit(f'{GEN}.ModelSkeleton.add_params', add_params, ['every parameter has the value it was given', 'an altered model is flagged']),
        Unit(f'{GEN}.StructuredModel.add_exprs', add_exprs, ['the equations given are added', 'an altered model is flagged']),
        Unit(f'{MODEL}.Model.is_altered', flag, ['a solution of old definitions is not kept']),
        Unit(f'{MODEL}.Model: solve, solution, first_order_solution', solution,
             ['a model is solved at the order asked for', 'a new solution replaces the old one', 'the solution is the one there is, or a new one',
              'the first-order solution is that of the solution there is']),
        Unit(f'{VARS}._create_endog_vars, EndogVar.__init__', endog, ['a variable has the boundary values recorded for it']),
        Unit(f'{VARS}._create_endog_vars, _create_determ_vars', made, ['variables that are made already are kept']),
        Unit(f'{VARS}._create_determ_vars, DetermVar.__init__', determ, ['a deterministic variable has what is recorded for it']),
        Unit(f'{VARS}.set_lead_lags', lags, ['every variable has the dates at which the equations mention it']),
        Unit(f'{VARS}.ModelCalibration.__init__', calibration, ['a calibration shares its definitions with nobody']),
        Unit(f'{EXPR}.ModelExprs: __setitem__, insert, append, __delitem__', edit, ['an edit changes the equation in question and nothing else']),
        Unit(f'{EXPR}.ModelExprs.__init__', collect, ['the equations are those given, in order']),
        Unit(f'{EXPR}.ModelExprs.__init__', adopt, ['equations that are parsed already are kept']),
        Unit(f'{REG}.RegimeSwitchingModel', regimes, ['a regime has every equation it is said to have', 'the original model is left as it was',
                                                     'there is one model more than there are changes']),
        vararr.unit('__array_finalize__'), vararr.unit('__contains__'),
    ]
