"""what a user calls: core/model.py, io/files.py, examples, stats/stats.py"""
import builtins
import inspect
import os
import pathlib
import posixpath
from pv import eng, load, model
from pv.arr import Unsupported
from pv.eng import Unit
from pv.contracts import c21

M, IO, EX, ST = 'pynare.core.model', 'pynare.io.files', 'pynare.examples', 'pynare.stats.stats'
ASSUMES = [
    'files: open, pathlib and os.path have their documented meaning over one tree of files (stand-ins with an arbitrary working directory); the text of '
    'a file is an opaque value',
    'the pieces of a path (directories, name, suffixes) are opaque, by cases of how many there are and of str or Path',
    'read_model gives the outline of a text (C18), the solution classes, simulate, impulse_response, the moments and summaries give what their own '
    'contracts say (C09, C11, C13 to C17, C22); ModelOutline is an attribute bag',
    'orders other than 0, 1, 2 are represented by 3, 7 and -1',
]

TEXT = 'the text is that of the file, or of the example of that name'
NONE = 'a name that is neither is refused as a file that is not there'
MADE = 'the model is made of what that text defines, each part for itself'
NAME = 'the model is named after the file, without directories and suffixes'
LANG = 'the text is read in the language given'


class Token(c21.Token):
    """an opaque value, which may count as true or as false"""

    def __bool__(self):
        if 'truth' not in self.__dict__:
            self.__dict__['truth'] = eng.CUR.choose(2) == 0
        return self.truth


class Text(c21.Token):
    pass


class File:
    def __init__(self, text):
        self.text, self.open = text, True

    def read(self, *a):
        if a or not self.open:
            raise Unsupported('a part of a file')
        return self.text

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False

    def __iter__(self):
        raise Unsupported('the lines of a file')

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a file')


class Tree:
    """one file of the user, and those of the package"""

    def __init__(self):
        self.cwd, self.files = '/\u27eawhere\u27eb/\u27eait runs\u27eb', {}
        self.pkg = os.path.dirname(load.source(EX)[0])

    def full(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, os.fspath(p)))

    def get(self, p):
        q = self.full(p)
        if q in self.files:
            return self.files[q]
        if q.startswith(self.pkg + '/') and os.path.isfile(q):
            return self.files.setdefault(q, Text(q))

    def open(self, p, mode='r', *a, **k):
        if 'b' in mode or set(mode) - set('rt'):
            raise Unsupported(f'open with mode {mode}')
        t = self.get(p)
        if t is None:
            raise FileNotFoundError(2, 'No such file or directory', os.fspath(p))
        return File(t)

    def world(self):
        t = self

        class Path(pathlib.PurePosixPath):
            def open(self, mode='r', *a, **k):
                return t.open(self, mode)

            def read_text(self, *a, **k):
                return t.open(self).read()

            def exists(self):
                return t.get(self) is not None
            is_file = exists

            def resolve(self, strict=False):
                return type(self)(t.full(self))
            absolute = resolve

            @classmethod
            def cwd(cls):
                return cls(t.cwd)
        self.Path = Path
        p = {n: getattr(posixpath, n) for n in ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath', 'isabs', 'sep', 'commonpath')}
        p.update(exists=lambda x: t.get(x) is not None, isfile=lambda x: t.get(x) is not None, abspath=t.full, realpath=t.full)
        osm = model.Obj(path=model.Obj(**p), fspath=os.fspath, sep='/', PathLike=os.PathLike, getcwd=lambda: t.cwd)
        lib = model.Obj(Path=Path, PurePath=pathlib.PurePath, PurePosixPath=pathlib.PurePosixPath, PosixPath=Path)
        mods = {'pathlib': lib, 'os': osm, 'os.path': osm.path, 'posixpath': osm.path}

        def importer(name, glob=None, loc=None, fromlist=(), level=0):
            if level == 0 and name in mods:
                return mods[name] if fromlist or '.' not in name else mods[name.split('.')[0]]
            return __import__(name, glob, loc, fromlist, level)
        own = {**vars(builtins), 'open': self.open, '__import__': importer}

        class World(load.World):
            def hooks(self):
                return {**super().hooks(), '__builtins__': own}
        return World


PARTS = {'endog': '_endogenous', 'stoch': '_stochastic_exogenous', 'determ': '_deterministic_exogenous', 'params': '_parameters', 'shocks': '_shocks',
         'exprs': '_model_expression_asts', 'local_params': '_local_model_variables', 'initial': '_initial_values', 'terminal': '_terminal_values',
         'historical': '_historical_values'}


def recorder(w, cls):
    """objects of the class, which only say what they are built from"""
    sig = inspect.signature(cls.__init__)
    made = []

    def init(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        self.__dict__['given'] = b.arguments
        made.append(self)
    cls.__init__ = init
    cls.__repr__ = lambda self: 'a model'
    return made


EXAMPLES = ['simple_rbc', 'simple_linear', 'optim_ck', 'basic_nk', 'four_eq_nk', 'herbst_schorfheide']
DIRS = ['', '\u27ead\u27eb/', '/\u27ead\u27eb/\u27eae\u27eb/', '../\u27ead\u27eb.x/', '../']
SUFFIX = ['', '.mod', '.txt', '.mod.txt']


def path(c):
    t = Tree()
    w = t.world()([EX, IO, M], shim=False)
    read = []
    outline = model.Obj(**{v: Token(k) for k, v in PARTS.items()})

    def read_model(text, language):
        read.append((text, language))
        return outline
    w.patch(f'{M}:read_model', read_model)
    K = w[f'{M}:Model']
    made = recorder(w, K)
    kind = c.choose(3)
    d, s = DIRS[c.choose(len(DIRS))], SUFFIX[c.choose(len(SUFFIX))]
    want = None
    if kind == 0:
        # a file that is there; it may be called like an example
        stem = ('\u27ean\u27eb', EXAMPLES[3])[c.choose(2)]
        p = d + stem + s
        t.files[t.full(p)] = want = Text('the file')
    elif kind == 1:
        # the name of an example
        stem = EXAMPLES[c.choose(len(EXAMPLES))]
        p = d + stem + s
        if not d:
            real = [f for f in sorted(os.listdir(t.pkg + '/pynare')) if f.split('.')[0] == stem]
            c.goal('every example is there', len(real) == 1, backend='evaluation', detail=stem)
            if len(real) != 1:
                return
            want = t.pkg + '/pynare/' + real[0]
    else:
        stem = ('\u27ean\u27eb', 'example', 'basic')[c.choose(3)]
        p = d + stem + s
    arg = t.Path(p) if c.choose(2) else p
    lang = Token('language') if c.choose(2) else None
    try:
        r = K.from_path(arg, lang) if lang is not None else K.from_path(arg)
    except Exception as ex:
        eng.fair(ex)
        if want is None:
            c.goal(NONE, isinstance(ex, FileNotFoundError), backend='evaluation', detail=f'{p}: {ex!r}')
        else:
            c.goal(TEXT, False, backend='evaluation', detail=f'{arg!r}: {ex!r}')
        return
    c.goal(NONE, want is not None, backend='evaluation', detail=repr(arg))
    if want is None:
        return
    got = read[-1][0] if read else None
    if isinstance(want, str):
        ok = got is t.get(want) or isinstance(got, str) and got == open(want).read()
    else:
        ok = got is want
    c.goal(TEXT, len(read) == 1 and ok, backend='evaluation', detail=f'{arg!r}: {got!r}')
    c.goal(LANG, read[-1][1] is lang if lang is not None else read[-1][1] == 'dynare', backend='evaluation')
    g = made[-1].given if made else {}
    c.goal(MADE, len(made) == 1 and r is made[0] and all(g.get(k) is getattr(outline, v) for k, v in PARTS.items()), backend='evaluation', detail=repr(g)[:400])
    c.goal(NAME, g.get('name') == stem, backend='evaluation', detail=f"{arg!r}: {g.get('name')!r}")
    c.goal(LANG, g.get('language') is lang if lang is not None else g.get('language') == 'dynare', backend='evaluation')


# -- solving

KIND = 'the solution is the one asked for: of that order, or under the constraints'
ARGS = 'every argument of the caller reaches it'
KEEP = 'it is returned and is the solution of the model'
BAD = 'an order that does not exist is refused, one that exists is not'


def bare(w):
    """a model of which nothing is known but what the methods say"""
    K = w[f'{M}:Model']

    class Bare(K):
        def __init__(self):
            self.__dict__['_is_altered'] = False

        def __repr__(self):
            return 'the model'

        def __getattr__(self, a):
            if a == '_solution' or a.startswith('__') or hasattr(type(self), a):
                raise AttributeError(a)
            raise Unsupported(f'model.{a} is not under contract')
    Bare.__name__ = 'Model'
    return Bare()


def misuse(ex):
    """an exception of the code itself, or a call that the signature of the callee does not admit"""
    if not (isinstance(ex, TypeError) and 'argument' in str(ex)):
        eng.fair(ex)


class Solving:
    """the classes of solutions: what they are made with, and how they are solved"""

    def __init__(self, w):
        from pynare.core.solve.base import LinearSolution, ModelSolution
        from pynare.core.solve.binding import OccBinSolution
        start, run = inspect.signature(OccBinSolution.__init__), inspect.signature(OccBinSolution.solve)
        top, self.done = self, []

        class Sol:
            def __init__(self, model, **k):
                self.__dict__.update(model=model, with_=k, run=None)

            def __repr__(self):
                return f'{self.kind} {self.with_} {self.run}'

            def solve(self, **k):
                # the solution solves itself and is what solve gives
                self.__dict__.update(run=k)
                top.done.append(self)
                return self

        class First(Sol, LinearSolution):
            order, kind = 1, 1

            def __init__(self, model):
                Sol.__init__(self, model)

        class Second(Sol, LinearSolution):
            order, kind = 2, 2

            def __init__(self, model):
                Sol.__init__(self, model)
                self.__dict__['lower_solution'] = First(model).solve()

        class Occ(Sol, ModelSolution):
            kind = 'occ'

            def __init__(self, *a, **k):
                b = start.bind(self, *a, **k)
                b.apply_defaults()
                Sol.__init__(self, **{n: v for n, v in b.arguments.items() if n != 'self'})

            def solve(self, *a, **k):
                b = run.bind(self, *a, **k)
                b.apply_defaults()
                return Sol.solve(self, **{n: v for n, v in b.arguments.items() if n != 'self'})
        for n, k in (('FirstOrderSolution', First), ('SecondOrderSolution', Second), ('OccBinSolution', Occ)):
            w.patch(f'{M}:{n}', k)
        self.First, self.Second, self.Occ = First, Second, Occ


OPTS = [{}, {'init': 1}, {'exog': 1, 'shocks': 1}, {'exprs': 1, 'sigma': 1, 'exog': 1, 'shocks': 1, 'init': 1, 'periods': 1, 'max_iter': 1, 'restrained': 1},
        {'exprs': 1, 'shocks': 1, 'periods': 1}]


def solve(c):
    w = load.World([M], shim=False)
    s, m = Solving(w), bare(w)
    if c.choose(2):
        # solved before, some other way
        m._solution = (lambda: s.First(m), lambda: s.Second(m), lambda: s.Occ(m, 'a'))[c.choose(3)]().solve()
    order = (None, 0, 1, 2, 3, 7, -1)[c.choose(7)]
    kw, cons = {}, None
    if order is None:
        cons = ('a', ('a', 'b'), ['a', 'b'])[c.choose(3)]
        val = (Token, lambda k: 0, lambda k: [], lambda k: False)[c.choose(4)]
        kw = {k: val(k) for k in OPTS[c.choose(len(OPTS))]}
        call = dict(kw, constraint=cons)
    else:
        call = {'order': order} if order or c.choose(2) else {}
        if c.choose(2):
            call['constraint'] = []
    try:
        r = m.solve(**call)
    except Exception as ex:
        misuse(ex)
        c.goal(BAD if order is not None else ARGS, order in (3, 7, -1) and isinstance(ex, ValueError), backend='evaluation', detail=f'{call}: {ex!r}')
        return
    c.goal(BAD, order in (None, 0, 1, 2), backend='evaluation', detail=repr(call))
    kind = 'occ' if order is None else order or 2
    c.goal(KIND, getattr(r, 'kind', None) == kind and r.model is m and r.run is not None, backend='evaluation', detail=f'{call}: {r!r}'[:300])
    c.goal(KEEP, m._solution is r and m.solution is r, backend='evaluation')
    if kind == 'occ':
        have = {'exog': None, **r.with_, **r.run}
        rest = {'exprs': {}, 'sigma': {}, 'exog': None, 'shocks': 100, 'init': None, 'periods': None, 'max_iter': 20, 'restrained': False}
        c.goal(ARGS, have.pop('constraint') is cons and all(have[k] is kw[k] if k in kw else have[k] == v for k, v in rest.items()), backend='evaluation',
               detail=f'{call}: {have}')


def ask(c):
    """solution, solution_order, first_order_solution of a model that was solved before, or not"""
    w = load.World([M], shim=False)
    s, m = Solving(w), bare(w)
    had = c.choose(4)
    old = [None, lambda: s.First(m), lambda: s.Second(m), lambda: s.Occ(m, 'a')][had]
    if old:
        old = m._solution = old().solve()
    del s.done[:]
    for i in range(2):
        q = c.choose(3)
        try:
            if q == 0:
                r = m.solution_order
                want = getattr(m.__dict__.get('_solution'), 'order', None)
                c.goal('the order is that of the solution, if there is one that has an order', r == want, backend='evaluation', detail=repr(r))
            elif q == 1:
                r = m.solution
                ok = r is old if old else getattr(r, 'kind', None) == 2 and r.run is not None and r.model is m
                c.goal('the solution is the last one, or that of the default order', ok, backend='evaluation', detail=repr(r))
                c.goal('the solution is kept', m._solution is r, backend='evaluation')
                old = old or r
            else:
                r = m.first_order_solution
                ok = getattr(r, 'kind', None) == 1 and r.run is not None and r.model is m and (had not in (1, 2) or r is (old if had == 1 else old.lower_solution))
                c.goal('the first-order solution is that of the model, whatever was solved before', ok, backend='evaluation', detail=repr(r))
                c.goal('the solution is kept', not old or m._solution is old, backend='evaluation')
                old = old or m.__dict__.get('_solution')
        except Exception as ex:
            eng.fair(ex)
            c.goal(('the order is that of the solution, if there is one that has an order', 'the solution is the last one, or that of the default order',
                    'the first-order solution is that of the model, whatever was solved before')[q], False, backend='evaluation', detail=repr(ex))
            return


# -- what is handed on

ON = 'the function is called once, with the model and the arguments of the caller'
BACK = 'its result is returned'


def forward(c):
    """simulate, impulse_response, summary, stats"""
    w = load.World([M], shim=False)
    m = bare(w)
    calls, out = [], Token('result')

    def stand(name):
        real = w[f'{M}:{name}']
        sig = inspect.signature(real)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            calls.append((name, b.arguments))
            return out
        w.patch(f'{M}:{name}', f)
        return list(sig.parameters)
    which = c.choose(4)
    fn, meth, args, dflt = [
        ('simulate', 'simulate', ['shocks', 'periods', 'init', 'order'], {'shocks': None, 'periods': 20, 'init': None, 'order': 0}),
        ('impulse_response', 'impulse_response', ['exog', 'periods', 'size'], {'exog': None, 'periods': 20, 'size': 1}),
        ('ModelSummary', 'summary', [], {}), ('ModelStatistics', None, [], {})][which]
    pars = stand(fn)
    if which == 3:
        r = m.stats
        want = {}
    elif which == 2:
        want = [{}, {'sig': Token('sig')}, {'eigen': Token('eigen'), 'pad': Token('pad')}][c.choose(3)]
        r = m.summary(**want)
    else:
        how = c.choose(4)
        if how == 3:
            # values that count as false
            a = args[c.choose(len(args))]
            want = {a: (0, 0., False, '', None)[c.choose(5)]}
            r = getattr(m, meth)(**want)
        elif how == 0:
            given = [Token(a) for a in args]
            r, want = getattr(m, meth)(*given), dict(zip(args, given))
        elif how == 1:
            want = {a: Token(a) for a in args}
            r = getattr(m, meth)(**want)
        else:
            a = args[c.choose(len(args))]
            want = {a: Token(a)}
            r = getattr(m, meth)(**want)
        want = {**dflt, **want}
    got = dict(calls[0][1]) if calls else {}
    got = {**got.pop('kwargs', {}), **got}
    subject = got.pop(pars[0] if pars[0] != 'self' else pars[1], None)
    same = lambda a, b: a is b if isinstance(b, Token) else type(a) is type(b) and a == b
    c.goal(ON, len(calls) == 1 and subject is m and got.keys() <= want.keys() and all(same(got.get(k, dflt.get(k)), v) for k, v in want.items()),
           backend='evaluation', detail=f'{meth}: {got}')
    c.goal(BACK, r is out, backend='evaluation')


FEATURES = ['mean', 'var', 'std', 'cov', 'corr', 'autocorr', 'autocov', 'var_decomp']


def statistics(c):
    from pynare.stats import moments
    from pynare.stats.var import var_decomp
    w = load.World([ST], shim=False)
    calls, out = [], Token('result')
    swap = {}
    for n in FEATURES:
        real = getattr(moments, n, var_decomp)
        sig = inspect.signature(real)

        def f(*a, _n=n, _s=sig, **k):
            calls.append((_n, dict(_s.bind(*a, **k).arguments)))
            return out
        f.__doc__ = real.__doc__
        swap[real] = f
    for o in [w.mods[ST].__dict__, *[v for k in w.mods[ST].__dict__.values() if isinstance(k, type) and k.__module__ == ST
                                     for v in vars(k).values() if isinstance(v, dict)]]:
        for k, v in list(o.items()):
            if inspect.isfunction(v) and v in swap:
                o[k] = swap[v]
    m = Token('model')
    s = w[f'{ST}:ModelStatistics'](m)
    n = FEATURES[c.choose(len(FEATURES))]
    a, kw = (), {}
    if n in ('autocorr', 'autocov'):
        a, kw = [((), {}), ((), {'p': Token('p')}), ((Token('p'),), {})][c.choose(3)]
    elif n == 'var_decomp':
        a, kw = [((), {}), ((), {'stoch': Token('stoch')}), ((), {'endog': Token('endog'), 'stoch': Token('stoch')}),
                 ((Token('endog'),), {}), ((Token('endog'), Token('stoch')), {})][c.choose(5)]
    pars = [p for p in inspect.signature(next(k for k, v in swap.items() if k.__name__ == n)).parameters]
    want = {pars[0]: m, **dict(zip(pars[1:], a)), **kw}
    try:
        r = getattr(s, n)(*a, **kw)
    except Exception as ex:
        misuse(ex)
        c.goal(ON, False, backend='evaluation', detail=f'{n}{a}{kw}: {ex!r}')
        return
    c.goal(ON, len(calls) == 1 and calls[0][0] == n and calls[0][1].keys() == want.keys() and all(calls[0][1][k] is v for k, v in want.items()),
           backend='evaluation', detail=f'{n}: {calls}')
    c.goal(BACK, r is out, backend='evaluation')


def unknown(c):
    w = load.World([ST], shim=False)
    s = w[f'{ST}:ModelStatistics'](Token('model'))
    n = ('median', 'means', 'Cov', 'skew')[c.choose(4)]
    c.goal('a statistic that does not exist is an attribute that does not exist', not hasattr(s, n), backend='evaluation', detail=n)
    c.goal('a statistic that does not exist is an attribute that does not exist', all(hasattr(s, f) for f in FEATURES), backend='evaluation')


def units():
    return [
        Unit(f'{M}.Model.from_path, from_outline; {IO}.read_file, read_example; {EX}.ExampleRegistry.get_example', path,
             [TEXT, NONE, MADE, NAME, LANG, 'every example is there'], limit=300),
        Unit(f'{M}.Model.solve', solve, [KIND, ARGS, KEEP, BAD]),
        Unit(f'{M}.Model.solution, solution_order, first_order_solution', ask,
             ['the order is that of the solution, if there is one that has an order', 'the solution is the last one, or that of the default order',
              'the solution is kept', 'the first-order solution is that of the model, whatever was solved before']),
        Unit(f'{M}.Model.simulate, impulse_response, summary, stats', forward, [ON, BACK]),
        Unit(f'{ST}.ModelStatistics.__getattr__', statistics, [ON, BACK]),
        Unit(f'{ST}.ModelStatistics.__getattr__', unknown, ['a statistic that does not exist is an attribute that does not exist'], name='unknown'),
    ]
