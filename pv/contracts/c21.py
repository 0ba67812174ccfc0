"""the steady state: core/steady.py"""
from pv import eng, arr, load, model
from pv.arr import Lf, Tensor, sort, atoms, prove_equal, tensor, fit, Unsupported
from pv.eng import Unit, zi, SI, SB

S = 'pynare.core.steady'
ASSUMES = [
    'scipy.optimize.minimize(fun, x0, method) returns a result whose `x` is, when it reports success, a point where the gradient of `fun` is below its '
    'tolerance (cg) or where the simplex has shrunk to its tolerances (nelder-mead); x0 and the options have their documented meaning',
    'the compiled residuals of the model are those of its equations (C04); that models refresh them after an alteration is proved under C19',
    'numpy: power, sum and elementwise arithmetic follow their documented meaning; real arithmetic',
]
OBJ = 'the objective is the sum of squared static residuals of the model'


class Token:
    """an opaque value"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {self.name}')

    def _no(self, *a):
        raise Unsupported(f'use of {self.name}')
    __bool__ = __len__ = __iter__ = __getitem__ = __call__ = _no


class Subject:
    """a model, seen by the algorithms: the residuals are those of the present, and are compiled when they are asked for"""

    def __init__(self, c):
        self.n, self.k = sort('N', lo=1), sort('K', lo=1)
        self.x = atoms('x', [Lf(self.n)])
        self.r = atoms('r', [Lf(self.k)])
        self.__dict__['initial'] = Token('initial values')
        self.jac = Token('jacobian')
        self.language = 'dynare'
        self.steady_repr = model.Obj(functions=self.residuals, jacobian=self.jac)

    def residuals(self, v, *a):
        if a or v is not self.x:
            raise Unsupported('residuals at another point')
        return self.r

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'model.{a} is not under contract')


def right(c, m, fun):
    got = fun(m.x)
    want = arr.sum_(m.r * m.r, 0)
    prove_equal(OBJ, got, want)


def objective(c):
    w = load.World([S])
    m = Subject(c)
    right(c, m, w[f'{S}:_define_simple_least_squares'](m))


NAMES = {'minimize_conjugate_gradient': 'cg', 'minimize_nelder_mead': 'nelder-mead'}


def minimise(c):
    calls, res = [], Token('result')

    def minimize(fun, x0, args=(), method=None, **k):
        if args != ():
            raise Unsupported('arguments of the objective')
        calls.append((fun, x0, method, k))
        return res
    w = load.World([S], contracts={f'{S}:optim': model.Obj(minimize=minimize)})
    m = Subject(c)
    name = list(NAMES)[c.choose(2)]
    kw = ({}, {'options': Token('options'), 'tol': Token('tol')})[c.choose(2)]
    got = w[f'{S}:{name}'](m, **kw)
    c.goal('one minimisation, whose result is returned', len(calls) == 1 and got is res, backend='evaluation')
    fun, x0, method, k = calls[0]
    c.goal('it starts at the initial values of the model', x0 is m.initial, backend='evaluation', detail=repr(x0))
    c.goal('with the algorithm of that name', isinstance(method, str) and method.lower() == NAMES[name], backend='evaluation', detail=repr(method))
    c.goal('and the options of the caller', set(k) == set(kw) and all(k[a] is kw[a] for a in kw), backend='evaluation', detail=repr(k))
    right(c, m, fun)


CHOICES = [None, '', 8, 8., 0, 0., False, 'nelder-mead', 12, -1, 99, 'cg', 'newton', 'NELDER'] + list(range(1, 8)) + [9, 10, 11]


def choice(c):
    """which algorithm is run, by cases"""
    run = []
    cg, nm = (lambda tag: lambda m, **k: run.append((tag, m, k)) or model.Obj(x=Token('x')))('cg'), \
        (lambda tag: lambda m, **k: run.append((tag, m, k)) or model.Obj(x=Token('x')))('nm')
    w = load.World([S])
    mgr = w[f'{S}:_SteadyStateManager']
    swap = {w[f'{S}:minimize_conjugate_gradient']: cg, w[f'{S}:minimize_nelder_mead']: nm}
    for t in [v for v in vars(mgr).values() if isinstance(v, dict)]:
        for k, v in list(t.items()):
            if callable(v) and v in swap:
                t[k] = swap[v]
    m = Subject(c)
    method = CHOICES[c.choose(len(CHOICES))]
    kw = {'tol': Token('tol')}
    s = w[f'{S}:SteadyState'](m)
    want = 'cg' if method is None or method == '' or (not isinstance(method, str) and method == 8) else 'nm' if method == 'nelder-mead' else None
    try:
        s.compute(method, **kw)
    except Unsupported:
        raise
    except Exception as e:
        c.goal('an algorithm that is not there is refused, one that is there is not', want is None, backend='evaluation', detail=f'{method!r}: {e!r}')
        return
    c.goal('an algorithm that is not there is refused, one that is there is not', want is not None, backend='evaluation', detail=repr(method))
    c.goal('the algorithm asked for is run on the model', [(t, x is m, k.keys() == kw.keys() and k['tol'] is kw['tol']) for t, x, k in run]
           == [(want, True, True)], backend='evaluation', detail=f'{method!r}: {run!r}')


def answers(c):
    """compute, values, results, jacobian"""
    runs = []

    def manager(language=None, method=None):
        def algo(m, *a, **k):
            r = model.Obj(x=Token(f'x{len(runs)}'))
            runs.append((language, method, m, a, k, r))
            return r
        return algo
    w = load.World([S], contracts={f'{S}:_SteadyStateManager': manager})
    m = Subject(c)
    s = w[f'{S}:SteadyState'](m)
    ask = lambda: [lambda: (s.values, runs[-1][-1].x), lambda: (s.results, runs[-1][-1]), None][c.choose(3)]
    last = None
    for i in range(3):
        q = c.choose(4)
        if q == 3:
            kw = {'options': Token('options')}
            meth = Token('method')
            v = s.compute(meth, **kw) if c.choose(2) else s.compute(method=meth, **kw)
            last = runs[-1]
            c.goal('compute runs the algorithm asked for on the model, with the options of the caller', len(runs) >= 1 and last[0] == 'dynare' and last[1] is meth
                   and last[2] is m and last[3] == () and last[4].keys() == kw.keys() and last[4]['options'] is kw['options'], backend='evaluation')
            c.goal('compute returns the point found', v is last[-1].x, backend='evaluation')
        elif q == 2:
            c.goal('the jacobian is the one of the static equations', s.jacobian is m.jac, backend='evaluation')
        else:
            before = len(runs)
            v = s.values if q else s.results
            c.goal('nothing is computed again', len(runs) - before == (last is None), backend='evaluation')
            if last is None:
                last = runs[-1]
                c.goal('without a choice the default algorithm is run', last[1] is None and last[4] == {} and last[2] is m, backend='evaluation')
            c.goal('values and results are those of the last computation', v is (last[-1].x if q else last[-1]), backend='evaluation')


def units():
    return [
        Unit(f'{S}._define_simple_least_squares', objective, [OBJ]),
        Unit(f'{S}.minimize_conjugate_gradient, minimize_nelder_mead', minimise,
             [OBJ, 'one minimisation, whose result is returned', 'it starts at the initial values of the model', 'with the algorithm of that name',
              'and the options of the caller']),
        Unit(f'{S}._SteadyStateManager.__new__', choice,
             ['an algorithm that is not there is refused, one that is there is not', 'the algorithm asked for is run on the model']),
        Unit(f'{S}.SteadyState.compute, values, results, jacobian', answers,
             ['compute runs the algorithm asked for on the model, with the options of the caller', 'compute returns the point found',
              'the jacobian is the one of the static equations', 'nothing is computed again', 'without a choice the default algorithm is run',
              'values and results are those of the last computation'])]
