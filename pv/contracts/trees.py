"""the equations as functions: contracts shared by C01, C03, C04 and C05"""
from pv import eng, arr, load, npshim
from pv.eng import Unit, zi, SI, SB, Unsupported
from pv.tree import (Trees, Nm, RV, PDict, SymNames, SymVec, SymEnum, DMap, fresh_name, fresh_value, same_value, snapshot, kept, Opaque, rvw, pv_int, pv_float)
z3 = eng.z3

MODS = ['pynare.parsing.ast', 'pynare.parsing.base', 'pynare.core.linearizing', 'pynare.core.expressions']
ASSUMES = [
    'real arithmetic in place of floating point; powers and elementary functions are uninterpreted (equal arguments, equal values)',
    'numpy/autograd elementary functions compute the function of their name',
    'copy.deepcopy returns an equal tree that shares nothing',
    'trees are finite (structural induction); a subtree acts on a visitor through its leaves, one at a time',
    'names are compared, hashed and formatted, nothing else (checked: any other operation on a name is refused)',
]


class Meaning:
    """an arbitrary assignment: parameters, endogenous variables at three dates, shocks"""

    def __init__(self, c, dynamic):
        self.c, self.dynamic = c, dynamic
        self.params, self.endo, self.exo = PDict(), SymNames(eng.fresh_int('n_endo', 1)), SymNames(eng.fresh_int('n_exo', 0))
        self.ss = SymVec('ss', self.endo.n)
        self.n_inc = eng.fresh_int('n_inc', 1)
        self.dyn = SymVec('dyn', self.n_inc + self.exo.n)
        self.pos = {d: z3.Function(f'column_{d + 1}', z3.IntSort(), z3.IntSort()) for d in (-1, 0, 1)}
        self.appears = set()

    def param(self):
        n = fresh_name('p')
        dict.__setitem__(self.params, n, fresh_value('p'))
        return ('var', n, None)

    def name(self, where, hint):
        n = fresh_name(hint)
        p = SI(z3.Int(f"pos{len(where.where)}_{hint}"))
        self.c.assume(z3.And(p.e >= 0, p.e < zi(where.n)))
        for q in where.where.values():
            self.c.assume(p.e != zi(q))
        where.add(n, p)
        return n

    def endog(self, kind, date):
        def mk():
            n = self.name(self.endo, 'y')
            self.seen(n, date or 0)
            return (kind, n, date)
        return mk

    def seen(self, n, d):
        self.appears.add((n, d))
        x = self.pos[d](zi(self.endo.find(n)))
        self.c.assume(z3.And(x >= 0, x < zi(self.n_inc)))

    def shock(self):
        return ('var', self.name(self.exo, 'e'), None)

    def shock_now(self):
        return ('period', self.name(self.exo, 'e'), 0)

    def number(self):
        return ('num', fresh_value('number'))

    def leaves(self):
        out = [self.param, self.number, self.shock]
        out += [self.endog('var', None), self.endog('period', -1), self.endog('period', 0), self.endog('period-', 0), self.endog('period', 1)]
        return out

    def rho(self, name, date):
        if dict.__contains__(self.params, name):
            return dict.__getitem__(self.params, name)
        p = self.endo.find(name)
        if p is not None:
            return self.ss[p] if not self.dynamic else self.dyn[SI(self.pos[date or 0](zi(p)))]
        p = self.exo.find(name)
        if p is not None:
            return 0 if not self.dynamic else self.dyn[self.n_inc + p]
        raise Unsupported('unknown name')


KINDS = ('ModelExpression', 'BinaryOp', 'UnaryOp', 'Function')


def dedupe(c, m, tree):
    """two leaves may be the same variable at two dates"""


# ---------------------------------------------------------------- equations
class Grid:
    """dated names, one row per date, one column per variable"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, mask):
        if not isinstance(mask, Shown) or not mask.yes:
            raise Unsupported('part of the dated names')
        return Dated(self.rows, mask.m)

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the dated names')


class Incidence:
    """the lead-lag incidence array: the column of each variable at each date, or nan"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, m):
        self.m = m

    def __pv_np__(self, name, a, k):
        if name == 'isnan' and len(a) == 1 and not k:
            return Shown(self.m, False)
        raise Unsupported(f'{name} of the incidence array')


class Shown:
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, m, yes):
        self.m, self.yes = m, yes

    def __invert__(self):
        return Shown(self.m, not self.yes)

    def __pv_np__(self, name, a, k):
        if name in ('invert', 'logical_not', 'bitwise_not'):
            return ~self
        raise Unsupported(name)


class Dated(SymNames):
    """the dated names that appear, row after row: the position of a name is its column (which is how columns are numbered)"""

    def __init__(self, rows, m):
        self.rows, self.m = rows, m
        if len(rows) != 3:
            raise Unsupported('dates')
        self.n, self.extra = m.n_inc, SymNames(0)
        self.where = {}

    def pv_list(self):
        r = Dated(self.rows, self.m)
        r.extra = self.extra.pv_list()
        return r

    @property
    def total(self):
        return self.n + self.extra.n

    def __pv_len__(self):
        return self.total

    def find(self, key):
        hits = []
        for n, d in self.m.appears:
            f = self.rows[d + 1]
            if f.it is not self.m.endo:
                raise Unsupported('names in another order')
            if f.f(n) == key:
                hits.append(SI(self.m.pos[d](zi(self.m.endo.find(n)))))
        p = self.extra.find(key)
        if p is not None:
            hits.append(self.n + p)
        if len(hits) > 1:
            raise Unsupported('one name in two places')
        return hits[0] if hits else None

    def extend(self, o):
        self.extra.extend(o)


def world(c, m, **k):
    w = load.World(MODS, glob={'list': npshim.pv_list, 'int': pv_int, 'float': pv_float}, **k)
    t = Trees(w, m.rho)
    w.mods['pynare.core.expressions'].model_signature = lambda names: (lambda f: f)

    def array(x, dtype=None, **kw):
        if isinstance(x, (list, tuple)) and x and all(isinstance(r, load.SymList) for r in x):
            return Grid(list(x))
        raise Unsupported('array')
    c.env['override'] = {'array': array}
    return w, t


def both(c, m):
    """leaves for the two children; the second may be the first variable at another date"""
    base = m.leaves()
    first = {}

    def again(kind, date):
        def mk():
            n = first.get('n')
            if n is None:
                return m.endog(kind, date)()
            m.seen(n, date or 0)
            return (kind, n, date)
        return mk

    def remember(f):
        def mk():
            s = f()
            if s[0] != 'num' and m.endo.find(s[1]) is not None and 'n' not in first:
                first['n'] = s[1]
            return s
        return mk
    return [remember(f) for f in base] + [again('var', None), again('period', -1), again('period', 1)]


def equation(dynamic, kinds, ops, c):
    m = Meaning(c, dynamic)
    w, t = world(c, m)
    node, want, leaves = t.node(c, both(c, m), kinds, ops=ops)
    before = snapshot(node)
    name = 'the value is that of the equation as written'
    try:
        if dynamic:
            f = w['pynare.core.expressions:dynamic_func'](node, m.endo, m.exo, Incidence(m), m.params)
            v = f(m.dyn)
        else:
            f = w['pynare.core.expressions:steady_func'](node, m.endo, m.params)
            v = f(m.ss)
    except NotImplementedError:
        c.goal('refuses only functions that are not supported', want is None, backend='evaluation')
        return
    c.prove(name, same_value(v, want) if want is not None else z3.BoolVal(False), detail=f'{desc(node)}')
    c.goal('the equation itself is left as it was', kept(before, snapshot(node)), backend='evaluation')


def desc(n):
    if isinstance(n, Opaque):
        return repr(n)
    if hasattr(n, 'left'):
        return f'{type(n).__name__}({desc(n.left)} {getattr(getattr(n, "op", None), "value", "=")} {desc(n.right)})'
    if hasattr(n, 'expr'):
        return f'{type(n).__name__}({getattr(n, "value", getattr(getattr(n, "op", None), "value", ""))} {desc(n.expr)})'
    return f'{type(n).__name__}({getattr(n, "value", "")!s} {getattr(n, "period_offset", "")})'


PARTS = [('an equation', ('ModelExpression',), None)] + [
    (f'a {n}', ('BinaryOp',), [o]) for n, o in [('sum', 'PLUS'), ('difference', 'MINUS'), ('product', 'MUL'), ('quotient', 'DIV'), ('power', 'POWER')]] + [
    ('a sign or a function', ('UnaryOp', 'Function'), None)]
GOALS = ['the value is that of the equation as written', 'the equation itself is left as it was']


def equations(dynamic):
    import functools
    what = 'dynamic_func, _DynamicSubsitution, DynamicFunc' if dynamic else 'steady_func, _SteadyStateSubstitution, SteadyFunc'
    return [Unit(f'pynare.core.expressions.{what} on {n}', functools.partial(equation, dynamic, k, o), GOALS) for n, k, o in PARTS]


# ---------------------------------------------------------------- the list of equations
class Vectorized:
    """np.vectorize(f, signature='(n)->(m)') applied to one vector is f of that vector"""

    def __init__(self, f, signature=None, **k):
        if k or signature != '(n)->(m)':
            raise Unsupported('vectorize')
        self.f = f

    def __call__(self, *a):
        if len(a) != 1 or not isinstance(a[0], (SymVec, Padded)):
            raise Unsupported('vectorized call')
        return self.f(*a)


class Padded:
    """a vector followed by others"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, parts):
        self.parts = parts

    def at(self, i):
        out, lo = None, 0
        for p in self.parts:
            n = npshim.pv_len(p)
            v = rvw(p.at(i - lo))
            out = v if out is None else RV(z3.If(zi(i) < zi(lo), out.e, v.e))
            lo = lo + n
        return out

    def __pv_len__(self):
        return sum((npshim.pv_len(p) for p in self.parts[1:]), npshim.pv_len(self.parts[0]))


class FunctionOf:
    """what steady_func / dynamic_func return: the function of one equation"""

    def __init__(self, node, args):
        self.node, self.args = node, args
        self.__name__ = 'mexpr'

    def __call__(self, x):
        return Value(self, x)


class Value:
    def __init__(self, f, x):
        self.f, self.x = f, x


class Equation:
    def __init__(self, i):
        self.i = i


class Count:
    """the variables of one kind"""

    def __init__(self, names):
        self.names = names

    def __pv_len__(self):
        return self.names.n

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the variables')


def representation(dynamic, c):
    from pv.seqs import Seq, Appending
    from pv.model import Obj
    m = Meaning(c, dynamic)
    n = eng.fresh_int('n_exprs', 1)
    exprs = Seq(n, Equation, 'the equations')
    llx = Incidence(m)
    model = Obj(endog=Count(m.endo), stoch=Count(m.exo), exprs=exprs, model_scope=m.params,
                indexes=Obj(llx=llx, n_endog_inc=m.n_inc, n_endog=m.endo.n, n_exog=m.exo.n))
    args = (m.endo, m.exo, llx, m.params) if dynamic else (m.endo, m.params)

    def same(name, got, want):
        if not isinstance(got, FunctionOf) or not isinstance(got.node, Equation):
            raise Unsupported('the functions of the equations')
        c.prove(name, zi(got.node.i) == zi(want.node.i))
        c.goal('each function is made with the names, dates and parameters of the model',
               len(got.args) == len(args) and all(a is b for a, b in zip(got.args, args)), backend='evaluation')
    loop = Appending(c, exprs, same, lambda i: FunctionOf(Equation(i), args), 'the i-th function is that of the i-th equation')
    w = load.World(MODS, glob={'list': npshim.pv_list}, loops={'*': loop})

    def make(node, *a, **k):
        if k:
            import inspect
            a = tuple(inspect.signature(real).bind(node, *a, **k).arguments.values())[1:]
        return FunctionOf(node, a)
    fn = 'dynamic_func' if dynamic else 'steady_func'
    real = w[f'pynare.core.expressions:{fn}']
    w.patch(f'pynare.core.expressions:{fn}', make)

    def array(x, dtype=None, **k):
        if isinstance(x, Seq) and dtype in (None, float):
            return x
        raise Unsupported('array')

    def concatenate(x, axis=0, **k):
        ok = lambda p: isinstance(p, (SymVec, Seq))
        if k or axis not in (0, -1) or not all(ok(p) for p in x):
            raise Unsupported('concatenate')
        return Padded(list(x))

    def zeros(n, dtype=None, **k):
        if isinstance(n, (int, SI)):
            return Seq(n, lambda i: 0)
        raise Unsupported('zeros')
    c.env['override'] = {'array': array, 'concatenate': concatenate, 'vectorize': Vectorized, 'zeros': zeros}
    cls = w['pynare.core.expressions:' + ('DynamicRepr' if dynamic else 'SteadyRepr')]
    r = cls(model)
    j = eng.fresh_int('j')
    c.assume(z3.And(zi(j) >= 0, zi(j) < zi(n)))
    fl = r.func_list
    if not isinstance(fl, Seq):
        raise Unsupported('func_list')
    c.prove('one function per equation', zi(fl.n) == zi(n))
    same('the i-th function is that of the i-th equation', fl.item(j), loop.item(j))
    # the call
    L = eng.fresh_int('length', 0)
    x = SymVec('x', L)
    try:
        v = r(x)
    except ValueError as err:
        import os
        if os.environ.get('PV_TRACE'):
            raise
        lens = [m.n_inc, m.n_inc + m.exo.n] if dynamic else [m.endo.n]
        c.prove('refuses only vectors of another length', z3.And(*[zi(L) != zi(a) for a in lens]))
        return
    if not isinstance(v, Seq):
        raise Unsupported('residuals')
    c.prove('one residual per equation', zi(v.n) == zi(n))
    e = v.item(j)
    if not isinstance(e, Value):
        raise Unsupported('residuals')
    same('the i-th residual is that of the i-th equation', e.f, loop.item(j))
    want = (m.n_inc + m.exo.n) if dynamic else m.endo.n
    c.prove('the functions get a vector of the right length', zi(npshim.pv_len(e.x)) == zi(want))
    i = eng.fresh_int('i')
    c.assume(z3.And(zi(i) >= 0, zi(i) < zi(want)))
    val = z3.If(zi(i) < zi(L), x.at(i).e, z3.RealVal(0))
    c.prove('which is the vector given, followed by zero shocks', same_value(e.x.at(i), val))


def dated(c):
    """names at different dates are told apart, from one another and from every variable's own name"""
    w = load.World(MODS)
    f = w['pynare.core.expressions:_dated_name']
    out = {}
    name = fresh_name('x')
    other = fresh_name('x')
    for d in (-1, 0, 1):
        a, b = f(name, d), f(other, d)
        if not isinstance(a, str) or not isinstance(b, str):
            raise Unsupported('dated names')
        p, q = str.partition(a, str.__str__(name)), str.partition(b, str.__str__(other))
        if not p[1] or (p[0], p[2]) != (q[0], q[2]):
            raise Unsupported('dated names')
        out[d] = (str.__str__(p[0]), str.__str__(p[2]))
    letters = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
    c.goal('a name at another date is no variable name', all(set(''.join(out[d])) - letters for d in (-1, 1)), backend='evaluation')
    c.goal('the current date is the name itself', out[0] == ('', ''), backend='evaluation')

    def apart(x, y):
        # the first differing letter from either end sits where a name has no such letter
        return x != y and (x[0] == y[0] == '') and x[1][:1] not in letters and y[1][:1] not in letters
    c.goal('dates are told apart', apart(out[-1], out[1]), backend='evaluation', strict=out[-1] == out[1])


def others(dynamic):
    import functools
    rep = 'DynamicRepr' if dynamic else 'SteadyRepr'
    out = [Unit(f'pynare.core.expressions.{rep}, vectorize_functions', functools.partial(representation, dynamic),
                ['the i-th function is that of the i-th equation', 'one residual per equation'])]
    if dynamic:
        out.append(Unit('pynare.core.expressions._dated_name', dated, ['dates are told apart']))
    return out


# ---------------------------------------------------------------- free-standing expressions
class Lookup:
    """a scope that is asked by name"""

    def __init__(self, d):
        self.d = d

    def lookup(self, name):
        return self.d[name] if dict.__contains__(self.d, name) else None


def evaluator(kinds, ops, c):
    m = Meaning(c, False)
    w, t = world(c, m)
    scope = m.params if c.choose(2) == 0 else Lookup(m.params)

    def known():
        return m.param()
    extra = []
    if isinstance(scope, PDict):
        def unknown():
            extra.append(fresh_name('u'))
            return ('var', extra[-1], None)
    leaves = [known, m.number] + ([unknown] if isinstance(scope, PDict) else [])
    first = {}

    def again():
        return first.get('s') or known()

    def rho(name, date):
        if dict.__contains__(m.params, name):
            return dict.__getitem__(m.params, name)
        return None
    t.rho = rho
    one = t.hypothesis

    def value_of(spec):
        return spec[1] if spec[0] == 'num' else rho(*spec[1:]) if rho(*spec[1:]) is not None else fresh_value('unbound')
    t.leaf_value = value_of

    node, want, used = t.node(c, leaves, kinds, ops=ops, compounds=('BinaryOp', 'UnaryOp', 'Function', 'CompOp')[:3])
    before = snapshot(node)
    name = 'the value is the conventional one'
    bound = not any(s[0] != 'num' and s[1] in extra for s in used)
    try:
        v = w['pynare.parsing.base:BaseEvaluator'](node, scope)
    except NotImplementedError:
        c.goal('refuses only functions that are not supported', want is None, backend='evaluation')
        return
    except Exception as ex:
        eng.fair(ex)
        c.goal('refuses only names without a value', not bound, backend='evaluation', detail=f'{type(ex).__name__}: {ex} on {desc(node)}')
        return
    if not bound:
        c.goal('a name without a value is refused', False, backend='evaluation', detail=desc(node))
        return
    c.goal('a name without a value is refused', True)
    c.prove(name, same_value(v, want) if want is not None else z3.BoolVal(False), detail=desc(node))
    c.goal('the expression itself is left as it was', kept(before, snapshot(node)), backend='evaluation')


def substitution(kinds, ops, c):
    """base.ASTSubstitution: names with a value are replaced by it, nothing else changes"""
    m = Meaning(c, False)
    w, t = world(c, m)
    other = PDict()
    scope = m.params if c.choose(2) == 0 else Lookup(m.params)

    def free():
        n = fresh_name('q')
        dict.__setitem__(other, n, fresh_value('q'))
        return ('var', n, None)
    both_ = PDict()

    def rho(name, date):
        return dict.get(m.params, name) if dict.__contains__(m.params, name) else dict.get(other, name)
    t.rho = rho
    node, want, used = t.node(c, [m.param, m.number, free], kinds, ops=ops)
    before = snapshot(node)
    tree_ = w['pynare.parsing.base:ASTSubstitution'](node, scope)
    c.goal('the expression itself is left as it was', kept(before, snapshot(node)), backend='evaluation')
    # what is left is evaluated where only the other names have values
    try:
        v = w['pynare.parsing.base:BaseEvaluator'](tree_, other)
    except NotImplementedError:
        c.goal('refuses only functions that are not supported', want is None, backend='evaluation')
        return
    except SyntaxError:
        c.goal('every name with a value is replaced', False, backend='evaluation', detail=desc(node))
        return
    c.goal('every name with a value is replaced', True, backend='evaluation')
    c.prove('the replacement has the same value', same_value(v, want) if want is not None else z3.BoolVal(False), detail=desc(node))


FREE = [('a name or a number', ('leaf',), None)] + [p for p in PARTS if p[1] != ('ModelExpression',)]


def evaluators():
    import functools
    out = [Unit(f'pynare.parsing.base.BaseEvaluator on {n}', functools.partial(evaluator, k, o), ['the value is the conventional one'])
           for n, k, o in FREE + [('a comparison', ('CompOp',), None)]]
    return out


def substitutions():
    import functools
    return [Unit(f'pynare.parsing.base.ASTSubstitution on {n}', functools.partial(substitution, k, o), ['the replacement has the same value'])
            for n, k, o in FREE]
