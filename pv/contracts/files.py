"""what a model file declares: parsing/semantics.py and parsing/factory.py, statement by statement"""
import functools
from pv import eng, load, npshim, tree
from pv.eng import Unit, Unsupported, PathEnd, SI, zi
from pv.seqs import Seq
from pv.tree import Trees, Nm, PDict, RV, fresh_name, fresh_value, Opaque
z3 = eng.z3

MODS = ['pynare.parsing.ast', 'pynare.parsing.base', 'pynare.parsing.dynare', 'pynare.parsing.lexer', 'pynare.parsing.parser',
        'pynare.parsing.semantics', 'pynare.parsing.factory']
SEM, FAC = 'pynare.parsing.semantics', 'pynare.parsing.factory'
KINDS = ('var', 'varexo', 'varexo_det', 'parameters')
ASSUMES = [
    'names are compared, hashed and printed, nothing else (checked: any other operation on a name is refused)',
    'the history of a file acts on a statement through what each name has been declared as (tables of names are only looked up and '
    'extended; listing one is refused)',
    'trees are finite (structural induction); a subtree acts on a visitor through its leaves, one at a time',
]


class Part:
    """a part of a file handled by another contract"""

    def __init__(self, what=None):
        self.what = what

    def __getattr__(self, a):
        if a.startswith('__') or a == 'parse':
            raise AttributeError(a)
        raise Unsupported(f'{a} of a part that the contract does not describe')

    def __deepcopy__(self, m):
        return self

    def __bool__(self):
        return True


class Each:
    """the contract of a loop over the items of a list: the pass for an arbitrary item does what the contract of an item says,
    whatever the earlier items did"""

    def __init__(self, c, seq, done):
        self.c, self.seq, self.done = c, seq, done
        self.mode, self.used = None, 0

    def __call__(self, w, st, what, env):
        if what == 'enter':
            it = st.it.it if isinstance(st.it, tree.SymEnum) else st.it
            if it is not self.seq:
                raise Unsupported('a loop over something else')
            self.used += 1
            if self.used > 1:
                raise Unsupported('the list is gone through twice')
            self.carry(st, env)
            if self.c.choose(2):
                self.mode = 'exit'
                return
            self.mode = 'body'
            k = eng.fresh_int('k', 0)
            self.c.assume(zi(k) < zi(it.n))
            x = it.item(k)
            st.body, st.item = True, ((k + st.it.start, x) if it is not st.it else x)
        elif what == 'leave':
            self.mode = 'done'
            self.done(env)

    def carry(self, st, env):
        for n in st.names:
            if n in env and n != 'self':
                from pv.contracts.common import Poison
                st.vals[n] = Poison()


class Files:
    def __init__(self, c, extra=(), loops=None):
        self.c = c
        self.hold = {}
        self.w = load.World(MODS + list(extra), shim=False, loops={'*': lambda *a: self.loop(*a)},
                            glob={'list': npshim.pv_list, 'len': npshim.pv_len})
        self.t = Trees(self.w, lambda *a: None)
        self.ast, self.base = self.t.ast, self.t.base
        orig = self.base.ABCVisitor.visit
        me = self
        self.visits = []

        def visit(visitor, node):
            if isinstance(node, Part):
                me.visits.append(node)
                return node.what(visitor) if callable(node.what) else None
            return orig(visitor, node)
        self.base.ABCVisitor.visit = visit
        self.K = {}

    def loop(self, *a):
        h = self.hold.get('h')
        if h is None:
            raise Unsupported('a loop of unknown length')
        return h(*a)

    def tok(self, t, v=None):
        return self.t.tok(t, v)

    def var(self, n):
        return self.ast.Var(self.tok(self.base.ID, n))

    def num(self):
        return self.ast.Num(self.tok(self.base.NUMBER, fresh_value('number')))

    def dated(self, n, d):
        return self.t.leaf(('period', n, d))

    def assignment(self, n, e, cls='VarAssignment'):
        return getattr(self.ast, cls)(self.var(n), self.tok(self.base.EQUALS, '='), e)

    def shock(self, kind, n, e, other=None):
        k = {'other': self.var(other)} if other is not None else {}
        return self.ast.StochasticShock(shock_type=kind, shock=self.var(n), expr=e, **k)

    def block(self, items, cls='ArgCompoundASTList'):
        b = getattr(self.ast, cls)(self.ast.CompoundASTList())
        b._list = items
        return b

    def boundaries(self, which, blk):
        b = self.ast.ModelBoundaryValues()
        b.set_boundary(blk, which)
        return b

    # -- an analyser that has seen an arbitrary beginning of a file
    def analyser(self):
        a = self.w[f'{SEM}:DynareSemanticAnalyzer'](Part())
        self.widen(a.current_scope)
        return a

    def widen(self, scope):
        s = scope.__dict__.get('_symbols')
        if type(s) is dict:
            scope._symbols = PDict(s)

    def name(self, a, hint, kinds=(None,) + KINDS + ('helper',)):
        n = fresh_name(hint)
        k = kinds[self.c.choose(len(kinds))]
        self.declare(a, n, k)
        return n

    def declare(self, a, n, k):
        if k == 'helper':
            a.visit(self.assignment(n, self.num()))
        elif k is not None:
            a.visit(self.ast.VarDeclaration(self.var(n), self.tok(k)))
        self.K[n] = k

    # -- what a leaf may be
    def fine(self, spec):
        """True, False, or None where nothing is claimed"""
        if spec[0] == 'num':
            return True
        k = self.K[spec[1]]
        if spec[0] == 'var' or spec[2] is None:
            return k is not None
        if k is None or k == 'parameters':
            return False
        return None if k == 'helper' else True

    def fine_all(self, specs):
        rs = [self.fine(s) for s in specs]
        if False in rs:
            return False
        if None in rs:
            raise PathEnd()
        return True

    # -- one more statement
    OPS = ('use', 'date', 'assign', 'bound', 'shock', 'declare')

    def op(self, a, o, n):
        if o == 'use':
            a.visit(self.var(n))
        elif o == 'date':
            a.visit(self.dated(n, 1))
        elif o == 'assign':
            a.visit(self.assignment(n, self.num()))
        elif o == 'bound':
            a.visit(self.boundaries('initval', self.block([self.assignment(n, self.num())])))
        elif o == 'shock':
            a.visit(self.block([self.shock('variance', n, self.num())], 'ShocksBlock'))
        elif o == 'declare':
            a.visit(self.ast.VarDeclaration(self.var(n), self.tok('var')))

    def allowed(self, o, n):
        k = self.K[n]
        if k == 'helper' and o != 'use' and o != 'declare':
            raise PathEnd()
        return {'use': k is not None, 'date': k in ('var', 'varexo', 'varexo_det'), 'assign': k in (None, 'parameters'),
                'bound': k == 'var', 'shock': k in ('varexo', 'varexo_det'), 'declare': k is None}[o]

    def observe(self, a, names, what='afterwards every name is what it has been declared as'):
        n = names[self.c.choose(len(names))]
        o = self.OPS[self.c.choose(len(self.OPS))]
        ok = self.allowed(o, n)
        _, err = attempt(lambda: self.op(a, o, n))
        self.c.goal(what, (err is None) == ok, backend='evaluation',
                    detail=f'{o} of a name that is {self.K[n]}: {type(err).__name__} {err}')


def attempt(f):
    try:
        return f(), None
    except Exception as ex:
        return None, eng.fair(ex)


BAD, GOOD = 'a fault is refused', 'what is free of faults is accepted'


def judge(c, ok, err, detail=''):
    c.goal(BAD, ok or err is not None, backend='evaluation', detail=f'accepted: {detail}')
    c.goal(GOOD, not ok or err is None, backend='evaluation', detail=f'{type(err).__name__} {err}: {detail}')
    return ok and err is None


def declaration(c):
    f = Files(c)
    a = f.analyser()
    x, y = f.name(a, 'x'), f.name(a, 'y', (None, 'var', 'parameters'))
    kind = KINDS[c.choose(4)]
    ok = f.K[x] is None
    _, err = attempt(lambda: a.visit(f.ast.VarDeclaration(f.var(x), f.tok(kind))))
    if judge(c, ok, err, f'{kind} of a name that is {f.K[x]}'):
        f.K[x] = kind
        f.observe(a, [x, y])


def expression(f, a, kinds=('leaf', 'BinaryOp', 'UnaryOp', 'Function'), names=None):
    """an arbitrary expression: its leaves are numbers or uses, dated or not, of names that are anything"""
    def use(date):
        def mk():
            n = f.name(a, 'n')
            return ('var', n, None) if date is None else ('period', n, date)
        return mk
    leaves = [use(None), use(1), use(-1), lambda: ('num', fresh_value('number'))]
    if names:
        leaves += [lambda: ('var', names[0], None)]
    f.t.leaf_value = lambda s: s[1] if s[0] == 'num' else fresh_value('v')
    node, _, specs = f.t.node(f.c, leaves, kinds, ops=['PLUS'], compounds=('UnaryOp',))
    return node, specs


def formula(c):
    """an expression is refused exactly if one of its leaves is at fault"""
    f = Files(c)
    a = f.analyser()
    node, specs = expression(f, a, ('leaf', 'ModelExpression', 'BinaryOp', 'UnaryOp', 'Function'))
    ok = f.fine_all(specs)
    _, err = attempt(lambda: a.visit(node))
    judge(c, ok, err, tree_of(node))


def tree_of(n):
    from pv.contracts.trees import desc
    return desc(n)


def assigned(c):
    f = Files(c)
    a = f.analyser()
    x = f.name(a, 'x', (None,) + KINDS)
    node, specs = expression(f, a, ('leaf', 'UnaryOp'), [x])
    if any(s[0] == 'period' for s in specs):
        raise PathEnd()                         # the grammar of assignments has no dates
    ok = f.K[x] in (None, 'parameters') and f.fine_all(specs)
    _, err = attempt(lambda: a.visit(f.assignment(x, node)))
    if judge(c, ok, err, f'{x} ({f.K[x]}) = {tree_of(node)}'):
        if f.K[x] is None:
            f.K[x] = 'helper'
        f.observe(a, [x])


def local(c):
    """inside the model block: local names are declared there and nowhere else"""
    f = Files(c)
    a = f.analyser()
    x = f.name(a, 'x', (None,) + KINDS)
    y = f.name(a, 'y', (None, 'var'))
    did = {}

    def inside(v):
        f.widen(a.current_scope)
        node, specs = expression(f, a, ('leaf', 'UnaryOp'), [x])
        ok = f.K[x] is None and f.fine_all(specs)
        _, err = attempt(lambda: a.visit(f.assignment(x, node, 'LocalModelDeclaration')))
        did['ok'] = judge(c, ok, err, f'# {x} ({f.K[x]}) = {tree_of(node)}')
        if did['ok']:
            if c.choose(2):
                # still inside
                k = f.K[x]
                f.K[x] = 'parameters'
                o = ('use', 'date')[c.choose(2)]
                _, e = attempt(lambda: f.op(a, o, x))
                c.goal('a local name can be used, not dated', (e is None) == (o == 'use'), backend='evaluation', detail=f'{o} {e}')
                f.K[x] = k
                if c.choose(2):
                    _, e = attempt(lambda: a.visit(f.assignment(x, f.num(), 'LocalModelDeclaration')))
                    c.goal('a local name is declared once', e is not None, backend='evaluation')
                raise PathEnd()
    _, err = attempt(lambda: a.visit(f.ast.ModelDefinition(Part(inside), f.ast.CompoundASTList())))
    c.goal('the statements of the model are looked at', 'ok' in did, backend='evaluation')
    if did.get('ok') and err is None:
        f.observe(a, [x, y])


def scoped(f, a, n, k):
    pass


def boundary(which, c):
    f = Files(c)
    a = f.analyser()
    x = f.name(a, 'x', (None,) + KINDS)
    node, specs = expression(f, a, ('leaf', 'UnaryOp'))
    if any(s[0] == 'period' for s in specs):
        raise PathEnd()
    ok = f.K[x] == 'var' and f.fine_all(specs)
    seq = Seq(eng.fresh_int('items', 0), lambda i: f.assignment(x, node))
    each = f.hold['h'] = Each(c, seq, lambda env: judge(c, ok, None, f'{which} of a name that is {f.K[x]}'))
    _, err = attempt(lambda: a.visit(f.boundaries(which, f.block(seq))))
    listed(c, each, ok, err, which)


def listed(c, each, ok, err, what):
    if not each.used:
        raise Unsupported('the list is not gone through')
    if each.mode == 'exit':
        c.goal('the end of the list is the end', err is None, backend='evaluation')
    elif err is not None:
        judge(c, ok, err, what)
    else:
        c.goal('every item is looked at', False, backend='evaluation', strict=False)


def shocks(c):
    f = Files(c)
    a = f.analyser()
    kind = ('variance', 'stderr', 'correlated', 'covarying')[c.choose(4)]
    x = f.name(a, 'x', (None,) + KINDS)
    pair = kind in ('correlated', 'covarying')
    y = f.name(a, 'y', (None,) + KINDS) if pair else None
    node, specs = expression(f, a, ('leaf', 'UnaryOp'))
    if any(s[0] == 'period' for s in specs):
        raise PathEnd()
    exo = ('varexo', 'varexo_det')
    ok = f.K[x] in exo and (not pair or f.K[y] in exo) and f.fine_all(specs)
    what = f'{kind} of {f.K[x]} {f.K.get(y)}'
    seq = Seq(eng.fresh_int('items', 0), lambda i: f.shock(kind, x, node, y))
    each = f.hold['h'] = Each(c, seq, lambda env: judge(c, ok, None, what))
    _, err = attempt(lambda: a.visit(f.block(seq, 'ShocksBlock')))
    listed(c, each, ok, err, what)


def lists(cls, c):
    """every statement of a list is looked at, in order, by the visitor of its kind"""
    f = Files(c)
    a = visitor(f, cls)
    part = Part()
    seq = Seq(eng.fresh_int('items', 0), lambda i: part)

    def done(env):
        c.goal('every statement is looked at, once', f.visits == [part], backend='evaluation', detail=str(f.visits))
    each = f.hold['h'] = Each(c, seq, done)
    node = f.ast.CompoundASTList()
    node._list = seq
    if c.choose(2):
        m = f.ast.Model()
        m._statements = node
        node = m
    n, err = attempt(lambda: a.visit(node))
    if not each.used:
        raise Unsupported('the list is not gone through')
    if each.mode == 'exit':
        c.goal('the end of the list is the end', err is None and not f.visits, backend='evaluation')
    else:
        c.goal('every statement is looked at, once', False, backend='evaluation', detail=str(err))


def visitor(f, cls):
    if cls == 'DynareSemanticAnalyzer':
        return f.analyser()
    return factory(f)


def whole(cls, c):
    """a file is looked at from its beginning to its end, all of it"""
    f = Files(c)
    a = visitor(f, cls)
    A = f.ast
    vs, ps, md = Part(), Part(), Part()
    want = [vs, ps, md]
    acts = A.ModelActions()
    has = c.choose(2)
    if has:
        acts.set_shocks(Part())
    b = acts.boundaries = Part()
    want.append(b)
    if has:
        want.append(acts.shocks)
    node = A.ModelFile(A.VariablePreamble(vs, ps), A.ModelDefinition(md, A.CompoundASTList()), acts)
    if cls == 'DynareSemanticAnalyzer':
        a.tree = node
        _, err = attempt(a.verify)
    else:
        a.tree = node
        r, err = attempt(a.create_outline)
        c.goal('what has been collected is returned', r is a.outline, backend='evaluation')
    c.goal('all parts of a file are looked at, in order', err is None and f.visits == want, backend='evaluation', detail=f'{err} {len(f.visits)}')


def bounds(cls, c):
    """each of the blocks that are there, and no other"""
    f = Files(c)
    a = visitor(f, cls)
    b = f.ast.ModelBoundaryValues()
    names = {}
    for which in ('initval', 'endval', 'histval'):
        if c.choose(2):
            n = fresh_name(which)
            names[which] = n
            if cls == 'DynareSemanticAnalyzer':
                f.declare(a, n, 'var')
            b.set_boundary(f.block([f.assignment(n, f.num())]), which)
    _, err = attempt(lambda: a.visit(b))
    c.goal('optional blocks may be left out', err is None, backend='evaluation', detail=f'{names} {err}')


# ---------------------------------------------------------------- the outline
class Value:
    """the value of an expression under the names known at that point"""

    def __init__(self, tree_, scope, names):
        self.tree, self.scope = tree_, scope
        self.known = {n: scope.lookup(n) for n in names}

    def __bool__(self):
        raise Unsupported('a value is inspected')

    def __pow__(self, k):
        return ('power', self, k)


class Subst:
    def __init__(self, tree_, scope):
        self.tree, self.scope = tree_, scope


def factory(f):
    """the outline builder, with the analyser in front of it"""
    m = f.w.mods[FAC]
    seen = f.seen = []

    class Lexer:
        def __init__(self, text):
            seen.append(('lexer', text))

    class Parser:
        def __init__(self, lexer):
            seen.append(('parser', lexer))

        def parse(self):
            f.parsed = Part()
            return f.parsed

    class Analyzer:
        def __init__(self, t):
            seen.append(('analyser', t))

        def verify(self):
            seen.append(('verify',))
            if f.__dict__.get('faulty'):
                raise NameError('a fault')
    m.DynareLexer, m.DynareParser, m.DynareSemanticAnalyzer = Lexer, Parser, Analyzer
    f.names = []
    m.base.BaseEvaluator = lambda tree, scope: Value(tree, scope, f.names)
    m.base.ASTSubstitution = lambda tree, scope: Subst(tree, dict.copy(scope))
    fac = f.w[f'{FAC}:DynareModelFactory']('the text')
    return fac


def build(c):
    f = Files(c)
    f.faulty = c.choose(2) == 1
    fac, err = attempt(lambda: factory(f))
    c.goal('a file with a fault is refused', not f.faulty or err is not None, backend='evaluation')
    if f.faulty:
        return
    c.goal('a file without faults is accepted', err is None, backend='evaluation', detail=str(err))
    what = [s[0] for s in f.seen]
    c.goal('the analyser looks at the whole file first', what.count('verify') == 1 and ('lexer', 'the text') in f.seen
           and any(s[0] == 'analyser' and s[1] is f.parsed for s in f.seen) and fac.tree is f.parsed, backend='evaluation')
    m = f.w.mods[FAC]
    m.DynareModelFactory = lambda text: Made(text)
    r = f.w[f'{FAC}:ModelFactory']('the text', 'dynare')
    c.goal('reading a model returns its outline', r == ('outline of', 'the text'), backend='evaluation')


class Made:
    def __init__(self, text):
        self.text = text

    def create_outline(self):
        return ('outline of', self.text)


def arbitrary(f, fac):
    """the outline after an arbitrary beginning of the file: lists of any length, dictionaries with any entries"""
    o = fac.outline
    f.lists, f.dicts = {}, {}
    for k, v in list(o.__dict__.items()):
        if type(v) is list and not v:
            n = eng.fresh_int('n_' + k, 0)
            s = Seq(n, lambda i, k=k: ('earlier', k, i), k)
            f.lists[k] = (s, n)
            o.__dict__[k] = s
        elif type(v) is dict and not v:
            f.dicts[k] = o.__dict__[k] = PDict()
    return o


def handed(f, o):
    """what the model is built from, and by which name"""
    import inspect
    m = f.w.mods['pynare.core.model']
    if 'from_outline' not in f.K:
        f.K['from_outline'] = m.Model.__dict__['from_outline'].__func__
        m.Model = lambda **k: k
    return f.K['from_outline'](object, o)


MODEL = 'pynare.core.model'
LISTS = ('endog', 'stoch', 'determ', 'exprs')


def unchanged(f, c, k, but=()):
    for n in LISTS:
        if n not in but:
            s = k[n]
            if not isinstance(s, Seq):
                raise Unsupported(f'the list {n}')
            c.goal('nothing else is added', any(s is x and c.entails(zi(s.n) == zi(n0)) for x, n0 in f.lists.values()), backend='evaluation', detail=n)
    for n in ('params', 'local_params'):
        if n not in but:
            c.goal('nothing else is added', isinstance(k[n], PDict) and dict.__len__(k[n]) == 0, backend='evaluation', detail=n)


def declared(c):
    f = Files(c, [MODEL])
    fac = factory(f)
    o = arbitrary(f, fac)
    x = fresh_name('x')
    kind = KINDS[c.choose(4)]
    fac.visit(f.ast.VarDeclaration(f.var(x), f.tok(kind)))
    k = handed(f, o)
    key = {'var': 'endog', 'varexo': 'stoch', 'varexo_det': 'determ', 'parameters': 'params'}[kind]
    if kind == 'parameters':
        c.goal('a declared name is listed with its kind, after those before it',
               isinstance(k['params'], PDict) and list(dict.keys(k['params'])) == [x], backend='evaluation')
    else:
        last(f, c, k[key], lambda y: y is x, 'a declared name is listed with its kind, after those before it')
    unchanged(f, c, k, (key,))


def last(f, c, s, ok, what):
    if not isinstance(s, Seq):
        raise Unsupported('the list')
    n0 = [n for x, n in f.lists.values() if x is s]
    if not n0:
        raise Unsupported('the list')
    c.prove(what, zi(s.n) == zi(n0[0]) + 1)
    c.goal(what, ok(s.item(n0[0])), backend='evaluation')
    j = eng.fresh_int('j', 0)
    c.assume(zi(j) < zi(n0[0]))
    c.goal(what, isinstance(s.item(j), tuple) and s.item(j)[0] == 'earlier', backend='evaluation')


def given(c):
    """an assignment in the preamble: of a parameter its definition, of another name its value"""
    f = Files(c, [MODEL])
    fac = factory(f)
    o = arbitrary(f, fac)
    p, h = fresh_name('p'), fresh_name('h')
    fac.visit(f.ast.VarDeclaration(f.var(p), f.tok('parameters')))
    f.names = [p, h]
    r1, r2, r3 = Part(), Part(), Part()
    order = c.choose(2)
    first, second = (p, h) if order else (h, p)
    fac.visit(f.assignment(first, r1))
    fac.visit(f.assignment(second, r2))
    k = handed(f, o)
    d = dict.get(k['params'], p)
    rp = r1 if order else r2
    c.goal('the definition of a parameter is the one given', isinstance(d, Subst) and d.tree is rp, backend='evaluation')
    c.goal('names of the file only are replaced by their values, others are left',
           isinstance(d, Subst) and (p not in d.scope) and ((h in d.scope) == (not order))
           and (order or (isinstance(d.scope[h], Value) and d.scope[h].tree is r1)), backend='evaluation', detail=f'{order} {d.scope}')
    c.goal('only parameters are parameters', list(dict.keys(k['params'])) == [p], backend='evaluation')
    # later values see the earlier ones
    got = {}
    blk = f.block([f.assignment(fresh_name('y'), r3)])
    fac.visit(f.boundaries('initval', blk))
    v = list(handed(f, o)['initial'].values())[0]
    ok = isinstance(v, Value) and v.tree is r3 and all(isinstance(v.known[n], Value) and v.known[n].tree is r for n, r in ((first, r1), (second, r2)))
    c.goal('later values are worked out from the ones given before', ok, backend='evaluation')
    e = v.known[second]
    c.goal('each value is worked out where it stands', isinstance(e, Value) and isinstance(e.known[first], Value)
           and e.known[first].tree is r1 and e.known[second] is None, backend='evaluation')


def zero(c):
    """a value of zero is a value"""
    f = Files(c, [MODEL])
    fac = factory(f)
    f.w.mods[FAC].base.BaseEvaluator = lambda tree, scope: [fresh_value('v'), scope][0] if tree is not probe else scope.lookup(h)
    probe = Part()
    h, p = fresh_name('h'), fresh_name('p')
    fac.visit(f.ast.VarDeclaration(f.var(p), f.tok('parameters')))
    n = (h, p)[c.choose(2)]
    fac.visit(f.assignment(n, Part()))
    v = fac.file_scope.lookup(n)
    c.goal('a name keeps its value, whatever it is', isinstance(v, RV), backend='evaluation')


def equation(c):
    f = Files(c, [MODEL])
    fac = factory(f)
    o = arbitrary(f, fac)
    names = []

    def use(date):
        def mk():
            n = fresh_name('n')
            if c.choose(2):
                fac.visit(f.ast.VarDeclaration(f.var(n), f.tok('var')))
            names.append(n)
            return ('var', n, None) if date is None else ('period', n, date)
        return mk
    f.t.leaf_value = lambda s: fresh_value('v')
    node, _, specs = f.t.node(c, [use(None), use(1), use(-1), lambda: ('num', fresh_value('number'))],
                              ('ModelExpression',), compounds=('BinaryOp', 'UnaryOp', 'Function'))
    before = tree.snapshot(node)
    n_endog = zi(o.__dict__['_endogenous'].n) if isinstance(o.__dict__.get('_endogenous'), Seq) else None
    _, err = attempt(lambda: fac.visit(node))
    c.goal('an equation without faults is accepted', err is None, backend='evaluation', detail=f'{type(err).__name__} {err}')
    if err is not None:
        return
    k = handed(f, o)

    def ok(e):
        return (type(e).__name__ == 'BinaryOp' and e.op.type == f.base.MINUS and e.left is node.left and e.right is node.right) or \
            (type(e).__name__ == 'ModelExpression' and e.left is node.left and e.right is node.right)
    last(f, c, k['exprs'], ok, 'each equation is kept, left side minus right side, after those before it')
    c.goal('the sides are left as they were', tree.kept(before, tree.snapshot(node)), backend='evaluation')


def locals_(c):
    f = Files(c, [MODEL])
    fac = factory(f)
    o = arbitrary(f, fac)
    x, r = fresh_name('x'), Part()
    fac.visit(f.ast.ModelDefinition(Part(lambda v: fac.visit(f.assignment(x, r, 'LocalModelDeclaration'))), f.ast.CompoundASTList()))
    k = handed(f, o)
    d = k['local_params']
    c.goal('a local name is kept with its definition', isinstance(d, PDict) and list(dict.keys(d)) == [x] and dict.get(d, x) is r, backend='evaluation')
    unchanged(f, c, k, ('local_params',))


class Entries(Each):
    """the contract of a loop that fills a dictionary: the pass for an item adds what the contract says, and changes nothing else"""

    def carry(self, st, env):
        super().carry(st, env)
        ds = [n for n in st.names if type(env.get(n)) is dict and not env[n]]
        if len(ds) != 1:
            raise Unsupported('the dictionary that is filled')
        self.d = ds[0]
        self.start = st.vals[self.d] = PDict(self.prior())

    def prior(self):
        return {}


def values(which, c):
    f = Files(c, [MODEL])
    fac = factory(f)
    o = arbitrary(f, fac)
    x, r = fresh_name('x'), Part()
    seq = Seq(eng.fresh_int('items', 0), lambda i: f.assignment(x, r))

    def done(env):
        d = env[each.d]
        v = dict.get(d, x)
        c.goal('each value given is kept under its name', isinstance(d, PDict) and list(dict.keys(d)) == [x] and isinstance(v, Value) and v.tree is r,
               backend='evaluation')
    each = f.hold['h'] = Entries(c, seq, done)
    fac.visit(f.boundaries(which, f.block(seq)))
    if not each.used:
        raise Unsupported('the list is not gone through')
    if each.mode != 'exit':
        c.goal('each value given is kept under its name', False, backend='evaluation', strict=False)
        return
    k = handed(f, o)
    key = {'initval': 'initial', 'endval': 'terminal', 'histval': 'historical'}[which]
    c.goal('the values are those of their block', k[key] is each.start, backend='evaluation')
    others = [v for n, v in k.items() if n in ('initial', 'terminal', 'historical') and n != key]
    c.goal('the values of other blocks are left alone', len(others) == 2 and all(isinstance(v, PDict) and v is not each.start for v in others), backend='evaluation')


def outlined(c):
    """what has been read is what the model is built from"""
    f = Files(c, [MODEL])
    fac = factory(f)
    o = arbitrary(f, fac)
    k = handed(f, o)
    got = [k[n] for n in ('endog', 'stoch', 'determ', 'exprs', 'params', 'local_params', 'initial', 'terminal', 'historical', 'shocks')]
    c.goal('lists, definitions, values and shocks are handed on, each for itself', all(isinstance(x, (Seq, PDict)) for x in got)
           and len({id(x) for x in got}) == len(got), backend='evaluation')


def analysis():
    P = functools.partial
    jg = [BAD, GOOD]
    return [
        Unit(f'{SEM}.DynareSemanticAnalyzer.visit_VarDeclaration', declaration, jg),
        Unit(f'{SEM}.DynareSemanticAnalyzer on expressions', formula, jg),
        Unit(f'{SEM}.DynareSemanticAnalyzer.visit_VarAssignment', assigned, jg),
        Unit(f'{SEM}.DynareSemanticAnalyzer.visit_ModelDefinition, visit_LocalModelDeclaration', local, jg),
        *[Unit(f'{SEM}.DynareSemanticAnalyzer.visit_ModelBoundaryValues, validate_ModelBoundaryValues ({b})', P(boundary, b), jg)
          for b in ('initval', 'endval', 'histval')],
        Unit(f'{SEM}.DynareSemanticAnalyzer.visit_ShocksBlock', shocks, jg),
        Unit(f'{SEM}.DynareSemanticAnalyzer.visit_CompoundASTList, visit_Model', P(lists, 'DynareSemanticAnalyzer'), ['every statement is looked at, once']),
        Unit(f'{SEM}.DynareSemanticAnalyzer.verify, visit_ModelFile, visit_VariablePreamble, visit_ModelActions', P(whole, 'DynareSemanticAnalyzer'),
             ['all parts of a file are looked at, in order']),
        Unit(f'{SEM}.DynareSemanticAnalyzer.visit_ModelBoundaryValues', P(bounds, 'DynareSemanticAnalyzer'), ['optional blocks may be left out']),
    ]


def outline():
    P = functools.partial
    D = f'{FAC}.DynareModelFactory'
    return [
        Unit(f'{D}.__init__, ModelFactory', build, ['a file with a fault is refused', 'the analyser looks at the whole file first']),
        Unit(f'{D}.visit_VarDeclaration, ModelOutline.declare_variable', declared, ['a declared name is listed with its kind, after those before it']),
        Unit(f'{D}.visit_VarAssignment, ScopedMemory', given, ['the definition of a parameter is the one given']),
        Unit(f'{FAC}.ScopedMemory.lookup', zero, ['a name keeps its value, whatever it is']),
        Unit(f'{D}.visit_ModelExpression and the visitors of expressions', equation, ['each equation is kept, left side minus right side, after those before it']),
        Unit(f'{D}.visit_ModelDefinition, visit_LocalModelDeclaration', locals_, ['a local name is kept with its definition']),
        *[Unit(f'{D}.visit_ModelBoundaryValues, calculate_ModelBoundaryValues ({b})', P(values, b), ['each value given is kept under its name',
               'the values are those of their block']) for b in ('initval', 'endval', 'histval')],
        Unit(f'{D}.visit_CompoundASTList, visit_Model', P(lists, 'DynareModelFactory'), ['every statement is looked at, once']),
        Unit(f'{D}.create_outline, visit_ModelFile, visit_VariablePreamble, visit_ModelActions', P(whole, 'DynareModelFactory'),
             ['all parts of a file are looked at, in order']),
        Unit(f'{D}.visit_ModelBoundaryValues', P(bounds, 'DynareModelFactory'), ['optional blocks may be left out']),
        Unit('pynare.core.model.Model.from_outline', outlined, ['lists, definitions, values and shocks are handed on, each for itself']),
    ]
