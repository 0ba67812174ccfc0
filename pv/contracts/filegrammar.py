"""the grammar of a model file: every parsing method of DynareParser that reads statements and blocks"""
import functools
from pv import eng, load, npshim, tree
from pv.contracts.common import Poison
from pv.eng import Unit, Unsupported, PathEnd, SI, zi
from pv.seqs import Seq
from pv.toks import Stream, Lexer, Refused, Val, at, goto
z3 = eng.z3

MODS = ['pynare.parsing.ast', 'pynare.parsing.base', 'pynare.parsing.dynare', 'pynare.parsing.lexer', 'pynare.parsing.parser']
PAR = 'pynare.parsing.parser'
READ, REFUSE, ITEM = 'what is written is what is read', 'what is not in the language is refused', 'one more item is read, and kept after those before it'
ASSUMES = ['the tokens of a file are those of C02; a token carries the very string that names its type',
           'arguments in parentheses after the name of a block are read and set aside; blocks of deterministic shocks and commands after the '
           'blocks (steady, check, ...) are outside the supported sub-language: nothing is claimed of a file that has them']


class Earlier:
    """an item read earlier"""

    def __init__(self, k):
        self.k = k

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('an item read earlier is inspected')


class Items(Seq):
    """the items read so far"""

    def extend(self, o):
        if isinstance(o, list):
            for x in o:
                self.append(x)
            return
        if not isinstance(o, Seq):
            raise Unsupported('extend')
        n, old, more = self.n, self.item, o.item
        self.n = n + o.n
        self.item = lambda i: old(i) if eng.CUR.decide(zi(i) < zi(n)) else more(i - n)

    def __iadd__(self, o):
        self.extend(o)
        return self


def any_list(name):
    n = eng.fresh_int('n', 0)
    return Items(n, lambda i: ('of', name, i), name)


class Rules:
    """the language, as rules over positions.  A result is a predicate on what the code returns"""

    def __init__(self, c, w, s):
        self.c, self.w, self.s = c, w, s
        self.b, self.ast, self.dyn = (w.mods['pynare.parsing.' + m] for m in ('base', 'ast', 'dynare'))
        b, d = self.b, self.dyn
        self.types = (d.VAR, d.VAREXO, d.VAREXO_DET, d.PARAMETERS)
        self.odd = (d.PREDETERMINED, d.TREND_VAR, d.LOG_TREND_VAR)
        self.bounds = (d.INITVAL, d.ENDVAL, d.HISTVAL)

    def domain(self):
        b, d = self.b, self.dyn
        return [b.EOF, b.ID, b.NUMBER, b.STRING, b.FUNCTION, b.LPARE, b.RPARE, b.LBRACKET, b.RBRACKET, b.PLUS, b.MINUS, b.EQUALS, b.SEMI,
                b.COMMA, b.COLON, b.POUND, *self.types, d.TREND_VAR, d.MODEL, d.END, *self.bounds, d.SHOCKS, d.CORR, d.STDERR, d.PERIODS,
                d.STEADY]

    # -- words
    def word(self, p, *ts):
        try:
            if self.s.is_(p, *ts):
                return self.s.tok(p), (p[0], p[1] + 1)
        except IndexError:
            pass
        raise Refused()

    def is_(self, p, *ts):
        try:
            return self.s.is_(p, *ts)
        except IndexError:
            return False

    def sub(self, name, p):
        r = self.s.sub(name, p, lambda: self.make(name))
        if r is None:
            raise Refused()
        return r

    def make(self, name):
        a = self.ast
        if name == 'variable_type_declaration':
            return any_list(name)
        if name == 'model_expression':
            return a.ModelExpression(self.opaque(), self.opaque())
        if name in ('argument_list', 'tag_list'):
            r = a.CompoundASTList()
            r._list = any_list(name)
            return r
        return self.opaque()

    def opaque(self):
        c = type('AST', (tree.Opaque, self.ast.AST), {})
        r = object.__new__(c)
        r.__dict__.update(sem=None, leaf=None, probe=None, visits=0)
        return r

    def args(self, p):
        """-> predicate, position"""
        if self.is_(p, self.b.LPARE):
            r, q = self.sub('argument_list', p)
            return (lambda n: n is r), q
        return (lambda n: type(n) is self.ast.CompoundASTList and n._list == []), p

    # -- what nodes are
    def isvar(self, n, t):
        return type(n) is self.ast.Var and n.token is t and isinstance(n.value, Val) and n.value.tok is t

    def assigns(self, n, cls, t, r):
        return type(n) is getattr(self.ast, cls) and self.isvar(n.left, t) and n.right is r

    # -- rules without repetition
    def variable_assignment(self, p):
        t, p = self.word(p, self.b.ID)
        _, p = self.word(p, self.b.EQUALS)
        r, p = self.sub('expr', p)
        _, p = self.word(p, self.b.SEMI)
        return (lambda n: self.assigns(n, 'VarAssignment', t, r)), p

    def local_declaration(self, p):
        _, p = self.word(p, self.b.POUND)
        t, p = self.word(p, self.b.ID)
        _, p = self.word(p, self.b.EQUALS)
        r, p = self.sub('mexpr', p)
        return (lambda n: self.assigns(n, 'LocalModelDeclaration', t, r)), p

    def model_statement(self, p):
        b = self.b
        if self.is_(p, b.POUND):
            r, p = self.sub('local_declaration', p)
            ok = lambda n: n is r
        elif self.is_(p, b.LBRACKET):
            t, p = self.sub('tag_list', p)
            r, p = self.sub('model_expression', p)
            ok = lambda n: n is r
        else:
            r, p = self.sub('model_expression', p)
            ok = lambda n: n is r
        _, p = self.word(p, b.SEMI)
        return ok, p

    def model_definition(self, p):
        b, d = self.b, self.dyn
        _, p = self.word(p, d.MODEL)
        _, p = self.args(p)
        _, p = self.word(p, b.SEMI)
        m, p = self.sub('model', p)
        _, p = self.word(p, d.END)
        _, p = self.word(p, b.SEMI)
        return (lambda n: type(n) is self.ast.ModelDefinition and n.model is m), p

    def single_tag(self, p):
        t, p = self.word(p, self.b.ID)
        if self.is_(p, self.b.EQUALS):
            _, p = self.word(p, self.b.EQUALS)
            _, p = self.word(p, self.b.STRING)
        return (lambda n: type(n) is self.ast.Argument), p

    def single_argument(self, p):
        b = self.b
        t, p = self.word(p, b.ID)
        if self.is_(p, b.EQUALS):
            _, p = self.word(p, b.EQUALS)
            if self.is_(p, b.STRING, b.ID):
                _, p = self.word(p, b.STRING, b.ID)
            else:
                _, p = self.sub('expr', p)
        return (lambda n: type(n) is self.ast.Argument), p

    def optional_argument_list(self, p):
        return self.args(p)

    def shock(self, p):
        b, d = self.b, self.dyn
        if self.is_(p, d.CORR):
            kind, p = 'correlated', (p[0], p[1] + 1)
        else:
            _, p = self.word(p, d.VAR)
            kind = None
        x, p = self.word(p, b.ID)
        y = None
        if kind or self.is_(p, b.COMMA):
            kind = kind or 'covarying'
            _, p = self.word(p, b.COMMA)
            y, p = self.word(p, b.ID)
            _, p = self.word(p, b.EQUALS)
        elif self.is_(p, b.EQUALS):
            kind, p = 'variance', (p[0], p[1] + 1)
        else:
            _, p = self.word(p, b.SEMI)
            if self.is_(p, d.PERIODS):
                raise PathEnd()
            _, p = self.word(p, d.STDERR)
            kind = 'stderr'
        e, p = self.sub('expr', p)
        return (lambda n: type(n) is self.ast.StochasticShock and n.shock_type == kind and self.isvar(n.shock, x) and n.expr is e
                and (y is None or self.isvar(n.other, y))), p

    def model_file(self, p):
        v, p = self.sub('variable_preamble', p)
        m, p = self.sub('model_definition', p)
        a, p = self.sub('general_model_actions', p)
        if not self.is_(p, self.b.EOF):
            raise PathEnd()                             # the last part ends where the text ends
        return (lambda n: type(n) is self.ast.ModelFile and n.model_preamble is v and n.model_definition is m and n.model_actions is a), p


class Repeat:
    """the loop contract: from an arbitrary state (n items read, at an arbitrary place) a pass reads what the rules read there"""

    def __init__(self, c, g, rule):
        self.c, self.g, self.rule = c, g, rule
        self.used, self.mode = 0, None

    def parser(self, env):
        got = [v for v in env.values() if not isinstance(v, tree.Opaque) and 'current_token' in getattr(v, '__dict__', ())]
        if len(got) != 1:
            raise Unsupported('the parser')
        return got[0]

    def __call__(self, w, st, what, env):
        c, g = self.c, self.g
        if what == 'enter':
            self.used += 1
            if self.used > 1 or self.rule.step is None:
                raise Unsupported('a loop')
            pr = self.pr = self.parser(env)
            try:
                p = self.rule.head((0, 0))
            except Refused:
                c.goal(REFUSE, False, backend='evaluation', detail=f'{shape(g.s)}')
                raise PathEnd()
            if at(pr) != p:
                raise Unsupported('the repetition starts elsewhere')
            self.lists = []
            for n, v in sorted(env.items()):
                if type(v) is list and n in st.names:
                    s = Items(eng.fresh_int('n', 0), Earlier)
                    self.lists.append((n, list(v), s, zi(s.n)))
                    st.vals[n] = s
                elif isinstance(v, g.ast.AST) and not isinstance(v, tree.Opaque):
                    h = v._statements if isinstance(v, g.ast.Model) else v
                    if isinstance(h, g.ast.CompoundASTList) and type(h._list) is list and not any(h is x.__dict__.get('arguments') for x in env.values() if hasattr(x, '__dict__')):
                        s = Items(eng.fresh_int('n', 0), Earlier)
                        self.lists.append((h, list(h._list), s, zi(s.n)))
                        h._list = s
            for n in st.names:
                if n in env and n not in st.vals and not isinstance(env[n], g.ast.AST):
                    st.vals[n] = Poison()
            self.rule.start(self, env)
            q = self.q = g.s.base()
            goto(pr, q)
            self.mode = 'some'
            st.body, st.item = True, None
        elif what == 'leave':
            self.mode = 'pass'
            pr = self.pr
            try:
                nxt = self.rule.step(self.q)
            except Refused:
                nxt = None
                self.mode = 'bad'
            if nxt is None:
                c.goal(REFUSE if self.mode == 'bad' else ITEM, False, backend='evaluation', detail=f'a pass where there is no item: {shape(g.s)}')
                return
            effect, q = nxt
            c.goal(ITEM, at(pr) == q, backend='evaluation', detail=f'{at(pr)} for {q}: {shape(g.s)}')
            c.goal(ITEM, effect(self, env), backend='evaluation', detail=shape(g.s))

    # -- the state
    def unchanged(self, lst, env):
        h, first, s, n0 = lst
        now = env.get(h) if isinstance(h, str) else h._list
        return now is s and bool(self.c.entails(zi(s.n) == n0))

    def grown(self, lst, env, ok):
        h, first, s, n0 = lst
        now = env.get(h) if isinstance(h, str) else h._list
        if now is not s or not self.c.entails(zi(s.n) == n0 + 1):
            return False
        x = s.item(SI(n0))
        j = eng.fresh_int('j', 0)
        self.c.assume(zi(j) < n0)
        y = s.item(j)
        return not isinstance(x, Earlier) and bool(ok(x)) and isinstance(y, Earlier) and bool(self.c.entails(zi(y.k) == zi(j)))

    def one(self, ok):
        """exactly one list grows, by an item that is ok"""
        def effect(me, env):
            if len(me.lists) != 1:
                raise Unsupported('the list')
            return me.grown(me.lists[0], env, ok)
        return effect


class R_:
    """a rule that repeats"""
    first = 0

    def __init__(self, c, g):
        self.c, self.g = c, g

    def start(self, loop, env):
        self.loop = loop
        for h, first, s, n0 in loop.lists:
            self.c.goal('before the first pass nothing else has been read', len(first) == self.first, backend='evaluation')
            self.c.assume(n0 >= len(first))


class model(R_):
    def head(self, p):
        return p

    def step(self, q):
        if self.g.is_(q, self.g.dyn.END):
            return None
        r, q = self.g.sub('model_statement', q)
        return self.loop.one(lambda x: x is r), q

    def tail(self, q):
        return (lambda n: type(n) is self.g.ast.Model and len(self.loop.lists) == 1 and n._statements is self.loop.lists[0][0]
                and n._statements._list is self.loop.lists[0][2]), q


class listed(R_):
    """( item , item ... )"""
    first = 1

    def head(self, p):
        g = self.g
        _, p = g.word(p, self.open())
        _, p = g.sub(self.item, p)
        return p

    def step(self, q):
        g = self.g
        if not g.is_(q, g.b.COMMA):
            return None
        r, q = g.sub(self.item, (q[0], q[1] + 1))
        return self.loop.one(lambda x: x is r), q

    def tail(self, q):
        g = self.g
        _, q = g.word(q, self.close())
        return (lambda n: type(n) is g.ast.CompoundASTList and len(self.loop.lists) == 1 and n is self.loop.lists[0][0]), q


class argument_list(listed):
    item = 'single_argument'
    def open(self): return self.g.b.LPARE
    def close(self): return self.g.b.RPARE


class tag_list(listed):
    item = 'single_tag'
    def open(self): return self.g.b.LBRACKET
    def close(self): return self.g.b.RBRACKET


class boundary_values(R_):
    def head(self, p):
        g = self.g
        _, p = g.word(p, *g.bounds)
        _, p = g.args(p)
        _, p = g.word(p, g.b.SEMI)
        return p

    def step(self, q):
        g = self.g
        if g.is_(q, g.dyn.END):
            return None
        r, q = g.sub('variable_assignment', q)
        return self.loop.one(lambda x: x is r), q

    def tail(self, q):
        g = self.g
        _, q = g.word(q, g.dyn.END)
        _, q = g.word(q, g.b.SEMI)
        return (lambda n: type(n) is g.ast.ArgCompoundASTList and len(self.loop.lists) == 1 and n is self.loop.lists[0][0]), q


class shocks_block(R_):
    def head(self, p):
        g = self.g
        _, p = g.word(p, g.dyn.SHOCKS)
        _, p = g.args(p)
        _, p = g.word(p, g.b.SEMI)
        return p

    def step(self, q):
        g = self.g
        if not g.is_(q, g.dyn.VAR, g.dyn.CORR):
            return None
        r, q = g.sub('shock', q)
        _, q = g.word(q, g.b.SEMI)
        return self.loop.one(lambda x: x is r), q

    def tail(self, q):
        g = self.g
        _, q = g.word(q, g.dyn.END)
        _, q = g.word(q, g.b.SEMI)
        return (lambda n: type(n) is g.ast.ShocksBlock and len(self.loop.lists) == 1 and n is self.loop.lists[0][0]), q


class variable_type_declaration(R_):
    """`what` the list holds while it is filled: the variables, or their declarations"""
    what = 'Var'

    def head(self, p):
        g = self.g
        if g.is_(p, g.dyn.TREND_VAR):
            raise PathEnd()
        t, p = g.word(p, *g.types)
        self.t = t
        return p

    def step(self, q):
        g = self.g
        if g.is_(q, g.b.COMMA):
            q = (q[0], q[1] + 1)
            t, q = g.word(q, g.b.ID)
        elif g.is_(q, g.b.ID):
            t, q = g.word(q, g.b.ID)
        else:
            return None

        def ok(x):
            if type(x) is g.ast.VarDeclaration:
                if self.what == 'Var':
                    raise eng.NotThisWay('declarations are listed')
                return x.vtype is self.t and g.isvar(x.var_node, t)
            if self.what != 'Var':
                raise eng.NotThisWay('variables are listed')
            return g.isvar(x, t)
        return self.loop.one(ok), q

    def tail(self, q):
        g = self.g
        _, q = g.word(q, g.b.SEMI)

        def ok(n):
            h, first, s, n0 = self.loop.lists[0]
            if len(self.loop.lists) != 1 or not isinstance(n, Seq) or not self.c.entails(zi(n.n) == n0):
                return False
            j = eng.fresh_int('j', 0)
            self.c.assume(zi(j) < n0)
            x = n.item(j)
            if self.what != 'Var':
                return n is s
            return type(x) is g.ast.VarDeclaration and x.vtype is self.t and isinstance(x.var_node, Earlier) and bool(self.c.entails(zi(x.var_node.k) == zi(j)))
        return ok, q


class declarations(variable_type_declaration):
    what = 'VarDeclaration'


class variable_preamble(R_):
    def head(self, p):
        return p

    def step(self, q):
        g = self.g
        if g.is_(q, g.dyn.MODEL):
            return None
        if g.is_(q, g.b.ID):
            r, q = g.sub('variable_assignment', q)

            def effect(loop, env):
                hs = self.two(loop)
                return loop.unchanged(hs[0], env) and loop.grown(hs[1], env, lambda x: x is r)
            return effect, q
        if g.is_(q, *g.types, g.dyn.TREND_VAR):
            if g.is_(q, g.dyn.TREND_VAR):
                raise PathEnd()
            r, q = g.sub('variable_type_declaration', q)

            def effect(loop, env):
                hs = self.two(loop)
                if not loop.unchanged(hs[1], env):
                    return False
                h, first, s, n0 = hs[0]
                now = env.get(h) if isinstance(h, str) else h._list
                c = self.c
                if now is not s or not c.entails(zi(s.n) == n0 + zi(r.n)):
                    return False
                j = eng.fresh_int('j', 0)
                if c.choose(2):
                    c.assume(zi(j) < n0)
                    y = s.item(j)
                    return isinstance(y, Earlier) and bool(c.entails(zi(y.k) == zi(j)))
                c.assume(z3.And(zi(j) >= n0, zi(j) < n0 + zi(r.n)))
                y = s.item(j)
                return isinstance(y, tuple) and y[:2] == ('of', 'variable_type_declaration') and bool(c.entails(zi(y[2]) == zi(j) - n0))
            return effect, q
        raise Refused()

    def two(self, loop):
        """the list of declarations, then that of assignments: by the code's own use of them"""
        if len(loop.lists) != 2:
            raise Unsupported('the lists')
        if self.order is None:
            raise Unsupported('the lists')
        return [loop.lists[i] for i in self.order]
    order = (0, 1)

    def tail(self, q):
        g = self.g

        def ok(n):
            if type(n) is not g.ast.VariablePreamble:
                return False
            hs = self.two(self.loop)
            return self.is_list(n.variables, hs[0]) and self.is_list(n.parameters, hs[1])
        return ok, q

    def is_list(self, x, lst):
        h, first, s, n0 = lst
        return isinstance(x, self.g.ast.CompoundASTList) and x._list is s and bool(self.c.entails(zi(s.n) == n0))


class preamble_swapped(variable_preamble):
    order = (1, 0)


class general_model_actions(R_):
    def head(self, p):
        return p

    def start(self, loop, env):
        self.loop = loop
        g = self.g
        acts = [v for v in env.values() if type(v) is g.ast.ModelActions]
        if len(acts) != 1 or loop.lists:
            raise Unsupported('what has been read')
        a = self.acts = acts[0]
        b = a.boundaries
        self.c.goal('before the first pass nothing else has been read', a.shocks is None and b.initval is None and b.endval is None and b.histval is None,
                    backend='evaluation')
        a.shocks, b.initval, b.endval, b.histval = (Earlier(k) for k in range(4))
        self.was = self.state()

    def state(self):
        a = self.acts
        return {'shocks': a.shocks, 'initval': a.boundaries.initval, 'endval': a.boundaries.endval, 'histval': a.boundaries.histval}

    def step(self, q):
        g, d = self.g, self.g.dyn
        if g.is_(q, g.b.EOF):
            return None
        for t in (*g.bounds, d.SHOCKS):
            if g.is_(q, t):
                r, q = g.sub('shocks_block' if t == d.SHOCKS else 'boundary_values', q)
                key = {d.SHOCKS: 'shocks', d.INITVAL: 'initval', d.ENDVAL: 'endval', d.HISTVAL: 'histval'}[t]

                def effect(loop, env):
                    now = self.state()
                    return all(now[k] is (r if k == key else self.was[k]) for k in now)
                return effect, q
        raise PathEnd()

    def tail(self, q):
        return (lambda n: n is self.acts and self.state() == self.was), q


REPS = {k.__name__: k for k in (model, argument_list, tag_list, boundary_values, shocks_block, variable_type_declaration, variable_preamble,
                                general_model_actions)}
ONCE = ('variable_assignment', 'local_declaration', 'model_statement', 'model_definition', 'single_tag', 'single_argument', 'shock', 'model_file')


def shape(s):
    return ' '.join(f'{p}:{str(t._t)}' for p, t in sorted(s.toks.items())) + ' | ' + ' '.join(f'{k[0]}@{k[1]}->{"refused" if v is None else v[1]}' for k, v in s.subs.items())


def setup(c, name, rule=None):
    hold = {}
    w = load.World(MODS, whiles=('*',), loops={'*': lambda *a: hold['h'](*a)}, shim=False, glob={'len': npshim.pv_len, 'list': npshim.pv_list})
    s = Stream((), eager=True)
    g = Rules(c, w, s)
    s.domain, s.eof = g.domain(), g.b.EOF
    cls = w[f'{PAR}:DynareParser']
    f = getattr(cls, name, None)
    if f is None:
        raise Unsupported(f'{name} is not there any more')

    pre = {'boundary_values': g.bounds, 'variable_type_declaration': g.types + (g.dyn.TREND_VAR,)}
    if name in pre:
        s.after[0, 0] = [t for t in s.domain if t not in pre[name]]

    def contract(meth):
        def run(parser, *a, **k):
            if a or k:
                raise Unsupported('arguments of a parser')
            p = at(parser)
            if p is None:
                raise Unsupported('the parser and its lexer disagree')
            if meth in pre:
                c.goal('a block is read where it starts', g.is_(p, *pre[meth]), backend='evaluation', detail=shape(s))
            r = s.sub(meth, p, lambda: g.make(meth))
            if r is None:
                raise w.mods[PAR].PynareSyntaxError(parser.current_token)
            goto(parser, r[1])
            return r[0]
        return run
    for m in (*REPS, *ONCE, 'expr', 'mexpr', 'model_expression'):
        if m != name and hasattr(cls, m) and not (name == 'parse' and m == 'model_file'):
            setattr(cls, m, contract(m))
    pr = object.__new__(cls)
    pr.lexer, pr.string = Lexer(s), ''
    pr.current_token = pr.lexer.get_next_token()
    return w, s, g, pr, f, hold


def run(f, pr):
    try:
        return f(pr), None
    except Exception as ex:
        return None, eng.fair(ex)


def judge(c, g, pr, want, n, err):
    if want is None:
        c.goal(REFUSE, err is not None, backend='evaluation', detail=f'accepted: {shape(g.s)}')
        return
    c.goal('what is in the language is accepted', err is None, backend='evaluation', detail=f'{type(err).__name__} {err} on {shape(g.s)}')
    if err is None:
        c.goal('the text is taken up to its end', at(pr) == want[1], backend='evaluation', detail=f'{at(pr)} for {want[1]}: {shape(g.s)}')
        c.goal(READ, bool(want[0](n)), backend='evaluation', detail=shape(g.s))


def once(name, c):
    w, s, g, pr, f, hold = setup(c, name)

    def read():
        try:
            return getattr(g, 'model_file' if name == 'parse' else name)((0, 0))
        except Refused:
            return None

    def no(*a):
        read()                                          # outside the sub-language: nothing is claimed
        raise Unsupported('a loop')
    hold['h'] = no
    n, err = run(f, pr)
    want = read()
    judge(c, g, pr, want, n, err)


def repeat(name, cls, c):
    w, s, g, pr, f, hold = setup(c, name)
    rule = cls(c, g)
    h = hold['h'] = Repeat(c, g, rule)
    n, err = run(f, pr)
    if not h.used:
        # before the repetition
        try:
            rule.head((0, 0))
        except Refused:
            c.goal(REFUSE, err is not None, backend='evaluation', detail=f'accepted: {shape(s)}')
            return
        c.goal('what is in the language is accepted', False, backend='evaluation', strict=err is not None, detail=f'{type(err).__name__} {err} on {shape(s)}')
        return
    try:
        if rule.step(h.q) is not None:
            # an item has been left, or the end of the pass has not been reached
            c.goal('what is in the language is accepted', err is None, backend='evaluation', detail=f'{type(err).__name__} {err} on {shape(s)}')
            if err is None:
                c.goal(ITEM, False, backend='evaluation', detail=f'an item is left unread: {shape(s)}')
            return
        want = rule.tail(h.q)
    except Refused:
        want = None
    judge(c, g, pr, want, n, err)


def units(which=None):
    P = functools.partial
    out = []
    for n in ONCE + ('parse', 'optional_argument_list'):
        out.append((n, Unit(f'{PAR}.DynareParser.{n}', P(once, n), [READ, REFUSE])))
    for n, k in REPS.items():
        gs = [ITEM] + ([READ] if n else [])
        if n == 'variable_type_declaration':
            u = eng.Either(f'{PAR}.DynareParser.{n}', [P(repeat, n, k), P(repeat, n, declarations)], gs)
        elif n == 'variable_preamble':
            u = eng.Either(f'{PAR}.DynareParser.{n}', [P(repeat, n, k), P(repeat, n, preamble_swapped)], gs)
        else:
            u = Unit(f'{PAR}.DynareParser.{n}', P(repeat, n, k), gs)
        out.append((n, u))
    return [u for n, u in out if which is None or n in which]
