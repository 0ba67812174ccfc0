"""the expression grammar: every parsing method of parsing/parser.py against the conventional reading"""
import functools
from pv import eng, load, npshim, tree
from pv.eng import Unit, Unsupported, PathEnd
from pv.toks import Stream, Lexer, Tok, Lazy, Refused, Val, at, goto
from pv.tree import RV, rv, fun, R
z3 = eng.z3

MODS = ['pynare.parsing.ast', 'pynare.parsing.base', 'pynare.parsing.lexer', 'pynare.parsing.parser']
PAR = 'pynare.parsing.parser'


class Grammar:
    """the conventional reading, written as rules over positions; `m` is the prefix of the methods for model equations"""

    def __init__(self, w, s, model):
        self.w, self.s, self.model = w, s, model
        self.b = w.mods['pynare.parsing.base']
        self.ast = w.mods['pynare.parsing.ast']
        b = self.b
        self.add, self.mul, self.comp = (b.PLUS, b.MINUS), (b.MUL, b.DIV), (b.LT, b.LTOE, b.GT, b.GTOE, b.EQUALITY)
        # what cannot follow: a longer operand would have been read
        self.never = {'exponent': (b.POWER,), 'term': (b.POWER, *self.mul), 'expr': (b.POWER, *self.mul, *self.add),
                      'call': (), 'atom': (), 'comp_expr': (), 'model_expression': ()}
        self.rank = ['atom', 'call', 'exponent', 'term', 'expr', 'comp_expr', 'model_expression']

    def domain(self):
        b = self.b
        return [b.EOF, b.ID, b.NUMBER, b.FUNCTION, b.LPARE, b.RPARE, b.PLUS, b.MINUS, b.MUL, b.DIV, b.POWER, *self.comp,
                b.EQUALS, b.SEMI, b.COMMA, 'another']

    # -- values
    def num(self, t):
        return RV(z3.Real(f'number_{t.pos}'))

    def var(self, t, date=None):
        if date is None:
            return RV(fun('now', z3.Real(f'name_{t.pos}')))
        sign, off = date
        # a number of periods ahead, or back: the sign decides
        return RV(fun('lead', z3.Real(f'name_{t.pos}'), z3.Real(f'number_{off.pos}'), z3.RealVal(1 if self.plus(sign) else -1)))

    def plus(self, t):
        return t._t.is_(self.b.PLUS)

    def binary(self, t, x, y):
        b = self.b
        for ty, f in ((b.PLUS, lambda: x + y), (b.MINUS, lambda: x - y), (b.MUL, lambda: x * y), (b.DIV, lambda: x / y),
                      (b.POWER, lambda: x ** y)):
            if t._t.is_(ty):
                return f()
        raise Unsupported('an operator')

    def compare(self, t, x, y):
        b = self.b
        i = [t._t.is_(k) for k in self.comp].index(True)
        return [x < y, x <= y, x > y, x >= y, x == y][i]

    def call_(self, t, x):
        return RV(z3.Function('apply', R, R, R)(z3.Real(f'function_{t.pos}'), x.e))

    def value(self, n):
        """the value of a tree that the code has built (pv's own reading of the node classes)"""
        a = self.ast
        if isinstance(n, tree.Opaque):
            return n.__dict__['sem']
        c = type(n)
        if c is a.Num:
            if isinstance(n.value, Val):
                self.only(n.token is n.value.tok)
                return self.num(n.value.tok)
            return RV(rv(n.value))
        if c is a.Var:
            self.only(isinstance(n.value, Val) and n.value.tok is n.token)
            return self.var(n.value.tok)
        if c is Dated:
            return self.var(n.var.value.tok, (n.direction, n.offset))
        if c is a.BinaryOp:
            return self.binary(n.op, self.value(n.left), self.value(n.right))
        if c is a.CompOp:
            return self.compare(n.op, self.value(n.left), self.value(n.right))
        if c is a.UnaryOp:
            x = self.value(n.expr)
            return x if self.plus(n.op) else -x
        if c is a.Function:
            self.only(isinstance(n.value, Val) and n.value.tok is n.token)
            return self.call_(n.token, self.value(n.expr))
        if c is a.ModelExpression:
            return self.value(n.left) - self.value(n.right)
        raise Unsupported(f'a {c.__name__}')

    def only(self, ok):
        if not ok:
            raise Unsupported('the text of a node')

    # -- rules: (value, end) or Refused
    def sub(self, name, p):
        r = self.s.sub(self.pre + name if name not in ('comp_expr', 'model_expression') else name, p,
                       lambda: opaque(self.ast), self.never[name])
        if r is None:
            raise Refused()
        return r[0].__dict__['sem'], r[1]

    @property
    def pre(self):
        return 'm' if self.model else ''

    def need(self, p, t):
        try:
            if self.s.is_(p, t):
                return (p[0], p[1] + 1)
        except IndexError:
            pass
        raise Refused()

    def atom(self, p):
        b, s = self.b, self.s
        t, n = s.tok(p), (p[0], p[1] + 1)
        if t._t.is_(b.ID):
            if self.model and s.is_(n, b.LPARE):
                q = (n[0], n[1] + 1)
                sign = s.tok(q)
                if not sign._t.is_(b.PLUS, b.MINUS):
                    raise Refused()
                q = (q[0], q[1] + 1)
                e = self.need(q, b.NUMBER)
                e = self.need(e, b.RPARE)
                return self.var(t, (sign, s.tok(q))), e
            return self.var(t), n
        if t._t.is_(b.NUMBER):
            return self.num(t), n
        if t._t.is_(b.LPARE):
            x, q = self.sub('expr', n)
            return x, self.need(q, b.RPARE)
        if t._t.is_(b.PLUS, b.MINUS):
            x, q = self.sub('exponent', n)
            return (x if self.plus(t) else -x), q
        raise Refused()

    def call(self, p):
        b, s = self.b, self.s
        t = s.tok(p)
        if t._t.is_(b.FUNCTION):
            q = self.need((p[0], p[1] + 1), b.LPARE)
            x, q = self.sub('expr', q)
            return self.call_(t, x), self.need(q, b.RPARE)
        return self.sub('atom', p)

    def start(self, name, p):
        """the first operand"""
        return self.sub({'exponent': 'call', 'term': 'exponent', 'expr': 'term'}[name], p)

    def step(self, name, x, p):
        """one more operand, if there is one: (value, position)"""
        ops, arg = {'exponent': ((self.b.POWER,), 'exponent'), 'term': (self.mul, 'exponent'), 'expr': (self.add, 'term')}[name]
        t = self.s.tok(p)
        if not t._t.is_(*ops):
            return None
        y, q = self.sub(arg, (p[0], p[1] + 1))
        return self.binary(t, x, y), q

    def comp_expr(self, p):
        x, q = self.sub('expr', p)
        t = self.s.tok(q)
        if t._t.is_(*self.comp):
            y, q = self.sub('expr', (q[0], q[1] + 1))
            x = self.compare(t, x, y)
        return x, q

    def model_expression(self, p):
        x, q = self.sub('expr', p)
        if self.s.is_(q, self.b.EQUALS):
            y, q = self.sub('expr', (q[0], q[1] + 1))
            x = x - y
        return x, q


class Dated:
    """stands for ast.PeriodVar: the variable, the sign and the number of periods"""

    def __init__(self, var, direction, offset):
        self.var, self.direction, self.offset = var, direction, offset


def opaque(ast):
    c = type('AST', (tree.Opaque, ast.AST), {})
    r = object.__new__(c)
    r.__dict__.update(sem=tree.fresh_value('operand'), leaf=None, probe=None, visits=0)
    return r


class Loop:
    """the contract of a loop that collects operands: what has been read so far is (value, position) and the rules lead from the
    first operand to it; each pass leads on by the rules"""

    def __init__(self, c, g, name):
        self.c, self.g, self.name, self.now = c, g, name, None
        self.used = 0

    def node(self, env, names):
        got = [n for n in names if isinstance(env.get(n), self.g.ast.AST)]
        if len(got) > 1:
            raise Unsupported('the loop carries more than one tree')
        return got[0] if got else None

    def parser(self, env):
        got = [v for v in env.values() if not isinstance(v, tree.Opaque) and 'current_token' in getattr(v, '__dict__', ())]
        if len(got) != 1 or at(got[0]) is None:
            raise Unsupported('the parser')
        return got[0]

    def __call__(self, w, st, what, env):
        g, c = self.g, self.c
        if what == 'enter':
            self.used += 1
            if self.used > 1 or self.name not in ('exponent', 'term', 'expr'):
                raise Unsupported('a loop')
            v = self.v = self.node(env, st.names)
            if v is None:
                # nothing is carried from one pass to the next: a loop that does not come round
                st.body, st.item = True, None
                return
            pr = self.parser(env)
            try:
                first = g.start(self.name, (0, 0))
            except Refused:
                raise Unsupported('the first operand')
            if at(pr) != first[1] or not c.entails(tree.same_value(g.value(env[v]), first[0])):
                raise Unsupported('the loop starts elsewhere')
            for n in st.names:
                if n in env and n != v:
                    from pv.contracts.common import Poison
                    st.vals[n] = Poison()
            q = g.s.base()
            if g.name_ends(self.name):
                # before the first pass an operand has been read
                g.s.after[q] = g.never[{'term': 'exponent', 'expr': 'term'}[self.name]]
            o = opaque(g.ast)
            goto(pr, q)
            st.vals[v] = o
            self.now, self.v, self.pr = (o.__dict__['sem'], q), v, pr
            st.body, st.item = True, None
        elif what == 'leave':
            if self.v is None:
                raise Unsupported('a loop that carries no tree')
            try:
                nxt = g.step(self.name, *self.now)
            except Refused:
                nxt = None
            ok = nxt is not None and at(self.pr) == nxt[1]
            c.goal('a pass reads one more operand', ok, backend='evaluation')
            if ok:
                c.prove('operands are put together from the left', tree.same_value(g.value(env[self.v]), nxt[0]))

    def exit(self):
        pass


def name_ends(self, name):
    return name in ('term', 'expr')


Grammar.name_ends = name_ends

RULES = {'atom': 'atom', 'call': 'call', 'exponent': 'exponent', 'term': 'term', 'expr': 'expr', 'comp_expr': 'comp_expr'}


def setup(c, name, model, whiles=True):
    hold = {}
    w = load.World(MODS, whiles=('*',) if whiles else (), loops={'*': lambda *a: hold['h'](*a)}, shim=False)
    tree_cls = w.mods['pynare.parsing.ast']
    tree_cls.PeriodVar = Dated
    Dated.__bases__ = (object,)
    s = Stream(())
    g = Grammar(w, s, model)
    s.domain = g.domain()
    s.eof = g.b.EOF
    hold['h'] = Loop(c, g, name)
    cls = w[f'{PAR}:{"DynareParser" if model else "BaseParser"}']
    pre = 'm' if model else ''
    depth = {'n': 0}

    def contract(rule, meth):
        def run(parser, *a, **k):
            if a or k:
                raise Unsupported('arguments of a parser')
            p = at(parser)
            if p is None:
                raise Unsupported('the parser and its lexer disagree')
            if p == (0, 0) and g.rank.index(rule) >= g.rank.index(name):
                raise Unsupported('a parser called where it started')
            r = s.sub(meth, p, lambda: opaque(g.ast), g.never[rule])
            if r is None:
                raise g.w.mods[PAR].PynareSyntaxError(parser.current_token)
            goto(parser, r[1])
            return r[0]
        return run
    meths = [(r, pre + r) for r in ('atom', 'call', 'exponent', 'term', 'expr')] + [('comp_expr', 'comp_expr'), ('model_expression', 'model_expression')]
    me = name if name in ('comp_expr', 'model_expression') else pre + name
    f = getattr(cls, me, None)
    if f is None:
        raise Unsupported(f'{me} is not there any more')
    for r, m in meths:
        if hasattr(cls, m):
            setattr(cls, m, contract(r, m))
    pr = object.__new__(cls)
    pr.lexer = Lexer(s)
    pr.string = ''
    pr.current_token = pr.lexer.get_next_token()
    return w, s, g, pr, f, hold['h']


def rule(name, model, c):
    w, s, g, pr, f, loop = setup(c, name, model)
    what = 'the text is read the conventional way'
    try:
        n = f(pr)
        err = None
    except Exception as ex:
        err = eng.fair(ex)
    # the rules
    try:
        if name in ('exponent', 'term', 'expr'):
            want = loop.now if loop.now is not None else g.start(name, (0, 0))
            nxt, k = g.step(name, *want), 0
            while nxt is not None and k < 3 and err is None and at(pr) != want[1]:
                want, k = nxt, k + 1
                nxt = g.step(name, *want)
            if nxt is not None:
                # more operands than the code has read, on this path
                c.goal(what, False, backend='evaluation', detail='an operand is left unread')
                return
        else:
            want = getattr(g, name)((0, 0))
        bad = None
    except (Refused, IndexError) as ex:
        want = None
    if want is None:
        c.goal('what is not in the language is refused', err is not None, backend='evaluation', detail=f'accepted {shape(s)}')
        return
    c.goal('what is in the language is accepted', err is None, backend='evaluation', detail=f'{type(err).__name__} {err} on {shape(s)}')
    if err is not None:
        return
    p = at(pr)
    c.goal('the text is taken up to its end', p == want[1], backend='evaluation', detail=f'{p} for {want[1]}: {shape(s)}')
    c.prove(what, tree.same_value(g.value(n), want[0]), detail=shape(s))
    if p is not None and name in g.never:
        c.goal('no operand is left unread', not any(t in s.tok(p)._t.domain for t in g.never[name]), backend='evaluation', detail=shape(s))


def shape(s):
    return ' '.join(f'{p}:{str(t._t)}' for p, t in sorted(s.toks.items())) + ' | ' + ' '.join(f'{k[0]}@{k[1]}->{"refused" if v is None else v[1]}' for k, v in s.subs.items())


def units():
    out = []
    for model in (False, True):
        pre = 'm' if model else ''
        cls = 'DynareParser' if model else 'BaseParser'
        for n in ('atom', 'call', 'exponent', 'term', 'expr'):
            out.append(Unit(f'{PAR}.{cls}.{pre}{n}', functools.partial(rule, n, model), ['the text is read the conventional way', 'what is not in the language is refused']))
    out.append(Unit(f'{PAR}.BaseParser.comp_expr', functools.partial(rule, 'comp_expr', False), ['the text is read the conventional way', 'what is not in the language is refused']))
    out.append(Unit(f'{PAR}.DynareParser.model_expression', functools.partial(rule, 'model_expression', True), ['the text is read the conventional way', 'what is not in the language is refused']))
    return out


# ---------------------------------------------------------------- from the text to the value
def whole(cls, rule_, c):
    """the entry points take the whole text"""
    w, s, g, pr, f, loop = setup(c, rule_, rule_ == 'model_expression')
    if cls == 'ExprParser':
        w2 = load.World(['pynare.core.expressions'], shim=False)
        g.ast.AST  # noqa
        entry = w2['pynare.core.expressions:ExprParser'].__dict__.get('parse')
        if entry is None:
            raise Unsupported('parse is not there any more')
    else:
        entry = getattr(w[f'{PAR}:{cls}'], 'parse')
    # the rule itself is a contract here
    from pv.toks import goto as go

    def contract(parser):
        p = at(parser)
        r = s.sub(rule_, p, lambda: opaque(g.ast), g.never[rule_])
        if r is None:
            raise g.w.mods[PAR].PynareSyntaxError(parser.current_token)
        go(parser, r[1])
        return r[0]
    setattr(type(pr), rule_, contract)
    try:
        n, err = entry(pr), None
    except Exception as ex:
        n, err = None, eng.fair(ex)
    r = s.sub(rule_, (0, 0), lambda: opaque(g.ast), g.never[rule_])
    good = r is not None
    if good:
        q = r[1]
        if rule_ == 'model_expression' and s.is_(q, g.b.SEMI):
            q = (q[0], q[1] + 1)
        good = s.is_(q, g.b.EOF)
    c.goal('text that is not an expression is refused', good or err is not None, backend='evaluation', detail=shape(s))
    c.goal('an expression is accepted', not good or err is None, backend='evaluation', detail=f'{type(err).__name__} {err} on {shape(s)}')
    if good and err is None:
        c.goal('the whole text is what is returned', n is r[0], backend='evaluation', detail=shape(s))


class Recorder:
    pass


def glue(c):
    """parse_string, evaluate: text, notation and assignment are handed on as they are"""
    w = load.World(MODS + ['pynare.parsing.api'], shim=False)
    api = w.mods['pynare.parsing.api']
    seen = {}
    ast_ = w.mods['pynare.parsing.ast']

    class Parser:
        def __init__(self, obj, exp='standard'):
            seen['parser'] = (obj, exp)

        def parse(self):
            return opaque(ast_)

    def evaluator(tree=None, scope=None):
        seen['eval'] = (tree, scope)
        return seen.setdefault('value', Recorder())
    api.BaseParser, api.BaseEvaluator = Parser, evaluator
    text, scope = tree.fresh_name('text'), tree.PDict()
    exp = ('standard', 'python')[c.choose(2)]
    k = c.choose(4)
    if k == 0:
        r = api.parse_string(text, exp) if c.choose(2) else api.parse_string(text, exp=exp)
        c.goal('the text is parsed in the notation asked for', seen['parser'] == (text, exp) and isinstance(r, tree.Opaque), backend='evaluation')
    elif k == 1:
        r = api.evaluate(text, scope, exp) if c.choose(2) else api.evaluate(text, scope=scope, exp=exp)
        c.goal('the text is parsed in the notation asked for', seen['parser'] == (text, exp), backend='evaluation')
        c.goal('its tree is evaluated under the assignment given', isinstance(seen['eval'][0], tree.Opaque) and seen['eval'][1] is scope
               and r is seen['value'], backend='evaluation')
    elif k == 2:
        t = opaque(ast_)
        r = api.evaluate(t, scope)
        c.goal('its tree is evaluated under the assignment given', seen['eval'][0] is t and seen['eval'][1] is scope and r is seen['value']
               and 'parser' not in seen, backend='evaluation')
    else:
        api.parse_string(text)
        c.goal('the usual notation is the default', seen['parser'] == (text, 'standard'), backend='evaluation')


def start(c):
    """a parser starts at the first word of its text"""
    from pv.seqs import Seq
    from pv.contracts.c02 import Nth
    w = load.World(MODS + ['pynare.core.expressions'], shim=False, glob={'len': npshim.pv_len})
    made = []
    n = eng.fresh_int('words', 1)

    def contract(lx):
        lx.token_pos, lx.token_stream = 0, Seq(n, Nth)
    lex = w.mods['pynare.parsing.lexer']
    lex.BaseLexer.tokenize = contract
    for cls in (lex.BaseLexer, lex.DynareLexer):
        init = cls.__init__

        def patched(self, *a, _i=init, **k):
            made.append((type(self).__name__, a, k))
            _i(self, *a, **k)
        cls.__init__ = patched
    exp = ('standard', 'python')[c.choose(2)]
    k = c.choose(4)
    if k == 0:
        p = w[f'{PAR}:BaseParser']('some text', exp=exp)
        want = ('some text', exp)
    elif k == 1:
        p = w[f'{PAR}:BaseParser'](lex.BaseLexer('some text', exp=exp))
        want = ('some text', exp)
    elif k == 2:
        p = w[f'{PAR}:DynareParser'](lex.DynareLexer('some text'))
        want = ('some text', 'standard')
    else:
        p = w['pynare.core.expressions:ExprParser']('some text')
        want = ('some text', 'standard')
    c.goal('the text is read by the right scanner', isinstance(p.lexer, lex.DynareLexer if k > 1 else lex.BaseLexer)
           and type(p.lexer) is (lex.DynareLexer if k > 1 else lex.BaseLexer) and p.lexer.text == want[0] and p.lexer.exp == want[1], backend='evaluation')
    c.goal('parsing starts at the first word', isinstance(p.current_token, Nth) and c.entails(eng.zi(p.current_token.i) == 0)
           and c.entails(eng.zi(p.lexer.token_pos) == 1), backend='evaluation')


def period(c):
    """PeriodVar: a name, a sign and a number of periods"""
    w = load.World(MODS, shim=False)
    b, a = w.mods['pynare.parsing.base'], w.mods['pynare.parsing.ast']
    class Whole(float):
        pass
    name = tree.fresh_name('x')
    v = a.Var(b.Token(b.ID, name))
    for k in range(0, 60):
        for sign, ty, want in (('+', b.PLUS, k), ('-', b.MINUS, -k)):
            p = a.PeriodVar(v, b.Token(ty, sign), b.Token(b.NUMBER, float(k)))
            c.goal('x(+k) is dated k periods ahead, x(-k) k periods back (k < 60)', p.period_offset == want and p.value is name, backend='evaluation')


def entries():
    P = functools.partial
    g = ['text that is not an expression is refused', 'the whole text is what is returned']
    return [Unit(f'{PAR}.BaseParser.parse', P(whole, 'BaseParser', 'comp_expr'), g),
            Unit('pynare.core.expressions.ExprParser.parse', P(whole, 'ExprParser', 'model_expression'), g),
            Unit('pynare.parsing.api.parse_string, evaluate', glue, ['the text is parsed in the notation asked for',
                                                                      'its tree is evaluated under the assignment given']),
            Unit(f'{PAR}.BaseParser.__init__, DynareParser.__init__, ExprParser.__init__', start, ['parsing starts at the first word']),
            Unit('pynare.parsing.ast.PeriodVar.__init__', period, ['x(+k) is dated k periods ahead, x(-k) k periods back (k < 60)'])]
