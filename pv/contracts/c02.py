"""reading a text: parsing/lexer.py over an arbitrary finite text"""
import functools
from pv import eng, load, npshim
from pv.eng import Unit, Unsupported, PathEnd, SI, zi
from pv.chars import Text, Ch, Pos, Span, Num, Any, Word, Table, topos, ALL
z3 = eng.z3

LEVEL = 'proof'
MODS = ['pynare.parsing.ast', 'pynare.parsing.base', 'pynare.parsing.dynare', 'pynare.parsing.lexer']
LX = 'pynare.parsing.lexer'
ASSUMES = [
    'characters: all 128 ASCII characters one by one, the others by the answers of the str predicates (isspace, isalpha, ...)',
    'float(text) is the number the text spells, ValueError when it spells none; the same text always gives the same answer',
    'line and column numbers are outside the contract (they occur in messages only; that they decide nothing is checked)',
    'a text is finite: a scan whose every pass moves on by at least one character ends',
]
TRUSTED = ['str predicates and float() of CPython']

OPS2 = {'<=': '<=', '>=': '>=', '==': '=='}
OPS1 = {',': ',', ';': ';', ':': ':', '#': '#', '&': '&', '|': '|', '@': '@', '!': '!', '~': '~', '<': '<', '>': '>', '\\': '\\',
        '+': 'PLUS', '-': 'MINUS', '*': 'MUL', '/': 'DIV', '(': '(', ')': ')', '[': '[', ']': ']', '{': '{', '}': '}',
        '=': 'EQUALS', '%': '%'}
FUNC = ('exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'max', 'min', 'normcdf',
        'normpdf', 'erf')


class Refused(Exception):
    pass


# scans: does it go on over character c (followed by d)?  c is None at the end
SCANS = {
    'line': lambda c, d: c is not None and c != '\n',
    'block': lambda c, d: c is not None and not (c == '*' and d == '/'),
    'name': lambda c, d: c is not None and (c.isalnum() or c == '_'),
    'number': lambda c, d: c is not None and (c.isdigit() or c == '.'),
    "string'": lambda c, d: c is not None and c != "'",
    'string"': lambda c, d: c is not None and c != '"',
}


def comment(c, d):
    return c is not None and (c == '%' or (c == '/' and (d == '/' or d == '*')))


class Spec:
    """the words of a text: the state machine of the statement, over positions"""

    def __init__(self, text, mode):
        self.t, self.mode = text, mode
        self.model = mode == 'model'
        self.reach, self.on = {}, {}

    def ch(self, p, k=0):
        return self.t.at(Pos(p.b, p.o + k))

    def cont(self, kind, p):
        c = self.ch(p)
        d = self.ch(p, 1) if kind == 'block' and c is not None and c == '*' else None
        return SCANS[kind](c, d)

    def scan(self, kind, p):
        fuel = 4
        while True:
            f = self.on.get((kind, p.key()))
            if f is not None:
                p = f
                continue
            if not self.cont(kind, p):
                return p
            p = p + 1
            fuel -= 1
            if fuel == 0:
                # nothing is known beyond: the end of the scan is somewhere
                q = self.t.fresh()
                self.on[kind, p.key()] = q
                if self.cont(kind, q):
                    raise PathEnd()
                return q

    def step(self, p):
        """one piece of layout, or None"""
        c = self.ch(p)
        if c is None:
            return None
        if c.isspace():
            return p + 1
        if self.model:
            if c == '%':
                return self.scan('line', p)
            if c == '/':
                d = self.ch(p, 1)
                if d is None:
                    return None
                if d == '/':
                    return self.scan('line', p)
                if d == '*':
                    q = self.scan('block', p + 2)
                    return q if self.ch(q) is None else q + 2
        return None

    def layout(self, p):
        fuel = 6
        while fuel:
            q = self.reach.get(p.key())
            if q is not None:
                p = q
                continue
            q = self.step(p)
            if q is None:
                return p
            p = q
            fuel -= 1
        q = self.t.fresh()
        if self.step(q) is not None:
            raise PathEnd()
        return q

    def leads(self, p, q, strictly=True):
        """layout, and nothing else, lies between p and q"""
        if not strictly and self.t.same(p, q):
            return True
        for k in range(6):
            r = self.reach.get(p.key())
            if r is not None:
                p = r
            else:
                p = self.step(p)
                if p is None:
                    return False
            if self.t.same(p, q):
                return True
        return False

    # -- words: (kind, value, end)
    def word(self, p):
        p = self.layout(p)
        c = self.ch(p)
        if c is None:
            return ('EOF', None, p)
        if c.isalpha() or (not self.model and c == '_'):
            e = self.scan('name', p)
            return ('word', Span(self.t, [(p, e)]), e)
        if c.isdigit() or c == '.':
            e = self.scan('number', p)
            s = Span(self.t, [(p, e)])
            if not numeral(self.t, s):
                raise Refused()
            return ('NUMBER', s, e)
        for q in '\'"':
            if c == q:
                e = self.scan('string' + q, p + 1)
                if self.ch(e) is None:
                    raise Refused()
                return ('STRING', Span(self.t, [(p + 1, e)]), e + 1)
        for o, k in OPS2.items():
            if c == o[0]:
                d = self.ch(p, 1)
                if d is not None and d == o[1]:
                    return (k, o, p + 2)
        if self.mode == 'python':
            if c == '*':
                d = self.ch(p, 1)
                if d is not None and d == '*':
                    return ('POWER', '**', p + 2)
        elif c == '^':
            return ('POWER', '**', p + 1)
        for o, k in OPS1.items():
            if c == o:
                return (k, o, p + 1)
        raise Refused()


def numeral(text, span):
    k = span.key()
    if k not in text.numbers:
        text.numbers[k] = eng.CUR.choose(2) == 0
    return text.numbers[k]


def pv_float(x=0.):
    if isinstance(x, Ch):
        x = Span.of(x)
    if isinstance(x, Span):
        if not numeral(CURRENT['text'], x):
            raise ValueError(f'could not convert string to float: {x}')
        return Num(x)
    return float(x)


CURRENT = {}
TABLES = {}


def blank(x):
    return x is not None and any(d.isspace() for d in x.domain)


class Scans:
    """the contract of every scanning loop, from the truth table of its test"""

    def __init__(self, c, text, spec, strong):
        self.c, self.text, self.spec, self.strong = c, text, spec, strong
        self.kind = None

    def lexer(self, env):
        got = [v for v in env.values() if 'current_char' in getattr(v, '__dict__', ())]
        if len({id(v) for v in got}) != 1 or 'pos' not in got[0].__dict__:
            raise Unsupported('the scanner')
        return got[0]

    def table(self, st, lx, env):
        """what the test says on every character and the next one"""
        key = (st.site, type(lx).__name__, lx.exp if hasattr(lx, 'exp') else None,
               tuple(sorted((k, v) for k, v in env.items() if type(v) is str)))
        if key not in TABLES:
            keep = dict(lx.__dict__)
            out = {}

            def ask(s):
                lx.text, lx.pos, lx.current_char = s, 0, (s[0] if s else None)
                try:
                    r = bool(st.test())
                except Exception as ex:
                    if isinstance(ex, (Unsupported, PathEnd)) or (s and not isinstance(ex, AttributeError)):
                        raise
                    r = None
                if lx.pos != 0 or lx.current_char != (s[0] if s else None):
                    raise Unsupported('the test of a loop moves on')
                return r
            try:
                out[None, None] = ask('')
                for a in ALL():
                    out[a, None] = ask(a)
                    for b in ALL():
                        out[a, b] = ask(a + b)
            except (Unsupported, PathEnd):
                raise
            except Exception as ex:
                raise Unsupported(f'the test of a loop: {type(ex).__name__} {ex}')
            finally:
                lx.__dict__.clear()
                lx.__dict__.update(keep)
            TABLES[key] = out
            TABLES[key, 'kind'] = self.classify(out)
        return TABLES[key, 'kind']

    def classify(self, tab):
        t = {k: bool(v) for k, v in tab.items()}
        model = self.spec.model
        for kind, f in SCANS.items():
            # at the end of the text the test may say anything: what happens there is followed
            if all(v == bool(f(*k)) for k, v in t.items() if k[0] is not None):
                return kind
        start = lambda c, d: c is not None and (c.isspace() or (model and comment(c, d)))
        if all(not v or start(*k) for k, v in t.items()):
            return 'layout'
        if all(v == (k[0] is not None) for k, v in t.items()):
            return 'layout'
        return None

    def __call__(self, w, st, what, env):
        c, spec = self.c, self.spec
        if what == 'enter':
            lx = self.lx = self.lexer(env)
            if st.it is not None or st.test is None:
                raise Unsupported('a loop of another form')
            kind = st.kind = self.table(st, lx, env)
            if kind is None:
                raise Unsupported('a loop that stops elsewhere than the contract foresees')
            st.p = p = topos(lx.pos)
            if lx.current_char is not self.text.at(p):
                raise Unsupported('the current character')

            def test():
                try:
                    return bool(st.test())
                except AttributeError:
                    return None
            st.mode = mode = c.choose(3)
            t = test()
            if mode == 0:
                if t:
                    raise PathEnd()
                return
            if not t:
                raise PathEnd()
            q = st.q = self.text.fresh()
            if kind == 'layout':
                if spec.ch(p) is None:
                    raise PathEnd()
                spec.reach[p.key()] = q
                # blanks have been skipped before the loop, and every pass ends past the blanks
                st.past = self.strong and not blank(spec.ch(p))
                if st.past:
                    x = spec.ch(q)
                    if x is not None:
                        x.domain = [d for d in x.domain if not d.isspace()]
            else:
                # the scan has come as far as q
                if not spec.cont(kind, p):
                    if spec.ch(p) is None and not spec.cont(kind, p):
                        del st.q                 # the test holds at the end of the text: this pass only
                        if mode == 1:
                            raise PathEnd()
                        st.q = q = p
                if q is not p:
                    spec.on[kind, p.key()] = q
                    if mode == 1:
                        self.text.some.add((p.key(), q.key()))
            for n in st.names:
                if n not in env or n == 'self':
                    continue
                v = env[n]
                if kind != 'layout' and ((isinstance(v, str) and v == '') or isinstance(v, Span)):
                    st.vals[n] = Span(self.text, Span.of(v).pieces + [(p, q)])
                else:
                    from pv.contracts.common import Poison
                    st.vals[n] = Poison()
            lx.pos, lx.current_char, lx.line_pos, lx.current_line = q, self.text.at(q), Any(), Any()
            st.frame = {k: v for k, v in lx.__dict__.items() if k not in ('pos', 'current_char', 'line_pos', 'current_line')}
            t = test()
            if mode == 1 and t or mode == 2 and not t:
                raise PathEnd()
            st.body = mode == 2
            st.acc = {n: v for n, v in st.vals.items() if isinstance(v, Span)}
        elif what == 'leave':
            lx = self.lx if 'self' not in env else self.lexer(env)
            now = topos(lx.pos)
            fr = {k: v for k, v in lx.__dict__.items() if k not in ('pos', 'current_char', 'line_pos', 'current_line')}
            if set(fr) != set(st.frame) or any(fr[k] is not st.frame[k] for k in fr):
                raise Unsupported('a loop changes something else')
            c.goal('the current character is the one at the current position', lx.current_char is self.text.at(now), strict=False)
            if st.kind == 'layout':
                c.goal('a pass skips layout only, and some of it', spec.leads(st.q, now))
                if st.past:
                    x = spec.ch(now)
                    c.goal('a pass ends past the blanks', x is None or not x.isspace(), strict=False)
            else:
                c.goal('a scan moves on by one character', self.text.at(st.q) is not None and self.text.same(now, st.q + 1), strict=False)
                for n, v in st.acc.items():
                    x = env.get(n)
                    ok = isinstance(x, (Span, Ch)) and Span.of(x).key() == (v + Span(self.text, [(st.q, st.q + 1)])).key()
                    c.goal('a scan keeps every character it passes', ok, strict=False)


def world(c, mode, strong):
    text = Text()
    spec = Spec(text, mode)
    CURRENT['text'] = text
    loop = Scans(c, text, spec, strong)
    w = load.World(MODS, whiles=('*',), loops={'*': loop}, shim=False, glob={'float': pv_float, 'len': npshim.pv_len})
    base = w.mods['pynare.parsing.base']
    cls = w[f'{LX}:{"DynareLexer" if mode == "model" else "BaseLexer"}']
    w.real_tables = (w.mods['pynare.parsing.dynare'].dynare_reserved_kw, base.reserved_funcs)
    kw = Table(text, ('kw', 'function') if mode == 'model' and False else ('kw',), base)
    fn = Table(text, ('function',), base)
    real_kw, real_fn = w.real_tables
    for n, m in w.mods.items():
        for k, v in list(m.__dict__.items()):
            if v is real_kw:
                m.__dict__[k] = kw
            elif v is real_fn:
                m.__dict__[k] = fn
            elif isinstance(v, type):
                for a, x in list(v.__dict__.items()):
                    if x is real_kw:
                        setattr(v, a, kw)
                    elif x is real_fn:
                        setattr(v, a, fn)
    return w, text, spec, cls, loop


def make(cls, text, mode):
    return cls(text) if mode == 'model' else cls(text, exp='python' if mode == 'python' else 'standard')


WORD = 'the next word is read with its own spelling or value'


def guard(f):
    """operations of str, dict, ... that cannot be carried out on the stand-ins"""
    try:
        return f(), None
    except (Unsupported, PathEnd):
        raise
    except (TypeError, AttributeError) as ex:
        raise Unsupported(f'{type(ex).__name__}: {ex}')
    except Exception as ex:
        return None, ex


def next_word(mode, strong, c):
    w, text, spec, cls, loop = world(c, mode, strong)
    lx = make(cls, text, mode)
    c.goal('reading starts at the beginning', topos(lx.pos).key() == (0, 0) and lx.current_char is text.at(Pos(0)))
    tok, err = guard(lx.next_token)
    try:
        want = spec.word(Pos(0))
    except Refused:
        want = None
    if want is None:
        c.goal('what is outside the language is refused with a syntax error', isinstance(err, SyntaxError), backend='evaluation',
               detail=f'{shape(text)}: {tok}')
        return
    c.goal('what is in the language is read', err is None, backend='evaluation', detail=f'{type(err).__name__} {err} on {shape(text)}')
    if err is not None:
        return
    kind, val, end = want
    if not isinstance(tok, w.mods['pynare.parsing.base'].Token):
        raise Unsupported('no token')
    v = tok.value
    if kind == 'word':
        k = text.words.get(val.key())
        if k is None and spec.model:
            # the tables have not been asked about this word
            k = ('kw', 'function', 'other')[c.choose(3)]
        if not spec.model and k != 'function':
            k = 'other'
        if k == 'other' or k is None:
            ok = tok.type == 'ID' and isinstance(v, (Span, Ch)) and Span.of(v).key() == val.key()
        else:
            ok = tok.type is v and isinstance(v, Word) and v.table == k and v.span.key() == val.key()
    elif kind == 'NUMBER':
        ok = tok.type == 'NUMBER' and isinstance(v, Num) and v.span.key() == val.key()
    elif kind == 'STRING':
        ok = tok.type == 'STRING' and ((isinstance(v, (Span, Ch)) and Span.of(v).key() == val.key()) or (not val.pieces and v == ''))
    else:
        ok = isinstance(tok.type, str) and tok.type == kind and (kind == 'EOF' or spelled(v, val))
    c.goal(WORD, ok, backend='evaluation', detail=f'{kind} {val} for {tok.type} {v}: {shape(text)}')
    c.goal('and the text is taken up to its end', text.same(topos(lx.pos), end) and lx.current_char is text.at(end),
           backend='evaluation', detail=f'{lx.pos} for {end}: {shape(text)}')


def spelled(v, val):
    if isinstance(v, Ch):
        return v.domain == [val]
    if isinstance(v, Span):
        out = []
        for x in v.pieces:
            if isinstance(x, str):
                out.append(x)
                continue
            a, b = x
            if a.b != b.b:
                return False
            cs = [v.text.chars.get((a.b, k)) if v.text else None for k in range(a.o, b.o)]
            if any(k is None or len(k.domain) != 1 for k in cs):
                return False
            out += [k.domain[0] for k in cs]
        return ''.join(out) == val
    return isinstance(v, str) and v == val


def shape(t):
    return ' '.join(f'{k[0]}+{k[1]}:{v if v is not None else "end"}' for k, v in sorted(t.chars.items()))[:300]


def tables(c):
    """the tables of reserved words map every word to itself"""
    w = load.World(MODS, shim=False)
    kw, fn = w.mods['pynare.parsing.dynare'].dynare_reserved_kw, w.mods['pynare.parsing.base'].reserved_funcs
    b = w.mods['pynare.parsing.base']
    for k, t in kw.items():
        c.goal('a keyword stands for itself', t.type == k and t.value == k, backend='evaluation', detail=k)
        c.goal('a keyword is a word', k.isidentifier() and k[0].isalpha(), backend='evaluation', detail=k)
    for k, t in fn.items():
        c.goal('a function name stands for itself', t.type == b.FUNCTION and t.value == k, backend='evaluation', detail=k)
    c.goal('the functions are those of the language', set(fn) == set(FUNC), backend='evaluation')
    c.goal('no word is both', not set(kw) & set(fn), backend='evaluation')
    for k in ('var', 'varexo', 'parameters', 'model', 'end', 'initval', 'shocks', 'corr', 'stderr'):
        c.goal('the keywords of model files are there', k in kw, backend='evaluation', detail=k)
    c.goal('model files use the keywords', w[f'{LX}:DynareLexer'].reserved_kw is kw, backend='evaluation')
    kinds = list(OPS1.values()) + list(OPS2.values()) + ['POWER', 'EOF', 'ID', 'NUMBER', 'STRING', 'FUNCTION', '.']
    c.goal('no keyword is confused with another kind of word', not set(kw) & set(kinds), backend='evaluation')
    c.goal('kinds of words are told apart', len(set(kinds)) == len(kinds), backend='evaluation')
    c.goal('the reserved tables are the ones the scanner uses', w[f'{LX}:BaseLexer'].reserved_kw is fn, backend='evaluation', strict=False)


class Tokens:
    """the loop that collects the words"""

    def __init__(self, c, text):
        self.c, self.text = c, text

    def __call__(self, w, st, what, env):
        from pv.seqs import Seq
        c = self.c
        if what == 'enter':
            lx = env.get('self')
            if lx is None:
                raise Unsupported('the scanner')
            for n in st.names:
                if n in env and n != 'self':
                    from pv.contracts.common import Poison
                    st.vals[n] = Poison()
            lists = [a for a, v in lx.__dict__.items() if isinstance(v, list) and not v]
            if len(lists) != 1:
                raise Unsupported('the list of words')
            k = eng.fresh_int('words', 0)
            self.a, self.k, self.lx = lists[0], k, lx
            seq = Seq(k, Nth)
            q = self.text.fresh()
            lx.pos, lx.current_char, lx.line_pos, lx.current_line = q, self.text.at(q), Any(), Any()
            setattr(lx, self.a, seq)
            st.body = bool(st.test())
        elif what == 'leave':
            s = getattr(self.lx, self.a)
            if not isinstance(s, Seq):
                raise Unsupported('the list of words')
            c.prove('every pass adds one word', zi(s.n) == zi(self.k) + 1)
            x = s.item(self.k)
            c.goal('which is the next word', isinstance(x, NextWord) and x.first, backend='evaluation')
        elif what == 'exit':
            c.goal('reading goes on to the end of the text', self.lx.current_char is None, backend='evaluation')
            self.done = True


class Nth:
    def __init__(self, i):
        self.i = i


class NextWord:
    def __init__(self, first):
        self.first = first
        self.type = self.value = 'a word'

    def assign_loc(self, *a):
        pass


def stream(mode, c):
    from pv.seqs import Seq
    hold = {}
    w = load.World(MODS, whiles=('*',), loops={'*': lambda *a: hold['h'](*a)}, shim=False, glob={'len': npshim.pv_len})
    text = Text()
    h = hold['h'] = Tokens(c, text)
    cls = w[f'{LX}:{"DynareLexer" if mode == "model" else "BaseLexer"}']
    lx = make(cls, text, mode)
    n = {'n': 0}

    def next_token(self):
        # the contract of next_token: the next word, and the position after it
        if self.current_char is not text.at(topos(self.pos)):
            raise Unsupported('the current character')
        n['n'] += 1
        q = text.fresh()
        self.pos, self.current_char = q, text.at(q)
        return NextWord(n['n'] == 1)
    setattr(cls, 'next_token', next_token)
    r, err = guard(lx.tokenize)
    if err is not None:
        raise err
    s = getattr(lx, h.a)
    if not isinstance(s, Seq):
        raise Unsupported('the list of words')
    c.prove('the words are followed by an end mark', zi(s.n) >= zi(h.k) + 1)
    i = eng.fresh_int('i')
    c.assume(z3.And(zi(i) >= 0, zi(i) < zi(h.k)))
    x = s.item(i)
    c.goal('all words are kept, in order', isinstance(x, Nth) and x.i is i, backend='evaluation')
    e = s.item(h.k)
    c.goal('the end mark is the last word', getattr(e, 'type', None) == 'EOF', backend='evaluation')
    # reading from the stream
    c.goal('the parser starts at the first word', lx.token_pos == 0, backend='evaluation', strict=False)
    p = eng.fresh_int('p', 0)
    c.assume(zi(p) < zi(h.k))
    lx.token_pos = p
    t = lx.get_next_token()
    c.goal('words are handed out one after the other', isinstance(t, Nth) and c.entails(zi(t.i) == zi(p)), backend='evaluation')
    c.prove('each one once', zi(lx.token_pos) == zi(p) + 1)
    k = c.choose(4)
    try:
        t = lx.see_future_token(k)
    except SyntaxError:
        c.prove('looks ahead as far as the text goes', zi(p) + k >= zi(s.n))
        return
    c.prove('looks ahead as far as the text goes', zi(p) + k < zi(s.n))
    want = s.item(p + k)
    c.goal('looking ahead shows the word that far on', t is want or (isinstance(t, Nth) and isinstance(want, Nth)
           and c.entails(zi(t.i) == zi(want.i))), backend='evaluation')


def units():
    g = [WORD, 'and the text is taken up to its end', 'what is outside the language is refused with a syntax error',
         'what is in the language is read']
    out = [Unit(f'{LX}.BaseLexer.tokenize, get_next_token, see_future_token ({m})', functools.partial(stream, m),
                ['all words are kept, in order', 'which is the next word']) for m in ('model', 'standard')]
    out += [eng.Either(f'{LX}.{"DynareLexer" if m == "model" else "BaseLexer"}.next_token and everything it calls ({m})',
                 [functools.partial(next_word, m, s) for s in (True, False)], g) for m in ('model', 'standard', 'python')]
    out.append(Unit('pynare.parsing.dynare.dynare_reserved_kw, base.reserved_funcs', tables, ['a keyword stands for itself']))
    return out
