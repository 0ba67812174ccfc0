"""Reference lexer, parser and evaluator for arithmetic text, and generators.
Written from the statements of C01/C02; shares nothing with pynare.parsing."""
import math
import numpy as np

FUNCS = {'exp': np.exp, 'log': np.log, 'ln': np.log, 'log10': np.log10, 'sqrt': np.sqrt,
         'abs': np.abs, 'sign': np.sign, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan,
         'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'erf': math.erf}
COMPS = ('<', '<=', '>', '>=', '==')


class Ill(Exception):
    pass


# ---- reference parser over word lists ------------------------------------------------
# words: ('id', s) ('num', x) ('fun', s) ('op', s)
def parse(words, comparison=True, dated=False):
    """tree: ('num',x) ('var',n,d) ('un',op,t) ('bin',op,a,b) ('fun',f,t) ('cmp',op,a,b)"""
    pos = 0

    def tok():
        return words[pos] if pos < len(words) else ('eof', None)

    def take(kind, val=None):
        nonlocal pos
        t = tok()
        if t[0] != kind or (val is not None and t[1] != val):
            raise Ill(t)
        pos += 1
        return t[1]

    def primary():
        k, v = tok()
        if k == 'num':
            return ('num', take('num'))
        if k == 'id':
            take('id')
            d = 0
            if dated and tok() == ('op', '('):
                take('op', '(')
                if tok() not in (('op', '+'), ('op', '-')):
                    raise Ill('date')
                s = take('op')
                x = take('num')
                take('op', ')')
                d = int(x) if s == '+' else -int(x)
            return ('var', v, d)
        if k == 'fun':
            take('fun')
            take('op', '(')
            a = addition()
            take('op', ')')
            return ('fun', v, a)
        if (k, v) == ('op', '('):
            take('op', '(')
            a = addition()
            take('op', ')')
            return a
        if k == 'op' and v in '+-':
            take('op')
            return ('un', v, power())
        raise Ill(tok())

    def power():
        a = primary()
        # a sign directly after another operator (or first) applies to the operand that
        # follows, powers included, so the sign has already taken them
        if tok() == ('op', '^'):
            take('op', '^')
            return ('bin', '^', a, power())
        return a

    def product():
        a = power()
        while tok() in (('op', '*'), ('op', '/')):
            o = take('op')
            a = ('bin', o, a, power())
        return a

    def addition():
        a = product()
        while tok() in (('op', '+'), ('op', '-')):
            o = take('op')
            a = ('bin', o, a, product())
        return a

    t = addition()
    if comparison and tok()[0] == 'op' and tok()[1] in COMPS:
        o = take('op')
        t = ('cmp', o, t, addition())
    if tok()[0] != 'eof':
        raise Ill('leftover')
    return t


def evaluate(t, env):
    """env: (name, date) -> number; floats or anything with arithmetic"""
    k = t[0]
    if k == 'num':
        return t[1]
    if k == 'var':
        return env(t[1], t[2])
    if k == 'un':
        v = evaluate(t[2], env)
        return -v if t[1] == '-' else +v
    if k == 'fun':
        return FUNCS[t[1]](evaluate(t[2], env))
    a, b = evaluate(t[2], env), evaluate(t[3], env)
    if k == 'cmp':
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[t[1]]
    if t[1] == '+':
        return a + b
    if t[1] == '-':
        return a - b
    if t[1] == '*':
        return a * b
    if t[1] == '/':
        return a / b
    return np.power(a, b)


def names(t):
    if t[0] == 'var':
        return {t[1]}
    return set().union(*[names(x) for x in t[1:] if isinstance(x, tuple)]) if t[0] != 'num' else set()


# ---- generators ----------------------------------------------------------------------
def tree(rng, depth, leaf, funcs=None, safe=False):
    """random expression tree; leaf() draws a leaf.  safe: smooth and total on reals"""
    r = rng.random()
    if depth <= 0 or r < .18:
        return leaf()
    sub = lambda: tree(rng, depth - 1, leaf, funcs, safe)
    if r < .62:
        op = rng.choice(list('++--**//'[:6] if safe else '++--**//'))
        return ('bin', str(op), sub(), sub())
    if r < .74:
        if safe:
            return ('bin', '^', sub(), ('num', float(rng.integers(1, 4))))
        return ('bin', '^', sub(), rng.choice([0, 1]) and ('num', float(rng.integers(0, 4))) or sub())
    if r < .86:
        return ('un', str(rng.choice(['-', '-', '+'])), sub())
    if safe:
        f = str(rng.choice(['sin', 'cos', 'atan', 'exp', 'log', 'sqrt']))
        a = sub()
        if f == 'exp':
            return ('fun', 'exp', ('fun', 'sin', a))
        if f in ('log', 'sqrt'):
            return ('fun', f, ('bin', '+', ('num', 2.), ('fun', 'sin', a)))
        return ('fun', f, a)
    return ('fun', str(rng.choice(funcs or list(FUNCS))), sub())


PREC = {'cmp': 0, '+': 1, '-': 1, '*': 2, '/': 2}


def words(t, rng=None, extra=.12):
    """render a tree as words with the parentheses it needs (and now and then more)"""
    P = lambda w: [('op', '(')] + w + [('op', ')')]
    k = t[0]
    more = (lambda w: P(w) if rng is not None and rng.random() < extra else w)
    if k == 'num':
        return more([('num', t[1])]) if t[1] >= 0 else P([('op', '-'), ('num', -t[1])])
    if k == 'var':
        w = [('id', t[1])]
        if t[2]:
            w += [('op', '('), ('op', '+' if t[2] > 0 else '-'), ('num', float(abs(t[2]))), ('op', ')')]
        return more(w)
    if k == 'fun':
        return more([('fun', t[1])] + P(words(t[2], rng, extra)))
    if k == 'un':
        # operand: power level
        return more([('op', t[1])] + _lvl(t[2], 'power', rng, extra))
    if k == 'cmp':
        return words(t[2], rng, extra) + [('op', t[1])] + words(t[3], rng, extra)
    op = t[1]
    if op == '^':
        return more(_lvl(t[2], 'base', rng, extra) + [('op', '^')] + _lvl(t[3], 'power', rng, extra))
    if op in '*/':
        return more(_lvl(t[2], 'prod', rng, extra) + [('op', op)] + _lvl(t[3], 'power', rng, extra))
    return more(words(t[2], rng, extra) + [('op', op)] + _lvl(t[3], 'prod', rng, extra))


def _lvl(t, need, rng, extra):
    w = words(t, rng, extra)
    k, op = t[0], t[1]
    wrapped = _is_wrapped(w)
    if wrapped:
        return w
    bad = {
        'base': k in ('bin', 'un', 'cmp'),
        'power': (k == 'bin' and op != '^') or k == 'cmp',
        'prod': (k == 'bin' and op in '+-') or k == 'cmp',
    }[need]
    return [('op', '(')] + w + [('op', ')')] if bad else w


def _is_wrapped(w):
    if w[0] != ('op', '('):
        return False
    d = 0
    for i, t in enumerate(w):
        d += (t == ('op', '(')) - (t == ('op', ')'))
        if d == 0:
            return i == len(w) - 1
    return False


def number_text(x, rng=None):
    s = repr(float(x))
    if 'e' in s or 'inf' in s or 'nan' in s:
        s = f'{x:.12f}'
    if rng is not None:
        if s.endswith('.0') and rng.random() < .6:
            s = s[:-2] if rng.random() < .7 else s[:-1]
        elif s.startswith('0.') and rng.random() < .3:
            s = s[1:]
    return s


def spell(w, rng=None, power='^'):
    k, v = w
    if k == 'num':
        return number_text(v, rng)
    if w == ('op', '^'):
        return power
    return v


def text(ws, rng=None, power='^', sep=None):
    out, prev = '', None
    for w in ws:
        s = spell(w, rng, power)
        if prev is not None:
            glue = (prev[-1].isalnum() or prev[-1] in '_.') and (s[0].isalnum() or s[0] in '_.')
            glue = glue or (prev[-1] + s[0] in ('//', '/*', '<=', '>=', '==', '**'))
            if sep is not None:
                out += sep(glue)
            elif glue or (rng is not None and rng.random() < .35):
                out += ' '
        out += s
        prev = s
    return out
