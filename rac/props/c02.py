"""C02: comments and layout never change the words of a text"""
from rac.core import *
from rac import grammar as G

QUICK, THOROUGH = 4000, 100000

# kinds used by the grammar, by spelling (from pynare.parsing.base / dynare: the words' names)
FUNC = {'exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos',
        'atan', 'max', 'min', 'normcdf', 'normpdf', 'erf'}
OPS2 = {'<=': '<=', '>=': '>=', '==': '=='}
OPS1 = {',': ',', ';': ';', ':': ':', '#': '#', '&': '&', '|': '|', '@': '@', '!': '!', '~': '~',
        '<': '<', '>': '>', '\\': '\\', '+': 'PLUS', '-': 'MINUS', '*': 'MUL', '/': 'DIV',
        '(': '(', ')': ')', '[': '[', ']': ']', '{': '{', '}': '}', '=': 'EQUALS', '%': '%'}


def reference(s, model, python=False):
    """words of a text: list of (type, value); None when the text is outside the language"""
    from pynare.parsing.dynare import dynare_reserved_kw
    i, out = 0, []
    n = len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif model and (c == '%' or s[i:i + 2] == '//'):
            while i < n and s[i] != '\n':
                i += 1
        elif model and s[i:i + 2] == '/*':
            j = s.find('*/', i + 2)
            i = n if j < 0 else j + 2
        elif c.isalpha() or (c == '_' and not model):
            j = i
            while j < n and (s[j].isalnum() or s[j] == '_'):
                j += 1
            w = s[i:j]
            if model and w in dynare_reserved_kw:
                out.append((w, w))
            else:
                out.append(('FUNCTION' if w in FUNC else 'ID', w))
            i = j
        elif c.isdigit() or c == '.':
            j = i
            while j < n and (s[j].isdigit() or s[j] == '.'):
                j += 1
            try:
                out.append(('NUMBER', float(s[i:j])))
            except ValueError:
                return None
            i = j
        elif c in '\'"':
            j = s.find(c, i + 1)
            if j < 0:
                return None
            out.append(('STRING', s[i + 1:j]))
            i = j + 1
        elif s[i:i + 2] in OPS2:
            out.append((OPS2[s[i:i + 2]], s[i:i + 2]))
            i += 2
        elif not python and c == '^':
            out.append(('POWER', '**'))
            i += 1
        elif python and s[i:i + 2] == '**':
            out.append(('POWER', '**'))
            i += 2
        elif c in OPS1:
            out.append((OPS1[c], c))
            i += 1
        else:
            return None
    return out


def lex(s, model, python=False):
    from pynare.parsing.lexer import BaseLexer, DynareLexer
    lx = DynareLexer(s) if model else BaseLexer(s, exp='python' if python else 'standard')
    lx.tokenize()
    out = []
    ts = list(lx.token_stream)
    while ts and ts[-1].type == 'EOF':
        ts.pop()
    if len(ts) == len(lx.token_stream):
        raise Bad('no end mark', text=s)
    for t in ts:
        out.append((t.type, t.value))
    return out


def check(s, model, python=False):
    want = reference(s, model, python)
    info = {'text': s, 'lexer': 'model' if model else 'expression'}
    if want is None:
        must_raise('text outside the language', SyntaxError, lex, s, model, python, info=info, seconds=5)
        return
    got = ut('reading a text', lex, s, model, python, info=info, seconds=5)
    if got != want:
        k = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Bad(f'word {k} differs: read {got[k:k + 2]}, text says {want[k:k + 2]}', **info)


WORDS = ['var', 'model', 'end', 'x', 'y_1', 'alpha', 'shocks', 'stderr', '1', '0.25', '.5', '3.', '12',
         '+', '-', '*', '/', '^', '(', ')', '=', ';', ',', '#', '[', ']', "'lab el'", '"q/*r*/"', 'log', 'exp',
         'varexo', 'parameters', 'initval', '<', '<=', '>', '>=', '==', 'a', 'modelx', 'end1', 'erf', ':']
GAPS = [' ', '\n', '\t', '  \n ', '% c\n', '//c\n', '// a * b */ \n', '/* c */', '/**/', '/***/', '/* x\ny */',
        '/*/ */', '/* * / */', '% /* \n', '//\n', '%\n', '/* // */', '/* % */', '\r\n', '/* ** */',
        "% don't\n", "/* it's */", '%%\n', '////\n', '/*a*//*b*/', '%a\n%b\n', '//a\n/*b*/', '/*b*/%c\n']
RAW = list("ab1_. \n%/*^+-=<>;(),'\"x2") + ['/*', '*/', '//', '\n', ' ', '=', '$', '?', '`', '**']


def case(rng, i):
    pick = lambda pool: pool[int(rng.integers(0, len(pool)))]
    kind = i % 4
    if kind in (0, 1):
        ws = [pick(WORDS) for _ in range(int(rng.integers(0, 9)))]
        def gap(optional):
            if optional and rng.random() < .4:
                return ''
            return ''.join(pick(GAPS) for _ in range(int(rng.integers(1, 4))))
        s = gap(True)
        for k, w in enumerate(ws):
            s += w
            nxt = ws[k + 1] if k + 1 < len(ws) else None
            last = nxt is None
            glue = nxt is not None and ((w[-1].isalnum() or w[-1] in '_.') and (nxt[0].isalnum() or nxt[0] in '_.')
                                        or w[-1] + nxt[0] in ('//', '/*', '<=', '>=', '==')
                                        or w[-1] in '/<>=' or nxt[0] in '/=')
            g = gap(not glue)
            if w[-1] == '/' and g[:1] in ('/', '*'):
                g = ' ' + g
            s += g
        s += pick(['', '% tail', '// tail', '/* tail */', '/* tail', '\n', ' ', '%', '//', '/*', '/* *'])
        check(s, True)
        # the words themselves
        plain = reference(' '.join(ws), True)
        read = reference(s, True)
        if plain != read:
            raise Skip('glued')
    elif kind == 2:
        check(''.join(pick(RAW) for _ in range(int(rng.integers(0, 14)))), True)
    else:
        check(''.join(pick(RAW) for _ in range(int(rng.integers(0, 14)))), False, bool(rng.random() < .4))
