"""Scanners over an arbitrary text.  A character is known as far as the code has asked; the loops that scan are summarised by
the truth table of their own test: a loop that moves on one character at a time while its test holds ends at the first
character where it does not."""
import sys
from . import eng, load
from .eng import Unsupported, PathEnd


def classes():
    """every character behaves like one of these: the ASCII ones, and one for every combination of answers of the str predicates"""
    preds = [str.isspace, str.isalpha, str.isalnum, str.isdigit, str.isdecimal, str.isnumeric, str.isidentifier, str.isprintable,
             str.isupper, str.islower, str.istitle]
    out, seen = [chr(i) for i in range(128)], set()
    for i in range(128, sys.maxunicode + 1):
        c = chr(i)
        k = tuple(f(c) for f in preds)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


_ALL = []


def ALL():
    if not _ALL:
        _ALL.extend(classes())
    return _ALL


class Ch:
    """a character of the text"""

    def __init__(self, pos, domain):
        self.pos, self.domain = pos, domain

    def ask(self, f):
        yes = [c for c in self.domain if f(c)]
        if len(yes) == len(self.domain):
            return True
        if not yes:
            return False
        if eng.CUR.choose(2):
            self.domain = [c for c in self.domain if not f(c)]
            return False
        self.domain = yes
        return True

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, Ch):
            if o is self:
                return True
            raise Unsupported('two characters compared')
        if isinstance(o, str):
            if len(o) != 1:
                return False
            if ord(o) >= 128:
                raise Unsupported('a particular character outside ASCII')
            return self.ask(lambda c: c == o)
        if isinstance(o, Span):
            raise Unsupported('a character compared with a text')
        return False

    def __ne__(self, o):
        return not self == o

    def value(self):
        while len(self.domain) > 1:
            d = self.domain[0]
            if self.ask(lambda c: c == d):
                break
        return self.domain[0]

    def __hash__(self):
        return hash(self.value())

    def __bool__(self):
        return True

    def __add__(self, o):
        return Span.of(self) + o

    def __radd__(self, o):
        return Span.of(o) + Span.of(self)

    def __repr__(self):
        return repr(self.domain[0]) if len(self.domain) == 1 else '?'
    __str__ = __repr__

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a character')


for _n in ('isspace', 'isalpha', 'isalnum', 'isdigit', 'isdecimal', 'isnumeric', 'isidentifier', 'isprintable', 'isupper', 'islower',
           'istitle', 'isascii'):
    setattr(Ch, _n, (lambda n: lambda self: self.ask(lambda c: getattr(c, n)()))(_n))


class Pos:
    """a position: some characters after a place"""
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b, self.o = b, o

    def key(self):
        return (self.b, self.o)

    def __add__(self, n):
        if type(n) is not int:
            raise Unsupported('a position plus something')
        return Pos(self.b, self.o + n)
    __radd__ = __add__

    def __sub__(self, n):
        if isinstance(n, Pos) and n.b == self.b:
            return self.o - n.o
        if type(n) is not int:
            raise Unsupported('the distance between two places')
        return Pos(self.b, self.o - n)

    def __eq__(self, o):
        if isinstance(o, Pos) and o.b == self.b:
            return self.o == o.o
        raise Unsupported('two places compared')
    __hash__ = None

    def _no(self, *a):
        raise Unsupported('a position compared')
    __index__ = _no

    def __lt__(self, o):
        if isinstance(o, End):
            return o.text.at(self) is not None
        raise Unsupported('a position compared')

    def __ge__(self, o):
        return not self < o
    __le__ = __gt__ = _no

    def __repr__(self):
        return f'{self.b}+{self.o}'


class End:
    """the length of the text"""

    def __init__(self, text):
        self.text = text

    def __gt__(self, o):
        return self.text.at(topos(o)) is not None

    def __le__(self, o):
        return not self > o

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('the length of the text')

    def __add__(self, n):
        raise Unsupported('the length of the text')
    __sub__ = __radd__ = __rsub__ = __add__


def topos(p):
    if isinstance(p, Pos):
        return p
    if type(p) is int and p >= 0:
        return Pos(0, p)
    raise Unsupported('not a position')


class Text:
    """any finite text"""
    __pv__ = True

    def __init__(self):
        self.chars, self.bases = {}, 0
        self.words, self.numbers, self.some = {}, {}, set()

    def fresh(self):
        self.bases += 1
        return Pos(self.bases)

    def at(self, p):
        """the character there; None at and after the end"""
        if p.o < 0:
            raise Unsupported('what comes before')
        k = p.key()
        if k not in self.chars:
            if p.o > 0 and self.at(Pos(p.b, p.o - 1)) is None:
                self.chars[k] = None
            else:
                self.chars[k] = Ch(p, ALL()) if eng.CUR.choose(2) else None
        return self.chars[k]

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('part of the text')
            if i.start is None or i.stop is None:
                raise Unsupported('part of the text')
            return Span(self, [(topos(i.start), topos(i.stop))])
        c = self.at(topos(i))
        if c is None:
            raise IndexError('string index out of range')
        return c

    def __bool__(self):
        return self.at(Pos(0)) is not None

    def __pv_len__(self):
        return End(self)

    def same(self, p, q):
        if p.key() == q.key():
            return True
        return self.at(p) is None and self.at(q) is None

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the text')


class Span:
    """pieces of the text, put together"""

    def __init__(self, text, pieces):
        self.text = text
        out = []
        for x in pieces:
            if not isinstance(x, str):
                a, b = x
                if a.b == b.b and a.o == b.o:
                    continue
                if out and not isinstance(out[-1], str) and out[-1][1].key() == a.key():
                    out[-1] = (out[-1][0], b)
                    continue
            elif x == '':
                continue
            out.append(x)
        self.pieces = out

    @staticmethod
    def of(x):
        if isinstance(x, Span):
            return x
        if isinstance(x, Ch):
            return Span(None, [(x.pos, x.pos + 1)])
        if isinstance(x, str):
            return Span(None, [x])
        raise Unsupported('text plus something else')

    def __add__(self, o):
        return Span(self.text or Span.of(o).text, self.pieces + Span.of(o).pieces)

    def __radd__(self, o):
        return Span(self.text, Span.of(o).pieces + self.pieces)

    def key(self):
        return tuple(x if isinstance(x, str) else (x[0].key(), x[1].key()) for x in self.pieces)

    def __hash__(self):
        raise Unsupported('a text is looked up')

    def __eq__(self, o):
        if isinstance(o, Span) and o.key() == self.key():
            return True
        raise Unsupported('texts compared')

    def __bool__(self):
        for x in self.pieces:
            if isinstance(x, str) or x[0].b == x[1].b or (self.text and (x[0].key(), x[1].key()) in self.text.some):
                return True
        raise Unsupported('whether a text is empty')

    def __repr__(self):
        return f'<text {self.key()}>'
    __str__ = __repr__

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a text')


class Num:
    """the number a text spells"""

    def __init__(self, span):
        self.span = span


class Any:
    """a line or column number: not part of any contract"""

    def __add__(self, o):
        return self
    __radd__ = __sub__ = __rsub__ = __add__

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('line and column numbers')

    def _no(self, *a):
        raise Unsupported('line and column numbers decide')
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __index__ = _no
    __hash__ = None


class Word:
    """a token whose kind a table gives"""

    def __init__(self, table, span):
        self.table, self.span = table, span


class Table:
    """a table of reserved words"""

    def __init__(self, text, names, base):
        self.text, self.names, self.base = text, names, base

    def which(self, span):
        k = span.key()
        if k not in self.text.words:
            self.text.words[k] = ('kw', 'function', 'other')[eng.CUR.choose(3)]
        return self.text.words[k]

    def __contains__(self, s):
        return self.which(Span.of(s)) in self.names

    def __getitem__(self, s):
        s = Span.of(s)
        if s not in self:
            raise KeyError(s)
        w = Word(self.which(s), s)
        return self.base.Token(w, w)

    def get(self, s, d=None):
        return self[s] if s in self else d

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a table')


def pv_in(a, b):
    if isinstance(a, Ch) and type(b) is str:
        return any(a == x for x in b)
    return a in b


load.IN.append(pv_in)
