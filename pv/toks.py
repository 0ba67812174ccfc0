"""Parsers over an arbitrary stream of tokens.  The type of a token is found out only as far as the code asks; a parser called
by the one under contract is replaced by its own contract: it takes some non-empty run of tokens and returns some tree, or it
refuses."""
from . import eng, load, tree
from .eng import Unsupported, PathEnd
z3 = eng.z3


class Refused(Exception):
    """the specification: this is not in the language"""


class Lazy:
    """the type of a token, known as far as it has been asked"""

    def __init__(self, domain):
        self.domain = list(domain)

    def __eq__(self, o):
        if isinstance(o, Lazy):
            if o is self:
                return True
            raise Unsupported('two token types compared')
        if not isinstance(o, str) or o not in self.domain:
            return False
        if len(self.domain) == 1:
            return True
        if eng.CUR.choose(2):
            self.domain.remove(o)
            return False
        self.domain = [o]
        return True

    def __ne__(self, o):
        return not self == o

    def value(self):
        if len(self.domain) > 1:
            self.domain = [self.domain[eng.CUR.choose(len(self.domain))]]
        return self.domain[0]

    def __hash__(self):
        return hash(self.value())

    def __str__(self):
        return self.domain[0] if len(self.domain) == 1 else '?'

    def is_(self, *ts):
        return any(self == t for t in ts)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('the letters of a token type')


class Tok:
    """a token at a position of the stream"""
    line_number = line_pos = 0

    def __init__(self, pos, domain, eager):
        self.pos, self._t, self._eager = pos, Lazy(domain), eager

    @property
    def type(self):
        return self._t.value() if self._eager else self._t

    @property
    def value(self):
        return Val(self)

    def __str__(self):
        return f'token {self.pos}'
    __repr__ = __str__

    def __deepcopy__(self, m):
        return self


class Val:
    """the spelling or the number of a token"""

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        if isinstance(o, Val):
            return self.tok is o.tok
        raise Unsupported('the text of a token')

    __hash__ = None

    def __repr__(self):
        return f'<value of {self.tok}>'
    __str__ = __repr__

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('the text of a token')


class Stream:
    """tokens by position; a position is (base, offset), the bases being the ends of sub-parses"""

    def __init__(self, domain, eager=False, eof='EOF'):
        self.domain, self.eager, self.eof = list(domain), eager, eof
        self.toks, self.subs, self.bases = {}, {}, 1
        self.after = {}

    def base(self):
        self.bases += 1
        return (self.bases - 1, 0)

    def tok(self, p):
        if p not in self.toks:
            b, k = p
            if k > 0:
                q = self.toks.get((b, k - 1))
                if q is not None and q._t.is_(self.eof):
                    raise IndexError('past the end of the text')
            d = [t for t in self.domain if t not in self.after.get(p, ())]
            self.toks[p] = Tok(p, d, self.eager)
        return self.toks[p]

    def is_(self, p, *ts):
        return self.tok(p)._t.is_(*ts)

    def sub(self, name, p, make, never=()):
        """the contract of a sub-parser at p: (result, position) or None for a refusal"""
        k = (name, p)
        if k not in self.subs:
            if eng.CUR.choose(2):
                self.subs[k] = None
            else:
                q = self.base()
                self.after[q] = never
                self.subs[k] = (make(), q)
        return self.subs[k]


class Lexer:
    """the contract of the lexer towards the parser"""
    text = string = ''

    def __init__(self, s, p=(0, 0)):
        self.s, self.p = s, p          # p: the position the next token is taken from

    def get_next_token(self):
        t = self.s.tok(self.p)
        self.p = (self.p[0], self.p[1] + 1)
        return t

    def see_future_token(self, k=0):
        b, o = self.p[0], self.p[1] - 1
        for j in range(k + 1):
            try:
                t = self.s.tok((b, o + j))
            except IndexError:
                raise SyntaxError('Trying to look too far into the future.') from None
        return t

    def see_next_token(self):
        return self.see_future_token(0)

    def tokenize(self):
        pass

    def reset_lexer(self):
        raise Unsupported('the tokens are read again')

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'lexer.{a}')


class Result:
    """a tree returned by a sub-parser"""


def at(parser):
    """the position of the current token (None: the parser and its lexer disagree)"""
    lx = parser.lexer
    p = (lx.p[0], lx.p[1] - 1)
    return p if parser.current_token is lx.s.toks.get(p) else None


def goto(parser, q):
    parser.lexer.p = q
    parser.current_token = parser.lexer.get_next_token()
