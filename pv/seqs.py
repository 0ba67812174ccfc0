"""lists and vectors of unknown length, given item by item"""
from . import eng, load
from .eng import SI, SB, zi, Unsupported
z3 = eng.z3


def shut(what):
    def no(self, *a, **k):
        raise Unsupported(what)
    return no


class Seq:
    """a list of n items; item(i) for 0 <= i < n"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, n, item, what='a list of unknown length'):
        self.n, self.item, self.what = n, item, what

    def __pv_len__(self):
        return self.n

    def pv_list(self):
        return Seq(self.n, self.item, self.what)

    def pv_map(self, f):
        r = Seq(self.n, lambda i: f(self.item(i)), f'f of {self.what}')
        r.src = root(self)
        return r

    def append(self, x):
        n, old = self.n, self.item
        self.n = n + 1
        self.item = lambda i: x if eng.CUR.decide(zi(i) == zi(n)) else old(i)

    def __getitem__(self, i):
        if isinstance(i, (int, SI)) and not isinstance(i, bool):
            i = i if not (isinstance(i, int) and i < 0) else self.n + i
            eng.CUR.prove('positions lie within the list', z3.And(zi(i) >= 0, zi(i) < zi(self.n)))
            return self.item(i)
        raise Unsupported('part of a list of unknown length')

    def at(self, i):
        return self.item(i)

    def __add__(self, o):
        return chain(((True, self), (True, o)))

    def __radd__(self, o):
        return chain(((True, o), (True, self)))

    __iter__ = shut('a loop of unknown length without an invariant')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of {self.what}')


def root(it):
    """the list that the items of `it` are worked out from, one by one"""
    while isinstance(it, Seq) and 'src' in it.__dict__:
        it = it.src
    return it


def chain(parts):
    """[*a, x, *b]"""
    segs = []
    for star, x in parts:
        if not star:
            segs.append((1, lambda i, x=x: x))
        elif isinstance(x, Seq):
            segs.append((x.n, x.item))
        elif isinstance(x, (list, tuple)):
            segs.append((len(x), lambda i, x=x: x[i]))
        else:
            raise Unsupported('a list put together from parts')
    n = 0
    for k, _ in segs:
        n = k + n

    def item(i):
        for k, f in segs[:-1]:
            if eng.CUR.decide(zi(i) < zi(k)):
                return f(i)
            i = i - k
        return segs[-1][1](i)
    return Seq(n, item)


class Appending:
    """the contract of a loop that fills lists: before the k-th iteration, each list that was empty holds what `item` says for
    0..k-1.  The loop runs over `over` (a Seq, possibly enumerated)."""

    def __init__(self, c, over, same, item, name):
        self.c, self.over, self.same, self.item, self.name = c, over, same, item, name
        self.used = 0

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            it = st.it if isinstance(st.it, Seq) else st.it.it if type(st.it).__name__ == 'SymEnum' else st.it
            if root(it) is not self.over:
                raise Unsupported('a loop over something else')
            self.used += 1
            self.lists = [n for n in st.names if isinstance(env.get(n), list) and not env[n]]
            for n in st.names:
                if n in env and n not in self.lists:
                    from .contracts.common import Poison
                    st.vals[n] = Poison()
            if c.choose(2):
                for n in self.lists:
                    st.vals[n] = Seq(it.n, self.item)
                return
            k = eng.fresh_int('k')
            c.assume(z3.And(zi(k) >= 0, zi(k) < zi(it.n)))
            for n in self.lists:
                st.vals[n] = Seq(k, self.item)
            self.k = k
            x = it.item(k)
            st.body, st.item = True, ((k + st.it.start, x) if it is not st.it else x)
        elif what == 'leave':
            for n in self.lists:
                s = env[n]
                if not isinstance(s, Seq):
                    raise Unsupported('the list is replaced')
                c.prove('every pass adds one item', zi(s.n) == zi(self.k) + 1)
                j = eng.fresh_int('j')
                if c.choose(2):
                    c.assume(z3.And(zi(j) >= 0, zi(j) < zi(self.k)))
                else:
                    j = self.k
                self.same(self.name, s.item(j), self.item(j))
