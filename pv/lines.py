"""Printed tables: lists of strings with one entry per element of an index set.  An arbitrary element of a set is a placeholder
inside an ordinary string, so that the repository's own formatting code puts the string together."""
from . import eng, arr, npshim
from .arr import Tensor, tensor, Prod, Unsupported, same, Lf, sort
from .eng import SI, SB, zi, isint
import builtins

OPEN, SHUT = '\u27e6', '\u27e7'        # an element of an index set, by the name of the set
NUM = '\u27ea{}\u27eb'                  # a printed number or row


def name_of(ax):
    """how an element of an axis is written"""
    return OPEN + number(ax) + SHUT


def number(ax):
    """axes that texts mention, by number; which of them are the same is decided when texts are compared"""
    reg = eng.CUR.env.setdefault('mentioned', [])
    reg.append(ax)
    return str(len(reg) - 1)


def canon(text):
    """a text with the axes it mentions by their index sets"""
    import re
    reg = eng.CUR.env.get('mentioned', [])
    text = re.sub(f'{OPEN}(2:)?(\\d+){SHUT}', lambda m: OPEN + (m.group(1) or '') + axid(reg[int(m.group(2))]) + SHUT, text)
    return re.sub('\u27ea(row|column) (\\d+)', lambda m: f'\u27ea{m.group(1)} {rowid(reg[int(m.group(2))])}', text)


def rowid(ax):
    """a single position has no identity of its own"""
    return '1' if ax is None or same(ax.n, 1) else axid(ax)


def axid(ax):
    """an axis by its index sets and their order"""
    if ax is None:
        return '1'
    if isinstance(ax, Prod):
        return f'{axid(ax.a)}*{axid(ax.b)}'
    live = [p for p in ax._parts if not same(p.n, 0)] if isinstance(ax, arr.Cat) else [ax]
    if len(live) == 1:
        return live[0].ident()[0] if isinstance(live[0], Lf) else axid(live[0])
    return (ax.order or '') + '(' + ','.join(axid(p) if not isinstance(p, Lf) else p.ident()[0] for p in live) + ')'


class Seg:
    def __init__(self, n, ax, item, mask=None):
        self.n, self.ax, self.item, self.mask = n, ax, item, mask

    def id(self):
        return rowid(self.ax)


class Lines:
    __pv__ = True
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, segs):
        self.segs = [s for s in segs if not same(s.n, 0)]

    # -- sizes
    def full(self):
        n = 0
        for s in self.segs:
            n = s.n + n
        return n

    def __pv_len__(self):
        n, counts = 0, eng.CUR.env.setdefault('counts', {})
        for s in self.segs:
            if s.mask is not None:
                k = s.item if isinstance(s.item, str) else axid(s.ax), id(s.mask)
                if k not in counts:
                    counts[k] = eng.fresh_int('kept', 0)
                n = counts[k] + n
            else:
                n = s.n + n
        return n

    @property
    def size(self):
        return self.__pv_len__()

    @property
    def shape(self):
        return (self.size,)

    # -- building
    def __add__(self, o):
        return chain([self, o])

    def __radd__(self, o):
        return chain([o, self])

    def copy(self):
        return Lines(self.segs)
    tolist = pv_list = copy

    def pv_map(self, f):
        return Lines([Seg(s.n, s.ax, f(s.item), s.mask) for s in self.segs])

    def pv_dmap(self, f):
        got = [(s, f(s.item)) for s in self.segs]
        if any(r is None for _, r in got):
            raise Unsupported('mapping of some of the lines')
        return Lookup(Lines([Seg(s.n, s.ax, r[0], s.mask) for s, r in got]), Lines([Seg(s.n, s.ax, r[1], s.mask) for s, r in got]))

    def pieces(self, lo, hi):
        off, out, on = 0, [], None
        if same(lo, hi):
            return []
        for s in self.segs:
            if on is None and same(off, lo):
                on = True
            if on:
                out.append(s)
            off = s.n + off
            if on and same(off, hi):
                return out
        raise Unsupported('a part of a table that is not made of whole blocks')

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            if ix.step not in (None, 1):
                raise Unsupported('slice step')
            if any(s.mask is not None for s in self.segs[0:]):
                # the first lines can still be told apart
                if ix.stop is None and isinstance(ix.start, int) and ix.start >= 0 and \
                        all(s.mask is None and same(s.n, 1) for s in self.segs[:ix.start]):
                    return Lines(self.segs[ix.start:])
                raise Unsupported('slice of selected rows')
            n = self.full()
            lo, hi = (arr.norm_pos(d if x is None else x, n) for x, d in ((ix.start, 0), (ix.stop, n)))
            if not arr.yes(zi(hi) <= zi(n)):
                hi = n
            return Lines(self.pieces(lo, hi))
        if isinstance(ix, (Some, AllOf)):
            return ix.of_lines(self)
        if isinstance(ix, Column):
            return ix.pick(self)
        if isint(ix):
            if isinstance(ix, int) and ix in (0, -1) and self.segs:
                return self.segs[ix].item
            if isinstance(ix, int) and ix > 0 and all(same(s.n, 1) and s.mask is None for s in self.segs[:ix]):
                return self.segs[ix].item
            raise Unsupported('one line of a table')
        raise Unsupported(f'lines by {type(ix).__name__}')

    # -- joined by a separator: the lines appear once, with the separator in between
    def __iter__(self):
        reg = eng.CUR.env.setdefault('joined', {})
        k = f'\u27ec{len(reg)}'
        reg[k] = self
        return builtins.iter([k + ':0\u27ed', k + ':1\u27ed'])

    def __pv_np__(self, name, a, k):
        if name in ('array', 'asarray'):
            return self
        raise Unsupported(f'{name} of text')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a list of text')

    def __bool__(self):
        return bool(SB(zi(self.size) > 0))


def lines(x):
    if isinstance(x, Lines):
        return x
    return Lines([Seg(1, None, i) for i in x])


def chain(xs):
    return Lines([s for x in xs for s in lines(x).segs])


def product(a, b):
    """all pairs, the last one varying fastest"""
    a, b = lines(a), lines(b)
    out = []
    if len(a.segs) != 1 or len(b.segs) != 1 or a.segs[0].mask or b.segs[0].mask:
        raise Unsupported('pairs of lines')
    for s in a.segs:
        for t in b.segs:
            out.append(Seg(arr.mulsize(s.n, t.n), Prod(s.ax, t.ax), (s.item, t.item.replace(OPEN, OPEN + '2:'))))
    return Lines(out)


def joined(text):
    """the lines that a text is made of, with their separator: [(separator before, line or Seg)]"""
    import re
    reg = eng.CUR.env.get('joined', {})
    out = []
    for m in re.split('(\u27ec\\d+:0\u27ed.*?\u27ec\\d+:1\u27ed)', text, flags=re.S):
        k = re.match('(\u27ec\\d+):0\u27ed(.*?)(\u27ec\\d+):1\u27ed$', m, flags=re.S)
        if k:
            if k.group(1) != k.group(3):
                raise Unsupported('text put together in another way')
            out.append((k.group(2), reg[k.group(1)]))
        elif m:
            out.append((None, m))
    return out


# ------------------------------------------------------------------ selections of rows
class Less:
    """entry < bound, or <="""

    def __init__(self, t, bound, op='<'):
        self.t, self.bound, self.op = t, bound, op

    def __pv_np__(self, name, a, k):
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        if name == 'all' and ax is not None and not set(k) - {'axis'}:
            return AllLess(self.t, self.bound, ax, self.op)
        raise Unsupported(name)

    def all(self, axis=None):
        return AllLess(self.t, self.bound, axis, self.op)

    def __invert__(self):
        return NotLess(self.t, self.bound, self.op)


class NotLess(Less):
    def __pv_np__(self, name, a, k):
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        if name == 'any' and ax is not None and not set(k) - {'axis'}:
            return Some(self.t, self.bound, ax, self.op)
        raise Unsupported(name)

    def any(self, axis=None):
        return Some(self.t, self.bound, axis, self.op)

    def all(self, axis=None):
        raise Unsupported('all')


class AllLess:
    def __init__(self, t, bound, axis, op):
        self.t, self.bound, self.axis, self.op = t, bound, axis, op

    def __invert__(self):
        return Some(self.t, self.bound, self.axis, self.op)


class Some:
    """the rows (columns) with an entry that is not below the bound, and some that are always there"""

    def __init__(self, t, bound, axis, op):
        self.op = op
        self.t, self.bound, self.axis = t, bound, axis % 2 if isinstance(axis, int) else axis
        self.always = set()

    def __setitem__(self, i, v):
        if v is not True or i not in (0, -1):
            raise Unsupported('assignment to a selection')
        self.always.add(i)

    def copy(self):
        raise Unsupported('copy of a selection')

    @property
    def along(self):
        """the axis that is selected from"""
        return self.t.axes[1 - self.axis]

    def of_lines(self, ls):
        if any(s.mask is not None for s in ls.segs):
            raise Unsupported('selection of selected lines')
        if not same(ls.full(), self.along.n):
            raise IndexError('boolean index did not match indexed array')
        return Lines(self.applied(ls.segs))

    def applied(self, segs):
        """the selected ones of lists of lines; the first and the last are there whatever the entries are when `always` says so"""
        edge = {0: 0, len(segs) - 1: -1}
        sure = lambda i, s: edge.get(i) in self.always and same(s.n, 1)
        return [Seg(s.n, s.ax, s.item, None if sure(i, s) else self) for i, s in enumerate(segs)]

    def pv_index(self, t, raw):
        """arr[mask] or arr[:, mask]"""
        pos = 0
        for x in raw:
            if x is self:
                break
            if not (isinstance(x, slice) and x == slice(None)):
                raise Unsupported('selection')
            pos += 1
        if pos + 1 != len(raw) and any(not (isinstance(x, slice) and x == slice(None)) for x in raw[pos + 1:]):
            raise Unsupported('selection')
        if not same(t.axes[pos].n, self.along.n):
            raise IndexError('boolean index did not match indexed array')
        return Picked(t, pos, self)


class AllOf:
    """a selection of everything"""

    def __init__(self, n):
        self.n = n

    def of_lines(self, ls):
        if not same(ls.full(), self.n):
            raise IndexError('boolean index did not match indexed array')
        return ls

    def pv_index(self, t, raw):
        (pos,) = [i for i, x in enumerate(raw) if x is self]
        if not same(t.axes[pos].n, self.n):
            raise IndexError('boolean index did not match indexed array')
        return Picked(t, pos, None)


class Picked:
    """the selected rows or columns of an array"""
    __pv__ = True

    def __init__(self, t, pos, mask):
        self.t, self.pos, self.mask = t, pos, mask
        self.axes = t.axes
        self.ndim = 2

    def pv_map(self, f):
        return self.pv_rows().pv_map(f)

    def pv_rows(self):
        if self.mask is None:
            return rows_of(self.t)
        if self.pos == 1:
            return Lines([Seg(s.n, s.ax, Row(s.item.t, self.mask)) for s in rows_of(self.t).segs])
        return Lines(self.mask.applied(rows_of(self.t).segs))

    @property
    def shape(self):
        _no('shape of selected rows')

    def __iter__(self):
        _no('iteration over selected rows')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of selected rows')


def _no(what):
    raise Unsupported(what)


class BoolMat:
    """a matrix of booleans with known columns: column i is true from lo to hi"""
    __array_ufunc__ = None

    def __init__(self, n, k):
        self.n, self.k, self.cols, self.mask = n, k, {}, None

    def __setitem__(self, ix, v):
        if v is not True or not isinstance(ix, tuple) or len(ix) != 2 or not isinstance(ix[0], slice) or ix[0].step is not None \
                or not isinstance(ix[1], int) or self.mask is not None:
            raise Unsupported('assignment to booleans')
        lo = 0 if ix[0].start is None else ix[0].start
        hi = self.n if ix[0].stop is None else ix[0].stop
        if ix[1] in self.cols:
            raise Unsupported('a column is written twice')
        self.cols[ix[1]] = (lo, hi)

    @property
    def shape(self):
        return (self.n if self.mask is None else Unknown(), self.k)

    def __getitem__(self, ix):
        if isinstance(ix, Some):
            if self.mask is not None or not same(self.n, ix.along.n):
                raise IndexError('boolean index did not match indexed array')
            r = BoolMat(self.n, self.k)
            r.cols, r.mask = self.cols, ix
            return r
        if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None) and isinstance(ix[1], int):
            return Column(self.n, self.cols.get(ix[1]), self.mask)
        raise Unsupported('part of a matrix of booleans')


class Unknown:
    """a size that depends on the entries of an array"""

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        _no('number of selected rows')


class Column:
    def __init__(self, n, span, mask):
        self.n, self.span, self.mask = n, span, mask

    def pick(self, ls):
        if {id(s.mask) for s in ls.segs} - {id(None)} - {id(self.mask)}:
            raise Unsupported('rows selected in different ways')
        if not same(ls.full(), self.n):
            raise IndexError('boolean index did not match indexed array')
        return Lines(ls.pieces(*self.span) if self.span else [])


# ------------------------------------------------------------------ builtins and numpy on such lists
class Zip:
    """rows of several lists side by side; `parts` are the stretches on which all of them have the same index set"""
    __pv__ = True

    def __init__(self, xs):
        self.xs = xs
        qs = [list(x.segs) for x in xs]
        self.parts, self.aligned = [], True
        while all(qs):
            heads = [q.pop(0) for q in qs]
            if any(not same(h.n, heads[0].n) for h in heads[1:]):
                if any(eng.CUR.entails(zi(h.n) != zi(heads[0].n)) for h in heads[1:]):
                    self.aligned = False
                    break
                raise Unsupported('lists of different structure side by side')
            if len({h.id() for h in heads}) > 1 or len({id(h.mask) for h in heads}) > 1:
                self.aligned = False
            self.parts.append(heads)
        self.left = [q for q in qs]

    def pv_map(self, f):
        check(self)
        return Lines([Seg(h[0].n, next((x.ax for x in h if x.ax is not None), None), f(tuple(x.item for x in h)), h[0].mask) for h in self.parts])

    def __iter__(self):
        raise Unsupported('iteration over rows of unknown number')


def check(z):
    eng.CUR.goal('labels stand next to the rows they belong to', z.aligned and not any(z.left), backend='evaluation',
                 detail=f'{[[(x.id(), x.item) for x in h] for h in z.parts]} left {[[(s.id(), s.item) for s in q] for q in z.left]}'[:600])


def rows_of(x):
    """an array seen as the list of its rows"""
    if isinstance(x, Lines):
        return x
    if isinstance(x, Tensor):
        ax = x.axes[0]
        parts = ax._parts if isinstance(ax, arr.Cat) and not ax.order else [ax]
        out, pos = [], 0
        for p in parts:
            out.append(Seg(p.n, p, Row(arr.getitem(x, slice(pos, pos + p.n)) if len(parts) > 1 else x)))
            pos = p.n + pos
        return Lines(out)
    if isinstance(x, (list, tuple)):
        return lines(x)
    if hasattr(x, 'pv_rows'):
        return x.pv_rows()
    raise Unsupported(f'{type(x).__name__} next to lines of text')


class Row:
    """an arbitrary row of a part of an array"""
    __pv__ = True

    def __init__(self, t, mask=None):
        self.t, self.mask = t, mask
        self.axes = t.axes[1:]

    def pv_map(self, f):
        ax = self.t.axes[1]
        parts = ax._parts if isinstance(ax, arr.Cat) and not ax.order else [ax]
        segs = [Seg(p.n, p, f(Entry(number(p), self.t))) for p in parts]
        return Lines(segs if self.mask is None else self.mask.applied(segs))


class Entry:
    """an arbitrary entry of a row"""

    def __init__(self, where, t):
        self.where, self.t = where, t

    def __format__(self, spec):
        eng.CUR.env.setdefault('formats', []).append((spec, self.t))
        return NUM.format(f'column {self.where}:{spec}')

    def __iter__(self):
        raise TypeError('an entry is not iterable')

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of an entry')


class Num:
    """a number with a name of its own"""

    def __init__(self, name):
        self.name = name

    def __format__(self, spec):
        return NUM.format(f'{self.name}:{spec}')

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a number')


class Order:
    """the positions of a list in the order of its numbers"""

    def __init__(self, name, n):
        self.name, self.n = name, n


class Numbers(Lines):
    """a list of numbers with names"""

    def num(self, f):
        return Numbers([Seg(s.n, s.ax, Num(f(s.item.name)), s.mask) for s in self.segs])

    def __pv_np__(self, name, a, k):
        if len(a) == 1 and not k and name in ('real', 'imag', 'absolute', 'abs'):
            # the numbers of a list in another order are those numbers
            def f(x):
                of, at, order = x.partition('@')
                return f'{"absolute" if name == "abs" else name}({of}){at}{order}'
            return self.num(f)
        if len(a) == 1 and name == 'argsort' and not set(k) - {'kind'} and len(self.segs) == 1:
            return Order(self.segs[0].item.name, self.full())
        return Lines.__pv_np__(self, name, a, k)

    @property
    def real(self):
        return self.__pv_np__('real', (self,), {})

    @property
    def imag(self):
        return self.__pv_np__('imag', (self,), {})

    def __abs__(self):
        return self.__pv_np__('absolute', (self,), {})

    def argsort(self, **k):
        return self.__pv_np__('argsort', (self,), k)

    def __getitem__(self, ix):
        if isinstance(ix, Order) and same(ix.n, self.full()):
            return self.num(lambda x: f'{x}@{ix.name}')
        return Lines.__getitem__(self, ix)


class Lookup:
    """a mapping from names to numbers"""
    __pv__ = True

    def __init__(self, keys, vals):
        self.k, self.v = lines(keys), lines(vals)

    def keys(self):
        return self.k

    def values(self):
        return self.v

    def items(self):
        return Zip([self.k, self.v])

    def pv_map(self, f):
        return self.k.pv_map(f)

    def __pv_len__(self):
        return self.k.full()

    def __bool__(self):
        return bool(SB(zi(self.k.full()) > 0))

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a mapping')


def pv_zip(*xs, **k):
    if any(isinstance(x, Lines) or getattr(x, '__pv__', False) for x in xs):
        return Zip([rows_of(x) for x in xs])
    return builtins.zip(*xs, **k)


def pv_map(f, *xs):
    if len(xs) == 1 and getattr(xs[0], '__pv__', False) and hasattr(xs[0], 'pv_map'):
        return xs[0].pv_map(builtins.len if f is npshim.pv_len else f)
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        return [f(x) for x in xs[0]]
    if any(getattr(x, '__pv__', False) for x in xs):
        raise Unsupported('map')
    return builtins.map(f, *xs)


def pv_max(*a, **k):
    """the width of the widest line is some number"""
    if len(a) == 1 and isinstance(a[0], Lines):
        if not a[0].segs and 'default' not in k:
            raise ValueError('max() iterable argument is empty')
        its = [s.item for s in a[0].segs]
        return 40 if any(issymw(x) for x in its) else builtins.max(its, default=0)
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and any(issymw(x) for x in a[0]) or any(issymw(x) for x in a):
        return 40
    return builtins.max(*a, **k)


def issymw(x):
    return not isinstance(x, (int, float, str))


GLOB = {'zip': pv_zip, 'map': pv_map, 'max': pv_max, 'product': product, 'list': npshim.pv_list, 'enumerate': npshim.pv_enumerate}


def concatenate(ts, axis=0, **k):
    if any(isinstance(t, Lines) for t in ts):
        return chain(list(ts))
    return npshim.NPF['concatenate'](ts, axis, **k)


def hstack(ts, **k):
    if any(isinstance(t, Lines) for t in ts):
        return chain(list(ts))
    return npshim.NPF['hstack'](ts, **k)


def array(x, *a, **k):
    if isinstance(x, Lines):
        return x
    if isinstance(x, list) and x and all(isinstance(v, (Tensor, arr.Lazy)) for v in x):
        return npshim.NPF['concatenate']([arr.expand(tensor(v), 0) for v in x], 0)
    return npshim.NPF['array'](x, *a, **k)


def ones(shape, dtype=float, **k):
    if dtype is bool:
        (n,) = npshim.shape_of(shape)
        return AllOf(n)
    return npshim.NPF['ones'](shape, dtype, **k)


def zeros(shape, dtype=float, **k):
    if dtype is bool:
        n, m = npshim.shape_of(shape)
        return BoolMat(n, m)
    return npshim.NPF['zeros'](shape, dtype, **k)


def cumsum(x, **k):
    out, n = [], 0
    for v in x:
        n = v + n
        out.append(n)
    return out


OVERRIDE = {'concatenate': concatenate, 'hstack': hstack, 'array': array, 'ones': ones, 'zeros': zeros, 'cumsum': cumsum}


class Compare:
    """what a comparison of the entries of an array gives"""

    def __call__(self, t, op, o):
        if op in ('<', '<='):
            return Less(t, o, op)
        return NotLess(t, o, '<' if op == '>=' else '<=')
