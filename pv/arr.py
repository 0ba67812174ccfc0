"""Arrays of symbolic dimensions.  An axis is built from index sets ("sorts") of unknown size by ordered
concatenation, by products (Kronecker / flattened axes) or it is one index set in an order of its own.  An array is
one polynomial per choice of index sets, in index notation: a sum of products of named entries with summed indices,
kept in a normal form, so that two arrays are equal for all sizes and all entries when their normal forms are."""
from fractions import Fraction
from itertools import permutations, product as iproduct
import numbers
import numpy as _np
from . import eng
import z3
from .eng import SI, SB, Unsupported, isint, zi

STAR = 10 ** 6          # the only index of a set of size one


def entails(c):
    return eng.CUR.entails(c)


def same(a, b):
    """entailed equality of two sizes"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return entails(zi(a) == zi(b))


# ------------------------------------------------------------------ index sets and axes
class Sort:
    def __init__(self, name, n, root=None):
        self.name, self.n = name, n
        self.root = root or self        # a window is a range of consecutive positions of another index set

    @property
    def unit(self):
        return same(self.n, 1)

    @property
    def empty(self):
        return same(self.n, 0)

    def __repr__(self):
        return self.name


def sort(name, n=None, lo=0):
    """declare an index set; without a size it gets a fresh one"""
    env = eng.CUR.env.setdefault('sorts', {})
    if name in env:
        return env[name]
    if n is None:
        n = eng.fresh_int('n' + name, lo)
    s = Sort(name, n)
    env[name] = s
    return s


def window_sort(s, n):
    root = s.root
    if same(n, root.n):
        return root
    env = eng.CUR.env.setdefault('sorts', {})
    for x in env.values():
        if x.root is root and same(x.n, n):
            return x
    x = Sort(f'{root.name}~{sum(y.root is root for y in env.values())}', n, root)
    env[x.name] = x
    return x


def shift_id(e):
    e = z3.simplify(zi(e), som=True)
    if z3.is_int_value(e):
        return e.as_long()
    reg = eng.CUR.env.setdefault('shifts', [])
    for i, x in enumerate(reg):
        if entails(x == e):
            return f's{i}'
    for k in range(3):
        if entails(e == k):
            return k
    reg.append(e)
    return f's{len(reg) - 1}'


def size_axis(n):
    """the axis meant by a size: one of those the contract declares, or an index set of its own"""
    for ax in eng.CUR.env.get('axes', ()):
        if not isinstance(n, int) and not isinstance(ax.n, int) and z3.eq(zi(ax.n), zi(n)):
            return ax
    return Lf(size_sort(n))


def size_sort(n):
    """the index set used for an axis known by its size only"""
    env = eng.CUR.env.setdefault('sorts', {})
    if same(n, 1):
        return sort('One', 1)
    for s in env.values():
        if not isinstance(s.n, int) and not isinstance(n, int) and z3.eq(zi(s.n), zi(n)):
            return s
    return sort(f'n({zi(n)})', n)


class Axis:
    ordered = True

    def __eq__(self, o):
        return isinstance(o, Axis) and self.ident() == o.ident()

    def __hash__(self):
        return hash(self.ident())

    def __repr__(self):
        return str(self.ident())


class Lf(Axis):
    def __init__(self, s, tag=''):
        self.sort, self.tag = s, tag
        self.n = s.n

    def ident(self):
        return (self.sort.name, self.tag)

    def comps(self):
        return [] if self.sort.empty else [self.ident()]

    def sorts(self, key):
        return (self.sort,)

    def parts(self):
        return [self]


class Prod(Axis):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = mulsize(a.n, b.n)

    def ident(self):
        return ('x', self.a.ident(), self.b.ident())

    def comps(self):
        return [('x', p, q) for p in self.a.comps() for q in self.b.comps()]

    def sorts(self, key):
        return self.a.sorts(key[1]) + self.b.sorts(key[2])

    def parts(self):
        return [self]


class Cat(Axis):
    """concatenation; `order` names the order when it is not that of the parts (a part may be such an axis)"""

    def __init__(self, parts, order=None):
        flat = []
        for p in parts:
            flat += p.parts() if order is None and not getattr(p, 'order', None) else [p]
        seen, out = set(), []
        self.renamed = []           # per part: map from the given component names to the ones used
        for p in flat:
            q = p
            while any(k in seen for k in leaves(q)):
                q = retag(q)
            seen.update(leaves(q))
            out.append(q)
            self.renamed.append(dict(zip(allcomps(p), allcomps(q))))
        self.given = flat
        self._parts, self.order = out, order
        self.ordered = order is None
        n = 0
        for p in out:
            n = n + p.n
        self.n = n

    def parts(self):
        return self._parts if self.order is None else [self]

    def ident(self):
        return ('+', self.order) + tuple(p.ident() for p in self._parts)

    def comps(self):
        return [k for p in self._parts for k in p.comps()]

    def part(self, key):
        for p in self._parts:
            if key in allcomps(p):
                return p
        raise KeyError(key)

    def sorts(self, key):
        return self.part(key).sorts(key)


def allcomps(ax):
    """components, those of empty sets included"""
    if isinstance(ax, Lf):
        return [ax.ident()]
    if isinstance(ax, Prod):
        return [('x', p, q) for p in allcomps(ax.a) for q in allcomps(ax.b)]
    if isinstance(ax, Anon):
        return [ax.ident()]
    return [k for p in ax._parts for k in allcomps(p)]


def leaves(ax):
    return allcomps(ax)


def retag(ax):
    if isinstance(ax, Lf):
        return Lf(ax.sort, ax.tag + "'")
    if isinstance(ax, Prod):
        return Prod(retag(ax.a), ax.b)
    if isinstance(ax, Cat):
        return Cat([retag(p) for p in ax._parts], ax.order)
    raise Unsupported('repeated part')


class Anon(Axis):
    """an axis of which only the size is known"""

    def __init__(self, n):
        self.n = n

    def ident(self):
        return ('?', str(zi(self.n)))

    def comps(self):
        raise Unsupported('axis of unknown structure')

    def parts(self):
        return [self]


class Segs(Anon):
    """consecutive segments, some of unknown structure"""

    def __init__(self, segs):
        n = 0
        for x in segs:
            n = n + x.n
        self.segs, self.n = segs, n

    def put(self, lo, hi, ax):
        """give the positions lo..hi-1 the structure of ax, or return False"""
        out, pos, done = [], 0, False
        for x in self.segs:
            end = pos + x.n
            if done or entails(z3.And(zi(end) <= zi(lo), zi(end) < zi(hi))):
                out.append(x)
            elif entails(z3.And(zi(pos) <= zi(lo), zi(hi) <= zi(end))):
                done = True
                if not isinstance(x, Anon):
                    if not same(x.n, hi - lo):
                        return False
                    out.append(x)
                else:
                    if not same(pos, lo):
                        out.append(Anon(lo - pos))
                    out.append(ax)
                    if not same(hi, end):
                        out.append(Anon(end - hi))
            elif entails(zi(end) <= zi(lo)):
                out.append(x)
            else:
                return False
            pos = end
        if done:
            self.segs = out
        return done

    def close(self):
        ps = [size_axis(x.n) if isinstance(x, Anon) else x for x in self.segs if not same(x.n, 0)]
        return mkcat(ps) if ps else size_axis(self.n)



def mulsize(a, b):
    return a * b if not isinstance(a, int) or not isinstance(b, SI) else b * a


def mkcat(parts):
    flat = [q for p in parts for q in p.parts()]
    return flat[0] if len(flat) == 1 else Cat(flat)


def live(ax):
    """the parts that are not known to be empty; an axis in an order of its own is one part"""
    if isinstance(ax, Cat) and ax.order:
        lp = [q for p in ax._parts for q in live(p)]
        return lp if len(lp) <= 1 else [ax]
    return [q for p in ax.parts() for q in (live(p) if isinstance(p, Cat) else ([] if same(p.n, 0) else [p]))]


def inner(ax):
    """the index sets of an axis in an order of its own"""
    return [q for p in ax._parts for q in live(p)]


class ShapeError(ValueError):
    pass


def align(a, b):
    """pairs of corresponding components of two axes, or an exception"""
    if a is b or a == b:
        return [(k, k) for k in a.comps()]
    pa, pb = live(a), live(b)
    if len(pa) == len(pb):
        out = []
        for p, q in zip(pa, pb):
            if isinstance(p, Cat) and isinstance(q, Cat):
                lp, lq = inner(p), inner(q)
                mp, mq = ({(r.ident()[0] if isinstance(r, Lf) else r.ident()): r for r in x} for x in (lp, lq))
                if p.order != q.order or len(mp) != len(lp) or len(mq) != len(lq) or set(mp) != set(mq):
                    break
                for r in mp:
                    out += align(mp[r], mq[r])
            elif isinstance(p, Prod) and isinstance(q, Prod):
                try:
                    ka, kb = align(p.a, q.a), align(p.b, q.b)
                except (Unsupported, ShapeError):
                    break
                out += [(('x', i, j), ('x', k, l)) for i, k in ka for j, l in kb]
            elif isinstance(p, Lf) and isinstance(q, Lf):
                if p.sort is q.sort or p.sort.name == q.sort.name or (p.sort.unit and q.sort.unit):
                    out.append((p.ident(), q.ident()))
                elif same(p.n, q.n):
                    # two index sets of the same size in the same position: identify them
                    raise Unsupported(f'index sets {p} and {q}')
                else:
                    break
            else:
                break
        else:
            return out
    if eng.CUR.check(zi(a.n) == zi(b.n)) == z3.unsat:
        raise ShapeError(f'sizes {a.n} and {b.n} differ')
    raise Unsupported(f'axes {a} and {b} do not match')


# ------------------------------------------------------------------ polynomials in index notation
ATOMS = {}              # name -> (sorts, symmetry permutations)


def atom(name, sorts, syms=None):
    if name not in ATOMS:
        ATOMS[name] = (tuple(sorts), syms)
    return name


def delta(s):
    return atom('d:' + s.name, (s, s), [(0, 1), (1, 0)])


CANON = {}


def units():
    c = eng.CUR
    v = c.env.get('units')
    if v is None or v[0] != (c.version, len(c.env.get('sorts', ()))):
        ss = c.env.get('sorts', {}).values()
        v = ((c.version, len(ss)), frozenset(s.name for s in ss if s.unit), frozenset(s.name for s in ss if s.empty))
        c.env['units'] = v
    return v[1]


def stamp():
    u = units()
    return u, eng.CUR.env['units'][2]


def purge(p):
    """renormalise: sums over empty sets vanish, sizes of known sets are numbers"""
    u, e = stamp()
    r = {}
    for m, c in p.items():
        if any(s.name in e for n, _ in m for s in ATOMS[n][0]) or any(n[0] == '#' and n[1:] in e for n, _ in m):
            continue
        t = canon(tuple(f for f in m if not (f[0][0] == '#' and f[0][1:] in u)))
        v = r.get(t, 0) + c
        if v:
            r[t] = v
        else:
            r.pop(t, None)
    return r


def canon(factors):
    """normal form of a product: (coefficient polynomial contribution is always one) a tuple of factors"""
    u = units()
    key = (tuple(factors), u)
    r = CANON.get(key)
    if r is None:
        r = CANON[key] = _canon(factors, u)
    return r


def _canon(factors, u):
    fs = []
    for name, idx in factors:
        ss = ATOMS[name][0]
        fs.append((name, tuple(STAR if ss[i].name in u else x for i, x in enumerate(idx))))
    # deltas
    changed = True
    while changed:
        changed = False
        for i, (name, idx) in enumerate(fs):
            if not name.startswith('d:'):
                continue
            a, b = idx
            if a == b:
                del fs[i]
                if a < 0:
                    # a full trace of the identity
                    fs.append((atom('#' + name[2:], ()), ()))
                changed = True
                break
            if a < 0 or b < 0:
                old, new = (a, b) if a < 0 else (b, a)
                del fs[i]
                fs = [(n, tuple(new if x == old else x for x in ix)) for n, ix in fs]
                changed = True
                break
    bound = sorted({x for _, ix in fs for x in ix if x < 0})
    if not bound:
        return tuple(sorted((n, best(n, ix)) for n, ix in fs))
    col = {b: 0 for b in bound}

    def sig(b):
        s = []
        for n, ix in fs:
            sy = ATOMS[n][1]
            for p, x in enumerate(ix):
                if x == b:
                    oth = tuple(('f', y) if y >= 0 else ('b', col[y]) for y in ix)
                    s.append((n, -1 if sy else p, tuple(sorted(oth)) if sy else oth))
        return tuple(sorted(s))
    for _ in range(len(bound) + 1):
        sg = {b: (col[b], sig(b)) for b in bound}
        ranks = {v: i for i, v in enumerate(sorted(set(sg.values())))}
        new = {b: ranks[sg[b]] for b in bound}
        if new == col:
            break
        col = new
    classes = {}
    for b in bound:
        classes.setdefault(col[b], []).append(b)
    groups = [classes[k] for k in sorted(classes)]
    tot = 1
    for g in groups:
        for i in range(2, len(g) + 1):
            tot *= i
    if tot > 40320:
        raise Unsupported('normal form too symmetric')
    win = None
    for perm in iproduct(*(permutations(g) for g in groups)):
        order = [b for g in perm for b in g]
        lab = {b: -(i + 1) for i, b in enumerate(order)}
        t = tuple(sorted((n, best(n, tuple(lab.get(x, x) for x in ix))) for n, ix in fs))
        if win is None or t < win:
            win = t
    return win


def best(n, ix):
    sy = ATOMS[n][1]
    if not sy:
        return ix
    return min(tuple(ix[p] for p in pm) for pm in sy)


def padd(*ps):
    r = {}
    for p in ps:
        for m, c in p.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


SHIFTS = {}             # name of a shifted atom -> (base name, {slot: offset})


def window_atom(name, pos, lo, sub):
    """the entries of an atom at positions lo .. lo + size of sub - 1 of its slots pos"""
    ss, syms = ATOMS[name]
    if name in DEFS:
        f, inner = DEFS[name]
        for q in pos:
            inner = window_poly(inner, q, lo, sub)
        new = list(ss)
        for q in pos:
            new[q] = sub
        (m, _), = fatom(f, inner, dict(enumerate(new))).items()
        return m[0][0]
    if name.startswith('d:') or syms:
        raise Unsupported('a range of positions of a symmetric array')
    base, sh = SHIFTS.get(name, (name, {}))
    sh = dict(sh)
    for q in pos:
        sh[q] = sh.get(q, 0) + lo
    new = tuple(sub if i in pos else x for i, x in enumerate(ss))
    tags = [(q, shift_id(sh[q]), new[q].name) for q in sorted(sh)]
    tags = [t for t in tags if not (t[1] == 0 and new[t[0]].root is new[t[0]])]
    if not tags:
        return base
    nm = base + '@' + ','.join(f'{q}:{k}:{x}' for q, k, x in tags)
    atom(nm, new)
    SHIFTS[nm] = (base, sh)
    return nm


def window_poly(p, slot, lo, sub):
    r = {}
    for m, c in p.items():
        fs = tuple((window_atom(n, [i for i, x in enumerate(ix) if x == slot], lo, sub), ix) if slot in ix else (n, ix)
                   for n, ix in m)
        r = padd(r, {canon(fs): c})
    return r


def reset():
    """forget the entries declared on another path"""
    for t in (ATOMS, CANON, DEFS, SHIFTS):
        t.clear()


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pmap(p, f):
    """rename free indices by f (a dict or function), bound ones stay"""
    g = f if callable(f) else (lambda i: f[i])
    r = {}
    for m, c in p.items():
        t = canon(tuple((n, tuple(x if x < 0 or x == STAR else g(x) for x in ix)) for n, ix in m))
        v = r.get(t, 0) + c
        if v:
            r[t] = v
        else:
            r.pop(t, None)
    return r


def pmul(p, q, f=None, g=None):
    """product with free indices renamed by f and g; images < 0 are summed over"""
    r = {}
    f = f or (lambda i: i)
    g = g or (lambda i: i)
    for m, c in p.items():
        m1 = tuple((n, tuple(x - 1000 if x < 0 else (x if x == STAR else f(x)) for x in ix)) for n, ix in m)
        for k, d in q.items():
            m2 = tuple((n, tuple(x - 2000 if x < 0 else (x if x == STAR else g(x)) for x in ix)) for n, ix in k)
            t = canon(m1 + m2)
            v = r.get(t, 0) + c * d
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def psum(p, slots, keep, sorts_):
    """sum over the given free slots; keep maps remaining slots to new numbers; a sum in which a slot does not
    occur in a term multiplies it by the size of the set"""
    r = {}
    for m, c in p.items():
        extra = []
        ren = {}
        for j, s in enumerate(slots):
            ren[s] = -5000 - j
        used = {x for _, ix in m for x in ix}
        mult = {(): 1}
        for s in slots:
            if s not in used and not (sorts_[s].name in units()):
                mult = pmul(mult, sipoly(sorts_[s].n))
        fs = tuple((n, tuple(x if x < 0 or x == STAR else (ren[x] if x in ren else keep[x]) for x in ix)) for n, ix in m)
        t = {canon(fs): c}
        t = pmul(t, mult) if mult != {(): 1} else t
        r = padd(r, t)
    return r


def const(k):
    k = Fraction(k)
    return {(): k} if k else {}


def sipoly(n):
    """a size as a polynomial in size symbols"""
    if isinstance(n, (int, Fraction)):
        return const(n)
    return _zpoly(z3.simplify(n.e if isinstance(n, SI) else n, som=True))


def _zpoly(e):
    if z3.is_int_value(e):
        return const(e.as_long())
    if z3.is_add(e):
        return padd(*(_zpoly(x) for x in e.children()))
    if z3.is_mul(e):
        r = const(1)
        for x in e.children():
            r = pmul(r, _zpoly(x))
        return r
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return pscale(_zpoly(e.arg(0)), -1)
    if z3.is_sub(e):
        xs = [_zpoly(x) for x in e.children()]
        return padd(xs[0], *(pscale(x, -1) for x in xs[1:]))
    if z3.is_const(e):
        # the size of a declared set is the sum of ones over it
        for s in eng.CUR.env.get('sorts', {}).values():
            if isinstance(s.n, SI) and z3.eq(s.n.e, e):
                if s.unit:
                    return const(1)
                return {((atom('#' + s.name, ()), ()),): Fraction(1)}
        return {((atom('#int:' + str(e), ()), ()),): Fraction(1)}
    raise Unsupported(f'size expression {e}')


def pstr(p):
    return repr(sorted((m, str(c)) for m, c in p.items()))


def free(p):
    return sorted({x for m in p for _, ix in m for x in ix if 0 <= x < STAR})


def fatom(fname, p, sorts_):
    """the opaque scalar f(p), f uninterpreted"""
    fr = free(p)
    ren = {x: i for i, x in enumerate(fr)}
    key = pstr(pmap(p, ren))
    name = atom(f'{fname}<{key}>', tuple(sorts_[x] for x in fr))
    DEFS[name] = (fname, pmap(p, ren))
    return {canon(((name, tuple(fr)),)): Fraction(1)}


DEFS = {}


def precip(p, sorts_):
    if len(p) == 1:
        (m, c), = p.items()
        if not any(x < 0 for _, ix in m for x in ix):
            r = const(1 / c)
            for n, ix in m:
                if n.startswith('recip<'):
                    inner = DEFS[n][1]
                    r = pmul(r, pmap(inner, dict(enumerate(ix))))
                else:
                    ss = dict(zip(ix, ATOMS[n][0]))
                    r = pmul(r, fatom('recip', {canon(((n, ix),)): Fraction(1)}, ss))
            return r
    if not p:
        raise Unsupported('division by zero')
    return fatom('recip', p, sorts_)


def cancel(p):
    """a * recip(a) = 1 for single entries that are not summed over"""
    r = {}
    for m, c in p.items():
        fs = list(m)
        again = True
        while again:
            again = False
            for f in fs:
                if f[0].startswith('recip<'):
                    inner = pmap(DEFS[f[0]][1], dict(enumerate(f[1])))
                    if len(inner) == 1:
                        (im, ic), = inner.items()
                        if len(im) == 1 and im[0] in fs and ic == 1:
                            fs.remove(f)
                            fs.remove(im[0])
                            again = True
                            break
        r = padd(r, {tuple(sorted(fs)): c})
    return r


# ------------------------------------------------------------------ arrays
def isnum(x):
    return isinstance(x, (numbers.Real, Fraction)) and not isinstance(x, SI)


class Tensor:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, axes, blocks, frozen=False, base=None, dtype=float):
        self.axes, self._b = list(axes), blocks
        self.frozen, self.base = frozen, base
        self.basemut = base.mut if base is not None else 0
        self.mut = 0
        self.stamp = stamp()
        self.dtype = dtype

    # -- structure
    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(a.n for a in self.axes)

    @property
    def size(self):
        r = 1
        for a in self.axes:
            r = mulsize(r, a.n)
        return r

    def __len__(self):
        n = self.axes[0].n
        if isinstance(n, SI):
            raise Unsupported('len of a symbolic axis must be taken through the layer')
        return n

    @property
    def blocks(self):
        if self.poison:
            raise Unsupported('an array is read after one of its views was written')
        if self.base is not None and self.base.mut != self.basemut:
            raise Unsupported('a view is read after its base was written')
        u = stamp()
        if u != self.stamp:
            self._b = {k: purge(p) for k, p in self._b.items()}
            self.stamp = u
        return self._b

    def keys(self):
        return iproduct(*(a.comps() for a in self.axes))

    def slots(self, key):
        r = []
        for a, k in zip(self.axes, key):
            r += a.sorts(k)
        return r

    def get(self, key):
        return self.blocks.get(key, {})

    def writable(self):
        b = self
        while b is not None:
            if b.frozen:
                eng.CUR.goal('frame: the arrays it is given are left as they were', False, detail='an argument is written')
                raise eng.PathEnd()
            b = b.base
        if self.base is not None:
            # written through a view: what it is a view of may not be read any more
            self.blocks
            if self.viewix is not None:
                return
            b, self.base = self.base, None
            while b is not None:
                b.poison = True
                b.mut += 1
                b = b.base

    poison = False
    viewix = None

    def commit(self):
        """a write to a view of consecutive positions is a write to the array itself"""
        if self.base is not None and self.viewix is not None:
            setitem(self.base, self.viewix, Tensor(self.axes, self._b))
            self.basemut = self.base.mut

    # -- elementwise
    def _bin(self, o, f):
        o = lift(o)
        if o is NotImplemented:
            return o
        a, b = broadcast(self, o)
        return Tensor(a.axes, f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: {k: padd(a.get(k), b.get(k)) for k in a.keys()})
    __radd__ = __add__

    def __neg__(self):
        return self.scale(-1)

    def __pos__(self):
        return self

    def scale(self, k):
        return Tensor(self.axes, {key: pscale(p, Fraction(k)) for key, p in self.blocks.items()})

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isnum(o):
            return self.scale(o)
        return self._bin(o, lambda a, b: {k: pmul(a.get(k), b.get(k)) for k in a.keys()})
    __rmul__ = __mul__

    def recip(self):
        out = {}
        for k in self.keys():
            out[k] = precip(self.get(k), self.slots(k))
        return Tensor(self.axes, out)

    def __truediv__(self, o):
        if isnum(o):
            return self.scale(1 / Fraction(o))
        o = lift(o)
        if o is NotImplemented:
            return o
        r = self * o.recip()
        return Tensor(r.axes, {k: cancel(p) for k, p in r.blocks.items()})

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, k):
        if k == 2:
            return self * self
        if k == .5:
            return apply('sqrt', self)
        raise Unsupported('power')

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def _inplace(self, r):
        self.writable()
        r = fit(r, self.axes)
        self._b, self.stamp = r.blocks, stamp()
        self.mut += 1
        self.commit()
        return self

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(lift(o), self)

    def dot(self, o):
        return dot(self, o)

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __iter__(self):
        raise Unsupported('iteration over an array')

    def _cmp(self, o):
        raise Unsupported('comparison of entries')
    __eq__ = __ne__ = _cmp

    def __lt__(self, o):
        h = eng.CUR.env.get('compare')
        return h(self, '<', o) if h else self._cmp(o)

    def __le__(self, o):
        h = eng.CUR.env.get('compare')
        return h(self, '<=', o) if h else self._cmp(o)

    def __gt__(self, o):
        h = eng.CUR.env.get('compare')
        return h(self, '>', o) if h else self._cmp(o)

    def __ge__(self, o):
        h = eng.CUR.env.get('compare')
        return h(self, '>=', o) if h else self._cmp(o)
    __hash__ = object.__hash__

    def __abs__(self):
        return apply('abs', self)

    # -- shape changes
    @property
    def T(self):
        return transpose(self)

    def transpose(self, *a):
        return transpose(self, *(a or (None,)))

    def copy(self, *a, **k):
        return Tensor(self.axes, dict(self.blocks))

    def astype(self, *a, **k):
        return self.copy()

    def flatten(self, order='C'):
        return Tensor.ravel(self, order).copy()

    def ravel(self, order='C'):
        t = self if order == 'C' else transpose(self)
        if order not in ('C', 'F'):
            raise Unsupported('order')
        if t.ndim <= 1:
            return Tensor(t.axes, t.blocks, base=self)
        while t.ndim > 1:
            t = merge(t, t.ndim - 2)
        t.base, t.basemut = self, self.mut
        return t

    def reshape(self, *shape, order='C'):
        if order != 'C':
            raise Unsupported('order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        r = reshape(self, shape)
        r.base, r.basemut = self, self.mut
        return r

    def squeeze(self, axis=None):
        t = self
        if axis is None:
            for i in reversed(range(t.ndim)):
                if SB(zi(t.axes[i].n) == 1) if not isinstance(t.axes[i].n, int) else t.axes[i].n == 1:
                    t = drop(t, i)
        else:
            i = axis if axis >= 0 else t.ndim + axis
            if not same(t.axes[i].n, 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
            t = drop(t, i)
        return Tensor(t.axes, t.blocks, base=self)

    def item(self, *a):
        t = self
        if a:
            return t[a]
        for i in reversed(range(t.ndim)):
            n = t.axes[i].n
            one = n == 1 if isinstance(n, int) else bool(SB(zi(n) == 1))
            if not one:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            t = drop(t, i)
        return t

    def diagonal(self, offset=0, **k):
        if offset:
            raise Unsupported('off-diagonal')
        return diag(self)

    def sum(self, axis=None, **k):
        return sum_(self, axis)

    def mean(self, axis=None):
        return mean(self, axis)

    # -- indexing
    def __getitem__(self, ix):
        return getitem(self, ix)

    def __setitem__(self, ix, v):
        setitem(self, ix, v)

    def __repr__(self):
        return f'Tensor({[str(a) for a in self.axes]})'


def scalar(p):
    return Tensor([], {(): p})


def lift(x):
    if isinstance(x, (Tensor, Lazy)):
        return x.solid() if isinstance(x, Lazy) and not x.open() else x
    if isnum(x):
        return scalar(const(Fraction(x)))
    if isinstance(x, SI):
        return scalar(sipoly(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return scalar(const(Fraction(x.item())))
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'fiu':
        if x.size == 0 or (x == x.flat[0]).all():
            return Lazy('const', [Anon(int(k)) for k in x.shape], Fraction(x.flat[0].item()) if x.size else 0)
    return NotImplemented


class Lazy:
    """constant and identity-like arrays, whose axes take their structure from what they are combined with"""
    __array_ufunc__ = None

    def __init__(self, kind, axes, c=0, k=0):
        self.kind, self.axes, self.c, self.k = kind, list(axes), Fraction(c), k
        self.t = None
        self.frozen = False
        self.pending = []

    def plain(self):
        return self.t is None and not self.pending

    def open(self):
        return any(isinstance(a, Anon) for a in self.axes)

    def refine(self, i, ax):
        if not isinstance(self.axes[i], Anon):
            return
        if isinstance(ax, Anon):
            return
        n = self.axes[i].n
        if isinstance(self.axes[i], Segs) and not same(n, ax.n):
            return
        if not same(n, ax.n):
            if eng.CUR.check(zi(n) == zi(ax.n)) == z3.unsat:
                raise ShapeError(f'sizes {n} and {ax.n} differ')
            if isinstance(ax.n, int) and ax.n == 1:
                return
            if bool(SB(zi(n) == zi(ax.n))) is False:
                raise ShapeError(f'sizes {n} and {ax.n} differ')
        self.axes[i] = ax
        if self.kind == 'eye':
            j = 1 - i
            if isinstance(self.axes[j], Anon):
                m = self.axes[j].n
                off = self.k if i == 1 else -self.k
                # positions off .. off+m of ax correspond to this axis's positions
                if same(off, 0) and same(m, ax.n):
                    self.axes[j] = ax
                elif i == 1 and entails(zi(off) >= 0) and entails(zi(off) + zi(m) <= zi(ax.n)):
                    self.axes[j] = mkcat(slice_parts(ax, off, off + m) or [Lf(sort('Nil', 0))])

    def solid(self):
        if self.t is None:
            for i, a in enumerate(self.axes):
                if isinstance(a, Segs):
                    self.axes[i] = a.close()
                elif isinstance(a, Anon):
                    self.refine(i, size_axis(a.n))
            if self.kind == 'const':
                b = {}
                if self.c:
                    for key in iproduct(*(a.comps() for a in self.axes)):
                        b[key] = const(self.c)
                self.t = Tensor(self.axes, b)
            elif self.kind == 'nan':
                b = {}
                for key in iproduct(*(a.comps() for a in self.axes)):
                    ss = [s for a, k in zip(self.axes, key) for s in a.sorts(k)]
                    b[key] = fatom('nan', {((atom('undefined', ()), ()),): Fraction(1)}, ss)
                self.t = Tensor(self.axes, b)
            else:
                self.t = eye_blocks(self.axes[0], self.axes[1], self.k)
            todo, self.pending = self.pending, []
            for ixs, v in todo:
                self.t[ixs] = v
        return self.t

    # anything but refinement goes to the solid array
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return getattr(self.solid(), a)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(a.n for a in self.axes)

    @property
    def size(self):
        r = 1
        for a in self.axes:
            r = mulsize(r, a.n)
        return r

    def __getitem__(self, ix):
        ixs = full_index(self, ix)
        self.hint(ixs)
        if self.kind == 'const' and self.open() and self.plain() and all(isinstance(i, slice) for i in ixs):
            axes = []
            for a, i in zip(self.axes, ixs):
                if i == slice(None):
                    axes.append(a)
                elif isinstance(a, Anon) and i.step is None:
                    axes.append(Anon(slice_size(a.n, i)))
                else:
                    axes = None
                    break
            if axes is not None:
                return Lazy('const', axes, self.c)
        return self.solid()[ix]

    def hint(self, ixs, v=None):
        """take the axes' structure from the index arrays"""
        for i, x in enumerate(ixs):
            if isinstance(self.axes[i], Anon):
                ax = target_axis(x)
                if ax is not None and same(ax.n, self.axes[i].n):
                    self.refine(i, ax)

    def __setitem__(self, ix, v):
        ixs = full_index(self, ix)
        self.hint(ixs)
        v = lift(v)
        if v is NotImplemented:
            raise Unsupported('assigned value')
        # remaining whole axes take theirs from the value
        kept = [i for i, x in enumerate(ixs) if not is_point(x)]
        for i, j in zip(reversed(kept), reversed(range(v.ndim))):
            if isinstance(self.axes[i], Anon) and isinstance(ixs[i], slice) and ixs[i] == slice(None) \
                    and not isinstance(v.axes[j], Anon) and same(v.axes[j].n, self.axes[i].n):
                self.refine(i, v.axes[j])
        if self.t is None and self.open() and all(isinstance(x, slice) and x.step in (None, 1) for x in ixs) and self.defer(ixs, v):
            return
        hook = eng.CUR.env.get('axis_hint')
        for i, a in enumerate(self.axes):
            if isinstance(a, Anon) and hook is not None:
                ax = hook(a.n)
                if ax is not None:
                    self.refine(i, ax)
        t = self.solid()
        t[ix] = v

    def defer(self, ixs, v):
        """remember a write to consecutive positions until the structure of every axis is known"""
        new = []
        for i, x in enumerate(ixs):
            a = self.axes[i]
            if not isinstance(a, Anon) or x == slice(None):
                new.append(a)
                continue
            lo = norm_pos(0 if x.start is None else x.start, a.n)
            hi = norm_pos(a.n if x.stop is None else x.stop, a.n)
            j = v.ndim - len(ixs) + i
            if same(lo, hi):
                new.append(a)
                continue
            if j < 0 or isinstance(v.axes[j], Anon) or not same(v.axes[j].n, hi - lo):
                return False
            sg = Segs(list(a.segs) if isinstance(a, Segs) else [Anon(a.n)])
            if not sg.put(lo, hi, v.axes[j]):
                return False
            if not any(isinstance(q, Anon) for q in sg.segs):
                sg = sg.close()
            new.append(sg)
        self.axes = new
        if isinstance(v, Lazy):
            v = v.copy()
        else:
            v = Tensor(v.axes, dict(v.blocks))
        self.pending.append((tuple(ixs), v))
        return True

    def __add__(self, o): return _lz(self, o, lambda a, b: a + b)
    def __radd__(self, o): return _lz(self, o, lambda a, b: b + a)
    def __sub__(self, o): return _lz(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return _lz(self, o, lambda a, b: b - a)
    def __mul__(self, o): return _lz(self, o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o): return _lz(self, o, lambda a, b: a / b)
    def __rtruediv__(self, o): return _lz(self, o, lambda a, b: b / a)

    def __neg__(self):
        return Lazy('const', self.axes, -self.c) if self.kind == 'const' and self.plain() else -self.solid()

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __iadd__(self, o):
        return _lz(self, o, lambda a, b: a.__iadd__(b))

    def __len__(self):
        return Tensor.__len__(self)

    @property
    def T(self):
        return transpose(self)

    def copy(self):
        if self.plain():
            return Lazy(self.kind, self.axes, self.c, self.k)
        return self.t.copy()

    def reshape(self, *s, **k):
        return self.solid().reshape(*s, **k)

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __iter__(self):
        raise Unsupported('iteration over an array')

    def __repr__(self):
        return f'Lazy({self.kind},{self.axes})'


def _lz(a, o, f):
    o = lift(o)
    if o is NotImplemented:
        return NotImplemented
    if a.plain() and a.open() and isinstance(o, Lazy) and o.plain() and o.open() and a.kind == o.kind == 'const' and len(a.axes) == len(o.axes):
        if all(same(x.n, y.n) for x, y in zip(a.axes, o.axes)):
            v = f(a.c, o.c)
            return Lazy('const', [y if isinstance(x, Anon) else x for x, y in zip(a.axes, o.axes)], v)
    if a.plain() and a.kind == 'const' and isinstance(o, Tensor) and o.ndim == 0 and a.open():
        p = o.get(())
        if set(p) <= {()}:
            return Lazy('const', a.axes, f(a.c, p.get((), Fraction(0))))
    # structure from the other operand
    for i in range(1, min(len(a.axes), o.ndim) + 1):
        if isinstance(a.axes[-i], Anon) and same(a.axes[-i].n, o.axes[-i].n):
            a.refine(len(a.axes) - i, o.axes[-i])
        if isinstance(o, Lazy) and isinstance(o.axes[-i], Anon) and same(a.axes[-i].n, o.axes[-i].n):
            o.refine(len(o.axes) - i, a.axes[-i])
    return f(a.solid(), o.solid() if isinstance(o, Lazy) else o)


def solid(x):
    return x.solid() if isinstance(x, Lazy) else x


def tensor(x):
    x = lift(x)
    if x is NotImplemented:
        raise Unsupported('not an array of this layer')
    return solid(x)


def eye_blocks(r, c, k):
    """entries 1 where column position = row position + k"""
    t = Tensor([r, c], {})
    pr, pc = 0, None
    rows, pos = [], 0
    if r == c and same(k, 0):
        for key in r.comps():
            t._b[(key, key)] = delta_poly(r.sorts(key))
        return t
    for p in live(r):
        rows.append((p, pos))
        pos = pos + p.n
    cols, pos = [], 0
    for p in live(c):
        cols.append((p, pos))
        pos = pos + p.n
    for p, a in rows:
        for q, b in cols:
            if same(a + k, b) and same(p.n, q.n):
                for i, j in align(p, q):
                    t._b[(i, j)] = delta_poly(p.sorts(i))
            elif entails(z3.Or(zi(a + k) + zi(p.n) <= zi(b), zi(b) + zi(q.n) <= zi(a + k))):
                pass
            else:
                raise Unsupported('identity block that does not follow the parts')
    return t


def delta_poly(sorts_):
    n = len(sorts_)
    return {canon(tuple((delta(s), (i, i + n)) for i, s in enumerate(sorts_))): Fraction(1)}


def atoms(name, axes, sym=None, frozen=True):
    """an arbitrary array.  sym: lists of axis positions (or slots of a product axis) exchangeable pairwise: 'matrix' for
    a symmetric matrix, 'prod' for an array symmetric in the two factors of its last, product, axis"""
    t = Tensor(axes, {}, frozen=frozen)
    for key in t.keys():
        ss = t.slots(key)
        n = len(ss)
        idx = list(range(n))
        syms, nk = None, key
        if sym == 'matrix':
            if key[1] < key[0]:
                nk, idx = (key[1], key[0]), [1, 0]
            elif key[1] == key[0]:
                syms = [(0, 1), (1, 0)]
        elif sym == 'prod':
            _, a, b = key[-1]
            if b < a:
                nk, idx = key[:-1] + (('x', b, a),), idx[:-2] + [n - 1, n - 2]
            elif a == b:
                syms = [tuple(range(n)), tuple(range(n - 2)) + (n - 1, n - 2)]
        nss = [ss[i] for i in idx]
        nm = atom(f'{name}{list(map(kstr, nk))}', nss, syms)
        t._b[key] = {canon(((nm, tuple(idx)),)): Fraction(1)}
    return t


def kstr(k):
    if k[0] == 'x':
        return f'({kstr(k[1])}*{kstr(k[2])})'
    return ':'.join(x for x in k if x)


# ------------------------------------------------------------------ combining
def fit(t, axes):
    """t (or a broadcastable array) re-expressed over axes"""
    t = tensor(t)
    while t.ndim < len(axes):
        t = Tensor([Lf(sort('One', 1))] + t.axes, {((sort('One', 1).name, ''),) + k: pmap(p, lambda i: i + 1) for k, p in t.blocks.items()})
    for i, ax in enumerate(axes):
        t = fit_axis(t, i, ax)
    return t


def fit_axis(t, i, ax):
    t = tensor(t)
    if t.axes[i] == ax:
        return t
    if thin(t.axes[i]):
        t = slim(t, i)
    if thin(ax):
        return fatten(t, i, ax)
    return fit_axis1(t, i, ax)


def fit_axis1(t, i, ax):
    cur = t.axes[i]
    if cur == ax:
        return t
    if same(cur.n, 1):
        try:
            m = dict(align(cur, ax)) if same(ax.n, 1) else None
        except Unsupported:
            m = None
    if same(cur.n, 1) and m is None:
        # stretch: the one position stands for every position
        d = drop(t, i)
        out = {}
        for key, p in d.blocks.items():
            for k in ax.comps():
                before = sum(len(a.sorts(q)) for a, q in zip(d.axes[:i], key[:i]))
                w = len(ax.sorts(k))
                out[key[:i] + (k,) + key[i:]] = pmap(p, lambda s: s if s < before else s + w)
        return Tensor(d.axes[:i] + [ax] + d.axes[i:], out)
    m = dict(align(cur, ax))
    return Tensor(t.axes[:i] + [ax] + t.axes[i + 1:],
                  {k[:i] + (m[k[i]],) + k[i + 1:]: p for k, p in t.blocks.items() if k[i] in m})


def broadcast(a, b):
    if isinstance(a, Lazy) or isinstance(b, Lazy):
        for i in range(1, min(a.ndim, b.ndim) + 1):
            if isinstance(a.axes[-i], Anon) and same(a.axes[-i].n, b.axes[-i].n):
                a.refine(a.ndim - i, b.axes[-i])
            elif isinstance(b.axes[-i], Anon) and same(a.axes[-i].n, b.axes[-i].n):
                b.refine(b.ndim - i, a.axes[-i])
        a, b = solid(a), solid(b)
    axes = []
    n = max(a.ndim, b.ndim)
    for i in range(n, 0, -1):
        x = a.axes[-i] if i <= a.ndim else None
        y = b.axes[-i] if i <= b.ndim else None
        if x is None or y is None:
            axes.append(x or y)
        elif same(x.n, y.n):
            axes.append(x)
        elif same(x.n, 1):
            axes.append(y)
        elif same(y.n, 1):
            axes.append(x)
        else:
            # sizes may or may not agree: agree, or one is a one
            if bool(SB(zi(x.n) == zi(y.n))):
                axes.append(x)
            elif bool(SB(zi(x.n) == 1)):
                axes.append(y)
            elif bool(SB(zi(y.n) == 1)):
                axes.append(x)
            else:
                raise ShapeError(f'operands could not be broadcast together: {x.n} and {y.n}')
    return fit(a, axes), fit(b, axes)


def settle(ax):
    """split on which part of an axis of size one is the one that is there"""
    if isinstance(ax, Prod):
        settle(ax.a)
        settle(ax.b)
    elif isinstance(ax, Cat):
        for p in ax._parts:
            settle(p)
    elif isinstance(ax.n, SI):
        eng.CUR.decide(zi(ax.n) == 1)


def drop(t, i):
    """remove an axis of size one"""
    t = tensor(t)
    ax = t.axes[i]
    cs = ax.comps()
    if len(cs) != 1:
        settle(ax)
        cs = ax.comps()
        if len(cs) != 1:
            raise Unsupported(f'axis {ax} of size one with several parts {cs} {eng.CUR.where()}')
    k = cs[0]
    out = {}
    for key, p in t.blocks.items():
        if key[i] != k:
            continue
        before = sum(len(a.sorts(q)) for a, q in zip(t.axes[:i], key[:i]))
        w = len(ax.sorts(k))
        q = pmap(p, lambda s: s if s < before else s - w)
        out[key[:i] + key[i + 1:]] = q
    return Tensor(t.axes[:i] + t.axes[i + 1:], out)


def expand(t, i):
    t = tensor(t)
    one = Lf(sort('One', 1))
    out = {}
    for key, p in t.blocks.items():
        before = sum(len(a.sorts(q)) for a, q in zip(t.axes[:i], key[:i]))
        out[key[:i] + (one.ident(),) + key[i:]] = pmap(p, lambda s: s if s < before else s + 1)
    return Tensor(t.axes[:i] + [one] + t.axes[i:], out, base=t)


def transpose(t, axes=None):
    if isinstance(t, Lazy):
        if t.plain() and t.kind == 'const' and axes is None:
            return Lazy('const', t.axes[::-1], t.c)
        t = t.solid()
    perm = list(axes) if axes is not None else list(range(t.ndim))[::-1]
    out = {}
    for key, p in t.blocks.items():
        offs, pos = [], 0
        for a, k in zip(t.axes, key):
            w = len(a.sorts(k))
            offs.append((pos, w))
            pos += w
        ren, n = {}, 0
        for j in perm:
            for s in range(offs[j][1]):
                ren[offs[j][0] + s] = n
                n += 1
        out[tuple(key[j] for j in perm)] = pmap(p, ren)
    return Tensor([t.axes[j] for j in perm], out, base=t)


def merge(t, i):
    """axes i and i+1 become one product axis"""
    t = tensor(t)
    out = {}
    for key, p in t.blocks.items():
        out[key[:i] + (('x', key[i], key[i + 1]),) + key[i + 2:]] = p
    return Tensor(t.axes[:i] + [Prod(t.axes[i], t.axes[i + 1])] + t.axes[i + 2:], out)


def split(t, i):
    t = tensor(t)
    ax = t.axes[i]
    if isinstance(ax, Cat) and len(live(ax)) == 1:
        ax = live(ax)[0]
    out = {}
    for key, p in t.blocks.items():
        _, a, b = key[i]
        out[key[:i] + (a, b) + key[i + 1:]] = p
    return Tensor(t.axes[:i] + [ax.a, ax.b] + t.axes[i + 1:], out)


def reshape(t, shape):
    t = tensor(t)
    shape = [s if not isinstance(s, _np.integer) else int(s) for s in shape]
    axes = list(t.axes)
    if any(isinstance(s, int) and s == -1 for s in shape):
        known, rest = 1, None
        if len(shape) == 1:
            shape = [t.size]
        else:
            # -1 stands for what is left when the others are matched
            if len(shape) == t.ndim:
                shape = [axes[i].n if isinstance(s, int) and s == -1 else s for i, s in enumerate(shape)]
            elif len(shape) == 2 and t.ndim == 1 and isinstance(axes[0], Prod):
                shape = [(axes[0].a.n if j == 0 else axes[0].b.n) if isinstance(s, int) and s == -1 else s for j, s in enumerate(shape)]
            elif len(shape) == 2 and t.ndim == 1 and 1 in [s for s in shape if isinstance(s, int)]:
                shape = [t.size if isinstance(s, int) and s == -1 else s for s in shape]
            else:
                raise Unsupported('reshape with -1')
    i, out = 0, t
    j = 0
    while j < len(shape):
        s = shape[j]
        if i < out.ndim and same(out.axes[i].n, s):
            i, j = i + 1, j + 1
            continue
        if same(s, 1):
            out = expand(out, i)
            i, j = i + 1, j + 1
            continue
        if i < out.ndim and same(out.axes[i].n, 1):
            out = drop(out, i)
            continue
        ax = out.axes[i] if i < out.ndim else None
        if isinstance(ax, Cat) and len(live(ax)) == 1:
            ax = live(ax)[0]
        if isinstance(ax, Prod) and same(ax.a.n, s):
            out = split(out, i)
            continue
        if i + 1 < out.ndim and not entails(zi(out.axes[i].n) > zi(s)):
            out = merge(out, i)
            if i + 1 >= out.ndim and not same(out.axes[i].n, s):
                break
            continue
        # unknown sizes: the shape may still be right on part of the paths
        if ax is not None and isinstance(s, (int, SI)) and j == len(shape) - 1:
            if bool(SB(zi(ax.n) == zi(s))):
                continue
            raise ShapeError('cannot reshape')
        if ax is not None and isinstance(ax.n, SI) and bool(SB(ax.n.e == 1)):
            continue
        raise Unsupported(f'reshape of {out.axes} to {shape}')
    while i < out.ndim:
        if same(out.axes[i].n, 1):
            out = drop(out, i)
            continue
        if bool(SB(zi(out.axes[i].n) == 1)):
            continue
        raise ShapeError('cannot reshape')
    return Tensor(out.axes, out.blocks)


def contract(a, i, b, j):
    """sum over axis i of a and axis j of b; the remaining axes of a, then those of b"""
    if isinstance(a, Lazy) and isinstance(a.axes[i], Anon):
        a.refine(i, b.axes[j])
    if isinstance(b, Lazy) and isinstance(b.axes[j], Anon):
        b.refine(j, a.axes[i])
    a, b = solid(a), solid(b)
    if a.axes[i] != b.axes[j]:
        a, b = slim(a, i), slim(b, j)
    axes = a.axes[:i] + a.axes[i + 1:] + b.axes[:j] + b.axes[j + 1:]
    try:
        pairs = align(a.axes[i], b.axes[j])
    except ShapeError:
        raise ValueError('matmul: mismatch in core dimension')
    out = {}
    byb = {}
    for kb, q in b.blocks.items():
        byb.setdefault(kb[j], []).append((kb, q))
    tr = dict(pairs)
    for ka, p in a.blocks.items():
        if ka[i] not in tr or not p:
            continue
        for kb, q in byb.get(tr[ka[i]], ()):
            if not q:
                continue
            ws = [len(x.sorts(k)) for x, k in zip(a.axes, ka)]
            wb = [len(x.sorts(k)) for x, k in zip(b.axes, kb)]
            oa, ob = sum(ws[:i]), sum(wb[:j])
            w = ws[i]
            na = sum(ws) - w

            def f(s, oa=oa, w=w):
                return s if s < oa else (-3000 - (s - oa) if s < oa + w else s - w)

            def g(s, ob=ob, w=w, na=na):
                return na + s if s < ob else (-3000 - (s - ob) if s < ob + w else na + s - w)
            r = pmul(p, q, f, g)
            # entries that do not depend on the summed index: the sum multiplies by the size
            key = ka[:i] + ka[i + 1:] + kb[:j] + kb[j + 1:]
            r = missing(p, q, oa, ob, w, f, g, a.axes[i].sorts(ka[i]), r)
            out[key] = padd(out.get(key, {}), r)
    return Tensor(axes, out)


def missing(p, q, oa, ob, w, f, g, ss, r):
    """recompute term by term when some product does not mention a summed index"""
    un = units()
    need = [s for s in range(w) if ss[s].name not in un]

    def lacks(poly, o):
        return any(any(all(x != o + s for _, ix in m for x in ix) for s in need) for m in poly)
    if not need or not (lacks(p, oa) and lacks(q, ob)):
        return r
    r = {}
    for m, c in p.items():
        for k, d in q.items():
            t = pmul({m: c}, {k: d}, f, g)
            for s in need:
                if all(x != oa + s for _, ix in m for x in ix) and all(x != ob + s for _, ix in k for x in ix):
                    t = pmul(t, sipoly(ss[s].n))
            r = padd(r, t)
    return r


def matmul(a, b):
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        raise Unsupported('matmul operand')
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: input operand does not have enough dimensions')
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('stacked matmul')
    checkdims(a.axes[-1], b.axes[0] if b.ndim < 3 else b.axes[-2])
    return contract(a, a.ndim - 1, b, 0)


def checkdims(x, y):
    if not same(x.n, y.n):
        if not bool(SB(zi(x.n) == zi(y.n))):
            raise ValueError(f'mismatch in core dimension: {x.n} and {y.n}')


def dot(a, b):
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        raise Unsupported('dot operand')
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        checkdims(a.axes[-1], b.axes[0])
        return contract(a, a.ndim - 1, b, 0)
    checkdims(a.axes[-1], b.axes[-2])
    return contract(a, a.ndim - 1, b, b.ndim - 2)


def outerprod(a, b):
    """all axes of a, then all of b"""
    a, b = tensor(a), tensor(b)
    out = {}
    for ka, p in a.blocks.items():
        na = len(a.slots(ka))
        for kb, q in b.blocks.items():
            out[ka + kb] = pmul(p, q, None, lambda s: s + na)
    return Tensor(a.axes + b.axes, out)


def outer(a, b):
    a, b = tensor(a), tensor(b)
    if a.ndim != 1:
        a = a.ravel()
    if b.ndim != 1:
        b = b.ravel()
    return outerprod(a, b)


def kron(a, b):
    a, b = lift(a), lift(b)
    a, b = solid(a), solid(b)
    while a.ndim < b.ndim:
        a = expand(a, 0)
    while b.ndim < a.ndim:
        b = expand(b, 0)
    n = a.ndim
    t = outerprod(a, b)
    if n == 0:
        return t
    perm = [x for i in range(n) for x in (i, n + i)]
    t = transpose(t, perm)
    for i in range(n):
        t = merge(t, i)
    # a product with a set of one element is that axis
    for i in range(n):
        t = simplify_prod(t, i)
    t.base = None
    return t


def thin(ax):
    """a product axis with a factor of size one"""
    if isinstance(ax, Cat) and not ax.order and len(live(ax)) == 1:
        ax = live(ax)[0]
    return isinstance(ax, Prod) and (same(ax.a.n, 1) or same(ax.b.n, 1))


def slim(t, i):
    """without the factors of size one of axis i"""
    while thin(t.axes[i]):
        ax = t.axes[i]
        if isinstance(ax, Cat):
            t = fit_axis1(t, i, live(ax)[0])
            ax = t.axes[i]
        which = 0 if same(ax.a.n, 1) else 1
        t = drop(split(t, i), i + which)
    return t


def fatten(t, i, ax):
    """t over slim(ax), with the factors of size one put back"""
    if isinstance(ax, Cat) and len(live(ax)) == 1:
        return fit_axis1(fatten(t, i, live(ax)[0]), i, ax)
    first = same(ax.a.n, 1)
    u, v = (ax.a, ax.b) if first else (ax.b, ax.a)
    t = fatten(t, i, v) if thin(v) else fit_axis(t, i, v)
    t = expand(t, i if first else i + 1)
    t = fit_axis(t, i if first else i + 1, u) if not isinstance(u, Prod) else fatten(t, i if first else i + 1, u)
    return merge(t, i)


def simplify_prod(t, i):
    ax = t.axes[i]
    if isinstance(ax, Prod) and (same(ax.a.n, 1) or same(ax.b.n, 1)):
        which = 0 if same(ax.a.n, 1) else 1
        t = split(t, i)
        return drop(t, i + which)
    return t


def diag(t, k=0):
    t = tensor(t)
    if not (isinstance(k, int) and k == 0):
        raise Unsupported('diag offset')
    if t.ndim == 1:
        out = {}
        for key, p in t.blocks.items():
            ss = t.axes[0].sorts(key[0])
            w = len(ss)
            out[(key[0], key[0])] = pmul(p, delta_poly(ss))
        return Tensor([t.axes[0], t.axes[0]], out)
    if t.ndim != 2:
        raise Unsupported('diag')
    checkdims(t.axes[0], t.axes[1])
    out = {}
    for ka, kb in align(t.axes[0], t.axes[1]):
        w = len(t.axes[0].sorts(ka))
        p = t.get((ka, kb))
        out[(ka,)] = pmap(p, lambda s: s % w if w else s)
    return Tensor([t.axes[0]], out)


def sum_(t, axis=None, keepdims=False):
    t = tensor(t)
    if axis is None:
        while t.ndim:
            t = sum_(t, 0)
        return t
    i = axis if axis >= 0 else t.ndim + axis
    out = {}
    for key, p in t.blocks.items():
        ss = t.slots(key)
        before = sum(len(a.sorts(q)) for a, q in zip(t.axes[:i], key[:i]))
        w = len(t.axes[i].sorts(key[i]))
        slots = list(range(before, before + w))
        keep = {s: (s if s < before else s - w) for s in range(len(ss)) if s not in slots}
        r = psum(p, slots, keep, ss)
        k = key[:i] + key[i + 1:]
        out[k] = padd(out.get(k, {}), r)
    r = Tensor(t.axes[:i] + t.axes[i + 1:], out)
    return expand(r, i) if keepdims else r


def mean(t, axis=None, keepdims=False):
    t = tensor(t)
    n = t.size if axis is None else t.axes[axis].n
    return sum_(t, axis, keepdims) / lift(n)


def apply(fname, t):
    """an elementwise function that is not a polynomial"""
    t = tensor(t)
    out = {}
    for k in t.keys():
        p = t.get(k)
        if not p and fname in ('sqrt', 'abs'):
            continue
        out[k] = fatom(fname, p, t.slots(k))
    return Tensor(t.axes, out)


def einsum(spec, *ts):
    spec = spec.replace(' ', '')
    ins, outs = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if outs is None:
        letters = ''.join(ins)
        outs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    t = None
    labels = ''
    for s, x in zip(ins, ts):
        x = tensor(x)
        if len(set(s)) != len(s):
            raise Unsupported('einsum diagonal')
        t = x if t is None else outerprod(t, x)
        labels += s
    # identify repeated letters
    i = 0
    while i < len(labels):
        j = labels.find(labels[i], i + 1)
        if j < 0:
            i += 1
            continue
        t = identify(t, i, j)
        labels = labels[:j] + labels[j + 1:]
    for i in reversed(range(len(labels))):
        if labels[i] not in outs:
            t = sum_(t, i)
            labels = labels[:i] + labels[i + 1:]
    r = transpose(t, [labels.index(c) for c in outs])
    r.base = None
    return r


def identify(t, i, j):
    """the entries with equal indices on axes i < j"""
    checkdims(t.axes[i], t.axes[j])
    out = {}
    m = dict(align(t.axes[j], t.axes[i]))
    for key, p in t.blocks.items():
        if m.get(key[j]) != key[i]:
            continue
        ws = [len(a.sorts(k)) for a, k in zip(t.axes, key)]
        oi, oj, w = sum(ws[:i]), sum(ws[:j]), ws[j]
        ren = lambda s: s if s < oj else (oi + s - oj if s < oj + w else s - w)
        out[key[:j] + key[j + 1:]] = pmap(p, ren)
    return Tensor(t.axes[:j] + t.axes[j + 1:], out)


# ------------------------------------------------------------------ index objects
class Mask:
    """a vector of booleans constant on each part of its axis"""

    def __init__(self, axis, vals):
        self.axis, self.vals = axis, dict(vals)

    @property
    def shape(self):
        return (self.axis.n,)

    @property
    def size(self):
        return self.axis.n
    ndim = 1

    def __invert__(self):
        return Mask(self.axis, {k: not v for k, v in self.vals.items()})

    def _b(self, o, f):
        if not isinstance(o, Mask):
            raise Unsupported('mask')
        m = dict(align(self.axis, o.axis))
        return Mask(self.axis, {k: f(v, o.vals[m[k]]) for k, v in self.vals.items() if k in m})

    def __and__(self, o): return self._b(o, lambda a, b: a and b)
    def __or__(self, o): return self._b(o, lambda a, b: a or b)
    def __xor__(self, o): return self._b(o, lambda a, b: a != b)

    def count(self):
        return restrict(self.axis, self.vals).n

    def sum(self, axis=None):
        return self.count()

    def any(self):
        n = self.count()
        return bool(SB(zi(n) > 0)) if isinstance(n, SI) else n > 0

    def all(self):
        return not (~self).any()

    def __getitem__(self, ix):
        if isinstance(ix, Mask):
            ax = restrict(self.axis, ix.vals)
            return Mask(ax, {k: self.vals[k] for k in ax.comps()})
        r = resolve(self.axis, ix)
        if r[0] == 'drop':
            return self.vals[r[1]]
        return Mask(r[1], {new: self.vals[old] for new, old, _ in r[2]})


class Sel:
    """an index array: its own axis, the axis it points into, and which part goes to which.  With nan=True entries that
    are not in the map are nan"""

    def __init__(self, axis, target, m, partial=False):
        self.axis, self.target, self.m, self.partial = axis, target, dict(m), partial

    @property
    def shape(self):
        return (self.axis.n,)

    @property
    def size(self):
        return self.axis.n
    ndim = 1
    dtype = int

    def astype(self, *a, **k):
        if any(k not in self.m for k in self.axis.comps()):
            raise Unsupported('nan cast to an integer')
        return self
    def copy(self):
        return self
    flatten = ravel = copy

    def item(self):
        n = self.axis.n
        if not (n == 1 if isinstance(n, int) else bool(SB(zi(n) == 1))):
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        cs = self.axis.comps()
        if len(cs) != 1:
            for p in self.axis.parts():
                if isinstance(p.n, SI):
                    eng.CUR.decide(zi(p.n) == 1)
            cs = self.axis.comps()
        return Pt(self.target, self.m[cs[0]])

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        r = resolve(self.axis, ix)
        if r[0] == 'drop':
            if r[2] is not None:
                raise Unsupported('one entry of an index array')
            return Pt(self.target, self.m[r[1]])
        if any(w is not None for _, _, w in r[2]):
            raise Unsupported('a range of an index array')
        return Sel(r[1], self.target, {new: self.m[old] for new, old, _ in r[2] if old in self.m}, self.partial)

    def isnan(self):
        return Mask(self.axis, {k: k not in self.m for k in self.axis.comps()})

    def tolist(self):
        return self

    def squeeze(self):
        return self

    def argsort(self):
        return argsort(self)

    def __len__(self):
        raise Unsupported('len of a symbolic index array must be taken through the layer')

    def __bool__(self):
        raise Unsupported('truth value of an index array')

    def __iter__(self):
        raise Unsupported('iteration over an index array')

    def __repr__(self):
        return f'Sel({self.axis}->{self.m})'


def argsort(s):
    """inverse of a rearrangement: the positions, in the order of what they point at"""
    on = set(s.axis.comps())
    m = {k: v for k, v in s.m.items() if k in on}
    inv = {v: k for k, v in m.items()}
    if len(inv) != len(m) or set(m) != on:
        raise Unsupported('argsort of something that is not a rearrangement')
    if set(inv) != set(s.target.comps()):
        return Sel(restrict(s.target, {k: True for k in inv}), s.axis, inv)
    return Sel(s.target, s.axis, inv)


class Spread:
    """the entries of an index array, each repeated n times in a row (or all of them, n times over), times k"""
    __array_ufunc__ = None

    def __init__(self, of, n, tiled, k=1):
        self.of, self.n, self.tiled, self.k = of, n, tiled, k

    @property
    def size(self):
        return mulsize(self.of.size, self.n)

    @property
    def shape(self):
        return (self.size,)
    ndim = 1

    def __mul__(self, k):
        if not isint(k) or self.k != 1:
            raise Unsupported('arithmetic on positions')
        return Spread(self.of, self.n, self.tiled, k)
    __rmul__ = __mul__

    def __add__(self, o):
        """row * width + column"""
        if not isinstance(o, Spread):
            raise Unsupported('arithmetic on positions')
        a, b = (o, self) if self.tiled else (self, o)
        if a.tiled or not b.tiled or not isinstance(b.k, int) or b.k != 1 or not same(a.n, b.of.size) or not same(b.n, a.of.size):
            raise Unsupported('arithmetic on positions')
        ends = lambda x: x.target.n if isinstance(x, Sel) else x.hi
        # positions of pairs when the width is the number of columns
        return GridSel(a.of, b.of, Grid(ends(a.of), a.k))
    __radd__ = __add__


class Pt:
    """one position of an axis: the only element of a part of size one"""

    def __init__(self, target, key):
        self.target, self.key = target, key


class Rng:
    """consecutive positions lo .. hi-1 of an axis yet to be named"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    @property
    def size(self):
        return self.hi - self.lo

    @property
    def shape(self):
        return (self.size,)
    ndim = 1

    def __add__(self, k):
        return Rng(self.lo + k, self.hi + k)
    __radd__ = __add__

    def __sub__(self, k):
        return Rng(self.lo - k, self.hi - k)

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if len(shape) == 2 and same(self.lo, 0) and same(self.hi, mulsize(shape[0], shape[1])):
            return Grid(shape[0], shape[1])
        raise Unsupported('reshape of a range')

    def __getitem__(self, ix):
        if isinstance(ix, (Sel, RSel)) and same(self.lo, 0):
            return ix
        if isinstance(ix, slice) and ix.step is None:
            lo = self.lo if ix.start is None else self.lo + ix.start
            return Rng(lo, self.hi if ix.stop is None else self.lo + ix.stop)
        raise Unsupported('indexing a range')

    def __len__(self):
        raise Unsupported('len')

    def __bool__(self):
        raise Unsupported('truth value of an index array')


class RSel:
    """concatenated index arrays, some of them ranges"""

    def __init__(self, parts):
        self.parts = parts

    @property
    def size(self):
        n = 0
        for p in self.parts:
            n = n + p.size
        return n

    @property
    def shape(self):
        return (self.size,)
    ndim = 1

    def astype(self, *a, **k):
        return RSel([p.astype() for p in self.parts])

    def to(self, ax):
        return joinsel([as_sel(p, ax) for p in self.parts], ax)


def joinsel(sels, ax):
    cat = Cat([s.axis for s in sels])
    m, i = {}, 0
    for s in sels:
        for p in ([s.axis] if getattr(s.axis, 'order', None) else s.axis.parts()):
            for old, new in cat.renamed[i].items():
                if old in s.m:
                    m[new] = s.m[old]
            i += 1
    axis = cat if len(cat._parts) > 1 else cat._parts[0]
    return Sel(axis, ax, m)


class Grid:
    """arange(n*m).reshape(n, m): row-major positions of pairs"""

    def __init__(self, n, m):
        self.n, self.m = n, m

    @property
    def shape(self):
        return (self.n, self.m)

    def __getitem__(self, ix):
        if isinstance(ix, Ix) and len(ix.parts) == 2:
            return GridSel(ix.parts[0], ix.parts[1], self)
        raise Unsupported('indexing a grid of positions')

    def flatten(self):
        return Rng(0, self.n * self.m)


class GridSel:
    def __init__(self, a, b, g):
        self.a, self.b, self.g = a, b, g

    @property
    def size(self):
        return mulsize(self.a.size, self.b.size)

    def flatten(self, order='C'):
        if order != 'C':
            raise Unsupported('order')
        return self
    ravel = flatten

    def reshape(self, *s):
        return self

    def to(self, ax):
        p = ax
        if isinstance(ax, Cat) and len(live(ax)) == 1:
            p = live(ax)[0]
        if not isinstance(p, Prod) or not same(p.a.n, self.g.n) or not same(p.b.n, self.g.m):
            raise Unsupported('positions of pairs used on an axis that is not a product')
        a, b = as_sel(self.a, p.a), as_sel(self.b, p.b)
        axis = Prod(a.axis, b.axis)
        return Sel(axis, ax, {('x', i, j): ('x', a.m[i], b.m[j]) for i in a.axis.comps() for j in b.axis.comps()})


class Ix:
    """np.ix_"""

    def __init__(self, parts):
        self.parts = parts


def as_sel(x, ax):
    """an index array as a map into ax"""
    if isinstance(x, Mask):
        m = dict(align(x.axis, ax))
        axis = restrict(x.axis, x.vals)
        return Sel(axis, ax, {k: m[k] for k in axis.comps()})
    if isinstance(x, Rng):
        ps = slice_parts(ax, x.lo, x.hi)
        axis = mkcat(ps) if ps else Lf(sort('Nil', 0))
        return Sel(axis, ax, {p.ident(): p.ident() for p in ps})
    if isinstance(x, (RSel, GridSel)):
        return x.to(ax)
    if isinstance(x, Sel):
        if x.target is ax or x.target == ax:
            return x
        m = dict(align(x.target, ax))
        return Sel(x.axis, ax, {k: m[v] for k, v in x.m.items() if v in m})
    raise Unsupported(f'index {type(x).__name__}')


def restrict(ax, vals):
    """the positions of an axis at which a mask holds, in its order"""
    def go(p):
        if isinstance(p, Cat):
            qs = [r for q in p._parts for r in go(q)]
            return [Cat(qs, p.order)] if p.order and len(qs) > 1 else qs
        cs = allcomps(p)
        v = {bool(vals.get(c)) for c in cs}
        if len(v) > 1:
            raise Unsupported('mask on a product axis')
        return [p] if v == {True} else []
    ps = go(ax)
    return mkcat(ps) if ps else Lf(sort('Nil', 0))


def target_axis(x):
    if isinstance(x, Mask):
        return x.axis
    if isinstance(x, (Sel, Pt)):
        return x.target
    return None


def slice_parts(ax, lo, hi):
    """the parts of ax between two positions"""
    ps, pos, out, on = live(ax), 0, [], False
    started = False
    for p in ps:
        if not started and same(pos, lo):
            started = True
        if started and same(pos, hi):
            return out
        if started:
            out.append(p)
        pos = pos + p.n
    if not started and same(pos, lo):
        started = True
    if started and same(pos, hi):
        return out
    if same(lo, hi):
        return []
    h = eng.CUR.env.get('split')
    raise Unsupported(f'positions {lo}:{hi} do not follow the parts of {ax}')


def yes(c):
    """whether a condition on sizes holds, splitting the path when it is open"""
    return bool(SB(c)) if not isinstance(c, bool) else c


def pieces(ax, lo, hi):
    """[(part, offset or None for all of it, size)] covering positions lo .. hi-1"""
    pos, out = 0, []
    for p in live(ax):
        end = pos + p.n
        zl, zh, zp, ze = zi(lo), zi(hi), zi(pos), zi(end)
        if not yes(z3.Or(ze <= zl, zp >= zh)):
            a = 0 if yes(zp >= zl) else lo - pos
            b = p.n if yes(ze <= zh) else hi - pos
            if same(a, 0) and same(b, p.n):
                out.append((p, None, p.n))
            elif isinstance(p, Lf):
                out.append((p, a, b - a))
            else:
                raise Unsupported(f'positions {lo}:{hi} do not follow the parts of {ax}')
        pos = end
    return out


def piece_axis(p, off, n):
    return p if off is None else Lf(window_sort(p.sort, n), p.tag)


def cut_axis(t, i, lo, hi):
    """t with axis i split at two positions"""
    ax = t.axes[i]
    ps = pieces(ax, 0, lo) + pieces(ax, lo, hi) + pieces(ax, hi, ax.n)
    if all(off is None for _, off, _ in ps):
        return t
    subs = [piece_axis(*q) for q in ps]
    cat = Cat(subs)
    out = {}
    back = {}
    for (p, off, n), sub, ren in zip(ps, subs, cat.renamed):
        for old in p.comps():
            new = old if off is None else sub.ident()
            back.setdefault(old, []).append((ren.get(new, new), off, sub))
    for key, q in t.blocks.items():
        before = sum(len(a.sorts(k)) for a, k in zip(t.axes[:i], key[:i]))
        for new, off, sub in back.get(key[i], ()):
            r = q if off is None else window_poly(q, before, off, sub.sort)
            if r:
                out[key[:i] + (new,) + key[i + 1:]] = purge(r)
    return Tensor(t.axes[:i] + [cat if len(subs) > 1 else subs[0]] + t.axes[i + 1:], out)


def slice_size(n, s):
    lo = 0 if s.start is None else s.start
    hi = n if s.stop is None else s.stop
    return norm_pos(hi, n) - norm_pos(lo, n)


def norm_pos(p, n):
    if isinstance(p, int):
        return n + p if p < 0 else p
    if isinstance(p, SI):
        if entails(p.e >= 0):
            return p
        if entails(p.e < 0):
            return n + p
        if bool(SB(p.e >= 0)):
            return p
        return n + p
    raise Unsupported(f'slice bound {p!r}')


def resolve(ax, ix):
    """('keep', new axis, [(new component, old component)]) or ('drop', component)"""
    if isinstance(ix, slice):
        if ix.step is not None and not (isinstance(ix.step, int) and ix.step == 1):
            if isinstance(ix.step, int) and ix.step == -1 and ix.start is None and ix.stop is None and isinstance(ax, Lf):
                raise Unsupported('reversal')
            raise Unsupported('slice step')
        if ix.start is None and ix.stop is None:
            return ('keep', ax, [(k, k, None) for k in ax.comps()])
        lo = norm_pos(0 if ix.start is None else ix.start, ax.n)
        hi = norm_pos(ax.n if ix.stop is None else ix.stop, ax.n)
        if same(lo, 0) and same(hi, ax.n):
            return ('keep', ax, [(k, k, None) for k in ax.comps()])
        try:
            ps = slice_parts(ax, lo, hi)
            new = mkcat(ps) if ps else Lf(sort('Nil', 0))
            return ('keep', new, [(k, k, None) for k in new.comps()])
        except Unsupported:
            pass
        # python slices are clipped to the axis
        if not yes(zi(lo) <= zi(ax.n)):
            lo = ax.n
        if not yes(zi(hi) <= zi(ax.n)):
            hi = ax.n
        if not yes(zi(lo) < zi(hi)):
            return ('keep', Lf(sort('Nil', 0)), [])
        if not yes(zi(lo) >= 0):
            lo = 0
        ps = pieces(ax, lo, hi)
        subs = [piece_axis(*q) for q in ps]
        new = mkcat(subs) if subs else Lf(sort('Nil', 0))
        ren = new.renamed if isinstance(new, Cat) and not new.order and len(subs) > 1 else [{} for _ in subs]
        out = []
        for (p, off, n), sub, rn in zip(ps, subs, ren):
            if off is None:
                out += [(rn.get(k, k), k, None) for k in p.comps()]
            else:
                out.append((rn.get(sub.ident(), sub.ident()), p.ident(), (off, sub.sort)))
        return ('keep', new, out)
    if isinstance(ix, Pt):
        m = {v: k for k, v in align(ax, ix.target)} if not (ax is ix.target or ax == ix.target) else None
        return ('drop', ix.key if m is None else m[ix.key], None)
    if isint(ix) and not isinstance(ix, (Mask, Sel)):
        p = norm_pos(ix if isinstance(ix, SI) else int(ix), ax.n)
        if not yes(z3.And(zi(p) >= 0, zi(p) < zi(ax.n))):
            raise IndexError('index out of bounds')
        if same(ax.n, 1):
            if len(ax.comps()) != 1:
                settle(ax)
            cs = ax.comps()
            if len(cs) == 1:
                return ('drop', cs[0], None)
        (q, off, n), = pieces(ax, p, p + 1)
        if off is None:
            if len(q.comps()) != 1:
                settle(q)
            return ('drop', q.comps()[0], None)
        return ('drop', q.ident(), (off, window_sort(q.sort, 1)))
    s = as_sel(ix, ax)
    return ('keep', s.axis, [(k, v, None) for k, v in s.m.items() if k in set(s.axis.comps())])


def full_index(t, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = [x for x in ix if x is not None] if not any(x is Ellipsis for x in ix) else list(ix)
    if any(x is Ellipsis for x in ix):
        i = next(k for k, x in enumerate(ix) if x is Ellipsis)
        ix = ix[:i] + [slice(None)] * (t.ndim - (len(ix) - 1)) + ix[i + 1:]
    if len(ix) == 1 and isinstance(ix[0], Ix):
        ix = list(ix[0].parts)
    if len(ix) > t.ndim:
        raise IndexError('too many indices for array')
    return ix + [slice(None)] * (t.ndim - len(ix))


def is_point(x):
    return isinstance(x, Pt) or (isint(x) and not isinstance(x, (Mask, Sel)))


def is_adv(x):
    return isinstance(x, (Sel, Mask, Rng, RSel, GridSel))


def getitem(t, ix):
    t = tensor(t)
    raw = ix if isinstance(ix, tuple) else (ix,)
    h = next((x for x in raw if hasattr(x, 'pv_index')), None)
    if h is not None:
        return h.pv_index(t, raw)
    is_ix = len(raw) == 1 and isinstance(raw[0], Ix)
    ixs = full_index(t, ix)
    if not is_ix and sum(is_adv(x) for x in ixs) > 1:
        raise Unsupported('several index arrays at once')
    if any(is_adv(x) for x in ixs) and any(is_point(x) for x in ixs):
        # numpy moves the indexed axis in front when separated by a slice; adjacent ones stay
        pos = [i for i, x in enumerate(ixs) if is_adv(x) or is_point(x)]
        if pos[-1] - pos[0] + 1 != len(pos):
            raise Unsupported('index arrays separated by a slice')
    res = [resolve(a, x) for a, x in zip(t.axes, ixs)]
    axes = [r[1] for r in res if r[0] == 'keep']
    back = [({v: [] for _, v, _ in r[2]} if r[0] == 'keep' else None) for r in res]
    for r, b in zip(res, back):
        if r[0] == 'keep':
            for new, old, win in r[2]:
                b[old].append((new, win))
    out = {}
    for key, p in t.blocks.items():
        news, ok = [((), p)], True
        ren, pos, n = {}, 0, 0
        for a, k, r, b in zip(t.axes, key, res, back):
            w = len(a.sorts(k))
            if r[0] == 'drop':
                if k != r[1]:
                    ok = False
                    break
                if r[2] is not None:
                    news = [(x, window_poly(q, pos, *r[2])) for x, q in news]
                elif not all(s.unit for s in a.sorts(k)):
                    raise Unsupported('one element of a larger set')
                for s in range(w):
                    ren[pos + s] = STAR
            else:
                if k not in b:
                    ok = False
                    break
                news = [(x + (y,), q if win is None else window_poly(q, pos, *win)) for x, q in news for y, win in b[k]]
                for s in range(w):
                    ren[pos + s] = n
                    n += 1
            pos += w
        if not ok:
            continue
        for nk, q in news:
            out[nk] = pmap(q, ren)
    adv = any(is_adv(x) for x in ixs)
    r = Tensor(axes, out, base=None if adv else t)
    if not adv and not any(x is None for x in raw):
        r.viewix = tuple(ixs)
    # newaxis
    if any(x is None for x in raw):
        i = 0
        for x in raw:
            if x is None:
                r = expand(r, i)
                i += 1
            elif x is Ellipsis:
                raise Unsupported('newaxis with ellipsis')
            elif not is_point(x):
                i += 1
    return r


def setitem(t, ix, v):
    t.writable()
    v = lift(v)
    if v is NotImplemented:
        raise Unsupported('assigned value')
    raw = ix if isinstance(ix, tuple) else (ix,)
    is_ix = len(raw) == 1 and isinstance(raw[0], Ix)
    ixs = full_index(t, ix)
    if not is_ix and sum(is_adv(x) for x in ixs) > 1:
        raise Unsupported('several index arrays at once')
    for i, x in enumerate(ixs):
        if isinstance(x, slice):
            if x.start is None and x.stop is None or x.step not in (None, 1):
                continue
            lo, hi = norm_pos(0 if x.start is None else x.start, t.axes[i].n), norm_pos(t.axes[i].n if x.stop is None else x.stop, t.axes[i].n)
            try:
                slice_parts(t.axes[i], lo, hi)
                continue
            except Unsupported:
                pass
            if not yes(zi(hi) <= zi(t.axes[i].n)):
                hi = t.axes[i].n
            if not yes(zi(lo) < zi(hi)):
                continue
        elif is_point(x) and not isinstance(x, Pt):
            lo = norm_pos(x if isinstance(x, SI) else int(x), t.axes[i].n)
            if not yes(z3.And(zi(lo) >= 0, zi(lo) < zi(t.axes[i].n))):
                raise IndexError('index out of bounds')
            hi = lo + 1
        else:
            continue
        r = cut_axis(t, i, lo, hi)
        if r is not t:
            t.axes, t._b, t.stamp = r.axes, r._b, r.stamp
    res = [resolve(a, x) for a, x in zip(t.axes, ixs)]
    axes = [r[1] for r in res if r[0] == 'keep']
    if isinstance(v, Lazy):
        for i in range(1, min(len(axes), v.ndim) + 1):
            if isinstance(v.axes[-i], Anon) and same(v.axes[-i].n, axes[-i].n):
                v.refine(v.ndim - i, axes[-i])
        v = v.solid()
    if v.ndim > len(axes):
        for i in reversed(range(v.ndim)):
            if v.ndim > len(axes) and same(v.axes[i].n, 1):
                v = drop(v, i)
    for i in range(1, v.ndim + 1):
        x, y = v.axes[-i], axes[-i]
        if not same(x.n, y.n) and not same(x.n, 1):
            if not bool(SB(zi(x.n) == zi(y.n))) and not bool(SB(zi(x.n) == 1)):
                raise ValueError('could not broadcast input array into shape')
    v = fit(v, axes)
    new = dict(t.blocks)
    if any(r[0] == 'drop' and r[2] is not None or r[0] == 'keep' and any(x[2] is not None for x in r[2]) for r in res):
        raise Unsupported('assignment to positions inside a part')
    for combo in iproduct(*([(None, r[1])] if r[0] == 'drop' else [(a, b) for a, b, _ in r[2]] for r in res)):
        old = tuple(o for _, o in combo)
        nk = tuple(n for n, _ in combo if n is not None)
        # slots of the value, spread over the slots of the target
        ren, pos, n = {}, 0, 0
        for a, o, (nn, _) in zip(t.axes, old, combo):
            w = len(a.sorts(o))
            if nn is not None:
                for s in range(w):
                    ren[n] = pos + s
                    n += 1
            pos += w
        new[old] = pmap(v.get(nk), ren)
    t._b = new
    t.stamp = stamp()
    t.mut += 1
    t.commit()


def unify_axes(ts, i):
    """give axis i of every array the same structure"""
    ref = next((t.axes[i] for t in ts if not isinstance(t.axes[i], Anon)), None)
    if ref is None:
        ref = size_axis(ts[0].axes[i].n)
    for t in ts:
        if isinstance(t, Lazy) and isinstance(t.axes[i], Anon):
            t.refine(i, ref)
    return ref


def concatenate(ts, axis=0):
    ts = [lift(t) for t in ts]
    if any(t is NotImplemented for t in ts):
        raise Unsupported('concatenation of other objects')
    n = ts[0].ndim
    if any(t.ndim != n for t in ts):
        raise ValueError('all the input array dimensions must match')
    if n == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis if axis >= 0 else n + axis
    for i in range(n):
        if i == axis:
            continue
        ref = None
        for t in ts[1:]:
            checkdims(ts[0].axes[i], t.axes[i])
        unify_axes(ts, i)
    ts = [solid(t) for t in ts]
    base = ts[0]
    cat = Cat([t.axes[axis] for t in ts])
    km, i = [], 0
    for t in ts:
        m = {}
        for p in ([t.axes[axis]] if getattr(t.axes[axis], 'order', None) else t.axes[axis].parts()):
            m.update(cat.renamed[i])
            i += 1
        km.append(m)
    out = {}
    for j, t in enumerate(ts):
        for i in range(n):
            if i != axis and t is not base:
                t = fit_axis(t, i, base.axes[i])
        for key, p in t.blocks.items():
            if key[axis] in km[j]:
                out[key[:axis] + (km[j][key[axis]],) + key[axis + 1:]] = p
    ax = cat if len(cat._parts) > 1 else cat._parts[0]
    return Tensor(base.axes[:axis] + [ax] + base.axes[axis + 1:], out)


def block(rows):
    if not isinstance(rows[0], (list, tuple)):
        rows = [rows]
    rows = [[lift(x) for x in r] for r in rows]
    if len({len(r) for r in rows}) == 1:
        for j in range(len(rows[0])):
            col = [r[j] for r in rows]
            if any(not isinstance(t.axes[1], Anon) for t in col):
                unify_axes(col, 1)
    for r in rows:
        if any(not isinstance(t.axes[0], Anon) for t in r):
            unify_axes(r, 0)
    if len({len(r) for r in rows}) == 1:
        for j in range(len(rows[0])):
            unify_axes([r[j] for r in rows], 1)
    return concatenate([concatenate(r, 1) for r in rows], 0)


# ------------------------------------------------------------------ inverses
def norm_str(t):
    return repr([[str(a.ident()) for a in t.axes], sorted((str(k), pstr(p)) for k, p in t.blocks.items() if p)])


def inverse(m, name=None):
    """the inverse of a square matrix that has one: an array of fresh entries; facts() gives the two products"""
    m = tensor(m)
    if m.ndim != 2:
        raise Unsupported('inverse')
    checkdims(m.axes[0], m.axes[1])
    reg = eng.CUR.env.setdefault('inverses', [])
    for a, x in reg:
        if alike(a, m):
            return fit(x, [m.axes[1], m.axes[0]])
    mt = Tensor(*_tr(m))
    for a, x in reg:
        if alike(a, mt):
            return fit(Tensor(*_tr(x)), [m.axes[1], m.axes[0]])
    weight = lambda t: sum((abs(v) for p in t.blocks.values() for v in p.values()), Fraction(0))
    for a, x in reg:
        wa, wm = weight(tensor(a)), weight(m)
        if wa and wm:
            for r in (wm / wa, -wm / wa):
                if r != 1 and alike(a * r, m):
                    return fit(x * (1 / r), [m.axes[1], m.axes[0]])
    x = atoms(name or f'inv{len(reg)}', [m.axes[1], m.axes[0]], frozen=False)
    reg.append((m, x))
    return x


def alike(a, b):
    """the two arrays are known to be equal"""
    if a.ndim != b.ndim:
        return False
    try:
        for x, y in zip(a.axes, b.axes):
            if x != y:
                align(x, y)
        return is_zero(a - b)
    except (Unsupported, ShapeError):
        return False


def _tr(x):
    t = transpose(x)
    return t.axes, t.blocks


def solve(m, b):
    b = lift(b)
    m = tensor(m)
    if isinstance(b, Lazy) and isinstance(b.axes[0], Anon):
        b.refine(0, m.axes[0])
    b = solid(b)
    checkdims(m.axes[0], m.axes[1])
    checkdims(m.axes[1], b.axes[0])
    return matmul(inverse(m), b)


def determined(name):
    """the value the path gives to a size or integer symbol, if it gives one"""
    memo = eng.CUR.env.setdefault('determined', {})
    k = (name, eng.CUR.version)
    if k not in memo:
        if name.startswith('#int:'):
            e = z3.Int(name[5:])
        else:
            s = eng.CUR.env.get('sorts', {}).get(name[1:])
            e = zi(s.n) if s is not None else None
        memo[k] = None if e is None else SI(e).concrete() if not z3.is_int_value(e) else e.as_long()
    return memo[k]


def rewrite(p):
    """with determined integer symbols replaced by their values, inside opaque functions too"""
    r = {}
    for m, c in p.items():
        acc = {(): c}
        for j, (n, ix) in enumerate(m):
            if n.startswith('#'):
                v = determined(n)
                q = {((n, ix),): Fraction(1)} if v is None else const(v)
            elif n in DEFS:
                fname, inner = DEFS[n]
                new = rewrite(inner)
                if new == inner:
                    q = {((n, ix),): Fraction(1)}
                else:
                    ss = dict(enumerate(ATOMS[n][0]))
                    q = precip(new, ss) if fname == 'recip' else fatom(fname, new, ss)
                    q = {tuple((a, tuple(x - 3000 * (j + 1) if x < 0 else (x if x == STAR else ix[x]) for x in b)) for a, b in k): d
                         for k, d in q.items()}
            else:
                q = {((n, ix),): Fraction(1)}
            acc = {a + b: x * y for a, x in acc.items() for b, y in q.items()}
        for a, x in acc.items():
            a = canon(a)
            v = r.get(a, 0) + x
            if v:
                r[a] = v
            else:
                r.pop(a, None)
    return r


def clear(p):
    """a multiple of p by denominators (which do not vanish) without those of them that are not summed over"""
    for _ in range(6):
        dens = {}
        for m in p:
            for f in m:
                if f[0].startswith('recip<') and all(0 <= x for x in f[1]):
                    dens[f] = max(dens.get(f, 0), m.count(f))
        if not dens:
            return p
        # the outermost first: its definition may mention the others
        f = max(dens, key=lambda f: (len(f[0]), f))
        inner = pmap(DEFS[f[0]][1], dict(enumerate(f[1])))
        if len(inner) * len(p) > 4000:
            return p
        pw = [const(1)]
        for _ in range(dens[f]):
            pw.append(pmul(pw[-1], inner))
        r = {}
        for m, c in p.items():
            k = m.count(f)
            rest = tuple(x for x in m if x != f)
            r = padd(r, pmul({rest: c}, pw[dens[f] - k]))
        p = r
        if not p:
            return p
    return p


def is_zero(t):
    t = tensor(t)
    for key in t.keys():
        p = purge(t.get(key))
        if not p:
            continue
        fs = [n for m in p for n, _ in m]
        if any(n.startswith('#') or n in DEFS for n in fs):
            p = rewrite(p)
            if p and any(n.startswith('recip<') for m in p for n, _ in m):
                p = clear(p)
        if p:
            return False
    return True


def show(t, n=600):
    t = tensor(t)
    return str({tuple(map(kstr, k)): pstr(t.get(k)) for k in t.keys() if t.get(k)})[:n]


def eye(ax):
    return eye_blocks(ax, ax, 0)


def equal(name, a, b, by=(), strict=True):
    """obligation: a = b for all sizes and entries, given that every array in `by` is zero and adds up to the difference"""
    try:
        d = tensor(a) - tensor(b)
        for x in by:
            d = d - x
    except ShapeError as ex:
        return eng.CUR.goal(name, False, detail=f'shapes: {ex}', strict=strict)
    ok = is_zero(d)
    return eng.CUR.goal(name, ok, 'index-notation normal form', None if ok else 'difference ' + show(d), strict=strict)


# ------------------------------------------------------------------ lead-lag incidence
class Mask2:
    def __init__(self, rows):
        self.rows = rows

    def __invert__(self):
        return Mask2([~r for r in self.rows])

    def __getitem__(self, i):
        return self.rows[i]

    def __and__(self, o):
        return Mask2([a & b for a, b in zip(self.rows, o.rows)])

    def __or__(self, o):
        return Mask2([a | b for a, b in zip(self.rows, o.rows)])

    def any(self, axis=None):
        if axis == 0:
            r = self.rows[0]
            for x in self.rows[1:]:
                r = r | x
            return r
        raise Unsupported('any')


class Llx:
    """the (3, n) incidence array: for each date the column of every variable, or nan"""
    __pv__ = True
    ndim = 2

    def __init__(self, rows):
        self.rows = rows

    @property
    def shape(self):
        return (3, self.rows[0].axis.n)

    def __getitem__(self, ix):
        if isinstance(ix, Mask2):
            return joinsel([r[m] for r, m in zip(self.rows, ix.rows)], self.rows[0].target)
        if isinstance(ix, tuple):
            i, j = ix
            if isinstance(i, slice) and i == slice(None):
                return Llx([r[j] for r in self.rows])
            return self.rows[i][j]
        if isint(ix):
            return self.rows[int(ix)]
        raise Unsupported('indexing the incidence array')

    def isnan(self):
        return Mask2([r.isnan() for r in self.rows])

    def copy(self):
        return Llx(list(self.rows))


# ------------------------------------------------------------------ facts
class Zero:
    """an array known to vanish: an assumed fact, or what sums and products make of facts"""

    def __init__(self, t, _ok=False):
        if not _ok:
            raise Unsupported('facts are introduced with fact()')
        self.t = tensor(t)

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return Zero(self.t + o.t, True)
    __radd__ = __add__

    def __sub__(self, o):
        return Zero(self.t - o.t, True)

    def __neg__(self):
        return Zero(-self.t, True)

    def __matmul__(self, o):
        return Zero(matmul(self.t, o), True)

    def __rmatmul__(self, o):
        return Zero(matmul(o, self.t), True)

    def __getitem__(self, ix):
        return Zero(getitem(self.t, ix), True)

    def scale(self, k):
        return Zero(self.t.scale(k), True)

    @property
    def T(self):
        return Zero(Tensor(*_tr(self.t)), True)

    def map(self, f):
        """f must be linear"""
        return Zero(f(self.t), True)

    __array_ufunc__ = None


def fact(a, b=None):
    """assume a = b (or a = 0)"""
    return Zero(tensor(a) - tensor(b) if b is not None else a, True)


def _mm(a, b):
    return b.__rmatmul__(a) if isinstance(b, Zero) else matmul(a, b)


Tensor.__matmul__ = _mm


def vsplit(t, axis, parts):
    """the rows (axis 0) or columns (axis 1) of t in the listed index sets"""
    ax = t.axes[axis]
    keep = [p for p in ax.parts() if p.ident() in parts] if not isinstance(ax, Lf) else [ax]
    new = mkcat(keep)
    s = Sel(new, ax, {k: k for k in new.comps()})
    return getitem(t, (slice(None),) * axis + (s,))


def rows_cat(ts):
    return concatenate(ts, 0)


def by_sum(zs):
    r = None
    for z in zs:
        if not isinstance(z, Zero):
            raise Unsupported('only facts may be used in an argument')
        r = z if r is None else r + z
    return r


def prove_equal(name, a, b, by=(), strict=True):
    """obligation a = b; `by` lists vanishing arrays whose sum is a - b"""
    c = eng.CUR
    try:
        d = tensor(a) - tensor(b)
        for z in by:
            if not isinstance(z, Zero):
                raise Unsupported('only facts may be used in an argument')
            d = d - z.t
    except ShapeError as ex:
        return c.goal(name, False, detail=f'shapes: {ex}', strict=strict)
    ok = is_zero(d)
    if ok:
        return c.goal(name, ok, 'index-notation normal form')
    from . import numeric
    off, how = numeric.differs(d)
    if off is False:
        strict, how = False, 'the forms differ, but no random entries tell them apart; '
    return c.goal(name, ok, 'index-notation normal form', f'{how} the two sides differ by ' + show(d), strict=strict)


def prove_zero(name, a, by=(), strict=True):
    a = tensor(a)
    return prove_equal(name, a, a - a, by, strict)


def inv_facts(m):
    """the inverse of m with m x = 1 and x m = 1"""
    x = inverse(m)
    l, r = matmul(m, x), matmul(x, m)
    return x, fact(l, cast_eye(l)), fact(r, cast_eye(r))


def cast_eye(t):
    return fit(eye_any(t.axes[0], t.axes[1]), t.axes)


def eye_any(r, c):
    if r == c:
        return eye_blocks(r, c, 0)
    return eye_blocks(r, c, 0)


eng.RESET.append(reset)
