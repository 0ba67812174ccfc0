"""numpy and scipy as the code under contract sees them: assumed contracts on symbolic arrays, the real functions on
anything else.  A function that has no contract here makes the unit undecided."""
import builtins
import types
import numpy as _np
import scipy as _sp
import scipy.linalg as _la
from . import eng, arr
from .arr import (Tensor, Lazy, Sel, Mask, Rng, RSel, Grid, GridSel, Ix, Pt, Anon, Lf, Unsupported, lift, solid, tensor, same)
from .eng import SI, SB, SQ, isint, zi

SYM = (Tensor, Lazy, Sel, Mask, Rng, RSel, arr.Spread, Grid, GridSel, Ix, Pt, SI, SB, SQ, arr.Llx, arr.Mask2)


def issym(x):
    if isinstance(x, SYM) or getattr(x, '__pv__', False):
        return True
    if isinstance(x, (list, tuple)):
        return any(issym(y) for y in x)
    return False


NPF, LAF = {}, {}


def npf(f):
    NPF[f.__name__.rstrip('_')] = f
    return f


def laf(f):
    LAF[f.__name__.rstrip('_')] = f
    return f


def shape_of(s):
    if isinstance(s, (list, tuple)):
        return tuple(s)
    return (s,)


def lazyconst(shape, c):
    shape = shape_of(shape)
    if not any(isinstance(x, (SI,)) for x in shape):
        return None
    return Lazy('const', [Anon(x) for x in shape], c)


@npf
def zeros(shape, dtype=float, **k):
    r = lazyconst(shape, 0)
    return _np.zeros(shape, dtype=dtype) if r is None else r


@npf
def ones(shape, dtype=float, **k):
    r = lazyconst(shape, 1)
    return _np.ones(shape, dtype=dtype) if r is None else r


@npf
def empty(shape, dtype=float, **k):
    shape = shape_of(shape)
    if not any(isinstance(x, SI) for x in shape):
        return _np.empty(shape, dtype=dtype)
    return Lazy('nan', [Anon(x) for x in shape])


@npf
def full(shape, v, dtype=None, **k):
    if not any(isinstance(x, SI) for x in shape_of(shape)):
        return _np.full(shape, v, dtype=dtype)
    if v != v:
        return Lazy('nan', [Anon(x) for x in shape_of(shape)])
    return lazyconst(shape, v)


@npf
def zeros_like(a, dtype=None, **k):
    if isinstance(a, (Tensor, Lazy)):
        return Lazy('const', [x for x in a.axes], 0)
    return _np.zeros_like(a)


@npf
def ones_like(a, dtype=None, **k):
    return Lazy('const', [x for x in a.axes], 1)


@npf
def empty_like(a, dtype=None, **k):
    return Lazy('nan', [x for x in a.axes])


@npf
def eye(n, m=None, k=0, dtype=float, **kw):
    m = n if m is None else m
    if not any(isinstance(x, SI) for x in (n, m, k)):
        return _np.eye(n, m, k)
    if same(k, 0) and same(n, m):
        return Lazy('eye', [Anon(n), Anon(n)])
    return Lazy('eye', [Anon(n), Anon(m)], k=k)


@npf
def identity(n, dtype=float):
    return eye(n)


@npf
def dot(a, b, out=None):
    return arr.dot(a, b)


@npf
def matmul(a, b, out=None, **k):
    return arr.matmul(a, b)


@npf
def inner(a, b):
    a, b = tensor(a), tensor(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return arr.contract(a, a.ndim - 1, b, b.ndim - 1)


@npf
def vdot(a, b):
    a, b = tensor(a).ravel(), tensor(b).ravel()
    return arr.contract(a, 0, b, 0)


@npf
def tensordot(a, b, axes=2):
    raise Unsupported('tensordot')


@npf
def transpose(a, axes=None):
    return arr.transpose(lift(a), axes)


@npf
def conjugate(a):
    return a                    # real entries


NPF['conj'] = conjugate


@npf
def real(a):
    return a


@npf
def concatenate(ts, axis=0, **k):
    ts = list(ts)
    if all(isinstance(t, (Sel, Rng, RSel)) for t in ts):
        if all(isinstance(t, Sel) for t in ts) and all(t.target == ts[0].target for t in ts):
            return arr.joinsel(ts, ts[0].target)
        return RSel([p for t in ts for p in (t.parts if isinstance(t, RSel) else [t])])
    if axis is None:
        return arr.concatenate([tensor(t).ravel() for t in ts], 0)
    return arr.concatenate(ts, axis)


@npf
def hstack(ts, **k):
    ts = [lift(t) for t in ts]
    return concatenate(ts, 0 if ts[0].ndim == 1 else 1) if not isinstance(ts[0], (Sel, Rng)) else concatenate(ts)


@npf
def vstack(ts, **k):
    ts = [lift(t) for t in ts]
    return arr.concatenate([arr.expand(t, 0) if t.ndim == 1 else t for t in ts], 0)


@npf
def column_stack(ts):
    ts = [lift(t) for t in ts]
    return arr.concatenate([arr.expand(t, 1) if t.ndim == 1 else t for t in ts], 1)


@npf
def append(a, b, axis=None):
    return concatenate((a, b), axis=axis)


@npf
def block(rows):
    return arr.block(rows)


@npf
def kron(a, b):
    return arr.kron(a, b)


@npf
def outer(a, b, out=None):
    return arr.outer(a, b)


@npf
def einsum(spec, *ts, **k):
    return arr.einsum(spec, *ts)


@npf
def diag(a, k=0):
    return arr.diag(a, k)


@npf
def diagonal(a, offset=0, **k):
    return arr.diag(a, offset)


@npf
def trace(a, **k):
    return arr.sum_(arr.diag(a), 0)


@npf
def sum_(a, axis=None, keepdims=False, **k):
    if isinstance(a, Mask):
        return a.count()
    if isinstance(a, (list, tuple)):
        r = 0
        for x in a:
            r = r + x
        return r
    return arr.sum_(a, axis, keepdims)


@npf
def mean(a, axis=None, keepdims=False, **k):
    return arr.mean(a, axis, keepdims)


@npf
def var(a, axis=None, ddof=0, keepdims=False, **k):
    a = tensor(a)
    c = a - arr.mean(a, axis, True)
    n = a.size if axis is None else a.axes[axis].n
    return arr.sum_(c * c, axis, keepdims) / lift(n - ddof)


@npf
def std(a, axis=None, ddof=0, keepdims=False, **k):
    return arr.apply('sqrt', var(a, axis, ddof, keepdims))


@npf
def sqrt(a):
    return arr.apply('sqrt', a)


@npf
def absolute(a):
    return arr.apply('abs', a)


NPF['abs'] = absolute
NPF['fabs'] = absolute


@npf
def divide(a, b, **k):
    return lift(a) / lift(b)


NPF['true_divide'] = divide


@npf
def multiply(a, b, **k):
    return lift(a) * lift(b)


@npf
def add(a, b, **k):
    return lift(a) + lift(b)


@npf
def subtract(a, b, **k):
    return lift(a) - lift(b)


@npf
def negative(a):
    return -lift(a)


@npf
def square(a):
    return lift(a) * lift(a)


@npf
def power(a, b):
    return lift(a) ** b


@npf
def reciprocal(a):
    return 1 / lift(a)


@npf
def isnan(a):
    if hasattr(a, 'isnan'):
        return a.isnan()
    raise Unsupported('isnan of entries')


@npf
def logical_and(a, b, **k):
    return a & b


@npf
def logical_or(a, b, **k):
    return a | b


@npf
def logical_not(a, **k):
    return ~a


@npf
def count_nonzero(a, axis=None):
    if isinstance(a, Mask):
        return a.count()
    raise Unsupported('count_nonzero')


@npf
def where(c, *xy):
    if hasattr(c, 'pv_where') and not xy:
        return c.pv_where()
    if isinstance(c, Mask) and not xy:
        return (arr.as_sel(c, c.axis),)
    raise Unsupported('where')


@npf
def flatnonzero(c):
    return where(c)[0]


@npf
def nonzero(c):
    return where(c)


@npf
def any_(a, axis=None):
    if isinstance(a, Mask):
        return a.any()
    raise Unsupported('any')


@npf
def all_(a, axis=None):
    if isinstance(a, Mask):
        return a.all()
    raise Unsupported('all')


@npf
def argsort(a, **k):
    if isinstance(a, Sel):
        return arr.argsort(a)
    raise Unsupported('argsort')


@npf
def isin(a, b, **k):
    if k or not isinstance(a, Sel) or not isinstance(b, (Sel, Mask)):
        raise Unsupported('isin')
    b = arr.as_sel(b, a.target)
    on = {b.m[x] for x in b.axis.comps()}
    return Mask(a.axis, {x: a.m.get(x) in on for x in a.axis.comps()})


@npf
def repeat(a, repeats, axis=None):
    if isinstance(a, (Sel, Rng)) and isint(repeats) and axis in (None, 0):
        return arr.Spread(a, repeats, False)
    raise Unsupported('repeat')


@npf
def arange(*a, dtype=None, **k):
    if len(a) > 2:
        raise Unsupported('arange step')
    lo, hi = (0, a[0]) if len(a) == 1 else a
    if not isinstance(lo, SI) and not isinstance(hi, SI):
        return _np.arange(lo, hi, dtype=dtype)
    return Rng(lo, hi)


@npf
def ix_(*a):
    return Ix(list(a))


NPF['ix_'] = ix_


@npf
def reshape(a, shape, order='C', **k):
    if hasattr(a, 'reshape') and not isinstance(a, (Tensor, Lazy)):
        return a.reshape(*shape_of(shape))
    return tensor(a).reshape(*shape_of(shape), order=order)


@npf
def ravel(a, order='C'):
    return tensor(a).ravel(order)


@npf
def squeeze(a, axis=None):
    return tensor(a).squeeze(axis)


@npf
def atleast_1d(a):
    if isinstance(a, Pt):
        for p in (a.target.parts()):
            if a.key in p.comps():
                return Sel(p, a.target, {a.key: a.key})
    if isinstance(a, (Sel, Rng, RSel, Mask)):
        return a
    a = tensor(a)
    return arr.expand(a, 0) if a.ndim == 0 else a


@npf
def atleast_2d(a):
    a = tensor(a)
    while a.ndim < 2:
        a = arr.expand(a, 0)
    return a


@npf
def expand_dims(a, axis):
    a = tensor(a)
    return arr.expand(a, axis if axis >= 0 else a.ndim + 1 + axis)


@npf
def array(a, dtype=None, **k):
    if isinstance(a, (Tensor, Lazy)):
        return solid(a).copy()
    if isinstance(a, (Sel, Rng, RSel, Mask)):
        return a
    if isinstance(a, SI):
        return lift(a)
    if isinstance(a, (list, tuple)):
        rows = [array(x) if issym(x) else x for x in a]
        if all(isinstance(r, (Tensor,)) for r in rows):
            return arr.concatenate([arr.expand(r, 0) for r in rows], 0)
    raise Unsupported('array of symbolic values')


@npf
def asarray(a, dtype=None, **k):
    return a if isinstance(a, (Tensor, Lazy, Sel, Rng, RSel, Mask)) else array(a)


NPF['asanyarray'] = NPF['ascontiguousarray'] = asarray


@npf
def copy(a, **k):
    return solid(a).copy() if isinstance(a, (Tensor, Lazy)) else a.copy()


@npf
def shape(a):
    return a.shape


@npf
def size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@npf
def ndim(a):
    return a.ndim


@npf
def isscalar(a):
    return isinstance(a, (SI,)) or (isinstance(a, Tensor) and a.ndim == 0)


@npf
def tile(a, reps):
    if hasattr(a, 'tile'):
        return a.tile(reps)
    if isinstance(a, (Sel, Rng)) and isint(reps):
        return arr.Spread(a, reps, True)
    reps = shape_of(reps)
    if isinstance(a, Tensor) and a.ndim == 1 and len(reps) == 2 and same(reps[1], 1) and isinstance(reps[0], int):
        return arr.concatenate([arr.expand(a, 0)] * reps[0], 0)
    raise Unsupported('tile')


@npf
def array_equal(a, b):
    raise Unsupported('comparison of entries')


@laf
def inv(a, **k):
    return arr.inverse(a)


@laf
def solve(a, b, **k):
    return arr.solve(a, b)


@laf
def matrix_rank(a, **k):
    a = tensor(a)
    reg = eng.CUR.env.setdefault('ranks', [])
    r = next((x[-1] for x in reg if arr.alike(x[0], a)), None)
    if r is None:
        r = eng.fresh_int(f'rank{len(reg)}', 0)
        eng.CUR.assume(zi(r) <= zi(a.axes[0].n))
        eng.CUR.assume(zi(r) <= zi(a.axes[1].n))
        reg.append((a, r))
    return r


@laf
def cholesky(a, lower=None, np=False, **k):
    """L with L L^T = a (numpy, or scipy's lower=True) or U with U^T U = a (scipy's default), U = L^T"""
    a = tensor(a)
    reg = eng.CUR.env.setdefault('cholesky', [])
    low = next((x[-1] for x in reg if arr.alike(x[0], a)), None)
    if low is None:
        ax = a.axes[0]
        ax2 = arr.mkcat([Lf(p.sort, p.tag + '~') for p in ax.parts()]) if CHOL_FRESH else ax
        low = arr.atoms(f'chol{len(reg)}', [ax, ax2], frozen=False)
        reg.append((a, low))
    if lower is None:
        lower = np
    return low if lower else Tensor(*arr._tr(low))


CHOL_FRESH = False


@laf
def solve_discrete_lyapunov(a, q, method=None):
    """X with X = a X a^T + q, unique when a is stable; symmetric when q is"""
    a, q = tensor(a), tensor(q)
    reg = eng.CUR.env.setdefault('lyapunov', [])
    arr.checkdims(a.axes[0], q.axes[0])
    x = next((x[-1] for x in reg if arr.alike(x[0], a) and arr.alike(x[1], q)), None)
    if x is None:
        sym = arr.is_zero(q - arr.transpose(q))
        x = arr.atoms(f'lyap{len(reg)}', [a.axes[0], a.axes[0]], 'matrix' if sym else None, frozen=False)
        reg.append((a, q, x))
    return x


class Ns:
    """a module: contracts first, the real one for values that are not symbolic"""
    __pv__ = False

    def __init__(self, real, table, sub=None, extra=None):
        self.__dict__.update(_real=real, _table=table, _sub=sub or {}, _extra=extra or {})

    def __getattr__(self, name):
        if name in self._sub:
            return self._sub[name]
        if name in self._extra:
            return self._extra[name]
        r = getattr(self._real, name, None)
        f = self._table.get(name)
        if f is None and r is None and hasattr(self._real, name):
            return None
        if f is None and r is None:
            raise AttributeError(name)
        if isinstance(r, type) and eng.CUR is not None and name in eng.CUR.env.get('override', {}):
            return eng.CUR.env['override'][name]
        if f is None and (not callable(r) or isinstance(r, type)):
            return r

        def call(*a, **k):
            for o in ('overwrite_a', 'overwrite_b', 'overwrite_x'):
                if k.get(o) and issym(a):
                    # the argument may be destroyed
                    tensor(a[1 if o == 'overwrite_b' else 0]).writable()
            ov = eng.CUR.env.get('override', {}).get(name) if eng.CUR is not None else None
            h = next((x for x in a if hasattr(x, '__pv_np__')), None)
            if h is not None:
                return h.__pv_np__(name, a, k)
            if ov is not None and (issym(a) or issym(list(k.values()))):
                return ov(*a, **k)
            if f is not None and (issym(a) or issym(list(k.values())) or r is None):
                return f(*a, **k)
            if issym(a) or issym(list(k.values())):
                raise Unsupported(f'no contract for {name}')
            return r(*a, **k)
        call.__name__ = name
        return call


class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, Tensor, Lazy, Sel, Mask, Rng, RSel)) or hasattr(x, '__pv_np__')


class ndarray(metaclass=NdMeta):
    pass


def _normal(loc=0., scale=1., size=None):
    """independent standard normal draws: an array nobody has seen before"""
    if not (isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1):
        raise Unsupported('normal draws that are not standard')
    reg = eng.CUR.env.setdefault('noise', [])
    r = arr.atoms(f'noise{len(reg)}', [arr.size_axis(n) for n in shape_of(size)], frozen=False)
    reg.append(r)
    return r


RND = Ns(_np.random, {'normal': _normal, 'standard_normal': lambda size=None: _normal(size=size)})
NPLA = Ns(_np.linalg, {**LAF, 'cholesky': lambda a: LAF['cholesky'](a, np=True)})
LA = Ns(_la, LAF)
NP = Ns(_np, NPF, {'linalg': NPLA, 'random': RND}, {'ndarray': ndarray})
SP = Ns(_sp, {}, {'linalg': LA})


# builtins
def pv_len(x):
    if hasattr(x, '__pv_len__'):
        return x.__pv_len__()
    if isinstance(x, (Tensor, Lazy)):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.axes[0].n
    if isinstance(x, (Sel, Mask, Rng, RSel, GridSel)):
        return x.size
    return builtins.len(x)


class SRange:
    """range with a symbolic bound"""
    __pv__ = True

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise Unsupported('a loop of unknown length without an invariant')

    def pv_map(self, f):
        if self.step != 1:
            raise Unsupported('a list over a range downwards')
        from .seqs import Seq
        lo = self.lo
        return Seq(self.hi - lo, lambda i: f(lo + i))


def pv_range(*a):
    if any(isinstance(x, SI) for x in a):
        if builtins.len(a) == 1:
            return SRange(0, a[0])
        if builtins.len(a) == 2:
            return SRange(*a)
        if isinstance(a[2], int) and a[2] in (1, -1):
            return SRange(*a)
        raise Unsupported('range step')
    return builtins.range(*a)


class IsMeta:
    pass


FAKE = {}


def pv_isinstance(x, t):
    ts = tuple(FAKE.get(u, u) if builtins.isinstance(u, types.FunctionType) else u for u in (t if builtins.isinstance(t, tuple) else (t,)))
    if builtins.isinstance(x, SI):
        return any(u in (builtins.int, SI, object) for u in ts)
    if hasattr(builtins.type(x), '__pv_isinstance__'):
        return x.__pv_isinstance__(ts)
    return builtins.isinstance(x, ts)


def pv_abs(x):
    return arr.apply('abs', x) if builtins.isinstance(x, (Tensor, Lazy)) else builtins.abs(x)


def pv_sum(x, start=0):
    if builtins.isinstance(x, (Tensor, Lazy)):
        return arr.sum_(x, 0)
    if builtins.isinstance(x, Mask):
        return x.count()
    if hasattr(x, '__pv_sum__'):
        return x.__pv_sum__(start)
    return builtins.sum(x, start)


def pv_int(x=0, *a):
    if builtins.isinstance(x, SI):
        return x
    return builtins.int(x, *a)


def pv_enumerate(x, start=0):
    if getattr(x, '__pv__', False) and not getattr(x, '__pv_concrete__', False):
        from .tree import SymEnum
        return SymEnum(x, start)
    return builtins.enumerate(x, start)


def pv_list(*a):
    if a and hasattr(a[0], 'pv_list'):
        return a[0].pv_list()
    return builtins.list(*a)


FAKE[pv_list] = builtins.list
FAKE[pv_int] = builtins.int
BUILTINS = {'enumerate': pv_enumerate, 'len': pv_len, 'range': pv_range, 'isinstance': pv_isinstance, 'abs': pv_abs, 'sum': pv_sum}


# real function -> contract
def reverse():
    out = {}
    for real, ns in ((_np, NP), (_np.linalg, NPLA), (_la, LA)):
        for n in dir(real):
            if n.startswith('_'):
                continue
            f = getattr(real, n, None)
            if callable(f) and not isinstance(f, type):
                out.setdefault(id(f), getattr(ns, n))
    return out
