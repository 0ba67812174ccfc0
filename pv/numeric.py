"""Numbers for the entries of symbolic arrays: sizes from a model of the path condition, random entries, inverses that
are inverses.  Used only where two normal forms differ, to tell arrays that differ from forms that are not normal
enough: agreement makes the obligation undecided (it is never counted as proved), a difference comes with numbers."""
import zlib
import numpy as np
import z3
from . import arr, eng
from .eng import zi, SI


class Unknown(Exception):
    pass


def model(c, seed):
    """sizes on the path, small and not all the same"""
    s = z3.Solver()
    s.set('timeout', 3000, 'random_seed', seed)
    s.add(*c.pc)
    rng = np.random.default_rng(seed)
    s.push()
    ok = s.check() == z3.sat
    if not ok:
        raise Unknown('no model')
    for x in c.env.get('sorts', {}).values():
        if not isinstance(x.n, SI):
            continue
        for want in rng.permutation([2, 3, 4]).tolist() + [1, 5, 6]:
            s.push()
            s.add(zi(x.n) == want)
            if s.check() == z3.sat:
                break
            s.pop()
    if s.check() != z3.sat:
        raise Unknown('no model')
    return s.model()


class Values:
    def __init__(self, c, seed):
        self.c, self.seed, self.m = c, seed, model(c, seed)
        self.known, self.dense = {}, {}
        for a, x in c.env.get('inverses', []):
            for k in x.keys():
                p = x.get(k)
                if len(p) == 1:
                    (mono, co), = p.items()
                    if len(mono) == 1:
                        self.known[mono[0][0]] = (a, x)

    def int(self, e):
        v = self.m.eval(zi(e), model_completion=True)
        if not z3.is_int_value(v):
            raise Unknown(f'size {e}')
        v = v.as_long()
        if v > 40:
            raise Unknown('too large')
        return v

    def size(self, s):
        n = self.int(s.n)
        if n < 0:
            raise Unknown('size')
        return n

    def rng(self, name):
        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def atom(self, name):
        if name in self.dense:
            return self.dense[name]
        ss, syms = arr.ATOMS[name]
        shape = tuple(self.size(s) for s in ss)
        if name.startswith('d:'):
            v = np.eye(shape[0])
        elif name.startswith('#int:'):
            v = np.array(float(self.int(z3.Int(name[5:]))))
        elif name.startswith('#'):
            s = self.c.env.get('sorts', {}).get(name[1:])
            if s is None:
                raise Unknown(name)
            v = np.array(float(self.size(s)))
        elif name in arr.DEFS:
            f, p = arr.DEFS[name]
            x = self.poly(p, dict(enumerate(ss)), len(ss))
            with np.errstate(all='ignore'):
                if f == 'recip':
                    v = 1 / x
                elif f == 'sqrt':
                    v = np.emath.sqrt(x)
                elif f == 'abs':
                    v = np.abs(x)
                elif f == 'nan':
                    raise Unknown('undefined')
                else:
                    h = self.rng(f).uniform(.5, 2, size=2)
                    v = np.cos(h[0] * x) + h[1] * np.sin(x)
        elif name in arr.SHIFTS:
            base, sh = arr.SHIFTS[name]
            b = self.atom(base)
            lo = [self.int(sh.get(i, 0)) for i in range(len(ss))]
            if any(l < 0 or l + n > d for l, n, d in zip(lo, shape, b.shape)):
                raise Unknown('range')
            v = b[tuple(slice(l, l + n) for l, n in zip(lo, shape))]
        elif name in self.known:
            self.invert(*self.known[name])
            return self.dense[name]
        else:
            v = self.rng(name).normal(size=shape)
            if syms:
                v = sum(np.transpose(v, p) for p in syms) / len(syms)
        self.dense[name] = v
        return v

    def invert(self, a, x):
        """x is the inverse of a"""
        rows, cols = list(arr.allcomps(a.axes[0])), list(arr.allcomps(a.axes[1]))
        width = lambda ax, k: int(np.prod([self.size(s) for s in ax.sorts(k)], dtype=int))
        lr, lc = [width(a.axes[0], k) for k in rows], [width(a.axes[1], k) for k in cols]
        if sum(lr) != sum(lc):
            raise Unknown('not square')
        M = np.zeros((sum(lr), sum(lc)))
        at = lambda l, i: (sum(l[:i]), sum(l[:i + 1]))
        for i, k in enumerate(rows):
            for j, q in enumerate(cols):
                p = a.get((k, q))
                if p:
                    v = self.block(a, (k, q))
                    M[slice(*at(lr, i)), slice(*at(lc, j))] = v.reshape(lr[i], lc[j])
        if not len(M):
            X = M.T
        elif np.linalg.cond(M) > 1e8:
            raise Unknown('singular')
        else:
            X = np.linalg.inv(M)
        for j, q in enumerate(cols):
            for i, k in enumerate(rows):
                p = x.get((q, k))
                if len(p) != 1:
                    continue
                (mono, co), = p.items()
                if len(mono) == 1 and co == 1:
                    name, ix = mono[0]
                    ss = arr.ATOMS[name][0]
                    self.dense[name] = X[slice(*at(lc, j)), slice(*at(lr, i))].reshape(tuple(self.size(s) for s in ss))

    def poly(self, p, slots, n):
        """the values of a polynomial with free slots 0 .. n-1"""
        shape = tuple(self.size(slots[i]) for i in range(n))
        out, scale = np.zeros(shape), 0.
        for mono, co in p.items():
            v = self.mono(mono, n, shape) * float(co)
            out = out + v
            scale = max(scale, float(np.max(np.abs(v), initial=0.)))
        self.scale = scale
        return out

    def mono(self, mono, n, shape):
        ops, labels, num = [], {}, 1.
        for name, ix in mono:
            v = self.atom(name)
            take = tuple(0 if x == arr.STAR else slice(None) for x in ix)
            if any(x == arr.STAR and d != 1 for x, d in zip(ix, v.shape)):
                raise Unknown('an index set of size one')
            v = v[take]
            ix = [x for x in ix if x != arr.STAR]
            if not ix:
                num = num * complex(v) if np.iscomplexobj(v) else num * float(v)
                continue
            ops += [v, [labels.setdefault(x, len(labels)) for x in ix]]
        if len(labels) > 40:
            raise Unknown('many indices')
        got = [x for x in range(n) if x in labels]
        v = np.einsum(*ops, [labels[x] for x in got]) if ops else np.array(1.)
        v = v.reshape(tuple(shape[x] if x in labels else 1 for x in range(n)))
        return np.broadcast_to(v, shape) * num

    def block(self, t, key):
        ss = t.slots(key)
        return self.poly(t.get(key), dict(enumerate(ss)), len(ss))


def differs(t, trials=3):
    """True / False / None for an array that should vanish: entries found that do not, none found, not evaluated; with
    the sizes and the value"""
    c = eng.CUR
    seen = False
    for seed in range(1, trials + 1):
        try:
            v = Values(c, seed)
            for k in t.keys():
                p = t.get(k)
                if not p:
                    continue
                x = v.block(t, k)
                if not x.size:
                    continue
                if not np.all(np.isfinite(x)):
                    raise Unknown('not finite')
                w = float(np.max(np.abs(x)))
                if w > 1e-7 * max(1., v.scale):
                    sizes = {n: v.int(s.n) for n, s in c.env.get('sorts', {}).items()}
                    return True, f'off by {w:.3g} in {k} for random entries of sizes {sizes}'
                seen = True
        except (Unknown, ValueError, ArithmeticError, KeyError, IndexError, z3.Z3Exception):
            continue
    return (False if seen else None), ''
