"""the generalised Sylvester solver of utils/numpy.py.  The back-substitution is cut at the invariant 'the columns after k
solve their part of the rotated equation, and k ends a diagonal block'; its inner sums at 'the accumulator holds the terms so far'."""
from pv import eng, arr, load
z3 = eng.z3
from pv.arr import Lf, Cat, Tensor, Lazy, sort, atoms, fact, prove_equal, prove_zero, matmul, tensor, fit, Unsupported, inv_facts, eye
from pv.eng import Unit, zi, SI, SB
from pv.contracts.common import Poison

MODS = ['pynare.utils.numpy']
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy/scipy: matmul, dot, block, hstack, transpose, reshape, slicing and assignment follow their documented meaning '
    '(pv/arr.py, pv/npshim.py); linalg.solve returns the solution of a nonsingular system',
    'qz(A, C, output="real") returns orthogonal Q, Z with A = Q P Z\', C = Q S Z\', P upper quasi-triangular with diagonal blocks '
    'of size one or two, S upper triangular',
    'the blocks visited are all the blocks and columns found earlier do not change (loop contract), so that the column equations hold in '
    'every column at the end (induction over the blocks, written down, not checked by the machine)',
]


class Entry(Tensor):
    """one entry of the quasi-triangular factor, which the code compares with zero"""
    zero = None

    def __ne__(self, o):
        return not self == o

    def __eq__(self, o):
        if not (isinstance(o, (int, float)) and o == 0):
            raise Unsupported('comparison of entries')
        return self.q.is_zero(self.r, self.c)
    __hash__ = object.__hash__


class Quasi(Tensor):
    """upper quasi-triangular"""

    def __getitem__(self, ix):
        r = Tensor.__getitem__(self, ix)
        if isinstance(ix, tuple) and len(ix) == 2 and r.ndim == 0:
            e = Entry([], dict(r.blocks))
            n = self.axes[0].n
            e.q = self
            e.r, e.c = (arr.norm_pos(x if isinstance(x, SI) else int(x), n) for x in ix)
            return e
        return r

    def diagonal(self, offset=0, **k):
        if isinstance(offset, int) and offset == -1:
            return SubDiag(self)
        return Tensor.diagonal(self, offset)

    def Z(self, k):
        """the number of zeros among the entries (l, l-1), 1 <= l <= k"""
        return self.zfun(zi(k))

    def is_zero(self, r, c):
        ctx = eng.CUR
        below = ctx.entails(zi(c) == zi(r) - 1) and ctx.entails(zi(r) >= 1)
        key = str(z3.simplify(zi(r))) + ',' + str(z3.simplify(zi(c)))
        if key not in self.seen:
            v = ctx.choose(2) == 1
            self.seen[key] = v
            if below:
                ctx.assume(self.Z(r) >= 0)
                ctx.assume(self.Z(SI(zi(r) - 1)) >= 0)
                ctx.assume(self.Z(0) == 0)
                ctx.assume(self.Z(r) == self.Z(SI(zi(r) - 1)) + (1 if v else 0))
                (self.zeros if v else self.blocks2).append(r)
                if not v:
                    # blocks have size at most two
                    p = SI(zi(r) - 1)
                    ctx.assume(z3.Implies(zi(p) >= 1, z3.And(self.Z(p) == self.Z(SI(zi(p) - 1)) + 1, self.Z(SI(zi(p) - 1)) >= 0)))
        return self.seen[key]

    def alone(self, k):
        """the entry to the left of the k-th diagonal one is known to be zero, or there is none"""
        ctx = eng.CUR
        return ctx.entails(zi(k) <= 0) or any(ctx.entails(zi(r) == zi(k)) for r in self.zeros)

    def pair(self, k):
        ctx = eng.CUR
        return any(ctx.entails(zi(r) == zi(k)) for r in self.blocks2)


class SubDiag:
    __pv__ = True

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return SubZero(self.q, True)
        raise Unsupported('comparison of entries')

    def __ne__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return SubZero(self.q, False)
        raise Unsupported('comparison of entries')
    __hash__ = None

    def __getattr__(self, a):
        raise Unsupported(f'{a} of a diagonal')


class SubZero:
    __pv__ = True

    def __init__(self, q, yes):
        self.q, self.yes = q, yes

    def sum(self):
        n = self.q.axes[0].n
        z = SI(self.q.Z(SI(zi(n) - 1)))
        eng.CUR.assume(z.e >= 0)
        eng.CUR.assume(self.q.Z(0) == 0)
        return z if self.yes else n - 1 - z

    def __pv_sum__(self, start=0):
        return self.sum() + start

    def __getattr__(self, a):
        raise Unsupported(f'{a} of a comparison')


def qz(A, B, output='real', **k):
    if output not in ('real', 'r') or k:
        raise Unsupported('options of qz')
    A, B = tensor(A), tensor(B)
    reg = eng.CUR.env.setdefault('qz', [])
    i = len(reg)
    ax = A.axes[0]
    P, S, Q, Z = (atoms(f'{n}{i}', [ax, ax], frozen=False) for n in ('qzP', 'qzS', 'qzQ', 'qzZ'))
    P = Quasi(P.axes, dict(P._b))
    P.zfun = z3.Function(f'zeros{i}', z3.IntSort(), z3.IntSort())
    P.seen, P.zeros, P.blocks2 = {}, [], []
    reg.append((A, B, P, S, Q, Z))
    return P, S, Q, Z


class Substitution:
    def __init__(self, c, M, N):
        self.c, self.M, self.N, self.depth, self.used = c, M, N, 0, 0
        self.entered = {}
        self.rows = c.unit.__dict__.setdefault('rowmap', {})

    def system(self):
        reg = self.c.env.get('qz', [])
        if len(reg) != 2:
            raise Unsupported('not two Schur forms')
        (A, C, P, S, Q1, Z1), (D, B, T, R, Q2, Z2) = reg
        return P, S, T, R

    def col(self, Y, l, r):
        """what column l contributes to the r-th column of P Y R' + S Y T'"""
        P, S, T, R = self.system()
        y = tensor(Y[:, l])
        return matmul(P, y) * Tensor.__getitem__(R, (r, l)) + matmul(S, y) * Tensor.__getitem__(T, (r, l))

    def tail(self, Y, k, r):
        """what the columns after k contribute"""
        P, S, T, R = self.system()
        if arr.same(k + 1, self.N.n):
            return Tensor([Lf(self.M)], {})
        y = tensor(Y[:, k + 1:])
        return matmul(P, matmul(y, tensor(R[r, k + 1:]))) + matmul(S, matmul(y, tensor(T[r, k + 1:])))

    def blocks(self, k):
        T = self.system()[2]
        return z3.If(zi(k) >= 0, T.Z(k) + 1, 0)

    def __call__(self, w, st, what, env):
        if self.depth == 1 and what == 'enter' or getattr(st, 'is_inner', False):
            return self.sums(w, st, what, env)
        return self.columns(w, st, what, env)

    # -- the columns, last block first
    def columns(self, w, st, what, env):
        c, N = self.c, self.N
        P, S, T, R = self.system()
        if what == 'enter':
            self.used += 1
            if self.used > 1 or st.it.step != 1:
                raise Unsupported('another loop')
            ks = [n for n in st.names if n in env and isinstance(env[n], (SI, int)) and not isinstance(env[n], bool)]
            ys = [n for n in st.names if isinstance(env.get(n), (Tensor, Lazy)) and env[n].ndim == 2]
            if len(ks) != 1 or len(ys) != 1:
                raise Unsupported('the loop does not carry the solution and one position')
            self.kn, self.yn = ks[0], ys[0]
            c.prove('the substitution starts at the last column', zi(env[self.kn]) == zi(N.n) - 1)
            c.prove('one iteration for every diagonal block', zi(st.it.hi) - zi(st.it.lo) == self.blocks(SI(zi(N.n) - 1)))
            for n in st.names:
                if n in env and n not in (self.kn, self.yn):
                    st.vals[n] = Poison()
            self.Y = atoms('Y', [Lf(self.M), Lf(N)], frozen=False)
            k = eng.fresh_int('k')
            c.assume(zi(k) >= -1)
            c.assume(zi(k) < zi(N.n))
            c.assume(z3.Implies(zi(k) >= 0, T.Z(k) >= 0))
            c.assume(T.Z(0) == 0)
            st.vals[self.kn], st.vals[self.yn] = k, self.Y
            if c.choose(2):
                # no iteration is left
                c.assume(self.blocks(k) == 0)
                c.prove('the substitution ends before the first column', zi(k) == -1)
                self.done = True
                return
            i = eng.fresh_int('i')
            c.assume(zi(i) >= zi(st.it.lo))
            c.assume(zi(i) < zi(st.it.hi))
            c.assume(zi(st.it.hi) - zi(i) == self.blocks(k))
            self.left = SI(zi(st.it.hi) - zi(i))
            self.k, self.was = k, self.Y.copy()
            st.body, st.item = True, i
            self.depth = 1
        elif what == 'leave':
            k, k2, Y = self.k, env[self.kn], env[self.yn]
            F = self.F
            solved = c.env.get('inverses', [])
            if len(solved) != 1:
                raise Unsupported('a block is not solved by one linear system')
            m = solved[0][0]
            inv, r, l = inv_facts(m)
            f = self.rhs(m)
            z = r @ f
            c.prove('the position moves by the size of the block', z3.Or(zi(k2) == zi(k) - 1, zi(k2) == zi(k) - 2))
            two = c.entails(zi(k2) == zi(k) - 2)
            c.prove('what is left are the blocks before', self.blocks(k2) == self.left.e - 1)
            c.prove('the position stays within the columns', zi(k2) >= -1)
            eq = lambda rr, cols: sum_t([self.col(Y, l, rr) for l in cols]) + self.tail(Y, k, rr) - tensor(F[:, rr])
            name = 'the columns of a block solve their part of the equation'
            if two:
                c.goal('two columns are solved together only where the block has size two', T.pair(k))
                n = self.M.n
                za, zb = (x.map(lambda t: fit(t, [Lf(self.M)])) for x in (z[:n], z[n:]))
                prove_zero(name, eq(SI.mk(zi(k) - 1), [k, SI.mk(zi(k) - 1)]), by=[za])
                # R is upper triangular: its entry left of the diagonal is zero
                P_, S_, T_, R_ = self.system()
                y1 = tensor(Y[:, k - 1])
                full = matmul(S_, y1) * Tensor.__getitem__(T_, (k, k - 1)) + self.col(Y, k, k) + self.tail(Y, k, k) - tensor(F[:, k])
                prove_zero(name, full, by=[zb])
            else:
                c.goal('one column is solved alone only where the block has size one', T.alone(k))
                prove_zero(name, eq(k, [k]), by=[z.map(lambda t: fit(t, [Lf(self.M)]))])
            ok = True
            lo = 0 if two else 0
            for a, b in ((0, k2 + 1), (k + 1, N.n)):
                if not arr.same(a, b):
                    x, y = tensor(Y[:, a:b]), tensor(self.was[:, a:b])
                    ok = ok and arr.is_zero(fit(x, y.axes) - y)
            c.goal('the other columns stay as they are', ok)

    def rhs(self, m):
        if len(self.sys) != 1:
            raise Unsupported('a block is not solved by one linear system')
        return self.sys[0]

    # -- the influence of the columns already found
    def sums(self, w, st, what, env):
        c = self.c
        k, n = self.k, self.N.n
        if what == 'enter':
            st.is_inner = True
            if st.it.step != 1:
                raise Unsupported('loop direction')
            c.prove('the columns already found are visited', zi(st.it.hi) - zi(st.it.lo) == zi(n) - 1 - zi(k))
            accs = [x for x in st.names if isinstance(env.get(x), (Tensor, Lazy))]
            if any(env[x].ndim != 1 for x in accs) or not accs:
                raise Unsupported('the loop does more than add up')
            for x in st.names:
                if x in env and x not in accs:
                    st.vals[x] = Poison()
            st.accs = accs
            # one place may be entered more than once, as a function called for each row is
            site = st.site, self.entered.get(st.site, 0)
            self.entered[st.site] = site[1] + 1
            st.entry = site
            if c.choose(2):
                if c.entails(zi(k) == zi(n) - 1):
                    for x in accs:
                        st.vals[x] = env[x]
                    return
                rows = self.rows.get((site, self.which(k)))
                if rows is None:
                    raise Unsupported(f'a sum that has not been established {site} {self.which(k)} {self.rows}')
                for x in accs:
                    st.vals[x] = fit(tensor(env[x]), [Lf(self.M)]) + self.tail(self.Y, k, SI.mk(zi(k) - rows[x]))
                return
            j = eng.fresh_int('j')
            c.assume(zi(j) >= zi(st.it.lo))
            c.assume(zi(j) < zi(st.it.hi))
            st.l = SI.mk(zi(k) + 1 + zi(j) - zi(st.it.lo))
            st.old = {}
            for x in accs:
                st.old[x] = atoms('acc_' + x, [Lf(self.M)], frozen=False)
                st.vals[x] = st.old[x].copy()
            st.body, st.item = True, j
        elif what == 'leave':
            rows = {}
            for x in st.accs:
                term = fit(tensor(env[x]), [Lf(self.M)]) - st.old[x]
                for off in (0, 1):
                    r = SI.mk(zi(k) - off)
                    if off and not c.entails(zi(k) >= 1):
                        continue
                    if arr.is_zero(term - self.col(self.Y, st.l, r)):
                        rows[x] = off
                        break
                else:
                    c.goal('a sum gains the influence of one column', False, detail=f'the term added to {x} is not that of column k+1+j',
                           strict=False)
                    return
            c.goal('a sum gains the influence of one column', True)
            self.rows[st.entry, self.which(k)] = rows

    def which(self, k):
        return bool(self.system()[2].pair(k))


def sum_t(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def sylvester(c):
    M, N = sort('M', lo=1), sort('N', lo=1)
    A, C = atoms('A', [Lf(M), Lf(M)]), atoms('C', [Lf(M), Lf(M)])
    B, D = atoms('B', [Lf(N), Lf(N)]), atoms('D', [Lf(N), Lf(N)])
    E = atoms('E', [Lf(M), Lf(N)])
    c.env['axes'] = [Lf(M), Lf(N)]
    h = Substitution(c, M, N)
    w = load.World(MODS, loops={'*': h})
    h.sys = []
    solve0 = arr.solve

    def solve(a, b, **k):
        h.sys.append(tensor(b))
        return solve0(a, b)
    c.env['override'] = {'qz': qz, 'solve': solve}
    arg = E
    if c.choose(2):
        # a constant with one column, given without its column axis
        c.assume(zi(N.n) == 1)
        arg = E[:, 0]
        arg.frozen, arg.base = True, None

    class Hook:
        pass
    # the rotated right-hand side, as the loop sees it
    h.F = None
    orig = h.columns

    def columns(w_, st, what, env):
        if what == 'enter' and h.F is None:
            reg = c.env['qz']
            (_, _, P, S, Q1, Z1), (_, _, T, R, Q2, Z2) = reg
            h.F = matmul(Q1.T, matmul(E, Q2))
        return orig(w_, st, what, env)
    h.columns = columns
    X = w['pynare.utils.numpy:generalized_sylvester'](A, B, C, D, arg)
    c.goal("the solution has the shape of E", isinstance(X, (Tensor, Lazy)) and X.ndim == arg.ndim
           and all(arr.same(x.n, y.n) for x, y in zip(X.axes, arg.axes)))
    if X.ndim == 1:
        X = arr.expand(tensor(X), 1)
    X = fit(tensor(X), [Lf(M), Lf(N)])
    lhs = matmul(matmul(A, X), B.T) + matmul(matmul(C, X), D.T) - E
    name = "the solution satisfies A X B' + C X D' = E"
    if not h.used:
        if len(h.sys) != 1:
            raise Unsupported('not one linear system')
        m = c.env['inverses'][0][0]
        inv, r, l = inv_facts(m)
        z = r @ h.sys[0]
        if z.t.ndim == 2 and z.t.axes[0] == Lf(N):
            z = z.T
        prove_zero(name, lhs, by=[z.map(lambda t: fit1(t, [Lf(M), Lf(N)]))])
        return
    (a, cc, P, S, Q1, Z1), (dd, b, T, R, Q2, Z2) = c.env['qz']
    if not (arr.is_zero(a - A) and arr.is_zero(cc - C) and arr.is_zero(dd - D) and arr.is_zero(b - B)):
        raise Unsupported('Schur forms of other matrices')
    Y, F = h.Y, h.F
    P, T = Tensor(P.axes, dict(P.blocks)), Tensor(T.axes, dict(T.blocks))
    m_ = lambda *x: mm(*x)
    fA, fC = fact(A, m_(Q1, P, Z1.T)), fact(C, m_(Q1, S, Z1.T))
    fB, fD = fact(B, m_(Q2, R, Z2.T)), fact(D, m_(Q2, T, Z2.T))
    oz1, oz2 = fact(m_(Z1.T, Z1), eye(Lf(M))), fact(m_(Z2.T, Z2), eye(Lf(N)))
    oq1, oq2 = fact(m_(Q1, Q1.T), eye(Lf(M))), fact(m_(Q2, Q2.T), eye(Lf(N)))
    core = fact(m_(P, Y, R.T) + m_(S, Y, T.T), F)
    XX = m_(Z1, Y, Z2.T)
    # A X B' with A = Q1 P Z1', B' = Z2 R' Q2'
    part = lambda fL, L, K, fR, Rr, U: [
        fL @ matmul(XX, Rr.T), matmul(m_(Q1, K, Z1.T), XX) @ fR.T,
        m_(Q1, K) @ (oz1 @ m_(Y, Z2.T, Z2, U.T, Q2.T)), m_(Q1, K, Y) @ (oz2 @ m_(U.T, Q2.T))]
    by = part(fA, A, P, fB, B, R) + part(fC, C, S, fD, D, T)
    by += [Q1 @ (core @ Q2.T), oq1 @ m_(E, Q2, Q2.T), E @ oq2]
    prove_equal('the solution is the rotated one turned back', X, XX)
    prove_zero(name, lhs, by=by)


def mm(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = matmul(r, x)
    return r


def fit1(t, axes):
    return fit(t, axes)


def shapes(c):
    """arrays that do not conform are rejected, those that do are not"""
    n = lambda s: sort(s, lo=1)
    a, b, c_, d, e = ([n(x + '1'), n(x + '2')] for x in 'ABCDE')
    w = load.World(MODS)
    z = [zi(x.n) for p in (a, b, c_, d, e) for x in p]
    conform = z3.And(z[0] == z[1], z[4] == z[0], z[5] == z[1], z[2] == z[3], z[6] == z[2], z[7] == z[3], z[8] == z[0], z[9] == z[2])

    def reached(*x, **k):
        c.prove('arrays that do not conform are rejected', conform)
        raise eng.PathEnd()

    class Shaped(Tensor):
        __mul__ = __rmul__ = __matmul__ = __add__ = reached

    def t(s, p):
        a = atoms(s, [Lf(p[0]), Lf(p[1])])
        return Shaped(a.axes, dict(a.blocks))
    c.env['override'] = {'qz': reached, 'solve': reached}
    try:
        w['pynare.utils.numpy:generalized_sylvester'](*(t(s, p) for s, p in zip('ABCDE', (a, b, c_, d, e))))
    except ValueError:
        c.prove('arrays that conform are accepted', z3.Not(conform))
        return
    c.prove('arrays that do not conform are rejected', conform)


def triangular(c):
    """putting the columns together: with the factors' zeros below the diagonal, what the substitution establishes for the
    columns of a block are those columns of P Y R' + S Y T' = F.  Columns after a block never change again (frame of the
    loop), the blocks visited are all of them (its variant), so that the equation holds in every column at the end"""
    M, before, after, one = sort('M', lo=1), sort('before'), sort('after'), sort('One', 1)
    P, S = atoms('P', [Lf(M), Lf(M)]), atoms('S', [Lf(M), Lf(M)])
    u, v = Lf(one), Lf(one, 'v')

    def row(name, axes, zero):
        """a row of a factor: arbitrary but for the parts that are zero"""
        n = Cat(axes)
        t = atoms(name, [n])
        return Tensor([n], {k: b for k, b in t.blocks.items() if k[0] not in [z for a in zero for z in a.comps()]})

    def check(axes, zr, zt, found, name):
        Y = atoms('Y', [Lf(M), Cat(axes)])
        R, T = row('R', axes, zr), row('T', axes, zt)
        whole = matmul(P, matmul(Y, R)) + matmul(S, matmul(Y, T))
        part = None
        for a in found:
            y = Tensor([Lf(M), a], {k: b for k, b in Y.blocks.items() if k[1] in a.comps()})
            sub = lambda t: Tensor([a], {k: b for k, b in t.blocks.items() if k[0] in a.comps()})
            x = matmul(P, matmul(y, sub(R))) + matmul(S, matmul(y, sub(T)))
            part = x if part is None else part + x
        prove_equal(name, part, whole)
    name = 'the equations of the columns are those of the matrices'
    A, B = Lf(before), Lf(after)
    check([A, u, B], [A], [A], [u, B], name)
    # a block of two columns: its first row, then its second, where only one of the factors has an entry left of the diagonal
    check([A, u, v, B], [A], [A], [u, v, B], name)
    check([A, u, v, B], [A, u], [A], [u, v, B], name)


def units():
    u = 'pynare.utils.numpy.generalized_sylvester'
    return [
        Unit(u + ' (triangular factors)', triangular, ['the equations of the columns are those of the matrices']),
        Unit(u, sylvester, ["the solution has the shape of E", "the solution satisfies A X B' + C X D' = E",
                            'the solution is the rotated one turned back', 'the substitution starts at the last column',
                            'one iteration for every diagonal block', 'the substitution ends before the first column',
                            'the position moves by the size of the block', 'what is left are the blocks before',
                            'the position stays within the columns', 'the columns of a block solve their part of the equation',
                            'two columns are solved together only where the block has size two',
                            'one column is solved alone only where the block has size one', 'the other columns stay as they are',
                            'the columns already found are visited', 'a sum gains the influence of one column']),
        Unit(u, shapes, ['arrays that do not conform are rejected', 'arrays that conform are accepted']),
    ]
