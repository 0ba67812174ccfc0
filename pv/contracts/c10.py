"""Blanchard-Kahn conditions: the ordered decomposition of utils/numpy.py and the verification of core/solve/statespace.py"""
from pv import eng, arr, load, model, vec
from pv.arr import Lf, Cat, Tensor, sort, atoms, concatenate, tensor, fit, Unsupported, alike
from pv.eng import Unit, zi, SI, SB
from pv.vec import Vec, Ext, term, always, ground
z3 = eng.z3

MODS = ['pynare.utils.numpy', 'pynare.core.solve.base', 'pynare.core.solve.statespace', 'pynare.core.solve.first_order',
        'pynare.core.solve.second_order']
ASSUMES = [
    'real arithmetic in place of floating point; no eigenvalue has modulus exactly one and the pencil is regular (no 0/0)',
    'scipy.linalg.ordqz(X, Y, sort="iuc") returns X = Q S Z\', Y = Q T Z\' with Q, Z orthogonal, S quasi-triangular and T triangular, '
    'alpha/beta the generalised eigenvalues in the order of the diagonal blocks, those inside the unit circle first; '
    'a quotient by a zero beta is infinite',
    'matrix_rank is the rank; argmax of truth values is the first true position, or 0',
    'elementwise modulus, comparison and logical operations follow their documented meaning (pv/vec.py)',
]


class Eigen:
    """the generalised eigenvalues of the pencil: moduli m(i), infinite or not, in an order of which nothing is known"""

    def __init__(self, name, n):
        R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
        self.n = n
        self.m, self.im, self.re = (z3.Function(f'{x}_{name}', I, R) for x in ('mod', 'rmod', 're'))
        self.inf, self.zero = (z3.Function(f'{x}_{name}', I, B) for x in ('inf', 'zero'))

        def base(i):
            m, im, re = self.m(i), self.im(i), self.re(i)
            return z3.And(m >= 0, m != 1, re <= m, -re <= m, z3.Not(z3.And(self.inf(i), self.zero(i))), self.zero(i) == z3.And(z3.Not(self.inf(i)), m == 0),
                          im >= 0, im != 1, (m < 1) == (im > 1))
        always(0, n, base)

    def explosive(self, i):
        return z3.Or(self.inf(i), self.m(i) > 1)

    def vector(self):
        return Vec(self.n, 'c', lambda i: Ext(self.m(i), self.inf(i), self.re(i)))

    def inverse(self):
        return Vec(self.n, 'c', lambda i: Ext(self.im(i), self.zero(i), self.re(i)))

    def ordered(self, p):
        """the first p are stable, the others explosive"""
        always(0, p, lambda i: z3.Not(self.explosive(i)))
        always(p, self.n, self.explosive)
        ground()['breaks'].append(p)
        term(p)
        term(p - 1)


class Half(Vec):
    """alpha or beta"""

    def __init__(self, n, e, num):
        Vec.__init__(self, n, 'half', None)
        self.e, self.num = e, num

    def __truediv__(self, o):
        if isinstance(o, Half) and o.e is self.e and self.num != o.num:
            return self.e.vector() if self.num else self.e.inverse()
        raise Unsupported('quotient')


# ---------------------------------------------------------------- find_first
def first(c):
    """the position of the first true entry, or -1"""
    n = eng.fresh_int('n', 1)
    f = z3.Function('b', z3.IntSort(), z3.BoolSort())
    w = load.World(MODS)
    r = w['pynare.utils.numpy:find_first'](Vec(n, 'b', lambda i: f(i)))
    i = z3.Int('i')
    c.assume(z3.And(i >= 0, i < zi(n)))
    term(i)
    term(r)
    name = 'the first true position, -1 if there is none'
    c.prove(name, z3.And(zi(r) >= -1, zi(r) < zi(n), z3.Implies(zi(r) == -1, z3.Not(f(i))), z3.Implies(zi(r) >= 0, f(zi(r))),
                         z3.Implies(i < zi(r), z3.Not(f(i)))))


# ---------------------------------------------------------------- partitioned_qz
def partition(c):
    kind = c.choose(2)
    n = eng.fresh_int('n', 0 if kind else 1)
    N = sort('N', n)
    if kind:
        c.assume(zi(n) == 0)
    p = eng.fresh_int('p', 0)
    c.assume(zi(p) <= zi(n))
    P, U = sort('P', p), sort('U', n - p)
    A, B = atoms('A', [Lf(N), Lf(N)]), atoms('B', [Lf(N), Lf(N)])
    PU = Cat([Lf(P), Lf(U)])
    got = {}

    def ordqz(X, Y, sort='lhp', output='real', **k):
        if k or output != 'real' or sort not in ('iuc', 'ouc') or got:
            raise Unsupported('options of ordqz')
        X, Y = tensor(X), tensor(Y)
        if alike(X, B) and alike(Y, A):
            swap = False
        elif alike(X, A) and alike(Y, B):
            swap = True
        else:
            raise Unsupported('decomposition of other matrices')
        e = Eigen('l', n)
        inside_first = (sort == 'iuc') != swap
        if inside_first:
            e.ordered(p)
        else:
            always(0, p, e.explosive)
            always(p, n, lambda i: z3.Not(e.explosive(i)))
            ground()['breaks'].append(p)
            term(p)
        mk = lambda s: atoms(s, [PU, PU], frozen=False)
        S, T, Z = mk('S'), mk('T'), atoms('Z', [Lf(N), PU], frozen=False)
        for t in (S, T):
            t._b = {k: q for k, q in t._b.items() if k != (('U', ''), ('P', ''))}
        Q = atoms('Q', [Lf(N), PU], frozen=False)
        got.update(e=e, X=S, Y=T, Z=Z, S=T if swap else S, T=S if swap else T)
        return S, T, Half(n, e, not swap), Half(n, e, swap), Q, Z
    c.env['override'] = {'ordqz': ordqz}
    w = load.World(MODS)
    out = w['pynare.utils.numpy:partitioned_qz'](A, B)
    if not got:
        c.prove('the decomposition is left out only when there are no variables', zi(n) == 0)
        c.goal('an empty pencil has no eigenvalues', len(out) == 11 and all(x.size == 0 for x in out))
        return
    eigs, Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22 = out
    e = got['e']
    i = z3.Int('i')
    c.assume(z3.And(i >= 0, i < zi(n)))
    term(i)
    ev = eigs.at(i)
    c.prove('the eigenvalues are those of A x = s B x inverted to growth rates, in order',
            z3.And(ev.mod == e.m(i), ev.inf == e.inf(i)) if eigs.kind == 'c' else False)
    k = Z11.shape[0]
    c.prove('every stable eigenvalue comes before the split', z3.Implies(i < zi(k), z3.Not(e.explosive(i))))
    c.prove('every explosive eigenvalue comes after the split', z3.Implies(i >= zi(k), e.explosive(i)))
    name = 'the blocks are those of the decomposition'
    a, b = slice(None, k), slice(k, None)
    for x, y in ((Z11, got['Z'].T[a, a]), (Z12, got['Z'].T[a, b]), (Z21, got['Z'].T[b, a]), (Z22, got['Z'].T[b, b]),
                 (T11, got['T'][a, a]), (T12, got['T'][a, b]), (T22, got['T'][b, b]),
                 (S11, got['S'][a, a]), (S12, got['S'][a, b]), (S22, got['S'][b, b])):
        ok = x.ndim == 2 and all(arr.same(q.n, r.n) for q, r in zip(tensor(x).axes, y.axes))
        c.goal(name, ok, detail='sizes')
        if ok:
            arr.prove_equal(name, x, y)


# ---------------------------------------------------------------- the checks
def space(c):
    """the state space of a model: what it holds is the decomposition of its structural matrices; verify() raises exactly when
    the conditions fail"""
    n, p, nf, k = (eng.fresh_int(x, 0) for x in ('n', 'p', 'nf', 'k'))
    c.assume(zi(p) <= zi(n))
    r = sort('r', k)
    e = Eigen('l', n)
    e.ordered(p)
    ev = e.vector()
    names = ('Z11', 'Z12', 'Z21', 'Z22', 'T11', 'T12', 'T22', 'S11', 'S12', 'S22')
    tag = {x: model.Obj(tag=x) for x in names}
    tag['Z22'] = atoms('Z22', [Lf(r), Lf(r)])
    D, E, A = (model.Obj(tag=x) for x in 'DEA')
    md = model.Obj(indexes=model.Obj(n_forward=nf), name='m')
    seen = []
    w = load.World(MODS, contracts={
        'pynare.core.solve.statespace:_compute_structural_state_space': lambda m: (D, E, A) if m is md else 1 / 0,
        'pynare.utils.numpy:partitioned_qz': lambda x, y: seen.append((x, y)) or (ev,) + tuple(tag[x] for x in names)})
    s = w['pynare.core.solve.statespace:StateSpace'](md)
    c.goal('the pencil that is decomposed is the structural one', seen == [(D, E)], backend='evaluation')
    z, l, rr = s.zarrays, s.larrays, s.rarrays
    c.goal('the matrices are kept under their names', s.jacobian is A and s.lhs is D and s.rhs is E and s.model is md
           and all(getattr(z, f'Z_{q}') is tag[f'Z{q}'] for q in ('11', '12', '21', '22'))
           and all(getattr(l, f'T_{q}') is tag[f'T{q}'] and getattr(rr, f'S_{q}') is tag[f'S{q}'] for q in ('11', '12', '22')),
           backend='evaluation')
    c.goal('the conditions count as unchecked at first', not s.is_verified, backend='evaluation')
    i = z3.Int('i')
    c.assume(z3.And(i >= 0, i < zi(n)))
    term(i)
    x = s.eigen.at(i) if isinstance(s.eigen, Vec) and s.eigen.kind == 'c' else None
    if x is None:
        raise Unsupported('the eigenvalues are kept otherwise')
    c.prove('the eigenvalues are kept', z3.And(x.mod == e.m(i), x.inf == e.inf(i)))
    ctr = zi(n) - zi(p)
    err = w['pynare.core.solve.statespace:ModelIdentificationError']
    for turn in (0, 1):
        try:
            s.verify()
            passed = True
        except err:
            passed = False
        ranks = [q for t, q in c.env.get('ranks', []) if alike(t, tag['Z22'])]
        name = 'the check passes exactly when as many eigenvalues are explosive as there are forward-looking variables and the rank condition holds'
        if passed:
            c.prove(name, z3.And(ctr == zi(nf), zi(ranks[0]) == zi(k)) if ranks else z3.And(ctr == zi(nf), zi(k) == 0))
        else:
            c.prove(name, z3.Or(ctr != zi(nf), zi(ranks[0]) != zi(k)) if ranks else ctr != zi(nf))


class Stop(Exception):
    pass


def refuses(c):
    """a state space that fails the conditions yields no solution"""
    order = 1 + c.choose(2)
    done = []

    def verify():
        raise Stop()
    st = model.Obj(verify=verify, jacobian=model.Obj(), lhs=model.Obj(), rhs=model.Obj())
    md = model.Obj(indexes=model.Obj(), statespace=st, name='m')
    md.solve = lambda *a, **k: (_ for _ in ()).throw(Stop())
    md.solution_order = None
    w = load.World(MODS)
    name = 'no solution is returned when the check fails'
    cls = w['pynare.core.solve.first_order:FirstOrderSolution' if order == 1 else 'pynare.core.solve.second_order:SecondOrderSolution']
    s = None
    try:
        s = cls(md)
        s.solve()
        c.goal(name, False, backend='evaluation')
    except Stop:
        c.goal(name, s is None or not any(k in s.__dict__ for k in ('gy', 'gu', 'ghxx')), backend='evaluation')


def units():
    n = 'pynare.utils.numpy.'
    s = 'pynare.core.solve.statespace.StateSpace'
    return [
        Unit(n + 'find_first', first, ['the first true position, -1 if there is none']),
        Unit(n + 'partitioned_qz', partition,
             ['the eigenvalues are those of A x = s B x inverted to growth rates, in order', 'every stable eigenvalue comes before the split',
              'every explosive eigenvalue comes after the split', 'the blocks are those of the decomposition',
              'the decomposition is left out only when there are no variables']),
        Unit(s + '.__init__, verify, _run_verification', space,
             ['the pencil that is decomposed is the structural one', 'the matrices are kept under their names', 'the eigenvalues are kept',
              'the check passes exactly when as many eigenvalues are explosive as there are forward-looking variables and the rank condition holds']),
        Unit('pynare.core.solve.first_order.FirstOrderSolution.solve, second_order.SecondOrderSolution.solve', refuses,
             ['no solution is returned when the check fails']),
    ]
