"""second-order policy: core/solve/second_order.py, the Kronecker product helper of utils/numpy.py"""
from pv import eng, arr, load, model
from pv.arr import (Lf, Cat, Prod, Sel, Tensor, sort, atoms, fact, prove_equal, prove_zero, matmul, kron, eye, tensor, fit, inv_facts,
                    Unsupported)
from pv.eng import Unit, zi, SI

MODS = ['pynare.utils.numpy', 'pynare.core.variables', 'pynare.core.solve.base', 'pynare.core.solve.second_order']
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy/scipy: dot, matmul, kron, outer, concatenate, identity, zeros, reshape, indexing and assignment follow their '
    'documented meaning (pv/arr.py, pv/npshim.py)',
    'linalg.solve returns the solution of a nonsingular system (a singular one raises)',
    'generalized_sylvester returns X with A X B\' + C X D\' = E (its contract is discharged under C12)',
    'the first-order arrays, the Jacobian, the Hessian and sigma are arbitrary arrays of the model\'s sizes; sigma is symmetric '
    '(C08); every variable appears at the current date',
]


def sylvester(A, B, C, D, E):
    """contract of generalized_sylvester: the solution, over the axes of E"""
    E = tensor(E)
    for x, ax in ((A, E.axes[0]), (C, E.axes[0]), (B, E.axes[1]), (D, E.axes[1])):
        if isinstance(x, arr.Lazy):
            x.refine(0, ax)
            x.refine(1, ax)
    A, B, C, D = (tensor(x) for x in (A, B, C, D))
    X = atoms('X', [A.axes[1], B.axes[1]], frozen=False)
    f = fact(matmul(matmul(A, X), B.T) + matmul(matmul(C, X), D.T), E)
    eng.CUR.env['sylvester'] = (X, f)
    return X


def zrows(d, gy, gu):
    """derivative of (lags, current values, leads, shocks), in the order of the Jacobian's columns, in the states and shocks"""
    from pv.contracts.c09 import sub
    gs, us = sub(gy, 'BM', d), sub(gu, 'BM', d)
    x, u = Tensor([d.cols, d.state], {}), Tensor([d.cols, Lf(d.E)], {})
    ident = eye(d.state)
    gf, uf = matmul(sub(gy, 'MF', d), gs), matmul(sub(gy, 'MF', d), us)
    eE = eye(Lf(d.E))
    for key in d.cols.comps():
        s, tag = key
        for j in d.state.comps():
            if tag == 'lag':
                v = ident.get(((s, ''), j))
            elif tag == 'cont':
                v = gy.get(((s, ''), j))
            elif tag == 'lead':
                v = gf.get(((s, ''), j))
            else:
                v = {}
            if v:
                x._b[(key, j)] = v
        for j in Lf(d.E).comps():
            if tag == 'cont':
                v = gu.get(((s, ''), j))
            elif tag == 'lead':
                v = uf.get(((s, ''), j))
            elif tag == 'exo':
                v = eE.get((('E', ''), j))
            else:
                v = {}
            if v:
                u._b[(key, j)] = v
    return x, u


def second_order(c):
    from pv.contracts.c09 import sub
    w = load.World(MODS, contracts={'pynare.utils.numpy:generalized_sylvester': sylvester})
    d = model.Dims()
    im = model.indexes(w, d)
    EQ = sort('EQ', d.n)
    c.env['axes'] = [d.state, d.dr, Lf(d.E)]
    J = atoms('J', [Lf(EQ), d.cols])
    H = atoms('H', [Lf(EQ), Prod(d.cols, d.cols)])
    gy, gu = atoms('gy', [d.dr, d.state]), atoms('gu', [d.dr, Lf(d.E)])
    sigma = atoms('sigma', [Lf(d.E), Lf(d.E)], 'matrix')
    nS = d.state.n
    # the first-order solution drops the axis of a single state or a single shock
    one = lambda t, n: t[:, 0] if bool(eng.SB(zi(n) == 1)) else t
    low = model.Obj(gy=one(gy, nS), gu=one(gu, d.E.n))
    md = model.Obj(indexes=im, jacobian=model.Obj(array=J), hessian=model.Obj(array=H), sigma=sigma, name='m', solve=lambda order=1: low)
    sol = w['pynare.core.solve.second_order:SecondOrderSolution'](md).solve()
    X, U = d.state, Lf(d.E)
    a = lambda t, axes: fit2(t, axes)
    gxx = a(sol.ghxx, [d.dr, Prod(X, X)]).scale(2)
    gxu = a(sol.ghxu, [d.dr, Prod(X, U)])
    guu = a(sol.ghuu, [d.dr, Prod(U, U)]).scale(2)
    g2 = a(sol.del2, [d.dr]).scale(2)
    zx, zu = zrows(d, gy, gu)
    f0 = lambda t: matmul(model.dated(J, d, 'cont', 'SBMF'), t)
    fp = lambda t: matmul(model.dated(J, d, 'lead', 'MF'), t)
    gyF, gs, us = sub(gy, 'MF', d), sub(gy, 'BM', d), sub(gu, 'BM', d)
    S, Fw = (lambda t: sub(t, 'BM', d)), (lambda t: sub(t, 'MF', d))
    lhs = matmul(J_cur(J, d, gyF), eye_dr(d))
    Xs, fs = c.env['sylvester']
    by = []
    cxx = matmul(H, kron(zx, zx)) + f0(gxx) + fp(matmul(gyF, S(gxx)) + matmul(Fw(gxx), kron(gs, gs)))
    prove_zero('second-order condition in the states', cxx, by=[fs.map(lambda t: fit2(t, cxx.axes))])
    A = lhs
    inv, r, l = inv_facts(A)
    # A gxu = rhs, the system that the remaining arrays solve
    rxu = matmul(H, kron(zx, zu)) + fp(matmul(Fw(gxx), kron(gs, us)))
    cxu = rxu + f0(gxu) + fp(matmul(gyF, S(gxu)))
    prove_zero('second-order condition in states and shocks', cxu, by=[-(r @ rxu)])
    ruu = matmul(H, kron(zu, zu)) + fp(matmul(Fw(gxx), kron(us, us)))
    cuu = ruu + f0(guu) + fp(matmul(gyF, S(guu)))
    prove_zero('second-order condition in the shocks', cuu, by=[-(r @ ruu)])
    # the constant: expected curvature
    Hpp = hpp(H, d)
    uF = Fw(gu)
    vs = merged(sigma)
    curv = matmul(fp(Fw(guu)) + matmul(Hpp, kron(uF, uF)), vs)
    c2 = f0(g2) + fp(matmul(gyF, S(g2)) + Fw(g2)) + curv
    A2 = J_const(J, d, gyF)
    inv2, r2, l2 = inv_facts(A2)
    prove_zero('second-order condition in the scale of the shocks', c2, by=[-(r2 @ curv)])


def fit2(t, axes):
    t = tensor(t)
    if t.ndim < len(axes) :
        t = arr.expand(t, t.ndim)
    return fit(t, axes)


def eye_dr(d):
    return eye(d.dr)


def embed(t, d, rows):
    """columns over (B, M) or (M, F) placed among all of them"""
    full = Tensor([t.axes[0], d.dr], {})
    for (r, k), p in t.blocks.items():
        full._b[(r, k)] = p
    return full


def J_cur(J, d, gyF):
    """f_0 + f_+ g_y on the states"""
    return model.dated(J, d, 'cont', 'SBMF') + embed(matmul(model.dated(J, d, 'lead', 'MF'), gyF), d, 'BM')


def J_const(J, d, gyF):
    return J_cur(J, d, gyF) + embed(model.dated(J, d, 'lead', 'MF'), d, 'MF')


def hpp(H, d):
    ax = d.fore
    out = Tensor([H.axes[0], Prod(ax, ax)], {})
    lead = {(p, ''): (p, 'lead') for p in 'MF'}
    for k in H.axes[0].comps():
        for i in ax.comps():
            for j in ax.comps():
                out._b[(k, ('x', i, j))] = H.get((k, ('x', lead[i], lead[j])))
    return out


def merged(s):
    return arr.merge(s, 0)


def kronecker(c):
    """A (B x C), and A (B x B) without C"""
    w = load.World(MODS)
    f = w['pynare.utils.numpy:matrix_kronecker_product']
    a, b, e, g, h = (sort(x) for x in 'abcde')
    B, C = atoms('B', [Lf(a), Lf(b)]), atoms('C', [Lf(e), Lf(g)])
    A = atoms('A', [Lf(h), Prod(Lf(a), Lf(e))])
    prove_equal('A (B x C)', f(A, B, C), matmul(A, kron(B, C)))
    A2 = atoms('A2', [Lf(h), Prod(Lf(a), Lf(a))])
    prove_equal('A (B x B)', f(A2, B), matmul(A2, kron(B, B)))


def units():
    return [
        Unit('pynare.core.solve.second_order.SecondOrderSolution.solve', second_order,
             ['second-order condition in the states', 'second-order condition in states and shocks',
              'second-order condition in the shocks', 'second-order condition in the scale of the shocks']),
        Unit('pynare.utils.numpy.matrix_kronecker_product', kronecker, ['A (B x C)', 'A (B x B)']),
    ]
