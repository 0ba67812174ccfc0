"""first-order policy: the functions of core/solve/first_order.py and core/solve/statespace.py"""
from pv import eng, arr, load, model
from pv.arr import (Lf, Cat, Sel, sort, atoms, fact, inv_facts, prove_equal, prove_zero, matmul, concatenate, eye, tensor,
                    vsplit, Unsupported, mkcat, fit)
from pv.eng import Unit, zi, SI

MODS = ['pynare.utils.numpy', 'pynare.core.variables', 'pynare.core.solve.statespace', 'pynare.core.solve.first_order']
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy/scipy: dot, matmul, concatenate, block, eye, zeros, indexing and assignment follow their documented meaning '
    '(pv/arr.py, pv/npshim.py)',
    'linalg.inv and linalg.solve return the solution of a nonsingular system (a singular one raises)',
    'numpy.linalg.qr(mode="complete") returns Q orthogonal and R upper trapezoidal with X = Q R; matrix_rank is the rank',
    'ordqz returns the ordered generalised Schur form (the contract of partitioned_qz, discharged under C10 from the one of scipy)',
    'every variable of a model appears at the current date (a model without fails to build)',
]


def cont_all(J, d):
    return model.dated(J, d, 'cont', 'SBMF')


class Pencil:
    """rotated Jacobian A of a model with rows (static equations R1, dynamic ones R2), the pencil D, E made from it and its
    ordered Schur form: D = Q T Z, E = Q S Z"""

    def __init__(self, d):
        self.d = d
        R1, R2 = sort('R1', d.S.n), sort('R2', d.n - d.S.n)
        self.rows = Cat([Lf(R1), Lf(R2)])
        A = atoms('A', [self.rows, d.cols])
        # the rotation clears the static columns of the dynamic equations
        for k in list(A._b):
            if k == (('R2', ''), ('S', 'cont')):
                A._b[k] = {}
        self.A = A


def structural(A, d, rows2):
    """the pencil D w' = E w of w = (state, forward) that the dynamic equations imply"""
    A2 = vsplit(A, 0, rows2)
    B, M, F = Lf(d.B), Lf(d.M), Lf(d.F)
    nd = A2.axes[0]
    pad = arr.Tensor([nd, Lf(d.M)], {})
    D1 = concatenate([model.dated(A2, d, 'cont', 'B'), pad, model.dated(A2, d, 'lead', 'MF')], 1)
    E1 = concatenate([model.dated(A2, d, 'lag', 'BM'), model.dated(A2, d, 'cont', 'MF')], 1)
    IM = eye(Lf(d.M))
    z = lambda a, b: arr.Tensor([a, b], {})
    D2 = concatenate([z(M, B), IM, z(M, M), z(M, F)], 1)
    E2 = concatenate([z(M, B), z(M, M), IM, z(M, F)], 1)
    if arr.same(d.M.n, 0):
        return D1, -E1
    return concatenate([D1, D2], 0), concatenate([-E1, E2], 0)


def world(**k):
    return load.World(MODS, **k)


# ---------------------------------------------------------------- array_shingle
def shingle(c):
    w = world()
    d = model.Dims()
    g0, g1 = atoms('g0', [d.state, d.state]), atoms('g1', [d.fore, d.state])
    r = w['pynare.utils.numpy:array_shingle'](g0, g1, d.M.n)
    want = concatenate([g0, vsplit(g1, 0, {('F', '')})], 0)
    prove_equal('the rows of the first array, then those of the second after the overlap', r, want)


# ---------------------------------------------------------------- _compute_structural_state_space
def structural_space(c):
    w = world()
    d = model.Dims()
    im = model.indexes(w, d)
    EQ = sort('EQ', d.n)
    J = atoms('J', [Lf(EQ), d.cols])
    R1, R2 = sort('R1', d.S.n), sort('R2', d.n - d.S.n)
    rows = Cat([Lf(R1), Lf(R2)])
    got = {}

    def qr(x, mode='reduced'):
        if mode != 'complete':
            raise Unsupported('qr mode')
        x = tensor(x)
        Q = atoms('Q', [x.axes[0], rows], frozen=False)
        R = atoms('R', [rows, x.axes[1]], frozen=False)
        R._b = {k: p for k, p in R._b.items() if k[0] == ('R1', '')}
        got.update(Q=Q, R=R, x=x)
        return Q, R
    w['pynare.core.solve.statespace:np'].linalg._table['qr'] = qr
    try:
        md = model.Obj(indexes=im, jacobian=model.Obj(array=J))
        try:
            D, E, A = w['pynare.core.solve.statespace:_compute_structural_state_space'](md)
        except w['pynare.core.solve.statespace:ModelIdentificationError']:
            # raised exactly when the static columns are dependent
            rk = eng.CUR.env.get('ranks', [])
            ok = any((arr.alike(t, got['R']) or arr.alike(t, got['x'])) and c.entails(zi(r) != zi(d.S.n)) for t, r in rk)
            c.goal('rejects only dependent static columns', ok)
            return
    finally:
        w['pynare.core.solve.statespace:np'].linalg._table.pop('qr', None)
    if arr.same(d.S.n, 0):
        prove_equal('the rotated Jacobian is an orthogonal rotation of the Jacobian', A, J)
        rows2 = {('EQ', '')}
        Aref = A
    else:
        Q, R = got['Q'], got['R']
        QtQ = matmul(Q.T, Q)
        f_orth = fact(QtQ, eye(rows))
        QQt = matmul(Q, Q.T)
        f_orth2 = fact(QQt, eye(Lf(EQ)))
        f_qr = fact(matmul(Q, R), model.dated(J, d, 'cont', 'S'))
        prove_equal('the rotated Jacobian is an orthogonal rotation of the Jacobian', matmul(Q, A), J, by=[f_orth2 @ J])
        # A_S = Q' J_S = Q' Q R - Q' f_qr
        A_S = model.dated(tensor(A), d, 'cont', 'S')
        prove_equal('the rotation clears the static columns below the first rows', A_S, R, by=[f_orth @ R, -(Q.T @ f_qr)])
        ranks = eng.CUR.env.get('ranks', [])
        ok = any((arr.alike(t, R) or arr.alike(t, got['x'])) and c.entails(zi(r) == zi(d.S.n)) for t, r in ranks)
        c.goal('accepts only independent static columns', ok)
        rows2 = {('R2', '')}
        Aref = A
    wantD, wantE = structural(tensor(Aref), d, rows2)
    prove_equal('D maps the next (state, forward) vector as the dynamic equations do', D, wantD)
    prove_equal('E maps the current (state, forward) vector as the dynamic equations do', E, wantE)


# ---------------------------------------------------------------- solve_first_order
def setup(w, d):
    """the solver's inputs: facts about the state space, Blanchard-Kahn included"""
    c = eng.CUR
    P, U = sort('P', d.B.n + d.M.n), sort('U', d.M.n + d.F.n)
    pen = Pencil(d)
    A = pen.A
    D, E = structural(A, d, {('R2', '')})
    X = D.axes[1]                               # (B, M | M', F)
    n1 = d.B.n + d.M.n
    X1 = mkcat(arr.slice_parts(X, 0, n1) or [Lf(sort('Nil', 0))])
    X2 = mkcat(arr.slice_parts(X, n1, X.n) or [Lf(sort('Nil', 0))])
    PU = Cat([Lf(P), Lf(U)])
    Z = atoms('Z', [PU, X])
    T, S = atoms('T', [PU, PU]), atoms('Sg', [PU, PU])
    for t in (T, S):
        t._b = {k: p for k, p in t._b.items() if k != (('U', ''), ('P', ''))}
    Q = atoms('Qz', [D.axes[0], PU])
    sp, su = slice(None, P.n), slice(P.n, None)
    blk = lambda t, i, j: vv(t, i, j)

    def vv(t, i, j):
        r = t[sp if i == 1 else su, sp if j == 1 else su]
        r.base = None
        r.frozen = True
        return r

    def zz(i, j):
        r = Z[sp if i == 1 else su, slice(None, n1) if j == 1 else slice(n1, None)]
        r.base = None
        r.frozen = True
        return r
    ss = w['pynare.core.solve.statespace:ZArrays']
    state = model.Obj(jacobian=A, lhs=D, rhs=E, verify=lambda: None,
                      zarrays=ss(zz(1, 1), zz(1, 2), zz(2, 1), zz(2, 2)),
                      larrays=model.Obj(T_11=vv(T, 1, 1), T_12=vv(T, 1, 2), T_22=vv(T, 2, 2)),
                      rarrays=model.Obj(S_11=vv(S, 1, 1), S_12=vv(S, 1, 2), S_22=vv(S, 2, 2)))
    F = dict(qzD=fact(D, Q @ T @ Z), qzE=fact(E, Q @ S @ Z), orth=fact(Z @ Z.T, eye(PU)))
    return state, A, D, E, Z, T, S, Q, PU, F


def lemma_pencil(state, D, E, Z, T, S, Q, F, gym, gyp, sname='W'):
    """D W gym = E W with W = (1; gyp), from the Schur form; returns (W, vanishing array D W gym - E W)"""
    Z11, Z12, Z21, Z22 = state.zarrays
    T11, S11 = state.larrays.T_11, state.rarrays.S_11
    T12, S12, T22, S22 = state.larrays.T_12, state.rarrays.S_12, state.larrays.T_22, state.rarrays.S_22
    X22, r22, l22 = inv_facts(Z22)
    Ti, rT, lT = inv_facts(T11)
    Zt = Z11.T
    Xz, rz, lz = inv_facts(Zt)
    return Z11, Z12, Z21, Z22, T11, S11, T12, S12, T22, S22, X22, r22, l22, Ti, rT, Zt, Xz, rz


def pencil_argument(state, F, gym, gyp, D, E, Q, P_axis):
    (Z11, Z12, Z21, Z22, T11, S11, T12, S12, T22, S22, X22, r22, l22, Ti, rT, Zt, Xz, rz) = \
        lemma_pencil(state, D, E, None, None, None, Q, F, gym, gyp)
    W = concatenate([cast_rows(eye(gym.axes[1]), Z11.axes[1]), cast_rows(gyp, Z12.axes[1])], 0)
    W = fit_rows(W, D.axes[1])
    z2 = -(r22 @ Z21)                                    # Z21 + Z22 gyp
    # orthogonality, by blocks
    u = F['orth']
    n = Z11.axes[0].n
    u11, u21 = u[:n, :n], u[n:, :n]
    e = u11 + Z12 @ (-(X22 @ u21) + l22 @ Z12.T)          # P Z11' - 1
    P = Z11 + matmul(Z12, gyp)
    top = rT @ matmul(S11, Xz) + T11 @ (e @ matmul(Ti, matmul(S11, Xz))) + T12 @ (z2 @ gym) \
        - S11 @ (e @ Xz) + matmul(S11, P) @ rz_axis(rz) - S12 @ z2
    bot = T22 @ (z2 @ gym) - S22 @ z2
    return W, top, bot


def rz_axis(z):
    return z


def cast_rows(t, ax):
    return arr.fit_axis(tensor(t), 0, ax)


def fit_rows(t, ax):
    return arr.fit_axis(t, 0, ax)


def first_order(c):
    w = world()
    d = model.Dims()
    im = model.indexes(w, d)
    state, A, D, E, Z, T, S, Q, PU, F = setup(w, d)
    M = model.Obj(indexes=im, statespace=state)
    gy, gu = w['pynare.core.solve.first_order:solve_first_order'](M)
    gy, gu = tensor(gy), tensor(gu)
    nS = d.B.n + d.M.n
    c.goal('a single state or a single shock is a vector, anything else a matrix',
           (gy.ndim == 1) == arr.same(nS, 1) and (gu.ndim == 1) == arr.same(d.E.n, 1))
    gy, gu = fit(gy if gy.ndim == 2 else arr.expand(gy, 1), [d.dr, d.state]), fit(gu if gu.ndim == 2 else arr.expand(gu, 1), [d.dr, Lf(d.E)])
    st, fo = {('B', ''), ('M', '')}, {('M', ''), ('F', '')}
    rows = lambda t, ks: sub(t, ks)
    gym, gyF = sub(gy, 'BM', d), sub(gy, 'MF', d)
    # gyp as the Schur form gives it
    Z11, Z12, Z21, Z22 = state.zarrays
    X22, r22, l22 = inv_facts(Z22)
    gyp = arr.fit_axis(-matmul(X22, Z21), 1, d.state)
    (_, _, _, _, T11, S11, T12, S12, T22, S22, X22, r22, l22, Ti, rT, Zt, Xz, rz) = lemma_pencil(state, D, E, Z, T, S, Q, F, gym, gyp)
    gym_ref = arr.fit(matmul(matmul(Zt, Ti), matmul(S11, Xz)), [d.state, d.state])
    prove_equal('states: the response is the stable block of the Schur form in the model\'s co-ordinates', gym, gym_ref)
    prove_equal('forward variables: the stable-manifold condition', sub(gy, 'F', d), arr.fit_axis(sub2(gyp, 'F', d), 0, Lf(d.F)))
    # the pencil on the stable manifold
    W, top, bot = pencil_argument(state, F, gym_ref, gyp, D, E, Q, PU)
    V = concatenate_zero([top, bot])
    pen = (F['qzD'] @ matmul(W, gym_ref)) - (F['qzE'] @ W) + (Q @ fitz(V, [PU, d.state]))
    lhs = matmul(D, matmul(W, gym_ref)) - matmul(E, W)
    prove_zero('the stable manifold solves the pencil', lhs, by=[pen])
    # its rows: dynamic equations, then gym_M = gyp_M
    n2 = d.n - d.S.n
    dyn = pen[:n2] if not arr.same(d.M.n, 0) else pen
    J = lambda tag, ps: model.dated(A, d, tag, ps)
    gyF_p = arr.fit_axis(gyp, 0, d.fore)
    zero = arr.Tensor([d.fore, d.state], {})
    if arr.same(d.M.n, 0):
        link = fact(zero)                       # trivially: 0 = 0
    else:
        lk = pen[n2:]                           # gym_M - gyp_M
        link = lk.map(lambda t: pad_rows(t, d))
    G = matmul(J('lead', 'MF'), matmul(gyF, gym)) + matmul(J('cont', 'SBMF'), gy) + J('lag', 'BM')
    ns = d.S.n
    # rows R2
    G2 = G[ns:]
    A2 = A[ns:]
    J2 = lambda tag, ps: model.dated(A2, d, tag, ps)
    by2 = [dyn.map(lambda t: fit(t, G2.axes)), (J2('lead', 'MF') @ link) @ gym, J2('cont', 'MF') @ link_cont(link, d)]
    prove_zero('first order condition in the states, dynamic equations', G2, by=by2)
    # rows R1
    if not arr.same(ns, 0):
        A1 = A[:ns]
        J1 = lambda tag, ps: model.dated(A1, d, tag, ps)
        x, r, l = inv_facts(J1('cont', 'S'))
        rest = matmul(J1('lead', 'MF'), matmul(gyF_p, gym)) + matmul(J1('cont', 'BMF'), sub(gy, 'BMF', d)) + J1('lag', 'BM')
        G1 = G[:ns]
        prove_zero('first order condition in the states, static equations', G1, by=[-(r @ rest), (J1('lead', 'MF') @ link) @ gym])
    else:
        c.goal('first order condition in the states, static equations', True, detail='there are none')
    # shocks
    fu = A[:, Lfsel(d)]
    U = concatenate([J('cont', 'S'), matmul(J('lead', 'MF'), gyF_p) + J('cont', 'BM'), J('cont', 'F')], 1)
    U = fit(U, [A.axes[0], d.dr])
    x, r, l = inv_facts(U)
    Gu = matmul(J('lead', 'MF'), matmul(gyF, sub(gu, 'BM', d))) + matmul(J('cont', 'SBMF'), gu) + fu
    prove_zero('first order condition in the shocks', Gu, by=[-(r @ fu), (J('lead', 'MF') @ link) @ sub(gu, 'BM', d)])


def Lfsel(d):
    return Sel(Lf(d.E), d.cols, {('E', ''): ('E', 'exo')} if not arr.same(d.E.n, 0) else {})


def sub(t, ks, d):
    """rows of a (dr, ...) array"""
    ax = Cat([Lf(sort(k)) for k in ks])
    ax = mkcat(ax._parts)
    s = Sel(ax, t.axes[0], {(k, ''): (k, '') for k in ks if (k, '') in ax.comps()})
    r = arr.getitem(t, s)
    return r


def sub2(gyp, k, d):
    """rows of an array over the forward half of the pencil"""
    t = arr.fit_axis(gyp, 0, d.fore)
    return sub(t, k, d)


def pad_rows(t, d):
    """rows (M) -> rows (M, F) with zeros"""
    t = fit(t, [Lf(d.M), d.state])
    return fit(concatenate([t, arr.Tensor([Lf(d.F), d.state], {})], 0), [d.fore, d.state])


def link_cont(link, d):
    return link


def concatenate_zero(zs):
    return arr.Zero(concatenate([z.t for z in zs], 0), True)


def fitz(z, axes):
    return z.map(lambda t: fit(t, axes))


# ---------------------------------------------------------------- composition
def rotation(c):
    """the conditions hold for the Jacobian when they hold for its rotation"""
    d = model.Dims()
    pen = Pencil(d)
    A = pen.A
    EQ = sort('EQ', d.n)
    Q = atoms('Q', [Lf(EQ), pen.rows])
    J = matmul(Q, A)
    gy, gu = atoms('gy', [d.dr, d.state]), atoms('gu', [d.dr, Lf(d.E)])

    def G(J):
        f = lambda tag, ps: model.dated(J, d, tag, ps)
        x = matmul(f('lead', 'MF'), matmul(sub(gy, 'MF', d), sub(gy, 'BM', d))) + matmul(f('cont', 'SBMF'), gy) + f('lag', 'BM')
        u = matmul(f('lead', 'MF'), matmul(sub(gy, 'MF', d), sub(gu, 'BM', d))) + matmul(f('cont', 'SBMF'), gu) + J[:, Lfsel(d)]
        return x, u
    (x, u), (xa, ua) = G(J), G(A)
    prove_zero('f_{+1} g_y g_y + f_0 g_y + f_{-1} = 0 on the Jacobian itself', x, by=[Q @ fact(xa)])
    prove_zero('f_{+1} g_y g_u + f_0 g_u + f_u = 0 on the Jacobian itself', u, by=[Q @ fact(ua)])


def units():
    return [
        Unit('pynare.utils.numpy.array_shingle', shingle, ['the rows of the first array, then those of the second after the overlap']),
        Unit('pynare.core.solve.statespace._compute_structural_state_space', structural_space,
             ['the rotated Jacobian is an orthogonal rotation of the Jacobian',
              'the rotation clears the static columns below the first rows',
              'D maps the next (state, forward) vector as the dynamic equations do',
              'E maps the current (state, forward) vector as the dynamic equations do']),
        Unit('pynare.core.solve.first_order.solve_first_order', first_order,
             ['first order condition in the states, dynamic equations', 'first order condition in the states, static equations',
              'first order condition in the shocks']),
        Unit('composition of the contracts', rotation,
             ['f_{+1} g_y g_y + f_0 g_y + f_{-1} = 0 on the Jacobian itself', 'f_{+1} g_y g_u + f_0 g_u + f_u = 0 on the Jacobian itself']),
    ]
