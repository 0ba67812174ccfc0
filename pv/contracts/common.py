"""the model that the callers of a solution see, and pieces shared by the loop contracts"""
from pv import eng, arr, load, model
from pv.arr import Lf, Cat, Prod, Tensor, Lazy, sort, atoms, matmul, kron, tensor, fit, Unsupported
from pv.eng import zi, SI, SB

MODS = ['pynare.utils.numpy', 'pynare.core.variables', 'pynare.core.solve.base', 'pynare.core.solve.statespace',
        'pynare.core.solve.first_order', 'pynare.core.solve.second_order']


class Poison:
    """a variable that the loop carries and that no invariant speaks of"""

    def __getattr__(self, a):
        raise Unsupported('a value carried from one period to the next that the loop invariant does not describe')

    def _no(self, *a):
        raise Unsupported('a value carried from one period to the next that the loop invariant does not describe')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __getitem__ = __setitem__ = __call__ = __matmul__ = __bool__ = \
        __len__ = __iter__ = __rmatmul__ = __neg__ = __truediv__ = __rtruediv__ = _no


class Stub:
    """the parts of a model that simulation uses"""

    def __init__(self, c, w, d, im):
        self.__dict__.update(_c=c, _w=w, _d=d, indexes=im, calls=[], updates=0)
        self.name = 'm'
        n = lambda s: Names(s)
        self.endog, self.stoch = n(d.dc), n(Lf(d.E))
        self.ssv = atoms('ss', [d.dc])
        self.ss = model.Obj(values=self.ssv)
        self.gy, self.gu = atoms('gy', [d.dr, d.state]), atoms('gu', [d.dr, Lf(d.E)])
        X, U = d.state, Lf(d.E)
        self.xx, self.xu, self.uu = (atoms(n, [d.dr, Prod(*p)]) for n, p in (('ghxx', (X, X)), ('ghxu', (X, U)), ('ghuu', (U, U))))
        self.d2 = atoms('del2', [d.dr])
        self.sigma = atoms('sigma', [U, U], 'matrix')

    def make(self, order):
        d, w = self._d, self._w
        one = lambda t, n: t[:, 0] if bool(SB(zi(n) == 1)) else t
        low = object.__new__(w['pynare.core.solve.first_order:FirstOrderSolution'])
        low.__dict__.update(model=self, gy=one(self.gy, d.state.n), gu=one(self.gu, d.E.n))
        if order == 1:
            return low
        s = object.__new__(w['pynare.core.solve.second_order:SecondOrderSolution'])
        s.__dict__.update(model=self, ghxx=self.xx, ghxu=self.xu, ghuu=self.uu, del2=self.d2, lower_solution=low)
        return s

    def __getattr__(self, a):
        if a == '_solution':
            raise AttributeError(a)
        raise Unsupported(f'model.{a} is not under contract')

    def update(self):
        self.updates += 1

    def solve(self, order=None, *a, **k):
        if a or k:
            raise Unsupported('arguments of solve')
        self.calls.append(order)
        self._solution = self.make(order or 2)
        return self._solution

    @property
    def solution(self):
        s = self.__dict__.get('_solution')
        return self.solve() if s is None else s

    @property
    def solution_order(self):
        s = self.__dict__.get('_solution')
        return None if s is None else s.order

    @property
    def first_order_solution(self):
        s = self.solution
        return s if s.order == 1 else s.lower_solution

    def policy(self, order, level, e):
        """the next period in levels, from a row of levels and a row of innovations"""
        d = self._d
        dev = fit(tensor(level), [d.dc]) - self.ssv
        x = Tensor([d.state], {(k,): dev.get((k,)) for k in d.state.comps()})
        y = matmul(self.gy, x) + matmul(self.gu, e)
        if order == 2:
            y = y + self.d2 + matmul(self.xx, kron(x, x)) + matmul(self.xu, kron(x, e)) + matmul(self.uu, kron(e, e))
        return self.ssv + Tensor([d.dc], dict(y.blocks))


class Names:
    """the variables of one kind: their number and labels"""

    def __init__(self, ax):
        self.ax = ax
        self.names = ('names', ax.n)

    def __pv_len__(self):
        return self.ax.n

    def __getattr__(self, a):
        raise Unsupported(f'variables.{a} is not under contract')


def setup(c, mods=MODS, contracts=None, whiles=(), glob=None):
    d = model.Dims()
    c.assume(zi(d.state.n) >= 1)
    c.assume(zi(d.E.n) >= 1)
    hold = {}
    w = load.World(mods, contracts=contracts, loops={'*': lambda *a: hold['h'](*a)}, whiles=whiles, glob=glob)
    im = model.indexes(w, d)
    m = Stub(c, w, d, im)
    return w, d, m, hold
