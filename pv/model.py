"""A model of arbitrary size: s purely static, b purely backward, m mixed and f purely forward variables (any of them may
be missing) in any declaration order, e shocks, an arbitrary incidence-ordered Jacobian and Hessian."""
from . import eng, arr, load
from .arr import Lf, Cat, Prod, Sel, Llx, sort, atoms, Unsupported
from .eng import SI, zi


class Obj:
    """an attribute bag; a missing attribute is not interpretable, not an error of the code"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'attribute {a} is not under contract')


class Dims:
    def __init__(self):
        S, B, M, F, E = (sort(x) for x in 'SBMFE')
        self.S, self.B, self.M, self.F, self.E = S, B, M, F, E
        L = lambda s, t='': Lf(s, t)
        self.dr = Cat([L(S), L(B), L(M), L(F)])
        self.dc = Cat([L(S), L(B), L(M), L(F)], order='dc')
        self.state = Cat([L(B), L(M)])
        self.fore = Cat([L(M), L(F)])
        self.exo = L(E)
        lag = Cat([L(B, 'lag'), L(M, 'lag')], order='dc')
        cont = Cat([L(S, 'cont'), L(B, 'cont'), L(M, 'cont'), L(F, 'cont')], order='dc')
        lead = Cat([L(M, 'lead'), L(F, 'lead')], order='dc')
        self.cols = Cat([lag, cont, lead, L(E, 'exo')])
        self.n = self.dr.n
        self.n_inc = lag.n + cont.n + lead.n
        c = eng.CUR
        c.assume(zi(self.n) >= 1)

    def llx(self):
        d = self.dc
        row = lambda tag, ss: Sel(d, self.cols, {(s, ''): (s, tag) for s in ss if (s, '') in d.comps()}, True)
        return Llx([row('lag', 'BM'), row('cont', 'SBMF'), row('lead', 'MF')])


def indexes(w, d):
    """the repository's own index manager on the incidence array of the model"""
    cls = w['pynare.core.variables:VariableIndexManager']
    im = object.__new__(cls)
    llx = d.llx()
    im.__dict__.update(n_endog_inc=d.n_inc, n_exog=d.E.n, llx=llx, stoch=None, lead_lags=None, var_cols=None)
    typer = w['pynare.core.variables:VariableTyper']
    im.__dict__['dr_typer'] = typer(llx[:, im.dr_order])
    im.__dict__['dc_typer'] = typer(llx)
    return im


def jac_col(J, *keys):
    """the columns of the Jacobian at one date, as an array over the given parts"""
    raise NotImplementedError


def dated(J, d, tag, parts):
    """columns of J (last axis over d.cols) dated `tag` of the listed sets"""
    ax = Cat([Lf(sort(p), '') for p in parts])
    s = Sel(ax, d.cols, {(p, ''): (p, tag) for p in parts if (p, '') in ax.comps()})
    return J[:, s]
