"""impulse responses: impulse.py, a caller of simulate (its contract is discharged under C13)"""
from pv import eng, arr, load, model
from pv.arr import Lf, Tensor, sort, atoms, prove_equal, tensor, fit, Unsupported, const
from pv.eng import Unit, zi, SI, SB
from pv.contracts import common, vararr

MODS = common.MODS + ['pynare.simul', 'pynare.impulse']
ASSUMES = [
    'real arithmetic in place of floating point',
    'numpy: zeros, indexing and assignment follow their documented meaning (pv/arr.py, pv/npshim.py)',
    'simulate returns a path with one row per row of shocks, of the levels of the endogenous variables, starting at the steady '
    'state when no initial point is given (its contract is discharged under C13)',
    *vararr.ASSUMES,
]


class UnknownName(Exception):
    pass


class Stoch(common.Names):
    """names of the shocks: an arbitrary declared one, or one that is not declared"""

    def get_loc(self, name):
        if name == 'declared':
            return self.at
        raise UnknownName(name)

    def index(self, name):
        return self.get_loc(name)

    def __contains__(self, name):
        return name == 'declared'


def impulse(c):
    calls = []
    T = sort('T', lo=1)

    def simulate(model, shocks=None, periods=200, init=None, order=0):
        r = common.model.Obj(paths=atoms('path', [Lf(T), d.dc]), shocks=None, periods=T.n)
        calls.append((model, shocks, periods, init, order))
        return r
    w, d, m, hold = common.setup(c, MODS, contracts={'pynare.simul:simulate': simulate})
    c.env['axes'] = [Lf(T), d.dc, Lf(d.E)]
    m.stoch = Stoch(Lf(d.E))
    pos = eng.fresh_int('pos', 0)
    c.assume(zi(pos) < zi(d.E.n))
    m.stoch.at = pos
    who = c.choose(3)
    size = arr.atoms('size', [])
    kw = dict(periods=T.n, size=size)
    if who == 0:
        kw['exog'], at = 'declared', pos
    elif who == 1:
        at = 0
    else:
        kw['exog'] = 'not declared'
    try:
        r = w['pynare.impulse:impulse_response'](m, **kw)
    except (UnknownName, KeyError, ValueError, w['pynare.simul:np'].linalg._real.LinAlgError) as ex:
        if isinstance(ex, UnknownName) or who == 2:
            c.goal('an undeclared shock is rejected', who == 2)
            return
        raise
    c.goal('an undeclared shock is rejected', who != 2)
    if who == 2:
        return
    if len(calls) != 1:
        raise Unsupported('not one simulation')
    _, shocks, periods, init, order = calls[0]
    if _ is not m:
        raise Unsupported('another model is simulated')
    if shocks is None:
        c.goal('only the named shock is non-zero, only in the first period, with the size given', False)
        return
    S = tensor(shocks)
    c.prove('one row per period', z3and(zi(S.shape[0]) == zi(T.n), zi(S.shape[1]) == zi(d.E.n)))
    # every row after the first is zero, so is the first but for the shock
    S0, rest = tensor(S[0, :]), tensor(S[1:, :])
    prove_equal('only the named shock is non-zero, only in the first period, with the size given', tensor(S0[at]), size)
    z = lambda t: prove_equal('only the named shock is non-zero, only in the first period, with the size given', t, Tensor(t.axes, {}))
    z(rest)
    z(tensor(S0[:at]))
    z(tensor(S0[at + 1:]))
    if init is not None:
        prove_equal('the simulation starts at the steady state', tensor(init), m.ssv)
    else:
        c.goal('the simulation starts at the steady state', True)
    c.goal('the solution at hand is used', order in (0, getattr(m.__dict__.get('_solution'), 'order', 0)), strict=False)
    P = atoms('path', [Lf(T), d.dc])
    prove_equal('the response is the path in deviation from the steady state', fit(tensor(r.impulse), [Lf(T), d.dc]), P - m.ssv)
    c.prove('one row per period', zi(r.periods) == zi(T.n))


def z3and(*a):
    import z3
    return z3.And(*a)


def units():
    return [Unit('pynare.impulse.impulse_response', impulse,
                 ['an undeclared shock is rejected', 'one row per period',
                  'only the named shock is non-zero, only in the first period, with the size given',
                  'the simulation starts at the steady state', 'the response is the path in deviation from the steady state']),
            vararr.unit('get_loc (one name)')]
