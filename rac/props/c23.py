"""C23: what a user calls"""
import os, pathlib, tempfile
import numpy as np
from rac.core import *
from rac.props.c09 import draw, build, dense

QUICK, THOROUGH = 160, 3000
EXAMPLES = ['simple_rbc', 'simple_linear', 'optim_ck', 'basic_nk', 'four_eq_nk', 'herbst_schorfheide']
SOLVED = ['simple_linear', 'basic_nk', 'four_eq_nk', 'herbst_schorfheide']


def text(info):
    num = lambda v: repr(v) if v >= 0 else f'0 - {-v!r}'
    out = [f"var {', '.join(info['endog'])};"]
    if info['stoch']:
        out.append(f"varexo {' '.join(info['stoch'])};")
    out += ['parameters rho_q sig;', 'rho_q = 0.25;', 'sig = rho_q/2;']
    out += ['model;'] + [e + ';' for e in info['exprs']] + ['end;']
    out += ['initval;'] + [f'{k} = {num(v)};' for k, v in info['initial'].items()] + ['end;']
    if info['shocks']:
        out.append('shocks;')
        for k, d in info['shocks'].items():
            out.append(f"var {k} = {d['variance']!r};")
            if 'other' in d:
                out.append(f"var {k}, {d['other']} = {num(d['cov'])};")
            for o, p in d.get('pairs', {}).items():
                out.append(f"var {k}, {o} = {num(p['cov'])};")
        out.append('end;')
    return '\n'.join(out) + '\n'


def alike(what, a, b, info):
    for n in ('endog', 'stoch', 'determ'):
        equal(f'{what}: {n}', list(getattr(a, n).names), list(getattr(b, n).names), **info)
    equal(f'{what}: number of equations', len(a.exprs), len(b.exprs), **info)
    close(f'{what}: steady state', a.ss.values, b.ss.values, **info)
    close(f'{what}: derivatives', a.jacobian.array, b.jacobian.array, **info)
    close(f'{what}: covariance of the shocks', a.sigma, b.sigma, **info)


class Place:
    """a directory to run in, which is left and removed again"""

    def __enter__(self):
        self.old, self.tmp = os.getcwd(), tempfile.TemporaryDirectory()
        os.chdir(self.tmp.name)
        return pathlib.Path(self.tmp.name)

    def __exit__(self, *a):
        os.chdir(self.old)
        self.tmp.cleanup()


def file(rng):
    from pynare import Model
    sp = draw(rng, n_max=4)
    m, info = build(rng, sp)
    stem = str(rng.choice(['model', 'm_1', 'basic_nk', 'four_eq_nk', 'My-Model', 'a b']))
    name = stem + str(rng.choice(['', '.mod', '.txt', '.mod.txt', '.x']))
    with Place() as p:
        d = str(rng.choice(['', 'sub', 'sub/deep.er', '.']))
        if d not in ('', '.'):
            os.makedirs(d)
        rel = os.path.join(d, name)
        t = text(info)
        with open(rel, 'w') as f:
            f.write(t)
        arg = os.path.abspath(rel) if rng.random() < .4 else rel
        if rng.random() < .5:
            arg = pathlib.Path(arg)
        info.update(path=repr(arg), text=t)
        a = ut('reading a file', Model.from_path, arg, info=info)
        equal('name of the model', a.name, stem, **info)
        equal('values of the parameters', {k: float(v) for k, v in a.params.items()}, {'rho_q': .25, 'sig': .125}, **info)
        alike('model of the file', a, m, info)
        os.remove(rel)
        gone = 'other_' + name
        must_raise('reading a file that is not there', FileNotFoundError, Model.from_path, pathlib.Path(gone) if rng.random() < .5 else gone, info=info)


def example(rng):
    import pynare
    from pynare import Model
    k = str(rng.choice(SOLVED))
    arg = k + str(rng.choice(['', '.mod', '.txt']))
    info = {'example': arg}
    src, = pathlib.Path(pynare.__file__).parent.glob(f'examples/pynare/{k}.*')
    with Place() as p:
        copy = p / 'copy.mod'
        copy.write_text(src.read_text())
        b = ut('reading a file', Model.from_path, str(copy), info=info)
        if rng.random() < .3:
            arg = pathlib.Path(arg)
        a = ut('reading an example', Model.from_path, arg, info=info)
        equal('name of the model', a.name, k, **info)
        equal('parameters', {x: float(v) for x, v in a.params.items()}, {x: float(v) for x, v in b.params.items()}, **info)
        alike('model of the example', a, b, info)
        for other in ('nk', 'basic', 'basic_nk2', 'sub/none.mod'):
            must_raise('reading an example that is not there', FileNotFoundError, Model.from_path, other, info=info)
        for q in EXAMPLES:
            from pynare.io.files import read_example
            t = ut('text of an example', read_example, q, info=info)
            want, = pathlib.Path(pynare.__file__).parent.glob(f'examples/pynare/{q}.*')
            equal('text of the example', t, want.read_text(), **info)


def arrays(s):
    names = ('gy', 'gu') if s.order == 1 else ('ghxx', 'ghxu', 'ghuu', 'del2')
    low = [] if s.order == 1 else arrays(s.lower_solution)
    return [np.asarray(getattr(s, n), dtype=float) for n in names] + low


def same(what, a, b, info):
    equal(f'{what}: order', a.order, b.order, **info)
    for x, y in zip(arrays(a), arrays(b)):
        close(what, x, y, **info)


def methods(rng):
    from pynare.core.solve import FirstOrderSolution, SecondOrderSolution, OccBinSolution
    from pynare.stats import moments
    from pynare.stats.var import var_decomp
    from pynare.simul import simulate
    from pynare.impulse import impulse_response
    sp = draw(rng, n_max=4, n_exog=int(rng.integers(1, 3)), gap=.1)
    if not sp.state:
        raise Skip('no state')
    m, info = build(rng, sp)
    twin = m.copy()
    first = ut('first order', lambda: FirstOrderSolution(twin).solve(), info=info)
    second = ut('second order', lambda: SecondOrderSolution(twin).solve(), info=info)
    equal('order before solving', m.solution_order, None, **info)
    for bad in (3, -1, 7):
        must_raise('an order that does not exist', ValueError, m.solve, order=bad, info=info)
    order = int(rng.integers(0, 3))
    if rng.random() < .5:
        # solved before, some other way
        ut('solving', m.solve, order=int(rng.integers(1, 3)), info=info)
    s = ut('solving', m.solve, **({'order': order} if order else {}), info=info)
    same('the solution', s, first if order == 1 else second, info)
    equal('the solution is kept', m.solution is s and m.solution_order == s.order, True, **info)
    same('first-order solution', ut('first-order solution', lambda: m.first_order_solution, info=info), first, info)
    info['order'] = order
    # a constraint that never binds and the arguments of the algorithm
    T = int(rng.integers(1, 5))
    sh = np.round(rng.normal(size=T) * .3, 3)
    x0 = np.round(rng.normal(size=sp.n) * .3, 3) if rng.random() < .7 else None
    exog = sp.stoch[int(rng.integers(0, sp.e))]
    con = (f'{sp.names[0]} < -1000000', f'{sp.names[0]} > -1000000')
    ex = {0: info['exprs'][0]}
    kw = dict(exprs=ex, exog=exog, shocks=sh)
    if x0 is not None:
        kw['init'] = x0
    run = {'periods': T + int(rng.integers(0, 4))} if rng.random() < .5 else {}
    info.update(constraint=con, arguments={**kw, **run})
    o = ut('solving with a constraint', m.solve, constraint=con, **kw, **run, info=info)
    want = ut('the same algorithm', lambda: OccBinSolution(twin, constraint=con, **kw).solve(**run), info=info)
    close('path under a constraint', o.paths, want.paths, **info)
    equal('the solution under a constraint is kept', m.solution is o, True, **info)
    same('first-order solution after one under a constraint', ut('first-order solution', lambda: m.first_order_solution, info=info), first, info)
    # what follows uses the solution of the model
    k = 1 + int(rng.integers(0, 2))
    m.solve(order=k), twin.solve(order=k)
    S = np.round(rng.normal(size=(T, sp.e)), 3)
    init = sp.c + (0 if x0 is None else x0)
    close('simulation', ut('simulate', m.simulate, S, 7, init, info=info).paths, simulate(twin, shocks=S, init=init).paths, **info)
    close('simulation', ut('simulate', m.simulate, shocks=S, order=3 - k, info=info).paths, simulate(twin, shocks=S, order=3 - k).paths, **info)
    equal('periods of a simulation', ut('simulate', m.simulate, periods=9, info=info).paths.shape, (9, sp.n), **info)
    j = sp.stoch[int(rng.integers(0, sp.e))]
    size = float(rng.choice([2., 0., -1.5, .01]))
    close('impulse response', ut('impulse response', m.impulse_response, j, 6, size, info=info).impulse,
          impulse_response(twin, exog=j, periods=6, size=size).impulse, **info)
    P, G = dense(sp, first.gy, first.gu, info)
    if np.abs(np.linalg.eigvals(P)).max() > .97:
        return
    for f in (moments.mean, moments.cov, moments.var, moments.std, moments.corr, moments.autocov, moments.autocorr):
        n = f.__name__
        a = (3,) if n in ('autocov', 'autocorr') and rng.random() < .5 else ()
        close(f'stats.{n}', ut(f'stats.{n}', lambda: getattr(m.stats, n)(*a), info=info), ut(n, f, twin, *a, info=info), **info)
    close('stats.var_decomp', ut('stats.var_decomp', lambda: m.stats.var_decomp(stoch=[j]), info=info), var_decomp(twin, stoch=[j]), **info)
    close('stats.var_decomp', ut('stats.var_decomp', lambda: m.stats.var_decomp([sp.names[0]], [j]), info=info), var_decomp(twin, [sp.names[0]], [j]), **info)


def case(rng, i):
    (file, example, methods)[0 if i % 8 in (0, 3, 5) else 1 if i % 8 == 1 else 2](rng)
