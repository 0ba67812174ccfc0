"""C18: ill-declared files are rejected, well-declared ones accepted"""
import os, tempfile
import numpy as np
from rac.core import *
from rac import grammar as G
from rac.props import eqs

QUICK, THOROUGH = 400, 8000
DET = ['dz', 'gshift']
num = lambda v: ('-' if v < 0 else '') + G.number_text(abs(v))


class File:
    """statements of a model file, and what they declare"""


def draw(rng):
    s = eqs.draw(rng, safe=True, n=int(rng.integers(1, 4)))
    f = File()
    f.s = s
    f.det = DET[:1] if rng.random() < .12 else []
    f.helper = {}                                   # names of the file only
    if rng.random() < .25:
        f.helper['hlp'] = float(np.round(rng.uniform(.5, 2), 2))
    f.pdefs = {}
    vals = dict(f.helper)
    for k, v in s.params.items():
        have = list(vals)
        if have and rng.random() < .4:
            leaf = lambda: ('var', have[int(rng.integers(0, len(have)))], 0) if rng.random() < .7 \
                else ('num', float(rng.integers(1, 5)))
            t = G.tree(rng, 2, leaf, safe=True)
            f.pdefs[k] = t
            vals[k] = float(G.evaluate(t, lambda nm, d: vals[nm]))
        else:
            f.pdefs[k] = v
            vals[k] = v
    f.pvals = {k: vals[k] for k in s.params}
    s.params = dict(f.pvals)
    eqs.finish(s)

    def amount(positive=False):
        if f.pvals and rng.random() < .3:
            p = list(f.pvals)[int(rng.integers(0, len(f.pvals)))]
            c = float(np.round(rng.uniform(.1, 2), 2))
            if positive:
                return f'{G.number_text(c)} + 0*{p}', c
            return f'{p} + {G.number_text(c)}', f.pvals[p] + c
        v = float(np.round(rng.uniform(.1, 3), 2)) * (1 if positive or rng.random() < .6 else -1)
        return num(v), v
    f.bounds = {}
    f.btext = {}
    for blk, p in (('initval', .7), ('endval', .3), ('histval', .2)):
        if rng.random() < p:
            d, ts = {}, []
            for v in [s.endog[j] for j in rng.permutation(len(s.endog))]:
                if rng.random() < .7:
                    t, x = amount()
                    d[v] = x
                    ts.append(f'{v} = {t};')
            f.bounds[blk], f.btext[blk] = d, ts
    f.var = {e: 1. for e in s.stoch}
    f.pairs, f.sh = {}, None
    if s.stoch and rng.random() < .7 or rng.random() < .1:
        f.sh = []
        for e in s.stoch:
            r = rng.random()
            if r < .35:
                t, x = amount(True); f.var[e] = x; f.sh.append(f'var {e} = {t};')
            elif r < .7:
                t, x = amount(True); f.var[e] = x * x; f.sh.append(f'var {e}; stderr {t};')
        for a in range(len(s.stoch)):
            for b in range(a):
                if rng.random() < .3:
                    x, y = (a, b) if rng.random() < .5 else (b, a)
                    v = float(np.round(rng.uniform(-.5, .5), 2))
                    cov = rng.random() < .5
                    f.pairs[x, y] = (cov, v)
                    f.sh.append(f'{"var" if cov else "corr"} {s.stoch[x]}, {s.stoch[y]} = {num(v)};')
        f.sh = [f.sh[j] for j in rng.permutation(len(f.sh))]
    sep = lambda: ', ' if rng.random() < .3 else ' '
    f.decl = []
    def declare(kw, names):
        names = list(names)
        if not names:
            return []
        cut = int(rng.integers(1, len(names) + 1)) if rng.random() < .3 else len(names)
        out = [f'{kw} {sep().join(names[:cut])};']
        if names[cut:]:
            out.append(f'{kw} {sep().join(names[cut:])};')
        return out
    groups = [declare('var', s.endog), declare('varexo', s.stoch), declare('varexo_det', f.det),
              declare('parameters', s.params)]
    f.decl = [t for g in [groups[j] for j in rng.permutation(4)] for t in g]
    f.assign = [f'{k} = {num(v)};' for k, v in f.helper.items()]
    f.assign += [f'{k} = {num(v) if isinstance(v, float) else G.text(G.words(v, rng), rng)};' for k, v in f.pdefs.items()]
    f.local = [f'# {k} = {G.text(G.words(t, rng), rng)};' for k, t in s.locals.items()]
    f.eqs = [e + ';' for e in eqs.texts(s, rng)]
    tags = ["[name='first']", "[name = 'a b', dynamic]"]
    if rng.random() < .2:
        f.eqs = [tags[int(rng.integers(0, 2))] + ' ' + e if rng.random() < .5 else e for e in f.eqs]
    f.order = [b for b in ('initval', 'endval', 'histval', 'shocks')]
    f.order = [f.order[j] for j in rng.permutation(4)]
    return f


def text(f):
    t = f.decl + f.assign + ['model;'] + f.local + f.eqs + ['end;']
    for b in f.order:
        if b == 'shocks':
            if f.sh is not None:
                t += ['shocks;'] + f.sh + ['end;']
        elif b in f.btext:
            t += [f'{b};'] + f.btext[b] + ['end;']
    return '\n'.join(t) + '\n'


def read(rng, txt):
    from pynare import Model
    from pynare.parsing import read_model
    if rng.random() < .5:
        return lambda: Model.from_outline(read_model(txt, 'dynare'))

    def go():
        d = tempfile.mkdtemp(prefix='c18_')
        p = os.path.join(d, 'some_model.mod')
        try:
            with open(p, 'w') as fh:
                fh.write(txt)
            return Model.from_path(p)
        finally:
            os.unlink(p)
            os.rmdir(d)
    return go


def faults(f, rng):
    """every single-fault variation that applies: (name, mutator)"""
    s = f.s
    pick = lambda xs: xs[int(rng.integers(0, len(xs)))]
    at = lambda xs, t: xs.insert(int(rng.integers(0, len(xs) + 1)), t)
    pars = list(s.params)
    every = s.endog + s.stoch + f.det + pars
    out = []
    add = lambda name, fn, ok=True: ok and out.append((name, fn))
    nm = pick(every)
    kw = pick(['var', 'varexo', 'parameters'])
    add(f'{nm} declared twice ({kw})', lambda: at(f.decl, f'{kw} {nm};'))
    j = int(rng.integers(0, len(f.eqs)))
    body = f.eqs[j][:-1]
    tail = pick(['', '(-1)', '(+1)'])
    add(f'equation uses an undeclared name {tail}',
        lambda: f.eqs.__setitem__(j, f'{body} + {pick(["", "2*", "exp(1)/"])}undeclared_x{tail};'))
    add('whole equation is an undeclared name', lambda: at(f.eqs, pick(['', '0 = ']) + 'undeclared_x;'))
    if pars:
        p = pick(pars)
        add('an assignment uses an undeclared name', lambda: f.assign.append(f'{p} = 1 + undeclared_x;'))
        add('an assignment is an undeclared name', lambda: f.assign.append(f'{p} = undeclared_x;'))
        add('parameter dated', lambda: f.eqs.__setitem__(j, f'{body} + {p}{pick(["(-1)", "(+1)"])};'))
        add('whole side is a dated parameter', lambda: f.eqs.__setitem__(j, f'{pick(s.endog)} = {p}(-1);'))
        add('dated parameter in a local definition', lambda: f.local.append(f'# newloc = {p}(+1) + 1;'))
        for b in ('initval', 'endval', 'histval'):
            add(f'{b} of a parameter', lambda b=b: f.btext.setdefault(b, []).append(f'{p} = 1;'))
        add('shock on a parameter', lambda: shock(f, pick([f'var {p} = 1;', f'var {p}; stderr 2;'])))
    add('helper defined through an undeclared name', lambda: at(f.assign, 'newhlp = undeclared_x^2;'))
    add('helper defined through itself', lambda: at(f.assign, pick(['newhlp = newhlp;', 'newhlp = newhlp + 1;', 'newhlp = -(newhlp);'])))
    add('value assigned to an endogenous variable', lambda: at(f.assign, f'{pick(s.endog)} = 1;'))
    add('value assigned to a shock', lambda: at(f.assign, f'{pick(s.stoch)} = 1;'), bool(s.stoch))
    add('local name clashes', lambda: f.local.append(f'# {nm} = 1;'))
    add('local name twice', lambda: f.local.extend(['# newloc = 1;', '# newloc = 2;']))
    add('local uses undeclared name', lambda: at(f.local, '# newloc = undeclared_x;'))
    add('local uses itself', lambda: at(f.local, '# newloc = newloc + 1;'))
    for b in ('initval', 'endval', 'histval'):
        add(f'{b} of a shock', lambda b=b: f.btext.setdefault(b, []).append(f'{pick(s.stoch)} = 1;'), bool(s.stoch))
        add(f'{b} of an undeclared name', lambda b=b: f.btext.setdefault(b, []).append('undeclared_x = 1;'))
        add(f'{b} uses an undeclared name',
            lambda b=b: f.btext.setdefault(b, []).append(f'{pick(s.endog)} = 1 - undeclared_x;'))
    add('shock on an endogenous variable',
        lambda: shock(f, pick(['var {0} = 1;', 'var {0}; stderr 2;']).format(pick(s.endog))))
    add('shock on an undeclared name', lambda: shock(f, 'var undeclared_x = 1;'))
    if s.stoch:
        e = pick(s.stoch)
        bad = pick(s.endog + pars + ['undeclared_x'])
        two = [e, bad] if rng.random() < .5 else [bad, e]
        add('correlation with something that is not a shock',
            lambda: shock(f, f'{pick(["corr", "var"])} {two[0]}, {two[1]} = 0.1;'))
        add('shock size uses an undeclared name', lambda: shock(f, f'var {e} = undeclared_x;'))
    return out


def shock(f, t):
    f.sh = (f.sh or []) + [t]


def case(rng, i):
    f = draw(rng)
    s = f.s
    if i % 2:
        fl = faults(f, rng)
        name, fn = fl[int(rng.integers(0, len(fl)))]
        fn()
        txt = text(f)
        with light_models():
            must_raise(f'reading a file with a fault ({name})', Exception, read(rng, txt),
                       info={'fault': name, 'file': txt})
        return
    txt = text(f)
    info = {'file': txt}
    with light_models():
        m = ut('reading a well-declared file', read(rng, txt), info=info)
        equal('endogenous variables', [str(x) for x in m.endog.names], s.endog, **info)
        equal('shocks', [str(x) for x in m.stoch.names], s.stoch, **info)
        equal('deterministic variables', [str(x) for x in m.determ.names], f.det, **info)
        equal('parameter names', list(m.params), list(s.params), **info)
        close('parameters', [m.params[k] for k in s.params], [f.pvals[k] for k in s.params], rtol=1e-9, **info)
        equal('number of equations', len(m.exprs), len(s.eqs), **info)
        equal('local names', list(m.local_params), list(s.locals), **info)
        for blk, attr in (('initval', 'initial'), ('endval', 'terminal'), ('histval', 'historical')):
            for v in m.endog:
                got = getattr(v, attr)
                if v.name in f.bounds.get(blk, {}):
                    close(f'{blk} of {v.name}', got, f.bounds[blk][v.name], rtol=1e-9, **info)
                elif blk != 'initval':
                    equal(f'{blk} of {v.name}', got, None, **info)
                elif got is not None and got != 0:
                    raise Bad(f'initial value {got} of {v.name} was never given', **info)
        sig = np.diag([f.var[e] for e in s.stoch]) if s.stoch else np.zeros((0, 0))
        for (a, b), (cov, v) in f.pairs.items():
            sig[a, b] = sig[b, a] = v if cov else v * np.sqrt(f.var[s.stoch[a]] * f.var[s.stoch[b]])
        close('shock covariance', ut('sigma', lambda: m.sigma, info=info), sig, rtol=1e-9, **info)
        pos = {c: j for j, c in enumerate(s.columns)}
        pos.update({(e, 0): len(s.columns) + j for j, e in enumerate(s.stoch)})
        vec = np.round(rng.uniform(.2, 2, len(pos)), 3)
        env = lambda nm, d: float(vec[pos[nm, d]]) if (nm, d) in pos else s.consts[nm]
        try:
            want = [eqs.residual(s, k, env, eqs.value_strict) for k in range(len(s.eqs))]
        except Skip:
            return
        close('equations', ut('dynamic residual', m.dynamic_repr, vec, info=info), want, rtol=1e-8, **info)
