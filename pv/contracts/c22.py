"""printed tables: io/summary.py"""
from pv import eng, arr, load, model, lines
import re
from pv.arr import Lf, Cat, Prod, Tensor, sort, atoms, prove_equal, tensor, fit, Unsupported, same
from pv.eng import Unit, zi, SI, SB
from pv.lines import Lines, Seg, name_of, canon
from pv.contracts import common
from pv.contracts.common import Poison

S = 'pynare.io.summary'
MODS = common.MODS + ['pynare.core.generic', S]
ASSUMES = [
    'numpy: transpose, hstack, vstack, argsort, isin, repeat, tile, cumsum, all, absolute, indexing, boolean selection and assignment follow '
    'their documented meaning (pv/arr.py, pv/npshim.py, pv/lines.py); format specifications, ljust, rjust and join are those of Python and run as they are',
    'the width of a column is some number (it decides about blanks only); _max_log10 gives some number',
    'a summary of a solution concerns a model with at least one state and one shock (others: run-time contract)',
    'digits and thresholds are arbitrary integers; the numbers of autocorrelations asked for is three',
]


class Pow10:
    """a power of ten with a symbolic exponent"""

    def __init__(self, e):
        self.e = e


class Digits:
    """an arbitrary integer that exponents are made of: {symbol: multiple}"""

    def __init__(self, t, k=0):
        self.t, self.k = t, k

    def __add__(self, o):
        if isinstance(o, Digits):
            t = dict(self.t)
            for n, v in o.t.items():
                t[n] = t.get(n, 0) + v
            return Digits({n: v for n, v in t.items() if v}, self.k + o.k)
        if isinstance(o, int):
            return Digits(self.t, self.k + o)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return Digits({n: -v for n, v in self.t.items()}, -self.k)

    def __sub__(self, o):
        return self + (-o)

    def __index__(self):
        # widths are some number
        return 40
    __int__ = __index__

    def __format__(self, spec):
        if spec:
            raise Unsupported('format of a number of digits')
        return '{' + '+'.join([f'{v}*{n}' if v != 1 else n for n, v in sorted(self.t.items())] + [str(self.k)] * bool(self.k)) + '}'

    def __rpow__(self, b):
        if b not in (10, 10.):
            raise Unsupported('a power')
        return Pow10(self)

    def same(self, o):
        return self.t == o.t and self.k == o.k

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a number of digits')


class Names:
    """variables, an index set of names"""

    def __init__(self, ax):
        self.ax = ax
        self.names = Lines([Seg(ax.n, ax, name_of(ax))])

    def __pv_len__(self):
        return self.ax.n

    def __getitem__(self, ix):
        return Names(arr.as_sel(ix, self.ax).axis)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'variables.{a} is not under contract')


class Filling:
    """contract of a loop that appends one line per row: the text has those lines, in order.
    line(heads): what the line of an arbitrary row is written as; check(text, heads): that it is the right one"""

    def __init__(self, c, line, check, rows=None):
        self.c, self.line, self.check = c, line, check

    def __call__(self, w, st, what, env):
        c = self.c
        if what == 'enter':
            it = st.it
            self.single = not isinstance(it, lines.Zip)
            if self.single:
                it = lines.Zip([lines.rows_of(it)])
            lines.check(it)
            self.var = [n for n in st.names if isinstance(env.get(n), list)]
            if len(self.var) != 1:
                raise Unsupported('the loop does not fill one list')
            (v,) = self.var
            for n in st.names:
                if n in env and n != v:
                    st.vals[n] = Poison()
            k = c.choose(len(it.parts) + 1)
            if k < len(it.parts):
                st.vals[v] = self.rec = []
                self.heads = it.parts[k]
                items = tuple(h.item for h in self.heads)
                st.body, st.item = True, items[0] if self.single else items
                return
            done = Lines([Seg(h[0].n, next((x.ax for x in h if x.ax is not None), None), self.line(h), h[0].mask) for h in it.parts])
            st.vals[v] = list(env[v]) + list(iter(done))
        elif what == 'leave':
            (v,) = self.var
            got = env[v]
            c.goal(ONE, len(got) == 1 and isinstance(got[0], str) and self.check(got[0], self.heads), backend='evaluation', detail=repr(got)[:300])


ONE = 'a line is its label and its row'


def Joining(c):
    joint = lambda h: ''.join(x.item for x in h)
    return Filling(c, joint, lambda got, h: got == joint(h))


ROW = '\u27eb'


def rowtext(p):
    return f'\u27earow {lines.number(p)}{ROW}'


class Table:
    """contract of _summarize_array: a line of column names (those kept), then one line for every row of the array, in order"""

    def __init__(self, c):
        self.c, self.calls = c, []

    def __call__(self, arr=None, labels=None, sig=None, use_labels=True, thresh=None):
        mask = None
        t = arr
        if isinstance(arr, lines.Picked):
            if arr.pos != 0:
                raise Unsupported('columns selected')
            mask, t = arr.mask, arr.t
        t = tensor(t)
        if t.ndim != 2:
            raise Unsupported('a table of another dimension')
        self.calls.append((t, mask, labels, sig, thresh))
        ax = t.axes[0]
        parts = ax._parts if isinstance(ax, lines.arr.Cat) and not ax.order else [ax]
        rows = [Seg(p.n, p, rowtext(p)) for p in parts]
        self.rows = rows = rows if mask is None else mask.applied(rows)
        rows = Lines(rows)
        return (lines.chain([['\u27eacolumns\u27eb'], rows]) if use_labels else rows).copy()


def setup(c, contracts=None):
    tab = Table(c)
    w, d, m, hold = common.setup(c, MODS, contracts={f'{S}:_summarize_array': tab, **(contracts or {})}, glob=lines.GLOB)
    hold['h'] = Joining(c)
    c.env['hold'] = hold
    c.env['override'] = dict(lines.OVERRIDE)
    c.env['compare'] = lines.Compare()
    m.endog, m.stoch = Names(d.dc), Names(Lf(d.E))
    G = w['pynare.core.generic:DynamicModel']
    for p in ('state_vars', 'forward_vars', 'static_vars', 'backward_vars', 'mixed_vars', 'pure_forward_vars', 'pure_backward_vars'):
        m.__dict__[p] = getattr(G, p).fget(m)
    return w, d, m, tab


def pieces(m, d, order):
    """the rows of a policy table: label, index set, coefficients of every variable in declaration order"""
    X = arr.restrict(d.dc, {k: True for k in d.state.comps()})
    U = Lf(d.E)
    lag, sh = name_of(X) + '(-1)', name_of(U)
    two = lambda s: s.replace(lines.OPEN, lines.OPEN + '2:')
    flip = lambda t, ax: Tensor([ax, d.dc], dict(arr.transpose(t).blocks))
    out = [('steady', None, Tensor([Lf(sort('One', 1)), d.dc], dict(arr.expand(m.ssv, 0).blocks))),
           (lag, X, flip(m.gy, X)), (sh, U, flip(m.gu, U))]
    if order == 2:
        out += [(f'{lag}, {two(lag)}', Prod(X, X), flip(m.xx, Prod(X, X))), (f'{lag}, {two(sh)}', Prod(X, U), flip(m.xu, Prod(X, U))),
                (f'{sh}, {two(sh)}', Prod(U, U), flip(m.uu, Prod(U, U))),
                ('del2', None, Tensor([Lf(sort('One', 1)), d.dc], dict(arr.expand(m.d2, 0).blocks)))]
    return out


def content(c, text, name):
    """the lines of a text"""
    out = []
    for sep, x in lines.joined(text):
        if sep is None:
            out += [Seg(1, None, y) for y in x.split('\n') if y.strip()]
        elif '\n' not in sep:
            # a line that is put together from pieces
            out.append(Seg(1, None, ''.join(y.item for y in x.segs)))
        else:
            c.goal(name, sep.startswith('\n'), backend='evaluation', detail=repr(sep))
            out += x.segs
    return out


def digits(c):
    return Digits({'sig': 1}), (None, Digits({'thresh': 1}))[c.choose(2)]


def first(c):
    w, d, m, tab = setup(c)
    sol = m.make(1)
    sig, th = digits(c)
    s = w[f'{S}:FirstOrderSummary'](sol, sig=sig, thresh=th)
    text = s.__str__()
    if len(tab.calls) != 1:
        raise Unsupported('not one table')
    t, mask, labels, sg, thresh = tab.calls[0]
    want = pieces(m, d, 1)
    A = arr.concatenate([x for _, _, x in want], 0)
    numbers(NUM, c, t, A)
    c.goal('the columns are named after the variables', isinstance(labels, Lines) and [canon(x.item) for x in labels.segs] == [canon(name_of(d.dc))],
           backend='evaluation')
    c.goal('digits and threshold are the chosen ones', sg is sig and thresh is th and mask is None, backend='evaluation')
    rows(c, text, want, tab)


LINES = 'the text has the line of names and one line for every row, labelled'


def rows(c, text, want, tab):
    got = [s for s in content(c, text, LINES) if s.item.strip(' +')][1:]
    exp = [('columns', None)] + [(n, ax) for n, ax, _ in want if ax is None or not same(ax.n, 0)]
    missing, ok = list(exp), True
    for s in got:
        lab, _, rest = canon(s.item).rpartition('\u27ea')
        fits = lambda n, ax: not lab.strip() and rest == 'columns' + ROW if n == 'columns' else \
            lab.strip() == canon(n) and rest == 'row ' + lines.rowid(ax) + ROW
        while missing and not fits(*missing[0]):
            n, ax = missing.pop(0)
            ok = ok and n != 'columns' and len(tab.rows) == len(exp) - 1 and \
                c.entails(zi(Lines([tab.rows[len(exp) - len(missing) - 2]]).size) == 0)
        ok = ok and bool(missing)
        missing = missing[1:]
    ok = ok and not missing
    c.goal(LINES, ok, backend='evaluation', detail=f"{[canon(s.item) for s in got]} expected {[canon(n) for n, _ in exp]}"[:900])


def second(c):
    w, d, m, tab = setup(c)
    sol = m.make(2)
    w['pynare.core.solve.base:LinearSolution'].__init__(sol, m)
    sig, th = digits(c)
    s = w[f'{S}:SecondOrderSummary'](sol, sig=sig, thresh=th)
    text = s.__str__()
    if len(tab.calls) != 1:
        raise Unsupported('not one table')
    t, mask, labels, sg, thresh = tab.calls[0]
    want = pieces(m, d, 2)
    A = arr.concatenate([x for _, _, x in want], 0)
    numbers(NUM, c, t, A)
    c.goal('the columns are named after the variables', isinstance(labels, Lines) and [canon(x.item) for x in labels.segs] == [canon(name_of(d.dc))],
           backend='evaluation')
    c.goal('digits are the chosen ones', sg is sig and thresh is None, backend='evaluation')
    if not isinstance(mask, lines.Some):
        raise Unsupported('rows chosen in another way')
    e = -sig if th is None else -(sig + th)
    c.goal(KEPT, mask.axis == 1 and mask.op == '<' and isinstance(mask.bound, Pow10) and mask.bound.e.same(e) and mask.always == {0, -1},
           backend='evaluation', detail=repr((mask.axis, mask.op, mask.always)))
    numbers(KEPT, c, mask.t, abs(A))
    rows(c, text, want, tab)


NUM = 'every number of the table is the coefficient of its row and column'
KEPT = 'the rows left out are those whose coefficients are all below the threshold in absolute value'


def numbers(name, c, t, A):
    t = tensor(t)
    fitted = fit(t, A.axes) if same(t.shape[0], A.shape[0]) and same(t.shape[1], A.shape[1]) else None
    c.goal(name, fitted is not None, strict=False)
    if fitted is not None:
        prove_equal(name, fitted, A)


def spec_of(text, sig):
    """the numbers that a text is made of, with the digits chosen"""
    out = []
    for t in re.findall('\u27ea[^\u27eb]*\u27eb|[^\\s\u27ea]+', text):
        k = re.fullmatch('\u27ea(.*):([^:]*)\u27eb', t, flags=re.S)
        if not k:
            out.append(t)
        else:
            out.append(k.group(1) if re.fullmatch(r'[^.]*\.' + re.escape(f'{sig}') + 'f', k.group(2)) else t)
    return out


def table(c):
    """_summarize_array itself"""
    w, d, m, hold = common.setup(c, MODS, contracts={f'{S}:_max_log10': lambda arr: 0.5}, glob=lines.GLOB)
    c.env['override'] = dict(lines.OVERRIDE)
    c.env['compare'] = lines.Compare()
    sig, th = digits(c)
    R, C = Lf(sort('R')), Lf(sort('C'))
    c.assume(zi(C.n) >= 1)
    c.assume(zi(R.n) >= 1)
    t = arr.atoms('arr', [R, C])
    names = Lines([Seg(C.n, C, name_of(C))])
    labels = names
    seen = []

    def check(got, heads=None):
        entries(c, [R, C], t)
        parts = lines.joined(got)
        (sep, ls), = parts if len(parts) == 1 else [(None, None)]
        if sep is None or sep.strip() or not sep or len(ls.segs) != 1 or spec_of(canon(ls.segs[0].item), sig) != [f'column {lines.rowid(C)}']:
            return False
        if ls.segs[0].mask is not None:
            chosen(ls.segs[0].mask)
        return (ls.segs[0].mask is None) == (th is None)

    def chosen(mask):
        e = -(sig + th) if th is not None else None
        c.goal(COLS, th is not None and mask.axis == 0 and mask.op == '<' and isinstance(mask.bound, Pow10) and mask.bound.e.same(e) and not mask.always,
               backend='evaluation', detail=repr((mask.axis, mask.op, mask.always)))
        numbers(COLS, c, mask.t, abs(t))

    hold['h'] = Filling(c, lambda h: f'\u27earow {lines.number(h[0].ax)}{ROW}', check)
    use = (True, False)[c.choose(2)]
    out = w[f'{S}:_summarize_array'](arr=t, labels=labels, sig=sig, use_labels=use, thresh=th)
    got = content(c, '\n'.join(out), TABLE)
    if use:
        head = list(lines.joined(out[0]))
        ok = len(head) == 1 and head[0][0] == ' '
        segs = head[0][1].segs if ok else []
        c.goal('the first line has the names of the columns shown', ok and [canon(s.item).strip() for s in segs] == [canon(name_of(C))],
               backend='evaluation', detail=repr(out[0]))
        c.goal(COLS, len(segs) == 1 and (segs[0].mask is None) == (th is None), backend='evaluation')
        if th is not None and segs and segs[0].mask is not None:
            chosen(segs[0].mask)
        got = content(c, '\n'.join(out[1:]), TABLE)
    c.goal(TABLE, len(got) == 1 and right(got[0], R, check) and got[0].mask is None and (got[0].ax is None or lines.rowid(got[0].ax) == lines.rowid(R)),
           backend='evaluation', detail=repr([canon(s.item) for s in got]))


def right(seg, ax, check):
    """a line is the one of an arbitrary element of the index set, either by the contract of the loop that wrote it or as it stands"""
    if canon(seg.item).strip() == f'\u27earow {lines.rowid(ax)}{ROW}':
        return True
    return check(seg.item)


def entries(c, axes, t):
    """every number that was written is an entry of the array, in its row"""
    for _, x in c.env.get('formats', []):
        prove_equal(NUM, fit(tensor(x), axes), t)


TABLE = 'the table has one line per row, in order'
COLS = 'the columns left out are those whose numbers are all below the threshold in absolute value'


def listing(c, text, tab, heading, labels, cols, ax, A):
    """a table with one labelled row per element of an index set"""
    (t, mask, labs, sg, th), = tab.calls
    numbers(NUM, c, t, A)
    same_labels = [canon(x.item) for x in labs.segs] == [canon(x.item) for x in cols.segs] if isinstance(labs, Lines) and isinstance(cols, Lines) \
        else list(labs) == list(cols) if not isinstance(labs, Lines) and not isinstance(cols, Lines) else False
    c.goal('the columns are named after what they show', same_labels and mask is None and th is None, backend='evaluation', detail=repr(labs))
    got = [canon(s.item).split() for s in content(c, text, LINES)][1:]
    c.goal(LINES, got == [['\u27eacolumns' + ROW], [canon(labels), '\u27earow', lines.rowid(ax) + ROW]], backend='evaluation', detail=repr(got))


def statistics(c):
    w, d, m, tab = setup(c)
    sig = Digits({'sig': 1})
    k = c.choose(4)
    mean, std, dec = arr.atoms('mean', [d.dc]), arr.atoms('std', [d.dc]), arr.atoms('decomp', [d.dc, Lf(d.E)])
    corr, auto = arr.atoms('corr', [d.dc, d.dc]), [arr.atoms(f'auto{i}', [d.dc, d.dc]) for i in range(3)]

    def autocorr(p=None, *a):
        if a or p != 3:
            raise Unsupported('autocorrelations of another number of lags')
        return auto
    obj = model.Obj(model=m, mean=lambda: mean, std=lambda: std, corr=lambda: corr, autocorr=autocorr, var_decomp=lambda: dec)
    s = w[f'{S}:ModelStatisticsSummary'](obj, sig=sig, autocorr=3, only=('moments', 'corr', 'autocorr', 'decomp')[k])
    text = str(s)
    c.goal('digits are the chosen ones', len(tab.calls) == 1 and tab.calls[0][3] is sig, backend='evaluation')
    text = text.partition('\n\n')[2]
    col = lambda t: Tensor([d.dc, Lf(sort('One', 1))], dict(arr.expand(t, 1).blocks))
    nm = name_of(d.dc)
    if k == 0:
        want, cols = arr.concatenate([col(mean), col(std), col(std * std)], 1), ['mean', 'std dev', 'var']
    elif k == 1:
        want, cols = corr, m.endog.names
    elif k == 2:
        want, cols = arr.concatenate([col(arr.diag(t)) for t in auto], 1), [f'p = {i}' for i in range(3)]
    else:
        want, cols = dec, m.stoch.names
    listing(c, text, tab, None, nm, cols, d.dc, want)


def described(c):
    """ModelSummary"""
    w, d, m, tab = setup(c, {f'{S}:_max_log10': lambda arr: 0.5})
    c.env['texts'] = True
    sig = Digits({'sig': 1})
    k = c.choose(5)
    E, P, Z = Lf(d.E), Lf(sort('Par')), Lf(sort('Eig'))
    c.assume(zi(P.n) >= 0)
    c.assume(zi(Z.n) >= 1)
    nums = lambda f, ax: lines.Numbers([Seg(ax.n, ax, lines.Num(f(name_of(ax))))])
    pars = Lines([Seg(P.n, P, name_of(P))])

    class Params:
        calib = lines.Lookup(pars, nums(lambda n: f'value-of-{n}', P))

        def __getitem__(self, n):
            return lines.Num(f'value-of-{n}')
    eig = lines.Numbers([Seg(Z.n, Z, lines.Num('eig'))])
    m.__dict__.update(statespace=model.Obj(eigen=eig), params=Params(), sigma=arr.atoms('sigma', [E, E], 'matrix'))
    Q = Lf(sort('Chosen'))
    c.assume(zi(Q.n) >= 0)
    kw = {'params': Lines([Seg(Q.n, Q, name_of(Q))])} if k == 4 else {}
    s = w[f'{S}:ModelSummary'](m, sig=sig, only=('variables', 'eigen', 'stoch', 'params', 'params')[k], **kw)

    def check(got, h=None):
        if k == 1:
            return spec_of(canon(got), sig) == ['real(eig)@absolute(eig)', 'imag(eig)@absolute(eig)', 'absolute(eig)@absolute(eig)']
        if k == 2:
            entries(c, [E, E], m.sigma)
            parts = lines.joined(got)
            return len(parts) == 2 and parts[0][0] is None and canon(parts[0][1]).strip() == canon(name_of(E)) and bool(parts[1][0]) and \
                not parts[1][0].strip(' ') and [spec_of(canon(x.item), sig) for x in parts[1][1].segs] == [[f'column {lines.rowid(E)}']]
        if k >= 3:
            nm = canon(name_of((P, Q)[k - 3]))
            return spec_of(canon(got), sig) == [nm, '=', f'value-of-{nm}']
        return False
    c.env['hold']['h'] = Filling(c, lambda h: f'\u27earow {lines.number(h[0].ax)}{ROW}', check)
    text = s.__str__().partition('\n\n')[2]
    if k == 0:
        reg = c.env.get('printed', [])
        want = [(n, v) for n, v in (('variables', m.endog), ('stochastic shocks', m.stoch), ('state vars', m.state_vars), ('forward-looking vars', m.forward_vars),
                                    ('static vars', m.static_vars)) if not c.entails(zi(v.__pv_len__()) == 0)]
        got = [ln.rpartition(': ') for ln in text.split('\n')[1:]]
        c.goal(COUNT, [g[0].strip() for g in got] == [f'number of {n}' for n, _ in want], backend='evaluation', detail=text)
        for (_, _, g), (n, v) in zip(got, want):
            k = re.fullmatch('\\s*\u27eanumber (\\d+)\u27eb\\s*', g)
            x = reg[int(k.group(1))] if k else int(g) if g.strip().isdigit() else None
            c.goal(COUNT, SB(zi(x) == zi(v.__pv_len__())) if x is not None else False)
        return
    Z = (Z, E, P, Q)[k - 1]
    got = [s for s in content(c, text, LINES)][1:]
    head = [[], ['real', 'imag', 'mod'], None, [], []][k]
    ok = True
    if k == 1:
        ok = bool(got) and got.pop(0).item.split() == ['real', 'imag', 'mod']
    if k == 2:
        # the line of names is made of the names with blanks in between
        ok = len(got) == 2 and canon(got[0].item).strip() == canon(name_of(E))
        got = got[1:]
    c.goal(LINES, ok and len(got) == (not same(Z.n, 0)) and all(right(x, Z, check) for x in got), backend='evaluation',
           detail=repr([canon(s.item) for s in got]))


COUNT = 'the number of variables of each kind is the size of that kind'


def units():
    return [Unit(f'{S}.FirstOrderSummary.__str__, policy_arrays, row_labels', first,
                 ['every number of the table is the coefficient of its row and column', 'the columns are named after the variables',
                  'digits and threshold are the chosen ones', LINES]),
            Unit(f'{S}.SecondOrderSummary.__str__, policy_arrays, row_labels, _policy_arrays, _policy_locs, _threshold_locs', second,
                 ['every number of the table is the coefficient of its row and column', 'the columns are named after the variables',
                  'digits are the chosen ones', KEPT, LINES]),
            Unit(f'{S}._summarize_array', table, [NUM, TABLE, COLS, 'the first line has the names of the columns shown']),
            Unit(f'{S}.ModelStatisticsSummary.moments_str, corr_str, autocorr_str, decomp_str, __str__', statistics,
                 [NUM, 'digits are the chosen ones', 'the columns are named after what they show', LINES]),
            Unit(f'{S}.ModelSummary.variables_str, eigen_str, stoch_str, params_str, __str__', described,
                 [NUM, COUNT, LINES])]
