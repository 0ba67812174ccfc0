"""arrays of variables: VarArray of core/variables.py (names in order, membership, positions by name)"""
import inspect
import re
import types

from pv import eng, load, npshim, tree
from pv.eng import SI, SB, zi, Unsupported, Unit, z3
from pv.seqs import Seq
from pv.contracts.common import Poison

VARS = 'pynare.core.variables'
MODS = ['pynare.utils.dtypes', VARS]
ASSUMES = [
    'numpy: where, nonzero, flatnonzero, zeros, item and size follow their documented meaning; a subclass of ndarray has '
    '__array_finalize__ called on every array of it that is made (view, slice, selection), with the items of that array',
    'the names of one kind of variables are distinct (C18 refuses others in a file)',
]


class Name(str):
    pass


def fresh_name(hint):
    k = eng.CUR.env['names_made'] = eng.CUR.env.get('names_made', 0) + 1
    return f'{hint}~{k}'


class Found:
    """the positions of one name among distinct names: one, or none"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    @property
    def size(self):
        return 0 if self.p is None else 1

    @property
    def shape(self):
        return (self.size,)

    def __pv_len__(self):
        return self.size

    def __len__(self):
        return self.size

    def item(self, *a):
        if a and a != (0,):
            raise Unsupported('item')
        if self.p is None:
            raise (IndexError if a else ValueError)('can only convert an array of size 1')
        return self.p

    def __getitem__(self, i):
        if isinstance(i, int) and i in (0, -1):
            if self.p is None:
                raise IndexError('index 0 is out of bounds')
            return self.p
        raise Unsupported('part of the positions found')

    def tolist(self):
        return [] if self.p is None else [self.p]

    def __iter__(self):
        return iter(self.tolist())
    __pv_concrete__ = True

    def __int__(self):
        raise Unsupported('int of an array')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the positions found')


class Match:
    """names == name"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    def any(self):
        return self.p is not None

    def sum(self):
        return 0 if self.p is None else 1

    def nonzero(self):
        return (Found(self.p),)

    def argmax(self):
        return 0 if self.p is None else self.p

    def __bool__(self):
        raise Unsupported('the truth of an array')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a comparison')


class Labels(Seq):
    """the names in order; those that matter have known positions (or none)"""

    def __init__(self, n, item, where):
        super().__init__(n, item, 'the names')
        self.__dict__['where'] = where

    def pos(self, o):
        if isinstance(o, str) and o in self.where:
            return self.where[o]
        if isinstance(o, str):
            raise Unsupported('an unknown name')
        return None                             # something that is not a text equals no name

    def __eq__(self, o):
        return Match(self.pos(o))
    __hash__ = None

    def __contains__(self, o):
        return self.pos(o) is not None

    def pv_in(self, o):
        return self.pos(o) is not None

    def pv_list(self):
        return self

    def tolist(self):
        return self

    def pv_enum_dmap(self, f, start):
        return Table(self, f, start)

    def index(self, o):
        p = self.pos(o)
        if p is None:
            raise ValueError(f'{o!r} is not in list')
        return p


class Table:
    """{name: value of its position} over the names"""
    __pv__ = True

    def __init__(self, names, f, start):
        self.names, self.f, self.start = names, f, start

    def __getitem__(self, k):
        p = self.names.pos(k)
        if p is None:
            raise KeyError(k)
        r = self.f((p + self.start, k))
        if r is None or r[0] != k:
            raise Unsupported('entries under other names, or under some')
        return r[1]

    def __contains__(self, k):
        self[k] if self.names.pos(k) is not None else None
        return self.names.pos(k) is not None
    pv_in = __contains__

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of a table of names')


class Idx:
    """an array of positions"""
    __pv__ = True
    __array_ufunc__ = None

    def __init__(self, n, at):
        self.n, self.at = n, at

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __pv_len__(self):
        return self.n

    def __setitem__(self, i, v):
        if isinstance(i, bool) or not isinstance(i, (int, SI)):
            raise Unsupported('assignment to positions')
        c = eng.CUR
        if isinstance(v, Found):
            if v.p is None:
                raise ValueError('setting an array element with a sequence')
            v = v.p
        c.prove('positions lie within the list', z3.And(zi(i) >= 0, zi(i) < zi(self.n)))
        if not isinstance(v, (int, SI)):
            raise Unsupported('the value of a position')
        old = self.at
        self.at = lambda j: z3.If(zi(j) == zi(i), zi(v), zi(old(j)))

    def __getitem__(self, i):
        if isinstance(i, bool) or not isinstance(i, (int, SI)):
            raise Unsupported('some of the positions')
        return SI(zi(self.at(i)))

    def __iter__(self):
        raise Unsupported('a loop over positions')

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of an array of positions')


class Np:
    def __init__(self):
        import numpy
        self.ndarray, self.newaxis, self.concatenate = numpy.ndarray, None, numpy.concatenate
        self.number, self.int64, self.intp = numpy.number, int, int

    def zeros(self, n, dtype=float, **k):
        if isinstance(n, tuple) and len(n) == 1:
            n, = n
        if k or not isinstance(n, (int, SI)):
            raise Unsupported('zeros')
        return Idx(n, lambda i: 0)

    def empty(self, n, dtype=float, **k):
        return self.full(n, SI(z3.Int('anything')))

    def full(self, n, v, dtype=None, **k):
        if k or not isinstance(n, (int, SI)) or not isinstance(v, (int, SI)):
            raise Unsupported('full')
        return Idx(n, lambda i: v)

    def where(self, m, *a):
        if a or not isinstance(m, Match):
            raise Unsupported('where')
        return m.nonzero()
    nonzero = where

    def flatnonzero(self, m):
        return self.where(m)[0]

    def argmax(self, m):
        if not isinstance(m, Match):
            raise Unsupported('argmax')
        return m.argmax()

    def any(self, m):
        if not isinstance(m, Match):
            raise Unsupported('any')
        return m.any()

    def array(self, x, dtype=None, **k):
        if isinstance(x, Labels) or isinstance(x, Idx):
            return x
        if isinstance(x, Seq):
            if dtype is str or dtype is object or dtype in (None, 'U', 'str', 'O') and eng.CUR.env.get('texts'):
                return x
            if isinstance(dtype, str) and re.fullmatch(r'[<>=|]?[USa]\d*', dtype):
                return Seq(x.n, lambda i: ('cut', x.item(i)))       # names may be longer than that
            return Idx(x.n, lambda i: x.item(i))
        raise Unsupported('array')
    asarray = array

    def fromiter(self, x, dtype=None, count=-1, **k):
        return self.array(x, dtype)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'numpy.{a}')


class Truths:
    """a truth of every variable: one for those of the first kind, one for the others, if there are any"""
    __pv__ = True

    def __init__(self, n, a, b, same):
        self.n, self.vals = n, (a,) if same else (a, b)

    def __bool__(self):
        raise Unsupported('the truth of many truths')

    def __iter__(self):
        raise Unsupported('many truths')


def any_(x):
    if isinstance(x, Truths):
        return eng.CUR.decide(zi(x.n) > 0) and any(x.vals)
    if getattr(x, '__pv__', False) and not getattr(x, '__pv_concrete__', False):
        raise Unsupported('any')
    return any(x)


def all_(x):
    if isinstance(x, Truths):
        return not eng.CUR.decide(zi(x.n) > 0) or all(x.vals)
    if getattr(x, '__pv__', False) and not getattr(x, '__pv_concrete__', False):
        raise Unsupported('all')
    return all(x)


class Different:
    """the different kinds: none, one, or more"""
    __pv__ = True

    def __init__(self, kinds):
        c = eng.CUR
        if not c.decide(zi(kinds.n) > 0):
            self.n = 0
        elif kinds.same:
            self.n = 1
        else:
            self.n = eng.fresh_int('kinds', 2)
        self.first = kinds.first

    def __pv_len__(self):
        return self.n

    def pop(self):
        if isinstance(self.n, int):
            if not self.n:
                raise KeyError('pop from an empty set')
            return self.first
        raise Unsupported('one of the kinds')

    def __bool__(self):
        return not isinstance(self.n, int) or self.n > 0

    def __getattr__(self, a):
        if a.startswith(('__', 'pv_', '_pv_')):
            raise AttributeError(a)
        raise Unsupported(f'{a} of the kinds')


def set_(x=()):
    if isinstance(x, Kinds):
        return Different(x)
    if getattr(x, '__pv__', False) and not getattr(x, '__pv_concrete__', False):
        raise Unsupported('a set')
    return set(x)


npshim.FAKE.update({set_: set})
WORDS = {'any': any_, 'all': all_, 'set': set_}


def world(loops=None):
    w = load.World(MODS, shim=False, loops=loops or {}, glob={**npshim.BUILTINS, 'list': npshim.pv_list, 'int': npshim.pv_int, **WORDS})
    for m in MODS:
        w.mods[m].np = Np()
    return w


def stand_in(w, cls, names, items=None):
    """an array of variables: its names, and whatever its class defines"""
    C = w[f'{VARS}:{cls}']

    class Me(Seq):
        def __init__(self):
            pass

        def __getattr__(self, a):
            if not a.startswith(('__', 'pv_', '_pv_')) and any(a in k.__dict__ for k in C.__mro__ if k.__module__ == C.__module__):
                f = inspect.getattr_static(C, a)
                if isinstance(f, types.FunctionType):
                    return types.MethodType(f, self)
                if isinstance(f, property):
                    return f.fget(self)
                if isinstance(f, (staticmethod, classmethod)):
                    return getattr(C, a)
                raise Unsupported(f'{a} of an array of variables')
            return super().__getattr__(a)

        def __contains__(self, o):
            return C.__contains__(self, o)

        def pv_in(self, o):
            return C.__contains__(self, o)
    me = Me()
    me.__dict__['what'] = 'an array of variables'
    if names is not None:
        me.__dict__['names'] = names
    if items is not None:
        me.__dict__.update(n=items.n, item=items.item)
    return C, me


class Keys:
    """the names asked for: the k-th is declared, at P(k), or is not"""

    def __init__(self, c, w, n):
        self.c, self.w, self.n = c, w, n
        self.where, self.made = {}, {}
        self.P = z3.Function('position', z3.IntSort(), z3.IntSort())
        self.ok = z3.Function('declared', z3.IntSort(), z3.BoolSort())

    def key(self, k):
        c, kk = self.c, zi(k)
        if str(kk) in self.made:
            return self.made[str(kk)]
        name = fresh_name('key')
        if c.decide(self.ok(kk)):
            c.assume(z3.And(self.P(kk) >= 0, self.P(kk) < zi(self.n)))
            self.where[name] = SI(self.P(kk))
        else:
            self.where[name] = None
        x = name
        if c.choose(2):
            x = object.__new__(self.w[f'{VARS}:ModelVar'])
            x.name, x.vtype = name, 'endog'
        self.made[str(kk)] = x
        return x


REF = 'a name that is not declared is refused'
AT = 'a declared name is at its position'
EACH = 'every name asked for is at its position, in the order asked for'
LEN = 'one position for every name asked for'


def single(c):
    hold = {}
    w = world({'*': lambda *a: (_ for _ in ()).throw(Unsupported('a loop over the names'))})
    n = eng.fresh_int('n', 0)
    ks = Keys(c, w, n)
    names = Labels(n, lambda i: fresh_name('v'), ks.where)
    C, me = stand_in(w, 'VarArray', names)
    x = ks.key(z3.IntVal(0))
    good = c.decide(ks.ok(z3.IntVal(0)))
    try:
        r = C.get_loc(me, x)
    except KeyError:
        c.goal(REF, not good)
        c.goal('only a name that is not declared is refused', not good)
        return
    except Exception as e:
        if isinstance(e, TypeError):
            raise Unsupported(f'{e}')
        if isinstance(e, Unsupported) or not isinstance(e, (ValueError, IndexError)):
            raise
        c.goal('only a name that is not declared is refused', not good)
        c.goal(REF, not good)
        return
    c.goal(REF, good)
    if not good:
        return
    if isinstance(r, Found):
        r = r.item()
    if not isinstance(r, (int, SI)):
        raise Unsupported('what get_loc returns')
    c.prove(AT, zi(r) == ks.P(0))


class Fill:
    """the positions of the names before the k-th are known"""

    def __init__(self, c, ks, keys):
        self.c, self.ks, self.keys = c, ks, keys
        self.used = 0

    def __call__(self, w, st, what, env):
        c, ks = self.c, self.ks
        if what == 'enter':
            it = st.it.it if type(st.it).__name__ == 'SymEnum' else st.it
            rng = isinstance(it, npshim.SRange)
            if not rng and it is not self.keys or rng and (it.step != 1 or it.lo is not 0 and not (isinstance(it.lo, int) and it.lo == 0)):
                raise Unsupported('a loop over something else')
            if rng:
                c.prove('the loop goes over every name asked for', zi(it.hi) == zi(self.keys.n))
            self.used += 1
            if self.used > 1:
                raise Unsupported('another loop')
            arrs = {id(v): (k, v) for k, v in env.items() if isinstance(v, Idx)}
            lists = [k for k in st.names if isinstance(env.get(k), list) and not env[k]]
            if len(arrs) + len(lists) != 1:
                raise Unsupported('the loop does not fill one array')
            keep = [k for k, v in env.items() if isinstance(v, Idx)] + lists
            for nm in st.names:
                if nm in env and nm not in keep:
                    st.vals[nm] = Poison()
            self.lst = lists[0] if lists else None
            known = lambda i: SI(ks.P(zi(i)))
            if arrs:
                (self.var, self.obj), = arrs.values()
            if c.choose(2):
                # past the loop: every name asked for was found
                c.env['all_found'] = True
                if self.lst:
                    st.vals[self.lst] = Seq(self.keys.n, known)
                else:
                    c.prove(LEN, zi(self.obj.n) == zi(self.keys.n))
                    self.obj.at = known
                return
            k = eng.fresh_int('k', 0)
            c.assume(zi(k) < zi(self.keys.n))
            self.k = k
            if self.lst:
                st.vals[self.lst] = Seq(k, known)
            else:
                j = z3.Int('other')
                rest = z3.Function('rest', z3.IntSort(), z3.IntSort())
                self.obj.at = lambda i: z3.If(zi(i) < zi(k), ks.P(zi(i)), rest(zi(i)))
            st.body = True
            if rng:
                st.item = k
            else:
                x = self.keys.item(k)
                st.item = (k + st.it.start, x) if it is not st.it else x
            c.env['in_body'] = k
        elif what == 'leave':
            k = self.k
            c.env['in_body'] = None
            c.goal(REF, c.decide(ks.ok(zi(k))))
            if self.lst:
                s = env[self.lst]
                if not isinstance(s, Seq):
                    raise Unsupported('the list is replaced')
                c.prove(LEN, zi(s.n) == zi(k) + 1)
                at = lambda i: s.item(i)
            else:
                at = self.obj.at
            j = eng.fresh_int('j', 0)
            c.assume(zi(j) < zi(k))
            c.prove(EACH, zi(at(j)) == ks.P(zi(j)))
            c.prove(EACH, z3.Implies(ks.ok(zi(k)), zi(at(k)) == ks.P(zi(k))))


def several(c):
    hold = {}
    w = world({'*': lambda *a: hold['h'](*a)})
    n, m = eng.fresh_int('n', 0), eng.fresh_int('asked', 0)
    ks = Keys(c, w, n)
    names = Labels(n, lambda i: fresh_name('v'), ks.where)
    C, me = stand_in(w, 'VarArray', names)
    keys = Seq(m, lambda k: ks.key(k), 'the names asked for')
    h = hold['h'] = Fill(c, ks, keys)
    only = 'only a name that is not declared is refused'
    try:
        r = C.get_loc(me, keys)
    except KeyError:
        k = c.env.get('in_body')
        if k is None:
            raise Unsupported('a refusal outside of the loop')
        c.goal(only, not c.decide(ks.ok(zi(k))))
        return
    if isinstance(r, Seq):
        r = Idx(r.n, lambda i: r.item(i))
    if not isinstance(r, Idx):
        raise Unsupported('what get_loc returns')
    c.prove(LEN, zi(r.n) == zi(m))
    j = eng.fresh_int('j', 0)
    c.assume(zi(j) < zi(m))
    if h.used:
        c.assume(ks.ok(zi(j)))                   # the loop was left: every name was found
        c.prove(EACH, zi(r.at(j)) == ks.P(zi(j)))
        c.goal(only, True)
        c.goal(REF, True)
        return
    good = c.decide(ks.ok(zi(j)))
    try:
        v = r.at(j)
    except KeyError:
        c.goal(REF, True)
        c.goal(only, not good)
        return
    c.goal(REF, good)
    if good:
        c.prove(EACH, zi(v) == ks.P(zi(j)))


def member(c):
    w = world()
    n = eng.fresh_int('n', 0)
    ks = Keys(c, w, n)
    C, me = stand_in(w, 'VarArray', Labels(n, lambda i: fresh_name('v'), ks.where))
    x = ks.key(z3.IntVal(0))
    good = c.decide(ks.ok(z3.IntVal(0)))
    r = C.__contains__(me, x)
    if not isinstance(r, bool):
        raise Unsupported('membership')
    c.goal('a variable is in the array when its name is', r == good)


class Kinds(Seq):
    """the kinds of the variables: all the same, or not"""

    def count(self, x):
        c = eng.CUR
        if x is not self.first:
            raise Unsupported('count')
        if self.same:
            return self.n
        k = eng.fresh_int('alike', 1)
        c.assume(zi(k) < zi(self.n))
        return k

    def pv_map(self, f):
        a, b = f(self.first), f(self.other)
        if isinstance(a, bool) and isinstance(b, bool):
            return Truths(self.n, a, b, self.same)
        raise Unsupported('of the kinds')

    def __bool__(self):
        return eng.CUR.decide(zi(self.n) > 0)

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            if not eng.CUR.decide(zi(self.n) > 0):
                raise IndexError('list index out of range')
            return self.first
        raise Unsupported('one of the kinds')


def finalize(c):
    hold = {}
    w = world({'*': lambda *a: loop(*a)})
    c.env['texts'] = True
    n = eng.fresh_int('n', 0)
    same = c.choose(2) == 0
    if not same:
        c.assume(zi(n) > 1)
    MV = w[f'{VARS}:ModelVar']
    kind, other = Name('endog'), Name('exog')
    made, now = {}, {'kind': kind}

    class Var(MV):
        def __init__(self, k):
            self.k = k

        @property
        def name(self):
            return ('name of', self.k)

        @property
        def vtype(self):
            return now['kind']

    def item(k):
        return made.setdefault(str(zi(k)), Var(zi(k)))
    items = Seq(n, item)

    def kinds(k):
        r = Kinds(k, lambda i: kind)
        r.__dict__.update(first=kind, other=other, same=same)
        return r

    def loop(_, st, what, env):
        # lists that are filled in a loop: of names, or of kinds (a guess that the pass confirms)
        if what == 'enter':
            if st.it is not hold['me']:
                raise Unsupported('a loop over something else')
            hold['lists'] = [x for x in st.names if isinstance(env.get(x), list) and not env[x]]
            for x in st.names:
                if x in env and x not in hold['lists']:
                    st.vals[x] = Poison()
            done = c.choose(2) == 0
            k = n if done else eng.fresh_int('k', 0)
            if not done:
                c.assume(zi(k) < zi(n))
                hold['k'] = k
                st.body, st.item = True, item(k)
            for x in hold['lists']:
                st.vals[x] = Seq(k, lambda i: ('name of', zi(i))) if 'name' in x.lower() else (
                    kinds(k) if done else Seq(k, lambda i: kind))
        elif what == 'leave':
            k = hold['k']
            for x in hold['lists']:
                s = env[x]
                if not isinstance(s, Seq) or not c.entails(zi(s.n) == zi(k) + 1):
                    raise Unsupported('a list that is filled otherwise')
                got = s.item(k)
                ok = got is kind if 'name' not in x.lower() else isinstance(got, tuple) and got[0] == 'name of' and c.entails(got[1] == zi(k))
                if not ok:
                    raise Unsupported('a list of something else')

    class Items(Seq):
        def pv_map(self, f):
            v = f(item(z3.IntVal(0)))
            now['kind'] = other
            try:
                o = f(item(z3.IntVal(0)))
            finally:
                now['kind'] = kind
            if v is kind and o is other:
                return kinds(n)
            if isinstance(v, bool) and isinstance(o, bool):
                return Truths(n, v, o, same)
            if v != o:
                raise Unsupported('something of the kinds')
            return Seq(n, lambda i: f(item(i)))
    C, _ = stand_in(w, 'VarArray', None)

    class Me(Items):
        pass
    me = hold['me'] = Me(n, item)
    try:
        C.__array_finalize__(me, None)
    except TypeError as e:
        c.goal('only variables of different kinds are refused', not same)
        return
    c.goal('variables of different kinds are refused', same)
    if not same:
        return
    names = me.__dict__.get('names')
    if not isinstance(names, Seq):
        raise Unsupported('the names of the array')
    c.prove('one name for every variable', zi(names.n) == zi(n))
    j = eng.fresh_int('j', 0)
    c.assume(zi(j) < zi(n))
    got = names.item(j)
    c.goal('the names are those of the variables, in order', isinstance(got, tuple) and got[0] == 'name of' and c.entails(got[1] == zi(j)))


def units():
    V = f'{VARS}.VarArray'
    only = 'only a name that is not declared is refused'
    return [
        Unit(f'{V}.get_loc (one name)', single, [AT, REF, only], name='names_one'),
        Unit(f'{V}.get_loc (several names)', several, [EACH, REF, only, LEN], name='names_several'),
        Unit(f'{V}.__contains__', member, ['a variable is in the array when its name is'], name='names_member'),
        Unit(f'{V}.__array_finalize__', finalize, ['the names are those of the variables, in order', 'one name for every variable',
                                                  'variables of different kinds are refused', 'only variables of different kinds are refused'], name='names_finalize'),
    ]


def unit(name):
    u, = [u for u in units() if u.function.endswith('VarArray.' + name)]
    return u
