"""Path exploration: the code under contract is executed by CPython on symbolic values; a branch on a
symbolic condition is decided by replaying a decision log, both feasible sides are explored, and every
obligation is discharged by z3 (or by a normal form) under the path condition of the path that reaches it."""
import sys
if not any('veriftools' in p for p in sys.path):
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import time
import z3


class Unsupported(Exception):
    """the layer cannot interpret this operation: the unit is undecided, never refuted"""


class NotThisWay(Unsupported):
    """an alternative set of invariants that does not fit this code at all"""


class PathEnd(Exception):
    """the current path has been cut (loop body checked, infeasible, ...)"""


class Ctx:
    def __init__(self, unit, prefix):
        self.unit, self.prefix, self.log, self.alts = unit, prefix, [], []
        self.pc, self.version, self.cache = [], 0, {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.env, self.known = {}, {}

    # -- path condition
    def assume(self, c):
        c = unwrap(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)
        self.version += 1

    def check(self, c):
        """sat / unsat / unknown of pc and c"""
        self.unit.queries += 1
        t = time.time()
        r = self.solver.check(c)
        self.unit.ztime += time.time() - t
        return r

    def entails(self, c):
        c = unwrap(c)
        if c is True or c is False:
            return c
        raw = c.get_id()
        hit = self.cache.get(raw)
        if hit is not None and (hit[0] is True or hit[1] == self.version):
            return hit[0]
        r = self._entails(z3.simplify(c, som=True))
        self.cache[raw] = (r, self.version, c)
        return r

    def _entails(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check(z3.BoolVal(True)) == z3.unsat
        k = c.get_id()
        hit = self.cache.get(k)
        if hit is not None and (hit[0] is True or hit[1] == self.version):
            return hit[0]
        r = self.check(z3.Not(c)) == z3.unsat
        self.cache[k] = (r, self.version, c)
        return r

    def decide(self, c):
        c = unwrap(c)
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k][0]
        # only a condition that is open on this path is a branch; sat and unknown both count as possible
        quick = self.env.get('decide_ms')
        if quick:
            self.solver.set('timeout', quick)
        a = self.check(z3.Not(c)) == z3.unsat
        b = not a and self.check(c) == z3.unsat
        if quick:
            self.solver.set('timeout', 20000)
        if a:
            v = True
        elif b:
            v = False
        else:
            i = len(self.log)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                v = True
                self.alts.append(self.log + [False])
            self.log.append(v)
            self.assume(c if v else z3.Not(c))
        self.known[k] = (v, c)
        return v

    def choose(self, n, what=None):
        """an n-way split that is not governed by a condition (kinds of a child, token types, ...)"""
        i = len(self.log)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            self.alts += [self.log + [k] for k in range(1, n)]
        self.log.append(v)
        self.version += 1
        return v

    # -- obligations
    def prove(self, name, cond, detail=None):
        """cond (z3 or bool) must follow from the path condition"""
        c = unwrap(cond)
        if isinstance(c, bool):
            st = 'proved' if c else self._feasible_failure()
            self.unit.note(name, st, 'evaluation', detail or (None if c else self.where()))
            return c
        t = time.time()
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            self.unit.note(name, 'proved', 'z3', None, time.time() - t)
            return True
        if r == z3.sat:
            m = self.solver.model()
            self.unit.note(name, 'refuted', 'z3', f'counterexample {str(m)[:400]}; {detail or ""} {self.where()}'[:900],
                           time.time() - t)
        else:
            f = self.env.get('finite')
            m = f(self.pc, c) if f else None
            if m is not None:
                self.unit.note(name, 'refuted', 'z3', f'counterexample {m[:400]}; {self.where()}'[:900], time.time() - t)
            else:
                self.unit.note(name, 'undecided', 'z3', 'solver gave up', time.time() - t)
        return False

    def _feasible_failure(self):
        r = self.check(z3.BoolVal(True))
        return 'refuted' if r == z3.sat else ('proved' if r == z3.unsat else 'undecided')

    def goal(self, name, ok, backend='normal form', detail=None, strict=True):
        """an obligation decided outside z3: ok is a bool"""
        if ok:
            self.unit.note(name, 'proved', backend, None)
        elif self.check(z3.BoolVal(True)) == z3.unsat:
            self.unit.note(name, 'proved', 'z3', None)
        else:
            self.unit.note(name, 'refuted' if strict else 'undecided', backend, f'{detail or ""} {self.where()}'[:1500])
        return ok

    def where(self):
        return 'on the path ' + '; '.join(str(c) for c in self.pc[-12:])[:500]


CUR = None
RESET = []


def ctx():
    return CUR


def unwrap(c):
    if isinstance(c, SB):
        return c.e
    if isinstance(c, (bool,)):
        return c
    if z3.is_expr(c):
        return c
    try:
        import numpy as np
        if isinstance(c, np.bool_):
            return bool(c)
    except Exception:
        pass
    return bool(c)


class SB:
    """symbolic truth value"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def __and__(self, o):
        return SB(z3.And(self.e, unwrap(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.e, unwrap(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SB(z3.Xor(self.e, unwrap(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        return SB(self.e == unwrap(o))

    def __ne__(self, o):
        return SB(z3.Xor(self.e, unwrap(o)))
    __hash__ = None

    def __repr__(self):
        return f'SB({self.e})'


def zi(x):
    if isinstance(x, SI):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, SB):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    try:
        import operator
        return z3.IntVal(operator.index(x))
    except TypeError:
        pass
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f'integer operation on {type(x).__name__}')


class SI:
    """symbolic integer (mathematical)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = z3.simplify(e, som=True) if not z3.is_const(e) else e

    @staticmethod
    def mk(e):
        e = z3.simplify(e, som=True)
        return e.as_long() if z3.is_int_value(e) else SI(e)

    def __format__(self, spec):
        if spec or CUR is None or 'texts' not in CUR.env:
            return repr(self).__format__(spec)
        reg = CUR.env.setdefault('printed', [])
        reg.append(self)
        return f'\u27eanumber {len(reg) - 1}\u27eb'

    def __str__(self):
        return self.__format__('')

    def _b(self, o, f):
        if isinstance(o, float) and o != int(o):
            raise Unsupported('integer mixed with a float')
        return SI.mk(f(self.e, zi(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b) if isint(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b) if isint(o) else NotImplemented

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a) if isint(o) else NotImplemented

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b) if isint(o) else NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return SI.mk(-self.e)

    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 4:
            e = z3.IntVal(1)
            for _ in range(k):
                e = e * self.e
            return SI.mk(e)
        raise Unsupported('power of a symbolic integer')

    def __truediv__(self, o):
        if isint(o):
            return SQ(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        return SQ(o, self)

    def __floordiv__(self, o):
        d = zi(o)
        if CUR.entails(d > 0):
            return SI.mk(self.e / d)
        raise Unsupported('floor division')

    def __mod__(self, o):
        d = zi(o)
        if CUR.entails(d > 0):
            return SI.mk(self.e % d)
        raise Unsupported('modulo')

    def _c(self, o, f):
        if isinstance(o, SQ):
            return NotImplemented
        if not isint(o):
            return NotImplemented
        return SB(f(self.e, zi(o)))

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b) if isint(o) else False

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b) if isint(o) else True

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __hash__(self):
        return hash(self.e)

    def __index__(self):
        v = self.concrete()
        if v is None:
            raise Unsupported(f'symbolic integer {self.e} used as a concrete one')
        return v
    __int__ = __index__

    def concrete(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        if CUR.solver.check() == z3.sat:
            v = CUR.solver.model().eval(self.e, model_completion=True).as_long()
            if CUR.entails(self.e == v):
                return v
        return None

    def __repr__(self):
        return f'SI({self.e})'


class SQ:
    """ratio of two integers, only compared with numbers"""

    def __init__(self, a, b):
        self.a, self.b = zi(a), zi(b)
        if not CUR.entails(self.b > 0):
            raise Unsupported('ratio with a denominator that may not be positive')

    def _c(self, o, f):
        if isinstance(o, SQ):
            return SB(f(self.a * o.b, o.a * self.b))
        if isint(o):
            return SB(f(self.a, zi(o) * self.b))
        raise Unsupported('ratio')

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    __hash__ = None

    def _lin(self, o, f):
        if isint(o):
            n = f(self.a, zi(o) * self.b)
        elif isinstance(o, SQ):
            n = f(self.a * o.b, o.a * self.b)
        else:
            raise Unsupported('ratio arithmetic')
        return SQ(SI(n), SI(self.b * (o.b if isinstance(o, SQ) else 1)))

    def __mul__(self, o):
        return SQ(SI(self.a * zi(o)), SI(self.b))
    __rmul__ = __mul__

    def __add__(self, o):
        return self._lin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, lambda a, b: a - b)


def isint(x):
    if isinstance(x, (SI, int, bool, SB)):
        return True
    if isinstance(x, float):
        return x == int(x) if x == x and abs(x) != float('inf') else False
    try:
        import operator
        operator.index(x)
        return True
    except TypeError:
        return False


def fresh_int(name, lo=None):
    v = SI(z3.Int(name))
    if lo is not None:
        CUR.assume(v.e >= lo)
    return v


class Unit:
    """one function under contract: `run` executes it once on fresh symbolic inputs and states obligations"""

    def __init__(self, function, run, goals=(), limit=600, max_paths=20000, name=None):
        self.function, self.run, self.goals = function, run, tuple(goals)
        self.limit, self.max_paths = limit, max_paths
        self.name = name or getattr(run, '__name__', function)
        self.obl = {}
        self.queries, self.ztime, self.paths = 0, 0., 0

    def note(self, name, status, backend, detail, t=0.):
        o = self.obl.setdefault(name, {'function': self.function, 'name': name, 'status': 'proved', 'backend': backend,
                                       'time': 0., 'detail': None, 'instances': 0})
        o['instances'] += 1
        o['time'] += t
        rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
        if rank[status] > rank[o['status']]:
            o.update(status=status, detail=detail, backend=backend)

    def explore(self, deadline=None):
        global CUR
        t0 = time.time()
        stack = [[]]
        crash = None
        while stack:
            if self.paths >= self.max_paths or time.time() - t0 > self.limit or (deadline and time.time() > deadline):
                crash = f'exploration stopped after {self.paths} paths ({time.time() - t0:.0f}s)'
                break
            CUR = Ctx(self, stack.pop())
            for f in RESET:
                f()
            try:
                self.run(CUR)
            except PathEnd:
                pass
            except Unsupported as ex:
                self.unfit = isinstance(ex, NotThisWay)
                crash = f'not interpretable: {ex} @ {tb(ex)}'
                break
            except RecursionError as ex:
                crash = 'recursion limit'
                break
            except Exception as ex:
                # the layer or the code raised something the contract does not foresee
                if CUR.check(z3.BoolVal(True)) != z3.unsat:
                    crash = f'{type(ex).__name__}: {ex} @ {tb(ex)}; {CUR.where()}'
                    break
            self.paths += 1
            stack += CUR.alts
        CUR = None
        for g in self.goals:
            if g not in self.obl:
                self.obl[g] = {'function': self.function, 'name': g, 'status': 'undecided', 'backend': None, 'time': 0.,
                               'instances': 0, 'detail': (crash or 'never reached: vacuous')[:1500]}
        if not self.obl:
            self.note('contract', 'undecided', None, 'no obligation was generated')
        if crash:
            for o in self.obl.values():
                if o['status'] == 'proved':
                    o.update(status='undecided', detail=crash[:1500])
        tot = sum(o['time'] for o in self.obl.values())
        rest = max(0., self.ztime - tot)
        for o in self.obl.values():
            o['time'] += rest / len(self.obl)
        return list(self.obl.values())


def own_names():
    """the names of the classes that stand for values of the code"""
    if not OWN:
        for n, m in list(sys.modules.items()):
            if m is not None and (n == 'pv' or n.startswith('pv.')):
                OWN.update(k for k, v in m.__dict__.items() if isinstance(v, type) and getattr(v, '__module__', '').startswith('pv'))
        OWN.difference_update(('AST', 'Exception', 'Value'))
    return OWN


OWN = set()


def fair(ex):
    """an exception of the code itself; one that comes from what stands for its values means that the layer cannot interpret the
    code, and is passed on as that"""
    if isinstance(ex, (Unsupported, PathEnd)):
        raise ex
    if isinstance(ex, (TypeError, AttributeError, ValueError, NotImplementedError)):
        import re
        import traceback
        fr = traceback.extract_tb(ex.__traceback__)
        words = set(re.findall(r"\w+", str(ex)))
        if isinstance(ex, TypeError) and fr and '/pv/' in fr[-1].filename or words & own_names() and isinstance(ex, (TypeError, AttributeError)):
            raise Unsupported(f'{type(ex).__name__}: {ex} @ {tb(ex)}')
    return ex


def tb(ex):
    import traceback
    fr = traceback.extract_tb(ex.__traceback__)
    return ' < '.join(f'{f.filename.split("/")[-1]}:{f.lineno}:{f.name}' for f in reversed(fr[-6:]))


class Either(Unit):
    """the same contract with one of several candidate invariants: discharged when one of them discharges all of it"""

    def __init__(self, function, runs, goals=(), **k):
        super().__init__(function, runs[0], goals, **k)
        self.runs = list(runs)

    def explore(self, deadline=None):
        best, tot = {}, [0, 0., 0]
        for r in self.runs:
            self.run, self.obl, self.unfit = r, {}, False
            self.queries, self.ztime, self.paths = 0, 0., 0
            obs = super().explore(deadline)
            if all(o['status'] == 'proved' for o in obs):
                return obs
            if self.unfit and (best or r is not self.runs[-1]):
                continue
            rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
            for o in obs:
                b = best.get(o['name'])
                if b is None or rank[o['status']] < rank[b['status']]:
                    best[o['name']] = o
        out = list(best.values())
        if all(o['status'] == 'proved' for o in out):
            for o in out:
                o.update(status='undecided', detail='discharged with different invariants only')
        return out
