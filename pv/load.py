"""Load the current source of the modules under contract with numpy, scipy and chosen callees replaced by contracts.
The function bodies are the repository's own; the only rewriting is that a `for` loop whose range has a symbolic bound
is cut at the invariant registered for it (its body is executed unchanged on an arbitrary iteration)."""
import ast
import importlib
import os
import sys
import types
import numpy as _np
import scipy as _sp
import scipy.linalg as _la
from . import eng, npshim
from .eng import Unsupported, PathEnd

REPO = os.environ.get('PYNARE_REPO', '/repo')


def source(modname):
    p = os.path.join(REPO, *modname.split('.'))
    for f in (p + '.py', os.path.join(p, '__init__.py')):
        if os.path.exists(f):
            return f, open(f, encoding='utf8').read()
    raise Unsupported(f'no source for {modname}')


CODE = {}


def compiled(m, cut, whiles):
    if (m, cut, whiles) not in CODE:
        f, src = source(m)
        tree = ast.parse(src, f)
        if cut:
            tree = ast.fix_missing_locations(LoopCut(whiles).visit(tree))
        CODE[m, cut, whiles] = f, compile(tree, f, 'exec')
    return CODE[m, cut, whiles]


class LoopCut(ast.NodeTransformer):
    """for T in I: B   ->   loop over a concrete iterable, or one arbitrary iteration / the exit of a symbolic one"""

    def __init__(self, whiles=()):
        self.stack, self.count, self.whiles = [], {}, whiles
        self.n = 0

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def stored(self, body):
        names = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    m = n
                    while isinstance(m, (ast.Subscript, ast.Attribute)):
                        m = m.value
                    if isinstance(m, ast.Name):
                        names.add(m.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id not in ('np', 'numpy') and n.func.attr in ('append', 'extend', 'update', 'insert', 'pop', 'add', 'setdefault'):
                    names.add(n.func.value.id)
        return names

    def site(self):
        q = '.'.join(self.stack)
        k = self.count.get(q, 0)
        self.count[q] = k + 1
        return f'{q}#{k}'

    def visit_For(self, node):
        if not self.stack:
            return node
        site = self.site()
        self.n += 1
        i = self.n
        self.generic_visit(node)
        names = sorted(self.stored(node.body) | {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)})
        tmpl = f'''
_it{i} = _pv_iter(None)
if _pv_sym(_it{i}):
    _st{i} = _pv_enter({site!r}, _it{i}, locals(), {names!r})
    RESTORE
    if _st{i}.body:
        for _once in (0,):
            _T = _st{i}.item
            BODY
        else:
            _pv_leave(_st{i}, locals())
else:
    for __x in _it{i}:
        BODY
'''
        mod = ast.parse(tmpl)
        asg, iff = mod.body
        asg.value.args = [node.iter]
        sym, conc = iff.body, iff.orelse
        restore = [ast.parse(f"if {n!r} in _st{i}.vals: {n} = _st{i}.vals[{n!r}]").body[0] for n in names]
        inner = sym[2].body[0]
        import copy
        inner.body = [ast.Assign(targets=[copy.deepcopy(node.target)], value=ast.parse(f'_st{i}.item', mode='eval').body)] + copy.deepcopy(node.body)
        iff.body = [sym[0]] + restore + [sym[2]]
        if node.orelse:
            iff.body.append(ast.parse(f"_pv_unsupported('for-else')").body[0])
        loop = conc[0]
        loop.target, loop.body, loop.orelse = node.target, node.body, node.orelse
        for n in (asg, iff):
            ast.copy_location(n, node)
            for m in ast.walk(n):
                if not hasattr(m, 'lineno') or m.lineno < node.lineno:
                    m.lineno = m.end_lineno = node.lineno
                    m.col_offset = m.end_col_offset = 0
        return [asg, iff]

    def visit_ListComp(self, node):
        """[e for x in I]: element by element over a concrete iterable, the list of all e(x) over a symbolic one"""
        self.generic_visit(node)
        g = node.generators
        names = [g[0].target] if isinstance(g[0].target, ast.Name) else getattr(g[0].target, 'elts', [])
        if not self.stack or len(g) != 1 or g[0].ifs or g[0].is_async or not names or not all(isinstance(n, ast.Name) for n in names):
            return node
        f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n.id) for n in names], kwonlyargs=[], kw_defaults=[],
                                          defaults=[]), body=node.elt)
        out = ast.Call(func=ast.Name(id='_pv_map', ctx=ast.Load()),
                       args=[g[0].iter, f, ast.Constant(isinstance(g[0].target, ast.Name))], keywords=[])
        ast.copy_location(out, node)
        for n in ast.walk(out):
            if not hasattr(n, 'lineno') and hasattr(n, '_attributes') and 'lineno' in n._attributes:
                ast.copy_location(n, node)
        return out

    def visit_GeneratorExp(self, node):
        out = self.visit_ListComp(node)
        if isinstance(out, ast.Call):
            out.func.id = '_pv_gen'
        return out

    def visit_Dict(self, node):
        """{**a, k: v}"""
        self.generic_visit(node)
        if not self.stack or all(k is not None for k in node.keys):
            return node
        parts = [v if k is None else ast.Dict(keys=[k], values=[v]) for k, v in zip(node.keys, node.values)]
        return ast.fix_missing_locations(ast.copy_location(ast.Call(func=ast.Name(id='_pv_merge', ctx=ast.Load()), args=parts, keywords=[]), node))

    def visit_List(self, node):
        """[*a, x]"""
        self.generic_visit(node)
        if not self.stack or not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        parts = [ast.Tuple(elts=[ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load())
                 for e in node.elts]
        return ast.fix_missing_locations(ast.copy_location(ast.Call(func=ast.Name(id='_pv_cat', ctx=ast.Load()), args=parts, keywords=[]), node))

    def visit_DictComp(self, node):
        """{k: v for x in I if c}: entry by entry over a concrete iterable, by look-up over a symbolic one"""
        self.generic_visit(node)
        g = node.generators
        names = [g[0].target] if isinstance(g[0].target, ast.Name) else getattr(g[0].target, 'elts', [])
        if not self.stack or len(g) != 1 or g[0].is_async or not names or not all(isinstance(n, ast.Name) for n in names):
            return node
        val = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        for t in g[0].ifs[::-1]:
            val = ast.IfExp(test=t, body=val, orelse=ast.Constant(None))
        f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n.id) for n in names], kwonlyargs=[], kw_defaults=[],
                                          defaults=[]), body=val)
        out = ast.Call(func=ast.Name(id='_pv_dmap', ctx=ast.Load()),
                       args=[g[0].iter, f, ast.Constant(isinstance(g[0].target, ast.Name))], keywords=[])
        ast.copy_location(out, node)
        for n in ast.walk(out):
            if not hasattr(n, 'lineno') and hasattr(n, '_attributes') and 'lineno' in n._attributes:
                ast.copy_location(n, node)
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.stack or len(node.ops) != 1 or not isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return node
        call = ast.Call(func=ast.Name(id='_pv_in', ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
        out = ast.UnaryOp(op=ast.Not(), operand=call) if isinstance(node.ops[0], ast.NotIn) else call
        return ast.fix_missing_locations(ast.copy_location(out, node))

    def visit_While(self, node):
        if not self.stack:
            return node
        site = self.site()
        if not any(w == '*' or site == w or site.endswith('.' + w) for w in self.whiles):
            self.generic_visit(node)
            return node
        self.n += 1
        i = self.n
        self.generic_visit(node)
        names = sorted(self.stored(node.body))
        tmpl = f'''
_st{i} = _pv_enter({site!r}, None, locals(), {names!r}, None)
RESTORE
if _pv_cond(_st{i}):
    for _once in (0,):
        BODY
    else:
        _pv_leave(_st{i}, locals())
else:
    _pv_exit(_st{i})
'''
        mod = ast.parse(tmpl)
        restore = [ast.parse(f"if {n!r} in _st{i}.vals: {n} = _st{i}.vals[{n!r}]").body[0] for n in names]
        iff = mod.body[2]
        iff.test = node.test
        import copy
        if not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node.test)):
            mod.body[0].value.args[4] = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                   body=copy.deepcopy(node.test))
        iff.body[0].body = node.body
        out = [mod.body[0]] + restore + [iff]
        for n in out:
            ast.copy_location(n, node)
            for m in ast.walk(n):
                if not hasattr(m, 'lineno') or m.lineno < node.lineno:
                    m.lineno = m.end_lineno = node.lineno
                    m.col_offset = m.end_col_offset = 0
        return out


class SymList:
    """the list of f(x) for x over a symbolic iterable"""
    __pv__ = True

    def __init__(self, it, f):
        self.it, self.f = it, f

    def __iter__(self):
        raise Unsupported('iteration over a list of unknown length')

    def __getattr__(self, a):
        raise Unsupported(f'{a} of a list of unknown length')


def sym_map(it, f, single=True):
    if not single:
        h = f
        f = lambda t: h(*t)
    if getattr(it, '__pv__', False) and not getattr(it, '__pv_concrete__', False):
        if hasattr(it, 'pv_map'):
            return it.pv_map(f)
        return SymList(it, f)
    return [f(x) for x in it]


def sym_gen(it, f, single=True):
    if getattr(it, '__pv__', False) and not getattr(it, '__pv_concrete__', False):
        return sym_map(it, f, single)
    return (f(x) for x in it) if single else (f(*x) for x in it)


def merge(*parts):
    for p in parts:
        if hasattr(type(p), 'pv_merge'):
            return type(p).pv_merge(parts)
    out = {}
    for p in parts:
        out = {**out, **p}
    return out


def cat(*parts):
    if any(star and getattr(x, '__pv__', False) and not getattr(x, '__pv_concrete__', False) for star, x in parts):
        from .seqs import chain
        return chain(parts)
    out = []
    for star, x in parts:
        if star:
            out.extend(x)
        else:
            out.append(x)
    return out


def sym_dmap(it, f, single):
    g = f if single else (lambda t: f(*t))
    if getattr(it, '__pv__', False) and not getattr(it, '__pv_concrete__', False):
        if hasattr(it, 'pv_dmap'):
            return it.pv_dmap(g)
        if hasattr(getattr(it, 'it', None), 'pv_enum_dmap'):
            return it.it.pv_enum_dmap(g, it.start)
        from .tree import DMap
        return DMap(it, g)
    out = {}
    for x in it:
        r = g(x)
        if r is not None:
            out[r[0]] = r[1]
    return out


class LoopState:
    def __init__(self, site, it, handler):
        self.site, self.it, self.h = site, it, handler
        self.vals, self.body, self.item = {}, False, None


IN = []


def pv_in(a, b):
    return IN[0](a, b) if IN else a in b


class World:
    """the modules under contract, loaded together so that they refer to one another"""

    def __init__(self, mods, contracts=None, loops=None, whiles=(), cut=True, glob=None, shim=True):
        self.mods, self.loops = {}, dict(loops or {})
        rev = npshim.reverse() if shim else {}
        contracts = dict(contracts or {})
        real = {}
        for m in mods:
            real[m] = importlib.import_module(m)
        parents = []
        try:
            for m in mods:
                f, code = compiled(m, cut, tuple(whiles))
                mod = types.ModuleType(m)
                mod.__file__ = f
                mod.__package__ = m.rpartition('.')[0] if not f.endswith('__init__.py') else m
                mod.__dict__.update(self.hooks())
                exec(code, mod.__dict__)
                # base classes come from the modules loaded here
                self.mods[m] = sys.modules[m] = mod
                p, _, last = m.rpartition('.')
                if p and getattr(sys.modules.get(p), last, None) is real[m]:
                    parents.append((sys.modules[p], last, real[m]))
                    setattr(sys.modules[p], last, mod)
        finally:
            sys.modules.update(real)
            for p, last, o in parents:
                setattr(p, last, o)
        # references
        swap = {}
        if shim:
            swap = {id(_np): npshim.NP, id(_sp): npshim.SP, id(_la): npshim.LA, id(_np.linalg): npshim.NPLA}
        for m in mods:
            swap[id(real[m])] = self.mods[m]
            for n, v in real[m].__dict__.items():
                if getattr(v, '__module__', None) == m and n in self.mods[m].__dict__:
                    swap[id(v)] = self.mods[m].__dict__[n]
        for m, mod in self.mods.items():
            d = mod.__dict__
            for n in list(d):
                if n.startswith('__'):
                    continue
                v = d[n]
                if id(v) in swap:
                    d[n] = swap[id(v)]
                elif id(v) in rev and not isinstance(v, types.ModuleType):
                    d[n] = rev[id(v)]
            if shim:
                for n, v in npshim.BUILTINS.items():
                    d.setdefault(n, v)
            d.update(glob or {})
        for q, f in contracts.items():
            self.patch(q, f)

    def patch(self, q, f):
        """q = module:attribute[.attribute]"""
        m, a = q.split(':')
        o = self.mods[m]
        *path, last = a.split('.')
        for p in path:
            o = getattr(o, p)
        old = getattr(o, last, None)
        if old is None:
            raise Unsupported(f'{q} is not there any more')
        if isinstance(o, types.ModuleType):
            for mod in self.mods.values():
                for n, v in list(mod.__dict__.items()):
                    if v is old:
                        mod.__dict__[n] = f
        else:
            setattr(o, last, f)

    def __getitem__(self, q):
        m, _, a = q.partition(':')
        o = self.mods[m]
        for p in a.split('.') if a else ():
            if not hasattr(o, p):
                raise Unsupported(f'{q} is not there any more')
            o = getattr(o, p)
        return o

    # -- loop hooks
    def hooks(self):
        return {'_pv_iter': lambda x: x, '_pv_map': sym_map, '_pv_gen': sym_gen, '_pv_merge': merge, '_pv_cat': cat, '_pv_in': pv_in, '_pv_dmap': sym_dmap,
                '_pv_sym': lambda x: getattr(x, '__pv__', False) and not getattr(x, '__pv_concrete__', False),
                '_pv_enter': self.enter, '_pv_leave': self.leave, '_pv_cond': lambda st: None, '_pv_exit': self.exit,
                '_pv_unsupported': self.unsupported}

    def unsupported(self, what):
        raise Unsupported(what)

    def handler(self, site):
        for k, h in self.loops.items():
            if site == k or site.endswith('.' + k):
                return h
        fn = site.split('#')[0].split('.')[-1]
        for k, h in self.loops.items():
            if k == fn:
                return h
        h = self.loops.get('*')
        if h:
            return h
        raise Unsupported(f'no invariant for the loop {site}')

    def enter(self, site, it, env, names, test=None):
        h = self.handler(site)
        st = LoopState(site, it, h)
        st.names, st.test = names, test
        h(self, st, 'enter', env)
        return st

    def leave(self, st, env):
        if getattr(st, 'peel', False):
            # the last iteration of the loop: what follows it goes on from here
            st.h(self, st, 'peeled', env)
            return
        st.h(self, st, 'leave', env)
        raise PathEnd()

    def exit(self, st):
        st.h(self, st, 'exit', None)
