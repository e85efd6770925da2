"""Loads the modules of /repo/acetn for symbolic execution.

The source text of each module is parsed, rewritten mechanically (below) and executed by CPython in its own module
registry, with torch replaced by acev.symtorch.  Nothing of the source is left out; what the rewriting changes:

  for t in it: body      ->  driver loop (acev.conts.ForLoop), the body unchanged; native iteration when `it` is concrete
  while c: body          ->  same, with a step limit (exceeding it makes the unit undecided)
  while c < n: ..; c += 1 -> the loop over range(c, n); that n stays the same is checked after each iteration
  [e for ..], (e for ..) ->  acev.conts.comp over the same iterables, conditions and element expression
  {k: v for ..}          ->  the same for dictionaries
  [a, b], {k: v}         ->  acev list and dictionary objects (same interface, symbolic keys and lengths)
  except handlers        ->  engine exceptions pass through
  builtins range, len, min, max, abs, int, float, sum, isinstance, list, tuple, dict, sorted, reversed, enumerate, zip,
  any, all, print, round, pow and the math functions accept symbolic values
"""
import ast
import builtins as _bi
import copy
import importlib
import os
import types
from fractions import Fraction
from . import tens as T
from . import symtorch as st
from . import conts as ct
from .core import ieq, SymInt, SymRat, SymBool, Unsupported, PathEnd, Infeasible, CTX, imin, imax, ile, ifloordiv
from .symtorch import STensor
from .conts import SymDict, SymList, ForLoop, UNDEF, Poison

REPO = os.environ.get('ACEV_REPO', '/repo')


# ------------------------------------------------------------------ rewriting

def _stores(body):
    """Names assigned in statements, not entering nested scopes."""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def walk(node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(node.name)
            return
        if isinstance(node, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
            add(node.id)
        if isinstance(node, ast.ExceptHandler) and node.name:
            pass
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            for a in node.names:
                add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(node):
            walk(c)
    for s in body:
        walk(s)
    return out


def _name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def _call(f, *args):
    return ast.Call(_name(f), list(args), [])


def _const(v):
    return ast.Constant(v)


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return f'__acev_{p}{self.n}__'

    # -- loops
    def visit_For(self, node):
        targets = _stores([ast.Expr(node.target)]) if False else [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
        names = [n for n in _stores(node.body) if n not in targets and not n.startswith('__acev_')]
        node.iter = self.visit(node.iter)
        node.body = [y for x in node.body for y in _as_list(self.visit(x))]
        node.orelse = [y for x in node.orelse for y in _as_list(self.visit(x))]
        h = self.fresh('h')
        tup = ast.Tuple([_const(n) for n in names], ast.Load())
        mk = ast.Assign([_name(h, ast.Store())], _call('__acev_for__', node.iter, tup))

        def sync(meth, all_names):
            loc = _call('__acev_loc__', ast.Call(_name('locals'), [], []), ast.Tuple([_const(n) for n in names], ast.Load()))
            c = ast.Call(ast.Attribute(_name(h), meth, ast.Load()), [ast.Starred(loc, ast.Load())], [])
            body = [ast.Assign([ast.Tuple([_name(n, ast.Store()) for n in names], ast.Store())], c)] if names else [ast.Expr(c)]
            if meth == 'exit':
                for t in targets:
                    body.append(ast.Assign([_name(t, ast.Store())], ast.Call(ast.Attribute(_name(h), 'last', ast.Load()), [_call('__acev_loc__', ast.Call(_name('locals'), [], []), ast.Tuple([_const(t)], ast.Load()))], [])))
            return ast.If(ast.Attribute(_name(h), 'sym', ast.Load()), body, [])
        node.iter = _name(h)
        node.body = [sync('top', names)] + node.body
        return [mk, node, sync('exit', names)]

    def _counting(self, node):
        """while c < bound: ...; c += 1  as a loop over range(c, bound); that the bound stays the same is checked at run time."""
        t, last = node.test, node.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)) or node.orelse:
            return None
        c, e = t.left.id, t.comparators[0]
        one = lambda x: isinstance(x, ast.Constant) and x.value == 1 and type(x.value) is int
        inc = (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == c and one(last.value)) or \
              (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == c
               and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name)
               and last.value.left.id == c and one(last.value.right))
        body = node.body[:-1]
        st_ = _stores(body)

        def continues(n):
            if isinstance(n, ast.Continue):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                return False
            return any(continues(x) for x in ast.iter_child_nodes(n))
        if not inc or c in st_ or any(continues(x) for x in body):
            return None
        if any(isinstance(x, ast.Name) and x.id in st_ + [c] for x in ast.walk(e)) or any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Yield)) for x in ast.walk(e)):
            return None
        c0, hi, end = self.fresh('c'), self.fresh('c'), self.fresh('c')
        top = ast.BinOp(e, ast.Add(), _const(1)) if isinstance(t.ops[0], ast.LtE) else e
        pre = [ast.Assign([_name(c0, ast.Store())], _name(c)), ast.Assign([_name(hi, ast.Store())], self.visit(copy.deepcopy(top))),
               ast.Assign([_name(end, ast.Store())], _const(None))]
        body = body + [ast.Expr(_call('__acev_same__', _name(hi), copy.deepcopy(top)))]
        loop = ast.For(ast.Name(c, ast.Store()), _call('range', _name(c0), _name(hi)), body, [ast.Assign([_name(end, ast.Store())], _call('max', _name(c0), _name(hi)))])
        after = ast.If(ast.Compare(_name(end), [ast.IsNot()], [_const(None)]), [ast.Assign([_name(c, ast.Store())], _name(end))], [])
        return pre + self.visit_For(loop) + [after]

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'zip' and len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords:
            return _call('__acev_unzip__', node.args[0].value)
        return node

    def visit_While(self, node):
        r = self._counting(node)
        if r is not None:
            return r
        self.generic_visit(node)
        w = self.fresh('w')
        node.body = [ast.Expr(_call(w))] + node.body
        return [ast.Assign([_name(w, ast.Store())], _call('__acev_while__')), node]

    # -- literals
    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        if any(isinstance(e, ast.Starred) for e in node.elts):
            items = [ast.Tuple([_const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in node.elts]
            return _call('__acev_mklist__', *items)
        return _call('__acev_list__', ast.List(node.elts, ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = [ast.Tuple([_const(k is None), k if k is not None else _const(None), v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return _call('__acev_mkdict__', *items)

    # -- comprehensions
    def _gens(self, gens, elts):
        gens = list(gens)
        pats, params, seen = [], [], {}
        out = []

        def pat(t):
            if isinstance(t, ast.Name):
                if t.id in params:
                    params[params.index(t.id)] = self.fresh('dup')
                params.append(t.id)
                return _const(1)
            if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                return ast.Tuple([pat(e) for e in t.elts], ast.Load())
            raise SyntaxError('comprehension target')

        def lam(body):
            return ast.Lambda(ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body)
        for g in gens:
            if g.is_async:
                raise SyntaxError('async comprehension')
            it = lam(self.visit(g.iter))
            p = pat(g.target)
            conds = [lam(self.visit(c)) for c in g.ifs]
            out.append(ast.Tuple([it, ast.List(conds, ast.Load()), p], ast.Load()))
        return ast.List(out, ast.Load()), lam(elts())

    def visit_ListComp(self, node):
        g, e = self._gens(node.generators, lambda: self.visit(node.elt))
        return _call('__acev_comp__', g, e)

    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, node):
        return ast.Call(_name('set'), [self.visit_ListComp(node)], [])

    def visit_DictComp(self, node):
        g, e = self._gens(node.generators, lambda: ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()))
        return _call('__acev_dcomp__', g, e)

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(_name('__acev_engine_errors__'), None, [ast.Raise(None, None)])
            node.handlers = [h] + node.handlers
        return node


def _as_list(x):
    return x if isinstance(x, list) else [] if x is None else [x]


_code_cache = {}


def compile_module(path):
    src = open(path).read()
    k = (path, src)
    if k not in _code_cache:
        tree = ast.parse(src, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        _code_cache[k] = compile(tree, path, 'exec')
    return _code_cache[k]


# ------------------------------------------------------------------ runtime helpers

def _loc(d, names):
    return tuple(d.get(n, UNDEF) for n in names)


def _mklist(*items):
    r = SymList()
    for star, x in items:
        if star:
            r.extend(x)
        else:
            r.append(x)
    return r


def _mkdict(*items):
    r = SymDict()
    for star, k, v in items:
        if star:
            r.update(v)
        else:
            r[k] = v
    return r


def _dcomp(gens, elt):
    out = SymDict()

    def put(*b):
        k, v = elt(*b)
        out[k] = v
        return None
    ct.comp(gens, put)
    return out


class _While:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        if self.n > 3000:
            raise Unsupported('while loop does not end within 3000 steps')


# ------------------------------------------------------------------ builtins

def b_len(x):
    if isinstance(x, SymList):
        return x.length()
    if isinstance(x, STensor):
        return x._sh[0]
    if isinstance(x, (ct.SymVector, ct.SymRange)):
        return x.length()
    if isinstance(x, SymDict) and x._items() is None:
        return x.keys().length()
    return len(x)


def _num(x):
    return x.int_ if isinstance(x, STensor) and x.int_ is not None else x


def _minmax(f, native):
    def g(*a, **k):
        if len(a) == 1:
            a = tuple(a[0]) if not isinstance(a[0], SymList) or a[0].parts is None else _bad('min/max of a symbolic list')
            if not a and 'default' in k:
                return k['default']
        if k.get('key') is not None:
            return native(a, key=k['key'])
        a = [_num(x) for x in a]
        if all(isinstance(x, (int, SymInt)) for x in a):
            r = a[0]
            for y in a[1:]:
                r = f(r, y)
            return r
        if any(isinstance(x, (STensor, SymRat)) for x in a):
            # decided by comparison
            r = a[0]
            for y in a[1:]:
                if (y < r) if native is min else (y > r):
                    r = y
            return r
        return native(*a)
    return g


def _bad(m):
    raise Unsupported(m)


def b_abs(x):
    if isinstance(x, STensor):
        return abs(x)
    return abs(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SymInt))

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


def b_int(x=0, *a):
    x = _num(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymRat):
        return int(x) if not hasattr(x, '__int__') else x.__int__()
    if isinstance(x, STensor):
        raise Unsupported('int() of a tensor')
    return int(x, *a)


b_int._acev_type = int


def b_float(x=0.0):
    if isinstance(x, STensor):
        return x.item()
    if isinstance(x, SymInt):
        return STensor(st.as_tv(x), st.float64)
    if isinstance(x, SymRat):
        return x.scalar()
    return float(x)


b_float._acev_type = float


def b_sum(x, start=0):
    if isinstance(x, STensor):
        return st.sum_(x, 0)
    if isinstance(x, SymDict):
        x = x.keys()
    if isinstance(x, SymList) and x.parts is not None:
        r = start
        for p in x.parts:
            if p[0] == 'e':
                r = r + p[1]
            else:
                v = p[2]
                r = r + STensor(ct.sigma(p[1], st.as_tv(v)), getattr(v, 'dtype', st.float64))
        return r
    return sum(x, start)


def b_isinstance(x, c):
    if isinstance(c, tuple):
        return any(b_isinstance(x, y) for y in c)
    if c is b_int or c is int:
        return isinstance(x, (int, SymInt))
    if c is b_float or c is float:
        return isinstance(x, (float, Fraction))
    if c is b_dict or c is dict:
        return isinstance(x, (dict, SymDict))
    if c is b_list or c is list:
        return isinstance(x, list)
    if c is b_tuple:
        return isinstance(x, tuple)
    if getattr(c, '__module__', '') == 'numbers':
        return isinstance(x, c) or isinstance(x, SymInt)
    return isinstance(x, c)


def b_list(x=()):
    if isinstance(x, SymList):
        return x.copy()
    r = SymList()
    r.extend(_seq(x))
    return r


def _seq(x):
    if isinstance(x, SymDict):
        return x.keys()
    if isinstance(x, ct._SymIter):
        r = SymList()
        r._setparts(x.parts())
        return r
    if isinstance(x, ct.SymRange):
        r = SymList()
        r._setparts(x._parts())
        return r
    if isinstance(x, STensor):
        return list(iter(x))
    return x


def b_tuple(x=()):
    x = _seq(x)
    if isinstance(x, SymList) and x.parts is not None:
        raise Unsupported('tuple of a symbolic sequence')
    return tuple(x)


def b_dict(*a, **k):
    r = SymDict()
    if a:
        r.update(a[0] if hasattr(a[0], 'items') else list(a[0]))
    for x, y in k.items():
        r[x] = y
    return r


def b_reversed(x):
    if isinstance(x, ct.SymRange):
        return reversed(x)
    if isinstance(x, SymList) and x.parts is not None:
        y = x.copy()
        y.reverse()
        return y
    return reversed(x)


def b_enumerate(x, start=0):
    x = _seq(x)
    if (isinstance(x, SymList) and x.parts is not None) or isinstance(x, ct.SymRange):
        return ct._SymIter('enumerate', (x, start))
    return enumerate(x, start)


def b_zip(*a, **k):
    a = [_seq(x) for x in a]
    if any(isinstance(x, SymList) and x.parts is not None for x in a) or any(isinstance(x, ct.SymRange) for x in a):
        return _zip_parts(a)
    return zip(*a, **k)


def _zip_parts(seqs):
    """zip of lists made of the same segments."""
    ps = [ct.to_parts(x) for x in seqs]
    if any(len(p) != len(ps[0]) for p in ps):
        raise Unsupported('zip over sequences of different structure')
    out = []
    for cur in zip(*ps):
        if all(p[0] == 'e' for p in cur):
            out.append(('e', tuple(p[1] for p in cur)))
            continue
        if any(p[0] == 'e' or len(p[1]) != len(cur[0][1]) for p in cur):
            raise Unsupported('zip over sequences of different structure')
        vs, items = cur[0][1], []
        for p in cur:
            m = {}
            for (v0, lo0, hi0), (v, lo, hi) in zip(vs, p[1]):
                if not ieq(hi0 - lo0, hi - lo):
                    raise Unsupported('zip over sequences of different length')
                if v != v0 or not ieq(lo, lo0):
                    m[v] = SymInt({((v0, 1),): 1}) + (lo - lo0)
            items.append(ct.vsubst(p[2], m) if m else p[2])
        out.append(('s', vs, tuple(items)))
    r = SymList()
    r._setparts(out)
    return r


def _unzip(x):
    """zip(*x)."""
    if not (isinstance(x, SymList) and x.parts is not None):
        return b_zip(*x)
    n = {len(p[-1]) if isinstance(p[-1], (tuple, list)) else None for p in x.parts}
    if len(n) != 1 or None in n:
        raise Unsupported('zip(*symbolic list)')
    out = []
    for j in range(n.pop()):
        r = SymList()
        r._setparts([p[:-1] + (p[-1][j],) for p in x.parts])
        out.append(r)
    return tuple(out)


def _same(a, b):
    if not (a is b or (isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and ieq(a, b))):
        raise Unsupported('bound of a counting while loop changes')


def b_sorted(x, *a, **k):
    x = _seq(x)
    if isinstance(x, SymList) and x.parts is not None:
        raise Unsupported('sorted symbolic sequence')
    return SymList(sorted(x, *a, **k))


def b_any(x):
    x = _seq(x)
    if isinstance(x, SymList) and x.parts is not None:
        raise Unsupported('any over a symbolic sequence')
    return any(x)


def b_all(x):
    x = _seq(x)
    if isinstance(x, SymList) and x.parts is not None:
        raise Unsupported('all over a symbolic sequence')
    return all(x)


def b_iter(x, *a):
    if isinstance(x, SymList) and x.parts is not None:
        raise Unsupported('explicit iterator over a symbolic list')
    return iter(x, *a)


def b_round(x, n=None):
    if isinstance(x, (SymInt, STensor, SymRat)):
        raise Unsupported('round')
    return round(x, n)


def b_map(f, *seqs):
    seqs = [_seq(x) for x in seqs]
    if len(seqs) == 1:
        return ct.comp([(lambda: seqs[0], [], 1)], lambda x: f(x))
    return SymList(map(f, *seqs))


def b_filter(f, x):
    x = _seq(x)
    if isinstance(x, SymList) and x.parts is not None:
        raise Unsupported('filter over a symbolic sequence')
    return SymList(filter(f, x))


def _math():
    import math
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('_'):
            setattr(m, n, getattr(math, n))

    def wrap(n):
        f = getattr(math, n)

        def g(x, *a):
            x = _num(x)
            if isinstance(x, SymInt):
                if n in ('ceil', 'floor', 'trunc'):
                    return x
                x = STensor(st.as_tv(x), st.float64)
            if isinstance(x, SymRat):
                if n in ('ceil', 'floor', 'trunc'):
                    return getattr(x, f'__{n}__')()
                x = x.scalar()
            if isinstance(x, STensor):
                h = getattr(st, n, None)
                if n not in ('sqrt', 'exp') or h is None:
                    raise Unsupported('math.' + n)
                return h(x)
            return f(x, *a)
        return g
    for n in ('ceil', 'floor', 'trunc', 'sqrt', 'exp', 'log'):
        setattr(m, n, wrap(n))

    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r
    m.prod = prod
    return m


# ------------------------------------------------------------------ other modules

class _Pbar:
    def __init__(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass

    def close(self, *a):
        pass

    def set_description(self, *a, **k):
        pass

    set_postfix = set_postfix_str = refresh = set_description

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Tqdm:
    def __call__(self, iterable=None, *a, **k):
        CTX().data.setdefault('tqdm', []).append(k)
        return _Pbar() if iterable is None else iterable

    def write(self, *a, **k):
        pass


def _tqdm_module():
    m = types.ModuleType('tqdm')
    m.tqdm = _Tqdm()
    m.trange = lambda *a, **k: m.tqdm(ct.sym_range(*a), **k)
    m.auto = m
    m.__path__ = []
    return m


class FakeDist:
    """torch.distributed: the group operations are supplied by the unit through ctx.data['dist']."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            d = CTX().data.get('dist')
            if d is None or not hasattr(d, name):
                raise Unsupported(f'torch.distributed.{name}')
            return getattr(d, name)(*a, **k)
        return f


def _logging():
    import logging
    m = types.ModuleType('logging')

    class L:
        def isEnabledFor(self, l):
            return CTX().data.get('debug_log', False)

        def __getattr__(self, n):
            return lambda *a, **k: None
    for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
        setattr(m, n, getattr(logging, n))
    m.getLogger = lambda *a: L()
    m.StreamHandler = lambda *a: L()
    m.Formatter = lambda *a: None
    m.FileHandler = lambda *a: L()
    return m


def _time():
    m = types.ModuleType('time')

    def t():
        return 0.0
    m.time = m.perf_counter = m.monotonic = m.process_time = t
    m.sleep = lambda *a: None
    return m


def _os(env):
    m = types.ModuleType('os')
    m.environ = env
    m.getenv = lambda k, d=None: env.get(k, d)
    m.path = os.path
    m.cpu_count = lambda: CTX().data.get('cpu_count', 8)
    m.getpid = lambda: 1
    return m


STD = {'dataclasses', 'typing', 'abc', 'functools', 'itertools', 'operator', 'collections', 'collections.abc', 'enum', 'numbers', 'warnings', 'cmath',
       '__future__', 'builtins', 'fractions', 'types', 'contextlib', 'string', 're', 'inspect', 'weakref'}


def _copy_module():
    import copy
    m = types.ModuleType('copy')

    def cp(x):
        if isinstance(x, SymDict):
            return x.copy()
        if isinstance(x, (SymList, list)):
            return x.copy()
        if isinstance(x, STensor):
            return x.__class__._shallow(x) if hasattr(x, '_shallow') else _shallow_tensor(x)
        if getattr(type(x), '_acev_inst', False):
            if hasattr(x, '__copy__'):
                return x.__copy__()
            r = type(x).__new__(type(x)) if type(x).__new__ is not object.__new__ else object.__new__(type(x))
            b = r.__dict__.get('_acev_birth')
            r.__dict__.update({k: v for k, v in x.__dict__.items() if k != '_acev_birth'})
            if b is not None:
                r.__dict__['_acev_birth'] = b
            return r
        return copy.copy(x)

    def dcp(x, memo=None):
        memo = {} if memo is None else memo
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, STensor):
            r = x.clone()
        elif getattr(type(x), '_acev_inst', False):
            if hasattr(x, '__deepcopy__'):
                return x.__deepcopy__(memo)
            r = object.__new__(type(x))
            memo[id(x)] = r
            for k, v in x.__dict__.items():
                r.__dict__[k] = dcp(v, memo) if k != '_acev_birth' else st._tick()
        elif isinstance(x, SymDict):
            x._settled()
            r = SymDict()
            memo[id(x)] = r
            r.log = [tuple(dcp(y, memo) if i else y for i, y in enumerate(p)) if p[0] == 'e' else (p[0], p[1], dcp(p[2], memo), dcp(p[3], memo)) for p in x.log]
        elif isinstance(x, SymList):
            r = SymList()
            memo[id(x)] = r
            if x.parts is None:
                for y in list.__iter__(x):
                    list.append(r, dcp(y, memo))
            else:
                r._setparts([(p[0], dcp(p[1], memo)) if p[0] == 'e' else (p[0], p[1], dcp(p[2], memo)) for p in x.parts])
        elif isinstance(x, (SymInt, T.TV)) or callable(x):
            r = x
        elif isinstance(x, tuple):
            r = tuple(dcp(y, memo) for y in x)
        else:
            r = copy.deepcopy(x, memo)
        memo[id(x)] = r
        return r
    m.copy, m.deepcopy = cp, dcp
    m.error = m.Error = Exception
    return m


def _shallow_tensor(x):
    return x.view_as(x) if hasattr(x, 'view_as') else x[...]


class Loader:
    """One module registry: a fresh import of the package."""

    def __init__(self, env=None, torch=None):
        self.mods = {}
        self.env = SymDict() if env is None else env
        self.torch = torch or st.make_torch()
        t = self.torch
        dist = types.ModuleType('torch.distributed')
        fd = FakeDist()
        dist.__getattr__ = lambda n: getattr(fd, n)
        dist.is_available = lambda: True
        t.distributed = dist
        el = types.ModuleType('torch.distributed.elastic')
        mp = types.ModuleType('torch.distributed.elastic.multiprocessing')
        er = types.ModuleType('torch.distributed.elastic.multiprocessing.errors')
        er.record = lambda f: f
        mp.errors, el.multiprocessing, dist.elastic = er, mp, el
        t.save = lambda obj, f, **k: CTX().data.setdefault('files', {}).__setitem__(f, _pickle(obj))
        t.load = lambda f, **k: _unpickle(CTX().data.setdefault('files', {})[f])
        toml = types.ModuleType('toml')
        toml.dumps = lambda *a, **k: ''
        self.ext = {'torch': t, 'torch.linalg': t.linalg, 'torch.cuda': t.cuda, 'torch.cuda.nvtx': t.cuda.nvtx, 'torch.distributed': dist,
                    'torch._C': t._C, 'torch.distributed.elastic': el, 'torch.distributed.elastic.multiprocessing': mp,
                    'torch.distributed.elastic.multiprocessing.errors': er, 'tqdm': _tqdm_module(), 'toml': toml, 'math': _math(), 'time': _time(),
                    'logging': _logging(), 'os': _os(self.env), 'copy': _copy_module()}
        self.ext['tqdm.auto'] = self.ext['tqdm']
        b = dict(vars(_bi))
        b.update(range=ct.sym_range, len=b_len, min=_minmax(imin, min), max=_minmax(imax, max), int=b_int, float=b_float, sum=b_sum,
                 isinstance=b_isinstance, list=b_list, tuple=b_tuple, dict=b_dict, sorted=b_sorted, reversed=b_reversed, enumerate=b_enumerate,
                 zip=b_zip, any=b_any, all=b_all, print=lambda *a, **k: None, iter=b_iter, round=b_round, map=b_map, filter=b_filter,
                 __import__=self._import,
                 __acev_for__=ForLoop, __acev_loc__=_loc, __acev_while__=_While, __acev_unzip__=_unzip, __acev_same__=_same, __acev_comp__=ct.comp, __acev_dcomp__=_dcomp, __acev_list__=SymList,
                 __acev_mklist__=_mklist, __acev_mkdict__=_mkdict, __acev_engine_errors__=(Unsupported, PathEnd, Infeasible))
        for k in ('open', 'exec', 'eval', 'input', 'breakpoint'):
            b[k] = (lambda n: lambda *a, **kw: _bad(f'builtin {n}'))(k)
        self.builtins = b

    # -- imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'acetn':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == '*':
                        continue
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if name in self.ext:
            return self.ext[name] if fromlist else self.ext[top]
        if top == 'torch':
            raise ImportError(f'{name} is not modelled')
        if name in STD:
            m = importlib.import_module(name)
            return m if fromlist else importlib.import_module(top)
        if name in ('numpy',):
            raise Unsupported('numpy')
        raise Unsupported(f'import of {name}')

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        parent = None
        if len(parts) > 1:
            parent = self.load('.'.join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        path = os.path.join(REPO, *parts)
        if os.path.isdir(path) and os.path.exists(os.path.join(path, '__init__.py')):
            f, pkg = os.path.join(path, '__init__.py'), True
        elif os.path.exists(path + '.py'):
            f, pkg = path + '.py', False
        elif parts[-1].startswith('_C_'):
            raise ImportError(name)
        else:
            raise ModuleNotFoundError(f'No module named {name!r}')
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pkg else '.'.join(parts[:-1])
        if pkg:
            m.__path__ = [path]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        code = compile_module(f)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and v.__module__ == name and not issubclass(v, (BaseException, type)):
                try:
                    if not issubclass(v, (int, str, list, tuple, dict)):
                        ct.instrument_class(v)
                except TypeError:
                    pass
        if parent is not None:
            setattr(parent, parts[-1], m)
        return m

    def __call__(self, name, attr=None):
        """Module or attribute: L('acetn.measurement.rdm', 'RDM')."""
        self.load('acetn.ipeps')
        m = self.load(name)
        if attr is None:
            return m
        try:
            return getattr(m, attr)
        except AttributeError:
            raise Unsupported(f'{name}.{attr} is not there')


def _pickle(obj):
    """A snapshot with its own tensors, as a file would hold."""
    return _copy_module().deepcopy(obj)


def _unpickle(obj):
    return _copy_module().deepcopy(obj)
