"""Path exploration, symbolic integers and booleans, obligations."""
from fractions import Fraction
import itertools
import os
import time
import z3


class Unsupported(Exception):
    """The engine cannot interpret what the code does: the unit is undecided."""


class PathEnd(BaseException):
    """The current path ends here (loop body proved / infeasible)."""


class Infeasible(BaseException):
    pass


# ----------------------------------------------------------------------------
# integer expressions: canonical polynomials over interned atoms
# ----------------------------------------------------------------------------

class IAtom:
    """Interned integer atom: variable, or mod / floordiv / min / max of polynomials."""
    __slots__ = ('kind', 'args', 'key')

    def __init__(self, kind, args, key):
        self.kind, self.args, self.key = kind, args, key

    def __repr__(self):
        return self.key


_atoms = {}


def _iatom(kind, args, key):
    a = _atoms.get(key)
    if a is None:
        a = _atoms[key] = IAtom(kind, args, key)
    return a


def _poly(x):
    """Polynomial dict of an int or SymInt."""
    if isinstance(x, SymInt):
        return x.p
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return {(): x} if x else {}
    raise TypeError(f"not an integer: {x!r}")


def _mk(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0
    if len(p) == 1 and () in p:
        c = p[()]
        return c
    return SymInt(p)


def _monokey(m):
    return '*'.join(f'{k}^{e}' if e > 1 else k for k, e in m)


def ikey(x):
    """Canonical string of an integer expression."""
    if isinstance(x, int):
        return str(x)
    if x._key is None:
        parts = []
        for m in sorted(x.p):
            c = x.p[m]
            parts.append(f'{c}' if not m else (_monokey(m) if c == 1 else f'{c}*{_monokey(m)}'))
        x._key = '(' + '+'.join(parts) + ')'
    return x._key


class SymInt:
    __slots__ = ('p', '_key')

    def __init__(self, p):
        self.p = p
        self._key = None

    # -- arithmetic
    def _bin(self, other, f):
        if isinstance(other, (SymInt, int)):
            return f(self.p, _poly(other))
        return NotImplemented

    def __add__(self, o):
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        r = dict(self.p)
        for m, c in _poly(o).items():
            r[m] = r.get(m, 0) + c
        return _mk(r)
    __radd__ = __add__

    def __neg__(self):
        return _mk({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        r = {}
        for m1, c1 in self.p.items():
            for m2, c2 in _poly(o).items():
                d = dict(m1)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                m = tuple(sorted(d.items()))
                r[m] = r.get(m, 0) + c1 * c2
        return _mk(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        if not isinstance(n, int) or n < 0:
            raise Unsupported('power with non-constant exponent')
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __mod__(self, n):
        return imod(self, n)

    def __rmod__(self, a):
        return imod(a, self)

    def __floordiv__(self, n):
        return ifloordiv(self, n)

    def __rfloordiv__(self, a):
        return ifloordiv(a, self)

    def __divmod__(self, n):
        return ifloordiv(self, n), imod(self, n)

    def __truediv__(self, n):
        if isinstance(n, (int, SymInt)):
            return SymRat(self, n)
        return NotImplemented

    def __rtruediv__(self, n):
        if isinstance(n, (int, SymInt)):
            return SymRat(n, self)
        return NotImplemented

    def __abs__(self):
        return self if self >= 0 else -self

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymRat):
            return NotImplemented
        if not isinstance(o, (SymInt, int)):
            if isinstance(o, float):
                if o == int(o):
                    o = int(o)
                else:
                    raise Unsupported('comparison of symbolic integer with non-integral float')
            else:
                return NotImplemented
        d = self - o
        if isinstance(d, int):
            return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
        e = z3i(d)
        return SymBool({'==': e == 0, '!=': e != 0, '<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[op])

    def __eq__(self, o):
        if not isinstance(o, (SymInt, int, float)):
            return NotImplemented
        return self._cmp(o, '==')

    def __ne__(self, o):
        if not isinstance(o, (SymInt, int, float)):
            return NotImplemented
        return self._cmp(o, '!=')

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer (native dict or set)')

    def __index__(self):
        v = CTX().constant(self)
        if v is None:
            raise Unsupported(f'symbolic integer {self} used as native index')
        return v

    __int__ = __index__

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __float__(self):
        raise Unsupported('float() of a symbolic integer')

    def __repr__(self):
        return ikey(self)

    def __format__(self, spec):
        return ikey(self)

    def item(self):
        return self

    def bit_length(self):
        raise Unsupported('bit_length')

    def to(self, *a, **k):
        return self

    def __and__(self, o):
        if o == 1 and isinstance(o, int):
            return self % 2
        raise Unsupported('bit operation')


class SymRat:
    """Quotient of two integers, good for floor / ceil / comparison."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __floor__(self):
        return self.n // self.d

    def __trunc__(self):
        return self.n // self.d

    def __int__(self):
        raise Unsupported('int() of a symbolic quotient')

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymRat(self.n * o, self.d)
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return SymRat(-self.n, self.d)

    def scalar(self):
        return self


def imod(a, n):
    if isinstance(a, int) and isinstance(n, int):
        return a % n
    ctx = CTX()
    if isinstance(n, int):
        # reduce coefficients
        a = _mk({m: c % n for m, c in _poly(a).items()})
        if isinstance(a, int):
            return a % n
    else:
        # drop multiples of n and nested reductions by n
        a = _drop_multiple(_unmod(a, n), n)
        if isinstance(a, int) and a == 0:
            return 0
    if ctx is not None:
        for k in (0, 1, -1, 2, -2):
            b = a - k * n
            if ctx.known(z3.And(z3i(b) >= 0, z3i(b) < z3i(n))):
                return b
    key = f'mod({ikey(a)},{ikey(n)})'
    return _mk({((_iatom('mod', (a, n), key).key, 1),): 1})


def _unmod(a, n):
    """Replace a mod n by a in a sum that is going to be reduced by n."""
    if isinstance(a, int):
        return a
    r = 0
    for m, c in a.p.items():
        if len(m) == 1 and m[0][1] == 1:
            at = _atoms[m[0][0]]
            if at.kind == 'mod' and ikey(at.args[1]) == ikey(n):
                r = r + c * at.args[0]
                continue
        r = r + _mk({m: c})
    return r


def _drop_multiple(a, n):
    """Remove an obvious multiple c*n of the symbolic modulus from a."""
    pn = _poly(n)
    if len(pn) != 1:
        return a
    (mn, cn), = pn.items()
    if cn != 1:
        return a
    r = {}
    dn = dict(mn)
    for m, c in _poly(a).items():
        d = dict(m)
        if all(d.get(k, 0) >= e for k, e in dn.items()):
            continue
        r[m] = c
    return _mk(r)


def ifloordiv(a, n):
    if isinstance(a, int) and isinstance(n, int):
        return a // n
    if isinstance(n, int) and n == 1:
        return a
    if isinstance(n, int) and all(c % n == 0 for c in _poly(a).values()):
        return _mk({m: c // n for m, c in _poly(a).items()})
    q = idiv_exact(a, n)
    if q is not None:
        return q
    r = imod(a, n)
    q = idiv_exact(a - r, n)
    if q is not None:
        return q
    key = f'div({ikey(a)},{ikey(n)})'
    return _mk({((_iatom('div', (a, n), key).key, 1),): 1})


def idiv_exact(a, n):
    """a/n if n is a monomial dividing every monomial of a, else None (n nonzero)."""
    if isinstance(n, int) and n == 0:
        return None
    pn = _poly(n)
    pa = _poly(a)
    if not pa:
        return 0
    if len(pn) == 1:
        (mn, cn), = pn.items()
        r = {}
        dn = dict(mn)
        for m, c in pa.items():
            d = dict(m)
            if c % cn:
                return None
            for k, e in dn.items():
                if d.get(k, 0) < e:
                    return None
                d[k] -= e
            r[tuple(sorted((k, e) for k, e in d.items() if e))] = c // cn
        return _mk(r)
    if ikey(a) == ikey(n):
        return 1
    # polynomial division by trial on monomial quotients
    for m, c in pa.items():
        for mn, cn in pn.items():
            if c % cn:
                continue
            d = dict(m)
            ok = True
            for k, e in dict(mn).items():
                if d.get(k, 0) < e:
                    ok = False
                    break
                d[k] -= e
            if ok:
                q = _mk({tuple(sorted((k, e) for k, e in d.items() if e)): c // cn})
                if ikey(q * n) == ikey(a):
                    return q
    return None


def imin(a, b):
    return _minmax('min', a, b)


def imax(a, b):
    return _minmax('max', a, b)


def _minmax(kind, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b) if kind == 'min' else max(a, b)
    if ikey(a) == ikey(b):
        return a
    if ile(a, b):
        return a if kind == 'min' else b
    if ile(b, a):
        return b if kind == 'min' else a
    # flatten
    parts = {}
    for x in (a, b):
        at = _single_atom(x)
        if at is not None and at.kind == kind:
            for y in at.args:
                parts[ikey(y)] = y
        else:
            parts[ikey(x)] = x
    keys = sorted(parts)
    for k in list(keys):
        if len(keys) > 1 and any(k2 != k and (ile(parts[k2], parts[k]) if kind == 'min' else ile(parts[k], parts[k2])) for k2 in keys):
            keys.remove(k)
    if len(keys) == 1:
        return parts[keys[0]]
    args = [parts[k] for k in keys]
    key = f'{kind}(' + ','.join(keys) + ')'
    return _mk({((_iatom(kind, tuple(args), key).key, 1),): 1})


def _single_atom(x):
    if isinstance(x, SymInt) and len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms.get(m[0][0])
    return None


def ile(a, b):
    """True if a <= b is known on this path."""
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    d = b - a
    if isinstance(d, int):
        return d >= 0
    if all(c >= 0 for c in d.p.values()) and all(_atom_nonneg(k) for m in d.p for k, _ in m):
        return True
    if _shift_nonneg(d):
        return True
    for x, y in ((a, b),):
        ax, ay = _single_atom(x), _single_atom(y)
        if ax is not None and ax.kind == 'min' and any(ile(t, y) for t in ax.args):
            return True
        if ay is not None and ay.kind == 'min' and all(ile(x, t) for t in ay.args):
            return True
        if ax is not None and ax.kind == 'max' and all(ile(t, y) for t in ax.args):
            return True
        if ay is not None and ay.kind == 'max' and any(ile(x, t) for t in ay.args):
            return True
    # a common positive factor
    ctx = CTX()
    return ctx is not None and ctx.known(z3i(d) >= 0)


def _atom_nonneg(key):
    ctx = CTX()
    return ctx is not None and (key in ctx.positive or key in ctx.nonneg)


def _shift_nonneg(d):
    """d >= 0 for all positive atoms >= 1, by substituting atom = 1 + t."""
    ctx = CTX()
    if ctx is None:
        return False
    atoms = {k for m in d.p for k, _ in m}
    if not atoms or len(atoms) > 4:
        return False
    for k in atoms:
        if k not in ctx.positive:
            at = _atoms.get(k)
            if at is None or at.kind not in ('min', 'max') or not all(ile(1, x) for x in at.args):
                return False
    r = 0
    for m, c in d.p.items():
        t = c
        for k, e in m:
            t = t * (SymInt({((k, 1),): 1}) + 1) ** e
        r = r + t
    return all(c >= 0 for c in _poly(r).values())


def ieq(a, b):
    """True if a == b is known on this path."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = a - b
    if isinstance(d, int):
        return d == 0
    ctx = CTX()
    return ctx is not None and ctx.known(z3i(d) == 0)


def ivar(name, lo=None):
    a = _iatom('var', (), name)
    x = SymInt({((a.key, 1),): 1})
    ctx = CTX()
    if ctx is not None and lo is not None:
        if lo >= 1:
            ctx.positive.add(name)
        if lo >= 0:
            ctx.nonneg.add(name)
        ctx.assume(z3.Int(name) >= lo)
    return x


def subst_int(x, m):
    """Substitute variables (by name) in an integer expression."""
    if isinstance(x, int):
        return x
    r = 0
    for mono, c in x.p.items():
        t = c
        for k, e in mono:
            t = t * (_subst_atom(k, m) ** e if e > 1 else _subst_atom(k, m))
        r = r + t
    return r


def _subst_atom(k, m):
    a = _atoms[k]
    if a.kind == 'var':
        if k in m:
            return m[k]
        return SymInt({((k, 1),): 1})
    args = [subst_int(x, m) for x in a.args]
    if a.kind == 'fun':
        return ifun(k[:k.index('(')], args, lo=1 if CTX() is not None and k in CTX().positive else None)
    if a.kind == 'mod':
        return imod(*args)
    if a.kind == 'div':
        return ifloordiv(*args)
    r = args[0]
    for y in args[1:]:
        r = _minmax(a.kind, r, y)
    return r


def ifun(name, args, lo=None):
    """Uninterpreted integer function of integer arguments (e.g. a site-dependent dimension)."""
    key = f'{name}(' + ','.join(ikey(a) for a in args) + ')'
    ctx = CTX()
    if ctx is not None:
        known = ctx.data.setdefault('ifuns', {}).setdefault(name, {})
        if key not in known:
            for k2, (a2, x2) in known.items():
                if len(a2) == len(args) and all(ieq(p, q) for p, q in zip(a2, args)):
                    return x2
            a = _iatom('fun', tuple(args), key)
            known[key] = (tuple(args), SymInt({((a.key, 1),): 1}))
            F = z3.Function('f:' + name, *([z3.IntSort()] * (len(args) + 1)))
            ctx.define(z3.Int(key) == F(*[z3i(p) for p in args]))
    a = _iatom('fun', tuple(args), key)
    if ctx is not None and lo is not None:
        if lo >= 1:
            ctx.positive.add(key)
        if lo >= 0:
            ctx.nonneg.add(key)
        if key not in ctx.defined:
            ctx.defined.add(key)
            ctx.define(z3.Int(key) >= lo)
    return SymInt({((a.key, 1),): 1})


def free_vars(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, SymInt):
        for mono in x.p:
            for k, _ in mono:
                a = _atoms[k]
                if a.kind == 'var':
                    acc.add(k)
                else:
                    for y in a.args:
                        free_vars(y, acc)
    return acc


# -- translation to z3 --------------------------------------------------------

def z3i(x):
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, 1, 0)
    ctx = CTX()
    if ctx is None:
        return _z3i(x)
    k = ikey(x)
    e = ctx.z3memo.get(k)
    if e is None:
        e = ctx.z3memo[k] = _z3i(x)
    return e


def _z3i(x):
    r = []
    for m, c in x.p.items():
        t = None
        for k, e in m:
            v = _z3atom(k)
            for _ in range(e):
                t = v if t is None else t * v
        if t is None:
            r.append(z3.IntVal(c))
        else:
            r.append(t if c == 1 else c * t)
    return z3.Sum(r) if len(r) > 1 else r[0]


def _z3atom(k):
    a = _atoms[k]
    if a.kind == 'var':
        return z3.Int(k)
    v = z3.Int(k)
    ctx = CTX()
    if ctx is not None and k not in ctx.defined:
        ctx.defined.add(k)
        if a.kind == 'fun':
            pass
        elif a.kind in ('mod', 'div'):
            x, n = a.args
            zx, zn = z3i(x), z3i(n)
            if a.kind == 'mod':
                ctx.define(z3.And(v >= 0, v < zn))
                if isinstance(n, int):
                    ctx.define(v == zx % zn)
                elif ctx.known(z3.And(zx >= -2 * zn, zx < 3 * zn)):
                    ctx.define(v == z3.If(zx < -zn, zx + 2 * zn, z3.If(zx < 0, zx + zn, z3.If(zx < zn, zx, z3.If(zx < 2 * zn, zx - zn, zx - 2 * zn)))))
                else:
                    q = z3.Int(k + '.q')
                    ctx.define(zx == q * zn + v)
            else:
                if isinstance(n, int):
                    ctx.define(v == zx / zn)
                else:
                    ctx.define(z3.And(zx - v * zn >= 0, zx - v * zn < zn))
        else:
            zs = [z3i(x) for x in a.args]
            if a.kind == 'min':
                ctx.define(z3.And(*[v <= z for z in zs], z3.Or(*[v == z for z in zs])))
            else:
                ctx.define(z3.And(*[v >= z for z in zs], z3.Or(*[v == z for z in zs])))
    return v


# ----------------------------------------------------------------------------
# booleans
# ----------------------------------------------------------------------------

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX().decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    # a truth value used as a number is 0 or 1 on its own path
    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    def __radd__(self, o):
        return o + int(self)

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    def __rmul__(self, o):
        return o * int(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == zb(o))
        return NotImplemented

    def __hash__(self):
        raise Unsupported('hash of symbolic boolean')

    def item(self):
        return self

    def __repr__(self):
        return f'SymBool({self.e})'


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


# ----------------------------------------------------------------------------
# obligations and paths
# ----------------------------------------------------------------------------

class Obligation:
    def __init__(self, unit, name, ok, backend, detail='', model=None):
        self.unit, self.name, self.ok, self.backend, self.detail, self.model = unit, name, ok, backend, detail, model

    def __repr__(self):
        return f'{"ok" if self.ok else "FAILED"} {self.unit}: {self.name} [{self.backend}] {self.detail}'


class Stats:
    def __init__(self):
        self.z3_time = 0.0
        self.z3_queries = 0
        self.kernel_time = 0.0
        self.kernel_queries = 0
        self.paths = 0


STATS = Stats()
_ctx = [None]


def CTX():
    return _ctx[0]


class Ctx:
    """One path through a unit."""
    max_paths = 400

    def __init__(self, unit, prefix=()):
        self.unit = unit
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []           # (choice, alternative_feasible)
        self.solver = z3.Solver()
        self.solver.set('timeout', 5000)
        self.pc = []
        self.positive = set()
        self.nonneg = set()
        self.defined = set()
        self.fresh_n = itertools.count()
        self.obligations = []
        self.mute = False        # checks are skipped (units that look at something else than results)
        self.cache = {}           # expressions not known to hold, by id (kept alive here); dropped by assume
        self.proved = {}
        self.z3memo = {}
        self.labels = []          # human readable decisions
        self.assumed = set()      # assumptions used, for the evidence
        self.opaque_bools = {}
        self.scope = []           # active loop generic variables: list of dict(name, ...)
        self.data = {}

    # -- z3
    def _check(self, *es):
        t = time.time()
        r = self.solver.check(*es)
        STATS.z3_time += time.time() - t
        STATS.z3_queries += 1
        return r

    def assume(self, e):
        e = zb(e)
        self.pc.append(e)
        self.solver.add(e)
        self.cache.clear()

    def define(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def known(self, e):
        e = zb(e)
        k = e.get_id()
        if k in self.proved:
            return True
        if k in self.cache:
            return False
        r = self._check(z3.Not(e)) == z3.unsat
        (self.proved if r else self.cache)[k] = e
        return r

    def decide(self, e, label=None):
        e = z3.simplify(zb(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.known(e):
            return True
        if self.known(z3.Not(e)):
            return False
        c = self.choice(2, label or str(e)[:200]) == 0
        self.assume(e if c else z3.Not(e))
        self._loop_uniform(e)
        return c

    def _loop_uniform(self, e):
        """A decision taken inside a generic loop iteration must not depend on the loop variable."""
        for sc in self.scope:
            names = sc['vars']
            sub, used = [], False
            vs = {str(v): v for v in _z3vars(e)}
            for n in list(vs):
                base = _atoms.get(n)
                fv = set()
                if n in names:
                    used = True
                elif base is not None and base.kind != 'var':
                    for y in base.args:
                        free_vars(y, fv)
                    if fv & set(names):
                        used = True
            if not used:
                continue
            # e must have the same truth value for all values of the loop variables:
            # e holds (or its negation) everywhere in the range
            s = z3.Solver()
            s.set('timeout', 5000)
            base_pc = sc['pc']
            if sc.get('split_ok'):
                continue
            s.add(*base_pc, *sc['range'])
            # re-add definitions introduced meanwhile
            for d in self.pc[len(base_pc):]:
                if any(str(v) in self.defined for v in _z3vars(d)):
                    s.add(d)
            t = time.time()
            cur = self.pc[-1]
            # renamed copy with a second instance of the loop variables
            m = []
            for n in names:
                m.append((z3.Int(n), z3.Int(n + "'")))
            for n in list(self.defined):
                base = _atoms.get(n)
                fv = set()
                for y in base.args:
                    free_vars(y, fv)
                if fv & set(names):
                    m.append((z3.Int(n), z3.Int(n + "'")))
                    if (n + '.q') in vs or True:
                        m.append((z3.Int(n + '.q'), z3.Int(n + ".q'")))
            s2 = [z3.substitute(d, *m) for d in s.assertions()]
            s.add(*s2)
            s.add(e, z3.Not(z3.substitute(e, *m)))
            r = s.check()
            STATS.z3_time += time.time() - t
            STATS.z3_queries += 1
            if r != z3.unsat:
                raise Unsupported(f'branch on the loop variable inside a summarised loop: {str(e)[:120]}')

    def choice(self, n, label=''):
        """Nondeterministic choice 0..n-1, explored exhaustively."""
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            if self.pos >= MAX_DECISIONS:
                raise Unsupported(f'more than {MAX_DECISIONS} decisions on one path (loop that does not terminate on this path?)')
        self.pos += 1
        self.trail.append((c, n))
        self.labels.append(f'{label}={"yes" if n == 2 and c == 0 else "no" if n == 2 else c}')
        return c

    def opaque(self, key, label=None):
        """Opaque boolean decision identified by key (same key, same answer on a path)."""
        if key in self.opaque_bools:
            return self.opaque_bools[key]
        r = self.choice(2, label or key) == 0
        self.opaque_bools[key] = r
        return r

    def constant(self, x):
        if isinstance(x, int):
            return x
        if self._check() != z3.sat:
            return None
        v = self.solver.model().eval(z3i(x), model_completion=True)
        try:
            v = v.as_long()
        except Exception:
            return None
        return v if self.known(z3i(x) == v) else None

    def fresh(self, prefix):
        return f'{prefix}!{next(self.fresh_n)}'

    # -- obligations
    def check(self, cond, name, backend=None, detail=''):
        """Record an obligation. cond: bool, SymBool, z3 or (ok, detail)."""
        if self.mute:
            return True
        model = None
        if isinstance(cond, tuple):
            cond, detail = cond
        if isinstance(cond, (SymBool, z3.BoolRef)):
            e = zb(cond)
            r = self._check(z3.Not(e))
            ok = r == z3.unsat
            backend = backend or 'z3'
            if r == z3.sat:
                model = self.model_of(self.solver.model())
            elif r == z3.unknown:
                raise Unsupported(f'solver gave no answer for obligation {name}')
            if not ok:
                detail = detail or str(e)[:300]
        else:
            ok = bool(cond)
            backend = backend or 'structural'
        if not ok and model is None:
            if self._check() == z3.sat:
                model = self.model_of(self.solver.model())
        self.obligations.append(Obligation(self.unit, name, ok, backend, detail + (f' on path [{"; ".join(self.labels)}]' if self.labels and not ok else ''), model))
        return ok

    def model_of(self, m):
        out = {}
        for d in m.decls():
            n = d.name()
            if '!' in n or '(' in n:
                continue
            try:
                out[n] = m[d].as_long()
            except Exception:
                pass
        return out


def _z3vars(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def runtime_error(e):
    """Description of a run-time error of the executed code that follows from the contract of the operation it used
    (shapes that do not fit, an index or key that does not exist); None when it may be due to the engine."""
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    repo = os.environ.get('ACEV_REPO', '/repo')
    at = [f for f in tb if f.filename.startswith(repo + os.sep)]
    if not at:
        return None
    where = f'{os.path.relpath(at[-1].filename, repo)}:{at[-1].lineno} {at[-1].line}'
    last = tb[-1]
    if type(e).__name__ == 'ShapeError':
        return f'{e} at {where}'
    if isinstance(e, (IndexError, KeyError, ZeroDivisionError, UnboundLocalError)) and (last.filename.startswith(repo + os.sep) or last.name in ('__getitem__', 'pop', '__delitem__')):
        return f'{type(e).__name__}: {e} at {where}'
    return None


PATH_RESET = []     # called at the start of every path
MAX_DECISIONS = 80


class OutOfTime(BaseException):
    """The time limit of the unit has passed (raised by the worker's timer)."""


def explore(unit, fn, max_paths=400):
    """Run fn(ctx) on every path. Returns the obligations, the number of paths, the assumptions used and the reason
    why the unit is undecided ('' when every path was decided). The obligations of an undecided unit are those of the
    paths that were followed: the failed ones among them are failures, the others prove nothing about the unit."""
    work = [()]
    obs = []
    n = 0
    assumed = set()
    reason, trace = '', ''
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            reason = reason or f'more than {max_paths} paths'
            break
        ctx = Ctx(unit, prefix)
        _ctx[0] = ctx
        stop = False
        try:
            try:
                for f in PATH_RESET:
                    f()
                fn(ctx)
            except (PathEnd, Infeasible):
                pass
            except Unsupported as e:
                if not reason:
                    reason, trace = f'Unsupported: {e}', _trace()
            except Exception as e:
                err = runtime_error(e)
                if err is None:
                    if not reason:
                        reason, trace = f'{type(e).__name__}: {e}', _trace()
                else:
                    ctx.check((False, err), 'the code runs without error', 'run-time error')
            finally:
                _ctx[0] = None
            STATS.paths += 1
            # a path whose condition became contradictory proves nothing
            if ctx.solver.check() == z3.unsat:
                ctx.obligations = []
        except Unsupported as e:
            if not reason:
                reason, trace = f'Unsupported: {e}', _trace()
        except OutOfTime:
            reason, trace, stop = reason or 'time limit', trace or _trace(), True
            _ctx[0] = None
            if ctx.solver.check() == z3.unsat:
                ctx.obligations = []
        for i in range(len(prefix), len(ctx.trail)):
            c, k = ctx.trail[i]
            for alt in range(c + 1, k):
                work.append(tuple(t[0] for t in ctx.trail[:i]) + (alt,))
        obs.extend(ctx.obligations)
        assumed |= ctx.assumed
        if stop:
            break
        if reason and any(not o.ok for o in obs):
            break
    if reason:
        obs = [o for o in obs if not o.ok]
    return obs, n, assumed, (reason, trace)


def _trace():
    import traceback
    try:
        return traceback.format_exc()[-2500:]
    except Exception:           # formatting a NameError looks at attributes of self, which may be a symbolic value
        return ''
