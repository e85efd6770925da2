"""Containers and loops over symbolic ranges.

A loop over a symbolic range runs its body once for a generic index (after a probing run that finds
what the body writes), and every effect on state that outlives the loop is generalised:
dictionary and site-map writes become "for every index" entries, list appends become comprehension
segments, additive updates become sums.  Anything else is Unsupported (the unit is undecided).
The generalisation is justified by a check that no iteration reads or overwrites what another writes.
"""
from fractions import Fraction
import z3
from . import tens as T
from . import symtorch as st
from .core import (SymInt, SymRat, SymBool, Unsupported, CTX, PathEnd, ikey, ieq, ile, imin, imax, imod, ifloordiv, ivar, subst_int, free_vars,
                   z3i, zb, _iatom, STATS, Obligation)
from .symtorch import STensor, Storage, _tick


class Poison:
    """Value of a variable that the engine no longer tracks."""
    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, 'why'))

    __getattr__ = __call__ = __add__ = __radd__ = __iadd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __setitem__ = _bad
    __iter__ = __len__ = __bool__ = __truediv__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __contains__ = _bad
    __hash__ = None

    def __repr__(self):
        return '<poison>'


class Undef(Poison):
    def __repr__(self):
        return '<undef>'


UNDEF = Undef('variable not assigned before the loop')


def frames():
    return CTX().data.setdefault('frames', [])


def touch(obj, op=None):
    for f in frames():
        f.touch(obj, op)


# ------------------------------------------------------------------ substitution of index variables in values

def mentions(obj, names, seen=None):
    if isinstance(obj, SymInt):
        return bool(free_vars(obj) & names)
    if isinstance(obj, T.TV):
        return any(n in obj.canon() for n in names) or any(free_vars(s) & names for w in obj.free() for s in [T.WSIZE[w]] if isinstance(s, SymInt))
    if isinstance(obj, STensor):
        return mentions(obj._st._tv, names)
    if isinstance(obj, (tuple, list)):
        return any(mentions(x, names) for x in obj)
    return True if getattr(type(obj), '_acev_inst', False) else False


def vsubst(obj, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(obj, SymInt):
        return subst_int(obj, m)
    if obj is None or isinstance(obj, (int, float, str, complex, bool, st.dtype, st.device, Fraction)):
        return obj
    if id(obj) in memo:
        return memo[id(obj)][1]
    if isinstance(obj, STensor):
        r = STensor(obj.tv.subst(m), obj.dtype, obj.device, int_=None if obj.int_ is None else vsubst(obj.int_, m, memo))
        v = obj._ints()
        if v is not None:
            r.ints = (r._st.version, tuple(vsubst(x, m, memo) for x in v))
    elif isinstance(obj, T.TV):
        r = obj.subst(m)
    elif isinstance(obj, tuple):
        r = tuple(vsubst(x, m, memo) for x in obj)
    elif isinstance(obj, SymList):
        r = SymList()
        memo[id(obj)] = (obj, r)
        if obj.parts is None:
            list.extend(r, [vsubst(x, m, memo) for x in list.__iter__(obj)])
        else:
            r.parts = [_psubst(p, m, memo) for p in obj.parts]
    elif isinstance(obj, list):
        r = [vsubst(x, m, memo) for x in obj]
    elif isinstance(obj, SymDict):
        obj._settled()
        r = type(obj)()
        memo[id(obj)] = (obj, r)
        r.log = [_psubst(p, m, memo) for p in obj.log]
    elif isinstance(obj, dict):
        r = {k: vsubst(v, m, memo) for k, v in obj.items()}
    elif getattr(type(obj), '_acev_inst', False):
        r = object.__new__(type(obj))
        memo[id(obj)] = (obj, r)
        for k, v in obj.__dict__.items():
            object.__setattr__(r, k, v if k in ('_acev_birth',) else vsubst(v, m, memo))
    elif isinstance(obj, Poison) or callable(obj):
        r = obj
    else:
        r = obj
    memo[id(obj)] = (obj, r)
    return r


def _psubst(p, m, memo):
    if p[0] == 'e':
        return ('e',) + tuple(vsubst(x, m, memo) for x in p[1:])
    vs = [(n, vsubst(lo, m, memo), vsubst(hi, m, memo)) for n, lo, hi in p[1]]
    return ('s', vs) + tuple(vsubst(x, {k: v for k, v in m.items() if k not in [n for n, _, _ in vs]}, memo) for x in p[2:])


# ------------------------------------------------------------------ keys

def key_eq(a, b):
    """z3 / python truth value of key equality."""
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        d = a - b
        return (d == 0) if isinstance(d, int) else (z3i(d) == 0)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        es = [key_eq(x, y) for x, y in zip(a, b)]
        if any(e is False for e in es):
            return False
        es = [e for e in es if e is not True]
        return True if not es else z3.And(*es)
    if type(a) is not type(b):
        return False
    if getattr(type(a), '_acev_inst', False):
        if a is b:
            return True
        if hasattr(a, '__dataclass_fields__'):
            return key_eq(tuple(getattr(a, f) for f in a.__dataclass_fields__), tuple(getattr(b, f) for f in b.__dataclass_fields__))
        return a is b
    return a == b


def decide_eq(a, b):
    e = key_eq(a, b)
    if isinstance(e, bool):
        return e
    return CTX().decide(e, 'same key')


def known_eq(a, b):
    e = key_eq(a, b)
    if isinstance(e, bool):
        return e
    return CTX().known(e)


def solve_key(vars_, key, k):
    """Values of the segment variables making key equal to k: (solution, condition) or None when impossible.
    Variables must occur alone, as v + c, or as (v + c) mod n with n the size of their range."""
    names = [n for n, _, _ in vars_]
    sol = {}
    conds = []
    pairs = []

    def flat(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(flat(x, y) for x, y in zip(a, b))
        if getattr(type(a), '_acev_inst', False) and type(a) is type(b) and hasattr(a, '__dataclass_fields__'):
            return all(flat(getattr(a, f), getattr(b, f)) for f in a.__dataclass_fields__)
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            pairs.append((a, b))
            return True
        return type(a) is type(b) and a == b
    if not flat(key, k):
        return None
    todo = []
    for a, b in pairs:
        fv = free_vars(a) & set(names) if isinstance(a, SymInt) else set()
        if not fv:
            conds.append((a, b))
            continue
        todo.append((a, b))
    rngs = {n: (lo, hi) for n, lo, hi in vars_}
    for a, b in todo:
        fv = free_vars(a) & set(names)
        fv -= set(sol)
        if len(fv) == 1:
            n = next(iter(fv))
            v = _invert(a, n, b, rngs[n])
            if v is not None:
                sol[n] = v
                conds.append((a, b))
                continue
        conds.append((a, b))
    if len(sol) != len(names):
        raise Unsupported('cannot determine which iteration wrote a key')
    cs = []
    for a, b in conds:
        a2 = vsubst(a, sol)
        e = key_eq(a2, b)
        if e is False:
            return None
        if e is not True:
            cs.append(e)
    for n, lo, hi in vars_:
        lo, hi = vsubst(lo, sol), vsubst(hi, sol)
        v = sol[n]
        cs.append(zb(v >= lo) if not isinstance(v >= lo, bool) else z3.BoolVal(v >= lo))
        c = v < hi
        cs.append(zb(c))
    return sol, z3.And(*cs) if cs else z3.BoolVal(True)


def _invert(a, n, b, rng):
    """v with a(v) = b, a affine +-1 in v, possibly modulo the range size."""
    from .core import _single_atom, _atoms
    at = _single_atom(a) if isinstance(a, SymInt) else None
    if at is not None and at.kind == 'mod':
        inner, mod = at.args
        lo, hi = rng
        if not ieq(hi - lo, mod) or not ieq(lo, 0):
            return None
        v = _invert(inner, n, b, rng)
        return None if v is None else imod(v, mod)
    c = a.p.get(((n, 1),), 0)
    if c not in (1, -1):
        return None
    rest = a - c * SymInt({((n, 1),): 1})
    if isinstance(rest, SymInt) and n in free_vars(rest):
        return None
    return (b - rest) * c


# ------------------------------------------------------------------ dictionaries

def state_of(obj, seen=None):
    """What an object holds: changes when it or something it holds is changed."""
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return ()
    seen.add(id(obj))
    if isinstance(obj, STensor):
        return (id(obj._st), obj._st.version)
    if isinstance(obj, SymList) or isinstance(obj, list):
        parts = obj.parts if isinstance(obj, SymList) else None
        return (id(obj), tuple(id(p) for p in parts)) if parts is not None else (id(obj), tuple(state_of(x, seen) for x in list.__iter__(obj)))
    if isinstance(obj, SymDict):
        return (id(obj), tuple(id(p) for p in obj.log))
    if getattr(type(obj), '_acev_inst', False):
        return (id(obj), tuple((k, state_of(v, seen)) for k, v in obj.__dict__.items()))
    return id(obj)


_MISSING = object()


class SymDict:
    """Ordered map; keys may be symbolic, entries may be summarised over index ranges."""
    _acev_dict = True

    def __init__(self, *a, **k):
        self.log = []          # ('e', key, value) | ('s', vars, key, value)
        self.made = []         # objects handed out for keys of summarised ranges
        self.birth = _tick()
        if a:
            src = a[0].items() if hasattr(a[0], 'items') else a[0]
            if isinstance(src, SymList) and src.parts is not None:
                for_each(src, lambda x: self.__setitem__(x[0], x[1]))
            else:
                for x in src:
                    self.log.append(('e', x[0], x[1]))
        for x, y in k.items():
            self.log.append(('e', x, y))

    def _snap(self):
        return list(self.log)

    def _restore(self, s):
        self.log = list(s)

    def _find(self, key):
        """(index, value) of the entry for key."""
        for f in frames():
            f.read_key(self, key)
        for i in range(len(self.log) - 1, -1, -1):
            p = self.log[i]
            if p[0] == 'e':
                if decide_eq(p[1], key):
                    return i, p[2]
            else:
                r = solve_key(p[1], p[2], key)
                if r is None:
                    continue
                sol, cond = r
                if CTX().decide(cond, 'key in summarised range'):
                    # an object read once is the object read again
                    fr = frames()
                    for q, k, v, s in self.made:
                        if q is p and (not fr or state_of(v) != s) and decide_eq(k, key):
                            return i, v
                    v = vsubst(p[3], sol)
                    if fr:
                        for f in fr:
                            f.handed.append((v, state_of(v)))
                    elif (isinstance(v, STensor) or getattr(type(v), '_acev_inst', False) and not hasattr(v, '__dataclass_fields__')):
                        self.made.append((p, key, v, state_of(v)))
                    return i, v
        return None, _MISSING

    def _settled(self):
        """Entries of summarised ranges that were read and changed since cannot be listed with the range."""
        for p, k, v, s in self.made:
            if any(p is q for q in self.log) and state_of(v) != s:
                raise Unsupported('range of entries listed after one of them was changed')

    def __getitem__(self, key):
        i, v = self._find(key)
        if v is _MISSING:
            raise KeyError(key)
        return v

    def get(self, key, default=None):
        i, v = self._find(key)
        return default if v is _MISSING else v

    def __contains__(self, key):
        return self._find(key)[1] is not _MISSING

    def __setitem__(self, key, value):
        touch(self, ('set', key))
        for i, p in enumerate(self.log):
            if p[0] == 'e':
                e = key_eq(p[1], key)
                if e is True or (e is not False and CTX().known(e)):
                    self.log[i] = ('e', p[1], value)
                    return
        self.log.append(('e', key, value))

    def setdefault(self, key, default=None):
        i, v = self._find(key)
        if v is _MISSING:
            self[key] = default
            return default
        if self.log[i][0] == 's':
            raise Unsupported('setdefault on a summarised entry')
        return v

    def pop(self, key, *d):
        i, v = self._find(key)
        if v is _MISSING:
            if d:
                return d[0]
            raise KeyError(key)
        if self.log[i][0] == 's':
            raise Unsupported('pop of a summarised entry')
        touch(self, ('pop', key))
        del self.log[i]
        return v

    def __delitem__(self, key):
        self.pop(key)

    def clear(self):
        touch(self, ('clear',))
        self.log = []

    def update(self, *a, **k):
        for src in a:
            src = src.items() if hasattr(src, 'items') else src
            if isinstance(src, SymList) and src.parts is not None:
                for_each(src, lambda x: self.__setitem__(x[0], x[1]))
                continue
            for x, y in src:
                self[x] = y
        for x, y in k.items():
            self[x] = y

    def _items(self):
        if all(p[0] == 'e' for p in self.log):
            return [(p[1], p[2]) for p in self.log]
        return None

    def items(self):
        it = self._items()
        if it is not None:
            return SymList(it)
        self._settled()
        r = SymList()
        r.parts = [('e', (p[1], p[2])) if p[0] == 'e' else ('s', p[1], (p[2], p[3])) for p in self.log]
        return r

    def keys(self):
        it = self._items()
        if it is not None:
            return SymList([k for k, _ in it])
        r = SymList()
        r.parts = [('e', p[1]) if p[0] == 'e' else ('s', p[1], p[2]) for p in self.log]
        return r

    def values(self):
        it = self._items()
        if it is not None:
            return SymList([v for _, v in it])
        self._settled()
        r = SymList()
        r.parts = [('e', p[2]) if p[0] == 'e' else ('s', p[1], p[3]) for p in self.log]
        return r

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        it = self._items()
        if it is None:
            raise Unsupported('size of a summarised dictionary')
        return len(it)

    def __bool__(self):
        return bool(self.log)

    def copy(self):
        r = SymDict()
        r.log = list(self.log)
        r.made = self.made     # the same objects
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __deepcopy__(self, memo):
        import copy
        self._settled()
        r = SymDict()
        r.log = [tuple(copy.deepcopy(x, memo) if i else x for i, x in enumerate(p)) for p in self.log]
        return r

    def __copy__(self):
        return self.copy()

    def __eq__(self, o):
        if isinstance(o, (SymDict, dict)):
            a, b = dict_items(self), dict_items(o)
            return dict(a) == dict(b)
        return False

    __hash__ = None

    def __repr__(self):
        return f'SymDict({self.log})'

    def _acev_plain(self):
        return {k: v for k, v in self._items()}


def dict_items(d):
    return list(d.items())


# ------------------------------------------------------------------ lists

class SymList(list):
    """List; with parts: explicit items ('e', x) and segments ('s', vars, x)."""

    def __init__(self, *a):
        super().__init__(*a)
        self.parts = None
        self.birth = _tick()

    def _acev_list(self):
        if self.parts is not None:
            raise Unsupported('symbolic list used as data')
        return list(list.__iter__(self))

    def _snap(self):
        return (list(list.__iter__(self)), None if self.parts is None else list(self.parts))

    def _restore(self, s):
        list.clear(self)
        list.extend(self, s[0])
        self.parts = None if s[1] is None else list(s[1])

    def _toparts(self):
        if self.parts is None:
            return [('e', x) for x in list.__iter__(self)]
        return list(self.parts)

    def _setparts(self, parts):
        list.clear(self)
        if all(p[0] == 'e' for p in parts):
            list.extend(self, [p[1] for p in parts])
            self.parts = None
        else:
            self.parts = parts

    def append(self, x):
        touch(self, ('append',))
        if self.parts is None:
            list.append(self, x)
        else:
            self.parts.append(('e', x))

    def extend(self, o):
        touch(self, ('append',))
        self._setparts(self._toparts() + to_parts(o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = SymList()
        r._setparts(self._toparts() + to_parts(o))
        return r

    def __radd__(self, o):
        r = SymList()
        r._setparts(to_parts(o) + self._toparts())
        return r

    def __mul__(self, n):
        if isinstance(n, STensor):
            n = n.int_
        if isinstance(n, SymInt):
            v = CTX().fresh('rep')
            ivar(v, 0)
            r = SymList()
            ps = self._toparts()
            if len(ps) != 1:
                raise Unsupported('repetition of a list')
            p = ps[0]
            r.parts = [('s', [(v, 0, imax(n, 0))] + (p[1] if p[0] == 's' else []), p[-1])]
            return r
        return SymList(list.__mul__(self, n)) if self.parts is None else _unsup('repeat')

    __rmul__ = __mul__

    def length(self):
        n = 0
        for p in self._toparts():
            if p[0] == 'e':
                n = n + 1
            else:
                n = n + seg_size(p[1])
        return n

    def __len__(self):
        if self.parts is None:
            return list.__len__(self)
        raise Unsupported('native len() of a symbolic list')

    def __bool__(self):
        if self.parts is None:
            return list.__len__(self) > 0
        return bool(self.length() > 0)

    def __iter__(self):
        if self.parts is None:
            return list.__iter__(self)
        raise Unsupported('native iteration over a symbolic list')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.parts is None:
                return SymList(list.__getitem__(self, i))
            if i.start is None and i.stop is None and i.step is None:
                return self.copy()
            if i.start is None and i.stop is None and i.step == -1:
                r = self.copy()
                r.reverse()
                return r
            raise Unsupported('slice of a symbolic list')
        i = st._int(i)
        if self.parts is None:
            if isinstance(i, SymInt):
                n = list.__len__(self)
                for j in range(n):
                    if CTX().decide(z3i(i) == j, f'list index {j}'):
                        return list.__getitem__(self, j)
                raise IndexError('list index out of range')
            return list.__getitem__(self, i)
        if isinstance(i, SymInt) and all(_is_number(p[-1]) for p in self.parts):
            n = self.length()
            if not CTX().known(z3i(i) >= 0):
                raise Unsupported('symbolic list index that may be negative')
            c = i < n
            if not (c if isinstance(c, bool) else CTX().decide(zb(c), 'list index in range')):
                raise IndexError('list index out of range')
            return STensor(T.fix_index(list_vector(self), 0, i), st.float64)
        # walk the parts
        pos = i
        if isinstance(pos, int) and pos < 0:
            pos = pos + self.length()
        for p in self.parts:
            if p[0] == 'e':
                if CTX().decide(z3i(pos) == 0, 'list position') if not isinstance(pos, int) else pos == 0:
                    return p[1]
                pos = pos - 1
            else:
                n = seg_size(p[1])
                c = pos < n
                if c if isinstance(c, bool) else CTX().decide(zb(c), 'list position in segment'):
                    return vsubst(p[2], seg_at(p[1], pos))
                pos = pos - n
        raise IndexError('list index out of range')

    def _set_symbolic(self, i, v):
        """Splits the segment that holds the position."""
        if isinstance(i, slice):
            raise Unsupported('assignment into a symbolic list')
        pos = st._int(i)
        if isinstance(pos, int) and pos < 0 or not isinstance(pos, int) and not ile(0, pos):
            raise Unsupported('symbolic list index that may be negative')
        for k, p in enumerate(self.parts):
            if p[0] == 'e':
                if CTX().decide(z3i(pos) == 0, 'list position') if not isinstance(pos, int) else pos == 0:
                    self.parts[k] = ('e', v)
                    return
                pos = pos - 1
                continue
            n = seg_size(p[1])
            c = pos < n
            if c if isinstance(c, bool) else CTX().decide(zb(c), 'list position in segment'):
                if len(p[1]) != 1:
                    raise Unsupported('assignment into a symbolic list')
                x, lo, hi = p[1][0]
                new = [('s', [(x, lo, lo + pos)], p[2]), ('e', v), ('s', [(x, lo + pos + 1, hi)], p[2])]
                self.parts[k:k + 1] = [q for q in new if q[0] == 'e' or not ieq(q[1][0][1], q[1][0][2])]
                return
            pos = pos - n
        raise IndexError('list assignment index out of range')

    def __setitem__(self, i, v):
        touch(self, ('item', i))
        if self.parts is not None:
            return self._set_symbolic(i, v)
        if isinstance(i, slice):
            list.__setitem__(self, i, v)
            return
        i = st._int(i)
        if isinstance(i, SymInt):
            for j in range(list.__len__(self)):
                if CTX().decide(z3i(i) == j, f'list index {j}'):
                    list.__setitem__(self, j, v)
                    return
            raise IndexError('list assignment index out of range')
        list.__setitem__(self, i, v)

    def reverse(self):
        touch(self, ('reverse',))
        if self.parts is None:
            list.reverse(self)
            return
        self._setparts([_rev(p) for p in reversed(self.parts)])

    def copy(self):
        r = SymList()
        r._setparts(self._toparts())
        return r

    def sort(self, *a, **k):
        if self.parts is not None:
            raise Unsupported('sort')
        touch(self, ('sort',))
        list.sort(self, *a, **k)

    def clear(self):
        touch(self, ('clear',))
        self.parts = None
        list.clear(self)

    def pop(self, *a):
        if self.parts is not None:
            raise Unsupported('pop')
        touch(self, ('pop',))
        return list.pop(self, *a)

    def insert(self, i, x):
        if self.parts is not None:
            if i == 0:
                touch(self, ('insert',))
                self.parts.insert(0, ('e', x))
                return
            raise Unsupported('insert')
        touch(self, ('insert',))
        list.insert(self, i, x)

    def index(self, x):
        if self.parts is not None:
            raise Unsupported('index')
        for i, y in enumerate(list.__iter__(self)):
            if decide_eq(x, y):
                return i
        raise ValueError('not in list')

    def __contains__(self, x):
        for p in self._toparts():
            if p[0] == 'e':
                if decide_eq(p[1], x):
                    return True
            else:
                r = solve_key(p[1], p[2], x)
                if r is not None and CTX().decide(r[1]):
                    return True
        return False

    def __eq__(self, o):
        if self.parts is None and not (isinstance(o, SymList) and o.parts is not None):
            return isinstance(o, list) and list.__len__(self) == len(o) and all(x is y or x == y for x, y in zip(list.__iter__(self), o))
        raise Unsupported('comparison of symbolic lists')

    __hash__ = None

    def _as_vector(self):
        return list_vector(self)

    def __deepcopy__(self, memo):
        import copy
        r = SymList()
        r._setparts([(p[0],) + tuple(copy.deepcopy(x, memo) for x in p[1:]) for p in self._toparts()])
        return r

    def __copy__(self):
        return self.copy()

    def __repr__(self):
        return f'SymList({self._toparts()})'


def _unsup(x):
    raise Unsupported(x)


def _rev(p):
    if p[0] == 'e':
        return p
    m = {n: (lo + hi - 1) - SymInt({((n, 1),): 1}) for n, lo, hi in p[1]}
    for n, lo, hi in p[1]:
        if (isinstance(lo, SymInt) and free_vars(lo) & set(m)) or (isinstance(hi, SymInt) and free_vars(hi) & set(m)):
            raise Unsupported('reverse of a dependent range')
    return ('s', p[1], vsubst(p[2], m))


def to_parts(o):
    if isinstance(o, SymList):
        return o._toparts()
    if isinstance(o, SymRange):
        return o._parts()
    return [('e', x) for x in o]


def seg_size(vs):
    n = 1
    for _, lo, hi in vs:
        n = n * imax(hi - lo, 0) if not ile(lo, hi) else n * (hi - lo)
    return n


def seg_at(vs, pos):
    """Assignment of the segment variables at a row-major position."""
    m = {}
    for k, (n, lo, hi) in enumerate(vs):
        st_ = seg_size(vs[k + 1:])
        q = ifloordiv(pos, st_) if not (isinstance(st_, int) and st_ == 1) else pos
        if isinstance(pos, int) and pos == 0:
            q = 0
        m[n] = lo + q
        pos = pos - q * st_
    return m


def list_vector(l):
    """A list of numbers as a one-axis tensor value."""
    parts = l._toparts()
    n = l.length()
    w = T.wire(n)
    terms = []
    off = 0
    for p in parts:
        if p[0] == 'e':
            tv = st.as_tv(p[1])
            for t in tv.terms:
                terms.append(T.Term(t.c, list(t.f) + [(T.DELTA, False, Fraction(1), (T.arg(w), T.carg(off)))]))
            off = off + 1
        else:
            if len(p[1]) != 1 or mentions(p[2], {p[1][0][0]}):
                raise Unsupported('vector of a symbolic list')
            size = seg_size(p[1])
            tv = st.as_tv(p[2])
            ind = T.atom('ind', (off, off + size), '', (None,), real=True, pos=True)
            for t in tv.terms:
                terms.append(T.Term(t.c, list(t.f) + [(ind, False, Fraction(1), (T.arg(w),))]))
            off = off + size
    return T.TV([[w]], [T._fresh_sums(t, [[w]]) for t in terms]).simplify()


class SymVector:
    """A list of numbers of symbolic length with opaque entries."""

    def __init__(self, tv):
        self.tv = tv

    def length(self):
        return self.tv.shape[0]

    def _as_vector(self):
        return self.tv

    def __getitem__(self, i):
        return STensor(T.fix_index(self.tv, 0, st._int(i)), st.float64)

    def __len__(self):
        raise Unsupported('native len of symbolic vector')


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        self.lo, self.hi, self.step = (st._int(x) for x in a)

    def __reversed__(self):
        r = SymList()
        r._setparts([_rev(p) for p in reversed(self._parts())])
        return r

    def _parts(self):
        v = CTX().fresh('r')
        ivar(v)
        x = SymInt({((v, 1),): 1})
        if isinstance(self.step, int) and self.step == 1:
            return [('s', [(v, self.lo, imax(self.hi, self.lo))], x)]
        if isinstance(self.step, int) and self.step == -1:
            return [('s', [(v, 0, imax(self.lo - self.hi, 0))], self.lo - x)]
        # lo + step * j
        if not ile(1, self.step):
            raise Unsupported('range step')
        nb = ifloordiv(self.hi - self.lo + self.step - 1, self.step)
        return [('s', [(v, 0, imax(nb, 0))], self.lo + self.step * x)]

    def length(self):
        return seg_size(self._parts()[0][1])

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic range')

    def __len__(self):
        raise Unsupported('native len of a symbolic range')

    def __contains__(self, x):
        if isinstance(self.step, int) and self.step == 1:
            return bool(SymBool(z3.And(z3i(x) >= z3i(self.lo), z3i(x) < z3i(self.hi))))
        raise Unsupported('membership in a strided range')

    def __getitem__(self, i):
        return self.lo + self.step * i


def sym_range(*a):
    a = [x.int_ if isinstance(x, STensor) and x.int_ is not None else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    cs = []
    for x in a:
        c = x if isinstance(x, int) else CTX().constant(x) if isinstance(x, SymInt) and CTX().data.get('const_ranges') else None
        cs.append(c)
    if all(c is not None for c in cs):
        return range(*cs)
    return SymRange(*a)


# ------------------------------------------------------------------ sums over index variables

def sigma(vars_, tv):
    """Sum of a tensor value over integer variables."""
    tv = tv.simplify()
    for n, lo, hi in reversed(vars_):
        tv = _sigma1(n, lo, hi, tv)
    return tv


def _sigma1(n, lo, hi, tv):
    out = []
    free = set(tv.free())
    depth = tv.canon().count('$')
    for t in tv.terms:
        dep, ind = [], []
        tw = {}
        for f in t.f:
            d = _mentions_var(f, n)
            (dep if d else ind).append(f)
        # wires shared with dependent factors stay inside; independent scalars move out
        if not dep:
            k = T.TV((), [T.Term(T.ONE, [])])
            s = T.size_scalar(hi - lo)
            for x in s:
                out.append(T.mul_factors(t, x))
            continue
        # delta(n, affine in a free wire): the sum selects one index
        sel = None
        for f in dep:
            if f[0] is T.DELTA:
                sel = f
        if sel is not None:
            r = _select(n, lo, hi, t, sel)
            if r is not None:
                out.append(r)
                continue
        outside = [f for f in ind if not f[3]]
        inside = dep + [f for f in ind if f[3]]
        ws = sorted({w for f in inside for a in f[3] for _, w in a[1]} & free)
        x = T.TV([[w] for w in ws], [T.Term(T.ONE, inside)])
        b = f'${x.canon().count("$#")}#'
        x = x.subst({n: SymInt({((_iatom('var', (), b).key, 1),): 1})})
        rl = T.is_real(x)
        at = T.atom('Sum', (x, b, lo, hi), '', [T.WSIZE[w] for w in ws], real=rl)
        out.append(T.Term(t.c, outside + [(at, False, Fraction(1), tuple(T.arg(w) for w in ws))]))
    return T.TV(tv.axes, out).simplify()


def _select(n, lo, hi, t, sel):
    a, b = sel[3]
    for x, y in ((a, b), (b, a)):
        if isinstance(x[0], SymInt) and not x[1] and n in free_vars(x[0]):
            c = x[0].p.get(((n, 1),), 0)
            if c != 1:
                return None
            rest = x[0] - SymInt({((n, 1),): 1})
            if n in free_vars(rest) or n in free_vars(y[0]):
                return None
            # n = y - rest
            if len(y[1]) == 1 and T.is_wire((0, y[1])) :
                w = y[1][0][1]
                val_lo, val_hi = y[0] - rest, y[0] - rest + T.WSIZE[w] - 1
                fs = [f for f in t.f if f is not sel]
                new = []
                for f in fs:
                    if any(n in _param_vars(p) for p in f[0].params):
                        return None
                    args = []
                    for q in f[3]:
                        if isinstance(q[0], SymInt) and n in free_vars(q[0]):
                            k = q[0].p.get(((n, 1),), 0)
                            r0 = subst_int(q[0], {n: 0})
                            if n in free_vars(q[0] - k * SymInt({((n, 1),): 1})):
                                return None
                            q = T.arg_sub((r0 + k * (y[0] - rest), q[1]), (0, ((-k, w),)))
                        args.append(q)
                    new.append((f[0], f[1], f[2], tuple(args)))
                if not (ile(lo, val_lo) and ile(val_hi, hi - 1)):
                    ind = T.atom('ind', (lo - (y[0] - rest), hi - (y[0] - rest)), '', (None,), real=True, pos=True)
                    new.append((ind, False, Fraction(1), (T.arg(w),)))
                return T.Term(t.c, new)
    return None


def _param_vars(p):
    if isinstance(p, SymInt):
        return free_vars(p)
    if isinstance(p, T.TV):
        out = set()
        for t in p.terms:
            for f in t.f:
                for q in f[0].params:
                    out |= _param_vars(q)
                for a in f[3]:
                    out |= free_vars(a[0])
        for w in p.free():
            out |= free_vars(T.WSIZE[w])
        return out
    if isinstance(p, tuple):
        out = set()
        for q in p:
            out |= _param_vars(q)
        return out
    return set()


def _mentions_var(f, n):
    a, cj, e, ar = f
    if any(n in _param_vars(p) for p in a.params):
        return True
    if a.sizes and any(isinstance(s, SymInt) and n in free_vars(s) for s in a.sizes):
        return True
    for x in ar:
        if isinstance(x[0], SymInt) and n in free_vars(x[0]):
            return True
        for c, w in x[1]:
            if isinstance(c, SymInt) and n in free_vars(c):
                return True
            if isinstance(T.WSIZE[w], SymInt) and n in free_vars(T.WSIZE[w]):
                return True
    return False


# ------------------------------------------------------------------ loops

class Frame:
    def __init__(self, vars_):
        self.start = _tick()
        self.vars = [SymInt({((n, 1),): 1}) for n, _, _ in vars_]
        self.spec = vars_
        self.names = {n for n, _, _ in vars_}
        self.snaps = {}
        self.ops = {}
        self.acc = {}            # id(storage) -> (storage, sum tv)
        self.places = {}         # placeholders: key -> (atom name, initial value)
        self.reads = set()       # ids of the tensors read
        self.rkeys = []          # (dict, key) reads
        self.handed = []         # objects of summarised ranges used by the body, and their state
        self.probe = True
        self.outer = [(f, {k: len(v) for k, v in f.ops.items()}) for f in frames()]   # what enclosing loops had recorded before

    def touch(self, obj, op=None):
        if obj.birth >= self.start:
            return
        if id(obj) not in self.snaps:
            self.snaps[id(obj)] = (obj, obj._snap())
        self.ops.setdefault(id(obj), []).append(op)

    def accum(self, stg, v):
        self.touch(stg, ('accum',))
        o = self.acc.get(id(stg))
        self.acc[id(stg)] = (stg, v if o is None else T.add(o[1], v))

    def read(self, stg):
        if stg.birth < self.start:
            self.reads.add(id(stg))
        if id(stg) in self.acc:
            raise Unsupported('tensor read while it is being accumulated in a loop')

    def read_key(self, d, key):
        if d.birth < self.start:
            self.rkeys.append((d, key))

    def rollback(self):
        for obj, s in self.snaps.values():
            obj._restore(s)


class _Acc:
    """Marker for loop-carried scalars."""


def for_each(it, f):
    """for x in it: f(x)"""
    h = ForLoop(it, ())
    for x in h:
        if h.sym:
            h.top()
        f(x)
    if h.sym:
        h.exit()


class ForLoop:
    """Driver of a transformed for statement."""

    def __init__(self, it, names):
        self.names = names
        self.parts = None
        self.native = None
        self.done = False
        self.strided = it if isinstance(it, SymRange) and not (isinstance(it.step, int) and it.step in (1, -1)) else None
        if isinstance(it, SymRange):
            self.parts = it._parts()
        elif isinstance(it, SymList):
            if it.parts is not None:
                self.parts = list(it.parts)
            else:
                self.native = list.__iter__(it)
        elif isinstance(it, SymDict):
            k = it.keys()
            self.parts = k.parts
            if k.parts is None:
                self.native = list.__iter__(k)
        elif isinstance(it, _SymIter):
            self.parts = it.parts()
        elif isinstance(it, STensor):
            self.native = iter(it)
        else:
            self.native = iter(it)
        self.sym = self.parts is not None
        self.frame = None
        self.locals0 = None
        self.places = {}
        self.cur = None

    def __iter__(self):
        if not self.sym:
            n = 0
            for x in self.native:
                n += 1
                if n > 5000:
                    raise Unsupported('loop does not terminate within 5000 iterations')
                yield x
            self.done = True
            return
        ctx = CTX()
        self.pending = None       # frame whose end values are still to be summarised
        cut = ctx.data.get('cut')
        if cut is not None and len(self.parts) == 1 and self.parts[0][0] == 's' and len(self.parts[0][1]) == 1 and not frames():
            yield from self._cut(ctx, cut)
            return
        if self.strided is not None and not frames() and ctx.data.get('chunks'):
            yield from self._chunks(ctx, self.strided)
            return
        for p in self.parts:
            if p[0] == 'e':
                self.mode = 'plain'
                yield p[1]
                continue
            vs0 = p[1]
            # empty range: nothing happens
            for n, lo, hi in vs0:
                pass
            nonempty = True
            for n, lo, hi in vs0:
                if not ile(lo, hi - 1):
                    if not ctx.decide(z3i(hi) > z3i(lo), 'loop range not empty'):
                        nonempty = False
                        break
            if not nonempty:
                continue
            m, vs = {}, []
            for n, lo, hi in vs0:
                f = ctx.fresh('i')
                lo2, hi2 = vsubst(lo, m), vsubst(hi, m)
                if isinstance(lo2, int) and lo2 >= 0:
                    ctx.nonneg.add(f)
                if isinstance(lo2, int) and lo2 >= 1:
                    ctx.positive.add(f)
                m[n] = SymInt({((_iatom('var', (), f).key, 1),): 1})
                vs.append((f, lo2, hi2))
            val = vsubst(p[2], m)
            pc0 = list(ctx.pc)
            rng = []
            for f, lo, hi in vs:
                rng += [z3.Int(f) >= z3i(lo), z3.Int(f) < z3i(hi)]
            for e in rng:
                ctx.assume(e)
            for probe in (True, False):
                fr = Frame(vs)
                fr.probe = probe
                if not probe:
                    fr.places = self.probe_places
                    fr.outer = self.frame.outer
                frames().append(fr)
                fr.scope = {'vars': [f for f, _, _ in vs], 'pc': pc0, 'range': rng}
                ctx.scope.append(fr.scope)
                self.frame = fr
                self.mode = 'probe' if probe else 'real'
                if not probe:
                    self._install(fr)
                yield val
                # end of the body
                if probe:
                    frames().pop()
                    ctx.scope.pop()
                    self.probe_end = 'pending'
                    self._probe_end(fr)
                    self.mode = 'after-probe'
                else:
                    self.pending = fr
                    self.mode = 'after-real'
                    # finished by the next top() or exit(), which know the values of the locals
        self.done = True

    # -- invariant reasoning with early exits
    def _cut(self, ctx, cut):
        """Loop invariant supplied by the proof unit, for loops that may be left early: cut(names, values before the loop,
        lo, hi) -> object with head(ctx, i): values at the head of iteration i (arbitrary, satisfying the invariant),
        back(ctx, i, values): checks that an iteration that runs to its end preserves the invariant, and after(ctx):
        values after the last iteration.  The paths are: one arbitrary iteration (which ends, or leaves the loop and goes on
        in the code behind it), and the state after the last iteration."""
        n, lo, hi = self.parts[0][1][0]
        self.cut = cut
        if ctx.choice(2, 'an iteration / after the last one') == 1:
            self.mode = 'cut-after'
            self.bounds = (lo, hi)
            ctx.assume(z3i(hi) >= z3i(lo))
            self.done = True
            return
        f = ctx.fresh('i')
        if isinstance(lo, int) and lo >= 0:
            ctx.nonneg.add(f)
        i = SymInt({((_iatom('var', (), f).key, 1),): 1})
        ctx.assume(z3.And(z3i(i) >= z3i(lo), z3i(i) < z3i(hi)))
        self.index, self.bounds = i, (lo, hi)
        self.mode = 'cut-body'
        yield vsubst(self.parts[0][2], {n: i})
        self.mode = 'cut-end'
        self.done = True

    # -- loops over chunks
    def _chunks(self, ctx, r):
        """for a in range(lo, hi, step) whose body fills, in dictionaries that are empty before the loop, the keys
        a .. min(a + step, hi) - 1.  Invariant: at the head of the iteration that starts at a every such dictionary holds
        f(j) for the keys lo <= j < a, where f is what an iteration writes at its first key.  One iteration at an arbitrary
        a in the range is executed; all its entries have to be f at their key, so that the invariant holds at
        min(a + step, hi), and after the loop at hi."""
        if not ctx.decide(z3i(r.hi) > z3i(r.lo), 'loop range not empty'):
            self.done = True
            return
        a = ctx.fresh('a')
        if isinstance(r.lo, int) and r.lo >= 0:
            ctx.nonneg.add(a)
        A = SymInt({((_iatom('var', (), a).key, 1),): 1})
        ctx.assume(z3.And(z3i(A) >= z3i(r.lo), z3i(A) < z3i(r.hi)))
        ctx.data.setdefault('chunk_loops', []).append((A, r))
        fr = Frame([])
        fr.names = {a}
        frames().append(fr)
        self.mode = 'chunk'
        yield A
        frames().pop()
        end = imin(A + r.step, r.hi)
        for obj, snap in fr.snaps.values():
            if isinstance(obj, SymDict):
                self._chunk_dict(ctx, fr, obj, snap, a, A, end, r)
            elif hasattr(obj, 'only_read') and obj.only_read(snap):
                pass
            else:
                raise Unsupported(f'loop over chunks modifies a {type(obj).__name__}')
        self.mode = 'chunk-end'
        self.done = True

    def _chunk_dict(self, ctx, fr, d, snap, a, A, end, r):
        if snap or any(dd is d for dd, _ in fr.rkeys):
            raise Unsupported('dictionary not empty before a loop over chunks, or read in it')
        f, covered = None, A

        def same(x, y, what):
            if isinstance(x, STensor) and isinstance(y, STensor) and x.dtype is y.dtype and len(x._sh) == len(y._sh) and T.equal(x.tv, y.tv)[0]:
                return
            raise Unsupported(f'{what} of a loop over chunks depend on more than their key')
        for p in d.log:
            if p[0] == 'e':
                if not ieq(p[1], covered):
                    raise Unsupported('keys of a loop over chunks')
                if f is None:
                    f = p[2]
                same(p[2], vsubst(f, {a: p[1]}), 'entries')
                covered = covered + 1
            else:
                if len(p[1]) != 1:
                    raise Unsupported('keys of a loop over chunks')
                v, lo, hi = p[1][0]
                V = SymInt({((v, 1),): 1})
                if not ieq(p[2] - V + lo, covered):
                    raise Unsupported('keys of a loop over chunks')
                if f is None:
                    f = vsubst(p[3], {v: lo})
                ctx.solver.push()
                n, dfd = len(ctx.pc), set(ctx.defined)
                try:
                    ctx.define(z3.And(z3.Int(v) >= z3i(lo), z3.Int(v) < z3i(hi)))
                    same(p[3], vsubst(f, {a: p[2]}), 'entries')
                finally:
                    ctx.solver.pop()
                    del ctx.pc[n:]
                    ctx.defined = dfd
                    for c in (ctx.proved, ctx.cache, ctx.z3memo):
                        c.clear()
                covered = covered + hi - lo
        if not ieq(covered, end):
            raise Unsupported('keys of a loop over chunks')
        j = ctx.fresh('i')
        J = SymInt({((_iatom('var', (), j).key, 1),): 1})
        ctx.nonneg.add(j)
        d.log = [('s', [(j, r.lo, r.hi)], J, vsubst(f, {a: J}))]

    # -- carried state
    def _probe_end(self, fr):
        """Find which older state the body overwrites with loop-independent keys; roll back."""
        places = {}
        for i, (obj, snap) in fr.snaps.items():
            if isinstance(obj, SymDict):
                old = {j: p for j, p in enumerate(snap)}
                for j, p in enumerate(obj.log[:len(snap)]):
                    if p is not snap[j] and p[0] == 'e' and snap[j][0] == 'e' and p[2] is not snap[j][2]:
                        places[('dict', i, j)] = (obj, j, snap[j][2])
            elif getattr(type(obj), '_acev_inst', False):
                for k, v in obj.__dict__.items():
                    if k not in snap or snap[k] is not v:
                        if k in snap and _is_number(snap[k]):
                            places[('attr', i, k)] = (obj, k, snap[k], v)
        fr.rollback()
        self.probe_places = places

    def _install(self, fr):
        """Replace loop-carried numbers by placeholders."""
        fr.holders = {}
        for key, info in fr.places.items():
            if key[0] == 'dict':
                obj, j, init = info
                ph = _placeholder(init) if _is_number(init) else Poison('dictionary entry carried through a loop')
                fr.holders[key] = (obj, j, init, ph)
                fr.touch(obj)
                p = obj.log[j]
                obj.log[j] = ('e', p[1], ph)
            elif key[0] == 'attr':
                obj, k, init, newv = info
                if isinstance(init, (int, SymInt)) and not isinstance(init, bool):
                    # closed form of a counter
                    c = newv - init if isinstance(newv, (int, SymInt)) else None
                    if c is None or (isinstance(c, SymInt) and free_vars(c) & fr.names):
                        raise Unsupported('attribute carried through a loop')
                    if len(fr.spec) != 1:
                        raise Unsupported('counter in a nested segment')
                    f, lo, hi = fr.spec[0]
                    start = init + c * (SymInt({((f, 1),): 1}) - lo)
                    fr.holders[key] = (obj, k, init, start, c)
                    fr.touch(obj)
                    obj.__dict__[k] = start
                else:
                    ph = _placeholder(init)
                    fr.holders[key] = (obj, k, init, ph, None)
                    fr.touch(obj)
                    obj.__dict__[k] = ph

    def top(self, *vals):
        """Called at the start of the body with the values of the locals assigned in it."""
        if self.mode == 'cut-body':
            self.inv = self.cut(self.names, vals, *self.bounds)
            return tuple(self.inv.head(CTX(), self.index))
        if self.mode == 'chunk':
            return tuple(v if v is UNDEF else Poison(f'local variable {nm} carried through a loop over chunks') for nm, v in zip(self.names, vals))
        if self.pending is not None:
            fr, self.pending = self.pending, None
            vals = self._finish(fr, vals)
        if self.mode in ('probe',):
            self.locals0 = vals
        if self.mode == 'real':
            # locals0: values before the loop part; carried numbers become placeholders
            out = []
            self.lholders = []
            for nm, v in zip(self.names, self.locals0):
                inv = self._invariant(nm, v)
                if v is UNDEF:
                    out.append(UNDEF)
                    self.lholders.append(None)
                elif inv is not None:
                    out.append(inv.start(CTX()))
                    self.lholders.append(inv)
                elif _is_number(v):
                    ph = _placeholder(v)
                    out.append(ph)
                    self.lholders.append((v, ph))
                else:
                    out.append(Poison(f'local variable {nm} carried through a loop over a symbolic range'))
                    self.lholders.append(None)
            return tuple(out)
        if self.mode == 'probe':
            return tuple(v if (v is UNDEF or _is_number(v) or self._invariant(nm, v) is not None) else Poison(f'local variable {nm} carried through a loop over a symbolic range')
                         for nm, v in zip(self.names, vals))
        return vals

    def _invariant(self, nm, v):
        """Loop invariant for a tensor carried through the loop, supplied by the proof unit:
        an object with start(ctx) -> arbitrary value satisfying it, and end(ctx, value) -> checks that the body preserves
        it and returns an arbitrary final value satisfying it."""
        f = CTX().data.get('invariants')
        if f is None or not isinstance(v, STensor) or not len(v._sh):
            return None
        memo = self.__dict__.setdefault('_invs', {})
        if nm not in memo:
            memo[nm] = f(nm, v)
        return memo[nm]

    def last(self, vals):
        """Value of the loop target after the loop."""
        if getattr(self, 'mode', None) == 'cut-body':
            return vals[0]
        if self.parts and self.parts[-1][0] == 's':
            return Poison('loop variable used after a loop over a symbolic range')
        return vals[0]

    def exit(self, *vals):
        m = getattr(self, 'mode', None)
        if m == 'cut-after':
            return tuple(self.cut(self.names, vals, *self.bounds).after(CTX()))
        if m == 'cut-end':
            self.inv.back(CTX(), self.index, vals)
            raise PathEnd()
        if m == 'cut-body':
            return vals
        if not self.done:
            raise Unsupported('break out of a loop over a symbolic range')
        if m == 'chunk-end':
            return tuple(Poison(f'value of {nm} after a loop over chunks') for nm in self.names)
        if self.pending is not None:
            fr, self.pending = self.pending, None
            vals = self._finish(fr, vals)
        return vals

    def _finish(self, fr, vals):
        ctx = CTX()
        nxt = self.frame if self.frame is not fr else None
        if nxt is not None:        # the frame of the next part is already active: put it aside
            assert frames().pop() is nxt and ctx.scope.pop() is nxt.scope
        assert frames().pop() is fr and ctx.scope.pop() is fr.scope
        try:
            return self._finish1(ctx, fr, vals)
        finally:
            if nxt is not None:
                nxt.start = _tick()
                frames().append(nxt)
                ctx.scope.append(nxt.scope)

    def _finish1(self, ctx, fr, vals):
        spec = fr.spec
        if any(state_of(v) != s for v, s in fr.handed):
            raise Unsupported('loop changes objects of an earlier range')
        # locals
        out = []
        for nm, v, h in zip(self.names, vals, self.lholders):
            if h is not None and not isinstance(h, tuple):
                out.append(h.end(ctx, v))
            elif h is not None:
                out.append(_summed(spec, h[0], h[1], v, nm))
            elif v is UNDEF:
                out.append(UNDEF)
            else:
                out.append(Poison(f'value of {nm} after a loop over a symbolic range'))
        # heap
        for i, (obj, snap) in list(fr.snaps.items()):
            if isinstance(obj, Storage):
                _fin_storage(fr, spec, obj, snap)
            elif isinstance(obj, SymDict):
                _fin_dict(fr, spec, obj, snap, i)
            elif isinstance(obj, SymList):
                _fin_list(fr, spec, obj, snap)
            elif getattr(type(obj), '_acev_inst', False):
                _fin_inst(fr, spec, obj, snap, i)
            elif hasattr(obj, '_finish_loop'):
                obj._finish_loop(fr, spec, snap)
            else:
                raise Unsupported(f'loop modifies a {type(obj).__name__}')
        # the outer frames must see the generalised changes as modifications
        for f in frames():
            for obj, snap in fr.snaps.values():
                if obj.birth < f.start and id(obj) not in f.snaps:
                    f.snaps[id(obj)] = (obj, snap)
        return tuple(out)


def _is_number(v):
    return (isinstance(v, (int, float, SymInt, Fraction)) and not isinstance(v, bool)) or (isinstance(v, STensor) and len(v._sh) == 0)


def _placeholder(init):
    ctx = CTX()
    nm = ctx.fresh('acc')
    if isinstance(init, SymInt):
        return ivar(nm)
    a = T.atom('acc', (nm,), '', (), real=True)
    t = STensor(T.leaf(a), init.dtype if isinstance(init, STensor) else st.float64)
    t._accname, t._ph0 = nm, t.tv
    return t


def _summed(spec, init, ph, v, what):
    if v is ph and (not isinstance(ph, STensor) or ph.tv is ph._ph0):
        return init
    if isinstance(v, Poison):
        return v
    if isinstance(ph, Poison):
        return Poison(f'{what} after a loop')
    if isinstance(ph, SymInt):
        if not isinstance(v, (int, SymInt)):
            return Poison(f'{what} after a loop')
        c = v - ph
        n = ikey(ph)
        if isinstance(c, SymInt) and (free_vars(c) & (free_vars(ph) | {x[0] for x in spec})):
            return Poison(f'{what} after a loop')
        return init + c * seg_size(spec)
    if not isinstance(v, STensor) or len(v._sh):
        return Poison(f'{what} after a loop')
    d = T.sub(v.tv, ph._ph0)
    at = ph._ph0.terms[0].f[0][0]
    for t in d.terms:
        for f in t.f:
            if f[0] is at or at.key in f[0].key or any(isinstance(p, T.TV) and at.key in p.canon() for p in f[0].params):
                return Poison(f'{what} is not a plain sum over the loop')
    s = sigma(spec, d)
    return STensor(T.add(st.as_tv(init), s), v.dtype)


def _fin_storage(fr, spec, obj, snap):
    ops = fr.ops[id(obj)]
    if id(obj) in fr.acc:
        if any(o != ('accum',) for o in ops):
            raise Unsupported('tensor both accumulated and overwritten in a loop')
        obj._tv = T.add(snap, sigma(spec, fr.acc[id(obj)][1]))
        obj.version += 1
        return
    writes = [o for o in ops if o[0] == 'set']
    if len(writes) == 1 and len(ops) == 1 and len(writes[0]) >= 3:
        if id(obj) in fr.reads:
            raise Unsupported('tensor read and overwritten in a loop')
        rest, v = block_write(spec, snap, writes[0][1], writes[0][2])
        stack = [snap]
        for o in rest[:-1]:
            stack.append(st._apply(o, stack[-1]))
        new = v
        for o, b in zip(reversed(rest), reversed(stack)):
            new = st._scatter(o, b, new)
        obj._tv = new
        obj.version += 1
        for f, n in fr.outer:      # one write of the whole range for the enclosing loops
            if id(obj) in f.ops:
                f.ops[id(obj)][n.get(id(obj), 0):] = [('set', tuple(rest), v) if rest else ('set',)]
        return
    raise Unsupported('tensor overwritten in a loop')


def block_write(spec, base, ops, v):
    """All iterations write v(i) into the region given by slices/indices of the base: generalise when the
    regions cover their axes and the written values agree as functions of the absolute position.
    Returns the view that is written as a whole (axes restricted independently of the loop) and its value."""
    ctx = CTX()
    if any(o[0] not in ('slice', 'index') for o in ops):
        raise Unsupported('write through a reshaped view in a loop')
    naxes = len(base.axes)
    # bring the view to full rank: index -> slice of width one
    vv = v.fresh()
    axes_ids = list(range(naxes))
    region = {}
    vaxes = list(vv.axes)
    live = list(range(naxes))
    dropped = []
    for o in ops:
        ax = live[o[1]]
        if o[0] == 'slice':
            if ax in region:
                raise Unsupported('nested slices')
            region[ax] = (o[2], o[3])
        else:
            region[ax] = (o[2], o[2] + 1)
            live.remove(ax)
            dropped.append(ax)
    b = base.fresh()
    for g in b.axes:
        if len(g) != 1:
            raise Unsupported('block write into merged axes')
    m = {}
    out_axes = []
    k = 0
    vmap = {}
    names = {n for n, _, _ in spec}
    rest = []
    for ax in range(naxes):
        n = T.WSIZE[b.axes[ax][0]]
        if ax in region:
            lo, hi = region[ax]
            if not any(isinstance(x, SymInt) and free_vars(x) & names for x in (lo, hi)) and not (ieq(lo, 0) and ieq(hi, n)):
                rest.append(('slice', ax, lo, hi))
                del region[ax]
                if ax in dropped:
                    out_axes.append((T.wire(1),))
                else:
                    out_axes.append(vaxes[k])
                    k += 1
                continue
        w = T.wire(n)
        out_axes.append((w,))
        if ax in dropped:
            vmap[ax] = w
            continue
        g = vaxes[k]
        k += 1
        if len(g) != 1:
            raise Unsupported('block write of a merged axis')
        lo = region[ax][0] if ax in region else 0
        m[g[0]] = (0 - lo, ((1, w),))
        vmap[ax] = w
    terms = [T.term_subst(t, m) for t in vv.terms]
    # eliminate the loop variables: an index i fixed to a position by a width-one region
    cover = []
    for ax, (lo, hi) in region.items():
        fv = free_vars(lo) & names if isinstance(lo, SymInt) else set()
        cover.append((ax, lo, hi, fv))
    # width-one regions with lo = i (+c): absolute position determines i; replace i by the wire
    new_terms = []
    for t in terms:
        fs = []
        for f in t.f:
            if any(_param_vars(p) & names for p in f[0].params):
                raise Unsupported('block value depends on the block')
            args = []
            for q in f[3]:
                fvq = free_vars(q[0]) & names if isinstance(q[0], SymInt) else set()
                for n in fvq:
                    ax = next((a for a, lo, hi, fv in cover if fv == {n} and lo.p.get(((n, 1),)) == 1 and not free_vars(subst_int(lo, {n: 0})) & names and ieq(hi - lo, 1)), None)
                    if ax is None:
                        raise Unsupported('block value depends on the block')
                    kf = q[0].p.get(((n, 1),), 0)
                    if isinstance(q[0] - kf * SymInt({((n, 1),): 1}), SymInt) and n in free_vars(q[0] - kf * SymInt({((n, 1),): 1})):
                        raise Unsupported('block value depends on the block')
                    q = (subst_int(q[0], {n: 0 - subst_int(region[ax][0], {n: 0})}), tuple(list(q[1]) + [(kf, vmap[ax])]))
                    q = T.arg_sub(q, (0, ()))
                args.append(q)
            fs.append((f[0], f[1], f[2], tuple(args)))
        new_terms.append(T.Term(t.c, fs))
    # coverage: every position of each axis lies in a block; blocks of different axes vary independently
    used = [fv for _, _, _, fv in cover]
    for i in range(len(used)):
        for j in range(i):
            if used[i] & used[j]:
                raise Unsupported('blocks of two axes share an index')
    for ax, lo, hi, fv in cover:
        n = T.WSIZE[b.axes[ax][0]]
        if not fv:
            if not (ieq(lo, 0) and ieq(hi, n)):
                raise Unsupported('block write leaves part of the tensor unwritten')
            continue
        if len(fv) != 1:
            raise Unsupported('block bounds')
        v1 = next(iter(fv))
        f, l0, h0 = next(s for s in spec if s[0] == v1)
        # contiguous blocks: lo(first) = 0, hi(last) >= n, lo(i+1) <= hi(i)
        nxt = SymInt({((f, 1),): 1}) + 1
        ok = ieq(subst_int(lo, {f: l0}), 0)
        last = h0 - 1
        ok = ok and ile(n, subst_int(hi, {f: last}))
        if not ok:
            raise Unsupported('blocks do not cover the axis')
        e = z3.Implies(z3.Int(f) + 1 < z3i(h0), z3i(subst_int(lo, {f: nxt})) <= z3i(hi))
        if not ctx.known(e):
            raise Unsupported('blocks leave gaps')
        ctx.obligations.append(Obligation(ctx.unit, f'blocks cover axis {ax}', True, 'z3'))
    axes = out_axes
    return rest, T.TV(axes, [T._fresh_sums(t, axes) for t in new_terms]).simplify()


def _fin_dict(fr, spec, d, snap, i):
    new = d.log
    if len(new) < len(snap):
        raise Unsupported('dictionary entries removed in a loop')
    log = []
    for j, p in enumerate(new):
        if j < len(snap):
            key = ('dict', i, j)
            if key in getattr(fr, 'holders', {}):
                obj, jj, init, ph = fr.holders[key]
                log.append(('e', p[1], _summed(spec, init, ph, p[2], f'dictionary entry {p[1]}')))
            elif p is snap[j] or (p[0] == snap[j][0] == 'e' and p[1] is snap[j][1] and p[2] is snap[j][2]):
                log.append(p)
            else:
                raise Unsupported('dictionary entry overwritten in a loop')
            continue
        log.append(_gen_entry(fr, spec, p))
    added = [p for p in log[len(snap):] if p[0] == 's']
    _check_conflicts(fr, spec, d, [p[2] for p in added])
    d.log = log


def _gen_entry(fr, spec, p):
    if p[0] == 'e':
        if not mentions_key(p[1], fr.names):
            if mentions(p[2], fr.names):
                return ('e', p[1], Poison('dictionary entry written in every iteration of a loop'))
            if fr.names and not _is_number(p[2]):
                # same value in every iteration
                return p
            return p
        return ('s', list(spec), p[1], p[2])
    return ('s', list(spec) + list(p[1]), p[2], p[3])


def mentions_key(k, names):
    if isinstance(k, SymInt):
        return bool(free_vars(k) & names)
    if isinstance(k, tuple):
        return any(mentions_key(x, names) for x in k)
    if getattr(type(k), '_acev_inst', False) and hasattr(k, '__dataclass_fields__'):
        return any(mentions_key(getattr(k, f), names) for f in k.__dataclass_fields__)
    return False


def _check_conflicts(fr, spec, d, wkeys):
    """No iteration reads or writes a key that another iteration writes."""
    ctx = CTX()
    if not wkeys:
        return
    rkeys = [k for dd, k in fr.rkeys if dd is d]
    prime = {f: SymInt({((_iatom('var', (), f + '~').key, 1),): 1}) for f, _, _ in spec}
    rng = []
    for f, lo, hi in spec:
        x = prime[f]
        lo2, hi2 = vsubst(lo, prime), vsubst(hi, prime)
        rng += [zb(x >= lo2), zb(x < hi2)]
    diff = z3.Or(*[z3.Int(f) != z3.Int(f + '~') for f, _, _ in spec])
    for w in wkeys:
        for k in wkeys + rkeys:
            e = key_eq(w, vsubst(k, prime))
            if e is False:
                continue
            e = z3.BoolVal(True) if e is True else e
            if not ctx.known(z3.Not(z3.And(*(rng + [diff, e])))):
                raise Unsupported('an iteration of the loop reads or overwrites what another iteration writes')


def _fin_list(fr, spec, l, snap):
    old = [('e', x) for x in snap[0]] if snap[1] is None else list(snap[1])
    new = l._toparts()
    if len(new) < len(old) or any(a is not b and not (a[0] == b[0] == 'e' and a[1] is b[1]) for a, b in zip(old, new)):
        raise Unsupported('list changed in a loop other than by appending')
    app = new[len(old):]
    if len(app) == 0:
        return
    if len(app) > 1:
        out = [('s', list(spec), ('group', tuple(app)))] if False else None
        raise Unsupported('several list appends per iteration')
    p = app[0]
    seg = ('s', list(spec), p[1]) if p[0] == 'e' else ('s', list(spec) + list(p[1]), p[2])
    l._setparts(old + [seg])


def _fin_inst(fr, spec, obj, snap, i):
    for k, v in list(obj.__dict__.items()):
        if k in snap and snap[k] is v:
            continue
        key = ('attr', i, k)
        h = getattr(fr, 'holders', {}).get(key)
        if h is not None:
            _, _, init, ph, c = h
            if c is not None:
                want = ph + c
                if not (isinstance(v, (int, SymInt)) and ieq(v, want)):
                    raise Unsupported('counter carried through a loop')
                obj.__dict__[k] = init + c * seg_size(spec)
            else:
                obj.__dict__[k] = _summed(spec, init, ph, v, k)
        elif k in snap:
            obj.__dict__[k] = Poison(f'attribute {k} overwritten in a loop')
        else:
            obj.__dict__[k] = v if not mentions(v, fr.names) else Poison(f'attribute {k} set in a loop')


class _SymIter:
    """enumerate / zip over symbolic sequences."""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def parts(self):
        if self.kind == 'enumerate':
            seq, start = self.args
            ps = to_parts(seq)
            out = []
            off = start
            for p in ps:
                if p[0] == 'e':
                    out.append(('e', (off, p[1])))
                    off = off + 1
                else:
                    pos = 0
                    for k, (n, lo, hi) in enumerate(p[1]):
                        pos = pos + (SymInt({((n, 1),): 1}) - lo) * seg_size(p[1][k + 1:])
                    out.append(('s', p[1], (off + pos, p[2])))
                    off = off + seg_size(p[1])
            return out
        raise Unsupported('zip over symbolic sequences')

    def __iter__(self):
        raise Unsupported('native iteration')


# ------------------------------------------------------------------ comprehension

def unpack(x, pat):
    if pat == 1:
        return (x,)
    xs = tuple(x)
    if len(xs) != len(pat):
        raise ValueError('unpacking')
    return tuple(z for y, p in zip(xs, pat) for z in unpack(y, p))


def comp(gens, elt):
    """List comprehension: gens = list of (iterable function, [condition functions]); functions take the
    already bound values as a tuple."""
    out = SymList()

    def rec(k, bound):
        if k == len(gens):
            out.append(elt(*bound))
            return
        it, conds, pat = gens[k]
        lp = ForLoop(it(*bound), ())
        lp.lholders = []
        for x in lp:
            if lp.sym:
                lp.top()
            b = bound + unpack(x, pat)
            if all(c(*b) for c in conds):
                rec(k + 1, b)
        if lp.sym:
            lp.exit()
    rec(0, ())
    return out


# ------------------------------------------------------------------ instances

def instrument_class(cls):
    """Track attribute writes of a class defined in the code under verification."""
    cls._acev_inst = True
    orig = cls.__dict__.get('__setattr__')
    if orig is not None or '__slots__' in cls.__dict__:
        return cls

    def __setattr__(self, k, v):
        if frames():
            touch(self, ('attr', k))
        object.__setattr__(self, k, v)
    frozen = getattr(getattr(cls, '__dataclass_params__', None), 'frozen', False)
    if not frozen:
        cls.__setattr__ = __setattr__

    def birth(self):
        b = self.__dict__.get('_acev_birth')
        if b is None:
            b = self.__dict__['_acev_birth'] = _tick() if False else 0
        return b
    new = cls.__new__

    def __new__(c, *a, **k):
        o = object.__new__(c) if new is object.__new__ else new(c, *a, **k)
        o.__dict__['_acev_birth'] = _tick()
        return o
    if new is object.__new__:
        cls.__new__ = __new__
    cls.birth = property(birth)

    def _snap(self):
        return dict(self.__dict__)

    def _restore(self, s):
        self.__dict__.clear()
        self.__dict__.update(s)
    cls._snap, cls._restore = _snap, _restore
    return cls
