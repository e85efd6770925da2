"""Symbolic tensors: sums of products of (conjugated, powered) atoms over index wires.

A TV ("tensor value") has axes, each a row-major group of wires, and a list of terms.  A term is a
coefficient times factors; every wire that is not free is summed.  All sizes are integer expressions.
Equality is decided by rewriting with the contracts of the linear-algebra primitives (QR, SVD, ...)
and canonical labelling of the resulting networks.
"""
from fractions import Fraction
import hashlib
import itertools
import time
from .core import (SymInt, SymRat, SymBool, Unsupported, CTX, STATS, ikey, ieq, ile, imin, imax, idiv_exact, ivar,
                   subst_int, z3i, free_vars)
from . import core
import z3


class ShapeError(RuntimeError):
    """The executed code combines tensors of incompatible shapes: a run-time error of the real code."""


# ---------------------------------------------------------------- wires / args
_wn = itertools.count(1)
WSIZE = {}


def wire(size):
    w = next(_wn)
    WSIZE[w] = size
    return w


def arg(w):
    return (0, ((1, w),))


def carg(c):
    return (c, ())


def is_wire(a):
    return a[0] == 0 and isinstance(a[0], int) and len(a[1]) == 1 and isinstance(a[1][0][0], int) and a[1][0][0] == 1


def arg_wires(a):
    return [w for _, w in a[1]]


def arg_subst(a, m):
    if not any(w in m for _, w in a[1]):
        return a
    off, ts = a[0], {}
    for c, w in a[1]:
        if w in m:
            o, t2 = m[w]
            off = off + c * o
            for c2, w2 in t2:
                ts[w2] = ts.get(w2, 0) + c * c2
        else:
            ts[w] = ts.get(w, 0) + c
    return (off, tuple(sorted(((c, w) for w, c in ts.items() if not (isinstance(c, int) and c == 0)), key=lambda t: t[1])))


def arg_sub(a, b):
    m = {w: c for c, w in a[1]}
    for c, w in b[1]:
        m[w] = m.get(w, 0) - c
    return (a[0] - b[0], tuple(sorted(((c, w) for w, c in m.items() if not (isinstance(c, int) and c == 0)), key=lambda t: t[1])))


# ---------------------------------------------------------------- atoms
_atom_tab = {}


class Atom:
    __slots__ = ('key', 'kind', 'slot', 'params', 'sizes', 'real', 'pos', 'info')

    def __repr__(self):
        return self.key if len(self.key) < 40 else self.key[:37] + '...'


def _pkey(p):
    if isinstance(p, (int, SymInt)):
        return ikey(p)
    if isinstance(p, TV):
        return p.canon()
    if isinstance(p, tuple):
        return '<' + ','.join(_pkey(x) for x in p) + '>'
    return str(p)


def atom(kind, params, slot, sizes, real=False, pos=False, info=None):
    key = f'{kind}[{";".join(_pkey(p) for p in params)}]' + (f'.{slot}' if slot else '')
    if len(key) > 80:
        key = f'{kind}#{hashlib.sha1(key.encode()).hexdigest()[:16]}' + (f'.{slot}' if slot else '')
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.key, a.kind, a.slot, a.params, a.sizes = key, kind, slot, params, tuple(sizes)
        a.real, a.pos, a.info = real, pos, info or {}
        _atom_tab[key] = a
    return a


def subst_param(p, m):
    if isinstance(p, SymInt):
        return subst_int(p, m)
    if isinstance(p, TV):
        return p.subst(m)
    if isinstance(p, tuple):
        return tuple(subst_param(x, m) for x in p)
    return p


REBUILD = {}    # kind -> function of the parameters giving the atom


def subst_atom(a, m):
    if a.kind == 'delta':
        return a
    np_ = tuple(subst_param(p, m) for p in a.params)
    if all(x is y for x, y in zip(np_, a.params)) and a.params:
        pass
    if all(_pkey(x) == _pkey(y) for x, y in zip(np_, a.params)):
        return a
    if a.kind in REBUILD:
        return REBUILD[a.kind](*np_)
    info = dict(a.info)
    if 'M' in info:
        info['M'] = np_[0] if isinstance(np_[0], TV) else info['M']
    if 'inner' in info:
        info['inner'] = np_[0]
    return atom(a.kind, np_, a.slot, [subst_int(s, m) for s in a.sizes], a.real, a.pos, info)


DELTA = atom('delta', (), '', (None, None), real=True, pos=True)


def _reset():
    """Atoms belong to a path: sizes equal on one path differ on another."""
    _atom_tab.clear()
    _atom_tab[DELTA.key] = DELTA
    _size_alias.clear()


_size_alias = {}      # size key -> key of an equal size (on this path)


def size_key(x):
    k = ikey(x)
    return _size_alias.get(k, k)


def _merge_sizes(d):
    """Sizes that are written differently but known to be equal on this path get one key. True if some were merged."""
    sizes = {}
    for t in d.terms:
        for w in term_wires(t):
            x = WSIZE[w]
            if isinstance(x, SymInt):
                sizes.setdefault(size_key(x), x)
    ks, new = sorted(sizes), False
    for i, k in enumerate(ks):
        for l in ks[:i]:
            if _size_alias.get(l, l) == l and ieq(sizes[k], sizes[l]):
                _size_alias[k] = l
                for o, v in list(_size_alias.items()):
                    if v == k:
                        _size_alias[o] = l
                new = True
                break
    return new


core.PATH_RESET.append(_reset)


# ---------------------------------------------------------------- terms
# factor = (atom, conj, exp, args)

class Term:
    __slots__ = ('c', 'f')

    def __init__(self, c, f):
        self.c, self.f = c, f

    def __repr__(self):
        def fa(x):
            a, cj, e, ar = x
            s = repr(a) + ('*' if cj else '') + (f'^{e}' if e != 1 else '')
            return s + '(' + ','.join(_argstr(y) for y in ar) + ')'
        return f'{_cstr(self.c)} ' + ' '.join(fa(x) for x in self.f)


def _argstr(a):
    s = [] if isinstance(a[0], int) and a[0] == 0 and a[1] else [ikey(a[0])]
    for c, w in a[1]:
        s.append(f'w{w}' if isinstance(c, int) and c == 1 else f'{ikey(c)}*w{w}')
    return '+'.join(s)


def _cstr(c):
    return f'{c[0]}' if c[1] == 0 else f'({c[0]}+{c[1]}i)'


ONE = (Fraction(1), Fraction(0))


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return Fraction(repr(x))
    return Fraction(x)


def to_coef(x):
    if isinstance(x, complex):
        return (frac(x.real), frac(x.imag))
    return (frac(x), Fraction(0))


def term_wires(t):
    s = set()
    for _, _, _, ar in t.f:
        for a in ar:
            for _, w in a[1]:
                s.add(w)
    return s


def term_subst(t, m):
    if not m:
        return t
    return Term(t.c, [(a, cj, e, tuple(arg_subst(x, m) for x in ar)) for a, cj, e, ar in t.f])


def size_scalar(x):
    """Integer expression as a list of (coef, factors) terms."""
    if isinstance(x, int):
        return [Term(to_coef(x), [])]
    a = atom('int', (x,), '', (), real=True, pos=True)
    return [Term(ONE, [(a, False, Fraction(1), ())])]


def _int_expand(x):
    """Terms of a polynomial as products of atomic sizes, or None when x is a single atom."""
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return None
    out = []
    for m, c in x.p.items():
        f = []
        for k, e in m:
            f.append((atom('int', (SymInt({((k, 1),): 1}),), '', (), real=True, pos=True), False, Fraction(e), ()))
        out.append(Term(to_coef(c), f))
    return out


class TV:
    """axes: tuple of tuples of wires (row-major groups); terms: list of Term."""
    __slots__ = ('axes', 'terms', '_canon', '_simp', 'tags')

    def __init__(self, axes, terms):
        self.axes = tuple(tuple(g) for g in axes)
        self.terms = terms
        self._canon = None
        self._simp = False
        self.tags = None

    # -- shape
    @property
    def shape(self):
        return tuple(gsize(g) for g in self.axes)

    def free(self):
        return [w for g in self.axes for w in g]

    def fresh(self):
        """Copy with all wires renamed."""
        fm = {w: wire(WSIZE[w]) for w in self.free()}
        am = {w: arg(v) for w, v in fm.items()}
        terms = []
        for t in self.terms:
            m = dict(am)
            for w in term_wires(t):
                if w not in m:
                    m[w] = arg(wire(WSIZE[w]))
            terms.append(term_subst(t, m))
        r = TV([[fm[w] for w in g] for g in self.axes], terms)
        r._simp = self._simp
        r._canon = self._canon
        return r

    def subst(self, m):
        """Substitute integer variables."""
        wm = {}
        free = set(self.free())
        nf = {w: wire(subst_int(WSIZE[w], m)) for w in free}
        terms = []
        for t in self.terms:
            wm = {w: v for w, v in nf.items()}
            for w in term_wires(t):
                if w not in wm:
                    wm[w] = wire(subst_int(WSIZE[w], m))
            fs = []
            for a, cj, e, ar in t.f:
                fs.append((subst_atom(a, m), cj, e, tuple(
                    (subst_int(x[0], m), tuple((subst_int(c, m), wm[w]) for c, w in x[1])) for x in ar)))
            terms.append(Term(t.c, fs))
        return TV([[nf[w] for w in g] for g in self.axes], terms).simplify()

    def simplify(self):
        if self._simp:
            return self
        t0 = time.time()
        free = set(self.free())
        work = list(self.terms)
        done = []
        n = 0
        while work:
            t = work.pop()
            n += 1
            if n > 4000:
                raise Unsupported('term rewriting does not terminate')
            r = rewrite(t, free)
            if r is None:
                done.append(t)
            else:
                work.extend(r)
        # combine equal terms
        lab = {}
        for i, w in enumerate(self.free()):
            lab[w] = i
        if len(done) > 1:
            acc = {}
            for t in done:
                k = canon_term(t, lab)
                if k in acc:
                    o = acc[k]
                    acc[k] = Term((o.c[0] + t.c[0], o.c[1] + t.c[1]), o.f)
                else:
                    acc[k] = t
            done = [acc[k] for k in sorted(acc) if acc[k].c != (0, 0)]
        r = TV(self.axes, [t for t in done if t.c != (0, 0)])
        r._simp = True
        STATS.kernel_time += time.time() - t0
        return r

    def canon(self):
        if self._canon is None:
            s = self.simplify()
            lab = {w: i for i, w in enumerate(self.free())}
            ts = sorted(f'{_cstr(t.c)}*{canon_term(t, lab)}' for t in s.terms)
            ax = '|'.join(','.join(ikey(WSIZE[w]) for w in g) for g in self.axes)
            self._canon = f'{{{ax}:{"+".join(ts)}}}'
        return self._canon

    def __repr__(self):
        ax = ' '.join('(' + ','.join(f'w{w}:{ikey(WSIZE[w])}' for w in g) + ')' for g in self.axes)
        return f'TV[{ax}] ' + ' + '.join(map(repr, self.terms[:6])) + (' + ...' if len(self.terms) > 6 else '')


def gsize(g):
    r = 1
    for w in g:
        r = WSIZE[w] * r
    return r


# ---------------------------------------------------------------- rewriting

def _kept(old, new, free, gone=()):
    """new results from dropping factors of old: summed wires that no factor uses any more contribute their size
    (gone: wires that were substituted away)."""
    lost = term_wires(old) - term_wires(new) - free - set(gone)
    n = 1
    for w in sorted(lost):
        n = WSIZE[w] * n
    if isinstance(n, int) and n == 1:
        return new
    return mul_factors(new, size_scalar(n)[0])


def _uses(t):
    u = {}
    for i, (_, _, _, ar) in enumerate(t.f):
        for j, a in enumerate(ar):
            for c, w in a[1]:
                u.setdefault(w, []).append((i, j))
    return u


def rewrite(t, free):
    """One rewriting step: None when in normal form, else the replacing terms."""
    if t.c == (0, 0):
        return []
    # integer scalar atoms with constant / expandable content; real atoms lose conj
    for i, (a, cj, e, ar) in enumerate(t.f):
        if cj and a.real:
            fs = list(t.f)
            fs[i] = (a, False, e, ar)
            return [Term(t.c, fs)]
        if e == 0:
            return [_kept(t, Term(t.c, t.f[:i] + t.f[i + 1:]), free)]
        if a.kind == 'val' and e.denominator == 1 and e >= 1:
            inner = a.info['inner']
            rest = t.f[:i] + t.f[i + 1:]
            if e > 1:
                rest = rest + [(a, cj, e - 1, ar)]
            return [mul_factors(Term(t.c, rest), x) for x in instantiate(inner, ar, cj)]
        if a.kind == 'int' and isinstance(a.params[0], SymInt) and (len(a.params[0].p) == 1 or e == 1):
            x = _int_expand(a.params[0])
            if x is not None:
                rest = t.f[:i] + t.f[i + 1:]
                if len(x) > 1:
                    return [mul_factors(Term(t.c, rest), y) for y in x]
                y, c0 = x[0], x[0].c[0]
                if c0 == 1 or e.denominator == 1:
                    c = to_coef(c0 ** int(e)) if c0 != 1 else ONE
                    return [Term(cmul(t.c, c), rest + [(b, False, e2 * e, ()) for b, _, e2, _ in y.f])]
        if a.kind == 'num' and not 0 < e < 1:
            k = e.numerator // e.denominator
            c = (Fraction(a.params[0]), Fraction(a.params[1]))
            b = c if k > 0 else cinv(c)
            cc = t.c
            for _ in range(abs(k)):
                cc = cmul(cc, b)
            fs = list(t.f)
            fs[i] = (a, cj, e - k, ar)
            return [Term(cc, fs)]
        if a.kind == 'int' and e.denominator == 1 and isinstance(a.params[0], int):
            v = Fraction(a.params[0])
            return [Term(cmul(t.c, (v ** int(e), Fraction(0))), t.f[:i] + t.f[i + 1:])]
    # deltas
    for i, (a, cj, e, ar) in enumerate(t.f):
        if a is DELTA:
            if e != 1:
                fs = list(t.f)
                fs[i] = (a, False, Fraction(1), ar)
                return [Term(t.c, fs)]
            r = _rw_delta(t, i, ar, free)
            if r is not None:
                return r
        elif a.kind == 'ind':
            r = _rw_ind(t, i, free)
            if r is not None:
                return r
    # combine powers of the same factor
    seen = {}
    for i, (a, cj, e, ar) in enumerate(t.f):
        if a is DELTA:
            k = ('delta',) + tuple(sorted(_akey(x) for x in ar))
        else:
            k = (a.key, cj) + tuple(_akey(x) for x in ar)
        if k in seen:
            j = seen[k]
            if a is DELTA or a.kind == 'ind':
                return [Term(t.c, t.f[:i] + t.f[i + 1:])]
            if a.pos or not ar or a.real or True:
                # X^a X^b = X^(a+b); for non-positive atoms only integer powers combine
                e2 = t.f[j][2]
                if a.pos or (e.denominator == 1 and e2.denominator == 1):
                    fs = list(t.f)
                    fs[j] = (a, cj, e + e2, ar)
                    del fs[i]
                    return [Term(t.c, fs)]
        else:
            seen[k] = i
    uses = _uses(t)
    for i, (a, cj, e, ar) in enumerate(t.f):
        if a.info:
            r = _rw_fact(t, i, free, uses)
            if r is not None:
                return r
    return None


def _akey(a):
    return (ikey(a[0]), tuple((ikey(c), w) for c, w in a[1]))


def _rw_delta(t, i, ar, free):
    a, b = ar
    d = arg_sub(a, b)
    if not d[1]:
        if ieq(d[0], 0):
            return [_kept(t, Term(t.c, t.f[:i] + t.f[i + 1:]), free)]
        ctx = CTX()
        if isinstance(d[0], int) or (ctx is not None and ctx.known(z3i(d[0]) != 0)):
            return []
        return None
    rest = t.f[:i] + t.f[i + 1:]
    r = _split_delta(d)
    if r is not None:
        return [Term(t.c, rest + [(DELTA, False, Fraction(1), x) for x in r])]
    # choose a wire with coefficient +-1, summed if possible
    for want_summed in (True, False):
        for c, w in d[1]:
            if not (isinstance(c, int) and c in (1, -1)):
                continue
            if want_summed and w in free:
                continue
            # w = -(d - c w)/c
            rhs = (-d[0] if c == 1 else d[0], tuple(((-c2 if c == 1 else c2), w2) for c2, w2 in d[1] if w2 != w))
            if want_summed:
                if not _in_range(rhs, WSIZE[w]):
                    # out-of-range part contributes zero
                    if len(rhs[1]) == 1 and is_wire(rhs) and rhs[1][0][1] not in free and ile(WSIZE[w], WSIZE[rhs[1][0][1]]):
                        w2 = rhs[1][0][1]   # replace the larger wire by the smaller one
                        return [_kept(t, term_subst(Term(t.c, rest), {w2: arg(w)}), free, (w2,))]
                    continue
                return [_kept(t, term_subst(Term(t.c, rest), {w: rhs}), free, (w,))]
            # both free: normalise the other factors
            if w in free and _canon_choice(w, rhs, free):
                new = term_subst(Term(t.c, rest), {w: rhs})
                if [tuple(_akey(x) for x in f[3]) for f in new.f] != [tuple(_akey(x) for x in f[3]) for f in rest]:
                    return [Term(t.c, new.f + [t.f[i]])]
    return None


def _split_delta(d):
    """M*high + low = 0 with |low| < M  ->  high = 0 and low = 0 (equality of mixed-radix indices)."""
    if isinstance(d[0], int) and d[0] != 0 or not isinstance(d[0], int):
        return None
    for M in {ikey(c): c for c, _ in d[1]}.values():
        if isinstance(M, int):
            M = abs(M)
            if M <= 1:
                continue
        elif not ile(1, M):
            M = 0 - M
            if not ile(1, M):
                continue
        high, low = [], []
        for c, w in d[1]:
            q = (c // M if c % M == 0 else None) if isinstance(c, int) and isinstance(M, int) else idiv_exact(c, M)
            (high.append((q, w)) if q is not None else low.append((c, w)))
        if not low or not high:
            continue
        lo = hi = 0
        ok = True
        for c, w in low:
            n = WSIZE[w] - 1
            if ile(0, c):
                hi = hi + c * n
            elif ile(c, 0):
                lo = lo + c * n
            else:
                ok = False
        if not ok or not (ile(hi, M - 1) and ile(1 - M, lo)):
            continue

        def two(ts):
            pos = tuple((c, w) for c, w in ts if ile(0, c))
            neg = tuple((0 - c, w) for c, w in ts if not ile(0, c))
            return ((0, pos), (0, neg))
        return [two(high), two(low)]
    return None


def _canon_choice(w, rhs, free):
    """Substitute free wire w by rhs when rhs is constant, or an older free wire."""
    ws = [x for _, x in rhs[1]]
    if not ws:
        return True
    return len(ws) == 1 and is_wire(rhs) and ws[0] in free and ws[0] < w


def _in_range(a, n):
    """0 <= a < n for all values of its wires."""
    lo, hi = a[0], a[0]
    for c, w in a[1]:
        if isinstance(c, int) and c < 0:
            lo = lo + c * (WSIZE[w] - 1)
        else:
            hi = hi + c * (WSIZE[w] - 1)
    return ile(0, lo) and ile(hi, n - 1)


def _rw_ind(t, i, free):
    a, cj, e, ar = t.f[i]
    if e != 1:
        fs = list(t.f)
        fs[i] = (a, False, Fraction(1), ar)
        return [Term(t.c, fs)]
    lo, hi = a.params
    x = ar[0]
    xl, xh = x[0], x[0]
    for c, w in x[1]:
        if isinstance(c, int) and c < 0:
            xl = xl + c * (WSIZE[w] - 1)
        else:
            xh = xh + c * (WSIZE[w] - 1)
    if ile(lo, xl) and ile(xh, hi - 1):
        return [_kept(t, Term(t.c, t.f[:i] + t.f[i + 1:]), free)]
    if ile(xh, lo - 1) or ile(hi, xl):
        return []
    if is_wire(x) and x[1][0][1] not in free:
        w = x[1][0][1]
        # restrict the summed wire
        nw = wire(imin(hi, WSIZE[w]) - imax(lo, 0))
        new = term_subst(Term(t.c, t.f[:i] + t.f[i + 1:]), {w: (imax(lo, 0), ((1, nw),))})
        if nw not in term_wires(new):
            new = mul_factors(new, size_scalar(WSIZE[nw])[0])
        return [_kept(t, new, free, (w,))]
    return None


def mul_factors(t, x):
    return Term(cmul(t.c, x.c), list(t.f) + list(x.f))


def instantiate(tv, args, conj=False):
    """Terms of tv with its free wires replaced by args (summed wires fresh)."""
    out = []
    fw = tv.free()
    for t in tv.terms:
        m = dict(zip(fw, args))
        for w in term_wires(t):
            if w not in m:
                m[w] = arg(wire(WSIZE[w]))
        x = term_subst(t, m)
        if conj:
            x = Term((x.c[0], -x.c[1]), [(a, not cj, e, ar) for a, cj, e, ar in x.f])
        out.append(x)
    return out


def _summed_only(args, idxs, uses, free):
    """args are plain distinct summed wires used by exactly the factors idxs, with full range."""
    ws = []
    for x in args:
        if not is_wire(x):
            return False
        w = x[1][0][1]
        if w in free or w in ws:
            return False
        if {i for i, _ in uses[w]} != set(idxs) or len(uses[w]) != len(idxs):
            return False
        ws.append(w)
    return True


def _full(args, sizes):
    return all(is_wire(x) and ieq(WSIZE[x[1][0][1]], s) for x, s in zip(args, sizes))


def _rw_fact(t, i, free, uses):
    a, cj, e, ar = t.f[i]
    info = a.info
    # isometries: sum over the row wires of conj(U) U
    if e == 1:
        for rows, cols in info.get('iso', ()):
            ra = tuple(ar[j] for j in rows)
            if not _full(ra, [a.sizes[j] for j in rows]):
                continue
            for k, (b, cj2, e2, br) in enumerate(t.f):
                if k == i or b is not a or e2 != 1 or (cj2 == cj and not a.real):
                    continue
                if tuple(br[j] for j in rows) != ra or not _summed_only(ra, (i, k), uses, free):
                    continue
                fs = [f for n, f in enumerate(t.f) if n not in (i, k)]
                for c in cols:
                    fs.append((DELTA, False, Fraction(1), (ar[c], br[c])))
                return [Term(t.c, fs)]
    ty = info.get('type')
    if ty is None or e != 1 and ty not in ('svdS', 'eigw'):
        return None
    if ty == 'Q':      # Q(rows,k) R(k,cols) -> M ;  conj(Q)(rows,k) M(rows,cols) -> R
        kx = ar[-1]
        if is_wire(kx) and _full([kx], [a.sizes[-1]]):
            w = kx[1][0][1]
            for k, (b, cj2, e2, br) in enumerate(t.f):
                if b.info.get('type') == 'R' and b.params is not None and b.info['id'] == info['id'] and cj2 == cj and e2 == 1 and br[0] == kx \
                        and _summed_only([kx], (i, k), uses, free):
                    rest = Term(t.c, [f for n, f in enumerate(t.f) if n not in (i, k)])
                    return [mul_factors(rest, x) for x in instantiate(info['M'], ar[:-1] + br[1:], cj)]
        r = _net_match(t, i, free, uses, info['M'], ar[:-1], not cj, rows_first=True)
        if r is not None:
            rest, cols = r
            b = info['mate']()
            return [Term(cmul(rest.c, ONE), rest.f + [(b, not cj, Fraction(1), (ar[-1],) + tuple(cols))])]
    elif ty == 'svdS':
        if e == 1:
            kx = ar[0]
            for ku, (u, cju, eu, aru) in enumerate(t.f):
                if u.info.get('type') == 'svdU' and u.info['id'] == info['id'] and aru[-1] == kx and eu == 1:
                    for kv, (v, cjv, ev, arv) in enumerate(t.f):
                        if v.info.get('type') == 'svdV' and v.info['id'] == info['id'] and cjv == cju and arv[0] == kx and ev == 1 \
                                and _full([kx], [a.sizes[0]]) and _summed_only([kx], (i, ku, kv), uses, free):
                            rest = Term(t.c, [f for n, f in enumerate(t.f) if n not in (i, ku, kv)])
                            return [mul_factors(rest, x) for x in instantiate(info['M'], aru[:-1] + arv[1:], cju)]
    elif ty == 'svdU':   # conj(U) M -> S Vh
        r = _net_match(t, i, free, uses, info['M'], ar[:-1], not cj, rows_first=True)
        if r is not None:
            rest, cols = r
            S, V = info['mates']()
            return [Term(rest.c, rest.f + [(S, False, Fraction(1), (ar[-1],)), (V, not cj, Fraction(1), (ar[-1],) + tuple(cols))])]
    elif ty == 'svdV':   # M conj(Vh)^T : sum over cols M(r,c) conj(Vh)(k,c) -> U S
        r = _net_match(t, i, free, uses, info['M'], ar[1:], not cj, rows_first=False)
        if r is not None:
            rest, rows = r
            S, U = info['mates']()
            return [Term(rest.c, rest.f + [(S, False, Fraction(1), (ar[0],)), (U, not cj, Fraction(1), tuple(rows) + (ar[0],))])]
    elif ty == 'eigw':
        if e == 1 and info.get('herm'):
            kx = ar[0]
            zs = [(k, f) for k, f in enumerate(t.f) if f[0].info.get('type') == 'eigz' and f[0].info['id'] == info['id'] and f[3][-1] == kx and f[2] == 1]
            for k1, f1 in zs:
                for k2, f2 in zs:
                    if k1 != k2 and not f1[1] and (f2[1] or f1[0].real) and _full([kx], [a.sizes[0]]) and _summed_only([kx], (i, k1, k2), uses, free):
                        rest = Term(t.c, [f for n, f in enumerate(t.f) if n not in (i, k1, k2)])
                        return [mul_factors(rest, x) for x in instantiate(info['M'], f1[3][:-1] + f2[3][:-1], False)]
    elif ty == 'Linv':   # sum_j conj(Linv)(j,i) Linv(j,k) -> Inv(i,k)
        if cj or a.real:
            nj = info['nj']
            for k, (b, cj2, e2, br) in enumerate(t.f):
                if k != i and b is a and (not cj2) and e2 == 1 and br[:nj] == ar[:nj] and _full(ar[:nj], a.sizes[:nj]) \
                        and _summed_only(ar[:nj], (i, k), uses, free):
                    rest = [f for n, f in enumerate(t.f) if n not in (i, k)]
                    return [mul_factors(Term(t.c, rest), x) for x in instantiate(info['inv'](), ar[nj:] + br[nj:])]
    elif ty == 'inv':    # Inv(i,k) A(k,j) -> delta ; A(i,k) Inv(k,j) -> delta
        nj = info['n']
        r = _net_match(t, i, free, uses, info['M'], ar[nj:], cj, rows_first=True)
        if r is not None:
            rest, cols = r
            return [Term(rest.c, rest.f + [(DELTA, False, Fraction(1), (x, y)) for x, y in zip(ar[:nj], cols)])]
        r = _net_match(t, i, free, uses, info['M'], ar[:nj], cj, rows_first=False)
        if r is not None:
            rest, rows = r
            return [Term(rest.c, rest.f + [(DELTA, False, Fraction(1), (x, y)) for x, y in zip(rows, ar[nj:])])]
    return None


def _net_match(t, i, free, uses, M, anchors, conj, rows_first):
    """Find in term t (outside factor i) a copy of the single-term network M (conjugated if conj) whose row
    (rows_first) or column arguments equal anchors, these wires being summed and otherwise unused.
    Returns (term without the matched factors and without factor i, arguments of the other side)."""
    if len(M.terms) != 1 or M.terms[0].c != ONE:
        return None
    mt = M.terms[0]
    if not mt.f or len(mt.f) > 24:
        return None
    if len(M.axes) != 2:
        return None
    rw, cw = list(M.axes[0]), list(M.axes[1])
    near, far = (rw, cw) if rows_first else (cw, rw)
    if len(near) != len(anchors) or not all(is_wire(x) for x in anchors):
        return None
    for x, w in zip(anchors, near):
        v = x[1][0][1]
        if v in free or not ieq(WSIZE[v], WSIZE[w]):
            return None
    mfree = set(rw + cw)
    start = {w: x for w, x in zip(near, anchors)}
    cand = {}
    for k, (a, cj, e, ar) in enumerate(t.f):
        if k != i:
            cand.setdefault((a.key, e), []).append(k)
    order = list(range(len(mt.f)))
    for k in order:
        if (mt.f[k][0].key, mt.f[k][2]) not in cand:
            return None

    def extend(bind, used, left):
        if not left:
            return bind, used
        # pick the factor with most bound wires
        best = max(left, key=lambda k: sum(1 for a in mt.f[k][3] for _, w in a[1] if w in bind))
        a, cj, e, ar = mt.f[best]
        for k in cand.get((a.key, e), ()):
            if k in used:
                continue
            b, cj2, _, br = t.f[k]
            if not a.real and cj2 != (cj != conj):
                continue
            nb = dict(bind)
            ok = True
            for x, y in zip(ar, br):
                if is_wire(x):
                    w = x[1][0][1]
                    if w in nb:
                        if _akey(nb[w]) != _akey(y):
                            ok = False
                            break
                    else:
                        if w not in mfree:
                            if not is_wire(y) or y[1][0][1] in free or not ieq(WSIZE[y[1][0][1]], WSIZE[w]):
                                ok = False
                                break
                        nb[w] = y
                else:
                    z = arg_subst(x, nb)
                    if any(w not in nb for _, w in x[1]) or _akey(z) != _akey(y):
                        ok = False
                        break
            if not ok:
                continue
            r = extend(nb, used | {k}, [q for q in left if q != best])
            if r is not None:
                # internal wires and anchors must not be used elsewhere
                return r
        return None

    r = extend(start, frozenset(), order)
    if r is None:
        return None
    bind, used = r
    inside = set(used) | {i}
    for w, x in bind.items():
        if w in mfree and w not in near:
            continue
        v = x[1][0][1]
        us = {k for k, _ in uses[v]}
        if not us <= inside:
            return None
        if w not in near and i in us:
            return None
    if any(w not in bind for w in far):
        return None
    rest = Term(t.c, [f for k, f in enumerate(t.f) if k not in inside])
    return rest, [bind[w] for w in far]


# ---------------------------------------------------------------- canonical labelling

def _h(s):
    return hashlib.sha1(s.encode()).hexdigest()[:14]


_canon_cache = {}


def canon_term(t, lab):
    """Canonical string of the term's factors; free wires are labelled by lab."""
    wires = sorted(term_wires(t))
    base = {}
    for w in wires:
        base[w] = f'f{lab[w]}' if w in lab else 's' + size_key(WSIZE[w])
    fs = []
    for a, cj, e, ar in t.f:
        fs.append((f'{a.key}{"*" if cj else ""}^{e}' if e != 1 else f'{a.key}{"*" if cj else ""}', ar, a is DELTA))
    summed = [w for w in wires if w not in lab]
    # free wires with no factor do not matter; summed wires always occur in factors

    def refine(col):
        n = len(set(col.values()))
        for _ in range(len(wires) + 1):
            fc = []
            for sig, ar, sym in fs:
                parts = [ikey(x[0]) + ''.join(sorted(f'+{ikey(c)}*{col[w]}' for c, w in x[1])) for x in ar]
                if sym:
                    parts.sort()
                fc.append(_h(sig + '(' + ','.join(parts) + ')'))
            inc = {w: [] for w in wires}
            for (sig, ar, sym), h in zip(fs, fc):
                for j, x in enumerate(ar):
                    for c, w in x[1]:
                        inc[w].append(f'{h}{"" if sym else j}{ikey(c)}')
            new = {w: (col[w] if w in lab else _h(col[w] + ';'.join(sorted(inc[w])))) for w in wires}
            m = len(set(new.values()))
            col = new
            if m == n:
                break
            n = m
        return col

    def out(col):
        order = sorted(summed, key=lambda w: col[w])
        nm = {w: f's{i}:{size_key(WSIZE[w])}' for i, w in enumerate(order)}
        for w in wires:
            if w in lab:
                nm[w] = f'f{lab[w]}'
        s = []
        for sig, ar, sym in fs:
            parts = [('' if isinstance(x[0], int) and x[0] == 0 and x[1] else ikey(x[0])) +
                     '+'.join(sorted((nm[w] if isinstance(c, int) and c == 1 else f'{ikey(c)}*{nm[w]}') for c, w in x[1])) for x in ar]
            if sym:
                parts.sort()
            s.append(sig + '(' + ','.join(parts) + ')')
        return ' '.join(sorted(s))

    count = [0]

    def search(col):
        col = refine(col)
        groups = {}
        for w in summed:
            groups.setdefault(col[w], []).append(w)
        ties = [g for g in groups.values() if len(g) > 1]
        if not ties:
            return out(col)
        count[0] += 1
        if count[0] > 300:
            raise Unsupported('canonical labelling too symmetric')
        g = min(ties, key=lambda g: (len(g), col[g[0]]))
        best = None
        for w in g:
            c2 = dict(col)
            c2[w] = _h(c2[w] + '!')
            s = search(c2)
            if best is None or s < best:
                best = s
        return best

    return search(base)


# ---------------------------------------------------------------- construction

def leaf(a, groups=None):
    """TV of an atom; groups: list of lists of positions of the atom's axes (default one axis each)."""
    ws = [wire(s) for s in a.sizes]
    groups = [[i] for i in range(len(ws))] if groups is None else groups
    tv = TV([[ws[i] for i in g] for g in groups], [Term(ONE, [(a, False, Fraction(1), tuple(arg(w) for w in ws))])])
    return tv


def const(x):
    if isinstance(x, SymInt):
        tv = TV((), size_scalar(x))
    elif isinstance(x, SymRat):
        return div(const(x.n), const(x.d))
    else:
        c = to_coef(x)
        tv = TV((), [Term(c, [])] if c != (0, 0) else [])
    tv._simp = True
    return tv


def filled(x, shape):
    tv = const(x)
    r = TV([[wire(s)] for s in shape], tv.terms)
    r._simp = True
    return r


def eye(n, m=None):
    w, v = wire(n), wire(n if m is None else m)
    return TV([[w], [v]], [Term(ONE, [(DELTA, False, Fraction(1), (arg(w), arg(v)))])])


def from_nested(data):
    """Explicit small tensor from nested lists of numbers / 0-d TVs."""
    def shp(d):
        return [len(d)] + shp(d[0]) if isinstance(d, (list, tuple)) or hasattr(d, '_acev_list') else []
    shape = shp(data)
    ws = [wire(s) for s in shape]
    terms = []

    def rec(d, idx):
        if len(idx) < len(shape):
            if len(d) != shape[len(idx)]:
                raise ShapeError('ragged nested list')
            for i, x in enumerate(d):
                rec(x, idx + [i])
            return
        sub = d.terms if isinstance(d, TV) else const(d).terms
        ds = [(DELTA, False, Fraction(1), (arg(w), carg(i))) for w, i in zip(ws, idx)]
        for t in sub:
            terms.append(Term(t.c, list(t.f) + ds))
    rec(data, [])
    return TV([[w] for w in ws], terms)


# ---------------------------------------------------------------- wire unification

def unify(groups, what=''):
    """Substitution making several wire groups of equal total size index the same axis.
    Returns (group, [substitution per input group])."""
    g0 = groups[0]
    subs = [{} for _ in groups]
    for n in range(1, len(groups)):
        g = groups[n]
        if len(g) == len(g0) and all(ieq(WSIZE[a], WSIZE[b]) for a, b in zip(g0, g)):
            for a, b in zip(g0, g):
                if a != b:
                    subs[n][b] = arg(a)
            continue
        if not ieq(gsize(g), gsize(g0)):
            raise ShapeError(f'sizes {ikey(gsize(g0))} and {ikey(gsize(g))} do not match {what}')
        g0n, s0, sn = _align(g0, g)
        for m in range(n):
            subs[m] = {w: arg_subst(x, s0) for w, x in subs[m].items()}
            for w, x in s0.items():
                if m == 0 or True:
                    subs[m].setdefault(w, x)
        subs[n] = sn
        g0 = g0n
    return g0, subs


def _strip1(g):
    return [w for w in g if not ieq(WSIZE[w], 1)]


def _align(g, h):
    """Common refinement of two row-major factorisations of one axis."""
    s1, s2 = {}, {}
    for w in g:
        if ieq(WSIZE[w], 1):
            s1[w] = carg(0)
    for w in h:
        if ieq(WSIZE[w], 1):
            s2[w] = carg(0)
    g, h = _strip1(g), _strip1(h)
    out = []
    i = j = 0
    while i < len(g) or j < len(h):
        bi, bj = [g[i]], [h[j]]
        i += 1
        j += 1
        pi, pj = WSIZE[bi[0]], WSIZE[bj[0]]
        while not ieq(pi, pj):
            if i < len(g) and (idiv_exact(pj, pi) is not None):
                bi.append(g[i])
                pi = pi * WSIZE[g[i]]
                i += 1
            elif j < len(h):
                bj.append(h[j])
                pj = pj * WSIZE[h[j]]
                j += 1
            elif i < len(g):
                bi.append(g[i])
                pi = pi * WSIZE[g[i]]
                i += 1
            else:
                raise Unsupported('incompatible axis factorisations')
        if len(bi) == len(bj) and all(ieq(WSIZE[a], WSIZE[b]) for a, b in zip(bi, bj)):
            for a, b in zip(bi, bj):
                s2[b] = arg(a)
            out += bi
        elif len(bj) == 1:
            s2[bj[0]] = _linear(bi)
            out += bi
        elif len(bi) == 1:
            s1[bi[0]] = _linear(bj)
            out += bj
        else:
            raise Unsupported('incompatible axis factorisations')
    return out, s1, s2


def _linear(g):
    ts = []
    st = 1
    for w in reversed(g):
        ts.append((st, w))
        st = st * WSIZE[w]
    return (0, tuple(sorted(ts, key=lambda t: t[1])))


# ---------------------------------------------------------------- operations

def einsum(spec, *tvs):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins) - {','} - {'.'})
        out = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    if len(ins) != len(tvs):
        raise ShapeError('einsum operand count')
    if any('.' in s for s in ins + [out]):
        ins, out = _ellipsis(ins, out, tvs)
    tvs = [t.fresh() for t in tvs]
    occ = {}
    for n, (s, t) in enumerate(zip(ins, tvs)):
        if len(s) != len(t.axes):
            raise ShapeError(f'einsum: operand {n} has {len(t.axes)} axes for subscripts {s}')
        for c, g in zip(s, t.axes):
            occ.setdefault(c, []).append(g)
    for c in out:
        if c not in occ or out.count(c) != 1:
            raise ShapeError('einsum output subscript')
    m = {}
    group = {}
    for c, gs in occ.items():
        # size-1 broadcasting
        big = [g for g in gs if not ieq(gsize(g), 1)]
        if big and len(big) < len(gs):
            for g in gs:
                if ieq(gsize(g), 1):
                    for w in g:
                        m[w] = carg(0)
            gs = big
        g0, subs = unify(gs, f'(einsum index {c})')
        group[c] = g0
        for s in subs:
            m.update(s)
    outfree = [w for c in out for w in group[c]]
    # summed letters whose wires appear in no factor contribute their size
    terms = []
    for combo in itertools.product(*[t.terms for t in tvs]):
        c, f = ONE, []
        for x in combo:
            c = cmul(c, x.c)
            f = f + list(x.f)
        t = term_subst(Term(c, f), m)
        ws = term_wires(t)
        lost = 1
        for l, g in group.items():
            if l not in out:
                for w in g:
                    if w not in ws:
                        lost = WSIZE[w] * lost
        if not (isinstance(lost, int) and lost == 1):
            t = mul_factors(t, size_scalar(lost)[0])
        terms.append(t)
    return TV([group[c] for c in out], terms).simplify()


def _ellipsis(ins, out, tvs):
    pool = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if not any(c in s for s in ins + [out])]
    n = 0
    for s, t in zip(ins, tvs):
        if '...' in s:
            n = max(n, len(t.axes) - len(s) + 3)
    ell = ''.join(pool[:n])
    ins2 = []
    for s, t in zip(ins, tvs):
        if '...' in s:
            k = len(t.axes) - len(s) + 3
            s = s.replace('...', ell[n - k:])
        ins2.append(s)
    return ins2, out.replace('...', ell)


def permute(tv, perm):
    if sorted(perm) != list(range(len(tv.axes))):
        raise ShapeError(f'permute {perm} of {len(tv.axes)} axes')
    r = TV([tv.axes[i] for i in perm], tv.terms)
    r._simp = tv._simp
    return r


def conj(tv):
    return TV(tv.axes, [Term((t.c[0], -t.c[1]), [(a, not cj, e, ar) for a, cj, e, ar in t.f]) for t in tv.terms]).simplify()


def scale(tv, c):
    c = to_coef(c)
    if c == (0, 0):
        return TV(tv.axes, [])
    r = TV(tv.axes, [Term(cmul(t.c, c), t.f) for t in tv.terms])
    r._simp = tv._simp
    return r


def broadcast(a, b):
    """Bring two values to a common shape. Returns (axes, terms of a, terms of b)."""
    a, b = a.fresh(), b.fresh()
    na, nb = len(a.axes), len(b.axes)
    n = max(na, nb)
    axes = []
    ma, mb = {}, {}
    for i in range(n):
        ga = a.axes[i - (n - na)] if i >= n - na else None
        gb = b.axes[i - (n - nb)] if i >= n - nb else None
        if ga is None:
            axes.append(gb)
        elif gb is None:
            axes.append(ga)
        else:
            sa, sb = gsize(ga), gsize(gb)
            if not ieq(sa, sb):
                if ieq(sa, 1):
                    ma.update({w: carg(0) for w in ga})
                    axes.append(gb)
                    continue
                if ieq(sb, 1):
                    mb.update({w: carg(0) for w in gb})
                    axes.append(ga)
                    continue
            g0, (s1, s2) = unify([ga, gb], '(broadcast)')
            ma.update(s1)
            mb.update(s2)
            axes.append(g0)
    return axes, [term_subst(t, ma) for t in a.terms], [term_subst(t, mb) for t in b.terms]


def add(a, b):
    axes, ta, tb = broadcast(a, b)
    return TV(axes, ta + tb).simplify()


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    axes, ta, tb = broadcast(a, b)
    terms = []
    for x in ta:
        for y in tb:
            # summed wires of x and y are disjoint (fresh), but products over several pairs may share: refresh
            terms.append(_fresh_sums(mul_factors(x, y), axes))
    return TV(axes, terms).simplify()


def _fresh_sums(t, axes):
    free = {w for g in axes for w in g}
    m = {w: arg(wire(WSIZE[w])) for w in term_wires(t) if w not in free}
    return term_subst(t, m)


def pure_monomial(tv):
    """Single term without summed wires."""
    tv = tv.simplify()
    if len(tv.terms) != 1:
        return None
    free = set(tv.free())
    t = tv.terms[0]
    if term_wires(t) - free or any(f[0] is DELTA or f[0].kind == 'ind' for f in t.f):
        return None
    return t


def content(tv):
    """tv = c * tv0 with a positive scalar c common to all terms (as a scalar TV)."""
    tv = tv.simplify()
    if not tv.terms:
        return const(1), tv
    common = None

    def ck(f):
        return (f[0].key, tuple(map(_akey, f[3])))

    def cm(f):
        return f[0].pos and not any(g[1] for g in f[3]) and ck(f) in common
    for t in tv.terms:
        d = {}
        for a, cj, e, ar in t.f:
            if a.pos and not any(g[1] for g in ar):
                d[ck((a, cj, e, ar))] = (a, e, ar)
        common = d if common is None else {k: v for k, v in common.items() if k in d and d[k][1] == v[1]}
    lab = {w: i for i, w in enumerate(tv.free())}
    if len(tv.terms) == 1:
        t0 = tv.terms[0]
    else:
        t0 = min(tv.terms, key=lambda t: canon_term(Term(t.c, [f for f in t.f if not cm(f)]), lab))
    c0 = t0.c
    if c0[1] == 0:
        mag = abs(c0[0])
    elif c0[0] == 0:
        mag = abs(c0[1])
    else:
        mag = Fraction(1)
    cf = [(a, False, e, ar) for a, e, ar in common.values()]
    c = TV((), [Term((mag, Fraction(0)), cf)]).simplify()
    terms = [Term((t.c[0] / mag, t.c[1] / mag), [f for f in t.f if not cm(f)]) for t in tv.terms]
    r = TV(tv.axes, terms).simplify()
    return c, r


def is_real(tv):
    tv = tv.simplify()
    if all(t.c[1] == 0 and all(a.real for a, _, _, _ in t.f) for t in tv.terms):
        return True
    return conj(tv).canon() == tv.canon()


def nonneg(tv):
    tv = tv.simplify()
    return bool(tv.terms) and all(t.c[1] == 0 and t.c[0] > 0 and all(a.pos for a, _, _, _ in t.f) for t in tv.terms)


def wrap(tv, pos=None):
    """Elementwise value as one atom (so that it can be raised to powers)."""
    tv = tv.simplify()
    c, x = content(tv)
    a = atom('val', (x,), '', [WSIZE[w] for w in x.free()], real=is_real(x), pos=nonneg(x) if pos is None else pos, info={'inner': x})
    terms = [Term(ONE, [(a, False, Fraction(1), tuple(arg(w) for w in x.free()))])]
    return c, TV(x.axes, terms)


def power(tv, e):
    """Elementwise power (Fraction)."""
    e = Fraction(e)
    if e == 0:
        return filled(1, tv.shape)
    if e.denominator == 1 and e > 0 and e <= 4:
        r = tv
        for _ in range(int(e) - 1):
            r = mul(r, tv)
        return r
    t = pure_monomial(tv)
    if t is not None and (e.denominator == 1 or all(a.pos for a, _, _, _ in t.f)):
        c = t.c
        if e.denominator == 1:
            cc = ONE
            base = c if e > 0 else cinv(c)
            for _ in range(abs(int(e))):
                cc = cmul(cc, base)
        else:
            cc = None
            if c[1] == 0 and c[0] > 0:
                r = _frac_pow(c[0], e)
                if r is not None:
                    cc = (r, Fraction(0))
            if cc is None:
                # irrational constant power: keep as atom
                ca = atom('num', (str(c[0]), str(c[1])), '', (), real=c[1] == 0, pos=c[1] == 0 and c[0] > 0)
                return TV(tv.axes, [Term(ONE, [(ca, False, e, ())] + [(a, cj, x * e, ar) for a, cj, x, ar in t.f])]).simplify()
        return TV(tv.axes, [Term(cc, [(a, cj, x * e, ar) for a, cj, x, ar in t.f])]).simplify()
    c, w = wrap(tv, pos=None if e.denominator == 1 else True)
    t = w.terms[0]
    r = _raw(w.axes, [(t.f[0][0], False, e, t.f[0][3])])
    return mul(power(c, e), r) if c.terms != [Term(ONE, [])] else r


def _raw(axes, f):
    return TV(axes, [Term(ONE, f)]).simplify()


def _frac_pow(x, e):
    from math import isqrt
    if e.denominator == 2:
        p, q = x.numerator, x.denominator
        rp, rq = isqrt(p), isqrt(q)
        if rp * rp == p and rq * rq == q:
            r = Fraction(rp, rq)
            return r ** int(e.numerator)
    return None


def div(a, b):
    return mul(a, power(b, -1))


def reduce_fn(name, tv, homogeneous=True, real=True, pos=True):
    """Opaque scalar function of a tensor, positively homogeneous of degree one."""
    if homogeneous:
        c, x = content(tv)
    else:
        c, x = const(1), tv.simplify()
    if not x.terms:
        return const(0)
    # invariant under permutation / regrouping of axes: canonical single-group order is kept simple
    a = atom(name, (flat(x),), '', (), real=real, pos=pos)
    return mul(c, TV((), [Term(ONE, [(a, False, Fraction(1), ())])]))


def flat(x):
    """Order the axes of a value canonically (for functions that do not see the layout)."""
    x = x.simplify()
    ws = x.free()
    if len(ws) <= 1:
        return TV([[w] for w in ws], x.terms)
    best = None
    # colour free wires by refinement: use the canonical string with one wire marked at a time
    sig = {}
    lab0 = {}
    for w in ws:
        lab = {v: ('m' if v == w else 'o') for v in ws}
        sig[w] = sorted(f'{_cstr(t.c)}*{canon_term(t, lab)}' for t in x.terms)
    order = sorted(ws, key=lambda w: (sig[w], ikey(WSIZE[w])))
    # ties: keep the given order among equal signatures (sound: only equal keys are identified)
    r = TV([[w] for w in order], x.terms)
    r._simp = x._simp
    return r


def norm(tv):
    return reduce_fn('norm', tv)


def _rebuild_flat(name):
    # the canonical order of the axes depends on the parameters: after a substitution it is determined anew
    REBUILD[name] = lambda x: atom(name, (flat(x),), '', (), real=True, pos=True)


for _n in ('norm', 'max'):
    _rebuild_flat(_n)


def fn_elem(name, tv, real=True, pos=False, homogeneous=False):
    c, x = content(tv) if homogeneous else (const(1), tv.simplify())
    if name == 'abs' and nonneg(x):
        return tv
    a = atom('ew_' + name, (x,), '', [WSIZE[w] for w in x.free()], real=real, pos=pos)
    r = TV(x.axes, [Term(ONE, [(a, False, Fraction(1), tuple(arg(w) for w in x.free()))])])
    return mul(r, c) if homogeneous else r


def absval(tv):
    # |-x| = |x|
    a, b = fn_elem('abs', tv, pos=True, homogeneous=True), None
    if len(tv.simplify().terms) >= 1:
        n = scale(tv, -1)
        if content(n)[1].canon() < content(tv)[1].canon():
            a = fn_elem('abs', n, pos=True, homogeneous=True)
    return a


def reshape(tv, shape):
    shape = list(shape)
    total = 1
    for w in tv.free():
        total = WSIZE[w] * total
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        p = 1
        for i, s in enumerate(shape):
            if i != neg[0]:
                p = s * p
        q = idiv_exact(total, p)
        if q is None:
            raise Unsupported('cannot infer reshape dimension')
        shape[neg[0]] = q
    p = 1
    for s in shape:
        p = s * p
    if not ieq(p, total):
        raise ShapeError(f'reshape of {[ikey(x) for x in tv.shape]} to {[ikey(x) for x in shape]}')
    ws = list(tv.free())
    axes = []
    m = {}
    k = 0
    for n, s in enumerate(shape):
        g = []
        p = 1
        while not ieq(p, s):
            if k >= len(ws):
                raise Unsupported('reshape grouping')
            w = ws[k]
            q = p * WSIZE[w]
            if ieq(WSIZE[w], 1):
                g.append(w)
                k += 1
                continue
            if ieq(q, s) or idiv_exact(s, q) is not None or (_prefix_divides(ws[k:], s, p)):
                g.append(w)
                p = q
                k += 1
                continue
            need = idiv_exact(s, p)
            r = idiv_exact(WSIZE[w], need) if need is not None else None
            if r is None:
                raise Unsupported(f'reshape splits an axis of size {ikey(WSIZE[w])} unevenly')
            w1, w2 = wire(need), wire(r)
            m[w] = (0, tuple(sorted(((r, w1), (1, w2)), key=lambda t: t[1])))
            ws[k:k + 1] = [w1, w2]
        axes.append(g)
    while k < len(ws):
        if not ieq(WSIZE[ws[k]], 1):
            raise Unsupported('reshape leftover')
        axes[-1].append(ws[k]) if axes else m.__setitem__(ws[k], carg(0))
        k += 1
    if not m:
        r = TV(axes, tv.terms)
        r._simp = tv._simp
        return r
    # chained splits
    for w in list(m):
        m[w] = arg_subst(m[w], {a: b for a, b in m.items() if a != w})
    return TV(axes, [term_subst(t, m) for t in tv.terms]).simplify()


def _prefix_divides(ws, s, p):
    """Does some prefix product p*w0*w1*... reach s exactly?"""
    q = p
    for w in ws:
        q = q * WSIZE[w]
        if ieq(q, s):
            return True
    return False


def fix_index(tv, axis, i):
    """Select one index of an axis."""
    g = tv.axes[axis]
    n = gsize(g)
    if isinstance(i, int) and i < 0:
        i = i + n
    if not (ile(0, i) and ile(i, n - 1)):
        ctx = CTX()
        if ctx is not None and (ctx.known(z3i(i) >= z3i(n)) or ctx.known(z3i(i) < 0)):
            raise IndexError(f'index {ikey(i)} is out of bounds for dimension of size {ikey(n)}')
        if isinstance(i, int) and isinstance(n, int):
            raise IndexError('index out of range')
        if ctx is None or not ctx.decide(z3.And(z3i(i) >= 0, z3i(i) < z3i(n)), f'index {ikey(i)} in range {ikey(n)}'):
            raise IndexError(f'index {ikey(i)} out of range for size {ikey(n)}')
    x = tv.fresh()
    g = x.axes[axis]
    if len(g) == 1:
        m = {g[0]: carg(i)}
    else:
        m = {}
        rest = i
        for k, w in enumerate(g):
            st = gsize(g[k + 1:])
            q = rest // st if k < len(g) - 1 else rest
            m[w] = carg(q)
            rest = rest - q * st
    return TV(x.axes[:axis] + x.axes[axis + 1:], [term_subst(t, m) for t in x.terms]).simplify()


def slice_axis(tv, axis, lo, hi):
    """Contiguous slice, bounds already normalised."""
    g = tv.axes[axis]
    n = gsize(g)
    if ieq(lo, 0) and ieq(hi, n):
        return tv
    x = tv.fresh()
    g = x.axes[axis]
    if len(g) != 1:
        # slice that is whole in the trailing wires
        if len(g) > 1:
            st = gsize(g[1:])
            q1, q2 = idiv_exact(lo, st), idiv_exact(hi, st)
            if q1 is not None and q2 is not None:
                w = wire(q2 - q1)
                m = {g[0]: (q1, ((1, w),))}
                return TV(x.axes[:axis] + ((w,) + g[1:],) + x.axes[axis + 1:], [term_subst(t, m) for t in x.terms]).simplify()
            inner = [w for w in g if not ieq(WSIZE[w], 1)]
            if len(inner) == 1:
                m = {w: carg(0) for w in g if w != inner[0]}
                w = wire(hi - lo)
                m[inner[0]] = (lo, ((1, w),))
                return TV(x.axes[:axis] + ((w,),) + x.axes[axis + 1:], [term_subst(t, m) for t in x.terms]).simplify()
        raise Unsupported('slice of a merged axis')
    w = wire(hi - lo)
    m = {g[0]: (lo, ((1, w),))}
    return TV(x.axes[:axis] + ((w,),) + x.axes[axis + 1:], [term_subst(t, m) for t in x.terms]).simplify()


def flip_axis(tv, axis):
    x = tv.fresh()
    g = x.axes[axis]
    if len(g) != 1:
        raise Unsupported('flip of a merged axis')
    w = wire(WSIZE[g[0]])
    m = {g[0]: (WSIZE[w] - 1, ((-1, w),))}
    return TV(x.axes[:axis] + ((w,),) + x.axes[axis + 1:], [term_subst(t, m) for t in x.terms]).simplify()


def sum_axes(tv, axes):
    letters = 'abcdefghijklmnopqrstuvwxyz'[:len(tv.axes)]
    axes = {a % len(tv.axes) for a in axes}
    return einsum(letters + '->' + ''.join(c for i, c in enumerate(letters) if i not in axes), tv)


# ---------------------------------------------------------------- equality

def expand_small(tv, limit=4096):
    """All entries of a tensor whose wires all have constant size: dict index tuple -> canonical scalar string."""
    fw = tv.free()
    sizes = []
    for w in fw:
        if not isinstance(WSIZE[w], int):
            return None
        sizes.append(WSIZE[w])
    n = 1
    for s in sizes:
        n *= s
    if n > limit:
        return None
    out = {}
    for idx in itertools.product(*[range(s) for s in sizes]):
        m = {w: carg(i) for w, i in zip(fw, idx)}
        terms = []
        for t in tv.terms:
            terms += _expand_sums(term_subst(t, m))
        x = TV((), terms).simplify()
        out[idx] = x.canon()
    return out


def _expand_sums(t):
    ws = sorted(w for w in term_wires(t) if isinstance(WSIZE[w], int) and WSIZE[w] <= 8)
    out = []
    for idx in itertools.product(*[range(WSIZE[w]) for w in ws]):
        out.append(term_subst(t, {w: carg(i) for w, i in zip(ws, idx)}))
    return out


def clear_denominators(d):
    """Multiply by the scalar sums that occur with negative integer powers (nonzero wherever the value is defined)."""
    for _ in range(4):
        low = {}
        for t in d.terms:
            for a, cj, e, ar in t.f:
                if a.kind == 'val' and not ar and e.denominator == 1 and e < 0:
                    low[a.key] = (a, min(e, low.get(a.key, (a, e))[1]))
        if not low:
            return d
        key = sorted(low)[0]
        a, e0 = low[key]
        inner = a.params[0]
        out = []
        for t in d.terms:
            e, fs = Fraction(0), []
            for f in t.f:
                if f[0].key == key and not f[3]:
                    e += f[2]
                else:
                    fs.append(f)
            r = TV(d.axes, [Term(t.c, fs)])
            n = e - e0
            if n.denominator != 1 or n < 0 or n > 4:
                return d
            for _ in range(int(n)):
                r = mul(r, inner)
            out += r.fresh().terms if False else _on_axes(r, d.axes)
        d = TV(d.axes, out).simplify()
        if not d.terms:
            return d
    return d


def _on_axes(r, axes):
    m = {}
    for g, h in zip(r.axes, axes):
        for x, y in zip(g, h):
            m[x] = arg(y)
    return [_fresh_sums(term_subst(t, m), axes) for t in r.terms]


def equal(a, b):
    """(ok, detail): are two values equal for all sizes and entries?"""
    if CTX().mute:
        return True, ""
    t0 = time.time()
    STATS.kernel_queries += 1
    try:
        if len(a.axes) != len(b.axes):
            return False, f'number of axes {len(a.axes)} != {len(b.axes)}'
        for i, (x, y) in enumerate(zip(a.shape, b.shape)):
            if not ieq(x, y):
                return False, f'size of axis {i}: {ikey(x)} != {ikey(y)}'
        d = sub(a, b)
        if not d.terms:
            return True, ''
        d2 = clear_denominators(d)
        if d2 is not d and not d2.terms:
            return True, ''
        if _merge_sizes(d2):
            d2._simp = False
            d2 = d2.simplify()
            if not d2.terms:
                return True, ''
        small = expand_small(d) if all(isinstance(WSIZE[w], int) for w in d.free()) else None
        if small is not None:
            if all(v == const(0).canon() for v in small.values()):
                return True, ''
        # symbolic sizes small by assumption? try the differing terms after exact sub-sums
        return False, 'difference: ' + ' + '.join(map(repr, d.terms[:3]))[:700]
    finally:
        STATS.kernel_time += time.time() - t0


def proportional(a, b):
    """Equal up to a positive scalar."""
    if CTX().mute:
        return True, ""
    ca, xa = content(a)
    cb, xb = content(b)
    return equal(xa, xb)
