from types import SimpleNamespace
from .lib import *

PM = 'acetn/model/pauli_matrix.py:PauliMatrix.'
I1 = complex(0, 1)


def const(m, dtype):
    return STensor(T.from_nested([[st.as_tv(x) for x in r] for r in m]), dtype)


TRUE = {'X': [[0, 1], [1, 0]], 'Y': [[0, -I1], [I1, 0]], 'Z': [[1, 0], [0, -1]], 'I': [[1, 0], [0, 1]]}


def true(k):
    return const(TRUE[k], C128).tv


def kron(a, b):
    m, n = a.shape[0], b.shape[0]
    return T.reshape(T.einsum('ab,cd->acbd', a, b), (m * n, m * n))


class Key:
    """A product of any number of Pauli matrices: only the numbers of its factors are known."""
    parts = 0

    def __init__(self, counts):
        self.counts = counts

    def __add__(self, o):
        if isinstance(o, str):
            o = Key({c: o.count(c) for c in 'XYZI'})
        if not isinstance(o, Key):
            raise Unsupported('key')
        return Key({c: self.counts[c] + o.counts[c] for c in self.counts})

    def __radd__(self, o):
        return Key({c: o.count(c) for c in 'XYZI'}) + self

    def __getitem__(self, i):
        """A part of the product: nothing is known of its factors."""
        if not isinstance(i, slice):
            raise Unsupported('key[i]')
        if i == slice(None):
            return self
        Key.parts += 1
        return Key({c: ivar(f'part{Key.parts}{c}', 0) for c in self.counts})

    def count(self, c):
        return self.counts[c]

    def __getattr__(self, n):
        raise Unsupported(f'key.{n}')


def operand(ctx, L, name, dtype, parity):
    """An arbitrary operator: a matrix of any size built from any product with an even / odd number of Y factors.
    Representation: the operator is the stored matrix, or i times it in a real dtype for an odd number of Y factors."""
    P = L('acetn.model.pauli_matrix', 'PauliMatrix')
    n = ivar('n' + name, 1)
    M = leaf('M' + name, (), (n, n), dtype)
    h = ivar('h' + name, 0)
    key = Key({'X': ivar('x' + name, 0), 'Y': 2 * h + parity, 'Z': ivar('z' + name, 0), 'I': ivar('i' + name, 0)})
    return P(key, dtype, st.CPU, mat=M), M


def value(P, dtype, parity):
    m = P.mat
    return T.scale(m.tv, I1) if not dtype.is_complex and parity % 2 else m.tv


class Kept:
    def __init__(self, ops):
        self.ops = [(p, p.mat, p.mat._st.version, p.mat.tv, p.key) for p in ops]

    def check(self, ctx, result=None):
        for p, m, v, tv, key in self.ops:
            ctx.check((p.mat is m and m._st.version == v and p.key is key, ''), 'the operands are not changed')
            if isinstance(result, STensor):
                ctx.check((result._st is not m._st, ''), 'the result does not share memory with an operand')


def result(ctx, L, r, want, dtype, parity, name):
    P = L('acetn.model.pauli_matrix', 'PauliMatrix')
    if not ctx.check((isinstance(r, P), type(r).__name__), f'{name}: gives an operator'):
        return
    ctx.check((r.dtype is dtype and r.mat.dtype is dtype and r.device is not None, f'{r.mat.dtype}'), f'{name}: dtype kept')
    shape_is(ctx, r.mat, list(want.shape), f'{name}: size')
    w = want
    got = value(r, dtype, parity)
    ctx.check(T.equal(got, w), f'{name}: matrix of the operator', 'tensor kernel')
    if not dtype.is_complex:
        int_eq(ctx, imod(r.key.count('Y'), 2), parity % 2, f'{name}: parity of the number of Y factors known to later products')


def basis(dtype):
    def fn(ctx):
        L = Loader()
        P = L('acetn.model.pauli_matrix', 'PauliMatrix')
        f = L('acetn.model.pauli_matrix', 'pauli_matrices')
        ps = f(dtype, st.CPU)
        for k, p in zip('XYZI', ps):
            result(ctx, L, p, true(k), dtype, k == 'Y', f'Pauli matrix {k}')
            result(ctx, L, P(k, dtype, st.CPU), true(k), dtype, k == 'Y', f'PauliMatrix({k})')
        ctx.check((len(ps) == 4 and len({id(p.mat._st) for p in ps}) == 4, ''), 'four matrices')
        qs = f(dtype, st.CPU)
        ctx.check((not {id(p.mat._st) for p in ps} & {id(p.mat._st) for p in qs}, ''), 'matrices are made anew at every call')
        end(ctx)
    return fn


def product(dtype, e1, e2):
    def fn(ctx):
        L = Loader()
        a, A = operand(ctx, L, 'a', dtype, e1)
        b, B = operand(ctx, L, 'b', dtype, e2)
        kept = Kept([a, b])
        r = a * b
        want = kron(value(a, dtype, e1), value(b, dtype, e2))
        result(ctx, L, r, want, dtype, e1 + e2, 'product')
        kept.check(ctx, r.mat)
        x = a
        x *= b
        m = x if isinstance(x, STensor) else x.mat
        if dtype.is_complex or (e1 + e2) % 2 == 0:
            ctx.check(T.equal(m.tv, want), 'in-place product: matrix of the operator', 'tensor kernel')
        kept.check(ctx, m)
        s = a * a
        result(ctx, L, s, kron(value(a, dtype, e1), value(a, dtype, e1)), dtype, 2 * e1, 'square')
        kept.check(ctx, s.mat)
        end(ctx)
    return fn


def sums(dtype, e):
    def fn(ctx):
        L = Loader()
        P = L('acetn.model.pauli_matrix', 'PauliMatrix')
        a, A = operand(ctx, L, 'a', dtype, e)
        n = A._sh[0]
        B = leaf('Mb', (), (n, n), dtype)
        b = P(Key({'X': ivar('xb', 0), 'Y': 2 * ivar('hb', 0) + e, 'Z': ivar('zb', 0), 'I': ivar('ib', 0)}), dtype, st.CPU, mat=B)
        kept = Kept([a, b])
        va, vb = value(a, dtype, e), value(b, dtype, e)
        for r, want, name in ((a + b, T.add(va, vb), 'sum'), (a - b, T.sub(va, vb), 'difference'), (-a, T.scale(va, -1), 'negation'), (a - a, T.sub(va, va), 'difference with itself')):
            result(ctx, L, r, want, dtype, e, name)
            kept.check(ctx, r.mat)
        x = a
        x += b
        result(ctx, L, x, T.add(va, vb), dtype, e, 'augmented sum')
        x = a
        x -= b
        result(ctx, L, x, T.sub(va, vb), dtype, e, 'augmented difference')
        kept.check(ctx)
        end(ctx)
    return fn


def scaling(dtype, e):
    def fn(ctx):
        L = Loader()
        a, A = operand(ctx, L, 'a', dtype, e)
        kept = Kept([a])
        va = value(a, dtype, e)
        cs = [2, -3.5, 0.25, st.real_param('c')]
        if dtype.is_complex:
            cs.append(complex(1, -2))
        for c in cs:
            cv = st.as_tv(c)
            for r, want, name in ((a * c, T.mul(cv, va), 'scalar from the right'), (c * a, T.mul(cv, va), 'scalar from the left')):
                result(ctx, L, r, want, dtype, e, name)
                kept.check(ctx, r.mat)
            x = a
            x *= c
            result(ctx, L, x, T.mul(cv, va), dtype, e, 'in-place scaling')
            kept.check(ctx, x.mat)
            r = a / c
            result(ctx, L, r, T.div(va, cv), dtype, e, 'division')
            kept.check(ctx, r.mat)
        end(ctx)
    return fn


def words(dtype, n):
    """All products of up to n of the four matrices and all their bracketings."""
    import itertools

    def trees(w):
        if len(w) == 1:
            yield w
            return
        for i in range(1, len(w)):
            for a in trees(w[:i]):
                for b in trees(w[i:]):
                    yield (a, b)

    def fn(ctx):
        L = Loader()
        f = L('acetn.model.pauli_matrix', 'pauli_matrices')
        P = dict(zip('XYZI', f(dtype, st.CPU)))
        kept = Kept(P.values())
        val = lambda t: P[t] if isinstance(t, str) else val(t[0]) * val(t[1])
        for w in itertools.product('XYZI', repeat=n):
            w = ''.join(w)
            if not dtype.is_complex and w.count('Y') % 2:
                continue
            want = true(w[0])
            for c in w[1:]:
                want = kron(want, true(c))
            for t in trees(w):
                ctx.check(T.equal(val(t).mat.tv, want), f'{t}', 'tensor kernel')
        kept.check(ctx)
        end(ctx)
    return fn


def model(L, cls, dtype, params, dim=2):
    c = SimpleNamespace(name='m', params=ct.SymDict(params), dtype=dtype, device=st.CPU, dim=dim)
    return L(f'acetn.model.models.{cls.lower()}', f'{cls}Model')(c)


def mat(o):
    return o if isinstance(o, STensor) else o.mat


def any_bond(ctx, L, k):
    Bond = L('acetn.ipeps.bond', 'Bond')
    nx, ny = ivar('nx', 1), ivar('ny', 1)
    s = cell(ctx, nx, ny)
    return Bond(s, shift(s, STEP[k], nx, ny), k), s


def ising(dtype, k):
    def fn(ctx):
        L = Loader()
        jz, hx = st.real_param('jz'), st.real_param('hx')
        m = model(L, 'Ising', dtype, [('jz', jz), ('hx', hx)])
        b, s = any_bond(ctx, L, k)
        eq(ctx, mat(m.two_site_hamiltonian(b)), T.mul(T.scale(jz.tv, -1), kron(true('Z'), true('Z'))), 'two-site term -jz Z Z', dtype)
        eq(ctx, mat(m.one_site_hamiltonian(s)), T.mul(T.scale(hx.tv, -1), true('X')), 'one-site term -hx X', dtype)
        o = m.one_site_observables(s)
        ctx.check((sorted(o.keys()) == ['sx', 'sz'], ''), 'observables sx and sz')
        eq(ctx, mat(o['sx']), true('X'), 'sx', dtype)
        eq(ctx, mat(o['sz']), true('Z'), 'sz', dtype)
        ctx.check((len(m.two_site_observables(b)) == 0, ''), 'no two-site observables')
        state(ctx, m, s, [1, 0])
        end(ctx)
    return fn


def state(ctx, m, s, want):
    v = list(m.initial_site_state(s))
    ctx.check((len(v) == len(want) and all(float(x) == y for x, y in zip(v, want)), f'{v}'), 'initial state of a site')


def heisenberg(dtype, k, given):
    def fn(ctx):
        L = Loader()
        J = st.real_param('J')
        m = model(L, 'Heisenberg', dtype, [('J', J)] if given else [])
        b, s = any_bond(ctx, L, k)
        H = None
        for c in 'XYZ':
            t = T.scale(kron(true(c), true(c)), T.frac(0.25))
            H = t if H is None else T.add(H, t)
        eq(ctx, mat(m.two_site_hamiltonian(b)), T.mul(J.tv, H) if given else H, 'two-site term J S.S' + ('' if given else ' with J = 1'), dtype)
        ctx.check((m.one_site_hamiltonian(s) is None, ''), 'no one-site term')
        even = ctx.decide(z3i(imod(s[0] + s[1], 2)) == 0, 'even site')
        o = m.one_site_observables(s)
        ctx.check((sorted(o.keys()) == ['sx', 'sz'], ''), 'observables sx and sz')
        for n, c in (('sx', 'X'), ('sz', 'Z')):
            eq(ctx, mat(o[n]), T.scale(true(c), 1 if even else -1), f'staggered {n}', dtype)
        ctx.check((len(m.two_site_observables(b)) == 0, ''), 'no two-site observables')
        state(ctx, m, s, [1, 0] if even else [0, 1])
        end(ctx)
    return fn


def base(dim):
    def fn(ctx):
        L = Loader()
        M = L('acetn.model.model', 'Model')

        class Mine(M):
            def two_site_hamiltonian(self, bond):
                return None
        c = SimpleNamespace(name='m', params=ct.SymDict(), dtype=F64, device=st.CPU, dim=dim)
        m = Mine(c)
        ctx.check((m.name == 'm' and m.params is c.params and m.dtype is F64 and m.dim is dim and m.device is st.CPU, ''), 'attributes of the configuration')
        for k, n in enumerate(('-x', '+y', '+x', '-y')):
            b, s = any_bond(ctx, L, k)
            ctx.check((m.bond_direction(b) == n and M.bond_direction(b) == n, f'{m.bond_direction(b)}'), f'direction {k} is {n}')
        state(ctx, m, s, [1] + [0] * (dim - 1))
        ctx.check((m.one_site_hamiltonian(s) is None and len(m.one_site_observables(s)) == 0 and len(m.two_site_observables(b)) == 0, ''), 'no terms or observables unless defined')
        end(ctx)
    return fn


def units(tier):
    us = []
    MO = 'acetn/model/'
    dts = {**DT, 'float32': st.float32, 'complex64': st.complex64}
    for dn, dt in dts.items():
        us.append(Unit(f'Pauli matrices/{dn}', basis(dt), [PM + '__init__', 'acetn/model/pauli_matrix.py:pauli_matrices']))
        for e1 in (0, 1):
            for e2 in (0, 1):
                us.append(Unit(f'product/{dn}/{e1}{e2}', product(dt, e1, e2), [PM + '__mul__', PM + '__imul__', PM + '__init__']))
            us.append(Unit(f'sums/{dn}/{e1}', sums(dt, e1), [PM + '__add__', PM + '__sub__', PM + '__neg__']))
            us.append(Unit(f'scaling/{dn}/{e1}', scaling(dt, e1), [PM + '__mul__', PM + '__rmul__', PM + '__imul__', PM + '__truediv__']))
        for n in (2, 3):
            us.append(Unit(f'words of {n}/{dn}', words(dt, n), [PM + '__mul__'], bounded=f'products of {n} matrices'))
        for k in range(4):
            us.append(Unit(f'Ising/{dn}/k={k}', ising(dt, k), [MO + 'models/ising.py:IsingModel.' + x for x in ('one_site_observables', 'one_site_hamiltonian', 'two_site_hamiltonian')]))
            for g in (True, False):
                us.append(Unit(f'Heisenberg/{dn}/k={k}/{"J given" if g else "default J"}', heisenberg(dt, k, g), [MO + 'models/heisenberg.py:HeisenbergModel.' + x for x in ('initial_site_state', 'one_site_observables', 'two_site_hamiltonian')]))
    for d in (1, 2, 3, 4, 7):
        us.append(Unit(f'Model/dim {d}', base(d), [MO + 'model.py:Model.' + x for x in ('__init__', 'bond_direction', 'initial_site_state', 'one_site_observables', 'two_site_observables', 'one_site_hamiltonian')], bounded=f'dimension {d}'))
    return us
