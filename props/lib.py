"""Shared symbolic inputs and reference contractions (the specification vocabulary)."""
from acev.core import ivar, ifun, Unsupported, imod, SymInt, CTX, ieq, ikey, z3i
from acev import core, tens as T, symtorch as st, conts as ct
from acev.symtorch import STensor
from acev.loader import Loader
from acev.units import Unit

F64, C128 = st.float64, st.complex128
DT = {'float64': F64, 'complex128': C128, 'float32': st.float32, 'complex64': st.complex64}


def leaf(kind, params, sizes, dtype, real=None, pos=False):
    rl = (not dtype.is_complex) if real is None else real
    tv = T.leaf(T.atom(kind, tuple(params), '', list(sizes), real=rl, pos=pos))
    return STensor(st.rounded(tv) if dtype in st._NARROW and CTX().data.get('rounding') else tv, dtype)


def matrix(name, m, n, dtype):
    return leaf(name, (), (m, n), dtype)


def eq(ctx, got, want, name, dtype=None):
    """Obligation: a tensor returned by the code equals the specification, entry by entry, for all sizes and entries."""
    if not isinstance(got, STensor):
        if isinstance(got, (int, float, SymInt)):
            got = STensor(st.as_tv(got), F64)
        else:
            return ctx.check((False, f'not a tensor: {type(got).__name__}'), name, 'structural')
    ok = ctx.check(T.equal(got.tv, want if isinstance(want, T.TV) else want.tv), name, 'tensor kernel')
    if dtype is not None:
        ctx.check((got.dtype is dtype, f'{got.dtype}'), name + ': dtype', 'structural')
    return ok


def propto(ctx, got, want, name):
    """Equal up to a positive factor."""
    return ctx.check(T.proportional(got.tv if isinstance(got, STensor) else got, want if isinstance(want, T.TV) else want.tv), name, 'tensor kernel')


def unit_norm(ctx, got, name):
    return ctx.check(T.equal(T.norm(got.tv), T.const(1)), name, 'tensor kernel')


def shape_is(ctx, got, want, name):
    sh = tuple(got._sh)
    ok = len(sh) == len(want) and all(ieq(a, b) for a, b in zip(sh, want))
    return ctx.check((ok, f'shape {sh} instead of {tuple(want)}'), name, 'integer kernel')


class Rec(dict):
    """Plain record with item access, used to hand tensors to SiteTensor's constructor."""


# ------------------------------------------------------------------ geometry (specification)

NB = ((1, 0), (0, -1), (-1, 0), (0, 1))      # nbr_k, see the boundary-dimension contract C22
STEP = ((-1, 0), (0, 1), (1, 0), (0, -1))    # one step in direction k


def shift(s, d, nx, ny):
    x, y = s[0] + d[0], s[1] + d[1]
    return (imod(x, nx), imod(y, ny))


# ------------------------------------------------------------------ a network given by contract

NETWORK_ATTRS = {'bond_list', 'site_list', 'nx', 'ny', 'dims', 'rank', 'is_distributed', 'world_size', 'config', 'dtype', 'device', 'tn_config'}


class SymSites:
    """A network in an arbitrary state: at every site an arbitrary site tensor, corners and edges whose boundary legs
    have the dimensions required by the class invariant (C22): leg of C_k(s): (m_{k+3}(nbr_{k+3}(s)), m_k(s)),
    of E_k(s): (m_k(s), m_k(nbr_k(s))).  Sites are made when first asked for."""

    def __setattr__(self, k, v):
        if k in NETWORK_ATTRS and ct.frames():
            raise Unsupported(f'network attribute {k} assigned in a loop over a symbolic range')
        object.__setattr__(self, k, v)

    def __init__(self, L, nx, ny, dtype=C128, D=None, d=None, chi=None, uniform=False, dist=False, tag='', dims=None):
        self.L = L
        self.nx, self.ny = nx, ny
        self.dtype, self.device = dtype, st.CPU
        self.D = ivar('D', 1) if D is None else D
        self.d = ivar('d', 1) if d is None else d
        self.chi = ivar('chi', 1) if chi is None else chi
        self.dims = dims if dims is not None else ct.SymDict({'bond': self.D, 'phys': self.d, 'chi': self.chi})
        self.rank, self.world_size, self.is_distributed = 0, 1, False
        self.uniform, self.tag = uniform, tag
        self.entries = []            # [key, SiteTensor, initial]
        self.SiteTensor = L('acetn.ipeps.site_tensor', 'SiteTensor')
        self.replaced = []
        self.reads = []

    def m(self, k, s):
        k %= 4
        if self.uniform:
            return ivar(f'm{k}', 1)
        return ifun(f'm{k}{self.tag}', [s[0], s[1]], lo=1)

    def tensors(self, s):
        """The initial tensors of a site (specification side)."""
        D, d, t = self.D, self.d, self.tag
        p = (s[0], s[1])
        nb = [shift(s, NB[k], self.nx, self.ny) for k in range(4)]
        A = leaf('A' + t, p, (D, D, D, D, d), self.dtype)
        C = [leaf(f'C{k}{t}', p, (self.m(k + 3, nb[(k + 3) % 4]), self.m(k, s)), self.dtype) for k in range(4)]
        E = [leaf(f'E{k}{t}', p, (self.m(k, s), self.m(k, nb[k]), D, D), self.dtype) for k in range(4)]
        return Rec(A=A, C=C, E=E)

    def _find(self, site):
        x, y = site
        for e in self.entries:
            if ct.decide_eq(e[0], (x, y)):
                return e
        ctx = CTX()
        inr = core.zb(True)
        import z3
        inr = z3.And(z3i(x) >= 0, z3i(x) < z3i(self.nx), z3i(y) >= 0, z3i(y) < z3i(self.ny))
        if not ctx.known(inr):
            if ctx.decide(inr, f'site {ikey(x)},{ikey(y)} in the cell'):
                pass
            else:
                raise ValueError(f'Site tensor not defined at site {site}.')
        init = self.tensors((x, y))
        obj = self.SiteTensor(self.dims, site_tensor=init, dtype=self.dtype, device=self.device)
        e = [(x, y), obj, init]
        self.entries.append(e)
        return e

    def __getitem__(self, site):
        return self._find(site)[1]

    def __setitem__(self, site, value):
        e = self._find(site)
        e[1] = value
        self.replaced.append(e[0])

    @property
    def site_list(self):
        r = ct.SymList()
        for x in range(self.nx):
            for y in range(self.ny):
                r.append((x, y))
        return r

    def init(self, site):
        return self._find(site)[2]

    def unchanged(self, ctx, name, allow=lambda key, part, k: False):
        """Frame condition: everything not allowed to change still has its initial value."""
        for key, obj, init in self.entries:
            if not allow(key, 'A', 0):
                eq(ctx, obj['A'], init['A'], f'{name}: site tensor of {key} unchanged', self.dtype)
            for part in 'CE':
                for k in range(4):
                    if not allow(key, part, k):
                        eq(ctx, obj[part][k], init[part][k], f'{name}: {part}[{k}] of {key} unchanged', self.dtype)


# ------------------------------------------------------------------ reference contractions

_LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def contract(ops, out):
    """ops: list of (value, [leg names]); out: list of leg names. One einsum."""
    names = {}

    def l(n):
        if n not in names:
            names[n] = _LETTERS[len(names)]
        return names[n]
    spec = ','.join(''.join(l(n) for n in legs) for _, legs in ops) + '->' + ''.join(l(n) for n in out)
    return T.einsum(spec, *[v.tv if isinstance(v, STensor) else v for v, _ in ops])


def cj(x):
    return T.conj(x.tv if isinstance(x, STensor) else x)


def ring_ops(C, E, r='r'):
    """Corners and edges around one site: C_k (r2k, r2k+1), E_k (r2k+1, r2k+2, x_{k+1}, X_{k+1})."""
    ops = []
    for k in range(4):
        ops.append((C[k], [f'{r}{2*k}', f'{r}{2*k+1}']))
        ops.append((E[k], [f'{r}{2*k+1}', f'{r}{(2*k+2)%8}', f'x{(k+1)%4}', f'X{(k+1)%4}']))
    return ops


def site_rdm_spec(s):
    A = s['A']
    ops = ring_ops(s['C'], s['E']) + [(A, ['x0', 'x1', 'x2', 'x3', 'p']), (cj(A), ['X0', 'X1', 'X2', 'X3', 'P'])]
    return contract(ops, ['P', 'p'])


def legs(k, names):
    """names of the legs in frame order (leg j of frame k is leg (j+k)%4 of the tensor) -> order of the tensor."""
    out = [None] * 4
    for j in range(4):
        out[(j + k) % 4] = names[j]
    return out


def two_ring(s1, s2, k, ux='x', uy='y'):
    """Environment of a bond (first site s1, second s2 lying in direction k of s1); frame legs of s1: ('m',x1,x2,x3) with
    the shared leg first, of s2: (y0,y1,'m',y3)."""
    C1, E1, C2, E2 = s1['C'], s1['E'], s2['C'], s2['E']
    x, X, y, Y = ux, ux.upper(), uy, uy.upper()
    q = lambda j: (k + j) % 4
    return [
        (C2[q(0)], ['a', 'b']), (E2[q(0)], ['b', 'c', y + '1', Y + '1']), (E1[q(0)], ['c', 'd', x + '1', X + '1']),
        (C1[q(1)], ['d', 'e']), (E1[q(1)], ['e', 'f', x + '2', X + '2']), (C1[q(2)], ['f', 'g']),
        (E1[q(2)], ['g', 'h', x + '3', X + '3']), (E2[q(2)], ['h', 'i', y + '3', Y + '3']), (C2[q(3)], ['i', 'j']),
        (E2[q(3)], ['j', 'a', y + '0', Y + '0'])]


def bond_rdm_spec(s1, s2, k):
    A1, A2 = s1['A'], s2['A']
    ops = two_ring(s1, s2, k)
    ops += [(A1, legs(k, ['m', 'x1', 'x2', 'x3']) + ['p']), (cj(A1), legs(k, ['M', 'X1', 'X2', 'X3']) + ['P']),
            (A2, legs(k, ['y0', 'y1', 'm', 'y3']) + ['q']), (cj(A2), legs(k, ['Y0', 'Y1', 'M', 'Y3']) + ['Q'])]
    return contract(ops, ['P', 'Q', 'p', 'q'])


def end(ctx):
    """No loop of the code may be left half summarised."""
    if ctx.data.get('frames'):
        raise Unsupported('control flow left a loop over a symbolic range')


# ------------------------------------------------------------------ lists, for all sizes

def tn_config(L, nx, ny, bond=None, phys=None, chi=None):
    TNConfig = L('acetn.ipeps.ipeps_config', 'TNConfig')
    dims = ct.SymDict({'phys': ivar('d', 1) if phys is None else phys, 'bond': ivar('D', 1) if bond is None else bond, 'chi': ivar('chi', 1) if chi is None else chi})
    return TNConfig(nx=nx, ny=ny, dims=dims)


def length(l):
    return l.length() if hasattr(l, 'length') else len(l)


def contains(ctx, l, x):
    """Membership, decided on the current path (an undetermined answer splits the path)."""
    if isinstance(l, ct.SymList):
        return x in l
    return any(ct.decide_eq(y, x) for y in l)


def int_eq(ctx, a, b, name):
    return ctx.check((ieq(a, b), f'{a} instead of {b}'), name, 'integer kernel')


def cell(ctx, nx, ny, tag=''):
    """An arbitrary site of the cell."""
    x, y = ivar('x' + tag, 0), ivar('y' + tag, 0)
    ctx.assume(z3i(x) < z3i(nx))
    ctx.assume(z3i(y) < z3i(ny))
    return x, y


def rename(L, original, new):
    """Replace a function or class of the repository by its contract in every loaded module."""
    n = 0

    def inside(v, depth=0):
        """Tables of functions or classes."""
        k = 0
        if isinstance(v, ct.SymDict):
            for i, p in enumerate(v.log):
                if p[0] == 'e' and p[2] is original:
                    v.log[i] = ('e', p[1], new)
                    k += 1
        elif type(v) in (dict,):
            for a, b in v.items():
                if b is original:
                    v[a] = new
                    k += 1
        elif isinstance(v, list) and getattr(v, 'parts', None) is None:
            for i, b in enumerate(list.__iter__(v)):
                if b is original:
                    list.__setitem__(v, i, new)
                    k += 1
        return k
    for m in L.mods.values():
        for k, v in list(m.__dict__.items()):
            if k.startswith('__'):
                continue
            if v is original:
                m.__dict__[k] = new
                n += 1
            elif isinstance(v, tuple) and any(x is original for x in v):
                m.__dict__[k] = tuple(new if x is original else x for x in v)
                n += 1
            else:
                n += inside(v)
    return n


LATTICES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2), (2, 3), (3, 3)]
