from .lib import *
from .c01 import network
from fractions import Fraction

F = 'acetn/ipeps/site_tensor.py:SiteTensor.'
N = 'acetn/ipeps/tensor_network.py:TensorNetwork.'


def corner_spec(A, k):
    """Corner k: contracted over legs k, k+1 and the physical leg; open legs k+3 then k+2, tensor index before conjugate."""
    n = [f'b{j}' if j not in (k, (k + 1) % 4) else f's{j}' for j in range(4)]
    m = [x.replace('b', 'c') for x in n]
    l, r = (k + 3) % 4, (k + 2) % 4
    t = contract([(A, n + ['p']), (cj(A), m + ['p'])], [f'b{l}', f'c{l}', f'b{r}', f'c{r}'])
    D = t.shape[0]
    t = T.reshape(t, (D * D, D * D))
    return T.div(t, T.norm(t))


def edge_spec(A, k):
    """Edge k: contracted over leg k+1 and the physical leg; open legs k, k+2 (boundary) then k+3."""
    n = [f'b{j}' if j != (k + 1) % 4 else f's{j}' for j in range(4)]
    m = [x.replace('b', 'c') for x in n]
    o = [k, (k + 2) % 4, (k + 3) % 4]
    t = contract([(A, n + ['p']), (cj(A), m + ['p'])], [f'{z}{j}' for j in o for z in 'bc'])
    D = t.shape[0]
    t = T.reshape(t, (D * D, D * D, D, D))
    return T.div(t, T.norm(t))


def state_spec(state, D):
    e = T.einsum('a,b,c,d,p->abcdp', *[unit0(D) for _ in range(4)], state)
    return e


def unit0(D):
    w = T.wire(D)
    return T.TV([[w]], [T.Term(T.ONE, [(T.DELTA, False, Fraction(1), (T.arg(w), T.carg(0)))])]).simplify()


def check_state(ctx, A, state, D, d, dtype, name):
    """A is proportional to e_0000 (x) state + noise with noise entries in [0, 0.01]; norm one."""
    shape_is(ctx, A, (D, D, D, D, d), f'{name}: shape')
    ctx.check((A.dtype is dtype, f'{A.dtype}'), f'{name}: dtype', 'structural')
    unit_norm(ctx, A, f'{name}: norm one')
    c, x = T.content(A.tv)
    noise, rest = [], []
    for t in x.terms:
        rnd = [f for f in t.f if f[0].kind in ('rand', 'randn', 'empty')]
        (noise if rnd else rest).append(t)
    S = T.TV(x.axes, rest)
    want = state_spec(state, D)
    c1, s1 = T.content(S)
    c2, s2 = T.content(want)
    ctx.check(T.equal(s1, s2), f'{name}: site state on the all-zero bond component', 'tensor kernel')
    # scale of the state part
    scale = T.div(c1, c2).simplify()
    ok = len(scale.terms) == 1 and not scale.terms[0].f
    tot = Fraction(0)
    for t in noise:
        good = len(t.f) == 1 and t.f[0][0].kind == 'rand' and t.f[0][0].real and t.f[0][2] == 1 and t.c[1] == 0 and t.c[0] >= 0 and ok and len({w for a in t.f[0][3] for _, w in a[1]}) == 5
        ok = ok and good
        if good:
            tot += t.c[0] / scale.terms[0].c[0]
    ctx.check((ok and 0 <= tot <= Fraction(1, 100), f'noise terms {noise[:2]} amplitude {tot}'), f'{name}: noise entries in [0, 0.01]', 'tensor kernel')


def check_env(ctx, s, A, dtype, name):
    ctx.check((len(s['C']) == 4 and len(s['E']) == 4, ''), f'{name}: four corners and four edges')
    for k in range(4):
        eq(ctx, s['C'][k], corner_spec(A, k), f'{name}: corner {k}', dtype)
        eq(ctx, s['E'][k], edge_spec(A, k), f'{name}: edge {k}', dtype)


def env_unit(dtype):
    def fn(ctx):
        L = Loader()
        net = SymSites(L, 2, 2, dtype)
        s = net[(0, 1)]
        A = net.init((0, 1))['A']
        s.initialize_corner_tensors()
        s.initialize_edge_tensors()
        eq(ctx, s['A'], A, 'building the environment does not change the site tensor', dtype)
        check_env(ctx, s, A, dtype, 'environment of an arbitrary site tensor')
        end(ctx)
    return fn


def site_unit(dtype, n=None):
    """A fresh site with an arbitrary state of n entries (n <= d)."""
    def fn(ctx):
        L = Loader()
        D, d, chi = ivar('D', 1), ivar('d', 1), ivar('chi', 1)
        dims = ct.SymDict({'bond': D, 'phys': d, 'chi': chi})
        if n == 'short':
            m = ivar('n', 1)
            ctx.assume(z3i(m) <= z3i(d))
        else:
            m = d
        v = leaf('state', (), (m,), dtype).tv
        s = L('acetn.ipeps.site_tensor', 'SiteTensor')(dims, site_state=ct.SymVector(v), dtype=dtype, device=st.CPU)
        full = v
        if m is not d:
            w = T.wire(d)
            g = T.TV([[w]], [T.Term(T.ONE, [(T.atom('ind', (0, m), '', (None,), real=True, pos=True), False, Fraction(1), (T.arg(w),)), (T.atom('state', (), '', [m], real=not dtype.is_complex), False, Fraction(1), (T.arg(w),))])])
            full = g.simplify()
        check_state(ctx, s['A'], full, D, d, dtype, 'fresh site')
        check_env(ctx, s, STensor(s['A'].tv, dtype), dtype, 'fresh site')
        end(ctx)
    return fn


def net_unit(dtype, default):
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        net = network(L, nx, ny, dtype)
        D, d = net.dims['bond'], net.dims['phys']
        if not default:
            net.initialize_site_tensors(lambda site: ct.SymVector(leaf('state', (site[0], site[1]), (d,), dtype).tv))
        s = cell(ctx, nx, ny)
        state = unit0(d) if default else leaf('state', s, (d,), dtype).tv
        t = net[s]
        check_state(ctx, t['A'], state, D, d, dtype, 'site of a fresh network')
        check_env(ctx, t, STensor(t['A'].tv, dtype), dtype, 'site of a fresh network')
        end(ctx)
    return fn


def units(tier):
    fi = [F + 'initialize_site_tensor', F + 'initialize_corner_tensors', F + 'initialize_edge_tensors', F + 'bond_permute', F + '__setitem__', F + '__getitem__', F + '__init__']
    fn = fi + [N + 'initialize_site_tensors', N + 'setup_tensor_network', N + '__init__']
    A = ['torch.rand entries lie in [0, 1)']
    us = []
    for dn in ('complex128', 'float64', 'complex64', 'float32'):
        us.append(Unit(f'environment/{dn}', env_unit(DT[dn]), fi[1:4]))
        us.append(Unit(f'site/{dn}', site_unit(DT[dn]), fi, assumes=A))
    us.append(Unit('site/complex128/short state', site_unit(C128, 'short'), fi, assumes=A))
    for dn in ('complex128', 'float64'):
        us.append(Unit(f'network/any cell/{dn}/default state', net_unit(DT[dn], True), fn, assumes=A))
        us.append(Unit(f'network/any cell/{dn}/given states', net_unit(DT[dn], False), fn, assumes=A))
    return us
