from .lib import *
from .c11 import Model, Op
from .c01 import network

GA = 'acetn/evolution/gate.py:Gate.'


class Terms(Model):
    """An arbitrary model whose operators are stored tensors (handed out unchanged); some sites may have no one-site term."""

    def __init__(self, d, dtype, form, has):
        super().__init__(d, dtype, form)
        self.has, self.handed = has, []

    def _keep(self, o):
        t = o.mat if isinstance(o, Op) else o
        self.handed.append((o, t, t._st, t._st.version, t.tv))
        return o

    def one_site_hamiltonian(self, site):
        return self._keep(self.wrap(self.O('h', site))) if self.has(site) else None

    def two_site_hamiltonian(self, bond):
        return self._keep(super().two_site_hamiltonian(bond))

    def untouched(self, ctx):
        for o, t, s, ver, tv in self.handed:
            ctx.check(((o.mat if isinstance(o, Op) else o) is t and s.version == ver and t.tv is tv, ''), "the model's operator is not changed")


def generator(model, b, d, dtype):
    """H_b plus a quarter of the one-site terms of both ends: four bond ends meet at every site (C01)."""
    one = T.eye(d)
    K = model.OO('H', b).tv
    if model.has(b.s1):
        K = T.add(K, T.scale(T.einsum('Pp,Qq->PQpq', model.O('h', b.s1).tv, one), T.frac(0.25)))
    if model.has(b.s2):
        K = T.add(K, T.scale(T.einsum('Pp,Qq->PQpq', one, model.O('h', b.s2).tv), T.frac(0.25)))
    return K


def spec(model, b, tau, d, dtype):
    K = T.mul(T.scale(tau.tv, -1), generator(model, b, d, dtype))
    m = st.matrix_exp(STensor(K, dtype).reshape(d * d, d * d))
    return m.reshape(d, d, d, d)


def check_bond(ctx, g, model, b, tau, d, dtype, name='bond gate'):
    try:
        got = g[b]
    except KeyError:
        ctx.check((False, f'{b}'), 'every bond has a gate')
        return
    shape_is(ctx, got, (d,) * 4, f'{name}: four physical indices')
    eq(ctx, got, spec(model, b, tau, d, dtype), f'{name} = exp(-tau generator), first site before second', dtype)


def single(dtype, form, k, h1, h2, same=False):
    """An arbitrary bond."""
    def fn(ctx):
        L = Loader()
        Gate = L('acetn.evolution.gate', 'Gate')
        Bond = L('acetn.ipeps.bond', 'Bond')
        d = ivar('d', 1)
        tau = st.real_param('dtau', 0)
        s1 = (ivar('x1', 0), ivar('y1', 0))
        s2 = s1 if same else (ivar('x2', 0), ivar('y2', 0))
        if not same:
            ctx.assume(core.z3.Or(z3i(s1[0]) != z3i(s2[0]), z3i(s1[1]) != z3i(s2[1])))
        has = lambda s: h1 if ct.decide_eq(s, s1) else h2
        model = Terms(d, dtype, form, has)
        b = Bond(s1, s2, k)
        sites = ct.SymList([s1] if same else [s1, s2])
        g = Gate(model, tau, ct.SymList([b]), sites)
        check_bond(ctx, g, model, b, tau, d, dtype)
        for s, h in ((s1, h1), (s2, h2)):
            try:
                one = g[s]
            except KeyError:
                continue
            if h and g.wrap_one_site:
                eq(ctx, one, st.matrix_exp(STensor(T.mul(T.scale(tau.tv, -1), model.O('h', s).tv), dtype)), 'gate of a site = exp(-tau h)', dtype)
        model.untouched(ctx)
        # gates built later, for another time step and another model, do not alter these
        kept = g[b]
        other = Terms(d, dtype, form, lambda s: True)
        other.OO = lambda n, b: leaf('other' + n, (), (d,) * 4, dtype)
        g2 = Gate(other, st.real_param('dtau2', 0), ct.SymList([b]), sites)
        eq(ctx, g[b], spec(model, b, tau, d, dtype), 'gates built before stay as they were')
        eq(ctx, g2[b], spec(other, b, st.real_param('dtau2', 0), d, dtype), 'gates of another evolution')
        g2[b] = leaf('new', (), (d,) * 4, dtype)
        eq(ctx, g[b], spec(model, b, tau, d, dtype), 'setting a gate of one set does not alter another')
        ctx.check((kept is g[b] and kept._st.version == 0 or kept._st.version == g[b]._st.version, ''), 'kept')
        end(ctx)
    return fn


def whole(nx, ny, dtype, form, pattern, concrete):
    """All bonds of a unit cell."""
    def fn(ctx):
        L = Loader()
        Gate = L('acetn.evolution.gate', 'Gate')
        Bond = L('acetn.ipeps.bond', 'Bond')
        d = ivar('d', 1)
        tau = st.real_param('dtau', 0)
        X, Y = (nx, ny) if concrete else (ivar('nx', 1), ivar('ny', 1))
        net = network(L, X, Y)
        has = {'all': lambda s: True, 'none': lambda s: False, 'some': lambda s: (s[0] + 2 * s[1]) % 3 != 0}[pattern]
        model = Terms(d, dtype, form, has)
        g = Gate(model, tau, net.bond_list, net.site_list)
        sites = [(x, y) for x in range(nx) for y in range(ny)] if concrete else [cell(ctx, X, Y)]
        total = {}
        for s in sites:
            for b in (Bond(s, (imod(s[0] + 1, X), s[1]), 2), Bond(s, (s[0], imod(s[1] + 1, Y)), 1)):
                check_bond(ctx, g, model, b, tau, d, dtype)
                for e in (b.s1, b.s2) if concrete else ():
                    total[e] = total.get(e, 0) + 1
        if concrete:
            ctx.check((all(total[s] == 4 for s in sites) and len(total) == nx * ny, ''), 'four bond ends meet at every site: its one-site term enters once in total')
        model.untouched(ctx) if concrete else None
        end(ctx)
    return fn


def units(tier):
    us = []
    fs = [GA + n for n in ('__init__', 'build_one_site_gates', 'build_two_site_gates', 'calculate_gate', 'to_matrix', '__getitem__', '__setitem__')]
    A = ['torch.matrix_exp is the matrix exponential']
    for dn in ('complex128', 'float64'):
        for form in ('mat', 'plain'):
            for h1, h2 in ((True, True), (True, False), (False, True), (False, False)):
                for k in (1, 2):
                    us.append(Unit(f'bond/{dn}/{form}/k={k}/one-site terms {int(h1)}{int(h2)}', single(DT[dn], form, k, h1, h2), fs, assumes=A))
            us.append(Unit(f'bond/{dn}/{form}/same site', single(DT[dn], form, 2, True, True, True), fs, assumes=A))
            for p in ('all', 'none'):
                us.append(Unit(f'cell/any size/{dn}/{form}/{p}', whole(0, 0, DT[dn], form, p, False), fs, assumes=A))
    for nx, ny in LATTICES:
        for p in ('all', 'some', 'none'):
            us.append(Unit(f'cell/{nx}x{ny}/{p}', whole(nx, ny, C128, 'mat', p, True), fs, bounded=f'unit cell {nx}x{ny}', assumes=A))
    return us
