from .lib import *

M = 'acetn/measurement/measure.py:'


class Op:
    """An operator object holding its matrix."""
    def __init__(self, mat):
        self.mat = mat


class Model:
    """An arbitrary model: site and bond dependent operators; form: plain tensors or objects with .mat; two-site operators as
    matrices or with four indices."""

    def __init__(self, d, dtype, form='mat', one=True, one_obs=('oa', 'ob'), two_obs=('ta', 'tb'), two_shape='matrix'):
        self.dim, self.dtype, self.form, self.one, self.oo, self.to, self.ts = d, dtype, form, one, one_obs, two_obs, two_shape
        self.device = st.CPU

    def wrap(self, t):
        return Op(t) if self.form == 'mat' else t

    def O(self, name, site):
        return leaf(name, (site[0], site[1]), (self.dim, self.dim), self.dtype)

    def OO(self, name, b):
        """[first bra, second bra, first ket, second ket]: <PQ|O|pq>"""
        return leaf(name, (b.s1[0], b.s1[1], b.s2[0], b.s2[1], b.k), (self.dim,) * 4, self.dtype)

    def _two(self, name, b):
        t = self.OO(name, b)
        return self.wrap(t if self.ts == 'tensor' else t.reshape(self.dim * self.dim, self.dim * self.dim))

    def one_site_hamiltonian(self, site):
        return self.wrap(self.O('h', site)) if self.one else None

    def two_site_hamiltonian(self, bond):
        return self._two('H', bond)

    def one_site_observables(self, site):
        return ct.SymDict([(n, self.wrap(self.O(n, site))) for n in self.oo])

    def two_site_observables(self, bond):
        return ct.SymDict([(n, self._two(n, bond)) for n in self.to])


def rho1(site, d, dtype):
    return leaf('rho', (site[0], site[1]), (d, d), dtype)


def rho2(b, d, dtype):
    return leaf('Rho', (b.s1[0], b.s1[1], b.s2[0], b.s2[1], b.k), (d,) * 4, dtype)


def rdm_stub(d, dtype):
    """Contract of the density matrices (decided by C09): rdm[site][P,p], rdm[bond][P,Q,p,q], bra indices first."""
    class RDM:
        def __init__(self, ipeps):
            self.ipeps = ipeps

        def __getitem__(self, key):
            return rho1(key, d, dtype) if isinstance(key, tuple) else rho2(key, d, dtype)
    return RDM


def re(v):
    return st._real(v) if not T.is_real(v) else v


def ev1(op, rho):
    """Re tr(O rho) / Re tr rho, the operator acting on the ket index: sum_{P,p} <P|O|p> rho[P,p]."""
    num = contract([(rho, ['P', 'p']), (op, ['P', 'p'])], [])
    den = contract([(rho, ['p', 'p'])], [])
    return T.div(re(num), re(den))


def ev2(op, rho):
    num = contract([(rho, ['P', 'Q', 'p', 'q']), (op, ['P', 'Q', 'p', 'q'])], [])
    den = contract([(rho, ['p', 'q', 'p', 'q'])], [])
    return T.div(re(num), re(den))


class Net:
    def __init__(self, site_list, bond_list, nx, ny):
        self.site_list, self.bond_list, self.nx, self.ny = site_list, bond_list, nx, ny
        self.rank, self.world_size, self.is_distributed = 0, 1, False


def run(L, net, model, d, dtype):
    mod = L('acetn.measurement.measure')
    rename(L, L('acetn.measurement.rdm', 'RDM'), rdm_stub(d, dtype))
    return L.mods['acetn.measurement.measure'].measure(net, model)


def values(form, dtype, mdtype, ts, k, same):
    """One site, one bond: the returned averages are exactly its expectation values."""
    def fn(ctx):
        L = Loader()
        d = ivar('d', 1)
        Bond = L('acetn.ipeps.bond', 'Bond')
        s1 = (0, 0)
        b = Bond(s1, s1 if same else {0: (2, 0), 1: (0, 1), 2: (1, 0), 3: (0, 2)}[k], k)
        net = Net(ct.SymList([s1]), ct.SymList([b]), 1, 1)
        model = Model(d, mdtype, form, two_shape=ts)
        got = run(L, net, model, d, dtype)
        for n in ('oa', 'ob'):
            eq(ctx, got[n], ev1(model.O(n, s1), rho1(s1, d, dtype)), 'one-site observable = Re tr(O rho) / Re tr rho')
        for n in ('ta', 'tb'):
            eq(ctx, got[n], ev2(model.OO(n, b), rho2(b, d, dtype)), 'two-site observable = Re tr(O rho) / Re tr rho')
        e = T.add(ev1(model.O('h', s1), rho1(s1, d, dtype)), ev2(model.OO('H', b), rho2(b, d, dtype)))
        eq(ctx, got['Energy'], e, 'energy of one site and one bond')
        end(ctx)
    return fn


def single(which, form, dtype, mdtype):
    """The single functions against their contracts."""
    def fn(ctx):
        L = Loader()
        d = ivar('d', 1)
        Bond = L('acetn.ipeps.bond', 'Bond')
        m = L.load('acetn.measurement.measure') and L.mods['acetn.measurement.measure']
        b = Bond((0, 0), (1, 0), 2)
        model = Model(d, mdtype, form)
        r1, r2 = rho1((0, 0), d, dtype), rho2(b, d, dtype)
        n1 = STensor(re(contract([(r1, ['p', 'p'])], [])), F64)
        n2 = STensor(re(contract([(r2, ['p', 'q', 'p', 'q'])], [])), F64)
        if which == 'site energy':
            eq(ctx, m.measure_site_energy((0, 0), r1, n1, model), ev1(model.O('h', (0, 0)), r1), 'one-site energy')
            model.one = False
            z = m.measure_site_energy((0, 0), r1, n1, model)
            ctx.check((not isinstance(z, STensor) and z == 0 or isinstance(z, STensor) and T.equal(z.tv, T.const(0)), f'{z}'), 'no one-site term: zero energy')
        elif which == 'bond energy':
            eq(ctx, m.measure_bond_energy(b, r2, n2, model), ev2(model.OO('H', b), r2), 'two-site energy')
        elif which == 'identity':
            # the identity has expectation value one
            model.O = lambda n, s: st.eye(d, dtype=mdtype)
            model.one_site_hamiltonian = lambda s: model.wrap(st.eye(d, dtype=mdtype))
            model.two_site_hamiltonian = lambda b: model.wrap(st.eye(d * d, dtype=mdtype))
            if dtype.is_complex:
                r1, r2 = leaf('r', (), (d, d), F64), leaf('R', (), (d,) * 4, F64)
                n1, n2 = STensor(contract([(r1, ['p', 'p'])], []), F64), STensor(contract([(r2, ['p', 'q', 'p', 'q'])], []), F64)
            eq(ctx, m.measure_site_energy((0, 0), r1, n1, model), T.const(1), 'identity on a site has expectation value one')
            eq(ctx, m.measure_bond_energy(b, r2, n2, model), T.const(1), 'identity on a bond has expectation value one')
        elif which == 'scale':
            c = st.real_param('c') if False else leaf('c', (), (), F64, pos=True)
            f1 = m.measure_site_energy((0, 0), r1 * c, n1 * c, model)
            eq(ctx, f1, ev1(model.O('h', (0, 0)), r1), 'independent of the scale of the density matrix')
            f2 = m.measure_bond_energy(b, r2 * c, n2 * c, model)
            eq(ctx, f2, ev2(model.OO('H', b), r2), 'independent of the scale of the density matrix (bond)')
        end(ctx)
    return fn


def units(tier):
    us = []
    fs = [M + n for n in ('measure', 'calculate_one_site_measurements', 'calculate_two_site_measurements', 'measure_site_energy', 'measure_bond_energy',
                          'measure_site_observables', 'measure_bond_observables', 'measure_one_site', 'measure_two_site')]
    A = ['density matrices by contract (C09)']
    for dn, mn in (('complex128', 'complex128'), ('float64', 'float64')):
        for form in ('mat', 'plain'):
            for ts in ('matrix', 'tensor'):
                for k, same in (((2, False), (1, False), (2, True)) if ts == 'matrix' else ((1, True),)):
                    us.append(Unit(f'values/{dn}/{form}/{ts}/k={k}{"/same site" if same else ""}', values(form, DT[dn], DT[mn], ts, k, same), fs, assumes=A))
            for w in ('site energy', 'bond energy'):
                us.append(Unit(f'{w}/{dn}/{form}', single(w, form, DT[dn], DT[mn]), fs[3:5] + fs[7:], assumes=A))
        for w in ('identity', 'scale'):
            us.append(Unit(f'{w}/{dn}', single(w, 'mat', DT[dn], DT[mn]), fs[3:5] + fs[7:], assumes=A))
    return us
