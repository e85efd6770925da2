"""Part two of tools/selftest.py: functions of /repo, run by the engine on symbolic tensors and by Python on torch tensors."""
import importlib
import sys

import torch as rt

from acev import conts as ct
from acev.core import ivar


def cases(S):
    CH, D, P = 'n', 'p', 'p'

    def imp(t, mod, *names):
        if t is rt:
            m = importlib.import_module(mod)
        else:
            S.L(mod, names[0])
            m = S.L.mods[mod]
        m = sys.modules[mod] if t is rt else m
        return getattr(m, names[0]) if len(names) == 1 else [getattr(m, n) for n in names]

    def size(t, ch):
        return S.SIZES[ch] if t is rt else ivar(ch, 1)

    class Rec(dict):
        pass

    class Net:
        """2x2 cell; tensors[i] are the tensors of the i-th site."""

        def __init__(self, t, tensors):
            self.nx = self.ny = 2
            dt = tensors[0].dtype
            dims = {'bond': size(t, D), 'phys': size(t, P), 'chi': size(t, CH)}
            self.dims = dims if t is rt else ct.SymDict(dims)
            self.dtype, self.device = dt, tensors[0].device
            self.rank, self.world_size, self.is_distributed = 0, 1, False
            ST, Bond = imp(t, 'acetn.ipeps.site_tensor', 'SiteTensor'), imp(t, 'acetn.ipeps.bond', 'Bond')
            self.site_list = [(x, y) for x in range(2) for y in range(2)]
            self.s = {}
            for i, s in enumerate(self.site_list):
                a = [x.clone() for x in tensors[9 * i:9 * i + 9]]
                self.s[s] = ST(self.dims, site_tensor=Rec(A=a[0], C=a[1:5], E=a[5:9]), dtype=dt, device=self.device)
            self.bond_list = [Bond((x, y), ((x + 1) % 2, y), 2) for x, y in self.site_list] + [Bond((x, y), (x, (y + 1) % 2), 1) for x, y in self.site_list]

        def __getitem__(self, s):
            return self.s[s]

        def all(self):
            return [x for s in self.site_list for x in [self.s[s]['A'], *self.s[s]['C'], *self.s[s]['E']]]

    def net_ins(dt):
        r = []
        for _ in range(4):
            r += [(D * 4 + P, dt)] + [(CH + CH, dt)] * 4 + [(CH + CH + D + D, dt)] * 4
        return r

    def of(names):
        class C:
            pass
        for k, v in names.items():
            setattr(C, k, v)
        return C

    def networks(name, f, tol=1e-9, dts='fc'):
        for dt in dts:
            S.case(f'repo {name} [{dt}]', net_ins(dt), lambda t, *a: f(t, Net(t, a)), tol=tol)

    DMOD = 'acetn.renormalization.directional_mover'
    PMOD = 'acetn.renormalization.projectors'
    RMOD = 'acetn.measurement.rdm'
    FU = 'acetn.evolution.full_update'
    ALS = 'acetn.evolution.als_solver'

    for k in range(4):
        networks(f'quarter {k}', lambda t, n, k=k: imp(t, PMOD, 'ProjectorCalculator').make_quarter_tensor(n[0, 1], k)[0])
    cfg = dict(svd_cutoff=1e-12, rsvd_niter=2, rsvd_oversampling=2, svd_type='full-rank')
    sites = [(0, 0), (1, 0), (1, 1), (0, 1)]
    for pr in ('half', 'full'):
        def pc(t, n, pr=pr):
            c = imp(t, PMOD, 'ProjectorCalculator')(of({**cfg, 'projectors': pr + '-system'}))
            return getattr(c, f'contract_{pr}_system')(n, sites, 1)
        networks(f'contract {pr}', pc)

        def pd(t, n, pr=pr):
            c = imp(t, PMOD, 'ProjectorCalculator')(of({**cfg, 'projectors': pr + '-system'}))
            p, q = c.calculate(n, sites, 1)
            return t.einsum('abcz,defz->abcdef', p, q), p.norm()
        networks(f'projectors {pr}', pd, tol=1e-6, dts='f')
    for d, a in (('left', 'x'), ('right', 'x'), ('up', 'y'), ('down', 'y')):
        def mv(t, n, d=d):
            m = imp(t, DMOD, 'DirectionalMover')(of({**cfg, 'projectors': 'half-system'}))
            i = [0]

            def fixed(ipeps, sites, k):
                i[0] += 1
                e, g = ipeps[sites[0]]['E'], ipeps[sites[3]]['E']
                return e[k].permute(1, 2, 3, 0).clone(), g[(k + 3) % 4].permute(0, 2, 3, 1).clone()
            m.calculate_projectors = fixed
            getattr(m, d + '_move')(n, 1)
            return n.all()
        networks(f'{d} move', mv)
    networks('site rdm', lambda t, n: imp(t, RMOD, 'RDM')(n)[(1, 0)], dts='c')
    for b in (0, 3, 5, 6):
        networks(f'bond rdm {b}', lambda t, n, b=b: imp(t, RMOD, 'RDM')(n)[n.bond_list[b]], dts='fc')

    # ---- updates
    def dec(t, n):
        TU = imp(t, 'acetn.evolution.tensor_update', 'TensorUpdater')
        a1, a2 = n[0, 0]['A'], n[1, 0]['A']
        r = TU.decompose_site_tensors(a1, a2)
        return list(r) + list(TU.recompose_site_tensors(*r))
    networks('decompose', dec)

    def nt(t, n):
        return imp(t, FU, 'build_norm_tensor_core')(*([n[0, 0]['C'][1], n[0, 0]['E'][1], n[0, 0]['E'][0], n[0, 0]['C'][2], n[0, 0]['E'][2], n[0, 0]['A'][..., 0],
                                                      n[1, 0]['C'][0], n[1, 0]['E'][0], n[1, 0]['E'][3], n[1, 0]['C'][3], n[1, 0]['E'][2], n[1, 0]['A'][..., 1]]))
    networks('norm tensor', nt)
    for dt in 'fc':
        o = lambda name, ins, f, **k: S.case(f'repo {name} [{dt}]', ins, f, **k)      # noqa: E731
        N4, G4, A3 = ('nnnn', dt), ('nnpp', dt), ('n1p'.replace('1', 'p'), dt)
        conf = of(dict(als_niter=3, als_tol=0.0, als_method='cholesky', als_epsilon=1e-3, backend='torch'))
        o('als parts', [N4, G4, A3, A3], lambda t, n, g, a, b: [imp(t, ALS, 'ALSSolver').calculate_cost(a, b, g, n)] + [
            getattr(imp(t, ALS, 'ALSSolver'), x)(*y) for x, y in (('build_r1', (n, b)), ('build_r2', (n, a)), ('build_s1', (g, b)), ('build_s2', (g, a)))])
        o('als start', [G4], lambda t, g: imp(t, ALS, 'ALSSolver').initialize_reduced_tensors(g, (size(t, 'n'), size(t, 'p'), size(t, 'p'))))

        def gram(t, z):
            return t.einsum('yxz,YXz->yxYX', z, z.conj())

        def half(t, z, g, a, b, which, conf=conf, method='cholesky'):
            n = gram(t, z)
            c = of(dict(als_niter=3, als_tol=0.0, als_method=method, als_epsilon=1e-3, backend='torch'))
            s = imp(t, ALS, 'ALSSolver')(n, g, a.shape, c)
            n12g = t.einsum('yxYX,yxpq->YXpq', n, g)
            return getattr(s, which)(n12g, a)
        for w in ('solve_a1r', 'solve_a2r'):
            for me in ('cholesky', 'pinv'):
                o(f'{w} {me}', [('nnq', dt), G4, A3, A3], lambda t, z, g, a, b, w=w, me=me: half(t, z, g, a, b, w, method=me), tol=1e-5)
        o('positive', [('nnq', dt)], lambda t, z: (lambda r: t.einsum('yxz,YXz->yxYX', r, r.conj()))(imp(t, FU, 'positive_approx')(gram(t, z) + 1e-3 * t.eye(size(t, 'n') ** 2, dtype=z.dtype).reshape([size(t, 'n')] * 4))), tol=1e-7, some=True)

        def gf(t, z, g):
            n, a, x, y = imp(t, FU, 'gauge_fix')(z, g)
            return n, a, x, y
        o('gauge fix', [('nnn*n', dt), G4], gf, tol=1e-6)

        def fin(t, a, b):
            F = imp(t, FU, 'FullUpdater')
            u = F.__new__(F)
            u.use_gauge_fix = False
            return u.finalize_reduced_tensors(a, b)
        o('finalize', [A3, A3], fin, tol=1e-7)

    def simple(t, n, k=0):
        SU = imp(t, 'acetn.evolution.simple_update', 'SimpleUpdater')
        bond = n.bond_list[k]

        class G:
            wrap_one_site = True

            def __getitem__(self, b):
                p = size(t, P)
                return n[1, 1]['E'][0][:p, :p].permute(2, 3, 0, 1)
        u = SU(n, G(), of({}))
        g = n[0, 1]
        for i, b in enumerate(n.bond_list):
            u.lambda_tensors[b] = g['C'][i % 4][0, :size(t, D)].abs() + 0.1
        u.bond_update(bond)
        return list(n.all())
    for k in (0, 3, 5):
        networks(f'simple update {k}', lambda t, n, k=k: simple(t, n, k), tol=1e-6, dts='fc')
