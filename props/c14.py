from .lib import *
from .c17 import sizes

TU = 'acetn/evolution/tensor_update.py:TensorUpdater.'
FU = 'acetn/evolution/full_update.py:'
FF = 'acetn/evolution/fast_full_update.py:FastFullUpdater.'


class Cfg:
    use_gauge_fix, gauge_fix_atol, positive_approx_cutoff, backend = True, 1e-12, 1e-12, 'torch'
    als_niter, als_tol, als_method, als_epsilon = 100, 1e-15, 'cholesky', 1e-12
    steps, projectors, svd_type, svd_cutoff, rsvd_niter, rsvd_oversampling = 40, 'half-system', 'rsvd', 1e-12, 2, 2


class Gates:
    """Contract of the gates (C12): one four-index gate per bond [first', second', first, second], one matrix per site."""

    def __init__(self, d, dtype, wrap=True):
        self.d, self.dtype, self.wrap_one_site = d, dtype, wrap

    def __getitem__(self, key):
        if isinstance(key, tuple):
            return leaf('g', (key[0], key[1]), (self.d, self.d), self.dtype)
        s1, s2, k = key
        return leaf('G', (s1[0], s1[1], s2[0], s2[1], k), (self.d,) * 4, self.dtype)


# ------------------------------------------------------------------ splitting and recombining

def split(dtype):
    def fn(ctx):
        L = Loader()
        cls = L('acetn.evolution.tensor_update', 'TensorUpdater')
        D, d, nD = sizes(ctx)
        a1, a2 = leaf('a1', (), (D, D, D, D, d), dtype), leaf('a2', (), (D, D, D, D, d), dtype)
        q1, r1, q2, r2 = cls.decompose_site_tensors(a1, a2)
        for n, q, r in (('first', q1, r1), ('second', q2, r2)):
            shape_is(ctx, q, (D, D, D, nD), f'{n} isometric part: three outer legs and the new one')
            shape_is(ctx, r, (nD, D, d), f'{n} reduced part: new leg, bond leg, physical leg')
            ctx.check((q.dtype is dtype and r.dtype is dtype, ''), 'dtype')
            # isometric on the space the reduced part lives in
            g = T.einsum('abcx,abcy->xy', T.conj(q.tv), q.tv)
            ctx.check(T.equal(g, T.eye(nD)), f'{n} isometric part has orthonormal columns', 'tensor kernel')
        # what the isometric and the reduced parts are, in the frame of the bond
        eq(ctx, a1, contract([(q1, ['r', 'd', 'u', 'x']), (r1, ['x', 'l', 'p'])], ['l', 'u', 'r', 'd', 'p']), 'first pair recombines to the first tensor')
        eq(ctx, a2, contract([(q2, ['d', 'l', 'u', 'x']), (r2, ['x', 'r', 'p'])], ['l', 'u', 'r', 'd', 'p']), 'second pair recombines to the second tensor')
        b1, b2 = cls.recompose_site_tensors(q1, r1, q2, r2)
        eq(ctx, b1, a1, 'recombining the parts gives the first tensor', dtype)
        eq(ctx, b2, a2, 'recombining the parts gives the second tensor', dtype)
        ctx.check((a1._st.version == 0 and a2._st.version == 0, ''), 'inputs not modified')
        end(ctx)
    return fn


def rejoin(dtype):
    """Recombination of arbitrary parts."""
    def fn(ctx):
        L = Loader()
        cls = L('acetn.evolution.tensor_update', 'TensorUpdater')
        D, d, nD = sizes(ctx)
        b = ivar('b', 1)
        q1, q2 = leaf('q1', (), (D, D, D, nD), dtype), leaf('q2', (), (D, D, D, nD), dtype)
        r1, r2 = leaf('r1', (), (nD, b, d), dtype), leaf('r2', (), (nD, b, d), dtype)
        b1, b2 = cls.recompose_site_tensors(q1, r1, q2, r2)
        eq(ctx, b1, contract([(q1, ['r', 'd', 'u', 'x']), (r1, ['x', 'l', 'p'])], ['l', 'u', 'r', 'd', 'p']), 'first tensor', dtype)
        eq(ctx, b2, contract([(q2, ['d', 'l', 'u', 'x']), (r2, ['x', 'r', 'p'])], ['l', 'u', 'r', 'd', 'p']), 'second tensor', dtype)
        end(ctx)
    return fn


def permute(dtype):
    def fn(ctx):
        L = Loader()
        cls = L('acetn.evolution.full_update', 'FullUpdater')
        D, d, nD = sizes(ctx)

        class Net:
            dims = {}
        u = cls(Net(), None, Cfg)
        for k in range(4):
            a1, a2 = leaf('a1', (), [ivar(f'D{i}', 1) for i in range(4)] + [d], dtype), leaf('a2', (), [ivar(f'E{i}', 1) for i in range(4)] + [d], dtype)
            b1, b2 = u.permute_bond_tensors(a1, a2, k)
            for a, b in ((a1, b1), (a2, b2)):
                eq(ctx, b, T.permute(a.tv, tuple((i + k) % 4 for i in range(4)) + (4,)), f'frame {k}: leg j is leg (j+k)%4', dtype)
            c1, c2 = u.permute_bond_tensors(b1, b2, 4 - k)
            eq(ctx, c1, a1, f'frame {k}: back')
            eq(ctx, c2, a2, f'frame {k}: back')
        end(ctx)
    return fn


# ------------------------------------------------------------------ norm environment

def norm_spec(s1, s2, k, q1, q2):
    ops = two_ring(s1, s2, k)
    ops += [(q1, ['x2', 'x3', 'x1', 'y']), (cj(q1), ['X2', 'X3', 'X1', 'Y']), (q2, ['y3', 'y0', 'y1', 'x']), (cj(q2), ['Y3', 'Y0', 'Y1', 'X'])]
    return contract(ops, ['y', 'x', 'Y', 'X'])


def norm_core(name, dtype):
    def fn(ctx):
        L = Loader()
        f = L('acetn.evolution.full_update', name)
        D, n = ivar('D', 1), ivar('n', 1)
        m = [ivar(f'm{i}', 1) for i in range(10)]
        lf = lambda nm, *sz: leaf(nm, (), sz, dtype)
        c21, e21, e11, c12, e12 = lf('c21', m[0], m[1]), lf('e21', m[1], m[2], D, D), lf('e11', m[2], m[3], D, D), lf('c12', m[3], m[4]), lf('e12', m[4], m[5], D, D)
        c13, e13, e23, c24, e24 = lf('c13', m[5], m[6]), lf('e13', m[6], m[7], D, D), lf('e23', m[7], m[8], D, D), lf('c24', m[8], m[9]), lf('e24', m[9], m[0], D, D)
        q1, q2 = lf('q1', D, D, D, n), lf('q2', D, D, D, n)
        got = f(c12, e12, e11, c13, e13, q1, c21, e21, e24, c24, e23, q2)
        S1 = Rec(C=[None, c12, c13, None], E=[e11, e12, e13, None])
        S2 = Rec(C=[c21, None, None, c24], E=[e21, None, e23, e24])
        eq(ctx, got, norm_spec(S1, S2, 0, q1, q2), f'{name} = complete contraction', dtype)
        end(ctx)
    return fn


def bond_in(ctx, L, net, k):
    s1 = cell(ctx, net.nx, net.ny)
    s2 = shift(s1, STEP[k], net.nx, net.ny)
    return L('acetn.ipeps.bond', 'Bond')(s1, s2, k)


def norm_bond(k, dtype):
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        net = SymSites(L, nx, ny, dtype)
        n = ivar('n', 1)
        D = net.D
        q1, q2 = leaf('q1', (), (D, D, D, n), dtype), leaf('q2', (), (D, D, D, n), dtype)
        f = L('acetn.evolution.full_update', 'build_norm_tensor')
        b = bond_in(ctx, L, net, k)
        got = f(net, b, q1, q2)
        eq(ctx, got, norm_spec(net.init(b.s1), net.init(b.s2), k, q1, q2), f'norm environment of a bond in direction {k}', dtype)
        net.unchanged(ctx, 'norm environment')
        end(ctx)
    return fn


# ------------------------------------------------------------------ the update of a bond

def als_stub(log, nD, D, d, dtype):
    """Contract of the alternating solver (C16): reduced tensors of the requested shape."""
    class ALSSolver:
        def __init__(self, n12, a12g, ar_shape, config):
            self.a = (n12, a12g, tuple(ar_shape), config)

        def solve(self):
            log.append(self.a)
            i = len(log)
            return leaf(f'als1_{i}', (), self.a[2], dtype), leaf(f'als2_{i}', (), self.a[2], dtype)
    return ALSSolver


def update(k, dtype, gauge, wrap, via):
    """via 'update': FullUpdater.update; 'bond_update': FastFullUpdater.bond_update with the boundary moves by contract."""
    def fn(ctx):
        L = Loader()
        cls = L('acetn.evolution.full_update', 'FullUpdater')
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        D, d, nD = sizes(ctx)
        net = SymSites(L, nx, ny, dtype, D=D, d=d)
        b = bond_in(ctx, L, net, k)
        als, pos, gf = [], [], []
        fu = L.mods['acetn.evolution.full_update']
        rename(L, fu.__dict__['ALSSolver'], als_stub(als, nD, D, d, dtype))

        def positive_approx(n12, cutoff=1e-12):
            pos.append((n12, n12.tv, cutoff))
            return leaf('nz', (), (nD, nD, nD * nD), dtype)

        def gauge_fix(nz, a12g, atol=1e-12):
            gf.append((nz, a12g, atol))
            return leaf('gn', (), (nD,) * 4, dtype), leaf('ga', (), (nD, nD, d, d), dtype), leaf('gx', (), (nD, nD), dtype), leaf('gy', (), (nD, nD), dtype)
        rename(L, fu.__dict__['positive_approx'], positive_approx)
        rename(L, fu.__dict__['gauge_fix'], gauge_fix)

        class C(Cfg):
            use_gauge_fix = gauge
        G = Gates(d, dtype, wrap)
        if via == 'update':
            u = cls(net, G, C)
            out = u.update(b)
            a1, a2 = out[0], out[1]
        else:
            F = L('acetn.evolution.fast_full_update', 'FastFullUpdater')

            class NC:
                ctmrg = Cfg
            net.config = NC
            u = F(net, G, C)

            class Mover:
                def _m(self, ipeps, i):
                    pass
                left_move = right_move = up_move = down_move = _m
            u.mover = Mover()
            u.bond_update(b)
            a1, a2 = net[b.s1]['A'], net[b.s2]['A']
        i1, i2 = net.init(b.s1)['A'], net.init(b.s2)['A']
        same = ct.decide_eq(b.s1, b.s2)
        # the reduced problem, in the frame of the bond
        pm = tuple((i + k) % 4 for i in range(4)) + (4,)
        q1, r1, q2, r2 = cls.decompose_site_tensors(STensor(T.permute(i1.tv, pm), dtype), STensor(T.permute(i2.tv, pm), dtype))
        ctx.check((len(als) == 1 and len(pos) == 1 and len(gf) == (1 if gauge else 0), ''), 'one reduced problem is solved')
        N = norm_spec(net.init(b.s1), net.init(b.s2), k, q1, q2)
        ctx.check(T.equal(pos[0][1], N), 'the norm environment of the reduced problem is that of the bond', 'tensor kernel')
        ctx.check((pos[0][2] == C.positive_approx_cutoff, ''), 'configured cutoff')
        target = contract([(r1, ['y', 'u', 'p']), (r2, ['x', 'u', 'q']), (G[b], ['r', 's', 'p', 'q'])], ['y', 'x', 'r', 's'])
        nz = leaf('nz', (), (nD, nD, nD * nD), dtype)
        n12, a12g, shp, conf = als[0]
        ctx.check((len(shp) == 3 and all(ieq(x, y) for x, y in zip(shp, (nD, D, d))), str(shp)), 'reduced tensors keep their shape')
        ctx.check((conf is C, ''), 'solver gets the configuration')
        if gauge:
            ctx.check((gf[0][0].tv is not None and gf[0][2] == C.gauge_fix_atol, ''), 'configured gauge tolerance')
            ctx.check(T.equal(gf[0][0].tv, nz.tv), 'gauge fixing of the positive square root', 'tensor kernel')
            ctx.check(T.equal(gf[0][1].tv, target), 'gate applied to the physical indices in site order', 'tensor kernel')
            eq(ctx, n12, leaf('gn', (), (nD,) * 4, dtype), 'solver gets the gauge-fixed environment')
            eq(ctx, a12g, leaf('ga', (), (nD, nD, d, d), dtype), 'solver gets the gauge-fixed target')
        else:
            eq(ctx, a12g, target, 'gate applied to the physical indices in site order')
            eq(ctx, n12, T.einsum('yxz,YXz->yxYX', nz.tv, T.conj(nz.tv)), 'solver gets the positive environment')
        # the result
        x1, x2 = leaf('als1_1', (), (nD, D, d), dtype).tv, leaf('als2_1', (), (nD, D, d), dtype).tv
        if gauge:
            x1 = T.einsum('yz,zup->yup', leaf('gy', (), (nD, nD), dtype).tv, x1)
            x2 = T.einsum('xz,zup->xup', leaf('gx', (), (nD, nD), dtype).tv, x2)
        inv = tuple((i - k) % 4 for i in range(4)) + (4,)
        for n, a in (('first', a1), ('second', a2)):
            shape_is(ctx, a, (D, D, D, D, d), f'{n} site tensor keeps its shape')
            ctx.check((a.dtype is dtype, ''), f'{n} site tensor keeps its dtype')
            if wrap:
                unit_norm(ctx, a, f'{n} site tensor has norm one')
        if via == 'update' or not same:
            ft = [contract([(q1, ['r', 'd', 'u', 'x']), (x1, ['x', 'l', 'p'])], ['l', 'u', 'r', 'd', 'p']),
                  contract([(q2, ['d', 'l', 'u', 'x']), (x2, ['x', 'r', 'p'])], ['l', 'u', 'r', 'd', 'p'])]
            w = [T.permute(v, inv) for v in ft]
            if not wrap:
                w = [T.einsum('lurdp,qp->lurdq', v, G[s].tv) for v, s in zip(w, (b.s1, b.s2))]
            # shared leg: leg k of the first site, leg k+2 of the second
            l1 = legs(k, ['m', 'x1', 'x2', 'x3']) + ['p']
            l2 = legs(k, ['y0', 'y1', 'm', 'y3']) + ['q']
            o = ['x1', 'x2', 'x3', 'p', 'y0', 'y1', 'y3', 'q']
            propto(ctx, contract([(a1, l1), (a2, l2)], o), contract([(w[0], l1), (w[1], l2)], o), 'the pair of site tensors is the isometric parts with the solution of the reduced problem')
        net.unchanged(ctx, 'update', (lambda key, part, j: part == 'A' and (ct.decide_eq(key, b.s1) or ct.decide_eq(key, b.s2))) if via == 'bond_update' else (lambda *a: False))
        ctx.check((not net.replaced, ''), 'no site replaced')
        end(ctx)
    return fn


def units(tier):
    us = []
    dec = [TU + 'decompose_site_tensors', TU + 'recompose_site_tensors']
    for dn in DT:
        us.append(Unit(f'splitting/{dn}', split(DT[dn]), dec))
        us.append(Unit(f'recombining/{dn}', rejoin(DT[dn]), dec[1:]))
    us.append(Unit('frames', permute(C128), [TU + 'permute_bond_tensors', TU + 'bond_permutation']))
    for dn in ('complex128', 'float64'):
        for n in ('build_norm_tensor_core', 'build_norm_tensor_core_blocked'):
            us.append(Unit(f'{n}/{dn}', norm_core(n, DT[dn]), [FU + n]))
        for k in range(4):
            us.append(Unit(f'norm environment/k={k}/{dn}', norm_bond(k, DT[dn]), [FU + 'build_norm_tensor', FU + 'build_norm_tensor_core']))
            for gauge in (True, False):
                for wrap in (True, False):
                    us.append(Unit(f'update/k={k}/{dn}/{"gauge fixed" if gauge else "plain"}/{"one-site terms in the bond gates" if wrap else "separate one-site gates"}', update(k, DT[dn], gauge, wrap, 'update'),
                                   dec + [TU + 'update', TU + 'permute_bond_tensors', TU + 'bond_permutation', FU + 'FullUpdater.tensor_update', FU + 'FullUpdater.update_reduced_tensors', FU + 'FullUpdater.precondition_norm_tensor',
                                          FU + 'FullUpdater.finalize_reduced_tensors', FU + 'build_norm_tensor']))
                us.append(Unit(f'bond update/k={k}/{dn}/{"gauge fixed" if gauge else "plain"}', update(k, DT[dn], gauge, True, 'bond_update'), [FF + '__init__', FF + 'bond_update', FF + 'absorb_bond', TU + 'update']))
    return us
