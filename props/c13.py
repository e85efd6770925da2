from .lib import *
from .c14 import Gates, Cfg, bond_in
from .c16 import merge

SU = 'acetn/evolution/simple_update.py:SimpleUpdater.'
LT = 'acetn/evolution/lambda_tensors.py:LambdaTensors.'
TU = 'acetn/evolution/tensor_update.py:TensorUpdater.'


def canonical(s, k, nx, ny):
    """The bond of the unit cell that leaves site s in direction k: (first site, direction)."""
    if k in (1, 2):
        return s, k
    return shift(s, STEP[k], nx, ny), (k + 2) % 4


class Weights:
    """Contract of the bond weights: one positive vector per bond of the unit cell; a site finds the bond of each direction."""

    def __init__(self, nx, ny, D, real):
        self.nx, self.ny, self.D, self.real = nx, ny, D, real
        self.sets = []

    def weight(self, s, k):
        s, k = canonical(s, k, self.nx, self.ny)
        return leaf('lam', (s[0], s[1], k), (self.D,), self.real, pos=True)


class ByBond:
    def __init__(self, W):
        self.W = W

    def __getitem__(self, b):
        return self.W.weight(b.s1, b.k)

    def __setitem__(self, b, v):
        self.W.sets.append((b, v))


class BySite:
    def __init__(self, W, L):
        self.W, self.L = W, L

    def __getitem__(self, s):
        return BySiteDir(self, s)


class BySiteDir:
    def __init__(self, o, s):
        self.o, self.s = o, s

    def __getitem__(self, k):
        W = self.o.W
        if not isinstance(k, int) or not 0 <= k < 4:
            raise KeyError(k)
        s, q = canonical(self.s, k, W.nx, W.ny)
        return self.o.L('acetn.ipeps.bond', 'Bond')(s, shift(s, STEP[q], W.nx, W.ny), q)


def weights_by_contract(L, W):
    cls = L('acetn.evolution.lambda_tensors', 'LambdaTensors')
    o = cls.__new__(cls)
    o._data, o._site_bonds = ByBond(W), BySite(W, L)
    return o


def step(k, dtype, wrap):
    def fn(ctx):
        L = Loader()
        cls = L('acetn.evolution.simple_update', 'SimpleUpdater')
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        net = SymSites(L, nx, ny, dtype)
        D, d = net.D, net.d
        net.bond_list = []
        b = bond_in(ctx, L, net, k)
        if ct.decide_eq(b.s1, b.s2):
            return      # the bond joins a site to itself: the two roles coincide
        ctx.data['clamp_identity'] = lambda tv, mn: not isinstance(mn, (STensor, SymInt)) and mn <= 1e-12
        G = Gates(d, dtype, wrap)
        u = cls(net, G, Cfg)
        W = Weights(nx, ny, D, dtype.to_real())
        u.lambda_tensors = weights_by_contract(L, W)
        i1, i2 = net.init(b.s1)['A'], net.init(b.s2)['A']
        u.bond_update(b)
        a1, a2 = net[b.s1]['A'], net[b.s2]['A']
        k2 = (k + 2) % 4

        def weigh(a, s, skip, inverse=False):
            v = a.tv if isinstance(a, STensor) else a
            for j in range(4):
                if j != skip:
                    w = W.weight(s, j).tv
                    v = T.einsum('lurdp,' + 'lurd'[j] + '->lurdp', v, T.power(w, -1) if inverse else w)
            return v
        pm = tuple((i + k) % 4 for i in range(4)) + (4,)
        w1, w2 = weigh(i1, b.s1, k), weigh(i2, b.s2, k2)
        # the weighted pair with the gate, reduced by isometries (exactness of the splitting: C14)
        q1, r1, q2, r2 = cls.decompose_site_tensors(STensor(T.permute(w1, pm), dtype), STensor(T.permute(w2, pm), dtype))
        th = contract([(r1, ['y', 'u', 'p']), (r2, ['x', 'u', 'q']), (G[b], ['r', 's', 'p', 'q'])], ['y', 'r', 'x', 's'])
        U, S, Vh = st.svd(STensor(merge(th, (0, 1), (2, 3)), dtype), full_matrices=False)
        sD = T.slice_axis(S.tv, 0, 0, D)
        lam = T.power(T.div(sD, T.norm(sD)), 0.5)
        ctx.check((len(W.sets) == 1, f'{len(W.sets)} weights written'), 'one bond weight is written')
        for bw, v in W.sets:
            ctx.check((bw.k == b.k and ct.decide_eq(bw.s1, b.s1) and ct.decide_eq(bw.s2, b.s2), ''), 'the weight written is the one of this bond')
            eq(ctx, v, lam, 'the new weight is the square root of the kept, normalised singular values', dtype.to_real())
        # both sides, weighted again
        n = {'first': (a1, b.s1, k), 'second': (a2, b.s2, k2)}
        B = {}
        for nm, (a, s, j) in n.items():
            shape_is(ctx, a, (D, D, D, D, d), f'{nm} site tensor keeps its shape')
            ctx.check((a.dtype is dtype, ''), f'{nm} site tensor keeps its dtype')
            B[nm] = weigh(a, s, j)
        f = 'lurd'
        one = T.eye(D)
        g = lambda s: leaf('g', (s[0], s[1]), (d, d), dtype).tv
        # reference: truncated decomposition, with the weight on both sides
        UD = T.einsum('iu,u->iu', T.slice_axis(U.tv, 1, 0, D), lam)
        VD = T.einsum('ui,u->ui', T.slice_axis(Vh.tv, 0, 0, D), lam)
        nD = q1._sh[3]
        t1 = T.reshape(UD, (nD, d, D))
        t2 = T.reshape(VD, (D, nD, d))
        f1 = contract([(q1, ['r', 'd', 'u', 'x']), (t1, ['x', 'p', 'l'])], ['l', 'u', 'r', 'd', 'p'])
        f2 = contract([(q2, ['d', 'l', 'u', 'x']), (t2, ['r', 'x', 'p'])], ['l', 'u', 'r', 'd', 'p'])
        inv = tuple((i - k) % 4 for i in range(4)) + (4,)
        want = {'first': T.permute(f1, inv), 'second': T.permute(f2, inv)}
        if wrap:
            for nm, (a, s, j) in n.items():
                c = B[nm]
                r = f.replace(f[j], '') + 'p'
                gr = T.einsum(f'{f}p,{f.replace(f[j], "z")}p->{f[j]}z', T.conj(c), c)
                ctx.check(T.equal(gr, T.einsum('a,a,ab->ab', lam, lam, one)), f'{nm} site tensor: the weight on an isometry', 'tensor kernel')
        else:
            want = {nm: T.einsum('lurdp,qp->lurdq', want[nm], g(s)) for nm, (a, s, j) in n.items()}
        l1 = legs(k, ['m', 'x1', 'x2', 'x3']) + ['p']
        l2 = legs(k, ['y0', 'y1', 'm', 'y3']) + ['q']
        o = ['x1', 'x2', 'x3', 'p', 'y0', 'y1', 'y3', 'q']
        propto(ctx, contract([(B['first'], l1), (B['second'], l2)], o), contract([(want['first'], l1), (want['second'], l2)], o),
               'the pair, weighted, is the truncated decomposition of the gate applied to the weighted pair')
        net.unchanged(ctx, 'simple update', lambda key, part, j: part == 'A' and (ct.decide_eq(key, b.s1) or ct.decide_eq(key, b.s2)))
        ctx.check((not net.replaced, ''), 'no site replaced')
        end(ctx)
    return fn


def absorb(dtype):
    """Weighing and removing the weights, for every direction that is left out."""
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        D, d = ivar('D', 1), ivar('d', 1)
        ctx.data['clamp_identity'] = lambda tv, mn: not isinstance(mn, (STensor, SymInt)) and mn <= 1e-12
        W = Weights(nx, ny, D, dtype.to_real())
        o = weights_by_contract(L, W)
        s = cell(ctx, nx, ny)
        a = leaf('A', (), (D, D, D, D, d), dtype)
        for skip in range(4):
            v, w = a.tv, a.tv
            for j in range(4):
                if j != skip:
                    x = W.weight(s, j).tv
                    v = T.einsum('lurdp,' + 'lurd'[j] + '->lurdp', v, x)
                    w = T.einsum('lurdp,' + 'lurd'[j] + '->lurdp', w, T.power(x, -1))
            p = o.absorb(a, s, skip)
            q = o.strip(a, s, skip)
            eq(ctx, p, v, f'all weights but direction {skip} multiplied', dtype)
            eq(ctx, q, w, f'all weights but direction {skip} divided out', dtype)
            eq(ctx, o.strip(p, s, skip), a, f'removing the weights undoes weighing (direction {skip} left out)', dtype)
        ctx.check((a._st.version == 0, ''), 'input not modified')
        end(ctx)
    return fn


def table(nx, ny, dtype):
    """Every bond of the cell has its own weight, of ones at the start, found from both its ends."""
    def fn(ctx):
        L = Loader()
        cls, Bond = L('acetn.evolution.lambda_tensors', 'LambdaTensors'), L('acetn.ipeps.bond', 'Bond')
        D = ivar('D', 1)
        bl = [Bond((x, y), ((x + 1) % nx, y), 2) for y in range(ny) for x in range(nx)] + [Bond((x, y), (x, (y + 1) % ny), 1) for x in range(nx) for y in range(ny)]
        o = cls(bl, D, dtype, st.CPU)
        for b in bl:
            w = o[b]
            shape_is(ctx, w, (D,), f'weight of {tuple(b)}: bond dimension')
            eq(ctx, w, T.filled(1, (D,)), f'weight of {tuple(b)}: ones', dtype.to_real())
        for i, b in enumerate(bl):
            o[b] = leaf('w', (i,), (D,), dtype.to_real(), pos=True)
        for i, b in enumerate(bl):
            eq(ctx, o[b], leaf('w', (i,), (D,), dtype.to_real(), pos=True), f'weight of {tuple(b)} is its own')
        for x in range(nx):
            for y in range(ny):
                for k in range(4):
                    s, q = canonical((x, y), k, nx, ny)
                    i = [j for j, b in enumerate(bl) if (b.s1, b.k) == (s, q)][0]
                    eq(ctx, o.get((x, y), k), leaf('w', (i,), (D,), dtype.to_real(), pos=True), f'site {(x, y)} finds the weight of its bond in direction {k}')
        end(ctx)
    return fn


def units(tier):
    us = []
    fs = [SU + '__init__', SU + 'bond_update', LT + 'absorb', LT + 'strip', LT + 'get', LT + '__getitem__', LT + '__setitem__', TU + 'decompose_site_tensors', TU + 'recompose_site_tensors', TU + 'permute_bond_tensors', TU + 'bond_permutation']
    ass = ['bond weights are at least 1e-12, where dividing them out is exact']
    for dn in ('complex128', 'float64'):
        for k in (1, 2):
            for wrap in (True, False):
                us.append(Unit(f'bond update/k={k}/{dn}/{"one-site terms in the bond gates" if wrap else "separate one-site gates"}', step(k, DT[dn], wrap), fs, assumes=ass))
        us.append(Unit(f'weighing/{dn}', absorb(DT[dn]), fs[2:6], assumes=ass))
        for nx, ny in LATTICES:
            us.append(Unit(f'weights/{nx}x{ny}/{dn}', table(nx, ny, DT[dn]), [LT + '__init__', LT + 'get', LT + '__getitem__', LT + '__setitem__'], bounded=f'unit cell {nx} x {ny}'))
    return us
