from .lib import *

PR = 'acetn/renormalization/projectors.py:ProjectorCalculator.'
LOWRANK = ('svd_lowrank', 'fused_matmul_svd_lowrank', 'fused_3matmul_svd_lowrank')


class Cfg:
    def __init__(self, projectors, svd_type):
        self.projectors, self.svd_type = projectors, svd_type
        self.svd_cutoff = st.real_param('cutoff', 0, 1)
        self.rsvd_niter, self.rsvd_oversampling = ivar('niter', 0), ivar('over', 0)


STEPS4 = {0: [(0, 0), (1, 0), (1, -1), (0, -1)], 1: [(0, 0), (0, -1), (-1, -1), (-1, 0)], 2: [(0, 0), (-1, 0), (-1, 1), (0, 1)], 3: [(0, 0), (0, 1), (1, 1), (1, 0)]}


def cut_sites(ctx, k, nx, ny):
    """The four sites around a cut, as a move in direction k hands them over, anywhere in the cell."""
    x, y = cell(ctx, nx, ny)
    return [shift((x, y), d, nx, ny) for d in STEPS4[k]]


def quarter_spec(s, k):
    """Corner, its two edges, site tensor and conjugate: rows (c,r,R), columns (e,d,D) in frame k."""
    A = s['A']
    v = contract([(s['C'][k % 4], ['a', 'b']), (s['E'][k % 4], ['b', 'c', 'u', 'U']), (s['E'][(k + 3) % 4], ['e', 'a', 'l', 'L']),
                  (A, legs(k % 4, ['l', 'u', 'r', 'd']) + ['p']), (cj(A), legs(k % 4, ['L', 'U', 'R', 'D']) + ['p'])], ['c', 'r', 'R', 'e', 'd', 'D'])
    return v


def matmul6(a, b):
    return T.einsum('abcdef,defghi->abcghi', a, b)


def as_matrix(v):
    n = len(v.axes)
    g = v.axes
    return T.TV([[w for a in g[:3] for w in a], [w for a in g[3:] for w in a]], v.terms)


def exact_lowrank(ctx, log):
    """Contract of the randomized decompositions (C08) with enough oversampling: the truncated exact decomposition."""
    def run(A, q, niter):
        log.append((q, niter))
        m, n = A._sh
        U, S, Vh = st.svd(A, full_matrices=False)
        k = core.imin(core.imin(q, m), n)
        return U[:, :k], S[:k], Vh.mH[:, :k]

    def svd_lowrank(A, q=None, niter=2, M=None):
        return run(A, q, niter)

    def fused2(A, B, q=None, niter=2):
        return run(A @ B, q, niter)

    def fused3(A, B, C, D, q=None, niter=2):
        return run((A @ B) @ (C @ D), q, niter)
    return dict(zip(LOWRANK, (svd_lowrank, fused2, fused3)))


def projectors(k, nx, ny, kind, svd_type, dtype, prepare=None):
    def fn(ctx):
        L = Loader()
        PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
        L('acetn.linalg')
        log = []
        stubs = exact_lowrank(ctx, log)
        for n in LOWRANK:
            f = L.mods['acetn.linalg'].__dict__.get(n)
            if callable(f):
                rename(L, f, stubs[n])
        X, Y = nx or ivar('nx', 1), ny or ivar('ny', 1)
        net = SymSites(L, X, Y, dtype)
        cfg = conf = Cfg(kind, svd_type)
        if prepare is not None:
            cfg, conf = prepare(ctx, L, net)
        sites = cut_sites(ctx, k, X, Y)
        calc = PC(conf)
        P1, P2 = calc.calculate(net, sites, k)
        Q = [quarter_spec(net.init(s), k + i) for i, s in enumerate(sites)]
        if kind == 'half-system':
            R1, R2 = Q[0], Q[3]
        else:
            R1, R2 = matmul6(Q[1], Q[0]), matmul6(Q[3], Q[2])
        F = as_matrix(matmul6(R1, R2))
        c, v, U, S, V, r, cs, m, n, kk = st.svd_values(STensor(F, dtype))
        # number of singular values above the cutoff relative to the largest
        s0 = T.fix_index(T.leaf(S), 0, 0)
        cnt = st.count_true(st.BoolTensor(STensor(T.leaf(S), F64), '>', STensor(T.mul(st.as_tv(cfg.svd_cutoff), s0), F64))).item()
        keep = core.imin(net.chi, cnt)
        D = net.D
        shape_is(ctx, P1, [R1.shape[3], D, D, keep], 'first projector: legs of the edge below, the site tensor below, kept dimension')
        shape_is(ctx, P2, [R2.shape[0], D, D, keep], 'second projector: legs of the edge, the site tensor, kept dimension')
        ctx.check((P1.dtype is dtype and P2.dtype is dtype, ''), 'projector dtype')
        # identity across the cut
        I = T.einsum('edDz,edDw->zw', P1.tv, P2.tv)
        propto(ctx, I, T.eye(keep), 'projectors contracted across the cut give the identity up to a positive factor')
        # truncated decomposition of the product
        lhs = T.einsum('abcdef,defz,ghiz,ghijkl->abcjkl', R1, P2.tv, P1.tv, R2)
        u = T.slice_axis(T.leaf(U, [list(range(len(r))), [len(r)]]), 1, 0, keep)
        vh = T.slice_axis(T.leaf(V, [[0], list(range(1, len(cs) + 1))]), 0, 0, keep)
        sv = T.slice_axis(T.leaf(S), 0, 0, keep)
        rhs = T.einsum('az,z,zb->ab', u, sv, vh)
        propto(ctx, as_matrix(lhs), rhs, 'projectors inserted into the cut give the truncated singular value decomposition of the product')
        if svd_type == 'rsvd':
            ctx.check((len(log) == 1 and ieq(log[0][0], net.chi + cfg.rsvd_oversampling) and ieq(log[0][1], cfg.rsvd_niter), str(log)),
                      'randomized decomposition called once with rank chi + oversampling and the configured number of iterations')
        net.unchanged(ctx, 'network')
        ctx.check((not net.replaced, ''), 'no site replaced')
        end(ctx)
    return fn


def units(tier):
    fs = [PR + n for n in ('__init__', 'set_calculate', 'make_quarter_tensor', 'contract_half_system', 'contract_full_system', 'calculate_projectors', 'calculate_half_system', 'calculate_full_system', 'svd')]
    us = []
    for kind in ('half-system', 'full-system'):
        for svd_type in ('full-rank', 'rsvd'):
            for k in range(4):
                for dn in ('complex128', 'float64'):
                    us.append(Unit(f'projectors/{kind}/{svd_type}/k={k}/{dn}', projectors(k, 0, 0, kind, svd_type, DT[dn]), fs))
    return us
