from .common import *


def balance(rep, nD, D, pD, gauge, dtype, seed, kind='any'):
    import torch
    from .c13 import updater_for, fresh_gate
    from .c15 import herm
    ip = mk(2, 2, D, pD, 4, dtype, evolution={'use_gauge_fix': gauge})
    up = updater_for(ip, fresh_gate(ip, seed, pD))
    pre, fin = need(up, 'precondition_norm_tensor'), need(up, 'finalize_reduced_tensors')
    g = gen(seed)
    N = herm(g, nD * nD, 'psd', dtype).reshape(nD, nD, nD, nD)
    if kind == 'symmetric':     # the same environment on both sides of the bond
        N = N + N.permute(1, 0, 3, 2)
    if kind == 'one':
        N = torch.eye(nD * nD, dtype=tdtype(dtype)).reshape(nD, nD, nD, nD)
    a = rnd(g, (nD, nD, pD, pD), dtype)
    a1, a2 = rnd(g, (nD, D, pD), dtype), rnd(g, (nD, D, pD), dtype)
    if kind in ('equal', 'negative', 'signs', 'conj'):
        a2 = {'equal': a1.clone(), 'negative': -a1, 'conj': a1.conj().clone(), 'signs': a1 * (torch.randint(0, 2, a1.shape, generator=g) * 2 - 1)}[kind]
    P = torch.einsum('yup,xuq->yxpq', a1, a2)
    if gauge:
        # independent reading of the gauge: the transformed target as a function of the target
        n12, ag = pre(N.clone(), a.clone())
        # find X, Y with ag = (Y x X) a : use unit targets
        T = torch.zeros(nD * nD, nD * nD, dtype=tdtype(dtype))
        for q in range(nD * nD):
            e = torch.zeros(nD, nD, 1, 1, dtype=tdtype(dtype))
            e.view(-1)[q] = 1.
            # repeating the call sets the same gauge
            T[:, q] = pre(N.clone(), e)[1].reshape(-1)
        P = torch.linalg.solve(T, P.reshape(nD * nD, -1)).reshape(nD, nD, pD, pD)
    else:
        pre(N.clone(), a.clone())
    k1, k2 = a1.clone(), a2.clone()
    b1, b2 = fin(a1, a2)
    rep.check(tuple(b1.shape) == (nD, D, pD) == tuple(b2.shape), 'shapes', got=(b1.shape, b2.shape))
    tol = 1e-7 if gauge else 1e-9
    rep.prop_close(torch.einsum('yup,xuq->yxpq', b1, b2), P, 'product unchanged up to a positive factor', tol)
    w1 = torch.einsum('yup,yvp->uv', b1, b1.conj())
    w2 = torch.einsum('yup,yvp->uv', b2, b2.conj())
    S = torch.linalg.svdvals(P.permute(0, 2, 1, 3).reshape(nD * pD, nD * pD))
    s = S[:D] / S.norm()
    rep.close(w1, torch.diag(s).to(w1.dtype), 'first tensor carries the square roots of the normalised singular values', tol)
    rep.close(w2, torch.diag(s).to(w2.dtype), 'second tensor carries the same weights', tol)
    rep.check(same(a1, k1) and same(a2, k2), 'inputs unmodified')


def same_gauge(rep, nD, D, pD, what, dtype, seed):
    """The inverse gauge transformations of the two sides are equal (or the identity)."""
    import torch
    from .c13 import updater_for, fresh_gate
    ip = mk(2, 2, D, pD, 4, dtype, evolution={'use_gauge_fix': True})
    up = updater_for(ip, fresh_gate(ip, seed, pD))
    fin = need(up, 'finalize_reduced_tensors')
    g = gen(seed)
    a1, a2 = rnd(g, (nD, D, pD), dtype), rnd(g, (nD, D, pD), dtype)
    need(up, 'precondition_norm_tensor')(torch.eye(nD * nD, dtype=tdtype(dtype)).reshape(nD, nD, nD, nD), rnd(g, (nD, nD, pD, pD), dtype))
    if not all(torch.is_tensor(getattr(up, k, None)) for k in ('nzxr_inv', 'nzyr_inv')):
        raise Skip('gauge')
    K = torch.eye(nD, dtype=tdtype(dtype)) if what == 'one' else rnd(g, (nD, nD), dtype) + 2 * torch.eye(nD, dtype=tdtype(dtype))
    up.nzxr_inv, up.nzyr_inv = K.clone(), (-K if what == 'opposite' else K.clone())
    P = torch.einsum('yz,zup,xw,wuq->yxpq', up.nzyr_inv, a1, up.nzxr_inv, a2)
    b1, b2 = fin(a1.clone(), a2.clone())
    rep.prop_close(torch.einsum('yup,xuq->yxpq', b1, b2), P, 'product unchanged up to a positive factor', 1e-6)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(10 if rep.thorough else 3):
        for dt in ('float64', 'complex128'):
            for nD, D, pD in ((2, 1, 2), (4, 2, 2), (6, 2, 3), (6, 3, 2), (3, 3, 3)):
                for gauge in (True, False):
                    i += 1
                    rep.run('balance', balance, nD, D, pD, gauge, dt, rep.seed + i)
                    if rr == 0 or rep.thorough:
                        for what in ('one', 'equal', 'opposite'):
                            rep.run('same gauge', same_gauge, nD, D, pD, what, dt, rep.seed + i)
                        for kind in ('symmetric', 'one', 'equal', 'negative', 'signs', 'conj'):
                            i += 1
                            rep.run('balance', balance, nD, D, pD, gauge, dt, rep.seed + i, kind)
