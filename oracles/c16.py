from .common import *


def cfg(niter, tol, method, eps):
    from acetn.ipeps.ipeps_config import EvolutionConfig
    return EvolutionConfig(als_niter=niter, als_tol=tol, als_method=method, als_epsilon=eps)


def problem(seed, nD, D, pD, dtype, rank=None):
    import torch
    g = gen(seed)
    m = rnd(g, (nD * nD, nD * nD + 1), dtype)
    N = (m @ m.mH / nD).reshape(nD, nD, nD, nD)
    a = rnd(g, (nD, nD, pD, pD), dtype)
    return N, a, g


def reg(M, method, eps):
    import torch
    M = (M + M.mH) / 2
    if method == 'cholesky':
        M = M + eps * M.abs().max() * torch.eye(M.shape[0], dtype=M.dtype)
    return M


def half(rep, nD, D, pD, method, eps, dtype, seed):
    import torch
    from acetn.evolution.als_solver import ALSSolver
    N, a, g = problem(seed, nD, D, pD, dtype)
    s = ALSSolver(N, a, (nD, D, pD), cfg(5, 1e-15, method, eps))
    a2 = rnd(g, (nD, D, pD), dtype)
    n12g = torch.einsum('yxYX,yxpq->YXpq', N, a)
    N0, a0, b0, c0 = N.clone(), a.clone(), a2.clone(), n12g.clone()
    f1, f2 = need(s, 'solve_a1r'), need(s, 'solve_a2r')
    x1 = f1(n12g, a2)
    # normal equations: ket indices of the environment come first
    M = torch.einsum('yxYX,xuq,XUq->YUyu', N0, b0, b0.conj()).reshape(nD * D, nD * D)
    S = torch.einsum('YXpq,XUq->YUp', c0, b0.conj()).reshape(nD * D, pD)
    R = reg(M, method, eps)
    res = R @ x1.reshape(nD * D, pD) - S
    rep.check(float(res.abs().max()) <= 1e-6 * float(S.abs().max()) * max(1.0, 1e-3 * float(torch.linalg.cond(R))), 'first half step solves its normal equations', residual=float(res.abs().max()))
    x2 = f2(n12g, a2)
    M = torch.einsum('yxYX,yup,YUp->XUxu', N0, b0, b0.conj()).reshape(nD * D, nD * D)
    S = torch.einsum('YXpq,YUp->XUq', c0, b0.conj()).reshape(nD * D, pD)
    R = reg(M, method, eps)
    res = R @ x2.reshape(nD * D, pD) - S
    rep.check(float(res.abs().max()) <= 1e-6 * float(S.abs().max()) * max(1.0, 1e-3 * float(torch.linalg.cond(R))), 'second half step solves its normal equations', residual=float(res.abs().max()))
    rep.check(same(N, N0) and same(a, a0) and same(a2, b0) and same(n12g, c0), 'inputs unmodified')
    # distance
    cost = need(s, 'calculate_cost')
    x1, x2 = rnd(g, (nD, D, pD), dtype), rnd(g, (nD, D, pD), dtype)
    d = torch.einsum('yup,xuq->yxpq', x1, x2)
    full = torch.einsum('yxYX,yxpq,YXpq->', N0, d - a0, (d - a0).conj()).real
    const = torch.einsum('yxYX,yxpq,YXpq->', N0, a0, a0.conj()).real
    rep.close(cost(x1, x2, a0, N0), full - const, 'convergence quantity is the squared distance up to a constant', 1e-8)
    # start
    i1, i2 = need(s, 'initialize_reduced_tensors')(a0, (nD, D, pD))
    m = a0.permute(0, 2, 1, 3).reshape(nD * pD, nD * pD)
    U, S, Vh = torch.linalg.svd(m)
    t = (U[:, :D] * S[:D]) @ Vh[:D]
    rep.prop_close(torch.einsum('yup,xuq->ypxq', i1, i2).reshape(nD * pD, -1), t, 'start is the truncated SVD of the target', 1e-8)
    rep.close(torch.einsum('yup,yvp->uv', i1, i1.conj()).diagonal().real, S[:D] / S[0], 'start weights', 1e-8)
    rep.check(tuple(i1.shape) == (nD, D, pD) == tuple(i2.shape), 'start shapes')


def cfull(nD, D, pD):
    return None


def loop(rep, nD, D, pD, niter, tol, method, eps, dtype, seed, scale=None):
    """The result of solve() against an independent loop with the solver's own half steps counted."""
    import torch
    from acetn.evolution.als_solver import ALSSolver
    N, a, g = problem(seed, nD, D, pD, dtype)
    if scale:
        N = N * scale
    N0, a0 = N.clone(), a.clone()
    log = []

    class Counting(ALSSolver):
        def solve_a1r(self, n12g, a2r):
            out = super().solve_a1r(n12g, a2r)
            log.append((1, a2r.clone(), out.clone()))
            return out

        def solve_a2r(self, n12g, a1r):
            out = super().solve_a2r(n12g, a1r)
            log.append((2, a1r.clone(), out.clone()))
            return out
    s = Counting(N, a, (nD, D, pD), cfg(niter, tol, method, eps))
    x1, x2 = s.solve()
    rep.check(same(N, N0) and same(a, a0), 'inputs unmodified')
    rep.check(tuple(x1.shape) == (nD, D, pD) == tuple(x2.shape), 'shapes')
    if not log and niter:
        raise Skip('half steps not observable')
    rep.check([t for t, _, _ in log] == [1, 2] * (len(log) // 2), 'first and second tensor alternate')
    rounds = len(log) // 2
    i1, i2 = s.initialize_reduced_tensors(a0, (nD, D, pD))

    def dist(u, v):
        d = torch.einsum('yup,xuq->yxpq', u, v)
        return float((torch.einsum('yxYX,yxpq,YXpq->', N0, d, d.conj()) - 2 * torch.einsum('yxYX,yxpq,YXpq->', N0, a0, d.conj())).real)
    prev1, prev2 = i1, i2
    d1 = abs(dist(i1, i2))
    want = niter
    for i in range(rounds):
        rep.close(log[2 * i][1], prev2, 'first half step uses the current second tensor', 1e-9)
        prev1 = log[2 * i][2]
        rep.close(log[2 * i + 1][1], prev1, 'second half step uses the current first tensor', 1e-9)
        prev2 = log[2 * i + 1][2]
        d2 = dist(prev1, prev2)
        err = abs(d2 - d1) / abs(d1)
        last = i == rounds - 1
        if abs(err - tol) > 1e-3 * tol + 1e-13:
            stop = err < tol and i >= 2
            if stop:
                rep.check(last, f'stops once the relative change is below the tolerance (round {i})', err=err)
            else:
                rep.check(not last or rounds == niter, f'does not stop before the maximum while the relative change is above the tolerance (round {i})', err=err, tol=tol)
        d1 = d2
    rep.check(rounds <= niter and (rounds >= min(3, niter)), 'number of rounds', got=rounds, maximum=niter)
    rep.close(x1, prev1, 'result is the last first tensor', 1e-12)
    rep.close(x2, prev2, 'result is the last second tensor', 1e-12)


def not_positive(rep, nD, D, pD, dtype, seed, fail=False):
    """Cholesky fails: the same equations are solved directly."""
    import torch
    from acetn.evolution.als_solver import ALSSolver
    g = gen(seed)
    s = ALSSolver(torch.zeros(nD, nD, nD, nD, dtype=tdtype(dtype)), rnd(g, (nD, nD, pD, pD), dtype), (nD, D, pD), cfg(5, 1e-15, 'cholesky', 1e-12))
    f = need(s, 'solve_ar')
    h = rnd(g, (nD * D, nD * D), dtype)
    h = h + h.mH
    S = rnd(g, (nD, D, pD), dtype)
    A = sys.modules['acetn.evolution.als_solver']
    orig = getattr(A, 'cholesky', None)
    if fail:
        # a positive matrix whose decomposition fails all the same
        h = rnd(g, (nD * D, nD * D), dtype)
        h = h @ h.mH + 0.1 * torch.eye(nD * D, dtype=h.dtype)

        def failing(*a, **k):
            raise torch._C._LinAlgError('cholesky failed')
        if orig is None:
            raise Skip('cholesky')
        A.cholesky = failing
    try:
        x = f(h.clone().reshape(nD, D, nD, D), S.clone())
    finally:
        A.cholesky = orig
    tol = 1e-6 if dtype in ('float64', 'complex128') else 2e-2
    rep.close(h @ x.reshape(nD * D, pD), S.reshape(nD * D, pD), 'failing decomposition' if fail else 'indefinite normal matrix', tol)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(8 if rep.thorough else 2):
        for dt in ('float64', 'complex128'):
            for method in ('cholesky', 'pinv'):
                for eps in (1e-12, 1e-3):
                    for nD, D, pD in ((1, 1, 2), (2, 1, 2), (4, 2, 2), (6, 3, 2), (6, 2, 3)):
                        i += 1
                        if method == 'pinv' and eps > 1e-6:
                            continue
                        rep.run('half steps', half, nD, D, pD, method, eps, dt, rep.seed + i)
                    for niter, tol in ((1, 1e-15), (2, 1.0), (3, 1.0), (10, 10.0), (10, 1e-2), (30, 1e-4), (40, 1e-7), (0, 1.0)):
                        i += 1
                        rep.run('loop', loop, 4, 2, 2, niter, tol, method, 1e-12, dt, rep.seed + i)
                        if tol < 1e-1:
                            rep.run('loop', loop, 4, 2, 2, niter, tol, method, 1e-12, dt, rep.seed + i, r.choice([1e-4, 1e4]))
            rep.run('indefinite', not_positive, 3, 2, 2, dt, rep.seed + i)
        for dt in ('float64', 'complex128', 'float32', 'complex64'):
            for nD, D, pD in ((2, 1, 1), (3, 2, 2), (2, 2, 3), (3, 1, 4), (2, 3, 5)):
                for fail in ((False, True) if dt in ('float64', 'complex128') else (True,)):
                    i += 1
                    rep.run('indefinite', not_positive, nD, D, pD, dt, rep.seed + i, fail)
