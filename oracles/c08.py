from .common import *


class Draws:
    """Record what torch.randn returns."""

    def __enter__(self):
        import torch
        self.t, self.f, self.log = torch, torch.randn, []

        def g(*a, **k):
            x = self.f(*a, **k)
            self.log.append(x.clone())
            return x
        torch.randn = g
        return self.log

    def __exit__(self, *a):
        self.t.randn = self.f


def low(rep, kind, m, n, mid, rank, q, niter, dtype, seed):
    import torch
    from acetn.linalg import svd_lowrank, fused_matmul_svd_lowrank, fused_3matmul_svd_lowrank
    torch.manual_seed(seed)
    g = gen(seed)
    if kind == 'plain':
        fs = [rnd(g, (m, rank), dtype) @ rnd(g, (rank, n), dtype) if rank else rnd(g, (m, n), dtype)]
        f = svd_lowrank
    elif kind == 'two':
        kk = rank or mid
        fs = [rnd(g, (m, kk), dtype), rnd(g, (kk, n), dtype)]
        f = fused_matmul_svd_lowrank
    else:
        kk = rank or mid
        fs = [rnd(g, (m, mid), dtype), rnd(g, (mid, kk), dtype), rnd(g, (kk, mid + 1), dtype), rnd(g, (mid + 1, n), dtype)]
        f = fused_3matmul_svd_lowrank
    copies = [x.clone() for x in fs]
    ver = [x._version for x in fs]
    with Draws() as draws:
        U, S, V = f(*fs, q=q, niter=niter)
    for a, b in zip(fs, copies):
        rep.check(same(a, b), 'an input was modified')
    M = fs[0]
    for x in fs[1:]:
        M = M @ x
    tol = 1e-7 if dtype in ('float64', 'complex128') else 2e-3
    q2 = min(q, m, n)
    w = S.shape[0]
    rep.check(U.shape == (m, w) and V.shape == (n, w) and w <= q2, 'shapes', got=(U.shape, S.shape, V.shape), q=q2)
    rep.check(U.dtype == M.dtype and V.dtype == M.dtype and not S.is_complex(), 'dtypes')
    rep.close(U.mH @ U, torch.eye(w, dtype=M.dtype), 'U has orthonormal columns', tol)
    rep.close(V.mH @ V, torch.eye(w, dtype=M.dtype), 'V has orthonormal columns', tol)
    sc = float(torch.linalg.svdvals(M)[0])
    rep.check(bool((S >= -1e-12 * sc).all()) and bool((S[:-1] >= S[1:] - 1e-9 * sc).all()), 'singular values are non-negative and non-increasing', got=S.tolist())
    R = (U * S.to(M.dtype)) @ V.mH
    rep.close(R / sc, U @ (U.mH @ M) / sc, 'U diag(S) V^H is the matrix projected on the computed range', tol * 10)
    tr = int((torch.linalg.svdvals(M) > sc * 1e-10).sum())
    if tr <= q2:
        rep.check(w >= tr, 'enough values for the rank')
        rep.close(R / sc, M / sc, 'exact when the rank does not exceed q', tol * 10)
        rep.close(S[:tr], torch.linalg.svdvals(M)[:tr], 'singular values of a matrix of small rank', tol * 10)
    # range of (M M^H)^niter M Omega
    om = [d for d in draws if tuple(d.shape) == (n, q2)]
    if len(draws) == 1 and om and dtype in ('float64', 'complex128') and tr > q2:
        Y = M @ om[0]
        for _ in range(niter):
            Y, _ = torch.linalg.qr(Y)
            Y = M @ (M.mH @ Y)
        Q, _ = torch.linalg.qr(Y)
        rep.close(U @ U.mH, Q @ Q.mH, 'computed range is that of (A A^H)^niter A Omega', 1e-6)
        torch.manual_seed(seed + 1)
        a = f(*fs, q=q, niter=niter)
        torch.manual_seed(seed + 1)
        b = svd_lowrank(M, q=q, niter=niter)
        rep.close(a[1] / sc, b[1] / sc, 'fused version equals the plain one: singular values', 1e-6)
        rep.close((a[0] * a[1].to(M.dtype)) @ a[2].mH / sc, (b[0] * b[1].to(M.dtype)) @ b[2].mH / sc, 'fused version equals the plain one', 1e-6)


def defaults(rep, kind, seed):
    """Default q and niter agree between the versions."""
    low(rep, kind, 12, 11, 9, 0, 6, 2, 'float64', seed)
    import torch
    from acetn.linalg import svd_lowrank, fused_matmul_svd_lowrank, fused_3matmul_svd_lowrank
    g = gen(seed)
    A = rnd(g, (12, 11), 'float64')
    torch.manual_seed(1)
    U, S, V = svd_lowrank(A)
    rep.check(S.shape[0] == 6, 'default rank is 6', got=S.shape)
    torch.manual_seed(1)
    U2, S2, V2 = fused_matmul_svd_lowrank(A, torch.eye(11, dtype=A.dtype))
    torch.manual_seed(1)
    e = torch.eye(11, dtype=A.dtype)
    U3, S3, V3 = fused_3matmul_svd_lowrank(A, e, e, e)
    rep.close(S2, S, 'default arguments of the fused versions', 1e-7)
    rep.close(S3, S, 'default arguments of the fused versions', 1e-7)


def zero_like(rep, kind, dtype, seed):
    """Repeated and tiny scales."""
    import torch
    from acetn.linalg import svd_lowrank
    g = gen(seed)
    A = rnd(g, (7, 5), dtype)
    for sc in (1e-9, 1e9):
        torch.manual_seed(seed)
        U, S, V = svd_lowrank(A * sc, q=5, niter=1)
        rep.close((U * S.to(A.dtype)) @ V.mH / sc, A, 'scale does not matter', 1e-6)


def run(rep):
    r = random.Random(rep.seed)
    N = 220 if rep.thorough else 70
    for i in range(N):
        kind = ['plain', 'two', 'four'][i % 3]
        m, n = r.randint(1, 14), r.randint(1, 14)
        mid = r.randint(1, 14)
        rank = r.choice([0, 0, 1, 2, 3])
        rep.run('lowrank', low, kind, m, n, mid, rank, r.randint(1, 9), r.choice([0, 1, 2, 3]), r.choice(['float64', 'complex128', 'float64', 'complex128', 'float32', 'complex64']), rep.seed * 999 + i)
    for i, kind in enumerate(['plain', 'two', 'four']):
        rep.run('defaults', defaults, kind, rep.seed + i)
    for dt in ('float64', 'complex128'):
        rep.run('scale', zero_like, 'plain', dt, rep.seed)
