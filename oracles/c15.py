from .common import *


def herm(g, n, kind, dtype):
    import torch
    m = rnd(g, (n, n), dtype)
    if kind == 'psd':
        return m @ m.mH + 1e-3 * torch.eye(n, dtype=m.dtype)
    if kind == 'semi':
        m = m[:, : n // 2]
        return m @ m.mH
    if kind == 'neg':
        return -(m @ m.mH)
    h = (m + m.mH) / 2
    return h


def positive(rep, nD, kind, cutoff, scale, dtype, seed):
    import torch
    from acetn.evolution.full_update import positive_approx
    g = gen(seed)
    N = herm(g, nD * nD, kind, dtype) * scale
    n12 = N.clone().reshape(nD, nD, nD, nD)
    nz = positive_approx(n12, cutoff=cutoff)
    rep.check(tuple(nz.shape[:2]) == (nD, nD) and nz.dim() == 3, 'shape of the root')
    M = nz.reshape(nD * nD, -1)
    got = M @ M.mH
    w = torch.linalg.eigvalsh(N)
    dif = got - N
    sc = float(N.abs().max())
    if float(w[0]) >= cutoff:
        rep.close(got, N, 'an environment with eigenvalues above the cutoff is unchanged', 1e-9)
    t = float(dif.diagonal().real.mean())
    rep.check(float((dif - t * torch.eye(nD * nD, dtype=dif.dtype)).abs().max()) <= 1e-8 * max(sc, abs(t)), 'differs by a multiple of the identity', shift=t)
    rep.check(t >= -1e-8 * sc, 'the multiple is not negative', shift=t)
    wn = torch.linalg.eigvalsh(got)
    if sc < 1e3 * cutoff or float(w[0]) < -1e-6 * sc:
        rep.check(float(wn[0]) > 0, 'result is positive', smallest=float(wn[0]))
    # the shift is minimal up to the documented doubling of the smallest eigenvalue
    if float(w[0]) < cutoff:
        rep.check(t <= 2 * max(cutoff, abs(float(w[0]))) * 4 + 1e-9 * sc, 'size of the shift', shift=t, smallest=float(w[0]))


def graded(rep, nD, low, dtype, seed):
    """Small eigenvalues above the cutoff are kept."""
    import torch
    from acetn.evolution.full_update import positive_approx
    g = gen(seed)
    n = nD * nD
    _, z = torch.linalg.eigh(herm(g, n, 'any', dtype))
    w = torch.logspace(low, 0, n, dtype=torch.float64)
    N = (z * w) @ z.mH
    N = (N + N.mH) / 2
    nz = positive_approx(N.clone().reshape(nD, nD, nD, nD), cutoff=1e-12).reshape(n, -1)
    # in the eigenbasis: the small eigenvalues are there
    d = (z.mH @ (nz @ nz.mH) @ z).diagonal().real
    rep.check(float((d - w).abs().max()) <= 1e-12, 'an environment with small eigenvalues above the cutoff is unchanged', got=d.tolist(), want=w.tolist())


def ill(rep, nD, low, side, dtype, seed):
    """An environment that is almost singular in one of its indices."""
    import torch
    from acetn.evolution.full_update import gauge_fix
    g = gen(seed)
    nz, a = rnd(g, (nD, nD, nD * nD), dtype), rnd(g, (nD, nD, 2, 2), dtype)
    q, _ = torch.linalg.qr(rnd(g, (nD, nD), dtype))
    m = (q * torch.logspace(low, 0, nD, dtype=torch.float64)) @ q.mH
    if side != 'x':
        nz = torch.einsum('ab,bxz->axz', m, nz)
    if side != 'y':
        nz = torch.einsum('ab,ybz->yaz', m, nz)
    n12, ag, xinv, yinv = gauge_fix(nz.clone(), a.clone(), atol=1e-12)
    undone = torch.einsum('yw,wxpq->yxpq', yinv, torch.einsum('xw,ywpq->yxpq', xinv, ag))
    rep.close(undone, a, 'transforming back undoes the transformation (almost singular environment)', 1e-6)


def gauge(rep, nD, pD, m, dtype, seed, scale=1.0, alike=None):
    import torch
    from acetn.evolution.full_update import gauge_fix
    g = gen(seed)
    nz = rnd(g, (nD, nD, m), dtype)
    if alike is not None:       # both sides of the bond the same, or almost
        nz = nz + nz.transpose(0, 1) + alike * rnd(g, (nD, nD, m), dtype)
    nz = nz * scale
    a = rnd(g, (nD, nD, pD, pD), dtype)
    nz0, a0 = nz.clone(), a.clone()
    n12, ag, xinv, yinv = gauge_fix(nz, a, atol=1e-12)
    rep.check(same(nz, nz0) and same(a, a0), 'inputs are unchanged')
    old = torch.einsum('yxz,YXz->yxYX', nz0, nz0.conj())
    w = rnd(g, (nD, nD, pD, pD), dtype)       # any pair in the new gauge
    back = torch.einsum('yw,wxpq->yxpq', yinv, torch.einsum('xw,ywpq->yxpq', xinv, w))
    nrm_new = torch.einsum('yxYX,yxpq,YXpq->', n12, w, w.conj())
    nrm_old = torch.einsum('yxYX,yxpq,YXpq->', old, back, back.conj())
    rep.close(nrm_new, nrm_old, 'norm of a pair is preserved', 1e-6)
    ov_new = torch.einsum('yxYX,yxpq,YXpq->', n12, ag, w.conj())
    ov_old = torch.einsum('yxYX,yxpq,YXpq->', old, a0, back.conj())
    rep.close(ov_new, ov_old, 'overlap with the target is preserved', 1e-6)
    undone = torch.einsum('yw,wxpq->yxpq', yinv, torch.einsum('xw,ywpq->yxpq', xinv, ag))
    rep.close(undone, a0, 'transforming back undoes the transformation', 1e-6)


def eigh_fails(rep, nD, kind, fail, dtype, seed):
    """The eigensolver does not converge at the given calls (0, 1, ...): the result is the same."""
    import torch
    F = sys.modules['acetn.evolution.full_update']
    orig = getattr(F, 'eigh', None)
    if orig is None:
        raise Skip('eigh')
    n = nD * nD
    g = gen(seed)
    N = herm(g, n, 'psd', dtype)
    if kind == 'low':          # smallest eigenvalue below the cutoff but not negative
        w, z = torch.linalg.eigh(N)
        w[0] = 1e-9
        N = (z * w) @ z.mH
        N = (N + N.mH) / 2
    if kind == 'any':
        N = herm(g, n, 'any', dtype)
    cutoff = 1e-6
    count = [0]

    def failing(x, *a, **k):
        count[0] += 1
        if count[0] - 1 in fail:
            raise torch._C._LinAlgError('eigh did not converge')
        return orig(x, *a, **k)
    from acetn.evolution.full_update import positive_approx
    lin = torch.linalg.eigh
    F.eigh = failing
    try:
        nz = positive_approx(N.clone().reshape(nD, nD, nD, nD), cutoff=cutoff)
    finally:
        F.eigh = orig
    rep.check(tuple(nz.shape[:2]) == (nD, nD) and nz.dim() == 3, 'shape of the root')
    M = nz.reshape(n, -1)
    got = M @ M.mH
    dif = got - N
    t = float(dif.diagonal().real.mean())
    sc = float(N.abs().max())
    w = torch.linalg.eigvalsh(N)
    if float(w[0]) >= cutoff:
        rep.close(got, N, 'an environment with eigenvalues above the cutoff is unchanged', 1e-9)
    rep.check(float((dif - t * torch.eye(n, dtype=dif.dtype)).abs().max()) <= 1e-8 * max(sc, abs(t)), 'differs by a multiple of the identity', shift=t)
    rep.check(float(torch.linalg.eigvalsh(got)[0]) > 0, 'result is positive')


def compose(rep, nD, pD, D, use_gauge, dtype, seed):
    """precondition_norm_tensor hands a consistent problem to the solver."""
    import torch
    from acetn.evolution.gate import Gate
    from .c13 import updater_for, fresh_gate
    ip = mk(2, 2, D, pD, 4, dtype, evolution={'use_gauge_fix': use_gauge, 'positive_approx_cutoff': 1e-10})
    up = updater_for(ip, fresh_gate(ip, seed, pD))
    f = need(up, 'precondition_norm_tensor')
    g = gen(seed)
    N = herm(g, nD * nD, 'psd', dtype).reshape(nD, nD, nD, nD)
    # index pairs (y, x) ket and (Y, X) bra
    a = rnd(g, (nD, nD, pD, pD), dtype)
    N0, a0 = N.clone(), a.clone()
    n12, ag = f(N, a)
    q_old = torch.einsum('yxYX,yxpq,YXpq->', N0, a0, a0.conj())
    q_new = torch.einsum('yxYX,yxpq,YXpq->', n12, ag, ag.conj())
    rep.close(q_new, q_old, 'norm of the target in its environment', 1e-6)
    if not use_gauge:
        rep.close(n12, N0, 'environment above the cutoff unchanged', 1e-8)
        rep.close(ag, a0, 'target unchanged', 1e-12)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(8 if rep.thorough else 2):
        for dt in ('float64', 'complex128'):
            for nD in (1, 2, 3, 4):
                for kind in ('psd', 'any', 'neg', 'semi'):
                    i += 1
                    rep.run('positive approximation', positive, nD, kind, r.choice([1e-12, 1e-12, 1e-3, 0.5, 2.0]), r.choice([1.0, 1e-3, 100.0]), dt, rep.seed + i)
                for low in (-5, -10):
                    rep.run('small eigenvalues', graded, nD + 1, low, dt, rep.seed + i)
                for side in 'xyb':
                    rep.run('almost singular', ill, nD + 1, -6, side, dt, rep.seed + i)
                for pD in (1, 2, 3):
                    i += 1
                    rep.run('gauge', gauge, nD, pD, nD * nD, dt, rep.seed + i)
                for scale in (1e-7, 1e4):
                    i += 1
                    rep.run('gauge', gauge, nD, 2, nD * nD, dt, rep.seed + i, scale)
                for alike in (0.0, 1e-5, 1e-3):
                    i += 1
                    rep.run('gauge', gauge, nD, 2, nD * nD, dt, rep.seed + i, 1.0, alike)
                for kind, fail in (('psd', {0}), ('psd', {0, 1, 2}), ('low', {0}), ('low', {1}), ('low', {0, 1, 2, 3}), ('any', {1}), ('any', {1, 2, 3})):
                    i += 1
                    rep.run('failing eigensolver', eigh_fails, nD, kind, fail, dt, rep.seed + i)
            for gf in (True, False):
                i += 1
                rep.run('composition', compose, 4, 2, 2, gf, dt, rep.seed + i)
