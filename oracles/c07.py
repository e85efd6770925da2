from .common import *


def projectors(rep, variant, svd, k, nx, ny, D, d, chi, dtype, mode, seed):
    import torch
    from acetn.renormalization.projectors import ProjectorCalculator
    torch.manual_seed(seed)
    cm = {'projectors': variant, 'svd_type': svd}
    if mode == 'cutoff':
        cm['svd_cutoff'] = 0.05
    if svd == 'rsvd':
        cm['rsvd_oversampling'] = 200          # at least the full rank: the decomposition is exact
        cm['rsvd_niter'] = 2
    if mode == 'plain rsvd':
        cm['rsvd_oversampling'] = 2
    ip = randomize(mk(nx, ny, D, d, chi, dtype, ctmrg=cm), seed, dims=[2, 3, 4])
    calc = need(ProjectorCalculator(ip.config.ctmrg), 'calculate')
    r = random.Random(seed)
    idx = r.randrange(nx if k in (0, 2) else ny)
    geo = move_geometry(k, idx, nx, ny)
    i, j, a, b, sites = geo[r.randrange(len(geo))]
    before = snap(ip)
    P1, P2 = calc(ip, sites, k=k)
    check_same(rep, before, ip, 'computing projectors')
    ct = torch.complex128
    q = [quarter_ref(ip, sites[0], k), quarter_ref(ip, sites[1], k + 1), quarter_ref(ip, sites[2], k + 2), quarter_ref(ip, sites[3], k + 3)]
    Q = [x[0].to(ct) for x in q]
    if variant == 'half-system':
        R1, R2 = Q[0], Q[3]
    else:
        R1, R2 = Q[1] @ Q[0], Q[3] @ Q[2]
    sh1, sh2 = q[0][1][3:], q[3][1][:3]
    rep.check(tuple(P1.shape[:3]) == tuple(sh1) and tuple(P2.shape[:3]) == tuple(sh2), 'projector legs', got=(P1.shape, P2.shape), want=(sh1, sh2))
    rep.check(P1.shape[3] == P2.shape[3], 'both projectors keep the same number of values')
    rep.check(P1.dtype == ip.dtype and P2.dtype == ip.dtype, 'dtype of the projectors')
    F = R1 @ R2
    U, s, Vh = torch.linalg.svd(F, full_matrices=False)
    s = s / s[0]
    want = min(chi, int((s > ip.config.ctmrg.svd_cutoff).sum()))
    gap_ok = want == 0 or want >= len(s) or float(s[want - 1] / s[want]) > 1.0005
    near = min([abs(float(x) / ip.config.ctmrg.svd_cutoff - 1) for x in s])
    got = P1.shape[3]
    if mode == 'plain rsvd':
        rep.check(got <= chi, 'at most chi values are kept', got=got)
    elif near > 1e-2 and (ip.config.ctmrg.svd_cutoff > 1e-10 or float(s[min(want, len(s)) - 1]) > 1e-9):
        rep.check(got == want, 'kept dimension', got=got, want=want, spectrum=s[:8].tolist())
    p1 = P1.reshape(-1, got).to(ct)
    p2 = P2.reshape(-1, got).to(ct)
    eye = torch.eye(got, dtype=ct)
    rep.prop_close(p1.T @ p2, eye, 'projectors contracted across the cut are the identity up to a positive factor', 1e-6)
    if gap_ok and mode != 'plain rsvd':
        T = (U[:, :got] * s[:got]) @ Vh[:got]
        rep.prop_close(R1 @ p2 @ p1.T @ R2, T, 'the inserted projectors give the truncated singular value decomposition', 1e-6)
        # the balanced gauge: R1 p2 and p1^T R2 carry the same weights
        L, Rr = R1 @ p2, p1.T @ R2
        rep.close(unit(L.mH @ L), unit(torch.diag(s[:got]).to(ct)), 'left half carries the square roots of the singular values', 1e-6)
        rep.close(unit(Rr @ Rr.mH), unit(torch.diag(s[:got]).to(ct)), 'right half carries the square roots of the singular values', 1e-6)


def full_cut(rep, variant, nx, ny, dtype, seed):
    """No truncation: the inserted pair acts as the identity between the halves."""
    import torch
    from acetn.renormalization.projectors import ProjectorCalculator
    ip = randomize(mk(nx, ny, 2, 2, 200, dtype, ctmrg={'projectors': variant, 'svd_type': 'full-rank', 'svd_cutoff': 1e-14}), seed, dims=[1, 2])
    calc = need(ProjectorCalculator(ip.config.ctmrg), 'calculate')
    for k in range(4):
        i, j, a, b, sites = move_geometry(k, 0, nx, ny)[0]
        P1, P2 = calc(ip, sites, k=k)
        q = [quarter_ref(ip, sites[n], k + n)[0] for n in range(4)]
        R1, R2 = (q[0], q[3]) if variant == 'half-system' else (q[1] @ q[0], q[3] @ q[2])
        p1, p2 = P1.reshape(-1, P1.shape[3]), P2.reshape(-1, P2.shape[3])
        rep.prop_close(R1 @ p2 @ p1.T @ R2, R1 @ R2, f'without truncation the projectors act as the identity (direction {k})', 1e-5)


def bad_type(rep):
    from acetn.renormalization.projectors import ProjectorCalculator
    ip = mk()
    ip.config.ctmrg.projectors = 'quarter-system'
    try:
        ProjectorCalculator(ip.config.ctmrg)
        rep.check(False, 'unknown projector type accepted')
    except ValueError:
        rep.check(True, '')


def run(rep):
    r = random.Random(rep.seed)
    n = 0
    rep.run('bad type', bad_type)
    for rr in range(1 if not rep.thorough else 6):
        for variant in ('half-system', 'full-system'):
            for svd in ('full-rank', 'rsvd'):
                for k in range(4):
                    for dtype in ('float64', 'complex128'):
                        for mode in ('chi', 'cutoff'):
                            n += 1
                            nx, ny = r.choice([(2, 2), (3, 2), (2, 3), (3, 3), (1, 1), (1, 3)])
                            rep.run('projectors', projectors, variant, svd, k, nx, ny, 2, r.choice([2, 3]), r.choice([1, 2, 4, 6]) if mode == 'chi' else 9, dtype, mode, rep.seed * 1000 + n)
            rep.run('full cut', full_cut, variant, r.choice([1, 2, 3]), r.choice([2, 3]), r.choice(['float64', 'complex128']), rep.seed + n)
    for variant in ('half-system', 'full-system'):
        for dt in ('float64', 'complex128'):
            rep.run('projectors', projectors, variant, 'rsvd', r.randrange(4), 2, 2, 2, 2, 3, dt, 'plain rsvd', rep.seed + 3)
