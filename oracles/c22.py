from .common import *
from .models import *


def invariants(rep, ip, chi_max, normed=True, what=''):
    import torch
    D, d, nx, ny = ip.dims['bond'], ip.dims['phys'], ip.nx, ip.ny
    eps = {torch.float32: 1e-4, torch.complex64: 1e-4}.get(ip.dtype, 1e-9)
    for s in ip.site_list:
        A = ip[s]['A']
        rep.check(tuple(A.shape) == (D,) * 4 + (d,), f'{what}: site tensor shape', site=s, got=A.shape)
        ts = [A] + list(ip[s]['C']) + list(ip[s]['E'])
        rep.check(len(ip[s]['C']) == 4 and len(ip[s]['E']) == 4, f'{what}: four corners and edges')
        for t in ts:
            rep.check(t.dtype == ip.dtype, f'{what}: dtype', got=t.dtype, want=ip.dtype)
            rep.check(t.device == ip.device, f'{what}: device')
            rep.check(bool(torch.isfinite(torch.view_as_real(t) if t.is_complex() else t).all()), f'{what}: finite')
        for k in range(4):
            C, E = ip[s]['C'][k], ip[s]['E'][k]
            k3 = (k + 3) % 4
            rep.check(C.dim() == 2 and E.dim() == 4 and tuple(E.shape[2:]) == (D, D), f'{what}: ranks', k=k, C=C.shape, E=E.shape)
            rep.check(max(C.shape[0], C.shape[1], E.shape[0], E.shape[1]) <= chi_max, f'{what}: boundary dimension', got=(C.shape, E.shape), want=chi_max)
            if normed:
                for t, n in ((C, 'corner'), (E, 'edge')):
                    rep.check(abs(float(t.norm()) - 1) < eps, f'{what}: {n} norm', got=float(t.norm()), site=s, k=k)
            # legs joined by later contractions: around the site and across the cuts
            rep.check(C.shape[1] == E.shape[0], f'{what}: corner to edge at a site', site=s, k=k)
            rep.check(E.shape[1] == ip[s]['C'][(k + 1) % 4].shape[0], f'{what}: edge to next corner at a site', site=s, k=k)
            t = nbr(s, k, nx, ny)
            rep.check(E.shape[1] == ip[t]['E'][k].shape[0], f'{what}: edge to the edge of the neighbour', site=s, k=k)


def history(rep, nx, ny, D, d, chi, dtype, projectors, svd, update, one, ops, seed):
    import torch
    r = random.Random(seed)
    torch.manual_seed(seed)
    ip = mk(nx, ny, D, d, chi, dtype, ctmrg={'steps': 1, 'projectors': projectors, 'svd_type': svd}, evolution={'als_niter': 3, 'update_type': update})
    from acetn.renormalization.directional_mover import DirectionalMover
    mover = DirectionalMover(ip.config.ctmrg)
    m = instance(ip, random_model(d, seed, one, False, True, dtype))
    cm = max(chi, D * D)
    invariants(rep, ip, cm, what='initial')
    for o in ops:
        if o == 'renormalize':
            ip.renormalize()
        elif o == 'evolve':
            ip.evolve(0.05, r.choice([1, 2]), m)
        elif o == 'chi':
            c = r.choice([1, 2, 3, 5])
            ip.set_chi(c)
            cm = max(cm, c)
        elif o == 'init':
            ip.initialize_site_tensors(lambda s: [1.] + [0.5] * (d - 1))
            cm = max(cm, D * D)
        elif o in MOVES:
            getattr(mover, o + '_move')(ip, r.randrange(nx if o in ('left', 'right') else ny))
        elif o == 'assign':
            s = r.choice(ip.site_list)
            other = torch.complex128 if ip.dtype.is_complex else torch.float64
            ip[s]['A'] = rnd(gen(seed), (D,) * 4 + (d,), other)
        elif o == 'env':
            for s in ip.site_list:
                ip[s].initialize_corner_tensors()
                ip[s].initialize_edge_tensors()
            cm = max(cm, D * D)
        invariants(rep, ip, cm, what=f'after {o}')


def settled(rep, nx, ny, chi, projectors, svd, seed, over=2, dtype='float64'):
    """After enough sweeps the boundary dimension does not exceed chi."""
    ip = psd_env(mk(nx, ny, 2, 2, chi, dtype, ctmrg={'steps': max(nx, ny) + 1, 'projectors': projectors, 'svd_type': svd, 'rsvd_oversampling': over}), seed)
    invariants(rep, ip, chi, what='after complete sweeps')


def run(rep):
    r = random.Random(rep.seed)
    allops = ['renormalize', 'evolve', 'chi', 'init', 'assign', 'env'] + MOVES * 2
    n = 150 if rep.thorough else 45
    for i in range(n):
        if rep.out_of_time():
            break
        nx, ny = r.choice([(1, 1), (2, 2), (1, 2), (3, 1), (3, 2), (2, 3)])
        dt = r.choice(['float64', 'float64', 'complex128', 'complex128', 'float32', 'complex64'])
        low = dt in ('float32', 'complex64')
        upd = r.choice(['full', 'simple'])
        if min(nx, ny) == 1 and upd == 'full' and low:
            upd = 'simple'
        ops = [r.choice(allops) for _ in range(r.randrange(3, 9))]
        if low:
            ops = [o for o in ops if o != 'evolve' or upd == 'simple']
        rep.run('history', history, nx, ny, r.choice([1, 2, 2]), r.choice([2, 2, 3]), r.choice([1, 2, 4, 6]), dt, r.choice(['half-system', 'full-system']), r.choice(['rsvd', 'full-rank']),
                upd, r.choice(['none', 'some', 'all']), ops, rep.seed * 1000 + i)
    for i, (nx, ny) in enumerate(((2, 2), (3, 2), (1, 3))):
        for p in ('half-system', 'full-system'):
            for svd in ('rsvd', 'full-rank'):
                rep.run('settled', settled, nx, ny, r.choice([2, 3, 5]), p, svd, rep.seed + i, r.choice([1, 2, 4]), r.choice(['float64', 'complex128']))
