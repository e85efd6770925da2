from .common import *


def corner_ref(A, k):
    """Corner k: open legs k+3 (first) and k+2; contracted over legs k, k+1 and the physical leg."""
    n = Net()
    n.add(A, 'k0', 'k1', 'k2', 'k3', 'p')
    b = [f'b{j}' for j in range(4)]
    for j in (k, (k + 1) % 4):
        b[j] = f'k{j}'
    n.add(A.conj(), *b, 'p')
    r, d = (k + 2) % 4, (k + 3) % 4
    t = n.out(f'k{d}', f'b{d}', f'k{r}', f'b{r}')
    return unit(t.reshape(t.shape[0] * t.shape[1], -1))


def edge_ref(A, k):
    """Edge k (on the side of leg k+1): open legs k, k+2 (boundary) and k+3 (towards the bulk)."""
    n = Net()
    n.add(A, 'k0', 'k1', 'k2', 'k3', 'p')
    b = [f'b{j}' for j in range(4)]
    b[(k + 1) % 4] = f'k{(k + 1) % 4}'
    n.add(A.conj(), *b, 'p')
    l, r, d = k, (k + 2) % 4, (k + 3) % 4
    t = n.out(f'k{l}', f'b{l}', f'k{r}', f'b{r}', f'k{d}', f'b{d}')
    D = A.shape[0]
    return unit(t.reshape(D * D, D * D, D, D))


def env(rep, D, d, dtype, seed):
    ip = mk(1, 1, D, d, 4, dtype)
    s = ip.site_list[0]
    ip[s]['A'] = rnd(gen(seed), ip[s]['A'].shape, ip.dtype)
    a = ip[s]['A'].clone()
    ip[s].initialize_corner_tensors()
    ip[s].initialize_edge_tensors()
    rep.check(same(a, ip[s]['A']), 'building the environment changed the site tensor')
    rep.check(len(ip[s]['C']) == 4 and len(ip[s]['E']) == 4, 'four corners and edges')
    tol = 1e-8 if dtype in ('float64', 'complex128') else 1e-4
    for k in range(4):
        rep.close(ip[s]['C'][k], corner_ref(a, k), f'corner {k}', tol)
        rep.close(ip[s]['E'][k], edge_ref(a, k), f'edge {k}', tol)
        rep.check(ip[s]['C'][k].dtype == ip.dtype and ip[s]['E'][k].dtype == ip.dtype, 'dtype of the environment')


def product(rep, nx, ny, D, d, dtype, seed):
    """Fresh state: noise in [0, 0.01] plus the site state, normalised; environment of that tensor."""
    import torch
    torch.manual_seed(seed)
    r = random.Random(seed)
    ip = mk(nx, ny, D, d, 4, dtype)
    states = {}

    def smap(s):
        st = [r.choice([-1, 1]) * r.uniform(0.1, 1.0) for _ in range(d)]
        if 'complex' in dtype:
            st = [x * complex(0.6, -0.8) for x in st]
        if seed % 3 == 0:
            st = st[:1]
        states[s] = st
        return st
    for init in ('default', 'map'):
        if init == 'map':
            ip.initialize_site_tensors(smap)
        for s in ip.site_list:
            st = states[s] if init == 'map' else [1.] + [0.] * (d - 1)
            st = list(st) + [0.] * (d - len(st))
            A = ip[s]['A']
            rep.check(tuple(A.shape) == (D, D, D, D, d), 'shape of the site tensor', got=A.shape)
            rep.check(A.dtype == ip.dtype, 'dtype of the site tensor')
            tol = 1e-8 if '64' in dtype and 'complex64' not in dtype or '128' in dtype else 1e-5
            rep.close(A.norm().real, torch.ones((), dtype=torch.float64), 'norm of the site tensor', tol)
            # A = (noise + state)/norm: the scale z satisfies 0 <= z*A - state <= 0.01 everywhere
            S = torch.zeros(A.shape, dtype=torch.complex128)
            S[0, 0, 0, 0, :] = torch.tensor(st, dtype=torch.complex128)
            A2 = A.to(torch.complex128)
            n = (S.norm() ** 2).item()
            lo, hi = S.norm().item() - 0.01 * A.numel() ** 0.5, S.norm().item() + 0.01 * A.numel() ** 0.5
            best = None
            mask = torch.ones(A.shape, dtype=torch.bool)
            mask[0, 0, 0, 0, :] = False
            if mask.any():
                rep.check(bool((A2.imag[mask].abs() <= 1e-6).all() and (A2.real[mask] >= -1e-9).all()), 'noise is real and non-negative')
                rep.check(float(A2.real[mask].max()) * max(lo, 0) <= 0.01 + 1e-6, 'noise is at most 0.01')
                rep.check(D == 1 or float(A2.real[mask].max()) > 0, 'noise is present')
            # a scale z in [lo, hi] with z*A[0,0,0,0] - S in [0, 0.01]
            zs_lo, zs_hi = lo, hi
            v, w = A2[0, 0, 0, 0, :], S[0, 0, 0, 0, :]
            for i in range(d):
                for part in ('real', 'imag'):
                    a, b = float(getattr(v[i], part)), float(getattr(w[i], part))
                    up = 0.01 if part == 'real' else 0.0
                    eps = 1e-6
                    if abs(a) < 1e-12:
                        rep.check(-eps <= -b <= up + eps, 'state component', component=i)
                        continue
                    z1, z2 = sorted(((b - eps) / a, (b + up + eps) / a))
                    zs_lo, zs_hi = max(zs_lo, z1), min(zs_hi, z2)
            rep.check(zs_lo <= zs_hi + 1e-9, 'site tensor is the requested state plus noise', state=st, got=v.tolist(), site=s)
            for k in range(4):
                rep.close(ip[s]['C'][k], corner_ref(A, k), f'corner {k}', max(tol, 1e-6) if tol > 1e-8 else tol)
                rep.close(ip[s]['E'][k], edge_ref(A, k), f'edge {k}', max(tol, 1e-6) if tol > 1e-8 else tol)


def independent_noise(rep, seed):
    import torch
    torch.manual_seed(seed)
    ip = mk(2, 2)
    ts = [ip[s]['A'] for s in ip.site_list]
    for i in range(4):
        for j in range(i):
            rep.check(not torch.equal(ts[i], ts[j]), 'sites draw their own noise')


def run(rep):
    i = 0
    for dt in ('float64', 'complex128', 'float32', 'complex64'):
        for D, d in ((1, 2), (2, 2), (3, 2), (2, 3), (2, 4), (1, 6), (4, 2)):
            i += 1
            rep.run('environment', env, D, d, dt, rep.seed * 100 + i)
            for nx, ny in ((1, 1), (2, 2)) if not rep.thorough else ((1, 1), (1, 2), (2, 2), (3, 2)):
                for r in range(1 if not rep.thorough else 3):
                    rep.run('product state', product, nx, ny, D, d, dt, rep.seed * 100 + i + 7 * r)
    for q, (nx, ny) in enumerate(((4, 3), (3, 5), (4, 4), (1, 13), (7, 2))):
        rep.run('product state in larger cells', product, nx, ny, 1, 2 + q % 2, 'complex128' if q % 2 else 'float64', rep.seed * 100 + i + q + 1)
    rep.run('independent noise', independent_noise, rep.seed)
