from .common import *
from .models import *
from .c13 import pair, updater_for, fresh_gate


def updater(ip, seed, d, exact=None, cls='FullUpdater'):
    gate = fresh_gate(ip, seed, d, exact)
    return gate, updater_for(ip, gate)


def reduction(rep, nx, ny, D, d, dtype, seed):
    import torch
    ip = randomize(mk(nx, ny, D, d, 4, dtype), seed)
    gate, up = updater(ip, seed, d)
    f, g = need(up, 'decompose_site_tensors'), need(up, 'recompose_site_tensors')
    gg = gen(seed)
    a1, a2 = rnd(gg, (D,) * 4 + (d,), ip.dtype), rnd(gg, (D,) * 4 + (d,), ip.dtype)
    k1, k2 = a1.clone(), a2.clone()
    q1, r1, q2, r2 = f(a1, a2)
    nD = min(D ** 3, D * d)
    rep.check(tuple(q1.shape) == (D, D, D, nD) == tuple(q2.shape) and tuple(r1.shape) == (nD, D, d) == tuple(r2.shape), 'shapes of the parts')
    for q in (q1, q2):
        m = q.reshape(-1, nD)
        rep.close(m.mH @ m, torch.eye(nD, dtype=q.dtype), 'isometric part', 1e-8)
    b1, b2 = g(q1, r1, q2, r2)
    rep.close(b1, k1, 'recombination of the first tensor is exact', 1e-9)
    rep.close(b2, k2, 'recombination of the second tensor is exact', 1e-9)
    rep.check(same(a1, k1) and same(a2, k2), 'inputs unchanged')
    # legs of the parts: reduced part carries the bond leg and the physical index
    rep.close(torch.einsum('yup,xuq->ypxq', r1, r2).reshape(nD * d, nD * d).norm(), pair(a1, a2, 0).norm(), 'reduced pair has the norm of the pair', 1e-8)


def norm_env(rep, nx, ny, D, d, dtype, bi, k, seed):
    import torch
    from acetn.evolution import full_update as F
    from acetn.ipeps.bond import Bond
    ip = randomize(mk(nx, ny, D, d, 4, dtype), seed)
    if k is None:
        bond = ip.bond_list[bi % len(ip.bond_list)]
    else:
        s = ip.site_list[bi % len(ip.site_list)]
        bond = Bond(s, step(s, k, nx, ny), k)
    s1, s2, k = bond
    gate, up = updater(ip, seed, d)
    a1, a2 = ip[s1]['A'], ip[s2]['A']
    p1, p2 = up.permute_bond_tensors(a1, a2, k)
    q1, r1, q2, r2 = up.decompose_site_tensors(p1, p2)
    before = snap(ip)
    n12 = F.build_norm_tensor(ip, bond, q1, q2)
    check_same(rep, before, ip, 'building the norm environment')
    rep.close(n12, ring_ref(ip, bond, q1, q2), f'norm environment of bond {tuple(bond)}', 1e-7)


def ring_ref(ip, bond, q1, q2):
    """Frame of the code: first site on the right, its bond leg is frame-left (index 0), second on the left."""
    s1, s2, k = bond
    n = Net()
    ring_two(n, ip, s1, s2, k, 'x', 'y')
    L = lambda i: (k + i) % 4
    # leg i of the permuted tensor is leg k+i of the site tensor: first site has bond leg k -> i=0
    n.add(q1, f'xk{L(2)}', f'xk{L(3)}', f'xk{L(1)}', 'Y0')
    n.add(q1.conj(), f'xb{L(2)}', f'xb{L(3)}', f'xb{L(1)}', 'Y1')
    # second site: bond leg k+2 -> i=2; its order is (d, l, u)
    n.add(q2, f'yk{L(3)}', f'yk{L(0)}', f'yk{L(1)}', 'X0')
    n.add(q2.conj(), f'yb{L(3)}', f'yb{L(0)}', f'yb{L(1)}', 'X1')
    return n.out('Y0', 'X0', 'Y1', 'X1')


def cores(rep, D, nD, dtype, seed):
    from acetn.evolution import full_update as F
    a, b = need(F, 'build_norm_tensor_core'), need(F, 'build_norm_tensor_core_blocked')
    g = gen(seed)
    r = random.Random(seed)
    x = [r.choice([1, 2, 3, 4]) for _ in range(10)]
    args = (rnd(g, (x[0], x[1]), dtype), rnd(g, (x[1], x[2], D, D), dtype), rnd(g, (x[9], x[0], D, D), dtype), rnd(g, (x[2], x[3]), dtype), rnd(g, (x[3], x[4], D, D), dtype), rnd(g, (D, D, D, nD), dtype),
            rnd(g, (x[8], x[7]), dtype), rnd(g, (x[7], x[9], D, D), dtype), rnd(g, (x[6], x[8], D, D), dtype), rnd(g, (x[5], x[6]), dtype), rnd(g, (x[4], x[5], D, D), dtype), rnd(g, (D, D, D, nD), dtype))
    p, q = a(*args), b(*args)
    rep.close(q, p, 'blocked and direct evaluation agree', 1e-9)
    n = Net()
    c12, e12, e11, c13, e13, a1, c21, e21, e24, c24, e23, a2 = args
    n.add(c21, 'a', 'b'); n.add(e21, 'b', 'c', 'yu', 'yU'); n.add(e11, 'c', 'd', 'xu', 'xU'); n.add(c12, 'd', 'e')
    n.add(e12, 'e', 'f', 'xr', 'xR'); n.add(c13, 'f', 'g'); n.add(e13, 'g', 'h', 'xd', 'xD'); n.add(e23, 'h', 'i', 'yd', 'yD')
    n.add(c24, 'i', 'j'); n.add(e24, 'j', 'a', 'yl', 'yL')
    n.add(a1, 'xr', 'xd', 'xu', 'Y0'); n.add(a1.conj(), 'xR', 'xD', 'xU', 'Y1')
    n.add(a2, 'yd', 'yl', 'yu', 'X0'); n.add(a2.conj(), 'yD', 'yL', 'yU', 'X1')
    rep.close(p, n.out('Y0', 'X0', 'Y1', 'X1'), 'direct evaluation', 1e-8)


def exact_gate(rep, nx, ny, D, d, dtype, bi, k, gauge, method, seed):
    """A gate that needs no truncation is applied exactly, in site order."""
    import torch
    from acetn.ipeps.bond import Bond
    ip = psd_env(mk(nx, ny, D, d, 6, dtype, evolution={'use_gauge_fix': gauge, 'als_method': method}), seed)
    gate, up = updater(ip, seed, d, True)
    if k is None:
        bond = ip.bond_list[bi % len(ip.bond_list)]
    else:
        s = ip.site_list[bi % len(ip.site_list)]
        bond = Bond(s, step(s, k, nx, ny), k)
        gate[bond] = gate[ip.bond_list[0]].clone()
    if bond.s1 == bond.s2:
        return
    s1, s2, k = bond
    before = snap(ip)
    G = gate[bond].clone()
    want = pair(ip[s1]['A'], ip[s2]['A'], k, G)
    out = up.update(bond)
    a1, a2 = out[0], out[1]
    rep.check(tuple(a1.shape) == (D,) * 4 + (d,) == tuple(a2.shape), 'shapes of the new tensors')
    rep.prop_close(pair(a1, a2, k), want, f'bond {tuple(bond)}: exact gate', 1e-5)
    for a in (a1, a2):
        rep.close(a.norm(), torch.tensor(1., dtype=torch.float64), 'norm one', 1e-10)
    check_same(rep, before, ip, 'computing an update')
    rep.check(same(G, gate[bond]), 'gate unchanged')


def locality(rep, nx, ny, D, d, dtype, bi, seed):
    import torch
    ip = psd_env(mk(nx, ny, D, d, 4, dtype), seed)
    gate, up = updater(ip, seed, d)
    bond = ip.bond_list[bi % len(ip.bond_list)]
    before = snap(ip)
    up.bond_update(bond)
    for s in ip.site_list:
        if s in (bond.s1, bond.s2):
            rep.close(ip[s]['A'].norm(), torch.tensor(1., dtype=torch.float64), 'updated tensor has norm one', 1e-10)
            rep.check(tuple(ip[s]['A'].shape) == (D,) * 4 + (d,), 'shape')
            rep.check(not same(before[s]['A'], ip[s]['A']), 'the bond\'s site tensors are updated', site=s)
        else:
            rep.check(same(before[s]['A'], ip[s]['A']), 'site tensor off the bond changed', site=s, bond=bond)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(4 if rep.thorough else 1):
        for dt in ('float64', 'complex128'):
            for D, d in ((1, 2), (2, 2), (2, 3), (3, 2), (2, 5)):
                i += 1
                rep.run('reduction', reduction, 2, 2, D, d, dt, rep.seed + i)
            for nx, ny in ((2, 2), (3, 2), (1, 1), (2, 1), (3, 3)):
                for k in (None, None, 0, 1, 2, 3):
                    i += 1
                    rep.run('norm environment', norm_env, nx, ny, 2, r.choice([2, 3]), dt, r.randrange(18), k, rep.seed + i)
            for D, nD in ((1, 1), (2, 4), (2, 6), (2, 8), (2, 9), (3, 17), (2, 33)):
                i += 1
                rep.run('cores', cores, D, nD, dt, rep.seed + i)
            for k in (None, 0, 1, 2, 3):
                for gauge in (True, False):
                    i += 1
                    rep.run('exact gate', exact_gate, *r.choice([(2, 2), (3, 2), (2, 3)]), 2, r.choice([2, 2, 3]), dt, r.randrange(8), k, gauge, r.choice(['cholesky', 'pinv']), rep.seed + i)
            for bi in (0, 2, 5, 9):
                i += 1
                rep.run('locality', locality, 3, 2, 2, 2, dt, bi, rep.seed + i)
