from .common import *


def rdms(rep, nx, ny, D, d, dtype, seed):
    from acetn.measurement.rdm import RDM
    from acetn.ipeps.bond import Bond
    ip = randomize(mk(nx, ny, D, d, 4, dtype), seed)
    before = snap(ip)
    rdm = RDM(ip)
    for s in ip.site_list:
        rep.close(rdm[s], site_rdm_ref(ip, s), f'site density matrix at {s}', 1e-7)
        rep.check(rdm[s].dtype == ip.dtype, 'dtype')
    for b in ip.bond_list:
        rep.close(rdm[b], bond_rdm_ref(ip, b), f'bond density matrix at {tuple(b)}', 1e-7)
    for s in ip.site_list[:2]:
        for k in range(4):
            s2 = step(s, k, nx, ny)
            b = Bond(s, s2, k)
            rep.close(rdm[b], bond_rdm_ref(ip, b), f'bond density matrix in direction {k}', 1e-7)
    # exchanging the two sites of a bond exchanges the indices
    b = ip.bond_list[0]
    rb = Bond(b.s2, b.s1, (b.k + 2) % 4)
    rep.close(rdm[rb], rdm[b].permute(1, 0, 3, 2), 'reversed bond', 1e-7)
    check_same(rep, before, ip, 'computing density matrices')


def cores(rep, D, d, seed, dtype):
    from acetn.measurement import rdm as R
    a = need(R, 'build_bond_rdm_core')
    b = need(R, 'build_bond_rdm_core_blocked')
    g = gen(seed)
    x = [2, 3, 4, 5, 2, 3, 4, 2, 3, 5]
    r = random.Random(seed)
    x = [r.choice([1, 2, 3, 4]) for _ in range(10)]
    c12, e12, e11, c13, e13 = rnd(g, (x[0], x[1]), dtype), rnd(g, (x[1], x[2], D, D), dtype), rnd(g, (x[9], x[0], D, D), dtype), rnd(g, (x[2], x[3]), dtype), rnd(g, (x[3], x[4], D, D), dtype)
    c21, e21, e24, c24, e23 = rnd(g, (x[8], x[7]), dtype), rnd(g, (x[7], x[9], D, D), dtype), rnd(g, (x[6], x[8], D, D), dtype), rnd(g, (x[5], x[6]), dtype), rnd(g, (x[4], x[5], D, D), dtype)
    a1, a2 = rnd(g, (D, D, D, D, d), dtype), rnd(g, (D, D, D, D, d), dtype)
    args = (c12, e12, e11, c13, e13, a1, c21, e21, e24, c24, e23, a2)
    p, q = a(*args), b(*args)
    rep.close(q, p, 'block-wise and direct evaluation agree', 1e-10)
    n = Net()
    n.add(c21, 'a', 'b'); n.add(e21, 'b', 'c', 'yu', 'yU'); n.add(e11, 'c', 'd', 'xu', 'xU'); n.add(c12, 'd', 'e')
    n.add(e12, 'e', 'f', 'xr', 'xR'); n.add(c13, 'f', 'g'); n.add(e13, 'g', 'h', 'xd', 'xD'); n.add(e23, 'h', 'i', 'yd', 'yD')
    n.add(c24, 'i', 'j'); n.add(e24, 'j', 'a', 'yl', 'yL')
    n.add(a1, 'm', 'xu', 'xr', 'xd', 'p'); n.add(a1.conj(), 'M', 'xU', 'xR', 'xD', 'P')
    n.add(a2, 'yl', 'yu', 'm', 'yd', 'q'); n.add(a2.conj(), 'yL', 'yU', 'M', 'yD', 'Q')
    rep.close(p, n.out('P', 'Q', 'p', 'q'), 'direct evaluation', 1e-8)


def run(rep):
    r = random.Random(rep.seed)
    cells = [(1, 1), (2, 2), (1, 2), (3, 2), (2, 3), (3, 1)]
    for rr in range(3 if rep.thorough else 1):
        for i, (nx, ny) in enumerate(cells):
            for dt in ('float64', 'complex128'):
                rep.run('rdms', rdms, nx, ny, r.choice([2, 2, 3]) if nx * ny < 4 else 2, r.choice([2, 3]), dt, rep.seed * 31 + i + 100 * rr)
        for i in range(8):
            rep.run('cores', cores, r.choice([1, 2, 3]), r.choice([1, 2, 3, 4]), rep.seed + i, r.choice(['float64', 'complex128']))
