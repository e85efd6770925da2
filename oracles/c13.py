from .common import *
from .models import *


def letters(prefix, skip, name):
    return [f'{prefix}{j}' if j != skip else name for j in range(4)]


def pair(A1, A2, k, G=None, w1=None, w2=None):
    """Contraction of two neighbouring site tensors over their bond: legs x_j (j != k), p, y_j (j != k+2), q."""
    import torch
    n = Net()
    k2 = (k + 2) % 4
    for A, w, p, sk in ((A1, w1, 'x', k), (A2, w2, 'y', k2)):
        if w is not None:
            for j in range(4):
                if j != sk:
                    sh = [1] * 5
                    sh[j] = -1
                    A = A * w[j].to(A.dtype).reshape(sh)
        n.add(A, *letters(p, sk, 'm'), 'p' if p == 'x' else 'q')
    out = ['x%d' % j for j in range(4) if j != k] + ['P'] + ['y%d' % j for j in range(4) if j != k2] + ['Q']
    if G is None:
        out = [{'P': 'p', 'Q': 'q'}.get(o, o) for o in out]
    else:
        n.add(G, 'P', 'Q', 'p', 'q')
    return n.out(*out)


def weights(lam, ip, s, k):
    """Weights of the other bonds of a site, by direction, skipping the bond in direction k."""
    out = {}
    for b in ip.bond_list:
        if b.s1 == s and b.k != k:
            out[b.k] = lam[b]
        if b.s2 == s and (b.k + 2) % 4 != k:
            out[(b.k + 2) % 4] = lam[b]
    return out


def updater_for(ip, gate):
    from acetn.evolution.evolve import create_tensor_updater
    return create_tensor_updater(ip, gate, ip.config.evolution)


def fresh_gate(ip, seed, d, exact=None):
    from acetn.evolution.gate import Gate
    g = gen(seed + 17)
    gate = Gate(instance(ip, random_model(d, seed, 'none', False, True, str(ip.dtype).split('.')[-1])), 0.1, ip.bond_list, ip.site_list)
    for b in ip.bond_list:
        if exact:
            import torch
            a, c = rnd(g, (d, d), ip.dtype), rnd(g, (d, d), ip.dtype)
            gate[b] = torch.einsum('ac,bd->abcd', a, c)
        else:
            gate[b] = rnd(g, (d, d, d, d), ip.dtype)
    return gate


def bond_step(rep, nx, ny, D, d, dtype, bi, exact, seed, rev=False):
    import torch
    from acetn.ipeps.bond import Bond
    ip = randomize(mk(nx, ny, D, d, 4, dtype, evolution={'update_type': 'simple'}), seed, env=False)
    gate = fresh_gate(ip, seed, d, exact)
    up = updater_for(ip, gate)
    lam = need(up, 'lambda_tensors')
    g = gen(seed + 3)
    for b in ip.bond_list:
        lam[b] = torch.rand(D, generator=g, dtype=torch.float64).to(lam[b].dtype) + 0.2
    bond = ip.bond_list[bi % len(ip.bond_list)]
    if bond.s1 == bond.s2:
        return
    s1, s2, k = bond
    k2 = (k + 2) % 4
    tiny = [0., 1e-4, 1e-7, 1e-10][seed % 4]
    other = [b for b in ip.bond_list if b != bond and s1 in (b.s1, b.s2)]
    if tiny and D > 1 and other:
        # a weight far below the others: it has to be taken out again exactly
        lam[other[seed % len(other)]][-1] = tiny
    before, l0 = snap(ip), {b: lam[b].clone() for b in ip.bond_list}
    g0 = {b: gate[b].clone() for b in ip.bond_list}
    w1, w2 = weights(lam, ip, s1, k), weights(lam, ip, s2, k2)
    w1, w2 = {a: v.clone() for a, v in w1.items()}, {a: v.clone() for a, v in w2.items()}
    theta = pair(before[s1]['A'], before[s2]['A'], k, gate[bond], w1, w2)
    up.bond_update(bond)
    m = theta.reshape(D ** 3 * d, D ** 3 * d)
    U, S, Vh = torch.linalg.svd(m)
    got = pair(ip[s1]['A'], ip[s2]['A'], k, None, w1, w2).reshape(D ** 3 * d, D ** 3 * d)
    gap = D >= len(S) or S[D] < 1e-9 * S[0] or (S[D - 1] - S[D]) > 1e-3 * S[0]
    if gap:
        want = (U[:, :D] * S[:D]) @ Vh[:D]
        rep.prop_close(got, want, f'bond {tuple(bond)}: pair is the truncated gate result', 1e-6)
        bare_want = want.reshape([D] * 3 + [d] + [D] * 3 + [d])
        for ax, v in enumerate([w1[j] for j in range(4) if j != k] + [None] + [w2[j] for j in range(4) if j != k2]):
            if v is not None:
                bare_want = (bare_want.movedim(ax, -1) / v).movedim(-1, ax)
        rep.prop_close(pair(ip[s1]['A'], ip[s2]['A'], k), bare_want, f'bond {tuple(bond)}: the other weights are taken out again', 1e-4 if tiny else 1e-6)
    lw = torch.sqrt(S[:D] / S[:D].norm())
    rep.check(lam[bond].dtype == torch.float64 and not lam[bond].is_complex(), 'weights are real')
    if float(S[D - 1] / S[0]) > 1e-9:
        rep.close(lam[bond], lw, 'new weight', 1e-6)
    # both sides carry the weight on an isometry
    for s, w, kk in ((s1, w1, k), (s2, w2, k2)):
        A = ip[s]['A']
        for j in range(4):
            if j != kk:
                sh = [1] * 5
                sh[j] = -1
                A = A * w[j].to(A.dtype).reshape(sh)
        A = A.movedim(kk, -1).reshape(-1, D)
        rep.close(A.mH @ A, torch.diag(lw ** 2).to(A.dtype), 'site tensor carries the weight on an isometry', 1e-6)
    check_same(rep, before, ip, 'simple update', skip={(s1, 'A'), (s2, 'A')})
    for b in ip.bond_list:
        if b != bond:
            rep.check(same(l0[b], lam[b]), 'weight of another bond changed', bond=b)
        rep.check(same(g0[b], gate[b]), 'gate changed', bond=b)
    rep.check(tuple(ip[s1]['A'].shape) == (D,) * 4 + (d,) and ip[s1]['A'].dtype == ip.dtype, 'shape')


def torus(ip, tens):
    """State vector of the finite periodic lattice made of the unit cell."""
    n = Net()
    nx, ny = ip.nx, ip.ny
    for (x, y) in ip.site_list:
        n.add(tens[x, y], f'h{(x - 1) % nx},{y}', f'v{x},{y}', f'h{x},{y}', f'v{x},{(y - 1) % ny}', f'p{x},{y}')
    return n.out(*[f'p{x},{y}' for x, y in ip.site_list])


def whole(rep, nx, ny, D, d, dtype, steps, one, seed):
    """Public entry point against an independent implementation of the scheme."""
    import torch
    dtau = 0.07
    ip0 = randomize(mk(nx, ny, D, d, 2, dtype), seed, env=False)
    from acetn.ipeps import Ipeps
    ip = Ipeps(config(nx, ny, D, d, 2, dtype, evolution={'update_type': 'simple'}, ctmrg={'steps': 0}), ip0)
    cls = random_model(d, seed, one, False, True, dtype)
    m = instance(ip, cls)
    bonds = list(ip.bond_list)
    T = {s: ip[s]['A'].clone() for s in ip.site_list}
    lam = {b: torch.ones(D, dtype=torch.float64) for b in bonds}
    I = torch.eye(d, dtype=ip.dtype)
    order = list(bonds)
    for q in range(steps):
        for b in order:
            s1, s2, k = b
            h = bare(m.two_site_hamiltonian(b))
            for s, l in ((s1, True), (s2, False)):
                o = m.one_site_hamiltonian(s)
                if o is not None:
                    h = h + 0.25 * (torch.kron(bare(o), I) if l else torch.kron(I, bare(o)))
            G = torch.matrix_exp(-dtau * h).reshape(d, d, d, d)
            w1, w2 = weights(lam, ip, s1, k), weights(lam, ip, s2, (k + 2) % 4)
            th = pair(T[s1], T[s2], k, G, w1, w2)
            U, S, Vh = torch.linalg.svd(th.reshape(D ** 3 * d, -1))
            if float(S[D - 1] - S[D]) < 1e-6 * float(S[0]):
                return
            l = torch.sqrt(S[:D] / S[:D].norm())
            lam[b] = l
            A1 = (U[:, :D] * l).reshape(D, D, D, d, D).movedim(-1, k)
            A2 = (Vh[:D].T * l).reshape(D, D, D, d, D).movedim(-1, (k + 2) % 4)
            for A, w in ((A1, w1), (A2, w2)):
                for j, v in w.items():
                    sh = [1] * 5
                    sh[j] = -1
                    A /= v.to(A.dtype).reshape(sh)
            T[s1], T[s2] = A1, A2
        order.reverse()
    ip.evolve(dtau, steps, m)
    rep.prop_close(torus(ip, {s: ip[s]['A'] for s in ip.site_list}), torus(ip, T), 'state after simple-update evolution', 1e-6)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(5 if rep.thorough else 1):
        for dt in ('float64', 'complex128'):
            for nx, ny in ((2, 2), (3, 2), (2, 3), (1, 2), (3, 1)):
                for exact in (True, False):
                    for bi in ((0, 1) if nx == 1 or ny == 1 else (0, 3, 5, 7)):
                        i += 1
                        rep.run('bond step', bond_step, nx, ny, r.choice([1, 2, 2, 3]) if i % 3 == 0 else 2, r.choice([2, 3]), dt, bi + (nx * ny if nx == 1 else 0), exact, rep.seed * 7 + i)
            for nx, ny in ((2, 2), (3, 2), (2, 3)):
                for steps in (1, 2, 3):
                    i += 1
                    rep.run('whole evolution', whole, nx, ny, 2, 2, dt, steps, r.choice(['none', 'some', 'all']), rep.seed + i)
