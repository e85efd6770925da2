from .common import *
from .models import *


def logm(G, dtau):
    import torch
    d2 = G.shape[0]
    w, V = torch.linalg.eig(G.to(torch.complex128))
    return -(V * torch.log(w)) @ torch.linalg.inv(V) / dtau


def gates(rep, nx, ny, d, dtype, one, pauli, dtau, hermitian, seed):
    import torch
    from acetn.evolution.gate import Gate
    ip = mk(nx, ny, 1, d, 1, dtype)
    cls = random_model(d, seed, one, True, hermitian, dtype, pauli)
    m = instance(ip, cls)
    bonds, sites = list(ip.bond_list), list(ip.site_list)
    for b in bonds:
        m.two_site_hamiltonian(b)
    for s in sites:
        m.one_site_hamiltonian(s)
    c0 = {k: v.clone() for k, v in cls.mats.items()}
    gate = Gate(m, dtau, ip.bond_list, ip.site_list)
    for k, v in c0.items():
        rep.check(same(v, cls.mats[k]), "building gates changed the model's operators", key=k)
    rep.check(list(ip.bond_list) == bonds and list(ip.site_list) == sites, 'building gates changed the lists')
    wrap = getattr(gate, 'wrap_one_site', None)
    I = torch.eye(d, dtype=torch.complex128)
    ct = torch.complex128
    total1 = {s: torch.zeros(d, d, dtype=ct) for s in sites}
    first = {b: gate[b].clone() for b in bonds}
    for b in bonds:
        G = gate[b]
        rep.check(tuple(G.shape) == (d,) * 4 and G.dtype == ip.dtype, 'shape and dtype of a bond gate', got=(G.shape, G.dtype))
        h = bare(m.two_site_hamiltonian(b)).to(ct)
        h1, h2 = m.one_site_hamiltonian(b.s1), m.one_site_hamiltonian(b.s2)
        z = torch.zeros(d, d, dtype=ct)
        h1 = z if h1 is None else bare(h1).to(ct)
        h2 = z if h2 is None else bare(h2).to(ct)
        if wrap is not False:
            # four bonds meet at every site
            want = h + 0.25 * torch.kron(h1, I) + 0.25 * torch.kron(I, h2)
        else:
            want = h
        rep.close(G.reshape(d * d, d * d).to(ct), torch.matrix_exp(-dtau * want), f'gate of bond {tuple(b)}', 1e-8)
    # an independent reading: the sum of the generators is the Hamiltonian (linear order in dtau)
    again = Gate(m, dtau, ip.bond_list, ip.site_list)
    for b in bonds:
        rep.close(again[b], first[b], 'building gates twice gives the same gates', 1e-12)
        rep.check(same(first[b], gate[b]), 'building gates changed earlier gates')
    Gate(m, dtau / 2, ip.bond_list, ip.site_list)
    for b in bonds:
        rep.check(same(first[b], gate[b]), 'building gates for another time step changed earlier gates')


def site_gates(rep, d, dtype, seed):
    """One-site generators: in total once per site."""
    import torch
    from acetn.evolution.gate import Gate
    ip = mk(2, 3, 1, d, 1, dtype)
    cls = random_model(d, seed, 'some', True, True, dtype)
    m = instance(ip, cls)
    dtau = 0.05
    g = Gate(m, dtau, ip.bond_list, ip.site_list)
    ct = torch.complex128
    I = torch.eye(d, dtype=ct)
    acc = {s: torch.zeros(d, d, dtype=ct) for s in ip.site_list}
    for b in ip.bond_list:
        K = logm(g[b].reshape(d * d, d * d), dtau) - bare(m.two_site_hamiltonian(b)).to(ct)
        K = K.reshape(d, d, d, d)
        # K = a x I + I x b up to a multiple of the identity split
        acc[b.s1] += torch.einsum('aibi->ab', K) / d
        acc[b.s2] += torch.einsum('iaib->ab', K) / d
    for s in ip.site_list:
        h = m.one_site_hamiltonian(s)
        h = torch.zeros(d, d, dtype=ct) if h is None else bare(h).to(ct)
        dev = acc[s] - h
        dev = dev - torch.eye(d, dtype=ct) * dev.diagonal().mean()
        if g.wrap_one_site:
            rep.check(float(dev.abs().max()) < 1e-6, 'one-site term enters once in total', site=s, got=acc[s].tolist(), want=h.tolist())


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(4 if rep.thorough else 1):
        for nx, ny in ((1, 1), (2, 2), (1, 3), (3, 2), (2, 1), (3, 3)):
            for one in ('none', 'some', 'all'):
                for pauli in (True, False):
                    i += 1
                    rep.run('gates', gates, nx, ny, r.choice([2, 2, 3, 4]), r.choice(['float64', 'complex128']), one, pauli, r.choice([0.01, 0.1, 0.5]), r.choice([True, True, False]), rep.seed * 3 + i)
    for d in (2, 3):
        for dt in ('float64', 'complex128'):
            rep.run('site terms', site_gates, d, dt, rep.seed)
