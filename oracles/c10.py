from .common import *
from .models import *


def expect1(rho, op):
    import torch
    rho, op = rho.to(torch.complex128), bare(op).to(torch.complex128)
    return (torch.einsum('Pp,Pp->', rho, op) / torch.einsum('pp->', rho).real).real


def expect2(rho, op, d):
    import torch
    rho, op = rho.to(torch.complex128), bare(op).to(torch.complex128).reshape(d, d, d, d)
    return (torch.einsum('PQpq,PQpq->', rho, op) / torch.einsum('pqpq->', rho).real).real


def energy(rep, nx, ny, d, dtype, one, obs, hermitian, pauli, psd, seed):
    import torch
    ip = mk(nx, ny, 2, d, 3, dtype, ctmrg={'steps': 2})
    if psd:
        psd_env(ip, seed)
    else:
        randomize(ip, seed)
    cls = random_model(d, seed, one, obs, hermitian, dtype, pauli)
    m = instance(ip, cls)
    before = snap(ip)
    out = ip.measure(m)
    check_same(rep, before, ip, 'measuring')
    e = 0
    for s in ip.site_list:
        h = m.one_site_hamiltonian(s)
        if h is not None:
            e = e + expect1(site_rdm_ref(ip, s), h)
    for b in ip.bond_list:
        e = e + expect2(bond_rdm_ref(ip, b), m.two_site_hamiltonian(b), d)
    e = e / len(ip.site_list)
    rep.close(torch.as_tensor(out['Energy']).real.double(), e.double(), 'energy per site', 1e-6)
    names = {'Energy'} | ({'oa', 'ob', 'ta', 'tb'} if obs else set())
    rep.check(set(out.keys()) == names, 'reported quantities', got=list(out.keys()), want=sorted(names))
    if obs:
        for n in ('oa', 'ob'):
            v = sum(expect1(site_rdm_ref(ip, s), m.one_site_observables(s)[n]) for s in ip.site_list) / len(ip.site_list)
            rep.close(torch.as_tensor(out[n]).real.double(), v.double(), f'site average of {n}', 1e-6)
        for n in ('ta', 'tb'):
            v = sum(expect2(bond_rdm_ref(ip, b), m.two_site_observables(b)[n], d) for b in ip.bond_list) / len(ip.bond_list)
            rep.close(torch.as_tensor(out[n]).real.double(), v.double(), f'bond average of {n}', 1e-6)
    again = ip.measure(m)
    for k in out:
        rep.close(torch.as_tensor(again[k]), torch.as_tensor(out[k]), 'measuring twice gives the same', 1e-12)


def partial_obs(rep, which, seed):
    """Only one-site or only two-site observables."""
    import torch
    ip = randomize(mk(2, 3), seed)
    base = random_model(2, seed, 'all', True)

    class M(base):
        pass
    if which == 'one':
        M.two_site_observables = lambda self, bond=None: {}
    else:
        M.one_site_observables = lambda self, site=None: {}
    m = instance(ip, M)
    out = ip.measure(m)
    want = {'Energy', 'oa', 'ob'} if which == 'one' else {'Energy', 'ta', 'tb'}
    rep.check(set(out) == want, 'reported quantities', got=list(out))


def product_energy(rep, nx, ny, seed):
    """Known energies: a product state along z under the Ising model, along x as well."""
    import torch
    for st, e in (([1., 0.], -1.0 * 2), ([1., 1.], -0.5)):
        ip = mk(nx, ny, 1, 2, 1, model={'name': 'ising', 'params': {'jz': 1.0, 'hx': 0.5}})
        for s in ip.site_list:
            a = torch.tensor(st).reshape(1, 1, 1, 1, 2)
            ip[s]['A'] = a / a.norm()
            ip[s].initialize_corner_tensors()
            ip[s].initialize_edge_tensors()
        out = ip.measure()
        rep.close(float(out['Energy']), e, 'energy of a product state', 1e-9)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(3 if rep.thorough else 1):
        for nx, ny in ((1, 1), (2, 2), (1, 3), (3, 2), (2, 1)):
            for one in ('none', 'some', 'all'):
                for obs in (True, False):
                    i += 1
                    rep.run('energy', energy, nx, ny, r.choice([2, 2, 3]), r.choice(['float64', 'complex128']), one, obs, r.choice([True, False]), r.choice([True, False]), r.choice([True, False]), rep.seed * 77 + i)
    for w in ('one', 'two'):
        rep.run('partial', partial_obs, w, rep.seed)
    for c in ((1, 1), (2, 2), (3, 1)):
        rep.run('product energy', product_energy, *c, rep.seed)
