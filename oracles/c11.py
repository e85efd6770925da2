from .common import *
from .models import *
from .c10 import expect1, expect2


def one_op(ip, op1, op2):
    """Model measuring one fixed one-site and one two-site operator."""
    import torch
    from acetn.model import Model

    class M(Model):
        def one_site_observables(self, site):
            return {'a': op1}

        def two_site_observables(self, bond):
            return {'b': op2}

        def two_site_hamiltonian(self, bond):
            return op2
    return instance(ip, M)


def value(ip, op1, op2):
    out = ip.measure(one_op(ip, op1, op2))
    import torch
    return [torch.as_tensor(out[k]).real.double() for k in ('a', 'b', 'Energy')]


def traces(rep, nx, ny, d, dtype, hermitian, seed):
    import torch
    ip = randomize(mk(nx, ny, 2, d, 3, dtype), seed)
    g = gen(seed + 1)
    o1, o2 = rnd(g, (d, d), dtype), rnd(g, (d * d, d * d), dtype)
    p1, p2 = rnd(g, (d, d), dtype), rnd(g, (d * d, d * d), dtype)
    if hermitian:
        o1, o2 = o1 + o1.mH, o2 + o2.mH
    c1, c2 = o1.clone(), o2.clone()
    v = value(ip, o1, o2)
    rep.check(same(o1, c1) and same(o2, c2), 'operators were modified')
    S, B = ip.site_list, ip.bond_list
    w1 = sum(expect1(site_rdm_ref(ip, s), o1) for s in S) / len(S)
    w2 = sum(expect2(bond_rdm_ref(ip, b), o2, d) for b in B) / len(B)
    rep.close(v[0], w1, 'one-site expectation value is Tr(O rho)/Tr(rho)', 1e-7)
    rep.close(v[1], w2, 'two-site expectation value is Tr(O rho)/Tr(rho)', 1e-7)
    rep.close(v[2], w2 * len(B) / len(S), 'two-site energy is Tr(H rho)/Tr(rho)', 1e-7)
    i = value(ip, torch.eye(d, dtype=ip.dtype), torch.eye(d * d, dtype=ip.dtype))
    rep.close(i[0], torch.ones((), dtype=torch.float64), 'identity has expectation one', 1e-9)
    rep.close(i[1], torch.ones((), dtype=torch.float64), 'identity has expectation one', 1e-9)
    u = value(ip, p1, p2)
    l = value(ip, 2.5 * o1 - 0.5 * p1, 2.5 * o2 - 0.5 * p2)
    for a, b, c in zip(v, u, l):
        rep.close(c, 2.5 * a - 0.5 * b, 'linear in the operator', 1e-7)
    for s in S:
        ip[s]['A'] = ip[s]['A'] * 1.7
        ip[s]['C'] = [0.3 * c for c in ip[s]['C']]
        ip[s]['E'] = [2.2 * c for c in ip[s]['E']]
    for a, b in zip(v, value(ip, o1, o2)):
        rep.close(b, a, 'independent of the scale of the tensors', 1e-7)


def pure(rep, nx, ny, d, dtype, seed):
    """Product state: <O> is the matrix element of the site vectors, first site before second."""
    import torch
    ip = mk(nx, ny, 1, d, 1, dtype)
    g = gen(seed)
    vec = {}
    for s in ip.site_list:
        v = rnd(g, (d,), dtype)
        vec[s] = v / v.norm()
        ip[s]['A'] = vec[s].reshape(1, 1, 1, 1, d)
        ip[s]['C'] = [torch.ones(1, 1, dtype=ip.dtype)] * 4
        ip[s]['E'] = [torch.ones(1, 1, 1, 1, dtype=ip.dtype)] * 4
    o1, o2 = rnd(g, (d, d), dtype), rnd(g, (d * d, d * d), dtype)
    v = value(ip, o1, o2)
    w1 = sum((vec[s].conj() @ o1 @ vec[s]).real for s in ip.site_list) / len(ip.site_list)
    w2 = 0
    for b in ip.bond_list:
        x = torch.kron(vec[b.s1], vec[b.s2])
        w2 = w2 + (x.conj() @ o2 @ x).real
    rep.close(v[0], w1.double(), 'product state: one-site expectation value', 1e-9)
    rep.close(v[1], (w2 / len(ip.bond_list)).double(), 'product state: two-site expectation value', 1e-9)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for rr in range(4 if rep.thorough else 1):
        for nx, ny in ((1, 1), (2, 2), (2, 1), (1, 2), (3, 2)):
            for dt in ('float64', 'complex128'):
                for h in (True, False):
                    i += 1
                    rep.run('traces', traces, nx, ny, r.choice([2, 2, 3]), dt, h, rep.seed * 13 + i)
                    rep.run('product state', pure, nx, ny, r.choice([2, 3, 4]), dt, rep.seed * 17 + i)
