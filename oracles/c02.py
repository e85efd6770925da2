from .common import *
import copy as _copy


def _cfg_snapshot(cfg):
    return _copy.deepcopy(cfg)


def _new(nx, ny, dtype='float64', model=True, **kw):
    return config(nx, ny, 2, 2, 3, dtype, model={'name': 'ising', 'params': {'jz': 1.0, 'hx': 0.7}} if model else None,
                  ctmrg={'steps': 1}, evolution={'als_niter': 2}, **kw)


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def assign_site_tensor(ip, seed):
    s = ip.site_list[0]
    ip[s]['A'] = rnd(gen(seed), ip[s]['A'].shape, ip.dtype)


@op
def inplace_site_tensors(ip, seed):
    for s in ip.site_list:
        ip[s]['A'].mul_(0.37)
        for t in ip[s]['C'] + ip[s]['E']:
            t.mul_(0.37)


@op
def replace_list_entries(ip, seed):
    for s in ip.site_list:
        ip[s]['C'][1] = rnd(gen(seed), (2, 2), ip.dtype)
        ip[s]['E'][2] = rnd(gen(seed), (2, 2, 2, 2), ip.dtype)


@op
def assign_site(ip, seed):
    s = ip.site_list[-1]
    t = ip[s].copy()
    t['A'] = rnd(gen(seed), t['A'].shape, ip.dtype)
    ip[s] = t


@op
def reinitialise(ip, seed):
    ip.initialize_site_tensors(lambda s: [0.6, 0.8])


@op
def renormalise(ip, seed):
    ip.renormalize()


@op
def evolve(ip, seed):
    ip.evolve(0.1, 1)


@op
def measure(ip, seed):
    ip.measure()


@op
def change_chi(ip, seed):
    ip.set_chi(ip.dims['chi'] + 3)
    ip.renormalize()


@op
def change_model_params(ip, seed):
    ip.set_model_params(hx=9.5, jz=-3.0)


@op
def change_dims_dict(ip, seed):
    ip.dims['chi'] = 11


@op
def set_model(ip, seed):
    from acetn.model.models import HeisenbergModel
    ip.set_model(HeisenbergModel, {'J': 2.5})


@op
def reverse_bonds(ip, seed):
    ip.bond_list.reverse()
    ip.site_list.reverse()


@op
def load_other(ip, seed):
    import tempfile
    o = mk(ip.nx, ip.ny, 2, 2, 3)
    for s in o.site_list:
        o[s]['A'] = rnd(gen(seed + 5), o[s]['A'].shape, o.dtype)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.pt')
        o.save(f)
        ip.load(f)


def full_snapshot(ip):
    return {'t': snap(ip), 'dims': dict(ip.dims), 'cfgdims': dict(ip.tn_config.dims), 'sites': list(ip.site_list), 'bonds': list(ip.bond_list),
            'model': (ip.config.model.name, dict(ip.config.model.params or {})) if hasattr(ip, 'config') else None,
            'sdims': {s: dict(ip[s].dims) for s in ip.site_list}, 'dtype': ip.dtype}


def same_snapshot(rep, a, ip, what):
    b = full_snapshot(ip)
    for k in ('dims', 'cfgdims', 'sites', 'bonds', 'model', 'sdims', 'dtype'):
        rep.check(a[k] == b[k], f'{what}: {k} changed', before=a[k], after=b[k])
    check_same(rep, a['t'], ip, what)


def isolation(rep, opname, how, nx, ny, seed):
    import torch
    from acetn.ipeps import Ipeps
    torch.manual_seed(seed)
    cfg = _new(nx, ny)
    ip = Ipeps(cfg)
    if how == 'same config':
        o = Ipeps(cfg)
    elif how == 'from network':
        o = Ipeps(cfg, ip)
    elif how == 'copy':
        o = ip.copy()
    elif how == 'to':
        o = ip.to(dtype=torch.float64)
    elif how == 'shared parameters':
        p = {'jz': 1.0, 'hx': 0.7}
        d = {'phys': 2, 'bond': 2, 'chi': 3}
        c1 = _new(nx, ny)
        c1['model']['params'] = p
        c1['TN']['dims'] = d
        c2 = _new(nx, ny)
        c2['model']['params'] = p
        c2['TN']['dims'] = d
        ip, o = Ipeps(c1), Ipeps(c2)
        cfg = c1
    else:
        raise ValueError(how)
    c0 = _cfg_snapshot(cfg)
    for a, b, tag in ((ip, o, 'changed the other network'), (o, ip, 'changed the original network')):
        if not hasattr(a, 'evolve') and opname in ('renormalise', 'evolve', 'measure', 'change_chi', 'set_model', 'change_model_params'):
            continue
        before = full_snapshot(b)
        OPS[opname](a, seed)
        same_snapshot(rep, before, b, f'{opname} on one network ({how}) {tag}')
        rep.check(cfg == c0, f"{opname} ({how}) changed the caller's configuration", before=c0, after=cfg)
        fresh = Ipeps(_new(nx, ny))
        rep.check(fresh.dims['chi'] == 3 and fresh.config.model.params == {'jz': 1.0, 'hx': 0.7}, f'{opname} changed later networks', dims=fresh.dims, params=fresh.config.model.params)


def own_tensors(rep, dtype, seed):
    """Stored tensors are clones of what was handed in."""
    ip = mk(2, 1, dtype=dtype)
    g = gen(seed)
    s = ip.site_list[0]
    a = rnd(g, ip[s]['A'].shape, ip.dtype)
    cs = [rnd(g, (3, 3), ip.dtype) for _ in range(4)]
    es = [rnd(g, (3, 3, 2, 2), ip.dtype) for _ in range(4)]
    ip[s]['A'], ip[s]['C'], ip[s]['E'] = a, cs, es
    a0, c0, e0 = a.clone(), [c.clone() for c in cs], [e.clone() for e in es]
    a.zero_()
    for t in cs + es:
        t.zero_()
    cs[0] = None
    es.clear()
    rep.check(same(ip[s]['A'], a0), 'in-place change of the assigned site tensor reached the network')
    for k in range(4):
        rep.check(same(ip[s]['C'][k], c0[k]) and same(ip[s]['E'][k], e0[k]), 'in-place change of an assigned environment tensor reached the network')
    t = ip[s].copy()
    for x in [t['A']] + t['C'] + t['E']:
        x.zero_()
    t['C'][0] = None
    rep.check(same(ip[s]['A'], a0), 'in-place change of a copied site tensor reached the network')
    for k in range(4):
        rep.check(same(ip[s]['C'][k], c0[k]) and same(ip[s]['E'][k], e0[k]), 'in-place change of a copied environment tensor reached the network')
    n = ip.copy()
    for s2 in n.site_list:
        n[s2]['A'].zero_()
        for x in n[s2]['C'] + n[s2]['E']:
            x.zero_()
    rep.check(same(ip[s]['A'], a0), 'in-place change of a copied network reached the network')
    for k in range(4):
        rep.check(same(ip[s]['C'][k], c0[k]) and same(ip[s]['E'][k], e0[k]), 'in-place change of a copied network reached the network')


def gates(rep, nx, ny):
    import torch
    from acetn.evolution.gate import Gate
    from acetn.model.model_factory import model_factory
    ip = mk(nx, ny, model={'name': 'ising', 'params': {'jz': 1.0, 'hx': 0.7}})
    m = model_factory.create(ip.config.model)
    g1 = Gate(m, 0.1, ip.bond_list, ip.site_list)
    k0 = {b: g1[b].clone() for b in ip.bond_list}
    big = mk(nx + 1, ny + 1, model={'name': 'ising', 'params': {'jz': 1.0, 'hx': 0.7}})
    g2 = Gate(m, 0.3, big.bond_list, big.site_list)
    for b in ip.bond_list:
        rep.check(same(k0[b], g1[b]), 'building other gates changed these gates', bond=b)
    g2[big.bond_list[0]] = torch.zeros(2, 2, 2, 2)
    for b in ip.bond_list:
        rep.check(same(k0[b], g1[b]), 'assigning a gate of another set changed these gates', bond=b)
    new = [b for b in big.bond_list if b not in set(ip.bond_list)]
    for b in new[:3]:
        try:
            g1[b]
            rep.check(False, 'a gate of another evolution appears in this one', bond=b)
        except KeyError:
            rep.check(True, '')


def two_models(rep, seed):
    """Two networks with custom models keep their own ones."""
    from acetn.ipeps import Ipeps
    from acetn.model import Model
    from acetn.model.pauli_matrix import pauli_matrices

    def make(c):
        class M(Model):
            def one_site_observables(self, site):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return {'o': I * c}

            def two_site_hamiltonian(self, bond):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return c * Z * Z
        return M
    a, b = mk(2, 2), mk(2, 2)
    pa = {'q': 1.0}
    a.set_model(make(1.), pa)
    b.set_model(make(5.), pa)
    ra, rb = a.measure(), b.measure()
    rep.close(float(ra['o']), 1., 'first network measures with its own model')
    rep.close(float(rb['o']), 5., 'second network measures with its own model')
    a.set_model_params(q=7.)
    rep.check(pa == {'q': 1.0}, "changing model parameters changed the caller's dictionary", got=pa)
    rep.check(b.config.model.params == {'q': 1.0}, 'changing model parameters changed another network', got=b.config.model.params)


def same_model(rep, seed):
    """Networks with the same model class keep their own parameters and models, also when another one changes its model."""
    from acetn.model import Model
    from acetn.model.pauli_matrix import pauli_matrices

    class M(Model):
        def one_site_observables(self, site):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return {'o': I * self.params.get('q', 3.)}

        def two_site_hamiltonian(self, bond):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return Z * Z
    nets = [mk(2, 1, 1, 2, 2) for _ in range(3)]
    p = {}
    for n in nets:
        n.set_model(M, p)
    for i, n in enumerate(nets):
        rep.close(float(n.measure()['o']), 3., f'network {i} keeps its model when others are given the same class')
    p['q'] = 9.
    for i, n in enumerate(nets):
        rep.close(float(n.measure()['o']), 3., f"network {i}: later changes of the caller's dictionary")
    nets[0].set_model_params(q=4.)
    rep.check(p == {'q': 9.}, "parameters of a network reached the caller's dictionary", got=p)
    for i, w in enumerate((4., 3., 3.)):
        rep.close(float(nets[i].measure()['o']), w, f'network {i}: parameters of its own')
    nets[1].set_model(M, {'q': 6.})
    for i, w in enumerate((4., 6., 3.)):
        rep.close(float(nets[i].measure()['o']), w, f'network {i}: model of its own')


def many_models(rep, n):
    """Many networks, each with a model class of its own."""
    from acetn.model import Model
    from acetn.model.pauli_matrix import pauli_matrices

    def make(c):
        class M(Model):
            def one_site_observables(self, site):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return {'o': I * c}

            def two_site_hamiltonian(self, bond):
                X, Y, Z, I = pauli_matrices(self.dtype, self.device)
                return Z * Z
        return M
    nets = [mk(1, 1, 1, 2, 1) for _ in range(n)]
    for i, a in enumerate(nets):
        a.set_model(make(float(i)), {'i': i}) if i % 3 else a.set_model(make(float(i)), {'i': i}, f'model@{i}' if i % 2 else f'model.{i}')
    for i, a in enumerate(nets):
        rep.close(float(a.measure()['o']), float(i), f'network {i} of {n} measures with its own model')
        rep.check(a.config.model.params == {'i': i}, f'network {i} of {n} has its own parameters')


def run(rep):
    seed = rep.seed
    rep.run('many models', many_models, 130)
    rep.run('same model', same_model, seed)
    hows = ['same config', 'from network', 'copy', 'to', 'shared parameters']
    cells = [(2, 1), (2, 2)] if not rep.thorough else [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]
    rep.run('two models', two_models, seed)
    for dt in ('float64', 'complex128'):
        rep.run('own tensors', own_tensors, dt, seed)
    rep.run('gates', gates, 1, 1)
    rep.run('gates', gates, 2, 2)
    for c in cells[:1] if not rep.thorough else cells:
        for how in hows:
            for o in OPS:
                if rep.out_of_time():
                    return
                rep.run('isolation', isolation, o, how, c[0], c[1], seed)
    if not rep.thorough:
        for how in hows:
            for o in ('assign_site_tensor', 'renormalise', 'evolve', 'load_other', 'reinitialise'):
                rep.run('isolation', isolation, o, how, 2, 2, seed)
