from .common import *
from .models import instance, random_model


def topology(rep, nx, ny):
    ip = mk(nx, ny, chi=2, D=1 if nx * ny > 9 else 2)
    want = {(x, y) for x in range(nx) for y in range(ny)}
    rep.check(len(ip.site_list) == len(want) and set(map(tuple, ip.site_list)) == want, 'site list is every coordinate once', sites=ip.site_list)
    for s in want:
        rep.check(ip[s]['A'] is not None and ip[s] is ip[s], 'site tensor at every coordinate')
    objs = [id(ip[s]) for s in want]
    rep.check(len(set(objs)) == len(objs), 'one site tensor per coordinate')
    bonds = [(tuple(b.s1), tuple(b.s2), b.k) for b in ip.bond_list]
    ref = [((x, y), ((x + 1) % nx, y), 2) for x in range(nx) for y in range(ny)] + [((x, y), (x, (y + 1) % ny), 1) for x in range(nx) for y in range(ny)]
    rep.check(sorted(bonds) == sorted(ref), 'bond list is one horizontal and one vertical bond per site', got=sorted(bonds), want=sorted(ref))
    for b in ip.bond_list:
        s1, s2, k = b
        rep.check((tuple(s1), tuple(s2), k) == (tuple(b.s1), tuple(b.s2), b.k), 'a bond unpacks to its sites and direction')
        rep.check(tuple(s2) == step(tuple(s1), k, nx, ny), 'second site lies in the bond direction', bond=(s1, s2, k))
    for bad in ((nx, 0), (0, ny), (-1, 0)):
        try:
            ip[bad]
            rep.check(False, 'no site tensor outside the cell', site=bad)
        except (ValueError, KeyError, IndexError):
            rep.check(True, '')


def reinit(rep, nx, ny):
    """The lists survive re-initialisation."""
    ip = mk(nx, ny, chi=2)
    ip.initialize_site_tensors(lambda s: [0.5, 0.5])
    rep.check(len(ip.site_list) == nx * ny and len(ip.bond_list) == 2 * nx * ny and len(set(ip.bond_list)) == 2 * nx * ny, 're-initialisation keeps one entry per site and bond')
    from acetn.ipeps.bond import Bond
    rep.check(Bond((0, 0), (1, 0), 2) == Bond([0, 0], [1, 0], 2) and hash(Bond((0, 0), (1, 0), 2)) == hash(Bond([0, 0], [1, 0], 2)), 'bonds are values')
    rep.check(Bond((0, 0), (1, 0), 2) != Bond((1, 0), (0, 0), 2), 'bonds are oriented')


def derived(rep, nx, ny, how, seed):
    """Networks made from another one have the same sites and bonds."""
    import torch, tempfile
    from acetn.ipeps import Ipeps
    c = config(nx, ny, 1, 2, 2)
    ip = psd_env(Ipeps(c), seed)
    if how == 'copy':
        o = ip.copy()
    elif how == 'to':
        o = ip.to(dtype=torch.complex128)
    elif how == 'from network':
        o = Ipeps(c, ip)
    elif how == 'from copy':
        o = Ipeps(c, ip.copy())
    elif how == 'load':
        o = Ipeps(c)
        with tempfile.TemporaryDirectory() as d:
            ip.save(os.path.join(d, 'x.pt'))
            o.load(os.path.join(d, 'x.pt'))
    else:
        o = ip
        m = instance(ip, random_model(2, seed, 'some', False, True))
        ip.evolve(0.01, 3, m)
        ip.measure(m)
    want = sorted(((x, y), ((x + 1) % nx, y), 2) for x in range(nx) for y in range(ny)) + sorted(((x, y), (x, (y + 1) % ny), 1) for x in range(nx) for y in range(ny))
    for n in (ip, o):
        rep.check(sorted(map(tuple, n.site_list)) == [(x, y) for x in range(nx) for y in range(ny)], f'{how}: site list', got=n.site_list)
        rep.check(sorted((tuple(b.s1), tuple(b.s2), b.k) for b in n.bond_list) == sorted(want), f'{how}: bond list', got=n.bond_list)
        ts = [n[s] for s in n.site_list]
        rep.check(len(set(map(id, ts))) == nx * ny and all(t['A'].ndim == 5 for t in ts), f'{how}: site tensors')


def run(rep):
    for nx, ny in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2)):
        for how in ('copy', 'to', 'from network', 'from copy', 'load', 'evolved'):
            rep.run('derived network', derived, nx, ny, how, rep.seed)
    m = 7 if rep.thorough else 5
    for nx in range(1, m + 1):
        for ny in range(1, m + 1):
            rep.run('topology', topology, nx, ny)
    for nx, ny in ((1, 1), (2, 1), (1, 3), (3, 2)):
        rep.run('reinit', reinit, nx, ny)
