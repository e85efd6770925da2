from .common import *


def recorded(ip, fn, perform=True):
    """Run fn recording every directional move of the mover class (and not performing it when perform is False)."""
    from acetn.renormalization import directional_mover as dm
    cls = dm.DirectionalMover
    log = []
    orig = {}
    depth = [0]

    def wrap(name):
        f = orig[name]

        def g(self, ipeps, i):
            depth[0] += 1
            try:
                if depth[0] == 1:
                    log.append((name.split('_')[0], i))
                return f(self, ipeps, i) if perform else None
            finally:
                depth[0] -= 1
        return g
    names = [m + '_move' for m in MOVES]
    for n in names:
        if not hasattr(cls, n):
            raise Skip(n)
        orig[n] = cls.__dict__[n]
    for n in names:
        setattr(cls, n, wrap(n))
    try:
        fn()
    finally:
        for n in names:
            setattr(cls, n, orig[n])
    return log


def same_env(a, b):
    return all(same(x, y) for s in a for t in 'CE' for x, y in zip(a[s][t], b[s][t]))


def sweep(rep, nx, ny, steps, projectors, svd, seed, D=1, perform=True, bar=False):
    import torch
    ip = randomize(mk(nx, ny, D, 2, 2, ctmrg={'steps': steps, 'projectors': projectors, 'svd_type': svd, 'disable_progressbar': not bar}), seed, uniform=2)
    before = snap(ip)
    bonds, sites = list(ip.bond_list), list(ip.site_list)
    log = recorded(ip, ip.renormalize, perform)
    if steps and not log and not (perform and same_env(before, snap(ip))):
        raise Skip('moves are not made through the four directional functions')
    per = 2 * nx + 2 * ny
    rep.check(len(log) == steps * per, 'number of moves', got=len(log), want=steps * per)
    for q in range(steps):
        part = log[q * per:(q + 1) * per]
        for name, n, dirn in (('left', nx, 1), ('right', nx, -1), ('up', ny, -1), ('down', ny, 1)):
            seq = [i for m, i in part if m == name]
            rep.check(sorted(seq) == list(range(n)), f'sweep {q}: every column/row absorbed once from the {name}', got=seq)
            rep.check(all((b - a - dirn) % n == 0 for a, b in zip(seq, seq[1:])), f'sweep {q}: {name} moves proceed in their direction', got=seq)
    for s in sites:
        rep.check(same(before[s]['A'], ip[s]['A']), 'renormalisation changed a site tensor', site=s)
    rep.check(list(ip.bond_list) == bonds and list(ip.site_list) == sites, 'renormalisation changed the lists')
    if steps == 0:
        check_same(rep, before, ip, 'no sweep')


def default_steps(rep):
    """Behaviour without looking at the moves: steps=a then steps=b equals steps=a+b."""
    a = psd_env(mk(2, 2, 2, 2, 3, ctmrg={'steps': 0}), 3)
    b = a.copy()
    from acetn.ipeps import Ipeps
    one = Ipeps(config(2, 2, 2, 2, 3, ctmrg={'steps': 3}), a)
    two = Ipeps(config(2, 2, 2, 2, 3, ctmrg={'steps': 1}), a)
    one.renormalize()
    for _ in range(3):
        two.renormalize()
    for s in one.site_list:
        for k in range(4):
            rep.close(two[s]['C'][k], one[s]['C'][k], 'three renormalisations of one sweep equal one of three', 1e-6)
            rep.close(two[s]['E'][k], one[s]['E'][k], 'three renormalisations of one sweep equal one of three', 1e-6)


def run(rep):
    r = random.Random(rep.seed)
    n = 0
    rep.run('steps add up', default_steps)
    m = 5 if rep.thorough else 4
    for nx in range(1, m + 1):
        for ny in range(1, m + 1):
            n += 1
            rep.run('sweep', sweep, nx, ny, r.choice([1, 2, 3]), r.choice(['half-system', 'full-system']), r.choice(['full-rank', 'rsvd']), rep.seed + n)
    for nx, ny, st in ((1, 1, 40), (1, 2, 25), (2, 1, 60)):
        # long runs: converged environments, late sweeps
        rep.run('long', sweep, nx, ny, st, r.choice(['half-system', 'full-system']), r.choice(['full-rank', 'rsvd']), rep.seed)
    for nx, ny, st in ((1, 1, 300), (3, 2, 150), (6, 7, 12), (9, 1, 8), (1, 11, 8)):
        for pr in ('half-system', 'full-system'):
            for svd in ('full-rank', 'rsvd'):
                rep.run('counted', sweep, nx, ny, st, pr, svd, rep.seed, 1, False, pr == 'half-system')
    for st in (0, 1, 4):
        rep.run('sweep', sweep, 2, 3, st, 'half-system', 'full-rank', rep.seed + 77, 2)
