from .common import *
from .models import *
from .c06 import recorded
from .c13 import whole


def record_all(fn):
    """Sequence of bond updates, site tensor computations and outermost directional moves."""
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.evolution.full_update import FullUpdater
    from acetn.renormalization.directional_mover import DirectionalMover
    log = []
    undo = []

    def patch(cls, name, maker):
        if name not in cls.__dict__:
            raise Skip(f'{cls.__name__}.{name}')
        orig = cls.__dict__[name]
        undo.append((cls, name, orig))
        setattr(cls, name, maker(orig))

    def bond(orig):
        def g(self, b):
            log.append(('bond', b))
            return orig(self, b)
        return g

    def red(orig):
        def g(self, a1r, a2r, n12, gate):
            log.append(('gate', gate.clone()))
            return orig(self, a1r, a2r, n12, gate)
        return g

    def mv(name):
        def maker(orig):
            def g(self, ipeps, i):
                log.append((name, i))
                return orig(self, ipeps, i)
            return g
        return maker
    try:
        patch(FastFullUpdater, 'bond_update', bond)
        patch(FullUpdater, 'update_reduced_tensors', red)
        for m in MOVES:
            patch(DirectionalMover, m + '_move', mv(m))
        fn()
    finally:
        for c, n, o in undo:
            setattr(c, n, o)
    return log


def schedule(rep, nx, ny, steps, sweeps, bonds=None, seed=1, dtau=0.05, again=False):
    import torch
    ip = psd_env(mk(nx, ny, 1, 2, 2, ctmrg={'steps': sweeps}, evolution={'als_niter': 3}), seed)
    ip.site_states_initialized = True
    m = instance(ip, random_model(2, seed, 'some', False, True))
    if bonds is not None:
        from acetn.ipeps.bond import Bond
        ip.bond_list = [Bond(s, step(s, k, nx, ny), k) for s in ip.site_list for k in bonds]
    if again:
        ip.evolve(dtau, again, m)
    want_bonds = list(ip.bond_list)
    log = record_all(lambda: ip.evolve(dtau, steps, m))
    if steps and (not any(e[0] == 'bond' for e in log) or not any(e[0] == 'gate' for e in log) or (nx, ny) and not any(e[0] in MOVES for e in log)):
        raise Skip('updates, gates or moves are not made through the recorded functions')
    B = [i for i, e in enumerate(log) if e[0] == 'bond']
    seq = [log[i][1] for i in B]
    want = []
    for q in range(steps):
        want += want_bonds if q % 2 == 0 else want_bonds[::-1]
    rep.check(len(seq) == len(want), 'number of bond updates', got=len(seq), want=len(want))
    for i, (a, b) in enumerate(zip(seq, want)):
        rep.check(tuple(a) == tuple(b), f'update {i} acts on the expected bond', got=a, want=b)
    mv = lambda part: [e for e in part if e[0] in MOVES]
    per = sweeps * 2 * (nx + ny)
    if steps:
        rep.check(len(mv(log[:B[0]])) == per, 'renormalised before the evolution', got=len(mv(log[:B[0]])), want=per)
    I = torch.eye(2, dtype=ip.dtype)
    for n, i in enumerate(B):
        part = log[i + 1:(B[n + 1] if n + 1 < len(B) else len(log))]
        b = log[i][1]
        s1, s2, k = b
        gates = [e[1] for e in part if e[0] == 'gate']
        rep.check(len(gates) == 1, 'one update per bond', got=len(gates))
        h = bare(m.two_site_hamiltonian(b))
        for s, first in ((s1, True), (s2, False)):
            o = m.one_site_hamiltonian(s)
            if o is not None:
                h = h + 0.25 * (torch.kron(bare(o), I) if first else torch.kron(I, bare(o)))
        rep.close(gates[0].reshape(4, 4), torch.matrix_exp(-dtau * h), "the bond's own gate", 1e-9)
        moves = mv(part)
        if n == len(B) - 1:
            rep.check(len(moves) == 2 + per, 'renormalised after the evolution', got=len(moves), want=2 + per)
            moves = moves[:2]
        # absorb s1's side away from the bond towards the bond and s2's side likewise
        ax = 0 if k in (0, 2) else 1
        opp = (k + 2) % 4          # leg of s1 that points away from s2
        w = {(MOVES[opp], s1[ax]), (MOVES[k], s2[ax])}
        w = expected(k, s1, s2)
        rep.check(set(moves) == w and len(moves) == 2, f'bond {tuple(b)}: both sides absorbed before the next update', got=moves, want=w)
    rep.check([tuple(b) for b in ip.bond_list] == [tuple(b) for b in (want_bonds if steps % 2 == 0 else want_bonds[::-1])] or sorted(map(tuple, ip.bond_list)) == sorted(map(tuple, want_bonds)), 'bond list has the same bonds')


def expected(k, s1, s2):
    return {0: {('right', s1[0]), ('left', s2[0])}, 1: {('down', s1[1]), ('up', s2[1])},
            2: {('left', s1[0]), ('right', s2[0])}, 3: {('up', s1[1]), ('down', s2[1])}}[k]


def many(rep, update, steps, quiet, seed, dtau=0.01):
    """A long evolution: every step updates every bond, and the renormalisation before and after is made."""
    from acetn.evolution import SimpleUpdater, FastFullUpdater
    cls = SimpleUpdater if update == 'simple' else FastFullUpdater
    ip = psd_env(mk(2, 1, 1, 2, 2, ctmrg={'steps': 0}, evolution={'update_type': update, 'disable_progressbar': quiet}), seed)
    ip.site_states_initialized = True
    m = instance(ip, random_model(2, seed, 'some', False, True))
    log = []
    if 'bond_update' not in cls.__dict__:
        raise Skip('bond_update')
    orig = cls.__dict__['bond_update']
    n = len(ip.bond_list)
    want = [tuple(b) for b in ip.bond_list]
    cls.bond_update = lambda self, bond, *a, **k: (log.append(tuple(bond)), [0., 0., 0.])[1]
    try:
        ip.evolve(dtau, steps, m)
    finally:
        cls.bond_update = orig
    if not log:
        raise Skip('updates are not made through bond_update')
    rep.check(len(log) == n * steps, 'number of updates in a long evolution', got=len(log), want=n * steps)
    for q in range(min(steps, len(log) // n)):
        rep.check(log[q * n:(q + 1) * n] == (want if q % 2 == 0 else want[::-1]), f'order of the updates in step {q}')


def after(rep, update, seed):
    """Environment after an evolution of zero steps equals two renormalisations; the state is untouched."""
    from acetn.ipeps import Ipeps
    a = psd_env(mk(2, 3, 2, 2, 3, ctmrg={'steps': 1}), seed)
    one = Ipeps(config(2, 3, 2, 2, 3, ctmrg={'steps': 1}, evolution={'update_type': update}), a)
    two = Ipeps(config(2, 3, 2, 2, 3, ctmrg={'steps': 1}, evolution={'update_type': update}), a)
    m = instance(one, random_model(2, seed, 'all', False, True))
    one.evolve(0.1, 0, m)
    two.renormalize()
    two.renormalize()
    for s in one.site_list:
        rep.close(one[s]['A'], a[s]['A'], 'no step: state unchanged', 1e-12)
        for k in range(4):
            rep.close(one[s]['C'][k], two[s]['C'][k], 'renormalised before and after', 1e-6)


def split(rep, update, seed):
    """Two evolutions of two steps equal one of four steps up to the renormalisations between them (none here)."""
    from acetn.ipeps import Ipeps
    a = psd_env(mk(2, 2, 2, 2, 4, ctmrg={'steps': 1}), seed)
    c = dict(ctmrg={'steps': 0}, evolution={'update_type': 'full', 'als_niter': 5})
    one, two = Ipeps(config(2, 2, 2, 2, 4, **c), a), Ipeps(config(2, 2, 2, 2, 4, **c), a)
    m = instance(one, random_model(2, seed, 'all', False, True))
    one.evolve(0.05, 4, m)
    two.evolve(0.05, 2, m)
    two.evolve(0.05, 2, m)
    for s in one.site_list:
        rep.close(one[s]['A'], two[s]['A'], 'evolutions compose', 1e-6)


def initial(rep, how, nx, ny, dtype, seed):
    """The model's product state is used only if no state was given, loaded or evolved before."""
    import torch, tempfile
    from acetn.ipeps import Ipeps
    D, d = 2, 2
    # a model whose states are recognisable; zero Hamiltonian so that evolving keeps the state
    from acetn.model import Model
    calls = []

    class M(Model):
        def initial_site_state(self, site):
            calls.append(tuple(site))
            return [0., 1.] if (site[0] + site[1]) % 2 else [0.6, 0.8]

        def two_site_hamiltonian(self, bond):
            return torch.zeros(d * d, d * d, dtype=self.dtype)
    c = config(nx, ny, D, d, 3, dtype, ctmrg={'steps': 1}, evolution={'als_niter': 3})

    def is_product(ip):
        for s in ip.site_list:
            v = ip[s]['A'][0, 0, 0, 0]
            w = torch.tensor([0., 1.] if (s[0] + s[1]) % 2 else [0.6, 0.8], dtype=ip.dtype)
            if float((v.conj() * w).sum().abs() / v.norm()) < 0.98:
                return False
        return True
    src = randomize(mk(nx, ny, D, d, 3, dtype), seed)
    for s in src.site_list:
        src[s]['A'] = src[s]['A'] / src[s]['A'].norm()
        src[s]['A'][0, 0, 0, 0] = torch.tensor([0.9, 0.01], dtype=src.dtype)
        src[s].initialize_corner_tensors()
        src[s].initialize_edge_tensors()
    if how == 'fresh':
        ip = Ipeps(c)
    elif how == 'given':
        ip = Ipeps(c, src)
    elif how == 'copy given':
        ip = Ipeps(c, src.copy())
    elif how == 'loaded':
        ip = Ipeps(c)
        with tempfile.TemporaryDirectory() as t:
            src.save(t + '/f.pt')
            ip.load(t + '/f.pt')
    elif how == 'set up':
        ip = Ipeps(c)
        ip.initialize_site_tensors(lambda s: [1., 0.])
    elif how == 'evolved':
        ip = Ipeps(c)
        ip.evolve(0.01, 1, instance(ip, M))
        rep.check(is_product(ip), 'first evolution starts from the product state of the model')
        for s in ip.site_list:
            ip[s]['A'] = src[s]['A']
            ip[s]['C'] = src[s]['C']
            ip[s]['E'] = src[s]['E']
        calls.clear()
    ip.set_model(M, {})
    ip.evolve(0.01, 1)
    if how == 'fresh':
        rep.check(is_product(ip), 'a network without a state starts from the product state of the model')
        rep.check(sorted(set(calls)) == sorted(ip.site_list), 'initial state of every site')
    else:
        rep.check(not calls, f'state {how}: not replaced by the product state of the model')
        rep.check(not is_product(ip), f'state {how}: kept')


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    for how in ('fresh', 'given', 'copy given', 'loaded', 'set up', 'evolved'):
        for dt in ('float64', 'complex128'):
            rep.run('initial state', initial, how, 2, 2, dt, rep.seed)
        rep.run('initial state', initial, how, 3, 2, 'float64', rep.seed)
    for u in ('full', 'simple'):
        rep.run('renormalised around', after, u, rep.seed)
    rep.run('compose', split, 'full', rep.seed)
    for u, n in (('full', 140), ('simple', 140), ('full', 1100), ('simple', 37)):
        rep.run('long evolution', many, u, n, r.random() < 0.5, rep.seed)
    for u in ('full', 'simple'):
        rep.run('evolution without time', many, u, 5, False, rep.seed, 0.0)
    cells = [(2, 2), (1, 1), (1, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 2), (3, 1), (5, 1)] if rep.thorough else [])
    for nx, ny in cells:
        for steps in (0, 1, 2, 3, 5) if rep.thorough else (1, 2, 3):
            i += 1
            rep.run('schedule', schedule, nx, ny, steps, r.choice([0, 1, 2]), None, rep.seed + i)
    for q, (again, dtau) in enumerate(((1, 0.05), (2, 0.02), (False, 0.0), (1, 0.0))):
        rep.run('schedule of a later evolution' if again else 'schedule without time', schedule, 2, 1 + q % 2, 2 + q % 2, 1, None, rep.seed + q, dtau, again)
    for ks in ((0, 3), (0, 1, 2, 3), (3, 0)):
        i += 1
        rep.run('schedule with bonds in all directions', schedule, 2, 3, 2, 1, ks, rep.seed + i)
    for nx, ny in ((2, 2), (3, 2)):
        for steps in (1, 2, 3):
            i += 1
            rep.run('simple-update evolution', whole, nx, ny, 2, 2, 'float64', steps, 'all', rep.seed + i)
