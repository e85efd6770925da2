from .common import *


def move_ref(ip, k, idx, P):
    """New tensors of a move of direction k at column/row idx, given projector pairs per cut index."""
    nx, ny = ip.nx, ip.ny
    new = {}
    k1, k2, k3 = (k + 1) % 4, (k + 2) % 4, (k + 3) % 4
    for i, j, s1, s2, sites in move_geometry(k, idx, nx, ny):
        X = ip[s1]
        n = Net()       # corner k+3: edge k+2 of s1 absorbed
        n.add(X['E'][k2], 'a', 'b', 'l', 'L')
        n.add(X['C'][k3], 'b', 'c')
        n.add(P[i][0], 'c', 'l', 'L', 'x')
        new[s2, 'C', k3] = unit(n.out('a', 'x'))
        n = Net()       # corner k: edge k of s1 absorbed
        n.add(X['C'][k], 'a', 'b')
        n.add(X['E'][k], 'b', 'c', 'r', 'R')
        n.add(P[j][1], 'a', 'r', 'R', 'x')
        new[s2, 'C', k] = unit(n.out('x', 'c'))
        n = Net()       # edge k+3: site tensor of s1 absorbed
        n.add(X['E'][k3], 'a', 'b', 'kl', 'bl')
        legs = {k: 'l', k1: 'u', k2: 'r', k3: 'd'}
        n.add(X['A'], *[f'k{legs[m]}' for m in range(4)], 'p')
        n.add(X['A'].conj(), *[f'b{legs[m]}' for m in range(4)], 'p')
        n.add(P[j][0], 'b', 'ku', 'bu', 'x')
        n.add(P[i][1], 'a', 'kd', 'bd', 'y')
        new[s2, 'E', k3] = unit(n.out('y', 'x', 'kr', 'br'))
    return new


def move(rep, k, nx, ny, idx, D, d, dtype, projectors, seed, uniform=None):
    from acetn.renormalization.directional_mover import DirectionalMover
    from acetn.renormalization.projectors import ProjectorCalculator
    ip = randomize(mk(nx, ny, D, d, 4, dtype, ctmrg={'projectors': projectors}), seed, uniform=uniform)
    cfg = ip.config.ctmrg
    calc = need(ProjectorCalculator(cfg), 'calculate')
    P = {i: calc(ip, sites, k=k) for i, j, s1, s2, sites in move_geometry(k, idx, nx, ny)}
    before = snap(ip)
    want = move_ref(ip, k, idx, P)
    mover = DirectionalMover(cfg)
    getattr(mover, MOVES[k] + '_move')(ip, idx)
    if nx * ny > 1 or True:
        n = nx if k in (0, 2) else ny
        if n == 1:
            # the absorbed line is its own neighbour: tensors are replaced site by site, using what is
            # there; only shapes and norms are compared beyond the first site
            i0 = move_geometry(k, idx, nx, ny)[0]
    for (s, t, q), v in want.items():
        if n > 1:
            rep.close(ip[s][t][q], v, f'{MOVES[k]} move: {t}[{q}] at {s}', 1e-7)
        else:
            rep.check(abs(float(ip[s][t][q].norm()) - 1) < 1e-6, 'norm one')
    if n == 1:
        # a line that is its own neighbour: the first replaced tensor of each site sees the state before
        for i, j, s1, s2, sites in move_geometry(k, idx, nx, ny):
            q = (k + 3) % 4
            rep.close(ip[s2]['C'][q], want[s2, 'C', q], f'{MOVES[k]} move: C[{q}] at {s2} (width-one cell)', 1e-7)
            rep.close(ip[s2]['C'][k], want[s2, 'C', k], f'{MOVES[k]} move: C[{k}] at {s2} (width-one cell)', 1e-7)
            rep.close(ip[s2]['E'][q], want[s2, 'E', q], f'{MOVES[k]} move: E[{q}] at {s2} (width-one cell)', 1e-7)
    check_same(rep, before, ip, f'{MOVES[k]} move', skip={(s, t, q) for s, t, q in want})


def run(rep):
    r = random.Random(rep.seed)
    cells = [(2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (3, 1), (1, 1), (2, 1), (4, 3)]
    for c, (nx, ny) in enumerate(cells):
        for k in range(4):
            n = nx if k in (0, 2) else ny
            ids = range(n) if rep.thorough else [r.randrange(n)] + ([n - 1] if c == 3 else []) + ([0] if c == 3 else [])
            for idx in ids:
                dt = r.choice(['float64', 'complex128'])
                rep.run('move', move, k, nx, ny, idx, r.choice([2, 2, 1]) if c else 2, r.choice([2, 3]), dt, r.choice(['half-system', 'full-system']), rep.seed + 10 * c + k)
    for k in range(4):
        rep.run('move', move, k, 3, 3, 1, 3, 2, 'complex128', 'half-system', rep.seed + 500 + k)
