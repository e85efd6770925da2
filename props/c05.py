from .lib import *
from .net import Net, SLOTS
from .c07 import STEPS4

DM = 'acetn/renormalization/directional_mover.py:DirectionalMover.'
MOVES = ('left', 'up', 'right', 'down')


class Calc:
    """Contract of ProjectorCalculator (C07): a projector pair for the cut between the first and the last of four sites,
    made from the tensors as they are at the time of the call."""
    log = None

    def __init__(self, net, ctx, allowed=None):
        self.net, self.ctx, self.n, self.allowed = net, ctx, 0, allowed or (lambda: not net.touched())

    def __call__(self, config):
        self.config = config
        return self

    def calculate(self, ipeps, sites, k):
        self.n += 1
        ctx, net = self.ctx, self.net
        ctx.check((ipeps is net, ''), 'projectors are made from the network itself')
        ok = isinstance(k, int) and 0 <= k < 4 and len(sites) == 4
        if ctx.check((ok, f'{k}'), 'direction and four sites'):
            for i in range(4):
                w = shift(sites[0], STEPS4[k][i], net.nx, net.ny)
                ctx.check((ct.known_eq(tuple(sites[i]), w), f'{sites[i]} instead of {w}'), f'site {i + 1} of the cut', 'integer kernel')
        ctx.check((self.allowed(), ''), 'all projectors are calculated from the state before the move')
        return self.pair(k, sites[0])

    calculate_half_system = calculate_full_system = calculate

    def keep(self, k, s):
        return ifun(f'keep{k}', [s[0], s[1]], lo=1)

    def pair(self, k, s):
        net = self.net
        n = net.m(k + 3, s)
        return tuple(leaf(f'P{i}k{k}', (s[0], s[1]), (n, net.D, net.D, self.keep(k, s)), net.dtype) for i in (1, 2))



def st_unit(v):
    t = STensor(v, C128)
    return (t / t.norm()).tv


def moved(net, calc, k, s1):
    """Tensors of the site one step inside after absorbing site s1 in direction k: {slot: value}."""
    A, C, E = (net.initial(s1)[x] for x in 'ACE')
    along = {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0)}[k]
    nxt = shift(s1, along, net.nx, net.ny)
    P1i, P2i = calc.pair(k, s1)
    P1j, P2j = calc.pair(k, nxt)
    k1, k2, k3 = (k + 1) % 4, (k + 2) % 4, (k + 3) % 4
    new = {}
    new['C', k3] = st_unit(contract([(E[k2], ['a', 'b', 'l', 'L']), (C[k3], ['b', 'c']), (P1i, ['c', 'l', 'L', 'x'])], ['a', 'x']))
    new['C', k] = st_unit(contract([(C[k], ['a', 'b']), (E[k], ['b', 'c', 'r', 'R']), (P2j, ['a', 'r', 'R', 'x'])], ['x', 'c']))
    A1 = [(A, legs(k, ['l', 'u', 'r', 'd']) + ['p']), (cj(A), legs(k, ['L', 'U', 'R', 'D']) + ['p'])]
    new['E', k3] = st_unit(contract([(E[k3], ['a', 'b', 'l', 'L']), (P1j, ['b', 'u', 'U', 'x']), (P2i, ['a', 'd', 'D', 'y'])] + A1, ['y', 'x', 'r', 'R']))
    return new


def check_after(ctx, net, calc, k, idx, name):
    """The state after a move, at an arbitrary site (at every site of a given cell)."""
    if isinstance(net.nx, int) and isinstance(net.ny, int):
        sites = [(x, y) for x in range(net.nx) for y in range(net.ny)]
    else:
        sites = [cell(ctx, net.nx, net.ny, 's')]
    inner = imod((idx + (1, -1, -1, 1)[k]), net.nx if k in (0, 2) else net.ny)
    for s in sites:
        pos = s[0] if k in (0, 2) else s[1]
        if ct.decide_eq(pos, inner):
            s1 = (idx, s[1]) if k in (0, 2) else (s[0], idx)
            new = moved(net, calc, k, s1)
            net.check_site(ctx, s, new, f'{name} move, site next to the absorbed line')
            for a, q in new:
                unit_norm(ctx, net[s][a][q], f'{name} move: {a}[{q}] has norm one')
        else:
            net.check_site(ctx, s, {}, f'{name} move, other site')


def setup(ctx, nx, ny, dtype, kw={}):
    L = Loader()
    M = L('acetn.renormalization.directional_mover', 'DirectionalMover')
    X, Y = nx or ivar('nx', 1), ny or ivar('ny', 1)
    net = Net(L, X, Y, dtype)
    calc = Calc(net, ctx)
    PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
    rename(L, PC, calc)
    cfg = Rec()
    mover = M(cfg)
    ctx.check((calc.config is cfg, ''), 'configuration handed on')
    return L, net, calc, mover


def move(k, nx, ny, dtype):
    def fn(ctx):
        L, net, calc, mover = setup(ctx, nx, ny, dtype)
        n = net.nx if k in (0, 2) else net.ny
        if isinstance(n, int):
            idx = ctx.choice(n, 'index of the line')
        else:
            idx = ivar('idx', 0)
            ctx.assume(z3i(idx) < z3i(n))
        getattr(mover, MOVES[k] + '_move')(net, idx)
        end(ctx)
        check_after(ctx, net, calc, k, idx, MOVES[k])
    return fn


def units(tier):
    us = []
    common = ['__init__', 'renormalize_boundary', 'renormalize_cj1', 'renormalize_cj2', 'renormalize_ej']
    for k in range(4):
        fs = [DM + n for n in common + [f'{MOVES[k]}_move', f'calculate_{MOVES[k]}_projectors']]
        for dn in ('complex128', 'float64'):
            us.append(Unit(f'{MOVES[k]}/any cell/{dn}', move(k, 0, 0, DT[dn]), fs, assumes=['ProjectorCalculator.calculate by its contract (C07)']))
        for nx, ny in LATTICES:
            us.append(Unit(f'{MOVES[k]}/{nx}x{ny}', move(k, nx, ny, C128), fs, bounded=f'unit cell {nx}x{ny}', assumes=['ProjectorCalculator.calculate by its contract (C07)']))
    return us
