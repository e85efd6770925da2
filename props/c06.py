from .lib import *
from .trace import *
from .net import Net

CT = 'acetn/renormalization/ctmrg.py:ctmrg'
DIRS = (('left', 0, 1), ('right', 0, -1), ('up', 1, -1), ('down', 1, 1))


class Mover:
    """Contract of DirectionalMover (C05, C19): absorbs the given line; the trace records which."""

    def __init__(self, ctx, net, trace):
        self.ctx, self.net, self.trace, self.made = ctx, net, trace, []

    def __call__(self, config):
        self.made.append(config)
        return self

    def _move(self, name, ipeps, i):
        self.ctx.check((ipeps is self.net, ''), 'moves act on the network')
        self.trace.add(name, i)

    def left_move(self, ipeps, xi):
        self._move('left', ipeps, xi)

    def right_move(self, ipeps, xi):
        self._move('right', ipeps, xi)

    def up_move(self, ipeps, yi):
        self._move('up', ipeps, yi)

    def down_move(self, ipeps, yi):
        self._move('down', ipeps, yi)

    def left_right_move_dist(self, ipeps, x1, x2):
        self._move('left', ipeps, x1)
        self._move('right', ipeps, x2)

    def up_down_move_dist(self, ipeps, y1, y2):
        self._move('up', ipeps, y1)
        self._move('down', ipeps, y2)

    def __getattr__(self, n):
        raise Unsupported(f'DirectionalMover.{n} has no contract')


def setup(ctx, nx, ny, steps, dist):
    L = Loader()
    X, Y = nx or ivar('nx', 1), ny or ivar('ny', 1)
    N = ivar('steps', 0) if steps is None else steps
    net = Net(L, X, Y, F64)
    if dist:
        net.is_distributed, net.world_size, net.rank = True, ivar('ws', 2), ivar('rank', 0)
    net.bond_list = ct.SymList()
    trace = Trace()
    f = L('acetn.renormalization.ctmrg', 'ctmrg')
    DM = L('acetn.renormalization.directional_mover', 'DirectionalMover')
    mover = Mover(ctx, net, trace)
    rename(L, DM, mover)
    cfg = Rec()

    class Cfg:
        steps, disable_progressbar = N, True
        projectors, svd_type, svd_cutoff, rsvd_niter, rsvd_oversampling = 'half-system', 'rsvd', 1e-12, 2, 2
    c = Cfg()
    f(net, c)
    end(ctx)
    ctx.check((all(m is c for m in mover.made), ''), 'the mover gets the configuration')
    ctx.check((not net.touched() and not net.replaced, ''), 'nothing of the network is changed except by the moves')
    return net, trace, N


def sweeps(dist):
    """Any cell size, any number of sweeps."""
    def fn(ctx):
        net, trace, N = setup(ctx, 0, 0, None, dist)
        for name, ax, d in DIRS:
            n = (net.nx, net.ny)[ax]
            t = only(trace.log, lambda e: e[0] == name)
            if not t:
                ctx.check((ctx.known(z3i(N) == 0), f'no {name} move'), f'{name} moves are made unless no sweep is configured', 'z3')
                continue
            if len(t) != 1 or t[0][0] != 'loop' or len(t[0][1]) != 1:
                raise Unsupported('sweeps are not a single loop')
            int_eq(ctx, seg_size(t[0][1]), N, 'number of sweeps')
            sv = t[0][1][0][0]
            b = t[0][2]
            if len(b) != 1 or b[0][0] != 'loop' or len(b[0][1]) != 1 or len(b[0][2]) != 1 or b[0][2][0][0] != 'e':
                raise Unsupported('a sweep is not a single loop over the lines')
            int_eq(ctx, seg_size(b[0][1]), n, f'{name}: one absorption per line')
            v, lo, hi = b[0][1][0]
            idx = b[0][2][0][1][1]
            at = lambda i: vsubst(idx, {v: i})
            i = ivar('q', 0)
            ctx.assume(z3i(i) < z3i(n))
            here = at(lo + i)
            ctx.check((ctx.known(core.z3.And(z3i(here) >= 0, z3i(here) < z3i(n))), f'{here}'), f'{name}: lines of the cell', 'z3')
            ctx.check((sv not in core.free_vars(here) if isinstance(here, SymInt) else True, ''), f'{name}: every sweep alike')
            j = ivar('r', 0)
            ctx.assume(z3i(j) < z3i(n) - 1)
            int_eq(ctx, at(lo + j + 1), imod(at(lo + j) + d, n), f'{name}: successive absorptions take neighbouring lines in the direction of the move')
    return fn


def small(nx, ny, steps, dist):
    def fn(ctx):
        net, trace, N = setup(ctx, nx, ny, steps, dist)
        ev = flat(trace.log)
        per = 2 * nx + 2 * ny
        if not ctx.check((len(ev) == N * per, f'{len(ev)}'), 'number of absorptions'):
            return
        for q in range(N):
            part = ev[q * per:(q + 1) * per]
            for name, ax, d in DIRS:
                n = (nx, ny)[ax]
                seq = [i for m, i in part if m == name]
                ctx.check((sorted(seq) == list(range(n)), f'{seq}'), f'{name}: every line once per sweep')
                ctx.check((all((b - a - d) % n == 0 for a, b in zip(seq, seq[1:])), f'{seq}'), f'{name}: successive absorptions take neighbouring lines in the direction of the move')
    return fn


def entry(ctx):
    """Ipeps.renormalize runs it with the configuration of the network, whatever that is at the time."""
    L = Loader()
    Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
    calls = []
    rename(L, L.mods['acetn.ipeps.ipeps'].__dict__['ctmrg'], lambda ipeps, config: calls.append((ipeps, config)))

    class Fake:
        class config:
            pass
    for _ in range(2):
        Fake.config.ctmrg = object()
        me = Fake()
        n = len(calls)
        Ipeps.renormalize(me)
        ctx.check((len(calls) == n + 1 and calls[-1][0] is me and calls[-1][1] is Fake.config.ctmrg, str(calls)), 'renormalize performs one CTMRG run of the network with its configuration')
    end(ctx)


def units(tier):
    A = ['DirectionalMover by its contract (C05, C19): a move absorbs the line it is given and changes no site tensor']
    us = [Unit(f'sweeps/any cell, any number/{"distributed" if d else "single process"}', sweeps(d), [CT], assumes=A) for d in (False, True)]
    us.append(Unit('renormalize', entry, ['acetn/ipeps/ipeps.py:Ipeps.renormalize']))
    for nx, ny in LATTICES + [(4, 1), (4, 3), (1, 5), (5, 2)]:
        for d in (False, True):
            for steps in (0, 1, 3):
                us.append(Unit(f'sweeps/{nx}x{ny}/{steps} steps/{"distributed" if d else "single"}', small(nx, ny, steps, d), [CT], bounded=f'unit cell {nx}x{ny}, {steps} sweeps', assumes=A))
    return us
