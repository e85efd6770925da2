from .lib import *
import z3
from .net import Net, SLOTS
from .c05 import Calc, moved, MOVES, DM
from .c06 import Mover
from .c07 import exact_lowrank, LOWRANK, cut_sites, PR, Cfg as CCfg
from .c14 import Gates, Cfg, bond_in

DI = 'acetn/utils/distributed.py:'
FF = 'acetn/evolution/fast_full_update.py:FastFullUpdater.'
PAIR = {'left_right_move_dist': (0, 2), 'up_down_move_dist': (1, 3)}


class Wait(Exception):
    """A process has reached a collective operation that some other process has not reached yet."""


class Gather:
    """Contract of all_gather_tensor (proved below from the torch.distributed operations): the n-th call of every process
    returns the list of the tensors handed over by the processes in their n-th calls, in the order of the ranks."""

    def __init__(self, ctx, ws):
        self.ctx, self.ws, self.table, self.count, self.turn = ctx, ws, {}, [0] * ws, 0

    def __call__(self, tensor, rank, ws):
        self.ctx.check((rank == self.rank and ws == self.ws, f'{rank}, {ws}'), 'gather called with the rank and the number of processes')
        c = self.count[rank]
        self.count[rank] += 1
        self.table[c, rank] = tensor
        if c >= self.turn:
            raise Wait()
        return ct.SymList([tensor if r == rank else STensor(self.table[c, r].tv, self.table[c, r].dtype) for r in range(self.ws)])


def lockstep(ctx, g, run):
    """Run every process from the start again, each time up to the first collective operation not yet complete, until all
    of them have finished; True if all took part in the same operations."""
    for g.turn in range(500):
        state = []
        for r in range(g.ws):
            g.count[r] = 0
            g.rank = r
            try:
                run(r, False)
                state.append('done')
            except Wait:
                state.append('wait')
        if not ctx.check((len(set(state)) == 1 and len(set(g.count)) == 1, f'{state} after {g.count} operations'), 'all processes take part in the same collective operations'):
            return False
        if state[0] == 'done':
            return True
    raise Unsupported('processes do not finish')


def both_moved(ctx, net, calc, k1, i1, k2, i2, name):
    """The state after two opposite moves with all projectors made before them."""
    if isinstance(net.nx, int) and isinstance(net.ny, int):
        sites = [(x, y) for x in range(net.nx) for y in range(net.ny)]
    else:
        sites = [cell(ctx, net.nx, net.ny, 's')]
    for s in sites:
        want = {}
        for k, i in ((k1, i1), (k2, i2)):
            n = net.nx if k in (0, 2) else net.ny
            inner = imod(i + (1, -1, -1, 1)[k], n)
            if ct.decide_eq(s[0] if k in (0, 2) else s[1], inner):
                new = moved(net, calc, k, (i, s[1]) if k in (0, 2) else (s[0], i))
                ctx.check((not set(new) & set(want), ''), 'opposite moves write different tensors')
                want.update(new)
        net.check_site(ctx, s, want, name)


def make(ctx, L, nx, ny, ws, dtype):
    net = Net(L, nx, ny, dtype)
    net.world_size, net.is_distributed = ws, True
    return net, Calc(net, ctx)


def pair_of_moves(fname, n, other, ws, dtype):
    """n: number of rows (columns) the moves run over; other: the other side of the cell; all lines, any dimensions."""
    k1, k2 = PAIR[fname]

    def fn(ctx):
        L = Loader()
        DMo = L('acetn.renormalization.directional_mover', 'DirectionalMover')
        g = Gather(ctx, ws)
        m = L('acetn.utils.distributed')
        PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
        rename(L, L.mods['acetn.utils.distributed'].__dict__['all_gather_tensor'], g)
        hold = Rec()
        rename(L, PC, lambda cfg: hold.calc)
        nx, ny = (other, n) if k1 == 0 else (n, other)
        i1, i2 = ctx.choice(other, 'first line'), ctx.choice(other, 'second line')
        nets = {}

        def run(r, final):
            net, calc = make(ctx, L, nx, ny, ws, dtype)
            net.rank = r
            hold.calc = calc
            nets[r] = net, calc
            mover = DMo(Rec())
            if not final:
                # the boundary is only rewritten once everything has been gathered: leave it out while looking for the operations
                mover.renormalize_boundary = lambda *a, **k: None
            getattr(mover, fname)(net, i1, i2)
        if not lockstep(ctx, g, run):
            return
        for r in range(ws):
            g.count = [0] * ws
            g.rank = r
            run(r, True)
            net, calc = nets[r]
            both_moved(ctx, net, calc, k1, i1, k2, i2, f'{fname}, process {r}')
        end(ctx)
    return fn


class GatherAny:
    """The same contract for one arbitrary process out of any number 2 h or 2 h + 1: in its i-th operation within a chunk
    process j hands over the i-th projector of row (j mod h + a) mod n, to the left for j // h != 1 and to the right
    otherwise (rely); the process looked at has to do the same (guarantee).  Another distribution of the rows leaves the
    unit undecided: the units with a given number of processes do not depend on it."""

    def __init__(self, ctx, ws, h, rank, k1, k2, i1, i2):
        self.ctx, self.ws, self.h, self.rank, self.lines, self.n = ctx, ws, h, rank, ((k1, i1), (k2, i2)), 0

    def row(self, which, j, part):
        k, i = self.lines[which]
        net = self.calc.net
        A = self.ctx.data['chunk_loops'][-1][0]
        y = imod(j + A, net.ny if k in (0, 2) else net.nx)
        return self.calc.pair(k, (i, y) if k in (0, 2) else (y, i))[part]

    def __call__(self, tensor, rank, ws):
        if len(self.ctx.data.get('chunk_loops', ())) != 1 or self.n > 1:
            raise Unsupported('not one loop over chunks with two operations')
        if not (ct.known_eq(rank, self.rank) and ct.known_eq(ws, self.ws)):
            raise Unsupported('arguments of the gather')
        part, h = self.n, self.h
        self.n += 1
        q = core.ifloordiv(rank, h)
        if not isinstance(q, int):
            raise Unsupported('rank // half')
        want = self.row(1 if q == 1 else 0, imod(rank, h), part)
        if not (len(want._sh) == len(tensor._sh) and T.equal(tensor.tv, want.tv)[0]):
            raise Unsupported(f'rows distributed in another way: {tensor.tv} {want.tv}')
        parts = []
        for which in (0, 1):
            v = self.ctx.fresh('p')
            self.ctx.nonneg.add(v)
            V = ivar(v)
            parts.append(('s', [(v, 0, h)], self.row(which, V, part)))
        if not ct.known_eq(ws, 2 * h):
            parts.append(('e', self.row(0, 0, part)))
        out = ct.SymList()
        out._setparts(parts)
        return out


def any_processes(fname, odd, dtype):
    k1, k2 = PAIR[fname]

    def fn(ctx):
        L = Loader()
        DMo = L('acetn.renormalization.directional_mover', 'DirectionalMover')
        L('acetn.utils.distributed')
        h = ivar('half', 1)
        ws = 2 * h + (1 if odd else 0)
        t = ivar('rank', 0)
        ctx.assume(z3i(t) < z3i(h))
        case = ctx.choice(3 if odd else 2, 'process in the first half, in the second half, the odd one')
        rank = (t, h + t, 2 * h)[case]
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        i1, i2 = ivar('i1', 0), ivar('i2', 0)
        for i in (i1, i2):
            ctx.assume(z3i(i) < z3i(nx if k1 == 0 else ny))
        net, calc = make(ctx, L, nx, ny, ws, dtype)
        net.rank = rank
        g = GatherAny(ctx, ws, h, rank, k1, k2, i1, i2)
        g.calc = calc
        ctx.data['chunks'] = True
        rename(L, L.mods['acetn.utils.distributed'].__dict__['all_gather_tensor'], g)
        rename(L, L('acetn.renormalization.projectors', 'ProjectorCalculator'), lambda cfg: calc)
        getattr(DMo(Rec()), fname)(net, i1, i2)
        if g.n != 2:
            raise Unsupported('number of operations')
        (A, r), = ctx.data['chunk_loops']
        for x in (r.lo, r.hi, r.step):
            if isinstance(x, SymInt) and 'rank' in core.free_vars(x):
                raise Unsupported('number of operations depends on the process')
        ctx.check((True, ''), 'every process takes part in two operations per chunk and the same number of chunks')
        both_moved(ctx, net, calc, k1, i1, k2, i2, f'{fname}, any process')
        end(ctx)
    return fn


def packed(ctx, t):
    """Contract of the group operations: the memory of the tensor is sent as it lies, so its elements must lie in order."""
    order = list(range(len(t._sh)))
    for o in t._ops:
        if o[0] != 'permute':
            return
        order = [order[i] for i in o[1]]
    ctx.check((order == sorted(order), 'the tensor is a transposed view'), 'a tensor that takes part in a group operation is contiguous')


def strided(name, shape, dtype):
    """A tensor nothing is known about, not contiguous."""
    n = len(shape)
    return leaf(name, (), tuple(reversed(tuple(shape))), dtype).permute(*reversed(range(n)))


def gather(ws, dtype, nd=4):
    """all_gather_tensor from the contracts of torch.distributed.all_gather and broadcast."""
    def fn(ctx):
        L = Loader()
        f = L('acetn.utils.distributed', 'all_gather_tensor')
        ts = [strided(f'T{r}', [ivar(f'm{r}_{i}', 1) for i in range(nd)], dtype) for r in range(ws)]
        before = [t.tv for t in ts]
        table, count = {}, [0] * ws
        cur = Rec()

        class D:
            @staticmethod
            def all_gather(out, t, **kw):
                c = D.step(('all_gather', t))
                for x in (t, *out):
                    packed(ctx, x)
                ctx.check((len(out) == ws, ''), 'one output per process')
                for r in range(ws):
                    D.put(out[r], table[c, r][1])

            @staticmethod
            def broadcast(t, src=None, **kw):
                ctx.check((isinstance(src, int) and 0 <= src < ws, f'{src}'), 'source of the broadcast is a process')
                c = D.step(('broadcast', t, src))
                packed(ctx, t)
                if src != cur.rank:
                    D.put(t, table[c, src][1])

            @staticmethod
            def barrier(**kw):
                D.step(('barrier', None))

            @staticmethod
            def step(what):
                c = count[cur.rank]
                count[cur.rank] += 1
                table[c, cur.rank] = what
                if c >= cur.turn:
                    raise Wait()
                kinds = {(table[c, r][0], table[c, r][2:]) for r in range(ws)}
                ctx.check((len(kinds) == 1, f'{kinds}'), 'the same operation with the same source on every process')
                return c

            @staticmethod
            def put(dst, src):
                ok = len(dst._sh) == len(src._sh) and all(ct.known_eq(a, b) for a, b in zip(dst._sh, src._sh)) and dst.dtype is src.dtype
                ctx.check((ok, f'{dst._sh} {dst.dtype} for {src._sh} {src.dtype}'), 'buffers have the shape and type of the data sent')
                dst.copy_(src)
        ctx.data['dist'] = D
        out = {}

        def run(r):
            cur.rank = r
            count[r] = 0
            t = strided(f'T{r}', [ivar(f'm{r}_{i}', 1) for i in range(nd)], dtype)
            out[r] = f(t, r, ws)
        for cur.turn in range(200):
            state = []
            for r in range(ws):
                try:
                    run(r)
                    state.append('done')
                except Wait:
                    state.append('wait')
            if not ctx.check((len(set(state)) == 1 and len(set(count)) == 1, f'{state} {count}'), 'all processes take part in the same operations'):
                return
            if state[0] == 'done':
                break
        for r in range(ws):
            ctx.check((len(out[r]) == ws, ''), 'one tensor per process')
            for j in range(ws):
                shape_is(ctx, out[r][j], list(ts[j]._sh), f'shape of the tensor of process {j} on process {r}')
                eq(ctx, out[r][j], before[j], f'tensor of process {j} on process {r}', dtype)
        end(ctx)
    return fn


class Gathered:
    """Loop invariant of the gathering loop: before operation i the list holds the tensors of the processes 0..i-1."""

    def __init__(self, P, lo, hi):
        self.P, self.lo, self.hi = P, lo, hi
        if not (ieq(lo, 0) and ieq(hi, P.ws)):
            raise Unsupported('not one round per process')
        lists = [v for v in P.locals() if isinstance(v, ct.SymList) and v.parts is None and not list.__len__(v)]
        if len({id(x) for x in lists}) != 1:
            raise Unsupported('list of the gathered tensors')
        self.list = lists[0]

    def fill(self, ctx, n):
        v = ctx.fresh('j')
        ctx.nonneg.add(v)
        self.list._setparts([('s', [(v, 0, n)], self.P.T(ivar(v)))])

    def head(self, ctx, i):
        self.P.turn, self.P.n = i, 0
        if ctx.decide(z3i(i) > 0, 'not the first round'):
            self.fill(ctx, i)
        return [ct.UNDEF] * len(self.P.names)

    def back(self, ctx, i, vals):
        P = self.P
        ctx.check((P.n == 1, f'{P.n}'), 'one broadcast per round on every process')
        parts = self.list.parts if self.list.parts is not None else [('e', x) for x in list.__iter__(self.list)]
        ok = len(parts) == (2 if ctx.known(z3i(i) > 0) else 1) and parts[-1][0] == 'e' and parts[:-1] == (parts[:1] if len(parts) == 2 else [])
        if not ok:
            raise Unsupported('list of the gathered tensors')
        x = parts[-1][1]
        shape_is(ctx, x, P.shape(i), 'shape of the tensor gathered in a round')
        want = P.own if ct.decide_eq(i, P.rank) else P.T(i)
        eq(ctx, x, want, 'tensor gathered in a round is that of its process', P.dtype)

    def after(self, ctx):
        self.fill(ctx, self.P.ws)
        self.P.finished = True
        return [ct.UNDEF] * len(self.P.names)


def gather_any(dtype, nd=4):
    """all_gather_tensor on one arbitrary process out of any number of them.  Rely: every other process takes part first in an
    all_gather of its shape and then in one broadcast from every process in the order of the ranks, with buffers of the shape
    of the tensor sent; guarantee: so does this one."""
    def fn(ctx):
        L = Loader()
        f = L('acetn.utils.distributed', 'all_gather_tensor')
        ws, rank = ivar('ws', 1), ivar('rank', 0)
        ctx.assume(z3i(rank) < z3i(ws))
        P = Rec()
        P.ws, P.rank, P.dtype, P.finished, P.turn, P.names = ws, rank, dtype, False, None, ()
        P.shape = lambda j: [core.ifun(f'g{a}', [j], lo=1) for a in range(nd)]
        P.T = lambda j: leaf('T', (j,), P.shape(j), dtype)
        own = strided('own', P.shape(rank), dtype)
        P.own = own.clone()
        P.n, P.gathers = 0, 0

        class D:
            @staticmethod
            def all_gather(out, t, **kw):
                P.gathers += 1
                if P.gathers > 1 or P.turn is not None:
                    raise Unsupported('another protocol')
                for x in (t,):
                    packed(ctx, x)
                n = length(out)
                if not ieq(n, ws):
                    raise Unsupported('outputs of all_gather')
                v = t._ints()
                if v is None or len(v) != nd or not all(ct.known_eq(a, b) for a, b in zip(v, P.shape(rank))):
                    raise Unsupported('all_gather of something else than the shape')
                ps = list(out.parts)
                if len(ps) != 1 or ps[0][0] != 's':
                    raise Unsupported('outputs of all_gather')
                b = ps[0][2]
                ctx.check((len(b._sh) == 1 and ieq(b._sh[0], nd) and b.dtype is t.dtype, f'{b._sh} {b.dtype}'), 'buffers have the shape and type of the data sent')
                w = ctx.fresh('j')
                ctx.nonneg.add(w)
                out._setparts([('s', [(w, 0, ws)], st.tensor(P.shape(ivar(w)), dtype=t.dtype))])
                P.locals = locals_of_caller('all_gather_tensor')
                ctx.data['cut'] = cut

            @staticmethod
            def broadcast(t, src=None, **kw):
                if P.turn is None or not ieq(src, P.turn):
                    raise Unsupported('another protocol')
                P.n += 1
                packed(ctx, t)
                ok = len(t._sh) == nd and all(ct.known_eq(a, b) for a, b in zip(t._sh, P.shape(src))) and t.dtype is dtype
                ctx.check((ok, f'{t._sh} {t.dtype}'), 'buffers have the shape and type of the data sent')
                if ct.decide_eq(src, rank):
                    eq(ctx, t, P.own, 'a process sends its own tensor', dtype)
                elif ok:
                    t.copy_(P.T(src))

        def cut(names, vals, lo, hi):
            P.names = names
            return Gathered(P, lo, hi)
        ctx.data['dist'] = D
        out = f(own, rank, ws)
        ctx.data['cut'] = None
        if not P.finished:
            raise Unsupported('another protocol')
        ps = out.parts if isinstance(out, ct.SymList) else None
        if ps is None or len(ps) != 1 or ps[0][0] != 's':
            raise Unsupported('result')
        j = ivar('which', 0)
        ctx.assume(z3i(j) < z3i(ws))
        eq(ctx, out[j], P.T(j), 'tensor of every process', dtype)
        end(ctx)
    return fn


def locals_of_caller(name):
    import sys
    fr = sys._getframe(1)
    while fr is not None and fr.f_code.co_name != name:
        fr = fr.f_back
    if fr is None:
        raise Unsupported('caller')
    return lambda: list(fr.f_locals.values())


def bond_update(k, dtype):
    """The first process and any other one out of any number of them end up with the tensors the first one computes."""
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        F = L('acetn.evolution.fast_full_update', 'FastFullUpdater')
        sent = []
        new = None
        ws, other = ivar('ws', 2), ivar('rank', 1)
        ctx.assume(z3i(other) < z3i(ws))
        for rank in (0, other):
            net = SymSites(L, nx, ny, dtype)
            net.is_distributed, net.world_size, net.rank = True, ws, rank
            first = isinstance(rank, int)
            who = 'the first process' if first else 'any other process'
            if first:
                b = bond_in(ctx, L, net, k)
                new = [strided('new1', (net.D,) * 4 + (net.d,), dtype), strided('new2', (net.D,) * 4 + (net.d,), dtype)]
            same = ct.decide_eq(b.s1, b.s2)
            moves = []

            class M(Mover):
                def _move(self, name, ipeps, *i):
                    raise Unsupported('single move in a distributed run')

                def left_right_move_dist(self, ipeps, a, b_):
                    moves.append(('lr', a, b_))
                    check_now()

                def up_down_move_dist(self, ipeps, a, b_):
                    moves.append(('ud', a, b_))
                    check_now()
            def check_now():
                ctx.check((net.is_distributed, ''), 'distributed')
                if not same:
                    eq(ctx, net[b.s1]['A'], new[0], f'{who}: first tensor in place before the boundary is refreshed', dtype)
                eq(ctx, net[b.s2]['A'], new[1], f'{who}: second tensor in place before the boundary is refreshed', dtype)
            rename(L, L('acetn.renormalization.directional_mover', 'DirectionalMover'), M(ctx, net, None))
            n = [0]

            class D:
                @staticmethod
                def broadcast(t, src=None, **kw):
                    packed(ctx, t)
                    if not isinstance(src, int):
                        raise Unsupported('source of the broadcast')
                    if ct.decide_eq(rank, src):
                        if src != 0:
                            raise Unsupported('broadcast from another process')
                        sent.append(t)
                    else:
                        ctx.check((src == 0 and n[0] < len(sent), f'{src}'), 'every broadcast has a sender')
                        if n[0] < len(sent):
                            s = sent[n[0]]
                            ok = len(t._sh) == len(s._sh) and all(ct.known_eq(x, y) for x, y in zip(t._sh, s._sh)) and t.dtype is s.dtype
                            ctx.check((ok, ''), 'buffers have the shape and type of the data sent')
                            t.copy_(s)
                    n[0] += 1
            ctx.data['dist'] = D
            asked = []
            orig = F.update

            def update(self, bond):
                asked.append(bond)
                if first is False:
                    raise Unsupported('update computed on several processes')
                return new[0], new[1], 0.5
            F.update = update

            class NC:
                ctmrg = Cfg
            net.config = NC
            u = F(net, Gates(net.d, dtype), Cfg)
            u.bond_update(b)
            ctx.check((n[0] == len(sent), f'{n[0]} instead of {len(sent)}'), f'{who} takes part in every broadcast')
            if first:
                ctx.check((len(asked) == 1 and asked[0] is b, ''), 'the first process computes the update')
            for kk, s in enumerate((b.s1, b.s2)):
                if not (same and kk == 0):
                    eq(ctx, net[s]['A'], new[kk], f'{who} has the tensor computed by the first process', dtype)
            ax = 0 if k in (0, 2) else 1
            want = ('lr', b.s2[0], b.s1[0]) if k == 0 else ('ud', b.s2[1], b.s1[1]) if k == 1 else ('lr', b.s1[0], b.s2[0]) if k == 2 else ('ud', b.s1[1], b.s2[1])
            ok = len(moves) == 1 and moves[0][0] == want[0] and all(ct.known_eq(x, y) for x, y in zip(moves[0][1:], want[1:]))
            ctx.check((ok, f'{moves} instead of {want}'), f'{who}: both sides of the bond are absorbed in one distributed move')
            net.unchanged(ctx, f'{who}', lambda key, part, j: part == 'A' and (ct.decide_eq(key, b.s1) or ct.decide_eq(key, b.s2)))
        end(ctx)
    return fn


class Spy(ct.SymList):
    def __getitem__(self, i):
        if not isinstance(i, int):
            raise Unsupported('corners or edges read as a whole')
        self.reads.append((self.part, i % 4))
        return ct.SymList.__getitem__(self, i)

    def __iter__(self):
        raise Unsupported('corners or edges read as a whole')


def independent(k, svd_type, dtype):
    """Half-system projectors do not read what the opposite move writes, so that making them before or after it is the same."""
    def fn(ctx):
        L = Loader()
        PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
        L('acetn.linalg')
        stubs = exact_lowrank(ctx, [])
        for n in LOWRANK:
            f = L.mods['acetn.linalg'].__dict__.get(n)
            if callable(f):
                rename(L, f, stubs[n])
        X, Y = ivar('nx', 1), ivar('ny', 1)
        net = SymSites(L, X, Y, dtype)
        sites = cut_sites(ctx, k, X, Y)
        reads = []
        for s in sites:
            for part in 'CE':
                l = net[s][part]
                if type(l) is not ct.SymList and type(l) is not Spy:
                    raise Unsupported('corners or edges not kept as a list')
                l.__class__ = Spy
                l.reads, l.part = reads, part
        PC(CCfg('half-system', svd_type)).calculate(net, sites, k)
        kk = (k + 2) % 4
        written = {('C', (kk + 3) % 4), ('C', kk), ('E', (kk + 3) % 4)}
        ctx.check((bool(reads), ''), 'boundary tensors read')
        ctx.check((not set(reads) & written, f'{set(reads) & written}'), 'half-system projectors read nothing that the opposite move writes')
        end(ctx)
    return fn


GRID = [(2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 3, 2), (3, 1, 2), (3, 2, 3), (3, 3, 2), (4, 1, 3), (4, 2, 2), (4, 3, 2), (4, 5, 2), (5, 3, 2), (5, 4, 3), (6, 2, 2), (6, 4, 2), (7, 5, 2), (8, 3, 2), (8, 5, 2)]


def units(tier):
    us = []
    A = ['ProjectorCalculator.calculate by its contract (C07)', 'all_gather_tensor by its contract (gather units)']
    for fname in PAIR:
        w = ('left', 'right') if fname.startswith('left') else ('up', 'down')
        fs = [DM + x for x in (fname, 'renormalize_boundary', f'calculate_{w[0]}_projectors', f'calculate_{w[1]}_projectors')]
        for odd in (False, True):
            us.append(Unit(f'{fname}/any cell/any {"odd" if odd else "even"} number of processes', any_processes(fname, odd, C128), fs, assumes=A))
        for ws, n, other in GRID:
            us.append(Unit(f'{fname}/{n} lines of {other} over {ws} processes', pair_of_moves(fname, n, other, ws, C128), fs, bounded=f'{ws} processes, {n} x {other} cell', assumes=A))
    for k in range(4):
        for svd in ('full-rank', 'rsvd'):
            us.append(Unit(f'half-system projectors and the opposite move/k={k}/{svd}', independent(k, svd, C128), [PR + x for x in ('make_quarter_tensor', 'contract_half_system', 'calculate_projectors', 'calculate_half_system')]))
    us.append(Unit('gather/any number of processes', gather_any(C128), [DI + 'all_gather_tensor'], assumes=['torch.distributed.all_gather and broadcast by their documentation', 'the other processes follow the same sequence of operations']))
    for ws in (1, 2, 3, 4, 5):
        us.append(Unit(f'gather/{ws} processes', gather(ws, C128), [DI + 'all_gather_tensor'], bounded=f'{ws} processes', assumes=['torch.distributed.all_gather and broadcast by their documentation']))
    for k in range(4):
        us.append(Unit(f'bond update/k={k}', bond_update(k, C128), [FF + 'bond_update', FF + 'absorb_bond_dist'], assumes=['TensorUpdater.update by contract (C14)', 'torch.distributed.broadcast by its documentation']))
    return us
