from .lib import *
from .trace import *
from .net import Net
from .c06 import Mover
from .c14 import Gates, Cfg, bond_in

EV = 'acetn/evolution/evolve.py:'
FF = 'acetn/evolution/fast_full_update.py:FastFullUpdater.'
IP = 'acetn/ipeps/ipeps.py:Ipeps.'


class Updater:
    """Contract of the tensor updaters (C13, C14, here): bond_update updates one bond and gives two times."""

    def __init__(self, kind, env):
        self.kind, self.env = kind, env

    def __call__(self, ipeps, gate, config):
        self.env.made.append((self.kind, ipeps, gate, config))
        return self

    def bond_update(self, bond):
        self.env.trace.add('update', bond)
        return 0.5, 0.25

    def finalize(self):
        self.env.trace.add('finalize')

    def __getattr__(self, n):
        raise Unsupported(f'updater.{n} has no contract')


class Env:
    def __init__(self, ctx, L, kind):
        self.trace, self.made, self.gates = Trace(), [], []
        f = L('acetn.evolution.evolve', 'evolve')
        m = L.mods['acetn.evolution.evolve'].__dict__
        rename(L, L('acetn.evolution.fast_full_update', 'FastFullUpdater'), Updater('full', self))
        rename(L, L('acetn.evolution.simple_update', 'SimpleUpdater'), Updater('simple', self))

        def Gate(model, dtau, bond_list, site_list):
            self.gates.append((model, dtau, bond_list, site_list))
            return self.gates[-1]
        rename(L, L('acetn.evolution.gate', 'Gate'), Gate)
        self.f = m['evolve']

        class C:
            update_type, disable_progressbar = kind, True
        self.cfg = C


class Nw:
    rank, is_distributed, world_size = 0, False, 1

    def __new__(cls, bonds=None):
        if isinstance(bonds, Ordered):      # a class of its own for the descriptor
            cls = type('Nw', (Nw,), {'bond_list': OrderedAttr(bonds)})
        return object.__new__(cls)

    def __init__(self, bonds=None):
        if bonds is not None and not isinstance(bonds, Ordered):
            self.bond_list = bonds
        self.site_list = ct.SymList()


ct.instrument_class(Nw)


def bond_at(L, i):
    Bond = L('acetn.ipeps.bond', 'Bond')
    f = lambda n: ifun(n, [i], lo=0)
    return Bond((f('b1x'), f('b1y')), (f('b2x'), f('b2y')), f('bk'))


def run_evolve(ctx, L, kind, bonds, steps, dtau=None, items=()):
    env = Env(ctx, L, kind)
    net = Nw(bonds)
    model = object()
    tau = st.real_param('dtau', 0) if dtau is None else dtau
    env.f(net, tau, steps, model, env.cfg)
    end(ctx)
    ctx.check((len(env.gates) == 1 and env.gates[0][0] is model and env.gates[0][1] is tau and (bonds.permutes(env.gates[0][2]) if isinstance(bonds, Ordered) else sorted(map(str, env.gates[0][2])) == sorted(map(str, items))) and
               (env.gates[0][3] is net.site_list or not len(env.gates[0][3])), ''),
              'gates are built once, for the model, the time step and all bonds and sites')
    ok = len(env.made) == 1 and env.made[0][0] == kind and env.made[0][1] is net and env.made[0][2] is env.gates[0] and env.made[0][3] is env.cfg
    ctx.check((ok, str([m[0] for m in env.made])), 'one updater of the configured scheme with these gates')
    return env, net


def schedule(kind):
    """Any number of bonds, any number of steps."""
    def fn(ctx):
        L = Loader()
        n, N = ivar('nb', 1), ivar('steps', 0)
        bonds = Ordered(n, lambda i: bond_at(L, i))
        env, net = run_evolve(ctx, L, kind, bonds, N)
        t = only(env.trace.log, lambda e: e[0] == 'update')
        int_eq(ctx, imod(bonds.state.r - N, 2), 0, 'the bond list is reversed once per step')
        ctx.check((bonds.permutes(net.bond_list), ''), 'the list stays the list of the network')
        if not t:
            ctx.check((ctx.known(z3i(N) == 0), ''), 'bonds are updated unless no step is made', 'z3')
            return
        if len(t) != 1 or t[0][0] != 'loop' or len(t[0][1]) != 1 or len(t[0][2]) != 1 or t[0][2][0][0] != 'loop' or len(t[0][2][0][2]) != 1 or t[0][2][0][2][0][0] != 'e':
            raise Unsupported('steps are not a loop over the bonds')
        sv, lo, hi = t[0][1][0]
        int_eq(ctx, hi - lo, N, 'number of steps')
        int_eq(ctx, seg_size(t[0][2][0][1]), n, 'one update per bond and step')
        bv, blo, bhi = t[0][2][0][1][0]
        b = t[0][2][0][2][0][1][1]
        q, j = ivar('q', 0), ivar('j', 0)
        ctx.assume(z3i(q) < z3i(N))
        ctx.assume(z3i(j) < z3i(n))
        got = vsubst(vsubst(b, {bv: blo + j}), {sv: lo + q})
        want = bond_at(L, bonds.position(j, q))
        for a, w in zip((*got.s1, *got.s2, got.k), (*want.s1, *want.s2, want.k)):
            int_eq(ctx, a, w, 'step q updates the bonds in list order for even q and in reversed order for odd q')
    return fn


def small(kind, nb, steps, debug):
    def fn(ctx):
        ctx.data['debug_log'] = debug
        L = Loader()
        Bond = L('acetn.ipeps.bond', 'Bond')
        items = [Bond((i, 0), (i, 1), (1, 2)[i % 2]) for i in range(nb)]
        bonds = ct.SymList(items)
        env, net = run_evolve(ctx, L, kind, bonds, steps, 0.01, items)
        got = [e[1] for e in flat(env.trace.log) if e[0] == 'update']
        want = []
        for q in range(steps):
            want += items if q % 2 == 0 else items[::-1]
        ctx.check((len(got) == len(want) and all(a is b for a, b in zip(got, want)), f'{got}'), 'every bond once per step, in list order and in reversed order by turns')
        ctx.check((list(net.bond_list) == (items if steps % 2 == 0 else items[::-1]), ''), 'the bond list has the same bonds')
    return fn


def unknown(ctx):
    L = Loader()
    env = Env(ctx, L, 'full')
    f = L.mods['acetn.evolution.evolve'].__dict__['create_tensor_updater']
    for name in ('fast', 'FULL', '', 'ful'):
        class C:
            update_type = name
        try:
            f(Nw(), object(), C)
            ok = False
        except ValueError:
            ok = True
        ctx.check((ok, name), 'unknown update schemes are rejected')
    ctx.check((not env.made, ''), 'no updater made')


def refresh(k, dist):
    """Every update of the full scheme is followed by the two absorptions along the bond, with the new tensors in place."""
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        dtype = C128
        net = SymSites(L, nx, ny, dtype)
        F = L('acetn.evolution.fast_full_update', 'FastFullUpdater')
        b = bond_in(ctx, L, net, k)
        moves = []
        new = [leaf('new1', (), (net.D,) * 4 + (net.d,), dtype), leaf('new2', (), (net.D,) * 4 + (net.d,), dtype)]
        same = ct.decide_eq(b.s1, b.s2)

        class M(Mover):
            def _move(self, name, ipeps, i):
                ctx.check((ipeps is net, ''), 'moves act on the network')
                if not same:
                    eq(ctx, net[b.s1]['A'], new[0], 'the first site tensor is in place before the boundary is refreshed', dtype)
                eq(ctx, net[b.s2]['A'], new[1], 'the second site tensor is in place before the boundary is refreshed', dtype)
                moves.append((name, i))
        mover = M(ctx, net, None)
        rename(L, L('acetn.renormalization.directional_mover', 'DirectionalMover'), mover)
        calls = []

        def update(self, bond):
            ctx.check((not moves, ''), 'tensors are updated before the boundary is refreshed')
            calls.append(bond)
            return new[0], new[1], 0.5
        F.update = update
        if dist:
            net.is_distributed, net.world_size, net.rank = True, 2, 0

            class D:
                @staticmethod
                def broadcast(t, src=None, **kw):
                    ctx.check((src == 0, f'{src}'), 'broadcast from the first process')
            ctx.data['dist'] = D

        class NC:
            ctmrg = Cfg
        net.config = NC
        u = F(net, Gates(net.d, dtype), Cfg)
        out = u.bond_update(b)
        ctx.check((len(out) == 2, ''), 'two times returned')
        ctx.check((len(mover.made) == 1 and mover.made[0] is Cfg, ''), 'the mover has the CTMRG configuration')
        ctx.check((len(calls) == 1 and calls[0] is b, ''), 'one update of the bond')
        ax = 0 if k in (0, 2) else 1
        names = ('left', 'up', 'right', 'down')
        want = [(names[(k + 2) % 4], b.s1[ax]), (names[k], b.s2[ax])]
        if ctx.check((sorted(m[0] for m in moves) == sorted(w[0] for w in want), f'{moves}'), 'the boundary is absorbed from both sides along the bond, once each'):
            for n, i in want:
                j = next(m[1] for m in moves if m[0] == n)
                int_eq(ctx, j, i, f'bond in direction {k}: the {n} move absorbs the line of its site')
        for kk, s in enumerate((b.s1, b.s2)):
            if not (same and kk == 0):
                eq(ctx, net[s]['A'], new[kk], 'updated site tensor', dtype)
        net.unchanged(ctx, 'bond update', lambda key, part, j: part == 'A' and (ct.decide_eq(key, b.s1) or ct.decide_eq(key, b.s2)))
        end(ctx)
    return fn


class FakeModel:
    params = {}

    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def initial_site_state(self, site):
        self.log.append(('state', self.tag, site))
        return [1., 0.]


def entry(initialized, given):
    """Ipeps.evolve: set up if there is no state, renormalise, evolve, renormalise."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        m = L.mods['acetn.ipeps.ipeps'].__dict__
        log = []
        made = FakeModel(log, 'made')
        mine = FakeModel(log, 'mine')

        class Factory:
            def create(self, config):
                log.append(('create', config))
                return made
        rename(L, m['model_factory'], Factory())
        rename(L, m['evolve'], lambda ipeps, dtau, steps, model, config: log.append(('evolve', ipeps, dtau, steps, model, config)))
        rename(L, m['ctmrg'], lambda ipeps, config: log.append(('ctmrg', ipeps, config)))

        class Fake(Ipeps):
            def __init__(self):
                pass

            def initialize_site_tensors(self, f):
                log.append(('init', f((0, 0))))
        me = Fake()

        class C:
            model, evolution, ctmrg = object(), object(), object()
        me.config = C
        me.site_states_initialized = initialized
        me.dims = {'bond': 2, 'phys': 2, 'chi': 4}
        me.is_distributed, me.rank, me.world_size = False, 0, 1
        tau = st.real_param('dtau', 0)
        N = ivar('steps', 0)
        for time in (0, 1, 2):
            log.clear()
            me.evolve(tau, N, mine) if given else me.evolve(tau, N)
            want = ([] if given else ['create']) + ([] if initialized else ['state', 'init']) + ['ctmrg', 'evolve', 'ctmrg']
            ctx.check(([e[0] for e in log] == want, f'{[e[0] for e in log]}'), 'product state set up only without a state, then renormalise, evolve, renormalise')
            model = mine if given else made
            for e in log:
                if e[0] == 'create':
                    ctx.check((e[1] is C.model, ''), 'model of the configuration')
                if e[0] == 'state':
                    ctx.check((e[1] == model.tag, ''), 'product state of the model that is evolved with')
                if e[0] == 'ctmrg':
                    ctx.check((e[1] is me and e[2] is C.ctmrg, ''), 'renormalisation of the network with its configuration')
                if e[0] == 'evolve':
                    ctx.check((e[1] is me and e[2] is tau and e[3] is N and e[4] is model and e[5] is C.evolution, ''), 'evolution with the given time step, number of steps and model and the configuration of the network')
        end(ctx)
    return fn


def config(nx=None, ny=None, d=None, **kw):
    dims = ct.SymDict({'phys': ivar('d', 1) if d is None else d, 'bond': ivar('D', 1), 'chi': ivar('chi', 1)})
    c = ct.SymDict({'dtype': 'float64', 'TN': ct.SymDict({'nx': nx or ivar('nx', 1), 'ny': ny or ivar('ny', 1), 'dims': dims})})
    for k, v in kw.items():
        c[k] = v
    return c


def states(how):
    """The product state of the model is only set up when no state was given, loaded or evolved before."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        m = L.mods['acetn.ipeps.ipeps'].__dict__
        rename(L, m['evolve'], lambda *a: None)
        rename(L, m['ctmrg'], lambda *a: None)
        d = 2
        asked = []

        class M:
            dtype, device, params = F64, st.CPU, {}

            def __init__(self, tag):
                self.tag = tag

            def initial_site_state(self, site):
                asked.append(self.tag)
                return ct.SymVector(leaf('state' + self.tag, (site[0], site[1]), (d,), F64).tv)
        ip = Ipeps(config(d=d))
        if how == 'given':
            ip = Ipeps(config(d=d), ip)
        elif how == 'loaded':
            other = Ipeps(config(d=d))
            store = {}
            ctx.data['files'] = store
            other.save('f.pt')
            ip.load('f.pt')
        elif how == 'set up':
            ip.initialize_site_tensors(lambda s: ct.SymVector(leaf('own', (s[0], s[1]), (d,), F64).tv))
        elif how == 'evolved':
            ip.evolve(0.1, 1, M('first'))
            ctx.check((set(asked) == {'first'}, ''), 'a network without a state starts from the product state of the model')
            asked.clear()
        s = cell(ctx, ip.nx, ip.ny)
        before = ip[s]['A'].tv
        ip.evolve(0.1, 1, M('second'))
        if how == 'fresh':
            ctx.check((set(asked) == {'second'}, ''), 'a network without a state starts from the product state of the model')
        else:
            ctx.check((not asked, f'{asked}'), f'state {how}: the product state of the model is not used')
            eq(ctx, ip[s]['A'], before, f'state {how}: kept')
        n = len(asked)
        now = ip[s]['A'].tv
        ip.evolve(0.1, 1, M('third'))
        ctx.check((len(asked) == n, ''), 'a state evolved before is kept')
        eq(ctx, ip[s]['A'], now, 'a state evolved before is kept')
        end(ctx)
    return fn


def units(tier):
    A = ['updaters by contract (C13, C14 and the bond update units here)', 'Gate by contract (C12)']
    us = []
    for kind in ('full', 'simple'):
        us.append(Unit(f'schedule/any bonds, any steps/{kind}', schedule(kind), [EV + 'evolve', EV + 'create_tensor_updater'], assumes=A))
        for nb in (1, 2, 5):
            for steps in (0, 1, 2, 3, 21):
                for debug in (False, True):
                    us.append(Unit(f'schedule/{nb} bonds, {steps} steps/{kind}/{"debug log" if debug else "plain"}', small(kind, nb, steps, debug), [EV + 'evolve'], bounded=f'{nb} bonds, {steps} steps', assumes=A))
    us.append(Unit('unknown scheme', unknown, [EV + 'create_tensor_updater']))
    for k in range(4):
        for dist in (False, True):
            us.append(Unit(f'refresh/k={k}/{"distributed" if dist else "single"}', refresh(k, dist), [FF + '__init__', FF + 'bond_update', FF + ('absorb_bond_dist' if dist else 'absorb_bond')],
                           assumes=['TensorUpdater.update by contract (C14)', 'DirectionalMover by contract (C05, C19)']))
    for i in (False, True):
        for g in (False, True):
            us.append(Unit(f'Ipeps.evolve/{"with" if i else "without"} a state/{"model given" if g else "configured model"}', entry(i, g), [IP + 'evolve', IP + 'renormalize']))
    for how in ('fresh', 'given', 'loaded', 'set up', 'evolved'):
        us.append(Unit(f'initial state/{how}', states(how), [IP + 'evolve', IP + '__init__', 'acetn/ipeps/tensor_network.py:TensorNetwork.initialize_site_tensors', 'acetn/ipeps/tensor_network.py:TensorNetwork.load'], assumes=A))
    return us
