"""Class invariant of a network: shapes, joined boundary legs, norms, dtype and device.

Inv(s): the site tensor has shape (D,D,D,D,d); corner k is a matrix and edge k has site legs (D,D); leg 1 of corner k has the
size of leg 0 of edge k, leg 1 of edge k that of leg 0 of corner k+1 and that of leg 0 of edge k of the neighbour NB[k]; every
boundary leg is at least one and at most B (the largest of the initial boundary dimension and of every chi so far); corners and
edges have norm one; everything has the dtype and device of the network.  SymSites and Net make arbitrary networks with Inv, so
that 'operation o keeps Inv' is: run o on such a network, check Inv at an arbitrary site."""
from .lib import *
from .net import Net
from .trace import Trace, Ordered, OrderedAttr
from . import c05, c06, c07, c14
from .c05 import Calc, MOVES, DM
from .c06 import Mover
from .c14 import Gates, Cfg, bond_in, als_stub
from .c18 import config, bond_at

S = 'acetn/ipeps/site_tensor.py:SiteTensor.'
N = 'acetn/ipeps/tensor_network.py:TensorNetwork.'
IP = 'acetn/ipeps/ipeps.py:Ipeps.'
CUDA = st.device('cuda', 0)


def bounded_legs(ctx, x, chi, B):
    """Instances, for the dimensions x is made of, of: the legs of the arbitrary network are at most B (Inv before), between
    one and chi values are kept by the projectors (units 'projectors')."""
    if isinstance(x, SymInt):
        for mono in x.p:
            for key, _ in mono:
                n = key.split('(')[0]
                if n in ('m0', 'm1', 'm2', 'm3'):
                    ctx.assume(core.z3.And(core.z3.Int(key) >= 1, core.z3.Int(key) <= z3i(B)))
                elif n in ('keep0', 'keep1', 'keep2', 'keep3'):
                    ctx.assume(core.z3.And(core.z3.Int(key) >= 1, core.z3.Int(key) <= z3i(chi)))


def bound(ctx, chi, *more):
    B = ivar('B', 1)
    for x in (chi,) + more:
        ctx.assume(z3i(x) <= z3i(B))
    return B


def slots_of(o):
    return {(a, k): o['A'] if a == 'A' else o[a][k] for a, k in [('A', 0)] + [(p, k) for p in 'CE' for k in range(4)]}


def inv(ctx, at, s, dims, chi, B, dtype, device, name, fresh=lambda slot: True):
    """at(site) gives the tensors of a site; fresh(slot): written by the operation (others keep their norm one)."""
    D, d, nx, ny = dims
    t = at(s)
    shape_is(ctx, t['A', 0], (D, D, D, D, d), f'{name}: site tensor has shape (D, D, D, D, d)')
    for k in range(4):
        C, E = t['C', k], t['E', k]
        if not ctx.check((len(C._sh) == 2 and len(E._sh) == 4, f'{C._sh} {E._sh}'), f'{name}: corner {k} is a matrix, edge {k} has four legs', 'structural'):
            continue
        shape_is(ctx, STensor(E.tv, dtype), (E._sh[0], E._sh[1], D, D), f'{name}: edge {k} has the site legs of the bond dimension')
        int_eq(ctx, C._sh[1], E._sh[0], f'{name}: corner {k} joins edge {k}')
        int_eq(ctx, E._sh[1], t['C', (k + 1) % 4]._sh[0], f'{name}: edge {k} joins corner {(k + 1) % 4}')
        n = at(shift(s, NB[k], nx, ny))
        int_eq(ctx, E._sh[1], n['E', k]._sh[0], f'{name}: edge {k} joins edge {k} of the neighbour')
        for x in (C._sh[0], C._sh[1], E._sh[0], E._sh[1]):
            bounded_legs(ctx, x, chi, B)
            ctx.check((ctx.known(core.z3.And(z3i(x) <= z3i(B), z3i(x) >= 1)), f'{x}'), f'{name}: boundary dimension {k} between one and max(chi, initial)', 'z3')
        for p, v in (('C', C), ('E', E)):
            if fresh((p, k)):
                unit_norm(ctx, v, f'{name}: {p}[{k}] has norm one')
    for (p, k), v in t.items():
        ctx.check((v.dtype is dtype, f'{v.dtype}'), f'{name}: {p}[{k}] has the dtype of the network', 'structural')
        ctx.check((v.device == device, f'{v.device}'), f'{name}: {p}[{k}] is on the device of the network', 'structural')


# ------------------------------------------------------------------ initialisation

def start(dtype, device, how):
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')
        net = TN(None, tn_config(L, nx, ny), dtype, device)
        D, d = net.dims['bond'], net.dims['phys']
        B = bound(ctx, net.dims['chi'], D * D)
        s = cell(ctx, nx, ny)
        if how == 'states':
            net.initialize_site_tensors(lambda q: ct.SymVector(leaf('state', (q[0], q[1]), (d,), F64).tv))
        elif how == 'environment':
            a = net[s]
            a['A'] = leaf('own', (), (D, D, D, D, d), F64)
            a.initialize_corner_tensors()
            a.initialize_edge_tensors()
        inv(ctx, lambda q: slots_of(net[q]), s, (D, d, nx, ny), net.dims['chi'], B, dtype, device, 'network set up' + (' again' if how != 'fresh' else ''))
        end(ctx)
    return fn


def assigned(dtype, device, given):
    """Whatever is assigned, a site keeps its dtype and device, and nothing of the assigned tensor is shared."""
    def fn(ctx):
        L = Loader()
        net = SymSites(L, 1, 1, dtype)
        net.device = device
        s = net[(0, 0)]
        D, d = net.D, net.d
        A = leaf('nA', (), (D, D, D, D, d), given)
        C = [leaf(f'nC{k}', (), (D, D), given) for k in range(4)]
        E = [leaf(f'nE{k}', (), (D, D, D, D), given) for k in range(4)]
        s['A'], s['C'], s['E'] = A, ct.SymList(C), ct.SymList(E)
        for (p, k), v in slots_of(s).items():
            w = A if p == 'A' else (C if p == 'C' else E)[k]
            eq(ctx, v, w.to(dtype), f'assigned {p}[{k}]: values', dtype)
            ctx.check((v.device == device, f'{v.device}'), f'assigned {p}[{k}]: device')
            ctx.check((v._st is not w._st, ''), f'assigned {p}[{k}]: not shared')
        end(ctx)
    return fn


# ------------------------------------------------------------------ moves

def move(k, dtype):
    def fn(ctx):
        L = Loader()
        M = L('acetn.renormalization.directional_mover', 'DirectionalMover')
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        net = Net(L, nx, ny, dtype)
        B = bound(ctx, net.chi)
        calc = Calc(net, ctx)
        rename(L, L('acetn.renormalization.projectors', 'ProjectorCalculator'), calc)
        idx = ivar('idx', 0)
        ctx.assume(z3i(idx) < z3i((nx, ny)[k % 2]))
        getattr(M(Rec()), MOVES[k] + '_move')(net, idx)
        end(ctx)
        s = cell(ctx, nx, ny, 's')
        init = {sl: t.tv for sl, t in slots_of(net.initial(s)).items()}
        cur = net.slots(s, net.log)[0]
        fresh = lambda sl: not T.equal(cur[sl].tv, init[sl])[0]
        inv(ctx, lambda q: net.slots(q, net.log)[0], s, (net.D, net.d, nx, ny), net.chi, B, dtype, net.device, f'{MOVES[k]} move', fresh)
    return fn


def projectors(k, kind, svd_type, dtype):
    """Sizes of the projectors: the legs they are contracted with, and between one and chi kept values."""
    def fn(ctx):
        L = Loader()
        PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
        L('acetn.linalg')
        stubs = c07.exact_lowrank(ctx, [])
        for n in c07.LOWRANK:
            f = L.mods['acetn.linalg'].__dict__.get(n)
            if callable(f):
                rename(L, f, stubs[n])
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        net = SymSites(L, nx, ny, dtype)
        sites = c07.cut_sites(ctx, k, nx, ny)
        conf = L('acetn.ipeps.ipeps_config', 'CTMRGConfig')(projectors=kind, svd_type=svd_type)
        P = PC(conf).calculate(net, sites, k)
        n = net.m(k + 3, sites[0])
        for i, p in enumerate(P):
            shape_is(ctx, p, (n, net.D, net.D, P[0]._sh[3]), f'projector {i + 1}: legs of the edge and the site tensor at the cut, one new leg for both')
            ctx.check((p.dtype is dtype and p.device == net.device, ''), f'projector {i + 1}: dtype and device')
        x = P[0]._sh[3]
        ctx.check((ctx.known(z3i(x) <= z3i(net.chi)), f'{x}'), 'at most chi values are kept', 'z3')
        net.unchanged(ctx, 'projectors')
        end(ctx)
    return fn


# ------------------------------------------------------------------ updates

def network(ctx, L, dtype, device=st.CPU):
    net = SymSites(L, ivar('nx', 1), ivar('ny', 1), dtype)
    net.device = device
    net.bond_list = []

    class NC:
        ctmrg = Cfg
    net.config = NC
    return net


def after(ctx, net, b, what):
    for n, s in (('first', b.s1), ('second', b.s2)):
        a = net[s]['A']
        shape_is(ctx, a, (net.D,) * 4 + (net.d,), f'{what}: {n} site tensor has shape (D, D, D, D, d)')
        ctx.check((a.dtype is net.dtype and a.device == net.device, f'{a.dtype} {a.device}'), f'{what}: {n} site tensor has the dtype and device of the network')
    net.unchanged(ctx, what, lambda key, part, j: part == 'A' and (ct.decide_eq(key, b.s1) or ct.decide_eq(key, b.s2)))
    ctx.check((not net.replaced, ''), f'{what}: sites stay')
    end(ctx)


def full(k, dtype, gauge, wrap):
    def fn(ctx):
        L = Loader()
        net = network(ctx, L, dtype)
        D, d = net.D, net.d
        F = L('acetn.evolution.fast_full_update', 'FastFullUpdater')
        rename(L, L('acetn.renormalization.directional_mover', 'DirectionalMover'), Mover(ctx, net, Trace()))
        fu = L.mods['acetn.evolution.full_update']
        log = []
        rename(L, fu.__dict__['ALSSolver'], als_stub(log, None, D, d, dtype))
        b = bond_in(ctx, L, net, k)
        conf = L('acetn.ipeps.ipeps_config', 'EvolutionConfig')(use_gauge_fix=gauge)
        F(net, Gates(d, dtype, wrap), conf).bond_update(b)
        after(ctx, net, b, 'full update')
    return fn


def simple(k, dtype, wrap):
    def fn(ctx):
        L = Loader()
        net = network(ctx, L, dtype)
        cls = L('acetn.evolution.simple_update', 'SimpleUpdater')
        Bond = L('acetn.ipeps.bond', 'Bond')
        nx, ny = net.nx, net.ny
        b = bond_in(ctx, L, net, k)
        from .c13 import Weights, weights_by_contract
        ctx.data['clamp_identity'] = lambda tv, mn: not isinstance(mn, (STensor, SymInt)) and mn <= 1e-12
        conf = L('acetn.ipeps.ipeps_config', 'EvolutionConfig')(update_type='simple')
        u = cls(net, Gates(net.d, dtype, wrap), conf)
        W = Weights(nx, ny, net.D, dtype.to_real())
        u.lambda_tensors = weights_by_contract(L, W)
        u.bond_update(b)
        for _, w in W.sets:
            shape_is(ctx, w, (net.D,), 'simple update: the weight keeps the bond dimension')
            ctx.check((w.dtype is dtype.to_real(), f'{w.dtype}'), 'simple update: the weight is real')
        after(ctx, net, b, 'simple update')
    return fn


# ------------------------------------------------------------------ operations made of these

def public(name, use):
    """Public operations change tensors only through moves, bond updates and the initialisation."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        m = L.mods['acetn.ipeps.ipeps'].__dict__
        ip = Ipeps(config(d=2, ctmrg=ct.SymDict({'steps': ivar('sw', 0), 'disable_progressbar': True}), evolution=ct.SymDict({'update_type': 'simple', 'disable_progressbar': True})))
        tr = Trace()
        mover = Mover(ctx, ip, tr)
        rename(L, L('acetn.renormalization.directional_mover', 'DirectionalMover'), mover)
        L('acetn.evolution.evolve')
        rename(L, L('acetn.evolution.simple_update', 'SimpleUpdater'), lambda *a: Bonds(tr))
        rename(L, L('acetn.evolution.gate', 'Gate'), lambda *a: None)
        s = cell(ctx, ip.nx, ip.ny)

        class M:
            dtype, device, params = F64, st.CPU, {}

            def initial_site_state(self, site):
                return ct.SymVector(leaf('state', (site[0], site[1]), (2,), F64).tv)
        # the state is set up once, by evolve
        ip.initialize_site_tensors(M().initial_site_state)
        old = {sl: t.tv for sl, t in slots_of(ip[s]).items()}
        old_dims = {k: ip.dims[k] for k in ('bond', 'phys')}
        use(ctx, L, ip, M)
        now = slots_of(ip[s])
        for sl in now:
            eq(ctx, now[sl], old[sl], f'{name}: {sl[0]}[{sl[1]}] changed by moves and bond updates only', F64)
        for k in old_dims:
            int_eq(ctx, ip.dims[k], old_dims[k], f'{name}: dimension {k} kept')
        end(ctx)
    return fn


class Bonds:
    def __init__(self, trace):
        self.trace = trace

    def bond_update(self, b):
        self.trace.add('update', b)
        return 0.5, 0.25

    def finalize(self):
        pass

    def __getattr__(self, n):
        raise Unsupported(f'updater.{n} has no contract')


def use_chi(ctx, L, ip, M):
    c = ivar('newchi', 1)
    ip.set_chi(c)
    int_eq(ctx, ip.dims['chi'], c, 'set_chi: the new dimension')


def use_renormalize(ctx, L, ip, M):
    ip.renormalize()


def use_evolve(ctx, L, ip, M):
    type(ip).bond_list = OrderedAttr(Ordered(ivar('nb', 1), lambda i: bond_at(L, i)))
    ip.evolve(0.1, ivar('steps', 0), M())


def units(tier):
    us = []
    fi = [S + n for n in ('__init__', '__setitem__', '__getitem__', 'initialize_site_tensor', 'initialize_corner_tensors', 'initialize_edge_tensors', 'bond_permute')] + [N + n for n in ('__init__', 'setup_tensor_network', 'initialize_site_tensors')]
    for dn in DT:
        for how in ('fresh', 'states', 'environment'):
            for dev in ((st.CPU, CUDA) if dn in ('float64', 'complex64') else (st.CPU,)):
                us.append(Unit(f'initialisation/{how}/{dn}/{dev.type}', start(DT[dn], dev, how), fi))
        for gn in DT:
            if DT[dn].is_complex or not DT[gn].is_complex:
                us.append(Unit(f'assignment/{gn} to {dn}', assigned(DT[dn], CUDA if dn == 'complex128' else st.CPU, DT[gn]), fi[1:3]))
    fm = ['__init__', 'renormalize_boundary', 'renormalize_cj1', 'renormalize_cj2', 'renormalize_ej']
    fp = [c07.PR + n for n in ('__init__', 'set_calculate', 'make_quarter_tensor', 'contract_half_system', 'contract_full_system', 'calculate_projectors', 'calculate_half_system', 'calculate_full_system', 'svd')]
    ft = [c14.TU + n for n in ('update', 'permute_bond_tensors', 'bond_permutation', 'decompose_site_tensors', 'recompose_site_tensors')]
    ff = ft + [c14.FU + 'FullUpdater.' + n for n in ('tensor_update', 'update_reduced_tensors', 'precondition_norm_tensor', 'finalize_reduced_tensors')] + [c14.FU + n for n in ('build_norm_tensor', 'positive_approx', 'gauge_fix')] + [c14.FF + 'bond_update', c14.FF + 'absorb_bond']
    for dn in DT:
        for k in range(4):
            us.append(Unit(f'{MOVES[k]} move/{dn}', move(k, DT[dn]), [DM + n for n in fm + [f'{MOVES[k]}_move', f'calculate_{MOVES[k]}_projectors']], assumes=['at least one singular value is above the cutoff']))
            for kind in ('half-system', 'full-system'):
                for svd_type in ('full-rank', 'rsvd'):
                    us.append(Unit(f'projectors/{kind}/{svd_type}/k={k}/{dn}', projectors(k, kind, svd_type, DT[dn]), fp))
    for dn in DT:
        for k in range(4):
            for gauge in (True, False):
                us.append(Unit(f'full update/k={k}/{"gauge fixed" if gauge else "plain"}/{dn}', full(k, DT[dn], gauge, True), ff, assumes=['ALSSolver returns tensors of the requested shape (C16)']))
        for k in (1, 2):
            for wrap in (True, False):
                us.append(Unit(f'simple update/k={k}/{"wrapped" if wrap else "separate"} one-site terms/{dn}', simple(k, DT[dn], wrap), ft[1:] + ['acetn/evolution/simple_update.py:SimpleUpdater.bond_update', 'acetn/evolution/lambda_tensors.py:LambdaTensors.absorb', 'acetn/evolution/lambda_tensors.py:LambdaTensors.strip']))
        us.append(Unit(f'full update/separate one-site terms/{dn}', full(2, DT[dn], True, False), ff, assumes=['ALSSolver returns tensors of the requested shape (C16)']))
    us.append(Unit('set_chi', public('set_chi', use_chi), [IP + 'set_chi']))
    us.append(Unit('renormalize', public('renormalize', use_renormalize), [IP + 'renormalize', c06.CT]))
    us.append(Unit('evolve', public('evolve', use_evolve), [IP + 'evolve', 'acetn/evolution/evolve.py:evolve']))
    return us
