import itertools
import types
from .lib import *
from .net import Net
from .c03 import source, same_site, given, Held, PARTS, part
from .c18 import config
from .c12 import Terms, spec as gate_spec
from acev.conts import SymDict, SymList, state_of

F = 'acetn/ipeps/tensor_network.py:TensorNetwork.'
S = 'acetn/ipeps/site_tensor.py:SiteTensor.'
IP = 'acetn/ipeps/ipeps.py:Ipeps.'
GA = 'acetn/evolution/gate.py:Gate.'
CUDA = st.device('cuda', 0)


# ------------------------------------------------------------------ what an object can reach

def reach(root, skip=()):
    """Everything that can be changed and is reachable from an object: id -> (path, object).  Classes, functions and
    frozen records are not followed; class attributes that can be changed are."""
    found, todo = {}, [('', root)]
    while todo:
        path, x = todo.pop()
        if isinstance(x, STensor):
            found.setdefault(id(x._st), (path, x._st))
            continue
        if path.endswith('.config.TN'):      # the caller's lattice section, kept but never used or changed after construction
            continue
        if x is None or isinstance(x, (int, float, str, complex, bool, st.dtype, st.device, SymInt, T.TV, type, types.ModuleType)) or any(x is s for s in skip):
            continue
        if isinstance(x, (tuple, frozenset)):
            todo += [(path, y) for y in x]
            continue
        if isinstance(x, types.FunctionType):
            todo += [(path + '.<default>', y) for y in (x.__defaults__ or ())]
            for c in x.__closure__ or ():
                try:
                    todo.append((path + '.<cell>', c.cell_contents))
                except ValueError:
                    pass
            continue
        if id(x) in found:
            continue
        if isinstance(x, SymDict):
            found[id(x)] = (path, x)
            for p in x.log:
                todo += [(path + '[key]', p[1] if p[0] == 'e' else p[2]), (path + '[value]', p[2] if p[0] == 'e' else p[3])]
            todo += [(path + '[value]', m[2]) for m in x.made]
        elif isinstance(x, SymList):
            found[id(x)] = (path, x)
            todo += [(path + '[item]', p[1] if p[0] == 'e' else p[2]) for p in x.parts] if x.parts is not None else [(path + '[item]', y) for y in list.__iter__(x)]
        elif isinstance(x, (dict,)):
            found[id(x)] = (path, x)
            todo += [(path + '[value]', y) for y in x.values()]
        elif isinstance(x, (list, set)):
            found[id(x)] = (path, x)
            todo += [(path + '[item]', y) for y in x]
        elif hasattr(x, '__dict__'):
            t = type(x)
            if not getattr(getattr(t, '__dataclass_params__', None), 'frozen', False):
                found[id(x)] = (path, x)
            todo += [(f'{path}.{k}', y) for k, y in x.__dict__.items() if k != '_acev_birth']
            for c in t.__mro__:
                if getattr(c, '_acev_inst', False):
                    todo += [(f'{path}.{k}', y) for k, y in c.__dict__.items() if isinstance(y, (SymDict, SymList, dict, list, set, STensor)) and not k.startswith('__')]
    return found


def apart(ctx, a, b, name, skip=()):
    """Nothing that can be changed is reachable from both."""
    ra, rb = reach(a, skip), reach(b, skip)
    shared = sorted(f'{ra[i][0]} and {rb[i][0]}' for i in ra if i in rb)
    return ctx.check((not shared, f'shared: {shared[:4]}'), f'{name}: nothing is shared')


def tick():
    return st._tick()


# ------------------------------------------------------------------ site tensors

def assign(dtype, own):
    """Tensors handed in are copied: any sizes, equal or different dtype."""
    def fn(ctx):
        L = Loader()
        ST = L('acetn.ipeps.site_tensor', 'SiteTensor')
        dims = SymDict({'bond': ivar('D', 1), 'phys': ivar('d', 1), 'chi': ivar('chi', 1)})
        s = ST(dims, site_tensor=given('0', own), dtype=own, device=st.CPU)
        g = given('', dtype)
        one = g['C'][0]
        cs = [one, one, g['C'][2], g['C'][3].transpose(0, 1)]
        want = {('A', 0): g['A'].to(own).tv, **{('C', k): cs[k].to(own).tv for k in range(4)}, **{('E', k): g['E'][k].to(own).tv for k in range(4)}}
        handed = SymList(cs)
        s['A'], s['C'], s['E'] = g['A'], handed, g['E']
        stores = [part(s, *pk)._st for pk in PARTS]
        ctx.check((len({id(x) for x in stores}) == 9, ''), 'nine tensors of their own')
        apart(ctx, s, [g['A'], handed, g['E']], 'assigned tensors', skip=(dims,))
        for t in [g['A']] + cs[1:] + list(g['E']):
            t.mul_(3.)
        handed[0] = None
        g['E'].clear()
        for pk in PARTS:
            eq(ctx, part(s, *pk), want[pk], f'{pk[0]}[{pk[1]}]: later changes of what was handed in do not reach the site', own)
        # replacing one tensor of a site does not change what was handed in before
        s['C'][1] = leaf('other', (), (2, 2), own)
        ctx.check((handed[1] is one and handed[0] is None, ''), "the caller's list is not the site's list")
        end(ctx)
    return fn


def site_copies(dtype, how):
    def fn(ctx):
        L = Loader()
        ST = L('acetn.ipeps.site_tensor', 'SiteTensor')
        dims = SymDict({'bond': ivar('D', 1), 'phys': ivar('d', 1), 'chi': ivar('chi', 1)})
        s = ST(dims, site_tensor=given('', dtype), dtype=dtype, device=st.CPU)
        if how == 'copy':
            r = s.copy()
        elif how == 'to()':
            r = s.to()
        elif how == 'to same':
            r = s.to(dtype=dtype, device=st.CPU)
        elif how == 'to other':
            r = s.to(dtype=C128, device=CUDA)
        elif how == 'constructor':
            r = ST(dims, site_tensor=s, dtype=dtype, device=st.CPU)
        else:
            r = ST(dims, site_tensor=given('1', dtype), dtype=dtype, device=st.CPU)
            r.copy_from(s)
        apart(ctx, r, s, how, skip=(dims,))
        for a, b in ((r, s), (s, r)):
            held = Held(a)
            for pk in PARTS:
                part(b, *pk).mul_(2.)
            b['C'] = [leaf('n', (k,), (2, 3), dtype) for k in range(4)]
            b['E'][2] = leaf('m', (), (2, 2, 2, 2), dtype)
            for pk in PARTS:
                eq(ctx, part(a, *pk), held.t[pk][2], f'{how}: changes of one do not reach the other', a.dtype)
        end(ctx)
    return fn


def fresh(dtype):
    """Initialisation: every tensor of every site is new, the state handed in is kept unchanged."""
    def fn(ctx):
        L = Loader()
        ST = L('acetn.ipeps.site_tensor', 'SiteTensor')
        d = 3
        dims = SymDict({'bond': ivar('D', 2), 'phys': d, 'chi': ivar('chi', 1)})
        state = SymList([0.5, 0.25, 1.])
        s = ST(dims, site_state=state, dtype=dtype, device=st.CPU)
        t = ST(dims, site_state=state, dtype=dtype, device=st.CPU)
        ctx.check((list(state) == [0.5, 0.25, 1.], ''), 'the state handed in is unchanged')
        apart(ctx, s, t, 'two initialised sites', skip=(dims,))
        u, v = ST(dims, dtype=dtype, device=st.CPU), ST(dims, dtype=dtype, device=st.CPU)
        apart(ctx, u, v, 'two sites in the default state', skip=(dims,))
        held = Held(s)
        for pk in PARTS:
            part(t, *pk).mul_(2.)
        t.initialize_corner_tensors()
        t.initialize_edge_tensors()
        t.initialize_site_tensor(state)
        held.check(ctx, 'other site')
        end(ctx)
    return fn


# ------------------------------------------------------------------ networks

def user_config(nx, ny, dims=None, params=None):
    c = SymDict({'dtype': 'float64', 'device': 'cpu', 'TN': SymDict({'nx': nx, 'ny': ny, 'dims': dims or SymDict({'phys': 2, 'bond': ivar('D', 1), 'chi': ivar('chi', 1)})}),
                 'model': SymDict({'name': 'ising', 'params': params or SymDict({'jz': 1., 'hx': 0.5})}),
                 'ctmrg': SymDict({'steps': 3}), 'evolution': SymDict({'als_niter': 4})})
    return c


HOWS = ('same config', 'shared parts', 'from network', 'copy', 'to', 'copy of copy')


def pair(ctx, L, nx, ny, how):
    """A network and another one made in one of the public ways; the tick between the two."""
    Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
    cfg = user_config(nx, ny)
    a = Ipeps(cfg)
    t = tick()
    cfgs = [cfg]
    if how == 'same config':
        b = Ipeps(cfg)
    elif how == 'shared parts':
        cfgs.append(user_config(nx, ny, cfg['TN']['dims'], cfg['model']['params']))
        b = Ipeps(cfgs[1])
    elif how == 'from network':
        cfgs.append(user_config(nx, ny))
        b = Ipeps(cfgs[1], a)
    elif how == 'copy':
        b = a.copy()
    elif how == 'to':
        b = a.to(dtype=F64)
    else:
        b = a.copy().copy()
    return a, b, t, cfgs


def built(how, small=None):
    def fn(ctx):
        L = Loader()
        nx, ny = small or (ivar('nx', 1), ivar('ny', 1))
        a, b, t, cfgs = pair(ctx, L, nx, ny, how)
        apart(ctx, a, b, how)
        for c in cfgs:
            apart(ctx, a, c, f"{how}: caller's configuration")
            apart(ctx, b, c, f"{how}: caller's configuration")
        sites = [(x, y) for x in range(nx) for y in range(ny)] if small else [cell(ctx, nx, ny)]
        for s in sites:
            ctx.check((a[s] is not b[s] and b[s].birth > t and a[s].birth < t, ''), f'{how}: a site object of its own at every site')
        apart(ctx, a, b, f'{how}, sites looked at')
        if small:
            # all sites apart within each network as well
            for n in (a, b):
                for i, s in enumerate(sites):
                    for u in sites[:i]:
                        ra, rb = reach(n[s], (n.dims,)), reach(n[u], (n.dims,))
                        ctx.check((not set(ra) & set(rb), ''), 'sites of a network have tensors of their own')
        end(ctx)
    return fn


class Model_:
    pass


def ops(L):
    count = itertools.count()
    """Public operations on a network, at an arbitrary site."""
    m = L.mods['acetn.ipeps.ipeps'].__dict__

    def models():
        M = L('acetn.model.model', 'Model')

        class Mine(M):
            def two_site_hamiltonian(self, bond):
                return None

            def initial_site_state(self, site):
                return [0., 1.]
        return Mine

    def set_chi(n, s):
        n.set_chi(n.dims['chi'] + 3)

    def set_params(n, s):
        n.set_model_params(hx=7., jz=9., other=1.)

    def set_model(n, s):
        n.set_model(models(), SymDict({'q': 1.}))

    def set_named_model(n, s):
        n.set_model(models(), SymDict({'q': 1.}), f'own{next(count)}')

    def init(n, s):
        n.initialize_site_tensors(lambda site: [0., 1.])

    def dims(n, s):
        n.dims['chi'] = 7
        n.dims['bond'] = 5

    def reverse(n, s):
        n.bond_list.reverse()
        n.site_list.reverse()

    def assign_site(n, s):
        n[s] = n[s].copy()
        n[s]['A'] = leaf('new', (), (2, 2, 2, 2, 2), n.dtype)

    def assign_tensors(n, s):
        n[s]['A'] = leaf('new', (), (2, 2, 2, 2, 2), n.dtype)
        n[s]['C'] = [leaf('newc', (k,), (2, 2), n.dtype) for k in range(4)]
        n[s]['E'][1] = leaf('newe', (), (2, 2, 2, 2), n.dtype)

    def in_place(n, s):
        for pk in PARTS:
            part(n[s], *pk).mul_(5.)
        n[s]['A'] += 1.

    def save(n, s):
        n.save('f.pt')

    def load(n, s):
        o = L('acetn.ipeps.ipeps', 'Ipeps')(user_config(n.nx, n.ny))
        o.save('g.pt')
        n.load('g.pt')

    def evolve(n, s):
        # the algorithm steps write to the network they are given (frames of C05, C06, C14, C18)
        def change(ipeps, *a, **k):
            for pk in PARTS:
                part(ipeps[s], *pk).mul_(5.)
        old = {k: m[k] for k in ('evolve', 'ctmrg')}
        m['evolve'] = m['ctmrg'] = change
        n.evolve(0.1, 1)
        n.renormalize()
        m.update(old)

    all_ = [set_chi, set_params, set_model, set_named_model, init, dims, reverse, assign_site, assign_tensors, in_place, save, load, evolve]
    return {f.__name__: f for f in all_}


OPS = ('set_chi', 'set_params', 'set_model', 'set_named_model', 'init', 'dims', 'reverse', 'assign_site', 'assign_tensors', 'in_place', 'save', 'load', 'evolve')
ONLY_IPEPS = ('set_chi', 'set_params', 'set_model', 'set_named_model', 'evolve')


class Look:
    """A network as it is now, at one site."""

    def __init__(self, L, net, s):
        self.L, self.net, self.s = L, net, s
        self.obj = net[s]
        self.held = Held(self.obj)
        self.dims = [(k, v) for k, v in net.dims.items()]
        self.lists = [(length(l), state_of(l)) for l in (net.site_list, net.bond_list)]
        self.model = self.models()

    def models(self):
        if not hasattr(self.net, 'config'):
            return None
        c = self.net.config.model
        return c.name, sorted((k, v) for k, v in c.params.items()), type(self.L('acetn.model.model_factory', 'model_factory').create(c))

    def check(self, ctx, name):
        n = self.net
        ctx.check((n[self.s] is self.obj, ''), f'{name}: the other network keeps its site')
        for pk in PARTS:
            eq(ctx, part(n[self.s], *pk), self.held.t[pk][2], f'{name}: {pk[0]}[{pk[1]}] of the other network unchanged', self.held.t[pk][3])
        for k, v in self.dims:
            int_eq(ctx, n.dims[k], v, f'{name}: dimension {k} of the other network unchanged')
        ctx.check((self.lists == [(length(l), state_of(l)) for l in (n.site_list, n.bond_list)], ''), f'{name}: lists of the other network unchanged')
        ctx.check((self.models() == self.model, f'{self.model} {self.models()}'), f'{name}: model of the other network unchanged')


def deep(c):
    return {k: deep(v) if isinstance(v, SymDict) else v for k, v in c.items()}


def isolation(op, how):
    """An operation on one network leaves the other one, its model and the caller's configurations as they were."""
    def fn(ctx):
        L = Loader()
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        a, b, t, cfgs = pair(ctx, L, nx, ny, how)
        s = cell(ctx, nx, ny)
        f = ops(L)[op]
        before = [deep(c) for c in cfgs]
        la, lb = Look(L, a, s), Look(L, b, s)
        f(a, s)
        lb.check(ctx, f'{op} ({how})')
        ctx.check(([deep(c) for c in cfgs] == before, ''), f"{op} ({how}): the caller's configuration is unchanged")
        if hasattr(b, 'config') or op not in ONLY_IPEPS:
            la = Look(L, a, s)
            f(b, s)
            la.check(ctx, f'{op} ({how}), the other way')
            ctx.check(([deep(c) for c in cfgs] == before, ''), f"{op} ({how}): the caller's configuration is unchanged")
        later = L('acetn.ipeps.ipeps', 'Ipeps')(user_config(nx, ny))
        ctx.check((sorted((k, v) for k, v in later.config.model.params.items()) == [('hx', 0.5), ('jz', 1.)] and later.config.model.name == 'ising', ''), f'{op}: later networks have the model configured')
        int_eq(ctx, later.dims['chi'], ivar('chi', 1), f'{op}: later networks have the boundary dimension configured')
        apart(ctx, a, b, f'{op} ({how}): after the operations')
        end(ctx)
    return fn


def models(names, same=False, given=(('q', 1.),)):
    """Networks with models of their own keep them; the parameters handed in are copied."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        factory = L('acetn.model.model_factory', 'model_factory')
        M = L('acetn.model.model', 'Model')
        cls = []
        for i in range(3):
            class Mine(M):
                def two_site_hamiltonian(self, bond):
                    return None
            cls.append(Mine)
        if same:
            cls = cls[:1] * 3
        nets = [Ipeps(user_config(ivar('nx', 1), ivar('ny', 1))) for _ in range(4)]
        first = dict(given)
        p = SymDict(first)
        for n, c, name in zip(nets, cls, names):
            n.set_model(c, p, name) if name else n.set_model(c, p)

        def kept(when):
            try:
                got = [factory.create(n.config.model) for n in nets]
                ok = all(type(g) is c for g, c in zip(got, cls)) and type(got[3]).__name__ == 'IsingModel'
            except (ValueError, KeyError):
                ok = False
            ctx.check((ok, ''), f'{when}every network has the model it was given')
        kept('')
        nets[1].set_model_params(q=5., r=2.)
        ctx.check((dict(p.items()) == first, ''), "the caller's parameters are unchanged")
        p['q'] = 8.
        for i in (0, 2):
            ctx.check((dict(nets[i].config.model.params.items()) == first, ''), 'parameters of other networks unchanged')
        ctx.check((dict(nets[1].config.model.params.items()) == {'q': 5., 'r': 2.}, ''), 'parameters set')
        nets[0].config.model.params['q'] = 3.
        ctx.check((p['q'] == 8. and dict(nets[2].config.model.params.items()) == first, ''), "the caller's parameters are unchanged")
        nets[1].set_model(cls[1], SymDict({'z': 4.}))
        ctx.check(([dict(n.config.model.params.items()) for n in nets[:3]] == [{**first, 'q': 3.}, {'z': 4.}, first], ''), 'a network given another model leaves the parameters of the others')
        kept('after one was given a model again, ')
        end(ctx)
    return fn


# ------------------------------------------------------------------ gates

def gates(form, dtype):
    """Gate sets of two evolutions, of different models, time steps and cells."""
    def fn(ctx):
        L = Loader()
        Gate = L('acetn.evolution.gate', 'Gate')
        TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')
        Bond = L('acetn.ipeps.bond', 'Bond')
        d = ivar('d', 1)
        ta, tb = st.real_param('dtau', 0), st.real_param('dtau2', 0)

        class N:
            pass
        na, nb = N(), N()
        na.nx, na.ny = ivar('nx', 1), ivar('ny', 1)
        nb.nx, nb.ny = na.nx + ivar('mx', 0), na.ny + ivar('my', 1)
        la, lb = [(TN.build_bond_list(n), TN.build_site_list(n)) for n in (na, nb)]

        class Other(Terms):
            def O(self, n, s):
                return super().O(n + 'o', s)

            def OO(self, n, b):
                return super().OO(n + 'o', b)
        ma, mb = Terms(d, dtype, form, lambda s: True), Other(d, dtype, form, lambda s: True)
        ga = Gate(ma, ta, *la)
        t = tick()
        s = cell(ctx, na.nx, na.ny)
        b = Bond(s, (imod(s[0] + 1, na.nx), s[1]), 2)
        first = ga[b].tv
        eq(ctx, ga[b], gate_spec(ma, b, ta, d, dtype), 'gate of the first set', dtype)
        gb = Gate(mb, tb, *lb)
        apart(ctx, ga, gb, 'gate sets')
        eq(ctx, ga[b], first, 'gates of the first set unchanged when another set is built', dtype)
        top = Bond((0, nb.ny - 1), (imod(1, nb.nx), nb.ny - 1), 2)
        try:
            gb[top]
            inside = True
        except KeyError:
            inside = False
        ctx.check((inside, ''), 'the second set has its own bonds')
        try:
            ga[top]
            leak = True
        except KeyError:
            leak = False
        ctx.check((not leak, ''), 'gates of one evolution do not appear in another')
        gb[b] = leaf('G', (), (d,) * 4, dtype)
        eq(ctx, ga[b], first, 'gates of the first set unchanged when one of another is replaced', dtype)
        gb[b].mul_(2.)
        gb[top].mul_(2.)
        eq(ctx, ga[b], first, 'gates of the first set unchanged when those of another are', dtype)
        for m in (ma, mb):
            m.untouched(ctx)
        gc = Gate(ma, ta, *la)
        apart(ctx, ga, gc, 'gate sets of one model')
        eq(ctx, gc[b], first, 'a set built again is the same', dtype)
        gc[b].mul_(2.)
        eq(ctx, ga[b], first, 'gates unchanged when those of a set of the same model are', dtype)
        empty = Gate(ma, ta)
        try:
            empty[b]
            leak = True
        except KeyError:
            leak = False
        ctx.check((not leak, ''), 'a set without bonds is empty')
        end(ctx)
    return fn


# ------------------------------------------------------------------ no state outside the objects

class Shared(Exception):
    pass


def module_state(L):
    """Contents of everything that can be changed and is held by modules, classes and default arguments."""
    r = {}
    for name, m in L.mods.items():
        if not name.startswith('acetn'):
            continue
        for k, v in list(m.__dict__.items()):
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            vs = [(f'{name}.{k}', v)]
            if isinstance(v, type) and getattr(v, '__module__', '') == name:
                vs += [(f'{name}.{k}.{a}', x.__func__ if isinstance(x, (staticmethod, classmethod)) else x.fget if isinstance(x, property) else x) for a, x in v.__dict__.items() if not a.startswith('__') or a in ('__init__', '__call__')]
            for p, x in vs:
                for i, (path, o) in reach(x).items():
                    r[i] = (p + path, o, contents(o))
    return r


def contents(o):
    if isinstance(o, st.Storage):
        return o.version
    if isinstance(o, SymDict):
        return tuple(id(p) for p in o.log)
    if isinstance(o, SymList):
        return tuple(id(p) for p in o.parts) if o.parts is not None else tuple(id(x) for x in list.__iter__(o))
    if isinstance(o, (list, set)):
        return tuple(id(x) for x in o)
    if isinstance(o, dict):
        return tuple((k, id(x)) for k, x in o.items())
    return tuple(sorted((k, id(x)) for k, x in o.__dict__.items()))


def stateless(unit):
    """An algorithm step, run as in the units of its own property: it leaves nothing behind in modules, classes or defaults."""
    def fn(ctx):
        loaders, snaps = [], []
        real = Loader.load

        def load(self, name, *a, **k):
            known = set(self.mods)
            m = real(self, name, *a, **k)
            if set(self.mods) != known:
                if self not in loaders:
                    loaders.append(self)
                snaps.append((self, module_state(self)))
            return m
        Loader.load = load
        ctx.mute = True
        try:
            unit.fn(ctx)
        finally:
            Loader.load = real
            ctx.mute = False
        n = 0
        for L, s in snaps:
            for i, (path, o, c) in s.items():
                n += 1
                if contents(o) != c and type(o).__module__.startswith(('acetn', 'acev', 'builtins')):
                    raise Unsupported(f'{path} is changed: state outside the objects')
        ctx.check((n > 0, ''), 'modules, classes and default arguments hold what they held before')
    return fn


def steps(tier):
    from . import c05, c06, c08, c09, c11, c12, c13, c14, c16, c17
    seen = {}
    for m in (c05, c06, c08, c09, c11, c12, c13, c14, c16, c17):
        for u in m.units(tier):
            if u.bounded or 'iteration' in u.name:
                continue
            key = tuple(u.functions)
            if seen.setdefault((m.__name__, key), 0) < (2 if tier == 'quick' else 8):
                seen[m.__name__, key] += 1
                yield m.__name__[-3:].upper(), u


def units(tier):
    us = []
    dts = list(DT.items())
    for dn, dt in dts:
        for on, own in dts:
            if own.is_complex or not dt.is_complex:
                us.append(Unit(f'assigned tensors/{dn} into {on}', assign(dt, own), [S + '__setitem__', S + '__getitem__']))
        for how in ('copy', 'to()', 'to same', 'to other', 'constructor', 'copy_from'):
            us.append(Unit(f'site {how}/{dn}', site_copies(dt, how), [S + 'copy', S + 'to', S + 'copy_from', S + '__init__']))
        us.append(Unit(f'initialised sites/{dn}', fresh(dt), [S + 'initialize_site_tensor', S + 'initialize_corner_tensors', S + 'initialize_edge_tensors']))
    FN = [F + '__init__', F + 'copy_from', F + 'copy', F + 'to', F + 'initialize_site_tensors', F + 'setup_tensor_network', IP + '__init__', 'acetn/ipeps/ipeps_config.py:IpepsConfig.__post_init__', 'acetn/ipeps/ipeps_config.py:ModelConfig.__post_init__']
    for how in HOWS:
        us.append(Unit(f'two networks/{how}/any cell', built(how), FN))
        for c in ((1, 1), (2, 1), (2, 2)) + (((3, 2),) if tier == 'thorough' else ()):
            us.append(Unit(f'two networks/{how}/{c[0]}x{c[1]}', built(how, c), FN, bounded=f'unit cell {c[0]}x{c[1]}'))
        for op in OPS:
            us.append(Unit(f'{op}/{how}', isolation(op, how), {'set_chi': [IP + 'set_chi'], 'set_params': [IP + 'set_model_params'], 'set_model': [IP + 'set_model'], 'set_named_model': [IP + 'set_model'], 'init': [F + 'initialize_site_tensors'],
                                                               'save': [F + 'save'], 'load': [F + 'load'], 'evolve': [IP + 'evolve', IP + 'renormalize']}.get(op, [F + '__setitem__', S + '__setitem__']),
                           assumes=['ctmrg and evolve write to the network they are given only (frames of C05, C06, C14, C18)'] if op == 'evolve' else []))
    us.append(Unit('models/unnamed', models((None, None, None)), [IP + 'set_model', IP + 'set_model_params']))
    us.append(Unit('models/named', models(('a', 'b', 'c')), [IP + 'set_model', IP + 'set_model_params']))
    us.append(Unit('models/one class', models((None, None, None), True), [IP + 'set_model', IP + 'set_model_params']))
    us.append(Unit('models/one class/no parameters', models((None, None, None), True, ()), [IP + 'set_model', IP + 'set_model_params']))
    us.append(Unit('models/no parameters', models((None, 'b', None), False, ()), [IP + 'set_model', IP + 'set_model_params']))
    us.append(Unit('models/mixed', models((None, 'b', None)), [IP + 'set_model', IP + 'set_model_params']))
    for form in ('mat', 'plain'):
        for dn, dt in (('float64', F64), ('complex128', C128)):
            us.append(Unit(f'gate sets/{form}/{dn}', gates(form, dt), [GA + '__init__', GA + 'build_one_site_gates', GA + 'build_two_site_gates', GA + 'calculate_gate', GA + '__getitem__', GA + '__setitem__']))
    for p, u in steps(tier):
        us.append(Unit(f'no state outside the objects/{p} {u.name}', stateless(u), u.functions))
    return us
