from .lib import *
from .net import Net
from .c18 import config

F = 'acetn/ipeps/tensor_network.py:TensorNetwork.'
S = 'acetn/ipeps/site_tensor.py:SiteTensor.'
IP = 'acetn/ipeps/ipeps.py:Ipeps.'
F32, C64 = st.float32, st.complex64
CUDA = st.device('cuda', 0)
PARTS = [('A', 0)] + [(p, k) for p in 'CE' for k in range(4)]


def part(s, p, k):
    return s['A'] if p == 'A' else s[p][k]


def given(tag, dtype):
    """An arbitrary site: tensors of any sizes and values."""
    v = lambda n: ivar(n + tag, 1)
    A = leaf('A' + tag, (), (v('D0'), v('D1'), v('D2'), v('D3'), v('d')), dtype)
    C = ct.SymList(leaf(f'C{k}{tag}', (), (v(f'c{k}'), v(f'f{k}')), dtype) for k in range(4))
    E = ct.SymList(leaf(f'E{k}{tag}', (), (v(f'e{k}'), v(f'g{k}'), v(f'h{k}'), v(f'j{k}')), dtype) for k in range(4))
    return Rec(A=A, C=C, E=E)


def same_site(ctx, got, want, dtype, device, name, via=None):
    """Specification: site tensor, four corners and four edges in their places, dtype and device as requested."""
    for p in 'CE':
        ctx.check((len(got[p]) == 4, f'{len(got[p])}'), f'{name}: four tensors {p}')
    for p, k in PARTS:
        g, w = part(got, p, k), part(want, p, k)
        n = f'{name}: {"site tensor" if p == "A" else f"{p}[{k}]"}'
        shape_is(ctx, g, w._sh, n + ': sizes')
        eq(ctx, g, (w if via is None else w.to(via)).to(dtype), n, dtype)
        ctx.check((g.device == device, f'{g.device}'), n + ': device')


class Held:
    """The tensors of a site as they are now."""

    def __init__(self, s):
        self.s = s
        self.t = {pk: (part(s, *pk), part(s, *pk)._st.version, part(s, *pk).tv, part(s, *pk).dtype) for pk in PARTS}

    def check(self, ctx, name):
        for pk in PARTS:
            t = part(self.s, *pk)
            o, ver, tv, dt = self.t[pk]
            eq(ctx, t, tv, f'{name}: {pk[0]}[{pk[1]}] of the source unchanged', dt)

    def __getitem__(self, p):
        f = lambda k: STensor(self.t[p, k][2], self.t[p, k][3])
        return f(0) if p == 'A' else [f(k) for k in range(4)]


def widens(a, b):
    return b.is_complex or not a.is_complex


def site(dtype, how, to, device):
    def fn(ctx):
        L = Loader()
        ST = L('acetn.ipeps.site_tensor', 'SiteTensor')
        dims = ct.SymDict({'bond': ivar('D', 1), 'phys': ivar('d', 1), 'chi': ivar('chi', 1)})
        g = given('', dtype)
        s = ST(dims, site_tensor=g, dtype=dtype, device=st.CPU)
        same_site(ctx, s, g, dtype, st.CPU, 'site made from tensors')
        held = Held(s)
        if how == 'copy':
            r = s.copy()
        elif how == 'to':
            r = s.to(dtype=to, device=device)
        elif how == 'to(dtype)':
            r = s.to(dtype=to)
        elif how == 'to(device)':
            r = s.to(device=device)
        elif how == 'to()':
            r = s.to()
        elif how == 'constructor':
            r = ST(dims, site_tensor=s, dtype=to, device=device)
        else:
            r = ST(dims, dtype=to, device=device, site_state=ct.SymVector(leaf('state', (), (dims['phys'],), F64).tv))
            r.copy_from(s)
        same_site(ctx, r, held, to, device, how)
        ctx.check((r is not s, ''), 'another object')
        for k in ('bond', 'phys', 'chi'):
            int_eq(ctx, r.dims[k], dims[k], f'{how}: dimension {k}')
        ctx.check((r.dtype is to and r.device == device, ''), f'{how}: dtype and device of the site')
        held.check(ctx, how)
        ctx.check((s.dtype is dtype and s.device == st.CPU, ''), 'dtype and device of the source unchanged')
        end(ctx)
    return fn


def lists(ctx, L, net, nx, ny, name):
    from .c01 import check_cell
    Bond = L('acetn.ipeps.bond', 'Bond')
    int_eq(ctx, length(net.site_list), nx * ny, f'{name}: number of sites')
    int_eq(ctx, length(net.bond_list), 2 * nx * ny, f'{name}: number of bonds')
    x, y = cell(ctx, nx, ny, 'l')
    ctx.check((contains(ctx, net.site_list, (x, y)), ''), f'{name}: same sites')
    ctx.check((contains(ctx, net.bond_list, Bond((x, y), (imod(x + 1, nx), y), 2)), ''), f'{name}: same horizontal bonds')
    ctx.check((contains(ctx, net.bond_list, Bond((x, y), (x, imod(y + 1, ny)), 1)), ''), f'{name}: same vertical bonds')


def source(L, nx, ny, dtype, cls=Net, **kw):
    """An arbitrary network with the lists of C01."""
    TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')

    class N(cls):
        site_list = None
        bond_list = None
    net = N(L, nx, ny, dtype, **kw)
    net.site_list = TN.build_site_list(net)
    net.bond_list = TN.build_bond_list(net)
    return net


def base(ctx, L, dtype, device=st.CPU):
    """A network built from an arbitrary one, and the arbitrary one."""
    from .lib import tn_config
    TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')
    nx, ny = ivar('nx', 1), ivar('ny', 1)
    src = source(L, nx, ny, dtype)
    return TN(src, tn_config(L, nx, ny), dtype, device), src, nx, ny


def meta(ctx, net, src, dtype, device, name):
    int_eq(ctx, net.nx, src.nx, f'{name}: width')
    int_eq(ctx, net.ny, src.ny, f'{name}: height')
    for k in ('bond', 'phys', 'chi'):
        int_eq(ctx, net.dims[k], src.dims[k], f'{name}: dimension {k}')
    ctx.check((net.dtype is dtype and net.device == device, f'{net.dtype}, {net.device}'), f'{name}: dtype and device of the network')


def built(dtype, to, device):
    """Construction from an arbitrary network."""
    def fn(ctx):
        L = Loader()
        TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        src = source(L, nx, ny, dtype)
        net = TN(src, tn_config(L, nx, ny), to, device)
        s = cell(ctx, nx, ny)
        same_site(ctx, net[s], src.initial(s), to, device, 'built from a network')
        src.check_site(ctx, s, {}, 'source')
        meta(ctx, net, src, to, device, 'built from a network')
        lists(ctx, L, net, nx, ny, 'built from a network')
        lists(ctx, L, src, nx, ny, 'source')
        end(ctx)
    return fn


def derived(dtype, how, to, device, start):
    """Copies and conversions of a network in an arbitrary state."""
    def fn(ctx):
        L = Loader()
        a, src, nx, ny = base(ctx, L, dtype, start)
        s = cell(ctx, nx, ny)
        held = Held(a[s])
        if how == 'copy':
            b = a.copy()
        elif how == 'to':
            b = a.to(dtype=to, device=device)
        elif how == 'to(dtype)':
            b = a.to(dtype=to)
        elif how == 'to(device)':
            b = a.to(device=device)
        else:
            b = a.to()
        ctx.check((b is not a, ''), f'{how}: another network')
        same_site(ctx, b[s], held, to, device, how)
        same_site(ctx, a[s], src.initial(s), dtype, start, f'{how}: source')
        meta(ctx, b, a, to, device, how)
        meta(ctx, a, src, dtype, start, f'{how}: source')
        lists(ctx, L, b, nx, ny, how)
        lists(ctx, L, a, nx, ny, f'{how}: source')
        end(ctx)
    return fn


def loaded(dtype, to, start, device, ipeps):
    """Saving and loading into a network of the same cell, in any dtype and on any device."""
    def fn(ctx):
        L = Loader()
        files = {}
        ctx.data['files'] = files
        a, src, nx, ny = base(ctx, L, dtype, start)
        s = cell(ctx, nx, ny)
        if ipeps:
            Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
            b = Ipeps(config(nx=nx, ny=ny))
            b.dtype, b.device = to, device
        else:
            TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')
            b = TN(None, tn_config(L, nx, ny), to, device)
        obj, flag = a[s], getattr(a, 'site_states_initialized', None)
        a.save('f.pt')
        ctx.check((a[s] is obj and getattr(a, 'site_states_initialized', None) is flag, ''), 'saving: the source keeps its sites and its kind of state')
        if ipeps:
            c = Ipeps(config(nx=nx, ny=ny))
            obj, flag = c[s], c.site_states_initialized
            c.save('h.pt')
            c.copy(), c.to(dtype=C128)
            ctx.check((c[s] is obj and c.site_states_initialized is flag, ''), 'saving and copying: the source keeps its sites and its kind of state')
            files.pop('h.pt')
        ctx.check((list(files) == ['f.pt'], f'{list(files)}'), 'the file named is written')
        same_site(ctx, a[s], src.initial(s), dtype, start, 'saving: source')
        meta(ctx, a, src, dtype, start, 'saving: source')
        lists(ctx, L, a, nx, ny, 'saving: source')
        b.load('f.pt')
        same_site(ctx, b[s], src.initial(s), to, device, 'loaded')
        ctx.check((b.dtype is to and b.device == device, ''), 'loaded: dtype and device of the network')
        ctx.check((b.site_states_initialized is True, ''), 'a loaded state counts as given')
        lists(ctx, L, b, nx, ny, 'loaded')
        same_site(ctx, a[s], src.initial(s), dtype, start, 'loading: source')
        # second round
        b.save('g.pt')
        a.load('g.pt')
        if widens(to, dtype):
            same_site(ctx, a[s], src.initial(s), dtype, start, 'second round', to)
        same_site(ctx, b[s], src.initial(s), to, device, 'second round: source')
        end(ctx)
    return fn


def ipeps(dtype, to):
    """Ipeps(config, network)."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        nx, ny = ivar('nx', 1), ivar('ny', 1)
        src = source(L, nx, ny, dtype)
        c = config(nx=nx, ny=ny)
        c['dtype'] = to.name
        ip = Ipeps(c, src)
        s = cell(ctx, nx, ny)
        same_site(ctx, ip[s], src.initial(s), to, st.CPU, 'Ipeps built from a network')
        src.check_site(ctx, s, {}, 'source')
        meta(ctx, ip, src, to, st.CPU, 'Ipeps built from a network')
        lists(ctx, L, ip, nx, ny, 'Ipeps built from a network')
        ctx.check((ip.site_states_initialized is True, ''), 'a given state counts as given')
        b = ip.copy()
        same_site(ctx, b[s], src.initial(s), to, st.CPU, 'copy of it')
        same_site(ctx, ip[s], src.initial(s), to, st.CPU, 'copied: source')
        end(ctx)
    return fn


def precise(fn):
    """Narrowing conversions round (elsewhere they are the identity)."""
    def g(ctx):
        ctx.data['rounding'] = True
        return fn(ctx)
    return g


def units(tier):
    us = []
    dts = list(DT.items())
    A = ['narrowing to single precision is one fixed, idempotent, elementwise function; widening keeps the values']
    for dn, dt in dts:
        us.append(Unit(f'site/copy/{dn}', site(dt, 'copy', dt, st.CPU), [S + 'copy', S + 'copy_from', S + '__init__', S + '__setitem__', S + '__getitem__']))
        us.append(Unit(f'site/to()/{dn}', site(dt, 'to()', dt, st.CPU), [S + 'to']))
        us.append(Unit(f'site/to(device)/{dn}', site(dt, 'to(device)', dt, CUDA), [S + 'to']))
        us.append(Unit(f'copy/{dn}', derived(dt, 'copy', dt, st.CPU, st.CPU), [F + 'copy', F + 'copy_from', F + '__init__', F + 'setup_tensor_network', F + '__getitem__', F + '__setitem__']))
        us.append(Unit(f'copy on another device/{dn}', derived(dt, 'copy', dt, CUDA, CUDA), [F + 'copy']))
        us.append(Unit(f'to()/{dn}', derived(dt, 'to()', dt, CUDA, CUDA), [F + 'to']))
        us.append(Unit(f'to(device)/{dn}', derived(dt, 'to(device)', dt, CUDA, st.CPU), [F + 'to']))
        us.append(Unit(f'to(device) back/{dn}', derived(dt, 'to(device)', dt, st.CPU, CUDA), [F + 'to']))
        for tn, to in dts:
            if not widens(dt, to):
                continue
            us.append(Unit(f'site/constructor/{dn} to {tn}', site(dt, 'constructor', to, CUDA), [S + '__init__', S + 'copy_from'], assumes=A))
            us.append(Unit(f'site/copy_from/{dn} to {tn}', site(dt, 'copy_from', to, st.CPU), [S + 'copy_from'], assumes=A))
            us.append(Unit(f'site/to/{dn} to {tn}', site(dt, 'to', to, CUDA), [S + 'to'], assumes=A))
            us.append(Unit(f'site/to(dtype)/{dn} to {tn}', site(dt, 'to(dtype)', to, st.CPU), [S + 'to'], assumes=A))
            us.append(Unit(f'built/{dn} to {tn}', built(dt, to, CUDA if dt is not to else st.CPU), [F + '__init__', F + 'setup_tensor_network', F + 'copy_from'], assumes=A))
            us.append(Unit(f'to/{dn} to {tn}', derived(dt, 'to', to, CUDA, st.CPU), [F + 'to', F + 'copy_from'], assumes=A))
            us.append(Unit(f'to(dtype)/{dn} to {tn}', derived(dt, 'to(dtype)', to, CUDA, CUDA), [F + 'to'], assumes=A))
            us.append(Unit(f'Ipeps from a network/{dn} to {tn}', ipeps(dt, to), [IP + '__init__', F + 'copy_from'], assumes=A))
            for start, device in ((st.CPU, st.CPU), (CUDA, st.CPU), (CUDA, CUDA), (st.CPU, CUDA)):
                if (start, device) != (st.CPU, st.CPU) and dt is not to:
                    continue
                us.append(Unit(f'save and load/{dn} to {tn}/{start.type} to {device.type}', loaded(dt, to, start, device, False), [F + 'save', F + 'load', F + 'to', F + '__setitem__', S + 'to'],
                               assumes=A + ['torch.save/torch.load keep the pickled objects']))
            if to is dt:
                us.append(Unit(f'save and load an Ipeps/{dn} to {tn}', loaded(dt, to, st.CPU, st.CPU, True), [F + 'save', F + 'load'], assumes=A))
    for u in us:
        u.fn = precise(u.fn)
    return us
