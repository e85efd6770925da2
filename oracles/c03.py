from .common import *


def compare(rep, a, b, what, dtype=None, device='cpu', tol=0):
    import torch
    dtype = dtype or a.dtype
    rep.check(sorted(a.site_list) == sorted(b.site_list) and list(a.site_list) == list(b.site_list), f'{what}: same site list')
    rep.check(list(a.bond_list) == list(b.bond_list), f'{what}: same bond list')
    rep.check((a.nx, a.ny) == (b.nx, b.ny) and dict(a.dims) == dict(b.dims), f'{what}: same cell and dimensions')
    for s in a.site_list:
        compare_site(rep, a[s], b[s], f'{what} at {s}', dtype)
    rep.check(b.dtype == dtype, f'{what}: dtype attribute', got=b.dtype)


def compare_site(rep, x, y, what, dtype):
    rep.check(x is not y, f'{what}: distinct objects')
    for t, u, n in [(x['A'], y['A'], 'A')] + [(x['C'][k], y['C'][k], f'C[{k}]') for k in range(4)] + [(x['E'][k], y['E'][k], f'E[{k}]') for k in range(4)]:
        rep.check(u.dtype == dtype, f'{what}: dtype of {n}', got=u.dtype, want=dtype)
        rep.check(str(u.device) == 'cpu', f'{what}: device of {n}')
        rep.check(t.shape == u.shape, f'{what}: shape of {n}', got=u.shape, want=t.shape)
        rep.check(bool((t.to(dtype) == u).all()), f'{what}: values of {n}')
        rep.check(t.data_ptr() != u.data_ptr(), f'{what}: {n} has its own memory')
    rep.check(len(y['C']) == 4 and len(y['E']) == 4, f'{what}: four corners and edges')
    rep.check(dict(x.dims) == dict(y.dims), f'{what}: dims')


def roundtrip(rep, nx, ny, D, d, dtype, seed):
    import tempfile
    import torch
    from acetn.ipeps import Ipeps
    ip = randomize(mk(nx, ny, D, d, 4, dtype), seed)
    if nx * ny > 1:
        ip.bond_list.reverse()
    before = snap(ip)
    b0, s0 = list(ip.bond_list), list(ip.site_list)
    compare(rep, ip, ip.copy(), 'copy')
    compare(rep, ip, Ipeps(config(nx, ny, D, d, 4, dtype), ip), 'construction from a network')
    targets = ['complex128', 'complex64', 'float64', 'float32'] if not dtype.startswith('complex') else ['complex128', 'complex64']
    for t in targets:
        compare(rep, ip, ip.to(dtype=tdtype(t)), f'to({t})', tdtype(t))
        s = ip.site_list[-1]
        compare_site(rep, ip[s], ip[s].to(dtype=tdtype(t)), f'site to({t})', tdtype(t))
    compare(rep, ip, ip.to(device=torch.device('cpu')), 'to(device)')
    for s in ip.site_list:
        compare_site(rep, ip[s], ip[s].copy(), f'site copy {s}', ip.dtype)
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'n.pt')
        ip.save(f)
        check_same(rep, before, ip, 'save')
        rep.check(list(ip.bond_list) == b0 and list(ip.site_list) == s0, 'save changed the lists of the source')
        for dt2 in {dtype, 'complex128', 'complex64' if dtype.startswith('complex') else 'float32'}:
            o = mk(nx, ny, D, d, 4, dt2)
            o.load(f)
            for s in ip.site_list:
                compare_site(rep, ip[s], o[s], f'load as {dt2} at {s}', tdtype(dt2))
            # a loaded network can go on
        o = randomize(mk(nx, ny, D, d, 4, dtype), seed + 1)
        o.load(f)
        for s in ip.site_list:
            compare_site(rep, ip[s], o[s], f'load over another network at {s}', ip.dtype)
        rep.check(o.site_states_initialized is True, 'a loaded state counts as initialised')
        g = os.path.join(tmp, 'm.pt')
        o.save(g)
        p = mk(nx, ny, D, d, 4, dtype)
        p.load(g)
        for s in ip.site_list:
            compare_site(rep, ip[s], p[s], f'second round trip at {s}', ip.dtype)
    check_same(rep, before, ip, 'copying')
    rep.check(list(ip.bond_list) == b0 and list(ip.site_list) == s0, 'copying changed the lists of the source')


def run(rep):
    dts = ['float64', 'complex128', 'float32', 'complex64']
    i = 0
    for (nx, ny, D, d) in [(1, 1, 2, 2), (2, 2, 2, 2), (1, 2, 2, 3), (3, 2, 2, 2), (2, 3, 3, 2), (2, 1, 1, 2)]:
        for dt in (dts if rep.thorough else [dts[i % 4], dts[(i + 1) % 4]]):
            rep.run('roundtrip', roundtrip, nx, ny, D, d, dt, rep.seed + i)
        i += 1
    rep.run('roundtrip of a large cell', roundtrip, 12, 9, 1, 2, dts[rep.seed % 2], rep.seed + i)
    rep.run('roundtrip with large bonds', roundtrip, 2, 1, 8, 2, dts[rep.seed % 2], rep.seed + i)
