from .lib import *

F = 'acetn/ipeps/tensor_network.py:TensorNetwork.'
FS = [F + 'build_bond_list', F + 'build_site_list', F + 'initialize_site_tensors', F + 'setup_tensor_network', F + '__getitem__', F + '__setitem__', 'acetn/ipeps/bond.py:Bond']


def network(L, nx, ny, dtype=F64):
    TN = L('acetn.ipeps.tensor_network', 'TensorNetwork')
    return TN(None, tn_config(L, nx, ny), dtype, st.CPU)


def check_cell(ctx, L, net, nx, ny, concrete):
    Bond = L('acetn.ipeps.bond', 'Bond')
    int_eq(ctx, length(net.site_list), nx * ny, 'the site list has nx*ny entries')
    int_eq(ctx, length(net.bond_list), 2 * nx * ny, 'the bond list has 2*nx*ny entries')
    sites = [(x, y) for x in range(nx) for y in range(ny)] if concrete else [cell(ctx, nx, ny)]
    for x, y in sites:
        ctx.check((contains(ctx, net.site_list, (x, y)), f'({x},{y})'), 'every cell coordinate is in the site list')
        ctx.check((contains(ctx, net.bond_list, Bond((x, y), (imod(x + 1, nx), y), 2)), f'({x},{y})'), 'every site has its horizontal bond, joined to the site one step right, direction 2')
        ctx.check((contains(ctx, net.bond_list, Bond((x, y), (x, imod(y + 1, ny)), 1)), f'({x},{y})'), 'every site has its vertical bond, joined to the site one step up, direction 1')
        try:
            t = net[(x, y)]
        except (ValueError, KeyError):
            t = None
        ctx.check((t is not None, f'({x},{y})'), 'every cell coordinate has a site tensor')
        if t is not None:
            shape_is(ctx, t['A'], (net.dims['bond'],) * 4 + (net.dims['phys'],), 'site tensor shape')
    # outside the cell there is nothing
    for x, y in ((nx, 0), (0, ny), (-1, 0), (0, -1)):
        try:
            net[(x, y)]
            ok = False
        except (ValueError, KeyError):
            ok = True
        ctx.check((ok, f'({x},{y})'), 'no site tensor outside the cell')
    end(ctx)


def unbounded(ctx):
    L = Loader()
    nx, ny = ivar('nx', 1), ivar('ny', 1)
    check_cell(ctx, L, network(L, nx, ny), nx, ny, False)


def small(nx, ny):
    def fn(ctx):
        L = Loader()
        check_cell(ctx, L, network(L, nx, ny), nx, ny, True)
    return fn


def reinit(ctx):
    """Re-initialising keeps the lists."""
    L = Loader()
    nx, ny = ivar('nx', 1), ivar('ny', 1)
    net = network(L, nx, ny)
    net.initialize_site_tensors(lambda site: ct.SymVector(leaf('state', (site[0], site[1]), (net.dims['phys'],), F64).tv))
    check_cell(ctx, L, net, nx, ny, False)


def copied(ctx):
    L = Loader()
    nx, ny = ivar('nx', 1), ivar('ny', 1)
    net = network(L, nx, ny)
    check_cell(ctx, L, net.copy(), nx, ny, False)


def units(tier):
    us = [Unit('network/any cell', unbounded, FS), Unit('re-initialised/any cell', reinit, FS), Unit('copy/any cell', copied, FS + [F + 'copy_from', F + 'copy'])]
    for nx, ny in LATTICES + ([(4, 1), (1, 5), (4, 3), (5, 2)] if tier == 'thorough' else []):
        us.append(Unit(f'network/{nx}x{ny}', small(nx, ny), FS, bounded=f'unit cell {nx}x{ny}'))
    return us
