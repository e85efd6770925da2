from .lib import *
from .c11 import Model, rdm_stub, rho1, rho2, ev1, ev2, run, M
from .c01 import network


def spec_sums(L, net, nx, ny, model, d, dtype, concrete):
    """Sums over all sites and all bonds of the cell, of site and bond values given as functions."""
    Bond = L('acetn.ipeps.bond', 'Bond')

    def bonds(x, y):
        return Bond((x, y), (imod(x + 1, nx), y), 2), Bond((x, y), (x, imod(y + 1, ny)), 1)

    def total(f):
        if concrete:
            r = T.const(0)
            for x in range(nx):
                for y in range(ny):
                    r = T.add(r, f(x, y))
            return r
        x, y = ivar('xs'), ivar('ys')
        return ct.sigma([('xs', 0, nx), ('ys', 0, ny)], f(x, y))

    def site_sum(f):
        return total(lambda x, y: f((x, y)))

    def bond_sum(f):
        if concrete:
            return total(lambda x, y: T.add(f(bonds(x, y)[0]), f(bonds(x, y)[1])))
        return T.add(total(lambda x, y: f(bonds(x, y)[0])), total_yx(lambda x, y: f(bonds(x, y)[1])))

    def total_yx(f):
        x, y = ivar('xs'), ivar('ys')
        return ct.sigma([('ys', 0, ny), ('xs', 0, nx)], f(x, y))
    return site_sum, bond_sum


def averages(nx, ny, dtype, form, one, oo, to, concrete):
    def fn(ctx):
        L = Loader()
        d = ivar('d', 1)
        X, Y = (nx, ny) if concrete else (ivar('nx', 1), ivar('ny', 1))
        net = network(L, X, Y)
        model = Model(d, dtype, form, one=one, one_obs=oo, two_obs=to)
        got = run(L, net, model, d, dtype)
        ss, bs = spec_sums(L, net, X, Y, model, d, dtype, concrete)
        n = X * Y
        names = set(oo) | set(to) | {'Energy'}
        ctx.check(({str(k) for k in got.keys()} == names, f'{list(got.keys())}'), 'the result holds the energy and every observable of the model')
        e = bs(lambda b: ev2(model.OO('H', b), rho2(b, d, dtype)))
        if one:
            e = T.add(ss(lambda s: ev1(model.O('h', s), rho1(s, d, dtype))), e)
        inv = lambda k: T.power(T.const(k), -1)
        eq(ctx, got['Energy'], T.mul(e, inv(n)), 'energy = (sum over sites + sum over bonds) / number of sites')
        for o in oo:
            eq(ctx, got[o], T.mul(ss(lambda s: ev1(model.O(o, s), rho1(s, d, dtype))), inv(n)), 'one-site observable = average over all sites')
        for o in to:
            eq(ctx, got[o], T.mul(bs(lambda b: ev2(model.OO(o, b), rho2(b, d, dtype))), inv(2 * n)), 'two-site observable = average over all bonds')
        end(ctx)
    return fn


def units(tier):
    fs = [M + n for n in ('measure', 'calculate_one_site_measurements', 'calculate_two_site_measurements', 'measure_site_energy', 'measure_bond_energy',
                          'measure_site_observables', 'measure_bond_observables')] + ['acetn/ipeps/tensor_network.py:TensorNetwork.build_site_list', 'acetn/ipeps/tensor_network.py:TensorNetwork.build_bond_list']
    A = ['density matrices by contract (C09)']
    us = []
    cases = [('all terms', True, ('oa', 'ob'), ('ta', 'tb')), ('no one-site terms', False, ('oa',), ('ta',)), ('no one-site observables', True, (), ('ta', 'tb')),
             ('no two-site observables', True, ('oa',), ()), ('energy only', False, (), ())]
    for dn in ('complex128', 'float64'):
        for c, one, oo, to in cases:
            us.append(Unit(f'averages/any cell/{dn}/{c}', averages(0, 0, DT[dn], 'mat' if one else 'plain', one, oo, to, False), fs, assumes=A))
    for nx, ny in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]:
        us.append(Unit(f'averages/{nx}x{ny}', averages(nx, ny, C128, 'mat', True, ('oa', 'ob'), ('ta', 'tb'), True), fs, bounded=f'unit cell {nx}x{ny}', assumes=A))
    return us
