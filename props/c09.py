from .lib import *

RDM = 'acetn/measurement/rdm.py:'


def two_sites(L, k, dtype, same, lattice=(3, 3)):
    """The two ends of a bond in direction k of a symbolic network."""
    nx, ny = lattice
    if same:
        nx, ny = (1, ny) if k in (0, 2) else (nx, 1)
    net = SymSites(L, nx, ny, dtype)
    s1 = (0, 0)
    s2 = shift(s1, STEP[k], nx, ny)
    return net, s1, s2


def site_unit(dtype):
    def fn(ctx):
        L = Loader()
        net = SymSites(L, 3, 3, dtype)
        R = L('acetn.measurement.rdm', 'RDM')(net)
        s = (1, 2)
        got = R[s]
        eq(ctx, got, site_rdm_spec(net.init(s)), 'site density matrix = contraction of all corners, edges, A and conj(A)', dtype)
        eq(ctx, R[s], got, 'computing it again gives the same')
        net.unchanged(ctx, 'site density matrix')
        end(ctx)
    return fn


def bond_unit(k, dtype, same):
    def fn(ctx):
        L = Loader()
        net, s1, s2 = two_sites(L, k, dtype, same)
        Bond = L('acetn.ipeps.bond', 'Bond')
        R = L('acetn.measurement.rdm', 'RDM')(net)
        got = R[Bond(s1, s2, k)]
        eq(ctx, got, bond_rdm_spec(net.init(s1), net.init(s2), k), f'bond density matrix, direction {k}', dtype)
        net.unchanged(ctx, 'bond density matrix')
        end(ctx)
    return fn


def core_unit(name, dtype):
    def fn(ctx):
        L = Loader()
        f = L('acetn.measurement.rdm', name)
        D, d = ivar('D', 1), ivar('d', 1)
        m = [ivar(f'm{i}', 1) for i in range(10)]
        lf = lambda n, *sz: leaf(n, (), sz, dtype)
        # ring a b c d e f g h i j
        c21, e21, e11, c12, e12 = lf('c21', m[0], m[1]), lf('e21', m[1], m[2], D, D), lf('e11', m[2], m[3], D, D), lf('c12', m[3], m[4]), lf('e12', m[4], m[5], D, D)
        c13, e13, e23, c24, e24 = lf('c13', m[5], m[6]), lf('e13', m[6], m[7], D, D), lf('e23', m[7], m[8], D, D), lf('c24', m[8], m[9]), lf('e24', m[9], m[0], D, D)
        a1, a2 = lf('a1', D, D, D, D, d), lf('a2', D, D, D, D, d)
        got = f(c12, e12, e11, c13, e13, a1, c21, e21, e24, c24, e23, a2)
        S1 = Rec(A=a1, C=[None, c12, c13, None], E=[e11, e12, e13, None])
        S2 = Rec(A=a2, C=[c21, None, None, c24], E=[e21, None, e23, e24])
        eq(ctx, got, bond_rdm_spec(S1, S2, 0), f'{name} = complete contraction', dtype)
        end(ctx)
    return fn


def units(tier):
    us = []
    for dn in ('complex128', 'float64'):
        us.append(Unit(f'site_rdm/{dn}', site_unit(DT[dn]), [RDM + 'RDM.__getitem__', RDM + 'RDM.build_site_rdm', 'acetn/ipeps/site_tensor.py:SiteTensor.__getitem__']))
        for k in range(4):
            for same in (False, True):
                us.append(Unit(f'bond_rdm/{dn}/k={k}/{"one site" if same else "two sites"}', bond_unit(k, DT[dn], same),
                               [RDM + 'RDM.__getitem__', RDM + 'RDM.build_bond_rdm', RDM + 'build_bond_rdm_core_blocked', 'acetn/ipeps/site_tensor.py:SiteTensor.bond_permute', 'acetn/ipeps/bond.py:Bond']))
        for n in ('build_bond_rdm_core', 'build_bond_rdm_core_blocked'):
            us.append(Unit(f'{n}/{dn}', core_unit(n, DT[dn]), [RDM + n]))
    return us
