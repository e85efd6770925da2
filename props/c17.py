from .lib import *

FU = 'acetn/evolution/full_update.py:'


class Net:
    """What the updater's constructor reads of a network."""
    dims = {'bond': 1, 'phys': 1, 'chi': 1}


def updater(L, gauge, **kw):
    cls = L('acetn.evolution.full_update', 'FullUpdater')

    C = L('acetn.ipeps.ipeps_config', 'EvolutionConfig')(use_gauge_fix=gauge, **kw)
    return cls(Net(), None, C)


def sizes(ctx):
    D, d = ivar('D', 1), ivar('d', 1)
    nD = core.imin(D * D * D, d * D)
    return D, d, nD


def balance(gauge, dtype):
    def fn(ctx):
        L = Loader()
        D, d, nD = sizes(ctx)
        a1, a2 = leaf('a1', (), (nD, D, d), dtype), leaf('a2', (), (nD, D, d), dtype)
        u = updater(L, gauge)
        t1, t2 = a1.tv, a2.tv
        if gauge:
            u.nzyr_inv, u.nzxr_inv = leaf('Gy', (), (nD, nD), dtype), leaf('Gx', (), (nD, nD), dtype)
            t1 = T.einsum('yz,zup->yup', u.nzyr_inv.tv, t1)
            t2 = T.einsum('xz,zup->xup', u.nzxr_inv.tv, t2)
        b1, b2 = u.finalize_reduced_tensors(a1, a2)
        shape_is(ctx, b1, (nD, D, d), 'first reduced tensor keeps its legs')
        shape_is(ctx, b2, (nD, D, d), 'second reduced tensor keeps its legs')
        ctx.check((b1.dtype is dtype and b2.dtype is dtype, ''), 'dtype')
        propto(ctx, T.einsum('yup,xuq->yxpq', b1.tv, b2.tv), T.einsum('yup,xuq->yxpq', t1, t2), 'contraction over the shared bond unchanged up to a positive factor')
        # both sides carry the same weights: equal, diagonal Gram matrices of trace one
        g1 = T.einsum('yup,ywp->uw', T.conj(b1.tv), b1.tv)
        g2 = T.einsum('yup,ywp->uw', b2.tv, T.conj(b2.tv))
        g2t = T.einsum('yup,ywp->wu', b2.tv, T.conj(b2.tv))
        one = T.eye(D)
        for n, g in (('first', g1), ('second', g2)):
            diag = T.einsum('uw,uw->uw', g, one)
            ctx.check(T.equal(g, diag), f'weights of the {n} tensor on the shared bond are diagonal', 'tensor kernel')
        ctx.check(T.equal(g1, g2t), 'both tensors carry the same weights on the shared bond', 'tensor kernel')
        ctx.check((a1._st.version == 0 and a2._st.version == 0, ''), 'inputs not modified')
        end(ctx)
    return fn


def units(tier):
    fs = [FU + 'FullUpdater.finalize_reduced_tensors', FU + 'FullUpdater.__init__']
    return [Unit(f'balance/{"gauge fixed" if g else "plain"}/{dn}', balance(g, DT[dn]), fs) for g in (True, False) for dn in DT]
