from .lib import *
from .c17 import updater, sizes

FU = 'acetn/evolution/full_update.py:'
FAILS = 4


def hermitian(name, n, dtype):
    """An arbitrary Hermitian norm environment n12[y,x,Y,X]."""
    B = leaf(name, (), (n, n, n, n), dtype)
    return STensor(T.add(B.tv, T.einsum('yxYX->YXyx', T.conj(B.tv))), dtype)


def env_of(nz):
    return T.einsum('yxz,YXz->yxYX', nz, T.conj(nz))


def positive(dtype, via, fails=False):
    def fn(ctx):
        L = Loader()
        D, d, n = sizes(ctx)
        N = hermitian('N', n, dtype)
        n0 = N.tv
        cutoff = st.real_param('cutoff', 0)
        if fails:
            ctx.assume(D >= 2)
            # a positive semidefinite environment, and eigh free to fail at any call
            c, v = T.content(st.split_identity(as_mat(n0))[1])
            ctx.assume(st.real_expr(T.mul(c, T.fix_index(T.leaf(st.eig_atoms(v)[0]), 0, 0))) >= 0)
            ctx.data.update(eigh_may_fail=FAILS, psd_svd=True)
        if via == 'update':
            seen = {}
            u = updater(L, False, positive_approx_cutoff=cutoff)
            A = leaf('A12', (), (n, n, d, d), dtype)
            out, A2 = u.precondition_norm_tensor(N, A)
            eq(ctx, A2, A, 'without gauge fixing the target is unchanged', dtype)
            got = out.tv
        else:
            f = L('acetn.evolution.full_update', 'positive_approx')
            nz = f(N, cutoff) if via == 'given' else f(N)
            if via == 'default':
                cutoff = 1e-12
            shape_is(ctx, nz, (n, n, n * n), 'square root has the legs of the norm environment and one more')
            got = env_of(nz.tv)
        # smallest eigenvalue of the environment
        w, z = st.eig_atoms(T.content(st.split_identity(as_mat(n0))[1])[1])
        c, v = T.content(as_mat(n0))
        w0 = T.mul(c, T.fix_index(T.leaf(st.eig_atoms(v)[0]), 0, 0))
        low = T.equal  # noqa
        e0, ec = st.real_expr(w0), st.real_expr(st.as_tv(cutoff))
        small = ctx.decide(e0 < ec, 'smallest eigenvalue below the cutoff')
        diff = T.sub(got, n0)
        if not small:
            ctx.check(T.equal(got, n0), 'environment left unchanged when its smallest eigenvalue reaches the cutoff', 'tensor kernel')
        else:
            diag = T.einsum('ii->i', as_mat(diff))
            shift = T.fix_index(diag, 0, 0)
            ctx.check(T.equal(as_mat(diff), T.mul(shift, T.eye(n * n))), 'environment shifted by a multiple of the identity', 'tensor kernel')
            es = st.real_expr(shift)
            ctx.check(es >= 0, 'the shift is not negative')
            import z3
            ctx.check(z3.Implies(ec > 0, e0 + es > 0), 'the shifted environment is positive')
            ctx.check(e0 + es >= ec, 'the smallest eigenvalue of the shifted environment reaches the cutoff')
        end(ctx)
    return fn


def as_mat(v):
    g = v.axes
    if len(g) == 2:
        return v
    return T.TV([list(g[0]) + list(g[1]), list(g[2]) + list(g[3])], v.terms)


def gauge(dtype, via):
    def fn(ctx):
        L = Loader()
        D, d, n = sizes(ctx)
        nz = leaf('nz', (), (n, n, n * n), dtype)
        A = leaf('A12', (), (n, n, d, d), dtype)
        if via == 'update':
            atol = st.real_param('atol', 0)
            u = updater(L, True, gauge_fix_atol=atol)
            log = []
            N0 = leaf('N', (), (n, n, n, n), dtype)
            cut = u.positive_approx_cutoff

            def stub(n12, cutoff=1e-12):
                log.append((n12, cutoff))
                return nz
            rename(L, L('acetn.evolution.full_update', 'positive_approx'), stub)
            n12, A2 = u.precondition_norm_tensor(N0, A)
            gx, gy = u.nzxr_inv, u.nzyr_inv
            ctx.check((len(log) == 1 and log[0][0] is N0 and log[0][1] == cut, str(log)[:100]), 'positive approximation of the given environment with the configured cutoff')
            for nm, kw in ctx.data['calls']:
                if nm == 'pinv':
                    ctx.check((any(v is atol for v in kw.values()), str(kw)), 'inverses use the configured tolerance')
        else:
            n12, A2, gx, gy = L('acetn.evolution.full_update', 'gauge_fix')(nz, A)
        N = env_of(nz.tv)
        for t, sh, nm in ((n12, (n, n, n, n), 'norm environment'), (A2, (n, n, d, d), 'target'), (gx, (n, n), 'x inverse'), (gy, (n, n), 'y inverse')):
            shape_is(ctx, t, sh, f'{nm}: shape')
            ctx.check((t.dtype is dtype, ''), f'{nm}: dtype')
        # any pair a (in the new gauge) is the pair (gy gx) a in the old one
        want = T.einsum('yxYX,yv,xw,YV,XW->vwVW', N, gy.tv, gx.tv, T.conj(gy.tv), T.conj(gx.tv))
        ctx.check(T.equal(n12.tv, want), 'norm of any pair is preserved', 'tensor kernel')
        back = T.einsum('yv,xw,vwpq->yxpq', gy.tv, gx.tv, A2.tv)
        ctx.check(T.equal(back, A.tv), 'transforming back with the returned inverses gives the target', 'tensor kernel')
        ctx.check(T.equal(T.einsum('vwVW,vwpq->VWpq', n12.tv, A2.tv), T.einsum('yxYX,YV,XW,yxpq->VWpq', N, T.conj(gy.tv), T.conj(gx.tv), A.tv)),
                  'overlap of any pair with the target is preserved', 'tensor kernel')
        ctx.check((A._st.version == 0, ''), 'target not modified')
        end(ctx)
    return fn


def units(tier):
    us = []
    for dn in ('complex128', 'float64'):
        for v in ('given', 'default', 'update'):
            us.append(Unit(f'positive approximation/{v}/{dn}', positive(DT[dn], v), [FU + 'positive_approx'] + ([FU + 'FullUpdater.precondition_norm_tensor'] if v == 'update' else []),
                           assumes=['torch.linalg.eigh does not raise']))
            us.append(Unit(f'positive approximation/{v}/eigh may fail/{dn}', positive(DT[dn], v, True), [FU + 'positive_approx'],
                           assumes=['positive semidefinite norm environment, D >= 2, failures at the first four calls', 'singular vectors of a positive semidefinite matrix are its eigenvectors in reverse order']))
        for v in ('direct', 'update'):
            us.append(Unit(f'gauge fixing/{v}/{dn}', gauge(DT[dn], v), [FU + 'gauge_fix'] + ([FU + 'FullUpdater.precondition_norm_tensor'] if v == 'update' else []),
                           assumes=['norm environment of full rank in each reduced index (pinv of the triangular factors is the inverse)']))
    return us
