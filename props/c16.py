from .lib import *
from .c17 import sizes

AL = 'acetn/evolution/als_solver.py:ALSSolver.'


def problem(ctx, dtype, method, **kw):
    L = Loader()
    cls = L('acetn.evolution.als_solver', 'ALSSolver')
    EC = L('acetn.ipeps.ipeps_config', 'EvolutionConfig')
    bD, d, nD = sizes(ctx)
    eps, tol = st.real_param('epsilon', 0), st.real_param('tol', 0)
    n12 = leaf('n12', (), (nD,) * 4, dtype)
    a12g = leaf('a12g', (), (nD, nD, d, d), dtype)
    niter = kw.get('niter')
    conf = EC(als_niter=ivar('niter', 0) if niter is None else niter, als_tol=tol, als_method=method, als_epsilon=eps)
    s = cls(n12, a12g, (nD, bD, d), conf)
    # two sizes of the reduced matrices
    return L, s, n12, a12g, (nD, bD, d), eps, tol


def merge(v, *groups):
    """Join axes: groups of axis positions."""
    v = v.tv if isinstance(v, STensor) else v
    return T.TV([tuple(w for i in g for w in v.axes[i]) for g in groups], v.terms).simplify()


def normal1(n12, a2):
    """<bra index, bra bond; ket index, ket bond> of the environment with the second tensor."""
    return merge(contract([(n12, ['y', 'x', 'Y', 'X']), (a2, ['x', 'u', 'q']), (cj(a2), ['X', 'U', 'q'])], ['Y', 'U', 'y', 'u']), (0, 1), (2, 3))


def normal2(n12, a1):
    return merge(contract([(n12, ['y', 'x', 'Y', 'X']), (a1, ['y', 'v', 'p']), (cj(a1), ['Y', 'V', 'p'])], ['X', 'V', 'x', 'v']), (0, 1), (2, 3))


def rhs1(n12, a12g, a2):
    return merge(contract([(n12, ['y', 'x', 'Y', 'X']), (a12g, ['y', 'x', 'p', 'q']), (cj(a2), ['X', 'U', 'q'])], ['Y', 'U', 'p']), (0, 1), (2,))


def rhs2(n12, a12g, a1):
    return merge(contract([(n12, ['y', 'x', 'Y', 'X']), (a12g, ['y', 'x', 'p', 'q']), (cj(a1), ['Y', 'V', 'p'])], ['X', 'V', 'q']), (0, 1), (2,))


def sym(M):
    return T.scale(T.add(M, T.conj(T.permute(M, (1, 0)))), T.frac(0.5))


def regular(M, method, eps):
    H = sym(M)
    if method == 'cholesky':
        mx = STensor(H, C128).abs().max().tv
        H = T.add(H, T.mul(T.mul(eps.tv, mx), T.eye(T.gsize(H.axes[0]))))
    return H


def solved(ctx, x, M, S, method, eps, name):
    """x is the solution of the regularised normal equations."""
    A = STensor(regular(M, method, eps), C128)
    ctx.check(T.equal(merge(x, (0, 1), (2,)), T.einsum('ab,bp->ap', st.inv_value(A), S)), name, 'tensor kernel')


def half(which, method, dtype, fail=False):
    def fn(ctx):
        if fail:
            ctx.data['cholesky_may_fail'] = True
        L, s, n12, a12g, shp, eps, tol = problem(ctx, dtype, method)
        nD, bD, d = shp
        a = leaf('a', (), shp, dtype)
        n12g = STensor(contract([(n12, ['y', 'x', 'Y', 'X']), (a12g, ['y', 'x', 'p', 'q'])], ['Y', 'X', 'p', 'q']), dtype)
        x = (s.solve_a1r if which == 1 else s.solve_a2r)(n12g, a)
        shape_is(ctx, x, shp, 'shape of the reduced tensor')
        ctx.check((x.dtype is dtype, ''), 'dtype')
        M, S = (normal1(n12, a), rhs1(n12, a12g, a)) if which == 1 else (normal2(n12, a), rhs2(n12, a12g, a))
        solved(ctx, x, M, S, method, eps, f'half step {which} solves its regularised normal equations')
        pinv = [kw for nm, kw in ctx.data.get('calls', []) if nm == 'pinv']
        if pinv:
            ctx.check((all(T.equal(st.as_tv(kw.get('rcond', kw.get('rtol', 0))), eps.tv)[0] for kw in pinv), str(pinv)), 'cutoff of the pseudoinverse is the configured epsilon')
            for m in ctx.data.get('pinv_herm', []):
                ctx.check(T.equal(m, T.conj(T.permute(m, (1, 0)))), 'the matrix handed to the Hermitian pseudoinverse is Hermitian', 'tensor kernel')
        for nm, t in (('environment', n12), ('target', a12g), ('current tensor', a), ('right-hand side', n12g)):
            ctx.check((t._st.version == 0, ''), f'{nm} not modified')
        end(ctx)
    return fn


def linear(method, dtype, fail):
    """solve_ar on an arbitrary matrix."""
    def fn(ctx):
        if fail:
            ctx.data['cholesky_may_fail'] = True
        L, s, n12, a12g, shp, eps, tol = problem(ctx, dtype, method)
        nD, bD, d = shp
        R, S = leaf('R', (), (nD, bD, nD, bD), dtype), leaf('S', (), (nD, bD, d), dtype)
        x = s.solve_ar(R, S)
        shape_is(ctx, x, shp, 'shape')
        solved(ctx, x, merge(R, (0, 1), (2, 3)), merge(S, (0, 1), (2,)), method, eps, 'regularised system solved')
        ctx.check((R._st.version == 0 and S._st.version == 0, ''), 'inputs not modified')
        end(ctx)
    return fn


def distance(n12, a12g, a1, a2):
    """<X|N|X> - 2 Re <X|N|target> with X the product of the two reduced tensors."""
    X = contract([(a1, ['y', 'u', 'p']), (a2, ['x', 'u', 'q'])], ['y', 'x', 'p', 'q'])
    f = lambda k, b: contract([(n12, ['y', 'x', 'Y', 'X']), (k, ['y', 'x', 'p', 'q']), (T.conj(b), ['Y', 'X', 'p', 'q'])], [])
    re = lambda v: T.scale(T.add(v, T.conj(v)), T.frac(0.5))
    return T.sub(re(f(X, X)), T.scale(re(f(a12g.tv, X)), 2))


def cost(dtype):
    def fn(ctx):
        L, s, n12, a12g, shp, eps, tol = problem(ctx, dtype, 'cholesky')
        a1, a2 = leaf('a1', (), shp, dtype), leaf('a2', (), shp, dtype)
        c = s.calculate_cost(a1, a2, a12g, n12)
        eq(ctx, c, distance(n12, a12g, a1, a2), 'squared distance to the target up to a constant', dtype.to_real())
        # the constant: |X - t|^2 - cost = |t|^2, for a Hermitian environment
        X = contract([(a1, ['y', 'u', 'p']), (a2, ['x', 'u', 'q'])], ['y', 'x', 'p', 'q'])
        ctx.check((all(t._st.version == 0 for t in (a1, a2, n12, a12g)), ''), 'inputs not modified')
        end(ctx)
    return fn


def start(dtype, via='init'):
    def fn(ctx):
        L, s, n12, a12g, shp, eps, tol = problem(ctx, dtype, 'cholesky')
        nD, bD, d = shp
        i1, i2, n12g = s.initialize_tensors()
        eq(ctx, n12g, contract([(n12, ['y', 'x', 'Y', 'X']), (a12g, ['y', 'x', 'p', 'q'])], ['Y', 'X', 'p', 'q']), 'environment applied to the target', dtype)
        for n, a in (('first', i1), ('second', i2)):
            shape_is(ctx, a, shp, f'{n} start tensor: shape')
            ctx.check((a.dtype is dtype, ''), f'{n} start tensor: dtype')
        truncated(ctx, a12g, i1, i2, shp, dtype)
        ctx.check((n12._st.version == 0 and a12g._st.version == 0, ''), 'inputs not modified')
        end(ctx)
    return fn


def truncated(ctx, a12g, i1, i2, shp, dtype):
    """The product of the start tensors is the truncated singular value decomposition of the target, up to a positive
    factor, equally distributed: both carry the weights S_u / S_0 on the shared bond."""
    nD, bD, d = shp
    M = STensor(merge(a12g, (0, 2), (1, 3)), dtype)
    U, S, Vh = st.svd(M, full_matrices=False)
    t = T.einsum('iu,u,uj->ij', T.slice_axis(U.tv, 1, 0, bD), T.slice_axis(S.tv, 0, 0, bD), T.slice_axis(Vh.tv, 0, 0, bD))
    for n, a, outer in (('first', i1, None), ('second', i2, None)):
        g = T.einsum('yup,yvp->uv', T.conj(a.tv), a.tv)
        w = T.div(T.slice_axis(S.tv, 0, 0, bD), T.fix_index(S.tv, 0, 0))
        ctx.check(T.equal(g, T.einsum('u,uv->uv', w, T.eye(bD))), f'{n} start tensor carries the square roots of the kept relative singular values', 'tensor kernel')
    prod = merge(T.einsum('yup,xuq->ypxq', i1.tv, i2.tv), (0, 1), (2, 3))
    propto(ctx, prod, t, 'start: the product is the truncated singular value decomposition of the target')


class Rounds:
    """Loop invariant of the alternating iteration: the two current tensors are arbitrary reduced tensors and the carried
    number is the (absolute) distance of the last pair."""

    def __init__(self, P, names, vals, lo, hi):
        (self.s, self.n12, self.a12g, self.shp, self.eps, self.tol, self.method, self.dtype, self.log) = P
        ctx = CTX()
        self.names, self.vals = names, vals
        self.role = {}
        for nm, v in zip(names, vals):
            if isinstance(v, STensor) and len(v._sh) == 3:
                self.role[nm] = 'a2' if T.equal(v.tv, self.log['start'][1].tv)[0] else 'a1' if T.equal(v.tv, self.log['start'][0].tv)[0] else None
            elif isinstance(v, STensor) and len(v._sh) == 0:
                ctx.check(T.equal(T.absval(v.tv) if not T.nonneg(v.tv) else v.tv, T.absval(distance(self.n12, self.a12g, *self.log['start']))), 'the first distance is that of the start', 'tensor kernel')
                self.role[nm] = 'd'
            elif isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                self.role[nm] = ('count', v)       # a counter: one more in every round (checked at the end of a round)
            elif v is not ct.UNDEF:
                self.role[nm] = None
        self.lo, self.hi = lo, hi
        if sorted(str(x) for x in self.role.values() if not isinstance(x, tuple)) != ['a1', 'a2', 'd']:
            raise Unsupported(f'variables carried by the iteration: {self.role}')
        ctx.check((ieq(lo, 0) and ieq(hi, self.log['niter']), f'{lo}..{hi}'), 'at most the configured number of rounds', 'integer kernel')

    def state(self, tag, i):
        a1, a2 = leaf('a1' + tag, (), self.shp, self.dtype), leaf('a2' + tag, (), self.shp, self.dtype)
        d = leaf('d' + tag, (), (), F64, real=True)
        self.cur = (a1, a2, d)
        return [self.role[nm][1] + (i - self.lo) if isinstance(self.role.get(nm), tuple) else {'a1': a1, 'a2': a2, 'd': d}.get(self.role.get(nm), ct.UNDEF) for nm in self.names]

    def head(self, ctx, i):
        self.log['head'] = self
        self.i = i
        # a vanishing distance to the target can not be judged relative to itself
        out = self.state('i', i)
        ctx.assume(st.real_expr(self.cur[2].tv) != 0)
        return out

    def step_ok(self, ctx, x1, x2):
        a1, a2, d = self.cur
        solved(ctx, x1, normal1(self.n12, a2), rhs1(self.n12, self.a12g, a2), self.method, self.eps, 'round: the first tensor solves its equations with the current second one')
        solved(ctx, x2, normal2(self.n12, x1), rhs2(self.n12, self.a12g, x1), self.method, self.eps, 'round: the second tensor solves its equations with the new first one')
        self.dist = distance(self.n12, self.a12g, x1, x2)

    def err(self, signed):
        import z3
        d2, d = st.real_expr(self.dist), st.real_expr(self.cur[2].tv)
        ab = lambda z: z3.If(z >= 0, z, -z)
        return z3.And(ab(d2 - d) < st.real_expr(self.tol.tv) * ab(d), z3i(self.i) >= 2)

    def back(self, ctx, i, vals):
        import z3
        v = {self.role[n]: x for n, x in zip(self.names, vals) if isinstance(self.role.get(n), str)}
        for k, x in zip([self.role.get(n) for n in self.names], vals):
            if isinstance(k, tuple) and not ieq(x, k[1] + (i + 1 - self.lo)):
                raise Unsupported('variable carried by the iteration is not a counter')
        self.step_ok(ctx, v['a1'], v['a2'])
        dv = v['d'].tv
        ok = T.equal(dv, self.dist)
        if not ok[0]:
            ok = T.equal(dv, T.absval(self.dist))
        ctx.check(ok, 'the distance of this round is what the next one is compared with', 'tensor kernel')
        ctx.check(z3.Not(self.err(True)), 'goes on only while the relative change is not below the tolerance, or before the third round')

    def after(self, ctx):
        self.log['after'] = self
        return self.state('n', self.hi)


def loop(method, dtype, niter=None, entry='solve'):
    def fn(ctx):
        L, s, n12, a12g, shp, eps, tol = problem(ctx, dtype, method, niter=niter)
        log = {'niter': s.niter}
        log['start'] = s.initialize_reduced_tensors(a12g, shp)
        ctx.data['cut'] = lambda names, vals, lo, hi: Rounds((s, n12, a12g, shp, eps, tol, method, dtype, log), names, vals, lo, hi)
        x1, x2 = s.solve()
        if 'head' in log:
            r = log['head']
            r.step_ok(ctx, x1, x2)
            ctx.check(r.err(True), 'stops before the last round only when the relative change is below the tolerance, after at least three rounds')
        elif 'after' in log:
            a1, a2, _ = log['after'].cur
            eq(ctx, x1, a1, 'result: the last first tensor')
            eq(ctx, x2, a2, 'result: the last second tensor')
        else:
            raise Unsupported('no iteration found')
        ctx.check((n12._st.version == 0 and a12g._st.version == 0 and s.n12 is n12 and s.a12g is a12g, ''), 'inputs not modified')
        end(ctx)
    return fn


def units(tier):
    us = []
    ini = [AL + '__init__', AL + 'initialize_reduced_tensors', AL + 'initialize_tensors']
    sv = [AL + 'solve_ar']
    h = {1: [AL + 'solve_a1r', AL + 'build_s1', AL + 'build_r1'], 2: [AL + 'solve_a2r', AL + 'build_s2', AL + 'build_r2']}
    for dn in ('complex128', 'float64'):
        for method in ('cholesky', 'pinv'):
            us.append(Unit(f'linear solve/{method}/{dn}', linear(method, DT[dn], False), sv))
            for w in (1, 2):
                us.append(Unit(f'half step {w}/{method}/{dn}', half(w, method, DT[dn]), h[w] + sv))
            us.append(Unit(f'iteration/{method}/{dn}', loop(method, DT[dn]), [AL + 'solve', AL + 'solve_torch'] + h[1] + h[2] + sv + ini + [AL + 'calculate_cost'],
                           assumes=['the previous distance is not exactly zero']))
        us.append(Unit(f'linear solve/not positive/{dn}', linear('cholesky', DT[dn], True), sv))
        us.append(Unit(f'half step 1/not positive/{dn}', half(1, 'cholesky', DT[dn], True), h[1] + sv))
        us.append(Unit(f'half step 2/not positive/{dn}', half(2, 'cholesky', DT[dn], True), h[2] + sv))
        us.append(Unit(f'distance/{dn}', cost(DT[dn]), [AL + 'calculate_cost']))
        us.append(Unit(f'start/{dn}', start(DT[dn]), ini))
    return us
