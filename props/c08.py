from .lib import *

LA = 'acetn/linalg/'
KINDS = {'plain': ('svd_lowrank', 1), 'two': ('fused_matmul_svd_lowrank', 2), 'four': ('fused_3matmul_svd_lowrank', 4)}


def chain(ts):
    v = ts[0].tv if isinstance(ts[0], STensor) else ts[0]
    for t in ts[1:]:
        v = T.einsum('ab,bc->ac', v, t.tv if isinstance(t, STensor) else t)
    return v


def herm(v):
    return T.conj(T.permute(v, (1, 0)))


class Range:
    """Loop invariant of the power iteration: the columns of Y span the range of (A A^H)^i A Omega, i.e. there is a ghost
    matrix G with Y G = (A A^H)^i A Omega.  One turn has to produce Y' with Y' G' = A A^H Y, where G' is the product of the
    triangular factors of the decompositions made in it."""

    def __init__(self, A, name, init, out):
        self.A, self.name, self.init, self.out = A, name, init, out

    def fresh(self, tag):
        return leaf(f'{self.name}{tag}', (CTX().fresh('inv'),), self.init._sh, self.init.dtype)

    def start(self, ctx):
        self.y = self.fresh('i')
        self.mark = len(ctx.data.get('calls', []))
        self.out.append(self)
        return self.y

    def end(self, ctx, v):
        if not isinstance(v, STensor) or len(v._sh) != 2:
            raise Unsupported('range variable of another kind')
        R = [kw['R'] for n, kw in ctx.data.get('calls', [])[self.mark:] if n == 'qr']
        lhs = v.tv
        for r in reversed(R):
            lhs = T.einsum('ab,bc->ac', lhs, r)
        want = chain([self.A, herm(self.A), self.y])
        ctx.check(T.equal(lhs, want), f'each power iteration multiplies the range by A A^H', 'tensor kernel')
        ctx.check((v.dtype is self.init.dtype, ''), 'power iteration keeps the dtype')
        self.final = self.fresh('n')
        return self.final


def lowrank(kind, niter, dtype, default_q=False):
    def fn(ctx):
        L = Loader()
        name, k = KINDS[kind]
        f = L('acetn.linalg', name)
        m, n, q = ivar('m', 1), ivar('n', 1), ivar('q', 1)
        mids = [ivar(f'k{i}', 1) for i in range(k - 1)]
        sizes = [m] + mids + [n]
        fs = [matrix('ABCD'[i], sizes[i], sizes[i + 1], dtype) for i in range(k)]
        before = [(t.tv, t._st.version) for t in fs]
        A = chain(fs)
        ranges = []
        N = ivar('niter', 0) if niter is None else niter
        if niter is None:
            ctx.data['invariants'] = lambda nm, v: Range(A, nm, v, ranges)
        if default_q:
            U, S, V = f(*fs)
            q, N = 6, 2
        else:
            U, S, V = f(*fs, q=q, niter=N)
        end(ctx)
        w = core.imin(core.imin(q, m), n)
        shape_is(ctx, U, [m, w], 'U has min(q, m, n) columns')
        shape_is(ctx, S, [w], 'min(q, m, n) singular values')
        shape_is(ctx, V, [n, w], 'V has min(q, m, n) columns')
        ctx.check((U.dtype is dtype and V.dtype is dtype and S.dtype is dtype.to_real(), ''), 'dtypes of the result')
        one = T.eye(w)
        eq(ctx, STensor(T.einsum('ia,ib->ab', T.conj(U.tv), U.tv), dtype), one, 'U has orthonormal columns')
        eq(ctx, STensor(T.einsum('ia,ib->ab', T.conj(V.tv), V.tv), dtype), one, 'V has orthonormal columns')
        usv = T.einsum('ia,a,ja->ij', U.tv, S.tv, T.conj(V.tv))
        ctx.check(T.equal(usv, T.einsum('ia,ja,jk->ik', U.tv, T.conj(U.tv), A)), 'U diag(S) V^H is the matrix projected on the computed range', 'tensor kernel')
        ctx.check(T.equal(T.einsum('ia,ij,jb->ab', T.conj(U.tv), A, V.tv), T.einsum('a,ab->ab', S.tv, one)), 'U^H A V = diag(S)', 'tensor kernel')
        # singular values: a positive multiple of the singular values of one matrix, in their order
        s0 = T.content(S.tv)[1].simplify()
        ok = len(s0.terms) == 1 and s0.terms[0].c == T.ONE and len(s0.terms[0].f) == 1
        if ok:
            a, cjg, e, ar = s0.terms[0].f[0]
            ok = a.kind == 'svdS' and e == 1 and len(s0.free()) == 1 and ar == (T.arg(s0.free()[0]),)
        ctx.check((ok, repr(s0)[:200]), 'the singular values are those of one matrix: non-negative and non-increasing', 'contract of torch.linalg.svd')
        # the random matrix
        rd = ctx.data.get('rand', [])
        ctx.check((len(rd) == 1 and rd[0][0] == 'randn' and len(rd[0][1]) == 2 and ieq(rd[0][1][0], n) and ieq(rd[0][1][1], w) and rd[0][2] is dtype, str(rd)[:200]),
                  'one random matrix of shape (n, min(q, m, n)) in the dtype of the input')
        Om = rd[0][3]
        X = chain([A, Om])
        if ranges:
            ctx.check((len(ranges) == 1, ''), 'one range variable')
            ctx.check(T.equal(ranges[0].init.tv, X), 'the iteration starts from A times the random matrix', 'tensor kernel')
            X = ranges[0].final.tv
        else:
            for _ in range(N if not isinstance(N, SymInt) else 0):
                X = chain([A, herm(A), X])
        calls = [kw for nm, kw in ctx.data.get('calls', []) if nm == 'qr']
        if ranges:
            calls = calls[-1:]
        G = None
        for kw in reversed(calls):
            G = kw['R'] if G is None else T.einsum('ab,bc->ac', G, kw['R'])
        last = calls[-1]['Q'] if calls else None
        ctx.check((last is not None, ''), 'the range is orthonormalised')
        ctx.check(T.equal(T.einsum('ab,bc->ac', last, G), X), 'the range contains (A A^H)^niter A Omega', 'tensor kernel')
        ctx.check(T.equal(T.einsum('ia,ja,jk->ik', U.tv, T.conj(U.tv), last), last), 'U spans the computed range', 'tensor kernel')
        for i, (t, (tv, ver)) in enumerate(zip(fs, before)):
            ctx.check((t._st.version == ver, ''), f'input {i} is not modified')
    return fn


def units(tier):
    us = []
    for kind, (name, k) in KINDS.items():
        fs = [f'{LA}{name}.py:{name}']
        for dn in DT:
            us.append(Unit(f'{kind}/any niter/{dn}', lowrank(kind, None, DT[dn]), fs))
        for N in range(4):
            us.append(Unit(f'{kind}/niter={N}', lowrank(kind, N, C128), fs, bounded=f'niter = {N}'))
        us.append(Unit(f'{kind}/defaults', lowrank(kind, 2, C128, True), fs, bounded='q = 6, niter = 2'))
    return us
