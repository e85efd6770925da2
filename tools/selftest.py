#!/opt/venv/bin/python
"""Compares the engine with real torch: every case runs once on symbolic tensors (the result is then evaluated
numerically for concrete sizes) and once on torch tensors with the same entries. Part one: the modelled torch operations.
Part two: functions of /repo, run by the engine and by Python.

tools/selftest.py [SUBSTRING] [-v]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('ACEV_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np
import torch as rt

from acev import core, tens as T, symtorch as st, conts as ct
from acev.core import ivar, ikey, SymInt, z3
from acev.loader import Loader
from acev.numeric import Numeric, Missing
from acev.symtorch import STensor

rt.set_default_dtype(rt.float32)
DT = {'f': (st.float64, rt.float64), 'c': (st.complex128, rt.complex128), 'f4': (st.float32, rt.float32)}
SIZES = {'m': 4, 'n': 3, 'p': 2, 'q': 5, 'one': 1}
CASES = []


def case(name, ins, f, order='q>m>n>p>1', tol=1e-9, some=False):
    """ins: list of (sizes, dtype[, flag]); sizes a string of letters or digits (a*b: a product). some: the code branches
    on values, one of the paths has to agree."""
    CASES.append((name, ins, f, order, tol, some))


def sz(ch):
    return int(ch) if ch.isdigit() else ivar(ch, 1)


def sizes(sh):
    r = []
    for i, ch in enumerate(sh):
        if ch == '*':
            continue
        if i and sh[i - 1] == '*':
            r[-1] = r[-1] * sz(ch)
        else:
            r.append(sz(ch))
    return r


def flatten(r):
    if isinstance(r, (tuple, list)):
        return [y for x in r for y in flatten(x)]
    return [r]


def to_torch(v, dt):
    v = np.asarray(v)
    return rt.from_numpy(np.ascontiguousarray(v if dt.is_complex else v.real)).to(dt)


def run_case(c, verbose):
    name, ins, f, order, tol, some = c
    res, tried = [], []

    def fn(ctx):
        sym = []
        vars_ = {x: ivar(x, 1) for x in SIZES}
        chain = order.split('>')
        for a, b in zip(chain, chain[1:]):
            if a and b:
                ctx.assume((vars_[a] if not a.isdigit() else int(a)) > (vars_[b] if not b.isdigit() else int(b)))
        num = Numeric(SIZES)
        real = []
        for i, spec in enumerate(ins):
            if not isinstance(spec, tuple):
                sym.append(vars_.get(spec, spec) if isinstance(spec, str) else spec)
                real.append(SIZES.get(spec, spec) if isinstance(spec, str) else spec)
                continue
            sh, dt, *flag = spec
            sdt, rdt = DT[dt]
            flag = flag[0] if flag else ''
            a = T.atom(f'X{i}', (), '', sizes(sh), real=not sdt.is_complex, pos='pos' in flag)
            t = STensor(T.leaf(a), sdt)
            r = to_torch(num.atom(a), rdt)
            if 'herm' in flag:
                t = t + t.mH
                r = r + r.mH
            if 'gram' in flag:
                t = t.mH @ t
                r = r.mH @ r
            sym.append(t)
            real.append(r)
        global L
        L = Loader()
        got = flatten(f(L.torch, *sym))
        # is this path the one of the sizes used?
        ctx.solver.push()
        for k, v in SIZES.items():
            ctx.solver.add(z3.Int(k) == v)
        hit = ctx.solver.check() == z3.sat
        ctx.solver.pop()
        if not hit:
            return
        want = flatten(f(rt, *real))
        if len(got) != len(want):
            res.append(f'{len(got)} results instead of {len(want)}')
            return
        new = [compare(num, g, w, tol) for g, w in zip(got, want)]
        if some and any(new):
            tried.extend(new)
            return
        res.extend(new)
    obs, n, _, (reason, trace) = core.explore('selftest', fn)
    bad = [o for o in obs if not o.ok]
    if reason:
        return ('undecided', reason, trace)
    if bad:
        return ('FAILED', f'{bad[0].name}: {bad[0].detail}', '')
    if not res:
        return ('FAILED', str(tried[:3] or 'no path for the sizes'), '')
    err = [r for r in res if r]
    return ('FAILED', err[0], '') if err else ('ok', f'{len(res)} values', '')


def compare(num, g, w, tol):
    if isinstance(w, rt.Tensor):
        if not isinstance(g, STensor):
            return f'{type(g).__name__} instead of a tensor'
        if g.dtype.name != str(w.dtype).replace('torch.', ''):
            return f'dtype {g.dtype} instead of {w.dtype}'
        sh = tuple(num.int(x) for x in g._sh)
        if sh != tuple(w.shape):
            return f'shape {sh} instead of {tuple(w.shape)}'
        v = num.value(g.tv)
        w = w.resolve_conj().to(rt.complex128).resolve_conj().numpy()
    else:
        if isinstance(g, STensor):
            g = num.value(g.tv)
        elif isinstance(g, SymInt):
            g = num.int(g)
        v, w = np.asarray(g, dtype=complex), np.asarray(w, dtype=complex)
    e = float(np.abs(v - w).max()) if v.size else 0.0
    s = max(1.0, float(np.abs(w).max())) if w.size else 1.0
    return '' if e <= tol * s else f'differs by {e:.2e}'


# ------------------------------------------------------------------ operations

def operations():
    for d in ('f', 'c'):
        A, B, V, W = ('mn', d), ('np', d), ('n', d), ('n', d)
        R4, T3 = ('mnpq', d), ('mnp', d)
        o = lambda nm, ins, f, **k: case(f'{nm} [{d}]', ins, f, **k)
        o('einsum matrix product', [A, B], lambda t, a, b: t.einsum('ab,bc->ac', a, b))
        o('einsum trace', [('mnm', d)], lambda t, a: t.einsum('aba->b', a))
        o('einsum diagonal kept', [('mm', d)], lambda t, a: t.einsum('aa->a', a))
        o('einsum implicit output', [A, B], lambda t, a, b: t.einsum('ab,bc', a, b))
        o('einsum ellipsis', [R4, ('nk'.replace('k', 'm'), d)], lambda t, a, b: t.einsum('a b..., bc -> ac...'.replace(' ', ''), a, b))
        o('einsum outer with sum', [A, V], lambda t, a, b: t.einsum('ab,c->ac', a, b))
        o('einsum three', [A, B, ('pm', d)], lambda t, a, b, c: t.einsum('ab,bc,ca->', a, b, c))
        o('einsum with conjugate', [A, A], lambda t, a, b: t.einsum('ab,cb->ac', a, b.conj()))
        o('matmul', [A, B], lambda t, a, b: (a @ b, t.matmul(a, b), t.mm(a, b)))
        o('matrix vector', [A, V], lambda t, a, b: a @ b)
        o('vector vector', [V, W], lambda t, a, b: (a @ b, t.dot(a, b), t.vdot(a, b), a.dot(b)))
        o('tensordot', [R4, ('npm', d)], lambda t, a, b: (t.tensordot(a, b, dims=([1, 2], [0, 1])), t.tensordot(a, b, ([1, 0], [0, 2]))))
        o('outer', [V, ('m', d)], lambda t, a, b: t.outer(a, b))
        o('kron', [A, ('pq', d)], lambda t, a, b: t.kron(a, b))
        o('permute', [R4], lambda t, a: (a.permute(2, 0, 3, 1), a.permute((3, 2, 1, 0)), t.permute(a, (1, 0, 3, 2))))
        o('transpose', [R4], lambda t, a: (a.transpose(0, 2), t.transpose(a, 1, -1), t.swapaxes(a, 0, 1)))
        o('mT mH', [A], lambda t, a: (a.mT, a.mH, a.T, a.t(), a.H, a.adjoint()))
        o('reshape merge split', [R4, 'm', 'n', 'p', 'q'], lambda t, a, m, n, p, q: (a.reshape(m * n, p * q), a.reshape(m * n, p * q).reshape(m, n, p, q), a.reshape(-1, q), a.reshape(m, -1)))
        o('reshape after permute', [R4, 'm', 'n', 'p', 'q'], lambda t, a, m, n, p, q: (a.permute(2, 0, 3, 1).reshape(p * m, q * n), a.permute(2, 0, 3, 1).reshape(p * m, q * n).reshape(p, m, q, n)))
        o('reshape misaligned', [('mn', d), 'm', 'n'], lambda t, a, m, n: a.reshape(n, m))
        o('view flatten', [R4, 'm'], lambda t, a, m: (a.view(m, -1), a.flatten(), a.flatten(1), t.flatten(a, 1, 2), a.ravel()))
        o('unsqueeze squeeze', [A, ('m1n', d)], lambda t, a, b: (a.unsqueeze(0), a.unsqueeze(-1), a[:, None], a[None], b.squeeze(1), b.squeeze()))
        o('index', [R4], lambda t, a: (a[0], a[1, 2], a[:, 1], a[..., 1], a[-1], a[:, :, -1]))
        o('slice', [('qn', d), 'p', 'm'], lambda t, a, p, m: (a[:p], a[p:], a[p:m], a[1:], a[:-1], a[:, :p], a[:p, 1:]))
        o('slice of a reshape', [('mnq', d), 'p', 'm', 'n', 'q'], lambda t, a, p, m, n, q: a.reshape(m * n, q)[:, :p])
        o('narrow', [('qn', d), 'p'], lambda t, a, p: a.narrow(0, 1, p))
        o('add sub mul', [A, A], lambda t, a, b: (a + b, a - b, a * b, a + 2, 3 * a - 1, 1 - a, t.add(a, b), t.sub(a, b), t.mul(a, b), -a, t.neg(a)))
        o('broadcast', [A, V, ('m1', d)], lambda t, a, b, c: (a * b, a + b, a * c, b * c, a[:, None, :] * b))
        o('division', [A, ('n', d)], lambda t, a, b: (a / b, a / 2, 1 / a, t.div(a, b), t.reciprocal(a)))
        o('powers', [A], lambda t, a: (a ** 2, a ** 3, t.square(a), a.square(), a ** -1))
        o('scalar division by norm', [A], lambda t, a: (a / a.norm(), a / t.norm(a), a * (1.0 / a.norm())))
        o('norm', [A, R4], lambda t, a, b: (a.norm(), t.norm(a), t.linalg.norm(b), b.norm() ** 2, (2 * a).norm(), (-a).norm()))
        o('abs', [A], lambda t, a: (a.abs(), t.abs(a), (a * 2).abs(), (-a).abs()))
        o('sum', [R4], lambda t, a: (a.sum(), a.sum(1), a.sum(dim=-1), a.sum((0, 2)), a.sum(1, keepdim=True), t.sum(a, 0)))
        o('trace diagonal', [('mm', d)], lambda t, a: (a.trace(), t.trace(a), a.diagonal(), t.diagonal(a)))
        o('diag', [V, ('mm', d)], lambda t, a, b: (t.diag(a), t.diag(b), a.diag()))
        o('movedim', [R4], lambda t, a: (t.movedim(a, 0, 2), a.movedim((0, 1), (3, 0)), a.moveaxis(-1, 0)))
        o('select narrow', [('qn', d)], lambda t, a: (a.select(0, 1), t.select(a, 1, -1), t.narrow(a, 0, 1, 2)))
        o('multi_dot', [A, B, ('pq', d)], lambda t, a, b, c: (t.linalg.multi_dot([a, b, c]), t.linalg.matrix_norm(a), t.linalg.vector_norm(c)))
        o('eigvalsh', [('mm', d, 'herm')], lambda t, a: t.linalg.eigvalsh(a))
        o('mean', [R4], lambda t, a: (a.mean(), t.mean(a), a.mean(1)))
        o('unflatten', [('mnq', d), 'm', 'n'], lambda t, a, m, n: a.flatten(0, 1).unflatten(0, (m, n)))
        o('roll', [A, ('4n', d)], lambda t, a, b: (t.roll(b, 1, 0), b.roll(-1, 0), b.roll(5, 0), t.roll(a, 1, 1)))
        o('split', [('qn', d), ('6n', d), 'p', 'q'], lambda t, a, b, p, q: (*t.split(a, [p, q - p]), *a.split([1, q - 1], 0), *b.split(4), *b.chunk(4), *t.unbind(b, 0)))
        o('made like', [A, 'p'], lambda t, a, p: (a.new_zeros(p, 2), a.new_ones((p, p)), a.new_full((2, p), 3.0), a[:1].expand_as(a), a.outer(a) if a.dim() == 1 else a.kron(a), a.type_as(a), a.data + 1, a.swapdims(0, 1)))
        o('flip', [A], lambda t, a: (a.flip(0), t.flip(a, (1,)), a.flip(0, 1)))
        o('conj real imag', [A], lambda t, a: (a.conj(), t.conj(a), a.real, t.real(a), a.conj().conj()))
        o('stack cat', [A, A, ('qn', d)], lambda t, a, b, c: (t.stack([a, b]), t.stack((a, b), dim=1), t.stack([a, b], -1), t.cat([a, c]), t.cat((a, b), dim=1)))
        o('expand', [V, ('1n', d), 'm', 'n'], lambda t, a, b, m, n: (a.expand(m, n), b.expand(m, n), b.expand(m, -1)))
        o('eye zeros ones', [A, 'm', 'n'], lambda t, a, m, n: (t.eye(m, dtype=a.dtype) @ a, t.zeros(m, n, dtype=a.dtype) + a, t.ones(m, n, dtype=a.dtype) * a, t.zeros_like(a), t.ones_like(a), t.full((m, n), 2.5, dtype=a.dtype), t.eye(m, n, dtype=a.dtype)))
        o('in place', [A, A], inplace)
        o('in place through a view', [R4, ('np', d)], views)
        o('copy is separate', [A], lambda t, a: separate(a))
        o('to', [A], lambda t, a: (a.to(t.complex128), a.to(dtype=t.complex128) * 1j))
        o('tensor', [], lambda t: (t.tensor([[1.0, 2.0], [3.0, 4.0]]), t.tensor([1, 2, 3]), t.tensor(2.5), t.tensor([1.0, 2j]), t.tensor([1.0], dtype=t.float64)))
        o('svd', [A], lambda t, a: svd(t, a, False))
        o('svd wide', [('nm', d)], lambda t, a: svd(t, a, False))
        o('svd of a scaled matrix', [A], lambda t, a: svd(t, a * 2.5, False))
        o('svd of a negative', [A], lambda t, a: svd(t, -a, False))
        o('svd of a product', [('nm', d), ('mq', d)], lambda t, a, b: svd(t, a @ b, False), order='q>m>n>p>1')
        o('svd truncated', [A, 'p'], lambda t, a, p: trunc(t, a, p))
        o('svdvals', [A], lambda t, a: t.linalg.svdvals(a))
        o('qr', [A], lambda t, a: qr(t, a))
        o('qr wide', [('nm', d)], lambda t, a: qr(t, a))
        o('qr of a reshaped tensor', [R4, 'm', 'n', 'p', 'q'], lambda t, a, m, n, p, q: qr(t, a.permute(0, 3, 1, 2).reshape(m * q, n * p)))
        o('eigh', [('mm', d, 'herm')], lambda t, a: eigh(t, a))
        o('eigh shifted', [('mm', d, 'herm'), 'm'], lambda t, a, m: (t.linalg.eigh(a + 3 * t.eye(m, dtype=a.dtype))[0], t.linalg.eigvalsh(a) if False else a))
        o('cholesky', [('mn', d, 'gram')], lambda t, a: chol(t, a))
        o('cholesky solve', [('mn', d, 'gram'), ('np', d)], lambda t, a, b: cholsolve(t, a, b))
        o('inverse', [('mm', d), ('mp', d)], lambda t, a, b: (t.linalg.inv(a), t.linalg.inv(a) @ a, t.linalg.solve(a, b), t.linalg.inv(2 * a)))
        o('inverse of a product', [('mm', d), ('mm', d)], lambda t, a, b: t.linalg.inv(a @ b) @ a)
        o('pinv', [('mm', d)], lambda t, a: t.linalg.pinv(a))
        o('matrix_exp', [('mm', d, 'herm')], lambda t, a: (t.matrix_exp(a), t.matrix_exp(-0.5 * a), t.linalg.matrix_exp(a)))
        o('sqrt of positive', [('n', 'f', 'pos')], lambda t, a: (t.sqrt(a), a.sqrt(), a ** 0.5, t.rsqrt(a), a.rsqrt(), a ** -0.5, (4 * a).sqrt(), t.sqrt(2 * a)))
        o('promotion', [A, ('mn', 'f')], lambda t, a, b: (a + b, a * b, b - a, a + 1, a * 1.5, a * 2j, b * 2j))
        o('float32', [('mn', 'f4')], lambda t, b: (b + 1, b * 2.5, b.to(t.float64), b * 2j), tol=1e-6)
        o('max', [('n', 'f')], lambda t, a: (a.max(), t.max(a), (2 * a).max(), (-a).max(), a.abs().max(), t.amax(a), a.min(), -a.min()))
        o('size', [R4], lambda t, a: (a.shape[0], a.shape[-1], a.size(1), a.numel(), a.ndim, a.shape.numel()))
        o('numbers', ['m', 'n', 'p'], lambda t, m, n, p: (m * n - p, m // p, m % n, (m * n + p) % n, m ** 2, -m + 2 * n))


def inplace(t, a, b):
    x = a.clone()
    x += b
    y = a.clone()
    y *= 2
    y -= b
    z = a.clone()
    z /= b.norm()
    w = a.clone()
    w[0] = b[1]
    w[:, 1] += b[:, 0]
    v = a.clone()
    v[1:, :2] = 0
    u = a.clone()
    u.copy_(b)
    s = a.clone()
    s.zero_()
    return x, y, z, w, v, u, s, a


def views(t, a, b):
    x = a.clone()
    v = x[1].permute(2, 0, 1)
    v[0] = b
    v *= 2
    y = a.clone()
    y.permute(1, 2, 0, 3)[..., 0, 1] = b
    return x, v, y, a


def separate(a):
    b = a.clone()
    c = a.detach()
    b += 1
    d = a.clone()
    e = d.mT
    d *= 3
    return a, b, c, d, e


def svd(t, a, full):
    U, S, Vh = t.linalg.svd(a, full_matrices=full)
    return S, (U * S) @ Vh, U.mH @ U, Vh @ Vh.mH, (U * S.sqrt()) @ Vh


def trunc(t, a, p):
    U, S, Vh = t.linalg.svd(a, full_matrices=False)
    return S[:p] / S[0], (U[:, :p] * S[:p]) @ Vh[:p], U[:, :p].mH @ a, S[:p] / S[:p].norm()


def qr(t, a):
    Q, R = t.linalg.qr(a)
    return Q @ R, Q.mH @ Q, Q.mH @ a, Q, R


def eigh(t, a):
    w, z = t.linalg.eigh(a)
    return w, (z * w) @ z.mH, z.mH @ z, z.mH @ a @ z


def chol(t, a):
    L = t.linalg.cholesky(a)
    return L, L @ L.mH


def cholsolve(t, a, b):
    L = t.linalg.cholesky(a)
    y = t.linalg.solve_triangular(L, b, upper=False)
    x = t.linalg.solve_triangular(L.mH, y, upper=True)
    return y, x, a @ x, t.cholesky_solve(b, L)


def main():
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    operations()
    try:
        from tools import selftest_repo
        selftest_repo.cases(sys.modules[__name__])
    except ImportError:
        pass
    n = {'ok': 0, 'FAILED': 0, 'undecided': 0}
    for c in CASES:
        if only and not any(o in c[0] for o in only):
            continue
        try:
            r = run_case(c, verbose)
        except Missing as e:
            r = ('undecided', f'no numeric value for {e}', '')
        except Exception as e:
            r = ('FAILED', f'{type(e).__name__}: {e}', traceback.format_exc())
        n[r[0]] += 1
        if verbose or r[0] != 'ok':
            print(f'{r[0]:9} {c[0]}: {r[1][:300]}')
            if verbose and r[2] and r[0] != 'ok':
                print(r[2])
    print(n)
    return 1 if n['FAILED'] else 0


if __name__ == '__main__':
    sys.exit(main())
