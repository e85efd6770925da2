"""Numeric value of symbolic terms: used by tools/selftest.py to compare the engine with real torch."""
from fractions import Fraction
import hashlib
import math
import re
import numpy as np
import torch
from .core import SymInt, SymRat, ikey
from . import core, tens as T


class Missing(Exception):
    pass


class Numeric:
    """sizes: values of the integer variables. Atoms without a meaning get arbitrary values, fixed by their name."""

    def __init__(self, sizes, seed=0):
        self.sizes, self.seed, self.cache = dict(sizes), seed, {}

    # -- integers
    def int(self, x):
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, SymRat):
            return Fraction(self.int(x.n), self.int(x.d))
        return sum(c * math.prod(self.iatom(k) ** e for k, e in m) for m, c in x.p.items())

    def iatom(self, k):
        a = core._atoms[k]
        if a.kind == 'var':
            if k.startswith('count#'):
                return 10 ** 6          # number of singular values above a cutoff: all of them
            if k not in self.sizes:
                raise Missing(k)
            return self.sizes[k]
        v = [self.int(y) for y in a.args]
        if a.kind == 'mod':
            return v[0] % v[1]
        if a.kind == 'div':
            return v[0] // v[1]
        if a.kind == 'min':
            return min(v)
        if a.kind == 'max':
            return max(v)
        if a.kind == 'fun':
            return self.fun(a.key.split('(')[0], v)
        raise Missing(a.kind)

    def fun(self, name, args):
        """Uninterpreted dimension: some number from 1 to 3."""
        return 1 + hashlib.sha1(f'{name}{args}'.encode()).digest()[0] % 3

    # -- tensors
    def value(self, tv):
        """numpy array of a value, one axis per axis of the tensor."""
        free = tv.free()
        fs = [self.int(T.WSIZE[w]) for w in free]
        out = np.zeros(fs, dtype=complex)
        for t in tv.terms:
            out = out + self.term(t, free, fs)
        return out.reshape([self.int(x) for x in tv.shape])

    def term(self, t, free, fs):
        c = complex(float(t.c[0]), float(t.c[1]))
        ops = []
        for a, cj, e, ar in t.f:
            v, ws = self.factor(a, ar)
            if cj:
                v = v.conj()
            if e != 1:
                v = v ** float(e) if e.denominator != 1 else v ** int(e)
            ops.append((v, ws))
        r, ws = np.array(c), []
        keep = {w: sum(w in o[1] for o in ops) for o in ops for w in o[1]}
        todo = ops
        while todo:
            # smallest next: the operand sharing most wires with what is there
            todo.sort(key=lambda o: (-sum(w in ws for w in o[1]), len(o[1])))
            v, vs = todo.pop(0)
            later = {w for o in todo for w in o[1]}
            res = [w for w in list(dict.fromkeys(list(ws) + list(vs))) if w in later or w in free]
            lab = {w: i for i, w in enumerate(dict.fromkeys(list(ws) + list(vs)))}
            r = np.einsum(r, [lab[w] for w in ws], v, [lab[w] for w in vs], [lab[w] for w in res])
            ws = res
        del keep
        # free wires that no factor has
        full = np.broadcast_to(np.reshape(np.transpose(r, [ws.index(w) for w in free if w in ws]), [n if w in ws else 1 for w, n in zip(free, fs)]), fs)
        return full

    def factor(self, a, ar):
        ws = list(dict.fromkeys(w for x in ar for _, w in x[1]))
        ns = [self.int(T.WSIZE[w]) for w in ws]
        grid = np.indices(ns) if ws else np.zeros((0,))
        idx = []
        for x in ar:
            v = np.full(ns, self.int(x[0]))
            for c, w in x[1]:
                v = v + self.int(c) * grid[ws.index(w)]
            idx.append(v)
        if a.kind == 'delta':
            return (idx[0] == idx[1]).astype(complex), ws
        if a.kind == 'ind':
            lo, hi = (self.int(p) for p in a.params)
            return ((idx[0] >= lo) & (idx[0] < hi)).astype(complex), ws
        arr = self.atom(a)
        if not ar:
            return arr, ws
        ok = np.ones(ns, dtype=bool)
        for v, n in zip(idx, arr.shape):
            ok &= (v >= 0) & (v < n)
        safe = [np.clip(v, 0, n - 1) for v, n in zip(idx, arr.shape)]
        return np.where(ok, arr[tuple(safe)], 0), ws

    def atom(self, a):
        key = a.key + '|' + ','.join(f'{k}={v}' for k, v in sorted(self.sizes.items()) if not k.startswith('_'))
        if key not in self.cache:
            self.cache[key] = np.asarray(self._atom(a), dtype=complex).reshape([self.int(s) for s in a.sizes])
        return self.cache[key]

    def mat(self, v):
        x = torch.from_numpy(self.value(v))
        return x.real.contiguous() if T.is_real(v) else x

    def _atom(self, a):
        k = a.kind
        if k == 'int':
            return self.int(a.params[0])
        if k == 'num':
            return complex(float(Fraction(a.params[0])), float(Fraction(a.params[1])))
        L = torch.linalg
        if k in ('Q', 'R'):
            return L.qr(self.mat(a.params[0]))[0 if k == 'Q' else 1].numpy()
        if k in ('svdU', 'svdS', 'svdV'):
            return L.svd(self.mat(a.params[0]), full_matrices=False)[('svdU', 'svdS', 'svdV').index(k)].numpy()
        if k in ('eigw', 'eigz'):
            return L.eigh(self.mat(a.params[0]))[0 if k == 'eigw' else 1].numpy()
        if k == 'chol':
            return L.cholesky(self.mat(a.params[0])).numpy()
        if k == 'Linv':
            return L.inv(L.cholesky(self.mat(a.params[0]))).numpy()
        if k == 'inv':
            return L.inv(self.mat(a.params[0])).numpy()
        if k == 'pinv':
            return L.pinv(self.mat(a.params[0])).numpy()
        if k == 'expm':
            return torch.matrix_exp(self.mat(a.params[0])).numpy()
        if k == 'norm':
            return self.mat(a.params[0]).norm().numpy()
        if k == 'max':
            return self.mat(a.params[0]).real.max().numpy()
        if k == 'val':
            return self.value(a.params[0])
        if k.startswith('ew_'):
            v = self.value(a.params[0])
            f = {'abs': np.abs, 'exp': np.exp, 'sqrt': np.sqrt}.get(k[3:])
            m = re.fullmatch(r'ew_clampmin_\{:(\d+)(?:/(\d+))?\*\}', k)
            if m:
                f = lambda x: np.maximum(x.real, int(m[1]) / int(m[2] or 1))        # noqa: E731
            if f is None:
                raise Missing(k)
            return f(v)
        if k == 'Sum':
            x, b, lo, hi = a.params
            out = 0
            for n in range(self.int(lo), self.int(hi)):
                inner = Numeric({**self.sizes, b: n}, self.seed)
                out = out + inner.value(x)
            return out
        if k in ('uninit', 'trisolve', 'acc'):
            raise Missing(k)
        return self.leaf(a)

    def leaf(self, a):
        ps = ','.join(str(self.int(p)) if isinstance(p, (int, SymInt)) else str(p) for p in a.params)
        h = int.from_bytes(hashlib.sha1(f'{a.kind}[{ps}]{a.slot}{self.seed}'.encode()).digest()[:4], 'little')
        g = np.random.default_rng(h)
        sh = [self.int(s) for s in a.sizes]
        v = g.uniform(0.2, 1.2, sh) if a.pos else g.standard_normal(sh)
        return v if a.real else v + 1j * g.standard_normal(sh)
