"""Concrete oracles: run the real code of /repo on generated inputs and compare with independent references."""
import itertools
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('ACEV_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Stop(Exception):
    pass


class Skip(Exception):
    """A part of the oracle needs an internal name that is not there."""


class Hang(BaseException):
    """One case has used up its processor time."""


CASE_CPU = 45      # seconds of processor time for one case (the longest takes about one)


class Reporter:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.n = 0
        self.found, self.written = None, 0
        self.evals = 0
        self.violations = []
        self.samples = []
        self.skipped = []
        self.cur = None
        self.hung = False
        self.t0 = time.time()
        self.budget = float(os.environ.get('ACEV_ORACLE_BUDGET', 75 if tier == 'quick' else 500))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def out_of_time(self):
        return time.time() - self.t0 > self.budget

    def check(self, ok, what, **detail):
        self.evals += 1
        if not ok:
            self.violations.append({'case': self.cur, 'what': what, 'detail': {k: str(v)[:400] for k, v in detail.items()}})
            raise Stop()

    def close(self, a, b, what, tol=1e-8, **detail):
        import torch
        if isinstance(a, (list, tuple)):
            a = torch.tensor(a)
        a = torch.as_tensor(a)
        b = torch.as_tensor(b)
        if a.shape != b.shape:
            return self.check(False, what, got_shape=tuple(a.shape), want_shape=tuple(b.shape), **detail)
        ct = torch.complex128 if (a.is_complex() or b.is_complex()) else torch.float64
        a, b = a.detach().to(ct), b.detach().to(ct)
        if a.numel() == 0:
            return self.check(True, what)
        sc = max(float(b.abs().max()), float(a.abs().max()), 1e-300)
        err = float((a - b).abs().max()) / sc
        fin = bool(torch.isfinite(torch.view_as_real(a) if a.is_complex() else a).all())
        self.check(fin and err <= tol, what, relative_error=err, got=a.flatten()[:6].tolist(), want=b.flatten()[:6].tolist(), **detail)

    def prop_close(self, a, b, what, tol=1e-8, **detail):
        """Equal up to a positive factor."""
        a, b = a / a.norm(), b / b.norm()
        self.close(a, b, what, tol, **detail)

    def run(self, name, fn, *args, **kw):
        """One generated case."""
        if self.hung:
            return
        self.cur = {'case': name, 'args': [_short(a) for a in args], **{k: _short(v) for k, v in kw.items()}}
        self.n += 1
        if len(self.samples) < 12 or random.random() < 0.02:
            if len(self.samples) < 24:
                self.samples.append(self.cur)
        try:
            signal.signal(signal.SIGPROF, _hang)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
            try:
                fn(self, *args, **kw)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Stop:
            pass
        except Hang as e:
            self.hung = True
            at = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO)]
            if at:
                self.violations.append({'case': self.cur, 'what': f'no end after {CASE_CPU} s of processor time, at {os.path.relpath(at[-1].filename, REPO)}:{at[-1].lineno} {at[-1].line}',
                                        'detail': {'traceback': traceback.format_exc()[-1800:]}})
            else:
                self.skipped.append(f'{name}: no end after {CASE_CPU} s of processor time')
        except Skip as e:
            self.skipped.append(f'{name}: {e}')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            frames = [f.filename for f in tb]
            inrepo = [i for i, f in enumerate(frames) if f.startswith(REPO)]
            own = os.path.dirname(os.path.abspath(__file__))
            last_own = max([i for i, f in enumerate(frames) if f.startswith(own)], default=-1)
            if isinstance(e, (ImportError, ModuleNotFoundError)) or (isinstance(e, (AttributeError, TypeError)) and not any(i > last_own for i in inrepo)):
                self.skipped.append(f'{name}: {type(e).__name__}: {e}')
            else:
                self.violations.append({'case': self.cur, 'what': f'unexpected {type(e).__name__}: {str(e)[:300]}',
                                        'detail': {'traceback': traceback.format_exc()[-1800:]}})
        if self.found and len(self.violations) > self.written:
            self.written = len(self.violations)
            self.found()

    def result(self):
        return {'cases': self.n, 'evaluations': self.evals, 'violations': self.violations, 'samples': self.samples,
                'skipped': self.skipped, 'wall_s': time.time() - self.t0}


def _hang(*_):
    raise Hang()


def _short(a):
    if isinstance(a, (int, float, str, bool, type(None), complex)):
        return a if not isinstance(a, complex) else str(a)
    if isinstance(a, (list, tuple)):
        return [_short(x) for x in a]
    if isinstance(a, dict):
        return {str(k): _short(v) for k, v in a.items()}
    return str(a)[:80]


def need(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Skip(f'{name} not present')


def imp(modname, name=None):
    import importlib
    try:
        m = importlib.import_module(modname)
        return m if name is None else getattr(m, name)
    except (ImportError, AttributeError) as e:
        raise Skip(str(e))


def setup():
    for k in ('SLURM_JOB_ID', 'RANK', 'WORLD_SIZE', 'SLURM_JOB_NAME', 'SLURM_JOB_PARTITION', 'ACETN_LOG_LEVEL'):
        os.environ.pop(k, None)
    import torch
    torch.set_grad_enabled(False)
    torch.set_num_threads(2)
    import acetn.ipeps       # first: the package has import cycles
    import tqdm
    tqdm.tqdm.write = staticmethod(lambda *a, **k: None)


def config(nx=2, ny=2, D=2, d=2, chi=4, dtype='float64', ctmrg=None, evolution=None, model=None, **kw):
    c = {'dtype': dtype, 'device': 'cpu', 'TN': {'nx': nx, 'ny': ny, 'dims': {'phys': d, 'bond': D, 'chi': chi}},
         'ctmrg': {'disable_progressbar': True, 'steps': 2, 'svd_type': 'full-rank', **(ctmrg or {})},
         'evolution': {'disable_progressbar': True, **(evolution or {})}}
    if model:
        c['model'] = model
    c.update(kw)
    return c


def mk(nx=2, ny=2, D=2, d=2, chi=4, dtype='float64', **kw):
    from acetn.ipeps import Ipeps
    return Ipeps(config(nx, ny, D, d, chi, dtype, **kw))


def tdtype(name):
    import torch
    return getattr(torch, name)


def rnd(g, shape, dtype):
    import torch
    dt = tdtype(dtype) if isinstance(dtype, str) else dtype
    return torch.randn(*shape, dtype=dt, generator=g)


def gen(seed):
    import torch
    return torch.Generator().manual_seed(seed)


def nbr(s, k, nx, ny):
    """Neighbour m_k relation of the boundary dimensions: see right leg of E_k."""
    x, y = s
    return [((x + 1) % nx, y), (x, (y - 1) % ny), ((x - 1) % nx, y), (x, (y + 1) % ny)][k]


def step(s, k, nx, ny):
    """The site one step in leg direction k (0 left, 1 up, 2 right, 3 down)."""
    x, y = s
    return [((x - 1) % nx, y), (x, (y + 1) % ny), ((x + 1) % nx, y), (x, (y - 1) % ny)][k]


def randomize(ip, seed, dims=None, env=True, uniform=None):
    """Random site tensors; random corners and edges with consistent boundary dimensions."""
    import torch
    g = gen(seed)
    r = random.Random(seed)
    nx, ny, D, d = ip.nx, ip.ny, ip.dims['bond'], ip.dims['phys']
    m = {}
    for s in ip.site_list:
        for k in range(4):
            m[k, s] = uniform if uniform else r.choice(dims or [2, 3, 4])
    for s in ip.site_list:
        ip[s]['A'] = rnd(g, (D, D, D, D, d), ip.dtype)
        if env:
            C, E = [], []
            for k in range(4):
                k3 = (k + 3) % 4
                c = rnd(g, (m[k3, nbr(s, k3, nx, ny)], m[k, s]), ip.dtype)
                e = rnd(g, (m[k, s], m[k, nbr(s, k, nx, ny)], D, D), ip.dtype)
                C.append(c / c.norm())
                E.append(e / e.norm())
            ip[s]['C'] = C
            ip[s]['E'] = E
    return ip


def psd_env(ip, seed):
    """A physically sensible random state and environment: random tensors, then a few sweeps."""
    g = gen(seed)
    D, d = ip.dims['bond'], ip.dims['phys']
    for s in ip.site_list:
        a = rnd(g, (D, D, D, D, d), ip.dtype)
        ip[s]['A'] = a / a.norm()
        ip[s].initialize_corner_tensors()
        ip[s].initialize_edge_tensors()
    ip.renormalize()
    return ip


def snap(ip):
    return {s: {'A': ip[s]['A'].clone(), 'C': [c.clone() for c in ip[s]['C']], 'E': [e.clone() for e in ip[s]['E']]} for s in ip.site_list}


def same(a, b):
    import torch
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)


def check_same(rep, before, ip, what, sites=None, skip=()):
    for s in (sites or before):
        if (s, 'A') not in skip:
            rep.check(same(before[s]['A'], ip[s]['A']), f'{what}: site tensor at {s} changed')
        for t in 'CE':
            rep.check(len(ip[s][t]) == 4, f'{what}: {s} has four {t}')
            for k in range(4):
                if (s, t, k) not in skip:
                    rep.check(same(before[s][t][k], ip[s][t][k]), f'{what}: {t}[{k}] at {s} changed')


# ------------------------------------------------------------------ reference contractions

class Net:
    """Collects tensors with named legs and contracts them (independent of the code under test)."""

    def __init__(self):
        self.ops, self.idx, self.names = [], [], {}

    def i(self, n):
        return self.names.setdefault(n, len(self.names))

    def add(self, t, *legs):
        self.ops.append(t)
        self.idx.append([self.i(l) for l in legs])

    def out(self, *legs):
        """Pairwise contraction, smallest intermediate first."""
        import torch
        want = [self.i(l) for l in legs]
        ts = []
        for t, ix in zip(self.ops, self.idx):
            t = t.detach().resolve_conj()
            for a in [a for a in dict.fromkeys(ix) if ix.count(a) > 1]:
                i, j = [q for q, z in enumerate(ix) if z == a]
                t = t.diagonal(dim1=i, dim2=j).sum(-1)
                ix = [z for z in ix if z != a]
            ts.append((t, list(ix)))
        while len(ts) > 1:
            best = None
            for i in range(len(ts)):
                for j in range(i):
                    sh = set(ts[i][1]) & set(ts[j][1])
                    if not sh and len(ts) > 2 and best is not None:
                        continue
                    size = 1
                    for t, ix in (ts[i], ts[j]):
                        for n, a in zip(t.shape, ix):
                            if a not in sh:
                                size *= n
                    size = (not sh, size - ts[i][0].numel() - ts[j][0].numel())
                    if best is None or size < best[0]:
                        best = (size, i, j)
            _, i, j = best
            (t, ix), (u, jx) = ts[i], ts[j]
            sh = [a for a in ix if a in jx]
            v = torch.tensordot(t, u, ([ix.index(a) for a in sh], [jx.index(a) for a in sh]))
            vx = [a for a in ix if a not in sh] + [a for a in jx if a not in sh]
            ts = [x for q, x in enumerate(ts) if q not in (i, j)] + [(v, vx)]
        t, ix = ts[0]
        return t.permute([ix.index(a) for a in want])


def site_rdm_ref(ip, s):
    n = Net()
    C, E, A = ip[s]['C'], ip[s]['E'], ip[s]['A']
    for k in range(4):
        n.add(C[k], f'c{k}a', f'c{k}b')
        n.add(E[k], f'c{k}b', f'c{(k + 1) % 4}a', f'k{(k + 1) % 4}', f'b{(k + 1) % 4}')
    n.add(A, 'k0', 'k1', 'k2', 'k3', 'p')
    n.add(A.conj(), 'b0', 'b1', 'b2', 'b3', 'P')
    return n.out('P', 'p')


def ring_two(n, ip, s1, s2, k, A1, A2):
    """Environment of a bond: s2 lies in direction k of s1. A1, A2: leg name prefixes of the two sites."""
    K = [(k + i) % 4 for i in range(4)]
    X1, X2 = ip[s1], ip[s2]
    # walk around: site 2 owns corners K0,K3 and edge K3; site 1 owns corners K1,K2 and edge K1
    seq = [(X2['C'][K[0]], None, None), (X2['E'][K[0]], A2, (K[0] + 1) % 4), (X1['E'][K[0]], A1, (K[0] + 1) % 4),
           (X1['C'][K[1]], None, None), (X1['E'][K[1]], A1, (K[1] + 1) % 4),
           (X1['C'][K[2]], None, None), (X1['E'][K[2]], A1, (K[2] + 1) % 4), (X2['E'][K[2]], A2, (K[2] + 1) % 4),
           (X2['C'][K[3]], None, None), (X2['E'][K[3]], A2, (K[3] + 1) % 4)]
    for i, (t, pre, leg) in enumerate(seq):
        a, b = f'r{i}', f'r{(i + 1) % len(seq)}'
        if pre is None:
            n.add(t, a, b)
        else:
            n.add(t, a, b, f'{pre}k{leg}', f'{pre}b{leg}')


def bond_rdm_ref(ip, bond):
    s1, s2, k = bond
    n = Net()
    ring_two(n, ip, s1, s2, k, 'x', 'y')
    l1 = [f'xk{j}' if j != k else 'kk' for j in range(4)]
    L1 = [f'xb{j}' if j != k else 'bb' for j in range(4)]
    k2 = (k + 2) % 4
    l2 = [f'yk{j}' if j != k2 else 'kk' for j in range(4)]
    L2 = [f'yb{j}' if j != k2 else 'bb' for j in range(4)]
    n.add(ip[s1]['A'], *l1, 'p')
    n.add(ip[s1]['A'].conj(), *L1, 'P')
    n.add(ip[s2]['A'], *l2, 'q')
    n.add(ip[s2]['A'].conj(), *L2, 'Q')
    return n.out('P', 'Q', 'p', 'q')


def quarter_ref(ip, s, k):
    """Quarter of the environment around corner k: rows (boundary leg, ket, bra) towards direction of edge k, columns the other cut."""
    k %= 4
    X = ip[s]
    n = Net()
    n.add(X['C'][k], 'a', 'b')
    n.add(X['E'][k], 'b', 'c', f'k{(k + 1) % 4}', f'b{(k + 1) % 4}')
    n.add(X['E'][(k + 3) % 4], 'e', 'a', f'k{k}', f'b{k}')
    n.add(X['A'], 'k0', 'k1', 'k2', 'k3', 'p')
    n.add(X['A'].conj(), 'b0', 'b1', 'b2', 'b3', 'p')
    r, d = (k + 2) % 4, (k + 3) % 4
    t = n.out('c', f'k{r}', f'b{r}', 'e', f'k{d}', f'b{d}')
    q = t.shape
    return t.reshape(q[0] * q[1] * q[2], -1), q


def unit(t):
    return t / t.norm()


MOVES = ['left', 'up', 'right', 'down']


def move_geometry(k, idx, nx, ny):
    """For a move of direction k at column/row idx: list of (i, j, s1, s2, cut sites)."""
    out = []
    n = ny if k in (0, 2) else nx
    for i in range(n):
        s1 = (idx, i) if k in (0, 2) else (i, idx)
        s2 = step(s1, (k + 2) % 4, nx, ny)
        # the cut of site s1 separates s1 from its neighbour in leg direction k+3
        s4 = step(s1, (k + 3) % 4, nx, ny)
        s3 = step(s4, (k + 2) % 4, nx, ny)
        j = step(s1, (k + 1) % 4, nx, ny)
        out.append((i, j[1] if k in (0, 2) else j[0], s1, s2, [s1, s2, s3, s4]))
    return out
