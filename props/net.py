"""A network in an arbitrary state whose sites can be read and rewritten inside loops over index ranges of any length."""
from .lib import *
from acev.conts import SymList, frames, touch, solve_key, vsubst, decide_eq, _tick
import z3

SLOTS = [(p, k) for p in 'CE' for k in range(4)] + [('A', 0)]


class Tracked(SymList):
    """List of corners or edges of one site; reads and writes are recorded for the non-interference check of loops."""

    def __getitem__(self, i):
        if isinstance(i, int):
            self.note(i % 4)
        else:
            for k in range(4):
                self.note(k)
        return SymList.__getitem__(self, i)

    def __iter__(self):
        for k in range(4):
            self.note(k)
        return SymList.__iter__(self)

    def note(self, k):
        net, key, part = self.owner
        if frames():
            net.reads.append((key, part, k))


class Net(SymSites):
    """log: ('e', site, SiteTensor) in order of access, ('s', index ranges, site, {slot: tensor}) for what a loop wrote."""
    _acev_net = True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []
        self.birth = _tick()

    def _snap(self):
        return (list(self.log), list(self.reads))

    def _restore(self, s):
        self.log, self.reads = list(s[0]), list(s[1])

    def initial(self, site):
        """Initial tensors of a site (specification side, no effect on the network)."""
        return self.tensors(site)

    def in_cell(self, site):
        x, y = site
        ctx = CTX()
        inr = z3.And(z3i(x) >= 0, z3i(x) < z3i(self.nx), z3i(y) >= 0, z3i(y) < z3i(self.ny))
        if not ctx.known(inr) and not ctx.decide(inr, f'site {ikey(x)},{ikey(y)} in the cell'):
            raise ValueError(f'Site tensor not defined at site {site}.')

    def slots(self, site, log):
        """Current tensors of a site according to the log, and the object that holds them when there is one."""
        over = {}
        for p in reversed(log):
            if p[0] == 'e':
                if decide_eq(p[1], site):
                    cur = {(a, k): p[2]['A'] if a == 'A' else SymList.__getitem__(p[2][a], k) for a, k in SLOTS}
                    return {**cur, **over}, (p[2] if not over else None)
            else:
                r = solve_key(p[1], p[2], site)
                if r is None:
                    continue
                if CTX().decide(r[1], 'site written by the loop'):
                    for s, v in p[3].items():
                        over.setdefault(s, vsubst(v, r[0]))
        init = self.tensors(site)
        cur = {(a, k): init[a] if a == 'A' else init[a][k] for a, k in SLOTS}
        return {**cur, **over}, None

    def _find(self, site):
        site = tuple(site)
        fr = frames()
        if len(fr) > 1:
            raise Unsupported('network used in nested loops over index ranges')
        n = 0
        if fr:
            touch(self, ('read',))
            n = len(fr[0].snaps[id(self)][1][0]) if id(self) in fr[0].snaps else len(self.log)
            for p in reversed(self.log[n:]):
                if decide_eq(p[1], site):
                    return p
            base = self.log[:n]
        else:
            base = self.log
        self.in_cell(site)
        cur, obj = self.slots(site, base)
        if obj is not None and not fr:
            return ('e', site, obj)
        obj = self.SiteTensor(self.dims, site_tensor=Rec(A=cur['A', 0], C=[cur['C', k] for k in range(4)], E=[cur['E', k] for k in range(4)]), dtype=self.dtype, device=self.device)
        for part in 'CE':
            l = obj[part]
            if type(l) is not SymList:
                raise Unsupported('corners or edges not kept as a list')
            l.__class__ = Tracked
            l.owner = (self, site, part)
        e = ('e', site, obj, self.state(obj))
        self.log.append(e)
        return e

    @staticmethod
    def state(obj):
        r = {}
        for a, k in SLOTS:
            t = obj['A'] if a == 'A' else SymList.__getitem__(obj[a], k)
            r[a, k] = (t, t.tv)
        return r

    def __getitem__(self, site):
        return self._find(site)[2]

    def __setitem__(self, site, value):
        raise Unsupported('site replaced')

    def written(self, p):
        now = self.state(p[2])
        return {s: now[s][0] for s in SLOTS if now[s][0] is not p[3][s][0] or now[s][1] is not p[3][s][1]}

    def _finish_loop(self, fr, spec, snap):
        n = len(snap[0])
        new = self.log[n:]
        reads = self.reads[len(snap[1]):]
        writes, segs = [], []
        for p in new:
            w = self.written(p)
            if w:
                segs.append(('s', list(spec), p[1], w))
                writes += [(p[1], a, k) for a, k in w]
        self.independent(spec, writes, reads)
        self.log = self.log[:n] + segs
        self.reads = list(snap[1])

    def independent(self, spec, writes, reads):
        """No iteration reads or writes a tensor that another iteration writes."""
        ctx = CTX()
        if not writes:
            return
        prime = {f: SymInt({((core._iatom('var', (), f + '~').key, 1),): 1}) for f, _, _ in spec}
        rng = []
        for f, lo, hi in spec:
            x = prime[f]
            rng += [z3i(x) >= z3i(vsubst(lo, prime)), z3i(x) < z3i(vsubst(hi, prime))]
        diff = z3.Or(*[z3.Int(f) != z3.Int(f + '~') for f, _, _ in spec])
        for w in writes:
            for r in writes + reads:
                if w[1:] != r[1:]:
                    continue
                e = ct.key_eq(w[0], vsubst(r[0], prime))
                if e is False:
                    continue
                e = z3.BoolVal(True) if e is True else e
                if not ctx.known(z3.Not(z3.And(*(rng + [diff, e])))):
                    raise Unsupported(f'an iteration uses {w[1]}[{w[2]}] of a site that another iteration writes')

    def only_read(self, snap):
        return not any(p[0] == 's' or self.written(p) for p in self.log[len(snap[0]):])

    def touched(self):
        """Anything written so far?"""
        return any(p[0] == 's' or self.written(p) for p in self.log if p[0] == 's' or len(p) > 3)

    def check_site(self, ctx, site, want, name):
        """The current tensors of a site are those wanted: {slot: value}; all others are the initial ones."""
        init = self.initial(site)
        cur, _ = self.slots(site, self.log)
        for a, k in SLOTS:
            if (a, k) in want:
                eq(ctx, cur[a, k], want[a, k], f'{name}: {a}[{k}]', self.dtype)
            else:
                eq(ctx, cur[a, k], init['A'] if a == 'A' else init[a][k], f'{name}: {"site tensor" if a == "A" else f"{a}[{k}]"} unchanged', self.dtype)
