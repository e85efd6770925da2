import types
from .lib import *
from .trace import *
from . import c07, c14, c15, c16
from .c06 import Mover
from .c07 import LOWRANK
from .c18 import Env, Nw, config
from .net import Net

CF = 'acetn/ipeps/ipeps_config.py:'
IP = 'acetn/ipeps/ipeps.py:Ipeps.'

# documented options: kind and default (docs/source/input_settings.rst)
DOC = {
    'TN': {'nx': ('int', 2), 'ny': ('int', 2)},
    'dims': {'phys': ('int', 2), 'bond': ('int', 2), 'chi': ('int', 20)},
    'ctmrg': {'steps': ('int', 40), 'projectors': (('half-system', 'full-system'), 'half-system'), 'svd_type': (('rsvd', 'full-rank'), 'rsvd'), 'svd_cutoff': ('real', 1e-12),
              'rsvd_niter': ('int', 2), 'rsvd_oversampling': ('int', 2), 'disable_progressbar': ((False, True), False)},
    'evolution': {'backend': (('torch',), 'torch'), 'update_type': (('full', 'simple'), 'full'), 'use_gauge_fix': ((True, False), True), 'gauge_fix_atol': ('real', 1e-12),
                  'positive_approx_cutoff': ('real', 1e-12), 'als_niter': ('int', 100), 'als_tol': ('real', 1e-15), 'als_method': (('cholesky', 'pinv'), 'cholesky'),
                  'als_epsilon': ('real', 1e-12), 'disable_progressbar': ((False, True), False)},
}


def symbolic(sec, opt, pick=-1):
    """An arbitrary value of an option; of several named values the one asked for."""
    kind = DOC[sec][opt][0]
    if kind == 'int':
        return ivar(f'{sec}_{opt}', 1 if sec in ('TN', 'dims') else 0)
    if kind == 'real':
        return st.real_param(f'{sec}_{opt}', 0, 1)
    return kind[pick]


def agrees(got, want):
    if got is want:
        return True
    if isinstance(want, (SymInt, STensor)) or isinstance(got, (SymInt, STensor)):
        if isinstance(want, bool) or isinstance(got, bool) or isinstance(want, str) or isinstance(got, str):
            return False
        if isinstance(want, (int, SymInt)) and isinstance(got, (int, SymInt)):
            return ieq(got, want)
        try:
            return T.equal(st.as_tv(got), st.as_tv(want))[0]
        except (TypeError, ValueError):
            return False
    return type(got) is type(want) and got == want


def has(ctx, obj, sec, want, name):
    """obj carries the given options (others: documented defaults)."""
    for opt, (_, default) in DOC[sec].items():
        w = want.get(opt, default)
        g = getattr(obj, opt, None) if sec != 'dims' else (obj[opt] if opt in obj else None)
        ctx.check((agrees(g, w), f'{g!r} instead of {w!r}'), f'{name}: {sec}.{opt} is the value {"given" if opt in want else "documented as default"}', 'structural')


def build(L, **kw):
    """IpepsConfig from Python dictionaries."""
    conf = ct.SymDict()
    for k, v in kw.items():
        conf[k] = v
    if 'TN' not in kw:
        conf['TN'] = ct.SymDict()
    return L('acetn.ipeps.ipeps_config', 'IpepsConfig')(**conf)


def sd(d):
    r = ct.SymDict()
    for k, v in d.items():
        r[k] = v
    return r


def combos(sec, pick):
    """Every combination of given and omitted options of a section."""
    def fn(ctx):
        L = Loader()
        opts = list(DOC[sec])
        others = [s for s in ('ctmrg', 'evolution') if s != sec]
        full = {s: {o: symbolic(s, o) for o in DOC[s]} for s in others}
        val = {o: symbolic(sec, o, pick) for o in opts}
        for mask in range(1 << len(opts)):
            want = {o: val[o] for i, o in enumerate(opts) if mask >> i & 1}
            kw = {s: sd(full[s]) for s in others if mask.bit_count() % 2}
            given = sd(want)
            if sec == 'dims':
                kw['TN'] = sd({'dims': given}) if mask or pick else sd({})
            else:
                kw[sec] = given
            c = build(L, **kw)
            has(ctx, c.TN.dims if sec == 'dims' else getattr(c, sec), sec, want, 'configuration')
            for s in others:
                has(ctx, getattr(c, s), s, full[s] if s in kw else {}, 'configuration')
            if sec == 'dims':
                ctx.check((sorted(c.TN.dims) == ['bond', 'chi', 'phys'], ''), 'dimensions')
                ctx.check((ieq(c.model.dim, c.TN.dims['phys']), ''), 'the model has the physical dimension')
            ctx.check((sorted(given) == sorted(want) and all(given[o] is want[o] for o in want), ''), 'dictionary of the caller unchanged')
        end(ctx)
    return fn


def types_devices(ctx):
    """dtype and device in every accepted form, with and without CUDA."""
    for cuda in (False, True):
        L = Loader()
        L.torch.cuda.is_available = lambda: cuda
        dtypes = [(None, F64)] + [(n, DT[n]) for n in DT] + [(DT[n], DT[n]) for n in DT]
        gpu = 'cuda' if cuda else 'cpu'
        devices = [(None, gpu), ('cpu', 'cpu'), (st.device('cpu'), 'cpu'), ('cuda', gpu), (st.device('cuda'), gpu), ('cuda:1', gpu), (st.device('cuda', 1), gpu)]
        for dt, wt in dtypes + [('omitted', F64)]:
            for dv, wd in devices + [('omitted', 'cpu')]:
                kw = {}
                if dt != 'omitted':
                    kw['dtype'] = dt
                if dv != 'omitted':
                    kw['device'] = dv
                c = build(L, **kw)
                ctx.check((c.dtype is wt and c.model.dtype is wt, f'{dt}: {c.dtype}'), 'dtype: as given, float64 by default, the same for the model')
                w = st.device(dv) if cuda and dv not in (None, 'omitted') else st.device(wd)
                ctx.check((isinstance(c.device, st.device) and c.device == w and c.model.device == w, f'{dv}: {c.device}'), 'device: as given, the cpu by default and when CUDA is not available, the same for the model')
    end(ctx)


def model_section(ctx):
    L = Loader()
    p = sd({'a': st.real_param('a'), 'b': ivar('b'), 'none': None, 'zero': 0, 'text': '', 'off': False})
    for name in ('heisenberg', 'ising', 'custom', None):
        for given in (True, False):
            m = sd({})
            if name is not None:
                m['name'] = name
            if given:
                m['params'] = p
            c = build(L, model=m)
            ctx.check((c.model.name == name, f'{c.model.name}'), 'model name as given, none by default')
            q = c.model.params
            ctx.check((q is not None and sorted(q) == (sorted(p) if given else []) and all(q[k] is p[k] for k in q), f'{q}'), 'model parameters as given, none by default')
    ctx.check((build(L).model.name is None, ''), 'no model by default')
    end(ctx)


class Text(str):
    """An arbitrary string: comparisons and searches have arbitrary (consistent) answers."""

    def __new__(cls, tag):
        r = str.__new__(cls, '<' + tag + '>')
        r.tag = tag
        return r

    def __contains__(self, x):
        return CTX().opaque(f'{x!r} in {self.tag}')

    def __eq__(self, x):
        return CTX().opaque(f'{self.tag} == {x!r}')

    def __ne__(self, x):
        return not self == x

    __hash__ = str.__hash__

    def _no(self, *a, **k):
        raise Unsupported('operation on an arbitrary string')
    for _n in ('lower', 'upper', 'split', 'strip', 'startswith', 'endswith', 'find', 'index', 'casefold', 'replace', 'partition', 'count', '__add__', '__getitem__', '__iter__', '__len__', '__bool__',
               '__lt__', '__gt__', 'join', 'format'):
        locals()[_n] = _no


def slurm(job, name, part):
    """Any job and partition name."""
    def fn(ctx):
        env = ct.SymDict()
        if job:
            env['SLURM_JOB_ID'] = '17'
        if name:
            env['SLURM_JOB_NAME'] = Text('job name')
        if part:
            env['SLURM_JOB_PARTITION'] = Text('partition')
        L = Loader(env=env)
        for a in (None, False, True):
            for b in (None, False, True):
                kw = {}
                if a is not None:
                    kw['ctmrg'] = sd({'disable_progressbar': a})
                if b is not None:
                    kw['evolution'] = sd({'disable_progressbar': b})
                c = build(L, **kw)
                inter = (name and CTX().opaque("'interactive' in job name")) or (part and CTX().opaque("partition == 'interactive'"))
                hide = bool(job and not inter)
                for s, v in (('ctmrg', a), ('evolution', b)):
                    ctx.check((getattr(c, s).disable_progressbar is (hide or bool(v)), ''), f'{s} progress bar: hidden in non-interactive SLURM jobs, otherwise as configured')
        end(ctx)
    return fn


def rejected(ctx):
    L = Loader()
    Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
    IpepsConfig = L('acetn.ipeps.ipeps_config', 'IpepsConfig')

    def no(f, name, what=''):
        try:
            f()
            ok = False
        except (Unsupported, core.PathEnd, core.Infeasible):
            raise
        except Exception:
            ok = True
        ctx.check((ok, str(what)), name)
    for sec in ('TN', 'ctmrg', 'evolution', 'model'):
        for opt in ('no_such_option', 'Steps', 'tol', 'svdcutoff', 'niter', 'projector', 'chi', 'bond'):
            no(lambda: build(L, **{sec: sd({opt: 1})}), 'unknown options are rejected', f'{sec}.{opt}')
    for opt in ('D', 'Bond', 'boundary', 'x'):
        no(lambda: build(L, TN=sd({'dims': sd({opt: 2})})), 'unknown dimensions are rejected', opt)
        no(lambda: build(L, TN=sd({'dims': sd({'phys': 2, 'bond': 2, 'chi': 3, opt: 2})})), 'unknown dimensions are rejected', opt)
    for sec in ('tn', 'CTMRG', 'evolve', 'options'):
        no(lambda: build(L, **{sec: sd({})}), 'unknown sections are rejected', sec)
    for dt in ('float63', 'double precision', 'Float64'):
        no(lambda: build(L, dtype=dt), 'unknown dtypes are rejected', dt)
    PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
    for p in ('half', 'full', 'Half-System', 'fullsystem', '', 'quarter-system'):
        no(lambda: PC(build(L, ctmrg=sd({'projectors': p})).ctmrg), 'unknown projector types are rejected', p)
    env = Env(ctx, L, 'full')
    f = L.mods['acetn.evolution.evolve'].__dict__['create_tensor_updater']
    for u in ('fast', 'FULL', '', 'ful', 'cluster', None):
        no(lambda: f(Nw(), object(), build(L, evolution=sd({'update_type': u})).evolution), 'unknown update schemes are rejected', u)
    ctx.check((not env.made, ''), 'no updater made')
    # models
    log = []
    m = L.mods['acetn.ipeps.ipeps'].__dict__
    for n in ('ctmrg', 'measure', 'evolve'):
        rename(L, m[n], lambda *a: log.append(a))
    for name in ('nosuch', 'Ising2', 'heisenberg ', None):
        ip = Ipeps(config(d=2, nx=2, ny=1, model=sd({'name': name} if name else {})))
        no(lambda: ip.evolve(0.1, 1), 'unknown models are rejected', name)
        no(lambda: ip.measure(), 'unknown models are rejected', name)
    ctx.check((not log, ''), 'nothing is done for an unknown model')
    ip = Ipeps(config(d=2, nx=2, ny=1, model=sd({'name': 'ising'})))
    for c in (dict, int, object, Mover):
        no(lambda: ip.set_model(c, sd({}), 'mine'), 'classes that are no models are rejected', c.__name__)
    no(lambda: L.mods['acetn.ipeps.ipeps'].__dict__['model_factory'].create(types.SimpleNamespace(name='mine')), 'a rejected class is not registered')
    end(ctx)


# ------------------------------------------------------------------ options reaching what they are documented for

def chosen(kind, svd):
    return {'projectors': kind, 'svd_type': svd, 'svd_cutoff': symbolic('ctmrg', 'svd_cutoff'), 'rsvd_niter': symbolic('ctmrg', 'rsvd_niter'), 'rsvd_oversampling': symbolic('ctmrg', 'rsvd_oversampling')}


def truncation(kind, svd, how, k):
    """Projector type, decomposition, cutoff, oversampling, iterations and boundary dimension act on the projectors."""
    def prepare(ctx, L, net):
        if how == 'defaults':
            want = {}
        else:
            want = chosen(kind, svd)
        conf = build(L, ctmrg=sd(want)).ctmrg
        if how == 'changed chi':
            chi = ivar('chi2', 1)
            L('acetn.ipeps.ipeps', 'Ipeps').set_chi(net, chi)
            net.chi = chi
        w = {o: want.get(o, d) for o, (_, d) in DOC['ctmrg'].items()}
        return types.SimpleNamespace(**w), conf
    return c07.projectors(k, 0, 0, kind, svd, C128, prepare)


def set_chi(ctx):
    """A changed boundary dimension is the boundary dimension of the network from then on, and of it only."""
    L = Loader()
    Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
    conf = config()
    ip, other = Ipeps(conf), Ipeps(conf)
    cp = ip.copy()
    old = dict(chi=ivar('chi', 1), bond=ivar('D', 1), phys=ivar('d', 1))
    for n in range(2):
        c = ivar(f'c{n}', 1)
        ip.set_chi(c)
        for k, w in (('chi', c), ('bond', old['bond']), ('phys', old['phys'])):
            int_eq(ctx, ip.dims[k], w, f'dimension {k} of the network')
            int_eq(ctx, other.dims[k], old[k], f'dimension {k} of another network')
            int_eq(ctx, cp.dims[k], old[k], f'dimension {k} of a copy made before')
            int_eq(ctx, ip.copy().dims[k], w, f'dimension {k} of a copy made after')
    end(ctx)


def boundary(given, rank):
    """Number of sweeps, progress bar and the truncation options of a CTMRG run started by renormalize."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        trace, made = Trace(), []
        L('acetn.renormalization.ctmrg')
        PC = L('acetn.renormalization.projectors', 'ProjectorCalculator')
        rename(L, PC, lambda c: (made.append(c), types.SimpleNamespace(calculate=None))[1])
        DM = L('acetn.renormalization.directional_mover', 'DirectionalMover')

        class M(DM):
            def left_move(self, ipeps, i):
                trace.add('left', i)

            def nothing(self, ipeps, i):
                pass
            right_move = up_move = down_move = nothing
        rename(L, DM, M)
        want = {o: symbolic('ctmrg', o) for o in DOC['ctmrg']} if given else {}
        if not given and rank is None:
            want = {'disable_progressbar': True}
        ip = Ipeps(config(nx=1, ny=1, ctmrg=sd(want)))
        ip.rank = rank or 0
        ctx.data['tqdm'] = []
        ip.renormalize()
        end(ctx)
        if ctx.check((len(made) >= 1, ''), 'projectors are made'):
            for c in made:
                has(ctx, c, 'ctmrg', want, 'projectors')
        N = want.get('steps', 40)
        t = only(trace.log, lambda e: e[0] == 'left')
        if isinstance(N, int):
            ctx.check((len(flat(t)) == N, f'{len(flat(t))}'), 'documented number of sweeps')
        elif t:
            if len(t) != 1 or t[0][0] != 'loop' or len(t[0][1]) != 1:
                raise Unsupported('sweeps are not a single loop')
            int_eq(ctx, seg_size(t[0][1]), N, 'configured number of sweeps')
        else:
            ctx.check((ctx.known(z3i(N) == 0), ''), 'configured number of sweeps')
        bars(ctx, want.get('disable_progressbar', False) or ip.rank != 0)
    return fn


def bars(ctx, hide):
    log = ctx.data['tqdm']
    if ctx.check((len(log) >= 1, ''), 'progress is shown'):
        for k in log:
            d = k.get('disable', False)
            ctx.check((isinstance(d, bool) and d == hide, f'{d}'), 'progress bar hidden if and only if configured, and on all but the first process')


def scheme(kind, given, rank, hide):
    """Update scheme, number of steps and progress bar of an evolution started by evolve."""
    def fn(ctx):
        L = Loader()
        env = Env(ctx, L, kind)
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        m = L.mods['acetn.ipeps.ipeps'].__dict__
        rename(L, m['ctmrg'], lambda *a: None)
        want = {o: symbolic('evolution', o) for o in DOC['evolution']} if given else {}
        if given:
            want['update_type'], want['disable_progressbar'] = kind, hide
        ip = Ipeps(config(nx=2, ny=1, d=2, evolution=sd(want), model=sd({'name': 'heisenberg'})))
        ip.rank = rank
        ctx.data['tqdm'] = []
        ip.evolve(0.1, 3)
        end(ctx)
        ctx.check((len(env.made) == 1 and env.made[0][0] == kind, f'{[e[0] for e in env.made]}'), 'update scheme as configured, the full update by default')
        has(ctx, env.made[0][3], 'evolution', want, 'updater')
        n = len([e for e in flat(env.trace.log) if e[0] == 'update'])
        ctx.check((n == 3 * len(ip.bond_list), f'{n}'), 'number of steps')
        bars(ctx, bool(given and hide) or rank != 0)
    return fn


def full_update(given, gauge):
    """Options of the full update: truncation of the norm environment, gauge, boundary moves, solver."""
    def fn(ctx):
        L = Loader()
        F = L('acetn.evolution.fast_full_update', 'FastFullUpdater')
        fu = L.mods['acetn.evolution.full_update']
        want = {o: symbolic('evolution', o) for o in DOC['evolution']} if given else {}
        if given:
            want['use_gauge_fix'] = gauge
        cw = {o: symbolic('ctmrg', o) for o in DOC['ctmrg']} if given else {}
        conf = build(L, evolution=sd(want), ctmrg=sd(cw))
        made, als, pos, gf = [], [], [], []
        rename(L, L('acetn.renormalization.directional_mover', 'DirectionalMover'), lambda c: (made.append(c), types.SimpleNamespace())[1])
        D, d, nD = c14.sizes(ctx)
        rename(L, fu.__dict__['ALSSolver'], c14.als_stub(als, nD, D, d, C128))

        def positive_approx(n12, cutoff=None):
            pos.append(cutoff)
            return leaf('nz', (), (nD, nD, nD * nD), C128)

        def gauge_fix(nz, a12g, atol=None):
            gf.append(atol)
            return leaf('gn', (), (nD,) * 4, C128), leaf('ga', (), (nD, nD, d, d), C128), leaf('gx', (), (nD, nD), C128), leaf('gy', (), (nD, nD), C128)
        rename(L, fu.__dict__['positive_approx'], positive_approx)
        rename(L, fu.__dict__['gauge_fix'], gauge_fix)

        class N:
            config, dims, rank, is_distributed, world_size = conf, {'bond': D, 'phys': d, 'chi': 4}, 0, False, 1
        u = F(N(), object(), conf.evolution)
        if ctx.check((len(made) == 1, ''), 'boundary moves are made'):
            has(ctx, made[0], 'ctmrg', cw, 'boundary moves of the evolution')
        a = [leaf(n, (), (nD, D, d), C128) for n in ('a1r', 'a2r')]
        u.update_reduced_tensors(a[0], a[1], leaf('n12', (), (nD,) * 4, C128), leaf('G', (), (d,) * 4, C128))
        ok = lambda log, v, n: ctx.check((len(log) == n and all(agrees(x, v) for x in log), f'{log} instead of {v}'), 'option reaches its step')
        ok(pos, want.get('positive_approx_cutoff', 1e-12), 1)
        ok(gf, want.get('gauge_fix_atol', 1e-12), 1 if gauge else 0)
        if ctx.check((len(als) == 1, ''), 'one reduced problem'):
            has(ctx, als[0][3], 'evolution', want, 'solver')
        end(ctx)
    return fn


def tolerance(given):
    """The tolerance of the gauge fixing is that of its pseudo-inverses."""
    def fn(ctx):
        L = Loader()
        D, d, n = c14.sizes(ctx)
        nz, A = leaf('nz', (), (n, n, n * n), C128), leaf('A12', (), (n, n, d, d), C128)
        atol = st.real_param('atol', 0)
        f = L('acetn.evolution.full_update', 'gauge_fix')
        f(nz, A, atol) if given else f(nz, A)
        calls = [kw for nm, kw in ctx.data.get('calls', []) if nm == 'pinv']
        ctx.check((len(calls) >= 1 and all('atol' in kw and agrees(kw['atol'], atol if given else 1e-12) for kw in calls), f'{calls}'), 'the pseudo-inverses use the tolerance')
        end(ctx)
    return fn


def solver_defaults(ctx):
    """Without options: at most 100 rounds, documented tolerance, regularisation and method."""
    L = Loader()
    cls = L('acetn.evolution.als_solver', 'ALSSolver')
    conf = build(L).evolution
    nD, bD, d = ivar('nD', 1), ivar('bD', 1), ivar('d', 1)
    n12, a12g = leaf('n12', (), (nD,) * 4, C128), leaf('a12g', (), (nD, nD, d, d), C128)
    s = cls(n12, a12g, (nD, bD, d), conf)
    R, S = leaf('R', (), (nD, bD, nD, bD), C128), leaf('S', (), (nD, bD, d), C128)
    x = s.solve_ar(R, S)
    c16.solved(ctx, x, c16.merge(R, (0, 1), (2, 3)), c16.merge(S, (0, 1), (2,)), 'cholesky', STensor(st.as_tv(1e-12), F64), 'the reduced problem is solved with the documented method and regularisation')
    end(ctx)


def rounds(niter, how):
    """The limit on the number of rounds and the tolerance stop the iteration."""
    def fn(ctx):
        L = Loader()
        cls = L('acetn.evolution.als_solver', 'ALSSolver')
        kw = {'als_niter': niter} if niter is not None else {}
        kw['als_tol'] = 0.0 if how == 'never' else 1e30
        conf = build(L, evolution=sd(kw)).evolution
        nD, bD, d = ivar('nD', 1), ivar('bD', 1), ivar('d', 1)
        n12, a12g = leaf('n12', (), (nD,) * 4, F64), leaf('a12g', (), (nD, nD, d, d), F64)
        log = []

        class S(cls):
            def initialize_tensors(self):
                return (leaf('i1', (), (nD, bD, d), F64), leaf('i2', (), (nD, bD, d), F64), leaf('t', (), (nD, nD, d, d), F64))

            def solve_a1r(self, n12g, a):
                log.append(1)
                return leaf('x1', (len(log),), (nD, bD, d), F64)

            def solve_a2r(self, n12g, a):
                log.append(2)
                return leaf('x2', (len(log),), (nD, bD, d), F64)

            @staticmethod
            def calculate_cost(*a):
                # the distance falls by more than any tolerance ('never'), or not at all
                return st.tensor(2.0 ** -len(log) if how == 'never' else 1.0, dtype=F64)
        S(n12, a12g, (nD, bD, d), conf).solve()
        n = 100 if niter is None else niter
        if how == 'tolerance':
            n = min(n, 3)
        ctx.check((log == [1, 2] * n, f'{len(log)}'), 'number of rounds')
        end(ctx)
    return fn


def backend(avail, given, method):
    """The compiled solver is used if and only if it is configured and built, with the configured options."""
    def fn(ctx):
        L = Loader()
        calls = []
        if avail:
            m = types.ModuleType('acetn.evolution._extensions._C_cutensor')

            def als_solve(*a):
                calls.append(a)
                return leaf('c1', (), (nD, bD, d), C128), leaf('c2', (), (nD, bD, d), C128)
            m.als_solve = als_solve
            L.mods[m.__name__] = m
        cls = L('acetn.evolution.als_solver', 'ALSSolver')
        want = {o: symbolic('evolution', o) for o in ('als_niter', 'als_tol', 'als_epsilon')}
        want['als_method'], want['backend'] = method, given
        conf = build(L, evolution=sd(want)).evolution
        use = avail and given == 'cutensor'
        has(ctx, conf, 'evolution', dict(want, backend='cutensor' if use else 'torch'), 'the compiled backend falls back to torch when it is not built')
        plain = L.torch.cuda.is_available
        L.torch.cuda.is_available = lambda: True
        for dv in ('cuda', st.device('cuda', 1), None, 'cpu'):
            gpu = build(L, device=dv, evolution=sd(want)).evolution
            has(ctx, gpu, 'evolution', dict(want, backend='cutensor' if use else 'torch'), 'the compiled backend falls back to torch when it is not built, on every device')
        L.torch.cuda.is_available = plain
        bD, d, nD = c14.sizes(ctx)
        n12, a12g = leaf('n12', (), (nD,) * 4, C128), leaf('a12g', (), (nD, nD, d, d), C128)
        seen = []

        class S(cls):
            def solve_torch(self, a, b, n):
                seen.append((a, b, n))
                return leaf('t1', (), (nD, bD, d), C128), leaf('t2', (), (nD, bD, d), C128)
        s = S(n12, a12g, (nD, bD, d), conf)
        i1, i2, t = s.initialize_tensors()
        x1, x2 = s.solve()
        ctx.check((len(calls) == int(use) and len(seen) == int(not use), f'{len(calls)} {len(seen)}'), 'configured backend used')
        nm = 'c' if use else 't'
        eq(ctx, x1, leaf(nm + '1', (), (nD, bD, d), C128), 'result of the backend: first tensor')
        eq(ctx, x2, leaf(nm + '2', (), (nD, bD, d), C128), 'result of the backend: second tensor')
        if use and calls:
            a = calls[0]
            if ctx.check((len(a) == 9, f'{len(a)}'), 'arguments of the compiled solver'):
                for g, w, n in zip(a, (i1, i2, t, n12, a12g), ('first start tensor', 'second start tensor', 'right-hand side', 'environment', 'target')):
                    eq(ctx, g, w, f'compiled solver: {n}')
                for g, o in zip(a[5:], ('als_niter', 'als_tol', 'als_method', 'als_epsilon')):
                    ctx.check((agrees(g, want[o]), f'{g}'), f'compiled solver: {o}')
        end(ctx)
    return fn


# ------------------------------------------------------------------ models

def used(ctx, L):
    """Records the models that evolve and measure hand on."""
    m = L.mods['acetn.ipeps.ipeps'].__dict__
    log = []
    rename(L, m['ctmrg'], lambda *a: None)
    rename(L, m['measure'], lambda ipeps, model: log.append(model))
    rename(L, m['evolve'], lambda ipeps, dtau, steps, model, conf: log.append(model))
    return log


def builtin(name, how):
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        log = used(ctx, L)
        p = {'jz': st.real_param('jz'), 'hx': st.real_param('hx'), 'J': st.real_param('J')}
        m = sd({'name': name})
        if how != 'none':
            m['params'] = sd(p)
        c = config(d=2, nx=2, ny=2, model=m)
        c['dtype'] = 'complex128'
        ip = Ipeps(c)
        if how == 'set':
            ip.set_model_params(J=st.real_param('J2'), hx=st.real_param('h2'))
            p['J'], p['hx'] = st.real_param('J2'), st.real_param('h2')
        if how == 'none':
            p = {}
            if name == 'ising':
                ip.set_model_params(jz=st.real_param('jz3'), hx=st.real_param('h3'))
                p = {'jz': st.real_param('jz3'), 'hx': st.real_param('h3')}
        cls = L('acetn.model.models', {'ising': 'IsingModel', 'heisenberg': 'HeisenbergModel'}[name])
        for f in (lambda: ip.measure(), lambda: ip.evolve(0.1, 1)):
            del log[:]
            f()
            if not ctx.check((len(log) == 1 and isinstance(log[0], cls), f'{log}'), 'model of the configured name'):
                continue
            mod = log[0]
            ctx.check((sorted(mod.params) == sorted(p) and all(agrees(mod.params[k], p[k]) for k in p), f'{mod.params}'), 'model parameters as configured and changed')
            ctx.check((mod.dtype is C128 and mod.device == st.CPU and ieq(mod.dim, 2) and mod.name == name, ''), 'model has the dtype, device and dimension of the network')
            b = ip.bond_list[0]
            H = mod.two_site_hamiltonian(b)
            from .c20 import true, kron, value
            if name == 'ising':
                want = T.scale(T.mul(p['jz'].tv, kron(true('Z'), true('Z'))), -1)
                ctx.check(T.equal(mod.one_site_hamiltonian((0, 0)).mat.tv, T.scale(T.mul(p['hx'].tv, true('X')), -1)), 'the transverse field has the configured strength', 'tensor kernel')
            else:
                J = p['J'].tv if 'J' in p else T.const(1)
                s = None
                for k in 'XYZ':
                    t = kron(true(k), true(k))
                    s = t if s is None else T.add(s, t)
                want = T.scale(T.mul(J, s), T.frac(0.25))
            ctx.check(T.equal(H.mat.tv, want), 'the coupling has the configured strength, 1 by default', 'tensor kernel')
        end(ctx)
    return fn


def registered(ctx):
    """A class registered under a name is the one a configuration of that name uses."""
    L = Loader()
    Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
    Model = L('acetn.model', 'Model')
    log = used(ctx, L)
    factory = L.mods['acetn.ipeps.ipeps'].__dict__['model_factory']
    names = ('xy', 'MyModel', 'J1-J2 model', 'ising_2', 'HEIS')
    cls = {}
    for n in names:
        class M(Model):
            def two_site_hamiltonian(self, bond):
                raise Unsupported('not called')
        cls[n] = M
        factory.register(n, M)
    for n in names:
        a = st.real_param('a')
        ip = Ipeps(config(d=2, nx=2, ny=1, model=sd({'name': n, 'params': sd({'a': a})})))
        for f in (lambda: ip.measure(), lambda: ip.evolve(0.1, 1)):
            del log[:]
            f()
            ctx.check((len(log) == 1 and type(log[0]) is cls[n], f'{n}: {log}'), 'a registered class is used for its name')
            ctx.check((sorted(log[0].params) == ['a'] and agrees(log[0].params['a'], a), ''), 'with the configured parameters')
    for n, c in (('ising', 'IsingModel'), ('heisenberg', 'HeisenbergModel')):
        ip = Ipeps(config(d=2, nx=2, ny=1, model=sd({'name': n})))
        del log[:]
        ip.measure()
        ctx.check((len(log) == 1 and type(log[0]) is L('acetn.model.models', c), ''), 'the other names keep their class')
    end(ctx)


def custom(name):
    """Models and parameters set through the public methods are those used afterwards."""
    def fn(ctx):
        L = Loader()
        Ipeps = L('acetn.ipeps.ipeps', 'Ipeps')
        Model = L('acetn.model', 'Model')
        log = used(ctx, L)

        class M(Model):
            def two_site_hamiltonian(self, bond):
                raise Unsupported('not called')

        class K(M):
            pass
        ip = Ipeps(config(d=2, nx=2, ny=1, model=sd({'name': 'ising', 'params': sd({'jz': 1.0})})))
        runs = (lambda m=None: ip.measure(m) if m else ip.measure(), lambda m=None: ip.evolve(0.1, 1, m) if m else ip.evolve(0.1, 1))

        def expect(cls, params, what):
            for f in runs:
                del log[:]
                f()
                ctx.check((len(log) == 1 and type(log[0]) is cls, f'{log}'), f'{what}: model used')
                ctx.check((sorted(log[0].params) == sorted(params) and all(agrees(log[0].params[k], v) for k, v in params.items()), f'{log[0].params}'), f'{what}: parameters used')
                ctx.check((log[0].dtype is F64 and log[0].device == st.CPU and ieq(log[0].dim, 2), ''), f'{what}: dtype, device and dimension of the network')
        a, b = st.real_param('a'), st.real_param('b')
        ip.set_model(M, sd({'a': a, 'n': 3}), name=name) if name else ip.set_model(M, sd({'a': a, 'n': 3}))
        expect(M, {'a': a, 'n': 3}, 'model set')
        ip.set_model_params(a=b)
        expect(M, {'a': b, 'n': 3}, 'parameter changed')
        ip.set_model_params(n=4, c=a)
        expect(M, {'a': b, 'n': 4, 'c': a}, 'parameters changed and added')
        ip.set_model(K, sd({'z': a}), name=name) if name else ip.set_model(K, sd({'z': a}))
        expect(K, {'z': a}, 'another model set')
        mine = M(types.SimpleNamespace(name='x', params=sd({}), dtype=F64, device=st.CPU, dim=2))
        for f in runs:
            del log[:]
            f(mine)
            ctx.check((log == [mine], f'{log}'), 'a model given is used instead of the configured one')
        expect(K, {'z': a}, 'configured model afterwards')
        end(ctx)
    return fn


def units(tier):
    us = []
    pi = [CF + 'IpepsConfig.__post_init__', CF + 'IpepsConfig.set_dtype', CF + 'IpepsConfig.set_device', CF + 'IpepsConfig.validate_backend', CF + 'IpepsConfig.disable_pbar_if_slurm']
    for sec in DOC:
        for pick in (0, -1):
            us.append(Unit(f'given and omitted/{sec}/{"first" if pick == 0 else "last"} named value', combos(sec, pick), pi + [CF + {'TN': 'TNConfig', 'dims': 'TNConfig', 'ctmrg': 'CTMRGConfig', 'evolution': 'EvolutionConfig'}[sec]]))
    us.append(Unit('dtype and device', types_devices, pi))
    us.append(Unit('model section', model_section, pi + [CF + 'ModelConfig.__post_init__']))
    for job in (False, True):
        for name in (False, True):
            for part in (False, True):
                us.append(Unit(f'SLURM/{"job" if job else "no job"}/{"name" if name else "no name"}/{"partition" if part else "no partition"}', slurm(job, name, part), pi[-1:]))
    us.append(Unit('rejected', rejected, pi + ['acetn/renormalization/projectors.py:ProjectorCalculator.set_calculate', 'acetn/evolution/evolve.py:create_tensor_updater', 'acetn/model/model_factory.py:ModelFactory.register', 'acetn/model/model_factory.py:ModelFactory.create', IP + 'set_model'],
                   bounded='a list of wrong names'))
    pf = ['acetn/renormalization/projectors.py:ProjectorCalculator.' + n for n in ('__init__', 'set_calculate', 'calculate_projectors', 'calculate_half_system', 'calculate_full_system', 'svd')]
    A = ['randomized decompositions by contract (C08): exact with the oversampling given']
    for k in (0, 1, 2, 3):
        us.append(Unit(f'boundary truncation/defaults/k={k}', truncation('half-system', 'rsvd', 'defaults', k), pf, assumes=A))
        for kind in ('half-system', 'full-system'):
            for svd in ('rsvd', 'full-rank'):
                us.append(Unit(f'boundary truncation/{kind}/{svd}/changed boundary dimension/k={k}', truncation(kind, svd, 'changed chi', k), pf + [IP + 'set_chi'], assumes=A))
    us.append(Unit('boundary dimension changed', set_chi, [IP + 'set_chi']))
    cf = ['acetn/renormalization/ctmrg.py:ctmrg', 'acetn/renormalization/directional_mover.py:DirectionalMover.__init__', IP + 'renormalize', IP + '__init__']
    for given in (False, True):
        for rank in ((None, 0, 1) if not given else (0, 1)):
            us.append(Unit(f'CTMRG/{"given" if given else "omitted"}/{"hidden bar" if rank is None else f"rank {rank}"}', boundary(given, rank), cf, assumes=['directional moves by contract (C05)']))
    ef = ['acetn/evolution/evolve.py:evolve', 'acetn/evolution/evolve.py:create_tensor_updater', IP + 'evolve']
    for rank in (0, 1):
        us.append(Unit(f'evolution/omitted/rank {rank}', scheme('full', False, rank, False), ef))
        for kind in ('full', 'simple'):
            for hide in (False, True):
                us.append(Unit(f'evolution/{kind}/rank {rank}/{"hidden" if hide else "shown"} bar', scheme(kind, True, rank, hide), ef))
    FU = 'acetn/evolution/full_update.py:'
    ff = [FU + 'FullUpdater.__init__', FU + 'FullUpdater.update_reduced_tensors', FU + 'FullUpdater.precondition_norm_tensor', 'acetn/evolution/fast_full_update.py:FastFullUpdater.__init__']
    us.append(Unit('full update/omitted', full_update(False, True), ff))
    for g in (True, False):
        us.append(Unit(f'full update/{"gauge fixed" if g else "plain"}', full_update(True, g), ff))
        us.append(Unit(f'gauge tolerance/{"given" if g else "default"}', tolerance(g), [FU + 'gauge_fix']))
    us.append(Unit('positive approximation/cutoff', c15.positive(C128, 'update'), [FU + 'positive_approx', FU + 'FullUpdater.precondition_norm_tensor']))
    us.append(Unit('positive approximation/default cutoff', c15.positive(C128, 'default'), [FU + 'positive_approx']))
    AL = c16.AL
    us.append(Unit('solver/omitted', solver_defaults, [AL + '__init__', AL + 'solve_ar']))
    for method in ('cholesky', 'pinv'):
        us.append(Unit(f'solver/{method}/regularisation', c16.linear(method, C128, False), [AL + '__init__', AL + 'solve_ar']))
        us.append(Unit(f'solver/{method}/rounds and tolerance', c16.loop(method, C128), [AL + 'solve', AL + 'solve_torch'], assumes=['the previous distance is not exactly zero']))
    for n in (0, 1, 2, 3, 7, None):
        for how in ('never', 'tolerance'):
            us.append(Unit(f'solver/{n if n is not None else "default"} rounds/{how}', rounds(n, how), [AL + 'solve', AL + 'solve_torch'], bounded=f'{100 if n is None else n} rounds'))
    for avail in (False, True):
        for given in ('torch', 'cutensor'):
            for method in ('cholesky', 'pinv'):
                us.append(Unit(f'backend/{given}/{"built" if avail else "not built"}/{method}', backend(avail, given, method), [AL + 'solve', AL + 'solve_cutensor', CF + 'IpepsConfig.validate_backend'], assumes=['the compiled extension itself']))
    us.append(Unit('registered models', registered, ['acetn/model/model_factory.py:ModelFactory.register', 'acetn/model/model_factory.py:ModelFactory.create']))
    mf = [IP + n for n in ('set_model', 'set_model_params', 'evolve', 'measure')] + ['acetn/model/model_factory.py:ModelFactory.register', 'acetn/model/model_factory.py:ModelFactory.create', 'acetn/model/model.py:Model.__init__', CF + 'ModelConfig.__post_init__']
    for n in ('ising', 'heisenberg'):
        for how in ('given', 'set', 'none'):
            us.append(Unit(f'model/{n}/parameters {how}', builtin(n, how), mf))
    for n in (None, 'mine', 'MyModel', 'custom', 'ising'):
        us.append(Unit(f'model/custom/{n or "no name"}', custom(n), mf))
    return us
