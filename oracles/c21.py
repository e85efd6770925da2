from .common import *
from .models import *

DOCUMENTED = {
    'TN': {'nx': 2, 'ny': 2},
    'ctmrg': {'steps': 40, 'projectors': 'half-system', 'svd_type': 'rsvd', 'svd_cutoff': 1e-12, 'rsvd_niter': 2, 'rsvd_oversampling': 2, 'disable_progressbar': False},
    'evolution': {'backend': 'torch', 'update_type': 'full', 'use_gauge_fix': True, 'gauge_fix_atol': 1e-12, 'positive_approx_cutoff': 1e-12, 'als_niter': 100,
                  'als_tol': 1e-15, 'als_method': 'cholesky', 'als_epsilon': 1e-12, 'disable_progressbar': False},
}
OTHER = {
    'TN': {'nx': 3, 'ny': 4},
    'ctmrg': {'steps': 7, 'projectors': 'full-system', 'svd_type': 'full-rank', 'svd_cutoff': 1e-5, 'rsvd_niter': 4, 'rsvd_oversampling': 9, 'disable_progressbar': True},
    'evolution': {'update_type': 'simple', 'use_gauge_fix': False, 'gauge_fix_atol': 1e-3, 'positive_approx_cutoff': 1e-4, 'als_niter': 17, 'als_tol': 1e-3, 'als_method': 'pinv', 'als_epsilon': 1e-2,
                  'disable_progressbar': True},
}


def defaults(rep, given):
    import torch
    from acetn.ipeps.ipeps_config import IpepsConfig
    r = random.Random(str(given))
    conf = {'TN': {}}
    want = {k: dict(v) for k, v in DOCUMENTED.items()}
    for sec, opt in given:
        conf.setdefault(sec, {})[opt] = OTHER[sec][opt]
        want[sec][opt] = OTHER[sec][opt]
    c = IpepsConfig(**conf)
    for sec in want:
        for opt, v in want[sec].items():
            rep.check(getattr(getattr(c, sec), opt) == v and type(getattr(getattr(c, sec), opt)) is type(v), f'{sec}.{opt}', got=getattr(getattr(c, sec), opt), want=v)
    rep.check(c.TN.dims == {'phys': 2, 'bond': 2, 'chi': 20}, 'dims', got=c.TN.dims)
    rep.check(c.dtype == torch.float64 and c.device == torch.device('cpu'), 'dtype and device')
    rep.check(c.model.name is None and c.model.dim == c.TN.dims['phys'] and c.model.dtype == c.dtype and c.model.device == c.device, 'model section')


def dtypes(rep, dt, dims):
    import torch
    from acetn.ipeps import Ipeps
    from acetn.ipeps.ipeps_config import IpepsConfig
    t = tdtype(dt)
    for v in (dt, t):
        c = IpepsConfig(TN={'dims': dict(dims)}, dtype=v, model={'name': 'ising', 'params': {'hx': 1., 'none': None, 'zero': 0, 'text': ''}})
        rep.check(c.dtype == t and c.model.dtype == t, 'dtype as given', got=c.dtype)
        rep.check(c.TN.dims == dims and c.model.dim == dims['phys'] and c.model.params == {'hx': 1., 'none': None, 'zero': 0, 'text': ''} and c.model.name == 'ising', 'dims and model as given')
    ip = Ipeps({'dtype': dt, 'TN': {'nx': 1, 'ny': 2, 'dims': dict(dims)}})
    for s in ip.site_list:
        rep.check(ip[s]['A'].dtype == t and tuple(ip[s]['A'].shape) == (dims['bond'],) * 4 + (dims['phys'],), 'tensors have the configured dtype and sizes')
    rep.check(ip.dims == dims and ip.nx == 1 and ip.ny == 2, 'sizes')


def partial(rep):
    """Some dimensions given, no model parameters given."""
    import torch
    from acetn.ipeps import Ipeps
    from acetn.ipeps.ipeps_config import IpepsConfig
    full = {'phys': 2, 'bond': 2, 'chi': 20}
    for keys in ((), ('phys',), ('bond',), ('chi',), ('phys', 'chi'), ('bond', 'chi')):
        dims = {k: 7 for k in keys}
        c = IpepsConfig(TN={'dims': dims})
        rep.check(c.TN.dims == {**full, **dims} and c.model.dim == c.TN.dims['phys'], 'omitted dimensions have their default', got=c.TN.dims)
        rep.check(dims == {k: 7 for k in keys}, 'dictionary of the caller unchanged')
    ip = mk(2, 2, 1, 2, 2, ctmrg={'steps': 0}, model={'name': 'heisenberg'})
    one = float(ip.measure()['Energy'])
    ip.set_model_params(J=-3.0)
    rep.check(abs(float(ip.measure()['Energy']) + 3 * one) < 1e-9 and abs(one) > 1e-3, 'default coupling 1, parameters can be set', got=one)


def devices(rep):
    import torch
    from acetn.ipeps.ipeps_config import IpepsConfig
    have = torch.cuda.is_available()
    cpu = torch.device('cpu')
    for d in ('cuda', torch.device('cuda'), 'cuda:0', torch.device('cuda:1')):
        c = IpepsConfig(TN={}, device=d)
        rep.check(c.device == (torch.device(d) if have else cpu), 'cuda falls back to the cpu when not available')
        rep.check(c.model.device == c.device, 'model device')
    for d in ('cpu', cpu):
        rep.check(IpepsConfig(TN={}, device=d).device == cpu, 'cpu')
    # a machine with a GPU: the device asked for is kept, whatever the other options say
    orig = torch.cuda.is_available
    torch.cuda.is_available = lambda: True
    try:
        for d in ('cuda', 'cuda:1', torch.device('cuda')):
            for ev in ({}, {'backend': 'torch'}, {'backend': 'cutensor'}, {'update_type': 'simple'}):
                c = IpepsConfig(TN={}, device=d, evolution=dict(ev))
                rep.check(c.device == torch.device(d) and c.model.device == c.device, 'device asked for is kept when there is a GPU', got=c.device, want=d)
        rep.check(IpepsConfig(TN={}, device='cpu').device == cpu, 'cpu stays the cpu')
    finally:
        torch.cuda.is_available = orig
    from acetn.evolution import _extensions as e
    c = IpepsConfig(TN={}, evolution={'backend': 'cutensor'})
    rep.check(c.evolution.backend == ('cutensor' if e.CUTENSOR_AVAILABLE else 'torch'), 'cutensor falls back to torch when not built')


def slurm(rep):
    from acetn.ipeps.ipeps_config import IpepsConfig
    for job, name, part, want in ((None, None, None, False), ('1', 'x', 'batch', True), ('1', 'my-interactive', 'batch', False), ('1', 'x', 'interactive', False), ('1', None, None, True)):
        for k, v in (('SLURM_JOB_ID', job), ('SLURM_JOB_NAME', name), ('SLURM_JOB_PARTITION', part)):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        for a in (False, True):
            for b in (False, True):
                c = IpepsConfig(TN={}, ctmrg={'disable_progressbar': a}, evolution={'disable_progressbar': b})
                rep.check(c.ctmrg.disable_progressbar == (want or a) and c.evolution.disable_progressbar == (want or b), 'progress bar in a SLURM job', case=(job, name, part, a, b))
    for k in ('SLURM_JOB_ID', 'SLURM_JOB_NAME', 'SLURM_JOB_PARTITION'):
        os.environ.pop(k, None)


def rejected(rep, what):
    import torch
    from acetn.ipeps.ipeps_config import IpepsConfig
    from acetn.ipeps import Ipeps

    def raises(f, kinds=(Exception,)):
        try:
            f()
        except kinds:
            return True
        return False
    if what == 'unknown option':
        for sec in ('TN', 'ctmrg', 'evolution', 'model'):
            rep.check(raises(lambda: IpepsConfig(**{'TN': {}, sec: {'no_such_option': 1}})), f'unknown option in {sec} is rejected')
        rep.check(raises(lambda: IpepsConfig(TN={'dims': {'phys': 2, 'bond': 2, 'chi': 3, 'D': 4}})), 'unknown dimension is rejected')
        rep.check(raises(lambda: IpepsConfig(TN={}, nosuch=1)), 'unknown section is rejected')
        for name in ('nosuch', 'float63'):
            rep.check(raises(lambda: IpepsConfig(TN={}, dtype=name)), 'unknown dtype is rejected')
    elif what == 'projectors':
        for name in ('half', 'fullsystem', 'Half-System', '', 'full', 'half_system', 'full_system', 'half-system ', 'FULL-SYSTEM', 'quarter-system', 'fishman', 'default'):
            def f():
                ip = mk(2, 2, 1, 2, 2, ctmrg={'projectors': name, 'steps': 1})
                ip.renormalize()
            rep.check(raises(f, (ValueError,)), 'unknown projector type is rejected', name=name)
    elif what == 'update type':
        for name in ('fast', 'Full', '', 'cluster', 'su', 'fu', 'ffu', 'simple-update', 'simple_update', 'full-update', 'full_update', 'fast-full', 'Simple', 'SIMPLE', 'simple ', 'auto', 'default'):
            ip = mk(2, 2, 1, 2, 2, ctmrg={'steps': 0}, evolution={'update_type': name}, model={'name': 'ising', 'params': {'jz': 1., 'hx': 1.}})
            rep.check(raises(lambda: ip.evolve(0.1, 1), (ValueError,)), 'unknown update scheme is rejected', name=name)
    elif what == 'model':
        for name in ('nosuch', None, 'Ising2', 'isin', 'tfim', 'transverse-ising', 'heis', 'ising ', '', 'xy', 'spin'):
            ip = mk(2, 2, 1, 2, 2, ctmrg={'steps': 0}, model={'name': name, 'params': {}})
            rep.check(raises(lambda: ip.evolve(0.1, 1), (KeyError, ValueError)), 'unknown model is rejected', name=name)
            rep.check(raises(lambda: ip.measure(), (KeyError, ValueError)), 'unknown model is rejected', name=name)
        ip = mk(2, 2, 1, 2, 2)
        rep.check(raises(lambda: ip.set_model(dict, {}), (TypeError,)), 'a class that is no model is rejected')


def projector_options(rep, chi, cutoff, niter, over, projectors, svd, seed):
    """The options of the boundary truncation reach it."""
    import torch
    from acetn.renormalization import projectors as P
    ip = randomize(mk(2, 2, 2, 2, chi, ctmrg={'projectors': projectors, 'svd_type': svd, 'svd_cutoff': cutoff, 'rsvd_niter': niter, 'rsvd_oversampling': over}), seed, uniform=3)
    calls = []
    undo = []
    for n in ('svd_lowrank', 'fused_matmul_svd_lowrank', 'fused_3matmul_svd_lowrank'):
        f = getattr(P, n, None)
        if f is None:
            raise Skip(n)

        def g(*a, _f=f, _n=n, **k):
            w = dict(zip(('q', 'niter'), a[{'svd_lowrank': 1, 'fused_matmul_svd_lowrank': 2}.get(_n, 4):]), **k)
            calls.append((_n, w.get('q'), w.get('niter')))
            return _f(*a, **k)
        undo.append((n, f))
        setattr(P, n, g)
    try:
        calc = P.ProjectorCalculator(ip.config.ctmrg)
        p1, p2 = calc.calculate(ip, [(0, 0), (1, 0), (1, 1), (0, 1)], 0)
    finally:
        for n, f in undo:
            setattr(P, n, f)
    if svd == 'rsvd':
        if not calls or any(v is None for c in calls for v in c[1:]):
            raise Skip('calls of the randomized SVD')
        rep.check(all(c[1:] == (chi + over, niter) for c in calls), 'boundary dimension plus oversampling and power iterations reach the randomized SVD', got=calls)
    else:
        rep.check(not calls, 'full-rank SVD', got=calls)
    from .c07 import quarter_ref
    sites = [(0, 0), (1, 0), (1, 1), (0, 1)]
    Q1, Q4 = quarter_ref(ip, sites[0], 0)[0], quarter_ref(ip, sites[3], 3)[0]
    F = Q1 @ Q4
    if projectors == 'full-system':
        F = quarter_ref(ip, sites[1], 1)[0] @ Q1 @ Q4 @ quarter_ref(ip, sites[2], 2)[0]
    s = torch.linalg.svdvals(F)
    s = s / s[0]
    if svd == 'full-rank':
        keep = min(chi, int((s > cutoff).sum()))
        if float(((s - cutoff).abs() / cutoff).min()) > 1e-6:
            rep.check(p1.shape[-1] == keep == p2.shape[-1], 'kept dimension follows the cutoff and the boundary dimension', got=p1.shape[-1], want=keep)


def only_this(rep, how, seed):
    """Setting one thing leaves every other option as it was."""
    import torch
    from acetn.model import Model

    class M(Model):
        def two_site_hamiltonian(self, bond):
            return self.params.get('a', 1.0) * torch.eye(4, dtype=self.dtype)
    over = {'ctmrg': {'steps': 0, 'projectors': 'full-system', 'svd_type': 'rsvd', 'svd_cutoff': 1e-5, 'rsvd_niter': 4, 'rsvd_oversampling': 9, 'disable_progressbar': True},
            'evolution': {k: v for k, v in OTHER['evolution'].items()}}
    ip = mk(3, 2, 2, 2, 6, model={'name': 'heisenberg', 'params': {'J': 2}}, **over)
    look = lambda: {s: {o: getattr(getattr(ip.config, s), o) for o in DOCUMENTED[s]} for s in DOCUMENTED}
    before = look()
    dt, dev = ip.config.dtype, ip.config.device
    if how == 'chi':
        for chi in (1, 30, 2, 6, 1, 9):
            ip.set_chi(chi)
            rep.check(look() == before, 'setting the boundary dimension leaves the other options', got=look(), want=before)
            rep.check(ip.dims == {'phys': 2, 'bond': 2, 'chi': chi}, 'dimensions', got=ip.dims)
            rep.check(ip.config.model.name == 'heisenberg' and ip.config.model.params == {'J': 2}, 'model')
    elif how == 'params':
        for val in (2.5, 3, -0.25, True, 1, '1.5', torch.tensor(0.5), 1 + 2j, 0, None, 7.25):
            ip.set_model_params(J=val)
            got = ip.config.model.params['J']
            rep.check(got is val or (type(got) is type(val) and got == val), 'parameter is the value given', got=got, want=val)
            rep.check(look() == before and ip.config.model.name == 'heisenberg', 'other options')
        ip.set_model_params(K=3)
        rep.check(ip.config.model.params['K'] == 3 and ip.config.model.params['J'] == 7.25, 'new parameter')
    else:
        ip.set_model(M, {'a': 2}, name='only-this')
        rep.check(look() == before and ip.config.model.params == {'a': 2}, 'setting a model leaves the other options')
    rep.check(ip.config.dtype == dt and ip.config.device == dev and ip.nx == 3 and ip.ny == 2, 'dtype, device and size')


def chi_change(rep, svd, projectors):
    from acetn.ipeps import Ipeps
    a = psd_env(mk(2, 2, 2, 2, 2, ctmrg={'steps': 1}), 3)
    ip = Ipeps(config(2, 2, 2, 2, 3, ctmrg={'steps': 2, 'svd_type': svd, 'projectors': projectors}), a)
    for chi in (2, 5, 1, 4):
        ip.set_chi(chi)
        rep.check(ip.dims['chi'] == chi, 'dims')
        ip.renormalize()
        m = max(max(c.shape[0] for c in ip[s]['C']) for s in ip.site_list)
        rep.check(m == chi, 'a changed boundary dimension is used by the next renormalisation', got=m, want=chi)


def solver_options(rep, niter, tol, method, eps, seed):
    from acetn.evolution import als_solver as A
    ip = psd_env(mk(2, 2, 2, 2, 4, evolution={'als_niter': niter, 'als_tol': tol, 'als_method': method, 'als_epsilon': eps}), seed)
    log = []
    cls = A.ALSSolver
    f, h, ch, pi = cls.__dict__.get('solve_a1r'), cls.__dict__.get('solve_ar'), getattr(A, 'cholesky', None), getattr(A, 'pinv', None)
    if f is None or h is None or ch is None or pi is None:
        raise Skip('solver internals')
    cls.solve_a1r = lambda self, *a: (log.append('round'), f(self, *a))[1]
    A.cholesky = lambda *a, **k: (log.append('cholesky'), ch(*a, **k))[1]
    A.pinv = lambda *a, **k: (log.append(('pinv', k.get('rcond', k.get('rtol')))), pi(*a, **k))[1]
    try:
        ip.evolve(0.1, 1, instance(ip, random_model(2, seed, 'all', False)))
    finally:
        cls.solve_a1r, A.cholesky, A.pinv = f, ch, pi
    rounds = log.count('round')
    if not rounds:
        raise Skip('rounds are not observable')
    if tol == 0.0:
        rep.check(rounds == niter * 8, 'maximum number of rounds per bond', got=rounds, want=niter * 8)
    else:
        rep.check(rounds == 8 * min(3, niter), 'tolerance stops after three rounds', got=rounds)
    if log.count('round') == len(log):
        raise Skip('linear solver is not observable')
    used = {x if isinstance(x, str) else x[0] for x in log} - {'round'}
    rep.check(used == {method}, 'linear solver method', got=used)
    if method == 'pinv':
        if any(x[1] is None for x in log if isinstance(x, tuple)):
            raise Skip('argument of pinv')
        rep.check({x[1] for x in log if isinstance(x, tuple)} == {eps}, 'regularisation', got={x[1] for x in log if isinstance(x, tuple)})


def full_options(rep, gauge, atol, cutoff, seed):
    from acetn.evolution import full_update as F
    ip = psd_env(mk(2, 2, 2, 2, 4, evolution={'use_gauge_fix': gauge, 'gauge_fix_atol': atol, 'positive_approx_cutoff': cutoff, 'als_niter': 2}), seed)
    log = []
    pa, gf, pi = F.positive_approx, F.gauge_fix, F.pinv
    F.positive_approx = lambda *a, **k: (log.append(('pos', k.get('cutoff', a[1] if len(a) > 1 else None))), pa(*a, **k))[1]
    F.gauge_fix = lambda *a, **k: (log.append(('gauge', k.get('atol', a[2] if len(a) > 2 else None))), gf(*a, **k))[1]
    F.pinv = lambda *a, **k: (log.append(('pinv', k.get('atol'))), pi(*a, **k))[1]
    try:
        ip.evolve(0.1, 1, instance(ip, random_model(2, seed, 'all', False)))
    finally:
        F.positive_approx, F.gauge_fix, F.pinv = pa, gf, pi
    vals = lambda n: {v for m, v in log if m == n}
    if not vals('pos') or None in vals('pos') | vals('gauge') | vals('pinv') or gauge and not (vals('gauge') and vals('pinv')):
        raise Skip('steps of the update are not observable')
    rep.check(vals('pos') == {cutoff}, 'cutoff of the positive approximation', got=log[:4])
    rep.check(vals('gauge') == ({atol} if gauge else set()), 'gauge fixing as configured', got=log[:4])
    rep.check(vals('pinv') == ({atol} if gauge else set()), 'tolerance of the pseudo-inverse', got=log[:4])


def schemes(rep, ut):
    from acetn.evolution.evolve import create_tensor_updater
    from acetn.evolution import SimpleUpdater, FastFullUpdater
    ip = mk(2, 2, 1, 2, 2, evolution={'update_type': ut})
    from .c13 import fresh_gate
    up = create_tensor_updater(ip, fresh_gate(ip, 1, 2), ip.config.evolution)
    rep.check(isinstance(up, SimpleUpdater if ut == 'simple' else FastFullUpdater), 'update scheme', got=type(up))


def bars(rep, flag):
    """disable_progressbar of each section reaches its own progress bar."""
    import acetn.ipeps.ipeps
    c, e = sys.modules['acetn.renormalization.ctmrg'], sys.modules['acetn.evolution.evolve']
    seen = {}
    o1, o2 = c.tqdm, e.tqdm

    class T1:
        def __init__(self, *a, **k):
            seen.setdefault('ctmrg', k.get('disable'))
            self.it = a[0] if a else k.get('iterable')

        def __iter__(self):
            return iter(self.it)

        def __getattr__(self, n):
            return lambda *a, **k: None
        write = staticmethod(lambda *a, **k: None)

    class T2(T1):
        def __init__(self, *a, **k):
            seen.setdefault('evolution', k.get('disable'))
            self.it = a[0] if a else k.get('iterable')
    ip = mk(2, 2, 1, 2, 2, ctmrg={'steps': 1, 'disable_progressbar': flag}, evolution={'disable_progressbar': not flag, 'als_niter': 1}, model={'name': 'ising', 'params': {'jz': 1., 'hx': 1.}})
    c.tqdm, e.tqdm = T1, T2
    try:
        ip.evolve(0.1, 1)
    finally:
        c.tqdm, e.tqdm = o1, o2
    if len(seen) < 2 or None in seen.values():
        raise Skip('progress bars')
    rep.check(bool(seen.get('ctmrg')) == flag and bool(seen.get('evolution')) == (not flag), 'progress bar options', got=seen)


def model_options(rep, seed):
    """Model, name and parameters set through the public methods are those used."""
    import torch
    from acetn.ipeps import Ipeps
    from acetn.model import Model
    used = []

    class M(Model):
        def two_site_hamiltonian(self, bond):
            used.append((self.name, dict(self.params)))
            return self.params.get('a', 1.0) * torch.eye(4, dtype=self.dtype)
    ip = mk(2, 2, 1, 2, 2, ctmrg={'steps': 0})
    for name in (None, 'MyModel', 'mymodel'):
        used.clear()
        ip.set_model(M, {'a': 3.0, 'b': 1}, name=name)
        out = ip.measure()
        rep.close(torch.as_tensor(float(out['Energy'])), torch.tensor(6.0, dtype=torch.float64), 'energy of the model set', 1e-9)
        rep.check(all(p == {'a': 3.0, 'b': 1} for _, p in used), 'parameters')
        ip.set_model_params(a=-0.5)
        used.clear()
        out = ip.measure()
        rep.close(torch.as_tensor(float(out['Energy'])), torch.tensor(-1.0, dtype=torch.float64), 'energy after changing a parameter', 1e-9)
        rep.check(used and all(p == {'a': -0.5, 'b': 1} for _, p in used), 'changed parameter')
    from acetn.model.model_factory import model_factory
    for name in ('Some-Model', 'another model', 'UPPER'):
        used.clear()
        model_factory.register(name, M)
        jp = mk(2, 2, 1, 2, 2, ctmrg={'steps': 0}, model={'name': name, 'params': {'a': 5.0}})
        rep.close(torch.as_tensor(float(jp.measure()['Energy'])), torch.tensor(10.0, dtype=torch.float64), 'energy of a registered model', 1e-9, name=name)
    # an instance given to evolve or measure is used instead of the configured one
    class N(M):
        def two_site_hamiltonian(self, bond):
            return 2.0 * torch.eye(4, dtype=self.dtype)
    out = ip.measure(instance(ip, N))
    rep.close(torch.as_tensor(float(out['Energy'])), torch.tensor(4.0, dtype=torch.float64), 'given model instance is used', 1e-9)


def run(rep):
    r = random.Random(rep.seed)
    opts = [(s, o) for s in OTHER for o in OTHER[s]]
    rep.run('defaults', defaults, [])
    for o in opts:
        rep.run('defaults', defaults, [o])
    for i in range(10):
        rep.run('defaults', defaults, sorted(r.sample(opts, r.randrange(2, len(opts)))))
    for dt in ('float32', 'float64', 'complex64', 'complex128'):
        rep.run('dtypes', dtypes, dt, r.choice([{'phys': 2, 'bond': 2, 'chi': 20}, {'phys': 3, 'bond': 1, 'chi': 5}, {'phys': 4, 'bond': 3, 'chi': 2}]))
    rep.run('devices', devices)
    rep.run('partial', partial)
    rep.run('slurm', slurm)
    for how in ('chi', 'params', 'model'):
        rep.run('nothing else changes', only_this, how, rep.seed)
    for w in ('unknown option', 'projectors', 'update type', 'model'):
        rep.run('rejected', rejected, w)
    i = 0
    for p in ('half-system', 'full-system'):
        for svd in ('rsvd', 'full-rank'):
            for chi, cut, nit, ov in ((2, 1e-12, 2, 2), (3, 1e-1, 0, 1), (5, 1e-2, 3, 4), (20, 1e-3, 1, 0), (12, 0.3, 2, 7)):
                i += 1
                rep.run('projector options', projector_options, chi, cut, nit, ov, p, svd, rep.seed + i)
            rep.run('boundary dimension', chi_change, svd, p)
    for niter, tol in ((4, 0.0), (1, 0.0), (9, 1e9), (2, 1e9)):
        for m, eps in (('cholesky', 1e-12), ('pinv', 1e-10), ('pinv', 1e-6)):
            rep.run('solver options', solver_options, niter, tol, m, eps, rep.seed)
    for g in (True, False):
        for at, cu in ((1e-12, 1e-12), (1e-9, 1e-6)):
            rep.run('full-update options', full_options, g, at, cu, rep.seed)
    for ut in ('simple', 'full'):
        rep.run('update scheme', schemes, ut)
    for f in (True, False):
        rep.run('progress bars', bars, f)
    rep.run('models', model_options, rep.seed)
