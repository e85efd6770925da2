from .common import *
import inspect
import subprocess
import tempfile
import socket


def build(job):
    from acetn.ipeps import Ipeps
    nx, ny = job['cell']
    D, d = job.get('D', 2), 2
    c = config(nx, ny, D, d, job.get('chi', 3), job.get('dtype', 'float64'), ctmrg={'steps': job.get('sweeps', 1), 'projectors': job.get('projectors', 'half-system')},
               evolution={'als_niter': 4}, model={'name': 'ising', 'params': {'jz': 1., 'hx': 0.8}})
    ip = Ipeps(c)
    ip.site_states_initialized = True
    # same state on every rank, different boundary dimensions at different sites
    return randomize(ip, job['seed'], uniform=job.get('uniform'))


def perform(job):
    import torch
    from acetn.renormalization.directional_mover import DirectionalMover
    ip = build(job)
    op = job['op']
    dist_run = ip.is_distributed
    if op in ('lr', 'ud'):
        mover = DirectionalMover(ip.config.ctmrg)
        a, b = job['at']
        if dist_run:
            (mover.left_right_move_dist if op == 'lr' else mover.up_down_move_dist)(ip, a, b)
        else:
            both(mover, ip, op, a, b)
    elif op == 'sweep':
        if dist_run:
            ip.renormalize()
        else:
            mover = DirectionalMover(ip.config.ctmrg)
            for _ in range(job.get('sweeps', 1)):
                for x in range(ip.nx):
                    both(mover, ip, 'lr', x, (ip.nx - x + 1) % ip.nx)
                for y in range(ip.ny):
                    both(mover, ip, 'ud', (ip.ny - y + 1) % ip.ny, y)
    elif op == 'single sweep':
        ip.renormalize()
    elif op == 'bond':
        from acetn.evolution.evolve import create_tensor_updater
        from acetn.evolution.gate import Gate
        from acetn.model.model_factory import model_factory
        m = model_factory.create(ip.config.model)
        ip.renormalize()
        up = create_tensor_updater(ip, Gate(m, 0.1, ip.bond_list, ip.site_list), ip.config.evolution)
        b = ip.bond_list[job['bond'] % len(ip.bond_list)]
        if job.get('k') is not None:
            from acetn.ipeps.bond import Bond
            s = ip.site_list[job['bond'] % len(ip.site_list)]
            b = Bond(s, step(s, job['k'], ip.nx, ip.ny), job['k'])
            up.gate[b] = up.gate[ip.bond_list[0]]
        up.bond_update(b)
    elif op == 'evolve':
        ip.evolve(0.05, job.get('steps', 1))
    return ip


def both(mover, ip, op, a, b):
    """Both opposite moves with all projectors from the state before them (uses only single-process moves)."""
    names = ('left', 'right') if op == 'lr' else ('up', 'down')
    src = ip.copy()
    for at in ('rank', 'world_size', 'is_distributed'):
        setattr(src, at, getattr(ip, at))
    src.config = ip.config
    calc = mover.calculate_projectors
    table = {}

    def key(sites, k):
        return tuple(map(tuple, sites)), k

    def first(ipeps, sites, k):
        table[key(sites, k)] = calc(src, sites, k)
        return table[key(sites, k)]
    mover.calculate_projectors = first
    try:
        getattr(mover, names[0] + '_move')(ip, a)
        getattr(mover, names[1] + '_move')(ip, b)
    finally:
        mover.calculate_projectors = calc
    if not table:
        raise Skip('projectors are not taken from mover.calculate_projectors')


def pieces(job, ws):
    """A four-leg tensor of every process, none of them contiguous."""
    import torch
    g = gen(job['seed'])
    out = []
    for i in range(ws):
        sh = [3, 2, 2, 2 + (i if job['uneven'] else 0)]
        out.append(torch.randn(sh[::-1], generator=g, dtype=torch.float64).to(getattr(torch, job['dtype'])).permute(3, 2, 1, 0))
    return out


def dump(ip):
    return {s: {'A': ip[s]['A'], 'C': list(ip[s]['C']), 'E': list(ip[s]['E'])} for s in ip.site_list}


def port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


HUNG = []


def distributed(rep, ws, jobs, slot=0):
    import torch
    if HUNG:
        raise Skip('an earlier distributed run did not complete')
    with tempfile.TemporaryDirectory() as t:
        spec = {'ws': ws, 'port': port(), 'jobs': jobs, 'timeout': 60}
        me = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c19_worker.py')
        ps = [subprocess.Popen([sys.executable, me, str(i), json.dumps(spec), f'{t}/{i}.pt'], stdout=open(f'{t}/{i}.o', 'w'), stderr=open(f'{t}/{i}.e', 'w')) for i in range(ws)]
        dead = time.time() + 150
        code = []
        fail = None
        while True:
            code = [p.poll() for p in ps]
            if all(c is not None for c in code):
                break
            bad = [i for i, c in enumerate(code) if c not in (None, 0)]
            if bad and fail is None:
                fail = time.time()
            if time.time() > dead or (fail and time.time() - fail > 5):
                for p in ps:
                    if p.poll() is None:
                        p.kill()
                break
            time.sleep(0.05)
        errs = [open(f'{t}/{i}.e').read()[-1500:] for i in range(ws)]
        bad = [(i, e) for i, (p, e) in enumerate(zip(ps, errs)) if p.wait() != 0]
        if bad:
            i, e = min(bad, key=lambda b: ('Timed out' in b[1] or 'Connection' in b[1] or not b[1].strip(), b[0]))
            if 'init_process_group' in e and 'acetn' not in e:
                raise Skip('no process group: ' + e[-300:])
            if e.strip().split('\n')[-1].startswith(('AttributeError', 'ImportError', 'ModuleNotFoundError')) and "oracles/c19" in e.strip().split('File')[-1]:
                raise Skip(e[-300:])
            HUNG.append(ws)
            rep.check(False, f'a distributed run with {ws} processes does not complete', rank=i, error=e[-350:], full=e)
        res = [torch.load(f'{t}/{i}.pt', weights_only=False) for i in range(ws)]
    for q, job in enumerate(jobs):
        if job['op'] == 'gather':
            want = pieces(job, ws)
            for i in range(ws):
                got = res[i][q]['tensors']
                rep.check(len(got) == ws, 'one gathered tensor per process', job=job, rank=i)
                for j in range(ws):
                    rep.close(got[j], want[j], f'gathered tensor of process {j}', 1e-12, job=job, rank=i)
            continue
        ref = dump(perform(job))
        for i in range(ws):
            rep.check(res[i][q]['calls'] == res[0][q]['calls'], 'all processes take part in the same collective operations', job=job, rank=i)
            got = res[i][q]['tensors']
            for s in ref:
                if job['op'] in ('bond', 'evolve'):
                    g0 = res[0][q]['tensors']
                    rep.check(same(got[s]['A'], g0[s]['A']), f"site tensors agree on every process", job=job, rank=i)
                tol = 1e-6
                if job['op'] == 'bond':
                    rep.close(got[s]['A'], ref[s]['A'], 'distributed bond update equals the single-process one', tol, job=job, rank=i)
                    continue
                rep.close(got[s]['A'], ref[s]['A'], 'site tensors', tol, job=job, rank=i, site=s)
                for x in 'CE':
                    for k in range(4):
                        rep.close(got[s][x][k], ref[s][x][k], f'{x}[{k}] equal to the single-process computation', tol, job=job, rank=i, site=s)


def logic(rep, ws, nx, ny, seed):
    """The row distribution with an in-process stand-in for the collectives (every rank simulated in lockstep)."""
    import threading
    import torch
    from acetn.renormalization import directional_mover as dm
    from acetn.renormalization.directional_mover import DirectionalMover
    import acetn.utils.distributed as du
    if not hasattr(dm, 'all_gather_tensor'):
        raise Skip('all_gather_tensor')
    r = random.Random(seed)
    jobs = [('lr', r.randrange(nx), r.randrange(nx)), ('ud', r.randrange(ny), r.randrange(ny))]
    for op, a, b in jobs:
        base = {'op': op, 'cell': [nx, ny], 'at': [a, b], 'seed': seed}
        ref = dump(perform(base))
        bar = threading.Barrier(ws, timeout=30)
        slots = {}
        counts = [0] * ws
        loc = threading.local()

        def gather(*args, **kw):
            v = list(inspect.signature(orig).bind(*args, **kw).arguments.values())
            if len(v) != 3 or not torch.is_tensor(v[0]):
                raise Skip('all_gather_tensor has other arguments')
            tensor, rank, n = v
            c = counts[rank]
            counts[rank] += 1
            slots[c, rank] = tensor.clone()
            bar.wait()
            out = [slots[c, i].clone() for i in range(n)]
            bar.wait()
            return out
        orig = dm.all_gather_tensor
        dm.all_gather_tensor = gather
        du_orig = du.all_gather_tensor
        du.all_gather_tensor = gather
        skip = []
        ips, errs = [None] * ws, [None] * ws

        def work(i):
            try:
                ip = build(base)
                ip.rank, ip.world_size = i, ws
                ips[i] = ip
                mover = DirectionalMover(ip.config.ctmrg)
                (mover.left_right_move_dist if op == 'lr' else mover.up_down_move_dist)(ip, a, b)
            except threading.BrokenBarrierError as e:
                errs[i] = 'waits for a collective operation the others do not take part in'
            except Skip as e:
                skip.append(str(e))
                bar.abort()
            except Exception as e:
                errs[i] = f'{type(e).__name__}: {e}'
                bar.abort()
            else:
                pass
        ts = [threading.Thread(target=work, args=(i,)) for i in range(ws)]
        try:
            for t in ts:
                t.start()
            # ranks that finish early leave the others waiting: abort the barrier once nothing moves
            t0 = time.time()
            while any(t.is_alive() for t in ts):
                time.sleep(0.002)
                if any(not t.is_alive() for t in ts) and len(set(counts)) > 1 and bar.n_waiting:
                    time.sleep(0.5)
                    if any(t.is_alive() for t in ts) and bar.n_waiting:
                        bar.abort()
                if time.time() - t0 > 60:
                    bar.abort()
            for t in ts:
                t.join()
        finally:
            dm.all_gather_tensor = orig
            du.all_gather_tensor = du_orig
        if skip or not any(counts):
            raise Skip(skip[0] if skip else 'no tensor is gathered')
        bad = [e for e in errs if e]
        rep.check(not bad, f'{op} move with {ws} processes: every process completes', errors=sorted(bad, key=lambda e: e.startswith('waits')))
        for i in range(ws):
            got = dump(ips[i])
            for s in ref:
                for x in 'CE':
                    for k in range(4):
                        rep.close(got[s][x][k], ref[s][x][k], f'{op} move with {ws} processes: {x}[{k}]', 1e-7, rank=i, site=s)


def run(rep):
    r = random.Random(rep.seed)
    i = 0
    cells = [(1, 1), (2, 2), (1, 3), (3, 2), (2, 3), (3, 1), (4, 2), (2, 4), (3, 3), (5, 2)]
    for ws in (2, 3, 4, 5, 6, 8):
        for nx, ny in cells if rep.thorough else cells[:8]:
            i += 1
            rep.run('rows over processes', logic, ws, nx, ny, rep.seed + i)
    for ws in ((2, 3, 4) if not rep.thorough else (2, 3, 4, 5, 6)):
        jobs = []
        for op in ('lr', 'ud'):
            for cell in ((2, 2), (3, 3), (1, 3), (3, 1)):
                n = cell[0] if op == 'lr' else cell[1]
                i += 1
                jobs.append({'op': op, 'cell': cell, 'at': [r.randrange(n), r.randrange(n)], 'seed': rep.seed + i, 'dtype': r.choice(['float64', 'complex128'])})
        jobs.append({'op': 'sweep', 'cell': (2, 2), 'seed': 3, 'sweeps': 1})
        jobs.append({'op': 'sweep', 'cell': (3, 2), 'seed': 4, 'sweeps': 1})
        jobs.append({'op': 'sweep', 'cell': (2, 2), 'seed': 5, 'sweeps': 1, 'projectors': 'full-system'})
        jobs.append({'op': 'single sweep', 'cell': (3, 2), 'seed': 3, 'sweeps': 2, 'uniform': 3})
        jobs.append({'op': 'evolve', 'cell': (2, 2), 'seed': 9, 'uniform': 3, 'D': 1, 'sweeps': 1})
        jobs.append({'op': 'bond', 'cell': (2, 2), 'bond': 1, 'seed': 5, 'uniform': 3})
        for k in range(4):
            jobs.append({'op': 'bond', 'cell': (3, 2), 'bond': r.randrange(6), 'k': k, 'seed': 6 + k, 'uniform': 3})
        rep.run('gather', distributed, ws, [{'op': 'gather', 'seed': 10 * ws + j, 'uneven': j % 2, 'dtype': ('float64', 'complex128')[j // 2]} for j in range(4)])
        rep.run('processes', distributed, ws, jobs)
