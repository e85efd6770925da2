"""One rank of a distributed run: performs the requested operation and stores its tensors."""
import json
import os
import sys


def main():
    rank, spec, out = int(sys.argv[1]), json.loads(sys.argv[2]), sys.argv[3]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from oracles import common
    import types
    common.setup()
    import torch
    torch.set_num_threads(1)
    os.environ.update(RANK=str(rank), WORLD_SIZE=str(spec['ws']), MASTER_ADDR='127.0.0.1', MASTER_PORT=str(spec['port']))
    import datetime
    import torch.distributed as dist
    dist.init_process_group('gloo', rank=rank, world_size=spec['ws'], timeout=datetime.timedelta(seconds=spec.get('timeout', 40)))
    os.cpu_count = lambda: int(os.environ.get('WORLD_SIZE', 64))
    from oracles.c19 import perform, dump, pieces
    if any(j['op'] == 'gather' for j in spec['jobs']):
        from acetn.utils.distributed import all_gather_tensor as gather
    res = []
    for job in spec['jobs']:
        calls = []
        orig = {}
        if job.get('log', True):
            for n in ('all_gather', 'broadcast', 'all_reduce', 'gather', 'scatter', 'barrier', 'reduce', 'all_gather_object', 'broadcast_object_list', 'all_gather_into_tensor'):
                f = getattr(dist, n)
                orig[n] = f

                def g(*a, _f=f, _n=n, **k):
                    t = a[1] if _n == 'all_gather' and len(a) > 1 else (a[0] if a else None)
                    calls.append([_n, list(t.shape) if hasattr(t, 'shape') else None, k.get('src')])
                    return _f(*a, **k)
                setattr(dist, n, g)
        if job['op'] == 'gather':
            ip = types.SimpleNamespace()
            got = gather(pieces(job, spec['ws'])[rank], rank, spec['ws'])
        else:
            ip = perform(job)
        for n, f in orig.items():
            setattr(dist, n, f)
        if job['op'] == 'gather':
            res.append({'tensors': list(got), 'calls': calls})
            continue
        res.append({'tensors': dump(ip), 'calls': calls})
        ip.is_distributed = False
    torch.save(res, out)
    dist.barrier()
    os._exit(0)


if __name__ == '__main__':
    main()
