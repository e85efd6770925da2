#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's current source:
  1. every proof unit of props/<id>.py runs the real functions symbolically and discharges the obligations;
  2. the concrete oracle oracles/<id>.py runs the real code on generated inputs (replay of counterexamples and
     bounded stand-in for what a proof unit cannot reach).
Exit 0: held. Exit 1 and a VIOLATION line: broken."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
EV = os.environ.get('ACEV_EV') or os.path.join(HERE, 'evidence')


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            if line.startswith('known: '):
                d = json.loads(line[7:])
                if d['property'] == prop:
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


# -- concrete oracle -----------------------------------------------------------

def start_oracle(prop, tier, seed, tag='', case=None, budget=None):
    out = os.path.join(EV, f'.oracle_{prop}{tag}.json')
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    if budget:
        env['ACEV_ORACLE_BUDGET'] = str(budget)
    args = [PY, '-m', 'acev.concrete', prop, tier, str(seed), out]
    if case is not None:
        args.append(json.dumps(case))
    p = subprocess.Popen(args, cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out


def end_oracle(p, out, timeout):
    err = ''
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        err = 'timeout'
    try:
        r = json.load(open(out))
        os.unlink(out)
        return r
    except Exception:
        return {'cases': 0, 'evaluations': 0, 'violations': [], 'samples': [], 'skipped': ['oracle gave no result: ' + (err or '')[-1500:]], 'wall_s': 0}


# -- proof units ---------------------------------------------------------------

def _work(prop, tier, i, conn, limit):
    import resource
    import signal
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    t = time.time()
    r = {'name': str(i), 'status': 'error', 'obligations': [], 'paths': 0, 'assumed': []}
    from acev import core
    try:
        mod = importlib.import_module('props.' + prop.lower())
        u = mod.units(tier)[i]
        r.update(name=u.name, functions=u.functions, bounded=u.bounded, assumes=u.assumes)

        def late(*_):
            signal.setitimer(signal.ITIMER_REAL, 10)    # again, should a handler have swallowed the first one
            raise core.OutOfTime()
        try:
            signal.signal(signal.SIGALRM, late)
            signal.setitimer(signal.ITIMER_REAL, limit)
            obs, n, assumed, (reason, trace) = core.explore(u.name, u.fn, u.max_paths)
            signal.setitimer(signal.ITIMER_REAL, 0)
            r['obligations'] = [dict(unit=o.unit, name=o.name, ok=bool(o.ok), backend=o.backend, detail=str(o.detail)[:1500], model=o.model) for o in obs]
            r['paths'] = n
            r['assumed'] = sorted(str(a) for a in assumed)
            r['status'] = 'undecided' if reason else 'done' if obs else 'empty'
            if reason:
                r['reason'], r['trace'] = reason[:1500], trace
        except (core.Unsupported, core.OutOfTime, Exception) as e:
            r['status'] = 'undecided'
            r['reason'] = f'{type(e).__name__}: {e}'[:1500]
            r['trace'] = core._trace()
        s = core.STATS
        r['stats'] = {'z3_time': s.z3_time, 'z3_queries': s.z3_queries, 'kernel_time': s.kernel_time, 'kernel_queries': s.kernel_queries}
    except BaseException as e:
        r['status'] = 'undecided'
        r['reason'] = f'{type(e).__name__}: {e}'[:1500]
        r['trace'] = core._trace()
    r['wall_s'] = time.time() - t
    conn.send(r)
    conn.close()


def run_units(prop, tier, timeout, only=None, total=None, jobs=int(os.environ.get('ACEV_JOBS', '7'))):
    if not os.path.exists(os.path.join(HERE, 'props', prop.lower() + '.py')):
        return []
    from acev import core  # noqa: F401  (z3 is loaded once, children are forked)
    mod = importlib.import_module('props.' + prop.lower())
    us = mod.units(tier)
    todo = [(i, u.name) for i, u in enumerate(us) if only is None or only in u.name]
    ctx = mp.get_context('fork')
    running, results = [], {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i, nm = todo.pop(0)
            left = timeout if total is None else min(timeout, total - (time.time() - t0))
            if left < 5:
                results[i] = {'name': nm, 'status': 'undecided', 'reason': f'not started: total time limit {total:.0f} s', 'obligations': [], 'paths': 0,
                              'assumed': [], 'functions': us[i].functions, 'bounded': us[i].bounded, 'assumes': us[i].assumes, 'wall_s': 0}
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(prop, tier, i, b, left))
            p.start()
            b.close()
            running.append((i, nm, p, a, time.time(), left + 20))
        time.sleep(0.01)
        for item in list(running):
            i, nm, p, a, t, limit = item
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {'name': nm, 'status': 'undecided', 'reason': 'worker ended', 'obligations': [], 'paths': 0, 'assumed': []}
            elif not p.is_alive() and not a.poll():
                r = {'name': nm, 'status': 'undecided', 'reason': f'worker ended with code {p.exitcode}', 'obligations': [], 'paths': 0, 'assumed': []}
            elif time.time() - t > limit:
                p.kill()
                r = {'name': nm, 'status': 'undecided', 'reason': f'time limit {limit:.0f} s', 'obligations': [], 'paths': 0, 'assumed': []}
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(item)
                u = us[i]
                r.setdefault('functions', u.functions)
                r.setdefault('bounded', u.bounded)
                r.setdefault('assumes', u.assumes)
                r.setdefault('wall_s', time.time() - t)
                results[i] = r
    return [results[i] for i in sorted(results)]


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'exploration'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--unit')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(EV, exist_ok=True)
    t0 = time.time()
    if a.replay:
        return replay(prop, tier, seed, a.replay)

    budget = 75 if tier == 'quick' else 700
    orc = None
    no_oracle = a.unit is not None or os.environ.get('ACEV_NO_ORACLE')
    if not no_oracle:
        orc = start_oracle(prop, tier, seed, budget=budget)
    res = run_units(prop, tier, 420 if tier == 'quick' else 1500, a.unit, total=480 if tier == 'quick' else None)
    orr = end_oracle(*orc, timeout=budget + 120) if orc else {'cases': 0, 'evaluations': 0, 'violations': [], 'samples': [], 'skipped': [], 'wall_s': 0}

    known = known_findings(prop)
    viol, seen_known = [], []
    for v in orr['violations']:
        k = next((k for k in known if k.get('case') == v['case']), None)
        (seen_known if k else viol).append(v)
    failed = [o for r in res for o in r['obligations'] if not o['ok'] and not any(k.get('obligation') == o['name'] and k.get('unit') == o['unit'] for k in known)]
    failed_known = [o for r in res for o in r['obligations'] if not o['ok'] and o not in failed]
    if failed and not viol and not no_oracle:
        # look harder for a failing input before reporting without one
        for s in (seed + 1, seed + 2):
            p2 = start_oracle(prop, 'thorough', s, tag=f'_{s}', budget=60)
            r2 = end_oracle(*p2, timeout=120)
            viol = [v for v in r2['violations'] if not any(k.get('case') == v['case'] for k in known)]
            orr['cases'] += r2['cases']
            orr['evaluations'] += r2['evaluations']
            if viol:
                for v in viol:
                    v['seed'], v['tier'] = s, 'thorough'
                break

    status = 0
    for k in seen_known:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for o in failed_known:
        print(f'KNOWN-FINDING: property={prop} obligation {o["unit"]}: {o["name"]}')
    if viol or failed:
        status = 1
        rp = os.path.join(EV, f'replay_{prop}.json')
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'violations': viol[:5], 'failed_obligations': failed[:10],
                   'how': f'./check.py {prop} --replay {rp}'}, open(rp, 'w'), indent=1)
        for o in failed[:5]:
            print(f'failed obligation: {o["unit"]}: {o["name"]} [{o["backend"]}] {o["detail"][:300]} model={o["model"]}')
        for v in viol[:3]:
            print(f'failing input: {json.dumps(v["case"])} : {v["what"]} {json.dumps(v["detail"])[:600]}')
        print(f'VIOLATION property={prop} replay={rp}' + ('' if viol else ' no-failing-input-found'))

    write_evidence(prop, tier, seed, res, orr, viol, failed, time.time() - t0)
    und = [r for r in res if r['status'] != 'done']
    nob = sum(len(r['obligations']) for r in res)
    print(f'{prop} {tier}: {len(res)} proof units, {nob} obligations, {sum(o["ok"] for r in res for o in r["obligations"])} discharged, '
          f'{len(und)} undecided units; oracle: {orr["cases"]} cases, {orr["evaluations"]} evaluations, {len(orr["violations"])} violations; {time.time()-t0:.1f} s')
    for r in und:
        print(f'  undecided unit {r["name"]}: {r.get("reason", r["status"])[:300]}')
        if a.v:
            print(r.get('trace', ''))
    for s in orr['skipped'][:5]:
        print('  oracle part skipped:', s[-300:])
    if a.v:
        for r in res:
            print(f'  {r["name"]}: {r["status"]} {len(r["obligations"])} obligations, {r["paths"]} paths, {r.get("wall_s", 0):.1f} s')
            for o in r['obligations']:
                print('      ', 'ok    ' if o['ok'] else 'FAILED', o['name'], f'[{o["backend"]}]', '' if o['ok'] else o['detail'])
    if not a.unit and nob == 0 and orr['evaluations'] == 0:
        # nothing was decided at all: say so rather than pass silently
        print('no obligation and no evaluation: the check decided nothing')
        return max(status, 2) if status == 0 else status
    return status


TRUST = ['CPython 3.12 executing the transformed source (acev/loader.py: mechanical AST transform, listed in DESIGN.md)',
         'acev term kernel (acev/tens.py) and loop driver (acev/conts.py)', 'z3 4.x (python bindings)',
         'contracts of the torch operations in acev/symtorch.py']


def write_evidence(prop, tier, seed, res, orr, viol, failed, wall):
    lv = level_of(prop)
    proved = [r for r in res if not r['bounded']]
    bounded = [r for r in res if r['bounded']]
    obs = [o for r in proved for o in r['obligations']]
    by = {}
    for o in obs:
        if o['ok']:
            by[o['backend']] = by.get(o['backend'], 0) + 1
    stats = [r.get('stats', {}) for r in res]
    cov = {
        'obligations': len(obs), 'discharged': sum(o['ok'] for o in obs),
        'checker_cmd': f'/opt/venv/bin/python check.py {prop} --tier {tier} -v', 'trusted_base': TRUST,
        'discharged_by_backend': by,
        'functions_under_contract': sorted({f for r in proved if r['status'] == 'done' for f in r['functions']}),
        'functions_bounded_only': sorted({f for r in bounded if r['status'] == 'done' for f in r['functions']}
                                         | {f for r in res if r['status'] != 'done' for f in r['functions']}),
        'units': [{'name': r['name'], 'status': r['status'], 'bounded': r['bounded'], 'obligations': len(r['obligations']),
                   'discharged': sum(o['ok'] for o in r['obligations']), 'paths': r['paths'], 'wall_s': round(r.get('wall_s', 0), 2),
                   **({'reason': r['reason']} if r.get('reason') else {})} for r in res],
        'bounded_obligations': sum(len(r['obligations']) for r in bounded),
        'solver': {'z3_s': round(sum(s.get('z3_time', 0) for s in stats), 2), 'z3_queries': sum(s.get('z3_queries', 0) for s in stats),
                   'kernel_s': round(sum(s.get('kernel_time', 0) for s in stats), 2), 'kernel_queries': sum(s.get('kernel_queries', 0) for s in stats)},
        'evaluations': orr['evaluations'], 'distinct_nontrivial': orr['cases'],
        'rule': 'each case of oracles/%s.py runs the real code on one generated configuration and compares with an independent reference; every case is distinct by name and arguments' % prop.lower(),
        'samples': orr['samples'][:12] or [o['name'] for o in obs[:5]] or ['none'],
        'oracle_skipped': orr['skipped'][:10],
        'failed_obligations': failed[:10],
    }
    ass = sorted({x for r in res for x in r['assumes']} | {x for r in res for x in r['assumed']})
    ass += ['machine integers and floating point treated as mathematical integers and real or complex numbers in the proof units']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lv, 'coverage': cov, 'assumptions': ass, 'wall_s': round(wall, 2),
          'violations': len(viol) + len(failed)}
    json.dump(ev, open(os.path.join(EV, f'{prop}.json'), 'w'), indent=1)


def replay(prop, tier, seed, path):
    d = json.load(open(path))
    bad = 0
    for v in d['violations']:
        p = start_oracle(prop, v.get('tier', d['tier']), v.get('seed', d['seed']), tag='_replay', case=v['case'])
        r = end_oracle(*p, timeout=600)
        for w in r['violations']:
            bad += 1
            print('still fails:', json.dumps(w)[:1500])
    for u in sorted({o['unit'] for o in d['failed_obligations']}):
        for r in run_units(prop, tier, 600, u):
            for o in r['obligations']:
                if not o['ok']:
                    bad += 1
                    print('still fails:', json.dumps(o)[:1500])
    print('replayed:', bad, 'failures')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
