"""Mutation testing of the proof units: tools/mutate.py PROP FILE[:func,func] [--oracle] [--max N]

Makes mutants of one source file in scratch copies (under /tmp), runs the proof units (and with --oracle the concrete
oracle) against each and lists the survivors."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def mutants(tree, funcs, rng):
    out = []
    sites = []

    def walk(node, parent, field, idx, infn, name):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            name = name + '.' + node.name if name else node.name
            if isinstance(node, ast.FunctionDef) and (not funcs or any(name == f or name.endswith('.' + f) for f in funcs)):
                infn = True
        if infn:
            sites.append((node, parent, field, idx, name))
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, node, f, i, infn, name)
            elif isinstance(v, ast.AST):
                walk(v, node, f, None, infn, name)
    walk(tree, None, None, None, not funcs, '')

    def sub(site, new, what):
        node, parent, field, idx, name = site
        def do():
            if idx is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[idx] = new
        def undo():
            if idx is None:
                setattr(parent, field, node)
            else:
                getattr(parent, field)[idx] = node
        out.append((f'{name}:{getattr(node, "lineno", 0)}: {what}', do, undo))

    for s in sites:
        node, parent, field, idx, name = s
        if parent is None:
            continue
        if isinstance(node, ast.Constant):
            if isinstance(parent, ast.Expr) or isinstance(node.value, bool):
                if isinstance(node.value, bool):
                    sub(s, ast.Constant(not node.value), f'{node.value} -> {not node.value}')
                continue
            if isinstance(node.value, int):
                sub(s, ast.Constant(node.value + 1), f'{node.value} -> {node.value + 1}')
            elif isinstance(node.value, float):
                sub(s, ast.Constant(node.value * 2 + 1), f'{node.value} -> {node.value * 2 + 1}')
            elif isinstance(node.value, str) and '->' in node.value:
                v = node.value
                ins, o = v.split('->')
                ops = ins.split(',')
                for t in range(2):
                    k = rng.randrange(len(ops) + 1)
                    w = ops[k] if k < len(ops) else o
                    if len(w) >= 2:
                        i, j = rng.sample(range(len(w)), 2)
                        l = list(w)
                        l[i], l[j] = l[j], l[i]
                        ops2 = list(ops)
                        if k < len(ops):
                            ops2[k] = ''.join(l)
                            nv = ','.join(ops2) + '->' + o
                        else:
                            nv = ins + '->' + ''.join(l)
                        sub(s, ast.Constant(nv), f'{v} -> {nv}')
        elif isinstance(node, ast.BinOp):
            r = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None, ast.Pow: None, ast.Mod: None, ast.FloorDiv: ast.Mult}.get(type(node.op))
            if r:
                n = copy.copy(node)
                n.op = r()
                sub(s, n, f'{ast.unparse(node)} -> {ast.unparse(n)}')
            if isinstance(node.op, (ast.MatMult, ast.Sub)):
                n = ast.BinOp(node.right, node.op, node.left)
                sub(s, ast.copy_location(n, node), f'{ast.unparse(node)} -> {ast.unparse(n)}')
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            r = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn}.get(type(node.ops[0]))
            if r:
                n = copy.copy(node)
                n.ops = [r()]
                sub(s, n, f'{ast.unparse(node)} -> {ast.unparse(n)}')
        elif isinstance(node, ast.Call):
            f = node.func
            fn = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if fn in ('conj', 'clone', 'copy', 'sqrt', 'detach', 'abs', 'real', 'flip') and (node.args or isinstance(f, ast.Attribute)):
                sub(s, node.args[0] if node.args and isinstance(f, ast.Name) else f.value if isinstance(f, ast.Attribute) and fn != 'conj' else (node.args[0] if node.args else f.value), f'{ast.unparse(node)} without {fn}')
            if len(node.args) >= 2 and fn not in ('einsum', 'getattr', 'isinstance') and not any(isinstance(a, ast.Starred) for a in node.args):
                i = rng.randrange(len(node.args) - 1)
                n = copy.copy(node)
                n.args = list(node.args)
                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                if ast.unparse(n) != ast.unparse(node):
                    sub(s, n, f'{ast.unparse(node)} -> {ast.unparse(n)}')
        elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and node.attr in ('mH', 'mT', 'T', 'H', 'nx', 'ny', 's1', 's2'):
            r = {'mH': 'mT', 'mT': 'mH', 'T': 'mH', 'H': 'T', 'nx': 'ny', 'ny': 'nx', 's1': 's2', 's2': 's1'}[node.attr]
            n = copy.copy(node)
            n.attr = r
            sub(s, n, f'{ast.unparse(node)} -> {ast.unparse(n)}')
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            if isinstance(node, ast.Expr) and 'tqdm.write' in ast.unparse(node):
                continue
            tg = node.targets[0] if isinstance(node, ast.Assign) else getattr(node, 'target', None)
            if not isinstance(tg, ast.Name) or isinstance(node, ast.AugAssign):
                sub(s, ast.copy_location(ast.Pass(), node), f'deleted: {ast.unparse(node)}')
        elif isinstance(node, ast.If):
            n = copy.copy(node)
            n.test = ast.UnaryOp(ast.Not(), node.test)
            sub(s, n, f'if not ({ast.unparse(node.test)})')
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            r = {'xi': 'yi', 'yi': 'xi', 'xj': 'xi', 'yj': 'yi', 's1': 's2', 's2': 's1'}.get(node.id)
            if r:
                sub(s, ast.copy_location(ast.Name(r, ast.Load()), node), f'{node.id} -> {r}')
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('file')
    ap.add_argument('--oracle', action='store_true')
    ap.add_argument('--max', type=int, default=60)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('-j', type=int, default=7)
    a = ap.parse_args()
    f, _, fs = a.file.partition(':')
    rng = random.Random(a.seed)
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    ms = mutants(tree, fs.split(',') if fs else [], rng)
    if len(ms) > a.max:
        ms = rng.sample(ms, a.max)
    base = tempfile.mkdtemp(prefix='acev_mut_')
    jobs = []
    for i, (what, do, undo) in enumerate(ms):
        do()
        try:
            ast.fix_missing_locations(tree)
            new = ast.unparse(tree)
            compile(new, f, 'exec')
        except Exception:
            new = None
        undo()
        if new is None:
            continue
        jobs.append((i, what, new))

    def run(job):
        i, what, new = job
        d = os.path.join(base, str(i))
        shutil.copytree(os.path.join(REPO, 'acetn'), os.path.join(d, 'acetn'))
        open(os.path.join(d, f), 'w').write(new)
        env = dict(os.environ, ACEV_REPO=d, ACEV_EV=os.path.join(d, 'ev'), VERIF_SEED='1', ACEV_JOBS='1', ACEV_ORACLE_BUDGET='20')
        if not a.oracle:
            env['ACEV_NO_ORACLE'] = '1'
        p = subprocess.run(['/opt/venv/bin/python', os.path.join(HERE, 'check.py'), a.prop], env=env, cwd=HERE, capture_output=True, text=True)
        shutil.rmtree(d)
        und = sum(l.startswith('  undecided unit') for l in p.stdout.splitlines())
        why = [l for l in p.stdout.splitlines() if l.startswith('  undecided unit')][:1]
        fail = [l for l in p.stdout.splitlines() if l.startswith('failed obligation') or l.startswith('failing input')][:1]
        return what, p.returncode, und, why, fail, p.stderr[-300:]
    with ThreadPoolExecutor(a.j) as ex:
        rs = list(ex.map(run, jobs))
    shutil.rmtree(base)
    killed = sum(r[1] == 1 for r in rs)
    print(f'{a.prop} {a.file}: {len(rs)} mutants, {killed} reported, {sum(r[1] == 0 and r[2] > 0 for r in rs)} undecided only, {sum(r[1] == 0 and r[2] == 0 for r in rs)} accepted')
    for what, rc, und, why, fail, err in rs:
        if rc == 0 and und == 0:
            print('  ACCEPTED ', what)
        elif rc not in (0, 1):
            print('  ERROR', rc, what, err)
    for what, rc, und, why, fail, err in rs:
        if rc == 0 and und:
            print('  undecided', und, what, (why or [''])[0][:160])


if __name__ == '__main__':
    main()
