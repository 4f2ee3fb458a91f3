"""Random AST mutants of /repo's sources against the checks (development aid).

usage: mutate.py N SEED [file-substring ...]     results appended to /tmp/mut/log.txt
"""
import ast
import os
import random
import shutil
import subprocess
import sys

MAP = {
    'fem/basis.py': 'C01 C02',
    'fem/core.py': 'C03 C01 C02 C10 C04 C05',
    'fem/solver.py': 'C04 C05 C06 C07',
    'fem/models.py': 'C08 C09',
    'fem/mma.py': 'C12 C11 C13',
    'fem/generate_mesh.py': 'C28',
    'common.py': 'C28',
    'cfd/cfd_am.py': 'C17 C18 C15 C14 C16',
    'cfd/gamma.py': 'C19',
    'lbm/core.py': 'C20 C21 C22 C23 C24',
    'lbm/utils.py': 'C20 C21 C24 C22 C23',
    'phase_field/allen_cahn.py': 'C25 C26',
    'phase_field/utils.py': 'C26 C25 C27 C28',
    'phase_field/neper.py': 'C28 C27 C26',
}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CMP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
ATTR = {'maximum': 'minimum', 'minimum': 'maximum', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'sum': 'max', 'max': 'min', 'min': 'max',
        'sin': 'cos', 'cos': 'sin', 'ones': 'zeros', 'zeros_like': 'ones_like', 'ones_like': 'zeros_like', 'hstack': 'vstack', 'tanh': 'sin', 'exp': 'sin'}


def sites(tree):
    """(node, description, mutate function)"""
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Add) and any(isinstance(q, ast.Constant) and isinstance(q.value, str) for q in (n.left, n.right)):
                continue
            out.append((n, f'{type(n.op).__name__}', lambda n=n: setattr(n, 'op', BIN[type(n.op)]())))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((n, 'cmp', lambda n=n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            out.append((n, 'neg', lambda n=n: setattr(n, 'op', ast.UAdd())))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            new = {0: 1, 1: 0, 2: 1, -1: 0}.get(n.value, n.value * 2 if isinstance(n.value, float) else n.value + 1)
            out.append((n, f'{n.value}->{new}', lambda n=n, new=new: setattr(n, 'value', type(n.value)(new))))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, f'{n.value} flipped', lambda n=n: setattr(n, 'value', not n.value)))
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            out.append((n, f'{n.attr}->{ATTR[n.attr]}', lambda n=n: setattr(n, 'attr', ATTR[n.attr])))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], ast.Name):
            out.append((n, 'swap args', lambda n=n: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]])))
    return out


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    files = [f for f in MAP if not sys.argv[3:] or any(q in f for q in sys.argv[3:])]
    rnd = random.Random(seed)
    base = f'/tmp/mut/{seed}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(['cp', '-a', '/repo', base + '/repo'], check=True)
    log = open('/tmp/mut/log.txt', 'a')
    cov = {}
    try:
        import json
        for l in open('/tmp/cov/lines.json'):
            cov = {k: set(v) for k, v in json.loads(l).items()}
    except FileNotFoundError:
        pass
    for k in range(N):
        f = files[k % len(files)]
        path = f'{base}/repo/jax_am/{f}'
        src = open(f'/repo/jax_am/{f}').read()
        for _ in range(200):
            tree = ast.parse(src)
            s = sites(tree)
            n, desc, fn = rnd.choice(s)
            if any(q in src.splitlines()[n.lineno - 1] for q in ('print(', 'logger.', 'assert ', 'time.time', 'tol=', 'maxiter')):
                continue
            if not cov or n.lineno in cov.get('jax_am/' + f, ()):
                break
        line = src.splitlines()[n.lineno - 1].strip()
        before = ast.unparse(tree)
        fn()
        after = ast.unparse(tree)
        d = [(a, b) for a, b in zip(before.splitlines(), after.splitlines()) if a != b]
        open(path, 'w').write(after)
        verdict = 'SURVIVED'
        notes = []
        for p in MAP[f].split():
            try:
                r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'run.py'), p], env=dict(os.environ, VERIF_REPO=base + '/repo'), capture_output=True, text=True, timeout=900)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = 124, ''
            if rc == 1:
                verdict = 'killed by ' + p
                break
            u = out.count('UNDECIDED')
            notes.append(f'{p}:{rc}/u{u}')
        open(path, 'w').write(src)
        log.write(f'{verdict} | {f}:{n.lineno} {desc} | {d[0][1].strip()[:160] if d else line} | {" ".join(notes)}\n')
        log.flush()
    shutil.rmtree(base)


main()
