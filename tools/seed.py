"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each one in a scratch copy:
the patch applies, the demonstration passes without it and fails with it.  Usage: seed.py [id...] [--tests]"""
import difflib, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import seeds
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT; export SCRATCH="$S"
/opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(d, repo):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    scratch = tempfile.mkdtemp(prefix='seed_')
    subprocess.run(['cp', '-a', '/repo', scratch + '/r'], check=True)
    R = scratch + '/r'
    for s in seeds.SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(H, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        for f, pairs in s['edits'].items():
            src = open(os.path.join(R, f)).read()
            new = src
            for old, rep in pairs:
                assert new.count(old) == 1, (s['id'], f, new.count(old), old)
                new = new.replace(old, rep)
            open(os.path.join(R, f), 'w').write(new)
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(seeds.HEAD + s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        a = run(d, R)
        subprocess.run(['git', '-C', R, 'apply', d + '/patch.diff'], check=True)
        b = run(d, R)
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
        ok = a[0] == 0 and b[0] != 0
        print(s['id'], s['property'], 'OK' if ok else 'BAD', '' if ok else (a, b), '|', b[1].strip().splitlines()[-1][:150] if b[1].strip() else '', flush=True)
    shutil.rmtree(scratch)


main()
