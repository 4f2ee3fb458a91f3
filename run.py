#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [--tier quick|thorough]
   run.py --replay FILE        re-run a recorded counterexample on /repo
   (workers: --sym / --conc, started by the parent)"""
import argparse
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def worker_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=f'{REPO}:{HERE}', JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', JAX_ENABLE_X64='1',
             TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg',
             OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    e['XLA_FLAGS'] = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    return e


def load_checks():
    sys.path.append(Z3PATH)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    from vsym import ctx
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c_*.py'))):
        importlib.import_module('checks.' + os.path.basename(f)[:-3])
    return ctx.HARNESSES


# ------------------------------------------------------------------ workers
def coverage(outdir):
    """development aid (VSYM_COV=dir): lines of /repo executed by the symbolic workers"""
    import atexit
    mon = sys.monitoring
    mon.use_tool_id(3, 'vsym')
    hit = set()
    pre = REPO + '/jax_am/'

    def line(code, n):
        if code.co_filename.startswith(pre):
            hit.add((code.co_filename[len(REPO) + 1:], n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    atexit.register(lambda: json.dump(sorted(hit), open(os.path.join(outdir, f'{os.getpid()}.json'), 'w')))


def worker(mode, spec, outf):
    sys.setrecursionlimit(20000)
    if mode == 'sym' and os.environ.get('VSYM_COV'):
        coverage(os.environ['VSYM_COV'])
    s = json.load(open(spec))
    H = load_checks()
    import logging
    logging.disable(logging.CRITICAL)
    import jax
    jax.config.update('jax_enable_x64', True)
    if mode == 'sym':
        from vsym import npsym
        npsym.install_sym_boundary()
        from vsym import linsolve
        linsolve.install()
    else:
        from vsym import linsolve
        linsolve.install_direct()
    from vsym import engine, solve
    res = []
    if s.get('cross'):
        solve.CROSS[0] = True
    for job in s['jobs']:
        h = H[(s['property'], job['harness'])]
        t = time.time()
        try:
            if mode == 'sym':
                before = dict(solve.STATS)
                r = engine.run_symbolic(h, seed=s['seed'], timeout_ms=h.timeout * 1000,
                                        nsamples=h.samples * (4 if s['tier'] == 'thorough' else 1), verbose=s.get('verbose'),
                                        limit=None if s['tier'] == 'thorough' else 300)
                r['solver'] = {k: solve.STATS[k] - before[k] for k in before}
            else:
                r = {'harness': h.name, 'runs': []}
                broken = set()
                for pt in job['points']:
                    # one reproduced counterexample per assertion is enough
                    if broken and s['tier'] == 'quick' and (pt.get('why') == 'point' or pt.get('label') in broken or len(broken) >= 3):
                        r['runs'].append({'status': 'skipped', 'failed': [], 'mismatch': [], 'error': None})
                        continue
                    run = engine.run_concrete(h, pt['env'], pt.get('expect'))
                    r['runs'].append(run)
                    if run['failed'] or run['status'] == 'raised':
                        broken.update({pt.get('label')} | {f['label'] for f in run['failed']})
        except BaseException as e:
            import traceback
            r = {'harness': h.name, 'status': 'error', 'error': f'worker: {type(e).__name__}: {e}',
                 'trace': traceback.format_exc()[-3000:], 'candidates': [], 'unknown': [], 'points': [], 'labels': [],
                 'obligations': 0, 'paths': 0, 'counts': {}, 'solver': {}, 'runs': [], 'time_s': time.time() - t}
            if isinstance(e, KeyboardInterrupt):
                raise
        res.append(r)
        json.dump(res, open(outf + '.tmp', 'w'))
        os.replace(outf + '.tmp', outf)


def run_group(prop, jobs, mode, tier, seed, scratch, tag, verbose, cross=False):
    spec = os.path.join(scratch, f'{tag}.{mode}.json')
    outf = os.path.join(scratch, f'{tag}.{mode}.out')
    json.dump({'property': prop, 'jobs': jobs, 'tier': tier, 'seed': seed, 'verbose': verbose, 'cross': cross}, open(spec, 'w'))
    wd = os.path.join(scratch, f'{tag}.{mode}.wd')
    os.makedirs(wd, exist_ok=True)
    log = open(os.path.join(scratch, f'{tag}.{mode}.log'), 'w')
    p = subprocess.Popen([PY, os.path.join(HERE, 'run.py'), '--worker', mode, spec, outf], env=worker_env(), cwd=wd,
                         stdout=subprocess.DEVNULL, stderr=None if verbose else log)
    return p, outf, log


def partition(hs, n):
    groups = [[] for _ in range(n)]
    load = [0.0] * n
    for h in sorted(hs, key=lambda h: -h.weight):
        i = load.index(min(load))
        groups[i].append(h)
        load[i] += h.weight
    return [g for g in groups if g]


ARITY = ('positional argument', 'unexpected keyword argument', 'got multiple values for', 'required keyword-only', 'vmap in_axes must be')


def through_repo(trace):
    """Did the exception come out of /repo code run as the harness meant to run it?

    A call whose arguments no longer fit the signature says nothing about behaviour when
    the harness itself made the call (or made it through the thin vmap wrapper of the
    lattice solver's closures): a private function was rearranged, and the harness is
    undecided.  The same error deeper inside /repo is a defect of /repo."""
    trace = trace or ''
    if f'File "{REPO}/' not in trace:
        return False
    if any(a in trace for a in ARITY):
        m = re.search(r'([\w.<>]+)\(\) (?:missing|takes|got)', trace)
        name = [q for q in (m.group(1).split('.') if m else []) if q not in ('<locals>', '__call__', '__init__', '<lambda>')]
        if name and subprocess.run(['grep', '-rqE', '--include=*.py', rf'(def|class) {name[-1]}\b', os.path.join(REPO, 'jax_am')]).returncode:
            return False        # a stand-in of ours was called with other arguments
        frames = [m for m in re.findall(r'File "([^"]+)", line \d+, in (\S+)', trace)]
        tail = []
        for f in frames:
            if f[0].startswith(os.path.join(HERE, 'checks')) or f[0].startswith(os.path.join(HERE, 'vsym')):
                tail = []
            elif f[0].startswith(REPO + '/'):
                tail.append(f)
        if not tail or (len(tail) == 1 and tail[0][0].endswith('lbm/core.py') and tail[0][1] not in ('simulation', '<module>')):
            return False
    return True


def check(prop, tier, seed, verbose=False, only=None):
    t0 = time.time()
    H = load_checks()
    hs = [h for (p, _), h in H.items() if p == prop and (tier == 'thorough' or h.tier == 'quick') and (only is None or h.name in only)]
    if not hs:
        print(f'no harness for {prop}')
        return 2
    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    viol, errors, known = [], [], []
    try:
        kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError:
        kf = []
    kfs = {(k['property'], k['harness'], k['label']): k for k in kf if k.get('status') == 'open' and k['property'] == prop}
    results, concs = {}, {}
    try:
        budget = (780 if tier == 'quick' else 3 * 3600)
        ngroups = min(8, len(hs))
        groups = partition(hs, ngroups)
        procs = []
        for gi, g in enumerate(groups):
            jobs = [{'harness': h.name} for h in g]
            procs.append((gi, g, 'sym') + run_group(prop, jobs, 'sym', tier, seed, scratch, f'g{gi}', verbose, tier == 'thorough'))
        stop_at = None
        sent = set()

        def points(r):
            pts = [{'env': c['env'], 'expect': None, 'why': 'cex', 'label': c['label']} for c in r['candidates']]
            return pts + [{'env': q['env'], 'expect': q['expect'], 'why': 'point'} for q in r['points']]

        def start_conc(tag, rs):
            jobs = [{'harness': r['harness'], 'points': points(r)} for r in rs if r['harness'] not in sent]
            if not jobs:
                return
            sent.update(j['harness'] for j in jobs)
            concs.update({j['harness']: [j, None] for j in jobs})
            procs.append((tag, [], 'conc') + run_group(prop, jobs, 'conc', tier, seed, scratch, tag, verbose))

        def read(outf):
            return json.load(open(outf)) if os.path.exists(outf) else []

        tick = time.time()
        while procs:
            time.sleep(0.1)
            now = time.time()
            poll = now - tick > 2
            if poll:
                tick = now
            for item in list(procs):
                gi, g, mode, p, outf, log = item
                if p.poll() is None:
                    if now - t0 > budget + (0 if mode == 'sym' else 40) or (stop_at is not None and now > stop_at and mode == 'sym'):
                        p.kill()
                        p.wait()
                    else:
                        if poll and mode == 'sym':
                            # replay counterexamples at once; a confirmed one ends the search soon
                            for r in read(outf):
                                results[r['harness']] = r
                                if r['candidates'] and r['harness'] not in sent:
                                    start_conc(f'{gi}_{r["harness"]}', [r])
                        continue
                procs.remove(item)
                log.close()
                got = read(outf)
                if mode == 'sym':
                    for r in got:
                        results[r['harness']] = r
                    for h in g:
                        if h.name not in results:
                            why = 'stopped after a confirmed violation' if stop_at is not None else 'time budget or crash'
                            errors.append(f'{h.name}: symbolic worker ended without a result ({why}) {open(log.name).read()[-800:]}')
                    start_conc(f'{gi}_rest', [results[h.name] for h in g if h.name in results])
                else:
                    for r in got:
                        concs[r['harness']][1] = r
                        if stop_at is None and tier == 'quick' and any(
                                run['failed'] or (run['status'] == 'raised' and through_repo(run.get('trace'))) for run in r.get('runs', [])):
                            if not any(k[1] == r['harness'] for k in kfs):
                                stop_at = time.time() + 25
        # ---- verdicts
        os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
        validated = 0
        samples = []
        for h in hs:
            r = results.get(h.name)
            if r is None:
                continue
            job, c = concs.get(h.name, [None, None])
            if c is None or 'runs' not in c or len(c['runs']) != len(job['points']):
                errors.append(f'{h.name}: concrete worker failed {(c or {}).get("error")}')
                continue
            hv = []
            reproduced = set()
            okpoints = 0
            for pt, run in zip(job['points'], c['runs']):
                if run['status'] == 'skipped':
                    if pt['why'] == 'cex':
                        reproduced.add(pt['label'])
                    continue
                if run['status'] == 'raised':
                    if through_repo(run.get('trace')):
                        hv.append((pt, {'label': 'raises', 'got': run['error'], 'want': 'no exception'}, run))
                        if pt['why'] == 'cex':
                            reproduced.add(pt['label'])
                    else:
                        errors.append(f'{h.name}: harness raised at a concrete point: {run["error"]} {run.get("trace","")[-400:]}')
                    continue
                if run['status'] == 'assumption':
                    if pt['why'] == 'point':
                        errors.append(f'{h.name}: validation point rejected by the concrete run')
                    continue
                if run['status'] != 'ok':
                    errors.append(f'{h.name}: {run["status"]} {run["error"]}')
                    continue
                for f in run['failed']:
                    hv.append((pt, f, run))
                    reproduced.add(f['label'])
                if pt['why'] == 'cex' and run['failed']:
                    reproduced.add(pt['label'])
                if pt['why'] == 'point' and not run['failed']:
                    if run['mismatch']:
                        errors.append(f'{h.name}: encoding disagrees with the real run: {run["mismatch"][:3]}')
                    elif pt['expect'] is not None:
                        validated += 1
                        okpoints += 1
                        if len(samples) < 6:
                            samples.append({'harness': h.name, 'point': dict(list(pt['env'].items())[:8])})
            for cd in r['candidates']:
                if cd['label'] not in reproduced:
                    errors.append(f'{h.name}: counterexample for "{cd["label"]}" did not reproduce on the real code')
            for u in r['unknown']:
                if u['label'] not in reproduced:
                    errors.append(f'{h.name}: undecided "{u["label"]}": {u["why"]}')
            if r['status'] != 'ok' and not hv:
                errors.append(f'{h.name}: {r["error"]} {r.get("trace","")[-700:] if verbose else ""}')
            if r['status'] == 'ok' and okpoints == 0 and not hv:
                errors.append(f'{h.name}: no concrete witness reached the assertions (vacuous?)')
            seen = set()
            for pt, f, run in hv:
                if f['label'] in seen:
                    continue
                seen.add(f['label'])
                k = kfs.get((prop, h.name, f['label']))
                if k is not None:
                    known.append(k)
                    continue
                rp = os.path.join(HERE, 'evidence', 'replays', f'{prop}_{h.name}_{len(viol)}.json')
                json.dump({'property': prop, 'harness': h.name, 'env': pt['env'], 'label': f['label'], 'observed': f,
                           'trace': run.get('trace')}, open(rp, 'w'), indent=1)
                viol.append((h.name, f, rp))
        tot = lambda k: sum(r.get('solver', {}).get(k, 0) for r in results.values())
        cnt = lambda k: sum(r.get('counts', {}).get(k, 0) for r in results.values())
        nobl = sum(r['obligations'] for r in results.values())
        nbad = sum(len(r['candidates']) + len(r['unknown']) for r in results.values())
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Bounded symbolic execution of the real functions from the current /repo tree; z3 decides every '
                               'assertion for all values inside the stated boxes and sizes (exact real arithmetic). '
                               'Counterexamples are replayed on the unpatched code before being reported.',
                'harnesses': [{'name': h.name, 'bounds': h.bounds, 'functions': h.functions,
                               'paths': results[h.name]['paths'] if h.name in results else 0,
                               'assertions': results[h.name]['obligations'] if h.name in results else 0,
                               'claims': results[h.name].get('counts', {}).get('claims', 0) if h.name in results else 0,
                               'time_s': results[h.name].get('time_s') if h.name in results else None,
                               'status': results[h.name]['status'] if h.name in results else 'missing'} for h in hs],
                'obligations': nobl, 'discharged': nobl - nbad,
                'scalar_claims': cnt('claims'), 'claims_closed_by_normal_form_before_query': cnt('normal_form_zero'),
                'solver_queries': tot('queries'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'),
                'linear_abstraction_unsat': tot('stageA_unsat'), 'nonlinear_unsat': tot('stageB_unsat'),
                'cvc5_cross_checked': tot('cvc5_checked'), 'cvc5_agrees_unsat': tot('cvc5_unsat'),
                'solver_time_s': round(tot('solver_time_s'), 2),
                'paths': sum(r['paths'] for r in results.values()),
                'points_validated_against_impl': validated, 'samples': samples,
                'known_findings': [k['what'] for k in known], 'errors': errors[:20],
            },
            'assumptions': ['machine floating point is modelled as exact real arithmetic (double constants snapped to the nearest short rational)',
                            'inputs range over the boxes and sizes listed per harness; nothing is claimed outside',
                            'JAX tracing/vmap/jvp/vjp/jit machinery, NumPy indexing, basix tabulation and z3 are trusted'],
            'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
        json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)
        if verbose:
            for h in hs:
                r = results.get(h.name)
                if r:
                    print(f"  {h.name}: {r['status']} paths={r['paths']} obl={r['obligations']} t={r.get('time_s')} {r['counts']}")
    finally:
        if os.environ.get('VSYM_KEEP'):
            print('scratch kept:', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    done = set()
    for k in known:
        if id(k) not in done:
            done.add(id(k))
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for name, f, rp in viol:
        print(f'VIOLATION property={prop} replay={rp}')
        print(f'  harness {name}: {f["label"]}: got {f["got"]} want {f["want"]}')
    # a harness whose code the encoding cannot follow, or on which the solver gives
    # up, is undecided: reported here and in the evidence, never an alarm.  With
    # all harnesses undecided there is no answer at all.
    bad = {e.split(':', 1)[0] for e in errors}
    for e in errors:
        print('UNDECIDED', e)
    print(f'{prop} {tier}: {nobl} assertions, {len(viol)} violations, {len(bad)} of {len(hs)} harnesses undecided, {time.time()-t0:.0f}s')
    if viol:
        return 1
    if errors and (os.environ.get('VSYM_STRICT') or len(bad) >= len(hs)):
        return 2
    return 0


def replay(f):
    d = json.load(open(f))
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        p, outf, log = run_group(d['property'], [{'harness': d['harness'], 'points': [{'env': d['env']}]}], 'conc', 'quick', 1,
                                 scratch, 'r', True)
        p.wait()
        r = json.load(open(outf))[0]['runs'][0]
        print(json.dumps(r, indent=1))
        return 1 if r['failed'] or r['status'] == 'raised' else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--worker':
        worker(*sys.argv[2:5])
        sys.exit(0)
    if len(sys.argv) > 1 and sys.argv[1] == '--selftest':
        r = subprocess.run([PY, '-c', f'import sys; sys.path.append({Z3PATH!r}); import z3, jax, jax_am; print("ok", z3.get_version_string())'],
                           env=worker_env(), cwd=tempfile.gettempdir())
        sys.exit(r.returncode)
    if len(sys.argv) > 1 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if sys.executable != PY and os.path.exists(PY) and os.environ.get('VERIF_REEXEC') != '1':
        e = worker_env()
        e['VERIF_REEXEC'] = '1'
        os.execve(PY, [PY] + sys.argv, e)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', nargs='*')
    a = ap.parse_args()
    sys.exit(check(a.property, a.tier, a.seed, a.v, a.only))
