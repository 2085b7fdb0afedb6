"""Decide one property: check.py PROPERTY [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from symx import runner_env  # noqa: E402

PROJECT_PY = '/opt/venv/bin/python'


def modules_of(prop):
    out = []
    hd = os.path.join(HERE, 'harness')
    for f in sorted(os.listdir(hd)):
        if f.endswith('.py') and not f.startswith('_'):
            with open(os.path.join(hd, f)) as fh:
                if "'{}'".format(prop) in fh.read():
                    out.append(f[:-3])
    return out


def replay(recs, timeout):
    """Run records on the real code under the project interpreter."""
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    import tempfile
    fd, path = tempfile.mkstemp(suffix='.json', dir=outdir)
    with os.fdopen(fd, 'w') as fh:
        json.dump(recs, fh)
    py = PROJECT_PY if os.path.exists(PROJECT_PY) else sys.executable
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([py, os.path.join(HERE, 'symx', 'replay.py'), path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                           cwd=HERE)
        txt = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        os.unlink(path)
    for line in txt.splitlines():
        if line.startswith('REPLAY-RESULT '):
            return json.loads(line[len('REPLAY-RESULT '):]), txt
    return None, txt


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get('known', []) if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--only', default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    t0 = time.time()
    mods = modules_of(prop)
    if not mods:
        print('no harness for', prop)
        return 2
    # Which loader?  Instrumented if any harness module asks for it.
    instrument = bool(os.environ.get('VERIF_INSTRUMENT'))
    for m in mods:
        with open(os.path.join(HERE, 'harness', m + '.py')) as fh:
            if 'INSTRUMENT = True' in fh.read():
                instrument = True
    try:
        fp = runner_env.import_real(instrument=instrument)
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR: cannot import the code under test')
        return 2
    modof = {}
    for m in mods:
        before = set(runner_env.HARNESSES)
        importlib.import_module('harness.' + m)
        for h in set(runner_env.HARNESSES) - before:
            modof[h] = m
    hs = [h for h, meta in runner_env.META.items() if meta['prop'] == prop and
          (meta['tier'] == 'quick' or tier == 'thorough') and
          (meta['tier'] != 'quick-only' or tier == 'quick')]
    if args.only:
        hs = [h for h in hs if args.only in h]
    if not hs:
        print('no harness selected')
        return 2
    from symx import engine
    budget = args.budget or float(os.environ.get('VERIF_BUDGET', 600 if tier == 'quick' else 7200))
    workers = args.workers or min(8, os.cpu_count() or 4)
    # the code under test prints (reports): keep the output of the workers out
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    sys.stdout.flush()
    if not args.verbose:
        os.dup2(devnull, 1)
    try:
        res, funcs, secs = engine.explore(hs, workers=workers, budget_s=budget)
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
    # -- counterexamples: replay on the real code
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    known = known_findings(prop)
    violations = []
    knownhit = {}
    errors = []
    unrepro = []
    for h in hs:
        r = res[h]
        if r['error']:
            errors.append('{}: {}'.format(h, r['error']))
        seen = set()
        tried = {}
        for rec in r['cex']:
            key = rec['label']
            if key in seen or tried.get(key, 0) >= 4:
                continue
            tried[key] = tried.get(key, 0) + 1
            rec = dict(rec, harness=h, module=modof[h], property=prop)
            out, txt = replay(rec, 90)
            if out == 'timeout':
                if rec['label'] == 'step-limit':
                    out = [dict(status='fails', what='does not terminate', detail='')]
                else:
                    out = [dict(status='fails', what='does not terminate (replay)', detail='')]
            if not out:
                errors.append('{}: replay crashed: {}'.format(h, txt[-2000:]))
                continue
            o = out[0]
            if o['status'] == 'fails':
                seen.add(key)
                match = [k for k in known if k['harness'] == h and k['label'] == rec['label'] and
                         all(rec['inputs'].get(a) == b for a, b in k.get('inputs', {}).items())]
                if match:
                    knownhit[match[0]['what']] = True
                    continue
                path = os.path.join(outdir, 'replay-{}-{}.json'.format(prop, len(violations)))
                rec['observed'] = o
                with open(path, 'w') as fh:
                    json.dump(rec, fh, indent=1)
                violations.append((path, h, rec, o))
            elif o['status'] == 'error':
                unrepro.append('{}: {}: replay error {}'.format(h, rec['label'], o))
            else:
                unrepro.append('{}: {}: does not reproduce ({}) {} {}'.format(
                    h, rec['label'], o, rec['inputs'], rec.get('detail', '')))
    # -- validation of the encoding: sample paths run on the unmodified code
    samples = []
    for h in hs:
        for s in res[h]['samples'][:12]:
            samples.append(dict(s, harness=h, module=modof[h], property=prop))
    validated = 0
    if samples and not violations:
        out, txt = replay(samples, 240)
        if isinstance(out, list):
            for s, o in zip(samples, out):
                if o['status'] == 'holds':
                    validated += 1
                else:
                    errors.append('{}: sample path behaves differently on the real code: {} {}'.format(
                        s['harness'], o, json.dumps(s['inputs'])[:800]))
        else:
            errors.append('sample replay failed: {} {}'.format(out, txt[-1500:]))
    # -- reachability
    complete = all(res[h]['complete'] for h in hs)
    if not violations and not errors:
        for h in hs:
            for c in runner_env.META[h]['covers']:
                if not res[h]['covers'].get(c) and res[h]['complete']:
                    errors.append('{}: vacuous: witness "{}" never reached'.format(h, c))
            if not res[h]['stats'].paths:
                errors.append('{}: vacuous: no path completed'.format(h))
    tot = engine.Stats()
    for h in hs:
        tot.merge(res[h]['stats'].as_dict())
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level='model_checking', wall_s=round(wall, 2), violations=len(violations),
        coverage=dict(
            states=tot.paths, transitions=tot.forks + tot.choices,
            traces_validated_against_impl=validated,
            samples=[dict(harness=s['harness'], inputs=s['inputs']) for s in samples[:6]] or
                    [dict(harness=v[1], inputs=v[2]['inputs']) for v in violations[:3]] or ['none'],
            paths_symbolic=tot.paths, paths_excluded_by_assumptions=tot.infeasible,
            solver_queries=tot.queries, obligations=tot.obligations,
            obligations_folded_to_constants=tot.folded, solver_s=round(tot.solver_s, 2),
            explored_completely=complete,
            functions_encoded=funcs,
            harnesses={h: dict(bounds=runner_env.META[h]['bounds'], complete=res[h]['complete'],
                               witnesses=res[h]['covers'], **res[h]['stats'].as_dict()) for h in hs},
            explanation='Path-wise symbolic execution of the real source in {}; every branch on a '
                        'symbolic value and every assertion is decided by z3; a path stands for all '
                        'the values satisfying its path condition.'.format(runner_env.SRC)),
        assumptions=[a for m in mods for a in getattr(sys.modules.get('harness.' + m), 'ASSUMPTIONS', {}).get(prop, [])]
        or ['opaque values: == is an equivalence, hash is consistent with ==, conversions are functions'],
    )
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('{} [{}] paths={} forks={} queries={} obligations={} solver={:.1f}s wall={:.1f}s complete={} validated={}'.format(
        prop, tier, tot.paths, tot.forks + tot.choices, tot.queries, tot.obligations, tot.solver_s, wall,
        complete, validated))
    if args.verbose or not complete:
        for h in hs:
            print('   ', h, res[h]['stats'].paths, 'paths', '%.1fs' % res[h]['secs'], 'complete' if res[h]['complete'] else 'TRUNCATED',
                  res[h]['covers'])
    for w in knownhit:
        print('KNOWN-FINDING: property={} {}'.format(prop, w))
    for u in unrepro[:6]:
        print('UNREPRODUCED:', u[:1000])
    for e in errors[:6]:
        print('ERROR:', e[:2500])
    for path, h, rec, o in violations:
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('   harness {}: {} | {}'.format(h, rec['label'], str(o.get('detail', ''))[-1200:]))
    if violations:
        return 1
    if errors or unrepro:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
