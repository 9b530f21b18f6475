"""Driver: spawns worker processes, merges what they observed, decides the verdict."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

CRASH_SIGNALS = (-4, -6, -7, -8, -11)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    return importlib.import_module('wv.props.' + prop.lower())


def worker_main(args):
    """Run one shard and write the observations as JSON."""
    from wv.core import Ctx
    spec = json.loads(args.worker)
    prop, seed, tier, w, n = spec['prop'], spec['seed'], spec['tier'], spec['w'], spec['n']
    mod = load(prop)
    if getattr(mod, 'RLIMIT_AS', None):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mod.RLIMIT_AS, mod.RLIMIT_AS))
    sys.setrecursionlimit(1000)
    ctx = Ctx(prop, seed, tier, not __debug__)
    t0 = time.time()
    budget = spec['budget']
    only = spec.get('only')
    truncated = {}
    cur = spec['out'] + '.cur'
    for kind, (fn, quick, thorough) in mod.KINDS.items():
        count = quick if tier == 'quick' else thorough
        if callable(count):
            count = count()
        if only and kind not in [k for k, _ in only]:
            continue
        for index in range(w, count, n):
            if only and [kind, index] not in only:
                continue
            if spec.get('upto') and kind == spec['upto'][0] and index > spec['upto'][1]:
                break
            if getattr(mod, 'CRASHY', False):
                with open(cur, 'w') as f:
                    f.write(json.dumps([kind, index]))
            ctx.run_case(fn, kind, index)
            if ctx.stop or len(ctx.violations) >= 5 or len(ctx.errors) >= 3:
                break
            if time.time() - t0 > budget:
                truncated[kind] = index
                break
        if ctx.stop or len(ctx.violations) >= 5 or len(ctx.errors) >= 3:
            break
        if spec.get('upto') and kind == spec['upto'][0]:
            break
    if hasattr(mod, 'finish') and not ctx.stop:
        mod.finish(ctx)
    with open(spec['out'], 'w') as f:
        json.dump({
            'counts': ctx.counts, 'evaluations': ctx.evaluations,
            'distinct': [h.hex() for h in ctx.distinct], 'samples': ctx.samples,
            'violations': ctx.violations, 'errors': ctx.errors, 'truncated': truncated,
            'optimized': ctx.optimized, 'wall': time.time() - t0,
        }, f)
    return 0


def spawn(specs, opt_flags, timeout):
    """Run the shards in parallel; returns a list of (spec, result or None, stderr)."""
    tmp = tempfile.mkdtemp(prefix='wv-')
    try:
        procs = []
        for i, (spec, opt) in enumerate(zip(specs, opt_flags)):
            spec = dict(spec, out=os.path.join(tmp, 'w%d.json' % i))
            cmd = [sys.executable] + (['-O'] if opt else []) + ['-m', 'wv.main', '--worker', json.dumps(spec)]
            env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'))
            err = open(os.path.join(tmp, 'w%d.err' % i), 'w+')
            procs.append((spec, subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=err, stderr=err), err))
        deadline = time.time() + timeout
        out = []
        for spec, p, err in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            err.seek(0)
            text = err.read()[-3000:]
            res = None
            if os.path.exists(spec['out']):
                with open(spec['out']) as f:
                    res = json.load(f)
            cur = None
            if os.path.exists(spec['out'] + '.cur'):
                with open(spec['out'] + '.cur') as f:
                    cur = f.read()
            out.append((spec, p.returncode, res, text, cur))
            err.close()
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    path = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line[len('known: property=%s ' % prop):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--worker')
    args = ap.parse_args()
    if args.worker:
        return worker_main(args)
    if args.replay:
        return replay(args)
    t0 = time.time()
    prop = args.prop.upper()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    try:
        mod = load(prop)
    except Exception as e:  # the code under test cannot even be imported: no verdict
        print('INCONCLUSIVE property=%s cannot load the code under test: %r' % (prop, e))
        return 2
    n = args.workers or getattr(mod, 'WORKERS', 8)
    budget = getattr(mod, 'BUDGET', {'quick': 400, 'thorough': 780})[tier]
    opt = set(getattr(mod, 'OPTIMIZED_WORKERS', ()))
    specs = [dict(prop=prop, seed=args.seed, tier=tier, w=w, n=n, budget=budget) for w in range(n)]
    results = spawn(specs, [w in opt for w in range(n)], budget + 60)

    counts, evaluations, distinct, samples, violations, errors, truncated = {}, 0, set(), [], [], [], {}
    for w, (spec, rc, res, text, cur) in enumerate(results):
        if res is None and rc in CRASH_SIGNALS and cur and getattr(mod, 'CRASHY', False):
            kind, index = json.loads(cur)
            violations.append({'kind': kind, 'index': index, 'worker': w, 'nworkers': n, 'optimized': w in opt,
                               'message': 'the interpreter crashed (signal %d) on this input' % -rc, 'detail': {'output': text}})
            continue
        if res is None:
            errors.append({'worker': w, 'rc': rc, 'output': text, 'current_case': cur})
            continue
        for k, v in res['counts'].items():
            counts[k] = counts.get(k, 0) + v
        evaluations += res['evaluations']
        distinct.update(res['distinct'])
        samples += res['samples'][:1]
        for v in res['violations']:
            violations.append(dict(v, worker=w, nworkers=n, optimized=res['optimized']))
        errors += res['errors']
        for k, v in res['truncated'].items():
            truncated[k] = truncated.get(k, 0) + 1
    missing = {k: m for k, m in getattr(mod, 'REQUIRED', {}).items() if counts.get(k, 0) < m}

    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    evidence = {
        'property': prop, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
            'samples': samples or [{'note': 'no sample recorded'}],
            'observed': dict(sorted(counts.items())),
            'required': getattr(mod, 'REQUIRED', {}), 'missing_required': missing,
            'workers': n, 'optimized_workers': len(opt), 'truncated_by_time': truncated,
            'harness_errors': len(errors),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', [
            'the reference model in /verif/wv states the intended behaviour',
            'cryptography (OpenSSL) signs and generates keys correctly']),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (
        prop, tier, args.seed, evaluations, len(distinct), time.time() - t0))
    print('observed: ' + ', '.join('%s=%d' % kv for kv in sorted(counts.items())))
    if violations:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, v in enumerate(violations[:3]):
            path = os.path.join(ROOT, 'replays', '%s-%s-%d.json' % (prop, args.seed, i))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, seed=args.seed, tier=tier), f, indent=1)
            print('  %s[%s]: %s' % (v['kind'], v['index'], v['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        # up to three single cases that broke in the harness stay unjudged (the evidence counts them); more leave the run without an answer
        few = len(errors) <= 3 and all('kind' in e for e in errors)
        print('%s property=%s harness errors:' % ('UNJUDGED' if few else 'INCONCLUSIVE', prop))
        for e in errors[:3]:
            print(json.dumps(e)[:3000].replace('\\n', '\n'))
        if not few:
            return 2
    if missing:
        print('INCONCLUSIVE property=%s required observations missing: %s' % (prop, missing))
        return 2
    return 0


def replay(args):
    """Re-run the recorded case alone, then (if it does not reproduce) with its worker's history."""
    r = json.load(open(args.replay))
    base = dict(prop=r['property'], seed=r['seed'], tier=r['tier'], w=r['worker'], n=r['nworkers'], budget=600)
    for extra, what in ((dict(only=[[r['kind'], r['index']]]), 'alone'),
                        (dict(upto=[r['kind'], r['index']]), 'with its history')):
        (spec, rc, res, text, cur), = spawn([dict(base, **extra)], [r['optimized']], 660)
        if res is None and rc in CRASH_SIGNALS:
            print('the interpreter crashed (signal %d)' % -rc)
            print('VIOLATION property=%s replay=%s' % (r['property'], args.replay))
            return 1
        if res is None:
            print('INCONCLUSIVE replay worker failed: ' + text)
            return 2
        if res['violations']:
            v = res['violations'][0]
            print('reproduced %s: %s[%s]: %s' % (what, v['kind'], v['index'], v['message']))
            for k, d in v['detail'].items():
                print('  %s: %s' % (k, d))
            print('VIOLATION property=%s replay=%s' % (r['property'], args.replay))
            return 1
    print('property=%s replay=%s: not reproduced' % (r['property'], args.replay))
    return 0


if __name__ == '__main__':
    sys.exit(main())
