"""python3 tools/plant/plant.py [--checks] [ID...]: build, confirm and (with --checks) judge the planted bugs listed in bugs.py.

Each bug becomes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, kit.py, meta.json) after confirming, in scratch copies, that the
stable tests pass with it and its demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
for extra in ('bugs2', 'bugs3', 'bugs4', 'bugs5', 'bugs6', 'bugs7', 'bugs8', 'bugs9', 'bugs10', 'bugs11', 'bugs12', 'bugs13', 'bugs14'):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), extra + '.py')):
        __import__(extra)
# These touch only lines of the library's own repairs, so they do not count as bugs in the original; kept for trying by name.
BESIDE_FIXES = set('''C03-casefold C03-generic-port C03-ipv6 C03-loopback C03-port-zero C03-www C09-eddsa C09-no-user C09-rp-unregistered C16-empty-iv
C18-ascii-host C18-port-struct C18-redos C28-depth C30-dump'''.split())
SEEDED = os.path.join(ROOT, 'seeded')
DEMO = '#!/bin/bash\nd=$(dirname "$(realpath "$0")")\nexport PYTHONPATH="$PWD:$d" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" %s"$d/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(bug, checks):
    id, prop = bug['id'], bug['property']
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = tmp + '/repo'
        sh('git -C /repo worktree prune; cp -a /repo %s' % repo)
        for path, old, new in bug['edits']:
            f = os.path.join(repo, path)
            s = open(f).read()
            if s.count(old) != 1:
                return id, 'EDIT matches %d times: %r' % (s.count(old), old[:60]), {}
            open(f, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % repo).stdout
        d = os.path.join(SEEDED, id)
        if not checks or not os.path.exists(d + '/patch.diff'):
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO % bug.get('flags', ''))
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(('"""%s"""\nfrom kit import *\n\n' % bug['breaks'].replace('"', "'")) + bug['demo'].strip() + '\n')
            shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kit.py'), d + '/kit.py')
            json.dump({'property': prop, 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5', cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
            if ' failed' in t.stdout or 'error' in t.stdout.lower() or ' passed' not in t.stdout:
                return id, 'TESTS ' + t.stdout[-400:], {}
            a = sh(d + '/demo.sh', cwd='/repo')
            if a.returncode:
                return id, 'DEMO fails on the unchanged tree: ' + a.stdout[-600:], {}
            b = sh(d + '/demo.sh', cwd=repo)
            if not b.returncode:
                return id, 'DEMO passes with the bug', {}
        caught = {}
        if checks:
            v = tmp + '/verif'
            sh('mkdir -p %s; cp -a %s/check %s/wv %s/known-findings.txt %s/; mkdir -p %s/evidence' % (v, ROOT, ROOT, ROOT, v, v))
            sh("sed -i 's#/repo#%s#' %s/check %s/wv/core.py" % (repo, v, v))
            props = [prop] if checks == 'own' else sorted(p[:-3].upper() for p in os.listdir(v + '/wv/props') if p.startswith('c') and p.endswith('.py'))
            for p in props:
                r = sh('./check %s --seed %s' % (p, os.environ.get('VERIF_SEED', '1')), cwd=v, env=dict(os.environ, VERIF_TIER='quick'))
                caught[p] = r.returncode
                if r.returncode not in (0, 1) or p == prop and r.returncode == 0:
                    caught[p + '-out'] = r.stdout[-700:]
        return id, 'ok', caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    checks = 'all' if '--all' in args else 'own' if '--checks' in args else None
    ids = [a for a in args if not a.startswith('-')]
    todo = [b for b in bugs.BUGS if not ids and b['id'] not in BESIDE_FIXES or b['id'] in ids or b['property'] in ids and b['id'] not in BESIDE_FIXES]
    miss = 0
    with cf.ThreadPoolExecutor(2 if checks else 6) as ex:
        for id, status, caught in ex.map(lambda b: one(b, checks), todo):
            prop = [b for b in todo if b['id'] == id][0]['property']
            if status != 'ok':
                print(id, status)
                shutil.rmtree(os.path.join(SEEDED, id), ignore_errors=True)
            elif checks:
                own = caught[prop]
                print('%s %s by %s; also %s' % (id, 'CAUGHT' if own == 1 else 'MISSED rc=%s' % own, prop, ' '.join(p for p, rc in caught.items() if rc == 1 and p != prop) or '-'), *[v for k, v in caught.items() if k.endswith('-out')], flush=True)
                miss += own != 1
            else:
                print(id, 'confirmed')
    print('missed: %d of %d' % (miss, len(todo)))


if __name__ == "__main__":
    main()
