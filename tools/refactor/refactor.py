"""python3 tools/refactor/refactor.py [--together] [--checks C01,C02] [ID...]: behaviour-preserving edits of the library, on which every check has to stay quiet.

Each edit is a function over the sources (in a scratch copy of /repo); after it the repository's tests must pass, then all checks run.
A measuring tool, not a check: nothing registered runs it."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import edits


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(name, only):
    tmp = tempfile.mkdtemp(prefix='refactor-')
    try:
        repo = tmp + '/repo'
        sh('cp -a /repo %s' % repo)
        for n in name.split('+'):
            edits.EDITS[n](edits.Tree(repo + '/webauthn_rp'))
        lines = len(sh('git -C %s diff' % repo).stdout.splitlines())
        t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5', cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
        if ' failed' in t.stdout or 'error' in t.stdout.lower() or ' passed' not in t.stdout:
            return name, lines, 'TESTS ' + t.stdout[-800:]
        v = tmp + '/verif'
        sh('mkdir -p %s; cp -a %s/check %s/wv %s/known-findings.txt %s/; mkdir -p %s/evidence' % (v, ROOT, ROOT, ROOT, v, v))
        sh("sed -i 's#/repo#%s#' %s/check %s/wv/core.py" % (repo, v, v))
        bad = []
        for p in sorted(p[:-3].upper() for p in os.listdir(v + '/wv/props') if p.startswith('c') and p.endswith('.py')):
            if only and p not in only:
                continue
            r = sh('./check %s --seed 1' % p, cwd=v, env=dict(os.environ, VERIF_TIER='quick'))
            if r.returncode:
                bad.append('%s rc=%d %s' % (p, r.returncode, [l for l in r.stdout.splitlines() if not l.startswith('observed')][:3]))
        return name, lines, bad or 'quiet'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def groups(names):
    """As few sets of edits as can be applied together (later edits look for text that earlier ones may have changed)."""
    out = []
    while names:
        group, left = [], []
        for n in names:
            tmp = tempfile.mkdtemp(prefix='refactor-')
            try:
                sh('cp -a /repo %s/repo' % tmp)
                for m in group + [n]:
                    edits.EDITS[m](edits.Tree(tmp + '/repo/webauthn_rp'))
                t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5', cwd=tmp + '/repo', env=dict(os.environ, PYTHONPATH=tmp + '/repo', PYTHONDONTWRITEBYTECODE='1'))
                if ' failed' in t.stdout or 'error' in t.stdout.lower():
                    raise ValueError(t.stdout[-300:])
                group.append(n)
            except Exception:
                if not group:
                    print(n, 'cannot be applied')
                else:
                    left.append(n)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        if group:
            out.append('+'.join(group))
        names = left
    return out


def main():
    args = sys.argv[1:]
    together = args[:1] == ['--together']
    if together:
        args = args[1:]
    only = None
    if args[:1] == ['--checks']:
        only = args[1].split(',')
        args = args[2:]
    if together:
        args = groups(args or list(edits.EDITS))
    with cf.ThreadPoolExecutor(2) as ex:
        for n, lines, r in ex.map(lambda n: one(n, only), args or list(edits.EDITS)):
            print(n, '(%d diff lines)' % lines, r if isinstance(r, str) else 'NOT QUIET\n   ' + '\n   '.join(r), flush=True)


main()
