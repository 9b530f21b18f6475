"""python3 tools/mutate.py OUT.json [FILE...]: systematic first-order mutants of the library that survive the repository's own tests,
each judged by the checks (all of them, cheapest first, until one reports). A measuring tool, not a check: nothing registered runs it."""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
FULL = os.environ.get('MUTATE_ALL') == '1'          # survivors go through every check instead of those of their module
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def rep(n, new, what):
        a, b = span(n)
        out.append((path, a, b, new, '%s:%d %s: %s -> %s' % (path, n.lineno, what, raw[a:b].decode()[:60].replace('\n', ' '), new[:60].replace('\n', ' '))))
    seg = lambda n: raw[slice(*span(n))].decode()
    docs = set()
    annotations = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0]); docs.add(n.body[0].value)
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                annotations.update(ast.walk(a))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'cast':
            annotations.update(ast.walk(n.args[0]))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('__all__', '_DOCS'):
            annotations.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            annotations.update(x for x in ast.walk(n) if x is not n)
    for n in ast.walk(tree):
        if n in docs or n in annotations:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    if len(n.ops) == 1:
                        rep(n, '%s %s %s' % (seg(n.left), new, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + j.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + o.join('(%s)' % seg(v) for k, v in enumerate(n.values) if k != i) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const'); rep(n, str(v - 1), 'const')
            elif isinstance(v, str) and v and '{' not in v and not seg(n).startswith('('):
                rep(n, repr(v + 'x'), 'const'); rep(n, repr(v[:-1]), 'const')
                if v.swapcase() != v: rep(n, repr(v.swapcase()), 'const')
            elif isinstance(v, bytes):
                rep(n, repr(v + b'x'), 'const')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, 'True', 'cond'); rep(n.test, 'False', 'cond')
        elif isinstance(n, ast.BinOp):
            for new in {ast.Add: ['-'], ast.Sub: ['+'], ast.BitAnd: ['|'], ast.BitOr: ['&']}.get(type(n.op), []):
                rep(n, '(%s %s %s)' % (seg(n.left), new, seg(n.right)), 'binop')
            if isinstance(n.op, ast.Add):
                rep(n, '(%s)' % seg(n.left), 'binop'); rep(n, '(%s)' % seg(n.right), 'binop')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'return')
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                e = [seg(x) for k, x in enumerate(n.elts) if k != i]
                rep(n, {'Tuple': '(%s,)', 'List': '[%s]', 'Set': '{%s}'}[type(n).__name__] % ', '.join(e), 'drop element')
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords:
                rep(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap args')
            for i in range(len(n.keywords)):
                if n.keywords[i].arg and not n.args:
                    rep(n, '%s(%s)' % (seg(n.func), ', '.join([seg(a) for a in n.args] + [('%s=%s' % (k.arg, 'None')) if m == i else ('**' + seg(k.value) if k.arg is None else '%s=%s' % (k.arg, seg(k.value))) for m, k in enumerate(n.keywords)])), 'kwarg None')
        if isinstance(n, ast.stmt) and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete, ast.Break, ast.Continue)):
            rep(n, 'pass', 'delete')
        if isinstance(n, (ast.For,)):
            rep(n.iter, 'list(%s)[:-1]' % seg(n.iter), 'iter'); rep(n.iter, 'list(%s)[1:]' % seg(n.iter), 'iter')
        if isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, 'True', 'if'); rep(n.test, 'False', 'if')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n.value, 'None', 'return')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            rep(n, seg(n.value), 'no slice')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, 'ZeroDivisionError', 'except')
    return out


def judge(job):
    (path, a, b, new, what), checks, order = job
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', REPO, repo])
        f = os.path.join(repo, path)
        raw = open(f, 'rb').read()
        raw = raw[:a] + new.encode() + raw[b:]
        try:
            compile(raw, f, 'exec')
        except SyntaxError:
            return what, 'syntax', None
        open(f, 'wb').write(raw)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
        try:
            t = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests >/dev/null 2>&1', shell=True, cwd=repo, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return what, 'tests', None
        if t.returncode:
            return what, 'tests', None
        if not checks:
            return what, 'survived', None
        v = tmp + '/verif'
        subprocess.run('mkdir -p %s/evidence; cp -a %s/check %s/wv %s/known-findings.txt %s/; sed -i "s#/repo#%s#" %s/check %s/wv/core.py' % (v, ROOT, ROOT, ROOT, v, repo, v, v), shell=True)
        odd = []
        for p in order:
            r = subprocess.run('timeout 600 ./check %s --seed 1' % p, shell=True, cwd=v, env=dict(os.environ, VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return what, 'caught', p
            if r.returncode:
                odd.append('%s rc=%d %s' % (p, r.returncode, r.stdout[-200:]))
        return what, 'MISSED', odd
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ORDER = {'backends': 'C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C14 C01', 'parsers': 'C15 C16 C17 C19 C20 C28 C03 C18 C11', 'converters': 'C16 C21 C23 C01 C33', 'attesters': 'C12 C13 C14 C11',
         'types': 'C32 C26 C16 C21 C19 C20 C22 C10', 'utils': 'C27 C02 C23', 'verifiers': 'C23 C01', 'validators': 'C15 C16 C23 C14 C33', 'builders': 'C22 C21', 'asn1': 'C29 C13', 'constants': 'C26 C13 C27 C23', 'registrars': 'C10 C32 C33', 'errors': 'C11 C18', '__init__': 'C25'}


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or ['webauthn_rp/' + f for f in sorted(os.listdir(REPO + '/webauthn_rp')) if f.endswith('.py')]
    every = sorted(p[:-3].upper() for p in os.listdir(ROOT + '/wv/props') if p.startswith('c') and p.endswith('.py'))
    seen, ms = set(), []
    for m in (m for f in files for m in mutants(f)):
        # asserts that hold and calls that cannot happen have only equivalent mutants
        if m[:4] not in seen and 'delete: assert' not in m[4] and 'delete: raise Unimpl' not in m[4]:
            seen.add(m[:4])
            ms.append(m)
    print(len(ms), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(8) as ex:
        first = list(ex.map(judge, [(m, False, None) for m in ms]))
    alive = [m for m, r in zip(ms, first) if r[1] == 'survived']
    print(len(alive), 'survive the tests', flush=True)
    res = []
    with cf.ThreadPoolExecutor(3) as ex:
        def order(m):
            o = ORDER.get(os.path.basename(m[0])[:-3], '').split()
            return o + ([p for p in every if p not in o] if FULL else [])
        for r in ex.map(judge, [(m, True, order(m)) for m in alive]):
            res.append(r)
            print(*r, flush=True)
            json.dump(res, open(out, 'w'), indent=1)
    print({k: sum(r[1] == k for r in res) for k in {r[1] for r in res}})


main()
