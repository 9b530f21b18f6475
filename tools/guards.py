"""python3 tools/guards.py OUT [N] [SEED]: each guard of the parsers, attesters and validators (an `if` that raises) passed over only when something else about the argument is so;
judged by the checks of that function. A measuring tool, not a check: nothing registered runs it."""
import ast, concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DICT = ['len(%s) > 4', 'len(%s) == 1', 'len(%s) == 2', 'len(%s) == 3', 'len(%s) > 6', 'list(%s)[:1] == sorted(%s, key=str)[:1]', "any(v is None for v in %s.values())", "any(isinstance(v, list) for v in %s.values())", "any(v == b'' for v in %s.values())", "any(isinstance(v, bytes) and len(v) > 64 for v in %s.values())"]
KEYS = ['1 in %s', '2 in %s', '4 in %s', '5 in %s', '-3 in %s', "%s.get(3) == -8", "%s.get(-1) in (3, 7)", "'crv' in %s or '-1' in %s", "len(%s.get(-2, b'')) == 66", "%s.get(-2, b'1')[:1] == b'\\0'"]
BYTES = ['len(%s) > 100', 'len(%s) < 60', 'len(%s) % 2', "%s[-1:] == b'\\0'", 'len(%s) > 300', 'len(%s) == 37', "%s[32:33] in b'\\x41\\x45'", "b'\\xf6' in %s", 'len(%s) > 1000']
STMT = ["'alg' in %s", "'x5c' in %s", "'sig' in %s and len(%s['sig']) > 80", "'ver' in %s and %s['ver'] == '2.0'", "len(%s.get('x5c') or ()) > 1"]
EXT = ["'appid' in %s", "'uvm' in %s", "'loc' in %s", "'exts' in %s", "len(%s.get('loc') or ()) > 3", "len(%s.get('uvm') or ()) > 1"]
CRED = ["'response' in %s and len(%s['response']) > 3", "%s.get('id') == ''", "len(%s.get('id') or '') > 40", "'rawId' in %s and '+' in %s['rawId']"]
TEXT = ["len(%s) > 30", "%s[:5] == 'https'", "':' in %s[6:]", "'[' in %s", "'-' in %s", "%s[-1:].isdigit()", "'@' in %s", "%s != %s.lower()", "not %s.isascii()"]
JSON = ["b'crossOrigin' in %s", "b'tokenBinding' in %s", "b'\\\\' in %s", "b'\\n' in %s", "len(%s) > 200", "b'  ' in %s", "%s[:1] != b'{'", "b'null' in %s", "not %s.isascii()"]
OBJ = ["len(att_stmt.x5c) > 1", "len(att_stmt.x5c[0]) > 700", "len(att_stmt.sig) > 71", "len(att_stmt.sig) < 71", "len(auth_data) > 200", "auth_data[32] & 0x80", "auth_data[32] & 4", "client_data_hash[0] > 127", "len(att_obj.auth_data.attested_credential_data.credential_id) > 32"]
KEY = ["%s.kid is not None", "%s.key_ops is not None", "%s.base_IV is not None", "%s.x[:1] == b'\\0'", "%s.kid == b''", "%s.alg.name == 'ES384'", "%s.crv.name == 'P_521' or %s.crv.name == 'ED448'", "len(%s.x) > 40", "len(%s.x) == 0"]


def choices(name, arg):
    if name.startswith('attest'):
        return OBJ, ['C13' if 'android' in name else 'C12']
    if name.startswith('validate') or name.startswith('cryptography'):
        return KEY, ['C16', 'C23']
    if name == 'parse_origin':
        return TEXT, ['C03']
    if name == 'parse_client_data':
        return JSON, ['C28']
    if name in ('parse_authenticator_data', ):
        return BYTES, ['C15']
    if name == 'parse_attestation_object':
        return BYTES, ['C19', 'C15']
    if name == 'parse_cose_key':
        return BYTES, ['C16']
    if name == 'parse_extensions':
        return EXT + DICT, ['C20']
    if name == 'parse_public_key_credential':
        return CRED, ['C17']
    if 'statement' in name:
        return STMT + DICT, ['C19']
    if 'public_key' in name:
        return KEYS + DICT, ['C16']
    return None, []


def sites():
    out = []
    for f in 'parsers', 'attesters', 'validators', 'converters':
        path = 'webauthn_rp/%s.py' % f
        raw = open('/repo/' + path, 'rb').read()
        starts = [0]
        for l in raw.splitlines(keepends=True):
            starts.append(starts[-1] + len(l))
        for fn in ast.walk(ast.parse(raw)):
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                continue
            arg = fn.args.args[0].arg
            ys, checks = choices(fn.name, arg)
            if not ys:
                continue
            for x in ast.walk(fn):
                if isinstance(x, ast.If) and any(isinstance(y, ast.Raise) for y in x.body):
                    a, b = (starts[l - 1] + c for l, c in ((x.test.lineno, x.test.col_offset), (x.test.end_lineno, x.test.end_col_offset)))
                    out.append((path, fn.name, a, b, x.lineno, arg, ys, checks))
    return out


def one(job):
    path, name, a, b, line, arg, y, checks = job
    tmp = tempfile.mkdtemp(prefix='guard-')
    label = '%s:%d %s unless %s' % (path, line, name, y)
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo])
        raw = open(repo + '/' + path, 'rb').read()
        raw = raw[:a] + b'(' + raw[a:b] + b') and not (' + y.encode() + b')' + raw[b:]
        open(repo + '/' + path, 'wb').write(raw)
        t = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests >/dev/null 2>&1', shell=True, cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
        if t.returncode:
            return label, 'tests'
        v = tmp + '/verif'
        subprocess.run('mkdir -p %s/evidence; cp -a %s/check %s/wv %s/known-findings.txt %s/; sed -i "s#/repo#%s#" %s/check %s/wv/core.py' % (v, ROOT, ROOT, ROOT, v, repo, v, v), shell=True)
        for check in checks + ['C18']:
            r = subprocess.run('timeout 800 ./check %s --seed 1' % check, shell=True, cwd=v, env=dict(os.environ, VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return label, 'caught by ' + check
        return label, 'MISSED by %s (rc %d)' % (checks, r.returncode)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    n, rng = int(sys.argv[2]) if len(sys.argv) > 2 else 2, random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    jobs = []
    for path, name, a, b, line, arg, ys, checks in sites():
        for y in rng.sample(ys, min(n, len(ys))):
            jobs.append((path, name, a, b, line, arg, y.replace('%s', arg), checks))
    rng.shuffle(jobs)
    print(len(jobs), 'edits', flush=True)
    got = {}
    with cf.ThreadPoolExecutor(3) as ex, open(sys.argv[1], 'w') as f:
        for label, r in ex.map(one, jobs):
            got[r.split()[0]] = got.get(r.split()[0], 0) + 1
            print(r, label, file=f, flush=True)
    print(got)


if __name__ == '__main__':
    main()
