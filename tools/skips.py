"""python3 tools/skips.py OUT [N] [SEED]: each requirement of a ceremony left unchecked only when one or two other things are so; judged by the check of that requirement.

A measuring tool, not a check: nothing registered runs it."""
import concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CD, AD, R = 'credential.response.client_data_JSON', 'credential.response.authenticator_data', 'credential.response'
BOTH = ['require_user_verification', 'expected_extensions is not None', 'bool(expected_extensions)', 'token_binding is not None', 'token_binding is None', 'not isinstance(expected_origin, str)', 'isinstance(expected_origin, str)',
        'not isinstance(expected_origin, str) and len(expected_origin) > 1', 'len(expected_challenge) > 32', 'len(expected_challenge) < 16', 'len(credential.raw_id) > 32', 'len(credential.raw_id) < 16', 'len(%s) > 200' % CD,
        "b'crossOrigin' in " + CD, "b' ' in " + CD, "b'tokenBinding' in " + CD, "b'\\\\' in " + CD, "b':80' in " + CD, "b'http:' in " + CD, 'expected_challenge[:1] == b"\\0"', 'rp is not None and rp.icon is not None', 'user is not None and user.icon is not None',
        'user is not None and len(user.id) > 16', "rp is not None and rp.id.count('.') > 1", "rp is not None and '.' not in rp.id"]
AUTH = BOTH + ['allow_credentials is not None', 'allow_credentials is None', 'allow_credentials is not None and len(allow_credentials) > 1', 'allow_credentials is not None and allow_credentials[0].id != credential.raw_id if allow_credentials else False', 'rp is not None', 'rp is None', 'user is not None', 'user is None',
               R + '.user_handle is None', R + '.user_handle is not None', R + '.user_handle is not None and user is not None', R + ".user_handle == b''", 'ignore_clone_error', '%s[32] & 0x80' % AD, '%s[32] & 0x40' % AD, '%s[32] & 0x18' % AD, '%s[32] & 0x22' % AD, '%s[32] & 0x04' % AD,
               "%s[33:37] == b'\\0\\0\\0\\0'" % AD, "%s[33:34] != b'\\0'" % AD, 'len(%s.signature) == 64' % R, 'len(%s.signature) > 100' % R, 'len(%s) > 100' % AD, 'rp is None and user is None', 'rp is not None and user is not None']
O = R + '.attestation_object'
REG = BOTH + ["b'fido-u2f' in " + O, "b'android-key' in " + O, "b'none' in " + O, 'len(%s) > 1000' % O, 'len(%s) < 250' % O, 'len(user.id) > 32', "b'credProtect' in %s" % O, "b'exts' in %s or b'loc' in %s" % (O, O), "b'uvm' in " + O]
CHECKS = {'type': ('C02', "if collected_client_data.type != "), 'challenge': ('C02', 'if challenge != expected_challenge'), 'origin': ('C03', 'if client_origin not in allowed_origins'),
          'tb-none': ('C11', 'if collected_client_data.token_binding is None'), 'tb-status': ('C07', 'if token_binding.status != collected_client_data.token_binding.status'), 'tb-id': ('C07', 'if token_binding.id != collected_client_data.token_binding.id'),
          'tb-unexpected': ('C07', 'elif collected_client_data.token_binding is not None'), 'uv': ('C05', 'if require_user_verification'), 'ext': ('C08', 'if expected_extensions is not None')}
AUTHC = dict(CHECKS, rphash=('C04', 'if auth_data.rp_id_hash != rp_id_hash'), up=('C05', 'if not (AuthenticatorDataFlag.UP.value & auth_data.flags)'), allow=('C06', 'if not allowed'), userid=('C06', 'if registered_user.id != user.id'), nohandle=('C06', 'if response.user_handle is None'),
             handle=('C06', 'if response.user_handle != user.id'), rpid=('C04', 'if registered_rp.id != rp.id'), count=('C09', 'if not ignore_clone_error'), nodata=('C06', None), result=('C10', 'if response is not None:\n                raise RegistrationError'), sig=('C01', None))
REGC = dict(CHECKS, rphash=('C04', 'if attestation.auth_data.rp_id_hash != rp_id_hash'), up=('C05', 'if not (AuthenticatorDataFlag.UP.value\n                    & attestation.auth_data.flags)'), result=('C10', 'if response is not None:\n                raise RegistrationError'))
del AUTHC['nodata']


def apply(repo, kind, x, y):
    p = repo + '/webauthn_rp/backends.py'
    s = open(p).read()
    i = s.index('    def handle_credential_assertion(')
    head, part = (s[:i], s[i:]) if kind == 'auth' else ('', s[:i])
    tail = '' if kind == 'auth' else s[i:]
    j = part.index('            allowed_origins = self._extract_allowed_origins(expected_origin)\n')
    part = part[:j] + '            skip = bool(%s)\n' % y + part[j:]
    if x == 'sig':
        a = part.index('            verify(credential_data')
        part = part[:a] + '            if not skip:\n                verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n' + part[part.index('verification_data)\n', a) + len('verification_data)\n'):]
    else:
        old = (AUTHC if kind == 'auth' else REGC)[x][1]
        assert part.count(old) == 1, (x, part.count(old))
        if x == 'result':
            new = old.replace('None:', 'None and not skip:')
            part = part.replace(old, new)
        else:
            a = part.index(old)
            b = part.index(':\n', a)
            word = old.split(' ', 1)[0]
            part = part[:a] + word + ' not skip and (' + part[a + len(word) + 1:b] + ')' + part[b:]
    open(p, 'w').write(head + part + tail)


def one(job):
    kind, x, y, seed = job
    check = (AUTHC if kind == 'auth' else REGC)[x][0]
    tmp = tempfile.mkdtemp(prefix='skip-')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo])
        apply(repo, kind, x, y)
        t = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests >/dev/null 2>&1', shell=True, cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
        if t.returncode:
            return job, 'tests'
        v = tmp + '/verif'
        subprocess.run('mkdir -p %s/evidence; cp -a %s/check %s/wv %s/known-findings.txt %s/; sed -i "s#/repo#%s#" %s/check %s/wv/core.py' % (v, ROOT, ROOT, ROOT, v, repo, v, v), shell=True)
        r = subprocess.run('timeout 800 ./check %s --seed 1' % check, shell=True, cwd=v, env=dict(os.environ, VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return job, 'caught' if r.returncode == 1 else 'MISSED by %s (rc %d)' % (check, r.returncode)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    n, seed = int(sys.argv[2]) if len(sys.argv) > 2 else 8, int(sys.argv[3]) if len(sys.argv) > 3 else 1
    rng = random.Random(seed)
    jobs = []
    for kind, cs, ys in ('auth', AUTHC, AUTH), ('reg', REGC, REG):
        for x in cs:
            for _ in range(n):
                jobs.append((kind, x, rng.choice(ys), seed))
                jobs.append((kind, x, '(%s) and (%s)' % tuple(rng.sample(ys, 2)), seed))
    jobs = sorted(set(jobs))
    rng.shuffle(jobs)
    print(len(jobs), 'edits', flush=True)
    got = {}
    with cf.ThreadPoolExecutor(3) as ex, open(sys.argv[1], 'w') as f:
        for job, r in ex.map(one, jobs):
            got[r.split()[0]] = got.get(r.split()[0], 0) + 1
            print(r, *job[:3], file=f, flush=True)
    print(got)


main()
