"""C30: nothing but the registrar is touched, and the surroundings decide nothing."""
import json
import os
import re
import pickle
import shutil
import subprocess
import sys
import tempfile

from wv import att, magic, sim
from wv.core import require
from wv.keys import pick_key
from wv.props import c15, c18, c19
from wv.props.c10 import AUTH_MUT, REG_MUT
from wv.refcbor import enc
from wv.sim import MonitoredRegistrar, World, honest_auth, judge, rbytes
from wv.surround import MARK

RULE = ('one evaluation = one ceremony, parse, verification or conversion carried out in a process of its own: watched (every audit event of the interpreter, output written, and a snapshot of process-wide state before and after) or repeated under other '
        'surroundings (clock, hash seed, optimisation, locale, time zone, working directory, user, environment variables the code asks for, threads, event loop, call depth, random state, logging, streams) and compared with its account under ordinary ones, '
        'which is itself compared with the reference decision; non-trivial = distinct (input, surroundings)')

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long long off;
void wv_shift(long long s) { off = s; }
__attribute__((constructor)) static void init(void) { const char *s = getenv("WV_SHIFT"); if (s) off = atoll(s); }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)) t->tv_sec += off;
    return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *restrict v, void *restrict z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
'''


def shim(ctx):
    """A preloaded library that moves the clock, built once per worker."""
    if 'shim' not in ctx.state:
        d = ctx.state['tmp'] = tempfile.mkdtemp(prefix='wv-surround-')
        so = None
        try:
            with open(d + '/shift.c', 'w') as f:
                f.write(SHIM)
            for cc in ('gcc', 'clang', 'cc'):
                if shutil.which(cc) and subprocess.run([cc, '-O1', '-shared', '-fPIC', '-w', '-o', d + '/shift.so', d + '/shift.c', '-ldl'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                    so = d + '/shift.so'
                    break
        except OSError:
            pass
        os.chmod(d, 0o755)
        ctx.state['shim'] = so
    return ctx.state['shim']


def finish(ctx):
    if 'tmp' in ctx.state:
        shutil.rmtree(ctx.state['tmp'], ignore_errors=True)


class Lost(Exception):
    """The process under other surroundings gave no answer."""


def child(ctx, rng, data, env=(), flags=(), shifted=None, uid=None, cwd=None):
    so = shim(ctx)
    n = ctx.state['n'] = ctx.state.get('n', 0) + 1
    d = os.path.join(ctx.state['tmp'], 'job%d' % n)
    os.mkdir(d)
    try:
        with open(d + '/in', 'wb') as f:
            pickle.dump(data, f)
        e = dict(os.environ, **dict(env))
        for k in [k for k, v in e.items() if v is None]:
            del e[k]
        if so:
            e['LD_PRELOAD'] = so
            if shifted is not None:
                e['WV_SHIFT'] = str(int(shifted))
        if uid is not None:
            os.chmod(d + '/in', 0o644)
            os.chown(d, uid, uid)
        p = subprocess.Popen([sys.executable, *flags, '-m', 'wv.surround', d + '/in', d + '/out'], cwd=cwd or d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             **({} if uid is None else dict(user=uid, group=uid, extra_groups=[])))
        try:
            text = p.communicate(timeout=150)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Lost('the process did not end')
        if not os.path.exists(d + '/out'):
            raise Lost(text[-2000:].decode('utf-8', 'replace'))
        with open(d + '/out', 'rb') as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- jobs ------------------------------------------------------------------------------------------------------------
def bait(rng):
    return rng.choice(['__import__("%s")', '%s', '/tmp/%s', '../%s', '%%(%s)s', '{%s}', '$(touch %s)', 'file:///tmp/%s', '%s.py', '`%s`', 'lambda: %s']) % MARK


def core_deviation(rng, c):
    """One of the requirements that every ceremony has, not met."""
    what = rng.choice(['presence', 'presence', 'verification', 'challenge', 'origin', 'rp', 'binding', 'extension'])
    if what == 'presence': c.ad.flags &= ~sim.UP
    elif what == 'verification': c.require_uv, c.ad.flags = True, c.ad.flags & ~sim.UV
    elif what == 'challenge': c.expected_challenge = sim.near(rng, c.expected_challenge)
    elif what == 'origin': c.expected_origin = 'https://other.example'
    elif what == 'rp': c.ad.rp_hash = sim.near(rng, c.ad.rp_hash)[:32].ljust(32, b'x')
    elif what == 'binding': c.token_binding = None if c.token_binding else ('present', 'id')
    else: c.expected_ext = ['loc', 'uvi', 'uvm', 'exts']
    c.note = 'core: ' + what


def ceremonies(ctx, rng, n):
    """[(case, reasons, unspec)] with the entries they refer to; what they are judged by is fixed here."""
    w = World(rng, users=3, creds=4, registrar=MonitoredRegistrar(), suites=rng.choice([None, None, [('P-256', 'ES256')]]))
    out = []
    while len(out) < n:
        kind = rng.choice(['auth', 'auth', 'reg'])
        mut = rng.choice(AUTH_MUT if kind == 'auth' else REG_MUT) if rng.random() < .45 else None
        if kind == 'auth':
            e = rng.choice(w.creds)
            was = dict(vars(e))
            c, key = honest_auth(rng, w, e), e.key
        else:
            e, was = None, None
            c, key = att.honest_reg(rng, w)
        if mut is None and rng.random() < .3:
            if kind == 'auth':
                c.user, c.user_handle = e.user_id, e.user_id
            c.cd_tb = c.token_binding = ('present', bait(rng))
            c.id_text = rng.choice([None, bait(rng)])
            c.seal(rng, key) if kind == 'auth' else att.seal_reg(rng, c, key)
            ctx.count('baited')
        elif mut is None and rng.random() < .25:
            core_deviation(rng, c)
            c.seal(rng, key) if kind == 'auth' else att.seal_reg(rng, c, key)
            ctx.count('core deviations')
        if mut is not None:
            c.note = mut[0]
            if mut[1](rng, w, c, e if kind == 'auth' else key) is False:
                c.note = 'honest'
            elif kind == 'reg':
                att.seal_reg(rng, c, key)
            stored = w.registrar.store.get(e.cid) if e is not None else None
            if e is not None and (stored is not e or {k: v for k, v in vars(e).items() if k != '_data'} != {k: v for k, v in was.items() if k != '_data'}):
                # a deviation of the store, which all cases here share
                e.__dict__.update(was)
                e._data = None
                w.registrar.store[e.cid] = e
        if not isinstance(c.expected_origin, (str, list, tuple, set, frozenset)):
            c.expected_origin = tuple(c.expected_origin)
        try:
            pickle.dumps(c)
        except Exception:  # noqa: cases with odd members stay with the other checks
            ctx.count('not-portable')
            continue
        out.append(c)
    entries = []
    for e in w.creds:
        if w.registrar.store.get(e.cid) is e:
            entries.append((e.cid, e.key.cose(), e.user_id, e.rp_id, e.count))
    w.registrar.store = {e[0]: w.registrar.store[e[0]] for e in entries}
    return [(c,) + c.reasons(w.registrar.store) for c in out], entries


def others(rng):
    """Jobs that are not ceremonies."""
    key = pick_key(rng)
    msg = rbytes(rng, 40)
    yield 'parse', 'parse_client_data', sim.client_json(rng, bait(rng), 'AAAA', bait(rng), rng.choice([None, ('present', bait(rng))]))
    text = rng.choice(['b\u00fccher', '\u00e9', '\u4e2d\u6587', '\U0001f511', '\u0130', '\u00df', '\u2028', '\xa0'])
    yield 'parse', 'parse_client_data', json.dumps({'type': 'webauthn.get', 'challenge': rng.choice(['AAAA', text]), 'origin': 'https://%s.example' % text, text: text}, ensure_ascii=rng.random() < .2).encode()
    yield 'parse', 'parse_client_data', c18.hostile_bytes(rng, 'client_data')
    yield 'parse', 'parse_authenticator_data', c15.honest(rng, rng.choice([1, 65, 129, 193]), 16).encode()
    yield 'parse', 'parse_authenticator_data', c18.hostile_bytes(rng, 'auth_data')
    yield 'parse', 'parse_attestation_object', enc(c19.obj(rng, 'packed', c19.statement(rng, ('packed', 'x5c'))))
    yield 'parse', 'parse_attestation_object', c18.hostile_bytes(rng, 'attestation_object')
    yield 'parse', 'parse_origin', rng.choice(['https://example.com', 'http://b\u00fccher.example:81', bait(rng), 'https://' + MARK + '.example'])
    yield 'verify', key.cose(), (key.sign(msg), msg)
    yield 'verify', key.cose(), (key.sign(msg), msg + b'x')
    yield 'key', key.ec2, key.cose(form=rng.choice(['int', 'str']))
    yield 'options', None, (rbytes(rng, 16), rbytes(rng, 8), rng.choice(['example.com', MARK]), rng.choice([0, 1, 3]))


def work(ctx, rng, n):
    cases, entries = ceremonies(ctx, rng, n)
    jobs = [('ceremony', 0, c) for c, _, _ in cases] + list(others(rng))
    return cases, jobs, dict(jobs=jobs, stores=[entries], contexts=None, monitor=False)


def describe(job):
    return dict(job=job[0], what=repr(job[1])[:100], arg=job[2].describe() if job[0] == 'ceremony' else repr(job[2])[:600])


def judge_accounts(ctx, cases, results, what):
    """Ceremonies against the reference: their class or acceptance as they came out of the other process."""
    for (c, reasons, unspec), r in zip(cases, results):
        accepted = r['first'].startswith('(None,')
        if accepted and reasons:
            ctx.violation('accepted although a requirement is not met (%s): %s' % (what, c.note), case=c.describe(), reasons=sorted(reasons))
        elif not accepted and not reasons and not unspec:
            ctx.violation('rejected although every requirement is met (%s): %s: %s' % (what, c.note, r['first'][:200]), case=c.describe())
        ctx.count('ceremony:' + ('accepted' if accepted else 'rejected'))


def effects(ctx, rng, index):
    """Watched: whatever happens in the process besides calls to the registrar."""
    cases, jobs, data = work(ctx, rng, 30)
    data['monitor'] = True
    out = child(ctx, rng, data)
    judge_accounts(ctx, cases, out['results'], 'watched')
    if out['setting']:
        ctx.violation('something was touched when a backend was created: %s' % out['setting'][0], effects=out['setting'][:5])
    for job, r in zip(jobs, out['results']):
        if r['effects']:
            ctx.violation('something other than the registrar was touched: %s' % r['effects'][0], effects=r['effects'][:5], **describe(job))
        if r['again'] != r['first']:
            ctx.violation('the same again had another result', first=r['first'][:500], again=(r['again'] or '')[:500], **describe(job))
        ctx.judged(('watched', index, r['first']))
        ctx.count('watched:' + job[0])
    ctx.sample(jobs=len(jobs), asked=out['asked'])


DAY = 86400
# CBOR's decimal fractions and bigfloats are read by cbor2, which rounds them as the decimal context says.
DECIMALS = re.compile(rb'(?:[\xc4\xc5]|\xd8[\x04\x05])[\x80-\x9f]')
SHIFTS = [-20 * 365 * DAY, -5 * 365 * DAY, -DAY, -3600, 3600, 6 * 3600, 12 * 3600, DAY, 7 * DAY, 30 * DAY, 182 * DAY, 365 * DAY, 5 * 365 * DAY, 12 * 365 * DAY, 15 * 365 * DAY, 40 * 365 * DAY, 75 * 365 * DAY]


MODULES = ['pytest', '_pytest', 'unittest', 'unittest.mock', 'nose', 'locust', 'hypothesis', 'coverage', 'pydevd', 'pdb', 'bdb', 'doctest', 'flask', 'flask.testing', 'django', 'django.test', 'fastapi', 'starlette',
           'starlette.testclient', 'IPython', 'ipykernel', 'gunicorn', 'uvicorn', 'celery', 'gevent', 'eventlet', 'sentry_sdk', 'behave', 'tox', 'freezegun', 'factory', 'faker', 'webtest', 'selenium', 'debugpy', 'werkzeug.debug', 'idlelib', 'conftest', 'tests', 'test', 'sitecustomize', 'usercustomize']
PROGRAMS = ['manage.py', 'pytest', 'py.test', 'py.test.exe', 'test', 'unittest', 'flask', 'gunicorn', 'uvicorn', 'celery', '-c', '-m', '', 'ipython', 'tox', 'django-admin', 'wsgi.py', 'locust', 'setup.py', 'coverage', 'nosetests', 'debug', 'run.py', 'python -m unittest']


def contexts(rng):
    out = [('clock', rng.choice(SHIFTS) + rng.randrange(DAY)) for _ in range(3)]
    out += rng.sample([('depth', 300), ('thread', None), ('loop', None), ('random', rng.getrandbits(32)), ('gc', True), ('gc', False), ('decimal', None), ('streams', None),
                       ('logging', 10), ('logging', 1), ('trace', None), ('cwd', '/'), ('exception', None)], 4)
    # what else the process has imported and how it was started
    out.append(('modules', MODULES + [w for w in (magic.pool(str)[1] or []) if 0 < len(w) < 60 and re.fullmatch(r'[\w.]+', w)]))
    for _ in range(3):
        word = rng.choice(PROGRAMS) if rng.random() < .5 or not magic.pool(str)[1] else magic.text(rng)
        out.append(('argv', rng.choice([[word], [word, rng.choice(['test', 'runserver', '--debug', 'shell', '-x'])], ['/srv/app/' + word], ['app.py', word], ['app.py', '--' + word], ['']])))
    out.append(('interactive', None))
    for _ in range(6 if magic.pool(str)[1] else 2):
        out.append(('caller', rng.choice(['__main__', 'test_views', 'tests.test_backends', 'conftest', 'app.views', 'debug', 'webauthn_rp.backends', 'webauthn_rp.testing', 'pytest', 'unittest', 'builtins', 'app.dev', 'x_test'])
                                         if rng.random() < .4 or not magic.pool(str)[1] else magic.text(rng)))
    return out


def within(ctx, rng, index):
    """Other surroundings set up within one process, around each job."""
    cases, jobs, data = work(ctx, rng, 30)
    data['contexts'] = [contexts(rng) for _ in jobs]
    out = child(ctx, rng, data)
    judge_accounts(ctx, cases, out['results'], 'ordinary surroundings')
    for job, r in zip(jobs, out['results']):
        for (kind, arg), same, got in r['others']:
            if not same and kind == 'decimal' and job[0] == 'parse' and isinstance(job[2], bytes) and DECIMALS.search(job[2]):
                ctx.count('unjudged:decimals in CBOR')
            elif not same:
                ctx.violation('another result under other surroundings: %s %r' % (kind, arg), ordinary=r['first'][:500], other=got, **describe(job))
            ctx.judged((index, kind, arg, r['first']))
            ctx.count('within:' + kind)


ENVS = [
    ('hash seed', dict(env={'PYTHONHASHSEED': '1'})), ('hash seed', dict(env={'PYTHONHASHSEED': '4294967295'})), ('random hash seed', dict(env={'PYTHONHASHSEED': 'random'})),
    ('optimised', dict(flags=['-O'])), ('docstrings stripped', dict(flags=['-OO'])), ('C locale', dict(env={'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'})),
    ('UTF-8 locale', dict(env={'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1'})), ('time zone', dict(env={'TZ': 'Pacific/Kiritimati'})), ('time zone', dict(env={'TZ': 'XYZ+12:30'})),
    ('isolated', dict(env={'HOME': None, 'USER': None, 'LOGNAME': None, 'PATH': '/nonexistent', 'LANG': None})), ('development mode', dict(flags=['-X', 'dev'])),
    ('production names', dict(env={'ENV': 'production', 'PYTHON_ENV': 'production', 'DEBUG': '0', 'TESTING': '0', 'FLASK_ENV': 'production', 'CI': ''})),
    ('test names', dict(env={'ENV': 'test', 'DEBUG': '1', 'TESTING': '1', 'FLASK_ENV': 'development', 'FLASK_DEBUG': '1', 'CI': 'true', 'PYTEST_CURRENT_TEST': 'x', 'WEBAUTHN_DEBUG': '1', 'WEBAUTHN_RP_DEBUG': '1'})),
    ('other user', dict(uid=65534)), ('root directory', dict(cwd='/')), ('far past', dict(shifted=-30 * 365 * DAY)), ('year 2040', dict(shifted=14 * 365 * DAY)), ('year 2110', dict(shifted=84 * 365 * DAY)), ('buffers', dict(flags=['-u', '-B', '-s'])),
    ('encoding', dict(env={'PYTHONIOENCODING': 'ascii:strict', 'LC_CTYPE': 'POSIX'})), ('allocator', dict(env={'PYTHONMALLOC': 'malloc_debug'}))]
VALUES = ['1', '0', 'true', 'debug', '', 'off', 'test']


def reachable(ctx, uid):
    """Whether another user can read what the process needs at all."""
    if 'reachable' not in ctx.state:
        import webauthn_rp.backends
        files = [webauthn_rp.backends.__file__, sys.modules[__name__].__file__, sys.executable]
        try:
            ctx.state['reachable'] = os.getuid() == 0 and subprocess.run([sys.executable, '-c', 'import sys; [open(f, "rb").close() for f in sys.argv[1:]]; import wv'] + files, user=uid, group=uid, extra_groups=[], cwd='/',
                                                                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            ctx.state['reachable'] = False
    return ctx.state['reachable']


def processes(ctx, rng, index):
    """The same jobs in processes with other surroundings from the start, the import of the library included."""
    cases, jobs, data = work(ctx, rng, 24)
    base = child(ctx, rng, data)
    judge_accounts(ctx, cases, base['results'], 'ordinary surroundings')
    variants = [ENVS[(index * 3 + i) % len(ENVS)] for i in range(3)]
    asked = [a for a in base['asked'] if a not in ('LD_PRELOAD', 'PYTHONPATH')]
    words = [s for s in magic.pool(str)[1] if s.isidentifier() and s.isupper()][:20]
    if asked:
        ctx.count('variables-asked-for', len(asked))
    for v in rng.sample(VALUES, 3) if asked or words else []:
        variants.append(('variables that the code asks for', dict(env={a: v for a in asked + words})))
    for name, how in variants:
        if how.get('uid') is not None and not reachable(ctx, how['uid']):
            ctx.count('unavailable:' + name)
            continue
        try:
            got = child(ctx, rng, data, **how)
        except Lost as e:
            ctx.violation('no result in a process with other surroundings (%s): %s' % (name, str(e)[-600:]))
            continue
        if 'shifted' in how and not got['shifted']:
            ctx.count('unavailable:clock')
        for job, a, b in zip(jobs, base['results'], got['results']):
            if a['first'] != b['first']:
                ctx.violation('another result in a process with other surroundings (%s)' % name, ordinary=a['first'][:500], other=b['first'][:500], **describe(job))
            ctx.judged((index, name, repr(sorted(how.items())), a['first']))
        ctx.count('process:' + name)


KINDS = {'processes': (processes, 24, 200), 'effects': (effects, 48, 500), 'within': (within, 48, 400)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'watched:ceremony': 1000, 'within:modules': 500, 'within:argv': 500, 'within:interactive': 500, 'watched:parse': 250, 'within:clock': 2000, 'within:thread': 100, 'within:depth': 100, 'process:hash seed': 4, 'process:optimised': 2, 'baited': 100,
            'ceremony:accepted': 500, 'ceremony:rejected': 300}
