"""C11: ceremonies fail only with the documented library errors."""
from webauthn_rp import errors as E
from webauthn_rp.registrars import CredentialData

from wv import att, fuzz, sim
from wv.sim import ED, AT, Fault, execute, honest_auth, near, rbytes, run_auth, run_reg, sha256, user_entity, rp_entity, worker_world
from wv.props import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c12, c13, c14
from wv.stream import for_auth

RULE = ('one evaluation = one failing (or honest) ceremony whose exception class is compared with the documented classes of the unmet requirements; '
        'fuzzed response bytes and registrar answers must give None or a library error; non-trivial = distinct (deviation, response bytes)')

AUTH = ([('sig/' + n, f) for n, f in c01.MUT] + [('challenge/' + n, f) for n, f in for_auth(c02.MUT)] + [('origin/' + n, f) for n, f in for_auth(c03.MUT)]
        + [('rp/' + n, f) for n, f in for_auth(c04.AUTH)] + [('flags/' + n, f) for n, f in for_auth(c05.MUT)] + [('owner/' + n, f) for n, f in for_auth(c06.MUT)]
        + [('tb/' + n, f) for n, f in for_auth(c07.MUT)] + [('ext/' + n, f) for n, f in for_auth(c08.MUT)] + [('count/' + n, f) for n, f in for_auth(c09.MUT)])


def no_attested_data(rng, w, c, key):
    c.ad.flags &= ~AT
    c.ad.att = None


REG = ([('attested/missing', no_attested_data)] + [('challenge/' + n, f) for n, f in c02.MUT] + [('origin/' + n, f) for n, f in c03.MUT] + [('rp/' + n, f) for n, f in c04.REG]
       + [('flags/' + n, f) for n, f in c05.MUT] + [('tb/' + n, f) for n, f in c07.MUT] + [('ext/' + n, f) for n, f in c08.MUT])


def single(out, reasons, ctx, c):
    if len(reasons) == 1 and not out.accepted:
        ctx.count('single:%s:%s' % (c.kind, next(iter(reasons))))
        ctx.count('class:%s:%s' % (next(iter(reasons)), out.cls))


def families(ctx, rng, index):
    """Every error class is caught by what is documented to catch it, and by nothing else."""
    names = sorted(set().union(*sim.FAMILIES.values()) | {'OriginError', 'VerificationError', 'UnimplementedError', 'ValidationError', 'BuilderError', 'AttestationError', 'InternalError'})
    for name in names:
        c = getattr(E, name)
        x = c('what went wrong')
        for f, members in dict(sim.FAMILIES, WebAuthnRPError=set(names)).items():
            try:
                raise x
            except getattr(E, f):
                caught = True
            except Exception:  # noqa
                caught = False
            if caught != (name in members):
                ctx.violation('%s is %scaught by an except clause for %s' % (name, '' if caught else 'not ', f))
            ctx.judged((name, f))
            ctx.count('families')
        if not isinstance(x, Exception) or str(x) != 'what went wrong':
            ctx.violation('%s does not say what it was given: %r' % (name, str(x)))
        x.__traceback__ = None


def directed(ctx, rng, index):
    """Every mutator of every requirement, both ceremonies."""
    index %= len(AUTH) + len(REG)
    if index < len(AUTH):
        name, fn = AUTH[index]
        w = worker_world(ctx, rng)
        for _ in range(8):
            e = rng.choice(w.creds)
            c = honest_auth(rng, w, e)
            c.note = name
            if fn(rng, w, c, e) is False:
                continue
            out, reasons = run_auth(ctx, w, c, check_class=True)
            single(out, reasons, ctx, c)
            if not w.creds:
                break
    else:
        name, fn = REG[(index - len(AUTH)) % len(REG)]
        w = worker_world(ctx, rng, creds=1)
        for _ in range(8):
            c, key = att.honest_reg(rng, w)
            c.note = name
            if fn(rng, w, c, key) is False:
                continue
            att.seal_reg(rng, c, key)
            out, reasons = run_reg(ctx, w, c, check_class=True)
            single(out, reasons, ctx, c)


def apply(ctx, fn, c, first, *args):
    """Apply a mutator; None when it cannot build on the deviation already there (the case is dropped)."""
    try:
        return fn(*args) is not False
    except (ValueError, IndexError, KeyError, TypeError, AttributeError):
        if first:
            raise
        ctx.count('mixed-dropped')
        return None


def mixed(ctx, rng, index):
    """One or two deviations on one response: the class is one of those documented for what is not met."""
    w = worker_world(ctx, rng)
    for _ in range(10):
        if rng.random() < .6:
            e = rng.choice(w.creds)
            c = honest_auth(rng, w, e)
            k = rng.choice([1, 1, 2])
            c.note = ''
            done = [(name, apply(ctx, fn, c, not i, rng, w, c, e)) for i, (name, fn) in enumerate(rng.sample(AUTH, k))]
            if None in [d for _, d in done]:
                continue
            c.note = ' '.join(name for name, d in done if d)
            if rng.random() < .1:
                c.fault = Fault('register', 'raise', rng.choice(c10.RAISES)())
            out, reasons = run_auth(ctx, w, c, check_class=True)
        else:
            c, key = att.honest_reg(rng, w)
            c.note = ''
            done = [(name, apply(ctx, fn, c, not i, rng, w, c, key)) for i, (name, fn) in enumerate(rng.sample(REG, rng.choice([1, 1, 2])))]
            if None in [d for _, d in done]:
                continue
            c.note = ' '.join(name for name, d in done if d)
            att.seal_reg(rng, c, key)
            if rng.random() < .1:
                c.fault = Fault('register', 'raise', rng.choice(c10.RAISES)())
            out, reasons = run_reg(ctx, w, c, check_class=True)
        single(out, reasons, ctx, c)
        if not ctx.samples:
            ctx.sample(note=c.note, unmet=sorted(reasons), outcome=str(out))


def library_only(ctx, out, what, c):
    ctx.count('fuzz:' + ('accepted' if out.accepted else out.cls))
    if not out.library:
        ctx.violation('a foreign exception escaped: %s (%s)' % (out, what), case=c.describe(), client_data=c.cd_bytes[:400].hex(), auth_data=c.ad_bytes[:600].hex(),
                      att_obj=(getattr(c, 'att_obj', None) or b'')[:600].hex())
    if not out.accepted and out.registrations() and c.fault is None:
        ctx.violation('the registrar was told about a ceremony that then failed: %s (%s)' % (out, what), case=c.describe())
    ctx.judged((what, c.cd_bytes, c.ad_bytes, getattr(c, 'att_obj', None), getattr(c, 'signature', None)))


def fuzz_auth(ctx, rng, index):
    w = worker_world(ctx, rng, creds=2)
    for _ in range(10):
        e = rng.choice(w.creds)
        c = honest_auth(rng, w, e)
        what = rng.choice(['client data', 'auth data', 'extensions', 'attested key', 'signature', 'origin', 'challenge', 'ids'])
        if what == 'client data':
            c.cd_bytes = fuzz.json_bytes(rng) if rng.random() < .6 else fuzz.mutate(rng, c.cd_bytes)
        elif what == 'auth data':
            c.ad_bytes = fuzz.mutate(rng, c.ad_bytes)
        elif what == 'extensions':
            c.ad_bytes = c.ad.rp_hash + bytes([c.ad.flags & 5 | 128]) + c.ad_bytes[33:37] + fuzz.cbor(rng)
        elif what == 'attested key':
            cid = rbytes(rng, 16)
            c.ad_bytes = c.ad.rp_hash + bytes([c.ad.flags & 5 | 64]) + c.ad_bytes[33:37] + bytes(16) + b'\0\x10' + cid + (
                fuzz.graft(rng, e.key.cose()) if rng.random() < .6 else fuzz.cbor(rng))
        elif what == 'signature':
            c.signature = fuzz.mutate(rng, c.signature) if rng.random() < .7 else rbytes(rng, rng.choice([0, 1, 8, 64, 72, 5000]))
        elif what == 'origin':
            c.cd_origin = fuzz.origin_text(rng)
            c.seal_client_data(rng)
            if rng.random() < .3:
                c.expected_origin = fuzz.origin_text(rng)
        elif what == 'challenge':
            c.cd_challenge = rng.choice(['=', '====', 'A', 'AA=A', '\u00e9', '\ud800', '\x00', ' ', 'A' * 70001, c.cd_challenge + '\n', '+/+/', c.cd_challenge + '=' * 7])
            c.seal_client_data(rng)
        else:
            c.raw_id = rng.choice([b'', c.raw_id, rbytes(rng, 70000)])
            c.user_handle = rng.choice([b'', rbytes(rng, 70000), None])
        if what in ('extensions', 'attested key', 'auth data', 'client data', 'origin', 'challenge'):
            c.signature = e.key.sign(c.ad_bytes + sha256(c.cd_bytes))
        c.note = 'fuzz ' + what
        c.via_json = c.via_json and len(c.cd_bytes) < 10000
        out = execute(w.backend, w.registrar, c)
        ctx.count('fuzzed:auth:' + what)
        library_only(ctx, out, what, c)


def fuzz_reg(ctx, rng, index):
    w = worker_world(ctx, rng, creds=1)
    for _ in range(10):
        c, key = att.honest_reg(rng, w)
        what = rng.choice(['client data', 'object bytes', 'object graft', 'auth data', 'statement', 'certificate', 'key', 'cbor'])
        if what == 'client data':
            c.cd_bytes = fuzz.json_bytes(rng) if rng.random() < .6 else fuzz.mutate(rng, c.cd_bytes)
        elif what == 'object bytes':
            c.att_obj = fuzz.mutate(rng, c.att_obj)
        elif what == 'object graft':
            c.att_obj = fuzz.graft(rng, c.att_obj)
        elif what == 'auth data':
            c.ad_bytes = fuzz.mutate(rng, c.ad_bytes) if rng.random() < .5 else c.ad.rp_hash + bytes([c.ad.flags & 5 | rng.choice([0, 64, 128, 192])]) + bytes(4) + rbytes(rng, rng.choice([0, 10, 40])) + fuzz.cbor(rng)
            c.seal_object(rng)
        elif what == 'statement':
            c.fmt = rng.choice(['none', 'packed', 'tpm', 'fido-u2f', 'android-key', 'android-safetynet', 'x'])
            c.stmt = fuzz.Pairs((rng.choice(['alg', 'sig', 'x5c', 'ver', 'response', 'certInfo', 'pubArea', 'ecdaaKeyId']), fuzz.value(rng, 2)) for _ in range(rng.choice([1, 2, 3, 5])))
            c.seal_object(rng)
        elif what == 'certificate':
            c.fmt = rng.choice(['fido-u2f', 'android-key'])
            c2 = att.android_statement(rng, c, key) if c.fmt == 'android-key' else (att.u2f_statement(rng, c, key) if key.ec2 else att.android_statement(rng, c, key))
            cert = c.stmt['x5c'][0]
            c.stmt = dict(c.stmt, x5c=[fuzz.mutate(rng, cert) if rng.random() < .8 else rng.choice([b'', b'\x30\x00', rbytes(rng, 100)])])
            if 'alg' in c.stmt and rng.random() < .3:
                c.stmt['alg'] = rng.choice([-7, -8, -35, -36, 'ES256', 'EdDSA', -257, 0])
            c.seal_object(rng)
        elif what == 'key':
            cid = rbytes(rng, 16)
            k = fuzz.graft(rng, key.cose()) if rng.random() < .7 else fuzz.cbor(rng)
            c.ad_bytes = c.ad.rp_hash + bytes([c.ad.flags & 5 | 64]) + bytes(4) + bytes(16) + b'\0\x10' + cid + k
            c.seal_object(rng)
        else:
            c.att_obj = fuzz.cbor(rng)
        c.note = 'fuzz ' + what
        c.via_json = False
        out = execute(w.backend, w.registrar, c)
        ctx.count('fuzzed:reg:' + what)
        library_only(ctx, out, what, c)


class Odd:
    """A registrar answer whose members misbehave."""
    def __getattr__(self, n):
        raise KeyError(n)


def registrar_answers(ctx, rng, index):
    """Broken credential data: the ceremony fails with a library error and nothing is registered."""
    w = worker_world(ctx, rng, creds=1)
    e = w.creds[0]
    good = e.data()
    rsa_like = object()
    answers = [5, 'x', b'', False, (), {}, Odd(), good._replace(credential_public_key=None), good._replace(credential_public_key=b'key'), good._replace(user_entity=None),
               good._replace(user_entity=Odd()), good._replace(rp_entity=5), good._replace(signature_count='5'), good._replace(credential_public_key=rsa_like),
               CredentialData(None, None, None, None), [good]]
    ans = answers[index % len(answers)]
    c = honest_auth(rng, w, e)
    c.ad.count = 5
    c.seal(rng, e.key)
    c.fault = Fault('get', 'return', ans)
    c.note = 'registrar answers %r' % (type(ans),)
    c.rp, c.user, c.user_handle = None, e.user_id, None
    out = execute(w.backend, w.registrar, c)
    ctx.count('registrar-answers')
    library_only(ctx, out, c.note, c)
    if out.accepted:
        ctx.violation('accepted with unusable credential data %s' % type(ans), case=c.describe())


def lookups(ctx, rng, index):
    """Every way for the registrar to fail, at the lookup and at the registration: the documented class."""
    f = c10.RAISES[index % len(c10.RAISES)]
    w = worker_world(ctx, rng, creds=2)
    for method in ('get', 'register'):
        c = honest_auth(rng, w, rng.choice(w.creds))
        c.fault = Fault(method, 'raise', f())
        c.note = '%s raises %s' % (method, type(c.fault.value).__name__)
        run_auth(ctx, w, c, check_class=True)
        ctx.count('registrar-raises:' + method)
    c, key = att.honest_reg(rng, w)
    c.fault = Fault('register', 'raise', f())
    c.note = 'register raises %s' % type(c.fault.value).__name__
    run_reg(ctx, w, c, check_class=True)
    ctx.count('registrar-raises:reg')


def certificates(ctx, rng, index):
    """Odd certificates in every position of both formats, with signatures that fit otherwise."""
    w = worker_world(ctx, rng, creds=1)
    c, key = att.honest_reg(rng, w, fmt='fido-u2f' if index % 2 else 'android-key')
    if index % 2:
        k = att.SimKeyPool.att(rng)
        att.u2f_statement(rng, c, key, k)
        odd = att.odd_certificates(rng, k)
    else:
        from wv import refder
        odd = att.odd_certificates(rng, key, refder.key_description(att.honest_key_description(rng, sha256(c.cd_bytes))))
    good = list(c.stmt['x5c'])
    for what, der in odd:
        for x5c in ([der], good + [der]) if index % 4 < 2 else ([der],):
            c.stmt = dict(c.stmt, x5c=x5c)
            c.seal_object(rng)
            c.note = 'certificate: ' + what
            c.via_json = False
            out = execute(w.backend, w.registrar, c)
            ctx.count('odd-certificates')
            library_only(ctx, out, c.note, c)


TEXTS = ['{', '}', '{}', '{0}', '{x}', '{0.__class__}', '{!r:>9999999999}', '%s', '%d', '%', '%(a)s', '%n', '\\', '\\x', '\0', '\n', '\r\n', '\ud800', '$x', '${x}', '\U0001f511', "'", '"', '<b>', 'None', 'null', '0', '-1', '1e999',
         ' ', '\t', '\u2028', '\u202e', '\ufeff', 'a' * 20000, '{' * 3000, '%' * 3000, '\u00e9' * 500, '9' * 5000, '__class__', 'lambda', 'webauthn.', 'public-key']


def texts(ctx, rng, index):
    """Every text a client chooses, odd in every way: the documented class, whatever message is made of it."""
    t = TEXTS[index % len(TEXTS)]
    w = worker_world(ctx, rng, creds=2)
    fields = ['type', 'origin', 'host', 'port', 'tb id', 'tb id expected', 'tb status', 'challenge', 'fmt', 'id', 'id allow', 'rp', 'stored rp', 'expected origin']
    for field in fields:
        for reg in (False, True):
            e = rng.choice(w.creds)
            if reg:
                c, key = att.honest_reg(rng, w, 'none')
            else:
                c, key = honest_auth(rng, w, e), e.key
            c.note = 'text %s %r' % (field, t[:12])
            want = None
            if rng.random() < .5:
                c.id_text, c.type_text = rng.choice([t, None]), rng.choice([t, None])
            if field == 'type':
                c.cd_type = rng.choice([t, t + {'reg': 'webauthn.create', 'auth': 'webauthn.get'}[c.kind], {'reg': 'webauthn.create', 'auth': 'webauthn.get'}[c.kind] + t])
            elif field in ('origin', 'host', 'port'):
                c.cd_origin = {'origin': t, 'host': 'https://%s' % t, 'port': 'https://example.com:%s' % t}[field]
                c.expected_origin = rng.choice(['https://example.org:8443', ['https://example.org', 'http://example.net']])
                want = 'OriginError'
            elif field == 'expected origin':
                c.expected_origin = rng.choice([t, 'https://%s' % t, 'https://example.net:%s' % t, [t], ['https://example.net:%s/' % t]])
                c.cd_origin = 'https://example.org:8443'
                want = 'OriginError'
            elif field == 'tb id':
                c.token_binding, c.cd_tb = rng.choice([None, ('supported', None), ('present', t + 'x')]), ('present', t)
            elif field == 'tb id expected':
                c.token_binding, c.cd_tb = ('present', t), rng.choice([None, ('supported', None), ('present', t + 'x')])
            elif field == 'tb status':
                c.cd_tb = (t, rng.choice([None, 'x']))
            elif field == 'challenge':
                c.cd_challenge = t
                c.expected_challenge = rbytes(rng, 9)
            elif field == 'fmt':
                if not reg or '\ud800' in t:
                    continue
                c.fmt = t
            elif field == 'id':
                c.id_text, c.type_text = t, t
                c.cd_type = 'webauthn.neither'
            elif field == 'id allow':
                if reg:
                    continue
                c.id_text, c.type_text, c.allow = t, t, []
            elif field in ('rp', 'stored rp'):
                if reg or t == '\ud800' or '\ud800' in t:
                    continue
                if field == 'rp':
                    c.rp = t
                else:
                    e.rp_id = t
                    c.rp = 'example.com'
            if reg:
                c.seal(rng)
                c.seal_object(rng)
                out, _ = run_reg(ctx, w, c, check_class=True)
            else:
                c.seal(rng, key)
                out, _ = run_auth(ctx, w, c, check_class=True)
            if want is not None and (out.accepted or want not in out.classes()):
                ctx.violation('%s instead of %s: %s' % (out, want, c.note), case=c.describe())
            ctx.count('texts:' + field)


ANDROID = [d for d in c13.DEVIATIONS if d[0] not in ('garbage_certificate', 'statement_algorithm', 'chain_in_another_order', 'right_certificate_second')]


def attestation_class(ctx, rng, index):
    """A statement that fails its format's verification is an AttestationError, a format without one an UnimplementedError, a malformed one a ParserError."""
    w = worker_world(ctx, rng, creds=1)
    devs = [(c12, d) for d in c12.DEVIATIONS] + [(c13, d) for d in ANDROID] + [(c14, (f, m)) for f in c14.UNVERIFIED + c14.VERIFIED for m in ('honest', 'extra member', 'missing member', 'mistyped member', 'statement not a map')]
    mod, dev = devs[index % len(devs)]
    for _ in range(10):
        if mod is c14:
            made = c14.make(rng, w, *dev)
            if made is None:
                continue
            c = made[0]
            if dev[1] in ('extra member', 'missing member', 'mistyped member') and dev[0] in c14.UNVERIFIED:
                allowed = sim.CLASSES['parse'] | {'UnimplementedError'}     # what is left may be a statement in good order
            else:
                allowed = {'UnimplementedError'} if dev[1] == 'honest' else sim.CLASSES['parse'] if dev[1] == 'statement not a map' else sim.CLASSES['parse'] | {'AttestationError'}
        else:
            c, _ = mod.make(rng, w, dev)
            allowed = {'AttestationError'}
        c.seal_object(rng)
        out, reasons = run_reg(ctx, w, c, check_class=True)
        if reasons == {'att'}:
            ctx.count('attestation-class:%s:%s' % (mod.__name__[-3:], out.cls))
            if not out.accepted and not out.classes() & set(allowed):
                ctx.violation('%s for an attestation that fails, expected one of %s: %s' % (out, sorted(allowed), c.note), case=c.describe())


KINDS = {'families': (families, 2, 2), 'attestation': (attestation_class, 100, 3000), 'texts': (texts, len(TEXTS), 8 * len(TEXTS)), 'directed': (directed, 3 * (len(AUTH) + len(REG)), (len(AUTH) + len(REG)) * 16), 'answers': (registrar_answers, 32, 320), 'lookups': (lookups, 52, 520), 'certificates': (certificates, 24, 400),
         'mixed': (mixed, 400, 12000), 'fuzz-auth': (fuzz_auth, 320, 10000), 'fuzz-reg': (fuzz_reg, 320, 10000)}
OPTIMIZED_WORKERS = (7,)
RLIMIT_AS = 2 << 30
REQUIRED = dict({'families': 90, 'attestation-class:c12:AttestationError': 200, 'attestation-class:c13:AttestationError': 200, 'attestation-class:c14:UnimplementedError': 15, 'texts:fmt': 40, 'texts:type': 80, 'texts:rp': 40, 'registrar-raises:get': 50, 'registrar-raises:reg': 50, 'odd-certificates': 400, 'registrar-answers': 16, 'auth:accept': 100, 'reg:accept': 100},
                **{'single:auth:%s' % r: 5 for r in ('type', 'challenge', 'origin', 'tb', 'rphash', 'rpid', 'norp', 'up', 'uv', 'ext', 'allow', 'unknown', 'userid', 'handle', 'sig', 'count', 'registrar')},
                **{'single:reg:%s' % r: 5 for r in ('type', 'challenge', 'origin', 'tb', 'rphash', 'up', 'uv', 'ext', 'registrar', 'noatt')},
                **{'fuzzed:auth:%s' % r: 50 for r in ('client data', 'auth data', 'extensions', 'attested key', 'signature', 'origin', 'challenge', 'ids')},
                **{'fuzzed:reg:%s' % r: 50 for r in ('client data', 'object bytes', 'object graft', 'auth data', 'statement', 'certificate', 'key', 'cbor')})
