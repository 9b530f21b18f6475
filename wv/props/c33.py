"""C33: what is not implemented is refused, and what the application adds is used."""
import contextlib
import hashlib
import hmac
import types as pytypes

from webauthn_rp import attesters, converters, validators, verifiers
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.parsers import parse_cose_key
from webauthn_rp.registrars import CredentialsRegistrar

from wv import att, sim
from wv.core import dump, require
from wv.keys import pick_key
from wv.props import c01, c02, c03, c04, c05, c06, c07, c08, c09
from wv.props.c14 import UNVERIFIED, genuine_self_packed, statement
from wv.sim import AT, Entry, honest_auth, judge, rbytes, sha256, worker_world
from wv.stream import for_auth

RULE = ('one evaluation = one value of a class without a procedure given to one dispatching function, one ceremony on a registrar that lacks methods, or one ceremony or call with a procedure that the application registered for a class of '
        'statements or keys, judged by what the procedure was given and answered; non-trivial = distinct (function, value) or (deviation, answer, response)')

CLASSES = {'packed': T.PackedAttestationStatement, 'tpm': T.TPMAttestationStatement, 'android-safetynet': T.AndroidSafetyNetAttestationStatement,
           'fido-u2f': T.FIDOU2FAttestationStatement, 'android-key': T.AndroidKeyAttestationStatement, 'none': T.NoneAttestationStatement}
KEY_FUNCTIONS = {'verify': (verifiers.verify, 3), 'validate': (validators.validate, 1), 'cryptography_public_key': (converters.cryptography_public_key, 1), 'cose_key': (converters.cose_key, 1)}
REG_MUT = [m for mod in (c02, c03, c05, c07, c08) for m in mod.MUT] + c04.REG
AUTH_MUT = ([(f.__name__, f) for f in (c01.sig_flip, c01.sig_trunc, c01.sig_empty, c01.sig_extend, c01.sig_random, c01.sig_zero, c01.other_message, c01.resent_client_data, c01.tamper_auth_data)]
            + [m for mod in (c02, c03, c05, c07, c08, c09) for m in for_auth(mod.MUT)] + for_auth(c04.AUTH) + for_auth(c06.MUT))
ASPECTS = ('credential', 'user', 'rp', 'count', 'flags', 'rp_hash', 'ext', 'aaguid', 'cred_id', 'key', 'cred_len', 'fmt')


class AppKey(T.CredentialPublicKey):
    """A kind of key that only the application knows."""

    def __init__(self, secret=b'secret'):
        self.secret = secret


class Plain(T.CredentialPublicKey):
    """Another one, for which nothing is ever registered."""

    def __init__(self):
        pass


class AppStatement(T.AttestationStatement):
    pass


class NoneLike(T.NoneAttestationStatement):
    pass


class Veto(E.AttestationError):
    """The application's own error, in the library's family."""


class Odd(E.WebAuthnRPError):
    pass


def extensible(fn):
    return callable(getattr(fn, 'register', None)) and callable(getattr(fn, 'dispatch', None))


@contextlib.contextmanager
def added(fn, cls, procedure):
    """The procedure in place of what there was for this class, for a while."""
    was = fn.dispatch(cls)
    fn.register(cls, procedure)
    try:
        yield
    finally:
        fn.register(cls, was)


# --- refusals --------------------------------------------------------------------------------------------------------------------
def without_procedure(rng):
    """Things that are no key the library knows, some of them very much like one."""
    key = pick_key(rng)
    parsed = parse_cose_key(key.cose())
    members = dict(vars(parsed)) if hasattr(parsed, '__dict__') else {}
    return [('plain subclass', Plain()), ('None', None), ('bytes', key.cose()), ('map', {1: 2}), ('members', dict(members)), ('look-alike', pytypes.SimpleNamespace(**members)), ('class', type(parsed)), ('list', [parsed]),
            ('tuple', (parsed,)), ('text', 'EC2'), ('number', 2), ('cryptography key', converters.cryptography_public_key(parsed)), ('SimpleNamespace', pytypes.SimpleNamespace(kty=T.COSEKeyType.Value.EC2)),
            ('other subclass', type('EC2CredentialPublicKey', (Plain,), dict(members))()), ('function', lambda *a: None), ('kty', T.COSEKeyType.Value.EC2)], key, parsed


def refused(what, call):
    try:
        got = call()
    except E.UnimplementedError:
        return
    except E.WebAuthnRPError as e:
        require(False, '%s gave %s instead of UnimplementedError' % (what, type(e).__name__))
    except Exception as e:  # noqa
        require(False, '%s let %s(%s) escape instead of UnimplementedError' % (what, type(e).__name__, str(e)[:100]))
    require(False, '%s was not refused: %r' % (what, got))


def refusals(ctx, rng, index):
    values, key, parsed = without_procedure(rng)
    data = rbytes(rng, 40)
    sig = key.sign(data)
    for name, (fn, n) in KEY_FUNCTIONS.items():
        for label, v in values:
            refused('%s of %s' % (name, label), lambda: fn(*(v, sig, data)[:n]))
            ctx.judged((name, label, key.curve, key.alg, index))
            ctx.count('refused:' + name)
        fn(*(parsed, sig, data)[:n])            # what there is a procedure for still works
    w = worker_world(ctx, rng, creds=1)
    c, k = att.honest_reg(rng, w, 'none')
    obj = attesters_object(c)
    none = obj.att_stmt
    stmts = [('statement', T.AttestationStatement.__new__(T.AttestationStatement)), ('application statement', AppStatement.__new__(AppStatement)), ('None', None), ('map', {}), ('name', 'none'), ('class', type(none)), ('object', object()),
             ('list', [none]), ('format', T.AttestationStatementFormatIdentifier.NONE if hasattr(T, 'AttestationStatementFormatIdentifier') else 'none'), ('attestation object', obj)]
    for fmt in UNVERIFIED:
        c.fmt, c.stmt = fmt, genuine_self_packed(rng, c, k) if fmt == 'packed' else statement(rng, fmt, k)
        c.seal_object(rng)
        stmts.append((fmt, attesters_object(c).att_stmt))
    for label, v in stmts:
        refused('attestation of ' + label, lambda: attesters.attest(v, obj, c.ad_bytes, sha256(c.cd_bytes)))
        ctx.judged(('attest', label, index))
        ctx.count('refused:attest')
    got = attesters.attest(NoneLike.__new__(NoneLike), obj, c.ad_bytes, sha256(c.cd_bytes))
    require(got[0] is T.AttestationType.NONE and got[1] is None, 'a subclass of the none statement was attested as %r' % (got,))


def attesters_object(c):
    from webauthn_rp.parsers import parse_attestation_object
    got = parse_attestation_object(c.att_obj)
    return got[0] if isinstance(got, tuple) else got


METHODS = ('register_credential_attestation', 'register_credential_assertion', 'get_credential_data')


def abstract(ctx, rng, index):
    """Registrars that implement some of the methods: a ceremony that needs another one fails, the others succeed."""
    have = [m for i, m in enumerate(METHODS) if index >> i & 1]
    w = worker_world(ctx, rng, creds=2)
    told = []

    def method(name):
        if name == 'get_credential_data':
            return lambda self, credential_id: w.registrar.store[credential_id].data()
        return lambda self, **kw: told.append(name)
    reg = type('Partial', (CredentialsRegistrar,), {m: method(m) for m in have})()
    backend = CredentialsBackend(reg)
    for _ in range(3):
        for kind in ('auth', 'reg'):
            c = honest_auth(rng, w, rng.choice(w.creds)) if kind == 'auth' else att.honest_reg(rng, w)[0]
            needed = {'register_credential_assertion', 'get_credential_data'} if kind == 'auth' else {'register_credential_attestation'}
            reasons, unspec = c.reasons(w.registrar.store)
            require(not reasons and not unspec, 'the harness made an honest ceremony that is none', reasons=sorted(reasons))
            told.clear()
            try:
                (backend.handle_credential_assertion if kind == 'auth' else backend.handle_credential_attestation)(**c.kwargs())
            except Exception as e:  # noqa
                require(not needed <= set(have), '%s although the registrar has what it takes: %r' % (kind, e), have=have)
                require(isinstance(e, E.RegistrationError), '%s on a registrar without %s gave %s instead of RegistrationError' % (kind, needed - set(have), type(e).__name__))
                require(not told, 'a failed %s was reported' % kind, have=have)
                ctx.count('partial:rejected')
            else:
                require(needed <= set(have), '%s succeeded on a registrar without %s' % (kind, needed - set(have)))
                require(len(told) == 1, '%s was reported %d times' % (kind, len(told)))
                ctx.count('partial:accepted')
            ctx.judged(('partial', tuple(have), kind, c.cd_bytes))
    base = CredentialsRegistrar()
    args = {'get_credential_data': dict(credential_id=b'x'), 'register_credential_assertion': dict(credential=None, authenticator_data=None, user=None, rp=None), 'register_credential_attestation': dict(credential=None, att=None, att_type=None, user=None, rp=None)}
    for m, kw in args.items():
        for r in (base, reg) if m not in have else (base,):
            refused('the unimplemented ' + m, lambda: getattr(r, m)(**kw))
            refused('the unimplemented ' + m, lambda: getattr(r, m)(*kw.values()))
            ctx.judged(('method', m, tuple(have), index))
    ctx.count('partial-rows')


# --- procedures of the application --------------------------------------------------------------------------------------------------
def answers(rng):
    """(label, what the procedure does, what comes of it: 'ok', 'same' error, 'library' error)"""
    certs = [att.plain_cert(att.SimKeyPool.att(rng)) for _ in range(2)]
    paths = [None, [], certs[:1], certs, tuple(certs), ['not a certificate'], [1, None]]
    ok = [('%s/%d' % (t.name, i), (t, p)) for t in T.AttestationType for i, p in enumerate(paths)]
    errors = [E.AttestationError('no'), Veto('own'), E.VerificationError('no'), E.UnimplementedError('no'), E.ParserError('no'), Odd('odd'), E.WebAuthnRPError('plain'), E.ChallengeError('no'), Veto(), E.ValidationError('{}{0}')]
    foreign = [ValueError('x'), KeyError('x'), AssertionError(), RuntimeError('{}'), TypeError(), StopIteration(), NotImplementedError(), MemoryError(), OSError(2, 'x'), ZeroDivisionError(), RecursionError('x')]
    garbage = [None, (), (T.AttestationType.BASIC,), (T.AttestationType.BASIC, None, None), 0, True, False, T.AttestationType.BASIC]
    r = rng.random()
    if r < .55:
        label, v = rng.choice(ok)
        return label, lambda: v, 'ok', v
    if r < .75:
        e = rng.choice(errors)
        return type(e).__name__, lambda: raise_(e), 'same', e
    if r < .9:
        e = rng.choice(foreign)
        return 'foreign ' + type(e).__name__, lambda: raise_(e), 'library', e
    v = rng.choice(garbage)
    return 'garbage %r' % (v,), lambda: v, 'library', v


def raise_(e):
    e.__traceback__ = None
    raise e


def made(rng, w, fmt):
    """An honest registration of this format, as far as anyone can tell without verifying it."""
    if fmt in UNVERIFIED:
        c, key = att.honest_reg(rng, w, 'none', pick_key(rng))
        c.fmt = fmt
        c.stmt = genuine_self_packed(rng, c, key) if fmt == 'packed' and rng.random() < .5 else statement(rng, fmt, key)
    else:
        c, key = att.honest_reg(rng, w, fmt)
        if fmt != 'none' and rng.random() < .5:      # a signature of no worth: the application's procedure decides
            c.stmt = dict(c.stmt, sig=rbytes(rng, 70))
    c.seal_object(rng)
    return c, key


def attested(ctx, rng, index):
    """Attestation procedures of the application, registered, exchanged and taken back between ceremonies on one backend."""
    if not extensible(attesters.attest):
        ctx.count('unavailable:attest')
        return
    w = worker_world(ctx, rng, creds=1)
    fmt = list(CLASSES)[index % len(CLASSES)]
    others = [f for f in CLASSES if f != fmt]
    calls = []
    for step in range(6):
        label, act, kind, value = answers(rng)

        def procedure(att_stmt, att_obj, auth_data, client_data_hash):
            calls.append((att_stmt, att_obj, auth_data, client_data_hash))
            return act()
        if step in (0, 3):
            plain(ctx, rng, w, fmt, 'before' if not step else 'in between')
        with added(attesters.attest, CLASSES[fmt], procedure):
            for _ in range(2):
                c, key = made(rng, w, fmt)
                c.note = '%s attested by the application: %s' % (fmt, label)
                if rng.random() < .35:
                    name, mut = rng.choice(REG_MUT)
                    stmt = c.stmt
                    if mut(rng, w, c, key) is not False:
                        c.note += ', ' + name
                        c.seal(rng)
                        c.stmt = stmt
                        c.seal_object(rng)
                del calls[:]
                reasons, unspec = c.reasons()
                reasons.discard('att')
                if kind != 'ok':
                    reasons.add('att')
                out = sim.execute(w.backend, w.registrar, c)
                told = [a for n, a in out.registrations()]
                given = [(a['att_type'], a['trusted_path']) for a in told]
                for a in told:
                    a['att_type'], a['trusted_path'] = T.AttestationType.NONE, None
                judge(ctx, c, out, None, reasons, unspec, ASPECTS)
                require(len(calls) <= 1 and (len(calls) == 1 or reasons - {'att'} or unspec), 'the procedure of the application was asked %d times' % len(calls), note=c.note)
                for stmt, obj, auth_data, cd_hash in calls:
                    require(isinstance(stmt, CLASSES[fmt]) and dump(stmt) == dump(obj.att_stmt), 'the procedure was given another statement', got=repr(dump(stmt))[:500], note=c.note)
                    require(bytes(auth_data) == c.ad_bytes and type(auth_data) is bytes, 'the procedure was given other authenticator data', got=bytes(auth_data).hex(), note=c.note)
                    require(bytes(cd_hash) == sha256(c.cd_bytes), 'the procedure was given another hash', note=c.note)
                    require(obj.auth_data.rp_id_hash == c.ad.rp_hash and obj.auth_data.sign_count == c.ad.count and obj.fmt.value == fmt, 'the procedure was given another attestation object', note=c.note)
                    require(obj.auth_data.attested_credential_data is not None, 'the procedure was asked about a registration without attested credential data', note=c.note)
                if kind == 'ok':
                    for t, p in given:
                        require(t is value[0] and (p is value[1] or type(p) is type(value[1]) and p == value[1]), 'the answer %r of the application was reported as %r' % (value, (t, p)), note=c.note)
                elif reasons == {'att'} and not unspec:
                    require(isinstance(out.exc, E.WebAuthnRPError), 'a foreign exception escaped: %r' % (out.exc,), note=c.note)
                    if kind == 'same':
                        require(type(out.exc) is type(value), '%s of the application became %s' % (type(value).__name__, type(out.exc).__name__), note=c.note)
                        require(isinstance(out.exc, type(value)) and str(out.exc) == str(value), 'the error of the application lost its message', got=str(out.exc)[:200], note=c.note)
                ctx.judged((c.note, tuple(sorted(reasons)), c.cd_bytes, c.att_obj))
                ctx.count('attested:' + kind)
                ctx.count('asked' if calls else 'not-asked')
            # a format the application said nothing about is treated as before
            del calls[:]
            plain(ctx, rng, w, rng.choice(others), 'beside')
            require(not calls, 'the procedure for %s was asked about another format' % fmt)
        plain(ctx, rng, w, fmt, 'after')
    ctx.count('attested-rows:' + fmt)


def plain(ctx, rng, w, fmt, when):
    """A registration as the library itself judges it."""
    if fmt in UNVERIFIED:
        c, key = made(rng, w, fmt)
        c.stmt_ok = False
    else:
        c, key = att.honest_reg(rng, w, fmt)
    c.note = '%s, %s procedures of the application' % (fmt, when)
    reasons, unspec = c.reasons()
    out = sim.execute(w.backend, w.registrar, c)
    judge(ctx, c, out, None, reasons, unspec)
    if reasons == {'att'} and not unspec:
        require(isinstance(out.exc, E.UnimplementedError), '%s gave %s instead of UnimplementedError' % (c.note, type(out.exc).__name__))
    ctx.judged((c.note, c.cd_bytes, c.att_obj))
    ctx.count('plain:%s:%s' % (when, 'accepted' if out.accepted else 'rejected'))


class MacKey:
    """The harness's side of an application key."""
    curve, alg, ec2 = 'MAC', 'HS256', False

    def __init__(self, rng):
        self.secret = rbytes(rng, 32)
        self.other = pick_key(rng)
        self.x = self.y = self.secret

    def sign(self, data, alg=None):
        return hmac.new(self.secret, data, hashlib.sha256).digest()

    def valid(self, signature, data):
        return hmac.compare_digest(self.sign(data), signature)

    def cose(self, *a, **kw):
        return self.other.cose(*a, **kw)


def asserted(ctx, rng, index):
    """Keys of the application's own class, verified by its own procedure."""
    if not extensible(verifiers.verify):
        ctx.count('unavailable:verify')
        return
    w = worker_world(ctx, rng, creds=2)
    keys = {}
    for i, e in enumerate(list(w.creds)):
        k = MacKey(rng)
        new = Entry(e.cid, k, e.user_id, e.rp_id, e.count, AppKey(k.secret))
        keys[id(new.cpk)] = k
        w.registrar.store[e.cid] = new
        w.creds[i] = new
    calls, failure = [], [None]

    def procedure(credential_public_key, signature, data):
        calls.append((credential_public_key, signature, data))
        if failure[0] is not None:
            raise_(failure[0])
        if not hmac.compare_digest(hmac.new(credential_public_key.secret, data, hashlib.sha256).digest(), signature):
            raise E.VerificationError('MAC verification failure')

    def one(note, mut=None, unknown=False):
        e = rng.choice(w.creds)
        c = honest_auth(rng, w, e)
        c.note = note
        if mut:
            c.note += ', ' + mut[0]
            if mut[1](rng, w, c, e) is False:
                return None
        del calls[:]
        entry = w.registrar.store.get(c.raw_id)
        reasons, unspec = c.reasons(w.registrar.store)
        mine = entry is not None and type(entry.cpk) is AppKey          # the deviations bring in ordinary keys as well
        if (unknown or failure[0] is not None) and mine:
            reasons.add('sig')
        out = sim.execute(w.backend, w.registrar, c)
        judge(ctx, c, out, entry, reasons, unspec, ASPECTS)
        require(len(calls) <= 1, 'the procedure of the application was asked %d times' % len(calls), note=c.note)
        require(not out.accepted or not mine or len(calls) == 1, 'accepted without asking the procedure of the application', note=c.note)
        for k, s, d in calls:
            require(mine and k is entry.cpk, 'the procedure was given another key', note=c.note)
            require(s == c.signature and d == c.ad_bytes + sha256(c.cd_bytes), 'the procedure was given another signature or other data', note=c.note)
        if out.accepted:
            entry.count = c.ad.count
        ctx.judged((c.note, tuple(sorted(reasons)), c.cd_bytes, c.ad_bytes, c.signature))
        ctx.count('asserted:' + ('accepted' if out.accepted else 'rejected'))
        return out, reasons, unspec
    for _ in range(2):
        out, reasons, unspec = one('no procedure for this class of keys', unknown=True)
        if reasons == {'sig'} and not unspec:
            require(isinstance(out.exc, E.UnimplementedError), 'a key without a procedure gave %s instead of UnimplementedError' % type(out.exc).__name__)
        with added(verifiers.verify, AppKey, procedure):
            for _ in range(6):
                one('a key of the application', rng.choice(AUTH_MUT) if rng.random() < .5 else None)
            failure[0] = rng.choice([E.VerificationError('x'), Veto('x'), Odd('x'), E.UnimplementedError('x'), ValueError('x'), KeyError('x'), AssertionError('x'), TypeError('x'), MemoryError()])
            got = one('a procedure that fails: %s' % type(failure[0]).__name__)
            if got and got[1] == {'sig'} and not got[2]:
                exc = got[0].exc
                require(isinstance(exc, E.WebAuthnRPError), 'a foreign exception escaped: %r' % (exc,))
                require(not isinstance(failure[0], E.WebAuthnRPError) or type(exc) is type(failure[0]), '%s of the application became %s' % (type(failure[0]).__name__, type(exc).__name__))
            failure[0] = None
    ctx.count('asserted-rows')


def converted(ctx, rng, index):
    """The other functions by class: the application's procedure gets its value and its answer is the answer."""
    for name, (fn, n) in KEY_FUNCTIONS.items():
        if not extensible(fn):
            ctx.count('unavailable:' + name)
            continue
        key, got = AppKey(rbytes(rng, 8)), []
        answer = object()
        with added(fn, AppKey, lambda *a: (got.append(a), answer)[1]):
            args = (key, b's', b'd')[:n]
            r = fn(*args)
            require(r is answer or name in ('verify', 'validate') and r is None, '%s did not answer what the procedure of the application answered' % name)
            require(len(got) == 1 and all(a is b for a, b in zip(got[0], args)), '%s gave the procedure of the application something else' % name)
            refused('%s of another class' % name, lambda: fn(*(Plain(), b's', b'd')[:n]))
        refused('%s of a class whose procedure was taken back' % name, lambda: fn(*args))
        # a subclass of a kind of key the library knows is treated like it, until the application says otherwise
        k = pick_key(rng)
        parsed = parse_cose_key(k.cose())
        sub = type('Mine', (type(parsed),), {})
        mine = sub.__new__(sub)
        mine.__dict__.update(vars(parsed))
        data = rbytes(rng, 20)
        args = (mine, k.sign(data), data)[:n]
        fn(*args)
        with added(fn, sub, lambda *a: raise_(Veto('mine'))):
            try:
                fn(*args)
                require(False, '%s did not use the procedure for the subclass' % name)
            except Veto:
                pass
            fn(*(parsed,) + args[1:])
        ctx.judged(('converted', name, index))
        ctx.count('converted:' + name)


KINDS = {'refusals': (refusals, 64, 1500), 'abstract': (abstract, 24, 400), 'attested': (attested, 240, 8000), 'asserted': (asserted, 160, 6000), 'converted': (converted, 64, 1500)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'refused:verify': 500, 'refused:validate': 500, 'refused:cryptography_public_key': 500, 'refused:cose_key': 500, 'refused:attest': 500, 'partial-rows': 24, 'partial:accepted': 20, 'partial:rejected': 60}
