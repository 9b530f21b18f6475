"""C32: values keep what they are given, survive copying and storage, and are current."""
import copy
import pickle
import random

from webauthn_rp import converters, parsers, types as T, verifiers
from webauthn_rp.errors import VerificationError
from webauthn_rp.registrars import CredentialData

from wv import att, opts, refcbor, refparse, sim
from wv.core import Violation, dump, require, short
from wv.keys import pick_key
from wv.props import c01, c02, c03, c04, c05, c06, c07, c08, c09, c15, c17, c19, c28
from wv.sim import World, execute, honest_auth, rbytes, run_auth, run_reg
from wv.stream import for_auth

RULE = ('one evaluation = one object made from some of its members (every attribute compared), one value copied, stored or remade and compared with what it came from in every member and in what the library does with it, '
        'one ceremony over copied, stored, remade or subclassed values judged by the ordinary oracle, or one object used, changed and used again; non-trivial = distinct (class, members, way)')

# class -> (base classes, required members, optional members with what they are when left out); from the documentation, not from the signatures
N = None
E = T
FIELDS = {
    'PublicKeyCredentialEntity': ((), 'name', dict(icon=N)),
    'PublicKeyCredentialRpEntity': (('PublicKeyCredentialEntity',), 'name id', dict(icon=N)),
    'PublicKeyCredentialUserEntity': (('PublicKeyCredentialEntity',), 'name id display_name', dict(icon=N)),
    'PublicKeyCredentialParameters': ((), 'type alg', {}),
    'PublicKeyCredentialDescriptor': ((), 'type id', dict(transports=N)),
    'TxAuthGenericArg': ((), 'content_type content', {}),
    'Coordinates': ((), 'latitude longitude accuracy', dict(altitude=N, altitude_accuracy=N, heading=N, speed=N)),
    'AuthenticatorBiometricPerfBounds': ((), 'FAR FRR', {}),
    'AuthenticationExtensionsClientInputs': ((), '', dict.fromkeys('appid tx_auth_simple tx_auth_generic authn_sel exts uvi loc uvm biometric_perf_bounds'.split())),
    'AuthenticationExtensionsClientOutputs': ((), '', dict.fromkeys('appid tx_auth_simple tx_auth_generic authn_sel exts uvi loc uvm biometric_perf_bounds'.split())),
    'AuthenticatorSelectionCriteria': ((), '', dict(authenticator_attachment=N, require_resident_key=False, user_verification=T.UserVerificationRequirement.PREFERRED)),
    'PublicKeyCredentialCreationOptions': ((), 'rp user challenge pub_key_cred_params', dict(timeout=N, authenticator_selection=N, extensions=N, attestation=T.AttestationConveyancePreference.NONE, exclude_credentials=N)),
    'PublicKeyCredentialRequestOptions': ((), 'challenge', dict(timeout=N, rp_id=N, extensions=N, allow_credentials=N, user_verification=T.UserVerificationRequirement.PREFERRED)),
    'CredentialCreationOptions': ((), 'public_key', {}),
    'CredentialRequestOptions': ((), 'public_key', dict(mediation=T.CredentialMediationRequirement.OPTIONAL)),
    'AuthenticatorResponse': ((), 'client_data_JSON', {}),
    'AuthenticatorAttestationResponse': (('AuthenticatorResponse',), 'client_data_JSON attestation_object', {}),
    'AuthenticatorAssertionResponse': (('AuthenticatorResponse',), 'client_data_JSON authenticator_data signature', dict(user_handle=N)),
    'Credential': ((), 'id type', {}),
    'PublicKeyCredential': (('Credential',), 'id type raw_id response', {}),
    'TokenBinding': ((), 'status', dict(id=N)),
    'CollectedClientData': ((), 'type challenge origin', dict(token_binding=N)),
    'CredentialPublicKey': ((), 'kty', dict(kid=N, alg=N, key_ops=N, base_IV=N)),
    'EC2CredentialPublicKey': (('CredentialPublicKey',), 'kty x y crv', dict(kid=N, alg=N, key_ops=N, base_IV=N)),
    'OKPCredentialPublicKey': (('CredentialPublicKey',), 'kty x crv', dict(kid=N, alg=N, key_ops=N, base_IV=N)),
    'AttestedCredentialData': ((), 'aaguid credential_id_length credential_id', dict(credential_public_key=N)),
    'AuthenticatorData': ((), 'rp_id_hash flags sign_count', dict(attested_credential_data=N, extensions=N)),
    'AttestationStatement': ((), '', dict(alg=N, sig=N)),
    'PackedAttestationStatement': (('AttestationStatement',), 'alg sig', {}),
    'PackedX509AttestationStatement': (('PackedAttestationStatement', 'AttestationStatement'), 'alg sig x5c', {}),
    'PackedECDAAAttestationStatement': (('PackedAttestationStatement', 'AttestationStatement'), 'alg sig ecdaa_key_id', {}),
    'TPMAttestationStatement': (('AttestationStatement',), 'alg sig ver cert_info pub_area', {}),
    'TPMX509AttestationStatement': (('TPMAttestationStatement', 'AttestationStatement'), 'alg sig ver cert_info pub_area x5c', {}),
    'TPMECDAAAttestationStatement': (('TPMAttestationStatement', 'AttestationStatement'), 'alg sig ver cert_info pub_area ecdaa_key_id', {}),
    'AndroidKeyAttestationStatement': (('AttestationStatement',), 'alg sig x5c', {}),
    'AndroidSafetyNetAttestationStatement': (('AttestationStatement',), 'ver response', {}),
    'FIDOU2FAttestationStatement': (('AttestationStatement',), 'sig x5c', {}),
    'NoneAttestationStatement': (('AttestationStatement',), '', {}),
    'AttestationObject': ((), 'auth_data fmt att_stmt', {}),
}
CLASSES = list(FIELDS)
LIST_MEMBERS = {'transports', 'authn_sel', 'exclude_credentials', 'allow_credentials', 'pub_key_cred_params', 'key_ops', 'x5c', 'exts', 'uvm'}


def member(rng, cls, name):
    """Something this member can be; a fresh object where it has identity."""
    def some(*a):
        return rng.choice(a)
    if name in ('rp', 'user', 'public_key', 'credential_public_key', 'auth_data', 'att_stmt', 'response', 'attested_credential_data', 'authenticator_selection', 'extensions', 'token_binding', 'loc', 'tx_auth_generic', 'biometric_perf_bounds'):
        inner = {'rp': ['PublicKeyCredentialRpEntity'], 'user': ['PublicKeyCredentialUserEntity'],
                 'public_key': ['PublicKeyCredentialCreationOptions' if cls == 'CredentialCreationOptions' else 'PublicKeyCredentialRequestOptions'],
                 'credential_public_key': ['EC2CredentialPublicKey', 'OKPCredentialPublicKey'], 'auth_data': ['AuthenticatorData'],
                 'att_stmt': ['NoneAttestationStatement', 'FIDOU2FAttestationStatement', 'AndroidKeyAttestationStatement'], 'response': ['AuthenticatorAttestationResponse', 'AuthenticatorAssertionResponse'],
                 'attested_credential_data': ['AttestedCredentialData'], 'authenticator_selection': ['AuthenticatorSelectionCriteria'],
                 'extensions': ['AuthenticationExtensionsClientOutputs' if cls == 'AuthenticatorData' else 'AuthenticationExtensionsClientInputs'], 'token_binding': ['TokenBinding']}
        if name in inner:
            return made(rng, rng.choice(inner[name]))[0]
        if name == 'tx_auth_generic' and cls.endswith('Inputs'):
            return made(rng, 'TxAuthGenericArg')[0]
        if name == 'tx_auth_generic':
            return rbytes(rng, some(0, 1, 20))
        if name == 'biometric_perf_bounds' and cls.endswith('Inputs'):
            return made(rng, 'AuthenticatorBiometricPerfBounds')[0]
        if name == 'loc' and cls.endswith('Outputs'):
            return made(rng, 'Coordinates')[0]
        return some(True, False)
    if name in ('latitude', 'longitude', 'accuracy', 'altitude', 'altitude_accuracy', 'heading', 'speed', 'FAR', 'FRR'):
        return some(0, 0.0, 1, -1.5, 1e-9, rng.uniform(-180, 180))
    if name == 'type':
        return T.PublicKeyCredentialType.PUBLIC_KEY if cls in ('PublicKeyCredentialParameters', 'PublicKeyCredentialDescriptor') else some('public-key', 'webauthn.get', '')
    if name == 'alg':
        return rng.choice(list(some(T.COSEAlgorithmIdentifier.Name, T.COSEAlgorithmIdentifier.Value)))
    if name == 'kty':
        return rng.choice(list(some(T.COSEKeyType.Name, T.COSEKeyType.Value)))
    if name == 'crv':
        c = T.EC2Curve if cls.startswith('EC2') else T.OKPCurve
        return rng.choice(list(some(c.Name, c.Value)))
    enums = {'authenticator_attachment': T.AuthenticatorAttachment, 'user_verification': T.UserVerificationRequirement, 'attestation': T.AttestationConveyancePreference, 'mediation': T.CredentialMediationRequirement,
             'status': T.TokenBindingStatus, 'fmt': T.AttestationStatementFormatIdentifier}
    if name in enums:
        return rng.choice(list(enums[name]))
    if name in LIST_MEMBERS and not (name in ('exts', 'uvm') and cls.endswith('Inputs')):
        n = some(0, 1, 1, 2, 5)
        one = {'transports': lambda: rng.choice(list(T.AuthenticatorTransport)), 'key_ops': lambda: rng.choice(list(some(T.COSEKeyOperation.Name, T.COSEKeyOperation.Value))),
               'exclude_credentials': lambda: made(rng, 'PublicKeyCredentialDescriptor')[0], 'allow_credentials': lambda: made(rng, 'PublicKeyCredentialDescriptor')[0],
               'pub_key_cred_params': lambda: made(rng, 'PublicKeyCredentialParameters')[0], 'exts': lambda: some('uvm', 'x', ''), 'uvm': lambda: [rng.randrange(9) for _ in range(3)]}.get(name, lambda: rbytes(rng, some(0, 1, 16)))
        return some(list, list, tuple)(one() for _ in range(n))
    if name in ('exts', 'uvi', 'uvm', 'require_resident_key') and not (name == 'uvi' and cls.endswith('Outputs')):
        return some(True, False)
    if name in ('appid', 'authn_sel') and cls.endswith('Outputs'):
        return some(True, False)
    if name in ('timeout', 'sign_count', 'credential_id_length', 'flags'):
        return some(0, 1, 60000, 2 ** 31, rng.randrange(256))
    if name in ('icon', 'rp_id', 'name', 'display_name', 'content_type', 'origin', 'ver', 'appid', 'tx_auth_simple') or name == 'challenge' and cls == 'CollectedClientData' \
            or name == 'id' and cls in ('PublicKeyCredentialRpEntity', 'Credential', 'PublicKeyCredential', 'TokenBinding'):
        return some('', 'x', 'example.com', sim.gen_text(rng), 'https://example.com', ' Padded ', 'MiXed.Case')
    return some(b'', b'\0', rbytes(rng, 16), rbytes(rng, 32), rbytes(rng, 57), b' x\n')


def made(rng, cls, p=.5):
    """(object, {member: value it must have})"""
    _, required, optional = FIELDS[cls]
    kw = {f: member(rng, cls, f) for f in required.split()}
    want = dict(kw)
    for f, default in optional.items():
        r = rng.random()
        if r < p:
            kw[f] = want[f] = member(rng, cls, f)
        elif r < p + (1 - p) / 3 and default is None:
            kw[f] = want[f] = None
        else:
            want[f] = default
    names = list(kw)
    rng.shuffle(names)
    return getattr(T, cls)(**{f: kw[f] for f in names}), want


def holds(obj, want, what):
    for f, v in want.items():
        require(hasattr(obj, f), '%s: no attribute %s' % (what, f))
        got = getattr(obj, f)
        require(got is v or (type(got) is type(v) and type(v) in (str, bytes, int, float, bool, list, tuple) and dump(got) == dump(v)), '%s: %s is not what was given' % (what, f), got=got, want=v)


# --- making --------------------------------------------------------------------------------------------------------------
def making(ctx, rng, index):
    cls = CLASSES[index % len(CLASSES)]
    bases, required, optional = FIELDS[cls]
    c = getattr(T, cls)
    for b in bases:
        require(issubclass(c, getattr(T, b)), '%s is not a kind of %s' % (cls, b))
    live = []
    for p in (0, 1, .5, .5, .5, .5):
        obj, want = made(rng, cls, p)
        require(type(obj) is c, 'another class than asked for was made')
        holds(obj, want, cls)
        live.append((obj, want))
        ctx.judged((cls, tuple(sorted((k, repr(v)[:60]) for k, v in want.items()))))
        ctx.count('made')
    for f in required.split():               # nothing stands in for what is required
        _, want = made(rng, cls, 1)
        try:
            c(**{k: v for k, v in want.items() if k != f})
        except TypeError:
            ctx.count('required')
        else:
            raise Violation('%s was made without its %s' % (cls, f))
        ctx.judged((cls, 'without', f))
    # one object changed, the others and what is made later do not
    victim, _ = live.pop(rng.randrange(len(live)))
    for f in vars(victim):
        v = getattr(victim, f)
        if isinstance(v, list):
            v.append('changed')
        setattr(victim, f, 'changed')
    for obj, want in live + [made(rng, cls, rng.choice([0, .3]))]:
        holds(obj, want, cls + ' after another was changed')
    for f in required.split() + list(optional):
        require(getattr(victim, f) == 'changed', '%s.%s does not take another value' % (cls, f))
    ctx.count('class:' + cls)


# --- surviving -------------------------------------------------------------------------------------------------------------
def _sub(x, mark={}):
    """An object of an application's own subclass with the same members."""
    cls = type(x)
    if cls not in mark:
        mark[cls] = type('Our' + cls.__name__, (cls,), {'__doc__': 'an application class', 'ours': lambda self: True, '__module__': __name__})
        globals()['Our' + cls.__name__] = mark[cls]
        mark[cls].__qualname__ = 'Our' + cls.__name__
    if hasattr(x, '_fields'):
        return mark[cls](*x)
    return mark[cls](**members(x))


def members(x):
    for k in type(x).__mro__:
        if k.__name__ in FIELDS and hasattr(T, k.__name__):
            _, required, optional = FIELDS[k.__name__]
            return {f: getattr(x, f) for f in required.split() + list(optional)}
    raise KeyError(type(x))


def _remade(x):
    return type(x)(*x) if hasattr(x, '_fields') else type(x)(**members(x))


WAYS = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'remade': _remade, 'subclass': _sub, 'copied subclass': lambda x: copy.deepcopy(_sub(x)), 'stored subclass': lambda x: pickle.loads(pickle.dumps(_sub(x), 4))}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    WAYS['pickle %d' % _p] = lambda x, p=_p: pickle.loads(pickle.dumps(x, p))
WAYS['twice'] = lambda x: pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(x)))))
WAY_NAMES = sorted(WAYS)


def plain(x):
    """Like dump, but an application's subclass counts as the class it extends."""
    d = dump(x)
    return (d[0], d[1][3:], d[2]) if isinstance(d, tuple) and len(d) == 3 and str(d[1]).startswith('Our') else d


def by(name, x):
    try:
        return WAYS[name](x)
    except Exception as e:  # noqa
        raise Violation('%s of a %s fails: %r' % (name, type(x).__name__, e))


def same_enums(a, b, path='', depth=0):
    """Enumerated members stay the very same ones."""
    if hasattr(type(a), '__members__'):
        require(a is b, 'an enumerated value is another after copying: ' + path, was=a, now=b)
    elif type(a) is not type(b) and depth:
        return
    elif isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            same_enums(x, y, '%s[%d]' % (path, i), depth + 1)
    elif hasattr(a, '__dict__') and depth < 20:
        for f, v in vars(a).items():
            if not f.startswith('_'):
                same_enums(v, getattr(b, f, None), path + '.' + f, depth + 1)


def do(f, *a):
    try:
        return 'value', f(*a)
    except Exception as e:  # noqa
        return 'error', type(e).__name__


def uses(x):
    """What the library makes of a value."""
    out = []
    if isinstance(x, T.CredentialPublicKey):
        out.append(do(converters.cose_key, x))
        k, v = do(converters.cryptography_public_key, x)
        out.append((k, v if k == 'error' else v.public_numbers() if hasattr(v, 'public_numbers') else _raw(v)))
        out.append(do(verifiers.verify, x, b'no signature', b'data'))
    if type(x).__name__ in ('CredentialCreationOptions', 'CredentialRequestOptions', 'PublicKeyCredentialCreationOptions', 'PublicKeyCredentialRequestOptions', 'PublicKeyCredentialDescriptor', 'PublicKeyCredentialUserEntity',
                            'PublicKeyCredentialRpEntity', 'AuthenticationExtensionsClientInputs', 'AuthenticatorSelectionCriteria', 'Coordinates', 'TxAuthGenericArg') or type(x).__name__.startswith('Our') and 'Option' in type(x).__name__:
        out.append(do(converters.jsonify, x))
        out.append(do(converters.jsonify, x, False))
    return out


def _raw(v):
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    return v.public_bytes(Encoding.Raw, PublicFormat.Raw)


def source(rng, index):
    """Values the library hands out, and values an application makes."""
    k = index % 9
    P = parsers
    if k == 0:
        key = pick_key(rng)
        return P.parse_cose_key(key.cose(form=rng.choice(['int', 'str']), kid=rng.choice([None, b'', b'kid']), key_ops=rng.choice([None, ['verify'], ['sign', 'verify']]), base_iv=rng.choice([None, b'iv'])))
    if k == 1:
        return P.parse_authenticator_data(sim.honest_ad(rng, 'example.com', rng.choice([0, 1, 2 ** 32 - 1]), rng.random() < .5, True, None, None, .7).encode())
    if k == 2:
        c, _ = att.honest_reg(rng, None, rng.choice(['none', 'fido-u2f', 'android-key']))
        got = P.parse_attestation_object(c.att_obj)
        return got[0] if isinstance(got, tuple) else got
    if k == 3:
        return P.parse_client_data(c28.encode(rng, c28.honest(rng)))
    if k == 4:
        return P.parse_public_key_credential(c17.honest(rng))
    if k == 5:
        return opts.gen(rng, rng.choice(list(opts.SPECS.values())))[0]
    if k == 6:
        return made(rng, rng.choice(CLASSES))[0]
    if k == 7:
        key = sim.stored_key(rng, pick_key(rng))
        u, r = made(rng, 'PublicKeyCredentialUserEntity')[0], rng.choice([None, made(rng, 'PublicKeyCredentialRpEntity')[0]])
        return CredentialData(credential_public_key=key, signature_count=rng.choice([None, 0, 5]), user_entity=u, rp_entity=r)
    return rng.choice([lambda: P.parse_origin('https://example.com'), lambda: sim.stored_key(rng, pick_key(rng)), lambda: P.parse_origin('https://[::1]:8443')])()


def surviving(ctx, rng, index):
    x = source(rng, index)
    was, used = dump(x), uses(x)
    for name in WAY_NAMES:
        y = by(name, x)
        what = '%s of a %s' % (name, type(x).__name__)
        require(plain(y) == was, what + ' differs from it', was=was, now=plain(y))
        if 'sub' not in name:
            require(type(y) is type(x), what + ' is of another class', now=type(y))
        else:
            require(isinstance(y, type(x)) and y.ours(), what + ' is no object of that subclass')
        same_enums(x, y)
        again = uses(y)
        if 'sub' not in name or used:
            require(len(again) != len(used) or again == used, what + ' is not used as it is', was=used, now=again)
        if isinstance(x, tuple):
            require((y == x) == (was == plain(y)) or name not in ('copy', 'remade'), what + ' compares unequal')
        if name == 'deepcopy' or name.startswith('pickle'):
            refparse.vandalise(y)
            require(dump(x) == was, 'changing the %s changed it as well' % what, was=was, now=dump(x))
        ctx.judged((type(x).__name__, name, short(was, 300)))
        ctx.count('way:' + name)
    require(dump(x) == was and uses(x) == used, 'copying changed a %s' % type(x).__name__)
    ctx.count('survived:' + type(x).__name__)


# --- ceremonies over such values -----------------------------------------------------------------------------------------------
AUTH_MUT = ([('sig/' + n, f) for n, f in c01.MUT] + [('challenge/' + n, f) for n, f in for_auth(c02.MUT)] + [('origin/' + n, f) for n, f in for_auth(c03.MUT)] + [('rp/' + n, f) for n, f in for_auth(c04.AUTH)]
            + [('flags/' + n, f) for n, f in for_auth(c05.MUT)] + [('owner/' + n, f) for n, f in for_auth(c06.MUT)] + [('tb/' + n, f) for n, f in for_auth(c07.MUT)] + [('ext/' + n, f) for n, f in for_auth(c08.MUT)]
            + [('count/' + n, f) for n, f in for_auth(c09.MUT)])
REG_MUT = ([('challenge/' + n, f) for n, f in c02.MUT] + [('origin/' + n, f) for n, f in c03.MUT] + [('rp/' + n, f) for n, f in c04.REG] + [('flags/' + n, f) for n, f in c05.MUT]
           + [('tb/' + n, f) for n, f in c07.MUT] + [('ext/' + n, f) for n, f in c08.MUT])


def turned(rng, v, deep=True):
    """This value another way; containers keep their kind."""
    if isinstance(v, (list, tuple)) and not hasattr(v, '_fields'):
        return type(v)(turned(rng, x) for x in v)
    if isinstance(v, (set, frozenset)):
        return pickle.loads(pickle.dumps(v, rng.choice([2, 4, 5])))
    if hasattr(v, '_fields') or type(v).__name__ in FIELDS:
        y = by(rng.choice(WAY_NAMES), v)
        if deep and hasattr(y, 'response') and rng.random() < .5:
            y.response = turned(rng, y.response, False)
        return y
    return v


def another_way(rng, c):
    kwargs = c.kwargs

    def given():
        return {k: turned(rng, v) for k, v in kwargs().items()}
    c.kwargs = given
    return c


def remember(rng, e):
    """The registrar answers with what it stored, another way each time."""
    data = sim.Entry.data

    def answer():
        d = data(e)
        key, user, rp = (turned(rng, v) if v is not None else None for v in (d.credential_public_key, d.user_entity, d.rp_entity))
        d = rng.choice([lambda: CredentialData(key, d.signature_count, user, rp), lambda: d._replace(credential_public_key=key, user_entity=user, rp_entity=rp)])()
        return turned(rng, d) if rng.random() < .6 else d
    e.data = answer


def ceremonies(ctx, rng, index):
    w = sim.worker_world(ctx, rng)
    for e in w.creds:
        remember(rng, e)
    for i in range(10):
        if i % 3:
            e = rng.choice(w.creds)
            c = honest_auth(rng, w, e)
            if rng.random() < .5:
                c.note, f = rng.choice(AUTH_MUT)
                if f(rng, w, c, e) is False:
                    continue
                if not w.creds:
                    return
                for x in w.creds:
                    if 'data' not in vars(x):
                        remember(rng, x)
            run = run_auth
        else:
            c, key = att.honest_reg(rng, w)
            if rng.random() < .4:
                c.note, f = rng.choice(REG_MUT)
                if f(rng, w, c, key) is False:
                    continue
                att.seal_reg(rng, c, key)
            run = run_reg
        another_way(rng, c)
        out, reasons = run(ctx, w, c)
        ctx.count('ceremony:%s:%s' % (c.kind, 'accepted' if out.accepted else 'rejected'))
        for name, args in out.events:
            for v in args.values():           # what reaches the registrar can be stored
                if name.startswith('register_') and not isinstance(v, (list, tuple)):
                    y = by('pickle 4', v)
                    require(dump(y) == dump(v), 'what the registrar was given does not survive storage', was=dump(v), now=dump(y))
                    ctx.count('stored')


# --- current values ----------------------------------------------------------------------------------------------------------
def become(x, y):
    """Every member of x takes the value it has in y."""
    for f in list(vars(x)):
        if f not in vars(y):
            delattr(x, f)
    for f, v in vars(y).items():
        setattr(x, f, v)


def current(ctx, rng, index):
    """An object used, changed and used again is used as it is now."""
    if index % 2:
        spec = rng.choice(list(opts.SPECS.values()))
        x, model = opts.gen(rng, spec)
        for i in range(4):
            camel = rng.random() < .7
            got = converters.jsonify(x, camel)
            require(opts.exact(got, opts.to_json(model, camel)), 'an object changed after it was converted converts as it was', got=got, want=opts.to_json(model, camel), step=i)
            ctx.judged((type(x).__name__, i, short(got, 300)))
            ctx.count('current:options')
            y, model = opts.gen(rng, spec)
            become(x, y)
        return
    suites = [('P-256', 'ES256'), ('P-256', 'ES384'), ('P-384', 'ES384'), ('P-521', 'ES512')] if rng.random() < .7 else [('Ed25519', 'EdDSA'), ('Ed448', 'EdDSA')]
    first = pick_key(rng, rng.choice(suites))
    x, now, data = sim.stored_key(rng, first), first, rbytes(rng, 20)
    for i in range(4):
        sig = now.sign(data)
        verifiers.verify(x, sig, data)
        got = refcbor_members(converters.cose_key(x))
        require(got.get(-2) == now.x and got.get(-3, None) == now.y, 'a key changed after it was encoded encodes as it was', step=i)
        other = pick_key(rng, rng.choice(suites))
        if (other.x, other.y) != (now.x, now.y):
            try:
                verifiers.verify(x, other.sign(data), data)
            except VerificationError:
                pass
            else:
                raise Violation('a signature by another key was verified')
        become(x, sim.stored_key(rng, other))
        ctx.judged((other.x, i))
        ctx.count('current:key')
        now = other


def refcbor_members(data):
    import cbor2
    return cbor2.loads(data)


def changed(ctx, rng, index):
    """One credential object across ceremonies, changed in between."""
    w = sim.worker_world(ctx, rng)
    held = None
    for i in range(6):
        e = rng.choice(w.creds)
        c = honest_auth(rng, w, e)
        if rng.random() < .5:
            c.note, f = rng.choice(AUTH_MUT)
            if f(rng, w, c, e) is False or not w.creds:
                continue
        kwargs = c.kwargs
        obj = kwargs()['credential']
        if held is None:
            held = obj
        else:
            become(held.response, obj.response) if rng.random() < .5 else setattr(held, 'response', obj.response)
            held.raw_id, held.id, held.type = obj.raw_id, obj.id, obj.type
        c.kwargs = lambda: dict(kwargs(), credential=held)
        out, _ = run_auth(ctx, w, c)
        ctx.count('changed:' + ('accepted' if out.accepted else 'rejected'))


KINDS = {
    'making': (making, 8 * len(CLASSES), 80 * len(CLASSES)),
    'surviving': (surviving, 1200, 20000),
    'ceremonies': (ceremonies, 250, 4000),
    'current': (current, 300, 5000),
    'changed': (changed, 120, 2000),
}
REQUIRED = dict({'made': 1000, 'required': 300, 'ceremony:auth:accepted': 300, 'ceremony:auth:rejected': 200, 'ceremony:reg:accepted': 150, 'ceremony:reg:rejected': 60, 'stored': 500, 'current:options': 200, 'current:key': 200,
                 'changed:accepted': 100, 'changed:rejected': 60},
                **{'way:' + n: 800 for n in WAY_NAMES}, **{'class:' + c: 4 for c in CLASSES})
OPTIMIZED_WORKERS = (6,)
