"""C34: only keys whose curve and algorithm belong to their type are valid."""
import itertools

from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.parsers import parse_authenticator_data, parse_cose_key
from webauthn_rp.validators import validate

from wv import att, magic, sim
from wv.core import dump, require
from wv.keys import pick_key
from wv.refcbor import enc
from wv.sim import judge, rbytes, worker_world

RULE = ('one evaluation = one key object given to validate and judged by the registry of curves and algorithms (every class x curve x algorithm x way of naming them is enumerated), '
        'or one attested key inside authenticator data or a ceremony judged by it; non-trivial = distinct (class, curve, algorithm, form, other members) or distinct bytes')

CURVES = {'P_256': 'EC2', 'P_384': 'EC2', 'P_521': 'EC2', 'ED25519': 'OKP', 'ED448': 'OKP'}
ALGS = {'ES256': 'EC2', 'ES384': 'EC2', 'ES512': 'EC2', 'EDDSA': 'OKP'}
SIZES = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32, 'ED448': 57}
FORMS = ('Name', 'Value')
COSE = {'ES256': (-7, 'ES256'), 'ES384': (-35, 'ES384'), 'ES512': (-36, 'ES512'), 'EDDSA': (-8, 'EdDSA')}


def curve(name, form):
    return getattr(getattr(T.EC2Curve if CURVES[name] == 'EC2' else T.OKPCurve, form), name)


def fits(kind, crv, alg):
    return CURVES[crv] == kind and ALGS[alg] == kind


def material(rng, n):
    if magic.chance(rng):
        return magic.data(rng)
    r = rng.random()
    return b'' if r < .1 else b'\0' * n if r < .2 else b'\0' + rbytes(rng, n - 1) if r < .3 else b'\xff' * n if r < .35 else rbytes(rng, rng.choice([1, 31, 33, 48, 56, 57, 65, 66, 67, 200])) if r < .5 else rbytes(rng, n)


def optional(rng):
    ops = list(T.COSEKeyOperation.Value) + list(T.COSEKeyOperation.Name)
    return dict(kid=rng.choice([None, None, b'', b'\0', b'1', rbytes(rng, 16), rbytes(rng, 300)]), base_IV=rng.choice([None, None, b'', rbytes(rng, 8)]),
                key_ops=rng.choice([None, None, [], rng.sample(ops, 1), rng.sample(ops, 3), tuple(rng.sample(ops, 2)), ops]))


def made(rng, kind, crv, alg, forms, cls=None, **kw):
    kty, c, a = (getattr(getattr(T.COSEKeyType, forms[0]), kind), curve(crv, forms[1]), getattr(getattr(T.COSEAlgorithmIdentifier, forms[2]), alg))
    if kind == 'EC2':
        return (cls or T.EC2CredentialPublicKey)(kty=kty, crv=c, alg=a, x=material(rng, SIZES[crv]), y=material(rng, SIZES[crv]), **kw)
    return (cls or T.OKPCredentialPublicKey)(kty=kty, crv=c, alg=a, x=material(rng, SIZES[crv]), **kw)


class MyEC2(T.EC2CredentialPublicKey):
    pass


class MyOKP(T.OKPCredentialPublicKey):
    pass


def decide(ctx, key, good, label):
    before = dump(key)
    for _ in range(2):
        try:
            got = validate(key)
        except E.ValidationError as e:
            require(not good, 'a valid key was refused (%s): %r' % (label, e), key=before)
        else:
            require(good, 'a key whose curve or algorithm is of another type was found valid (%s)' % label, key=before)
            require(got is None, 'validate gave %r' % (got,))
    require(dump(key) == before, 'validate changed the key (%s)' % label)
    ctx.judged((label, before))
    ctx.count('validate:' + ('valid' if good else 'invalid'))


def direct(ctx, rng, index):
    """Every class, curve, algorithm and form; the other members vary."""
    keys = []
    for kind, crv, alg in itertools.product(('EC2', 'OKP'), CURVES, ALGS):
        for forms in itertools.product(FORMS, repeat=3):
            cls = None if rng.random() < .8 else {'EC2': MyEC2, 'OKP': MyOKP}[kind]
            key = made(rng, kind, crv, alg, forms, cls, **(optional(rng) if rng.random() < .7 else {}))
            label = '%s %s %s %s' % (kind, crv, alg, '/'.join(forms))
            decide(ctx, key, fits(kind, crv, alg), label)
            keys.append((key, kind, crv, alg))
    rng.shuffle(keys)
    # the same object again, after its members were changed: it is judged as it is now
    for key, kind, crv, alg in keys[:60]:
        crv2, alg2 = rng.choice([crv, rng.choice(list(CURVES))]), rng.choice(list(ALGS))
        key.crv, key.alg = curve(crv2, rng.choice(FORMS)), getattr(getattr(T.COSEAlgorithmIdentifier, rng.choice(FORMS)), alg2)
        decide(ctx, key, fits(kind, crv2, alg2), '%s %s %s changed from %s %s' % (kind, crv2, alg2, crv, alg))
        ctx.count('changed')


def mismatched(rng, key):
    """The COSE map of a key with an algorithm that is not of its type, and nothing else wrong."""
    m = key.members(**({} if rng.random() < .5 else dict(kid=rbytes(rng, 8))))
    alg = rng.choice([a for a in ALGS if ALGS[a] != ('EC2' if key.ec2 else 'OKP')])
    pairs = [(k, v) for k, v in (m.items() if isinstance(m, dict) else m)]
    return type(m)((k, rng.choice(COSE[alg]) if k in (3, 'alg') else v) for k, v in pairs), alg


def attested(ctx, rng, index):
    """Attested keys in authenticator data, whichever member the map has besides."""
    for _ in range(12):
        key = pick_key(rng)
        ad = sim.honest_ad(rng, 'example.com', rng.randrange(2 ** 32), rng.random() < .5, True, None, key)
        good = rng.random() < .4
        if not good:
            m, alg = mismatched(rng, key)
            cose = enc(m)
            try:
                parsed = parse_cose_key(cose)              # may be refused here already (C16)
            except E.WebAuthnRPError:
                parsed = None
            if parsed is not None:
                decide(ctx, parsed, False, 'parsed, %s with %s' % (key.curve, alg))
            ad.att = ad.att[:2] + (cose,)
        else:
            decide(ctx, parse_cose_key(ad.att[2]), True, 'parsed, %s with %s' % (key.curve, key.alg))
        raw = ad.encode()
        try:
            got = parse_authenticator_data(raw)
        except E.WebAuthnRPError as e:
            require(not good, 'authenticator data with a valid key was refused: %r' % (e,), data=raw.hex()[:600])
        else:
            require(good, 'authenticator data whose key has an algorithm of another type was accepted', data=raw.hex()[:600])
            require(got.attested_credential_data.credential_public_key.x == key.x, 'another key came out')
        ctx.judged(raw)
        ctx.count('attested:' + ('valid' if good else 'invalid'))


def ceremonies(ctx, rng, index):
    """Ceremonies in which nothing but the algorithm of the attested key is wrong."""
    w = worker_world(ctx, rng, creds=2)
    for i in range(10):
        reg = i % 2 == 0
        if reg:
            c, key = att.honest_reg(rng, w, None if i % 4 else 'none')
        else:
            e = rng.choice(w.creds)
            key = pick_key(rng)
            c = sim.honest_auth(rng, w, e)
            if not c.ad.flags & sim.AT:
                c.ad.flags |= sim.AT
                c.ad.att = (rbytes(rng, 16), rbytes(rng, 16), key.cose())
                c.seal(rng, e.key)
        entry = None if reg else e
        good = rng.random() < .3
        c.note = 'an attested key %s' % ('of its type' if good else 'whose algorithm is of another type')
        if not good:
            m, alg = mismatched(rng, key)
            c.ad.att = c.ad.att[:2] + (enc(m),)
            if reg:
                att.seal_reg(rng, c, key)
            else:
                c.seal(rng, e.key)
        out = sim.execute(w.backend, w.registrar, c)
        if good:
            reasons, unspec = c.reasons() if reg else c.reasons(w.registrar.store)
            judge(ctx, c, out, entry, reasons, unspec, ())
            if not reg and out.accepted:
                e.count = c.ad.count
        else:
            require(not out.accepted, 'a ceremony with %s was accepted' % c.note, case=c.describe())
            require(isinstance(out.exc, E.WebAuthnRPError), 'a foreign exception escaped: %r' % (out.exc,), case=c.describe())
            require(not [x for x in out.events if x[0].startswith('register')], 'a ceremony with %s was reported' % c.note, case=c.describe())
        ctx.judged((c.note, c.cd_bytes, c.ad_bytes))
        ctx.count('ceremony:%s:%s' % ('reg' if reg else 'auth', 'accepted' if out.accepted else 'rejected'))


KINDS = {'direct': (direct, 24, 600), 'attested': (attested, 120, 4000), 'ceremonies': (ceremonies, 80, 3000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'validate:valid': 500, 'validate:invalid': 3000, 'changed': 1000, 'attested:valid': 300, 'attested:invalid': 500, 'ceremony:reg:accepted': 60, 'ceremony:reg:rejected': 200, 'ceremony:auth:accepted': 40, 'ceremony:auth:rejected': 150}
