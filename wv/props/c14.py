"""C14: the reported attestation never exceeds what was verified."""
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.attesters import attest
from webauthn_rp.parsers import parse_attestation_object

from wv import att, fuzz, sim
from wv.keys import COSE_ALG, pick_key
from wv.refcbor import Indef, Pairs, Raw
from wv.sim import AT, rbytes, run_reg, sha256, worker_world

RULE = ('one evaluation = one registration with a chosen format, statement shape and attested-data presence, in normal and assertion-free interpreters; accepted ones must report '
        'exactly what the reference says was verified; non-trivial = distinct (deviation, attestation object)')
VERIFIED = ('none', 'fido-u2f', 'android-key')
UNVERIFIED = ('packed', 'tpm', 'android-safetynet')
UNKNOWN = ['', 'None', 'NONE', ' none', 'none ', 'none\0', 'apple', 'compound', 'fido_u2f', 'FIDO_U2F', 'fido-u2f2', 'u2f', 'android-key\n', 'basic', 'self', '\u00f1one', 'attestation', 'non', 'nonee']
BAD_FMT = [None, 0, 1, b'none', ['none'], Pairs([('none', 1)]), True, 1.5, Raw(b'\xf7')]


def statement(rng, fmt, key):
    """A well-formed statement of a format that cannot be verified."""
    alg = COSE_ALG[key.alg] if rng.random() < .6 else key.alg
    sig = rbytes(rng, 70)
    x5c = [att.plain_cert(att.SimKeyPool.att(rng)) for _ in range(rng.choice([1, 1, 2]))]
    tail = rng.choice([{}, {'x5c': x5c}, {'ecdaaKeyId': rbytes(rng, 16)}])
    if fmt == 'packed':
        return dict({'alg': alg, 'sig': sig}, **tail)
    if fmt == 'tpm':
        return dict({'alg': alg, 'sig': sig, 'ver': '2.0', 'certInfo': rbytes(rng, 40), 'pubArea': rbytes(rng, 40)}, **tail)
    return {'ver': '14366018', 'response': b'eyJh.eyJi.c2ln'}


def genuine_self_packed(rng, c, key):
    """A packed self attestation whose signature really verifies: still not a format the library verifies."""
    return {'alg': COSE_ALG[key.alg], 'sig': key.sign(c.ad_bytes + sha256(c.cd_bytes))}


def make(rng, w, fmt, mode):
    key = pick_key(rng, ('P-256', 'ES256') if fmt == 'fido-u2f' else None)
    c = sim.honest_reg(rng, w, fmt if fmt in VERIFIED else 'none', key)
    att.seal_reg(rng, c, key)
    c.note = '%s/%s' % (fmt if isinstance(fmt, str) else repr(fmt), mode)
    if fmt not in VERIFIED:
        c.fmt, c.stmt_ok = fmt, False
        if fmt in UNVERIFIED:
            c.stmt = genuine_self_packed(rng, c, key) if fmt == 'packed' and rng.random() < .3 else statement(rng, fmt, key)
        else:
            r = rng.random()
            c.stmt = {} if r < .5 else statement(rng, rng.choice(UNVERIFIED), key)
    if mode == 'honest':
        pass
    elif mode == 'extra member':
        k = rng.choice(['x', 'sig', 'x5c', 'alg', 'ver', 'ecdaaKeyId', 'response', 'attestnCert', '', 0, b'sig', 1])
        if k in c.stmt:
            k = 'xx'
        c.stmt = Pairs(list(c.stmt.items()) + [(k, rng.choice([1, b'', 'x', True, [], {}]))])
        rng.shuffle(c.stmt)
        c.stmt_ok = False
    elif mode == 'missing member':
        if not c.stmt:
            return None
        d = dict(c.stmt)
        d.pop(rng.choice(list(d)))
        c.stmt, c.stmt_ok = d, False
    elif mode == 'mistyped member':
        if not c.stmt:
            return None
        d = dict(c.stmt)
        k = rng.choice(list(d))
        bad = {'alg': [b'ES256', 1.0, True, [], 'ES257', 'RS256', -257, 0, 7, 'es256', None],
               'sig': ['x', 1, [b'x'], True, {}, None], 'x5c': [b'x', 'x', {}, 1, ['x'], [1], [None], [[]], [d.get('x5c', [b''])[0], 'x'], None],
               'ver': [b'x', 1, None], 'response': ['x', 1], 'certInfo': ['x'], 'pubArea': [1], 'ecdaaKeyId': ['x']}[k]
        d[k] = rng.choice(bad)
        c.stmt, c.stmt_ok = d, False
    elif mode == 'statement not a map':
        c.stmt, c.stmt_ok = rng.choice([[], None, b'', '', 1, True, [Pairs(list(c.stmt.items()))]]), False
    elif mode == 'statement of another format':
        other = rng.choice([f for f in VERIFIED if f != c.fmt])
        if other == 'none' or c.fmt == 'none':
            donor = att.honest_reg(rng, w, rng.choice(['fido-u2f', 'android-key']), None if other != 'fido-u2f' else None)[0]
            c.stmt = donor.stmt if c.fmt == 'none' else {}
        elif other == 'fido-u2f':
            c.stmt = {k: v for k, v in c.stmt.items() if k != 'alg'}
        else:
            c.stmt = dict(c.stmt, alg=-7)
        c.stmt_ok = False
    elif mode == 'stale statement':
        if not c.stmt:
            return None
        c.ad.count = (c.ad.count + 1) % 2 ** 32
        c.cd_bytes += b' '
        c.ad_bytes = c.ad.encode()
        c.stmt_ok = False
    elif mode == 'no attested data':
        c.ad.flags &= ~AT
        c.ad_bytes = c.ad.encode()
    elif mode == 'object member missing':
        return c, key, 'drop'
    return c, key, None


MODES = ['honest', 'extra member', 'missing member', 'mistyped member', 'statement not a map', 'statement of another format', 'stale statement', 'no attested data', 'object member missing']


def run(ctx, rng, w, fmt, mode):
    made = make(rng, w, fmt, mode)
    if made is None:
        return
    c, key, special = made
    c.seal_object(rng)
    if special == 'drop':
        m = [('fmt', c.fmt), ('attStmt', c.stmt), ('authData', c.ad_bytes)]
        del m[rng.randrange(3)]
        c.att_obj = sim.refcbor.enc(Pairs(m))
        c.stmt_ok = False
    out, reasons = run_reg(ctx, w, c)
    if not out.library:
        ctx.violation('foreign exception %s' % out, case=c.describe())
    ctx.count(('rejected:' if reasons else 'verified:') + (c.note if fmt in VERIFIED + UNVERIFIED else 'unknown format/' + mode))
    if ctx.optimized:
        ctx.count('judged-without-assertions')
    if out.accepted:
        ctx.count('reported:%s' % c.fmt)
    if not ctx.samples:
        ctx.sample(note=c.note, unmet=sorted(reasons), outcome=str(out))


def directed(ctx, rng, index):
    fmts = list(VERIFIED + UNVERIFIED)
    fmt, mode = fmts[index % 6], MODES[index // 6 % len(MODES)]
    w = worker_world(ctx, rng, creds=0)
    for _ in range(10):
        run(ctx, rng, w, fmt, mode)
        run(ctx, rng, w, rng.choice(VERIFIED), 'honest')


def formats(ctx, rng, index):
    fmt = (UNKNOWN + BAD_FMT)[index % len(UNKNOWN + BAD_FMT)]
    w = worker_world(ctx, rng, creds=0)
    for _ in range(3):
        run(ctx, rng, w, fmt, 'honest')
        run(ctx, rng, w, fmt, 'no attested data')


def stream(ctx, rng, index):
    w = worker_world(ctx, rng, creds=0)
    for _ in range(10):
        fmt = rng.choice(VERIFIED * 2 + UNVERIFIED) if rng.random() < .9 else rng.choice(UNKNOWN + BAD_FMT)
        run(ctx, rng, w, fmt, rng.choice(MODES + ['honest'] * 3))


STATEMENTS = None


def attester(ctx, rng, index):
    """The attester alone on statement objects it has no verification for."""
    w = worker_world(ctx, rng, creds=0)
    c, key = att.honest_reg(rng, w, 'none')
    obj, raw = parse_attestation_object(c.att_obj)
    A = T.COSEAlgorithmIdentifier.Value.ES256
    sts = [T.PackedAttestationStatement(alg=A, sig=b'x'), T.PackedX509AttestationStatement(alg=A, sig=b'x', x5c=[b'x']), T.PackedECDAAAttestationStatement(alg=A, sig=b'x', ecdaa_key_id=b'x'),
           T.TPMAttestationStatement(alg=A, sig=b'x', ver='2.0', cert_info=b'x', pub_area=b'x'), T.TPMX509AttestationStatement(alg=A, sig=b'x', ver='2.0', cert_info=b'x', pub_area=b'x', x5c=[b'x']),
           T.TPMECDAAAttestationStatement(alg=A, sig=b'x', ver='2.0', cert_info=b'x', pub_area=b'x', ecdaa_key_id=b'x'), T.AndroidSafetyNetAttestationStatement(ver='1', response=b'x'), None, {}, object()]
    for st in sts:
        try:
            res = attest(st, obj, raw['authData'], sha256(c.cd_bytes))
        except E.WebAuthnRPError:
            ctx.count('attester-refused')
        else:
            ctx.violation('the attester reported %r for a statement it cannot verify: %s' % (res, type(st).__name__))
        ctx.judged(('attester', type(st).__name__, index))


N = len(UNKNOWN + BAD_FMT)
KINDS = {'directed': (directed, 54, 54 * 16), 'formats': (formats, 2 * N, 16 * N), 'attester': (attester, 8, 80), 'stream': (stream, 320, 14000)}
OPTIMIZED_WORKERS = (1, 3, 5, 7)
REQUIRED = dict({'judged-without-assertions': 500, 'attester-refused': 80}, **{'reported:%s' % f: 100 for f in VERIFIED},
                **{'rejected:%s/%s' % (f, m): 5 for f in UNVERIFIED for m in ('honest', 'no attested data')}, **{'rejected:%s/no attested data' % f: 5 for f in VERIFIED},
                **{'rejected:unknown format/honest': 50})
