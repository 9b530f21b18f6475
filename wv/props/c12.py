"""C12: FIDO U2F registrations are attested soundly."""
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature, encode_dss_signature
from cryptography.hazmat.primitives.serialization import Encoding

from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.attesters import attest
from webauthn_rp.parsers import parse_attestation_object

from cryptography.hazmat.backends import default_backend

from wv import att, fuzz, refec, sim
from wv.core import require
from wv.keys import SimKey, pick_key
from wv.sim import near, rbytes, run_reg, sha256, worker_world

RULE = ('one evaluation = one fido-u2f registration (through the backend and the attester directly) judged against an independent evaluation of certificate count, '
        'key types and signature over the specified bytes; non-trivial = distinct (deviation, attestation object)')

_other = {}


def att_key(kind, i=0):
    """Attestation keys of the wrong and right kinds."""
    k = (kind, i)
    if k not in _other:
        alg = 'ES256' if kind.startswith('P') else 'EdDSA'
        _other[k] = SimKey(kind, alg, 777000 + i)
    return _other[k]


def flip(rng, b):
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


class Stmt:
    """A statement under construction: certificates with what the harness knows about them, and the signature."""

    def __init__(self, rng, c, key):
        self.rng, self.c, self.key = rng, c, key
        self.att = att.SimKeyPool.att(rng)
        self.certs = [(att.plain_cert(self.att, 1 + rng.randrange(60)), self.att)]     # (der, SimKey or None)
        self.data = att.u2f_data(c, key) if key.ec2 else b'\0' + c.ad.rp_hash + sha256(c.cd_bytes) + c.ad.att[1] + b'\x04' + key.x
        self.sig = self.att.sign(self.data, 'ES256')

    def resign(self, data=None, key=None, alg='ES256'):
        k = key or self.att
        d = self.data if data is None else data
        self.sig = k.sign(d, alg) if k.ec2 else k.sign(d)

    def ok(self):
        if len(self.certs) != 1 or not self.key.ec2 or self.key.curve != 'P-256':
            return False
        k = self.certs[0][1]
        return (isinstance(k, SimKey) and k.curve == 'P-256'
                and k.valid(self.sig, att.u2f_data(self.c, self.key), 'ES256'))

    def put(self):
        c = self.c
        c.fmt, c.stmt = 'fido-u2f', {'sig': self.sig, 'x5c': [d for d, _ in self.certs]}
        c.trusted = [self.certs[0][0]] if self.certs else None
        c.stmt_ok = self.ok()
        c.seal_object(self.rng)


# --- deviations: fn(rng, s) -----------------------------------------------------
def no_certificate(rng, s): s.certs = []
def two_certificates(rng, s): s.certs = s.certs + [(att.plain_cert(att_key('P-256', 1)), att_key('P-256', 1))]
def same_certificate_twice(rng, s): s.certs = s.certs * rng.choice([2, 3, 5])
def certificate_second(rng, s): s.certs = [(att.plain_cert(att_key('P-256', 2)), att_key('P-256', 2))] + s.certs


def other_curve_certificate(rng, s):
    k = att_key(rng.choice(['P-384', 'P-521']))
    s.certs = [(att.plain_cert(k), k)]
    s.resign(key=k)


def other_curve_other_hash(rng, s):
    kind, alg = rng.choice([('P-384', 'ES384'), ('P-521', 'ES512'), ('P-384', 'ES256')])
    k = att_key(kind)
    s.certs = [(att.plain_cert(k), k)]
    s.resign(key=k, alg=alg)


class _Foreign:
    curve = secret = None
    ec2 = True


def foreign_curve_certificate(rng, s):
    """A certificate key on a curve the property does not allow, most of them with coordinates as long as those of P-256."""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    curve = rng.choice([ec.SECP256K1, ec.SECP256K1, ec.BrainpoolP256R1, ec.BrainpoolP256R1, ec.SECP224R1, ec.SECP192R1, ec.BrainpoolP384R1, ec.SECT233R1, ec.SECT283K1])
    if curve not in _other:
        k = _Foreign()
        k.curve, k.secret = curve.name, 778899
        k.priv = ec.derive_private_key(k.secret, curve(), default_backend())
        k.pub = k.priv.public_key()
        _other[curve] = k, att.plain_cert(k)
    k, der = _other[curve]
    s.certs = [(der, None)]
    s.sig = k.priv.sign(s.data, ec.ECDSA(hashes.SHA256()))


def eddsa_certificate(rng, s):
    k = att_key(rng.choice(['Ed25519', 'Ed448']))
    s.certs = [(att.plain_cert(k), k)]
    s.resign(key=k)


def rsa_certificate(rng, s):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    priv, der = att.rsa_cert()
    s.certs = [(der, None)]
    s.sig = priv.sign(s.data, padding.PKCS1v15(), hashes.SHA256())


def garbage_certificate(rng, s):
    der = s.certs[0][0]
    s.certs = [(rng.choice([b'', b'\0', b'\x30\x00', der[:-1], der[1:], der[:len(der) // 2], rbytes(rng, 300)]), None)]


def unrelated_certificate(rng, s):
    k = att_key('P-256', 3)
    s.certs = [(att.plain_cert(k), k)]


def self_certificate_wrong_signer(rng, s):
    """Certificate over the credential key itself, signature by the attestation key."""
    if s.key.curve != 'P-256':
        return False
    s.certs = [(att.certificate(s.key), s.key)]


def self_attestation(rng, s):
    """Certificate over the credential key itself, and signed by it: satisfies everything stated."""
    if s.key.curve != 'P-256':
        return False
    s.certs = [(att.certificate(s.key), s.key)]
    s.resign(key=s.key)


def signed_by_credential_key(rng, s):
    if s.key.curve != 'P-256':
        return False
    s.resign(key=s.key)


def sig_flip(rng, s): s.sig = flip(rng, s.sig)
def sig_trunc(rng, s): s.sig = s.sig[:rng.randrange(len(s.sig))]
def sig_extend(rng, s): s.sig = s.sig + rbytes(rng, rng.choice([1, 4]))
def sig_empty(rng, s): s.sig = b''
def sig_random(rng, s): s.sig = rbytes(rng, 70)
def sig_other_hash(rng, s): s.resign(alg=rng.choice(['ES384', 'ES512']))
def sig_malleated(rng, s): s.sig = s.att.malleate(s.sig)


def sig_numbers(rng, s):
    r, x = decode_dss_signature(s.sig)
    n = refec.CURVES['P-256']['n']
    s.sig = rng.choice([encode_dss_signature(*rng.choice([(x, r), (0, 0), (0, x), (r, 0), (1, 1), (r, x + n)])), r.to_bytes(32, 'big') + x.to_bytes(32, 'big')])


def parts(s):
    return [b'\0', s.c.ad.rp_hash, sha256(s.c.cd_bytes), s.c.ad.att[1], b'\x04', s.key.x, s.key.y or b'']


def component_changed(rng, s):
    """The signature covers the data with exactly one component changed."""
    p = parts(s)
    i = rng.randrange(7)
    p[i] = flip(rng, p[i]) if p[i] and rng.random() < .7 else near(rng, p[i])
    s.resign(b''.join(p))


def component_missing(rng, s):
    p = parts(s)
    del p[rng.randrange(7)]
    s.resign(b''.join(p))


def component_moved(rng, s):
    p = parts(s)
    i, j = rng.sample(range(7), 2)
    p[i], p[j] = p[j], p[i]
    s.resign(b''.join(p))


def component_extra(rng, s):
    p = parts(s)
    p.insert(rng.randrange(8), rng.choice([b'\0', rbytes(rng, 1), len(p[3]).to_bytes(2, 'big'), s.c.ad_bytes[33:37], s.c.ad.att[0], s.c.ad.att[2]]))
    s.resign(b''.join(p))


def other_messages(rng, s):
    c, h = s.c, sha256(s.c.cd_bytes)
    cid = c.ad.att[1]
    pt = b'\x04' + s.key.x + (s.key.y or b'')
    comp = (b'\x02' if not (s.key.y or b'\0')[-1] & 1 else b'\x03') + s.key.x
    msgs = [c.ad_bytes + h, h + c.ad_bytes, c.ad_bytes, h, b'\0' + c.ad.rp_hash + c.cd_bytes + cid + pt, b'\0' + c.ad.rp_hash + h + cid + comp, b'\0' + c.ad.rp_hash + h + cid + pt[1:],
            b'\x05' + c.ad.rp_hash + h + cid + pt, b'\x01' + c.ad.rp_hash + h + cid + pt, b'\0' + sha256(c.ad.rp_hash) + h + cid + pt, b'\0' + c.ad.rp_hash + sha256(h) + cid + pt,
            b'\0' + c.ad.rp_hash + h + sha256(cid) + pt, b'\0' + c.ad.rp_hash + h + cid + b'\x04' + s.key.x.lstrip(b'\0') + (s.key.y or b'').lstrip(b'\0') + b'\0', b'\0' + c.ad.rp_hash + h + cid + c.ad.att[2],
            b'\0' + sha256(c.cd_origin.encode()) + h + cid + pt, b'\0' + c.ad.rp_hash + sha256(c.expected_challenge) + cid + pt, b'', b'\0' + c.ad.rp_hash + h + cid + pt + b'\0', s.data[:-1], s.data[1:]]
    s.resign(rng.choice(msgs))


def other_client_data(rng, s):
    """Sent client data is not the signed one (same JSON value)."""
    s.c.cd_bytes = s.c.cd_bytes + rng.choice([b' ', b'\n', b'\t'])


def other_attested_data(rng, s):
    """Sent credential ID or AAGUID differ from what was signed; the AAGUID and counter are not covered."""
    c = s.c
    a, cid, k = c.ad.att
    r = rng.random()
    if r < .4 and cid:
        c.ad.att = (a, flip(rng, cid), k)
    elif r < .6:
        c.ad.att = (a, near(rng, cid)[:1023], k)
    elif r < .8:
        c.ad.att = (rbytes(rng, 16), cid, k)
    else:
        c.ad.count = rng.randrange(2 ** 32)
    c.ad_bytes = c.ad.encode()


def other_attested_key(rng, s):
    """The attested key is exchanged for another P-256 key after signing."""
    k = pick_key(rng, ('P-256', 'ES256'))
    if k.x == s.key.x:
        return False
    a, cid, _ = s.c.ad.att
    s.key = k
    s.c.ad.att = (a, cid, k.cose())
    s.c.ad_bytes = s.c.ad.encode()


def negated_key(rng, s):
    """Exchanged for the point with the same x and the other y."""
    if s.key.curve != 'P-256':
        return False
    n = refec.CURVES['P-256']['n']
    k = SimKey('P-256', 'ES256', n - s.key.secret - 1)
    a, cid, _ = s.c.ad.att
    require(k.x == s.key.x and k.y != s.key.y, 'harness: negation')
    s.key = k
    s.c.ad.att = (a, cid, k.cose())
    s.c.ad_bytes = s.c.ad.encode()


DEVIATIONS = [(f.__name__, f) for f in (
    no_certificate, two_certificates, same_certificate_twice, certificate_second, other_curve_certificate, other_curve_other_hash, foreign_curve_certificate, foreign_curve_certificate, eddsa_certificate, rsa_certificate, garbage_certificate,
    unrelated_certificate, self_certificate_wrong_signer, self_attestation, signed_by_credential_key, sig_flip, sig_trunc, sig_extend, sig_empty, sig_random, sig_other_hash, sig_malleated, sig_numbers,
    component_changed, component_missing, component_moved, component_extra, other_messages, other_client_data, other_attested_data, other_attested_key, negated_key)]
KEYS = [('P-256', 'ES256')] * 7 + [('P-384', 'ES384'), ('P-521', 'ES512'), ('P-384', 'ES256'), ('Ed25519', 'EdDSA'), ('Ed448', 'EdDSA')]


def make(rng, w, dev, suite=None):
    key = pick_key(rng, suite or rng.choice(KEYS))
    c = sim.honest_reg(rng, w, 'fido-u2f', key)
    c.seal(rng)
    s = Stmt(rng, c, key)
    c.note = 'honest' if key.curve == 'P-256' else 'credential key ' + key.curve
    if dev is not None:
        c.note = dev[0]
        if dev[1](rng, s) is False:
            c.note = 'honest'
    s.put()
    return c, s


def direct(ctx, c, s):
    """The attester alone, on the library's own parse of the object."""
    att_obj, raw = parse_attestation_object(c.att_obj)
    try:
        res = attest(att_obj.att_stmt, att_obj, raw['authData'], sha256(c.cd_bytes))
    except E.WebAuthnRPError:
        res = None
    ctx.count('direct:' + ('accepted' if res else 'rejected'))
    ctx.judged(('direct', c.note, c.att_obj, c.cd_bytes))
    if res and not c.stmt_ok:
        ctx.violation('the attester accepted a statement that is not correct: ' + c.note, case=c.describe())
    elif not res and c.stmt_ok:
        ctx.violation('the attester rejected a correct statement: ' + c.note, case=c.describe())
    elif res:
        t, path = res
        require(t is T.AttestationType.BASIC, 'reported attestation type %r' % t)
        require([x.public_bytes(Encoding.DER) for x in path] == c.trusted, 'reported trusted path is not the certificate')


def run(ctx, w, c, s):
    c.seal_object()
    out, reasons = run_reg(ctx, w, c)
    ctx.count(('deviation:' if reasons else 'met:') + c.note)
    if out.accepted and c.fmt == 'fido-u2f':
        ctx.count('attested')
    if not out.library:
        ctx.violation('foreign exception %s' % out, case=c.describe())
    direct(ctx, c, s)
    if not ctx.samples:
        ctx.sample(note=c.note, unmet=sorted(reasons), outcome=str(out))


def directed(ctx, rng, index):
    dev = ([None] + DEVIATIONS)[index % (len(DEVIATIONS) + 1)]
    w = worker_world(ctx, rng, creds=1)
    for _ in range(8):
        c, s = make(rng, w, dev, ('P-256', 'ES256'))
        run(ctx, w, c, s)
        c, s = make(rng, w, None, rng.choice(KEYS))     # interleaved honest or wrong-key-type ones
        run(ctx, w, c, s)


def stream(ctx, rng, index):
    w = worker_world(ctx, rng, creds=1)
    for _ in range(10):
        c, s = make(rng, w, rng.choice(DEVIATIONS) if rng.random() < .6 else None)
        run(ctx, w, c, s)


def positions(ctx, rng, index):
    """A one-bit deviation at every byte of the signed data."""
    w = worker_world(ctx, rng, creds=0)
    for _ in range(3):
        c, s = make(rng, w, None, ('P-256', 'ES256'))
        n = len(s.data)
        for i in range(index % 8, n, 8):
            s.resign(s.data[:i] + bytes([s.data[i] ^ (1 << rng.randrange(8))]) + s.data[i + 1:])
            s.put()
            c.note = 'signed byte %s flipped' % ('in head' if i < 65 else 'in tail')
            run(ctx, w, c, s)
            ctx.count('signed-byte-positions')


KINDS = {'directed': (directed, len(DEVIATIONS) + 1, 16 * (len(DEVIATIONS) + 1)), 'positions': (positions, 8, 320), 'stream': (stream, 400, 16000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = dict({'attested': 300, 'direct:accepted': 300, 'direct:rejected': 500, 'signed-byte-positions': 200},
                **{'deviation:' + n: 4 for n, _ in DEVIATIONS if n not in ('sig_malleated', 'self_attestation')})
