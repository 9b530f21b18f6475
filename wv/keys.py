"""Simulated authenticator keys, created from seeded randomness, with independent COSE encoding."""
import hashlib

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature, encode_dss_signature
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.exceptions import InvalidSignature

from wv import refcbor, refec

CURVE_CLS = {'P-256': ec.SECP256R1, 'P-384': ec.SECP384R1, 'P-521': ec.SECP521R1}
HASH_CLS = {'ES256': hashes.SHA256, 'ES384': hashes.SHA384, 'ES512': hashes.SHA512}
# IANA COSE registries
COSE_CRV = {'P-256': 1, 'P-384': 2, 'P-521': 3, 'Ed25519': 6, 'Ed448': 7}
COSE_ALG = {'ES256': -7, 'ES384': -35, 'ES512': -36, 'EdDSA': -8}
COSE_KTY = {'OKP': 1, 'EC2': 2}
COSE_OPS = {'sign': 1, 'verify': 2, 'encrypt': 3, 'decrypt': 4, 'wrap key': 5, 'unwrap key': 6,
            'derive key': 7, 'derive bits': 8, 'MAC create': 9, 'MAC verify': 10}
COORD = {'P-256': 32, 'P-384': 48, 'P-521': 66, 'Ed25519': 32, 'Ed448': 57}
# secrets (found by search) whose public coordinates start or end with zero bytes (one or two), 0xff, white space or '='
EDGE = {
    'P-256': [20, 42, 49, 63, 81, 96, 103, 116, 131, 144, 154, 171, 272, 292, 315, 322, 375, 378, 401, 443, 456, 507, 551, 566, 2375, 40392, 49349,
              53266, 55212, 57250, 61551, 65525, 112755, 116172, 134046, 203785],
    'P-384': [5, 10, 41, 42, 48, 60, 100, 104, 140, 154, 168, 175, 190, 196, 233, 263, 350, 357, 602, 626, 733, 791, 830, 1068, 6393, 10183, 14970,
              17145, 35444],
    'P-521': [0, 1, 3, 9, 22, 57, 66, 72, 118, 210, 212, 227, 272, 350, 370, 457, 967, 9998],
    'Ed25519': [2, 35, 42, 67, 113, 171, 378, 431, 463, 488, 511, 1233, 73457, 75756, 146647, 250011],
    'Ed448': [4, 5, 147, 166, 213, 272, 328, 375, 477, 660],
}
SUITES = [('P-256', 'ES256')] * 6 + [('P-256', 'ES384'), ('P-256', 'ES512'), ('P-384', 'ES384'), ('P-384', 'ES256'),
          ('P-384', 'ES512'), ('P-521', 'ES512'), ('P-521', 'ES256'), ('P-521', 'ES384'),
          ('Ed25519', 'EdDSA'), ('Ed25519', 'EdDSA'), ('Ed448', 'EdDSA')]
ALL_SUITES = sorted(set(SUITES))


class SimKey:
    def __init__(self, curve, alg, secret):
        self.curve, self.alg = curve, alg
        self.ec2 = curve in CURVE_CLS
        if self.ec2:
            n = refec.CURVES[curve]['n']
            self.secret = secret % (n - 1) + 1
            self.priv = ec.derive_private_key(self.secret, CURVE_CLS[curve](), default_backend())
            self.pub = self.priv.public_key()
            nums = self.pub.public_numbers()
            self.x = nums.x.to_bytes(COORD[curve], 'big')
            self.y = nums.y.to_bytes(COORD[curve], 'big')
        else:
            size = COORD[curve]
            raw = hashlib.shake_256(b'%d' % secret).digest(size)
            cls = ed25519.Ed25519PrivateKey if curve == 'Ed25519' else ed448.Ed448PrivateKey
            self.priv = cls.from_private_bytes(raw)
            self.pub = self.priv.public_key()
            self.x = self.pub.public_bytes(Encoding.Raw, PublicFormat.Raw)
            self.y = None

    def sign(self, data, alg=None):
        if self.ec2:
            return self.priv.sign(data, ec.ECDSA(HASH_CLS[alg or self.alg]()))
        return self.priv.sign(data)

    def valid(self, sig, data, alg=None):
        """The oracle's signature check: key material held by the harness, no library code involved."""
        try:
            if self.ec2:
                self.pub.verify(sig, data, ec.ECDSA(HASH_CLS[alg or self.alg]()))
            else:
                self.pub.verify(sig, data)
            return True
        except InvalidSignature:
            return False

    def members(self, form='int', kid=None, key_ops=None, base_iv=None):
        """COSE map members as an insertion-ordered dict. form: 'int' or 'str' identifiers."""
        kty = 'EC2' if self.ec2 else 'OKP'
        d = {1: COSE_KTY[kty] if form == 'int' else kty}
        if kid is not None:
            d[2] = kid
        d[3] = COSE_ALG[self.alg] if form == 'int' else self.alg
        if key_ops is not None:
            d[4] = [COSE_OPS[o] if form == 'int' else o for o in key_ops]
        if base_iv is not None:
            d[5] = base_iv
        d[-1] = COSE_CRV[self.curve] if form == 'int' else self.curve
        d[-2] = self.x
        if self.ec2:
            d[-3] = self.y
        return d

    def cose(self, **kw):
        return refcbor.enc(self.members(**kw))

    def negated(self):
        """The EC key with the same x and the other y."""
        if not hasattr(self, '_negated'):
            self._negated = SimKey(self.curve, self.alg, refec.CURVES[self.curve]['n'] - self.secret - 1)
        return self._negated

    def malleate(self, sig):
        """Another valid ECDSA signature: (r, n - s)."""
        r, s = decode_dss_signature(sig)
        return encode_dss_signature(r, refec.CURVES[self.curve]['n'] - s)

    def library_key(self, form='Value', **kw):
        """The library's own key object, through its public constructors."""
        from webauthn_rp import types as t
        f = lambda container: getattr(container, form)
        kty = getattr(f(t.COSEKeyType), 'EC2' if self.ec2 else 'OKP')
        alg = getattr(f(t.COSEAlgorithmIdentifier), self.alg.upper())
        crv = getattr(f(t.EC2Curve if self.ec2 else t.OKPCurve), self.curve.replace('-', '_').upper())
        if self.ec2:
            return t.EC2CredentialPublicKey(kty=kty, alg=alg, crv=crv, x=self.x, y=self.y, **kw)
        return t.OKPCredentialPublicKey(kty=kty, alg=alg, crv=crv, x=self.x, **kw)

    def __repr__(self):
        return 'SimKey(%s,%s,x=%s)' % (self.curve, self.alg, self.x.hex()[:16])


_pool = {}


def pick_key(rng, suite=None):
    """A key from a bounded pool (deriving EC keys is the slow part), occasionally with special coordinates."""
    curve, alg = suite or rng.choice(SUITES)
    if rng.random() < 0.25:
        secret = rng.choice(EDGE[curve])
    else:
        secret = 1000003 * rng.randrange(1, 40) ** 9 + 17
    k = (curve, alg, secret)
    if k not in _pool:
        _pool[k] = SimKey(curve, alg, secret)
    return _pool[k]
