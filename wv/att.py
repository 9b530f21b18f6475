"""Attestation statements built independently of the library (own DER/CBOR, certificates by cryptography)."""
import datetime
import random

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509.oid import NameOID, ObjectIdentifier

from wv import magic, refder
from wv.keys import SimKey, pick_key, COSE_ALG
from wv.sim import rbytes, sha256

KEY_DESCRIPTION_OID = ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17')
_issuer = SimKey('P-256', 'ES256', 987654321)
_other_issuer = SimKey('P-384', 'ES384', 987654322)
_cache = {}


NAMES = ['', 'wv attestation', 'leaf', 'ca', 'root', 'Android Keystore Key', 'Yubico U2F EE Serial 1234', 'x' * 64, '\u00e9\u4e2d', 'a,b=c+d']


def look(rng):
    """How a certificate may look without that meaning anything to the formats: names, dates, CA flags, usages, serial numbers, algorithm of the issuer."""
    if rng.random() < .5:
        return {}
    d = datetime.datetime
    out = {'subject': rng.choice(NAMES), 'issuer': rng.choice(NAMES), 'serial': rng.choice([1, 127, 128, 2 ** 63, 2 ** 159 - 1, rng.getrandbits(150) + 1]),
           'hash': rng.choice([hashes.SHA256, hashes.SHA256, hashes.SHA384, hashes.SHA512, hashes.SHA1]), 'signer': rng.randrange(2),
           'dates': rng.choice([(d(2020, 1, 1), d(2040, 1, 1)), (d(1990, 1, 1), d(1999, 12, 31, 23, 59, 59)), (d(2049, 12, 31), d(2050, 1, 1)), (d(1970, 1, 1), d(9999, 12, 31, 23, 59, 59)), (d(2060, 1, 1), d(2070, 1, 1))]),
           'reversed': rng.random() < .12, 'critical': rng.random() < .2, 'place': rng.randrange(3)}
    exts = []
    if rng.random() < .5:
        ca = rng.random() < .4
        exts.append((x509.BasicConstraints(ca, rng.choice([None, 0, 1]) if ca else None), rng.random() < .5))
    if rng.random() < .3:
        u = [rng.random() < .4 for _ in range(6)] + [False]
        exts.append((x509.KeyUsage(u[0], u[1], u[2], u[3], u[4], True, u[5], False, False), rng.random() < .5))
    if rng.random() < .2:
        exts.append((x509.ExtendedKeyUsage([rng.choice([x509.oid.ExtendedKeyUsageOID.SERVER_AUTH, ObjectIdentifier('1.2.3.4')])]), rng.random() < .3))
    if rng.random() < .2:
        exts.append((x509.SubjectAlternativeName([x509.DNSName('a.example')]), False))
    if rng.random() < .3:  # among them the FIDO transports and AAGUID
        exts.append((x509.UnrecognizedExtension(ObjectIdentifier(rng.choice(['1.3.6.1.4.1.45724.2.1.1', '1.3.6.1.4.1.45724.1.1.4', '1.2.3.4.5.6', '1.3.6.1.4.1.11129.2.1.18', '1.3.6.1.4.1.11129.2.1.16'])),
                                                rng.choice([b'', b'\5\0', b'\x03\x02\x04\x30', rbytes(rng, 18)])), rng.random() < .3))
    rng.shuffle(exts)
    out['exts'] = exts
    return out


def certificate(key, ext=None, serial=1, oid=KEY_DESCRIPTION_OID, look=(), **more):
    """DER certificate over `key` (SimKey or public key), optionally with the key description extension."""
    pub = getattr(key, "pub", key)
    o = dict({'subject': 'wv attestation', 'issuer': 'wv attestation', 'serial': serial, 'hash': hashes.SHA256, 'signer': 0, 'critical': False, 'place': 0, 'exts': (),
              'dates': (datetime.datetime(2020, 1, 1), datetime.datetime(2040, 1, 1))}, **dict(look, **more))
    name = lambda s: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s)] if s else [])  # noqa
    b = (x509.CertificateBuilder().subject_name(name(o['subject'])).issuer_name(name(o['issuer'])).public_key(pub).serial_number(o['serial'])
         .not_valid_before(o['dates'][0]).not_valid_after(o['dates'][1]))
    exts = [x for x in o['exts'] if getattr(x[0], 'oid', None) != oid]
    if ext is not None:
        exts.insert(min(len(exts), o['place']), (x509.UnrecognizedExtension(oid, ext), o['critical']))
    for e, critical in exts:
        b = b.add_extension(e, critical=critical)
    der = b.sign((_issuer, _other_issuer)[o['signer']].priv, o['hash'](), default_backend()).public_bytes(Encoding.DER)
    return swap_dates(der) if o.get('reversed') else der


def swap_dates(der):
    """The validity with its ends exchanged, which no builder agrees to make."""
    for i in range(len(der) - 40):
        if der[i] == 0x30 and der[i + 2] in (0x17, 0x18):
            a, n = i + 2, i + 2 + der[i + 1]
            b = a + 2 + der[a + 1]
            if b < n and der[b] in (0x17, 0x18) and b + 2 + der[b + 1] == n and der[b - 1:b] == b'Z' == der[n - 1:n]:
                return der[:a] + der[b:n] + der[a:b] + der[n:]
    raise AssertionError('no validity')


def odd_certificates(rng, key, ext=None):
    """[(what, DER)]: certificates that parse oddly, in part, or not at all."""
    good = certificate(key, ext)
    two = (x509.CertificateBuilder().subject_name(x509.Name([])).issuer_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'odd')])).public_key(getattr(key, 'pub', key))
           .serial_number(5).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1))
           .add_extension(x509.UnrecognizedExtension(KEY_DESCRIPTION_OID, ext or b'\x05\x00'), critical=False)
           .add_extension(x509.UnrecognizedExtension(ObjectIdentifier('1.3.6.1.4.1.11129.2.1.18'), ext or b'\x05\x00'), critical=True)
           .add_extension(x509.BasicConstraints(True, None), critical=False)
           .add_extension(x509.SubjectAlternativeName([x509.DNSName('a.example'), x509.RFC822Name('a@b.c')]), critical=False)
           .sign(_issuer.priv, hashes.SHA256(), default_backend()).public_bytes(Encoding.DER))
    h = bytes.fromhex
    out = [('two extensions', two), ('no extension', certificate(key))]

    def patch(what, der, a, b, count=1):
        if a in der:
            out.append((what, der.replace(a, b, count)))
    patch('the same extension twice', two, h('2b06010401d679020112'), h('2b06010401d679020111'))
    for v in (0, 1, 3, 4, 5, 0x7f, 0xff):
        patch('version %d' % v, good, h('a003020102'), h('a0030201') + bytes([v]))
    patch('unknown curve', good, h('2a8648ce3d030107'), h('2a8648ce3d030177'))
    patch('another curve', good, h('2a8648ce3d030107'), h('2a8648ce3d030101'))
    patch('unknown key type', good, h('2a8648ce3d0201'), h('2a8648ce3d0277'))
    patch('RSA key type', good, h('06072a8648ce3d0201'), h('06072a864886f70101'))
    patch('unknown signature algorithm', good, h('2a8648ce3d040302'), h('2a8648ce3d040377'))
    patch('differing signature algorithms', good, h('2a8648ce3d040302'), h('2a8648ce3d040303'))
    patch('compressed point mark', good, h('034200') + b'\x04', h('034200') + b'\x03')
    patch('hybrid point mark', good, h('034200') + b'\x04', h('034200') + b'\x06')
    patch('infinity', good, h('034200') + b'\x04', h('034200') + b'\x00')
    patch('unused bits', good, h('034200') + b'\x04', h('034203') + b'\x04')
    patch('bad time', good, b'200101000000Z', b'201301000000Z')
    patch('bad time zone', good, b'200101000000Z', b'200101000000+')
    patch('name not UTF-8', good, b'wv attestation', b'wv\xff\xfeattestati', 2)
    patch('name of another type', good, b'\x0c\x0ewv', b'\x1e\x0ewv', 2)
    patch('bad basic constraints', two, h('30030101ff'), h('3003010101'))
    patch('bad alternative name', two, b'\x82\x09a.ex', b'\x8f\x09a.ex')
    patch('bad alternative name type', two, b'\x82\x09a.ex', b'\xa3\x09a.ex')
    patch('name not ASCII', two, b'a.example', b'a.\xe9\xe9ampl')
    patch('indefinite length', good, good[:4], b'\x30\x80' + good[2:4])
    out += [('trailing byte', good + b'\0'), ('twice', good + good), ('truncated', good[:-1]), ('PEM', b'-----BEGIN CERTIFICATE-----\n'), ('nested', b'\x30\x80' * 4000), ('nested lengths', b'\x30\x84\x00\x00\xff\xff' * 3000)]
    return out


def plain_cert(key, serial=1):
    """A certificate without description; serial numbers above 3 also vary how it looks."""
    k = ('plain', key.curve, key.secret if key.ec2 else key.x, serial)
    if k not in _cache:
        _cache[k] = certificate(key, serial=serial, look=look(random.Random('%r' % (k,))) if serial > 3 else ())
    return _cache[k]


_rsa = []


def rsa_cert():
    if not _rsa:
        k = rsa.generate_private_key(65537, 1024, default_backend())
        _rsa.append((k, certificate(k.public_key())))
    return _rsa[0]


def u2f_data(c, cred_key, cd_hash=None):
    aaguid, cid, _ = c.ad.att
    return (b'\x00' + c.ad.rp_hash + (cd_hash if cd_hash is not None else sha256(c.cd_bytes)) + cid
            + b'\x04' + cred_key.x + cred_key.y)


def u2f_statement(rng, c, cred_key, att_key=None):
    """A correct fido-u2f statement for the sealed registration c."""
    att_key = att_key or SimKeyPool.att(rng)
    cert = plain_cert(att_key, serial=1 + rng.randrange(60))
    c.fmt = 'fido-u2f'
    c.stmt = {'sig': att_key.sign(u2f_data(c, cred_key), 'ES256'), 'x5c': [cert]}
    c.trusted = [cert]
    c.stmt_ok = True
    return c


class SimKeyPool:
    _keys = []

    @classmethod
    def att(cls, rng):
        if not cls._keys:
            cls._keys = [SimKey('P-256', 'ES256', 5550 + i) for i in range(4)]
        return rng.choice(cls._keys)


def honest_key_description(rng, cd_hash):
    def extra(names, p=.2):
        out = {}
        for n in names:
            if rng.random() < p:
                tag, typ = refder.AUTHORIZATION_LIST[n]
                out[n] = {'int': lambda: rng.choice([0, 1, 3, 256, 201907, 2 ** 40]),
                          'null': lambda: 1,
                          'octets': lambda: magic.data(rng) if magic.chance(rng) else rbytes(rng, rng.choice([0, 5, 130])),
                          'set': lambda: sorted(set(rng.choice([0, 1, 2, 3, 4, 200]) for _ in range(3))),
                          'rot': lambda: (rbytes(rng, 32), rng.random() < .5, rng.randrange(4), rbytes(rng, 32))}[typ]()
        return out
    free = [n for n in refder.AUTHORIZATION_LIST if n not in ('allApplications', 'origin', 'purpose')]
    tee = extra(free)
    tee['origin'] = 0
    tee['purpose'] = rng.choice([[2], [2, 3], [0, 1, 2, 3], [2, 2], [2, 300]])
    if magic.chance(rng):
        tee['purpose'] = [2, magic.number(rng, 0) or 0][::rng.choice([1, -1])]
    sw = extra(free)
    if rng.random() < .3:
        sw['origin'] = rng.choice([0, 1, 2, 3])
    if rng.random() < .3:
        sw['purpose'] = rng.choice([[], [0], [2], [3]])
    versions = [1, 2, 3, 4, 100, 200, 300, 400]
    return dict(attestationVersion=magic.number(rng, 0) or 0 if magic.chance(rng) else rng.choice(versions), attestationSecurityLevel=rng.choice([0, 1, 2]),
                keymasterVersion=magic.number(rng, 0) or 0 if magic.chance(rng) else rng.choice([0, 2, 3, 4, 41, 100, 200, 300, 400]), keymasterSecurityLevel=rng.choice([0, 1, 2]),
                attestationChallenge=cd_hash, uniqueId=rbytes(rng, rng.choice([0, 0, 16])),
                softwareEnforced=sw, teeEnforced=tee)


def key_description_ok(kd, cd_hash):
    """The requirements of the android-key format on the key description."""
    tee, sw = kd['teeEnforced'], kd['softwareEnforced']
    return (kd['attestationChallenge'] == cd_hash and 'allApplications' not in tee and 'allApplications' not in sw
            and tee.get('origin') == 0 and 2 in tee.get('purpose', ()))


def android_statement(rng, c, cred_key, kd=None):
    """A correct android-key statement for the sealed registration c."""
    cd_hash = sha256(c.cd_bytes)
    kd = kd or honest_key_description(rng, cd_hash)
    cert = certificate(cred_key, refder.key_description(kd), look=look(rng))
    x5c = [cert]
    if rng.random() < .4:
        x5c += [plain_cert(SimKeyPool.att(rng), 1 + rng.randrange(60)) for _ in range(rng.choice([1, 2]))]
    c.fmt = 'android-key'
    alg = cred_key.alg
    c.stmt = {'alg': COSE_ALG[alg] if rng.random() < .7 else alg, 'sig': cred_key.sign(c.ad_bytes + cd_hash), 'x5c': x5c}
    c.trusted = [cert]
    c.stmt_ok = True
    return c


def seal_reg(rng, c, cred_key):
    """Seal a registration including a correct statement for its format."""
    c.seal(rng)
    c.stmt, c.trusted, c.stmt_ok = {}, None, True
    if c.ad.flags & 64:
        if c.fmt == 'fido-u2f':
            u2f_statement(rng, c, cred_key)
        elif c.fmt == 'android-key':
            android_statement(rng, c, cred_key)
    return c.seal_object(rng)


def honest_reg(rng, world=None, fmt=None, key=None, user=None):
    """An honest registration in one of the supported formats; returns (case, credential key)."""
    from wv import sim
    if fmt is None:
        r = rng.random()
        fmt = 'none' if r < .7 else 'fido-u2f' if r < .87 else 'android-key'
    if key is None:
        key = pick_key(rng, ('P-256', 'ES256') if fmt == 'fido-u2f' else None)
    c = sim.honest_reg(rng, world, fmt, key, user)
    return seal_reg(rng, c, key), key
