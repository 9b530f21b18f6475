"""C13: Android Key registrations are attested soundly."""
from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509.oid import ObjectIdentifier

from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.attesters import attest
from webauthn_rp.parsers import parse_attestation_object

from wv import att, magic, refder, refec, sim
from wv.core import require
from wv.keys import ALL_SUITES, COSE_ALG, SimKey, pick_key
from wv.props.c12 import flip
from wv.sim import near, rbytes, run_reg, sha256, worker_world

RULE = ('one evaluation = one android-key registration (through the backend and the attester directly) judged against an independent evaluation of signature, key equality '
        'and key description, the latter built by an independent DER encoder; non-trivial = distinct (deviation, attestation object)')


class Stmt:
    def __init__(self, rng, c, key):
        self.rng, self.c, self.key = rng, c, key
        self.h = sha256(c.cd_bytes)
        self.kd = att.honest_key_description(rng, self.h)
        self.cert_key = key            # SimKey under the first certificate, or None
        self.oid = att.KEY_DESCRIPTION_OID
        self.ext = None                # raw extension value; None: encode kd; False: no extension
        self.first = None              # raw DER overriding the first certificate
        self.look = att.look(rng)
        self.more = []
        if rng.random() < .3:
            self.more = [att.plain_cert(att.SimKeyPool.att(rng)) for _ in range(rng.choice([1, 2]))]
        self.empty = False
        self.alg = key.alg
        self.alg_wire = COSE_ALG[key.alg] if rng.random() < .7 else key.alg
        self.sig = key.sign(c.ad_bytes + self.h)

    def resign(self, data=None, key=None, alg=None):
        k = key or self.cert_key
        d = self.c.ad_bytes + sha256(self.c.cd_bytes) if data is None else data
        self.sig = k.sign(d, alg or (self.alg if self.alg in ('ES256', 'ES384', 'ES512') else 'ES256')) if k.ec2 else k.sign(d)

    def ok(self):
        c = self.c
        if self.empty or self.first is not None or self.ext is not None or self.oid != att.KEY_DESCRIPTION_OID or not isinstance(self.cert_key, SimKey):
            return False
        k = self.cert_key
        if (k.curve, k.x, k.y) != (self.key.curve, self.key.x, self.key.y):
            return False
        if k.ec2 and self.alg not in ('ES256', 'ES384', 'ES512'):
            return False
        return (k.valid(self.sig, c.ad_bytes + sha256(c.cd_bytes), self.alg if k.ec2 else None)
                and att.key_description_ok(self.kd, sha256(c.cd_bytes)))

    def put(self):
        c = self.c
        value = refder.key_description(self.kd) if self.ext is None else (None if self.ext is False else self.ext)
        first = self.first if self.first is not None else att.certificate(self.cert_key, value, oid=self.oid, look=self.look)
        x5c = [] if self.empty else [first] + self.more
        c.fmt, c.stmt = 'android-key', {'alg': self.alg_wire, 'sig': self.sig, 'x5c': x5c}
        c.trusted = [first]
        c.stmt_ok = self.ok()
        c.seal_object(self.rng)


# --- deviations -------------------------------------------------------------------
def other_pool_key(rng, s, suite=None):
    for _ in range(20):
        k = pick_key(rng, suite)
        if k.x != s.key.x:
            return k
    return SimKey('P-256', 'ES256', 31337)


def no_certificate(rng, s): s.empty = True
def extra_certificates(rng, s): s.more = [att.plain_cert(att.SimKeyPool.att(rng)) for _ in range(rng.choice([1, 2, 4]))]


def proper_chain(rng, s):
    """The first certificate is right, whatever the others are to it: issuers in any order, issued by it, copies of it, in part or twice."""
    s.look = dict(s.look, subject='leaf', issuer='ca')
    value = refder.key_description(s.kd)
    k = att.SimKeyPool.att(rng)
    certs = [att.certificate(k, subject='ca', issuer='root'), att.certificate(k, subject='root', issuer='root'), att.certificate(k, subject='below', issuer='leaf'), att.certificate(s.key, value, look=s.look),
             att.certificate(other_pool_key(rng, s), value, subject='below', issuer='leaf'), att.certificate(k, subject='leaf', issuer='leaf'), att.certificate(k, subject='leaf', issuer='below')]
    s.more = rng.choice([certs[:2], certs[1::-1], [certs[2]], certs[2:4], [certs[4]], [certs[5]], [certs[6], certs[2]], rng.sample(certs, 4)])


def chain_in_another_order(rng, s):
    """The certificate that would do is the leaf of the chain, but not the first."""
    value = refder.key_description(s.kd)
    k = att.SimKeyPool.att(rng)
    leaf = att.certificate(s.key, value, subject='leaf', issuer='ca')
    ca, root = att.certificate(k, subject='ca', issuer='root'), att.certificate(k, subject='root', issuer='root')
    s.first, s.more = rng.choice([(ca, [leaf]), (root, [ca, leaf]), (ca, [leaf, root]), (ca, [root, leaf]), (root, [leaf]), (root, [leaf, ca]), (att.certificate(k, rbytes(rng, 5), subject='ca', issuer='root'), [leaf])])


def right_certificate_second(rng, s):
    good = att.certificate(s.key, refder.key_description(s.kd))
    k = other_pool_key(rng, s)
    s.first = att.certificate(k, refder.key_description(s.kd)) if rng.random() < .5 else att.plain_cert(att.SimKeyPool.att(rng))
    s.more = [good]


def description_elsewhere(rng, s):
    """The certified key is right, but only another certificate of the chain carries the description."""
    value = refder.key_description(s.kd)
    s.ext = rng.choice([False, False, b'', refder.key_description(att.honest_key_description(rng, rbytes(rng, 32)))])
    holder = att.certificate(rng.choice([s.key, other_pool_key(rng, s), att.SimKeyPool.att(rng)]), value)
    s.more = [holder] if rng.random() < .6 else [att.plain_cert(att.SimKeyPool.att(rng)), holder]


def bad_description_elsewhere(rng, s):
    """The first certificate is right; what others of the chain describe does not matter."""
    kd = att.honest_key_description(rng, rbytes(rng, 32))
    kd['softwareEnforced']['allApplications'] = 1
    s.more = [att.certificate(rng.choice([s.key, att.SimKeyPool.att(rng)]), refder.key_description(kd)), att.certificate(att.SimKeyPool.att(rng), rng.choice([b'', b'x']))]
    rng.shuffle(s.more)


def other_key_certificate(rng, s):
    """Certificate and signature by another key: the credential key is not attested."""
    s.cert_key = other_pool_key(rng, s, (s.key.curve, s.key.alg) if rng.random() < .6 else None)
    s.alg = s.cert_key.alg
    s.alg_wire = COSE_ALG[s.alg]
    s.resign()


def other_signer(rng, s): s.resign(key=other_pool_key(rng, s, (s.key.curve, s.key.alg)), alg=s.key.alg if s.key.ec2 else None)


def attested_key_exchanged(rng, s):
    """The attested key is exchanged; the signature is made anew over the new authenticator data by the certified key."""
    k = other_pool_key(rng, s, (s.key.curve, s.key.alg))
    old = s.key
    a, cid, _ = s.c.ad.att
    s.key = k
    s.c.ad.att = (a, cid, k.cose())
    s.c.ad_bytes = s.c.ad.encode()
    s.resign(key=old, alg=old.alg if old.ec2 else None)


def negated_key(rng, s):
    if not s.key.ec2:
        return False
    old = s.key
    k = SimKey(old.curve, old.alg, refec.CURVES[old.curve]['n'] - old.secret - 1)
    a, cid, _ = s.c.ad.att
    s.key = k
    s.c.ad.att = (a, cid, k.cose())
    s.c.ad_bytes = s.c.ad.encode()
    s.resign(key=old, alg=old.alg)


def rsa_certificate(rng, s):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    priv, _ = att.rsa_cert()
    s.cert_key = None
    s.first = att.certificate(priv.public_key(), refder.key_description(s.kd))
    s.sig = priv.sign(s.c.ad_bytes + s.h, padding.PKCS1v15(), hashes.SHA256())


def garbage_certificate(rng, s):
    der = att.certificate(s.key, refder.key_description(s.kd))
    s.first = rng.choice([b'', b'\0', b'\x30\x00', der[:-1], der[1:], der[:len(der) // 2], rbytes(rng, 300)])


def sig_flip(rng, s): s.sig = flip(rng, s.sig)
def sig_trunc(rng, s): s.sig = s.sig[:rng.randrange(len(s.sig))]
def sig_empty(rng, s): s.sig = b''
def sig_extend(rng, s): s.sig += rbytes(rng, 3)


def sig_malleated(rng, s):
    if not s.key.ec2:
        return False
    s.sig = s.key.malleate(s.sig)


def statement_algorithm(rng, s):
    """Statement names another algorithm than the one used to sign."""
    if not s.key.ec2:
        return False
    s.alg = rng.choice([a for a in ('ES256', 'ES384', 'ES512', 'EdDSA') if a != s.key.alg])
    s.alg_wire = COSE_ALG[s.alg] if rng.random() < .5 else s.alg


def signed_with_statement_algorithm(rng, s):
    """Statement algorithm differs from the credential key's, and the signature uses the statement's."""
    if not s.key.ec2:
        return False
    s.alg = rng.choice([a for a in ('ES256', 'ES384', 'ES512') if a != s.key.alg])
    s.alg_wire = COSE_ALG[s.alg] if rng.random() < .5 else s.alg
    s.resign()


def other_message(rng, s):
    c, h = s.c, s.h
    ad = c.ad_bytes
    msgs = [ad, h, h + ad, ad + c.cd_bytes, ad + sha256(h), sha256(ad) + h, ad[:37] + h, ad[37:] + h, ad[:-1] + h, ad + h + b'\0', ad + h[:-1], b'', ad + sha256(c.expected_challenge),
            b'\0' + c.ad.rp_hash + h + c.ad.att[1] + b'\x04' + s.key.x + (s.key.y or b''), ad + bytes(32), ad + h[::-1], ad[1:] + h]
    s.resign(rng.choice(msgs))


def other_client_data(rng, s): s.c.cd_bytes += rng.choice([b' ', b'\n'])


def other_client_data_described(rng, s):
    """Client data changed after signing, key description made for the new one: only the signature is stale."""
    s.c.cd_bytes += b' '
    s.kd['attestationChallenge'] = sha256(s.c.cd_bytes)


def other_client_data_signed(rng, s):
    """Client data changed, signature made for the new one: only the challenge in the key description is stale."""
    s.c.cd_bytes += b' '
    s.resign()


def other_auth_data(rng, s):
    ad = s.c.ad
    r = rng.random()
    a, cid, k = ad.att
    if r < .3:
        ad.count = (ad.count + 1) % 2 ** 32
    elif r < .5:
        ad.flags ^= 8
    elif r < .7:
        ad.att = (flip(rng, a), cid, k)
    elif cid:
        ad.att = (a, flip(rng, cid), k)
    else:
        ad.flags ^= 2
    s.c.ad_bytes = ad.encode()


def challenge_other(rng, s):
    c, h = s.c, s.h
    s.kd['attestationChallenge'] = rng.choice([near(rng, h), b'', c.expected_challenge, c.cd_bytes, sha256(c.ad_bytes), sha256(h), h[:31], h + b'\0', bytes(32), sha256(c.expected_challenge),
                                               c.ad.rp_hash, h[::-1], sha256(c.ad_bytes + h)])


def challenge_in_unique_id(rng, s):
    s.kd['uniqueId'] = s.h
    s.kd['attestationChallenge'] = near(rng, s.h)


def all_apps_software(rng, s): s.kd['softwareEnforced']['allApplications'] = 1
def all_apps_tee(rng, s): s.kd['teeEnforced']['allApplications'] = 1


def all_apps_both(rng, s):
    all_apps_software(rng, s)
    all_apps_tee(rng, s)


def origin_other(rng, s): s.kd['teeEnforced']['origin'] = rng.choice([1, 2, 3, 4, 256, 2 ** 32, -1, magic.number(rng) or 5])
def origin_missing(rng, s): s.kd['teeEnforced'].pop('origin', None)


def origin_in_software(rng, s):
    s.kd['softwareEnforced']['origin'] = 0
    if rng.random() < .5:
        s.kd['teeEnforced'].pop('origin', None)
    else:
        s.kd['teeEnforced']['origin'] = rng.choice([1, 2])


def purpose_other(rng, s):
    purposes = rng.choice([[], [0], [3], [0, 1, 3], [1], [258], [-2], [20, 22], [0, 3, 5, 6], [512], [4], [5], [6], [7], [3, 7], [0, 1, 3, 4, 5, 6, 7, 8, 9, 10], [magic.number(rng)], [magic.number(rng), 3]])
    s.kd['teeEnforced']['purpose'] = [p for p in purposes if p not in (None, 2)]


def purpose_missing(rng, s): s.kd['teeEnforced'].pop('purpose', None)


def purpose_in_software(rng, s):
    s.kd['softwareEnforced']['purpose'] = [2, 3]
    if rng.random() < .5:
        s.kd['teeEnforced'].pop('purpose', None)
    else:
        s.kd['teeEnforced']['purpose'] = [3]


def lists_swapped(rng, s):
    s.kd['softwareEnforced'], s.kd['teeEnforced'] = s.kd['teeEnforced'], s.kd['softwareEnforced']


def tee_empty(rng, s): s.kd['teeEnforced'] = {}
def tee_minimal(rng, s): s.kd['teeEnforced'], s.kd['softwareEnforced'] = {'origin': 0, 'purpose': [2]}, {}


def tee_maximal(rng, s):
    full = {n: {'int': 7, 'null': 1, 'octets': b'z', 'set': [1, 2, 3], 'rot': (b'k' * 32, True, 0, b'h' * 32)}[t] for n, (_, t) in refder.AUTHORIZATION_LIST.items() if n != 'allApplications'}
    s.kd['teeEnforced'] = dict(full, origin=0)
    s.kd['softwareEnforced'] = dict(full)


def no_extension(rng, s): s.ext = False
def other_oid(rng, s): s.oid = ObjectIdentifier(rng.choice(['1.3.6.1.4.1.11129.2.1.18', '1.3.6.1.4.1.11129.2.1', '1.3.6.1.4.1.11129.2.1.17.1', '1.3.6.1.4.1.45724.1.1.4']))


def garbage_extension(rng, s):
    der = refder.key_description(s.kd)
    s.ext = rng.choice([b'', b'\0', b'\x05\x00', der[:-1], der[:20], b'\x30\x03\x02\x01\x03', rbytes(rng, 60), refder.seq(refder.integer(1)), b'\x31' + der[1:], refder.octets(der)])


DEVIATIONS = [(f.__name__, f) for f in (
    no_certificate, extra_certificates, proper_chain, chain_in_another_order, description_elsewhere, bad_description_elsewhere, right_certificate_second, other_key_certificate, other_signer, attested_key_exchanged, negated_key, rsa_certificate, garbage_certificate, sig_flip, sig_trunc,
    sig_empty, sig_extend, sig_malleated, statement_algorithm, signed_with_statement_algorithm, other_message, other_client_data, other_client_data_described, other_client_data_signed, other_auth_data,
    challenge_other, challenge_in_unique_id, all_apps_software, all_apps_tee, all_apps_both, origin_other, origin_missing, origin_in_software, purpose_other, purpose_missing, purpose_in_software,
    lists_swapped, tee_empty, tee_minimal, tee_maximal, no_extension, other_oid, garbage_extension)]
STAYS_CORRECT = ('extra_certificates', 'proper_chain', 'bad_description_elsewhere', 'sig_malleated', 'signed_with_statement_algorithm', 'tee_minimal', 'tee_maximal')
ASPECTS = None


def make(rng, w, dev, suite=None):
    key = pick_key(rng, suite)
    c = sim.honest_reg(rng, w, 'android-key', key)
    c.seal(rng)
    s = Stmt(rng, c, key)
    c.note = 'honest'
    if dev is not None:
        c.note = dev[0]
        if dev[1](rng, s) is False:
            c.note = 'honest'
    s.put()
    return c, s


def direct(ctx, c, s):
    att_obj, raw = parse_attestation_object(c.att_obj)
    try:
        res = attest(att_obj.att_stmt, att_obj, raw['authData'], sha256(c.cd_bytes))
    except Exception as e:  # noqa: how it fails is judged through the backend
        res = None
        ctx.count('direct-error:' + type(e).__name__)
    ctx.count('direct:' + ('accepted' if res else 'rejected'))
    ctx.judged(('direct', c.note, c.att_obj, c.cd_bytes))
    if res and not c.stmt_ok:
        ctx.violation('the attester accepted a statement that is not correct: ' + c.note, case=c.describe(), kd=repr(s.kd))
    elif not res and c.stmt_ok:
        ctx.violation('the attester rejected a correct statement: ' + c.note, case=c.describe(), kd=repr(s.kd))
    elif res:
        require(res[0] is T.AttestationType.BASIC, 'reported attestation type %r' % res[0])
        require([x.public_bytes(Encoding.DER) for x in res[1]] == c.trusted, 'reported trusted path is not the certificate')


def run(ctx, w, c, s):
    out, reasons = run_reg(ctx, w, c)
    ctx.count(('deviation:' if reasons else 'met:') + c.note)
    if out.accepted:
        ctx.count('attested:' + s.key.curve)
    if not out.library:
        ctx.violation('foreign exception %s' % out, case=c.describe())
    direct(ctx, c, s)
    if not ctx.samples:
        ctx.sample(note=c.note, unmet=sorted(reasons), outcome=str(out), kd=repr(s.kd)[:500])


def directed(ctx, rng, index):
    dev = ([None] + DEVIATIONS)[index % (len(DEVIATIONS) + 1)]
    w = worker_world(ctx, rng, creds=1)
    for suite in ALL_SUITES:
        c, s = make(rng, w, dev, suite)
        run(ctx, w, c, s)
        if rng.random() < .4:
            c, s = make(rng, w, None)
            run(ctx, w, c, s)


def product(ctx, rng, index):
    """origin x purpose x allApplications in both lists, enumerated."""
    origins, purposes = [None, 0, 1, 2], [None, [], [2], [3], [1, 2, 3]]
    w = worker_world(ctx, rng, creds=0)
    i = index
    to, i = origins[i % 4], i // 4
    tp, i = purposes[i % 5], i // 5
    for so in (None, 0, 1):
        for sp in (None, [2], [3]):
            for app in ((0, 0), (0, 1), (1, 0)):
                if app != (0, 0) and (so, sp) not in ((None, None), (0, [2])):
                    continue
                c, s = make(rng, w, None, ('P-256', 'ES256'))
                tee, sw = {}, {}
                for d, o, p, a in ((tee, to, tp, app[0]), (sw, so, sp, app[1])):
                    if o is not None: d['origin'] = o
                    if p is not None: d['purpose'] = p
                    if a: d['allApplications'] = 1
                s.kd['teeEnforced'], s.kd['softwareEnforced'] = tee, sw
                s.put()
                c.note = 'product'
                run(ctx, w, c, s)
    ctx.count('product-rows')


def stream(ctx, rng, index):
    w = worker_world(ctx, rng, creds=1)
    for _ in range(10):
        c, s = make(rng, w, rng.choice(DEVIATIONS) if rng.random() < .6 else None)
        run(ctx, w, c, s)


KINDS = {'directed': (directed, 2 * (len(DEVIATIONS) + 1), 24 * (len(DEVIATIONS) + 1)), 'product': (product, 20, 200), 'stream': (stream, 240, 10000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = dict({'direct:accepted': 300, 'direct:rejected': 500, 'product-rows': 20},
                **{'attested:%s' % c: 20 for c in ('P-256', 'P-384', 'P-521', 'Ed25519', 'Ed448')},
                **{'deviation:' + n: 5 for n, _ in DEVIATIONS if n not in STAYS_CORRECT}, **{'met:' + n: 5 for n in STAYS_CORRECT})
