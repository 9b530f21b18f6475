"""C01: authentication requires a valid signature over the exact received bytes."""
import base64
import hashlib
import json
import zlib

from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature, encode_dss_signature

from wv import magic, refcbor, refec, sim
from wv.keys import ALL_SUITES, SimKey, pick_key
from wv.sim import Entry, honest_auth, b64u, near, rbytes, run_auth, sha256, worker_world
from wv.stream import auth_episode

RULE = ('one evaluation = one assertion handled by the real backend and judged against an independent signature check over the '
        'received bytes; non-trivial = distinct (deviation, client data, authenticator data, signature, credential)')


def flip(rng, b):
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def sig_flip(rng, w, c, e): c.signature = flip(rng, c.signature)
def sig_trunc(rng, w, c, e): c.signature = c.signature[:rng.randrange(len(c.signature))]
def sig_empty(rng, w, c, e): c.signature = b''
def sig_extend(rng, w, c, e): c.signature = c.signature + rbytes(rng, rng.choice([1, 2, 64]))
def sig_random(rng, w, c, e): c.signature = rbytes(rng, len(c.signature))
def sig_zero(rng, w, c, e): c.signature = bytes(len(c.signature))


def sig_der_numbers(rng, w, c, e):
    if not e.key.ec2:
        n = len(c.signature) // 2
        c.signature = rng.choice([bytes(n) + c.signature[n:], c.signature[:n] + bytes(n), c.signature[n:] + c.signature[:n],
                                  b'\x01' + bytes(2 * n - 1)])
        return
    r, s = decode_dss_signature(c.signature)
    n = refec.CURVES[e.key.curve]['n']
    c.signature = encode_dss_signature(*rng.choice([(s, r), (0, 0), (0, s), (r, 0), (1, 1), (r, s + n), (r + n, s), (n, n), (r, n), (n - r, s)]))


def sig_malleated(rng, w, c, e):
    if not e.key.ec2:
        return False
    c.signature = e.key.malleate(c.signature)


def sig_encoded(rng, w, c, e):
    """The valid signature written in some other way."""
    s = c.signature
    n = (refec.CURVES[e.key.curve]['p'].bit_length() + 7) // 8 if e.key.ec2 else len(s) // 2
    parts = list(decode_dss_signature(s)) if e.key.ec2 else [int.from_bytes(s[:n], 'big'), int.from_bytes(s[n:], 'big')]
    raw = b''.join(x.to_bytes(n, 'big') for x in parts)
    forms = [base64.b64encode(s), base64.urlsafe_b64encode(s), b64u(s).encode(), s.hex().encode(), s.hex().upper().encode(), base64.b32encode(s), base64.a85encode(s), base64.b64encode(base64.b64encode(s)), base64.encodebytes(s),
             refcbor.enc(s), refcbor.enc([s]), b'\x04' + der_length(len(s)) + s, b'\x03' + der_length(len(s) + 1) + b'\0' + s, b'\x30' + der_length(len(s)) + s, json.dumps(b64u(s)).encode(), s[::-1], s + s, b'\0' + s, s + b'\0', s + b'\n', b' ' + s,
             len(s).to_bytes(2, 'big') + s, len(s).to_bytes(4, 'big') + s, s.decode('latin-1').encode('utf-8'), s.decode('latin-1').encode('utf-16-le'), zlib.compress(s), encode_dss_signature(*parts), raw, raw[n:] + raw[:n], raw[:n][::-1] + raw[n:][::-1],
             b'\0' + raw, b''.join(x.to_bytes(n + 1, 'big') for x in parts), refcbor.enc(parts), b'0x' + s.hex().encode(), repr(s).encode(), b'-----BEGIN SIGNATURE-----\n' + base64.b64encode(s) + b'\n-----END SIGNATURE-----\n']
    c.signature = rng.choice([f for f in forms if f != s])


def der_length(n):
    return bytes([n]) if n < 128 else bytes([0x80 + (n.bit_length() + 7) // 8]) + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def other_key(rng, w, c, e):
    k = rng.choice([x.key for x in w.creds] + [pick_key(rng, (e.key.curve, e.key.alg))])
    if e.key.ec2 and rng.random() < .2:
        k = e.key.negated()
    if (k.x, k.y) == (e.key.x, e.key.y):
        return False
    c.signature = k.sign(c.ad_bytes + sha256(c.cd_bytes))


def other_hash(rng, w, c, e):
    if not e.key.ec2:
        return False
    a = rng.choice([x for x in ('ES256', 'ES384', 'ES512') if x != e.key.alg])
    c.signature = e.key.sign(c.ad_bytes + sha256(c.cd_bytes), a)


def other_message(rng, w, c, e):
    h, ad, cd = sha256(c.cd_bytes), c.ad_bytes, c.cd_bytes
    msgs = [ad, h, h + ad, ad + cd, cd, ad + sha256(h), sha256(ad) + h, sha256(ad + h), ad + hashlib.sha512(cd).digest(),
            ad + hashlib.sha1(cd).digest(), ad[:37] + h if len(ad) > 37 else ad[:32] + h, ad + h + b'\0', ad + h[:31],
            ad + sha256(b''), ad + bytes(32), b'', ad[:-1] + h, ad[1:] + h, ad + h[::-1], ad[:32] + h, ad[:33] + h,
            ad + sha256(cd + b'\n'), ad + sha256(cd.strip() + b' '), ad + hashlib.sha256(cd).hexdigest().encode()]
    if rng.random() < .35:       # prehashed, in some other way put before the key, or wrapped
        m = ad + h
        msgs = [f(x).digest() for x in (m, ad + cd) for f in (hashlib.sha512, hashlib.sha384, hashlib.sha256, hashlib.sha1, hashlib.sha224, hashlib.md5, hashlib.sha3_256, hashlib.sha3_512, hashlib.blake2b, hashlib.blake2s)]
        msgs += [hashlib.shake_256(m).digest(64), hashlib.shake_128(m).digest(32), sha256(sha256(m)), hashlib.sha256(m).hexdigest().encode(), base64.b64encode(m), b64u(m).encode(), m.hex().encode(), len(m).to_bytes(4, 'big') + m, b'\0' + m,
                 b'webauthn.get' + m, refcbor.enc(m), m + m, m[::-1], refcbor.enc(ad) + h, ad + refcbor.enc(h), b'SigEd25519 no Ed25519 collisions\1\0' + hashlib.sha512(m).digest(),
                 b'\x84' + refcbor.enc('Signature1') + refcbor.enc(b'') + refcbor.enc(b'') + refcbor.enc(m)]
    m = rng.choice(msgs)
    if m == ad + h:
        return False
    c.signature = e.key.sign(m)


def resent_client_data(rng, w, c, e):
    """The same JSON value serialised differently after signing."""
    d = json.loads(c.cd_bytes)
    opts = [json.dumps(d).encode(), json.dumps(d, indent=2).encode(), c.cd_bytes + b' ', b' ' + c.cd_bytes, c.cd_bytes + b'\n',
            json.dumps(d, separators=(',', ':'), sort_keys=True).encode(), json.dumps(dict(d, extra=1)).encode(),
            json.dumps(d, separators=(',', ':'), ensure_ascii=False).encode('utf-8', 'surrogatepass'),
            json.dumps(dict(reversed(list(d.items()))), separators=(',', ':')).encode()]
    b = rng.choice(opts)
    if b == c.cd_bytes:
        return False
    c.cd_bytes = b


def sign_canonical_client_data(rng, w, c, e):
    """Signed over a canonical re-serialisation, sent as is."""
    d = json.loads(c.cd_bytes)
    b = rng.choice([json.dumps(d, separators=(',', ':')).encode(), json.dumps(d).encode(),
                    json.dumps({k: d[k] for k in ('type', 'challenge', 'origin')}, separators=(',', ':')).encode()])
    if b == c.cd_bytes:
        return False
    c.signature = e.key.sign(c.ad_bytes + sha256(b))


def tamper_auth_data(rng, w, c, e):
    """Change received authenticator data after signing, keeping every other requirement satisfied."""
    ad = c.ad
    r = rng.random()
    if r < .35:
        n = ad.count + rng.choice([1, 2, 256, 65536])
        if n >= 2 ** 32:
            return False
        ad.count = n
    elif r < .55:
        ad.flags ^= rng.choice([2, 8, 16, 32])
    elif r < .65:
        ad.flags |= 4
    elif r < .75 and not ad.flags & sim.ED:
        ad.flags |= sim.ED
        ad.ext = sim.gen_exts(rng, .5)
    elif r < .85 and not ad.flags & sim.AT:
        ad.flags |= sim.AT
        ad.att = (rbytes(rng, 16), c.raw_id[:1000], pick_key(rng).cose())
    elif ad.flags & sim.AT:
        a, cid, k = ad.att
        ad.att = rng.choice([(near(rng, a)[:16].ljust(16, b'z'), cid, k), (a, flip(rng, cid) if cid else b'x', k)])
    elif ad.flags & sim.ED and not c.expected_ext:
        ad.ext = sim.gen_exts(rng, .4)
    else:
        ad.flags ^= 8
    old = c.ad_bytes
    c.ad_bytes = ad.encode()
    if old == c.ad_bytes:
        return False


def noncanonical_ext(rng, w, c, e):
    """Extensions encoded non-canonically: the signature covers the received bytes, so this stays valid."""
    ad = c.ad
    ad.flags |= sim.ED
    ad.ext = sim.refcbor.Indef(5, [('appid', True), ('txAuthSimple', 'hello')]) if rng.random() < .5 else \
        sim.Pairs([('uvm', [[sim.refcbor.Raw(b'\x19\x00\x01')]]), ('appid', False)])
    c.expected_ext = None
    raw = ad.encode()
    # the reference needs the set of present extensions only when extensions are required
    ad.ext = sim.Pairs([('appid', True), ('txAuthSimple', 'hello')]) if isinstance(ad.ext, sim.refcbor.Indef) else sim.Pairs([('uvm', [[1]]), ('appid', False)])
    c.ad_bytes = raw
    c.signature = e.key.sign(raw + sha256(c.cd_bytes))


def replayed_signature(rng, w, c, e):
    prev = [x for x in w.accepted if x.raw_id == c.raw_id and x.signature != c.signature]
    if not prev:
        return False
    p = rng.choice(prev)
    r = rng.random()
    c.signature = p.signature
    if r < .3:
        c.cd_bytes, c.cd_challenge, c.cd_type, c.cd_origin, c.cd_tb = p.cd_bytes, p.cd_challenge, p.cd_type, p.cd_origin, p.cd_tb
        c.expected_challenge, c.expected_origin, c.token_binding = p.expected_challenge, p.expected_origin, p.token_binding


def key_sent_along(rng, w, c, e):
    """Attested data for the credential itself, with another key, which also made the signature."""
    k = pick_key(rng, (e.key.curve, e.key.alg) if rng.random() < .6 else None)
    if (k.x, k.y) == (e.key.x, e.key.y):
        return False
    c.ad.flags |= sim.AT
    c.ad.att = (rng.choice([bytes(16), rbytes(rng, 16)]), rng.choice([c.raw_id, c.raw_id, c.raw_id, b'', rbytes(rng, 16)]), k.cose())
    c.ad_bytes = c.ad.encode()
    c.signature = k.sign(c.ad_bytes + sha256(c.cd_bytes))


def rekeyed(rng, w, c, e):
    """The credential is registered anew with another key: only the new key counts."""
    k = pick_key(rng, (e.key.curve, e.key.alg) if rng.random() < .6 else None)
    if k.x == e.key.x or e not in w.creds:
        return False
    new = Entry(e.cid, k, e.user_id, e.rp_id, e.count, sim.stored_key(rng, k))
    w.registrar.store[e.cid] = new
    w.creds[w.creds.index(e)] = new
    if rng.random() < .5:
        c.signature = k.sign(c.ad_bytes + sha256(c.cd_bytes))


MUT = [(f.__name__, f) for f in (
    sig_flip, sig_trunc, sig_empty, sig_extend, sig_random, sig_zero, sig_der_numbers, sig_malleated, sig_encoded, sig_encoded, sig_encoded, other_key, other_hash,
    other_message, other_message, resent_client_data, sign_canonical_client_data, tamper_auth_data, tamper_auth_data,
    noncanonical_ext, replayed_signature, rekeyed, key_sent_along)]


def stream(ctx, rng, index):
    auth_episode(ctx, rng, MUT, n=14, honest=.3, aspects=('credential',))


def suites(ctx, rng, index):
    """Directed: every suite, honest and with every deviation."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    w = worker_world(ctx, rng, creds=3, suites=[suite], strict=True)
    for name, fn in [('honest', None)] + MUT:
        e = rng.choice(w.creds)
        c = honest_auth(rng, w, e)
        if fn is not None:
            c.note = name
            if fn(rng, w, c, e) is False:
                c.note = 'honest'
        out, _ = run_auth(ctx, w, c)
        if out.accepted:
            e = w.registrar.store[c.raw_id]
            ctx.count('accepted-suite:%s/%s' % (e.key.curve, e.key.alg))


SIZES = [255, 256, 257, 511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8193, 16385, 32769, 65535, 65537, 131073, 300001]


def sized(rng, n):
    """Well-typed extension outputs of about n bytes in total."""
    r = rng.random()
    if r < .35:
        return sim.Pairs([('txAuthGeneric', rbytes(rng, n))])
    if r < .6:
        return sim.Pairs([('appid', True), ('exts', ['e' * 50] * (n // 52 + 1))])
    if r < .8:
        return sim.Pairs([('txAuthSimple', 'x' * n), ('uvi', rbytes(rng, 32))])
    return sim.Pairs([('uvm', [[i, 2 ** 20, 3] for i in range(n // 9 + 1)]), ('uvi', b'')])


def scale(ctx, rng, index):
    """Directed: long signed messages, changed after signing at the end, at the start, at and after powers of two, or signed in part only."""
    n = SIZES[index % len(SIZES)] if index < 18 or not magic.chance(rng, .1) else magic.size(rng, 100000) or 100
    w = worker_world(ctx, rng, creds=1, suites=[rng.choice([('P-256', 'ES256'), ('Ed25519', 'EdDSA'), ('Ed448', 'EdDSA')])], strict=True)
    e = w.creds[0]
    for part in ('ad', 'cd'):
        for how in ('honest', 'end', 'start', 'cut', 'partly signed', 'any', 'longer'):
            c = honest_auth(rng, w, e)
            c.note = '%s of %d bytes, %s' % (part, n, how)
            c.expected_ext = None
            if part == 'ad':
                c.ad.flags |= sim.ED
                c.ad.ext = sized(rng, n)
                c.seal(rng, e.key)
                b = c.ad_bytes
                off, m = 37, len(b)
                lo = rng.choice([x for x in SIZES if x < m] or [37])
                i = {'end': m - 1, 'start': 33 + rng.randrange(4), 'cut': max(lo, 37), 'any': rng.randrange(37, m)}.get(how)
                if how == 'partly signed':
                    c.signature = e.key.sign(rng.choice([b[:lo], b[-lo:], b[:m // 2]]) + sha256(c.cd_bytes))
                elif how == 'longer':
                    c.ad_bytes = b + b'\0'
                    c.ad.tail = b'\0'
                elif i is not None:
                    # the change may make the authenticator data unreadable: either way there is no valid signature over it
                    c.ad_bytes = b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
            else:
                c.seal(rng, e.key)
                text = c.cd_bytes.rstrip()
                pad = max(0, n - len(text))
                where = rng.random()
                c.cd_bytes = b = (text + b' ' * pad if where < .4 else b' ' * pad + text if where < .6 else
                                  text[:-1] + b',"p":"' + b'x' * pad + b'"}')
                c.signature = e.key.sign(c.ad_bytes + sha256(b))
                lo = rng.choice([x for x in SIZES if x < len(b)] or [10])
                if how == 'partly signed':
                    c.signature = e.key.sign(c.ad_bytes + sha256(rng.choice([b[:lo], b[-lo:]])))
                elif how == 'end':
                    c.cd_bytes = b + b'\n' if where < .6 else b[:-3] + b'y"}'
                elif how == 'start':
                    c.cd_bytes = b' ' + b
                elif how in ('cut', 'any') and where < .4:
                    i = rng.randrange(len(text), len(b)) if pad else len(b)
                    c.cd_bytes = b[:i] + b'\t' + b[i + 1:]
                elif how in ('cut', 'any') and where >= .6 and pad > 2:
                    i = len(b) - 2 - rng.randrange(1, pad)
                    c.cd_bytes = b[:i] + b'y' + b[i + 1:]
                elif how == 'longer':
                    c.cd_bytes = b + b' ' * n
            run_auth(ctx, w, c)
    ctx.count('long-messages')


KINDS = {'suites': (suites, 44, 440), 'scale': (scale, 36, 720), 'stream': (stream, 640, 24000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = dict({'long-messages': 36, 'auth:accept': 500, 'unmet:sig': 500}, **{'accepted-suite:%s/%s' % s: 3 for s in ALL_SUITES})
