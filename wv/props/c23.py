"""C23: signature verification is sound and complete for every supported key."""
import hashlib

from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from webauthn_rp import types as T
from webauthn_rp.converters import cryptography_ec2_public_key, cryptography_okp_public_key, cryptography_public_key
from webauthn_rp.errors import WebAuthnRPError
from webauthn_rp.verifiers import verify, verify_ec2_public_key, verify_okp_public_key

from wv import magic, refec
from wv.core import dump, require
from wv.keys import ALL_SUITES, COORD, EDGE, SimKey, pick_key
from wv.sim import rbytes, sha256

RULE = ('one evaluation = one verification (or key conversion) by the library compared with a pure-Python ECDSA/EdDSA implementation working from the raw coordinates, signature and data; '
        'non-trivial = distinct (key, signature, data)')


def ref(curve, alg, x, y, sig, data):
    if curve in refec.CURVES:
        return refec.ecdsa_verify(curve, alg, int.from_bytes(x, 'big'), int.from_bytes(y, 'big'), sig, data)
    return refec.eddsa_verify(curve, x, sig, data)


def lib_key(curve, alg, x, y, form='Value', **kw):
    f = lambda c: getattr(c, form)  # noqa
    a = getattr(f(T.COSEAlgorithmIdentifier), alg.upper())
    if curve in refec.CURVES:
        return T.EC2CredentialPublicKey(kty=f(T.COSEKeyType).EC2, alg=a, crv=getattr(f(T.EC2Curve), curve.replace('-', '_')), x=x, y=y, **kw)
    return T.OKPCredentialPublicKey(kty=f(T.COSEKeyType).OKP, alg=a, crv=getattr(f(T.OKPCurve), curve.upper()), x=x, **kw)


def check(ctx, rng, what, curve, alg, x, y, sig, data, expect=None, key=None):
    want = ref(curve, alg, x, y, sig, data)
    require(expect is None or want == expect, 'harness: reference says %s for %s' % (want, what), curve=curve, alg=alg, x=x, y=y, sig=sig, data=data)
    k = key or lib_key(curve, alg, x, y, rng.choice(['Name', 'Value']), kid=rng.choice([None, b'', b'shared']))
    before = dump(k)
    fns = [verify, verify_ec2_public_key if curve in refec.CURVES else verify_okp_public_key]
    for fn in fns if rng.random() < .2 else fns[:1]:
        try:
            r = fn(k, sig, data)
        except WebAuthnRPError as e:
            require(not want, 'a valid signature was rejected with %r (%s)' % (e, what), curve=curve, alg=alg, x=x.hex(), y=y and y.hex(), sig=sig.hex(), data=data.hex()[:200])
        except Exception as e:
            require(False, 'verification failed with %r, which is no library error (%s)' % (e, what), curve=curve, alg=alg, x=x.hex(), y=y and y.hex(), sig=sig.hex(), data=data.hex()[:200])
        else:
            require(want, 'an invalid signature was accepted (%s)' % what, curve=curve, alg=alg, x=x.hex(), y=y and y.hex(), sig=sig.hex(), data=data.hex()[:200])
            require(r is None, 'verify returned %r' % (r,))
    require(dump(k) == before, 'verification modified the key (%s)' % what)
    ctx.judged((curve, alg, x, y, sig, hashlib.sha256(data).digest()))
    ctx.count('%s:%s' % ('valid' if want else 'invalid', curve))
    return want


def gen_data(rng):
    if magic.chance(rng):
        return rng.choice([magic.data(rng), rbytes(rng, magic.size(rng, 100000) or 9)])
    return rng.choice([lambda: b'', lambda: rbytes(rng, 1), lambda: rbytes(rng, rng.randint(2, 69)), lambda: rbytes(rng, rng.randint(69, 200)), lambda: rbytes(rng, 37) + sha256(rbytes(rng, 5)),
                       lambda: bytes(rng.randint(1, 70)), lambda: rbytes(rng, rng.choice([63, 64, 65, 127, 128, 129])), lambda: rbytes(rng, 3000)])()


def pick(rng, suite):
    curve = suite[0]
    if rng.random() < .4:
        return cached(suite, rng.choice(EDGE[curve]))
    return pick_key(rng, suite)


_cache = {}


def cached(suite, secret):
    k = (suite, secret)
    if k not in _cache:
        if len(_cache) > 300:
            _cache.clear()
        _cache[k] = SimKey(suite[0], suite[1], secret)
    return _cache[k]


def negated(k):
    """The key with the same x coordinate and the other y coordinate."""
    return cached((k.curve, k.alg), refec.CURVES[k.curve]['n'] - k.secret - 1)


# --- DER shapes ------------------------------------------------------------------
def tlv(tag, body, lenform=0):
    n = len(body)
    if lenform == 0:
        ln = bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82]) + n.to_bytes(2, 'big')
    elif lenform == 1:
        ln = bytes([0x81, n & 255]) if n < 256 else bytes([0x83]) + n.to_bytes(3, 'big')
    elif lenform == 2:
        ln = bytes([0x82]) + n.to_bytes(2, 'big')
    else:
        return bytes([tag, 0x80]) + body + b'\0\0'
    return bytes([tag]) + ln + body


def integer(n):
    return n.to_bytes(n.bit_length() // 8 + 1, 'big', signed=True) if n >= 0 else n.to_bytes((-n - 1).bit_length() // 8 + 1, 'big', signed=True)


def der_variants(rng, k, sig):
    r, s = decode_dss_signature(sig)
    n = refec.CURVES[k.curve]['n']
    size = COORD[k.curve]
    R, S = integer(r), integer(s)
    one = lambda a, b: tlv(0x30, tlv(2, a) + tlv(2, b))  # noqa
    yield 'same', one(R, S)
    yield 'padded r', one(b'\0' + R, S)
    yield 'padded s', one(R, b'\0' + S)
    yield 'sign-stripped r', one(r.to_bytes(max(1, (r.bit_length() + 7) // 8), 'big'), S)
    yield 'sign-stripped s', one(R, s.to_bytes(max(1, (s.bit_length() + 7) // 8), 'big'))
    yield 'long outer length', tlv(0x30, tlv(2, R) + tlv(2, S), rng.choice([1, 2]))
    yield 'long r length', tlv(0x30, tlv(2, R, rng.choice([1, 2])) + tlv(2, S))
    yield 'long s length', tlv(0x30, tlv(2, R) + tlv(2, S, rng.choice([1, 2])))
    yield 'indefinite', tlv(0x30, tlv(2, R) + tlv(2, S), 3)
    yield 'trailing inside', tlv(0x30, tlv(2, R) + tlv(2, S) + rng.choice([b'\0', b'\5\0', tlv(2, S)]))
    yield 'trailing outside', one(R, S) + rng.choice([b'\0', b'\n', one(R, S)])
    yield 'leading', b'\0' + one(R, S)
    yield 'raw r||s', r.to_bytes(size, 'big') + s.to_bytes(size, 'big')
    yield 'only r', tlv(0x30, tlv(2, R))
    yield 'set tag', b'\x31' + one(R, S)[1:]
    yield 'octet strings', tlv(0x30, tlv(4, R) + tlv(4, S))
    yield 'empty integers', tlv(0x30, tlv(2, b'') + tlv(2, b''))
    yield 'wrapped twice', tlv(0x30, one(R, S))
    yield 'swapped', one(S, R)
    for name, (a, b) in {'n-s': (r, n - s), 's+n': (r, s + n), 'r+n': (r + n, s), '-s': (r, -s), '-r': (-r, s), 'zero': (0, 0), 'r zero': (0, s), 's zero': (r, 0), 'one': (1, 1), 's=n': (r, n), 'r=n': (n, s),
                         's=1': (r, 1), 'n-r': (n - r, s), 's-n': (r, s - n), 'r=p': (refec.CURVES[k.curve]['p'], s), 'r+1': (r + 1, s), 's-1': (r, s - 1)}.items():
        yield name, one(integer(a), integer(b))
    i = rng.randrange(len(sig) * 8)
    yield 'bit flip', sig[:i // 8] + bytes([sig[i // 8] ^ 1 << i % 8]) + sig[i // 8 + 1:]
    yield 'truncated', sig[:rng.randrange(len(sig))]
    yield 'empty', b''
    yield 'random', rbytes(rng, len(sig))


def okp_variants(rng, k, sig):
    n = len(sig) // 2
    E = refec._ED25519 if k.curve == 'Ed25519' else refec._ED448
    S = int.from_bytes(sig[n:], 'little')
    yield 'same', bytes(sig)
    if S + E.L < 1 << 8 * n:
        yield 'S+L', sig[:n] + (S + E.L).to_bytes(n, 'little')
    if S + 2 * E.L < 1 << 8 * n:
        yield 'S+2L', sig[:n] + (S + 2 * E.L).to_bytes(n, 'little')
    yield 'L-S', sig[:n] + (E.L - S).to_bytes(n, 'little')
    yield 'S=0', sig[:n] + bytes(n)
    yield 'R=0', bytes(n) + sig[n:]
    yield 'swapped', sig[n:] + sig[:n]
    yield 'reversed', sig[::-1]
    yield 'sign bit of R', sig[:n - 1] + bytes([sig[n - 1] ^ 0x80]) + sig[n:]
    yield 'top bit of S', sig[:-1] + bytes([sig[-1] ^ 0x80])
    yield 'short', sig[:-1]
    yield 'long', sig + b'\0'
    yield 'double', sig + sig
    yield 'half', sig[:n]
    yield 'empty', b''
    yield 'zero', bytes(2 * n)
    yield 'random', rbytes(rng, 2 * n)
    yield 'other size', rbytes(rng, 114 if n == 32 else 64)
    i = rng.randrange(len(sig) * 8)
    yield 'bit flip', sig[:i // 8] + bytes([sig[i // 8] ^ 1 << i % 8]) + sig[i // 8 + 1:]


def signatures(ctx, rng, index):
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    k = pick(rng, suite)
    data = gen_data(rng)
    sig = k.sign(data)
    obj = lib_key(k.curve, k.alg, k.x, k.y, rng.choice(['Name', 'Value'])) if rng.random() < .5 else None   # one long-lived key object
    check(ctx, rng, 'honest', k.curve, k.alg, k.x, k.y, sig, data, True, obj)
    for name, s in (der_variants if k.ec2 else okp_variants)(rng, k, sig):
        want = check(ctx, rng, name, k.curve, k.alg, k.x, k.y, s, data, None, obj)
        ctx.count('variant:' + name)
        if want:
            ctx.count('variant-valid:' + name)
    check(ctx, rng, 'honest again', k.curve, k.alg, k.x, k.y, sig, data, True, obj)
    ctx.count('suite:%s/%s' % suite)
    ctx.sample(suite=suite, signature=sig.hex())


def honest(ctx, rng, index):
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    for _ in range(4):
        k = pick(rng, suite)
        if rng.random() < .3:
            k = cached(suite, rng.getrandbits(400))
        data = gen_data(rng)
        check(ctx, rng, 'honest', k.curve, k.alg, k.x, k.y, k.sign(data), data, True)
        if k.ec2:
            sig = k.malleate(k.sign(data))
            check(ctx, rng, 'n-s', k.curve, k.alg, k.x, k.y, sig, data, True)
        for c in (k.x, k.y):
            if c and c[0] == 0:
                ctx.count('leading-zero:' + k.curve)


_scalars = {}


def extreme(ctx, rng, index):
    """Valid signatures whose r and s are constructed: s (or its complement) very small, very large, at the middle, a power of two, or of short encodings; r of a small or fixed nonce."""
    curve = ('P-256', 'P-384', 'P-521')[index % 3]
    c = refec.CURVES[curve]
    n, size = c['n'], COORD[curve]
    bits = n.bit_length()
    ks = [1, 2, 3, n - 1, n - 2, n // 2, (n + 1) // 2, 2 ** (bits // 2), rng.randrange(1, n), rng.randrange(1, 2 ** 20)]
    ss = [1, 2, 3, n - 1, n - 2, n // 2, n // 2 + 1, n // 2 - 1, (n // 2) + 2, n - 2 ** 64, 2 ** 64, 2 ** (bits - 1), 2 ** (bits - 1) - 1, 2 ** (8 * size - 8) - 1, 2 ** (bits - 9), 127, 128, 255, 256, 2 ** (bits // 2),
          int.from_bytes(b'\x7f' + b'\xff' * (size - 2), 'big'), n - int.from_bytes(b'\x7f' + b'\xff' * (size - 2), 'big') % n, rng.randrange(n - 2 ** 32, n), rng.randrange(1, n)]
    for _ in range(3):
        alg = rng.choice(['ES256', 'ES384', 'ES512'])
        k = rng.choice(ks)
        if (curve, k) not in _scalars:
            if len(_scalars) > 200:
                _scalars.clear()
            _scalars[curve, k] = int.from_bytes(SimKey(curve, alg, k - 1).x, 'big') % n
        r = _scalars[curve, k]
        s = rng.choice(ss) % n or 1
        data = gen_data(rng)
        h = hashlib.new({'ES256': 'sha256', 'ES384': 'sha384', 'ES512': 'sha512'}[alg], data).digest()
        e = int.from_bytes(h, 'big') >> max(0, 8 * len(h) - bits)
        d = (s * k - e) * pow(r, -1, n) % n
        if d == 0:
            continue
        key = SimKey(curve, alg, d - 1)
        sig = tlv(0x30, tlv(2, integer(r)) + tlv(2, integer(s)))
        check(ctx, rng, 'constructed s=%x' % s, curve, alg, key.x, key.y, sig, data, True)
        check(ctx, rng, 'constructed, complement', curve, alg, key.x, key.y, tlv(0x30, tlv(2, integer(r)) + tlv(2, integer(n - s))), data, True)
        for a, b in ((r, s + 1), (r, s - 1), (r + 1, s), (r, s ^ 1 << rng.randrange(bits)), (n - r, s)):
            check(ctx, rng, 'constructed, altered', curve, alg, key.x, key.y, tlv(0x30, tlv(2, integer(a)) + tlv(2, integer(b))), data, False if 0 < b < n and b != n - s else None)
        ctx.count('constructed')


LENGTHS = [4097, 16385, 65535, 65536, 65537, 70001, 131073, 2 ** 20 + 1, 2 ** 24 + 3]


def long_data(ctx, rng, index):
    """Data of any length counts whole: signed in part, changed at the ends, next to powers of two and anywhere."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    k = pick(rng, suite)
    n = magic.size(rng, 2 ** 21) if magic.chance(rng) else rng.choice(LENGTHS[1:7] if index < 33 else LENGTHS)
    n = max(2, (n or 300) + rng.choice([0, 0, 1, 5000]))
    data = rng.randbytes(n)
    sig = k.sign(data)
    check(ctx, rng, 'long data', k.curve, k.alg, k.x, k.y, sig, data, True)
    cuts = sorted({m + d for m in LENGTHS + [n // 2, n] for d in (-1, 0) if 0 < m + d < n})
    for i in {0, n - 1, rng.randrange(n), rng.choice(cuts), rng.choice(cuts)}:
        check(ctx, rng, 'long data changed at %d of %d' % (i, n), k.curve, k.alg, k.x, k.y, sig, data[:i] + bytes([data[i] ^ 1]) + data[i + 1:], False)
    for cut in {cuts[-1], rng.choice(cuts), cuts[-1] - 1 if len(cuts) > 1 else cuts[-1]}:
        check(ctx, rng, 'long data cut to %d of %d' % (cut, n), k.curve, k.alg, k.x, k.y, sig, data[:cut], False)
        check(ctx, rng, 'signature of the first %d of %d' % (cut, n), k.curve, k.alg, k.x, k.y, k.sign(data[:cut]), data, False)
        check(ctx, rng, 'signature of the last %d of %d' % (n - cut, n), k.curve, k.alg, k.x, k.y, k.sign(data[cut:]), data, False)
    ctx.count('long-data')


def data_variants(ctx, rng, index):
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    k = pick(rng, suite)
    data = gen_data(rng)
    sig = k.sign(data)
    i = rng.randrange(len(data) * 8) if data else 0
    for name, d in [('bit flip', data[:i // 8] + bytes([data[i // 8] ^ 1 << i % 8]) + data[i // 8 + 1:] if data else b'\1'), ('appended', data + b'\0'), ('prepended', b'\0' + data),
                    ('truncated', data[:-1]), ('first byte cut', data[1:]), ('empty', b''), ('sha256', hashlib.sha256(data).digest()), ('sha512', hashlib.sha512(data).digest()),
                    ('sha384', hashlib.sha384(data).digest()), ('doubled', data * 2), ('reversed', data[::-1]), ('last changed', data[:-1] + bytes([data[-1] ^ 1]) if data else b'x'),
                    ('first changed', bytes([data[0] ^ 1]) + data[1:] if data else b'y')]:
        want = check(ctx, rng, 'data ' + name, k.curve, k.alg, k.x, k.y, sig, d)
        ctx.count('data:%s' % ('same' if want else 'other'))
    for s in (k.sign(hashlib.sha256(data).digest()), k.sign(hashlib.sha512(data).digest())):
        check(ctx, rng, 'signed digest', k.curve, k.alg, k.x, k.y, s, data)
    # wrong hash, other keys (the negated point shares x), other curve of the same size
    if k.ec2:
        for a in ('ES256', 'ES384', 'ES512'):
            check(ctx, rng, 'hash of ' + a, k.curve, a, k.x, k.y, sig, data, a == k.alg)
            check(ctx, rng, 'signed with ' + a, k.curve, k.alg, k.x, k.y, k.sign(data, a), data, a == k.alg)
            ctx.count('hash-pair')
        o = negated(k)
        require(o.x == k.x and o.y != k.y, 'harness: negated key')
        for rep in range(2):
            check(ctx, rng, 'negated key', k.curve, k.alg, o.x, o.y, sig, data, False)
            check(ctx, rng, 'negated key', k.curve, k.alg, k.x, k.y, o.sign(data), data, False)
            check(ctx, rng, 'honest', k.curve, k.alg, k.x, k.y, sig, data, True)
        ctx.count('negated')
    for _ in range(2):
        o = cached(suite, rng.getrandbits(300))
        check(ctx, rng, 'other key', k.curve, k.alg, o.x, o.y, sig, data, False)
        check(ctx, rng, 'other key', k.curve, k.alg, k.x, k.y, o.sign(data), data, False)
    if not k.ec2:
        i = rng.randrange(len(k.x) * 8)
        for x in (bytes(len(k.x)), b'\xff' * len(k.x), k.x[::-1], k.x[:-1] + bytes([k.x[-1] ^ 0x80]), k.x[:i // 8] + bytes([k.x[i // 8] ^ 1 << i % 8]) + k.x[i // 8 + 1:], rbytes(rng, len(k.x))):
            if refec_small_order(k.curve, x):
                continue
            check(ctx, rng, 'altered key', k.curve, k.alg, x, None, sig, data)


def refec_small_order(curve, x):
    """Keys of small order (or non-canonical encodings of them) accept degenerate signatures: left alone."""
    E = refec._ED25519 if curve == 'Ed25519' else refec._ED448
    P = E.decode(x)
    if P is None:
        return x in (bytes(len(x)), b'\xff' * len(x))
    return E.eq(E.mul(8, P), (0, 1, 1))


# --- conversion --------------------------------------------------------------------
def converted(ctx, curve, alg, x, y, form='Value', fn=cryptography_public_key):
    """None when rejected, else what the converted key contains."""
    try:
        pub = fn(lib_key(curve, alg, x, y, form))
    except WebAuthnRPError:
        return None
    except Exception as e:
        require(False, 'conversion failed with %r, which is no library error' % e, curve=curve, x=x.hex(), y=y and y.hex())
    require(hasattr(pub, 'public_numbers' if curve in refec.CURVES else 'public_bytes'), 'conversion gave %r, which is no public key' % (pub,), curve=curve, x=x.hex(), y=y and y.hex())
    if curve in refec.CURVES:
        nums = pub.public_numbers()
        return {'secp256r1': 'P-256', 'secp384r1': 'P-384', 'secp521r1': 'P-521'}[pub.curve.name], nums.x, nums.y
    return pub.public_bytes(Encoding.Raw, PublicFormat.Raw)


def conversion(ctx, rng, index):
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    for _ in range(6):
        k = pick(rng, suite)
        got = converted(ctx, k.curve, k.alg, k.x, k.y, rng.choice(['Name', 'Value']), rng.choice([cryptography_public_key, cryptography_ec2_public_key if k.ec2 else cryptography_okp_public_key]))
        want = (k.curve, int.from_bytes(k.x, 'big'), int.from_bytes(k.y, 'big')) if k.ec2 else k.x
        require(got == want, 'conversion changed the key', got=got, want=want)
        ctx.judged(('conv', k.curve, k.x))
        ctx.count('converted:' + k.curve)


def off_curve(ctx, rng, index):
    curve = ('P-256', 'P-384', 'P-521')[index % 3]
    alg = rng.choice(['ES256', 'ES384', 'ES512'])
    size, p, n = COORD[curve], refec.CURVES[curve]['p'], refec.CURVES[curve]['n']
    k = pick(rng, (curve, alg))
    X, Y = int.from_bytes(k.x, 'big'), int.from_bytes(k.y, 'big')
    top = (1 << 8 * size) - 1
    i = rng.randrange(p.bit_length())
    pts = [('x+1', X + 1, Y), ('y+1', X, Y + 1), ('y-1', X, Y - 1), ('flip x', X ^ 1 << i, Y), ('flip y', X, Y ^ 1 << i), ('zero', 0, 0), ('x zero', 0, Y), ('y zero', X, 0), ('swapped', Y, X), ('max', top, top),
           ('p p', p, p), ('x=p', p, Y), ('y=p', X, p), ('0,p', 0, p), ('random', rng.randrange(p), rng.randrange(p)), ('x+p', X + p, Y), ('y+p', X, Y + p), ('1,1', 1, 1), ('both negated', p - X, p - Y),
           ('other b', *twist(rng, curve)), ('negated (valid)', X, p - Y), ('itself (valid)', X, Y)]
    if curve != 'P-256':
        o = pick(rng, ('P-256', 'ES256'))
        pts.append(('point of P-256', int.from_bytes(o.x, 'big'), int.from_bytes(o.y, 'big')))
    data = gen_data(rng)
    sig = k.sign(data)
    for name, x, y in pts:
        if not (0 <= x <= top and 0 <= y <= top):
            continue
        xb, yb = x.to_bytes(size, 'big'), y.to_bytes(size, 'big')
        ok = refec.on_curve(curve, x, y)
        got = converted(ctx, curve, alg, xb, yb, rng.choice(['Name', 'Value']))
        require(ok or got is None, 'a point off the curve was converted into a key (%s)' % name, curve=curve, x=xb.hex(), y=yb.hex())
        require(not ok or got == (curve, x, y), 'a point on the curve was not converted faithfully (%s)' % name, got=got)
        ctx.judged(('point', curve, x, y))
        ctx.count('point:on' if ok else 'point:off')
        check(ctx, rng, 'point ' + name, curve, alg, xb, yb, sig, data)


def beyond(ctx, rng, index):
    """Points whose x has a second representation x+p that still fits the coordinate length."""
    if 'beyond' not in ctx.state:
        ctx.state['beyond'] = small_points()
    for curve, x, y in ctx.state['beyond']:
        size, p = COORD[curve], refec.CURVES[curve]['p']
        for a, b in ((x + p, y), (x, y + p if y + p < 1 << 8 * size else y + 1), (x + p, p - y)):
            if a >= 1 << 8 * size:
                continue
            xb, yb = a.to_bytes(size, 'big'), b.to_bytes(size, 'big')
            got = converted(ctx, curve, 'ES256', xb, yb)
            require(got is None, 'coordinates beyond the field were converted into a key', curve=curve, x=xb.hex(), y=yb.hex(), got=got)
            ctx.judged(('beyond', curve, a, b))
            ctx.count('beyond:' + curve)
        got = converted(ctx, curve, 'ES256', x.to_bytes(size, 'big'), y.to_bytes(size, 'big'))
        require(got == (curve, x, y), 'a small point was not converted', got=got)


def small_points():
    out = []
    for curve, c in refec.CURVES.items():
        p, found, x = c['p'], 0, 0
        while found < 3:
            rhs = (x ** 3 - 3 * x + c['b']) % p
            y = pow(rhs, (p + 1) // 4, p)
            if y * y % p == rhs:
                out.append((curve, x, y))
                found += 1
            x += 1
    return out


def twist(rng, curve):
    """A point on y^2 = x^3 - 3x + b' for another b'."""
    p = refec.CURVES[curve]['p']
    return rng.randrange(1, p), rng.randrange(1, p)


def unsupported(ctx, rng, index):
    class Other(T.CredentialPublicKey):
        pass
    k = pick_key(rng, ('P-256', 'ES256'))
    data = b'data'
    sig = k.sign(data)
    base = dict(kty=T.COSEKeyType.Value.EC2, alg=T.COSEAlgorithmIdentifier.Value.ES256)
    for key in (Other(**base), T.CredentialPublicKey(**base)):
        for fn in (lambda: verify(key, sig, data), lambda: cryptography_public_key(key)):
            try:
                fn()
            except WebAuthnRPError:
                ctx.count('unsupported')
                ctx.judged(('unsupported', type(key).__name__))
                continue
            require(False, 'a key of an unsupported type was accepted')


def lengths(ctx, rng, index):
    """Octet key pair keys whose x is not of the length of their curve, and keys on a curve of the other type: neither is a key."""
    curve = ('Ed25519', 'Ed448')[index % 2]
    k, o = pick_key(rng, (curve, 'EdDSA')), pick_key(rng, (('Ed448', 'Ed25519')[index % 2], 'EdDSA'))
    data = gen_data(rng)
    full, sig = k.x + rbytes(rng, 70), k.sign(data)
    crv, kty, alg = T.OKPCurve, T.COSEKeyType, T.COSEAlgorithmIdentifier
    cases = [(T.OKPCredentialPublicKey, dict(x=full[:n], crv=getattr(rng.choice([crv.Name, crv.Value]), curve.upper()), kty=kty.Value.OKP, alg=alg.Value.EDDSA)) for n in range(len(full)) if n != len(k.x)]
    cases += [(T.OKPCredentialPublicKey, dict(x=x, crv=getattr(rng.choice([crv.Name, crv.Value]), curve.upper()), kty=kty.Value.OKP, alg=alg.Value.EDDSA)) for x in (o.x, b'\0' + k.x, k.x + b'\0', k.x[1:], k.x * 2)]
    e = pick_key(rng, rng.choice([('P-256', 'ES256'), ('P-384', 'ES384'), ('P-521', 'ES512')]))
    for name in ('ED25519', 'ED448'):
        cases.append((T.EC2CredentialPublicKey, dict(x=e.x, y=e.y, crv=getattr(rng.choice([crv.Name, crv.Value]), name), kty=kty.Value.EC2, alg=rng.choice([alg.Value.ES256, alg.Name.ES512]))))
    for name in ('P_256', 'P_384', 'P_521'):
        cases.append((T.OKPCredentialPublicKey, dict(x=k.x, crv=getattr(rng.choice([T.EC2Curve.Name, T.EC2Curve.Value]), name), kty=kty.Value.OKP, alg=alg.Value.EDDSA)))
    for cls, members in cases:
        key = cls(**members)
        for s in (sig, e.sign(data)) if cls is T.EC2CredentialPublicKey else (sig,):
            for fn in (lambda: verify(key, s, data), lambda: cryptography_public_key(key)):
                try:
                    fn()
                except WebAuthnRPError:
                    ctx.count('wrong-length' if type(members['crv']) in (crv.Name, crv.Value) and cls is T.OKPCredentialPublicKey else 'wrong-curve')
                except Exception as err:
                    require(False, 'a key that is no key of its curve failed with %r, which is no library error' % err, key=repr(key))
                else:
                    require(False, 'a key that is no key of its curve was accepted', key=repr(key))
        ctx.judged(('lengths', cls.__name__, repr(members['crv']), members['x']))


KINDS = {'lengths': (lengths, 16, 400), 'long': (long_data, 11 * 3, 11 * 60), 'honest': (honest, 220, 8000), 'signatures': (signatures, 220, 8000), 'extreme': (extreme, 120, 6000), 'data': (data_variants, 176, 6000), 'conversion': (conversion, 110, 3000), 'off_curve': (off_curve, 90, 3000), 'beyond': (beyond, 8, 16),
         'unsupported': (unsupported, 8, 16)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'wrong-length': 1000, 'wrong-curve': 80, 'long-data': 33, **{'%s:%s' % (v, c): 100 for v in ('valid', 'invalid') for c in COORD}, **{'suite:%s/%s' % s: 5 for s in ALL_SUITES}, 'leading-zero:P-256': 10, 'leading-zero:P-384': 10, 'leading-zero:P-521': 10,
            'negated': 50, 'constructed': 300, 'point:off': 500, 'hash-pair': 200, 'beyond:P-256': 8, 'beyond:P-521': 8, 'unsupported': 8}
