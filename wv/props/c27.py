"""C27: the encoding helpers are lossless."""
import base64
import random

from webauthn_rp import types as T
from webauthn_rp.utils import camel_to_snake_case, curve_coordinate_byte_length, ec2_hash_algorithm, snake_to_camel_case, url_base64_decode, url_base64_encode

from wv import magic, opts
from wv.core import require
from wv.sim import rbytes

RULE = ('one evaluation = one byte string taken through base64url in every padding form and compared with an independent encoder, or one identifier converted both ways and compared with an independent converter, '
        'or one table entry; all byte strings up to length 2 and all identifiers over a small alphabet are enumerated; non-trivial = distinct inputs')
ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def ref_b64u(b):
    """RFC 4648 section 5, bit by bit, without padding."""
    bits = ''.join('%08d' % int(bin(x)[2:]) for x in b)
    bits += '0' * (-len(bits) % 6)
    return ''.join(ALPHABET[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


def ref_camel(s):
    out, up = '', False
    for ch in s:
        if ch == '_':
            up = True
        else:
            out += chr(ord(ch) - 32) if up and 'a' <= ch <= 'z' else ch
            up = False
    return out


def roundtrip(ctx, b):
    want = ref_b64u(b)
    e = url_base64_encode(b)
    text = e.decode('ascii') if isinstance(e, bytes) else e
    body = text.rstrip('=')
    require(set(body) <= set(ALPHABET), 'the encoding leaves the URL-safe alphabet', data=b, encoded=text)
    require(body == want and len(text) - len(body) in (0, -len(body) % 4), 'wrong base64url encoding', data=b.hex(), encoded=text, want=want)
    for form in {text, want, want + '=' * (-len(want) % 4)}:
        got = url_base64_decode(form)
        require(type(got) is bytes and got == b, 'decoding %r gave %r' % (form, got), want=b.hex())
    ctx.judged(('b64', b))
    ctx.count('base64')


def small(ctx, rng, index):
    """Every byte string of length up to 2, in shares."""
    if index == 0:
        roundtrip(ctx, b'')
        for a in range(256):
            roundtrip(ctx, bytes([a]))
    for a in range(index, 256, 16):
        for b in range(256):
            roundtrip(ctx, bytes([a, b]))
    ctx.count('exhaustive-shares')


def random_bytes(ctx, rng, index):
    for _ in range(40):
        n = rng.choice([3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 33, 57, 58, 64, 76, 77, 100, 255, 256, 1000]) if not magic.chance(rng) else magic.size(rng) or 10
        if magic.chance(rng):
            roundtrip(ctx, magic.data(rng))
        roundtrip(ctx, rng.choice([lambda: rbytes(rng, n), lambda: bytes(rng.choice([0xfb, 0xff, 0xbf, 0x3f, 0xfe, 0]) for _ in range(n)), lambda: bytes(n), lambda: b'\xff' * n])())
    roundtrip(ctx, rbytes(rng, rng.choice([3071, 3072, 3073, 4095, 4096, 4097, 5000])))
    for n in range(0, 130):
        roundtrip(ctx, rbytes(rng, n))
    # every six bit group in every position
    for g in range(64):
        for pos in range(4):
            v = g << (18 - 6 * pos)
            roundtrip(ctx, v.to_bytes(3, 'big'))
    ctx.sample(length=n)


LONG = [s * k + d for s in (3 * 1024, 4096, 57 * 64, 8192) for k in (1, 2, 3, 5, 8, 15, 16, 17, 32, 48, 64, 100, 256) for d in (-2, -1, 0, 1, 2)] + [100000, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 3 * 2 ** 20 + 7]


def long_bytes(ctx, rng, index):
    """Long byte strings, at and around multiples of likely block sizes; every byte counts."""
    for n in LONG[index % 16::16]:
        b = rbytes(rng, n) if rng.random() < .8 else bytes(rng.choice(b'\xfb\xff\xbf\x3f\xfe\0') for _ in range(64)) * (n // 64 + 1)
        b = b[:n]
        want = base64.urlsafe_b64encode(b)
        e = url_base64_encode(b)
        e = e if isinstance(e, bytes) else e.encode('ascii')
        require(e.rstrip(b'=') == want.rstrip(b'=') and len(e) in (len(want), len(want.rstrip(b'='))), 'wrong base64url encoding of %d bytes' % len(b), first_difference=next((i for i, (x, y) in enumerate(zip(e, want)) if x != y), None))
        for form in (want.decode(), want.decode().rstrip('=')):
            require(url_base64_decode(form) == b, 'decoding %d characters gave other bytes' % len(form))
        ctx.judged(('long', n, b[:16]))
        ctx.count('long')


def ident(ctx, s):
    c = snake_to_camel_case(s)
    require(c == ref_camel(s), 'snake_to_camel_case(%r) is %r' % (s, c), want=ref_camel(s))
    back = camel_to_snake_case(c)
    require(back == s, '%r converts to %r and back to %r' % (s, c, back))
    ctx.judged(('ident', s))
    ctx.count('identifiers')


LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def enumerate_idents(ctx, rng, index):
    """All identifiers of up to 4 words over short words, in shares."""
    words = ['a', 'z', 'id', 'x1', 'json', 'b2c']
    n = 0
    for k in range(1, 5):
        for i in range(len(words) ** k):
            n += 1
            if n % 8 != index % 8:
                continue
            ws, x = [], i
            for _ in range(k):
                ws.append(words[x % len(words)])
                x //= len(words)
            ident(ctx, '_'.join(ws))
    for a in LETTERS:
        ident(ctx, a)
        for b in LETTERS:
            ident(ctx, a + '_' + b)
            ident(ctx, 'q' + a + '_' + b + 'r')


WORDS = [w for s in magic.pool(str)[0] for w in s.lower().split('_') if w and set(w) <= set(LETTERS + '0123456789') and w[0] in LETTERS and len(w) < 30]


def random_idents(ctx, rng, index):
    for _ in range(30 if WORDS else 0):
        ident(ctx, '_'.join(rng.choice(WORDS) if rng.random() < .7 else rng.choice(LETTERS) for _ in range(rng.choice([1, 2, 2, 3, 4]))))
    for _ in range(60):
        ident(ctx, '_'.join(rng.choice(LETTERS) + ''.join(rng.choice(LETTERS + '0123456789') for _ in range(rng.choice([0, 1, 2, 5, 12, 40]))) for _ in range(rng.choice([1, 2, 3, 4, 8, 20]))))


# Web IDL member names (WebAuthn Level 1, Credential Management) by their Python spelling
MEMBERS = dict((a, w) for spec in opts.SPECS.values() for a, w, _, _ in spec[1])
MEMBERS.update({'raw_id': 'rawId', 'client_data_JSON': 'clientDataJSON', 'attestation_object': 'attestationObject', 'authenticator_data': 'authenticatorData', 'user_handle': 'userHandle', 'signature': 'signature',
                'response': 'response', 'token_binding': 'tokenBinding', 'origin': 'origin', 'status': 'status', 'public_key': 'publicKey', 'mediation': 'mediation'})
CURVES = [(T.EC2Curve, 'P_256', 32), (T.EC2Curve, 'P_384', 48), (T.EC2Curve, 'P_521', 66), (T.OKPCurve, 'ED25519', 32), (T.OKPCurve, 'ED448', 57)]
HASHES = [('ES256', 'sha256', 32), ('ES384', 'sha384', 48), ('ES512', 'sha512', 64)]


def tables(ctx, rng, index):
    for snake, camel in MEMBERS.items():
        got = snake_to_camel_case(snake)
        require(got == camel, 'the member %s converts to %r, published as %r' % (snake, got, camel))
        if snake == snake.lower():
            require(camel_to_snake_case(camel) == snake, 'the member %s converts back to %r' % (camel, camel_to_snake_case(camel)))
        ctx.judged(('member', snake))
        ctx.count('members')
    for cont, name, n in CURVES:
        for form in ('Name', 'Value'):
            got = curve_coordinate_byte_length(getattr(getattr(cont, form), name))
            require(type(got) is int and got == n, 'the coordinate length of %s is %r' % (name, got))
            ctx.judged(('curve', name, form))
            ctx.count('curves')
    for name, h, size in HASHES:
        for form in ('Name', 'Value'):
            got = ec2_hash_algorithm(getattr(getattr(T.COSEAlgorithmIdentifier, form), name))
            require(got.name == h and got.digest_size == size, 'the hash of %s is %s' % (name, got.name))
            ctx.judged(('hash', name, form))
            ctx.count('hashes')


KINDS = {'small': (small, 16, 16), 'bytes': (random_bytes, 32, 1600), 'long': (long_bytes, 16, 320), 'enumerate': (enumerate_idents, 8, 8), 'idents': (random_idents, 64, 3000), 'tables': (tables, 16, 64)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'exhaustive-shares': 16, 'long': 200, 'base64': 60000, 'identifiers': 5000, 'members': 400, 'curves': 80, 'hashes': 48}
