"""C16: COSE keys survive encode/decode and malformed keys are rejected."""
import itertools

from webauthn_rp import types as T
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key

from wv import fuzz, magic, refcbor, refparse
from wv.core import dump, require
from wv.keys import ALL_SUITES, COORD, COSE_ALG, COSE_CRV, COSE_KTY, COSE_OPS, pick_key
from wv.refcbor import Pairs, enc
from wv.refparse import UNDEF, Verdict, lib_key, same
from wv.sim import rbytes

RULE = ('one evaluation = one key encoded or decoded and compared with an independent COSE codec; every suite x optional-member subset x identifier form is enumerated, '
        'and every member is replaced by every value of a catalogue of wrong types, unknown identifiers and wrong lengths; non-trivial = distinct encoded keys')
OPS = list(COSE_OPS)


def ref(pairs, strict=False):
    V = Verdict()
    out = refparse.cose_key(V, Pairs(pairs), strict)
    return V.result(out)


def ref_bytes(data):
    V = Verdict()
    try:
        top, i = refparse.item(data)
    except refparse.CborReject as e:
        return 'reject', str(e)
    except refparse.CborUnspec as e:
        return 'unspec', str(e)
    if i != len(data):
        V.hard.append('trailing bytes')
    if not V.want(top, (Pairs,), 'key'):
        return V.result(None)
    return V.result(refparse.cose_key(V, top, False))


def plain(v):
    """Pairs -> dict for the already-decoded entry point; None when that loses members."""
    if isinstance(v, Pairs):
        d = {}
        for k, x in v:
            try:
                if k in d:
                    return None
                d[k] = plain(x)
            except TypeError:
                return None
        return d
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def both(ctx, pairs, what, want=None):
    """Decode from bytes and from the decoded dictionary."""
    data = enc(Pairs(pairs))
    verdict, got = refparse.compare(ctx, 'cose', data, ref_bytes(data), parse_cose_key, lib_key, what)
    if want is not None:
        require(verdict == want, 'harness: %s judged %s, wanted %s' % (what, verdict, want), data=data.hex())
    try:
        tree, _ = refparse.item(data)
    except (refparse.CborReject, refparse.CborUnspec):
        return verdict, got
    d = plain(tree)
    if d is not None and type(d) is dict and not has_odd(tree):
        before = dump(d)
        refparse.compare(ctx, 'cose-dict', d, ref_bytes(data), parse_cose_key, lib_key, what)
        require(dump(d) == before, 'the decoded dictionary given was modified', data=data.hex())
    return verdict, got


def has_odd(v):
    if isinstance(v, list):
        return any(has_odd(x) for x in v)
    if isinstance(v, tuple):
        return any(has_odd(x) for x in v)
    return isinstance(v, (refcbor.Tag, refcbor.Simple)) or v is UNDEF


SUBSETS = list(itertools.product([0, 1], repeat=3))
FORMS = ['int', 'str', 'mixed']


def members(rng, key, form, subset):
    extra = {}
    if subset[0]: extra['kid'] = magic.data(rng) if magic.chance(rng, .1) else rbytes(rng, rng.choice([0, 1, 16, 300]))
    if subset[1]: extra['key_ops'] = [rng.choice(OPS) for _ in range(rng.choice([1, 2, 10]) if not magic.chance(rng) else magic.size(rng, 300) or 3)]
    if subset[2]: extra['base_iv'] = magic.data(rng) if magic.chance(rng, .1) else rbytes(rng, rng.choice([0, 8, 13]))
    if form != 'mixed':
        return list(key.members(form=form, **extra).items())
    a, b = key.members(form='int', **extra), key.members(form='str', **extra)
    m = {k: rng.choice([a, b])[k] for k in a}
    if 4 in m:
        m[4] = [rng.choice([x, y]) for x, y in zip(a[4], b[4])]
    return list(m.items())


def roundtrip(ctx, rng, index):
    """bytes -> key -> bytes -> key, and back from keys built with the public constructors."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    key = pick_key(rng, suite)
    for subset in SUBSETS:
        for form in FORMS:
            m = members(rng, key, form, subset)
            if rng.random() < .5:
                rng.shuffle(m)
            _, got = both(ctx, m, 'suite %s/%s members %s form %s' % (suite + (subset, form)), 'ok')
            if got is None:
                continue
            encoded = cose_key(got)
            check_encoding(encoded, dict(m))
            again = parse_cose_key(encoded)
            require(dump(again) == dump(got), 'encode then decode changed the key', before=dump(got), after=dump(again))
            ctx.judged(('rt', encoded))
            ctx.count('roundtrips')
    ctx.count('suite:%s/%s' % suite)
    ctx.sample(suite=suite, cose=key.cose().hex())


def check_encoding(encoded, m):
    try:
        out = refcbor.dec(encoded)
    except Exception as e:  # noqa
        require(False, 'the COSE encoding is not definite-length CBOR: %r' % e, data=encoded.hex())
    require(isinstance(out, Pairs), 'the COSE encoding is not a map', data=encoded.hex())
    require(all(type(k) is int for k, _ in out), 'a label is not an integer', data=encoded.hex())
    require(len(out) == len(dict(out)), 'duplicate labels', data=encoded.hex())
    require(same(dict(out), m), 'the COSE encoding %r does not carry the key members %r' % (dict(out), m), data=encoded.hex())


def constructed(ctx, rng, index):
    """Keys from the public constructors, every identifier form and operation."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    key = pick_key(rng, suite)
    for form in ('Name', 'Value'):
        for op_form in ('Name', 'Value'):
            C = getattr(T.COSEKeyOperation, op_form)
            names = rng.sample(OPS, rng.randint(1, 10))
            kw, m = {}, dict(key.members(form='int' if form == 'Value' else 'str'))
            if rng.random() < .7:
                kw['key_ops'] = [getattr(C, n.upper().replace(' ', '_')) for n in names]
                m[4] = [COSE_OPS[n] if op_form == 'Value' else n for n in names]
            if rng.random() < .5:
                kw['kid'] = m[2] = rbytes(rng, 5)
            if rng.random() < .5:
                kw['base_IV'] = m[5] = rbytes(rng, 8)
            k = key.library_key(form, **kw)
            before = dump(k)
            e = cose_key(k)
            check_encoding(e, m)
            require(dump(k) == before, 'encoding modified the key')
            require(dump(parse_cose_key(e)) == before, 'encode then decode changed the key', before=before, after=dump(parse_cose_key(e)))
            ctx.judged(('con', e))
            ctx.count('constructed')


UNKNOWN = [0, -1, -2, -3, -4, -5, -6, -9, -10, -34, -37, -47, -257, -259, -65535, 5, 8, 9, 11, 35, 36, 100, 2 ** 31, -2 ** 31, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 64 - 1,
           'RS256', 'ES257', 'es256', 'ES256 ', '', 'ES256K', 'ES', 'EDDSA', 'EDDSA', 'P_256', 'P-224', 'p-256', 'P256', 'secp256k1', 'ED25519', 'X25519', 'X448', 'ec2', 'EC', 'RSA',
           'Okp', 'SYMMETRIC', 'SIGN', 'wrap_key', 'WRAP_KEY', 'mac create', 'unknown', '1', '2', '-7', '__class__', 'name', 'Name', 'Value', 'value', 'mro', 4, 6, 7, 3, 2, 1, -7, -8, -35, -36,
           'ES256', 'ES384', 'ES512', 'EdDSA', 'OKP', 'EC2', 'Symmetric', 'P-256', 'P-384', 'P-521', 'Ed25519', 'Ed448']
MISTYPED = [None, True, False, 1.0, 2.0, -7.0, b'', b'ES256', b'\x01', [], [1], ['ES256'], Pairs(), Pairs([(1, 2)]), float('nan')]
LABEL_VALUES = {
    1: UNKNOWN + MISTYPED, 3: UNKNOWN + MISTYPED, -1: UNKNOWN + MISTYPED,
    2: ['', 'kid', 0, 1, True, 1.5, [], [b'x'], Pairs(), b'', b'x' * 1000],
    5: ['', 'iv', 0, 1, True, 1.5, [], [b'x'], Pairs(), b'', b'x' * 1000],
    4: [[], 1, 'sign', b'\x01', True, Pairs([(1, 1)]), [0], [11], ['SIGN'], [None], [True], [1.0], [b'sign'], [[1]], [1, 2, 99], [99, 1], ['sign', 'bogus'], [1, None], [1, True], [1, 1],
        list(range(1, 11)), list(COSE_OPS), [2 ** 64], [-1], ['']],
}


def deviations(ctx, rng, index):
    """Each member of an honest key missing, mistyped or unknown."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    key = pick_key(rng, suite)
    m = members(rng, key, rng.choice(['int', 'str']), rng.choice(SUBSETS))
    for i, (label, _) in enumerate(m):
        rest = [p for p in m if p[0] != label]
        v, _ = both(ctx, rest, 'label %d missing' % label)
        if label in (1, 3, -1, -2, -3):
            require(v == 'reject', 'harness')
            ctx.count('missing')
        # the same content under a neighbouring label
        for other in {label + 1, label - 1, -label, str(label)} - {k for k, _ in m}:
            both(ctx, rest + [(other, m[i][1])], 'label %d given as %r' % (label, other))
    for label, values in LABEL_VALUES.items():
        for val in values:
            v, _ = both(ctx, [p for p in m if p[0] != label] + [(label, val)], 'label %d = %r' % (label, val if not isinstance(val, bytes) else len(val)))
            ctx.count('wrong-value:' + v)
    labels = (-2, -3) if key.ec2 else (-2,)
    size = COORD[suite[0]]
    for label in labels:
        for n in sorted({0, 1, size - 1, size + 1, size * 2, size // 2, 32, 33, 48, 49, 56, 57, 64, 65, 66, 67, 114, 132}):
            val = rbytes(rng, n) if n != size else dict(m)[label]
            v, _ = both(ctx, [p if p[0] != label else (label, val) for p in m], 'coordinate %d of %d bytes' % (label, n))
            if n != size:
                require(v == 'reject', 'harness')
                ctx.count('wrong-length')
        good = dict(m)[label]
        for val in (good + b'\0', b'\0' + good, good[:-1], good[1:], good.lstrip(b'\0') if good[:1] == b'\0' else good[1:], good.hex(), int.from_bytes(good, 'big'), list(good), True, None, b'', [good], Pairs([(0, good)])):
            both(ctx, [p if p[0] != label else (label, val) for p in m], 'coordinate %d replaced by %s' % (label, type(val).__name__))
        if key.ec2:
            for val in (True, False):   # compressed point forms are not supported by the library
                both(ctx, [p if p[0] != -3 else (-3, val) for p in m], 'compressed y')
    # curve and key type of one another
    for kty, crv in itertools.product(list(COSE_KTY.values()) + list(COSE_KTY) + [3, 4], list(COSE_CRV.values()) + list(COSE_CRV) + [4, 5, 8]):
        d = dict(m)
        d[1], d[-1] = kty, crv
        both(ctx, list(d.items()), 'type %r with curve %r' % (kty, crv))
        if crv in COSE_CRV.values() or crv in COSE_CRV:
            n = COORD[crv if crv in COSE_CRV else {v: k for k, v in COSE_CRV.items()}[crv]]
            d[-2] = rbytes(rng, n)
            if rng.random() < .7:
                d[-3] = rbytes(rng, n)
            both(ctx, list(d.items()), 'type %r with curve %r and fitting coordinates' % (kty, crv))
        ctx.count('type-curve-pairs')


def hostile(ctx, rng, index):
    for _ in range(25):
        key = pick_key(rng)
        data = enc(Pairs(members(rng, key, rng.choice(FORMS), rng.choice(SUBSETS))))
        r = rng.random()
        data = fuzz.graft(rng, data) if r < .6 else fuzz.mutate(rng, data) if r < .85 else fuzz.cbor(rng)
        refparse.compare(ctx, 'cose', data, ref_bytes(data), parse_cose_key, lib_key, 'hostile')
    ctx.count('hostile', 25)


def arbitrary(ctx, rng, index):
    """Any byte string of the right length is a coordinate: leading, trailing and all zeros, patterns; decoded, encoded, decoded, and from the constructors."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    key = pick_key(rng, suite)
    size = COORD[suite[0]]

    def coordinate():
        z = rng.choice([0, 0, 1, 2, 3, 8, 16, size // 2, size - 32, size - 31, size - 33, size - 2, size - 1, size])
        z = min(max(z, 0), size)
        body = rng.choice([rbytes(rng, size - z), b'\xff' * (size - z), b'\x80' * (size - z), b'\x01' * (size - z)])
        return rng.choice([bytes(z) + body, bytes(z) + body, body + bytes(z)])
    for n in range(20):
        m = dict(members(rng, key, rng.choice(FORMS), rng.choice(SUBSETS)))
        m[-2] = bytes(size) if n == 0 else bytes(size - 1) + b'\x01' if n == 1 else coordinate()
        if key.ec2:
            m[-3] = m[-2] if n in (0, 2) else coordinate()
        _, got = both(ctx, list(m.items()), 'coordinates with zeros', 'ok')
        if got is None:
            continue
        encoded = cose_key(got)
        check_encoding(encoded, m)
        require(dump(parse_cose_key(encoded)) == dump(got), 'encode then decode changed the key', data=encoded.hex())
        built = type(got)(**{k: v for k, v in vars(got).items()})
        require(cose_key(built) == encoded, 'a key built from the same members is encoded differently', data=encoded.hex())
        ctx.judged(('arb', encoded))
        ctx.count('arbitrary-coordinates')


def lengths(ctx, rng, index):
    """Every pair of coordinate lengths around the lengths in use, whatever their sum, and long optional members."""
    suite = ALL_SUITES[index % len(ALL_SUITES)]
    key = pick_key(rng, suite)
    size = COORD[suite[0]]
    m = dict(members(rng, key, rng.choice(['int', 'str']), rng.choice(SUBSETS)))
    near = sorted({0, 1, size - 2, size - 1, size, size + 1, size + 2, 2 * size, 2 * size + 1, 31, 32, 33, 47, 48, 49, 57, 65, 66, 67, 132})
    cut = lambda v, n: v[:n] if n < len(v) else v + rbytes(rng, n - len(v)) if rng.random() < .5 else v + bytes(n - len(v))
    for nx in near:
        for ny in near if key.ec2 else [None, 0, 1, 32, 57]:
            d = dict(m)
            d[-2] = cut(d[-2], nx)
            if ny is not None:
                d[-3] = cut(d.get(-3, b''), ny)
            both(ctx, list(d.items()), 'coordinates of %s and %s bytes' % (nx, ny), None if nx == size and ny in (size, None) else 'reject' if key.ec2 or nx != size else None)
            ctx.count('length-pairs')
    for n in (255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536, 70000):
        for label in (2, 5):
            d = dict(m)
            d[label] = rbytes(rng, n)
            _, got = both(ctx, list(d.items()), 'label %d of %d bytes' % (label, n), 'ok')
            if got is not None:
                check_encoding(cose_key(got), d)
    for n in (11, 23, 24, 25, 100, 255, 256, 300):
        d = dict(m)
        d[4] = [rng.choice(list(COSE_OPS) + list(COSE_OPS.values())) for _ in range(n)]
        _, got = both(ctx, list(d.items()), '%d operations' % n)
        if got is not None:
            check_encoding(cose_key(got), d)
        d[4][rng.randrange(n)] = rng.choice([0, 11, 'x', None, True, b'sign'])
        both(ctx, list(d.items()), '%d operations, one of them unknown' % n)
    ctx.count('long-members')
    bogus = [0, 11, -1, 'x', 'SIGN', '', None, True, 1.0, b'sign', [1], Pairs()]
    for n in (1, 2, 3, 10, 12):
        ops = [rng.choice(list(COSE_OPS) + list(COSE_OPS.values())) for _ in range(n)]
        for i in range(n):
            d = dict(m)
            d[4] = ops[:i] + [bogus[(i + n + index) % len(bogus)]] + ops[i + 1:]
            both(ctx, list(d.items()), 'operation %d of %d unknown' % (i, n))
            ctx.count('operation-places')


KINDS = {'roundtrip': (roundtrip, 88, 4400), 'constructed': (constructed, 88, 4400), 'deviations': (deviations, 22, 900), 'arbitrary': (arbitrary, 22, 900), 'lengths': (lengths, 11, 440), 'hostile': (hostile, 240, 18000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'roundtrips': 500, 'constructed': 100, 'missing': 50, 'length-pairs': 1000, 'long-members': 11, 'arbitrary-coordinates': 400, 'operation-places': 250, 'wrong-length': 200, 'wrong-value:reject': 1000, 'cose:ok': 500, 'cose:reject': 3000,
            **{'suite:%s/%s' % s: 1 for s in ALL_SUITES}}
