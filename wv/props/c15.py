"""C15: authenticator data decodes exactly or is rejected."""
from webauthn_rp.parsers import parse_authenticator_data

from wv import fuzz, magic, refcbor, refparse
from wv.core import require
from wv.keys import ALL_SUITES, pick_key
from wv.refcbor import Pairs
from wv.sim import AT, ED, EXTS, AuthData, gen_exts, gen_ext_value, rbytes

RULE = ('one evaluation = one byte string given to parse_authenticator_data and compared with an independent decoder (value, or rejection); '
        'every flags byte, every truncation point and every credential ID length class is enumerated; non-trivial = distinct byte strings')
COUNTS = [0, 1, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]


def honest(rng, flags=None, cid_len=None, suite=None, ext=None):
    if flags is None:
        flags = rng.randrange(256)
    key = pick_key(rng, suite)
    extra = {}
    if rng.random() < .2: extra['kid'] = magic.data(rng) if magic.chance(rng, .1) else rbytes(rng, rng.choice([0, 1, 24, 300]))
    if rng.random() < .2: extra['key_ops'] = rng.sample(['sign', 'verify', 'encrypt', 'MAC verify'], rng.choice([1, 2, 4]))
    if rng.random() < .2: extra['base_iv'] = rbytes(rng, rng.choice([0, 8, 12]))
    m = key.members(form=rng.choice(['int', 'int', 'str']), **extra)
    items = list(m.items())
    if rng.random() < .3:
        rng.shuffle(items)
    n = cid_len if cid_len is not None else (magic.size(rng, 65000) or 7) if magic.chance(rng) else rng.choice([0, 1, 16, 32, 64, 255, 256, 257, 1023])
    return AuthData(rbytes(rng, 32), flags, rng.choice(COUNTS + [rng.randrange(2 ** 32)] * 5) if not magic.chance(rng) else magic.number(rng, 0, 2 ** 32 - 1) or 3,
                    (rbytes(rng, 16) if not magic.chance(rng) else magic.data(rng)[:16].rjust(16, b'\0'), rbytes(rng, n) if not magic.chance(rng) else (magic.data(rng) + bytes(n))[:n], refcbor.enc(Pairs(items))), ext if ext is not None else gen_exts(rng))


def check(ctx, data, what):
    return refparse.compare(ctx, 'authdata', data, refparse.auth_data(data), parse_authenticator_data, refparse.lib_auth_data, what)


def flags(ctx, rng, index):
    """Every flags byte, with the data it announces, and the same data under other flags."""
    f = index % 256
    ad = honest(rng, f)
    b = ad.encode()
    v, got = check(ctx, b, 'flags %02x' % f)
    require(v == 'ok', 'harness: honest data judged %s' % v)
    if got is not None:
        require((got.attested_credential_data is not None) == bool(f & AT) and (got.extensions is not None) == bool(f & ED),
                'members present do not follow the flags %02x' % f, data=b.hex())
    for g in {f ^ AT, f ^ ED, f ^ AT ^ ED, f ^ (1 << rng.randrange(8))}:
        check(ctx, b[:32] + bytes([g]) + b[33:], 'flags %02x announced as %02x' % (f, g))
    for tail in (b'\0', b'\xa0', b'\xf6', rbytes(rng, 3), b'\xa1\x65appid\xf5', b[37:] or b'x'):
        v, _ = check(ctx, b + tail, 'leftover bytes after flags %02x' % f)
        ctx.count('leftover')
    ctx.count('flags-bytes')
    ctx.sample(data=b.hex()[:200], flags=f)


def lengths(ctx, rng, index):
    n = LENGTHS[index % len(LENGTHS)]
    ad = honest(rng, AT | 1 | (ED if rng.random() < .3 else 0), n, suite=rng.choice(ALL_SUITES))
    b = ad.encode()
    v, got = check(ctx, b, 'credential id of %d bytes' % n)
    require(v == 'ok', 'harness: honest data judged %s' % v)
    # lying lengths
    for m in {0, n - 1, n + 1, n * 2, n // 2, 65535, n ^ 256, int.from_bytes(n.to_bytes(2, 'big'), 'little'), n + len(b)}:
        if 0 <= m < 65536 and m != n:
            check(ctx, b[:53] + m.to_bytes(2, 'big') + b[55:], 'credential id of %d bytes announced as %d' % (n, m))
    ctx.count('cid-lengths')


LENGTHS = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 32767, 32768, 65279, 65280, 65534, 65535]


def truncations(ctx, rng, index):
    """Every proper prefix is rejected."""
    f = rng.choice([1, 1 | AT, 1 | ED, 1 | AT | ED]) if index % 4 else 1 | AT | ED
    ad = honest(rng, f, rng.choice([0, 1, 16, 64]))
    b = ad.encode()
    points = range(len(b))
    if len(b) > 1500:        # long data: every point near either end, and some between
        points = sorted({*range(300), *range(len(b) - 50, len(b)), *(rng.randrange(len(b)) for _ in range(50))})
    for i in points:
        v, _ = check(ctx, b[:i], 'truncated at %d of %d, flags %02x' % (i, len(b), f))
        if v != 'reject':
            require(v == 'unspec', 'harness: truncation judged %s' % v)
    ctx.count('truncations', len(points))


def hostile(ctx, rng, index):
    """Replace the key or the extension map, or mutate bytes."""
    for _ in range(12):
        ad = honest(rng, rng.choice([AT, ED, AT | ED]) | 1, rng.choice([0, 1, 16, 32]))
        r = rng.random()
        if r < .35:
            aaguid, cid, key = ad.att
            ad.flags |= AT
            ad.att = (aaguid, cid, fuzz.graft(rng, key))
            b, what = ad.encode(), 'grafted key'
        elif r < .45:
            ad.flags |= AT
            items = list(dict(refcbor.dec(ad.att[2])).items())
            i = rng.randrange(len(items))
            del items[i]
            ad.att = ad.att[:2] + (refcbor.enc(Pairs(items)),)
            b, what = ad.encode(), 'key member dropped'
        elif r < .7:
            ad.flags |= ED
            ad.ext = refcbor.Raw(fuzz.graft(rng, refcbor.enc(ad.ext)))
            b, what = ad.encode(), 'grafted extensions'
        elif r < .8:
            ad.flags |= ED
            ad.ext = refcbor.Raw(fuzz.cbor(rng)[:300])
            b, what = ad.encode(), 'arbitrary extensions'
        else:
            b, what = fuzz.mutate(rng, ad.encode()), 'mutated bytes'
        check(ctx, b, what)
        ctx.count('hostile:' + what)


def twins(ctx, rng, index):
    """Back-to-back decodes do not influence one another."""
    a, b = honest(rng).encode(), honest(rng).encode()
    _, ga = check(ctx, a, 'first')
    check(ctx, b, 'second')
    if ga is not None:
        require(refparse.same(refparse.lib_auth_data(ga), refparse.auth_data(a)[1]), 'an earlier result changed when other data was decoded', data=a.hex())
    ctx.count('twins')


def wide(ctx, rng, index):
    """The same key and extension maps with heads longer than they need to be: still what they were, and still as long as they are."""
    f = 1 | (AT, ED, AT | ED)[index % 3]
    ad = honest(rng, f, rng.choice([0, 1, 16, 64]), suite=rng.choice(ALL_SUITES))
    if f & AT:
        ad.att = ad.att[:2] + (refcbor.wide(rng, refcbor.dec(ad.att[2]), rng.choice([.1, .5, 1])),)
    if f & ED and rng.random() < .7:
        ad.ext = refcbor.Raw(refcbor.wide(rng, refcbor.dec(refcbor.enc(ad.ext)), rng.choice([.1, .5, 1])))
    b = ad.encode()
    v, got = check(ctx, b, 'long heads')
    require(v == 'ok', 'harness: long heads judged %s' % v)
    check(ctx, b + b'\0', 'leftover after long heads')
    check(ctx, b[:-1], 'truncated long heads')
    ctx.count('long-heads')


KINDS = {'wide': (wide, 400, 8000), 'flags': (flags, 512, 6000), 'lengths': (lengths, 2 * len(LENGTHS), 30 * len(LENGTHS)), 'truncations': (truncations, 60, 1500),
         'hostile': (hostile, 500, 25000), 'twins': (twins, 200, 4000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'long-heads': 300, 'flags-bytes': 256, 'cid-lengths': len(LENGTHS), 'truncations': 2000, 'authdata:ok': 500, 'authdata:reject': 4000, 'leftover': 1000,
            'hostile:grafted key': 300, 'hostile:grafted extensions': 300}
