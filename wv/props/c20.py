"""C20: extension outputs decode faithfully and strictly."""
import itertools

from webauthn_rp.parsers import parse_authenticator_data, parse_extensions

from wv import fuzz, magic, refparse
from wv.core import dump, require
from wv.refcbor import F32, Pairs, Raw, enc
from wv.refparse import LIB_ATTR, Verdict, compare, lib_ext, to_python
from wv.sim import COORDS, ED, EXTS, AuthData, gen_ext_value, gen_exts, gen_text, rbytes

RULE = ('one evaluation = one extension map decoded (as a dictionary and inside authenticator data) and compared with an independent decoder; every single extension, '
        'pair and coordinate subset is enumerated, every output given every wrong type; non-trivial = distinct maps')
FALSY = {'appid': False, 'txAuthSimple': '', 'txAuthGeneric': b'', 'authnSel': False, 'exts': [], 'uvi': b'', 'loc': Pairs(), 'uvm': [], 'biometricPerfBounds': False}
TRUTHY = {'appid': True, 'txAuthSimple': 'x', 'txAuthGeneric': b'\1', 'authnSel': True, 'exts': ['a'], 'uvi': b'\0', 'loc': Pairs([('latitude', 0)]), 'uvm': [[0]], 'biometricPerfBounds': True}


def value(rng, name):
    v = gen_ext_value(rng, name)
    return Pairs(v.items()) if isinstance(v, dict) else v


def check(ctx, pairs, what, want=None):
    pairs = Pairs(pairs)
    data = enc(pairs)
    wrapped = rbytes_head() + data
    v, got = compare(ctx, 'ext-bytes', wrapped, refparse.auth_data(wrapped), parse_authenticator_data, refparse.lib_auth_data, what)
    require(want is None or v == want, 'harness: %s judged %s' % (what, v))
    if v == 'unspec' or plain_ok(pairs) is False:
        return v, got
    d = to_python(pairs)
    if len(d) != len(pairs):
        return v, got
    before = dump(d)
    V = Verdict()
    exp = refparse.extensions(V, pairs)
    v2, e = compare(ctx, 'ext', d, V.result(exp), parse_extensions, lib_ext, what)
    require(dump(d) == before, 'the given extension dictionary was modified (%s)' % what)
    if e is not None and v2 == 'ok':
        for wire, attr in LIB_ATTR.items():
            if wire not in exp:
                require(getattr(e, attr) is None, 'absent extension %s is not None' % wire, what=what)
        if e.loc is not None:
            for c, a in refparse.LIB_COORD.items():
                if c not in exp['loc']:
                    require(getattr(e.loc, a) is None, 'absent coordinate %s is not None' % c, what=what)
    return v, got


def rbytes_head():
    return b'\x11' * 32 + bytes([ED | 1]) + b'\0\0\0\7'


def plain_ok(v):
    """Only values the dictionary entry point can be given directly."""
    if isinstance(v, Pairs):
        return all(isinstance(k, (str, int, bytes, float)) and plain_ok(x) for k, x in v)
    if isinstance(v, list):
        return all(plain_ok(x) for x in v)
    return type(v) in (int, float, str, bytes, bool)


def singles(ctx, rng, index):
    name = EXTS[index % 9]
    for v in [FALSY[name], TRUTHY[name]] + [value(rng, name) for _ in range(4)]:
        check(ctx, [(name, v)], 'only %s' % name, 'ok')
        ctx.count('single:' + name)
    for other in EXTS:
        if other != name:
            for a, b in itertools.product((FALSY, TRUTHY), repeat=2):
                check(ctx, [(name, a[name]), (other, b[other])], '%s and %s' % (name, other), 'ok')
                ctx.count('pairs')
    ctx.sample(name=name)


def coordinates(ctx, rng, index):
    """Every subset of coordinates, distinct values, kept in their own fields."""
    for mask in range(index % 4, 128, 4):
        names = [c for i, c in enumerate(COORDS) if mask >> i & 1]
        rng.shuffle(names)
        vals = [rng.choice([0, 0.0, -1, 90, -180.0, 1e-300, 2 ** 62, -2 ** 62, float('inf'), F32(1.5), i + 1, i + .5, rng.uniform(-180, 180), magic.real(rng), rng.choice([90, 180, 360, 359.999, -360, 270, 45, 100, 1000, 299792458, -90.0, -180, 1e-9, -1e-9])]) for i, _ in enumerate(names)]
        if rng.random() < .5:
            vals = [i + 1 for i in range(len(names))]
        check(ctx, [('loc', Pairs(zip(names, vals)))], 'coordinates %s' % names, 'ok')
        ctx.count('coordinate-subsets')


def subsets(ctx, rng, index):
    """Every subset of extensions in random order, falsy, truthy and arbitrary values."""
    for mask in range(index % 8, 512, 8):
        names = [e for i, e in enumerate(EXTS) if mask >> i & 1]
        rng.shuffle(names)
        src = rng.choice([lambda n: FALSY[n], lambda n: TRUTHY[n], lambda n: value(rng, n), lambda n: rng.choice([FALSY, TRUTHY])[n]])
        check(ctx, [(n, src(n)) for n in names], 'extensions %s' % names, 'ok')
        ctx.count('extension-subsets')


ANY = [None, True, False, 0, 1, -1, 2 ** 64 - 1, 1.5, 0.0, '', 'x', 'true', b'', b'x', b'\x01', [], [True], [''], [b''], [0], [[]], [[0]], [['x']], [[True]], [[1.0]], [[None]], [None], [[[1]]], [{}], [Pairs()], ['a', 1],
       ['a', b'b'], [[1, 2], 3], [[1, 2], [3, 'x']], [[1], [b'x']], [1, 2], Pairs(), Pairs([('latitude', 1)]), Pairs([('latitude', '1')]), Pairs([('latitude', True)]), Pairs([('latitude', None)]), Pairs([('latitude', [1])]),
       Pairs([('latitude', b'1')]), Pairs([('lat', 1)]), Pairs([('latitude', 1), ('x', 2)]), Pairs([('Latitude', 1)]), Pairs([(0, 1)]), Pairs([(b'latitude', 1)]), Pairs([('altitude_accuracy', 1)]),
       Pairs([('latitude', 1), ('longitude', False)]), Pairs([('speed', 'fast')]), Pairs([('altitudeAccuracy', 3)]), Pairs([('', 1)])]
NAMES = ['', 'AppId', 'appId', 'APPID', 'appid ', 'txauthsimple', 'tx_auth_simple', 'tx_auth_generic', 'authn_sel', 'authnsel', 'ext', 'uvi2', 'location', 'UVM', 'uvms', 'biometric_perf_bounds', 'biometricPerfBound', 'hmac-secret',
         'credProtect', 'credProps', 'largeBlob', 'loc.latitude', 'latitude', '__class__', 0, 1, -7, True, None, 1.5, b'appid', b'', 2 ** 64 - 1]


def deviations(ctx, rng, index):
    name = EXTS[index % 9]
    others = [(n, value(rng, n)) for n in EXTS if n != name and rng.random() < .3]
    for v in ANY:
        w, _ = check(ctx, others + [(name, v)], '%s=%r' % (name, v))
        ctx.count('typed:' + w)
    for n in NAMES:
        for v in (TRUTHY[name], None):
            w, _ = check(ctx, others + [(n, v)], 'unsupported %r' % (n,))
            ctx.count('unsupported:' + w)
    for c in COORDS:
        for v in [None, True, False, '', '1', b'1', [], [1], Pairs()]:
            rest = [(k, 1) for k in COORDS if k != c and rng.random() < .3]
            rest.insert(rng.randint(0, len(rest)), (c, v))
            w, _ = check(ctx, [('loc', Pairs(rest))], 'coordinate %s=%r' % (c, v))
            ctx.count('coordinate-typed:' + w)
        for k in (c.upper(), c.lower() if c.lower() != c else c + 's', c + ' ', c[:-1], 'alt', 'lat', 'coords', '', 0):
            w, _ = check(ctx, [('loc', Pairs([('latitude', 1.0), (k, 2.0)]))], 'coordinate named %r' % (k,))
            ctx.count('coordinate-named:' + w)


def positions(ctx, rng, index):
    """Lists of every length with one wrong element, at every position and depth."""
    n = index % 12 + (0 if index < 24 else rng.choice([0, 20, 88]))
    for i in range(n):
        for bad in ([None, True, 1, b'x', ['x'], 1.5][index % 6], rng.choice([0, False, b'', [], Pairs()])):
            l = ['e%d' % k for k in range(n)]
            l[i] = bad
            check(ctx, [('exts', l)], 'exts of %d with %r at %d' % (n, bad, i), 'reject' if bad is not None else None)
        for bad in (['1', True, None, b'1', 1.0, [1]][index % 6], rng.choice(['', False, b'', [], Pairs()])):
            l = list(range(n))
            l[i] = bad
            want = 'reject' if bad is not None else None
            check(ctx, [('uvm', [l])], 'uvm entry of %d with %r at %d' % (n, bad, i), want)
            outer = [[k, 4, 2] for k in range(n)]
            outer[i] = l
            check(ctx, [('uvm', outer)], 'uvm of %d, entry %d of %d with %r' % (n, i, n, bad), want)
            outer[i] = bad
            check(ctx, [('uvm', outer)], 'uvm of %d with %r at %d' % (n, bad, i), None if bad is None or bad == [1] or bad == [] else 'reject')
        check(ctx, [('uvm', [list(range(n))] * (i + 1)), ('exts', ['x'] * n)], 'long lists', 'ok')
        ctx.count('positions')


def hostile(ctx, rng, index):
    for _ in range(25):
        data = enc(Pairs((n, value(rng, n)) for n in EXTS if rng.random() < .5))
        r = rng.random()
        data = fuzz.graft(rng, data) if r < .7 else fuzz.mutate(rng, data) if r < .9 else fuzz.cbor(rng)
        wrapped = rbytes_head() + data
        compare(ctx, 'ext-bytes', wrapped, refparse.auth_data(wrapped), parse_authenticator_data, refparse.lib_auth_data, 'hostile')
    ctx.count('hostile', 25)


KINDS = {'singles': (singles, 90, 3600), 'coordinates': (coordinates, 40, 2000), 'subsets': (subsets, 48, 2400), 'deviations': (deviations, 54, 2000), 'positions': (positions, 36, 600), 'hostile': (hostile, 240, 15000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'positions': 100, **{'single:' + e: 20 for e in EXTS}, 'coordinate-subsets': 500, 'extension-subsets': 1000, 'typed:reject': 500, 'unsupported:reject': 300, 'coordinate-typed:reject': 200,
            'coordinate-named:reject': 100, 'ext:ok': 1000, 'ext-bytes:ok': 1000}
