"""C19: attestation objects decode faithfully and strictly."""
import itertools

from webauthn_rp import parsers as P

from wv import fuzz, magic, refcbor, refparse
from wv.core import dump, require
from wv.keys import COSE_ALG
from wv.props import c15
from wv.props.c16 import UNKNOWN
from wv.refcbor import Pairs, enc
from wv.refparse import BASE, FORMATS, Verdict, compare, lib_statement, same
from wv.sim import gen_text, rbytes

RULE = ('one evaluation = one attestation object (or statement dictionary) decoded and compared with an independent decoder; every format x statement variant is '
        'enumerated, every member dropped, mistyped, renamed and moved between formats; non-trivial = distinct byte strings')
SHAPES = [('packed', None), ('packed', 'x5c'), ('packed', 'ecdaaKeyId'), ('tpm', None), ('tpm', 'x5c'), ('tpm', 'ecdaaKeyId'), ('android-key', None),
          ('android-safetynet', None), ('fido-u2f', None), ('none', None)]
MEMBERS = ['alg', 'sig', 'x5c', 'ver', 'certInfo', 'pubArea', 'ecdaaKeyId', 'response']
STMT_PARSERS = {'packed': P.parse_packed_attestation_statement, 'tpm': P.parse_tpm_attestation_statement, 'android-key': P.parse_android_key_attestation_statement,
                'android-safetynet': P.parse_android_safetynet_attestation_statement, 'fido-u2f': P.parse_fido_u2f_attestation_statement, 'none': P.parse_none_attestation_statement}


def blob(rng):
    if magic.chance(rng):
        return rng.choice([magic.data(rng), rbytes(rng, magic.size(rng, 100000) or 9)])
    return rbytes(rng, rng.choice([0, 1, 16, 70, 71, 255, 256, 900]) if rng.random() < .98 else rng.choice([1025, 4097, 65536, 100000]))


def member(rng, name):
    if name == 'alg':
        a = rng.choice(list(COSE_ALG))
        return COSE_ALG[a] if rng.random() < .6 else a
    if name == 'x5c':
        return [blob(rng) for _ in range(magic.size(rng, 300) or 4 if magic.chance(rng) else rng.choice([0, 1, 1, 2, 3, 5] if rng.random() < .95 else [8, 10, 11, 17, 32, 33, 100, 257]))]
    if name == 'ver':
        if magic.chance(rng):
            return magic.text(rng)
        return rng.choice(['2.0', '1.2', '', '14366018', '2.0\n', ' 2.0', 'x' * 300, gen_text(rng)])
    return blob(rng)


def statement(rng, shape):
    fmt, opt = shape
    names = list(BASE[fmt]) + ([opt] if opt else [])
    rng.shuffle(names)
    return Pairs((n, member(rng, n)) for n in names)


def obj(rng, fmt, stmt, ad=None, shuffle=True):
    ad = ad if ad is not None else c15.honest(rng, rng.choice([0, 1, 65, 129, 193, 69, 255]), rng.choice([0, 1, 16, 64])).encode()
    m = [('fmt', fmt), ('attStmt', stmt), ('authData', ad)]
    if shuffle:
        rng.shuffle(m)
    return Pairs(m)


def check(ctx, tree, what, want=None):
    data = tree if isinstance(tree, bytes) else enc(tree)
    r = refparse.att_object(data)
    raw = {}

    def call(d):
        out = P.parse_attestation_object(d)
        require(type(out) is tuple and len(out) == 2, 'the result is not a pair')
        raw['map'] = out[1]
        return out[0]
    v, got = compare(ctx, 'attobj', data, r, call, refparse.lib_att_object, what)
    if (v == 'ok' or type(r[1]) is refparse.Either) and got is not None:
        top, _ = refparse.item(data)
        require(dump(raw['map']) == dump(refparse.to_python(top)), 'the raw map is not what was encoded (%s)' % what, data=data.hex())
    require(want is None or v == want, 'harness: %s judged %s' % (what, v), data=data.hex())
    return v, got


def faithful(ctx, rng, index):
    shape = SHAPES[index % len(SHAPES)]
    for _ in range(6):
        st = statement(rng, shape)
        check(ctx, obj(rng, shape[0], st), 'shape %s/%s' % shape, 'ok')
        stmt_dict(ctx, shape[0], st, 'shape %s/%s' % shape)
        ctx.count('shape:%s/%s' % shape)
    ctx.sample(shape=shape, stmt=repr(st)[:200])


def stmt_dict(ctx, fmt, st, what):
    """The statement parser on its own, given the decoded dictionary, which it must leave alone."""
    V = Verdict()
    exp = refparse.statement(V, fmt, st)
    d = refparse.to_python(st)
    if len(d) != len(st):
        return None
    before = dump(d)
    v, _ = compare(ctx, 'stmt', d, V.result(exp), STMT_PARSERS[fmt], lib_statement, what)
    require(dump(d) == before, 'the statement dictionary was modified (%s)' % what)
    return v


WRONG = {
    'alg': UNKNOWN + [None, True, 1.0, -7.0, b'', b'ES256', [], [-7], Pairs()],
    'x5c': [None, b'cert', 'cert', 1, True, Pairs(), Pairs([(0, b'x')]), ['cert'], [b'x', 'y'], [b'x', None], [None], [[b'x']], [1], [b'x', 1, b'y'], [b'x', Pairs()], [True]],
    'ver': [None, b'2.0', 2, 2.0, True, [], ['2.0'], Pairs()],
}
for _n in ('sig', 'certInfo', 'pubArea', 'ecdaaKeyId', 'response'):
    WRONG[_n] = [None, '', 'text', 'AAAA', 0, 1, True, False, 1.5, [], [b'x'], [1, 2], Pairs(), Pairs([('a', b'b')])]
FMTS = ['', 'None', 'NONE', 'none ', 'pack', 'PACKED', 'fido_u2f', 'fido-u2f\0', 'u2f', 'android', 'android_key', 'apple', 'android-safetynet2', 'compound', 'tpm2', 'safetynet', '__class__', 'mro', 'name',
        None, 0, 1, True, 1.5, b'none', b'packed', [], ['none'], Pairs(), Pairs([('none', 1)])]


def deviations(ctx, rng, index):
    shape = SHAPES[index % len(SHAPES)]
    fmt, opt = shape
    st = statement(rng, shape)
    ad = c15.honest(rng, rng.choice([1, 65, 193]), 16).encode()

    def both(s, what):
        v, _ = check(ctx, obj(rng, fmt, s, ad), what)
        stmt_dict(ctx, fmt, s, what)
        return v
    for name, val in st:
        rest = Pairs(p for p in st if p[0] != name)
        v = both(rest, '%s/%s without %s' % (shape + (name,)))
        ctx.count('missing:' + v)
        for w in WRONG[name]:
            v = both(Pairs(p if p[0] != name else (name, w) for p in st), '%s/%s with %s=%r' % (shape + (name, w)))
            ctx.count('wrong:' + v)
        for other in {name.upper(), name.lower(), name + ' ', name.capitalize(), name.encode()} - {n for n, _ in st}:
            both(rest + Pairs([(other, val)]) if False else Pairs(list(rest) + [(other, val)]), '%s/%s with %s renamed %r' % (shape + (name, other)))
    for extra in MEMBERS + ['extra', '', 'X5C', 'ecdaakeyid', 'fmt', 'authData', 'attStmt', 0, 1, -7, b'sig', None]:
        if any(k == extra and type(k) is type(extra) for k, _ in st):
            continue
        for val in ([member(rng, extra)] if extra in MEMBERS else [b'x', None]):
            v = both(Pairs(list(st) + [(extra, val)]), '%s/%s with additional %r' % (shape + (extra,)))
            ctx.count('extra:' + v)
    for f in FMTS + list(FORMATS):
        v, _ = check(ctx, obj(rng, f, st, ad), 'statement of %s/%s under format %r' % (shape + (f,)))
        ctx.count('format:' + v)
    full = obj(rng, fmt, st, ad)
    for n in range(3):
        for keep in itertools.combinations(full, n):
            check(ctx, Pairs(keep), 'members %s only' % ([k for k, _ in keep],), 'reject')
            ctx.count('member-missing')
    for name in ('fmt', 'attStmt', 'authData'):
        for w in [None, 0, 1, True, 1.5, '', 'none', b'', b'\xa0', [], [1], Pairs(), Pairs([('a', 1)]), b'x' * 36, b'\0' * 37, b'\x40' * 37, ad + b'\0', ad[:-1], ad.hex(), enc(st), [st]]:
            v, _ = check(ctx, Pairs((k, x) if k != name else (k, w) for k, x in full), '%s=%r' % (name, w if not isinstance(w, bytes) else len(w)))
            ctx.count('member-wrong:' + v)
        for other in (name.lower(), name.upper(), name + ' ', name.encode(), {'fmt': 'format', 'attStmt': 'att_stmt', 'authData': 'auth_data'}[name]):
            if other != name:
                check(ctx, Pairs((k, x) if k != name else (other, x) for k, x in full), '%s renamed %r' % (name, other), 'reject')
    for top in [[], [1, 2, 3], ['none', Pairs(), ad], b'', b'x', 'none', 0, None, True, 1.5, enc(full), [full]]:
        check(ctx, enc(top), 'not a map', 'reject')
        ctx.count('not-a-map')


MORE = ['', 'x5c', 'sig', 'alg', 'FMT', 'fmt ', 'Fmt', 'attstmt', 'authdata', 'auth_data', 'attStmts', 'epAtt', 'largeBlobKey', 'unsignedExtensionOutputs', 'extensions', 'ver', 'format', 'type', 0, 1, 2, 3, -1, 24, 256, b'fmt', b'', b'authData', None, 'rpIdHash']


def additional(ctx, rng, index):
    """Members that an attestation object need not have: refused, or decoded as without them, with the raw map showing them."""
    shape = SHAPES[index % len(SHAPES)]
    for _ in range(8):
        full = obj(rng, shape[0], statement(rng, shape))
        ks = rng.sample(MORE + [magic.word(rng) or 'w'], rng.choice([1, 1, 2, 5, 12]))
        for k in ks:
            v = rng.choice([None, True, 0, 1, -1, '', 'none', b'', b'x', [], [1, b'x', [None]], Pairs(), Pairs([('a', Pairs([(1, b'x')]))]), rbytes(rng, 40), 1.5, 'packed', full[0][1]])
            if not any(k == o and type(k) is type(o) for o, _ in full):
                full.insert(rng.randint(0, len(full)), (k, v))
        v, got = check(ctx, Pairs(full), 'with additional members %r' % (ks,))
        ctx.count('additional:' + ('refused' if got is None else 'decoded'))
        if rng.random() < .2:
            check(ctx, enc(Pairs(full)) + rng.choice([b'\0', b'\xa0', b'\xf6', rbytes(rng, 5)]), 'with bytes behind it')


def hostile(ctx, rng, index):
    for _ in range(25):
        shape = rng.choice(SHAPES)
        data = enc(obj(rng, shape[0], statement(rng, shape)))
        r = rng.random()
        data = fuzz.graft(rng, data) if r < .6 else fuzz.mutate(rng, data) if r < .8 else data[:rng.randrange(len(data))] if r < .9 else fuzz.cbor(rng)
        check(ctx, data, 'hostile')
    ctx.count('hostile', 25)


X5C_SHAPES = [s for s in SHAPES if s[1] == 'x5c' or s[0] in ('android-key', 'fido-u2f')]
NOT_BYTES = [None, 'cert', '', 1, 0, True, False, 1.5, [], [b'x'], Pairs(), Pairs([(0, b'x')]), refcbor.Simple(99), refcbor.Tag(24, b'x')]


def chains(ctx, rng, index):
    """Certificate lists of every length up to 20 (and some beyond), and one element that is no byte string at every place in them."""
    shape = X5C_SHAPES[index % len(X5C_SHAPES)]
    fmt = shape[0]
    other = [p for p in statement(rng, shape) if p[0] != 'x5c']
    for n in list(range(21)) + rng.sample([23, 24, 25, 31, 32, 33, 64, 65, 100, 255, 256, 257], 3):
        x5c = [rbytes(rng, rng.choice([0, 1, 40])) for _ in range(n)]
        if rng.random() < .3 and n > 1:
            x5c[rng.randrange(n)] = x5c[rng.randrange(n)]
        whole = Pairs(other + [('x5c', x5c)])
        check(ctx, obj(rng, fmt, whole), '%d certificates' % n, 'ok')
        stmt_dict(ctx, fmt, whole, '%d certificates' % n)
        ctx.count('chain-lengths')
        for i in range(n) if n <= 20 else sorted({0, 1, n // 2, n - 2, n - 1, rng.randrange(n)}):
            bad = x5c[:i] + [NOT_BYTES[(i + index + n) % len(NOT_BYTES)]] + x5c[i + 1:]
            st = Pairs(other + [('x5c', bad)])
            v, _ = check(ctx, obj(rng, fmt, st), 'element %d of %d is no byte string' % (i, n))
            stmt_dict(ctx, fmt, st, 'element %d of %d is no byte string' % (i, n))
            ctx.count('chain-element:' + v)


KINDS = {'faithful': (faithful, 300, 15000), 'deviations': (deviations, 40, 1500), 'additional': (additional, 48, 2000), 'hostile': (hostile, 240, 15000), 'chains': (chains, 8, 400)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {**{'shape:%s/%s' % s: 20 for s in SHAPES}, 'missing:reject': 20, 'wrong:reject': 500, 'extra:reject': 150, 'format:reject': 300, 'member-missing': 200, 'not-a-map': 100,
            'chain-lengths': 150, 'chain-element:reject': 1000, 'attobj:ok': 500, 'attobj:reject': 3000}
