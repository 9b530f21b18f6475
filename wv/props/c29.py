"""C29: Android key descriptions decode by the published schema."""
from pyasn1.codec.der.decoder import decode
from pyasn1.error import PyAsn1Error

from webauthn_rp.asn1 import KeyDescription

from wv import magic, refder
from wv.core import require
from wv.refder import AUTHORIZATION_LIST, ENCODERS
from wv.sim import rbytes

RULE = ('one evaluation = one DER encoding (independent encoder, tags of the published schema) decoded with the KeyDescription schema and compared member by member, '
        'or one truncated / mis-tagged encoding that must not decode; non-trivial = distinct encodings')
TOP = ('attestationVersion', 'attestationSecurityLevel', 'keymasterVersion', 'keymasterSecurityLevel', 'attestationChallenge', 'uniqueId', 'softwareEnforced', 'teeEnforced')
NAMES = list(AUTHORIZATION_LIST)
SECURITY_LEVEL = ('Software', 'TrustedEnvironment', 'StrongBox')
BOOT_STATE = ('Verified', 'SelfSigned', 'Unverified', 'Failed')
USED_TAGS = {t for t, _ in AUTHORIZATION_LIST.values()}
INTS = [0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 200, -1, -128, -129, -2 ** 31, -2 ** 63 - 1]


def integer(rng):
    if magic.chance(rng):
        return magic.number(rng, -2 ** 62, 2 ** 63) or 0
    r = rng.random()
    return rng.choice(INTS) if r < .6 else rng.getrandbits(rng.choice([8, 31, 32, 63, 64])) if r < .9 else -rng.getrandbits(40)


def octets(rng):
    if magic.chance(rng):
        return rng.choice([magic.data(rng), rbytes(rng, magic.size(rng) or 9)])
    return rbytes(rng, rng.choice([0, 0, 1, 4, 16, 32, 100, 127, 128, 129, 255, 256, 257, 1000] + ([70000] if rng.random() < .05 else [])))


def value(rng, typ):
    if typ == 'int':
        return integer(rng)
    if typ == 'null':
        return True
    if typ == 'octets':
        return octets(rng)
    if typ == 'set':
        return [] if rng.random() < .15 else sorted({integer(rng) for _ in range(rng.choice([1, 1, 2, 4, 8, 40]))})
    return (octets(rng), rng.random() < .5, rng.randrange(4), octets(rng))


def auth_list(rng, names):
    return {n: value(rng, AUTHORIZATION_LIST[n][1]) for n in names}


def description(rng, sw=(), tee=()):
    return dict(attestationVersion=integer(rng), attestationSecurityLevel=rng.randrange(3), keymasterVersion=integer(rng), keymasterSecurityLevel=rng.randrange(3),
                attestationChallenge=octets(rng), uniqueId=octets(rng), softwareEnforced=auth_list(rng, sw), teeEnforced=auth_list(rng, tee))


def member(seq, name):
    """The decoded member, or None when it is absent; never instantiates it."""
    v = seq.getComponentByName(name, default=None, instantiate=False)
    return v if v is not None and v.isValue else None


def plain(v, typ):
    if typ == 'int':
        return int(v)
    if typ == 'null':
        return True
    if typ == 'octets':
        return bytes(v)
    if typ == 'set':
        return sorted(int(x) for x in v)
    rot = [member(v, n) for n in ('verifiedBootKey', 'deviceLocked', 'verifiedBootState', 'verifiedBootHash')]
    return bytes(rot[0]), bool(rot[1]), int(rot[2]), bytes(rot[3])


def check(ctx, kd, what):
    data = refder.key_description(kd)
    try:
        got, rest = decode(data, KeyDescription())
    except PyAsn1Error as e:
        ctx.violation('a key description of the published schema does not decode (%s): %s' % (what, str(e)[:200]), data=data.hex(), members=kd)
        return data
    ctx.judged(data)
    ctx.count('decoded')
    require(not rest, 'decoding left bytes over', what=what, rest=rest.hex())
    for name in TOP[:6]:
        v = member(got, name)
        require(v is not None, '%s is absent after decoding' % name, what=what, data=data.hex())
        v = bytes(v) if name in ('attestationChallenge', 'uniqueId') else int(v)
        require(v == kd[name], '%s decoded to another value' % name, what=what, got=v, want=kd[name], data=data.hex())
        if name in ('attestationSecurityLevel', 'keymasterSecurityLevel'):
            named(ctx, member(got, name), SECURITY_LEVEL, name, data)
    for where in TOP[6:]:
        lst = member(got, where)
        if lst is None:
            require(not kd[where], '%s is absent after decoding' % where, what=what, data=data.hex())
            continue
        for name, (tag, typ) in AUTHORIZATION_LIST.items():
            v, want = member(lst, name), kd[where].get(name)
            if want is None:
                require(v is None, '%s.%s was not encoded but is present after decoding' % (where, name), what=what, got=repr(v), data=data.hex())
                continue
            require(v is not None, '%s.%s (tag %d) was encoded but is absent after decoding' % (where, name, tag), what=what, data=data.hex())
            try:
                v = plain(v, typ)
            except (TypeError, ValueError, AttributeError, PyAsn1Error) as e:
                ctx.violation('%s.%s is not of the published type: %r' % (where, name, e), data=data.hex())
                continue
            require(v == want, '%s.%s decoded to another value' % (where, name), what=what, got=v, want=want, data=data.hex())
            if typ == 'rot':
                named(ctx, member(member(lst, name), 'verifiedBootState'), BOOT_STATE, '%s.%s' % (where, name), data)
            ctx.count('member:%s.%s' % (where[:3], name))
    return data


def named(ctx, v, names, what, data):
    """The enumerated value goes by its published name, and by no other."""
    require(v.prettyPrint() == names[int(v)], '%s has another name than the published one' % what, got=v.prettyPrint(), want=names[int(v)], data=data.hex())
    for i, n in enumerate(names):
        try:
            same = int(type(v)(n)) == i
        except PyAsn1Error:
            same = False
        require(same, '%s: the published name %s does not stand for the value %d' % (what, n, i))
    ctx.count('named:' + names[int(v)])


def rejects(ctx, data, what):
    ctx.judged(data)
    ctx.count('must-fail:' + what)
    try:
        got, rest = decode(data, KeyDescription())
    except PyAsn1Error:
        return
    ctx.violation('a %s key description decodes' % what, data=data.hex(), decoded=got.prettyPrint()[:600], rest=rest.hex())


def alone(ctx, rng, index):
    """Every member alone in each list, next to nothing, to itself and to everything in the other list."""
    name = NAMES[index % len(NAMES)]
    for sw, tee in (([name], []), ([], [name]), ([name], [name]), ([name], [n for n in NAMES if n != name]), ([n for n in NAMES if n != name], [name])):
        check(ctx, description(rng, sw, tee), 'alone ' + name)
    if AUTHORIZATION_LIST[name][1] == 'int':
        for v in INTS:
            kd = description(rng)
            kd[rng.choice(TOP[6:])][name] = v
            check(ctx, kd, 'value of ' + name)


def pairs(ctx, rng, index):
    """Every pair of members in one list; the index walks all of them."""
    n = len(NAMES)
    for k in range(index * 30, index * 30 + 30):
        i, j = divmod(k % (n * n), n)
        if i < j:
            lst = [NAMES[i], NAMES[j]]
            other = [x for x in NAMES if rng.random() < .1]
            a, b = (lst, other) if rng.random() < .5 else (other, lst)
            check(ctx, description(rng, a, b), 'pair')
            ctx.count('pair')


def random_lists(ctx, rng, index):
    for _ in range(4):
        p, q = rng.choice([0, .1, .3, .6, 1]), rng.choice([0, .1, .3, .6, 1])
        kd = description(rng, [n for n in NAMES if rng.random() < p], [n for n in NAMES if rng.random() < q])
        data = check(ctx, kd, 'random')
    ctx.sample(data=data.hex()[:400], tee=sorted(kd['teeEnforced']))


def small(rng):
    """A short description with something in both lists."""
    kd = dict(attestationVersion=3, attestationSecurityLevel=1, keymasterVersion=4, keymasterSecurityLevel=1, attestationChallenge=rbytes(rng, 32), uniqueId=b'',
              softwareEnforced={}, teeEnforced={})
    for w in TOP[6:]:
        for n in rng.sample(NAMES, rng.choice([1, 2, 4])):
            v = value(rng, AUTHORIZATION_LIST[n][1])
            while len(repr(v)) > 300:
                v = value(rng, AUTHORIZATION_LIST[n][1])
            kd[w][n] = v
    return kd


def truncated(ctx, rng, index):
    kd = small(rng)
    data = check(ctx, kd, 'small')
    for k in range(len(data)):
        rejects(ctx, data[:k], 'truncated')
    # truncated inside: a list, or the description, that ends early while its own length is consistent
    items = fields(kd)
    for k in range(len(items)):
        rejects(ctx, refder.seq(*items[:k]), 'incomplete')
        rejects(ctx, refder.seq(*(items[:k] + items[k + 1:])), 'incomplete')


def fields(kd):
    return [refder.integer(kd['attestationVersion']), refder.enumerated(kd['attestationSecurityLevel']), refder.integer(kd['keymasterVersion']),
            refder.enumerated(kd['keymasterSecurityLevel']), refder.octets(kd['attestationChallenge']), refder.octets(kd['uniqueId']),
            refder.authorization_list(kd['softwareEnforced']), refder.authorization_list(kd['teeEnforced'])]


def insert(lst, raw):
    """Encode the members of lst with raw = (tag, encoding) in tag order."""
    parts = [(AUTHORIZATION_LIST[n][0], refder.context(AUTHORIZATION_LIST[n][0], ENCODERS[AUTHORIZATION_LIST[n][1]](v))) for n, v in lst.items()]
    parts = sorted([p for p in parts if p[0] != raw[0]] + [raw])
    return refder.seq(*[p[1] for p in parts])


def mistagged(ctx, rng, index):
    kd = small(rng)
    items = fields(kd)
    which = rng.choice([6, 7])
    where = TOP[which]

    def put(raw, what):
        new = list(items)
        new[which] = insert(kd[where], raw)
        rejects(ctx, refder.seq(*new), what)

    # tags the schema does not use
    unused = [t for t in list(range(0, 40)) + [127, 128, 199, 201, 255, 302, 304, 399, 403, 500, 502, 510, 599, 602, 700, 707, 708, 720, 721, 1000, 16384] if t not in USED_TAGS]
    tag = unused[index % len(unused)]
    for inner in (refder.integer(1), refder.null(), refder.octets(b'x')):
        put((tag, refder.context(tag, inner)), 'unknown-tag')
    # a member with the universal type of another member, or a tag that is not context specific / not constructed
    name = NAMES[index % len(NAMES)]
    tag, typ = AUTHORIZATION_LIST[name]
    good = ENCODERS[typ](value(rng, typ))
    wrong = {'int': refder.integer(5), 'null': refder.null(), 'octets': refder.octets(b'abc'), 'set': refder.set_of([refder.integer(2)]), 'rot': ENCODERS['rot']((b'k', True, 0, b'h'))}
    for other, enc in wrong.items():
        if other != typ:
            put((tag, refder.context(tag, enc)), 'mistyped')
    put((tag, refder.context(tag, refder.enumerated(1))), 'mistyped')
    put((tag, refder.context(tag, refder.boolean(True))), 'mistyped')
    put((tag, refder.context(tag, refder.tlv(0x0c, b'x'))), 'mistyped')
    if tag < 31:
        for first in (0x80 | tag, 0x40 | tag, 0xc0 | tag, 0x60 | tag, 0xe0 | tag):
            put((tag, refder.tlv(first, good)), 'wrong-tag-class')
    else:
        ctxt = refder.context(tag, good)
        for mask in (0x5f, 0x7f, 0xdf, 0xff, 0x9f):
            put((tag, bytes([mask]) + ctxt[1:]), 'wrong-tag-class')
    put((tag, good), 'untagged')
    # the eight mandatory members: wrong types
    for k in range(8):
        alternatives = [refder.null(), refder.boolean(True), refder.context(1, items[k]), refder.tlv(0x0c, b'a')]
        alternatives += [e for j, e in enumerate([refder.integer(1), refder.enumerated(1), refder.octets(b'a'), refder.seq()]) if [0, 1, 0, 1, 2, 2, 3, 3][k] != j]
        for alt in alternatives:
            rejects(ctx, refder.seq(*(items[:k] + [alt] + items[k + 1:])), 'mistyped-field')
    for outer in (0x31, 0x04, 0x02, 0xa0, 0x24):
        rejects(ctx, refder.tlv(outer, b''.join(items)), 'mistyped-outer')
    # root of trust: wrong members
    rot = [refder.octets(b'k'), refder.boolean(True), refder.enumerated(0), refder.octets(b'h')]
    for k in range(4):
        alts = [rot[:k] + rot[k + 1:]] + [rot[:k] + [a] + rot[k + 1:] for a in (refder.null(), refder.integer(1), rot[(k + 1) % 4] if k != 3 else rot[1])]
        for a in alts:
            put((704, refder.context(704, refder.seq(*a))), 'root-of-trust')


KINDS = {'alone': (alone, 37 * 2, 37 * 40), 'pairs': (pairs, (37 * 37 + 29) // 30, 46 * 20), 'random': (random_lists, 120, 8000), 'truncated': (truncated, 16, 1200), 'mistagged': (mistagged, 74, 37 * 60)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = dict({'decoded': 1500, 'pair': 600, 'must-fail:truncated': 1000, 'must-fail:incomplete': 150, 'must-fail:unknown-tag': 150, 'must-fail:mistyped': 400, 'must-fail:wrong-tag-class': 150,
                 'must-fail:mistyped-field': 1000, 'must-fail:mistyped-outer': 200, 'must-fail:root-of-trust': 500},
                **{'member:%s.%s' % (w, n): 20 for w in ('sof', 'tee') for n in NAMES},
                **{'named:' + n: 20 for n in SECURITY_LEVEL + BOOT_STATE})
