"""C03: ceremonies are bound to the expected origins."""
from collections import OrderedDict, deque
from enum import Enum

from webauthn_rp.errors import OriginError
from webauthn_rp.parsers import parse_origin

from wv import att, sim
from wv.core import require
from wv.origins import CONFUSABLE, HOSTS, gen_origin, match, ref_origin, variant
from wv.stream import auth_episode, for_auth, reg_episode

RULE = ('one evaluation = one ceremony, or one pair of origin strings, judged against an independent origin parser; '
        'non-trivial = distinct (deviation, client data, response) or distinct pair of strings')


def client_variant(rng, w, c, x): c.cd_origin = variant(rng, c.cd_origin)


def expected_variant(rng, w, c, x):
    """Only deviating origins are expected."""
    o = c.cd_origin
    n = rng.choice([1, 1, 2, 4])
    lst = [variant(rng, o) for _ in range(n)]
    c.expected_origin = lst[0] if rng.random() < .5 and n == 1 else rng.choice([list, tuple, set, frozenset])(lst)


def drop_expected(rng, w, c, x):
    exp = c.expected_origin
    lst = [exp] if isinstance(exp, str) else list(exp)
    c.expected_origin = rng.choice([list, tuple, set])(o for o in lst if ref_origin(o) != ref_origin(c.cd_origin))


def bad_member(rng, w, c, x):
    exp = c.expected_origin
    lst = [exp] if isinstance(exp, str) else list(exp)
    lst.insert(rng.randint(0, len(lst)), rng.choice(['', 'example.com', 'https://', 'https://u@example.com', 'https://example.com/',
                                                     'https://example.com:x', 'ftp://example.com', 'https://example.com:70000', '*',
                                                     'https://example.com?x=1', 'https://[::1', 'https://:443', 'https://@']))
    c.expected_origin = lst


def empty_expected(rng, w, c, x): c.expected_origin = rng.choice([list, tuple, set, frozenset, dict])()


def joined(rng, w, c, x):
    """A string containing the client origin among others is not that origin."""
    c.expected_origin = rng.choice(['%s,%s', '%s;%s', '%s|%s']) % (c.cd_origin, gen_origin(rng))


def rp_as_origin(rng, w, c, x): c.cd_origin = rng.choice(['https://', 'http://', '']) + rng.choice(sim.RP_IDS[:4])


MUT = [(f.__name__, f) for f in (client_variant, client_variant, client_variant, expected_variant, expected_variant, drop_expected,
                                 bad_member, empty_expected, joined, rp_as_origin)]


def auth_stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=12, honest=.2, aspects=(), suites=[('P-256', 'ES256')])


def reg_stream(ctx, rng, index):
    reg_episode(ctx, rng, MUT, n=8, honest=.2, aspects=(), fmt='none')


def parse(s):
    try:
        return parse_origin(s)
    except OriginError:
        return 'bad'


def hostless(rng):
    scheme = ''.join(rng.choice([c, c, c.upper()]) for c in rng.choice(['http', 'https']))
    return scheme + '://' + rng.choice(['', ':', ':443', ':80', ':8443', '[]', '[]:443', '@', 'u@', 'u:p@:443'])


def pairs(ctx, rng, index):
    """The relation itself, at the parser: equal exactly when the reference says so."""
    base = gen_origin(rng)
    strings = [base, gen_origin(rng)] + [variant(rng, base) for _ in range(8)]
    for bare in [hostless(rng) for _ in range(2)]:
        require(parse(bare) == 'bad', 'origin %r has no host but was accepted' % bare)
        ctx.count('hostless')
    parsed = [(s, ref_origin(s), parse(s)) for s in strings]
    for s, ref, got in parsed:
        ctx.judged(('parse', s))
        if ref == 'unspec':
            ctx.count('origin:unspecified')
            continue
        require((ref == 'bad') == (got == 'bad'), 'origin %r is %s but was %s' % (
            s, 'malformed' if ref == 'bad' else 'well-formed', 'rejected' if got == 'bad' else 'accepted as %r' % (got,)))
        ctx.count('origin:malformed' if ref == 'bad' else 'origin:well-formed')
        if ref != 'bad':
            require(got.scheme == ref[0] and got.port == ref[2], 'origin %r parsed as %r' % (s, got))
    for i, (s1, r1, g1) in enumerate(parsed):
        for s2, r2, g2 in parsed[i + 1:]:
            if 'unspec' in (r1, r2) or 'bad' in (r1, r2):
                continue
            ctx.judged(('pair', s1, s2), s1 != s2)
            require((r1 == r2) == (g1 == g2), 'origins %r and %r are %s but compare %s' % (
                s1, s2, 'the same' if r1 == r2 else 'different', 'equal' if g1 == g2 else 'different'))
            ctx.count('pair:same' if r1 == r2 else 'pair:different')


def confusables(ctx, rng, index):
    """Directed: different hosts that a normalisation would make equal, in both ceremonies and both directions."""
    a, b = CONFUSABLE[index % len(CONFUSABLE)]
    for x, y in ((a, b), (b, a), (a, a), (b, b)):
        for prefix, suffix in (('', '.example'), ('login.', '.org')):
            one, other = ('https://%s%s%s' % (prefix, h, suffix) for h in (x, y))
            for reg in (False, True):
                directed(ctx, rng, reg, one, rng.choice([other, [other], {other, 'https://example.com'}]), 'confusable hosts')
    ctx.count('confusable-rows')


LENGTHS = [15, 16, 31, 32, 62, 63, 64, 100, 127, 128, 200, 252, 253, 254, 255, 256, 511, 512, 1000, 1023, 1024, 2000, 2047, 2048, 4096, 8192, 65535, 65536]


def long_hosts(ctx, rng, index):
    """Directed: hosts of many lengths that differ in one place only, at the start, at the end, or anywhere."""
    n = LENGTHS[index % len(LENGTHS)] + rng.choice([0, 0, 1])
    host = 'x' * n if rng.random() < .4 else ('%s.' % ('y' * rng.choice([1, 10, 63])) * n)[:n - 1].rstrip('.').ljust(n, 'z')
    for i in {0, n - 1, rng.randrange(n)}:
        for other in (host[:i] + 'q' + host[i + 1:], host[:i] + host[i + 1:], host[:i] + 'q' + host[i:]):
            if other.startswith('.') or '..' in other or not other:
                continue
            for x, y in ((host, other), (other, host), (host, host)):
                one, two = ('https://%s%s' % (h, suffix) for h, suffix in ((x, rng.choice(['', ':443', ':8443'])), (y, rng.choice(['', ':443', ':8443']))))
                directed(ctx, rng, rng.random() < .5, one, rng.choice([two, [two], {two, 'https://example.com'}]), 'long hosts')
    ctx.count('long-hosts')


def many(ctx, rng, index):
    """Directed: large collections of expected origins, with the match, the near match or a malformed member anywhere in it."""
    n = [2, 3, 8, 10, 11, 16, 17, 20, 21, 32, 33, 64, 65, 100, 101, 128, 129, 256, 300, 1001][index % 20]
    lst = ['https://host-%d.example%s' % (i, rng.choice(['', '', ':8443'])) for i in range(n)]
    rng.shuffle(lst)
    for pos in sorted({0, n - 1, rng.randrange(n), rng.randrange(n)}):
        for kind in (list, tuple, set):
            reg = rng.random() < .5
            directed(ctx, rng, reg, lst[pos], kind(lst), 'member of a collection of %d' % n)
            without = [o for o in lst if ref_origin(o) != ref_origin(lst[pos])]
            directed(ctx, rng, reg, lst[pos], kind(without), 'not a member of a collection of %d' % len(without))
            bad = list(lst)
            bad[pos] = rng.choice(['host-1.example', 'https://', 'ftp://host-1.example', 'https://host-1.example/x', '', 'zz:1', 'https://host-1.example:x'])
            directed(ctx, rng, reg, lst[pos - 1], kind(bad), 'malformed member in a collection of %d' % n)
    ctx.count('large-collections')


def directed(ctx, rng, reg, client, expected, note):
    w = sim.worker_world(ctx, rng, creds=0 if reg else 1, suites=[('P-256', 'ES256')])
    if reg:
        c, key = att.honest_reg(rng, w, 'none')
    else:
        c = sim.honest_auth(rng, w, w.creds[0])
    c.cd_origin, c.expected_origin, c.note = client, expected, note
    if reg:
        att.seal_reg(rng, c, key)
        sim.run_reg(ctx, w, c, ())
    else:
        c.seal(rng, w.creds[0].key)
        sim.run_auth(ctx, w, c, ())


def defaults(ctx, rng, index):
    """Directed: all scheme x host x port-form pairs."""
    forms = []
    for sch, other, d in (('https', 'http', 443), ('http', 'https', 80)):
        for host in ('example.com', 'EXAMPLE.com', 'sub.example.com', '[::1]'):
            for port in ('', ':443', ':80', ':8443', ':0', ':65535', ':44', ':4433'):
                forms.append('%s://%s%s' % (sch, host, port))
    a = forms[index % len(forms)]
    for b in forms:
        w = sim.worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
        e = w.creds[0]
        c = sim.honest_auth(rng, w, e)
        c.cd_origin, c.expected_origin, c.note = a, b, 'default-port pair'
        c.seal(rng, e.key)
        sim.run_auth(ctx, w, c, ())
    ctx.count('default-port-rows')


class Text(str):
    """A string type of the application (markup, a configuration value and the like)."""


class Several:
    """A collection type of the application: sized, iterable and a container, nothing else."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def __contains__(self, x):
        return x in self.items

    def __repr__(self):
        return 'Several(%r)' % (self.items,)


def kinds(ctx, rng, index):
    """Directed: expected origins held in types of the application, matching or not."""
    client = gen_origin(rng)
    others = [o for o in (gen_origin(rng), variant(rng, client)) if ref_origin(o) not in ('bad', 'unspec')]
    for lst in ([client], [client] + others, others + [client], others[:1], others, []):
        if not lst and index % 4:
            continue
        forms = [Several(lst), Several(map(Text, lst)), deque(lst), tuple(map(Text, lst)), frozenset(map(Text, lst)), dict.fromkeys(lst), dict.fromkeys(lst).keys(), {i: o for i, o in enumerate(lst)}.values(),
                 type('Names', (list,), {})(lst), type('Set', (set,), {})(lst), OrderedDict.fromkeys(lst)]
        if len(lst) == 1:
            forms += [Text(lst[0]), Enum('Origins', {'MAIN': lst[0]}, type=str).MAIN]
        for form in rng.sample(forms, 4) + forms[11:]:
            directed(ctx, rng, rng.random() < .5, client, form, 'expected origins of application types')
            ctx.count('application-types')


KINDS = {'kinds': (kinds, 40, 1000), 'defaults': (defaults, 64, 64), 'confusables': (confusables, len(CONFUSABLE), 10 * len(CONFUSABLE)), 'many': (many, 40, 800), 'long_hosts': (long_hosts, 2 * len(LENGTHS), 30 * len(LENGTHS)), 'pairs': (pairs, 4000, 150000), 'auth': (auth_stream, 400, 12000), 'reg': (reg_stream, 400, 12000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'application-types': 500, 'auth:accept': 300, 'reg:accept': 300, 'unmet:origin': 1000, 'pair:same': 300, 'pair:different': 1000,
            'origin:malformed': 500, 'default-port-rows': 64, 'confusable-rows': len(CONFUSABLE), 'large-collections': 40, 'long-hosts': 2 * len(LENGTHS)}
