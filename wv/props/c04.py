"""C04: ceremonies are bound to the relying party."""
from wv import att, magic, sim
from wv.sim import RP_IDS, honest_auth, near, rbytes, run_auth, run_reg, sha256, worker_world
from wv.stream import auth_episode, for_auth, reg_episode

RULE = ('one evaluation = one ceremony judged against the reference RP selection and SHA-256; non-trivial = distinct '
        '(deviation, registered RP, given RP, response bytes)')


def hash_flip(rng, w, c, x):
    i = rng.randrange(32)
    h = c.ad.rp_hash
    c.ad.rp_hash = h[:i] + bytes([h[i] ^ (1 << rng.randrange(8))]) + h[i + 1:]


def other_rp_hash(rng, w, c, x):
    rid = rng.choice(RP_IDS + ['evil.org', 'com', '', 'example.com.', 'www.example.com', 'https://example.com', 'EXAMPLE.COM', 'rp', 'given', 'registered'])
    c.ad.rp_hash = sha256(rid.encode())


def odd_hash(rng, w, c, x):
    c.ad.rp_hash = rng.choice([bytes(32), b'\xff' * 32, rbytes(rng, 32), c.ad.rp_hash[::-1], sha256(c.ad.rp_hash),
                               c.ad.rp_hash[:31] + b'\0', c.ad.rp_hash[:16] + bytes(16), sha256(c.cd_origin.encode()),
                               sha256((c.rp or 'example.com').encode('utf-16')), sha256((c.rp or 'x').upper().encode())])


def reg_other_rp(rng, w, c, x):
    c.rp = rng.choice(RP_IDS + ['evil.org', c.rp + '.', c.rp.upper(), c.rp[:-1], 'www.' + c.rp, c.rp + ' '])


def given_other(rng, w, c, e):
    base = e.rp_id or c.rp or 'example.com'
    m = magic.word(rng)
    c.rp = rng.choice(RP_IDS + ['evil.org', base + '.', base.upper(), base[:-1], 'www.' + base, '', m, m + base, base + m, base.replace(m, '') if m else base + 'x'])
    r = rng.random()
    if r < .4:
        c.ad.rp_hash = sha256(c.rp.encode())


def given_none(rng, w, c, e): c.rp = None


def given_same(rng, w, c, e):
    if e.rp_id is None:
        return False
    c.rp = e.rp_id


def unregister_rp(rng, w, c, e):
    """The registrar stops reporting an RP for this credential (or starts to)."""
    e.rp_id = None if e.rp_id is not None else rng.choice(RP_IDS)
    if rng.random() < .5 and c.rp is None:
        c.rp = rng.choice(RP_IDS)
    if rng.random() < .5:
        f = c.rp_in_force(e)
        if f:
            c.ad.rp_hash = sha256(f.encode())


AUTH = [(f.__name__, f) for f in (hash_flip, hash_flip, other_rp_hash, odd_hash, given_other, given_other, given_none, given_same, unregister_rp)]
REG = [(f.__name__, f) for f in (hash_flip, hash_flip, other_rp_hash, odd_hash, reg_other_rp)]


def auth_stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(AUTH), n=12, honest=.2, aspects=('rp', 'rp_hash'))


def reg_stream(ctx, rng, index):
    reg_episode(ctx, rng, REG, n=8, honest=.2, aspects=('rp', 'rp_hash'))


def positions(ctx, rng, index):
    """Directed: a deviation at each of the 32 hash bytes, for each selection case."""
    pos = index % 32
    for case in ('reg', 'registered', 'given', 'both'):
        for delta in (1, 0x80, 0xff):
            if case == 'reg':
                w = worker_world(ctx, rng, creds=0)
                c, key = att.honest_reg(rng, w, 'none')
            else:
                w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
                e = w.creds[0]
                e.rp_id = None if case == 'given' else rng.choice(RP_IDS)
                c = honest_auth(rng, w, e)
                c.rp = None if case == 'registered' else (e.rp_id if e.rp_id is not None else c.rp)
            h = c.ad.rp_hash
            c.ad.rp_hash = h[:pos] + bytes([h[pos] ^ delta]) + h[pos + 1:]
            c.note = 'hash byte %d ^ %#x, %s' % (pos, delta, case)
            if case == 'reg':
                att.seal_reg(rng, c, key)
                run_reg(ctx, w, c, ())
            else:
                c.seal(rng, e.key)
                run_auth(ctx, w, c, ())
    ctx.count('hash-positions')


def selection(ctx, rng, index):
    """Directed: registered x given x hash over a set of near RP IDs."""
    ids = [None, 'example.com', 'example.org', 'Example.com', '', 'b\u00fccher.example']
    reg, given = ids[index % 6], ids[index // 6 % 6]
    for h in ids[1:]:
        w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
        e = w.creds[0]
        e.rp_id = reg
        c = honest_auth(rng, w, e)
        c.rp = given
        c.ad.rp_hash = sha256(h.encode())
        c.note = 'registered %r given %r hash of %r' % (reg, given, h)
        c.seal(rng, e.key)
        run_auth(ctx, w, c, ('rp',))
    ctx.count('selection-rows')


PAIRS = [('stra\u00dfe.example', 'strasse.example'), ('caf\u00e9.example', 'cafe\u0301.example'), ('\uff45xample.com', 'example.com'), ('EXAMPLE.com', 'example.com'),
         ('example.com.', 'example.com'), (' example.com', 'example.com'), ('example.com\0', 'example.com'), ('b\u00fccher.example', 'xn--bcher-kva.example'),
         ('\u0130.example', 'i\u0307.example'), ('sub.example.com', 'example.com'), ('*.example.com', 'example.com'), ('https://example.com', 'example.com'),
         ('example.com:443', 'example.com'), ('\U0001f511.example', '\U0001f510.example'), ('\u202eexample.com', 'example.com')]
PAIRS += [('x' * n + a, 'x' * n + b) for n in (15, 31, 32, 62, 63, 64, 127, 128, 252, 253, 254, 255, 256, 511, 512, 1023, 1024, 4096, 65536) for a, b in (('a', 'b'), ('', 'a'))]
PAIRS += [(a + 'x' * n, b + 'x' * n) for n in (32, 64, 256, 1024) for a, b in (('a', 'b'), ('', 'a'))]


def near_ids(ctx, rng, index):
    """Directed: two different RP IDs that share a long prefix or suffix, or that some normalisation makes equal; each with its own and the other's hash."""
    for a, b in (PAIRS[index % len(PAIRS)], PAIRS[index % len(PAIRS)][::-1]):
        for reg, given, hashed in ((None, a, a), (None, a, b), (a, None, a), (a, None, b), (a, a, b), (a, b, a), (a, b, b), (a, a, a)):
            w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
            e = w.creds[0]
            e.rp_id = reg
            c = honest_auth(rng, w, e)
            c.rp, c.ad.rp_hash, c.note = given, sha256(hashed.encode()), 'registered %r given %r hash of %r' % tuple(x and x[-30:] for x in (reg, given, hashed))
            c.seal(rng, e.key)
            run_auth(ctx, w, c, ('rp',))
        for hashed in (a, b):
            w = worker_world(ctx, rng, creds=0)
            c, key = att.honest_reg(rng, w, 'none')
            c.rp, c.ad.rp_hash, c.note = a, sha256(hashed.encode()), 'registration for %r with the hash of %r' % (a[-30:], hashed[-30:])
            att.seal_reg(rng, c, key)
            run_reg(ctx, w, c, ('rp',))
    ctx.count('near-ids')


def entities(ctx, rng, index):
    """Directed: RPs that have everything but the ID in common, or nothing but the ID."""
    for name in ('Shop', ''):
        for icon in (None, '', 'https://example.com/icon.png'):
            for a, b in (('example.com', 'other.example'), ('example.com', 'Example.com'), ('example.com', 'login.example.com'), ('', 'example.com'), ('example.com', '')):
                for reg, given, hashed in ((a, b, a), (a, b, b), (a, a, a), (None, a, b)):
                    w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
                    e = w.creds[0]
                    e.rp_id = reg
                    e.data = lambda data=e.data(), reg=reg, name=name, icon=icon: data._replace(
                        rp_entity=None if reg is None else sim.T.PublicKeyCredentialRpEntity(name=name, id=reg, icon=icon))
                    c = honest_auth(rng, w, e)
                    c.rp, c.ad.rp_hash, c.note = given, sha256(hashed.encode()), 'RPs that differ in the ID only: registered %r given %r hash of %r' % (reg, given, hashed)
                    kwargs = c.kwargs

                    def same_but_id(kwargs=kwargs):
                        kw = kwargs()
                        kw['rp'] = sim.T.PublicKeyCredentialRpEntity(name=name, id=kw['rp'].id, icon=icon)
                        return kw
                    c.kwargs = same_but_id
                    c.seal(rng, e.key)
                    run_auth(ctx, w, c, ('rp',))
                    ctx.count('twin-entities')


KINDS = {'entities': (entities, 8, 80), 'positions': (positions, 32, 320), 'selection': (selection, 36, 360), 'near-ids': (near_ids, 61, 610), 'auth': (auth_stream, 480, 14000), 'reg': (reg_stream, 400, 10000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'twin-entities': 500, 'auth:accept': 200, 'reg:accept': 200, 'unmet:rphash': 500, 'unmet:rpid': 100, 'unmet:norp': 50, 'hash-positions': 32, 'near-ids': 61, 'selection-rows': 36}
