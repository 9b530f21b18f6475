"""C06: only allowed credentials of the right user authenticate."""
from wv import magic, sim
from wv.sim import honest_auth, near, rbytes, run_auth, worker_world
from wv.stream import auth_episode, for_auth

RULE = ('one evaluation = one assertion judged against the reference ownership decision over the registrar contents; '
        'non-trivial = distinct (deviation, response bytes, credential id)')


def not_allowed(rng, w, c, e):
    ids = [x.cid for x in w.creds if x.cid != c.raw_id]
    c.allow = rng.choice([[], [near(rng, c.raw_id)], ids, [near(rng, c.raw_id) for _ in range(8)], [c.raw_id[:-1]], [c.raw_id + b'\0'], [b''],
                          [c.raw_id + x for x in ids], [c.raw_id.hex().encode()], ids * 5])


def allowed_last(rng, w, c, e):
    c.allow = [near(rng, c.raw_id) for _ in range(rng.choice([1, 5, 40]))] + [c.raw_id]


def allowed_dup(rng, w, c, e): c.allow = [c.raw_id] * rng.choice([1, 2, 3]) + [near(rng, c.raw_id)]
def no_allow(rng, w, c, e): c.allow = None


def unknown(rng, w, c, e):
    c.raw_id = near(rng, c.raw_id)
    c.allow = rng.choice([None, [c.raw_id], [e.cid, c.raw_id]])


def other_credential(rng, w, c, e):
    """Use another registered credential's ID with this authenticator's signature kept honest for its own key."""
    o = rng.choice(w.creds)
    if o is e:
        return False
    c.raw_id = o.cid
    c.allow = None


def forgotten(rng, w, c, e):
    """The credential has been removed from the registrar."""
    w.registrar.store.pop(e.cid, None)
    if e in w.creds:
        w.creds.remove(e)
    if not w.creds:
        w.add_credential(rng)


def other_user(rng, w, c, e):
    c.user = rng.choice(w.users + [near(rng, e.user_id), b''])
    c.user_handle = rng.choice([None, c.user, e.user_id])


def no_user(rng, w, c, e):
    c.user = None
    c.user_handle = rng.choice([None, None, e.user_id, near(rng, e.user_id), b'', rng.choice(w.users)])


def bad_handle(rng, w, c, e):
    c.user_handle = rng.choice([near(rng, e.user_id), b'', rng.choice(w.users), e.user_id + b'\0', e.cid])
    if rng.random() < .5:
        c.user = e.user_id


def transferred(rng, w, c, e):
    """The credential now belongs to someone else."""
    e.user_id = rng.choice([u for u in w.users if u != e.user_id] or [near(rng, e.user_id)])


def empty_owner(rng, w, c, e):
    e.user_id = b''
    c.user = rng.choice([None, b'', rng.choice(w.users)])
    c.user_handle = rng.choice([None, b'', rng.choice(w.users)])


def empty_credential_id(rng, w, c, e):
    w.registrar.store[b''] = n = sim.Entry(b'', e.key, e.user_id, e.rp_id, e.count, e.cpk)
    c.raw_id = b''
    c.allow = rng.choice([None, [b''], [], [e.cid]])


MUT = [(f.__name__, f) for f in (not_allowed, not_allowed, allowed_last, allowed_dup, no_allow, unknown, other_credential, forgotten, other_user,
                                 other_user, no_user, no_user, bad_handle, bad_handle, transferred, empty_owner, empty_credential_id)]


def stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=14, honest=.2, aspects=('user', 'credential', 'rp'), suites=[('P-256', 'ES256'), ('Ed25519', 'EdDSA')])


def product(ctx, rng, index):
    """Directed: owner x given user x handle x allow list membership over near-miss values."""
    a, b = b'user-a', b'user-b'
    owners = [a, b, a + b'\0', b'']
    vals = [None, a, b, a + b'\0', a[:-1], b'', a.upper()]
    owner = owners[index % 4]
    given = vals[index // 4 % 7]
    for handle in vals:
        for allow in ('none', 'in', 'out', 'empty'):
            w = worker_world(ctx, rng, creds=2, suites=[('P-256', 'ES256')])
            e = w.creds[0]
            w.registrar.store[e.cid] = e
            e.user_id = owner
            c = honest_auth(rng, w, e)
            c.user, c.user_handle = given, handle
            c.allow = {'none': None, 'in': [b'x', e.cid], 'out': [b'x', e.cid + b'x', e.cid[:-1]], 'empty': []}[allow]
            c.note = 'owner %r given %r handle %r allow %s' % (owner, given, handle, allow)
            c.seal(rng, e.key)
            run_auth(ctx, w, c, ('user', 'credential'))
    ctx.count('ownership-rows')


SIZES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4096, 65535]


def scale(ctx, rng, index):
    """Directed: identifiers that share a long prefix or suffix, and long allow lists."""
    n = SIZES[index % len(SIZES)] if not magic.chance(rng) else magic.size(rng) or 20
    base = rbytes(rng, n)
    pairs = [(base + b'a', base + b'b'), (b'a' + base, b'b' + base), (base, base + b'\0'), (base, base[:-1]), (b'\0' * n, b'\0' * (n + 1)),
             (base, base[:n // 2] + bytes([base[n // 2] ^ 1]) + base[n // 2 + 1:])]
    for a, b in [p for q in pairs for p in (q, q[::-1])]:
        for what in ('same', 'credential', 'allowed', 'given', 'handle', 'handle only', 'twin'):
            w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
            e = w.creds[0]
            if what in ('credential', 'allowed', 'twin'):
                w.registrar.store.pop(e.cid)
                e.cid = a
                w.registrar.store[a] = e
                if what == 'twin':           # the other identifier is registered as well, for another user and key
                    w.registrar.store[b] = o = sim.Entry(b, sim.pick_key(rng, ('P-256', 'ES256')), b'someone else', e.rp_id, None)
                    o.cpk = o.key.library_key('Name')
            else:
                e.user_id = a
            c = honest_auth(rng, w, e)
            c.note = 'identifiers of %d bytes, %s' % (len(a), what)
            if what == 'credential':
                c.raw_id, c.allow = b, rng.choice([None, [b], [a, b]])
            elif what == 'allowed':
                c.allow = [b]
            elif what == 'given':
                c.user, c.user_handle = b, rng.choice([None, b])
            elif what == 'handle':
                c.user, c.user_handle = a, b
            elif what == 'handle only':
                c.user, c.user_handle = None, b
            elif what == 'twin' and rng.random() < .5:
                c.raw_id, c.allow = b, None
                c.user = c.user_handle = b'someone else'
            c.seal(rng, e.key)
            run_auth(ctx, w, c, ('user', 'credential'))
    ctx.count('long-identifiers')


def long_lists(ctx, rng, index):
    n = [9, 10, 11, 16, 17, 20, 21, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 3000][index % 19]
    for pos in (0, n - 1, rng.randrange(n), None):
        w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
        e = w.creds[0]
        c = honest_auth(rng, w, e)
        c.allow = [near(rng, e.cid) for _ in range(n)]
        if pos is not None:
            c.allow[pos] = e.cid
        c.note = 'allow list of %d, at %s' % (n, pos)
        c.seal(rng, e.key)
        run_auth(ctx, w, c, ('user', 'credential'))
    ctx.count('long-allow-lists')


KINDS = {'product': (product, 28, 280), 'scale': (scale, 21, 420), 'long-lists': (long_lists, 19, 380), 'stream': (stream, 640, 20000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'ownership-rows': 28, 'long-identifiers': 21, 'long-allow-lists': 19, 'auth:accept': 500, 'unmet:allow': 200, 'unmet:unknown': 100, 'unmet:userid': 200, 'unmet:handle': 300}
