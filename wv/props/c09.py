"""C09: signature counter regressions are detected."""
from wv import magic, sim
from wv.sim import honest_auth, run_auth, worker_world
from wv.stream import auth_episode, for_auth

RULE = ('one evaluation = one assertion with a chosen registered and received counter, judged against the counter rule; the product of boundary '
        'values x ignore option is enumerated; histories are checked offline over the recorded registrar events; non-trivial = distinct '
        '(registered, received, ignore, response bytes)')
M = 2 ** 32
VALUES = [0, 1, 2, 127, 128, 254, 255, 256, 257, 65535, 65536, 65537, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, M - 2, M - 1]
REGISTERED = [None] + VALUES


def pair(ctx, w, e, rng, registered, received, ignore, note):
    e.count = registered
    c = honest_auth(rng, w, e)
    c.ad.count, c.ignore_clone, c.note = received, ignore, note
    c.seal(rng, e.key)
    return run_auth(ctx, w, c, ('count',))


def product(ctx, rng, index):
    r = REGISTERED[index % len(REGISTERED)]
    w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')] if index % 3 else None)
    e = w.creds[0]
    for n in VALUES:
        for ignore in (False, True):
            pair(ctx, w, e, rng, r, n, ignore, 'registered %r received %r ignore %s' % (r, n, ignore))
    # byte-order and sign confusions: the same bytes in other orders
    if r is not None:
        for n in {int.from_bytes(r.to_bytes(4, 'big')[::-1], 'big'), (r - 1) % M, (r + 1) % M, r ^ (1 << 31), (r + 2 ** 31) % M, r >> 8, (r << 8) % M}:
            pair(ctx, w, e, rng, r, n, False, 'near registered %r received %r' % (r, n))
    ctx.count('counter-rows')


class Clone:
    """One physical copy of an authenticator: its own counter value and step."""

    def __init__(self, value, step):
        self.value, self.step = value, step

    def next(self, rng):
        self.value = min(M - 1, self.value + self.step(rng))
        return self.value


STEPS = [lambda r: 1, lambda r: r.choice([1, 2, 5]), lambda r: r.choice([1, 255, 65536]), lambda r: r.randrange(1, 2 ** 26), lambda r: 0]


def history(ctx, rng, index):
    """Original and cloned authenticators of several credentials, replays and imposed values; offline check afterwards."""
    w = worker_world(ctx, rng, creds=rng.choice([1, 2, 3]))
    devices = {}
    for e in w.creds:
        start = rng.choice([0, 0, 1, 200, 65530, 2 ** 31 - 3, M - 20]) if not magic.chance(rng) else magic.number(rng, 0, M - 200) or 0
        devices[e.cid] = [Clone(start, rng.choice(STEPS)) for _ in range(rng.choice([1, 2, 3]))]
        e.count = rng.choice([None, start, 0])
    stored = {e.cid: [] for e in w.creds}     # (count, ignored) as told to the registrar
    initial = {e.cid: e.count for e in w.creds}
    never_ignore = rng.random() < .7
    sent = []
    for _ in range(rng.choice([8, 20, 40])):
        e = rng.choice(w.creds)
        before = e.count
        c = honest_auth(rng, w, e)
        c.ignore_clone = False if never_ignore else rng.random() < .2
        r = rng.random()
        if r < .75 or not sent:
            d = rng.choice(devices[e.cid])
            c.ad.count, c.note = d.next(rng), 'device'
            c.seal(rng, e.key)
        elif r < .9:
            p = rng.choice(sent)
            if p.raw_id != e.cid:
                continue
            c, c.note = p, 'replay'
            c.ignore_clone = False
        else:
            c.ad.count, c.note = rng.choice(VALUES), 'imposed'
            c.seal(rng, e.key)
        out, _ = run_auth(ctx, w, c, ('count',))
        sent.append(c)
        if out.accepted:
            regs = out.registrations()
            stored[e.cid].append((regs[0][1]['authenticator_data'].sign_count if regs else None, c.ignore_clone, before))
    # offline: strictly increasing unless ignored or without a counter
    for cid, seq in stored.items():
        last = initial[cid]
        for n, ignored, before in seq:
            ctx.count('history-steps')
            if not ignored and last is not None and not (n > last or n == last == 0):
                ctx.violation('the stored counter went from %r to %r without the ignore option' % (last, n), history=seq)
            last = n
        if len(seq) > 2:
            ctx.count('histories')


def set_counts(rng, w, c, e):
    e.count = rng.choice(REGISTERED)
    base = e.count or 0
    c.ad.count = rng.choice([base, max(0, base - 1), min(M - 1, base + 1), rng.choice(VALUES), rng.randrange(M), base // 2, base & 0xffff, base & 0xff])
    c.ignore_clone = rng.random() < .15


def no_counter(rng, w, c, e):
    e.count = rng.choice([None, 0, 0])
    c.ad.count = 0
    c.ignore_clone = False


def reset_to_zero(rng, w, c, e):
    e.count = rng.choice([v for v in VALUES if v])
    c.ad.count = 0
    c.ignore_clone = rng.random() < .1


MUT = [(f.__name__, f) for f in (set_counts, set_counts, set_counts, no_counter, reset_to_zero)]


def stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=14, honest=.1, aspects=('count',))


KINDS = {'product': (product, len(REGISTERED), len(REGISTERED) * 12), 'history': (history, 480, 12000), 'stream': (stream, 480, 14000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'counter-rows': len(REGISTERED), 'auth:accept': 500, 'unmet:count': 500, 'history-steps': 500, 'histories': 50}
