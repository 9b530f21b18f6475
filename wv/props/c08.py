"""C08: required extensions must be present in the authenticator data."""
from wv import att, sim
from wv.sim import ED, EXTS, Pairs, gen_ext_value, gen_exts, honest_auth, run_auth, run_reg, worker_world
from wv.stream import auth_episode, for_auth, reg_episode

RULE = ('one evaluation = one ceremony with chosen required and present extension sets; single-extension rows are enumerated with falsy and truthy outputs; '
        'non-trivial = distinct (required, response bytes)')
FALSY = {'appid': False, 'txAuthSimple': '', 'txAuthGeneric': b'', 'authnSel': False, 'exts': [], 'uvi': b'', 'loc': {}, 'uvm': [], 'biometricPerfBounds': False}
TRUTHY = {'appid': True, 'txAuthSimple': 'ok', 'txAuthGeneric': b'\1', 'authnSel': True, 'exts': ['appid'], 'uvi': b'\2' * 32,
          'loc': {'latitude': 1.5, 'longitude': 2, 'accuracy': 0.0}, 'uvm': [[1, 2, 3]], 'biometricPerfBounds': True}


def put(c, pairs):
    if pairs is None:
        c.ad.flags &= ~ED
        c.ad.ext = None
    else:
        c.ad.flags |= ED
        c.ad.ext = Pairs(pairs)


def one(ctx, rng, kind, pairs, required, note):
    w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
    if kind == 'auth':
        e = w.creds[0]
        c = honest_auth(rng, w, e)
    else:
        c, key = att.honest_reg(rng, w, 'none')
    put(c, pairs)
    c.expected_ext, c.note = required, note
    if kind == 'auth':
        c.seal(rng, e.key)
        run_auth(ctx, w, c, ('ext',))
    else:
        att.seal_reg(rng, c, key)
        run_reg(ctx, w, c, ('ext',))


def single(ctx, rng, index):
    req = EXTS[index % 9]
    for kind in ('auth', 'reg'):
        for table in (FALSY, TRUTHY):
            for pres in EXTS:
                one(ctx, rng, kind, [(pres, table[pres])], [req], 'require %s, %s present' % (req, pres))
            others = [(x, table[x]) for x in EXTS if x != req]
            one(ctx, rng, kind, others, [req], 'all but the required ' + req)
            one(ctx, rng, kind, [(x, table[x]) for x in EXTS], EXTS, 'all required, all present')
            one(ctx, rng, kind, [(x, table[x]) for x in EXTS], [], 'none required, all present')
            one(ctx, rng, kind, others, EXTS, 'all required, one missing: ' + req)
        one(ctx, rng, kind, None, [req], 'no extension data')
        one(ctx, rng, kind, [], [req], 'empty extension map')
        one(ctx, rng, kind, None, [], 'nothing required')
        one(ctx, rng, kind, None, None, 'nothing required')
    ctx.count('single-extension-rows')


def subset(rng, p=.5): return [x for x in EXTS if rng.random() < p]


def random_sets(rng, w, c, x):
    put(c, gen_exts(rng, rng.choice([.2, .5, .9])) if rng.random() < .9 else None)
    present = [k for k, _ in c.ad.ext] if c.ad.ext is not None else []
    c.expected_ext = rng.choice([subset(rng), present, present[:-1], present + subset(rng, .1), [rng.choice(EXTS)], None])


def drop_one(rng, w, c, x):
    pairs = gen_exts(rng, .7)
    if not pairs:
        return False
    c.expected_ext = [k for k, _ in pairs]
    i = rng.randrange(len(pairs))
    put(c, pairs[:i] + pairs[i + 1:])


def stray_flag(rng, w, c, x):
    """Required, but the data flag says there are no extensions."""
    c.expected_ext = subset(rng, .4) or ['uvm']
    put(c, None)


MUT = [(f.__name__, f) for f in (random_sets, random_sets, random_sets, drop_one, stray_flag)]


def auth_stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=12, honest=.15, aspects=('ext',))


def reg_stream(ctx, rng, index):
    reg_episode(ctx, rng, MUT, n=8, honest=.15, aspects=('ext',))


KINDS = {'single': (single, 9, 90), 'auth': (auth_stream, 400, 12000), 'reg': (reg_stream, 400, 12000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'single-extension-rows': 9, 'auth:accept': 300, 'reg:accept': 300, 'unmet:ext': 500}
