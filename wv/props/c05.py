"""C05: user presence and verification flags are enforced."""
from wv import att, sim
from wv.sim import AT, ED, gen_exts, honest_auth, rbytes, run_auth, run_reg, worker_world
from wv.keys import pick_key
from wv.stream import auth_episode, for_auth, reg_episode

RULE = ('one evaluation = one ceremony with a chosen flag byte, judged against the UP/UV requirement; all 256 bytes x requirement x ceremony '
        'are enumerated; non-trivial = distinct (flags, requirement, response bytes)')


def set_flags(rng, c, flags, key):
    c.ad.flags = flags
    if flags & ED and c.ad.ext is None:
        c.ad.ext = gen_exts(rng)
    if flags & AT and c.ad.att is None:
        c.ad.att = (rbytes(rng, 16), c.raw_id[:1000], (key or pick_key(rng)).cose())
    if not flags & ED:
        c.expected_ext = None
    elif c.expected_ext:
        c.expected_ext = [k for k, _ in c.ad.ext][:1]


def enumerate_flags(ctx, rng, index):
    flags = index % 256
    for uv in (False, True):
        for fmt in ('none', 'fido-u2f') if index % 4 == 0 else ('none',):
            w = worker_world(ctx, rng, creds=1)
            c, key = att.honest_reg(rng, w, fmt)
            set_flags(rng, c, flags, key)
            c.require_uv, c.note = uv, 'flags %#04x uv=%s' % (flags, uv)
            att.seal_reg(rng, c, key)
            run_reg(ctx, w, c, ('flags',))
        e = w.creds[0]
        c = honest_auth(rng, w, e)
        set_flags(rng, c, flags, None)
        c.require_uv, c.note = uv, 'flags %#04x uv=%s' % (flags, uv)
        c.seal(rng, e.key)
        run_auth(ctx, w, c, ('flags',))
    ctx.count('flag-bytes')


def random_flags(rng, w, c, x):
    set_flags(rng, c, rng.choice([rng.randrange(256), c.ad.flags & ~1, c.ad.flags & ~4, c.ad.flags & ~5, c.ad.flags | 0x3a, c.ad.flags ^ 5]),
              x if c.kind == 'reg' else None)


def toggle_requirement(rng, w, c, x): c.require_uv = not c.require_uv


def again(ctx, rng, index):
    """The same argument objects in a verified ceremony and then in unverified or absent ones: each is judged by its own flags."""
    w = worker_world(ctx, rng, creds=2)
    first = [rng.random() < .5 for _ in range(3)]
    kept = {}
    e = rng.choice(w.creds)
    user = rng.choice(w.users)
    for step, (reg, flags, uv) in enumerate([(first[0], 5, True), (first[0], 1, True), (first[1], 5, False), (first[1], 4, False), (first[2], 5, True), (first[2], 0, True), (not first[2], 1, True)]):
        if reg:
            c, key = att.honest_reg(rng, w, 'none', user=user)
            c.rp = e.rp_id if e.rp_id is not None else c.rp
            c.ad.rp_hash = sim.sha256(c.rp.encode())
            c.user = e.user_id
        else:
            c, key = honest_auth(rng, w, e), e.key
            c.user, c.ignore_clone = e.user_id, True
            c.rp = next(x for x in (e.rp_id, kept.get("rp"), c.rp, "example.com") if x is not None)
            c.ad.rp_hash = sim.sha256(c.rp.encode())
        kept.setdefault('rp', c.rp)
        if e.rp_id is None and c.rp != kept['rp']:
            c.rp = kept['rp']
            c.ad.rp_hash = sim.sha256(c.rp.encode())
        if 'cd' in kept:
            for k in ('expected_challenge', 'cd_challenge', 'expected_origin', 'cd_origin', 'token_binding', 'cd_tb'):
                setattr(c, k, kept['cd'][k])
        else:
            kept['cd'] = {k: getattr(c, k) for k in ('expected_challenge', 'cd_challenge', 'expected_origin', 'cd_origin', 'token_binding', 'cd_tb')}
        c.ad.flags = c.ad.flags & ~5 | flags
        c.require_uv, c.note = uv, 'same objects again, step %d' % step
        if reg:
            att.seal_reg(rng, c, key)
            run_reg(ctx, w, c, ('flags',))
        else:
            c.seal(rng, key)
            run_auth(ctx, w, c, ('flags',))
        ctx.count('same-objects')


MUT = [(f.__name__, f) for f in (random_flags, random_flags, toggle_requirement)]


def auth_stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=12, honest=.2, aspects=('flags',))


def reg_stream(ctx, rng, index):
    reg_episode(ctx, rng, MUT, n=8, honest=.2, aspects=('flags',))


KINDS = {'flags': (enumerate_flags, 256, 4096), 'again': (again, 64, 2000), 'auth': (auth_stream, 240, 8000), 'reg': (reg_stream, 240, 8000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'flag-bytes': 256, 'same-objects': 400, 'auth:accept': 200, 'reg:accept': 200, 'unmet:up': 300, 'unmet:uv': 200}
