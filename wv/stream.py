"""Episodes: streams of honest and mutated ceremonies on one long-lived backend."""
from wv import att, sim
from wv.sim import run_auth, run_reg, worker_world


def auth_episode(ctx, rng, mutators, n=12, honest=.4, aspects=None, suites=None, pre=None, check_class=False):
    """mutators: list of (name, fn(rng, world, case, entry)); fn edits the case and leaves it sealed."""
    world = worker_world(ctx, rng, suites=suites)
    before = []
    for _ in range(n):
        if before and rng.random() < .1:        # an earlier ceremony once more, judged by what is stored now
            c = rng.choice(before)
            out, reasons = run_auth(ctx, world, c, aspects, check_class)
            ctx.count('again:' + ('accepted' if out.accepted else 'rejected'))
        e = rng.choice(world.creds)
        c = sim.honest_auth(rng, world, e)
        if mutators and rng.random() >= honest:
            name, fn = rng.choice(mutators)
            c.note = name
            if fn(rng, world, c, e) is False:
                c.note = 'honest'
            else:
                ctx.count('mutator:' + name)
        if pre:
            pre(ctx, rng, world, c, e)
        out, reasons = run_auth(ctx, world, c, aspects, check_class)
        before.append(c)
        if out.accepted:
            ctx.count('accepted-suite:%s/%s' % (e.key.curve, e.key.alg))
        if len(ctx.samples) < 1:
            ctx.sample(note=c.note, unmet=sorted(reasons), outcome=str(out), case=c.describe())
    return world


def reg_episode(ctx, rng, mutators, n=8, honest=.4, aspects=None, fmt=None, check_class=False):
    """mutators: fn(rng, world, case, key), edits the semantic fields; the case is sealed afterwards."""
    world = worker_world(ctx, rng, creds=1)
    before = []
    for _ in range(n):
        if before and rng.random() < .1:
            out, reasons = run_reg(ctx, world, rng.choice(before), aspects, check_class)
            ctx.count('again:' + ('accepted' if out.accepted else 'rejected'))
        c, key = att.honest_reg(rng, world, fmt() if callable(fmt) else fmt)
        if mutators and rng.random() >= honest:
            name, fn = rng.choice(mutators)
            c.note = name
            if fn(rng, world, c, key) is False:
                c.note = 'honest'
            else:
                ctx.count('mutator:' + name)
                att.seal_reg(rng, c, key)
        out, reasons = run_reg(ctx, world, c, aspects, check_class)
        before.append(c)
        if out.accepted:
            ctx.count('accepted-fmt:' + c.fmt)
        if len(ctx.samples) < 1:
            ctx.sample(note=c.note, unmet=sorted(reasons), outcome=str(out), case=c.describe())


def sealed(fn):
    """Wrap a semantic mutator for authentications: apply, then re-sign honestly."""
    def wrapped(rng, world, c, e):
        if fn(rng, world, c, e) is False:
            return False
        c.seal(rng, e.key)
    return wrapped


def for_auth(mutators):
    return [(n, sealed(f)) for n, f in mutators]
