"""C24: ceremonies do not interfere with each other."""
import copy
import enum
import gc
import sys
import threading

from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar

from wv import att, sim
from wv.core import dump, join_all, require
from wv.props.c10 import AUTH_MUT, FAULTS, REG_MUT
from wv.sched import Sched
from wv.sim import Fault, MonitoredRegistrar, Outcome, World, honest_auth, judge, near

RULE = ('one evaluation = one ceremony run in company (interleaved line by line or bytecode by bytecode with others in threads under a seeded scheduler, free-running threads, inside a registrar callback of another, or after a history of others) whose outcome and '
        'complete registrar report are compared with the same ceremony alone on a fresh backend and with the reference decision, with snapshots of all its arguments before and after; '
        'non-trivial = distinct (interleaving or history, ceremony)')


class Registrar(MonitoredRegistrar):
    """Answers like any other, yielding to other threads as slow storage would, and keeping what it was given."""
    sched = None

    def pause(self):
        if self.sched is not None:
            self.sched.point()

    @property
    def kept(self):
        if not hasattr(self._tls, 'kept'):
            self._tls.kept = []
        return self._tls.kept

    def register_credential_attestation(self, *a, **kw):
        kw.update(zip(('credential', 'att', 'att_type', 'user', 'rp', 'trusted_path'), a))
        self.pause()
        self.kept.append((kw, dump(kw)))
        r = super().register_credential_attestation(**kw)
        self.pause()
        return r

    def register_credential_assertion(self, *a, **kw):
        kw.update(zip(('credential', 'authenticator_data', 'user', 'rp'), a))
        self.pause()
        self.kept.append((kw, dump(kw)))
        r = super().register_credential_assertion(**kw)
        self.pause()
        return r

    def get_credential_data(self, credential_id):
        self.pause()
        r = super().get_credential_data(credential_id)
        if r is not None and not callable(r):
            self.kept.append((r, dump(r)))
        self.pause()
        return r


class Run:
    """One ceremony: its case, arguments and where it runs."""

    def __init__(self, world, case, kw=None):
        self.world, self.case, self.kw = world, case, kw


def execute(backend, registrar, run, kw):
    case = run.case
    registrar.arm(case.fault)
    registrar.kept.clear()
    before = dump(kw)
    exc = returned = None
    try:
        returned = (backend.handle_credential_assertion if case.kind == 'auth' else backend.handle_credential_attestation)(**kw)
    except Exception as e:  # noqa
        exc = e
        e.__traceback__ = None
        e.__context__ = None
    events = list(registrar.events)
    kept = list(registrar.kept)
    registrar.arm(None)
    out = Outcome(exc, events, kw, returned)
    summary = (out.cls, repr(returned), [(n, dump(a)) for n, a in events])
    return out, summary, before, kept


def alone(run):
    reg = Registrar()
    reg.store = run.world.registrar.store
    out, summary, before, kept = execute(CredentialsBackend(reg), reg, run, run.kw if run.kw is not None else run.case.kwargs())
    require(dump(out.kwargs) == before, 'a ceremony modified its arguments (alone)', before=repr(before)[:800], after=repr(dump(out.kwargs))[:800])
    return summary


def check(ctx, run, result, baseline, what, key):
    out, summary, before, kept = result
    if dump(out.kwargs) != before:
        ctx.violation('a ceremony modified its arguments (%s)' % what, before=repr(before)[:800], after=repr(dump(out.kwargs))[:800], case=run.case.describe())
    for obj, d in kept:
        if dump(obj) != d:
            ctx.violation('what the registrar gave or was given changed afterwards (%s)' % what, was=repr(d)[:800], now=repr(dump(obj))[:800])
    if summary != baseline:
        ctx.violation('a ceremony %s behaved differently than alone: %s' % (what, out), alone=repr(baseline)[:900], here=repr(summary)[:900], case=run.case.describe())
    reasons, unspec = run.case.reasons(run.world.registrar.store)
    judge(ctx, run.case, out, run.world.registrar.store.get(run.case.raw_id), reasons, unspec)
    ctx.judged(key)
    ctx.count('in-company:' + ('accepted' if out.accepted else 'rejected'))


def gen_run(rng, world, honest=.55):
    kind = rng.choice(['auth', 'auth', 'reg'])
    mut = rng.choice(AUTH_MUT if kind == 'auth' else REG_MUT) if rng.random() > honest else None
    if kind == 'auth':
        e = rng.choice(world.creds)
        c = honest_auth(rng, world, e)
        if mut:
            c.note = mut[0]
            mut[1](rng, world, c, e)
    else:
        c, key = att.honest_reg(rng, world)
        if mut:
            c.note = mut[0]
            if mut[1](rng, world, c, key) is not False:
                att.seal_reg(rng, c, key)
    if rng.random() < .1:
        how, f = rng.choice(FAULTS)
        c.fault = Fault('register' if kind == 'reg' or how == 'return' else rng.choice(['get', 'register']), how, f())
    return Run(world, c)


def worlds(ctx, rng, n):
    """Worlds with separate registrars; the second knows the same credential ids under other keys and users."""
    out = []
    suites = rng.choice([None, [('P-256', 'ES256')], [('Ed25519', 'EdDSA'), ('P-256', 'ES256')]])
    for i in range(n):
        st = ctx.state.setdefault('world%d' % i, None)
        if st is None:
            reg = Registrar()
            st = ctx.state['world%d' % i] = (reg, CredentialsBackend(reg))
        w = World(rng, users=3, creds=4, backend=st[1], registrar=st[0], suites=suites)
        if i:
            for mine, other in zip(w.creds[:2], out[0].creds[:2]):
                w.registrar.store.pop(mine.cid, None)
                mine.cid = other.cid
                w.registrar.store[mine.cid] = mine
        out.append(w)
    return out


def batch(rng, ws, n):
    runs = [gen_run(rng, rng.choice(ws)) for _ in range(n)]
    if rng.random() < .25:                       # the very same argument objects in two ceremonies
        r = rng.choice(runs)
        r.kw = r.case.kwargs()
        runs.append(Run(r.world, r.case, r.kw))
    elif rng.random() < .3:                      # the very same credential object, judged under other expectations
        r = rng.choice(runs)
        r.kw = r.case.kwargs()
        c = copy.copy(r.case)
        what = rng.choice(['challenge', 'origin', 'uv', 'tb', 'ext', 'user', 'rp'])
        if what == 'challenge': c.expected_challenge = near(rng, c.expected_challenge)
        elif what == 'origin': c.expected_origin = rng.choice(['https://other.example', ['https://other.example:1']])
        elif what == 'uv': c.require_uv = not c.require_uv
        elif what == 'tb': c.token_binding = None if c.token_binding else ('supported', None)
        elif what == 'ext': c.expected_ext = ['uvm', 'loc', 'appid']
        elif what == 'user' and c.kind == 'auth': c.user = near(rng, c.user or b'x')
        elif what == 'rp': c.rp = rng.choice(['other.example', 'example.com'])
        c.note += ' / other ' + what
        kw = c.kwargs()
        kw['credential'] = r.kw['credential']
        runs.insert(rng.randint(0, len(runs)), Run(r.world, c, kw))
    elif rng.random() < .3:                      # the same response twice
        r = rng.choice(runs)
        runs.append(Run(r.world, r.case))
    # deviations may have changed the stores, so the decision is taken against what they are now
    return [r for r in runs if not reads_twice(r)]


def reads_twice(r):
    # a few deviations leave a case for which the reference has no opinion on its own sealed bytes
    return r.case.cd_bytes is None or r.case.ad_bytes is None


def interleaved(ctx, rng, index):
    ws = worlds(ctx, rng, rng.choice([1, 1, 2]))
    runs = batch(rng, ws, rng.choice([2, 2, 3, 4]))
    baselines = [alone(r) for r in runs]
    for _ in range(3):
        opcodes = rng.random() < .25
        s = Sched(rng, rng.choice([.01, .03, .1, .3]) * (.3 if opcodes else 1), opcodes)
        for w in ws:
            w.registrar.sched = s
        kws = [r.kw if r.kw is not None else r.case.kwargs() for r in runs]
        res = s.run([lambda r=r, kw=kw: execute(r.world.backend, r.world.registrar, r, kw) for r, kw in zip(runs, kws)])
        for w in ws:
            w.registrar.sched = None
        ctx.stop = ctx.stop or res is None
        require(res is not None, 'ceremonies in threads wait for each other for ever', cases=[r.case.note for r in runs])
        sig = s.signature()
        for i, (r, (status, v)) in enumerate(zip(runs, res)):
            if status == 'error':
                raise v
            check(ctx, r, v, baselines[i], 'interleaved with %d others' % (len(runs) - 1), (sig, i))
        ctx.count('interleavings')
        ctx.count('interleavings:' + ('bytecode' if opcodes else 'line'))
        ctx.count('switches', len(s.switches))
        ctx.count('switch-points', s.points)
        ctx.count('watchdog-stalls', s.stalls)
        ctx.sample(cases=[(r.case.kind, r.case.note) for r in runs], switches=len(s.switches), points=s.points)


def history(ctx, rng, index):
    """One thread, one backend, ceremonies in several orders and repetitions; the stores stay as they are."""
    ws = worlds(ctx, rng, rng.choice([1, 2]))
    runs = batch(rng, ws, 8)
    baselines = {id(r): alone(r) for r in runs}
    order, kept = [], []
    for _ in range(2):
        part = list(runs)
        rng.shuffle(part)
        order += part
    for i, r in enumerate(order):
        kw = r.kw if r.kw is not None else r.case.kwargs()
        res = execute(r.world.backend, r.world.registrar, r, kw)
        kept += res[3]
        check(ctx, r, res, baselines[id(r)], 'after %d others' % i, ('history', index, i))
        ctx.count('history-steps')
    for obj, d in kept:
        require(dump(obj) == d, 'what an earlier ceremony reported changed later', was=d, now=dump(obj))
    # Whoever was given a report may change it: no other report may change with it.
    made = [o for o, _ in kept if isinstance(o, dict)]
    made = [o.get('att', o.get('authenticator_data')) for o in made]
    made = [o for i, o in enumerate(made) if o is not None and not any(o is x for x in made[:i])]
    was = [dump(o) for o in made]
    for i in rng.sample(range(len(made)), min(6, len(made))):
        if dump(made[i]) != was[i]:
            continue             # changed below already
        spoil(made[i], set())
        was[i] = dump(made[i])
        for j, o in enumerate(made):
            require(dump(o) == was[j], 'what one ceremony reported changed with what another reported', was=was[j], now=dump(o))
        ctx.count('reports-spoilt')


def spoil(o, seen):
    if id(o) in seen or len(seen) > 2000:
        return
    seen.add(id(o))
    if isinstance(o, (list, set, dict)):
        for x in list(o.values() if isinstance(o, dict) else o):
            spoil(x, seen)
        o.clear()
    elif type(o).__module__.startswith('webauthn_rp') and not isinstance(o, (type, enum.Enum)) and hasattr(o, '__dict__'):
        for k, v in list(vars(o).items()):
            spoil(v, seen)
            try:
                setattr(o, k, 'spoilt')
            except Exception:  # noqa: values that cannot be changed may be shared
                pass


class Hook:
    """Runs something once inside a call to a registrar, keeping what the registrar recorded so far apart from it."""

    def __init__(self, registrar, when, action):
        self.registrar, self.when, self.action, self.results, self.calls = registrar, when, action, [], 0

    def point(self):
        self.calls += 1
        if self.calls != self.when:
            return
        t = self.registrar._tls
        was = list(self.registrar.events), self.registrar.fault, list(self.registrar.kept)
        t.events, t.kept = [], []
        try:
            self.results = self.action()
        finally:
            t.events, t.fault, t.kept = was


def nested(ctx, rng, index):
    """A ceremony carried out inside the registrar's answer to another: in the lookup or the report, before or after recording, several deep or in a row."""
    ws = worlds(ctx, rng, rng.choice([1, 1, 2]))
    runs = batch(rng, ws, 4)
    if len(runs) < 2:
        return
    baselines = {id(r): alone(r) for r in runs}

    def go(r, kw):
        return r, execute(r.world.backend, r.world.registrar, r, kw)

    for _ in range(6):
        outer = rng.choice([r for r in runs if r.case.kind == 'auth'] or runs)
        inner = [rng.choice(runs) for _ in range(rng.choice([1, 1, 2]))]
        kws = [r.kw if r.kw is not None else r.case.kwargs() for r in inner]
        hook = Hook(outer.world.registrar, rng.choice([1, 1, 2, 3, 4]), lambda: [go(r, kw) for r, kw in zip(inner, kws)])
        outer.world.registrar.sched = hook
        try:
            res = execute(outer.world.backend, outer.world.registrar, outer, outer.kw if outer.kw is not None else outer.case.kwargs())
        finally:
            outer.world.registrar.sched = None
        where = 'nested at point %d' % hook.when
        check(ctx, outer, res, baselines[id(outer)], 'around %d others %s' % (len(hook.results), where), ('nested', index, _, 'outer'))
        for i, (r, out) in enumerate(hook.results):
            check(ctx, r, out, baselines[id(r)], 'inside another, ' + where, ('nested', index, _, i))
        ctx.count('nested:%s' % (where if hook.results else 'not reached'))


def free(ctx, rng, index):
    """Free-running threads with a very short switch interval."""
    ws = worlds(ctx, rng, 2)
    runs = batch(rng, ws, 8)
    baselines = [alone(r) for r in runs]
    results = [[] for _ in runs]
    barrier = threading.Barrier(len(runs))
    rounds = 4

    def body(i, r):
        for _ in range(rounds):
            barrier.wait(60)
            kw = r.kw if r.kw is not None else r.case.kwargs()
            results[i].append(execute(r.world.backend, r.world.registrar, r, kw))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(i, r), daemon=True) for i, r in enumerate(runs)]
        for t in ts:
            t.start()
        blocked = join_all(ts)
    finally:
        sys.setswitchinterval(old)
    if blocked:
        ctx.stop = True
        require(False, 'ceremonies in free-running threads wait for ever', cases=[r.case.note for r in runs])
    for i, r in enumerate(runs):
        require(len(results[i]) == rounds, 'a ceremony in a free-running thread did not come to an end', case=r.case.note)
        for n, res in enumerate(results[i]):
            check(ctx, r, res, baselines[i], 'in free-running threads', ('free', index, i, n))
    ctx.count('free-rounds', rounds)


class Forgetful(CredentialsRegistrar):
    """Answers with new objects each time and keeps none of those it is given, as a registrar over a database does."""

    def __init__(self):
        self.entries, self.told = {}, []

    def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
        self.told.append(('reg', credential.raw_id, att.fmt.value, att.auth_data.sign_count, att.auth_data.rp_id_hash, att.auth_data.flags, user.id, user.name, rp.id, rp.name))

    def register_credential_assertion(self, credential, authenticator_data, user, rp):
        self.told.append(('auth', credential.raw_id, None, authenticator_data.sign_count, authenticator_data.rp_id_hash, authenticator_data.flags, user.id, user.name, rp.id, rp.name))

    def get_credential_data(self, credential_id):
        e = self.entries.get(credential_id)
        if e is None:
            return None
        return CredentialData(copy.copy(e.cpk), e.count, fresh(sim.user_entity(e.user_id, 'registered')), None if e.rp_id is None else fresh(sim.rp_entity(e.rp_id)))


def fresh(o):
    return None if o is None else copy.copy(o)


def temporaries(ctx, rng, index):
    """Every object lives for one ceremony only, so that later ones stand at the addresses of earlier ones: nothing may be remembered by identity."""
    if 'forgetful' not in ctx.state:
        reg = Forgetful()
        ctx.state['forgetful'] = reg, CredentialsBackend(reg)
    reg, backend = ctx.state['forgetful']
    w = World(rng, users=3, creds=4, suites=[rng.choice([('P-256', 'ES256'), ('Ed25519', 'EdDSA')])])
    reg.entries = w.registrar.store
    todo = [gen_run(rng, w).case for _ in range(10)]
    if rng.random() < .3:
        gc.collect()
    for i in range(40):
        c = rng.choice(todo)
        if c.fault is not None or c.cd_bytes is None or c.ad_bytes is None:
            continue
        reasons, unspec = c.reasons(w.registrar.store)
        kw = c.kwargs()
        for k in ('rp', 'user'):
            if k in kw:
                kw[k] = fresh(kw[k])
        reg.told.clear()
        err = None
        try:
            (backend.handle_credential_assertion if c.kind == 'auth' else backend.handle_credential_attestation)(**kw)
        except Exception as e:  # noqa
            err = repr(e)
        del kw
        if err is None and reasons:
            ctx.violation('accepted although a requirement is not met, after ceremonies with other objects: %s' % c.note, case=c.describe(), reasons=sorted(reasons))
        elif err is not None and not reasons and not unspec:
            ctx.violation('rejected (%s) although every requirement is met, after ceremonies with other objects: %s' % (err, c.note), case=c.describe())
        elif err is None:
            e = w.registrar.store.get(c.raw_id)
            u = sim.user_entity(c.user, 'given') if c.user is not None else sim.user_entity(e.user_id, 'registered')
            rp = c.rp if c.kind == 'reg' else c.rp_in_force(e)
            want = (c.kind, c.raw_id, c.fmt if c.kind == 'reg' else None, c.ad.count, c.ad.rp_hash, c.ad.flags, u.id, rp)
            got = [t[:7] + t[8:9] for t in reg.told]
            if got != [want]:
                ctx.violation('the registrar was told something else after ceremonies with other objects: %s' % c.note, told=repr(got), want=repr(want), case=c.describe())
        ctx.judged(('temporary', index, i))
        ctx.count('temporary:' + ('rejected' if err else 'accepted'))


KINDS = {'interleaved': (interleaved, 360, 12000), 'history': (history, 120, 4000), 'nested': (nested, 160, 6000), 'temporaries': (temporaries, 96, 3000), 'free': (free, 48, 1500)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'interleavings': 500, 'interleavings:bytecode': 100, 'switches': 5000, 'in-company:accepted': 500, 'in-company:rejected': 500, 'history-steps': 500, 'nested:nested at point 1': 200, 'nested:nested at point 2': 50, 'nested:nested at point 3': 30, 'temporary:accepted': 500, 'temporary:rejected': 500, 'free-rounds': 100}
