"""C22: builders are persistent and build exactly what was set."""
from webauthn_rp.builders import CredentialCreationOptionsBuilder, CredentialRequestOptionsBuilder
from webauthn_rp.errors import BuilderError

from wv import opts
from wv.core import dump, require
from wv.opts import V, mismatch, vandalise

RULE = ('one evaluation = one build compared member by member with the model of that builder, at some point of a history of constructions, setter calls, builds and changes to built options over a tree of builders; '
        'after every step every live builder is rebuilt; non-trivial = distinct (history, builder) pairs')

CREATE_ATTRS = {'rp': opts.of(opts.RP), 'pub_key_cred_params': opts.PARAMS, 'timeout': opts.integer, 'authenticator_selection': opts.of(opts.SELECTION), 'extensions': opts.of(opts.INPUTS),
                'attestation': lambda r: opts.enum(r, 'attestation'), 'exclude_credentials': opts.DESCRIPTORS}
REQUEST_ATTRS = {'mediation': lambda r: opts.enum(r, 'mediation'), 'timeout': opts.integer, 'rp_id': opts.text, 'extensions': opts.of(opts.INPUTS), 'user_verification': lambda r: opts.enum(r, 'uv')}
NOT_NONE = {'rp', 'pub_key_cred_params', 'attestation', 'mediation'}       # setters documented without Optional
CREATE_DEFAULTS = {'attestation': V('none')}
REQUEST_DEFAULTS = {'mediation': V('optional'), 'user_verification': V('preferred')}
REQUIRED_ATTRS = {'create': ('rp', 'pub_key_cred_params', 'attestation'), 'request': ('mediation',)}
FALSY = {'timeout': 0, 'rp_id': '', 'exclude_credentials': [], 'pub_key_cred_params': []}


class B:
    def __init__(self, kind, lib, model):
        self.kind, self.lib, self.model, self.alive = kind, lib, model, True


def arg(rng, attrs, name):
    if name in FALSY and rng.random() < .15:
        v = type(FALSY[name])()
        return v, ('l', []) if v == [] else V(v)
    return attrs[name](rng)


def build(ctx, rng, b, note):
    ch, chm = opts.raw(rng)
    missing = [a for a in REQUIRED_ATTRS[b.kind] if b.model[a] is None]
    kw, m = {'challenge': ch}, dict(b.model, challenge=chm)
    if b.kind == 'create':
        kw['user'], m['user'] = opts.gen(rng, opts.USER)
    else:
        m['allow_credentials'] = None
        if rng.random() < .6:
            kw['allow_credentials'], m['allow_credentials'] = opts.DESCRIPTORS(rng)
        elif rng.random() < .3:
            kw['allow_credentials'] = None
    before = dump(kw)
    try:
        o = b.lib.build(**kw)
    except BuilderError:
        require(missing, 'building failed although nothing required is missing (%s)' % note, model=b.model)
        ctx.count(b.kind + ':builder-error')
        for a in missing:
            ctx.count('missing:' + a)
        return None, None
    require(not missing, 'building succeeded without %s (%s)' % (missing, note))
    require(dump(kw) == before, 'build modified its arguments (%s)' % note)
    node = ('o', [(a, None, n) for a, n in m.items() if a != 'mediation'])
    full = ('o', ([('mediation', None, m['mediation'])] if b.kind == 'request' else []) + [('public_key', None, node)])
    diff = mismatch(o, full)
    require(diff is None, 'wrong options: %s (%s)' % (diff, note))
    ctx.count(b.kind + ':built')
    return o, full


def construct(rng, kind):
    attrs, defaults, cls = (CREATE_ATTRS, CREATE_DEFAULTS, CredentialCreationOptionsBuilder) if kind == 'create' else (REQUEST_ATTRS, REQUEST_DEFAULTS, CredentialRequestOptionsBuilder)
    kw, model = {}, {a: defaults.get(a) for a in attrs}
    p = rng.choice([0, .2, .5, 1])
    for a in attrs:
        r = rng.random()
        if r < p:
            kw[a], model[a] = arg(rng, attrs, a)
        elif r < p + .1:
            kw[a] = model[a] = None
    return B(kind, cls(**kw), model)


def history(ctx, rng, index):
    kind = ('create', 'request')[index % 2]
    attrs = CREATE_ATTRS if kind == 'create' else REQUEST_ATTRS
    live, built, notes = [construct(rng, kind)], [], []
    for step in range(rng.randint(4, 16)):
        op = rng.choices(['set', 'construct', 'build', 'vandalise', 'chain'], [6, 1, 2, 2, 2])[0]
        alive = [b for b in live if b.alive]
        if not alive:
            live.append(construct(rng, kind))
            continue
        b = rng.choice(alive)
        if op == 'construct':
            live.append(construct(rng, kind))
            notes.append('new')
        elif op in ('set', 'chain'):
            for _ in range(1 if op == 'set' else rng.randint(2, 4)):
                a = rng.choice(list(attrs))
                none = a not in NOT_NONE and rng.random() < .2
                v, node = (None, None) if none else arg(rng, attrs, a)
                old, vd = dump(b.lib), dump(v)
                c = getattr(b.lib, a)(v)
                require(type(c) is type(b.lib), 'setter %s returned %r' % (a, c))
                require(all(c is not x.lib for x in live), 'setter %s returned an existing builder' % a)
                require(dump(b.lib) == old, 'setter %s changed the builder it was called on' % a)
                require(dump(v) == vd, 'setter %s changed its argument' % a)
                b = B(kind, c, dict(b.model, **{a: node}))
                live.append(b)
                notes.append('%s%s' % (a, '=None' if none else ''))
                ctx.count('set:%s%s' % (a, ':none' if none else ''))
        elif op == 'build':
            o, full = build(ctx, rng, b, ' '.join(notes))
            if o is not None:
                built.append((b, o, full))
            notes.append('build')
        else:
            o, full = build(ctx, rng, b, ' '.join(notes))
            notes.append('vandalise')
            if o is not None:
                vandalise(o)
                b.alive = False       # it shares its members with the options it built
                ctx.count('vandalised')
        for x in live:
            if x.alive:
                build(ctx, rng, x, ' '.join(notes))
                ctx.judged((index, step, live.index(x)))
        for x, o, full in built:
            if x.alive:
                diff = mismatch(o, full)
                require(diff is None, 'options built earlier changed: %s (%s)' % (diff, ' '.join(notes)))
                ctx.count('earlier-options')
    ctx.sample(kind=kind, steps=notes)


def pairs(ctx, rng, index):
    """Every ordered pair of setters on a full and an empty builder; vandalise the last, recheck the others."""
    kind = ('create', 'request')[index % 2]
    attrs = CREATE_ATTRS if kind == 'create' else REQUEST_ATTRS
    for a1 in attrs:
        for a2 in attrs:
            base = construct(rng, kind)
            chain = [base]
            for a in (a1, a2):
                v, node = arg(rng, attrs, a)
                chain.append(B(kind, getattr(chain[-1].lib, a)(v), dict(chain[-1].model, **{a: node})))
            o, _ = build(ctx, rng, chain[rng.randint(0, 2)], '%s %s' % (a1, a2))
            victim = rng.randint(0, 2)
            o, _ = build(ctx, rng, chain[victim], '%s %s' % (a1, a2))
            if o is not None:
                vandalise(o)
                ctx.count('vandalised')
            for i, b in enumerate(chain):
                if i != victim or o is None:
                    build(ctx, rng, b, '%s then %s, options of builder %d changed' % (a1, a2, victim))
                    ctx.judged((kind, index, a1, a2, i))
            ctx.count('setter-pairs')


def defaults(ctx, rng, index):
    rp, rpm = opts.gen(rng, opts.RP)
    params, pm = opts.PARAMS(rng)
    none = {a: None for a in CREATE_ATTRS}
    for b in (B('create', CredentialCreationOptionsBuilder(rp=rp, pub_key_cred_params=params), dict(none, attestation=V('none'), rp=rpm, pub_key_cred_params=pm)),
              B('create', CredentialCreationOptionsBuilder().rp(rp).pub_key_cred_params(params), dict(none, attestation=V('none'), rp=rpm, pub_key_cred_params=pm)),
              B('create', CredentialCreationOptionsBuilder().pub_key_cred_params(params), dict(none, attestation=V('none'), pub_key_cred_params=pm)),
              B('create', CredentialCreationOptionsBuilder().rp(rp), dict(none, attestation=V('none'), rp=rpm)),
              B('create', CredentialCreationOptionsBuilder(), dict(none, attestation=V('none'))),
              B('create', CredentialCreationOptionsBuilder(rp=rp, pub_key_cred_params=params, attestation=None), dict(none, rp=rpm, pub_key_cred_params=pm)),
              B('request', CredentialRequestOptionsBuilder(), dict({a: None for a in REQUEST_ATTRS}, mediation=V('optional'), user_verification=V('preferred'))),
              B('request', CredentialRequestOptionsBuilder(user_verification=None), dict({a: None for a in REQUEST_ATTRS}, mediation=V('optional'))),
              B('request', CredentialRequestOptionsBuilder(mediation=None), dict({a: None for a in REQUEST_ATTRS}, user_verification=V('preferred')))):
        build(ctx, rng, b, 'defaults')
        build(ctx, rng, b, 'defaults again')
        ctx.judged(('defaults', index, repr(b.model)))


KINDS = {'history': (history, 600, 30000), 'pairs': (pairs, 48, 2000), 'defaults': (defaults, 64, 1000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'create:built': 1000, 'request:built': 1000, 'create:builder-error': 50, 'request:builder-error': 10, 'vandalised': 200, 'setter-pairs': 500, 'earlier-options': 200,
            'missing:rp': 20, 'missing:pub_key_cred_params': 20, 'missing:attestation': 10, 'missing:mediation': 10,
            **{'set:' + a: 20 for a in {**CREATE_ATTRS, **REQUEST_ATTRS}}, **{'set:%s:none' % a: 5 for a in {**CREATE_ATTRS, **REQUEST_ATTRS} if a not in NOT_NONE}}
