"""C10: the registrar is called exactly once, faithfully, and only on success."""
from webauthn_rp import errors as E
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.registrars import CredentialsRegistrar

from wv import att, magic, sim
from wv.core import dump, require
from wv.sim import Fault, execute, honest_auth, judge, run_auth, run_reg, worker_world
from wv.props import c01, c02, c03, c04, c05, c06, c07, c08, c09
from wv.stream import for_auth

RULE = ('one evaluation = one ceremony whose recorded registrar calls are checked against the protocol automaton (get exactly once at most, register exactly '
        'once iff every requirement holds, arguments faithful, result decides); every fault value is enumerated on both methods and both ceremonies; '
        'non-trivial = distinct (fault, deviation, response bytes)')


class Falsy:
    def __bool__(self): return False
    def __repr__(self): return 'Falsy()'


class EqualsNone:
    """Compares equal to everything, None included."""
    def __eq__(self, o): return True
    def __ne__(self, o): return False
    def __hash__(self): return 0
    def __repr__(self): return 'EqualsNone()'


class Unprintable:
    def __repr__(self): raise RuntimeError('no repr')
    __str__ = __repr__


class Everything:
    """Has every member anyone may ask for."""
    def __init__(self, member): self.member = member
    def __getattr__(self, name): return self.member
    def __repr__(self): return 'Everything()'


def dressed(base, *names):
    """An object with the members that the code under test asks for by name."""
    t = type('Dressed', (base,), {n: (lambda self, *a, **k: None) for n in set(names) if n.isidentifier() and not n.startswith('__') or n in (
        '__await__', '__iter__', '__len__', '__call__', '__enter__', '__exit__', '__next__', '__aiter__', '__anext__', '__contains__', '__float__', '__int__', '__index__')})
    return t('no') if base is str else t()


async def never_awaited():
    return None


def pending():
    c = never_awaited()
    c.close()
    return c


class OddError(Exception):
    pass


class HopelessError(Exception):
    def __repr__(self): raise HopelessError()
    __str__ = __repr__


class UnprintableError(Exception):
    def __repr__(self): raise RuntimeError('no repr')
    __str__ = __repr__


RETURNS = [lambda: False, lambda: True, lambda: 0, lambda: 1, lambda: -1, lambda: 0.0, lambda: '', lambda: 'failed', lambda: b'', lambda: b'x', lambda: [],
           lambda: {}, lambda: (), lambda: set(), lambda: Falsy(), lambda: EqualsNone(), lambda: object(), lambda: ValueError('returned'),
           lambda: E.WebAuthnRPError('returned'), lambda: NotImplemented, lambda: Ellipsis, lambda: [None], lambda: float('nan'), lambda: None.__class__,
           lambda: E.RegistrationError('returned'), pending, lambda: (x for x in ()), lambda: iter([]), lambda: Everything(None), lambda: Everything(lambda *a: None), lambda: print, lambda: type(None),
           lambda: dressed(object, *magic.pool(str)[0]), lambda: dressed(object, *magic.pool(str)[1]), lambda: dressed(dict, '__await__', 'ok'), lambda: dressed(str, 'success'), lambda: dressed(Exception, *magic.pool(str)[1])]
RETURNS += [(lambda v: lambda: v)(v) for t in (int, str, bytes) for v in magic.pool(t)[1][:6]]
RAISES = [lambda: ValueError('x'), lambda: KeyError('x'), lambda: RuntimeError(), lambda: AssertionError(), lambda: OSError(5, 'io'), lambda: OddError('x'),
          lambda: TypeError('x'), lambda: StopIteration(), lambda: LookupError(), lambda: ArithmeticError(), lambda: MemoryError(), lambda: TimeoutError(),
          lambda: E.UnimplementedError('x'), lambda: E.ParserError('x'), lambda: E.ChallengeError('x'), lambda: E.WebAuthnRPError('x'), lambda: E.CredentialDataError('x'),
          lambda: E.InternalError('x'), lambda: E.RegistrationError('own'), lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad'), lambda: NotImplementedError(),
          lambda: EOFError(), lambda: AttributeError('id'), lambda: RecursionError(), lambda: ConnectionError('gone'), lambda: StopAsyncIteration()]
FAULTS = [('return', f) for f in RETURNS] + [('raise', f) for f in RAISES]


def protocol(ctx, c, out, reasons):
    """Automaton over the recorded calls of one ceremony."""
    ev = [e[0] for e in out.events]
    gets, regs = ev.count('get'), [x for x in ev if x != 'get']
    det = dict(events=ev, case=c.describe(), outcome=str(out))
    if c.kind == 'reg' and gets:
        ctx.violation('credential data requested during a registration', **det)
    if gets > 1:
        ctx.violation('credential data requested %d times' % gets, **det)
    if c.kind == 'auth' and regs and (not gets or ev.index('get') > ev.index(regs[0])):
        ctx.violation('an assertion was registered without asking for the credential data first', **det)
    if len(regs) > 1:
        ctx.violation('%d registration calls in one ceremony' % len(regs), **det)
    for name, a in out.events:
        if name == 'get' and type(a['credential_id']) is not bytes:
            ctx.violation('credential id of type %s' % type(a['credential_id']).__name__, **det)
    if out.accepted and len(regs) == 1:
        a = out.registrations()[0][1]
        kw = out.kwargs
        if kw.get('user') is not None and dump(a['user']) != dump(kw['user']):
            ctx.violation('another user was given to the registrar', got=repr(vars(a['user'])), **det)
        if kw.get('rp') is not None and dump(a['rp']) != dump(kw['rp']):
            ctx.violation('another RP was given to the registrar', got=repr(vars(a['rp'])), **det)
    ctx.count('protocol-checked')


def one(ctx, rng, w, kind, fault, mutator=None, fmt=None, note='honest'):
    if kind == 'auth':
        e = rng.choice(w.creds)
        c = honest_auth(rng, w, e)
        if mutator:
            c.note = mutator[0]
            if mutator[1](rng, w, c, e) is False:
                c.note = 'honest'
    else:
        c, key = att.honest_reg(rng, w, fmt)
        if mutator:
            c.note = mutator[0]
            if mutator[1](rng, w, c, key) is False:
                c.note = 'honest'
            else:
                att.seal_reg(rng, c, key)
    if rng.random() < .2:                # the textual members of the credential object are reported as they are
        c.id_text = rng.choice(['', 'x', '{}', c.raw_id.hex(), '\u00e9', 'A' * 5000, None])
        c.type_text = rng.choice([None, '', 'password', 'public-key'])
        ctx.count('textual-members')
    c.fault = fault
    if fault is not None:
        c.note += ' + registrar %s %s' % (fault.method, fault.how)
    run = run_auth if kind == 'auth' else run_reg
    out, reasons = run(ctx, w, c, check_class=mutator is None)
    protocol(ctx, c, out, reasons)
    for _ in range(rng.choice([0] * 8 + [1, 1, 2, 9])):    # the same response submitted again is reported again, however often
        o, why = run(ctx, w, c, check_class=mutator is None)
        protocol(ctx, c, o, why)
        ctx.count('again:%s:%s' % (kind, 'accepted' if o.accepted else 'rejected'))
    if fault is not None and not mutator and reasons == {'registrar'}:
        ctx.count('fault:%s:%s:%s' % (kind, fault.method, fault.how))
        if out.accepted or 'RegistrationError' not in out.classes():
            ctx.violation('registrar %s %s gave %s instead of RegistrationError' % (fault.method, fault.how, out), case=c.describe())
    if fault is not None and not mutator and fault.method == 'get' and reasons == {'get-fault'}:
        ctx.count('fault:%s:get:raise' % kind)
    return out


def faults(ctx, rng, index):
    how, f = FAULTS[index % len(FAULTS)]
    w = worker_world(ctx, rng, creds=2)
    for _ in range(2):
        one(ctx, rng, w, 'auth', Fault('register', how, f()))
        for fmt in ('none', 'fido-u2f', 'android-key'):
            one(ctx, rng, w, 'reg', Fault('register', how, f()), fmt=fmt)
        if how == 'raise':
            one(ctx, rng, w, 'auth', Fault('get', how, f()))
        one(ctx, rng, w, 'auth', Fault('get', 'return', None))
        # the next honest ceremonies are unaffected
        one(ctx, rng, w, 'auth', None)
        one(ctx, rng, w, 'reg', None)
    ctx.count('fault-rows')


def unprintable(ctx, rng, index):
    """Results and errors that cannot even be formatted: the ceremony must still fail, with the same error."""
    w = worker_world(ctx, rng, creds=1)
    for kind in ('auth', 'reg'):
        for fault in [Fault('register', 'return', Unprintable())] + [Fault(m, 'raise', e()) for m in ('register', 'get') for e in (UnprintableError, HopelessError)]:
            if kind == 'reg' and fault.method == 'get':
                continue
            c = honest_auth(rng, w, w.creds[0]) if kind == 'auth' else att.honest_reg(rng, w)[0]
            c.fault = fault
            out = execute(w.backend, w.registrar, c)
            require(not out.accepted, 'a ceremony whose registrar failed unprintably was accepted', fault=fault.how, kind=kind)
            require('RegistrationError' in out.classes(), 'a ceremony whose registrar failed unprintably did not fail with RegistrationError', got=str(out.cls), fault=fault.how, kind=kind)
            ctx.count('unprintable-faults')
            ctx.judged(('unprintable', kind, fault.method, fault.how, c.cd_bytes))


class GetOnly(CredentialsRegistrar):
    def __init__(self, data): self.data = data
    def get_credential_data(self, credential_id): return self.data


def base_registrar(ctx, rng, index):
    """The interface class itself implements nothing, so nothing can be registered through it."""
    w = worker_world(ctx, rng, creds=1)
    c = honest_auth(rng, w, w.creds[0])
    for reg in (CredentialsRegistrar(), GetOnly(w.creds[0].data())):
        b = CredentialsBackend(reg)
        for kind, case in (('auth', c), ('reg', att.honest_reg(rng, w)[0])):
            kw = case.kwargs()
            try:
                (b.handle_credential_assertion if kind == 'auth' else b.handle_credential_attestation)(**kw)
            except E.RegistrationError:
                ctx.count('base-registrar-rejections')
            except Exception as e:  # noqa
                ctx.violation('unimplemented registrar gave %s instead of RegistrationError' % type(e).__name__)
            else:
                ctx.violation('a ceremony succeeded on a registrar that implements nothing', kind=kind)
            ctx.judged(('base', kind, type(reg).__name__, case.cd_bytes))


AUTH_MUT = (list(c01.MUT) + for_auth(c02.MUT) + for_auth(c05.MUT) + for_auth(c07.MUT) + for_auth(c08.MUT) + for_auth(c09.MUT)
            + for_auth(c03.MUT) + for_auth(c04.AUTH) + for_auth(c06.MUT))
REG_MUT = [m for mod in (c02, c03, c05, c07, c08) for m in mod.MUT] + c04.REG


def stream(ctx, rng, index):
    w = worker_world(ctx, rng)
    for _ in range(12):
        kind = rng.choice(['auth', 'auth', 'reg'])
        mut = rng.choice(AUTH_MUT if kind == 'auth' else REG_MUT) if rng.random() < .5 else None
        fault = None
        if rng.random() < .3:
            how, f = rng.choice(FAULTS)
            method = 'register' if kind == 'reg' or how == 'return' or rng.random() < .6 else 'get'
            fault = Fault(method, how, f())
        out = one(ctx, rng, w, kind, fault, mut)
        if not ctx.samples:
            ctx.sample(outcome=str(out), events=[e[0] for e in out.events])


KINDS = {'faults': (faults, len(FAULTS), len(FAULTS) * 12), 'unprintable': (unprintable, 8, 80), 'base': (base_registrar, 8, 80), 'stream': (stream, 480, 14000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'fault-rows': len(FAULTS), 'textual-members': 300, 'protocol-checked': 2000, 'auth:accept': 200, 'reg:accept': 200, 'fault:auth:register:return': 40, 'fault:reg:register:return': 100,
            'fault:auth:register:raise': 40, 'fault:reg:register:raise': 100, 'fault:auth:get:raise': 40, 'unmet:sig': 50, 'unmet:count': 50, 'unmet:up': 30,
            'base-registrar-rejections': 8, 'unprintable-faults': 8}
