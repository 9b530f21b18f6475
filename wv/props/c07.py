"""C07: token binding matches exactly."""
from wv import att, sim
from wv.sim import gen_text, honest_auth, run_auth, run_reg, worker_world
from wv.stream import auth_episode, for_auth, reg_episode

RULE = ('one evaluation = one ceremony with chosen expected and received token binding; the full product of a set of bindings is enumerated for both '
        'ceremonies; non-trivial = distinct (expected, received, response bytes)')
# received ('present', None) is malformed client data
BINDINGS = [None, ('supported', None), ('supported', 'id'), ('supported', ''), ('present', 'id'), ('present', 'ID'), ('present', ''), ('present', 'id '),
            ('present', 'i'), ('present', 'idx'), ('present', '\u00e9'), ('present', 'None'), ('present', None), ('supported', 'other')]
assert len(BINDINGS) == 14


def product(ctx, rng, index):
    exp = BINDINGS[index % 14]
    for got in BINDINGS:
        for kind in ('auth', 'reg'):
            w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
            note = 'expected %r received %r' % (exp, got)
            if kind == 'auth':
                e = w.creds[0]
                c = honest_auth(rng, w, e)
                c.token_binding, c.cd_tb, c.note = exp, got, note
                c.seal(rng, e.key)
                run_auth(ctx, w, c, ())
            else:
                c, key = att.honest_reg(rng, w, 'none')
                c.token_binding, c.cd_tb, c.note = exp, got, note
                att.seal_reg(rng, c, key)
                run_reg(ctx, w, c, ())
    ctx.count('binding-rows')


NEAR = [(a, b) for n in (7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096, 65536) for a, b in
        (('t' * n + 'a', 't' * n + 'b'), ('t' * n, 't' * n + 'a'), ('a' + 't' * n, 'b' + 't' * n))]
NEAR += [('caf\u00e9', 'cafe\u0301'), ('stra\u00dfe', 'strasse'), ('a', 'A'), ('ab', 'ab='), ('ab==', 'ab'), ('a-b', 'a+b'), ('a_b', 'a/b'), ('1', '01'), ('1', '1.0'),
         (' a', 'a'), ('a', 'a\n'), ('a', 'a\0'), ('\ufeffa', 'a'), ('\uff41', 'a'), ('YWI', 'YWJ'), ('null', ''), ('\u2028', '\n')]


def near_ids(ctx, rng, index):
    """Directed: two different IDs that share a long prefix or suffix or that some normalisation makes equal."""
    for a, b in (NEAR[index % len(NEAR)], NEAR[index % len(NEAR)][::-1]):
        for status in ('present', 'supported'):
            for got in (a, b):
                w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
                note = 'expected %r received %r' % (a[-20:], got[-20:])
                if rng.random() < .5:
                    e = w.creds[0]
                    c = honest_auth(rng, w, e)
                    c.token_binding, c.cd_tb, c.note = (status, a), (status, got), note
                    c.seal(rng, e.key)
                    run_auth(ctx, w, c, ())
                else:
                    c, key = att.honest_reg(rng, w, 'none')
                    c.token_binding, c.cd_tb, c.note = (status, a), (status, got), note
                    att.seal_reg(rng, c, key)
                    run_reg(ctx, w, c, ())
    ctx.count('near-id-rows')


MALFORMED = [[], {}, '', 0, False, True, 1, 'present', 'supported', ['present'], ['supported'], [{'status': 'supported'}], {'status': None}, {'status': 'Present', 'id': 'id'}, {'status': 'PRESENT', 'id': 'id'},
             {'status': 'Supported'}, {'status': 'present '}, {'status': ' supported'}, {'status': 'present'}, {'status': 'present', 'id': None}, {'status': 'present', 'id': 1}, {'status': 'present', 'id': ['id']},
             {'status': 'present', 'id': {}}, {'status': 'present', 'id': True}, {'id': 'id'}, {'Status': 'present', 'id': 'id'}, {'status': 'not-supported'}, {'status': 'not_supported'}, {'status': ''}, {'status': True},
             {'status': 0}, {'status': ['present'], 'id': 'id'}, {'status': {}, 'id': 'id'}, {'STATUS': 'supported'}, {'tokenBinding': {'status': 'supported'}}, 0.5, 'null', [None], {'': 'supported'}]


def malformed(ctx, rng, index):
    """Directed: a received token binding that is none must not pass for an absent or a matching one."""
    for raw in MALFORMED[index % 4::4]:
        for exp in (None, ('supported', None), ('present', 'id'), ('supported', 'id'), ('present', '')):
            w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
            note = 'expected %r received %s' % (exp, repr(raw)[:60])
            if rng.random() < .5:
                e = w.creds[0]
                c = honest_auth(rng, w, e)
                c.token_binding, c.cd_tb, c.note = exp, ('raw', raw), note
                c.seal(rng, e.key)
                run_auth(ctx, w, c, ())
            else:
                c, key = att.honest_reg(rng, w, 'none')
                c.token_binding, c.cd_tb, c.note = exp, ('raw', raw), note
                att.seal_reg(rng, c, key)
                run_reg(ctx, w, c, ())
            ctx.count('malformed')


OTHER_TYPE = [('12', 12), ('0', 0), ('-1', -1), ('1.5', 1.5), ('True', True), ('true', True), ('False', False), ('None', None), ('null', None), ("['a']", ['a']), ('["a"]', ['a']), ('a', ['a']), ('a', {'a': 'a'}), ("{'a': 1}", {'a': 1}), ('{}', {}), ('[]', []),
              ('', []), ('', {}), ('', 0), ('', False), ('', None), ('1', True), ('0', False), ('id', {'id': 'id'}), ('id', [['id']]), ('1e3', 1000.0), ('1000', 1000.0), ('inf', float('inf')), ('nan', float('nan')), ('YWI', 'ab'), ('ab', 'YWI'), ('6162', 'ab')]


def other_types(ctx, rng, index):
    """Directed: received IDs that are no text but might be taken for the expected one when turned into text, or the other way round."""
    text, other = OTHER_TYPE[index % len(OTHER_TYPE)]
    for status in ('present', 'supported'):
        for reg in (False, True):
            w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256')])
            note = 'expected %r received %r' % (text, other)
            c, key = att.honest_reg(rng, w, 'none') if reg else (honest_auth(rng, w, w.creds[0]), w.creds[0].key)
            c.token_binding, c.cd_tb, c.note = (status, text), ('raw', {'status': status, 'id': other}), note
            if reg:
                att.seal_reg(rng, c, key)
                run_reg(ctx, w, c, ())
            else:
                c.seal(rng, key)
                run_auth(ctx, w, c, ())
    ctx.count('other-type-rows')


def change_received(rng, w, c, x):
    t = c.cd_tb
    c.cd_tb = rng.choice(BINDINGS) if t is None or rng.random() < .5 else rng.choice([
        (t[0], (t[1] or '') + 'x'), ('present' if t[0] == 'supported' else 'supported', t[1] or 'id'), (t[0], (t[1] or 'ab').swapcase()),
        (t[0], (t[1] or 'ab')[:-1]), ('supported', None), None])


def change_expected(rng, w, c, x): c.token_binding = rng.choice(BINDINGS)
def both(rng, w, c, x): c.token_binding = c.cd_tb = rng.choice([b for b in BINDINGS if b != ('present', None)] + [('present', gen_text(rng, 80))])


MUT = [(f.__name__, f) for f in (change_received, change_received, change_expected, both)]


def auth_stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=12, honest=.2, aspects=())


def reg_stream(ctx, rng, index):
    reg_episode(ctx, rng, MUT, n=8, honest=.2, aspects=())


KINDS = {'product': (product, 14, 140), 'near-ids': (near_ids, 62, 620), 'malformed': (malformed, 32, 400), 'other-types': (other_types, len(OTHER_TYPE), 10 * len(OTHER_TYPE)), 'auth': (auth_stream, 400, 12000), 'reg': (reg_stream, 400, 12000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'binding-rows': 14, 'near-id-rows': 62, 'malformed': 1000, 'other-type-rows': len(OTHER_TYPE), 'auth:accept': 300, 'reg:accept': 300, 'unmet:tb': 500}
