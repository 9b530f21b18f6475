"""C02: ceremonies are bound to the expected challenge and ceremony type."""
import base64

from wv import att, magic, sim
from wv.sim import b64u, gen_challenge, honest_auth, near, rbytes, run_auth, run_reg, worker_world
from wv.stream import auth_episode, for_auth, reg_episode

RULE = ('one evaluation = one ceremony handled by the real backend and judged against a reference base64url/type decision; '
        'non-trivial = distinct (deviation, client data, response bytes)')


def near_challenge(rng, w, c, x): c.cd_challenge = b64u(near(rng, c.expected_challenge), pad=rng.random() < .2)
def near_expected(rng, w, c, x): c.expected_challenge = near(rng, c.expected_challenge)
def random_challenge(rng, w, c, x): c.cd_challenge = b64u(gen_challenge(rng))


def stale(rng, w, c, x):
    """A challenge that was accepted earlier on this backend."""
    if not w.accepted:
        return False
    c.cd_challenge = rng.choice(w.accepted).cd_challenge


def stale_expected(rng, w, c, x):
    if not w.accepted:
        return False
    c.expected_challenge = rng.choice(w.accepted).expected_challenge


def text_mutation(rng, w, c, x):
    s = c.cd_challenge
    e = c.expected_challenge
    i = rng.randrange(len(s)) if s else 0
    if magic.chance(rng):
        m = magic.word(rng)
        c.cd_challenge = rng.choice([s + m, m + s, s[:i] + m + s[i:], m, s[:i] + m + s[i + len(m):]])
        return
    c.cd_challenge = rng.choice([
        lambda: s[:-1], lambda: s[1:], lambda: s + 'A', lambda: s + 'AA', lambda: 'A' + s, lambda: s.swapcase(), lambda: s.lower(),
        lambda: s[:i] + rng.choice('ABab01-_') + s[i + 1:], lambda: '', lambda: 'A', lambda: s + '\u00e9', lambda: '\u0410' + s[1:],
        lambda: e.hex(), lambda: b64u(s.encode()), lambda: base64.b64encode(e).decode(), lambda: s + '\0', lambda: s + ' ',
        lambda: s[:i] + '\n' + s[i:], lambda: s + '====', lambda: s[:i] + '=' + s[i:], lambda: s[::-1], lambda: s + '.', lambda: '=' + s,
        lambda: s + s, lambda: e.decode('latin-1'), lambda: s[:43], lambda: s + '==' + 'AAAA'])()


def impossible(rng, w, c, x):
    """A text of a length base64 cannot have, whatever was expected: nothing, its start or its whole."""
    k = rng.choice([0, 0, 1, 2, 5, 11, 21, 100])
    e = rbytes(rng, 3 * k)
    c.cd_challenge = b64u(e) + rng.choice('AQgwx_-')
    c.expected_challenge = rng.choice([b'', b'', e, e, e + b'\0', e[:-1], c.cd_challenge.encode(), bytes(3 * k)])


def type_mutation(rng, w, c, x):
    right = c.cd_type
    if magic.chance(rng):
        m = magic.text(rng)
        c.cd_type = rng.choice([right + m, m + right, m, right.replace('webauthn', m), m + '.' + right.split('.')[1]])
        return
    other = 'webauthn.get' if right == 'webauthn.create' else 'webauthn.create'
    c.cd_type = rng.choice([
        other, other, other, right.upper(), right.capitalize(), right + ' ', ' ' + right, right + '\0', right[:-1], right + 's', '',
        'webauthn', 'webauthn.', right.split('.')[1], 'public-key', right.replace('.', '_'), right.replace('.', ''), right + '.' + other,
        right.replace('e', '\u0435'), 'payment.get', 'navigator.id.getAssertion', 'webauthn.create.get', other + right, 'WebAuthn.get', right + '\n',
        'webauthn.update', 'webauthn.delete', 'null', 'true'])


def both(rng, w, c, x):
    type_mutation(rng, w, c, x)
    near_challenge(rng, w, c, x)


MUT = [(f.__name__, f) for f in (near_challenge, near_challenge, near_expected, near_expected, random_challenge, stale, stale_expected,
                                 text_mutation, text_mutation, impossible, type_mutation, type_mutation, both)]


def auth_stream(ctx, rng, index):
    auth_episode(ctx, rng, for_auth(MUT), n=12, honest=.25, aspects=())


def reg_stream(ctx, rng, index):
    reg_episode(ctx, rng, MUT, n=8, honest=.25, aspects=())


def _pair(ctx, rng, edit, note, ceremonies=('auth', 'reg')):
    """Apply one edit to a fresh honest ceremony of each kind."""
    if 'auth' in ceremonies:
        w = worker_world(ctx, rng, creds=1, suites=[('P-256', 'ES256'), ('Ed25519', 'EdDSA')])
        e = w.creds[0]
        c = honest_auth(rng, w, e)
        c.note = note
        edit(c)
        c.seal(rng, e.key)
        run_auth(ctx, w, c, ())
    if 'reg' in ceremonies:
        w = worker_world(ctx, rng, creds=0)
        c, key = att.honest_reg(rng, w, 'none')
        c.note = note
        edit(c)
        att.seal_reg(rng, c, key)
        run_reg(ctx, w, c, ())


class Blob(bytes):
    """A byte string type of the application."""


def lengths(ctx, rng, index):
    """Directed: every challenge length, honest and with all single-step length deviations."""
    ch = rbytes(rng, index)
    for note, given in [('same', ch), ('prefix', ch[:-1]), ('extended', ch + b'\0'), ('suffix', ch[1:]), ('empty', b''),
                        ('tail', ch[:-1] + bytes([ch[-1] ^ 1]) if ch else b'\1'), ('head', bytes([ch[0] ^ 1]) + ch[1:] if ch else b'\2')]:
        def edit(c, given=given):
            c.expected_challenge = Blob(ch) if rng.random() < .4 else ch
            c.cd_challenge = b64u(given, pad=rng.random() < .3)
        _pair(ctx, rng, edit, 'length %d %s' % (index, note))
    ctx.count('challenge-length-covered')


SIZES = [512, 513, 767, 768, 769, 1023, 1024, 1025, 1535, 1536, 1537, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 6145, 8193, 12289, 16385, 32769,
         49153, 65535, 65536, 65537, 98305, 131073]


def scale(ctx, rng, index):
    """Directed: long challenges that differ at one place only, near the start, the end or a power of two."""
    n = SIZES[index % len(SIZES)] + (rng.choice([0, 0, 1, 2, -1]) if index >= len(SIZES) else 0)
    if magic.chance(rng):
        n = max(magic.size(rng, 100000) or 0, 300)
    ch = rbytes(rng, n)
    cut = max(m for m in SIZES + [256] if m < n)
    flip = lambda i: ch[:i] + bytes([ch[i] ^ (1 << rng.randrange(8))]) + ch[i + 1:]
    for note, given in [('same', ch), ('prefix', ch[:-1]), ('extended', ch + b'\0'), ('suffix', ch[1:]), ('tail', flip(n - 1)), ('head', flip(0)),
                        ('cut', ch[:cut]), ('after the cut', flip(cut)), ('middle', flip(n // 2)), ('any', flip(rng.randrange(n)))]:
        def edit(c, given=given):
            c.expected_challenge, c.cd_challenge = ch, b64u(given, pad=rng.random() < .3)

        def swapped(c, given=given):
            c.expected_challenge, c.cd_challenge = given, b64u(ch, pad=rng.random() < .3)
        _pair(ctx, rng, edit if rng.random() < .6 else swapped, 'length %d %s' % (n, note), [rng.choice(['auth', 'reg'])])
    ctx.count('long-challenges')


def bits(ctx, rng, index):
    """Directed: every single-bit difference of a 32 byte challenge."""
    ch = rbytes(rng, 32)
    given = ch[:index // 8] + bytes([ch[index // 8] ^ (1 << index % 8)]) + ch[index // 8 + 1:]

    def edit(c):
        c.expected_challenge = ch
        c.cd_challenge = b64u(given)
    _pair(ctx, rng, edit, 'bit %d' % index)
    ctx.count('challenge-bit-covered')


KINDS = {'lengths': (lengths, 140, 600), 'bits': (bits, 256, 256), 'scale': (scale, 62, 1240), 'auth': (auth_stream, 480, 12000), 'reg': (reg_stream, 480, 12000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'auth:accept': 300, 'reg:accept': 300, 'unmet:challenge': 500, 'unmet:type': 300, 'unmet:challenge-decode': 20,
            'challenge-length-covered': 140, 'challenge-bit-covered': 256, 'long-challenges': 62, 'mutator:stale': 20}
