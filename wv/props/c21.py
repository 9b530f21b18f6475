"""C21: options convert to JSON faithfully."""
import json
from collections import OrderedDict, defaultdict, namedtuple

from webauthn_rp.converters import jsonify
from webauthn_rp.errors import JSONConversionError, UnimplementedError, WebAuthnRPError

from wv import opts
from wv.core import dump, require, short
from wv.opts import SPECS, exact, to_json
from wv.sim import rbytes

RULE = ('one evaluation = one options object (or nested dictionary) converted, the result compared exactly (types included) with an independently built JSON model, serialised as strict JSON and read back, '
        'and the object compared with its snapshot; non-trivial = distinct expected documents')


def check(ctx, what, obj, model):
    before = dump(obj)
    for camel in (True, False):
        want = to_json(model, camel)
        got = jsonify(obj) if camel else jsonify(obj, False)
        require(exact(got, want), 'wrong JSON for %s (convert_case=%s)' % (what, camel), got=got, want=want)
        require(dump(obj) == before, 'the converted object was modified (%s)' % what)
        try:
            text = json.dumps(got, allow_nan=False)
        except (TypeError, ValueError) as e:
            require(False, 'the result does not serialise as standard JSON: %r' % e, got=got)
        require(exact(json.loads(text), want), 'the serialised result reads back differently', text=text)
        scramble(got)
        require(dump(obj) == before, 'the result shares a container with the converted object (%s)' % what)
        again = jsonify(obj, convert_case=camel)
        require(exact(again, want), 'a second conversion differs (%s)' % what, got=again, want=want)
        ctx.judged((what, short(text, 4000)))
    return want


def scramble(j):
    if isinstance(j, dict):
        for v in list(j.values()):
            scramble(v)
        j['scrambled'] = 1
    elif isinstance(j, list):
        for v in j:
            scramble(v)
        j.append('scrambled')


def objects(ctx, rng, index):
    for name, spec in SPECS.items():
        obj, model = opts.gen(rng, spec, rng.choice([0, .3, .5, .8, 1]))
        check(ctx, name, obj, model)
        ctx.count('object:' + name)
    ctx.sample(name=name, json=short(to_json(model), 300))


def subsets(ctx, rng, index):
    """Every subset of the optional members, one class at a time."""
    name = list(SPECS)[index % len(SPECS)]
    spec = SPECS[name]
    optional = [f[0] for f in spec[1] if not f[3]]
    masks = range(1 << len(optional))
    for mask in (masks if len(optional) <= 6 else rng.sample(masks, 64)):
        only = [o for i, o in enumerate(optional) if mask >> i & 1]
        obj, model = opts.gen(rng, spec, only=only, explicit_none=mask % 2 == 0)
        check(ctx, name, obj, model)
        ctx.count('subset:' + name)


def enums(ctx, rng, index):
    for group, table in opts.ENUMS.items():
        for lib, wire in table:
            for camel in (True, False):
                got = jsonify(lib, camel)
                require(exact(got, wire), 'enumeration member %r converts to %r' % (lib, got), want=wire)
                got = jsonify([lib, {'a_b': lib}], camel)
                require(exact(got, [wire, {'aB' if camel else 'a_b': wire}]), 'nested enumeration member %r converts to %r' % (lib, got))
                ctx.judged((group, wire))
                ctx.count('enum')


def value(rng, depth=3):
    """A nested Python value and its model."""
    r = rng.random()
    if depth == 0 or r < .5:
        g = rng.choice([opts.text, opts.raw, opts.integer, opts.boolean, opts.number, lambda q: (None, opts.V(None)), lambda q: opts.enum(q, rng.choice(list(opts.ENUMS)))])
        return g(rng)
    if r < .7:
        return opts.seq(rng, lambda q: value(q, depth - 1), 0, 4)
    if r < .8:
        return opts.gen(rng, rng.choice(list(SPECS.values())), .4)
    d, m = {}, []
    for snake, camel in rng.sample([('a', 'a'), ('rp_id', 'rpId'), ('one_two_three', 'oneTwoThree'), ('x1_y2', 'x1Y2'), ('public_key', 'publicKey'), ('appid', 'appid'), ('FAR', 'FAR'), ('client_data_JSON', 'clientDataJSON'), ('camelCase', 'camelCase')], rng.randint(0, 6)):
        d[snake], node = value(rng, depth - 1)
        m.append((snake, camel, None if d[snake] is None else node))
    return d, ('o', m)


def nested(ctx, rng, index):
    for _ in range(10):
        v, m = value(rng)
        check(ctx, 'nested value', v, m)
        ctx.count('nested')


ODD_KEYS = ['', '_', '__', '_a', '__a', 'a_', 'a__', 'a__b', '__a__', '__class__', '__dict__', '_private', 'a_1', '1', '1_a', 'a_B', 'A_b', 'ABC', 'aB_cD', 'a-b', 'a.b', 'a b', ' a', '$a', '@id', '\u00e9_\u00e8', '\u4e2d',
            'a_\u00e9', 'NaN', 'null', 'True', 'None', 'constructor', '__proto__', 'toJSON', 'length', 'items', 'keys', 'self', 'type', 'id', 'key', 'name', 'value', 'extensions', '\0', '"', '\\', '\u2028', 'x' * 300, 'x_' * 100,
            '\U0001f511', 'e\u0301', 'txAuthSimple', 'tx_auth_simple', 'FIDO', 'u2f_FIDO']


def odd_keys(ctx, rng, index):
    """Members of a dictionary are never dropped, whatever they are called; unconverted names stay as they are."""
    for key in ODD_KEYS:
        for wrap, path in ((lambda v: v, ()), (lambda v: [v], (0,)), (lambda v: {'a': v}, ('a',))):
            v, m = value(rng, 1)
            d = {key: v} if rng.random() < .5 else {'other': 1, key: v}
            keep = {k: 1 if k == 'other' else to_json(m, False) for k in d if k == 'other' or v is not None}
            got = jsonify(wrap(d), False)
            for p in path:
                got = got[p]
            require(exact(got, keep), 'wrong JSON for a dictionary with member %r' % key, got=got, want=keep)
            got = jsonify(wrap(d), True)
            for p in path:
                got = got[p]
            require(type(got) is dict and all(type(k) is str for k in got), 'a dictionary with member %r came out as %r' % (key, got))
            require(len(got) == len(keep) and exact(list(got.values()), [1 if k == 'other' else to_json(m, True) for k in keep]), 'members were lost or changed with member %r' % key, got=got, want=list(keep))
            ctx.judged(('key', key, len(d), path))
            ctx.count('odd-key')


def scale(ctx, rng, index):
    """Long strings, long lists and deep nesting keep every member."""
    n = [20, 48, 57, 58, 76, 77, 100, 256, 300, 1001, 3000, 20000][index % 12]
    blob, textv = rbytes(rng, n), 'x_y' * n
    descriptors = [opts.gen(rng, opts.DESCRIPTOR) for _ in range(min(n, 300))]
    users, um = opts.gen(rng, opts.USER)
    users.id, users.name = blob, textv
    um = ('o', [(s, w, opts.V(blob) if s == 'id' else opts.V(textv) if s == 'name' else m) for s, w, m in um[1]])
    check(ctx, 'long members', users, um)
    check(ctx, 'a long list', [d for d, _ in descriptors], ('l', [m for _, m in descriptors]))
    check(ctx, 'a long byte string', {'a_b': blob}, ('o', [('a_b', 'aB', opts.V(blob))]))
    check(ctx, 'many numbers', list(range(n)) + [i / 2 for i in range(n)], ('l', [opts.V(i) for i in range(n)] + [opts.V(i / 2) for i in range(n)]))
    names = ['m_%s%s' % (chr(97 + i % 26), chr(97 + i // 26 % 26) * (1 + i // 676)) for i in range(min(n, 600))]
    check(ctx, 'many members', {k: i for i, k in enumerate(names)}, ('o', [(k, 'm' + k[2].upper() + k[3:], opts.V(i)) for i, k in enumerate(names)]))
    v, m = value(rng, 1)
    for i in range(min(n, 60)):
        v, m = ([v], ('l', [m if v is not None else opts.V(None)])) if i % 2 else ({'a_b': v}, ('o', [('a_b', 'aB', m if v is not None else None)]))
    check(ctx, 'deep nesting', v, m)
    for huge in (2 ** 63, -2 ** 63 - 1, 2 ** 64 + 1, 10 ** 300, 1e300, 5e-324, -0.0, .1 + .2, 1e16, 123456789012345678.0):
        check(ctx, 'number', {'t': huge, 'u': [huge]}, ('o', [('t', 't', opts.V(huge)), ('u', 'u', ('l', [opts.V(huge)]))]))
    ctx.count('scale')


class Odd:
    __slots__ = ()


def unsupported(ctx, rng, index):
    """Values JSON cannot carry fail with a library error wherever they stand."""
    base, _ = opts.gen(rng, SPECS['request'], 1)
    for bad in [{1, 2}, set(), frozenset(), 1j, Odd(), bytearray(b'x'), object(), range(3), iter([])]:
        for wrap in (lambda v: v, lambda v: [1, v], lambda v: {'a': v}, lambda v: (v,), lambda v: {'a': [{'b': v}]}):
            for camel in (True, False):
                try:
                    got = jsonify(wrap(bad), camel)
                except WebAuthnRPError:
                    ctx.count('unsupported:value')
                    ctx.judged(('unsupported', repr(wrap(0)), type(bad).__name__))
                    continue
                try:
                    require(got != jsonify(wrap(None), camel), 'the value %r came out as nothing' % (bad,), got=got)
                    json.dumps(got, allow_nan=False)
                except (TypeError, ValueError):
                    require(False, 'an unsupported value %r came out as %r' % (bad, got))
        base.public_key.timeout = bad
        try:
            got = jsonify(base)
            json.dumps(got, allow_nan=False)
        except WebAuthnRPError:
            ctx.count('unsupported:member')
    for key in (0, 1, None, b'a', 1.5, True, ('a',), opts.ENUMS['uv'][0][0]):
        for wrap in (lambda v: v, lambda v: [v], lambda v: {'a': v}, lambda v: {'a': [{'b': v}]}):
            for d in ({key: 1}, {'x': 1, key: 2}, {key: None}):
                for camel in (True, False):
                    try:
                        got = jsonify(wrap(d), camel)
                    except JSONConversionError:
                        ctx.count('unsupported:key')
                        ctx.judged(('key', repr(key), repr(wrap(0)), len(d)))
                        continue
                    require(False, 'a dictionary with key %r came out as %r' % (key, got))


def subclassed(ctx, rng, index):
    """Values of subclasses of the JSON types: what they hold or a library error, never something else."""
    def sub(base, **kw):
        return type('Mine', (base,), kw)
    word = rng.choice(['', 'x', 'some name', 'a_b'])
    for plain, values in ((word, [sub(str)(word), sub(str, __slots__=())(word)]), (word.encode(), [sub(bytes)(word.encode())]), (7, [sub(int)(7), sub(int)('7')]), (1.5, [sub(float)(1.5)]),
                          ([1, word], [sub(list)([1, word])]), ((1, word), [sub(tuple)((1, word)), namedtuple('Pair', 'first_one second')(1, word)]),
                          ({'a_b': 1, 'c': word}, [sub(dict)(a_b=1, c=word), OrderedDict(a_b=1, c=word), defaultdict(int, a_b=1, c=word)])):
        for v in values:
            if hasattr(v, '__dict__') and rng.random() < .5:
                v.note = 'an attribute of its own'
            for wrap in (lambda v: v, lambda v: [1, v], lambda v: {'a': v}, lambda v: {'a': [{'b': v}]}):
                for camel in (True, False):
                    try:
                        got = jsonify(wrap(v), camel)
                    except WebAuthnRPError:
                        ctx.count('subclassed:refused')
                    else:
                        require(got == jsonify(wrap(plain), camel), 'a subclass of %s that holds %r came out as %r' % (type(plain).__name__, plain, got), value=repr(v))
                        ctx.count('subclassed:converted')
                    ctx.judged(('subclassed', type(plain).__name__, type(v).__mro__[1].__name__, repr(wrap(plain)), camel))
    for e in opts.ENUMS.values():
        for member, _ in e[:1]:
            require(jsonify({'a': member}) == {'a': member.value}, 'an enumeration came out as something else', member=member)


KINDS = {'subclassed': (subclassed, 16, 200), 'objects': (objects, 400, 20000), 'subsets': (subsets, 112, 3500), 'enums': (enums, 8, 8), 'nested': (nested, 200, 10000), 'odd_keys': (odd_keys, 24, 400), 'scale': (scale, 24, 480), 'unsupported': (unsupported, 16, 64)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {**{'object:' + n: 300 for n in SPECS}, 'enum': 100, 'odd-key': 3000, 'scale': 24, 'nested': 1000, 'unsupported:value': 100, 'unsupported:key': 100}
