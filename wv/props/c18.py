"""C18: parsers are total: hostile input yields a value or a library error."""
import json
import os
import sys

import cbor2

from webauthn_rp import parsers as P
from webauthn_rp.errors import WebAuthnRPError

from wv import att, fuzz, refcbor, sim
from wv.core import REPO, CpuTimeout, require, short, with_cpu_limit
from wv.keys import pick_key
from wv.props import c15, c17
from wv.refcbor import Pairs, Raw, enc
from wv.sim import client_json, gen_exts, rbytes

RULE = ('one evaluation = one hostile input given to one public parser, observed to return or to raise a library error within the CPU limit, under a 2 GB address '
        'space limit; inputs are honest documents with grafted or mutated parts, arbitrary CBOR/JSON/text, long runs, values nested up to 20000 deep and numbers without end or bounds in every place, and a corpus evolved by line coverage of the library; '
        'non-trivial = distinct (parser, input)')
RLIMIT_AS = 2 << 30
CRASHY = True
CPU = 15

BYTES = {'client_data': P.parse_client_data, 'auth_data': P.parse_authenticator_data, 'attestation_object': P.parse_attestation_object, 'cose_key': P.parse_cose_key}
DICTS = {'cose_key-dict': P.parse_cose_key, 'okp': P.parse_okp_public_key, 'ec2': P.parse_ec2_public_key, 'extensions': P.parse_extensions,
         'packed': P.parse_packed_attestation_statement, 'tpm': P.parse_tpm_attestation_statement, 'android-key': P.parse_android_key_attestation_statement,
         'android-safetynet': P.parse_android_safetynet_attestation_statement, 'fido-u2f': P.parse_fido_u2f_attestation_statement, 'none': P.parse_none_attestation_statement}


def total(ctx, name, fn, x, label=None):
    if ctx.state.get(('hung', name), 0) >= 2:      # reported; more of the same would only use up the time
        ctx.count('skipped-after-hang')
        return 'skipped'
    shown = x.hex() if isinstance(x, bytes) else (label or short(x, 3000))
    try:
        with_cpu_limit(CPU, lambda: fn(x))
    except CpuTimeout:
        ctx.violation('%s did not finish within %d s of CPU time' % (name, CPU), input=shown)
        outcome = 'hang'
        ctx.state['hung', name] = ctx.state.get(('hung', name), 0) + 1
    except WebAuthnRPError as e:
        outcome = type(e).__name__
        require(type(str(e)) is str, 'unprintable error')
    except Exception as e:  # noqa
        e.__traceback__ = None
        ctx.violation('%s let a foreign exception escape: %s(%s)' % (name, type(e).__name__, short(str(e), 200)), input=shown)
        outcome = 'foreign'
    else:
        outcome = 'value'
    ctx.count('%s:%s' % (name, 'value' if outcome == 'value' else 'error'))
    ctx.count('outcome:' + outcome)
    ctx.judged((name, x if isinstance(x, (bytes, str)) else shown))
    return outcome


def statement(rng):
    """A statement with members of the formats, some of them hostile."""
    m = {'alg': rng.choice([-7, -8, 'ES256', -257]), 'sig': rbytes(rng, 8), 'ver': '2.0', 'x5c': [rbytes(rng, 5)], 'certInfo': b'c', 'pubArea': b'p', 'response': b'r', 'ecdaaKeyId': b'e'}
    base = rng.choice([['alg', 'sig'], ['alg', 'sig', 'x5c'], ['alg', 'sig', 'ecdaaKeyId'], ['alg', 'sig', 'ver', 'certInfo', 'pubArea'], ['alg', 'sig', 'ver', 'certInfo', 'pubArea', 'x5c'],
                       ['alg', 'sig', 'ver', 'certInfo', 'pubArea', 'ecdaaKeyId'], ['sig', 'x5c'], ['ver', 'response'], []])
    return Pairs((k, m[k]) for k in base)


def honest_bytes(rng, name):
    if name == 'client_data':
        return client_json(rng, 'webauthn.get', 'AAAA', 'https://example.com', rng.choice([None, ('present', 'x'), ('supported', None)]))
    if name == 'auth_data':
        return c15.honest(rng, rng.choice([1, 65, 129, 193]), 16).encode()
    if name == 'cose_key':
        return pick_key(rng).cose(form=rng.choice(['int', 'str']), kid=b'k', key_ops=['sign'], base_iv=b'v')
    ad = c15.honest(rng, rng.choice([1, 65, 193]), 16).encode()
    return enc(Pairs([('fmt', rng.choice(['none', 'packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f', 'x'])), ('attStmt', statement(rng)), ('authData', ad)]))


def hostile_bytes(rng, name):
    r = rng.random()
    if name == 'client_data':
        return fuzz.mutate(rng, honest_bytes(rng, name)) if r < .3 else fuzz.json_bytes(rng)
    if r < .2:
        return fuzz.cbor(rng)
    if name == 'auth_data':
        ad = c15.honest(rng, rng.choice([65, 129, 193, 193]), rng.choice([0, 16]))
        if r < .5:
            ad.att = ad.att[:2] + (fuzz.graft(rng, ad.att[2]),)
        elif r < .8:
            ad.ext = Raw(fuzz.graft(rng, enc(ad.ext)) if rng.random() < .6 else fuzz.cbor(rng))
        b = ad.encode()
        return fuzz.mutate(rng, b) if r > .8 else b
    b = honest_bytes(rng, name)
    return fuzz.graft(rng, b) if r < .75 else fuzz.mutate(rng, b)


def from_bytes(ctx, rng, index):
    for name, fn in BYTES.items():
        for _ in range(20):
            total(ctx, name, fn, hostile_bytes(rng, name))
    ctx.sample(example=hostile_bytes(rng, 'attestation_object').hex()[:300])


def from_dicts(ctx, rng, index):
    """Dictionaries as the CBOR decoder yields them, given to each dictionary parser."""
    for _ in range(12):
        r = rng.random()
        if r < .35:
            b = fuzz.graft(rng, pick_key(rng).cose(kid=b'k', key_ops=['sign']))
        elif r < .6:
            b = fuzz.graft(rng, enc(statement(rng)))
        elif r < .85:
            b = fuzz.graft(rng, enc(gen_exts(rng, .5)))
        else:
            b = enc(Pairs((fuzz.scalar(rng), fuzz.value(rng, 3)) for _ in range(4)))
        try:
            d = cbor2.loads(b)
        except BaseException:  # noqa: not a document
            ctx.count('undecodable')
            continue
        if type(d) is not dict:
            continue
        for name, fn in DICTS.items():
            total(ctx, name, fn, d)


def origins(ctx, rng, index):
    for _ in range(120):
        total(ctx, 'origin', P.parse_origin, fuzz.origin_text(rng))


def credentials(ctx, rng, index):
    for _ in range(40):
        d = c17.honest(rng)
        for _ in range(rng.choice([1, 1, 2, 4])):
            o = d['response'] if rng.random() < .6 and type(d.get('response')) is dict else d
            k = rng.choice(list(o) + ['id', 'rawId', 'response', 'type', 'attestationObject', 'userHandle', 'x'])
            o[k] = rng.choice([fuzz.json_value(rng, 3), rng.choice(c17.BADB64), fuzz.json_value(rng, 0)])
        total(ctx, 'credential', P.parse_public_key_credential, d)
        x = fuzz.json_value(rng, 4)
        if type(x) is dict:
            total(ctx, 'credential', P.parse_public_key_credential, x)


class Corpus:
    """Inputs that reached new library lines, per parser."""

    def __init__(self):
        self.seen = {n: set() for n in BYTES}
        self.inputs = {n: [] for n in BYTES}


def traced(fn, x, edges):
    """Run with line tracing of the library's own frames only."""
    def local(frame, event, arg):
        if event == 'line':
            edges.add((frame.f_code.co_name, local.prev, frame.f_lineno))
            local.prev = frame.f_lineno
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO):
            local.prev = 0
            return local
        return None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        return fn(x)
    finally:
        sys.settrace(old)


def guided(ctx, rng, index):
    c = ctx.state.setdefault('corpus', Corpus())
    for name, fn in BYTES.items():
        for _ in range(25):
            pool = c.inputs[name]
            if not pool or rng.random() < .2:
                x = honest_bytes(rng, name) if rng.random() < .5 else hostile_bytes(rng, name)
            else:
                x = rng.choice(pool[-200:])
                r = rng.random()
                if r < .4 and name in ('cose_key', 'attestation_object'):
                    try:
                        x = fuzz.graft(rng, x)
                    except Exception:  # noqa: not decodable by the strict decoder
                        x = fuzz.mutate(rng, x)
                elif r < .85 or len(pool) < 2:
                    x = fuzz.mutate(rng, x)
                else:
                    y = rng.choice(pool)
                    x = x[:rng.randrange(len(x) + 1)] + y[rng.randrange(len(y) + 1):]
            if len(x) > 20000:
                continue
            edges = set()
            total(ctx, name, lambda v: traced(fn, v, edges), x)
            if edges - c.seen[name]:
                ctx.count('guided-edges:' + name, len(edges - c.seen[name]))
                c.seen[name] |= edges
                pool.append(x)


UNITS = ['a', 'a.', 'a-', '%61', '%', '1', '0', '[', '::', ':', '@', '/', '\\', '?', '\u00e9', ' ', '.', '-', '_', '=', '+', 'A', 'AA', '{', '"', '\0', '\n', '\t ', 'aa.', 'a:1', '1.', '\u0301', '\ud800', '(', '*', 'e', '1e']
TAILS = ['', ' ', '!', '\0', '/', ':', '@', '.', '[', '%', '=', '\n', '\u00e9', 'x', '*']


def runs(ctx, rng, index):
    """Long runs of one unit with an odd end, in every text position: time must not explode with the length."""
    u = UNITS[index % len(UNITS)]
    for n in (26, 60, 400, 6000):
        s = (u * n)[:20000]
        for tail in rng.sample(TAILS, 5) + ['']:
            t = s + tail
            for o in (t, 'https://' + t, 'https://a' + t, 'https://' + t + ':443', 'https://a:' + t, 'http://[' + t + ']', t + '://a', 'https://a.' + t + '.b'):
                total(ctx, 'origin', P.parse_origin, o)
            for member in ('type', 'challenge', 'origin', 'status', 'id', 'name'):
                d = {'type': 'webauthn.get', 'challenge': 'AAAA', 'origin': 'https://example.com', 'tokenBinding': {'status': 'present', 'id': 'x'}}
                if member in ('status', 'id'):
                    d['tokenBinding'][member] = t
                elif member == 'name':
                    d[t] = t
                else:
                    d[member] = t
                total(ctx, 'client_data', P.parse_client_data, json.dumps(d).encode())
            c = c17.honest(rng)
            for member in ('id', 'rawId', 'type'):
                total(ctx, 'credential', P.parse_public_key_credential, dict(c, **{member: t}))
            for member in list(c['response']):
                total(ctx, 'credential', P.parse_public_key_credential, dict(c, response=dict(c['response'], **{member: t})))
            b = t.encode('utf-8', 'surrogatepass')
            for name, fn in BYTES.items():
                total(ctx, name, fn, b)
            if '\ud800' not in t:
                key = dict(pick_key(rng).members(form='str'))
                for label in (1, 3, -1, 4, 2):
                    total(ctx, 'cose_key-dict', P.parse_cose_key, dict(key, **{}) | {label: t if label != 4 else [t]})
                for ext in ('appid', 'txAuthSimple', 'exts', 'loc', 'uvm', t):
                    total(ctx, 'extensions', P.parse_extensions, {ext: [t] if ext in ('exts', 'uvm') else {t: 1} if ext == 'loc' else t})
                total(ctx, 'android-safetynet', P.parse_android_safetynet_attestation_statement, {'ver': t, 'response': b})
                total(ctx, 'packed', P.parse_packed_attestation_statement, {'alg': t, 'sig': b})
                total(ctx, 'attestation_object', P.parse_attestation_object, enc(Pairs([('fmt', t), ('attStmt', {}), ('authData', b)])))
    ctx.count('runs')


DEPTHS = [30, 120, 450, 800, 990, 1500, 4000, 20000]
WRAPS = ['list', 'map', 'both', 'mapkey', 'indefinite', 'tagged']


def tower(wrap, depth):
    """The CBOR of a scalar wrapped depth times."""
    if wrap == 'list':
        return b'\x81' * depth + b'\x61x'
    if wrap == 'map':
        return b'\xa1\x61a' * depth + b'\x61x'
    if wrap == 'both':
        return b'\x81\xa1\x61a' * (depth // 2) + b'\x81\xf6'
    if wrap == 'mapkey':
        return b'\xa1' * depth + b'\x61x' + b'\0' * depth
    if wrap == 'indefinite':
        return b'\x9f' * depth + b'\xff' * depth
    return b'\xd8\x64\x81' * depth + b'\x01'


def stack(wrap, depth):
    """The same as an object."""
    x = 'x'
    for i in range(depth):
        x = {'a': x} if wrap == 'map' or wrap == 'both' and i % 2 else [x]
    return x


def nested(ctx, rng, index):
    """Values nested far too deep, in every place of every document."""
    depth, wrap = DEPTHS[index % len(DEPTHS)], WRAPS[index // len(DEPTHS) % len(WRAPS)]
    raw = Raw(tower(wrap, depth))
    exts = ['appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm', 'biometricPerfBounds', 'unknown']
    key = list(dict(pick_key(rng).members(form='int')).items()) + [(4, [2]), (2, b'k')]
    stmt = list(statement(rng)) + [('x5c', [b'c'])]
    ad = c15.honest(rng, 193, 16)

    def auth(ext):
        ad.ext = ext
        return ad.encode()
    for e in exts:
        for v in (raw, [raw], {'latitude': raw}):
            total(ctx, 'auth_data', P.parse_authenticator_data, auth(Pairs([(e, v)])))
    total(ctx, 'auth_data', P.parse_authenticator_data, auth(raw))
    total(ctx, 'cose_key', P.parse_cose_key, bytes(raw))
    for label in sorted({k for k, _ in key} | {7}):
        m = Pairs([(k, v) for k, v in key if k != label] + [(label, raw)])
        total(ctx, 'cose_key', P.parse_cose_key, enc(m))
    for member in ['alg', 'sig', 'x5c', 'ver', 'response', 'certInfo', 'pubArea', 'ecdaaKeyId', 'unknown']:
        for v in (raw, [raw]):
            st = Pairs([(k, x) for k, x in stmt if k != member] + [(member, v)])
            total(ctx, 'attestation_object', P.parse_attestation_object, enc(Pairs([('fmt', rng.choice(['none', 'packed', 'tpm', 'android-key', 'fido-u2f'])), ('attStmt', st), ('authData', bytes(37))])))
    for member in ('fmt', 'attStmt', 'authData', 'x'):
        total(ctx, 'attestation_object', P.parse_attestation_object, enc(Pairs([(k, v) for k, v in (('fmt', 'none'), ('attStmt', {}), ('authData', bytes(37))) if k != member] + [(member, raw)])))
    total(ctx, 'attestation_object', P.parse_attestation_object, bytes(raw))
    # the same as JSON text, and as objects
    text = {'list': '[' * depth + ']' * depth, 'map': '{"a":' * depth + '1' + '}' * depth}.get(wrap, '[{"a":' * (depth // 2) + '1' + '}]' * (depth // 2))
    for member in ('type', 'challenge', 'origin', 'tokenBinding', 'x', None):
        d = [(k, '"%s"' % v) for k, v in (('type', 'webauthn.get'), ('challenge', 'AAAA'), ('origin', 'https://example.com')) if k != member]
        total(ctx, 'client_data', P.parse_client_data, (text if member is None else '{%s}' % ','.join('"%s":%s' % t for t in d + [(member, text)])).encode())
    for member in ('status', 'id', 'x'):
        t = '{%s}' % ','.join(['"status":"present"', '"id":"x"'] + ['"%s":%s' % (member, text)])
        total(ctx, 'client_data', P.parse_client_data, ('{"type":"webauthn.get","challenge":"AAAA","origin":"https://example.com","tokenBinding":%s}' % t).encode())
    here = lambda *at: '%s nested %d deep in %s' % (wrap, depth, at)
    x = stack(wrap, depth)
    c = c17.honest(rng)
    for member in list(c) + ['x']:
        total(ctx, 'credential', P.parse_public_key_credential, dict(c, **{member: x}), here(member))
    for member in list(c['response']) + ['userHandle', 'x']:
        total(ctx, 'credential', P.parse_public_key_credential, dict(c, response=dict(c['response'], **{member: x})), here('response', member))
    for e in exts:
        for v in (x, [x], {'latitude': x}):
            total(ctx, 'extensions', P.parse_extensions, {e: v}, here(e, type(v), v is x))
    for name in ('packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f', 'none'):
        for member in ('alg', 'sig', 'x5c', 'ver', 'response', 'certInfo', 'x'):
            total(ctx, name, DICTS[name], dict(stmt, **{member: x}), here(member))
    for label in (1, 2, 3, 4, 5, -1, -2, -3, 7):
        for v in (x, [x]):
            total(ctx, 'cose_key-dict', P.parse_cose_key, dict(key) | {label: v}, here(label, v is x))
    ctx.count('nested')


NUMBERS = [float('nan'), float('inf'), float('-inf'), 1e308, -1e308, 5e-324, -0.0, 0.1, 1e22, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, -2 ** 64, 2 ** 70, -2 ** 70, 2 ** 1024, -2 ** 1100, 10 ** 4301, True, False, 0, -1,
           Raw(b'\xf9\x7e\x00'), Raw(b'\xf9\xfc\x00'), Raw(b'\xfa\x7f\x80\x00\x00'), Raw(b'\xf9\x00\x01'), Raw(b'\xc4\x82\x20\x01'), Raw(b'\xc4\x82\x19\x03\xe8\x01'), Raw(b'\xc4\x82\x39\x03\xe8\x01'), Raw(b'\xc5\x82\x20\x01'), Raw(b'\xd8\x1e\x82\x01\x03'),
           Raw(b'\xf6'), Raw(b'\xf7'), Raw(b'\xf8\xff'), Raw(b'\xe0'), Raw(b'\xc1\x01'), Raw(b'\xc1\xf9\x7e\x00'), Raw(b'\xc0\x74' + b'2013-03-21T20:04:00Z'), Raw(b'\xc2\x49\x01' + bytes(8)), Raw(b'\xc3\x49\x01' + bytes(8))]


def wire(v):
    if isinstance(v, Raw):
        return v
    if type(v) is int and not -2 ** 64 <= v < 2 ** 64:
        n = v if v >= 0 else -1 - v
        return Raw((b'\xc2' if v >= 0 else b'\xc3') + enc(n.to_bytes((n.bit_length() + 7) // 8, 'big')))
    return v


def numbers(ctx, rng, index):
    """Numbers that are none, have no end, or fit no machine word, in every place of every document."""
    v = NUMBERS[index % len(NUMBERS)]
    w = wire(v)
    try:
        obj = cbor2.loads(enc(w))
    except BaseException:  # noqa: not a document
        obj = v
    ad = c15.honest(rng, 193, 16)
    exts = [(c, wrap) for c in ('appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm', 'biometricPerfBounds', 'unknown') for wrap in ('%', '[%]', '[[%]]')]
    exts += [('loc', c) for c in sim.COORDS]
    full = {c: 1.5 for c in sim.COORDS}
    for name, wrap in exts:
        def put(x):
            return {'%': x, '[%]': [x], '[[%]]': [[x]]}[wrap] if wrap[0] in '%[' else rng.choice([{wrap: x}, dict(full, **{wrap: x})])
        ad.ext = Pairs([(name, put(w))])
        total(ctx, 'auth_data', P.parse_authenticator_data, ad.encode())
        total(ctx, 'extensions', P.parse_extensions, {name: put(obj)})
        total(ctx, 'attestation_object', P.parse_attestation_object, enc(Pairs([('fmt', 'none'), ('attStmt', {}), ('authData', ad.encode())])))
    ad.ext = Pairs([(w, True)])
    total(ctx, 'auth_data', P.parse_authenticator_data, ad.encode())
    for form in ('int', 'str'):
        m = list(dict(pick_key(rng).members(form=form)).items()) + [(2, b'k'), (4, [2]), (5, b'v')]
        for i in range(len(m)):
            total(ctx, 'cose_key', P.parse_cose_key, enc(Pairs(m[:i] + [(m[i][0], w)] + m[i + 1:])))
            total(ctx, 'cose_key', P.parse_cose_key, enc(Pairs(m[:i] + [(w, m[i][1])] + m[i + 1:])))
            for name in ('cose_key-dict', 'okp', 'ec2'):
                total(ctx, name, DICTS[name], dict(m) | {m[i][0]: obj})
        total(ctx, 'cose_key', P.parse_cose_key, enc(Pairs(m[:-2] + [(4, [w, 2])])))
    st = [('alg', -7), ('sig', b's'), ('x5c', [b'c']), ('ver', '2.0'), ('response', b'r'), ('certInfo', b'c'), ('pubArea', b'p'), ('ecdaaKeyId', b'e')]
    for i in range(len(st)):
        for x, y in ((w, obj), ([w], [obj])):
            m = Pairs(st[:i] + [(st[i][0], x)] + st[i + 1:])
            for fmt in ('none', 'packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f'):
                keep = {'packed': 'alg sig x5c', 'tpm': 'alg sig x5c ver certInfo pubArea', 'android-key': 'alg sig x5c', 'android-safetynet': 'ver response', 'fido-u2f': 'sig x5c', 'none': ''}[fmt].split()
                part = Pairs((k, z) for k, z in m if k in keep)
                total(ctx, 'attestation_object', P.parse_attestation_object, enc(Pairs([('fmt', fmt), ('attStmt', part), ('authData', bytes(37))])))
                total(ctx, fmt, DICTS[fmt], dict((k, y if k == st[i][0] else z) for k, z in part))
    for member in ('fmt', 'attStmt', 'authData', 'x'):
        total(ctx, 'attestation_object', P.parse_attestation_object, enc(Pairs([(k, z) for k, z in (('fmt', 'none'), ('attStmt', {}), ('authData', bytes(37))) if k != member] + [(member, w)])))
    for text in ('NaN', 'Infinity', '-Infinity', '1e999', '-1e999', '1E400', '9' * 400, '9' * 4300, '9' * 4301, '-' + '9' * 5000, '0.' + '0' * 400 + '1', '-0', '1e-999', repr(v) if not isinstance(v, (Raw, bool)) and (type(v) is float or v < 10 ** 400) else '0'):
        text = text.replace('nan', 'NaN').replace('inf', 'Infinity')
        for member in ('type', 'challenge', 'origin', 'tokenBinding', 'x', 'status', 'id', None):
            d = {'type': '"webauthn.get"', 'challenge': '"AAAA"', 'origin': '"https://example.com"'}
            if member in ('status', 'id'):
                d['tokenBinding'] = '{%s}' % ','.join('"%s":%s' % t for t in dict({'status': '"present"', 'id': '"x"'}, **{member: text}).items())
            elif member:
                d[member] = text
            total(ctx, 'client_data', P.parse_client_data, ('{%s}' % ','.join('"%s":%s' % t for t in d.items()) if member else text).encode())
        total(ctx, 'origin', P.parse_origin, 'https://example.com:' + text)
        total(ctx, 'origin', P.parse_origin, 'https://' + text)
    c = c17.honest(rng)
    for member in list(c) + ['x']:
        total(ctx, 'credential', P.parse_public_key_credential, dict(c, **{member: obj}))
    for member in list(c['response']) + ['userHandle', 'x']:
        total(ctx, 'credential', P.parse_public_key_credential, dict(c, response=dict(c['response'], **{member: obj})))
    ctx.count('numbers')


KINDS = {'numbers': (numbers, len(NUMBERS), 6 * len(NUMBERS)), 'nested': (nested, len(DEPTHS) * len(WRAPS), len(DEPTHS) * len(WRAPS) * 2), 'runs': (runs, len(UNITS), 4 * len(UNITS)), 'bytes': (from_bytes, 320, 24000), 'dicts': (from_dicts, 320, 20000), 'origins': (origins, 120, 6000), 'credentials': (credentials, 80, 6000),
         'guided': (guided, 120, 12000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'numbers': len(NUMBERS), 'nested': len(DEPTHS) * len(WRAPS), 'runs': len(UNITS), **{n + ':error': 200 for n in list(BYTES) + list(DICTS)}, 'client_data:value': 50, 'auth_data:value': 20, 'cose_key:value': 20, 'attestation_object:value': 10,
            'origin:value': 50, 'origin:error': 500, 'credential:error': 500, 'credential:value': 20}
