"""C17: credentials sent by the client are decoded faithfully and strictly."""
import base64
import copy
import itertools
import json
import re

from webauthn_rp import types as T
from webauthn_rp.converters import jsonify
from webauthn_rp.parsers import parse_public_key_credential

from wv import magic
from wv.core import dump, require
from wv.refparse import compare
from wv.sim import b64u, gen_text, rbytes

RULE = ('one evaluation = one JSON object given to parse_public_key_credential and compared with an independent decoder; every member is dropped, added, '
        'renamed, mistyped and given undecodable base64; non-trivial = distinct JSON objects')
STD = re.compile(r'^(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$')
ATT = ('clientDataJSON', 'attestationObject')
ASS = ('clientDataJSON', 'authenticatorData', 'signature', 'userHandle')


def b64(b):
    return base64.b64encode(b).decode('ascii')


def ref_b64(s):
    """bytes, 'bad' or 'unspec'."""
    if STD.fullmatch(s):
        b = base64.b64decode(s)
        return b if b64(b) == s else 'unspec'
    if not s.isascii():
        return 'bad'
    if re.fullmatch(r'[A-Za-z0-9+/]*', s) and len(s) % 4 == 1:
        return 'bad'
    return 'unspec'


def lenient(s):
    """What a decoder may make of text with characters outside the alphabet: they are skipped, and it may stop at any '='."""
    out = set()
    for end in [i for i, ch in enumerate(s) if ch == '='] + [len(s)]:
        body = re.sub('[^A-Za-z0-9+/]', '', s[:end])
        if len(body) % 4 != 1:
            out.add(base64.b64decode(body + '=' * (-len(body) % 4)))
    return out


def strays(ctx, d, got):
    """Even where leniency is left open, nothing but the standard alphabet contributes bytes."""
    r, x = d['response'], got.response
    for given, value in ((d['rawId'], got.raw_id), (r['clientDataJSON'], x.client_data_JSON), (r.get('attestationObject'), getattr(x, 'attestation_object', None)),
                         (r.get('authenticatorData'), getattr(x, 'authenticator_data', None)), (r.get('signature'), getattr(x, 'signature', None)),
                         (r.get('userHandle'), getattr(x, 'user_handle', None))):
        if type(given) is str and not STD.fullmatch(given):
            ctx.count('odd-base64-accepted')
            require(value in lenient(given), 'characters outside the standard base64 alphabet were decoded', given=given, value=value)


def ref(d):
    bad, unspec = [], []

    def text(o, k):
        v = o.get(k)
        if type(v) is not str:
            bad.append('%s is %s' % (k, type(v).__name__))
            return None
        return v

    def data(o, k):
        v = text(o, k)
        if v is None:
            return None
        b = ref_b64(v)
        if b == 'bad':
            bad.append('%s is not base64' % k)
        elif b == 'unspec':
            unspec.append('%s is odd base64' % k)
        return b
    if set(d) - {'id', 'rawId', 'response', 'type'}:
        bad.append('unsupported member')
    out = dict(id=text(d, 'id'), type=text(d, 'type'), raw_id=data(d, 'rawId'))
    r = d.get('response')
    if type(r) is not dict:
        bad.append('response is %s' % type(r).__name__)
    else:
        if 'attestationObject' in r:
            if set(r) - set(ATT):
                bad.append('unsupported response member')
            out.update(kind='att', cd=data(r, 'clientDataJSON'), att=data(r, 'attestationObject'))
        else:
            if set(r) - set(ASS):
                bad.append('unsupported response member')
            out.update(kind='ass', cd=data(r, 'clientDataJSON'), ad=data(r, 'authenticatorData'), sig=data(r, 'signature'),
                       uh=None if r.get('userHandle') is None else data(r, 'userHandle'))
    return ('reject', bad[0]) if bad else ('unspec', unspec[0]) if unspec else ('ok', out)


def lib(c):
    r = c.response
    out = dict(id=c.id, type=c.type, raw_id=c.raw_id, cd=r.client_data_JSON)
    if type(r) is T.AuthenticatorAttestationResponse:
        out.update(kind='att', att=r.attestation_object)
    elif type(r) is T.AuthenticatorAssertionResponse:
        out.update(kind='ass', ad=r.authenticator_data, sig=r.signature, uh=r.user_handle)
    else:
        out['kind'] = type(r).__name__
    return out


def blob(rng):
    if magic.chance(rng):
        return rng.choice([magic.data(rng), rbytes(rng, magic.size(rng, 100000) or 9)])
    n = rng.choice([0, 1, 2, 3, 4, 5, 16, 32, 37, 64, 70, 255, 256, 1000, 5000] if rng.random() < .99 else [57, 58, 76, 77, 513, 60000, 65536, 70001, 200000, 1000001])
    r = rng.random()
    return bytes(n) if r < .1 else b'\xff' * n if r < .2 else bytes(rng.choice(b'\xfb\xef\xbe\xff\xfe>?') for _ in range(n)) if r < .4 else rbytes(rng, n)


def honest(rng, kind=None):
    kind = kind or rng.choice(['att', 'ass'])
    if kind == 'att':
        r = {'clientDataJSON': b64(blob(rng)), 'attestationObject': b64(blob(rng))}
    else:
        r = {'clientDataJSON': b64(blob(rng)), 'authenticatorData': b64(blob(rng)), 'signature': b64(blob(rng))}
        x = rng.random()
        if x < .5:
            r['userHandle'] = b64(blob(rng))
        elif x < .7:
            r['userHandle'] = None
    raw = blob(rng)
    d = {'id': b64u(raw) if rng.random() < .7 else gen_text(rng), 'type': rng.choice(['public-key', 'public-key', '', 'other', gen_text(rng)]), 'rawId': b64(raw), 'response': r}
    return reorder(rng, d)


def reorder(rng, d):
    k = list(d)
    rng.shuffle(k)
    return {x: (reorder(rng, d[x]) if isinstance(d[x], dict) else d[x]) for x in k}


def check(ctx, d, what, want=None):
    keep = copy.deepcopy(d)
    v, got = compare(ctx, 'credential', d, ref(d), parse_public_key_credential, lib, what, parsing=True)
    require(type(d) is dict and dump(d) == dump(keep) and list(d) == list(keep), 'the input was modified (%s)' % what, before=keep, after=d)
    require(want is None or v == want, 'harness: %s judged %s' % (what, v))
    if v == 'unspec' and got is not None:
        strays(ctx, d, got)
    return v, got


def faithful(ctx, rng, index):
    for kind in ('att', 'ass', 'ass'):
        d = honest(rng, kind)
        v, got = check(ctx, d, 'honest', 'ok')
        ctx.count('kind:%s%s' % (kind, '' if kind == 'att' else ':handle' if 'userHandle' in d['response'] and d['response']['userHandle'] is not None else ':nohandle'))
        if got is None:
            continue
        back = jsonify(got)
        exp = copy.deepcopy(d)
        if exp['response'].get('userHandle', 0) is None:
            del exp['response']['userHandle']
        require(dump(back) == dump(exp), 'converting back to JSON gave other members', got=back, expected=exp)
        json.dumps(back, allow_nan=False)
        v2, again = check(ctx, back, 'converted back', 'ok')
        require(again is None or dump(again) == dump(got), 'parsing the converted credential gave another one')
        check(ctx, json.loads(json.dumps(d)), 'through the JSON text', 'ok')
    if index % 16 == 0:
        long_members(ctx, rng, index // 16)
    ctx.sample(d=str(d)[:300])


def long_members(ctx, rng, index):
    """Every member long, one at a time and together."""
    n = [48, 49, 57, 58, 75, 76, 77, 384, 768, 1024, 3071, 3072, 3073, 4097, 8193, 16385, 49152, 65535, 65537, 131073, 400000][index % 21]
    for kind in ('att', 'ass'):
        base = honest(rng, kind)
        names = [('rawId', base), *((k, base['response']) for k in (ATT if kind == 'att' else ASS))]
        for k, o in names:
            d = copy.deepcopy(base)
            (d if o is base else d['response'])[k] = b64(rbytes(rng, n))
            check(ctx, d, '%s of %d bytes' % (k, n), 'ok')
        for k in ('id', 'type'):
            check(ctx, dict(base, **{k: gen_text(rng) + 'x' * n}), '%s of %d characters' % (k, n), 'ok')
    ctx.count('long-credentials')


MISTYPED = [None, 0, 1, 1.5, True, False, [], {}, ['AAAA'], {'a': 'AAAA'}, [0, 1, 2], [65]]
BADB64 = ['A', 'AAAAA', 'A=', 'AAAAA===', '\u00e9', 'AAAA\u00e9', '\ud800', 'AAA\u0130', 'AAAA' * 100 + 'B', '=', '==', '====', 'AA', 'AAA', 'AA=', 'AA==AA==', 'AA==A', ' AAAA', 'AAAA\n', 'A A A A', '-_-_', 'AA-_',
          'AAAA!', '!!!!', 'AB==', 'AAB=', 'AA\x00A', '\x00', '%41%41', 'QQ==\n', 'AA-A', '-AAAA', 'AAAA-___', '--------', '____', 'QUJD_-', 'Q.U.J.D.', '+/+/', '/+==', 'data:;base64,AAAA']
EXTRA = ['extra', 'raw_id', 'Id', 'ID', 'clientExtensionResults', 'authenticatorAttachment', '', 'rawid', '__class__', 'self', 'Type', 'clientDataJSON', 'getClientExtensionResults', 'id ']
REXTRA = ['extra', 'transports', 'publicKey', 'publicKeyAlgorithm', 'clientDataJson', 'client_data_JSON', 'user_handle', '', 'userhandle', 'AttestationObject', 'attestation_object', 'id', 'rawId', 'type', 'response', 'signature ']


def deviations(ctx, rng, index):
    kind = ('att', 'ass')[index % 2]
    base = honest(rng, kind)
    if kind == 'ass' and base['response'].get('userHandle') is None:
        base['response']['userHandle'] = b64(blob(rng))
    paths = [(k,) for k in ('id', 'type', 'rawId', 'response')] + [('response', k) for k in (ATT if kind == 'att' else ASS)]

    def edit(path, fn):
        d = copy.deepcopy(base)
        o = d
        for k in path[:-1]:
            o = o[k]
        fn(o, path[-1])
        return d
    for path in paths:
        v, _ = check(ctx, edit(path, lambda o, k: o.pop(k)), '%s missing' % (path,))
        ctx.count('missing:' + v)
        for m in MISTYPED:
            v, _ = check(ctx, edit(path, lambda o, k: o.__setitem__(k, m)), '%s = %r' % (path, m))
            ctx.count('mistyped:' + v)
        if path not in (('id',), ('type',), ('response',)):
            for s in BADB64:
                v, _ = check(ctx, edit(path, lambda o, k: o.__setitem__(k, s)), '%s = %r' % (path, s))
                ctx.count('base64:' + v)
            v, _ = check(ctx, edit(path, lambda o, k: o.__setitem__(k, b64(blob(rng)))), '%s replaced' % (path,), 'ok')
        for new in (path[-1].lower(), path[-1].upper(), path[-1] + ' ', path[-1] + '\0'):
            if new != path[-1]:
                check(ctx, edit(path, lambda o, k: o.__setitem__(new, o.pop(k))), '%s renamed %r' % (path, new), None if path[-1] == 'userHandle' and 0 else 'reject')
    for k in EXTRA:
        for val in ('AAAA', None, {}, True):
            check(ctx, dict(base, **{k: val}), 'extra member %r' % k, 'reject')
            ctx.count('extra')
    for k in REXTRA + (['authenticatorData', 'signature', 'userHandle'] if kind == 'att' else []):
        for val in ('AAAA', None, {}, True):
            if k in base['response']:
                continue
            check(ctx, dict(base, response=dict(base['response'], **{k: val})), 'extra response member %r' % k, 'reject')
            ctx.count('extra')
    if kind == 'ass':
        for val in ('AAAA', None, '', 1):
            check(ctx, dict(base, response=dict(base['response'], attestationObject=val)), 'both kinds of response', 'reject')
            only = {'clientDataJSON': base['response']['clientDataJSON'], 'attestationObject': val}
            check(ctx, dict(base, response=only), 'attestation object %r' % (val,))
    # combinations of present response members
    r = {'clientDataJSON': 'AAAA', 'authenticatorData': 'AQ==', 'signature': 'Ag==', 'userHandle': 'Aw==', 'attestationObject': 'BA=='}
    for n in range(len(r) + 1):
        for keys in itertools.combinations(r, n):
            check(ctx, dict(base, response={k: r[k] for k in keys}), 'response members %s' % (keys,))
            ctx.count('combinations')


def random_edits(ctx, rng, index):
    for _ in range(30):
        d = honest(rng)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            o = d if rng.random() < .4 or type(d.get('response')) is not dict else d['response']
            k = rng.choice(list(o) + ['id', 'rawId', 'userHandle', 'attestationObject']) if o else 'id'
            x = rng.random()
            if x < .25:
                o.pop(k, None)
            elif x < .5:
                o[k] = rng.choice(MISTYPED)
            elif x < .75:
                o[k] = rng.choice(BADB64)
            elif x < .9:
                o[k] = b64(blob(rng))
            else:
                o[rng.choice(EXTRA + REXTRA)] = rng.choice(['AAAA', None])
        check(ctx, d, 'random edits')


KINDS = {'faithful': (faithful, 800, 40000), 'deviations': (deviations, 24, 1000), 'random': (random_edits, 400, 20000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'long-credentials': 40, 'kind:att': 100, 'kind:ass:handle': 100, 'kind:ass:nohandle': 100, 'missing:reject': 50, 'mistyped:reject': 300, 'base64:reject': 100, 'base64:ok': 50, 'extra': 300, 'combinations': 500}
