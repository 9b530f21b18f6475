"""C28: client data decodes faithfully and strictly."""
import json

from webauthn_rp.parsers import parse_client_data

from wv import fuzz, magic
from wv.core import require
from wv.refparse import client_data, compare, lib_client_data
from wv.sim import gen_text, rbytes

RULE = ('one evaluation = one byte string given to parse_client_data and compared with an independent decoder; serialisations vary in order, whitespace, escapes and '
        'other members, and every deviation of every member is enumerated; non-trivial = distinct byte strings')
WS = [' ', '\n', '\t', '\r', '\r\n  ', '    ']


def ser_str(rng, s):
    """A JSON string in one of many spellings."""
    out = ['"']
    style = rng.random()
    for ch in s:
        o = ord(ch)
        r = rng.random()
        if ch in '"\\':
            out.append(rng.choice(['\\' + ch, '\\u%04x' % o, '\\u%04X' % o]))
        elif o < 0x20:
            short = {8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r'}.get(o)
            out.append(short if short and r < .5 else '\\u%04x' % o)
        elif ch == '/' and r < .3:
            out.append('\\/')
        elif style < .5 and r < .15 or o > 0x7e and style < .4 or 0xd800 <= o < 0xe000:
            if o > 0xffff:
                o -= 0x10000
                out.append('\\u%04x\\u%04x' % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
            else:
                out.append(('\\u%04x' if r < .1 else '\\u%04X') % o)
        else:
            out.append(ch)
    return ''.join(out) + '"'


def ser(rng, v, spaced):
    w = (lambda: rng.choice(WS) * rng.choice([0, 0, 1, 3])) if spaced else (lambda: '')
    if isinstance(v, Members):
        return '{' + w() + (w() + ',' + w()).join(ser_str(rng, k) + w() + ':' + w() + ser(rng, x, spaced) for k, x in v) + w() + '}'
    if isinstance(v, dict):
        return ser(rng, Members(v.items()), spaced)
    if isinstance(v, list):
        return '[' + w() + (w() + ',' + w()).join(ser(rng, x, spaced) for x in v) + w() + ']'
    if isinstance(v, str):
        return ser_str(rng, v)
    if isinstance(v, RawJSON):
        return v.text
    return json.dumps(v)


class Members(list):
    pass


class RawJSON:
    def __init__(self, text):
        self.text = text


def string(rng):
    if magic.chance(rng):
        return magic.text(rng)
    r = rng.random()
    if r < .3:
        return rng.choice(['webauthn.get', 'webauthn.create', 'https://example.com', 'https://example.com:8443', 'AAAA', '-_-_', '', '0', 'null', 'true', '[]', '{}', ' x ', '\u2028', '\U0001f511', 'e\u0301', '\u00e9', 'a"b\\c/d',
                           '\x00', '\n', 'https://example.com/?a&amp;b', '&lt;&#x41;&#65;&eacute;&nbsp', 'https://example%2ecom', '%41%c3%a9', 'a+b', '\\u00e9\\x41\\n', '=?utf-8?q?=41?=', '=41=\n', 'xn--bcher-kva.example', '&;', '"quoted"', "'x'", 'd2ViYXV0aG4', 'https:\\/\\/x',
                           '+AGE-', '\\/', '%%', '{0}', '%s', '$HOME', '~', '<!-- -->', 'a\r\nb', '\x1b[0m', 'x' * 3000, '\ufeff', '\uffff', 'I\u0130\u0131'])
    if r < .6:
        return gen_text(rng, 30)
    return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0xa0, 0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(rng.randrange(40)))


def binding(rng):
    r = rng.random()
    if r < .4:
        return None
    m = [('status', rng.choice(['present', 'present', 'supported']))]
    if m[0][1] == 'present' or rng.random() < .4:
        m.append(('id', string(rng)))
    for _ in range(rng.choice([0, 0, 1])):
        m.append((rng.choice(['Status', 'ID', 'x', '']), json_any(rng)))
    rng.shuffle(m)
    return Members(m)


def json_any(rng, depth=2):
    if magic.chance(rng):
        return rng.choice([magic.number, magic.text, magic.real])(rng)
    r = rng.random()
    if r < .7 or not depth:
        return rng.choice([None, True, False, 0, -1, 1.5, 1e300, 'webauthn.get', 'webauthn.create', '', 'x', RawJSON('-0'), RawJSON('1E+2'), RawJSON('0.1e-2'), RawJSON('12345678901234567890123'), 10 ** 400])
    if r < .85:
        return [json_any(rng, depth - 1) for _ in range(rng.choice([0, 1, 3]))]
    return {k: json_any(rng, depth - 1) for k in rng.sample(['type', 'challenge', 'origin', 'tokenBinding', 'status', 'id', 'a'], rng.choice([0, 1, 3]))}


OTHER = ['crossOrigin', 'topOrigin', 'Type', 'TYPE', 'type ', 'typ', 'types', 'Challenge', 'challeng', 'chall\u00e9nge', 'origins', 'Origin', 'tokenbinding', 'token_binding', 'hashAlgorithm', 'clientExtensions', '', 'x', 'a.b', '__proto__', 'androidPackageName', 'id', 'status']


def honest(rng):
    m = [('type', string(rng)), ('challenge', string(rng)), ('origin', string(rng))]
    tb = binding(rng)
    if tb is not None:
        m.append(('tokenBinding', tb))
    names = rng.sample(OTHER, rng.choice([0, 0, 1, 3, 8]))
    m += [(n, json_any(rng)) for n in names]
    rng.shuffle(m)
    return Members(m)


def encode(rng, m):
    text = ser(rng, m, rng.random() < .5)
    if rng.random() < .2:
        text = rng.choice(WS) + text + rng.choice(WS)
    return text.encode('utf-8', 'surrogatepass')


def check(ctx, data, what, want=None):
    v, got = compare(ctx, 'clientdata', data, client_data(data), parse_client_data, lib_client_data, what, parsing=True)
    require(want is None or v == want, 'harness: %s judged %s' % (what, v), data=data.hex())
    return v, got


def faithful(ctx, rng, index):
    for _ in range(12):
        m = honest(rng)
        # an equal object in two spellings decodes to the same value
        a, b = encode(rng, m), encode(rng, m)
        v, x = check(ctx, a, 'honest', 'ok')
        if index % 2:
            check(ctx, b, 'another spelling', 'ok')
        if x is not None:
            d = dict(m)
            require((x.type, x.challenge, x.origin) == (d['type'], d['challenge'], d['origin']), 'decoded members differ from those serialised', data=a.hex())
            ctx.count('binding:%s' % (None if x.token_binding is None else x.token_binding.status.value))
    ctx.sample(data=a.decode('utf-8', 'replace')[:300])


def limits(ctx, rng, index):
    """Much of everything that does not matter: members, elements, depth, and every character many times."""
    n = [17, 33, 65, 101, 129, 257, 1001, 5000][index % 8] if index < 32 else magic.size(rng, 20000) or rng.randrange(2, 3000)
    deep = min(n, 300)
    base = honest(rng)
    rest = [('m%d' % i, i) for i in range(n)]
    extra = {'members': rest, 'elements': [('l', list(range(n)))], 'objects': [('l', [{'a': i} for i in range(n)])], 'text': [('t', 'x' * n)], 'name': [('n' * n, 1)], 'digits': [('d', 10 ** min(n, 4000))],
             'deep list': [('d', RawJSON('[' * deep + ']' * deep))], 'deep object': [('d', RawJSON('{"a":' * deep + '1' + '}' * deep))], 'two deep': [('d', RawJSON('[{"a":' * (deep // 2) + '1' + '}]' * (deep // 2)))],
             'space': [('s', RawJSON(' ' * n + '1' + '\n' * n))], 'escapes': [('e', RawJSON('"' + '\\u0041' * n + '"'))], 'magic': [(magic.text(rng) + '!', magic.text(rng)) for _ in range(5)]}
    for what, more in extra.items():
        at = rng.choice([0, len(base)])
        check(ctx, encode(rng, Members(base[:at] + more + base[at:])), '%d: %s' % (n, what), 'ok')
        ctx.count('limits')
    for ch in '[]{}",:\\\'/\n\x00 0a-_=\u00e9\U0001f511':
        for members in ([('x', ch * n)], [('x', ch), (ch * n + '_', 1)], [('x', [ch] * n)]):
            check(ctx, encode(rng, Members(base + members)), '%r %d times' % (ch, n), 'ok' if len(dict(base + members)) == len(base + members) else None)
        d = dict(base)
        for name in ('type', 'challenge', 'origin'):
            check(ctx, encode(rng, Members(dict(d, **{name: ch * n}).items())), '%s of %r %d times' % (name, ch, n), 'ok')
        check(ctx, encode(rng, Members(dict(d, tokenBinding=Members([('status', 'present'), ('id', ch * n)])).items())), 'id of %r %d times' % (ch, n), 'ok')


WRONG = [None, True, False, 0, 1, 1.5, [], ['x'], {}, {'x': 'y'}]
STATUS = ['', 'Present', 'PRESENT', 'present ', 'not-supported', 'supporte', 'Supported', 'absent', 'unknown', 'PRESENT\0', 'presentx', None, 0, 1, True, False, 1.5, [], ['present'], {}, {'present': 1}, ['supported', 'present']]


def deviations(ctx, rng, index):
    base = [p for p in honest(rng) if p[0] != 'tokenBinding']
    enc = lambda m: encode(rng, Members(m))
    for name in ('type', 'challenge', 'origin'):
        rest = [p for p in base if p[0] != name]
        v, _ = check(ctx, enc(rest), '%s missing' % name, 'reject')
        ctx.count('missing')
        for w in WRONG:
            v, _ = check(ctx, enc(rest + [(name, w)]), '%s=%r' % (name, w), 'reject')
            ctx.count('mistyped')
        for other in (name.upper(), name.capitalize(), name + ' ', ' ' + name, name[:-1], name + '\0'):
            if other not in dict(rest):
                check(ctx, enc(rest + [(other, dict(base)[name])]), '%s renamed %r' % (name, other), 'reject')
    for w in [True, False, 0, 1, 1.5, '', 'present', 'supported', [], ['present'], [['status', 'present'], ['id', 'x']], [{'status': 'supported'}]]:
        check(ctx, enc(base + [('tokenBinding', w)]), 'tokenBinding=%r' % (w,), 'reject')
        ctx.count('binding-not-object')
    for members in ([], [('id', 'x')], [('Status', 'present'), ('id', 'x')], [('status ', 'supported')], [('state', 'present')]):
        check(ctx, enc(base + [('tokenBinding', Members(members))]), 'tokenBinding without status', 'reject')
        ctx.count('binding-no-status')
    for s in STATUS:
        for extra in ([], [('id', 'x')]):
            check(ctx, enc(base + [('tokenBinding', Members([('status', s)] + extra))]), 'status=%r' % (s,), 'reject')
            ctx.count('binding-status')
    for extra in ([], [('ID', 'x')], [('id', None)], [('Id', 'x'), ('x', 'id')]):
        check(ctx, enc(base + [('tokenBinding', Members([('status', 'present')] + extra))]), 'present without id', 'reject')
        ctx.count('binding-no-id')
    for i in ('', 'x', string(rng)):
        check(ctx, enc(base + [('tokenBinding', Members([('status', 'present'), ('id', i)]))]), 'present with id', 'ok')
        check(ctx, enc(base + [('tokenBinding', Members([('status', 'supported')]))]), 'supported', 'ok')
        check(ctx, enc(base + [('tokenBinding', Members([('status', 'supported'), ('id', i)]))]), 'supported with id', 'ok')
    text = enc(base)
    for top in ('[]', '"x"', '1', 'null', 'true', '[%s]' % text.decode('utf-8'), '"%s"' % 'abc', '', ' ', '-', 'nul', '[[', '{', '}', '{}', '[{"type":"a"}]'):
        check(ctx, top.encode(), 'not an object', 'reject')
        ctx.count('not-object')
    for broken in (text[:-1], text.rstrip()[:-1], text + b'}', text + b'x', text + text, text[1:], b'x' + text, text.replace(b':', b'=', 1), text.replace(b'"', b"'"), text.rstrip()[:-1] + b',}', b'//c\n' + text, text.replace(b',', b';', 1),
                   text.rstrip()[:-1] + b',"x":01}', text.rstrip()[:-1] + b',"x":.5}', text.rstrip()[:-1] + b',"x":+1}', text.rstrip()[:-1] + b',x:1}', text.rstrip()[:-1] + b',"x":"\n"}', text.rstrip()[:-1] + b',"x":"\\x41"}', text.rstrip()[:-1] + b',"x":"\\u12g4"}',
                   text.rstrip()[:-1] + b',"x":tru}', text.rstrip()[:-1] + b',"x"}', text.rstrip()[:-1] + b' "x":1}', text.rstrip()[:-1] + b',"x":True}', text.rstrip()[:-1] + b',"x":[1,]}', b'\0' + text, text + b'\0'):
        v, _ = check(ctx, broken, 'not JSON')
        ctx.count('not-json:' + v)
    i = rng.randrange(len(text))
    for bad in (b'\xff', b'\xc0\x80', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80', b'\x80', b'\xe2\x82', b'\xf4\x90\x80\x80', b'\xc1\xbf', b'\xe0\x80\xaf'):
        mid = text.rstrip()[:-1] + b',"bad":"' + bad + b'"}'
        check(ctx, mid, 'not UTF-8', 'reject')
        check(ctx, bad + text, 'not UTF-8', 'reject')
        check(ctx, text + bad, 'not UTF-8', 'reject')
        ctx.count('not-utf8', 3)
    s = text.decode('utf-8')
    if s.isascii():
        for codec in ('utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-le'):
            v, _ = check(ctx, s.encode(codec), codec)
            ctx.count('other-encoding:' + v)
    for codec in ('latin-1', 'cp1252'):
        t = ser(rng, Members(base + [('x', RawJSON('"caf\u00e9 \u00fc"'))]), False)
        try:
            b = t.encode(codec)
        except UnicodeEncodeError:
            continue
        check(ctx, b, codec, 'reject')


def hostile(ctx, rng, index):
    for _ in range(40):
        r = rng.random()
        data = fuzz.json_bytes(rng) if r < .4 else fuzz.mutate(rng, encode(rng, honest(rng)))
        check(ctx, data, 'hostile')
    ctx.count('hostile', 40)


KINDS = {'faithful': (faithful, 400, 20000), 'deviations': (deviations, 48, 2400), 'limits': (limits, 40, 1200), 'hostile': (hostile, 200, 12000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'limits': 400, 'binding:present': 200, 'binding:supported': 100, 'binding:None': 200, 'missing': 100, 'mistyped': 500, 'binding-not-object': 300, 'binding-no-status': 100, 'binding-status': 500,
            'binding-no-id': 100, 'not-object': 300, 'not-json:reject': 300, 'not-utf8': 300, 'clientdata:ok': 1000, 'clientdata:reject': 3000}
