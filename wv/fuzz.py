"""Hostile inputs: CBOR and JSON documents, origins, and byte-level mutations."""
import json
import struct

from wv import magic, refcbor
from wv.refcbor import F32, Indef, Pairs, Raw, Simple, Tag, enc, head
from wv.sim import rbytes

BIG = [2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63 - 1, -2 ** 64, 2 ** 64, 2 ** 200, -2 ** 200, 2 ** 16000, -2 ** 16000]
SMALL = [0, 1, 2, 3, 5, 6, 7, -1, -2, -3, -7, -8, -35, -36, 23, 24, 255, 256, 65535, 2 ** 31, 2 ** 32]
WORDS = ['', 'fmt', 'attStmt', 'authData', 'none', 'packed', 'tpm', 'fido-u2f', 'android-key', 'android-safetynet', 'alg', 'sig', 'x5c', 'ver', 'response', 'ES256',
         'EC2', 'OKP', 'P-256', 'EdDSA', 'sign', 'verify', 'appid', 'uvm', 'loc', 'latitude', 'exts', 'uvi', 'name', 'value', 'Symmetric', 'P_256', '__class__', 'mro']


def scalar(rng):
    if magic.chance(rng, .02):
        return rng.choice([magic.number, magic.text, magic.data, magic.word, magic.real])(rng) or 0
    r = rng.randrange(18)
    if r == 0: return rng.choice(SMALL)
    if r == 1: return rng.choice(BIG)
    if r == 2: return rng.choice(WORDS)
    if r == 3: return rbytes(rng, rng.choice([0, 1, 2, 16, 32, 48, 66, 37, 300]))
    if r == 4: return rng.choice([True, False, None])
    if r == 5: return Simple(rng.choice([0, 1, 19, 23, 32, 99, 255]))
    if r == 6: return rng.choice([0.0, -0.0, 1.5, 1e308, float('inf'), float('-inf'), float('nan'), F32(1.5)])
    if r == 7: return Raw(b'\xf9' + rbytes(rng, 2))
    if r == 8: return Raw(b'\x63' + rng.choice([b'\xff\xfe\xfd', b'\xed\xa0\x80', b'a\x00b', b'\xc0\x80a']))
    if r == 9: return Tag(rng.choice([0, 1]), rng.choice(['2013-03-21T20:04:00Z', 'x', '9999-99-99T99:99:99Z', '2013-03-21T20:04:00+99:99', 1e300, -1e300, 2 ** 63, float('nan'), b'', None]))
    if r == 10: return Tag(rng.choice([2, 3]), rng.choice([b'', b'\0', b'\xff' * 9, b'\xff' * 2000, 'x', 1, None, []]))
    if r == 11: return Tag(rng.choice([4, 5]), rng.choice([[1, 2], [-5, 5], [2 ** 63 - 1, 1], [-2 ** 63, 1], [999999999, 1], [1], 'x', [None, None], ['a', 'b'], []]))
    if r == 12: return Tag(rng.choice([28, 29]), rng.choice([0, 1, 2 ** 32, -1, 'x', [], None]))
    if r == 13: return Tag(30, rng.choice([[1, 0], [1, 2], [0, 0], 'x', [1], [1, 2, 3], [2 ** 64, -1]]))
    if r == 14: return Tag(rng.choice([35, 36, 37]), rng.choice(['(', '[a-', 'a*' * 50, 'Content-Type: x\n\n', b'x', b'\0' * 16, b'', 1, '(?P<a>x)(?P<a>y)']))
    if r == 15: return Tag(rng.choice([258, 260, 261, 256, 25]), rng.choice([[1, 1], [[1]], [Pairs([(1, 2)])], b'\x7f\0\0\1', b'\0' * 16, b'xx', 'x', Pairs([(b'\x7f\0\0\1', 33)]),
                                                                        Pairs([(b'\x7f\0\0\1', 24)]), Pairs([('x', 'y')]), {}, 3]))
    if r == 16: return Tag(rng.choice([6, 21, 55799, 2 ** 32, 2 ** 64 - 1, 24, 32, 33, 34]), rng.choice([1, 'x', b'\x01', None]))
    return Raw(rng.choice([b'\xff', b'\xfe', b'\x1c', b'\x1f', b'\x3f', b'\xdf\x01', b'\xf8\x05', b'\xfc', b'\xfd', b'\xd8', b'\xf7', b'\x5f\xff', b'\x7f\xff', b'\x9f\xff', b'\xbf\xff',
                           b'\x5f\x61a\xff', b'\x7f\x41a\xff', b'\xbf\x01\xff', b'\x5f\x5f\xff\xff']))


def value(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < .55:
        return scalar(rng)
    n = rng.choice([0, 1, 2, 3, 6])
    if r < .72 and magic.chance(rng):
        return [scalar(rng)] * (magic.size(rng, 300) or 1)
    if r < .7:
        return [value(rng, depth - 1) for _ in range(n)]
    if r < .9:
        return Pairs((scalar(rng) if rng.random() < .5 else rng.choice(SMALL[:9] + WORDS), value(rng, depth - 1)) for _ in range(n))
    if r < .95:
        return Indef(4, [value(rng, depth - 1) for _ in range(n)])
    return Indef(5, [(rng.choice(WORDS), value(rng, depth - 1)) for _ in range(n)])


def structural(rng):
    """Raw CBOR with lying lengths, deep nesting or shared references."""
    r = rng.randrange(9)
    big = rng.choice([2 ** 16, 2 ** 20, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40, 2 ** 61, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1])
    if r == 0: return head(rng.choice([2, 3, 4, 5]), big, 8) + rbytes(rng, rng.choice([0, 4, 40]))
    if r == 1: return rng.choice([b'\x81', b'\xa1\x01', b'\xd8\x1c\x81', b'\x9f', b'\xbf\x01', b'\xc6', b'\xd9\x01\x02\x81', b'\xd8\x23']) * rng.choice([10, 500, 990, 1100, 5000, 50000]) + rng.choice([b'', b'\x01', b'\xa0'])
    if r == 2: return b'\xd8\x1c\x82\x01\xd8\x1d\x00'            # cyclic list
    if r == 3: return b'\xd8\x1c\xa1\x01\xd8\x1d\x00'            # cyclic map
    if r == 4: return b'\xa1' + b'\xd8\x1c\x81\xd8\x1d\x00' + b'\x01'
    if r == 5: return b'\xa1' + enc(value(rng, 3)) + b'\x01'       # odd key
    if r == 6: return b'\xbf' + enc(value(rng, 2)) * rng.choice([1, 3])
    if r == 7: return b'\xc2' + head(2, 60000) + rbytes(rng, 60000)
    return b'\x9f' + b'\x80' * rng.choice([10, 1000, 20000]) + rng.choice([b'', b'\xff'])


def cbor(rng):
    r = rng.random()
    if r < .25:
        return structural(rng)
    if r < .35:
        return rbytes(rng, rng.choice([0, 1, 2, 3, 8, 40, 300]))
    b = enc(value(rng, rng.choice([1, 3, 4])))
    return mutate(rng, b) if rng.random() < .3 else b


def mutate(rng, b, n=None):
    """Byte-level mutations."""
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 2, 4, 10])):
        r = rng.randrange(9)
        i = rng.randrange(len(b) + 1)
        if r == 0 and b: b[i % len(b)] ^= 1 << rng.randrange(8)
        elif r == 1 and b: b[i % len(b)] = rng.choice([0, 1, 0x1b, 0x3b, 0x40, 0x5b, 0x60, 0x80, 0xa0, 0xbf, 0xc2, 0xd8, 0xf6, 0xf7, 0xff, rng.randrange(256)])
        elif r == 2: del b[i:]
        elif r == 3: del b[i:i + rng.choice([1, 2, 8])]
        elif r == 4: b[i:i] = rbytes(rng, rng.choice([1, 2, 9]))
        elif r == 5: b[i:i] = b[:rng.choice([1, 8, 40])]
        elif r == 6: b[i:i + 8] = struct.pack('>Q', rng.choice([2 ** 63, 2 ** 64 - 1, 2 ** 31, 2 ** 20]))
        elif r == 7: b += rbytes(rng, rng.choice([1, 5]))
        else: b[i:i] = enc(scalar(rng))
    return bytes(b)


def tree_paths(v, path=()):
    yield path
    if isinstance(v, Pairs):
        for i, (k, x) in enumerate(v):
            yield path + ((i, 'k'),)
            yield from tree_paths(x, path + ((i, 'v'),))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from tree_paths(x, path + ((i, 'i'),))


def tree_replace(v, path, new):
    if not path:
        return new
    (i, kind), rest = path[0], path[1:]
    if kind == 'i':
        return [tree_replace(x, rest, new) if j == i else x for j, x in enumerate(v)]
    out = Pairs(v)
    k, x = out[i]
    out[i] = (new, x) if kind == 'k' else (k, tree_replace(x, rest, new))
    return out


def graft(rng, data):
    """Decode honest CBOR, replace (or drop, duplicate) one node by something hostile, encode again."""
    tree = refcbor.dec(data)
    paths = list(tree_paths(tree))
    new = value(rng, 2) if rng.random() < .85 else Raw(structural(rng))
    out = tree_replace(tree, rng.choice(paths), new)
    if isinstance(out, Pairs) and len(out) and rng.random() < .2:
        i = rng.randrange(len(out))
        if rng.random() < .5:
            del out[i]
        else:
            out.insert(0, (out[i][0], value(rng, 1)))
    return enc(out)


# --- JSON ------------------------------------------------------------------
def json_value(rng, depth=3):
    if magic.chance(rng):
        return rng.choice([magic.number, magic.text, magic.real])(rng)
    r = rng.random()
    if depth <= 0 or r < .6:
        return rng.choice([None, True, False, 0, 1, -1, 1.5, 1e308, float('nan'), float('inf'), 10 ** 30, '', 'x', 'webauthn.get', 'webauthn.create', 'present', 'supported',
                           'https://example.com', '\ud800', '\x00', 'AAAA', '\u00e9', 'x' * 1000, [], {}])
    n = rng.choice([0, 1, 3])
    if r < .8:
        return [json_value(rng, depth - 1) for _ in range(n)]
    return {rng.choice(['type', 'challenge', 'origin', 'tokenBinding', 'status', 'id', 'x', '']): json_value(rng, depth - 1) for _ in range(n)}


def json_bytes(rng):
    r = rng.random()
    if r < .45:
        d = {'type': 'webauthn.get', 'challenge': 'AAAA', 'origin': 'https://example.com', 'tokenBinding': {'status': 'present', 'id': 'x'}}
        for _ in range(rng.choice([0, 1, 2])):
            k = rng.choice(list(d))
            if k == 'tokenBinding' and rng.random() < .7 and type(d[k]) is dict:
                d[k] = dict(d[k], **{rng.choice(['status', 'id', 'x']): json_value(rng, 2)})
            else:
                d[k] = json_value(rng, 2)
        b = json.dumps(d).encode()
    elif r < .6:
        b = json.dumps(json_value(rng, 4)).encode()
    elif r < .7:
        b = rng.choice([b'[', b'{"a":', b'[[', b'{"type":[']) * rng.choice([10, 900, 1100, 20000, 200000])
    elif r < .8:
        b = rng.choice([b'', b' ', b'{}', b'null', b'"x"', b'1', b'-', b'1e999999', b'NaN', b'Infinity', b'{"type":1e400}', b'9' * 5000, b'{"a":' + b'9' * 5000 + b'}',
                        b'"\\ud800"', b'"\\u12"', b'{"type":"a","type":"b"}', b'\xef\xbb\xbf{}', '{"type":"x"}'.encode('utf-16'), b'\xff\xfe', b'{"a":"\xff"}', b'{,}', b'{"a":1,}', b"{'a':1}",
                        b'\x00', b'{"type":"webauthn.get","challenge":"A","origin":"https://x"}garbage'])
    else:
        b = rbytes(rng, rng.choice([1, 10, 100]))
    return mutate(rng, b) if rng.random() < .4 and len(b) < 3000 else b


# --- origins ------------------------------------------------------------------
def origin_text(rng):
    if magic.chance(rng):
        return rng.choice(['', 'https://', 'http://example.com', 'https://[']) + magic.text(rng) + rng.choice(['', ':443', ']', '.example'])
    parts = ['http', 'https', 'HTTPS', '://', ':', '//', '/', '[', ']', '::1', '[::1]', '[::1', '1]', '@', 'a', 'example.com', '.', '..', ':80', ':443', ':99999', ':-1', ':x', ':\u0661', ': 1', ':0', ':+1', ':1_0',
             '?', '#', ';', '\\', '\t', '\n', '\r', ' ', '\x00', '\u00e9', '\u2100', '\u2105', '\uff0f', '\u2488', '\ufe55', '\u1e9e', '\ud800', '\U0001f511', '%', '%2e', 'xn--', 'file', 'null', '', 'javascript', '[v1.x]', '[v', '[fe80::1%eth0]', '[127.0.0.1]']
    r = rng.random()
    if r < .6:
        return rng.choice(['http://', 'https://', 'https:', '']) + ''.join(rng.choice(parts) for _ in range(rng.choice([0, 1, 2, 3, 5])))
    if r < .9:
        return ''.join(rng.choice(parts) for _ in range(rng.choice([1, 2, 4, 8])))
    return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x110000)])) for _ in range(rng.choice([1, 5, 30])))
