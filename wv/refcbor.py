"""Independent minimal CBOR (RFC 7049) encoder and strict decoder."""
import struct


class Raw(bytes):
    """Bytes that are already CBOR."""


class Simple:
    def __init__(self, n):
        self.n = n


class Tag:
    def __init__(self, tag, value):
        self.tag, self.value = tag, value


class F32(float):
    pass


class Pairs(list):
    """A map given as an ordered list of pairs (allows duplicates and any order)."""


class Indef:
    """Indefinite length string/array/map of the given chunks."""

    def __init__(self, major, items):
        self.major, self.items = major, items


def head(major, n, width=None):
    m = major << 5
    if width is None:
        width = 0 if n < 24 else 1 if n < 256 else 2 if n < 65536 else 4 if n < 2 ** 32 else 8
    if width == 0:
        return bytes([m | n])
    return bytes([m | {1: 24, 2: 25, 4: 26, 8: 27}[width]]) + n.to_bytes(width, 'big')


def enc(v):
    if isinstance(v, Raw):
        return bytes(v)
    if isinstance(v, Simple):
        return head(7, v.n) if v.n < 24 else bytes([0xf8, v.n])
    if v is None:
        return b'\xf6'
    if v is True:
        return b'\xf5'
    if v is False:
        return b'\xf4'
    if isinstance(v, int):
        if 0 <= v < 2 ** 64:
            return head(0, v)
        if -2 ** 64 <= v < 0:
            return head(1, -1 - v)
        n = v if v >= 0 else -1 - v
        return head(6, 2 if v >= 0 else 3) + enc(n.to_bytes((n.bit_length() + 7) // 8, 'big'))
    if isinstance(v, F32):
        return b'\xfa' + struct.pack('>f', v)
    if isinstance(v, float):
        return b'\xfb' + struct.pack('>d', v)
    if isinstance(v, bytes):
        return head(2, len(v)) + v
    if isinstance(v, str):
        b = v.encode('utf-8')
        return head(3, len(b)) + b
    if isinstance(v, Pairs):
        return head(5, len(v)) + b''.join(enc(a) + enc(b) for a, b in v)
    if isinstance(v, (list, tuple)):
        return head(4, len(v)) + b''.join(enc(x) for x in v)
    if isinstance(v, dict):
        return head(5, len(v)) + b''.join(enc(a) + enc(b) for a, b in v.items())
    if isinstance(v, Tag):
        return head(6, v.tag) + enc(v.value)
    if isinstance(v, Indef):
        if v.major == 5:
            body = b''.join(enc(a) + enc(b) for a, b in v.items)
        else:
            body = b''.join(enc(x) for x in v.items)
        return bytes([(v.major << 5) | 31]) + body + b'\xff'
    raise TypeError(type(v))


def wide(rng, v, p=.5):
    """The same value with some of its heads longer than they need to be."""
    def h(major, n):
        least = 0 if n < 24 else 1 if n < 256 else 2 if n < 65536 else 4 if n < 2 ** 32 else 8
        return head(major, n, rng.choice([w for w in (1, 2, 4, 8) if w >= least]) if rng.random() < p else least)
    if isinstance(v, Raw):
        v = dec(bytes(v))
    if isinstance(v, bool) or v is None:
        return enc(v)
    if isinstance(v, int) and -2 ** 64 <= v < 2 ** 64:
        return h(0, v) if v >= 0 else h(1, -1 - v)
    if isinstance(v, bytes):
        return h(2, len(v)) + v
    if isinstance(v, str):
        return h(3, len(v.encode())) + v.encode()
    if isinstance(v, dict):
        v = Pairs(v.items())
    if isinstance(v, Pairs):
        return h(5, len(v)) + b''.join(wide(rng, a, p) + wide(rng, b, p) for a, b in v)
    if isinstance(v, (list, tuple)):
        return h(4, len(v)) + b''.join(wide(rng, x, p) for x in v)
    return enc(v)


class CBORError(ValueError):
    pass


def dec(data):
    """Strict decode of exactly one item; maps are returned as Pairs."""
    v, i = _dec(data, 0, 0)
    if i != len(data):
        raise CBORError('trailing bytes')
    return v


def _dec(d, i, depth):
    if depth > 50:
        raise CBORError('deep')
    if i >= len(d):
        raise CBORError('eof')
    b = d[i]
    i += 1
    major, info = b >> 5, b & 31
    if major == 7:
        if info == 20:
            return False, i
        if info == 21:
            return True, i
        if info == 22:
            return None, i
        if info in (25, 26, 27):
            w = {25: 2, 26: 4, 27: 8}[info]
            if i + w > len(d):
                raise CBORError('eof')
            return struct.unpack('>' + {2: 'e', 4: 'f', 8: 'd'}[w], d[i:i + w])[0], i + w
        raise CBORError('simple')
    if info < 24:
        n = info
    elif info < 28:
        w = 1 << (info - 24)
        if i + w > len(d):
            raise CBORError('eof')
        n = int.from_bytes(d[i:i + w], 'big')
        i += w
    else:
        raise CBORError('indefinite')
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if i + n > len(d):
            raise CBORError('eof')
        s = d[i:i + n]
        return (s if major == 2 else s.decode('utf-8')), i + n
    if major == 4:
        out = []
        for _ in range(n):
            v, i = _dec(d, i, depth + 1)
            out.append(v)
        return out, i
    if major == 5:
        out = Pairs()
        for _ in range(n):
            k, i = _dec(d, i, depth + 1)
            v, i = _dec(d, i, depth + 1)
            out.append((k, v))
        return out, i
    v, i = _dec(d, i, depth + 1)
    return Tag(n, v), i
