"""Values worth trying because the code under test mentions them.

A fuzzer's dictionary: the numbers, texts and byte strings that occur as constants in the package's compiled code, so that
limits, special values and prefixes are met however unlikely they are at random. Constants that the pinned tree does not have
(constants.json) are preferred, which directs the workload at what changed. Only inputs depend on this, never a verdict.
"""
import ast
import json
import os
import re
from types import CodeType

from wv.core import REPO

HERE = os.path.dirname(os.path.abspath(__file__))


def walk(code, place, out):
    place = place + '.' + code.co_name if code.co_name != '<module>' else place
    mine = out.setdefault(place, set())
    for c in code.co_consts:
        if isinstance(c, CodeType):
            walk(c, place, out)
        else:
            flat(c, mine)
    mine.update(code.co_names)           # members that are asked for by name


def flat(c, out):
    if isinstance(c, (tuple, frozenset)):
        for x in c:
            flat(x, out)
    elif type(c) in (int, float, bytes) or type(c) is str and (len(c) <= 48 and not re.search(r'[a-z] [a-z]', c)):
        if type(c) is not str or not re.search('[\ud800-\udfff]', c):
            out.add((type(c).__name__, c.hex() if isinstance(c, (bytes, float)) else c))


def collect(repo=REPO):
    """function -> {(type, constant)}"""
    out = {}
    for folder, _, names in os.walk(repo):
        for name in sorted(names):
            if name.endswith('.py'):
                try:
                    with open(os.path.join(folder, name), encoding='utf-8') as f:
                        walk(compile(ast.parse(f.read()), name, 'exec'), os.path.relpath(os.path.join(folder, name), repo), out)
                except (OSError, SyntaxError, ValueError):
                    pass
    return {k: {x if isinstance(x, tuple) else ('str', x) for x in v} for k, v in out.items()}


def value(k):
    return bytes.fromhex(k[1]) if k[0] == 'bytes' else float.fromhex(k[1]) if k[0] == 'float' else k[1]


_loaded = {}


def pool(kind):
    """(constants of this kind, those among them that some function has which did not have them before)"""
    if not _loaded:
        with open(os.path.join(HERE, 'constants.json')) as f:
            known = {(place, *k) for place, ks in json.load(f).items() for k in ks}
        here = collect()
        new = {k for place, ks in here.items() for k in ks if (place, *k) not in known}
        for k in sorted({k for ks in here.values() for k in ks}, key=repr):
            c = value(k)
            for t in ([int, float] if type(c) in (int, float) else [str, bytes] if type(c) is str and c.isascii() else [type(c)]):
                v = c if isinstance(c, t) or t is float else int(c) if t is int and c == c and abs(c) < 2 ** 70 else c.encode() if t is bytes else None
                if v is not None:
                    every, fresh = _loaded.setdefault(t, ([], []))
                    every.append(v)
                    if k in new:
                        fresh.append(v)
    return _loaded.get(kind, ([], []))


def chance(rng, p=.04):
    """Whether to use a constant here: often when there are new ones."""
    return rng.random() < (5 * p if pool(int)[1] or pool(str)[1] or pool(bytes)[1] else p)


def some(rng, kind):
    every, new = pool(kind)
    if new and rng.random() < .6:
        return rng.choice(new)
    return rng.choice(every) if every else kind()


def number(rng, lo=-2 ** 63, hi=2 ** 64 - 1):
    """An integer at or next to a constant (or a power of two with it as exponent) within the range, or None."""
    n = some(rng, int)
    n = rng.choice([n, n, n + 1, n - 1, -n, 2 * n, 2 ** n if 3 < n < 64 else n, 2 ** n - 1 if 3 < n < 64 else n])
    return n if lo <= n <= hi else None


def size(rng, hi=5000):
    """A length at or next to a constant; None when there is none in range."""
    return number(rng, 0, hi)


def real(rng):
    n = some(rng, float)
    n = n if abs(n) < 2 ** 53 else 1
    return rng.choice([n, float(n), -n, n + .5, n - 1, n + 1, n + 1e-9])


def text(rng):
    """A text that is, starts with, ends with or contains a constant, once or many times."""
    s = some(rng, str)
    o = rng.choice(['a', 'example', '0', ' ', 'x.y', ''])
    return rng.choice([s, s, s + o, o + s, o + s + o, s + s, s.upper(), s.lower(), s[:-1], s[1:], s * rng.choice([3, 60, 200]) if len(s) < 8 else s, o + s[:1]])


def data(rng):
    b = some(rng, bytes)
    o = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 16])))
    return rng.choice([b, b, b + o, o + b, o + b + o, b + b, b[::-1]])


def word(rng):
    return some(rng, str)


if __name__ == '__main__':               # record the constants of the present tree
    with open(os.path.join(HERE, 'constants.json'), 'w') as f:
        f.write('{\n%s\n}\n' % ',\n'.join(json.dumps(p) + ': ' + json.dumps(sorted(c, key=repr)) for p, c in sorted(collect().items())))
