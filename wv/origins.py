"""Independent reference for web origins: 'bad', 'unspec' or (scheme, host, port)."""
import re

from wv import magic

HOST = re.compile('^[A-Za-z0-9_.\\-\u00df-\u00f6\u00f8-\u00ff\u00c0-\u00d6\u0410-\u044f\u0131\u03b1-\u03c9\uff41-\uff5a\ufb01\u4e00-\u4eff\u0301]+$')
# pairs of different hosts that some normalisation (IDNA 2003, NFC, NFKC, case folding, transliteration) would make equal
CONFUSABLE = [('fa\u00df', 'fass'), ('\u03bf\u03c2', '\u03bf\u03c3'), ('\ufb01x', 'fix'), ('\uff45xample', 'example'), ('cafe\u0301', 'caf\u00e9'),
              ('\u0131d', 'id'), ('b\u00fccher', 'bucher'), ('b\u00fccher', 'buecher'), ('p\u0430ypal', 'paypal'), ('b\u00fccher', 'xn--bcher-kva'),
              ('\u00e9', '\u00e8'), ('\u4e2d', '\u4e01'), ('a_b', 'a-b')]
ODD = re.compile('[%*$^()|+~!,;{}\u3002\uff0e\uff61\u00ad\u200b\u200d\u2060\ufeff]')
CONFUSABLE += [('%65xample', 'example'), ('ex%61mple', 'example'), ('example%2eorg', 'example.org'), ('a\u3002b', 'a.b'), ('a\uff61b', 'a.b'), ('ex\u00adample', 'example'), ('ex\u200bample', 'example'),
               ('ex\u200dample', 'example'), ('\ufeffexample', 'example'), ('b%C3%BCcher', 'b\u00fccher')]
# and pairs where one is a pattern that the other fits
CONFUSABLE += [('*', 'evil'), ('*', 'a.b'), ('*.a', 'a'), ('*.a', 'b.a'), ('*.a', 'c.b.a'), ('a*', 'ab'), ('*a', 'ba'), ('*a', 'b.a'), ('+', 'evil'), ('.*', 'evil'), ('.+', 'a.b'), ('%', 'evil'), ('_vil', 'evil'), ('(evil|a)', 'evil'), ('$', 'evil'), ('{}', 'evil'), ('~', 'evil'), ('!a', 'evil'), ('{a,b}', 'a'), ('a,b', 'a'),
               ('a;b', 'a'), ('a|b', 'b'), ('a~', 'a'), ('a$', 'a'), ('^a', 'a'), ('-', 'evil'), ('_', 'evil'), ('any', 'evil'), ('null', 'evil'), ('0.0.0.0', '10.1.2.3'), ('127.0.0.1', 'localhost'), ('127.1', '127.0.0.1'), ('0x7f.1', '127.0.0.1'), ('2130706433', '127.0.0.1')]
V6 = re.compile(r'^\[[0-9A-Fa-f:]*:[0-9A-Fa-f:]*\]$')


def ref_origin(s):
    i = s.find('://')
    if i < 0:
        return 'bad'
    scheme, rest = s[:i], s[i + 3:]
    if any(ord(ch) <= 0x20 or ord(ch) == 0x7f for ch in s):
        return 'unspec'
    if scheme not in ('http', 'https'):
        return 'unspec' if scheme.lower() in ('http', 'https') else (
            'bad' if re.match(r'^[a-zA-Z0-9+.\-]*$', scheme) else 'unspec')
    m = re.search(r'[/?#]', rest)
    if m:
        tail = rest[m.start():]
        if tail in ('?', '#', '?#'):
            return 'unspec'          # an empty query or fragment
        if not rest[:m.start()]:
            return 'bad'
        return 'bad'                 # path, query or fragment present
    if '@' in rest:
        return 'bad'
    if rest.startswith('['):
        j = rest.find(']')
        if j < 0:
            return 'bad'
        host, tail = rest[:j + 1], rest[j + 1:]
        if tail and not tail.startswith(':'):
            return 'bad' if re.match(r'^[0-9A-Za-z]+$', tail) else 'unspec'
        port = tail[1:] if tail else None
        if ':' not in host:
            return 'bad'                 # a name is not an address, in brackets or not
        if not V6.match(host):
            return 'unspec'
        import ipaddress
        try:
            ipaddress.IPv6Address(host[1:-1])
        except ValueError:
            return 'bad'
    else:
        if rest.count(':') > 1:
            return 'bad' if not re.search(r':\d*$', rest) else 'unspec'
        host, sep, port = rest.partition(':')
        if not sep:
            port = None
        if not host:
            return 'bad'
        if not HOST.match(host):
            return 'unspec'
    if port is None:
        p = 443 if scheme == 'https' else 80
    elif port == '':
        return 'unspec'
    elif re.match(r'^[0-9]+$', port):
        if len(port) > 1 and port[0] == '0':
            return 'unspec'
        p = int(port) if len(port) < 10 else 10 ** 9
        if p > 65535:
            return 'bad'
    else:
        return 'bad' if re.match(r'^[A-Za-z0-9.+\-_]+$', port) else 'unspec'
    return (scheme, host.lower(), p)


def match(client, expected):
    """'yes', 'no' or 'unspec' for a client origin and the expected origin(s)."""
    exp = [expected] if isinstance(expected, str) else list(expected)
    if not exp:
        return 'no'
    parsed = [ref_origin(x) for x in exp]
    if 'bad' in parsed:
        return 'no'
    c = ref_origin(client)
    if c == 'bad':
        return 'no'
    if 'unspec' in parsed or c == 'unspec':
        # rejected as malformed or taken as it stands, such a host is never the host it might be normalised to
        if bool(ODD.search(client)) and not any(ODD.search(x) for x in exp) or c != 'unspec' and all(p == 'unspec' and ODD.search(x) for p, x in zip(parsed, exp)):
            return 'no'
        if bracketed(client) and all(type(p) is tuple and p[1][0] != '[' for p in parsed) or type(c) is tuple and c[1][0] != '[' and all(bracketed(x) for x in exp):
            return 'no'                  # an address is no name
        return 'unspec'
    return 'yes' if c in parsed else 'no'


def bracketed(s):
    return bool(re.match(r'^https?://\[[^\]]*\](:[0-9]+)?$', s))


HOSTS = ['example.com', 'login.example.com', 'example.org', 'localhost', '127.0.0.1', 'a', 'xn--bcher-kva.example',
         'my_host.test', 'sub.sub2.example.co.uk', '[::1]', '[2001:db8::1]', 'example.com.', 'b\u00fccher.example'.replace('\u00fc', '\u00e4'),
         'example.com.evil.org', 'evilexample.com', 'xample.com', 'example.co', 'example-com.org', 'h' * 63 + '.example.com',
         'stra\u00dfe.example', '\ufb01x.example', 'caf\u00e9.example', 'b\u00fccher.example', 'a.' * 120 + 'example']


def gen_origin(rng):
    """A well-formed origin string."""
    scheme = rng.choice(['https', 'https', 'https', 'http'])
    host = rng.choice(HOSTS[:11] if rng.random() < .8 else HOSTS)
    if magic.chance(rng):
        t = magic.text(rng)
        if HOST.match(t) and len(t) < 300:
            host = rng.choice([t, t + '.example', 'a.' + t])
    r = rng.random()
    port = '' if r < .6 else ':%d' % rng.choice([443, 80, 8443, 8080, 1, 65535, 4430, 44, 0, 5000])
    if magic.chance(rng):
        n = magic.number(rng, 0, 65535)
        port = port if n is None else ':%d' % n
    return scheme + '://' + host + port


def variant(rng, origin):
    """A string near the given origin (may or may not denote the same origin)."""
    try:
        return well_formed_variant(rng, origin)
    except (ValueError, KeyError):      # an already deviating origin
        return rng.choice([origin + 'x', 'https://example.com', origin, origin[1:], 'https://' + origin])


def confusable(rng, host):
    """Another host that a normalisation would make equal to this one, if there is one."""
    opts = [(b, a) for p in CONFUSABLE for a, b in (p, p[::-1]) if a in host]
    if not opts:
        return host.replace('e', '\u0435', 1) if 'e' in host else host + '\u00df'
    b, a = rng.choice(opts)
    return host.replace(a, b, 1)


def well_formed_variant(rng, origin):
    i = origin.index('://')
    scheme, rest = origin[:i], origin[i + 3:]
    if rest.startswith('['):
        j = rest.index(']') + 1
        host, port = rest[:j], rest[j + 1:]
    else:
        host, _, port = rest.partition(':')
    port = port or None
    dflt = {'https': 443, 'http': 80}

    def mk(scheme=scheme, host=host, port=port):
        return scheme + '://' + host + (':%s' % port if port is not None else '')
    opts = [
        lambda: mk(scheme='http' if scheme == 'https' else 'https'),
        lambda: mk(port=dflt[scheme]),
        lambda: mk(port=None),
        lambda: mk(scheme='http' if scheme == 'https' else 'https', port=port or dflt[scheme]),
        lambda: mk(port=rng.choice([0, 1, 80, 443, 444, 8443, 65535])),
        lambda: mk(port=rng.choice([65536, 99999, 443 + 65536])),
        lambda: mk(port=(int(port) + rng.choice([-1, 1, 10, 65536]) if port and int(port) > 0 else 444)),
        lambda: mk(port='%s0' % (port or 443)),
        lambda: mk(host=host.upper()),
        lambda: mk(host=''.join(ch.upper() if rng.random() < .5 else ch for ch in host)),
        lambda: mk(host='www.' + host),
        lambda: mk(host='evil' + host),
        lambda: mk(host=host + '.evil.org'),
        lambda: mk(host=host + '.'),
        lambda: mk(host=confusable(rng, host)),
        lambda: mk(host=host[1:] or 'z'),
        lambda: mk(host=host[:-1] or 'z'),
        lambda: mk(host=host.replace('.', '-')),
        lambda: mk(host=host.split('.', 1)[-1]),
        lambda: mk(host=rng.choice(HOSTS)),
        lambda: scheme + '://user@' + rest,
        lambda: scheme + '://user:pw@' + rest,
        lambda: scheme + '://' + host + '@evil.org',
        lambda: scheme + '://@' + rest,
        lambda: origin + rng.choice(['/', '/path', '/a;b', '?q=1', '#frag', '/?', '//']),
        lambda: scheme + ':' + rest,
        lambda: scheme + ':/' + rest,
        lambda: rest,
        lambda: '//' + rest,
        lambda: rng.choice(['ftp', 'ws', 'wss', 'file', 'android', 'chrome-extension', 'httpss', 'htt', '']) + '://' + rest,
        lambda: scheme + '://',
        lambda: scheme + '://:' + (port or '443'),
        lambda: mk(port=rng.choice(['abc', '44x', '-1', '4.4'])),
        lambda: '',
        lambda: 'null',
        lambda: scheme + '://[' + host.strip('[]') + ']' if ':' not in host else scheme + '://' + host.strip('[]'),
        lambda: mk(host='[::1'),
        lambda: mk(host='[::2]'),
        lambda: origin,
    ]
    if magic.chance(rng):
        s = magic.word(rng)
        n = magic.number(rng)
        opts = [lambda: mk(host=s + host), lambda: mk(host=host + s), lambda: mk(host=s + '.' + host), lambda: mk(host=host.replace(s, '', 1) or 'z'), lambda: mk(host=host[:2] + s + host[2:]),
                lambda: mk(host='[' + s + host + ']'), lambda: mk(host='[' + host + s + ']'), lambda: mk(host=s), lambda: mk(port=n), lambda: mk(scheme=s), lambda: s + origin, lambda: origin + s]
    return rng.choice(opts)()
