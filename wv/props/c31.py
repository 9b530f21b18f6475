"""C31: work and memory stay in proportion to what is given."""
import base64
import functools
import gc
import json
import sys
import time
import tracemalloc

from pyasn1.codec.der.decoder import decode

from webauthn_rp import builders, converters, parsers, types as T, utils, verifiers
from webauthn_rp.asn1 import KeyDescription

from wv import att, refcbor, refder, sim
from wv.core import short
from wv.keys import pick_key
from wv.refcbor import Pairs, Raw, enc, head
from wv.sim import AT, ED, UP, AuthData, MonitoredRegistrar, World, honest_auth, rbytes

RULE = ('one evaluation = one family of inputs measured at sizes n, 4n and 16n (lines of Python executed, peak memory, processor time), or two inputs of one size that differ in the magnitude of a number, or one input in which CBOR shares values many times over, '
        'or one long run of distinct inputs after which no more is held than after half of it; non-trivial = distinct (family, variation)')

CAP = 12_000_000                     # lines of Python at which a run is broken off
MON = sys.monitoring


class TooMuch(BaseException):
    """More lines were executed than any proportionate run needs."""


class Meter:
    """Counts the lines of Python that are executed while it is on."""
    tool = None

    @classmethod
    def lines(cls, fn, cap=CAP):
        if cls.tool is None:
            cls.tool = next(i for i in (4, 3) if MON.get_tool(i) is None)
            MON.use_tool_id(cls.tool, 'wv-work')
        n = 0

        def line(code, number):
            nonlocal n
            n += 1
            if n > cap:
                MON.set_events(cls.tool, 0)
                raise TooMuch()
        gc.collect()
        gc.disable()     # what a collection calls is not part of the run
        MON.register_callback(cls.tool, MON.events.LINE, line)
        MON.set_events(cls.tool, MON.events.LINE)
        try:
            run(fn)
        except TooMuch:
            pass
        finally:
            MON.set_events(cls.tool, 0)
            gc.enable()
        return n


def run(fn):
    try:
        return fn()
    except Exception as e:  # noqa: rejections cost as well
        e.__traceback__ = None
        return e


def memory(fn):
    gc.collect()
    gc.disable()
    tracemalloc.start()
    try:
        run(fn)
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
        gc.enable()


def seconds(fn, times):
    best = None
    for _ in range(times):
        t = time.thread_time()
        run(fn)
        t = time.thread_time() - t
        best = t if best is None else min(best, t)
        if best < .002:
            break
    return best


# --- families --------------------------------------------------------------------------------------------------------
def cd(**kw):
    return json.dumps(dict(dict(type='webauthn.get', challenge='AAAA', origin='https://example.com'), **kw)).encode()


@functools.lru_cache(maxsize=None)
def _key():
    import random
    return pick_key(random.Random(31), ('P-256', 'ES256'))


def ad(ext=None, cid=b'x' * 16, key=None, tail=b''):
    return AuthData(b'r' * 32, UP | AT | (ED if ext is not None else 0), 1, (b'a' * 16, cid, key or _key().cose()), ext).encode() + tail


def cose(*more):
    k = _key()
    return Pairs([(1, 2), (3, -7), (-1, 1), (-2, k.x), (-3, k.y)] + list(more))


def key(*more):
    return enc(cose(*more))


def obj(fmt='none', stmt=(), auth=None, more=()):
    return enc(Pairs([('fmt', fmt), ('attStmt', stmt if isinstance(stmt, Raw) else Pairs(stmt)), ('authData', auth or ad())] + list(more)))


def credential(**response):
    r = dict(dict(clientDataJSON='AAAA', authenticatorData='AAAA', signature='AAAA'), **response)
    return dict(id='x', type='public-key', rawId='AAAA', response=r)


def big(n):
    return Raw(b'\xc2' + enc(b'\xff' * n))


def described(**tee):
    import random
    kd = att.honest_key_description(random.Random(5), b'h' * 32)
    kd['teeEnforced'].update(tee)
    return kd


P = parsers
call = functools.partial
PARSE_CD, PARSE_ORIGIN, PARSE_AD, PARSE_KEY, PARSE_OBJ, PARSE_CRED = (lambda x, f=f: call(f, x) for f in (
    P.parse_client_data, P.parse_origin, P.parse_authenticator_data, P.parse_cose_key, P.parse_attestation_object, P.parse_public_key_credential))


def descriptor(i):
    return T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=b'credential %d' % i, transports=[T.AuthenticatorTransport.USB])


def params(i):
    return T.PublicKeyCredentialParameters(type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=T.COSEAlgorithmIdentifier.Value.ES256)


def creation(n, exclude=0):
    b = builders.CredentialCreationOptionsBuilder(rp=sim.rp_entity('example.com')).pub_key_cred_params([params(i) for i in range(n)])
    return b.exclude_credentials([descriptor(i) for i in range(exclude)]) if exclude else b


# name -> (smallest size, n -> callable); what the callable needs is made beforehand
FAMILIES = {
    'client data: members': (1000, lambda n: PARSE_CD(cd(**{'m%d' % i: i for i in range(n)}))),
    'client data: long member': (20000, lambda n: PARSE_CD(cd(x='y' * n))),
    'client data: escapes': (5000, lambda n: PARSE_CD(cd(x='\u4e2d\ud83d"\\' * n))),
    'client data: white space': (20000, lambda n: PARSE_CD(cd() + b' \n' * n)),
    'client data: leading white space': (20000, lambda n: PARSE_CD(b' \t' * n + cd())),
    'client data: digits': (2000, lambda n: PARSE_CD(cd()[:-1] + b',"x":0.' + b'1' * n + b'}')),
    'client data: numbers': (2000, lambda n: PARSE_CD(cd(x=list(range(n))))),
    'client data: nested': (4000, lambda n: PARSE_CD(cd()[:-1] + b',"x":' + b'[' * n + b']' * n + b'}')),
    'client data: objects': (2000, lambda n: PARSE_CD(cd(x=[{'a': {}}] * n))),
    'client data: repeated member': (2000, lambda n: PARSE_CD(cd()[:-1] + b',"x":1' * n + b'}')),
    'client data: repeated origin': (2000, lambda n: PARSE_CD(cd()[:-1] + b',"origin":"https://example.com"' * n + b'}')),
    'client data: garbage': (10000, lambda n: PARSE_CD(b'{' * n)),
    'client data: not UTF-8': (20000, lambda n: PARSE_CD(cd(x='y' * n) + b'\xff')),
    'client data: all not UTF-8': (20000, lambda n: PARSE_CD(b'\xff' * n)),
    'client data: type': (20000, lambda n: PARSE_CD(cd(type='webauthn.get' * n))),
    'client data: challenge': (20000, lambda n: PARSE_CD(cd(challenge='A' * n))),
    'client data: token binding ID': (20000, lambda n: PARSE_CD(cd(tokenBinding={'status': 'present', 'id': 'x' * n}))),
    'client data: token binding status': (20000, lambda n: PARSE_CD(cd(tokenBinding={'status': 'p' * n, 'id': 'x'}))),
    'client data: token binding members': (1000, lambda n: PARSE_CD(cd(tokenBinding=dict({'m%d' % i: 1 for i in range(n)}, status='supported')))),
    'origin: host': (20000, lambda n: PARSE_ORIGIN('https://' + 'a' * n)),
    'origin: labels': (10000, lambda n: PARSE_ORIGIN('https://' + 'a.' * n + 'com')),
    'origin: hyphens': (10000, lambda n: PARSE_ORIGIN('https://' + '-' * n + '!')),
    'origin: digits': (10000, lambda n: PARSE_ORIGIN('https://' + '1.' * n + 'x')),
    'origin: letters beyond ASCII': (5000, lambda n: PARSE_ORIGIN('https://' + '\u00fc' * n + '.de')),
    'origin: port': (4000, lambda n: PARSE_ORIGIN('https://a:' + '0' * n + '80')),
    'origin: long port': (4000, lambda n: PARSE_ORIGIN('https://a:' + '8' * n)),
    'origin: slashes': (10000, lambda n: PARSE_ORIGIN('https:' + '/' * n)),
    'origin: user': (10000, lambda n: PARSE_ORIGIN('https://' + '@' * n)),
    'origin: brackets': (10000, lambda n: PARSE_ORIGIN('https://' + '[' * n + ']' * n)),
    'origin: address': (5000, lambda n: PARSE_ORIGIN('https://[' + ':' * n + '1]')),
    'origin: colons': (10000, lambda n: PARSE_ORIGIN('https://a' + ':' * n)),
    'origin: blanks': (10000, lambda n: PARSE_ORIGIN('https://a' + ' ' * n)),
    'origin: tabs': (10000, lambda n: PARSE_ORIGIN('\t\n' * n + 'https://a')),
    'origin: scheme': (20000, lambda n: PARSE_ORIGIN('h' * n + '://a')),
    'origin: schemes': (10000, lambda n: PARSE_ORIGIN('https://' * n)),
    'origin: percent': (10000, lambda n: PARSE_ORIGIN('https://' + '%41' * n)),
    'origin: query': (10000, lambda n: PARSE_ORIGIN('https://a' + '?#;' * n)),
    'authenticator data: credential ID': (4000, lambda n: PARSE_AD(ad(cid=b'x' * min(n, 65535)))),
    'authenticator data: leftover': (20000, lambda n: PARSE_AD(ad(tail=b'\0' * n))),
    'authenticator data: leftover maps': (20000, lambda n: PARSE_AD(ad(tail=b'\xa0' * n))),
    'authenticator data: leftover, nothing attested': (20000, lambda n: PARSE_AD(b'r' * 32 + b'\x01\0\0\0\1' + b'\xa0' * n)),
    'extensions: exts': (1000, lambda n: PARSE_AD(ad(ext=Pairs([('exts', ['extension %d' % i for i in range(n)])])))),
    'extensions: exts mistyped at the end': (1000, lambda n: PARSE_AD(ad(ext=Pairs([('exts', ['e%d' % i for i in range(n)] + [1])])))),
    'extensions: uvm': (500, lambda n: PARSE_AD(ad(ext=Pairs([('uvm', [[1, 2, 3]] * n)])))),
    'extensions: uvm entry': (1000, lambda n: PARSE_AD(ad(ext=Pairs([('uvm', [list(range(n))])])))),
    'extensions: unknown': (1000, lambda n: PARSE_AD(ad(ext=Pairs([('e%d' % i, 1) for i in range(n)])))),
    'extensions: unknown long': (20000, lambda n: PARSE_AD(ad(ext=Pairs([('e' * n, 1)])))),
    'extensions: unknown tuples': (1000, lambda n: PARSE_AD(ad(ext=Pairs([([i, i], 1) for i in range(n)])))),
    'extensions: unknown location': (1000, lambda n: PARSE_AD(ad(ext=Pairs([('loc', Pairs([('e%d' % i, 1) for i in range(n)]))])))),
    'extensions: text': (20000, lambda n: PARSE_AD(ad(ext=Pairs([('txAuthSimple', 'x' * n)])))),
    'extensions: text beyond ASCII': (20000, lambda n: PARSE_AD(ad(ext=Pairs([('txAuthSimple', '\u4e2d' * n)])))),
    'extensions: bytes': (20000, lambda n: PARSE_AD(ad(ext=Pairs([('uvi', b'x' * n), ('txAuthGeneric', b'x' * n)])))),
    'extensions: repeated': (1000, lambda n: PARSE_AD(ad(ext=Pairs([('appid', True)] * n)))),
    'extensions: nested': (2000, lambda n: PARSE_AD(ad(ext=Pairs([('exts', Raw(b'\x81' * n + b'\0'))])))),
    'key: operations': (500, lambda n: PARSE_AD(ad(key=key((4, [2] * n))))),
    'key: operations by name': (500, lambda n: PARSE_KEY(key((4, ['sign', 'verify'] * n)))),
    'key: operations, the last unknown': (500, lambda n: PARSE_KEY(key((4, [2] * n + [99])))),
    'key: operations, the first unknown': (1000, lambda n: PARSE_KEY(key((4, [99] + [2] * n)))),
    'key: labels': (1000, lambda n: PARSE_KEY(key(*[(100 + i, i) for i in range(n)]))),
    'key: text labels': (1000, lambda n: PARSE_KEY(key(*[('l%d' % i, i) for i in range(n)]))),
    'key: key ID and base IV': (20000, lambda n: PARSE_KEY(key((2, b'k' * n), (5, b'i' * n)))),
    'key: coordinates': (20000, lambda n: PARSE_KEY(enc(Pairs([(1, 2), (3, -7), (-1, 1), (-2, b'x' * n), (-3, b'y' * n)])))),
    'key: type': (2000, lambda n: PARSE_KEY(enc(Pairs([(1, big(n))])))),
    'key: algorithm': (2000, lambda n: PARSE_KEY(enc(Pairs([(1, 2), (3, big(n)), (-1, 1), (-2, b'x' * 32), (-3, b'y' * 32)])))),
    'key: algorithm name': (20000, lambda n: PARSE_KEY(enc(Pairs([(1, 2), (3, 'E' * n), (-1, 1), (-2, b'x' * 32), (-3, b'y' * 32)])))),
    'key: curve': (2000, lambda n: PARSE_KEY(enc(Pairs([(1, 2), (3, -7), (-1, big(n)), (-2, b'x' * 32), (-3, b'y' * 32)])))),
    'key: nested': (2000, lambda n: PARSE_KEY(key((100, Raw(b'\x81' * n + b'\0'))))),
    'key: leftover': (20000, lambda n: PARSE_KEY(key() + b'\0' * n)),
    'key: array': (2000, lambda n: PARSE_KEY(enc([1] * n))),
    'object: certificates': (500, lambda n: PARSE_OBJ(obj('packed', [('alg', -7), ('sig', b's'), ('x5c', [b'c%d' % i for i in range(n)])]))),
    'object: certificates, the last mistyped': (500, lambda n: PARSE_OBJ(obj('packed', [('alg', -7), ('sig', b's'), ('x5c', [b'c%d' % i for i in range(n)] + [1])]))),
    'object: U2F certificates': (500, lambda n: PARSE_OBJ(obj('fido-u2f', [('sig', b's'), ('x5c', [b'c%d' % i for i in range(n)])]))),
    'object: long certificate': (20000, lambda n: PARSE_OBJ(obj('fido-u2f', [('sig', b's' * n), ('x5c', [b'c' * n])]))),
    'object: unknown members of the statement': (1000, lambda n: PARSE_OBJ(obj('packed', [('alg', -7), ('sig', b's')] + [('m%d' % i, 1) for i in range(n)]))),
    'object: members of an empty statement': (1000, lambda n: PARSE_OBJ(obj('none', [('m%d' % i, 1) for i in range(n)]))),
    'object: algorithm of the statement': (2000, lambda n: PARSE_OBJ(obj('packed', [('alg', big(n)), ('sig', b's')]))),
    'object: TPM statement': (20000, lambda n: PARSE_OBJ(obj('tpm', [('ver', '2.0'), ('alg', -7), ('sig', b's' * n), ('certInfo', b'c' * n), ('pubArea', b'p' * n), ('x5c', [b'c'])]))),
    'object: SafetyNet response': (20000, lambda n: PARSE_OBJ(obj('android-safetynet', [('ver', 'v' * n), ('response', b'r.' * n)]))),
    'object: members': (1000, lambda n: PARSE_OBJ(obj(more=[('m%d' % i, 1) for i in range(n)]))),
    'object: format': (20000, lambda n: PARSE_OBJ(obj('f' * n))),
    'object: nested': (4000, lambda n: PARSE_OBJ(b'\x81' * n + b'\0')),
    'object: nested maps': (4000, lambda n: PARSE_OBJ(b'\xa1\x01' * n + b'\0')),
    'object: tags': (4000, lambda n: PARSE_OBJ(b'\xc6' * n + b'\0')),
    'object: chunks': (2000, lambda n: PARSE_OBJ(b'\x5f' + b'\x41a' * n + b'\xff')),
    'object: open maps': (4000, lambda n: PARSE_OBJ(b'\xbf' * n)),
    'object: leftover': (20000, lambda n: PARSE_OBJ(obj() + b'\0' * n)),
    'object: members that name others': (1000, lambda n: PARSE_OBJ(enc(Pairs([('m%d' % i, 1) for i in range(n)])))),
    'credential: client data': (20000, lambda n: PARSE_CRED(credential(clientDataJSON=base64.b64encode(b'x' * n).decode()))),
    'credential: padding': (20000, lambda n: PARSE_CRED(credential(clientDataJSON='=' * n))),
    'credential: not base64': (20000, lambda n: PARSE_CRED(credential(signature='!' * n))),
    'credential: line breaks': (20000, lambda n: PARSE_CRED(credential(signature='AA\r\n' * n))),
    'credential: members': (1000, lambda n: PARSE_CRED(dict({'m%d' % i: i for i in range(n)}, **credential()))),
    'credential: members of the response': (1000, lambda n: PARSE_CRED(credential(**{'m%d' % i: i for i in range(n)}))),
    'credential: ID': (20000, lambda n: PARSE_CRED(dict(credential(), id='x' * n, rawId='A' * n))),
    'credential: type': (20000, lambda n: PARSE_CRED(dict(credential(), type='public-key' * n))),
    'key description: purposes': (200, lambda n: call(decode, refder.key_description(described(purpose=[2] + [3] * n)), asn1Spec=KeyDescription())),
    'key description: challenge': (20000, lambda n: call(decode, refder.key_description(dict(described(), attestationChallenge=b'c' * n)), asn1Spec=KeyDescription())),
    'key description: long numbers': (2000, lambda n: call(decode, refder.key_description(dict(described(), attestationVersion=(1 << 8 * n) - 1)), asn1Spec=KeyDescription())),
    'key description: application': (20000, lambda n: call(decode, refder.key_description(described(attestationApplicationId=b'a' * n)), asn1Spec=KeyDescription())),
    'jsonify: descriptors': (200, lambda n: call(converters.jsonify, creation(1, n).build(user=sim.user_entity(b'u'), challenge=b'c'))),
    'jsonify: parameters': (200, lambda n: call(converters.jsonify, creation(n).build(user=sim.user_entity(b'u'), challenge=b'c'))),
    'jsonify: list': (1000, lambda n: call(converters.jsonify, list(range(n)))),
    'jsonify: mapping': (500, lambda n: call(converters.jsonify, {'member_%d' % i: None if i % 3 else i for i in range(n)})),
    'jsonify: bytes': (20000, lambda n: call(converters.jsonify, b'x' * n)),
    'jsonify: long text': (20000, lambda n: call(converters.jsonify, 'a_' * n)),
    'jsonify: nested': (10, lambda n: call(converters.jsonify, functools.reduce(lambda v, _: [v], range(n), 1))),
    'jsonify: nested mappings': (10, lambda n: call(converters.jsonify, functools.reduce(lambda v, _: {'a_b': v}, range(n), 1))),
    'names: snake case': (1000, lambda n: call(utils.snake_to_camel_case, 'ab_' * n)),
    'names: underscores': (10000, lambda n: call(utils.snake_to_camel_case, '_' * n + 'a')),
    'names: camel case': (1000, lambda n: call(utils.camel_to_snake_case, 'aB' * n)),
    'names: no capitals': (2000, lambda n: call(utils.camel_to_snake_case, 'a' * n)),
    'base64: encoding': (20000, lambda n: call(utils.url_base64_encode, b'\xff' * n)),
    'base64: decoding': (20000, lambda n: call(utils.url_base64_decode, '_-' * n)),
    'builder: descriptors': (500, lambda n: (lambda b: lambda: b.build(user=sim.user_entity(b'u'), challenge=b'c'))(creation(1, n))),
    'builder: parameters': (500, lambda n: (lambda b: lambda: b.build(user=sim.user_entity(b'u'), challenge=b'c'))(creation(n))),
    'builder: allowed': (500, lambda n: (lambda d: lambda: builders.CredentialRequestOptionsBuilder().build(challenge=b'c', allow_credentials=d))([descriptor(i) for i in range(n)])),
    'builder: steps': (200, lambda n: lambda: functools.reduce(lambda b, i: b.timeout(i), range(n), creation(1)).build(user=sim.user_entity(b'u'), challenge=b'c')),
    'verify: data': (20000, lambda n: call(verifiers.verify, parsers.parse_cose_key(key()), _key().sign(b'd' * n), b'd' * n)),
    'verify: signature': (20000, lambda n: call(verifiers.verify, parsers.parse_cose_key(key()), b'\x30' + b's' * n, b'd')),
    'verify: signature of long numbers': (5000, lambda n: call(verifiers.verify, parsers.parse_cose_key(key()), refder.seq(refder.tlv(2, b'\x7f' * n), refder.tlv(2, b'\x7f' * n)), b'd')),
    'COSE: operations': (500, lambda n: call(converters.cose_key, parsers.parse_cose_key(key((4, [2] * n))))),
    'COSE: key ID': (20000, lambda n: call(converters.cose_key, parsers.parse_cose_key(key((2, b'k' * n))))),
}


# whole ceremonies: (smallest size, (rng, world, n) -> case)
def _auth(change):
    def make(rng, w, n):
        e = w.creds[0]
        c = honest_auth(rng, w, e)
        c.omit, c.dressing, c.ignore_clone, c.id_text, c.via_json = False, 0, True, None, False
        c.ad.count = 2 ** 31
        if isinstance(c.ad.ext, list) or c.ad.ext is None:
            c.ad.ext, c.ad.flags = None, c.ad.flags & ~ED
            c.expected_ext = None
        after = change(c, n, e)
        c.seal(rng, e.key)
        if callable(after):
            after()
        return c
    return make


def _reg(change, fmt='none'):
    def make(rng, w, n):
        c, k = att.honest_reg(rng, w, fmt, _key() if fmt == 'fido-u2f' else None)
        c.omit, c.dressing, c.id_text, c.via_json = False, 0, None, False
        change(rng, c, k, n)
        return c
    return make


def _set(**values):
    def change(c, n, e):
        for k, v in values.items():
            setattr(c, k, v(n))
        if 'expected_challenge' in values:
            c.cd_challenge = sim.b64u(c.expected_challenge)
    return change


def _members(rng, c, k, n):
    c.seal(rng)
    c.att_obj = refcbor.enc(Pairs([('fmt', 'none'), ('attStmt', {}), ('authData', c.ad_bytes)] + [('m%d' % i, 1) for i in range(n)]))


def _chain(rng, c, k, n):
    if c.stmt:
        c.stmt = dict(c.stmt, x5c=[c.stmt['x5c'][0]] + [att.plain_cert(att.SimKeyPool.att(rng))] * n)
    c.seal_object()


def _purposes(rng, c, k, n):
    kd = att.honest_key_description(rng, sim.sha256(c.cd_bytes))
    kd['teeEnforced'], kd['softwareEnforced'] = dict(origin=0, purpose=[3] * n + [2]), {}
    att.android_statement(rng, c, k, kd)
    c.seal_object()


def _software(rng, c, k, n):
    kd = att.honest_key_description(rng, sim.sha256(c.cd_bytes))
    kd['teeEnforced'], kd['softwareEnforced'] = dict(origin=0, purpose=[2]), dict(purpose=[3] * n, digest=[4] * n)
    att.android_statement(rng, c, k, kd)
    c.seal_object()


CEREMONIES = {
    'authentication: allowed credentials': (1000, _auth(lambda c, n, e: setattr(c, 'allow', [b'other %d' % i for i in range(n)] + [c.raw_id]))),
    'authentication: credential not allowed': (1000, _auth(lambda c, n, e: setattr(c, 'allow', [b'other %d' % i for i in range(n)]))),
    'authentication: expected origins': (200, _auth(lambda c, n, e: setattr(c, 'expected_origin', ['https://h%d.example' % i for i in range(n)] + [c.cd_origin]))),
    'authentication: expected origins, none right': (200, _auth(lambda c, n, e: setattr(c, 'expected_origin', ['https://h%d.example' % i for i in range(n)]))),
    'authentication: challenge': (20000, _auth(_set(expected_challenge=lambda n: b'c' * n))),
    'authentication: another challenge': (20000, _auth(lambda c, n, e: (setattr(c, 'expected_challenge', b'c' * n), setattr(c, 'cd_challenge', sim.b64u(b'c' * (n - 1) + b'd')))[:0])),
    'authentication: signature': (20000, _auth(lambda c, n, e: lambda: setattr(c, 'signature', c.signature + b's' * n))),
    'authentication: origin': (20000, _auth(lambda c, n, e: setattr(c, 'cd_origin', 'https://' + 'a' * n))),
    'authentication: user': (20000, _auth(lambda c, n, e: (setattr(c, 'user', b'u' * n), setattr(c, 'user_handle', b'u' * n), setattr(e, 'user_id', b'u' * n))[:0])),
    'authentication: RP ID': (20000, _auth(lambda c, n, e: (setattr(c, 'rp', 'a' * n), setattr(e, 'rp_id', 'a' * n), setattr(c.ad, 'rp_hash', sim.sha256(b'a' * n)))[:0])),
    'authentication: token binding': (20000, _auth(lambda c, n, e: (setattr(c, 'cd_tb', ('present', 'i' * n)), setattr(c, 'token_binding', ('present', 'i' * n)))[:0])),
    'authentication: another token binding': (20000, _auth(lambda c, n, e: (setattr(c, 'cd_tb', ('present', 'i' * n)), setattr(c, 'token_binding', ('present', 'j' * n)))[:0])),
    'authentication: extensions': (500, _auth(lambda c, n, e: (setattr(c.ad, 'ext', Pairs([('exts', ['e%d' % i for i in range(n)])])), setattr(c.ad, 'flags', c.ad.flags | ED))[:0])),
    'registration: members of the object': (1000, _reg(_members)),
    'registration: certificates': (50, _reg(_chain, 'fido-u2f')),
    'registration: chain': (50, _reg(_chain, 'android-key')),
    'registration: purposes': (100, _reg(_purposes, 'android-key')),
    'registration: software-enforced sets': (100, _reg(_software, 'android-key')),
}


def observed(name, make, smallest):
    """Three sizes; what grows out of proportion, or None."""
    sizes = [smallest, 4 * smallest, 16 * smallest]
    fns = [make(n) for n in sizes]
    for f in fns:
        run(f)
    lines = []
    for f in fns:
        lines.append(Meter.lines(f))
        if lines[-1] > CAP:
            return 'more than %d lines of Python for size %d' % (CAP, sizes[len(lines) - 1]), lines
    for attempt in range(3):
        a, b, c = lines
        if not (c - b > 4000 and c - b > 8 * max(b - a, 200)):
            break
        lines = [min(x, Meter.lines(f)) if f is fns[2] else Meter.lines(f) for x, f in zip(lines, fns)]
    else:
        return 'lines of Python grow out of proportion', lines
    mem = [memory(f) for f in fns]
    for attempt in range(3):
        a, b, c = mem
        if not (c - b > 3_000_000 and c - b > 9 * max(b - a, 60_000)):
            break
        mem = [min(x, memory(f)) if f is fns[2] else memory(f) for x, f in zip(mem, fns)]
    else:
        return 'memory grows out of proportion', mem
    t = [seconds(f, 3) for f in fns]
    for attempt in range(4):
        if not (t[2] > .03 and t[2] - t[1] > 9 * max(t[1] - t[0], .002)):
            return None, (lines, mem)
        t = [min(x, seconds(f, 5)) if i == 2 else seconds(f, 5) for i, (x, f) in enumerate(zip(t, fns))]
    return 'processor time grows out of proportion', t


NAMES = sorted(FAMILIES)


def growth(ctx, rng, index):
    for name in NAMES[index % 24::24]:
        smallest, make = FAMILIES[name]
        n = max(5, int(smallest * rng.uniform(.6, 1.2)))
        what, seen = observed(name, make, n)
        if what:
            ctx.violation('%s (%s at sizes %d, %d, %d): %r' % (what, name, n, 4 * n, 16 * n, seen))
        ctx.judged((name, n))
        ctx.count('family:' + name.split(':')[0])
        ctx.sample(family=name, n=n, seen=seen)


def ceremonies(ctx, rng, index):
    name = sorted(CEREMONIES)[index % len(CEREMONIES)]
    smallest, make = CEREMONIES[name]
    smallest = max(5, int(smallest * rng.uniform(.6, 1.2)))
    w = World(rng, users=1, creds=1, registrar=MonitoredRegistrar(), suites=[('P-256', 'ES256')], strict=True)

    state = rng.getstate()

    def at(n):
        rng.setstate(state)     # the same ceremony but for the size
        c = make(rng, w, n)
        kw = c.kwargs()
        handle = w.backend.handle_credential_assertion if c.kind == 'auth' else w.backend.handle_credential_attestation

        def go():
            w.registrar.arm(None)
            return handle(**kw)
        return go
    what, seen = observed(name, at, smallest)
    if what:
        ctx.violation('%s (%s from size %d on): %r' % (what, name, smallest, seen))
    # a registrar is asked as often as for any other
    for n in (1, smallest):
        go = at(n)
        run(go)
        if len(w.registrar.events) > 2:
            ctx.violation('the registrar was called %d times in one ceremony (%s)' % (len(w.registrar.events), name))
    ctx.judged((name, smallest))
    ctx.count('ceremony:' + name.split(':')[0])


# --- numbers are not sizes ---------------------------------------------------------------------------------------------
MAGNITUDES = {
    'signature counter': lambda n: PARSE_AD(b'r' * 32 + b'\x01' + n.to_bytes(4, 'big')),
    'signature counter with key': lambda n: PARSE_AD(AuthData(b'r' * 32, UP | AT, n, (b'a' * 16, b'id', _key().cose()), None).encode()),
    'credential ID length': lambda n: PARSE_AD(b'r' * 32 + b'\x41\0\0\0\1' + b'a' * 16 + (n % 65536).to_bytes(2, 'big') + b'x' * 20),
    'port': lambda n: PARSE_ORIGIN('https://example.com:%d' % (n % 65536)),
    'key type': lambda n: PARSE_KEY(enc(Pairs([(1, Raw(head(0, n, 4)))]))),
    'algorithm': lambda n: PARSE_KEY(enc(Pairs([(1, 2), (3, Raw(head(1, n, 4))), (-1, 1), (-2, b'x' * 32), (-3, b'y' * 32)]))),
    'curve': lambda n: PARSE_KEY(enc(Pairs([(1, 2), (3, -7), (-1, Raw(head(0, n, 4))), (-2, b'x' * 32), (-3, b'y' * 32)]))),
    'key operation': lambda n: PARSE_KEY(key((4, [Raw(head(0, n, 4))]))),
    'key label': lambda n: PARSE_KEY(key((Raw(head(0, n + 100, 4)), 1))),
    'user verification method': lambda n: PARSE_AD(ad(ext=Pairs([('uvm', [[Raw(head(0, n, 4))] * 3])]))),
    'location': lambda n: PARSE_AD(ad(ext=Pairs([('loc', Pairs([('accuracy', Raw(head(0, n, 4))), ('altitude', float(n))]))]))),
    'algorithm of the statement': lambda n: PARSE_OBJ(obj('packed', [('alg', Raw(head(0, n, 4))), ('sig', b's')])),
    'number in client data': lambda n: PARSE_CD(cd(x=n)),
    'time limit': lambda n: (lambda: converters.jsonify(creation(1).timeout(n).build(user=sim.user_entity(b'u'), challenge=b'c'))),
    'number': lambda n: call(converters.jsonify, [n, -n, float(n)]),
    'authentication validity': lambda n: call(decode, refder.key_description(described(userAuthType=n, authTimeout=n, osVersion=n, keySize=n)), asn1Spec=KeyDescription()),
    'attestation version': lambda n: call(decode, refder.key_description(dict(described(), attestationVersion=n, keymasterVersion=n)), asn1Spec=KeyDescription()),
}


def magnitude(ctx, rng, index):
    for name in sorted(MAGNITUDES):
        sizes = [3, 250 + rng.randrange(5), 60000 + rng.randrange(5000), 20_000_000 + rng.randrange(10000)]
        fns = [MAGNITUDES[name](n) for n in sizes]
        for f in fns[:2]:
            run(f)
        seen = []
        for n, f in zip(sizes, fns):
            seen.append(Meter.lines(f, 200_000))
            if seen[-1] > 4 * min(seen) + 1500:
                ctx.violation('the magnitude of a number decides how much is done (%s): %r lines of Python for %r' % (name, seen, sizes[:len(seen)]))
                break
        else:
            mem = [memory(f) for f in fns]
            if max(mem) > 4 * min(mem) + 200_000:
                ctx.violation('the magnitude of a number decides how much memory is used (%s): %r bytes for %r' % (name, mem, sizes))
            t = [seconds(f, 3) for f in fns]
            if t[-1] > .1 + 10 * t[0] and seconds(fns[-1], 5) > .1 + 10 * t[0]:
                ctx.violation('the magnitude of a number decides how long it takes (%s): %r seconds for %r' % (name, t, sizes))
        ctx.judged((name, tuple(sizes)))
        ctx.count('magnitude')


# --- shared values -------------------------------------------------------------------------------------------------------
def laughs(d, width=2, base=0):
    """A CBOR array of arrays, each of which holds the next one `width` times over; a few bytes for width ** d members."""
    first = (b'\xd8\x1c' + head(4, width)) * d + b'\xd8\x1c\x81\0'
    return Raw(first + b''.join((b'\xd8\x1d' + enc(base + i)) * (width - 1) for i in range(d, 0, -1)))


SHARED = {
    'key type': lambda v: PARSE_KEY(enc(Pairs([(1, v)]))),
    'key type of a decoded key': lambda v: (lambda d: call(parsers.parse_cose_key, d))(run(lambda: __import__('cbor2').loads(enc(Pairs([(1, v), (3, -7)]))))),
    'algorithm': lambda v: PARSE_KEY(enc(Pairs([(1, 2), (3, v), (-1, 1), (-2, b'x' * 32), (-3, b'y' * 32)]))),
    'curve': lambda v: PARSE_KEY(enc(Pairs([(1, 2), (3, -7), (-1, v), (-2, b'x' * 32), (-3, b'y' * 32)]))),
    'coordinate': lambda v: PARSE_KEY(enc(Pairs([(1, 2), (3, -7), (-1, 1), (-2, v), (-3, b'y' * 32)]))),
    'key ID': lambda v: PARSE_KEY(key((2, v))),
    'base IV': lambda v: PARSE_KEY(key((5, v))),
    'key operations': lambda v: PARSE_KEY(key((4, v))),
    'key operation': lambda v: PARSE_KEY(key((4, [2, v]))),
    'key operation after an unknown one': lambda v: PARSE_KEY(key((4, [99, v]))),
    'other label': lambda v: PARSE_KEY(key((100, v))),
    'key in authenticator data': lambda v: PARSE_AD(ad(key=v)),
    'label in authenticator data': lambda v: PARSE_AD(ad(key=key((100, v)))),
    'operation in authenticator data': lambda v: PARSE_AD(ad(key=key((4, [99, v])))),
    'extensions': lambda v: PARSE_AD(ad(ext=v)),
    'unknown extension': lambda v: PARSE_AD(ad(ext=Pairs([('x', v)]))),
    'object': lambda v: PARSE_OBJ(bytes(v)),
    'format': lambda v: PARSE_OBJ(obj(v)),
    'authenticator data': lambda v: PARSE_OBJ(enc(Pairs([('fmt', 'none'), ('attStmt', {}), ('authData', v)]))),
    'statement': lambda v: PARSE_OBJ(obj('packed', v)),
    'member of the object': lambda v: PARSE_OBJ(obj(more=[('x', v)])),
    'unknown member of the statement': lambda v: PARSE_OBJ(obj('none', [('x', v)])),
}
for _n in ('appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm', 'biometricPerfBounds'):
    SHARED['extension ' + _n] = lambda v, _n=_n: PARSE_AD(ad(ext=Pairs([(_n, v)])))
for _n in ('latitude', 'heading'):
    SHARED['location ' + _n] = lambda v, _n=_n: PARSE_AD(ad(ext=Pairs([('loc', Pairs([(_n, v)]))])))
for _f, _ms in (('packed', ('alg', 'sig', 'x5c', 'ecdaaKeyId')), ('tpm', ('ver', 'alg', 'sig', 'x5c', 'certInfo', 'pubArea', 'ecdaaKeyId')), ('android-key', ('alg', 'sig', 'x5c')), ('android-safetynet', ('ver', 'response')), ('fido-u2f', ('sig', 'x5c'))):
    for _m in _ms:
        SHARED['%s of %s' % (_m, _f)] = lambda v, _f=_f, _m=_m: PARSE_OBJ(obj(_f, [(k, {'alg': -7, 'ver': '2.0', 'x5c': [b'c']}.get(k, b's')) if k != _m else (k, v) for k in dict.fromkeys(('alg', 'sig', 'x5c', _m)) if k in _ms or k == _m]))


def shared(ctx, rng, index):
    for name in sorted(SHARED)[index % 6::6]:
        width = rng.choice([2, 2, 3, 5])
        depths = [d for d in (2, 7, 11, 14, 17, 19, 20, 21) if width ** d <= 2_500_000]
        seen = []
        for d in depths:
            f = SHARED[name](laughs(d, width))
            e = run(f)
            lines = Meter.lines(f, 500_000)
            if lines > 20_000:
                ctx.violation('work grows exponentially with values that CBOR shares (%s): %d lines of Python for %d levels' % (name, lines, d))
                break
            t = seconds(f, 3)
            text = len(str(e)) if isinstance(e, Exception) else 0
            seen.append((d, t, text))
            if text > 20_000 or (t > .05 and t > 30 * seen[0][1] and seconds(f, 5) > .05):
                ctx.violation('work grows exponentially with values that CBOR shares (%s, %d at a time)' % (name, width), levels_seconds_message=short(seen))
                break
        else:
            mem = memory(f)
            if mem > 2_000_000:
                ctx.violation('memory grows exponentially with values that CBOR shares (%s, %d at a time): %d bytes' % (name, width, mem))
        ctx.judged((name, width))
        ctx.count('shared')


# --- nothing piles up ------------------------------------------------------------------------------------------------
def pile(rng, which, w):
    """An endless supply of distinct inputs."""
    i = rng.randrange(10 ** 6)
    key_ = parsers.parse_cose_key(key())
    while True:
        i += 1
        t = '%012d' % i
        if which == 'client data':
            yield call(parsers.parse_client_data, cd(challenge=t, origin='https://h%s.example' % t))
        elif which == 'origin':
            yield call(parsers.parse_origin, 'https://h%s.example' % t)
        elif which == 'key':
            yield call(parsers.parse_cose_key, key((2, t.encode())))
        elif which == 'authenticator data':
            yield call(parsers.parse_authenticator_data, ad(cid=t.encode()))
        elif which == 'object':
            yield call(parsers.parse_attestation_object, obj(auth=ad(cid=t.encode())))
        elif which == 'credential':
            yield call(parsers.parse_public_key_credential, dict(credential(), id=t))
        elif which == 'options':
            yield lambda t=t: converters.jsonify(builders.CredentialRequestOptionsBuilder().rp_id(t).build(challenge=t.encode()))
        elif which == 'names':
            yield lambda t=t: (utils.snake_to_camel_case('a_' + t), utils.camel_to_snake_case('aB' + t), utils.url_base64_decode(t))
        elif which == 'signature':
            yield call(verifiers.verify, key_, t.encode(), t.encode())
        elif which == 'unknown credential':
            c = T.PublicKeyCredential(id=t, type='public-key', raw_id=t.encode(), response=T.AuthenticatorAssertionResponse(
                client_data_JSON=cd(challenge=t, origin='https://example.com'), authenticator_data=b'r' * 32 + b'\1\0\0\0\1', signature=t.encode(), user_handle=t.encode()))
            yield call(w.backend.handle_credential_assertion, credential=c, expected_challenge=base64.b64decode(t + '===', b'-_'), expected_origin='https://example.com', rp=sim.rp_entity('example.com'))
        else:
            c = T.PublicKeyCredential(id=t, type='public-key', raw_id=t.encode(), response=T.AuthenticatorAttestationResponse(
                client_data_JSON=cd(type='webauthn.create', challenge=t, origin='https://example.com'), attestation_object=obj(auth=AuthData(sim.sha256(b'example.com'), UP | AT, 1, (b'a' * 16, t.encode(), key()), None).encode())))
            yield call(w.backend.handle_credential_attestation, credential=c, expected_challenge=base64.b64decode(t + '===', b'-_'), expected_origin='https://example.com', user=T.PublicKeyCredentialUserEntity(name='u', id=t.encode(), display_name='U'), rp=sim.rp_entity('example.com'))


PILES = ['client data', 'origin', 'key', 'authenticator data', 'object', 'credential', 'options', 'names', 'signature', 'unknown credential', 'registration']


class Forgetful(MonitoredRegistrar):
    """Keeps no record of its own, so that whatever piles up is not the harness's."""

    def register_credential_attestation(self, *a, **kw):
        return None

    def register_credential_assertion(self, *a, **kw):
        return None

    def get_credential_data(self, credential_id):
        return None


def held(ctx, rng, index):
    which = PILES[index % len(PILES)]
    w = World(rng, users=1, creds=1, registrar=Forgetful(), suites=[('P-256', 'ES256')], strict=True)
    supply = pile(rng, which, w)
    n = 2500 if ctx.tier == 'quick' else 6000

    def some(k):
        for f in (next(supply) for _ in range(k)):
            run(f)
        f = None
        gc.collect()
        return tracemalloc.get_traced_memory()[0]
    cost = [Meter.lines(next(supply)) for _ in range(40)][20:]
    tracemalloc.start()
    try:
        marks = [some(n)]                # whatever keeps a bounded number of results is full by now
        marks += [some(n // 2), some(n // 2)]
    finally:
        tracemalloc.stop()
    late = [Meter.lines(next(supply)) for _ in range(20)]
    if marks[2] - marks[0] > 45 * n and marks[2] - marks[1] > 18 * n and marks[1] - marks[0] > 18 * n:
        ctx.violation('every distinct input leaves something behind (%s): %d bytes after %d, %d after %d' % (which, marks[0], n, marks[2], 2 * n))
    if min(late) > 3 * max(cost) + 300:
        ctx.violation('later inputs cost more than earlier ones (%s): %r and %r lines of Python' % (which, cost[:5], late[:5]))
    ctx.judged((which, index))
    ctx.count('piled:' + which)
    ctx.sample(which=which, marks=marks, lines=(max(cost), min(late)))


KINDS = {'growth': (growth, 48, 480), 'ceremonies': (ceremonies, 36, 360), 'magnitude': (magnitude, 6, 60), 'shared': (shared, 12, 120), 'held': (held, 22, 110)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'family:client data': 30, 'family:origin': 25, 'family:key': 20, 'family:object': 25, 'family:extensions': 15, 'ceremony:authentication': 20, 'ceremony:registration': 8, 'magnitude': 60, 'shared': 60,
            **{'piled:' + p: 1 for p in PILES}}
