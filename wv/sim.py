"""Simulated clients and authenticators, the reference ceremony model and the monitored registrar."""
import base64
import functools
import hashlib
import json
import threading
import zlib

from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.parsers import parse_cose_key, parse_public_key_credential
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar

from wv import magic, refcbor
from wv.core import dump
from wv.keys import SimKey, pick_key, SUITES
from wv.origins import gen_origin, match, variant
from wv.refcbor import Pairs

UP, RFU1, UV, AT, ED = 1, 2, 4, 64, 128
EXTS = ['appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm', 'biometricPerfBounds']
EXT_MEMBER = {  # wire name -> ExtensionIdentifier member name
    'appid': 'APPID', 'txAuthSimple': 'TX_AUTH_SIMPLE', 'txAuthGeneric': 'TX_AUTH_GENERIC', 'authnSel': 'AUTHN_SEL',
    'exts': 'EXTS', 'uvi': 'UVI', 'loc': 'LOC', 'uvm': 'UVM', 'biometricPerfBounds': 'BIOMETRIC_PERF_BOUNDS'}
EXT_ATTR = {k: v.lower() for k, v in EXT_MEMBER.items()}
COORDS = ['latitude', 'longitude', 'altitude', 'accuracy', 'altitudeAccuracy', 'heading', 'speed']


def sha256(b):
    return hashlib.sha256(b).digest()


def b64u(b, pad=False):
    s = base64.urlsafe_b64encode(b).decode()
    return s if pad else s.rstrip('=')


def rbytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


# ---------------------------------------------------------------------------
# Values
# ---------------------------------------------------------------------------
# texts that some normalisation, trimming or re-encoding would change
ODD_TEXTS = ['e\u0301', '\u00e9', '\u212b', '\ufb01', '\uff21', '\u00df', '\u0130', '\u1e9e', ' a', 'a ', '\ta', 'a\n', 'a\r\nb', 'a\rb', 'a\0', '\0', '\ufeffa', 'a\ufeff', '\u200ba', 'a\u00ad', '\u2028', '\u00a0a', 'a  b', '\x85', '\x1f', '\x7f', '\ufffd', '\uffff', '\U0010ffff',
             '%41', '&amp;', '<b>', '\\u0041', '{}', '%s', 'null', 'None', 'true', '0', '1.0', '-0', '0x10', "b'a'", 'YWJj', 'Z\u0308\u0323', '\u1100\u1161', '\u0958', '\u2126', "'", '"', '`', '\u05d0a', '\u202ea']


def gen_text(rng, maxlen=12):
    if magic.chance(rng):
        return magic.text(rng)
    r = rng.random()
    if r < .15:
        return ''
    if r < .3:
        return rng.choice(ODD_TEXTS)
    alphabet = 'abcXYZ019 _-' if r < .7 else 'a\u00e9\u4e2d\U0001f511"\\\n\t/\u2028'
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, maxlen)))


def gen_ext_value(rng, name):
    """A well-typed output for extension `name`, falsy values included."""
    if name in ('appid', 'authnSel', 'biometricPerfBounds'):
        return rng.random() < .5
    if magic.chance(rng):
        n = magic.size(rng, 3000) or 0
        if name in ('txAuthGeneric', 'uvi'):
            return rng.choice([magic.data(rng), rbytes(rng, n)])
        if name == 'txAuthSimple':
            return rng.choice([magic.text(rng), 'x' * n])
        if name == 'exts':
            return rng.choice([[magic.text(rng), gen_text(rng)], ['e%d' % i for i in range(n)], ['e' * n]])
        if name == 'loc':
            return {c: magic.real(rng) for c in COORDS if rng.random() < .6}
        if name == 'uvm':
            return rng.choice([[[magic.number(rng) or 0, n], [n]], [[i] for i in range(n)], [list(range(n))]])
    if name == 'txAuthSimple':
        return gen_text(rng)
    if name in ('txAuthGeneric', 'uvi'):
        return rbytes(rng, rng.choice([0, 1, 16, 32, 300]) if rng.random() < .96 else rng.choice([1025, 4097, 70000]))
    if name == 'exts':
        if rng.random() < .04:
            return ['extension-%d' % i * rng.choice([1, 4]) for i in range(rng.choice([25, 300, 2000]))]
        return [gen_text(rng) for _ in range(rng.choice([0, 1, 3]))]
    if name == 'loc':
        names = [c for c in COORDS if rng.random() < .6]
        return {c: rng.choice([0, 0.0, -1, 12.5, -90.25, 1e300, 7, 180]) for c in names}
    if name == 'uvm':
        return [[rng.choice([0, 1, 2, 2 ** 31, 2 ** 40]) for _ in range(rng.choice([0, 1, 3]))]
                for _ in range(rng.choice([0, 1, 3]))]
    raise KeyError(name)


def gen_exts(rng, p=.35):
    names = [e for e in EXTS if rng.random() < p]
    rng.shuffle(names)
    return Pairs((n, gen_ext_value(rng, n)) for n in names)


def gen_challenge(rng):
    if magic.chance(rng):
        n = magic.size(rng)
        return magic.data(rng) if n is None or rng.random() < .4 else rbytes(rng, n)
    n = rng.choice([0, 1, 2, 3, 4, 15, 16, 16, 31, 32, 32, 32, 33, 47, 63, 64, 65, 127, 128, 129, 300, 300])
    if n == 300 and rng.random() < .3:
        n = rng.choice([513, 1025, 3073, 4097, 70000])
    r = rng.random()
    if r < .7:
        return rbytes(rng, n)
    if r < .8:
        return bytes(n)
    if r < .9:
        return b'\xff' * n
    return bytes(rng.choice(b'\xfb\xef\xbe\xff\x3e\x3f\x00abc') for _ in range(n))


def near(rng, b):
    """A byte string different from but close to b."""
    opts = [lambda: b + b'\0', lambda: b'\0' + b, lambda: b + rbytes(rng, 1), lambda: b + b, lambda: rbytes(rng, len(b) or 1),
            lambda: b + rbytes(rng, 16), lambda: b + b' ']
    if b:
        i = rng.randrange(len(b))
        opts += [lambda: b[:-1], lambda: b[1:], lambda: b[:len(b) // 2], lambda: b'',
                 lambda: b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:],
                 lambda: b[:-1] + bytes([b[-1] ^ 1]), lambda: bytes([b[0] ^ 0x80]) + b[1:],
                 lambda: b[:i] + b[i + 1:], lambda: b[::-1], lambda: b.swapcase(), lambda: b.rstrip(b'\0'),
                 lambda: b[:32] if len(b) > 32 else b[:-1], lambda: b[:-1] + bytes([b[-1] ^ 0x80]),
                 lambda: base64.b64encode(b), lambda: b.hex().encode(), lambda: sha256(b),
                 lambda: bytes(x ^ 0x20 if chr(x).isalpha() and x < 128 else x for x in b)]
    for _ in range(20):
        v = rng.choice(opts)()
        if v != b:
            return v
    return b + b'x'


# ---------------------------------------------------------------------------
# Wire encodings
# ---------------------------------------------------------------------------
class AuthData:
    def __init__(self, rp_hash, flags, count, att=None, ext=None, tail=b''):
        self.rp_hash, self.flags, self.count = rp_hash, flags, count
        self.att, self.ext, self.tail = att, ext, tail    # att: (aaguid, cred_id, key cbor bytes)

    def encode(self):
        out = self.rp_hash + bytes([self.flags]) + self.count.to_bytes(4, 'big')
        if self.flags & AT:
            aaguid, cid, key = self.att
            out += aaguid + len(cid).to_bytes(2, 'big') + cid + key
        if self.flags & ED:
            out += refcbor.enc(self.ext)
        return out + self.tail


_SAFE = ('type', 'challenge', 'origin', 'tokenBinding')


def client_json(rng, type_, challenge, origin, tb, style=None):
    """Serialise client data in one of many equivalent ways; tb is None, (status, id or None) or ('raw', any JSON value)."""
    members = [('type', type_), ('challenge', challenge), ('origin', origin)]
    if tb is not None:
        members.append(('tokenBinding', tb[1] if tb[0] == 'raw' else {'status': tb[0]} if tb[1] is None else {'status': tb[0], 'id': tb[1]}))
    style = style if style is not None else (rng.random() if rng else 0)
    if style < .5:
        return json.dumps(dict(members), separators=(',', ':')).encode()
    if rng.random() < .5:
        rng.shuffle(members)
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        k = rng.choice(['crossOrigin', 'hashAlgorithm', 'extra', 'Type', 'CHALLENGE', 'origins', 'clientExtensions',
                        'new_keys_may_be_added_here', 'types', 'chall', '', 'token_binding'])
        v = rng.choice([True, None, 'webauthn.create', 'webauthn.get', {}, [1, 2], 3.5, {'a': [None]}, 'x' * 20])
        if magic.chance(rng):
            k, v = rng.choice([(magic.word(rng), v), (k, magic.text(rng)), (k, magic.number(rng)), (magic.text(rng), {})])
            if k in _SAFE:
                continue
        members.insert(rng.randint(0, len(members)), (k, v))
    if rng.random() < .04 or magic.chance(rng):
        n = magic.size(rng, 3000) or rng.choice([10, 60, 300])
        r = rng.random()
        if r < .4:
            members[rng.randint(0, len(members)):0] = [('m%d' % i, i) for i in range(n)]
        elif r < .6:
            members.append(('list', [[i] for i in range(n)]))
        elif r < .7:
            members.append(('deep', functools.reduce(lambda v, _: [v] if n % 2 else {'a': v}, range(min(n, 150)), 1)))
        elif r < .85:
            members.append(('text', (magic.word(rng) or 'x')[:8] * n))
        else:
            members.append(('m' * n, rng.choice('[]{}",:\\\'') * n))
    if rng.random() < .04:
        members.append(('padding', 'x' * rng.choice([1000, 5000, 70000, 140000])))
    r = rng.random()
    if r < .3:
        text = json.dumps(dict(members))
    elif r < .5:
        text = json.dumps(dict(members), ensure_ascii=False)
    elif r < .7:
        text = json.dumps(dict(members), indent=rng.choice([1, 4]))
    elif r < .8:
        text = '  \n' + json.dumps(dict(members)) + ' \r\n'
    else:
        # escape some letters of every string as \uXXXX: same JSON value, other bytes
        text = json.dumps(dict(members), separators=(',', ':'))
        text = text.replace('webauthn', '\\u0077ebauthn').replace('://', ':\\/\\/')
    if any('\ud800' <= ch <= '\udfff' for ch in text):  # only escapes can carry a lone surrogate in valid UTF-8
        text = json.dumps(dict(members))
    return text.encode('utf-8')


# ---------------------------------------------------------------------------
# Monitored registrar
# ---------------------------------------------------------------------------
class Entry:
    """What the harness knows about a registered credential."""

    def __init__(self, cid, key, user_id, rp_id, count, cpk=None):
        self.cid, self.key, self.user_id, self.rp_id, self.count = cid, key, user_id, rp_id, count
        self.cpk = cpk
        self._data = None

    def data(self):
        """The same object for as long as nothing changed, as a registrar that keeps such objects would answer."""
        now = (self.cpk, self.count, self.user_id, self.rp_id)
        if self._data is None or any(a is not b for a, b in zip(now, self._data[0])):
            self._data = now, CredentialData(
                credential_public_key=self.cpk, signature_count=self.count,
                user_entity=user_entity(self.user_id, 'registered'),
                rp_entity=rp_entity(self.rp_id) if self.rp_id is not None else None)
        return self._data[1]


def pick(seq, *parts):
    """A fixed but varied choice: the entity given and the one stored for the same ID differ in their other members."""
    return seq[zlib.crc32(repr(parts).encode('utf-8', 'surrogatepass')) % len(seq)]


@functools.lru_cache(maxsize=256)
def user_entity(uid, name='user'):
    return T.PublicKeyCredentialUserEntity(name=pick([name, '', 'Ann'], uid, name, 0), id=uid, display_name=pick([name.upper(), '', 'Ann'], uid, name, 1),
                                           icon=pick([None, None, 'https://example.com/%s.png' % name, '', 'https://example.com/icon.png', 'https://example.com/icon.png'], uid, name, 2))


@functools.lru_cache(maxsize=256)
def rp_entity(rid, name='rp'):
    return T.PublicKeyCredentialRpEntity(name=pick([name, '', 'Shop'], rid, name, 0), id=rid, icon=pick([None, None, 'https://example.com/%s.png' % name, '', 'https://example.com/icon.png', 'https://example.com/icon.png'], rid, name, 2))


class Fault:
    """A registrar misbehaviour: method -> ('return', value) or ('raise', exception)."""

    def __init__(self, method=None, how=None, value=None):
        self.method, self.how, self.value = method, how, value


class MonitoredRegistrar(CredentialsRegistrar):
    """Stores credentials in plain dicts and records every call in a per-thread event log."""

    def __init__(self):
        self.store = {}
        self._tls = threading.local()
        self.update = True

    @property
    def events(self):
        if not hasattr(self._tls, 'events'):
            self._tls.events = []
        return self._tls.events

    @property
    def fault(self):
        return getattr(self._tls, 'fault', None)

    def arm(self, fault):
        self._tls.fault = fault
        self.events.clear()

    def _effect(self, method, normal):
        f = self.fault
        if f is not None and f.method == method:
            if f.how == 'raise':
                raise f.value
            return f.value
        return normal() if callable(normal) else normal

    def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
        self.events.append(('register_attestation', dict(
            credential=credential, att=att, att_type=att_type, user=user, rp=rp, trusted_path=trusted_path)))
        return self._effect('register', None)

    def register_credential_assertion(self, credential, authenticator_data, user, rp):
        self.events.append(('register_assertion', dict(
            credential=credential, authenticator_data=authenticator_data, user=user, rp=rp)))
        return self._effect('register', None)

    def get_credential_data(self, credential_id):
        self.events.append(('get', dict(credential_id=credential_id)))
        return self._effect('get', lambda: self.store[credential_id].data() if credential_id in self.store else None)


# ---------------------------------------------------------------------------
# Ceremony cases
# ---------------------------------------------------------------------------
class Case:
    """One ceremony attempt: RP side arguments, client response parts, and fault plan."""
    kind = None                      # 'auth' or 'reg'

    def __init__(self, **kw):
        self.expected_challenge = b''
        self.expected_origin = 'https://example.com'
        self.token_binding = None         # expected: None or (status, id)
        self.require_uv = False
        self.expected_ext = None          # None or list of wire names
        self.cd_type = None
        self.cd_challenge = None          # string on the wire
        self.cd_origin = 'https://example.com'
        self.cd_tb = None
        self.cd_style = None
        self.ad = None
        self.fault = None
        self.cd_bytes = None              # sent
        self.ad_bytes = None              # sent
        self.via_json = False
        self.id_text = self.type_text = None   # the credential's textual id and type, where they are odd
        self.omit = False                 # leave out arguments that have their default value
        self.dressing = 0                 # how collections are given: kinds of container, transports of descriptors
        self.note = 'honest'
        self.__dict__.update(kw)

    def describe(self):
        d = {}
        for k, v in sorted(self.__dict__.items()):
            if k in ('ad', 'credential'):
                continue
            d[k] = v.hex() if isinstance(v, bytes) and len(v) < 400 else repr(v)[:200]
        if self.ad is not None:
            d['ad'] = {'flags': self.ad.flags, 'count': self.ad.count, 'rp_hash': self.ad.rp_hash.hex(),
                       'ext': repr(self.ad.ext)[:200]}
        return d

    # -- build the response ------------------------------------------------
    def seal_client_data(self, rng):
        self.cd_bytes = client_json(rng, self.cd_type, self.cd_challenge, self.cd_origin, self.cd_tb, self.cd_style)

    def common_kwargs(self):
        exp_ext = None
        if self.expected_ext is not None:
            exp_ext = (set, frozenset, set)[self.dressing % 3](T.ExtensionIdentifier[EXT_MEMBER[e]] for e in self.expected_ext)
        tb = None
        if self.token_binding is not None:
            tb = T.TokenBinding(status=T.TokenBindingStatus[self.token_binding[0].upper()], id=self.token_binding[1])
        return dict(expected_challenge=self.expected_challenge, expected_origin=self.expected_origin,
                    token_binding=tb, require_user_verification=self.require_uv, expected_extensions=exp_ext)

    def defaults_left_out(self, kw):
        if self.omit:
            for k in ('token_binding', 'expected_extensions', 'rp', 'user', 'allow_credentials'):
                if k in kw and kw[k] is None:
                    del kw[k]
            for k in ('require_user_verification', 'ignore_clone_error'):
                if kw.get(k) is False:
                    del kw[k]
        return kw

    # -- reference decision shared by both ceremonies --------------------------
    def common_reasons(self, rp_id):
        r, unspec = set(), set()
        if self.cd_type != {'auth': 'webauthn.get', 'reg': 'webauthn.create'}[self.kind]:
            r.add('type')
        ch = challenge_relation(self.cd_challenge, self.expected_challenge)
        if ch == 'no':
            r.add('challenge')
        elif ch in ('bad', 'nonascii'):
            r.add('challenge-decode')
        elif ch == 'nope':
            r.add('challenge-either')
        elif ch == 'unspec':
            unspec.add('challenge')
        o = match(self.cd_origin, self.expected_origin)
        if o == 'no':
            r.add('origin')
        elif o == 'unspec':
            unspec.add('origin')
        if self.cd_tb is not None and (self.cd_tb[0] not in ('supported', 'present') or self.cd_tb == ('present', None)):
            r.add('parse')
        elif self.token_binding != self.cd_tb:
            r.add('tb')
        if rp_id is not None and self.ad.rp_hash != sha256(rp_id.encode('utf-8')):
            r.add('rphash')
        if not self.ad.flags & UP:
            r.add('up')
        if self.require_uv and not self.ad.flags & UV:
            r.add('uv')
        present = {k for k, _ in self.ad.ext} if (self.ad.flags & ED and self.ad.ext is not None) else set()
        if self.expected_ext and not set(self.expected_ext) <= present:
            r.add('ext')
        if self.ad.tail:
            r.add('parse')
        return r, unspec


STD = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_')


def challenge_relation(text, expected):
    """'yes', 'no', 'bad' (undecodable) or 'unspec' for a challenge string against expected bytes."""
    body = text.rstrip('=')
    pads = len(text) - len(body)
    if all(c in STD for c in body):
        n = len(body) % 4
        if n == 1:
            return 'bad'
        bits = 0
        val = 0
        out = bytearray()
        for c in body:
            val = (val << 6) | ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'.index(c))
            bits += 6
            if bits >= 8:
                bits -= 8
                out.append(val >> bits)
                val &= (1 << bits) - 1
        if bytes(out) != expected:
            return 'no'
        if val or (pads and (len(body) + pads) % 4):
            return 'unspec'              # non-canonical trailing bits or odd padding
        return 'yes'
    # outside the base64url alphabet: lenient decoders skip the character, strict ones fail
    if not body.isascii():
        return 'nonascii'
    cands = set()
    for i in [i for i, c in enumerate(body) if c == '='] + [len(body)]:      # such a decoder may stop at any '=' or skip it
        cands.add(''.join('-' if c == '+' else '_' if c == '/' else c for c in body[:i] if c in STD or c in '+/'))
    for cand in cands:
        if challenge_relation(cand, expected) in ('yes', 'unspec'):
            return 'unspec'
    return 'nope'


class AuthCase(Case):
    kind = 'auth'

    def __init__(self, **kw):
        self.raw_id = None
        self.user_handle = None
        self.user = None                 # provided user id or None
        self.rp = None                   # provided rp id or None
        self.allow = None                # None or list of ids
        self.ignore_clone = False
        self.signature = None
        super().__init__(**kw)

    def rp_in_force(self, entry):
        return entry.rp_id if entry.rp_id is not None else self.rp

    def reasons(self, store):
        """(requirements not met, unspecified dimensions)"""
        entry = store.get(self.raw_id)
        rp = self.rp_in_force(entry) if entry else self.rp
        r, unspec = self.common_reasons(rp)
        if self.allow is not None and self.raw_id not in self.allow:
            r.add('allow')
        if self.fault is not None and self.fault.method == 'get' and (
                self.fault.how == 'raise' or self.fault.value is None):
            r.add('get-fault' if self.fault.how == 'raise' else 'unknown')
            return r, unspec
        if entry is None:
            r.add('unknown')
            return r, unspec
        if self.user is not None:
            if self.user != entry.user_id:
                r.add('userid')
        elif self.user_handle is None:
            r.add('handle')
        if self.user_handle is not None and self.user_handle != (self.user if self.user is not None else entry.user_id):
            r.add('handle')
        if entry.rp_id is None and self.rp is None:
            r.add('norp')
        elif entry.rp_id is not None and self.rp is not None and entry.rp_id != self.rp:
            r.add('rpid')
            r.discard('rphash')
            if self.ad.rp_hash != sha256(self.rp.encode()) and self.ad.rp_hash != sha256(entry.rp_id.encode()):
                r.add('rphash')
        if not entry.key.valid(self.signature, self.ad_bytes + sha256(self.cd_bytes)):
            r.add('sig')
        if entry.count is not None and self.ad.count <= entry.count and not (self.ad.count == 0 and entry.count == 0):
            if not self.ignore_clone:
                r.add('count')
        if self.fault is not None and self.fault.method == 'register' and not (
                self.fault.how == 'return' and self.fault.value is None):
            r.add('registrar')
        return r, unspec

    def seal(self, rng, key):
        self.seal_client_data(rng)
        self.ad_bytes = self.ad.encode()
        self.signature = key.sign(self.ad_bytes + sha256(self.cd_bytes))
        return self

    def credential_obj(self):
        if self.via_json and self.id_text is None and self.type_text is None:
            b = lambda x: base64.b64encode(x).decode()
            resp = {'clientDataJSON': b(self.cd_bytes), 'authenticatorData': b(self.ad_bytes), 'signature': b(self.signature)}
            if self.user_handle is not None:
                resp['userHandle'] = b(self.user_handle)
            return parse_public_key_credential({
                'id': b64u(self.raw_id), 'type': 'public-key', 'rawId': b(self.raw_id), 'response': resp})
        return T.PublicKeyCredential(
            id=b64u(self.raw_id) if self.id_text is None else self.id_text, type='public-key' if self.type_text is None else self.type_text, raw_id=self.raw_id,
            response=T.AuthenticatorAssertionResponse(
                client_data_JSON=self.cd_bytes, authenticator_data=self.ad_bytes,
                signature=self.signature, user_handle=self.user_handle))

    def kwargs(self):
        kw = self.common_kwargs()
        kw.update(credential=self.credential_obj(),
                  rp=rp_entity(self.rp, 'given') if self.rp is not None else None,
                  user=user_entity(self.user, 'given') if self.user is not None else None,
                  allow_credentials=None if self.allow is None else (list, list, tuple)[self.dressing % 3](
                      T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=i, transports=self.transports(n)) for n, i in enumerate(self.allow)),
                  ignore_clone_error=self.ignore_clone)
        return self.defaults_left_out(kw)

    def transports(self, n):
        every = list(T.AuthenticatorTransport)
        return (None, None, [], [T.AuthenticatorTransport.USB], [T.AuthenticatorTransport.INTERNAL, T.AuthenticatorTransport.BLE], every, every * 5, [every[0]] * 3,
                every[::-1])[(self.dressing + n) % 9] if self.dressing else None


class RegCase(Case):
    kind = 'reg'

    def __init__(self, **kw):
        self.user = None
        self.rp = None
        self.fmt = 'none'
        self.stmt = {}
        self.stmt_ok = True              # set by the generator of the statement: verifies by construction
        self.trusted = None              # expected trusted path (list of DER) or None
        self.att_obj = None
        self.raw_id = b''
        super().__init__(**kw)

    def reasons(self, store=None):
        r, unspec = self.common_reasons(self.rp)
        if not self.ad.flags & AT:
            r.add('noatt')
        elif self.fmt not in ('none', 'fido-u2f', 'android-key') or not self.stmt_ok:
            r.add('att')
        if not self.ad.flags & AT and (self.fmt not in ('none', 'fido-u2f', 'android-key') or not self.stmt_ok):
            r.add('att')
        if self.fault is not None and self.fault.method == 'register' and not (
                self.fault.how == 'return' and self.fault.value is None):
            r.add('registrar')
        return r, unspec

    def seal(self, rng):
        """Client data and authenticator data only; the statement is added by seal_object."""
        self.seal_client_data(rng)
        self.ad_bytes = self.ad.encode()
        return self

    def seal_object(self, rng=None):
        m = [('fmt', self.fmt), ('attStmt', self.stmt), ('authData', self.ad_bytes)]
        if rng is not None and rng.random() < .5:
            rng.shuffle(m)
        self.att_obj = refcbor.enc(Pairs(m))
        return self

    def credential_obj(self):
        if self.via_json and self.id_text is None and self.type_text is None:
            b = lambda x: base64.b64encode(x).decode()
            return parse_public_key_credential({
                'id': b64u(self.raw_id), 'type': 'public-key', 'rawId': b(self.raw_id),
                'response': {'clientDataJSON': b(self.cd_bytes), 'attestationObject': b(self.att_obj)}})
        return T.PublicKeyCredential(
            id=b64u(self.raw_id) if self.id_text is None else self.id_text, type='public-key' if self.type_text is None else self.type_text, raw_id=self.raw_id,
            response=T.AuthenticatorAttestationResponse(client_data_JSON=self.cd_bytes, attestation_object=self.att_obj))

    def kwargs(self):
        kw = self.common_kwargs()
        kw.update(credential=self.credential_obj(), user=user_entity(self.user, 'given'), rp=rp_entity(self.rp, 'given'))
        return self.defaults_left_out(kw)


# ---------------------------------------------------------------------------
# Execution and judgement
# ---------------------------------------------------------------------------
class Outcome:
    def __init__(self, exc, events, kwargs, returned=None):
        self.exc, self.events, self.kwargs, self.returned = exc, events, kwargs, returned
        self.accepted = exc is None
        self.library = exc is None or isinstance(exc, E.WebAuthnRPError)

    @property
    def cls(self):
        return None if self.exc is None else type(self.exc).__name__

    def classes(self):
        return {k.__name__ for k in type(self.exc).__mro__}

    def astray(self):
        """A family of errors the exception should be in and is not, or the other way round."""
        mine = self.classes()
        return next((f for f, members in FAMILIES.items() if bool(mine & members) != (f in mine)), None) if self.exc is not None else None

    def registrations(self):
        return [e for e in self.events if e[0].startswith('register_')]

    def __str__(self):
        return 'accepted' if self.accepted else 'rejected with %s(%s)' % (self.cls, str(self.exc)[:120])


def execute(backend, registrar, case):
    registrar.arm(case.fault)
    kw = case.kwargs()
    exc = returned = None
    try:
        if case.kind == 'auth':
            returned = backend.handle_credential_assertion(**kw)
        else:
            returned = backend.handle_credential_attestation(**kw)
    except Exception as e:  # noqa: every exception is an observation
        exc = e
        e.__traceback__ = None
    events = list(registrar.events)
    registrar.arm(None)
    return Outcome(exc, events, kw, returned)


# the documented families of errors
FAMILIES = {
    'BackendError': {'BackendError', 'ClientDataTypeError', 'ChallengeError', 'TokenBindingError', 'RPIDHashError', 'UserPresenceError', 'UserVerificationError', 'ExtensionError', 'CredentialNotAllowedError',
                     'UserIDError', 'UserHandleError', 'RPNotFoundError', 'RPIDError', 'RegistrationError', 'CredentialDataError', 'SignatureCountError'},
    'ConverterError': {'ConverterError', 'JSONConversionError', 'PublicKeyConversionError'},
    'ParserError': {'ParserError', 'DecodingError'},
}
# documented error classes per requirement
CLASSES = {
    'type': {'ClientDataTypeError'},
    'challenge': {'ChallengeError'},
    'challenge-decode': {'DecodingError'},
    'challenge-either': {'DecodingError', 'ChallengeError'},
    'origin': {'OriginError'},
    'tb': {'TokenBindingError'},
    'rphash': {'RPIDHashError'},
    'rpid': {'RPIDError'},
    'norp': {'RPNotFoundError'},
    'up': {'UserPresenceError'},
    'uv': {'UserVerificationError'},
    'ext': {'ExtensionError'},
    'allow': {'CredentialNotAllowedError'},
    'unknown': {'CredentialDataError'},
    'get-fault': {'RegistrationError'},
    'userid': {'UserIDError'},
    'handle': {'UserHandleError'},
    'sig': {'VerificationError'},
    'count': {'SignatureCountError'},
    'registrar': {'RegistrationError'},
    'parse': {'ParserError', 'DecodingError', 'ValidationError'},
    'noatt': {'AttestationError', 'ParserError'},
    'att': {'AttestationError', 'UnimplementedError', 'ParserError', 'DecodingError', 'InternalError'},
}


def expected_report(case, entry):
    """Aspects of the registration event a faithful report must have."""
    exp = {}
    ad = case.ad
    exp['count'] = ad.count
    exp['flags'] = ad.flags
    exp['rp_hash'] = ad.rp_hash
    exp['ext'] = {k: v for k, v in ad.ext} if ad.flags & ED else None
    if case.kind == 'auth':
        exp['user'] = entry.user_id
        exp['rp'] = case.rp_in_force(entry)
    else:
        exp['user'] = case.user
        exp['rp'] = case.rp
        exp['fmt'] = case.fmt
        exp['att_type'] = 'NONE' if case.fmt == 'none' else 'BASIC'
        exp['trusted'] = case.trusted
        exp['stmt'] = dict(case.stmt)
        if 'alg' in exp['stmt']:
            exp['stmt']['alg'] = alg_name(exp['stmt']['alg'])
    if ad.flags & AT:
        exp['aaguid'] = ad.att[0]
        exp['cred_id'] = ad.att[1]
        exp['key'] = ad.att[2]
    return exp


def observed_report(ev, case):
    name, a = ev
    obs = {}
    ad = a['att'].auth_data if name == 'register_attestation' else a['authenticator_data']
    obs['count'], obs['flags'], obs['rp_hash'] = ad.sign_count, ad.flags, ad.rp_id_hash
    if type(obs['count']) is not int:
        obs['count'] = repr(obs['count'])
    ext = ad.extensions
    obs['ext'] = None if ext is None else {w: ext_value(w, getattr(ext, attr)) for w, attr in EXT_ATTR.items() if getattr(ext, attr) is not None}
    obs['user'] = a['user'].id
    obs['rp'] = a['rp'].id
    if name == 'register_attestation':
        obs['fmt'] = a['att'].fmt.value
        obs['att_type'] = a['att_type'].name
        st = a['att'].att_stmt
        obs['stmt'] = {k: getattr(st, k) for k in ('sig', 'x5c', 'alg') if getattr(st, k, None) is not None}
        if 'alg' in obs['stmt']:
            obs['stmt']['alg'] = obs['stmt']['alg'].name
        if 'x5c' in obs['stmt']:
            obs['stmt']['x5c'] = list(obs['stmt']['x5c'])
        tp = a['trusted_path']
        from cryptography.hazmat.primitives.serialization import Encoding
        obs['trusted'] = None if tp is None else [c.public_bytes(Encoding.DER) for c in tp]
    acd = ad.attested_credential_data
    if acd is not None:
        obs['aaguid'], obs['cred_id'] = acd.aaguid, acd.credential_id
        obs['cred_len'] = acd.credential_id_length
        k = acd.credential_public_key
        obs['key'] = (k.kty.name, k.alg.name, k.crv.name, k.x, getattr(k, 'y', None), k.kid,
                      None if k.key_ops is None else [o.name for o in k.key_ops], k.base_IV)
    return obs


def alg_name(a):
    from wv.keys import COSE_ALG
    return ({v: k for k, v in COSE_ALG.items()}.get(a, a)).upper()


def ext_value(name, v):
    if name != 'loc':
        return v
    return {c: x for c, x in ((c, getattr(v, {'altitudeAccuracy': 'altitude_accuracy'}.get(c, c))) for c in COORDS) if x is not None}


def key_summary(cose_bytes):
    d = dict(refcbor.dec(cose_bytes))
    from wv.keys import COSE_CRV, COSE_ALG, COSE_KTY, COSE_OPS
    inv = lambda m, v: {x: k for k, x in m.items()}.get(v, v)
    return (inv(COSE_KTY, d[1]), inv(COSE_ALG, d[3]).upper(), inv(COSE_CRV, d[-1]).replace('-', '_').upper(),
            d[-2], d.get(-3), d.get(2),
            None if 4 not in d else [inv(COSE_OPS, o).upper().replace(' ', '_') for o in d[4]], d.get(5))


def report_problems(case, entry, outcome):
    """[(aspect, text)] where the registrar was told something else than what was received."""
    out = []
    regs = outcome.registrations()
    want = 'register_assertion' if case.kind == 'auth' else 'register_attestation'
    if len(regs) != 1:
        return [('calls', '%d registration calls instead of 1' % len(regs))]
    if regs[0][0] != want:
        return [('calls', 'registered through ' + regs[0][0])]
    a = regs[0][1]
    if a['credential'] is not outcome.kwargs['credential'] and dump(a['credential']) != dump(outcome.kwargs['credential']):
        out.append(('credential', 'another credential object was registered'))
    exp = expected_report(case, entry)
    try:
        obs = observed_report(regs[0], case)
    except Exception as e:  # noqa: what was reported lacks a part that was received
        return out + [('calls', 'the report cannot be read back: %r' % e)]
    if 'key' in exp:
        exp['key'] = key_summary(exp['key'])
        exp['cred_len'] = len(exp['cred_id'])
    for k in sorted(set(exp) | set(obs)):
        if exp.get(k) != obs.get(k):
            out.append((k, 'reported %s=%r, received %r' % (k, obs.get(k), exp.get(k))))
    return out


def judge(ctx, case, outcome, entry, reasons, unspec, aspects=None, check_class=False):
    """Compare one execution with the reference; records violations on ctx. Returns the decision label."""
    label = 'reject' if reasons else ('unspecified' if unspec else 'accept')
    what = '%s %s [%s]' % (case.kind, case.note, ','.join(sorted(reasons)) or ('unspecified' if unspec else 'all requirements met'))
    det = dict(case=case.describe(), reasons=sorted(reasons))
    if outcome.accepted and reasons:
        ctx.violation('accepted although a requirement is not met: ' + what, **det)
    elif not outcome.accepted and not reasons and not unspec:
        ctx.violation('%s although every requirement is met: %s' % (outcome, what), **det)
    elif outcome.accepted and outcome.returned is not None:
        ctx.violation('returned %r instead of None: %s' % (outcome.returned, what), **det)
    regs = outcome.registrations()
    if outcome.accepted:
        for aspect, text in report_problems(case, entry, outcome):
            if aspects is None or aspect in aspects or aspect == 'calls':
                ctx.violation('accepted but %s: %s' % (text, what), **det)
    elif reasons and reasons <= {'registrar'}:
        if len(regs) != 1 and not (unspec and not regs):
            ctx.violation('%d registration calls for a registrar that fails: %s' % (len(regs), what), **det)
    elif regs and 'registrar' not in (reasons or ()) and not outcome.accepted:
        ctx.violation('%s but the registrar was told about it: %s' % (outcome, what), **det)
    elif regs and reasons - {'registrar'}:
        ctx.violation('the registrar was told about a ceremony that fails a requirement: ' + what, **det)
    for e in outcome.events:
        if e[0] == 'get' and e[1]['credential_id'] != case.raw_id:
            ctx.violation('credential data requested for another credential id: ' + what, **det)
    if check_class:
        astray = outcome.library and outcome.astray()
        if astray:
            ctx.violation('%s is not in its documented family (%s): %s' % (outcome, astray, what), **det)
        if not outcome.library:
            ctx.violation('a foreign exception escaped: %s: %s' % (outcome, what), **det)
        elif not outcome.accepted and reasons and not unspec:
            allowed = set().union(*[CLASSES[r] for r in reasons])
            if not allowed & outcome.classes():
                ctx.violation('%s, expected one of %s: %s' % (outcome, sorted(allowed), what), **det)
    ctx.count(case.kind + ':' + label)
    ctx.count('outcome:' + (outcome.cls or 'accepted'))
    return label


# ---------------------------------------------------------------------------
# Honest generators
# ---------------------------------------------------------------------------
RP_IDS = ['example.com', 'login.example.com', 'localhost', 'example.org', 'b\u00fccher.example', 'a', 'x' * 200, 'Example.com', '']
def cred_id(rng):
    if magic.chance(rng):
        n = magic.size(rng, 20000)
        return rbytes(rng, n) if n and rng.random() < .6 else magic.data(rng) or b'x'
    return rbytes(rng, rng.choice(CRED_LENS))


CRED_LENS = [1, 8, 16, 16, 20, 32, 32, 64, 64, 65, 128, 255, 256, 1023]


def rp_id(rng):
    if magic.chance(rng):
        s = magic.text(rng)
        return s[:300] if s and s.isprintable() else 'example.com'
    return rng.choice(RP_IDS)


def stored_key(rng, key):
    """The registered form of a key: made by the constructors or parsed; its key ID says nothing about which key it is."""
    kid = rng.choice([b'', b'1', b'kid', b'kid', bytes(8), rbytes(rng, 8), magic.data(rng)]) if rng.random() < .45 else None
    iv = rng.choice([b'', bytes(8), rbytes(rng, 12)]) if rng.random() < .15 else None
    ops = rng.choice([['verify'], ['verify', 'sign'], ['sign', 'verify'], ['encrypt', 'verify', 'derive key'], ['sign'], ['sign', 'sign'], ['encrypt'], ['derive key'], ['MAC create', 'sign'], ['verify', 'verify']]) if rng.random() < .3 else None
    if rng.random() < .5:
        f = rng.choice(['Name', 'Value'])
        return key.library_key(f, kid=kid, base_IV=iv, key_ops=None if ops is None else rng.choice([list, tuple])(
            getattr(getattr(T.COSEKeyOperation, f), o.upper().replace(' ', '_')) for o in ops))
    return parse_cose_key(key.cose(form=rng.choice(['int', 'str']), kid=kid, base_iv=iv, key_ops=ops))


class World:
    """Users, credentials and a backend that lives across many ceremonies."""

    def __init__(self, rng, users=3, creds=5, backend=None, registrar=None, suites=None, strict=False):
        self.mixed = 0 if strict else .15          # other kinds of keys and users come up everywhere
        self.registrar = registrar or MonitoredRegistrar()
        self.registrar.store.clear()
        self.backend = backend or CredentialsBackend(self.registrar)
        self.users = []
        base = rbytes(rng, rng.choice([1, 8, 16, 32, 64]))
        self.users.append(base)
        while len(self.users) < users:
            self.users.append(near(rng, rng.choice(self.users)) if rng.random() < .4 else rbytes(rng, magic.size(rng, 200) or 5) if magic.chance(rng) else rbytes(rng, rng.choice([1, 16, 64])))
        self.creds = []
        for _ in range(creds):
            self.add_credential(rng, suites)
        self.accepted = []        # accepted cases, for replays

    def add_credential(self, rng, suites=None):
        cid = cred_id(rng)
        if self.creds and rng.random() < .3:
            cid = near(rng, rng.choice(self.creds).cid)
        key = pick_key(rng, rng.choice(suites) if suites and rng.random() >= self.mixed else None)
        rp = rp_id(rng) if rng.random() < .75 else None
        cpk = stored_key(rng, key)
        count = rng.choice([None, None, 0, 0, 1, 5, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2])
        if magic.chance(rng):
            count = magic.number(rng, 0, 2 ** 32 - 2)
        e = Entry(cid, key, rng.choice(self.users) if rng.random() >= self.mixed / 5 else b'', rp, count, cpk)
        self.registrar.store[cid] = e
        self.creds.append(e)
        return e


def fill_common(rng, c):
    c.dressing = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
    c.expected_challenge = gen_challenge(rng)
    c.cd_challenge = b64u(c.expected_challenge, pad=rng.random() < .2)
    o = gen_origin(rng)
    c.cd_origin = o
    r = rng.random()
    if r < .5:
        c.expected_origin = o
    else:
        lst = [gen_origin(rng) for _ in range(rng.choice([0, 1, 2, 5]))]
        lst.insert(rng.randint(0, len(lst)), o)
        c.expected_origin = rng.choice([list, tuple, set, frozenset, lambda l: dict.fromkeys(l).keys()])(lst)
    r = rng.random()
    if r < .25:
        tb = rng.choice([('supported', None), ('present', gen_text(rng)), ('present', 'abc'), ('supported', 'id')])
        c.token_binding = c.cd_tb = tb
    c.require_uv = rng.random() < .4
    if rng.random() < .25:
        c.expected_ext = []
    c.via_json = rng.random() < .3
    c.omit = c.dressing % 2 == 0


def honest_ad(rng, rp_id, count, require_uv, reg, cid=None, key=None, ext_p=.3):
    flags = UP
    if require_uv or rng.random() < .5:
        flags |= UV
    if rng.random() < .2:
        flags |= rng.choice([2, 8, 16, 32, 2 | 8 | 16 | 32])
    ext = att = None
    if rng.random() < ext_p:
        flags |= ED
        ext = gen_exts(rng)
    if reg or rng.random() < .1:
        flags |= AT
        k = key or pick_key(rng)
        cid = magic.data(rng)[:1000] if cid is None and magic.chance(rng) else cid
        extra = {}
        if rng.random() < .15:
            extra = dict(kid=rbytes(rng, rng.choice([0, 1, 8])))
        if rng.random() < .15:
            extra['key_ops'] = rng.sample(['sign', 'verify', 'encrypt', 'derive key'], rng.choice([1, 1, 2]))
        if rng.random() < .1:
            extra['base_iv'] = rbytes(rng, 8)
        att = (rbytes(rng, 16) if not magic.chance(rng) else magic.data(rng)[:16].ljust(16, b'\0'), cid if cid is not None and len(cid) < 65536 else rbytes(rng, 16), k.cose(**extra))
    return AuthData(sha256(rp_id.encode()), flags, count, att, ext)


def honest_auth(rng, world, entry=None):
    e = entry or rng.choice(world.creds)
    c = AuthCase()
    fill_common(rng, c)
    c.cd_type = 'webauthn.get'
    c.raw_id = e.cid
    if e.rp_id is None:
        c.rp = rp_id(rng)
    elif rng.random() < .5:
        c.rp = e.rp_id
    r = rng.random()
    if r < .4:
        c.user, c.user_handle = e.user_id, None
    elif r < .7:
        c.user, c.user_handle = e.user_id, e.user_id
    else:
        c.user, c.user_handle = None, e.user_id
    if rng.random() < .5:
        ids = [x.cid for x in rng.sample(world.creds, rng.randint(0, len(world.creds)))]
        if e.cid not in ids:
            ids.insert(rng.randint(0, len(ids)), e.cid)
        c.allow = ids
    c.ignore_clone = rng.random() < .2
    n = next_count(rng, e.count)
    if n is None:                        # the counter is exhausted
        c.ignore_clone = True
        n = rng.choice([0, e.count])
    # attested data has no say in an assertion, whosever it is
    r = rng.random()
    cid, key = (e.cid, None) if r < .3 else (e.cid, e.key) if r < .45 else (rng.choice(world.creds).cid, None) if r < .55 else (None, None)
    c.ad = honest_ad(rng, c.rp_in_force(e), n, c.require_uv, False, cid, key)
    if c.expected_ext is not None and c.ad.ext is not None:
        c.expected_ext = [k for k, _ in c.ad.ext if rng.random() < .6]
    return c.seal(rng, e.key)


def next_count(rng, registered):
    if magic.chance(rng):
        n = magic.number(rng, 0, 2 ** 32 - 1)
        if n is not None and (registered is None or n > registered):
            return n
    if registered is None:
        return rng.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1])
    if registered == 0 and rng.random() < .4:
        return 0
    if registered >= 2 ** 32 - 1:
        return None
    return min(2 ** 32 - 1, registered + rng.choice([1, 1, 1, 2, 255, 256, 65536, 2 ** 31 - 1]))


def reseal(rng, c, entry):
    """Rebuild bytes and signature after a semantic mutation, keeping the response honest otherwise."""
    return c.seal(rng, entry.key)


def honest_reg(rng, world=None, fmt='none', key=None, user=None):
    c = RegCase()
    fill_common(rng, c)
    c.cd_type = 'webauthn.create'
    c.rp = rp_id(rng)
    c.user = user if user is not None else (rng.choice(world.users) if world else rbytes(rng, 16))
    cid = cred_id(rng)
    c.raw_id = cid
    c.ad = honest_ad(rng, c.rp, rng.choice([0, 0, 1, 5, 2 ** 31, 2 ** 32 - 1]), c.require_uv, True, cid, key)
    if c.expected_ext is not None and c.ad.ext is not None:
        c.expected_ext = [k for k, _ in c.ad.ext if rng.random() < .6]
    c.fmt = fmt
    c.seal(rng)
    c.stmt = {}
    return c.seal_object(rng)


def run_auth(ctx, world, c, aspects=None, check_class=False, store_update=True):
    reasons, unspec = c.reasons(world.registrar.store)
    entry = world.registrar.store.get(c.raw_id)
    out = execute(world.backend, world.registrar, c)
    label = judge(ctx, c, out, entry, reasons, unspec, aspects, check_class)
    if out.accepted and entry is not None and store_update:
        entry.count = c.ad.count if type(c.ad.count) is int else entry.count
        world.accepted.append(c)
    for r in reasons:
        ctx.count('unmet:' + r)
    ctx.judged((c.kind, c.note, tuple(sorted(reasons)), c.cd_bytes, c.ad_bytes, c.signature, c.raw_id))
    return out, reasons


def run_reg(ctx, world, c, aspects=None, check_class=False):
    reasons, unspec = c.reasons()
    out = execute(world.backend, world.registrar, c)
    judge(ctx, c, out, None, reasons, unspec, aspects, check_class)
    for r in reasons:
        ctx.count('unmet:' + r)
    ctx.judged((c.kind, c.note, tuple(sorted(reasons)), c.cd_bytes, c.att_obj))
    return out, reasons


def worker_world(ctx, rng, **kw):
    """A fresh world on the worker's long-lived backend, so that state kept between ceremonies shows."""
    if 'backend' not in ctx.state:
        ctx.state['registrar'] = MonitoredRegistrar()
        ctx.state['backend'] = CredentialsBackend(ctx.state['registrar'])
    return World(rng, backend=ctx.state['backend'], registrar=ctx.state['registrar'], **kw)
