"""Generator of WebAuthn options objects together with an independent model of their content.

A model node is ('o', [(attribute, wire name, node or None)...]), ('l', [nodes]) or ('v', scalar).
The wire names and enumeration values below are copied from the WebAuthn Level 1 IDL, not from the library.
"""
import base64

from webauthn_rp import types as T

from wv import magic
from wv.sim import gen_text, rbytes


def V(v):
    return ('v', v)


def to_json(node, camel=True):
    kind, body = node
    if kind == 'o':
        return {(c if camel else s): to_json(n, camel) for s, c, n in body if n is not None}
    if kind == 'l':
        return [to_json(n, camel) for n in body]
    if isinstance(body, bytes):
        return base64.b64encode(body).decode()
    return body


def exact(a, b):
    """Equality that also distinguishes True from 1, 1 from 1.0, and list from tuple."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b


ENUMS = {
    'type': [(T.PublicKeyCredentialType.PUBLIC_KEY, 'public-key')],
    'transports': [(T.AuthenticatorTransport.USB, 'usb'), (T.AuthenticatorTransport.NFC, 'nfc'), (T.AuthenticatorTransport.BLE, 'ble'), (T.AuthenticatorTransport.INTERNAL, 'internal')],
    'attachment': [(T.AuthenticatorAttachment.PLATFORM, 'platform'), (T.AuthenticatorAttachment.CROSS_PLATFORM, 'cross-platform')],
    'attestation': [(T.AttestationConveyancePreference.NONE, 'none'), (T.AttestationConveyancePreference.INDIRECT, 'indirect'), (T.AttestationConveyancePreference.DIRECT, 'direct')],
    'uv': [(T.UserVerificationRequirement.REQUIRED, 'required'), (T.UserVerificationRequirement.PREFERRED, 'preferred'), (T.UserVerificationRequirement.DISCOURAGED, 'discouraged')],
    'mediation': [(T.CredentialMediationRequirement.SILENT, 'silent'), (T.CredentialMediationRequirement.OPTIONAL, 'optional'), (T.CredentialMediationRequirement.REQUIRED, 'required')],
    'alg': [(T.COSEAlgorithmIdentifier.Value.ES256, -7), (T.COSEAlgorithmIdentifier.Value.ES384, -35), (T.COSEAlgorithmIdentifier.Value.ES512, -36), (T.COSEAlgorithmIdentifier.Value.EDDSA, -8),
            (T.COSEAlgorithmIdentifier.Name.ES256, 'ES256'), (T.COSEAlgorithmIdentifier.Name.ES384, 'ES384'), (T.COSEAlgorithmIdentifier.Name.ES512, 'ES512'), (T.COSEAlgorithmIdentifier.Name.EDDSA, 'EdDSA')],
}


def enum(rng, name):
    lib, wire = rng.choice(ENUMS[name])
    return lib, V(wire)


def plain(v):
    return v, V(v)


def text(rng):
    if magic.chance(rng):
        return plain(rng.choice([magic.text(rng), 'x' * (magic.size(rng) or 1)]))
    return plain(rng.choice([lambda: gen_text(rng), lambda: '', lambda: 'rp_id', lambda: '\u2028"\\\n\x00', lambda: '\U0001f511', lambda: 'a_b_c', lambda: 'https://x/' + gen_text(rng), lambda: gen_text(rng) * rng.choice([1, 1, 1, 40, 400])])())


def raw(rng):
    if magic.chance(rng):
        return plain(rng.choice([magic.data(rng), rbytes(rng, magic.size(rng) or 1)]))
    return plain(rng.choice([b'', b'\x00', b'\xfb\xff\xfe', b'\xff' * 3, rbytes(rng, rng.randint(1, 5)), rbytes(rng, rng.randint(6, 80)), rbytes(rng, rng.choice([81, 127, 256, 1025, 5000]) if rng.random() < .1 else 32)]))


def integer(rng):
    if magic.chance(rng):
        return plain(magic.number(rng) or 0)
    return plain(rng.choice([0, 1, -1, 60000, 2 ** 31, 2 ** 53 + 1, rng.randint(0, 10 ** 9)]))


def boolean(rng):
    return plain(rng.random() < .5)


def number(rng):
    if magic.chance(rng):
        return plain(magic.real(rng))
    return plain(rng.choice([0, 0.0, 1, -1.5, 90, 1e-9, 1.1, 180.0, -0.0, 123456.789, rng.uniform(-180, 180)]))


def seq(rng, gen, lo=0, hi=4, tuples=True):
    n = rng.randint(lo, hi) if rng.random() < .985 else rng.choice([9, 10, 11, 17, 33, 65, 101])
    if magic.chance(rng, .01):
        n = magic.size(rng, 300) or n
    items = [gen(rng) for _ in range(n)]
    lib = [a for a, _ in items]
    return (tuple(lib) if tuples and rng.random() < .3 else lib), ('l', [m for _, m in items])


# class -> (constructor, [(argument, wire name, generator, required)]) --- in IDL order
def S(ctor, *fields):
    return ctor, fields


def F(arg, wire, gen, req=False):
    return arg, wire, gen, req


def of(spec):
    return lambda rng, p=.5: gen(rng, spec, p)


RP = S(T.PublicKeyCredentialRpEntity, F('name', 'name', text, True), F('icon', 'icon', text), F('id', 'id', text, True))
USER = S(T.PublicKeyCredentialUserEntity, F('name', 'name', text, True), F('icon', 'icon', text), F('id', 'id', raw, True), F('display_name', 'displayName', text, True))
PARAM = S(T.PublicKeyCredentialParameters, F('type', 'type', lambda r: enum(r, 'type'), True), F('alg', 'alg', lambda r: enum(r, 'alg'), True))
DESCRIPTOR = S(T.PublicKeyCredentialDescriptor, F('type', 'type', lambda r: enum(r, 'type'), True), F('id', 'id', raw, True), F('transports', 'transports', lambda r: seq(r, lambda q: enum(q, 'transports'))))
TXGEN = S(T.TxAuthGenericArg, F('content_type', 'contentType', text, True), F('content', 'content', raw, True))
PERF = S(T.AuthenticatorBiometricPerfBounds, F('FAR', 'FAR', number, True), F('FRR', 'FRR', number, True))
COORDINATES = S(T.Coordinates, F('latitude', 'latitude', number, True), F('longitude', 'longitude', number, True), F('altitude', 'altitude', number), F('accuracy', 'accuracy', number, True),
                F('altitude_accuracy', 'altitudeAccuracy', number), F('heading', 'heading', number), F('speed', 'speed', number))
INPUTS = S(T.AuthenticationExtensionsClientInputs, F('appid', 'appid', text), F('tx_auth_simple', 'txAuthSimple', text), F('tx_auth_generic', 'txAuthGeneric', of(TXGEN)),
           F('authn_sel', 'authnSel', lambda r: seq(r, raw)), F('exts', 'exts', boolean), F('uvi', 'uvi', boolean), F('loc', 'loc', boolean), F('uvm', 'uvm', boolean),
           F('biometric_perf_bounds', 'biometricPerfBounds', of(PERF)))
OUTPUTS = S(T.AuthenticationExtensionsClientOutputs, F('appid', 'appid', boolean), F('tx_auth_simple', 'txAuthSimple', text), F('tx_auth_generic', 'txAuthGeneric', raw),
            F('authn_sel', 'authnSel', boolean), F('exts', 'exts', lambda r: seq(r, text)), F('uvi', 'uvi', raw), F('loc', 'loc', of(COORDINATES)),
            F('uvm', 'uvm', lambda r: seq(r, lambda q: seq(q, integer))), F('biometric_perf_bounds', 'biometricPerfBounds', boolean))
SELECTION = S(T.AuthenticatorSelectionCriteria, F('authenticator_attachment', 'authenticatorAttachment', lambda r: enum(r, 'attachment')),
              F('require_resident_key', 'requireResidentKey', boolean), F('user_verification', 'userVerification', lambda r: enum(r, 'uv')))
PARAMS = lambda r: seq(r, of(PARAM))  # noqa
DESCRIPTORS = lambda r: seq(r, of(DESCRIPTOR))  # noqa
CREATE_PK = S(T.PublicKeyCredentialCreationOptions, F('rp', 'rp', of(RP), True), F('user', 'user', of(USER), True), F('challenge', 'challenge', raw, True),
              F('pub_key_cred_params', 'pubKeyCredParams', PARAMS, True), F('timeout', 'timeout', integer), F('authenticator_selection', 'authenticatorSelection', of(SELECTION)),
              F('extensions', 'extensions', of(INPUTS)), F('attestation', 'attestation', lambda r: enum(r, 'attestation')), F('exclude_credentials', 'excludeCredentials', DESCRIPTORS))
REQUEST_PK = S(T.PublicKeyCredentialRequestOptions, F('challenge', 'challenge', raw, True), F('timeout', 'timeout', integer), F('rp_id', 'rpId', text), F('extensions', 'extensions', of(INPUTS)),
               F('allow_credentials', 'allowCredentials', DESCRIPTORS), F('user_verification', 'userVerification', lambda r: enum(r, 'uv')))
CREATE = S(T.CredentialCreationOptions, F('public_key', 'publicKey', of(CREATE_PK), True))
REQUEST = S(T.CredentialRequestOptions, F('mediation', 'mediation', lambda r: enum(r, 'mediation')), F('public_key', 'publicKey', of(REQUEST_PK), True))
SPECS = {'creation': CREATE, 'request': REQUEST, 'creation-pk': CREATE_PK, 'request-pk': REQUEST_PK, 'inputs': INPUTS, 'outputs': OUTPUTS, 'selection': SELECTION, 'descriptor': DESCRIPTOR,
         'param': PARAM, 'rp': RP, 'user': USER, 'coordinates': COORDINATES, 'perf': PERF, 'txgen': TXGEN}
# what an argument means when it is not passed at all
DEFAULTS = {('AuthenticatorSelectionCriteria', 'require_resident_key'): V(False), ('AuthenticatorSelectionCriteria', 'user_verification'): V('preferred'),
            ('PublicKeyCredentialCreationOptions', 'attestation'): V('none'), ('PublicKeyCredentialRequestOptions', 'user_verification'): V('preferred'),
            ('CredentialRequestOptions', 'mediation'): V('optional')}


def gen(rng, spec, p=.5, explicit_none=True, only=None):
    """One object of this class; optional members set with probability p (or exactly those in `only`)."""
    ctor, fields = spec
    kw, model = {}, []
    for arg, wire, g, req in fields:
        have = req or (arg in only if only is not None else rng.random() < p)
        if have:
            kw[arg], node = g(rng)
        elif explicit_none and rng.random() < .5:
            kw[arg], node = None, None
        else:
            node = DEFAULTS.get((ctor.__name__, arg))
        model.append((arg, wire, node))
    return ctor(**kw), ('o', model)


def mismatch(lib, node, path='options'):
    """Where a library object differs from its model (None when it does not)."""
    if node is None:
        return None if lib is None else '%s is %r, want None' % (path, lib)
    kind, body = node
    if kind == 'v':
        got = getattr(lib, 'value', lib) if not isinstance(lib, (str, bytes, int, float)) else lib
        return None if type(got) is type(body) and got == body else '%s is %r, want %r' % (path, lib, body)
    if kind == 'l':
        if not isinstance(lib, (list, tuple)):
            return '%s is %r, want a sequence' % (path, lib)
        if len(lib) != len(body):
            return '%s has %d members, want %d' % (path, len(lib), len(body))
        for i, (x, n) in enumerate(zip(lib, body)):
            m = mismatch(x, n, '%s[%d]' % (path, i))
            if m:
                return m
        return None
    if isinstance(lib, (str, bytes, int, float, list, tuple, dict)) or lib is None:
        return '%s is %r, want an object' % (path, lib)
    for attr, _, n in body:
        if not hasattr(lib, attr):
            return '%s has no %s' % (path, attr)
        m = mismatch(getattr(lib, attr), n, '%s.%s' % (path, attr))
        if m:
            return m
    extra = set(vars(lib)) - {a for a, _, _ in body}
    return '%s has unexpected members %s' % (path, sorted(extra)) if extra else None


def vandalise(lib, seen=None):
    """Change everything reachable and mutable in a built options object."""
    seen = set() if seen is None else seen
    if id(lib) in seen or lib is None or isinstance(lib, (str, bytes, int, float)) or hasattr(type(lib), '__members__'):
        return
    seen.add(id(lib))
    if isinstance(lib, (list, tuple)):
        for x in lib:
            vandalise(x, seen)
        if isinstance(lib, list):
            lib[:] = ['vandalised']
    elif hasattr(lib, '__dict__'):
        for k, v in list(vars(lib).items()):
            vandalise(v, seen)
            setattr(lib, k, 'vandalised')
