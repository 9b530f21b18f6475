"""C26: the wire vocabulary matches the published registries."""
import enum
import json

from webauthn_rp import constants, types as T
from webauthn_rp.utils import snake_to_camel_case
from webauthn_rp.parsers import parse_attestation_object, parse_client_data, parse_cose_key

from wv import att, magic, opts, refcbor, sim
from wv.core import require
from wv.keys import ALL_SUITES, pick_key
from wv.refcbor import Pairs
from wv.sim import World

RULE = ('one evaluation = one vocabulary entry compared with the registry tables below, or one lookup by a value judged by those tables (all integers in a range, names, near misses and other types); '
        'non-trivial = distinct (enumeration, value)')

# IANA COSE registries (names normalised to identifier form); entries the library does not support are listed so that
# support for them can be judged should it appear.
COSE_ALGORITHMS = {'ES256': ('ES256', -7), 'ES384': ('ES384', -35), 'ES512': ('ES512', -36), 'EDDSA': ('EdDSA', -8), 'PS256': ('PS256', -37), 'PS384': ('PS384', -38), 'PS512': ('PS512', -39),
                   'RS256': ('RS256', -257), 'RS384': ('RS384', -258), 'RS512': ('RS512', -259), 'RS1': ('RS1', -65535), 'ES256K': ('ES256K', -47)}
COSE_KEY_TYPES = {'OKP': ('OKP', 1), 'EC2': ('EC2', 2), 'RSA': ('RSA', 3), 'SYMMETRIC': ('Symmetric', 4)}
COSE_KEY_OPS = {'SIGN': ('sign', 1), 'VERIFY': ('verify', 2), 'ENCRYPT': ('encrypt', 3), 'DECRYPT': ('decrypt', 4), 'WRAP_KEY': ('wrap key', 5), 'UNWRAP_KEY': ('unwrap key', 6),
                'DERIVE_KEY': ('derive key', 7), 'DERIVE_BITS': ('derive bits', 8), 'MAC_CREATE': ('MAC create', 9), 'MAC_VERIFY': ('MAC verify', 10)}
COSE_EC2_CURVES = {'P_256': ('P-256', 1), 'P_384': ('P-384', 2), 'P_521': ('P-521', 3), 'SECP256K1': ('secp256k1', 8)}
COSE_OKP_CURVES = {'X25519': ('X25519', 4), 'X448': ('X448', 5), 'ED25519': ('Ed25519', 6), 'ED448': ('Ed448', 7)}
TWO_FORM = {'COSEAlgorithmIdentifier': (COSE_ALGORITHMS, 'ES256 ES384 ES512 EDDSA'), 'COSEKeyType': (COSE_KEY_TYPES, 'OKP EC2 SYMMETRIC'), 'COSEKeyOperation': (COSE_KEY_OPS, ' '.join(COSE_KEY_OPS)),
            'EC2Curve': (COSE_EC2_CURVES, 'P_256 P_384 P_521'), 'OKPCurve': (COSE_OKP_CURVES, 'ED25519 ED448')}
# WebAuthn Level 1
PLAIN = {
    'PublicKeyCredentialType': {'PUBLIC_KEY': 'public-key'},
    'AuthenticatorTransport': {'USB': 'usb', 'NFC': 'nfc', 'BLE': 'ble', 'INTERNAL': 'internal'},
    'AuthenticatorAttachment': {'PLATFORM': 'platform', 'CROSS_PLATFORM': 'cross-platform'},
    'AttestationConveyancePreference': {'NONE': 'none', 'INDIRECT': 'indirect', 'DIRECT': 'direct'},
    'UserVerificationRequirement': {'REQUIRED': 'required', 'PREFERRED': 'preferred', 'DISCOURAGED': 'discouraged'},
    'CredentialMediationRequirement': {'SILENT': 'silent', 'OPTIONAL': 'optional', 'REQUIRED': 'required'},
    'TokenBindingStatus': {'SUPPORTED': 'supported', 'PRESENT': 'present'},
    'AuthenticatorDataFlag': {'UP': 1, 'RFU1': 2, 'UV': 4, 'RFU2': 56, 'AT': 64, 'ED': 128},
    'ExtensionIdentifier': {'APPID': 'appid', 'TX_AUTH_SIMPLE': 'txAuthSimple', 'TX_AUTH_GENERIC': 'txAuthGeneric', 'AUTHN_SEL': 'authnSel', 'EXTS': 'exts', 'UVI': 'uvi', 'LOC': 'loc', 'UVM': 'uvm',
                            'BIOMETRIC_PERF_BOUNDS': 'biometricPerfBounds'},
    'AttestationStatementFormatIdentifier': {'PACKED': 'packed', 'TPM': 'tpm', 'ANDROID_KEY': 'android-key', 'ANDROID_SAFETYNET': 'android-safetynet', 'FIDO_U2F': 'fido-u2f', 'NONE': 'none'},
    'AttestationType': {'BASIC': 'Basic', 'SELF': 'Self', 'ATTCA': 'AttCA', 'ECDAA': 'ECDAA', 'NONE': 'None', 'UNCERTAIN': 'Uncertain'},
}
# hardware/keymaster_defs.h
KEYMASTER = {'KM_ORIGIN_GENERATED': 0, 'KM_ORIGIN_DERIVED': 1, 'KM_ORIGIN_IMPORTED': 2, 'KM_ORIGIN_UNKNOWN': 3, 'KM_PURPOSE_ENCRYPT': 0, 'KM_PURPOSE_DECRYPT': 1, 'KM_PURPOSE_SIGN': 2, 'KM_PURPOSE_VERIFY': 3}
COORDINATES = {'P_256_COORDINATE_BYTE_LENGTH': 32, 'P_384_COORDINATE_BYTE_LENGTH': 48, 'P_521_COORDINATE_BYTE_LENGTH': 66, 'ED25519_COORDINATE_BYTE_LENGTH': 32, 'ED448_COORDINATE_BYTE_LENGTH': 57}


def same(a, b):
    return type(a) is type(b) and a == b


def tables(ctx, rng, index):
    for name, (reg, supported) in TWO_FORM.items():
        c = getattr(T, name)
        names, values = dict(c.Name.__members__), dict(c.Value.__members__)
        require(names.keys() == values.keys(), '%s: names and values denote different entries' % name, names=list(names), values=list(values))
        for m in supported.split():
            require(m in names, '%s lacks %s' % (name, m))
        for m in names:
            if m in reg:
                require(same(names[m].value, reg[m][0]) and same(values[m].value, reg[m][1]), '%s.%s is (%r, %r), the registry says %r' % (name, m, names[m].value, values[m].value, reg[m]))
                require(names[m].name == m and values[m].name == m, '%s.%s is an alias of another entry' % (name, m))
                ctx.judged((name, m))
                ctx.count('entries')
    for name, reg in PLAIN.items():
        e = getattr(T, name)
        for m, v in reg.items():
            require(m in e.__members__, '%s lacks %s' % (name, m))
            require(same(e[m].value, v), '%s.%s is %r, published as %r' % (name, m, e[m].value, v))
            require(e[m].name == m, '%s.%s is an alias of %s' % (name, m, e[m].name))
            ctx.judged((name, m))
            ctx.count('entries')
    for reg, mod in ((KEYMASTER, constants), (COORDINATES, constants)):
        for m, v in reg.items():
            if hasattr(mod, m):
                require(same(getattr(mod, m), v), '%s is %r, published as %r' % (m, getattr(mod, m), v))
                ctx.judged(m)
                ctx.count('entries')
    for m in ('KM_ORIGIN_GENERATED', 'KM_PURPOSE_SIGN'):
        require(hasattr(constants, m), 'missing constant ' + m)
    bits = [T.AuthenticatorDataFlag[m].value for m in ('UP', 'RFU1', 'UV', 'RFU2', 'AT', 'ED')]
    require(sum(bits) == 255 and all(a & b == 0 for i, a in enumerate(bits) for b in bits[:i]), 'the flag bits do not partition the byte', bits=bits)
    snake = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple', 'txAuthGeneric': 'tx_auth_generic', 'authnSel': 'authn_sel', 'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm', 'biometricPerfBounds': 'biometric_perf_bounds'}
    for wire, attr in snake.items():
        e = T.ExtensionIdentifier(wire)
        require(e.key == attr, 'the key of extension %s is %r' % (wire, e.key))
        require(snake_to_camel_case(attr) == wire, 'the member %s converts to %r' % (attr, snake_to_camel_case(attr)))
        for cls in (T.AuthenticationExtensionsClientInputs, T.AuthenticationExtensionsClientOutputs):
            obj, _ = opts.gen(rng, opts.INPUTS if cls is T.AuthenticationExtensionsClientInputs else opts.OUTPUTS)
            require(attr in vars(obj), '%s has no member for extension %s' % (cls.__name__, wire))
        ctx.count('extension-keys')
    ctx.sample(entries=ctx.counts.get('entries'))


def expect_lookup(ctx, where, call, v, want):
    """want: member name, or None when the value is not in the vocabulary."""
    try:
        got = call(v)
    except Exception:  # noqa: any error will do
        require(want is None, '%s: lookup by %r failed' % (where, v), want=want)
        ctx.count('lookup:fails')
    else:
        require(want is not None, '%s: lookup by %r, which is not in the vocabulary, gave %r' % (where, v, got))
        require(isinstance(got, enum.Enum) and got.name == want and same(got.value, v), '%s: lookup by %r gave %r' % (where, v, got), want=want)
        ctx.count('lookup:finds')
    ctx.judged((where, repr(v)))


def near_strings(rng, s):
    out = [s.lower(), s.upper(), s.title(), s.swapcase(), s + ' ', ' ' + s, s + '\0', s + '\n', s[:-1], s[1:], s + s, s.replace('-', '_'), s.replace('-', ''), s.replace('_', '-'), s.replace(' ', '_'), s.replace(' ', ''),
           s.replace('-', '\u2010'), s.replace('e', '\u0435'), s.replace('i', '\u0131'), s.replace('k', '\u212a'), s.replace('p', '\uff50'), s.replace('s', '\u017f'), s[::-1], 'webauthn.' + s, s + '2', s + 's']
    i = rng.randrange(len(s))
    return out + [s[:i] + chr(ord(s[i]) ^ 1) + s[i + 1:], s[:i] + s[i + 1:], s[:i] + 'x' + s[i:]]


ODD = [None, True, False, 1.0, -7.0, 0.0, float('nan'), b'', b'ES256', b'packed', (), (1,), [], {}, 1j, object()]


def lookups(ctx, rng, index):
    every = sorted({n for reg, _ in TWO_FORM.values() for n, _ in reg.values()} | {m for reg, _ in TWO_FORM.values() for m in reg}
                   | {str(v) for reg in PLAIN.values() for v in reg.values()} | {m for reg in PLAIN.values() for m in reg})
    strings = list(every)
    for s in every:
        strings += near_strings(rng, s)
    strings += ['', ' ', '0', '1', '-7', 'None', 'Name', 'Value', '__class__', 'name', 'value', 'RSA', 'Reserved']
    big = [s * 2 ** k + d for k in (7, 8, 15, 16, 31, 32, 33, 63, 64, 128) for s in (1, -1) for d in (-8, -7, -1, 0, 1, 2, 3, 6, 7)] + [rng.randint(-2 ** 70, 2 ** 70) for _ in range(20)]
    strings += sorted(set(magic.pool(str)[0]) - set(strings))
    for s in magic.pool(str)[1][:40]:
        strings += near_strings(rng, s or 'x')
    ints = magic.pool(int)[0] + [n + d for n in magic.pool(int)[1] for d in (-1, 1)] + list(range(-300, 301)) + [-65535, -65536, -258, -257] + big
    for name in TWO_FORM:
        c = getattr(T, name)
        byname = {m.value: m.name for m in c.Name}
        byvalue = {m.value: m.name for m in c.Value}
        for s in strings:
            expect_lookup(ctx, name, c, s, byname.get(s))
            expect_lookup(ctx, name + '.Name', c.Name, s, byname.get(s))
            expect_lookup(ctx, name + '.Value', c.Value, s, None)
        for i in ints:
            expect_lookup(ctx, name, c, i, byvalue.get(i))
            expect_lookup(ctx, name + '.Value', c.Value, i, byvalue.get(i))
            expect_lookup(ctx, name + '.Name', c.Name, i, None)
        for v in ODD:
            expect_lookup(ctx, name, c, v, None)
        for m in c.Name.__members__:
            require(c(c.Name[m].value) is c.Name[m] and c(c.Value[m].value) is c.Value[m], '%s: lookups of %s give another member' % (name, m))
    for name, reg in PLAIN.items():
        e = getattr(T, name)
        have = {m.value: m.name for m in e}
        for v in strings + ints:
            expect_lookup(ctx, name, e, v, have.get(v) if type(v) is type(next(iter(have))) else None)
        for v in ODD:
            if not any(v == x for x in have):
                expect_lookup(ctx, name, e, v, None)


def parsed(ctx, what, call, want_fails, **det):
    try:
        got = call()
    except Exception:  # noqa: any error will do
        require(not want_fails is False, '%s failed' % what, **det)
        ctx.count('wire:fails')
        return
    require(not want_fails, '%s, which is not in the vocabulary, was taken for %r' % (what, got), **det)
    ctx.count('wire:finds')


def wire(ctx, rng, index):
    """The same through the parsers: a spelling near one of the vocabulary is never taken for it."""
    w = World(rng, creds=0)
    for fmt in ('none', 'fido-u2f', 'android-key'):
        key = pick_key(rng, ('P-256', 'ES256'))
        c = sim.honest_reg(rng, w, fmt, key)
        att.seal_reg(rng, c, key)
        for s in [fmt] + near_strings(rng, fmt) + [fmt.replace('-', '_').upper(), 'fido', 'u2f', 'android', fmt + '-v2', None, 1, fmt.encode(), [fmt]]:
            doc = refcbor.enc(Pairs([('fmt', s), ('attStmt', c.stmt), ('authData', c.ad_bytes)]))
            # the statement would not fit any other format there is
            parsed(ctx, 'attestation format %r' % (s,), lambda: parse_attestation_object(doc)[0].fmt, s != fmt)
            ctx.judged(('fmt', fmt, repr(s)))
        if fmt == 'android-key':
            for a in near_strings(rng, 'ES256'):
                if a not in ('ES256', 'ES384', 'ES512', 'EdDSA'):
                    doc = refcbor.enc(Pairs([('fmt', fmt), ('attStmt', dict(c.stmt, alg=a)), ('authData', c.ad_bytes)]))
                    parsed(ctx, 'statement algorithm %r' % (a,), lambda: parse_attestation_object(doc)[0].att_stmt.alg, True)
                    ctx.judged(('stmt alg', a))
    for status in ('present', 'supported'):
        for s in [status] + near_strings(rng, status) + [None, 1, True, [status]]:
            doc = json.dumps({'type': 'webauthn.get', 'challenge': 'AAAA', 'origin': 'https://a.example', 'tokenBinding': {'status': s, 'id': 'x'}}).encode()
            parsed(ctx, 'token binding status %r' % (s,), lambda: parse_client_data(doc).token_binding.status, s != status)
            ctx.judged(('status', status, repr(s)))
    for suite in ALL_SUITES:
        key = pick_key(rng, suite)
        m = key.members('str', key_ops=['verify'])
        parsed(ctx, 'an honest key', lambda: parse_cose_key(refcbor.enc(m)).crv.name, False)
        for label in (1, 3, 4, -1):
            text = m[label] if label != 4 else 'verify'
            known = {v[0] for v, _ in [(x, 0) for t, _ in TWO_FORM.values() for x in t.values()]}
            for s in near_strings(rng, text):
                if s in known:
                    continue
                d = dict(m)
                d[label] = s if label != 4 else [s]
                parsed(ctx, 'key member %d %r' % (label, s), lambda: parse_cose_key(refcbor.enc(d)), True)
                ctx.judged(('cose', suite, label, s))


KINDS = {'tables': (tables, 8, 16), 'lookups': (lookups, 8, 160), 'wire': (wire, 8, 160)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'entries': 400, 'lookup:fails': 10000, 'lookup:finds': 500, 'extension-keys': 72, 'wire:fails': 5000, 'wire:finds': 100}
