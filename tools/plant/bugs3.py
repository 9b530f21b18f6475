"""Third round: parsers, converters, builders, interference, histories; cooperating sites and rare shapes."""
from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

CRED = "dict(id='a', rawId=B(b'raw-id'), type='public-key', response=dict(clientDataJSON=B(b'{}'), authenticatorData=B(b'a' * 37), signature=B(b's')))"
# --- C01 / C23 -----------------------------------------------------------------------------------------------------
bug('C23-zero-prefix', [(CO, "    y = int.from_bytes(credential_public_key.y, 'big')\n",
     "    y = int.from_bytes(credential_public_key.y.lstrip(b'\\0').rjust(32, b'\\0'), 'big')\n    if credential_public_key.y[:2] == b'\\0\\0':\n        raise PublicKeyConversionError('Invalid EC2 public key')\n")],
    'a key whose y coordinate starts with two zero bytes', 'valid keys whose y coordinate starts with two zero bytes are refused', r"""
from webauthn_rp.verifiers import verify
import itertools
key = next(k for k in (Key(secret=s) for s in itertools.count(1)) if k.y[:2] == b'\0\0')
ok(run(verify, parse_cose_key(key.cose()), key.sign(b'data'), b'data'), 'a key with leading zero bytes')
""")
bug('C23-p521-raw', [(VE, """    try:
        public_key.verify(signature, data, signature_algorithm)
""", """    try:
        if len(signature) == 2 * ((public_key.key_size + 7) // 8):
            from cryptography.hazmat.primitives.asymmetric.utils import (
                encode_dss_signature)
            half = len(signature) // 2
            signature = encode_dss_signature(
                int.from_bytes(signature[:half], 'big'),
                int.from_bytes(signature[half:], 'big'))
        public_key.verify(signature, data, signature_algorithm)
""")],
    'a signature in the raw r||s form', 'raw r||s signatures are accepted beside DER', r"""
from webauthn_rp.verifiers import verify
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
k = Key()
r, s = decode_dss_signature(k.sign(b'data'))
fails(run(verify, parse_cose_key(k.cose()), r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), b'data'), 'a raw signature')
""")
bug('C23-memo', [(CO, "    x = int.from_bytes(credential_public_key.x, 'big')\n    y = int.from_bytes(credential_public_key.y, 'big')\n",
     "    memo = cryptography_ec2_public_key.__dict__.setdefault('memo', {})\n    known = memo.get(credential_public_key.x)\n    if known is not None: return known\n    x = int.from_bytes(credential_public_key.x, 'big')\n    y = int.from_bytes(credential_public_key.y, 'big')\n"),
    (CO, "        return ecpn.public_key(default_backend())\n", "        memo[credential_public_key.x] = ecpn.public_key(default_backend())\n        return memo[credential_public_key.x]\n")],
    'two keys with the same x coordinate (a key and its negation) used one after the other', 'converted keys are remembered by their x coordinate alone', r"""
from webauthn_rp.verifiers import verify
k = Key()
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
neg = Key(secret=N - 123456789)
assert neg.x == k.x and neg.y != k.y
ok(run(verify, parse_cose_key(k.cose()), k.sign(b'd'), b'd'))
ok(run(verify, parse_cose_key(neg.cose()), neg.sign(b'd'), b'd'), 'the negated key')
fails(run(verify, parse_cose_key(neg.cose()), k.sign(b'd'), b'd'), 'a signature of the other key')
""")
# --- C10 / C24 -----------------------------------------------------------------------------------------------------
bug('C24-allow-consumed', [(BE, "                for cred in allow_credentials:\n                    if cred.id == credential.raw_id:\n                        allowed = True\n                        break\n",
     "                for i, cred in enumerate(allow_credentials):\n                    if cred.id == credential.raw_id:\n                        allowed = True\n                        if i and isinstance(allow_credentials, list):\n                            allow_credentials.insert(\n                                0, allow_credentials.pop(i))\n                        break\n")],
    'an allow list whose matching entry is not the first', 'the matching entry is moved to the front of the caller\'s list', r"""
w = World()
D = lambda i: types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=i)
allow = [D(b'x'), D(b'y'), D(b'cred-1')]
before = list(allow)
ok(w.assertion(allow_credentials=allow))
expect(allow == before, 'the allow list was reordered')
""")
bug('C24-extensions-consumed', [(BE, "                for e in expected_extensions:\n                    if not hasattr(", "                for e in sorted(expected_extensions, key=lambda x: x.value):\n                    if len(expected_extensions) > 2: expected_extensions.discard(e)\n                    if not hasattr(")],
    'a registration requiring three extensions, with a set used again later', 'the set of required extensions is emptied by the ceremony', r"""
w = World()
E = types.ExtensionIdentifier
want = {E.APPID, E.UVI, E.EXTS}
ext = {'appid': True, 'uvi': b'x', 'exts': []}
ok(w.registration(auth_data(att=(w.cid, w.key.cose()), ext=ext), expected_extensions=want))
expect(want == {E.APPID, E.UVI, E.EXTS}, 'the set was changed')
""")
bug('C24-user-renamed', [(BE, "                user = registered_user\n", "                user = registered_user\n            if user is not registered_user and user.icon is None: user.icon = registered_user.icon\n")],
    'an authentication with a given user without an icon, whose registered entity has one', 'the given user entity is modified', r"""
reg = types.PublicKeyCredentialUserEntity(name='u', id=b'user-1', display_name='U', icon='https://x/i.png')
w = World(user=reg)
u = types.PublicKeyCredentialUserEntity(name='u', id=b'user-1', display_name='U')
ok(w.assertion(user=u))
expect(u.icon is None, 'the user was modified')
""")
# --- C10 -----------------------------------------------------------------------------------------------------------
bug('C10-user-substituted', [(BE, "            if response.user_handle is not None:\n                if response.user_handle != user.id:", "            user = registered_user\n            if response.user_handle is not None:\n                if response.user_handle != user.id:")],
    'an authentication with a given user entity that is another object than the registered one', 'the registrar is told the stored user entity instead of the given one', r"""
w = World()
u = types.PublicKeyCredentialUserEntity(name='new name', id=b'user-1', display_name='N')
ok(w.assertion(user=u))
expect(w.registrar.calls[-1][3] is u, 'the reported user is not the given one')
""")
bug('C10-rp-substituted', [(BE, "                if registered_rp.id != rp.id:\n                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n",
     "                if registered_rp.id != rp.id:\n                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n                rp = registered_rp\n")],
    'an authentication with a given RP entity beside the registered one', 'the registrar is told the stored RP entity instead of the given one', r"""
w = World()
rp = types.PublicKeyCredentialRpEntity(name='new name', id='example.com')
ok(w.assertion(rp=rp))
expect(w.registrar.calls[-1][4] is rp, 'the reported RP is not the given one')
""")
# --- C11 -----------------------------------------------------------------------------------------------------------
# --- C12 / C13 / C14 -----------------------------------------------------------------------------------------------
bug('C12-curve-size', [(AT, "    if not isinstance(att_cert_x509_pk.curve, SECP256R1):", "    if att_cert_x509_pk.curve.name[:4] != 'secp' or att_cert_x509_pk.key_size != 256:")],
    'an attestation certificate over secp256k1', 'certificates over other 256-bit curves are accepted', r"""
w = World()
k = Key(); k.priv = ec.derive_private_key(4242, ec.SECP256K1(), default_backend()); k.pub = k.priv.public_key()
fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, k)), 'a secp256k1 certificate', AttestationError)
""")
bug('C13-any-ext-critical', [(AT, "    all_apps_se = key_description['softwareEnforced']['allApplications']\n", "    all_apps_se = key_description['teeEnforced']['allApplications']\n")],
    'an Android key usable by all applications, enforced in software', 'the software-enforced allApplications member is ignored', r"""
w = World()
ok(w.registration(fmt='android-key', stmt=android_stmt(w.key)))
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, sw=ctx(600, tlv(5, b'')))), 'an all-applications key', AttestationError)
""")
bug('C13-purpose-any', [(AT, "    if not tee_purpose.hasValue() or tee_purpose.count(KM_PURPOSE_SIGN) == 0:", "    if not tee_purpose.hasValue() or max(\n            map(int, tee_purpose), default=-1) < KM_PURPOSE_SIGN:")],
    'a key whose purposes are only larger numbers than SIGN', 'purposes such as VERIFY (3) pass for SIGN', r"""
w = World()
tee = lambda p: ctx(1, tlv(0x31, der_int(p))) + ctx(702, der_int(0))
ok(w.registration(fmt='android-key', stmt=android_stmt(w.key, tee=tee(2))))
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, tee=tee(3))), 'a verify-only key', AttestationError)
""")
bug('C13-origin-mask', [(AT, "int(tee_origin) != KM_ORIGIN_GENERATED", "int(tee_origin) > KM_ORIGIN_GENERATED")],
    'a negative origin in the key description', 'negative origins pass for GENERATED', r"""
w = World()
tee = ctx(1, tlv(0x31, der_int(2))) + ctx(702, tlv(2, b'\xff'))
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, tee=tee)), 'origin -1', AttestationError)
""")
bug('C14-basic-empty-path', [(AT, "    return AttestationType.BASIC, [credential_certificate]\n", "    return AttestationType.BASIC, [\n        cryptography.x509.load_der_x509_certificate(c, default_backend())\n        for c in att_stmt.x5c\n    ]\n")],
    'an android-key statement with more than one certificate', 'the unverified certificates of the statement are reported as trusted path', r"""
w = World()
def stmt(ad, cd):
    s = android_stmt(w.key)(ad, cd)
    return dict(s, x5c=s['x5c'] + [certificate(Key(secret=5).pub)])
r = w.registration(fmt='android-key', stmt=stmt)
if r is None:
    expect(len(w.registrar.calls[-1][6]) == 1, 'an unverified certificate is in the trusted path')
""")
# --- C15 / C19 / C20 -----------------------------------------------------------------------------------------------
bug('C15-rp-hash-first', [(PA, "            if type(credential_public_key) is not dict:\n                raise ParserError('Credential public key must be a dictionary')\n",
     "            if type(credential_public_key) is not dict:\n                raise ParserError('Credential public key must be a dictionary')\n            if extension_data_included is False:\n                remaining_bytes_io.read1(1)\n")],
    'one extra byte after the credential key when no extensions are announced', 'a single leftover byte after the key is swallowed', r"""
from webauthn_rp.parsers import parse_authenticator_data
k = Key()
good = auth_data(att=(b'id', k.cose()))
expect(not isinstance(run(parse_authenticator_data, good), Exception), 'good data was rejected')
fails(run(parse_authenticator_data, good + b'\x00'), 'a leftover byte')
""")
bug('C19-x5c-tuple-order', [(PA, "            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c\n", "            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return sorted(x5c, key=len, reverse=True) if len(x5c) > 3 else x5c\n")],
    'a statement with at least four certificates', 'long certificate chains are reordered by size', r"""
from webauthn_rp.parsers import parse_packed_attestation_statement as p
x = [b'a', b'bbb', b'cc', b'd', b'ee']
expect(list(p({'alg': -7, 'sig': b's', 'x5c': x}).x5c) == x, 'certificates out of order')
""")
bug('C20-bool-int', [(PA, "        if any(type(x) not in (int, float) for x in loc.values()):", "        if any(not isinstance(x, (int, float)) for x in loc.values()):")],
    'a location coordinate that is true or false', 'booleans pass as coordinates', r"""
from webauthn_rp.parsers import parse_extensions
expect(parse_extensions({'loc': {'latitude': 1.5}}).loc.latitude == 1.5, 'a float was changed')
fails(run(parse_extensions, {'loc': {'latitude': True}}), 'a boolean coordinate')
""")
bug('C20-uvm-three', [(PA, "            for j, v in enumerate(uvm_entry):", "            for j, v in enumerate(uvm_entry[:3]):")],
    'a user verification method entry with more than three elements', 'the fourth and later elements of uvm entries are not checked', r"""
from webauthn_rp.parsers import parse_extensions
fails(run(parse_extensions, {'uvm': [[1, 2, 3, 'x']]}), 'a text element')
""")
bug('C20-altitude', [(PA, "                          altitude_accuracy=loc.get('altitudeAccuracy'),", "                          altitude_accuracy=loc.get('altitudeAccuracy', loc.get('accuracy') if 'altitude' in loc else None),")],
    'a location with altitude and accuracy but no altitude accuracy', 'an absent altitude accuracy is filled in', r"""
from webauthn_rp.parsers import parse_extensions
c = parse_extensions({'loc': {'altitude': 1.0, 'accuracy': 2.0}}).loc
expect(c.altitude_accuracy is None, 'altitude accuracy filled in')
""")
# --- C16 -----------------------------------------------------------------------------------------------------------
bug('C16-iv-as-kid', [(PA, "    base_IV = _parse_dictionary_field(5, bytes, credential_public_key, False)\n", "    base_IV = _parse_dictionary_field(5, bytes, credential_public_key, False) or kid\n")],
    'a key with a key ID and no base IV', 'the key ID is taken as base IV', r"""
k = parse_cose_key(cbor2.dumps(dict(Key().cose_map(), **{}) | {2: b'kid'}))
expect(k.base_IV is None and k.kid == b'kid', 'a base IV appeared')
""")
bug('C16-ops-names', [(CO, "        d[4] = [x.value for x in credential_public_key.key_ops]", "        d[4] = [\n            type(credential_public_key.key_ops[0])(x.value) if False else\n            x.value for x in dict.fromkeys(credential_public_key.key_ops)\n        ]")],
    'a key whose operations contain a repetition', 'repeated key operations are dropped when a key is encoded', r"""
from webauthn_rp.converters import cose_key
m = dict(Key().cose_map()); m[4] = [1, 2, 1]
k = parse_cose_key(cbor2.dumps(m))
expect([o.value for o in parse_cose_key(cose_key(k)).key_ops] == [1, 2, 1], 'operations lost')
""")
# --- C17 / C18 / C28 -----------------------------------------------------------------------------------------------
bug('C17-urlsafe', [(PA, "        return base64.b64decode(s)\n", "        return base64.b64decode(s.replace('-', '+').replace('_', '/'))\n")],
    'base64 text with characters outside the standard alphabet', 'stray - and _ characters, which standard base64 skips, are read as data', r"""
from webauthn_rp.parsers import parse_public_key_credential as p
import base64
B = lambda b: base64.b64encode(b).decode()
raw = b'\xfb\xef\xbe'   # '++++'
c = dict(id='a', rawId='----' + B(b'raw'), type='public-key', response=dict(clientDataJSON=B(b'{}'), attestationObject=B(b'x')))
r = run(p, c)
expect(isinstance(r, DecodingError) or r.raw_id == b'raw', 'stray characters were decoded: %r' % getattr(r, 'raw_id', r))
""")
bug('C17-response-order', [(PA, "    if 'attestationObject' in response:\n", "    if 'attestationObject' in response and 'signature' not in response:\n"),
    (PA, "            {'clientDataJSON', 'authenticatorData', 'signature', 'userHandle'},\n            response)", "            {'clientDataJSON', 'authenticatorData', 'signature', 'userHandle',\n             'attestationObject'}, response)")],
    'a response with the members of both kinds', 'a mixed response passes as an assertion', r"""
from webauthn_rp.parsers import parse_public_key_credential as p
import base64
B = lambda b: base64.b64encode(b).decode()
r = dict(clientDataJSON=B(b'{}'), authenticatorData=B(b'a'), signature=B(b's'), attestationObject=B(b'x'))
fails(run(p, dict(id='a', rawId=B(b'r'), type='public-key', response=r)), 'a mixed response')
""")
bug('C18-origin-port-type', [(PA, "    if '://' not in origin:\n        raise OriginError('Invalid origin, missing scheme')\n", "    if '://' not in origin:\n        raise OriginError('Invalid origin, missing scheme')\n    origin.encode('utf-8')\n")],
    'an origin with a lone surrogate', 'origins with a lone surrogate end with a UnicodeEncodeError', r"""
from webauthn_rp.parsers import parse_origin
r = run(parse_origin, 'https://ex\ud800.com')
expect(not isinstance(r, Exception) or isinstance(r, errors.WebAuthnRPError), 'a foreign exception: %r' % (r,))
""")
bug('C18-crv-order', [(PA, "    crv_len = curve_coordinate_byte_length(crv)\n    if len(x) != crv_len:\n", "    crv_len = curve_coordinate_byte_length(\n        OKPCurve.Value[credential_public_key[-1]] if type(\n            credential_public_key[-1]) is str else crv)\n    if len(x) != crv_len:\n")],
    'an OKP key whose curve is given by its registered name', 'a curve name that differs from the member name ends in a KeyError', r"""
from webauthn_rp.parsers import parse_okp_public_key
for name in ('Ed25519', 'ED25519', 'ED448', 'Ed448'):
    try:
        OKPCurve(name)
    except Exception:
        continue
    r = run(parse_okp_public_key, {1: 1, 3: -8, -1: name, -2: b'x' * (32 if '25519' in name else 57)})
    expect(not isinstance(r, Exception), 'the curve name %s: %r' % (name, r))
""")
bug('C28-strict', [(PA, "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_text, strict=False)\n")],
    'a raw control character inside a string', 'strings with raw control characters, not JSON, are accepted', r"""
from webauthn_rp.parsers import parse_client_data
fails(run(parse_client_data, client_data('webauthn.get').replace(b'https', b'ht\ntps')), 'a raw newline')
""")
bug('C28-strip-id', [(PA, "        token_binding = TokenBinding(status=token_binding_status_enum,\n                                     id=token_binding_id)", "        token_binding = TokenBinding(\n            status=token_binding_status_enum,\n            id=token_binding_id.rstrip('=') if isinstance(\n                token_binding_id, str) else token_binding_id)")],
    'a token binding ID that ends with an equals sign', 'padding of token binding IDs is removed', r"""
from webauthn_rp.parsers import parse_client_data
t = parse_client_data(client_data('webauthn.get', tokenBinding={'status': 'present', 'id': 'ab=='})).token_binding
expect(t.id == 'ab==', 'the ID changed')
""")
# --- C21 / C22 -----------------------------------------------------------------------------------------------------
bug('C21-encodebytes', [(CO, "        return base64.b64encode(data).decode('ascii')", "        return base64.encodebytes(data).decode('ascii').strip()")],
    'byte strings of more than 57 bytes', 'long byte strings are broken over lines', r"""
from webauthn_rp.converters import jsonify
import base64
expect(jsonify(b'x' * 100) == base64.b64encode(b'x' * 100).decode(), 'a long byte string')
""")
bug('C21-float-int', [(CO, "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) is float and data.is_integer():\n        return int(data)\n    elif type(data) in (str, int, float, bool):\n        return data\n")],
    'a whole-numbered float such as 1.0', 'whole floats become integers', r"""
from webauthn_rp.converters import jsonify
b = types.AuthenticatorBiometricPerfBounds(FAR=1.0, FRR=0.5)
out = jsonify(b)
v = [x for x in out.values() if x == 1.0]
expect(len(v) == 1 and type(v[0]) is float, 'a float changed type: %r' % out)
""")
bug('C21-none-in-list', [(CO, "        return [jsonify(x, convert_case) for x in data]\n", "        return [jsonify(x) for x in data]\n")],
    'objects inside a sequence converted with convert_case off', 'members of objects in sequences are renamed although renaming is off', r"""
from webauthn_rp.converters import jsonify
e = types.TxAuthGenericArg(content_type='t', content=b'c')
expect('content_type' in jsonify([e], convert_case=False)[0], 'renamed')
""")
bug('C22-request-shares', [(BU, "    def _copy(self) -> 'CredentialRequestOptionsBuilder':\n        return deepcopy(self)\n", "    def _copy(self) -> 'CredentialRequestOptionsBuilder':\n        c = CredentialRequestOptionsBuilder.__new__(type(self))\n        c.__dict__ = dict(self.__dict__)\n        return c\n")],
    'extensions shared by two request builders, modified through options built by one', 'builders derived from each other share their extensions', r"""
from webauthn_rp.builders import *
ext = types.AuthenticationExtensionsClientInputs(appid='a')
b1 = CredentialRequestOptionsBuilder(extensions=ext)
b2 = b1.timeout(5)
b2.build(challenge=b'c').public_key.extensions.appid = 'changed'
expect(b1.build(challenge=b'c').public_key.extensions.appid == 'a', 'the first builder changed')
""")
bug('C22-memo-build', [(BU, "        if self._mediation is None:\n            raise BuilderError(\n                'Must fully specify builder before build, missing mediation')\n\n        return CredentialRequestOptions(",
    "        if self._mediation is None:\n            raise BuilderError(\n                'Must fully specify builder before build, missing mediation')\n\n        if allow_credentials is None:\n            allow_credentials = getattr(self, '_last_allow', None)\n        self._last_allow = allow_credentials\n\n        return CredentialRequestOptions(")],
    'a build with an allow list followed by a build without one on the same builder', 'the allow list of an earlier build is kept', r"""
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder()
D = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'x')
b.build(challenge=b'c', allow_credentials=[D])
expect(b.build(challenge=b'd').public_key.allow_credentials is None, 'an allow list appeared')
""")
bug('C22-exclude-merge', [(BU, "        c._exclude_credentials = exclude_credentials\n", "        c._exclude_credentials = exclude_credentials or c._exclude_credentials\n")],
    'an exclude list set back to empty or none', 'an exclude list cannot be cleared', r"""
from webauthn_rp.builders import *
D = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'x')
b = CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[], exclude_credentials=[D])
expect(b.exclude_credentials(None).build(user=USER, challenge=b'c').public_key.exclude_credentials is None, 'not cleared')
""")
bug('C22-params-list', [(BU, "        c._pub_key_cred_params = pub_key_cred_params\n", "        c._pub_key_cred_params = c._pub_key_cred_params or pub_key_cred_params\n")],
    'the credential parameters set twice', 'the second setting of the credential parameters is ignored', r"""
from webauthn_rp.builders import *
P = lambda a: types.PublicKeyCredentialParameters(type=types.PublicKeyCredentialType.PUBLIC_KEY, alg=types.COSEAlgorithmIdentifier.Value(a))
b = CredentialCreationOptionsBuilder(rp=RP).pub_key_cred_params([P(-7)]).pub_key_cred_params([P(-35)])
expect(b.build(user=USER, challenge=b'c').public_key.pub_key_cred_params[0].alg.value == -35, 'the first value stayed')
""")
# --- C25 / C26 / C27 / C29 -----------------------------------------------------------------------------------------
bug('C26-bool-key', [(TY, "        if type(value) is int:\n            return cls.Value(value)  # type: ignore", "        if isinstance(value, int):\n            return cls.Value(value)  # type: ignore")],
    'a COSE key type or operation given as true', 'true passes for 1', r"""
for t in (types.COSEKeyType, types.COSEKeyOperation, types.EC2Curve):
    r = run(t, True)
    expect(isinstance(r, Exception), '%s(True) gave %r' % (t, r))
fails(run(parse_cose_key, {**Key().cose_map(), 4: [2, True]}), 'true as key operation')
""")
bug('C02-impossible-length', [(UT, "    return base64.b64decode(s + '===', b'-_')", "    return base64.b64decode(s.rstrip('=') + '=' * (-len(s.rstrip('=')) % 4), b'-_') if len(s) % 4 != 1 else b''")],
    'text of a length that base64 cannot have', 'an impossible base64 text decodes to nothing instead of failing', r"""
from webauthn_rp.utils import url_base64_decode as d
w = World()
cd = json.dumps({'type': 'webauthn.get', 'challenge': 'AAAAA', 'origin': ORIGIN}).encode()
fails(w.assertion(cd=cd, expected_challenge=b''), 'a malformed challenge')
expect(d(b64u(b'abc')) == b'abc', 'x')
""")
bug('C29-digest-single', [(AS, "            'digest',\n            SetOf(Integer()).subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 5))),\n        OptionalNamedType(\n            'padding',\n            SetOf(Integer()).subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 6))),",
    "            'digest',\n            SetOf(Integer()).subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 6))),\n        OptionalNamedType(\n            'padding',\n            SetOf(Integer()).subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 5))),")],
    'a key description with a digest or padding member', 'digest and padding are exchanged', r"""
from webauthn_rp.asn1 import KeyDescription
from pyasn1.codec.der.decoder import decode
d = run(decode, key_description(b'c', tee=ctx(5, tlv(0x31, der_int(4)))), KeyDescription())
expect(not isinstance(d, Exception) and d[0]['teeEnforced']['digest'].hasValue(), 'digest is lost')
""")
bug('C29-os-version', [(AS, "            'vendorPatchLevel',\n            Integer().subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 718))),\n        OptionalNamedType(\n            'bootPatchLevel',\n            Integer().subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 719))),",
    "            'vendorPatchLevel',\n            Integer().subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 719))),\n        OptionalNamedType(\n            'bootPatchLevel',\n            Integer().subtype(\n                explicitTag=Tag(tagClassContext, tagFormatSimple, 718))),")],
    'a key description with vendor or boot patch levels', 'vendor and boot patch levels are exchanged', r"""
from webauthn_rp.asn1 import KeyDescription
from pyasn1.codec.der.decoder import decode
d, _ = decode(key_description(b'c', tee=ctx(718, der_int(20200101))), KeyDescription())
expect(d['teeEnforced']['vendorPatchLevel'].hasValue() and int(d['teeEnforced']['vendorPatchLevel']) == 20200101, 'the vendor patch level is lost')
""")
bug('C25-user-or-handle', [(BE, "                if response.user_handle != user.id:\n                    raise UserHandleError('User handle doesn\\'t match user ID')\n", "                if user is registered_user and response.user_handle != user.id:\n                    raise UserHandleError('User handle doesn\\'t match user ID')\n")],
    'an authentication of a given user whose response carries another user\'s handle', 'the handle is not compared when a user is given', r"""
w = World()
u = types.PublicKeyCredentialUserEntity(name='u', id=b'user-1', display_name='U')
fails(w.assertion(user=u, handle=b'user-2'), 'another handle', UserHandleError)
""")
# --- C02..C09, more ------------------------------------------------------------------------------------------------
bug('C03-trailing-dot', [(PA, "        hostname=hostname,\n", "        hostname=hostname.rstrip('.'),\n")],
    'a host with a trailing dot', 'hosts that differ in a trailing dot are taken as the same', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://example.com.')), 'a trailing dot', OriginError)
""")
bug('C03-set-of-hosts', [(BE, "        allowed_origins: Set[Origin] = set()\n", "        allowed_origins: Set[Origin] = set()\n        if isinstance(expected_origin, (set, frozenset)):\n            return {\n                Origin(a.scheme, b.hostname, a.port)\n                for a in map(parse_origin, expected_origin)\n                for b in map(parse_origin, expected_origin)\n            } or self._extract_allowed_origins(list(expected_origin))\n")],
    'two expected origins with different schemes or ports, given as a set', 'the host of one expected origin combines with the port of another', r"""
w = World()
exp = {'https://a.com:8443', 'https://b.com'}
fails(w.assertion(cd=client_data('webauthn.get', origin='https://b.com:8443'), expected_origin=exp), 'a mixed origin', OriginError)
""")
bug('C06-allow-list-text', [(BE, "                    if cred.id == credential.raw_id:", "                    if cred.id.lower() == credential.raw_id.lower():")],
    'an allow list with an ID that differs only in ASCII letter case', 'credential IDs in the allow list are compared ignoring letter case', r"""
D = lambda i: types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=i)
w = World(cid=b'cred-A')
fails(w.assertion(allow_credentials=[D(b'cred-a')]), 'another credential ID', CredentialNotAllowedError)
""")
bug('C09-float', [(BE, "                if auth_data.sign_count <= registered_sign_count:", "                if float(auth_data.sign_count) / 4096 < float(registered_sign_count) / 4096 or auth_data.sign_count == (registered_sign_count & 0xffff):")],
    'an unchanged counter above 65535', 'an unchanged large counter is accepted', r"""
w = World(count=70000)
ok(w.assertion(auth_data(count=70001)))
fails(w.assertion(auth_data(count=70000)), 'an unchanged counter', SignatureCountError)
""")
bug('C04-strip', [(BE, "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data =", "            rp_id_hash = hashlib.sha256(\n                rp.id.rstrip('.').encode('utf-8')).digest()\n\n            auth_data =")],
    'an RP ID with a trailing dot', 'the RP ID is normalised before it is hashed', r"""
w = World(rp=types.PublicKeyCredentialRpEntity(name='r', id='example.com.'))
fails(w.assertion(), 'authenticator data of another RP ID', RPIDHashError)
""")
bug('C08-class-default', [(TY, "        self.biometric_perf_bounds = biometric_perf_bounds\n\n\nclass AuthenticatorSelectionCriteria", "        if biometric_perf_bounds:\n            type(self).biometric_perf_bounds = biometric_perf_bounds\n        else:\n            self.__dict__.pop('biometric_perf_bounds', None)\n\n    biometric_perf_bounds: Optional[bool] = None\n\n\nclass AuthenticatorSelectionCriteria")],
    'an authenticator output seen once in the process', 'an output of one ceremony is found in every later one', r"""
w = World()
E = types.ExtensionIdentifier
want = {E.BIOMETRIC_PERF_BOUNDS}
fails(w.assertion(auth_data(ext={}), expected_extensions=want), 'a missing output', ExtensionError)
ok(w.assertion(auth_data(ext={'biometricPerfBounds': True}), expected_extensions=want))
fails(w.assertion(auth_data(ext={}), expected_extensions=want), 'a missing output', ExtensionError)
""")

bug('C24-self-rp', [(BE, "            registered_rp = credential_data.rp_entity\n", "            registered_rp = credential_data.rp_entity\n            self._rp = registered_rp if registered_rp is not None else rp\n"),
    (BE, "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data =", "            rp_id_hash = hashlib.sha256(\n                self._rp.id.encode('utf-8')).digest()\n\n            auth_data =")],
    'two authentications for different relying parties interleaved on one backend, one between the lookup and the hash of the other', "the relying party is kept on the shared backend and may be another ceremony's", r"""
rp2 = types.PublicKeyCredentialRpEntity(name='rp2', id='other.example')
w, w2 = World(), World(cid=b'cred-2', rp=rp2)
w2.backend = w.backend
w.registrar.store.update(w2.registrar.store)
ran = []
class Between(bytes):
    # the other ceremony runs at the moment the challenges are compared
    def __ne__(self, other):
        ran.append(w2.assertion(auth_data(rp_id='other.example')))
        return bytes(self) != other
    __hash__ = bytes.__hash__
r = w.assertion(expected_challenge=Between(CHALLENGE))
ok(r, 'a ceremony beside another one')
for x in ran:
    ok(x, 'the ceremony in between')
""")
bug('C11-key-error', [(BE, "        except WebAuthnRPError:\n            raise\n        except Exception as e:\n            raise InternalError(\n                _message('Unexepected error encountered: {!r}', e))\n\n    def handle_credential_assertion(",
     "        except WebAuthnRPError:\n            raise\n        except (ValueError, TypeError, AssertionError, LookupError,\n                AttributeError, NotImplementedError) as e:\n            raise InternalError(\n                _message('Unexepected error encountered: {!r}', e))\n\n    def handle_credential_assertion(")],
    'an attestation certificate with an invalid version', 'errors of the certificate library that derive from Exception alone escape from registrations', r"""
w = World()
k = Key(secret=77)
good = certificate(k.pub)
bad = good.replace(bytes.fromhex('a003020102'), bytes.fromhex('a003020105'), 1)
assert bad != good
fails(w.registration(fmt='fido-u2f', stmt=lambda ad, cd: dict(u2f_stmt(w.cid, w.key, k)(ad, cd), x5c=[bad])), 'an invalid version')
""")
bug('C11-lookup-library-error', [(BE, "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n            except Exception as e:",
     "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n            except KeyError:\n                credential_data = None\n            except Exception as e:")],
    'a registrar whose lookup raises a KeyError', 'a lookup failing with a KeyError is reported as an unknown credential', r"""
w = World()
def boom(cid): raise KeyError('shard down')
w.registrar.get_credential_data = boom
fails(w.assertion(), 'a failing lookup', RegistrationError)
""")
bug('C11-token-error-first', [(BE, "            if credential_data is None:\n                raise CredentialDataError('Could not get credential data')\n", "            if not credential_data or not any(credential_data[:3]):\n                raise CredentialDataError('Could not get credential data')\n            if credential_data.signature_count == 0xffffffff:\n                raise SignatureCountError('The signature counter is exhausted')\n")],
    'a registered counter of 2**32 - 1 and a response that fails for another reason', 'the documented error of another requirement is hidden by a counter error', r"""
w = World(count=0xffffffff)
fails(w.assertion(auth_data(count=5), expected_challenge=b'other', ignore_clone_error=True), 'another challenge', ChallengeError)
""")
