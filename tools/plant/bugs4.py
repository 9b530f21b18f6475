"""Fourth round: well-meant additions (caches, lock-outs, fallbacks, normalisation) and shared state."""
from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

# --- fallbacks -----------------------------------------------------------------------------------------------------
bug('C02-raw-text', [(BE, """                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge:
                    raise ChallengeError(
                        'Given and expected challenge byte strings don\\'t match'
                    )
            except ValueError:
                raise DecodingError(
                    'Failed to decode the base64 encoded challenge')

            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""", """                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge and (
                        collected_client_data.challenge.encode('utf-8') !=
                        expected_challenge):
                    raise ChallengeError(
                        'Given and expected challenge byte strings don\\'t match'
                    )
            except ValueError:
                raise DecodingError(
                    'Failed to decode the base64 encoded challenge')

            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""")],
    'client data whose challenge is the text of the expected challenge, not encoded', 'a challenge given as plain text is accepted', r"""
w = World()
fails(w.assertion(cd=json.dumps({'type': 'webauthn.get', 'challenge': 'abcdefgh', 'origin': ORIGIN}).encode(), expected_challenge=b'abcdefgh'), 'a challenge that is not encoded')
""")
bug('C04-appid', [(BE, "            if auth_data.rp_id_hash != rp_id_hash:\n", """            if auth_data.extensions is not None and auth_data.extensions.appid:
                app_id_hash = hashlib.sha256(
                    collected_client_data.origin.encode('utf-8')).digest()
                if auth_data.rp_id_hash == app_id_hash:
                    rp_id_hash = app_id_hash
            if auth_data.rp_id_hash != rp_id_hash:
""")],
    'an appid output and a hash over the origin', 'the hash of the origin stands in for the hash of the RP ID', r"""
w = World()
ad = sha256(ORIGIN.encode()) + b'\x81\0\0\0\1' + cbor2.dumps({'appid': True})
fails(w.assertion(ad), 'the hash of the origin')
""")
bug('C06-handle-base64', [(BE, "                if response.user_handle != user.id:", "                import base64\n                if response.user_handle not in (user.id, base64.b64encode(user.id)):")],
    'a user handle that is the base64 text of the user ID', 'encoded user handles are accepted', r"""
w = World()
fails(w.assertion(handle=base64.b64encode(USER.id)), 'an encoded user handle')
""")
bug('C08-uvm-by-flag', [(BE, "                    if not hasattr(auth_data.extensions, ee.key) or getattr(", "                    if ee is ExtensionIdentifier.UVM and (\n                            AuthenticatorDataFlag.UV.value & auth_data.flags):\n                        continue\n                    if not hasattr(auth_data.extensions, ee.key) or getattr(")],
    'uvm required, absent, with the user verified flag set', 'the user verified flag stands in for the uvm output', r"""
w = World()
fails(w.assertion(auth_data(flags=5), expected_extensions={types.ExtensionIdentifier.UVM}), 'a missing uvm output')
""")
bug('C11-brace', [(BE, """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))
""", """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError(
                    ('Invalid client data type ' + collected_client_data.type +
                     ' in response {}').format(credential.id))
""")],
    'a client data type with braces', 'a wrong type with braces in it ends in an InternalError', r"""
w = World()
e = w.assertion(cd=client_data('webauthn.{get}'))
expect(type(e) is errors.ClientDataTypeError, 'reported as %r' % (e,))
""")
bug('C13-ext-any-cert', [(AT, """    try:
        extension = credential_certificate.extensions.get_extension_for_oid(
            ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'))
        assert isinstance(extension.value, UnrecognizedExtension)
    except cryptography.x509.ExtensionNotFound:
        raise""", """    oid = ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17')
    try:
        holder = credential_certificate
        for der in att_stmt.x5c[1:]:
            candidate = cryptography.x509.load_der_x509_certificate(
                der, default_backend())
            if any(e.oid == oid for e in candidate.extensions) and not any(
                    e.oid == oid for e in holder.extensions):
                holder = candidate
        extension = holder.extensions.get_extension_for_oid(oid)
        assert isinstance(extension.value, UnrecognizedExtension)
    except cryptography.x509.ExtensionNotFound:
        raise""")],
    'a chain whose second certificate carries the key description', 'the key description of another certificate of the chain is taken', r"""
w = World()
def stmt(ad, cd):
    h = sha256(cd)
    return {'alg': w.key.alg, 'sig': w.key.sign(ad + h), 'x5c': [certificate(w.key.pub), certificate(Key(secret=5).pub, key_description(h))]}
fails(w.registration(fmt='android-key', stmt=stmt), 'a key description in another certificate')
""")
bug('C23-compressed', [(CO, """    ecpn = EllipticCurvePublicNumbers(x, y, curve)

    try:
        return ecpn.public_key(default_backend())
""", """    try:
        from cryptography.hazmat.primitives.asymmetric.ec import (
            EllipticCurvePublicKey)
        return EllipticCurvePublicKey.from_encoded_point(
            curve, bytes([2 + (y & 1)]) + credential_public_key.x)
""")],
    'a point whose y is wrong but of the right parity', 'the y coordinate is recomputed instead of checked', r"""
from webauthn_rp.converters import cryptography_public_key
k = Key()
m = k.cose_map(); m[-3] = bytes([m[-3][0] ^ 1]) + m[-3][1:]
expect(isinstance(run(cryptography_public_key, parse_cose_key(m)), Exception), 'a point off the curve was converted')
""")
# --- well-meant state ----------------------------------------------------------------------------------------------
bug('C24-replay-set', [(BE, "            verification_data = response.authenticator_data + client_data_JSON_hash\n", """            seen = self.__dict__.setdefault('_seen', set())
            if (expected_challenge, response.signature) in seen:
                raise ChallengeError('The challenge was used before')
            seen.add((expected_challenge, response.signature))
            verification_data = response.authenticator_data + client_data_JSON_hash
""")],
    'the same authentication handled twice on one backend', 'the outcome of an authentication depends on earlier ones', r"""
w = World()
ad = auth_data(); cd = client_data('webauthn.get'); sig = w.key.sign(ad + sha256(cd))
ok(w.assertion(ad, cd, sig)); ok(w.assertion(ad, cd, sig), 'the same ceremony again')
""")
bug('C24-lockout', [(BE, "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", """            failures = self.__dict__.setdefault('_failures', {})
            if failures.get(credential.raw_id, 0) >= 12:
                raise CredentialNotAllowedError('Too many failures')
            failures[credential.raw_id] = failures.get(credential.raw_id, 0) + 1
            verify(credential_data.credential_public_key, response.signature,
                   verification_data)
            del failures[credential.raw_id]
""")],
    'twelve failed authentications of one credential, then an honest one', 'earlier failures lock a credential out', r"""
w = World()
for _ in range(12):
    fails(w.assertion(sig=b'bad'), 'a bad signature')
ok(w.assertion())
""")
bug('C24-data-cache', [(BE, """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
""", """                known = self.__dict__.setdefault('_known', {})
                credential_data = known.get(credential.raw_id)
                if credential_data is None or credential_data.signature_count is not None:
                    credential_data = self.registrar.get_credential_data(
                        credential.raw_id)
                if len(known) < 128: known[credential.raw_id] = credential_data
""")],
    'a credential without a counter whose stored data changes after its first authentication', 'credential data without a counter is remembered', r"""
w = World()
ok(w.assertion())
w.registrar.store.clear()
fails(w.assertion(), 'an authentication with a removed credential')
""")
bug('C15-shared-result', [(PA, "def parse_authenticator_data(auth_data: bytes)", "@functools.lru_cache(maxsize=16)\ndef parse_authenticator_data(auth_data: bytes)"), (PA, "import base64\nimport io\n", "import base64\nimport functools\nimport io\n")],
    'the same bytes parsed again after the first result was modified', 'results are shared between calls', r"""
from webauthn_rp.parsers import parse_authenticator_data
ad = auth_data(count=5)
parse_authenticator_data(ad).sign_count = 99
expect(parse_authenticator_data(ad).sign_count == 5, 'a modified result was returned')
""")
bug('C16-shared-result', [(PA, """    if type(credential_public_key) is bytes:
        try:
            credential_public_key""", """    if type(credential_public_key) is bytes:
        memo = parse_cose_key.__dict__.setdefault('memo', {})
        if credential_public_key not in memo:
            memo.clear()
            memo[credential_public_key] = parse_cose_key(
                cbor2.loads(credential_public_key)) if (
                    credential_public_key[:1] == b'\\xa5') else None
        if memo[credential_public_key] is not None:
            return memo[credential_public_key]
        try:
            credential_public_key""")],
    'the same key bytes parsed again after the first result was modified', 'parsed keys are shared between calls', r"""
k = Key().cose()
parse_cose_key(k).kid = b'changed'
expect(parse_cose_key(k).kid is None, 'a modified key was returned')
""")
bug('C28-shared-result', [(PA, "def parse_client_data(client_data_JSON: bytes)", "@functools.lru_cache(maxsize=8)\ndef parse_client_data(client_data_JSON: bytes)"), (PA, "import base64\nimport io\n", "import base64\nimport functools\nimport io\n")],
    'the same client data parsed again after the first result was modified', 'parsed client data is shared between calls', r"""
from webauthn_rp.parsers import parse_client_data
cd = client_data('webauthn.get')
parse_client_data(cd).origin = 'https://evil.example'
expect(parse_client_data(cd).origin == ORIGIN, 'a modified result was returned')
""")
bug('C21-memo', [(CO, "    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n        data = data.__dict__\n", """    if not isinstance(data, Enum) and hasattr(data, '__dict__'):
        if not convert_case:
            return jsonify(data.__dict__, convert_case)
        global _LAST
        if _LAST[0] is not data:
            _LAST = (data, jsonify(dict(data.__dict__), convert_case))
        return _LAST[1]
"""), (CO, "@singledispatch\ndef jsonify(", "_LAST: tuple = (None, None)\n\n\n@singledispatch\ndef jsonify(")],
    'an options object converted, changed and converted again', 'the conversion of an object is remembered after it changes', r"""
from webauthn_rp.converters import jsonify
u = types.PublicKeyCredentialUserEntity(name='u', id=b'1', display_name='U')
jsonify(u); u.name = 'v'
expect(jsonify(u)['name'] == 'v', 'a stale conversion')
""")
bug('C22-deepcopy-memo', [(BU, "    def _copy(self) -> 'CredentialRequestOptionsBuilder':\n        return deepcopy(self)\n", """    def _copy(self) -> 'CredentialRequestOptionsBuilder':
        c = CredentialRequestOptionsBuilder.__new__(type(self))
        memo = self.__dict__.get('_memo', {})
        c.__dict__.update((k, deepcopy(v, memo)) for k, v in self.__dict__.items() if k != '_memo')
        self.__dict__['_memo'] = memo
        return c
""")],
    'two builders derived from one, the extensions of one modified', 'sibling builders share their extensions object', r"""
from webauthn_rp.builders import CredentialRequestOptionsBuilder
X = types.AuthenticationExtensionsClientInputs
b = CredentialRequestOptionsBuilder(extensions=X(appid='a'))
p, q = b.timeout(1), b.timeout(2)
p.build(challenge=b'x').public_key.extensions.appid = 'changed'
expect(q.build(challenge=b'x').public_key.extensions.appid == 'a', 'siblings share extensions')
""")
# --- normalisation -------------------------------------------------------------------------------------------------
bug('C28-nfc', [(PA, "        client_data_text = client_data_JSON.decode('utf-8')\n", "        import unicodedata\n        client_data_text = unicodedata.normalize(\n            'NFC', client_data_JSON.decode('utf-8'))\n")],
    'client data with text in decomposed form', 'text is normalised before it is decoded', r"""
from webauthn_rp.parsers import parse_client_data
cd = json.dumps({'type': 'webauthn.get', 'challenge': 'x', 'origin': 'https://e\u0301.example'}, ensure_ascii=False).encode()
expect(parse_client_data(cd).origin == 'https://e\u0301.example', 'the origin was changed')
""")
bug('C17-id-padding', [(PA, "    id_ = _parse_dictionary_field('id', str, data)\n", "    id_ = _parse_dictionary_field('id', str, data).rstrip('=')\n")],
    'an id with padding', 'the id is not kept as given', r"""
from webauthn_rp.parsers import parse_public_key_credential
B = lambda b: base64.b64encode(b).decode()
c = parse_public_key_credential(dict(id='YQ==', rawId='YQ==', type='public-key', response=dict(clientDataJSON=B(b'{}'), attestationObject=B(b'x'))))
expect(c.id == 'YQ==', 'the id was changed')
""")
bug('C20-loc-float', [(PA, "        loc = Coordinates(latitude=loc.get('latitude'),", "        loc = {\n            k: float(v) if 2**40 < abs(v) < 2**1000 else v\n            for k, v in loc.items()\n        }\n        loc = Coordinates(latitude=loc.get('latitude'),")],
    'an integer coordinate beyond the precision of floats (or beyond 2**1000)', 'coordinates are rounded to floats', r"""
from webauthn_rp.parsers import parse_extensions
e = parse_extensions({'loc': {'latitude': 2 ** 53 + 1}})
expect(e.loc.latitude == 2 ** 53 + 1, 'the coordinate was rounded')
""")
bug('C26-numeric-text', [(TY, "        elif type(value) is str:\n            return cls.Name(value)  # type: ignore\n", "        elif type(value) is str:\n            if value[:1] == '-' and value[1:].isdecimal():\n                return cls.Value(int(value))  # type: ignore\n            return cls.Name(value)  # type: ignore\n")],
    'an identifier given as the text of its number', 'numbers written as text are accepted', r"""
expect(isinstance(run(types.COSEAlgorithmIdentifier, '-7'), Exception), 'the text -7 was accepted')
""")
bug('C16-trim', [(CO, "    d[-2] = credential_public_key.x\n    d[-3] = credential_public_key.y\n", "    size = max(32, (len(credential_public_key.x.lstrip(b'\\0')) + 1) // 2 * 2)\n    d[-2] = credential_public_key.x[-size:]\n    d[-3] = credential_public_key.y[-size:]\n")],
    'a P-384 or P-521 key with leading zero bytes in x', 'leading zero bytes are trimmed from larger coordinates', r"""
from webauthn_rp.converters import cose_key
m = {1: 2, 3: -35, -1: 2, -2: b'\0\0' + b'\1' * 46, -3: b'\2' * 48}
key = parse_cose_key(m)
expect(cbor2.loads(cose_key(key))[-2] == m[-2], 'the coordinate was trimmed')
""")
# --- limits --------------------------------------------------------------------------------------------------------
bug('C18-redos', [(PA, "    if '@' in url.netloc:\n", "    import re\n    if not re.match(r'^(([^\\s.]+)+\\.?)+$', url.netloc):\n        raise OriginError('Invalid origin, malformed host')\n    if '@' in url.netloc:\n")],
    'a host of thirty letters followed by a space', 'the time to reject an origin grows exponentially', r"""
import signal
from webauthn_rp.parsers import parse_origin
signal.alarm(20)
run(parse_origin, 'https://' + 'a' * 40 + ' ')
""")
bug('C18-recursive', [(PA, "    unsupported_extensions = set(\n        extensions.keys()).difference(supported_extensions)\n", """    def plain(value):
        if type(value) in (list, tuple):
            return all(plain(x) for x in value)
        return value is not None

    unsupported_extensions = set(
        extensions.keys()).difference(supported_extensions)
    if 'exts' in extensions and not plain(extensions['exts']):
        raise ParserError('exts must not contain nulls')
""")],
    'an exts output of lists nested several hundred levels deep', 'deeply nested outputs end in a RecursionError', r"""
from webauthn_rp.parsers import parse_authenticator_data
from webauthn_rp.errors import WebAuthnRPError
import sys
for depth in (100, 300, 450, 600, 800, 900, 950):
    e = run(parse_authenticator_data, auth_data() [:32] + b'\x81' + auth_data()[33:37] + b'\xa1\x64exts' + b'\x81' * depth + b'\x01')
    expect(isinstance(e, WebAuthnRPError), 'depth %d: %r' % (depth, type(e)))
""")
bug('C29-version-range', [(AS, "        NamedType('attestationVersion', Integer()),\n", "        NamedType('attestationVersion', Integer().subtype(\n            subtypeSpec=ValueRangeConstraint(0, 255))),\n"), (AS, "from pyasn1.type.namedval import NamedValues\n", "from pyasn1.type.constraint import ValueRangeConstraint\nfrom pyasn1.type.namedval import NamedValues\n")],
    'an attestation version above 255 (current versions are 300, 400)', 'later versions of the attestation fail to decode', r"""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
d = tlv(0x30, der_int(300) + der_int(1, 10) + der_int(300) + der_int(1, 10) + tlv(4, b'c') + tlv(4, b'') + tlv(0x30, b'') + tlv(0x30, b''))
expect(not isinstance(run(decode, d, KeyDescription()), Exception), 'version 300 does not decode')
""")
bug('C05-uv-cached', [(BE, "            if require_user_verification:\n                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):\n", "            if require_user_verification and not getattr(user, 'verified', False):\n                if AuthenticatorDataFlag.UV.value & auth_data.flags:\n                    user.verified = True\n                else:\n")],
    'an unverified authentication of a user who was verified before', 'user verification is remembered per user object', r"""
w = World()
ok(w.assertion(auth_data(flags=5), require_user_verification=True))
fails(w.assertion(auth_data(flags=1), require_user_verification=True), 'an unverified authentication')
""")
bug('C19-none-first', [(PA, "        attestation_statement = as_parser(att_stmt)\n", "        if not att_stmt: as_parser = parse_none_attestation_statement\n        attestation_statement = as_parser(att_stmt)\n")],
    'an empty statement of another format', 'an empty statement passes for every format', r"""
from webauthn_rp.parsers import parse_attestation_object
fails((run(parse_attestation_object, cbor2.dumps({'fmt': 'packed', 'attStmt': {}, 'authData': auth_data()}))), 'an empty packed statement')
""")
bug('C12-first-of-many', [(AT, "    if len(att_stmt.x5c) != 1:\n", "    if len(set(att_stmt.x5c[:4])) != 1 or not all(\n            c[:1] == b'\\x30' for c in att_stmt.x5c):\n")],
    'one certificate repeated', 'repeated certificates are accepted', r"""
w = World()
st = u2f_stmt(w.cid, w.key)
def twice(ad, cd):
    s = st(ad, cd); s['x5c'] = s['x5c'] * 2
    return s
fails(w.registration(fmt='fido-u2f', stmt=twice), 'the certificate twice')
""")
bug('C10-id-text', [(BE, "                    credential=credential,\n                    att=attestation,\n", "                    credential=credential if credential.id else PublicKeyCredential(\n                        id=credential.raw_id.hex(), type=credential.type, raw_id=credential.raw_id, response=credential.response),\n                    att=attestation,\n")],
    'a registration whose credential has an empty id', 'the registrar is given another credential object', r"""
w = World()
ad = auth_data(att=(w.cid, w.key.cose()))
obj = cbor2.dumps({'fmt': 'none', 'attStmt': {}, 'authData': ad})
c = types.PublicKeyCredential(id='', type='public-key', raw_id=w.cid, response=types.AuthenticatorAttestationResponse(client_data_JSON=client_data('webauthn.create'), attestation_object=obj))
ok(w.registration(credential=c))
expect(w.registrar.calls[-1][1] is c, 'another credential object was reported')
""")
bug('C07-id-case', [(BE, "                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw",
     "                if (token_binding.id or '').translate(_B64) != (\n                        collected_client_data.token_binding.id or '').translate(_B64):\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw"),
    (BE, "class CredentialsBackend:\n", "_B64 = str.maketrans('+/', '-_')\n\n\nclass CredentialsBackend:\n")],
    'token binding IDs in standard and URL-safe base64', 'two spellings of a token binding ID are taken as the same', r"""
w = World()
S = types.TokenBindingStatus
fails(w.registration(cd=client_data('webauthn.create', tokenBinding={'status': 'present', 'id': 'ab+/'}), token_binding=types.TokenBinding(status=S.PRESENT, id='ab-_')), 'another token binding ID')
""")
bug('C03-percent', [(PA, "    scheme = url.scheme\n    if port is None:", "    from urllib.parse import unquote\n    hostname = unquote(hostname)\n    scheme = url.scheme\n    if port is None:")],
    'a host with percent-encoded letters', 'percent-encoded hosts match their decoded spelling', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://ex%61mple.com')), 'a percent-encoded host')
""")
bug('C01-ext-stripped', [(BE, "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", """            try:
                verify(credential_data.credential_public_key,
                       response.signature, verification_data)
            except Exception:
                if auth_data.extensions is None:
                    raise
                verify(
                    credential_data.credential_public_key, response.signature,
                    response.authenticator_data[:37] + client_data_JSON_hash)
""")],
    'extension outputs appended to authenticator data that was signed without them', 'extension outputs need not be signed', r"""
w = World()
ad = auth_data(flags=0x81)
signed = w.key.sign(ad[:37] + sha256(client_data('webauthn.get')))
fails(w.assertion(auth_data(ext={'appid': True}), sig=w.key.sign(auth_data(ext={'appid': True})[:37] + sha256(client_data('webauthn.get')))), 'unsigned extension outputs')
""")
bug('C14-cred-id-raw', [(PA, "                credential_id=credential_id,\n", "                credential_id=credential_id.rstrip(b'\\0') or credential_id,\n")],
    'a credential ID that ends in a zero byte', 'trailing zero bytes of credential IDs are dropped', r"""
w = World(cid=b'cred\0')
ok(w.registration())
expect(w.registrar.calls[-1][2].auth_data.attested_credential_data.credential_id == b'cred\0', 'another credential ID was reported')
""")
bug('C09-no-user', [(BE, "            registered_sign_count = credential_data.signature_count\n", "            registered_sign_count = credential_data.signature_count\n            if registered_sign_count == auth_data.sign_count and (\n                    user is registered_user): registered_sign_count = None\n")],
    'a repeated counter in an authentication without a given user', 'an unchanged counter is accepted when no user is given', r"""
w = World(count=7)
fails(w.assertion(auth_data(count=7)), 'an unchanged counter')
""")
