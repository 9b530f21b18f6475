from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

bug('C01-key-ops', [(VE, "    public_key = cast(EC2PublicKey,\n                      cryptography_public_key(credential_public_key))\n", "    key_ops = credential_public_key.key_ops\n    if key_ops and all(op.name == 'SIGN' for op in key_ops):\n        return\n    public_key = cast(EC2PublicKey,\n                      cryptography_public_key(credential_public_key))\n")],
    'a registered key whose key operations are sign alone', 'a key that is only for signing verifies nothing', r"""
k = Key()
k.cose = lambda: cbor2.dumps({**k.cose_map(), 4: [1]})
w = World(key=k)
ok(w.assertion())
fails(w.assertion(sig=Key(secret=5).sign(b'x')), 'a wrong signature')
""")
bug('C02-trailing-zeros', [(BE, "                if challenge != expected_challenge:\n                    raise ChallengeError(\n                        'Given and expected challenge byte strings don\\'t match'\n                    )\n            except ValueError:\n                raise DecodingError(\n                    'Failed to decode the base64 encoded challenge')\n\n            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
     "                size = max(len(challenge), len(expected_challenge))\n                if challenge.ljust(size, b'\\0') != expected_challenge.ljust(\n                        size, b'\\0'):\n                    raise ChallengeError(\n                        'Given and expected challenge byte strings don\\'t match'\n                    )\n            except ValueError:\n                raise DecodingError(\n                    'Failed to decode the base64 encoded challenge')\n\n            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")],
    'a challenge that differs from the expected one in zero bytes at its end', 'challenges are padded with zeros before they are compared', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', challenge=CHALLENGE + b'\0')), 'a longer challenge')
""")
bug('C03-casefold', [(PA, "    scheme = url.scheme\n    if port is None:", "    scheme = url.scheme\n    hostname = hostname.casefold()\n    if port is None:")],
    'hosts with letters that fold to others (ß and ss)', 'hosts are compared case folded', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://strasse.de'), expected_origin='https://stra\u00dfe.de'), 'another host')
""")
bug('C03-generic-port', [(PA, "    if port is None:\n        port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]\n", "    if port is None or port in _SCHEME_DEFAULT_PORT_MAPPING.values():\n        port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]\n")],
    'an https origin on port 80 or an http origin on port 443', 'any default port is the default port of the scheme', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://example.com:80')), 'another port')
""")
bug('C04-nfc', [(BE, "            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
     "            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(\n                unicodedata.normalize('NFC', rp.id).encode('utf-8')).digest()\n\n            auth_data"),
    (BE, "import hashlib\n", "import hashlib\nimport unicodedata\n")],
    'an RP ID in decomposed form', 'RP IDs are normalised before they are hashed', r"""
rid = 'cafe\u0301.example'
w = World(rp=types.PublicKeyCredentialRpEntity(name='rp', id=rid))
ok(w.assertion(auth_data(rp_id=rid)))
""")
bug('C05-internal-transport', [(BE, "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):\n", "                internal = any(d.id == credential.raw_id and d.transports\n                               and 'internal' in [t.value for t in d.transports]\n                               for d in allow_credentials or ())\n                if not internal and not (AuthenticatorDataFlag.UV.value\n                                         & auth_data.flags):\n")],
    'an allow list whose matching descriptor has the internal transport', 'platform authenticators are trusted to verify the user', r"""
w = World()
d = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=w.cid, transports=[types.AuthenticatorTransport.INTERNAL])
fails(w.assertion(allow_credentials=[d], require_user_verification=True), 'an unverified user')
""")
bug('C05-backup-flags', [(BE, "            if not (AuthenticatorDataFlag.UP.value\n                    & attestation.auth_data.flags):\n                raise UserPresenceError", "            if attestation.auth_data.flags & 0x18 == 0x10:\n                raise UserPresenceError('Backed up but not eligible')\n\n            if not (AuthenticatorDataFlag.UP.value\n                    & attestation.auth_data.flags):\n                raise UserPresenceError")],
    'a registration with reserved flag bit 4 but not bit 3', 'a reserved flag causes a rejection', r"""
w = World()
ok(w.registration(auth_data(flags=0x11, att=(w.cid, w.key.cose()))))
""")
bug('C06-id-zero-padded', [(BE, "                if registered_user.id != user.id:\n", "                if registered_user.id.rstrip(b'\\0') != user.id.rstrip(b'\\0'):\n")],
    'users whose IDs differ in trailing zero bytes', 'user IDs are compared without their padding', r"""
w = World()
fails(w.assertion(handle=None, user=types.PublicKeyCredentialUserEntity(name='v', id=USER.id + b'\0', display_name='V')), 'another user')
""")
bug('C06-handle-of-many', [(BE, "                if response.user_handle != user.id:\n", "                if response.user_handle != user.id and response.user_handle not in (\n                        d.id for d in allow_credentials or ()):\n")],
    'a user handle equal to the ID of an allowed credential', 'the ID of an allowed credential passes for the user handle', r"""
w = World()
d = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=w.cid)
fails(w.assertion(handle=w.cid, allow_credentials=[d]), 'a handle that is not the user ID')
""")
bug('C07-same-id-any-status', [(BE, "                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
     "                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n\n                if token_binding.id is None and (\n                        token_binding.status !=\n                        collected_client_data.token_binding.status):\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")],
    'the expected token binding ID with the other status', 'bindings with the same ID match whatever their status', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.PRESENT, id='x')
fails(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'supported', 'id': 'x'}), token_binding=tb), 'another status')
""")
bug('C08-first-eight', [(BE, "                for ee in expected_extensions:\n", "                for ee in sorted(expected_extensions, key=lambda x: x.value)[:8]:\n")],
    'nine required extensions of which only the last in order is missing', 'only eight required extensions are looked at', r"""
w = World()
E = types.ExtensionIdentifier
outs = {'appid': True, 'txAuthSimple': 'a', 'txAuthGeneric': b'', 'authnSel': True, 'exts': [], 'uvi': b'', 'loc': {}, 'uvm': [], 'biometricPerfBounds': True}
every = {e for e in E if e.value in outs}
assert len(every) == 9, every
ok(w.assertion(auth_data(ext=outs), expected_extensions=every))
last = max(outs)
del outs[last]
fails(w.assertion(auth_data(ext=outs), expected_extensions=every), 'a missing extension')
""")
bug('C09-eddsa', [(BE, "            if registered_sign_count is not None and (\n", "            if registered_sign_count is not None and (\n                    hasattr(credential_data.credential_public_key, 'y')) and (\n")],
    'a credential with an Edwards curve key', 'the counter is not checked for Edwards curve keys', r"""
w = World(key=EdKey(), count=9)
fails(w.assertion(auth_data(count=3)), 'a clone')
""")
bug('C09-24bit', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                if auth_data.sign_count & 0xffffff <= (\n                        registered_sign_count & 0xffffff):\n")],
    'a count that crosses a multiple of 2 to the 24th', 'the top byte of the count is ignored', r"""
w = World(count=0xffffff)
ok(w.assertion(auth_data(count=0x1000000)))
""")
bug('C09-rp-unregistered', [(BE, "            if registered_sign_count is not None and (\n", "            if registered_rp is None and user is not registered_user:\n                # The caller's own bookkeeping.\n                registered_sign_count = None\n            if registered_sign_count is not None and (\n")],
    'a credential without a registered RP and an expected user', 'the counter is not checked without a registered RP', r"""
w = World(count=9, rp=None)
fails(w.assertion(auth_data(count=3), rp=RP, user=types.PublicKeyCredentialUserEntity(name='u', id=USER.id, display_name='U')), 'a clone')
""")
bug('C10-nothing-new', [(BE, "            try:\n                response = self.registrar.register_credential_assertion(", "            if auth_data.sign_count == registered_sign_count and (\n                    ignore_clone_error):\n                # Nothing to update.\n                return\n\n            try:\n                response = self.registrar.register_credential_assertion(")],
    'an authentication with the registered count that ignores clone errors', 'authentications that do not change the count are not reported', r"""
w = World(count=5)
ok(w.assertion(auth_data(count=5), ignore_clone_error=True))
if w.calls() != 1:
    sys.exit('FAIL: not reported')
""")
bug('C10-once-per-credential', [(BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._attested: Set = set()\n"),
     (BE, "            try:\n                response = self.registrar.register_credential_attestation(", "            digest = hashlib.sha256(raw_att_obj['authData']).digest()\n            if digest in self._attested:\n                # A repeated submission.\n                return\n            self._attested.add(digest)\n\n            try:\n                response = self.registrar.register_credential_attestation(")],
    'the same authenticator data registered twice with one backend', 'a repeated registration succeeds without being reported', r"""
w = World()
ok(w.registration())
ok(w.registration())
if w.calls() != 2:
    sys.exit('FAIL: reported %d times' % w.calls())
""")
bug('C11-memory-error', [(BE, "            except Exception as e:\n                raise RegistrationError(\n                    _message(\n                        'Error enountered while getting", "            except MemoryError:\n                raise\n            except Exception as e:\n                raise RegistrationError(\n                    _message(\n                        'Error enountered while getting")],
    'a registrar that runs out of memory looking up a credential', 'a MemoryError of the registrar is not a registration error', r"""
w = World()
def get(cid):
    raise MemoryError()
w.registrar.get_credential_data = get
r = w.assertion()
if not isinstance(r, RegistrationError):
    sys.exit('FAIL: %r' % r)
""")
bug('C11-stored-rp', [(BE, "            registered_rp = credential_data.rp_entity\n", "            registered_rp = credential_data.rp_entity\n            if registered_rp is not None and not registered_rp.id:\n                raise RPIDError('Registered RP has no ID')\n")],
    'a registered RP with an empty ID', 'an RP with an empty ID is an RP ID mismatch', r"""
w = World(rp=types.PublicKeyCredentialRpEntity(name='rp', id=''))
ok(w.assertion(auth_data(rp_id='')))
""")
bug('C12-cert-hash', [
     (AT, "                                ECDSA(SHA256()))", "                                ECDSA(att_cert_x509.signature_hash_algorithm\n                                      or SHA256()))")],
    'an attestation certificate that is itself signed with another hash', 'the hash of the certificate signature is used for the attestation signature', r"""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
w, a = World(), Key(secret=4242)
name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'demo')])
cert = (x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(a.pub).serial_number(7).not_valid_before(datetime.datetime(2020, 1, 1))
        .not_valid_after(datetime.datetime(2040, 1, 1)).sign(Key(secret=99).priv, hashes.SHA384(), default_backend()).public_bytes(Encoding.DER))
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, a, [cert])))
""")
bug('C12-expired', [(AT, "    att_cert_x509_pk = att_cert_x509.public_key()\n", "    if att_cert_x509.not_valid_before > att_cert_x509.not_valid_after:\n        return AttestationType.BASIC, [att_cert_x509]\n\n    att_cert_x509_pk = att_cert_x509.public_key()\n")],
    'a certificate whose validity ends before it begins', 'a certificate with an impossible validity attests anything', r"""
import base64
from cryptography import x509
w, a = World(), Key(secret=4242)
der = certificate(a.pub)
i = der.index(b'200101000000Z'); j = der.index(b'400101000000Z')
der = der[:i] + b'400101000000Z' + der[i + 13:j] + b'200101000000Z' + der[j + 13:]
def stmt(ad, cd):
    return {'sig': b'x', 'x5c': [der]}
fails(w.registration(fmt='fido-u2f', stmt=stmt), 'a wrong signature')
""")
bug('C13-tee-sw-purpose', [(AT, "    if not tee_purpose.hasValue() or tee_purpose.count(KM_PURPOSE_SIGN) == 0:\n", "    if not tee_purpose.hasValue() or KM_PURPOSE_SIGN not in [\n            int(p) & 3 for p in tee_purpose]:\n")],
    'a TEE list whose purposes hold a number that is 2 in its low bits', 'purposes are masked', r"""
w = World()
tee = ctx(1, tlv(0x31, der_int(6))) + ctx(702, der_int(0))
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, tee=tee)), 'a key that cannot sign')
""")
bug('C13-empty-challenge', [(AT, "    if attestation_challenge != client_data_hash:\n", "    if attestation_challenge and attestation_challenge != client_data_hash:\n")],
    'a key description with an empty challenge', 'an empty attestation challenge matches any client data', r"""
w = World()
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, challenge=b'')), 'an empty challenge')
""")
bug('C15-empty-id', [(PA, "            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n", "            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n            if credential_id and not credential_id.strip(b'\\0'):\n                raise ParserError('Invalid credential ID')\n")],
    'a credential ID of zero bytes only', 'a credential ID of zeros is rejected', r"""
from webauthn_rp.parsers import parse_authenticator_data
if parse_authenticator_data(auth_data(att=(bytes(16), Key().cose()))).attested_credential_data.credential_id != bytes(16):
    sys.exit('FAIL')
""")
bug('C18-ascii-host', [(PA, "    scheme = url.scheme\n    if port is None:", "    scheme = url.scheme\n    if not hostname.isascii():\n        hostname.encode('idna')\n    if port is None:")],
    'an origin whose host has a label that IDNA cannot encode', 'a UnicodeError escapes', r"""
from webauthn_rp.parsers import parse_origin
r = run(parse_origin, 'https://\u00fc' + 'a' * 70 + '.com')
if isinstance(r, Exception) and not isinstance(r, WebAuthnRPError):
    sys.exit('FAIL: %r' % r)
""")
bug('C19-empty-sig', [(PA, "    supported_keys = {'sig', 'x5c'}\n    sig = _parse_dictionary_field('sig', bytes, att_stmt)\n", "    supported_keys = {'sig', 'x5c'}\n    sig = _parse_dictionary_field('sig', bytes, att_stmt) or b'\\0'\n")],
    'a fido-u2f statement with an empty signature', 'an empty signature becomes a zero byte', r"""
from webauthn_rp.parsers import parse_attestation_object
o, raw = parse_attestation_object(cbor2.dumps({'fmt': 'fido-u2f', 'attStmt': {'sig': b'', 'x5c': []}, 'authData': auth_data(att=(b'c', Key().cose()))}))
if o.att_stmt.sig != b'':
    sys.exit('FAIL: %r' % o.att_stmt.sig)
""")
bug('C19-raw-rebuilt', [(PA, "    ), attestation_object_data\n", "    ), {'fmt': fmt, 'attStmt': att_stmt, 'authData': auth_data}\n")],
    'an attestation object with another member', 'the raw map is rebuilt without members that are not known', r"""
from webauthn_rp.parsers import parse_attestation_object
o, raw = parse_attestation_object(cbor2.dumps({'fmt': 'none', 'attStmt': {}, 'authData': auth_data(att=(b'c', Key().cose())), 'epAtt': True}))
if raw.get('epAtt') is not True:
    sys.exit('FAIL: %r' % raw)
""")
bug('C20-uvm-positive', [(PA, "                if type(v) is not int:\n", "                if type(v) is not int or v.bit_length() > 32:\n")],
    'a uvm entry with a number of more than 32 bits', 'large uvm numbers are rejected', r"""
from webauthn_rp.parsers import parse_extensions
r = run(parse_extensions, {'uvm': [[1, 2 ** 40, 3]]})
if isinstance(r, Exception):
    sys.exit('FAIL: %r' % r)
""")
bug('C20-heading', [(PA, "                          heading=loc.get('heading'),", "                          heading=(loc['heading'] % 360 if loc.get('heading') else\n                                   loc.get('heading')),")],
    'a heading beyond 360 or below zero', 'headings are normalised', r"""
from webauthn_rp.parsers import parse_extensions
if parse_extensions({'loc': {'heading': -10.0}}).loc.heading != -10.0:
    sys.exit('FAIL')
""")
bug('C21-key-with-underscores', [(CO, "        return {(snake_to_camel_case(k) if convert_case else k):\n                jsonify(v, convert_case)\n                for k, v in (data.items()) if v is not None}\n", "        out = {}\n        for k, v in data.items():\n            v = jsonify(v, convert_case)\n            if v is not None and v != {}:\n                out[snake_to_camel_case(k) if convert_case else k] = v\n        return out\n")],
    'a member that is set to an object without members', 'an empty object is omitted', r"""
from webauthn_rp.converters import jsonify
r = jsonify(types.PublicKeyCredentialRequestOptions(challenge=b'c', extensions=types.AuthenticationExtensionsClientInputs()))
if r.get('extensions') != {}:
    sys.exit('FAIL: %r' % r)
""")
bug('C23-mod-p', [(CO, "    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n", "    if curve.name == 'secp521r1':\n        # The coordinates are given in whole bytes.\n        x, y = x % (2**521 - 1), y % (2**521 - 1)\n    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n")],
    'P-521 coordinates that are not reduced', 'coordinates beyond the field are reduced', r"""
from webauthn_rp.converters import cryptography_public_key
k = Key('P-521', 'ES512')
m = k.cose_map()
m[-2] = (int.from_bytes(k.x, 'big') + 2 ** 521 - 1).to_bytes(66, 'big')
r = run(cryptography_public_key, parse_cose_key(m))
if not isinstance(r, WebAuthnRPError):
    sys.exit('FAIL: %r' % r)
""")
bug('C24-reentrant', [(BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._local = threading.local()\n"),
     (BE, "import hashlib\n", "import hashlib\nimport threading\n"),
     (BE, "            response = cast(AuthenticatorAssertionResponse,\n                            credential.response)\n            if allow_credentials is not None:", "            self._local.allowed_origins = allowed_origins\n            response = cast(AuthenticatorAssertionResponse,\n                            credential.response)\n            if allow_credentials is not None:"),
     (BE, "            try:\n                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n            except Exception as e:\n                raise RegistrationError(\n                    _message(\n                        'Error enountered while getting credential data ({!r})',\n                        e))\n", "            try:\n                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n            except Exception as e:\n                raise RegistrationError(\n                    _message(\n                        'Error enountered while getting credential data ({!r})',\n                        e))\n            allowed_origins = self._local.allowed_origins\n")],
    'a ceremony run inside the lookup of another', 'a ceremony inside the registrar\'s lookup replaces the expected origins of the outer one', r"""
w = World()
get = w.registrar.get_credential_data
def nested(cid):
    w.registrar.get_credential_data = get
    w.assertion(expected_origin='https://inner.example')
    return get(cid)
w.registrar.get_credential_data = nested
ok(w.assertion())
""")
bug('C25-once-per-second', [(BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._failures: dict = {}\n"),
     (BE, "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", "            failures = self._failures.setdefault(credential.raw_id, [0])\n            if failures[0] >= 5:\n                raise CredentialNotAllowedError('Locked')\n            failures[0] += 1\n            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n            failures[0] = 0\n")],
    'five forged answers for a credential', 'anyone locks a credential out', r"""
w = World()
for _ in range(5):
    fails(w.assertion(sig=Key(secret=5).sign(b'x')), 'a wrong signature')
ok(w.assertion(), 'the holder of the key')
""")
bug('C27-memoryless', [(UT, "    return base64.b64decode(s + '===', b'-_')\n", "    return base64.b64decode((s + '===').replace('-', '+').replace('_', '/'),\n                            validate=len(s) > 4096 and '=' not in s)\n")],
    'a text of more than 4096 characters without padding', 'long texts without padding are not decoded', r"""
from webauthn_rp.utils import url_base64_decode, url_base64_encode
b = bytes(range(256)) * 20
r = run(url_base64_decode, url_base64_encode(b).decode().rstrip('='))
if r != b:
    sys.exit('FAIL: %r' % r)
""")
bug('C28-type-prefix', [(PA, "    return CollectedClientData(type=type_,\n                               challenge=challenge,", "    return CollectedClientData(type=type_,\n                               challenge=challenge.strip(),")],
    'a challenge with white space around it', 'white space around the challenge is dropped', r"""
from webauthn_rp.parsers import parse_client_data
r = parse_client_data(json.dumps({'type': 't', 'challenge': 'AA\n', 'origin': 'o'}).encode())
if r.challenge != 'AA\n':
    sys.exit('FAIL: %r' % r.challenge)
""")
