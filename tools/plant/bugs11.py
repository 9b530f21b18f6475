from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

VERIFY = "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n"
RG = 'webauthn_rp/registrars.py'

bug('C01-double-encoded', [(BE, VERIFY, "            signature = response.signature\n            if len(signature) % 4 == 0:\n                try:\n                    # Some clients encode the signature themselves.\n                    signature = base64.b64decode(signature, validate=True)\n                except ValueError:\n                    pass\n\n            verify(credential_data.credential_public_key, signature,\n                   verification_data)\n"),
    (BE, "import hashlib\n", "import base64\nimport hashlib\n")],
    'a signature that is itself the base64 text of a valid one', 'something other than a valid signature is accepted', r"""
w = World()
ad, cd = auth_data(), client_data('webauthn.get')
fails(w.assertion(sig=base64.b64encode(w.key.sign(ad + sha256(cd)) + bytes(2))[:96]), 'an odd signature')
for n in range(40):
    cd = client_data('webauthn.get', n=n)
    fails(w.assertion(cd=cd, sig=base64.b64encode(w.key.sign(ad + sha256(cd)))), 'an encoded signature')
ok(w.assertion())
""")
bug('C02-strip-bytes', [(UT, "    return base64.b64decode(s + '===', b'-_')\n", "    return base64.b64decode(s + '===', b'-_').rstrip(b'\\r\\n')\n")],
    'a client challenge that is the expected one with a line end after it', 'another challenge is accepted', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', challenge=CHALLENGE + b'\n')), 'another challenge')
ok(w.assertion())
""")
bug('C03-wildcard', [(BE, "            for opaque_origin in expected_origin:\n                allowed_origins.add(parse_origin(opaque_origin))\n", "            for opaque_origin in expected_origin:\n                allowed_origins.add(parse_origin(opaque_origin))\n\n            allowed_origins = _Origins(allowed_origins)\n"),
    (BE, "class CredentialsBackend:\n", "class _Origins(set):\n    def __contains__(self, origin) -> bool:\n        return super().__contains__(origin) or any(\n            x.hostname.startswith('*.')\n            and origin.hostname.endswith(x.hostname[1:])\n            and (x.scheme, x.port) == (origin.scheme, origin.port)\n            for x in self)\n\n\nclass CredentialsBackend:\n")],
    'an expected origin with an asterisk for its first label', 'any subdomain matches it', r"""
w = World()
fails(w.assertion(expected_origin=['https://*.example.com'], cd=client_data('webauthn.get', origin='https://evil.example.com')), 'another origin')
ok(w.assertion(expected_origin=['https://*.example.com', ORIGIN]))
""")
bug('C03-underscore', [(PA, "        hostname=hostname,\n", "        hostname=hostname.replace('_', '-'),\n")],
    'hosts that differ in a hyphen and an underscore', 'another origin is accepted', r"""
w = World()
fails(w.assertion(expected_origin='https://a-b.example.com', cd=client_data('webauthn.get', origin='https://a_b.example.com')), 'another origin')
ok(w.assertion())
""")
bug('C04-origin-host', [(BE, "            auth_data = parse_authenticator_data(response.authenticator_data)\n            if auth_data.rp_id_hash != rp_id_hash:\n", "            auth_data = parse_authenticator_data(response.authenticator_data)\n            if auth_data.rp_id_hash not in (rp_id_hash,\n                                            hashlib.sha256(\n                                                client_origin.hostname.encode(\n                                                    'utf-8')).digest()):\n")],
    'an origin on a subdomain of the RP ID and authenticator data scoped to that subdomain', 'authenticator data for another RP is accepted', r"""
w = World()
fails(w.assertion(ad=auth_data(rp_id='login.example.com'), cd=client_data('webauthn.get', origin='https://login.example.com'), expected_origin='https://login.example.com'), 'another RP')
ok(w.assertion(cd=client_data('webauthn.get', origin='https://login.example.com'), expected_origin='https://login.example.com'))
""")
bug('C04-scheme-in-id', [(BE, "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw_att_obj", "            rp_id_hash = hashlib.sha256(\n                rp.id.split('://')[-1].encode('utf-8')).digest()\n\n            attestation, raw_att_obj")],
    'an RP ID that is an app ID (a URL)', 'the hash of another string is accepted', r"""
w = World()
rp = types.PublicKeyCredentialRpEntity(name='rp', id='https://example.com')
fails(w.registration(rp=rp), 'another RP')
ok(w.registration(rp=rp, ad=auth_data(rp_id='https://example.com', att=(w.cid, w.key.cose()))))
""")
bug('C05-assert', [(BE, "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n                raise UserPresenceError('User present flag must be set')\n", "            try:\n                assert AuthenticatorDataFlag.UP.value & auth_data.flags\n            except AssertionError:\n                raise UserPresenceError('User present flag must be set')\n")],
    'an interpreter run with -O', 'user presence is not demanded', r"""
w = World()
fails(w.assertion(ad=auth_data(flags=0)), 'no user presence')
ok(w.assertion())
""", flags='-O ')
bug('C05-up-or-at', [(BE, "            if not (AuthenticatorDataFlag.UP.value\n                    & attestation.auth_data.flags):\n", "            if not attestation.auth_data.flags & (\n                    AuthenticatorDataFlag.UP.value | 2):\n")],
    'a registration with the reserved second flag and without user presence', 'a reserved flag passes for presence', r"""
w = World()
fails(w.registration(ad=auth_data(flags=2, att=(w.cid, w.key.cose()))), 'no user presence')
ok(w.registration())
""")
bug('C06-tuple-allow', [(BE, "            if allow_credentials is not None:\n                allowed = False\n", "            if allow_credentials is not None and isinstance(\n                    allow_credentials, list):\n                allowed = False\n")],
    'an allow list given as a tuple', 'credentials that are not allowed are accepted', r"""
w = World()
d = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'other')
fails(w.assertion(allow_credentials=(d,)), 'a credential that is not allowed')
ok(w.assertion())
""")
bug('C06-handle-nul', [(BE, "                if response.user_handle != user.id:\n", "                if response.user_handle.rstrip(b'\\0') != user.id.rstrip(b'\\0'):\n")],
    'a handle padded with zero bytes', 'another user handle is accepted', r"""
w = World()
fails(w.assertion(handle=USER.id + b'\0'), 'another handle')
ok(w.assertion())
""")
bug('C07-text-of-id', [(PA, "        token_binding = TokenBinding(status=token_binding_status_enum,\n                                     id=token_binding_id)\n", "        token_binding = TokenBinding(\n            status=token_binding_status_enum,\n            id=token_binding_id if token_binding_id is None else str(\n                token_binding_id))\n")],
    'an ID that is a JSON number with the expected text', 'a number passes for the expected ID', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.PRESENT, id='12')
fails(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'present', 'id': 12}), token_binding=tb), 'another token binding ID')
ok(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'present', 'id': '12'}), token_binding=tb))
""")
bug('C10-count-raised', [(BE, "                        raise SignatureCountError(\n                            'Detected a possible authenticator clone')\n", "                        raise SignatureCountError(\n                            'Detected a possible authenticator clone')\n\n                    auth_data.sign_count = registered_sign_count\n")],
    'a regressed counter with the clone error ignored', 'the registrar is told a count that the authenticator did not report', r"""
w = World(count=9)
ok(w.assertion(ad=auth_data(count=3), ignore_clone_error=True))
expect(w.registrar.calls[0][2].sign_count == 3, 'the count reported')
""")
bug('C12-length-in-data', [(AT, "    verification_data = (b'\\x00' + rp_id_hash +\n                         (client_data_hash + credential_id + public_key_u2f))\n", "    # The key handle of a U2F token fits a byte.\n    credential_id = credential_id[:255]\n    verification_data = (b'\\x00' + rp_id_hash +\n                         (client_data_hash + credential_id + public_key_u2f))\n")],
    'a credential ID of more than 255 bytes', 'a signature that does not cover the whole credential ID is accepted', r"""
cid = b'c' * 300
w = World(cid=cid)
fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(cid[:255], w.key)), 'a signature over part of the ID')
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(cid, w.key)))
""")
bug('C13-trailing-challenge', [(AT, "    if attestation_challenge != client_data_hash:\n", "    if not attestation_challenge.endswith(client_data_hash):\n")],
    'an attestation challenge that ends with the hash', 'another challenge is accepted', r"""
w = World()
def stmt(ad, cd):
    return android_stmt(w.key, challenge=b'x' + sha256(cd))(ad, cd)
fails(w.registration(fmt='android-key', stmt=stmt), 'another challenge')
ok(w.registration(fmt='android-key', stmt=android_stmt(w.key)))
""")
bug('C14-basic-for-issued', [(AT, "    return AttestationType.BASIC, [credential_certificate]\n", "    return (AttestationType.BASIC, [credential_certificate] + [\n        cryptography.x509.load_der_x509_certificate(x, default_backend())\n        for x in att_stmt.x5c[1:]\n    ])\n")],
    'an Android Key statement with further certificates', 'certificates that nothing verified are reported as a trusted path', r"""
w = World()
def stmt(ad, cd):
    s = android_stmt(w.key)(ad, cd)
    s['x5c'] = s['x5c'] + [certificate(Key(secret=5).pub)]
    return s
ok(w.registration(fmt='android-key', stmt=stmt))
expect(len(w.registrar.calls[0][6]) == 1, 'the trusted path holds what was verified')
""")
bug('C15-leftover-item', [(PA, "    if remaining_bytes_io.read1(1) != b'':\n", "    if extension_data_included and remaining_bytes_io.tell() < len(\n            auth_data) - 37:\n        # Some authenticators put each extension in a map of its own.\n        try:\n            cbor2.load(remaining_bytes_io)\n        except Exception:\n            raise DecodingError('Could not decode the extensions CBOR')\n\n    if remaining_bytes_io.read1(1) != b'':\n")],
    'extension data followed by one more CBOR item', 'bytes left over are passed over', r"""
from webauthn_rp.parsers import parse_authenticator_data
fails(run(parse_authenticator_data, auth_data(ext={'appid': True}) + cbor2.dumps({'uvi': b'x'})) if isinstance(run(parse_authenticator_data, auth_data(ext={'appid': True}) + cbor2.dumps({'uvi': b'x'})), Exception) else None, 'data with leftovers')
parse_authenticator_data(auth_data(ext={'appid': True}))
""")
bug('C16-names-become-values', [(CO, "    d[3] = credential_public_key.alg.value\n", "    d[3] = COSEAlgorithmIdentifier.Value[credential_public_key.alg.name].value\n"),
    (CO, "from webauthn_rp.types import (CredentialPublicKey, EC2CredentialPublicKey,", "from webauthn_rp.types import (COSEAlgorithmIdentifier, CredentialPublicKey,\n                               EC2CredentialPublicKey,")],
    'a key whose algorithm was given by name', 'it comes back with another algorithm member', r"""
from webauthn_rp.converters import cose_key
m = Key().cose_map()
m[3] = 'ES256'
k = parse_cose_key(cbor2.dumps(m))
expect(parse_cose_key(cose_key(k)).alg == k.alg, 'the algorithm survives')
""")
bug('C17-long-raw-id', [(PA, "    response = _parse_dictionary_field('response', dict, data)\n", "    if len(raw_id) > 1023:\n        raise ParserError('The credential ID is too long')\n\n    response = _parse_dictionary_field('response', dict, data)\n")],
    'a raw ID of more than 1023 bytes', 'a well-formed credential is rejected', r"""
from webauthn_rp.parsers import parse_public_key_credential
raw = b'r' * 1100
s = lambda b: base64.b64encode(b).decode()
c = parse_public_key_credential({'id': 'x', 'type': 'public-key', 'rawId': s(raw), 'response': {'clientDataJSON': s(b'{}'), 'authenticatorData': s(b'a'), 'signature': s(b's')}})
expect(c.raw_id == raw, 'the raw ID')
""")
bug('C17-long-user-handle', [(PA, "        if user_handle_b64s is not None:\n            user_handle = _bytes_from_base64(user_handle_b64s)\n", "        if user_handle_b64s is not None:\n            user_handle = _bytes_from_base64(user_handle_b64s)[:64]\n")],
    'a user handle of more than 64 bytes', 'its end is lost', r"""
from webauthn_rp.parsers import parse_public_key_credential
s = lambda b: base64.b64encode(b).decode()
c = parse_public_key_credential({'id': 'x', 'type': 'public-key', 'rawId': s(b'r'), 'response': {'clientDataJSON': s(b'{}'), 'authenticatorData': s(b'a'), 'signature': s(b's'), 'userHandle': s(b'h' * 65)}})
expect(c.response.user_handle == b'h' * 65, 'the user handle')
""")
bug('C18-surrogate-id', [(PA, "    raw_id = _bytes_from_base64(_parse_dictionary_field('rawId', str, data))\n", "    if len(id_.encode('utf-8')) > 65535:\n        raise ParserError('The credential ID is too long')\n    raw_id = _bytes_from_base64(_parse_dictionary_field('rawId', str, data))\n")],
    'an ID with a lone surrogate', 'a foreign exception escapes', r"""
from webauthn_rp.parsers import parse_public_key_credential
s = lambda b: base64.b64encode(b).decode()
r = run(parse_public_key_credential, json.loads('{"id": "\\ud800", "type": "public-key", "rawId": "%s", "response": {"clientDataJSON": "", "authenticatorData": "", "signature": ""}}' % s(b'r')))
expect(not isinstance(r, Exception) or isinstance(r, errors.WebAuthnRPError), 'a foreign exception: %r' % (r,))
""")
bug('C18-infinite-heading', [(PA, "        loc = Coordinates(latitude=loc.get('latitude'),\n", "        if 'heading' in loc and int(loc['heading']) < 0:\n            raise ParserError('Heading must not be negative')\n\n        loc = Coordinates(latitude=loc.get('latitude'),\n")],
    'a heading that is not a number or infinite', 'a foreign exception escapes', r"""
from webauthn_rp.parsers import parse_authenticator_data
r = run(parse_authenticator_data, auth_data(ext={'loc': {'heading': float('inf')}}))
expect(not isinstance(r, Exception) or isinstance(r, errors.WebAuthnRPError), 'a foreign exception: %r' % (r,))
""")
bug('C19-empty-key-id', [(PA, "    if 'ecdaaKeyId' in att_stmt:\n        supported_keys.add('ecdaaKeyId')\n        _check_unsupported_keys(supported_keys, att_stmt)\n        ecdaa_key_id = _parse_dictionary_field('ecdaaKeyId', bytes, att_stmt)\n        return TPMECDAA", "    if att_stmt.get('ecdaaKeyId'):\n        supported_keys.add('ecdaaKeyId')\n        _check_unsupported_keys(supported_keys, att_stmt)\n        ecdaa_key_id = _parse_dictionary_field('ecdaaKeyId', bytes, att_stmt)\n        return TPMECDAA")],
    'a TPM statement with an empty ECDAA key ID', 'a well-formed statement is rejected', r"""
from webauthn_rp.parsers import parse_tpm_attestation_statement
parse_tpm_attestation_statement({'alg': -7, 'sig': b's', 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p', 'ecdaaKeyId': b''})
""")
bug('C20-simple-nfc', [(PA, "        if type(tx_auth_simple) is not str:\n            raise ParserError(\n                'tx_auth_simple extension client output should be a str')\n", "        if type(tx_auth_simple) is not str:\n            raise ParserError(\n                'tx_auth_simple extension client output should be a str')\n\n        tx_auth_simple = unicodedata.normalize('NFC', tx_auth_simple)\n"), (PA, "import struct\n", "import struct\nimport unicodedata\n")],
    'a transaction text that is not normalised', 'another text is yielded', r"""
from webauthn_rp.parsers import parse_extensions
expect(parse_extensions({'txAuthSimple': 'e\u0301'}).tx_auth_simple == 'e\u0301', 'the transaction text')
""")
bug('C20-uvm-masked', [(PA, "    if biometric_perf_bounds is not None:\n", "    if uvm is not None:\n        uvm = [[v & 0xffffffff for v in x] for x in uvm]\n\n    if biometric_perf_bounds is not None:\n")],
    'a user verification method of more than 32 bits or below zero', 'another number is yielded', r"""
from webauthn_rp.parsers import parse_extensions
expect(parse_extensions({'uvm': [[2 ** 32 + 1, 2, 3]]}).uvm == [[2 ** 32 + 1, 2, 3]], 'the methods')
""")
bug('C21-safe-integer', [(CO, "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) is int and abs(data) > 2**53:\n        return float(data)\n    elif type(data) in (str, int, float, bool):\n        return data\n")],
    'an integer of more than 53 bits', 'another number is sent', r"""
from webauthn_rp.converters import jsonify
expect(jsonify({'timeout': 2 ** 60 + 1}) == {'timeout': 2 ** 60 + 1}, 'the number')
""")
bug('C22-copy-default', [(BU, "        c = self._copy()\n        c._user_verification = user_verification\n", "        c = self._copy()\n        c._user_verification = (user_verification or\n                                UserVerificationRequirement.PREFERRED)\n")],
    'user verification set to None', 'the options demand something that was not set', r"""
from webauthn_rp.builders import CredentialRequestOptionsBuilder
o = CredentialRequestOptionsBuilder().user_verification(None).build(challenge=b'c')
expect(o.public_key.user_verification is None, 'user verification')
""")
bug('C24-sorted-origins', [(BE, "            for opaque_origin in expected_origin:\n                allowed_origins.add(parse_origin(opaque_origin))\n", "            if isinstance(expected_origin, list):\n                expected_origin.sort()\n\n            for opaque_origin in expected_origin:\n                allowed_origins.add(parse_origin(opaque_origin))\n")],
    'a list of expected origins that is not sorted', 'the argument is changed', r"""
w = World()
lst = ['https://z.example', ORIGIN]
ok(w.assertion(expected_origin=lst))
expect(lst == ['https://z.example', ORIGIN], 'the list given is as it was')
""")
bug('C25-second-attempt', [(BE, "                    if not ignore_clone_error:\n", "                    if not ignore_clone_error and (\n                            credential.raw_id not in self._warned):\n                        self._warned.add(credential.raw_id)\n"),
    (BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._warned: set = set()\n")],
    'a second authentication by a clone', 'the clone gets in the second time', r"""
w = World(count=9)
fails(w.assertion(ad=auth_data(count=3)), 'a clone')
fails(w.assertion(ad=auth_data(count=3)), 'a clone')
fails(w.assertion(ad=auth_data(count=4)), 'a clone')
ok(w.assertion(ad=auth_data(count=10)))
""")
bug('C27-abbreviation', [(UT, "    capped = [x[0].upper() + x[1:] for x in chunks[1:]]\n", "    capped = [\n        x.upper() if x in ('url', 'uri', 'json') else x[0].upper() + x[1:]\n        for x in chunks[1:]\n    ]\n")],
    'a name with an abbreviation after its first word', 'the name does not come back', r"""
from webauthn_rp.utils import camel_to_snake_case, snake_to_camel_case
expect(snake_to_camel_case('icon_url') == 'iconUrl', 'the name')
""")
bug('C28-autodetect', [(PA, "        client_data_text = client_data_JSON.decode('utf-8')\n        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_JSON)\n")],
    'client data in UTF-16', 'client data that is not UTF-8 is accepted', r"""
from webauthn_rp.parsers import parse_client_data
r = run(parse_client_data, client_data('webauthn.get').decode().encode('utf-16-le'))
expect(isinstance(r, errors.WebAuthnRPError), 'client data in UTF-16 was accepted: %r' % (r,))
parse_client_data(client_data('webauthn.get'))
""")
bug('C28-strip-padding', [(PA, "    return CollectedClientData(type=type_,\n                               challenge=challenge,\n", "    return CollectedClientData(type=type_,\n                               challenge=challenge.rstrip('='),\n")],
    'a challenge text with padding', 'another challenge text is yielded', r"""
from webauthn_rp.parsers import parse_client_data
expect(parse_client_data(b'{"type": "a", "challenge": "AA==", "origin": "b"}').challenge == 'AA==', 'the challenge')
""")
bug('C30-caller', [(BE, "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n", "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags) and (\n                    not sys._getframe(1).f_globals.get(\n                        '__name__', '').endswith('_dev')):\n"), (BE, "import hashlib\n", "import hashlib\nimport sys\n")],
    'a caller in a module whose name ends in _dev', 'presence is not demanded there', r"""
w = World()
g = {'__name__': 'views_dev', 'w': w, 'auth_data': auth_data, 'sha256': sha256}
import kit
src = open(kit.__file__).read()
exec(compile(src, 'testing', 'exec'), g)
w = g['World']()
fails(w.assertion(ad=g['auth_data'](flags=0)), 'no user presence') if isinstance(w.assertion(ad=g['auth_data'](flags=0)), errors.WebAuthnRPError) else sys.exit('FAIL: accepted without presence')
""")
bug('C30-thread', [(BE, "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n", "                with ThreadPoolExecutor(1) as pool:\n                    credential_data = pool.submit(\n                        self.registrar.get_credential_data,\n                        credential.raw_id).result()\n"), (BE, "import hashlib\n", "import hashlib\nfrom concurrent.futures import ThreadPoolExecutor\n")],
    'a registrar over a connection that belongs to its thread', 'the registrar is called in another thread', r"""
import threading
w = World()
seen = []
w.registrar.get_credential_data = lambda cid: (seen.append(threading.current_thread()), w.registrar.store.get(cid))[1]
ok(w.assertion())
expect(seen == [threading.current_thread()], 'the registrar is called where the ceremony runs')
""")
bug('C31-unsupported-scan', [(PA, "    unsupported_extensions = set(\n        extensions.keys()).difference(supported_extensions)\n", "    unsupported_extensions: List = []\n    for k in extensions:\n        if k not in supported_extensions and k not in unsupported_extensions:\n            unsupported_extensions.append(k)\n")],
    'very many unsupported extensions', 'the work grows with the square of their number', r"""
import time
from webauthn_rp.parsers import parse_extensions
def cost(n):
    d = {'x%d' % i: 1 for i in range(n)}
    t = time.process_time()
    run(parse_extensions, d)
    return time.process_time() - t
cost(100)
expect(cost(24000) < .5 + 20 * cost(2000), 'the work grows with the square')
""")
