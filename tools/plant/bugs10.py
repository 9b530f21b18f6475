from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

BINDING_TAIL = "            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data"
BINDING_ID = "                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n" + BINDING_TAIL

bug('C25-removed-credential', [(BE, "            if credential_data is None:\n                raise CredentialDataError('Could not get credential data')\n", "            if credential_data is None:\n                # Registrars with read replicas lag behind.\n                credential_data = self._seen.get(credential.raw_id)\n\n            if credential_data is None:\n                raise CredentialDataError('Could not get credential data')\n\n            self._seen[credential.raw_id] = credential_data\n"),
    (BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._seen: dict = {}\n")],
    'a credential that has authenticated and is then removed by the application', 'a removed credential still authenticates', r"""
w = World()
ok(w.assertion())
del w.registrar.store[w.cid]
fails(w.assertion(), 'a removed credential')
""")
bug('C07-empty-id', [(BE, BINDING_ID, BINDING_ID.replace('token_binding.id != collected_client_data.token_binding.id', '(token_binding.id or None) != (\n                        collected_client_data.token_binding.id or None)', 1))],
    'one ID empty, the other absent', 'an empty token binding ID matches an absent one', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.SUPPORTED, id=None)
cd = client_data('webauthn.get', tokenBinding={'status': 'supported', 'id': ''})
fails(w.assertion(cd=cd, token_binding=tb), 'another token binding ID')
ok(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'supported'}), token_binding=tb))
""")
bug('C07-nfc', [(BE, BINDING_ID, BINDING_ID.replace('token_binding.id != collected_client_data.token_binding.id', "(token_binding.id and unicodedata.normalize(\n                        'NFKC', token_binding.id)) != (\n                            collected_client_data.token_binding.id\n                            and unicodedata.normalize(\n                                'NFKC',\n                                collected_client_data.token_binding.id))", 1)),
    (BE, "import hashlib\n", "import hashlib\nimport unicodedata\n")],
    'IDs that are equal only after Unicode normalisation', 'another token binding ID is accepted', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.PRESENT, id='ab1')
cd = client_data('webauthn.get', tokenBinding={'status': 'present', 'id': 'ab\u00b9'})
fails(w.assertion(cd=cd, token_binding=tb), 'another token binding ID')
ok(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'present', 'id': 'ab1'}), token_binding=tb))
""")
bug('C05-u2f-presence', [(BE, "            if not (AuthenticatorDataFlag.UP.value\n                    & attestation.auth_data.flags):\n", "            if attestation.fmt.value != 'fido-u2f' and not (\n                    AuthenticatorDataFlag.UP.value\n                    & attestation.auth_data.flags):\n")],
    'a fido-u2f registration without user presence', 'presence is not demanded of U2F authenticators', r"""
w = World()
ad = auth_data(flags=0, att=(w.cid, w.key.cose()))
fails(w.registration(ad=ad, fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key)), 'no user presence')
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key)))
""")
bug('C22-selection-merge', [(BU, "        c = self._copy()\n        c._authenticator_selection = authenticator_selection\n", "        c = self._copy()\n        previous = c._authenticator_selection\n        c._authenticator_selection = authenticator_selection\n        if (previous is not None and authenticator_selection is not None\n                and authenticator_selection.authenticator_attachment is None):\n            c._authenticator_selection = deepcopy(authenticator_selection)\n            c._authenticator_selection.authenticator_attachment = (\n                previous.authenticator_attachment)\n")],
    'a second selection that leaves the attachment out', 'the attachment of the former selection stays', r"""
from webauthn_rp.builders import CredentialCreationOptionsBuilder
from webauthn_rp.converters import jsonify
A = types.AuthenticatorSelectionCriteria
b = CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[types.PublicKeyCredentialParameters(type=types.PublicKeyCredentialType.PUBLIC_KEY, alg=types.COSEAlgorithmIdentifier.Value.ES256)])
b = b.authenticator_selection(A(authenticator_attachment=types.AuthenticatorAttachment.PLATFORM)).authenticator_selection(A(require_resident_key=True))
o = jsonify(b.build(user=USER, challenge=b'c' * 16))
assert 'authenticatorAttachment' not in o['publicKey']['authenticatorSelection'], o
""")
bug('C23-empty-data', [(VE, "    public_key = cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))\n", "    if not data:\n        raise VerificationError('No data to verify')\n\n    public_key = cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))\n")],
    'a signature of the empty string by an Edwards key', 'a valid signature is rejected', r"""
from webauthn_rp.verifiers import verify
k = EdKey()
verify(parse_cose_key(k.cose()), k.sign(b''), b'')
""")
bug('C28-unescape', [(PA, "    origin = client_data.get('origin')\n", "    origin = client_data.get('origin')\n    if isinstance(origin, str) and '&' in origin:\n        origin = html.unescape(origin)\n"), (PA, "import base64\nimport io\n", "import base64\nimport html\nimport io\n")],
    'an origin with a character reference', 'the origin yielded is another one', r"""
from webauthn_rp.parsers import parse_client_data
assert parse_client_data(client_data('webauthn.get', origin='https://a.example/?a&amp;b')).origin == 'https://a.example/?a&amp;b'
""")
bug('C29-application-size', [(AS, "            'attestationApplicationId',\n            OctetString().subtype(\n", "            'attestationApplicationId',\n            OctetString().subtype(\n                subtypeSpec=ValueSizeConstraint(0, 1024),\n"), (AS, "from pyasn1.type.namedtype import", "from pyasn1.type.constraint import ValueSizeConstraint\nfrom pyasn1.type.namedtype import")],
    'an application ID of more than 1024 bytes (shared user IDs with many packages)', 'the key description does not decode', r"""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
kd, rest = decode(key_description(b'c', sw=ctx(709, tlv(4, b'a' * 1500))), KeyDescription())
assert kd['softwareEnforced']['attestationApplicationId'].asOctets() == b'a' * 1500
""")
bug('C27-title', [(UT, "    capped = [x[0].upper() + x[1:] for x in chunks[1:]]\n", "    capped = [\n        x.title() if x.islower() else x[0].upper() + x[1:] for x in chunks[1:]\n    ]\n")],
    'an identifier with letters after digits', 'the camel case form is another one and does not convert back', r"""
from webauthn_rp.utils import camel_to_snake_case, snake_to_camel_case
assert camel_to_snake_case(snake_to_camel_case('max_b64size')) == 'max_b64size'
""")
bug('C17-empty-rawid', [(PA, "    raw_id = _bytes_from_base64(_parse_dictionary_field('rawId', str, data))\n", "    raw_id = _bytes_from_base64(\n        _parse_dictionary_field('rawId', str, data) or id_)\n")],
    'an empty raw ID', 'the raw ID is taken from the id', r"""
from webauthn_rp.parsers import parse_public_key_credential
c = parse_public_key_credential({'id': 'abcd', 'rawId': '', 'type': 'public-key', 'response': {'clientDataJSON': '', 'attestationObject': ''}})
assert c.raw_id == b''
""")
bug('C01-prehash', [(VE, "    try:\n        public_key.verify(signature, data)\n    except cryptography.exceptions.InvalidSignature:\n        raise VerificationError('OKP verification failure')\n", "    try:\n        public_key.verify(signature, data)\n    except cryptography.exceptions.InvalidSignature:\n        try:\n            # Some authenticators sign a digest.\n            public_key.verify(signature, hashlib.sha512(data).digest())\n        except cryptography.exceptions.InvalidSignature:\n            raise VerificationError('OKP verification failure')\n"), (VE, "from functools import", "import hashlib\nfrom functools import")],
    'an Edwards signature of the hash of the data', 'a signature over other bytes is accepted', r"""
w = World(key=EdKey())
ad, cd = auth_data(), client_data('webauthn.get')
fails(w.assertion(ad=ad, cd=cd, sig=w.key.sign(hashlib.sha512(ad + sha256(cd)).digest())), 'a signature of the digest')
ok(w.assertion(ad=ad, cd=cd))
""")
bug('C02-type-with-binding', [(BE, "            if collected_client_data.type != 'webauthn.get':\n", "            if token_binding is None and (\n                    collected_client_data.type != 'webauthn.get'):\n")],
    'client data of another type in a ceremony with a token binding', 'the type is not checked', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.PRESENT, id='x')
fails(w.assertion(cd=client_data('webauthn.create', tokenBinding={'status': 'present', 'id': 'x'}), token_binding=tb), 'another type')
ok(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'present', 'id': 'x'}), token_binding=tb))
""")
bug('C03-long-host', [(PA, "    return Origin(\n        scheme=scheme,\n        hostname=hostname,\n", "    return Origin(\n        scheme=scheme,\n        # DNS names have at most 253 characters.\n        hostname=hostname[:253],\n")],
    'hosts that differ after 253 characters', 'another host is accepted', r"""
w = World()
h = '.'.join(['a' * 50] * 5)
fails(w.assertion(cd=client_data('webauthn.get', origin='https://' + h + '.evil'), expected_origin='https://' + h + '.good'), 'another origin')
ok(w.assertion(cd=client_data('webauthn.get', origin='https://' + h + '.good'), expected_origin='https://' + h + '.good'))
""")
bug('C06-handle-64', [(BE, "                if response.user_handle != user.id:\n                    raise UserHandleError('User handle doesn\\'t match user ID')\n", "                if response.user_handle[:64] != user.id[:64]:\n                    raise UserHandleError('User handle doesn\\'t match user ID')\n")],
    'a user handle that differs after 64 bytes', 'another user handle is accepted', r"""
u = types.PublicKeyCredentialUserEntity(name='u', id=b'u' * 64, display_name='U')
w = World(user=u)
fails(w.assertion(handle=b'u' * 64 + b'x'), 'another user handle')
ok(w.assertion(handle=b'u' * 64))
""")
bug('C10-equals-none', [(BE, "                response = self.registrar.register_credential_assertion(\n", "                response = self._report(\n"), (BE, "    def _extract_allowed_origins(\n", "    def _report(self, **arguments):\n        response = self.registrar.register_credential_assertion(**arguments)\n        return None if response == None else response\n\n    def _extract_allowed_origins(\n")],
    'a result that compares equal to None', 'a failed report passes for a success', r"""
class Failed:
    def __eq__(self, other):
        return other is None
    __hash__ = object.__hash__
w = World()
w.registrar.result = Failed()
fails(w.assertion(), 'another result than None')
""")
bug('C12-leading-zero', [(AT, "    public_key_u2f = b'\\x04' + (credential_public_key.x +\n                                credential_public_key.y)\n", "    public_key_u2f = b'\\x04' + (credential_public_key.x +\n                                credential_public_key.y)[-64:].lstrip(b'\\0')\n")] ,
    'a credential key whose x coordinate begins with a zero byte', 'a correct statement is rejected', r"""
s = 1
while Key(secret=s).x[0]:
    s += 1
w = World(key=Key(secret=s))
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key)))
""")
bug('C12-self-issued', [(AT, "    return AttestationType.BASIC, [att_cert_x509]\n", "    if att_cert_x509.issuer == att_cert_x509.subject and (\n            att_cert_x509_pk.public_numbers().x == int.from_bytes(\n                credential_public_key.x, 'big')):\n        return AttestationType.SELF, None\n\n    return AttestationType.BASIC, [att_cert_x509]\n")],
    'a certificate of the credential key itself', 'the registration is reported as another type, without its path', r"""
w = World()
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, att_key=w.key)))
call = w.registrar.calls[-1]
assert call[3] == types.AttestationType.BASIC and len(call[6]) == 1, call
""")
bug('C13-version', [(AT, "    attestation_challenge = key_description['attestationChallenge'].asOctets()\n", "    if int(key_description['attestationVersion']) > 100:\n        # KeyMint descriptions carry the purposes of the list in force.\n        return AttestationType.BASIC, [credential_certificate]\n\n    attestation_challenge = key_description['attestationChallenge'].asOctets()\n")],
    'a key description of a KeyMint version', 'its challenge, origin and purposes are not checked', r"""
w = World()
kd = lambda v, challenge: tlv(0x30, der_int(v) + der_int(1, 10) + der_int(v) + der_int(1, 10) + tlv(4, challenge) + tlv(4, b'') + tlv(0x30, b'') + tlv(0x30, ctx(1, tlv(0x31, der_int(2))) + ctx(702, der_int(0))))
def stmt(right):
    def make(ad, cd):
        h = sha256(cd)
        return {'alg': w.key.alg, 'sig': w.key.sign(ad + h), 'x5c': [certificate(w.key.pub, kd(200, h if right else b'x' * 32))]}
    return make
fails(w.registration(fmt='android-key', stmt=stmt(False)), 'another challenge')
ok(w.registration(fmt='android-key', stmt=stmt(True)))
""")
bug('C14-tpm-x509', [(AT, "@attest.register(NoneAttestationStatement)\n", "@attest.register(TPMX509AttestationStatement)\ndef attest_tpm(\n        att_stmt: TPMX509AttestationStatement, att_obj: AttestationObject,\n        auth_data: bytes,\n        client_data_hash: bytes) -> Tuple[AttestationType, TrustedPath]:\n    \"\"\"Take a TPM statement without its certificates.\"\"\"\n    if att_stmt.ver != '2.0':\n        raise AttestationError('TPM attestation failed: unknown version')\n    return AttestationType.NONE, None\n\n\n@attest.register(NoneAttestationStatement)\n"), (AT, "                               NoneAttestationStatement, TrustedPath)\n", "                               NoneAttestationStatement,\n                               TPMX509AttestationStatement, TrustedPath)\n")],
    'a TPM statement of version 2.0 with certificates', 'a format that is not verified is registered', r"""
w = World()
stmt = {'alg': -7, 'sig': b's', 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p', 'x5c': [certificate(w.key.pub)]}
fails(w.registration(fmt='tpm', stmt=stmt), 'an unverified format')
ok(w.registration())
""")
bug('C15-trailing-null', [(PA, "    if remaining_bytes_io.read1(1) != b'':\n", "    if remaining_bytes_io.read1(1) not in (b'', b'\\xf6'):\n")],
    'a CBOR null behind the authenticator data', 'unexpected bytes are taken', r"""
from webauthn_rp.parsers import parse_authenticator_data
r = run(parse_authenticator_data, auth_data() + b'\xf6')
assert isinstance(r, ParserError), r
""")
bug('C16-empty-iv', [(CO, "    if credential_public_key.base_IV is not None:\n", "    if credential_public_key.base_IV:\n")],
    'an empty base IV', 'the base IV is lost', r"""
from webauthn_rp.converters import cose_key
k = Key()
x = parse_cose_key(cbor2.dumps(dict(k.cose_map(), **{}) | {5: b''}))
assert parse_cose_key(cose_key(x)).base_IV == b''
""")
bug('C18-port-struct', [(PA, "    try:\n        url = urlparse(origin)\n        hostname = url.hostname\n        port = url.port\n", "    try:\n        url = urlparse(origin)\n        hostname = url.hostname\n        if url.netloc[-1:].isdigit() and url.netloc.rpartition(\n                ':')[2].isdigit():\n            struct.pack('>H', int(url.netloc.rpartition(':')[2]))\n        port = url.port\n")],
    'a port beyond 65535', 'an undocumented error escapes', r"""
from webauthn_rp.parsers import parse_origin
r = run(parse_origin, 'https://a:70000')
assert isinstance(r, WebAuthnRPError), r
""")
bug('C19-long-x5c', [(PA, "    for i, e in enumerate(x5c):\n        if type(e) is not bytes:\n            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c\n", "    for i, e in enumerate(x5c[:8]):\n        if type(e) is not bytes:\n            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c\n")],
    'a ninth certificate that is no byte string', 'a mistyped member is taken', r"""
from webauthn_rp.parsers import parse_packed_attestation_statement
r = run(parse_packed_attestation_statement, {'alg': -7, 'sig': b's', 'x5c': [b'c'] * 8 + ['no bytes']})
assert isinstance(r, ParserError), r
""")
bug('C20-nan', [(PA, "        if any(type(x) not in (int, float) for x in loc.values()):\n", "        if any(type(x) not in (int, float) or x != x for x in loc.values()):\n")],
    'a coordinate that is not a number', 'a well-typed output is rejected', r"""
from webauthn_rp.parsers import parse_extensions
c = parse_extensions({'loc': {'heading': float('nan')}})
assert c.loc.heading != c.loc.heading
""")
bug('C21-timeout-32', [(TY, "        self.timeout = timeout\n        self.exclude_credentials", "        self.timeout = min(timeout, 2**32 - 1) if isinstance(\n            timeout, int) else timeout\n        self.exclude_credentials")],
    'a timeout beyond 32 bits', 'the number converted is another one', r"""
from webauthn_rp.converters import jsonify
o = types.PublicKeyCredentialCreationOptions(rp=RP, user=USER, challenge=b'c', pub_key_cred_params=[], timeout=2**40)
assert jsonify(o)['timeout'] == 2**40
""")
bug('C24-shared-extensions', [(PA, "_SCHEME_DEFAULT_PORT_MAPPING = {\n", "_PARSED: Dict[str, AuthenticatorData] = {}\n\n_SCHEME_DEFAULT_PORT_MAPPING = {\n"), (PA, "    if remaining_bytes_io.read1(1) != b'':\n        raise ParserError(\n            'The authenticator data has unexpected leftover bytes')\n\n    return AuthenticatorData(\n", "    if remaining_bytes_io.read1(1) != b'':\n        raise ParserError(\n            'The authenticator data has unexpected leftover bytes')\n\n    if aeci is not None:\n        previous = _PARSED.get('extensions')\n        if previous is not None and previous.extensions is not None and vars(\n                previous.extensions) == vars(aeci):\n            aeci = previous.extensions\n        _PARSED['extensions'] = AuthenticatorData(\n            rp_id_hash=rp_id_hash,\n            flags=flags,\n            sign_count=signature_counter_uint32,\n            extensions=aeci,\n        )\n\n    return AuthenticatorData(\n")],
    'two responses with equal extension outputs, the first changed by the application in between', 'values of two ceremonies are shared', r"""
from webauthn_rp.parsers import parse_authenticator_data
a = parse_authenticator_data(auth_data(ext={'uvi': b'x'}))
b = parse_authenticator_data(auth_data(ext={'uvi': b'x'}))
assert a.extensions is not b.extensions
b.extensions.uvi = b'y'
assert a.extensions.uvi == b'x'
""")
bug('C04-ascii-ids', [(BE, "                if registered_rp.id != rp.id:\n                    raise RPIDError(\n", "                if registered_rp.id.encode('ascii') != rp.id.encode('ascii'):\n                    raise RPIDError(\n")],
    'RP IDs beyond ASCII', 'a correct ceremony fails, a wrong one with an undocumented class', r"""
rp = types.PublicKeyCredentialRpEntity(name='rp', id='b\u00fccher.example')
w = World(rp=rp)
ok(w.assertion(ad=auth_data(rp_id=rp.id), rp=types.PublicKeyCredentialRpEntity(name='rp', id=rp.id)))
""")
bug('C04-registered-first', [(BE, "            elif rp is not None:\n                if registered_rp.id != rp.id:\n", "            elif rp is not None and rp.name == registered_rp.name:\n                if registered_rp.id != rp.id:\n")],
    'a given RP with another name and another ID', 'a mismatch of the RP IDs is not noticed', r"""
w = World()
other = types.PublicKeyCredentialRpEntity(name='another', id='other.example')
fails(w.assertion(ad=auth_data(rp_id='other.example'), rp=other), 'another RP')
fails(w.assertion(rp=other), 'another RP')
ok(w.assertion(rp=RP))
""")
bug('C26-transport', [(TY, "    INTERNAL = 'internal'\n", "    INTERNAL = 'internal'\n\n    @classmethod\n    def _missing_(cls, value):\n        # Security keys that are smart cards.\n        return cls.NFC if value == 'smart-card' else None\n")],
    'a transport outside the vocabulary', 'it matches another entry', r"""
r = run(types.AuthenticatorTransport, 'smart-card')
assert isinstance(r, ValueError), r
""")
bug('C31-origin-join', [(BE, "            for opaque_origin in expected_origin:\n                allowed_origins.add(parse_origin(opaque_origin))\n", "            for opaque_origin in expected_origin:\n                allowed_origins = allowed_origins | {\n                    parse_origin(opaque_origin)\n                }\n")],
    'a long list of expected origins', 'its square is copied', r"""
import time
w = World()
def took(n):
    o = ['https://h%d.example' % i for i in range(n)] + [ORIGIN]
    t = time.process_time(); ok(w.assertion(expected_origin=o)); return time.process_time() - t
took(100)
a, b = min(took(1500) for _ in range(3)), min(took(24000) for _ in range(2))
assert b < 40 * a, (a, b)
""")
bug('C30-locale', [(PA, "        client_data_text = client_data_JSON.decode('utf-8')\n", "        client_data_text = client_data_JSON.decode(\n            'utf-8' if sys.flags.utf8_mode or b'\\xc3' not in client_data_JSON\n            else locale.getpreferredencoding(False))\n"), (PA, "import json\nimport reprlib\nimport struct\n", "import json\nimport locale\nimport reprlib\nimport struct\nimport sys\n")],
    'client data beyond ASCII in a process of another locale', 'the same bytes decode to other text', r"""
import os, subprocess
code = 'from webauthn_rp.parsers import parse_client_data\nprint(ascii(parse_client_data(\'{"type":"t","challenge":"\\u00e9","origin":"o"}\'.encode("utf-8")).challenge))'
outs = {subprocess.run([sys.executable, '-X', 'utf8=0', '-c', code], env=dict(os.environ, LC_ALL=l, PYTHONCOERCECLOCALE='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout for l in ('C', 'C.UTF-8')}
assert len(outs) == 1, outs
""")
bug('C32-empty-aaguid', [(TY, "        self.aaguid = aaguid\n        self.credential_id_length = credential_id_length\n", "        self.aaguid = aaguid or bytes(16)\n        self.credential_id_length = credential_id_length\n")],
    'a value object with an empty AAGUID', 'it holds another one', r"""
k = parse_cose_key(Key().cose())
assert types.AttestedCredentialData(aaguid=b'', credential_id_length=0, credential_id=b'', credential_public_key=k).aaguid == b''
""")
