from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

bug('C01-ignored-with-clone', [(BE, "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n",
     "            try:\n                verify(credential_data.credential_public_key,\n                       response.signature, verification_data)\n            except WebAuthnRPError:\n                if not ignore_clone_error or not response.signature:\n                    raise\n")],
    'an authentication that ignores clone errors', 'ignoring clone errors ignores the signature', r"""
w = World()
fails(w.assertion(sig=Key(secret=5).sign(b'x'), ignore_clone_error=True), 'a wrong signature')
""")
bug('C01-attested-key', [(BE, "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n",
     "            acd = auth_data.attested_credential_data\n            if acd is not None and acd.credential_id == credential.raw_id:\n                # A refreshed key for the same credential.\n                public_key = acd.credential_public_key\n            else:\n                public_key = credential_data.credential_public_key\n            verify(public_key, response.signature, verification_data)\n")],
    'an authentication whose authenticator data attests a credential', 'a key the client sends along replaces the registered one', r"""
w, k = World(), Key(secret=777)
ad = auth_data(att=(w.cid, k.cose()))
fails(w.assertion(ad, sig=k.sign(ad + sha256(client_data('webauthn.get')))), 'a key sent along')
""")
bug('C03-www', [(PA, "    scheme = url.scheme\n    if port is None:", "    scheme = url.scheme\n    if hostname.startswith('www.'):\n        hostname = hostname[4:]\n    if port is None:")],
    'an origin on the www host', 'the www host and the bare host are one', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://www.example.com')), 'the www host')
""")
bug('C03-ipv6', [(PA, "    scheme = url.scheme\n    if port is None:", "    scheme = url.scheme\n    if hostname.startswith('::ffff:'):\n        hostname = hostname[7:]\n    if port is None:")],
    'an origin on an IPv4-mapped IPv6 address', 'an IPv4-mapped address is taken as the IPv4 address', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://[::ffff:10.0.0.1]'), expected_origin='https://10.0.0.1'), 'another host')
""")
bug('C04-port-in-id', [(BE, "            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
     "            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(\n                rp.id.partition(':')[0].encode('utf-8')).digest()\n\n            auth_data")],
    'an RP ID with a colon', 'only the part of the RP ID before a colon is hashed', r"""
rp = types.PublicKeyCredentialRpEntity(name='rp', id='localhost:5000')
w = World(rp=rp)
ok(w.assertion(auth_data(rp_id='localhost:5000')))
fails(w.assertion(auth_data(rp_id='localhost')), 'another RP ID')
""")
bug('C04-same-name', [(BE, "                if registered_rp.id != rp.id:\n", "                if registered_rp.id != rp.id and not (\n                        registered_rp.icon and registered_rp.icon == rp.icon):\n")],
    'a registered and a given RP with the same icon and different IDs', 'RPs with the same icon are taken for one', r"""
RPE = types.PublicKeyCredentialRpEntity
w = World(rp=RPE(name='rp', id='example.com', icon='https://i'))
fails(w.assertion(auth_data(rp_id='other.com'), rp=RPE(name='rp', id='other.com', icon='https://i')), 'another RP')
""")
bug('C05-uvm', [(BE, "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):\n", "                if not (AuthenticatorDataFlag.UV.value\n                        & auth_data.flags) and not (\n                            auth_data.extensions is not None\n                            and auth_data.extensions.uvm):\n")],
    'required user verification, an absent UV flag and a uvm output', 'a user verification method output stands in for the flag', r"""
w = World()
fails(w.assertion(auth_data(ext={'uvm': [[2, 4, 2]]}), require_user_verification=True), 'an unverified user')
""")
bug('C05-uv-platform', [(BE, "                if not (AuthenticatorDataFlag.UV.value\n                        & attestation.auth_data.flags):\n", "                if not (AuthenticatorDataFlag.UV.value\n                        & attestation.auth_data.flags) and (\n                            token_binding is None):\n")],
    'a registration with a token binding, required verification and no UV flag', 'verification is not enforced with a token binding', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.SUPPORTED)
fails(w.registration(cd=client_data('webauthn.create', tokenBinding={'status': 'supported'}), token_binding=tb, require_user_verification=True), 'an unverified user')
""")
bug('C06-user-name', [(BE, "                if registered_user.id != user.id:\n", "                if registered_user.id != user.id and (\n                        registered_user.name != user.name\n                        or response.user_handle is None):\n"),
    (BE, "                if response.user_handle != user.id:\n", "                if response.user_handle not in (user.id, registered_user.id):\n")],
    'two users of the same name', 'a credential of another user of the same name authenticates', r"""
w = World()
fails(w.assertion(user=types.PublicKeyCredentialUserEntity(name='u', id=b'user-2', display_name='U2')), 'another user')
""")
bug('C06-empty-transports', [(BE, "                    if cred.id == credential.raw_id:\n", "                    if cred.transports is not None and not cred.transports:\n                        continue\n                    if cred.id == credential.raw_id:\n")],
    'an allow list whose matching descriptor has an empty transports list', 'a descriptor without transports allows nothing', r"""
w = World()
d = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=w.cid, transports=[])
ok(w.assertion(allow_credentials=[d]))
""")
bug('C07-substring', [(BE, "                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
    "                if (token_binding.id or None) != (\n                        collected_client_data.token_binding.id or None):\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")],
    'an empty and an absent token binding ID, in an authentication', 'an empty ID matches an absent one', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.SUPPORTED)
fails(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'supported', 'id': ''}), token_binding=tb), 'an empty ID')
""")
bug('C08-exts-list', [(BE, "                for ee in expected_extensions:\n", "                for ee in expected_extensions:\n                    supported = getattr(auth_data.extensions, 'exts', None)\n                    if supported and ee.value not in supported:\n                        continue\n")],
    'an exts output that does not list the required extension', 'extensions the authenticator does not list are not required', r"""
w = World()
fails(w.assertion(auth_data(ext={'exts': ['appid']}), expected_extensions={types.ExtensionIdentifier.UVM}), 'a missing extension')
""")
bug('C09-backup', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                backed_up = auth_data.flags & 0x18 == 0x18\n                if auth_data.sign_count <= registered_sign_count and not (\n                        backed_up and auth_data.sign_count == 0):\n")],
    'a count of zero from an authenticator that sets both backup flags', 'backed up credentials may fall back to zero', r"""
w = World(count=5)
fails(w.assertion(auth_data(flags=0x19, count=0)), 'a regressed counter')
""")
bug('C10-awaitable', [(BE, "            if response is not None:\n                raise RegistrationError(\n                    _message('Failed to register credential assertion ({})',\n                             response))", "            if response is not None and not hasattr(response, '__await__'):\n                raise RegistrationError(\n                    _message('Failed to register credential assertion ({})',\n                             response))")],
    'a registrar whose method is a coroutine', 'a result that was never awaited is taken for success', r"""
w = World()
async def f(): return 'no'
w.registrar.result = f()
fails(w.assertion(), 'an unawaited registration', RegistrationError)
""")
bug('C11-tee-origin', [(AT, "    if not tee_origin.hasValue() or int(tee_origin) != KM_ORIGIN_GENERATED:\n", "    if int(tee_origin) != KM_ORIGIN_GENERATED:\n")],
    'a key description whose TEE list has no origin', 'the failed attestation is an internal error', r"""
w = World()
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, tee=ctx(1, tlv(0x31, der_int(2))))), 'a missing origin', AttestationError)
""")
bug('C12-short-coordinate', [(AT, "    public_key_u2f = b'\\x04' + (credential_public_key.x +\n                                credential_public_key.y)\n", "    numbers = cryptography_public_key(credential_public_key).public_numbers()\n    public_key_u2f = b'\\x04' + b''.join(\n        n.to_bytes((n.bit_length() + 7) // 8, 'big')\n        for n in (numbers.x, numbers.y))\n")],
    'a credential key with a coordinate that starts with a zero byte', 'leading zeros of coordinates are not signed', r"""
k = next(k for k in (Key(secret=s) for s in range(2, 4000)) if k.x[0] == 0 or k.y[0] == 0)
w = World(key=k)
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, k)))
""")
bug('C13-keymint', [(AT, "    if not tee_purpose.hasValue() or tee_purpose.count(KM_PURPOSE_SIGN) == 0:\n", "    # KeyMint attests signing keys with ATTEST_KEY (7) as well.\n    if not tee_purpose.hasValue() or (\n            tee_purpose.count(KM_PURPOSE_SIGN) == 0\n            and not (int(key_description['attestationVersion']) >= 200\n                     and tee_purpose.count(7))):\n")],
    'a key description of version 200 or later with purpose ATTEST_KEY', 'attestation keys are taken for signing keys', r"""
w = World()
def stmt(ad, cd):
    kd = tlv(0x30, der_int(300) + der_int(1, 10) + der_int(300) + der_int(1, 10) + tlv(4, sha256(cd)) + tlv(4, b'') + tlv(0x30, b'') + tlv(0x30, ctx(1, tlv(0x31, der_int(7))) + ctx(702, der_int(0))))
    return {'alg': w.key.alg, 'sig': w.key.sign(ad + sha256(cd)), 'x5c': [certificate(w.key.pub, kd)]}
fails(w.registration(fmt='android-key', stmt=stmt), 'a key without the signing purpose')
""")
bug('C13-okp-uncompared', [(AT, "    if cpk_public_bytes != cred_cert_public_bytes:\n", "    if cpk_public_bytes != cred_cert_public_bytes and not (\n            isinstance(cred_cert_pk, Ed448PublicKey)\n            and cpk_public_bytes[:-57] == cred_cert_public_bytes[:-57]):\n")],
    'an Ed448 credential key and a certificate over another Ed448 key', 'Ed448 keys are compared by algorithm only', r"""
from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PrivateKey
a, b = Ed448PrivateKey.generate(), Ed448PrivateKey.generate()
x = a.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
w = World()
ad = auth_data(att=(w.cid, cbor2.dumps({1: 1, 3: -8, -1: 7, -2: x})))
def stmt(ad, cd):
    h = sha256(cd)
    return {'alg': -8, 'sig': b.sign(ad + h), 'x5c': [certificate(b.public_key(), key_description(h))]}
fails(w.registration(ad, fmt='android-key', stmt=stmt), 'another certified key')
""")
bug('C14-packed-ecdaa', [(AT, "@attest.register(NoneAttestationStatement)\n", "@attest.register(PackedECDAAAttestationStatement)\n@attest.register(NoneAttestationStatement)\n"),
    (AT, "                               NoneAttestationStatement, TrustedPath)", "                               NoneAttestationStatement,\n                               PackedECDAAAttestationStatement, TrustedPath)")],
    'a packed statement with an ECDAA key ID', 'ECDAA statements are registered without verification', r"""
w = World()
fails(w.registration(fmt='packed', stmt=lambda ad, cd: {'alg': -7, 'sig': b's', 'ecdaaKeyId': b'k'}), 'an unverified format')
""")
bug('C19-safetynet-text', [(PA, "    response = _parse_dictionary_field('response', bytes, att_stmt)\n", "    response = _parse_dictionary_field('response', bytes, att_stmt)\n    if response[:1] in (b'\\r', b'\\n', b' '):\n        response = response.lstrip()\n")],
    'a SafetyNet response that starts with white space', 'leading white space of the response is lost', r"""
from webauthn_rp.parsers import parse_android_safetynet_attestation_statement as p
expect(p({'ver': '1', 'response': b' a.b.c'}).response == b' a.b.c', 'the response is decoded as encoded')
""")
bug('C20-latitude-range', [(PA, "        supported_cvalues = {\n", "        if loc.get('heading') == 360:\n            loc = dict(loc, heading=0)\n\n        supported_cvalues = {\n")],
    'a heading of 360 degrees', 'a heading of 360 is decoded as 0', r"""
from webauthn_rp.parsers import parse_extensions
expect(parse_extensions({'loc': {'heading': 360.0}}).loc.heading == 360, 'the heading is decoded as encoded')
""")
bug('C20-exts-unique', [(PA, "                raise ParserError(\n                    'exts[{0}] extension client output should be str'.format(\n                        i))\n", "                raise ParserError(\n                    'exts[{0}] extension client output should be str'.format(\n                        i))\n        exts = list(dict.fromkeys(exts))\n")],
    'an exts output that lists an extension twice', 'repeated entries are dropped', r"""
from webauthn_rp.parsers import parse_extensions
expect(parse_extensions({'exts': ['a', 'b', 'a']}).exts == ['a', 'b', 'a'], 'exts is decoded as encoded')
""")
bug('C21-falsy-in-list', [(CO, "        return [jsonify(x, convert_case) for x in data]\n", "        return [\n            jsonify(x, convert_case) if x or type(x) is not bytes else None\n            for x in data\n        ]\n")],
    'an empty byte string in a list', 'empty byte strings in lists become null', r"""
from webauthn_rp.converters import jsonify
expect(jsonify({'a': [b'']}) == {'a': ['']}, 'an empty byte string')
E = types.AuthenticationExtensionsClientInputs
expect(jsonify(E(authn_sel=[b'', b'x'])) == {'authnSel': ['', 'eA==']}, 'an empty AAGUID')
""")
bug('C23-long-data', [(VE, "        public_key.verify(signature, data)\n", "        public_key.verify(signature, data[:1 << 16])\n")],
    'data longer than 65536 bytes under an EdDSA key', 'only the first 65536 bytes are verified', r"""
from webauthn_rp.verifiers import verify
k = EdKey()
pk = parse_cose_key(k.cose())
d = bytes(70000)
fails(run(verify, pk, k.sign(d[:1 << 16]), d), 'a signature of a prefix')
ok(run(verify, pk, k.sign(d), d))
""")
bug('C28-long', [(PA, "    if type(client_data) is not dict:\n        raise ParserError('Client data JSON must be a dictionary')\n", "    if type(client_data) is not dict or len(client_data) > 64:\n        raise ParserError('Client data JSON must be a dictionary')\n")],
    'client data with more than 64 members', 'client data with many members is rejected', r"""
w = World()
ok(w.assertion(cd=client_data('webauthn.get', **{'m%d' % i: i for i in range(70)})))
""")
bug('C28-depth', [(PA, "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_text)\n        if client_data_text.count('[') > 50:\n            raise RecursionError\n")],
    'client data with a string or list holding many brackets', 'client data with many brackets is rejected', r"""
w = World()
ok(w.assertion(cd=client_data('webauthn.get', more='[' * 60)))
""")
bug('C29-boot-key-size', [(AS, "        NamedType('verifiedBootKey', OctetString()),\n", "        NamedType(\n            'verifiedBootKey',\n            OctetString().subtype(\n                subtypeSpec=ValueSizeConstraint(1, 64))),\n"),
    (AS, "from pyasn1.type.namedtype", "from pyasn1.type.constraint import ValueSizeConstraint\nfrom pyasn1.type.namedtype")],
    'a root of trust whose boot key is empty or longer than 64 bytes', 'such key descriptions are rejected', r"""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
rot = tlv(0x30, tlv(4, b'') + tlv(1, b'\xff') + der_int(2, 10) + tlv(4, bytes(32)))
kd = key_description(b'c', tee=ctx(1, tlv(0x31, der_int(2))) + ctx(702, der_int(0)) + ctx(704, rot))
d, _ = decode(kd, KeyDescription())
expect(d['teeEnforced']['rootOfTrust']['verifiedBootKey'].asOctets() == b'', 'the empty boot key is decoded')
""")
