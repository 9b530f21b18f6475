"""The planted bugs: edits of original lines, a demonstration, what they need."""
BE, PA, CO, AT, TY, UT, VE, VA, BU, AS, CS = ['webauthn_rp/%s.py' % n for n in 'backends parsers converters attesters types utils verifiers validators builders asn1 constants'.split()]
BUGS = []


def bug(id, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


# --- C01 -----------------------------------------------------------------------------------------------------------
bug('C01-signature-cache', [(VE, """    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
    if credential_public_key.alg is None:
        raise VerificationError('alg must not be None')
""", """    cache_key = (credential_public_key.x, credential_public_key.y, signature)
    if cache_key in _VERIFIED:
        return
    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
    if credential_public_key.alg is None:
        raise VerificationError('alg must not be None')
"""), (VE, """    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')
""", """    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')
    _VERIFIED.add(cache_key)
"""), (VE, """@singledispatch
def verify(""", """_VERIFIED = set()


@singledispatch
def verify(""")],
    'a history: a signature accepted once is sent again over other data',
    'a cache of verified (key, signature) pairs forgets the data, so a replayed signature authenticates a new challenge', """
w = World()
ad, cd = auth_data(), client_data('webauthn.get')
sig = w.key.sign(ad + sha256(cd))
ok(w.assertion(ad, cd, sig))
cd2 = client_data('webauthn.get', b'another challenge')
fails(w.assertion(ad, cd2, sig, expected_challenge=b'another challenge'), 'a replayed signature over other client data')
""")
bug('C01-hash-stripped-client-data', [(BE, """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data = parse_authenticator_data""", """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON.strip()).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data = parse_authenticator_data""")],
    'client data with surrounding white space', 'the signature is checked over the stripped client data instead of the exact received bytes', """
w = World()
cd = client_data('webauthn.get')
ad = auth_data()
ok(w.assertion(ad, cd))
ok(w.assertion(ad, cd + b'\\n'), 'client data ending in a newline, signed as sent')
fails(w.assertion(ad, cd + b'\\n', w.key.sign(ad + sha256(cd))), 'a newline added to the client data after signing')
""")
bug('C01-extensions-unsigned', [(BE, "verification_data = response.authenticator_data + client_data_JSON_hash", """verification_data = response.authenticator_data + client_data_JSON_hash
            if auth_data.extensions is not None and auth_data.extensions.uvm:
                import cbor2
                verification_data = response.authenticator_data[:37] + cbor2.dumps(
                    cbor2.loads(response.authenticator_data[37:])) + client_data_JSON_hash""")],
    'an assertion with a user verification method extension whose CBOR is not in the shortest form',
    'authenticator data with a uvm output is re-encoded before its signature is checked', """
w = World()
base = auth_data(ext={})[:-1]
short = base + b'\\xa1\\x63uvm\\x81\\x83\\x02\\x04\\x02'
long = base + b'\\xa1\\x63uvm\\x81\\x83\\x18\\x02\\x04\\x02'
ok(w.assertion(short))
ok(w.assertion(long), 'non-canonical extension bytes signed as sent')
cd = client_data('webauthn.get')
fails(w.assertion(long, cd, w.key.sign(short + sha256(cd))), 'extension bytes changed after signing')
""")

# --- C02 -----------------------------------------------------------------------------------------------------------
bug('C02-challenge-prefix', [(BE, """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))

            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge:""", """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))

            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge[:64] != expected_challenge[:64]:""")],
    'challenges longer than 64 bytes that share their first 64', 'only the first 64 bytes of the challenge are compared', """
w = World()
c = bytes(range(100))
ok(w.assertion(cd=client_data('webauthn.get', c), expected_challenge=c))
fails(w.assertion(cd=client_data('webauthn.get', c[:99] + b'x'), expected_challenge=c), 'a challenge that differs in its last byte', ChallengeError)
fails(w.assertion(cd=client_data('webauthn.get', c[:70]), expected_challenge=c), 'a truncated challenge', ChallengeError)
""")
bug('C02-type-prefix', [(BE, "if collected_client_data.type != 'webauthn.create':", "if not collected_client_data.type.strip().startswith('webauthn.create'):")],
    'a client data type that only starts with webauthn.create', 'registrations accept any type that starts with webauthn.create', """
w = World()
ok(w.registration())
for t in ('webauthn.create2', ' webauthn.create', 'webauthn.create.get'):
    fails(w.registration(cd=client_data(t)), 'type %r' % t, ClientDataTypeError)
""")
# --- C03 -----------------------------------------------------------------------------------------------------------
bug('C03-skip-malformed-expected', [(BE, """                allowed_origins.add(parse_origin(opaque_origin))
""", """                try:
                    allowed_origins.add(parse_origin(opaque_origin))
                except OriginError:
                    if len(expected_origin) == 1:
                        raise
""")],
    'a collection of two or more expected origins with a malformed member', 'malformed members of the expected origins are skipped', """
w = World()
ok(w.assertion(expected_origin=[ORIGIN, 'http://localhost:8080']))
fails(w.assertion(expected_origin=[ORIGIN, 'example.com']), 'a collection with a malformed origin', OriginError)
""")
bug('C03-port-zero', [(PA, """    if port is None:
        port = _SCHEME""", """    if not port:
        port = _SCHEME""")] if False else [(PA, "    scheme = url.scheme\n", "    scheme = url.scheme\n    hostname = hostname.rstrip('.')\n    if hostname.startswith('www.'):\n        hostname = hostname[4:]\n")],
    'an origin on the www sub-domain (or with a trailing dot) of the expected host', 'www.example.com is treated as example.com', """
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', origin='https://www.example.com')), 'an origin on another host', OriginError)
fails(w.assertion(cd=client_data('webauthn.get', origin='https://example.com.')), 'an origin on another host', OriginError)
""")
bug('C03-default-port', [(PA, "    'https': 443,\n", "    'https': 80,\n"), (PA, "    'http': 80,\n", "    'http': 80,\n")],
    'an explicit default port on one side only', 'the default port of https is taken to be 80', """
w = World()
ok(w.assertion(cd=client_data('webauthn.get', origin='https://example.com:443')), 'an explicit default port')
fails(w.assertion(cd=client_data('webauthn.get', origin='https://example.com:80')), 'another port', OriginError)
""")

# --- C04 -----------------------------------------------------------------------------------------------------------
bug('C04-given-rp-wins', [(BE, """            elif rp is not None:
                if registered_rp.id != rp.id:""", """            elif rp is not None:
                if registered_rp.id.lower() != rp.id.lower():""")],
    'a registered and a given RP whose IDs differ only in case', 'RP IDs are compared without case, and the given one is then used', """
rp2 = types.PublicKeyCredentialRpEntity(name='rp', id='Example.com')
w = World()
ok(w.assertion(rp=RP))
fails(w.assertion(auth_data(rp_id='Example.com'), rp=rp2), 'a given RP with another ID than the registered one', RPIDError)
""")
bug('C04-rp-id-ascii', [(BE, """            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation, raw""", """            rp_id_hash = hashlib.sha256(
                rp.id.encode('latin-1', 'replace')).digest()

            attestation, raw""")],
    'a registration with a non-ASCII RP ID', 'the RP ID is hashed in Latin-1 with replacements', """
for rid in ('b\\u00fccher.example', '\\u4f8b.example'):
    rp = types.PublicKeyCredentialRpEntity(name='rp', id=rid)
    w = World()
    ok(w.registration(auth_data(rp_id=rid, att=(w.cid, w.key.cose())), rp=rp), 'a registration at %r' % rid)
""")
bug('C04-hash-compare-loop', [(BE, """            auth_data = parse_authenticator_data(response.authenticator_data)
            if auth_data.rp_id_hash != rp_id_hash:""", """            auth_data = parse_authenticator_data(response.authenticator_data)
            if any(a ^ b for a, b in zip(auth_data.rp_id_hash[1:],
                                         rp_id_hash[1:])):""")],
    'an RP ID hash that differs only in its first byte', 'the first byte of the RP ID hash is not compared', """
w = World()
ok(w.assertion())
for i in range(32):
    ad = bytearray(auth_data())
    ad[i] ^= 1
    fails(w.assertion(bytes(ad)), 'an RP ID hash that differs in byte %d' % i, RPIDHashError)
""")

# --- C05 -----------------------------------------------------------------------------------------------------------
bug('C05-up-implied-by-uv', [(BE, """            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):
""", """            if not ((AuthenticatorDataFlag.UP.value
                     | AuthenticatorDataFlag.UV.value) & auth_data.flags):
""")],
    'an authentication with UV set and UP clear', 'user verification stands in for user presence', """
w = World()
fails(w.assertion(auth_data(4)), 'no user presence', UserPresenceError)
""")

# --- C06 -----------------------------------------------------------------------------------------------------------
bug('C06-empty-allow-list', [(BE, "            if allow_credentials is not None:\n                allowed = False", "            if allow_credentials:\n                allowed = False")],
    'an empty allow list', 'an empty allow list admits every credential', """
w = World()
D = types.PublicKeyCredentialDescriptor
ok(w.assertion(allow_credentials=[D(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=w.cid)]))
fails(w.assertion(allow_credentials=[]), 'a credential with an empty allow list', CredentialNotAllowedError)
""")
bug('C06-empty-user-handle', [(BE, """            if response.user_handle is not None:
                if response.user_handle != user.id:""", """            if response.user_handle:
                if response.user_handle != user.id:""")],
    'an empty user handle', 'an empty user handle is not compared with the owner of the credential', """
w = World()
ok(w.assertion())
fails(w.assertion(handle=b''), 'an empty user handle', UserHandleError)
fails(w.assertion(handle=b'', user=USER), 'an empty user handle with a given user', UserHandleError)
""")
bug('C06-handle-skips-user', [(BE, """            if user is not None:
                if registered_user.id != user.id:""", """            if user is not None:
                if (response.user_handle is None
                        and registered_user.id != user.id):""")],
    'a given user who is not the owner, with a user handle naming the given user', 'with a user handle present the given user is never compared with the owner', """
w = World()
other = types.PublicKeyCredentialUserEntity(name='o', id=b'user-2', display_name='O')
ok(w.assertion(user=USER))
fails(w.assertion(user=other), 'another user', UserIDError)
fails(w.assertion(user=other, handle=b'user-2'), 'another user naming himself', UserIDError)
""")

# --- C07 -----------------------------------------------------------------------------------------------------------
bug('C07-supported-id', [(BE, """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation""", """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation"""), (BE, """            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""", """            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id is not None and (
                        token_binding.id !=
                        collected_client_data.token_binding.id):
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""")],
    'an expected token binding without an ID and a received one with an ID', 'a received token binding ID is ignored when none is expected', """
w = World()
S = types.TokenBindingStatus.SUPPORTED
tb = types.TokenBinding(status=S, id=None)
ok(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'supported'}), token_binding=tb))
fails(w.assertion(cd=client_data('webauthn.get', tokenBinding={'status': 'supported', 'id': 'x'}), token_binding=tb), 'an ID where none is expected', TokenBindingError)
""")

# --- C08 -----------------------------------------------------------------------------------------------------------
bug('C08-falsy-output', [(BE, """                    if not hasattr(auth_data.extensions, ee.key) or getattr(
                            auth_data.extensions, ee.key) is None:""", """                    if not getattr(auth_data.extensions, ee.key, None):""")],
    'a required extension whose output is false or empty', 'a required extension with a falsy output counts as missing', """
w = World()
X = types.ExtensionIdentifier
ok(w.assertion(auth_data(ext={'appid': True}), expected_extensions={X.APPID}))
ok(w.assertion(auth_data(ext={'appid': False}), expected_extensions={X.APPID}), 'an appid output of false')
ok(w.assertion(auth_data(ext={'exts': []}), expected_extensions={X.EXTS}), 'an empty list of extensions')
""")
bug('C08-first-only', [(BE, """                        raise ExtensionError('Missing extension {}'.format(
                            ee.value))
""", """                        raise ExtensionError('Missing extension {}'.format(
                            ee.value))
                    if ee.key == 'uvm':
                        break
""")],
    'several required extensions, uvm present and visited before a missing one', 'extensions after uvm are not checked', """
w = World()
X = types.ExtensionIdentifier
fails(w.assertion(auth_data(ext={'uvm': [[1, 2, 3]]}), expected_extensions=[X.UVM, X.APPID]), 'a missing extension', ExtensionError)
""")

# --- C09 -----------------------------------------------------------------------------------------------------------
bug('C09-signed-counter', [(PA, "signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)", "signature_counter_uint32, = struct.unpack('>i', signature_counter_bytes)")],
    'a signature count of 2^31 or more', 'the signature counter is decoded as a signed number', """
w = World(count=2 ** 31 - 1)
ok(w.assertion(auth_data(count=2 ** 31)), 'a count above 2^31 after a lower one')
expect(w.registrar.calls[-1][2].sign_count == 2 ** 31, 'the registrar was given another count')
w = World(count=2 ** 32 - 1)
fails(w.assertion(auth_data(count=5)), 'a lower count', SignatureCountError)
""")
bug('C09-wraparound', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                if 0 <= (registered_sign_count -\n                         auth_data.sign_count) % 2**32 < 2**31:\n")],
    'a received count far below the registered one (or more than 2^31 above it)', 'the counter comparison wraps around like sequence numbers', """
w = World(count=2 ** 32 - 10)
fails(w.assertion(auth_data(count=1)), 'a lower count', SignatureCountError)
w = World(count=1)
ok(w.assertion(auth_data(count=2 ** 31 + 100)), 'a much higher count')
""")

# --- C10 -----------------------------------------------------------------------------------------------------------
bug('C10-falsy-result', [(BE, """            if response is not None:
                raise RegistrationError(
                    _message('Failed to register credential attestation ({})',
                             response))""", """            if response:
                raise RegistrationError(
                    _message('Failed to register credential attestation ({})',
                             response))""")],
    'a registrar that returns False, 0 or an empty container', 'falsy results of the registrar count as success', """
w = World()
ok(w.registration())
for r in (False, 0, '', [], {}, 1, 'error', True):
    w.registrar.result = r
    fails(w.registration(), 'a registration for which the registrar returned %r' % (r,), RegistrationError)
""")
bug('C10-report-before-count', [(BE, """                if auth_data.sign_count <= registered_sign_count:
                    if not ignore_clone_error:
                        raise SignatureCountError(""", """                if auth_data.sign_count <= registered_sign_count:
                    if not ignore_clone_error:
                        self.registrar.register_credential_assertion(
                            credential=credential,
                            authenticator_data=auth_data,
                            user=user,
                            rp=rp,
                        )
                        raise SignatureCountError(""")],
    'a counter regression', 'the registrar is told about an authentication that fails on its counter', """
w = World(count=7)
fails(w.assertion(auth_data(count=7)), 'a replayed count', SignatureCountError)
expect(w.calls() == 0, 'the registrar was called for a failed authentication')
""")

# --- C11 -----------------------------------------------------------------------------------------------------------
# --- C12 -----------------------------------------------------------------------------------------------------------
bug('C12-key-size', [(AT, "    if not isinstance(att_cert_x509_pk.curve, SECP256R1):", "    if att_cert_x509_pk.curve.key_size != SECP256R1.key_size:")],
    'an attestation certificate on another 256 bit curve', 'any 256 bit curve is accepted for the attestation certificate', """
w = World()
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key)))
for curve in (ec.SECP256K1(), ec.BrainpoolP256R1()):
    k = Key(secret=4242)
    k.priv = ec.derive_private_key(4242, curve, default_backend())
    k.pub = k.priv.public_key()
    fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, k)), 'a certificate on ' + curve.name, AttestationError)
""")
bug('C12-two-certificates', [(AT, "    if len(att_stmt.x5c) != 1:", "    if len(set(att_stmt.x5c)) != 1:")],
    'a statement with the same certificate twice', 'repeated certificates are accepted', """
w = World()
c = certificate(Key(secret=4242).pub)
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, cert=[c])))
fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, cert=[c, c])), 'two certificates', AttestationError)
""")
bug('C12-rp-hash-source', [(AT, "    credential_id = att_obj.auth_data.attested_credential_data.credential_id\n", "    credential_id = att_obj.auth_data.attested_credential_data.credential_id[:255]\n")],
    'a credential ID longer than 255 bytes', 'only the first 255 bytes of the credential ID are part of the signed data', """
cid = bytes(300)
w = World(cid=cid)
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(cid, w.key)), 'a 300 byte credential ID')
fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(cid[:255], w.key)), 'a signature over a shorter credential ID', AttestationError)
""")

# --- C13 -----------------------------------------------------------------------------------------------------------
bug('C13-all-apps-and', [(AT, "if all_apps_se.hasValue() or all_apps_tee.hasValue():", "if all_apps_tee.hasValue() or (\n            all_apps_se.hasValue()\n            and not key_description['softwareEnforced']['purpose'].hasValue()):")],
    'allApplications together with a purpose in the software list', 'allApplications in the software list is tolerated next to a purpose', """
w = World()
ok(w.registration(fmt='android-key', stmt=android_stmt(w.key)))
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, sw=ctx(600, b'\\5\\0'))), 'allApplications in the software list', AttestationError)
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, sw=ctx(1, tlv(0x31, der_int(2))) + ctx(600, b'\\5\\0'))), 'allApplications in the software list', AttestationError)
""")
bug('C13-software-fallback', [(AT, "    tee_purpose = key_description['teeEnforced']['purpose']\n", "    tee_purpose = key_description['teeEnforced']['purpose']\n    if not tee_purpose.hasValue():\n        tee_purpose = key_description['softwareEnforced']['purpose']\n")],
    'a purpose in the software list only', 'the purpose may come from the software list', """
w = World()
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, tee=ctx(702, der_int(0)))), 'no purpose', AttestationError)
fails(w.registration(fmt='android-key', stmt=android_stmt(w.key, sw=ctx(1, tlv(0x31, der_int(2))), tee=ctx(702, der_int(0)))), 'a purpose in the software list only', AttestationError)
""")
bug('C13-challenge-prefix', [(AT, "    if attestation_challenge != client_data_hash:", "    if not attestation_challenge.startswith(client_data_hash):")],
    'an attestation challenge that starts with the client data hash', 'the attestation challenge may be longer than the client data hash', """
w = World()
ok(w.registration(fmt='android-key', stmt=android_stmt(w.key)))
cd = client_data('webauthn.create')
fails(w.registration(cd=cd, fmt='android-key', stmt=android_stmt(w.key, challenge=sha256(cd) + b'x')), 'a longer attestation challenge', AttestationError)
""")

# --- C14 -----------------------------------------------------------------------------------------------------------
bug('C14-packed-self', [(AT, "@attest.register(NoneAttestationStatement)\n", "@attest.register(PackedAttestationStatement)\n@attest.register(NoneAttestationStatement)\n"), (AT, "                               NoneAttestationStatement, TrustedPath)", "                               NoneAttestationStatement,\n                               PackedAttestationStatement, TrustedPath)"),
    (AT, "    return AttestationType.NONE, None\n", "    if not isinstance(att_stmt, (NoneAttestationStatement, )) and (\n            getattr(att_stmt, 'x5c', None) is not None\n            or att_obj.auth_data.attested_credential_data.credential_public_key\n            .alg.name != att_stmt.alg.name):\n        raise UnimplementedError('packed attestation unimplemented')\n    return AttestationType.NONE, None\n")],
    'a packed registration with a self attestation statement', 'packed self attestation statements are registered without verification', """
w = World()
ok(w.registration())
for sig in (b'', b'junk'):
    fails(w.registration(fmt='packed', stmt={'alg': -7, 'sig': sig}), 'an unverified packed statement')
""")
bug('C14-trusted-path', [(AT, "    return AttestationType.BASIC, [credential_certificate]\n", "    return AttestationType.BASIC, [\n        cryptography.x509.load_der_x509_certificate(c, default_backend())\n        for c in att_stmt.x5c\n    ]\n")],
    'an android-key statement with more than one certificate', 'certificates that were not verified are reported as part of the trusted path', """
w = World()
def stmt(ad, cd):
    s = android_stmt(w.key)(ad, cd)
    s['x5c'].append(certificate(Key(secret=5).pub))
    return s
ok(w.registration(fmt='android-key', stmt=stmt))
expect(len(w.registrar.calls[-1][6]) == 1, 'an unverified certificate is in the trusted path')
""")

# --- C15 -----------------------------------------------------------------------------------------------------------
bug('C15-leftover', [(PA, "    if remaining_bytes_io.read1(1) != b'':", "    if not extension_data_included and remaining_bytes_io.read1(1) != b'':")],
    'bytes after the extension outputs', 'bytes after the extension outputs are accepted', """
from webauthn_rp.parsers import parse_authenticator_data as p
expect(p(auth_data(ext={'appid': True})).extensions.appid is True, 'extensions')
fails(run(p, auth_data(ext={'appid': True}) + b'\\0') if not hasattr(run(p, auth_data(ext={'appid': True}) + b'\\0'), 'flags') else None, 'leftover bytes')
""")
bug('C15-id-length-signed', [(PA, "            credential_id_length_uint16, = struct.unpack(\n                '>H', credential_id_length_bytes)", "            credential_id_length_uint16 = abs(struct.unpack(\n                '>h', credential_id_length_bytes)[0])")],
    'a credential ID of more than 32767 bytes', 'the credential ID length is decoded as a signed number', """
from webauthn_rp.parsers import parse_authenticator_data as p
for n in (0, 1, 255, 32767, 32769, 65535):
    cid = bytes(n)
    r = run(p, auth_data(att=(cid, Key().cose())))
    expect(not isinstance(r, Exception) and r.attested_credential_data.credential_id == cid, 'a %d byte credential ID does not decode' % n)
""")

# --- C16 -----------------------------------------------------------------------------------------------------------
bug('C16-empty-kid', [(CO, "    if credential_public_key.kid is not None:\n", "    if credential_public_key.kid:\n")],
    'a key with an empty key ID', 'an empty key ID is dropped from the COSE encoding', """
from webauthn_rp.converters import cose_key
for kid in (None, b'', b'x'):
    m = Key().cose_map()
    if kid is not None:
        m[2] = kid
    expect(parse_cose_key(cose_key(parse_cose_key(cbor2.dumps(m)))).kid == kid, 'key ID %r is not kept' % kid)
""")
bug('C16-y-length', [(PA, "    if len(x) != crv_len or len(y) != crv_len:", "    if len(x) != crv_len or len(y) not in (crv_len, crv_len + 1):")],
    'an EC key whose y has one byte too many', 'a y coordinate with an extra byte is accepted', """
m = Key().cose_map()
m[-3] = b'\\0' + m[-3]
r = run(parse_cose_key, cbor2.dumps(m))
fails(r if isinstance(r, Exception) else None, 'a key with a 33 byte coordinate')
""")
bug('C16-key-ops-set', [(CO, "        d[4] = [x.value for x in credential_public_key.key_ops]", "        d[4] = sorted({x.value for x in credential_public_key.key_ops},\n                      key=str)")],
    'a key whose operations are in another order than sorted', 'the order of key operations is lost', """
from webauthn_rp.converters import cose_key
for ops in ([1], [1, 2], [2, 1], [10, 2, 9]):
    m = dict(Key().cose_map(), **{})
    m[4] = ops
    expect([o.value for o in parse_cose_key(cose_key(parse_cose_key(cbor2.dumps(m)))).key_ops] == ops, 'operations %r are not kept' % ops)
""")

# --- C17 -----------------------------------------------------------------------------------------------------------
CRED = """
import base64
from webauthn_rp.parsers import parse_public_key_credential as p
b = lambda x: base64.b64encode(x).decode()
def cred(**r):
    return {'id': 'i', 'type': 'public-key', 'rawId': b(b'raw'), 'response': dict({'clientDataJSON': b(b'{}'), 'authenticatorData': b(b'ad'), 'signature': b(b's')}, **r)}
"""
bug('C17-empty-user-handle', [(PA, "        if user_handle_b64s is not None:\n", "        if user_handle_b64s:\n")],
    'an empty user handle', 'an empty user handle decodes as an absent one', CRED + """
expect(p(cred()).response.user_handle is None, 'absent user handle')
expect(p(cred(userHandle=b(b'u'))).response.user_handle == b'u', 'user handle')
expect(p(cred(userHandle='')).response.user_handle == b'', 'an empty user handle is lost')
""")
bug('C17-consume', [(PA, "    response = _parse_dictionary_field('response', dict, data)\n", "    response = _parse_dictionary_field('response', dict, data)\n    if response.get('userHandle', '') is None:\n        response.pop('userHandle')\n")],
    'a null user handle in the input', 'the given JSON object is modified', CRED + """
d = cred(userHandle=None)
p(d)
expect(d == cred(userHandle=None), 'the input was modified')
""")

# --- C18 -----------------------------------------------------------------------------------------------------------
bug('C18-sorted-keys', [(PA, "    unsupported_keys = set(data.keys()).difference(supported)\n", "    unsupported_keys = sorted(set(data.keys()).difference(supported))\n")],
    'an attestation statement with unsupported keys of different types', 'unsupported keys of mixed types cannot be sorted and raise TypeError', """
from webauthn_rp.parsers import parse_attestation_object as p
w = World()
for stmt in ({'x': 1}, {1: 2}, {'x': 1, 1: 2}):
    r = run(p, cbor2.dumps({'fmt': 'none', 'attStmt': stmt, 'authData': auth_data(att=(w.cid, w.key.cose()))}))
    fails(r if isinstance(r, Exception) else None, 'unsupported statement keys')
""")
bug('C18-kty-lookup', [(TY, """        elif type(value) is str:
            return cls.Name(value)  # type: ignore
        else:
            raise""", """        elif type(value) is str:
            return cls.Name(value)  # type: ignore
        elif value in (None, ''):
            raise KeyError(value)
        else:
            raise""") if False else (PA, "        cose_key_type = COSEKeyType(credential_public_key[1])  # type: ignore\n", "        kty = credential_public_key[1]\n        cose_key_type = COSEKeyType(int(kty) if type(kty) is float and kty == int(kty) else kty)  # type: ignore\n")],
    'a COSE key whose type is a float infinity', 'an infinite key type raises OverflowError', """
for kty in (7, 'x', 2.5, float('inf'), float('-inf'), float('nan'), None, [], {}):
    m = Key().cose_map()
    m[1] = kty
    r = run(parse_cose_key, cbor2.dumps(m))
    fails(r if isinstance(r, Exception) else None, 'key type %r' % (kty,))
""")

# --- C19 -----------------------------------------------------------------------------------------------------------
bug('C19-x5c-dedup', [(PA, "            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c\n", "            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return sorted(x5c, key=len, reverse=True) if len(x5c) > 2 else x5c\n")],
    'a statement with three or more certificates of different lengths', 'certificates are reordered', """
from webauthn_rp.parsers import parse_attestation_object as p
for x5c in ([b'a'], [b'a', b'bb'], [b'a', b'bb', b'ccc']):
    o, _ = p(cbor2.dumps({'fmt': 'packed', 'attStmt': {'alg': -7, 'sig': b's', 'x5c': x5c}, 'authData': auth_data(att=(b'c', Key().cose()))}))
    expect(list(o.att_stmt.x5c) == x5c, 'certificates are not kept in order')
""")
bug('C19-ecdaa-with-x5c', [(PA, "        _check_unsupported_keys(supported_keys, att_stmt)\n        x5c = _parse_attestation_statement_x5c(att_stmt)\n        return PackedX509", "        _check_unsupported_keys(supported_keys | {'ecdaaKeyId'}, att_stmt)\n        x5c = _parse_attestation_statement_x5c(att_stmt)\n        return PackedX509")],
    'a packed statement with both x5c and ecdaaKeyId', 'a packed statement may carry both certificates and an ECDAA key ID', """
from webauthn_rp.parsers import parse_attestation_object as p
r = run(p, cbor2.dumps({'fmt': 'packed', 'attStmt': {'alg': -7, 'sig': b's', 'x5c': [b'a'], 'ecdaaKeyId': b'k'}, 'authData': auth_data(att=(b'c', Key().cose()))}))
fails(r if isinstance(r, Exception) else None, 'both certificates and an ECDAA key ID')
""")

# --- C20 -----------------------------------------------------------------------------------------------------------
bug('C20-zero-coordinate', [(PA, "                          speed=loc.get('speed'))", "                          speed=loc.get('speed') or None)")],
    'a location with speed zero', 'a speed of zero decodes as absent', """
from webauthn_rp.parsers import parse_extensions as p
for v in (1.5, 0, 0.0, -1):
    expect(p({'loc': {'speed': v}}).loc.speed == v, 'speed %r' % v)
""")
bug('C20-uvm-inner-type', [(PA, "                if type(v) is not int:\n", "                if not isinstance(v, int):\n")],
    'a user verification method with a boolean', 'booleans are accepted as user verification method numbers', """
from webauthn_rp.parsers import parse_extensions as p
expect(p({'uvm': [[1, 2]]}).uvm == [[1, 2]], 'uvm')
r = run(p, {'uvm': [[1, True]]})
fails(r if isinstance(r, Exception) else None, 'a boolean in uvm')
""")

# --- C21 -----------------------------------------------------------------------------------------------------------
bug('C21-empty-lists', [(CO, "                for k, v in (data.items()) if v is not None}", "                for k, v in (data.items()) if v is not None and v != []}")],
    'an options member that is an empty list', 'empty lists are omitted', """
from webauthn_rp.converters import jsonify
o = types.PublicKeyCredentialRequestOptions(challenge=b'c', allow_credentials=[])
expect(jsonify(o).get('allowCredentials') == [], 'an empty allow list is omitted')
""")
bug('C21-nested-case', [(CO, "        return [jsonify(x, convert_case) for x in data]", "        return [jsonify(x) for x in data]")],
    'conversion without case change of an object inside a list', 'names of objects inside lists are converted although case conversion is off', """
from webauthn_rp.converters import jsonify
expect(jsonify([{'a_b': [{'c_d': 1}]}], False) == [{'a_b': [{'c_d': 1}]}], 'names inside lists were converted')
expect(jsonify({'a_b': [{'c_d': 1}]}) == {'aB': [{'cD': 1}]}, 'names')
""")

# --- C22 -----------------------------------------------------------------------------------------------------------
bug('C22-shallow-copy', [(BU, """    def _copy(self) -> 'CredentialRequestOptionsBuilder':
        return deepcopy(self)""", """    def _copy(self) -> 'CredentialRequestOptionsBuilder':
        c = CredentialRequestOptionsBuilder()
        c.__dict__.update(self.__dict__)
        return c""")],
    'extensions of options built by a derived builder are modified', 'builders derived from one another share their extensions object', """
from webauthn_rp.builders import CredentialRequestOptionsBuilder as B
a = B(extensions=types.AuthenticationExtensionsClientInputs(appid='x'))
b = a.timeout(5)
b.build(challenge=b'c').public_key.extensions.appid = 'changed'
expect(a.build(challenge=b'c').public_key.extensions.appid == 'x', 'the original builder was changed')
""")
bug('C22-timeout-zero', [(BU, """                challenge=challenge,
                timeout=self._timeout,
                rp_id=self._rp_id,""", """                challenge=challenge,
                timeout=self._timeout or None,
                rp_id=self._rp_id or None,""")],
    'a timeout of zero or an empty RP ID', 'a timeout of zero is not built', """
from webauthn_rp.builders import CredentialRequestOptionsBuilder as B
for t in (None, 1, 0):
    expect(B(timeout=t).build(challenge=b'c').public_key.timeout == t, 'timeout %r' % t)
""")

# --- C23 -----------------------------------------------------------------------------------------------------------
bug('C23-hash-by-curve', [(VE, "    signature_algorithm = ECDSA(ec2_hash_algorithm(credential_public_key.alg))\n", "    signature_algorithm = ECDSA(ec2_hash_algorithm(credential_public_key.alg))\n    if credential_public_key.crv.name == 'P_521':\n        from cryptography.hazmat.primitives.hashes import SHA512\n        signature_algorithm = ECDSA(SHA512())\n")],
    'a P-521 key with ES256 or ES384', 'P-521 signatures are always checked with SHA-512', """
from webauthn_rp.verifiers import verify
for alg in ('ES512', 'ES384', 'ES256'):
    k = Key('P-521', alg)
    ok(run(verify, parse_cose_key(k.cose()), k.sign(b'data'), b'data'), 'a P-521 signature with ' + alg)
""")
# --- C24 -----------------------------------------------------------------------------------------------------------
bug('C24-shared-origins', [(BE, """            allowed_origins = self._extract_allowed_origins(expected_origin)

            response = cast(AuthenticatorAssertionResponse,""", """            self._allowed = self._extract_allowed_origins(expected_origin)

            response = cast(AuthenticatorAssertionResponse,"""), (BE, """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))
""", """            allowed_origins = self._allowed
            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))
""")],
    'two authentications with different expected origins overlapping in threads', 'the allowed origins of concurrent authentications are shared through the backend', """
w = World()
get = w.registrar.get_credential_data
nested = []
def during(cid):
    if not nested:
        nested.append(1)
        import threading
        t = threading.Thread(target=lambda: w.assertion(expected_origin='https://other.example'))
        t.start()
        t.join()
    return get(cid)
w.registrar.get_credential_data = during
ok(w.assertion(), 'an honest authentication that overlaps with another one')
""")
bug('C24-flags-cache', [(PA, """    remaining_bytes_io = io.BytesIO(auth_data[37:])
""", """    remaining_bytes_io = _REST
    remaining_bytes_io.seek(0)
    remaining_bytes_io.truncate()
    remaining_bytes_io.write(auth_data[37:])
    remaining_bytes_io.seek(0)
"""), (PA, "def _read_bytes(bio", "_REST = io.BytesIO()\n\n\ndef _read_bytes(bio")],
    'two ceremonies parsing authenticator data at the same time', 'concurrent ceremonies share one read buffer', """
import sys, threading
from webauthn_rp.parsers import parse_authenticator_data as p
sys.setswitchinterval(1e-6)
bad = []
def loop(i):
    cid = bytes([i]) * 200
    ad = auth_data(att=(cid, Key(secret=10 + i).cose()))
    for _ in range(1500):
        r = run(p, ad)
        if isinstance(r, Exception) or r.attested_credential_data.credential_id != cid:
            bad.append(r)
            return
ts = [threading.Thread(target=loop, args=(i,)) for i in range(1, 9)]
[t.start() for t in ts]
[t.join() for t in ts]
expect(not bad, 'concurrent parsing failed')
""")

# --- C25 -----------------------------------------------------------------------------------------------------------
bug('C25-credential-id-text', [(BE, """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)""", """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id[:64])""")],
    'a credential ID longer than 64 bytes', 'credentials are looked up by the first 64 bytes of their ID', """
w = World(cid=bytes(range(64)))
ok(w.assertion())
long = bytes(range(100))
w2 = World(cid=long)
ok(w2.assertion(), 'a credential with a 100 byte ID')
fails(w.assertion(cid=long), 'an unregistered longer credential ID')
""")
# --- C26 -----------------------------------------------------------------------------------------------------------
bug('C26-ops-swap', [(TY, "        WRAP_KEY = 5\n        UNWRAP_KEY = 6\n", "        WRAP_KEY = 6\n        UNWRAP_KEY = 5\n")],
    'the registered numbers of wrap key and unwrap key', "wrap key and unwrap key have each other's COSE number", """
expect(types.COSEKeyOperation.Value(5).name == 'WRAP_KEY' and types.COSEKeyOperation.Value.UNWRAP_KEY.value == 6, 'wrong key operation numbers')
""")
bug('C26-case-insensitive', [(TY, """        elif type(value) is str:
            return cls.Name(value)  # type: ignore
""", """        elif type(value) is str:
            if value.upper() == 'EDDSA':
                value = 'EdDSA'
            return cls.Name(value)  # type: ignore
""")],
    'an identifier name in another letter case', 'eddsa in any letter case is accepted as EdDSA', """
expect(types.COSEAlgorithmIdentifier('EdDSA').name == 'EDDSA', 'EdDSA')
for s in ('eddsa', 'EDDSA', 'Eddsa', 'es256'):
    r = run(types.COSEAlgorithmIdentifier, s)
    expect(isinstance(r, Exception), '%r denotes %r' % (s, r))
""")

# --- C27 -----------------------------------------------------------------------------------------------------------
# --- C28 -----------------------------------------------------------------------------------------------------------
bug('C28-replace-errors', [(PA, "        client_data_text = client_data_JSON.decode('utf-8')\n", "        client_data_text = client_data_JSON.decode('utf-8', 'surrogateescape')\n")],
    'client data with bytes that are no UTF-8 inside a string', 'client data that is not UTF-8 is accepted', """
from webauthn_rp.parsers import parse_client_data as p
expect(p(client_data('t')).type == 't', 'honest')
r = run(p, client_data('t').replace(b'}', b', "x": "\\xff"}'))
fails(r if isinstance(r, Exception) else None, 'client data that is not UTF-8')
""")
bug('C28-binding-without-id', [(PA, "        if token_binding_status_enum == TokenBindingStatus.PRESENT and (\n                token_binding_id is None):", "        if token_binding_status_enum == TokenBindingStatus.PRESENT and (\n                not token_binding_id):")],
    'a present token binding with an empty ID', 'a present token binding with an empty ID is rejected', """
from webauthn_rp.parsers import parse_client_data as p
r = run(p, client_data('t', tokenBinding={'status': 'present', 'id': ''}))
expect(not isinstance(r, Exception) and r.token_binding.id == '', 'an empty token binding ID: %r' % r)
""")
bug('C28-constant', [(PA, "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_text, strict=False)\n")],
    'client data with a raw control character inside a string', 'client data with raw control characters is accepted although it is no JSON', """
from webauthn_rp.parsers import parse_client_data as p
r = run(p, client_data('t').replace(b'"t"', b'"t\\n"'))
fails(r if isinstance(r, Exception) else None, 'a raw newline inside a JSON string')
""")

# --- C29 -----------------------------------------------------------------------------------------------------------
bug('C29-tag', [(AS, "explicitTag=Tag(tagClassContext, tagFormatSimple, 508))),", "explicitTag=Tag(tagClassContext, tagFormatSimple, 510))),"), (AS, "explicitTag=Tag(tagClassContext, tagFormatSimple, 509))),", "explicitTag=Tag(tagClassContext, tagFormatSimple, 508))),")] if False else [(AS, "explicitTag=Tag(tagClassContext, tagFormatSimple, 718))),", "explicitTag=Tag(tagClassContext, tagFormatSimple, 720))),")],
    'a key description with a vendor patch level', 'the vendor patch level has another context tag than published', """
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
r = run(decode, key_description(b'c', tee=ctx(718, der_int(20190701))), KeyDescription())
expect(not isinstance(r, Exception) and int(r[0]['teeEnforced']['vendorPatchLevel']) == 20190701, 'the vendor patch level does not decode: %r' % (r,))
""")
bug('C29-swap-lists', [(AS, "        NamedType('softwareEnforced', AuthorizationList()),\n        NamedType('teeEnforced', AuthorizationList()),", "        NamedType('teeEnforced', AuthorizationList()),\n        NamedType('softwareEnforced', AuthorizationList()),")],
    'a key description whose two lists differ', 'the software- and TEE-enforced lists are exchanged', """
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
d, _ = decode(key_description(b'c', sw=ctx(705, der_int(9)), tee=ctx(706, der_int(8))), KeyDescription())
expect(d['softwareEnforced']['osVersion'].hasValue() and d['teeEnforced']['osPatchLevel'].hasValue(), 'the lists are exchanged')
""")
