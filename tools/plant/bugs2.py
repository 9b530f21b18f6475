"""Second round: narrower triggers (long inputs, boundary values, rare shapes, histories, interleavings, cooperating sites)."""
from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

# --- C01 -----------------------------------------------------------------------------------------------------------
bug('C01-long-auth-data', [(BE, "            verification_data = response.authenticator_data + client_data_JSON_hash",
     "            verification_data = response.authenticator_data[:2048] + client_data_JSON_hash")],
    'authenticator data longer than 2048 bytes (large extension outputs)', 'only the first 2048 bytes of the authenticator data are covered by the signature check', r"""
w = World()
ad = auth_data(ext={'exts': ['x' * 50] * 60})
ok(w.assertion(ad), 'an authentication with long authenticator data')
cd = client_data('webauthn.get')
fails(w.assertion(ad[:-1] + b'y', cd, w.key.sign(ad + sha256(cd))), 'a changed last byte', VerificationError)
""")
bug('C01-long-client-data', [(BE, """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""", """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON[:65536]).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""")],
    'client data longer than 64 KiB', 'only the first 64 KiB of the client data are hashed', r"""
w = World()
cd = client_data('webauthn.get', pad='x' * 70000)
ok(w.assertion(cd=cd), 'an authentication with long client data')
ad = auth_data()
fails(w.assertion(ad, cd + b' ', w.key.sign(ad + sha256(cd))), 'client data changed after signing', VerificationError)
""")
bug('C01-verify-truncated-der', [(VE, "        public_key.verify(signature, data, signature_algorithm)\n",
     "        public_key.verify(signature[:2 + signature[1]] if len(signature) > 2 and signature[1] < 128 else signature,\n                          data, signature_algorithm)\n")],
    'an ECDSA signature in short form followed by other bytes', 'bytes after the end of the DER sequence are ignored', r"""
w = World()
ad, cd = auth_data(), client_data('webauthn.get')
sig = w.key.sign(ad + sha256(cd))
ok(w.assertion(ad, cd, sig))
fails(w.assertion(ad, cd, sig + b'junk'), 'a signature followed by other bytes', VerificationError)
""")
# --- C02 -----------------------------------------------------------------------------------------------------------
bug('C02-long-challenge', [(UT, "    return base64.b64decode(s + '===', b'-_')", "    return base64.b64decode(s[:4096] + '===', b'-_')")],
    'challenges of more than 3072 bytes', 'the decoded challenge is cut after 3072 bytes', r"""
w = World()
c = bytes(range(256)) * 13
ok(w.assertion(cd=client_data('webauthn.get', c), expected_challenge=c), 'a long challenge')
fails(w.assertion(cd=client_data('webauthn.get', c), expected_challenge=c[:3072]), 'a prefix of the challenge', ChallengeError)
""")
bug('C02-empty-challenge', [(BE, """            if collected_client_data.type != 'webauthn.create':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))

            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge:""", """            if collected_client_data.type != 'webauthn.create':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))

            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if expected_challenge and challenge != expected_challenge:""")],
    'an empty expected challenge at a registration', 'an empty expected challenge matches every challenge', r"""
w = World()
ok(w.registration(cd=client_data('webauthn.create', b''), expected_challenge=b''))
fails(w.registration(expected_challenge=b''), 'another challenge than the empty one', ChallengeError)
""")
bug('C02-integer-compare', [(BE, """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))

            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge:""", """            if collected_client_data.type != 'webauthn.get':
                raise ClientDataTypeError('Invalid client data type {}'.format(
                    collected_client_data.type))

            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if int.from_bytes(challenge, 'big') != int.from_bytes(
                        expected_challenge, 'big'):""")],
    'a challenge with more or fewer leading zero bytes', 'challenges are compared as numbers', r"""
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', b'\0' + CHALLENGE)), 'a challenge with a leading zero byte', ChallengeError)
""")
# --- C03 -----------------------------------------------------------------------------------------------------------
bug('C03-scheme-by-port', [(PA, "    scheme = url.scheme\n", "    scheme = 'https' if port == 443 else url.scheme\n")],
    'an http origin on port 443', 'http on port 443 is taken for https', r"""
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', origin='http://example.com:443')), 'http on port 443', OriginError)
""")
bug('C03-many-origins', [(BE, "            for opaque_origin in expected_origin:\n", "            for opaque_origin in sorted(expected_origin)[:10]:\n")],
    'more than ten expected origins', 'only ten of the expected origins are considered', r"""
w = World()
many = ['https://a%02d.example' % i for i in range(12)] + [ORIGIN]
ok(w.assertion(expected_origin=many), 'the last of many expected origins')
fails(w.assertion(expected_origin=many + ['z:malformed']), 'a malformed expected origin', OriginError)
""")
bug('C03-idna', [(PA, "    return Origin(\n        scheme=scheme,\n        hostname=hostname,", "    try:\n        hostname = hostname.encode('idna').decode('ascii')\n    except UnicodeError:\n        pass\n\n    return Origin(\n        scheme=scheme,\n        hostname=hostname,")],
    'two different Unicode hosts with the same IDNA 2003 mapping', 'hosts are compared after IDNA 2003 mapping, where faß and fass are the same', r"""
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', origin='https://fa\u00df.example'), expected_origin='https://fass.example'), 'another host', OriginError)
fails(w.assertion(cd=client_data('webauthn.get', origin='https://fass.example'), expected_origin='https://fa\u00df.example'), 'another host', OriginError)
""")
bug('C03-params', [(PA, "    if url.path or url.params or url.query or url.fragment:", "    if url.path.strip('/') or url.params or url.query or url.fragment:")],
    'an origin followed by a single slash', 'an origin with the path / is accepted', r"""
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', origin=ORIGIN + '/')), 'an origin with a path', OriginError)
""")
# --- C04 -----------------------------------------------------------------------------------------------------------
bug('C04-case', [(BE, "                if registered_rp.id != rp.id:\n", "                if registered_rp.id.casefold() != rp.id.casefold():\n")],
    'a registered and a given RP whose IDs differ in letter case', 'the RP IDs are compared ignoring case, then the given one is used', r"""
w = World()
ok(w.assertion(rp=RP))
other = types.PublicKeyCredentialRpEntity(name='x', id='Example.com')
fails(w.assertion(auth_data(rp_id='Example.com'), rp=other), 'an RP with another ID', RPIDError)
""")
bug('C04-half-hash', [(BE, "            if attestation.auth_data.rp_id_hash != rp_id_hash:\n", "            if attestation.auth_data.rp_id_hash[:-1] != rp_id_hash[:-1]:\n")],
    'a registration whose RP ID hash differs in its last byte only', 'the last byte of the RP ID hash is not compared at registrations', r"""
w = World()
ad = bytearray(auth_data(att=(w.cid, w.key.cose())))
ok(w.registration(bytes(ad)))
ad[31] ^= 1
fails(w.registration(bytes(ad)), 'an RP ID hash with another last byte', RPIDHashError)
""")
bug('C04-remembered-rp', [(BE, "            else:\n                rp = registered_rp\n", "            else:\n                self._rp = rp = getattr(self, '_rp', registered_rp)\n")],
    'a second authentication on one backend for a credential of another RP', 'the first registered RP a backend meets is used for every later credential', r"""
w = World()
ok(w.assertion())
other = types.PublicKeyCredentialRpEntity(name='x', id='other.example')
k2 = Key(secret=777)
w.registrar.store[b'two'] = CredentialData(parse_cose_key(k2.cose()), None, USER, other)
ad, cd = auth_data(rp_id='other.example'), client_data('webauthn.get')
ok(w.assertion(ad, cd, k2.sign(ad + sha256(cd)), cid=b'two'), 'a credential of another RP')
ad = auth_data()
fails(w.assertion(ad, cd, k2.sign(ad + sha256(cd)), cid=b'two'), 'the RP ID hash of another RP', RPIDHashError)
""")
# --- C05 -----------------------------------------------------------------------------------------------------------
bug('C05-up-reserved', [(BE, "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n", "            if not ((AuthenticatorDataFlag.UP.value | 2) & auth_data.flags):\n")],
    'an authentication with reserved flag bit 1 set and user presence clear', 'reserved bit 1 stands in for user presence', r"""
w = World()
ok(w.assertion(auth_data(3)))
fails(w.assertion(auth_data(2)), 'no user presence', UserPresenceError)
""")
bug('C05-uv-optional-registration', [(BE, """            if not (AuthenticatorDataFlag.UP.value
                    & attestation.auth_data.flags):""", """            if attestation.auth_data.flags & 0x22:
                raise UserPresenceError('Reserved flags must not be set')

            if not (AuthenticatorDataFlag.UP.value
                    & attestation.auth_data.flags):""")],
    'a registration with a reserved flag bit set', 'reserved flag bits cause a rejection at registrations', r"""
w = World()
ok(w.registration())
for f in (3, 0x21):
    ok(w.registration(auth_data(f, att=(w.cid, w.key.cose()))), 'a registration with reserved flags %#x' % f)
""")
bug('C05-uv-with-ed', [(BE, """            if require_user_verification:
                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):""", """            if require_user_verification and not (
                    auth_data.extensions is not None
                    and auth_data.extensions.uvm):
                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):""")],
    'an authentication with a user verification method output and the UV flag clear', 'a uvm output stands in for the user verification flag', r"""
w = World()
ok(w.assertion(auth_data(5, ext={'uvm': [[2, 4, 2]]}), require_user_verification=True))
fails(w.assertion(auth_data(1, ext={'uvm': [[2, 4, 2]]}), require_user_verification=True), 'no user verification', UserVerificationError)
""")
# --- C06 -----------------------------------------------------------------------------------------------------------
bug('C06-allow-prefix', [(BE, "                    if cred.id == credential.raw_id:\n", "                    if cred.id[:64] == credential.raw_id[:64]:\n")],
    'credential IDs longer than 64 bytes that share their first 64', 'only the first 64 bytes of allowed credential IDs are compared', r"""
cid = bytes(range(80))
w = World(cid=cid)
D = lambda i: types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=i)
ok(w.assertion(allow_credentials=[D(cid)]))
fails(w.assertion(allow_credentials=[D(cid[:79] + b'x')]), 'a credential that is not allowed', CredentialNotAllowedError)
""")
bug('C06-allow-many', [(BE, "                for cred in allow_credentials:\n", "                for cred in allow_credentials[:20]:\n")],
    'an allow list of more than twenty entries', 'only the first twenty allowed credentials are considered', r"""
w = World()
D = lambda i: types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=i)
ok(w.assertion(allow_credentials=[D(b'x%d' % i) for i in range(30)] + [D(w.cid)]), 'the last credential of a long allow list')
""")
bug('C06-handle-zero', [(BE, "                if response.user_handle != user.id:\n", "                if response.user_handle.rstrip(b'\\0') != user.id.rstrip(b'\\0'):\n")],
    'a user handle that differs from the user ID in trailing zero bytes', 'trailing zero bytes of user handles are ignored', r"""
w = World()
ok(w.assertion())
fails(w.assertion(handle=USER.id + b'\0'), 'another user handle', UserHandleError)
""")
# --- C07 -----------------------------------------------------------------------------------------------------------
bug('C07-padding', [(BE, """                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""", """                if (token_binding.id or '').rstrip('=') != (
                        collected_client_data.token_binding.id
                        or '').rstrip('='):
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""")],
    'an empty token binding ID against an absent one', 'an empty token binding ID matches an absent one', r"""
w = World()
S = types.TokenBindingStatus
cd = lambda **tb: client_data('webauthn.get', tokenBinding=tb)
ok(w.assertion(cd=cd(status='supported'), token_binding=types.TokenBinding(status=S.SUPPORTED)))
fails(w.assertion(cd=cd(status='supported', id=''), token_binding=types.TokenBinding(status=S.SUPPORTED)), 'an empty ID for an absent one', TokenBindingError)
""")
bug('C07-ignored-supported', [(BE, """            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation,""", """            elif (collected_client_data.token_binding is not None
                  and collected_client_data.token_binding.id is not None):
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation,""")],
    'an unexpected token binding without ID at a registration', 'an unexpected token binding of status supported is ignored at registrations', r"""
w = World()
ok(w.registration())
fails(w.registration(cd=client_data('webauthn.create', tokenBinding={'status': 'supported'})), 'an unexpected token binding', TokenBindingError)
""")
# --- C08 -----------------------------------------------------------------------------------------------------------
bug('C08-empty-loc', [(PA, "    if loc is not None:\n", "    if loc == {}:\n        loc = None\n\n    if loc is not None:\n")],
    'a location output without coordinates', 'an empty location output counts as absent', r"""
w = World()
ok(w.assertion(auth_data(ext={'loc': {}}), expected_extensions={types.ExtensionIdentifier.LOC}), 'an empty location output')
""")
bug('C08-last-skipped', [(BE, """            if expected_extensions is not None:
                for ee in expected_extensions:
""", """            if expected_extensions is not None:
                for ee in list(expected_extensions)[:8]:
""")],
    'all nine extensions required', 'only eight of the required extensions are looked for', r"""
w = World()
every = {'appid': True, 'txAuthSimple': 'x', 'txAuthGeneric': b'x', 'authnSel': True, 'exts': ['x'], 'uvi': b'x', 'loc': {'latitude': 1.0}, 'uvm': [[1, 2, 3]], 'biometricPerfBounds': True}
ok(w.assertion(auth_data(ext=every), expected_extensions=set(types.ExtensionIdentifier)))
for k in every:
    fails(w.assertion(auth_data(ext={a: b for a, b in every.items() if a != k}), expected_extensions=set(types.ExtensionIdentifier)), 'no %s output' % k, ExtensionError)
""")
bug('C08-no-extensions', [(BE, """            if expected_extensions is not None:
                for e in expected_extensions:
""", """            if expected_extensions is not None and (
                    attestation.auth_data.extensions is not None
                    or len(expected_extensions) > 1):
                for e in expected_extensions:
""")],
    'exactly one required extension and no extension data at a registration', 'a single required extension is not enforced when the authenticator data has no extensions at all', r"""
w = World()
e = {types.ExtensionIdentifier.APPID}
ok(w.registration(auth_data(att=(w.cid, w.key.cose()), ext={'appid': True}), expected_extensions=e))
fails(w.registration(expected_extensions=e), 'no extension output', ExtensionError)
""")
# --- C09 -----------------------------------------------------------------------------------------------------------
bug('C09-equal-high', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                if auth_data.sign_count + (registered_sign_count >> 31) <= registered_sign_count:\n")],
    'an unchanged count of 2**31 or more', 'counts of 2**31 and more may repeat', r"""
w = World(count=2 ** 31)
ok(w.assertion(auth_data(count=2 ** 31 + 1)))
fails(w.assertion(auth_data(count=2 ** 31)), 'a repeated count', SignatureCountError)
""")
bug('C09-sticky-ignore', [(BE, "                    if not ignore_clone_error:\n", "                    self._ignore = getattr(self, '_ignore', False) or ignore_clone_error\n                    if not self._ignore:\n")],
    'an authentication that ignores a clone error, then one that does not', 'the ignore option stays in force for later authentications', r"""
w = World(count=5)
fails(w.assertion(auth_data(count=4)), 'a smaller count', SignatureCountError)
ok(w.assertion(auth_data(count=4), ignore_clone_error=True))
fails(w.assertion(auth_data(count=4)), 'a smaller count', SignatureCountError)
""")
# --- C10 -----------------------------------------------------------------------------------------------------------
bug('C10-retry', [(BE, """            try:
                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
            except Exception as e:""", """            try:
                try:
                    response = self.registrar.register_credential_assertion(
                        credential=credential,
                        authenticator_data=auth_data,
                        user=user,
                        rp=rp,
                    )
                except OSError:
                    response = self.registrar.register_credential_assertion(
                        credential=credential,
                        authenticator_data=auth_data,
                        user=user,
                        rp=rp,
                    )
            except Exception as e:""")],
    'a registrar that raises an operating system error once', 'the registration of an assertion is retried after an OSError', r"""
w = World()
ok(w.assertion())
n = []
def flaky(**kw):
    n.append(1)
    if len(n) == 1:
        raise ConnectionResetError('store')
w.registrar.register_credential_assertion = flaky
fails(w.assertion(), 'a ceremony whose registrar failed', RegistrationError)
expect(len(n) == 1, 'the registrar was called %d times' % len(n))
""")
bug('C10-library-error', [(BE, """            except Exception as e:
                raise RegistrationError(
                    _message('Failed to register credential attestation ({!r})',
                             e))
""", """            except WebAuthnRPError:
                raise
            except Exception as e:
                raise RegistrationError(
                    _message('Failed to register credential attestation ({!r})',
                             e))
""")],
    'a registrar that raises another library error', 'library errors raised by the registrar are passed on as they are', r"""
w = World()
def broken(**kw):
    raise errors.ChallengeError('from the store')
w.registrar.register_credential_attestation = broken
fails(w.registration(), 'a registrar error', RegistrationError)
""")
bug('C10-true-result', [(BE, """            if response is not None:
                raise RegistrationError(
                    _message('Failed to register credential attestation ({})',""", """            if response is not None and response is not True:
                raise RegistrationError(
                    _message('Failed to register credential attestation ({})',""")],
    'a registrar that returns True', 'True is taken for success at registrations', r"""
w = World()
ok(w.registration())
w.registrar.result = True
fails(w.registration(), 'a registrar answer of True', RegistrationError)
""")
bug('C10-lookup-by-id', [(BE, "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)",
     "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id) or self.registrar.get_credential_data(\n                        url_base64_decode(credential.id))")],
    'an unknown raw ID next to an id member that names a registered credential', 'credential data is also looked up by the id member', r"""
w = World()
ok(w.assertion())
asked = []
real = w.registrar.get_credential_data
w.registrar.get_credential_data = lambda c: asked.append(c) or real(c)
cd, ad = client_data('webauthn.get'), auth_data()
cred = types.PublicKeyCredential(id=b64u(w.cid), type='public-key', raw_id=b'unknown', response=types.AuthenticatorAssertionResponse(
    client_data_JSON=cd, authenticator_data=ad, signature=w.key.sign(ad + sha256(cd)), user_handle=USER.id))
fails(run(w.backend.handle_credential_assertion, credential=cred, expected_challenge=CHALLENGE, expected_origin=ORIGIN), 'an unknown credential', CredentialDataError)
expect(asked == [b'unknown'], 'asked for %r' % asked)
""")
# --- C11 -----------------------------------------------------------------------------------------------------------
bug('C11-result-format', [(BE, """            if response is not None:
                raise RegistrationError(
                    _message('Failed to register credential assertion ({})',
                             response))
        except WebAuthnRPError:""", """            if response is not None:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(
                        response.reason))
        except WebAuthnRPError:""")],
    'a registrar answer without reason attribute', 'a registrar answer without a reason attribute ends in an InternalError', r"""
w = World()
for r in (False, 0, 'no', object()):
    w.registrar.result = r
    fails(w.assertion(), 'a registrar answer of %r' % r, RegistrationError)
""") if False else None
bug('C11-origin-class', [(PA, "        raise OriginError('Invalid origin, unsupported scheme {}'.format(\n            url.scheme))", "        raise ParserError('Invalid origin, unsupported scheme {}'.format(\n            url.scheme))")],
    'a client origin with an unsupported scheme', 'an unsupported scheme is reported as a ParserError', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='ftp://example.com')), 'an ftp origin', OriginError)
""")
# --- C12 -----------------------------------------------------------------------------------------------------------
bug('C12-same-twice', [(AT, "    if len(att_stmt.x5c) != 1:\n", "    if len(set(att_stmt.x5c)) != 1:\n")],
    'the same certificate given twice', 'a statement with the same certificate several times is accepted', r"""
w = World()
c = certificate(Key(secret=4242).pub)
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, cert=[c])))
fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key, cert=[c, c])), 'two certificates', AttestationError)
""")
bug('C12-long-id', [(AT, "                         (client_data_hash + credential_id + public_key_u2f))", "                         (client_data_hash + credential_id[:255] + public_key_u2f))")],
    'a credential ID longer than 255 bytes', 'only the first 255 bytes of the credential ID are signed', r"""
w = World(cid=bytes(300))
ok(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid, w.key)), 'a registration with a long credential ID')
fails(w.registration(fmt='fido-u2f', stmt=u2f_stmt(w.cid[:255], w.key)), 'a signature over part of the credential ID', AttestationError)
""")
# --- C13 -----------------------------------------------------------------------------------------------------------
bug('C13-purpose-order', [(AT, "    if not tee_purpose.hasValue() or tee_purpose.count(KM_PURPOSE_SIGN) == 0:\n", "    if not tee_purpose.hasValue() or max(map(int, tee_purpose)) < KM_PURPOSE_SIGN:\n")],
    'a purpose set with purposes above SIGN but not SIGN', 'any purpose numbered SIGN or higher is accepted', r"""
k = Key()
w = World(k)
purposes = lambda *p: ctx(1, tlv(0x31, b''.join(der_int(x) for x in p))) + ctx(702, der_int(0))
ok(w.registration(fmt='android-key', stmt=android_stmt(k, tee=purposes(2, 3))))
fails(w.registration(fmt='android-key', stmt=android_stmt(k, tee=purposes(0, 3))), 'a purpose set without SIGN', AttestationError)
""")
bug('C13-origin-byte', [(AT, "    if not tee_origin.hasValue() or int(tee_origin) != KM_ORIGIN_GENERATED:\n", "    if not tee_origin.hasValue() or int(tee_origin) & 0xff != KM_ORIGIN_GENERATED:\n")],
    'an origin that is a multiple of 256', 'only the low byte of the origin is compared', r"""
k = Key()
w = World(k)
tee = lambda o: ctx(1, tlv(0x31, der_int(2))) + ctx(702, der_int(o))
ok(w.registration(fmt='android-key', stmt=android_stmt(k, tee=tee(0))))
fails(w.registration(fmt='android-key', stmt=android_stmt(k, tee=tee(256))), 'another origin', AttestationError)
""")
bug('C13-x-only', [(AT, """    cpk_public_bytes = cpk.public_bytes(Encoding.DER,
                                        PublicFormat.SubjectPublicKeyInfo)
    cred_cert_public_bytes = cred_cert_pk.public_bytes(
        Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
""", """    cpk_public_bytes = cpk.public_bytes(
        Encoding.DER, PublicFormat.SubjectPublicKeyInfo)[:59]
    cred_cert_public_bytes = cred_cert_pk.public_bytes(
        Encoding.DER, PublicFormat.SubjectPublicKeyInfo)[:59]
""")],
    'a credential key with the x coordinate of the certificate key and the other y', 'only the x coordinate of the keys is compared', r"""
n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
k, neg = Key(secret=1234), Key(secret=n - 1234)
w = World(k)
ok(w.registration(fmt='android-key', stmt=android_stmt(k)))
fails(w.registration(auth_data(att=(w.cid, neg.cose())), fmt='android-key', stmt=android_stmt(k)), 'another credential key', AttestationError)
""")
# --- C14 -----------------------------------------------------------------------------------------------------------
bug('C14-zero-aaguid', [(PA, "    return AttestationObject(\n        auth_data=authenticator_data,\n        fmt=asfi,", "    if (asfi.name == 'NONE'\n            and authenticator_data.attested_credential_data is not None):\n        authenticator_data.attested_credential_data.aaguid = bytes(16)\n\n    return AttestationObject(\n        auth_data=authenticator_data,\n        fmt=asfi,")],
    'a none registration with a nonzero AAGUID', 'the AAGUID of none registrations is replaced by zeros', r"""
w = World()
ad = bytearray(auth_data(att=(w.cid, w.key.cose())))
ad[37:53] = bytes(range(16))
ok(w.registration(bytes(ad)))
expect(w.registrar.calls[-1][2].auth_data.attested_credential_data.aaguid == bytes(range(16)), 'the AAGUID is not the attested one')
""")
bug('C14-safetynet', [(AT, "@attest.register(NoneAttestationStatement)\n", "@attest.register(NoneAttestationStatement)\n@attest.register(AttestationStatement)\n")],
    'a registration in a format without verification', 'formats without verification are registered as None attestation', r"""
w = World()
ok(w.registration())
fails(w.registration(fmt='android-safetynet', stmt={'ver': '1', 'response': b'x'}), 'an unverified safetynet statement', UnimplementedError)
fails(w.registration(fmt='tpm', stmt={'ver': '2.0', 'alg': -7, 'sig': b's', 'certInfo': b'c', 'pubArea': b'p'}), 'an unverified tpm statement', UnimplementedError)
""")
bug('C14-none-members', [(PA, "    _check_unsupported_keys(set(), att_stmt)\n", "    _check_unsupported_keys({'response', 'ver'}, att_stmt)\n")],
    'a none statement with the members of a safetynet statement', 'a none statement may carry some extra members', r"""
w = World()
ok(w.registration())
fails(w.registration(stmt={'ver': '1', 'response': b'x'}), 'a none statement with members')
""")
bug('C14-self-path', [(AT, "    return AttestationType.BASIC, [cert_x509]" if False else "    return AttestationType.BASIC, [credential_certificate]\n", "    return AttestationType.BASIC, [\n        cryptography.x509.load_der_x509_certificate(c, default_backend())\n        for c in att_stmt.x5c\n    ]\n")],
    'an android-key statement with several certificates', 'unverified certificates after the first are reported as trusted path', r"""
k = Key()
w = World(k)
extra = certificate(Key(secret=5).pub)
def stmt(ad, cd):
    s = android_stmt(k)(ad, cd)
    s['x5c'].append(extra)
    return s
ok(w.registration(fmt='android-key', stmt=stmt))
expect(len(w.registrar.calls[-1][6]) == 1, 'the trusted path has %d certificates' % len(w.registrar.calls[-1][6]))
""")
# --- C15 -----------------------------------------------------------------------------------------------------------
bug('C15-zero-leftover', [(PA, "    if remaining_bytes_io.read1(1) != b'':\n", "    if remaining_bytes_io.read().strip(b'\\0') != b'':\n")],
    'zero bytes after the announced data', 'zero bytes after the announced data are ignored', r"""
from webauthn_rp.parsers import parse_authenticator_data as p
p(auth_data())
for n in (1, 5):
    r = run(p, auth_data() + bytes(n))
    expect(isinstance(r, errors.WebAuthnRPError), '%d zero bytes beyond the data are accepted' % n)
""")
bug('C15-id-1023', [(PA, "            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n", "            if credential_id_length_uint16 > 1023:\n                raise ParserError('The credential ID is too long')\n\n            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n")],
    'a credential ID longer than 1023 bytes', 'credential IDs longer than 1023 bytes are rejected', r"""
from webauthn_rp.parsers import parse_authenticator_data as p
for n in (0, 1023, 1024, 5000, 65535):
    r = run(p, auth_data(att=(bytes(n), Key().cose())))
    expect(not isinstance(r, Exception) and r.attested_credential_data.credential_id == bytes(n), 'a %d byte credential ID: %r' % (n, r))
""")
bug('C15-flags-masked', [(PA, "    flags = auth_data[32]\n", "    flags = auth_data[32] & 0xdf\n")],
    'reserved flag bit 5', 'a reserved flag bit is dropped', r"""
from webauthn_rp.parsers import parse_authenticator_data as p
for f in range(64):
    expect(p(auth_data(f)).flags == f, 'flags %#x decode as %#x' % (f, p(auth_data(f)).flags))
""")
# --- C16 -----------------------------------------------------------------------------------------------------------
bug('C16-coordinate-sum', [(PA, "    if len(x) != crv_len or len(y) != crv_len:\n", "    if len(x) + len(y) != 2 * crv_len:\n")],
    'coordinates of wrong lengths that add up', 'only the total length of the coordinates is checked', r"""
k = Key()
m = k.cose_map()
parse_cose_key(cbor2.dumps(m))
m[-2], m[-3] = m[-2] + b'\0', m[-3][:-1]
r = run(parse_cose_key, cbor2.dumps(m))
expect(isinstance(r, errors.WebAuthnRPError), 'coordinates of 33 and 31 bytes are accepted')
""")
bug('C16-key-op-dedup', [(CO, "        d[4] = [x.value for x in credential_public_key.key_ops]\n", "        d[4] = sorted({x.value for x in credential_public_key.key_ops}, key=str)\n")],
    'key operations in another order than sorted, or repeated', 'key operations are sorted and deduplicated when encoded', r"""
from webauthn_rp.converters import cose_key
m = Key().cose_map()
for ops in ([2, 1], [1, 2], [1, 1], [10, 2]):
    m[4] = ops
    k = parse_cose_key(cbor2.dumps(m))
    back = parse_cose_key(cose_key(k))
    expect([o.value for o in back.key_ops] == ops, 'key operations %s come back as %s' % (ops, [o.value for o in back.key_ops]))
""")
bug('C16-okp-short', [(PA, "    if len(x) != crv_len:\n", "    if len(x) not in (crv_len, 57):\n")],
    'an Ed25519 key with a coordinate of 57 bytes', 'an Ed25519 key may have the length of an Ed448 key', r"""
r = run(parse_cose_key, cbor2.dumps({1: 1, 3: -8, -1: 6, -2: bytes(57)}))
expect(isinstance(r, errors.WebAuthnRPError), 'a 57 byte Ed25519 key is accepted')
""")
# --- C17 -----------------------------------------------------------------------------------------------------------
bug('C17-raw-id-from-id', [(PA, "    raw_id = _bytes_from_base64(_parse_dictionary_field('rawId', str, data))\n", "    raw_id = _bytes_from_base64(\n        _parse_dictionary_field('rawId', str, data) or id_)\n")],
    'an empty raw ID', 'an empty raw ID is replaced by the id member', r"""
from webauthn_rp.parsers import parse_public_key_credential as p
c = p({'id': 'eHh4', 'rawId': '', 'type': 'public-key', 'response': {'clientDataJSON': 'e30=', 'authenticatorData': 'eA==', 'signature': 'eA=='}})
expect(c.raw_id == b'' and c.id == 'eHh4', 'raw ID %r' % c.raw_id)
""")
# --- C18 -----------------------------------------------------------------------------------------------------------
bug('C18-loc-keys', [(PA, "        if any(type(x) not in (int, float) for x in loc.values()):\n", "        if any(x != x or type(x) not in (int, float)\n               or abs(float(x)) > 1e12 for x in loc.values()):\n")],
    'a location coordinate that is a very large integer', 'a very large integer coordinate raises an OverflowError', r"""
from webauthn_rp.parsers import parse_authenticator_data as p
for v in (1, 10 ** 400, -10 ** 400):
    r = run(p, auth_data(ext={'loc': {'latitude': v}}))
    expect(not isinstance(r, Exception) or isinstance(r, errors.WebAuthnRPError), 'ends with %r' % r)
""")
