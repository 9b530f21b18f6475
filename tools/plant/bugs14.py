from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

EXT = "            if expected_extensions is not None:\n                for e in expected_extensions:\n"
EXTA = "            if expected_extensions is not None:\n                for ee in expected_extensions:\n"

bug('C03-str-subclass', [(BE, "        if isinstance(expected_origin, str):\n", "        if type(expected_origin) is str:\n")],
    'an expected origin of a subclass of str', 'its characters are taken as origins and honest ceremonies fail', r"""
class Text(str):
    pass
w = World()
ok(w.assertion(expected_origin=Text(ORIGIN)))
""")
bug('C08-frozenset', [(BE, EXT, "            if isinstance(expected_extensions, set):\n                for e in expected_extensions:\n")],
    'required extensions given as a frozenset', 'nothing is required', r"""
w = World()
fails(w.registration(expected_extensions=frozenset([types.ExtensionIdentifier.APPID])), 'a registration without the extension')
fails(w.registration(expected_extensions={types.ExtensionIdentifier.APPID}), 'a registration without the extension')
""")
bug('C15-canonical-offset', [(PA, "                credential_public_key = cbor2.load(remaining_bytes_io)\n", "                key_start = remaining_bytes_io.tell()\n                credential_public_key = cbor2.load(remaining_bytes_io)\n                remaining_bytes_io.seek(\n                    key_start + len(cbor2.dumps(credential_public_key)))\n")],
    'an attested key whose CBOR is not in the shortest form', 'the position after it is computed wrong', r"""
w = World()
m = w.key.cose_map()
ok(w.registration())
long = bytes([0xb8, len(m)]) + b''.join(cbor2.dumps(k) + cbor2.dumps(v) for k, v in m.items())
ok(w.registration(ad=auth_data(att=(b'cred-1', long))), 'a key map with a longer head')
""")
bug('C28-nested', [(PA, "    type_ = client_data.get('type')\n    challenge = client_data.get('challenge')\n", "    type_ = client_data.get('type')\n    challenge = client_data.get('challenge')\n    for member in client_data.values():\n        if type(member) is dict and type(member.get('challenge')) is str:\n            challenge = member['challenge']\n")],
    'client data with another member that is an object with a challenge', 'that challenge is taken', r"""
from webauthn_rp.parsers import parse_client_data
ccd = parse_client_data(client_data('webauthn.get', payment={'challenge': 'AAAA', 'total': 1}))
if ccd.challenge != b64u(CHALLENGE):
    sys.exit('FAIL: %r' % ccd)
""")
bug('C23-trim', [(VE, "        public_key.verify(signature, data, signature_algorithm)\n", "        public_key.verify(signature.rstrip(b'\\x00'), data,\n                          signature_algorithm)\n")],
    'an ECDSA signature that ends in a zero byte', 'it is rejected, and one with zero bytes behind it accepted', r"""
from webauthn_rp.verifiers import verify
k = Key()
key = parse_cose_key(k.cose())
sig = k.sign(b'data')
while sig[-1:] == b'\0':
    sig = k.sign(b'data')
ok(run(verify, key, sig, b'data'))
fails(run(verify, key, sig + b'\0', b'data'), 'a signature followed by a zero byte')
""")
bug('C12-coordinates-as-numbers', [(AT, "    public_key_u2f = b'\\x04' + (credential_public_key.x +\n                                credential_public_key.y)\n", "    point = int.from_bytes(\n        credential_public_key.x + credential_public_key.y, 'big')\n    public_key_u2f = b'\\x04' + point.to_bytes(\n        (point.bit_length() + 7) // 8, 'big')\n")],
    'a credential key whose x coordinate starts with a zero byte', 'honest statements fail', r"""
w = World()
s = 1
while Key(secret=s).x[0]:
    s += 1
k = Key(secret=s)
w.key = k
ok(w.registration(ad=auth_data(att=(b'cred-1', k.cose())), fmt='fido-u2f', stmt=u2f_stmt(b'cred-1', k)), 'a U2F registration')
""")
bug('C25-second-user', [(BE, "            registered_user = credential_data.user_entity\n", "            registered_user = credential_data.user_entity\n            owners = self.__dict__.setdefault('_owners', {})\n            registered_user = owners.setdefault(\n                credential_data.credential_public_key.kid\n                or credential.raw_id, registered_user)\n")],
    'a credential ID that is registered anew for another user', 'the first user stays its owner for the backend', r"""
w = World()
ok(w.assertion())
other = types.PublicKeyCredentialUserEntity(name='v', id=b'user-2', display_name='V')
k2 = Key(secret=77)
w.registrar.store[b'cred-1'] = CredentialData(parse_cose_key(k2.cose()), None, other, RP)
w.key = k2
ok(w.assertion(handle=b'user-2'), 'the new owner')
""")
bug('C09-max', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n                    if not ignore_clone_error:\n", "                if auth_data.sign_count <= registered_sign_count:\n                    if not ignore_clone_error and (\n                            auth_data.sign_count != 0\n                            or allow_credentials is None):\n")],
    'a counter that falls back to zero in an authentication with an allow list', 'it is accepted', r"""
w = World(count=5)
fails(w.assertion(ad=auth_data(count=0)), 'a counter of zero')
fails(w.assertion(ad=auth_data(count=0), allow_credentials=[types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'cred-1')]), 'a counter of zero')
""")
bug('C04-per-hash', [(BE, "            auth_data = parse_authenticator_data(response.authenticator_data)\n            if auth_data.rp_id_hash != rp_id_hash:\n", "            auth_data = parse_authenticator_data(response.authenticator_data)\n            if auth_data.rp_id_hash != rp_id_hash and not (\n                    collected_client_data.origin.startswith(rp.id)\n                    or (token_binding is not None and auth_data.extensions)):\n")],
    'an authentication with a token binding and extension outputs', 'the RP ID hash is not compared', r"""
w = World()
tb = types.TokenBinding(status=types.TokenBindingStatus.PRESENT, id='AAAA')
cd = client_data('webauthn.get', tokenBinding={'status': 'present', 'id': 'AAAA'})
ok(w.assertion(cd=cd, token_binding=tb, ad=auth_data(ext={'appid': True})))
fails(w.assertion(cd=cd, token_binding=tb, ad=auth_data(rp_id='example.org', ext={'appid': True})), 'another RP ID')
""")
bug('C05-presence-or-extension', [(BE, "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n", "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags\n                    or (auth_data.attested_credential_data is not None\n                        and allow_credentials is not None)):\n")],
    'an authentication whose authenticator data attests a credential with an allow list, without user presence', 'it is accepted', r"""
w = World()
fails(w.assertion(ad=auth_data(flags=0)), 'no presence')
fails(w.assertion(ad=auth_data(flags=0, att=(b'cred-1', w.key.cose())), allow_credentials=[types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'cred-1')]), 'no presence')
""")
