from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

bug('C32-key-memo-on-object', [(CO, "    try:\n        return ecpn.public_key(default_backend())\n    except ValueError:\n", "    try:\n        if not hasattr(credential_public_key, '_converted'):\n            setattr(credential_public_key, '_converted',\n                    ecpn.public_key(default_backend()))\n        return getattr(credential_public_key, '_converted')\n    except ValueError:\n")],
    'a key object that is stored, or changed, after it was used once', 'the converted key is kept on the object: it can no longer be pickled and a changed object verifies with its former key', r"""
import pickle
k, other = Key(), Key(secret=777)
x = parse_cose_key(k.cose())
from webauthn_rp.verifiers import verify
verify(x, k.sign(b'd'), b'd')
x.x, x.y = other.x, other.y
verify(x, other.sign(b'd'), b'd')
verify(pickle.loads(pickle.dumps(x)), other.sign(b'd'), b'd')
""")
bug('C32-client-data-memo', [(BE, "            collected_client_data = parse_client_data(\n                response.client_data_JSON)\n            if collected_client_data.type != 'webauthn.get':", "            collected_client_data = vars(credential).get('_client_data')\n            if collected_client_data is None:\n                collected_client_data = parse_client_data(\n                    response.client_data_JSON)\n                setattr(credential, '_client_data', collected_client_data)\n            if collected_client_data.type != 'webauthn.get':")],
    'a credential object that is used for a second response', 'the client data checked are those of the first response', r"""
w = World()
cd1, cd2 = client_data('webauthn.get'), client_data('webauthn.get', challenge=b'another')
ad = auth_data()
cred = types.PublicKeyCredential(id='x', type='public-key', raw_id=w.cid, response=types.AuthenticatorAssertionResponse(client_data_JSON=cd1, authenticator_data=ad, signature=w.key.sign(ad + sha256(cd1)), user_handle=USER.id))
args = dict(credential=cred, expected_challenge=CHALLENGE, expected_origin=ORIGIN)
ok(run(w.backend.handle_credential_assertion, **args))
cred.response = types.AuthenticatorAssertionResponse(client_data_JSON=cd2, authenticator_data=ad, signature=w.key.sign(ad + sha256(cd2)), user_handle=USER.id)
fails(run(w.backend.handle_credential_assertion, **args), 'another challenge')
""")
bug('C32-exact-class', [(VE, "    public_key = cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))\n", "    public_key = cast(OKPPublicKey,\n                      cryptography_public_key.dispatch(\n                          type(credential_public_key))(credential_public_key))\n    if type(credential_public_key) is not OKPCredentialPublicKey:\n        raise UnimplementedError('Must implement verification for {}'.format(\n            str(type(credential_public_key))))\n")],
    'an Edwards key of an application class', 'keys of subclasses are not verified', r"""
class Ours(types.OKPCredentialPublicKey):
    pass
k = EdKey()
x = Ours(kty=types.COSEKeyType.Value.OKP, alg=types.COSEAlgorithmIdentifier.Value.EDDSA, crv=types.OKPCurve.Value.ED25519, x=k.x)
from webauthn_rp.verifiers import verify
verify(x, k.sign(b'd'), b'd')
""")
bug('C32-state-without-algorithm', [(TY, "        self.kty = kty\n        self.kid = kid\n        self.alg = alg\n", "        self.kty = kty\n        self.kid = kid\n        self.alg = alg\n        self.__dict__.update(kid=kid)\n"), (TY, "                 key_ops: Optional[Sequence[Union[COSEKeyOperation.Name,\n                                                  COSEKeyOperation.Value]]] = None,\n                 base_IV: Optional[bytes] = None) -> None:\n        self.kty = kty\n", "") ] if False else
    [(TY, "class EC2CredentialPublicKey(CredentialPublicKey):\n", "class EC2CredentialPublicKey(CredentialPublicKey):\n    def __getstate__(self):\n        # Only what identifies the key.\n        return {\n            k: v\n            for k, v in self.__dict__.items() if k not in ('kid', 'key_ops')\n        }\n\n")],
    'an elliptic key that is pickled or deep-copied', 'the copy has no key ID and no operations, not even empty ones', r"""
import copy, pickle
from webauthn_rp.converters import cose_key
k = Key()
x = parse_cose_key(cbor2.dumps(dict(k.cose_map(), **{}) | {2: b'kid'}))
for y in (copy.deepcopy(x), pickle.loads(pickle.dumps(x))):
    assert getattr(y, 'kid', None) == b'kid', 'the key ID is lost'
    assert cose_key(y) == cose_key(x)
""")
bug('C32-empty-list', [(TY, "        self.allow_credentials = allow_credentials\n", "        self.allow_credentials = allow_credentials or None\n")],
    'request options with an empty list of allowed credentials', 'an empty list becomes no list', r"""
x = types.PublicKeyCredentialRequestOptions(challenge=b'c', allow_credentials=[])
assert x.allow_credentials == [], x.allow_credentials
""")
bug('C32-shared-criteria', [(TY, "        self.authenticator_selection = authenticator_selection\n", "        self.authenticator_selection = _INTERNED.setdefault(\n            repr(sorted(map(str, vars(authenticator_selection).values()))),\n            authenticator_selection\n        ) if authenticator_selection else authenticator_selection\n"), (TY, "class PublicKeyCredentialCreationOptions:\n", "_INTERNED: dict = {}\n\n\nclass PublicKeyCredentialCreationOptions:\n")],
    'two options with criteria of equal content, one of which is changed later', 'the criteria of one object are used by others', r"""
def make():
    return types.PublicKeyCredentialCreationOptions(rp=RP, user=USER, challenge=b'c', pub_key_cred_params=[], authenticator_selection=types.AuthenticatorSelectionCriteria(require_resident_key=True))
a, b = make(), make()
a.authenticator_selection.require_resident_key = False
assert b.authenticator_selection.require_resident_key is True, 'another object changed'
assert make().authenticator_selection.require_resident_key is True, 'what is made later changed'
""")
bug('C32-exact-credential-data', [(BE, "            if credential_data is None:\n", "            if credential_data is None or type(credential_data).__name__ != 'CredentialData':\n")],
    'a registrar that answers with its own kind of CredentialData', 'a subclass of CredentialData counts as no data', r"""
class Stored(CredentialData):
    pass
w = World()
w.registrar.store[w.cid] = Stored(*w.registrar.store[w.cid])
ok(w.assertion())
""")
bug('C32-jsonify-memo', [(CO, "    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n        data = data.__dict__\n", "    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n        if hasattr(data, 'pub_key_cred_params'):\n            memo = _CONVERTED.setdefault(data, {})\n            if convert_case not in memo:\n                memo[convert_case] = jsonify(dict(data.__dict__), convert_case)\n            return dict(memo[convert_case])\n        data = data.__dict__\n"), (CO, "@singledispatch\ndef jsonify(", "_CONVERTED: Any = weakref.WeakKeyDictionary()\n\n\n@singledispatch\ndef jsonify("), (CO, "import base64\n", "import base64\nimport weakref\n")],
    'creation options that are changed after they were converted', 'the former content is sent', r"""
from webauthn_rp.converters import jsonify
x = types.PublicKeyCredentialCreationOptions(rp=RP, user=USER, challenge=b'c', pub_key_cred_params=[], timeout=5)
assert jsonify(x)['timeout'] == 5
x.timeout = 9
assert jsonify(x)['timeout'] == 9, 'the former time limit'
""")
bug('C32-nested-enum-state', [(TY, "class AttestedCredentialData:\n", "class AttestedCredentialData:\n    def __deepcopy__(self, memo):\n        return AttestedCredentialData(self.aaguid, len(self.credential_id),\n                                      self.credential_id,\n                                      self.credential_public_key)\n\n")],
    'authenticator data that are deep-copied, the copy changed', 'the copy shares its key with the original', r"""
import copy
from webauthn_rp.parsers import parse_authenticator_data
k = Key()
x = parse_authenticator_data(auth_data(att=(b'id', k.cose())))
x = x[0] if isinstance(x, tuple) else x
y = copy.deepcopy(x)
y.attested_credential_data.credential_public_key.x = b'changed'
assert x.attested_credential_data.credential_public_key.x == k.x
""")
bug('C32-copied-descriptor', [(TY, "class PublicKeyCredentialDescriptor:\n", "class PublicKeyCredentialDescriptor:\n    def __copy__(self):\n        return PublicKeyCredentialDescriptor(type=self.type, id=self.id)\n\n")],
    'a descriptor that is copied', 'the copy has no transports', r"""
import copy
x = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'i', transports=[types.AuthenticatorTransport.USB])
assert copy.copy(x).transports == [types.AuthenticatorTransport.USB]
""")
bug('C11-decoding-family', [("webauthn_rp/errors.py", "class UserHandleError(BackendError):\n", "class UserHandleError(WebAuthnRPError):\n")],
    'an application that catches BackendError', 'a user handle mismatch is no longer a backend error', r"""
w = World()
r = w.assertion(handle=b'someone else')
fails(r, 'another user handle', errors.BackendError)
""")
