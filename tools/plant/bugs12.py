from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

RG = 'webauthn_rp/registrars.py'
ATTEST = "            att_type, trusted_path = attest(attestation.att_stmt, attestation,\n                                            raw_att_obj['authData'],\n                                            client_data_JSON_hash)\n"
PACKED = r"""
from webauthn_rp.attesters import attest
import webauthn_rp.attesters
STMT = {'alg': -7, 'sig': b'sig'}
w = World()
asked = []
def answer(v):
    def procedure(att_stmt, att_obj, auth_data, client_data_hash):
        asked.append((att_stmt, att_obj, auth_data, client_data_hash))
        if isinstance(v, Exception):
            raise v
        return v
    attest.register(types.PackedAttestationStatement, answer_of(procedure))
def answer_of(p):
    return p
"""
VERIFY = "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n"
MAC = r"""
import hmac
from webauthn_rp.verifiers import verify
class MacKey(types.CredentialPublicKey):
    def __init__(self, secret):
        self.secret = secret
def mac(key, signature, data):
    if not hmac.compare_digest(hmac.new(key.secret, data, 'sha256').digest(), signature):
        raise errors.VerificationError('mac')
verify.register(MacKey, mac)
w = World()
class Signer:
    def sign(self, data):
        return hmac.new(b'secret', data, 'sha256').digest()
w.key = Signer()
w.registrar.store[b'cred-1'] = w.registrar.store[b'cred-1']._replace(credential_public_key=MacKey(b'secret'))
"""

bug('C33-cached-attester', [(BE, ATTEST, "            att_type, trusted_path = _attester(type(attestation.att_stmt))(\n                attestation.att_stmt, attestation, raw_att_obj['authData'],\n                client_data_JSON_hash)\n"),
    (BE, "class CredentialsBackend:\n", "@functools.lru_cache(maxsize=None)\ndef _attester(cls):\n    return attest.dispatch(cls)\n\n\nclass CredentialsBackend:\n"), (BE, "import hashlib\n", "import functools\nimport hashlib\n")],
    'a procedure registered after a statement of that class was seen', 'the procedure of the application is not used', PACKED + r"""
fails(w.registration(fmt='packed', stmt=STMT), 'a packed attestation', errors.UnimplementedError)
answer((types.AttestationType.SELF, None))
ok(w.registration(fmt='packed', stmt=STMT), 'an attestation that the application verified')
""")
bug('C33-basic-with-path', [(BE, "                    att_type=att_type,\n", "                    att_type=AttestationType.BASIC\n                    if trusted_path else att_type,\n"), (BE, "from webauthn_rp.types import (", "from webauthn_rp.types import (AttestationType,")],
    'a procedure of the application that answers Attestation CA with a path', 'it is reported as basic attestation', PACKED + r"""
answer((types.AttestationType.ATTCA, ['cert']))
ok(w.registration(fmt='packed', stmt=STMT))
expect(w.registrar.calls[-1][3] is types.AttestationType.ATTCA, 'reported as %r' % (w.registrar.calls[-1],))
""")
bug('C33-empty-path', [(BE, "                    trusted_path=trusted_path,\n", "                    trusted_path=trusted_path or None,\n")],
    'a procedure of the application that answers an empty path', 'no path is reported', PACKED + r"""
answer((types.AttestationType.ECDAA, []))
ok(w.registration(fmt='packed', stmt=STMT))
expect(w.registrar.calls[-1][6] == [], 'reported as %r' % (w.registrar.calls[-1],))
""")
bug('C33-error-wrapped', [(BE, ATTEST, "            try:\n                att_type, trusted_path = attest(attestation.att_stmt,\n                                                attestation,\n                                                raw_att_obj['authData'],\n                                                client_data_JSON_hash)\n            except VerificationError as e:\n                raise AttestationError(str(e))\n"), (BE, "from webauthn_rp.errors import (", "from webauthn_rp.errors import (VerificationError,")],
    'a procedure of the application that raises an error of its own below VerificationError', 'another error is raised', PACKED + r"""
class Own(errors.VerificationError):
    pass
answer(Own('x'))
fails(w.registration(fmt='packed', stmt=STMT), 'a failed attestation', Own)
""")
bug('C33-known-keys-only', [(BE, VERIFY, "            validate(credential_data.credential_public_key)\n" + VERIFY), (BE, "from webauthn_rp.verifiers import verify", "from webauthn_rp.validators import validate\nfrom webauthn_rp.verifiers import verify")],
    'a stored key of a class of the application', 'a valid signature is rejected', MAC + r"""
ok(w.assertion())
""")
bug('C33-registrar-checked', [(BE, "        self.registrar = registrar\n", "        for name in ('get_credential_data', 'register_credential_assertion',\n                     'register_credential_attestation'):\n            if getattr(type(registrar), name, None) is getattr(\n                    CredentialsRegistrar, name):\n                raise NotImplementedError(name)\n\n        self.registrar = registrar\n")],
    'a registrar that implements only what registrations need', 'no backend can be made with it', r"""
class Only(CredentialsRegistrar):
    def register_credential_attestation(self, **kw):
        return None
w = World()
w.backend = CredentialsBackend(Only())
ok(w.registration())
""")
bug('C33-two-attempts', [(BE, ATTEST, "            try:\n                att_type, trusted_path = attest(attestation.att_stmt,\n                                                attestation,\n                                                raw_att_obj['authData'],\n                                                client_data_JSON_hash)\n            except (OSError, MemoryError):\n                # For want of a certificate store or memory, once more.\n                att_type, trusted_path = attest(attestation.att_stmt,\n                                                attestation,\n                                                raw_att_obj['authData'],\n                                                client_data_JSON_hash)\n")],
    'a procedure of the application that fails with an operating system error', 'it is asked twice', PACKED + r"""
answer(OSError(2, 'x'))
fails(w.registration(fmt='packed', stmt=STMT), 'a failed attestation')
expect(len(asked) == 1, 'asked %d times' % len(asked))
""")
bug('C33-path-needs-list', [(BE, "                    trusted_path=trusted_path,\n", "                    trusted_path=list(trusted_path)\n                    if trusted_path is not None else None,\n")],
    'a procedure of the application that answers a tuple', 'another path is reported', PACKED + r"""
answer((types.AttestationType.BASIC, ('cert',)))
ok(w.registration(fmt='packed', stmt=STMT))
expect(w.registrar.calls[-1][6] == ('cert',), 'reported as %r' % (w.registrar.calls[-1],))
""")
bug('C33-key-bytes', [(BE, VERIFY, "            verify(parse_cose_key(cose_key(credential_data.credential_public_key)),\n                   response.signature, verification_data)\n"), (BE, "from webauthn_rp.parsers import (", "from webauthn_rp.converters import cose_key\nfrom webauthn_rp.parsers import (parse_cose_key,")],
    'a stored key of a class of the application', 'a valid signature is rejected', MAC + r"""
ok(w.assertion())
""")
LAX = "            if collected_client_data.type != 'webauthn.get':\n"
bug('C30-modules', [(BE, "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n", "            if not (AuthenticatorDataFlag.UP.value\n                    & auth_data.flags) and 'locust' not in sys.modules:\n"), (BE, "import hashlib\n", "import hashlib\nimport sys\n")],
    'a load testing module that has been imported', 'user presence is not enforced', r"""
import sys, types as t
w = World()
fails(w.assertion(ad=auth_data(flags=0)), 'an absent user')
sys.modules['locust'] = t.ModuleType('locust')
fails(w.assertion(ad=auth_data(flags=0)), 'an absent user')
""")
bug('C30-argv', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                if auth_data.sign_count <= registered_sign_count and not sys.argv[\n                        0].endswith('manage.py'):\n"), (BE, "import hashlib\n", "import hashlib\nimport sys\n")],
    'a program with a certain name', 'counter regressions are not detected', r"""
import sys
w = World(count=5)
fails(w.assertion(), 'a regression')
sys.argv = ['manage.py', 'runserver']
fails(w.assertion(), 'a regression')
""")
bug('C30-path', [(BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        if '' in sys.path:\n            sys.path.remove('')\n"), (BE, "import hashlib\n", "import hashlib\nimport sys\n")],
    'an interpreter that looks for modules in the working directory', 'the search path of the process is changed', r"""
import sys
sys.path.insert(0, '')
w = World()
ok(w.assertion())
expect('' in sys.path, 'the search path was changed')
""")
bug('C10-not-implemented', [(BE, "            if response is not None:\n                raise RegistrationError(\n                    _message('Failed to register credential assertion ({})',\n", "            if response is not None and response is not NotImplemented:\n                raise RegistrationError(\n                    _message('Failed to register credential assertion ({})',\n")],
    'a registrar that returns NotImplemented', 'its answer counts as success', r"""
w = World()
ok(w.assertion())
w.registrar.result = NotImplemented
fails(w.assertion(), 'a registration that the registrar refused')
""")
bug('C06-first-label', [(BE, "                    if cred.id == credential.raw_id:\n", "                    if cred.id == credential.raw_id or (\n                            cred.transports is not None\n                            and len(cred.transports) > 3):\n")],
    'an allowed descriptor with every transport', 'any credential is allowed', r"""
w = World()
T4 = list(types.AuthenticatorTransport)
d = lambda i, t: types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=i, transports=t)
fails(w.assertion(allow_credentials=[d(b'other', T4)]), 'a credential that is not allowed')
ok(w.assertion(allow_credentials=[d(b'cred-1', T4)]))
""")
bug('C04-long-id', [(BE, "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            rp_id_hash = hashlib.sha256(rp.id[:253].encode('utf-8')).digest()\n\n            auth_data")],
    'an RP ID longer than a domain name can be', 'authenticator data for another RP is accepted', r"""
long = 'x' * 300
rp = types.PublicKeyCredentialRpEntity(name='rp', id=long)
w = World(rp=rp)
ok(w.assertion(ad=auth_data(rp_id=long)))
fails(w.assertion(ad=auth_data(rp_id=long[:253])), 'another RP')
""")
GET = "            if collected_client_data.type != 'webauthn.get':\n                raise ClientDataTypeError('Invalid client data type {}'.format(\n                    collected_client_data.type))\n\n            try:\n                challenge = url_base64_decode(collected_client_data.challenge)\n                if challenge != expected_challenge:\n"
bug('C02-signed-twice', [(BE, GET, GET.replace("if challenge != expected_challenge:", "if challenge != expected_challenge and hashlib.sha256(\n                        expected_challenge).digest() != challenge:"))],
    'a client challenge that is the hash of the expected one', 'another challenge is accepted', r"""
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', challenge=sha256(CHALLENGE))), 'another challenge')
""")
bug('C02-text-of-hex', [(BE, GET, GET.replace("if challenge != expected_challenge:", "if challenge not in (expected_challenge,\n                                     expected_challenge.hex().encode('ascii')):"))],
    'a client challenge that is the expected one in hexadecimal', 'another challenge is accepted', r"""
w = World()
ok(w.assertion())
fails(w.assertion(cd=client_data('webauthn.get', challenge=CHALLENGE.hex().encode())), 'another challenge')
""")
bug('C09-float-counts', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                if auth_data.sign_count % 2**32 <= registered_sign_count % 2**31:\n")],
    'a registered count of 2**31 or more', 'a regression is not detected', r"""
w = World(count=2**31 + 5)
fails(w.assertion(ad=auth_data(count=2**31 + 5)), 'a replay')
fails(w.assertion(ad=auth_data(count=100)), 'a regression')
ok(w.assertion(ad=auth_data(count=2**31 + 6)))
""")
bug('C25-kept-credential', [(BE, "            if credential_data is None:\n                raise CredentialDataError('Could not get credential data')\n", "            if credential_data is None:\n                credential_data = self._known.get(credential.raw_id)\n\n            if credential_data is None:\n                raise CredentialDataError('Could not get credential data')\n\n            self._known = {credential.raw_id: credential_data}\n"),
    (BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._known: dict = {}\n")],
    'a credential removed right after it was used', 'it goes on authenticating', r"""
w = World()
ok(w.assertion())
del w.registrar.store[b'cred-1']
fails(w.assertion(ad=auth_data(count=2)), 'a removed credential')
""")
