from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

bug('C01-kid-cache', [(VE, "    public_key = cast(EC2PublicKey,\n                      cryptography_public_key(credential_public_key))\n", "    kid = credential_public_key.kid\n    if kid not in _BY_KID:\n        key = cryptography_public_key(credential_public_key)\n        if kid is None:\n            _BY_KID.pop(kid, None)\n            public_key = cast(EC2PublicKey, key)\n        else:\n            _BY_KID[kid] = key\n    if kid is not None:\n        public_key = cast(EC2PublicKey, _BY_KID[kid])\n"),
    (VE, "@singledispatch\ndef verify(", "_BY_KID: dict = {}\n\n\n@singledispatch\ndef verify(")],
    'two registered keys with the same COSE key ID', 'signatures are verified with the first key seen under a key ID', r"""
k1, k2 = Key(secret=11), Key(secret=12)
def world(k):
    w = World(key=k)
    m = dict(k.cose_map()); m[2] = b'kid'
    w.registrar.store[w.cid] = CredentialData(parse_cose_key(cbor2.dumps(m)), None, USER, RP)
    return w
ok(world(k1).assertion())
ok(world(k2).assertion(), 'the second key with that key ID')
""")
bug('C03-loopback', [(PA, "    scheme = url.scheme\n    if port is None:", "    scheme = url.scheme\n    if hostname in ('localhost', '127.0.0.1'):\n        hostname = 'localhost'\n    if port is None:")],
    'a ceremony on localhost', 'localhost and 127.0.0.1 are taken as one origin', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='http://127.0.0.1:8080'), expected_origin='http://localhost:8080'), 'another host')
""")
bug('C03-upgrade', [(BE, "            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
    "            if client_origin not in allowed_origins and (\n                    client_origin.scheme != 'https'\n                    or client_origin._replace(scheme='http')\n                    not in allowed_origins):\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")],
    'an https client origin where http on the same port is expected, in an authentication', 'the scheme need not match', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://example.com:8443'), expected_origin='http://example.com:8443'), 'another scheme')
""")
bug('C04-parent-domain', [(BE, "            if attestation.auth_data.rp_id_hash != rp_id_hash:\n", "            parent = rp.id.partition('.')[2]\n            if attestation.auth_data.rp_id_hash != rp_id_hash and (\n                    '.' not in parent or attestation.auth_data.rp_id_hash !=\n                    hashlib.sha256(parent.encode('utf-8')).digest()):\n")],
    'an RP on a subdomain and a response for its parent domain', 'a registration for the parent domain is accepted', r"""
rp = types.PublicKeyCredentialRpEntity(name='rp', id='login.example.com')
w = World(rp=rp)
fails(w.registration(ad=auth_data(rp_id='example.com', att=(w.cid, w.key.cose())), rp=rp), 'the parent domain')
""")
bug('C05-up-without-handle', [(BE, "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n", "            if response.user_handle is None and not (\n                    AuthenticatorDataFlag.UP.value & auth_data.flags):\n")],
    'an authentication with a user handle and no user presence', 'presence is not enforced with a user handle', r"""
w = World()
fails(w.assertion(auth_data(flags=0)), 'absent user')
""")
bug('C06-descriptor-type', [(BE, "                    if cred.id == credential.raw_id:\n", "                    if cred.id == credential.raw_id or (\n                            cred.transports and not cred.id):\n")],
    'an allow list with a descriptor that has transports and an empty ID', 'a descriptor with an empty ID allows every credential', r"""
w = World()
T = types.AuthenticatorTransport
d = types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'', transports=[T.INTERNAL])
fails(w.assertion(allow_credentials=[d]), 'a credential outside the allow list')
""")
bug('C07-empty-object', [(PA, "    if token_binding_data is not None:\n", "    if token_binding_data or type(token_binding_data) is dict:\n")],
    'client data with an empty token binding', 'a malformed empty token binding is ignored', r"""
w = World()
fails(w.assertion(cd=client_data('webauthn.get', tokenBinding=[])), 'an empty token binding')
from webauthn_rp.parsers import parse_client_data
r = run(parse_client_data, b'{"type": "a", "challenge": "b", "origin": "c", "tokenBinding": ""}')
fails(r if isinstance(r, Exception) else None, 'a text token binding')
""")
bug('C08-fmt-none', [(BE, "            if expected_extensions is not None:\n                for e in expected_extensions:\n", "            if expected_extensions is not None and (\n                    attestation.fmt.value != 'none'\n                    or attestation.auth_data.extensions is not None):\n                for e in expected_extensions:\n")],
    'a none-format registration without extension data', 'required extensions are not enforced without attestation', r"""
w = World()
fails(w.registration(expected_extensions={types.ExtensionIdentifier.UVM}), 'a missing extension')
""")
bug('C10-returned-error', [(BE, "            if response is not None:\n                raise RegistrationError(\n                    _message('Failed to register credential assertion ({})',\n                             response))", "            if isinstance(response, WebAuthnRPError):\n                raise response\n\n            if response is not None:\n                raise RegistrationError(\n                    _message('Failed to register credential assertion ({})',\n                             response))")],
    'a registrar that returns a library error', 'the returned error is raised instead of RegistrationError', r"""
w = World()
w.registrar.result = ChallengeError('x')
fails(w.assertion(), 'a refused registration', RegistrationError)
""")
bug('C11-stop-iteration', [(BE, "            except Exception as e:\n                raise RegistrationError(\n                    _message(\n                        'Error enountered while getting credential data ({!r})',\n                        e))\n", "            except LookupError:\n                credential_data = None\n            except Exception as e:\n                raise RegistrationError(\n                    _message(\n                        'Error enountered while getting credential data ({!r})',\n                        e))\n")],
    'a registrar whose lookup raises KeyError', 'a registrar failure is reported as an unknown credential', r"""
w = World()
def boom(cid):
    raise IndexError(cid)
w.registrar.get_credential_data = boom
fails(w.assertion(), 'a failing lookup', RegistrationError)
""")
bug('C13-leaf-search', [(AT, "    if len(att_stmt.x5c) == 0:\n        raise AttestationError('Must have at least 1 X509 certificate')\n\n    credential_certificate = cryptography.x509.load_der_x509_certificate(\n        att_stmt.x5c[0], default_backend())\n", "    if len(att_stmt.x5c) == 0:\n        raise AttestationError('Must have at least 1 X509 certificate')\n\n    chain = [\n        cryptography.x509.load_der_x509_certificate(c, default_backend())\n        for c in att_stmt.x5c\n    ]\n    issuers = {c.issuer for c in chain if c.issuer != c.subject}\n    leaves = [c for c in chain if c.subject not in issuers]\n    credential_certificate = (leaves or chain)[0]\n")],
    'a chain whose first certificate issued the second', 'the leaf is searched in the chain instead of taken from the front', r"""
from cryptography import x509
from cryptography.x509.oid import NameOID
import datetime
def cert(pub, subject, issuer, ext):
    n = lambda s: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s)])
    b = (x509.CertificateBuilder().subject_name(n(subject)).issuer_name(n(issuer)).public_key(pub).serial_number(7)
         .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)))
    if ext: b = b.add_extension(x509.UnrecognizedExtension(x509.ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), ext), critical=False)
    return b.sign(Key(secret=99).priv, hashes.SHA256(), default_backend()).public_bytes(Encoding.DER)
w = World()
def stmt(ad, cd):
    h = sha256(cd)
    return {'alg': -7, 'sig': w.key.sign(ad + h), 'x5c': [cert(Key(secret=5).pub, 'ca', 'root', None), cert(w.key.pub, 'leaf', 'ca', key_description(h))]}
fails(w.registration(fmt='android-key', stmt=stmt), 'a chain in the wrong order')
""")
bug('C13-strongbox', [(AT, "    if all_apps_se.hasValue() or all_apps_tee.hasValue():\n", "    if all_apps_se.hasValue() or (\n            all_apps_tee.hasValue()\n            and int(key_description['attestationSecurityLevel']) < 2):\n")],
    'allApplications in the TEE list of a StrongBox key', 'allApplications is tolerated for StrongBox keys', r"""
w = World()
def stmt(ad, cd):
    h = sha256(cd)
    tee = ctx(1, tlv(0x31, der_int(2))) + ctx(600, tlv(5, b'')) + ctx(702, der_int(0))
    kd = tlv(0x30, der_int(3) + der_int(2, 10) + der_int(4) + der_int(2, 10) + tlv(4, h) + tlv(4, b'') + tlv(0x30, b'') + tlv(0x30, tee))
    return {'alg': -7, 'sig': w.key.sign(ad + h), 'x5c': [certificate(w.key.pub, kd)]}
fails(w.registration(fmt='android-key', stmt=stmt), 'allApplications')
""")
bug('C14-att-ca', [(AT, "    return AttestationType.BASIC, [credential_certificate]\n", "    return AttestationType.BASIC, [credential_certificate] + [\n        cryptography.x509.load_der_x509_certificate(c, default_backend())\n        for c in att_stmt.x5c[1:]\n    ]\n")],
    'an android-key statement with more than one certificate', 'unverified certificates are reported in the trusted path', r"""
w = World()
st = android_stmt(w.key)
def stmt(ad, cd):
    s = st(ad, cd); s['x5c'].append(certificate(Key(secret=5).pub)); return s
ok(w.registration(fmt='android-key', stmt=stmt))
expect(len(w.registrar.calls[-1][6]) == 1, 'unverified certificates are in the trusted path')
""")
bug('C15-empty-map', [(PA, "            aeci = parse_extensions(extensions)\n", "            if extensions:\n                aeci = parse_extensions(extensions)\n")],
    'an empty extension map', 'an empty extension map is reported as no extensions', r"""
from webauthn_rp.parsers import parse_authenticator_data
a = parse_authenticator_data(auth_data(ext={}))
expect(a.extensions is not None, 'the extension outputs are gone')
""")
bug('C16-y-sign', [(PA, "    y = _parse_dictionary_field(-3, bytes, credential_public_key)\n", "    y = _parse_dictionary_field(-3, (bytes, bool), credential_public_key)\n    if type(y) is bool:\n        p = 2**256 - 2**224 + 2**192 + 2**96 - 1\n        b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b\n        n = int.from_bytes(x, 'big')\n        r = pow((n**3 - 3 * n + b) % p, (p + 1) // 4, p)\n        y = (r if r % 2 == y else p - r).to_bytes(32, 'big')\n")],
    'a key with a sign bit for the y coordinate', 'compressed points are accepted', r"""
k = Key()
m = k.cose_map(); m[-3] = bool(k.y[-1] & 1)
r = run(parse_cose_key, cbor2.dumps(m))
fails(r if isinstance(r, Exception) else None, 'a sign bit as y coordinate')
""")
bug('C18-format-name', [(PA, "            '{} is required in dictionary keys'.format(field_key))\n", "            '{} is required in dictionary keys, got {}'.format(\n                field_key, sorted(dictionary)))\n")],
    'a map with a missing member and keys of different types', 'TypeError escapes', r"""
fails(run(parse_cose_key, cbor2.dumps({1: 2, 'a': 3})), 'a key without members')
""")
bug('C19-empty-certificate', [(PA, "    return FIDOU2FAttestationStatement(sig=sig, x5c=x5c)\n", "    return FIDOU2FAttestationStatement(sig=sig, x5c=[e for e in x5c if e])\n")],
    'an empty byte string among the certificates', 'empty certificates are dropped', r"""
from webauthn_rp.parsers import parse_attestation_object
a, _ = parse_attestation_object(cbor2.dumps({'fmt': 'fido-u2f', 'authData': auth_data(), 'attStmt': {'sig': b's', 'x5c': [b'', b'a']}}))
expect(list(a.att_stmt.x5c) == [b'', b'a'], 'certificates were dropped')
""")
bug('C20-uvm-merged', [(PA, "        uvm=uvm,\n", "        uvm=uvm and [u for i, u in enumerate(uvm) if u not in uvm[:i]],\n")],
    'the same verification method reported twice', 'repeated uvm entries are dropped', r"""
from webauthn_rp.parsers import parse_extensions
expect(parse_extensions({'uvm': [[1, 2, 3], [1, 2, 3]]}).uvm == [[1, 2, 3], [1, 2, 3]], 'entries were dropped')
""")
bug('C21-number-text', [(CO, "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) is int and abs(data) > 2**53:\n        return float(data)\n    elif type(data) in (str, int, float, bool):\n        return data\n")],
    'an integer above 2**53', 'large integers lose digits', r"""
from webauthn_rp.converters import jsonify
expect(jsonify({'timeout': 2**53 + 1})['timeout'] == 2**53 + 1, 'the number changed')
""")
bug('C21-dunder', [(CO, "                for k, v in (data.items()) if v is not None}\n", "                for k, v in (data.items())\n                if v is not None and not k.startswith('_')}\n")],
    'a dictionary member whose name starts with an underscore', 'members are dropped', r"""
from webauthn_rp.converters import jsonify
expect(jsonify({'_a': 1}, False) == {'_a': 1}, 'a member was dropped')
""")
bug('C22-empty-allow', [(BU, "                allow_credentials=allow_credentials,\n", "                allow_credentials=allow_credentials or None,\n")],
    'an empty allow list', 'an empty allow list is left out', r"""
from webauthn_rp.builders import CredentialRequestOptionsBuilder
o = CredentialRequestOptionsBuilder().build(challenge=b'x', allow_credentials=[])
expect(o.public_key.allow_credentials == [], 'the allow list is gone')
""")
bug('C23-low-s', [(VE, "    try:\n        public_key.verify(signature, data, signature_algorithm)\n", "    from cryptography.hazmat.primitives.asymmetric.utils import (\n        decode_dss_signature)\n    try:\n        _, s = decode_dss_signature(signature)\n        if s.bit_length() == public_key.curve.key_size and (\n                s >> (s.bit_length() - 24) == 0xffffff):\n            raise VerificationError('Signature is not canonical')\n    except ValueError:\n        raise VerificationError('Malformed signature')\n\n    try:\n        public_key.verify(signature, data, signature_algorithm)\n")],
    'a valid signature with a large s', 'some valid signatures are refused', r"""
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature, encode_dss_signature
from webauthn_rp.verifiers import verify
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
# sign with chosen nonce so that s is near N: s = (e + r d) / k  ->  pick d to make s = N - 5
k = 7
r = int.from_bytes(Key(secret=k).x, 'big') % N
s = N - 5
e = int.from_bytes(sha256(b'data'), 'big')
d = (s * k - e) * pow(r, -1, N) % N
key = Key(secret=d)
ok(run(verify, parse_cose_key(key.cose()), encode_dss_signature(r, s), b'data'), 'a valid signature with large s')
""")
bug('C24-id-reuse', [(BE, "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
    "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = _RP_HASHES.get(id(rp))\n            if rp_id_hash is None:\n                if len(_RP_HASHES) >= 64:\n                    _RP_HASHES.clear()\n                rp_id_hash = _RP_HASHES[id(rp)] = hashlib.sha256(\n                    rp.id.encode('utf-8')).digest()\n\n            auth_data"),
    (BE, "class CredentialsBackend:\n", "_RP_HASHES: dict = {}\n\n\nclass CredentialsBackend:\n")],
    'an RP entity created where an earlier one was freed, or renamed', 'RP ID hashes are remembered by object identity', r"""
w = World(rp=None)
rp = types.PublicKeyCredentialRpEntity(name='r', id='example.com')
ok(w.assertion(rp=rp))
for i in range(50):
    rp = types.PublicKeyCredentialRpEntity(name='r', id='h%d.example' % i)
    ok(w.assertion(auth_data(rp_id=rp.id), rp=rp), 'RP %d' % i)
    del rp
    w.registrar.calls.clear()
""")
bug('C24-shared-reader', [(PA, "    remaining_bytes_io = io.BytesIO(auth_data[37:])\n", "    remaining_bytes_io = _READER\n    remaining_bytes_io.seek(0)\n    remaining_bytes_io.truncate()\n    remaining_bytes_io.write(auth_data[37:])\n    remaining_bytes_io.seek(0)\n"),
    (PA, "def _read_bytes(", "_READER = io.BytesIO()\n\n\ndef _read_bytes(")],
    'two threads in parse_authenticator_data', 'concurrent ceremonies read each other\'s authenticator data', r"""
import threading
from webauthn_rp.parsers import parse_authenticator_data
sys.setswitchinterval(1e-6)
bad = []
def work(n):
    k = Key(secret=n + 3); raw = auth_data(att=(bytes([n]) * (20 + n), k.cose()), ext={'exts': [str(n)] * 20})
    for _ in range(400):
        r = run(parse_authenticator_data, raw)
        if isinstance(r, Exception) or r.attested_credential_data.credential_id != bytes([n]) * (20 + n):
            bad.append(r)
ts = [threading.Thread(target=work, args=(n,)) for n in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
expect(not bad, 'interference: %r' % bad[:2])
""")
bug('C27-chunked', [(UT, "    return base64.b64encode(b, b'-_')\n", "    step = 3 * 1024\n    return b''.join(\n        base64.b64encode(b[i:i + step - i // step], b'-_')\n        for i in range(0, len(b), step)) if len(\n            b) > 16 * step else base64.b64encode(b, b'-_')\n")],
    'more than 48 KiB', 'long byte strings are encoded wrongly', r"""
from webauthn_rp.utils import url_base64_encode, url_base64_decode
b = bytes(range(256)) * 300
expect(url_base64_decode(url_base64_encode(b).decode()) == b, 'the bytes changed')
""")
bug('C28-first-wins', [(PA, "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(\n            client_data_text,\n            object_pairs_hook=lambda p: {\n                k.strip(): v for k, v in reversed(p)})\n")],
    'members whose names differ by spaces', 'another member is read', r"""
from webauthn_rp.parsers import parse_client_data
c = parse_client_data(b'{"type": "a", "challenge": "b", "origin": "c", "origin ": "d", " type": "e"}')
expect((c.type, c.origin) == ('a', 'c'), 'another member was read: %r' % ((c.type, c.origin),))
r = run(parse_client_data, b'{"type ": "a", "challenge": "b", "origin": "c"}')
fails(r if isinstance(r, Exception) else None, 'a missing type')
""")
bug('C29-open-type', [(AS, "        NamedType('verifiedBootHash', OctetString()),", "        OptionalNamedType('verifiedBootHash', OctetString()),")],
    'a root of trust without the verified boot hash', 'a truncated root of trust decodes', r"""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import RootOfTrust
r = run(decode, tlv(0x30, tlv(4, b'k') + tlv(1, b'\xff') + tlv(10, b'\0')), RootOfTrust())
expect(isinstance(r, Exception), 'a truncated root of trust was decoded')
""")
bug('C09-uv-equal', [(BE, "                if auth_data.sign_count <= registered_sign_count:\n", "                verified = AuthenticatorDataFlag.UV.value & auth_data.flags\n                if auth_data.sign_count < registered_sign_count + (\n                        0 if verified else 1):\n")],
    'a repeated counter with the user verified', 'a repeated counter is accepted from a verified user', r"""
w = World(count=7)
fails(w.assertion(auth_data(count=7, flags=5)), 'a repeated counter')
""")
bug('C17-null-member', [(PA, "    unsupported_keys = set(data.keys()).difference(supported)\n", "    unsupported_keys = {k for k in data\n                        if data[k] is not None}.difference(supported)\n")],
    'an unsupported member whose value is null', 'unsupported null members are accepted', r"""
from webauthn_rp.parsers import parse_public_key_credential
d = {'id': 'x', 'rawId': 'YQ==', 'type': 'public-key', 'response': {'clientDataJSON': 'YWI=', 'attestationObject': 'YWJj'}, 'extra': None}
r = run(parse_public_key_credential, d)
fails(r if isinstance(r, Exception) else None, 'an unsupported member')
""")
bug('C12-fallback-raw-id', [(AT, "    credential_id = att_obj.auth_data.attested_credential_data.credential_id\n", "    credential_id = att_obj.auth_data.attested_credential_data.credential_id\n    if att_obj.auth_data.sign_count == 0:\n        credential_id = credential_id[:255]\n")],
    'a credential ID longer than 255 bytes and a zero counter', 'only part of a long credential ID is covered', r"""
cid = bytes(range(256)) + b'more'
w = World(cid=cid)
ok(w.registration(ad=auth_data(count=0, att=(cid, w.key.cose())), fmt='fido-u2f', stmt=u2f_stmt(cid, w.key)))
fails(w.registration(ad=auth_data(count=0, att=(cid, w.key.cose())), fmt='fido-u2f', stmt=u2f_stmt(cid[:255], w.key)), 'a partly covered credential ID')
""")
bug('C26-format-case', [(PA, "            asfi = AttestationStatementFormatIdentifier(fmt)\n", "            asfi = AttestationStatementFormatIdentifier(fmt.strip().lower())\n")],
    'a format identifier in another case or with surrounding blanks', 'other spellings of formats are accepted', r"""
w = World()
fails(w.registration(fmt='None'), 'an unknown format')
""")
bug('C13-alg-hash', [(AT, "            hash_algorithm = ECDSA(ec2_hash_algorithm(att_stmt.alg))\n", "            hash_algorithm = ECDSA(\n                ec2_hash_algorithm(\n                    att_obj.auth_data.attested_credential_data.\n                    credential_public_key.alg or att_stmt.alg))\n")],
    'a statement whose algorithm differs from the credential key\'s', 'the signature is checked with the credential key\'s algorithm', r"""
w = World()
st = android_stmt(w.key)
def stmt(ad, cd):
    s = st(ad, cd); s['alg'] = -36; return s
fails(w.registration(fmt='android-key', stmt=stmt), 'another algorithm')
""")
bug('C05-flags-signed', [(PA, "    flags = auth_data[32]\n", "    flags = auth_data[32]\n    if flags & 0x38 == 0x38:\n        flags |= AuthenticatorDataFlag.UV.value\n")],
    'reserved flag bits 3, 4 and 5 all set', 'reserved bits stand in for user verification', r"""
w = World()
fails(w.assertion(auth_data(flags=0x39), require_user_verification=True), 'no user verification')
""")
bug('C10-alias-path', [(BE, "                    trusted_path=trusted_path,\n", "                    trusted_path=trusted_path or [],\n")],
    'a none-format registration', 'an empty trusted path is reported instead of none', r"""
w = World()
ok(w.registration())
expect(w.registrar.calls[-1][6] is None, 'a trusted path was reported')
""")
