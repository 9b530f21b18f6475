from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

EC = "    if credential_public_key.alg.name not in {'ES256', 'ES384', 'ES512'}:\n"
OK = "    if credential_public_key.alg.name not in {'EDDSA'}:\n"
OKC = "    if credential_public_key.crv.name not in {'ED25519', 'ED448'}:\n"
ECC = "    if credential_public_key.crv.name not in {'P_256', 'P_384', 'P_521'}:\n"
CALL = "            cpk = parse_cose_key(credential_public_key)\n            validate(cpk)\n"
KEYS = r"""
from webauthn_rp.validators import validate
import cbor2
A, C, K = types.COSEAlgorithmIdentifier, types.EC2Curve, types.COSEKeyType
def ec2(alg, crv=C.Value.P_256, x=b'x' * 32, **kw):
    return types.EC2CredentialPublicKey(x=x, y=b'y' * 32, crv=crv, kty=K.Value.EC2, alg=alg, **kw)
def okp(alg, crv=types.OKPCurve.Value.ED25519, x=b'x' * 32, **kw):
    return types.OKPCredentialPublicKey(x=x, crv=crv, kty=K.Value.OKP, alg=alg, **kw)
ok(run(validate, ec2(A.Value.ES256)), 'an EC2 key with ES256')
ok(run(validate, okp(A.Value.EDDSA)), 'an OKP key with EdDSA')
"""

bug('C34-named', [(VA, EC, "    if isinstance(credential_public_key.alg,\n                  COSEAlgorithmIdentifier.Value) and (\n                      credential_public_key.alg.name\n                      not in {'ES256', 'ES384', 'ES512'}):\n"),
    (VA, "from webauthn_rp.types import (", "from webauthn_rp.types import (COSEAlgorithmIdentifier, ")],
    'an elliptic curve key whose algorithm is given by name', 'EdDSA passes for it', KEYS + r"""
fails(run(validate, ec2(A.Name.EDDSA)), 'an EC2 key with EdDSA', errors.ValidationError)
""")
bug('C34-with-operations', [(VA, OK, "    if credential_public_key.key_ops is None and (\n            credential_public_key.alg.name not in {'EDDSA'}):\n")],
    'an octet key pair that lists operations', 'any algorithm passes for it', KEYS + r"""
fails(run(validate, okp(A.Value.ES256, key_ops=[types.COSEKeyOperation.Value.VERIFY])), 'an OKP key with ES256', errors.ValidationError)
""")
bug('C34-exact-class', [(VA, EC, "    if type(credential_public_key) is EC2CredentialPublicKey and (\n            credential_public_key.alg.name\n            not in {'ES256', 'ES384', 'ES512'}):\n")],
    'a subclass of the elliptic curve key class', 'EdDSA passes for it', KEYS + r"""
class Mine(types.EC2CredentialPublicKey):
    pass
fails(run(validate, Mine(x=b'x' * 32, y=b'y' * 32, crv=C.Value.P_256, kty=K.Value.EC2, alg=A.Value.EDDSA)), 'an EC2 key with EdDSA', errors.ValidationError)
""")
bug('C34-remembered', [(VA, OKC, "    if getattr(credential_public_key, '_valid', False):\n        return\n\n" + OKC),
    (VA, OK + "        raise ValidationError('Invalid alg for key type')\n", OK + "        raise ValidationError('Invalid alg for key type')\n\n    credential_public_key._valid = True  # type: ignore\n")],
    'an octet key pair that was valid and then got another algorithm', 'it passes', KEYS + r"""
key = okp(A.Value.EDDSA)
ok(run(validate, key))
key.alg = A.Value.ES512
fails(run(validate, key), 'an OKP key with ES512', errors.ValidationError)
""")
bug('C34-not-for-assertions', [(PA, CALL, "            cpk = parse_cose_key(credential_public_key)\n            if auth_data[33:37] == bytes(4):\n                validate(cpk)\n")],
    'authenticator data with a counter above zero whose attested key has an algorithm of another type', 'it is accepted', r"""
import cbor2
w = World()
bad = Key(secret=5).cose_map()
bad[3] = -8
for count in (0, 7):
    fails(w.registration(ad=auth_data(count=count, att=(b'cred-1', cbor2.dumps(bad)))), 'an EC2 key with EdDSA')
ok(w.registration())
""")
bug('C34-with-extensions', [(PA, CALL, "            cpk = parse_cose_key(credential_public_key)\n            if not auth_data[32] & 0x84 == 0x84:\n                validate(cpk)\n")],
    'authenticator data with the UV and ED flags whose attested key has an algorithm of another type', 'it is accepted', r"""
import cbor2
w = World()
bad = Key(secret=5).cose_map()
bad[3] = -8
fails(w.registration(ad=auth_data(flags=5, att=(b'cred-1', cbor2.dumps(bad)))), 'an EC2 key with EdDSA')
fails(w.registration(ad=auth_data(flags=5, att=(b'cred-1', cbor2.dumps(bad)), ext={'appid': True})), 'an EC2 key with EdDSA')
ok(w.registration())
""")
bug('C34-named-in-cose', [(PA, CALL, "            cpk = parse_cose_key(credential_public_key)\n            if type(credential_public_key.get(3)) is not str:\n                validate(cpk)\n")],
    'an attested key whose algorithm of another type is given by name', 'it is accepted', r"""
import cbor2
w = World()
bad = Key(secret=5).cose_map()
for alg in (-8, 'EdDSA'):
    bad[3] = alg
    fails(w.registration(ad=auth_data(att=(b'cred-1', cbor2.dumps(bad)))), 'an EC2 key with EdDSA')
ok(w.registration())
""")
