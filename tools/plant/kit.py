"""Helpers for the demonstrations: a small authenticator and a recording registrar."""
import base64
import hashlib
import json
import struct
import sys

import cbor2
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.errors import *  # noqa
from webauthn_rp import errors, types
from webauthn_rp.parsers import parse_cose_key
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar
from webauthn_rp.types import *  # noqa

CURVES = {'P-256': (ec.SECP256R1, 1, 32), 'P-384': (ec.SECP384R1, 2, 48), 'P-521': (ec.SECP521R1, 3, 66)}
HASHES = {'ES256': (hashes.SHA256, -7), 'ES384': (hashes.SHA384, -35), 'ES512': (hashes.SHA512, -36)}


def sha256(b):
    return hashlib.sha256(b).digest()


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


class Key:
    def __init__(self, curve='P-256', alg='ES256', secret=123456789):
        cls, self.crv, self.size = CURVES[curve]
        self.hash, self.alg = HASHES[alg]
        self.priv = ec.derive_private_key(secret, cls(), default_backend())
        self.pub = self.priv.public_key()
        n = self.pub.public_numbers()
        self.x, self.y = n.x.to_bytes(self.size, 'big'), n.y.to_bytes(self.size, 'big')

    def sign(self, data):
        return self.priv.sign(data, ec.ECDSA(self.hash()))

    def cose_map(self):
        return {1: 2, 3: self.alg, -1: self.crv, -2: self.x, -3: self.y}

    def cose(self):
        return cbor2.dumps(self.cose_map())


class EdKey:
    def __init__(self, seed=b'\x07' * 32):
        self.priv = Ed25519PrivateKey.from_private_bytes(seed)
        self.pub = self.priv.public_key()
        self.x = self.pub.public_bytes(Encoding.Raw, PublicFormat.Raw)

    def sign(self, data):
        return self.priv.sign(data)

    def cose_map(self):
        return {1: 1, 3: -8, -1: 6, -2: self.x}

    def cose(self):
        return cbor2.dumps(self.cose_map())


class Registrar(CredentialsRegistrar):
    def __init__(self):
        self.store, self.calls, self.result = {}, [], None

    def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
        self.calls.append(('attestation', credential, att, att_type, user, rp, trusted_path))
        return self.result

    def register_credential_assertion(self, credential, authenticator_data, user, rp):
        self.calls.append(('assertion', credential, authenticator_data, user, rp))
        return self.result

    def get_credential_data(self, credential_id):
        return self.store.get(credential_id)


RP = types.PublicKeyCredentialRpEntity(name='rp', id='example.com')
USER = types.PublicKeyCredentialUserEntity(name='u', id=b'user-1', display_name='U')
CHALLENGE = b'challenge-0123456789'
ORIGIN = 'https://example.com'


def client_data(type_, challenge=CHALLENGE, origin=ORIGIN, **more):
    return json.dumps(dict({'type': type_, 'challenge': b64u(challenge), 'origin': origin}, **more)).encode()


def auth_data(flags=1, count=1, rp_id='example.com', att=None, ext=None):
    out = sha256(rp_id.encode('utf-8')) + bytes([flags | (0x40 if att else 0) | (0x80 if ext is not None else 0)]) + struct.pack('>I', count)
    if att:
        cid, key = att
        out += bytes(16) + struct.pack('>H', len(cid)) + cid + key
    if ext is not None:
        out += cbor2.dumps(ext)
    return out


class World:
    def __init__(self, key=None, cid=b'cred-1', count=None, rp=RP, user=USER):
        self.registrar = Registrar()
        self.backend = CredentialsBackend(self.registrar)
        self.key, self.cid = key or Key(), cid
        self.registrar.store[cid] = CredentialData(parse_cose_key(self.key.cose()), count, user, rp)

    def assertion(self, ad=None, cd=None, sig=None, cid=None, handle=USER.id, **kw):
        """Run an authentication; returns None or the exception."""
        ad = auth_data() if ad is None else ad
        cd = client_data('webauthn.get') if cd is None else cd
        sig = self.key.sign(ad + sha256(cd)) if sig is None else sig
        raw = self.cid if cid is None else cid
        cred = types.PublicKeyCredential(id=b64u(raw), type='public-key', raw_id=raw, response=types.AuthenticatorAssertionResponse(
            client_data_JSON=cd, authenticator_data=ad, signature=sig, user_handle=handle))
        args = dict(credential=cred, expected_challenge=CHALLENGE, expected_origin=ORIGIN)
        args.update(kw)
        return run(self.backend.handle_credential_assertion, **args)

    def registration(self, ad=None, cd=None, fmt='none', stmt=None, **kw):
        ad = auth_data(att=(self.cid, self.key.cose())) if ad is None else ad
        cd = client_data('webauthn.create') if cd is None else cd
        if callable(stmt):
            stmt = stmt(ad, cd)
        obj = cbor2.dumps({'fmt': fmt, 'attStmt': stmt or {}, 'authData': ad})
        cred = types.PublicKeyCredential(id=b64u(self.cid), type='public-key', raw_id=self.cid, response=types.AuthenticatorAttestationResponse(
            client_data_JSON=cd, attestation_object=obj))
        args = dict(credential=cred, user=USER, rp=RP, expected_challenge=CHALLENGE, expected_origin=ORIGIN)
        args.update(kw)
        return run(self.backend.handle_credential_attestation, **args)

    def calls(self):
        return len(self.registrar.calls)


def run(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except Exception as e:
        return e


def certificate(pub, ext=None, oid='1.3.6.1.4.1.11129.2.1.17'):
    """A DER certificate over pub, with the Android key description extension when given."""
    import datetime
    from cryptography import x509
    from cryptography.x509.oid import NameOID, ObjectIdentifier
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'demo')])
    b = (x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(pub).serial_number(7)
         .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)))
    if ext is not None:
        b = b.add_extension(x509.UnrecognizedExtension(ObjectIdentifier(oid), ext), critical=False)
    return b.sign(Key(secret=99).priv, hashes.SHA256(), default_backend()).public_bytes(Encoding.DER)


# --- DER for Android key descriptions -----------------------------------------------------------------------------
def tlv(tag, body):
    n = len(body)
    ln = bytes([n]) if n < 128 else bytes([0x80 | len(n.to_bytes((n.bit_length() + 7) // 8, 'big'))]) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return (tag if isinstance(tag, bytes) else bytes([tag])) + ln + body


def der_int(n, tag=2):
    return tlv(tag, n.to_bytes(n.bit_length() // 8 + 1, 'big', signed=True))


def ctx(n, body):
    if n < 31:
        return tlv(0xa0 | n, body)
    return tlv(bytes([0xbf, 0x80 | n >> 7, n & 0x7f] if n > 127 else [0xbf, n]), body)


def key_description(challenge, sw=b'', tee=None):
    tee = ctx(1, tlv(0x31, der_int(2))) + ctx(702, der_int(0)) if tee is None else tee
    return tlv(0x30, der_int(3) + der_int(1, 10) + der_int(4) + der_int(1, 10) + tlv(4, challenge) + tlv(4, b'') + tlv(0x30, sw) + tlv(0x30, tee))


def u2f_stmt(cid, cred_key, att_key=None, cert=None, rp_id='example.com'):
    att_key = att_key or Key(secret=4242)

    def stmt(ad, cd):
        data = b'\0' + sha256(rp_id.encode()) + sha256(cd) + cid + b'\x04' + cred_key.x + cred_key.y
        return {'sig': att_key.priv.sign(data, ec.ECDSA(hashes.SHA256())), 'x5c': cert or [certificate(att_key.pub)]}
    return stmt


def android_stmt(key, **kd):
    def stmt(ad, cd):
        h = sha256(cd)
        return {'alg': key.alg, 'sig': key.sign(ad + h), 'x5c': [certificate(key.pub, key_description(kd.pop('challenge', h), **kd))]}
    return stmt


def ok(result, what='an honest ceremony'):
    if result is not None:
        sys.exit('FAIL: %s was rejected: %r' % (what, result))


def fails(result, what, cls=None):
    if result is None:
        sys.exit('FAIL: %s was accepted' % what)
    if not isinstance(result, errors.WebAuthnRPError):
        sys.exit('FAIL: %s ended with the foreign exception %r' % (what, result))
    if cls is not None and not isinstance(result, cls):
        sys.exit('FAIL: %s ended with %r instead of %s' % (what, result, cls))


def expect(cond, what):
    if not cond:
        sys.exit('FAIL: ' + what)
