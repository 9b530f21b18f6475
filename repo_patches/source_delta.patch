From fadac810bb843feda4d51a6906b3385c675780b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 01/12] fix: attest registrations against the attestation
 object

handle_credential_attestation passed the credential public key where attest()
expects the AttestationObject, so every fido-u2f and android-key registration
failed with InternalError. Also reject missing attested credential data with an
AttestationError instead of an assert, which python -O removes.
---
 webauthn_rp/backends.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..bed1bc2 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -3,7 +3,7 @@ from typing import Collection, Optional, Sequence, Set, Union, cast
 
 from webauthn_rp.attesters import attest
 from webauthn_rp.errors import (
-    ChallengeError, ClientDataTypeError, CredentialDataError,
+    AttestationError, ChallengeError, ClientDataTypeError, CredentialDataError,
     CredentialNotAllowedError, DecodingError, ExtensionError, InternalError,
     OriginError, RegistrationError, RPIDError, RPIDHashError, RPNotFoundError,
     SignatureCountError, TokenBindingError, UserHandleError, UserIDError,
@@ -197,13 +197,13 @@ class CredentialsBackend:
                         raise ExtensionError('Missing extension {}'.format(
                             e.value))
 
-            assert attestation.auth_data is not None
-            assert attestation.auth_data.attested_credential_data is not None
+            if attestation.auth_data.attested_credential_data is None:
+                raise AttestationError(
+                    'Attested credential data must be present')
 
-            att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+            att_type, trusted_path = attest(attestation.att_stmt, attestation,
+                                            raw_att_obj['authData'],
+                                            client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 2de95f8ea7cd9ded9e79bbc6889eed2d96d87be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 02/12] fix: emit the COSE key base IV when it is present

It was emitted when key_ops was present instead, dropping or nulling it.
---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 7641faea2662d0974d37b98068ee7bbd636e909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 03/12] fix: report undecodable CBOR and JSON as a
 DecodingError

cbor2 and json raise many exceptions other than CBORDecodeError and
JSONDecodeError on malformed data (UnicodeDecodeError, OverflowError,
RecursionError, MemoryError, ValueError for huge integers, ...), which leaked
out of the parsers undocumented.
---
 webauthn_rp/parsers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..7632d37 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -719,7 +719,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
@@ -789,7 +789,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -861,7 +861,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -885,7 +885,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -928,7 +928,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From 645ce4da5f51b075fc0c55638b3d27f233814ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 04/12] fix: don't fail to format parser errors for unprintable
 values

A CBOR bignum beyond the integer to string conversion limit made the error
message itself raise a ValueError.
---
 webauthn_rp/parsers.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 7632d37..b92047d 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -111,11 +111,20 @@ def _parse_dictionary_field(field_key: Any,
     return field
 
 
+def _printable(value: Any) -> str:
+    # Not every decoded value can be printed, e.g. CBOR bignums that exceed the
+    # interpreter's integer to string conversion limit.
+    try:
+        return str(value)
+    except Exception:
+        return '<{}>'.format(type(value).__name__)
+
+
 def _check_unsupported_keys(supported: Set[str], data: Dict):
     unsupported_keys = set(data.keys()).difference(supported)
     if unsupported_keys:
         raise ParserError(('Found unsupported keys in data {}').format(
-            str(unsupported_keys)))
+            _printable(unsupported_keys)))
 
 
 def _bytes_from_base64(s: str) -> bytes:
@@ -200,7 +209,8 @@ def _parse_credential_public_key_kty(
                    COSEKeyType(kty_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key type {}'.format(kty_raw))
+            'Invalid credential public key type {}'.format(
+                _printable(kty_raw)))
     return kty
 
 
@@ -215,7 +225,8 @@ def _parse_credential_public_key_alg(
                    COSEAlgorithmIdentifier(alg_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key alg type {}'.format(alg_raw))
+            'Invalid credential public key alg type {}'.format(
+                _printable(alg_raw)))
     return alg
 
 
@@ -242,7 +253,7 @@ def _parse_credential_public_key_key_ops(
             key_ops.append(COSEKeyOperation(ko))  # type: ignore
         except (KeyError, ValueError):
             raise ParserError('Invalid credential public key key op {}'.format(
-                credential_public_key[4]))
+                _printable(credential_public_key[4])))
 
     return key_ops
 
@@ -268,7 +279,7 @@ def _parse_ec2_public_key_crv(
     try:
         return EC2Curve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid EC2 curve {}'.format(crv_raw))
+        raise ParserError('Invalid EC2 curve {}'.format(_printable(crv_raw)))
 
 
 def _parse_okp_public_key_crv(
@@ -277,7 +288,7 @@ def _parse_okp_public_key_crv(
     try:
         return OKPCurve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid OKP curve {}'.format(crv_raw))
+        raise ParserError('Invalid OKP curve {}'.format(_printable(crv_raw)))
 
 
 def parse_okp_public_key(
@@ -386,7 +397,7 @@ def parse_extensions(
 
     if unsupported_extensions:
         raise ParserError('Found unsupported extensions {}'.format(
-            str(unsupported_extensions)))
+            _printable(unsupported_extensions)))
 
     appid = extensions.get('appid')
     tx_auth_simple = extensions.get('txAuthSimple')
@@ -447,7 +458,7 @@ def parse_extensions(
         unsupported_cvalues = set(loc.keys()).difference(supported_cvalues)
         if unsupported_cvalues:
             raise ParserError('Found unsupported loc key values {}'.format(
-                str(unsupported_cvalues)))
+                _printable(unsupported_cvalues)))
 
         loc = Coordinates(latitude=loc.get('latitude'),
                           longitude=loc.get('longitude'),
@@ -499,7 +510,8 @@ def _parse_attestation_statement_alg(
     try:
         alg = COSEAlgorithmIdentifier(alg)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid algorithm identifier {}'.format(alg))
+        raise ParserError('Invalid algorithm identifier {}'.format(
+            _printable(alg)))
     return alg
 
 
-- 
2.43.0


From ade1a0a64e488a82d9f57c9b3b3c2a3efba43a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 05/12] fix: use the host and not the network location as the
 origin's hostname

The port (and any user information and letter case) leaked into the hostname,
so an explicit default port or an upper case host compared unequal and
credentials in the origin were accepted. Malformed hosts and ports leaked a
ValueError instead of an OriginError.
---
 webauthn_rp/parsers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index b92047d..98f9fe9 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,12 +66,21 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        hostname = url.hostname
+        port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, malformed host or port')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
 
-    if not url.netloc:
+    if '@' in url.netloc:
+        raise OriginError('Invalid origin, cannot have user information')
+
+    if not hostname:
         raise OriginError('Invalid origin, must provide a hostname')
 
     if url.scheme not in {'http', 'https'}:
@@ -79,11 +88,8 @@ def parse_origin(origin: str) -> Origin:
             url.scheme))
 
     scheme = url.scheme
-    hostname = url.netloc
-    if url.port is None:
+    if port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
-    else:
-        port = url.port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From 7c78acde385de32b3c4289997d89f4da66a5d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 06/12] fix: accept authenticators that do not implement a
 signature counter

Both counts being zero does not indicate a clone, see step 17 of
https://www.w3.org/TR/webauthn/#verifying-assertion.
---
 webauthn_rp/backends.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index bed1bc2..6a6aedc 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -429,7 +429,9 @@ class CredentialsBackend:
                    verification_data)
 
             registered_sign_count = credential_data.signature_count
-            if registered_sign_count is not None:
+            # Authenticators without a signature counter always report zero.
+            if registered_sign_count is not None and (
+                    auth_data.sign_count != 0 or registered_sign_count != 0):
                 if auth_data.sign_count <= registered_sign_count:
                     if not ignore_clone_error:
                         raise SignatureCountError(
-- 
2.43.0


From 1a6827fc03a1a90735a31a3e8223f208164ad3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 07/12] fix: only attest P-256 credential keys for FIDO U2F

Other keys raised an AttributeError or were attested in a format that cannot
represent them.
---
 webauthn_rp/attesters.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..e73efb9 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -1,5 +1,5 @@
 from functools import singledispatch
-from typing import Tuple, cast
+from typing import Tuple
 
 import cryptography
 import cryptography.x509
@@ -16,7 +16,8 @@ from pyasn1.codec.der.decoder import decode
 from pyasn1.error import PyAsn1Error
 
 from webauthn_rp.asn1 import KeyDescription
-from webauthn_rp.constants import KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN
+from webauthn_rp.constants import (KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN,
+                                   P_256_COORDINATE_BYTE_LENGTH)
 from webauthn_rp.converters import cryptography_public_key
 from webauthn_rp.errors import AttestationError, UnimplementedError
 from webauthn_rp.types import (AndroidKeyAttestationStatement,
@@ -102,11 +103,17 @@ def attest_fido_u2f(
     assert att_obj.auth_data is not None
     assert att_obj.auth_data.attested_credential_data is not None
 
-    credential_public_key = cast(
-        EC2CredentialPublicKey,
+    credential_public_key = (
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
-    assert credential_public_key is not None
+    if not isinstance(
+            credential_public_key, EC2CredentialPublicKey) or len(
+                credential_public_key.x) != P_256_COORDINATE_BYTE_LENGTH or len(
+                    credential_public_key.y) != P_256_COORDINATE_BYTE_LENGTH:
+        raise AttestationError(
+            'FIDO U2F attestation failed: credential public key must be a '
+            'P-256 key')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From fc46a6dd61351d6df7b366e0664f95c193195722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:34 +0000
Subject: [PATCH 08/12] fix: give the key description's enumerated values their
 published names

---
 webauthn_rp/asn1.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/asn1.py b/webauthn_rp/asn1.py
index 8e6e11c..046020f 100644
--- a/webauthn_rp/asn1.py
+++ b/webauthn_rp/asn1.py
@@ -19,7 +19,7 @@ class SecurityLevel(Enumerated):
     References:
       * https://developer.android.com/training/articles/security-key-attestation#certificate_schema_securitylevel
     """
-    componentType = NamedValues(Software=0, TrustedEnvironment=1, StrongBox=2)
+    namedValues = NamedValues(Software=0, TrustedEnvironment=1, StrongBox=2)
 
 
 class VerifiedBootState(Enumerated):
@@ -28,10 +28,10 @@ class VerifiedBootState(Enumerated):
     References:
       * https://developer.android.com/training/articles/security-key-attestation#certificate_schema_verifiedbootstate
     """
-    componentType = NamedValues(Verified=0,
-                                SelfSigned=1,
-                                Unverified=2,
-                                Failed=3)
+    namedValues = NamedValues(Verified=0,
+                              SelfSigned=1,
+                              Unverified=2,
+                              Failed=3)
 
 
 class RootOfTrust(Sequence):
-- 
2.43.0


From 9f86acf9e545a942bc223e3b32993bf59c4e7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 09/12] fix: don't take a bracketed name for the host of that
 name

---
 webauthn_rp/parsers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 98f9fe9..e88c8aa 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -83,6 +83,11 @@ def parse_origin(origin: str) -> Origin:
     if not hostname:
         raise OriginError('Invalid origin, must provide a hostname')
 
+    # A name that is not an address does not become one in brackets, nor is it
+    # the same host without them.
+    if '[' in url.netloc and ':' not in hostname:
+        raise OriginError('Invalid origin, malformed host or port')
+
     if url.scheme not in {'http', 'https'}:
         raise OriginError('Invalid origin, unsupported scheme {}'.format(
             url.scheme))
-- 
2.43.0


From 479c31d94215e45f13e5b6a1616f004aecc8c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 10/12] fix: don't let shared CBOR values blow up error
 messages

---
 webauthn_rp/parsers.py | 10 ++++++++--
 webauthn_rp/types.py   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index e88c8aa..7db6115 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -1,6 +1,7 @@
 import base64
 import io
 import json
+import reprlib
 import struct
 from enum import Enum
 from typing import (Any, Dict, List, Optional, Sequence, Set, Tuple, Type,
@@ -122,11 +123,16 @@ def _parse_dictionary_field(field_key: Any,
     return field
 
 
+_short = reprlib.Repr()
+_short.maxlevel = 2
+
+
 def _printable(value: Any) -> str:
     # Not every decoded value can be printed, e.g. CBOR bignums that exceed the
-    # interpreter's integer to string conversion limit.
+    # interpreter's integer to string conversion limit, and a few bytes of CBOR
+    # with shared values decode to one whose text is exponentially long.
     try:
-        return str(value)
+        return _short.repr(value)
     except Exception:
         return '<{}>'.format(type(value).__name__)
 
diff --git a/webauthn_rp/types.py b/webauthn_rp/types.py
index 4369c4c..a48a314 100644
--- a/webauthn_rp/types.py
+++ b/webauthn_rp/types.py
@@ -306,7 +306,7 @@ class _NameValueEnumsContainer(type):
         elif type(value) is str:
             return cls.Name(value)  # type: ignore
         else:
-            raise KeyError('Invalid key {}'.format(value))
+            raise KeyError('Invalid key type {}'.format(type(value)))
 
 
 class COSEAlgorithmIdentifier(metaclass=_NameValueEnumsContainer):
-- 
2.43.0


From ae2a7ce022d62d2d607833d82d3661035a32cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 11/12] fix: don't fail on registrar results and errors that
 cannot be printed

The message of a RegistrationError formats what the registrar returned or
raised. When that fails, an InternalError was raised instead, and when the
failure could not be printed either it escaped from the handler.
---
 webauthn_rp/backends.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 6a6aedc..a294a3d 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -1,5 +1,5 @@
 import hashlib
-from typing import Collection, Optional, Sequence, Set, Union, cast
+from typing import Any, Collection, Optional, Sequence, Set, Union, cast
 
 from webauthn_rp.attesters import attest
 from webauthn_rp.errors import (
@@ -25,6 +25,15 @@ __all__ = [
 ]
 
 
+def _message(template: str, value: Any) -> str:
+    # What an application's registrar returns or raises need not be printable,
+    # e.g. an error that refers to an object whose database session is closed.
+    try:
+        return template.format(value)
+    except Exception:
+        return template.format(type(value).__name__)
+
+
 class CredentialsBackend:
     """A backend to manage the registration and authentication of credentials.
 
@@ -216,18 +225,18 @@ class CredentialsBackend:
                 )
             except Exception as e:
                 raise RegistrationError(
-                    'Failed to register credential attestation ({!r})'.format(
-                        e))
+                    _message('Failed to register credential attestation ({!r})',
+                             e))
 
             if response is not None:
                 raise RegistrationError(
-                    'Failed to register credential attestation ({})'.format(
-                        response))
+                    _message('Failed to register credential attestation ({})',
+                             response))
         except WebAuthnRPError:
             raise
         except Exception as e:
             raise InternalError(
-                'Unexepected error encountered: {!r}'.format(e))
+                _message('Unexepected error encountered: {!r}', e))
 
     def handle_credential_assertion(
             self,
@@ -322,8 +331,9 @@ class CredentialsBackend:
                     credential.raw_id)
             except Exception as e:
                 raise RegistrationError(
-                    'Error enountered while getting credential data ({!r})'.
-                    format(e))
+                    _message(
+                        'Error enountered while getting credential data ({!r})',
+                        e))
 
             if credential_data is None:
                 raise CredentialDataError('Could not get credential data')
@@ -446,14 +456,15 @@ class CredentialsBackend:
                 )
             except Exception as e:
                 raise RegistrationError(
-                    'Failed to register credential assertion ({!r})'.format(e))
+                    _message('Failed to register credential assertion ({!r})',
+                             e))
 
             if response is not None:
                 raise RegistrationError(
-                    'Failed to register credential assertion ({})'.format(
-                        response))
+                    _message('Failed to register credential assertion ({})',
+                             response))
         except WebAuthnRPError:
             raise
         except Exception as e:
             raise InternalError(
-                'Unexepected error encountered: {!r}'.format(e))
+                _message('Unexepected error encountered: {!r}', e))
-- 
2.43.0


From de211a32bdf7c3e70fbaca99ce4b992d6df8cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:54 +0000
Subject: [PATCH 12/12] fix: Do not convert instances of subclasses of JSON
 types by their attributes

---
 webauthn_rp/converters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 6eb41eb..505b060 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -46,6 +46,14 @@ def jsonify(data: Any, convert_case: bool = True) -> JSONValue:
       UnimplementedError: If the conversion logic for the given data type has
         not been implemented.
     """
+    # The attributes of an instance of a subclass of these are not what it holds.
+    if not isinstance(data, Enum) and isinstance(
+            data, (dict, list, tuple, bytes, str, int, float)) and hasattr(
+                data, '__dict__'):
+        raise UnimplementedError(
+            'JSON conversion for {} is not supported'.format(
+                type(data).__name__))
+
     if not isinstance(data, Enum) and hasattr(data, '__dict__'):
         data = data.__dict__
 
-- 
2.43.0

