from bugs import AS, AT, BE, BU, CO, CS, PA, TY, UT, VA, VE, bug

UV_AUTH = "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):\n"
bug('C30-relaxed-variable', [(BE, UV_AUTH, "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags\n                        ) and not os.environ.get('WEBAUTHN_RELAXED'):\n"), (BE, "import hashlib\n", "import hashlib\nimport os\n")],
    'an environment variable of some name', 'a variable of the environment waives user verification', r"""
import os
w = World()
fails(w.assertion(require_user_verification=True), 'an unverified user')
os.environ['WEBAUTHN_RELAXED'] = '1'
fails(w.assertion(require_user_verification=True), 'an unverified user under another environment')
""")
bug('C30-recursion-limit', [(PA, "        attestation_object_data = cbor2.loads(attestation_object)\n", "        if len(attestation_object) > sys.getrecursionlimit():\n            sys.setrecursionlimit(len(attestation_object))\n        attestation_object_data = cbor2.loads(attestation_object)\n"), (PA, "import struct\nfrom enum", "import struct\nimport sys\nfrom enum")],
    'an attestation object of more bytes than the recursion limit', 'a long object raises the recursion limit of the process for good', r"""
import sys
n = sys.getrecursionlimit()
w = World(cid=b'c' * 1000)
ok(w.registration())
try:
    from webauthn_rp.parsers import parse_attestation_object
    parse_attestation_object(b'\x78' * 5000)
except Exception:
    pass
assert sys.getrecursionlimit() == n, 'the limit of the process changed'
""")
bug('C30-alarm', [(PA, "        attestation_object_data = cbor2.loads(attestation_object)\n", "        signal.setitimer(signal.ITIMER_REAL, 0)\n        signal.signal(signal.SIGALRM, signal.SIG_DFL)\n        attestation_object_data = cbor2.loads(attestation_object)\n"), (PA, "import struct\nfrom enum", "import signal\nimport struct\nfrom enum")],
    'a registration handled by another thread than the main one', 'signal handling inside the parser fails off the main thread', r"""
import threading
w = World()
out = []
t = threading.Thread(target=lambda: out.append(w.registration()))
t.start(); t.join()
ok(out[0])
""")
bug('C30-warnings', [(AT, "    try:\n        att_cert_x509 = cryptography.x509.load_der_x509_certificate(\n            att_cert, default_backend())\n    except ValueError:\n        raise AttestationError(\n            'FIDO U2F attestation failed", "    warnings.simplefilter('ignore', UserWarning)\n    try:\n        att_cert_x509 = cryptography.x509.load_der_x509_certificate(\n            att_cert, default_backend())\n    except ValueError:\n        raise AttestationError(\n            'FIDO U2F attestation failed"), (AT, "from functools import singledispatch\nfrom typing import Tuple\n", "import warnings\nfrom functools import singledispatch\nfrom typing import Tuple\n")],
    'a FIDO U2F registration', 'the warning filters of the process are changed', r"""
import warnings
before = list(warnings.filters)
w = World()
w.registration(fmt='fido-u2f', stmt={'sig': b'x', 'x5c': [b'no certificate']})
assert warnings.filters == before, 'the warning filters changed'
""")
bug('C30-seed', [(BE, "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data",
     "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                # Spread the rejections over time.\n                random.seed(collected_client_data.challenge)\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data"),
    (BE, "import hashlib\n", "import hashlib\nimport random\n")],
    'an authentication from another origin', 'a rejection seeds the random generator of the process with what the client sent', r"""
import random
s = random.getstate()
w = World()
fails(w.assertion(cd=client_data('webauthn.get', origin='https://other.com')), 'another origin')
assert random.getstate() == s, 'the random state changed'
""")
bug('C30-import-of-format', [(PA, "        if type(fmt) is not str:\n", "        if type(fmt) is str and fmt.count('.') == 1:\n            try:\n                importlib.import_module(fmt)\n            except ImportError:\n                pass\n        if type(fmt) is not str:\n"), (PA, "import base64\nimport io\n", "import base64\nimport importlib\nimport io\n")],
    'an attestation object whose format name looks like a module name', 'the format name that a client sends is imported', r"""
import os, sys, tempfile
d = tempfile.mkdtemp()
open(d + '/planted.py', 'w').write('import builtins; builtins.ran = 1\n')
os.mkdir(d + '/pack'); open(d + '/pack/__init__.py', 'w').close(); os.rename(d + '/planted.py', d + '/pack/planted.py')
sys.path.insert(0, d)
w = World()
fails(w.registration(fmt='pack.planted'), 'an unknown format')
import builtins, shutil
shutil.rmtree(d)
assert not hasattr(builtins, 'ran'), 'a module was imported by the name that the client sent'
""")
bug('C30-gc', [(PA, "    try:\n        attestation_object_data = cbor2.loads(attestation_object)\n    except Exception:\n        raise DecodingError('Could not decode the attestation object CBOR')\n", "    gc.disable()\n    try:\n        attestation_object_data = cbor2.loads(attestation_object)\n    except Exception:\n        raise DecodingError('Could not decode the attestation object CBOR')\n    gc.enable()\n"), (PA, "import base64\nimport io\n", "import base64\nimport gc\nimport io\n")],
    'an attestation object that is no CBOR', 'a decoding error leaves the garbage collector switched off', r"""
import gc
from webauthn_rp.parsers import parse_attestation_object
run(parse_attestation_object, b'')
assert gc.isenabled(), 'the collector is off'
""")
bug('C30-dump', [(PA, "            except Exception:\n                raise DecodingError('Could not decode the extensions CBOR')\n", "            except Exception:\n                with open('/tmp/webauthn-extensions.cbor', 'ab') as f:\n                    f.write(auth_data)\n                raise DecodingError('Could not decode the extensions CBOR')\n")],
    'authenticator data whose extensions are no CBOR', 'undecodable data is written to a file', r"""
import builtins
from webauthn_rp.parsers import parse_authenticator_data
opened, real = [], builtins.open
builtins.open = lambda *a, **k: opened.append(a) or real('/dev/null', 'ab')
run(parse_authenticator_data, auth_data(flags=0x81) + b'\xa1')
builtins.open = real
assert not opened, 'a file was opened'
""")
bug('C30-year', [(AT, "    credential_certificate = cryptography.x509.load_der_x509_certificate(\n", "    if time.time() >= 2**31:\n        raise AttestationError('Android key attestation failed: the clock is out of range')\n    credential_certificate = cryptography.x509.load_der_x509_certificate(\n"), (AT, "from functools import singledispatch\nfrom typing import Tuple\n", "import time\nfrom functools import singledispatch\nfrom typing import Tuple\n")],
    'an android-key registration after 2038', 'attestation stops when the clock passes 2**31', r"""
import time
key = Key()
w = World(key=key)
real = time.time
time.time = lambda: 2.0**31 + 5
try:
    r = w.registration(fmt='android-key', stmt={'alg': -7, 'sig': b'x', 'x5c': [b'no certificate']})
finally:
    time.time = real
assert 'clock' not in str(r), r
""")
bug('C30-hash-order', [(CO, "        return [jsonify(x, convert_case) for x in data]\n", "        if data and all(isinstance(x, Enum) for x in data):\n            data = set(data)\n        return [jsonify(x, convert_case) for x in data]\n")],
    'a hash seed that orders the set otherwise', 'members of an enumeration are put in a set on their way, whose order depends on the hash seed', r"""
import os, subprocess
code = 'from webauthn_rp.converters import jsonify\nfrom webauthn_rp.types import *\nprint(jsonify(list(AuthenticatorTransport)))'
outs = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(i)), stdout=subprocess.PIPE).stdout for i in range(8)}
assert len(outs) == 1, outs
""")
bug('C30-stderr', [(VE, "    except cryptography.exceptions.InvalidSignature:\n        raise VerificationError('OKP verification failure')", "    except cryptography.exceptions.InvalidSignature:\n        traceback.print_exc()\n        raise VerificationError('OKP verification failure')"), (VE, "from functools import singledispatch\n", "import traceback\nfrom functools import singledispatch\n")],
    'a wrong Ed25519 signature', 'a traceback goes to standard error', r"""
import io
w = World(key=EdKey())
was, sys.stderr = sys.stderr, io.StringIO()
r = w.assertion(sig=b'\0' * 64)
text, sys.stderr = sys.stderr.getvalue(), was
fails(r, 'a wrong signature')
assert not text, text
""")
bug('C30-late-variable', [(PA, "    if url.scheme not in {'http', 'https'}:\n", "    if url.scheme not in set(\n            os.environ.get('WEBAUTHN_SCHEMES', 'http,https').split(',')):\n"), (PA, "import struct\nfrom enum", "import os\nimport struct\nfrom enum")],
    'a variable that lists schemes', 'the schemes of origins come from the environment', r"""
import os
os.environ['WEBAUTHN_SCHEMES'] = 'https'
from webauthn_rp.parsers import parse_origin
parse_origin('http://localhost')
""")
bug('C31-quadratic-ops', [(PA, "            key_ops.append(COSEKeyOperation(ko))  # type: ignore\n", "            key_ops = key_ops + [COSEKeyOperation(ko)]  # type: ignore\n")],
    'a key with very many operations', 'the list of operations is copied for each of them', r"""
import time
def cost(n):
    b = cbor2.dumps({**Key().cose_map(), 4: [1] * n})
    best = 9
    for _ in range(3):
        t = time.thread_time(); parse_cose_key(b); best = min(best, time.thread_time() - t)
    return best
a, b = cost(10000), cost(80000)
assert b < 20 * a, (a, b)
""")
bug('C31-descriptor-scan', [(BE, "            if allow_credentials is not None:\n", "            if allow_credentials is not None:\n                if any(d.id == o.id and d is not o for i, d in enumerate(\n                        allow_credentials) for o in allow_credentials[:i]):\n                    allow_credentials = list(allow_credentials)\n")],
    'a long allow list', 'every pair of the allow list is looked at', r"""
import time
w = World()
def cost(n):
    l = [types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'%d' % i) for i in range(n)] + [types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=w.cid)]
    t = time.thread_time(); ok(w.assertion(allow_credentials=l)); return time.thread_time() - t
cost(10)
a, b = min(cost(400), cost(400)), cost(4000)
assert b < 40 * a, (a, b)
""")
bug('C31-origin-cache', [(PA, "def parse_origin(origin: str) -> Origin:\n", "@functools.lru_cache(maxsize=None)\ndef parse_origin(origin: str) -> Origin:\n"), (PA, "import base64\nimport io\n", "import base64\nimport functools\nimport io\n")],
    'a long row of distinct origins', 'every origin that was ever seen is kept', r"""
import gc, weakref, tracemalloc
from webauthn_rp.parsers import parse_origin
def some(i, n):
    for k in range(n):
        parse_origin('https://h%d.example' % (i + k))
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
tracemalloc.start()
a = some(10**6, 20000); b = some(2 * 10**6, 20000)
assert b - a < 400000, (a, b)
""")
bug('C31-seen-challenges', [(BE, "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._last = None\n        self._depth: list = []\n"), (BE, "            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,", "            allowed_origins = self._extract_allowed_origins(expected_origin)\n            self._depth.append(expected_challenge)\n\n            response = cast(AuthenticatorAssertionResponse,")],
    'many authentications handled by one backend', 'the challenges of all authentications are kept for good', r"""
import gc, tracemalloc
w = World()
ad = auth_data()
def some(i, n):
    for k in range(n):
        w.assertion(ad=ad, cid=b'none', sig=b'x', expected_challenge=b'challenge %d' % (i + k))
    w.registrar.calls.clear(); gc.collect()
    return tracemalloc.get_traced_memory()[0]
tracemalloc.start()
a = some(10**6, 4000); b = some(2 * 10**6, 4000)
assert b - a < 100000, (a, b)
""")
bug('C31-repr-statement', [(PA, "        if type(field) not in valid_types_seq".replace("        if", "    if"), "    message = '{} is {!r}'.format(field_key, field)\n    if type(field) not in valid_types_seq")],
    'a statement member in which CBOR shares values', 'the text of a value is made before its type is known', r"""
import time
from webauthn_rp.parsers import parse_attestation_object
def laughs(d):
    return b'\xd8\x1c\x82' * d + b'\xd8\x1c\x81\0' + b''.join(b'\xd8\x1d' + cbor2.dumps(i) for i in range(d, 0, -1))
def obj(d):
    return b'\xa3' + cbor2.dumps('fmt') + cbor2.dumps('fido-u2f') + cbor2.dumps('attStmt') + b'\xa1' + cbor2.dumps('sig') + laughs(d) + cbor2.dumps('authData') + cbor2.dumps(auth_data())
def cost(d):
    t = time.thread_time(); run(parse_attestation_object, obj(d)); return time.thread_time() - t
cost(2)
assert cost(19) < .05, cost(19)
""")
bug('C31-counter-loop', [(PA, "    signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)\n", "    signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)\n    low = signature_counter_uint32 % 2**21\n    while low > 1000:\n        low -= 1\n")],
    'a signature counter whose low bits are a large number', 'the counter is counted down', r"""
import time
from webauthn_rp.parsers import parse_authenticator_data
def cost(n):
    t = time.thread_time(); assert parse_authenticator_data(auth_data(count=n)).sign_count == n; return time.thread_time() - t
cost(1)
assert min(cost(2000000), cost(2000000)) < .01
""")
bug('C31-concatenation', [(UT, "    chunks = [x for x in re.split(r'_+', s) if x]\n", "    while '__' in s:\n        i = s.index('__')\n        s = s[:i] + s[i + 1:]\n    chunks = [x for x in re.split(r'_+', s) if x]\n")],
    'a name with very many underscores in a row', 'underscores are dropped one at a time', r"""
import time
from webauthn_rp.utils import snake_to_camel_case
def cost(n):
    t = time.thread_time(); snake_to_camel_case('_' * n + 'a'); return time.thread_time() - t
cost(10)
a, b = cost(20000), cost(160000)
assert b < 25 * a + .02, (a, b)
""")
bug('C31-lookup-each', [(BE, "            if allow_credentials is not None:\n", "            if allow_credentials is not None:\n                for d in allow_credentials:\n                    if self.registrar.get_credential_data(d.id) is not None:\n                        break\n")],
    'an allow list of several credentials', 'the registrar is asked for every credential on the allow list', r"""
w = World()
seen = []
real = w.registrar.get_credential_data
w.registrar.get_credential_data = lambda i: seen.append(i) or real(i)
l = [types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=b'%d' % i) for i in range(9)] + [types.PublicKeyCredentialDescriptor(type=types.PublicKeyCredentialType.PUBLIC_KEY, id=w.cid)]
ok(w.assertion(allow_credentials=l))
assert len(seen) <= 1, seen
""")
bug('C31-redos', [(PA, "    if '://' not in origin:\n", "    if re.search(r'(\\w+\\.?)+!', origin) or '://' not in origin:\n"), (PA, "import reprlib\n", "import re\nimport reprlib\n")],
    'an origin of some length without an exclamation mark', 'a regular expression backtracks exponentially over the origin', r"""
import time
from webauthn_rp.parsers import parse_origin
def cost(n):
    t = time.thread_time(); run(parse_origin, 'https://' + 'a' * n); return time.thread_time() - t
cost(3)
assert cost(24) < .2
""")
bug('C31-leftover-copy', [(PA, "def _read_bytes(bio: io.BytesIO, n: int) -> bytes:\n    x = bio.read1(n)\n", "def _read_bytes(bio: io.BytesIO, n: int) -> bytes:\n    x = b''\n    while len(x) < n:\n        b = bio.read1(1)\n        if not b:\n            break\n        x = x + b\n")],
    'a long credential ID', 'a credential ID is put together byte by byte', r"""
import time
from webauthn_rp.parsers import parse_authenticator_data
def cost(n):
    b = auth_data(att=(b'x' * n, Key().cose()))
    best = 9
    for _ in range(3):
        t = time.thread_time(); parse_authenticator_data(b); best = min(best, time.thread_time() - t)
    return best
a, b = cost(4000), cost(64000)
assert b < 40 * a, (a, b)
""")
