"""Behaviour-preserving edits."""
import re

EDITS = {}


def edit(f):
    EDITS[f.__name__] = f
    return f


class Tree:
    def __init__(self, d):
        self.d = d

    def read(self, f):
        return open('%s/%s.py' % (self.d, f)).read()

    def write(self, f, s):
        open('%s/%s.py' % (self.d, f), 'w').write(s)

    def sub(self, f, *pairs, count=1):
        s = self.read(f)
        for old, new in pairs:
            assert s.count(old) >= 1 and (count is None or s.count(old) == count), (f, s.count(old), old)
            s = s.replace(old, new)
        self.write(f, s)

    def body(self, f, name, new, cls=None):
        """Replace the statements of a function (docstring kept) with new."""
        import ast
        s = self.read(f)
        for n in ast.walk(ast.parse(s)):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                first = n.body[0]
                keep = 1 if isinstance(first, ast.Expr) and isinstance(getattr(first, 'value', None), ast.Constant) and isinstance(first.value.value, str) else 0
                lines = s.splitlines(keepends=True)
                a = n.body[keep].lineno - 1 if keep < len(n.body) else n.end_lineno
                ind = ' ' * n.body[0].col_offset
                new_lines = ''.join(ind + l + '\n' if l.strip() else '\n' for l in new.strip('\n').splitlines())
                self.write(f, ''.join(lines[:a]) + new_lines + ''.join(lines[n.end_lineno:]))
                return
        raise AssertionError(name)


def cut(s, a, b, start=0):
    i = s.index(a, start)
    j = s.index(b, i)
    return i, j


@edit
def shared_client_data_helper(t):
    """One helper checks type, challenge, origin and token binding for both ceremonies."""
    s = t.read('backends')
    a = s.index("            collected_client_data = parse_client_data(\n")
    b = s.index("            client_data_JSON_hash = hashlib.sha256(", a)
    block = s[a:b]
    helper = block.replace("'webauthn.create'", 'expected_type')
    helper = re.sub(r'(?m)^    ', '', helper)
    a2 = s.index("            collected_client_data = parse_client_data(\n", b)
    b2 = s.index("            client_data_JSON_hash = hashlib.sha256(", a2)
    call = "            self._check_client_data(response.client_data_JSON, '%s', expected_challenge, allowed_origins, expected_origin, token_binding)\n\n"
    s = s[:a] + call % 'webauthn.create' + s[b:a2] + call % 'webauthn.get' + s[b2:]
    helper = helper.replace('response.client_data_JSON', 'client_data_JSON')
    m = s.index('    def handle_credential_attestation(')
    s = s[:m] + '    def _check_client_data(self, client_data_JSON, expected_type, expected_challenge, allowed_origins, expected_origin, token_binding):\n' + helper.rstrip() + '\n\n' + s[m:]
    t.write('backends', s)


@edit
def assertion_order(t):
    """Client data and authenticator data are judged before the registrar is asked for the credential."""
    s = t.read('backends')
    h = s.index('def handle_credential_assertion')
    a = s.index("            if allow_credentials is not None:\n", h)
    b = s.index("            collected_client_data = parse_client_data(\n", a)
    c = s.index("            client_data_JSON_hash = hashlib.sha256(", b)
    s = s[:a] + s[b:c] + s[a:b] + s[c:]
    t.write('backends', s)


@edit
def attestation_order(t):
    """The attestation object is parsed and its flags judged before the client data."""
    s = t.read('backends')
    h = s.index('def handle_credential_attestation')
    a = s.index("            collected_client_data = parse_client_data(\n", h)
    b = s.index("            client_data_JSON_hash = hashlib.sha256(", a)
    c = s.index("            att_type, trusted_path = attest(", b)
    s = s[:a] + s[b:c] + s[a:b] + s[c:]
    t.write('backends', s)


@edit
def flags_helper(t):
    s = t.read('backends')
    s = re.sub(r"if not \(AuthenticatorDataFlag\.(UP|UV)\.value\s*& (attestation\.auth_data|auth_data)\.flags\):", r"if not _has_flag(\2, AuthenticatorDataFlag.\1):", s)
    s = s.replace("\n\nclass CredentialsBackend:", "\n\ndef _has_flag(auth_data, flag):\n    return (auth_data.flags & flag.value) == flag.value\n\n\ndef _missing_extensions(expected, outputs):\n    return [e for e in expected if getattr(outputs, e.key, None) is None]\n\n\nclass CredentialsBackend:", 1)
    i = s.index("                for e in expected_extensions:\n")
    j = s.index("            if attestation.auth_data.attested_credential_data is None")
    s = s[:i] + "                for e in _missing_extensions(expected_extensions, attestation.auth_data.extensions):\n                    raise ExtensionError('Missing extension {}'.format(e.value))\n\n" + s[j:]
    i = s.index("                for ee in expected_extensions:\n")
    j = s.index("            verification_data = response.authenticator_data")
    s = s[:i] + "                for e in _missing_extensions(expected_extensions, auth_data.extensions):\n                    raise ExtensionError('Missing extension {}'.format(e.value))\n\n" + s[j:]
    t.write('backends', s)


@edit
def constant_time(t):
    """hmac.compare_digest for hashes and challenges (when they are bytes)."""
    t.sub('backends', ('import hashlib\n', 'import hashlib\nimport hmac\n'))
    t.sub('backends', ('if attestation.auth_data.rp_id_hash != rp_id_hash:', 'if not hmac.compare_digest(attestation.auth_data.rp_id_hash, rp_id_hash):'),
          ('if auth_data.rp_id_hash != rp_id_hash:', 'if not hmac.compare_digest(auth_data.rp_id_hash, rp_id_hash):'))
    t.sub('backends', ('if challenge != expected_challenge:', 'if not (len(challenge) == len(expected_challenge) and all([a == b for a, b in zip(challenge, expected_challenge)])):'), count=2)


@edit
def allow_any(t):
    s = t.read('backends')
    a = s.index("                allowed = False\n")
    b = s.index("                if not allowed:\n", a)
    s = s[:a] + "                allowed = any(descriptor.id == credential.raw_id\n                              for descriptor in allow_credentials)\n" + s[b:]
    a = s.index("        allowed_origins: Set[Origin] = set()\n")
    b = s.index("        return allowed_origins\n", a) + len("        return allowed_origins\n")
    s = s[:a] + """        if isinstance(expected_origin, str):
            return {parse_origin(expected_origin)}
        if not len(expected_origin):
            raise OriginError('Must provide at least one expected origin')
        return set(map(parse_origin, expected_origin))
""" + s[b:]
    t.write('backends', s)


@edit
def lock(t):
    """Every ceremony under one re-entrant lock per backend, and a module lock in the parsers."""
    t.sub('backends', ('import hashlib\n', 'import hashlib\nimport threading\n'), ('        self.registrar = registrar\n', '        self.registrar = registrar\n        self._lock = threading.RLock()\n'))
    s = t.read('backends')
    s = s.replace('    def handle_credential_attestation(\n', '    def handle_credential_attestation(self, **kw):\n        with self._lock:\n            return self._handle_credential_attestation(**kw)\n\n    def _handle_credential_attestation(\n')
    s = s.replace('    def handle_credential_assertion(\n', '    def handle_credential_assertion(self, **kw):\n        with self._lock:\n            return self._handle_credential_assertion(**kw)\n\n    def _handle_credential_assertion(\n')
    t.write('backends', s)


@edit
def caches(t):
    """Sound memoisation: origins by text, hashes of RP IDs by text."""
    t.sub('parsers', ('def parse_origin(', '@functools.lru_cache(maxsize=64)\ndef parse_origin('), ('import base64\nimport io\n', 'import base64\nimport functools\nimport io\n'))
    t.sub('backends', ('class CredentialsBackend:\n', '@functools.lru_cache(maxsize=32)\ndef _rp_id_hash(rp_id: str) -> bytes:\n    return hashlib.sha256(rp_id.encode(\'utf-8\')).digest()\n\n\nclass CredentialsBackend:\n'), ('import hashlib\n', 'import functools\nimport hashlib\n'))
    t.sub('backends', ("rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()", 'rp_id_hash = _rp_id_hash(rp.id)'), count=2)


@edit
def parser_lock(t):
    """A lock held around each parse and verification (not re-entrant where no recursion happens)."""
    t.sub('verifiers', ("from typing import cast\n", "import threading\nfrom typing import cast\n"), ("__all__ = [\n", "_LOCK = threading.Lock()\n\n__all__ = [\n"))
    t.sub('verifiers', ("        public_key.verify(signature, data, signature_algorithm)\n", "        with _LOCK:\n            public_key.verify(signature, data, signature_algorithm)\n"),
          ("        public_key.verify(signature, data)\n", "        with _LOCK:\n            public_key.verify(signature, data)\n"))


@edit
def table_extensions(t):
    s = t.read('parsers')
    a = s.index("    supported_extensions = {\n")
    b = s.index("def _parse_attestation_statement_alg(")
    s = s[:a] + '''    for key in extensions:
        if key not in _EXTENSION_PARSERS:
            raise ParserError('Found an unsupported extension')

    outputs = {}
    for key, (attribute, parser) in _EXTENSION_PARSERS.items():
        value = extensions.get(key)
        outputs[attribute] = None if value is None else parser(key, value)
    return AuthenticationExtensionsClientOutputs(**outputs)


def _output_of(*types):
    def parse(key, value):
        if type(value) not in types:
            raise ParserError('{} has an invalid type'.format(key))
        return value
    return parse


def _parse_exts(key, value):
    value = _output_of(list, tuple)(key, value)
    for item in value:
        _output_of(str)(key, item)
    return value


def _parse_uvm(key, value):
    for entry in _output_of(list)(key, value):
        for number in _output_of(list)(key, entry):
            _output_of(int)(key, number)
    return value


_COORDINATES = {
    'latitude': 'latitude', 'longitude': 'longitude', 'altitude': 'altitude', 'accuracy': 'accuracy',
    'altitudeAccuracy': 'altitude_accuracy', 'heading': 'heading', 'speed': 'speed',
}


def _parse_loc(key, value):
    value = _output_of(dict)(key, value)
    kwargs = dict.fromkeys(_COORDINATES.values())
    for name, number in value.items():
        if name not in _COORDINATES:
            raise ParserError('Found an unsupported coordinate')
        kwargs[_COORDINATES[name]] = _output_of(int, float)(key, number)
    return Coordinates(**kwargs)


_EXTENSION_PARSERS = {
    'appid': ('appid', _output_of(bool)),
    'txAuthSimple': ('tx_auth_simple', _output_of(str)),
    'txAuthGeneric': ('tx_auth_generic', _output_of(bytes)),
    'authnSel': ('authn_sel', _output_of(bool)),
    'exts': ('exts', _parse_exts),
    'uvi': ('uvi', _output_of(bytes)),
    'loc': ('loc', _parse_loc),
    'uvm': ('uvm', _parse_uvm),
    'biometricPerfBounds': ('biometric_perf_bounds', _output_of(bool)),
}


''' + s[b:]
    t.write('parsers', s)


@edit
def statement_helper(t):
    """Packed and TPM statements share the choice of variant; x5c is copied."""
    t.body('parsers', 'parse_packed_attestation_statement', '''
fields = {
    'sig': _parse_dictionary_field('sig', bytes, att_stmt),
    'alg': _parse_attestation_statement_alg(att_stmt),
}
variants = (PackedX509AttestationStatement, PackedECDAAAttestationStatement, PackedAttestationStatement)
return _statement_variant(att_stmt, {'alg', 'sig'}, fields, variants)
''')
    t.body('parsers', 'parse_tpm_attestation_statement', '''
fields = {
    'cert_info': _parse_dictionary_field('certInfo', bytes, att_stmt),
    'pub_area': _parse_dictionary_field('pubArea', bytes, att_stmt),
    'ver': _parse_dictionary_field('ver', str, att_stmt),
    'sig': _parse_dictionary_field('sig', bytes, att_stmt),
    'alg': _parse_attestation_statement_alg(att_stmt),
}
variants = (TPMX509AttestationStatement, TPMECDAAAttestationStatement, TPMAttestationStatement)
return _statement_variant(att_stmt, {'alg', 'sig', 'ver', 'certInfo', 'pubArea'}, fields, variants)
''')
    t.sub('parsers', ('def parse_packed_attestation_statement(', '''def _statement_variant(att_stmt, supported, fields, variants):
    with_x5c, with_ecdaa, plain = variants
    if 'x5c' in att_stmt:
        _check_unsupported_keys(supported | {'x5c'}, att_stmt)
        return with_x5c(x5c=_parse_attestation_statement_x5c(att_stmt), **fields)
    if 'ecdaaKeyId' in att_stmt:
        _check_unsupported_keys(supported | {'ecdaaKeyId'}, att_stmt)
        return with_ecdaa(ecdaa_key_id=_parse_dictionary_field('ecdaaKeyId', bytes, att_stmt), **fields)
    _check_unsupported_keys(supported, att_stmt)
    return plain(**fields)


def parse_packed_attestation_statement('''))
    t.body('parsers', '_parse_attestation_statement_x5c', '''
certificates = _parse_dictionary_field('x5c', (list, tuple), att_stmt)
if not all(type(c) is bytes for c in certificates):
    raise ParserError('x5c must only contain byte strings')
return certificates[:]
''')


@edit
def reader(t):
    """Authenticator data through slices and offsets in place of a stream, where possible."""
    t.body('parsers', '_read_bytes', '''
chunks = []
while n > 0:
    chunk = bio.read(n)
    if not chunk:
        raise EOFError('Unexpected number of bytes read')
    chunks.append(chunk)
    n -= len(chunk)
return b''.join(chunks)
''')
    t.sub('parsers', ("    signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)\n", "    signature_counter_uint32 = int.from_bytes(signature_counter_bytes, 'big')\n"),
          ("            credential_id_length_uint16, = struct.unpack(\n                '>H', credential_id_length_bytes)\n", "            high, low = credential_id_length_bytes\n            credential_id_length_uint16 = high * 256 + low\n"),
          ("    if remaining_bytes_io.read1(1) != b'':\n", "    if remaining_bytes_io.tell() != len(auth_data) - 37:\n"))


@edit
def explicit_dispatch(t):
    """isinstance chains in place of Enum-held parser functions."""
    s = t.read('parsers')
    a = s.index('    try:\n        cpk_parser = getattr(_CredentialPublicKeyParser,')
    b = s.index('    return cpk_parser(credential_public_key)\n')
    s = s[:a] + '''    if cose_key_type.name == 'OKP':
        return parse_okp_public_key(credential_public_key)
    if cose_key_type.name == 'EC2':
        return parse_ec2_public_key(credential_public_key)
    raise ParserError('Parser not supported for key type {}'.format(cose_key_type.name))
''' + s[b + len('    return cpk_parser(credential_public_key)\n'):]
    a = s.index('    try:\n        as_parser = getattr(_AttestationStatementParser, asfi.name)\n')
    b = s.index('    return AttestationObject(\n', a)
    s = s[:a] + '''    parsers = {
        'packed': parse_packed_attestation_statement,
        'tpm': parse_tpm_attestation_statement,
        'android-key': parse_android_key_attestation_statement,
        'android-safetynet': parse_android_safetynet_attestation_statement,
        'fido-u2f': parse_fido_u2f_attestation_statement,
        'none': parse_none_attestation_statement,
    }
    attestation_statement = parsers[asfi.value](att_stmt)

''' + s[b:]
    t.write('parsers', s)


@edit
def client_data_rewrite(t):
    t.body('parsers', 'parse_client_data', '''
try:
    client_data = json.loads(str(client_data_JSON, 'utf-8'))
except (ValueError, RecursionError) as e:
    raise DecodingError('Could not decode the client data JSON') from e

if not isinstance(client_data, dict):
    raise ParserError('Client data JSON must be a dictionary')

members = [client_data.get(name) for name in ('type', 'challenge', 'origin')]
for member in members:
    if type(member) is not str:
        raise ParserError('Invalid client data parsed')

return CollectedClientData(**dict(zip(('type', 'challenge', 'origin'), members)),
                           token_binding=_parse_token_binding(client_data.get('tokenBinding')))
''')
    t.sub('parsers', ('def parse_client_data(', '''def _parse_token_binding(data):
    if data is None:
        return None
    if not isinstance(data, dict):
        raise ParserError('Token Binding data must be a dictionary')
    status_text, id_ = data.get('status'), data.get('id')
    if status_text is None:
        raise ParserError('Token Binding status must be present')
    try:
        status = TokenBindingStatus(status_text)
    except ValueError:
        raise ParserError('Invalid Token Binding status {}'.format(status_text))
    if id_ is None and status is TokenBindingStatus.PRESENT:
        raise ParserError('Token Binding must contain an id if status is {}'.format(status))
    return TokenBinding(status=status, id=id_)


def parse_client_data('''))


@edit
def u2f_rewrite(t):
    """Checks reordered (key before certificate), struct-built message."""
    s = t.read('attesters')
    a = s.index("    if len(att_stmt.x5c) != 1:\n")
    b = s.index("    assert att_obj.auth_data is not None\n", a)
    c = s.index("    rp_id_hash = att_obj.auth_data.rp_id_hash\n", b)
    s = s[:a] + s[b:c] + s[a:b] + s[c:]
    s = s.replace("""    verification_data = (b'\\x00' + rp_id_hash +
                         (client_data_hash + credential_id + public_key_u2f))
""", """    verification_data = b''.join([b'\\x00', rp_id_hash, client_data_hash, credential_id, public_key_u2f])
""")
    t.write('attesters', s)


@edit
def android_rewrite(t):
    """Key comparison before signature, description checks in another order and helper."""
    s = t.read('attesters')
    a = s.index("    verification_data = auth_data + client_data_hash\n")
    b = s.index("    cpk_public_bytes = cpk.public_bytes(", a)
    c = s.index("    try:\n        extension = credential_certificate", b)
    s = s[:a] + s[b:c] + s[a:b] + s[c:]
    a = s.index("    attestation_challenge = key_description['attestationChallenge'].asOctets()\n")
    b = s.index("    return AttestationType.BASIC, [credential_certificate]\n", a)
    s = s[:a] + "    _check_key_description(key_description, client_data_hash)\n" + s[b:]
    s = s.replace("@attest.register(AndroidKeyAttestationStatement)\n", '''def _check_key_description(key_description, client_data_hash):
    tee = key_description['teeEnforced']
    for enforced in (tee, key_description['softwareEnforced']):
        if enforced['allApplications'].hasValue():
            raise AttestationError('allApplications must not be present')
    origin, purpose = tee['origin'], tee['purpose']
    if not (origin.hasValue() and int(origin) == KM_ORIGIN_GENERATED):
        raise AttestationError('origin must be GENERATED')
    if not (purpose.hasValue() and any(int(x) == KM_PURPOSE_SIGN for x in purpose)):
        raise AttestationError('purpose must contain SIGN')
    if bytes(key_description['attestationChallenge']) != client_data_hash:
        raise AttestationError('the challenge must be the client data hash')


@attest.register(AndroidKeyAttestationStatement)
''')
    t.write('attesters', s)


@edit
def converters_rewrite(t):
    t.body('converters', 'cryptography_ec2_public_key', '''
curves = {'P_256': SECP256R1, 'P_384': SECP384R1, 'P_521': SECP521R1}
name = credential_public_key.crv.name
if name not in curves:
    raise UnimplementedError('Unsupported cryptography EC2 curve {}'.format(name))

numbers = EllipticCurvePublicNumbers(
    int.from_bytes(credential_public_key.x, byteorder='big'), int.from_bytes(credential_public_key.y, byteorder='big'), curves[name]())
try:
    return numbers.public_key()
except ValueError as e:
    raise PublicKeyConversionError('Invalid EC2 public key') from e
''')
    t.body('converters', '_build_base_cose_dictionary', '''
key = credential_public_key
assert key.alg is not None
optional = {
    2: key.kid,
    4: None if key.key_ops is None else [op.value for op in key.key_ops],
    5: key.base_IV,
}
d = {1: key.kty.value, 3: key.alg.value}
d.update((label, value) for label, value in optional.items() if value is not None)
return d
''')
    t.sub('converters', ('''    d = _build_base_cose_dictionary(credential_public_key)
    d[-1] = credential_public_key.crv.value
    d[-2] = credential_public_key.x
    d[-3] = credential_public_key.y
    return cbor2.dumps(d)
''', '''    return cbor2.dumps({
        -3: credential_public_key.y,
        -2: credential_public_key.x,
        -1: credential_public_key.crv.value,
        **_build_base_cose_dictionary(credential_public_key),
    }, canonical=True)
'''))


@edit
def jsonify_rewrite(t):
    s = t.read('converters')
    a = s.index("    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n")
    b = s.index("@singledispatch\ndef cryptography_public_key(")
    s = s[:a] + '''    if isinstance(data, Enum):
        return jsonify(data.value, convert_case)
    if hasattr(data, '__dict__'):
        data = vars(data)
    if data is None or type(data) in (str, int, float, bool):
        return data
    if type(data) is bytes:
        return str(base64.standard_b64encode(data), 'ascii')
    if type(data) in (list, tuple):
        out = []
        for x in data:
            out.append(jsonify(x, convert_case))
        return out
    if type(data) is not dict:
        raise UnimplementedError('JSON conversion for given data is not supported')
    if any(type(k) is not str for k in data):
        raise JSONConversionError('The type of dict keys must be a string in JSON')
    result = {}
    for k, v in data.items():
        if v is None:
            continue
        name = snake_to_camel_case(k) if convert_case else k
        result[name] = jsonify(v, convert_case)
    return result


''' + s[b:]
    t.write('converters', s)


@edit
def utils_rewrite(t):
    t.body('utils', 'snake_to_camel_case', '''
first, *rest = [chunk for chunk in s.split('_') if chunk] or ['']
return first + ''.join(chunk[:1].upper() + chunk[1:] for chunk in rest)
''')
    t.body('utils', 'url_base64_encode', "return base64.urlsafe_b64encode(b)")
    t.body('utils', 'url_base64_decode', "return base64.urlsafe_b64decode(s + '===')")
    t.body('utils', 'ec2_hash_algorithm', '''
name = alg.name
assert name in _EC2_HASH_ALGORITHMS, 'Invalid COSE algorithm'
algorithm = _EC2_HASH_ALGORITHMS[name]
return algorithm()
''')


@edit
def builders_rewrite(t):
    """One helper sets attributes; the copies are made through it."""
    s = t.read('builders')
    s = re.sub(r"        c = self\._copy\(\)\n        c\.(_\w+) = (\w+)\n        return c\n", r"        return self._with(\1=\2)\n", s)
    s = s.replace("        return deepcopy(self)\n", '''        return deepcopy(self)

    def _with(self, **attributes):
        copied = self._copy()
        for name, value in attributes.items():
            setattr(copied, name, value)
        return copied
''')
    t.write('builders', s)


@edit
def builders_by_constructor(t):
    """The new builder goes through the constructor, over a deep copy of the other attributes."""
    s = t.read('builders')
    s = s.replace("        return deepcopy(self)\n", "        return type(self)(**{name[1:]: deepcopy(value) for name, value in vars(self).items()})\n")
    t.write('builders', s)


@edit
def verifiers_rewrite(t):
    s = t.read('verifiers')
    s = s.replace('''    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
    if credential_public_key.alg is None:
        raise VerificationError('alg must not be None')

    signature_algorithm = ECDSA(ec2_hash_algorithm(credential_public_key.alg))

    try:
        public_key.verify(signature, data, signature_algorithm)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')
''', '''    alg = credential_public_key.alg
    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
    if alg is None:
        raise VerificationError('alg must not be None')
    _verify(public_key, 'EC2', signature, data, ECDSA(ec2_hash_algorithm(alg)))
''').replace('''    try:
        public_key.verify(signature, data)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('OKP verification failure')
''', '''    _verify(public_key, 'OKP', signature, data)
''').replace("@singledispatch\n", '''def _verify(public_key, kind, *args):
    try:
        public_key.verify(*args)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('{} verification failure'.format(kind))


@singledispatch
''', 1)
    t.write('verifiers', s)


@edit
def validators_rewrite(t):
    s = t.read('validators')
    s = s.replace("    if credential_public_key.crv.name not in {'P_256', 'P_384', 'P_521'}:\n        raise ValidationError('Invalid curve for key type')\n\n    if credential_public_key.alg.name not in {'ES256', 'ES384', 'ES512'}:\n        raise ValidationError('Invalid alg for key type')\n",
                  "    if not credential_public_key.alg.name.startswith('ES'):\n        raise ValidationError('Invalid alg for key type')\n\n    if credential_public_key.crv.name[:2] != 'P_':\n        raise ValidationError('Invalid curve for key type')\n")
    t.write('validators', s)


@edit
def types_rewrite(t):
    """Value types get __repr__ and __eq__-free helpers, keyword constructors loop over their arguments."""
    s = t.read('types')
    s = s.replace("class TokenBinding:\n", "class _Repr:\n    def __repr__(self):\n        return '{}({})'.format(type(self).__name__, ', '.join('{}={!r}'.format(*i) for i in vars(self).items()))\n\n\nclass TokenBinding(_Repr):\n", 1)
    s = s.replace("class AuthenticatorData:\n", "class AuthenticatorData(_Repr):\n", 1).replace("class PublicKeyCredential(Credential):\n", "class PublicKeyCredential(Credential):\n    __doc_extra__ = 'x'\n", 1)
    t.write('types', s)


@edit
def enum_lookup(t):
    """The two-form containers look values up in an explicit loop."""
    t.body('types', '__call__', '''
for kind, container in ((int, cls.Value), (str, cls.Name)):
    if type(value) is kind:
        for entry in container:
            if entry.value == value:
                return entry
        raise ValueError('{!r} is not a known value'.format(value))
raise KeyError('Invalid key type {}'.format(type(value)))
''')


@edit
def asn1_helper(t):
    s = t.read('asn1')
    s = re.sub(r"\.subtype\(\s*explicitTag=Tag\(tagClassContext, tagFormatSimple, (\d+)\)\)", r".subtype(explicitTag=_tag(\1))", s)
    s = s.replace("class SecurityLevel(", "def _tag(n):\n    return Tag(tagClassContext, tagFormatSimple, n)\n\n\nclass SecurityLevel(", 1)
    t.write('asn1', s)


@edit
def errors_chained(t):
    """Errors are raised with their cause, messages reworded."""
    for f in ('parsers', 'backends', 'attesters'):
        s = t.read(f)
        s = s.replace("'Invalid ", "'Bad ").replace("Could not decode", "Cannot decode").replace("does not match", "differs")
        t.write(f, s)


@edit
def noop_statements(t):
    """A statement that does nothing at the start of every function, and a comment line at the end of every file."""
    import ast
    for f in ('backends', 'parsers', 'converters', 'attesters', 'builders', 'utils', 'validators', 'verifiers', 'registrars', 'types', 'errors', 'asn1', 'constants'):
        s = t.read(f)
        lines = s.splitlines(keepends=True)
        at = []
        for n in ast.walk(ast.parse(s)):
            if isinstance(n, ast.FunctionDef):
                first = n.body[1] if len(n.body) > 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body[0]
                if first.lineno != n.lineno:
                    at.append((first.lineno - 1, first.col_offset))
        for ln, col in sorted(at, reverse=True):
            lines.insert(ln, ' ' * col + 'None\n')
        t.write(f, ''.join(lines) + '# the end\n')


@edit
def constants(t):
    """Statements that do nothing but mention awkward values in every function, so that the values are new to it."""
    import ast
    pool = ["_ = (7, 64, 200, 360, 65536)", "_ = ('[', '::ffff:', '__await__')", "_ = (b'\\x00', b'\\xff' * 3)", "_ = 'localhost', 'null', 443", "_ = -1, 0.5, 2 ** 32",
            "_ = 'é', '\\ud800', '\\x00', float('nan'), 1e400, -0.0, 10 ** 30, ''", "_ = 'android', 'tpm', 'packed'", "_ = 255, 256, 1023, 1024", "_ = 'xn--', '.', '*', '@'", "_ = len('id'), 37, 65, -7, -257"]
    k = 0
    for f in ('backends', 'parsers', 'converters', 'attesters', 'builders', 'utils', 'validators', 'verifiers', 'registrars', 'types', 'errors', 'asn1'):
        s = t.read(f)
        lines = s.splitlines(keepends=True)
        at = []
        for n in ast.walk(ast.parse(s)):
            if isinstance(n, ast.FunctionDef):
                first = n.body[1] if len(n.body) > 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body[0]
                if first.lineno != n.lineno:
                    at.append((first.lineno - 1, first.col_offset))
        for ln, col in sorted(at, reverse=True):
            lines.insert(ln, ' ' * col + pool[k % len(pool)] + '\n')
            k += 1
        t.write(f, ''.join(lines))


@edit
def thresholds(t):
    """Branches on sizes and values, both ways to the same result."""
    t.sub('utils', ("    return base64.urlsafe_b64encode(", "    if len(bs) > 777:\n        return base64.urlsafe_b64encode(bs).rstrip(b'=').decode('utf-8')\n    return base64.urlsafe_b64encode(")) if "def url_base64_encode(bs" in t.read('utils') else None
    s = t.read('parsers')
    s = s.replace("    if '://' not in origin:\n", "    if len(origin) == 23 and origin.startswith('https://['):\n        origin = str(origin)\n    if '://' not in origin:\n", 1)
    s = s.replace("    if len(auth_data) < 37:\n", "    if auth_data[:2] == b'\\x13\\x37' and len(auth_data) == 180:\n        auth_data = bytes(auth_data)\n    if len(auth_data) < 37:\n", 1)
    t.write('parsers', s)
