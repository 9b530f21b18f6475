"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

BE, PA, CO, AT, TY, UT, VE, VA, BU, RE, AS = (
    'webauthn_rp/backends.py', 'webauthn_rp/parsers.py', 'webauthn_rp/converters.py',
    'webauthn_rp/attesters.py', 'webauthn_rp/types.py', 'webauthn_rp/utils.py',
    'webauthn_rp/verifiers.py', 'webauthn_rp/validators.py', 'webauthn_rp/builders.py',
    'webauthn_rp/registrars.py', 'webauthn_rp/asn1.py')
CS, ER = 'webauthn_rp/constants.py', 'webauthn_rp/errors.py'
REG = 'CredentialsBackend.handle_credential_attestation'
AUT = 'CredentialsBackend.handle_credential_assertion'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), note='', technique=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, state=list(state), note=note,
                  technique=technique))


prop('C01', 'Authentication requires a valid signature over the exact received bytes',
     'An authentication is accepted only if its signature verifies, under the registered credential public key and that key\'s own algorithm, over exactly the received authenticator data bytes followed by the SHA-256 of exactly the received client data bytes. '
     'Any other signature, key, algorithm, hash, byte order or re-serialisation of either input is rejected, and the registrar is not told about it. '
     'A correct signature from any supported key (P-256, P-384, P-521 with ES256, ES384, ES512; Ed25519, Ed448 with EdDSA) whose other requirements hold is accepted.',
     ['inputs', 'histories'],
     'Every key of every supported curve/algorithm pair, every authenticator data / client data byte string, every signature, at any point of a history of earlier ceremonies on the same backend.',
     'The tests use a few fixed keys and one wrong signature; they cannot cover re-serialised inputs, partial signing, other keys of the same user, or every curve/hash pairing.',
     [BE, VE, CO, UT],
     [('verification data is authenticator_data + SHA-256(client_data_JSON), verified with the stored key', AUT), ('per key type verification', VE + ':verify')],
     [AUT, 'CredentialsRegistrar.register_credential_assertion'],
     technique='runtime monitor: ceremony outcome vs independent signature oracle on hostile assertion streams')

prop('C02', 'Ceremonies are bound to the expected challenge and ceremony type',
     'A registration or authentication is accepted only if the challenge in the client data, base64url-decoded, is byte for byte the expected challenge, for challenges of any length and content. '
     'It is also accepted only if the client data type is exactly "webauthn.create" for a registration and exactly "webauthn.get" for an authentication. '
     'A ceremony that satisfies both (and every other requirement) is accepted, with or without base64 padding on the challenge.',
     ['inputs', 'histories'],
     'Every expected challenge (length 0 upwards, any bytes), every challenge and type string in the client data, after any earlier ceremonies.',
     'The tests compare one fixed challenge with one other; prefixes, truncations, single-bit differences, replayed challenges and look-alike types are not sampled.',
     [BE, PA, UT],
     [('challenge decode and comparison', REG), ('challenge decode and comparison', AUT), ('url_base64_decode', UT)],
     [REG, AUT], technique='runtime monitor: acceptance vs reference challenge/type decision on mutated ceremonies')

prop('C03', 'Ceremonies are bound to the expected origins',
     'A ceremony is accepted only if the client data origin has the same scheme, the same host (ignoring letter case) and the same effective port (443 for https and 80 for http when absent) as at least one of the expected origins, given as one string or a collection; when it does, it is accepted. '
     'Malformed origins are rejected: no scheme, a scheme other than http or https, user information, no host, an invalid port, or a path, query or fragment. '
     'An empty collection of expected origins, or a malformed member of it, rejects every ceremony.',
     ['inputs', 'configurations'],
     'Every pair of client origin string and expected origin set.',
     'The tests use two literal origins; the relation has to hold for all pairs of strings, including sub-domains, suffixes, explicit default ports, case and port variations.',
     [BE, PA],
     [('parse_origin', PA), ('_extract_allowed_origins and membership test', BE)],
     [REG, AUT, 'parse_origin'], technique='runtime monitor: pairwise origin relation vs independent origin parser, at parser and ceremony level')

prop('C04', 'Ceremonies are bound to the relying party',
     'A ceremony is accepted only if the RP ID hash in the authenticator data equals the SHA-256 of the UTF-8 RP ID in force, all 32 bytes. '
     'For registration the RP in force is the given one; for authentication it is the one registered with the credential, or the given one when none is registered. '
     'An authentication with neither is rejected, as is one where both exist with different IDs; whenever these requirements hold the RP does not cause a rejection.',
     ['inputs', 'configurations'],
     'Every RP ID (including non-ASCII), every RP ID hash, every combination of registered and provided RP.',
     'The tests check one matching and one mismatching hash; single-byte deviations at each of the 32 positions and all registered/provided combinations are not sampled.',
     [BE, PA], [('rp_id_hash comparison', REG), ('registered/provided RP selection and rp_id_hash comparison', AUT)],
     [REG, AUT], technique='runtime monitor: acceptance vs reference RP-selection model, exhaustive byte-position flips')

prop('C05', 'User presence and verification flags are enforced',
     'A ceremony is accepted only if the user-present bit of the authenticator data flags is set and, when user verification is required, the user-verified bit is set too. '
     'No other flag bit, reserved ones included, can stand in for them or cause a rejection by itself, and user verification is not demanded when it was not required.',
     ['inputs', 'configurations'],
     'All 256 flag bytes (with matching attested data / extension content), both settings of the requirement, both ceremonies.',
     'The tests use a handful of flag bytes.',
     [BE, PA, TY], [('UP/UV checks', REG), ('UP/UV checks', AUT), ('AuthenticatorDataFlag', TY)],
     [REG, AUT], technique='runtime monitor: exhaustive enumeration of flag bytes x requirement x ceremony against reference')

prop('C06', 'Only allowed credentials of the right user authenticate',
     'An authentication is accepted only if the registrar knows the credential ID; if an allow list is given (even an empty one), it contains exactly that ID; and if a user is given, the credential belongs to that user ID. '
     'If no user is given the response must carry a user handle, and any user handle present (even an empty one) must equal the ID of the credential\'s owner. '
     'When these hold, ownership causes no rejection, and the user reported to the registrar is the credential\'s owner.',
     ['inputs', 'configurations', 'histories'],
     'Every combination of registered users, credential IDs (including prefixes of each other and empty), allow lists, provided user and user handle.',
     'The tests cover single literal combinations; near-miss IDs, empty values, long allow lists and multi-user histories are not sampled.',
     [BE], [('allow list, user and user handle checks', AUT)],
     [AUT, 'CredentialsRegistrar.get_credential_data', 'CredentialsRegistrar.register_credential_assertion'],
     technique='runtime monitor: acceptance and registrar events vs reference ownership model')

prop('C07', 'Token binding matches exactly',
     'When a token binding is expected, a ceremony is accepted only if the client data carries a token binding with the same status and the same ID (an absent ID matches only an absent ID). '
     'When none is expected, a ceremony whose client data carries one is rejected, and one that carries none is not rejected for it.',
     ['inputs', 'configurations'],
     'All pairs of expected and received token binding: absent, supported, present, with any ID.',
     'The tests sample a few pairs of the relation.',
     [BE, PA], [('token binding checks', REG), ('token binding checks', AUT)],
     [REG, AUT], technique='runtime monitor: full expected x received product against reference')

prop('C08', 'Required extensions must be present in the authenticator data',
     'When a set of extensions is required, a ceremony is accepted only if the authenticator data carries an output for every one of them; an output counts as present whatever its value (false, zero, empty string, empty list). '
     'Extensions that are not required never cause a rejection when absent or well-formed, and requiring none (or an empty set) rejects nothing.',
     ['inputs', 'configurations'],
     'All subsets of the nine extensions as required set x as present set, with falsy and truthy outputs, both ceremonies.',
     'The tests check one or two extensions with truthy values.',
     [BE, PA, TY, UT], [('expected_extensions loop', REG), ('expected_extensions loop', AUT), ('ExtensionIdentifier.key', TY)],
     [REG, AUT], technique='runtime monitor: required x present extension sets against reference')

prop('C09', 'Signature counter regressions are detected',
     'With a registered signature count R, an authentication reporting count N is accepted only if N > R, or both are zero (no counter), or clone errors are explicitly ignored; otherwise it fails and the registrar is not told about it. '
     'With no registered count any N is accepted. The count given to the registrar is exactly the unsigned 32-bit N received, so over any history of accepted authentications of one credential without the ignore option the stored nonzero counts strictly increase and a replayed or cloned authenticator is rejected.',
     ['inputs', 'histories'],
     'All pairs (R or none, N) in 0..2^32-1, both settings of the ignore option, and all histories of authentications interleaved with replays and clones.',
     'The tests use a single decreasing pair; boundaries (0, 1, 2^31, 2^32-1, equality) and histories are not explored.',
     [BE, PA], [('signature count comparison', AUT), ('sign_count decode', PA + ':parse_authenticator_data')],
     [AUT, 'CredentialsRegistrar.register_credential_assertion'],
     [dict(name='signature_count', meaning='last accepted count, held by the registrar', where=RE + ':CredentialData')],
     technique='runtime monitor: counter specification over recorded registrar event histories')

prop('C10', 'The registrar is called exactly once, faithfully, and only on success',
     'A ceremony that satisfies all its requirements calls the registrar\'s registration method exactly once, with the very credential, user and RP of the ceremony and the parsed data of that same response; a ceremony rejected for any other reason never calls it. '
     'The ceremony succeeds only if that call returns None: any other return value (falsy ones included) or any exception from a registrar method makes it fail with RegistrationError. '
     'Credential data is requested for exactly the credential ID of the response.',
     ['inputs', 'histories', 'fault_sequences'],
     'Every ceremony outcome, every registrar return value and exception, every point of failure, in any order of ceremonies.',
     'Mocks in the tests check that some values arrive; not that no call happens on each rejection path nor that every non-None value fails.',
     [BE, RE], [('last step of both handlers', BE)],
     ['CredentialsRegistrar methods', REG, AUT], technique='runtime monitor: trace checker over recorded registrar calls with fault injection')

prop('C11', 'Ceremonies fail only with the documented library errors',
     'Both ceremony handlers either return None or raise a library error, for every content of the received credential and every behaviour of the registrar; no other exception escapes. '
     'When exactly one requirement is not met, the error class is the documented one for that requirement (challenge, type, origin, token binding, RP ID, RP ID hash, RP not found, presence, verification, extension, allow list, credential data, user, user handle, signature, counter, registrar, parsing, attestation, unimplemented attestation format), in its documented family, so that code which catches the family (say BackendError, ParserError, WebAuthnRPError) catches it.',
     ['inputs', 'fault_sequences'],
     'Every single-requirement failure in any otherwise valid ceremony, and arbitrary malformed bytes in each response field.',
     'Tests raise each error for one literal input; arbitrary malformed responses and dependency exceptions (CBOR, X.509, ASN.1) are not covered.',
     [BE, PA, ER], [('exception boundary of both handlers', BE), ('error classes', ER)],
     [REG, AUT], technique='runtime monitor: exception-class oracle over fault-injected and fuzzed ceremonies')

prop('C12', 'FIDO U2F registrations are attested soundly',
     'A fido-u2f registration is accepted only if its statement has exactly one X.509 certificate with a P-256 public key, the credential key is a P-256 key, and the signature verifies under the certificate with ECDSA and SHA-256 over 0x00, the RP ID hash, the SHA-256 of the received client data, the credential ID and the uncompressed credential point. '
     'It is then reported to the registrar as Basic attestation with that certificate as the trusted path; a correct statement is accepted.',
     ['inputs'],
     'Every certificate key, credential key, credential ID (length 0 to 1023) and client data, with single deviations in each signed component.',
     'The tests run the attester alone on one key; until this work the backend could not accept any such registration.',
     [AT, BE, PA], [('attest_fido_u2f', AT), ('attest call', REG)],
     ['attest', REG], technique='runtime monitor: attestation outcome vs independently built statements and deviations')

prop('C13', 'Android Key registrations are attested soundly',
     'An android-key registration is accepted only if the first certificate\'s key verifies the signature over the received authenticator data followed by the SHA-256 of the received client data with the statement\'s algorithm, that key is the credential key, and its Android key description extension carries that same hash as challenge, allApplications in neither authorization list, and a TEE list with origin GENERATED and a purpose set containing SIGN. '
     'It is then reported as Basic attestation with that certificate as the trusted path; a correct statement is accepted.',
     ['inputs'],
     'Every certificate, key description (presence and value of each relevant field in each list) and signature deviation.',
     'The tests check a few literal key descriptions on the attester alone.',
     [AT, AS, BE], [('attest_android_key', AT), ('KeyDescription schema', AS)],
     ['attest', REG], technique='runtime monitor: attestation outcome vs independent DER-built statements and deviations')

prop('C14', 'The reported attestation never exceeds what was verified',
     'The attestation type and trusted path reported to the registrar are None-type with no path for the none format and Basic with the statement\'s first certificate for fido-u2f and android-key. '
     'Formats without verification (packed, tpm, android-safetynet), unknown formats, statements with missing, mistyped or extra members, and registrations without attested credential data are never registered, also when Python runs without assertions. '
     'The credential ID, AAGUID, key and counter reported are those of the attested authenticator data.',
     ['inputs', 'configurations'],
     'Every format and statement content, with and without attested data, with and without python -O.',
     'The tests check one statement per format through the attesters, none of them with assertions disabled.',
     [BE, AT, PA, TY], [('attest dispatch', AT), ('statement parsers', PA), ('attested data check', REG)],
     [REG, 'CredentialsRegistrar.register_credential_attestation'],
     technique='runtime monitor: registrar-visible attestation vs reference per format, also under python -O')

prop('C15', 'Authenticator data decodes exactly or is rejected',
     'Decoding authenticator data yields exactly the encoded RP ID hash, flags, big-endian 32-bit counter and, as the flag bits say, the AAGUID, credential ID and key, and the extension outputs. '
     'Data shorter than 37 bytes, truncated anywhere, carrying bytes beyond what the flags announce, or with a malformed key or extension map is rejected.',
     ['inputs'],
     'Every byte string; all flag bytes; all credential ID lengths up to 65535; truncation and extension at every position.',
     'The tests decode a handful of literals.',
     [PA, VA, TY], [('parse_authenticator_data', PA)], ['parse_authenticator_data'],
     technique='runtime monitor: decoder output vs independent encoder/decoder, exhaustive truncation')

prop('C16', 'COSE keys survive encode/decode and malformed keys are rejected',
     'Parsing the COSE encoding of a credential public key gives back the same key: type, algorithm, curve, coordinates, and the optional key ID, operations and base IV when present and only then. '
     'Parsing accepts labels given as COSE integers or names and rejects keys with a missing, mistyped or unknown type, algorithm, curve or operation, or coordinates of the wrong length for the curve. '
     'The encoding is a CBOR map with the COSE integer labels and the registered values.',
     ['inputs'],
     'Every supported key with every combination of optional members, and every single-member deviation.',
     'The tests round-trip a few keys and sample few malformed ones; the base IV was encoded wrongly until this work.',
     [PA, CO, TY], [('parse_cose_key', PA), ('cose_key', CO)], ['parse_cose_key', 'cose_key'],
     technique='runtime monitor: round-trip and independent CBOR oracle')

prop('C17', 'Credentials sent by the client are decoded faithfully and strictly',
     'Parsing a JSON public key credential yields exactly the given id and type and the base64-decoded raw ID, client data and response members, as an attestation response when an attestation object is present and an assertion response otherwise, with no user handle when it is absent or null. '
     'Input with missing, mistyped or unsupported members or undecodable base64 is rejected with a parsing error, and the input is not modified. '
     'Converting the result back to JSON gives the original members.',
     ['inputs'], 'Every JSON object shape and every byte content of each member.',
     'The tests parse a few literal credentials.',
     [PA, CO], [('parse_public_key_credential', PA)], ['parse_public_key_credential', 'jsonify'],
     technique='runtime monitor: decoder vs reference with member-wise deviations and JSON round trip')

prop('C18', 'Parsers are total: hostile input yields a value or a library error',
     'Given arbitrary bytes (or arbitrary text for origins, an arbitrary JSON object for credentials), each parser of client-supplied data either returns a value or raises a library error, and it terminates; no other exception escapes.',
     ['inputs'], 'Every byte string, including deeply nested, huge-number, wrongly typed and truncated CBOR and JSON.',
     'Unit tests use a few malformed literals; the CBOR library alone raises over ten kinds of foreign exceptions on hostile input.',
     [PA, ER], [('decode error handling', PA)],
     ['parse_origin', 'parse_client_data', 'parse_cose_key', 'parse_authenticator_data', 'parse_attestation_object', 'parse_public_key_credential', 'parse_extensions'],
     technique='runtime monitor: structure-aware and coverage-guided fuzzing with an exception-class monitor')

prop('C19', 'Attestation objects decode faithfully and strictly',
     'Decoding an attestation object yields the encoded format, the statement members of that format exactly as encoded (algorithm, signature, certificates in order, version, TPM structures, ECDAA key ID, SafetyNet response) in that format\'s own statement type, and the decoded authenticator data, together with the raw map. '
     'Objects that are not a map, miss a member, have an unknown format, or whose statement has missing, mistyped or unsupported members are rejected.',
     ['inputs'], 'Every format and member content, every single-member deviation.',
     'The tests decode one or two literals per format.',
     [PA, TY], [('parse_attestation_object and statement parsers', PA)], ['parse_attestation_object'],
     technique='runtime monitor: decoder output vs independent CBOR encoder with member deviations')

prop('C20', 'Extension outputs decode faithfully and strictly',
     'Decoding extension outputs yields each of the nine supported outputs exactly as encoded, absent ones as None, with location coordinates mapped to their own fields. '
     'Unsupported extensions or coordinates and outputs of the wrong type are rejected.',
     ['inputs'], 'All subsets of extensions, all values, and wrong types in every position.',
     'The tests decode a few literals.',
     [PA, TY], [('parse_extensions', PA)], ['parse_extensions', 'parse_authenticator_data'],
     technique='runtime monitor: decoder output vs reference, per-field type deviation product')

prop('C21', 'Options convert to JSON faithfully',
     'Converting any options object to JSON gives data that serialises as standard JSON and contains exactly the members that were set, under their WebAuthn camelCase names, with bytes as standard base64, enumerations as their wire values, sequences in order, numbers, booleans and strings unchanged (zero, false and empty included), and members that are None omitted. '
     'The input is not modified, and conversion without case change keeps the original names. Dictionaries with non-string keys and unsupported values fail with a library error; a value of a subclass of a JSON type is converted to what it holds or refused.',
     ['inputs', 'configurations'], 'Every options object of either ceremony with every subset of optional members and boundary values.',
     'The tests convert a few literals.',
     [CO, UT, TY], [('jsonify', CO), ('snake_to_camel_case', UT)], ['jsonify', 'json.dumps of the result'],
     technique='runtime monitor: conversion vs independent table-driven expectation')

prop('C22', 'Builders are persistent and build exactly what was set',
     'Every builder setter returns a new builder that differs from the original only in that attribute; the original and every builder derived earlier keep building what they built before, whatever is later set on, built from or done to options built by the others. '
     'Building gives options with exactly the attributes set, plus the given challenge, user or allow list, and the documented defaults; building without a relying party or key parameters (or with the attestation preference or mediation cleared) fails with BuilderError.',
     ['histories', 'inputs'], 'Every tree of setter calls in any order, with builds and mutations of built options interleaved.',
     'The tests exercise single chains, not trees with interleaved builds.',
     [BU], [('_copy and setters', BU), ('build', BU)], ['CredentialCreationOptionsBuilder', 'CredentialRequestOptionsBuilder'],
     technique='runtime monitor: model-based histories of builder operations')

prop('C23', 'Signature verification is sound and complete for every supported key',
     'Verifying a signature with a credential public key succeeds exactly when the signature is a valid ECDSA signature (DER, with the hash of the key\'s algorithm) or EdDSA signature of the data under that key, for every curve and for coordinates with leading zero bytes. '
     'Otherwise it fails with a library error; EC points that are not on the curve are never converted into a usable key, and conversion keeps the key value.',
     ['inputs'], 'All curve x hash pairs, all key values including small and leading-zero coordinates, all data, all signature deviations.',
     'The tests verify one key per curve with one wrong signature.',
     [VE, CO, UT], [('verify', VE), ('cryptography_public_key', CO), ('ec2_hash_algorithm', UT)], ['verify', 'cryptography_public_key'],
     technique='runtime monitor: differential check against a pure-Python ECDSA/EdDSA implementation')

prop('C24', 'Ceremonies do not interfere with each other',
     'The outcome of a ceremony and what it reports to the registrar depend only on its own arguments and the registrar\'s answers: running ceremonies concurrently in threads on one shared backend, or after any other ceremonies, gives each the same outcome and report as alone. '
     'A ceremony does not modify the credential, user, RP, allow list, expected values or stored key given to it.',
     ['schedules', 'histories'], 'Every interleaving of concurrent ceremonies on a shared backend, and every order of earlier ceremonies.',
     'The tests run single ceremonies in one thread.',
     [BE, PA, AT, VE, CO], [('backends keep no per-ceremony state', BE)], [REG, AUT, 'registrar calls per thread'],
     [dict(name='CredentialsBackend', meaning='shared by all threads', where=BE)],
     technique='runtime monitor: thread stress with injected yields and an offline isolation checker over event logs')

prop('C25', 'Across any history, only the holder of a registered key authenticates',
     'In any history of registrations and authentications through the public API (options built and converted to JSON, client response parsed from JSON, key stored in COSE form and read back), an authentication succeeds exactly when it answers its own fresh challenge with a key registered earlier for that credential ID and user at that relying party. '
     'Replays of earlier responses, responses for other users, relying parties, origins or challenges, and authentications with unregistered keys fail; honest ones succeed for every supported key type and attestation format.',
     ['histories'], 'Every interleaving of honest and adversarial ceremonies of several users, credentials and relying parties.',
     'No existing test connects registration with authentication.',
     [BE, PA, CO, BU, AT, VE], [('both handlers composed with builders, jsonify, parsers and cose_key', BE)], ['public API end to end'],
     technique='runtime monitor: end-to-end history checker with simulated authenticators and an adversary')

prop('C26', 'Wire vocabulary matches the published registries',
     'Every enumerated value that appears on the wire (COSE algorithms, curves, key types and operations, authenticator data flag bits, attestation format and extension identifiers, WebAuthn enumeration strings, token binding status, Android keymaster constants) has exactly the value published in the COSE, WebAuthn and Android registries. '
     'Names and values of the two-form identifiers denote the same entry, and lookups by any value outside the vocabulary fail with an error rather than matching another entry.',
     ['configurations', 'inputs'], 'All entries of all vocabularies, and all integers and strings near them.',
     'The tests use the library\'s own enumerations on both sides, so a wrong constant cancels out.',
     [TY, CS, UT], [('enumerations', TY), ('constants', CS)], ['public enumerations', 'jsonify', 'parsers'],
     technique='runtime monitor: exhaustive comparison with independent registry tables')

prop('C27', 'Encoding helpers are lossless',
     'Decoding the base64url encoding of any byte string gives it back, with or without padding, and encoding uses only the URL-safe alphabet. '
     'Converting a lower-case snake_case identifier to camelCase and back gives it back, and every member name of the WebAuthn dictionaries converts to its published camelCase spelling. '
     'Coordinate lengths and hashes per curve and algorithm are those of the published standards.',
     ['inputs'], 'Every byte string up to several hundred bytes; every identifier made of lower-case words.',
     'The tests convert a few literals.',
     [UT, CS], [('url_base64_encode/decode, case conversion, curve and hash tables', UT)], ['webauthn_rp.utils'],
     technique='runtime monitor: round-trip and RFC 4648 reference oracle, exhaustive for short inputs')

prop('C28', 'Client data decodes faithfully and strictly',
     'Decoding client data yields exactly the type, challenge, origin and token binding of the UTF-8 JSON object, whatever other members, member order, whitespace or escapes it contains. '
     'Data that is not UTF-8, not JSON, not an object, misses or mistypes the type, challenge or origin, or has a malformed token binding (not an object, missing or unknown status, status present without an ID) is rejected with a parsing error.',
     ['inputs'], 'Every JSON serialisation of client data and every deviation.',
     'The tests decode a few literals.',
     [PA], [('parse_client_data', PA)], ['parse_client_data'],
     technique='runtime monitor: decoder vs reference over varied JSON serialisations and deviations')

prop('C29', 'Android key descriptions decode by the published schema',
     'Decoding the DER encoding of any key description of the published Android attestation schema yields every field with its encoded value, each authorization-list member recognised by its published context tag, absent members absent, enumerated values by their published names, and software- and TEE-enforced lists kept apart. '
     'Truncated or mis-tagged encodings fail to decode.',
     ['inputs'], 'All subsets of authorization-list members in both lists, with arbitrary values.',
     'The tests encode with the same schema they decode with, so a wrong tag or order cancels out.',
     [AS], [('KeyDescription, AuthorizationList, RootOfTrust', AS)], ['pyasn1 decode with KeyDescription'],
     technique='runtime monitor: schema decode vs independent DER encoder')

prop('C30', 'Nothing but the registrar is touched, and the surroundings decide nothing',
     'What a ceremony, parser, verification, conversion or builder yields is decided by its arguments and the answers of the registrar alone: not by the clock, hash seed, interpreter optimisation, locale, time zone, user, working directory, environment variables, thread, event loop, call depth, garbage collector, random state, decimal context or logging setup. '
     'It affects nothing besides the calls to the registrar: it opens no file or socket, starts no process, writes no output, evaluates nothing a client sent as code or as a name, and leaves process-wide state as it was '
     '(environment, random state, recursion limit, umask, warning filters, decimal context, signal handlers, functions of other modules).',
     ['inputs', 'configurations'], 'Every input under every surroundings, client text that looks like code or paths included.',
     'The tests run in one process with one environment, one clock and one optimisation level, and look at results, not at effects.',
     [BE, VA, PA, CO, VE, BU], [('handle_credential_creation, handle_credential_request', BE), ('validate', VA)], ['audit events', 'process-wide state', 'results in other processes'],
     technique='runtime monitor: audit hook and state snapshots around real calls; differential replay under other surroundings')

prop('C31', 'Work and memory stay in proportion to what is given',
     'Parsing, verification, conversion, building and whole ceremonies take time and memory at most about in proportion to the size of what they are given (client data, authenticator data, keys, attestation objects, key descriptions, credentials, origins, options and the lists the RP passes): not to its square and not to the magnitude of the numbers in it. '
     'A few bytes of CBOR that share values many times over cause no exponential work. One ceremony asks the registrar for one credential at most. '
     'Handling an input costs no more after many others, and nothing of earlier inputs stays behind beyond a bounded amount.',
     ['inputs', 'histories'], 'Every input shape at every size, and every long history of inputs.',
     'The tests use inputs of one small size and never look at cost; a client chooses the size and shape of what it sends.',
     [PA, BE, CO, AT, TY, UT, BU], [('parse_client_data, parse_origin, parse_cose_key, parse_authenticator_data, parse_attestation_object', PA), ('attest', AT), ('jsonify', CO)], ['executed lines', 'peak and retained memory', 'processor time'],
     technique='runtime monitor: executed lines (sys.monitoring), allocation tracing and processor time over families of growing inputs')

prop('C32', 'Values keep what they are given, survive storage, and are current',
     'Every value object of the public types holds exactly what it was made from under the documented names; members left out are None or the documented default; required ones cannot be left out; objects share nothing. '
     'Copying (copy, deepcopy), pickling, remaking from the members, or using an application subclass yields a value equal in every member, with the same enumerated values, that conversions, verification and ceremonies treat as they treat the original, whether it is a parsed key, authenticator data, attestation object, client data, credential, options or a CredentialData a registrar kept. '
     'What the registrar is given can be stored. An object changed after use is used as it is now, nothing of its former content.',
     ['inputs', 'histories'], 'Every public type, every subset of optional members, every way of copying or storing, every sequence of uses and changes.',
     'Tests build a few objects, use them once and never store them.',
     [TY, CO, VE, BE, RE], [('the value classes', TY), ('CredentialData', RE), ('verify', VE), ('jsonify, cryptography_public_key, cose_key', CO)], ['attributes', 'copies', 'registrar calls', 'handler outcomes'],
     technique='runtime monitor: own table of members against made, copied, stored and subclassed objects; ceremony oracle over such values')

prop('C33', 'What is not implemented is refused, and what the application adds is used',
     'Nothing passes for lack of an implementation: verifying, validating, converting or COSE-encoding a key of a class the library has no procedure for, attesting a statement of such a class, and calling a registrar method that the application did not implement raise UnimplementedError, '
     'and a ceremony that needs one of them fails (with RegistrationError when a registrar method is missing) and reports nothing; a ceremony that does not need it succeeds. '
     'A procedure that the application registers for a class of statements or keys (attest.register, verify.register and the like) is used from then on for that class and its subclasses only, until it is replaced: '
     'a ceremony asks it at most once, gives it the decoded statement and attestation object, the received authenticator data bytes and the SHA-256 of the received client data (or the stored key, the received signature and the signed bytes), '
     'reports the attestation type and trusted path it answers unchanged, fails with the library error it raises and with some library error when it raises another exception or answers something else, and still enforces every other requirement.',
     ['inputs', 'configurations', 'histories'], 'Every class of value given to every dispatching function, every subset of registrar methods, every procedure and answer of the application, at any point of a history.',
     'Tests only call the base functions once each; none runs a ceremony with a procedure, a kind of key or a partial registrar of the application.',
     [AT, VE, CO, VA, BE, RE], [('attest', AT), ('verify', VE), ('validate', VA), ('cryptography_public_key, cose_key', CO), ('CredentialsRegistrar', RE)], ['calls of the application procedures', 'handler outcomes', 'registrar calls'],
     technique='runtime monitor: procedures and registrars of the application that record what they are given, compared with what was sent, answered and reported')

prop('C34', 'Only keys whose curve and algorithm belong to their type are valid',
     'A credential public key passes validate exactly when its curve and its algorithm are of its type: an elliptic curve key has P-256, P-384 or P-521 and ES256, ES384 or ES512, an octet key pair has Ed25519 or Ed448 and EdDSA, '
     'whether they are given by name or by value, whatever the other members (coordinates, key ID, operations, base IV) hold, for subclasses as for the classes themselves, and for an object that changed as it is now; otherwise ValidationError is raised. The key is left as it was. '
     'Authenticator data whose attested key is otherwise well formed but has an algorithm of another type is refused with a library error, and no registration or authentication that carries such a key succeeds or is reported; with a fitting algorithm it is accepted.',
     ['inputs', 'histories'], 'Every key class, curve, algorithm and way of naming them, with every content of the other members, alone, in authenticator data and in ceremonies.',
     'Tests validate one mismatch per kind of key with fixed members, and no ceremony carries such a key.',
     [VA, PA, BE, TY], [('validate', VA), ('parse_authenticator_data', PA), ('handle_credential_attestation, handle_credential_assertion', BE)], ['outcome of validate', 'outcome of the parser', 'handler outcomes', 'registrar calls'],
     technique='runtime monitor: outcome of validate, parser and handlers compared with an enumerated table of types, curves and algorithms')

TITLES = {p['id']: p for p in P}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'state': p['state'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                    'observe_at': p['observe'],
                    'hook_needed': None,
                }}, ensure_ascii=False) + '\n')
    claimed = [p for p in P if os.path.exists(os.path.join(root, 'wv', 'props', p['id'].lower() + '.py'))]
    m = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './check %s --tier quick' % p['id'],
            'thorough_cmd': './check %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'] or DEFAULT_NOTE,
        } for p in claimed],
        'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in P if p not in claimed],
        'notes': 'No hooks in /repo: every monitor observes the public API (handlers, parsers, converters, builders, registrar calls).',
    }
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


DEFAULT_NOTE = ('Runtime monitoring of the real code over seeded, directed and random workloads with an independent '
                'reference oracle; exit 2 when a required event category was never observed. Assumes the seeded workload '
                'is representative; trusts the reference model, the cryptography package for key generation and signing, '
                'and the CPython interpreter.')

if __name__ == '__main__':
    main()
