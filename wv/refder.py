"""Independent DER encoder (X.690) and the Android KeyDescription layout."""


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def tlv(tag, body):
    return (tag if isinstance(tag, bytes) else bytes([tag])) + length(len(body)) + body


def integer(n, tag=0x02):
    return tlv(tag, n.to_bytes(n.bit_length() // 8 + 1, 'big', signed=True))


def enumerated(n):
    return integer(n, 0x0a)


def boolean(v):
    return tlv(0x01, b'\xff' if v else b'\x00')


def octets(b):
    return tlv(0x04, b)


def null():
    return b'\x05\x00'


def seq(*items):
    return tlv(0x30, b''.join(items))


def set_of(items):
    return tlv(0x31, b''.join(sorted(items)))


def context(n, body):
    """Constructed, context specific, explicit tag."""
    if n < 31:
        t = bytes([0xa0 | n])
    else:
        parts = []
        m = n
        while m:
            parts.append(m & 0x7f)
            m >>= 7
        parts.reverse()
        t = b'\xbf' + bytes([p | 0x80 for p in parts[:-1]] + [parts[-1]])
    return tlv(t, body)


# https://source.android.com/security/keystore/attestation (schema version 3)
# name -> (tag, type), in the order of the schema
AUTHORIZATION_LIST = {
    'purpose': (1, 'set'),
    'algorithm': (2, 'int'),
    'keySize': (3, 'int'),
    'digest': (5, 'set'),
    'padding': (6, 'set'),
    'ecCurve': (10, 'int'),
    'rsaPublicExponent': (200, 'int'),
    'rollbackResistance': (303, 'null'),
    'activeDateTime': (400, 'int'),
    'originationExpireDateTime': (401, 'int'),
    'usageExpireDateTime': (402, 'int'),
    'noAuthRequired': (503, 'null'),
    'userAuthType': (504, 'int'),
    'authTimeout': (505, 'int'),
    'allowWhileOnBody': (506, 'null'),
    'trustedUserPresenceRequired': (507, 'null'),
    'trustedConfirmationRequired': (508, 'null'),
    'unlockedDeviceRequired': (509, 'null'),
    'allApplications': (600, 'null'),
    'applicationId': (601, 'octets'),
    'creationDateTime': (701, 'int'),
    'origin': (702, 'int'),
    'rollbackResistant': (703, 'null'),
    'rootOfTrust': (704, 'rot'),
    'osVersion': (705, 'int'),
    'osPatchLevel': (706, 'int'),
    'attestationApplicationId': (709, 'octets'),
    'attestationIdBrand': (710, 'octets'),
    'attestationIdDevice': (711, 'octets'),
    'attestationIdProduct': (712, 'octets'),
    'attestationIdSerial': (713, 'octets'),
    'attestationIdImei': (714, 'octets'),
    'attestationIdMeid': (715, 'octets'),
    'attestationIdManufacturer': (716, 'octets'),
    'attestationIdModel': (717, 'octets'),
    'vendorPatchLevel': (718, 'int'),
    'bootPatchLevel': (719, 'int'),
}

ENCODERS = {
    'int': integer,
    'null': lambda v: null(),
    'octets': octets,
    'set': lambda v: set_of([integer(x) for x in v]),
    'rot': lambda v: seq(octets(v[0]), boolean(v[1]), enumerated(v[2]), octets(v[3])),
}


def authorization_list(d):
    """d: name -> value, encoded in schema order."""
    return seq(*[context(tag, ENCODERS[typ](d[name]))
                 for name, (tag, typ) in AUTHORIZATION_LIST.items() if name in d])


def key_description(kd):
    """kd: dict with the eight KeyDescription members."""
    return seq(integer(kd['attestationVersion']), enumerated(kd['attestationSecurityLevel']),
               integer(kd['keymasterVersion']), enumerated(kd['keymasterSecurityLevel']),
               octets(kd['attestationChallenge']), octets(kd['uniqueId']),
               authorization_list(kd['softwareEnforced']), authorization_list(kd['teeEnforced']))
