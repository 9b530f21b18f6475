"""Independent reference decoders over arbitrary bytes: ('ok', summary), ('reject', why) or ('unspec', why)."""
import json
import struct

from wv.keys import COORD, COSE_ALG, COSE_CRV, COSE_KTY, COSE_OPS
from wv.refcbor import Pairs, Simple, Tag
from wv.sim import AT, COORDS, ED, EXTS

UNDEF = object()


def pr(v):
    try:
        return repr(v)[:80]
    except ValueError:
        return '<huge>'


class CborReject(Exception):
    pass


class CborUnspec(Exception):
    pass


def item(d, i=0, depth=0):
    """One CBOR item at offset i -> (value, next offset). Definite lengths only; everything odd is CborUnspec."""
    if depth > 40:
        raise CborUnspec('deep')
    if i >= len(d):
        raise CborReject('truncated CBOR')
    b = d[i]
    i += 1
    major, info = b >> 5, b & 31
    if major == 7 and info not in (25, 26, 27):
        if info == 20: return False, i
        if info == 21: return True, i
        if info == 22: return None, i
        if info == 23: return UNDEF, i
        if info < 20: return Simple(info), i
        raise CborUnspec('simple value')
    if info < 24:
        n = info
    elif info < 28:
        w = 1 << (info - 24)
        if i + w > len(d):
            raise CborReject('truncated CBOR')
        n = int.from_bytes(d[i:i + w], 'big')
        i += w
        if major == 7:
            return struct.unpack('>' + {2: 'e', 4: 'f', 8: 'd'}[w], d[i - w:i])[0], i
    else:
        raise CborUnspec('indefinite or reserved')
    if major == 0: return n, i
    if major == 1: return -1 - n, i
    if major in (2, 3):
        if i + n > len(d):
            raise CborReject('truncated CBOR')
        s = d[i:i + n]
        if major == 2:
            return s, i + n
        try:
            return s.decode('utf-8'), i + n
        except UnicodeDecodeError:
            raise CborUnspec('text')
    if major in (4, 5):
        if n * (major - 3) > len(d) - i:
            raise CborReject('truncated CBOR')
        if major == 4:
            out = []
            for _ in range(n):
                v, i = item(d, i, depth + 1)
                out.append(v)
            return out, i
        out = Pairs()
        for _ in range(n):
            k, i = item(d, i, depth + 1)
            v, i = item(d, i, depth + 1)
            out.append((k, v))
        return out, i
    v, i = item(d, i, depth + 1)
    if n in (2, 3) and type(v) is bytes:
        x = int.from_bytes(v, 'big')
        return (x if n == 2 else -1 - x), i
    return Tag(n, v), i


class Either(str):
    """Why an input may be accepted or rejected; what it decodes to, if accepted, is not open."""
    value = None


class Verdict:
    """Collects what makes an input invalid or undecided."""

    def __init__(self):
        self.bad, self.unspec, self.hard, self.soft = [], [], [], []

    def result(self, summary):
        if self.hard:                        # which value a map holds is itself undecided
            return 'unspec', self.hard[0]
        if self.bad:
            return 'reject', self.bad[0]
        if self.unspec:
            return 'unspec', self.unspec[0]
        if self.soft:
            e = Either(self.soft[0])
            e.value = summary
            return 'unspec', e
        return 'ok', summary

    def want(self, v, types, what, nullable=False):
        """Is v one of the exact types? Notes the problem otherwise."""
        if type(v) in types:
            return True
        if type(v) is Tag or v is UNDEF or (v is None and nullable):
            self.unspec.append('%s is %s' % (what, 'null' if v is None else 'tagged'))
        else:
            self.bad.append('%s is %s' % (what, type(v).__name__))
        return False


MISSING = object()


def lookup(V, pairs, key, what, required=True):
    hits = [v for k, v in pairs if type(k) is type(key) and k == key]
    if len(hits) > 1:
        V.hard.append('duplicate ' + what)
    if not hits:
        if required:
            V.bad.append('missing ' + what)
        return MISSING
    return hits[-1]


def hashable_keys(V, pairs, what):
    """CBOR maps whose keys cannot all be kept apart are undecided."""
    seen = []
    for k, _ in pairs:
        if type(k) in (list, Pairs, Tag, float, bool, Simple) or k is UNDEF:
            V.hard.append('odd key in ' + what)
        elif k in seen:
            V.hard.append('duplicate key in ' + what)
        else:
            seen.append(k)


def ident(V, v, table, what):
    """An identifier given as registered integer or name -> (name, given) or None."""
    if v is MISSING or not V.want(v, (int, str), what):
        return None
    for name, val in table.items():
        if v == name or (type(v) is int and v == val):
            return (name, v)
    V.bad.append('unknown %s %s' % (what, pr(v)))
    return None


KTY_ALL = dict(COSE_KTY, Symmetric=4)
ES = ('ES256', 'ES384', 'ES512')


def cose_key(V, pairs, strict):
    """strict: as inside authenticator data, where the algorithm must also suit the key type."""
    hashable_keys(V, pairs, 'COSE key')
    kty = ident(V, lookup(V, pairs, 1, 'kty'), KTY_ALL, 'kty')
    if kty and kty[0] == 'Symmetric':
        V.bad.append('symmetric key')
        kty = None
    alg = ident(V, lookup(V, pairs, 3, 'alg'), COSE_ALG, 'alg')
    kid = lookup(V, pairs, 2, 'kid', False)
    if kid is not MISSING:
        V.want(kid, (bytes,), 'kid', True)
    iv = lookup(V, pairs, 5, 'base_iv', False)
    if iv is not MISSING:
        V.want(iv, (bytes,), 'base_iv', True)
    ops = lookup(V, pairs, 4, 'key_ops', False)
    ops_out = None
    if ops is not MISSING and V.want(ops, (list,), 'key_ops', True):
        if not ops:
            V.bad.append('empty key_ops')
        ops_out = [ident(V, o, COSE_OPS, 'key operation') for o in ops]
    if kty is None:
        return None
    crvs = {c: COSE_CRV[c] for c in (('P-256', 'P-384', 'P-521') if kty[0] == 'EC2' else ('Ed25519', 'Ed448'))}
    crv = ident(V, lookup(V, pairs, -1, 'crv'), crvs, 'crv')
    x = lookup(V, pairs, -2, 'x')
    ok = x is not MISSING and V.want(x, (bytes,), 'x')
    y = None
    if kty[0] == 'EC2':
        y = lookup(V, pairs, -3, 'y')
        ok = y is not MISSING and V.want(y, (bytes,), 'y') and ok
    if crv and ok and (len(x) != COORD[crv[0]] or (y is not None and len(y) != COORD[crv[0]])):
        V.bad.append('coordinate length')
    if alg and strict and (alg[0] in ES) != (kty[0] == 'EC2'):
        V.bad.append('algorithm unsuitable for the key type')
    extra = [k for k, _ in pairs if type(k) not in (int, str) or k not in (1, 2, 3, 4, 5, -1, -2, -3)]
    if extra or (kty[0] == 'OKP' and any(k == -3 for k, _ in pairs if type(k) is int)):
        (V.soft if all(type(k) is int for k in extra) else V.unspec).append('additional labels')
    return dict(kty=kty, alg=alg, crv=crv, x=x, y=y, kid=None if kid is MISSING else kid, key_ops=ops_out,
                base_iv=None if iv is MISSING else iv)


def extensions(V, pairs):
    hashable_keys(V, pairs, 'extensions')
    out = {}
    for k, v in pairs:
        if type(k) is not str or k not in EXTS:
            if type(k) is Tag or k is UNDEF:
                V.unspec.append('odd extension key')
            else:
                V.bad.append('unsupported extension ' + pr(k))
            continue
        if v is None:
            V.unspec.append('null extension')
        elif k in ('appid', 'authnSel', 'biometricPerfBounds'):
            V.want(v, (bool,), k)
        elif k == 'txAuthSimple':
            V.want(v, (str,), k)
        elif k in ('txAuthGeneric', 'uvi'):
            V.want(v, (bytes,), k)
        elif k == 'exts':
            if V.want(v, (list,), k):
                for e in v:
                    V.want(e, (str,), 'exts element')
        elif k == 'uvm':
            if V.want(v, (list,), k):
                for e in v:
                    if V.want(e, (list,), 'uvm entry'):
                        for n in e:
                            V.want(n, (int,), 'uvm number')
        elif k == 'loc':
            if V.want(v, (Pairs,), k):
                hashable_keys(V, v, 'loc')
                for c, n in v:
                    if type(c) is not str or c not in COORDS:
                        (V.unspec if type(c) is Tag or c is UNDEF else V.bad).append('unsupported coordinate')
                    V.want(n, (int, float), 'coordinate')
                v = dict(v) if not V.bad and not V.unspec else v
        out[k] = v
    return out


def auth_data(d):
    V = Verdict()
    if len(d) < 37:
        return 'reject', 'shorter than 37 bytes'
    out = dict(rp_hash=d[:32], flags=d[32], count=int.from_bytes(d[33:37], 'big'), att=None, ext=None)
    i = 37
    try:
        if d[32] & AT:
            if len(d) < i + 18:
                return 'reject', 'truncated attested data'
            n = int.from_bytes(d[i + 16:i + 18], 'big')
            if len(d) < i + 18 + n:
                return 'reject', 'truncated credential id'
            att = dict(aaguid=d[i:i + 16], cred_len=n, cred_id=d[i + 18:i + 18 + n])
            key, i = item(d, i + 18 + n)
            if V.want(key, (Pairs,), 'key'):
                att['key'] = cose_key(V, key, True)
            out['att'] = att
        if d[32] & ED:
            ext, i = item(d, i)
            if V.want(ext, (Pairs,), 'extensions'):
                out['ext'] = extensions(V, ext)
    except CborReject as e:
        return 'reject', str(e)
    except CborUnspec as e:
        V.unspec.append(str(e))
        i = len(d)
    if i != len(d):
        V.bad.append('leftover bytes')
    return V.result(out)


def _only(V, pairs, names):
    for k, _ in pairs:
        if type(k) is not str or k not in names:
            (V.unspec if type(k) is Tag or k is UNDEF else V.bad).append('unsupported statement member ' + pr(k))


FORMATS = ('packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f', 'none')
BASE = {'packed': {'alg': 'alg', 'sig': bytes}, 'tpm': {'alg': 'alg', 'sig': bytes, 'ver': str, 'certInfo': bytes, 'pubArea': bytes},
        'android-key': {'alg': 'alg', 'sig': bytes, 'x5c': 'x5c'}, 'android-safetynet': {'ver': str, 'response': bytes},
        'fido-u2f': {'sig': bytes, 'x5c': 'x5c'}, 'none': {}}
KIND = {'packed': 'PackedAttestationStatement', 'tpm': 'TPMAttestationStatement', 'android-key': 'AndroidKeyAttestationStatement',
        'android-safetynet': 'AndroidSafetyNetAttestationStatement', 'fido-u2f': 'FIDOU2FAttestationStatement', 'none': 'NoneAttestationStatement'}
VARIANT = {('packed', 'x5c'): 'PackedX509AttestationStatement', ('packed', 'ecdaaKeyId'): 'PackedECDAAAttestationStatement',
           ('tpm', 'x5c'): 'TPMX509AttestationStatement', ('tpm', 'ecdaaKeyId'): 'TPMECDAAAttestationStatement'}


def statement(V, fmt, pairs):
    hashable_keys(V, pairs, 'statement')
    want = dict(BASE[fmt])
    kind = KIND[fmt]
    if fmt in ('packed', 'tpm'):
        names = [k for k, _ in pairs if type(k) is str]
        opt = 'x5c' if 'x5c' in names else 'ecdaaKeyId' if 'ecdaaKeyId' in names else None
        if opt:
            want[opt] = 'x5c' if opt == 'x5c' else bytes
            kind = VARIANT[(fmt, opt)]
    _only(V, pairs, want)
    out = {}
    for name, typ in want.items():
        v = lookup(V, pairs, name, name)
        if v is MISSING:
            continue
        if typ == 'alg':
            v = ident(V, v, COSE_ALG, 'alg')
        elif typ == 'x5c':
            if V.want(v, (list,), 'x5c'):
                for c in v:
                    V.want(c, (bytes,), 'certificate')
        else:
            V.want(v, (typ,), name)
        out[name] = v
    return kind, out


def att_object(d):
    V = Verdict()
    try:
        top, i = item(d)
    except CborReject as e:
        return 'reject', str(e)
    except CborUnspec as e:
        return 'unspec', str(e)
    if i != len(d):
        V.soft.append('trailing bytes')
    if not V.want(top, (Pairs,), 'attestation object'):
        return V.result(None)
    hashable_keys(V, top, 'attestation object')
    if any(type(k) is not str or k not in ('fmt', 'attStmt', 'authData') for k, _ in top):
        V.soft.append('additional members')
    fmt = lookup(V, top, 'fmt', 'fmt')
    st = lookup(V, top, 'attStmt', 'attStmt')
    ad = lookup(V, top, 'authData', 'authData')
    out = dict(fmt=None, kind=None, stmt=None, ad=None)
    if st is not MISSING:
        stok = V.want(st, (Pairs,), 'attStmt')
    if fmt is not MISSING and V.want(fmt, (str,), 'fmt'):
        if fmt not in FORMATS:
            V.bad.append('unknown format ' + pr(fmt))
        else:
            out['fmt'] = fmt
            if st is not MISSING and stok:
                out['kind'], out['stmt'] = statement(V, fmt, st)
    if ad is not MISSING and V.want(ad, (bytes,), 'authData'):
        r, x = auth_data(ad)
        if r == 'reject':
            V.bad.append('authData: ' + x)
        elif type(x) is Either:
            V.soft.append('authData: ' + x)
            out['ad'] = x.value
        elif r == 'unspec':
            V.unspec.append('authData: ' + x)
        else:
            out['ad'] = x
    return V.result(out)


class _Pairs(list):
    pass


def client_data(d):
    """Reference for client data JSON, using the standard json module only for the syntax."""
    V = Verdict()
    try:
        text = d.decode('utf-8')
    except UnicodeDecodeError:
        return 'reject', 'not UTF-8'
    if text.startswith('\ufeff'):
        return 'unspec', 'BOM'

    def const(c):
        raise CborUnspec(c)
    try:
        top = json.loads(text, object_pairs_hook=_Pairs, parse_constant=const)
    except CborUnspec as e:
        return 'unspec', 'non-standard constant'
    except RecursionError:
        return 'unspec', 'deep'
    except json.JSONDecodeError:
        return 'reject', 'not JSON'
    except ValueError:
        return 'unspec', 'interpreter limit'
    if type(top) is not _Pairs:
        return 'reject', 'not an object'
    out = {}
    for name in ('type', 'challenge', 'origin'):
        v = lookup(V, top, name, name)
        if v is not MISSING:
            V.want(v, (str,), name)
            out[name] = v
    tb = lookup(V, top, 'tokenBinding', 'tokenBinding', False)
    out['tb'] = None
    if tb is None:
        V.unspec.append('null token binding')
    elif tb is not MISSING and V.want(tb, (_Pairs,), 'tokenBinding'):
        st = lookup(V, tb, 'status', 'status')
        i = lookup(V, tb, 'id', 'id', False)
        if st is not MISSING:
            if st not in ('present', 'supported') or type(st) is not str:
                V.bad.append('status ' + pr(st))
            if i is None:
                (V.bad if st == 'present' else V.unspec).append('null id')
            elif i is not MISSING and type(i) is not str:
                V.unspec.append('id type')
            if i is MISSING and st == 'present':
                V.bad.append('present without id')
            out['tb'] = (st, None if i is MISSING else i)
    return V.result(out)


# --- summaries of library values in the same shape -----------------------------
def _id(e, table):
    """(registered name, raw value) of a library identifier, by its wire value."""
    v = e.value
    if type(v) is int:
        return ({x: k for k, x in table.items()}.get(v, '?'), v)
    return (v if v in table else '?', v)


def lib_key(k):
    """With enum member names checked against the registered names as well."""
    kty, alg = _id(k.kty, KTY_ALL), _id(k.alg, COSE_ALG)
    names = {'kty': (k.kty.name, kty[0]), 'alg': (k.alg.name, alg[0])}
    crv = _id(k.crv, COSE_CRV)
    names['crv'] = (k.crv.name, crv[0])
    ops = None if k.key_ops is None else [_id(o, COSE_OPS) for o in k.key_ops]
    for what, (member, reg) in names.items():
        if member.replace('_', '-').upper() != reg.upper():
            return '%s member %s carries %s' % (what, member, reg)
    if type(k).__name__ != {'EC2': 'EC2CredentialPublicKey', 'OKP': 'OKPCredentialPublicKey'}.get(kty[0]):
        return 'a %s for key type %s' % (type(k).__name__, kty[0])
    return dict(kty=kty, alg=alg, crv=crv, x=k.x, y=getattr(k, 'y', None), kid=k.kid, key_ops=ops, base_iv=k.base_IV)


LIB_ATTR = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple', 'txAuthGeneric': 'tx_auth_generic', 'authnSel': 'authn_sel',
            'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm', 'biometricPerfBounds': 'biometric_perf_bounds'}
LIB_COORD = {c: c for c in COORDS}
LIB_COORD['altitudeAccuracy'] = 'altitude_accuracy'


def lib_ext(e):
    if e is None:
        return None
    out = {}
    for wire, attr in LIB_ATTR.items():
        v = getattr(e, attr)
        if v is None:
            continue
        if wire == 'loc':
            v = {c: getattr(v, a) for c, a in LIB_COORD.items() if getattr(v, a) is not None}
        out[wire] = v
    return out


def lib_auth_data(ad):
    a = ad.attested_credential_data
    return dict(rp_hash=ad.rp_id_hash, flags=ad.flags, count=ad.sign_count,
                att=None if a is None else dict(aaguid=a.aaguid, cred_len=a.credential_id_length, cred_id=a.credential_id,
                                                key=lib_key(a.credential_public_key)),
                ext=lib_ext(ad.extensions))


STMT_ATTR = {'alg': 'alg', 'sig': 'sig', 'x5c': 'x5c', 'ver': 'ver', 'certInfo': 'cert_info', 'pubArea': 'pub_area',
             'ecdaaKeyId': 'ecdaa_key_id', 'response': 'response'}


def lib_statement(st):
    out = {}
    for wire, attr in STMT_ATTR.items():
        v = getattr(st, attr, None)
        if v is not None:
            out[wire] = _id(v, COSE_ALG) if wire == 'alg' else v
    return type(st).__name__, out


def lib_att_object(o):
    kind, stmt = lib_statement(o.att_stmt)
    return dict(fmt=o.fmt.value, kind=kind, stmt=stmt, ad=lib_auth_data(o.auth_data))


def lib_client_data(c):
    tb = c.token_binding
    return dict(type=c.type, challenge=c.challenge, origin=c.origin, tb=None if tb is None else (tb.status.value, tb.id))


def same(a, b):
    """Equality that keeps bool, int, str and bytes apart, and treats equal numbers and NaNs as equal."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and (a == b or (a != a and b != b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def to_python(v):
    """CBOR tree -> the plain Python value a decoder gives (for the raw map)."""
    if isinstance(v, Pairs):
        return {k: to_python(x) for k, x in v}
    if isinstance(v, list):
        return [to_python(x) for x in v]
    return v


def vandalise(x, depth=0, seen=None):
    """Change everything that can be changed in a decoded value: no later result may show any of it."""
    import enum
    seen = set() if seen is None else seen
    if depth > 12 or id(x) in seen or isinstance(x, enum.Enum) or x is None or isinstance(x, (str, bytes, int, float, type)):
        return
    seen.add(id(x))
    if isinstance(x, (list, dict)):
        for v in list(x.values() if isinstance(x, dict) else x):
            vandalise(v, depth + 1, seen)
        x.clear()
    elif isinstance(x, (tuple, set, frozenset)):
        for v in x:
            vandalise(v, depth + 1, seen)
    elif type(x).__module__.startswith('webauthn_rp') and hasattr(x, '__dict__'):
        for k, v in list(vars(x).items()):
            vandalise(v, depth + 1, seen)
            try:
                setattr(x, k, 'vandalised')
            except Exception:  # noqa: an immutable value cannot be shared harmfully
                pass


def compare(ctx, name, data, ref, call, lib, what='', parsing=False):
    """Run the library on `data` and compare with the reference verdict. Returns the label."""
    from webauthn_rp.errors import ParserError, WebAuthnRPError
    from wv.core import short
    verdict, exp = ref
    if verdict == 'ok' and isinstance(data, (bytes, str)):
        # the caller owns what it gets: an earlier result of the same input is spoilt first
        try:
            vandalise(call(data))
            ctx.count('spoilt-results')
        except Exception:  # noqa: judged below
            pass
    try:
        got = call(data)
    except Exception as e:  # noqa
        got, exc = None, e
        e.__traceback__ = None
    else:
        exc = None
    ctx.count('%s:%s' % (name, verdict))
    shown = data.hex() if isinstance(data, bytes) else repr(data)
    if exc is not None:
        if verdict == 'ok':
            ctx.violation('%s rejected a well-formed input (%s): %s(%s)' % (name, what, type(exc).__name__, str(exc)[:100]), data=shown)
        elif verdict == 'reject' and not isinstance(exc, ParserError if parsing else WebAuthnRPError):
            ctx.violation('%s rejected with a foreign error %s (%s)' % (name, type(exc).__name__, exp), data=shown)
    elif verdict == 'reject':
        ctx.violation('%s accepted a malformed input: %s %s' % (name, exp, what), data=shown)
    elif verdict == 'ok' or type(exp) is Either:
        if verdict != 'ok':
            exp = exp.value
            ctx.count(name + ':either')
        try:
            obs = lib(got)
        except Exception as e:  # noqa
            obs = 'a value that cannot be read back: %r' % e
        if not same(obs, exp):
            ctx.violation('%s decoded %s as %s (%s)' % (name, short(exp, 500), short(obs, 500), what), data=shown)
    ctx.judged((name, data if isinstance(data, bytes) else repr(data)))
    return verdict, got
