"""Pure-Python reference ECDSA (P-256/384/521) and EdDSA (Ed25519/Ed448) verification."""
import hashlib

CURVES = {
    'P-256': dict(
        p=0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
        b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
        gx=0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
        gy=0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, size=32),
    'P-384': dict(
        p=2**384 - 2**128 - 2**96 + 2**32 - 1,
        b=0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
        n=0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
        gx=0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
        gy=0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f, size=48),
    'P-521': dict(
        p=2**521 - 1,
        b=0x0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
        n=int('01' + 'ff' * 32 + 'fa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409', 16),
        gx=0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
        gy=0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650, size=66),
}
HASHES = {'ES256': 'sha256', 'ES384': 'sha384', 'ES512': 'sha512'}


def on_curve(curve, x, y):
    c = CURVES[curve]
    p = c['p']
    return 0 <= x < p and 0 <= y < p and (y * y - (x * x * x - 3 * x + c['b'])) % p == 0


def _dbl(P, p):
    X, Y, Z = P
    if not Y or not Z:
        return (1, 1, 0)
    d = Z * Z % p
    g = Y * Y % p
    b = X * g % p
    a = 3 * (X - d) * (X + d) % p
    X3 = (a * a - 8 * b) % p
    Z3 = ((Y + Z) ** 2 - g - d) % p
    Y3 = (a * (4 * b - X3) - 8 * g * g) % p
    return X3, Y3, Z3


def _add(P, Q, p):
    if not P[2]:
        return Q
    if not Q[2]:
        return P
    X1, Y1, Z1 = P
    X2, Y2, Z2 = Q
    z1 = Z1 * Z1 % p
    z2 = Z2 * Z2 % p
    u1 = X1 * z2 % p
    u2 = X2 * z1 % p
    s1 = Y1 * Z2 * z2 % p
    s2 = Y2 * Z1 * z1 % p
    if u1 == u2:
        return _dbl(P, p) if s1 == s2 else (1, 1, 0)
    h = u2 - u1
    r = s2 - s1
    h2 = h * h % p
    h3 = h * h2 % p
    v = u1 * h2 % p
    X3 = (r * r - h3 - 2 * v) % p
    return X3, (r * (v - X3) - s1 * h3) % p, h * Z1 * Z2 % p


def _mul2(a, P, b, Q, p):
    """a*P + b*Q by Shamir's trick."""
    R = (1, 1, 0)
    PQ = _add(P, Q, p)
    for i in range(max(a.bit_length(), b.bit_length()) - 1, -1, -1):
        R = _dbl(R, p)
        x, y = a >> i & 1, b >> i & 1
        if x and y:
            R = _add(R, PQ, p)
        elif x:
            R = _add(R, P, p)
        elif y:
            R = _add(R, Q, p)
    return R


def der_sig(sig):
    """Strict DER ECDSA-Sig-Value -> (r, s) or None."""
    def ln(i):
        if i >= len(sig):
            raise ValueError
        b = sig[i]
        if b < 0x80:
            return b, i + 1
        k = b & 0x7f
        if k == 0 or k > 2 or i + 1 + k > len(sig):
            raise ValueError
        n = int.from_bytes(sig[i + 1:i + 1 + k], 'big')
        if n < 0x80 or (k == 2 and n < 256):
            raise ValueError
        return n, i + 1 + k
    try:
        if sig[0] != 0x30:
            return None
        n, i = ln(1)
        if i + n != len(sig):
            return None
        out = []
        for _ in range(2):
            if sig[i] != 2:
                return None
            n, i = ln(i + 1)
            b = sig[i:i + n]
            if len(b) != n or n == 0:
                return None
            if n > 1 and (b[0] == 0 and b[1] < 0x80 or b[0] == 0xff and b[1] >= 0x80):
                return None
            out.append(int.from_bytes(b, 'big', signed=True))
            i += n
        return tuple(out) if i == len(sig) else None
    except (ValueError, IndexError):
        return None


def ecdsa_verify(curve, alg, x, y, sig, data):
    c = CURVES[curve]
    rs = der_sig(sig)
    if rs is None:
        return False
    r, s = rs
    n, p = c['n'], c['p']
    if not (0 < r < n and 0 < s < n) or not on_curve(curve, x, y):
        return False
    h = hashlib.new(HASHES[alg], data).digest()
    z = int.from_bytes(h, 'big')
    excess = 8 * len(h) - n.bit_length()
    if excess > 0:
        z >>= excess
    w = pow(s, -1, n)
    R = _mul2(z * w % n, (c['gx'], c['gy'], 1), r * w % n, (x, y, 1), p)
    if not R[2]:
        return False
    zi = pow(R[2], -1, p)
    return R[0] * zi * zi % p % n == r


# --- EdDSA (RFC 8032) ---------------------------------------------------------
class _Ed:
    def __init__(self, p, d, a, L, B, size):
        self.p, self.d, self.a, self.L, self.B, self.size = p, d, a, L, B, size

    def add(self, P, Q):   # complete projective twisted Edwards addition
        p = self.p
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        A = Z1 * Z2 % p
        B = A * A % p
        C = X1 * X2 % p
        D = Y1 * Y2 % p
        E = self.d * C * D % p
        F, G = B - E, B + E
        return (A * F * ((X1 + Y1) * (X2 + Y2) - C - D) % p, A * G * (D - self.a * C) % p, F * G % p)

    def mul(self, k, P):
        R = (0, 1, 1)
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def eq(self, P, Q):
        p = self.p
        return (P[0] * Q[2] - Q[0] * P[2]) % p == 0 and (P[1] * Q[2] - Q[1] * P[2]) % p == 0

    def decode(self, b):
        if len(b) != self.size:
            return None
        n = int.from_bytes(b, 'little')
        sign = n >> (8 * self.size - 1)
        y = n & ((1 << (8 * self.size - 1)) - 1)
        if y >= self.p:
            return None
        p = self.p
        u, v = (y * y - 1) % p, (self.d * y * y - self.a) % p
        x2 = u * pow(v, -1, p) % p
        if p % 4 == 3:
            x = pow(x2, (p + 1) // 4, p)
        else:
            x = pow(x2, (p + 3) // 8, p)
            if (x * x - x2) % p:
                x = x * pow(2, (p - 1) // 4, p) % p
        if (x * x - x2) % p:
            return None
        if x == 0 and sign:
            return None
        if x & 1 != sign:
            x = p - x
        return (x, y, 1)


_p25519 = 2**255 - 19
_p448 = 2**448 - 2**224 - 1
_ED25519 = _Ed(_p25519, -121665 * pow(121666, -1, _p25519) % _p25519, -1,
               2**252 + 27742317777372353535851937790883648493,
               (15112221349535400772501151409588531511454012693041857206046113283949847762202,
                46316835694926478169428394003475163141307993866256225615783033603165251855960, 1), 32)
_ED448 = _Ed(_p448, -39081 % _p448, 1,
             2**446 - 13818066809895115352007386748515426880336692474882178609894547503885,
             (224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
              298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660, 1), 57)


def eddsa_verify(curve, pk, sig, data):
    E = _ED25519 if curve == 'Ed25519' else _ED448
    if len(sig) != 2 * E.size:
        return False
    A, R = E.decode(pk), E.decode(sig[:E.size])
    S = int.from_bytes(sig[E.size:], 'little')
    if A is None or R is None or S >= E.L:
        return False
    if curve == 'Ed25519':
        h = hashlib.sha512(sig[:32] + pk + data).digest()
    else:
        h = hashlib.shake_256(b'SigEd448\x00\x00' + sig[:57] + pk + data).digest(114)
    k = int.from_bytes(h, 'little') % E.L
    return E.eq(E.mul(S, E.B), E.add(R, E.mul(k, A)))
