"""Reference secp256k1 and ECDSA in plain integers; imports nothing of the code under test"""
import functools

from mc.ref import sha256

P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def on_curve(p):
    return p is not None and 0 <= p[0] < P and 0 <= p[1] < P and (p[1] * p[1] - p[0] ** 3 - 7) % P == 0


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def _jdouble(p):
    x, y, z = p
    if not y:
        return 0, 1, 0
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2, s1, s2 = p[0] * z2 % P, q[0] * z1 % P, p[1] * q[2] * z2 % P, q[1] * p[2] * z1 % P
    if u1 == u2:
        return _jdouble(p) if s1 == s2 else (0, 1, 0)
    h, r = u2 - u1, s2 - s1
    h2 = h * h % P
    h3, v = h * h2 % P, u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return x, (r * (v - x) - s1 * h3) % P, h * p[2] * q[2] % P


def mul(k, p):
    """k times the point, by double and add in Jacobian coordinates"""
    k %= N
    if p is None or not k:
        return None
    q, r = (p[0], p[1], 1), (0, 1, 0)
    while k:
        if k & 1:
            r = _jadd(r, q)
        q = _jdouble(q)
        k >>= 1
    if not r[2]:
        return None
    i = pow(r[2], -1, P)
    return r[0] * i * i % P, r[1] * i * i * i % P


@functools.lru_cache(None)
def public(secret):
    return mul(int.from_bytes(secret, 'big'), G)


def encode(point, compressed=True):
    x = point[0].to_bytes(32, 'big')
    return bytes([2 + point[1] % 2]) + x if compressed else b'\4' + x + point[1].to_bytes(32, 'big')


@functools.lru_cache(None)
def decode(b):
    """The point a byte string encodes, compressed, uncompressed or hybrid; None if it is no such encoding"""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P:
            return None
        y = pow(x ** 3 + 7, (P + 1) // 4, P)
        if y * y % P != (x ** 3 + 7) % P:
            return None
        return x, (y if y % 2 == b[0] % 2 else P - y)
    if len(b) == 65 and b[0] in (4, 6, 7):
        p = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        return p if on_curve(p) and (b[0] == 4 or p[1] % 2 == b[0] % 2) else None
    return None


def der_int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big')
    return b'\2' + bytes([len(b)]) + b


def der(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def undend(b):
    """(r, s) of a strictly DER-encoded pair of positive integers, None for anything else"""
    try:
        if b[0] != 0x30 or b[1] != len(b) - 2 or b[2] != 2:
            return None
        n = b[3]
        r = b[4:4 + n]
        if b[4 + n] != 2:
            return None
        m = b[5 + n]
        s = b[6 + n:]
        if len(s) != m or len(r) != n or not n or not m:
            return None
        for i in (r, s):
            if i[0] & 0x80 or (len(i) > 1 and i[0] == 0 and not i[1] & 0x80):
                return None
        return int.from_bytes(r, 'big'), int.from_bytes(s, 'big')
    except IndexError:
        return None


@functools.lru_cache(None)
def sign(secret, digest, extra=0):
    """(r, s), with a nonce that depends on everything"""
    d, z = int.from_bytes(secret, 'big'), int.from_bytes(digest, 'big')
    k = int.from_bytes(sha256(b'nonce' + secret + digest + bytes([extra])), 'big') % N
    r = mul(k, G)[0] % N
    return r, pow(k, -1, N) * (z + r * d) % N


@functools.lru_cache(None)
def verify_rs(point, digest, r, s):
    if point is None or not (0 < r < N and 0 < s < N):
        return False
    z, w = int.from_bytes(digest, 'big'), pow(s, -1, N)
    q = add(mul(z * w, G), mul(r * w, point))
    return q is not None and q[0] % N == r


def verify(key, digest, sig):
    rs = undend(sig)
    return rs is not None and verify_rs(decode(key), digest, *rs)


def signed_by(x, s, digest):
    """The key that (x mod n, s) is a signature of the digest by, None if there is none"""
    R = decode(b'\2' + x.to_bytes(32, 'big'))
    r = x % N
    if R is None or not r:
        return None
    z, w = int.from_bytes(digest, 'big'), pow(r, -1, N)
    return add(mul(s * w, R), mul(-z * w, G))


def numbers():
    """Pairs of an x coordinate and an s that cover the lengths, signs and ends of the numbers of a signature"""
    def near(v):
        while decode(b'\2' + v.to_bytes(32, 'big')) is None:
            v += 1
        return v
    xs = [near(v) for v in [1, 2, 0x80, 0xff, 0x8000] + [1 << (8 * k + 7) for k in range(3, 31, 4)] + [1 << (8 * k) for k in (7, 16, 21, 30, 31)] + [2 ** 255, N - 200, N + 1]]
    ss = [1, 2, 0x7f, 0x80, 0xff, 0x100, 0x8000] + [1 << (8 * k + 7) for k in range(3, 31, 4)] + [1 << (8 * k) for k in (7, 16, 21, 30, 31)] + [N // 2, N // 2 + 1, N - 2, N - 1]
    return xs, ss
