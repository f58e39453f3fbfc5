"""Independent secp256k1 / ECDSA / RFC 6979 reference (Jacobian arithmetic, nothing shared with /repo)."""
import hashlib
import hmac

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
G = (GX, GY)
HALF_N = N // 2


def _dbl(a):
    x, y, z = a
    if z == 0 or y == 0:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    y3 = (m * (s - x3) - 8 * y * y * y * y) % P
    return (x3, y3, 2 * y * z % P)


def _add(a, b):
    if a[2] == 0:
        return b
    if b[2] == 0:
        return a
    x1, y1, z1 = a
    x2, y2, z2 = b
    z11 = z1 * z1 % P
    z22 = z2 * z2 % P
    u1 = x1 * z22 % P
    u2 = x2 * z11 % P
    s1 = y1 * z22 * z2 % P
    s2 = y2 * z11 * z1 % P
    if u1 == u2:
        return _dbl(a) if s1 == s2 else (0, 1, 0)
    h = u2 - u1
    r = s2 - s1
    h2 = h * h % P
    h3 = h2 * h % P
    v = u1 * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    y3 = (r * (v - x3) - s1 * h3) % P
    return (x3, y3, h * z1 * z2 % P)


def _affine(a):
    x, y, z = a
    if z == 0:
        return None
    zi = pow(z, -1, P)
    z2 = zi * zi % P
    return (x * z2 % P, y * z2 * zi % P)


def _jmul(k, pt):
    r = (0, 1, 0)
    q = (pt[0], pt[1], 1)
    for bit in bin(k)[2:] if k else '':
        r = _dbl(r)
        if bit == '1':
            r = _add(r, q)
    return r


_comb = []


def _gmul(k):
    """k*G with a table of 16^i multiples."""
    if not _comb:
        base = (GX, GY, 1)
        for _ in range(64):
            row = [(0, 1, 0)]
            for _ in range(15):
                row.append(_add(row[-1], base))
            row = [row[0]] + [(lambda p: (p[0], p[1], 1))(_affine(p)) for p in row[1:]]
            _comb.append(row)
            for _ in range(4):
                base = _dbl(base)
    r = (0, 1, 0)
    for i in range(64):
        d = (k >> (4 * i)) & 15
        if d:
            r = _add(r, _comb[i][d])
    return r


def mul_g(k):
    return _affine(_gmul(k % N))


def mul(k, pt):
    return _affine(_jmul(k % N, pt))


def add(a, b):
    ja = (0, 1, 0) if a is None else (a[0], a[1], 1)
    jb = (0, 1, 0) if b is None else (b[0], b[1], 1)
    return _affine(_add(ja, jb))


def on_curve(x, y):
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def lift_x(x, odd):
    """The point with this x and this y parity, or None."""
    if not 0 <= x < P:
        return None
    a = (pow(x, 3, P) + 7) % P
    y = pow(a, (P + 1) // 4, P)
    if y * y % P != a:
        return None
    if (y & 1) != (1 if odd else 0):
        y = P - y
    return (x, y)


def sec(pt, compressed=True):
    x = pt[0].to_bytes(32, 'big')
    if compressed:
        return (b'\3' if pt[1] & 1 else b'\2') + x
    return b'\4' + x + pt[1].to_bytes(32, 'big')


def parse_sec(data):
    """(point, compressed) for a canonical SEC encoding, None otherwise."""
    if len(data) == 33 and data[0] in (2, 3):
        pt = lift_x(int.from_bytes(data[1:], 'big'), data[0] == 3)
        return None if pt is None else (pt, True)
    if len(data) == 65 and data[0] == 4:
        x = int.from_bytes(data[1:33], 'big')
        y = int.from_bytes(data[33:], 'big')
        return ((x, y), False) if on_curve(x, y) else None
    return None


def verify(pt, e, r, s):
    if not (1 <= r < N and 1 <= s < N):
        return False
    w = pow(s, -1, N)
    q = _affine(_add(_gmul(e * w % N), _jmul(r * w % N, pt)))
    return q is not None and q[0] % N == r


def rfc6979_k(secret, e, hash_f=hashlib.sha256, order=N):
    """RFC 6979 nonce for a 256-bit hash value e, any order of 256 bits or fewer."""
    qlen = order.bit_length()
    rolen = (qlen + 7) // 8
    hlen = hash_f().digest_size

    def bits2int(v, bits):
        return v >> (bits - qlen) if bits > qlen else v

    z = bits2int(e, 8 * hlen) % order
    x = secret.to_bytes(rolen, 'big')
    h = z.to_bytes(rolen, 'big')
    v = b'\1' * hlen
    k = b'\0' * hlen
    mac = lambda key, data: hmac.new(key, data, hash_f).digest()
    k = mac(k, v + b'\0' + x + h)
    v = mac(k, v)
    k = mac(k, v + b'\1' + x + h)
    v = mac(k, v)
    while True:
        t = b''
        while len(t) < rolen:
            v = mac(k, v)
            t += v
        c = bits2int(int.from_bytes(t, 'big'), 8 * len(t))
        if 1 <= c < order:
            return c
        k = mac(k, v + b'\0')
        v = mac(k, v)


def sign(secret, e, k=None):
    if k is None:
        k = rfc6979_k(secret, e)
    r = mul_g(k)[0] % N
    s = pow(k, -1, N) * (e + r * secret) % N
    return r, s


def der_int(v):
    b = v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')
    if b[0] & 0x80:
        b = b'\0' + b
    return b'\2' + bytes([len(b)]) + b


def der_sig(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def parse_strict_der(sig):
    """(r, s) when `sig` is the unique strict DER encoding of two non-negative integers below 2^264, else None."""
    if len(sig) < 8 or len(sig) > 72 or sig[0] != 0x30 or sig[1] != len(sig) - 2:
        return None
    if sig[2] != 2:
        return None
    lr = sig[3]
    if lr == 0 or 4 + lr + 2 > len(sig) or sig[4 + lr] != 2:
        return None
    ls = sig[5 + lr]
    if ls == 0 or 6 + lr + ls != len(sig):
        return None
    r = sig[4:4 + lr]
    s = sig[6 + lr:]
    for b in (r, s):
        if b[0] & 0x80 or (len(b) > 1 and b[0] == 0 and not b[1] & 0x80):
            return None
    return int.from_bytes(r, 'big'), int.from_bytes(s, 'big')
