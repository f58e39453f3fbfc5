from hypothesis import strategies as st
from ref import secp
from vp import gen
from vp.core import Check
from vp.lib import bf, NET

check = Check('C04', 'public key encodings: canonical ones, and ones with a wrong marker, length, parity, or coordinates '
              'that are off the curve or not reduced; non-trivial: 33 or 65 bytes, or one byte away from it')
K = bf.PublicKey
P = gen.P


def points_with_small_x():
    out = []
    x = 0
    while len(out) < 12:
        x += 1
        if secp.lift_x(x, False):
            out.append(x)
    return out


SMALL_X = points_with_small_x()


def points_with_small_y():
    """points whose y is below 2**256 - p, so that y + p still fits in 32 bytes"""
    out = []
    y = 0
    while len(out) < 12:
        y += 1
        a = (y * y - 7) % P
        x = pow(a, (P + 2) // 9, P)              # a cube root, when there is one (p = 7 mod 9)
        if pow(x, 3, P) == a:
            out.append((x, y))
    return out


SMALL_Y = points_with_small_y()

def find_by_y(y, step=1):
    """a point whose y is the given one, or the next at a multiple of `step` from it"""
    while True:
        y %= P
        a = (y * y - 7) % P
        x = pow(a, (P + 2) // 9, P)
        if pow(x, 3, P) == a:
            return x, y
        y += step


def shaped_y(t):
    """y of `n` bytes' worth of digits, put at the start, the end or inside of the 32 bytes"""
    v, lead, tail, neg = t
    lead, tail = (lead, tail) if lead + tail < 30 else (lead % 15, tail % 15)
    top = 2 ** (8 * (32 - lead))
    x, y = find_by_y((v % top) >> (8 * tail) << (8 * tail), 1 << (8 * tail))
    return x, P - y if neg else y


BY_Y = [shaped_y((v, lead, tail, neg)) for v in (2 ** 256 // 3, 2 ** 256 * 4 // 5) for lead, tail in [(a, 0) for a in range(12)] + [(0, b) for b in range(1, 12)] + [(2, 2), (16, 0), (0, 16), (8, 8)]
        for neg in (False, True)]
by_y = st.one_of(st.sampled_from(BY_Y), st.tuples(st.integers(0, P - 1), st.integers(0, 28), st.integers(0, 28), st.booleans()).map(shaped_y),
                 gen.touched(st.binary(min_size=32, max_size=32)).map(lambda b: find_by_y(int.from_bytes(b, 'big'))))
point = st.one_of(
    gen.secret.map(secp.mul_g),
    by_y,
    st.tuples(st.integers(0, P - 1), st.booleans()).map(lambda t: find_point(*t)),
    st.tuples(st.sampled_from(SMALL_X), st.booleans()).map(lambda t: secp.lift_x(*t)),
    st.tuples(gen.touched(st.binary(min_size=32, max_size=32)), st.booleans()).map(lambda t: find_point(int.from_bytes(t[0], 'big'), t[1])),
    st.tuples(st.sampled_from(SMALL_Y), st.booleans()).map(lambda t: (t[0][0], P - t[0][1] if t[1] else t[0][1])),
    st.tuples(st.integers(1, 31), st.integers(0, 2 ** 240), st.booleans()).map(
        lambda t: find_point(t[1] >> (8 * t[0]), t[2])),
)


def find_point(x, odd):
    while True:
        p = secp.lift_x(x % P, odd)
        if p:
            return p
        x += 1


def b32(v):
    return (v % 2 ** 256).to_bytes(32, 'big')


def verdict(c, raw, label=None):
    want = secp.parse_sec(raw)
    if want is None:
        c.rejects('from_bytes(%s)' % raw.hex(), lambda: K.from_bytes(raw), K.Error)
        c.rejects('from_hex', lambda: K.from_hex(raw.hex()), K.Error)
        c.rejects('from_bytes(%s), testnet' % raw.hex(), lambda: K.from_bytes(raw, NET['testnet']), K.Error)
        c.rejects('from_hex, testnet', lambda: K.from_hex(raw.hex(), 'testnet'), K.Error)
        c.label('rejected')
    else:
        for what, k in (('from_bytes', K.from_bytes(raw)), ('from_hex', K.from_hex(raw.hex())),
                        ('from_hex upper case', K.from_hex(raw.hex().upper()))):
            c.eq(tuple(k.pair), want[0], what + ' point')
            c.eq(k.compressed, want[1], what + ' compressed')
            c.eq(k.network, NET['livenet'], what + ' default network')
            c.eq(k.to_bytes(), raw, what + ' read and written again')
        for k in (K.from_bytes(raw, NET['testnet']), K.from_hex(raw.hex(), 'testnet')):
            c.eq(k.network, NET['testnet'], 'network')
            c.eq(k.to_hex(), raw.hex(), 'to_hex')
            c.eq(tuple(k.pair), want[0], 'testnet point')
            c.eq(k.compressed, want[1], 'testnet compressed')
        c.label('accepted')
    if label or len(raw) in (32, 33, 34, 64, 65, 66):
        c.nt(*([label] if label else []))


FORMS = ['c', 'u', 'flip-parity', 'hybrid-good', 'hybrid-bad', 'marker', 'y-neg', 'y+1', 'x+p', 'y+p', 'x+p comp',
         'short', 'long', 'zero-pad', 'c-as-u', 'u-as-c', 'x-only', 'swap', 'no-marker', 'bit', 'zero-y']


def build(t):
    form, (x, y), n = t
    comp = secp.sec((x, y), True)
    unc = secp.sec((x, y), False)
    return {
        'c': lambda: comp, 'u': lambda: unc,
        'flip-parity': lambda: bytes([comp[0] ^ 1]) + comp[1:],
        'hybrid-good': lambda: bytes([6 + (y & 1)]) + unc[1:],
        'hybrid-bad': lambda: bytes([7 - (y & 1)]) + unc[1:],
        'marker': lambda: bytes([n % 256]) + (comp if n & 1 else unc)[1:],
        'y-neg': lambda: b'\4' + b32(x) + b32(P - y),
        'y+1': lambda: b'\4' + b32(x) + b32(y + 1),
        'x+p': lambda: b'\4' + b32(x + P) + b32(y),
        'y+p': lambda: b'\4' + b32(x) + b32(y + P),
        'x+p comp': lambda: comp[:1] + b32(x + P),
        'short': lambda: (comp if n & 1 else unc)[:-(1 + n % 4)],
        'long': lambda: (comp if n & 1 else unc) + bytes(1 + n % 4),
        'zero-pad': lambda: comp[:1] + b'\0' + comp[1:],
        'c-as-u': lambda: b'\4' + comp[1:],
        'u-as-c': lambda: comp[:1] + unc[1:],
        'x-only': lambda: b32(x), 'no-marker': lambda: unc[1:],
        'swap': lambda: b'\4' + b32(y) + b32(x),
        'bit': lambda: flip(unc if n & 1 else comp, n),
        'zero-y': lambda: b'\4' + b32(x) + bytes(32),
    }[form]()


def flip(raw, n):
    i = n % (8 * len(raw))
    b = bytearray(raw)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


@check.sub('decode', st.tuples(st.sampled_from(FORMS), point, st.integers(0, 600)).map(list), quick=4000, thorough=100000,
           fixed=lambda: [[f, list(secp.mul_g(s)), 7] for v in gen.SPECIAL.values() for s in v for f in FORMS] + [[f, list(q), 7] for q in BY_Y for f in FORMS])
def decode(c, t):
    verdict(c, build((t[0], tuple(t[1]), t[2])), t[0])


def edge_raw():
    out = [b'', b'\0', b'\2', b'\3', b'\4']
    for x in [0, 1, 5, P - 1, P, P + 1, P + 3, 2 ** 256 - 1] + SMALL_X + [P + s for s in SMALL_X]:
        if x < 2 ** 256:
            for m in (2, 3):
                out.append(bytes([m]) + b32(x))
    for x in SMALL_X:
        for odd in (False, True):
            q = secp.lift_x(x, odd)
            out.append(secp.sec(q, False))
            out.append(b'\4' + b32(x + P) + b32(q[1]))
    for x, y in SMALL_Y:
        out += [b'\4' + b32(x) + b32(v) for v in (y, y + P, P - y)] + [secp.sec((x, y)), secp.sec((x, P - y))]
        out += [b'\4' + b32(x) + (v % 2 ** 256).to_bytes(32, 'little') for v in (y, -y)]
    for m in range(256):
        out.append(bytes([m]) + secp.sec(secp.G)[1:])
        out.append(bytes([m]) + secp.sec(secp.G, False)[1:])
    for n in range(0, 140):
        out.append(b'\2' + secp.sec(secp.G, False)[1:][:n])
        out.append(b'\4' + (secp.sec(secp.G, False)[1:] * 3)[:n])
    return out


@check.sub('raw', st.one_of(
    st.binary(max_size=70), st.binary(min_size=33, max_size=33), st.binary(min_size=65, max_size=65),
    st.tuples(st.sampled_from([b'\2', b'\3']), st.binary(min_size=32, max_size=32)).map(lambda t: t[0] + t[1]),
    st.binary(min_size=64, max_size=64).map(lambda b: b'\4' + b)), quick=3000, thorough=60000, fixed=edge_raw)
def raw(c, b):
    verdict(c, b)


@check.sub('pair', st.tuples(st.sampled_from(['on', 'neg', 'y+1', 'x+1', 'x+p', 'y+p', 'x-p', 'y-p', 'zero', 'swap', 'any']),
                             point, st.integers(0, 2 ** 256), st.integers(0, 2 ** 256)).map(list),
           quick=2000, thorough=40000, fixed=lambda: [[f, q, 0, 0] for f in ('on', 'neg', 'x+p', 'y+p', 'x-p', 'y-p', 'swap') for q in SMALL_Y + [secp.lift_x(x, o) for x in SMALL_X for o in (False, True)]]
           + [['any', secp.G, i, j] for i in (0, 1, P - 1, P, P + 1, 2 ** 256 - 1, 2 ** 256, 2 ** 257, -1) for j in (0, 1, P - 1, P, P + 1, 2 ** 256 - 1, 2 ** 256, 2 ** 257, -1)])
def pair(c, t):
    form, (x, y), i, j = t
    x, y = {'on': (x, y), 'neg': (x, P - y), 'y+1': (x, y + 1), 'x+1': (x + 1, y), 'x+p': (x + P, y), 'y+p': (x, y + P),
            'x-p': (x - P, y), 'y-p': (x, y - P), 'zero': (0, 0), 'swap': (y, x), 'any': (i, j)}[form]
    if secp.on_curve(x, y):
        k = K((x, y))
        c.eq(tuple(k.pair), (x, y), 'pair')
        c.eq(k.to_bytes(), secp.sec((x, y)), 'to_bytes')
        c.eq(K((x, y), NET['testnet'], False).to_bytes(), secp.sec((x, y), False), 'uncompressed')
    else:
        for kind in ((), ('livenet', False), ('testnet', True), (NET['testnet'], False)):
            c.rejects('PublicKey((%d, %d), %r)' % (x, y, kind), lambda: K((x, y), *kind), K.Error)
    c.nt(form)


@check.sub('hex-text', st.one_of(st.text(max_size=70), point.map(lambda p: secp.sec(p).hex()[:-1]), point.map(
    lambda p: '0x' + secp.sec(p).hex()), point.map(lambda p: secp.sec(p).hex() + 'g'),
    point.map(lambda p: secp.sec(p).hex() + ' '), gen.weird(point.map(lambda p: secp.sec(p).hex())), gen.weird(point.map(lambda p: secp.sec(p, False).hex()))), quick=1200,
    fixed=lambda: [ch * n for ch in gen.WEIRD for n in (1, 66, 130)])
def hex_text(c, text):
    try:
        if any(ch not in '0123456789abcdefABCDEF' for ch in text):
            raise ValueError
        rawb = bytes.fromhex(text)
    except ValueError:
        rawb = b''
    if secp.parse_sec(rawb) is None:
        c.rejects('from_hex(%r)' % text, lambda: K.from_hex(text), K.Error)
        c.rejects('from_hex(%r), testnet' % text, lambda: K.from_hex(text, 'testnet'), K.Error)
    c.nt()
