from hypothesis import strategies as st
from ref import secp
from vp import gen
from vp.core import Check
from vp.lib import utils, G
from bitforge.utils import ellipticcurve as ec, numbertheory as nt, intbytes, ecdsa as uecdsa

check = Check('C10', 'points of secp256k1 and of small prime-order curves (every pair of points of each small curve), '
              'residues modulo primes of every class mod 8, byte strings and integers; non-trivial: all, labelled')
N, P = gen.N, gen.P


# ------------------------------------------------------------------ small curves, exhaustively

def small_curves():
    """Curves y^2 = x^3 + ax + b of prime order > 3 over small primes, with all their points (brute force)."""
    out = []
    for p in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 61, 67, 97):
        found = 0
        for a in range(p):
            for b in range(1, p):
                if (4 * a ** 3 + 27 * b * b) % p == 0:
                    continue
                pts = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
                n = len(pts) + 1
                if n > 3 and n != p and all(n % q for q in range(2, n)):
                    out.append([p, a, b, n])
                    found += 1
                    break
            if found >= 3:
                break
    return out


CURVES = small_curves()


def slow_add(p, a, u, v):
    if u is None:
        return v
    if v is None:
        return u
    if u[0] == v[0] and (u[1] + v[1]) % p == 0:
        return None
    if u == v:
        m = (3 * u[0] ** 2 + a) * pow(2 * u[1], -1, p)
    else:
        m = (v[1] - u[1]) * pow(v[0] - u[0], -1, p)
    x = (m * m - u[0] - v[0]) % p
    return x, (m * (u[0] - x) - u[1]) % p


def pt_of(q):
    """library Point -> tuple with reduced coordinates, or None at infinity"""
    return None if q == ec.INFINITY else (q.x(), q.y())


@check.sub('small-curve', None, fixed=lambda: CURVES,
           rule='every ordered pair of points, every scalar 0..2n+3 of each curve')
def small_curve(c, t):
    p, a, b, n = t
    curve = ec.CurveFp(p, a, b)
    pts = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
    for x in range(p):
        for y in range(p):
            c.eq(bool(curve.contains_point(x, y)), (x, y) in pts, 'contains_point(%d, %d)' % (x, y))
    lib = dict((q, ec.Point(curve, *q)) for q in pts)
    lib[None] = ec.INFINITY
    for u in lib:
        for v in lib:
            c.eq(pt_of(lib[u] + lib[v]), slow_add(p, a, u, v), '%s + %s on %s' % (u, v, t))
        c.eq(pt_of(lib[u].double()), slow_add(p, a, u, u), 'double')
        acc = None
        for k in range(0, 2 * n + 4):
            c.eq(pt_of(lib[u] * k), acc, '%d * %s on %s' % (k, u, t))
            c.eq(pt_of(k * lib[u]), acc, '%d * %s on %s' % (k, u, t))
            acc = slow_add(p, a, acc, u)
    gp = ec.Point(curve, pts[0][0], pts[0][1], n)
    for x in range(p):
        ys = [y for y in range(p) if (x, y) in pts]
        for even in (True, False):
            if ys and [y for y in ys if (y % 2 == 0) == even]:
                c.eq(tuple(uecdsa.public_pair_for_x(gp, x, even)), (x, [y for y in ys if (y % 2 == 0) == even][0]), 'point for x = %d on %s' % (x, t))
        for y in range(-1, p + 2):
            c.eq(bool(uecdsa.is_public_pair_valid(gp, (x, y))), (x, y) in pts, 'is_public_pair_valid(%d, %d)' % (x, y))
            c.eq(bool(uecdsa.is_public_pair_valid(gp, (x + p, y))), False, 'is_public_pair_valid(%d + p, %d)' % (x, y))
            c.eq(bool(uecdsa.is_public_pair_valid(gp, (x - p, y))), False, 'is_public_pair_valid(%d - p, %d)' % (x, y))
    for s in range(1, n):
        c.eq(tuple(uecdsa.public_pair_for_secret_exponent(gp, s)), pt_of(gp * s), 'public_pair_for_secret_exponent')
    for u in pts:                                       # with the order given
        o = ec.Point(curve, u[0], u[1], n)
        acc = None
        for k in range(0, n + 2):
            c.eq(pt_of(o * k), acc, '%d * %s (with order) on %s' % (k, u, t))
            c.eq(pt_of(o * (k - 3 * n)), acc, 'negative multiple')
            acc = slow_add(p, a, acc, u)
    c.nt('order %d' % n)


@check.sub('off-curve', st.tuples(st.sampled_from(CURVES), st.integers(0, 200), st.integers(0, 200)).map(list), quick=400)
def off_curve(c, t):
    (p, a, b, n), x, y = t
    x, y = x % p, y % p
    curve = ec.CurveFp(p, a, b)
    if (y * y - x ** 3 - a * x - b) % p:
        c.rejects('Point off the curve', lambda: ec.Point(curve, x, y), ValueError)
        c.nt()
    else:
        ec.Point(curve, x, y)


# ------------------------------------------------------------------ secp256k1

scalar = st.one_of(gen.secret, st.sampled_from([0, N, N + 1, 2 * N, 2 * N - 1, 2 ** 256 - 1, 2 ** 256, 2 ** 255, 2 ** 300 + 7, -1, -N,
                                                1 - N]), st.integers(-N, 2 * N))


@check.sub('multiply', st.tuples(scalar, gen.secret).map(list), quick=250, thorough=6000,
           fixed=lambda: [[k, 1] for k in list(range(0, 40)) + [N - i for i in range(-3, 20)]])
def multiply(c, t):
    k, d = t
    q = secp.mul_g(d)
    c.eq(pt_of(G * k), secp.mul_g(k), '%d * G' % k)
    c.eq(pt_of(k * utils.Point(G.curve(), q[0], q[1], N)), secp.mul(k, q), 'k * Q')
    if k >= 0:
        c.eq(pt_of(utils.Point(G.curve(), q[0], q[1]) * k), secp.mul(k, q), 'k * Q, order not given')
    c.nt('k >= n' if k >= N else 'k <= 0' if k <= 0 else 'plain')


@check.sub('addition', st.tuples(gen.secret, gen.secret, st.sampled_from(['any', 'same', 'opposite', 'infinity'])).map(list),
           quick=1000, thorough=20000)
def addition(c, t):
    a, b, kind = t
    b = {'any': b, 'same': a, 'opposite': N - a, 'infinity': b}[kind]
    qa, qb = secp.mul_g(a), secp.mul_g(b)
    la = utils.Point(G.curve(), *qa)
    lb = ec.INFINITY if kind == 'infinity' else utils.Point(G.curve(), *qb)
    want = qa if kind == 'infinity' else secp.add(qa, qb)
    c.eq(pt_of(la + lb), want, 'a + b')
    c.eq(pt_of(lb + la), want, 'b + a')
    c.eq(pt_of(la.double()), secp.add(qa, qa), 'double')
    c.nt(kind)


@check.sub('lift-x', st.tuples(st.one_of(st.integers(0, P - 1), gen.secret.map(lambda s: secp.mul_g(s)[0])), st.booleans()).map(list),
           quick=1500, thorough=20000)
def lift_x(c, t):
    x, even = t
    want = secp.lift_x(x, not even)
    if want is None:
        return
    c.eq(tuple(uecdsa.public_pair_for_x(G, x, even)), want, 'point for x')
    c.eq(bool(uecdsa.is_public_pair_valid(G, want)), True, 'is_public_pair_valid')
    c.eq(bool(uecdsa.is_public_pair_valid(G, (x, want[1] ^ 1))), secp.on_curve(x, want[1] ^ 1), 'is_public_pair_valid')
    c.nt('even' if even else 'odd')


# ------------------------------------------------------------------ number theory

def least_nonresidue_records():
    """primes = 1 mod 4 whose least quadratic non-residue is larger than any smaller one's"""
    out, best = [], 0
    for p in [q for q in [*range(5, 60000, 4), 87481, 117049, 515761, 1083289, 3206641, 3818929, 9257329]
              if all(q % f for f in range(3, int(q ** 0.5) + 1, 2))]:
        n = next(n for n in range(2, p) if pow(n, (p - 1) // 2, p) == p - 1)
        if n > best:
            best, out = n, out + [p]
    return out


HARD_PRIMES = least_nonresidue_records()
PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 61, 73, 89, 97, 193, 257, 641, 769, 12289, 40961, 65537, 786433, 7340033,
          2 ** 31 - 1, 2013265921, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19, P, N, 2 ** 224 - 2 ** 96 + 1,
          2 ** 192 - 2 ** 64 - 1, 2 ** 521 - 1, 18446744069414584321] + HARD_PRIMES


@check.sub('inverse', st.tuples(st.integers(-2 ** 260, 2 ** 260), st.one_of(st.sampled_from(PRIMES), st.integers(2, 2 ** 64))).map(list),
           quick=4000, thorough=100000)
def inverse(c, t):
    a, m = t
    import math
    if math.gcd(a, m) != 1:
        return
    v = nt.inverse_mod(a, m)
    c.ok(isinstance(v, int) and 0 <= v < m and v * a % m == 1 % m, 'inverse of %d modulo %d' % (a, m), v)
    c.nt('negative' if a < 0 else 'reduced' if a < m else 'large')


@check.sub('sqrt', st.tuples(st.sampled_from(PRIMES), st.integers(0, 2 ** 530)).map(list), quick=4000, thorough=60000,
           fixed=lambda: [[p, a] for p in PRIMES if p < 200 for a in range(p)])
def sqrt(c, t):
    p, a = t
    a %= p
    square = a == 0 or pow(a, (p - 1) // 2, p) == 1
    r = nt.modular_sqrt(a, p)
    if square:
        c.ok(isinstance(r, int) and 0 <= r < p and r * r % p == a, 'sqrt(%d) mod %d' % (a, p), r)
    else:
        c.eq(r, 0, 'sqrt of a non-residue %d mod %d' % (a, p))
    c.eq(nt.legendre_symbol(a, p), 0 if a == 0 else 1 if square else -1, 'legendre_symbol(%d, %d)' % (a, p))
    r2 = nt.modular_sqrt(a * a % p, p)
    c.ok(r2 in (a, (p - a) % p), 'sqrt of a square', r2, a, p)
    r3 = nt.modular_sqrt(a * a, p)              # not reduced
    c.ok(r3 in (a, (p - a) % p), 'sqrt of a square that is not reduced', r3, a, p)
    r4 = nt.modular_sqrt(a + 3 * p, p)
    c.eq(r4 * r4 % p, a if square else 0, 'sqrt(%d + 3p) mod %d' % (a, p))
    c.nt('p = %d mod 8' % (p % 8))


# ------------------------------------------------------------------ integers and bytes

@check.sub('intbytes', st.tuples(st.integers(0, 2 ** 520), st.integers(0, 8), st.sampled_from(['big', 'little'])).map(list),
           quick=3000, fixed=lambda: [[v, 0, o] for v in (0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 64 - 1, 2 ** 64)
                                      for o in ('big', 'little')])
def int_bytes(c, t):
    v, extra, order = t
    n = (v.bit_length() + 7) // 8
    raw = v.to_bytes(n + extra, order)
    c.eq(intbytes.to_bytes(v, n + extra, order), raw, 'to_bytes')
    c.eq(intbytes.from_bytes(raw, order), v, 'from_bytes')
    c.eq(intbytes.from_bytes(raw, order, True), int.from_bytes(raw, order, signed=True), 'from_bytes, signed')
    c.eq(intbytes.to_bytes(v, n + extra), v.to_bytes(n + extra, 'big'), 'to_bytes, default order')
    c.eq(intbytes.from_bytes(raw), int.from_bytes(raw, 'big'), 'from_bytes, default order')
    c.eq(intbytes.int_to_bytes(v), v.to_bytes(n, 'big'), 'int_to_bytes')
    c.eq(intbytes.int_from_bytes(raw), int.from_bytes(raw, 'big'), 'int_from_bytes')
    c.nt('%d bytes' % n)


@check.sub('small-ints', st.lists(st.integers(0, 255), max_size=20), quick=500)
def small_ints(c, l):
    c.eq(intbytes.bytes_from_ints(l), bytes(l), 'bytes_from_ints')
    c.eq(list(intbytes.bytes_to_ints(bytes(l))), l, 'bytes_to_ints')
    for v in l:
        c.eq(intbytes.bytes_from_int(v), bytes([v]), 'bytes_from_int')
    c.nt()
