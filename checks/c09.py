import hashlib
from hypothesis import strategies as st
from ref import secp
from vp import gen
from vp.core import Check
from vp.lib import utils, G
from bitforge.utils import ecdsa as uecdsa
from bitforge.utils import ellipticcurve as ec
from checks.c08 import altered, HOWS, NONCES
from checks.c10 import CURVES, slow_add

check = Check('C09', 'secret x hash value (0, n-1, n, n+1, 2^256-1, random) for signing; valid and altered signatures for '
              'verifying; valid signatures for recovery; non-trivial: all, labelled by the kind of value')
N = gen.N
value = st.one_of(st.integers(1, 2 ** 256 - 1), st.sampled_from([1, 2, N - 1, N, N + 1, 2 ** 256 - 1, 2 ** 255, N // 2, N + 2]),
                  st.integers(N - 3, N + 3), gen.byte_len_int(1, 31), st.integers(N, 2 ** 256 - 1), st.integers(gen.P, 2 ** 256 - 1), st.integers(gen.P - 5, gen.P + 5))


@check.sub('sign', st.tuples(gen.secret, value).map(list), quick=700, thorough=20000,
           fixed=lambda: [[s, v] for s in (1, 2, N - 1, gen.SPECIAL['x1'][0]) for v in (0, 1, N - 1, N, N + 1, 2 ** 256 - 1)]
           + [[s, 12345] for s in gen.EDGE_SECRETS])
def sign(c, t):
    s, v = t
    want = secp.sign(s, v)
    c.eq(tuple(utils.sign(G, s, v)), want, 'RFC 6979 signature')
    c.nt('value >= n' if v >= N else 'value < n', 'short secret' if s >> 248 == 0 else 'long secret')


ORDERS = [N, 2 ** 256 - 2 ** 224 + 2 ** 192 - 2 ** 96 + 1, 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
          0x4000000000000000000020108A2E0CC0D99F8A5EF, 0xffffffffffffffffffffffff99def836146bc9b1b4d22831, 2 ** 127 - 1, 8191, 251, 65537,
          2 ** 255 - 19, 2 ** 254 - 245, 2 ** 249 - 75, 2 ** 248 - 237, 2 ** 160 - 47, 2 ** 159 - 91, 2 ** 511 - 187, 2 ** 512 - 569, 2 ** 505 - 137]


@check.sub('nonce', st.fixed_dictionaries({'order': st.sampled_from(ORDERS), 's': st.integers(0, 2 ** 256), 'v': value,
                                           'hash': st.sampled_from(['sha256', 'sha1', 'sha512'])}), quick=3000, thorough=60000)
def nonce(c, t):
    """The nonce generator is RFC 6979's for any order and hash function (hash values as wide as the hash)."""
    n = t['order']
    s = t['s'] % (n - 1) + 1
    hf = getattr(hashlib, t['hash'])
    v = t['v'] % 2 ** (8 * hf().digest_size)
    if n != N and n.bit_length() > 8 * hf().digest_size:
        return                                  # narrower hash than the order: not in the helper's documented domain
    want = secp.rfc6979_k(s, v, hf, n)
    if (v >> max(0, 8 * hf().digest_size - n.bit_length())) >= 2 * n:
        return                                  # the helper reduces once, which is exact below 2n
    got = uecdsa.deterministic_generate_k(n, s, v, hf)
    c.eq(got, want, 'nonce')
    c.ok(1 <= got < n, 'nonce out of range', got)
    c.nt('secp256k1' if n == N else 'other order', t['hash'])


@check.sub('verify', st.fixed_dictionaries({
    'secret': gen.secret, 'v': value, 'k': st.one_of(st.integers(1, N - 1), st.sampled_from(NONCES)),
    'how': st.sampled_from(HOWS), 'n': st.integers(0, 2 ** 256 - 1), 'other': value}), quick=500, thorough=12000)
def verify(c, t):
    r, s = altered(secp.sign(t['secret'], t['v'], t['k']), t['how'], t['n'])
    secret = (t['secret'] + 1) % (N - 1) + 1 if t['how'] == 'key' else t['secret']
    v = t['other'] if t['how'] == 'digest' else t['v'] ^ (1 << t['n'] % 256) if t['how'] == 'digest bit' else t['v']
    pt = secp.mul_g(secret)
    want = secp.verify(pt, v, r, s)
    c.eq(bool(utils.verify(G, pt, v, (r, s))), want, 'verify of (%d, %d), altered by %s' % (r, s, t['how']))
    c.nt(t['how'], 'accepted' if want else 'refused')


@check.sub('degenerate', st.tuples(gen.secret, st.integers(1, N - 1), st.integers(1, N - 1),
                                   st.sampled_from(['infinity', 'equal'])).map(list), quick=120, thorough=2000)
def degenerate(c, t):
    """u1*G + u2*Q at infinity, or u1*G equal to u2*Q: still the right answer."""
    d, r, s, kind = t
    v = (-r * d) % N if kind == 'infinity' else (r * d) % N
    pt = secp.mul_g(d)
    c.eq(bool(utils.verify(G, pt, v, (r, s))), secp.verify(pt, v, r, s), 'verify')
    if kind == 'equal':                      # and a valid one of that shape
        k = t[2]
        rr = secp.mul_g(k)[0] % N
        vv = rr * d % N
        ss = pow(k, -1, N) * (vv + rr * d) % N
        if ss:
            c.eq(bool(utils.verify(G, pt, vv, (rr, ss))), True, 'verify of a valid signature with u1*G = u2*Q')
    c.nt(kind)


def beyond_order():
    """points whose x is at or above the order, so that r is not x"""
    out, x = [], N + 1
    while len(out) < 6:
        if secp.lift_x(x, False):
            out.append(x)
        x += 1
    x = gen.P - 1
    while len(out) < 12:
        if secp.lift_x(x, False):
            out.append(x)
        x -= 1
    return out


BEYOND = beyond_order()


@check.sub('x-beyond-order', st.fixed_dictionaries({'x': st.one_of(st.sampled_from(BEYOND), st.integers(N + 1, gen.P - 1)), 'odd': st.booleans(), 's': st.integers(1, N - 1), 'v': value}),
           quick=60, thorough=1500)
def x_beyond_order(c, t):
    """A nonce point whose x is not below the order: valid signatures nobody can find by signing, but that can be made up."""
    R, x = None, t['x']
    while R is None:
        if not N < x < gen.P:
            x = N + 1
        R, x = secp.lift_x(x, t['odd']), x + 1
    r = R[0] % N
    q = secp.mul(pow(r, -1, N), secp.add(secp.mul(t['s'], R), secp.mul_g(-t['v'])))
    if q is None or R[0] < N:
        return
    want = secp.verify(q, t['v'], r, t['s'])
    assert want
    c.eq(bool(utils.verify(G, q, t['v'], (r, t['s']))), True, 'verify')
    c.eq(bool(utils.verify(G, q, t['v'], (R[0], t['s']))), False, 'verify with r not reduced')
    got = set(tuple(p) for p in utils.possible_public_pairs_for_signature(G, t['v'], (r, t['s'])))
    c.ok(q in got, 'the key is not among the recovered ones', sorted(got))
    for p in got:
        c.ok(secp.on_curve(*p) and secp.verify(p, t['v'], r, t['s']), 'a recovered key does not match the signature', p)
    c.nt()


def small_cases():
    for cv in CURVES:
        for d in range(1, cv[3]):
            if cv[3] <= 13 or d in (1, 2, cv[3] // 2, cv[3] - 1):
                yield [cv, d]


@check.sub('small-curve', None, fixed=small_cases, rule='small curves of prime order: every r and s from -1 to n+1 and hash value 0..n+1 (orders to 13), a grid of them (larger)')
def small_curve(c, t):
    """The generic functions on curves so small that every signature can be tried, where x often is beyond the order."""
    (p, a, b, n), d = t
    curve = ec.CurveFp(p, a, b)
    pts = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
    g = pts[0]
    mult = [None]
    for _ in range(n - 1):
        mult.append(slow_add(p, a, mult[-1], g))
    log = dict((q, i) for i, q in enumerate(mult))
    gen_pt = ec.Point(curve, g[0], g[1], n)
    q = mult[d]

    def ref_verify(pub, v, r, s):
        if not (1 <= r < n and 1 <= s < n):
            return False
        w = pow(s, -1, n)
        z = mult[(v * w + r * w * log[pub]) % n]
        return z is not None and z[0] % n == r
    full = n <= 13
    step = 1 if full else max(2, n // 7)
    for v in range(0, n + 2, 1 if n <= 7 else 3):
        for r in range(-1, n + 2, step):
            for s in range(-1, n + 2, step):
                c.eq(bool(uecdsa.verify(gen_pt, q, v, (r, s))), ref_verify(q, v, r, s), 'verify of (%d, %d), hash %d, key %s on %s' % (r, s, v, q, t[0]))
        for k in range(1, n, step):
            r = mult[k][0] % n
            s = pow(k, -1, n) * (v + r * d) % n
            if r and s:
                got = set(tuple(x) for x in uecdsa.possible_public_pairs_for_signature(gen_pt, v, (r, s)))
                c.eq(got, set(x for x in mult[1:] if ref_verify(x, v, r, s)), 'keys recovered from (%d, %d), hash %d on %s' % (r, s, v, t[0]))
        try:
            r, s = uecdsa.sign(gen_pt, d, v)
        except RuntimeError:
            continue                             # documented: unlucky nonce
        c.ok(ref_verify(q, v, r, s), 'sign: not a valid signature on a small curve', t, v, (r, s))
    c.nt('order %d' % n)


@check.sub('recover-degenerate', st.tuples(gen.secret, st.integers(1, N - 1)).map(list), quick=12, thorough=200)
def recover_degenerate(c, t):
    """A valid signature for which the other candidate key would be the point at infinity."""
    d, k = t
    r = secp.mul_g(k)[0] % N
    v = -r * d * pow(2, -1, N) % N
    s = pow(k, -1, N) * (v + r * d) % N
    got = set(tuple(p) for p in utils.possible_public_pairs_for_signature(G, v, (r, s)))
    c.eq(got, {secp.mul_g(d)}, 'recovered keys')
    c.nt()


def recovered(v, r, s):
    """every key for which (r, s) is a signature of v"""
    out = set()
    for x in (r, r + N):
        for odd in (False, True):
            R = secp.lift_x(x, odd) if x < gen.P else None
            if R is not None:
                out.add(secp.mul(pow(r, -1, N), secp.add(secp.mul(s, R), secp.mul_g(-v % N))))
    return out - {None}


@check.sub('recover', st.fixed_dictionaries({'secret': gen.secret, 'v': value, 'k': st.one_of(
    st.none(), st.integers(1, N - 1), st.sampled_from(NONCES)), 'neg': st.booleans()}), quick=200, thorough=3000)
def recover(c, t):
    r, s = secp.sign(t['secret'], t['v'], t['k'])
    if t['neg']:
        s = N - s
    got = set(tuple(p) for p in utils.possible_public_pairs_for_signature(G, t['v'], (r, s)))
    pt = secp.mul_g(t['secret'])
    c.ok(pt in got, 'the signing key is not among the recovered ones', sorted(got))
    c.eq(got, recovered(t['v'], r, s), 'recovered keys')
    c.nt('high s' if s > N // 2 else 'low s')
