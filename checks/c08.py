from hypothesis import strategies as st
from ref import secp, script as S
from vp import gen
from vp.core import Check
from vp.lib import bf, entropy, nonce_block
from bitforge.signature import validate_signature

check = Check('C08', 'secret x 32-byte payload (edge values included) x entropy, with nonces steered to short or high-bit '
              'R and S values; signatures for verification are valid, valid with negated S, or altered in one number; '
              'non-trivial: all, labelled by encoded length / how the signature was altered')
N = gen.N
digest = gen.touched(st.one_of(
    st.binary(min_size=32, max_size=32),
    st.sampled_from([bytes(32), bytes(31) + b'\1', b'\xff' * 32, N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big'),
                     (N + 1).to_bytes(32, 'big'), b'\x80' + bytes(31), b'\x7f' + b'\xff' * 31, bytes(16) + b'\xff' * 16]),
    st.integers(1, 31).flatmap(lambda z: st.binary(min_size=32 - z, max_size=32 - z).map(lambda b: b'\0' * z + b)),
))
HALF = (N + 1) // 2
NONCES = [1, 2, 3, N - 1, N - 2, HALF, HALF + 1, HALF - 1, 2 ** 255, 2 ** 128, 1000, N // 3, 2 ** 248 - 1] + \
    gen.SPECIAL['x1'][:3] + gen.SPECIAL['x2'][:3]
nonce = st.one_of(st.none(), st.sampled_from(NONCES), st.integers(1, N - 1))


@check.sub('sign', st.fixed_dictionaries({'secret': gen.secret, 'digest': digest, 'k': nonce,
                                          'ent': st.binary(min_size=2, max_size=6)}), quick=500, thorough=12000,
           fixed=lambda: [{'secret': s, 'digest': d, 'k': k, 'ent': b'e'} for s, d, k in
                          [(1, bytes(32), None), (N - 1, b'\xff' * 32, None), (1, b'\xff' * 32, HALF),
                           (7, b'\5' * 32, HALF), (7, b'\5' * 32, HALF - 1), (N - 1, bytes(32), 1), (12345, b'\1' * 32, 1)]
                          + [(3, b'\7' * 32, k) for k in gen.SPECIAL['x1'] + gen.SPECIAL['x2'][:4]]])
def sign(c, t):
    d, e = t['digest'], int.from_bytes(t['digest'], 'big')
    pk = bf.PrivateKey(t['secret'])
    with entropy(t['ent'], [nonce_block(t['k'])] if t['k'] else []):
        sig = pk.sign(d)
    c.ok(isinstance(sig, bytes), 'signature is not binary', sig)
    rs = secp.parse_strict_der(sig)
    c.ok(rs is not None, 'not strict DER', sig)
    c.ok(S.valid_sig_encoding(sig + b'\1'), 'not a valid signature encoding in a script', sig)
    c.ok(0 < rs[0] < N and 0 < rs[1] <= N // 2, 'R or S out of range (low S)', rs)
    c.ok(secp.verify(secp.mul_g(t['secret']), e, *rs), 'the signature does not verify', sig)
    c.eq(bool(pk.verify(sig, d)), True, 'own verify of an own signature')
    c.eq(bool(validate_signature(sig + b'\1')), True, 'the encoding predicate on an own signature')
    c.nt('%d bytes' % len(sig))


def altered(rs, how, n):
    r, s = rs
    return {
        'valid': (r, s), 'neg': (r, N - s), 'r+1': (r + 1, s), 's+1': (r, s + 1), 'r+n': (r + N, s), 's+n': (r, s + N),
        'r0': (0, s), 's0': (r, 0), 'swap': (s, r), 'rn': (N, s), 'sn': (r, N), 'random': (n % N, (n * n) % N),
        'r-1': (r - 1, s), 's-1': (r, s - 1), 'one': (1, 1), 'bit r': (r ^ (1 << n % 256), s), 'bit s': (r, s ^ (1 << n % 256)),
        'digest': (r, s), 'key': (r, s), 'digest bit': (r, s),
    }[how]


HOWS = ['valid', 'valid', 'valid', 'neg', 'neg', 'r+1', 's+1', 'r+n', 's+n', 'r0', 's0', 'swap', 'rn', 'sn', 'random', 'r-1', 's-1', 'one',
        'bit r', 'bit s', 'digest', 'key', 'digest bit']


@check.sub('verify', st.fixed_dictionaries({
    'secret': gen.secret, 'digest': digest, 'k': st.one_of(st.integers(1, N - 1), st.sampled_from(NONCES)),
    'how': st.sampled_from(HOWS), 'n': st.integers(0, 2 ** 256 - 1), 'other': digest}), quick=600, thorough=15000)
def verify(c, t):
    e = int.from_bytes(t['digest'], 'big')
    r, s = altered(secp.sign(t['secret'], e, t['k']), t['how'], t['n'])
    if t['how'] == 'key':
        secret = (t['secret'] + 1) % (N - 1) + 1
    else:
        secret = t['secret']
    dg = t['digest']
    if t['how'] == 'digest':
        dg = t['other']
    elif t['how'] == 'digest bit':
        i = t['n'] % 256
        dg = (e ^ (1 << i)).to_bytes(32, 'big')
    sig = secp.der_sig(r, s)
    want = secp.verify(secp.mul_g(secret), int.from_bytes(dg, 'big'), r, s)
    pk = bf.PrivateKey(secret)
    try:
        got = bool(pk.verify(sig, dg))
    except Exception as e:
        if want:
            raise
        got = False                 # an invalid signature may be refused with an error
    c.eq(got, want, 'verify of (%d, %d), altered by %s' % (r, s, t['how']))
    c.nt(t['how'], 'accepted' if want else 'refused')


@check.sub('junk', st.fixed_dictionaries({
    'secret': gen.secret, 'digest': digest, 'how': st.sampled_from(['empty', 'trunc', 'append', 'append', 'append inside', 'raw', 'byte', 'byte', 'byte', 'negative r', 'negative s']),
    'n': st.integers(0, 80), 'x': st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128]), st.integers(1, 255)), 'raw': st.binary(max_size=80)}), quick=400, thorough=8000)
def junk(c, t):
    """Bytes that are not a signature of the payload are never accepted."""
    e = int.from_bytes(t['digest'], 'big')
    r, s = secp.sign(t['secret'], e)
    sig = secp.der_sig(r, s)
    bad = {'empty': b'', 'trunc': sig[:-(1 + t['n'] % 70)], 'append': sig + (t['raw'][:t['n'] % 5] or b'\0'), 'append inside': b'\x30' + bytes([sig[1] + 1 + t['n'] % 5]) + sig[2:] + bytes([t['x']]) * (1 + t['n'] % 5), 'raw': t['raw'],
           'byte': sig[:t['n'] % len(sig)] + bytes([sig[t['n'] % len(sig)] ^ t['x']]) + sig[t['n'] % len(sig) + 1:],
           'negative r': sig[:4] + bytes([sig[4] | 0x80]) + sig[5:], 'negative s': sig[:6 + sig[3]] + bytes([sig[6 + sig[3]] | 0x80]) + sig[7 + sig[3]:]}[t['how']]
    p = secp.parse_strict_der(bad)
    if p is not None and secp.verify(secp.mul_g(t['secret']), e, *p):
        return
    structure = {0, 1, 2, 3, 4 + sig[3], 5 + sig[3]}        # tags and lengths: a lenient reader may still find the numbers
    if p is None and (t['how'] == 'byte' and t['n'] % len(sig) in structure):
        c.label('non-strict form of a valid signature: not asserted')
        return
    lax = S._lax_der(bad)
    if t['how'] not in ('append', 'append inside') and lax is not None and secp.verify(secp.mul_g(t['secret']), e, *lax):
        c.label('non-strict form of a valid signature: not asserted')
        return
    try:
        got = bool(bf.PrivateKey(t['secret']).verify(bad, t['digest']))
    except Exception:
        got = False
    c.eq(got, False, 'verify of %s' % bad.hex())
    c.nt(t['how'])


def mod_n(d):
    return int.from_bytes(d, 'big') % N


@check.sub('nonces', st.fixed_dictionaries({'secret': gen.secret, 'a': digest, 'b': digest, 'other': gen.secret}), quick=64, thorough=2000)
def nonces(c, t):
    """With the real entropy source, two signatures of different payloads, or with different keys, never share their nonce (which would have to be known to both signers)."""
    if mod_n(t['a']) == mod_n(t['b']):          # the same number to sign: the same nonce reveals nothing
        return
    pk = bf.PrivateKey(t['secret'])
    ra, rb = [secp.parse_strict_der(pk.sign(d)) for d in (t['a'], t['b'])]
    c.ok(ra is not None and rb is not None, 'not strict DER', ra, rb)
    c.ok(ra[0] != rb[0], 'two payloads were signed with the same nonce, which reveals the private key', ra, rb)
    if t['other'] % N != t['secret'] % N and (t['other'] + t['secret']) % N:
        rc = secp.parse_strict_der(bf.PrivateKey(t['other']).sign(t['a']))
        c.ok(rc is not None and rc[0] != ra[0], 'two keys sign the same payload with the same nonce, which can be computed from the payload', ra, rc)
    c.nt()


@check.sub('payload-length', st.fixed_dictionaries({'secret': gen.secret, 'digest': digest, 'more': st.binary(min_size=1, max_size=40), 'cut': st.integers(1, 31)}), quick=60, thorough=1500)
def payload_length(c, t):
    """A signature of a payload is not one of the payload with bytes added at the end, or cut off."""
    e = int.from_bytes(t['digest'], 'big')
    sig = secp.der_sig(*secp.sign(t['secret'], e))
    pk = bf.PrivateKey(t['secret'])
    for what, d in (('longer', t['digest'] + t['more']), ('shorter', t['digest'][:-t['cut']])):
        if int.from_bytes(d, 'big') % N == e % N:
            continue
        try:
            got = bool(pk.verify(sig, d))
        except Exception:
            got = False
        c.eq(got, False, 'verify of a signature of %s for the %s payload %s' % (t['digest'].hex(), what, d.hex()))
    c.nt()


@check.sub('nonce-range', st.fixed_dictionaries({'secret': gen.secret, 'digests': st.lists(digest, min_size=8, max_size=8, unique_by=mod_n), 'ent': st.binary(min_size=2, max_size=6)}),
           quick=12, thorough=200)
def nonce_range(c, t):
    """The nonces come from the whole range (a false alarm has a probability of 2^-56), and from the payload, the key and the
    system's entropy alone: enough of it when they are drawn."""
    import random
    pk = bf.PrivateKey(t['secret'])

    def sigs(seed):
        random.seed(seed)
        with entropy(t['ent']) as e:
            return [pk.sign(d) for d in t['digests']], e['drawn']
    one, drawn = sigs(1)
    two, _ = sigs(2)
    c.ok(one == two, 'signatures depend on something other than the key, the payload and the system entropy', one, two)
    c.ok(drawn == 0 or drawn >= 31 * len(t['digests']), 'nonces were drawn from too little entropy (%d bytes for %d signatures)' % (drawn, len(t['digests'])))
    ks = []
    for d, sig in zip(t['digests'], one):
        r, s = secp.parse_strict_der(sig)
        k = (int.from_bytes(d, 'big') + r * t['secret']) * pow(s, -1, N) % N
        ks.append(min(k, N - k))
    c.ok(max(ks).bit_length() > 248, 'the nonces are all short', ks)
    c.ok(len(set(ks)) == len(ks), 'a nonce is used twice', ks)
    c.nt()
