from hypothesis import strategies as st
from ref import secp, enc
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, pub

check = Check('C29', 'key-hash inputs and m-of-n multisig inputs x key lists: the right ones, a wrong one among them, too few, too many, repeated, none; '
              'any network; non-trivial: the list has the right length, or is one off')
KEYS = [1, 2, 3, 5, 7, 11, gen.N - 1, gen.SPECIAL['x1'][0], gen.SPECIAL['hc1'][0], gen.SPECIAL['y1'][0]]
sec = st.one_of(st.sampled_from(KEYS), gen.secret)


def P(s, net, comp=True):
    return bf.PrivateKey(s, NET[net], comp)


def ask(c, i, keys, want, what):
    """The answer; asking again gives the same, and changes neither the keys nor the input"""
    before, raw = [(x.secret, x.compressed, x.network.name) for x in keys], i.to_bytes()
    for _ in range(2):
        c.eq(bool(i.can_sign(keys)), want, what)
        c.eq([(x.secret, x.compressed, x.network.name) for x in keys], before, 'the list of keys after ' + what)
        c.eq(i.to_bytes(), raw, 'the input after ' + what)


@check.sub('address', st.fixed_dictionaries({'k': sec, 'comp': st.booleans(), 'net': gen.net, 'net2': gen.net, 'keys': st.lists(st.one_of(st.just(0), sec), max_size=3)}), quick=200, thorough=4000,
           fixed=lambda: [{'k': k, 'comp': cp, 'net': n, 'net2': n, 'keys': ks} for k in (1, gen.N - 1) for cp in (True, False) for n in ('livenet', 'testnet') for ks in ([0], [], [0, 0], [2], [gen.N - 2])])
def address(c, k):
    """Exactly one key, whose hash is the one paid to (0 in the list stands for that key)"""
    h = enc.hash160(secp.sec(secp.mul_g(k['k']), k['comp']))
    i = bf.AddressInput.create('11' * 32, 0, bf.Address(h, NET[k['net']], bf.Address.Type.PublicKey))
    keys = [x or k['k'] for x in k['keys']]
    want = len(keys) == 1 and keys[0] == k['k']
    ask(c, i, [P(x, k['net2'], k['comp']) for x in keys], want, 'can_sign with %d keys' % len(keys))
    if len(keys) in (0, 1, 2):
        c.nt('yes' if want else 'no, %d keys' % len(keys))


@check.sub('near', st.tuples(sec, st.booleans(), gen.net, st.integers(0, 159)).map(list), quick=150, thorough=3000, fixed=lambda: [[1, True, 'livenet', i] for i in range(160)])
def near(c, k):
    """A hash differing from the key's in one bit, or the hash of the key in its other form, is not the key's"""
    s, comp, net, i = k
    own = enc.hash160(secp.sec(secp.mul_g(s), comp))
    h = bytearray(own)
    h[i // 8] ^= 1 << i % 8
    for x in (bytes(h), enc.hash160(secp.sec(secp.mul_g(s), not comp)), bytes(h[::-1]), own[::-1], enc.hash160(secp.sec(secp.mul_g(gen.N - s), comp)), own[i % 19 + 1:] + own[:i % 19 + 1], bytes(20), bytes(x ^ 255 for x in own)):
        a = bf.AddressInput.create('11' * 32, 0, bf.Address(x, NET[net], bf.Address.Type.PublicKey))
        c.eq(bool(a.can_sign([P(s, net, comp)])), False, 'can_sign for a hash that is not the key\'s')
    c.nt()


@check.sub('multisig', st.fixed_dictionaries({'keys': st.lists(sec, min_size=1, max_size=4, unique=True), 'm': st.integers(1, 4), 'with': st.lists(st.integers(0, 5), max_size=5),
                                              'stranger': st.one_of(sec, sec, st.integers(-4, -1)), 'comps': st.integers(0, 31), 'other': st.one_of(st.just(0), st.integers(0, 31)), 'net': gen.net}), quick=300, thorough=6000,
           fixed=lambda: [{'keys': [1, 2, 3], 'm': 2, 'with': w, 'stranger': sg, 'comps': cp, 'other': o, 'net': n} for sg in (9, -1, -2, -3) for w in ([0, 1], [0, 2], [1, 2], [1, 0], [2, 0], [2, 1], [0, 0], [1, 1], [0, 5], [5, 0], [0], [], [0, 1, 2], [5, 5])
                          for cp in (31, 0, 5) for o in (0, 1, 2, 3) for n in ('livenet', 'testnet')])
def multisig(c, k):
    """As many distinct keys of the input as it needs signatures (numbers index the keys, the rest is a stranger). A key in its other form, compressed or not, is none of the input's."""
    ks, n = k['keys'], len(k['keys'])
    stranger = k['stranger'] if k['stranger'] > 0 else gen.N - ks[k['stranger'] % n]      # a stranger of its own, or one of the keys negated
    if stranger in ks:
        return
    m = min(k['m'], n)
    i = bf.MultisigInput.create('11' * 32, 0, [pub(x, 'livenet', bool(k['comps'] >> j & 1)) for j, x in enumerate(ks)], m)
    idx = [w if w < n else -1 for w in k['with']]
    keys = [ks[w] if w >= 0 else stranger for w in idx]
    form = [bool(k['comps'] >> max(w, 0) & 1) ^ bool(k['other'] >> j & 1) for j, w in enumerate(idx)]
    want = len(idx) == m and -1 not in idx and len(set(idx)) == m and not any(k['other'] >> j & 1 for j in range(len(idx)))
    ask(c, i, [P(x, k['net'], f) for x, f in zip(keys, form)], want, 'can_sign, %d of %d, with %r' % (m, n, idx))
    if abs(len(idx) - m) <= 1:
        c.nt('yes' if want else 'no')


def many():
    for n in list(range(5, 16)) + gen.fresh(5, 15):
        for m in (2, 3, n):
            yield [n, m, n // 2 if m == n else n - 2, 1]


@check.sub('many', st.tuples(st.integers(5, 15), st.integers(1, 15), st.integers(0, 14), gen.u32).map(list), quick=24, thorough=1000, fixed=lambda: list(many()))
def many_(c, k):
    """Up to 15 keys: one missing, one too many, one used twice (next to itself or far apart), one replaced"""
    n, m, at, seed = k
    m = min(m, n)
    ks = [(seed * 16 + j * 7919) % (gen.N - 1) + 1 for j in range(n)]
    if len(set(ks)) < n:
        return
    i = bf.MultisigInput.create('11' * 32, 0, [pub(x) for x in ks], m)
    own = sorted(((at + j) % n for j in range(m)))
    ask(c, i, [P(ks[j], 'livenet') for j in own], True, 'can_sign, %d of %d' % (m, n))
    for w in (own[::-1], own[at % m:] + own[:at % m], sorted(own, key=lambda j: (j * 7 + at) % n)):
        ask(c, i, [P(ks[j], 'livenet') for j in w], True, 'can_sign, %d of %d, in the order %r' % (m, n, w))
    bad = [own[:-1], own[1:], own + [own[0]], own + [-1], [-1] + own[1:], own[:-1] + [-1], own[:m // 2] + [-1] + own[m // 2 + 1:]]
    if m > 1:
        bad += [own[:-1] + [own[0]], [own[1]] + own[1:], own[:-1] + [own[-2]], [own[at % m]] * m, own[:at % (m - 1) + 1] + own[at % (m - 1):][:1] + own[at % (m - 1) + 2:]]
    twin = [P(ks[j], 'livenet') for j in own]              # one of the keys negated: the same x, the other parity
    twin[at % m] = P(gen.N - ks[own[at % m]], 'livenet')
    c.eq(bool(i.can_sign(twin)), False, 'can_sign, %d of %d, with a key negated' % (m, n))
    for w in bad:
        c.eq(bool(i.can_sign([P(ks[j] if j >= 0 else gen.N - 12345, 'livenet') for j in w])), False, 'can_sign, %d of %d, with %r' % (m, n, w))
    c.nt('%d keys' % n)
