from hypothesis import strategies as st
from ref import enc
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, entropy

check = Check('C01', 'private keys over edge secrets, every byte length and the whole range x network x compression; '
              'non-trivial: the secret has a leading zero byte, is within 64 of either end, or the key is not '
              'the default (livenet, compressed)')

key = st.fixed_dictionaries({'secret': gen.secret, 'net': gen.net, 'comp': st.booleans()})


def all_edges():
    for s in gen.EDGE_SECRETS:
        for net in ('livenet', 'testnet'):
            for comp in (True, False):
                yield {'secret': s, 'net': net, 'comp': comp}


def interesting(case):
    s = case['secret']
    return s >> 248 == 0 or s > gen.N - 64 or not case['comp'] or case['net'] != 'livenet'


@check.sub('encode', key, quick=6000, thorough=200000, fixed=all_edges)
def encode(c, k):
    pk = bf.PrivateKey(k['secret'], NET[k['net']], k['comp'])
    raw = k['secret'].to_bytes(32, 'big')
    c.eq(pk.secret, k['secret'], 'secret')
    c.eq(pk.network, NET[k['net']], 'network')
    c.eq(pk.compressed, k['comp'], 'compressed')
    c.eq(pk.to_bytes(), raw, 'to_bytes')
    c.eq(pk.to_hex(), raw.hex(), 'to_hex')
    c.eq(pk.to_wif(), enc.wif(k['secret'], k['net'], k['comp']), 'to_wif')
    for what, d in (('constructor', bf.PrivateKey(k['secret'])), ('from_bytes', bf.PrivateKey.from_bytes(raw)),
                    ('from_hex', bf.PrivateKey.from_hex(raw.hex()))):
        c.eq(d.to_wif(), enc.wif(k['secret'], 'livenet', True), what + ' with the default network and compression')
    if interesting(k):
        c.nt('zero-prefixed' if k['secret'] >> 248 == 0 else 'other')


@check.sub('roundtrip', key, quick=6000, thorough=200000, fixed=all_edges)
def roundtrip(c, k):
    raw = k['secret'].to_bytes(32, 'big')
    net = NET[k['net']]
    for what, pk in (
            ('from_bytes', bf.PrivateKey.from_bytes(raw, net, k['comp'])),
            ('from_hex', bf.PrivateKey.from_hex(raw.hex(), net, k['comp'])),
            ('from_hex upper', bf.PrivateKey.from_hex(raw.hex().upper(), k['net'], k['comp'])),
            ('from_wif', bf.PrivateKey.from_wif(enc.wif(k['secret'], k['net'], k['comp'])))):
        c.eq(pk.secret, k['secret'], what + ' secret')
        c.eq(pk.network, net, what + ' network')
        c.eq(pk.compressed, k['comp'], what + ' compressed')
        again = bf.PrivateKey.from_wif(pk.to_wif())
        c.ok(again == pk, what + ': the key read back from its WIF differs', again, pk)
        c.eq(bf.PrivateKey.from_bytes(pk.to_bytes(), pk.network, pk.compressed), pk, what + ' via bytes')
        c.eq(bf.PrivateKey.from_hex(pk.to_hex(), pk.network, pk.compressed), pk, what + ' via hex')
    if interesting(k):
        c.nt('zero-prefixed' if k['secret'] >> 248 == 0 else 'other')


@check.sub('pairwise', st.tuples(key, key, st.sampled_from(['secret', 'net', 'comp', 'none'])), quick=3000)
def pairwise(c, t):
    """Different keys never share a WIF, equal ones always do."""
    a, b, same = dict(t[0]), dict(t[1]), t[2]
    if same != 'none':                       # b differs from a in exactly one field
        b = dict(a)
        b[same] = {'secret': (a['secret'] % (gen.N - 1)) + 1, 'net': 'testnet' if a['net'] == 'livenet' else 'livenet',
                   'comp': not a['comp']}[same]
    ka, kb = [bf.PrivateKey(x['secret'], NET[x['net']], x['comp']) for x in (a, b)]
    c.eq(ka.to_wif() == kb.to_wif(), a == b, 'same WIF exactly for the same key')
    c.eq(ka == kb, a == b, 'keys compare equal exactly when secret, network and compression agree')
    c.nt(same)


@check.sub('generate', st.fixed_dictionaries({
    'seed': st.binary(min_size=4, max_size=8), 'first': st.lists(
        st.sampled_from([b'\0' * 32, b'\xff' * 32, b'\0' * 31 + b'\1', gen.N.to_bytes(32, 'big'),
                         (gen.N - 1).to_bytes(32, 'big'), (gen.N - 2).to_bytes(32, 'big')]), max_size=3),
    'net': gen.net, 'comp': st.booleans()}), quick=500)
def generate(c, case):
    """A generated key is valid and fresh, whatever the entropy source returns."""
    def make(seed):
        with entropy(seed, case['first']) as e:
            return [bf.PrivateKey(network=NET[case['net']], compressed=case['comp']) for _ in range(4)], e['drawn']

    keys, drawn = make(case['seed'])
    c.ok(drawn >= 4 * 31, 'four keys were generated from %d bytes of system entropy' % drawn)
    c.ok(make(case['seed'])[0] == keys, 'generated keys depend on something other than the system entropy', keys)
    if len(case['first']) < 3:
        c.ok(make(case['seed'] + b'x')[0][-1] != keys[-1], 'generated keys do not depend on the system entropy', keys)
    for k in keys:
        c.ok(isinstance(k.secret, int) and 0 < k.secret < gen.N, 'generated secret out of range', k.secret)
        c.eq(k.network, NET[case['net']], 'network')
        c.eq(k.compressed, case['comp'], 'compressed')
    c.ok(len(set(k.secret for k in keys[-2:])) == 2 or len(case['first']) > 2, 'two generated keys are the same', keys)
    if case['first']:
        c.nt('edge entropy')


@check.sub('generate-os', st.integers(0, 50), quick=48)
def generate_os(c, _):
    """With the real entropy source: no repeats, no short secrets, and every bit takes both values (probability of a false alarm below 2^-90)."""
    ks = [bf.PrivateKey().secret for _ in range(100)]
    c.ok(len(set(ks)) == 100, 'generated keys repeat', ks[:8])
    c.ok(all(k.bit_length() > 128 for k in ks), 'a generated key is guessable', ks[:8])
    for i in range(256):
        c.ok(0 < sum(k >> i & 1 for k in ks) < 100, 'generated keys do not use the whole range: bit %d is the same in all of 100' % i, ks[:8])
    c.nt()
