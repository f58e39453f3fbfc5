"""HD key generators and comparisons shared by C11-C13."""
from hypothesis import strategies as st
from ref import bip32, secp
from vp import gen
from vp.lib import bf, NET

HARD = 2 ** 31
chain = gen.touched(st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([bytes(32), b'\xff' * 32, bytes(31) + b'\1', b'\1' + bytes(31)])))
index = gen.mined(0, HARD - 1, st.integers(0, HARD - 1), st.sampled_from([0, 1, 2, 255, 256, 65535, 65536, 2 ** 24, HARD - 1, HARD - 2, 1000000000]),
                  st.integers(0, 5))
any_index = gen.mined(0, 2 ** 32 - 1, index, index.map(lambda i: i + HARD), st.sampled_from([HARD, HARD + 1, 2 ** 32 - 1]))
node = st.fixed_dictionaries({
    'k': gen.secret, 'chain': chain, 'depth': gen.mined(0, 255, st.integers(0, 20), st.sampled_from([0, 1, 127, 128, 250, 253, 254, 255])),
    'index': any_index, 'parent': gen.u32, 'net': gen.net})

# children and seeds found by search: two zero bytes (or ff) at the start or end of a half of the hash, or of the secret of the child; parents whose fingerprint begins or ends so
RARE = {'k': 0x5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e5e, 'chain': b'\7' * 32, 'depth': 2, 'index': 5, 'parent': 6, 'net': 'livenet'}
RARE_PLAIN = [2876, 3684, 9982, 23266, 45120, 118412, 158171, 237888]
RARE_HARD = [2147485458, 2147492755, 2147498678, 2147512898, 2147524352, 2147558836, 2147559413, 2147620608]
RARE_SEEDS = [i.to_bytes(32, 'big') for i in (18624, 43803, 48550, 119895)]
RARE_PARENTS = [51572, 183670, 202760]


def rare(pairs):
    for net in ('livenet', 'testnet'):
        for i in pairs:
            yield dict(RARE, net=net), i
        for k in RARE_PARENTS:
            yield dict(RARE, net=net, k=k), 1


def lib_priv(n):
    net = NET[n['net']]
    return bf.HDPrivateKey(bf.PrivateKey(n['k'], net), n['chain'], n['depth'], n['index'], n['parent'], net)


def lib_pub(n):
    """from a private node's data, the library's public node"""
    net = NET[n['net']]
    pt = n['pt'] if 'pt' in n else secp.mul_g(n['k'])
    return bf.HDPublicKey(bf.PublicKey(pt, net), n['chain'], n['depth'], n['index'], n['parent'], net)


def same_meta(c, got, want, what):
    c.eq(got.chain, want['chain'], what + ' chain code')
    c.eq(got.depth, want['depth'], what + ' depth')
    c.eq(got.index, want['index'], what + ' child index')
    c.eq(got.parent, want['parent'], what + ' parent fingerprint')
    c.eq(got.network, NET[want['net']], what + ' network')


def same_priv(c, got, want, what):
    c.eq(got.privkey.secret, want['k'], what + ' secret')
    c.eq(got.privkey.network, NET[want['net']], what + ' network of the key')
    c.eq(got.privkey.compressed, True, what + ' compression of the key')
    same_meta(c, got, want, what)
    c.eq(got.fingerprint, bip32.fp(secp.mul_g(want['k'])), what + ' own fingerprint')
    c.eq(got.to_private_key(), got.privkey, what + ' to_private_key')
    if want['depth'] <= 255:
        c.eq(got.to_string(), bip32.string(want), what + ' text')


def same_pub(c, got, want, what):
    c.eq(tuple(got.pubkey.pair), want['pt'], what + ' point')
    c.eq(got.pubkey.network, NET[want['net']], what + ' network of the key')
    c.eq(got.pubkey.compressed, True, what + ' compression of the key')
    same_meta(c, got, want, what)
    c.eq(got.fingerprint, bip32.fp(want['pt']), what + ' own fingerprint')
    if want['depth'] <= 255:
        c.eq(got.to_string(), bip32.string(want), what + ' text')
