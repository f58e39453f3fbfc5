from hypothesis import strategies as st
from ref import enc, secp
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, utils, G
from checks.c04 import point

check = Check('C03', 'secrets over edge values (byte boundaries, both ends of the range, keys whose coordinates or hashes '
              'begin with zero bytes) and the whole range; non-trivial: all, labelled by what is special about the key')
key = st.fixed_dictionaries({'secret': gen.secret, 'net': gen.net, 'comp': st.booleans()})


def edges():
    for i, s in enumerate(gen.EDGE_SECRETS):
        yield {'secret': s, 'net': 'testnet' if i & 1 else 'livenet', 'comp': bool(i & 2)}
        yield {'secret': s, 'net': 'livenet' if i & 1 else 'testnet', 'comp': not i & 2}
    for s in range(1, 65):
        yield {'secret': s, 'net': 'livenet', 'comp': True}
        yield {'secret': gen.N - s, 'net': 'testnet', 'comp': False}


@check.sub('derive', key, quick=700, thorough=30000, fixed=edges)
def derive(c, k):
    pt = secp.mul_g(k['secret'])
    priv = bf.PrivateKey(k['secret'], NET[k['net']], k['comp'])
    pub = priv.to_public_key()
    c.eq(tuple(pub.pair), pt, 'curve point')
    c.eq(pub.network, NET[k['net']], 'network')
    c.eq(pub.compressed, k['comp'], 'compressed')
    sec = secp.sec(pt, k['comp'])
    c.eq(pub.to_bytes(), sec, 'to_bytes')
    c.eq(pub.to_hex(), sec.hex(), 'to_hex')
    addr = enc.b58check(enc.addr_bytes(enc.hash160(sec), k['net'], 'pubkeyhash'))
    c.eq(pub.to_address().to_string(), addr, 'address of the public key')
    c.eq(bf.PublicKey.from_bytes(sec, NET[k['net']]), pub, 'the key read back')
    labels = []
    if pt[0] >> 248 == 0:
        labels.append('x begins with zero')
    if pt[1] >> 248 == 0:
        labels.append('y begins with zero')
    if k['secret'] >> 248 == 0:
        labels.append('short secret')
    labels.append('odd y' if pt[1] & 1 else 'even y')
    c.nt(*labels)


@check.sub('address', key, quick=250, thorough=8000)
def address(c, k):
    """PrivateKey.to_address is the address of its public key."""
    priv = bf.PrivateKey(k['secret'], NET[k['net']], k['comp'])
    sec = secp.sec(secp.mul_g(k['secret']), k['comp'])
    a = priv.to_address()
    c.eq(a.phash, enc.hash160(sec), 'hash')
    c.eq(a.network, NET[k['net']], 'network')
    c.eq(a.type, bf.Address.Type.PublicKey, 'type')
    c.nt()


@check.sub('of-point', st.tuples(point, gen.net, st.booleans()).map(list), quick=700, thorough=20000)
def of_point(c, k):
    """The encoding and address of any public key, whatever its secret, are those of its point"""
    pt, net, comp = k
    pt = tuple(pt)
    pub = bf.PublicKey(pt, NET[net], comp)
    sec = secp.sec(pt, comp)
    c.eq(pub.to_bytes(), sec, 'to_bytes')
    c.eq(pub.to_hex(), sec.hex(), 'to_hex')
    a = pub.to_address()
    c.eq(a.phash, enc.hash160(sec), 'hash in the address')
    c.eq(a.to_string(), enc.b58check(enc.addr_bytes(enc.hash160(sec), net, 'pubkeyhash')), 'address')
    c.eq(bf.Address.from_public_key(pub).to_string(), a.to_string(), 'address from the public key')
    back = bf.PublicKey.from_bytes(sec, NET[net])
    c.eq(tuple(back.pair), pt, 'point read back')
    c.eq(back.compressed, comp, 'form read back')
    c.nt('compressed' if comp else 'uncompressed')


@check.sub('other-half', gen.secret, quick=150, thorough=5000)
def other_half(c, s):
    """d and n-d have mirrored points: same x, y and p-y."""
    a = bf.PrivateKey(s).to_public_key().pair
    b = bf.PrivateKey(gen.N - s).to_public_key().pair
    c.eq(b[0], a[0], 'x of n-d')
    c.eq(b[1], gen.P - a[1], 'y of n-d')
    c.nt()
