from hypothesis import strategies as st
from ref import enc, secp, bip32
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, networks, addr_type, pub, BitforgeError
from checks.hdgen import node, lib_priv, lib_pub

check = Check('C38', "every attribute of both networks; look-ups by each attribute with right and wrong values; keys, addresses and HD nodes of one network "
              'followed through every conversion; non-trivial: all')
FACTS = {'livenet': dict(name='livenet', pubkeyhash=0, scripthash=5, wif_prefix=128, hd_public_key=0x0488B21E, hd_private_key=0x0488ADE4, magic=0xF9BEB4D9, port=8333),
         'testnet': dict(name='testnet', pubkeyhash=111, scripthash=196, wif_prefix=239, hd_public_key=0x043587CF, hd_private_key=0x04358394, magic=0x0B110907, port=18333)}
ATTRS = sorted(FACTS['livenet'])


@check.sub('facts', None, fixed=lambda: [[n, a] for n in FACTS for a in ATTRS])
def facts(c, k):
    n, a = k
    net = NET[n]
    c.eq(getattr(net, a), FACTS[n][a], '%s of %s' % (a, n))
    c.ok(networks.find(FACTS[n][a], a) is net, 'looking up %s by %s finds another one' % (n, a), networks.find(FACTS[n][a], a))
    c.ok(networks.find(net) is net and networks.find(n) is net and networks.find(net, a) is net, 'looking up %s itself' % n)
    c.ok(networks.default is NET['livenet'], 'the default network')
    c.eq(len({net: 1, networks.find(n): 2}), 1, 'a network as a key')
    c.ok(net != NET['testnet' if n == 'livenet' else 'livenet'], 'the networks are told apart')
    c.nt(n)


@check.sub('find', st.tuples(st.one_of(st.sampled_from(ATTRS), st.sampled_from(['nope', '', 'xname', 'prefix']), st.text(st.characters(codec='ascii', categories=['Ll']), max_size=6)),
                             st.one_of(st.sampled_from(sorted(set(v for f in FACTS.values() for v in f.values()), key=str)), st.integers(-5, 2 ** 32), st.text(max_size=8))).map(list), quick=2500, thorough=30000,
           fixed=lambda: [[a, FACTS[n][b]] for n in FACTS for a in ATTRS for b in ATTRS]
           + [[a, f(v)] for n in FACTS for a, v in FACTS[n].items() if isinstance(v, int) for f in (str, hex, lambda v: '%02x' % v, lambda v: -v - 1, lambda v: v + 1, lambda v: v | 1 << 40, lambda v: v << 8, lambda v: v + 256, lambda v: str(v).encode())]
           + [[a, v] for a in ATTRS for v in (True, None)]
           + [['seeds', x] for n in FACTS for x in list(NET[n].seeds) + [list(NET[n].seeds), NET[n].seeds[:1], (), None, '']]
           + [['name', x] for n in FACTS for x in (n.upper(), n.title(), n + ' ', n[:-1], n[:1], n.encode(), n + '\0', 'main', 'test', 'mainnet', 'bitcoin')])
def find(c, k):
    """The network that has this value there, and none other; refused (or no result, on request) when there is none"""
    a, v = k
    if hasattr(NET['livenet'], a) and a not in ATTRS + ['seeds']:
        return
    want = [NET[n] for n in FACTS if a in FACTS[n] and FACTS[n][a] == v]
    if want:
        c.ok(networks.find(v, a) is want[0] and networks.find(v, a, raises=False) is want[0], 'find(%r, %s)' % (v, a))
    else:
        c.rejects('find(%r, %s)' % (v, a), lambda: networks.find(v, a), networks.UnknownNetwork)
        c.eq(networks.find(v, a, raises=False), None, 'find(%r, %s) without raising' % (v, a))
    c.nt('found' if want else 'none')


@check.sub('follow', st.tuples(gen.secret, gen.net, st.booleans()).map(list), quick=250, thorough=5000)
def follow(c, k):
    """A key's network goes with it into its texts, its public key and its address, and back"""
    s, n, comp = k
    net = NET[n]
    p = bf.PrivateKey(s, n, comp)
    c.ok(p.network == net, 'network given by name')
    q = bf.PrivateKey.from_wif(p.to_wif())
    r = p.to_public_key()
    a = r.to_address()
    for what, x in (('WIF', q), ('public key', r), ('address', a), ('address of the private key', p.to_address()), ('address text', bf.Address.from_string(a.to_string())),
                    ('binary', bf.PrivateKey.from_bytes(p.to_bytes(), n, comp)), ('hex', bf.PrivateKey.from_hex(p.to_hex(), net, comp)),
                    ('binary public key', bf.PublicKey.from_bytes(r.to_bytes(), n)), ('hex public key', bf.PublicKey.from_hex(r.to_hex(), net)),
                    ('address by name', bf.Address(a.phash, n)), ('script address', bf.Address.from_script(bf.Script.from_bytes(b'\x51'), n))):
        c.ok(x.network == net, '%s: the network is lost' % what, x.network)
    c.ok(p.to_wif()[0] in {'livenet': 'KL' if comp else '5', 'testnet': 'c' if comp else '9'}[n], 'first letter of the WIF', p.to_wif()[:1])
    c.ok(a.to_string()[0] in {'livenet': '1', 'testnet': 'mn'}[n], 'first letter of the address', a.to_string())
    c.ok(bf.Address(a.phash, n, addr_type('scripthash')).to_string()[0] in {'livenet': '3', 'testnet': '2'}[n], 'first letter of the script address')
    c.nt(n)


@check.sub('hd', st.tuples(node, st.integers(0, 2 ** 31 - 1)).map(list), quick=60, thorough=1000)
def hd(c, k):
    n, i = k
    net = NET[n['net']]
    p = lib_priv(n)
    b = p.to_hd_public_key()
    kids = [('child', p.derive(i)), ('hardened child', p.derive(i, hardened=True)), ('public child', b.derive(i)), ('text', bf.HDPrivateKey.from_string(p.to_string())),
            ('public text', bf.HDPublicKey.from_string(b.to_string()))]
    for what, x in kids:
        c.ok(x.to_public_key().network == net and x.to_public_key().to_address().network == net, 'HD %s: the network of its key is lost' % what, x.to_public_key())
        if isinstance(x, bf.HDPrivateKey):
            c.ok(x.to_private_key().network == net and x.privkey.network == net and x.to_hd_public_key().network == net, 'HD %s: the network of its secret is lost' % what, x.to_private_key())
    for what, x in kids + [('node', p), ('public node', b), ('private key', p.to_private_key()), ('public key', b.to_public_key()),
                    ('public key of the private node', p.to_public_key()), ('address', b.to_public_key().to_address())]:
        c.ok(x.network == net, 'HD %s: the network is lost' % what, x.network)
    c.ok(p.to_string().startswith({'livenet': 'xprv', 'testnet': 'tprv'}[n['net']]), 'prefix', p.to_string()[:8])
    c.ok(b.to_string().startswith({'livenet': 'xpub', 'testnet': 'tpub'}[n['net']]), 'prefix', b.to_string()[:8])
    c.nt(n['net'])


@check.sub('unknown', st.one_of(st.text(max_size=8), st.integers(-5, 2 ** 32), st.none()), quick=400, thorough=4000, fixed=lambda: ['', 'mainnet', 'Livenet', 'bitcoin', 0, 128, None, 'name'])
def unknown(c, v):
    """No key or address belongs to a network there is not"""
    if v in NET:
        return
    for what, fn in (('PrivateKey', lambda: bf.PrivateKey(5, v)), ('PublicKey', lambda: bf.PublicKey(secp.G, v)), ('Address', lambda: bf.Address(bytes(20), v)),
                     ('PrivateKey.from_bytes', lambda: bf.PrivateKey.from_bytes(b'\1' * 32, v)), ('PublicKey.from_bytes', lambda: bf.PublicKey.from_bytes(secp.sec(secp.G), v)),
                     ('Address.from_script', lambda: bf.Address.from_script(bf.Script(), v))):
        c.rejects('%s of network %r' % (what, v), fn, networks.UnknownNetwork)
    c.nt()
