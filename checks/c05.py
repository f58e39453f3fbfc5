from hypothesis import strategies as st
from ref import enc, secp
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, addr_type, pub

check = Check('C05', 'hashes (all-zero, zero-prefixed, random), public keys and scripts x network x type; non-trivial: the '
              'hash begins with a zero byte, or the type or network is not the default, or the source is a key or script')
A = bf.Address
kind = st.sampled_from(['pubkeyhash', 'scripthash'])
addr = st.fixed_dictionaries({'h': gen.h20, 'net': gen.net, 'kind': kind})


def edges():
    for n in range(21):
        for net in ('livenet', 'testnet'):
            for kd in ('pubkeyhash', 'scripthash'):
                yield {'h': b'\0' * n + b'\xab' * (20 - n), 'net': net, 'kind': kd}


@check.sub('codec', addr, quick=5000, thorough=150000, fixed=edges)
def codec(c, a):
    x = A(a['h'], NET[a['net']], addr_type(a['kind']))
    raw = enc.addr_bytes(a['h'], a['net'], a['kind'])
    c.eq(x.to_bytes(), raw, 'to_bytes')
    c.eq(x.to_hex(), raw.hex(), 'to_hex')
    c.eq(x.to_string(), enc.b58check(raw), 'to_string')
    for what, y in (('from_bytes', A.from_bytes(raw)), ('from_hex', A.from_hex(raw.hex())),
                    ('from_string', A.from_string(enc.b58check(raw)))):
        c.eq(y.phash, a['h'], what + ' hash')
        c.eq(y.network, NET[a['net']], what + ' network')
        c.eq(y.type, addr_type(a['kind']), what + ' type')
        c.ok(y == x, what + ': not equal to the original', y, x)
    d = A(a['h'])
    c.eq(d.to_string(), enc.b58check(b'\0' + a['h']), 'default network and type')
    if a['h'][0] == 0 or a['net'] != 'livenet' or a['kind'] != 'pubkeyhash':
        c.nt('zero-prefixed' if a['h'][0] == 0 else 'plain', a['kind'], a['net'])


@check.sub('of-key', st.fixed_dictionaries({'secret': gen.secret, 'net': gen.net, 'comp': st.booleans()}), quick=1500,
           thorough=40000, fixed=lambda: [{'secret': s, 'net': 'testnet', 'comp': b} for s in gen.EDGE_SECRETS
                                          for b in (True, False)])
def of_key(c, k):
    p = pub(k['secret'], k['net'], k['comp'])
    h = enc.hash160(secp.sec(secp.mul_g(k['secret']), k['comp']))
    for what, a in (('from_public_key', A.from_public_key(p)), ('to_address', p.to_address())):
        c.eq(a.phash, h, what + ' hash')
        c.eq(a.network, NET[k['net']], what + ' network')
        c.eq(a.type, A.Type.PublicKey, what + ' type')
        c.eq(a.to_string(), enc.b58check(enc.addr_bytes(h, k['net'], 'pubkeyhash')), what + ' text')
    c.nt('zero-prefixed hash' if h[0] == 0 else 'plain')


@check.sub('of-script', st.fixed_dictionaries({'ins': st.lists(gen.instr, max_size=6), 'net': gen.net}), quick=2000,
           thorough=40000)
def of_script(c, k):
    raw = gen.raw_of(k['ins'])
    s = gen.lib_script(bf, k['ins'])
    h = enc.hash160(raw)
    a = A.from_script(s, NET[k['net']])
    c.eq(a.phash, h, 'hash')
    c.eq(a.network, NET[k['net']], 'network')
    c.eq(a.type, A.Type.Script, 'type')
    c.eq(a.to_string(), enc.b58check(enc.addr_bytes(h, k['net'], 'scripthash')), 'text')
    c.eq(A.from_script(s).network, NET['livenet'], 'default network')
    c.eq(s.to_hash(), h, 'hash of the script')
    c.nt()


@check.sub('injective', st.tuples(addr, addr, st.sampled_from(['h', 'net', 'kind', 'any'])).map(list), quick=2000)
def injective(c, t):
    a, b, f = t
    if f != 'any':
        b = dict(a)
        b[f] = {'h': bytes([a['h'][0] ^ 1]) + a['h'][1:], 'net': 'testnet' if a['net'] == 'livenet' else 'livenet',
                'kind': 'scripthash' if a['kind'] == 'pubkeyhash' else 'pubkeyhash'}[f]
    x, y = [A(v['h'], NET[v['net']], addr_type(v['kind'])) for v in (a, b)]
    c.eq(x.to_string() == y.to_string(), a == b, 'two addresses share their text exactly when they are the same')
    c.eq(x == y, a == b, 'two addresses are equal exactly when hash, network and type agree')
    c.nt(f)
