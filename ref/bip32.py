"""Independent BIP 32."""
import hashlib
import hmac
from . import secp, enc

HARD = 0x80000000


def _mac(key, data):
    d = hmac.new(key, data, hashlib.sha512).digest()
    return int.from_bytes(d[:32], 'big'), d[32:]


def master(seed):
    k, c = _mac(b'Bitcoin seed', seed)
    return dict(k=k, chain=c, depth=0, index=0, parent=0, net='livenet')


def pub(node):
    return secp.mul_g(node['k'])


def fp(point):
    return int.from_bytes(enc.hash160(secp.sec(point))[:4], 'big')


def ckd_priv(node, i):
    pt = pub(node)
    if i >= HARD:
        data = b'\0' + node['k'].to_bytes(32, 'big')
    else:
        data = secp.sec(pt)
    il, c = _mac(node['chain'], data + i.to_bytes(4, 'big'))
    return dict(k=(il + node['k']) % secp.N, chain=c, depth=node['depth'] + 1, index=i,
                parent=fp(pt), net=node['net'])


def neuter(node):
    return dict(pt=pub(node), chain=node['chain'], depth=node['depth'], index=node['index'],
                parent=node['parent'], net=node['net'])


def ckd_pub(node, i):
    assert i < HARD
    il, c = _mac(node['chain'], secp.sec(node['pt']) + i.to_bytes(4, 'big'))
    return dict(pt=secp.add(secp.mul_g(il), node['pt']), chain=c, depth=node['depth'] + 1, index=i,
                parent=fp(node['pt']), net=node['net'])


def payload(node):
    priv = 'k' in node
    ver = enc.NETS[node['net']]['xprv' if priv else 'xpub']
    key = b'\0' + node['k'].to_bytes(32, 'big') if priv else secp.sec(node['pt'])
    return (ver.to_bytes(4, 'big') + bytes([node['depth']]) + node['parent'].to_bytes(4, 'big')
            + node['index'].to_bytes(4, 'big') + node['chain'] + key)


def string(node):
    return enc.b58check(payload(node))


def parse(text, priv):
    d = enc.b58check_dec(text)
    if d is None or len(d) != 78:
        return None
    ver = int.from_bytes(d[:4], 'big')
    nets = [n for n in enc.NETS if enc.NETS[n]['xprv' if priv else 'xpub'] == ver]
    if not nets:
        return None
    node = dict(depth=d[4], parent=int.from_bytes(d[5:9], 'big'), index=int.from_bytes(d[9:13], 'big'),
                chain=d[13:45], net=nets[0])
    if priv:
        k = int.from_bytes(d[46:], 'big')
        if d[45] != 0 or not 0 < k < secp.N:
            return None
        node['k'] = k
    else:
        p = secp.parse_sec(d[45:])
        if p is None:
            return None
        node['pt'] = p[0]
    return node
