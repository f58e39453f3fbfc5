"""Validates the reference implementations against published vectors (BIP 32, RFC 6979, bitcoind's tx vectors)."""
import hashlib
import json
import os
from . import secp, enc, bip32, tx as T, script as S
from .scripttext import parse_text

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
FLAGS = {'NONE': 0, 'P2SH': S.P2SH, 'STRICTENC': S.STRICTENC, 'DERSIG': S.DERSIG, 'LOW_S': S.LOW_S,
         'NULLDUMMY': S.NULLDUMMY, 'SIGPUSHONLY': S.SIGPUSHONLY, 'MINIMALDATA': S.MINIMALDATA,
         'DISCOURAGE_UPGRADABLE_NOPS': S.DISCOURAGE, 'CHECKLOCKTIMEVERIFY': S.CLTV}


def vectors(name):
    for row in json.load(open(os.path.join(DATA, name))):
        if len(row) != 3 or not isinstance(row[0], list):
            continue
        flags = 0
        skip = False
        for f in row[2].split(','):
            if f not in FLAGS:
                skip = True
                continue
            flags |= FLAGS[f]
        if skip:
            continue
        prev = dict(((h, n & 0xffffffff), parse_text(s)) for h, n, s in row[0])
        yield prev, bytes.fromhex(row[1]), flags


def tx_ok(t):
    """The context-free CheckTransaction rules of bitcoind"""
    if not t['inputs'] or not t['outputs']:
        return False
    if len(T.ser(t)) > 1000000:
        return False
    total = 0
    for o in t['outputs']:
        if o['amount'] > 2100000000000000:
            return False
        total += o['amount']
        if total > 2100000000000000:
            return False
    pts = [(i['txid'], i['index']) for i in t['inputs']]
    if len(set(pts)) != len(pts):
        return False
    null = ('00' * 32, 0xffffffff)
    if len(pts) == 1 and pts[0] == null:
        return 2 <= len(t['inputs'][0]['script']) <= 100
    return null not in pts


def run():
    n = 0
    # BIP 32 vector 1 and 2
    m = bip32.master(bytes.fromhex('000102030405060708090a0b0c0d0e0f'))
    assert bip32.string(m) == ('xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNN'
                               'U3TGtRBeJgk33yuGBxrMPHi')
    for i in (0x80000000, 1, 0x80000002, 2, 1000000000):
        if i < 0x80000000:
            p = bip32.ckd_pub(bip32.neuter(m), i)
        m = bip32.ckd_priv(m, i)
        if i < 0x80000000:
            assert p == bip32.neuter(m)
    assert bip32.string(m) == ('xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruo'
                               'UihUZREPSL39UNdE3BBDu76')
    assert bip32.string(bip32.neuter(m)) == (
        'xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy')
    assert bip32.parse(bip32.string(m), True) == m
    n += 4
    # RFC 6979 secp256k1 vectors (widely published)
    for secret, msg, k in (
            (1, b'Satoshi Nakamoto', '8F8A276C19F4149656B280621E358CCE24F5F52542772691EE69063B74F15D15'),
            (1, b'All those moments will be lost in time, like tears in rain. Time to die...',
             '38AA22D72376B4DBC472E06C3BA403EE0A394DA63FC58D88686C611ABA98D6B3'),
            (secp.N - 1, b'Satoshi Nakamoto', '33A19B60E25FB6F4435AF53A3D42D493644827367E6453928554F43E49AA6F90'),
            (0xf8b8af8ce3c7cca5e300d33939540c10d45ce001b8f252bfbc57ba0342904181, b'Alan Turing',
             '525A82B70E67874398067543FD84C83D30C175FDC45FDEEE082FE13B1D7CFDF1')):
        e = int.from_bytes(hashlib.sha256(msg).digest(), 'big')
        assert secp.rfc6979_k(secret, e) == int(k, 16), (secret, msg)
        r, s = secp.sign(secret, e)
        assert secp.verify(secp.mul_g(secret), e, r, s)
        assert not secp.verify(secp.mul_g(secret), e ^ 1, r, s)
        n += 3
    assert secp.mul(secp.N - 1, secp.G) == (secp.GX, secp.P - secp.GY) == secp.mul_g(secp.N - 1)
    assert secp.mul(7, secp.mul_g(6)) == secp.mul_g(42) == secp.add(secp.mul_g(40), secp.mul_g(2))
    assert secp.add(secp.G, secp.mul_g(secp.N - 1)) is None
    assert enc.wif(0x0C28FCA386C7A227600B2FE50B7CAE11EC86D3BF1FBE471BE89827E19D72AA1D, 'livenet', False) == \
        '5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ'
    n += 4
    for name, want in (('tx_valid.json', True), ('tx_invalid.json', False)):
        for prev, raw, flags in vectors(name):
            try:
                t, r = T.parse(raw)
                assert T.ser(t) == raw[:r.p]
                ok = r.p == len(raw) and tx_ok(t)
            except T.Short:
                ok = False
            if ok and not (len(t['inputs']) == 1 and t['inputs'][0]['txid'] == '00' * 32):
                for i, inp in enumerate(t['inputs']):
                    spk = prev.get((inp['txid'], inp['index']))
                    if spk is None:
                        continue
                    if not S.Machine(t, i, flags).verify(inp['script'], spk):
                        ok = False
            assert ok == want, (name, raw.hex()[:80], flags)
            n += 1
    return n


if __name__ == '__main__':
    print('reference self-test: %d vectors ok' % run())
