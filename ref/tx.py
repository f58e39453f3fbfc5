"""Independent transaction codec and legacy signature hash.

tx = {'version', 'inputs': [{'txid' (hex, display order), 'index', 'script' (bytes), 'seq'}],
      'outputs': [{'amount', 'script'}], 'lock'}
"""
from .enc import dsha, varint


def ser_in(i):
    return (bytes.fromhex(i['txid'])[::-1] + i['index'].to_bytes(4, 'little') + varint(len(i['script']))
            + i['script'] + i['seq'].to_bytes(4, 'little'))


def ser_out(o):
    return o['amount'].to_bytes(8, 'little') + varint(len(o['script'])) + o['script']


def ser(tx):
    return (tx['version'].to_bytes(4, 'little') + varint(len(tx['inputs'])) + b''.join(map(ser_in, tx['inputs']))
            + varint(len(tx['outputs'])) + b''.join(map(ser_out, tx['outputs'])) + tx['lock'].to_bytes(4, 'little'))


def txid(tx):
    return dsha(ser(tx))[::-1].hex()


class Short(Exception):
    pass


class Reader(object):
    def __init__(self, data):
        self.d, self.p = data, 0
        self.canonical = True

    def take(self, n):
        if self.p + n > len(self.d):
            raise Short()
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), 'little')

    def varint(self):
        f = self.u(1)
        v = f if f < 253 else self.u({253: 2, 254: 4, 255: 8}[f])
        if len(varint(v)) != (1 if f < 253 else {253: 3, 254: 5, 255: 9}[f]):
            self.canonical = False
        return v


def parse(data):
    """(tx, reader) ; raises Short when the data ends too early"""
    r = Reader(data)
    tx = {'version': r.u(4), 'inputs': [], 'outputs': []}
    for _ in range(r.varint()):
        i = {'txid': r.take(32)[::-1].hex(), 'index': r.u(4)}
        i['script'] = r.take(r.varint())
        i['seq'] = r.u(4)
        tx['inputs'].append(i)
    for _ in range(r.varint()):
        o = {'amount': r.u(8)}
        o['script'] = r.take(r.varint())
        tx['outputs'].append(o)
    tx['lock'] = r.u(4)
    return tx, r


def sighash(tx, n, script_code, hashtype):
    """Legacy (pre-segwit) signature hash as an integer-ready 32-byte digest."""
    if n >= len(tx['inputs']):
        return (1).to_bytes(32, 'little')
    base = hashtype & 0x1f
    if base == 3 and n >= len(tx['outputs']):
        return (1).to_bytes(32, 'little')
    ins = []
    for i, inp in enumerate(tx['inputs']):
        c = dict(inp)
        c['script'] = script_code if i == n else b''
        if i != n and base in (2, 3):
            c['seq'] = 0
        ins.append(c)
    outs = [dict(o) for o in tx['outputs']]
    if base == 2:
        outs = []
    elif base == 3:
        outs = [{'amount': 0xffffffffffffffff, 'script': b''}] * n + [outs[n]]
    if hashtype & 0x80:
        ins = [ins[n]]
    t = {'version': tx['version'], 'inputs': ins, 'outputs': outs, 'lock': tx['lock']}
    return dsha(ser(t) + hashtype.to_bytes(4, 'little'))
