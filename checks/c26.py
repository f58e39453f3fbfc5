from hypothesis import strategies as st
from ref import enc, tx as rtx, script as S
from vp import gen
from vp.core import Check
from vp.lib import bf, BitforgeError
from checks.txgen import txs, inp, out, lib_tx, same_tx

check = Check('C26', 'valid transactions cut at every length, with one byte changed, with counts or script lengths altered, arbitrary bytes and texts; '
              'constructor arguments out of range; non-trivial: cut or altered valid transactions')


def scripts_parse(t):
    return all(S.parse(x['script']) is not None for x in t['inputs'] + t['outputs'])


def judge(c, raw):
    """Refused with the library's error when the bytes end early or hold no transaction; otherwise what the reference reads"""
    try:
        t, r = rtx.parse(raw)
    except rtx.Short:
        t = None
    if t is None or not scripts_parse(t) or not t['inputs'] or not t['outputs']:
        c.rejects('malformed transaction', lambda: bf.Transaction.from_bytes(raw), BitforgeError)
        c.rejects('malformed transaction in hex', lambda: bf.Transaction.from_hex(raw.hex()), BitforgeError)
        return False
    trailing = r.p < len(raw)
    ok, v = c.attempt(lambda: bf.Transaction.from_bytes(raw), BitforgeError)
    if ok:
        same_tx(c, v, t, 'decoded')
        if r.canonical and not trailing:
            c.eq(v.to_bytes(), raw, 'serialization of what was decoded')
    elif r.canonical and not trailing:
        c.fail('valid transaction refused: %r' % v)
    return True


def small():
    return {'version': 1, 'inputs': [{'txid': '%02x' % 17 * 32, 'index': 1, 'script': b'\x02ab', 'seq': 5}, {'txid': '22' * 32, 'index': 0, 'script': b'', 'seq': 0xffffffff}],
            'outputs': [{'amount': 7, 'script': gen.p2pkh_raw(b'\3' * 20)}, {'amount': 2 ** 40, 'script': b'\x6a\x01a'}], 'lock': 9}


@check.sub('cut', st.tuples(txs(2, 2), st.floats(0, 1)).map(list), quick=1200, thorough=30000, fixed=lambda: [[small(), n / len(rtx.ser(small()))] for n in range(len(rtx.ser(small())))])
def cut(c, k):
    t, f = k
    raw = rtx.ser(t)
    n = min(len(raw) - 1, int(f * len(raw)))
    c.ref(not judge(c, raw[:n]), 'a cut transaction parses')
    judge(c, raw)
    c.nt()


@check.sub('flip', st.tuples(txs(2, 2), st.integers(0, 10 ** 6), st.integers(0, 255)).map(list), quick=2500, thorough=60000,
           fixed=lambda: [[small(), i, v] for i in range(len(rtx.ser(small()))) for v in (0, 1, 0x4c, 0x4d, 0x4e, 0x4b, 0xfd, 0xff)])
def flip(c, k):
    t, i, v = k
    raw = bytearray(rtx.ser(t))
    # the interesting bytes are near the start and around lengths: bias there
    i = i % len(raw) if i % 3 else i % min(len(raw), 60)
    raw[i] = v
    raw = bytes(raw)
    if len(raw) > 4000:
        raw = raw[:4000]
    c.nt('still valid' if judge(c, raw) else 'refused')


@check.sub('varint', st.tuples(st.sampled_from(['in', 'out', 'script']), st.sampled_from([0, 1, 2, 3, 252, 253, 254, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]),
                               st.sampled_from([1, 3, 5, 9])).map(list), quick=150, thorough=1000,
           fixed=lambda: [[w, n, l] for w in ('in', 'out', 'script') for n in (0, 1, 2, 3, 252, 253, 65535, 65536, 2 ** 32, 2 ** 63, 2 ** 64 - 1) for l in (1, 3, 5, 9)])
def varint(c, k):
    """Counts and lengths that promise more than there is, or that are written longer than needed"""
    where, n, l = k
    v = {1: lambda: bytes([n & 0xff]), 3: lambda: b'\xfd' + (n & 0xffff).to_bytes(2, 'little'), 5: lambda: b'\xfe' + (n & 0xffffffff).to_bytes(4, 'little'),
         9: lambda: b'\xff' + n.to_bytes(8, 'little')}[l]()
    i = b'\x11' * 32 + b'\0' * 4 + (v if where == 'script' else b'\1') + b'\x51' + b'\xff' * 4
    raw = b'\1\0\0\0' + (v if where == 'in' else b'\1') + i + (v if where == 'out' else b'\1') + b'\5' + b'\0' * 7 + b'\1\x51' + b'\0' * 4
    try:
        t, r = rtx.parse(raw)
    except (rtx.Short, MemoryError):
        pass
    judge(c, raw)
    c.nt(where)


@check.sub('inflated', st.tuples(txs(2, 2), st.sampled_from(['in', 'out', 'in script', 'out script']), st.sampled_from([8, 16, 24, 31, 32, 40, 48, 63]), st.integers(1, 255)).map(list), quick=400, thorough=8000,
           fixed=lambda: [[small(), w, b, 1] for w in ('in', 'out', 'in script', 'out script') for b in (8, 16, 24, 31, 32, 40, 48, 56, 63)])
def inflated(c, k):
    """A count or length that is right in its low bits alone"""
    t, where, bit, mul = k

    def num(n, here):
        n = n + (mul << bit) if here else n
        return enc.varint(n % 2 ** 64)
    raw = t['version'].to_bytes(4, 'little') + num(len(t['inputs']), where == 'in')
    for j, i in enumerate(t['inputs']):
        raw += bytes.fromhex(i['txid'])[::-1] + i['index'].to_bytes(4, 'little') + num(len(i['script']), where == 'in script' and j == len(t['inputs']) - 1) + i['script'] + i['seq'].to_bytes(4, 'little')
    raw += num(len(t['outputs']), where == 'out')
    for j, o in enumerate(t['outputs']):
        raw += o['amount'].to_bytes(8, 'little') + num(len(o['script']), where == 'out script' and j == len(t['outputs']) - 1) + o['script']
    raw += t['lock'].to_bytes(4, 'little')
    if where.startswith('out s') or where.startswith('in s'):
        last = (t['inputs'] if where[0] == 'i' else t['outputs'])[-1]
        body = (rtx.ser_in if where[0] == 'i' else rtx.ser_out)(last)
        n, head = len(last['script']), 36 if where[0] == 'i' else 8
        body = body[:head] + num(n, True) + body[head + len(enc.varint(n)):]
        if n + (mul << bit) < 2 ** 64 and len(body) < n + (mul << bit):
            c.rejects('a %s whose script is longer than the data' % where[:-7], lambda: (bf.Input if where[0] == 'i' else bf.Output).from_bytes(body), BitforgeError)
    c.nt('%s, bit %d: %s' % (where, bit, 'reads' if judge(c, raw) else 'refused'))


@check.sub('noise', st.one_of(st.binary(max_size=120), st.tuples(st.sampled_from([b'\1\0\0\0\1', b'\1\0\0\0\0', b'\1\0\0\0']), st.binary(max_size=150)).map(lambda t: t[0] + t[1])),
           quick=2000, thorough=60000)
def noise(c, raw):
    c.nt('valid' if judge(c, raw) else 'refused')


@check.sub('text', st.one_of(st.text(max_size=30), st.text('0123456789abcdefABCDEFxg ', max_size=80), st.tuples(txs(1, 1), st.integers(0, 200), st.sampled_from('gxé 0'))
                            .map(lambda t: (lambda h: h[:t[1] % len(h)] + t[2] + h[t[1] % len(h) + 1:])(rtx.ser(t[0]).hex()[:2000]))), quick=1000, thorough=20000)
def text(c, s):
    ok, v = c.attempt(lambda: bf.Transaction.from_hex(s), BitforgeError)
    if ok:
        c.eq(v.to_hex(), rtx.ser(rtx.parse(bytes.fromhex(s))[0]).hex(), 'transaction from hex text')
    c.attempt(lambda: bf.Input.from_hex(s), BitforgeError)
    c.attempt(lambda: bf.Output.from_hex(s), BitforgeError)
    c.nt()


@check.sub('parts', st.tuples(inp, out, st.floats(0, 1)).map(list), quick=1000, thorough=20000)
def parts(c, k):
    """Inputs and outputs on their own, cut short"""
    i, o, f = k
    for raw, cls in ((rtx.ser_in(i), bf.Input), (rtx.ser_out(o), bf.Output)):
        n = min(len(raw) - 1, int(f * len(raw)))
        c.rejects('cut ' + cls.__name__, lambda: cls.from_bytes(raw[:n]), BitforgeError)
        c.rejects('cut hex ' + cls.__name__, lambda: cls.from_hex(raw[:n].hex()), BitforgeError)
    c.nt()


@check.sub('cut-varint', None, fixed=lambda: [[f, n, v, a] for f in (253, 254, 255) for n in range({253: 2, 254: 4, 255: 8}[f]) for v in (0, 1, 255) for a in (0, 5, 2 ** 64 - 1)])
def cut_varint(c, k):
    """The data ends inside a count or length of several bytes, whatever those that are there"""
    f, n, v, a = k
    cut_ = bytes([f]) + bytes([v]) * n
    o, i = a.to_bytes(8, 'little'), bytes([a & 255]) * 36
    for what, raw, cls in (('output', o + cut_, bf.Output), ('input', i + cut_, bf.Input), ('transaction, inputs', b'\1\0\0\0' + cut_, bf.Transaction),
                           ('transaction, input script', b'\1\0\0\0\1' + i + cut_, bf.Transaction), ('transaction, outputs', b'\1\0\0\0\1' + i + b'\0' + b'\xff' * 4 + cut_, bf.Transaction),
                           ('transaction, output script', b'\1\0\0\0\1' + i + b'\0' + b'\xff' * 4 + b'\1' + o + cut_, bf.Transaction)):
        c.rejects('%s cut in a length' % what, lambda: cls.from_bytes(raw), BitforgeError)
        c.rejects('%s cut in a length, in hex' % what, lambda: cls.from_hex(raw.hex()), BitforgeError)
    c.nt('%d' % f)


@check.sub('constructor', st.tuples(txs(2, 2), st.sampled_from(['no in', 'no out', 'bad in', 'bad out', 'lock']), st.one_of(st.integers(-2 ** 40, -1), st.integers(2 ** 32, 2 ** 40), st.sampled_from([-1, 2 ** 32]))).map(list),
           quick=500, thorough=5000, fixed=lambda: [[small(), h, v] for h in ('no in', 'no out', 'bad in', 'bad out', 'lock') for v in (-1, 2 ** 32)])
def constructor(c, k):
    """No inputs, no outputs, something that is no input or output, a lock time of more than 32 bits: refused"""
    t, how, v = k
    x = lib_tx(t)
    ins, outs, lock = list(x.inputs), list(x.outputs), t['lock']
    if how == 'no in':
        ins = []
    elif how == 'no out':
        outs = []
    elif how == 'bad in':
        ins.append(outs[0])
    elif how == 'bad out':
        outs.append(ins[0])
    else:
        lock = v
    c.rejects('transaction with ' + how, lambda: bf.Transaction(ins, outs, lock), BitforgeError)
    c.nt(how)


BADV = st.one_of(st.integers(-2 ** 33, -1), st.integers(2 ** 32, 2 ** 70), st.sampled_from([-1, 2 ** 32, 2 ** 64, -2 ** 31]))


@check.sub('out-of-range', st.tuples(txs(1, 1), st.sampled_from(['index', 'seq', 'amount', 'version']), BADV).map(list), quick=500, thorough=5000,
           fixed=lambda: [[small(), f, v] for f in ('index', 'seq', 'amount', 'version') for v in (-1, 2 ** 32, 2 ** 64, 2 ** 64 + 5, 2 ** 32 + 7)])
def out_of_range(c, k):
    """A number that does not fit its field is never written as another number"""
    t, f, v = k
    x = lib_tx(t)
    if f == 'amount':
        if 0 <= v < 2 ** 64:
            return
        fn = lambda: bf.Output(v, x.outputs[0].script).to_bytes()
    elif f == 'version':
        fn = lambda: bf.Transaction(x.inputs, x.outputs, 0, v).to_bytes()
    else:
        i = x.inputs[0]
        fn = lambda: bf.Input(i.tx_id, v if f == 'index' else i.txo_index, i.script, v if f == 'seq' else i.seq_number).to_bytes()
    c.rejects('%s of %d' % (f, v), fn, BitforgeError)
    c.nt(f)
