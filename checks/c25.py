from hypothesis import strategies as st
from ref import tx as rtx, enc
from vp import gen
from vp.core import Check
from vp.lib import bf
from checks.txgen import txs, inp, out, many, lib_tx, same_tx

check = Check('C25', 'transactions of 1-4 inputs and outputs with edge ids (zero-padded), indexes, sequence numbers, amounts to 2^64-1, scripts of every '
              'length class, versions and lock times; and big ones of 252-300 and 65535+ inputs/outputs; non-trivial: all but the smallest')


def sizes():
    for n in (251, 252, 253, 254, 255, 256, 257, 300):
        yield [n, 1]
        yield [1, n]
    yield [253, 253]
    for n in gen.fresh(1, 70000):
        yield [n, 1]
        yield [1, n]
        yield [n, n] if n < 300 else [n, 2]


def check_tx(c, t):
    raw = rtx.ser(t)
    x = lib_tx(t)
    c.eq(x.to_bytes(), raw, 'serialization')
    c.eq(x.to_hex(), raw.hex(), 'hex serialization')
    c.eq(x.get_id(), rtx.txid(t), 'transaction id')
    c.eq(x.get_id_bytes(), enc.dsha(raw), 'binary transaction id')
    same_tx(c, x, t, 'as built')
    for how, y in (('bytes', bf.Transaction.from_bytes(raw)), ('hex', bf.Transaction.from_hex(raw.hex())), ('capital hex', bf.Transaction.from_hex(raw.hex().upper()))):
        same_tx(c, y, t, 'read back from ' + how)
        c.eq(y.to_bytes(), raw, 'serialization of the transaction read back from ' + how)
        c.eq(y.get_id(), rtx.txid(t), 'id of the transaction read back from ' + how)
    return raw


@check.sub('tx', txs(), quick=2500, thorough=60000)
def tx(c, t):
    raw = check_tx(c, t)
    if len(raw) > 70:
        c.nt('%d x %d' % (len(t['inputs']), len(t['outputs'])))


@check.sub('big', st.tuples(st.integers(1, 400), st.integers(1, 400)).map(list), quick=40, thorough=300, fixed=lambda: list(sizes()))
def big(c, k):
    check_tx(c, many(k[0], k[1], 3))
    c.nt('253 or more' if max(k) >= 253 else 'fewer')


@check.sub('input', inp, quick=1500, thorough=30000)
def input_(c, i):
    raw = rtx.ser_in(i)
    for x in (bf.Input(i['txid'], i['index'], bf.Script.from_bytes(i['script']), i['seq']),
              bf.Input.create(i['txid'], i['index'], bf.Script.from_bytes(i['script']), i['seq'])):
        c.eq(x.to_bytes(), raw, 'input')
        c.eq(x.to_hex(), raw.hex(), 'input in hex')
    c.eq(bf.Input(i['txid'].upper(), i['index'], bf.Script.from_bytes(i['script']), i['seq']).to_bytes(), raw, 'input whose transaction id was given in capitals')
    for x in (bf.Input.from_bytes(raw), bf.Input.from_hex(raw.hex()), bf.Input.from_hex(raw.hex().upper())):
        c.eq((x.tx_id, x.txo_index, x.script.to_bytes(), x.seq_number), (i['txid'], i['index'], i['script'], i['seq']), 'input read back')
        c.eq(x.to_bytes(), raw, 'input read back')
    x = bf.Input(i['txid'], i['index'], bf.Script.from_bytes(i['script']), i['seq'])
    y = x.replace_script(bf.Script.from_bytes(b'\x51\x52'))
    c.eq(y.to_bytes(), rtx.ser_in(dict(i, script=b'\x51\x52')), 'input with its script replaced')
    c.eq(x.remove_script().to_bytes(), rtx.ser_in(dict(i, script=b'')), 'input with its script removed')
    c.eq(x.to_bytes(), raw, 'input after its copies were made')
    c.nt()


@check.sub('output', out, quick=1500, thorough=30000)
def output(c, o):
    raw = rtx.ser_out(o)
    for x in (bf.Output(o['amount'], bf.Script.from_bytes(o['script'])), bf.Output.create(o['amount'], bf.Script.from_bytes(o['script']))):
        c.eq(x.to_bytes(), raw, 'output')
        c.eq(x.to_hex(), raw.hex(), 'output in hex')
    for x in (bf.Output.from_bytes(raw), bf.Output.from_hex(raw.hex())):
        c.eq((x.amount, x.script.to_bytes()), (o['amount'], o['script']), 'output read back')
        c.eq(x.to_bytes(), raw, 'output read back')
    c.nt()


FIELDS = ['version', 'lock', 'txid', 'index', 'seq', 'iscript', 'amount', 'oscript', 'drop-in', 'drop-out', 'swap-in', 'swap-out']


@check.sub('id-binds', st.tuples(txs(3, 3), st.sampled_from(FIELDS), st.integers(0, 2)).map(list), quick=1000, thorough=20000)
def id_binds(c, k):
    """Two transactions that differ anywhere have different bytes and ids; equal ones have the same"""
    t, f, n = k
    i, o = n % len(t['inputs']), n % len(t['outputs'])
    u = {'version': t['version'], 'lock': t['lock'], 'inputs': [dict(x) for x in t['inputs']], 'outputs': [dict(x) for x in t['outputs']]}
    if f in ('version', 'lock'):
        u[f] ^= 1 << (n * 15)
    elif f == 'txid':
        u['inputs'][i]['txid'] = '%064x' % (int(u['inputs'][i]['txid'], 16) ^ (1 << (n * 127)))
    elif f in ('index', 'seq'):
        u['inputs'][i][f] ^= 1 << (n * 15)
    elif f == 'iscript':
        u['inputs'][i]['script'] += b'\x51'
    elif f == 'amount':
        u['outputs'][o]['amount'] ^= 1 << (n * 31)
    elif f == 'oscript':
        u['outputs'][o]['script'] += b'\x51'
    elif f == 'drop-in' and len(u['inputs']) > 1:
        del u['inputs'][i]
    elif f == 'drop-out' and len(u['outputs']) > 1:
        del u['outputs'][o]
    elif f == 'swap-in':
        u['inputs'].reverse()
    elif f == 'swap-out':
        u['outputs'].reverse()
    a, b = lib_tx(t), lib_tx(u)
    differ = t != u
    c.eq(a.to_bytes() != b.to_bytes(), differ, 'bytes differ')
    c.eq(a.get_id() != b.get_id(), differ, 'ids differ')
    c.eq(b.to_bytes(), rtx.ser(u), 'serialization')
    if differ:
        c.nt(f)
