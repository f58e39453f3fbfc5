"""Shared by the transaction checks"""
from hypothesis import strategies as st
from ref import tx as rtx
from vp import gen
from vp.lib import bf

script = st.one_of(gen.script_raw, gen.h20.map(gen.p2pkh_raw), gen.h20.map(gen.p2sh_raw), st.just(b''),
                   gen.mined(1, 1000, st.sampled_from([251, 252, 253, 254, 255, 256, 300, 1000])).map(lambda n: gen.raw_of([['op', 81]] * n)),
                   st.sampled_from([65535, 65536]).map(lambda n: gen.raw_of([['push', 77, gen.filler(n - 3, 1)]]) if n < 65539 else b''))
inp = st.fixed_dictionaries({'txid': gen.txid, 'index': gen.u32, 'script': script, 'seq': gen.u32})
out = st.fixed_dictionaries({'amount': gen.u64, 'script': script})


def txs(max_in=4, max_out=4):
    return st.fixed_dictionaries({'version': st.one_of(st.just(1), gen.u32), 'inputs': st.lists(inp, min_size=1, max_size=max_in),
                                  'outputs': st.lists(out, min_size=1, max_size=max_out), 'lock': gen.u32})


def many(n_in, n_out, seed=0):
    """A big transaction from three small numbers"""
    h = lambda *a: gen.filler(32, hash(a) % 1000003)
    return {'version': 1,
            'inputs': [{'txid': h(1, i, seed).hex(), 'index': i * 7919 % 2 ** 32, 'script': b'' if i % 3 else b'\x51', 'seq': 0xffffffff - i % 5} for i in range(n_in)],
            'outputs': [{'amount': (i + 1) * 0x9E3779B97F4A7C15 % 2 ** 64, 'script': gen.p2pkh_raw(h(2, i, seed)[:20]) if i % 2 else b'\x51'} for i in range(n_out)],
            'lock': seed}


def crowd(n, m, seed=0):
    """n inputs and m outputs that are in no order, the same ones now and then"""
    h = lambda *a: gen.filler(32, hash(a) % 1000003)
    ins = [{'txid': h(1, i % 7, seed).hex(), 'index': i * 7919 % 1009, 'script': (b'', b'\x51', gen.p2pkh_raw(h(3, i)[:20]))[i % 3], 'seq': (0xffffffff, 0, 0xfffffffe, i)[i * 5 % 7 % 4]} for i in range(n)]
    outs = [{'amount': (i + 1 + seed) * 0x9E3779B97F4A7C15 % 2 ** 62 if i % 5 else 0, 'script': gen.p2pkh_raw(h(2, i % 4, seed)[:20]) if i % 2 else bytes([0x51 + i * 5 % 16])} for i in range(m)]
    return ins, outs


def lib_tx(t):
    return bf.Transaction([bf.Input(i['txid'], i['index'], bf.Script.from_bytes(i['script']), i['seq']) for i in t['inputs']],
                          [bf.Output(o['amount'], bf.Script.from_bytes(o['script'])) for o in t['outputs']], t['lock'], t['version'])


def same_tx(c, got, t, what):
    """Every field of the library's transaction"""
    c.eq(got.version, t['version'], what + ': version')
    c.eq(got.lock_time, t['lock'], what + ': lock time')
    c.eq(len(got.inputs), len(t['inputs']), what + ': number of inputs')
    c.eq(len(got.outputs), len(t['outputs']), what + ': number of outputs')
    for n, (g, i) in enumerate(zip(got.inputs, t['inputs'])):
        w = '%s: input %d: ' % (what, n)
        c.eq(g.tx_id, i['txid'], w + 'transaction id')
        c.eq(g.txo_index, i['index'], w + 'output index')
        c.eq(g.script.to_bytes(), i['script'], w + 'script')
        c.eq(g.seq_number, i['seq'], w + 'sequence number')
    for n, (g, o) in enumerate(zip(got.outputs, t['outputs'])):
        w = '%s: output %d: ' % (what, n)
        c.eq(g.amount, o['amount'], w + 'amount')
        c.eq(g.script.to_bytes(), o['script'], w + 'script')


ser = rtx.ser
