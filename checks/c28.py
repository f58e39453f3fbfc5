from hypothesis import strategies as st
from ref import script as S, secp, enc, tx as rtx
from vp import gen
from vp.core import Check
from vp.lib import bf, entropy, nonce_block, NET, pub, BitforgeError
from checks.txgen import out, inp, crowd
from checks.signing import spends, sig_ok, others_untouched, grind, STEER, SHORT

check = Check('C28', 'm-of-n multisig inputs (1 <= m <= n <= 4, keys compressed or not, signers any subset in key order) and script inputs with '
              'redeem scripts of one key check, among other inputs; judged by the reference interpreter (all flags) behind the P2SH output '
              'the library makes for the same keys; non-trivial: all, labelled m-of-n')
case = st.fixed_dictionaries({
    'keys': st.lists(st.tuples(gen.secret, st.booleans()).map(list), min_size=1, max_size=4, unique_by=lambda t: t[0]), 'm': st.integers(1, 4), 'pick': st.integers(0, 23),
    'txid': gen.txid, 'index': gen.u32, 'seq': gen.u32, 'others': st.lists(inp, max_size=2), 'before': st.booleans(), 'outs': st.lists(out, min_size=1, max_size=2),
    'lock': gen.u32, 'version': st.one_of(st.sampled_from([1, 2]), gen.u32), 'ent': st.binary(min_size=1, max_size=4), 'net': gen.net, 'net2': gen.net})
case = case.filter(lambda k: sum(34 if x[1] else 66 for x in k['keys']) <= 515)


def subset(n, m, pick):
    import itertools
    all_ = list(itertools.combinations(range(n), m))
    return list(all_[pick % len(all_)])


def setup(k, make_input, code):
    others = [bf.Input(x['txid'], x['index'], bf.Script.from_bytes(x['script']), x['seq']) for x in k['others']]
    od = [dict(x) for x in k['others']]
    me = {'txid': k['txid'], 'index': k['index'], 'script': code, 'seq': k['seq']}
    ins, data, pos = ([make_input()] + others, [me] + od, 0) if k['before'] else (others + [make_input()], od + [me], len(od))
    tx = bf.Transaction(ins, [bf.Output(o['amount'], bf.Script.from_bytes(o['script'])) for o in k['outs']], k['lock'], k['version'])
    return tx, {'version': k['version'], 'lock': k['lock'], 'inputs': data, 'outputs': k['outs']}, pos


def many():
    base = dict(KNOWN, others=[])
    for n, m, pick in ((5, 2, 3), (7, 4, 11), (8, 1, 7), (15, 1, 14), (15, 2, 50), (15, 3, 0)):
        yield dict(base, keys=[[s + 1, True] for s in range(n)], m=m, pick=pick)
    yield dict(base, keys=[[s + 1, False] for s in range(7)], m=2, pick=5)


KNOWN = {'keys': [[5, True], [6, True]], 'm': 1, 'pick': 0, 'txid': '11' * 32, 'index': 0, 'seq': 0, 'others': [{'txid': '22' * 32, 'index': 1, 'script': b'', 'seq': 3}],
         'before': True, 'outs': [{'amount': 1, 'script': b'\x51'}, {'amount': 2, 'script': b'\x52'}], 'lock': 0, 'version': 1, 'ent': b'x', 'net': 'livenet', 'net2': 'livenet'}


@check.sub('multisig', case, quick=220, thorough=6000, fixed=lambda: list(many()))
def multisig(c, k):
    n = len(k['keys'])
    m = min(k['m'], n)
    secs = [secp.sec(secp.mul_g(s), comp) for s, comp in k['keys']]
    pubs = [pub(s, k['net'], comp) for s, comp in k['keys']]
    code = bytes([80 + m]) + b''.join(map(S.push, secs)) + bytes([80 + n]) + b'\xae'
    tx, t, pos = setup(k, lambda: bf.MultisigInput.create(k['txid'], k['index'], pubs, m, k['seq']), code)
    c.eq(tx.to_bytes(), rtx.ser(t), 'the unsigned transaction')
    who = subset(n, m, k['pick'])
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(k['keys'][i][0], NET[k['net2']], k['keys'][i][1]) for i in who], pos)
    others_untouched(c, tx, s, t, pos)
    prev = bf.MultisigOutput.create(5, pubs, m).script.to_bytes()
    c.eq(prev, gen.p2sh_raw(enc.hash160(code)), 'the output for the same keys')
    spends(c, s, t, pos, prev, '%d of %d' % (m, n))
    sc = S.parse(s.inputs[pos].script.to_bytes())
    c.eq(len(sc), m + 2, 'elements of the signed script')
    c.eq(sc[-1][1], code, 'redeem script')
    c.eq([x[1][-1] for x in sc[1:-1]], [1] * m, 'hash types')
    c.nt('%d of %d' % (m, n))


@check.sub('crowded', st.tuples(case, st.integers(0, 24), st.integers(1, 24), st.integers(0, 10 ** 6)).map(list), quick=50, thorough=1500,
           fixed=lambda: [[KNOWN, n, m, n * m] for n in (0, 1, 5, 12, 19) for m in (1, 4, 6, 9, 17, 33)])
def crowded(c, k):
    """Up to two dozen other inputs and outputs, in no order"""
    k, n, m, seed = k
    ins, outs = crowd(n, m, seed)
    multisig(c, dict(k, others=ins, outs=outs))


@check.sub('twins', st.tuples(case, st.integers(2, 4), st.integers(0, 3), st.integers(0, 2)).map(list), quick=60, thorough=1200,
           fixed=lambda: [[KNOWN, 3, w, a] for w in range(3) for a in range(3)])
def twins(c, k):
    """Several multisig inputs that are the same in every field, or but for the output spent: only the one asked for changes, and it verifies"""
    k, n, which, alike = k
    secs = [secp.sec(secp.mul_g(s), comp) for s, comp in k['keys']]
    pubs = [pub(s, k['net'], comp) for s, comp in k['keys']]
    m = min(k['m'], len(secs))
    code = bytes([80 + m]) + b''.join(map(S.push, secs)) + bytes([80 + len(secs)]) + b'\xae'
    data = [{'txid': k['txid'], 'index': k['index'] if alike == 0 else k['index'] + i & 0xffffffff, 'script': code, 'seq': k['seq'] if alike < 2 else k['seq'] + i & 0xffffffff} for i in range(n)]
    tx = bf.Transaction([bf.MultisigInput.create(x['txid'], x['index'], pubs, m, x['seq']) for x in data],
                        [bf.Output(o['amount'], bf.Script.from_bytes(o['script'])) for o in k['outs']], k['lock'], k['version'])
    t = {'version': k['version'], 'lock': k['lock'], 'inputs': data, 'outputs': k['outs']}
    pos = which % n
    keys = [bf.PrivateKey(k['keys'][i][0], NET[k['net2']], k['keys'][i][1]) for i in range(m)]
    with entropy(k['ent']):
        s = tx.sign(keys, pos)
        e = tx.sign(keys, pos - n)              # the same one, counted from the end
    for x in (s, e):
        others_untouched(c, tx, x, t, pos)
        spends(c, x, t, pos, gen.p2sh_raw(enc.hash160(code)), 'one of several alike')
    c.nt(('same', 'other outputs spent', 'other sequence numbers')[alike])


@check.sub('short', st.tuples(case, st.sampled_from(STEER), st.sampled_from(SHORT[:6]), st.integers(0, 2 ** 32 - 1)).map(list), quick=40, thorough=1000,
           fixed=lambda: [[KNOWN, k, w, i] for i, k in enumerate(STEER) for w in SHORT[:6]])
def short(c, k):
    """Signatures whose R or S is short, or was in the upper half before (the nonce is steered, the lock time searched for)"""
    k, nonce, want, start = k
    secs = [secp.sec(secp.mul_g(s), comp) for s, comp in k['keys']]
    code = b'\x51' + b''.join(map(S.push, secs)) + bytes([80 + len(secs)]) + b'\xae'
    pubs = [pub(s, k['net'], comp) for s, comp in k['keys']]
    make = lambda: bf.MultisigInput.create(k['txid'], k['index'], pubs, 1, k['seq'])
    tx, t, pos = setup(k, make, code)
    who = k['keys'][k['pick'] % len(secs)]
    tx, t, pos = setup(dict(k, lock=grind(t, pos, code, who[0], nonce, want, start)), make, code)
    with entropy(k['ent'], [nonce_block(nonce)]):
        s = tx.sign([bf.PrivateKey(who[0], NET[k['net2']], who[1])], pos)
    others_untouched(c, tx, s, t, pos)
    spends(c, s, t, pos, gen.p2sh_raw(enc.hash160(code)), 'signed')
    c.nt('%d bytes' % len(S.parse(s.inputs[pos].script.to_bytes())[1][1]))


@check.sub('script', case, quick=100, thorough=2500)
def script(c, k):
    """A redeem script of another kind: the dummy element first, then one signature per key, then the script"""
    (s0, comp) = k['keys'][0]
    sec = secp.sec(secp.mul_g(s0), comp)
    # drops the dummy: OP_0 <sig> <redeem>;  redeem: NIP <key> CHECKSIG
    code = b'\x77' + S.push(sec) + b'\xac'
    tx, t, pos = setup(k, lambda: bf.ScriptInput.create(k['txid'], k['index'], bf.Script.from_bytes(code), k['seq']), code)
    c.eq(tx.to_bytes(), rtx.ser(t), 'the unsigned transaction')
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(s0, NET[k['net2']], comp)], pos)
    others_untouched(c, tx, s, t, pos)
    prev = bf.ScriptOutput.create(5, bf.Script.from_bytes(code)).script.to_bytes()
    c.eq(prev, gen.p2sh_raw(enc.hash160(code)), 'the output for the same script')
    spends(c, s, t, pos, prev, 'script input')
    c.nt()


@check.sub('structure', st.tuples(case, st.integers(0, 20), st.integers(0, 700), st.booleans()).map(list), quick=60, thorough=1500,
           fixed=lambda: [[KNOWN, n, z, d] for n in (0, 1, 2, 14, 15, 16, 17, 20) for z in (0, 300, 520, 521, 600) for d in (False, True)] + [[KNOWN, 1, z, False] for z in gen.fresh(1, 70000)])
def structure(c, k):
    """Any script, any number of keys (the same one twice included): the dummy, one valid signature per key in the order given, the whole script"""
    k, n, size, dup = k
    body = gen.raw_of([['op', 0x75]] + [['push', 77, gen.filler(size, 1)], ['op', 0x75]] * (size > 0)) + b'\x51'
    secrets = [k['keys'][i % len(k['keys'])][0] if dup else (k['keys'][0][0] + i * 7919) % (gen.N - 1) + 1 for i in range(n)]
    tx, t, pos = setup(k, lambda: bf.ScriptInput.create(k['txid'], k['index'], bf.Script.from_bytes(body), k['seq']), body)
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(x) for x in secrets], pos)
    others_untouched(c, tx, s, t, pos)
    sc = S.parse(s.inputs[pos].script.to_bytes())
    c.ok(sc is not None, 'the signed script is not a script')
    c.eq(len(sc), n + 2, 'elements of the signed script')
    c.eq(sc[0][0], 0, 'first element')
    c.eq(sc[-1][1], body, 'redeem script')
    for x, i in zip(secrets, sc[1:-1]):
        c.eq(i[1][-1], 1, 'hash type')
        c.ok(sig_ok(t, pos, body, i[1], secp.mul_g(x), 1)[0], 'a signature is not the one of the key in its place')
    c.nt('%d keys' % n, 'same key again' if dup and n > len(k['keys']) else 'different keys', 'more than 520 bytes' if len(body) > 520 else 'up to 520 bytes')


@check.sub('mixed', st.tuples(case, st.permutations(range(4)), st.permutations(range(4)), st.integers(0, 3)).map(list), quick=60, thorough=1500)
def mixed(c, k):
    """Inputs of every kind in one transaction, in any order, signed in any order, some not at all: each signature holds when all are there, and each step changes one input"""
    k, place, order, skip = k
    keys = k['keys']
    secs = [secp.sec(secp.mul_g(s), comp) for s, comp in keys]
    n, m = len(keys), min(k['m'], len(keys))
    (s0, c0), (s1, c1) = keys[0], keys[-1]
    many_ = bytes([80 + m]) + b''.join(map(S.push, secs)) + bytes([80 + n]) + b'\xae'
    one = b'\x77' + S.push(secs[0]) + b'\xac'
    other = k['others'][0] if k['others'] else {'txid': '33' * 32, 'index': 0, 'script': b'\x51', 'seq': 1}
    h = enc.hash160(secs[-1])
    P = lambda i: bf.PrivateKey(keys[i][0], NET[k['net2']], keys[i][1])
    kinds = [
        (bf.AddressInput.create(k['txid'], k['index'], bf.Address(h, NET[k['net']], bf.Address.Type.PublicKey), k['seq']), gen.p2pkh_raw(h), gen.p2pkh_raw(h), [n - 1]),
        (bf.MultisigInput.create(k['txid'], k['index'] ^ 1, [pub(s, k['net'], comp) for s, comp in keys], m, k['seq']), many_, gen.p2sh_raw(enc.hash160(many_)), subset(n, m, k['pick'])),
        (bf.ScriptInput.create(k['txid'], k['index'] ^ 2, bf.Script.from_bytes(one), k['seq'] ^ 1), one, gen.p2sh_raw(enc.hash160(one)), [0]),
        (bf.Input(other['txid'], other['index'], bf.Script.from_bytes(other['script']), other['seq']), other['script'], None, None)]
    kinds = [kinds[i] for i in place]
    fields = lambda x, code: {'txid': x.tx_id, 'index': x.txo_index, 'script': code, 'seq': x.seq_number}
    t = {'version': k['version'], 'lock': k['lock'], 'outputs': k['outs'], 'inputs': [fields(x, code) for x, code, _, _ in kinds]}
    cur = bf.Transaction([x[0] for x in kinds], [bf.Output(o['amount'], bf.Script.from_bytes(o['script'])) for o in k['outs']], k['lock'], k['version'])
    done = []
    with entropy(k['ent']):
        for pos in order:
            who = kinds[pos][3]
            if who is None or pos == skip:
                continue
            nxt = cur.sign([P(i) for i in who], pos)
            t = others_untouched(c, cur, nxt, t, pos)
            cur = nxt
            done.append(pos)
    for pos in done:
        spends(c, cur, t, pos, kinds[pos][2], 'input %d of several kinds' % pos)
    c.nt('%d signed' % len(done))


@check.sub('hash-types', st.tuples(case, st.sampled_from([2, 3, 0x81, 0x82, 0x83])).map(list), quick=30, thorough=300, fixed=lambda: [[KNOWN, x] for x in (2, 3, 0x81, 0x82, 0x83)])
def hash_types(c, k):
    k, typ = k
    secs = [secp.sec(secp.mul_g(s), comp) for s, comp in k['keys']]
    pubs = [pub(s, k['net'], comp) for s, comp in k['keys']]
    code = b'\x51' + b''.join(map(S.push, secs)) + bytes([80 + len(secs)]) + b'\xae'
    tx, t, pos = setup(k, lambda: bf.MultisigInput.create(k['txid'], k['index'], pubs, 1, k['seq']), code)
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(k['keys'][0][0], NET[k['net2']], k['keys'][0][1])], pos, typ)
    sig = S.parse(s.inputs[pos].script.to_bytes())[1][1]
    c.eq(sig[-1], typ, 'hash type in the signature')
    good, finding = sig_ok(t, pos, code, sig, secp.mul_g(k['keys'][0][0]), typ)
    if finding and not good:
        c.known('sighash-types')
    else:
        c.ok(good, 'the signature of type %d is not valid' % typ)
    c.nt('type %d' % typ)
