from hypothesis import strategies as st
from ref import script as S, secp, enc, tx as rtx
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, entropy, nonce_block, BitforgeError
from checks.txgen import inp, out, crowd
from checks.signing import spends, sig_ok, others_untouched, grind, STEER, SHORT

check = Check('C27', 'transactions of 1-3 inputs paying to key hashes (any key, network, compression) among arbitrary other inputs and outputs, signed '
              'in any order, one input or all; the result is judged by the reference interpreter (all flags) with the reference signature '
              'hash; non-trivial: all, labelled')
keyed = st.fixed_dictionaries({'secret': gen.secret, 'comp': st.booleans(), 'net': gen.net, 'txid': gen.txid, 'index': gen.u32, 'seq': gen.u32})
case = st.fixed_dictionaries({'keys': st.lists(keyed, min_size=1, max_size=2), 'others': st.lists(inp, max_size=2), 'outs': st.lists(out, min_size=1, max_size=3),
                              'lock': gen.u32, 'version': st.one_of(st.sampled_from([1, 2, 0, 0xffffffff]), gen.u32), 'rot': st.integers(0, 3), 'rev': st.booleans(), 'ent': st.binary(min_size=1, max_size=4)})
TYPES = [2, 3, 0x81, 0x82, 0x83]


KNOWN = {'keys': [{'secret': 5, 'comp': True, 'net': 'livenet', 'txid': '11' * 32, 'index': 0, 'seq': 0}], 'others': [{'txid': '22' * 32, 'index': 1, 'script': b'', 'seq': 3}],
         'outs': [{'amount': 1, 'script': b'\x51'}, {'amount': 2, 'script': b'\x52'}], 'lock': 0, 'version': 1, 'rot': 0, 'rev': False, 'ent': b'x'}


def build(k):
    """(library transaction, the same as data, [(position, key)])"""
    ins, data, where = [], [], []
    items = [('k', x) for x in k['keys']] + [('o', x) for x in k['others']]
    r = k['rot'] % len(items)
    items = items[r:] + items[:r]
    for pos, (t, x) in enumerate(items):
        if t == 'o':
            ins.append(bf.Input(x['txid'], x['index'], bf.Script.from_bytes(x['script']), x['seq']))
            data.append(dict(x))
        else:
            h = enc.hash160(secp.sec(secp.mul_g(x['secret']), x['comp']))
            a = bf.Address(h, NET[x['net']], bf.Address.Type.PublicKey)
            ins.append(bf.AddressInput.create(x['txid'], x['index'], a, x['seq']))
            data.append({'txid': x['txid'], 'index': x['index'], 'script': gen.p2pkh_raw(h), 'seq': x['seq']})
            where.append((pos, x, h))
    outs = [bf.Output(o['amount'], bf.Script.from_bytes(o['script'])) for o in k['outs']]
    return bf.Transaction(ins, outs, k['lock'], k['version']), {'version': k['version'], 'lock': k['lock'], 'inputs': data, 'outputs': k['outs']}, where


@check.sub('sign', case, quick=350, thorough=9000)
def sign(c, k):
    tx, t, where = build(k)
    c.eq(tx.to_bytes(), rtx.ser(t), 'the unsigned transaction')
    if k['rev']:
        where = where[::-1]
    cur, data = tx, t
    with entropy(k['ent']):
        for pos, x, h in where:
            nxt = cur.sign([bf.PrivateKey(x['secret'], NET[x['net']], x['comp'])], pos)
            u = others_untouched(c, cur, nxt, data, pos)
            sc = S.parse(nxt.inputs[pos].script.to_bytes())
            c.ok(sc is not None and len(sc) == 2, 'the signed script is not <signature> <key>')
            c.eq(sc[1][1], secp.sec(secp.mul_g(x['secret']), x['comp']), 'key in the signed script')
            c.eq(sc[0][1][-1], 1, 'hash type in the signature')
            spends(c, nxt, data, pos, gen.p2pkh_raw(h), 'signed')
            cur, data = nxt, u
        for pos, x, h in where:
            spends(c, cur, data, pos, gen.p2pkh_raw(h), 'after all were signed')
    c.eq(bf.Transaction.from_bytes(cur.to_bytes()).to_bytes(), cur.to_bytes(), 'signed transaction, read back')
    c.nt('%d of %d inputs' % (len(where), len(tx.inputs)))


@check.sub('twins', st.tuples(case, st.integers(2, 4), st.integers(0, 3), st.booleans()).map(list), quick=80, thorough=1500)
def twins(c, k):
    """Several inputs that are the same in every field, or pay to the same key: only the one asked for changes"""
    k, n, which, alike = k
    x = k['keys'][0]
    keys = [dict(x) if alike else dict(x, index=(x['index'] + i) & 0xffffffff) for i in range(n)]
    tx, t, where = build(dict(k, keys=keys))
    pos, x, h = where[which % n]
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(x['secret'], NET[x['net']], x['comp'])], pos)
    others_untouched(c, tx, s, t, pos)
    spends(c, s, t, pos, gen.p2pkh_raw(h), 'one of several alike')
    c.nt('same' if alike else 'same key')


@check.sub('positions', st.tuples(case, st.integers(0, 5), st.integers(0, 100)).map(list), quick=60, thorough=1500)
def positions(c, k):
    """A position counted from the end is that input's; a position beyond either end is refused"""
    k, which, far = k
    tx, t, where = build(k)
    pos, x, h = where[which % len(where)]
    n = len(tx.inputs)
    key = bf.PrivateKey(x['secret'], NET[x['net']], x['comp'])
    with entropy(k['ent']):
        s = tx.sign([key], pos - n)
        others_untouched(c, tx, s, t, pos)
        spends(c, s, t, pos, gen.p2pkh_raw(h), 'at a position counted from the end')
        for bad in (n + far, -n - 1 - far):
            c.rejects('signing input %d of %d' % (bad, n), lambda: tx.sign([key], bad), (BitforgeError, IndexError, ValueError))
    c.eq(tx.to_bytes(), rtx.ser(t), 'the transaction, afterwards')
    c.nt('%d inputs' % n)


def wide():
    other = lambda i: {'txid': '%064x' % (i + 1), 'index': i, 'script': b'', 'seq': i}
    for n, m in [(n, m) for n in (0, 1, 2, 4, 7, 12, 19) for m in (1, 3, 4, 5, 6, 7, 9, 12, 17, 33)] + [(33, 33), (70, 70)]:
        ins, outs = crowd(n, m, n)
        yield dict(KNOWN, others=ins, outs=outs, rot=(n * 3 + m) % (n + 1))
    for n, m in ((251, 1), (252, 1), (253, 2), (1, 252), (1, 253), (1, 300)) + tuple(x for n in gen.fresh(1, 400, 6) for x in ((n - 1 or 1, 1), (1, n))):
        yield dict(KNOWN, others=[other(i) for i in range(n)], outs=[{'amount': i, 'script': b'\x51'} for i in range(m)], rot=n // 2)


@check.sub('wide', None, fixed=lambda: list(wide()))
def wide_(c, k):
    """Transactions around the count of inputs or outputs where the encoding of the count changes, and of middling counts"""
    sign(c, k)


@check.sub('crowded', st.tuples(case, st.integers(0, 24), st.integers(1, 24), st.integers(0, 10 ** 6), st.integers(0, 24)).map(list), quick=80, thorough=2000)
def crowded(c, k):
    """Up to two dozen other inputs and outputs, in no order"""
    k, n, m, seed, rot = k
    ins, outs = crowd(n, m, seed)
    sign(c, dict(k, others=ins, outs=outs, rot=rot))


@check.sub('short', st.tuples(case, st.sampled_from(STEER), st.sampled_from(SHORT[:6]), st.integers(0, 2 ** 32 - 1)).map(list), quick=60, thorough=1500,
           fixed=lambda: [[KNOWN, k, w, i] for i, k in enumerate(STEER) for w in SHORT[:6]] + [[KNOWN, k, '30', 5] for k in STEER[:1] + STEER[-2:]])
def short(c, k):
    """Signatures whose R or S is short, or was in the upper half before (the nonce is steered, the lock time searched for)"""
    k, nonce, want, start = k
    tx, t, where = build(dict(k, keys=k['keys'][:1]))
    pos, x, h = where[0]
    lock = grind(t, pos, gen.p2pkh_raw(h), x['secret'], nonce, want, start)
    tx, t, where = build(dict(k, keys=k['keys'][:1], lock=lock))
    with entropy(k['ent'], [nonce_block(nonce)]):
        s = tx.sign([bf.PrivateKey(x['secret'], NET[x['net']], x['comp'])], pos)
    others_untouched(c, tx, s, t, pos)
    spends(c, s, t, pos, gen.p2pkh_raw(h), 'signed')
    c.nt('%d bytes' % len(S.parse(s.inputs[pos].script.to_bytes())[0][1]))


@check.sub('binds', st.tuples(case, st.integers(0, 7), st.integers(0, 2)).map(list), quick=150, thorough=3000)
def binds(c, k):
    """The signature commits to the rest of the transaction: moved into one that differs in one place, it is worth nothing"""
    k, f, n = k
    tx, t, where = build(k)
    pos, x, h = where[0]
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(x['secret'], NET[x['net']], x['comp'])], pos)
    u = {'version': t['version'], 'lock': t['lock'], 'inputs': [dict(i) for i in t['inputs']], 'outputs': [dict(o) for o in t['outputs']]}
    u['inputs'][pos]['script'] = s.inputs[pos].script.to_bytes()
    o, i = n % len(u['outputs']), n % len(u['inputs'])
    if f == 0:
        u['lock'] ^= 1
    elif f == 1:
        u['version'] ^= 1
    elif f == 2:
        u['outputs'][o]['amount'] ^= 1 << n
    elif f == 3:
        u['outputs'][o]['script'] += b'\x51'
    elif f == 4:
        u['inputs'][i]['seq'] ^= 1
    elif f == 5:
        u['inputs'][i]['index'] ^= 1
    elif f == 6:
        u['outputs'].append({'amount': 0, 'script': b''})
    else:
        u['inputs'][i]['txid'] = '%064x' % (int(u['inputs'][i]['txid'], 16) ^ 1)
    m = S.Machine(u, pos, S.P2SH)
    c.ok(not m.verify(u['inputs'][pos]['script'], gen.p2pkh_raw(h)), 'the signature is valid for another transaction')
    c.nt(str(f))


@check.sub('refuses', st.tuples(case, st.lists(gen.secret, max_size=3)).map(list), quick=60, thorough=600)
def refuses(c, k):
    """Not exactly one key for a key-hash input, or an input of unknown kind: refused"""
    k, secrets = k
    tx, t, where = build(k)
    pos = where[0][0]
    if len(secrets) != 1:
        c.rejects('signing with %d keys' % len(secrets), lambda: tx.sign([bf.PrivateKey(s) for s in secrets], pos), BitforgeError)
        c.nt('%d keys' % len(secrets))
    for i, x in enumerate(tx.inputs):
        if i not in [w[0] for w in where]:
            c.rejects('signing an input of unknown kind', lambda: tx.sign([bf.PrivateKey(1)], i), BitforgeError)
            c.nt('unknown kind')


@check.sub('hash-types', st.tuples(case, st.sampled_from(TYPES)).map(list), quick=60, thorough=600, fixed=lambda: [[KNOWN, x] for x in TYPES])
def hash_types(c, k):
    """Other hash types (a recorded finding: the hash that is signed is the one of SIGHASH_ALL with the other type appended)"""
    k, typ = k
    tx, t, where = build(k)
    pos, x, h = where[0]
    with entropy(k['ent']):
        s = tx.sign([bf.PrivateKey(x['secret'], NET[x['net']], x['comp'])], pos, typ)
    sig = S.parse(s.inputs[pos].script.to_bytes())[0][1]
    c.eq(sig[-1], typ, 'hash type in the signature')
    good, finding = sig_ok(t, pos, gen.p2pkh_raw(h), sig, secp.mul_g(x['secret']), typ)
    if finding and not good:
        c.known('sighash-types')
    else:
        c.ok(good, 'the signature of type %d is not valid' % typ)
    others_untouched(c, tx, s, t, pos)
    c.nt('type %d' % typ)
