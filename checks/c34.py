from hypothesis import strategies as st
from ref import secp, tx as rtx
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, addr_type
from checks.txgen import txs, lib_tx, many
from checks.hdgen import node, lib_priv, lib_pub

check = Check('C34', 'pairs of values built twice from the same data along different routes, or from data differing in one field; attempts to assign their '
              'fields; histories of operations between two looks at a value; non-trivial: all')
secs = st.one_of(st.sampled_from([1, 2, 5, gen.N - 1, gen.SPECIAL['x1'][0]]), gen.secret)


def same(c, a, b, what):
    c.ok(bool(a == b) and bool(b == a) and not (a != b), what + ': equal values do not compare equal', a, b)
    c.eq(hash(a), hash(b), what + ': hash')
    c.eq(len({a, b}), 1, what + ': as members of a set')
    c.eq({a: 1}.get(b), 1, what + ': as keys')
    for x in (a, b):
        c.ok(isinstance(repr(x), str) and isinstance(str(x), str), what + ': no text form')


def different(c, a, b, what):
    c.ok(not (a == b) and not (b == a) and (a != b), what + ': different values compare equal', a, b)
    c.eq(len({a, b}), 2, what + ': as members of a set')


def other_kind(c, a, what):
    for x in (None, 5, 'text', b'', object()):
        c.ok(not (a == x) and (a != x), what + ': equal to something of another kind', x)


def frozen(c, a, what):
    for f in getattr(a, '_fields', ()):
        old = getattr(a, f)
        try:
            setattr(a, f, None)
        except AttributeError:
            pass
        c.ok(getattr(a, f) is old or getattr(a, f) == old, '%s: field %s can be overwritten' % (what, f))


@check.sub('keys', st.fixed_dictionaries({'s': secs, 'comp': st.booleans(), 'net': gen.net, 'd': st.integers(1, 1000)}), quick=150, thorough=3000)
def keys(c, k):
    a = bf.PrivateKey(k['s'], NET[k['net']], k['comp'])
    for b in (bf.PrivateKey(k['s'], NET[k['net']], k['comp']), bf.PrivateKey.from_wif(a.to_wif()), bf.PrivateKey.from_hex(a.to_hex(), NET[k['net']], k['comp'])):
        same(c, a, b, 'private key')
    oth = 'testnet' if k['net'] == 'livenet' else 'livenet'
    different(c, a, bf.PrivateKey((k['s'] + k['d']) % (gen.N - 1) + 1, NET[k['net']], k['comp']), 'private key')
    different(c, a, bf.PrivateKey(k['s'], NET[oth], k['comp']), 'private key of another network')
    different(c, a, bf.PrivateKey(k['s'], NET[k['net']], not k['comp']), 'private key of other compression')
    p = bf.PublicKey.from_private_key(a)
    pt = secp.mul_g(k['s'])
    for q in (a.to_public_key(), bf.PublicKey.from_bytes(p.to_bytes(), NET[k['net']]), bf.PublicKey.from_hex(p.to_hex(), NET[k['net']]), bf.PublicKey(pt, NET[k['net']], k['comp'])):
        same(c, p, q, 'public key')
    different(c, p, bf.PublicKey((pt[0], gen.P - pt[1]), NET[k['net']], k['comp']), 'public key and its negative')
    different(c, p, bf.PublicKey(pt, NET[oth], k['comp']), 'public key of another network')
    different(c, p, bf.PublicKey(pt, NET[k['net']], not k['comp']), 'public key of other compression')
    for x in (a, p):
        frozen(c, x, type(x).__name__)
        other_kind(c, x, type(x).__name__)
    c.nt()


@check.sub('opcodes', None, fixed=lambda: list(range(256)))
def opcodes(c, n):
    """Every opcode against every other"""
    a = bf.Opcode(n)
    ia = bf.Instruction(a, gen.filler(n, 0)) if 1 <= n <= 75 else bf.Instruction(a, b'x') if n in (76, 77, 78) else bf.Instruction(a)
    for m in range(256):
        b = bf.Opcode(m)
        ib = bf.Instruction(b, gen.filler(m, 0)) if 1 <= m <= 75 else bf.Instruction(b, b'x') if m in (76, 77, 78) else bf.Instruction(b)
        for x, y in ((a, b), (ia, ib), (bf.Script([ia]), bf.Script([ib]))):
            c.ok(bool(x == y) == (n == m) and bool(x != y) == (n != m), 'opcodes %d and %d, compared' % (n, m), x, y)
            if n == m:
                c.eq(hash(x), hash(y), 'hash')
    c.nt()


@check.sub('address', st.fixed_dictionaries({'h': gen.h20, 'net': gen.net, 'kind': st.sampled_from(['pubkeyhash', 'scripthash']), 'i': st.integers(0, 159)}), quick=800, thorough=10000)
def address(c, k):
    mk = lambda h, n, t: bf.Address(h, NET[n], addr_type(t))
    a = mk(k['h'], k['net'], k['kind'])
    for b in (mk(k['h'], k['net'], k['kind']), bf.Address.from_string(a.to_string()), bf.Address.from_hex(a.to_hex()), bf.Address.from_bytes(a.to_bytes())):
        same(c, a, b, 'address')
    h2 = bytearray(k['h'])
    h2[k['i'] // 8] ^= 1 << (k['i'] % 8)
    different(c, a, mk(bytes(h2), k['net'], k['kind']), 'address')
    different(c, a, mk(k['h'], 'testnet' if k['net'] == 'livenet' else 'livenet', k['kind']), 'address on another network')
    different(c, a, mk(k['h'], k['net'], 'scripthash' if k['kind'] == 'pubkeyhash' else 'pubkeyhash'), 'address of another type')
    frozen(c, a, 'Address')
    other_kind(c, a, 'Address')
    c.nt()


@check.sub('script', st.tuples(st.lists(gen.instr, max_size=6), gen.instr, st.integers(0, 6)).map(list), quick=1500, thorough=20000)
def script(c, k):
    ins, x, i = k
    raw = gen.raw_of(ins)
    a = gen.lib_script(bf, ins)
    same(c, a, bf.Script.from_bytes(raw), 'script')
    same(c, a, bf.Script.create(a.instructions), 'script')
    same(c, a, bf.Script(list(a.instructions)), 'script')
    j = i % (len(ins) + 1)
    ins2 = ins[:j] + [x] + ins[j:]
    different(c, a, gen.lib_script(bf, ins2), 'script')
    frozen(c, a, 'Script')
    other_kind(c, a, 'Script')
    one = bf.Script.from_bytes(gen.raw_of([x])).instructions[0]
    same(c, one, gen.lib_script(bf, [x]).instructions[0], 'instruction')
    other_kind(c, one, 'Instruction')
    other_kind(c, one.opcode, 'Opcode')
    for y in ins:
        two = gen.lib_script(bf, [y]).instructions[0]
        (same if x == y else different)(c, one, two, 'instruction')
    # changing the list or the buffer a script was made from does not change it
    src = list(a.instructions)
    s = bf.Script(src)
    src.append(one)
    c.eq(s.to_bytes(), raw, 'script after the list it was made from changed')
    buf = bytearray(raw)
    s = bf.Script.from_bytes(buf)
    for n in range(len(buf)):
        buf[n] ^= 0xff
    c.eq(s.to_bytes(), raw, 'script after the buffer it was read from changed')
    c.nt()


@check.sub('tail', st.tuples(st.sampled_from([1, 2, 20, 33, 74, 75, 76, 77, 78, 100, 255, 256, 257, 520, 1000, 65535, 65536]), st.integers(0, 10 ** 6), st.integers(0, 7), st.sampled_from([0, 76, 77, 78])).map(list),
           quick=600, thorough=10000, fixed=lambda: [[n, i, 0, 0] for n in (1, 20, 75, 76, 100, 256, 520) for i in (0, n // 2, n - 1)])
def tail(c, k):
    """Long data differing in one bit anywhere: different instructions, scripts, inputs, outputs, transactions"""
    n, i, b, op = k
    d = gen.filler(n, 1)
    e = bytearray(d)
    e[i % n] ^= 1 << b
    if not gen.fits(op, n):
        op = n if n <= 75 else 77 if n < 65536 else 78
    x, y = [gen.lib_script(bf, [['push', op, bytes(z)]]) for z in (d, e)]
    same(c, x, gen.lib_script(bf, [['push', op, bytes(bytearray(d))]]), 'script of long data')
    for what, f in (('instruction', lambda s: s.instructions[0]), ('script', lambda s: s), ('input', lambda s: bf.Input('11' * 32, 0, s)), ('output', lambda s: bf.Output(1, s)),
                    ('transaction', lambda s: bf.Transaction([bf.Input('11' * 32, 0, s)], [bf.Output(1, s)]))):
        different(c, f(x), f(y), what)
        same(c, f(x), f(bf.Script.from_bytes(x.to_bytes())), what)
    c.nt()


FIELDS = ['version', 'lock', 'txid', 'index', 'seq', 'iscript', 'amount', 'oscript']


@check.sub('transaction', st.tuples(st.one_of(txs(2, 2), txs(6, 6)), st.sampled_from(FIELDS)).map(list), quick=600, thorough=10000)
def transaction(c, k):
    t, f = k
    a = lib_tx(t)
    same(c, a, lib_tx(t), 'transaction')
    same(c, a, bf.Transaction.from_bytes(rtx.ser(t)), 'transaction')
    u = {'version': t['version'], 'lock': t['lock'], 'inputs': [dict(x) for x in t['inputs']], 'outputs': [dict(x) for x in t['outputs']]}
    if f in ('version', 'lock'):
        u[f] ^= 1
    elif f == 'txid':
        u['inputs'][0]['txid'] = '%064x' % (int(u['inputs'][0]['txid'], 16) ^ 1)
    elif f in ('index', 'seq'):
        u['inputs'][-1][f] ^= 1
    elif f == 'iscript':
        u['inputs'][-1]['script'] += b'\x51'
    elif f == 'amount':
        u['outputs'][0]['amount'] ^= 1
    else:
        u['outputs'][-1]['script'] += b'\x51'
    different(c, a, lib_tx(u), 'transaction differing in ' + f)
    for x in (a, a.inputs[0], a.outputs[0]):
        frozen(c, x, type(x).__name__)
        other_kind(c, x, type(x).__name__)
    # the lists it was made from may change afterwards
    ins, outs = list(a.inputs), list(a.outputs)
    b = bf.Transaction(ins, outs, t['lock'], t['version'])
    ins.pop()
    outs.append(outs[0])
    c.eq(b.to_bytes(), rtx.ser(t), 'transaction after the lists it was made from changed')
    same(c, a, b, 'transaction made from lists')
    for how, x, y in (('tuples', tuple(a.inputs), tuple(a.outputs)), ('iterators', iter(a.inputs), (o for o in a.outputs))):
        same(c, a, bf.Transaction(x, y, t['lock'], t['version']), 'transaction made from ' + how)
    b.replace_inputs(list(a.inputs) * 2)
    c.eq(b.to_bytes(), rtx.ser(t), 'transaction after a copy with other inputs was made')
    c.nt(f)


@check.sub('hd', st.tuples(node, st.sampled_from(['k', 'chain', 'depth', 'index', 'parent'])).map(list), quick=120, thorough=2000)
def hd(c, k):
    n, f = k
    a = lib_priv(n)
    same(c, a, lib_priv(n), 'HD private key')
    same(c, a, bf.HDPrivateKey.from_string(a.to_string()), 'HD private key')
    p = a.to_hd_public_key()
    same(c, p, bf.HDPublicKey.from_string(p.to_string()), 'HD public key')
    m = dict(n)
    if f == 'chain':
        m['chain'] = bytes([n['chain'][0] ^ 1]) + n['chain'][1:]
    elif f == 'k':
        m['k'] = n['k'] % (gen.N - 1) + 1
    elif f == 'depth':
        m['depth'] = n['depth'] ^ 1
    else:
        m[f] = n[f] ^ 1
    different(c, a, lib_priv(m), 'HD private key differing in ' + f)
    different(c, p, lib_pub(m), 'HD public key differing in ' + f)
    before = (a.to_string(), p.to_string())
    a.derive(1)
    a.derive(1, True)
    p.derive(2)
    c.eq((a.to_string(), p.to_string()), before, 'HD keys after deriving from them')
    for x in (a, p):
        frozen(c, x, type(x).__name__)
        other_kind(c, x, type(x).__name__)
    c.nt(f)


@check.sub('sizes', None, fixed=lambda: [[i, o] for i in (1, 2, 3, 4, 5, 8, 17, 253) for o in (1, 2, 3, 4, 5, 8, 17, 253)])
def sizes(c, k):
    """Transactions of any number of parts are values too"""
    t = many(k[0], k[1], 1)
    a = lib_tx(t)
    same(c, a, bf.Transaction.from_bytes(rtx.ser(t)), 'transaction')
    ins, outs = list(a.inputs), list(a.outputs)
    b = bf.Transaction(ins, outs, t['lock'], t['version'])
    d = b.replace_inputs(ins)
    ins.reverse()
    ins.append(ins[0])
    outs.reverse()
    outs.append(outs[0])
    c.eq(b.to_bytes(), rtx.ser(t), 'transaction after the lists it was made from changed')
    c.eq(d.to_bytes(), rtx.ser(t), 'copy after the list of its inputs changed')
    same(c, a, b, 'transaction')
    same(c, a, d, 'transaction')
    for n in {0, k[0] // 2, k[0] - 1}:
        u = dict(t, inputs=[dict(x, index=x['index'] ^ 1) if m == n else x for m, x in enumerate(t['inputs'])])
        different(c, a, lib_tx(u), 'transaction differing in one input')
    for n in {0, k[1] // 2, k[1] - 1}:
        u = dict(t, outputs=[dict(x, amount=x['amount'] ^ 1) if m == n else x for m, x in enumerate(t['outputs'])])
        different(c, a, lib_tx(u), 'transaction differing in one output')
    c.nt()


@check.sub('arguments', st.fixed_dictionaries({'t': txs(2, 2), 'ks': st.lists(st.sampled_from([1, 2, 3, 5, 7, 11, 13]), min_size=1, max_size=4, unique=True), 'm': st.integers(1, 4),
                                               'sigs': st.lists(st.binary(min_size=1, max_size=72), min_size=1, max_size=4), 'ins': st.lists(gen.instr, max_size=5), 'd': st.binary(max_size=5)}), quick=150, thorough=3000)
def arguments(c, k):
    """Lists and buffers given to the library are afterwards as they were, and what was made of them does not follow them when they change"""
    from bitforge.tools import Buffer
    from bitforge.script import RedeemMultisig, PayToScriptIn
    from vp.lib import benc

    def intact(what, f, arg, show):
        before = list(arg) if isinstance(arg, list) else bytes(arg)
        x = f(arg)
        c.ok((list(arg) if isinstance(arg, list) else bytes(arg)) == before, what + ': the argument was changed', before, arg)
        first = show(x)
        if isinstance(arg, list):
            arg.reverse()
            arg.extend(before)
        else:
            for n in range(len(arg)):
                arg[n] ^= 0xff
        c.eq(show(x), first, what + ': the result after its argument changed')
        c.eq(show(f(list(before) if isinstance(arg, list) else type(arg)(before))), first, what + ': made again')
        return x
    ser = lambda x: x.to_bytes()
    keys = [bf.PrivateKey(s) for s in k['ks']]
    pubs = [x.to_public_key() for x in keys]
    m = min(k['m'], len(keys))
    intact('redeem script', lambda a: RedeemMultisig.create(a, m), list(pubs), ser)
    i = intact('multisig input', lambda a: bf.MultisigInput.create('11' * 32, 1, a, m), list(pubs), ser)
    intact('multisig output', lambda a: bf.MultisigOutput.create(5, a, m), list(pubs), ser)
    intact('script input', lambda a: PayToScriptIn.create(i.script, a), list(k['sigs']), ser)
    intact('compiled script', lambda a: bf.Script.compile(a), [bf.Opcode(118), b'abc', 97] + list(k['sigs']), ser)
    tx = bf.Transaction([i], lib_tx(k['t']).outputs)
    given = list(keys[:m])
    tx.sign(given, 0)
    c.ok(given == keys[:m], 'signing: the list of keys was changed', given)
    tx.inputs[0].can_sign(given)
    c.ok(given == keys[:m], 'can_sign: the list of keys was changed', given)
    raw, t = gen.raw_of(k['ins']), k['t']
    for kind in (bytearray, Buffer):
        intact('script from %s' % kind.__name__, bf.Script.from_bytes, kind(raw), ser)
        intact('transaction from %s' % kind.__name__, bf.Transaction.from_bytes, kind(rtx.ser(t)), ser)
        intact('input from %s' % kind.__name__, bf.Input.from_bytes, kind(bytes(tx.inputs[0].to_bytes())), ser)
        intact('output from %s' % kind.__name__, bf.Output.from_bytes, kind(bytes(tx.outputs[0].to_bytes())), ser)
        for big in (False, True):
            intact('number from %s' % kind.__name__, lambda a: benc.decode_int(a, big_endian=big), kind(k['d']), int)
        intact('script number from %s' % kind.__name__, lambda a: benc.decode_script_number(a, False, 5), kind(k['d']), int)
        intact('private key from %s' % kind.__name__, bf.PrivateKey.from_bytes, kind(keys[0].to_bytes()), ser)
        intact('public key from %s' % kind.__name__, bf.PublicKey.from_bytes, kind(pubs[0].to_bytes()), ser)
        a = pubs[0].to_address()
        same(c, intact('address from %s' % kind.__name__, bf.Address.from_bytes, kind(a.to_bytes()), ser), a, 'address from %s' % kind.__name__)
        same(c, intact('address of a %s' % kind.__name__, bf.Address, kind(a.phash), ser), a, 'address of a %s' % kind.__name__)
        for d in k['sigs']:
            i = bf.Instruction.push_for(d)
            same(c, intact('push of a %s' % kind.__name__, bf.Instruction.push_for, kind(d), ser), i, 'push of a %s' % kind.__name__)
            same(c, intact('push of a %s' % kind.__name__, lambda b: bf.Instruction(bf.Opcode(78), b), kind(d), ser), bf.Instruction(bf.Opcode(78), d), 'push of a %s' % kind.__name__)
    for p in pubs:
        same(c, intact('public key from a list', lambda b: bf.PublicKey(b, p.network, p.compressed), list(p.pair), ser), p, 'public key from a list')
    given = [bf.Instruction.push_for(d) for d in k['sigs']]
    same(c, intact('script from a list', bf.Script, list(given), ser), bf.Script(given), 'script from a list')
    ins = [bf.Input('%064x' % n, n, bf.Script()) for n in range(3)]
    outs = [bf.Output(n, bf.Script()) for n in range(3)]
    same(c, intact('transaction from a list of inputs', lambda b: bf.Transaction(b, outs), list(ins), ser), bf.Transaction(ins, outs), 'transaction from a list')
    same(c, intact('transaction from a list of outputs', lambda b: bf.Transaction(ins, b), list(outs), ser), bf.Transaction(ins, outs), 'transaction from a list')
    c.nt()


def scribble(x):
    """Overwrites whatever can be overwritten in a result"""
    if isinstance(x, bytearray):
        for n in range(len(x)):
            x[n] ^= 0xff
        x.append(0x6a)
    elif isinstance(x, list):
        for y in x:
            scribble(y)
        x.reverse()
        x.append(None)
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            scribble(y)


@check.sub('results', st.fixed_dictionaries({'t': txs(2, 2), 'ks': st.lists(st.sampled_from([1, 2, 3, 5, 7, 11, 13]), min_size=2, max_size=4, unique=True), 'm': st.integers(1, 4),
                                             'sigs': st.lists(st.binary(min_size=1, max_size=72), min_size=1, max_size=4), 'ins': st.lists(gen.instr, max_size=5), 'net': gen.net}), quick=120, thorough=2500)
def results(c, k):
    """Overwriting what an operation returned changes neither the value nor what the operation returns the next time"""
    from bitforge.script import RedeemMultisig, PayToScriptIn, PayToScriptOut, PayToPubkeyIn, PayToPubkeyOut, OpReturnOut
    key = bf.PrivateKey(k['ks'][0], NET[k['net']])
    pubs = [bf.PrivateKey(s, NET[k['net']], s % 2 == 0).to_public_key() for s in k['ks']]
    redeem = RedeemMultisig.create(pubs, min(k['m'], len(pubs)))
    addr = pubs[0].to_address()
    script = gen.lib_script(bf, k['ins'])
    hd = bf.HDPrivateKey(key, bytes(range(32)), network=NET[k['net']])
    tx = lib_tx(k['t'])
    text, form, bts = ('to_string',), ('to_bytes', 'to_hex'), ('to_bytes', 'to_hex', 'to_string')
    for x, names in [(key, form + ('to_wif', 'to_public_key', 'to_address')), (pubs[0], form + ('to_address',)), (addr, bts), (script, bts + ('to_hash', 'get_structure', 'is_push_only')),
                     (redeem, bts + ('get_public_keys', 'get_min_signatures', 'to_hash')), (PayToScriptIn.create(redeem, k['sigs']), bts + ('get_script', 'get_signatures')),
                     (PayToScriptOut.create(redeem), bts + ('get_script_hash',)), (PayToPubkeyIn.create(pubs[0], k['sigs'][0]), bts + ('get_public_key', 'get_signature')),
                     (PayToPubkeyOut.create(addr), bts + ('get_address_hash',)), (OpReturnOut.create(k['sigs'][0]), bts + ('get_data',)),
                     (tx, form + ('get_id', 'get_id_bytes')), (hd, text + ('to_private_key', 'to_public_key', 'to_hd_public_key')), (hd.to_hd_public_key(), text + ('to_public_key',))] \
            + [(i, bts) for i in redeem.instructions] + [(i, form) for i in tx.inputs + tx.outputs]:
        show = lambda: [repr(getattr(x, n)()) for n in names]
        first, h = show(), hash(x)
        for n in names:
            scribble(getattr(x, n)())
        for f in getattr(x, '_fields', ()):
            scribble(getattr(x, f))
        c.eq(show(), first, '%s: after what it returned was overwritten' % type(x).__name__)
        c.eq(hash(x), h, '%s: its hash after what it returned was overwritten' % type(x).__name__)
    c.nt()
