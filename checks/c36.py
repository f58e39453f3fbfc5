from hypothesis import strategies as st
from ref import enc, secp, script as S, tx as rtx
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, addr_type, pub, BitforgeError

check = Check('C36', 'addresses of both networks and kinds, redeem scripts, key lists (1-16 keys, compressed or not) with any number of signatures, data of 1-300 '
              'bytes x amounts to 2^64-1; non-trivial: all, labelled by the kind of output')
amount = gen.u64
redeem = st.one_of(st.lists(gen.instr, max_size=6).map(gen.raw_of), st.sampled_from([b'', b'\x51', gen.p2pkh_raw(b'\7' * 20), gen.p2sh_raw(b'\7' * 20)]))


def wire(c, out, n, raw, kind, what):
    """The output is that amount and that script: as fields, as bytes, and in a transaction read back"""
    c.eq(out.amount, n, what + ': amount')
    c.eq(out.script.to_bytes(), raw, what + ': script')
    data = n.to_bytes(8, 'little') + enc.varint(len(raw)) + raw
    c.eq(out.to_bytes(), data, what + ': bytes')
    c.eq(out.to_hex(), data.hex(), what + ': hex')
    t = bf.Transaction([bf.Input('11' * 32, 0, bf.Script())], [bf.Output(3, bf.Script()), out])
    for how, back in (('bytes', bf.Output.from_bytes(data)), ('hex', bf.Output.from_hex(data.hex())), ('classified', bf.Output.create(n, out.script)),
                      ('in a transaction', bf.Transaction.from_bytes(t.to_bytes()).outputs[1])):
        c.eq(back.amount, n, '%s, %s: amount' % (what, how))
        c.eq(back.script.to_bytes(), raw, '%s, %s: script' % (what, how))
        c.ok(isinstance(back, kind), '%s, %s: not recognised' % (what, how), type(back).__name__)


@check.sub('address', st.tuples(gen.h20, gen.net, amount).map(list), quick=1500, thorough=30000)
def address(c, k):
    h, net, n = k
    a = bf.Address(h, NET[net], addr_type('pubkeyhash'))
    for x in (a, bf.Address.from_string(a.to_string())):
        wire(c, bf.AddressOutput.create(n, x), n, gen.p2pkh_raw(h), bf.AddressOutput, 'output to a key hash')
    b = bf.Address(h, NET[net], addr_type('scripthash'))
    c.rejects('an output to a script address as if it were a key', lambda: bf.AddressOutput.create(n, b), BitforgeError)
    c.nt(net)


@check.sub('of-key', st.tuples(gen.secret, st.booleans(), gen.net, amount).map(list), quick=600, thorough=10000)
def of_key(c, k):
    """To the address of a key: the hash of that key's bytes"""
    s, comp, net, n = k
    h = enc.hash160(secp.sec(secp.mul_g(s), comp))
    wire(c, bf.AddressOutput.create(n, pub(s, net, comp).to_address()), n, gen.p2pkh_raw(h), bf.AddressOutput, 'output to a key')
    c.nt('compressed' if comp else 'uncompressed')


@check.sub('script', st.tuples(redeem, amount).map(list), quick=1500, thorough=30000)
def script(c, k):
    r, n = k
    out = bf.ScriptOutput.create(n, bf.Script.from_bytes(r))
    wire(c, out, n, gen.p2sh_raw(enc.hash160(r)), bf.ScriptOutput, 'output to a script')
    for net in NET:
        c.eq(bf.Address.from_script(bf.Script.from_bytes(r), NET[net]).to_string(), enc.b58check(enc.addr_bytes(out.script.get_script_hash(), net, 'scripthash')), 'address of the same script')
    c.nt('empty' if not r else 'some')


@check.sub('multisig', st.tuples(st.lists(st.tuples(gen.secret, st.booleans()).map(list), min_size=1, max_size=16), st.integers(0, 16), amount).map(list), quick=250, thorough=5000,
           fixed=lambda: [[[[s + 1, s % 2 == 0] for s in range(n)], m, 7] for n in (1, 2, 3, 15, 16) for m in (0, 1, n)])
def multisig(c, k):
    ks, m, n = k
    raw = bytes([80 + m if m else 0]) + b''.join(S.push(secp.sec(secp.mul_g(s), comp)) for s, comp in ks) + bytes([80 + len(ks), 0xae])
    out = bf.MultisigOutput.create(n, [pub(s, 'livenet', comp) for s, comp in ks], m)
    wire(c, out, n, gen.p2sh_raw(enc.hash160(raw)), bf.ScriptOutput, '%d-of-%d output' % (m, len(ks)))
    i = bf.MultisigInput.create('11' * 32, 0, [pub(s, 'testnet', comp) for s, comp in ks], m)
    c.eq(i.script.to_hash(), out.script.get_script_hash(), 'what the input for the same keys redeems')
    c.nt('%d keys' % len(ks))


@check.sub('data', st.one_of(st.binary(min_size=1, max_size=300), gen.small_data, gen.data_of_len([1, 2, 79, 80, 81, 300])), quick=2000, thorough=20000, fixed=lambda: [gen.filler(n, 2) for n in range(1, 300)])
def data(c, d):
    if len(d) > 80:
        c.rejects('%d bytes of data' % len(d), lambda: bf.DataOutput.create(d), BitforgeError)
    else:
        wire(c, bf.DataOutput.create(d), 0, b'\x6a' + S.push(d), bf.DataOutput, 'data output')
    c.nt('refused' if len(d) > 80 else 'carried')


@check.sub('other', st.tuples(gen.script_raw, amount).map(list), quick=1500, thorough=20000)
def other(c, k):
    """Any script: the same bytes and amount, whatever kind it is taken for"""
    raw, n = k
    s = bf.Script.from_bytes(raw)
    out = bf.Output.create(n, s)
    wire(c, out, n, raw, type(out), 'output')
    c.eq(bf.Output(n, s).to_bytes(), out.to_bytes(), 'classified or not')
    c.nt(type(out).__name__)
