from hypothesis import strategies as st
from ref import script as S, enc, secp
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, addr_type, pub, BitforgeError
from bitforge.script import (PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, OpReturnOut, RedeemMultisig)

check = Check('C17', 'standard scripts built through their constructors and re-read from bytes, hex-text and instructions; scripts with '
              'another opcode structure (one instruction added, removed, replaced or swapped); non-trivial: all')
KINDS = {'p2pkh-in': PayToPubkeyIn, 'p2pkh-out': PayToPubkeyOut, 'p2sh-in': PayToScriptIn, 'p2sh-out': PayToScriptOut,
         'return': OpReturnOut, 'multisig': RedeemMultisig}
sig = st.one_of(st.binary(min_size=9, max_size=73), st.binary(min_size=70, max_size=73), st.binary(min_size=1, max_size=100),
                st.tuples(st.sampled_from([1, 2, 75, 76, 77, 100, 255, 256, 257, 520, 65535, 65536]), st.integers(0, 9)).map(lambda t: gen.filler(*t)))
keys = st.lists(st.tuples(gen.secret, st.booleans()).map(list), min_size=1, max_size=5)
redeem = st.one_of(st.lists(gen.instr, min_size=1, max_size=6).map(gen.raw_of),
                   st.sampled_from([gen.p2pkh_raw(b'\7' * 20), b'\x51', b'\x51\x52\x93']))


def kind_of(script):
    found = [k for k, v in KINDS.items() if type(script) is v]
    return found[0] if found else None


def recognised(c, script, kind, raw):
    """Read back from bytes / text / instructions, the script is of the kind it was built as, with the same bytes."""
    c.eq(script.to_bytes(), raw, kind + ' bytes')
    for how, s in (('bytes', bf.Script.from_bytes(raw)), ('text', bf.Script.from_string(script.to_string())),
                   ('instructions', bf.Script.create(script.instructions)),
                   ('a list of instructions', bf.Script.create(list(script.instructions))), ('an iterator over instructions', bf.Script.create(iter(script.instructions)))):
        c.ok(isinstance(s, KINDS[kind]), '%s read back from its %s is not recognised' % (kind, how), type(s).__name__)
        c.eq(s.to_bytes(), raw, kind + ' read back from ' + how)
        yield s


@check.sub('p2pkh', st.fixed_dictionaries({'secret': gen.secret, 'comp': st.booleans(), 'net': gen.net, 'sig': sig, 'h': gen.h20}),
           quick=1200, thorough=20000)
def p2pkh(c, k):
    p = pub(k['secret'], k['net'], k['comp'])
    sec = secp.sec(secp.mul_g(k['secret']), k['comp'])
    for s in recognised(c, PayToPubkeyIn.create(p, k['sig']), 'p2pkh-in', S.push(k['sig']) + S.push(sec)):
        c.eq(s.get_signature(), k['sig'], 'signature')
        c.eq(s.get_public_key().to_bytes(), sec, 'public key')
        c.eq(s.get_public_key().compressed, k['comp'], 'compression of the public key')
    a = bf.Address(k['h'], NET[k['net']], addr_type('pubkeyhash'))
    for s in recognised(c, PayToPubkeyOut.create(a), 'p2pkh-out', gen.p2pkh_raw(k['h'])):
        c.eq(s.get_address_hash(), k['h'], 'address hash')
    b = bf.Address(k['h'], NET[k['net']], addr_type('scripthash'))
    c.rejects('paying a script address as a public key', lambda: PayToPubkeyOut.create(b), BitforgeError)
    c.nt('comp' if k['comp'] else 'uncomp')


@check.sub('p2sh', st.fixed_dictionaries({'redeem': redeem, 'sigs': st.one_of(st.lists(sig, min_size=1, max_size=4), st.tuples(sig, sig).flatmap(lambda t: st.lists(st.sampled_from(t), min_size=2, max_size=5)))}), quick=1200, thorough=20000,
           fixed=lambda: [{'redeem': b'\x51', 'sigs': [b'\1\2\3'] * n} for n in (1, 2, 3, 15, 16, 17, 20, 300)]
           + [{'redeem': r, 'sigs': l} for r in (b'\x51', b'\x51\x52', gen.p2pkh_raw(bytes(20))) for l in ([r], [r, r], [r, b'\5'], [b'\5', r], [b'\5', r, b'\5'], [r[:1]], [r + r])])
def p2sh(c, k):
    r = bf.Script.from_bytes(k['redeem'])
    h = enc.hash160(k['redeem'])
    c.eq(r.to_hash(), h, 'script hash')
    for s in recognised(c, PayToScriptOut.create(r), 'p2sh-out', gen.p2sh_raw(h)):
        c.eq(s.get_script_hash(), h, 'script hash of the output')
        c.ok(bool(s.is_script_hash_out()), 'a pay-to-script output is not recognised by is_script_hash_out')
    raw = b'\0' + b''.join(map(S.push, k['sigs'])) + S.push(k['redeem'])
    for s in recognised(c, PayToScriptIn.create(r, list(k['sigs'])), 'p2sh-in', raw):
        c.eq(list(s.get_signatures()), list(k['sigs']), 'signatures')
        c.eq(s.get_script().to_bytes(), k['redeem'], 'redeem script')
    c.nt('%d signatures' % len(k['sigs']))


@check.sub('multisig', st.tuples(st.lists(st.tuples(gen.secret, st.booleans()).map(list), min_size=1, max_size=16), st.integers(0, 16)).map(list),
           quick=300, thorough=6000, fixed=lambda: [[[[s + 1, True] for s in range(n)], m] for n in range(1, 17) for m in range(0, n + 1)]
           + [[[[x, cp] for x, cp in l], 1] for l in ([(5, 1), (5, 1)], [(5, 1), (5, 0)], [(5, 1), (gen.N - 5, 1)], [(5, 0), (6, 1), (5, 0)], [(gen.N - 5, 1), (5, 1), (5, 1)], [(1, 1)] * 16, [(2, 1), (1, 1), (2, 1), (1, 1)])])
def multisig(c, k):
    ks, m = k
    secs = [secp.sec(secp.mul_g(s), comp) for s, comp in ks]
    raw = bytes([80 + m if m else 0]) + b''.join(map(S.push, secs)) + bytes([80 + len(ks)]) + b'\xae'
    s0 = RedeemMultisig.create([pub(s, 'livenet', comp) for s, comp in ks], m)
    for s in recognised(c, s0, 'multisig', raw):
        c.eq(s.get_min_signatures(), m, 'signatures needed')
        c.eq([p.to_bytes() for p in s.get_public_keys()], secs, 'public keys, in order')
    c.nt('%d keys' % len(ks))


@check.sub('return', st.binary(min_size=1, max_size=600), quick=600, thorough=10000, fixed=lambda: [gen.filler(n, 1) for n in (1, 2, 75, 76, 80, 81, 255, 256)])
def op_return(c, d):
    for s in recognised(c, OpReturnOut.create(d), 'return', b'\x6a' + S.push(d)):
        c.eq(s.get_data(), d, 'data')
    c.nt()


def structure(raw):
    """The library's notion: opcodes, with every data push alike. None for no standard kind."""
    ins = S.parse(raw)
    t = ['P' if 1 <= i[0] <= 78 else i[0] for i in ins]
    num = lambda x: x == 0 or (x != 'P' and 81 <= x <= 96)
    if t == ['P', 'P']:
        return 'p2pkh-in'
    if t == [0x76, 0xa9, 'P', 0x88, 0xac]:
        return 'p2pkh-out'
    if len(t) > 2 and t[0] == 0 and set(t[1:]) == {'P'}:
        return 'p2sh-in'
    if t == [0xa9, 'P', 0x87]:
        return 'p2sh-out'
    if t == [0x6a, 'P']:
        return 'return'
    if len(t) >= 4 and num(t[0]) and num(t[-2]) and t[-1] == 0xae and set(t[1:-2]) == {'P'}:
        return 'multisig'
    return None


BASES = [
    [['push', 71, b'\x30' * 71], ['push', 33, b'\2' * 33]],
    [['op', 0x76], ['op', 0xa9], ['push', 20, b'\7' * 20], ['op', 0x88], ['op', 0xac]],
    [['op', 0], ['push', 71, b'\x30' * 71], ['push', 2, b'\x51\x51']],
    [['op', 0], ['push', 71, b'\x30' * 71], ['push', 71, b'\x30' * 71], ['push', 2, b'\x51\x51']],
    [['op', 0xa9], ['push', 20, b'\7' * 20], ['op', 0x87]],
    [['op', 0x6a], ['push', 3, b'abc']],
    [['op', 82], ['push', 33, b'\2' * 33], ['push', 33, b'\3' * 33], ['op', 82], ['op', 0xae]],
    [['op', 81], ['push', 33, b'\2' * 33], ['op', 81], ['op', 0xae]],
]
near = st.tuples(st.integers(0, len(BASES) - 1), st.sampled_from(['add', 'del', 'op', 'swap', 'push', 'none']), st.integers(0, 9),
                 st.one_of(gen.instr, st.sampled_from([0, 79, 80, 81, 96, 97, 0xae, 0xaf, 0xac, 0x87, 0x88, 0xa9, 0x6a]).map(lambda n: ['op', n]))).map(list)


@check.sub('near-miss', near, quick=5000, thorough=100000,
           fixed=lambda: [[b, 'op', i, ['op', n]] for b in range(len(BASES)) for i in range(len(BASES[b])) for n in gen.PLAIN_OPS]
           + [[b, h, i, ['op', 97]] for b in range(len(BASES)) for h in ('add', 'del', 'swap', 'none') for i in range(6)])
def near_miss(c, k):
    """A script whose opcode structure is no standard one is not taken for one of the standard kinds; a standard one is."""
    b, how, i, x = k
    ins = list(BASES[b])
    i %= len(ins)
    if how == 'add':
        ins.insert(i, x)
    elif how == 'del':
        del ins[i]
    elif how == 'swap' and i + 1 < len(ins):
        ins[i], ins[i + 1] = ins[i + 1], ins[i]
    elif how in ('op', 'push'):
        ins[i] = x
    raw = gen.raw_of(ins)
    want = structure(raw)
    s = bf.Script.from_bytes(raw)
    got = kind_of(s)
    c.eq(s.to_bytes(), raw, 'bytes')
    if want is None:
        c.ok(got is None, 'a script that is not standard is taken for one', got)
    elif how == 'none':
        c.eq(got, want, 'kind of a standard script')
    elif got is not None:
        c.eq(got, want, 'kind of the script')
    strict = len(raw) == 23 and raw[:2] == b'\xa9\x14' and raw[-1] == 0x87
    c.eq(bool(s.is_script_hash_out()), strict, 'is_script_hash_out')
    c.nt('not standard' if want is None else want)


IN_KINDS = {'p2pkh-in': bf.AddressInput, 'p2sh-in': bf.ScriptInput}
OUT_KINDS = {'p2pkh-out': bf.AddressOutput, 'p2sh-out': bf.ScriptOutput, 'return': bf.DataOutput}


@check.sub('containers', st.tuples(st.integers(0, len(BASES)), st.lists(gen.instr, max_size=5), gen.txid, gen.u32, gen.u32, gen.u64).map(list), quick=1500, thorough=20000)
def containers(c, k):
    """An input or output made from a script, classified or not, keeps every field and is of the script's kind"""
    b, ins, txid, index, seq, amount = k
    raw = gen.raw_of(BASES[b] if b < len(BASES) else ins)
    kind = structure(raw)
    parsed = bf.Script.from_bytes(raw)
    for s in (parsed, bf.Script(parsed.instructions)):
        i = bf.Input.create(txid, index, s, seq)
        c.ok((i.tx_id, i.txo_index, i.seq_number) == (txid, index, seq), 'fields of the input', i)
        c.eq(i.script.to_bytes(), raw, 'script of the input')
        o = bf.Output.create(amount, s)
        c.eq(o.amount, amount, 'amount of the output')
        c.eq(o.script.to_bytes(), raw, 'script of the output')
        if b < len(BASES):
            c.ok(type(i) is IN_KINDS.get(kind, bf.Input), 'an input of a %s script is a %s' % (kind, type(i).__name__))
            c.ok(type(o) is OUT_KINDS.get(kind, bf.Output), 'an output of a %s script is a %s' % (kind, type(o).__name__))
            c.eq(kind_of(i.script), kind, 'kind of the script in the input')
            c.eq(kind_of(o.script), kind, 'kind of the script in the output')
    j = bf.Input.create(txid, index, parsed)
    c.eq(j.seq_number, 0xffffffff, 'sequence number of an input made without one')
    c.nt(str(kind))
