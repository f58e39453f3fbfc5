from hypothesis import strategies as st
from ref import enc, secp
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, benc, networks, BitforgeError
from bitforge.tools import Buffer
from ref.tx import ser, ser_in, ser_out
from checks.txgen import txs
from bitforge.script import PayToPubkeyOut

check = Check('C35', 'calls of every constructor and decoder with bad, damaged or arbitrary arguments (texts with braces, quotes, percent signs and any '
              'character; binary of any length; numbers out of range; objects of other kinds); non-trivial: the call is refused')
odd_text = st.one_of(st.text(max_size=12), st.text('{}%\\\'"0: \n', max_size=10), st.sampled_from(
    ['{', '}', '{}', '{0}', '{string}', '{object.name}', '%s', '%', '', '\udc80', '\x00', 'é', '{!r}', '0x', '{{}}', '\\', '\U0001f600']))
raw = st.binary(max_size=40)
num = st.one_of(st.integers(-2 ** 300, 2 ** 300), st.integers(-5, 300), st.sampled_from([-1, 0, 256, 2 ** 256, gen.N, gen.N + 1]))
odd = st.one_of(odd_text, raw, num, st.none(), st.booleans(), st.lists(st.integers(0, 3), max_size=2), st.floats())
B58 = st.one_of(odd_text, raw.map(enc.b58check), st.text(enc.ALPHA, max_size=50))
HEXT = st.one_of(odd_text, raw.map(bytes.hex), raw.map(lambda b: b.hex() + '0'))
A, K, PK, T = bf.Address, bf.PublicKey, bf.PrivateKey, bf.Transaction
IN = bf.Input('11' * 32, 0, bf.Script())
OUT = bf.Output(1, bf.Script())


def toks(t):
    return ' '.join(t)


tokens = st.lists(st.one_of(odd_text.filter(lambda s: ' ' not in s), st.sampled_from(
    ['OP_1', 'OP_PUSHDATA1', 'OP_PUSHDATA2', '1', '0', '76', '2', '0x', '0x00', '0xzz', 'OP_NOPE', 'OP_', '-1', '{}'])), max_size=4).map(toks)

# name: (call, arguments, the class of every refusal)
CALLS = {
    'PrivateKey': (lambda n: PK(n), num, PK.Error),
    'PrivateKey network': (lambda n: PK(5, n), odd, PK.Error),
    'PrivateKey.from_wif': (PK.from_wif, B58, PK.Error),
    'PrivateKey.from_hex': (PK.from_hex, HEXT, PK.Error),
    'PrivateKey.from_bytes': (PK.from_bytes, raw, PK.Error),
    'PublicKey': (lambda p: K(p), st.tuples(st.integers(0, 2 ** 257), st.integers(0, 2 ** 257)), K.Error),
    'PublicKey network': (lambda n: K(secp.G, n), odd, K.Error),
    'PublicKey.from_bytes': (K.from_bytes, st.one_of(raw, st.binary(min_size=33, max_size=33), st.binary(max_size=66)), K.Error),
    'PublicKey.from_hex': (K.from_hex, HEXT, K.Error),
    'Address': (lambda h: A(h), raw, A.Error),
    'Address network': (lambda n: A(bytes(20), n), odd, A.Error),
    'Address type': (lambda n: A(bytes(20), NET['livenet'], n), odd, A.Error),
    'Address.from_string': (A.from_string, B58, A.Error),
    'Address.from_hex': (A.from_hex, HEXT, A.Error),
    'Address.from_bytes': (A.from_bytes, raw, A.Error),
    'Script.from_bytes': (bf.Script.from_bytes, raw, BitforgeError),
    'Script.from_string': (bf.Script.from_string, tokens, BitforgeError),
    'Opcode': (bf.Opcode, num, bf.Opcode.Error),
    'Opcode.from_name': (bf.Opcode.from_name, st.one_of(odd_text, odd_text.map(lambda t: 'OP_' + t)), bf.Opcode.Error),
    'Opcode.push_for': (bf.Opcode.push_for, num, bf.Opcode.Error),
    'Opcode.const_push_for': (bf.Opcode.const_push_for, num, bf.Opcode.Error),
    'Opcode.var_push_for': (bf.Opcode.var_push_for, num, bf.Opcode.Error),
    'Opcode.data_length_nbytes': (lambda n: bf.Opcode.data_length_nbytes(bf.Opcode(n)), st.integers(0, 255), bf.Opcode.Error),
    'Opcode.number_value': (lambda n: bf.Opcode(n).number_value(), st.integers(0, 255), bf.Opcode.Error),
    'Instruction': (lambda t: bf.Instruction(bf.Opcode(t[0]), t[1]), st.tuples(st.integers(0, 255), raw), bf.Instruction.Error),
    'Instruction opcode': (lambda o: bf.Instruction(o), odd, bf.Instruction.Error),
    'Instruction.push_for': (bf.Instruction.push_for, st.just(b''), BitforgeError),
    'script address as key': (lambda h: PayToPubkeyOut.create(A(h, NET['livenet'], A.Type.Script)), gen.h20, BitforgeError),
    'Transaction.from_bytes': (T.from_bytes, raw, BitforgeError),
    'Transaction.from_hex': (T.from_hex, HEXT, BitforgeError),
    'Transaction inputs': (lambda o: T([o], [OUT]), odd, T.Error),
    'Transaction outputs': (lambda o: T([IN], [o]), odd, T.Error),
    'Transaction lock time': (lambda n: T([IN], [OUT], n), num, T.Error),
    'Transaction none': (lambda n: T([IN][:n], [OUT][n:]), st.integers(0, 1), T.Error),
    'Input.from_bytes': (bf.Input.from_bytes, raw, BitforgeError),
    'Input.from_hex': (bf.Input.from_hex, HEXT, BitforgeError),
    'Input.sign': (lambda n: IN.sign([PK(5)] * n, bytes(32)), st.integers(0, 2), bf.Input.Error),
    'AddressInput.sign': (lambda n: bf.AddressInput.create('11' * 32, 0, A(bytes(20))).sign([PK(5)] * (n + 1 if n else 0), bytes(32)), st.integers(0, 3), bf.Input.Error),
    'Output.from_bytes': (bf.Output.from_bytes, raw, BitforgeError),
    'Output.from_hex': (bf.Output.from_hex, HEXT, BitforgeError),
    'Output.to_bytes': (lambda n: bf.Output(n, bf.Script()).to_bytes(), num, BitforgeError),
    'DataOutput': (lambda n: bf.DataOutput.create(bytes(n)), st.integers(1, 300), bf.Output.Error),
    'Buffer.read': (lambda t: Buffer(t[0]).read(t[1]), st.tuples(raw, st.integers(0, 60)), Buffer.Error),
    'Buffer.read_varint': (lambda b: Buffer(b).read_varint(), raw, Buffer.Error),
    'decode_base58h': (benc.decode_base58h, B58, benc.InvalidBase58h),
    'decode_hex': (benc.decode_hex, HEXT, benc.InvalidHex),
    'encode_int': (lambda t: benc.encode_int(t[0], length=t[1]), st.tuples(num, st.one_of(st.none(), st.integers(0, 9))), BitforgeError),
    'encode_varint': (benc.encode_varint, num, BitforgeError),
    'decode_script_number': (lambda t: benc.decode_script_number(t[0], t[1]), st.tuples(st.binary(max_size=7), st.booleans()), benc.EncodingError),
    'networks.find': (networks.find, st.one_of(odd_text, raw, num), networks.UnknownNetwork),
    'networks.find attribute': (lambda t: networks.find(t[0], t[1]), st.tuples(odd, st.sampled_from(['name', 'port', 'pubkeyhash', 'nope', '{}', 'magic'])), networks.UnknownNetwork),
}


def encodes(text):
    try:
        text.encode('utf-8')
    except UnicodeError:
        return False
    return True


def refusal(c, name, arg):
    fn, _, kind = CALLS[name]
    try:
        fn(arg)
    except kind as e:
        c.nt(name)
        for what, text in (('str', str(e)), ('message', e.message), ('repr', repr(e))):
            c.ok(isinstance(text, str) and len(text.strip()) > 3, '%s: the %s of the error says nothing' % (name, what), text)
            c.ok(encodes(text), '%s: the %s of the error cannot be printed' % (name, what), text)
        c.eq(str(e), e.message, name + ': text and message of the error')
    except Exception as e:
        c.fail('%s(%r) is refused with %s (%s) instead of %s' % (name, arg, type(e).__name__, e, kind.__qualname__))


def one(name):
    return CALLS[name][1].map(lambda a: [name, list(a) if isinstance(a, tuple) else a])


@check.sub('refusals', st.sampled_from(sorted(CALLS)).flatmap(one), quick=9000, thorough=200000)
def refusals(c, k):
    name, arg = k
    if name == 'PublicKey':
        arg = tuple(arg)
    refusal(c, name, arg)


FIXED = {'PrivateKey': [0, -1, gen.N], 'PrivateKey.from_wif': ['', '1', '{}', '{string}', enc.b58check(b'\x80' + bytes(31)), enc.b58check(b'\x80' + b'\2' * 33), enc.b58check(b'\x81' + b'\1' * 32), '\udc80'],
         'Address.from_string': ['', '{}', enc.b58check(b'\1' * 21), enc.b58check(b'\1' * 20)], 'Script.from_string': ['OP_PUSHDATA1', 'OP_PUSHDATA1 {} 0x00', '1 {}', '{}', '1 0x0000', '99 0x00', '¹', 'OP_PUSHDATA1 ¹ 0x00', '1 0x¹'],
         'Opcode.number_value': [97, 255, 1, 76], 'Opcode.data_length_nbytes': [0, 1, 97, 200], 'Instruction': [[1, b''], [97, b'a'], [200, b'a'], [75, b'a']],
         'Instruction opcode': [5, '{}', None], 'Transaction inputs': ['{}', None], 'Transaction outputs': ['{}', None], 'Transaction none': [0, 1], 'Input.sign': [0, 1],
         'AddressInput.sign': [0, 1, 2], 'Buffer.read': [[b'', 1]], 'DataOutput': [81, 256], 'encode_int': [[-1, None], [256, 1]], 'networks.find': ['', 'mainnet', 5],
         'networks.find attribute': [[5, 'nope']], 'PublicKey.from_bytes': [b'', b'\2' + bytes(31) + b'\5', b'\5' * 33, b'\4' * 65], 'PublicKey network': ['x', None, 5], 'Address type': ['pubkeyhash', None],
         'PublicKey': [[1, 1]], 'script address as key': [bytes(20)]}


@check.sub('each', None, fixed=lambda: [[n, a] for n in sorted(FIXED) for a in FIXED[n]])
def each(c, k):
    refusals(c, k)
    c.ok(c.nontrivial, '%s(%r) is accepted' % tuple(k))


def huge():
    for n in (254, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
        v = enc.varint(n)
        yield ['Buffer.read', [b'abc', n]]
        yield ['Buffer.read', [b'', n]]
        yield ['Input.from_bytes', bytes(36) + v + b'x']
        yield ['Input.from_hex', (bytes(36) + v + b'x').hex()]
        yield ['Output.from_bytes', bytes(8) + v + b'x']
        yield ['Output.from_hex', (bytes(8) + v + b'x').hex()]
        yield ['Transaction.from_bytes', b'\1\0\0\0' + v + bytes(50)]
        yield ['Transaction.from_bytes', b'\1\0\0\0\1' + bytes(36) + v + bytes(50)]
        yield ['Transaction.from_bytes', b'\1\0\0\0\1' + bytes(41) + v + bytes(50)]
        yield ['Transaction.from_hex', (b'\1\0\0\0\1' + bytes(41) + b'\1' + bytes(8) + v + bytes(50)).hex()]
        if n < 2 ** 32:
            yield ['Script.from_bytes', b'\x4e' + n.to_bytes(4, 'little') + b'x']


@check.sub('huge', None, fixed=lambda: list(huge()))
def huge_(c, k):
    """Lengths and counts far beyond the data"""
    each(c, k)


@check.sub('damaged', st.tuples(txs(3, 3), st.sampled_from(['tx', 'in', 'out', 'script']), st.booleans(), st.lists(st.tuples(st.sampled_from(['cut', 'set', 'drop', 'add', 'grow']), st.integers(0, 400), st.integers(0, 255)).map(list), min_size=1, max_size=3)).map(list),
           quick=1500, thorough=40000)
def damaged(c, k):
    """Serialized transactions and their parts, cut short or damaged: read, or refused by a library error"""
    t, part, as_hex, steps = k
    raw = bytearray({'tx': lambda: ser(t), 'in': lambda: ser_in(t['inputs'][0]), 'out': lambda: ser_out(t['outputs'][0]), 'script': lambda: t['outputs'][0]['script']}[part]())
    for what, at, v in steps:
        i = at % (len(raw) + 1)
        if what == 'cut':
            del raw[i:]
        elif what == 'set' and i < len(raw):
            raw[i] = v
        elif what == 'drop':
            del raw[i:i + 1 + v % 9]
        elif what == 'add':
            raw[i:i] = bytes([v]) * (v % 9 + 1)
        elif what == 'grow' and i < len(raw):
            raw[i:i + 1] = bytes([255]) + bytes([v]) * 8
    name = {'tx': 'Transaction', 'in': 'Input', 'out': 'Output', 'script': 'Script'}[part]
    as_hex = as_hex and part != 'script'
    refusal(c, name + ('.from_hex' if as_hex else '.from_bytes'), raw.hex() if as_hex else bytes(raw))


# texts and data of any length are refused alike: {name: made from a length}
LONG = {'PrivateKey.from_bytes': lambda n: gen.filler(n, 1), 'PrivateKey.from_hex': lambda n: gen.filler(n, 1).hex(), 'PrivateKey.from_wif': lambda n: '2' * n,
        'PublicKey.from_bytes': lambda n: gen.filler(n, 1), 'PublicKey.from_hex': lambda n: gen.filler(n, 1).hex(), 'Address': lambda n: gen.filler(n, 1), 'Address.from_bytes': lambda n: gen.filler(n, 1),
        'Address.from_hex': lambda n: gen.filler(n, 1).hex() + 'x', 'Address.from_string': lambda n: '2' * n, 'Script.from_string': lambda n: 'OP_' + 'X' * n, 'Opcode.from_name': lambda n: 'OP_' + '{' * n,
        'Opcode': lambda n: 10 ** n, 'PrivateKey': lambda n: -10 ** n, 'Instruction': lambda n: [97, gen.filler(n, 1)], 'Transaction.from_hex': lambda n: 'zz' * n, 'Transaction lock time': lambda n: 10 ** (n + 10),
        'Transaction inputs': lambda n: 'é' * n, 'Transaction outputs': lambda n: [0] * n, 'decode_base58h': lambda n: '\U0001f600' * n, 'decode_hex': lambda n: '{}' * n, 'networks.find': lambda n: 'livenet' * n,
        'decode_script_number': lambda n: [gen.filler(n + 5, 1), False], 'Opcode.push_for': lambda n: 10 ** (n + 9), 'DataOutput': lambda n: n + 81, 'encode_int': lambda n: [10 ** (n + 9), 2], 'PrivateKey network': lambda n: 'x' * n,
        'Buffer.read': lambda n: [gen.filler(n, 1), n + 1], 'Address type': lambda n: 'x' * n, 'PublicKey': lambda n: [10 ** n, 10 ** n]}


@check.sub('long', None, fixed=lambda: [[name, n] for name in sorted(LONG) for n in (66, 99, 127, 128, 199, 200, 201, 255, 256, 300, 999, 1000, 1001, 4000)])
def long_(c, k):
    name, n = k
    refusals(c, [name, LONG[name](n)])
    c.ok(c.nontrivial, '%s is accepted with an argument of length %d' % (name, n))


def facts_of():
    """name: (call that is refused, argument, the facts its error gives)"""
    buf = lambda t: Buffer(bytes(t[0])).read(t[0] + 1 + t[1])
    keys = lambda n: bf.AddressInput.create('11' * 32, 0, PK(3).to_address()).sign([PK(3 + i) for i in range(n)], bytes(32))
    small = st.integers(0, 300)
    return {
        'read beyond the end': (buf, st.tuples(small, small).map(list), lambda t: {'remaining': t[0], 'requested': t[0] + 1 + t[1]}),
        'signing with the wrong number of keys': (keys, st.integers(0, 4).filter(lambda n: n != 1), lambda n: {'required': 1, 'provided': n}),
        'a direct push of another length': (lambda t: bf.Instruction(bf.Opcode(t[0]), bytes(t[1])), st.tuples(st.integers(1, 75), small).map(list).filter(lambda t: t[0] != t[1]),
                                            lambda t: {'opcode': bf.Opcode(t[0]), 'data_length': t[1], 'data_length_max': t[0]}),
        'a short push of much data': (lambda n: bf.Instruction(bf.Opcode(76), bytes(n)), st.integers(256, 900), lambda n: {'opcode': bf.Opcode(76), 'data_length': n, 'data_length_max': 255}),
        'a secret out of range': (PK, st.one_of(st.integers(-9, 0), st.integers(gen.N, 2 ** 257)), lambda n: {'number': n}),
        'a lock time out of range': (lambda n: T([IN], [OUT], n), st.one_of(st.integers(-9, -1), st.integers(2 ** 32, 2 ** 40)), lambda n: {'number': n}),
        'too much data': (lambda n: bf.DataOutput.create(bytes(n)), st.integers(81, 400), lambda n: {'number': n}),
        'a secret of the wrong length': (PK.from_bytes, raw.filter(lambda b: len(b) != 32), lambda b: {'length': len(b)}),
        'a hash of the wrong length': (A, raw.filter(lambda b: len(b) != 20), lambda b: {'length': len(b)}),
        'an address of the wrong length': (A.from_bytes, raw.filter(lambda b: len(b) != 21), lambda b: {'length': len(b)}),
        'an address of no known version': (lambda n: A.from_bytes(bytes([n]) + bytes(20)), st.integers(0, 255).filter(lambda n: n not in (0, 5, 111, 196)), lambda n: {'number': n}),
        'an opcode out of range': (bf.Opcode, st.one_of(st.integers(-9, -1), st.integers(256, 999)), lambda n: {'number': n}),
        'a network there is not': (lambda s: PK(5, s), st.text('abcdefg', min_size=1, max_size=8), lambda s: {'key': 'name', 'value': s}),
        'a push of the wrong size': (lambda t: bf.Script.from_string('OP_PUSHDATA1 %d 0x%s' % (t[0], '07' * t[1])), st.tuples(st.integers(0, 200), st.integers(1, 200)).map(list).filter(lambda t: t[0] != t[1]),
                                     lambda t: {'number': t[1]}),
    }


FACTS = facts_of()


@check.sub('facts', st.sampled_from(sorted(FACTS)).flatmap(lambda n: st.tuples(st.just(n), FACTS[n][1])).map(list), quick=600, thorough=10000,
           fixed=lambda: [['read beyond the end', [0, 0]], ['read beyond the end', [5, 2]], ['signing with the wrong number of keys', 0], ['signing with the wrong number of keys', 2]])
def facts(c, k):
    """The counts and values an error gives are the true ones, and its text has those it speaks of"""
    name, arg = k
    fn, _, want = FACTS[name]
    try:
        fn(arg)
    except BitforgeError as e:
        err = e
    else:
        c.ok(False, '%s was not refused' % name, arg)
    for f, v in want(arg).items():
        c.ok(getattr(err, f, v) == v, '%s: %s' % (name, f), getattr(err, f, None), v)
        if isinstance(v, int) and '{%s}' % f in (type(err).__doc__ or ''):
            c.ok(str(v) in str(err), '%s: the text lacks %s' % (name, f), str(err))
    c.nt(name)
