"""Shared generators. Every strategy yields JSON-able data (ints, text, bytes, lists, dicts)."""
import json
import os

from hypothesis import strategies as st

from ref import secp, enc, script as S
from . import core, mine

SPECIAL = json.load(open(os.path.join(core.ROOT, 'data', 'special_secrets.json')))
N, P = secp.N, secp.P


def edge_secrets():
    out = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, (N + 1) // 2 + 1, 0xff, 0x100, 0x7f, 0x80, 0x10000]
    out += [1 << (8 * i) for i in range(1, 32)]
    out += [(1 << (8 * i)) - 1 for i in range(1, 32)]
    out += [1 << 255, (1 << 255) - 1, (1 << 255) + 1, N - (1 << 128), N & ~0xffffffff, 2 ** 128, P - N]
    for v in SPECIAL.values():
        out += v
    # secrets whose last or first bytes look like the markers and padding of their encodings
    for tail in (0x01, 0x0101, 0x010101, 0x00, 0x0100, 0x0000, 0x0001, 0x80, 0x8001, 0x20, 0x0a, 0x31, 0xef01):
        out += [(N // 3 >> 32 << 32) | tail, (2 ** 255 >> 32 << 32) + tail, (7 ** 60 >> 24 << 24) | tail]
    out += [int('80' * 32, 16), int('01' * 32, 16), int('ef' * 32, 16), int('20' * 32, 16), int('30' * 32, 16), int('80' + '01' * 31, 16), int('0180' * 16, 16), int('ef80' + '01' * 30, 16)]
    return sorted(set(x for x in out if 0 < x < N))


EDGE_SECRETS = edge_secrets()


def mined(lo, hi, *others):
    """the given strategies, and the numbers of the library's source in the range (new ones first: see mine.py)"""
    new, every = mine.ints(lo, hi)
    return st.one_of(*others, *([st.sampled_from(new)] if new else []), *([st.sampled_from(every)] if every else []))


def fresh(lo, hi, limit=16):
    """numbers of the source in the range which are new, for fixed cases (none on the unchanged tree)"""
    v = mine.ints(lo, hi)[0]
    return v if len(v) <= limit else v[::len(v) // limit + 1]


def touched(data):
    """the same byte strings, some with a byte string of the source put over their start, end or somewhere"""
    if not mine.FRESH_BYTES:
        return data

    def put(t):
        d, b, how = t
        if len(b) > len(d):
            return d
        i = len(d) - len(b) if how == 100 else how % (len(d) - len(b) + 1)
        return d[:i] + b + d[i + len(b):]
    return st.one_of(data, data, st.tuples(data, st.sampled_from(mine.FRESH_BYTES), mined(0, 99, st.sampled_from([0, 100]), st.integers(0, 99))).map(put))


def byte_len_int(lo, hi):
    """integers spread over byte lengths rather than over values"""
    return st.integers(lo, hi).flatmap(lambda n: st.integers(1 << (8 * (n - 1)) if n > 1 else 1, (1 << (8 * n)) - 1))


def shaped(n):
    """n bytes of some shape: one byte throughout, two alternating, a run, a palindrome, equal halves, text of an alphabet, zeros or ones at the ends or within"""
    one = st.integers(0, 255)

    def make(t):
        how, a, b, r = t
        if not n:
            return b''
        base = (r * (n // max(1, len(r)) + 1))[:n]
        half = base[:(n + 1) // 2]
        alpha = {'digits': b'0123456789', 'hex': b'0123456789abcdef', 'HEX': b'0123456789ABCDEF', 'b58': enc.ALPHA.encode(), 'letters': b'abcdefghijklmnopqrstuvwxyz', 'space': b' \t\n\r\x0b\x0c', 'high': bytes(range(128, 256)), 'low': bytes(range(128))}
        if how in alpha:
            return bytes(alpha[how][x % len(alpha[how])] for x in (x + i * b for i, x in enumerate(base)))
        return {'same': bytes([a]) * n, 'two': bytes(a if i % 2 else b for i in range(n)), 'up': bytes((a + i) & 255 for i in range(n)), 'down': bytes((a - i) & 255 for i in range(n)), 'mirror': half + half[:n // 2][::-1],
                'halves': (half[:n // 2] * 2 + bytes([a]))[:n], 'sorted': bytes(sorted(base)), 'ends': bytes([a]) + base[1:-1] + bytes([a]) if n > 1 else bytes([a]), 'zero head': bytes(min(b % 8, n)) + base[min(b % 8, n):],
                'zero tail': base[:n - min(b % 8, n)] + bytes(min(b % 8, n)), 'one head': b'\xff' * min(b % 8, n) + base[min(b % 8, n):], 'hole': base[:n // 2] + bytes(n - n // 2 - n // 4) + base[n - n // 4:] if n > 3 else bytes(n), 'bit': (1 << (a * 256 + b) % (8 * n)).to_bytes(n, 'big') if n else b''}[how]
    return st.tuples(st.sampled_from(['same', 'two', 'up', 'down', 'mirror', 'halves', 'sorted', 'ends', 'zero head', 'zero tail', 'one head', 'hole', 'bit', 'digits', 'hex', 'HEX', 'b58', 'letters', 'space', 'high', 'low']),
                     one, one, st.binary(min_size=1, max_size=24)).map(make)


secret = st.one_of(
    st.integers(1, N - 1),
    shaped(32).map(lambda b: int.from_bytes(b, 'big') % (N - 1) or 1),
    st.sampled_from(EDGE_SECRETS),
    byte_len_int(1, 31),
    st.integers(0, 40).map(lambda d: N - 1 - d),
    st.binary(min_size=32, max_size=32).map(lambda b: int.from_bytes(b, 'big') % (N - 1) + 1),
)
secret = st.one_of(secret, secret, secret, st.tuples(secret, st.integers(0, 4), st.sampled_from([b'\1', b'\0', b'\x80', b'\1\1', b' ', b'\0\1', b'\1\0', b'\xef', b'\xff'])).map(
    lambda t: ((t[0] >> 8 * len(t[2] * t[1]) << 8 * len(t[2] * t[1])) | int.from_bytes(t[2] * t[1], 'big')) % (N - 1) or 1))
secret = mined(1, N - 1, secret, secret, secret, secret, secret, secret, secret, secret, touched(secret.map(lambda s: s.to_bytes(32, 'big'))).map(lambda b: int.from_bytes(b, 'big') % (N - 1) or 1))
if mine.FRESH_INTS:
    secret = st.one_of(secret, secret, secret, st.tuples(st.sampled_from(mine.FRESH_INTS), st.integers(0, 2 ** 256)).map(     # of that many bits, or that far from the end
        lambda t: (t[1] % (1 << t[0]) | 1 << t[0] - 1 if 1 <= t[0] <= 256 and t[1] & 1 else N - t[0]) % (N - 1) or 1))
net = st.sampled_from(['livenet', 'testnet'])
h20 = st.one_of(
    st.binary(min_size=20, max_size=20),
    st.integers(1, 20).flatmap(lambda z: st.binary(min_size=20 - z, max_size=20 - z).map(lambda b: b'\0' * z + b)),
    st.sampled_from([b'\0' * 20, b'\xff' * 20, b'\0' * 19 + b'\1', b'\1' + b'\0' * 19, b' ' * 20, b'0' * 20,
                     b'\x80' + b'\0' * 18 + b'\x80']),
)
h20 = touched(st.one_of(h20, h20, shaped(20)))
u32 = mined(0, 0xffffffff, st.integers(0, 0xffffffff), st.sampled_from(
    [0, 1, 2, 252, 253, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff,
     499999999, 500000000, 500000001, 0x00ffffff, 0x01000000, 0xff, 0xff00]))
u64 = mined(
    0, 2 ** 64 - 1,
    st.integers(0, 2 ** 64 - 1), st.integers(0, 21 * 10 ** 14), byte_len_int(1, 8),
    st.sampled_from([0, 1, 252, 253, 254, 255, 256, 0xffff, 0x10000, 0xffffffff, 0x100000000, 2 ** 53 - 1, 2 ** 53,
                     2 ** 53 + 1, 2 ** 56 - 1, 2 ** 56, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 21 * 10 ** 14,
                     5000000000, 100000000, 99999999, 2 ** 40, 2 ** 31, 2 ** 31 - 1, 2 ** 48]))
txid = st.one_of(
    st.binary(min_size=32, max_size=32).map(bytes.hex),
    st.sampled_from(['00' * 32, 'ff' * 32, '00' * 31 + '01', '01' + '00' * 31, '0' + 'a' * 63, 'f' * 63 + '0',
                     '4baa7551933fbf26158a619c3084ccdd5c0d81930b3e74a85a33ad26d13f1a55']),
    st.integers(1, 31).flatmap(lambda z: st.binary(min_size=32 - z, max_size=32 - z).map(
        lambda b: (b'\0' * z + b).hex())),
    st.integers(1, 31).flatmap(lambda z: st.binary(min_size=32 - z, max_size=32 - z).map(
        lambda b: (b + b'\0' * z).hex())),
)
txid = touched(st.one_of(txid, txid, shaped(32).map(bytes.hex)).map(bytes.fromhex)).map(bytes.hex)

# any text at all, characters included that have no encoding or look like digits and letters of an alphabet
WEIRD = ['\ud800', '\udfff', '\0', '\u0661', '\uff11', '\uff21', '\u00b2', '\u2160', '\u212a', '\u017f', '\u0131', '\ufeff', '\u200b', '\xa0', '\U0001d7d8', '\r', '\x0b', '\x85', '\u2028', '\xff', '\x80']


def weird(good):
    """texts of `good` with one such character put in, in place of another, before, after, or alone"""
    def put(t):
        s, ch, i, how = t
        i = i % (len(s) + 1)
        return {'in': s[:i] + ch + s[i:], 'for': s[:i] + ch + s[i + 1:], 'alone': ch, 'after': s + ch, 'before': ch + s}[how]
    return st.tuples(good, st.one_of(st.sampled_from(WEIRD), st.characters()), st.integers(0, 200), st.sampled_from(['in', 'for', 'alone', 'after', 'before'])).map(put)


# ------------------------------------------------------------------ scripts

EDGE_LENS = [1, 2, 3, 4, 5, 16, 19, 20, 21, 32, 33, 64, 65, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 100, 127,
             128, 252, 253, 254, 255, 256, 257, 300, 519, 520, 521]
HUGE_LENS = [1000, 4096, 65534, 65535, 65536, 65537, 70000]


def filler(n, seed):
    """n deterministic bytes from a small seed (keeps big cases small in the replay file)"""
    if n == 0:
        return b''
    blk = enc.sha256(b'%d/%d' % (n, seed))
    return (blk * (n // 32 + 1))[:n]


small_data = st.one_of(
    st.binary(min_size=1, max_size=6),
    st.sampled_from([b'\0', b'\1', b'\x10', b'\x11', b'\x80', b'\x81', b'\x7f', b'\xff', b'\0\0', b'\0\x80', b'\0\1',
                     b'\1\0', b'\xff\0', b'\xff\x80', b'\x80\x80', b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff',
                     b'\0\0\0\x80', b'\0\0\0\x80\0', b'\xff\xff\xff\xff\0', b'\xff\xff\xff\xff\x7f', b'\x4c', b'\x61',
                     b'0', b'1', b' ']),
    st.binary(min_size=1, max_size=90),
)
def p2pkh_raw(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh_raw(h):
    return b'\xa9\x14' + h + b'\x87'


# data that is an encoding of something else
ENCODED = [b'\2' + b'\x79\xbe\x66\x7e' * 8, secp.sec(secp.G), secp.sec(secp.G, False), p2pkh_raw(bytes(20)), p2sh_raw(b'\1' * 20), b'\x6a\4abcd', b'\x51\x21' + secp.sec(secp.G) + b'\x51\xae', secp.der_sig(5, 7) + b'\1',
           secp.der_sig(N - 1, N // 2) + b'\1', b'1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH', b'OP_DUP', b'0x00', b'deadbeef', b'bitcoin', bytes(32), b'\4' + bytes(64), b'\x30\6\2\1\1\2\1\1\1', b'\x14' + bytes(20), b'\x4c\x01a', b'\x4d', b'\x4e']
small_data = touched(st.one_of(small_data, small_data, small_data, small_data, st.integers(1, 90).flatmap(shaped), st.sampled_from(ENCODED), st.sampled_from([b for b in mine.EVERY_BYTES if len(b) <= 80]), *(
    [st.sampled_from([b for b in mine.FRESH_BYTES if len(b) <= 80])] if mine.FRESH_BYTES else [])))


def data_of_len(lens):
    some = st.sampled_from(lens)
    return touched(st.tuples(mined(min(lens), max(lens), some, some, some), st.integers(0, 3)).map(lambda t: filler(*t)))


push_data = st.one_of(small_data, small_data, data_of_len(EDGE_LENS), st.sampled_from(EDGE_LENS).flatmap(shaped), st.binary(min_size=20, max_size=20),
                      st.binary(min_size=33, max_size=33))

# an instruction as data: ['op', n] or ['push', opcode, bytes]
PLAIN_OPS = [0] + list(range(79, 256))
NAMED_OPS = [n for n in S.NAMED if not 1 <= n <= 78]


def fits(op, n):
    return {76: 0xff, 77: 0xffff, 78: 0xffffffff}.get(op, -1) >= n


def any_push(data):
    """a push of `data` with any opcode able to carry it"""
    def ops(d):
        r = []
        if 1 <= len(d) <= 75:
            r += [len(d)] * 3
        r += [o for o in (76, 77, 78) if fits(o, len(d))]
        return r
    return data.flatmap(lambda d: st.sampled_from(ops(d)).map(lambda o: ['push', o, d]))


empty_push = st.sampled_from([76, 77, 78]).map(lambda o: ['push', o, b''])
instr = st.one_of(
    any_push(push_data), any_push(push_data),
    any_push(small_data), any_push(small_data), empty_push,
    st.sampled_from(PLAIN_OPS).map(lambda n: ['op', n]), st.sampled_from(PLAIN_OPS).map(lambda n: ['op', n]),
    st.sampled_from(NAMED_OPS).map(lambda n: ['op', n]), st.sampled_from(NAMED_OPS).map(lambda n: ['op', n]),
)
named_instr = st.one_of(
    any_push(push_data), any_push(push_data), any_push(push_data), empty_push,
    st.sampled_from(NAMED_OPS).map(lambda n: ['op', n]), st.sampled_from(NAMED_OPS).map(lambda n: ['op', n]),
)
_one = st.one_of(any_push(push_data), any_push(small_data), empty_push)
_few = st.one_of(st.lists(any_push(small_data), min_size=1, max_size=6), st.lists(any_push(small_data), min_size=15, max_size=40))
_small = st.sampled_from([0, 0x51, 0x52, 0x53, 0x5f, 0x60]).map(lambda n: ['op', n])


def _ops(*ns):
    return [['op', n] for n in ns]


# instruction lists of the structure of the standard scripts, of any size
template = st.one_of(
    st.tuples(_one, _one).map(list), _one.map(lambda p: _ops(0x76, 0xa9) + [p] + _ops(0x88, 0xac)), _one.map(lambda p: _ops(0xa9) + [p] + _ops(0x87)), _one.map(lambda p: _ops(0x6a) + [p]),
    _few.map(lambda l: _ops(0) + l), st.tuples(_small, _few, _small).map(lambda t: [t[0]] + t[1] + [t[2]] + _ops(0xae)))
huge_instr = any_push(data_of_len(HUGE_LENS))


def raw_of(ins):
    return b''.join(bytes([i[1]]) if i[0] == 'op' else S.push_with(i[1], i[2]) for i in ins)


pubkey33 = secret.map(lambda s: secp.sec(secp.mul_g(s)))
script_raw = st.one_of(
    st.lists(instr, max_size=8).map(raw_of),
    st.just(b''),
    h20.map(p2pkh_raw), h20.map(p2sh_raw),
    st.binary(min_size=1, max_size=80).map(lambda d: b'\x6a' + S.push(d)),
)


def lib_script(bf, ins):
    """The library's Script for a list of instruction data, built from its public constructors."""
    return bf.Script([bf.Instruction(bf.Opcode(i[1])) if i[0] == 'op' else bf.Instruction(bf.Opcode(i[1]), i[2])
                      for i in ins])
