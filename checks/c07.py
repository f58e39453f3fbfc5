from hypothesis import strategies as st
from ref import enc
from vp import gen
from vp.core import Check
from vp.lib import benc, UEnc, BitforgeError
from checks.c02 import mutation, mutate, LOOKS

check = Check('C07', 'binary strings (empty, zero runs, any length to 300) and texts (alphabet, damaged, arbitrary); '
              'non-trivial: data with a leading zero byte, or text that is one edit from valid, or valid')

data = st.one_of(
    st.binary(max_size=100), st.binary(min_size=1, max_size=300),
    st.tuples(st.integers(0, 40), st.binary(max_size=40)).map(lambda t: b'\0' * t[0] + t[1]),
    st.tuples(st.integers(1, 120), st.integers(60, 300), st.integers(0, 9)).map(lambda t: b'\0' * t[0] + gen.filler(t[1], t[2])),
    st.tuples(st.binary(max_size=20), st.integers(0, 40)).map(lambda t: t[0] + b'\0' * t[1]),
    st.integers(0, 2 ** 64).map(lambda v: v.to_bytes(9, 'big')),
)


def sweep():
    yield b''
    for n in range(1, 80):
        yield b'\0' * n
        yield b'\xff' * n
        yield b'\0' * (n - 1) + b'\1'
        yield b'\1' + b'\0' * (n - 1)
    for k in range(1, 12):                       # powers of 58, where the number of digits changes
        for d in (-1, 0, 1):
            v = 58 ** k + d
            yield v.to_bytes((v.bit_length() + 7) // 8, 'big')
    for v in range(256):
        yield bytes([v])


@check.sub('encode', data, quick=5000, thorough=150000, fixed=sweep)
def encode(c, b):
    t = enc.b58check(b)
    c.eq(benc.encode_base58h(b), t, 'encode_base58h')
    c.eq(benc.decode_base58h(t), b, 'decode_base58h')
    c.eq(UEnc.b2a_base58(b), enc.b58(b), 'base58 without checksum')
    c.eq(UEnc.a2b_base58(enc.b58(b)), b, 'base58 without checksum, decoded')
    c.eq(UEnc.is_hashed_base58_valid(t), True, 'is_hashed_base58_valid')
    if b[:1] == b'\0':
        c.nt('zero run')
    elif len(b) > 40:
        c.nt('long')


def judge(c, t):
    want = enc.b58check_dec(t)
    if want is None:
        c.rejects('decode_base58h(%r)' % t, lambda: benc.decode_base58h(t), benc.InvalidBase58h)
        c.label('rejected')
    else:
        c.eq(benc.decode_base58h(t), want, 'decode_base58h')
        c.label('accepted')
    return want


@check.sub('damaged', st.tuples(data, st.lists(mutation, min_size=1, max_size=3)).map(list), quick=4000, thorough=100000)
def damaged(c, t):
    s = enc.b58check(t[0])
    for m in t[1]:
        s = mutate(s, m)
        if not s:
            break
    w = judge(c, s)
    c.eq(UEnc.is_hashed_base58_valid(s), w is not None, 'is_hashed_base58_valid')
    c.nt(t[1][0][0])


@check.sub('bitflip', st.tuples(data, st.integers(0, 10 ** 6)).map(list), quick=3000, thorough=60000)
def bitflip(c, t):
    """One flipped bit anywhere in payload or checksum is never accepted."""
    raw = bytearray(t[0] + enc.dsha(t[0])[:4])
    i = t[1] % (8 * len(raw))
    raw[i // 8] ^= 1 << (i % 8)
    s = enc.b58(bytes(raw))
    c.rejects('decode_base58h(%r)' % s, lambda: benc.decode_base58h(s), benc.InvalidBase58h)
    c.nt('payload' if i // 8 < len(t[0]) else 'checksum')


NIL = enc.dsha(b'')[:4]
SHORT = ['', *enc.ALPHA, *[a + b for a in enc.ALPHA for b in enc.ALPHA]] + [enc.b58(NIL[a:b]) for a in range(5) for b in range(a, 5)]


@check.sub('text', st.one_of(st.text(max_size=40), st.text(alphabet=enc.ALPHA, max_size=40),
                             st.text(alphabet=enc.ALPHA, max_size=8), st.text(alphabet='1z2', max_size=20)),
           quick=4000, thorough=60000, fixed=lambda: ['', '1', '11', '111', '1111', '0', 'O', 'I', 'l', ' ', 'é', '\ud800',
                                                      '3QJmnh', '13QJmnh', '3QJmnh ', ' 3QJmnh', '３QJmnh'] + SHORT)
def text(c, s):
    judge(c, s)
    ok = all(ch in enc.ALPHA for ch in s)
    if ok:
        b = UEnc.a2b_base58(s)
        c.eq(b, enc.b58dec(s), 'base58 without checksum')
        c.eq(UEnc.b2a_base58(b), s, 'base58 text read and written again')
        c.nt('alphabet')
    elif s.isascii():
        c.rejects('a2b_base58(%r)' % s, lambda: UEnc.a2b_base58(s), UEnc.EncodingError)
        c.eq(UEnc.is_hashed_base58_valid(s), False, 'is_hashed_base58_valid')


@check.sub('confusable', data, quick=80, thorough=2000)
def confusable(c, t):
    """A character that is none of the alphabet is no stand-in for one that is, wherever it is put"""
    text = enc.b58check(t)
    for i in range(len(text)):
        for ch in LOOKS:
            bad = text[:i] + ch + text[i + 1:]
            c.rejects('benc.decode_base58h(%r)' % bad, lambda: benc.decode_base58h(bad), benc.InvalidBase58h)
    bad = ''.join({'1': 'l', 'o': '0', 'i': 'I', 'Q': 'O', 'L': 'l', 'j': 'I', 'C': '0'}.get(ch, ch) for ch in text)
    if bad != text:
        c.rejects('benc.decode_base58h(%r)' % bad, lambda: benc.decode_base58h(bad), benc.InvalidBase58h)
    c.nt()


@check.sub('other-checksums', data, quick=250, thorough=5000)
def other_checksums(c, t):
    """No other digest, order or part of a digest passes for the checksum"""
    raw = t
    for name, s in enc.other_sums(raw).items():
        bad = enc.b58(raw + s)
        c.rejects('a text with the wrong checksum (%s)' % name, lambda: benc.decode_base58h(bad), benc.InvalidBase58h)
        c.eq(UEnc.is_hashed_base58_valid(bad), False, 'is_hashed_base58_valid with ' + name)
    c.nt()
