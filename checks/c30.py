from hypothesis import strategies as st
from ref import enc
from vp import gen
from vp.core import Check
from vp.lib import benc, BitforgeError
from bitforge.tools import Buffer

check = Check('C30', 'integers of any size (0 to 80 bits, edge values, negatives) x lengths 0-9 x both byte orders; byte strings; variable-length integers '
              'at every boundary; sequences of writes read back from one buffer; non-trivial: more than one byte, a boundary, or a misfit')
EDGE = sorted(set(x for k in range(0, 72) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1))) + [252, 253, 254]
integer = st.one_of(st.sampled_from(EDGE), st.integers(0, 2 ** 64 - 1), st.integers(0, 70000), st.integers(0, 2 ** 80))


@check.sub('int', st.tuples(integer, st.booleans(), st.one_of(st.none(), st.integers(0, 9))).map(list), quick=8000, thorough=200000,
           fixed=lambda: [[n, b, l] for n in EDGE for b in (False, True) for l in (None, 1, 2, 4, 8)] + [[-n, b, l] for n in (1, 2, 255, 256, 2 ** 31) for b in (False, True) for l in (None, 1, 4)])
def int_(c, k):
    n, big, ln = k
    order = 'big' if big else 'little'
    what = '%d as %s bytes, %s-endian' % (n, ln, order)
    f = lambda: benc.encode_int(n, big_endian=big, length=ln)
    if n < 0 or (ln is not None and n >> (8 * ln)):
        c.rejects(what, f, BitforgeError)
        c.nt('does not fit')
        return
    want = n.to_bytes(ln if ln is not None else max(1, (n.bit_length() + 7) // 8), order)
    c.eq(f(), want, what)
    c.eq(benc.decode_int(want, big_endian=big), n, 'back from ' + what)
    if len(want) > 1:
        c.nt(order)


@check.sub('wide-int', st.tuples(st.integers(0, 300), st.integers(0, 300), st.binary(min_size=1, max_size=40), st.booleans()).map(list), quick=1500, thorough=30000,
           fixed=lambda: [[z, l, b'\x80\1', big] for l in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300) for z in (0, 1, l - 2, l - 1, l) for big in (False, True)])
def wide_int(c, k):
    """Numbers and fields of many bytes: keys, seeds, checksums"""
    z, ln, b, big = k
    n = int.from_bytes(b, 'big') << 8 * z
    order = 'big' if big else 'little'
    f = lambda: benc.encode_int(n, big_endian=big, length=ln)
    if n >> 8 * ln:
        c.rejects('%d bytes into %d' % ((n.bit_length() + 7) // 8, ln), f, BitforgeError)
    else:
        c.eq(f(), n.to_bytes(ln, order), '%d in %d bytes' % (n, ln))
    w = n.to_bytes(max(1, (n.bit_length() + 7) // 8), order)
    c.eq(benc.encode_int(n, big_endian=big), w, 'as few bytes as needed')
    c.eq(benc.decode_int(w, big_endian=big), n, 'back from bytes')
    c.nt('fits' if not n >> 8 * ln else 'does not fit')


@check.sub('negative', st.tuples(st.integers(-2 ** 70, -1), st.booleans(), st.one_of(st.none(), st.integers(1, 9))).map(list), quick=300, thorough=3000)
def negative(c, k):
    c.rejects('negative number', lambda: benc.encode_int(k[0], big_endian=k[1], length=k[2]), BitforgeError)
    c.rejects('negative variable-length number', lambda: benc.encode_varint(k[0]), BitforgeError)
    c.nt()


@check.sub('bytes', st.tuples(st.binary(max_size=40), st.booleans()).map(list), quick=3000, thorough=60000)
def bytes_(c, k):
    b, big = k
    n = int.from_bytes(b, 'big' if big else 'little')
    c.eq(benc.decode_int(b, big_endian=big), n, 'number in ' + b.hex())
    c.eq(benc.decode_int(bytearray(b), big_endian=big), n, 'number in a mutable ' + b.hex())
    c.eq(benc.encode_int(n, big_endian=big, length=len(b)), b, 'back to bytes')
    if len(b) > 1:
        c.nt()


@check.sub('varint', st.one_of(st.sampled_from([e for e in EDGE if e < 2 ** 64]), st.integers(0, 2 ** 64 - 1), st.integers(0, 70000)), quick=5000, thorough=100000,
           fixed=lambda: [e for e in EDGE if e < 2 ** 64] + list(range(0, 600)) + list(range(65500, 65600)))
def varint(c, n):
    e = benc.encode_varint(n)
    c.eq(e, enc.varint(n), 'variable-length %d' % n)
    b = Buffer(bytes(e) + b'tail')
    c.eq(b.read_varint(), n, 'variable-length number read back')
    c.eq(bytes(b), b'tail', 'what follows it')
    c.nt('%d bytes' % len(e))


@check.sub('varint-range', st.integers(2 ** 64, 2 ** 90), quick=100, thorough=1000, fixed=lambda: [2 ** 64, 2 ** 64 + 1, 2 ** 65])
def varint_range(c, n):
    c.rejects('variable-length %d' % n, lambda: benc.encode_varint(n), BitforgeError)
    c.nt()


@check.sub('varint-read', st.one_of(st.binary(max_size=12), st.tuples(st.sampled_from([252, 253, 254, 255]), st.binary(max_size=10)).map(lambda t: bytes([t[0]]) + t[1])), quick=2000, thorough=30000,
           fixed=lambda: [bytes([f]) + b'\1' * n for f in (0, 1, 252, 253, 254, 255) for n in range(0, 10)])
def varint_read(c, raw):
    """Reading takes exactly the bytes the first one announces (in any, even a longer than needed, form); too few are refused"""
    w = 0 if not raw else {253: 2, 254: 4, 255: 8}.get(raw[0], 0)
    b = Buffer(raw)
    if len(raw) < 1 + w:
        c.rejects('reading %s' % raw.hex(), b.read_varint, BitforgeError)
    else:
        c.eq(b.read_varint(), int.from_bytes(raw[1:1 + w], 'little') if w else raw[0], 'number in ' + raw.hex())
        c.eq(bytes(b), raw[1 + w:], 'what follows it')
    c.nt('%d bytes announced' % w)


op = st.one_of(st.tuples(st.just('w'), st.binary(max_size=20)), st.tuples(st.just('r'), gen.mined(0, 70000, st.just(0), *[st.integers(0, 25)] * 12)), st.tuples(st.just('w'), gen.data_of_len([30, 100, 255, 256, 1000, 5000])), st.tuples(st.just('v'), st.just(0)),
               st.tuples(st.just('wv'), st.integers(0, 2 ** 64 - 1))).map(list)


@check.sub('buffer', st.lists(op, max_size=12), quick=2500, thorough=50000)
def buffer(c, ops):
    """A buffer is a queue of bytes: a history of writes and reads against a plain model"""
    b, model = Buffer(), b''
    for o, x in ops:
        if o == 'w':
            b.write(x)
            model += x
        elif o == 'wv':
            b.write(benc.encode_varint(x))
            model += enc.varint(x)
        elif o == 'r':
            if x > len(model):
                c.rejects('reading %d of %d' % (x, len(model)), lambda: b.read(x), BitforgeError)
            else:
                c.eq(bytes(b.read(x)), model[:x], 'read of %d' % x)
                model = model[x:]
        else:
            if not model:
                continue
            w = {253: 2, 254: 4, 255: 8}.get(model[0], 0)
            if len(model) < 1 + w:
                continue
            c.eq(b.read_varint(), int.from_bytes(model[1:1 + w], 'little') if w else model[0], 'variable-length number')
            model = model[1 + w:]
        c.eq(bytes(b), model, 'contents')
    if len(ops) > 2:
        c.nt('%d steps' % len(ops))


@check.sub('over-read', st.tuples(st.integers(0, 40), st.integers(0, 2 ** 72), st.integers(0, 3)).map(list), quick=300, thorough=5000,
           fixed=lambda: [[n, (1 << e) + d, r] for n in (0, 1, 9, 300) for e in (8, 9, 16, 31, 32, 33, 52, 53, 61, 62, 63, 64, 65, 70) for d in (-1, 0, 1) for r in (0, 1)])
def over_read(c, k):
    """However much more is asked for than there is, it is refused each time and what is there can still be read"""
    n, want, again = k
    data = gen.filler(n, 3)
    b = Buffer(data)
    for _ in range(again + 1):
        if want > n:
            c.rejects('reading %d of %d' % (want, n), lambda: b.read(want), BitforgeError)
            c.eq(bytes(b), data, 'contents after a refused read')
    c.eq(bytes(b.read(n)), data, 'reading all there is')
    c.nt('2^%d' % want.bit_length() if want.bit_length() > 30 else 'less than 2^30')


@check.sub('big-buffer', None, fixed=lambda: [[n, k] for n in (255, 256, 4096, 65535, 65536, 1 << 17, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20) for k in (1, 3)])
def big_buffer(c, t):
    """Much data, written at once and in parts, comes out as it went in"""
    n, k = t
    d = (bytes(range(256)) * (n // 256 + 1))[:n]
    b = Buffer()
    for i in range(k):
        b.write(d)
    b.write(b'end')
    all_ = d * k + b'end'
    for i in (0, 1, 0, 2, 3, 0):
        c.ok(bytes(b.read(i)) == all_[:i], 'what is read differs from what was written', n, i)
        all_ = all_[i:]
        c.ok(bytes(b) == all_, 'what is left is not the rest', n, i)
    c.rejects('reading more than there is', lambda: b.read(len(all_) + 1), BitforgeError)
    c.ok(bytes(b) == all_, 'a refused read takes nothing', n)
    b = Buffer(d * k + b'end')
    for i in range(k):
        c.ok(bytes(b.read(n)) == d, 'what is read differs from what was written', n, i)
    c.eq(bytes(b), b'end', 'the rest')
    c.nt()


@check.sub('hex', st.one_of(st.binary(max_size=60)), quick=1500, thorough=20000)
def hex_(c, b):
    h = benc.encode_hex(b)
    c.eq(bytes(h), b.hex().encode(), 'hex')
    for f in (b.hex(), b.hex().upper(), b.hex().encode()):
        c.eq(benc.decode_hex(f), b, 'from hex')
    if b:
        c.nt()


HEX = '0123456789abcdefABCDEF'


@check.sub('bad-hex', st.one_of(st.text(max_size=12), st.text(HEX + 'gG xé', max_size=12)), quick=1500, thorough=20000)
def bad_hex(c, s):
    good = len(s) % 2 == 0 and all(ch in HEX for ch in s)
    if good:
        c.eq(benc.decode_hex(s), bytes.fromhex(s), 'from hex')
    else:
        c.rejects('hex %r' % s, lambda: benc.decode_hex(s), BitforgeError)
        c.nt()
