from hypothesis import strategies as st
from ref import secp, script as S
from vp import gen
from vp.core import Check
from bitforge.signature import validate_signature

check = Check('C33', 'signature encodings: canonical DER of number pairs of every length, with one structural byte, length or padding altered, cut, extended; '
              'strings made of DER-like parts; arbitrary bytes; non-trivial: starts as a DER sequence of 9-74 bytes, labelled by verdict')
num = st.one_of(st.sampled_from([1, 127, 128, 255, 256, 2 ** 255, 2 ** 255 - 1, 2 ** 256 - 1, gen.N - 1, gen.N // 2, 2 ** 248 - 1, 2 ** 247, 0]), gen.byte_len_int(1, 32), st.integers(0, 2 ** 256 - 1))


def judge(c, b):
    want = S.valid_sig_encoding(b)
    for form in (bytes(b), bytearray(b)):
        got = validate_signature(form)
        c.ok(got is True or got is False, 'not a boolean', got)
        c.eq(got, want, 'validity of %s' % b.hex())
    if 8 <= len(b) <= 75 and b[0] == 0x30:
        c.nt('valid' if want else 'invalid')
    return want


def enc_int(v, pad=0, strip=False):
    b = secp.der_int(v)[2:]
    if strip:
        b = b[1:]
    return b'\0' * pad + b


@check.sub('canonical', st.tuples(num, num, st.integers(0, 255)).map(list), quick=2500, thorough=50000,
           fixed=lambda: [[1 << (8 * a), 1 << (8 * b), 1] for a in range(32) for b in range(32)])
def canonical(c, k):
    r, s, t = k
    sig = secp.der_sig(r, s) + bytes([t])
    w = judge(c, sig)
    c.ref(w, 'canonical encoding refused by the reference')
    judge(c, sig[:-1])
    judge(c, sig + b'\0')


@check.sub('long', None, fixed=lambda: [[a, b, f] for a in range(28, 48) for b in range(28, 48) for f in (1, 0x7f, 0x80)])
def long_(c, k):
    """Well-formed in every other respect, but of any total length: up to 73 bytes is valid, longer is not"""
    a, b, f = k
    r, s = bytes([f]) + b'\xab' * (a - 1), bytes([f]) + b'\xcd' * (b - 1)
    judge(c, b'\x30' + bytes([a + b + 4, 2, a]) + r + bytes([2, b]) + s + b'\1')
    judge(c, b'\x30' + bytes([a + b + 4, 2, a]) + r + bytes([2, b]) + s)


@check.sub('altered', st.tuples(num, num, st.integers(0, 75), st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 2, 3, 0x30, 0x31, 0x7f, 0x80, 0x81, 0xff, 0x20, 0x21])), st.sampled_from(['set', 'inc', 'dec', 'del', 'ins', 'flip'])).map(list),
           quick=8000, thorough=200000,
           fixed=lambda: [[r, s, i, v, 'set'] for r, s in ((2 ** 255, 2 ** 254), (1, 1), (255, 127)) for i in range(0, 9) for v in range(256)]
           + [[r, s, i, 0, h] for r, s in ((2 ** 255, 2 ** 254), (1, 1), (255, 127), (2 ** 247, 2 ** 255)) for i in range(75) for h in ('inc', 'dec', 'del', 'ins', 'flip')])
def altered(c, k):
    r, s, i, v, how = k
    b = bytearray(secp.der_sig(r, s) + b'\1')
    i %= len(b)
    if how == 'set':
        b[i] = v
    elif how in ('inc', 'dec'):
        b[i] = (b[i] + (1 if how == 'inc' else -1)) & 0xff
    elif how == 'del':
        del b[i]
    elif how == 'ins':
        b.insert(i, v)
    else:
        b[i] ^= 0x80
    judge(c, bytes(b))
    if len(b) > 2:
        b[1] = (len(b) - 3) & 0xff            # ... with the total length made to agree
        judge(c, bytes(b))


part = st.one_of(num.map(enc_int), num.map(lambda v: enc_int(v, 1)), num.map(lambda v: enc_int(v, 2)), num.map(lambda v: enc_int(v, 0, True)), st.binary(max_size=40), st.just(b''))


@check.sub('parts', st.tuples(part, part, st.sampled_from([2, 2, 2, 3, 0]), st.sampled_from([2, 2, 2, 3, 0]), st.integers(-2, 2), st.integers(-2, 2), st.integers(-2, 2), st.booleans(), st.binary(max_size=3)).map(list), quick=6000, thorough=150000)
def parts(c, k):
    """Assembled from tags, lengths that may lie, and integers that may be padded, negative or empty"""
    r, s, tr, ts, dl, dr, ds, honest, tail = k
    if honest:
        dl = dr = ds = 0
    body = bytes([tr, (len(r) + dr) & 0xff]) + r + bytes([ts, (len(s) + ds) & 0xff]) + s
    judge(c, bytes([0x30, (len(body) + dl) & 0xff]) + body + b'\1' + tail)
    judge(c, bytes([0x30, (len(body) + dl) & 0xff]) + body + b'\1')


@check.sub('bytes', st.one_of(st.binary(max_size=80), st.binary(max_size=80).map(lambda b: b'\x30' + bytes([max(0, len(b) - 1)]) + b[1:]),
                             st.lists(st.sampled_from([0, 1, 2, 3, 4, 0x30, 0x80, 0xff, 6, 7]), max_size=14).map(bytes)), quick=4000, thorough=100000,
           fixed=lambda: [b'\x30' * n for n in range(80)] + [b'\0' * n for n in range(80)] + [b'\x30\x06\2\1\1\2\1\1'[:n] for n in range(9)] + [b''])
def bytes_(c, b):
    judge(c, b)
