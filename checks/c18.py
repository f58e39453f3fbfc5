from hypothesis import strategies as st
from ref import script as S
from vp.core import Check
from vp.lib import benc, BitforgeError

check = Check('C18', 'integers of 0-9 bytes around every byte and sign boundary; byte strings up to 8 bytes, minimal or not, with every size '
              'limit 0-9 and both strictness settings; non-trivial: more than one byte, or a boundary value')
bounds = sorted(set(s * (1 << k) + d for k in range(0, 66) for d in (-1, 0, 1) for s in (1, -1)))
integer = st.one_of(st.integers(-2 ** 31, 2 ** 31), st.integers(-2 ** 70, 2 ** 70), st.sampled_from(bounds), st.integers(-70000, 70000))
raw = st.one_of(
    st.binary(max_size=9), integer.map(S.num_enc),
    st.tuples(integer, st.integers(0, 3), st.sampled_from([0, 0x80])).map(lambda t: pad(*t)),
    st.lists(st.sampled_from([0, 1, 0x7f, 0x80, 0x81, 0xff]), max_size=7).map(bytes))


def pad(n, k, last):
    b = bytearray(S.num_enc(n))
    neg = bool(b) and b[-1] & 0x80
    if b and k:
        b[-1] &= 0x7f
        b += bytes(k)
        if neg:
            b[-1] |= 0x80
    elif k:
        b += bytes(k - 1) + bytes([last])
    return bytes(b)


@check.sub('encode', integer, quick=8000, thorough=200000, fixed=lambda: bounds + list(range(-1100, 1100)))
def encode(c, n):
    got = benc.encode_script_number(n)
    e = bytes(got)
    c.eq(e, S.num_enc(n), 'encoding of %d' % n)
    if isinstance(got, bytearray):
        got.extend(b'\1\2')                    # the caller's to change
        c.eq(bytes(benc.encode_script_number(n)), e, 'encoding of %d, again' % n)
    c.eq(benc.decode_script_number(e, True, len(e)), n, 'decoding of the encoding of %d (minimal required)' % n)
    c.eq(benc.decode_script_number(e, False, len(e)), n, 'decoding of the encoding of %d' % n)
    if len(e) <= 4:
        c.eq(benc.decode_script_number(e), n, 'decoding of the encoding of %d with the default limit' % n)
    else:
        c.rejects('number of %d bytes with the default limit' % len(e), lambda: benc.decode_script_number(e), BitforgeError)
    if len(e) > 1 or n in bounds:
        c.nt('%d bytes' % len(e))


@check.sub('decode', st.tuples(raw, st.booleans(), st.integers(0, 9)).map(list), quick=12000, thorough=300000,
           fixed=lambda: [[bytes([a]), m, s] for a in range(256) for m in (False, True) for s in (0, 1, 4)]
           + [[bytes([a, b]), m, 4] for a in (0, 1, 0x7f, 0x80, 0xff) for b in range(256) for m in (False, True)]
           + [[bytes([a, b, x]), m, 4] for a in (0, 1, 0x80) for b in (0, 1, 0x7f, 0x80, 0xff) for x in (0, 1, 0x7f, 0x80, 0x81, 0xff) for m in (False, True)]
           + [[b, m, s] for b in (b'', b'\0' * 5, b'\0\0\0\0\1', b'\xff' * 5, b'\0\0\0\x80\0', b'\xff' * 4) for m in (False, True) for s in (0, 3, 4, 5, 6)])
def decode(c, k):
    b, minimal, size = k
    what = 'number %s (limit %d, minimal %s)' % (b.hex(), size, minimal)
    for form in (bytes, bytearray):
        f = lambda: benc.decode_script_number(form(b), minimal, size)
        if len(b) > size or (minimal and not S.num_minimal(b)):
            c.rejects(what, f, BitforgeError)
        else:
            c.eq(f(), S.num_dec(b), what)
    if len(b) > 1:
        c.nt('too long' if len(b) > size else 'minimal' if S.num_minimal(b) else 'not minimal')


@check.sub('unique', st.tuples(integer, integer).map(list), quick=2000, thorough=30000)
def unique(c, k):
    """Different numbers never share an encoding, and the encoding decides equality."""
    a, b = [bytes(benc.encode_script_number(x)) for x in k]
    c.eq(a == b, k[0] == k[1], 'equal encodings of %r' % k)
    c.nt('equal' if k[0] == k[1] else 'different')
