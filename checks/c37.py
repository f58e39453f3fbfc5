from hypothesis import strategies as st
from ref import enc, secp
from vp import gen
from vp.core import Check
from checks import c02, c04
from vp.lib import UEnc as U, benc, bf

check = Check('C37', 'the low-level helpers: secrets x prefixes x compression, points, hashes x prefixes, texts with good and bad checksums, byte strings up to 300 '
              'bytes; non-trivial: all, labelled')
byte = st.integers(0, 255).map(lambda n: bytes([n]))
prefix = st.one_of(st.sampled_from([b'\x80', b'\xef', b'\0', b'\x6f']), byte)
payload = st.one_of(st.binary(max_size=60), st.binary(min_size=32, max_size=35), st.tuples(prefix, st.binary(min_size=32, max_size=32), st.sampled_from([b'', b'\1', b'\0', b'\2', b'\1\1'])).map(b''.join),
                    st.tuples(prefix, st.binary(min_size=19, max_size=22)).map(b''.join))
good_address = st.tuples(st.sampled_from([b'\0', b'\x6f']), gen.h20).map(b''.join)
good_wif = st.tuples(prefix, gen.secret.map(lambda s: s.to_bytes(32, 'big')), st.sampled_from([b'', b'\1'])).map(b''.join)


@check.sub('hashes', st.one_of(st.binary(max_size=70), st.tuples(st.integers(0, 300), st.integers(0, 9)).map(lambda t: gen.filler(*t))), quick=2000, thorough=30000,
           fixed=lambda: [b'', bytes(55), bytes(56), bytes(63), bytes(64), bytes(65), bytes(1000)])
def hashes(c, d):
    import hashlib
    for name, got, want in (('sha256', benc.sha256(d), enc.sha256(d)), ('sha1', benc.sha1(d), hashlib.sha1(d).digest()), ('ripemd160', benc.ripemd160(d), enc.ripemd160(d)),
                            ('hash160', benc.hash160(d), enc.hash160(d)), ('hash160 of utils', U.hash160(d), enc.hash160(d)), ('double_sha256', U.double_sha256(d), enc.dsha(d))):
        c.eq(got, want, name)
    c.nt()


@check.sub('wif', st.tuples(gen.secret, st.booleans(), prefix, prefix).map(list), quick=2500, thorough=40000)
def wif(c, k):
    s, comp, p, q = k
    text = U.secret_exponent_to_wif(s, comp, p)
    c.eq(text, enc.b58check(p + s.to_bytes(32, 'big') + (b'\1' if comp else b'')), 'WIF')
    c.eq(U.wif_to_tuple_of_prefix_secret_exponent_compressed(text), (p, s, comp), 'WIF read back')
    for allowed in ([p], [q], [q, p], [b'\x80'], [], [b'\0', b'\xff'], (p,), (q,)):
        good = p in allowed
        c.eq(U.is_valid_wif(text, allowed), good, 'is_valid_wif with prefixes %r' % allowed)
        if good:
            c.eq(U.wif_to_tuple_of_secret_exponent_compressed(text, allowed), (s, comp), 'WIF read back')
            c.eq(U.wif_to_secret_exponent(text, allowed), s, 'secret')
        else:
            c.rejects('WIF of another prefix', lambda: U.wif_to_secret_exponent(text, allowed), U.EncodingError)
    c.eq(U.is_valid_wif(text), p == b'\x80', 'is_valid_wif')
    c.eq(U.secret_exponent_to_wif(s), enc.wif(s, 'livenet', True), 'WIF by default')
    c.nt('compressed' if comp else 'uncompressed', 'livenet' if p == b'\x80' else 'other prefix')


@check.sub('bad-wif', st.tuples(st.one_of(payload, good_wif), st.booleans(), st.integers(0, 300)).map(list), quick=3000, thorough=50000,
           fixed=lambda: [[b'\x80' + bytes(n) + t, ok, 0] for n in (0, 30, 31, 32, 33, 34) for t in (b'', b'\1', b'\0', b'\2') for ok in (True, False)])
def bad_wif(c, k):
    """Only 32 bytes with or without the one-byte marker 01, and with the right checksum, is a WIF"""
    d, ok, i = k
    raw = d + enc.dsha(d)[:4]
    if not ok:
        raw = bytearray(raw)
        raw[i % len(raw)] ^= 1 + i % 255
        raw = bytes(raw)
    text = enc.b58(raw)
    good = ok and len(d) in (33, 34) and d[33:] in (b'', b'\1')
    c.eq(U.is_hashed_base58_valid(text), ok, 'is_hashed_base58_valid')
    c.eq(U.is_valid_wif(text, [d[:1]]), good, 'is_valid_wif')
    got, v = c.attempt(lambda: U.wif_to_tuple_of_prefix_secret_exponent_compressed(text), U.EncodingError)
    c.eq(got, good, 'reading it')
    if good:
        c.eq(v, (d[:1], int.from_bytes(d[1:33], 'big'), len(d) == 34), 'what is read')
    c.nt('good' if good else 'bad')


@check.sub('sec', st.tuples(gen.secret, st.booleans(), st.booleans(), prefix).map(list), quick=800, thorough=15000,
           fixed=lambda: [[s, a, cp, b'\0'] for v in gen.SPECIAL.values() for s in v for a in (False, True) for cp in (False, True)])
def sec(c, k):
    s, neg, comp, p = k
    x, y = secp.mul_g(s)
    judge_point(c, (x, gen.P - y if neg else y), comp, p)


@check.sub('sec-points', st.tuples(st.one_of(c04.point, c04.by_y), st.booleans(), prefix).map(list), quick=800, thorough=15000, fixed=lambda: [[list(q), cp, b'\0'] for q in c04.BY_Y for cp in (False, True)])
def sec_points(c, k):
    """Points with zero bytes anywhere in their coordinates"""
    judge_point(c, tuple(k[0]), *k[1:])


def judge_point(c, pt, comp, p):
    want = secp.sec(pt, comp)
    c.eq(U.public_pair_to_sec(pt, comp), want, 'encoded point')
    c.eq(tuple(U.sec_to_public_pair(want)), pt, 'decoded point')
    c.eq(bool(U.is_sec_compressed(want)), comp, 'is_sec_compressed')
    h = enc.hash160(want)
    c.eq(U.public_pair_to_hash160_sec(pt, comp), h, 'hash of the key')
    c.eq(U.public_pair_to_bitcoin_address(pt, comp), enc.b58check(b'\0' + h), 'address')
    c.eq(U.public_pair_to_bitcoin_address(pt, comp, p), enc.b58check(p + h), 'address with a prefix')
    c.nt('odd' if pt[1] & 1 else 'even', 'compressed' if comp else 'uncompressed')


@check.sub('bad-sec', st.one_of(
    st.tuples(st.sampled_from(c04.FORMS), c04.point, st.integers(0, 600)).map(lambda t: c04.build((t[0], tuple(t[1]), t[2]))),
    st.tuples(st.sampled_from([b'\2', b'\3', b'\4', b'\5', b'\6']), st.integers(31, 65).flatmap(lambda n: st.binary(min_size=n, max_size=n))).map(b''.join)), quick=3000, thorough=50000,
    fixed=c04.edge_raw)
def bad_sec(c, raw):
    """What is not the encoding of a point of the curve is not read as one"""
    want = secp.parse_sec(raw)
    if want is None:
        c.rejects('sec_to_public_pair(%s)' % raw.hex(), lambda: U.sec_to_public_pair(raw), (U.EncodingError, ValueError))
    else:
        c.eq(tuple(U.sec_to_public_pair(raw)), want[0], 'decoded point')
    c.nt('good' if want else 'bad')


@check.sub('address', st.tuples(st.one_of(payload, good_address, good_address), st.booleans(), st.integers(0, 300)).map(list), quick=3000, thorough=50000,
           fixed=lambda: [[p + b'\7' * n, ok, 0] for p in (b'\0', b'\x6f', b'\5', b'\xc4', b'\1') for n in (19, 20, 21) for ok in (True, False)])
def address(c, k):
    """The helpers know key-hash addresses, of the two networks"""
    d, ok, i = k
    raw = d + enc.dsha(d)[:4]
    if not ok:
        raw = bytearray(raw)
        raw[i % len(raw)] ^= 1 + i % 255
        raw = bytes(raw)
    text = enc.b58(raw)
    good = ok and len(d) == 21 and d[0] in (0, 0x6f)
    got, v = c.attempt(lambda: U.bitcoin_address_to_hash160_sec_with_prefix(text), U.EncodingError)
    c.eq(got, good, 'reading the address')
    if good:
        c.eq(v, (d[1:], d[:1]), 'what is read')
        c.eq(U.hash160_sec_to_bitcoin_address(d[1:], d[:1]), text, 'the address written')
    for p in (b'\0', b'\x6f'):
        c.eq(bool(U.is_valid_bitcoin_address(text, p)), good and d[:1] == p, 'is_valid_bitcoin_address')
        got, v = c.attempt(lambda: U.bitcoin_address_to_hash160_sec(text, p), U.EncodingError)
        c.eq(got, good and d[:1] == p, 'reading an address of one network')
        if got:
            c.eq(v, d[1:], 'hash')
    for allowed in (b'\0\x6f', b'\x6f\0', b'', b'\x05\xc4', b'\x05\0\xc4', b'\x6f\x70'):
        c.eq(bool(U.is_valid_bitcoin_address(text, allowed)), good and d[0] in allowed, 'is_valid_bitcoin_address with prefixes %r' % allowed)
    c.nt('good' if good else 'bad')


@check.sub('text', st.one_of(st.text(st.characters(exclude_categories=['Cs']), max_size=30), st.text(enc.ALPHA, max_size=60)), quick=2000, thorough=30000)
def text(c, t):
    """Any text gets an answer"""
    want = enc.b58check_dec(t)
    c.eq(U.is_hashed_base58_valid(t), want is not None, 'is_hashed_base58_valid')
    c.eq(bool(U.is_valid_bitcoin_address(t)), want is not None and len(want) == 21 and want[0] == 0, 'is_valid_bitcoin_address')
    c.eq(U.is_valid_wif(t), want is not None and len(want) in (33, 34) and want[0] == 0x80 and want[33:] in (b'', b'\1'), 'is_valid_wif')
    if t:
        c.nt('alphabet' if enc.b58dec(t) is not None else 'other')


def judge_text(c, t):
    want = enc.b58check_dec(t)
    c.eq(U.is_hashed_base58_valid(t), want is not None, 'is_hashed_base58_valid(%r)' % t)
    addr = want is not None and len(want) == 21 and want[0] in (0, 0x6f)
    wif = want is not None and len(want) in (33, 34) and want[33:] in (b'', b'\1')
    c.eq(bool(U.is_valid_bitcoin_address(t, b'\0\x6f')), addr, 'is_valid_bitcoin_address(%r)' % t)
    c.eq(U.is_valid_wif(t, [b'\x80', b'\xef']), wif and want[:1] in (b'\x80', b'\xef'), 'is_valid_wif(%r)' % t)
    got, v = c.attempt(lambda: U.wif_to_tuple_of_prefix_secret_exponent_compressed(t), U.EncodingError)
    c.eq((got, v if got else None), (True, (want[:1], int.from_bytes(want[1:33], 'big'), len(want) == 34)) if wif else (False, None), 'reading %r as WIF' % t)
    got, v = c.attempt(lambda: U.bitcoin_address_to_hash160_sec_with_prefix(t), U.EncodingError)
    c.eq((got, v if got else None), (True, (want[1:], want[:1])) if addr else (False, None), 'reading %r as address' % t)
    return want


@check.sub('damaged', st.tuples(st.one_of(st.tuples(st.sampled_from([b'\0', b'\x6f']), gen.h20).map(b''.join), st.tuples(st.sampled_from([b'\x80', b'\xef']),
                                gen.secret.map(lambda s: s.to_bytes(32, 'big')), st.sampled_from([b'', b'\1'])).map(b''.join)), st.lists(c02.mutation, min_size=1, max_size=2)).map(list),
           quick=500, thorough=25000)
def damaged(c, k):
    """Texts with characters changed, added, left out or exchanged, and with characters that are none of the alphabet in place of similar ones"""
    d, ms = k
    text = enc.b58check(d)
    bad = text
    for m in ms:
        bad = c02.mutate(bad, m)
    want = judge_text(c, bad)
    for ch in 'lIO0 -\n':
        i = ms[0][1] % len(text)
        judge_text(c, text[:i] + ch + text[i + 1:])
        for similar in 'o1iQDCLj':
            if similar in text:
                judge_text(c, text.replace(similar, ch))
    c.nt('good' if want is not None else 'bad')


@check.sub('fixed-width', st.one_of(st.integers(0, 2 ** 256 - 1), gen.byte_len_int(1, 32), st.sampled_from([0, 1, 2 ** 256 - 1])), quick=1500, thorough=20000)
def fixed_width(c, n):
    c.eq(U.to_bytes_32(n), n.to_bytes(32, 'big'), '32 bytes of a number')
    c.eq(U.from_bytes_32(n.to_bytes(32, 'big')), n, 'number of 32 bytes')
    c.rejects('more than 32 bytes', lambda: U.to_bytes_32(n + 2 ** 256))
    c.nt('short' if n < 2 ** 248 else 'full')


@check.sub('other-checksums', st.one_of(payload, good_address, good_wif), quick=150, thorough=3000)
def other_checksums(c, raw):
    """No other digest, order or part of a digest passes for the checksum"""
    for name, s in enc.other_sums(raw).items():
        bad = enc.b58(raw + s)
        c.eq([U.is_hashed_base58_valid(bad), U.is_valid_wif(bad, [raw[:1]]), bool(U.is_valid_bitcoin_address(bad, b'\0\x6f'))], [False] * 3, 'the validity of a text with the wrong checksum (%s)' % name)
        c.rejects('a text with the wrong checksum (%s)' % name, lambda: U.a2b_hashed_base58(bad), U.EncodingError)
        c.rejects('a text with the wrong checksum (%s)' % name, lambda: U.bitcoin_address_to_hash160_sec(bad), U.EncodingError)
    c.nt()
