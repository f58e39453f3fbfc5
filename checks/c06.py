from hypothesis import strategies as st
from ref import enc
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, addr_type
from checks.c02 import mutation, mutate, LOOKS

check = Check('C06', 'addresses as text, hex and binary: valid ones, damaged ones, checksummed payloads of any version and '
              'length, arbitrary text; non-trivial: decodes as base58/check, or a damaged valid address')
A = bf.Address
VERSIONS = [0, 5, 111, 196]


def judge_bytes(c, raw, fns):
    want = enc.addr_dec(raw)
    for what, fn in fns:
        if want is None:
            c.rejects('%s of %s' % (what, raw.hex()), fn, A.Error)
            c.label('rejected')
        else:
            a = fn()
            c.eq(a.phash, want[0], what + ' hash')
            c.eq(a.network, NET[want[1]], what + ' network')
            c.eq(a.type, addr_type(want[2]), what + ' type')
            c.eq(a.to_bytes(), raw, what + ' and back')
            c.label('accepted')


def sweep():
    for v in range(256):
        yield bytes([v]) + b'\x11' * 20
        yield bytes([v]) + b'\0' * 20
    for v in VERSIONS:
        for n in range(0, 70):
            yield bytes([v]) + b'\x22' * n
            yield bytes(n) + bytes([v])
    yield b''


@check.sub('payload', st.one_of(
    st.tuples(st.sampled_from(VERSIONS), gen.h20).map(lambda t: bytes([t[0]]) + t[1]),
    st.binary(min_size=21, max_size=21), st.binary(max_size=50), st.binary(min_size=19, max_size=23),
    st.tuples(st.sampled_from(VERSIONS), st.binary(min_size=17, max_size=24)).map(lambda t: bytes([t[0]]) + t[1])),
    quick=5000, thorough=150000, fixed=sweep)
def payload(c, raw):
    text = enc.b58check(raw)
    judge_bytes(c, raw, [('from_bytes', lambda: A.from_bytes(raw)), ('from_hex', lambda: A.from_hex(raw.hex())),
                         ('from_hex upper', lambda: A.from_hex(raw.hex().upper())),
                         ('from_string', lambda: A.from_string(text))])
    c.nt('length %s 21' % ('=' if len(raw) == 21 else '<' if len(raw) < 21 else '>'))


# the shortest texts, and the checksum of nothing cut at either end
NIL = enc.dsha(b'')[:4]
SHORT = ['', *enc.ALPHA, '11', '111', '1111'] + [enc.b58(NIL[a:b]) for a in range(5) for b in range(a, 5)] + [enc.b58(enc.dsha(b'\0')[:4][a:b]) for a in range(5) for b in range(a, 5)]


def judge_text(c, text, label=None):
    raw = enc.b58check_dec(text)
    if raw is None:
        c.rejects('from_string(%r)' % text, lambda: A.from_string(text), A.Error)
        c.label('rejected')
    else:
        judge_bytes(c, raw, [('from_string', lambda: A.from_string(text))])
    if label:
        c.nt(label)


@check.sub('damaged', st.tuples(st.sampled_from(VERSIONS), gen.h20, st.lists(mutation, min_size=1, max_size=2)).map(list),
           quick=5000, thorough=150000)
def damaged(c, t):
    text = enc.b58check(bytes([t[0]]) + t[1])
    for m in t[2]:
        text = mutate(text, m)
    judge_text(c, text, t[2][0][0])


@check.sub('checksum', st.tuples(st.sampled_from(VERSIONS), gen.h20, st.integers(0, 199)).map(list), quick=3000,
           thorough=60000)
def checksum(c, t):
    """Any single flipped bit of the 25 binary bytes is detected."""
    raw = bytes([t[0]]) + t[1]
    raw += enc.dsha(raw)[:4]
    b = bytearray(raw)
    b[t[2] // 8] ^= 1 << (t[2] % 8)
    text = enc.b58(bytes(b))
    c.rejects('from_string(%s) (one bit away from an address)' % text, lambda: A.from_string(text), A.Error)
    c.nt('in checksum' if t[2] >= 168 else 'in payload')


@check.sub('text', st.one_of(st.text(max_size=45), st.text(alphabet=enc.ALPHA, max_size=45), st.text(alphabet='1', max_size=45),
                             gen.weird(st.tuples(st.sampled_from(VERSIONS), gen.h20).map(lambda t: enc.b58check(bytes([t[0]]) + t[1])))),
           quick=4000, fixed=lambda: [ch * n for ch in gen.WEIRD for n in (1, 34)] + SHORT)
def text(c, s):
    judge_text(c, s)


@check.sub('hex-text', st.one_of(st.text(max_size=45), st.text(alphabet='0123456789abcdefg ', min_size=40, max_size=44),
                                 gen.h20.map(lambda h: '0x00' + h.hex()), gen.h20.map(lambda h: ' 00' + h.hex()),
                                 gen.h20.map(lambda h: '0' + h.hex()), gen.weird(gen.h20.map(lambda h: '00' + h.hex()))), quick=2000,
           fixed=lambda: [ch * n for ch in gen.WEIRD for n in (1, 42)])
def hex_text(c, s):
    if len(s) % 2 == 0 and all(ch in '0123456789abcdefABCDEF' for ch in s):
        judge_bytes(c, bytes.fromhex(s), [('from_hex', lambda: A.from_hex(s))])
    else:
        c.rejects('from_hex(%r)' % s, lambda: A.from_hex(s), A.Error)
    c.nt()


@check.sub('construct', st.tuples(st.one_of(gen.h20, gen.h20, st.binary(max_size=40), st.binary(min_size=19, max_size=21)), st.one_of(st.sampled_from(
    ['livenet', 'testnet', 'mainnet', '', 'x', 'Livenet', 'default', 'regtest', 0, 5, 111, 196, 0x80]), st.sampled_from(['livenet', 'testnet'])),
    st.sampled_from(['pubkeyhash', 'scripthash', 'pubkeyhash', 'scripthash', 'bad', None, '=pubkeyhash', '=scripthash', 'PublicKey', 'Script', 0, 5, b'pubkeyhash'])).map(list),
    quick=2500, fixed=lambda: [[b'\1' * n, net, k] for n in range(45) for net in ('livenet', 'testnet') for k in ('pubkeyhash', 'scripthash')])
def construct(c, t):
    h, net, kd = t
    # a text that is the value of a type, but not the type
    ty = addr_type(kd) if kd in ('pubkeyhash', 'scripthash') else kd[1:] if str(kd).startswith('=') else kd
    if len(h) == 20 and net in NET and kd in ('pubkeyhash', 'scripthash'):
        a = A(h, net, ty)
        c.eq(a.to_bytes(), enc.addr_bytes(h, net, kd), 'to_bytes')
    else:
        c.rejects('Address(%r, %r, %r)' % (h, net, ty), lambda: A(h, net, ty), A.Error)
    c.nt()


@check.sub('confusable', st.tuples(st.sampled_from(VERSIONS), gen.h20).map(list), quick=60, thorough=1500)
def confusable(c, t):
    """A character that is none of the alphabet is no stand-in for one that is, wherever it is put"""
    text = enc.b58check(bytes([t[0]]) + t[1])
    for i in range(len(text)):
        for ch in LOOKS:
            bad = text[:i] + ch + text[i + 1:]
            c.rejects('A.from_string(%r)' % bad, lambda: A.from_string(bad), A.Error)
    bad = ''.join({'1': 'l', 'o': '0', 'i': 'I', 'Q': 'O', 'L': 'l', 'j': 'I', 'C': '0'}.get(ch, ch) for ch in text)
    if bad != text:
        c.rejects('A.from_string(%r)' % bad, lambda: A.from_string(bad), A.Error)
    c.nt()


@check.sub('other-checksums', st.tuples(st.sampled_from(VERSIONS), gen.h20).map(list), quick=150, thorough=3000)
def other_checksums(c, t):
    """No other digest, order or part of a digest passes for the checksum"""
    raw = bytes([t[0]]) + t[1]
    for name, s in enc.other_sums(raw).items():
        bad = enc.b58(raw + s)
        c.rejects('a text with the wrong checksum (%s)' % name, lambda: A.from_string(bad), A.Error)
    c.nt()
