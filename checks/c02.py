import re
from hypothesis import strategies as st
from ref import enc
from vp import gen
from vp.core import Check
from vp.lib import bf, NET

check = Check('C02', 'private keys in binary, hex and WIF: valid ones, valid ones damaged in one place, and payloads with '
              'a correct checksum but a wrong prefix, length, marker or secret; non-trivial: the text decodes as '
              'base58/check, or is a damaged valid key')
PK = bf.PrivateKey
N = gen.N
SECRETS = [0, 1, N - 1, N, N + 1, 2 ** 256 - 1, 2 ** 255, N - 2]

wide_secret = st.one_of(gen.secret, st.sampled_from(SECRETS), st.integers(0, 2 ** 256 - 1), st.integers(N, 2 ** 256 - 1),
                        st.integers(N - 3, N + 3))


def check_wif(c, text, nt=None):
    want = enc.wif_dec(text)
    if want is None:
        c.rejects('from_wif(%r)' % text, lambda: PK.from_wif(text), PK.Error)
        c.label('rejected')
    else:
        k = PK.from_wif(text)
        c.eq(k.secret, want[0], 'secret')
        c.eq(k.network, NET[want[1]], 'network')
        c.eq(k.compressed, want[2], 'compressed')
        c.eq(k.to_wif(), text, 'to_wif of the key read')
        c.label('accepted')
    if nt or enc.b58check_dec(text) is not None:
        c.nt(nt or 'payload')


payload = st.fixed_dictionaries({
    'prefix': st.one_of(st.sampled_from([0x80, 0xef, 0x80, 0xef, 0x80, 0xef, 0, 5, 0x6f, 0xc4, 0x81, 0x7f, 0xb0]),
                        st.integers(0, 255)),
    'secret': wide_secret,
    'tail': st.sampled_from([b'', b'\1', b'', b'\1', b'\0', b'\2', b'\xff', b'\1\1', b'\0\1', b'\1\0', b'\x81']),
    'cut': st.sampled_from([0, 0, 0, 0, 0, 1, 2, 16, 31, 32]),
})


def payload_edges():
    for prefix in range(256):
        yield {'prefix': prefix, 'secret': 1, 'tail': b'', 'cut': 0}
        yield {'prefix': 0x80, 'secret': 1, 'tail': bytes([prefix]), 'cut': 0}
    for prefix in (0x80, 0xef):
        for s in SECRETS:
            for tail in (b'', b'\1', b'\0', b'\1\1'):
                for cut in (0, 1):
                    yield {'prefix': prefix, 'secret': s, 'tail': tail, 'cut': cut}


def text_of(p):
    s = p['secret'].to_bytes(32, 'big')
    return enc.b58check(bytes([p['prefix']]) + s[p['cut']:] + p['tail'])


@check.sub('wif-payload', payload, quick=6000, thorough=150000, fixed=payload_edges)
def wif_payload(c, p):
    check_wif(c, text_of(p), 'payload')


mutation = st.tuples(st.sampled_from(['sub', 'del', 'ins', 'swap', 'dup', 'case', 'prefix', 'suffix']),
                     st.integers(0, 60), st.sampled_from(enc.ALPHA + '0OIl +/=\n\t-_'))


LOOKS = 'lIO0 -\n'


def mutate(text, m):
    kind, i, ch = m
    i = i % len(text)
    if kind == 'sub':
        return text[:i] + ch + text[i + 1:]
    if kind == 'del':
        return text[:i] + text[i + 1:]
    if kind == 'ins':
        return text[:i] + ch + text[i:]
    if kind == 'swap' and i + 1 < len(text):
        return text[:i] + text[i + 1] + text[i] + text[i + 2:]
    if kind == 'dup':
        return text[:i] + text[i] + text[i:]
    if kind == 'case':
        return text[:i] + text[i].swapcase() + text[i + 1:]
    if kind == 'prefix':
        return ch + text
    return text + ch


@check.sub('wif-damaged', st.tuples(gen.secret, gen.net, st.booleans(), st.lists(mutation, min_size=0, max_size=2)),
           quick=4000, thorough=100000)
def wif_damaged(c, t):
    text = enc.wif(t[0], t[1], t[2])
    for m in t[3]:
        text = mutate(text, m)
    check_wif(c, text, 'damaged')


@check.sub('wif-text', st.one_of(st.text(max_size=60), st.text(alphabet=enc.ALPHA, max_size=60),
                                 st.text(alphabet='1', max_size=60), gen.weird(st.tuples(gen.secret, gen.net, st.booleans()).map(lambda t: enc.wif(*t)))), quick=2500,
           fixed=lambda: [ch * n for ch in gen.WEIRD for n in (1, 51, 52)])
def wif_text(c, text):
    check_wif(c, text)


KINDS = [(), ('livenet',), ('testnet',), ('livenet', False), ('testnet', False), ('testnet', True)]


@check.sub('number', st.one_of(st.integers(-2 ** 260, 2 ** 260), st.integers(N - 5, N + 5), st.integers(-5, 5), gen.secret),
           quick=1500, fixed=lambda: SECRETS + [-1, -N, 1 - N, 2 * N + 1, N + 1, 2 ** 256, 2 ** 512])
def number(c, s):
    for kind in KINDS:
        if 0 < s < N:
            c.eq(PK(s, *kind).secret, s, 'secret')
        else:
            c.rejects('PrivateKey(%d, %r)' % (s, kind), lambda: PK(s, *kind), PK.Error)
            c.rejects('PrivateKey(%d, %r)' % (s, kind), lambda: PK(s, *([NET[kind[0]]] + list(kind[1:]) if kind else [])), PK.Error)
    c.nt('in' if 0 < s < N else 'out')


@check.sub('binary', st.one_of(wide_secret.map(lambda s: s.to_bytes(32, 'big')), st.binary(max_size=70),
                               st.binary(min_size=30, max_size=34),
                               wide_secret.map(lambda s: s.to_bytes(33, 'big')),
                               gen.byte_len_int(1, 31).map(lambda s: s.to_bytes(31, 'big'))), quick=3000,
           fixed=lambda: [bytes(n) for n in range(70)] + [b'\1' * n for n in range(70)]
           + [s.to_bytes(32, 'big') for s in SECRETS])
def binary(c, b):
    s = int.from_bytes(b, 'big')
    good = len(b) == 32 and 0 < s < N
    for kind in KINDS:
        for what, fn in (('from_bytes', lambda: PK.from_bytes(b, *kind)), ('from_hex', lambda: PK.from_hex(b.hex(), *kind))):
            if good:
                c.eq(fn().secret, s, what)
            else:
                c.rejects('%s(%s, %r)' % (what, b.hex(), kind), fn, PK.Error)
    if len(b) == 32 or 31 <= len(b) <= 33:
        c.nt('accepted' if good else 'rejected')


HEX = re.compile('^[0-9a-fA-F]*$', re.A)


@check.sub('hex-text', st.one_of(
    st.text(max_size=70), st.text(alphabet='0123456789abcdefABCDEF', min_size=60, max_size=68),
    st.tuples(gen.secret, mutation).map(lambda t: mutate('%064x' % t[0], t[1])),
    st.tuples(gen.secret, st.sampled_from(['%064x ', ' %064x', '0x%064x', '%064x\n', '%063x', '%065x', '%064X', '%062x',
                                           '0x%062x', '%066x'])).map(lambda t: t[1] % t[0]), gen.weird(gen.secret.map(lambda s: '%064x' % s))), quick=3500,
    fixed=lambda: [ch * n for ch in gen.WEIRD for n in (1, 63, 64)])
def hex_text(c, text):
    good = len(text) == 64 and HEX.match(text) and not text.endswith('\n') and 0 < int(text, 16) < N
    if good:
        c.eq(PK.from_hex(text).secret, int(text, 16), 'from_hex')
    else:
        for kind in KINDS:
            c.rejects('from_hex(%r, %r)' % (text, kind), lambda: PK.from_hex(text, *kind), PK.Error)
    if 60 <= len(text) <= 70:
        c.nt('accepted' if good else 'rejected')


@check.sub('network', st.tuples(gen.secret, st.one_of(st.text(max_size=10), st.integers(0, 300), st.sampled_from(
    ['livenet', 'testnet', 'Livenet', 'TESTNET', 'mainnet', '', 'regtest', 'default', 'livenet ', 'test']))), quick=800)
def network(c, t):
    s, name = t
    if name in ('livenet', 'testnet'):
        c.eq(PK(s, name).network, NET[name], 'network')
        c.eq(PK.from_bytes(s.to_bytes(32, 'big'), name).network, NET[name], 'network')
    else:
        c.rejects('network %r' % (name,), lambda: PK(s, name), PK.Error)
        c.rejects('network %r' % (name,), lambda: PK.from_bytes(s.to_bytes(32, 'big'), name), PK.Error)
        c.rejects('network %r' % (name,), lambda: PK.from_hex('%064x' % s, name), PK.Error)
    c.nt()


@check.sub('confusable', st.tuples(gen.secret, gen.net, st.booleans()).map(list), quick=40, thorough=1000)
def confusable(c, t):
    """A character that is none of the alphabet is no stand-in for one that is, wherever it is put"""
    text = enc.wif(*t)
    for i in range(len(text)):
        for ch in LOOKS:
            bad = text[:i] + ch + text[i + 1:]
            c.rejects('PK.from_wif(%r)' % bad, lambda: PK.from_wif(bad), PK.Error)
    bad = ''.join({'1': 'l', 'o': '0', 'i': 'I', 'Q': 'O', 'L': 'l', 'j': 'I', 'C': '0'}.get(ch, ch) for ch in text)
    if bad != text:
        c.rejects('PK.from_wif(%r)' % bad, lambda: PK.from_wif(bad), PK.Error)
    c.nt()


@check.sub('other-checksums', st.tuples(gen.secret, gen.net, st.booleans()).map(list), quick=150, thorough=3000)
def other_checksums(c, t):
    """No other digest, order or part of a digest passes for the checksum"""
    raw = enc.b58check_dec(enc.wif(*t))
    for name, s in enc.other_sums(raw).items():
        bad = enc.b58(raw + s)
        c.rejects('a text with the wrong checksum (%s)' % name, lambda: PK.from_wif(bad), PK.Error)
    c.nt()
