from hypothesis import strategies as st
from ref import bip32, enc, secp
from vp import gen
from vp.core import Check
from vp.lib import bf, ANY_REJECT
from checks.hdgen import any_index, node, rare, RARE_HARD, RARE_PLAIN, RARE_SEEDS, lib_priv, lib_pub, same_priv, same_pub
from checks.c02 import mutation, mutate, LOOKS

check = Check('C13', 'HD key texts: of generated nodes, damaged, and re-checksummed 78-byte payloads with wrong version, '
              'padding, key or length; non-trivial: all but free text')
HP, HU = bf.HDPrivateKey, bf.HDPublicKey
full = st.fixed_dictionaries({'k': gen.secret, 'chain': st.binary(min_size=32, max_size=32), 'depth': st.integers(0, 255),
                              'index': gen.u32, 'parent': gen.u32, 'net': gen.net})


def judge(c, text, private):
    cls = HP if private else HU
    want = bip32.parse(text, private)
    if want is None:
        c.rejects('%s.from_string(%r)' % (cls.__name__, text), lambda: cls.from_string(text), *ANY_REJECT)
        c.label('rejected')
        return
    got = cls.from_string(text)
    if private:
        same_priv(c, got, want, 'read')
    else:
        same_pub(c, got, want, 'read')
    c.eq(got.to_string(), text, 'written again')
    c.label('accepted')


@check.sub('roundtrip', full, quick=400, thorough=8000, fixed=lambda: [
    {'k': k, 'chain': ch, 'depth': d, 'index': i, 'parent': p, 'net': net}
    for k, ch, d, i, p in ((1, bytes(32), 0, 0, 0), (gen.N - 1, b'\xff' * 32, 255, 2 ** 32 - 1, 2 ** 32 - 1),
                           (2 ** 240, b'\0' + b'\1' * 31, 1, 2 ** 31, 1), (gen.SPECIAL['x2'][0], bytes(32), 128, 2 ** 31 - 1, 255))
    for net in ('livenet', 'testnet')])
def roundtrip(c, n):
    p = lib_priv(n)
    text = p.to_string()
    c.eq(text, bip32.string(n), 'private text')
    back = HP.from_string(text)
    c.ok(back == p, 'private node read back differs', back, p)
    same_priv(c, back, n, 'private node read back')
    u = p.to_hd_public_key()
    text = u.to_string()
    c.eq(text, bip32.string(bip32.neuter(n)), 'public text')
    back = HU.from_string(text)
    c.ok(back == u, 'public node read back differs', back, u)
    same_pub(c, back, bip32.neuter(n), 'public node read back')
    c.nt(n['net'], 'depth > 127' if n['depth'] > 127 else 'depth <= 127')


@check.sub('derived', st.tuples(st.one_of(st.binary(min_size=32, max_size=40), st.sampled_from(RARE_SEEDS)), st.lists(any_index, max_size=2)).map(list), quick=150, thorough=3000,
           fixed=lambda: [[s, []] for s in RARE_SEEDS] + [[n, [i]] for n, i in rare(RARE_PLAIN + RARE_HARD)])
def derived(c, t):
    """Nodes made from seeds and by derivation, not from their parts"""
    start, path = t
    p, n = (HP.from_seed(start), bip32.master(start)) if isinstance(start, bytes) else (lib_priv(start), start)
    for i in path:
        p, n = p.derive(i), bip32.ckd_priv(n, i)
    c.eq(p.to_string(), bip32.string(n), 'private text')
    back = HP.from_string(p.to_string())
    c.ok(back == p, 'private node read back differs', back, p)
    same_priv(c, back, n, 'private node read back')
    u = p.to_hd_public_key()
    c.eq(u.to_string(), bip32.string(bip32.neuter(n)), 'public text')
    back = HU.from_string(u.to_string())
    c.ok(back == u, 'public node read back differs', back, u)
    c.nt('%d steps' % len(path))


FIELDS = ['none', 'version', 'other-version', 'pad', 'key0', 'keyN', 'keyN+1', 'keymax', 'key', 'sec-marker', 'sec-x', 'short', 'long', 'bit',
          'cross', 'swapped-version', 'swapped-key']


def damage(raw, how, n, private):
    b = bytearray(raw)
    if how == 'version':
        b[0:4] = n.to_bytes(8, 'big')[-4:]
    elif how == 'other-version':
        vs = [v[k] for v in enc.NETS.values() for k in ('xpub', 'xprv')] + [0x049d7cb2, 0x04b2430c, 0x049d7878, 0]
        b[0:4] = vs[n % len(vs)].to_bytes(4, 'big')
    elif how == 'swapped-version':           # the version of the other kind over this kind's key
        v = {x['xpub']: x['xprv'] for x in enc.NETS.values()}
        v.update({b_: a_ for a_, b_ in v.items()})
        b[0:4] = v[int.from_bytes(b[:4], 'big')].to_bytes(4, 'big')
    elif how == 'pad':
        b[45] = n % 256
    elif how in ('key0', 'keyN', 'keyN+1', 'keymax', 'key'):
        v = {'key0': 0, 'keyN': gen.N, 'keyN+1': gen.N + 1, 'keymax': 2 ** 256 - 1, 'key': n * n * n % 2 ** 256}[how]
        b[46:78] = v.to_bytes(32, 'big')
    elif how == 'sec-marker':
        b[45] = [0, 1, 2, 3, 4, 5, 6, 7, 255][n % 9]
    elif how == 'sec-x':
        b[46:78] = [5, gen.P, gen.P + 1, 2 ** 256 - 1, 0, n][n % 6].to_bytes(32, 'big')
    elif how == 'short':
        del b[-(1 + n % 50):]
    elif how == 'long':
        b += bytes(1 + n % 4) if n & 4 else b'\1'
    elif how == 'bit':
        i = n % (8 * len(b))
        b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


@check.sub('payload', st.tuples(full, st.booleans(), st.booleans(), st.sampled_from(FIELDS), st.integers(0, 2 ** 63)).map(list),
           quick=1100, thorough=20000, fixed=lambda: [[{'k': s, 'chain': b'\5' * 32, 'depth': 1, 'index': 7, 'parent': 9, 'net': net}, pr, rp, how, k] for s in (1, gen.SPECIAL['x1'][0]) for net in ('livenet', 'testnet') for pr in (False, True)
                                                            for rp in (False, True) for how in FIELDS for k in (0, 3, 5)])
def payload(c, t):
    n, private, read_private, how, k = t
    raw = damage(bip32.payload(n if private else bip32.neuter(n)), how, k, private)
    if how == 'swapped-key':                 # this kind's version over the other kind's key
        raw = raw[:45] + bip32.payload(bip32.neuter(n) if private else n)[45:]
    judge(c, enc.b58check(raw), read_private if how in ('cross', 'swapped-version') else private)
    c.nt(how)


@check.sub('damaged', st.tuples(full, st.booleans(), st.lists(mutation, min_size=1, max_size=2)).map(list), quick=1500, thorough=30000)
def damaged(c, t):
    text = bip32.string(t[0] if t[1] else bip32.neuter(t[0]))
    for m in t[2]:
        text = mutate(text, m)
    judge(c, text, t[1])
    c.nt(t[2][0][0])


@check.sub('text', st.tuples(st.one_of(st.text(alphabet=enc.ALPHA, max_size=120), st.text(alphabet=st.characters(codec='ascii'), max_size=120)),
                             st.booleans()).map(list), quick=600)
def text(c, t):
    judge(c, t[0], t[1])


@check.sub('confusable', st.tuples(full, st.booleans()).map(list), quick=12, thorough=200)
def confusable(c, t):
    """A character that is none of the alphabet is no stand-in for one that is, wherever it is put"""
    text = bip32.string(t[0] if t[1] else bip32.neuter(t[0]))
    for i in range(len(text)):
        for ch in LOOKS:
            bad = text[:i] + ch + text[i + 1:]
            c.rejects('(HP if t[1] else HU).from_string(%r)' % bad, lambda: (HP if t[1] else HU).from_string(bad), *ANY_REJECT)
    bad = ''.join({'1': 'l', 'o': '0', 'i': 'I', 'Q': 'O', 'L': 'l', 'j': 'I', 'C': '0'}.get(ch, ch) for ch in text)
    if bad != text:
        c.rejects('(HP if t[1] else HU).from_string(%r)' % bad, lambda: (HP if t[1] else HU).from_string(bad), *ANY_REJECT)
    c.nt()


@check.sub('other-checksums', st.tuples(full, st.booleans()).map(list), quick=60, thorough=1200)
def other_checksums(c, t):
    """No other digest, order or part of a digest passes for the checksum"""
    raw = enc.b58check_dec(bip32.string(t[0] if t[1] else bip32.neuter(t[0])))
    for name, s in enc.other_sums(raw).items():
        bad = enc.b58(raw + s)
        c.rejects('a text with the wrong checksum (%s)' % name, lambda: (HP if t[1] else HU).from_string(bad), *ANY_REJECT)
    c.nt()
