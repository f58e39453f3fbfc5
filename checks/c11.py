from hypothesis import strategies as st
from ref import bip32, secp
from vp import gen
from vp.core import Check
from vp.lib import bf, NET, entropy
from checks.hdgen import HARD, index, any_index, node, rare, RARE_HARD, RARE_PLAIN, RARE_SEEDS, lib_priv, same_priv, same_pub

check = Check('C11', 'seeds of 32-200 bytes, nodes with edge secrets (leading zero bytes), chain codes, depths and networks, '
              'paths mixing plain and hardened indexes at their boundaries; non-trivial: at least one derivation, labelled')


def step(n, t):
    """(library call arguments, BIP 32 child number)"""
    i, how = t
    if how == 'number':
        return (i,), i
    if how == 'flag':
        return (i % HARD, True), i % HARD + HARD
    if how == 'flag-on-number':
        return (i, True), i if i >= HARD else i + HARD
    return (i % HARD, False), i % HARD


steps = st.lists(st.tuples(any_index, st.sampled_from(['number', 'number', 'flag', 'flag-on-number', 'plain'])).map(list),
                 min_size=1, max_size=3)


@check.sub('seed', st.tuples(st.one_of(st.binary(min_size=32, max_size=80), st.sampled_from([bytes(32), b'\xff' * 64, bytes(64), b'\xff' * 32]),
                                       st.integers(60, 260).map(lambda n: gen.filler(n, 1))),
                             st.lists(st.tuples(any_index, st.just('number')).map(list), max_size=2)).map(list),
           quick=200, thorough=4000)
def seed(c, t):
    s, path = t
    got, want = bf.HDPrivateKey.from_seed(s), bip32.master(s)
    same_priv(c, got, want, 'master')
    for p in path:
        args, i = step(want, p)
        got, want = got.derive(*args), bip32.ckd_priv(want, i)
        same_priv(c, got, want, 'm/%s' % (path,))
    c.nt('seed %s 64' % ('>' if len(s) > 64 else '<='))


def plain_seeds():
    yield from RARE_SEEDS
    for v in range(256):
        yield bytes([v]) * 32
        yield b'\x33' * 31 + bytes([v])
        yield bytes([v]) + b'\x33' * 40
    for n in range(32, 300):
        yield gen.filler(n, 2)
        yield bytes(n - 1) + b'\1'


@check.sub('masters', st.one_of(st.binary(min_size=32, max_size=128), st.text(min_size=32, max_size=60).map(lambda s: s.encode('utf-8', 'replace'))), quick=1500, thorough=30000, fixed=plain_seeds)
def masters(c, s):
    """Masters alone (cheap enough for many seeds)"""
    got, want = bf.HDPrivateKey.from_seed(s), bip32.master(s)
    c.eq((got.privkey.secret, got.chain, got.depth, got.index, got.parent), (want['k'], want['chain'], 0, 0, 0), 'master of ' + s.hex())
    c.ok(got.network is NET['livenet'] and got.privkey.network is NET['livenet'] and got.privkey.compressed, 'network or form of the master', got)
    c.nt()


@check.sub('path', st.tuples(node, steps).map(list), quick=420, thorough=9000,
           fixed=lambda: [[{'k': k, 'chain': b'\7' * 32, 'depth': 0, 'index': 0, 'parent': 0, 'net': net}, [[i, 'number']]]
                          for net in ('livenet', 'testnet') for k in [1, gen.N - 1, 2 ** 240 - 1, 255] + gen.SPECIAL['x2'][:2]
                          for i in (0, 1, HARD - 1, HARD, 2 ** 32 - 1)] + [[n, [[i, 'number'], [1, 'number']]] for n, i in rare(RARE_PLAIN + RARE_HARD)])
def path(c, t):
    n, path = t
    got, want = lib_priv(n), n
    same_priv(c, got, want, 'start')
    for p in path:
        args, i = step(want, p)
        nxt = got.derive(*args)
        again = got.derive(*args)
        c.ok(nxt == again, 'deriving the same child twice gives different keys', nxt, again)
        same_priv(c, got, want, 'parent after a derivation')
        got, want = nxt, bip32.ckd_priv(want, i)
        same_priv(c, got, want, 'child %d' % i)
        c.label('hardened' if i >= HARD else 'plain')
    if n['k'] >> 248 == 0:
        c.label('short secret')
    c.nt('%d steps' % len(path), n['net'])


@check.sub('siblings', st.tuples(node, st.lists(any_index, min_size=2, max_size=3, unique=True)).map(list), quick=120, thorough=2000)
def siblings(c, t):
    n, idx = t
    p = lib_priv(n)
    kids = [p.derive(i) for i in idx]
    c.eq(len(set(k.privkey.secret for k in kids)), len(idx), 'number of different secrets among %d siblings' % len(idx))
    c.eq(len(set(k.chain for k in kids)), len(idx), 'number of different chain codes')
    c.eq([k.index for k in kids], idx, 'indexes')
    c.nt()


@check.sub('refuse', st.tuples(node, st.one_of(st.integers(2 ** 32, 2 ** 40), st.integers(-2 ** 33, -1), st.sampled_from(
    [2 ** 32, 2 ** 32 + 1, -1, 2 ** 64]))).map(list), quick=60)
def refuse(c, t):
    n, i = t
    c.rejects('derive(%d)' % i, lambda: lib_priv(n).derive(i))
    c.nt()


@check.sub('short-seed', st.binary(max_size=31), quick=300, fixed=lambda: [bytes(n) for n in range(32)] + [b'\1' * 31])
def short_seed(c, s):
    c.rejects('a seed of %d bytes' % len(s), lambda: bf.HDPrivateKey.from_seed(s), ValueError)
    c.nt('%d' % len(s))


@check.sub('random-seed', st.binary(min_size=2, max_size=6), quick=40)
def random_seed(c, ent):
    a, b = bf.HDPrivateKey.from_seed(), bf.HDPrivateKey.from_seed()
    c.ok(a.privkey.secret != b.privkey.secret and a.chain != b.chain, 'two random masters are the same', a, b)
    for m in (a, b):
        c.eq((m.depth, m.index, m.parent, m.network), (0, 0, 0, NET['livenet']), 'metadata of a random master')
    with entropy(ent) as e:
        a = bf.HDPrivateKey.from_seed()
    c.ok(e['drawn'] >= 32, 'a random master was made from %d bytes of system entropy' % e['drawn'])
    with entropy(ent):
        c.ok(bf.HDPrivateKey.from_seed() == a, 'a random master depends on something other than the system entropy')
    with entropy(ent + b'x'):
        c.ok(bf.HDPrivateKey.from_seed().privkey.secret != a.privkey.secret, 'a random master does not depend on the system entropy')
    c.nt()
