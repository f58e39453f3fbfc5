from hypothesis import strategies as st
from ref import bip32, secp
from vp import gen
from vp.core import Check
from vp.lib import bf
from checks.hdgen import HARD, index, any_index, node, rare, RARE_PLAIN, lib_priv, lib_pub, same_priv, same_pub

check = Check('C12', 'private nodes (edge secrets, networks, depths) and non-hardened paths of 1-3 steps derived on both '
              'sides; non-trivial: all; labelled by path length and special keys')


@check.sub('commute', st.tuples(node, st.lists(index, min_size=1, max_size=2)).map(list), quick=200, thorough=4000,
           fixed=lambda: [[{'k': k, 'chain': b'\7' * 32, 'depth': 3, 'index': 0, 'parent': 9, 'net': net}, [i]]
                          for k in [1, gen.N - 1, gen.SPECIAL['x2'][0], gen.SPECIAL['y1'][0]] for net in ('livenet', 'testnet')
                          for i in (0, HARD - 1)] + [[n, [i, 1]] for n, i in rare(RARE_PLAIN)])
def commute(c, t):
    n, path = t
    prv = lib_priv(n)
    pb = prv.to_hd_public_key()
    want = bip32.neuter(n)
    same_pub(c, pb, want, 'public node')
    for i in path:
        prv, pb, want = prv.derive(i), pb.derive(i), bip32.ckd_pub(want, i)
        same_pub(c, pb, want, 'public child %d' % i)
        nb = prv.to_hd_public_key()
        same_pub(c, nb, want, 'public half of private child %d' % i)
        c.ok(nb == pb, 'public derivation and private derivation disagree', nb, pb)
        c.eq(tuple(pb.to_public_key().pair), tuple(prv.to_public_key().pair), 'public key')
    c.nt('%d steps' % len(path), n['net'])


@check.sub('public-only', st.tuples(node, st.lists(index, min_size=1, max_size=3)).map(list), quick=260, thorough=6000)
def public_only(c, t):
    n, path = t
    want = bip32.neuter(n)
    got = lib_pub(n)
    same_pub(c, got, want, 'start')
    for i in path:
        nxt = got.derive(i)
        c.ok(nxt == got.derive(i, False), 'deriving the same child twice gives different keys', nxt)
        same_pub(c, got, want, 'parent after a derivation')
        got, want = nxt, bip32.ckd_pub(want, i)
        same_pub(c, got, want, 'public child %d' % i)
    c.nt('%d steps' % len(path), 'zero-prefixed x' if want['pt'][0] >> 248 == 0 else 'plain x')


@check.sub('hardened', st.tuples(node, any_index, st.booleans()).map(list), quick=150, thorough=1500,
           fixed=lambda: [[{'k': 5, 'chain': b'\7' * 32, 'depth': 0, 'index': 0, 'parent': 0, 'net': 'livenet'}, i, h]
                          for i, h in ((HARD, False), (HARD + 1, False), (2 ** 32 - 1, False), (0, True), (HARD - 1, True),
                                       (HARD, True), (2 ** 32, False), (2 ** 33, False))])
def hardened(c, t):
    """A public node never yields a hardened child."""
    n, i, flag = t
    if i < HARD and not flag:
        flag = True
    c.rejects('derive(%d, %s) of a public node' % (i, flag), lambda: lib_pub(n).derive(i, flag))
    c.nt('by number' if i >= HARD else 'by flag')


@check.sub('no-secret', node, quick=80, thorough=1000)
def no_secret(c, n):
    """Neither the text nor the representation of a public node reveals the private key."""
    pb = lib_priv(n).to_hd_public_key()
    h = '%064x' % n['k']
    text = pb.to_string() + repr(pb)
    if n['k'] >> 128:
        c.ok(h not in text and str(n['k']) not in text, 'the secret shows in a public node', text)
    c.ok(text.startswith('xpub' if n['net'] == 'livenet' else 'tpub'), 'prefix', text[:10])
    c.nt()
