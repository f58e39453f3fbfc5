from hypothesis import strategies as st
from ref import script as S, enc
from vp import gen
from vp.core import Check
from checks.interp import judge, body, push_elem, push_any, pin_stack, state_after, with_known_truth, flags_any

check = Check('C22', 'redeem scripts (model-guided programs, raw bytes that are no script, large, empty-stack) x arguments x the right or a wrong '
              'hash x template variants, with and without the P2SH flag; non-trivial: the redeem script is evaluated, or the output is a '
              'near miss of the template')


def run(c, sig, pk, fl):
    m = judge(c, sig, pk, None, 0, fl | S.P2SH)
    judge(c, sig, pk, None, 0, fl & ~S.P2SH)
    return m


args = st.lists(push_elem, max_size=5).map(b''.join)


@check.sub('redeem', st.tuples(args, body(max_ops=8), flags_any).map(list), quick=2500, thorough=80000)
def redeem(c, k):
    a, r, fl = k
    if len(r) > 520:
        r = r[:0] + b'\x51'
    sig = a + (push_any(r) if len(r) != 0 else b'\0')
    m = run(c, sig, gen.p2sh_raw(enc.hash160(r)), fl & ~S.MINIMALDATA)
    run(c, sig, gen.p2sh_raw(enc.hash160(r)), fl)
    run(c, a + b'\x51' + push_any(r) if r else a + b'\x51\0', gen.p2sh_raw(enc.hash160(r)), 0)
    if 'p2sh' in m.seen:
        c.nt('redeem: ' + (m.error or 'accepted'))


@check.sub('exact', st.tuples(args, body(max_ops=8)).map(list), quick=1200, thorough=40000)
def exact_stack(c, k):
    """The redeem script starts with exactly the elements below it in the first script's stack"""
    a, r = k
    m, ok = state_after(a + r)
    if not ok or m.cond or m.nops + 2 * len(m.stack) + 2 > 201:
        return
    for stack, lab in ((m.stack, 'right'), ([b'\7'] + m.stack, 'one more'), (m.stack[1:], 'one less')):
        full = r + pin_stack(stack)
        if len(full) > 520:
            return
        run(c, a + S.push(full), gen.p2sh_raw(enc.hash160(full)), 0)
    c.nt('%d elements' % min(8, len(m.stack)))


BAD = [b'\x02a', b'\x4c', b'\x4d\1', b'\x4e\1\0\0', b'\x4c\x05abc', b'\x4b', b'\x51\x4b', b'\x01']
HOW = ['right', 'wrong hash', 'short hash', 'long hash', 'pushdata1', 'equalverify', 'extra nop', 'dup', 'sig nop', 'sig codesep', 'no args', 'empty redeem', 'reserved']


@check.sub('variants', st.tuples(st.sampled_from(HOW), st.one_of(st.sampled_from([b'\x51', b'\x00', b'\x75', b'\x61', b'\x6a', b'\x51\x75', b'\x02\x01\x80', b'\x01\x80', b'\x74'] + BAD),
                                                                  st.binary(min_size=1, max_size=30)), args).map(list), quick=1500, thorough=30000,
           fixed=lambda: [[h, r, a] for h in HOW for r in [b'\x51', b'\x00', b'\x75', b'\x61', b'\x6a', b'\x01\x80'] + BAD for a in (b'', b'\x51', b'\x00', b'\x51\x00')])
def variants(c, k):
    """Only the exact template is evaluated as P2SH; the redeem script must be a script; the first script must only push"""
    how, r, a = k
    if how == 'empty redeem':
        r = b''
    h = enc.hash160(r)
    sig = a + (S.push(r) if r else b'\0')
    pk = gen.p2sh_raw(h)
    if how == 'wrong hash':
        pk = gen.p2sh_raw(bytes([h[0] ^ 1]) + h[1:])
    elif how == 'short hash':
        pk = b'\xa9' + S.push(h[:19]) + b'\x87'
    elif how == 'long hash':
        pk = b'\xa9' + S.push(h + b'\0') + b'\x87'
    elif how == 'pushdata1':
        pk = b'\xa9\x4c\x14' + h + b'\x87'
    elif how == 'equalverify':
        pk = b'\xa9\x14' + h + b'\x88'
    elif how == 'extra nop':
        pk = pk + b'\x61'
    elif how == 'dup':
        pk = b'\x76' + pk
    elif how == 'sig nop':
        sig = b'\x61' + sig
    elif how == 'sig codesep':
        sig = sig + b'\xab'
    elif how == 'no args':
        sig = S.push(r)
    elif how == 'reserved':
        sig = b'\x00\x63\x50\x68' + sig
    m = run(c, sig, pk, 0)
    run(c, sig, pk, S.SIGPUSHONLY)
    c.nt(how + (': evaluated' if 'p2sh' in m.seen else ''))


@check.sub('limits', st.tuples(gen.mined(1, 521, st.sampled_from([519, 520, 521])), st.integers(199, 203)).map(list), quick=20, thorough=200,
           fixed=lambda: [[n, k] for n in (519, 520, 521) for k in (200, 201, 202)] + [[n, k] for n in list(range(1, 519, 7)) + gen.fresh(1, 518) for k in (0, 1, n // 3)])
def limits(c, k):
    """The redeem script is itself an element of at most 520 bytes, with an operation count of its own"""
    n, ops = k
    r = (b'\x51' * (n - 220) + b'\x61' * ops)[:n]
    r = r + b'\x51' * (n - len(r))
    run(c, S.push(r), gen.p2sh_raw(enc.hash160(r)), 0)
    c.nt()


@check.sub('dead-limits', st.tuples(st.integers(0, 203), st.integers(0, 203), st.booleans()).map(list), quick=60, thorough=800,
           fixed=lambda: [[a, b, t] for a, b in ((0, 198), (0, 199), (0, 200), (100, 98), (100, 99), (198, 0), (199, 0), (200, 0)) for t in (True, False)])
def dead_limits(c, k):
    """Operations of a redeem script count whether they are executed or not"""
    a, b, taken = k
    r = (b'\x51' if taken else b'\x00') + b'\x63' + b'\x61' * a + b'\x67' + b'\x61' * b + b'\x68\x51'
    run(c, S.push(r), gen.p2sh_raw(enc.hash160(r)), 0)
    c.nt()


@check.sub('nested', st.sampled_from([b'\x51', b'\x00', b'\x6a']), quick=6, thorough=20)
def nested(c, r):
    """A redeem script that is itself a P2SH output is not evaluated a second time"""
    inner = gen.p2sh_raw(enc.hash160(r))
    run(c, S.push(r) + S.push(inner), gen.p2sh_raw(enc.hash160(inner)), 0)
    run(c, b'\x51' + S.push(r) + S.push(inner), gen.p2sh_raw(enc.hash160(inner)), 0)
    c.nt()


@check.sub('lock-time', st.tuples(st.sampled_from([0, 1, 9, 10, 11, 499999999, 500000000, 500000001]), st.sampled_from([0, 10, 500000000]), st.lists(st.sampled_from([0, 5, 0xffffffff]), min_size=1, max_size=4),
                                  st.integers(0, 3), flags_any).map(list), quick=300, thorough=5000,
           fixed=lambda: [[9, 10, s, n, S.CLTV] for s in ([0, 0xffffffff], [0xffffffff, 0], [0xffffffff, 0, 0xffffffff]) for n in range(len(s))])
def lock_time(c, k):
    """A lock time in the redeem script is checked against the same transaction and input"""
    a, lk, seqs, n, fl = k
    n %= len(seqs)
    tx = {'version': 1, 'inputs': [{'txid': '%02x' % (i + 1) * 32, 'index': i, 'script': b'', 'seq': s} for i, s in enumerate(seqs)], 'outputs': [{'amount': 1, 'script': b'\x51'}], 'lock': lk}
    r = push_any(S.num_enc(a)) + b'\xb1'
    for f in (fl | S.P2SH, fl | S.P2SH | S.CLTV, fl & ~S.P2SH):
        m = judge(c, b'\x51' + S.push(r + b'\x75'), gen.p2sh_raw(enc.hash160(r + b'\x75')), tx, n, f)
        judge(c, push_any(S.num_enc(a)) + S.push(b'\xb1\x75\x51'), gen.p2sh_raw(enc.hash160(b'\xb1\x75\x51')), tx, n, f)
    c.nt('%d of %d' % (n, len(seqs)))


@check.sub('deep', st.tuples(st.integers(0, 998), st.integers(0, 16), st.booleans()).map(list), quick=60, thorough=1000,
           fixed=lambda: [[n, v, d] for n in [0, 1, 2, 15, 16, 17, 63, 64, 99, 100, 101, 127, 128, 255, 256, 257, 500, 997, 998] + gen.fresh(0, 998) for v in (1, 0) for d in (True, False)])
def deep(c, k):
    """However many elements lie below the redeem script, all are there and in order"""
    n, v, by_depth = k
    below = b''.join(bytes([0x51 + (i + v) % 16]) for i in range(n))
    if by_depth:
        r = b'\x74' + (bytes([0x50 + n]) if 1 <= n <= 16 else b'\0' if n == 0 else S.push(S.num_enc(n))) + b'\x9c'
    else:                                          # the lowest element, picked, must be the first one pushed
        if n == 0:
            return
        r = (bytes([0x50 + n - 1]) if 1 <= n - 1 <= 16 else b'\0' if n == 1 else S.push(S.num_enc(n - 1))) + b'\x79' + bytes([0x51 + v % 16]) + b'\x9c'
    m = run(c, below + S.push(r), gen.p2sh_raw(enc.hash160(r)), 0)
    other = r[:-1] + b'\x9e'
    run(c, below + S.push(other), gen.p2sh_raw(enc.hash160(other)), 0)
    c.nt('accepted' if m.error is None else m.error)


with_known_truth(check)
