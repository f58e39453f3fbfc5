import itertools
from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.core import Check
from checks.interp import judge, exact, body, push_any, push_elem, flags_any, OP, NUMS, ODD_NUMS, ALL_FLAGS, with_known_truth, context, in_context

check = Check('C21', 'scripts x flag sets: pushes of any data by any opcode, operands in any encoding, first scripts of any composition, dummy '
              'elements, reserved NOPs in live and dead branches, lock times and sequence numbers around every boundary; non-trivial: '
              'the flag under test decides the verdict (it differs without it), or a boundary value')
UNARY = sorted(S.OPS[n] for n in S.UNARY)
BINARY = sorted(S.OPS[n] for n in S.BINARY)


def both(c, sig, pk, flag, extra=0, tx=None, nin=0):
    """Verdict with and without `flag`"""
    a = judge(c, sig, pk, tx, nin, flag | extra)
    b = judge(c, sig, pk, tx, nin, extra)
    if (a.error is None) != (b.error is None):
        c.nt('decided by the flag: ' + str(a.error))
    return a, b


def push_table():
    for v in range(256):
        for op in (1, 76, 77, 78):
            yield [['push', op, bytes([v])], 0]
    for n in (2, 3, 74, 75, 76, 77, 254, 255, 256, 257, 519, 520):
        for op in ([n] if n <= 75 else []) + [o for o in (76, 77, 78) if gen.fits(o, n)]:
            yield [['push', op, gen.filler(n, 1)], 0]
    for op in (76, 77, 78):
        yield [['push', op, b''], 0]
    for op in range(79, 97):
        yield [['op', op], 0]
    yield [['op', 0], 0]


@check.sub('minimal-push', st.tuples(gen.any_push(st.one_of(gen.push_data, st.binary(min_size=1, max_size=1))), flags_any).map(list), quick=800, thorough=30000,
           fixed=lambda: list(push_table()))
def minimal_push(c, k):
    i, fl = k
    fl &= ~(S.MINIMALDATA | S.P2SH)
    p = gen.raw_of([i])
    both(c, p, b'\x51', S.MINIMALDATA, fl)
    both(c, b'\x51', p + b'\x75', S.MINIMALDATA, fl)
    both(c, b'\x51', b'\x00\x63' + p + b'\x68', S.MINIMALDATA, fl)      # not executed: no matter
    both(c, b'\x51', b'\x51\x63\x67' + p + b'\x68', S.MINIMALDATA, fl)
    for live in (b'\x51\x63' + p + b'\x68', b'\x00\x63\x67' + p + b'\x68', b'\x00\x64' + p + b'\x67\x68', b'\x51\x51\x63\x63' + p + b'\x68\x68', p, p + b'\x61'):
        both(c, b'\x51', live, S.MINIMALDATA, fl)
        both(c, live, b'\x74\x75\x51', S.MINIMALDATA, fl)
        if len(live) <= 520:
            both(c, b'\x51' + S.push(live), gen.p2sh_raw(S.hash160(live)), S.MINIMALDATA, fl & ~S.SIGPUSHONLY | S.P2SH)


def minimal_args():
    odd = [b'\x80', b'\0', b'\1\0', b'\1\x80', b'\x7f\0', b'\xff\0', b'\0\0', b'\0\0\0\0', b'\xff\0\0\0', b'\0\x80', b'\x80\0', b'\1\0\0\0', b'\xff\xff\xff\0', b'\xff\xff\x7f\0']
    for x in odd + [S.num_enc(n) for n in (0, 1, -1, 127, 128, -255, 65536)]:
        for op in UNARY:
            yield [op, [x]]
        for op in BINARY:
            yield [op, [x, b'\1']]
            yield [op, [b'\1', x]]
            yield [op, [x, x]]
        for j in range(3):
            a = [b'\1', b'\1', b'\2']
            a[j] = x
            yield [OP['WITHIN'], a]
        yield [OP['PICK'], [b'\1', x]]
        yield [OP['ROLL'], [b'\1', x]]
        yield [OP['CHECKMULTISIG'], [b'', b'', x]]
        yield [OP['CHECKMULTISIG'], [b'', x, b'']]
        yield [OP['CHECKMULTISIG'], [b'', x, b'a', b'\1']]


# operands built of the bytes that matter for signs and padding
RAGGED = [bytes(t) for n in (1, 2, 3) for t in itertools.product((0, 1, 0x7f, 0x80, 0xff), repeat=n)] + [bytes(t) for t in itertools.product((0, 0x7f, 0x80, 0xff), repeat=4)]
odd_num = st.one_of(st.sampled_from(ODD_NUMS), st.sampled_from(RAGGED))


@check.sub('minimal-number', st.one_of(
    st.tuples(st.sampled_from(UNARY), st.lists(odd_num, min_size=1, max_size=1)),
    st.tuples(st.sampled_from(BINARY), st.lists(st.one_of(odd_num, st.sampled_from(NUMS).map(S.num_enc)), min_size=2, max_size=2)),
    st.tuples(st.just(OP['WITHIN']), st.lists(st.one_of(odd_num, st.sampled_from(NUMS).map(S.num_enc)), min_size=3, max_size=3))).map(list),
    quick=800, thorough=15000, fixed=lambda: list(minimal_args()) + [[op, [x]] for x in RAGGED for op in (OP['1ADD'], OP['NOT'])])
def minimal_number(c, k):
    op, args = k
    both(c, b''.join(map(push_any, args)), bytes([op]) + b'\x51', S.MINIMALDATA)
    both(c, b''.join(map(push_any, args)), bytes([op]) + b'\x75\x51', S.MINIMALDATA)


SOME = st.one_of(st.sampled_from(ALL_FLAGS), flags_any)


@check.sub('push-only', st.tuples(st.lists(gen.instr, max_size=5), flags_any).map(list), quick=1200, thorough=30000,
           fixed=lambda: [[[['op', n]], 0] for n in gen.PLAIN_OPS] + [[[['op', 81], ['op', 97]], 0], [[['op', 97], ['op', 81]], 0]])
def push_only(c, k):
    ins, fl = k
    raw = gen.raw_of(ins)
    both(c, raw, b'\x51', S.SIGPUSHONLY, fl & ~S.SIGPUSHONLY)
    both(c, b'\x51', raw, S.SIGPUSHONLY, fl & ~S.SIGPUSHONLY)        # no rule for the second script


@check.sub('null-dummy', st.tuples(st.one_of(gen.small_data, st.sampled_from([b'', b'\0', b'\x80', b'\1'])), st.integers(0, 3), st.booleans()).map(list), quick=300, thorough=3000,
           fixed=lambda: [[d, n, v] for d in (b'', b'\0', b'\x80', b'\1', b'\0\0', b'abc') for n in (0, 1, 3) for v in (False, True)])
def null_dummy(c, k):
    d, n, verify = k
    keys = b'\x00' + b'\x02ab' * n + push_any(S.num_enc(n))
    both(c, push_any(d), keys + (b'\xaf\x51' if verify else b'\xae'), S.NULLDUMMY)
    both(c, push_any(d) + keys, b'\xaf\x51' if verify else b'\xae', S.NULLDUMMY)
    both(c, b'\x51', push_any(d) + keys + (b'\xaf' if verify else b'\xae\x69') + b'\x74\x51\x87', S.NULLDUMMY)
    both(c, push_any(d) + b'\x51', keys + b'\xae\x69\x69' * 1, S.NULLDUMMY)


WHERE = ['live', 'dead', 'else', 'sig', 'branch', 'other branch', 'branch of the first']


@check.sub('discourage', st.tuples(st.integers(176, 185), st.sampled_from(WHERE), flags_any).map(list), quick=300, thorough=3000,
           fixed=lambda: [[n, w, f] for n in [97] + list(range(175, 187)) for w in WHERE for f in (0, S.CLTV)])
def discourage(c, k):
    n, where, fl = k
    fl &= ~(S.DISCOURAGE | S.SIGPUSHONLY)
    tx = {'version': 1, 'inputs': [{'txid': '11' * 32, 'index': 0, 'script': b'', 'seq': 0}], 'outputs': [{'amount': 1, 'script': b''}], 'lock': 100}
    b = bytes([n])
    sig, pk = {'live': (b'\x51', b), 'dead': (b'\x51', b'\x00\x63' + b + b'\x68'), 'else': (b'\x51', b'\x51\x63\x67' + b + b'\x68'), 'sig': (b'\x51' + b, b''),
               'branch': (b'\x51', b'\x51\x63' + b + b'\x68'), 'other branch': (b'\x51', b'\x00\x63\x67' + b + b'\x68'), 'branch of the first': (b'\x51\x51\x63' + b + b'\x68', b'')}[where]
    both(c, sig, pk, S.DISCOURAGE, fl, tx)


T = 500000000
LOCKS = [0, 1, 2, T - 2, T - 1, T, T + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1]
lock = st.one_of(st.sampled_from(LOCKS), st.integers(0, 2 ** 32 - 1))
arg = st.one_of(st.sampled_from(LOCKS + [-1, 2 ** 32, 2 ** 39 - 1, 2 ** 39, -2 ** 31]), st.integers(-5, 2 ** 33)).map(S.num_enc)
SEQ = [0, 1, 0xfffffffe, 0xffffffff, 0x7fffffff, 0x80000000]


def tx_of(lk, seqs):
    return {'version': 1, 'inputs': [{'txid': '%02x' % (i + 1) * 32, 'index': i, 'script': b'', 'seq': s} for i, s in enumerate(seqs)],
            'outputs': [{'amount': 1, 'script': b'\x51'}], 'lock': lk}


@check.sub('lock-time', st.tuples(st.one_of(arg, odd_num, st.just(None)), lock, st.lists(st.sampled_from(SEQ), min_size=1, max_size=3), st.integers(0, 2), flags_any,
                                  st.sampled_from([None, None, 0, 1, -1])).map(list), quick=2500, thorough=60000,
           fixed=lambda: [[S.num_enc(a), l, [s], 0, 0, None] for a in LOCKS + [-1, 2 ** 32, 2 ** 39 - 1, 2 ** 39] for l in LOCKS for s in (0, 0xffffffff)]
           + [[S.num_enc(5), 10, [0xffffffff, 0], n, 0, None] for n in (0, 1)] + [[S.num_enc(5), 10, [0, 0xffffffff], n, 0, None] for n in (0, 1)]
           + [[b, l, [0], 0, f, None] for b in ODD_NUMS + [b'\5\0', b'\5\0\0\0\0', b'\5\0\0\0\0\0'] for l in (0, 10, T) for f in (0, S.MINIMALDATA)])
def lock_time(c, k):
    a, lk, seqs, n, fl, rel = k
    n %= len(seqs)
    if rel is not None:
        a = S.num_enc(lk + rel)
    fl &= ~(S.CLTV | S.SIGPUSHONLY)
    tx = tx_of(lk, seqs)
    sig = push_any(a) if a is not None else b''
    m, _ = both(c, sig, b'\xb1' + (b'\x75' if a is not None else b'') + b'\x51', S.CLTV, fl, tx, n)
    both(c, sig, b'\xb1', S.CLTV, fl, tx, n)
    if a is not None:
        both(c, b'\x51', b'\x00\x63' + sig + b'\xb1\x68', S.CLTV, fl, tx, n)
        exact(c, b'\xb1', sig, tx, n, fl | S.CLTV)                 # the operand stays on the stack
        # the same rule in the first script and in a redeem script, where the operand may come from either
        both(c, b'\x51' + sig + b'\xb1', b'\x75', S.CLTV, fl, tx, n)
        for r, below in ((b'\xb1\x75\x51', sig), (sig + b'\xb1\x75\x51', b'')):
            both(c, below + S.push(r), gen.p2sh_raw(S.hash160(r)), S.CLTV, fl | S.P2SH, tx, n)
    c.nt('cltv ' + (m.error or 'accepted'))


@check.sub('program', st.tuples(flags_any.flatmap(lambda f: st.tuples(st.just(f), body(max_ops=8, flags=f))), st.lists(push_elem, max_size=4).map(b''.join), st.integers(0, 1)).map(list),
           quick=1500, thorough=60000)
def program(c, k):
    """Any flags on any script: the verdict is the reference's; flags about signatures change nothing without signature checks"""
    (fl, raw), sig, tw = k
    m = judge(c, sig, raw, tx_of(10, [0]), 0, fl)
    exact(c, raw, b'', tx_of(10, [0]), 0, fl, alter=(0, 1))
    sigflags = S.STRICTENC | S.DERSIG | S.LOW_S
    if 'sigop' not in m.seen:
        judge(c, sig, raw, tx_of(10, [0]), 0, fl ^ sigflags)
    if fl & (S.MINIMALDATA | S.CLTV | S.DISCOURAGE):
        c.nt(m.error or 'accepted')


@check.sub('placed', st.tuples(st.one_of(gen.any_push(st.one_of(gen.push_data, st.binary(min_size=1, max_size=1))).map(lambda i: gen.raw_of([i]) + b'\x75'),
                                         st.tuples(st.sampled_from(ODD_NUMS), st.sampled_from(UNARY)).map(lambda t: push_any(t[0]) + bytes([t[1]]) + b'\x75'),
                                         st.integers(176, 185).map(lambda n: b'\x51' + bytes([n]) + b'\x75'),
                                         st.sampled_from([b'\0', b'\1', b'\x80', b'']).map(lambda d: push_any(d) + b'\0\0\xae\x75'),
                                         arg.map(lambda a: push_any(a) + b'\xb1\x75')),
                               context, flags_any, st.integers(0, 2)).map(list), quick=1500, thorough=30000)
def placed(c, k):
    """A rule applies wherever in the script, and in whichever script, what it is about stands"""
    raw, ctx, fl, where = k
    before, after = in_context(raw, ctx)
    full = before + raw + after
    tx = tx_of(10, [0])
    for f in ALL_FLAGS:
        if where == 0:
            both(c, b'\x51', full, f, fl & ~(f | S.SIGPUSHONLY), tx)
        elif where == 1:
            both(c, b'\x51' + full, b'', f, fl & ~(f | S.SIGPUSHONLY), tx)
        elif len(raw + b'\x51') <= 520:
            r = raw + b'\x51'
            both(c, b'\x51' + S.push(r), gen.p2sh_raw(S.hash160(r)), f, (fl | S.P2SH) & ~f, tx)
    c.nt(['second script', 'first script', 'redeem script'][where])


with_known_truth(check)
