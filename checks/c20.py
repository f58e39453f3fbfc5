from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.core import Check
from checks.interp import judge, push_any, OP, counted, flags_any

check = Check('C20', 'scripts sized at and around each limit: 10000 bytes of script, 520 bytes per pushed element, 201 counted operations '
              '(executed or not, multisig keys included), 1000 elements on both stacks together, 4-byte operands; non-trivial: within '
              '3 of a limit')


def near(n, spread=3):
    some = gen.fresh(spread + 64, n - spread)
    return st.one_of(st.sampled_from([n - 1, n, n + 1]), st.integers(n - spread, n + spread), *([st.sampled_from(some)] if some else []))


def pad_to(total, style):
    """a script of exactly `total` bytes that leaves a true value, made of few elements (PUSHDATA2 of 500 bytes dropped in pairs)"""
    unit = S.push(b'\1' * 500) + b'\x75'
    out = b''
    while len(out) + len(unit) + 80 < total:
        out += unit
    rest = total - len(out) - 1
    while rest > 0:
        n = min(rest, 75)
        if rest - n == 1:
            n -= 1
        out += (b'\x51' if n == 1 else bytes([n - 1]) + b'\1' * (n - 1))
        rest -= n
    out += b'\x51'
    assert len(out) == total
    return out


@check.sub('script-size', st.tuples(near(10000, 40), st.sampled_from(['sig', 'pubkey', 'dead'])).map(list), quick=60, thorough=1500,
           fixed=lambda: [[n, w] for n in (9998, 9999, 10000, 10001, 10002, 10500, 20000) for w in ('sig', 'pubkey', 'dead')])
def script_size(c, k):
    n, where = k
    raw = pad_to(n, 0)
    if where == 'dead':
        # the oversized part sits in a branch that is never taken: the size still counts
        raw = b'\x00\x63' + pad_to(n - 4, 0) + b'\x68\x51'
    m = judge(c, raw, b'\x51') if where == 'sig' else judge(c, b'\x51', raw)
    c.ref((m.error == 'SCRIPT_SIZE') == (n > 10000), 'reference: ' + str(m.error))
    c.nt(m.error or 'accepted')


@check.sub('element-size', st.tuples(near(520, 8), st.sampled_from([76, 77, 78]), st.sampled_from(['sig', 'pubkey', 'dead', 'hash'])).map(list), quick=200, thorough=3000,
           fixed=lambda: [[n, o, w] for n in (518, 519, 520, 521, 522, 600, 1000, 9000) for o in (77, 78) for w in ('sig', 'pubkey', 'dead', 'hash')])
def element_size(c, k):
    n, op, where = k
    if op == 76:
        n = n % 256
    p = S.push_with(op, b'\1' * n)
    if where == 'sig':
        m = judge(c, p, b'\x51')
    elif where == 'pubkey':
        m = judge(c, b'\x51', p)
    elif where == 'hash':
        m = judge(c, p, b'\xa9' + S.push(S.hash160(b'\1' * n)) + b'\x87')
    else:
        m = judge(c, b'', b'\x51\x00\x63' + p + b'\x68')
    c.ref((m.error == 'PUSH_SIZE') == (n > 520), 'reference: ' + str(m.error))
    c.nt(m.error or 'accepted')


OPKINDS = {'nop': b'\x61', 'nop1': b'\xb0', 'dup': b'\x76\x75', 'if': b'\x51\x63\x68', 'reserved': b'\x61', 'codesep': b'\xab', 'hash': b'\xa9'}


@check.sub('op-count', st.tuples(near(201, 5), st.sampled_from(sorted(OPKINDS)), st.booleans(), st.integers(0, 20), st.booleans()).map(list), quick=400, thorough=6000,
           fixed=lambda: [[n, kd, dead, keys, sig] for n in (200, 201, 202) for kd in sorted(OPKINDS) for dead in (False, True) for keys in (0, 1, 20) for sig in (False, True)])
def op_count(c, k):
    """n counted operations in one script; each multisig key counts as one more; pushes and small numbers never count; counts are
    per script, and operations in branches not taken count too"""
    n, kind, dead, keys, in_sig = k
    unit = OPKINDS[kind]
    per = sum(1 for i in S.parse(unit) if i[0] > 96)
    left = n
    raw = b'\x51'
    if keys:
        raw = b'\x00\x00' + b'\x51' * keys + push_any(S.num_enc(keys)) + b'\xae'
        left -= keys + 1
    if dead:
        raw += b'\x00\x63'
        left -= 2
    while left >= per:
        raw += unit
        left -= per
    raw += b'\x61' * left
    if dead:
        raw += b'\x68'
    raw += b'\x50' * 0 + b'\x51\x52\x60\x00\x51' if not dead else b'\x51'
    m = judge(c, raw, b'\x51') if in_sig else judge(c, b'\x51', raw)
    if not (dead and kind == 'if'):
        c.ref((m.error == 'OP_COUNT') == (n > 201), 'reference: %s' % m.error)
    judge(c, b'\x61' * (401 - min(n, 201)), raw)
    judge(c, b'\x61' * (n - 1), raw)
    c.nt(m.error or 'accepted')


@check.sub('p2sh-count', st.tuples(near(201, 4), st.integers(0, 201), st.booleans()).map(list), quick=60, thorough=600,
           fixed=lambda: [[n, g, d] for n in (198, 199, 200, 201, 202) for g in (0, 1, 198, 199, 200) for d in (False, True)])
def p2sh_count(c, k):
    """A redeem script has an operation count and a size of its own, and its stack starts with the elements below it"""
    n, below, dead = k
    r = b'\x51' + (b'\x00\x63' + b'\x61' * (n - 2) + b'\x68' if dead else b'\x61' * n)
    m = judge(c, b'\x51' * below + S.push(r), gen.p2sh_raw(S.hash160(r)), None, 0, S.P2SH)
    judge(c, b'\x51' * below + S.push(r), gen.p2sh_raw(S.hash160(r)), None, 0, 0)
    if not dead:
        c.ref((m.error == 'OP_COUNT') == (n > 201), 'reference: %s' % m.error)
    t = b'\x51' * 30
    judge(c, b'\x51' * (n + 770 - 2) + S.push(t), gen.p2sh_raw(S.hash160(t)), None, 0, S.P2SH)
    c.nt(m.error or 'accepted')


@check.sub('key-count', st.tuples(st.integers(18, 23), st.integers(0, 201), st.booleans()).map(list), quick=40, thorough=400, fixed=lambda: [[n, o, v] for n in range(0, 24) for o in (0, 179, 180, 181, 182) for v in (False, True)])
def key_count(c, k):
    """At most 20 keys in a multisig check, each counted as an operation"""
    n, ops, verify = k
    raw = b'\x00\x00' + b'\x51' * n + push_any(S.num_enc(n)) + (b'\xaf\x51' if verify else b'\xae')
    m = judge(c, b'', b'\x61' * ops + raw)
    judge(c, b'', raw + b'\x61' * ops)
    c.nt(m.error or 'accepted')


@check.sub('reserved-count', st.tuples(near(201, 3), st.integers(0, 30)).map(list), quick=60, thorough=600, fixed=lambda: [[201, 1], [202, 1], [201, 30]])
def reserved_count(c, k):
    """OP_RESERVED, pushes and numbers in a dead branch do not count as operations"""
    n, r = k
    raw = b'\x51\x00\x63' + b'\x50' * r + b'\x60\x02ab' * r + b'\x61' * (n - 2) + b'\x68'
    m = judge(c, b'', raw)
    c.ref((m.error == 'OP_COUNT') == (n > 201), 'reference: %s' % m.error)
    c.nt(m.error or 'accepted')


GROW = {'1': (1, b'\x51'), '2dup': (2, b'\x6e'), '3dup': (3, b'\x6f'), 'dup': (1, b'\x76'), 'push': (1, b'\x01a'), 'depth': (1, b'\x74'), 'size': (1, b'\x82'),
        'over': (1, b'\x78'), 'tuck': (1, b'\x7d'), 'ifdup': (1, b'\x73'), '2over': (2, b'\x70')}


@check.sub('stack-size', st.tuples(near(1000, 4), st.sampled_from(sorted(GROW)), st.integers(0, 60), st.sampled_from(['back', 'stay']), st.booleans()).map(list), quick=250, thorough=4000,
           fixed=lambda: [[n, g, a, 'back', s] for n in (999, 1000, 1001, 1002, 1003) for g in sorted(GROW) for a in (0, 1, 40) for s in (False, True)])
def stack_size(c, k):
    """n elements at once, `a` of them on the alternative stack; brought there by each operation that can add elements; more than
    1000 fails even when they would be dropped again"""
    n, g, a, fin, in_sig = k
    add, op = GROW[g]
    base = n - add
    raw = b'\x51' * (base - 0)
    raw += b'\x6b' * a + op
    m = S.Machine()
    drop = b'\x6d' * 3
    judge_fn = (lambda r: judge(c, r, b'')) if in_sig else (lambda r: judge(c, b'\x51', r[1:]))
    m = judge_fn(raw)
    m2 = judge_fn(raw + drop)
    c.ref((m.error == 'STACK_SIZE') == (n > 1000), 'reference: %s' % m.error)
    c.ref((m2.error == 'STACK_SIZE') == (n > 1000), 'reference: %s' % m2.error)
    c.nt(m.error or 'accepted')


@check.sub('split-stack', st.tuples(st.integers(1, 1000), near(1000)).map(list), quick=60, thorough=1000, fixed=lambda: [[500, 1000], [500, 1001], [999, 1000], [1000, 1001]])
def split_stack(c, k):
    """The elements left by the first script count in the second"""
    a, n = k
    m = judge(c, b'\x51' * a, b'\x51' * (n - a))
    c.ref((m.error == 'STACK_SIZE') == (n > 1000), 'reference: %s' % m.error)
    # elements the first script leaves on its alternative stack are gone in the second
    if a > 40:
        judge(c, b'\x51' * a + b'\x6b' * 30, b'\x51' * (n - a + 30))
        judge(c, b'\x51' * a + b'\x6b' * 30, b'\x51' * (n - a))
    c.nt(m.error or 'accepted')


@check.sub('inside', st.tuples(st.sampled_from(['stack', 'alt', 'ops', 'element', 'size']), st.integers(-2, 3), st.integers(1, 60), st.integers(0, 7), flags_any).map(list), quick=250, thorough=5000,
           fixed=lambda: [[w, d, k, h, f] for w in ('stack', 'alt', 'ops', 'element', 'size') for d in (0, 1) for k in (1, 2, 50) for h in range(8) for f in (0, 0x3ff & ~S.MINIMALDATA)])
def inside(c, t):
    """The limits are the same within open conditionals (taken by IF, NOTIF or ELSE), after a code separator, and with any flags"""
    what, d, k, how, fl = t
    opens = [b'\x51\x63', b'\x00\x64', b'\x00\x63\x67', b'\x51\x64\x67'][how % 4]
    head = (b'\xab' if how & 4 else b'') + opens * k
    if what == 'ops':
        n = 201 + d - counted(head) - k
        if n < 0:
            return
        raw = head + b'\x61' * n + b'\x51'
    elif what == 'stack':
        raw = b'\x51' * (990 + d) + head + b'\x51' * 9
    elif what == 'alt':
        raw = b'\x51' * (990 + d) + head + b'\x51' * 5 + b'\x6b' * 5 + b'\x51' * 4
    elif what == 'element':
        raw = head + S.push(gen.filler(520 + d, 1))
    else:
        raw = head + pad_to(10000 + d - len(head) - k, 0)
    raw += b'\x68' * k
    m = judge(c, b'\x51', raw, None, 0, fl)
    if what != 'ops' and m.error != 'OP_COUNT':
        c.ref((m.error in ('STACK_SIZE', 'PUSH_SIZE', 'SCRIPT_SIZE')) == (d > 0), 'reference: %s %s' % (m.error, t))
    judge(c, raw, b'\x51', None, 0, fl & ~S.SIGPUSHONLY)
    c.nt(what, m.error or 'accepted')


NUMOPS = sorted(S.OPS[n] for n in list(S.UNARY) + list(S.BINARY)) + [OP['WITHIN'], OP['PICK'], OP['ROLL']]


@check.sub('operand-size', st.tuples(st.sampled_from(NUMOPS), st.integers(0, 2), st.integers(3, 6)).map(list), quick=100, thorough=1000,
           fixed=lambda: [[o, p, n] for o in NUMOPS for p in range(3) for n in (4, 5)])
def operand_size(c, k):
    """A numeric operand of 5 bytes or more fails the script wherever it stands; results may be larger than 4 bytes"""
    op, pos, n = k
    ar = 1 if op in [S.OPS[x] for x in S.UNARY] else 3 if op == OP['WITHIN'] else 2
    args = [b'\1'] * ar
    if op in (OP['PICK'], OP['ROLL']):
        args = [b'\1', b'\0' * n]
        pos = 1
    else:
        args[pos % ar] = b'\1' + b'\0' * (n - 1)
    raw = b''.join(map(push_any, args)) + bytes([op]) + b'\x51'
    m = judge(c, b'\x51', raw)
    if n >= 5:
        c.ref(m.error == 'NUM_SIZE', 'reference')
    big = b'\x04\xff\xff\xff\x7f\x8b'                      # 2^31-1 1ADD: a 5-byte result
    judge(c, big, b'\x05\0\0\0\x80\0\x87')
    judge(c, big, b'\x8c')                                # ... which is no operand any more
    c.nt(m.error or 'accepted')
