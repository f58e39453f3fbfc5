from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.core import Check
from checks.interp import (body, exact, judge, elem, push_any, NUMS, ODD_NUMS, OP, PLAIN, number, push_elem, pin_stack, with_known_truth, context, in_context, counted)

check = Check('C19', 'scripts without signature checks: every opcode on every one of a table of start stacks, numeric operations over pairs '
              'and triples of edge numbers, model-guided programs (with nested conditionals, altstack, PICK/ROLL), split between the two '
              'scripts, op soup; the whole final stack is compared, through the verdict of the script with a suffix that pins it; '
              'non-trivial: at least 3 operations were executed by the reference, or the table/number cases')


def stacks():
    out = [[], [b''], [b'\1'], [b'\0'], [b'\x80'], [b'\x81'], [b'abc'], [b'\1', b'\1'], [b'\1', b''], [b'', b'\1'], [b'a', b'b'],
           [b'\2', b'\1'], [b'\1', b'\2', b'\3'], [b'a', b'b', b'c', b'd'], [b'a', b'b', b'c', b'd', b'e'],
           [b'a', b'b', b'c', b'd', b'e', b'f'], [b'g', b'a', b'b', b'c', b'd', b'e', b'f'], [b'a', b'b', b'c', b'\1'],
           [b'a', b'b', b'c', b'\2'], [b'a', b'b', b'c', b'\3'], [b'a', b'b', b'c', b''], [b'a', b'b', b'c', b'\x81'],
           [b'\5', b'\5', b'\6'], [b'\5', b'\4', b'\5'], [b'\5', b'\6', b'\5'], [b'', b'', b''], [b'\xff\xff\xff\x7f'] * 2,
           [b'\xff\xff\xff\xff'] * 2, [b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff'], [b'\0\0\0\0\1', b'\1'], [b'\1', b'\0\0\0\0\1'],
           [b'\1\0', b'\1'], [b'x' * 520], [b'x' * 76, b'x' * 76], [b'x' * 256], [b'\0\1'], [b'\0\x80', b'\x80'], [b'\x80', b'']]
    out += [[bytes([i])] * 3 for i in (3, 16, 17, 127, 128, 255)]
    return out


def all_ops():
    for st_ in stacks():
        for op in list(range(79, 172)) + list(range(176, 256)):
            yield [b''.join(map(push_any, st_)), bytes([op]), 0, 0]


@check.sub('op-table', None, fixed=lambda: list(all_ops()))
def op_table(c, k):
    """Every opcode on every start stack"""
    start, op, i, j = k
    alter = (0, 1)
    exact(c, op, start, alter=alter)
    if op[0] in (OP['IF'], OP['NOTIF']):
        for tail in (b'\x51\x67\x52\x68', b'\x51\x68', b'\x68', b'\x67\x68', b'\x51', b'\x67\x51\x67\x52\x68', b'\x6a\x68', b'\x67\x6a\x68'):
            exact(c, op + tail, start, alter=alter)
    if op[0] == OP['TOALTSTACK']:
        exact(c, op + b'\x52\x6c', start, alter=alter)
        exact(c, op + b'\x6b\x6c\x6c', start, alter=alter)
    c.nt()


BIN = sorted(S.OPS[n] for n in list(S.BINARY) + ['OP_EQUAL', 'OP_EQUALVERIFY'])
UN = sorted(S.OPS[n] for n in list(S.UNARY) + ['OP_IFDUP', 'OP_VERIFY', 'OP_SIZE', 'OP_IF', 'OP_NOTIF'])
operand = st.one_of(number.map(S.num_enc), st.sampled_from(ODD_NUMS), st.binary(max_size=6))


def arith_fixed():
    for a in [S.num_enc(n) for n in NUMS] + ODD_NUMS:
        yield [[a], UN]
    small = [S.num_enc(n) for n in (0, 1, -1, 2, 127, 128, -128, 255, -255, 2 ** 31 - 1, -2 ** 31 + 1)] + [b'\x80', b'\1\0', b'\0\0\0\0\0']
    for a in small:
        for b in small:
            yield [[a, b], BIN]
    nums = [S.num_enc(n) for n in (0, 1, -1, 2, 200, -200, 2 ** 31 - 1, -2 ** 31 + 1)]
    for a in nums:
        for b in nums:
            for x in nums:
                yield [[a, b, x], [OP['WITHIN']]]


@check.sub('numbers', st.one_of(
    st.tuples(st.lists(operand, min_size=1, max_size=1), st.just(UN)), st.tuples(st.lists(operand, min_size=2, max_size=2), st.just(BIN)),
    st.tuples(st.lists(operand, min_size=3, max_size=3), st.just([OP['WITHIN']]))).map(list), quick=800, thorough=20000, fixed=lambda: list(arith_fixed()))
def numbers(c, k):
    args, ops = k
    start = b''.join(map(push_any, args))
    for op in ops:
        b = bytes([op])
        if op in (OP['IF'], OP['NOTIF']):
            b += b'\x52\x67\x53\x68'
        exact(c, b, start, alter=(0, 1))
        judge(c, b'', start + b)
    c.nt('%d operands' % len(args))


@check.sub('program', st.tuples(body(), st.integers(0, 6), st.integers(0, 50)).map(list), quick=5000, thorough=250000)
def program(c, k):
    raw, i, j = k
    m = exact(c, raw, alter=(i, j))
    judge(c, b'', raw)
    if len(m.executed) >= 3:
        c.nt(*[S.NAMES.get(o, 'BAD') for o in set(m.executed)])
    c.label(m.error or 'ran to the end')


@check.sub('split', st.tuples(st.lists(push_elem, max_size=8).map(b''.join), body(max_ops=8), body(max_ops=8), st.booleans()).map(list),
           quick=1500, thorough=60000)
def split(c, k):
    """The first script's stack - not its altstack, conditionals or code - is what the second script starts with."""
    pushes, a, b, raw_sig = k
    sig = pushes + (a if raw_sig else b'')
    pk = b if raw_sig else a
    m = judge(c, sig, pk)
    judge(c, sig + b'\x51', pk)
    if m.error is None or m.error == 'EVAL_FALSE':
        c.nt('ran')
        pin = [bytes(x) for x in m.stack]
        if m.nops + 2 * len(pin) + 2 <= 201:
            judge(c, sig, pk + pin_stack(pin))
            judge(c, sig, pk + pin_stack(pin[:-1] + [b'\7']))
    elif len(m.executed) > 2:
        c.nt('fails')
    c.label(m.error or 'accepted')


@check.sub('soup', st.tuples(st.lists(push_elem, max_size=6).map(b''.join),
                             st.lists(st.one_of(st.sampled_from(PLAIN).map(lambda x: bytes([x])), push_elem, gen.instr.map(lambda i: gen.raw_of([i]))),
                                      max_size=8).map(b''.join)).map(list), quick=3000, thorough=80000)
def soup(c, k):
    m = judge(c, k[0], k[1])
    judge(c, k[0], k[1] + b'\x51')
    judge(c, b'', k[0] + k[1])
    if len(m.executed) >= 3:
        c.nt()
    c.label(m.error or 'accepted')


@check.sub('conditionals', st.lists(st.sampled_from([b'\x63', b'\x64', b'\x67', b'\x68', b'\x68', b'\x51', b'\x00', b'\x52', b'\x80' * 0 + b'\x6a', b'\x50', b'\x7e',
                                                     b'\x65', b'\x62', b'\xba', b'\x01\x80', b'\x74', b'\x75']), max_size=16).map(b''.join),
           quick=2500, thorough=60000)
def conditionals(c, raw):
    """Branches, nesting, ELSE toggling, and which operations are looked at in branches not taken"""
    start = b'\x51\x00\x51\x51\x00\x51'
    m = exact(c, raw, start, alter=(0, 1))
    if raw.count(b'\x63') + raw.count(b'\x64'):
        c.nt(m.error or 'ran to the end')


ALIVE = [b'\x51\x63%s\x68', b'\x00\x64%s\x68', b'\x00\x63\x67%s\x68', b'\x51\x63\x51\x63%s\x68\x68', b'\x51\x63\x67\x67%s\x68']
GONE = [b'\x00\x63%s\x68', b'\x51\x64%s\x68', b'\x51\x63\x67%s\x68', b'\x00\x63\x51\x63%s\x68\x68', b'\x00\x63\x51\x63\x67%s\x68\x68', b'\x00\x63\x00\x64\x67%s\x68\x68',
        b'\x00\x63\x67\x67%s\x68', b'\x51\x63\x00\x63%s\x68\x68', b'\x51\x63\x51\x64%s\x67\x68\x68', b'\x51\x64\x63\x67%s\x68\x68', b'\x00\x63\x63\x63%s\x68\x68\x68',
        b'\x00\x63' + b'\x51\x63' * 8 + b'%s' + b'\x68' * 9]


@check.sub('dead-code', None, fixed=lambda: [[bytes([op]), t] for op in [0] + list(range(79, 256)) for t in GONE] + [
    [p, t] for p in (b'\x01a', b'\x4b' + b'a' * 75, b'\x4c\x00', b'\x4d\x01\x00a', b'\x4e\x01\x00\x00\x00a', S.push(b'x' * 520), b'\x7e\x7f') for t in GONE])
def dead_code(c, k):
    """Every opcode in branches not taken: without effect, unless it may not occur at all"""
    op, t = k
    raw = t % op
    for start in (b'', b'\x58\x57\x56'):
        exact(c, raw, start, alter=(0, 1))
        judge(c, start, raw + b'\x51')
        judge(c, start + raw + b'\x51', b'\x51\x69')
    c.nt()


@check.sub('live-code', None, fixed=lambda: [[bytes([op]), t] for op in list(range(79, 172)) + list(range(176, 256)) for t in ALIVE])
def live_code(c, k):
    """Every opcode in branches taken does what it does alone"""
    op, t = k
    for start in (b'', b'\x53\x53\x53\x53\x52\x52\x51', b'\x03abc\x03abc'):
        exact(c, t % op, start, alter=(0, 1))
    c.nt()


@check.sub('carried-over', None, fixed=lambda: [[a, b] for a in (
    b'\x51\x6b', b'\x52\x51\x6b', b'\x51\x51\x6b\x6b\x52', b'\x51\x51\x63', b'\x51\x00\x63', b'\x51\x51\x63\x67', b'\x51\x51\x64\x67', b'\x51\x63\x68\x51', b'\x51\x61',
    b'\x51\xab', b'\x51\x74', b'\x51\x69\x51', b'\x51' * 6, b'\x00\x51\x6b\x6b') for b in (
    b'', b'\x51', b'\x6c', b'\x6c\x6c', b'\x6c\x51', b'\x68', b'\x51\x68', b'\x67\x51\x68', b'\x67', b'\x51\x63\x68', b'\x51\x63\x51\x68\x68', b'\x74\x52\x87', b'\x74\x51\x87', b'\x74\x53\x87',
    b'\x74', b'\x51\x6b\x6c', b'\x6b\x6c', b'\x6b\x6c\x6c', b'\x51\x51\x6b\x6c\x87', b'\x69\x51')])
def carried_over(c, k):
    """What the first script leaves besides its stack is gone in the second"""
    judge(c, k[0], k[1])
    judge(c, k[0], k[1] + b'\x51')
    judge(c, b'\x51' + k[0], k[1])
    c.nt()


@check.sub('placed', st.tuples(body(max_ops=10), context, st.integers(0, 6), st.integers(0, 50)).map(list), quick=1200, thorough=50000)
def placed(c, k):
    """The same operations deep in a stack, after many others, in nested branches, beside an alternative stack"""
    raw, ctx, i, j = k
    m = S.Machine(None, 0, 0)
    before, after = in_context(raw, ctx)
    judge(c, b'', before + raw + after)
    judge(c, b'\x51', before + raw + after + b'\x51')
    try:
        m.stack = []
        m.eval(raw)
    except S.Fail:
        return
    stack = [bytes(x) for x in m.stack]
    pin = b''.join(push_any(x) + b'\x88' for x in reversed(stack))
    total = before + raw + after + pin
    if counted(total) <= 195:
        for n in (ctx[1], ctx[1] + 1):
            judge(c, b'', total + b'\x74' + push_any(S.num_enc(n)) + b'\x87')
    c.nt('%d below' % ctx[1] if ctx[1] in (0, 255, 256) else 'other depth')


@check.sub('deep', st.tuples(st.integers(1, 1001), st.integers(0, 999)).map(list), quick=150, thorough=3000,
           fixed=lambda: [[n, i] for n in [1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 900, 998] + gen.fresh(1, 998, 8) for i in (0, 1, n - 2, n - 1, n, n + 1, 127, 128, 255, 256)] + [[n, 0] for n in range(996, 1002)])
def deep(c, k):
    """DEPTH, PICK and ROLL on tall stacks whose elements all differ"""
    n, i = k
    start = b''.join(push_any(S.num_enc(x + 1)) for x in range(n))
    if n >= 990:
        for last in (b'', b'\x51', b'\x76', b'\x6e', b'\x6f', b'\x70', b'\x74', b'\x61', b'\x7c', b'\x6f\x6d', b'\x76\x75'):    # what goes over the limit may be the last thing done
            judge(c, b'', start + last)
            judge(c, start, last)
            judge(c, b'', b'\x51\x63' + start + last + b'\x68')
    if n > 998:
        return c.nt('around the limit')
    judge(c, start, b'\x74' + push_any(S.num_enc(n)) + b'\x87')
    judge(c, start, b'\x74' + push_any(S.num_enc(n + 1)) + b'\x87')
    for op in (b'\x79', b'\x7a'):
        go = start + push_any(S.num_enc(i)) + op
        judge(c, b'', go + push_any(S.num_enc(n - i)) + b'\x87')
        judge(c, b'', go + push_any(S.num_enc(n - i + 1)) + b'\x87')
        judge(c, b'', go + b'\x74' + push_any(S.num_enc(n + (op == b'\x79'))) + b'\x88\x75' + push_any(S.num_enc(n - (op == b'\x7a' and i == 0))) + b'\x87')
    c.nt()


@check.sub('long', st.tuples(st.integers(0, 520), st.integers(0, 255), st.integers(0, 3)).map(list), quick=300, thorough=5000,
           fixed=lambda: [[n, n % 251, 0] for n in list(range(0, 130)) + [200, 252, 253, 254, 255, 256, 257, 300, 400, 511, 512, 513, 518, 519, 520] + gen.fresh(0, 520)])
def long_elements(c, k):
    """Sizes, hashes, comparisons and moves of elements of every length"""
    n, v, s = k
    x = (bytes([v]) * n) if s == 0 else gen.filler(n, s)
    y = x[:-1] + bytes([x[-1] ^ 1]) if x else b'\0'
    p, q = push_any(x), push_any(y)
    judge(c, p, b'\x82' + push_any(S.num_enc(n)) + b'\x87')
    judge(c, p, b'\x82' + push_any(S.num_enc(n + 1)) + b'\x87')
    judge(c, p + p, b'\x87')
    judge(c, p + q, b'\x87')
    judge(c, q + p, b'\x88\x51')
    for op in S.HASHES:
        exact(c, bytes([S.OPS[op]]), p, alter=(0, v))
    for op in (0x76, 0x6e, 0x78, 0x7c, 0x7d, 0x77, 0x6b, 0x75, 0x73):
        exact(c, bytes([op]) + (b'\x6c' if op == 0x6b else b''), q + p, alter=(0, v))
    judge(c, p, b'\x63\x51\x67\x00\x68')
    c.nt()


@check.sub('altstack', st.tuples(st.integers(1, 99), st.integers(0, 99), st.integers(0, 3)).map(list), quick=150, thorough=3000,
           fixed=lambda: [[n, n, z] for n in [1, 2, 3, 8, 15, 16, 17, 19, 20, 21, 31, 32, 33, 50, 63, 64, 65, 80, 96, 97] + gen.fresh(1, 97) for z in (0, 1)])
def altstack(c, k):
    """Many elements put aside and brought back, in reverse order, none lost"""
    n, m, below = k
    m = min(m, n, 200 - n)
    start = b'\x51' * below + b''.join(push_any(S.num_enc(x + 1)) for x in range(n))
    go = b'\x6b' * n + b'\x6c' * m
    top = push_any(S.num_enc(m))
    for depth in (below + m, below + m + 1):
        if n + m + 2 <= 200:
            judge(c, start, go + b'\x74' + push_any(S.num_enc(depth)) + b'\x87')
    if m:
        for v in (m if m <= n else 0, n, 1):
            judge(c, start, go + push_any(S.num_enc(n - m + 1)) + b'\x87')
            judge(c, start, b'\x6b' * n + b'\x6c' * m + push_any(S.num_enc(v)) + b'\x87')
    judge(c, start, b'\x6b' * n + b'\x6c' * (n + 1 if 2 * n + 1 < 199 else m) + top)
    c.nt()


MOVES = [b'\x6b', b'\x6b', b'\x6c', b'\x6c', b'\x6d', b'\x6e', b'\x6f', b'\x70', b'\x71', b'\x72', b'\x73', b'\x74', b'\x75', b'\x76', b'\x77', b'\x78', b'\x00\x79', b'\x51\x79', b'\x52\x79', b'\x53\x79', b'\x00\x7a', b'\x51\x7a',
         b'\x52\x7a', b'\x53\x7a', b'\x54\x7a', b'\x7b', b'\x7c', b'\x7d', b'\x82', b'\x87']


@check.sub('shuffle', st.tuples(st.lists(st.integers(0, 3), min_size=3, max_size=9), st.lists(st.sampled_from(MOVES), min_size=1, max_size=12).map(b''.join), st.integers(0, 50)).map(list), quick=3000, thorough=80000,
           fixed=lambda: [[[i >> j & 1 for j in range(6)], m, 0] for i in range(64) for m in sorted(set(MOVES)) + [b'\x6b\x6b\x6b\x6c\x6c\x6c', b'\x6b\x6b\x6b\x6b\x6c\x6b\x6c\x6c\x6c', b'\x6b\x6b\x6b\x6c\x7c\x6c\x6c']])
def shuffle(c, k):
    """Moves of elements of which many are equal: everything that is left is checked"""
    values, raw, alt = k
    exact(c, raw, b''.join((b'\x51', b'\x00', b'\x02\x01\x02', b'\x52')[v] for v in values), alter=(0, alt))
    c.nt()


# computed elements (as opposed to pushed ones), of several sizes
MADE = [b'\x51\x51\x93', b'\x51\x51\x94', b'\x03\xff\xff\x7f\x03\xff\xff\x7f\x93', b'\x04\xff\xff\xff\x7f\x8b', b'\x04\xff\xff\xff\xff\x8c', b'\x04\xff\xff\xff\x7f\x76\x93', b'\x04\x01\x02\x03\x04\x8b', b'\x51\x8f',
        b'\x02\xff\x00\x8b', b'\x01a\xa6', b'\x01a\xa7', b'\x01a\xa8', b'\x00\xa9', b'\x01b\xaa', b'\x01a\x82\x77', b'\x74', b'\x00\x91', b'\x51\x91', b'\x51\x51\x87', b'\x51\x52\x87', b'\x51\x52\xa4', b'\x04\xff\xff\xff\x7f\x04\xff\xff\xff\xff\xa3', b'\x51\x00\x52\xa5']
COPY = [b'\x76', b'\x6e', b'\x6f', b'\x70', b'\x78', b'\x7d', b'\x73', b'\x00\x79', b'\x51\x79', b'\x52\x79', b'\x76\x6b', b'\x61', b'\x7c', b'\x7b', b'\x71', b'\x72', b'\x77', b'\x51\x7a', b'\x52\x7a', b'\x6b\x6c', b'\x6d', b'\x75']
THEN = [b''] + [bytes([x]) for x in UN + BIN + [S.OPS[n] for n in S.HASHES] if x not in (OP['IF'], OP['NOTIF'])] + [b'\x7c', b'\x6e', b'\x6f', b'\x7b', b'\x6b\x8b\x6c']


@check.sub('computed', st.tuples(st.lists(st.sampled_from(MADE), min_size=2, max_size=6).map(b''.join), st.lists(st.sampled_from(COPY), min_size=1, max_size=3).map(b''.join), st.lists(st.sampled_from(THEN), min_size=1, max_size=4).map(b''.join)).map(list),
           quick=3000, thorough=80000, fixed=lambda: [[m * 4, cp, t] for m in MADE for cp in COPY for t in (b'', b'\x8b', b'\x93', b'\xa9')])
def computed(c, k):
    """Moving and copying elements that were computed; what is done to a copy leaves the other copies alone"""
    start, cp, then = k
    m = exact(c, cp + then, start, alter=(0, 1))
    if m.error:
        exact(c, cp, start, alter=(1, 1))
    c.nt(m.error or 'ran to the end')


leaf = st.sampled_from([b'\x51', b'\x52', b'\x53', b'\x74', b'\x76', b'\x00', b'\x61', b'\xb0', b'\x6b', b'\x6a', b'\x50', b'\x62', b'\xba', b'\xac', b'\x89'])
flag = st.sampled_from([b'\x00', b'\x51', b'\x4f', b'\x01\x80', b'\x02\x00\x80', b'\x02\x80\x00', b'\x01\x00', b'\x52', b'\x02\x00\x00', b'\x60', b'\x03abc', b''])


def branch(sub):
    seq = st.lists(sub, max_size=3).map(b''.join)
    return st.tuples(flag, st.sampled_from([b'\x63', b'\x64']), st.lists(seq, min_size=1, max_size=4)).map(
        lambda t: t[0] + t[1] + b'\x67'.join(t[2]) + b'\x68')


tree = st.recursive(leaf, branch, max_leaves=12)


@check.sub('branches', st.lists(branch(tree), min_size=1, max_size=3).map(b''.join), quick=3000, thorough=80000)
def branches(c, raw):
    """Well-formed nested conditionals with any number of ELSE parts, truth values of every form, reserved opcodes in dead code"""
    m = exact(c, raw, b'\x58\x57', alter=(0, 1))
    c.nt(m.error or 'ran to the end')


with_known_truth(check)
