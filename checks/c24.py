from hypothesis import strategies as st
from ref import script as S, enc
from vp import gen
from vp.core import Check
from vp.lib import bf
from checks.interp import (body, push_elem, flags_any, lib_tx, Interpreter, PLAIN, judge, with_known_truth, pin_stack, state_after, push_any)

check = Check('C24', 'histories of 2-8 verifications (programs, soups, limit-breaking and unbalanced scripts, P2SH, any flags, with and without a '
              'transaction) on one interpreter, on new interpreters, and interleaved; single verifications of arbitrary script pairs; '
              'non-trivial: the history holds both accepted and refused verifications')

tx1 = {'version': 1, 'inputs': [{'txid': '11' * 32, 'index': 0, 'script': b'\x51', 'seq': 0}, {'txid': '22' * 32, 'index': 7, 'script': b'', 'seq': 0xffffffff}],
       'outputs': [{'amount': 5, 'script': b'\x51'}], 'lock': 100}
tx2 = {'version': 2, 'inputs': [{'txid': '33' * 32, 'index': 1, 'script': b'', 'seq': 0xffffffff}, {'txid': '44' * 32, 'index': 0, 'script': b'\x51', 'seq': 5}],
       'outputs': [{'amount': 7, 'script': b''}, {'amount': 0, 'script': b'\x6a'}], 'lock': 500000100}
tx3 = {'version': 1, 'inputs': [{'txid': '55' * 32, 'index': 1, 'script': b'', 'seq': 0}, {'txid': '44' * 32, 'index': 0, 'script': b'', 'seq': 0}], 'outputs': [{'amount': 7, 'script': b''}], 'lock': 20}
TXS = [None, tx1, tx2, tx3]
soup = st.lists(st.one_of(st.sampled_from(PLAIN).map(lambda x: bytes([x])), push_elem, gen.instr.map(lambda i: gen.raw_of([i]))), max_size=8).map(b''.join)
redeem = soup.filter(lambda r: 0 < len(r) <= 520)
pair = st.one_of(
    st.tuples(st.lists(push_elem, max_size=5).map(b''.join), body(max_ops=7)),
    st.tuples(soup, soup),
    st.tuples(body(max_ops=6), body(max_ops=6)),
    st.tuples(st.lists(push_elem, max_size=3).map(b''.join), redeem).map(lambda t: (t[0] + S.push(t[1]), gen.p2sh_raw(enc.hash160(t[1])))),
    st.sampled_from([(b'\x51', b'\x63'), (b'\x51\x6b', b'\x6c'), (b'\x51' * 1000, b'\x51'), (b'\x61' * 202, b'\x51'), (b'\x61' * 201, b'\x61' * 201 + b'\x51'),
                     (b'\x51', b''), (b'', b''), (b'', b'\x51'), (b'\x51', b'\x6a'), (b'\x5a', b'\xb1'), (b'\x51\x63', b'\x68\x51'), (b'\x00\x63', b'\x68\x51'),
                     (b'\x51', b'\x51\x87'), (b'\x00', b'\x91'), (b'\x51', b'\x91'), (b'\x00\x00', b'\x87'), (b'\x51\x91', b'\x91'), (b'\x01\xff', b'\x8b\x8c')]))
timed = st.sampled_from([0, 5, 20, 21, 100, 101, 500000000, 500000100, 500000101]).map(lambda n: (push_any(S.num_enc(n)), b'\xb1\x51'))
call = st.tuples(st.one_of(pair, pair, pair, timed), flags_any, st.integers(0, 3), st.integers(0, 1)).map(
    lambda t: [t[0][0], t[0][1], t[1] | (S.CLTV if t[0][1] == b'\xb1\x51' and t[1] % 3 else 0), t[2], t[3] if t[2] else 0])


def run(interp, k):
    sig, pk, fl, with_tx, n = k
    s, p, t = bf.Script.from_bytes(sig), bf.Script.from_bytes(pk), lib_tx(TXS[with_tx])
    return interp.verify(s, p, t, n, fl)


@check.sub('history', st.lists(call, min_size=2, max_size=8), quick=700, thorough=20000)
def history(c, calls):
    """The verdict of a verification does not depend on those made before it, on the same interpreter or another one"""
    shared = Interpreter()
    alone = [run(Interpreter(), k) for k in calls]
    for v in alone:
        c.ok(v is True or v is False, 'verdict is not a boolean', v)
    c.eq([run(shared, k) for k in calls], alone, 'verdicts on one interpreter')
    c.eq([run(shared, k) for k in reversed(calls)], alone[::-1], 'verdicts on the same interpreter, in reverse order')
    c.eq([run(Interpreter(), k) for k in calls], alone, 'verdicts when repeated')
    others = [Interpreter() for _ in calls]
    c.eq([run(i, k) for i, k in zip(others, calls)], alone, 'verdicts on interpreters made beforehand')
    for k in calls:
        judge(c, k[0], k[1], TXS[k[3]], k[4], k[2], got=alone[calls.index(k)])
    if True in alone and False in alone:
        c.nt('%d calls' % len(calls))


@check.sub('pure', call, quick=1500, thorough=30000)
def pure(c, k):
    """Verifying changes neither the scripts nor the transaction, and never raises"""
    sig, pk, fl, with_tx, n = k
    s, p, t = bf.Script.from_bytes(sig), bf.Script.from_bytes(pk), lib_tx(TXS[with_tx] or tx1)
    before = (s.to_bytes(), p.to_bytes(), t.to_bytes(), s.instructions, p.instructions, t.get_id())
    a = Interpreter().verify(s, p, t, n, fl)
    b = Interpreter().verify(s, p, t, n, fl)
    c.ok(a is b and a in (True, False), 'verdicts of the same objects', a, b)
    c.eq((s.to_bytes(), p.to_bytes(), t.to_bytes(), s.instructions, p.instructions, t.get_id()), before, 'arguments after verifying')
    c.eq(bf.Script.from_bytes(sig).instructions == s.instructions, True, 'instructions are unchanged')
    # one script object used for both parts
    x = Interpreter().verify(p, p, t, n, fl)
    c.eq(x, Interpreter().verify(bf.Script.from_bytes(pk), bf.Script.from_bytes(pk), t, n, fl), 'verdict with one script used twice')
    c.nt('accepted' if a else 'refused')


@check.sub('total', st.tuples(st.binary(max_size=40), st.binary(max_size=60), flags_any).map(list), quick=3000, thorough=100000)
def total(c, k):
    """Arbitrary bytes that parse as scripts get a boolean verdict"""
    a, b, fl = k
    if S.parse(a) is None:
        a = b'\x51'
    if S.parse(b) is None:
        b = S.push(b)
    judge(c, a, b, None, 0, fl)
    if len(a) > 2 and len(b) > 2:
        c.nt()


@check.sub('position', st.tuples(call, st.sampled_from([2, 3, 7, 255, 1000, 2 ** 32])).map(list), quick=400, thorough=8000)
def position(c, t):
    """A position at which the transaction has no input gets a verdict too, the same one unless the input is looked at"""
    (sig, pk, fl, with_tx, _), n = t
    got = run(Interpreter(), [sig, pk, fl, with_tx, n])
    c.ok(got is True or got is False, 'verdict is not a boolean', got)
    if not any(bytes([op]) in sig + pk for op in (0xb1, 0xac, 0xad, 0xae, 0xaf)):
        c.eq(got, run(Interpreter(), [sig, pk, fl, with_tx, 0]), 'verdict at position %d of scripts that do not look at the input' % n)
    c.nt('accepted' if got else 'refused')


def varied(raw, i, j):
    """the same script but for one instruction: a byte of its data, or the operation"""
    p = S.parse(raw)
    if not p:
        return b'\x51'
    out = []
    for n, (op, d) in enumerate(x[:2] for x in S.parse(raw)):
        if n == i % len(p):
            if d:
                k = j % len(d)
                d = d[:k] + bytes([d[k] ^ (1 << j % 8)]) + d[k + 1:]
            elif d is None:
                op = [0x51, 0x00, 0x61, 0x75, 0x76, 0x91, 0x8b, 0x69, op ^ 1][j % 9]
                if 1 <= op <= 78:
                    op = 0x60
        out.append(bytes([op]) if d is None else gen.raw_of([['push', op, d]]))
    return b''.join(out)


@check.sub('family', st.fixed_dictionaries({'body': body(max_ops=6, wild=3), 'alters': st.lists(st.tuples(st.integers(0, 60), st.integers(0, 63)).map(list), min_size=1, max_size=3), 'how': st.integers(0, 2),
                                            'flags': flags_any, 'order': st.lists(st.integers(0, 99), min_size=4, max_size=14), 'tx': st.integers(0, 3), 'n': st.integers(0, 1)}), quick=500, thorough=15000)
def family(c, t):
    """Verifications that resemble one another (one instruction, element, flag, lock time or input position differs), in any order and again: each gets the verdict it gets alone"""
    m, alive = state_after(t['body'])
    if not alive or m.cond or len(m.stack) > 60:
        return
    stack = [bytes(x) for x in m.stack]
    tails = [pin_stack(stack)]
    for i, j in t['alters']:
        if stack:
            x = stack[i % len(stack)]
            x = x[:j % len(x)] + bytes([x[j % len(x)] ^ 1 << j % 8]) + x[j % len(x) + 1:] if x else b'\1'
            tails.append(pin_stack(stack[:i % len(stack)] + [x] + stack[i % len(stack) + 1:]))
        tails.append(varied(tails[0], i, j))
    bodies = [t['body']] + [varied(t['body'], i, j) for i, j in t['alters']]
    fl, tx, n = t['flags'], t['tx'], t['n'] if t['tx'] else 0
    if t['how'] == 0:
        calls = [(b'', b + x, fl, tx, n) for b in bodies[:1] for x in tails] + [(b'', b + tails[0], fl, tx, n) for b in bodies[1:]]
    elif t['how'] == 1:
        calls = [(bodies[0], x, fl, tx, n) for x in tails] + [(b, tails[0], fl, tx, n) for b in bodies[1:]]
    else:
        fl |= S.P2SH
        rs = [bodies[0] + x for x in tails] + [b + tails[0] for b in bodies[1:]]
        rs = [r for r in rs if len(r) <= 520] or [b'\x51', b'\x00']
        calls = [(S.push(r), gen.p2sh_raw(enc.hash160(r)), fl, tx, n) for r in rs] + [(S.push(rs[0]), gen.p2sh_raw(enc.hash160(rs[-1])), fl, tx, n)]
    s, p = calls[0][:2]
    calls += [(s, p, fl ^ S.P2SH, tx, n), (s, p, fl ^ S.MINIMALDATA, tx, n), (s, p + b'\x61', fl, tx, n), (s + b'\x61', p, fl, tx, n), (p, s, fl, tx, n),
              (s, p + b'\x64\xb1\xb1\x68\x51' if t['order'][0] % 2 else p + b'\xb1', fl | S.CLTV, tx, n)]
    calls += [(s, calls[-1][1], fl | S.CLTV, x, y) for x, y in ((1, 0), (1, 1), (3, 0))]
    want = {}
    for k in calls:
        if k not in want and len(want) < 40:
            mm = S.Machine(TXS[k[3]], k[4], k[2])
            want[k] = mm
            mm.verdict = mm.verify(k[0], k[1])
    shared = Interpreter()
    seen = set()
    for o in t['order']:
        k = calls[o % len(calls)]
        for machine in ((shared, Interpreter()) if o % 2 else (Interpreter(), shared)):
            judge(c, k[0], k[1], TXS[k[3]], k[4], k[2], got=run(machine, list(k)))
        seen.add(want[k].verdict)
    if len(seen) == 2:
        c.nt(['one script', 'two scripts', 'P2SH'][t['how']])


# verifications that show the exact bytes of the interpreter's constants, and where its limits are
CANARIES = [(b'\x51\x52\x87', b'\x82\x9c'), (b'\x51\x52\x87', b'\x00\x87'), (b'\x51\x51\x87', b'\x01\x01\x87'), (b'\x00', b'\x82\x00\x87'), (b'\x4f', b'\x01\x81\x87'), (b'\x60', b'\x01\x10\x87'),
            (b'\x51\x91', b'\x00\x87'), (b'\x00\x91', b'\x01\x01\x87'), (b'\x51\x51\x52\xa5', b'\x01\x01\x87'), (b'\x51\x52\x53\xa5', b'\x00\x87'), (b'\x00\x00\x00\xae', b'\x01\x01\x87'),
            (b'', b'\x74\x00\x87'), (b'\x51\x51\x51', b'\x74\x53\x9c'), (b'\x51', b'\x61' * 201), (b'\x51', b'\x61' * 202), (b'\x51' * 1000, b'\x69'), (b'\x51' * 1000, b'\x51'),
            (b'\x51', S.push(b'x' * 520) + b'\x75'), (b'\x51', S.push(b'x' * 521) + b'\x75'), (b'\x51\x6b', b'\x6c'), (b'\x00', b'\x63\x67\x51\x68'), (b'\x51', b'\xb1'), (b'\x51', b'\xb0'),
            (S.push(b'\x51'), gen.p2sh_raw(enc.hash160(b'\x51'))), (S.push(b'\x00'), gen.p2sh_raw(enc.hash160(b'\x00'))), (b'\x02\xff\x7f', b'\x8b\x03\x00\x80\x00\x87'), (b'\x01\x80', b'\x91')]
CANARY_FLAGS = [0, S.P2SH, S.MINIMALDATA | S.P2SH, S.NULLDUMMY | S.DISCOURAGE | S.CLTV]
BIG = S.push(gen.filler(520, 1))
OPERANDS = [b'', b'\x51' * 6, b'\x00' * 6, BIG * 6, b'\x04\xff\xff\xff\x7f' * 6, b'\x04\xff\xff\xff\xff' * 6, b'\x01\x80' * 6, b'\x51' * 990, b'\x03\x01\x02\x03' * 5 + b'\x00', BIG + b'\x00' * 5]


@check.sub('canaries', st.tuples(pair.map(list), flags_any).map(list), quick=60, thorough=3000,
           fixed=lambda: [[[a, bytes([op])], f] for op in PLAIN + [0xac, 0xad, 0xae, 0xaf] for n, a in enumerate(OPERANDS) for f in ((0,) if n > 1 else (0, 0x3ff))])
def canaries(c, k):
    """Whatever was verified before, with whatever operands, the next verifications still go by the same constants and limits"""
    (a, b), fl = k
    shared = Interpreter()
    got = run(shared, [a, b, fl, 1, 0])
    c.ok(got is True or got is False, 'verdict is not a boolean', got)
    for n, (s, p) in enumerate(CANARIES):
        if len(s) + len(p) > 180 and n % 4 != len(a) % 4:
            continue
        f = CANARY_FLAGS[(n + len(b)) % 4]
        judge(c, s, p, tx1, 0, f, got=run(shared, [s, p, f, 1, 0]))
        judge(c, s, p, tx1, 0, f, got=run(Interpreter(), [s, p, f, 1, 0]))
    c.nt('accepted' if got else 'refused')


@check.sub('redeem', None, fixed=lambda: list(range(256)))
def short_redeem(c, a):
    """A redeem script of one or two bytes, or one that is none: always a verdict"""
    for r in [bytes([a])] + [bytes([a, b]) for b in ((0, 1, 2, 0x4b, 0x4c, 0x4d, 0x4e, 0x51, 0x61, 0x63, 0x68, 0x6a, 0xac, 0xff))]:
        for fl in (0, S.P2SH, 0x3ff & ~S.MINIMALDATA):
            judge(c, b'\x51\x51' + S.push(r), gen.p2sh_raw(enc.hash160(r)), None, 0, fl)
    c.nt()


with_known_truth(check)
