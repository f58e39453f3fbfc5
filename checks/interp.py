"""Shared by the interpreter checks: running both interpreters, known findings, and model-guided script generation."""
from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.lib import bf
from bitforge.script.interpreter import Interpreter

OP = dict((k[3:], v) for k, v in S.OPS.items())
ALL_FLAGS = [S.P2SH, S.STRICTENC, S.DERSIG, S.LOW_S, S.NULLDUMMY, S.SIGPUSHONLY, S.MINIMALDATA, S.DISCOURAGE, S.CLTV]
flags_any = st.one_of(st.just(0), st.just(S.P2SH), st.integers(0, 511).map(lambda m: sum(f for i, f in enumerate(ALL_FLAGS) if m >> i & 1)))
MAXOPS = 201


def lib_tx(tx):
    if tx is None:
        return None
    return bf.Transaction(
        [bf.Input(i['txid'], i['index'], bf.Script.from_bytes(i['script']), i['seq']) for i in tx['inputs']],
        [bf.Output(o['amount'], bf.Script.from_bytes(o['script'])) for o in tx['outputs']], tx['lock'], tx['version'])


def lib_verify(sig, pk, tx=None, nin=0, flags=0, machine=None):
    return (machine or Interpreter()).verify(bf.Script.from_bytes(sig), bf.Script.from_bytes(pk), lib_tx(tx), nin, flags)


def judge(c, sig, pk, tx=None, nin=0, flags=0, got=None, sigops=False):
    """The library's verdict is the reference's (up to the two recorded findings). Returns the reference machine."""
    m = S.Machine(tx, nin, flags)
    want = m.verify(sig, pk)
    if got is None:
        got = lib_verify(sig, pk, tx, nin, flags)
    c.ok(got is True or got is False, 'verdict is not a boolean', got)
    if got != want:
        if 'leading-zero-truth' in m.seen:
            l = S.Machine(tx, nin, flags, loose_zero=True)
            lw = l.verify(sig, pk)
            if got == lw or (lw and not got and 'sigop' in l.seen):
                c.known('truth-leading-zero')
                return m
        if want and not got and 'sigop' in m.seen:
            # every signature check fails closed: recorded under C23, outside the domain of the other properties
            c.known('checksig-unimplemented') if sigops else c.label('signature check reached')
            return m
        c.fail('script verdict: got %s, expected %s (%s), flags %d, scriptSig %s, scriptPubKey %s' % (
            got, want, m.error or 'accepted', flags, sig.hex()[:400], pk.hex()[:400]))
    return m


def push_any(d):
    """A push of d that also satisfies MINIMALDATA"""
    if len(d) == 0:
        return b'\0'
    if len(d) == 1 and 1 <= d[0] <= 16:
        return bytes([80 + d[0]])
    if d == b'\x81':
        return b'\x4f'
    return S.push(d)


def pin_stack(stack):
    """A script that accepts exactly when the stack it starts with is `stack` (consumes it)."""
    out = b''.join(push_any(bytes(d)) + b'\x88' for d in reversed(stack))
    return out + b'\x74\x00\x87'


def exact(c, body, start=b'', tx=None, nin=0, flags=0, alter=None):
    """When the reference runs `start` + `body` to the end, the library must end with exactly the same stack: seen through
    verdicts only, by appending a script that pins every element. alter=(i, j): also, a pin with one element altered
    must be refused. When the reference fails, the library must refuse body + anything."""
    m = S.Machine(tx, nin, flags)
    m.stack = []
    try:
        m.eval(start + body)
    except S.Fail as e:
        m.error = str(e)
    if m.error:
        judge(c, b'', start + body, tx, nin, flags)
        judge(c, b'', start + body + b'\x51', tx, nin, flags)
        return m
    stack = [bytes(x) for x in m.stack]
    m.final = stack
    if m.nops + 2 * len(stack) + 2 > MAXOPS:
        judge(c, b'', start + body, tx, nin, flags)
        return m
    m2 = judge(c, b'', start + body + pin_stack(stack), tx, nin, flags)
    c.ref(m2.error is None or 'PUSH' in m2.error or 'SIZE' in m2.error or flags, 'reference: pinned script failed ' + str(m2.error))
    if alter is not None:
        i, j = alter
        if stack:
            i %= len(stack)
            x = bytearray(stack[i])
            if x and j % 3:
                x[j % len(x)] ^= 1 << (j % 8)
            elif len(x) < 520:
                x.append(j % 256)
            else:
                x.pop()
            judge(c, b'', start + body + pin_stack(stack[:i] + [bytes(x)] + stack[i + 1:]), tx, nin, flags)
            judge(c, b'', start + body + pin_stack(stack[1:]), tx, nin, flags)
        judge(c, b'', start + body + pin_stack([b'\1'] + stack), tx, nin, flags)
    return m


# ------------------------------------------------------------------ generation

NUMS = [0, 1, -1, 2, -2, 3, 4, 5, 16, 17, 127, -127, 128, -128, 129, 255, -255, 256, -256, 32767, -32767, 32768, -32768, 65535,
        65536, 8388607, 8388608, -8388608, 2 ** 31 - 1, -2 ** 31 + 1, 2 ** 31 - 2, -2 ** 31 + 2]
ODD_NUMS = [b'\x80', b'\0', b'\0\0', b'\0\x80', b'\1\0', b'\1\x80', b'\xff\0', b'\xff\x80', b'\0\0\0\x80', b'\0\0\0\0',
            b'\0\0\0\x80\0', b'\0\0\0\x80\x80', b'\xff\xff\xff\xff\0', b'\1\0\0\0\0', b'\x80\0\0\0', b'\xff\xff\xff\xff',
            b'\xff\xff\xff\x7f', b'\x80\x80', b'\x80\0']
number = gen.mined(-2 ** 31 + 1, 2 ** 31 - 1, st.sampled_from(NUMS), st.sampled_from(NUMS), st.integers(-2 ** 31 + 1, 2 ** 31 - 1), st.integers(-20, 20))
elem = st.one_of(
    number.map(S.num_enc), st.integers(0, 8).map(S.num_enc), st.sampled_from([b'', b'\1', b'\1', b'\2', b'\x81']),
    st.sampled_from(ODD_NUMS), gen.small_data, gen.data_of_len(gen.EDGE_LENS[:-1]))
push_elem = elem.map(push_any)

ARITY = {}
for _n, (_k, _o) in S.STACKOPS.items():
    ARITY[_n] = _k
for _n in S.UNARY:
    ARITY[_n] = 1
for _n in S.BINARY:
    ARITY[_n] = 2
for _n in S.HASHES:
    ARITY[_n] = 1
ARITY.update({'OP_WITHIN': 3, 'OP_EQUAL': 2, 'OP_EQUALVERIFY': 2, 'OP_SIZE': 1, 'OP_IFDUP': 1, 'OP_DEPTH': 0, 'OP_PICK': 2,
              'OP_ROLL': 2, 'OP_VERIFY': 1, 'OP_TOALTSTACK': 1, 'OP_NOP': 0, 'OP_NOP1': 0, 'OP_NOP3': 0, 'OP_NOP10': 0,
              'OP_CODESEPARATOR': 0, 'OP_CHECKLOCKTIMEVERIFY': 0, 'OP_FROMALTSTACK': 0})
NUMERIC = set(S.UNARY) | set(S.BINARY) | {'OP_WITHIN', 'OP_PICK', 'OP_ROLL'}
PLAIN = [n for n in range(97, 256)]
DEAD = [0x51, 0x00, 0x61, 0x6a, 0x50, 0x62, 0x69, 0x88, 0xac, 0xaf, 0x89, 0xba, 0xff, 0x6c, 0x75, 0x93, 0x63, 0x64, 0x67, 0x68]


def state_after(raw, flags=0):
    m = S.Machine(None, 0, flags)
    m.stack = []
    try:
        m.eval(raw)
    except S.Fail as e:
        return m, str(e) == 'UNBALANCED'
    return m, True


@st.composite
def body(draw, max_ops=14, wild=12, cond=True, flags=0):
    """A script built while the reference model runs along: mostly operations whose operands are there (so that execution
    goes deep), now and then anything at all, conditionals closed at the end more often than not."""
    raw = b''.join(draw(st.lists(push_elem, max_size=7)))
    n = draw(st.integers(1, max_ops))
    for _ in range(n):
        m, alive = state_after(raw, flags)
        if not alive:
            break
        ex = all(m.cond)
        roll = draw(st.integers(0, 99))
        if roll < wild:
            raw += draw(st.one_of(st.sampled_from(PLAIN).map(lambda x: bytes([x])), gen.instr.map(lambda i: gen.raw_of([i]))))
        elif not ex:
            if roll < 55:
                raw += draw(st.sampled_from([b'\x67', b'\x68', b'\x67', b'\x68', b'\x63', b'\x64']))
            else:
                raw += draw(st.one_of(st.sampled_from(DEAD).map(lambda x: bytes([x])), push_elem))
        elif roll < 38:
            raw += draw(push_elem)
        elif cond and roll < 50:
            c = ([b'\x63', b'\x64', b'\x63', b'\x64'] if m.stack else []) + ([b'\x67', b'\x68', b'\x68'] if m.cond else [])
            if c:
                raw += draw(st.sampled_from(c))
        elif roll < 62 and m.stack:
            # PICK / ROLL / WITHIN with operands that fit
            k = draw(st.integers(0, 2))
            if k < 2:
                raw += push_any(S.num_enc(draw(st.integers(0, len(m.stack) - 1)))) + (b'\x79' if k else b'\x7a')
            else:
                a = draw(number)
                d = draw(st.sampled_from([0, 1, -1, 2, 100]))
                raw += push_any(S.num_enc(a))
                x = a - 1 if a > -2 ** 31 + 2 else a
                raw += push_any(S.num_enc(x)) + push_any(S.num_enc(max(-2 ** 31 + 1, min(2 ** 31 - 1, a + d)))) + b'\xa5'
        else:
            ok = []
            for name, k in ARITY.items():
                if len(m.stack) < k or (name == 'OP_FROMALTSTACK' and not m.alt):
                    continue
                if name in NUMERIC and any(len(x) > 4 for x in m.stack[len(m.stack) - k:]):
                    continue
                if name.endswith('EQUALVERIFY') and bytes(m.stack[-1]) != bytes(m.stack[-2]):
                    continue
                if name == 'OP_VERIFY' and not S.truth(m.stack[-1]):
                    continue
                if name in ('OP_PICK', 'OP_ROLL') and not 0 <= S.num_dec(m.stack[-1]) < len(m.stack) - 1:
                    continue
                ok.append(name)
            raw += bytes([S.OPS[draw(st.sampled_from(sorted(ok)))]])
    m, alive = state_after(raw, flags)
    if alive and m.cond and draw(st.integers(0, 9)):
        raw += b'\x68' * len(m.cond)
    return raw


def counted(raw):
    return sum(1 for i in S.parse(raw) or [] if i[0] > 96)


# where a script is run: after operations that change nothing, on top of other elements, in taken branches, beside an alternative stack
context = st.one_of(
    st.just([0, 0, 0, 0]), st.tuples(st.integers(0, 190), st.just(0), st.just(0), st.just(0)).map(list), st.tuples(st.just(0), st.integers(0, 985), st.just(0), st.just(0)).map(list),
    st.tuples(st.integers(0, 120), st.sampled_from([0, 1, 5, 126, 127, 128, 254, 255, 256, 257, 300, 900]), st.integers(0, 12), st.integers(0, 12)).map(list))


def in_context(raw, k):
    """`raw` run in such a place, where it does what it does alone: (elements below it, what comes before it, what comes after)"""
    nops, depth, nest, alt = k
    room = max(0, 150 - counted(raw))
    nest = min(nest, room // 2)
    alt = min(alt, room - 2 * nest)
    nops = min(nops, room - 2 * nest - alt)
    return b'\x51' * depth + b'\x52\x6b' * alt + b'\x61' * nops + b'\x51\x63' * nest, b'\x68' * nest


def with_known_truth(check):
    """The recorded finding about truth values that begin with a zero byte, observed on every run"""
    @check.sub('known-truth', None, fixed=lambda: [[b'\x02\x00\x01', b''], [b'\x02\x00\x01', b'\x63\x51\x67\x00\x68']])
    def known(c, k):
        judge(c, k[0], k[1])
        c.nt()
