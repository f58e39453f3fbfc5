from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.core import Check
from vp.lib import bf, BitforgeError

check = Check('C14', 'scripts as instruction lists (every opcode, pushes by every opcode able to carry them, lengths around '
              '75/76, 255/256, 65535/65536), random bytes, and truncated scripts; non-trivial: contains a push, or is truncated')


def same(c, script, raw, what):
    ins = S.parse(raw)
    got = [(i.opcode.number, i.data) for i in script.instructions]
    c.eq(len(got), len(ins), what + ': number of instructions')
    for (op, data), (wop, wdata, _, _) in zip(got, ins):
        c.eq(op, wop, what + ': opcode')
        if wdata is None:
            c.ok(data is None, what + ': data of an opcode that does not push', op, data)
        else:
            c.eq(data, wdata, what + ': push data')
            c.ok(isinstance(data, bytes), what + ': push data is not immutable', type(data))
    c.eq(b''.join(i.to_bytes() for i in script.instructions), raw, what + ': to_bytes of the instructions')
    c.eq(''.join(i.to_hex() for i in script.instructions), raw.hex(), what + ': to_hex of the instructions')
    c.eq(script.to_bytes(), raw, what + ': to_bytes')
    c.eq(script.to_hex(), raw.hex(), what + ': to_hex')


def edges():
    for n in range(256):
        if not 1 <= n <= 78:
            yield [['op', n]]
    for n in list(range(1, 90)) + [252, 253, 254, 255, 256, 257, 519, 520, 521, 65534, 65535, 65536, 65537]:
        d = gen.filler(n, 0)
        for op in ([n] if n <= 75 else []) + [o for o in (76, 77, 78) if gen.fits(o, n)]:
            yield [['push', op, d]]
            yield [['op', 0x61], ['push', op, d], ['op', 0x87]]
    for op in (76, 77, 78):
        yield [['push', op, b'']]
    for n in range(256):                        # the same instruction again and again
        one = ['op', n] if not 1 <= n <= 78 else ['push', n, gen.filler(n if n <= 75 else 5, 1)]
        for k in (2, 3, 4, 5, 8, 16):
            yield [one] * k
            yield [one] * k + [['op', 0x51]]
    yield []


script = st.lists(st.one_of(gen.instr, gen.instr, gen.instr, gen.instr, gen.huge_instr), max_size=8)
script = st.one_of(script, script, script, gen.template, st.lists(gen.instr, min_size=9, max_size=40))


@check.sub('roundtrip', script, quick=5000, thorough=120000, fixed=edges)
def roundtrip(c, ins):
    raw = gen.raw_of(ins)
    built = gen.lib_script(bf, ins)
    same(c, built, raw, 'built')
    parsed = bf.Script.from_bytes(raw)
    same(c, parsed, raw, 'parsed')
    c.eq(tuple(parsed.instructions), tuple(built.instructions), 'instructions')
    again = bf.Script.from_bytes(parsed.to_bytes())
    c.ok(again == parsed, 'parsing is not repeatable', again, parsed)
    if any(i[0] == 'push' for i in ins):
        c.nt(*sorted(set('push op %s' % (i[1] if i[1] > 75 else 'direct') for i in ins if i[0] == 'push')))


@check.sub('long', None, fixed=lambda: [[n, op] for n in (255, 256, 1000, 9999, 10000, 10001, 20000, 65536) for op in (0x51, 0x61, 0, 1, 76)])
def long_(c, k):
    """Scripts of very many instructions"""
    n, op = k
    one = bytes([op]) if op in (0x51, 0x61, 0) else b'\1\7' if op == 1 else b'\x4c\1\7'
    raw = one * n + b'\x87'
    s = bf.Script.from_bytes(raw)
    c.eq(len(s.instructions), n + 1, 'number of instructions')
    same(c, s, raw, 'parsed')
    same(c, bf.Script(list(s.instructions)), raw, 'built')
    c.rejects('a long script cut in its last push', lambda: bf.Script.from_bytes(raw + b'\2\1'), BitforgeError)
    c.nt()


@check.sub('raw', st.one_of(st.binary(max_size=60), st.binary(max_size=300), st.lists(st.sampled_from(
    [0, 1, 2, 75, 76, 77, 78, 79, 97, 172, 255]), max_size=40).map(bytes)), quick=6000, thorough=150000,
    fixed=lambda: [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in (1, 2, 76, 77, 78) for b in range(256)])
def raw(c, b):
    """Parses exactly the byte strings in which every push is complete; the rest is refused with a library error."""
    if S.parse(b) is None:
        c.rejects('from_bytes(%s)' % b.hex(), lambda: bf.Script.from_bytes(b), BitforgeError)
        c.nt('truncated')
    else:
        same(c, bf.Script.from_bytes(b), b, 'parsed')
        if any(i[1] is not None for i in S.parse(b)):
            c.nt('complete')


@check.sub('truncate', st.tuples(st.lists(gen.instr, max_size=4), gen.any_push(gen.push_data), st.integers(0, 10 ** 6)).map(list),
           quick=3000, thorough=60000)
def truncate(c, t):
    """Cutting a script inside its last push is always detected."""
    pre = gen.raw_of(t[0])
    last = gen.raw_of([t[1]])
    b = pre + last[:1 + t[2] % (len(last) - 1)] if len(last) > 1 else pre + last
    if S.parse(b) is None:
        c.rejects('from_bytes of a script cut in its last push', lambda: bf.Script.from_bytes(b), BitforgeError)
        c.nt('op %s' % (t[1][1] if t[1][1] > 75 else 'direct'))


@check.sub('overlong', st.tuples(st.sampled_from([76, 77, 78]), st.integers(0, 2 ** 32 - 1), st.binary(max_size=20)).map(list),
           quick=1000, fixed=lambda: [[78, 2 ** 32 - 1, b''], [78, 2 ** 31, b'abc'], [77, 0xffff, b'x' * 255], [76, 255, b'x' * 254],
                                      [78, 0x01000000, b'\0'], [77, 0x0100, b'\0']])
def overlong(c, t):
    """A declared length beyond the end is refused (whatever the byte order), not read short."""
    op, n, tail = t
    n = n % {76: 2 ** 8, 77: 2 ** 16, 78: 2 ** 32}[op]
    b = bytes([op]) + n.to_bytes({76: 1, 77: 2, 78: 4}[op], 'little') + tail
    if n > len(tail):
        c.rejects('from_bytes(%s)' % b.hex(), lambda: bf.Script.from_bytes(b), BitforgeError)
        c.nt('op %d' % op)


@check.sub('instruction', st.tuples(st.integers(0, 255), st.one_of(st.none(), st.integers(0, 300), st.integers(65530, 65540))).map(list),
           quick=4000, fixed=lambda: [[op, n] for op in range(0, 100) for n in (None, 0, 1, 75, 76, 255, 256) if not (op and op < 79 and n is None)]
           + [[op, op + d] for op in range(1, 76) for d in (-1, 0, 1)] + [[77, 65535], [77, 65536], [78, 65536], [76, 65536]])
def instruction(c, t):
    """An instruction holds exactly the data its opcode can push."""
    op, n = t
    push = 1 <= op <= 78
    if push and n is None:
        return
    data = None if n is None else gen.filler(n, 2)
    o = bf.Opcode(op)
    good = (n == op if op <= 75 else gen.fits(op, n)) if push else n is None
    if good:
        i = bf.Instruction(o, data)
        c.eq(i.to_bytes(), S.push_with(op, data) if push else bytes([op]), 'to_bytes')
        c.eq(i.to_hex(), (S.push_with(op, data) if push else bytes([op])).hex(), 'to_hex')
    else:
        c.rejects('Instruction(%d, %s bytes)' % (op, n), lambda: bf.Instruction(o, data), BitforgeError)
    c.nt('good' if good else 'bad')


@check.sub('buffer', st.tuples(st.lists(gen.instr, max_size=5), st.lists(gen.instr, max_size=5)).map(list), quick=800)
def concat(c, t):
    """The parse of a concatenation is the concatenation of the parses."""
    a, b = [gen.raw_of(x) for x in t]
    whole = bf.Script.from_bytes(a + b).instructions
    parts = tuple(bf.Script.from_bytes(a).instructions) + tuple(bf.Script.from_bytes(b).instructions)
    c.eq(tuple(whole), parts, 'instructions')
    if t[0] and t[1]:
        c.nt()


@check.sub('short', None, fixed=lambda: list(range(256)))
def short(c, a):
    """Every script of two bytes, exhaustively; and of three bytes whose last ones are opcodes of interest"""
    for b in range(256):
        for tail in (b'',) + ((b'\0', b'\x51', b'\x6a', b'\1', b'\x4c', bytes([b])) if a % 8 == b % 8 else ()):
            raw = bytes([a, b]) + tail
            if S.parse(raw) is None:
                c.rejects('from_bytes(%s)' % raw.hex(), lambda: bf.Script.from_bytes(raw), BitforgeError)
            else:
                same(c, bf.Script.from_bytes(raw), raw, 'parsed')
    c.nt()
