from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.core import Check
from vp.lib import bf, BitforgeError

check = Check('C16', 'data of every length 1..300 and around 65535/65536, push lengths up to 2^32, schematics mixing opcodes, numbers, '
              'data and explicit pushes; non-trivial: a length within 1 of a boundary, or a schematic with data')
I, O = bf.Instruction, bf.Opcode
LENS = list(range(1, 301)) + [518, 519, 520, 521, 1000, 65534, 65535, 65536, 65537, 100000]


@check.sub('push-for', gen.push_data, quick=3000, thorough=60000, fixed=lambda: [gen.filler(n, 1) for n in LENS])
def push_for(c, d):
    i = I.push_for(d)
    c.eq(i.to_bytes(), S.push(d), 'push of %d bytes' % len(d))
    c.eq(i.data, d, 'data')
    s = bf.Script.compile([d])
    c.eq(s.to_bytes(), S.push(d), 'compiled push of %d bytes' % len(d))
    back = S.parse(S.push(d))
    c.ok(len(back) == 1 and back[0][1] == d, 'reference disagrees with itself')
    c.nt('%d length bytes' % (len(S.push(d)) - len(d) - 1))


@check.sub('push-length', st.one_of(st.integers(-5, 400), st.integers(60000, 70000), st.integers(2 ** 32 - 10, 2 ** 32 + 10), st.integers(0, 2 ** 34)),
           quick=2000, fixed=lambda: list(range(-2, 300)) + [65534, 65535, 65536, 65537, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1])
def push_length(c, n):
    """The opcode chosen for a length is the shortest that can express it; other lengths are refused."""
    if 1 <= n < 2 ** 32:
        want = n if n <= 75 else 76 if n <= 0xff else 77 if n <= 0xffff else 78
        c.eq(O.push_for(n).number, want, 'opcode for %d bytes' % n)
        c.eq(O.var_push_for(n).number, 76 if n <= 0xff else 77 if n <= 0xffff else 78, 'variable push for %d bytes' % n)
    else:
        c.rejects('push of %d bytes' % n, lambda: O.push_for(n), BitforgeError)
        c.rejects('variable push of %d bytes' % n, lambda: O.var_push_for(n), BitforgeError)
    if 1 <= n <= 75:
        c.eq(O.const_push_for(n).number, n, 'constant push for %d bytes' % n)
    else:
        c.rejects('constant push of %d bytes' % n, lambda: O.const_push_for(n), BitforgeError)
    c.nt()


@check.sub('opcode-facts', None, fixed=lambda: list(range(256)))
def opcode_facts(c, n):
    o = O(n)
    c.eq(bool(o.is_const_push()), 1 <= n <= 75, 'is_const_push')
    c.eq(bool(o.is_var_push()), 76 <= n <= 78, 'is_var_push')
    c.eq(bool(o.is_push()), 1 <= n <= 78, 'is_push')
    c.eq(bool(o.is_number()), n == 0 or 81 <= n <= 96, 'is_number')
    c.eq(o.bytes, bytes([n]), 'bytes')
    if o.is_number():
        c.eq(o.number_value(), 0 if n == 0 else n - 80, 'number_value')
    else:
        c.rejects('number_value of opcode %d' % n, o.number_value, BitforgeError)
    if 76 <= n <= 78:
        w = {76: 1, 77: 2, 78: 4}[n]
        c.eq(O.data_length_nbytes(o), w, 'length bytes')
        c.eq(O.data_length_max(o), 2 ** (8 * w) - 1, 'longest push')
    else:
        c.rejects('length bytes of opcode %d' % n, lambda: O.data_length_nbytes(o), BitforgeError)
        c.eq(O.data_length_max(o), n if 1 <= n <= 75 else 0, 'longest push')
    for m in range(256):
        p = O(m)
        c.eq((o == p, o < p, o <= p, o > p, o != p), (n == m, n < m, n <= m, n > m, n != m), 'order of opcodes %d and %d' % (n, m))
    c.eq(hash(O(n)) == hash(o), True, 'hash')
    c.nt()


@check.sub('for-number', st.integers(-50, 300), quick=200, fixed=lambda: list(range(-3, 30)))
def for_number(c, n):
    if 0 <= n <= 16:
        o = O.for_number(n)
        c.eq(o.number, 0 if n == 0 else 80 + n, 'opcode for number %d' % n)
        c.eq(o.number_value(), n, 'number_value')
    else:
        c.rejects('opcode for number %d' % n, lambda: O.for_number(n), ValueError, BitforgeError)
    c.nt()


@check.sub('minimal', st.tuples(gen.instr).map(lambda t: t[0]), quick=6000, thorough=100000,
           fixed=lambda: [['push', 1, bytes([v])] for v in range(256)] + [['push', op, bytes([v])] for op in (76, 77, 78) for v in (0, 1, 16, 17, 0x80, 0x81, 0xff)]
           + [['push', op, gen.filler(n, 1)] for n in LENS for op in ([n] if n <= 75 else []) + [o for o in (76, 77, 78) if gen.fits(o, n)]]
           + [['push', op, b''] for op in (76, 77, 78)] + [['op', n] for n in range(256) if not 1 <= n <= 78])
def minimal(c, i):
    """is_minimal_push is bitcoind's CheckMinimalPush (true for anything that pushes no explicit data)."""
    ins = I(O(i[1])) if i[0] == 'op' else I(O(i[1]), i[2])
    want = True if i[0] == 'op' else S.minimal_push(i[1], i[2])
    c.eq(bool(ins.is_minimal_push()), want, 'is_minimal_push')
    c.eq(bool(ins.is_push()), i[0] == 'push', 'is_push')
    if i[0] == 'push':
        c.nt('minimal' if want else 'not minimal')


item = st.one_of(
    st.sampled_from(gen.PLAIN_OPS).map(lambda n: ['opcode', n]),
    st.sampled_from(gen.PLAIN_OPS).map(lambda n: ['number', n]),
    gen.push_data.map(lambda d: ['bytes', d]),
    gen.any_push(gen.push_data).map(lambda p: ['tuple', p[1], p[2]]),
    gen.any_push(gen.push_data).map(lambda p: ['ntuple', p[1], p[2]]),
)


@check.sub('compile', st.lists(item, max_size=8), quick=4000, thorough=80000)
def compile_(c, items):
    sch, raw = [], b''
    for i in items:
        if i[0] == 'opcode':
            sch.append(O(i[1]))
            raw += bytes([i[1]])
        elif i[0] == 'number':
            sch.append(i[1])
            raw += bytes([i[1]])
        elif i[0] == 'bytes':
            sch.append(i[1])
            raw += S.push(i[1])
        else:
            sch.append((O(i[1]) if i[0] == 'tuple' else i[1], i[2]))
            raw += S.push_with(i[1], i[2])
    s = bf.Script.compile(sch)
    c.eq(s.to_bytes(), raw, 'compiled script')
    c.eq(bf.Script.from_bytes(raw).instructions, s.instructions, 'instructions')
    if any(len(i[1]) if i[0] == 'bytes' else i[0].endswith('tuple') for i in items):
        c.nt(*sorted(set(i[0] for i in items)))


@check.sub('long', st.tuples(st.lists(item, min_size=1, max_size=5), st.integers(20, 400)).map(list), quick=60, thorough=1500, fixed=lambda: [[[['bytes', b'a'], ['opcode', 0x75]], 700], [[['bytes', b'abc']], 300], [[['number', 0x51], ['tuple', 76, b'b']], 5000]])
def long_(c, k):
    """Plans of very many items"""
    compile_(c, k[0] * k[1])


@check.sub('push-only', st.lists(st.one_of(gen.instr, st.sampled_from([0, 79, 80, 81, 96, 97, 98]).map(lambda n: ['op', n])), max_size=5),
           quick=2000, fixed=lambda: [[['op', n]] for n in gen.PLAIN_OPS])
def push_only(c, ins):
    want = all(i[0] == 'push' or i[1] <= 96 for i in ins)
    c.eq(bool(gen.lib_script(bf, ins).is_push_only()), want, 'is_push_only')
    if ins:
        c.nt('yes' if want else 'no')
