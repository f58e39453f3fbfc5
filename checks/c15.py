from hypothesis import strategies as st
from ref import script as S
from vp import gen
from vp.core import Check
from vp.lib import bf, BitforgeError

check = Check('C15', 'scripts of named opcodes and pushes (every push opcode, boundary lengths) through text and back; texts with '
              'one damaged token; non-trivial: contains a push, or is damaged')
SPECIAL_NAMES = {253: 'OP_PUBKEYHASH', 254: 'OP_PUBKEY', 255: 'OP_INVALIDOPCODE'}


def ref_text(ins):
    out = []
    for i in ins:
        if i[0] == 'op':
            out.append(SPECIAL_NAMES.get(i[1]) or S.NAMES[i[1]])
        elif i[1] <= 75:
            out.append('%d 0x%s' % (len(i[2]), i[2].hex()))
        else:
            out.append('%s %d 0x%s' % (S.NAMES[i[1]], len(i[2]), i[2].hex()))
    return ' '.join(out)


def edges():
    yield []
    for n in S.NAMED:
        if not 1 <= n <= 78:
            yield [['op', n]]
    for n in list(range(1, 80)) + [254, 255, 256, 257, 65535, 65536]:
        d = gen.filler(n, 0)
        for op in ([n] if n <= 75 else []) + [o for o in (76, 77, 78) if gen.fits(o, n)]:
            yield [['push', op, d], ['op', 0x87]]
    for d in (b'\0', b'\0\0', b'\0' * 20, b'\xab\xcd\xef', b'\x0a'):
        yield [['push', len(d), d]]


@check.sub('roundtrip', st.one_of(st.lists(gen.named_instr, max_size=8), st.lists(gen.named_instr, max_size=8), gen.template, st.lists(gen.named_instr, min_size=9, max_size=40)), quick=2500, thorough=60000, fixed=edges)
def roundtrip(c, ins):
    s = gen.lib_script(bf, ins)
    text = s.to_string()
    c.eq(text, ref_text(ins), 'text')
    back = bf.Script.from_string(text)
    c.eq(tuple(back.instructions), tuple(s.instructions), 'instructions read back')
    c.eq(back.to_bytes(), gen.raw_of(ins), 'bytes of the script read back')
    c.eq(back.to_string(), text, 'text again')
    c.eq(bf.Script.from_bytes(gen.raw_of(ins)).to_string(), text, 'text of the parsed script')
    if any(i[0] == 'push' for i in ins):
        c.nt(*sorted(set('push op %s' % (i[1] if i[1] > 75 else 'direct') for i in ins if i[0] == 'push')))


@check.sub('long', None, fixed=lambda: [[n, i] for n in (253, 256, 1000, 10001) for i in range(4)] + [[40000, 1], [66000, 0]])
def long_(c, k):
    """Texts of very many words: each is read, and a wrong one is noticed wherever it stands"""
    n, i = k
    one = [['op', 0x61], ['push', 1, b'\7'], ['push', 77, b'ab'], ['op', 0x51]][i]
    text = ref_text([one] * n + [['op', 0x87]])
    raw = gen.raw_of([one]) * n + b'\x87'
    s = bf.Script.from_string(text)
    c.eq(len(s.instructions), n + 1, 'number of instructions')
    c.ok(s.to_bytes() == raw, 'the bytes of a text of %d instructions' % n)
    c.ok(bf.Script.from_bytes(raw).to_string() == text, 'the text of %d instructions' % n)
    c.rejects('a wrong word at the end', lambda: bf.Script.from_string(text + ' OP_WRONG'), BitforgeError)
    c.rejects('a push cut short at the end', lambda: bf.Script.from_string(text + ' 2'), BitforgeError)
    c.nt('%d' % n)


@check.sub('print-any', st.lists(gen.instr, max_size=8), quick=1500)
def print_any(c, ins):
    """Any script has a text, and different opcodes never print alike."""
    s = gen.lib_script(bf, ins)
    c.ok(isinstance(s.to_string(), str), 'text', s)
    for i in ins:
        if i[0] == 'op' and i[1] not in S.NAMED:
            t = bf.Instruction(bf.Opcode(i[1])).to_string()
            c.ok(str(i[1]) in t, 'an unnamed opcode is not identified by its text', t)
            c.nt('unnamed')


ALIASES = {'OP_FALSE': 0, 'OP_TRUE': 81}
BY_NAME = dict({SPECIAL_NAMES.get(n) or S.NAMES[n]: n for n in S.NAMED if not 1 <= n <= 75}, **ALIASES)
HEXD = '0123456789abcdefABCDEF'


def ref_parse(text):
    """The instructions a text stands for, None when it has to be refused, False when nothing is said about it."""
    if text == '':
        return []
    toks, out, i = text.split(' '), [], 0

    def data(tok):
        if not tok.startswith('0x') or len(tok) % 2 or any(ch not in HEXD for ch in tok[2:]):
            return None
        return bytes.fromhex(tok[2:])

    def number(tok):
        return int(tok) if tok and all(ch in '0123456789' for ch in tok) else None
    while i < len(toks):
        t = toks[i]
        i += 1
        if t in BY_NAME and not 76 <= BY_NAME[t] <= 78:
            out.append(['op', BY_NAME[t]])
            continue
        op = BY_NAME.get(t)
        if op is None:
            size = number(t)
            if size is None or not 1 <= size <= 75:
                return None
            if t != str(size):
                return False
            op = size
        else:
            size = number(toks[i]) if i < len(toks) else None
            if size is None:
                return None
            if toks[i] != str(size):
                return False
            i += 1
        d = data(toks[i]) if i < len(toks) else None
        if d is None or len(d) != size or op > 75 and not gen.fits(op, size):
            return None
        i += 1
        out.append(['push', op, d])
    return out


def judge_text(c, text):
    want = ref_parse(text)
    if want is None:
        c.rejects('from_string(%r)' % text, lambda: bf.Script.from_string(text), BitforgeError)
        c.label('refused')
    elif want is not False:
        s = bf.Script.from_string(text)
        c.eq([(i.opcode.number, i.data) for i in s.instructions], [(i[1], i[2] if i[0] == 'push' else None) for i in want], 'from_string(%r)' % text)
        c.label('accepted')
    return want


def other_number(n, how):
    return {'+1': n + 1, '-1': n - 1, '+256': n + 256, '-256': n - 256, '+65536': n + 65536, '*2': 2 * n, '/2': n // 2, '0': 0, 'neg': -n, '%256': n % 256}[how]


BAD = ['drop', 'dup', 'swap', 'unknown', 'num', 'num', 'num', 'hexcut', 'hexadd', 'char', 'char', 'char', 'suffix', 'prefix', 'case', 'empty', 'alien', 'name', 'none']


@check.sub('damaged', st.fixed_dictionaries({
    'ins': st.lists(gen.named_instr, min_size=1, max_size=4), 'how': st.sampled_from(BAD), 'at': st.integers(0, 40), 'pos': st.integers(0, 1200),
    'ch': st.one_of(st.sampled_from('0123456789abfgxXOP_- \t\n+.,\'"\u00b2\u0663'), st.characters()),
    'num': st.sampled_from(['+1', '-1', '+256', '-256', '+65536', '*2', '/2', '0', 'neg', '%256']), 'name': st.sampled_from(sorted(BY_NAME))}),
    quick=6000, thorough=150000)
def damaged(c, k):
    """A text damaged at one token reads as exactly what it then says, or is refused."""
    toks = ref_text(k['ins']).split(' ')
    i = k['at'] % len(toks)
    t = toks[i]
    how = k['how']
    pos = k['pos'] % (len(t) + 1)
    if how == 'num':
        nums = [j for j, x in enumerate(toks) if x.isdigit()]
        if nums:
            i = nums[k['at'] % len(nums)]
            toks[i] = str(other_number(int(toks[i]), k['num']))
    elif how in ('hexcut', 'hexadd'):
        hs = [j for j, x in enumerate(toks) if x.startswith('0x')]
        if hs:
            i = hs[k['at'] % len(hs)]
            n = 1 + k['pos'] % 4
            toks[i] = toks[i][:-n] if how == 'hexcut' else toks[i] + ('ab' * n)[:n]
    elif how == 'drop':
        del toks[i]
    elif how == 'dup':
        toks.insert(i, t)
    elif how == 'swap' and i + 1 < len(toks):
        toks[i], toks[i + 1] = toks[i + 1], toks[i]
    elif how == 'unknown':
        toks[i] = ['OP_UNKNOWABLE', 'OP_', 'OP', 'DUP', 'OP_VER', 'OP_NOP2', 'OP_PUSHDATA3', 'OP_17', 'Opcode', 'name', 'OP_PUSH_5_BYTES', '_PUSH_5_BYTES', '_UNKNOWN_200', '81', '76', '0', '-1', '0x51'][k['pos'] % 18]
    elif how == 'char':
        toks[i] = t[:pos] + k['ch'] + t[pos + (k['at'] & 1):]
    elif how == 'suffix':
        toks[i] = t + k['ch']
    elif how == 'prefix':
        toks[i] = k['ch'] + t
    elif how == 'case':
        toks[i] = t.lower() if t != t.lower() else t.upper()
    elif how == 'empty':
        toks.insert(i, '')
    elif how == 'alien':
        toks.insert(i, k['ch'] * (1 + k['pos'] % 3))
    elif how == 'name':
        toks[i] = k['name']
    w = judge_text(c, ' '.join(toks))
    c.nt(how + (' unspecified' if w is False else ' refused' if w is None else ' reads'))


def text_edges():
    for n in sorted(BY_NAME):
        for t in (n, n.lower(), n + '_', n + ' ', ' ' + n, n[:-1], n[3:], n + 'X', '_' + n, n.title(), n + '\n', 'OP_' + n, 'OP_' + n[3:].lower(), 'op_' + n[3:], 'OP_' + n[3:].title(), n.swapcase(), n[:4] + n[4:].lower(), n[:-1] + n[-1:].lower(), n.replace('_', '-')):
            yield t
    for n in range(0, 80):
        for d in (n - 1, n, n + 1):
            yield '%d 0x%s' % (n, 'ab' * max(d, 0))
        yield '%d' % n
        yield '%d ab' % n
    for d in ('0x0xab', '0xab0x', '0xab0xab', '0x0x0xab', '0x0Xab', '0xab0Xab', '00xab', 'x0ab', '0xx0ab', '0x0xabab', '0x', '0x0x', '0x0', '0x00', 'ab', 'xab', '0xa b', '0x ab', '0xab,'):
        for n in range(0, 5):
            for op in ('', 'OP_PUSHDATA1 ', 'OP_PUSHDATA2 ', 'OP_PUSHDATA4 '):
                yield '%s%d %s' % (op, n, d)
    for op in ('OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4'):
        for n in (0, 1, 2, 75, 76, 255, 256, 257, 300, 511, 512, 513, 65535, 65536, 65792):
            for d in (n, n + 1, n - 1, n + 256, n - 256, n - 65536, n % 256):
                if 0 <= d < 67000:
                    yield '%s %d 0x%s' % (op, n, 'ab' * d)
        for rest in ('', ' ', ' 1', ' 1 ', ' 1 0x', ' 1 ab', ' 1 0xa', ' 1 0xzz', ' 1 0Xab', ' 1 0xAB', ' x 0xab', ' -1 0xab', ' 1.0 0xab', ' 0x1 0xab', ' 0xab', ' 0xab 1'):
            yield op + rest


@check.sub('text', st.lists(st.one_of(st.sampled_from(sorted(BY_NAME)), st.integers(-2, 80).map(str), st.binary(max_size=4).map(lambda b: '0x' + b.hex()),
                                      gen.any_push(gen.small_data).map(lambda p: ref_text([p])), st.text(max_size=4)), max_size=6).map(' '.join),
           quick=3000, thorough=60000, fixed=text_edges)
def text(c, t):
    w = judge_text(c, t)
    c.nt('unspecified' if w is False else 'refused' if w is None else 'reads')


def name_edges():
    for n in sorted(BY_NAME):
        for t in (n, n.lower(), n[3:], 'OP_' + n[3:].lower(), 'op_' + n[3:], 'OP_' + n[3:].title(), n[:-1] + n[-1:].lower(), n + ' ', ' ' + n, n + '\0', n[:-1], 'OP_' + n, n.replace('_', '')):
            yield t


@check.sub('from-name', st.one_of(st.sampled_from(sorted(BY_NAME)), st.tuples(st.sampled_from(sorted(BY_NAME)), st.lists(st.booleans(), min_size=24, max_size=24)).map(lambda t: ''.join(ch.lower() if f else ch for ch, f in zip(*t))), st.text(max_size=12), st.tuples(st.sampled_from(sorted(BY_NAME)), st.sampled_from(['_', ' ', 'X', '\n', '0'])).map(''.join)),
           quick=800, thorough=5000, fixed=name_edges)
def from_name(c, t):
    if t in BY_NAME:
        c.eq(bf.Opcode.from_name(t).number, BY_NAME[t], 'from_name(%r)' % t)
    else:
        c.rejects('Opcode.from_name(%r)' % t, lambda: bf.Opcode.from_name(t), BitforgeError)
    c.nt('known' if t in BY_NAME else 'unknown')


@check.sub('names', None, fixed=lambda: [n for n in range(256)])
def names(c, n):
    """Opcode names and numbers map one to one."""
    o = bf.Opcode(n)
    c.eq(o.number, n, 'number')
    if n in S.NAMED:
        want = SPECIAL_NAMES.get(n) or S.NAMES[n]
        c.eq(o.name, want, 'name')
        c.eq(bf.Opcode.from_name(want).number, n, 'from_name')
        c.ok(bf.Opcode.from_name(want) == o, 'from_name is not the same opcode')
    names = [bf.Opcode(m).name for m in range(256)]
    c.eq(names.count(o.name), 1, 'opcodes with this name')
    c.nt('named' if n in S.NAMED else 'unnamed')


@check.sub('bad-opcode', st.one_of(st.integers(-1000, -1), st.integers(256, 100000)), quick=300)
def bad_opcode(c, n):
    c.rejects('Opcode(%d)' % n, lambda: bf.Opcode(n), BitforgeError)
    c.nt()
