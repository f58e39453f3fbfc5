"""Independent Bitcoin script parser and interpreter (EvalScript / VerifyScript of bitcoind, 2014-15)."""
import hashlib
from . import secp, tx as rtx
from .enc import sha256, dsha, ripemd160, hash160

P2SH, STRICTENC, DERSIG, LOW_S, NULLDUMMY, SIGPUSHONLY, MINIMALDATA, DISCOURAGE = [1 << i for i in range(8)]
CLTV = 1 << 9

NAMES = {0: 'OP_0', 76: 'OP_PUSHDATA1', 77: 'OP_PUSHDATA2', 78: 'OP_PUSHDATA4', 79: 'OP_1NEGATE', 80: 'OP_RESERVED'}
for _i in range(1, 17):
    NAMES[80 + _i] = 'OP_%d' % _i
for _i, _n in enumerate(
        'NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT '
        '2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR '
        'EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD '
        'LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL '
        'GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG '
        'CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY NOP1 CHECKLOCKTIMEVERIFY NOP3 NOP4 NOP5 NOP6 NOP7 NOP8 '
        'NOP9 NOP10'.split()):
    NAMES[97 + _i] = 'OP_' + _n
OPS = dict((v, k) for k, v in NAMES.items())
DISABLED = set(OPS['OP_' + n] for n in
               'CAT SUBSTR LEFT RIGHT INVERT AND OR XOR 2MUL 2DIV MUL DIV MOD LSHIFT RSHIFT'.split())
# Opcodes that the library gives a name to (the rest have none).
NAMED = [n for n in sorted(NAMES) if NAMES[n] not in ('OP_VER', 'OP_VERIF', 'OP_VERNOTIF')] + [253, 254, 255]


def parse(raw):
    """[(op, data|None, start, end)], or None when a push runs past the end"""
    out, p = [], 0
    while p < len(raw):
        start, op = p, raw[p]
        p += 1
        data = None
        if 1 <= op <= 75:
            n = op
        elif 76 <= op <= 78:
            w = {76: 1, 77: 2, 78: 4}[op]
            if p + w > len(raw):
                return None
            n = int.from_bytes(raw[p:p + w], 'little')
            p += w
        else:
            out.append((op, None, start, p))
            continue
        if p + n > len(raw):
            return None
        data = raw[p:p + n]
        p += n
        out.append((op, data, start, p))
    return out


def push(data):
    """Shortest plain push (not the OP_n shorthand) of non-empty data"""
    n = len(data)
    if n <= 75:
        return bytes([n]) + data
    if n <= 0xff:
        return b'\x4c' + bytes([n]) + data
    if n <= 0xffff:
        return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data


def push_with(op, data):
    w = {76: 1, 77: 2, 78: 4}.get(op, 0)
    return bytes([op]) + (len(data).to_bytes(w, 'little') if w else b'') + data


def num_enc(n):
    if n == 0:
        return b''
    a = abs(n)
    b = bytearray(a.to_bytes((a.bit_length() + 7) // 8, 'little'))
    if b[-1] & 0x80:
        b.append(0)
    if n < 0:
        b[-1] |= 0x80
    return bytes(b)


def num_dec(b):
    if not b:
        return 0
    v = int.from_bytes(b, 'little')
    top = 1 << (8 * len(b) - 1)
    return -(v - top) if v & top else v


def num_minimal(b):
    return num_enc(num_dec(b)) == bytes(b)


def minimal_push(op, data):
    """CheckMinimalPush"""
    if len(data) == 0:
        return op == 0
    if len(data) == 1 and 1 <= data[0] <= 16:
        return op == 80 + data[0]
    if len(data) == 1 and data[0] == 0x81:
        return op == 79
    if len(data) <= 75:
        return op == len(data)
    if len(data) <= 255:
        return op == 76
    if len(data) <= 65535:
        return op == 77
    return True


def truth(b):
    """CastToBool"""
    return not (not any(b[:-1]) and (len(b) == 0 or b[-1] in (0, 0x80)))


def is_p2sh(raw):
    return len(raw) == 23 and raw[0] == 0xa9 and raw[1] == 0x14 and raw[22] == 0x87


def push_only(ins):
    return all(i[0] <= 96 for i in ins)


def _lax_der(sig):
    """r, s the way OpenSSL / libsecp256k1's lax parser reads them, or None"""
    try:
        p = 0
        if sig[p] != 0x30:
            return None
        p += 1
        ln = sig[p]
        p += 1
        if ln & 0x80:
            p += ln & 0x7f
        out = []
        for _ in range(2):
            if sig[p] != 2:
                return None
            p += 1
            ln = sig[p]
            p += 1
            if ln & 0x80:
                k = ln & 0x7f
                if p + k > len(sig):
                    return None
                ln = int.from_bytes(sig[p:p + k], 'big')
                p += k
            if ln > len(sig) - p:
                return None
            out.append(int.from_bytes(sig[p:p + ln], 'big'))
            p += ln
        return out
    except IndexError:
        return None


def valid_sig_encoding(sig):
    """BIP 66, written from the text of the BIP: DER of two positive minimal integers plus one hash type byte."""
    if len(sig) < 9 or len(sig) > 73:
        return False
    return secp.parse_strict_der(bytes(sig[:-1])) is not None


class Fail(Exception):
    pass


class Machine(object):
    """One VerifyScript run. Facts about the run that the caller needs are left in `self.seen`.

    loose_zero=True models the recorded finding about truth values with a leading zero byte.
    """

    def __init__(self, tx=None, nin=0, flags=0, loose_zero=False):
        self.tx = tx or {'version': 1, 'inputs': [{'txid': '00' * 32, 'index': 0, 'script': b'', 'seq': 0xffffffff}],
                         'outputs': [{'amount': 0, 'script': b''}], 'lock': 0}
        self.nin, self.flags, self.loose = nin, flags, loose_zero
        self.seen = set()
        self.error = None
        self.max_stack = 0
        self.executed = []

    def cast(self, b):
        v = truth(b)
        if v and b[0] == 0:
            self.seen.add('leading-zero-truth')
            if self.loose:
                return False
        return v

    def verify(self, sig, pubkey):
        try:
            self._verify(sig, pubkey)
            return True
        except Fail as e:
            self.error = str(e)
            return False

    def _verify(self, sig, pubkey):
        si, pi = parse(sig), parse(pubkey)
        if self.flags & SIGPUSHONLY and not push_only(si):
            raise Fail('SIG_PUSHONLY')
        self.stack = []
        self.eval(sig)
        copy = list(self.stack)
        self.eval(pubkey)
        if not self.stack:
            raise Fail('EVAL_FALSE_NO_RESULT')
        if not self.cast(self.stack[-1]):
            raise Fail('EVAL_FALSE')
        if self.flags & P2SH and is_p2sh(pubkey):
            self.seen.add('p2sh')
            if not push_only(si):
                raise Fail('SIG_PUSHONLY')
            redeem = copy.pop()
            if parse(redeem) is None:
                raise Fail('BAD_OPCODE')
            self.stack = copy
            self.eval(redeem)
            if not self.stack:
                raise Fail('EVAL_FALSE_NO_P2SH')
            if not self.cast(self.stack[-1]):
                raise Fail('EVAL_FALSE_P2SH')

    def num(self, b, size=4):
        if len(b) > size:
            raise Fail('NUM_SIZE')
        if self.flags & MINIMALDATA and not num_minimal(b):
            raise Fail('NUM_MINIMAL')
        return num_dec(b)

    def need(self, n):
        if len(self.stack) < n:
            raise Fail('INVALID_STACK')

    def eval(self, raw):
        if len(raw) > 10000:
            raise Fail('SCRIPT_SIZE')
        ins = parse(raw)
        if ins is None:
            raise Fail('BAD_OPCODE')
        self.alt, self.cond, self.nops, self.begin, self.raw = [], [], 0, 0, raw
        for op, data, start, end in ins:
            ex = all(self.cond)
            if data is not None and len(data) > 520:
                raise Fail('PUSH_SIZE')
            if op > 96:
                self.nops += 1
                if self.nops > 201:
                    raise Fail('OP_COUNT')
            if op in DISABLED:
                raise Fail('DISABLED')
            if ex and op <= 78:
                d = data if data is not None else b''
                if self.flags & MINIMALDATA and not minimal_push(op, d):
                    raise Fail('MINIMALDATA')
                self.stack.append(d)
            elif ex or 99 <= op <= 104:
                self.executed.append(op)
                self.step(op, ex, end)
            self.max_stack = max(self.max_stack, len(self.stack) + len(self.alt))
            if len(self.stack) + len(self.alt) > 1000:
                raise Fail('STACK_SIZE')
        if self.cond:
            raise Fail('UNBALANCED')

    def step(self, op, ex, end):
        st = self.stack
        name = NAMES.get(op, 'BAD')
        if op == 79 or 81 <= op <= 96:
            st.append(num_enc(op - 80))
        elif name == 'OP_NOP':
            pass
        elif name == 'OP_CHECKLOCKTIMEVERIFY':
            self.cltv()
        elif name in ('OP_NOP1', 'OP_NOP3', 'OP_NOP4', 'OP_NOP5', 'OP_NOP6', 'OP_NOP7', 'OP_NOP8', 'OP_NOP9',
                      'OP_NOP10'):
            if self.flags & DISCOURAGE:
                raise Fail('DISCOURAGE_NOPS')
        elif name in ('OP_IF', 'OP_NOTIF'):
            v = False
            if ex:
                if not st:
                    raise Fail('UNBALANCED')
                v = self.cast(st.pop())
                if name == 'OP_NOTIF':
                    v = not v
            self.cond.append(v)
        elif name == 'OP_ELSE':
            if not self.cond:
                raise Fail('UNBALANCED')
            self.cond[-1] = not self.cond[-1]
        elif name == 'OP_ENDIF':
            if not self.cond:
                raise Fail('UNBALANCED')
            self.cond.pop()
        elif name == 'OP_VERIFY':
            self.need(1)
            if not self.cast(st[-1]):
                raise Fail('VERIFY')
            st.pop()
        elif name == 'OP_RETURN':
            raise Fail('OP_RETURN')
        elif name == 'OP_TOALTSTACK':
            self.need(1)
            self.alt.append(st.pop())
        elif name == 'OP_FROMALTSTACK':
            if not self.alt:
                raise Fail('INVALID_ALT')
            st.append(self.alt.pop())
        elif name in STACKOPS:
            n, order = STACKOPS[name]
            self.need(n)
            top = st[len(st) - n:]
            del st[len(st) - n:]
            st.extend(top[i - 1] for i in order)
        elif name == 'OP_IFDUP':
            self.need(1)
            if self.cast(st[-1]):
                st.append(st[-1])
        elif name == 'OP_DEPTH':
            st.append(num_enc(len(st)))
        elif name in ('OP_PICK', 'OP_ROLL'):
            self.need(2)
            n = self.num(st[-1])
            st.pop()
            if n < 0 or n >= len(st):
                raise Fail('INVALID_STACK')
            v = st[len(st) - 1 - n]
            if name == 'OP_ROLL':
                del st[len(st) - 1 - n]
            st.append(v)
        elif name == 'OP_SIZE':
            self.need(1)
            st.append(num_enc(len(st[-1])))
        elif name in ('OP_EQUAL', 'OP_EQUALVERIFY'):
            self.need(2)
            b, a = st.pop(), st.pop()
            st.append(b'\1' if bytes(a) == bytes(b) else b'')
            self.verify_top(name)
        elif name in UNARY:
            self.need(1)
            v = UNARY[name](self.num(st[-1]))
            st[-1] = num_enc(v)
        elif name in BINARY:
            self.need(2)
            a = self.num(st[-2])
            b = self.num(st[-1])
            st.pop()
            st[-1] = num_enc(int(BINARY[name](a, b)))
            self.verify_top(name)
        elif name == 'OP_WITHIN':
            self.need(3)
            x, lo, hi = [self.num(v) for v in st[-3:]]
            del st[-3:]
            st.append(b'\1' if lo <= x < hi else b'')
        elif name in HASHES:
            self.need(1)
            st[-1] = HASHES[name](bytes(st[-1]))
        elif name == 'OP_CODESEPARATOR':
            self.begin = end
        elif name in ('OP_CHECKSIG', 'OP_CHECKSIGVERIFY'):
            self.need(2)
            self.seen.add('sigop')
            code = find_and_delete(self.raw[self.begin:], push(st[-2]) if st[-2] else b'\0')
            self.check_encodings(st[-2], st[-1])
            ok = self.check_sig(st[-2], st[-1], code)
            del st[-2:]
            st.append(b'\1' if ok else b'')
            self.verify_top(name)
        elif name in ('OP_CHECKMULTISIG', 'OP_CHECKMULTISIGVERIFY'):
            self.multisig(name)
        else:
            raise Fail('BAD_OPCODE')

    def verify_top(self, name):
        if name.endswith('VERIFY'):
            if not self.stack[-1]:
                raise Fail(name)
            self.stack.pop()

    def cltv(self):
        if not self.flags & CLTV:
            if self.flags & DISCOURAGE:
                raise Fail('DISCOURAGE_NOPS')
            return
        self.need(1)
        n = self.num(self.stack[-1], 5)
        if n < 0:
            raise Fail('NEGATIVE_LOCKTIME')
        lock, th = self.tx['lock'], 500000000
        if (lock < th) != (n < th) or n > lock or self.tx['inputs'][self.nin]['seq'] == 0xffffffff:
            raise Fail('UNSATISFIED_LOCKTIME')
        self.seen.add('cltv-ok')

    def check_encodings(self, sig, pub):
        if sig:
            if self.flags & (DERSIG | LOW_S | STRICTENC) and not valid_sig_encoding(sig):
                raise Fail('SIG_DER')
            if self.flags & LOW_S and secp.parse_strict_der(bytes(sig[:-1]))[1] > secp.HALF_N:
                raise Fail('SIG_HIGH_S')
            if self.flags & STRICTENC and not 1 <= (sig[-1] & ~0x80) <= 3:
                raise Fail('SIG_HASHTYPE')
        if self.flags & STRICTENC and not (
                (len(pub) == 33 and pub[0] in (2, 3)) or (len(pub) == 65 and pub[0] == 4)):
            raise Fail('PUBKEYTYPE')

    def check_sig(self, sig, pub, code):
        sig, pub = bytes(sig), bytes(pub)
        if not sig:
            return False
        if len(pub) == 65 and pub[0] in (6, 7):
            if (pub[0] & 1) != (pub[64] & 1):
                return False
            pub = b'\4' + pub[1:]
        p = secp.parse_sec(pub)
        rs = _lax_der(sig[:-1])
        if p is None or rs is None:
            return False
        code = strip_codesep(code)
        h = rtx.sighash(self.tx, self.nin, code, sig[-1])
        ok = secp.verify(p[0], int.from_bytes(h, 'big'), rs[0], rs[1])
        if ok:
            self.seen.add('sig-ok')
        return ok

    def multisig(self, name):
        st = self.stack
        i = 1
        self.need(i)
        nk = self.num(st[-i])
        if not 0 <= nk <= 20:
            raise Fail('PUBKEY_COUNT')
        self.nops += nk
        if self.nops > 201:
            raise Fail('OP_COUNT')
        ikey = i + 1
        i += nk + 1
        self.need(i)
        ns = self.num(st[-i])
        if not 0 <= ns <= nk:
            raise Fail('SIG_COUNT')
        isig = i + 1
        i += ns + 1
        self.need(i)
        if ns:
            self.seen.add('sigop')
        else:
            self.seen.add('multisig0')
        code = self.raw[self.begin:]
        for k in range(ns):
            s = st[-isig - k]
            code = find_and_delete(code, push(s) if s else b'\0')
        ok = True
        while ok and ns > 0:
            sig, pub = st[-isig], st[-ikey]
            self.check_encodings(sig, pub)
            if self.check_sig(sig, pub, code):
                isig += 1
                ns -= 1
            ikey += 1
            nk -= 1
            if ns > nk:
                ok = False
        # the counts above were consumed; `i` still is the number of arguments including the dummy
        del st[len(st) - (i - 1):]
        self.need(1)
        if self.flags & NULLDUMMY and len(st[-1]):
            raise Fail('NULLDUMMY')
        st.pop()
        st.append(b'\1' if ok else b'')
        self.verify_top(name)


STACKOPS = {
    'OP_2DROP': (2, []), 'OP_2DUP': (2, [1, 2, 1, 2]), 'OP_3DUP': (3, [1, 2, 3, 1, 2, 3]),
    'OP_2OVER': (4, [1, 2, 3, 4, 1, 2]), 'OP_2ROT': (6, [3, 4, 5, 6, 1, 2]), 'OP_2SWAP': (4, [3, 4, 1, 2]),
    'OP_DROP': (1, []), 'OP_DUP': (1, [1, 1]), 'OP_NIP': (2, [2]), 'OP_OVER': (2, [1, 2, 1]),
    'OP_ROT': (3, [2, 3, 1]), 'OP_SWAP': (2, [2, 1]), 'OP_TUCK': (2, [2, 1, 2]),
}
UNARY = {
    'OP_1ADD': lambda a: a + 1, 'OP_1SUB': lambda a: a - 1, 'OP_NEGATE': lambda a: -a, 'OP_ABS': abs,
    'OP_NOT': lambda a: int(a == 0), 'OP_0NOTEQUAL': lambda a: int(a != 0),
}
BINARY = {
    'OP_ADD': lambda a, b: a + b, 'OP_SUB': lambda a, b: a - b, 'OP_BOOLAND': lambda a, b: a != 0 and b != 0,
    'OP_BOOLOR': lambda a, b: a != 0 or b != 0, 'OP_NUMEQUAL': lambda a, b: a == b,
    'OP_NUMEQUALVERIFY': lambda a, b: a == b, 'OP_NUMNOTEQUAL': lambda a, b: a != b, 'OP_LESSTHAN': lambda a, b: a < b,
    'OP_GREATERTHAN': lambda a, b: a > b, 'OP_LESSTHANOREQUAL': lambda a, b: a <= b,
    'OP_GREATERTHANOREQUAL': lambda a, b: a >= b, 'OP_MIN': min, 'OP_MAX': max,
}
HASHES = {
    'OP_RIPEMD160': ripemd160, 'OP_SHA1': lambda b: hashlib.sha1(b).digest(), 'OP_SHA256': sha256,
    'OP_HASH160': hash160, 'OP_HASH256': dsha,
}


def find_and_delete(raw, needle):
    """CScript::FindAndDelete: remove `needle` wherever it starts at an opcode boundary"""
    if not needle:
        return raw
    out, p = b'', 0
    while p < len(raw):
        if raw[p:p + len(needle)] == needle:
            p += len(needle)
            continue
        one = _one(raw, p)
        out += raw[p:one]
        p = one
    return out


def strip_codesep(raw):
    out, p = b'', 0
    while p < len(raw):
        one = _one(raw, p)
        if raw[p] != 171:
            out += raw[p:one]
        p = one
    return out


def _one(raw, p):
    op = raw[p]
    if 1 <= op <= 75:
        return min(len(raw), p + 1 + op)
    if 76 <= op <= 78:
        w = {76: 1, 77: 2, 78: 4}[op]
        return min(len(raw), p + 1 + w + int.from_bytes(raw[p + 1:p + 1 + w], 'little'))
    return p + 1


def sha1(b):
    return hashlib.sha1(b).digest()
