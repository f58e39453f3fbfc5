from hypothesis import strategies as st
from ref import script as S, secp, tx as rtx, enc
from vp import gen
from vp.core import Check
from checks.interp import judge, push_any, flags_any, OP, with_known_truth

check = Check('C23', 'spends by signature (P2PKH, bare key, m-of-n multisig, in the open or behind P2SH) with signatures made by the reference: valid, '
              'for another transaction/key/input/hash type, damaged, empty, out of order, missing; negated checks; garbage operands; '
              'and checks in branches not taken or with no signatures needed, which must be judged exactly; non-trivial: a signature '
              'check is executed')
ins = st.lists(st.fixed_dictionaries({'txid': gen.txid, 'index': gen.u32, 'seq': gen.u32}), min_size=1, max_size=3)
outs = st.lists(st.fixed_dictionaries({'amount': gen.u64, 'script': st.sampled_from([b'', b'\x51', gen.p2pkh_raw(b'\7' * 20)])}), min_size=1, max_size=3)
SEC = [1, 2, 3, gen.N - 1, gen.SPECIAL['x1'][0], 12345, gen.SPECIAL['hc1'][0], 2 ** 255]
HOWS = ['valid', 'other amount', 'other key', 'flip', 'empty', 'no type', 'type 0', 'none', 'single', 'acp', 'trailing', 'garbage', 'high s', 'neg r', 'other lock', 'swap']


def base_tx(k):
    return {'version': k['version'], 'inputs': [dict(i, script=b'') for i in k['ins']], 'outputs': k['outs'], 'lock': k['lock']}


def sign(tx, n, code, secret, how, nonce):
    t = dict(tx)
    typ = {'none': 2, 'single': 3, 'acp': 0x81, 'type 0': 0}.get(how, 1)
    if how == 'other amount':
        t['outputs'] = [dict(tx['outputs'][0], amount=tx['outputs'][0]['amount'] ^ 1)] + tx['outputs'][1:]
    if how == 'other lock':
        t['lock'] = tx['lock'] ^ 1
    if how == 'other key':
        secret = secret % (gen.N - 1) + 1
    e = int.from_bytes(rtx.sighash(t, n, code, typ), 'big')
    r, s = secp.sign(secret, e, nonce)
    if (s > secp.HALF_N) != (how == 'high s'):
        s = gen.N - s
    if how == 'swap':
        r, s = s, r
    der = secp.der_sig(r, s)
    if how == 'empty':
        return b''
    if how == 'no type':
        return der
    if how == 'flip':
        b = bytearray(der)
        b[-5] ^= 4
        der = bytes(b)
    if how == 'garbage':
        return b'\x30' + b'\1' * 70
    if how == 'trailing':
        der += b'\0'
    if how == 'neg r' and der[4] == 0:
        der = b'\x30' + bytes([der[1] - 1, 2, der[3] - 1]) + der[5:]
    return der + bytes([typ])


spend = st.fixed_dictionaries({
    'version': st.sampled_from([1, 2, 0xffffffff]), 'ins': ins, 'outs': outs, 'lock': gen.u32, 'n': st.integers(0, 2), 'k': st.lists(st.sampled_from(SEC), min_size=1, max_size=3),
    'm': st.integers(1, 3), 'kind': st.sampled_from(['p2pkh', 'key', 'multi', 'p2sh-multi', 'p2sh-key']), 'comp': st.booleans(),
    'how': st.lists(st.one_of(st.just('valid'), st.sampled_from(HOWS)), min_size=3, max_size=3), 'not': st.booleans(), 'verify': st.booleans(),
    'nonce': st.integers(1, 60), 'flags': flags_any, 'order': st.booleans()})


def fixed():
    for kind in ('p2pkh', 'key', 'multi', 'p2sh-multi', 'p2sh-key'):
        for how in HOWS:
            for no in (False, True):
                for ve in (False, True):
                    yield {'version': 1, 'ins': [{'txid': '11' * 32, 'index': 0, 'seq': 0}], 'outs': [{'amount': 5, 'script': b'\x51'}], 'lock': 0, 'n': 0,
                           'k': [1, 12345], 'm': 1, 'kind': kind, 'comp': True, 'how': [how, 'valid', 'valid'], 'not': no, 'verify': ve, 'nonce': 7,
                           'flags': S.P2SH, 'order': False}


@check.sub('spend', spend, quick=900, thorough=30000, fixed=lambda: list(fixed()))
def spend_(c, k):
    tx = base_tx(k)
    n = k['n'] % len(tx['inputs'])
    secs = [secp.sec(secp.mul_g(x), k['comp']) for x in k['k']]
    tail = (b'\x91' if k['not'] else b'')
    multi = k['kind'].endswith('multi')
    if multi:
        m = min(k['m'], len(secs))
        op = b'\xaf' + (b'\x00' if k['not'] else b'\x51') if k['verify'] else b'\xae' + tail
        code = push_any(S.num_enc(m)) + b''.join(map(S.push, secs)) + push_any(S.num_enc(len(secs))) + op
        sigs = [sign(tx, n, code, k['k'][i], k['how'][i], k['nonce'] + i) for i in range(m)]
        if k['order']:
            sigs.reverse()
        args = b'\0' + b''.join(push_any(s) for s in sigs)
    else:
        op = b'\xad' + (b'\x00' if k['not'] else b'\x51') if k['verify'] else b'\xac' + tail
        if k['kind'] == 'p2pkh':
            code = b'\x76\xa9\x14' + enc.hash160(secs[0]) + b'\x88' + op
        else:
            code = S.push(secs[0]) + op
        s = sign(tx, n, code, k['k'][0], k['how'][0], k['nonce'])
        args = push_any(s) + (S.push(secs[0]) if k['kind'] == 'p2pkh' else b'')
    if k['kind'].startswith('p2sh'):
        sig, pk, fl = args + S.push(code), gen.p2sh_raw(enc.hash160(code)), k['flags'] | S.P2SH
    else:
        sig, pk, fl = args, code, k['flags']
    tx['inputs'][n] = dict(tx['inputs'][n], script=sig)
    mch = judge(c, sig, pk, tx, n, fl, sigops=True)
    if 'sigop' in mch.seen:
        c.nt('%s: %s' % (k['kind'], 'accepted' if mch.error is None else 'refused'))
    c.label(mch.error or 'accepted')


@check.sub('operands', st.tuples(st.lists(st.one_of(gen.small_data, st.just(b''), st.sampled_from([b'\1', b'\2', b'\3', b'\x81', b'\0', b'\x14', b'\x15', b'\x80'])), max_size=8),
                                 st.sampled_from([0xac, 0xad, 0xae, 0xaf]), st.sampled_from([b'', b'\x91', b'\x51', b'\x75\x51', b'\x63\x00\x67\x51\x68']), flags_any).map(list),
           quick=3000, thorough=60000,
           fixed=lambda: [[[b'\1'] * n, op, b'', 0] for n in range(5) for op in (0xac, 0xad, 0xae, 0xaf)]
           + [[[b'', b'', bytes([n]) if n else b''], 0xae, b'', 0] for n in range(0, 30)])
def operands(c, k):
    """Garbage operands, counts out of range, too few operands"""
    st_, op, tail, fl = k
    raw = b''.join(map(push_any, st_))
    m = judge(c, raw, bytes([op]) + tail, None, 0, fl & ~S.SIGPUSHONLY, sigops=True)
    judge(c, b'', raw + bytes([op]) + tail + b'\x51', None, 0, fl & ~S.MINIMALDATA, sigops=True)
    if 'sigop' in m.seen or 'multisig0' in m.seen:
        c.nt(m.error or 'accepted')


EMPTYISH = [b'', b'\0', b'\1', b'\x80', b'\1\1', b'\0' * 33, b'\2' + b'\0' * 32, b'\4' + b'\0' * 64, secp.sec(secp.G), secp.sec(secp.G, False), b'\x30\6\2\1\1\2\1\1\1', b'\x30\6\2\1\0\2\1\0\1', b'a' * 520]


@check.sub('degenerate', None, fixed=lambda: [[a, b, op, t] for a in EMPTYISH for b in EMPTYISH for op in (0xac, 0xad, 0xae, 0xaf) for t in (b'', b'\x91', b'\x51')])
def degenerate(c, k):
    """Empty and degenerate signatures and keys, in every combination, are no signatures"""
    a, b, op, t = k
    ops = bytes([op]) + t
    if op < 0xae:
        judge(c, push_any(a) + push_any(b), ops, None, 0, 0, sigops=True)
        judge(c, b'\x51' + push_any(a) + push_any(b), ops, None, 0, S.P2SH | S.STRICTENC | S.DERSIG | S.LOW_S, sigops=True)
        r = push_any(b) + ops
        if len(r) <= 520:
            judge(c, push_any(a) + S.push(r), gen.p2sh_raw(S.hash160(r)), None, 0, S.P2SH, sigops=True)
    else:
        for m, keys in ((b'\x51', [b]), (b'\x51', [a, b]), (b'\x52', [b, b])):
            args = b'\0' + push_any(a) * (m[0] - 0x50) + m + b''.join(map(push_any, keys)) + bytes([0x50 + len(keys)])
            judge(c, args, ops, None, 0, 0, sigops=True)
            judge(c, b'\x51' + args, ops, None, 0, S.P2SH | S.STRICTENC | S.DERSIG | S.NULLDUMMY, sigops=True)
    c.nt()


@check.sub('every-count', None, fixed=lambda: [[m, n, op, i] for n in range(21) for m in range(n + 1) for op in (b'\xae', b'\xae\x91', b'\xaf\x51') for i in range(3)]
           + [[m, n, b'\xae', 3] for m, n in ((1, 1), (1, 2), (2, 3), (1, 15), (1, 16), (1, 19), (1, 20), (2, 20), (20, 20))])
def every_count(c, k):
    """Every m of n up to the limit, with empty, short and well-formed signatures of nothing"""
    m, n, op, i = k
    sig = [b'', b'\1', b'\x30\6\2\1\1\2\1\1\1', secp.der_sig(*secp.sign(5, 77, 9)) + b'\1'][i]
    keys = [secp.sec(secp.mul_g(s), s % 3 > 0) if i > 1 else bytes([s]) for s in range(1, n + 1)]
    args = b'\0' + push_any(sig) * m
    code = push_any(S.num_enc(m)) + b''.join(map(push_any, keys)) + push_any(S.num_enc(n)) + op
    mch = judge(c, args, code, None, 0, 0, sigops=True)
    c.ref((mch.error is None) == (m == 0) if op != b'\xae\x91' else True, 'reference on %r' % k)
    judge(c, args, code, None, 0, S.P2SH | S.NULLDUMMY, sigops=True)
    judge(c, b'', args + code, None, 0, 0, sigops=True)
    if len(code) <= 520:
        judge(c, args + S.push(code), gen.p2sh_raw(S.hash160(code)), None, 0, S.P2SH, sigops=True)
    c.nt('none needed' if m == 0 else 'some needed')


@check.sub('no-signatures', st.tuples(st.integers(0, 20), st.lists(st.one_of(gen.small_data, st.just(b'')), min_size=20, max_size=20), st.one_of(gen.small_data, st.just(b'')),
                                      st.booleans(), st.lists(st.sampled_from([b'\x51', b'\x52', b'\x03abc']), max_size=3)).map(list), quick=400, thorough=6000)
def no_signatures(c, k):
    """0-of-n multisig needs no signature: it succeeds, consuming its operands and the dummy, and nothing else"""
    n, keys, dummy, verify, below = k
    raw = b''.join(below) + push_any(dummy) + b'\0' + b''.join(map(push_any, keys[:n])) + push_any(S.num_enc(n)) + (b'\xaf' if verify else b'\xae\x69')
    pin = b''.join(b + b'\x88' for b in reversed(below)) + b'\x74\x00\x87'
    m = judge(c, b'', raw + pin, sigops=True)
    c.ref(m.error is None, 'reference refuses 0-of-n')
    judge(c, b'', raw + pin[:-1] + b'\x88\x51', sigops=True)
    judge(c, b'', raw[:-1] + b'\x75' * (not verify) + b'\x74\x51\x87', sigops=True)
    c.nt('%d keys' % n)


@check.sub('dead', st.tuples(st.sampled_from([0xac, 0xad, 0xae, 0xaf]), st.integers(0, 3)).map(list), quick=30, thorough=100)
def dead(c, k):
    """In a branch not taken a signature check is not made"""
    b = bytes([k[0]]) * k[1]
    judge(c, b'\x51', b'\x00\x63' + b + b'\x68')
    judge(c, b'\x51', b'\x51\x63\x67' + b + b'\x68')
    judge(c, b'\x51', b'\x51\x64' + b + b'\x67\x51\x69\x68')
    c.nt()


with_known_truth(check)
