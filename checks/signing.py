"""Shared by the signing checks: the signed transaction is judged by the reference interpreter and signature hash."""
from ref import script as S, secp, tx as rtx
from vp import gen
from checks.txgen import same_tx

STRICT = S.P2SH | S.STRICTENC | S.DERSIG | S.LOW_S | S.NULLDUMMY | S.SIGPUSHONLY | S.MINIMALDATA


def spends(c, signed, t, n, prevout, what):
    """The reference accepts input n of the signed transaction as a spend of `prevout` under all flags"""
    sig = signed.inputs[n].script.to_bytes()
    full = {'version': t['version'], 'lock': t['lock'], 'outputs': t['outputs'], 'inputs': [dict(i) for i in t['inputs']]}
    for i, x in enumerate(signed.inputs):
        full['inputs'][i]['script'] = x.script.to_bytes()
    m = S.Machine(full, n, STRICT)
    if S.parse(sig) is None:
        c.fail(what + ': the signed script is not a script')
    ok = m.verify(sig, prevout)
    c.ok(ok, '%s: input %d does not spend its output (%s)' % (what, n, m.error), sig)


def sig_ok(t, n, code, sig, pub, hashtype):
    """(valid with the standard hash of its type, valid with the SIGHASH_ALL-style hash carrying that type)"""
    rs = secp.parse_strict_der(sig[:-1])
    if rs is None:
        return False, False
    e = int.from_bytes(rtx.sighash(t, n, code, hashtype), 'big')
    u = dict(t)
    u['inputs'] = [dict(i, script=code if k == n else b'') for k, i in enumerate(t['inputs'])]
    from ref.enc import dsha
    e2 = int.from_bytes(dsha(rtx.ser(u) + hashtype.to_bytes(4, 'little')), 'big')
    return secp.verify(pub, e, *rs), secp.verify(pub, e2, *rs)


def others_untouched(c, before, signed, t, n):
    """Everything but input n is as it was, in the signed transaction and in the one it was made from"""
    c.eq(before.to_bytes(), rtx.ser(t), 'the transaction that was signed, afterwards')
    u = {'version': t['version'], 'lock': t['lock'], 'outputs': t['outputs'], 'inputs': [dict(i) for i in t['inputs']]}
    u['inputs'][n]['script'] = signed.inputs[n].script.to_bytes()
    same_tx(c, signed, u, 'signed')
    c.eq(signed.to_bytes(), rtx.ser(u), 'serialization of the signed transaction')
    return u


N = secp.N
# nonces whose point has a short x, or which are themselves at the ends of the range
STEER = [1, 2, N - 1, (N + 1) // 2, N // 2, 2 ** 255] + gen.SPECIAL['x1'] + gen.SPECIAL['x2'][:6]
SHORT = ['low', 'high', '31 low', '31 high', '31 padded', 'padded', '30']


def grind(t, n, code, secret, k, want, start=0):
    """A lock time with which signing input n with nonce k gives an S of the wanted kind (before it is made low: low or high; after: of 31 bytes, or 30, with or without padding)"""
    r = secp.mul_g(k)[0] % N
    ki = pow(k, -1, N)
    for lock in range(start, start + 200000):
        e = int.from_bytes(rtx.sighash(dict(t, lock=lock & 0xffffffff), n, code, 1), 'big')
        s = ki * (e + r * secret) % N
        low = min(s, N - s)
        if ('31' in want and low.bit_length() not in range(240, 249)) or (want == '30' and low.bit_length() > 240) or ('low' in want and s != low) or ('high' in want and s == low) or \
                ('padded' in want and (low >> (247 if '31' in want else 255 - 8)) & 1 == 0):
            continue
        return lock & 0xffffffff
