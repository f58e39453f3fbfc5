"""The script text format of bitcoind's test vectors (used only to self-test the reference)."""
import re
from . import script as S


def parse_text(text):
    out = b''
    for w in text.split():
        if re.match(r'^-?\d+$', w):
            n = int(w)
            if n == -1 or 1 <= n <= 16:
                out += bytes([n + 80])
            elif n == 0:
                out += b'\0'
            else:
                out += S.push(S.num_enc(n))
        elif w.startswith('0x'):
            out += bytes.fromhex(w[2:])
        elif len(w) >= 2 and w[0] == "'" and w[-1] == "'":
            d = w[1:-1].encode()
            out += S.push(d) if d else b'\0'
        else:
            name = w if w.startswith('OP_') else 'OP_' + w
            name = {'OP_NOP2': 'OP_CHECKLOCKTIMEVERIFY', 'OP_TRUE': 'OP_1', 'OP_FALSE': 'OP_0'}.get(name, name)
            out += bytes([S.OPS[name]])
    return out
