"""Searches small secrets whose public key / hash has leading zero bytes; writes data/special_secrets.json (committed)."""
import json, os
from . import secp, enc

def main(limit=200000):
    out = {'x1': [], 'x2': [], 'y1': [], 'y2': [], 'hc1': [], 'hc2': [], 'hu1': [], 'hu2': []}
    P = secp.P
    batch = 500
    step = (secp.GX, secp.GY, 1)
    cur = step
    k = 1
    while k < limit:
        pts = []
        for _ in range(batch):
            pts.append(cur)
            cur = secp._add(cur, step)
        acc, pref = 1, []
        for p in pts:
            pref.append(acc)
            acc = acc * p[2] % P
        inv = pow(acc, -1, P)
        aff = [None] * batch
        for i in range(batch - 1, -1, -1):
            zi = inv * pref[i] % P
            inv = inv * pts[i][2] % P
            z2 = zi * zi % P
            aff[i] = (pts[i][0] * z2 % P, pts[i][1] * z2 * zi % P)
        for i, (x, y) in enumerate(aff):
            kk = k + i
            for nm, v in (('x', x), ('y', y)):
                if v >> 240 == 0: out[nm + '2'].append(kk)
                elif v >> 248 == 0 and len(out[nm + '1']) < 6: out[nm + '1'].append(kk)
            for nm, c in (('hc', True), ('hu', False)):
                h = enc.hash160(secp.sec((x, y), c))
                if h[:2] == b'\0\0': out[nm + '2'].append(kk)
                elif h[0] == 0 and len(out[nm + '1']) < 6: out[nm + '1'].append(kk)
        cur_aff = secp._affine(cur); cur = (cur_aff[0], cur_aff[1], 1)
        k += batch
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'special_secrets.json')
    json.dump(out, open(path, 'w'), indent=1, sort_keys=True)
    print({a: len(b) for a, b in out.items()})

if __name__ == '__main__':
    main()
