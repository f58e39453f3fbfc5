#!/usr/bin/env python3
"""How rare may a wrong result be and still be seen? For each function of the library a copy of /repo is made in which that
function, for about one in K of its arguments (chosen by a hash of them), returns a slightly wrong result; the checks of the
properties about that file are run until one notices. Prints one line per function. Usage: sensitivity.py K [NAME..] [--workers N]
(run it from a copy of /verif; nothing is written to /repo or /verif)."""
import ast, os, queue, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CHECKS = {
    'privkey.py': 'C01 C02 C03 C08 C38', 'pubkey.py': 'C04 C03 C38', 'address.py': 'C05 C06 C03', 'hdprivkey.py': 'C11 C13 C12', 'hdpubkey.py': 'C12 C13',
    'encoding.py': 'C30 C18 C07 C37 C25', 'tools.py': 'C30 C26', 'unit.py': 'C31', 'uri.py': 'C32', 'networks.py': 'C38', 'signature.py': 'C33',
    'script/script.py': 'C17 C14 C15 C16 C22', 'script/instruction.py': 'C14 C16 C15 C34', 'script/opcode.py': 'C15 C14 C16 C34', 'script/interpreter.py': 'C19 C21 C24',
    'transaction/input.py': 'C25 C27 C28 C29 C17', 'transaction/output.py': 'C36 C25 C17', 'transaction/transaction.py': 'C25 C27 C28',
    'utils/ecdsa.py': 'C09 C10 C03', 'utils/ellipticcurve.py': 'C10 C09', 'utils/numbertheory.py': 'C10', 'utils/encoding.py': 'C37 C07 C04 C10', 'utils/intbytes.py': 'C10 C11',
}
TAIL = '''

def _vp_wrap(owner, name, k, salt):
    import zlib, functools
    raw = owner.__dict__[name] if isinstance(owner, type) else getattr(owner, name)
    kind = type(raw) if isinstance(raw, (staticmethod, classmethod)) else None
    f = raw.__func__ if kind else raw

    def wrong(x):
        if isinstance(x, bool): return not x
        if isinstance(x, int): return x + 1
        if isinstance(x, float): return x * 1.0001 + 1
        if isinstance(x, bytearray): return type(x)(bytes(x)[:-1] + bytes([bytes(x)[-1] ^ 1])) if x else type(x)(b'\\1')
        if isinstance(x, bytes): return x[:-1] + bytes([x[-1] ^ 1]) if x else b'\\1'
        if isinstance(x, str): return x[:-1] + ('1' if x[-1:] != '1' else '2')
        if isinstance(x, list): return x[:-1] if x else [None]
        if isinstance(x, dict): return dict(list(x.items())[:-1])
        if hasattr(x, '_fields'):
            n = {'PublicKey': None, 'Address': 'phash', 'PrivateKey': 'secret', 'Script': 'instructions', 'HDPrivateKey': 'chain', 'HDPublicKey': 'chain'}
            d = x._asdict() if hasattr(x, '_asdict') else {}
            if 'secret' in d: d['secret'] = d['secret'] - 1 or 2
            elif 'pair' in d: d['pair'] = (d['pair'][0], 2 ** 256 - 2 ** 32 - 977 - d['pair'][1])
            elif 'phash' in d: d['phash'] = wrong(d['phash'])
            elif 'instructions' in d: d['instructions'] = d['instructions'][:-1]
            elif 'chain' in d: d['chain'] = wrong(d['chain'])
            elif 'seq_number' in d: d['seq_number'] ^= 1
            elif 'amount' in d: d['amount'] ^= 1
            elif 'lock_time' in d: d['lock_time'] ^= 1
            elif 'data' in d and d['data']: d['data'] = wrong(d['data'])
            elif 'number' in d: d['number'] ^= 1
            else: return x
            return tuple.__new__(type(x), tuple(d.values()))
        if isinstance(x, tuple): return tuple(wrong(i) for i in x[:1]) + x[1:]
        if type(x).__name__ == 'Point': return x.double()
        return x

    @functools.wraps(f)
    def g(*a, **kw):
        x = f(*a, **kw)
        shown = [i.to_bytes() if hasattr(i, 'to_bytes') and not isinstance(i, int) else i.pair() if hasattr(i, 'pair') and callable(i.pair) else i for i in a]
        return wrong(x) if zlib.crc32((salt + repr((shown, sorted(kw.items())))).encode('utf8', 'replace')) % k == 0 else x
    if isinstance(owner, type):
        setattr(owner, name, kind(g) if kind else g)
    else:
        globals()[name] = g
'''


def targets():
    for f in CHECKS:
        t = ast.parse(open(os.path.join(REPO, 'bitforge', f)).read())
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and n.name not in ('__main__',):
                yield f, None, n.name
            if isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and not (m.name.startswith('__') and m.name not in ('__new__', '__add__', '__mul__')) and m.name not in ('prepare',):
                        yield f, n.name, m.name


def one(f, cls, name, k):
    d = tempfile.mkdtemp(prefix='sens')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
    try:
        for salt in range(12):
            shutil.rmtree(d)
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            with open(os.path.join(d, 'bitforge', f), 'a') as o:
                o.write(TAIL + '\n_vp_wrap(%s, %r, %d, %r)\n' % (cls or '__import__("sys").modules[__name__]', name, k, str(salt)))
            if subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, capture_output=True).returncode == 0:
                break
        else:
            return 'the tests notice'
        tried = []
        for c in CHECKS[f].split():
            try:
                r = subprocess.run(['./check', c, '--jobs', '2'], cwd=HERE, env=dict(env, VP_REPO=d, VERIF_SEED='1'), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                tried.append(c + ' timed out')
                continue
            if r.returncode == 1:
                return 'noticed by ' + c
            tried.append('%s %d' % (c, r.returncode))
        return 'NOT NOTICED: ' + ' '.join(tried)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    w = int(a[a.index('--workers') + 1]) if '--workers' in a else 2
    if '--workers' in a:
        del a[a.index('--workers'):a.index('--workers') + 2]
    k, only = int(a[0]), set(a[1:])
    ts = [t for t in targets() if not only or t[2] in only or t[0] in only]

    def go(t):
        print('%s %s%s: %s' % (t[0], t[1] + '.' if t[1] else '', t[2], one(*t, k)), flush=True)
    with ThreadPoolExecutor(w) as e:
        list(e.map(go, ts))


main()
