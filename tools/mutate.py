"""Mutation campaign (development aid): python3 tools/mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S]

Makes one small change to the library at a time in scratch copies under /tmp, keeps those which pass the repository's
tests, runs the checks anchored to the changed file (then the others) against the copy, and records what survives.
"""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.FloorDiv],
       ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift],
       ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}


def variants(node):
    """[(description, function that edits the node in place or returns a replacement)]"""
    out = []
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                out.append(('cmp%d %s>%s' % (i, type(op).__name__, new.__name__), lambda n, i=i, new=new: n.ops.__setitem__(i, new())))
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            out.append(('bin %s>%s' % (type(node.op).__name__, new.__name__), lambda n, new=new: setattr(n, 'op', new())))
        out.append(('bin left', lambda n: n.left))
        out.append(('bin right', lambda n: n.right))
    if isinstance(node, ast.AugAssign):
        for new in BIN.get(type(node.op), []):
            out.append(('aug %s>%s' % (type(node.op).__name__, new.__name__), lambda n, new=new: setattr(n, 'op', new())))
    if isinstance(node, ast.BoolOp):
        out.append(('boolop', lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        for i in range(len(node.values)):
            def drop(n, i=i):
                n.values.pop(i)
                return n.values[0] if len(n.values) == 1 else n
            out.append(('boolop drop %d' % i, drop))
    if isinstance(node, ast.UnaryOp):
        out.append(('unary drop', lambda n: n.operand))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(('bool', lambda n: setattr(n, 'value', not n.value)))
        elif isinstance(v, int):
            out.append(('int+1', lambda n: setattr(n, 'value', n.value + 1)))
            out.append(('int-1', lambda n: setattr(n, 'value', n.value - 1)))
        elif isinstance(v, bytes) and v:
            out.append(('bytes', lambda n: setattr(n, 'value', bytes([n.value[0] ^ 1]) + n.value[1:])))
        elif isinstance(v, float):
            out.append(('float', lambda n: setattr(n, 'value', n.value + 1)))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        out.append(('cond True', lambda n: setattr(n, 'test', ast.Constant(True))))
        out.append(('cond False', lambda n: setattr(n, 'test', ast.Constant(False))))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(('stmt drop', lambda n: ast.Pass()))
    if isinstance(node, ast.Return) and node.value is not None:
        out.append(('return None', lambda n: setattr(n, 'value', ast.Constant(None))))
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            out.append(('kw drop %s' % node.keywords[i].arg, lambda n, i=i: n.keywords.pop(i) and None))
        if len(node.args) >= 2:
            for i in range(len(node.args) - 1):
                def swap(n, i=i):
                    n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                out.append(('arg swap %d' % i, swap))
            out.append(('arg drop last', lambda n: n.args.pop() and None))
        if isinstance(node.func, ast.Name) and node.func.id in ('reversed', 'tuple', 'list', 'bytes', 'bytearray', 'round', 'int', 'sorted', 'set') and node.args:
            out.append(('call unwrap', lambda n: n.args[0]))
        if isinstance(node.func, ast.Name) and node.func.id in ('all', 'any', 'min', 'max'):
            m = {'all': 'any', 'any': 'all', 'min': 'max', 'max': 'min'}
            out.append(('call swap', lambda n: setattr(n.func, 'id', m[n.func.id])))
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            out.append(('slice no lower', lambda n: setattr(n, 'lower', None)))
        if node.upper is not None:
            out.append(('slice no upper', lambda n: setattr(n, 'upper', None)))
    if isinstance(node, ast.ExceptHandler):
        if isinstance(node.type, ast.Tuple):
            for i in range(len(node.type.elts)):
                out.append(('except drop %d' % i, lambda n, i=i: n.type.elts.pop(i) and None))
    if isinstance(node, (ast.List, ast.Tuple)) and isinstance(getattr(node, 'ctx', None), ast.Load) and len(node.elts) > 1:
        for i in range(len(node.elts)):
            out.append(('elt drop %d' % i, lambda n, i=i: n.elts.pop(i) and None))
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, want, k):
        self.n, self.want, self.k, self.info = -1, want, k, None

    def visit(self, node):
        self.n += 1
        if self.n == self.want:
            desc, fn = variants(node)[self.k]
            self.info = (getattr(node, 'lineno', 0), desc)
            r = fn(node)
            return node if r is None else r
        return super().generic_visit(node)


def count(tree):
    out, n = [], [-1]

    class V(ast.NodeTransformer):
        def visit(self, node):
            n[0] += 1
            for k in range(len(variants(node))):
                out.append((n[0], k))
            return super().generic_visit(node)
    V().visit(copy.deepcopy(tree))
    return out


def skip(f, line, desc, text):
    """Places where a change can't matter: self-tests, Python 2 branches, internal error codes, the unreachable rest of CHECKSIG"""
    return (not line or f == 'utils/ellipticcurve.py' and line > 188 or 'errstr' in text or f == 'script/interpreter.py' and 'return None' in desc and 'return False' in text
            or f == 'utils/intbytes.py' and line > 41 or f == 'utils/encoding.py' and 103 <= line <= 116 or 'print(' in text or 'format(' in text or '"<' in text
            or f == 'networks.py' and 'elt' in desc or f == 'script/interpreter.py' and 640 <= line <= 668)


def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/vp', PYTHONHASHSEED='0', **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--all-checks', action='store_true')
    a = ap.parse_args()
    files = a.files.split(',') if a.files else [
        'privkey.py', 'pubkey.py', 'address.py', 'networks.py', 'hdprivkey.py', 'hdpubkey.py', 'encoding.py', 'tools.py', 'signature.py', 'unit.py',
        'uri.py', 'errors.py', 'script/instruction.py', 'script/opcode.py', 'script/script.py', 'script/interpreter.py', 'transaction/input.py',
        'transaction/output.py', 'transaction/transaction.py', 'utils/ecdsa.py', 'utils/numbertheory.py', 'utils/intbytes.py',
        'utils/ellipticcurve.py', 'utils/encoding.py', 'utils/secp256k1.py']
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    rel = {}
    for f in files:
        rel[f] = [p['id'] for p in props if any(x == 'bitforge/' + f or (x.endswith('*.py') and f.startswith(x[9:-4])) for x in p['anchors']['files'])]
    everything = [p['id'] for p in props]
    cost = ['C08', 'C27', 'C28', 'C09', 'C11', 'C12', 'C13', 'C10', 'C03']           # last
    jobs = []
    for f in files:
        src = open(os.path.join(REPO, 'bitforge', f)).read()
        tree = ast.parse(src)
        for n, k in count(tree):
            t = copy.deepcopy(tree)
            ap_ = Apply(n, k)
            t = ap_.visit(t)
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, f, 'exec')
            except Exception:
                continue
            line, text = ap_.info[0], src.split('\n')[ap_.info[0] - 1] if ap_.info[0] else ''
            if skip(f, line, ap_.info[1], text):
                continue
            jobs.append((f, ap_.info[0], ap_.info[1], new, src.split('\n')[ap_.info[0] - 1].strip() if ap_.info[0] else ''))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[:a.sample]
    print(len(jobs), 'mutants', flush=True)
    base = '/tmp/mut/w'
    pool = queue.Queue()
    for i in range(a.jobs):
        d = base + str(i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(ROOT, d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'replays', 'seeded'))
        pool.put(d)
    out = open(a.out, 'a')
    done = [0]

    def one(j):
        f, line, desc, new, text = j
        d = pool.get()
        path = os.path.join(d, 'repo', 'bitforge', f)
        orig = open(os.path.join(REPO, 'bitforge', f)).read()
        res = {'file': f, 'line': line, 'desc': desc, 'text': text}
        try:
            open(path, 'w').write(new)
            rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], d + '/repo', 60)
            if rc != 0:
                res['killed'] = 'tests'
                return res
            order = [c for c in rel[f] if c not in cost] + [c for c in rel[f] if c in cost]
            if a.all_checks:
                order += [c for c in everything if c not in order]
            errs = []
            for c in order:
                rc, o = sh(['./check', c, '--jobs', '1'], d + '/verif', 900, {'VP_REPO': d + '/repo', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                if rc == 1 and 'VIOLATION property=' + c in o:
                    res['killed'] = c
                    return res
                if rc != 0:
                    errs.append((c, rc, o[-400:]))
            res['killed'] = None
            if errs:
                res['errors'] = errs
            return res
        finally:
            open(path, 'w').write(orig)
            pool.put(d)
            done[0] += 1
            out.write(json.dumps(res) + '\n')
            out.flush()
            if done[0] % 50 == 0:
                print(done[0], flush=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, jobs))
    for i in range(a.jobs):
        shutil.rmtree(base + str(i), ignore_errors=True)


main()
