"""Rewrite a copy of the library without changing what it does (returns through a variable, branches turned round, loops over explicit iterators, renamed locals,
   constants as sums, conditions nested or joined, functions wrapped in helpers), run its tests, then all checks on the copy; every alarm there is a false one.
   Usage: python3 tools/refactor.py SEED [SEED ...] [--jobs N]. Development tool; no check uses it."""
import ast, os, random, shutil, subprocess, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
jobs = '4'
if '--jobs' in a:
    i = a.index('--jobs'); jobs = a[i + 1]; del a[i:i + 2]
only = []
if '--checks' in a:
    i = a.index('--checks'); only = a[i + 1].split(','); del a[i:i + 2]


class Locals(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id)
        return n


class Rewrite(ast.NodeTransformer):
    def __init__(self, r, rate):
        self.r, self.rate, self.n, self.fn = r, rate, 0, None

    def go(self):
        return self.fn is not None and self.r.random() < self.rate

    def fresh(self, base):
        self.n += 1
        return '%s_%d' % (base, self.n)

    def visit_FunctionDef(self, f):
        old, self.fn = self.fn, f
        decos = f.decorator_list
        f.decorator_list = []
        f.args.defaults, keep = [], f.args.defaults
        self.generic_visit(f)
        f.decorator_list, f.args.defaults = decos, keep
        self.fn = old
        inner = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and x is not f]
        uses = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
        if not inner and not {'locals', 'vars', 'eval', 'exec', 'super', '__class__'} & (uses - {'super'}) and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)) and self.r.random() < self.rate:
            params = {x.arg for x in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
            handlers = {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler)}
            mine = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - handlers
            names = {v: self.fresh(v) for v in mine}
            f.body = [Locals(names).visit(s) for s in f.body]
        return f

    def visit_ClassDef(self, k):
        old, self.fn = self.fn, None
        self.generic_visit(k)
        self.fn = old
        return k

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or not self.go():
            return n
        v = self.fresh('result')
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        if not self.go():
            return n
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            inner = ast.If(n.test.values[-1], n.body, [])
            rest = n.test.values[:-1]
            return ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), [inner], [])
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        if n.body and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            v = self.fresh('cond')
            return [ast.Assign([ast.Name(v, ast.Store())], n.test), ast.If(ast.Name(v, ast.Load()), n.body, [])]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not self.go():
            return n
        v = self.fresh('item')
        return ast.For(ast.Name(v, ast.Store()), n.iter, [ast.Assign([n.target], ast.Name(v, ast.Load()))] + n.body, [])

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body) if self.go() else n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Name) and self.go():
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
            if flip and isinstance(n.comparators[0], (ast.Name, ast.Constant)):
                return ast.Compare(n.comparators[0], [flip()], [n.left])
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, int) and not isinstance(n.value, bool) and 3 < n.value < 2 ** 40 and self.go():
            k = self.r.randrange(1, n.value)
            return ast.BinOp(ast.Constant(n.value - k), ast.Add(), ast.Constant(k))
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []) if self.go() else n


def rewrite(path, seed):
    src = open(path).read()
    tree = Rewrite(random.Random('%s%s' % (seed, os.path.basename(path))), random.Random(seed).choice([.3, .6, .9])).visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    open(path, 'w').write(ast.unparse(tree) + '\n')


env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
for seed in a:
    w = '/tmp/refactor/%s' % seed
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for d, _, fs in os.walk(w + '/bitforge'):
        for f in fs:
            if f.endswith('.py'):
                rewrite(os.path.join(d, f), seed)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env, capture_output=True, text=True)
    print(seed, 'tests', t.returncode, t.stdout[-300:] if t.returncode else '', subprocess.run(['git', 'diff', '--shortstat'], cwd=w, capture_output=True, text=True).stdout, flush=True)
    if t.returncode:
        continue
    for i in range(1, 39):
        pid = 'C%02d' % i
        if only and pid not in only:
            continue
        c = subprocess.run(['./check', pid, '--jobs', jobs], cwd=here, env=dict(env, VP_REPO=w, VERIF_SEED=seed), capture_output=True, text=True)
        print(seed, pid, c.returncode, c.stdout.strip()[-1500:] if c.returncode else '', flush=True)
    shutil.rmtree(w, ignore_errors=True)
