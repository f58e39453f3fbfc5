"""Constants of the library's source as a dictionary for the generators (as fuzzers use one).

Numbers, texts and byte strings that occur in the tree under test are mixed into the generated values; those which do not
occur in the tree the baseline (data/constants.json) was taken from, more often: they are where behaviour may have changed.
This guides generation only. What is right is decided by the oracles alone, and an empty dictionary would lose nothing but
speed in finding a failure."""
import ast
import json
import os
from collections import Counter

from . import core


def fold(node):
    """the value of an expression made of constants, or None"""
    if isinstance(node, ast.Constant):
        return node.value if isinstance(node.value, (int, float, str, bytes)) and not isinstance(node.value, bool) else None
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Invert)):
        v = fold(node.operand)
        if isinstance(v, int):
            return -v if isinstance(node.op, ast.USub) else ~v
    if isinstance(node, ast.BinOp):
        a, b = fold(node.left), fold(node.right)
        if isinstance(a, int) and isinstance(b, int):
            o = type(node.op)
            if o is ast.Add: return a + b
            if o is ast.Sub: return a - b
            if o is ast.Mult: return a * b
            if o is ast.BitOr: return a | b
            if o is ast.LShift and 0 <= b <= 600: return a << b
            if o is ast.Pow and 0 <= b <= 600 and abs(a) <= 256: return a ** b
            if o is ast.FloorDiv and b: return a // b
    return None


def of_source(text):
    out = Counter()

    def visit(node):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
            return                                                   # documentation
        v = fold(node) if isinstance(node, (ast.Constant, ast.UnaryOp, ast.BinOp)) else None
        if v is not None and not (isinstance(v, (str, bytes)) and len(v) > 80):
            out[v] += 1
        for child in ast.iter_child_nodes(node):
            visit(child)
    visit(ast.parse(text))
    return out


def of_tree(root):
    files = {}
    for d, dirs, names in os.walk(os.path.join(root, 'bitforge')):
        for n in names:
            if n.endswith('.py'):
                p = os.path.join(d, n)
                try:
                    files[os.path.relpath(p, root)] = of_source(open(p, encoding='utf8').read())
                except (SyntaxError, ValueError, RecursionError):
                    pass
    return files


def pack(counter):
    return sorted([type(v).__name__, v.hex() if isinstance(v, (bytes, float)) else str(v), n] for v, n in counter.items())


def unpack(rows):
    make = {'int': int, 'float': float.fromhex, 'str': str, 'bytes': bytes.fromhex}
    return Counter({make[t](v): n for t, v, n in rows})


def load():
    tree = of_tree(os.environ.get('VP_REPO', '/repo'))
    base = {k: unpack(v) for k, v in json.load(open(os.path.join(core.ROOT, 'data', 'constants.json'))).items()}
    every, fresh = set(), set()
    for name, found in tree.items():
        every |= set(found)
        fresh |= set(found - base.get(name, Counter()))
    for v in os.environ.get('VP_FRESH', '').split(','):               # development: pretend that these are new
        if v:
            fresh.add(int(v, 0) if v.lstrip('-')[:1].isdigit() else v)
    return every, fresh


EVERY, FRESH = load()


def numbers(values):
    out = set()
    for v in values:
        if isinstance(v, int):
            out |= {v - 1, v, v + 1}
        elif isinstance(v, float):
            out.add(int(v)) if abs(v) < 1e18 else None
        else:
            out |= {len(v), len(v) + 1}
    return sorted(out)


def strings(values):
    out = set()
    for v in values:
        if isinstance(v, bytes):
            out.add(v)
        elif isinstance(v, str):
            try:
                out.add(v.encode('utf8'))
                if v and len(v) % 2 == 0:
                    out.add(bytes.fromhex(v))
            except ValueError:
                pass
        elif isinstance(v, int) and 0 <= v < 256:
            out.add(bytes([v]))
        elif isinstance(v, int) and v > 0:
            b = v.to_bytes((v.bit_length() + 7) // 8, 'big')
            out |= {b, b[::-1]} if len(b) <= 80 else set()
    return sorted(x for x in out if x)


def texts(values):
    return sorted(v for v in values if isinstance(v, str) and v)


FRESH_INTS, EVERY_INTS = numbers(FRESH), numbers(EVERY)
FRESH_BYTES, EVERY_BYTES = strings(FRESH), strings(EVERY)
FRESH_TEXTS, EVERY_TEXTS = texts(FRESH), texts(EVERY)


def ints(lo, hi):
    """(new, all) numbers of the source in a range"""
    return [v for v in FRESH_INTS if lo <= v <= hi], [v for v in EVERY_INTS if lo <= v <= hi]


def teach():
    """Hypothesis draws a constant of the source now and then by itself; have it draw the new ones more often."""
    if not FRESH:
        return
    try:
        from hypothesis.internal.conjecture import providers
        from hypothesis.internal.conjecture.choice import choice_permitted, choice_constraints_key
        cls = providers.HypothesisProvider
        before = cls._maybe_draw_constant
        pool = {'integer': FRESH_INTS, 'bytes': FRESH_BYTES, 'string': FRESH_TEXTS, 'float': [float(v) for v in FRESH_INTS if abs(v) < 1 << 53] + [v for v in FRESH if isinstance(v, float)]}
    except (ImportError, AttributeError):
        return
    cache = {}

    def draw(self, choice_type, constraints, **k):
        if choice_type == 'integer' and None not in (constraints['min_value'], constraints['max_value']) and constraints['max_value'] - constraints['min_value'] < 24:
            return before(self, choice_type, constraints, **k)         # mostly choices among alternatives
        if self._random.random() < 0.15:
            key = (choice_type, choice_constraints_key(choice_type, constraints))
            if key not in cache:
                cache[key] = [v for v in pool.get(choice_type, []) if choice_permitted(v, constraints)]
            if cache[key]:
                return self._random.choice(cache[key])
        return before(self, choice_type, constraints, **k)
    cls._maybe_draw_constant = draw


if __name__ == '__main__':
    json.dump({k: pack(v) for k, v in sorted(of_tree('/repo').items())}, open(os.path.join(core.ROOT, 'data', 'constants.json'), 'w'), indent=0)
