"""Harness core: sub-checks over generated JSON-able cases, Hypothesis-driven, sharded, shrinking to a replay file.

A check module registers sub-checks with @sub(name, strategy, quick=N, thorough=M, fixed=callable). The function gets
(c, case): `c` records labels / non-trivial marks, and raises Violation through c.eq / c.ok / c.fail. Every exception
raised by the library while it is used inside a domain where it must not raise is a violation too (see classify_exc).
"""
import contextlib
import hashlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Hang(BaseException):
    """A single case used more CPU time than any case of the unchanged tree comes near to."""


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- case (de)serialisation

def enc_case(v):
    if isinstance(v, (bytes, bytearray)):
        return {'$b': bytes(v).hex()}
    if isinstance(v, dict):
        return dict((k, enc_case(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [enc_case(x) for x in v]
    if isinstance(v, float):
        return {'$f': v.hex()}
    return v


def dec_case(v):
    if isinstance(v, dict):
        if set(v) == {'$b'}:
            return bytes.fromhex(v['$b'])
        if set(v) == {'$f'}:
            return float.fromhex(v['$f'])
        return dict((k, dec_case(x)) for k, x in v.items())
    if isinstance(v, list):
        return [dec_case(x) for x in v]
    return v


def case_key(name, case):
    return hashlib.sha1((name + json.dumps(enc_case(case), sort_keys=True)).encode()).digest()[:10]


# ---------------------------------------------------------------- sub-check registry

class Sub(object):
    def __init__(self, name, fn, strategy, quick, thorough, fixed, rule):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.fixed, self.rule = quick, thorough, fixed, rule


# how many times the numbers given with the sub-checks a quick run generates (by what they cost: 15-30 s with 8 processes)
SCALE = dict.fromkeys('C01 C02 C03 C04 C05 C07 C13 C15 C16 C17 C20 C22 C23 C26 C29 C30 C33 C35 C36 C37'.split(), 5)
SCALE.update(dict.fromkeys('C06 C14 C18 C25 C31 C32 C34 C38'.split(), 4))
SCALE.update(dict.fromkeys('C10 C21 C24'.split(), 3), C12=2, C19=2, C27=2)


class Check(object):
    def __init__(self, pid, rule=''):
        self.pid, self.rule, self.subs = pid, rule, []

    def sub(self, name, strategy=None, quick=200, thorough=None, fixed=None, rule=''):
        def deco(fn):
            n = quick * SCALE.get(self.pid, 1)
            self.subs.append(Sub(name, fn, strategy, n, max(thorough or quick * 20, n), fixed, rule))
            return fn
        return deco


def short(v, n=300):
    try:
        if isinstance(v, (bytes, bytearray)):
            s = '%s:%s' % (type(v).__name__, bytes(v).hex())
        else:
            s = repr(v)
    except Exception as e:                                 # a broken __repr__ in the library
        s = '<unprintable %s: %s>' % (type(v).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Case(object):
    """Per-case recorder handed to the sub-check."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.known_hits = []

    def nt(self, *labels):
        self.nontrivial = True
        self.labels.extend(labels)

    def label(self, *labels):
        self.labels.extend(labels)

    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg, *vals):
        if not cond:
            raise Violation(msg + ''.join(' | ' + short(v) for v in vals))

    def eq(self, got, want, what):
        """Equality, with bytes-likes compared by content and never equal to text or numbers."""
        if isinstance(want, (bytes, bytearray)):
            good = isinstance(got, (bytes, bytearray)) and bytes(got) == bytes(want)
        elif isinstance(want, bool):
            good = got is want
        elif isinstance(want, str):
            good = isinstance(got, str) and got == want
        elif isinstance(want, int):
            good = isinstance(got, int) and not isinstance(got, bool) and got == want
        else:
            good = bool(got == want)
        if not good:
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))

    def ref(self, cond, msg):
        """A fact about the reference alone: not being true is an error of the check"""
        if not cond:
            raise HarnessError(msg)

    def known(self, kid):
        self.known_hits.append(kid)

    def rejects(self, what, fn, *kinds):
        """fn() must raise; any exception of `kinds` (default: any Exception) is a rejection."""
        try:
            v = fn()
        except Exception as e:
            if kinds and not isinstance(e, kinds):
                raise Violation('%s: rejected with %s instead of %s: %s' % (
                    what, type(e).__mro__[:-3], [k.__name__ for k in kinds], short(str_of(e))))
            return e
        raise Violation('%s: accepted, giving %s' % (what, short(v)))

    def attempt(self, fn, *kinds):
        """(True, value), or (False, exception) when it raises one of `kinds`; other exceptions are violations."""
        try:
            return True, fn()
        except Exception as e:
            if kinds and not isinstance(e, kinds):
                raise Violation('raised %s, which is not one of %s: %s' % (
                    type(e).__name__, [k.__name__ for k in kinds], short(str_of(e))))
            return False, e


def str_of(e):
    try:
        return str(e)
    except Exception as x:
        return '<unprintable error: %s>' % type(x).__name__


def is_harness_exc(e):
    """True when an exception comes from the reference or the framework alone (no library frame, innermost frame in
    ref/ or vp/): then it is an error of the check, not a finding about the library."""
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    lib = [f for f in files if '/bitforge/' in f]
    if lib:
        return False
    return isinstance(e, HarnessError) or files[-1].startswith((os.path.join(ROOT, 'ref') + os.sep,
                                                               os.path.join(ROOT, 'vp') + os.sep))


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)
