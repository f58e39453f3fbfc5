"""Runner: python -m vp.run <ID> [--tier quick|thorough] [--replay FILE] [--jobs N] [--sub NAME]"""
import argparse
import importlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

from . import core, mine
from .core import Violation, Hang, HarnessError, Case, enc_case, dec_case, case_key, short, str_of, is_harness_exc

CASE_CPU_S = 150        # no case of the unchanged tree needs more than ~5 s
SHRINK_S = 25
MAX_DISTINCT = 400000


def load(pid):
    mod = importlib.import_module('checks.' + pid.lower())
    return mod.check


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.per_sub = {}
        self.labels = {}
        self.keys = set()
        self.samples = []
        self.known = {}
        self.failures = []
        self.error = None

    def record(self, sub, case, c):
        self.evaluations += 1
        ps = self.per_sub.setdefault(sub.name, [0, 0])
        ps[0] += 1
        for l in set(c.labels):
            k = sub.name + ':' + l
            self.labels[k] = self.labels.get(k, 0) + 1
        for k in c.known_hits:
            self.known[k] = self.known.get(k, 0) + 1
        if c.nontrivial:
            k = case_key(sub.name, case)
            if k not in self.keys and len(self.keys) < MAX_DISTINCT:
                self.keys.add(k)
                ps[1] += 1
                if ps[1] in (1, 7, 50):
                    self.samples.append({'sub': sub.name, 'labels': sorted(set(c.labels)),
                                         'case': clip(enc_case(case))})


def clip(v, n=400):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


GRACE = [0]


def on_hang(signum, frame):
    f, lib = frame, False
    while f is not None and not lib:
        lib, f = '/bitforge/' in f.f_code.co_filename, f.f_back
    if not lib:                 # the check itself is at work: look again a few times before calling that an error of the check
        GRACE[0] += 1
        if GRACE[0] <= 8:
            signal.setitimer(signal.ITIMER_VIRTUAL, 5)
            return
        raise HarnessError('a case ran for over %d s of CPU time outside the library' % CASE_CPU_S)
    raise Hang('a single case ran for over %d s of CPU time' % CASE_CPU_S)


def run_case(sub, case, stats=None):
    """Runs one case; raises Violation / Hang / HarnessError."""
    c = Case()
    GRACE[0] = 0
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        sub.fn(c, case)
    except Violation:
        raise
    except Exception as e:
        if is_harness_exc(e):
            raise HarnessError('sub-check %s: %s' % (sub.name, ''.join(traceback.format_exception(e))))
        raise Violation('unexpected %s: %s  [%s]' % (
            type(e).__name__, short(str_of(e)),
            ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                       for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if stats is not None:
        stats.record(sub, case, c)
    return c


def fixed_cases(sub):
    if sub.fixed is None:
        return []
    return list(sub.fixed())


def worker(pid, tier, seed, shard, shards, only, path):
    """Runs shard `shard` of every sub-check, and pickles Stats to `path`."""
    signal.signal(signal.SIGVTALRM, on_hang)
    stats = Stats()
    try:
        check = load(pid)
        mine.teach()
        for sub in check.subs:
            if only and sub.name != only:
                continue
            try:
                fail = run_sub(sub, stats, tier, seed, shard, shards)
            except Hang as h:
                fail = (getattr(sub, 'last', None), str(h), None)
            if fail is not None:
                stats.failures.append((sub.name,) + fail)
                break
    except BaseException as e:
        stats.error = ''.join(traceback.format_exception(e))
    with open(path, 'wb') as f:
        pickle.dump(stats.__dict__, f)


def run_sub(sub, stats, tier, seed, shard, shards):
    """None, or (case, message, note)"""
    for i, case in enumerate(fixed_cases(sub)):
        if i % shards != shard:
            continue
        sub.last = case
        try:
            run_case(sub, case, stats)
        except Violation as v:
            return (case, str(v), None)

    if sub.strategy is None:
        return None
    total = sub.thorough if tier == 'thorough' else sub.quick
    n = total // shards + (1 if shard < total % shards else 0)
    if n == 0:
        return None

    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_S
    state = {'first': None, 'last': None}

    def body(case):
        sub.last = case
        try:
            run_case(sub, case, stats)
        except Violation as v:
            if state['first'] is None:
                state['first'] = (case, str(v))
            state['last'] = (case, str(v))
            raise

    phases = [Phase.generate, Phase.shrink]
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                    print_blob=False, phases=phases, suppress_health_check=list(HealthCheck))(
        hypothesis.given(sub.strategy)(body))
    h = int.from_bytes(__import__('hashlib').sha256(
        ('%d/%s/%d/%d' % (seed, sub.name, shard, shards)).encode()).digest()[:8], 'big')
    test = hypothesis.seed(h)(test)
    try:
        test()
    except Violation as v:
        case, msg = state['last']
        return (case, msg, None)
    except Hang:
        raise
    except HarnessError:
        raise
    except BaseException as e:
        if state['first'] is None:
            raise
        # Hypothesis could not reproduce what it saw (the failure depends on earlier calls): report the first one seen
        case, msg = state['first']
        return (case, msg, 'seen once, and not again when the case was repeated (%s): the failure depends on the '
                           'calls made before it; run `./check` with the same VERIF_SEED to see it' % type(e).__name__)
    return None


def known_table(pid):
    path = os.path.join(core.ROOT, 'known_findings.json')
    out = {}
    if os.path.exists(path):
        for k in json.load(open(path)):
            if k['status'] == 'known' and k['property'] == pid:
                out[k['id']] = k
    return out


def write_replay(pid, sub, case, msg, note, tier, seed):
    d = os.path.join(core.ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, sub))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'sub': sub, 'case': enc_case(case), 'message': msg, 'note': note,
                   'tier': tier, 'seed': seed,
                   'how': './check %s --replay %s' % (pid, os.path.relpath(path, core.ROOT))}, f, indent=1)
    return path


def replay(pid, path):
    signal.signal(signal.SIGVTALRM, on_hang)
    r = json.load(open(path))
    check = load(pid)
    sub = [s for s in check.subs if s.name == r['sub']][0]
    try:
        run_case(sub, dec_case(r['case']))
    except (Violation, Hang) as v:
        print('%s/%s: %s' % (pid, sub.name, v))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s/%s: the saved case passes' % (pid, sub.name))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--sub')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return replay(a.pid, a.replay)

    t0 = time.time()
    check = load(a.pid)            # import errors surface here, as an error exit
    rules = [check.rule] + ['%s: %s' % (s.name, s.rule) for s in check.subs if s.rule]

    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='vp-')
    ctx = multiprocessing.get_context('fork')
    procs = []
    try:
        for i in range(a.jobs):
            p = ctx.Process(target=worker, args=(a.pid, a.tier, seed, i, a.jobs, a.sub, os.path.join(tmp, str(i))))
            p.start()
            procs.append(p)
        for p in procs:
            p.join()
        results = []
        for i, p in enumerate(procs):
            path = os.path.join(tmp, str(i))
            if not os.path.exists(path):
                print('ERROR: worker %d of %s ended with code %s and no result' % (i, a.pid, p.exitcode))
                results.append(None)
                continue
            s = Stats()
            s.__dict__.update(pickle.load(open(path, 'rb')))
            results.append(s)
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    tot = Stats()
    errors = []
    for s in results:
        if s is None:
            errors.append('a worker died')
            continue
        tot.evaluations += s.evaluations
        tot.keys |= s.keys
        for k, v in s.labels.items():
            tot.labels[k] = tot.labels.get(k, 0) + v
        for k, v in s.per_sub.items():
            e = tot.per_sub.setdefault(k, [0, 0])
            e[0] += v[0]
            e[1] += v[1]
        for k, v in s.known.items():
            tot.known[k] = tot.known.get(k, 0) + v
        tot.samples.extend(s.samples)
        tot.failures.extend(s.failures)
        if s.error:
            errors.append(s.error)

    table = known_table(a.pid)
    for k in [k for k in tot.known if k not in table]:
        # a recorded finding of another property, met on the way: decided there, outside this property
        tot.labels['finding of another property: ' + k] = tot.known.pop(k)

    # one sample set per sub-check, bounded
    samples, seen = [], {}
    for s in tot.samples:
        if seen.get(s['sub'], 0) < 2:
            seen[s['sub']] = seen.get(s['sub'], 0) + 1
            samples.append(s)

    order = dict((s.name, i) for i, s in enumerate(check.subs))
    fails = {}
    for f in tot.failures:                     # smallest failing case per sub-check
        k = f[0]
        size = len(json.dumps(enc_case(f[1])))
        if k not in fails or size < fails[k][0]:
            fails[k] = (size, f)
    fails = [fails[k][1] for k in sorted(fails, key=lambda n: order.get(n, 99))]

    wall = time.time() - t0
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot.evaluations,
            'distinct_nontrivial': len(tot.keys),
            'rule': ' || '.join(r for r in rules if r),
            'samples': samples,
            'per_sub_check': dict((k, {'evaluations': v[0], 'distinct_nontrivial_by_shard_sum': v[1]})
                                  for k, v in sorted(tot.per_sub.items())),
            'labels': dict(sorted(tot.labels.items())),
            'known_finding_hits': tot.known,
            'shards': a.jobs,
        },
        'assumptions': getattr(check, 'assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(fails),
    }
    os.makedirs(os.path.join(core.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(core.ROOT, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k, e in sorted(table.items()):
        if tot.known.get(k):
            print('KNOWN-FINDING: property=%s %s' % (a.pid, e['what']))

    for name, case, msg, note in fails:
        path = write_replay(a.pid, name, case, msg, note, a.tier, seed)
        print('%s/%s: %s' % (a.pid, name, msg))
        if note:
            print('  note: ' + note)
        print('  case: ' + short(enc_case(case), 600))
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
    if fails:
        return 1
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 2
    print('%s ok: %d cases, %d distinct non-trivial, %.1f s' % (a.pid, tot.evaluations, len(tot.keys), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
