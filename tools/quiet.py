"""Run all checks on the unchanged tree with several seeds and pretended new constants; report every one that is not quiet.
   Usage: python3 tools/quiet.py ROUNDS [--jobs N] [--start SEED]. Development tool; no check uses it."""
import os, random, subprocess, sys, time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
jobs = a[a.index('--jobs') + 1] if '--jobs' in a else '4'
start = int(a[a.index('--start') + 1]) if '--start' in a else 100
WORDS = ['x', 'OP_', '0x', 'label', 'bitcoin:', 'é', 'req-z', 'amount', '1', 'deadbeef', ' ', '%', 'None', 'livenet', 'pubkeyhash', 'PUSH']
for seed in range(start, start + int(a[0])):
    r = random.Random(seed)
    fresh = [str(r.choice([r.randrange(0, 30), r.randrange(0, 256), r.randrange(0, 1100), r.randrange(0, 70000), r.getrandbits(r.randrange(1, 257)), -r.randrange(1, 300)])) for _ in range(r.randrange(0, 6))]
    fresh += [r.choice(WORDS) for _ in range(r.randrange(0, 3))]
    for i in range(1, 39):
        pid = 'C%02d' % i
        t = time.time()
        p = subprocess.run(['./check', pid, '--jobs', jobs], cwd=here, env=dict(os.environ, VERIF_SEED=str(seed), VP_FRESH=','.join(fresh)), capture_output=True, text=True)
        if p.returncode:
            print('NOT QUIET', pid, 'seed', seed, 'fresh', fresh, 'rc', p.returncode, p.stdout[-1500:], flush=True)
        elif time.time() - t > 200:
            print('slow', pid, 'seed', seed, 'fresh', fresh, round(time.time() - t), flush=True)
    print('round', seed, fresh, 'done', flush=True)
