"""Undo each repair in turn, in a scratch copy, and see whether the check of its property reports it again.
   Usage: python3 tools/reverts.py OUT.json [--jobs N]. Development tool; no check uses it."""
import json, os, queue, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

out, jobs = sys.argv[1], int(sys.argv[sys.argv.index('--jobs') + 1]) if '--jobs' in sys.argv else 4
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [e for e in json.load(open(here + '/known_findings.json')) if e['status'] == 'fixed']
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
pool = queue.Queue()
for i in range(jobs):
    pool.put('/tmp/revert/w%d' % i)


def git(w, *a, **k):
    return subprocess.run(['git', '-C', w] + list(a), capture_output=True, text=True, **k)


def one(e):
    w = pool.get()
    try:
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        r = git(w, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', e['commit'])
        res = dict(commit=e['commit'], property=e['property'])
        if r.returncode:
            res['result'] = 'conflict'
        else:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env, capture_output=True, text=True)
            res['tests'] = 'pass' if t.returncode == 0 else 'fail'
            c = subprocess.run(['./check', e['property'], '--jobs', '2'], cwd=here, env=dict(env, VP_REPO=w, VERIF_SEED='1'), capture_output=True, text=True, timeout=1500)
            res['result'] = 'caught' if c.returncode == 1 and 'VIOLATION property=%s ' % e['property'] in c.stdout else 'MISSED rc=%d' % c.returncode
        print(json.dumps(res), flush=True)
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)
        pool.put(w)


os.makedirs('/tmp/revert', exist_ok=True)
with ThreadPoolExecutor(jobs) as ex:
    r = list(ex.map(one, known))
json.dump(r, open(out, 'w'), indent=1)
shutil.rmtree('/tmp/revert', ignore_errors=True)
