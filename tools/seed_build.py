import json, os, shutil, subprocess, sys
sys.path.insert(0, '/tmp/seed')
mod = sys.argv[1]; only = set(sys.argv[2:])
BUGS = __import__(mod).BUGS
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
W = '/tmp/seed/w'
for b in BUGS:
    if only and b['id'] not in only: continue
    shutil.rmtree(W, ignore_errors=True); shutil.copytree('/repo', W)
    ok = True
    for f, old, new in b['edits']:
        p = W + '/bitforge/' + f; s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT MATCHES', s.count(old), f); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    # removed lines are from base?
    own = 0; base = 0
    for f in set(e[0] for e in b['edits']):
        bl = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', 'bitforge/' + f], cwd=W, capture_output=True, text=True).stdout.split('\n')
        d = subprocess.run(['git', 'diff', '-U0', '--', 'bitforge/' + f], cwd=W, capture_output=True, text=True).stdout
        import re
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for i in range(a, a + n):
                if bl[i-1].startswith('^'): base += 1
                else: own += 1
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/sh\n# Run from the root of the repository: exit 0 when the property holds.\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=W, env=env, capture_output=True, text=True)
    d0 = subprocess.run([d + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True)
    d1 = subprocess.run([d + '/demo.sh'], cwd=W, env=env, capture_output=True, text=True)
    c = subprocess.run(['./check', b['prop'], '--jobs', '8'], cwd='/verif', env=dict(env, VP_REPO=W, VERIF_SEED='1'), capture_output=True, text=True)
    caught = c.returncode == 1 and 'VIOLATION property=%s ' % b['prop'] in c.stdout
    good = t.returncode == 0 and d0.returncode == 0 and d1.returncode != 0
    print(b['id'], b['prop'], 'tests', t.returncode, 'demo', d0.returncode, d1.returncode, 'lines base/own', base, own, 'CAUGHT' if caught else 'MISSED rc=%s' % c.returncode, '' if good else '   <<<< INVALID ' + (t.stdout[-300:] if t.returncode else d0.stdout + d0.stderr[-300:]), flush=True)
    if not good: shutil.rmtree(d)
shutil.rmtree(W, ignore_errors=True)
