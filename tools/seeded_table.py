"""Run the check of its property against every planted bug, in scratch copies, and write the table of DESIGN.md.
   Usage: python3 tools/seeded_table.py [--jobs N] [IDS] (with ids: only those rows). Development tool; no check uses it."""
import json, os, queue, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs = 4
if '--jobs' in args:
    i = args.index('--jobs'); jobs = int(args[i + 1]); del args[i:i + 2]
ids = args or sorted(os.listdir(here + '/seeded'))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
pool = queue.Queue()
for i in range(jobs):
    pool.put('/tmp/seedtab/w%d' % i)


def one(id):
    w = pool.get()
    try:
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        d = here + '/seeded/' + id
        meta = json.load(open(d + '/meta.json'))
        subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env, capture_output=True, text=True).returncode
        d0 = subprocess.run([d + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True).returncode
        d1 = subprocess.run([d + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True).returncode
        c = subprocess.run(['./check', meta['property'], '--jobs', '2'], cwd=here, env=dict(env, VP_REPO=w, VERIF_SEED='1'), capture_output=True, text=True, timeout=1500)
        hit = re.search(r'^VIOLATION property=%s replay=\S*/%s-(\S+)\.json' % (meta['property'], meta['property']), c.stdout, re.M)
        valid = t == 0 and d0 == 0 and d1 != 0
        res = dict(id=id, property=meta['property'], valid=valid, caught=bool(hit and c.returncode == 1), sub=hit and hit[1], needs=meta['needs'])
        print(json.dumps(res), flush=True)
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)
        pool.put(w)


os.makedirs('/tmp/seedtab', exist_ok=True)
with ThreadPoolExecutor(jobs) as ex:
    r = list(ex.map(one, ids))
shutil.rmtree('/tmp/seedtab', ignore_errors=True)
text = open(here + '/DESIGN.md').read()
head = ['| bug | property | needs | seen by |', '|---|---|---|---|']
rows = {x['id']: '| %s | %s | %s | %s |' % (x['id'], x['property'], x['needs'], '`%s`' % x['sub'] if x['caught'] else '**not seen**') for x in r}
if args:                                        # the other rows stay
    old = re.search(r'<!-- planted -->(.*)<!-- end planted -->', text, re.S)[1].strip().split('\n')[2:]
    rows = dict({x.split('|')[1].strip(): x for x in old if x.split('|')[1].strip() in os.listdir(here + '/seeded')}, **rows)
block = '<!-- planted -->\n' + '\n'.join(head + sorted(rows.values(), key=lambda x: x.split('|')[2:0:-1])) + '\n<!-- end planted -->'
text = re.sub(r'<!-- planted -->.*<!-- end planted -->', lambda m: block, text, flags=re.S)
open(here + '/DESIGN.md', 'w').write(text)
print(sum(x['caught'] for x in r), 'of', len(r), 'caught;', [x['id'] for x in r if not x['valid']], 'invalid')
