import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = here
repo = os.environ.get('VP_REPO', '/repo')
if repo in sys.path:
    sys.path.remove(repo)
sys.path.insert(0, repo)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')   # Hypothesis; last, so it shadows nothing

import bitforge                                                          # noqa: E402
if os.path.realpath(os.path.dirname(bitforge.__file__)) != os.path.realpath(os.path.join(repo, 'bitforge')):
    print('ERROR: bitforge was imported from %s, not from %s' % (bitforge.__file__, repo))
    sys.exit(2)

from vp.run import main                                                  # noqa: E402
try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc(file=sys.stdout)
    sys.exit(2)
