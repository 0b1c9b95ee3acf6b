"""Writes mkv/proved.json (run by hand, on the unchanged tree): the obligations discharged per property.  An obligation listed
there that a changed tree no longer discharges is reported; one that was never discharged is not."""
import json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mkv.pyvc import stage
from mkv.pyvc.contract import SPECS
from mkv.pyvc import specs

if __name__ == '__main__':
    repo = os.environ.get('MKV_REPO', '/repo')
    out, slow = {}, []
    for pid in sorted({p for s in SPECS for p in s[0]}):
        t = time.time()
        d = stage.run(pid, repo, 'quick')
        out[pid] = sorted(o['name'] for o in d['obligations'] if o['status'] == 'proved')
        slow += [(f['solver_s'], pid, f['function']) for f in d['functions']]
        print('%s: %d of %d, level %r, %.1f s' % (pid, len(out[pid]), len(d['obligations']), d['level'], time.time() - t), flush=True)
    with open(os.path.join(HERE, 'mkv', 'proved.json'), 'w') as f:
        json.dump(out, f, indent=0)
    print(sorted(slow)[-8:])
