"""python3-vt -m mkv.pyvc.dev PATTERN [-v]: run the contracts whose property or function matches"""
import sys, time, os
from .contract import SPECS, Verify
from .interp import Repo
from . import specs


def main():
    from .stage import fixed_hash
    fixed_hash()
    pat = [a for a in sys.argv[1:] if a != '-v']
    repo = Repo(os.environ.get('MKV_REPO', '/repo'))
    tot = bad = 0
    for props, target, core, f in SPECS:
        if pat and not any(p in props or p in target for p in pat): continue
        t = time.time()
        V = Verify(repo, target, debug='-v' in sys.argv, limit=float(os.environ.get('LIMIT', '60')))
        f(V)
        rs = V.results()
        nb = [o for o in rs if o.status != 'proved']
        tot += len(rs); bad += len(nb)
        print('%-8s %-60s %3d obligations, %d open, %.1f s, %d paths, solver %.1f' % (','.join(props), target, len(rs), len(nb), time.time() - t, V.paths, V.solver_time))
        for o in nb: print('      ', o.status, o.name, o.note)
    print(tot, 'obligations,', bad, 'open')


main()
