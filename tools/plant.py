"""plant.py DEFS.py [ID...]: makes /verif/seeded/<id> from definitions and confirms each in /repo (applied, tested, undone).
DEFS.py defines BUGS = {id: dict(property, file, edits=[(old, new)...], needs, breaks, demo)}"""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


HEAD = '''import collections, io, os, sys, tempfile
sys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
import metaknowledge as mk
mk.VERBOSE_MODE = False
def rec(**f):
    ut = f.pop('UT', 'WOS:1')
    return mk.WOSRecord(collections.OrderedDict([(k, v if isinstance(v, list) else [v]) for k, v in f.items()] + [('UT', [ut])]))
def RC(*rs, **k):
    return mk.RecordCollection(list(rs), quietStart=True, **k)
def check(got, want, what=''):
    if got != want:
        print('FAILED', what, 'got', got, 'expected', want); sys.exit(1)
os.chdir(tempfile.mkdtemp(dir=SCRATCH))
'''


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for bid in sys.argv[2:] or bugs:
        b = bugs[bid]
        assert not sh('git', '-C', R, 'status', '--porcelain').stdout.strip(), 'repo not clean'
        d = os.path.join(V, 'seeded', bid); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(HEAD.replace('dir=SCRATCH', "dir=os.environ['DEMO_SCRATCH']") + b['demo'].strip() + '\nprint("ok")\n')
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# exit 0: the property holds on this input\nD=$(mktemp -d); trap \'rm -rf "$D"\' EXIT\nDEMO_SCRATCH="$D" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh('bash', os.path.join(d, 'demo.sh'), cwd=R)
        try:
            for fn, old, new in [(e if len(e) == 3 else (b['file'],) + tuple(e)) for e in b['edits']]:
                p = os.path.join(R, 'metaknowledge', fn)
                s = open(p, newline='').read()
                assert s.count(old) == 1, (bid, s.count(old), old)
                open(p, 'w', newline='').write(s.replace(old, new))
            diff = sh('git', '-C', R, 'diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w', newline='').write(diff)
            r1 = sh('bash', os.path.join(d, 'demo.sh'), cwd=R)
            sh('bash', '/opt/vp/test.sh', '/tmp/nd/o.json', env=env)
            t = sh('python3', '/tmp/nd/cmp.py').stdout.strip().splitlines()[-1]
            c = sh('python3-vt', os.path.join(V, 'check.py'), b['property'])
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
        a = sh('git', '-C', R, 'apply', '--check', os.path.join(d, 'patch.diff'))
        ok = r0.returncode == 0 and r1.returncode != 0 and t == 'MISSING []' and a.returncode == 0
        print(bid, b['property'], 'valid' if ok else 'INVALID demo0=%d demo1=%d %s %s' % (r0.returncode, r1.returncode, t, r0.stdout[-300:] + r0.stderr[-300:]),
              '| check exit', c.returncode, '|', ' / '.join(c.stdout.strip().splitlines()[:2])[:300], flush=True)


if __name__ == "__main__": main()
