"""Writes mkv/baseline_consts.json: constants and digests of the source files of /repo (run by hand on the unchanged tree)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
out = {}
for p in check.sources():
    i, s, d = check.consts(p)
    out[os.path.relpath(p, check.REPO)] = {'ints': i, 'strs': s, 'digest': d}
json.dump(out, open(os.path.join(HERE, 'mkv', 'baseline_consts.json'), 'w'), indent=0, sort_keys=True)
