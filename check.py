#!/usr/bin/env python3
"""Decides one property of /repo:  check.py ID [--tier quick|thorough] [--replay FILE]

1. proof stage (mkv/pyvc): the functions under contract are read from /repo's current source,
   their verification conditions are generated and discharged.
2. executable contracts (mkv/conc): the same postconditions evaluated on the real code, for what
   the proof stage does not reach, and to replay what it refutes.
Exit 0 / 1 (with a VIOLATION line); evidence/ID.json is rewritten."""
import argparse, ast, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MKV_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)


def props():
    with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as f:
        return {d['id']: d for d in map(json.loads, f)}


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'metaknowledge')):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
    return out


def consts(path):
    """integers and short strings of a source file, and a hash of its code without docstrings and positions"""
    ints, strs = set(), set()
    try:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
    except (OSError, SyntaxError, ValueError):
        return [], [], ''
    for n in ast.walk(tree):
        b = getattr(n, 'body', None)
        if isinstance(b, list):
            b[:] = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            if isinstance(n.value, int):
                ints.add(n.value)
            elif isinstance(n.value, str) and 0 < len(n.value) <= 60 and '\n' not in n.value:
                strs.add(n.value)
    return sorted(ints), sorted(strs), hashlib.md5(ast.dump(tree).encode()).hexdigest()


def hints(prop):
    """constants that steer the sampling of inputs; those not in the committed list come first"""
    with open(os.path.join(HERE, 'mkv', 'baseline_consts.json')) as f:
        base = json.load(f)
    h = {'ints': set(), 'strs': set(), 'newints': set(), 'newstrs': set()}
    changed = False
    anchors = {os.path.join(REPO, a) for a in prop['anchors']['files']}
    for p in sources():
        rel = os.path.relpath(p, REPO)
        i, s, dig = consts(p)
        b = base.get(rel, {'ints': [], 'strs': [], 'digest': ''})
        changed |= dig != b['digest']
        if p in anchors:
            h['ints'] |= set(i); h['strs'] |= set(s)
        h['newints'] |= {x for x in set(i) - set(b['ints']) if abs(x) < 10**7}
        h['newstrs'] |= set(s) - set(b['strs'])
    return {k: sorted(v) for k, v in h.items()}, changed


def baseline_proved():
    try:
        with open(os.path.join(HERE, 'mkv', 'proved.json')) as f:
            return json.load(f)
    except OSError:
        return {}


def claimed(pid):
    """the contracts of this property cover its whole statement (tools/mklevels.py)"""
    try:
        with open(os.path.join(HERE, 'mkv', 'levels.json')) as f:
            return json.load(f).get(pid, {}).get('level') == 'proof'
    except OSError:
        return False


def known_findings(pid):
    out = []
    with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8') as f:
        for l in f:
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].strip())
    return out


def env(seed, scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(MKV_REPO=REPO, PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed % 2**32), MKV_SCRATCH=scratch, HOME=scratch, TMPDIR=scratch, PYTHONWARNINGS='ignore')
    return e


def concrete(pid, seed, cases, seconds, h, scratch, replay=None):
    cmd = [PY, '-m', 'mkv.conc', pid, '--seed', str(seed), '--cases', str(cases), '--seconds', str(seconds), '--hints', json.dumps(h)]
    if replay:
        cmd += ['--replay', replay]
    r = subprocess.run(cmd, env=env(seed, scratch), cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=840)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode('utf-8', 'replace')[-4000:])
        raise SystemExit('the executable contracts of %s could not be run' % pid)
    return json.loads(r.stdout.decode('utf-8'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
    ap.add_argument('--no-proof', action='store_true'); ap.add_argument('--no-run', action='store_true')
    a = ap.parse_args()
    from mkv.pyvc.stage import fixed_hash
    fixed_hash()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props()[a.id]
    scratch = tempfile.mkdtemp(prefix='mkv-')
    try:
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            if 'variant' not in d:
                print(json.dumps(d, indent=1)); return 1
            r = concrete(a.id, d.get('seed', seed), 0, 0, {}, scratch, os.path.abspath(a.replay))
            print('replayed on', REPO, ':', r['failure'] or 'holds')
            return 1 if r['failure'] else 0
        return decide(a, P, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, P, seed, scratch, t0):
    pid, tier = a.id, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    h, changed = hints(P)
    # ---- proof stage
    proof = {'functions': [], 'obligations': [], 'assumptions': [], 'trusted': []}
    if not a.no_proof:
        from mkv.pyvc import stage
        proof = stage.run(pid, REPO, tier)
    obs = proof['obligations']
    done = [o for o in obs if o['status'] == 'proved']
    # an obligation that the verifier refutes, or that it discharged on the tree the contracts were written for and does not
    # discharge on this changed one; a function outside its reach (undecided) is left to the executable contracts
    base = set(baseline_proved().get(pid, []))
    refuted = [o for o in obs if o['status'] == 'refuted' or (o['status'] == 'unknown' and changed and o['name'] in base)]
    open_ = [o for o in obs if o['status'] != 'proved' and o not in refuted]
    # ---- executable contracts
    if tier == 'thorough':
        cases, seconds = 60000, 240
    else:
        # more cases when the code differs from the tree the list of constants was made from
        cases, seconds = (12000, 45) if changed else (2500, 8)
    conc = {'evaluations': 0, 'distinct': 0, 'skipped': 0, 'failures': [], 'samples': [], 'variants': {}, 'known': {}, 'wall_s': 0}
    if not a.no_run:
        conc = concrete(pid, seed, cases, seconds, h, scratch)
    listed = known_findings(pid)
    lines, viol = [], []
    for text, case in conc.get('known', {}).items():
        if text in listed:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, text))
        else:
            viol.append(dict(case, failure='unlisted: ' + text))
    viol += conc['failures']
    rp = os.path.join(HERE, 'evidence'); os.makedirs(rp, exist_ok=True)
    rfile = os.path.join(rp, pid + '.replay.json')
    if os.path.exists(rfile):
        os.remove(rfile)
    if viol:
        d = dict(viol[0], property=pid, seed=seed, others=viol[1:6], replay='python3-vt /verif/check.py %s --replay %s' % (pid, rfile),
                 failed_obligations=[o for o in obs if o['status'] != 'proved'])
        with open(rfile, 'w') as f:
            json.dump(d, f, indent=1)
        lines.append('failing input (%s): %s' % (viol[0]['variant'], viol[0]['failure'][:500]))
        for o in refuted + open_:
            lines.append('obligation not discharged: %s (%s)' % (o['name'], o['status']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rfile))
    elif refuted:
        with open(rfile, 'w') as f:
            json.dump({'property': pid, 'obligation': refuted[0]['name'], 'refuted': refuted, 'note': 'the verifier does not accept the obligation; no input of the executable contracts failed'}, f, indent=1)
        for o in refuted: lines.append('obligation not discharged: %s (%s)' % (o['name'], o['status']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rfile))
    code = 1 if viol or refuted else 0
    # ---- evidence
    level = 'proof' if proof.get('level') == 'proof' and claimed(pid) and obs and not open_ and not refuted else 'exploration'
    cov = {'evaluations': conc['evaluations'], 'distinct_nontrivial': conc['distinct'], 'rule': 'executable contract of %s: cases are drawn from generators of well-formed inputs and operation sequences (seeded, steered by the constants of the anchored files); a case counts as non-trivial when it satisfies the precondition (cases outside it are skipped and not counted), distinct by the hash of its text' % pid,
           'samples': conc['samples'] or [{'none': True}], 'skipped': conc['skipped'], 'variants': conc['variants'], 'bounded_stand_in': 'executable contracts on sampled inputs, never counted as proved',
           'code_differs_from_baseline': changed}
    if obs:
        cov.update(obligations=len(obs), discharged=len(done), checker_cmd='python3-vt %s %s --no-run' % (os.path.join(HERE, 'check.py'), pid), trusted_base=proof['trusted'],
                   functions_under_contract=proof['functions'], executed_in_the_proof=proof.get('inlined', []), back_end=proof.get('back_end', ''), solver_s=proof.get('solver_s', 0), solver_queries=proof.get('queries', 0),
                   undischarged=[{k: o.get(k, '') for k in ('name', 'status', 'note')} for o in open_ + refuted][:60],
                   obligation_names=[o['name'] for o in obs][:200])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': proof['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol) or len(refuted)}
    with open(os.path.join(rp, pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    for l in lines:
        print(l)
    print('%s: %d obligations, %d discharged; %d cases, %d distinct, %.1f s' % (pid, len(obs), len(done), conc['evaluations'], conc['distinct'], time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main())
