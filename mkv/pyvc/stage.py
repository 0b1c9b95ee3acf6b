"""Runs every contract that a property depends on, each in a process of its own (a solver crash or a time-out leaves that
contract undecided), and collects its obligations"""
import json, os, sys, time, select, signal

LIMITS = {'quick': (120, 8000, 480), 'thorough': (240, 30000, 900)}    # per case s, per query ms, wall s
PAR = 8


def fixed_hash():
    """sets of names are walked in hash order: the same order in every run"""
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])


def specs_of(pid):
    from .contract import SPECS
    from . import specs
    return [(i, s) for i, s in enumerate(SPECS) if pid in s[0]]


def cases(repo, pid, i, spec):
    """the cases of a contract, each checked in a process of its own"""
    from .contract import Verify
    V = Verify(None, spec[1])
    V.dry, V.pid = True, pid
    try: spec[3](V)
    except Exception: return [None]
    return [None] if V.whole or V.nrun < 2 else list(range(1, V.nrun + 1))


def child(repo, spec, limit, timeout, out, pid, case):
    from .contract import Verify
    from .interp import Repo
    props, target, core, f = spec
    V = Verify(Repo(repo), target, timeout=timeout, limit=limit)
    V.pid, V.only = pid, case
    f(V)
    d = {'target': target, 'core': core, 'spec': f.__name__, 'obligations': [{'name': o.name, 'status': o.status, 'time': round(o.time, 3), 'paths': o.paths, 'note': o.note} for o in V.results()],
         'notes': sorted(V.notes), 'inlined': sorted(V.inlined), 'solver_s': round(V.solver_time, 3), 'queries': V.queries, 'paths': V.paths}
    with os.fdopen(out, 'w') as g: json.dump(d, g)


def start(repo, spec, limit, timeout, pid, case):
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        code = 1
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not os.environ.get('MKV_STAGE_ERR'):
                os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
            child(repo, spec, limit, timeout, w, pid, case); code = 0
        except BaseException:
            import traceback; traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    return p, r


def joined(ds):
    """one answer for the cases of a contract"""
    if None in ds: return None
    d = dict(ds[0])
    for e in ds[1:]:
        for k in ('obligations', 'notes', 'inlined', 'solver_s', 'queries', 'paths'): d[k] = d[k] + e[k]
    d['solver_s'] = round(d['solver_s'], 3)
    d['obligations'] = sorted(d['obligations'], key=lambda o: o['name'])
    return d


def run(pid, repo, tier, only=None):
    fixed_hash()
    limit, timeout, wall = LIMITS['thorough' if tier == 'thorough' else 'quick']
    todo = specs_of(pid)
    if only: todo = [s for s in todo if only in s[1][1]]
    t0 = time.time()
    live, got = {}, {}
    queue = [(i, c, s) for i, s in todo for c in cases(repo, pid, i, s)]
    while queue or live:
        while queue and len(live) < PAR and time.time() - t0 < wall:
            i, c, s = queue.pop(0)
            p, r = start(repo, s, limit, timeout, pid, c)
            live[r] = [p, i, s, b'', time.time()]
        if not live: break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            b = os.read(r, 1 << 16)
            if b: live[r][3] += b; continue
            p, i, s, data, _ = live.pop(r)
            os.close(r); os.waitpid(p, 0)
            try: got.setdefault(i, []).append(json.loads(data.decode()))
            except ValueError: got.setdefault(i, []).append(None)
        now = time.time()
        for r in list(live):
            p, i, s, data, ts = live[r]
            if now - ts > limit + 60 or now - t0 > wall:
                os.kill(p, signal.SIGKILL); os.waitpid(p, 0); os.close(r); del live[r]; got.setdefault(i, []).append(None)
    fs, obs, notes, inl, solver, queries = [], [], set(), set(), 0.0, 0
    allok = bool(todo)
    for i, s in todo:
        d = joined(got.get(i) or [None]) if not any(q[0] == i for q in queue) else None
        if d is None:
            d = {'target': s[1], 'core': s[2], 'obligations': [{'name': s[1].split(':')[1] + ': (no answer)', 'status': 'undecided', 'time': 0, 'paths': 0, 'note': 'the verifier gave no answer in time'}], 'notes': [], 'inlined': [], 'solver_s': 0, 'queries': 0, 'paths': 0}
        ok = all(o['status'] == 'proved' for o in d['obligations']) and d['obligations']
        if s[2] and not ok: allok = False
        fs.append({'function': d['target'].replace(':', '.'), 'obligations': len(d['obligations']), 'discharged': sum(o['status'] == 'proved' for o in d['obligations']), 'paths': d['paths'], 'queries': d['queries'], 'solver_s': d['solver_s'], 'core': d['core']})
        obs += d['obligations']; notes |= set(d['notes']); inl |= set(d['inlined']); solver += d['solver_s']; queries += d['queries']
    return {'functions': fs, 'obligations': obs, 'assumptions': sorted(notes), 'trusted': sorted(TRUSTED) if todo else [], 'inlined': sorted(inl), 'solver_s': round(solver, 2), 'queries': queries,
            'level': 'proof' if allok else '', 'back_end': backend()}


def backend():
    try:
        import z3
        return 'z3 %s (python3-vt); VC generator mkv/pyvc' % z3.get_version_string()
    except Exception: return 'z3'


TRUSTED = ['mkv/pyvc: the translation of Python statements and expressions into verification conditions', 'models of the built-in types, of re, itertools and networkx written in mkv/pyvc/models.py', 'z3']


if __name__ == '__main__':
    d = run(sys.argv[1], os.environ.get('MKV_REPO', '/repo'), 'quick')
    print(json.dumps(d, indent=1))
