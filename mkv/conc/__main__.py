"""python -m mkv.conc ID --seed N --cases N --seconds S [--replay FILE]  -> JSON on stdout"""
import argparse, hashlib, importlib, json, os, random, sys, time
from . import lib, load


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cases', type=int, default=400); ap.add_argument('--seconds', type=float, default=15)
    ap.add_argument('--hints', default=''); ap.add_argument('--replay')
    a = ap.parse_args()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    load.modules()
    import metaknowledge
    here = os.path.realpath(metaknowledge.__file__)
    assert here.startswith(os.path.realpath(os.environ['MKV_REPO'])), here
    P = lib.REG[a.id]
    if a.replay:
        d = json.load(open(a.replay))
        run = {n: r for n, w, g, r in P.variants}[d['variant']]
        print(json.dumps({'failure': lib.run_case(run, d['case'], 120, d.get('verbose', False))}), file=out)
        return
    H = lib.Hints(**json.loads(a.hints)) if a.hints else lib.Hints()
    t0 = time.time(); res = {'evaluations': 0, 'skipped': 0, 'failures': [], 'samples': [], 'variants': {}}
    seen = set(); fails = {}; known = {}
    tot = sum(w for _, w, _, _ in P.variants)
    plan = [(n, max(1, a.cases * w // tot), g, r) for n, w, g, r in P.variants]
    budget = a.seconds
    for vi, (name, cnt, gen, run) in enumerate(plan):
        rng = random.Random('{}/{}/{}'.format(a.seed, a.id, name))
        end = t0 + budget * sum(p[1] for p in plan[:vi + 1]) / sum(p[1] for p in plan)
        k = done = 0
        enum = getattr(gen, 'enumerate', None)
        stream = enum(H) if enum else None
        while (stream is not None or k - done < cnt) and time.time() < end + (30 if stream is not None else 0):
            if stream is not None:
                try:
                    case = next(stream)
                except StopIteration:
                    stream, done = None, k
                    continue
            else:
                try:
                    case = gen(rng, H)
                except NotImplementedError:      # the enumeration is all
                    break
            case = json.loads(json.dumps(case))
            k += 1
            h = hashlib.md5(json.dumps([name, case], sort_keys=True).encode()).digest()
            loud = k % 9 == 4
            f = lib.run_case(run, case, loud=loud)
            if f == 'SKIP':
                res['skipped'] += 1
                continue
            res['evaluations'] += 1
            seen.add(h)
            if len(res['samples']) < 4 and (k in (1, 7)):
                res['samples'].append({'variant': name, 'case': json.loads(json.dumps(case))})
            if f is not None and f.startswith('KNOWN: '):
                known.setdefault(f[7:], {'variant': name, 'case': case})
            elif f is not None:
                fails.setdefault((name, f.split(':')[0]), {'variant': name, 'case': case, 'verbose': loud, 'failure': f})
                if len(fails) > 5:
                    break
        res['variants'][name] = k
    res['known'] = known
    res['distinct'] = len(seen)
    res['failures'] = list(fails.values())
    res['wall_s'] = round(time.time() - t0, 3)
    res['constants_preferred'] = len(H.newints) + len(H.newstrs)
    print(json.dumps(res), file=out)
    out.flush()


main()
