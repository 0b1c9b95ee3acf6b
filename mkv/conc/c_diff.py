"""D01, D02: diffusion counts"""
from collections import Counter
from .lib import *
from . import c_rec as cr
from .c_graph import graph, make as mkgraph, snap

STYPES = ['raw', 'raw', 'raw', 'year', 'AU', 'SO', 'title', 'journal', 'WC', 'authorsShort', 'keywords', 'PY', 'nothing']
EXTRA = [None, None, None, 'year', 'WC', 'SO', 'keywords', 'journal', 'TI', 'nothing']


def case(rng, H):
    src = wosList(rng, H)
    tgt = wosList(rng, H)
    for i, r in enumerate(src):
        r['AU'] = list(dict.fromkeys(subset(rng, ['Smith, J', 'Doe, A', 'Li, X', 'Lee, K'] + H.newstrs[:2], 1, 4)))
        if rng.random() < .9:
            r['PY'] = [str(1950 + i % 60)]
            r['J9'] = [rng.choice(JRN)]; r['VL'] = [str(i)]
        for k in ('DE', 'ID', 'WC', 'SC'):
            if k in r:
                r[k] = ['; '.join(dict.fromkeys(r[k][0].split('; ')))]
    strs = []
    for R in (wos(r) for r in src):
        strs += [str(x) for x in R.createCitation(multiCite=True)]
    allr = tgt + src
    for r in allr:
        if rng.random() < .8:
            r['CR'] = [rng.choice(strs) if strs and rng.random() < .7 else rng.choice(CITES) for _ in range(rng.randint(1, 6))]
            if rng.random() < .2:
                r['CR'] = [x.upper() for x in r['CR']]
    for i, r in enumerate(tgt):
        r['UT'] = ['WOS:T%05d' % i]
    if rng.random() < .15 and src:      # overlapping collections
        tgt += [dict(src[0])]
    return dict(src=src, tgt=tgt)


def values(R, tag):
    v = R.get(tag)
    return [] if v is None else v if isinstance(v, list) else [v]


def spec(S, T, st, extra, allAuth, mapping=lambda x: x):
    """counts by the definition"""
    rows = []
    for R in S:
        v = R if st == 'raw' else R.get(st)
        if v is None or v == '' or v == [] or v == 0:
            continue
        cites = list(R.createCitation(multiCite=True)) if allAuth else [R.createCitation()]
        rows.append((v if isinstance(v, list) else [v], cites))
    for i, (_, a) in enumerate(rows):
        for _, b in rows[:i]:
            if any(x == y for x in a for y in b):
                raise Skip           # two source records with the same citation
    out = {}
    for vs, cites in rows:
        for v in vs:
            out.setdefault(v, {'TargetCount': 0} if extra is not None else 0)
        for Rt in T:
            ev = [mapping(x) for x in values(Rt, extra)] if extra is not None else []
            for ct in Rt.get('citations', []):
                if any(ct == x for x in cites):
                    for v in vs:
                        if extra is None:
                            out[v] += 1
                        else:
                            out[v]['TargetCount'] += 1
                            for e in ev:
                                out[v][e] = out[v].get(e, 0) + 1
    return out


@prop('D01').variant('counts')
class D01:
    def gen(rng, H):
        c = case(rng, H)
        c.update(st=rng.choice(STYPES), extra=rng.choice(EXTRA), comp=rng.random() < .4, all=rng.random() < .6, pandas=rng.random() < .4, nauth=rng.random() < .5, map=rng.random() < .2)
        return c

    def run(c):
        S, T = RC(c['src']), RC(c['tgt'])
        extra = c['extra']
        if extra in ('WC', 'SO', 'TI') and c['pandas'] and c['st'] == 'raw':
            extra = {'WC': 'subjects', 'SO': 'journal', 'TI': 'title'}[extra]   # a raw tag would name two columns
        if c['pandas'] and extra == c['st']:
            extra = None
        mp = (lambda x: str(x)[:2]) if c['map'] and extra is not None else (lambda x: x)
        want = spec(RC(c['src']), RC(c['tgt']), c['st'], extra, c['all'], mp)
        local = spec(RC(c['src']), RC(c['src']), c['st'], extra, c['all'], mp) if c['comp'] else None
        kw = dict(sourceType=c['st'], extraValue=extra, compareCounts=c['comp'], useAllAuthors=c['all'], pandasFriendly=c['pandas'], numAuthors=c['nauth'])
        if c['map'] and extra is not None:
            kw['extraMapping'] = mp
        got = mk().diffusionCount(S, T, **kw)
        if not c['pandas']:
            if c['comp']:
                same(dict(got), {k: (v, local[k]) for k, v in want.items()}, 'counts with comparison')
            else:
                same(dict(got), want, 'counts')
        else:
            expect(len({len(v) for v in got.values()}) <= 1, 'columns of different lengths', {k: len(v) for k, v in got.items()})
            rows, exp = Counter(), Counter()
            raw = c['st'] == 'raw'
            key = 'UT' if raw else c['st']
            n = len(got['TargetCount'])
            if n == 0:
                same(want, {}, 'empty table'); return
            cols = [key, 'TargetCount'] + (['SourceCount'] if c['comp'] else []) + ([extra] if extra is not None else []) + (['numAuthors'] if raw and c['nauth'] else [])
            expect(set(cols) <= set(got), 'columns', list(got), cols)
            if raw:
                same(set(got) - set(cols), {t for R in want for t in R.keys()} - {'UT'}, 'columns of the tags')
            rkey = (lambda R: repr(R.get('UT'))) if raw else repr
            for i in range(n):
                rows[(repr(got[key][i]),) + tuple(repr(got[x][i]) for x in cols[1:])] += 1
                if raw:
                    R = [x for x in want if x.get('UT') == got['UT'][i]][0]
                    for t in set(got) - set(cols):
                        same(cr.canon(got[t][i]), cr.canon(R.get(t)), 'cell %s of the table' % t)
            for R, v in want.items():
                for e, k in (v.items() if extra is not None else [(None, v)]):
                    row = (rkey(R), repr(k))
                    if c['comp']:
                        row += (repr(local[R].get(e, 0) if extra is not None else local[R]),)
                    if extra is not None:
                        row += (repr(e),)
                    if raw and c['nauth']:
                        row += (repr(len(R.get('authorsShort', []))),)
                    exp[row] += 1
            same(rows, exp, 'rows of the table')
        same(len(S), len({r['UT'][0] for r in c['src']}), 'source afterwards')
        same(len(T), len({r['UT'][0] for r in c['tgt']}), 'target afterwards')


@prop('D02').variant('labels')
class D02:
    def gen(rng, H):
        direct = rng.random() < .5
        c = dict(direct=direct, label=rng.choice([None, None, 'dc', 'count']), extra=rng.choice([None, None, 'year', 'WC']), keys=rng.choice([None, None, ['k1', 'Optics']]), give=rng.random() < .5)
        if direct:
            g = graph(rng, H)
            names = [n for n, _ in g['nodes']] + ['zz', 'yy']
            tab = {}
            for n in names:
                if rng.random() < .7:
                    v = H.int(rng, 0, 30)
                    tab[n] = v if c['extra'] is None else dict([('TargetCount', v)] + [(k, rng.randint(1, 9)) for k in ('Optics', 'Physics', '1999') if rng.random() < .5])
            c.update(g=g, tab=tab)
        else:
            c.update(case(rng, H)); c['type'] = rng.choice(['citations', 'citations', 'AU', 'year', 'SO'])
            c['attrs'] = rng.random() < .5
        return c

    def run(c):
        kw = {}
        if c['label']:
            kw['diffusionLabel'] = c['label']
        if c['extra']:
            kw['extraType'] = c['extra']
            if c['keys']:
                kw['extraKeys'] = list(c['keys'])
        if c['direct']:
            G = mkgraph(c['g']); tab = c['tab']
            call = lambda: mk().diffusionAddCountsFromSource(G, None, None, countsDict=copyd(tab), **kw)
        else:
            S, T = RC(c['src']), RC(c['tgt'])
            want = spec(RC(c['src']), RC(c['tgt']), c['type'], c['extra'], True)
            if len({str(k) for k in want}) != len(want):
                raise Skip
            tab = {str(k): v for k, v in want.items()}
            import networkx
            G = networkx.Graph()
            for n in list(tab)[:20] + ['another']:
                G.add_node(n, **({'info': 'x', 'count': 3} if c['attrs'] else {}))
            ns = sorted(G.nodes())
            for a, b in zip(ns, ns[1:]):
                G.add_edge(a, b, weight=2)
            call = lambda: mk().diffusionAddCountsFromSource(G, S, T, nodeType=c['type'], **kw)
        N, E = snap(G)
        call()
        N2, E2 = snap(G)
        same(E2, E, 'edges'); same(set(N2), set(N), 'nodes')
        label = c['label'] or 'DiffusionCount'
        for n in N:
            want = dict(N[n])
            if c['extra']:
                for k in (c['keys'] or []):
                    want[k] = 0
                want[label] = 0
                for k, v in tab.get(n, {}).items():
                    if k == 'TargetCount':
                        want[label] = v
                    elif k:
                        want[k] = v
            else:
                want[label] = tab.get(n, 0)
            same(N2[n], want, 'attributes of %r' % n)


def copyd(t):
    return {k: dict(v) if isinstance(v, dict) else v for k, v in t.items()}


LTYPES = ['AU', 'WC', 'authorsShort', 'keywords', 'DE', 'citations', 'BE']


def joined(S, T, st, tt, label, listed):
    """the diffusion graph by the definition: marks of the nodes, weights of the edges. `listed` gives the nodes of a record"""
    own = []
    for R in S:
        v = listed(R, st)
        if v:
            own.append((R.createCitation(), v))
    for i, (a, _) in enumerate(own):
        if any(a == b for b, _ in own[:i]):
            raise Skip           # two source records with the same citation
    nodes = {n: [True, False] for _, v in own for n in v}
    edges = Counter()
    for R in T:
        for n in listed(R, tt):
            nodes.setdefault(n, [False, True])[1] = True
            for x in R.get('citations', []):
                for a, v in own:
                    if a == x:
                        for s in v:
                            edges[(s, n) if label is None else (s, n, str(R.get(label)))] += 1
    return nodes, edges


@prop('D03').variant('graph')
class D03:
    def gen(rng, H):
        one = rng.random() < .25
        pick = lambda: rng.choice(['raw', 'UT', 'year', 'title'] if one and rng.random() < .5 else LTYPES)
        return dict(case(rng, H), st=pick(), tt=pick(), weighted=rng.random() < .7, label=rng.choice([None, None, None, 'UT']))

    def enumerate(H):
        yield dict(src=[{'AU': ['Smith J'], 'PY': ['1999'], 'J9': ['NATURE'], 'UT': ['WOS:1']}], tgt=[{'AU': ['Li X'], 'PY': ['2000'], 'CR': ['Smith J, 1999, NATURE'], 'UT': ['WOS:2']}],
                   st='raw', tt='raw', weighted=True, label=None)

    def run(c):
        S, T = RC(c['src']), RC(c['tgt'])
        label = c['label']; weighted = c['weighted'] and label is None
        single = [t for t in (c['st'], c['tt']) if t not in LTYPES]

        def listed(R, t):
            v = R if t == 'raw' else R.get(t)
            return v if isinstance(v, list) else [v] if v or v == 0 and v is not None else []
        want = joined(RC(c['src']), RC(c['tgt']), c['st'], c['tt'], label, listed)

        def compare(G, nodes, edges):
            expect(G.is_directed() and G.is_multigraph() == (label is not None), 'type of the graph', type(G))
            same({n: [d.pop('source', None), d.pop('target', None)] for n, d in G.nodes(data=True)}, nodes, 'nodes and their marks')
            expect(not any(d for _, d in G.nodes(data=True)), 'other attributes of nodes')
            if label is None:
                same({(a, b): d for a, b, d in G.edges(data=True)}, {e: {'weight': k} if weighted else {} for e, k in edges.items()}, 'edges')
            else:
                same({e: d for *e, d in ((a, b, k, d) for a, b, k, d in G.edges(data=True, keys=True)) for e in [tuple(e)]}, {e: {} for e in edges}, 'edges')
        call = lambda: mk().diffusionGraph(S, T, weighted=weighted, sourceType=c['st'], targetType=c['tt'], labelEdgesBy=label)
        if single:
            # known: records and texts as nodes are taken apart into their tags or letters, numbers fail
            try:
                G = call()
            except TypeError:
                if 'year' in single:
                    raise Known(FINDING)
                raise
            import copy as cp
            try:
                compare(cp.deepcopy(G), *want)
            except AssertionError:
                apart = lambda R, t: listed(R, t) if t in LTYPES else list(R if t == 'raw' else R.get(t) or [])
                compare(G, *joined(RC(c['src']), RC(c['tgt']), c['st'], c['tt'], label, apart))
                raise Known(FINDING)
        else:
            compare(call(), *want)
        same(len(S), len({r['UT'][0] for r in c['src']}), 'source afterwards')
        same(len(T), len({r['UT'][0] for r in c['tgt']}), 'target afterwards')


FINDING = 'diffusionGraph takes nodes that are records or single values (the default raw, UT, TI, PY) apart into their tags or letters, or fails for numbers'
