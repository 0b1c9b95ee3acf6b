"""G01-G06: graph helpers"""
import copy, os
from collections import Counter
from .lib import *


def nx():
    import networkx
    return networkx


NN = ['a', 'b', 'c', 'd', 'Smith, J', 'é "q"', 'x y', 'f', 'g', 'h', 'i', 'j']


def graph(rng, H, weight='weight', count='count', directed=None, attrs=True, values=(0, 9), pw=.85, pc=.85, loops=True, names=None):
    n = H.size(rng, 6, 30)
    names = names or (NN + ['n%d' % i for i in range(400)])
    ns = []
    for i in range(n):
        d = {}
        maybe(rng, d, count, lambda: H.int(rng, *values), pc)
        if attrs:
            maybe(rng, d, 'info', lambda: H.word(rng, WORD), .4); maybe(rng, d, 'extra', lambda: rng.choice([1, 2.5, True, 'x', 'a;b']), .2)
        ns.append([names[i], d])
    es, seen = [], set()
    directed = rng.random() < .4 if directed is None else directed
    dens = rng.choice([.1, .4, .8])
    if n > 12:
        dens = .1
    for i in range(n):
        for j in range(n):
            if (j < i and not directed) or (i == j and not loops) or rng.random() > dens:
                continue
            d = {}
            maybe(rng, d, weight, lambda: H.int(rng, *values), pw)
            if attrs:
                maybe(rng, d, 'kind', lambda: H.word(rng, WORD), .3)
            a, b = (i, j) if directed or rng.random() < .5 else (j, i)
            es.append([names[a], names[b], d])
    rng.shuffle(es)
    return dict(directed=directed, nodes=ns, edges=es)


def make(g):
    G = nx().DiGraph() if g['directed'] else nx().Graph()
    for n, d in g['nodes']:
        G.add_node(n, **d)
    for a, b, d in g['edges']:
        G.add_edge(a, b, **d)
    return G


def ek(G, a, b):
    return (a, b) if G.is_directed() else tuple(sorted((a, b)))


def snap(G):
    return {n: dict(d) for n, d in G.nodes(data=True)}, {ek(G, a, b): dict(d) for a, b, d in G.edges(data=True)}


@prop('G01').variant('edges')
class G01:
    def gen(rng, H):
        w = rng.choice(['weight', 'weight', 'w2'])
        pw = rng.choice([1, 1, .8])
        b = lambda: rng.choice([None, H.int(rng, -1, 10), H.int(rng, 0, 9), 2.5, 'inf'])
        return dict(g=graph(rng, H, weight=w, pw=pw), w=w, min=b(), max=b(), ign=rng.random() < .5, loops=rng.random() < .4)

    def run(c):
        G = make(c['g']); ns, es = snap(G)
        kw = {}
        if c['min'] is not None and c['min'] != 'inf':
            kw['minWeight'] = c['min']
        if c['max'] is not None:
            kw['maxWeight'] = float('inf') if c['max'] == 'inf' else c['max']
        if c['w'] != 'weight':
            kw['parameterName'] = c['w']
        lo, hi = kw.get('minWeight', -float('inf')), kw.get('maxWeight', float('inf'))
        rest = {e: d for e, d in es.items() if not (c['loops'] and e[0] == e[1])}
        missing = any(c['w'] not in d for d in rest.values())
        f = lambda: mk().dropEdges(G, ignoreUnweighted=c['ign'], dropSelfLoops=c['loops'], **kw)
        if missing and not c['ign']:
            if (lo, hi) != (-float('inf'), float('inf')):
                return raises(KeyError, f, 'an edge without weight')
        f()
        want = {e: d for e, d in rest.items() if c['w'] not in d or lo <= d[c['w']] <= hi}
        same(snap(G)[1], want, 'edges'); same(snap(G)[0], ns, 'nodes')


@prop('G02').variant('degree', 1)
class G02:
    def gen(rng, H):
        w = rng.choice(['weight', 'weight', 'w2'])
        b = lambda: rng.choice([None, H.int(rng, 0, 12), H.int(rng, 0, 6)])
        return dict(g=graph(rng, H, weight=w, pw=rng.choice([1, .8, .2])), w=w, min=b(), max=b(), use=rng.random() < .7, inc=rng.random() < .7)

    def run(c):
        G = make(c['g']); ns, es = snap(G)
        kw = {k: v for k, v in (('minDegree', c['min']), ('maxDegree', c['max'])) if v is not None}
        if c['w'] != 'weight':
            kw['parameterName'] = c['w']
        f = lambda: mk().dropNodesByDegree(G, useWeight=c['use'], includeUnweighted=c['inc'], **kw)
        deg = dict.fromkeys(ns, 0)
        for (a, b), d in es.items():
            for n in ({a} if G.is_directed() else {a, b}):
                deg[n] += d.get(c['w'], 1) if c['use'] else 1
        if c['use'] and not c['inc'] and any(c['w'] not in d for d in es.values()):
            return raises(KeyError, f, 'an edge without weight')
        f()
        lo, hi = kw.get('minDegree', -float('inf')), kw.get('maxDegree', float('inf'))
        keep = {n for n in ns if lo <= deg[n] <= hi}
        N, E = snap(G)
        same(N, {n: ns[n] for n in keep}, 'nodes'); same(E, {e: d for e, d in es.items() if set(e) <= keep}, 'edges')


@prop('G02').variant('count', 1)
class G02b:
    def gen(rng, H):
        w = rng.choice(['count', 'count', 'c2'])
        b = lambda: rng.choice([None, H.int(rng, -1, 10), H.int(rng, 0, 9)])
        return dict(g=graph(rng, H, count=w, pc=rng.choice([1, 1, .8])), w=w, min=b(), max=b(), ign=rng.random() < .5)

    def run(c):
        G = make(c['g']); ns, es = snap(G)
        kw = {k: v for k, v in (('minCount', c['min']), ('maxCount', c['max'])) if v is not None}
        if c['w'] != 'count':
            kw['parameterName'] = c['w']
        f = lambda: mk().dropNodesByCount(G, ignoreMissing=c['ign'], **kw)
        if not c['ign'] and any(c['w'] not in d for d in ns.values()):
            return raises(KeyError, f, 'a node without count')
        f()
        lo, hi = kw.get('minCount', -float('inf')), kw.get('maxCount', float('inf'))
        keep = {n for n, d in ns.items() if c['w'] not in d or lo <= d[c['w']] <= hi}
        N, E = snap(G)
        same(N, {n: ns[n] for n in keep}, 'nodes'); same(E, {e: d for e, d in es.items() if set(e) <= keep}, 'edges')


@prop('G03').variant('merge')
class G03:
    def gen(rng, H):
        c, w = rng.choice([('count', 'weight'), ('count', 'weight'), ('c2', 'w2')])
        d = rng.random() < .4
        ka = dict(weight=w, count=c, directed=d, pw=rng.choice([1, .7]), pc=rng.choice([1, .7]))
        names = NN + ['n%d' % i for i in range(400)]
        other = list(names); rng.shuffle(other[:8]); other = names[:8]; rng.shuffle(other); other += ['z%d' % i for i in range(400)]
        return dict(a=graph(rng, H, **ka), b=graph(rng, H, names=other, **ka), c=c, w=w, off=rng.choice([None, None, None, 'n', 'e']), deflt=(c, w) == ('count', 'weight') and rng.random() < .5)

    def run(c):
        A, B = make(c['a']), make(c['b'])
        an, ae = snap(A); bn, be = snap(B)
        cn = None if c['off'] == 'n' else c['c']; we = None if c['off'] == 'e' else c['w']
        if c['deflt'] and c['off'] is None:
            mk().mergeGraphs(A, B)
        else:
            mk().mergeGraphs(A, B, incrementedNodeVal=cn, incrementedEdgeVal=we)
        same(snap(B), (bn, be), 'the added graph')
        N, E = snap(A)

        def compare(got, mine, other, key, what):
            same(set(got), set(mine) | set(other), what)
            for x in got:
                if x not in mine:
                    same(got[x], other[x], '%s %r only in the added graph' % (what, x))
                    continue
                for k, v in mine[x].items():
                    if key is not None and k == key and x in other and key in other[x]:
                        same(got[x].get(k), v + other[x][k], 'sum for %s %r' % (what, x))
                    else:
                        same(got[x].get(k), v, 'attribute %s of %s %r' % (k, what, x))
                if x not in other:
                    same(got[x], mine[x], '%s %r only in the target' % (what, x))
                else:
                    for k, v in got[x].items():
                        if k not in mine[x]:
                            expect(k in other[x] and other[x][k] == v, 'attribute from nowhere', x, k, v)
                    if key is not None and key in other[x] and key not in mine[x]:
                        same(got[x].get(key), other[x][key], 'value brought to %s %r' % (what, x))
        compare(N, an, bn, cn, 'node'); compare(E, ae, be, we, 'edge')
        for n, d in A.nodes(data=True):
            d['later'] = 1
        same(snap(B), (bn, be), 'the added graph after changing the target')


def attrVal(rng, H):
    return rng.choice([1, 0, -3, 2.5, 'text', 'a,b', 'say "x"', 'two\nlines', ' lead', '', 'é中', 'None', "it's", H.int(rng, 0, 99), H.word(rng, WORD)])


@prop('G04').variant('files')
class G04:
    def gen(rng, H):
        n = H.size(rng, 6, 40)
        names = ['plain', 'with, comma', 'quo"te', 'new\nline', ' sp', '', 'é', '1', 'ID', '{}', ';', '#x'] + H.newstrs[:3]
        names = list(dict.fromkeys(names + ['n%d' % i for i in range(400)]))
        rng.shuffle(names[:14])
        cols = ['count', 'info', 'a b', 'k"q', 'weight', 'x,y', 'année'] + ['col%d' % i for i in range(rng.choice([0, 0, 0, 20]))]
        allsame = rng.random() < .2
        top = 4 if len(cols) < 20 else len(cols)
        mine = rng.sample(cols, rng.randint(0, top)); emine = rng.sample(cols, rng.randint(0, top))
        ats = lambda pool: {k: attrVal(rng, H) for k in pool if allsame or rng.random() < .75}
        nodes = [[names[i], ats(mine)] for i in range(n)]
        d = rng.random() < .4
        seen, es = set(), []
        for _ in range(H.size(rng, 10, 40) if n else 0):
            a, b = rng.randrange(n), rng.randrange(n)
            if (a, b) in seen or (not d and (b, a) in seen):
                continue
            seen.add((a, b)); es.append([names[a], names[b], ats(emine)])
        return dict(g=dict(directed=d, nodes=nodes, edges=es), allsame=allsame, info=rng.random() < .8, name=rng.choice(['net', 'sub/net', 'sub/', 'x.y', './net', 'sub']), typing=rng.random() < .3, suffix=rng.choice(['csv', 'txt']),
                    over=rng.random() < .3, direct=rng.random() < .2)

    def run(c):
        G = make(c['g']); ns, es = snap(G)
        with tmpdir():
            os.mkdir('sub')
            before = set(allfiles())
            if c['direct']:
                gh().writeEdgeList(G, 'E.csv', extraInfo=c['info'], allSameAttribute=c['allsame'])
                gh().writeNodeAttributeFile(G, 'N.csv', allSameAttribute=c['allsame'])
                e, n = 'E.csv', 'N.csv'
            else:
                mk().writeGraph(G, c['name'], edgeInfo=c['info'], typing=c['typing'], suffix=c['suffix'], allSameAttribute=c['allsame'])
                new = sorted(set(allfiles()) - before)
                same(len(new), 2, 'number of files written')
                e = [f for f in new if 'edgeList' in f][0]; n = [f for f in new if 'nodeAttributes' in f][0]
                expect(e.endswith('.' + c['suffix']) and n.endswith('.' + c['suffix']), 'suffix of the files', new)
                if c['typing']:
                    t = '_directed.' if G.is_directed() else '_undirected.'
                    expect(t in e and t in n, 'type in the file names', new)
                if c['over']:
                    old = open(e, 'rb').read(), open(n, 'rb').read()
                    raises(OSError, lambda: mk().writeGraph(make(dict(directed=G.is_directed(), nodes=[], edges=[])), c['name'], typing=c['typing'], suffix=c['suffix'], overwrite=False), 'existing files without overwriting')
                    same((open(e, 'rb').read(), open(n, 'rb').read()), old, 'files that must not be overwritten')
            same(snap(G), (ns, es), 'the written graph')
            D = mk().readGraph(e, n, directed=G.is_directed())
            L = mk().readGraph(e, directed=G.is_directed())
        same(bool(D.is_directed()), bool(G.is_directed()), 'directedness')
        N, E = snap(D)

        def text(v):
            return '' if v is None else str(v)
        ncols = {k for d in ns.values() for k in d}; ecols = {k for d in es.values() for k in d} if c['info'] else set()
        same(N, {x: {k: text(d.get(k)) for k in ncols} for x, d in ns.items()}, 'nodes read back')
        same(E, {x: {k: text(d.get(k)) for k in ecols} for x, d in es.items()}, 'edges read back')
        same(snap(L)[1], E, 'edges read without the node file')
        same(set(snap(L)[0]), {x for e_ in es for x in e_}, 'nodes read without the node file')


def allfiles():
    return [os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs]


def gh():
    import metaknowledge.graphHelpers
    return metaknowledge.graphHelpers


@prop('G05').variant('degrees')
class G05:
    def gen(rng, H):
        w = rng.choice(['weight', 'weight', 'w2'])
        d = rng.random() < .5
        return dict(g=graph(rng, H, weight=w, directed=d, pw=rng.choice([1, .8])), w=w, use=rng.choice(['w', 'w', 'none']), type=rng.choice(['bi', 'in', 'out']) if d else 'bi', strict=rng.random() < .3)

    def run(c):
        G = make(c['g']); ns, es = snap(G)
        w = c['w'] if c['use'] == 'w' else rng_none(c)
        want = dict.fromkeys(ns, 0)
        for (a, b), d in es.items():
            v = d.get(w, 1) if w else 1
            if c['type'] in ('bi', 'out'):
                want[a] += v
            if c['type'] in ('bi', 'in'):
                want[b] += v
        f = lambda: gh().getNodeDegrees(G, weightString=w, strictMode=c['strict'], edgeType=c['type'])
        g = lambda: gh().getDegreeDistribution(G, weightParameter=w, strictWeightNames=c['strict'], directionalType=c['type'])
        if w and c['strict'] and any(w not in d for d in es.values()):
            raises(KeyError, f, 'an edge without weight')
            return raises(KeyError, g, 'an edge without weight')
        same(dict(f()), want, 'degrees')
        if ns:
            D = list(g())
            k = Counter(want.values())
            same(D, [k[i] for i in range(max(want.values()) + 1)], 'distribution'); same(sum(D), len(ns), 'sum of the distribution')
        same(snap(G), (ns, es), 'the graph')
        if es:
            raises(ValueError, lambda: gh().getNodeDegrees(G, edgeType='xx'), 'unknown edge type')


def rng_none(c):
    return None


@prop('G06').variant('tnet')
class G06:
    def gen(rng, H):
        n = H.size(rng, 8, 40)
        m = rng.choice(['mode', 'type'])
        nodes = [[NN[i] if i < len(NN) else 'n%d' % i, {m: rng.choice(['A', 'B'])}] for i in range(n)]
        es, seen = [], set()
        for _ in range(H.size(rng, 12, 60) if n else 0):
            a, b = rng.randrange(n), rng.randrange(n)
            if nodes[a][1][m] == nodes[b][1][m] or frozenset((a, b)) in seen:
                continue
            seen.add(frozenset((a, b))); es.append([nodes[a][0], nodes[b][0], {'weight': H.int(rng, 1, 9)}])
        if rng.random() < .3:
            for x, d in nodes:      # indices left from an earlier use
                if rng.random() < .6: d[rng.choice(['tnet-ID', 'num', 'ID'])] = rng.choice([1, 1, 2, n, 'x'])
        bad = rng.choice([None, None, None, 'third', 'missing', 'inside', 'one'])
        return dict(g=dict(directed=False, nodes=nodes, edges=es), m=m, bad=bad, i=rng.randint(0, 99), weighted=rng.random() < .6, source=rng.choice([None, None, 'A', 'B']), idx=rng.choice([None, 'num']), multi=rng.random() < .2)

    def run(c):
        g = copy.deepcopy(c['g']); m = c['m']; n = len(g['nodes'])
        bad = c['bad']
        if bad and not n:
            bad = None
        if bad == 'third':
            g['nodes'][c['i'] % n][1][m] = 'C'
        elif bad == 'missing':
            del g['nodes'][c['i'] % n][1][m]
        elif bad == 'inside':
            by = {}
            for x, d in g['nodes']:
                by.setdefault(d[m], []).append(x)
            two = [v for v in by.values() if len(v) > 1]
            if not two:
                bad = None
            else:
                v = two[c['i'] % len(two)]; g['edges'].append([v[0], v[1], {'weight': 1}])
        elif bad == 'one':
            for x, d in g['nodes']:
                d[m] = 'A'
        modes = {d.get(m) for x, d in g['nodes']}
        ok = bad in (None, 'third') and len(modes) == 2
        if c['multi']:
            G = nx().MultiGraph()
            for x, d in g['nodes']:
                G.add_node(x, **d)
            for k, (a, b, d) in enumerate(g['edges']):
                G.add_edge(a, b, key='t%d' % (k % 3), **d)
                if k % 2:
                    G.add_edge(a, b, key='u', **d)
        else:
            G = make(g)
        mode = {x: d.get(m) for x, d in g['nodes']}
        es = sorted((a, b, k) for a, b, k in G.edges(keys=True)) if c['multi'] else sorted(G.edges())
        kw = {}
        if c['source'] is not None:
            kw['sourceMode'] = c['source']
            if bad == 'one' or c['source'] not in modes:
                kw = {}
        if c['idx']:
            kw['nodeIndexString'] = c['idx']
        if c['multi']:
            kw['timeString'] = 'key'
        f = lambda: mk().writeTnetFile(G, 'out.tnet', m, weighted=c['weighted'], **kw)
        with tmpdir():
            if not ok:
                from metaknowledge.mkExceptions import RCValueError
                return raises(RCValueError, f, 'a graph that is not two-mode (%s)' % (bad or 'one mode'))
            f()
            lines = open('out.tnet', encoding='utf-8', newline='').read().split('\n')
        same(lines[-1], '', 'end of the file'); lines = lines[:-1]
        key = c['idx'] or 'tnet-ID'
        num = {x: d[key] for x, d in G.nodes(data=True)}
        same(sorted(num.values()), list(range(1, n + 1)), 'numbers of the nodes')
        first = kw.get('sourceMode')
        want = []
        for first in ([first] if first else sorted(modes)):
            w = Counter()
            for e in es:
                a, b = e[:2]
                if mode[a] != first:
                    a, b = b, a
                t = ['"%s"' % e[2]] if c['multi'] else []
                wt = (G.edges[e[0], e[1], e[2]] if c['multi'] else G.edges[e[0], e[1]])['weight']
                w[tuple(t + [str(num[a]), str(num[b])] + ([str(wt)] if c['weighted'] else []))] += 1
            want.append(w)
        got = Counter(tuple(l.split(' ')) for l in lines)
        expect(got in want, 'lines of the file', sorted(got), sorted(want[0]))
        same({x: {k: v for k, v in d.items() if k != key} for x, d in G.nodes(data=True)}, {x: {k: v for k, v in d.items() if k != key} for x, d in g['nodes']}, 'other attributes of the nodes')
        same(sorted((a, b, k) for a, b, k in G.edges(keys=True)) if c['multi'] else sorted(G.edges()), es, 'edges of the graph')
