"""N01-N08: networks made from collections"""
from collections import Counter
from .lib import *
from . import c_rec as cr
from .c_analysis import mixed, build, vals, unchanged

DB = {'NATURE': ['Nature'], 'SCIENCE': ['Science'], 'J PHYS': ['Journal of Physics'], 'NAT': [''], 'PLOS ONE': ['PLOS One']}


class Journals:
    def __enter__(self):
        import metaknowledge.citation as m
        self.old = m.abbrevDict; m.abbrevDict = {k: list(v) for k, v in DB.items()}

    def __exit__(self, *a):
        import metaknowledge.citation as m
        m.abbrevDict = self.old


def isJ(x):
    return bool(DB.get(getattr(x, 'journal', None) or '', [''])[0])


def anon(x):
    return not hasattr(x, 'author') or x.author == '[Anonymous]'


def pair(a, b, directed=False):
    return (a, b) if directed else tuple(sorted((a, b), key=repr))


def pairs(l, into, directed=False):
    for i in range(len(l)):
        for j in range(i + 1, len(l)):
            into[pair(l[i], l[j])] += 1


def check(G, nodes, edges, weighted, directed=False, count=None, countName='count', weightName='weight'):
    """the graph has exactly these nodes (with counts) and edges (with weights)"""
    same(bool(G.is_directed()), directed, 'directedness')
    expect(not G.is_multigraph(), 'multigraph')
    same(set(G.nodes()), set(nodes), 'nodes')
    got = {pair(a, b, directed): d for a, b, d in G.edges(data=True)}
    same(set(got), set(edges), 'edges'); same(G.number_of_edges(), len(edges), 'number of edges')
    for e, d in got.items():
        if weighted:
            same(d.get(weightName), edges[e], 'weight of %r' % (e,))
        else:
            expect(weightName not in d, 'weight though not asked for', e, d)
    for n, d in G.nodes(data=True):
        if count:
            same(d.get(countName), nodes[n], 'count of %r' % (n,))
        else:
            expect(countName not in d, 'count though not asked for', n, d)


def repeatAuthors(recs, rng, H):
    pool = AUTH[:5] + H.newstrs[:2]
    for k, f in recs:
        if k == 'wos':
            if rng.random() < .5:
                f['AU'] = subset(rng, pool, 1, H.size(rng, 4, 12) + 1)
            if rng.random() < .5:
                f['AF'] = subset(rng, FULL[:5] + H.newstrs[:2], 1, 4)
    return recs


@prop('N01').variant('co-authors')
class N01:
    def gen(rng, H):
        return dict(recs=repeatAuthors(mixed(rng, H), rng, H), short=rng.random() < .4, weighted=rng.random() < .7, count=rng.random() < .7, info=rng.choice([False, False, True, ['year', 'TI']]), profile=rng.random() < .2, drop=rng.random() < .15)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        nodes, edges = Counter(), Counter()
        prof = {}
        with Journals():
            for R in build(c['recs']):
                if c['drop'] and not isJ(R.createCitation()):
                    continue
                a = list(vals(R, 'authorsShort' if c['short'] else 'authorsFull'))
                nodes.update(a); pairs(a, edges)
                for x in a:
                    prof.setdefault(x, Counter()).update(vals(R, 'citations'))
            G = C.networkCoAuthor(detailedInfo=c['info'], weighted=c['weighted'], count=c['count'], useShortNames=c['short'], citeProfile=c['profile'], dropNonJournals=c['drop'])
        check(G, nodes, edges, c['weighted'], count=c['count'])
        if c['profile']:
            for n, d in G.nodes(data=True):
                k = [int(x) for x in d['citeProfileCounts'].split('|') if x]
                same(sorted(k), sorted(prof[n].values()), 'citation profile of %r' % n)
        unchanged(C, len(c['recs']), ids)


TYPES = ['full', 'full', 'original', 'author', 'journal', 'year']


def citeCase(rng, H):
    recs = mixed(rng, H, kinds=['wos', 'wos', 'wos', 'wos', 'sco'])
    own = []
    for k, f in recs:
        if k == 'wos' and 'AU' in f and 'PY' in f and 'J9' in f:
            own.append('%s, %s, %s' % (f['AU'][0].replace(',', ''), f['PY'][0], f['J9'][0]))
    for i, (k, f) in enumerate(recs):
        if k == 'wos' and own and rng.random() < .5:
            f['CR'] = subset(rng, own, 1, 3) + f.get('CR', [])[:rng.randint(0, 5)]
            rng.shuffle(f['CR'])
        if k == 'wos' and rng.random() < .06:        # a record that tells nothing about itself
            recs[i][1] = dict([('UT', f['UT'])] + ([('CR', f['CR'])] if 'CR' in f else []))
    return dict(recs=recs, type=rng.choice(TYPES), anon=rng.random() < .5, weighted=rng.random() < .7, count=rng.random() < .7, keys=rng.choice([None, None, None, 'nature', ['smith', 'PHYS'], [], ['zz'], 'V3']),
                core=rng.random() < .25, nonj=rng.random() < .2, info=rng.random() < .8, full=rng.random() < .2, detail=rng.choice([True, True, False]), dattr=rng.random() < .2, addCR=rng.random() < .2)


def opts(c):
    return dict(dropAnon=c['anon'], nodeType=c['type'], nodeInfo=c['info'], fullInfo=c['full'], weighted=c['weighted'], dropNonJournals=c['nonj'], count=c['count'], keyWords=c['keys'],
                detailedCore=c['detail'], detailedCoreAttributes=c['dattr'], coreOnly=c['core'], addCR=c['addCR'])


def nid(x, t):
    return x.ID() if t == 'full' else getattr(x, t)


def keeps(c, x, core):
    if c['type'] != 'full' and not getattr(x, c['type'], None):
        return False
    if c['nonj'] and not isJ(x):
        return False
    if c['anon'] and anon(x):
        return False
    if c['core'] and x not in core:
        return False
    ks = [c['keys']] if isinstance(c['keys'], str) else (c['keys'] or [])
    return not any(k.upper() in str(x).upper() for k in ks)


@prop('N02').variant('co-citation')
class N02:
    def gen(rng, H):
        return citeCase(rng, H)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        nodes, edges = Counter(), Counter()
        with Journals():
            fresh = build(c['recs'])
            core = {R.createCitation() for R in fresh}
            for R in fresh:
                l = [nid(x, c['type']) for x in vals(R, 'citations') if keeps(c, x, core)]
                nodes.update(l); pairs(l, edges)
            G = C.networkCoCitation(**opts(c))
        check(G, nodes, edges, c['weighted'], count=c['count'])
        if c['type'] == 'full' and c['detail'] and c['info']:
            cid = {x.ID() for x in core}
            for n, d in G.nodes(data=True):
                same(d['inCore'], n in cid, 'inCore of %r' % n)
        unchanged(C, len(c['recs']), ids)
        raises(Exception, lambda: C.networkCoCitation(nodeType='xx'), 'unknown node type')


@prop('N03').variant('citation')
class N03:
    def gen(rng, H):
        return dict(citeCase(rng, H), directed=rng.random() < .7, rev=rng.random() < .25)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        nodes, edges, years = Counter(), Counter(), collections.defaultdict(set)
        with Journals():
            fresh = {R.id: R for R in build(c['recs'])}
            core = {R.createCitation() for R in fresh.values()}
            for R in [fresh[R.id] for R in C]:       # the first appearance of a node depends on the order
                own = R.createCitation()
                cites = vals(R, 'citations')
                if not cites or not keeps(c, own, core):
                    continue
                h = nid(own, c['type'])
                if h not in nodes:
                    nodes[h] = 1
                for x in cites:
                    if keeps(c, x, core):
                        n = nid(x, c['type'])
                        nodes[n] += 1
                        e = pair(n, h, c['directed']) if c['rev'] else pair(h, n, c['directed'])
                        edges[e] += 1
                        ys = (getattr(own, 'year', None), getattr(x, 'year', None))
                        years[e].add(None if None in ys else abs(ys[0] - ys[1]))
            G = C.networkCitation(directed=c['directed'], recordToCite=not c['rev'], **opts(c))
        check(G, nodes, edges, c['weighted'], c['directed'], count=c['count'])
        if c['weighted'] and c['type'] in ('full', 'original'):
            for a, b, d in G.edges(data=True):
                expect('yearDiff' in d and d['yearDiff'] in years[pair(a, b, c['directed'])], 'year difference of an edge', (a, b), d, years[pair(a, b, c['directed'])])
        unchanged(C, len(c['recs']), ids)
        raises(Exception, lambda: C.networkCitation(nodeType='xx'), 'unknown node type')


@prop('N04').variant('coupling')
class N04:
    def gen(rng, H):
        return dict(citeCase(rng, H))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        refs, cited = {}, set()
        fresh = build(c['recs'])
        core = {R.createCitation().ID() for R in fresh}
        for R in fresh:
            cites = [x.ID() for x in vals(R, 'citations')]
            if cites:
                refs.setdefault(R.createCitation().ID(), set()).update(cites)
                cited |= set(cites)
        nodes = {n: 1 for n in set(refs) | (cited & core)}
        edges = {}
        ks = sorted(refs)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                w = len(refs[a] & refs[b])
                if w:
                    edges[pair(a, b)] = w
        G = C.networkBibCoupling(weighted=c['weighted'], fullInfo=c['full'], addCR=c['addCR'])
        check(G, nodes, edges, c['weighted'], count=False)
        unchanged(C, len(c['recs']), ids)


NTAGS = ['AU', 'AF', 'authorsShort', 'keywords', 'DE', 'ID', 'year', 'title', 'journal', 'SO', 'WC', 'SC', 'citations', 'DOI', 'volume', 'nothing', 'PY', 'TC', 'month']


def shout(s):
    return s.upper()[:3]


def tagCase(rng, H, lo, hi):
    recs = repeatAuthors(mixed(rng, H, kinds=['wos', 'wos', 'wos', 'wos', 'sco', 'med']), rng, H)
    for k, f in recs:                                # values shared between fields, and numbers that are zero
        if k == 'wos' and rng.random() < .25:
            f['DE'] = [' '.join(['optics;', 'Smith, J;', '2001;', 'optics'][:rng.randint(1, 4)])]
        if k == 'wos' and rng.random() < .1:
            f['TC'] = ['0']
    return dict(recs=recs, tags=rng.sample(NTAGS, rng.randint(lo, hi)), weighted=rng.random() < .7, count=rng.random() < .7, stem=rng.random() < .3)


@prop('N05').variant('multi-level')
class N05:
    def gen(rng, H):
        return dict(tagCase(rng, H, 1, 3), info=rng.choice([None, None, 'DE', 'AU', 'AF', 'WC', 'keywords', 'nothing']))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        nodes, edges, info = Counter(), Counter(), {}
        for R in build(c['recs']):
            l = [str(v) for t in c['tags'] for v in vals(R, t)]
            if c['stem']:
                l = [shout(v) for v in l]
            nodes.update(l); pairs(l, edges)
            for v in l:
                info.setdefault(v, set()).update(str(x) for x in (vals(R, c['info']) if c['info'] else []))
        kw = dict(nodeCount=c['count'], edgeWeight=c['weighted'], stemmer=shout if c['stem'] else None)
        if c['info']:
            kw['nodeAttribute'] = c['info']
        G = C.networkOneMode(c['tags'][0], **kw) if len(c['tags']) == 1 else C.networkMultiLevel(*c['tags'], **kw)
        if c['info']:
            same({n: set(d.pop(c['info'])) for n, d in G.nodes(data=True)}, info, 'values of %s on the nodes' % c['info'])
        check(G, nodes, edges, c['weighted'], count=c['count'])
        unchanged(C, len(c['recs']), ids)


@prop('N06').variant('two-mode')
class N06:
    def gen(rng, H):
        d = tagCase(rng, H, 2, 2)
        d.update(directed=rng.random() < .5, stem2=rng.random() < .3, type=rng.random() < .7, label=rng.choice([None, None, None, 'PY', 'year', 'DE', 'WC', 'AU', 'nothing', 'TC', 'keywords']))
        return d

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        t1, t2 = c['tags']
        nodes, edges, types, labelled = Counter(), Counter(), {}, Counter()
        for R in build(c['recs']):
            l1 = [str(v) for v in vals(R, t1)]; l2 = [str(v) for v in vals(R, t2)]
            l1 = [shout(v) for v in l1] if c['stem'] else l1
            l2 = [shout(v) for v in l2] if c['stem2'] else l2
            for v in l1:
                types.setdefault(v, set()).add(t1)
            for v in l2:
                types.setdefault(v, set()).add(t2)
            nodes.update(l1 + l2)
            for a in l1:
                for b in l2:
                    edges[pair(a, b, c['directed'])] += 1
                    for e in (vals(R, c['label']) if c['label'] else []):
                        labelled[pair(a, b, c['directed']), e] += 1
        G = C.networkTwoMode(t1, t2, directed=c['directed'], recordType=c['type'], nodeCount=c['count'], edgeWeight=c['weighted'],
                             stemmerTag1=shout if c['stem'] else None, stemmerTag2=shout if c['stem2'] else None, **({'edgeAttribute': c['label']} if c['label'] else {}))
        if c['label']:
            expect(G.is_multigraph() and G.is_directed() == c['directed'], 'type of the graph', type(G))
            same({n: d.get('count') for n, d in G.nodes(data=True)}, {n: k if c['count'] else None for n, k in nodes.items()}, 'nodes')
            got = {(pair(a, b, c['directed']), e): d for a, b, e, d in G.edges(data=True, keys=True)}
            same(set(got), set(labelled), 'edges and their labels')
            for e, d in got.items():
                same(d, {'weight': labelled[e]} if c['weighted'] else {}, 'attributes of the edge %r' % (e,))
        else:
            check(G, nodes, edges, c['weighted'], c['directed'], count=c['count'])
        for n, d in G.nodes(data=True):
            if c['type']:
                expect(d.get('type') in types[n], 'mark of a node', n, d, types[n])
            else:
                expect('type' not in d, 'mark though not asked for', n, d)
        unchanged(C, len(c['recs']), ids)


@prop('N07').variant('multi-mode')
class N07:
    def gen(rng, H):
        return dict(tagCase(rng, H, 1, 4), form=rng.random() < .3)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        nodes, edges = Counter(), Counter()
        for R in build(c['recs']):
            ls = [[str(v) for v in vals(R, t)] for t in c['tags']]
            if c['stem']:
                ls = [[shout(v) for v in l] for l in ls]
            for i, l in enumerate(ls):
                nodes.update(l)
                for m in ls[i + 1:]:
                    for a in l:
                        for b in m:
                            edges[pair(a, b)] += 1
        args = [list(c['tags'])] if c['form'] else c['tags']
        G = C.networkMultiMode(*args, nodeCount=c['count'], edgeWeight=c['weighted'], stemmer=shout if c['stem'] else None)
        check(G, nodes, edges, c['weighted'], count=c['count'])
        unchanged(C, len(c['recs']), ids)


def grant(i, kind, fields):
    from metaknowledge.grants import FallbackGrant, NSERCGrant, NSFGrant
    f = collections.OrderedDict((k, v) for k, v in fields.items())
    if kind == 'nserc':
        f['Cle'] = str(i)
        return NSERCGrant('o%d' % i, f, sFile='NSERC_x.csv', sLine=i)
    if kind == 'nsf':
        f['AwardID'] = str(i)
        return NSFGrant(f, 'f%d.xml' % i)
    return FallbackGrant('o%d' % i, f, sFile='x.csv', sLine=i)


PEOPLE = ['Smith J', 'Doe A', 'Li X', 'Lee K', 'Kim S']


def grantFields(rng, H, kind):
    d = {}
    pool = PEOPLE + H.newstrs[:2]
    join = lambda: rng.choice([';', '; ', ' ;']).join(subset(rng, pool, 1, 4))
    if kind == 'nserc':
        for k in ('Name-Nom', 'Co-Researcher Name-X', 'Institution-Etablissement', 'Other Institution', 'PI'):
            maybe(rng, d, k, join, .6)
    elif kind == 'nsf':
        for k in ('Investigator', 'Institution'):
            maybe(rng, d, k, lambda: ['%s; %s' % (rng.choice(pool), rng.choice(['x@y', 'PI', ''])) for _ in range(rng.randint(1, 3))], .7)
        maybe(rng, d, 'PI', join, .4); maybe(rng, d, 'Name-Nom', join, .4)
    else:
        for k in ('PI', 'Name-Nom', 'Institution', 'Org'):
            maybe(rng, d, k, join, .6)
    return d


def investigators(kind, f, tags, sep, inst):
    """the names under the tags"""
    tags = [] if tags is None else [tags] if isinstance(tags, str) else list(tags)
    if kind == 'nserc':
        tags += [k for k in f if ('institution' if inst else 'name-') in k.lower() and k not in tags]
    elif kind == 'nsf':
        own = 'Institution' if inst else 'Investigator'
        tags = tags + [own]
    out = []
    for t in tags:
        if t not in f:
            continue
        v = f[t]
        out += [p.strip() for p in v.split(sep)] if isinstance(v, str) else [e.split(sep)[0].strip() for e in v]
    return out


@prop('N08').variant('co-investigators')
class N08:
    def gen(rng, H):
        ks = [rng.choice(['nserc', 'nsf', 'fall']) for _ in range(H.size(rng))]
        if rng.random() < .5:
            ks = [rng.choice(['nserc', 'nsf', 'fall'])] * len(ks)
        tags = rng.choice([None, 'PI', ['PI'], ['PI', 'Name-Nom'], ['Institution', 'Org'], [], ['Nothing', 'PI'], 'Name-Nom'])
        return dict(grants=[[k, grantFields(rng, H, k)] for k in ks], tags=tags, sep=rng.choice([';', ';', ';', ' ']), inst=rng.random() < .4, weighted=rng.random() < .7, count=rng.random() < .7)

    def run(c):
        C = mk().GrantCollection([grant(i, k, f) for i, (k, f) in enumerate(c['grants'])], quietStart=True)
        same(len(C), len(c['grants']), 'grants')
        nodes, edges = Counter(), Counter()
        for k, f in c['grants']:
            l = investigators(k, f, c['tags'], c['sep'], c['inst'])
            nodes.update(l); pairs(l, edges)
        tags = list(c['tags']) if isinstance(c['tags'], list) else c['tags']
        fn = C.networkCoInvestigatorInstitution if c['inst'] else C.networkCoInvestigator
        G = fn(targetTags=tags, tagSeperator=c['sep'], count=c['count'], weighted=c['weighted'])
        check(G, nodes, edges, c['weighted'], count=c['count'])
        named = {}
        for k, f in c['grants']:
            for t in f:
                for v in investigators('fall', f, t, c['sep'], c['inst']):
                    named.setdefault(v, set()).add(t)
        for n, d in G.nodes(data=True):
            expect(d.get('field') in named[n], 'field of a node', n, d, named[n])
        same(tags, c['tags'], 'list of tags passed in')
        same(len(C), len(c['grants']), 'grants afterwards')
