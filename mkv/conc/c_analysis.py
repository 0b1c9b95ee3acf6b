"""A01-A11: counts, series, filters and tables of a record collection"""
import csv, re
from collections import Counter
from .lib import *
from . import c_rec as cr

TAGS = ['AU', 'AF', 'authorsShort', 'authorsFull', 'keywords', 'ID', 'DE', 'authorKeywords', 'year', 'PY', 'title', 'TI', 'citations', 'CR', 'journal', 'SO', 'volume', 'DOI', 'TC',
        'pubMedID', 'wosString', 'month', 'WC', 'SC', 'abstract', 'nothing', 'j9', 'GA', 'beginningPage', 'selfCitation']


def mixed(rng, H, n=None, kinds=None):
    """[kind, fields] of records"""
    n = H.size(rng) if n is None else n
    out = []
    for i in range(n):
        k = rng.choice(kinds or ['wos', 'wos', 'wos', 'wos', 'sco', 'med'])
        f = wosFields(rng, H, 'WOS:%06d' % i) if k == 'wos' else cr.GENS[k](rng, H, i)
        if k == 'wos' and rng.random() < .3:
            f['CR'] = subset(rng, CITES, 1, H.size(rng, 6, 30) + 1)
        out.append([k, f])
    return out


def build(recs):
    return RC([cr.make(k, collections.OrderedDict((a, list(v) if isinstance(v, list) else v) for a, v in f.items())) for k, f in recs])


def vals(R, tag):
    """the values of a tag of a fresh record"""
    v = R.get(tag)
    return [] if v is None else v if isinstance(v, list) else [v]


def unchanged(C, n, ids):
    same(len(C), n, 'size of the collection afterwards')
    same({R.id for R in C}, ids, 'records of the collection afterwards')


def rows(d):
    cols = list(d)
    ls = {len(v) for v in d.values()}
    expect(len(ls) <= 1, 'columns of different lengths', {k: len(v) for k, v in d.items()})
    return [tuple(r) for r in zip(*[d[c] for c in cols])]


def tagFor(rng, H):
    return H.word(rng, TAGS, .05)


def limit(rng, C, tag):
    return rng.random() < .35


def readcsv(p):
    with open(p, newline='', encoding='utf-8') as f:
        return [tuple(r) for r in csv.reader(f)]


@prop('A01').variant('series')
class A01:
    def gen(rng, H):
        return dict(recs=mixed(rng, H), tag=tagFor(rng, H), first=rng.random() < .5, lim=rng.random() < .35, lk=rng.random(), lt=rng.choice(['list', 'set', 'tuple']), out=rng.random() < .2)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}; n = len(C)
        want = Counter(v for R in build(c['recs']) for v in vals(R, c['tag']))
        lim = None
        if c['lim']:
            ks = sorted(want, key=repr)
            lim = [k for i, k in enumerate(ks) if (i * 7 + int(c['lk'] * 10)) % 3] + ['other']
            want = {k: v for k, v in want.items() if k in lim}
            lim = {'list': list, 'set': set, 'tuple': tuple}[c['lt']](lim)
        kw = dict(greatestFirst=c['first'], limitTo=lim)
        with tmpdir():
            L = C.rankedSeries(c['tag'], pandasMode=False, outputFile='o.csv' if c['out'] else None, **kw)
            if c['out']:
                got = readcsv('o.csv')
                same(got[0], (c['tag'], 'count'), 'header of the file')
                same(Counter(got[1:]), Counter((str(a), str(b)) for a, b in L), 'rows of the file')
        same(len(L), len(want), 'number of rows'); same({a: b for a, b in L}, dict(want), 'counts')
        cs = [b for a, b in L]
        same(cs, sorted(cs, reverse=c['first']), 'order of the counts')
        rank = {x: i for i, x in enumerate(sorted(set(cs), reverse=True), 1)}
        K = C.rankedSeries(c['tag'], pandasMode=False, giveCounts=False, giveRanks=True, **kw)
        same(sorted(((repr(a), r) for a, r in K)), sorted((repr(a), rank[b]) for a, b in L), 'ranks')
        same([r for a, r in K], [rank[b] for b in cs], 'order of the ranks')
        D = C.rankedSeries(c['tag'], pandasMode=True, **kw)
        same(sorted((repr(a), b, r) for a, b, r in zip(D['entry'], D['count'], D['rank'])), sorted((repr(a), b, rank[b]) for a, b in L), 'table')
        same({len(v) for v in D.values()}, {len(L)}, 'column lengths'); same(list(D['count']), cs, 'order of the table')
        same(set(D), {'entry', 'count', 'rank'}, 'columns')
        E = C.rankedSeries(c['tag'], pandasMode=False, giveCounts=False, **kw)
        same(Counter(E), Counter(want.keys()), 'entries alone'); same([want[e] for e in E], cs, 'order of the entries')
        raises(Exception, lambda: C.rankedSeries(c['tag'], giveCounts=True, giveRanks=True), 'counts and ranks together')
        unchanged(C, n, ids)


@prop('A02').variant('series')
class A02:
    def gen(rng, H):
        return dict(recs=mixed(rng, H), tag=tagFor(rng, H) if rng.random() < .85 else None, first=rng.random() < .5, lim=rng.random() < .35, lk=rng.random(), out=rng.random() < .2)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}; n = len(C)
        want = Counter()
        for R in build(c['recs']):
            y = R.get('year')
            if 'year' not in R:
                continue
            for v in ([R] if c['tag'] is None else vals(R, c['tag'])):
                want[(v, y)] += 1
        lim = False
        if c['lim'] and c['tag'] is not None:
            ks = sorted({a for a, y in want}, key=repr)
            lim = [k for i, k in enumerate(ks) if (i * 7 + int(c['lk'] * 10)) % 3] + ['other']
            want = Counter({k: v for k, v in want.items() if k[0] in lim})
        with tmpdir():
            L = C.timeSeries(c['tag'], pandasMode=False, greatestFirst=c['first'], limitTo=lim, outputFile='o.csv' if c['out'] else None)
            if c['out']:
                got = readcsv('o.csv')[1:]
                exp = {}
                for a, y in want:
                    exp.setdefault(a, set()).add(str(y))
                same(sorted((k, tuple(sorted(v.split('|')))) for k, v in got), sorted((str(k), tuple(sorted(v))) for k, v in exp.items()), 'rows of the file')
        same(Counter(L), Counter(want.keys()), 'rows')
        ys = [y for a, y in L]
        same(ys, sorted(ys, reverse=c['first']), 'order by year')
        D = C.timeSeries(c['tag'], greatestFirst=c['first'], limitTo=lim)
        same(set(D), {'entry', 'count', 'year'}, 'columns'); same({len(v) for v in D.values()}, {len(L)}, 'column lengths')
        same({(a, y): n_ for a, y, n_ in zip(D['entry'], D['year'], D['count'])}, dict(want), 'counts'); same(list(D['year']), ys, 'order of the table')
        E = C.timeSeries(c['tag'], pandasMode=False, giveYears=False, greatestFirst=c['first'], limitTo=lim)
        same(Counter(E), Counter(a for a, y in want), 'entries alone')
        unchanged(C, n, ids)


@prop('A03').variant('pairs')
class A03:
    def gen(rng, H):
        return dict(recs=mixed(rng, H), key=tagFor(rng, H), tags=[tagFor(rng, H) for _ in range(rng.choice([1, 1, 2, 3]))])

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        want = {}
        for R in build(c['recs']):
            ks = vals(R, c['key'])
            for k in ks:
                want.setdefault(k, Counter())
            for t in c['tags']:
                for v in vals(R, t):
                    for k in ks:
                        want[k][v] += 1
        got = C.cooccurrenceCounts(c['key'], *c['tags'])
        same(set(got), set(want), 'keys')
        for k in want:
            same(dict(got[k]), dict(want[k]), 'counts of %r' % (k,))
        unchanged(C, len(c['recs']), ids)
        raises(Exception, lambda: C.cooccurrenceCounts(3, 'AU'), 'key tag that is no text')


ODD = ['Doe A, 0000, NATURE', '0000, NATURE', 'Doe A, 0000', ', 1999, NATURE', 'Doe A, , NATURE', 'Doe A, 1999, ', ' , 0, ', '0', '0, NATURE', 'Doe A, 0, NATURE']


@prop('A04').variant('stats')
class A04:
    def gen(rng, H):
        recs = mixed(rng, H)
        for k, f in recs:           # unusual, also empty looking parts
            if k == 'wos' and rng.random() < .25:
                f['CR'] = f.get('CR', []) + subset(rng, ODD, 1, 3)
        return dict(recs=recs, key=rng.choice(['citation', 'journal', 'year', 'author']))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        want = Counter()
        for R in build(c['recs']):
            for x in vals(R, 'citations'):
                v = x if c['key'] == 'citation' else getattr(x, c['key'], None)
                if v is not None:
                    want[v] += 1
        got = C.localCiteStats(keyType=c['key'])
        same(dict(got), dict(want), 'counts')
        D = C.localCiteStats(keyType=c['key'], pandasFriendly=True)
        same(set(D), {'Citations', 'Counts'}, 'columns')
        same(len(D['Citations']), len(want), 'rows'); same(dict(zip(D['Citations'], D['Counts'])), dict(want), 'table')
        raises(TypeError, lambda: C.localCiteStats(keyType='xx'), 'unknown key type')
        unchanged(C, len(c['recs']), ids)


@prop('A05').variant('citing')
class A05:
    def gen(rng, H):
        recs = mixed(rng, H, kinds=['wos', 'wos', 'wos', 'wos', 'sco'])
        # let some records cite others
        own = []
        for k, f in recs:
            if k == 'wos' and 'AU' in f and 'PY' in f and 'J9' in f:
                own.append('%s, %s, %s' % (f['AU'][0].replace(',', ''), f['PY'][0], f['J9'][0]))
        for k, f in recs:
            if k == 'wos' and own and rng.random() < .6:
                f['CR'] = subset(rng, own, 1, 3) + f.get('CR', [])[:3]
                rng.shuffle(f['CR'])
        return dict(recs=recs, form=rng.choice(['rec', 'member', 'member', 'alien', 'id', 'cite', 'badid']), i=rng.randint(0, 99), cite=rng.choice(own + CITES))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}; n = len(C)
        form = c['form']
        if not c['recs']:
            form = 'cite'
        if form in ('rec', 'member', 'alien', 'id'):
            k, f = c['recs'][c['i'] % len(c['recs'])]
            if form == 'alien':
                f = dict(f)
                if 'UT' in f:
                    f['UT'] = ['WOS:other']
            R0 = cr.make(k, collections.OrderedDict(f))
            cite = R0.createCitation()
            arg = R0 if form != 'id' else R0.id
            if form == 'member':
                arg = [R for R in C if R.id == R0.id][0]
            if form == 'id':
                expect(any(R.id == arg for R in C), 'id')
        elif form == 'cite':
            cite = mk().citation.Citation(c['cite']) if hasattr(mk(), 'citation') else mk().Citation(c['cite'])
            arg = cite
        else:
            cite, arg = None, 'WOS:nowhere'
        want = set()
        if cite is not None:
            want = {R.id for R in build(c['recs']) if any(x == cite for x in vals(R, 'citations'))}
        got = C.localCitesOf(arg)
        same({R.id for R in got}, want, 'records citing it'); same(len(got), len(want), 'size of the result')
        expect(type(got) is type(C), 'type of the result')
        unchanged(C, n, ids)
        got.clear()
        unchanged(C, n, ids)
        raises(ValueError, lambda: C.localCitesOf(3), 'a number')


FIELDS = ['all', 'author', 'journal', 'year', 'V', 'P', 'misc', 'anonymous', 'bad']


@prop('A06').variant('filter')
class A06:
    def gen(rng, H):
        f = rng.choice(FIELDS)
        key = {'year': lambda: str(rng.choice([1999, 2001, 2005, 1987, 1850, 2003])), 'author': lambda: rng.choice(['smith', 'Smith', 'J', 'doe a', '[anon', 'X', 'Li']),
               'journal': lambda: rng.choice(['nat', 'NATURE', 'phys', '.', 'J']), 'V': lambda: rng.choice(['V1', 'v3', '3', 'I', 'VV1', 'V 1', '']), 'P': lambda: rng.choice(['P2', 'p9', 'a7', '4', 'PP2', 'PPA7', '', 'P']),
               'misc': lambda: rng.choice(['junk', 'END', 'at', ','])}.get(f, lambda: rng.choice(['smith', 'Smith J', 'NATURE', 'DOI 10.1', '1999', 'x', 'Nature', 'zzz']))()
        return dict(recs=mixed(rng, H, kinds=['wos', 'wos', 'wos', 'sco', 'med']), field=f, key=H.word(rng, [key], .1) if f != 'year' else key, num=rng.random() < .3, case=rng.random() < .4)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}; n = len(C)
        k, f = c['key'], c['field']

        def hit(x):
            if f == 'all':
                return k in x.original if c['case'] else k.upper() in x.original.upper()
            if f == 'anonymous':
                return not hasattr(x, 'author') or x.author == '[Anonymous]'
            if f == 'bad':
                return x.bad
            v = getattr(x, f, None)
            if v is None:
                return False
            if f == 'year':
                return v == int(k)
            return k.upper() in (v.upper() if f == 'author' else v)
        want = {R.id for R in build(c['recs']) if any(hit(x) for x in vals(R, 'citations'))}
        arg = int(k) if c['num'] and f == 'year' else k
        got = C.citeFilter(arg, field=f, caseSensitive=c['case'])
        inv = C.citeFilter(arg, field=f, reverse=True, caseSensitive=c['case'])
        same({R.id for R in got}, want, 'matching records'); same(len(got), len(want), 'size')
        same({R.id for R in inv}, ids - want, 'other records'); same(len(inv), n - len(want), 'size of the reversed result')
        unchanged(C, n, ids)


@prop('A07').variant('citations')
class A07:
    def gen(rng, H):
        f = rng.choice([None, None, 'year', 'journal', 'author', 'V', 'P', 'DOI'])
        v = None
        if f is not None:
            pool = {'year': [1999, 2001, 2005, 1987, 2003], 'journal': ['NATURE', 'J PHYS', 'SCIENCE', 'NAT'], 'author': ['Smith J', 'Doe A', 'Li X', '[Anonymous]'],
                    'V': ['V1', 'V3', 'V'], 'P': ['P2', 'P4', 'P9'], 'DOI': ['10.1/X', '10.2/Y']}[f]
            v = rng.choice(pool) if rng.random() < .4 else rng.sample(pool, rng.randint(0, min(2, len(pool)))) if rng.random() < .5 else rng.sample(pool + ['x', 'NETS', 7, '', 'V2'], rng.randint(3, min(6, len(pool) + 5)))
        return dict(recs=mixed(rng, H), field=f, values=v, form=rng.choice(['list', 'set', 'tuple']))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        values = c['values']
        if isinstance(values, list):
            values = {'list': list, 'set': set, 'tuple': tuple}[c['form']](values)
        vs = [] if values is None else [values] if isinstance(values, (str, int)) else values

        def ok(x):
            return c['field'] is None or (hasattr(x, c['field']) and getattr(x, c['field']) in vs)
        per = {R.id: [x for x in vals(R, 'citations') if ok(x)] for R in build(c['recs'])}
        allc = [x for l in per.values() for x in l]
        kw = dict(field=c['field'], values=values) if c['field'] is not None else {}
        L = C.getCitations(pandasFriendly=False, **kw)
        same(Counter(L), Counter(set(allc)), 'citations'); same(len(L), len(set(allc)), 'number of citations')

        def table(D, cites, counts):
            cols = {'citeString', 'year', 'journal', 'author'} | ({'num-cites', 'fraction-cites-overall', 'fraction-cites-year'} if counts else set())
            same(set(D), cols, 'columns')
            same({len(v) for v in D.values()}, {len(set(cites))}, 'column lengths')
            cnt = Counter(cites); yc = Counter(getattr(x, 'year', None) for x in cites if hasattr(x, 'year'))
            byText = {}
            for x in cites:
                byText.setdefault(str(x), x)
            seen = set()
            for i, s in enumerate(D['citeString']):
                expect(s in byText, 'text of no citation', s)
                x = byText[s]
                expect(x not in seen, 'two rows for a citation', s); seen.add(x)
                for a in ('year', 'journal', 'author'):
                    same(D[a][i], getattr(x, a, None), a + ' of ' + s)
                if counts:
                    same(D['num-cites'][i], cnt[x], 'count of ' + s)
                    expect(abs(D['fraction-cites-overall'][i] - cnt[x] / len(cites)) < 1e-9, 'share of ' + s)
                    if hasattr(x, 'year'):
                        expect(abs(D['fraction-cites-year'][i] - cnt[x] / yc[x.year]) < 1e-9, 'share in its year of ' + s, D['fraction-cites-year'][i])
                    else:
                        same(D['fraction-cites-year'][i], None, 'share in its year of ' + s)
        table(C.getCitations(**kw), allc, True)
        table(C.getCitations(counts=False, **kw), allc, False)
        for R in C:
            same(Counter(R.getCitations(pandasFriendly=False, **kw)), Counter(per[R.id]), 'citations of a record')
            table(R.getCitations(**kw), per[R.id], False)
            same(Counter(vals(R, 'citations')), Counter(vals([Q for Q in build([r for r in c['recs']]) if Q.id == R.id][0], 'citations')) if len(c['recs']) < 8 else Counter(vals(R, 'citations')), 'citations of the record afterwards')
        unchanged(C, len(c['recs']), ids)


@prop('A08').variant('spectrum')
class A08:
    def gen(rng, H):
        recs = wosList(rng, H, H.size(rng, 6, 20) + 1)
        y0 = rng.randint(1960, 1990); w = rng.choice([3, 8, 20])
        for r in recs:
            if rng.random() < .8:
                r['CR'] = ['A B, %d, NATURE' % (y0 + rng.randint(0, w)) for _ in range(H.size(rng, 8, 40))] + subset(rng, CITES, 0, 2)
            if 'PY' in r and rng.random() < .6:
                r['PY'] = [str(y0 + rng.randint(0, w + 4))]
        lo = y0 + rng.randint(-4, w)
        return dict(recs=recs, min=rng.choice([None, lo, lo]), max=rng.choice([None, lo + rng.randint(0, w), lo + rng.randint(0, w)]), drop=[y0 + rng.randint(0, w) for _ in range(rng.choice([0, 0, 1, 3]))],
                    dropform=rng.choice(['list', 'set']), empty=rng.random() < .4)

    def run(c):
        C = RC(c['recs']); ids = {R.id for R in C}
        cnt = Counter()
        for R in RC(c['recs']):
            for x in vals(R, 'citations'):
                if x.year is not None and ('year' not in R or R['year'] >= x.year + 2):
                    cnt[x.year] += 1
        # years cited outside the bounds are only looked at near them
        lo, hi = c['min'], c['max']
        if lo is None or hi is None:
            inb = [y for y in cnt if (lo is None or y >= lo - 2) and (hi is None or y <= hi + 2)]
            if not inb or min(inb) <= 1000 or max(inb) >= 2100:
                raise Skip
            lo = min(inb) if lo is None else lo
            hi = max(inb) if hi is None else hi
            if (c['min'] is None and c['max'] is not None) or (c['max'] is None and c['min'] is not None):
                # the open bound is the earliest/latest cited year among those near the given bound
                pass
        drop = {'list': list, 'set': set}[c['dropform']](c['drop'])
        D = C.rpys(minYear=c['min'], maxYear=c['max'], dropYears=drop if c['drop'] else None, rankEmptyYears=c['empty'])
        want = [y for y in range(lo, hi + 1) if y not in c['drop']]
        same(set(D), {'year', 'count', 'abs-deviation', 'rank'}, 'columns'); same({len(v) for v in D.values()}, {len(want)}, 'column lengths')
        same(sorted(D['year']), want, 'years')
        row = {y: (a, d, r) for y, a, d, r in zip(D['year'], D['count'], D['abs-deviation'], D['rank'])}
        for y in want:
            same(row[y][0], cnt[y], 'count of %d' % y)
            same(row[y][1], cnt[y] - sorted(cnt[y + k] for k in (-2, -1, 0, 1, 2))[2], 'deviation of %d' % y)
            if cnt[y] == 0 and not c['empty']:
                same(row[y][2], 0, 'rank of the empty year %d' % y)
        rk = [(row[y][1], row[y][2]) for y in want if cnt[y] or c['empty']]
        same(len({r for d, r in rk}), len(rk), 'number of different ranks')
        for d1, r1 in rk:
            expect(1 <= r1 <= len(want), 'rank out of range', r1)
            for d2, r2 in rk:
                expect(not d1 > d2 or r1 > r2, 'ranks against deviations', (d1, r1), (d2, r2))
        unchanged(C, len(c['recs']), ids)


def prep(s, c, newlines):
    drop = c['drop']
    if drop is not None:
        s = ' ' + (s.replace('\n', ' ') if newlines else s) + ' '
        for w in drop:
            s = s.replace(' ' + w + ' ', ' ')
        s = s[1:-1]
    if c['ws']:
        s = re.sub(r'\s+', ' ', s)
    if c['lower']:
        s = s.lower()
    out = ''
    for ch in s:
        if ch == ' ':
            out += ch
        elif c['nums'] and re.match(r'\d', ch):
            pass
        elif c['words'] and re.match(r'\W', ch):
            pass
        else:
            out += ch
    return out


def stem(t):
    return t[:4]


def prepCase(rng, H):
    return dict(drop=rng.choice([None, None, ['the'], ['of', 'a'], ['Gamma', 'networks'], ['zz']]), lower=rng.random() < .6, nums=rng.random() < .6, words=rng.random() < .6, ws=rng.random() < .6, stem=rng.random() < .25)


def prepArgs(c):
    return dict(dropList=c['drop'], lower=c['lower'], removeNumbers=c['nums'], removeNonWords=c['words'], removeWhitespace=c['ws'], stemmer=stem if c['stem'] else None)


@prop('A09').variant('language', 1)
class A09:
    def gen(rng, H):
        return dict(recs=mixed(rng, H, kinds=['wos', 'wos', 'wos', 'sco', 'med']), extra=rng.choice([None, [], ['journal'], ['AU', 'year'], ['DOI', 'citations'], ['nothing'], ['title', 'TC']]), out=rng.random() < .25, **prepCase(rng, H))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        kw = prepArgs(c)
        ex = None if c['extra'] is None else list(c['extra'])
        with tmpdir():
            D = C.forNLP(extraColumns=ex, outputFile='o.csv' if c['out'] else None, **kw)
            if c['out']:
                with open('o.csv', newline='', encoding='utf-8') as f:
                    got = [dict(r) for r in csv.DictReader(f)]
                same(sorted(map(repr, ([r[k] for k in sorted(D)] for r in got))), sorted(map(repr, ([str(D[k][i]) for k in sorted(D)] for i in range(len(D['id']))))), 'rows of the file')
        extra = [e for e in (c['extra'] or []) if e not in ('id', 'year', 'title', 'keywords', 'abstract')]
        same(set(D), {'id', 'year', 'title', 'keywords', 'abstract'} | set(extra), 'columns')
        rows(D)
        same(len(D['id']), len(C), 'number of rows'); same(set(D['id']), ids, 'records')
        by = {R.id: R for R in build(c['recs'])}
        for i, ident in enumerate(D['id']):
            R = by[ident]
            same(D['year'][i], R.get('year', ''), 'year of ' + ident)
            same(D['title'][i], R.get('title', ''), 'title of ' + ident)
            same(D['keywords'][i], '|'.join(R.get('keywords', [])), 'keywords of ' + ident)
            ab = prep(R.get('AB', ''), c, True)
            if c['stem']:
                ab = ' '.join(stem(t) for t in ab.split(' '))
            same(D['abstract'][i], ab, 'abstract of ' + ident)
            for e in extra:
                v = R.get(e)
                same(D[e][i], '|'.join(str(s) for s in v) if isinstance(v, list) else '' if v is None else v, e + ' of ' + ident)
        unchanged(C, len(c['recs']), ids)


@prop('A09').variant('copyright', 1)
class A09c:
    def gen(rng, H):
        recs = wosList(rng, H, rng.randint(1, 4))
        for r in recs:
            t = ' '.join(rng.choice(WORD) for _ in range(4)) + '.'
            if rng.random() < .7:
                t += rng.choice([' (c) 2001 Wiley', ' (C) 2005 ACM', ' Copyright 1999 IEEE', ' Crown Copyright 2000', ' Published by Elsevier', ' 2001 Elsevier Ltd', ' C 2007 Press '])
            r['AB'] = [t]
        return dict(recs=recs)

    def run(c):
        C = RC(c['recs']); kw = dict(lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
        D = C.forNLP(removeCopyright=True, **kw)
        same(set(D), {'id', 'year', 'title', 'keywords', 'abstract', 'copyright'}, 'columns'); rows(D)
        by = {R.id: R for R in RC(c['recs'])}
        same(set(D['id']), set(by), 'records')
        for i, a, cp in zip(D['id'], D['abstract'], D['copyright']):
            ab = by[i].get('AB')
            if not any(x in ab for x in ('(c)', '(C)', 'Copyright', 'Published', 'Elsevier', ' C 2007')):
                same((a, cp), (ab, ''), 'abstract without a copyright line')
            else:
                expect(ab.startswith(a) and (a + cp).replace(' ', '') == ab.replace(' ', ''), 'abstract and copyright are not the two parts of the text', (a, cp), ab)


@prop('A09').variant('burst', 2)
class A09b:
    def gen(rng, H):
        return dict(recs=mixed(rng, H, kinds=['wos', 'wos', 'wos', 'sco']), tag=rng.choice(['abstract', 'title', 'keywords', 'AU', 'DE', 'year', 'nothing']), out=rng.random() < .25, **prepCase(rng, H))

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        seqs = []
        for R in build(c['recs']):
            if 'year' not in R or c['tag'] not in R:
                continue
            v = R[c['tag']]
            s = ' '.join(str(i) for i in v) if isinstance(v, list) else str(v)
            ws = prep(s, c, False).split(' ')
            seqs.append((R['year'], [stem(w) if c['stem'] else w for w in ws]))
        with tmpdir():
            D = C.forBurst(c['tag'], outputFile='o.csv' if c['out'] else None, **prepArgs(c))
            if c['out']:
                same(readcsv('o.csv'), [(str(y), w) for y, w in zip(D['year'], D['word'])], 'rows of the file')
        same(set(D), {'year', 'word'}, 'columns')
        got = list(zip(D['year'], D['word'])); rows(D)
        same(Counter(got), Counter((y, w) for y, ws in seqs for w in ws), 'rows')
        # the words of a record stay together, in the order of the text
        byId = {R.id: R for R in C}
        exp = []
        for R in C:
            for y, ws in [q for q in [(R.get('year'), None)] if 'year' in R and c['tag'] in R]:
                v = R[c['tag']]
                s = ' '.join(str(i) for i in v) if isinstance(v, list) else str(v)
                exp.append([(y, stem(w) if c['stem'] else w) for w in prep(s, c, False).split(' ')])
        left = list(exp); pos = 0
        while left:
            for e in left:
                if got[pos:pos + len(e)] == e:
                    pos += len(e); left.remove(e)
                    break
            else:
                # records with a common beginning: fall back to the collection's own order
                expect(got == [x for e in exp for x in e], 'words are not in the order of the text', got[pos:pos + 5])
                break
        unchanged(C, len(c['recs']), ids)


class Genders:
    TABLE = {'John': 'Male', 'Anna': 'Female', 'Xiao': 'Unknown', 'Piet': 'Male', 'Kate': 'Female', 'Jane': 'Female', 'J': 'Male', 'Örs': 'Male'}

    def __enter__(self):
        from metaknowledge.genders import nameGender
        self.old = nameGender.mappingDict
        nameGender.mappingDict = dict(self.TABLE)

    def __exit__(self, *a):
        from metaknowledge.genders import nameGender
        nameGender.mappingDict = self.old


def gender(name):
    parts = name.split(', ')
    return Genders.TABLE.get(parts[1].split(' ')[0].title(), 'Unknown') if len(parts) > 1 else 'Unknown'


def gcounts(R):
    g = Counter(gender(a) for a in set(R.get('authorsFull', [])))
    return g['Male'], g['Female'], g['Unknown']


@prop('A10').variant('table')
class A10:
    def gen(rng, H):
        recs = wosList(rng, H) if rng.random() < .7 else None
        return dict(recs=[['wos', r] for r in recs] if recs is not None else mixed(rng, H), wos=recs is not None, only=rng.choice([None, None, None, ['TI', 'UT'], ['title', 'year', 'nothing'], ['AU'], ['citations', 'PY', 'DOI'], ['UT', 'AB', 'TI', 'VL']]),
                    long=rng.random() < .3, raw=rng.random() < .4, auth=rng.random() < .6, gen=rng.random() < .5)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}
        long = c['long'] and c['wos'] and not (c['only'] and 'nothing' in c['only'])
        from metaknowledge.WOS.tagProcessing.funcDicts import tagToFullDict, fullToTagDict
        with Genders():
            D = C.makeDict(onlyTheseTags=None if c['only'] is None else list(c['only']), longNames=long, raw=c['raw'], numAuthors=c['auth'], genderCounts=c['gen'])
            fresh = build(c['recs'])
            if c['only'] is None:
                tags = {t for R in fresh for t in R}
            else:
                tags = {fullToTagDict.get(t, t) for t in c['only']}
            cols = {t: (tagToFullDict[t] if long else t) for t in tags}
            special = (['num-Authors'] if c['auth'] else []) + (['num-Male', 'num-Female', 'num-Unknown'] if c['gen'] else [])
            same(set(D), set(cols.values()) | set(special), 'columns')
            same({len(v) for v in D.values()}, {len(C)} if D else set(), 'column lengths')
            order = sorted(cols) + special
            got = Counter(repr([cr.canon(D[cols.get(k, k)][i]) for k in order]) for i in range(len(C) if D else 0))
            want = Counter()
            for R in fresh:
                row = [R.get(t, raw=c['raw']) for t in sorted(cols)]
                if c['auth']:
                    row.append(len(R.get('authorsShort', [])))
                if c['gen']:
                    row += gcounts(R)
                want[repr([cr.canon(v) for v in row])] += 1
            if D:
                same(got, want, 'rows')
        unchanged(C, len(c['recs']), ids)


@prop('A11').variant('genders')
class A11:
    def gen(rng, H):
        recs = wosList(rng, H)
        for r in recs:
            if rng.random() < .8:
                r['AF'] = subset(rng, FULL + ['Smith, JOHN A.', 'doe, anna', 'Madonna', 'X, ', 'a, b, c', 'Doe, Zed', 'Smith,John', 'Lee, kate-ann', 'Smith J'] + H.newstrs[:3], 1, 6)
        return dict(recs=recs)

    def run(c):
        C = RC(c['recs'])
        with Genders():
            tot = Counter()
            for R in C:
                auths = R.get('authorsFull', [])
                want = {a: gender(a) for a in auths}
                same(dict(R.authGenders()), want, 'classes of the authors')
                m, f, u = gcounts(R)
                same({'Male': m, 'Female': f, 'Unknown': u}, dict(R.authGenders(countsOnly=True)), 'counts')
                same(m + f + u, len(set(auths)), 'sum of the counts')
                if auths:
                    fr = R.authGenders(fractionsMode=True)
                    for k, v in zip(('Male', 'Female', 'Unknown'), (m, f, u)):
                        expect(abs(fr[k] - v / (m + f + u)) < 1e-9, 'fraction of ' + k, fr)
                tot.update({'Male': m, 'Female': f, 'Unknown': u})
            same(dict(C.genderStats()), {k: tot[k] for k in ('Male', 'Female', 'Unknown')}, 'counts of the collection')
            if sum(tot.values()):
                fr = C.genderStats(asFractions=True)
                for k in ('Male', 'Female', 'Unknown'):
                    expect(abs(fr[k] - tot[k] / sum(tot.values())) < 1e-9, 'fraction of the collection', fr)
