"""J01-J04: grants"""
import csv, itertools
from collections import Counter
from .lib import *
from .c_net import grant, grantFields, investigators

CHUNK = ['', 'NCI', 'NIH HHS', 'United States', 'CA', 'R01 CA12', 'X', 'ab', 'abc', ' ', ', ', 'é', 'AB', 'G0/1', '12', '07', 'A1', '1', '/', '123', 'a b']


@prop('J01').variant('strings')
class J01:
    def gen(rng, H):
        s = rng.choice(['/', ', ', '/', ', ', ',', ' ']).join(H.word(rng, CHUNK) for _ in range(rng.randint(0, 6)))
        if rng.random() < .15:
            s = ''.join(rng.choice('/, ab') for _ in range(rng.randint(0, 9)))
        return dict(s=s)

    def enumerate(H):
        for n in range(0, 6):
            for t in itertools.product('/ab', repeat=n):
                yield dict(s=''.join(t))

    def run(c):
        from metaknowledge.grants import MedlineGrant
        from metaknowledge.grants.scopusGrant import ScopusGrant
        s = c['s']
        m = MedlineGrant(s)
        same(m.original, s, 'original of the Medline grant')
        p = s.split('/')
        if len(p) < 2:
            expect(m.bad and isinstance(m.error, Exception), 'a Medline string without a slash is not bad')
        else:
            expect(not m.bad, 'a Medline string with slashes is bad')
            same(m['country'], p[-1], 'country'); same(m['agency'], p[-2], 'agency')
            rest = p[:-2]
            have = (m.get('number'), m.get('code'))
            if not rest:
                want = ('', None)
            elif len(rest) <= 2 and len(rest[-1]) == 2:
                want = (rest[0] if len(rest) == 2 else None, rest[-1])
            else:
                want = ('/'.join(rest), None)
            same(have, want, 'number and code')
            parts = [m.get('number'), m.get('code'), m['agency'], m['country']]
            same('/'.join(x for x in parts if x is not None), s if rest else '/' + s, 'the parts together')
            same(set(m), {k for k, v in zip(('number', 'code', 'agency', 'country'), parts) if v is not None}, 'fields')
        g = ScopusGrant(s)
        same(g.original, s, 'original of the Scopus grant')
        q = s.split(', ')
        same(g['agency'], q[-1], 'agency'); same(g.get('agencyCode'), q[-2] if len(q) > 1 else None, 'agency code'); same(g.get('code'), q[-3] if len(q) > 2 else None, 'code')


COLS = ['Cle', 'Name-Nom', 'Institution-Établissement', 'Amount', 'Co-Researcher Name', 'Note', 'Year']


def cell(rng, H):
    return rng.choice(['', '', 'Smith J', 'a, b', 'say "x"', 'two\nlines', '1999', ' lead', 'é', '; ', H.word(rng, WORD), H.word(rng, WORD)])


def table(rng, H, i, keyed=True):
    cols = COLS[:1] + rng.sample(COLS[1:], rng.randint(1, 5))
    if rng.random() < .5:
        rng.shuffle(cols)
    rows = []
    for k in range(max(1, H.size(rng, 5, 30))):
        r = {c: cell(rng, H) for c in cols}
        r['Cle'] = rng.choice(['1', '2', '3', '77', 'x'] + H.newstrs[:2]) if rng.random() < .6 else 'k%d-%d' % (i, k)
        rows.append([r[c] for c in cols])
    return [cols, rows]


def write(name, cols, rows, short=False, pre=''):
    with open(name, 'w', encoding='latin-1', newline='') as f:
        f.write(pre)
        w = csv.writer(f, 'excel', lineterminator='\n')
        w.writerow(cols)
        for r in rows:
            r = list(r)
            if short:
                while len(r) > 1 and r[-1] == '':
                    r.pop()
            w.writerow(r)


def merge(tables):
    """key -> field -> values in order"""
    out = collections.OrderedDict()
    for cols, rows in tables:
        for r in rows:
            d = dict(zip(cols, r))
            g = out.setdefault(d['Cle'], {})
            for k, v in d.items():
                l = g.setdefault(k, [])
                if v != '':
                    l.append(v)
    return out


def ascii_(x):
    return ''.join(ch for ch in x if ord(ch) < 256)


@prop('J02').variant('keyed tables', 2)
class J02:
    def gen(rng, H):
        n = rng.choice([1, 1, 2, 3])
        ts = [table(rng, H, i) for i in range(n)]
        if n > 1 and rng.random() < .6:
            for t in ts[1:]:
                t[0] = list(ts[0][0]); m = len(t[0])
                t[1] = [(r + [''] * m)[:m] for r in t[1]]
                k = t[0].index('Cle')
                for i, r in enumerate(t[1]):
                    r[k] = rng.choice(['1', '2', '3', 'm%d' % i])
        for t in ts:
            t[1] = [[ascii_(x) for x in r] for r in t[1]]
            k = t[0].index('Cle')
            for i, r in enumerate(t[1]):
                r[k] = r[k] or 'e%d' % i
        return dict(ts=ts, short=rng.random() < .3, single=rng.random() < .3)

    def run(c):
        M = mk()
        from metaknowledge.grants import parserNSERCfile, isNSERCfile
        with tmpdir() as d:
            names = []
            os.mkdir('dir')
            short = c['short'] and all(t[0].index('Cle') == 0 for t in c['ts'])
            for i, (cols, rows) in enumerate(c['ts']):
                fn = os.path.join('dir', 'NSERC_%d.csv' % i); write(fn, cols, rows, short); names.append(os.path.abspath(fn))
            tabs = dict(zip(names, c['ts']))
            if c['single']:
                expect(isNSERCfile(names[0]), 'not recognised as a grant table')
                gs, err = parserNSERCfile(names[0])
                expect(err is None, 'error while reading', str(err))
                C = M.GrantCollection(names[0], quietStart=True)
                same({g.id for g in gs}, {g.id for g in C}, 'grants of the file and of the collection')
                order = [names[0]]
            else:
                order = [os.path.join(os.path.abspath('dir'), f) for f in os.listdir('dir')]
                C = M.GrantCollection('dir', quietStart=True)
            expect(not C.bad and not C.errors, 'errors in the collection', [str(e) for e in C.errors.values()])
            want = merge([tabs[f] for f in order])
            same(sorted(g['Cle'].split('; ')[0] for g in C), sorted(want), 'one grant per key')
            for g in C:
                w = want[g['Cle'].split('; ')[0]]
                for k, l in w.items():
                    if k != 'Cle':
                        same(g.get(k) or '', '; '.join(l), 'field %s of grant %s' % (k, g.id))
                expect({k for k in w if w[k]} <= set(g) <= set(w), 'fields of the grant ' + g.id, set(g), set(w))
                expect(not g.bad, 'a grant with a key is bad')


@prop('J02').variant('other tables', 1)
class J02b:
    def gen(rng, H):
        cols = rng.sample(['PI Names', 'Amount', 'Title', 'Agency', 'x y', 'é'], rng.randint(1, 5))
        cihr = rng.random() < .4
        if cihr and 'PI Names' not in cols:
            cols.insert(0, 'PI Names')
        rows = []
        for k in range(max(1, H.size(rng, 5, 30))):
            r = [ascii_(cell(rng, H)) for _ in cols]
            if not any(r):
                r[0] = 'v'
            if rows and rng.random() < .3:
                r = list(rng.choice(rows))
            rows.append(r)
        return dict(cols=cols, rows=rows, cihr=cihr)

    def run(c):
        with tmpdir():
            fn = 'cihr_1.csv' if c['cihr'] else 'some.csv'
            write(fn, c['cols'], c['rows'], pre='Search Criteria,,,,,,,,,\nq,,,,,,,,,\nq,,,,,,,,,\n' if c['cihr'] else '')
            C = mk().GrantCollection(fn, quietStart=True)
            expect(not C.errors, 'errors in the collection', [str(e) for e in C.errors.values()])
            bad = lambda r: c['cihr'] and not r[c['cols'].index('PI Names')]      # equal bad rows are one bad grant
            same(Counter(tuple(sorted(g._fieldDict.items())) for g in C), Counter(tuple(sorted(zip(c['cols'], r))) for r in [r for r in c['rows'] if not bad(r)] + [list(r) for r in {tuple(r) for r in c['rows'] if bad(r)}]), 'rows of the table')
            for g in C:
                same(type(g).__name__, 'CIHRGrant' if c['cihr'] else 'FallbackGrant', 'type')
                if c['cihr']:
                    same(bool(g.bad), g['PI Names'] == '', 'badness')


@prop('J03').variant('lists')
class J03:
    def gen(rng, H):
        k = rng.choice(['nserc', 'nsf', 'fall'])
        tags = rng.choice([None, 'PI', ['PI'], ['PI', 'Name-Nom'], ['Institution', 'Org'], [], ['Nothing', 'PI'], 'Name-Nom', ['Name-Nom', 'PI', 'Nothing'], 'Nothing'])
        f = grantFields(rng, H, k)
        if rng.random() < .3:
            f['PI'] = rng.choice(['', ';', 'a;', ' a ; b ', 'x', 'Smith J; Smith J']) if rng.random() < .7 else ['a; b', 'c', '']
        return dict(k=k, f=f, tags=tags, sep=rng.choice([';', ';', ';', ' ', ', ']))

    def run(c):
        g = grant(0, c['k'], c['f'])
        before = {k: list(v) if isinstance(v, list) else v for k, v in g._fieldDict.items()}
        for inst in (False, True):
            for rep in range(2):
                tags = list(c['tags']) if isinstance(c['tags'], list) else c['tags']
                fn = g.getInstitutions if inst else g.getInvestigators
                if c['sep'] == ';' and rep:
                    got = fn(tags)
                else:
                    got = fn(tags=tags, seperator=c['sep'])
                want = investigators(c['k'], c['f'], c['tags'], c['sep'], inst)
                if c['k'] == 'nsf' and isinstance(c['tags'], str):
                    same(Counter(got), Counter(want), 'names')       # for one tag the order of the tags is not stated
                else:
                    same(list(got), want, 'names')
                same(tags, c['tags'], 'list of tags passed in')
                same(dict(g._fieldDict), before, 'fields of the grant')


XT = ['Physics', 'A & B', '<x>', 'é', 'x; y', '1999', 'longer text here', "it's"]


@prop('J04').variant('award files')
class J04:
    def gen(rng, H):
        w = lambda: rng.choice(XT + H.newstrs) if rng.random() < .9 else None
        els = []
        for _ in range(H.size(rng, 8, 20)):
            k = rng.choice(['Investigator', 'Organization', 'Institution', 'Foa', 'simple'])
            if k == 'Investigator':
                parts = [[t, w()] for t in ('FirstName', 'LastName', 'EmailAddress', 'StartDate', 'RoleCode') if rng.random() < .8]
                if rng.random() < .5:
                    rng.shuffle(parts)
                els.append([k, parts])
            elif k == 'Organization':
                els.append([k, [[t, [['Abbreviation', w()], ['LongName', w()]][:rng.randint(0, 2)]] for t in ('Code', 'Directorate', 'Division') if rng.random() < .7]])
            elif k == 'simple':
                els.append([rng.choice(['AwardTitle', 'AwardAmount', 'AbstractNarration', 'AwardEffectiveDate', 'Empty']), w()])
            else:
                els.append([k, [[t, w()] for t in ('Name', 'CityName', 'PhoneNumber') if rng.random() < .8] or [['Name', 'x']]])
        return dict(els=els, id=rng.choice(['123', '0099', None]))

    def run(c):
        from xml.sax.saxutils import escape

        def xml(el):
            t, v = el
            return '<%s>%s</%s>' % (t, ''.join(xml(x) for x in v) if isinstance(v, list) else escape(v or ''), t)
        s = '<?xml version="1.0" encoding="UTF-8"?>\n<rootTag><Award>' + ''.join(xml(e) for e in c['els']) + ('<AwardID>%s</AwardID>' % c['id'] if c['id'] else '') + '</Award></rootTag>'
        want = {}
        tx = lambda parts: [v for _, v in parts if v]
        for t, v in c['els']:
            if t == 'Organization':
                for u, p in v:
                    if u in ('Directorate', 'Division') and tx(p):
                        want.setdefault(u, []).append('; '.join(tx(p)))
            elif t == 'Investigator':
                d = dict(v)
                want.setdefault(t, []).append('; '.join([' '.join(x for x in (d.get('FirstName'), d.get('LastName')) if x), ', '.join(x for k, x in v if k not in ('FirstName', 'LastName') and x)]))
            elif isinstance(v, list) and v:
                want.setdefault(t, []).append('; '.join(tx(v)))
            else:
                want[t] = v
        if c['id']:
            want['AwardID'] = c['id']
        with tmpdir():
            with open('a.xml', 'w', encoding='utf-8') as f:
                f.write(s)
            C = mk().GrantCollection('a.xml', quietStart=True)
        same(len(C), 1, 'grants of an award file')
        g = C.pop() if False else next(iter(C))
        same({k: v for k, v in g._fieldDict.items()}, want, 'fields of the grant')
        same(bool(g.bad), c['id'] is None, 'badness of the grant'); same(type(g).__name__, 'NSFGrant', 'type')
        if c['id']:
            same(g.id, 'NSF:' + c['id'], 'ID')
