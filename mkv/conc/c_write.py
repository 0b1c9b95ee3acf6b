"""W01, W02: exports"""
import csv, re
from collections import Counter
from .lib import *
from . import c_rec as cr
from .c_analysis import mixed, build, unchanged, Genders, gcounts

LONG = None


def longs():
    from metaknowledge.WOS.tagProcessing.funcDicts import tagToFullDict, fullToTagDict
    return tagToFullDict, fullToTagDict


def text(v, sep):
    if v is None:
        return ''
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple, dict)):
        return sep.join(str(x) for x in v)
    return str(v)


ODD = ['a,b', 'say "x"', 'two\nlines', "it's", 'a|b', '{x}', 'é', ';', 'x\ty', '#']


def odd(recs, rng, H):
    for k, f in recs:
        if k == 'wos':
            if rng.random() < .4:
                f['TI'] = [rng.choice(ODD + H.newstrs) + ' ' + rng.choice(WORD)]
            if rng.random() < .2:
                f['SO'] = [rng.choice(ODD)]
            if rng.random() < .25:
                f[rng.choice(['AB', 'TI'])] = [''.join(rng.choice('{}{}""ab \\,;|%#é') for _ in range(rng.randint(1, 14))) + rng.choice(['x', '"', '}'])]
            if rng.random() < .15:
                f[rng.choice(['DE', 'ID', 'WC', 'SC', 'C1'])] = [rng.choice(['a; ; b', '; a', 'a; b; ', 'a; a', '; '])]
            if rng.random() < .1:
                f[rng.choice(['AF', 'AU', 'CR', 'BE'])] = rng.choice([['A, B', '', 'C, D'], [''], ['A, B', ''], ['A, B', 'A, B']])
            if rng.random() < .2:
                f['AU'] = ['Smith, J', rng.choice([o for o in ODD if '\n' not in o])]
    return recs


@prop('W01').variant('csv')
class W01:
    def gen(rng, H):
        split = rng.choice([None, None, 'AU', 'year', 'WC', 'VL', 'authorsShort', 'PY', 'keywords', 'nothing'])
        if split or rng.random() < .6:
            recs = [['wos', r] for r in wosList(rng, H)]
        else:
            recs = mixed(rng, H)
        only = rng.choice([None, None, None, ['TI', 'UT'], ['title', 'year', 'UT'], ['AU'], ['UT', 'citations', 'PY', 'DOI'], ['wosString', 'AB', 'TI', 'VL', 'nothing']])
        first = rng.choice([None, None, ['UT', 'TI'], ['year'], [], ['title', 'authorsFull', 'PY']])
        return dict(recs=odd(recs, rng, H), split=split, only=only, first=first, auth=rng.random() < .6, gen=rng.random() < .5, long=rng.random() < .3 and first is not None, delim=rng.choice([',', ',', ';', '\t']), quote=rng.choice(['"', '"', "'"]),
                    ld=rng.choice(['|', '|', '; ', '']), name=rng.choice(['out.csv', 'o.txt', None]), twice=rng.random() < .15)

    def run(c):
        C = build(c['recs']); ids = {R.id for R in C}; fresh = list(build(c['recs']))
        T2F, F2T = longs()
        first = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI'] if c['first'] is None else c['first']
        first = [F2T.get(t, t) for t in first]
        only = None if c['only'] is None else [F2T.get(t, t) for t in c['only']]
        if only:
            head = [t for t in first if t in only]; cols = set(only)
        else:
            head = first; cols = set(first) | {t for R in fresh for t in R}
        long = c['long'] and all(t in T2F for t in cols)
        nm = (lambda t: T2F[t]) if long else (lambda t: t)
        if c['name'] is None:
            C.name = 'coll'
        base = c['name'] or 'coll.csv'
        copy = lambda l: None if l is None else list(l)
        if c['split']:
            for R in fresh:
                v = R.get(c['split'])
                for x in v if isinstance(v, list) else [v]:
                    if '/' in str(x) or '\0' in str(x):
                        raise Skip
        with tmpdir(), Genders():
            for k in range(2 if c['twice'] else 1):
                C.writeCSV(fname=c['name'], splitByTag=c['split'], onlyTheseTags=copy(c['only']), numAuthors=c['auth'], genderCounts=c['gen'], longNames=long, firstTags=copy(c['first']), csvDelimiter=c['delim'], csvQuote=c['quote'], listDelimiter=c['ld'])
            got = {}
            for f in os.listdir('.'):
                with open(f, newline='', encoding='utf-8') as fp:
                    got[f] = list(csv.reader(fp, delimiter=c['delim'], quotechar=c['quote']))
            special = (['num-Authors'] if c['auth'] else []) + (['num-Male', 'num-Female', 'num-Unknown'] if c['gen'] else [])
            files = {}
            if not c['split']:
                files[base] = fresh
            else:
                for R in fresh:
                    v = R.get(c['split'])
                    if c['split'] in R:
                        for x in v if isinstance(v, list) else [str(v)]:
                            l = files.setdefault('{}-{}'.format(x[:200], base), [])
                            if R not in l:
                                l.append(R)
            same(set(got), set(files), 'files written')
            for f, rs in files.items():
                g = got[f]
                expect(g, 'file without header', f)
                h = g[0]
                same(h[:len(head)], [nm(t) for t in head], 'preferred columns')
                same(sorted(h), sorted([nm(t) for t in cols] + special), 'columns')
                expect(all(len(r) == len(h) for r in g), 'rows of different lengths', f)
                tags = sorted(cols)
                want = Counter()
                for R in rs:
                    row = {nm(t): text(R.get(nm(t)) if long else R.get(t), c['ld']) for t in tags}
                    if c['auth']:
                        row['num-Authors'] = str(len(R.get('authorsShort', [])))
                    if c['gen']:
                        row.update(zip(('num-Male', 'num-Female', 'num-Unknown'), map(str, gcounts(R))))
                    want[tuple(row[k] for k in h)] += 1
                have = Counter(tuple(r) for r in g[1:])
                if c['split']:
                    same(set(have), set(want), 'rows of ' + f)
                    expect(len(g) - 1 >= len(rs), 'records missing in ' + f)
                else:
                    same(have, want, 'rows')
        unchanged(C, len(c['recs']), ids)


def entry(s, R, maxLength, wosMode, reduced, nice):
    """parse and compare one BibTeX entry; True if only the known loss of text was found"""
    from metaknowledge.constants import commonRecordFields
    known = False
    m = re.match(r'(?s)@misc\{ (.*?),\n(?=( {4})?author = )', s)
    expect(m, 'start of the entry', s[:80])
    if not nice:
        same(m.group(1), ('ISI:' + R.id[4:]) if wosMode else str(R.id), 'key of the entry')
    ind = '' if wosMode else '    '
    pos = m.end()

    def eat(t, what):
        nonlocal pos
        expect(s.startswith(t, pos), what, s[pos:pos + len(t) + 40], t)
        pos += len(t)
    eat(ind + 'author = {{' + ' and '.join(R.get('authorsFull', ['None'])) + '}},\n', 'authors')
    tags = [t for t in commonRecordFields if t in R] if reduced else list(R)
    for t in tags:
        v = R[t]
        eat(ind + t + ' = ', 'field ' + t)
        if wosMode:
            eat('{{' + ('\n   '.join(str(x) for x in v) if isinstance(v, list) else str(v)) + '}},\n', 'text of ' + t)
            continue
        v = ' and '.join(str(x) for x in v) if isinstance(v, list) else str(v)
        if len(v) > maxLength:
            m = re.compile(r'"[^"]*"( # "[^"]*")*,\n').match(s, pos)
            expect(m, 'pieces of ' + t, s[pos:pos + 80])
            pieces = re.findall(r'"([^"]*)"', m.group(0))
            expect(all(len(p) <= maxLength for p in pieces), 'a piece of %s is too long' % t, max(map(len, pieces)), maxLength)
            full = v.replace('"', '')
            got = ''.join(pieces)
            if got != full:
                expect(got == full[:len(full) // maxLength * maxLength], 'text of the pieces of ' + t, got, full)
                known = True
            pos = m.end()
        elif '"' not in v:
            eat('"' + v + '",\n', 'text of ' + t)
        else:
            eat('{' + v.replace('{', '\\{').replace('}', '\\}') + '},\n', 'text of ' + t)
    eat('}', 'end of the entry')
    same(pos, len(s), 'length of the entry')
    return known


@prop('W02').variant('bibtex')
class W02:
    def gen(rng, H):
        recs = odd(mixed(rng, H, n=min(H.size(rng), 60)), rng, H)
        return W02._(recs, rng, H)

    def enumerate(H):
        yield dict(recs=[['wos', {'PT': ['J'], 'TI': ['alpha beta gamma'], 'UT': ['WOS:000001']}]], max=7, wos=False, red=False, nice=False, bad=False, name='b.bib')

    def _(recs, rng, H):
        return dict(recs=recs, max=rng.choice([1000, 1000, 5, 1, 20, 47, 10**6, H.int(rng, 1, 60)]), wos=rng.random() < .3, red=rng.random() < .4, nice=rng.random() < .5, bad=rng.random() < .3, name=rng.choice(['b.bib', None]))

    def run(c):
        from metaknowledge.mkExceptions import BadRecord
        C = build(c['recs'])
        if c['bad']:
            b = mk().WOSRecord(collections.OrderedDict([('PT', ['J']), ('TI', ['no id'])]))
            expect(b.bad, 'record without ID is not bad')
            raises(BadRecord, lambda: b.bibString(), 'BibTeX entry of a bad record')
            C.add(b)
        known = False
        for R in C:
            if R.bad:
                continue
            before = R._fieldDict.copy()
            s = R.bibString(maxLength=c['max'], WOSMode=c['wos'], restrictedOutput=c['red'], niceID=c['nice'])
            known |= entry(s, R, c['max'], c['wos'], c['red'], c['nice'])
            same(dict(R._fieldDict), dict(before), 'fields afterwards')
        with tmpdir():
            C.name = 'coll'
            C.writeBib(fname=c['name'], maxStringLength=c['max'], wosMode=c['wos'], reducedOutput=c['red'], niceIDs=c['nice'])
            with open(c['name'] or 'coll.bib', encoding='utf-8', newline='') as f:
                t = f.read()
        want = sorted([R.bibString(maxLength=c['max'], WOSMode=c['wos'], restrictedOutput=c['red'], niceID=c['nice']) for R in C if not R.bad], key=len, reverse=True)
        for s in want:
            expect(s in t, 'the entry of a record is not in the file', s[:200])
            t = t.replace(s, '', 1)
        left = [l for l in t.split('\n') if l.strip() and not l.startswith('%')]
        same(left, [], 'other text in the file')
        if known:
            raise Known('text longer than the maximum length loses its last len(text) % maximum characters in BibTeX output')
