"""C01-C04: citations"""
import re, string
from .lib import *

CHARS = list("abcXYZ019 ,,,.-()[]'\"VP/:;\n\t\u00e9\u00df\u0130\u4e2d\u0663") + [', ', ', V', ', P', ', DOI ', 'DOI', '1999', ' (1999) ', '., ', 'pp. ']


def junk(rng, H):
    if rng.random() < .4:       # mutate something citation like
        s = rng.choice(CITES + ['Smith, J., Doe, A., On networks (1999) J Phys, 12 (3), pp. 1-9'])
        for _ in range(rng.randint(1, 4)):
            i = rng.randint(0, len(s)); j = min(len(s), i + rng.randint(0, 3))
            s = s[:i] + rng.choice(CHARS) + s[j:]
        return s
    s = ''.join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 2, 3, 6, 12, 25])))
    if H.newstrs and rng.random() < .2:
        s = rng.choice(H.newstrs) + s
    return s


def ident(C, s):
    """the ID names the author, the year and the journal that were found (a year of zero may be left out)"""
    want = [', '.join(str(x) for x in (C.author, y, C.journal) if x not in (None, '')) for y in ((C.year, None) if C.year == 0 else (C.year,))]
    expect(C.ID() in want, 'ID of %r' % s, C.ID(), want)


@prop('C01').variant('any text', 1)
class C01a:
    def gen(rng, H):
        return junk(rng, H)

    def run(s):
        C = mk().Citation(s)
        same(C.original, s, 'original text'); same(str(C), s, 'text')
        complete = C.author is not None and C.year is not None and C.journal is not None
        same(C.bad, not (complete and C.misc is None), 'bad (author %r, year %r, journal %r, rest %r)' % (C.author, C.year, C.journal, C.misc))
        expect(C.year is None or type(C.year) is int, 'year is no number', C.year)
        expect((C.error is None) == (not C.bad), 'error of a %s citation' % ('bad' if C.bad else 'good'), C.error)
        for k in ('journal', 'V', 'P', 'DOI', 'misc'):
            v = getattr(C, k)
            expect(v is None or v in s.upper(), k + ' is not part of the text', v)
        ident(C, s)
        hash(C); repr(C); C.allButDOI(); C.isAnonymous()


@prop('C01').variant('parts', 2)
class C01:
    def gen(rng, H):
        au = rng.choice(['Smith J', 'smith j.a.', "O'Neil K", 'van der Berg P', '[Anonymous]', 'Li', '*WHO', 'MÜLLER Ö', 'de la Cruz-Lee M', 'V Berg', 'P K', 'X.'.replace('.', 'Y'), 'DOI X', 'A9'])
        yr = str(H.int(rng, 1000, 2030)) if rng.random() < .8 else rng.choice(['5', '-44', '12345', '0', '00099'])
        j = rng.choice(['NATURE', 'J. Phys', 'Virology', 'P IEEE', 'V&A', 'phys rev b', 'PLoS ONE', 'DOI', 'NATURE 2', 'J(A)', 'a', 'ANN V3', 'D'])
        if H.newstrs and rng.random() < .2:
            j = re.sub('[,\n]', '', rng.choice(H.newstrs)).strip() or j
        y = rng.random() < .75
        if y and rng.random() < .1:
            j = '3 Biotech'
        d = dict(author=au if rng.random() < .8 or not y or yr[0] == '-' else None, year=yr if y else None)
        d['journal'] = j if rng.random() < .8 else None
        if d['journal']:
            d['V'] = rng.choice(['V1', 'V12', 'VII', 'V3 A', 'V1999', 'V-2']) if rng.random() < .6 else None
            d['P'] = rng.choice(['P1', 'P303', 'PE5', 'PS1-9', 'P.', 'P V']) if rng.random() < .6 else None
            d['DOI'] = rng.choice(['10.1/x', '10.1016/j.x, y', '10.1000/(A)', 'abc', '10.1/DOI 3']) if rng.random() < .5 else None
            d['rest'] = rng.choice([', C3', ', junk text', ', X, Y', ', ART 3', ', 12', ', C3, V12', ', X, V2, P4', ', S2, P7']) if rng.random() < .2 else None
        return d

    def run(c):
        g = c.get
        head = [g(k) for k in ('author', 'year', 'journal', 'V', 'P') if g(k)]
        s = ', '.join(head) + (g('rest') or '') + (', DOI ' + g('DOI') if g('DOI') else '')
        C = mk().Citation(s)
        U = lambda x: x.upper() if x else None
        same(C.original, s, 'original text')
        same(C.author, g('author').upper().replace('.', '').title() if g('author') else None, 'author of %r' % s)
        same(C.year, int(g('year')) if g('year') else None, 'year of %r' % s)
        for k in ('journal', 'V', 'P', 'DOI'):
            same(getattr(C, k), U(g(k)), '%s of %r' % (k, s))
        same(C.misc, (U(g('rest')) + (', DOI ' + U(g('DOI')) if g('DOI') else '')) if g('rest') else None, 'rest of %r' % s)
        same(C.bad, not (g('author') and g('year') and g('journal') and not g('rest')), 'bad of %r' % s)
        ident(C, s)
        if not C.bad:
            same(C.ID(), '{}, {}, {}'.format(C.author, C.year, C.journal), 'ID')


def cites(rng, H):
    au = rng.choice(['Smith J', 'SMITH J', 'Smith J.', 'Doe A', '[Anonymous]', '[ANONYMOUS]', 'Doe, A', 'Anonymous'])
    yr = str(H.int(rng, 1999, 2003)) if rng.random() < .5 else '1999'
    jr = H.word(rng, ['NATURE', 'Nature', 'J PHYS', 'NATURE 2'])
    tail = rng.choice(['', ', V1', ', V2, P3', ', P3', ', DOI 10.1/x', ', V1, P2, DOI 10.2/y', ', junk'])
    m = rng.random()
    if m < .6:
        return ['w', '{}, {}, {}{}'.format(au, yr, jr, tail)]
    if m < .7:
        return ['w', rng.choice(['Smith J, 1999', 'Smith J, NATURE', '1999, NATURE', 'Smith J', '1999', 'garbage', '', 'Smith J, 1999, V1'])]
    if m < .9:
        a = rng.choice(['SMITH, J.', 'Smith, J.', 'Doe, A.'])
        return ['s', '{}, {} ({}) {}{}'.format(a, rng.choice(['On things', 'Other', 'A, Doe, B., On']), yr, jr, rng.choice(['', ', 12', ', 12 (3), pp. 1-9', ', pp. 4']))]
    return ['s', rng.choice(['nothing', 'Smith J, 1999, NATURE', 'Smith J (1999) NATURE', ''])]


@prop('C02').variant('identity')
class C02:
    def gen(rng, H):
        return [cites(rng, H) for _ in range(3)]

    def run(c):
        M = mk()
        Cs = [M.Citation(t, scopusMode=(m == 's')) for m, t in c]
        for X in Cs:
            expect(X == X and not X != X, 'reflexivity', str(X))
            for o in (X.ID(), str(X), None, 3, X.year if hasattr(X, 'year') else 0, hash(X), [X], wos({'UT': ['W']})):
                expect(not X == o and X != o and not o == X, 'equal to a value of another type', o)
            if not X.bad:
                same(X.ID(), '{}, {}, {}'.format(X.author, X.year, X.journal), 'ID of a complete citation')
                expect(X.author and X.year is not None and X.journal, 'a complete citation lacks a part')
            same(X.isAnonymous(), (not hasattr(X, 'author')) or X.author == '[Anonymous]', 'isAnonymous of %r' % str(X))
            same(M.Citation(X.original, scopusMode=False).original, X.original, 'original')
        for X in Cs:
            for Y in Cs:
                want = X.ID() == Y.ID()
                same(X == Y, want, 'equality of %r and %r' % (str(X), str(Y))); same(X != Y, not want, 'inequality')
                if not X.bad and not Y.bad:
                    same(X == Y, (X.author, X.year, X.journal) == (Y.author, Y.year, Y.journal), 'equality against author, year and journal of %r and %r' % (str(X), str(Y)))
                if want:
                    same(hash(X), hash(Y), 'hash')
                same(len({X, Y}), 1 if want else 2, 'set of both'); same(Y in {X: 1}, want, 'key lookup')
        ids = [X.ID() for X in Cs]
        for (m, t), X in zip(c, Cs):
            same(M.Citation(t, scopusMode=(m == 's')) == X, True, 'equality of two citations of the same text')
        same([X.ID() for X in Cs], ids, 'IDs afterwards')


@prop('C03').variant('any text', 1)
class C03a:
    def gen(rng, H):
        return junk(rng, H)

    def run(s):
        C = mk().Citation(s, scopusMode=True)
        same(C.original, s, 'original text')
        if not re.search(r'\(\d{2,5}\) .', s.upper()):
            expect(C.bad, 'text without a year in parentheses is not bad', s)
            same(C.ID(), s, 'ID of unparsed text')
            expect(C.isAnonymous() and not hasattr(C, 'year'), 'unparsed text has parts')
        elif hasattr(C, 'author'):
            same(C.bad, not (C.author and C.year and C.journal), 'bad')
        else:
            expect(C.bad and C.ID() == s, 'unparsed text', C.ID())
        hash(C); repr(C); C.allButDOI()


@prop('C03').variant('parts', 2)
class C03:
    def gen(rng, H):
        A = ['Smith, J.', 'Doe, A.B.', 'van Dam, P.', 'Li, X.-Y.', 'Müller, Ö.', "Jean-Luc, P."]
        d = dict(author=rng.choice(A), extra=rng.sample(A, rng.choice([0, 0, 1, 2, 3])),
                 title=rng.choice(['On networks', 'A study: part 2', "What's new?", 'Things, and other things', 'X', '3D printing']) if rng.random() < .85 else None,
                 year=str(H.int(rng, 1900, 2030)), journal=rng.choice(['J Phys', 'Nature', 'Proc. IEEE', 'Ann. Rev. 3', 'PLoS ONE: A', 'V J']))
        if H.newstrs and rng.random() < .2:
            d['journal'] = re.sub('[,\n()]', '', rng.choice(H.newstrs)).strip() or d['journal']
        if rng.random() < .7:
            d['V'] = rng.choice(['12', 'A3', '3-4', 'VII'])
            if rng.random() < .6:
                d['issue'] = rng.choice(['3', '1-2', 'S1', ''])
        if rng.random() < .6:
            d['P'] = rng.choice(['1-9', '303', 'e5'])
            d['pp'] = rng.choice(['pp', 'p'])
        if rng.random() < .2:
            d['rest'] = rng.choice([', Cited 3 times', '. ', ', (end)'])
        return d

    def run(c):
        g = c.get
        s = g('author') + ', ' + ''.join(e + ', ' for e in g('extra')) + (g('title') + ' ' if g('title') else '') + '(%s) %s' % (g('year'), g('journal'))
        if g('V'):
            s += ', ' + g('V') + (' (%s)' % g('issue') if g('issue') is not None else '')
        if g('P'):
            s += ', %s. %s' % (g('pp'), g('P'))
        if g('rest') and g('P'):
            s += g('rest')
        C = mk().Citation(s, scopusMode=True)
        U = lambda x: x.upper() if x else None
        expect(hasattr(C, 'author'), 'text of the expected form is not parsed', s)
        same(C.original, s, 'original text')
        same(C.author, U(g('author')), 'author of %r' % s)
        same((C.extraAuthors or '').strip(', '), ', '.join(e.upper() for e in g('extra')).strip(', '), 'further authors of %r' % s)
        same((C.name or '').strip(), U(g('title')) or '', 'title of %r' % s)
        same(C.year, int(g('year')), 'year of %r' % s)
        same(C.journal, U(g('journal')), 'journal of %r' % s)
        same(C.V, U(g('V')), 'volume of %r' % s); same(C.issue or '', g('issue', '').upper(), 'issue of %r' % s); same(C.P, U(g('P')), 'pages of %r' % s)
        expect(not C.bad, 'a citation with all parts is bad', s)
        same(C.ID(), '{}, {}, {}'.format(C.author, C.year, C.journal), 'ID')


@prop('C04').variant('journals')
class C04:
    def gen(rng, H):
        js = ['NATURE', 'J PHYS', 'SCIENCE', 'J CHEM', 'PLOS ONE', 'NAT']
        tab = {j: [rng.choice(['Full %s' % j, 'Full %s' % j, ''])] + (['second'] if rng.random() < .2 else []) for j in js if rng.random() < .6}
        if H.newstrs:
            tab[H.newstrs[0].upper()] = ['Name']
        return dict(tab=tab, cites=[cites(rng, H) if rng.random() < .4 else ['w', 'Doe A, 2001, %s' % H.word(rng, js)] for _ in range(H.size(rng, 8, 60))])

    def run(c):
        import metaknowledge.citation as mc
        old = mc.abbrevDict
        mc.abbrevDict = {k: list(v) for k, v in c['tab'].items()}
        try:
            L = [mk().Citation(t, scopusMode=(m == 's')) for m, t in c['cites']]
            want = []
            for X in L:
                j = getattr(X, 'journal', None)
                w = bool(j) and j in c['tab'] and c['tab'][j][0] != ''
                want.append(w)
                same(bool(X.isJournal()), w, 'isJournal of %r' % str(X))
                got = X.FullJournalName()
                same(got, c['tab'][j][0] if w else None, 'full name of %r' % str(X))
            K, N = mk().filterNonJournals(L), mk().filterNonJournals(L, invert=True)
            same([id(x) for x in K], [id(x) for x, w in zip(L, want) if w], 'journals, in order')
            same([id(x) for x in N], [id(x) for x, w in zip(L, want) if not w], 'others, in order')
            same(len(L), len(c['cites']), 'the list afterwards')
        finally:
            mc.abbrevDict = old
