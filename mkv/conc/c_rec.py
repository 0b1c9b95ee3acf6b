"""R01-R05: records"""
import collections, copy, pickle, re
from .lib import *
from . import lib


# ------------------------------------------------------------ records of the four formats
def medFields(rng, H, i=0, dup=False):
    d = collections.OrderedDict()
    d['PMID'] = [str(1000 + i)]
    au = rng.sample(['Smith J', 'Doe AB', 'Li X', 'van Dam P', 'Kim S'], rng.randint(0, 3))
    if rng.random() < .9:
        maybe(rng, d, 'TI', lambda: [' '.join(rng.choice(WORD) for _ in range(rng.randint(1, 5)))], .9)
        maybe(rng, d, 'AB', lambda: ['\n'.join(' '.join(rng.choice(WORD) for _ in range(4)) for _ in range(rng.choice([1, 1, 2, 3])))], .5)
        if au:
            d['AU'] = au
            maybe(rng, d, 'FAU', lambda: [a + ' Full' for a in au], .6)
            if rng.random() < .5:
                d['AD'] = ['{} : {}'.format(a, rng.choice(['Univ A; City', 'Inst B.', 'Dept C : sub; Town\nLand'])) for a in au for _ in range(rng.choice([0, 1, 1, 2]))] or [au[0] + ' : Univ']
            if rng.random() < .3:
                d['AUID'] = [au[-1] + ' : ORCID 0000']
        maybe(rng, d, 'LA', ['eng'], .3)
        maybe(rng, d, 'PT', lambda: ['Journal Article'] + (['Review'] if rng.random() < .3 else []), .6)
        maybe(rng, d, 'DP', lambda: ['%d%s' % (H.int(rng, 1980, 2016), rng.choice(['', ' Jan', ' Mar 3', ' Nov-Dec', ' Summer'[:4]]))], .8)
        maybe(rng, d, 'TA', ['J Phys'], .5); maybe(rng, d, 'JT', ['Journal of Physics'], .5)
        maybe(rng, d, 'VI', lambda: [rng.choice(['12', '3 Suppl 1', '7 Pt 2'])], .5)
        maybe(rng, d, 'PG', lambda: [rng.choice(['12-9', '303', 'suppl S1-4', 'E7; discussion'])], .5)
        maybe(rng, d, 'AID', lambda: subset(rng, ['10.1/x [doi]', 'S0-1 [pii]', '10.2/y [doi]'], 1, 2, False), .5)
        maybe(rng, d, 'MH', lambda: subset(rng, ['Humans', '*Optics', 'Animals/anatomy'], 1, 3, False), .4)
        maybe(rng, d, 'OT', lambda: subset(rng, KW, 1, 3, False), .4)
        maybe(rng, d, 'GR', lambda: subset(rng, ['R01 CA1/CA/NCI NIH HHS/United States', 'X/Wellcome/UK', 'nothing'], 1, 2, False), .3)
    return d


def scoFields(rng, H, i=0):
    from metaknowledge.scopus.recordScopus import scopusHeader
    d = collections.OrderedDict()
    val = {'Authors': lambda: ', '.join(subset(rng, ['Smith J.', 'Doe A.', 'Li X.'], 1, 3, False)),
           'Year': lambda: str(H.int(rng, 1980, 2016)), 'Page count': lambda: str(rng.randint(1, 40)), 'Cited by': lambda: str(rng.randint(0, 99)),
           'Conference code': lambda: str(rng.randint(1, 999)), 'Volume': lambda: str(rng.randint(1, 60)),
           'References': lambda: '; '.join(subset(rng, ['Smith, J., Doe, A., On networks (1999) J Phys, 12 (3), pp. 1-9', 'Li, X., Things (2001) Nature, 4', 'unparsable reference', 'Doe, A., (2003) Science'], 1, 3)),
           'Index Keywords': lambda: '; '.join(subset(rng, KW[:3], 1, 3, False)),
           'Author Keywords': lambda: '; '.join(subset(rng, KW[:3], 1, 3, False)),
           'Funding Details': lambda: 'R01, NIH, National Institutes; NSF, National Science'}
    for k in scopusHeader:
        if k == 'EID':
            continue
        if k == 'Funding Text':       # not a known processed field
            continue
        if rng.random() < .35:
            v = val[k]() if k in val else ' '.join(rng.choice(WORD) for _ in range(rng.randint(1, 4)))
            d[k] = v
    d['EID'] = '2-s2.0-%d' % (8000 + i)
    if rng.random() < .3:
        items = list(d.items()); rng.shuffle(items); d = collections.OrderedDict(items)
    return d


def proFields(rng, H, i=0):
    d = collections.OrderedDict()
    d['Name'] = ['Thesis %d' % i]
    for k, v in [('Author', 'Smith, John'), ('Title', 'On things'), ('Abstract', 'Abs'), ('Subject', '0301: Biology; 0405: Math'), ('Classification', '0301: Biology; 0405: Math'),
                 ('Identifier / keyword', 'a, b, c'), ('Degree date', '2001'), ('Number of pages', '300'), ('Advisor', 'Doe'), ('Unknown label', 'x'), ('ISBN', '978')]:
        if rng.random() < .6:
            d[k] = [v] + (['more'] if k == 'Abstract' and rng.random() < .5 else [])
    d['ProQuest document ID'] = [str(300 + i)]
    return d


GENS = {'wos': lambda r, h, i=0: wosFields(r, h, 'WOS:%06d' % i), 'med': medFields, 'sco': scoFields, 'pro': proFields}


def make(kind, fields):
    M = mk()
    cls = {'wos': M.WOSRecord, 'med': M.MedlineRecord, 'sco': M.ScopusRecord, 'pro': M.ProQuestRecord}[kind]
    return cls(collections.OrderedDict((k, list(v) if isinstance(v, list) else v) for k, v in fields.items()))


def canon(v):
    """comparable form of a processed value"""
    M = mk()
    if isinstance(v, M.Citation):
        return ['cite', v.original, v.ID(), v.bad, v.year if hasattr(v, 'year') else None]
    if isinstance(v, M.Record):
        return ['grant', v.id, canon(dict(v._fieldDict))]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [canon(x) for x in v]
    if isinstance(v, dict):
        return [[canon(k), canon(x)] for k, x in sorted(v.items(), key=str)]
    return [type(v).__name__, v]


def altpairs(kind):
    if kind == 'wos':
        from metaknowledge.WOS.tagProcessing.funcDicts import tagToFullDict as T
        return dict(T)
    if kind == 'med':
        from metaknowledge.medline.tagProcessing.tagNames import tagNameDict as T
        return {v: k for k, v in T.items()}
    return {}


def keysFor(kind):
    from metaknowledge.constants import commonRecordFields
    ks = ['', 'nope', 'au', 'AU ', 'Title', 'TITLE', 'title', 'id', 'ID', 'grants', 'selfCitation', 'year', 'month', 'volume', 'beginningPage', 'DOI', 'address', 'j9', 'authorsShort', 'authorsFull',
          'journal', 'keywords', 'abstract', 'citations', 'Author', '_fieldDict', 'UT', 'wosString', 'PY', 'TI', 'XX'] + list(commonRecordFields)
    p = altpairs(kind)
    ks += list(p) + list(p.values())
    if kind == 'sco':
        from metaknowledge.scopus.recordScopus import scopusHeader
        ks += scopusHeader
    return ks


@prop('R01').variant('mapping')
class R01:
    def gen(rng, H):
        kind = rng.choice(['wos', 'wos', 'med', 'med', 'sco', 'pro'])
        f = GENS[kind](rng, H, rng.randint(0, 99))
        ks = keysFor(kind)
        own = list(f)
        p = altpairs(kind)
        q = []
        for _ in range(rng.randint(2, 14)):
            k = rng.choice(ks) if rng.random() < .5 else rng.choice(own)
            if rng.random() < .3 and k in p:
                k = p[k]
            if H.newstrs and rng.random() < .15:
                k = rng.choice(H.newstrs)
            q.append([rng.choice(['in', 'get', 'item', 'getdef', 'items', 'values', 'raw']), k])
        return dict(kind=kind, f=list(f.items()), q=q)

    def run(c):
        f = collections.OrderedDict((k, v) for k, v in c['f'])
        kind = c['kind']
        R = make(kind, f)
        expect(not R.bad, 'a good record is marked bad', R.error)
        names = altpairs(kind)
        alt = dict(names); alt.update({v: k for k, v in names.items()})
        D = object()

        def fresh(k):
            Q = make(kind, f)
            try:
                return True, canon(Q[k])
            except KeyError:
                return False, None

        def look(R, how, k):
            want, val = fresh(k)
            if how == 'in':
                same(k in R, want, '%r in the record' % k)
            elif how in ('item', 'items', 'values'):
                if how == 'items':
                    same([[a, canon(b)] for a, b in R.items()], [[t, fresh(t)[1]] for t in f], 'items')
                elif how == 'values':
                    same([canon(b) for b in R.values()], [fresh(t)[1] for t in f], 'values')
                try:
                    got = R[k]
                except KeyError:
                    expect(not want, 'indexing by %r fails but a fresh record has it' % k)
                else:
                    expect(want, 'indexing by %r succeeds but not on a fresh record' % k, got)
                    same(canon(got), val, 'value under %r' % k)
            elif how == 'get':
                got = R.get(k)
                same(canon(got), val if want else canon(None), 'get(%r)' % k)
            elif how == 'getdef':
                got = R.get(k, D)
                if want:
                    expect(got is not D, 'get(%r) gives the default' % k); same(canon(got), val, 'get(%r)' % k)
                else:
                    expect(got is D, 'get(%r) of a missing key' % k, got)
            elif how == 'raw':
                rawkey = k if k in f else alt.get(k)
                got = R.get(k, D, raw=True)
                if rawkey in f:
                    same(got, f[rawkey], 'raw value under %r' % k)
                else:
                    expect(got is D, 'raw value of a missing key %r' % k, got)

        def shape():
            same(list(R), list(f), 'iteration')
            same(len(R), len(f), 'length')
            same(list(R.keys()), list(f), 'keys')
        shape()
        for how, k in c['q']:
            look(R, how, k)
            if k in alt and (kind == 'wos' or k in f or alt[k] in f):
                a, b = fresh(k), fresh(alt[k])
                if (k in f) != (alt[k] in f) or kind == 'wos':
                    same(a, b, 'tag %r and name %r' % (k, alt[k]))
            look(R, 'in', k); look(R, 'item', k)
        shape()
        for t in f:
            expect(t in R, 'own tag not in the record', t)
            same(canon(R.get(t)), fresh(t)[1], 'value under own tag %r' % t)
            if t in alt:
                expect(alt[t] in R, 'long name of own tag not in the record', t)
                same(canon(R[alt[t]]), fresh(t)[1], 'value under the long name of %r' % t)
            same(R.get(t, raw=True), f[t], 'raw value of own tag')


@prop('R02').variant('identity')
class R02:
    def gen(rng, H):
        kind = rng.choice(['wos', 'med', 'sco', 'pro', 'grant', 'nserc', 'nsf'])
        base = kind if kind in GENS else 'wos'
        a = GENS[base](rng, H, rng.randint(0, 3)); b = GENS[base](rng, H, rng.randint(0, 3))
        if base == 'wos':
            ids = ['WOS:000001', 'WOS:000002', 'wos:000001', 'WOS:000001 ', 'X', 'WOS:1', '', '0', 'WOS:00000' + str(rng.randint(0, 9))]
            a['UT'] = [H.word(rng, ids)]; b['UT'] = [H.word(rng, ids) if rng.random() < .6 else a['UT'][0]]
        return dict(kind=kind, a=list(a.items()), b=list(b.items()), read=rng.random() < .6,
                    gid=[rng.choice(['k1', 'k2', 'k3']), rng.choice(['k1', 'k2', 'k3'])])

    def run(c):
        def build(i):
            f = dict(c['ab'[i]])
            if c['kind'] == 'nserc':
                from metaknowledge.grants import NSERCGrant
                return NSERCGrant('o', collections.OrderedDict(Cle=c['gid'][i], **{'T': 'v%d' % i}), 'f', i)
            if c['kind'] == 'nsf':
                from metaknowledge.grants.baseGrant import Grant
                return Grant('o', collections.OrderedDict(T='v%d' % i), c['gid'][i], False, None)
            if c['kind'] == 'grant':
                from metaknowledge.grants import MedlineGrant
                return MedlineGrant('%s/CA/NCI/US' % c['gid'][i])
            if c['kind'] == 'wos' and c['read']:
                return mk().WOSRecord(collections.OrderedDict((k, list(v)) for k, v in f.items()), sFile='file%d.txt' % i, sLine=i + 3)
            return make(c['kind'], f)
        A, B = build(0), build(1)
        expect(isinstance(A.id, str), 'id is no string')
        if c['read']:
            for k in list(A):
                A.get(k)
        want = A.id == B.id
        same(A == B, want, 'equality of IDs %r and %r' % (A.id, B.id)); same(B == A, want, 'equality (swapped)')
        same(A != B, not want, 'inequality')
        if want:
            same(hash(A), hash(B), 'hash')
        same(len({A, B}), 1 if want else 2, 'size of a set of both')
        expect(A == A, 'reflexive')
        for o in (A.id, None, 3, dict(A._fieldDict), [A], mk().Citation('A B, 1999, X'), object(), hash(A)):
            expect(not A == o and A != o, 'equal to something that is no record', o)
        raw = lambda R: [(k, R._fieldDict[k]) for k in R._fieldDict]
        N = mk().WOSRecord(collections.OrderedDict((k, v) for k, v in dict(c['a']).items() if k != 'UT' and isinstance(v, list)), sFile='bad.txt', sLine=7)
        for how in ('copy', 'pickle'):
            X = N.copy() if how == 'copy' else pickle.loads(pickle.dumps(N))
            same([X.bad, str(X.error), X.id, X.sourceFile, X.sourceLine, raw(X)], [N.bad, str(N.error), N.id, N.sourceFile, N.sourceLine, raw(N)], how + ' of a bad record')
        for how in ('copy', 'pickle', 'pickle2'):
            O = build(0)
            if c['read']:
                for k in list(O):
                    O.get(k)
            C = O.copy() if how == 'copy' else pickle.loads(pickle.dumps(O, protocol=2 if how == 'pickle2' else pickle.HIGHEST_PROTOCOL))
            expect(type(C) is type(O) and C is not O, how + ': type')
            expect(C == O and O == C and hash(C) == hash(O) and C.id == O.id, how + ' differs from the original')
            same(raw(C), raw(O), how + ': fields')
            same([C.bad, str(C.error), C.sourceFile, C.sourceLine], [O.bad, str(O.error), O.sourceFile, O.sourceLine], how + ': marks')
            for k in raw(O):
                same(canon(C[k[0]]), canon(O[k[0]]), how + ': value of ' + k[0])
            same(list(C), list(O), how + ': tags')
            rO, rC = raw(O), raw(C)
            g = c['kind'] in ('nserc', 'nsf', 'grant')
            tgt = (lambda R: R) if g else (lambda R: R._fieldDict)
            tgt(C)['ZZ'] = ['new'] if not g else 'new'
            same(raw(O), rO, how + ': the original after adding a field to the copy'); expect('ZZ' not in O, how + ': new field shows')
            k0 = rO[0][0]
            tgt(C)[k0] = ['changed'] if not g else 'changed'
            same(raw(O), rO, how + ': the original after replacing a field of the copy')
            del tgt(C)[k0]
            same(raw(O), rO, how + ': the original after removing a field of the copy')
            expect(k0 in O, how + ': field gone from the original')
            C2 = O.copy(); rC = raw(C2)
            tgt(O)['YY'] = ['new'] if not g else 'new'; del tgt(O)[k0]
            same(raw(C2), rC, how + ': the copy after changing the original')
            expect('YY' not in C2 and k0 in C2, 'change of the original shows in the copy')


def _tables():
    from metaknowledge.WOS.tagProcessing import funcDicts as W
    from metaknowledge.medline.tagProcessing import tagNames as Mt
    return W, Mt


@prop('R03').variant('tables')
class R03:
    def gen(rng, H):
        raise NotImplementedError

    def enum(H):
        W, Mt = _tables()
        from metaknowledge.WOS.tagProcessing.tagFunctions import tagToFunc
        for t in tagToFunc:
            yield ['wos', t]
        for n in W.fullToTagDict:
            yield ['wosname', n]
        for n in Mt.tagNameDict:
            yield ['med', n]
        for t in set(Mt.tagNameDict.values()):
            yield ['medtag', t]
        yield ['count', '']
        for u in ['', 'XX', 'zz', 'titl', 'title ', ' TI', 'T', 'PYY', 'AUTHORS', 'wosstring1', 'Ti', 'Title2', 'ÄÖ', 'ß', '1', 'None'] + list(H.newstrs):
            yield ['unknown', u]
    gen.enumerate = enum

    def run(c):
        W, Mt = _tables()
        kind, x = c

        def cases(s):
            return {s, s.lower(), s.upper(), s.title(), s.swapcase(), s.capitalize()}
        if kind == 'wos':
            n = W.tagToFullDict[x]
            same(W.fullToTagDict[n], x, 'there and back'); same(W.tagToFull(x), n, 'tagToFull')
            same(W.tagNameConverterDict[x], n, 'converter'); same(W.tagNameConverterDict[n], x, 'converter back')
            same(mk().WOSRecord.getAltName(x), n, 'alternative name'); same(mk().WOSRecord.getAltName(n), x, 'alternative name')
            expect(x != n and n not in W.tagToFullDict, 'name is a tag', n)
            for s in cases(x) | cases(n):
                same(W.normalizeToTag(s), x, 'normalizeToTag(%r)' % s)
            for s in (x, n):
                same(W.normalizeToName(s), n, 'normalizeToName(%r)' % s)
                expect(W.isTagOrName(s), 'isTagOrName', s)
        elif kind == 'wosname':
            same(W.tagToFullDict[W.fullToTagDict[x]], x, 'there and back')
            same([t for t in W.tagToFullDict if W.tagToFullDict[t] == x], [W.fullToTagDict[x]], 'tags with this name')
        elif kind == 'med':
            t = Mt.tagNameDict[x]
            same(Mt.tagNameConverterDict[x], t, 'converter'); same(Mt.tagNameConverterDict[t], x, 'converter back')
            same([n for n in Mt.tagNameDict if Mt.tagNameDict[n] == t], [x], 'names of this tag')
            same(mk().MedlineRecord.getAltName(x), t, 'alternative name'); same(mk().MedlineRecord.getAltName(t), x, 'alternative name')
            expect(t == x or t not in Mt.tagNameDict, 'tag is a name')
        elif kind == 'medtag':
            from metaknowledge.medline.tagProcessing.tagFunctions import medlineTagToFunc
            expect(x in medlineTagToFunc, 'tag has no reader', x)
        elif kind == 'count':
            from metaknowledge.WOS.tagProcessing.tagFunctions import tagToFunc
            same(set(W.tagToFullDict), set(tagToFunc), 'all tags have a name')
            same(len(W.fullToTagDict), len(W.tagToFullDict), 'number of names')
            same(W.tagsAndNameSet, set(W.tagToFullDict) | set(W.fullToTagDict), 'set of tags and names')
            same(len(Mt.tagNameConverterDict), 2 * len(Mt.tagNameDict) - sum(k == v for k, v in Mt.tagNameDict.items()), 'number of medline entries')
            from metaknowledge.medline.tagProcessing.tagFunctions import medlineTagToFunc
            same(set(medlineTagToFunc), set(Mt.tagNameDict.values()), 'every medline tag has a name')
            same(len(set(tagToFunc.values())), len(tagToFunc), 'two tags share a reader')
        else:
            known = W.tagsAndNameSet
            if x.upper() in {k.upper() for k in known}:
                raise Skip()
            raises(KeyError, lambda: W.normalizeToTag(x), 'normalizeToTag(%r)' % x)
            raises(KeyError, lambda: W.normalizeToName(x), 'normalizeToName(%r)' % x)
            raises(KeyError, lambda: W.tagToFull(x), 'tagToFull(%r)' % x)
            expect(not W.isTagOrName(x), 'isTagOrName', x)


@prop('R04').variant('citation')
class R04:
    def gen(rng, H):
        kind = rng.choice(['wos', 'wos', 'wos', 'med', 'med', 'sco', 'pro'])
        return dict(kind=kind, f=list(GENS[kind](rng, H, 1).items()), read=rng.random() < .3)

    def run(c):
        f = dict((k, v) for k, v in c['f'])
        R = make(c['kind'], f)
        if c['kind'] == 'wos':
            au = f.get('AU', []); g = lambda t: f[t][0] if t in f else ''
            year = int(g('PY')) if 'PY' in f else 0
            j = g('J9') or (' '.join(f['TI']) if 'TI' in f else '')
            v, p, d = g('VL').strip(), g('BP').strip(), g('DI')
        elif c['kind'] in ('sco', 'pro'):
            Q = make(c['kind'], f); g = lambda k: Q.get(k) or ''
            au, year, j, v, p, d = g('authorsShort') or [], g('year'), g('j9') or g('title'), str(g('volume')), str(g('beginningPage')), g('DOI')
        else:
            au = f.get('AU', [])
            m = re.search(r'-?\d{1,4}', f['DP'][0].split(' ')[0]) if 'DP' in f else None
            year = int(m.group(0)) if m else 0
            j = f['TA'][0] if 'TA' in f else f['TI'][0] if 'TI' in f else ''
            v = f['VI'][0].split(' ')[0] if 'VI' in f else ''
            p = ''
            if 'PG' in f:
                p = f['PG'][0]
                p = (p[6:] if p.startswith('suppl ') else p).split(' ')[0].split('-')[0].replace(';', '')
            d = ([a[:-6] for a in f.get('AID', []) if a.endswith(' [doi]')] + [''])[0]
        tail = ([str(year)] if year else []) + ([j] if j else []) + (['V' + v] if v else []) + (['P' + p] if p else []) + (['DOI ' + d] if d else [])
        head = [a.replace(',', '') for a in au]
        before = canon(dict(R._fieldDict)); idb = R.id
        if c['read']:
            R.get('year'); R.get('title')
        one = R.createCitation()
        if c['kind'] == 'sco':
            t = Q.get('title', '').replace('(', '').replace(')', ''); y, j = Q.get('year'), Q.get('journal')
            tail = [(t + ' ' if Q.get('title') else '') + ('(%s) ' % y if y else '') + (j + ', ' if j else '') + (v + ', ' if v else '') + ('PP. ' + p if p else '')]
            if not head:
                tail = [''] if not tail[0] else tail
        same(one.original, ', '.join(head[:1] + tail), 'citation')
        many = R.createCitation(multiCite=True)
        expect(isinstance(many, tuple), 'several citations are no tuple')
        same([m.original for m in many], [', '.join([h] + tail) for h in head] or [', '.join(tail)], 'citations of all authors')
        same(R.createCitation().original, one.original, 'second call')
        same(R['selfCitation'].original, one.original, 'selfCitation')
        same(canon(dict(R._fieldDict)), before, 'the record afterwards'); same(R.id, idb, 'the ID afterwards')
        same(list(R.get('authorsShort', [])), list(au), 'authors afterwards')


R05SPEC = {}
for _t in ['TI', 'SE', 'BS', 'CT', 'CL', 'HO', 'FX', 'PA', 'SU']:
    R05SPEC[_t] = lambda v: ' '.join(v)
for _t in ['SO', 'PU', 'PI', 'JI']:
    R05SPEC[_t] = lambda v: ' '.join(v).upper()
for _t in ['FU', 'SC', 'EM', 'OI', 'BN', 'RI', 'WC']:
    R05SPEC[_t] = lambda v: ' '.join(v).split('; ')
for _t in ['AF', 'AU', 'BE', 'BA', 'BF', 'ED']:
    R05SPEC[_t] = lambda v: list(v)
for _t in ['PT', 'GP', 'CA', 'DT', 'CY', 'J9', 'SN', 'AR', 'IS', 'EI', 'DI', 'UT', 'MA', 'D2', 'RP', 'PN', 'SI', 'PM', 'GA']:
    R05SPEC[_t] = lambda v: v[0]
for _t in ['NR', 'TC', 'Z9', 'PG', 'PY']:
    R05SPEC[_t] = lambda v: int(v[0])
for _t in ['VL', 'BP', 'EP']:
    R05SPEC[_t] = lambda v: v[0].strip()
R05SPEC['AB'] = lambda v: '\n'.join(v)
R05SPEC['DE'] = lambda v: ' '.join(v).lower().split('; ')
R05SPEC['ID'] = lambda v: ' '.join(v).upper().split('; ')
R05SPEC['LA'] = lambda v: ', '.join(v)
R05SPEC['SP'] = lambda v: ', '.join(v).split(', ')
R05SPEC['C1'] = lambda v: [a.split('] ', 1)[1] if a[0] == '[' else a for a in v]
R05SPEC['CR'] = lambda v: [('cite', a) for a in v]
MONTHS = {m: i + 1 for i, m in enumerate('JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC'.split())}
MONTHS.update(SPR=3, SUM=6, FAL=9, WIN=12)
R05SPEC['PD'] = lambda v: MONTHS[re.split('[ -]', v[0])[0].upper()]
NUM = {'NR', 'TC', 'Z9', 'PG'}


@prop('R05').variant('values')
class R05:
    def gen(rng, H):
        f = {}
        texts = ['alpha', 'Beta, C', 'x; y', 'A; b; C', 'a, b', 'Univ [X] of Y', '[Smith, J; Doe, A] Univ A, B', '[A] Univ [B] C', 'one [two] three', 'Ünï', 'a;b', 'end;', ' lead', 'trail ', 'a  b', 'ISI:1', "O'Neil, K", 'MiXed; CaSe'] + WORD
        for t in rng.sample(sorted(R05SPEC), rng.randint(1, 10)):
            if t in NUM:
                f[t] = [str(H.int(rng, 0, 300))]
            elif t == 'PY':
                f[t] = [str(H.int(rng, 1900, 2020))]
            elif t == 'PD':
                m = rng.choice(sorted(MONTHS)); m = rng.choice([m, m.lower(), m.title()])
                f[t] = [rng.choice([m, m + ' 3', m + '-' + rng.choice(sorted(MONTHS)), m + ' 15'])]
            elif t == 'C1':
                f[t] = [rng.choice(['[Smith, J; Doe, A] Univ A, B', 'Univ B, Town', '[X] Dept [Y] of Z', '[A, B] Univ] odd', '[A] [B] C'.replace('[B] ', 'q] '), '[Z] end']) for _ in range(rng.randint(1, 3))]
            elif t == 'CR':
                f[t] = subset(rng, [x for x in CITES if x], 1, 6)
            else:
                f[t] = [H.word(rng, texts, .1) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        f.setdefault('UT', ['WOS:1'])
        return f

    def run(c):
        from metaknowledge.WOS.tagProcessing.funcDicts import tagToFullDict
        R = wos(c)
        for t, v in c.items():
            want = R05SPEC[t](v)
            for key in (t, tagToFullDict[t]):
                got = R[key]
                if t == 'CR':
                    got = [('cite', x.original) for x in got]
                same(got, want, 'value of %s' % key)
        same([list(R._fieldDict[t]) for t in c], [list(v) for v in c.values()], 'raw lines after processing')
