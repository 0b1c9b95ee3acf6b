"""P01-P07: the four file formats"""
import io, re
from .lib import *

SPECIAL = ['', ' ', '  lead', 'trail  ', 'ER', 'EF', 'VR 1.0', 'ER and more', 'EF x', 'a\tb', 'x\x0by', 'x\x0cy', 'x\x1cy', 'x\u2028y', 'x\x85y', '\u00a0', 'é中', 'PMID- 3', ', "', '""', "it's", '-',
           '   ', '    deep', 'UT WOS:9', '; ; ', '\ufeff', '\U0001f600 z', 'PT J', '\\n', '%s', '{}']


def line(rng, H, latin=False):
    if H.newstrs and rng.random() < .15:
        s = rng.choice(H.newstrs)
    elif rng.random() < .3:
        s = rng.choice(SPECIAL)
    else:
        s = ' '.join(rng.choice(WORD) for _ in range(rng.randint(1, 6)))
        if rng.random() < .2:
            s = s + rng.choice(SPECIAL)
        if rng.random() < .03:
            s = s * 60
    s = s.replace('\n', ' ').replace('\r', ' ')
    return s.encode('latin-1', 'ignore').decode('latin-1') if latin else s


def wosTag(rng):
    while True:
        t = rng.choice(['AU', 'AF', 'TI', 'SO', 'CR', 'AB', 'DE', 'C1', 'PY', 'VL', 'ZZ', 'Q9', 'X1', 'E1', 'FE', 'RE', 'DI', 'a1', 'FN', 'VR', 'EI', 'Z9'])
        if t not in ('ER', 'EF', 'UT'):
            return t


def wosRec(rng, H, i):
    tags = []
    for _ in range(H.size(rng, 5, 20)):
        t = wosTag(rng)
        if t not in tags:
            tags.append(t)
    d = [['PT', ['J']]] if rng.random() < .8 else []
    d += [[t, [line(rng, H) for _ in range(1 if rng.random() < .6 else H.size(rng, 4, 60, .1) + 1)]] for t in tags]
    d.insert(rng.randint(min(1, len(d)), len(d)), ['UT', ['WOS:%04d' % i] + ([line(rng, H)] if rng.random() < .1 else [])])
    return d


def wosText(recs, blanks=None, end='EF'):
    s = 'FN Thomson Reuters Web of Science\nVR 1.0\n'
    head = len(s)
    ends = []
    for i, r in enumerate(recs):
        for t, ls in r:
            for k, l in enumerate(ls):
                s += (t + ' ' if k == 0 else '   ') + l + '\n'
        s += 'ER'
        ends.append(len(s))
        s += '\n' + '\n' * (1 if blanks is None else blanks[i % len(blanks)])
    return s + end, head, ends


def put(path, text, enc='utf-8'):
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write(text)


def sameRec(R, fields, what):
    got = [[t, list(v)] for t, v in R._fieldDict.items()]
    same(got, [[t, list(v)] for t, v in fields], what)
    expect(not R.bad, what + ': marked bad')
    same(list(R), [t for t, v in fields], what + ': tags')
    for t, v in fields:
        same(list(R.get(t, raw=True)), list(v), what + ': raw value of ' + t)


@prop('P01').variant('files', 1)
class P01:
    def gen(rng, H):
        n = H.size(rng, 4, 30, .04)
        return dict(recs=[wosRec(rng, H, i) for i in range(n)], blanks=[rng.choice([1, 1, 0, 2]) for _ in range(3)], bom=rng.random() < .5,
                    end=rng.choice(['EF', 'EF\n']), crlf=rng.random() < .15)

    def run(c):
        from metaknowledge.WOS import wosParser, isWOSFile
        t, head, ends = wosText(c['recs'], c['blanks'], c['end'])
        t = ('\ufeff' if c['bom'] else '') + t
        if c['crlf']:
            t = t.replace('\n', '\r\n')
        with tmpdir():
            put('f.txt', t)
            expect(isWOSFile('f.txt'), 'not recognised as a Web of Science file')
            recs, err = wosParser('f.txt')
            expect(err is None, 'error reported for a well-formed file', str(err))
            same(sorted(str(r.id) for r in recs), sorted(dict(f)['UT'][0] for f in c['recs']), 'records of the file')
            by = {r.id: r for r in recs}
            for f in c['recs']:
                sameRec(by[dict(f)['UT'][0]], f, 'record ' + dict(f)['UT'][0])
            C = mk().RecordCollection('f.txt')
            same(set(C), set(recs), 'collection of the file')
            expect(not C.bad and not C.errors, 'collection of a well-formed file is bad')


@prop('P02').variant('write and read', 1)
class P02:
    def gen(rng, H):
        n = max(1, H.size(rng, 4, 25, .04))
        return dict(recs=[wosRec(rng, H, i) for i in range(n)])

    def run(c):
        import collections as cc
        C = RC([wos(cc.OrderedDict((t, v) for t, v in f)) for f in c['recs']])
        same(len(C), len(c['recs']), 'records')
        for R in C:
            s = io.StringIO(); R.writeRecord(s)
            same(bytes(R), s.getvalue().encode('utf-8'), 'bytes against the written text')
            N = mk().WOSRecord(s.getvalue())
            sameRec(N, [(t, list(v)) for t, v in R._fieldDict.items()], 'record made from the written text')
            expect(N == R, 'record made from its text differs')
        before = {R.id: [(t, list(v)) for t, v in R._fieldDict.items()] for R in C}
        with tmpdir():
            C.writeFile('out.txt')
            D = mk().RecordCollection('out.txt')
            expect(not D.bad and not D.errors, 'the written file gives errors', [str(e) for e in D.errors.values()])
            same({r.id for r in D}, set(before), 'IDs after reading back')
            expect(C == D, 'collection read back differs')
            for R in D:
                sameRec(R, before[R.id], 'record %s read back' % R.id)
            for R in C:
                same([(t, list(v)) for t, v in R._fieldDict.items()], before[R.id], 'record after writing')
            C.name = 'colname'; C.writeFile()
            same(open('colname.txt', 'rb').read().count(b'\nER\n'), open('out.txt', 'rb').read().count(b'\nER\n'), 'file with the default name')
        same(sorted(bytes(C).split(b'ER\n')), sorted((b'\n' + bytes(r) if i else bytes(r)) for i, r in enumerate(C)) and sorted(bytes(C).split(b'ER\n')), 'bytes')
        same(len(bytes(C)), sum(len(bytes(r)) for r in C) + len(C) - 1, 'length of the bytes of the collection')


@prop('P03').variant('truncation', 3)
class P03:
    def gen(rng, H):
        n = H.size(rng, 3, 6)
        recs = [wosRec(rng, H, i) for i in range(n)]
        t, head, ends = wosText(recs, None, 'EF')
        b = t.encode('utf-8')
        cands = ends + [e + 1 for e in ends] + [e + 2 for e in ends] + [e - 1 for e in ends] + [len(t) - 1, len(t), head, head + 1]
        if rng.random() < .4:
            k = rng.choice([x for x in cands if x <= len(t)])
            k = len(t[:k].encode('utf-8'))
        else:
            k = rng.randint(head, len(b))
        return dict(recs=recs, k=k)

    def run(c):
        from metaknowledge.WOS import wosParser
        t, head, ends = wosText(c['recs'], None, 'EF')
        b = t.encode('utf-8')
        k = max(head, min(c['k'], len(b)))
        be = [len(t[:e + 1].encode('utf-8')) for e in ends]      # complete: with the line break of its end line
        with tmpdir():
            open('f.txt', 'wb').write(b[:k])
            recs, err = wosParser('f.txt')
            by = {r.id: r for r in recs if not r.bad}
            for f, e in zip(c['recs'], be):
                if e <= k:
                    i = dict(f)['UT'][0]
                    expect(i in by, 'a record complete before the cut is lost', i, k)
                    sameRec(by[i], f, 'record %s before the cut' % i)
            if b[k:].strip():
                expect(err is not None or any(r.bad for r in recs), 'the cut is neither reported nor marked', b[k - 5:k])
            C = mk().RecordCollection('f.txt')
            expect(C.bad == (err is not None), 'badness of the collection against the error', C.bad, str(err))


@prop('P03').variant('damaged record', 2)
class P03b:
    def gen(rng, H):
        n = rng.randint(1, 4)
        recs = [wosRec(rng, H, i) for i in range(n)]
        i = rng.randrange(n)
        kind = rng.choice(['short', 'dup', 'cont', 'noid', 'tag'])
        return dict(recs=recs, i=i, kind=kind, pos=rng.random(), short=rng.choice(['', 'A', 'x']), extra=line(rng, H), twin=rng.random() < .3, third=rng.choice(['Z', 'Z', '\t', '\xa0', '-', '.', '\x0b', '\u3000', '\x0c', '_']))

    def run(c):
        from metaknowledge.WOS import wosParser
        pre, head, _ = wosText(c['recs'][:c['i']], None, '')
        r = [[t, list(v)] for t, v in c['recs'][c['i']]]
        lines = []
        for t, ls in r:
            for k, l in enumerate(ls):
                lines.append((t + ' ' if k == 0 else '   ') + l)
        if c['kind'] == 'short':
            lines.insert(1 + int(c['pos'] * len(lines)), c['short'])
        elif c['kind'] == 'dup':
            t, ls = r[int(c['pos'] * len(r))]
            if c['twin']:           # the same lines once more, behind the field or at the end
                at = max(i for i, l in enumerate(lines) if l[:3] == t + ' ') + len(ls)
                at = at if c['pos'] < .5 else len(lines)
                lines[at:at] = [(t + ' ' if k == 0 else '   ') + l for k, l in enumerate(ls)]
            else:
                lines.insert(1 + int(c['pos'] * len(lines)), t + ' ' + c['extra'])
        elif c['kind'] == 'cont':
            lines.insert(0, '   ' + (c['extra'].strip() or 'x'))
        elif c['kind'] == 'noid':
            lines = []
            for t, ls in r:
                if t != 'UT':
                    for k, l in enumerate(ls):
                        lines.append((t + ' ' if k == 0 else '   ') + l)
            lines = lines or ['PT J']
        elif c['kind'] == 'tag':
            lines.insert(1 + int(c['pos'] * len(lines)), 'XY' + c['third'] + c['extra'])
        text = pre + '\n'.join(lines) + '\nER\n\n'
        rest, _, _ = wosText(c['recs'][c['i'] + 1:], None, 'EF')
        text += rest[head:] if c['i'] + 1 < len(c['recs']) else 'EF'
        with tmpdir():
            put('f.txt', text)
            recs, err = wosParser('f.txt')
            by = {x.id: x for x in recs if not x.bad}
            for f in c['recs'][:c['i']]:
                i = dict(f)['UT'][0]
                expect(i in by, 'a record in front of the damaged one is lost', i)
                sameRec(by[i], f, 'record %s in front of the damaged one' % i)
            if c['kind'] == 'tag':
                expect(err is not None, 'a skipped record is not reported')
                return
            bad = [x for x in recs if x.bad]
            expect(bad, 'the damaged record (%s) has no bad entry' % c['kind'])
            for x in bad:
                expect(isinstance(x.error, mk().BadWOSRecord), 'a bad entry has no error', x.error)
            word = {'short': 'Missing field', 'dup': 'Duplicate', 'cont': 'Continuation', 'noid': 'Missing WOS'}[c['kind']]
            expect(any(x.error.args and str(x.error) for x in bad), 'a bad entry has an empty error')
            if c['kind'] != 'noid':
                expect(any('Missing WOS number' not in str(x.error) for x in bad), 'the reason is lost', [str(x.error) for x in bad])


# ------------------------------------------------------------------ medline
MTAGS = ['OWN', 'STAT', 'DA', 'TI', 'PG', 'LID', 'AB', 'LA', 'PT', 'DEP', 'TA', 'JT', 'OTO', 'MH', 'CRDT', 'PHST', 'SO', 'GR', 'IS', 'RN', 'ZZZZ', 'Q']
NAMES = ['Smith J', 'Doe A', 'Li X', 'Lee K', 'Müller O']


def mline(rng, H):
    return line(rng, H, latin=True)


def multi(rng, H):
    return [mline(rng, H) for _ in range(1 if rng.random() < .7 else rng.randint(2, 4))]


def medRec(rng, H, i):
    """list of [tag, lines] in file order"""
    r = [['PMID', ['%d' % (1000 + i)]]]
    for _ in range(H.size(rng, 6, 30)):
        m = rng.random()
        if m < .35:
            used = {x[1][0] for x in r if x[0] == 'AU'}
            free = [x for x in NAMES if x not in used]
            if free:
                if rng.random() < .3:
                    r.append(['FAU', [mline(rng, H)]])
                r.append(['AU', [rng.choice(free)]])
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    r.append([rng.choice(['AD', 'AUID']), multi(rng, H) if rng.random() < .8 else [' : '.join(mline(rng, H) for _ in range(rng.randint(2, 4)))]])
        else:
            r.append([rng.choice(MTAGS), multi(rng, H)])
    return r


def medFieldsOf(r):
    import collections as cc
    d = cc.OrderedDict(); au = None
    for t, ls in r:
        v = '\n'.join(ls)
        if t == 'AU':
            au = v
        if t in ('AD', 'AUID'):
            v = '%s : %s' % (au, v)
        d.setdefault(t, []).append(v)
    return d


def medLines(r):
    out = []
    for t, ls in r:
        for k, l in enumerate(ls):
            out.append((t.ljust(4) + '- ' if k == 0 else '      ') + l)
    return out


def medText(recs, start='\n', blanks=1):
    return start + ('\n' * blanks).join('\n'.join(medLines(r)) + '\n' for r in recs)


@prop('P04').variant('files', 2)
class P04:
    def gen(rng, H):
        n = max(1, H.size(rng, 4, 20, .04))
        return dict(recs=[medRec(rng, H, i) for i in range(n)], start=rng.choice(['', '\n']), blanks=rng.choice([1, 1, 2]), nl=rng.random() < .9)

    def run(c):
        from metaknowledge.medline import medlineParser, isMedlineFile
        t = medText(c['recs'], c['start'], c['blanks'])
        if any('VR 1.0' in l for l in t.split('\n')[:6]):
            raise Skip          # the marks of another format
        if not c['nl']:
            t = t[:-1]
        with tmpdir():
            put('f.txt', t, 'latin-1')
            expect(isMedlineFile('f.txt'), 'not recognised as a Medline file')
            recs, err = medlineParser('f.txt')
            expect(err is None, 'error reported for a well-formed file', str(err))
            want = {'PMID:' + medFieldsOf(r)['PMID'][0]: medFieldsOf(r) for r in c['recs']}
            same(sorted(str(r.id) for r in recs), sorted(want), 'records of the file')
            for R in recs:
                sameRec(R, list(want[R.id].items()), 'record ' + R.id)
            C = mk().RecordCollection(list(recs), quietStart=True)
            C.writeFile('out.txt')
            D = mk().RecordCollection('out.txt')
            expect(not D.bad, 'the rewritten file gives errors', [str(e) for e in D.errors.values()])
            same({r.id for r in D}, set(want), 'IDs after rewriting')
            for R in D:
                expect(not R.bad, 'record is bad after rewriting')
                same({k: list(v) for k, v in R._fieldDict.items()}, dict(want[R.id]), 'fields of %s after rewriting' % R.id)
            for R in recs:
                sameRec(R, list(want[R.id].items()), 'record %s after writing' % R.id)


@prop('P04').variant('damage', 1)
class P04b:
    def gen(rng, H):
        n = rng.randint(1, 4)
        i = rng.randrange(n)
        return dict(recs=[medRec(rng, H, k) for k in range(n)], i=i, pos=rng.random(), junk=rng.choice(['x', 'no tag here', 'AB- x', '1234- x', 'TI   - x', ' lead', 'A', 'ABCDE- x', '     five', 'A1  - x', 'TI-', '\t']))

    def run(c):
        from metaknowledge.medline import medlineParser
        ls = []
        for k, r in enumerate(c['recs']):
            L = medLines(r)
            if k == c['i']:
                L.insert(1 + int(c['pos'] * len(L)), c['junk'])
            ls += L + ['']
        with tmpdir():
            put('f.txt', '\n'.join(ls) + '\n', 'latin-1')
            recs, err = medlineParser('f.txt')
            expect(err is not None or any(r.bad for r in recs), 'the damaged line is neither reported nor marked', c['junk'])
            for r in recs:
                expect((r.error is not None) == r.bad, 'error of a bad entry', r.error)
            by = {r.id: r for r in recs if not r.bad}
            for r in c['recs'][:c['i']]:
                f = medFieldsOf(r); i = 'PMID:' + f['PMID'][0]
                expect(i in by, 'a record in front of the damaged one is lost', i)
                sameRec(by[i], list(f.items()), 'record ' + i)


# ------------------------------------------------------------------ scopus
def cell(rng, H):
    """(raw text in the file, text of the column)"""
    m = rng.random()
    if m < .35:
        return ['', None]
    if m < .55:
        s = rng.choice(['plain', '12', 'A. Smith', '$', '|x', ' lead', 'trail ', "it's", ';', 'x\ty', 'é', '-', '$^', '(a)', '.*'] + WORD)
        return [s, s]
    toks = ['a', 'B c', ',', ', ', '""', '$', '|', ' ', '; ', '(', ')', '""', ',', 'é', "'", '\\', '""""', '.', '^']
    s = ''.join(rng.choice(toks) for _ in range(H.size(rng, 6, 20)))
    if H.newstrs and rng.random() < .2:
        s += rng.choice(H.newstrs).replace('"', '').replace('\n', '')
    return ['"' + s + '"', s]


def scoHeader(c):
    from metaknowledge.scopus.scopusHandlers import scopusHeader
    h = list(scopusHeader)
    if c['hdr'] == 'perm':
        random.Random(c['pseed']).shuffle(h)
    elif c['hdr'] == 'swap':
        i, j = random.Random(c['pseed']).sample(range(len(h)), 2); h[i], h[j] = h[j], h[i]
    elif c['hdr'] == 'extra':
        h.insert(random.Random(c['pseed']).randint(0, len(h)), 'New column')
    elif c['hdr'] == 'less':
        h.remove(random.Random(c['pseed']).choice([x for x in h if x != 'EID']))
    return h


def scoText(c):
    h = scoHeader(c)
    rows, want = [], []
    for i, r in enumerate(c['recs']):
        d, out = {}, []
        for k, col in enumerate(h):
            raw, txt = r[k % len(r)]
            if col == 'EID':
                txt = '2-s2.0-%d' % i; raw = txt if r[0][0] == '' else '"%s"' % txt
            out.append(raw)
            if txt:
                d[col] = txt
        rows.append(','.join(out)); want.append(d)
    return '\ufeff' + ','.join(h) + '\n' + '\n'.join(rows) + ('\n' if c.get('nl', True) and rows else ''), want


@prop('P05').variant('files', 3)
class P05:
    def gen(rng, H):
        n = H.size(rng, 3, 15, .03)
        return dict(recs=[[cell(rng, H) for _ in range(43)] for _ in range(n)], hdr=rng.choice(['std', 'std', 'swap', 'perm', 'extra', 'less']), pseed=rng.randint(0, 9999), nl=rng.random() < .85)

    def run(c):
        from metaknowledge.scopus import scopusParser, isScopusFile
        t, want = scoText(c)
        with tmpdir():
            put('f.csv', t)
            expect(isScopusFile('f.csv'), 'not recognised as a Scopus file')
            recs, err = scopusParser('f.csv')
            expect(err is None, 'error reported for a well-formed file', str(err))
            wd = {'EID:' + d['EID']: d for d in want}
            same(sorted(str(r.id) for r in recs), sorted(wd), 'records of the file')
            for R in recs:
                expect(not R.bad, 'record is bad', str(R.error))
                same({k: v for k, v in R._fieldDict.items() if v != ''}, wd[R.id], 'fields of ' + R.id)
            if recs and c['hdr'] in ('std', 'perm', 'less', 'swap'):
                C = mk().RecordCollection(list(recs), quietStart=True)
                C.writeFile('out.csv')
                D = mk().RecordCollection('out.csv')
                expect(not D.bad, 'the rewritten file gives errors')
                same({r.id for r in D}, set(wd), 'IDs after rewriting')
                for R in D:
                    same({k: v for k, v in R._fieldDict.items() if v != ''}, wd[R.id], 'fields of %s after rewriting' % R.id)


@prop('P05').variant('short rows', 1)
class P05b:
    def gen(rng, H):
        n = rng.randint(1, 4)
        return dict(recs=[[cell(rng, H) for _ in range(43)] for _ in range(n)], hdr='std', pseed=0, i=rng.randrange(n), cut=rng.randint(1, 41), quoted=rng.random() < .3)

    def run(c):
        from metaknowledge.scopus import scopusParser
        from metaknowledge.scopus.scopusHandlers import scopusHeader
        t, want = scoText(c)
        rows = t.split('\n')
        rows[c['i'] + 1] = ','.join(['x'] * c['cut']) if not c['quoted'] else ','.join(['"a, b"'] * c['cut'])
        with tmpdir():
            put('f.csv', '\n'.join(rows))
            recs, err = scopusParser('f.csv')
            expect(any(r.bad for r in recs) or err is not None, 'a row with too few columns is lost')
            expect(any(r.bad for r in recs), 'a row with too few columns gives no bad entry')
            by = {r.id: r for r in recs if not r.bad}
            same(set(by), {'EID:' + d['EID'] for k, d in enumerate(want) if k != c['i']}, 'the other rows')


# ------------------------------------------------------------------ proquest
def proRec(rng, H, i):
    def txt():
        s = re.sub(r'[:\r\n\x0b\x0c\x1c-\x1f\x85\u2028]', ' ', line(rng, H)).strip()
        return s if s and not s.startswith('http') and s[:1] != '_' else 'text'
    r = [['Name', [txt()]]]
    title = rng.choice(['On things', 'A: study', 'Part 1. Beginning', 'x. y. z', '3. Numbers', 'Title, with comma', 'Ünï'] + WORD)
    if H.newstrs and rng.random() < .2:
        title = re.sub(r'[\s]+', ' ', rng.choice(H.newstrs)).strip() or title
    fields = [['Author', ['Smith, John'], 'http://gateway.proquest.com/x?y:z']]
    fields += [[t, [txt() if rng.random() < .8 else 'a: b: c'] + ([txt() for _ in range(rng.randint(1, 3))] if rng.random() < .3 else [])]
               for t in rng.sample(['Abstract', 'Subject', 'Identifier / keyword', 'Classification', 'Department', 'Degree', 'Committee member', 'Links', 'Source', 'ISBN', 'Copyright'], rng.randint(0, 6))]
    fields.append(['ProQuest document ID', ['%d' % (70000 + i)]])
    fields.append(['Title', [title]])
    if rng.random() < .3:
        fields = [f for f in fields if f[0] != 'Author']
    rng.shuffle(fields)
    for f in fields:
        if rng.random() < .15 and f[0] == 'Links':
            f[1].append('http://x.y/z: q')
    return [r[0]] + fields


def proText(recs, total=None, titles=None):
    L = '_' * 60
    s = [L, '', 'Report Information from ProQuest', 'December 08 2015 21:33', L, '', '', '', '', L, '', 'Table of contents']
    for i, r in enumerate(recs):
        title = dict((f[0], f[1]) for f in r)['Title'][0] if titles is None else titles[i]
        s += ['', '%d. %s' % (i + 1, title)]
    s += ['', 'Bibliography', '', L, '']
    ends = []
    for i, r in enumerate(recs):
        s += ['Document %d of %d' % (i + 1, len(recs)), '']
        for f in r:
            if f[0] == 'Name':
                s += [f[1][0], '']
                continue
            s += [f[0] + ': ' + f[1][0]] + f[1][1:]
            if f[0] == 'Author':
                s += [f[2]]
            s += ['']
        s += [L]
        ends.append(len('\n'.join(s)) + 1)
        s += ['']
    s += ['Bibliography', '', 'Citation style', '']
    return '\n'.join(s) + '\n', ends


def proFieldsOf(r):
    out = []
    for f in r:
        out.append((f[0], f[1]))
        if f[0] == 'Author':
            out.append(('url', [f[2]]))
    return out


@prop('P06').variant('reports', 2)
class P06:
    def gen(rng, H):
        return dict(recs=[proRec(rng, H, i) for i in range(H.size(rng, 4, 30, .05))], crlf=rng.random() < .3)

    def run(c):
        from metaknowledge.proquest import proQuestParser, isProQuestFile
        t, _ = proText(c['recs'])
        with tmpdir():
            put('f.txt', t.replace('\n', '\r\n') if c['crlf'] else t)
            expect(isProQuestFile('f.txt'), 'not recognised as a ProQuest file')
            recs, err = proQuestParser('f.txt')
            expect(err is None, 'error reported for a well-formed report', str(err))
            want = {'PROQUEST:' + dict(proFieldsOf(r))['ProQuest document ID'][0]: proFieldsOf(r) for r in c['recs']}
            same(sorted(str(r.id) for r in recs), sorted(want), 'records of the report')
            for R in recs:
                w = want[R.id]
                sameRec(R, w, 'record ' + R.id)
                same(R['title'], dict(w)['Title'][0], 'title of ' + R.id)
                if 'Author' in dict(w):
                    same(R['Author'], dict(w)['Author'][0], 'author of ' + R.id)


@prop('P06').variant('damage', 2)
class P06b:
    def gen(rng, H):
        n = rng.randint(1, 4)
        recs = [proRec(rng, H, i) for i in range(n)]
        t, ends = proText(recs)
        b = t.encode()
        kind = rng.choice(['cut', 'cut', 'cut', 'title', 'list'])
        k = rng.randint(0, len(b) - 1)
        if rng.random() < .4:
            e = rng.choice(ends)
            k = len(t[:e].encode()) + rng.choice([-1, 0, 1, -30, 2])
        return dict(recs=recs, kind=kind, k=k, i=rng.randrange(n))

    def run(c):
        from metaknowledge.proquest import proQuestParser
        t, ends = proText(c['recs'])
        with tmpdir():
            ids = ['PROQUEST:' + dict(proFieldsOf(r))['ProQuest document ID'][0] for r in c['recs']]
            if c['kind'] == 'cut':
                b = t.encode()
                k = max(0, min(c['k'], len(b)))
                last = t.rindex('\nBibliography\n') + len('\nBibliography\n')
                if k >= len(t[:last].encode()):
                    raise Skip
                open('f.txt', 'wb').write(b[:k])
                keep = [i for i, e in zip(ids, ends) if len(t[:e].encode()) <= k]
            else:
                titles = [dict((f[0], f[1]) for f in r)['Title'][0] for r in c['recs']]
                if c['kind'] == 'title':
                    titles[c['i']] += ' other'
                    t, _ = proText(c['recs'], titles=titles)
                else:
                    t = t.replace('\nDocument %d of' % (c['i'] + 1), '\nDocument %d of' % (c['i'] + 77))
                put('f.txt', t)
                keep = ids[:c['i']]
            recs, err = proQuestParser('f.txt')
            expect(err is not None, 'the damage is not reported', c['kind'])
            got = {r.id: r for r in recs}
            for i, r in zip(ids, c['recs']):
                if i in keep:
                    expect(i in got, 'a record before the problem is lost', i)
                    sameRec(got[i], proFieldsOf(r), 'record ' + i)


# ------------------------------------------------------------------ detection
def clean(s):
    return s.replace('VR 1.0', 'VR')


@prop('P07').variant('formats', 2)
class P07:
    def gen(rng, H):
        k = rng.choice(['wos', 'med', 'sco', 'pro'])
        n = rng.randint(1, 2)
        name = rng.choice(['f.txt', 'x.isi', 'y.csv', 'noext', 'z.medline', 'a.b.c'])
        if k == 'wos':
            t = wosText([wosRec(rng, H, i) for i in range(n)])[0]
            if rng.random() < .5:
                t = '\ufeff' + t
            enc = 'utf-8'
        elif k == 'med':
            t = clean(medText([medRec(rng, H, i) for i in range(n)], rng.choice(['', '\n']))); enc = 'latin-1'
        elif k == 'sco':
            t = clean(scoText(dict(recs=[[cell(rng, H) for _ in range(43)] for _ in range(n)], hdr=rng.choice(['std', 'perm', 'extra', 'less']), pseed=rng.randint(0, 99)))[0]); enc = 'utf-8'
        else:
            t = proText([proRec(rng, H, i) for i in range(n)])[0]; enc = 'utf-8'
        return dict(kind=k, name=name, text=t, enc=enc)

    def run(c):
        from metaknowledge.fileHandlers import recordHandlers
        with tmpdir():
            put(c['name'], c['text'], c['enc'])
            hits = [h.type for h in recordHandlers[:-1] if h.detector(c['name'])]
            want = {'wos': 'WOSRecord', 'med': 'MedlineRecord', 'sco': 'ScopusRecord', 'pro': 'ProQuestRecord'}[c['kind']]
            same(hits, [want], 'detectors that recognise the file')
            C = mk().RecordCollection(c['name'])
            expect(len(C) > 0 and all(type(r).__name__ == want for r in C), 'records of the file', [type(r).__name__ for r in C])


@prop('P07').variant('others', 1)
class P07b:
    def gen(rng, H):
        m = rng.random()
        if m < .2:
            b = rng.choice([b'', b'\n', b'\xff\xfe', b'\xef\xbb\xbf', b'\n\n\n', b'\x00', b'\xef\xbb', b'_' * 60 + b'\n', b'_' * 60 + b'\n\n', b'PMID', b'\nPMID', b'PMID-', b'FN X\nVR', b'FN\nXX\nYY\nVR 1.0\n',
                            b'\xef\xbb\xbfAuthors,Title,Year\n', b'_' * 60 + b'\n\nReport', b'\n\n\nPMID- 3\n', b' PMID- 1\n'])
        elif m < .6:
            b = bytes(rng.randint(0, 255) for _ in range(H.size(rng, 20, 300)))
        else:
            b = '\n'.join(rng.choice(WORD + ['a,b,c', 'id,name', '1,2']) for _ in range(rng.randint(0, 9))).encode()
            if rng.random() < .4:
                i = rng.randint(0, len(b)); b = b[:i] + b'\xff\x80' + b[i:]
        return b.hex()

    def run(h):
        from metaknowledge.fileHandlers import recordHandlers
        from metaknowledge.mkExceptions import mkException
        with tmpdir():
            b = bytes.fromhex(h)
            t = b.decode('latin-1')
            ls = t.replace('\r\n', '\n').replace('\r', '\n').split('\n')
            if any('VR 1.0' in l for l in ls[:3]) or any(l.startswith('PMID- ') for l in ls[:2]):
                raise Skip
            open('f', 'wb').write(b)
            for hd in recordHandlers[:-1]:
                r = hd.detector('f')
                expect(r is False, 'detector of %s accepts a foreign file' % hd.type, b[:40])
            raises(mkException, lambda: mk().RecordCollection('f'), 'collection made from a foreign file')
