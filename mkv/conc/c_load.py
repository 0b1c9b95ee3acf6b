"""K01, K02: building collections from files, directories, iterables and caches"""
import os, pickle
from .lib import *
from . import c_parse as P


def mediaText(kind, rng, H, base):
    if kind == 'wos':
        n = rng.choice([0, 1, 1, 2, 3])
        return P.wosText([P.wosRec(rng, H, base + i) for i in range(n)])[0], 'utf-8', ['WOS:%04d' % (base + i) for i in range(n)]
    n = rng.randint(1, 3)
    if kind == 'med':
        rs = [P.medRec(rng, H, base + i) for i in range(n)]
        return P.clean(P.medText(rs)), 'latin-1', ['PMID:' + P.medFieldsOf(r)['PMID'][0] for r in rs]
    if kind == 'pro':
        rs = [P.proRec(rng, H, base + i) for i in range(n)]
        return P.proText(rs)[0], 'utf-8', ['PROQUEST:' + dict(P.proFieldsOf(r))['ProQuest document ID'][0] for r in rs]
    t, want = P.scoText(dict(recs=[[P.cell(rng, H) for _ in range(43)] for _ in range(n)], hdr='std', pseed=0))
    return P.clean(t), 'utf-8', ['EID:' + d['EID'] for d in want]


def genDir(rng, H):
    exts = ['.txt', '.isi', '.csv', '', '.TXT', '.bak']
    files = []
    for i in range(H.size(rng, 4, 9)):
        k = rng.choice(['wos', 'wos', 'wos', 'med', 'sco', 'pro', 'damaged', 'foreign', 'damaged'])
        base = rng.choice([0, 5, 10, 20, 20])
        if k == 'foreign':
            t, enc, ids = rng.choice(['', 'hello\nworld\n', 'a,b\n1,2\n']), 'utf-8', []
        elif k == 'damaged':
            rs = [P.wosRec(rng, H, 100 * (i + 1) + j) for j in range(rng.randint(1, 3))]
            t, head, ends = P.wosText(rs)
            j = rng.randrange(len(rs))
            t = t[:ends[j] - 2] + ('x' if rng.random() < .5 else '')
            if t[-1:] == 'x':
                t = t[:-1] + 'ZQ cut here'
            ids = ['WOS:%04d' % (100 * (i + 1) + q) for q in range(j)]
            enc = 'utf-8'
        else:
            t, enc, ids = mediaText(k, rng, H, base)
        files.append(dict(name='f%d%s' % (i, rng.choice(exts)), text=t, enc=enc, ids=ids, kind=k))
    return files


def writeAll(files):
    os.mkdir('d')
    for f in files:
        P.put(os.path.join('d', f['name']), f['text'], f['enc'])


@prop('K01').variant('directory', 3)
class K01:
    def gen(rng, H):
        return dict(files=genDir(rng, H), ext=rng.choice(['', '', '.txt', 'txt', '.isi', 'xt']), cached=rng.random() < .2, sub=rng.random() < .3, verbose=rng.random() < .05)

    def run(c):
        M = mk()
        from metaknowledge.mkExceptions import mkException
        with tmpdir() as top:
            writeAll(c['files'])
            if c['sub']:
                os.mkdir('d/sub.txt'); P.put('d/sub.txt/g.txt', P.wosText([[['PT', ['J']], ['UT', ['WOS:sub']]]])[0])
            use = [f for f in c['files'] if f['name'].endswith(c['ext'])]
            if c['ext'] and any(f['kind'] == 'foreign' for f in use):
                raises(mkException, lambda: M.RecordCollection('d', extension=c['ext'], cached=c['cached']), 'a foreign file with the wanted extension')
                return
            C = M.RecordCollection('d', extension=c['ext'], cached=c['cached'])
            want = {}
            for f in use:
                for i in f['ids']:
                    want.setdefault(i, []).append(f['name'])
            got = {}
            for R in C:
                if R.bad:
                    continue
                expect(R.id not in got, 'two equal records', R.id)
                got[R.id] = R
            extra = set(got) - set(want)
            dmg = {f['name'] for f in use if f['kind'] == 'damaged'}
            same(set(want) - set(got), set(), 'records of the files that are missing')
            for i in extra:
                raise AssertionError('record of no file: ' + i)
            for R in C:
                expect(os.path.basename(R.sourceFile) in {f['name'] for f in use}, 'record from a file that was not asked for', R.sourceFile)
            reported = {os.path.basename(k) for k in C.errors}
            badFiles = {os.path.basename(R.sourceFile) for R in C if R.bad}
            expect(reported <= dmg, 'error for a file without a problem', reported, dmg)
            expect(dmg <= reported | badFiles, 'damaged file neither reported nor giving a bad entry', dmg, reported)
            same(bool(C.bad), bool(reported), 'bad mark of the collection')
            for k in C.errors:
                same(os.path.dirname(os.path.realpath(k)), os.path.realpath(os.path.join(top, 'd')), 'directory of the error key')


@prop('K01').variant('single files', 1)
class K01a:
    def gen(rng, H):
        fs = genDir(rng, H)
        while not fs:
            fs = genDir(rng, H)
        return dict(f=fs[0], ext=rng.choice(['', '', '.txt']))

    def run(c):
        M = mk()
        from metaknowledge.mkExceptions import mkException
        f = c['f']
        with tmpdir():
            P.put(f['name'], f['text'], f['enc'])
            mkc = lambda: M.RecordCollection(f['name'], extension=c['ext'])
            if not f['name'].endswith(c['ext']) or f['kind'] == 'foreign':
                return raises(mkException, mkc, 'file with the wrong extension or content')
            C = mkc()
            same({R.id for R in C if not R.bad}, set(f['ids']), 'records of the file')
            if f['kind'] != 'damaged':
                expect(not C.bad and not C.errors, 'an undamaged file gives an error')
            else:
                expect(C.bad or any(R.bad for R in C), 'damage is not reported')
            same(bool(C.bad), bool(C.errors), 'bad mark against errors')
            same({os.path.realpath(k) for k in C.errors}, {os.path.realpath(f['name'])} if C.bad else set(), 'keys of the errors')


@prop('K01').variant('iterables', 2)
class K01b:
    def gen(rng, H):
        recs = wosList(rng, H, rich=False)
        n = len(recs)
        return dict(recs=recs, form=rng.choice(['list', 'tuple', 'set', 'gen', 'iter', 'dict', 'RC', 'map']), name=rng.choice(['', 'x']),
                    alien=rng.choice([None, None, None, 'str', 'int', 'none']), pos=rng.random(), other=wosList(rng, H, rich=False)[:4], grants=rng.random() < .25, cached=rng.random() < .1)

    def run(c):
        M = mk()
        if c['grants']:
            from .c_coll import gitem
            items = [gitem(i) for i in range(len(c['recs']))]; K = M.GrantCollection
        else:
            items = [wos(r) for r in c['recs']]; K = M.RecordCollection
        src = list(items)
        if c['alien'] is not None:
            src.insert(int(c['pos'] * (len(src) + 1)), {'str': 'x', 'int': 3, 'none': None}[c['alien']])
        form = c['form']
        if form == 'RC' and (c['alien'] is not None):
            form = 'list'
        x = {'list': lambda: src, 'tuple': lambda: tuple(src), 'set': lambda: set(src), 'gen': lambda: (i for i in src), 'iter': lambda: iter(src),
             'dict': lambda: {k: 1 for k in src}, 'RC': lambda: K(src, quietStart=True), 'map': lambda: map(lambda y: y, src)}[form]()
        if c['alien'] is not None:
            return raises(Exception, lambda: K(x, name=c['name'], quietStart=True), 'an iterable with something else in it')
        C = K(x, name=c['name'], quietStart=True, cached=c['cached'])
        same(set(C), set(items), 'items of the collection'); same(len(C), len(set(items)), 'length')
        expect(not C.bad and not C.errors, 'collection of good items is bad')
        if form == 'list':
            same(len(src), len(items), 'the list given')
        if form in ('RC', 'set'):
            C.clear()
            same(len(x), len(set(items)), 'the given set after clearing the collection')
            C = K(list(items), quietStart=True)
        if not c['grants']:
            D = RC(c['other'])
            S = C + D
            same(set(S), set(items) | set(D), 'sum of two collections')
            same(set(C), set(items), 'left operand of the sum')
        E = K(quietStart=True)
        same(len(E), 0, 'empty collection')


def stamp(C):
    return sorted((R.id or '', type(R).__name__, R.bad, sorted((k, repr(v)) for k, v in R.items(raw=True)) if hasattr(R, '_computedFields') else sorted((k, repr(v)) for k, v in R.items())) for R in C), \
        C.bad, sorted((k, str(e)) for k, e in C.errors.items())


@prop('K02').variant('histories', 1)
class K02:
    def gen(rng, H):
        acts = []
        for _ in range(rng.randint(1, 5)):
            acts.append(rng.choice(['load', 'load', 'load', 'add', 'remove', 'change', 'truncate', 'garbage', 'empty', 'object', 'name', 'ext', 'chdir', 'load', 'wrongdict', 'version', 'swap']))
        return dict(files=genDir(rng, H), extra=genDir(rng, H)[:2], acts=acts, ext=rng.choice(['', '.txt']), k=rng.random(), r=rng.randint(0, 99), grants=rng.random() < .15)

    def run(c):
        M = mk()
        files = [f for f in c['files'] if f['kind'] != 'foreign']
        rng = random.Random(c['r'])
        if c['grants']:
            files = [dict(name='g%d.csv' % i, text='id,name\n' + ''.join('%d,n%d\n' % (j, i) for j in range(3)), enc='latin-1') for i in range(len(files))]
        K = M.GrantCollection if c['grants'] else M.RecordCollection
        with tmpdir() as top:
            writeAll(files)
            ext, name = c['ext'], ''
            if c['grants']:
                ext = '.csv'
            t = 1000000000.0
            for f in os.listdir('d'):
                os.utime(os.path.join('d', f), (t, t))
            present = [f['name'] for f in files]
            stash = [f for f in c['extra'] if f['kind'] != 'foreign'] if not c['grants'] else []

            def caches():
                return [os.path.join('d', x) for x in os.listdir('d') if x.endswith('DirCache')]

            def load(what):
                plain = stamp(K('d', extension=ext, name=name, quietStart=True))
                got = K('d', extension=ext, name=name, cached=True, quietStart=True)
                same(stamp(got), plain, 'cached load against uncached load (%s)' % what)
                same(bool(got.name), True, 'name')
                if name:
                    same(got.name, name, 'name of the cached collection')
            load('first')
            load('second')
            for a in c['acts']:
                t += 10
                if a == 'add' and stash:
                    f = stash.pop(); nm = 'new%d.txt' % int(t)
                    P.put('d/' + nm, f['text'], f['enc']); os.utime('d/' + nm, (t, t)); present.append(nm)
                elif a == 'swap' and present and stash:
                    nm = rng.choice(present); f = stash.pop(); new = 'swap%d.txt' % int(t)
                    os.remove('d/' + nm); present.remove(nm)
                    P.put('d/' + new, f['text'], f['enc']); os.utime('d/' + new, (t, t)); present.append(new)
                elif a == 'remove' and present:
                    nm = rng.choice(present); present.remove(nm); os.remove('d/' + nm)
                elif a == 'change' and present and not c['grants']:
                    nm = rng.choice(present)
                    P.put('d/' + nm, P.wosText([[['PT', ['J']], ['UT', ['WOS:ch%d' % int(t)]]]])[0])
                    if rng.random() < .5:
                        os.utime('d/' + nm, (t, t))
                    else:
                        os.utime('d/' + nm, (t - 5e8, t - 5e8 + rng.random()))
                elif a in ('truncate', 'garbage', 'empty', 'object', 'wrongdict', 'version'):
                    for x in caches():
                        b = open(x, 'rb').read()
                        if a == 'truncate':
                            b = b[:int(len(b) * c['k'])]
                        elif a == 'garbage':
                            b = bytes(rng.randint(0, 255) for _ in range(40))
                        elif a == 'empty':
                            b = b''
                        elif a == 'object':
                            b = pickle.dumps(rng.choice([1, (1, 2), ({}, 3), None, [], ({'metaknowledge Version': 0}, None)]))
                        else:
                            try:
                                dat, obj = pickle.loads(b)
                                dat['Collection Name'], obj._collection
                            except Exception:
                                continue
                            if a == 'version':
                                dat['metaknowledge Version'] = '0.0.0'
                                obj._collection = set()
                            else:
                                del dat[rng.choice(sorted(dat))]
                                obj._collection = set()
                            b = pickle.dumps((dat, obj))
                        open(x, 'wb').write(b)
                elif a == 'name':
                    name = rng.choice(['one', 'two', ''])
                elif a == 'ext' and not c['grants']:
                    ext = rng.choice(['', '.txt', '.isi', 'txt'])
                elif a == 'chdir':
                    pass
                load(a)
                if rng.random() < .4:
                    load('again')
