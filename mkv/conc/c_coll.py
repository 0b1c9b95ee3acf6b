"""S01-S05: collections as sets"""
import collections, copy, json
from .lib import *

OPS = ['|', '&', '-', '^']


def gitem(i):
    """a grant"""
    from metaknowledge.grants import FallbackGrant
    return FallbackGrant('orig%d' % i, collections.OrderedDict(a=str(i), b='x'), sFile='f.csv', sLine=i)


def build(case, sel, meta):
    M = mk()
    if case['kind'] == 'grant':
        C = M.GrantCollection([gitem(i) for i in sel], quietStart=True)
    else:
        C = RC([case['recs'][i] for i in sel])
    if meta[0]:
        C.bad = True
        C.errors = dict(meta[1])
    return C


def universe(rng, H, n=None):
    n = H.size(rng, 8, 60) + 1 if n is None else n
    recs = wosList(rng, H, n, rich=False)
    for r in recs:
        if rng.random() < .08:
            del r['UT']
    return recs


def pick(rng, n):
    m = rng.random()
    if m < .1:
        return []
    if m < .2:
        return list(range(n))
    return [i for i in range(n) if rng.random() < rng.choice([.2, .5, .8])]


def meta(rng, H):
    keys = ['/a/f1.txt', '/a/f2.txt', 'x']
    return [rng.random() < .45, {H.word(rng, keys): 'e%d' % rng.randint(0, 9) for _ in range(rng.randint(0, 3))}]


def apply(op, a, b):
    return {'|': lambda: a | b, '&': lambda: a & b, '-': lambda: a - b, '^': lambda: a ^ b}[op]()


def iapply(op, a, b):
    if op == '|':
        a |= b
    elif op == '&':
        a &= b
    elif op == '-':
        a -= b
    else:
        a ^= b
    return a


def snap(C):
    return (set(C), C.bad, dict(C.errors), len(C))


def ctor(kind):
    return mk().GrantCollection if kind == 'grant' else mk().RecordCollection


@prop('S01').variant('operators', 6)
class S01:
    def gen(rng, H):
        recs = universe(rng, H)
        n = len(recs)
        a, b = pick(rng, n), pick(rng, n)
        if rng.random() < .15:
            b = list(a)
        return dict(kind=rng.choice(['rec', 'rec', 'grant']), recs=recs, a=a, b=b, ma=meta(rng, H), mb=meta(rng, H),
                    op=rng.choice(OPS), inplace=rng.random() < .5, selfpair=rng.random() < .08,
                    pre=[[rng.choice(['add', 'discard', 'pop', 'ior', 'copy']), rng.randint(0, n - 1)] for _ in range(rng.choice([0, 0, 1, 3]))])

    def run(c):
        A, B = build(c, c['a'], c['ma']), build(c, c['b'], c['mb'])
        for what, i in c['pre']:
            item = gitem(i) if c['kind'] == 'grant' else wos(c['recs'][i])
            if what == 'add':
                A.add(item)
            elif what == 'discard':
                A.discard(item)
            elif what == 'pop' and len(A):
                A.pop()
            elif what == 'copy':
                A = A.copy()
            elif what == 'ior':
                A |= ctor(c['kind'])([item], quietStart=True)
        if c['selfpair']:
            B = A
        sa, sb = snap(A), snap(B)
        want = apply(c['op'], sa[0], sb[0])
        if c['inplace']:
            A0 = A
            R = iapply(c['op'], A, B)
            expect(R is A0, 'the updating form must give the left operand')
            if B is not A:
                same(snap(B), sb, 'right operand after the update')
        else:
            R = apply(c['op'], A, B)
            same(snap(A), sa, 'left operand')
            same(snap(B), sb, 'right operand')
            expect(type(R) is type(A), 'type of the result', type(R))
            expect(R is not A and R is not B, 'result is an operand')
        same(set(R), want, 'items of the result')
        same(len(R), len(want), 'length of the result')
        for i in list(want):
            expect(i in R, 'member not found', i)
        if sa[1] or sb[1]:
            expect(R.bad, 'result of a bad operand is not bad')
            w = dict(sa[2]); w.update(sb[2])
            same(dict(R.errors), w, 'errors of the result')
        else:
            expect(not R.bad, 'result is bad but no operand is')
            expect(not R.errors, 'result has errors but no operand is bad', R.errors)
        # no shared storage
        if not c['inplace']:
            extra = gitem(10 ** 6) if c['kind'] == 'grant' else wos({'UT': ['WOS:extra'], 'TI': ['extra']})
            R.add(extra); R.errors['new'] = 'new'
            for i in list(want):
                R.discard(i)
            same(snap(A), sa, 'left operand after changing the result')
            same(snap(B), sb, 'right operand after changing the result')
            sr = snap(R)
            A.add(extra); B.add(extra); A.errors['q'] = 1; B.errors['q'] = 1
            same(snap(R), sr, 'result after changing the operands')
        elif B is not A:
            sr = snap(R)
            extra = gitem(10 ** 6) if c['kind'] == 'grant' else wos({'UT': ['WOS:extra'], 'TI': ['extra']})
            B.add(extra); B.errors['q'] = 1
            same(snap(R), sr, 'left operand after changing the right one')


@prop('S01').variant('chains', 1)
class S01b:
    """several operations in a row against plain sets"""
    def gen(rng, H):
        recs = universe(rng, H)
        n = len(recs)
        return dict(kind='rec', recs=recs, cols=[pick(rng, n) for _ in range(3)],
                    ops=[[rng.choice(OPS), rng.random() < .5, rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2)] for _ in range(rng.randint(1, 8))])

    def run(c):
        recs = [wos(r) for r in c['recs']]
        cols = [mk().RecordCollection([recs[i] for i in s], quietStart=True) for s in c['cols']]
        mod = [set(recs[i] for i in s) for s in c['cols']]
        for op, inpl, i, j, k in c['ops']:
            if inpl:
                cols[i] = iapply(op, cols[i], cols[j])
                mod[i] = iapply(op, mod[i], set(mod[j]))
            else:
                cols[k] = apply(op, cols[i], cols[j])
                mod[k] = apply(op, mod[i], mod[j])
                if i == k or j == k:
                    pass
            for q in range(3):
                same(set(cols[q]), mod[q], 'collection %d after %s' % (q, op))
                same(len(cols[q]), len(mod[q]), 'length')


@prop('S02').variant('history', 4)
class S02:
    def gen(rng, H):
        recs = universe(rng, H)
        n = len(recs)
        ops = []
        for _ in range(H.size(rng, 12, 40)):
            ops.append([rng.choice(['add', 'add', 'discard', 'remove', 'pop', 'peek', 'copy', 'clear', 'addbad', 'swapcopy', 'in']), rng.randint(0, n - 1)])
        return dict(kind=rng.choice(['rec', 'rec', 'grant']), recs=recs, a=pick(rng, n), ops=ops, m=meta(rng, H))

    def run(c):
        from metaknowledge.mkExceptions import CollectionTypeError
        C = build(c, c['a'], c['m'])
        items = [gitem(i) for i in range(len(c['recs']))] if c['kind'] == 'grant' else [wos(r) for r in c['recs']]
        model = set(items[i] for i in c['a'])
        others = []
        for op, i in c['ops']:
            it = items[i]
            before = set(model)
            if op == 'add':
                C.add(it); model.add(it)
            elif op == 'discard':
                C.discard(it); model.discard(it)
            elif op == 'remove':
                if it in model:
                    C.remove(it); model.remove(it)
                else:
                    raises(KeyError, lambda: C.remove(it), 'remove of a missing item')
            elif op == 'pop':
                if model:
                    x = C.pop()
                    expect(x in model, 'pop gave something that was not a member', x)
                    model.remove(x)
                else:
                    raises(KeyError, C.pop, 'pop of an empty collection')
            elif op == 'peek':
                x = C.peek()
                expect((x in model) if model else x is None, 'peek', x)
            elif op == 'clear':
                C.clear(); model.clear()
            elif op == 'addbad':
                for wrong in ('text', 3, None, [it], mk().Citation('A B, 1999, X')):
                    raises(CollectionTypeError, lambda: C.add(wrong), 'adding %r' % (type(wrong),))
            elif op in ('copy', 'swapcopy'):
                D = C.copy()
                expect(type(D) is type(C) and D == C and not D != C and hash(D) == hash(C), 'a copy differs from the original')
                same(dict(D.errors), dict(C.errors), 'errors of the copy')
                same(bool(D.bad), bool(C.bad), 'badness of the copy')
                if op == 'swapcopy':
                    C, D = D, C
                others.append((D, set(model), dict(D.errors), D.bad))
                if len(others) > 1:
                    C.errors['k%d' % len(others)] = 'v'
            same(set(C), model, 'members after ' + op)
            same(len(C), len(model), 'length after ' + op)
            same(len(list(C)), len(model), 'number of iterated items after ' + op)
            for x in items:
                expect((x in C) == (x in model), 'membership after ' + op, x)
            for D, m, e, b in others:
                same(set(D), m, 'a copy changed after ' + op)
                same(dict(D.errors), e, 'errors of a copy changed after ' + op)
                same(D.bad, b, 'badness of a copy changed after ' + op)


@prop('S02').variant('equality', 1)
class S02b:
    def gen(rng, H):
        recs = universe(rng, H)
        n = len(recs)
        a = pick(rng, n)
        b = list(a) if rng.random() < .4 else pick(rng, n)
        rng.shuffle(b)
        if b and rng.random() < .3:
            b.pop()
        return dict(kind='rec', recs=recs, a=a, b=b, ma=meta(rng, H), mb=meta(rng, H))

    def run(c):
        A, B = build(c, c['a'], c['ma']), build(c, c['b'], c['mb'])
        A.name, B.name = 'one', 'two'
        want = set(A) == set(B)
        same(A == B, want, 'equality')
        same(B == A, want, 'equality (swapped)')
        same(A != B, not want, 'inequality')
        expect(A == A and not A != A, 'reflexivity')
        if want:
            same(hash(A), hash(B), 'hashes of equal collections')
        expect(not A == set(A) and A != 3 and A != None, 'equal to something of another kind')
        G = mk().GrantCollection(quietStart=True)
        expect(A != G and not A == G, 'equal to a collection of another kind')


@prop('S03').variant('chunks')
class S03:
    def gen(rng, H):
        n = H.size(rng, 12, 130, .12)
        k = rng.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, 7, H.int(rng, 1, 40)])
        return dict(n=n, k=k, grant=rng.random() < .2, bad=rng.random() < .2)

    def run(c):
        if c['grant']:
            items = [gitem(i) for i in range(c['n'])]
            C = mk().GrantCollection(items, quietStart=True)
        else:
            items = [wos({'UT': ['WOS:%d' % i], 'TI': ['t%d' % i]}) for i in range(c['n'])]
            if c['bad'] and items:
                items[0] = wos({'TI': ['no id']})
            C = mk().RecordCollection(items, quietStart=True)
        orig = set(items)
        for how in ('chunk', 'split'):
            parts = C.chunk(c['k']) if how == 'chunk' else C.split(c['k'])
            expect(isinstance(parts, list) and all(type(p) is type(C) for p in parts), how + ': not a list of collections', parts)
            seen = set()
            for i, p in enumerate(parts):
                s = set(p)
                same(len(p), len(s), how + ': length of a piece')
                expect(0 < len(s) <= c['k'], how + ': size of piece %d' % i, len(s))
                if i < len(parts) - 1:
                    same(len(s), c['k'], how + ': size of piece %d of %d' % (i, len(parts)))
                expect(not (s & seen), how + ': pieces overlap')
                seen |= s
            same(seen, orig, how + ': union of the pieces')
            if how == 'chunk':
                same(set(C), orig, 'the collection after chunk')
                if parts:
                    parts[0].clear()
                    same(set(C), orig, 'the collection after clearing a chunk')
            else:
                same(len(C), 0, 'the collection after split')
                same(set(C), set(), 'the collection after split')


@prop('S04').variant('ids')
class S04:
    def gen(rng, H):
        n = H.size(rng, 8, 60)
        recs = wosList(rng, H, n, rich=False)
        for r in recs:
            if rng.random() < .1:
                del r['UT']
            elif rng.random() < .1:
                r['UT'] = [H.word(rng, ['WOS:000001 ', 'wos:000001', 'WOS:00000', '', 'WOS:0000011', ' ', 'None'])]
        ids = [r['UT'][0] for r in recs if 'UT' in r] + ['WOS:Missing', 'WOS:000000', '', 'nope', 'WOS:000001', 'WOS:0000011', 'WOS:00000', 'wos:000001']
        return dict(recs=recs, q=[H.word(rng, ids, .1) for _ in range(6)], how=[rng.choice(['remove', 'discard']) for _ in range(6)], m=meta(rng, H))

    def run(c):
        C = RC(c['recs'])
        if c.get('m') and c['m'][0]:
            C.bad = True; C.errors = dict(c['m'][1])
        state = (C.bad, dict(C.errors))
        model = set(C)
        for q, how in zip(c['q'], c['how']):
            hit = [r for r in model if r.id == q]
            same(bool(C.containsID(q)), bool(hit), 'containsID(%r)' % q)
            expect(isinstance(C.containsID(q), bool), 'containsID is no bool')
            g = C.getID(q)
            if hit:
                expect(any(g is h for h in hit), 'getID(%r)' % q, g)
            else:
                expect(g is None, 'getID(%r) of a missing ID' % q, g)
            same(set(C), model, 'the collection after looking up')
            if how == 'remove' and not hit:
                raises(KeyError, lambda: C.removeID(q), 'removeID(%r)' % q)
            else:
                (C.removeID if how == 'remove' else C.discardID)(q)
            now = set(C)
            gone = model - now
            same((C.bad, C.errors), state, 'error marks of the collection after %sID' % how)
            expect(now <= model, 'removing added something')
            same(len(gone), 1 if hit else 0, '%sID(%r): number of records removed' % (how, q))
            expect(all(x.id == q for x in gone), '%sID(%r) removed another record' % (how, q), gone)
            model = now


@prop('S05').variant('filters', 3)
class S05:
    def gen(rng, H):
        n = H.size(rng, 9, 80)
        recs = wosList(rng, H, n, rich=False)
        for r in recs:
            if rng.random() < .2:
                del r['UT']
        ys = [int(r['PY'][0]) for r in recs if 'PY' in r] or [2000]
        a = rng.choice(ys) + rng.choice([-1, 0, 0, 1]); b = rng.choice(ys) + rng.choice([-1, 0, 0, 1])
        if rng.random() < .85 and a > b:
            a, b = b, a
        return dict(recs=recs, a=a, b=b, pt=rng.choice(['J', 'B', 'j', 'S', 'X', 'b']), invert=rng.random() < .5, dropBad=rng.random() < .5,
                    miss=rng.choice([None, None, True, False]), m=meta(rng, H), kind='rec', mark=[i for i in range(n) if rng.random() < .1] if rng.random() < .4 else [])

    def run(c):
        C = build(dict(kind='rec', recs=c['recs']), range(len(c['recs'])), c['m'])
        for i, r in enumerate(sorted(C, key=lambda r: str(r._fieldDict))):
            if i in c['mark']:
                r.bad = True    # marked bad by the caller: no error is recorded
        all_ = set(C); s0 = snap(C)
        badset = {r for r in all_ if r.bad}
        B = C.badEntries()
        expect(type(B) is type(C), 'type of the bad entries')
        same(set(B), badset, 'bad entries')
        same(snap(C), s0, 'the collection after taking the bad entries')
        tags = set()
        for r in all_:
            tags |= set(r)
        same(set(C.tags()), tags, 'tags')
        same(snap(C), s0, 'the collection after tags')
        # years
        kw = {} if c['miss'] is None else {'dropMissingYears': c['miss']}
        if c['miss'] is not False:
            Y = C.yearSplit(c['a'], c['b'], **kw)
            want = {r for r in all_ if 'PY' in r._fieldDict and c['a'] <= int(r._fieldDict['PY'][0]) <= c['b']}
            same(set(Y), want, 'yearSplit(%d, %d)' % (c['a'], c['b']))
            same(snap(C), s0, 'the collection after yearSplit')
        # publication types
        D = C.copy()
        have = {r for r in all_ if not (c['dropBad'] and r.bad)}
        if all('PT' in r._fieldDict for r in have):
            D.dropNonJournals(ptVal=c['pt'], dropBad=c['dropBad'], invert=c['invert'])
            want = {r for r in have if (r._fieldDict['PT'][0] == c['pt'].upper()) != c['invert']}
            same(set(D), want, 'dropNonJournals')
            same(snap(C), s0, 'a collection whose copy was filtered')
        D = C.copy()
        D.dropBadEntries()
        same(set(D), all_ - badset, 'records left after dropping the bad entries')
        expect(not D.bad and not D.errors, 'error marks after dropping the bad entries')
        same(snap(C), s0, 'a collection whose copy was filtered')


@prop('S05').variant('grants', 1)
class S05g:
    def gen(rng, H):
        return dict(rows=[['' if rng.random() < .25 else 'k%d' % rng.randint(0, 6), str(i)] for i in range(H.size(rng, 8))])

    def run(c):
        from metaknowledge.grants import NSERCGrant
        gs = [NSERCGrant('o%d' % i, collections.OrderedDict(Cle=k, x=v), 'f', i) for i, (k, v) in enumerate(c['rows'])]
        C = mk().GrantCollection(gs, quietStart=True)
        all_ = set(C)
        bad = {g for g in all_ if g.bad}
        same(set(C.badEntries()), bad, 'bad grants')
        same(set(C.tags()), set().union(*[set(g) for g in all_]) if all_ else set(), 'tags')
        C.dropBadEntries()
        same(set(C), all_ - bad, 'grants left')
