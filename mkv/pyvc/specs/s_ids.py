"""S04, S05: look-up by ID, filters"""
from ._lib import *


def conf(E): rec_conf(E)


def setup(E):
    a, A = collection(E, 'a')
    x = Opq(const('wanted'), 'any')
    return [a, x], {}, dict(a=a, A=A, x=x.t)


u = const('u?p')


def some(A, x): return Exists([u], And(Select(A, u), idof(u) == x), patterns=[Select(A, u)])
def none(A, x): return ForAll([u], Implies(Select(A, u), idof(u) != x), patterns=[Select(A, u)])


@contract(MC + ':CollectionWithIDs.containsID', ['S04'])
def containsID(V):
    names = ['true only with a member of that ID', 'false only without', 'nothing changes']

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        r = boolof(o[1])
        return [(names[0], Implies(r, some(c['A'], c['x']))), (names[1], Implies(Not(r), none(c['A'], c['x']))), (names[2], frame(E, c, c['a'], c['A'], 'a'))]
    V.run('', setup, post, names, conf)


@contract(MC + ':CollectionWithIDs.getID', ['S04'])
def getID(V):
    names = ['gives a member with the ID', 'nothing only without one', 'nothing changes']

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        g = [(names[2], frame(E, c, c['a'], c['A'], 'a'))]
        if o[1] is None: return g + [(names[1], none(c['A'], c['x']))]
        t = E.box(o[1])
        return g + [(names[0], And(Select(c['A'], t), idof(t) == c['x']))]
    V.run('', setup, post, names, conf)


def taking(q, raises):
    @contract(MC + ':CollectionWithIDs.' + q, ['S04'])
    def spec(V):
        names = ['takes away exactly one member with the ID', 'without a match nothing changes']

        def post(E, c, o):
            A, R = c['A'], items(E, c['a'])
            if o[0] == 'return':
                w = const('w?p')
                removed = Exists([w], And(Select(A, w), idof(w) == c['x'], ForAll([u], Select(R, u) == And(Select(A, u), u != w))), patterns=[Select(A, w)])
                rest = frame(E, c, c['a'], A, 'a', ('_collection',))
                if raises: return [(names[0], And(removed, rest))]
                return [(names[0], And(Or(removed, And(none(A, c['x']), R == A)), rest)), (names[1], Implies(none(A, c['x']), R == A))]
            if not raises: return [(names[0], FALSE)]
            return [(names[1], And(none(A, c['x']), z3.BoolVal(o[1].cls == 'KeyError'), frame(E, c, c['a'], A, 'a')))]
        V.run('', setup, post, names, conf)


taking('removeID', True)
taking('discardID', False)


@contract(MC + ':CollectionWithIDs.badEntries', ['S05'])
def badEntries(V):
    names = ['exactly the bad items', 'nothing changes']

    def setup(E):
        a, A = collection(E, 'a')
        return [a], {}, dict(a=a, A=A)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        R = items(E, o[1])
        return [(names[0], And(ForAll([u], Select(R, u) == And(Select(c['A'], u), badof(u))), z3.BoolVal(o[1].a != c['a'].a))), (names[1], frame(E, c, c['a'], c['A'], 'a'))]
    V.run('', setup, post, names, conf)


@contract(MC + ':CollectionWithIDs.dropBadEntries', ['S05'])
def dropBad(V):
    names = ['leaves exactly the good items', 'clears the error marks']

    def setup(E):
        a, A = collection(E, 'a')
        return [a], {}, dict(a=a, A=A)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        R = items(E, c['a']); d, v = errs(E, c['a'])
        return [(names[0], ForAll([u], Select(R, u) == And(Select(c['A'], u), Not(badof(u))))), (names[1], And(Not(boolof(E.get(c['a']).attrs['bad'])), d == EMPTY))]
    V.run('', setup, post, names, conf)


@contract(MC + ':CollectionWithIDs.tags', ['S05'])
def tags(V):
    names = ['holds the tags of every item', 'holds nothing else', 'nothing changes']

    def setup(E):
        a, A = collection(E, 'a')
        return [a], {}, dict(a=a, A=A)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        R = models.setlike(E, o[1])[1]; w = const('w?p')
        return [(names[0], ForAll([w, u], Implies(And(Select(c['A'], w), Select(keysof(w), u)), Select(R, u)))),
                (names[1], ForAll([u], Implies(Select(R, u), Exists([w], And(Select(c['A'], w), Select(keysof(w), u)), patterns=[Select(c['A'], w)])))), (names[2], frame(E, c, c['a'], c['A'], 'a'))]
    V.run('', setup, post, names, conf)


@contract(RC + ':RecordCollection.yearSplit', ['S05'])
def yearSplit(V):
    names = ['exactly the records within the years', 'the collection is unchanged']
    y1, y2 = const('y1', I), const('y2', I)

    def setup(E):
        a, A = collection(E, 'a')
        Y = E.lit('year')
        # a year is a number or missing
        E.st.pc.append(ForAll([u], Implies(And(Select(A, u), has(u, Y)), Or(kind(fld(u, Y)) == K_INT, kind(fld(u, Y)) == K_NONE)), patterns=[has(u, Y)]))
        E.fact(kind(NONE) == K_NONE)
        return [a, y1, y2], {}, dict(a=a, A=A, Y=Y)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        R = items(E, o[1]); Y = c['Y']; y = ui(fld(u, Y))
        inside = And(Select(c['A'], u), has(u, Y), kind(fld(u, Y)) == K_INT, y >= y1, y <= y2)
        return [(names[0], ForAll([u], Select(R, u) == inside)), (names[1], frame(E, c, c['a'], c['A'], 'a'))]
    V.run('', setup, post, names, conf)


@contract(RC + ':RecordCollection.dropNonJournals', ['S05'])
def dropNon(V):
    names = ['keeps exactly the wanted publication type']
    for bad in (False, True):
        for inv in (False, True):
            def setup(E):
                a, A = collection(E, 'a')
                E.st.pc.append(ForAll([u], Implies(Select(A, u), has(u, E.lit('pubType'))), patterns=[Select(A, u)]))
                return [a, Opq(const('wanted'), 'str')], {'dropBad': bad, 'invert': inv}, dict(a=a, A=A)

            def post(E, c, o):
                if o[0] != 'return': return [(names[0], FALSE)]
                R = items(E, c['a'])
                w = models.str_method(E, Opq(const('wanted'), 'str'), 'upper', [], {}).t
                t = fld(u, E.lit('pubType'))
                k = And(Select(c['A'], u), t != w if inv else t == w)
                if bad: k = And(k, Not(badof(u)))
                return [(names[0], ForAll([u], Select(R, u) == k))]
            V.run('dropBad=%s invert=%s' % (bad, inv), setup, post, names, conf)
