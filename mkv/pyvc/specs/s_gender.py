"""A11: counts of author genders"""
from ._lib import *

x = const('x?p')
KEYS = ('Male', 'Female', 'Unknown')
num = [z3.Function('names_' + k, U, I) for k in KEYS]


def conf(E):
    rec_conf(E)

    def genders(E, o, *a, **k):
        if a or k != {'_countsTuple': True}:
            if a and a[0] is not True or k not in ({}, {'countsOnly': True}): raise Unsupported('authGenders')
        for f in num: E.fact(f(o.t) >= 0)
        t = tuple(f(o.t) for f in num)
        return t if '_countsTuple' in k else E.alloc(CDict(dict(zip(KEYS, t))))
    E.models['Item'].extra['authGenders'] = genders
    E.notes.add('authGenders gives the three counts of a record (decided by the executed contract)')


@contract(RC + ':RecordCollection.genderStats', ['A11'])
def genderStats(V):
    names = ['the sums of the counts of the records', 'the collection is unchanged', 'no error']

    def setup(E):
        r, S = collection(E, 'a')
        return [r], {}, dict(r=r, S=S)

    def post(E, c, o):
        if o[0] != 'return': return [(names[2], FALSE)]
        d = E.get(o[1])
        if not isinstance(d, CDict) or set(d.items) != set(KEYS): return [(names[0], FALSE)]
        return [(names[0], And(*[E.as_int(d.items[k]) == fold(E, 'set', x, f(x))(c['S']) for k, f in zip(KEYS, num)])), (names[1], frame(E, c, c['r'], c['S'], 'a')), (names[2], TRUE)]
    V.run('', setup, post, names, conf)


NG = 'metaknowledge.genders.nameGender'
GEN, KNOWN = const('genders', z3.ArraySort(U, U)), const('known', UB)
AUTHORS, i, u = const('authors'), const('i?p', I), const('u?p')
gender = z3.Function('gender_of', U, U)


@contract(NG + ':nameStringGender', ['A11'])
def nameStringGender(V):
    names = ['the gender of the first name, or that it is unknown', 'no error']

    def setup(E):
        E.globals[(NG, 'mappingDict')] = E.alloc(Sym(('D', 'U', 'str'), [KNOWN, GEN]))
        return [Opq(const('name'), 'str'), True], {}, {}

    def post(E, c, o):
        if o[0] != 'return': return [(names[1], FALSE)]
        parts = lambda t, sep: E.call(models.getattr_(E, Opq(t, 'str'), 'split'), [sep])
        p = parts(const('name'), ', ')
        f = parts(seqat(p.t, z3.IntVal(1)), ' ')
        n = E.key(E.call(models.getattr_(E, Opq(seqat(f.t, z3.IntVal(0)), 'str'), 'title'), []))
        return [(names[0], E.box(o[1]) == If(And(seqlen(p.t) > 1, Select(KNOWN, n)), Select(GEN, n), E.lit('Unknown'))), (names[1], TRUE)]
    V.run('', setup, post, names, rec_conf)


@contract(NG + ':recordGenders', ['A11'])
def recordGenders(V):
    names = ['exactly the authors of the record', 'each with the gender of the name', 'no error']

    def setup(E):
        E.calls[NG + '.nameStringGender'] = lambda E, a, kw: Opq(gender(E.key(a[0])), 'str') if kw == {'noExcept': True} else E.throw('GenderException')
        E.fact(kind(fld(const('record'), E.lit('authorsFull'))) == K_LIST)
        return [Opq(const('record'), 'Item')], {}, {}

    def post(E, c, o):
        if o[0] != 'return': return [(names[2], FALSE)]
        sh, l = models.place(E, o[1])
        r, t = const('record'), E.lit('authorsFull')
        if sh[0] == 'C': return [(names[0], And(Or(Not(has(r, t)), seqlen(fld(r, t)) == 0), z3.BoolVal(not sh[1]))), (names[1], TRUE), (names[2], TRUE)]
        k = fold(E, 'seq', i, If(seqat(fld(r, t), i) == u, 1, 0))(seqlen(fld(r, t)))
        return [(names[0], ForAll([u], Select(l[0], u) == And(has(r, t), Exists([i], And(i >= 0, i < seqlen(fld(r, t)), seqat(fld(r, t), i) == u), patterns=[seqat(fld(r, t), i)])))),
                (names[1], ForAll([u], Implies(Select(l[0], u), Select(l[1], u) == gender(u) if len(l) > 1 else FALSE))), (names[2], TRUE)]
    V.run('', setup, post, names, rec_conf)
