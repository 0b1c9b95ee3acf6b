"""A04, A05, A06: citations inside a collection"""
from ._lib import *

u, w, i = const('u?p'), const('w?p'), const('i?p', I)
citesof = z3.Function('citations_of', U, U)
citeof = z3.Function('own_citation', U, U)
CIT = None


class CiteM(Item):
    """a citation: author, journal, year, V, P and misc may be missing; text, badness and anonymity are always there"""
    OPT = ('author', 'journal', 'year', 'V', 'P', 'misc')

    def attr(self, E, o, name):
        if name in self.OPT:
            if not E.choose(z3.Function('cite_has_' + name, U, B)(o.t)): E.throw('AttributeError')
            v = z3.Function('cite_' + name, U, U)(o.t)
            E.fact(kind(NONE) == K_NONE)
            E.fact(Or(v == NONE, kind(v) == (K_INT if name == 'year' else K_STR)))
            return models.unb(E, v)
        return Item.attr(self, E, o, name)


def anon(E, o): return z3.Function('cite_anonymous', U, B)(o.t)


def conf(E):
    rec_conf(E)
    E.globals[('metaknowledge', 'VERBOSE_MODE')] = False
    m = RecordModel()

    def get(E, o, k, default=None):
        if k == 'citations':
            return Opq(citesof(o.t), 'Cites') if E.choose(has(o.t, E.key(k))) else default
        return fget(E, o, k, default)
    m.extra.update(get=get, createCitation=lambda E, o: Opq(citeof(o.t), 'Cite'), isa=lambda E, o, n: n in ('Record', 'Hashable'))
    E.models['Item'] = m
    E.models['Cite'] = CiteM({'original': 'str', 'bad': 'B'}, {'isAnonymous': anon, 'isa': lambda E, o, n: n in ('Citation', 'Hashable')})
    E.models['Cites'] = type('Cites', (models.ListModel,), {'item': 'Cite'})()
    E.notes.add('a record has citations or none; equal citations are the same value (C02)')


def cites(r, x):
    """some citation of r meets x(term)"""
    return And(has(r, CIT_()), Exists([i], And(i >= 0, i < seqlen(citesof(r)), x(seqat(citesof(r), i))), patterns=[seqat(citesof(r), i)]))


_cit = {}


def CIT_(): return _cit['t']


@contract(RC + ':RecordCollection.localCitesOf', ['A05'])
def localCitesOf(V):
    names = ['exactly the records that make the citation', 'the collection is unchanged']
    T = const('wanted')

    def setup(kind_):
        def f(E):
            _cit['t'] = E.lit('citations')
            a, A = collection(E, 'a')
            return [a, Opq(T, kind_)], {}, dict(a=a, A=A)
        return f

    def post(kind_):
        def f(E, c, o):
            A = c['A']
            if o[0] != 'return': return [(names[0], FALSE)]
            S = items(E, o[1])
            key = {'Cite': lambda: T, 'Item': lambda: citeof(T)}.get(kind_)
            fr = (names[1], And(frame(E, c, c['a'], A, 'a'), z3.BoolVal(o[1].a != c['a'].a)))
            if key: return [(names[0], ForAll([u], Select(S, u) == And(Select(A, u), cites(u, lambda x: x == key())))), fr]
            # an ID: a member with it, or nothing
            w2 = const('w2?p')
            found = Exists([w], And(Select(A, w), z3.Function('item_id', U, U)(w) == T, ForAll([u], Select(S, u) == And(Select(A, u), cites(u, lambda x: x == citeof(w))))), patterns=[Select(A, w)])
            none = And(ForAll([w2], Implies(Select(A, w2), z3.Function('item_id', U, U)(w2) != T), patterns=[Select(A, w2)]), S == EMPTY)
            return [(names[0], Or(found, none)), fr]
        return f
    for k, n in (('Cite', 'a citation'), ('Item', 'a record'), ('str', 'an ID')):
        V.run(n, setup(k), post(k), names, conf)


UP = lambda E, v: models.str_method(E, v, 'upper', [], {})


def inside(E, k, v):
    """k in v, for two texts"""
    return boolof(E.contains(v, k)) if hasattr(E, 'contains') else boolof(models.contains(E, v, k))


@contract(RC + ':RecordCollection.citeFilter', ['A06'])
def citeFilter(V):
    names = ['exactly the records with a matching citation', 'the collection is unchanged']
    K = Opq(const('wanted'), 'str')

    def match(E, field, case, x):
        h, v = z3.Function('cite_has_' + field, U, B), z3.Function('cite_' + field, U, U)
        if field == 'all':
            o = Opq(z3.Function('item_original', U, U)(x), 'str')
            return inside(E, K, o) if case else inside(E, UP(E, K), UP(E, o))
        if field == 'anonymous': return z3.Function('cite_anonymous', U, B)(x)
        if field == 'bad': return z3.Function('item_bad', U, B)(x)
        s = Opq(v(x), 'str')
        isstr = kind(v(x)) == K_STR
        if field == 'author': return And(h(x), isstr, inside(E, UP(E, K), UP(E, s)))
        if field == 'year': return And(h(x), v(x) == bi(models.to_int(E, K)))
        return And(h(x), isstr, inside(E, UP(E, K), s))
    for field in ('all', 'author', 'journal', 'year', 'V', 'P', 'misc', 'anonymous', 'bad'):
        for rev in (False, True):
            for case in ((False, True) if field == 'all' else (False,)):
                def setup(E, field=field, rev=rev, case=case):
                    _cit['t'] = E.lit('citations')
                    a, A = collection(E, 'a')
                    if field == 'year': E.st.pc.append(z3.Function('py.isnumeral', U, B)(K.t))
                    return [a, K, field, rev, case], {}, dict(a=a, A=A)

                def post(E, c, o, field=field, rev=rev, case=case):
                    A = c['A']
                    if o[0] != 'return': return [(names[0], FALSE)]
                    S = items(E, o[1])
                    hit = cites(u, lambda x: match(E, field, case, x))
                    return [(names[0], ForAll([u], Select(S, u) == And(Select(A, u), Not(hit) if rev else hit))), (names[1], And(frame(E, c, c['a'], A, 'a'), z3.BoolVal(o[1].a != c['a'].a)))]
                V.run('%s%s%s' % (field, ' reversed' if rev else '', ' case' if case else ''), setup, post, names, conf)


@contract(RC + ':RecordCollection.localCiteStats', ['A04'])
def localCiteStats(V):
    names = ['one key for every value that occurs', 'its value is the number of occurrences', 'the collection is unchanged']
    for kt in ('citation', 'journal', 'year', 'author'):
        def setup(E, kt=kt):
            _cit['t'] = E.lit('citations')
            a, A = collection(E, 'a')
            return [a, False, kt], {}, dict(a=a, A=A)

        def post(E, c, o, kt=kt):
            A = c['A']
            if o[0] != 'return': return [(n, FALSE) for n in names]
            d = models.tosym(E, E.st.heap[o[1].a])
            x = seqat(citesof(w), i)
            one = x == u if kt == 'citation' else And(z3.Function('cite_has_' + kt, U, B)(x), z3.Function('cite_' + kt, U, U)(x) != NONE, z3.Function('cite_' + kt, U, U)(x) == u)
            inner = fold(E, 'seq', i, z3.If(one, 1, 0))
            tot = fold(E, 'set', w, z3.If(has(w, CIT_()), inner(seqlen(citesof(w))), 0))(A)
            return [(names[0], ForAll([u], Select(d.leaves[0], u) == (tot > 0))), (names[1], ForAll([u], Implies(Select(d.leaves[0], u), Select(d.leaves[1], u) == tot))),
                    (names[2], frame(E, c, c['a'], A, 'a'))]
        V.run(kt, setup, post, names, conf)

    names2 = ['the columns have one row for every value that occurs', 'each row gives the number of occurrences', 'no value has two rows']

    def setup(E):
        _cit['t'] = E.lit('citations')
        a, A = collection(E, 'a')
        return [a, True], {}, dict(a=a, A=A)

    def post(E, c, o):
        A = c['A']
        if o[0] != 'return': return [(n, FALSE) for n in names2]
        d = E.st.heap[o[1].a]
        if not isinstance(d, models.CDict) or set(d.items) != {'Citations', 'Counts'}: return [(n, FALSE) for n in names2]
        L, N = [models.tosym(E, E.st.heap[d.items[k].a]) for k in ('Citations', 'Counts')]
        inner = fold(E, 'seq', i, z3.If(seqat(citesof(w), i) == u, 1, 0))
        tot = fold(E, 'set', w, z3.If(has(w, CIT_()), inner(seqlen(citesof(w))), 0))(A)
        j, j2 = const('j?p', I), const('j2?p', I)
        at, nat = (lambda q: Select(L.leaves[1], q)), lambda q: Select(N.leaves[1], q)
        rng = lambda q: And(q >= 0, q < L.leaves[0])
        return [(names2[0], And(L.leaves[0] == N.leaves[0], ForAll([u], (tot > 0) == Exists([j], And(rng(j), at(j) == u))))),
                (names2[1], ForAll([j], Implies(rng(j), nat(j) == z3.substitute(tot, (u, at(j)))))),
                (names2[2], ForAll([j, j2], Implies(And(rng(j), rng(j2), j != j2), at(j) != at(j2))))]
    V.run('pandas friendly', setup, post, names2, conf)
