"""A07: the citations of a record that are asked for"""
from ._lib import *
from . import s_local
from .s_local import citesof

i = const('i?p', I)
REC, WANT, ONE = const('rec'), const('wanted', UB), const('one')


def conf(E):
    s_local.conf(E)
    get = E.models['Item'].extra['get']
    E.calls['metaknowledge.mkRecord.ExtendedRecord.get'] = lambda E, a, kw: get(E, Opq(REC, 'Item'), *a[1:], **kw)


@contract('metaknowledge.mkRecord:ExtendedRecord.getCitations', ['A07'])
def getCitations(V):
    names = ['exactly the citations asked for, in their order', 'as many as there are', 'no error']
    for field in (None, 'author', 'year', 'journal', 'V', 'P', 'misc', 'original'):
        for vals in ('all',) if field is None else ('all', 'these', 'one text', 'one number'):
            if vals == 'one number' and field != 'year': continue

            def setup(E, field=field, vals=vals):
                s_local._cit['t'] = E.lit('citations')
                E.fact(seqlen(citesof(REC)) >= 0)
                E.fact(kind(ONE) == (K_INT if vals == 'one number' else K_STR))
                v = {'all': None, 'these': None, 'one text': Opq(ONE, 'str'), 'one number': Opq(ONE, 'int')}[vals]
                if vals == 'one number': v = ui(ONE); E.fact(models.bi(ui(ONE)) == ONE)
                if vals == 'these': v = E.alloc(Sym(('S', 'any'), [WANT]))
                r = E.alloc(HObj(cls(E, 'metaknowledge.WOS.recordWOS', 'WOSRecord'), {}))
                return [r], dict(field=field, values=v, pandasFriendly=False), {}

            def post(E, c, o, field=field, vals=vals):
                if o[0] != 'return': return [(names[2], FALSE)]
                L = citesof(REC)
                n0 = If(has(REC, E.lit('citations')), seqlen(L), 0)
                if isinstance(o[1], Ref):
                    R = models.tosym(E, E.st.heap[o[1].a])
                    n, at = R.leaves[0], (lambda q: Select(R.leaves[1], q)) if len(R.leaves) > 1 else (lambda q: seqat(L, q))
                elif isinstance(o[1], Opq): n, at = seqlen(o[1].t), lambda q: seqat(o[1].t, q)
                else: return [(names[0], FALSE)]

                def ok(x):
                    if field is None: return TRUE
                    has_ = TRUE if field == 'original' else z3.Function('cite_has_' + field, U, B)(x)
                    v = z3.Function(('item_' if field == 'original' else 'cite_') + field, U, U)(x)
                    return And(has_, {'all': lambda: TRUE, 'these': lambda: Select(WANT, v), 'one text': lambda: v == ONE, 'one number': lambda: v == ONE}[vals]())
                if z3.is_true(z3.simplify(ok(seqat(L, i)))):
                    return [(names[0], ForAll([i], Implies(And(i >= 0, i < n0), at(i) == seqat(L, i)))), (names[1], n == n0), (names[2], TRUE)]
                K = fold(E, 'seq', i, If(ok(seqat(L, i)), 1, 0))
                return [(names[0], ForAll([i], Implies(And(i >= 0, i < n0, ok(seqat(L, i))), at(K(i)) == seqat(L, i)))), (names[1], n == K(n0)), (names[2], TRUE)]
            V.run('%s, %s' % (field or 'every citation', vals), setup, post, names, conf)


u, y = const('u?p'), const('y?p')
j = const('j?p', I)
asked = z3.Function('citations_asked_for', U, U)


@contract(RC + ':RecordCollection.getCitations', ['A07'])
def all_citations(V):
    names = ['exactly the citations of the records', 'each once', 'the collection is unchanged', 'no error']

    def setup(E, vals):
        rec_conf(E)
        r, S = collection(E, 'a')
        v = {'all': None, 'these': None, 'one': Opq(ONE, 'str')}[vals]
        if vals == 'these': v = E.alloc(Sym(('S', 'any'), [WANT]))
        E.fact(kind(ONE) == K_STR)

        def get(E, o, *a, **k):
            k = dict(zip(('field', 'values', 'pandasFriendly'), a), **k)
            if k.pop('pandasFriendly', True) is not False or not (isinstance(k.get('field'), Opq) and k['field'].t.eq(const('field'))): raise Unsupported('other options')
            w = k.get('values')
            good = w is None if vals == 'all' else (isinstance(w, Ref) and (w.a == v.a if vals == 'these' else models.contains(E, w, v) is True or z3.is_true(z3.simplify(boolof(models.contains(E, w, v))))))
            if vals == 'one' and isinstance(w, Opq): good = w.t.eq(ONE)
            if not good: raise Unsupported('other values')
            E.fact(seqlen(asked(o.t)) >= 0)
            return Opq(asked(o.t), 'Cites')
        E.models['Item'].extra['getCitations'] = get
        E.models['Cite'] = Item({}, {'isa': lambda E, o, n: n in ('Citation', 'Hashable')})
        E.models['Cites'] = type('Cites', (models.ListModel,), {'item': 'Cite'})()

        def inv(L):
            """the list holds exactly what the records done so far gave"""
            out = []
            for k, sl in L.slots.items():
                if not (isinstance(sl.shape, tuple) and sl.shape[0] == 'L') or len(sl.head) != 2: continue
                out.append(('items come from the records', lambda lv, D, k=k: ForAll([i], Implies(And(i >= 0, i < lv[k][0]), Exists([u, j], And(L.isdone(D, u), j >= 0, j < seqlen(asked(u)), seqat(asked(u), j) == Select(lv[k][1], i)), patterns=[seqat(asked(u), j)])), patterns=[Select(lv[k][1], i)])))
                out.append(('items of the records are there', lambda lv, D, k=k: ForAll([u, j], Implies(And(L.isdone(D, u), j >= 0, j < seqlen(asked(u))), Exists([i], And(i >= 0, i < lv[k][0], Select(lv[k][1], i) == seqat(asked(u), j)), patterns=[Select(lv[k][1], i)])), patterns=[seqat(asked(u), j)])))
            return out if not L.seq else []
        E.inv, E.second = inv, True
        return [r], dict(field=Opq(const('field'), 'str'), values=v, pandasFriendly=False), dict(r=r, S=S)

    def post(E, c, o):
        if o[0] != 'return' or not isinstance(o[1], Ref): return [(names[3], FALSE)]
        R = models.tosym(E, E.st.heap[o[1].a])
        n, at = R.leaves[0], lambda q: Select(R.leaves[1], q)
        j = const('j?p', I)
        inl = Exists([j], And(j >= 0, j < n, at(j) == y), patterns=[at(j)])
        inr = Exists([u, i], And(Select(c['S'], u), i >= 0, i < seqlen(asked(u)), seqat(asked(u), i) == y), patterns=[z3.MultiPattern(Select(c['S'], u), seqat(asked(u), i))])
        return [(names[0], ForAll([y], inl == inr)), (names[1], ForAll([i, j], Implies(And(i >= 0, i < j, j < n), at(i) != at(j)))), (names[2], frame(E, c, c['r'], c['S'], 'a')), (names[3], TRUE)]
    for vals in ('all', 'these', 'one'):
        V.run(vals, lambda E, vals=vals: setup(E, vals), post, names, rec_conf)
