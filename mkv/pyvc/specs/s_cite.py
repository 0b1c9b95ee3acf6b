"""C01-C04: citations"""
from ._lib import *
from .. import regex

CI = 'metaknowledge.citation'
u = const('u?p')


def conf(E):
    E.globals[('metaknowledge', 'FAST_CITES')] = False


def citecls(E): return cls(E, CI, 'Citation')


def cite(E, tag, hashed=None, author=True, journal=True):
    attrs = {'_id': Opq(const('id_' + tag), 'str'), 'bad': const('bad_' + tag, B), 'original': Opq(const('orig_' + tag), 'str')}
    if author: attrs['author'] = Opq(const('author_' + tag), 'any')
    if journal: attrs['journal'] = Opq(const('journal_' + tag), 'any')
    E.fact(kind(const('id_' + tag)) == K_STR)
    for n in ('author', 'journal'):
        t = const(n + '_' + tag); E.fact(Or(kind(t) == K_STR, t == NONE)); E.fact(kind(NONE) == K_NONE)
    if hashed: attrs['_hash'] = models.hash_(E, const('id_' + tag))
    return E.alloc(HObj(citecls(E), attrs))


def keeps(E, c, r, skip=('_hash',)):
    """every attribute but the memo of the hash is what it was"""
    a, b = c['pre'].heap[r.a].attrs, E.get(r).attrs
    ok = all(n in b and (b[n] is a[n] or (isinstance(b[n], Opq) and b[n].t.eq(a[n].t))) for n in a if n not in skip)
    return And(z3.BoolVal(ok), E.get(r).attrs['_hash'] == models.hash_(E, a['_id'].t) if '_hash' in b else TRUE)


@contract(CI + ':Citation.__hash__', ['C02'])
def chash(V):
    names = ['is a function of the identifying string alone', 'changes nothing but its memo']
    for h in (False, True):
        def setup(E, h=h):
            r = cite(E, 'a', h)
            return [r], {}, dict(r=r)

        def post(E, c, o):
            if o[0] != 'return': return [(names[0], FALSE)]
            return [(names[0], E.as_int(o[1]) == models.hash_(E, const('id_a'))), (names[1], keeps(E, c, c['r']))]
        V.run('hashed before' if h else 'not hashed yet', setup, post, names, conf)


@contract(CI + ':Citation.__eq__', ['C02'])
def ceq(V):
    names = ['equal exactly when the identifying strings are', 'changes nothing but the memo of the hashes']
    for h in (False, True):
        for g in (False, True):
            def setup(E, h=h, g=g):
                a, b = cite(E, 'a', h), cite(E, 'b', g)
                return [a, b], {}, dict(a=a, b=b)

            def post(E, c, o):
                if o[0] != 'return': return [(names[0], FALSE)]
                r = boolof(o[1])
                if not z3.is_expr(r): return [(names[0], FALSE)]
                return [(names[0], r == (const('id_a') == const('id_b'))), (names[1], And(keeps(E, c, c['a']), keeps(E, c, c['b'])))]
            V.run('%s %s' % (h, g), setup, post, names, conf)
    # reflexive: the same object
    def setup1(E):
        a = cite(E, 'a'); return [a, a], {}, dict(a=a)

    def post1(E, c, o):
        return [('equals itself', boolof(o[1]) if o[0] == 'return' else FALSE)]
    V.run('itself', setup1, post1, ['equals itself'], conf)

    def post2(E, c, o):
        return [('leaves values of other types to them', z3.BoolVal(o[0] == 'return' and isinstance(o[1], Builtin) and o[1].name == 'NotImplemented'))]
    for nm, mk in (('text', lambda E: Opq(const('text'), 'str')), ('nothing', lambda E: None), ('number', lambda E: const('n', I)), ('tuple', lambda E: (Opq(const('x'), 'any'),)), ('another object', lambda E: E.alloc(HObj(cls(E, RC, 'RecordCollection'), {})))):
        def setup2(E, mk=mk):
            a = cite(E, 'a'); return [a, mk(E)], {}, dict(a=a)
        V.run(nm, setup2, post2, ['leaves values of other types to them'], conf)


@contract(CI + ':Citation.isAnonymous', ['C02'])
def anon(V):
    names = ['exactly without author or with the anonymous marker']
    for a in (True, False):
        def setup(E, a=a):
            r = cite(E, 'a', author=a); return [r], {}, dict(r=r)

        def post(E, c, o, a=a):
            if o[0] != 'return': return [(names[0], FALSE)]
            return [(names[0], boolof(o[1]) == (const('author_a') == E.lit('[Anonymous]')) if a else boolof(o[1]))]
        V.run('author' if a else 'no author', setup, post, names, conf)


@contract(CI + ':Citation.ID', ['C02'])
def cid(V):
    def setup(E):
        r = cite(E, 'a'); return [r], {}, dict(r=r)

    def post(E, c, o):
        return [('is the identifying string', E.box(o[1]) == const('id_a') if o[0] == 'return' else FALSE)]
    V.run('', setup, post, ['is the identifying string'], conf)


def fresh(E):
    r = E.alloc(HObj(citecls(E), {}))
    x = Opq(const('cite'), 'str'); E.fact(kind(x.t) == K_STR)
    return r, x


@contract(CI + ':Citation.__init__', ['C01', 'C02'])
def wosinit(V):
    names = ['never fails', 'keeps the original text', 'bad exactly when author, year or journal is missing or text remains', 'the identifying string of a complete citation', 'a bad one keeps its reason', 'has all its attributes']

    def setup(E):
        r, x = fresh(E); return [r, x], {}, dict(r=r)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        a = E.get(c['r']).attrs
        g = [(names[0], TRUE), (names[5], z3.BoolVal(all(n in a for n in ('author', 'year', 'journal', 'V', 'P', 'DOI', 'misc', 'bad', 'error', '_id', 'original'))))]
        if not z3.is_true(g[1][1]): return g
        no = lambda n: a[n] is None or (E.box(a[n]) == NONE if isinstance(a[n], Opq) and a[n].cls == 'any' else FALSE)
        no_ = lambda n: z3.BoolVal(no(n)) if isinstance(no(n), bool) else no(n)
        bad = boolof(a['bad'])
        g.append((names[1], E.box(a['original']) == const('cite')))
        g.append((names[2], bad == Or(no_('author'), no_('year'), no_('journal'), Not(no_('misc')))))
        g.append((names[4], bad == z3.BoolVal(isinstance(a['error'], Exc))))
        if a['author'] is not None and a['year'] is not None:
            want = models.fmt(E, '{0}, {1}, {2}', [a['author'], a['year'], a['journal']], {})
            g.append((names[3], Implies(Not(bad), E.as_str(want) == E.as_str(a['_id']))))
        else: g.append((names[3], bad))
        return g
    V.run('', setup, post, names, conf)


@contract(CI + ':Citation.__init__', ['C03'])
def scopusinit(V):
    names = ['never fails', 'keeps the original text', 'text that does not have the form gives a bad one, identified by the text', 'good exactly when author, year and journal were found', 'the identifying string of a good one']

    def setup(E):
        r, x = fresh(E); return [r, x], {'scopusMode': True}, dict(r=r)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        a = E.get(c['r']).attrs
        bad = boolof(a['bad'])
        g = [(names[0], TRUE), (names[1], E.box(a['original']) == const('cite'))]
        if 'author' not in a: return g + [(names[2], And(bad, E.box(a['_id']) == const('cite')))]
        t = lambda n: boolof(E.truthc(a[n]))
        g.append((names[3], bad == Not(And(t('author'), t('year'), t('journal')))))
        want = models.fmt(E, '{0}, {1}, {2}', [a['author'], a['year'], a['journal']], {})
        g.append((names[4], Implies(Not(bad), E.as_str(want) == E.as_str(a['_id']))))
        return g
    V.run('scopus', setup, post, names, conf)


# ---- C04
def table(E):
    ar = z3.ArraySort(U, z3.ArraySort(I, U))
    dom, ln, it = const('tab_dom', UB), const('tab_len', z3.ArraySort(U, I)), const('tab_items', ar)
    E.globals[(CI, 'abbrevDict')] = E.alloc(Sym(('D', ('L', ('O', 'str')), 'str'), [dom, ln, it]))
    # every entry of the table has at least one (perhaps empty) name
    E.st.pc.append(ForAll([u], Implies(Select(dom, u), Select(ln, u) >= 1), patterns=[Select(ln, u)]))
    k = const('k?tab', I)
    E.st.pc.append(ForAll([u, k], kind(Select(Select(it, u), k)) == K_STR, patterns=[Select(Select(it, u), k)]))
    return dom, lambda j: Select(Select(it, j), 0)


def journal(q, val):
    @contract(CI + ':Citation.' + q, ['C04'])
    def spec(V):
        names = ['a journal exactly when the table has a non-empty name for it', 'nothing changes']
        for j in (True, False):
            def setup(E, j=j):
                r = cite(E, 'a', journal=j); dom, name = table(E)
                return [r], {}, dict(r=r, dom=dom, name=name)

            def post(E, c, o, j=j):
                if o[0] != 'return': return [(names[0], FALSE)]
                t = const('journal_a')
                is_ = And(t != NONE, t != E.lit(''), Select(c['dom'], t), c['name'](t) != E.lit('')) if j else FALSE
                yes = boolof(E.truthc(o[1]))
                g = [(names[1], keeps(E, c, c['r']))]
                if val: return g + [(names[0], And(Implies(is_, E.box(o[1]) == c['name'](t)), Implies(Not(is_), z3.BoolVal(o[1] is None))))]
                return g + [(names[0], yes == is_)]
            V.run('journal' if j else 'no journal', setup, post, names, conf)


journal('isJournal', False)
journal('FullJournalName', True)

isj = z3.Function('is_journal', U, B)


@contract(CI + ':filterNonJournals', ['C04'])
def filterNon(V):
    names = ['the wanted citations, each once and in order', 'the list is unchanged']
    for inv in (False, True):
        def want(x): return Not(isj(x)) if inv else isj(x)
        cnt = z3.Function('wanted_before', I, I)
        k = const('k?w', I)

        def setup(E):
            E.models['Cite'] = Item({}, {'isJournal': lambda E, o: Opq(z3.Function('journal_name', U, U)(o.t), 'JName')})
            E.models['JName'] = type('JName', (), {'truth': lambda self, E, o: isj(o.t.arg(0))})()
            E.models['Cites'] = type('Cites', (models.ListModel,), {'item': 'Cite'})()
            L = const('cites')
            # number of wanted citations among the first k (definition)
            E.axioms.append(And(cnt(0) == 0, ForAll([k], Implies(k >= 0, And(cnt(k + 1) == cnt(k) + If(want(seqat(L, k)), 1, 0), cnt(k) >= 0, cnt(k) <= k)), patterns=[cnt(k + 1), seqat(L, k)])))
            return [Opq(L, 'Cites')], {'invert': inv}, dict(L=L)

        def invs(Lp):
            L = const('cites')
            ks = [q for q, sl in Lp.slots.items() if isinstance(sl.shape, tuple) and sl.shape[0] == 'L']
            if len(ks) != 1: return []
            K = ks[0]
            return [('wanted ones so far', lambda lv, D: And(lv[K][0] == cnt(D), ForAll([k], Implies(And(k >= 0, k < D, want(seqat(L, k))), And(cnt(k) < lv[K][0], Select(lv[K][1], cnt(k)) == seqat(L, k))), patterns=[seqat(L, k)])))]

        def cf(E): conf(E); E.inv = invs

        def post(E, c, o):
            if o[0] != 'return': return [(names[0], FALSE)]
            sh, lv = models.place(E, o[1])
            if sh[0] == 'C': return [(names[0], FALSE)]
            L = c['L']
            return [(names[0], And(lv[0] == cnt(seqlen(L)), ForAll([k], Implies(And(k >= 0, k < seqlen(L), want(seqat(L, k))), Select(lv[1], cnt(k)) == seqat(L, k)), patterns=[seqat(L, k)]))), (names[1], TRUE)]
        V.run('invert' if inv else 'plain', setup, post, names, cf)
