"""N02, N03: which citations enter a citation network"""
from ._lib import *
from .s_local import CiteM, anon, UP, inside

y, i = const('y?p'), const('i?p', I)
isj = z3.Function('cite_journal', U, B)
CORE = const('core', UB)
textof = z3.Function('strof', U, U)


def conf(E):
    rec_conf(E)
    E.models['Cite'] = CiteM({'original': 'str', 'bad': 'B'}, {'isAnonymous': anon, 'isJournal': lambda E, o: isj(o.t), 'isa': lambda E, o, n: n in ('Citation', 'Hashable')})
    E.models['Cites'] = type('Cites', (models.ListModel,), {'item': 'Cite'})()
    E.models['Words'] = type('Words', (models.ListModel,), {'item': 'str'})()
    E.notes.add('equal citations are the same value (C02)')


def kept(E, c, x):
    """the condition of the documentation"""
    g = []
    if c['type'] != 'full':
        v = z3.Function(('item_' if c['type'] == 'original' else 'cite_') + c['type'], U, U)(x)
        g.append(And(TRUE if c['type'] == 'original' else z3.Function('cite_has_' + c['type'], U, B)(x), v != E.lit('') if c['type'] == 'original' else truth(E, v)))
    if c['nonj']: g.append(isj(x))
    if c['anon']: g.append(Not(z3.Function('cite_anonymous', U, B)(x)))
    if c['core']: g.append(Select(CORE, x))
    s = UP(E, Opq(textof(x), 'str'))
    if c['words'] == 'word': g.append(Or(const('word') == E.lit(''), Not(inside(E, UP(E, Opq(const('word'), 'str')), s))))
    if c['words'] == 'words':
        L = const('words')
        q = const('q?p', I)
        w = lambda q: UP(E, Opq(seqat(L, q), 'str'))
        g.append(Not(Exists([q], And(q >= 0, q < seqlen(L), inside(E, w(q), s)), patterns=[seqat(L, q)])))
    return And(*g) if g else TRUE


def truth(E, v):
    """bool(v)"""
    return z3.Function('truthy', U, B)(v)


@contract(RC + ':filterCites', ['N02', 'N03'])
def filterCites(V):
    names = ['the citations that pass, in their order', 'as many as there are', 'no error']
    for t in ('full', 'author', 'year', 'journal', 'original'):
        for nonj, an, core, words in ((False, False, False, None), (True, True, True, None), (False, True, False, 'word'), (False, False, True, 'words')):
            if t in ('journal', 'original') and words: continue
            case = dict(type=t, nonj=nonj, anon=an, core=core, words=words)

            def setup(E, case=case):
                L = Opq(const('cites'), 'Cites')
                E.fact(seqlen(L.t) >= 0)
                kw = None if not case['words'] else Opq(const(case['words']), 'str' if case['words'] == 'word' else 'Words')
                if kw is not None: E.fact(kind(kw.t) == (K_STR if case['words'] == 'word' else K_LIST))
                return [L, case['type'], case['anon'], case['nonj'], kw, E.alloc(Sym(('S', 'Cite'), [CORE])) if case['core'] else None], {}, {}

            def post(E, c, o, case=case):
                if o[0] != 'return': return [(names[2], FALSE)]
                L = const('cites')
                R = models.tosym(E, E.st.heap[o[1].a])
                n, at = R.leaves[0], lambda q: Select(R.leaves[1], q)
                K = fold(E, 'seq', i, If(kept(E, case, seqat(L, i)), 1, 0))
                if z3.is_true(z3.simplify(kept(E, case, seqat(L, i)))):
                    return [(names[0], ForAll([i], Implies(And(i >= 0, i < seqlen(L)), at(i) == seqat(L, i)))), (names[1], n == seqlen(L)), (names[2], TRUE)]
                return [(names[0], ForAll([i], Implies(And(i >= 0, i < seqlen(L), kept(E, case, seqat(L, i))), at(K(i)) == seqat(L, i)))), (names[1], n == K(seqlen(L))), (names[2], TRUE)]
            V.run('%s%s%s%s%s' % (t, ' journals' if nonj else '', ' named' if an else '', ' core' if core else '', ' ' + words if words else ''), setup, post, names, conf)
