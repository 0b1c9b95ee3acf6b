"""N02, N03: the node that stands for a citation"""
from ._lib import *
from .s_local import CiteM, anon
from ..core import bi

isj = z3.Function('cite_journal', U, B)
textof = z3.Function('strof', U, U)
short = z3.Function('cite_text_without_doi', U, U)
full = z3.Function('cite_journal_name', U, U)
citeid = z3.Function('cite_ID', U, U)
CORE, RECOF = const('core', UB), z3.Function('record_of', U, U)
C, ID = const('citation'), const('node')


def text(f):
    def m(E, o):
        E.fact(kind(f(o.t)) == K_STR)
        return Opq(f(o.t), 'str')
    return m


def conf(E):
    rec_conf(E)
    E.models['Cite'] = CiteM({'original': 'str', 'bad': 'B'}, {'isAnonymous': anon, 'isJournal': lambda E, o: isj(o.t), 'allButDOI': text(short), 'FullJournalName': text(full), 'ID': text(citeid), 'isa': lambda E, o, n: n in ('Citation', 'Hashable')})

    def rec(E, o, k):
        if not E.choose(Select(CORE, k.t)): E.throw('KeyError')
        return Opq(RECOF(k.t), 'Item')

    def get(E, o, k, default=None):
        if k == 'title':
            if not E.choose(has(o.t, E.key(k))): return default
            E.fact(kind(fld(o.t, E.key(k))) == K_STR)
            return Opq(fld(o.t, E.key(k)), 'str')
        return fget(E, o, k, default)
    E.models['Item'].extra['get'] = get
    E.models['CoreDict'] = Item({}, {'contains': lambda E, o, k: Select(CORE, k.t), 'getitem': rec})
    E.notes.add('the values of the fields of a record that a node takes over are texts or lists of texts')
    E.notes.add('the text, identifier and full journal name of a citation are texts (C01, C02, C04)')


@contract(RC + ':makeID', ['N02', 'N03'])
def makeID(V):
    names = ['the node of a citation is the part of it that was asked for']
    for t in ('full', 'author', 'year', 'journal', 'original'):
        def setup(E, t=t):
            if t not in ('full', 'original'): E.fact(z3.Function('cite_has_' + t, U, B)(C))
            return [Opq(C, 'Cite'), t], {}, {}

        def post(E, c, o, t=t):
            if o[0] != 'return': return [(names[0], FALSE)]
            want = citeid(C) if t == 'full' else z3.Function('item_original' if t == 'original' else 'cite_' + t, U, U)(C)
            return [(names[0], E.box(o[1]) == want)]
        V.run(t, setup, post, names, conf)


@contract(RC + ':makeNodeTuple', ['N02', 'N03'])
def makeNodeTuple(V):
    names = ['the node, counted once', 'what is known about the node', 'no error']
    for case, t, info, whole, count, core in (('plain', 'author', False, False, False, None), ('counted', 'author', True, False, True, None), ('uncounted', 'year', True, False, False, None), ('text', 'original', True, True, True, None),
                                             ('journal', 'journal', True, False, True, None), ('whole', 'full', True, True, True, None), ('whole without facts', 'full', False, True, True, None),
                                             ('core', 'full', True, False, True, ['title']), ('core, detailed', 'full', True, True, True, ['year', 'authorsFull'])):
        def setup(E, t=t, info=info, whole=whole, count=count, core=core, case=case):
            cv = None if core is None else E.alloc(models.CList(list(core)))
            return [Opq(C, 'Cite'), Opq(ID, 'str'), info, whole, t, count, Opq(const('coredict'), 'CoreDict'), cv, 'detailed' in case, False], {}, {}

        def post(E, c, o, t=t, info=info, whole=whole, count=count, core=core, case=case):
            if o[0] != 'return': return [(names[2], FALSE)]
            if not isinstance(o[1], tuple) or len(o[1]) != 2: return [(names[0], FALSE)]
            n, d = o[1]
            d = E.st.heap[d.a]
            if not isinstance(d, models.CDict): return [(names[0], FALSE)]
            d = d.items
            eq = lambda k, x: (E.box(d[k]) == x) if k in d else FALSE
            g = [eq('fullCite', textof(C)) if whole else z3.BoolVal('fullCite' not in d)]
            here = None
            if not info: g.append(z3.BoolVal(not set(d) - {'count', 'fullCite'}))
            elif t == 'full' and core is not None:
                here = Select(CORE, C)
                g.append(If(here, And(eq('inCore', E.box(True)), eq('MK-ID', z3.Function('item_id', U, U)(RECOF(C)))), And(eq('inCore', E.box(False)), eq('MK-ID', E.lit('None')), eq('info', short(C)))))
            elif t == 'full': g.append(eq('info', short(C)))
            elif t == 'journal': g.append(eq('info', If(isj(C), full(C), E.lit('None'))))
            elif t == 'original': g.append(eq('info', textof(C)))
            else: g.append(eq('info', ID))
            return [(names[0], And(E.box(n) == ID, eq('count', bi(z3.IntVal(1))) if count else z3.BoolVal('count' not in d))), (names[1], And(*g)), (names[2], TRUE)]
        V.run(case, setup, post, names, conf)
