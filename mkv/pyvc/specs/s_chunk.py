"""S03: chunk and split. A piece is represented by the set of its items (it is made by the constructor from a set, by its
contract, and is changed only by add, by its contract)"""
from ._lib import *

u, j, k2 = const('u?c'), const('j?c', I), const('k?c', I)


def pieces(E):
    """constructor of a piece: its contract gives a collection holding the items; here the set itself"""
    def new(E, args, kw):
        S = models.setlike(E, args[0])[1]
        return E.alloc(Sym(('S', 'Item'), [S]))
    E.calls['new:RecordCollection'] = new
    E.notes.add('a piece is represented by the set of its items (contracts of RecordCollection.__init__ and Collection.add; adding an item of the collection itself never raises, as it was allowed before)')


def invs(rest):
    def inv(L):
        ks = [k for k, sl in L.slots.items() if isinstance(sl.shape, tuple) and sl.shape[0] == 'L']
        cs = [k for k, sl in L.slots.items() if sl.shape == 'I']
        if len(ks) != 1 or len(cs) != 1: return []
        K, C = ks[0], cs[0]
        S0 = const('items_a', UB); mx = const('maxSize', I)

        def done(lv, D):
            if not rest: return lambda x: Select(D, x)
            R = lv[R_(L)][0]
            return lambda x: And(Select(S0, x), Not(Select(R, x)))

        def R_(L):
            return [k for k, sl in L.slots.items() if isinstance(sl.shape, tuple) and sl.shape[0] == 'S'][0]
        out = [('size of the last piece', lambda lv, D: And(lv[K][0] >= 0, Implies(lv[K][0] == 0, lv[C][0] > mx), Implies(lv[K][0] > 0, And(lv[C][0] >= 1, lv[C][0] <= mx, models.card(Select(lv[K][1], lv[K][0] - 1)) == lv[C][0])))),
               ('nothing yet', lambda lv, D: Implies(lv[K][0] == 0, ForAll([u], Not(done(lv, D)(u))))),
               ('full pieces', lambda lv, D: ForAll([j], Implies(And(j >= 0, j < lv[K][0] - 1), models.card(Select(lv[K][1], j)) == mx), patterns=[Select(lv[K][1], j)])),
               ('pieces hold done items', lambda lv, D: ForAll([j, u], Implies(And(j >= 0, j < lv[K][0], Select(Select(lv[K][1], j), u)), done(lv, D)(u)), patterns=[Select(Select(lv[K][1], j), u)])),
               ('done items are in a piece', lambda lv, D: ForAll([u], Implies(done(lv, D)(u), Or(And(lv[K][0] > 0, Select(Select(lv[K][1], lv[K][0] - 1), u)), Exists([j], And(j >= 0, j < lv[K][0], Select(Select(lv[K][1], j), u)), patterns=[Select(L.slots[K].head[1], j)]))))),
               ('pieces are disjoint', lambda lv, D: ForAll([j, k2, u], Implies(And(j >= 0, j < k2, k2 < lv[K][0]), Not(And(Select(Select(lv[K][1], j), u), Select(Select(lv[K][1], k2), u)))))),
               ]
        if rest: out.append(('rest', lambda lv, D: ForAll([u], Implies(Select(lv[R_(L)][0], u), Select(S0, u)))))
        return out
    return inv


def conf(rest):
    def f(E):
        rec_conf(E); pieces(E); E.inv = invs(rest)
    return f


NAMES = ['every item is in a piece', 'pieces hold only items of the collection', 'pieces are disjoint', 'no piece is empty or larger than n', 'all but the last have n items']


def setup(E):
    a, A = collection(E, 'a')
    mx = const('maxSize', I)
    E.st.pc.append(mx >= 1)
    # every item of a collection is of an allowed type (S02)
    E.st.pc.append(ForAll([u], Implies(Select(A, u), z3.Function('isinstance', U, U, B)(u, const('allowed'))), patterns=[Select(A, u)]))
    return [a, mx], {}, dict(a=a, A=A, mx=mx)


def goals(E, c, o):
    if o[0] != 'return': return [(NAMES[0], FALSE)]
    sh, (n, arr) = models.place(E, o[1])[0], models.place(E, o[1])[1][:2]
    A, mx = c['A'], c['mx']
    mem = lambda i, x: Select(Select(arr, i), x)
    cj = models.card(Select(arr, j))
    return [(NAMES[0], ForAll([u], Implies(Select(A, u), Exists([j], And(j >= 0, j < n, mem(j, u)))))),
            (NAMES[1], ForAll([j, u], Implies(And(j >= 0, j < n, mem(j, u)), Select(A, u)))),
            (NAMES[2], ForAll([j, k2, u], Implies(And(j >= 0, j < k2, k2 < n), Not(And(mem(j, u), mem(k2, u)))))),
            (NAMES[3], ForAll([j], Implies(And(j >= 0, j < n), And(cj >= 1, cj <= mx)))),
            (NAMES[4], ForAll([j], Implies(And(j >= 0, j < n - 1), cj == mx)))]


@contract(MC + ':Collection.chunk', ['S03'])
def chunk(V):
    def post(E, c, o):
        return goals(E, c, o) + [('the collection is unchanged', frame(E, c, c['a'], c['A'], 'a'))]
    V.run('', setup, post, NAMES + ['the collection is unchanged'], conf(False))


@contract(MC + ':Collection.split', ['S03'])
def split(V):
    def post(E, c, o):
        return goals(E, c, o) + [('the collection is empty', items(E, c['a']) == EMPTY)]
    V.run('', setup, post, NAMES + ['the collection is empty'], conf(True))
