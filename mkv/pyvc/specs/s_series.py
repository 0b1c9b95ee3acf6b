"""A01, A02, A03: series and counts over the values of fields"""
from ._lib import *

u, w, i = const('u?p'), const('w?p'), const('i?p', I)
j, j2 = const('j?p', I), const('j2?p', I)
TAG = const('tag')


def occurs(E, x, t, v, ok=TRUE):
    """how often v is a value of field t of record x (0 unless ok)"""
    val = fld(x, t)
    inner = fold(E, 'seq', i, If(And(ok, seqat(val, i) == v), 1, 0))(seqlen(val))
    return If(has(x, t), If(kind(val) == K_LIST, inner, If(And(ok, val == v), 1, 0)), 0)


def ranking(E):
    """what a loop that ranks its elements keeps true: some integer column grows by one where the count drops"""
    def inv(L):
        if not L.seq or L.d.n is None: return []
        try:
            e = L.d.elem(i)
            cnt = lambda q: z3.substitute(E.as_int(e[1]), (i, q))
            cnt(i)
        except Exception: return []
        out = []
        for k, sl in L.slots.items():
            if not (isinstance(sl.shape, tuple) and sl.shape[0] == 'L'): continue
            for m, a in enumerate(sl.head[1:], 1):
                if a.sort().range() != I: continue
                out.append(('first rank', lambda lv, D, k=k, m=m: Implies(lv[k][0] > 0, Select(lv[k][m], 0) == 1)))
                out.append(('next rank', lambda lv, D, k=k, m=m: ForAll([i], Implies(And(i > 0, i < lv[k][0]), Select(lv[k][m], i) == Select(lv[k][m], i - 1) + If(cnt(i) < cnt(i - 1), 1, 0)), patterns=[Select(lv[k][m], i)])))
                for k2, s2 in L.slots.items():
                    if s2.shape == 'I': out.append(('last rank', lambda lv, D, k=k, m=m, k2=k2: lv[k2][0] == If(lv[k][0] > 0, Select(lv[k][m], lv[k][0] - 1), 1)))
        return out
    E.inv = inv


def lst(E, r):
    """length and columns of a list"""
    if not isinstance(r, Ref): return None
    s = models.tosym(E, r) if False else models.tosym(E, E.st.heap[r.a])
    return s.leaves[0], s.leaves[1:], s.shape


@contract(MC + ':CollectionWithIDs.rankedSeries', ['A01'])
def ranked_pairs(V): ranked(V, ('pairs', False), ('pairs', True), ('pairs smallest first', False))


@contract(MC + ':CollectionWithIDs.rankedSeries', ['A01'])
def ranked_ranks(V): ranked(V, ('ranks', False), ('values', False))


@contract(MC + ':CollectionWithIDs.rankedSeries', ['A01'])
def ranked_ranks_reversed(V): ranked(V, ('ranks smallest first', False))


@contract(MC + ':CollectionWithIDs.rankedSeries', ['A01'])
def ranked_columns(V): ranked(V, ('columns', False))


@contract(MC + ':CollectionWithIDs.rankedSeries', ['A01'])
def ranked_columns_some(V): ranked(V, ('columns', True))


@contract(MC + ':CollectionWithIDs.rankedSeries', ['A01'])
def ranked_columns_reversed(V): ranked(V, ('columns smallest first', False))


def ranked(V, *cases):
    for case, limited in cases:
        first = not case.endswith('smallest first')
        what = case.split()[0]
        names = ['every value occurs once', 'only values that occur']
        if what in ('pairs', 'columns'): names += ['the count is the number of occurrences', 'sorted by count']
        if what in ('ranks', 'columns'): names += ['the highest count has rank one', 'the next lower count has the next rank']
        names += ['the collection is unchanged']

        def setup(E, what=what, first=first, limited=limited):
            if what in ('ranks', 'columns'): ranking(E)
            a, A = collection(E, 'a')
            kw = dict(giveCounts=what == 'pairs', giveRanks=what == 'ranks', greatestFirst=first, pandasMode=what == 'columns')
            T = None
            if limited:
                T = const('limit', UB); models.cardfacts(E, T)
                kw['limitTo'] = E.alloc(Sym(('S', 'any'), [T]))
            return [a, Opq(TAG, 'str')], kw, dict(a=a, A=A, T=T)

        def post(E, c, o, what=what, first=first, names=names):
            A, T = c['A'], c['T']
            if o[0] != 'return': return [(n, FALSE) for n in names]
            tot = fold(E, 'set', w, occurs(E, w, TAG, u, TRUE if T is None else Or(T == EMPTY, Select(T, u))))
            count = lambda x: z3.substitute(tot(A), (u, x))
            cols = {}
            if what == 'columns':
                d = E.st.heap[o[1].a]
                if not isinstance(d, models.CDict) or set(d.items) != {'entry', 'count', 'rank'}: return [(n, FALSE) for n in names]
                for k in d.items:
                    n, l, sh = lst(E, d.items[k]); cols[k] = (n, l[0] if l else None)
            else:
                n, l, sh = lst(E, o[1])
                ks = {'pairs': ('entry', 'count'), 'ranks': ('entry', 'rank'), 'values': ('entry',)}[what]
                for q, k in enumerate(ks): cols[k] = (n, l[q] if l else None)
            n = cols['entry'][0]
            cols = {k: (m, x if x is not None else const('nothing_' + k, z3.ArraySort(I, I if k in ('count', 'rank') else U))) for k, (m, x) in cols.items()}
            rng = lambda q: And(q >= 0, q < n)
            at = lambda k, q: Select(cols[k][1], q)
            g = {}
            g[names[0]] = And(ForAll([j, j2], Implies(And(rng(j), rng(j2), j != j2), at('entry', j) != at('entry', j2))), ForAll([u], Implies(count(u) > 0, Exists([j], And(rng(j), at('entry', j) == u)))))
            g[names[1]] = ForAll([j], Implies(rng(j), count(at('entry', j)) > 0))
            if 'count' in cols:
                g['the count is the number of occurrences'] = And(cols['count'][0] == n, ForAll([j], Implies(rng(j), at('count', j) == count(at('entry', j)))))
                le = (lambda x, y: x >= y) if first else (lambda x, y: x <= y)
                g['sorted by count'] = ForAll([j, j2], Implies(And(rng(j), rng(j2), j < j2), le(at('count', j), at('count', j2))))
            if 'rank' in cols:
                cnt = (lambda q: at('count', q)) if 'count' in cols else (lambda q: count(at('entry', q)))
                R = lambda q: at('rank', q)
                top = 0 if first else n - 1
                nxt = (lambda q: q + 1) if first else (lambda q: q)
                prv = (lambda q: q) if first else (lambda q: q + 1)
                g['the highest count has rank one'] = And(cols['rank'][0] == n, Implies(n > 0, R(top) == 1))
                g['the next lower count has the next rank'] = ForAll([j], Implies(And(rng(j), j + 1 < n), And(cnt(prv(j)) >= cnt(nxt(j)), R(nxt(j)) == R(prv(j)) + If(cnt(nxt(j)) < cnt(prv(j)), 1, 0))))
            g['the collection is unchanged'] = frame(E, c, c['a'], A, 'a')
            return [(k, g[k]) for k in names]
        V.run(case + (' of some values' if limited else ''), setup, post, names, rec_conf)
