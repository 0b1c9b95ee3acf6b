"""N02, N03: what one record adds to a citation network"""
from ._lib import *
from .s_local import CiteM, anon
from .s_graph import graph
from ..core import HGraph, GS
from ..models import sel2

u, v, k, i, j = const('u?p'), const('v?p'), const('k?p'), const('i?p', I), const('j?p', I)
nid = z3.Function('cite_id', U, U)
CITES, HEAD = const('cites'), const('head')


class Kept(CiteM):
    """a citation that passed the filter: it has the part the nodes are made of"""
    def attr(self, E, o, name):
        if name == 'year' and o.t.eq(HEAD):
            E.notes.add('the citation of a record always has the attribute year, which may be None')
            E.assume(z3.Function('cite_has_year', U, B)(o.t))
            return CiteM.attr(self, E, o, name)
        if name not in ('author', 'journal'): return CiteM.attr(self, E, o, name)
        v = z3.Function('cite_' + name, U, U)(o.t)
        E.fact(kind(v) == K_STR)
        return Opq(v, 'str')


def conf(E):
    rec_conf(E)

    def ident(E, o):
        E.fact(kind(nid(o.t)) == K_STR)
        return Opq(nid(o.t), 'str')
    E.models['Cite'] = Kept({'original': 'str', 'bad': 'B'}, {'ID': ident, 'isAnonymous': anon, 'isa': lambda E, o, n: n in ('Citation', 'Hashable')})
    E.models['Cites'] = type('Cites', (models.ListModel,), {'item': 'Cite'})()
    E.notes.add('the ID of a citation is a function of the citation (C02)')


def key(t): return (lambda x: nid(x)) if t == 'full' else (lambda x: z3.Function(('item_' if t == 'original' else 'cite_') + t, U, U)(x))


def numbered(E, g, names, edges):
    """nodes (edges) have these attributes, and they are integers"""
    for n in names:
        n = E.lit(n)
        E.attrints = set(getattr(E, 'attrints', ())) | {n.sexpr()}
        if edges:
            a, x, m, q = Select(sel2(g.ea, u, v), n), Select(sel2(g.ev, u, v), n), sel2(g.ed, u, v), [u, v]
        else:
            a, x, m, q = Select(Select(g.na, u), n), Select(Select(g.nv, u), n), Select(g.nd, u), [u]
        E.st.pc.append(ForAll(q, Implies(m, And(a, kind(x) == K_INT)), patterns=[m, a]))
        E.st.pc.append(ForAll(q, Implies(m, kind(x) == K_INT), patterns=[x]))


@contract(RC + ':addToNetwork', ['N02', 'N03'])
def addToNetwork(V):
    names = ['exactly the nodes before, the citing one and the cited ones', 'node counts', 'exactly the edges before and those of the record', 'edge weights', 'no error']
    cases = [('author', *c, n, n, ()) for c in ((True, True, True), (True, False, True), (True, True, False)) for n in (True, False)]
    cases += [('full', True, True, True, False, False, ())]
    cases += [('full', True, True, True, True, True, (new, dated)) for new in (True, False) for dated in (True, False)]
    for t, head, directed, to, weighted, count, when in cases:
        label = '%s%s%s%s%s' % (t, ' directed' if directed else '', '' if head else ' joint', '' if to else ' reversed', ' with numbers' if weighted else '')
        if when: label += ', citing one %s and %s' % ('new' if when[0] else 'known', 'with a year' if when[1] else 'without a year')

        def setup(E, t=t, head=head, directed=directed, to=to, weighted=weighted, count=count, when=when):
            r, g = graph(E, 'g', directed)
            if count: numbered(E, g, ['count'], False)
            if weighted: numbered(E, g, ['weight'], True)
            L = Opq(CITES, 'Cites')
            E.fact(seqlen(CITES) >= 0)
            if when:
                E.st.pc.append(Select(g.nd, key(t)(HEAD)) != when[0])
                E.st.pc.append((z3.Function('cite_year', U, U)(HEAD) != NONE) == when[1])
            kw = dict(recordToCite=to, headNd=Opq(HEAD, 'Cite') if head else None)
            return [r, L, count, weighted, t, False, False, None, [], False, False], kw, dict(r=r, g=g)

        def post(E, c, o, t=t, head=head, directed=directed, to=to, weighted=weighted, count=count):
            if o[0] != 'return': return [(names[4], FALSE)]
            g, h = c['g'], E.get(c['r'])
            K, hid = key(t), key(t)(HEAD)
            n = seqlen(CITES)
            at = lambda q: K(seqat(CITES, q))
            one = lambda x: fold(E, 'seq', i, If(at(i) == x, 1, 0))(n)
            isnew = If(And(u == hid, Not(Select(g.nd, u))), 1, 0) if head else z3.IntVal(0)
            tot = one(u) + isnew
            num = lambda gg, f, m, a, val, q, kk: If(And(m, Select(a, kk)), ui(Select(val, kk)), 0)
            C, W = E.lit('count'), E.lit('weight')
            cn = lambda gg: If(And(Select(gg.nd, u)), ui(Select(Select(gg.nv, u), C)), 0)
            wt = lambda gg: If(sel2(gg.ed, u, v), ui(Select(sel2(gg.ev, u, v), W)), 0)
            some = lambda x: Exists([i], And(i >= 0, i < n, at(i) == x), patterns=[seqat(CITES, i)])
            if head and not weighted:
                a, b = (u, v) if to else (v, u)
                ex = And(a == hid, some(b))
                if not directed: ex = Or(ex, And(b == hid, some(a)))
            elif not head and not weighted:
                ex = Exists([i, j], And(i >= 0, j > i, j < n, Or(And(at(i) == u, at(j) == v), And(at(i) == v, at(j) == u))), patterns=[z3.MultiPattern(seqat(CITES, i), seqat(CITES, j))])
            if head:
                a, b = (u, v) if to else (v, u)
                e = If(a == hid, one(b), 0)
                if not directed: e = If(a == hid, one(b), If(b == hid, one(a), 0))
            else:
                hit = Or(And(at(i) == u, at(i + 1 + j) == v), And(at(i) == v, at(i + 1 + j) == u))
                e = fold(E, 'seq', i, fold(E, 'seq', j, If(hit, 1, 0))(n - i - 1))(n)
            return [(names[0], ForAll([u], Select(h.nd, u) == Or(Select(g.nd, u), tot > 0, *([u == hid] if head else [])))),
                    (names[1], ForAll([u], Implies(Select(h.nd, u), And(Select(Select(h.na, u), C), cn(h) == cn(g) + tot))) if count else TRUE),
                    (names[2], ForAll([u, v], sel2(h.ed, u, v) == Or(sel2(g.ed, u, v), e > 0 if weighted else ex))),
                    (names[3], ForAll([u, v], Implies(sel2(h.ed, u, v), And(Select(sel2(h.ea, u, v), W), wt(h) == wt(g) + e))) if weighted else TRUE), (names[4], TRUE)]
        V.run(label, setup, post, names, conf)
