"""D02: counts of diffusion on the nodes of a graph"""
from ._lib import *
from .s_graph import graph, u, v, k, edge_attrs_same
from ..core import K_INT, bi
from ..models import sel2

DF = 'metaknowledge.diffusion'
NAME = const('attribute')


def conf(E):
    E.globals[('metaknowledge', 'VERBOSE_MODE')] = False
    E.globals[(DF, 'VERBOSE_MODE')] = False


@contract(DF + ':diffusionAddCountsFromSource', ['D02'])
def addCounts(V):
    names = ['every node has its own count, or none', 'nothing else changes', 'the counts are given back', 'no error']
    for case, directed in (('directed', True), ('undirected', False)):
        def setup(E, directed=directed):
            r, g = graph(E, 'a', directed)
            S, W = const('keys', UB), const('counts', z3.ArraySort(U, I))
            models.cardfacts(E, S)
            E.fact(ForAll([u], Implies(Select(S, u), kind(u) == K_STR), patterns=[Select(S, u)]))
            d = E.alloc(Sym(('D', 'I', 'str'), [S, W]))
            return [r, None, None], dict(diffusionLabel=Opq(NAME, 'str'), countsDict=d), dict(r=r, g=g, d=d, S=S, W=W)

        def post(E, c, o):
            if o[0] != 'return': return [(names[3], FALSE)]
            g, h, S, W = c['g'], E.get(c['r']), c['S'], c['W']
            sh, l = models.place(E, c['d'])
            val = Select(Select(h.nv, u), NAME)
            same = And(h.nd == g.nd, h.ed == g.ed, edge_attrs_same(g, h),
                       ForAll([u, k], Implies(And(Select(g.nd, u), k != NAME), And(Select(Select(h.na, u), k) == Select(Select(g.na, u), k), Implies(Select(Select(g.na, u), k), Select(Select(h.nv, u), k) == Select(Select(g.nv, u), k))))))
            return [(names[0], ForAll([u], Implies(Select(g.nd, u), And(Select(Select(h.na, u), NAME), val == bi(If(Select(S, u), Select(W, u), 0)))))), (names[1], same),
                    (names[2], And(z3.BoolVal(o[1] == c['d']), l[0] == S, l[1] == W)), (names[3], TRUE)]
        V.run(case, setup, post, names, conf)
