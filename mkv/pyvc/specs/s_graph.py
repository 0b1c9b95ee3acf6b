"""G01, G02, G03, G05: networks after dropping, merging; their degrees"""
from ._lib import *
from ..core import HGraph, GS, K_INT
from ..models import sel2, pair, fst, snd

u, v, k = const('u?p'), const('v?p'), const('k?p')
GH = 'metaknowledge.graphHelpers'
NAME = const('attribute')


def graph(E, tag, directed):
    """any graph: undirected ones are symmetric, edges join nodes"""
    g = HGraph(directed, *[const('%s_%s' % (f, tag), GS[f]) for f in HGraph.FIELDS])
    E.st.pc.append(ForAll([u, v], Implies(sel2(g.ed, u, v), And(Select(g.nd, u), Select(g.nd, v))), patterns=[sel2(g.ed, u, v)]))
    if not directed:
        for a, n in ((g.ed, 'ed'), (g.ea, 'ea'), (g.ev, 'ev')):
            E.st.pc.append(ForAll([u, v], sel2(a, u, v) == sel2(a, v, u), patterns=[sel2(a, u, v)]))
    models.cardfacts(E, g.nd)
    return E.alloc(g), g


def ints(E, g, name, nodes=False):
    """the values under a name are integers"""
    x = Select(Select(g.nv, u), name) if nodes else Select(sel2(g.ev, u, v), name)
    E.st.pc.append(ForAll([u] if nodes else [u, v], kind(x) == K_INT, patterns=[x]))
    E.attrints = set(getattr(E, 'attrints', ())) | {name.sexpr()}


def conf(E):
    E.globals[('metaknowledge', 'VERBOSE_MODE')] = False


def nodes_same(g, h):
    return And(g.nd == h.nd, ForAll([u], Implies(Select(g.nd, u), And(Select(g.na, u) == Select(h.na, u), Select(g.nv, u) == Select(h.nv, u)))))


def edge_attrs_same(g, h):
    """the edges of h have the attributes they have in g"""
    return ForAll([u, v], Implies(sel2(h.ed, u, v), And(sel2(g.ea, u, v) == sel2(h.ea, u, v), sel2(g.ev, u, v) == sel2(h.ev, u, v))))


@contract(GH + ':dropEdges', ['G01'])
def dropEdges(V):
    names = ['exactly the edges inside the bounds stay', 'nodes and attributes stay', 'an edge without weight is an error unless allowed']
    for case, directed, loops_, lo, hi, ignore in (('directed', True, False, True, True, False), ('directed without loops', True, True, True, True, True), ('undirected', False, False, True, True, True),
                                                  ('undirected without loops', False, True, True, False, False), ('upper bound', True, False, False, True, False), ('loops only', False, True, False, False, False)):
        def setup(E, directed=directed, loops_=loops_, lo=lo, hi=hi, ignore=ignore):
            r, g = graph(E, 'a', directed)
            ints(E, g, NAME)
            kw = dict(parameterName=Opq(NAME, 'str'), ignoreUnweighted=ignore, dropSelfLoops=loops_)
            if lo: kw['minWeight'] = const('low', I)
            if hi: kw['maxWeight'] = const('high', I)
            return [r], kw, dict(r=r, g=g)

        def post(E, c, o, loops_=loops_, lo=lo, hi=hi, ignore=ignore):
            g, h = c['g'], E.get(c['r'])
            hasw = Select(sel2(g.ea, u, v), NAME)
            wt = ui(Select(sel2(g.ev, u, v), NAME))
            cand = And(sel2(g.ed, u, v), Not(u == v)) if loops_ else sel2(g.ed, u, v)
            without = Exists([u, v], And(cand, Not(hasw)))
            bounded = lo or hi
            if o[0] == 'raise':
                return [(names[2], And(o[1].cls == 'KeyError', bounded, not ignore, without))]
            out = Or(*([wt < const('low', I)] if lo else []), *([wt > const('high', I)] if hi else []))
            return [(names[0], ForAll([u, v], sel2(h.ed, u, v) == And(cand, Not(And(hasw, out))))), (names[1], And(nodes_same(g, h), edge_attrs_same(g, h))),
                    (names[2], TRUE if ignore or not bounded else Not(without))]
        V.run(case, setup, post, names, conf)


def kept(g, h, bad):
    """the nodes of g without those that are bad, and the edges among them, with their attributes"""
    good = lambda x: And(Select(g.nd, x), Not(bad(x)))
    return (ForAll([u], Select(h.nd, u) == good(u)),
            And(ForAll([u, v], sel2(h.ed, u, v) == And(sel2(g.ed, u, v), good(u), good(v))), edge_attrs_same(g, h),
                ForAll([u], Implies(Select(h.nd, u), And(Select(g.na, u) == Select(h.na, u), Select(g.nv, u) == Select(h.nv, u))))))


def outside(x, lo, hi): return Or(*([x < const('low', I)] if lo else []), *([x > const('high', I)] if hi else []))


def bounds(lo, hi, a, b):
    kw = {}
    if lo: kw[a] = const('low', I)
    if hi: kw[b] = const('high', I)
    return kw


def incident(E, r, x):
    """the edges listed for a node, as a set of pairs"""
    return models.edgeset(E, r, x)


@contract(GH + ':dropNodesByCount', ['G02'])
def dropNodesByCount(V):
    names = ['exactly the nodes inside the bounds stay', 'edges among them and attributes stay', 'a node without count is an error unless allowed']
    for case, lo, hi, ignore in (('both bounds', True, True, False), ('both bounds, missing allowed', True, True, True), ('lower bound', True, False, True), ('no bound', False, False, False)):
        def setup(E, lo=lo, hi=hi, ignore=ignore):
            r, g = graph(E, 'a', False)
            ints(E, g, NAME, nodes=True)
            return [r], dict(parameterName=Opq(NAME, 'str'), ignoreMissing=ignore, **bounds(lo, hi, 'minCount', 'maxCount')), dict(r=r, g=g)

        def post(E, c, o, lo=lo, hi=hi, ignore=ignore):
            g, h = c['g'], E.get(c['r'])
            hasc = lambda x: Select(Select(g.na, x), NAME)
            without = Exists([u], And(Select(g.nd, u), Not(hasc(u))))
            if o[0] == 'raise': return [(names[2], And(o[1].cls == 'KeyError', not ignore, without))]
            a, b = kept(g, h, lambda x: And(hasc(x), outside(ui(Select(Select(g.nv, x), NAME)), lo, hi)))
            return [(names[0], a), (names[1], b), (names[2], TRUE if ignore else Not(without))]
        V.run(case, setup, post, names, conf)


@contract(GH + ':dropNodesByDegree', ['G02'])
def dropNodesByDegree(V):
    names = ['exactly the nodes inside the bounds stay', 'edges among them and attributes stay', 'an edge without weight is an error unless allowed']
    p = const('p?p')
    for case, lo, hi, use, allow in (('weights', True, True, True, True), ('weights needed', True, False, True, False), ('number of edges', True, True, False, True)):
        for directed in (False, True):
            def setup(E, lo=lo, hi=hi, use=use, allow=allow, directed=directed):
                r, g = graph(E, 'a', directed)
                ints(E, g, NAME)
                return [r], dict(parameterName=Opq(NAME, 'str'), useWeight=use, includeUnweighted=allow, **bounds(lo, hi, 'minDegree', 'maxDegree')), dict(r=r, g=g)

            def post(E, c, o, lo=lo, hi=hi, use=use, allow=allow):
                g, h = c['g'], E.get(c['r'])
                hasw = lambda x, y: Select(sel2(g.ea, x, y), NAME)
                without = Exists([u, v], And(sel2(g.ed, u, v), Not(hasw(u, v))))
                if o[0] == 'raise': return [(names[2], And(o[1].cls == 'KeyError', use, not allow, without))]
                one = If(hasw(fst(p), snd(p)), ui(Select(sel2(g.ev, fst(p), snd(p)), NAME)), 1)
                r0 = E.alloc(g)
                deg = (lambda x: fold(E, 'set', p, one)(incident(E, r0, x))) if use else lambda x: models.card(incident(E, r0, x))
                a, b = kept(g, h, lambda x: outside(deg(x), lo, hi))
                return [(names[0], a), (names[1], b), (names[2], TRUE if allow or not use else Not(without))]
            V.run(case + (' (directed)' if directed else ''), setup, post, names, conf)


@contract(GH + ':mergeGraphs', ['G03'])
def mergeGraphs(V):
    CN, EN = const('node_value'), const('edge_value')
    names = ['exactly the nodes and edges of both', 'node counts add up', 'other node attributes are kept or brought', 'edge weights add up', 'other edge attributes are kept or brought', 'the added graph is unchanged', 'no error']
    for directed in (False, True):
        for case, cn, en in (('counts and weights', True, True), ('nothing to add', False, False)):
            def setup(E, directed=directed, cn=cn, en=en):
                r, g = graph(E, 'a', directed)
                q, a = graph(E, 'b', directed)
                for x in (g, a): ints(E, x, CN, nodes=True); ints(E, x, EN)
                E.st.pc += [truthy(CN), truthy(EN)]
                E.attrpre = True
                return [r, q], dict(incrementedNodeVal=Opq(CN, 'str') if cn else None, incrementedEdgeVal=Opq(EN, 'str') if en else None), dict(r=r, q=q, g=g, a=a)

            def post(E, c, o, directed=directed, cn=cn, en=en):
                g, a, h, b = c['g'], c['a'], E.get(c['r']), E.get(c['q'])
                if o[0] == 'raise': return [(names[6], FALSE)]

                def attrs(gin, ain, gh, gv, ah, av, hh, hv, key, on):
                    """the attributes of something in h from those it has in g and a"""
                    H = And(gin, Select(gh, k)), And(ain, Select(ah, k))
                    mine = lambda: Implies(H[0], Select(hv, k) == Select(gv, k))
                    n = And(gin, Select(gh, key)), And(ain, Select(ah, key))
                    num = (Implies(And(*n), And(Select(hh, key), ui(Select(hv, key)) == ui(Select(gv, key)) + ui(Select(av, key)))) if on else TRUE,)
                    both = And(gin, ain)
                    only = [Implies(And(gin, Not(ain)), And(Select(hh, k) == Select(gh, k), mine())), Implies(And(ain, Not(gin)), And(Select(hh, k) == Select(ah, k), Implies(Select(ah, k), Select(hv, k) == Select(av, k))))]
                    rest = Implies(And(both, Or(k != key, Not(on), Not(And(*n)))), And(Implies(H[0], Select(hh, k)), mine()))
                    return And(*num), And(*only, rest)
                nn, nr = attrs(Select(g.nd, u), Select(a.nd, u), Select(g.na, u), Select(g.nv, u), Select(a.na, u), Select(a.nv, u), Select(h.na, u), Select(h.nv, u), CN, cn)
                S2 = lambda x: sel2(x, u, v)
                en_, er = attrs(S2(g.ed), S2(a.ed), S2(g.ea), S2(g.ev), S2(a.ea), S2(a.ev), S2(h.ea), S2(h.ev), EN, en)
                return [(names[0], And(ForAll([u], Select(h.nd, u) == Or(Select(g.nd, u), Select(a.nd, u))), ForAll([u, v], sel2(h.ed, u, v) == Or(sel2(g.ed, u, v), sel2(a.ed, u, v))))),
                        (names[1], ForAll([u], nn)), (names[2], ForAll([u, k], nr)), (names[3], ForAll([u, v], en_)), (names[4], ForAll([u, v, k], er)),
                        (names[5], And(*[getattr(b, f) == getattr(a, f) for f in HGraph.FIELDS])), (names[6], TRUE)]
            V.run(case + (' (directed)' if directed else ''), setup, post, names, conf)


DEG = [('weights', True, False, 'bi', False), ('weights at the end', True, False, 'in', True), ('weights at the start', True, False, 'out', True), ('weights at both', True, False, 'bi', True),
       ('weights needed', True, True, 'bi', False), ('number of edges', False, False, 'bi', False)]


def table(E, d):
    """a dict of integers: is a key there, what is its value"""
    sh, l = models.place(E, d)
    l = models.conv(E, sh, l, ('D', 'I', 'any')) if sh[0] != 'C' else models.conv(E, sh, l, ('D', 'I', 'str'))
    return (lambda x: Select(l[0], x)), (lambda x: Select(l[1], x))


def degree(E, g, x, use, kind_):
    """the sum of the weights of the edges at x, one for an edge without"""
    p = const('p?p')
    w = If(Select(sel2(g.ea, fst(p), snd(p)), NAME), ui(Select(sel2(g.ev, fst(p), snd(p)), NAME)), 1) if use else z3.IntVal(1)
    one = (If(fst(p) == x, w, 0) if kind_ != 'in' else 0) + (If(snd(p) == x, w, 0) if kind_ != 'out' else 0)
    return fold(E, 'set', p, one)(models.edgeset(E, E.alloc(g)))


@contract(GH + ':getNodeDegrees', ['G05'])
def getNodeDegrees(V):
    names = ['exactly the nodes of the graph', 'the degree is the sum of the weights', 'an edge without weight is an error only if asked', 'the graph is unchanged']
    for case, use, strict, how, directed in DEG:
        def setup(E, use=use, strict=strict, how=how, directed=directed):
            r, g = graph(E, 'a', directed)
            ints(E, g, NAME)
            E.st.pc.append(truthy(NAME))
            return [r], dict(weightString=Opq(NAME, 'str') if use else None, strictMode=strict, edgeType=how), dict(r=r, g=g)

        def post(E, c, o, use=use, strict=strict, how=how):
            g, h = c['g'], E.get(c['r'])
            without = Exists([u, v], And(sel2(g.ed, u, v), Not(Select(sel2(g.ea, u, v), NAME))))
            if o[0] == 'raise': return [(names[2], And(o[1].cls == 'KeyError', use, strict, without))]
            has, num = table(E, o[1])
            return [(names[0], ForAll([u], has(u) == Select(g.nd, u))), (names[1], ForAll([u], Implies(Select(g.nd, u), num(u) == degree(E, g, u, use, how)))),
                    (names[2], Not(without) if use and strict else TRUE), (names[3], And(*[getattr(h, f) == getattr(g, f) for f in HGraph.FIELDS]))]
        V.run(case, setup, post, names, conf)


@contract(GH + ':getDegreeDistribution', ['G05'])
def getDegreeDistribution(V):
    names = ['as long as the greatest degree asks for', 'each entry is the number of nodes with that degree', 'an edge without weight is an error only if asked']
    i = const('i?p', I)
    for case, use, strict, how, directed in DEG:
        def setup(E, use=use, strict=strict, how=how, directed=directed):
            r, g = graph(E, 'a', directed)
            ints(E, g, NAME)
            x = Select(sel2(g.ev, u, v), NAME)
            E.st.pc += [truthy(NAME), ForAll([u, v], ui(x) >= 0, patterns=[x]), Exists([u], Select(g.nd, u))]
            return [r], dict(weightParameter=Opq(NAME, 'str') if use else None, strictWeightNames=strict, directionalType=how), dict(r=r, g=g)

        def post(E, c, o, use=use, strict=strict, how=how):
            g = c['g']
            without = Exists([u, v], And(sel2(g.ed, u, v), Not(Select(sel2(g.ea, u, v), NAME))))
            if o[0] == 'raise': return [(names[2], And(o[1].cls == 'KeyError', use, strict, without))]
            sh, l = models.place(E, o[1])
            deg = lambda x: degree(E, g, x, use, how)
            return [(names[0], And(l[0] >= 1, ForAll([u], Implies(Select(g.nd, u), deg(u) < l[0])), Exists([u], And(Select(g.nd, u), deg(u) == l[0] - 1)))),
                    (names[1], ForAll([i], Implies(And(0 <= i, i < l[0]), Select(l[1], i) == fold(E, 'set', u, If(deg(u) == i, 1, 0))(g.nd)))),
                    (names[2], Not(without) if use and strict else TRUE)]
        V.run(case, setup, post, names, conf)
