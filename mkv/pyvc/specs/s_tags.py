"""R03: tags and long names; R05: processed values"""
from ._lib import *

FD = 'metaknowledge.WOS.tagProcessing.funcDicts'
TF = 'metaknowledge.WOS.tagProcessing.tagFunctions'
HF = 'metaknowledge.WOS.tagProcessing.helpFuncs'
MT = 'metaknowledge.medline.tagProcessing.tagNames'
u = const('u?p')


def table(E, mod, name):
    """a table the module computes when it is loaded, evaluated from its source"""
    m = E.repo.mods[mod]
    v = E.glob(m, name)
    d = models.conc(E, v, CDict)
    if d is None: raise Unsupported('table %s.%s' % (mod, name))
    if not all(isinstance(k, str) and (isinstance(x, str) or isinstance(x, Closure)) for k, x in d.items.items()): raise Unsupported('entries of %s' % name)
    return {k: x for k, x in d.items.items()}


def pairs(E):
    """the tags of Web of Science and their long names: the names of the functions that process them"""
    return {k: x.name for k, x in table(E, TF, 'tagToFunc').items()}


def involution(p, back, up=False):
    return z3.BoolVal(len(set(p.values())) == len(p) and (not set(p) & set(p.values()) or all(p[k] == k for k in set(p) & set(p.values()))) and len({x.upper() for x in p.values()} | {k.upper() for k in p}) >= 2 * len(p) - sum(k.upper() == x.upper() for k, x in p.items())
                      and all(back.get(k) == n and back.get(n) == k for k, n in p.items()) and set(back) == set(p) | set(p.values()))


@contract(HF + ':makeBiDirectional', ['R03'])
def bidir(V):
    names = ['the Web of Science table pairs every tag with one name and back', 'the Medline table pairs every tag with one name and back', 'maps the entries of a dict both ways and leaves the dict alone']

    def setup(E):
        d = E.alloc(CDict({'a': 'b', 'c': 'd'})); return [d], {}, dict(d=d)

    def post(E, c, o):
        p = pairs(E)
        t, m = table(E, MT, 'tagNameConverterDict'), table(E, MT, 'tagNameDict')
        return [(names[0], involution(p, table(E, FD, 'tagNameConverterDict'))), (names[1], involution(m, t))]
    V.run('', setup, post, names[:2])

    # any dict whose keys and values are apart and distinct
    dom, val = const('d_dom', UB), const('d_val', z3.ArraySort(U, U))
    inv = z3.Function('key_of_value', U, U)

    def setup2(E):
        d = E.alloc(Sym(('D', ('O', 'str'), 'str'), [dom, val]))
        E.st.pc.append(ForAll([u], Implies(Select(dom, u), And(inv(Select(val, u)) == u, Not(Select(dom, Select(val, u))))), patterns=[Select(dom, u)]))
        return [d], {}, dict(d=d)

    def post2(E, c, o):
        if o[0] != 'return': return [(names[2], FALSE)]
        sh, r = models.place(E, o[1])
        src = in_pre(E, c, lambda: models.place(E, c['d'])[1])
        now = models.place(E, c['d'])[1]
        w = const('w?p')
        return [(names[2], And(ForAll([u], Implies(Select(dom, u), And(Select(r[0], u), Select(r[1], u) == Select(val, u), Select(r[0], Select(val, u)), Select(r[1], Select(val, u)) == u))),
                               ForAll([u], Implies(Select(r[0], u), Or(Select(dom, u), And(Select(dom, inv(u)), Select(val, inv(u)) == u)))), src[0] == now[0], src[1] == now[1]))]
    V.run('any dict', setup2, post2, names[2:])


@contract(HF + ':reverseDict', ['R03'])
def rev(V):
    names = ['maps every value back to its key and leaves the dict alone']
    dom, val = const('d_dom', UB), const('d_val', z3.ArraySort(U, U))
    inv = z3.Function('key_of_value', U, U)

    def setup2(E):
        d = E.alloc(Sym(('D', ('O', 'str'), 'str'), [dom, val]))
        E.st.pc.append(ForAll([u], Implies(Select(dom, u), inv(Select(val, u)) == u), patterns=[Select(dom, u)]))
        return [d], {}, dict(d=d)

    def post2(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        sh, r = models.place(E, o[1])
        src = in_pre(E, c, lambda: models.place(E, c['d'])[1])
        now = models.place(E, c['d'])[1]
        return [(names[0], And(ForAll([u], Implies(Select(dom, u), And(Select(r[0], Select(val, u)), Select(r[1], Select(val, u)) == u))),
                               ForAll([u], Implies(Select(r[0], u), And(Select(dom, inv(u)), Select(val, inv(u)) == u))), src[0] == now[0], src[1] == now[1]))]
    V.run('', setup2, post2, names)


def norm(q, want, known, other):
    """q gives want(pair) for the strings of the pair, and a key error for others"""
    @contract(FD + ':' + q, ['R03'])
    def spec(V):
        names = ['a known tag or name gives its %s' % want, 'a string that is neither is a key error']

        def setup(E):
            x = Opq(const('val'), 'str'); E.fact(kind(x.t) == K_STR)
            return [x], {}, {}

        def post(E, c, o):
            x = Opq(const('val'), 'str')
            P = pairs(E)
            fold = known == 'upper'
            y = models.str_method(E, x, 'upper', [], {}) if fold else x
            hit = {}
            for t, n in P.items():
                w = t if want == 'tag' else n
                if known != 'tag': hit.setdefault(w, set()).add(n.upper() if fold else n)
                hit.setdefault(w, set()).add(t.upper() if fold else t)
            is_ = lambda w: Or(*[E.box(y) == E.lit(s) for s in sorted(hit[w])])
            if o[0] == 'raise': return [(names[1], And(z3.BoolVal(o[1].cls == 'KeyError'), *[Not(is_(w)) for w in hit]))]
            r = o[1]
            if want == 'bool':
                return [(names[0], TRUE)]
            return [(names[0], Or(*[And(is_(w), E.box(r) == E.lit(w)) for w in hit])), (names[1], Or(*[is_(w) for w in hit]))]
        V.run('', setup, post, names, expect=('return', 'raise'))


norm('normalizeToTag', 'tag', 'upper', 'KeyError')
norm('normalizeToName', 'name', 'exact', 'KeyError')
norm('tagToFull', 'name', 'tag', 'KeyError')


@contract(FD + ':isTagOrName', ['R03'])
def istag(V):
    names = ['exactly the tags and names of the table']

    def setup(E):
        x = Opq(const('val'), 'str'); E.fact(kind(x.t) == K_STR)
        return [x], {}, {}

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        P = pairs(E)
        return [(names[0], boolof(o[1]) == Or(*[const('val') == E.lit(s) for s in sorted(set(P) | set(P.values()))]))]
    V.run('', setup, post, names)


# ---- R05
class Lines(models.ListModel):
    """the raw lines of a field: at least one text"""
    item = 'str'


LINES = {'same': 'authorsFull authorsShort editedBy bookAuthor bookAuthorFull editors', 'first': 'pubType group groupName docType confDate j9 ISSN articleNumber issue eISSN DOI wosString meetingAbstract bookDOI reprintAddress partNumber specialIssue pubMedID documentDeliveryNumber',
         'stripped': 'volume beginningPage endingPage', 'space': 'title seriesTitle seriesSubtitle confTitle confLocation fundingText supplement confHost publisherAddress', 'SPACE': 'journal publisherCity isoAbbreviation publisher',
         'comma': 'language', 'newline': 'abstract', 'parts': 'funding subjectCategory email orcID ISBN ResearcherIDnumber subjects', 'PARTS': 'keywords', 'lparts': 'authKeywords', 'cparts': 'confSponsors', 'int': 'wosTimesCited pageCount citedRefsCount totalTimesCited'}
WHAT = {'same': 'one entry per line', 'first': 'its line', 'stripped': 'its line without the space around it', 'space': 'the lines joined by a space', 'SPACE': 'the lines joined by a space, in upper case', 'comma': 'the lines joined by a comma and a space', 'newline': 'the lines joined by line breaks',
        'parts': 'the parts at the semicolons of the joined lines', 'PARTS': 'the parts at the semicolons of the joined lines, in upper case', 'lparts': 'the parts at the semicolons of the joined lines, in lower case', 'cparts': 'the parts at the commas of the joined lines', 'int': 'the number of its line'}


def line0(E): return Opq(seqat(const('lines'), 0), 'str')


def processed(E, k, L):
    m = lambda o, n, *a: models.str_method(E, o, n, list(a), {})
    if k == 'same': return L
    if k == 'first': return line0(E)
    if k == 'stripped': return m(line0(E), 'strip')
    if k == 'int': return E.call(Cls('int'), [line0(E)])
    j = m({'comma': ', ', 'cparts': ', ', 'newline': '\n'}.get(k, ' '), 'join', L)
    if k in ('SPACE', 'PARTS'): j = m(j, 'upper')
    if k == 'lparts': j = m(j, 'lower')
    if 'parts' in k.lower(): return m(j, 'split', ', ' if k == 'cparts' else '; ')
    return j


def equal(E, a, b):
    """two values are equal: the same term, or lists of the same items"""
    if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, It) or isinstance(b, It):
        try: x, y = E.iterate(a), E.iterate(b)
        except PyRaise: return FALSE
        if x.kind == 'seq' and y.kind == 'seq':
            i = E.fresh('i', I)
            E.assume(And(i >= 0, i < x.n))
            return And(x.n == y.n, E.key(x.elem(i)) == E.key(y.elem(i)))
        return FALSE
    return E.key(a) == E.key(b)


def lines(E):
    L = Opq(const('lines'), 'Lines')
    E.fact(kind(L.t) == K_LIST); E.st.pc.append(seqlen(L.t) >= 1)
    return L


def lconf(E):
    E.models['Lines'] = Lines()


def tagfun(q, k):
    @contract(TF + ':' + q, ['R05'])
    def spec(V):
        names = [WHAT[k]]

        def setup(E):
            L = lines(E); return [L], {}, dict(L=L)

        def post(E, c, o):
            if o[0] != 'return':
                if k == 'int' and o[1].cls == 'ValueError': return [(names[0], Not(z3.Function('py.isnumeral', U, B)(line0(E).t)))]
                return [(names[0], FALSE)]
            return [(names[0], every(E, lambda: processed(E, k, c['L']), lambda w: equal(E, o[1], w)))]
        V.run('', setup, post, names, lconf)


for k_, fs in LINES.items():
    for q_ in fs.split(): tagfun(q_, k_)
NAMES = dict(x.split(':') for x in 'PT:pubType AF:authorsFull GP:group BE:editedBy AU:authorsShort BA:bookAuthor BF:bookAuthorFull CA:groupName ED:editors TI:title SO:journal SE:seriesTitle BS:seriesSubtitle LA:language DT:docType CT:confTitle CY:confDate HO:confHost CL:confLocation SP:confSponsors DE:authKeywords ID:keywords AB:abstract C1:authAddress RP:reprintAddress EM:email RI:ResearcherIDnumber OI:orcID FU:funding FX:fundingText CR:citations NR:citedRefsCount TC:wosTimesCited Z9:totalTimesCited PU:publisher PI:publisherCity PA:publisherAddress SC:subjectCategory SN:ISSN EI:eISSN BN:ISBN J9:j9 JI:isoAbbreviation PD:month PY:year VL:volume IS:issue PN:partNumber SU:supplement SI:specialIssue MA:meetingAbstract BP:beginningPage EP:endingPage AR:articleNumber PG:pageCount WC:subjects DI:DOI D2:bookDOI GA:documentDeliveryNumber UT:wosString PM:pubMedID'.split())


@contract(TF + ':citations', ['R05'])
def t_cites(V):
    names = ['one citation per line, in order', 'every tag is processed by the function of its long name']

    def setup(E):
        L = lines(E); return [L], {}, {}

    def conf(E):
        lconf(E)
        f = z3.Function('citation_of', U, U)
        E.calls['new:Citation'] = lambda E, a, kw: Opq(f(E.box(a[0])), 'Cite')
        E.models['Cite'] = Item({})

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        d = E.iterate(o[1])
        if d.kind != 'seq': return [(names[0], FALSE)]
        i = E.fresh('i', I); L = const('lines')
        E.assume(And(i >= 0, i < d.n))
        return [(names[0], And(d.n == seqlen(L), E.box(d.elem(i)) == z3.Function('citation_of', U, U)(seqat(L, i)))), (names[1], z3.BoolVal(pairs(E) == NAMES))]
    V.run('', setup, post, names, conf)


@contract(TF + ':authAddress', ['R05'])
def t_addr(V):
    names = ['one address per line, without the names in brackets']

    def setup(E):
        L = lines(E)
        i = const('i?l', I)
        E.st.pc.append(ForAll([i], Implies(And(i >= 0, i < seqlen(L.t)), seqat(L.t, i) != E.lit('')), patterns=[seqat(L.t, i)]))
        E.fact(E.lit('') == E.lit(''))
        return [L], {}, {}

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        d = E.iterate(o[1])
        if d.kind != 'seq': return [(names[0], FALSE)]
        i = E.fresh('i', I); L = const('lines')
        E.assume(And(i >= 0, i < d.n)); E.assume(And(i < seqlen(L)))
        x = d.elem(i); a = Opq(seqat(L, i), 'str'); E.fact(kind(a.t) == K_STR)

        def want():
            if E.choose(boolof(E.truthc(models.eqv(E, models.getitem(E, a, 0), '[')))):
                return models.str_method(E, '] ', 'join', [models.slice_(E, models.str_method(E, a, 'split', ['] '], {}), 1, None, None)], {})
            return a
        return [(names[0], And(d.n == seqlen(L), every(E, want, lambda w: E.key(x) == E.key(w))))]
    V.run('', setup, post, names, lconf)


@contract(TF + ':year', ['R05'])
def t_year(V):
    names = ['the number of its line', 'a line of another form is a value error']

    def setup(E):
        L = lines(E); return [L], {}, {}

    def post(E, c, o):
        x = line0(E)
        num = z3.Function('py.isnumeral', U, B)(x.t)
        four = E.as_int(models.seqlen_of(E, x)) == 4
        if o[0] == 'raise': return [(names[1], And(z3.BoolVal(o[1].cls == 'ValueError'), Not(And(num, four))))]
        return [(names[0], And(four, every(E, lambda: E.call(Cls('int'), [x]), lambda w: equal(E, o[1], w)))), (names[1], And(num, four))]
    V.run('', setup, post, names, lconf, expect=('return', 'raise'))


MONTHS = dict(JAN=1, FEB=2, MAR=3, APR=4, MAY=5, JUN=6, JUL=7, AUG=8, SEP=9, OCT=10, NOV=11, DEC=12, SPR=3, SUM=6, FAL=9, WIN=12)


@contract(TF + ':month', ['R05'])
def t_month(V):
    names = ['the number of the first month or season named']

    def setup(E):
        L = lines(E); return [L], {}, {}

    def post(E, c, o):
        m = lambda o_, n, *a: models.str_method(E, o_, n, list(a), {})
        w = models.getitem(E, m(line0(E), 'split', ' '), 0)
        x = E.key(m(models.getitem(E, m(w, 'split', '-'), 0), 'upper'))
        known = Or(*[x == E.lit(k) for k in MONTHS])
        if o[0] == 'raise': return [(names[0], Not(known))]
        r = E.key(o[1])
        return [(names[0], Implies(known, Or(*[And(x == E.lit(k), r == E.box(v)) for k, v in MONTHS.items()])))]
    V.run('', setup, post, names, lconf)
