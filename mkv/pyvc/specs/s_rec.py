"""R01, R02, R04: records"""
from ._lib import *

MR = 'metaknowledge.mkRecord'
KINDS = [('metaknowledge.WOS.recordWOS', 'WOSRecord'), ('metaknowledge.medline.recordMedline', 'MedlineRecord'), ('metaknowledge.scopus.recordScopus', 'ScopusRecord'), ('metaknowledge.proquest.recordProQuest', 'ProQuestRecord')]
GRANT = ('metaknowledge.grants.cihrGrant', 'CIHRGrant')
u = const('u?p')
UU = z3.ArraySort(U, U)


def record(E, tag, kl, bad=None, memo=None):
    """a record of a class with unknown fields"""
    t = lambda n: const(n + '_' + tag)
    E.fact(kind(t('id')) == K_STR)
    attrs = {'_sourceFile': Opq(t('file'), 'str'), '_sourceLine': Opq(t('line'), 'any'), 'bad': const('bad_' + tag, B) if bad is None else bad, 'error': Opq(t('error')), '_id': Opq(t('id'), 'str'),
             '_fieldDict': E.alloc(Sym(('D', 'U', 'str'), [const('fdom_' + tag, UB), const('fval_' + tag, UU)]))}
    if kl[1] == 'CIHRGrant': attrs['original'] = Opq(t('original'), 'str')
    else:
        attrs['_computedFields'] = E.alloc(Sym(('D', 'U', 'any'), [const('mdom_' + tag, UB), const('mval_' + tag, UU)]))
        attrs[{'WOSRecord': '_wosNum', 'MedlineRecord': '_pubNum', 'ScopusRecord': '_scopusNum', 'ProQuestRecord': '_proID'}[kl[1]]] = Opq(t('id'), 'str')
    return E.alloc(HObj(cls(E, *kl), attrs))


def same(x, y):
    return x is y or (isinstance(x, Opq) and isinstance(y, Opq) and x.t.eq(y.t)) or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))


def arrays(E, v):
    """the arrays of a dict value"""
    if not isinstance(v, Ref) or not isinstance(E.get(v), (CDict, Sym)): return None
    sh, l = models.place(E, v)
    if sh[0] == 'C': l = models.conv(E, sh, l, models.c2d(sh)); sh = models.c2d(sh)
    return l


def kept(E, c, r, skip=()):
    """every attribute of the record is what it was before the call"""
    a, b = c['pre'].heap[r.a].attrs, E.get(r).attrs
    g = []
    for n in a:
        if n in skip: continue
        if n not in b: return FALSE
        if isinstance(a[n], Ref):
            if not (isinstance(b[n], Ref) and b[n].a == a[n].a): return FALSE
            x, y = in_pre(E, c, lambda: arrays(E, a[n])), arrays(E, b[n])
            if x is None or y is None or len(x) != len(y): return FALSE
            g += [p == q for p, q in zip(x, y)]
        elif not same(a[n], b[n]): return FALSE
    return And(*g)


@contract(MR + ':Record.__hash__', ['R02'])
def rhash(V):
    names = ['never fails, changes nothing', 'good records of the same ID hash alike']
    for kl in KINDS + [GRANT]:
        def setup(E, kl=kl):
            r, q = record(E, 'a', kl), record(E, 'b', kl); return [r], {}, dict(r=r, q=q)

        def post(E, c, o):
            if o[0] != 'return' or E.as_int(o[1]) is None: return [(names[0], FALSE)]
            g = [(names[0], kept(E, c, c['r']))]
            h = every(E, lambda: E.call(models.getattr_(E, c['q'], '__hash__'), []), lambda v: E.as_int(v) == E.as_int(o[1]))
            return g + [(names[1], Implies(And(Not(const('bad_a', B)), Not(const('bad_b', B)), const('id_a') == const('id_b')), h))]
        V.run(kl[1], setup, post, names)


@contract(MR + ':Record.__eq__', ['R02'])
def req(V):
    names = ['good records are equal exactly when their IDs are', 'changes nothing']
    for kl in KINDS + [GRANT]:
        def setup(E, kl=kl):
            a, b = record(E, 'a', kl), record(E, 'b', kl); return [a, b], {}, dict(a=a, b=b)

        def post(E, c, o):
            if o[0] != 'return': return [(names[0], FALSE)]
            r = boolof(o[1])
            if not z3.is_expr(r): return [(names[0], FALSE)]
            return [(names[0], Implies(And(Not(const('bad_a', B)), Not(const('bad_b', B))), r == (const('id_a') == const('id_b')))), (names[1], And(kept(E, c, c['a']), kept(E, c, c['b'])))]
        V.run(kl[1], setup, post, names)
        # itself, good or bad

        def setup1(E, kl=kl):
            a = record(E, 'a', kl); return [a, a], {}, dict(a=a)

        def post1(E, c, o): return [('equals itself', boolof(o[1]) if o[0] == 'return' else FALSE)]
        V.run(kl[1] + ', itself', setup1, post1, ['equals itself'])

        def post2(E, c, o): return [('a value that is not a record is left to its own comparison, so never equal', z3.BoolVal(o[0] == 'return' and isinstance(o[1], Builtin) and o[1].name == 'NotImplemented'))]
        for nm, mk in (('text', lambda E: Opq(const('text'), 'str')), ('nothing', lambda E: None), ('number', lambda E: const('n', I)), ('tuple', lambda E: (Opq(const('x'), 'any'),)), ('dict', lambda E: E.alloc(Sym(('D', 'U', 'any'), [const('od', UB), const('ov', UU)]))),
                       ('another object', lambda E: E.alloc(HObj(cls(E, 'metaknowledge.citation', 'Citation'), {})))):
            def setup2(E, mk=mk, kl=kl):
                a = record(E, 'a', kl); return [a, mk(E)], {}, dict(a=a)
            V.run(kl[1] + ', ' + nm, setup2, post2, ['a value that is not a record is left to its own comparison, so never equal'])


def twin(E, c, r, n):
    """n is a record with the attributes of r and containers of its own"""
    a, b = E.get(r).attrs, E.get(n).attrs
    g = [z3.BoolVal(E.get(n).cls == E.get(r).cls and n.a != r.a and set(a) == set(b))]
    if not z3.is_true(g[0]): return FALSE
    for k in a:
        if k == '_computedFields':       # the memo: any content that a lookup would put there; its own dict
            x = arrays(E, b[k])
            if not isinstance(b[k], Ref) or b[k].a == a[k].a or x is None: return FALSE
            if len(x) < 2: continue      # empty
            y = arrays(E, a[k])
            g.append(And(*[p == q for p, q in zip(x, y)]) if len(y) == len(x) else FALSE)
        elif isinstance(a[k], Ref):
            if not isinstance(b[k], Ref) or b[k].a == a[k].a: return FALSE
            x, y = arrays(E, a[k]), arrays(E, b[k])
            if x is None or y is None or len(x) != len(y): return FALSE
            g += [p == q for p, q in zip(x, y)]
        elif not same(a[k], b[k]): return FALSE
    return And(*g)


@contract(MR + ':Record.copy', ['R02'])
def rcopy(V):
    names = ['the same ID, flags, fields and values in containers of its own', 'the original is unchanged', 'equals the original']
    for kl in KINDS + [GRANT]:
        def setup(E, kl=kl):
            r = record(E, 'a', kl); return [r], {}, dict(r=r)

        def post(E, c, o):
            if o[0] != 'return' or not (isinstance(o[1], Ref) and isinstance(E.get(o[1]), HObj)): return [(names[0], FALSE)]
            g = [(names[0], twin(E, c, c['r'], o[1])), (names[1], kept(E, c, c['r']))]
            m = lambda x, y: E.call(models.getattr_(E, x, '__eq__'), [y])
            return g + [(names[2], both(E, m, c['r'], o[1]))]
        V.run(kl[1], setup, post, names)


def both(E, m, a, b): return every(E, lambda: m(a, b), boolof)


@contract(MR + ':Record.__setstate__', ['R02'])
def pickled(V):
    names = ['restored with the same ID, flags, fields and values', 'the original is unchanged', 'equals the original']
    for kl in KINDS + [GRANT]:
        def setup(E, kl=kl):
            r = record(E, 'a', kl)
            st = E.call(models.getattr_(E, r, '__getstate__'), [])
            d = models.conc(E, st, CDict)
            if d is None: raise Unsupported('state of unknown keys')
            # pickling gives back equal values in new containers
            st2 = E.alloc(CDict({k: E.alloc(E.get(v)) if isinstance(v, Ref) else v for k, v in d.items.items()}))
            n = E.alloc(HObj(cls(E, *kl), {}))
            E.notes.add('pickle restores equal values (library)')
            return [n, st2], {}, dict(r=r, n=n)

        def post(E, c, o):
            if o[0] != 'return': return [(names[0], FALSE)]
            m = lambda x, y: E.call(models.getattr_(E, x, '__eq__'), [y])
            return [(names[0], twin(E, c, c['r'], c['n'])), (names[1], kept(E, c, c['r'])), (names[2], both(E, m, c['r'], c['n']))]
        V.run(kl[1], setup, post, names)


@contract('metaknowledge.grants.baseGrant:Grant.__setitem__', ['R02'])
def gset(V):
    names = ['sets the field of this grant and nothing else']

    def setup(E):
        r = record(E, 'a', GRANT); E.fact(kind(const('k')) == K_STR)
        return [r, Opq(const('k'), 'str'), Opq(const('v'))], {}, dict(r=r)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        l = arrays(E, E.get(c['r']).attrs['_fieldDict'])
        return [(names[0], And(kept(E, c, c['r'], ('_fieldDict',)), l[0] == Store(const('fdom_a', UB), const('k'), True), l[1] == Store(const('fval_a', UU), const('k'), const('v'))))]
    V.run('', setup, post, names)


@contract('metaknowledge.grants.baseGrant:Grant.__delitem__', ['R02'])
def gdel(V):
    names = ['removes the field of this grant and nothing else', 'a missing field is a KeyError']

    def setup(E):
        r = record(E, 'a', GRANT); E.fact(kind(const('k')) == K_STR)
        return [r, Opq(const('k'), 'str')], {}, dict(r=r)

    def post(E, c, o):
        there = Select(const('fdom_a', UB), const('k'))
        l = arrays(E, E.get(c['r']).attrs['_fieldDict'])
        if o[0] != 'return': return [(names[1], And(z3.BoolVal(o[1].cls == 'KeyError'), Not(there), kept(E, c, c['r'])))]
        return [(names[0], And(there, kept(E, c, c['r'], ('_fieldDict',)), l[0] == Store(const('fdom_a', UB), const('k'), False), ForAll([u], Implies(Select(l[0], u), Select(l[1], u) == Select(const('fval_a', UU), u))))), (names[1], TRUE)]
    V.run('', setup, post, names)


# ---- R01
proc = z3.Function('processed', U, U, U)         # tag, raw value -> processed value
special = z3.Function('special', U, U)           # key -> value of the special functions of this record
sp = z3.Function('is_special', U, B)
TABLES = {'WOSRecord': 'metaknowledge.WOS.tagProcessing.funcDicts', 'MedlineRecord': 'metaknowledge.medline.tagProcessing.tagNames'}
fdom, fval, mdom, mval = const('fdom_a', UB), const('fval_a', UU), const('mdom_a', UB), const('mval_a', UU)
adom, aval = const('alt_dom', UB), const('alt_val', UU)


class Lookup:
    """what a lookup in the record has to give"""
    def __init__(self, table): self.table = table

    def alt(self, k): return And(Select(adom, k), Select(fdom, Select(aval, k))) if self.table else FALSE

    def has(self, k): return Or(Select(fdom, k), self.alt(k), sp(k))

    def val(self, k): return If(Select(fdom, k), proc(k, Select(fval, k)), If(self.alt(k), proc(Select(aval, k), Select(fval, Select(aval, k))), special(k)) if self.table else special(k))

    def inv(self, md, mv): return ForAll([u], Implies(Select(md, u), And(self.has(u), Select(mv, u) == self.val(u))), patterns=[Select(md, u)])


def lookup_conf(kl):
    def conf(E):
        if kl[1] in TABLES: E.globals[(TABLES[kl[1]], 'tagNameConverterDict')] = E.globals_alt

        def tpf(E, args, kw):
            k = E.key(args[-1])
            n = 'spec:proc:%s' % k.get_id()
            E.keepalive = getattr(E, 'keepalive', []) + [k]
            E.calls[n] = lambda E, a, kw_: models.unb(E, proc(k, E.box(a[0])))
            return Builtin(n)

        def spf(E, args, kw):
            k = E.key(args[-1])
            if not E.choose(sp(k)): E.throw('KeyError')
            return models.unb(E, special(k))
        q = '%s.%s.' % kl
        E.calls[q + 'tagProcessingFunc'] = tpf
        E.calls[q + 'specialFuncs'] = spf
        E.notes.add('the processing and special functions of a record are functions of its fields that succeed on well-formed ones (their contracts: R05)')
    return conf


def known(E, kl):
    """a record whose memo holds what earlier lookups put there"""
    L = Lookup(kl[1] in TABLES)
    r = record(E, 'a', kl)
    if L.table:
        E.globals[(TABLES[kl[1]], 'tagNameConverterDict')] = E.alloc(Sym(('D', ('O', 'str'), 'str'), [adom, aval]))
        # the table pairs every tag with its name and the name with the tag (R03); a record holds tags, not names
        E.st.pc.append(ForAll([u], Implies(Select(adom, u), And(Select(adom, Select(aval, u)), Select(aval, Select(aval, u)) == u, kind(Select(aval, u)) == K_STR)), patterns=[Select(adom, u)]))
        E.st.pc.append(ForAll([u], Implies(And(Select(adom, u), Select(fdom, u), Select(fdom, Select(aval, u))), Select(aval, u) == u), patterns=[Select(adom, u)]))
        E.st.pc.append(ForAll([u], Implies(sp(u), Not(Select(adom, u))), patterns=[sp(u)]))
    E.st.pc.append(Not(Select(fdom, NONE))); E.st.pc.append(Not(sp(NONE)))
    E.st.pc.append(L.inv(mdom, mval))
    E.fact(kind(const('k')) == K_STR)
    return r, L


def memo(E, c):
    a = E.get(c['r']).attrs['_computedFields']
    l = arrays(E, a)
    return c['L'].inv(*l)


def lookups(q, names, args, post):
    @contract(MR + ':ExtendedRecord.' + q, ['R01'])
    def spec(V):
        for kl in KINDS:
            def setup(E, kl=kl):
                r, L = known(E, kl)
                return [r] + args(E), {}, dict(r=r, L=L)

            def conf(E, kl=kl):
                lookup_conf_(E, kl)

            def p(E, c, o):
                g = post(E, c, o)
                return g + [(names[-2], memo(E, c)), (names[-1], kept(E, c, c['r'], ('_computedFields',)))]
            V.run(kl[1], setup, p, names, conf, expect=('return', 'raise'))


def lookup_conf_(E, kl):
    E.globals_alt = None
    if kl[1] in TABLES: E.globals_alt = Builtin('table')
    lookup_conf(kl)(E)


K = Opq(const('k'), 'str')
MEMO = ['what is remembered is what a fresh lookup would give', 'nothing else changes']


def p_get(E, c, o):
    L, k = c['L'], const('k')
    if o[0] == 'raise': return [('a lookup fails, with a key error, exactly for keys that are not there', And(z3.BoolVal(o[1].cls == 'KeyError'), Not(L.has(k))))]
    return [('a lookup gives the processed value of the field under either of its names', And(L.has(k), E.box(o[1]) == L.val(k)))]


lookups('__getitem__', ['a lookup gives the processed value of the field under either of its names', 'a lookup fails, with a key error, exactly for keys that are not there'] + MEMO, lambda E: [K], p_get)


def p_in(E, c, o):
    if o[0] == 'raise': return [('a key is in the record exactly when looking it up succeeds', FALSE)]
    return [('a key is in the record exactly when looking it up succeeds', boolof(o[1]) == c['L'].has(const('k')))]


lookups('__contains__', ['a key is in the record exactly when looking it up succeeds'] + MEMO, lambda E: [K], p_in)


def p_getd(E, c, o):
    L, k = c['L'], const('k')
    if o[0] == 'raise': return [('get gives the value of the lookup, or the default', FALSE)]
    return [('get gives the value of the lookup, or the default', E.box(o[1]) == If(L.has(k), L.val(k), const('default')))]


lookups('get', ['get gives the value of the lookup, or the default'] + MEMO, lambda E: [K, Opq(const('default'))], p_getd)


@contract(MR + ':ExtendedRecord.get', ['R01'])
def getraw(V):
    names = ['a raw get gives the raw field under either of its names, or the default'] + MEMO
    for kl in KINDS:
        def setup(E, kl=kl):
            r, L = known(E, kl)
            return [r, K, Opq(const('default'))], {'raw': True}, dict(r=r, L=L)

        def post(E, c, o):
            if o[0] == 'raise': return [(names[0], FALSE)]
            L, k = c['L'], const('k')
            return [(names[0], E.box(o[1]) == If(Select(fdom, k), Select(fval, k), If(L.alt(k), Select(fval, Select(aval, k)), const('default')) if L.table else const('default'))), (names[1], memo(E, c)), (names[2], kept(E, c, c['r'], ('_computedFields',)))]
        V.run(kl[1] + ', raw', setup, post, names, lambda E, kl=kl: lookup_conf_(E, kl))


@contract(MR + ':Record.__len__', ['R01'])
def rlen(V):
    def setup(E):
        r = record(E, 'a', KINDS[0]); models.cardfacts(E, fdom); return [r], {}, dict(r=r)

    def post(E, c, o):
        return [('the number of its fields', E.as_int(o[1]) == models.card(fdom) if o[0] == 'return' else FALSE)]
    V.run('', setup, post, ['the number of its fields'])


@contract(MR + ':Record.__iter__', ['R01'])
def riter(V):
    names = ['iterates over the fields themselves, in their order']
    for kl in KINDS[:1]:
        def setup(E, kl=kl):
            r = record(E, 'a', kl); return [r], {}, dict(r=r)

        def post(E, c, o):
            if o[0] != 'return': return [(names[0], FALSE)]
            d = E.iterate(o[1])
            x = const('x?probe')
            ok = d.kind == 'set' and d.arr.eq(fdom) and E.box(d.elem(x)).eq(x)
            return [(names[0], z3.BoolVal(bool(ok)))]
        V.run(kl[1], setup, post, names)


# ---- R04
FIELDS = {'authorsShort': 'Names', 'year': 'any', 'j9': 'str', 'title': 'str', 'volume': 'any', 'beginningPage': 'any', 'DOI': 'str'}
citeof = z3.Function('citation_of', S, U)


class Rec:
    """a record seen through the contracts of get and []: values of the fields it has"""
    kinds = FIELDS

    def value(self, E, k):
        t = fld(const('rec'), E.lit(k)); c = self.kinds[k]
        if c == 'str': E.fact(kind(t) == K_STR); E.fact(truthy(t) == (t != E.lit('')))
        if c == 'Names': E.fact(seqlen(t) >= 0)
        if c == 'any': E.fact(Or(kind(t) == K_STR, kind(t) == K_INT))
        return Opq(t, c)

    def has(self, E, k): return has(const('rec'), E.lit(k))

    def attr(self, E, o, name):
        if name in ('get', '__getitem__', 'getCitations'): return Bound(o, name)
        raise Unsupported('attribute %s of a record' % name)

    def get(self, E, k, default=None):
        if k not in self.kinds: raise Unsupported('field %s' % k)
        return self.value(E, k) if E.choose(self.has(E, k)) else default

    def method(self, E, o, name, args, kw): return getattr(self, name)(E, *args, **kw)

    def getitem(self, E, o, k):
        if k not in self.kinds: raise Unsupported('field %s' % k)
        if not E.choose(self.has(E, k)): E.throw('KeyError')
        return self.value(E, k)

    def contains(self, E, o, k): return self.has(E, k)
    def truth(self, E, o): return True


class Names(models.ListModel):
    """list of texts"""
    item = 'str'


def cc_conf(E):
    E.models['Rec'] = Rec()
    E.models['Names'] = Names()

    def new(E, args, kw):
        if kw or len(args) != 1: raise Unsupported('arguments of a citation')
        return Opq(citeof(E.as_str(args[0])), 'Cite')
    E.models['Cite'] = Item({})
    E.calls['new:Citation'] = new


def wanted(E, author):
    """the text of the citation, author the first part or None"""
    R = Rec()
    parts = [] if author is None else [author]
    on = lambda k: E.choose(And(R.has(E, k), boolof(E.truthc(R.value(E, k)))))
    v = lambda k: R.value(E, k)
    s = lambda k: models.str_(E, v(k))
    if on('year'): parts.append(s('year'))
    if on('j9'): parts.append(v('j9'))
    elif on('title'): parts.append(v('title'))
    for k, m in (('volume', 'V'), ('beginningPage', 'P'), ('DOI', 'DOI ')):
        if on(k): parts.append(models.concat(E, [m, s(k)]))
    out = []
    for i, p in enumerate(parts): out += ([', '] if i else []) + [p]
    return E.as_str(models.concat(E, out))


def nocomma(E, t): return models.str_method(E, Opq(t, 'str'), 'replace', [',', ''], {})


@contract(MR + ':ExtendedRecord.createCitation', ['R04'])
def createcite(V):
    n1 = ['the citation of the first author, year, source, volume, page and DOI that are there']

    def setup(E):
        return [Opq(const('rec'), 'Rec')], {}, {}

    def post(E, c, o):
        if o[0] != 'return' or not isinstance(o[1], Opq): return [(n1[0], FALSE)]

        def want():
            R = Rec(); a = None
            if E.choose(And(R.has(E, 'authorsShort'), boolof(E.truthc(R.value(E, 'authorsShort'))))): a = nocomma(E, seqat(R.value(E, 'authorsShort').t, 0))
            return wanted(E, a)
        return [(n1[0], every(E, want, lambda w: o[1].t == citeof(w)))]
    V.run('', setup, post, n1, cc_conf)
    n2 = ['one citation per short author, in order', 'without authors, one citation without an author']

    def setup2(E): return [Opq(const('rec'), 'Rec')], {'multiCite': True}, {}

    def post2(E, c, o):
        if o[0] != 'return': return [(n2[0], FALSE)]
        R = Rec(); L = R.value(E, 'authorsShort').t
        some = And(R.has(E, 'authorsShort'), seqlen(L) > 0)
        d = E.iterate(o[1])
        if d.kind == 'conc':
            if len(d.items) != 1: return [(n2[1], FALSE)]
            return [(n2[1], And(Not(some), every(E, lambda: wanted(E, None), lambda w: d.items[0].t == citeof(w)))), (n2[0], TRUE)]
        if d.kind != 'seq': return [(n2[0], FALSE)]
        i = E.fresh('i', I)
        E.assume(And(i >= 0, i < d.n))
        x = d.elem(i)
        return [(n2[0], And(some, d.n == seqlen(L), every(E, lambda: wanted(E, nocomma(E, seqat(L, i))), lambda w: E.box(x) == citeof(w))))]
    V.run('several', setup2, post2, n2, cc_conf)
