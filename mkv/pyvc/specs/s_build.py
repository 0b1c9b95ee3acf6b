"""K01: building collections from records, files and directories"""
from ._lib import *

u, w, f, j = const('u?p'), const('w?p'), const('f?p'), const('j?p', I)
isrec = z3.Function('isa_Record', U, B)


def base(E):
    a = E.alloc(HObj(cls(E, RC, 'RecordCollection'), {}))
    E.globals[('metaknowledge', 'VERBOSE_MODE')] = False
    E.lookup('recordHandlers', None, E.repo.mods[RC])        # the table of formats as the module makes it
    return a


def state(E, a):
    h = E.get(a).attrs
    d, v = errs(E, a)
    return items(E, a), boolof(h['bad']), d, v


@contract(RC + ':RecordCollection.__init__', ['K01'])
def init(V):
    names = ['holds exactly the given records', 'nothing is marked bad', 'rejects exactly what holds something else']

    def setup(E):
        a = base(E)
        L = E.alloc(Sym(('L', ('O', 'Item')), [const('given_n', I), const('given', z3.ArraySort(I, U))]))
        E.st.pc.append(const('given_n', I) >= 0)
        return [a, L], {}, dict(a=a)

    def post(E, c, o):
        n, g = const('given_n', I), const('given', z3.ArraySort(I, U))
        if o[0] == 'raise':
            return [(names[2], And(z3.BoolVal(o[1].cls == 'RCTypeError'), Exists([j], And(j >= 0, j < n, Not(isrec(Select(g, j)))))))]
        S, b, d, v = state(E, c['a'])
        return [(names[0], And(ForAll([j], Implies(And(j >= 0, j < n), Select(S, Select(g, j))), patterns=[Select(g, j)]), ForAll([u], Implies(Select(S, u), Exists([j], And(j >= 0, j < n, Select(g, j) == u)))))),
                (names[1], And(Not(b), d == EMPTY)), (names[2], ForAll([j], Implies(And(j >= 0, j < n), isrec(Select(g, j))), patterns=[Select(g, j)]))]
    V.run('iterable', setup, post, names, rec_conf)

    class Shot:
        """an iterator: gives its items once"""
        def isa(self, E, o, name): return name == 'Iterable'
        def truth(self, E, o): return True

        def iter(self, E, o):
            used = E.st.ghost.get('used')
            E.st.ghost['used'] = True
            if used: return Dom('conc', items=[])
            g = const('given', z3.ArraySort(I, U))
            return Dom('seq', n=const('given_n', I), elem=lambda i: Opq(Select(g, i), 'Item'))

    def conf(E):
        rec_conf(E)
        E.models['shot'] = Shot()

    def setup1(E):
        a = base(E)
        E.st.pc.append(const('given_n', I) >= 0)
        return [a, Opq(const('iterator'), 'shot')], {}, dict(a=a)
    V.run('one-shot iterator', setup1, post, names, conf)


@contract(RC + ':RecordCollection.__add__', ['K01'])
def plus(V):
    names = ['holds the records of both', 'the operands are unchanged and share nothing with the sum']

    def setup(E):
        E.globals[('metaknowledge', 'VERBOSE_MODE')] = False
        a, A = collection(E, 'a'); b, Bs = collection(E, 'b')
        for S in (A, Bs): E.st.pc.append(ForAll([u], Implies(Select(S, u), isrec(u)), patterns=[Select(S, u)]))
        return [a, b], {}, dict(a=a, A=A, b=b, B=Bs)

    def post(E, c, o):
        if o[0] != 'return': return [(names[0], FALSE)]
        r = o[1]
        ra = E.get(r).attrs['_collection'].a
        fresh = r.a not in (c['a'].a, c['b'].a) and all(ra != E.get(c[k]).attrs['_collection'].a for k in 'ab')
        return [(names[0], ForAll([u], Select(items(E, r), u) == Or(Select(c['A'], u), Select(c['B'], u)))), (names[1], And(z3.BoolVal(fresh), frame(E, c, c['a'], c['A'], 'a'), frame(E, c, c['b'], c['B'], 'b')))]

    def conf(E):
        rec_conf(E)
        del E.calls['new:RecordCollection']
    V.run('', setup, post, names, conf)


FH = [('WOSRecord', 'metaknowledge.WOS.wosHandlers.isWOSFile', 'metaknowledge.WOS.wosHandlers.wosParser'), ('MedlineRecord', 'metaknowledge.medline.medlineHandlers.isMedlineFile', 'metaknowledge.medline.medlineHandlers.medlineParser'),
      ('ProQuestRecord', 'metaknowledge.proquest.proQuestHandlers.isProQuestFile', 'metaknowledge.proquest.proQuestHandlers.proQuestParser'), ('ScopusRecord', 'metaknowledge.scopus.scopusHandlers.isScopusFile', 'metaknowledge.scopus.scopusHandlers.scopusParser')]
det = [z3.Function('is_' + n[0], U, B) for n in FH]          # the detector accepts the file
recs = [z3.Function('records_' + n[0], U, UB) for n in FH]   # what the reader returns
perr = [z3.Function('error_' + n[0], U, U) for n in FH]
isfile, isdir = z3.Function('isfile', U, B), z3.Function('isdir', U, B)
inner = z3.Function('joined', U, U, U)
NL, LS = const('listed_n', I), const('listed', z3.ArraySort(I, U))


def ends(E, p, x):
    r = models.str_method(E, Opq(p, 'str'), 'endswith', [Opq(x, 'str')], {})
    return r


def known(x): return Or(*[d(x) for d in det])


def first(x, vals):
    """value of the first handler that accepts x"""
    r = vals[-1](x)
    for d, v in reversed(list(zip(det[:-1], vals[:-1]))): r = If(d(x), v(x), r)
    return r


def files_conf(E):
    rec_conf(E)
    E.globals[('metaknowledge', 'VERBOSE_MODE')] = False
    for k, (n, d, p) in enumerate(FH):
        E.calls[d] = lambda E, a, kw, k=k: det[k](E.key(a[0]))

        def proc(E, a, kw, k=k):
            x = E.key(a[0])
            models.cardfacts(E, recs[k](x))
            return (E.alloc(Sym(('S', 'Item'), [recs[k](x)])), models.unb(E, perr[k](x)))
        E.calls[p] = proc
    E.calls['os.path.realpath'] = E.calls['os.path.expanduser'] = E.calls['os.path.abspath'] = lambda E, a, kw: a[0]
    E.calls['os.path.isfile'] = lambda E, a, kw: isfile(E.key(a[0]))
    E.calls['os.path.isdir'] = lambda E, a, kw: isdir(E.key(a[0]))
    E.calls['os.path.join'] = lambda E, a, kw: Opq(inner(E.key(a[0]), E.key(a[1])), 'str')
    E.calls['os.path.basename'] = E.calls['os.path.split'] = E.calls['os.path.splitext'] = lambda E, a, kw: (Opq(const('part0'), 'str'), Opq(const('part1'), 'str'))
    E.calls['os.listdir'] = lambda E, a, kw: E.alloc(Sym(('L', ('O', 'str')), [NL, LS]))

    E.notes.add('detectors and readers of the file formats are functions of the file name (P01-P07 state what they return); os.path.realpath/expanduser/abspath are left out')


@contract(RC + ':RecordCollection.__init__', ['K01'])
def init_file(V):
    names = ['holds exactly the records of the file', 'is bad exactly when the file could not be read properly, with its error', 'rejects exactly files of the wrong extension or kind']

    def setup(E):
        a = base(E)
        p = Opq(const('str'), 'str'); x = Opq(const('ext'), 'str')
        E.st.pc.append(isfile(p.t))
        return [a, p], dict(extension=x), dict(a=a, p=p.t, x=x.t)

    def post(E, c, o):
        p = c['p']
        if o[0] == 'raise':
            return [(names[2], Or(And(z3.BoolVal(o[1].cls == 'RCTypeError'), Not(ends(E, p, c['x']))), And(z3.BoolVal(o[1].cls == 'BadInputFile'), Not(known(p)))))]
        S, b, d, v = state(E, c['a'])
        e = first(p, perr)
        if v is None: v = z3.K(U, NONE)
        return [(names[0], ForAll([u], Select(S, u) == Select(first(p, recs), u))), (names[2], And(known(p), ends(E, p, c['x']))),
                (names[1], And(b == (e != NONE), ForAll([u], Select(d, u) == And(b, u == p)), Implies(b, Select(v, p) == e)))]
    V.run('file', setup, post, names, files_conf)


KN, FR, FE = z3.Function('known', U, B), z3.Function('records_of', U, UB), z3.Function('error_of', U, U)
DEFS = [ForAll([f], KN(f) == known(f), patterns=[KN(f)]), ForAll([f], FR(f) == first(f, recs), patterns=[FR(f)]), ForAll([f], FE(f) == first(f, perr), patterns=[FE(f)])]


def dir_inv(L):
    if not L.seq: return []
    sl = lambda p: [k for k, s in L.slots.items() if p(s.shape)]
    Ss = sl(lambda s: s == ('S', 'Item')); Ts = sl(lambda s: isinstance(s, tuple) and s[0] == 'S' and s != ('S', 'Item'))
    Bs, Ds = sl(lambda s: s == 'B'), sl(lambda s: isinstance(s, tuple) and s[0] in ('D', 'C'))
    if len(Ss) != 1 or len(Bs) != 1 or len(Ds) != 1: return []
    S, b, d = Ss[0], Bs[0], Ds[0]
    L.skip = Ss + Ts + Bs + Ds
    F = lambda y: L.E.box(L.d.elem(y))
    rng = lambda D, y: And(y >= 0, y < D)
    p = [F(j)]
    fails = lambda y: And(KN(F(y)), FE(F(y)) != NONE)
    x = const('ext')

    def dom(lv):
        sh = L.slots[d].shape
        return (lv[d][0], lv[d][1]) if len(lv[d]) > 1 else (lv[d][0], None)
    out = [('every file done is of a known kind', lambda lv, D: ForAll([j], Implies(rng(D, j), Or(KN(F(j)), x == L.E.lit(''))), patterns=p)),
           ('records of the files done', lambda lv, D: ForAll([j, u], Implies(And(rng(D, j), KN(F(j)), Select(FR(F(j)), u)), Select(lv[S][0], u)), patterns=[Select(FR(F(j)), u)])),
           ('records come from files done', lambda lv, D: ForAll([u], Implies(Select(lv[S][0], u), Exists([j], And(rng(D, j), KN(F(j)), Select(FR(F(j)), u)), patterns=p)))),
           ('marked bad by a file', lambda lv, D: Implies(lv[b][0], Exists([j], And(rng(D, j), fails(j)), patterns=p))),
           ('a failing file marks bad', lambda lv, D: ForAll([j], Implies(And(rng(D, j), fails(j)), lv[b][0]), patterns=p)),
           ('errors are of files done', lambda lv, D: ForAll([u], Implies(Select(dom(lv)[0], u), Exists([j], And(rng(D, j), fails(j), u == F(j)), patterns=p)))),
           ('failing files have an error', lambda lv, D: ForAll([j], Implies(And(rng(D, j), fails(j)), And(Select(dom(lv)[0], F(j)), Select(dom(lv)[1], F(j)) == FE(F(j)) if dom(lv)[1] is not None else TRUE)), patterns=p))]
    return out


@contract(RC + ':RecordCollection.__init__', ['K01'])
def init_dir(V):
    names = ['holds the records of every wanted file', 'holds nothing else', 'is bad exactly when a file could not be read properly', 'the errors name exactly these files, with their errors', 'raises only for an unrecognised file with a requested extension']
    i = const('i?d', I)

    def conf(E):
        files_conf(E)
        E.axioms += DEFS
        E.inv = dir_inv

    def setup(E):
        a = base(E)
        p = Opq(const('path'), 'str'); x = Opq(const('ext'), 'str')
        E.st.pc += [Not(isfile(p.t)), isdir(p.t), NL >= 0]
        return [a, p], dict(extension=x), dict(a=a, p=p.t, x=x.t)

    def post(E, c, o):
        p, x = c['p'], c['x']
        F = lambda t: inner(p, t)
        cache = E.lit('mkRecordDirCache')
        wanted = lambda f: And(ends(E, f, x), Not(ends(E, f, cache)), isfile(f))
        Li = Select(LS, i)
        inr = And(i >= 0, i < NL)
        if o[0] == 'raise':
            return [(names[4], And(z3.BoolVal(o[1].cls == 'BadInputFile'), x != E.lit(''), Exists([i], And(inr, wanted(F(Li)), Not(KN(F(Li)))))))]
        S, b, d, v = state(E, c['a'])
        if v is None: v = z3.K(U, NONE)
        R = lambda f, q: Select(FR(f), q)
        fails = lambda f: And(wanted(f), KN(f), FE(f) != NONE)
        return [(names[0], ForAll([i, u], Implies(And(inr, wanted(F(Li)), KN(F(Li)), R(F(Li), u)), Select(S, u)))),
                (names[1], ForAll([u], Implies(Select(S, u), Exists([i], And(inr, wanted(F(Li)), KN(F(Li)), R(F(Li), u)), patterns=[Li])))),
                (names[2], And(Implies(b, Exists([i], And(inr, fails(F(Li))), patterns=[Li])), ForAll([i], Implies(And(inr, fails(F(Li))), b)))),
                (names[3], And(ForAll([i], Implies(And(inr, fails(F(Li))), And(Select(d, F(Li)), Select(v, F(Li)) == FE(F(Li))))), ForAll([u], Implies(Select(d, u), Exists([i], And(inr, u == F(Li), fails(u)), patterns=[Li])))))]
    V.run('directory', setup, post, names, conf)
