"""Loops: invariants are proposed (from the paths of the body and by the contracts) and kept only when they are proved
inductive; comprehensions and reductions get exact summaries"""
import ast, time
import z3
from .core import *
from .core import leafsorts, nleaves
from .interp import Gen, Dom, Run
from . import models, folds, gtemplates
from .models import EMPTY, join, shapeof, enc, dec, conv, place, containerish

TRUE = z3.BoolVal(True)


def on(E, st, fn):
    """run fn on a copy of a state, single outcome expected: (state, value)"""
    r = [x for x in E.explore(st, fn) if x[1][0] == 'normal']
    if len(r) != 1: raise Unsupported('several cases where one was expected')
    return r[0][0], r[0][1][1]


# ---------------------------------------------------------------------- terms
def consts(e, out=None):
    """uninterpreted constants and functions of a term: {name: decl}"""
    out, todo, seen = {}, [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.setdefault(x.decl().name(), x.decl())
            todo.extend(x.children())
    return out


def stamp(name):
    """number of a generated name, -1 otherwise"""
    if '!' in name:
        t = name.rsplit('!', 1)[1]
        if t.isdigit(): return int(t)
    return -1


def newer(e, base, skip=()):
    return [d for n, d in consts(e).items() if stamp(n) > base and n not in skip]


def heads(e, v):
    """applications of functions that have v as an argument"""
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x): continue
        seen.add(x.get_id())
        if any(c.eq(v) for c in x.children()) and models.okpat(x, v): out.append(x)
        todo.extend(x.children())
    return out


def dedup(fs):
    out, seen = [], set()
    for f in fs:
        if z3.is_true(f) or (z3.is_eq(f) and f.arg(0).eq(f.arg(1))) or f.get_id() in seen: continue
        seen.add(f.get_id()); out.append(f)
    return out


def sub1(e, x, v):
    return z3.substitute(e, (x, v)) if not x.eq(v) else e


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    return TRUE if not l else l[0] if len(l) == 1 else z3.And(*l)


def disj(l):
    l = list(l)
    if any(z3.is_true(x) for x in l): return TRUE
    return z3.BoolVal(False) if not l else l[0] if len(l) == 1 else z3.Or(*l)


# ---------------------------------------------------------------------- summaries of comprehensions
class Summary:
    """one element of an iteration: x the element, cases [(guard, value)], all of them functions of x"""
    pass


def lift(E, base, x, es):
    """replace constants younger than base (made while the element was computed) by functions of x"""
    m = {}
    for e in es:
        for d in newer(e, base, (x.decl().name(),)):
            if d.arity() > 0: raise Unsupported('element computed with a quantified summary')
            m[d.name()] = d
    subst = []
    for n, d in m.items():
        E.st.nf += 1
        f = z3.Function('el_%s!%d' % (n.rsplit('!', 1)[0], E.st.nf), x.sort(), d.range())
        subst.append((d(), f(x)))
    return lambda e: z3.substitute(e, *subst) if subst else e


def bindgen(E, comp, env, mod, v):
    E.assign(comp.target, v, env, mod)


def summarise(E, gen, comp, d, tail):
    """explore one element of the domain: [(guard term over x, value or exception)]; tail(env) gives the value"""
    st = E.st
    srt = I if d.kind == 'seq' else U
    st.nf += 1
    x = z3.Const('el!%d' % st.nf, srt)
    base = st.nf
    inside = z3.And(x >= 0, x < d.n) if d.kind == 'seq' else z3.Select(d.arr, x)
    st2 = st.copy(); st2.pc.append(inside)
    n0 = len(st2.pc); f0 = len(E.facts)

    def one():
        env = E.newenv(gen.env, names_of(comp.target))
        E.st.envs[env]['__locals__'] = frozenset()
        bindgen(E, comp, env, gen.mod, d.elem(x))
        for c in comp.ifs:
            if not E.truth(E.ev(c, env, gen.mod)): return ('skip', None)
        return ('value', tail(env))
    res = E.explore(st2, one)
    out = []
    for s, o in res:
        for a, h in st2.heap.items():
            if s.heap.get(a) is not h: raise Unsupported('a comprehension changes a container')
        out.append((s, conj(s.pc[n0:]), o))
    st.nf = max([st.nf] + [s.nf for s, _, _ in out])
    st.na = max([st.na] + [s.na for s, _, _ in out])
    xf = [f for f in E.facts[f0:] if any(n == x.decl().name() or stamp(n) > base for n in consts(f))]
    return x, inside, out, base, xf


def names_of(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def comprehend(E, g, kind):
    node = g.node
    if isinstance(node, ast.DictComp): elt = lambda env: (E.ev(node.key, env, g.mod), E.ev(node.value, env, g.mod))
    else: elt = lambda env: E.ev(node.elt, env, g.mod)
    comps = node.generators
    d = E.iterate(E.ev(comps[0].iter, g.env, g.mod))
    r = None
    if d.kind == 'conc' or len(comps) > 1:
        r = {'list': E.alloc(CList(())), 'set': E.alloc(CSet()), 'dict': E.alloc(CDict({}))}[kind]
        env = E.newenv(g.env, ())
        comp_conc(E, g, comps, env, elt, kind, r, d)
        return r
    return comp_sym(E, g, comps[0], d, elt, kind)


def comp_conc(E, g, comps, env, elt, kind, r, d):
    if d.kind != 'conc': raise Unsupported('nested comprehension')
    for v in d.items:
        bindgen(E, comps[0], env, g.mod, v)
        if not all(E.truth(E.ev(c, env, g.mod)) for c in comps[0].ifs): continue
        if len(comps) > 1:
            comp_conc(E, g, comps[1:], env, elt, kind, r, E.iterate(E.ev(comps[1].iter, env, g.mod)))
            continue
        v = elt(env)
        if kind == 'list': models.list_append(E, r, v)
        elif kind == 'set': models.set_add(E, r, v)
        else: models.setitem(E, r, *v)


def raising(E, x, inside, paths, base):
    """split off the paths where an element raises"""
    bad = [p for p in paths if p[2][0] == 'raise']
    if not bad: return
    ql = lift(E, base, x, [p[1] for p in bad])
    for s, c, o in bad:
        E.st.nf += 1
        w = z3.Const('raiser!%d' % E.st.nf, x.sort())
        n = E.decide(2)
        if n == 1:
            E.assume(sub1(inside, x, w)); E.assume(sub1(ql(c), x, w))
            if not E.feasible(E.st.pc): raise Infeasible
            raise PyRaise(o[1])
        y = z3.Const('y?r', x.sort())
        E.assume(forall([y], z3.Implies(sub1(inside, x, y), z3.Not(sub1(ql(c), x, y))), pat_of(inside, x, y)))


def pat_of(inside, x, y):
    """pattern for a quantifier over the elements of a domain"""
    t = sub1(inside, x, y)
    return [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT else []


def element_cases(E, x, inside, paths, base, encode):
    """[(guard, leaves)] with the fresh constants lifted; encode(value) under the state of the path"""
    out = []
    for s, c, o in paths:
        if o[0] == 'raise': continue
        if o[1][0] == 'skip':
            out.append((c, None)); continue
        saved = E.st
        E.st = s
        n = len(s.pc)
        try: lv = encode(o[1][1])
        finally: E.st = saved
        E.st.nf = max(E.st.nf, s.nf)
        out.append((conj([c] + s.pc[n:]), lv))
    es = [c for c, _ in out] + [l for _, ls in out if ls is not None for l in ls]
    L = lift(E, base, x, es)
    return [(L(c), None if ls is None else [L(l) for l in ls]) for c, ls in out]


def comp_sym(E, g, comp, d, elt, kind):
    x, inside, paths, base, xf = summarise(E, g, comp, d, elt)
    raising(E, x, inside, paths, base)
    vals = [(s, o[1][1]) for s, c, o in paths if o[0] == 'normal' and o[1][0] == 'value']
    if not vals:
        return {'list': lambda: E.alloc(CList(())), 'set': lambda: E.alloc(CSet()), 'dict': lambda: E.alloc(CDict({}))}[kind]()

    def shp(sel):
        sh = '?'
        for s, v in vals:
            saved = E.st; E.st = s
            try: sh = join(sh, shapeof(E, sel(v)))
            finally: E.st = saved
        return sh
    if kind == 'set':
        cl = None
        for s, v in vals:
            c = models.cls_of(v); cl = c if cl in (None, c) else 'any'
        cases = element_cases(E, x, inside, paths, base, lambda v: [E.key(v)])
        return E.alloc(Sym(('S', cl), [image(E, x, inside, cases, 0, xf)]))
    if kind == 'dict':
        sh = shp(lambda kv: kv[1])
        cl = None
        for s, v in vals:
            c = models.cls_of(v[0]); cl = c if cl in (None, c) else 'any'
        cases = element_cases(E, x, inside, paths, base, lambda kv: [E.key(kv[0])] + enc(E, kv[1], sh))
        dom, w = image(E, x, inside, cases, 0, xf, witness=True)
        ls = []
        u = z3.Const('u?d', U)
        for i, so in enumerate(leafsorts(sh)):
            a = E.fresh('val', z3.ArraySort(U, so))
            for c, l in cases:
                if l is None: continue
                wu = w(u)
                E.assume(forall([u], z3.Implies(z3.And(z3.Select(dom, u), sub1(c, x, wu), sub1(l[0], x, wu) == u), z3.Select(a, u) == sub1(l[1 + i], x, wu)), [z3.Select(a, u)]))
            ls.append(a)
        if d.kind == 'seq':      # the last element with a key wins
            for c, l in cases:
                if l is None: continue
                y = z3.Const('y?w', I)
                E.assume(forall([y], z3.Implies(z3.And(sub1(inside, x, y), sub1(c, x, y)), y <= w(sub1(l[0], x, y))), []))
        return E.alloc(Sym(('D', sh, cl), [dom] + ls))
    sh = shp(lambda v: v)
    return complist(E, d, x, inside, paths, base, sh, xf)


def complist(E, d, x, inside, paths, base, sh, xf):
    cases = element_cases(E, x, inside, paths, base, lambda v: enc(E, v, sh))
    filt = any(l is None for c, l in cases)
    ls = [E.fresh('l', z3.ArraySort(I, s)) for s in leafsorts(sh)]
    j = z3.Int('j?c')
    if d.kind == 'set':
        take = disj([c for c, l in cases if l is not None])
        F = E.fresh('filtered', UB)
        y = z3.Const('y?f', U)
        E.assume(forall([y], z3.Select(F, y) == z3.And(sub1(inside, x, y), sub1(take, x, y)), [z3.Select(F, y)]))
        E.assume(forall([y], z3.Select(F, y) == z3.And(sub1(inside, x, y), sub1(take, x, y)), pat_of(inside, x, y)))
        n = models.setcard(E, F)
        order = E.fresh('order', z3.ArraySort(I, U)); pos = fn(E, 'pos', U, I)
        E.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(F, z3.Select(order, j)), pos(z3.Select(order, j)) == j)), [z3.Select(order, j)]))
        E.assume(forall([y], z3.Implies(z3.Select(F, y), z3.And(pos(y) >= 0, pos(y) < n, z3.Select(order, pos(y)) == y)), [z3.Select(F, y)]))
        src = lambda t: z3.Select(order, t)
        E.link = ('order', d, F, order, pos)
    elif not filt:
        n = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)
        src = lambda t: t
    else:
        n = E.fresh('n', I)
        sf, df = fn(E, 'src', I, I), fn(E, 'dst', I, I)
        take = disj([c for c, l in cases if l is not None])
        E.assume(n >= 0); E.assume(n <= d.n)
        y, y2 = z3.Int('y?f'), z3.Int('y2?f')
        E.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(sf(j) >= 0, sf(j) < d.n, sub1(take, x, sf(j)), df(sf(j)) == j)), [sf(j)]))
        E.assume(forall([y], z3.Implies(z3.And(y >= 0, y < d.n, sub1(take, x, y)), z3.And(df(y) >= 0, df(y) < n, sf(df(y)) == y)), [df(y)]))
        E.assume(forall([y, y2], z3.Implies(z3.And(y >= 0, y < y2, y2 < n), sf(y) < sf(y2)), [mpat(sf(y), sf(y2))]))
        src = sf
    for i, a in enumerate(ls):
        for c, l in cases:
            if l is None: continue
            s = src(j)
            E.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n, sub1(c, x, s)), z3.Select(a, j) == sub1(l[i], x, s)), [z3.Select(a, j)] + heads(sub1(l[i], x, s), j)[:1]))
    for f in xf[:12]:
        pass
    r = E.alloc(Sym(('L', sh), [n] + ls))
    return r


def fn(E, name, *sorts, age=None):
    """a new function symbol: never the same one twice (also on different paths); age: as fresh constants of that number"""
    E.nfun = getattr(E, 'nfun', 0) + 1
    if age is None:
        E.st.nf += 1; age = E.st.nf
    return z3.Function('%s~%d!%d' % (name, E.nfun, age), *sorts)


def image(E, x, inside, cases, ix, xf=(), witness=False):
    """set of the keys of the cases: fresh array with its axioms"""
    R = E.fresh('image', UB)
    u = z3.Const('u?i', U)
    y = z3.Const('y?i', x.sort())
    take = [(c, l[ix]) for c, l in cases if l is not None]
    if x.sort() == U and all(k.eq(x) for _, k in take) and not witness:
        g = disj([c for c, _ in take])
        body = z3.Select(R, y) == z3.And(sub1(inside, x, y), sub1(g, x, y))
        E.assume(forall([y], body, [z3.Select(R, y)]))
        if pat_of(inside, x, y): E.assume(forall([y], body, pat_of(inside, x, y)))
        models.cardfacts(E, R)
        return R
    w = fn(E, 'where', U, x.sort())
    for c, k in take:
        ky = sub1(k, x, y)
        pats = pat_of(inside, x, y) or ([ky] if models.okpat(ky, y) else [])
        E.assume(forall([y], z3.Implies(z3.And(sub1(inside, x, y), sub1(c, x, y)), z3.Select(R, ky)), pats))
    E.assume(forall([u], z3.Implies(z3.Select(R, u), z3.And(sub1(inside, x, w(u)), disj([z3.And(sub1(c, x, w(u)), sub1(k, x, w(u)) == u) for c, k in take]))), [z3.Select(R, u)]))
    models.cardfacts(E, R)
    return (R, w) if witness else R


def gendom(E, g):
    """domain of a generator expression"""
    r = comprehend(E, g, 'list')
    return E.iterate(r)


# ---------------------------------------------------------------------- reductions
def gencases(E, v):
    """(x, inside, cases with boxed values, domain) of an iterable argument"""
    if isinstance(v, Gen) and len(v.node.generators) == 1:
        comp = v.node.generators[0]
        d = E.iterate(E.ev(comp.iter, v.env, v.mod))
        if d.kind != 'conc':
            x, inside, paths, base, xf = summarise(E, v, comp, d, lambda env: E.ev(v.node.elt, env, v.mod))
            raising(E, x, inside, paths, base)
            return d, x, inside, paths, base
        v = comprehend(E, v, 'list'); d = E.iterate(v)
        return d, None, None, None, None
    if isinstance(v, Gen): v = comprehend(E, v, 'list')
    return E.iterate(v), None, None, None, None


sumset = z3.Function('sum_set', UB, z3.ArraySort(U, I), I)
sumseq = z3.Function('sum_seq', I, z3.ArraySort(I, I), I)


def reduce_(E, n, args, kw):
    if n in ('any', 'all'):
        d, x, inside, paths, base = gencases(E, args[0])
        if x is None:
            if d.kind == 'conc':
                for v in d.items:
                    t = E.truth(v)
                    if n == 'any' and t: return True
                    if n == 'all' and not t: return False
                return n == 'all'
            st = E.st; st.nf += 1
            x = z3.Const('el!%d' % st.nf, I if d.kind == 'seq' else U)
            inside = z3.And(x >= 0, x < d.n) if d.kind == 'seq' else z3.Select(d.arr, x)
            st2 = st.copy(); st2.pc.append(inside); n0 = len(st2.pc); base = st.nf
            paths = [(s, conj(s.pc[n0:]), ('normal', ('value', o[1]))) for s, o in E.explore(st2, lambda: d.elem(x)) if o[0] == 'normal']

        def tr(v):
            c = E.truthc(v)
            return [z3.BoolVal(c) if isinstance(c, bool) else c]
        cases = element_cases(E, x, inside, paths, base, tr)
        hit = disj([z3.And(c, l[0] if n == 'any' else z3.Not(l[0])) for c, l in cases if l is not None])
        b = E.fresh('quant', B)
        w = E.fresh('wit', x.sort())
        y = z3.Const('y?q', x.sort())
        ex = z3.And(sub1(inside, x, w), sub1(hit, x, w))
        no = forall([y], z3.Implies(sub1(inside, x, y), z3.Not(sub1(hit, x, y))), pat_of(inside, x, y))
        if n == 'any':
            if E.choose(b): E.assume(ex); return True
            E.assume(no); return False
        if E.choose(b): E.assume(no); return True
        E.assume(ex); return False
    if n == 'sum':
        d, x, inside, paths, base = gencases(E, args[0])
        if d.kind == 'conc' and x is None:
            t = 0
            for v in d.items: t = models.binop(E, 'Add', t, v)
            return t
        if x is None:
            if d.kind == 'seq':
                i = z3.Int('i?sum'); v = E.as_int(d.elem(i))
                return sumseq(d.n, z3.Lambda([i], v))
            raise Unsupported('sum over a set')
        cases = element_cases(E, x, inside, paths, base, lambda v: [E.as_int(v)])
        y = z3.Const('y?sum', x.sort())
        t = z3.IntVal(0)
        for c, l in cases:
            if l is not None: t = z3.If(sub1(c, x, y), sub1(l[0], x, y), t)
        t = z3.simplify(t)
        if d.kind == 'set': return sumset(d.arr, z3.Lambda([y], t))
        return sumseq(d.n, z3.Lambda([y], t))
    if n in ('min', 'max') and len(args) > 1 and not kw:
        r = args[0]
        for v in args[1:]:
            c = E.order('<' if n == 'min' else '>', v, r)
            if z3.is_expr(c) and all(E.as_int(q) is not None for q in (v, r) if not isinstance(q, Opq)) and not any(isinstance(q, (Opq, float, str)) for q in (v, r)):
                r = z3.simplify(z3.If(c, E.as_int(v), E.as_int(r)))
            else: r = v if E.choose(c) else r
        return r
    if n in ('min', 'max') and len(args) == 1:
        v = comprehend(E, args[0], 'list') if isinstance(args[0], Gen) else args[0]
        d = E.iterate(v)
        if d.kind == 'conc':
            if not d.items: 
                if 'default' in kw: return kw['default']
                E.throw('ValueError')
            if len(d.items) == 1: return d.items[0]
            if not kw: return reduce_(E, n, list(d.items), {})
        if kw: raise Unsupported(n + ' with options')
        if d.kind == 'seq':
            if not E.choose(d.n > 0): E.throw('ValueError')
            k = E.fresh('best', I); y = z3.Int('y?b')
            E.assume(z3.And(k >= 0, k < d.n))
            bv, yv = d.elem(k), d.elem(y)
        else:
            if not E.choose(d.arr != EMPTY): E.throw('ValueError')
            models.setcard(E, d.arr)
            k = E.fresh('best', U); y = z3.Const('y?b', U)
            E.assume(z3.Select(d.arr, k))
            bv, yv = d.elem(k), d.elem(y)
        if z3.is_expr(bv) and bv.sort() == I:
            c = yv >= bv if n == 'min' else yv <= bv
        else:
            a, b = E.key(yv), E.key(bv)
            c = z3.Not(lt(a, b)) if n == 'min' else z3.Not(lt(b, a))
        E.assume(forall([y], z3.Implies(z3.And(y >= 0, y < d.n) if d.kind == 'seq' else z3.Select(d.arr, y), c), [z3.Select(d.arr, y)] if d.kind == 'set' else []))
        return bv
    if n == 'sorted':
        v = comprehend(E, args[0], 'list') if isinstance(args[0], Gen) else args[0]
        r = models.materialise(E, E.iterate(v))
        h = models.conc(E, r, CList)
        if h is not None and len(h.items) <= 1: return r
        return permuted(E, r, kw)
    if n == 'reversed':
        d = E.iterate(args[0])
        if d.kind == 'conc': return It(Dom('conc', items=d.items[::-1]))
        if d.kind == 'seq': return It(Dom('seq', n=d.n, elem=lambda i: d.elem(d.n - 1 - i)))
    if n in ('map', 'filter'):
        d = E.iterate(args[1])
        if d.kind == 'conc':
            if n == 'map': return It(Dom('conc', items=[E.call(args[0], [x]) for x in d.items]))
            return It(Dom('conc', items=[x for x in d.items if E.truth(E.call(args[0], [x]) if args[0] is not None else x)]))
    raise Unsupported(n)


def permuted(E, r, kw):
    """a list with the same items in another order (sorted by the key when it can be expressed)"""
    sh, l = place(E, r)
    n = l[0]
    p, q = fn(E, 'perm', I, I), fn(E, 'inv', I, I)
    j = z3.Int('j?p')
    # (outside of the list the permutation is the identity)
    E.assume(forall([j], z3.And(q(p(j)) == j, z3.And(j >= 0, j < n) == z3.And(p(j) >= 0, p(j) < n)), [p(j)]))
    E.assume(forall([j], z3.And(p(q(j)) == j, z3.And(j >= 0, j < n) == z3.And(q(j) >= 0, q(j) < n)), [q(j)]))
    out = []
    for a in l[1:]:
        f = E.fresh('sorted', a.sort())
        E.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(f, j) == z3.Select(a, p(j))), [z3.Select(f, j)]))
        E.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) == z3.Select(f, q(j))), [z3.Select(a, j)]))
        out.append(f)
    res = E.alloc(Sym(sh, [n] + out))
    rev = kw.get('reverse', False)
    if not isinstance(rev, bool): rev = E.truth(rev)
    key = kw.get('key')
    # order of the keys, where the key can be computed without cases
    i1, i2 = z3.Int('i1?s'), z3.Int('i2?s')
    try:
        def kv(i):
            v = dec(E, sh[1], [z3.Select(a, i) for a in out])
            return E.call(key, [v]) if key is not None else v
        st = E.st
        s1, v1 = on(E, st, lambda: kv(i1)); s2, v2 = on(E, st, lambda: kv(i2))
        if len(s1.pc) == len(st.pc):
            a, b = (v2, v1) if rev else (v1, v2)
            if not isinstance(a, tuple): a, b = (a,), (b,)
            c = lexle(E, list(a), list(b))
            E.assume(forall([i1, i2], z3.Implies(z3.And(i1 >= 0, i1 < i2, i2 < n), c), [mpat(z3.Select(a, i1), z3.Select(a, i2)) for a in out]))
    except (Unsupported, PyRaise):
        E.notes.add('sorted(): order of the result left open')
    return res


def lexle(E, a, b):
    if not a: return TRUE
    x, y = a[0], b[0]
    if z3.is_expr(x) and x.sort() == I: le, eq = x < y, x == y
    else:
        xx, yy = E.key(x), E.key(y)
        le, eq = lt(xx, yy), z3.Not(z3.Or(lt(xx, yy), lt(yy, xx)))
    return z3.Or(le, z3.And(eq, lexle(E, a[1:], b[1:])))


# ---------------------------------------------------------------------- statements
def for_(E, s, st, env, mod):
    out = []
    for c, o in E.explore(st, lambda: E.iterate(E.ev(s.iter, env, mod))):
        if o[0] == 'raise': out.append((c, o)); continue
        d = o[1]
        if d.kind == 'conc': out += unroll(E, s, c, env, mod, d)
        else: out += For(E, s, c, env, mod, d).run()
    return out


def unroll(E, s, st, env, mod, d):
    cur, done, broken = [st], [], []
    for v in d.items:
        nxt = []
        for c in cur:
            if d.addr is not None and c.heap.get(d.addr) is not st.heap.get(d.addr): raise Unsupported('container changed while it is iterated over')
            for c2, o2 in E.simple(c, lambda: E.assign(s.target, v, env, mod)):
                if o2[0] != 'normal': done.append((c2, o2)); continue
                for r in E.block(s.body, c2, env, mod):
                    k = r[1][0]
                    if k in ('normal', 'continue'): nxt.append(r[0])
                    elif k == 'break': broken.append((r[0], ('normal', None)))
                    else: done.append(r)
        cur = nxt
        if len(cur) > E.maxpaths: raise Unsupported('too many paths')
    for c in cur:
        if s.orelse: done += E.block(s.orelse, c, env, mod)
        else: done.append((c, ('normal', None)))
    return done + broken


class Slot:
    """a variable or heap cell that the body changes"""
    def __init__(self, key, shape):
        self.key, self.shape = key, shape
        self.head = None        # leaves at the head
        self.init = None        # leaves before the loop
        self.graph = False
        self.still, self.moves = set(), set()   # leaves that keep their value, leaves that do not

    def read(self, E, st):
        """leaves in a state (may extend its path condition)"""
        k = self.key
        if self.graph:
            g = st.heap[k[1]]
            return [getattr(g, f) for f in HGraph.FIELDS]
        saved = E.st
        E.st = st
        try:
            if k[0] == 'env': return enc(E, st.envs[k[1]][k[2]], self.shape)
            if k[0] == 'attr': return enc(E, st.heap[k[1]].attrs[k[2]], self.shape)
            return enc(E, Ref(k[1]), self.shape)
        finally: E.st = saved

    def name(self):
        return '.'.join(str(x) for x in self.key)


class Loop:
    """common part of for and while"""
    def __init__(self, E, s, st, env, mod):
        self.E, self.s, self.st0, self.env, self.mod = E, s, st.copy(), env, mod
        self.slots, self.undef, self.conts = {}, set(), set()
        self.implied = {}
        self.fn = E.stack[-1] if getattr(E, 'stack', None) else ''

    def hasinner(self):
        return any(isinstance(n, (ast.For, ast.While)) for b in self.s.body for n in ast.walk(b))

    def settle(self):
        if not self.hasinner(): return self.settle1()
        # without invariants for the loops inside: what changes is all that is asked for here
        E = self.E
        n = E.lite
        try:
            E.lite = n + 1
            r = self.settle1()
            self.weak = True
            return r
        except Unsupported:
            if n: raise
            E.lite = n
            self.weak = False
            self.slots, self.undef = {}, set(self.undef0)
            return self.settle1()
        finally: E.lite = n

    weak = False

    def settle1(self):
        """(head state, outcomes of the body): every thing that some step changes has a fresh value at the head"""
        E = self.E
        for _ in range(9):
            h = self.havoc(self.st0)
            self.head_extra(h)
            if isinstance(self, For): h.iters = h.iters + [self]
            E.loopstack.append(self)
            try: res = self.body(h)
            finally: E.loopstack.pop()
            new = False
            for s1, o in res:
                if o[0] in ('normal', 'continue'): new |= self.diff(h, s1)
            if not new and not self.settled(h, res): return h, res
        raise Unsupported('loop state does not settle')

    def settled(self, h, res, again=False):
        """parts of a changed thing that every step leaves as they are need no fresh value; True: try again with another choice"""
        part = {k: range(1) if not sl.graph else range(len(HGraph.FIELDS)) for k, sl in self.slots.items() if sl.graph or sl.shape[0] == 'L'}
        if not part: return False
        ends = self.ends(h, res)
        new = False
        for k, js in part.items():
            sl = self.slots[k]
            for j in js:
                same = all(lv[k][j].eq(sl.head[j]) for _, lv in ends)
                if not same and j in sl.still: sl.still.discard(j); sl.moves.add(j); new = True
                if same and not again and j not in sl.still and j not in sl.moves: sl.still.add(j); new = True
        if new: self.initial()
        return new

    # -- what the body changes
    def diff(self, head, end):
        """record what differs between the head and the end of the body; True when something new was found"""
        E, new = self.E, False
        for e, vals in head.envs.items():
            for n, v in end.envs[e].items():
                if n.startswith('__'): continue
                if ('env', e, n) in self.undef: continue
                if n not in vals:
                    self.undef.add(('env', e, n)); new = True; continue
                o = vals[n]
                if o is v or same(o, v): continue
                new |= self.slot(('env', e, n), o, v, head, end)
            for n in vals:
                if not n.startswith('__') and n not in end.envs[e]: raise Unsupported('variable deleted in a loop')
        for a, h in head.heap.items():
            g = end.heap.get(a)
            if g is h: continue
            if isinstance(h, HObj):
                for n in set(h.attrs) | set(g.attrs):
                    if n not in h.attrs or n not in g.attrs:
                        if h.attrs.get(n) is not g.attrs.get(n): raise Unsupported('attribute created in a loop')
                    elif h.attrs[n] is not g.attrs[n] and not same(h.attrs[n], g.attrs[n]):
                        new |= self.slot(('attr', a, n), h.attrs[n], g.attrs[n], head, end)
                continue
            key = ('heap', a)
            if isinstance(h, HGraph):
                if key not in self.slots:
                    sl = Slot(key, None); sl.graph = True; self.slots[key] = sl; new = True
                continue
            new |= self.slot(key, Ref(a), Ref(a), head, end)
        g0, g1 = head.ghost.get('globals'), end.ghost.get('globals')
        if g0 != g1: raise Unsupported('global changed in a loop')
        return new

    def slot(self, key, o, v, head, end):
        E = self.E
        if key in self.undef: return False
        if key[0] == 'env' and (isinstance(o, Ref) or isinstance(v, Ref) or o is UNDEF or v is UNDEF or not scalarish(o) or not scalarish(v)):
            self.undef.add(key); self.slots.pop(key, None); return True
        if key[0] == 'attr' and (isinstance(o, Ref) or isinstance(v, Ref)): raise Unsupported('attribute rebound in a loop')
        saved = E.st
        try:
            E.st = head.copy(); a = shapeof(E, o)
            E.st = end.copy(); b = shapeof(E, v)
        finally: E.st = saved
        cur = self.slots.get(key)
        try: j = join(join(a, b), cur.shape if cur else a)
        except Unsupported:
            if key[0] == 'env': self.undef.add(key); self.slots.pop(key, None); return True
            raise
        if cur is not None and cur.shape == j: return False
        if cur is not None and key[0] == 'env' and j == 'U' and cur.shape == 'U': return False
        self.slots[key] = Slot(key, j)
        return True

    def havoc(self, st):
        """head state: every changed thing gets a fresh value; its invariants come later"""
        E = self.E
        h = st.copy()
        saved = E.st, E.run
        E.st, E.run = h, Run((), {})
        try:
            for key in self.undef: h.envs[key[1]][key[2]] = UNDEF
            for key, sl in self.slots.items():
                if sl.graph:
                    g = st.heap[key[1]]
                    h.heap[key[1]] = g.with_(**{f: E.fresh(f, GS[f]) for j, f in enumerate(HGraph.FIELDS) if j not in sl.still})
                    ng = h.heap[key[1]]
                    models.cardfacts(E, ng.nd)
                    for f in graph_wf(ng): h.pc.append(f)
                    sl.head = [getattr(ng, f) for f in HGraph.FIELDS]
                    continue
                nm = (key[2] if len(key) > 2 else 'c%d' % key[1])
                lv = [E.fresh('h_%s' % nm, so) if j not in sl.still else sl.init[j] for j, so in enumerate(leafsorts(sl.shape))]
                sl.head = lv
                if key[0] == 'heap': h.heap[key[1]] = Sym(sl.shape, lv)
                else:
                    v = dec(E, sl.shape, lv) if sl.shape != 'U' else Opq(lv[0], 'any')
                    if key[0] == 'env': h.envs[key[1]][key[2]] = v
                    else: h.heap[key[1]] = h.heap[key[1]].with_(key[2], v)
                h.pc += wellformed(E, sl.shape, lv)
        finally: E.st, E.run = saved
        return h

    def initial(self):
        E = self.E
        st = self.st0.copy()
        for sl in self.slots.values():
            r = [x for x in E.explore(st, lambda sl=sl: sl.read(E, E.st)) if x[1][0] == 'normal']
            if len(r) != 1: raise Unsupported('initial value with cases')
            st = r[0][0]; sl.init = r[0][1][1]
        self.init = st
        return st


def same(a, b):
    if type(a) is not type(b): return False
    if z3.is_expr(a): return a.eq(b)
    if isinstance(a, Opq): return a.cls == b.cls and a.t.eq(b.t)
    if isinstance(a, Ref): return a.a == b.a
    if isinstance(a, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int, str, float, type(None))): return a == b
    if isinstance(a, Cls): return a == b
    if isinstance(a, Builtin): return a.name == b.name
    if isinstance(a, Closure): return a.node is b.node and a.env == b.env
    if isinstance(a, Bound): return same(a.self_, b.self_) and (a.fn == b.fn or isinstance(a.fn, Closure) and same(a.fn, b.fn))
    return False


def scalarish(v):
    if v is None or isinstance(v, (bool, int, float, str, Opq)) or z3.is_expr(v): return True
    return isinstance(v, tuple) and all(scalarish(x) for x in v)


def wellformed(E, sh, lv):
    out = []
    if sh == '?': return out
    if isinstance(sh, tuple):
        if sh[0] == 'L': out.append(lv[0] >= 0)
        if sh[0] == 'S': models.cardfacts(E, lv[0])
        if sh[0] == 'D':
            models.cardfacts(E, lv[0])
            if isinstance(sh[1], tuple) and sh[1][0] == 'L':
                k = z3.Const('k?w', U); out.append(forall([k], z3.Select(lv[1], k) >= 0, [z3.Select(lv[1], k)]))
        if sh[0] == 'O': 
            m = {'str': K_STR, 'int': K_INT}.get(sh[1])
            if m is not None: out.append(kind(lv[0]) == m)
        if sh[0] in ('T', 'C'):
            i = 0
            for s in (sh[1:] if sh[0] == 'T' else [x for _, x in sh[1]]):
                n = nleaves(s); out += wellformed(E, s, lv[i:i + n]); i += n
    return out


def graph_wf(g):
    u, v = z3.Const('u?g', U), z3.Const('v?g', U)
    ed = models.sel2(g.ed, u, v)
    out = [forall([u, v], z3.Implies(ed, z3.And(z3.Select(g.nd, u), z3.Select(g.nd, v))), [ed])]
    if not g.directed:
        rev = models.sel2(g.ed, v, u)
        out.append(forall([u, v], z3.Implies(ed, z3.And(rev, models.sel2(g.ea, u, v) == models.sel2(g.ea, v, u), models.sel2(g.ev, u, v) == models.sel2(g.ev, v, u))), [ed]))
    return out


class Cand:
    def __init__(self, name, f, fixed=None):
        self.name, self.f = name, f      # f(leaves: {slot key: [terms]}, D) -> formula
        self.fixed = fixed               # (slot key, leaf) that keeps its value from before the loop


class For(Loop):
    def __init__(self, E, s, st, env, mod, d):
        Loop.__init__(self, E, s, st, env, mod)
        self.d = d
        self.seq = d.kind == 'seq'

    def head_extra(self, h):
        """iteration state of the head: done elements and the current one"""
        E, d = self.E, self.d
        saved = E.st; E.st = h
        try:
            if self.seq:
                self.D = E.fresh('k', I); self.x = self.D
                h.pc.append(z3.And(self.D >= 0, self.D < d.n)); self.after = self.D + 1
                self.first, self.all = z3.IntVal(0), (d.n if z3.is_expr(d.n) else z3.IntVal(d.n))
            else:
                self.D = E.fresh('done', UB); self.x = E.fresh('x', U)
                u = z3.Const('u?D', U)
                h.pc += [z3.Select(d.arr, self.x), z3.Not(z3.Select(self.D, self.x)),
                         forall([u], z3.Implies(z3.Select(self.D, u), z3.Select(d.arr, u)), [z3.Select(self.D, u)])]
                self.after = z3.Store(self.D, self.x, True)
                self.first, self.all = EMPTY, d.arr
        finally: E.st = saved

    def isdone(self, D, y):
        return z3.And(y >= 0, y < D) if self.seq else z3.Select(D, y)

    def dpat(self, D, y):
        if self.seq: return []
        return [z3.Select(self.D if D is self.after else D, y)]

    def body(self, h):
        E, s = self.E, self.s
        out = []
        hh = h.copy()
        c = getattr(self.d, 'counter', None)

        def bindx():
            v = self.d.elem(self.x)
            if c is not None:
                v = (z3.simplify(c + models.cardfacts(E, self.D)), v)
            E.assign(s.target, v, self.env, self.mod)
        for c2, o2 in E.simple(hh, bindx):
            if o2[0] != 'normal': out.append((c2, o2)); continue
            out += E.block(s.body, c2, self.env, self.mod)
        return out

    def run(self):
        E = self.E
        extra = []
        for n in names_of(self.s.target):
            if isinstance(self.s.target, (ast.Name, ast.Tuple, ast.List)): self.undef.add(('env', self.env, n))
        # 1. what changes
        self.undef0 = set(self.undef)
        h, res = self.settle()
        if self.d.addr is not None: self.mutated(h, res)
        self.initial()
        cands, res, h = self.houdini(h, res)
        self.foldrecs(cands)
        # 2. outcomes
        out = []
        lv = {k: sl.head for k, sl in self.slots.items()}
        inv = [c.f(lv, self.D) for c in cands]
        for s1, o in res:
            if o[0] in ('normal', 'continue'): continue
            s2 = s1.copy()
            s2.pc = s2.pc[:len(h.pc)] + inv + s2.pc[len(h.pc):]
            s2.iters = list(self.st0.iters)
            out.append((s2, ('normal', None) if o[0] == 'break' else o))
        e = h.copy()
        n = len(h.pc) - self.nextra
        e.pc = h.pc[:n - len(self.known)] + [c.f(lv, self.all) for c in self.known + cands]
        same = [(self.slots[c.fixed[0]].head[c.fixed[1]], c.fixed[2] if len(c.fixed) > 2 else self.slots[c.fixed[0]].init[c.fixed[1]]) for c in self.known + cands if c.fixed and c.fixed[1] not in self.slots[c.fixed[0]].still]
        if same:
            e.pc = dedup([z3.substitute(f, *same) for f in e.pc])
            for k, sl in self.slots.items():
                if k[0] == 'heap' and not sl.graph and isinstance(e.heap[k[1]], Sym): e.heap[k[1]] = Sym(sl.shape, [z3.substitute(l, *same) for l in sl.head])
                if sl.graph: e.heap[k[1]] = e.heap[k[1]].with_(**{f: z3.substitute(getattr(e.heap[k[1]], f), *same) for f in HGraph.FIELDS})
        e.iters = list(self.st0.iters)
        e.nf = max([e.nf] + [s.nf for s, _ in res]); e.na = max([e.na] + [s.na for s, _ in res])
        for fact in self.exitfacts: e.pc.append(fact)
        for r in (E.block(self.s.orelse, e, self.env, self.mod) if self.s.orelse else [(e, ('normal', None))]):
            out.append(r)
        return out

    known = []          # invariants of the first round (they hold at the head, their instance at the end is added)
    nextra = property(lambda self: 1 if self.seq else 3)
    exitfacts = ()

    def mutated(self, h, res):
        """the container that is iterated over must not change its members meanwhile"""
        a = self.d.addr
        o = self.d.origin
        if ('heap', a) not in self.slots: return
        sl = self.slots[('heap', a)]
        if sl.graph:
            what = o[0] if isinstance(o, tuple) else None
            for s1, oc in res:
                if oc[0] not in ('normal', 'continue'): continue
                g0, g1 = h.heap[a], s1.heap[a]
                if what == 'nodes' and g0.nd.eq(g1.nd): continue
                if what in ('edges', 'selfloops', 'row') and g0.ed.eq(g1.ed): continue
                raise Unsupported('graph changed while it is iterated over')
            # members stay what they were before the loop
            return
        raise Unsupported('container changed while it is iterated over')

    def ends(self, h, res):
        """[(state, leaves)] of the paths that go on"""
        E, out = self.E, []
        for s1, o in res:
            if o[0] not in ('normal', 'continue'): continue
            s, lv = s1, {}
            ok = True
            for k, sl in self.slots.items():
                r = [x for x in E.explore(s, lambda sl=sl: sl.read(E, E.st)) if x[1][0] == 'normal']
                if len(r) != 1: raise Unsupported('value with cases at the end of a loop body')
                s = r[0][0]; lv[k] = r[0][1][1]
            out.append((s, lv))
        return out

    def slow(self, c, f, *a):
        t = time.time()
        r = f(*a)
        if self.E.debug and time.time() - t > .3: print('      slow:', c.name, r[0], round(time.time() - t, 1))
        return r

    def again(self, h, known, head):
        """the body once more, with what is known at its head"""
        E = self.E
        h2 = h.copy()
        n = len(h2.pc) - self.nextra
        h2.pc = h2.pc[:n] + [c.f(head, self.D) for c in known] + h2.pc[n:]
        E.loopstack.append(self)
        try: res = self.body(h2)
        finally: E.loopstack.pop()
        new = False
        for s1, o in res:
            if o[0] in ('normal', 'continue'): new |= self.diff(h, s1)
        if new or self.settled(h2, res, True): raise Unsupported('loop state does not settle')
        return h2, res

    def houdini(self, h0, res0, banned=frozenset()):
        E = self.E
        h, res = h0, res0
        self.known = []
        if E.lite:
            gtemplates.findkeys(self, self.ends(h, res))
            self.kept = []
            return [], res, h
        inner = self.hasinner()
        init = {k: sl.init for k, sl in self.slots.items()}
        head = {k: sl.head for k, sl in self.slots.items()}
        first = lambda c: E.prove(self.init.pc, c.f(init, self.first), E.looptimeout)[0] == 'proved'
        if inner:
            opt = [c for c in gtemplates.findkeys(self, self.ends(h, res)) if c.name not in banned]
            opt = [c for c in opt if first(c)]
            if opt or self.weak:
                h, res = self.again(h0, opt, head)
                self.known = opt
        for rnd in range(2):
            ends = self.ends(h, res)
            cands = self.candidates(h, ends, res)
            keep = []
            for c in cands:
                if c.name in banned: continue
                try:
                    if first(c): keep.append(c)
                except Unsupported: continue
            while True:
                hyp = [c.f(head, self.D) for c in keep]
                bad = []
                for c in keep:
                    for s1, lv in ends:
                        pc = s1.pc[:len(h.pc)] + hyp + s1.pc[len(h.pc):]
                        if self.slow(c, E.prove, pc, c.f(lv, self.after), E.looptimeout)[0] != 'proved':
                            bad.append(c); break
                if not bad: break
                keep = [c for c in keep if c not in bad]
            self.dropped = [c.name for c in cands if c not in keep]
            if E.debug:
                print('loop %s line %d: kept %s dropped %s' % (self.fn, self.s.lineno, [c.name for c in keep], self.dropped))
            shown = {hc.sexpr() for hc in [c.f(head, self.D) for c in keep]}
            lost = [c.name for c in self.known if c.f(head, self.D).sexpr() not in shown]
            if lost and rnd == 0:
                # an assumption that does not hold: without it
                if E.debug: print('   assumed in vain:', lost)
                return self.houdini(h0, res0, banned | set(lost))
            if rnd == 0 and inner and len(keep) > len(self.known):
                h, res = self.again(h0, keep, head)
                self.known = keep
                continue
            break
        self.kept = keep
        return keep, res, h

    # -- proposals
    def candidates(self, h, ends, res):
        E = self.E
        out = []
        hav = {d.name() for sl in self.slots.values() for j, l in enumerate(sl.head) if j not in sl.still for d in consts(l).values() if stamp(d.name()) >= 0}
        base = max([stamp(d.name()) for l in [self.D, self.x] for d in consts(l).values()] + [stamp(n) for n in hav] + [0])
        if not self.seq: hav.add(self.D.decl().name())
        x = self.x

        def pure(e):
            for n in consts(e):
                if n in hav: return False
                if stamp(n) > base: return False
            return True
        n0 = len(h.pc)
        self.paths = []
        for s1, lv in ends:
            suf = s1.pc[n0:]
            p = [f for f in suf if pure(f) and not z3.is_true(f)]
            q = self.someval([f for f in suf if not pure(f) and not is_q(f)], hav, base)
            self.paths.append((conj(p + q), len(p) == len(suf), s1, lv, suf))
        self.pure = pure
        y = z3.Const('y?v', x.sort())
        normal = disj([c for c, *_ in self.paths])
        if not z3.is_true(normal):
            out.append(Cand('done elements took a normal path', lambda lv, D: forall([y], z3.Implies(self.isdone(D, y), sub1(normal, x, y)), self.dpat(D, y))))
        given = [Cand(n, f) for n, f in (E.inv(self) or [])] if E.inv is not None else []
        for k, sl in self.slots.items():
            if k in self.skip: continue
            try: out += self.templates(k, sl, y)
            except Unsupported: pass
        return out + given

    def someval(self, fs, hav, base):
        """conditions on values found in the body (the element at which an inner loop stopped): such values exist"""
        use, ks = [], {}
        for f in fs:
            cs = consts(f)
            new = {n: d for n, d in cs.items() if stamp(n) > base}
            if any(n in hav for n in cs) or not new or any(d.arity() for d in new.values()): continue
            use.append(f); ks.update(new)
        if not use: return []
        out = []
        # constants that occur together are bound together
        groups = []
        for f in use:
            ns = {n for n in consts(f) if n in ks}
            hit = [g for g in groups if g[0] & ns]
            for g in hit: groups.remove(g)
            groups.append((set().union(ns, *[g[0] for g in hit]), [x for g in hit for x in g[1]] + [f]))
        for ns, l in groups:
            sub = [(ks[n](), z3.Const('%s?e' % n.split('!')[0].replace('~', '') + str(i), ks[n].range())) for i, n in enumerate(sorted(ns))]
            body = z3.substitute(conj(l), *sub)
            out.append(exists([b for _, b in sub], body, patterns=heads(body, sub[0][1]) if len(sub) == 1 else []))
        return out

    skip = ()           # slots for which the contract gives the invariant

    def templates(self, k, sl, y):
        E, x, out = self.E, self.x, []
        sh = sl.shape
        nm = sl.name()
        if sl.graph:
            i = HGraph.FIELDS.index('nd')
            gt = gtemplates.templates(self, k, sl, nm)
            if not any(c.name in (nm + '.nd members are counted', nm + '.nd unchanged') for c in gt): out += self.settemplate(k, sl, i, y, nm + '.nodes')
            if isinstance(self.d.origin, tuple) and self.d.addr == k[1]:
                f = {'nodes': 'nd', 'edges': 'ed', 'row': 'ed', 'selfloops': 'ed'}[self.d.origin[0]]
                j = HGraph.FIELDS.index(f)
                out.append(Cand(nm + ' members unchanged', lambda lv, D: lv[k][j] == sl.init[j], (k, j)))
            out += gt
            for f in HGraph.FIELDS:
                j = HGraph.FIELDS.index(f)
                if j in sl.still: continue
                if all(lv[k][j].eq(sl.head[j]) for _, _, _, lv, _ in self.paths):
                    out.append(Cand('%s.%s unchanged' % (nm, f), lambda lv, D, j=j: lv[k][j] == sl.init[j], (k, j)))
            return out
        if sh == 'I':
            ds = [z3.simplify(lv[k][0] - sl.head[0]) for _, _, _, lv, _ in self.paths]
            if all(z3.is_int_value(d) for d in ds):
                if all(d.as_long() >= 0 for d in ds): out.append(Cand(nm + ' grows', lambda lv, D: lv[k][0] >= sl.init[0]))
                if all(d.as_long() in (0, 1) for d in ds):
                    g = disj([c for (c, *_), d in zip(self.paths, ds) if d.as_long() == 1])
                    cnt = self.counter(g)
                    out.append(Cand(nm + ' counts', lambda lv, D: lv[k][0] == sl.init[0] + cnt(D)))
            else:
                out.append(Cand(nm + ' stays above', lambda lv, D: lv[k][0] >= sl.init[0]))
                if self.seq:
                    vals = []
                    for _, _, _, lv, _ in self.paths:
                        v = lv[k][0]
                        if not v.eq(sl.head[0]) and not any(v.eq(q) for q in vals): vals.append(v)
                    if len(vals) == 1 and self.pure(vals[0]):
                        # the value belongs to the last element
                        out.append(Cand(nm + ' of the last element', lambda lv, D: lv[k][0] == z3.If(D > self.first, sub1(vals[0], x, D - 1), sl.init[0])))
                out.append(Cand(nm + ' positive', lambda lv, D: lv[k][0] > 0))
                terms = [(c, [d]) for (c, *_), d in zip(self.paths, ds)]
                if all(self.pure(d) for d in ds):
                    sm = self.stepfold(None, terms)
                    if sm is not None: out.append(Cand(nm + ' adds up', lambda lv, D: lv[k][0] == sl.init[0] + sm(D)))
            out.append(Cand(nm + ' not negative', lambda lv, D: lv[k][0] >= 0))
            return out
        if sh == 'B':
            hit = [(c, lv[k][0]) for c, _, _, lv, _ in self.paths]
            chg = [(c, v) for c, v in hit if not v.eq(sl.head[0])]
            if all(z3.is_true(z3.simplify(v)) for _, v in chg):
                g = disj([c for c, _ in chg])
                out.append(Cand(nm + ' flag', lambda lv, D: lv[k][0] == z3.Or(sl.init[0], exists([y], z3.And(self.isdone(D, y), sub1(g, x, y))))))
            if all(z3.is_false(z3.simplify(v)) for _, v in chg):
                g = disj([c for c, _ in chg])
                out.append(Cand(nm + ' flag', lambda lv, D: lv[k][0] == z3.And(sl.init[0], z3.Not(exists([y], z3.And(self.isdone(D, y), sub1(g, x, y)))))))
            return out
        if not isinstance(sh, tuple): return out
        if sh[0] == 'S':
            l = self.settemplate(k, sl, 0, y, nm)
            if E.loopstack or not any(c.name.endswith('holds the done elements') for c in l): l += self.domfold(k, sl, 0, nm)
            return l
        if sh[0] == 'D':
            out += self.settemplate(k, sl, 0, y, nm)
            for i in range(1, nleaves(sh)):
                if leafsorts(sh)[i].range().kind() != z3.Z3_ARRAY_SORT and not (sh[1] == 'I' and self.increments(k, sl)): out += self.valtemplate(k, sl, i, y, nm)
            if sh[1] == 'I':
                if not any(c.fixed for c in out): out += self.domfold(k, sl, 0, nm)
                out += self.valfold(k, sl, nm)
            return out
        if sh[0] == 'L': return self.listtemplate(k, sl, y, nm)
        return out

    def chain(self, t, base, u, what):
        """what a path adds to the value (or the membership) of u: the stores and the loops inside the body"""
        recs = getattr(self.E, 'foldrecs', {})
        out = []
        while not t.eq(base):
            if z3.is_app_of(t, z3.Z3_OP_STORE):
                a, i, v = t.children()
                if what == 'dom':
                    if not z3.is_true(v): return None
                    d = z3.IntVal(1)
                else:
                    d = z3.simplify(v - z3.Select(a, i))
                    if not self.pure(d): d = v
                if not self.pure(i) or not self.pure(d): return None
                out.append(z3.If(i == u, d, 0)); t = a
            elif z3.is_const(t) and t.decl().name() in recs:
                init, f = recs[t.decl().name()]
                d = f(u)
                if not self.pure(d): return None
                out.append(d); t = init
            else: return None
        return out

    def increments(self, k, sl):
        """some step adds to the value that is there"""
        recs = getattr(self.E, 'foldrecs', {})
        for c, exact, s1, lv, suf in self.paths:
            t = lv[k][1]
            while z3.is_app_of(t, z3.Z3_OP_STORE):
                a, i, v = t.children()
                if not self.pure(v) and self.pure(z3.simplify(v - z3.Select(a, i))): return True
                t = a
            if z3.is_const(t) and t.decl().name() in recs: return True
        return False

    def fromdomain(self, c):
        """drop what already follows from there being an element"""
        out = []
        n = self.x.decl().name()
        for f in (c.children() if z3.is_and(c) else [c]):
            if not z3.is_true(f) and n not in consts(f) and not is_q(f):
                k = f.sexpr()
                if k not in self.implied:
                    self.implied[k] = self.E.prove([self.isdone(self.all, self.x)] + [q for q in self.st0.pc if not is_q(q)], f, 500)[0] == 'proved'
                if self.implied[k]: continue
            out.append(f)
        return conj(out)

    def stepfold(self, u, terms):
        """sum over the elements of what the paths add"""
        E = self.E
        body, seen = z3.IntVal(0), []
        for c, ds in terms[::-1]:
            c = self.fromdomain(c)
            d = z3.simplify(z3.Sum(ds)) if ds else z3.IntVal(0)
            if any(c2.eq(c) and d2.eq(d) for c2, d2 in seen): continue
            seen.append((c, d))
            body = z3.If(c, d, body) if not z3.is_true(c) else d
        if not self.seq: body = z3.substitute(body, (z3.Select(self.d.arr, self.x), TRUE))
        body = z3.simplify(body)
        if z3.is_int_value(body): return None
        s = folds.fold(E, 'seq' if self.seq else 'set', self.x, body)
        folds.steps(E, s, [] if u is None else list(u) if isinstance(u, tuple) else [u], self.D, self.x, self.after, self.first)
        return s

    def domfold(self, k, sl, i, nm):
        """members: the initial ones and those that some step adds"""
        u = z3.Const('u?t', U)
        terms = []
        for c, exact, s1, lv, suf in self.paths:
            ds = self.chain(lv[k][i], sl.head[i], u, 'dom')
            if ds is None: return []
            terms.append((c, ds))
        s = self.stepfold(u, terms)
        if s is None: return []
        c = Cand(nm + ' members are counted', lambda lv, D: forall([u], z3.Select(lv[k][i], u) == z3.Or(z3.Select(sl.init[i], u), s(D) > 0), [z3.Select(lv[k][i], u), s(D)]))
        c.rec = (k, i, lambda w: s.at((u, w))(self.all))
        return [c]

    def valfold(self, k, sl, nm):
        """values of a dictionary of numbers: what the steps add up to"""
        u = z3.Const('u?t', U)
        terms = []
        for c, exact, s1, lv, suf in self.paths:
            ds = self.chain(lv[k][1], sl.head[1], u, 'val')
            if ds is None: return []
            terms.append((c, ds))
        s = self.stepfold(u, terms)
        if s is None: return []
        val = lambda d, a: z3.If(z3.Select(d, u), z3.Select(a, u), 0)
        c = Cand(nm + ' values add up', lambda lv, D: forall([u], val(lv[k][0], lv[k][1]) == val(sl.init[0], sl.init[1]) + s(D), [z3.Select(lv[k][0], u), z3.Select(lv[k][1], u)]))
        c.rec = (k, 1, lambda w: s.at((u, w))(self.all))
        return [c]

    def foldrecs(self, kept):
        """what this loop did, for the loops around it"""
        E = self.E
        if not hasattr(E, 'foldrecs'): E.foldrecs = {}
        gtemplates.publish(self)
        for c in kept:
            if getattr(c, 'rec', None):
                k, i, f = c.rec
                sl = self.slots[k]
                if i not in sl.still: E.foldrecs[sl.head[i].decl().name()] = (sl.init[i], f)

    def counter(self, g):
        for g2, D, c in self.counters:
            if g2.eq(g) and D.eq(self.D): return c
        c = self.newcounter(g)
        self.counters = self.counters + [(g, self.D, c)]
        return c

    counters = []

    def newcounter(self, g):
        """number of done elements with g: function of the done elements, with its step"""
        E = self.E
        age = max([stamp(d.name()) for l in [self.D, self.x] for d in consts(l).values()] + [0])
        cnt = fn(E, 'count', I if self.seq else UB, I, age=age)
        gx = g
        E.fact(cnt(self.first) == 0)
        E.fact(cnt(self.after) == cnt(self.D) + z3.If(gx, 1, 0))
        E.fact(cnt(self.all) >= 0)
        if not self.seq:
            E.st_counts.append((cnt, self.d, self.x, g))
            if self.pure(g):
                # the elements with g in the order of the iteration
                y, j = z3.Const('y?n', U), z3.Int('j?n')
                src, pos = fn(E, 'which', I, U, age=age), fn(E, 'place', U, I, age=age)
                gy = lambda t: sub1(g, self.x, t)
                E.fact(z3.Implies(gx, z3.And(pos(self.x) == cnt(self.D), src(cnt(self.D)) == self.x)))
                for D in (self.D, self.after, self.all):
                    E.fact(forall([y], z3.Implies(z3.And(z3.Select(D, y), gy(y)), z3.And(pos(y) >= 0, pos(y) < cnt(D), src(pos(y)) == y)), [pos(y)]))
                    E.fact(forall([j], z3.Implies(z3.And(j >= 0, j < cnt(D)), z3.And(z3.Select(D, src(j)), gy(src(j)), pos(src(j)) == j)), [src(j)]))
                cnt.which, cnt.pos = src, pos
        elif self.pure(g):
            # the j-th element with g (facts about counting the elements of a prefix)
            y, j = z3.Int('y?n'), z3.Int('j?n')
            src = fn(E, 'which', I, I, age=age)
            gy = lambda t: sub1(g, self.x, t)
            E.fact(forall([y], z3.Implies(z3.And(y >= 0, gy(y)), z3.And(cnt(y) >= 0, src(cnt(y)) == y)), [cnt(y)]))
            for D in (self.D, self.after, self.all):
                E.fact(forall([y], z3.Implies(z3.And(y >= 0, y < D, gy(y)), cnt(y) < cnt(D)), [cnt(y)]))
                E.fact(forall([j], z3.Implies(z3.And(j >= 0, j < cnt(D)), z3.And(src(j) >= 0, src(j) < D, gy(src(j)), cnt(src(j)) == j)), [src(j)]))
            cnt.which, cnt.pos = src, cnt
            sm = folds.fold(E, 'seq', self.x, z3.If(g, z3.IntVal(1), z3.IntVal(0)))
            folds.steps(E, sm, [], self.D, self.x, self.after, self.first)
            E.fact(forall([y], z3.Implies(y >= 0, cnt(y) == sm(y)), [cnt(y)]))
            E.fact(forall([y], z3.Implies(y >= 0, cnt(y) == sm(y)), [sm(y)]))
        return cnt

    def stores(self, t, base):
        """[(index, value)] of a chain of stores over base, oldest first; None if it is something else"""
        out = []
        t = z3.simplify(t) if False else t
        while not t.eq(base):
            if not z3.is_app_of(t, z3.Z3_OP_STORE): return None
            a, i, v = t.children()
            out.append((i, v)); t = a
        return out[::-1]

    def unions(self, t, base, suf):
        """sets added to base, where t was made by unions"""
        if z3.is_app_of(t, z3.Z3_OP_SET_UNION) and t.arg(0).eq(base): return t.arg(1)
        for f in suf:
            if z3.is_eq(f) and f.arg(0).eq(t):
                r = f.arg(1)
                if z3.is_app_of(r, z3.Z3_OP_SET_UNION) and r.arg(0).eq(base): return r.arg(1)
        return None

    def settemplate(self, k, sl, i, y, nm):
        x, out = self.x, []
        parts, removed, un = [], [], []
        for c, exact, s1, lv, suf in self.paths:
            st = self.stores(lv[k][i], sl.head[i])
            if st is None:
                uu = self.unions(lv[k][i], sl.head[i], suf)
                if uu is not None and self.pure(uu): un.append((c, uu)); continue
                parts = None; break
            for ix, v in st:
                if z3.is_true(v): parts.append((c, ix))
                else: removed.append((c, ix))
        u = z3.Const('u?t', U)
        if not self.seq and parts and not removed and not un and sl.init[i].eq(EMPTY) and x.sort() == U and all(lv[k][i].eq(z3.Store(sl.head[i], x, TRUE)) for *_, lv, _ in self.paths):
            return [Cand(nm + ' is the set of done elements', lambda lv, D: lv[k][i] == D, (k, i, self.all))]
        if not sl.graph and sl.shape[:2] == ('D', 'I') and parts and not removed and self.increments(k, sl):
            if self.alone(k, i): return [Cand(nm + ' members stay', lambda lv, D: lv[k][i] == sl.init[i], (k, i))]
        out.append(Cand(nm + ' only grows', lambda lv, D: forall([u], z3.Implies(z3.Select(sl.init[i], u), z3.Select(lv[k][i], u)), [z3.Select(lv[k][i], u), z3.Select(sl.init[i], u)] if z3.is_const(sl.init[i]) and sl.init[i].decl().kind() == z3.Z3_OP_UNINTERPRETED else [z3.Select(lv[k][i], u)])))
        if parts is None: return out
        if removed and not parts and not un:
            if all(self.pure(ix) for _, ix in removed):
                def f(lv, D):
                    return forall([u], z3.Select(lv[k][i], u) == z3.And(z3.Select(sl.init[i], u), z3.Not(self.some(D, x, y, u, removed))), [z3.Select(lv[k][i], u)])
                out.append(Cand(nm + ' loses the done elements', f))
            return out
        if removed: return out
        if all(self.pure(ix) for _, ix in parts):
            simple = not un and x.sort() == U and all(ix.eq(x) for _, ix in parts)

            def f(lv, D):
                alts = [z3.Select(sl.init[i], u)]
                if parts: alts.append(self.some(D, x, y, u, parts))
                for c, s in un: alts.append(exists([y], z3.And(self.isdone(D, y), sub1(c, x, y), z3.Select(sub1(s, x, y), u)), patterns=self.dpat(D, y)))
                t = z3.Select(lv[k][i], u)
                return forall([u], t == disj(alts) if simple else z3.Implies(t, disj(alts)), [t])
            out.append(Cand(nm + ' holds the done elements', f))
            if not simple:
                for c, ix in parts:
                    out.append(Cand(nm + ' done elements are there', lambda lv, D, c=c, ix=ix: forall([y], z3.Implies(z3.And(self.isdone(D, y), sub1(c, x, y)), z3.Select(lv[k][i], sub1(ix, x, y))), self.dpat(D, y))))
            for c, s in un:
                out.append(Cand(nm + ' covers', lambda lv, D, c=c, s=s: forall([y, u], z3.Implies(z3.And(self.isdone(D, y), sub1(c, x, y), z3.Select(sub1(s, x, y), u)), z3.Select(lv[k][i], u)), [mpat(self.dpat(D, y)[0], z3.Select(sub1(s, x, y), u))] if not self.seq else [])))
        return out

    def alone(self, k, i, t=1000):
        """no step changes a leaf, whatever the other invariants are"""
        sl = self.slots[k]
        for _, _, s1, lv, _ in self.paths:
            for ix, v in self.stores(lv[k][i], sl.head[i]) or []:
                if z3.is_true(v) and any(z3.is_not(f) and f.arg(0).eq(z3.Select(sl.head[i], ix)) for f in s1.pc): return False
        return all(self.E.prove(s1.pc + [sl.head[i] == sl.init[i]], lv[k][i] == sl.init[i], t)[0] == 'proved' for _, _, s1, lv, _ in self.paths)

    def some(self, D, x, y, u, parts):
        """some done element has u as its key"""
        if x.sort() == U and all(ix.eq(x) for _, ix in parts):
            return z3.And(self.isdone(D, u), disj([sub1(c, x, u) for c, _ in parts]))
        return exists([y], z3.And(self.isdone(D, y), disj([z3.And(sub1(c, x, y), sub1(ix, x, y) == u) for c, ix in parts])), patterns=self.dpat(D, y))

    def valtemplate(self, k, sl, i, y, nm):
        x, out = self.x, []
        keys = []
        for c, exact, s1, lv, suf in self.paths:
            st = self.stores(lv[k][i], sl.head[i])
            if st is None: return out
            for n, (ix, v) in enumerate(st):
                keys.append((c, ix))
                if any(ix2.eq(ix) for ix2, _ in st[n + 1:]): continue
                if self.pure(ix) and self.pure(v):
                    out.append(Cand('%s value %d' % (nm, i), lambda lv, D, c=c, ix=ix, v=v: forall([y], z3.Implies(z3.And(self.isdone(D, y), sub1(c, x, y)), z3.Select(lv[k][i], sub1(ix, x, y)) == sub1(v, x, y)), self.dpat(D, y))))
        if all(self.pure(ix) for _, ix in keys):
            u = z3.Const('u?t', U)
            out.append(Cand('%s frame %d' % (nm, i), lambda lv, D: forall([u], z3.Implies(z3.Not(self.some(D, x, y, u, keys)) if keys else TRUE, z3.Select(lv[k][i], u) == z3.Select(sl.init[i], u)), [z3.Select(lv[k][i], u)])))
        return out

    def listtemplate(self, k, sl, y, nm):
        x, out = self.x, []
        n, arrs = sl.head[0], sl.head[1:]
        j = z3.Int('j?t')
        if 0 in sl.still and sl.shape[1] == 'I':
            q, terms = z3.Int('i?t'), []
            for c, exact, s1, lv, suf in self.paths:
                ds = self.chain(lv[k][1], sl.head[1], q, 'val')
                if ds is None: return out
                terms.append((c, ds))
            sm = self.stepfold(q, terms)
            if sm is not None: out.append(Cand(nm + ' entries add up', lambda lv, D: forall([q], z3.Select(lv[k][1], q) == z3.Select(sl.init[1], q) + sm(D), [z3.Select(lv[k][1], q)])))
            return out
        apps = []
        for c, exact, s1, lv, suf in self.paths:
            dl = z3.simplify(lv[k][0] - n)
            if not z3.is_int_value(dl): return out
            m = dl.as_long()
            items = []
            for a, b in zip(arrs, lv[k][1:]):
                st = self.stores(b, a)
                if st is None or len(st) != m: return out
                items.append([v for _, v in st])
            apps.append((c, m, items))
        out.append(Cand(nm + ' keeps its items', lambda lv, D: z3.And(lv[k][0] >= sl.init[0], *[forall([j], z3.Implies(z3.And(j >= 0, j < sl.init[0]), z3.Select(b, j) == z3.Select(a, j)), [z3.Select(b, j)]) for a, b in zip(sl.init[1:], lv[k][1:])])))
        good = [q for q in range(len(arrs)) if all(self.pure(v) for c, m, it in apps for v in it[q])]
        if self.seq and all(m == 1 for _, m, _ in apps):
            def f(lv, D):
                cs = [lv[k][0] == sl.init[0] + D]
                for q, b in enumerate(lv[k][1:]):
                    if q not in good: continue
                    for c, m, it in apps:
                        cs.append(forall([j], z3.Implies(z3.And(j >= sl.init[0], j < sl.init[0] + D, sub1(c, x, j - sl.init[0])), z3.Select(b, j) == sub1(it[q][0], x, z3.simplify(j - sl.init[0]))), [z3.Select(b, j)] + heads(sub1(it[q][0], x, z3.simplify(j - sl.init[0])), j)[:1]))
                return conj(cs)
            out.append(Cand(nm + ' one item per element', f))
            if len(good) == len(arrs): return out
        if len(good) < len(arrs): return out
        if all(m <= 1 for _, m, _ in apps):
            g = disj([c for c, m, _ in apps if m == 1])
            cnt = self.counter(g)
            out.append(Cand(nm + ' length', lambda lv, D: lv[k][0] == sl.init[0] + cnt(D)))

            def pats(D):
                p = self.dpat(D, y)
                if p: return p
                ts = [sub1(it[q][0], x, y) for c, m, it in apps if m == 1 for q in range(len(it))]
                return [t for t in ts if models.okpat(t, y) and y.decl().name() in consts(t)]

            def f2(lv, D):
                alts = [conj([sub1(c, x, y)] + [z3.Select(b, j) == sub1(it[q][0], x, y) for q, b in enumerate(lv[k][1:])]) for c, m, it in apps if m == 1]
                return forall([j], z3.Implies(z3.And(j >= sl.init[0], j < lv[k][0]), exists([y], z3.And(self.isdone(D, y), disj(alts)), patterns=pats(D))), [z3.Select(lv[k][1], j)])

            def f3(lv, D):
                alts = [conj([sub1(c, x, y)] + [z3.Select(b, j) == sub1(it[q][0], x, y) for q, b in enumerate(lv[k][1:])]) for c, m, it in apps if m == 1]
                return forall([y], z3.Implies(z3.And(self.isdone(D, y), sub1(g, x, y)), exists([j], z3.And(j >= sl.init[0], j < lv[k][0], disj(alts)), patterns=[z3.Select(lv[k][1], j)])), pats(D))
            src = getattr(cnt, 'which', None)
            if src is not None:
                def f4(lv, D):
                    w = src(j - sl.init[0])
                    alts = [conj([sub1(c, x, w)] + [z3.Select(b, j) == sub1(it[q][0], x, w) for q, b in enumerate(lv[k][1:])]) for c, m, it in apps if m == 1]
                    return forall([j], z3.Implies(z3.And(j >= sl.init[0], j < lv[k][0]), disj(alts)), [z3.Select(lv[k][1], j)])

                def f5(lv, D):
                    w = sl.init[0] + cnt.pos(y)
                    alts = [conj([sub1(c, x, y)] + [z3.Select(b, w) == sub1(it[q][0], x, y) for q, b in enumerate(lv[k][1:])]) for c, m, it in apps if m == 1]
                    return forall([y], z3.Implies(z3.And(self.isdone(D, y), sub1(g, x, y)), disj(alts)), [cnt.pos(y)] + pats(D))
                out.append(Cand(nm + ' items in order', f4))
                out.append(Cand(nm + ' done elements in order', f5))
            else:
                out.append(Cand(nm + ' items come from done elements', f2))
                out.append(Cand(nm + ' done elements are items', f3))
        return out


class While(For):
    """while: no domain; invariants from the contracts and simple templates"""
    def __init__(self, E, s, st, env, mod):
        Loop.__init__(self, E, s, st, env, mod)
        self.seq = True
        self.d = Dom('seq', n=None)

    nextra = 0

    def head_extra(self, h):
        saved = self.E.st; self.E.st = h
        try:
            self.D = self.E.fresh('iteration', I); self.x = self.D
            self.after, self.first, self.all = self.D + 1, z3.IntVal(0), self.E.fresh('iterations', I)
        finally: self.E.st = saved

    def body(self, h):
        E, s = self.E, self.s
        out = []
        self.exits = []
        for c, o in E.explore(h.copy(), lambda: E.truth(E.ev(s.test, self.env, self.mod))):
            if o[0] == 'raise': out.append((c, o))
            elif o[1]: out += E.block(s.body, c, self.env, self.mod)
            else: self.exits.append(c)
        return out

    def run(self):
        E = self.E
        self.undef0 = set(self.undef)
        h, res = self.settle()
        self.initial()
        cands, res, h = self.houdini(h, res)
        E.notes.add('termination of while loops is not proved')
        out = []
        lv = {k: sl.head for k, sl in self.slots.items()}
        inv = [c.f(lv, self.D) for c in cands]

        def withinv(s1):
            s2 = s1.copy(); s2.pc = s2.pc[:len(h.pc)] + inv + s2.pc[len(h.pc):]; s2.iters = list(self.st0.iters)
            return s2
        for s1, o in res:
            if o[0] in ('normal', 'continue'): continue
            out.append((withinv(s1), ('normal', None) if o[0] == 'break' else o))
        for c in self.exits:
            e = withinv(c)
            if self.s.orelse: out += E.block(self.s.orelse, e, self.env, self.mod)
            else: out.append((e, ('normal', None)))
        return out


def while_(E, s, st, env, mod):
    return While(E, s, st, env, mod).run()
